"""Histories of operations on spaces in every storage mode, with faults,
checked step by step against the reference model."""
import copy, json, os, random, sqlite3
import simlib, world
from simlib import L, Violation, bypass
from gen import Gen, REFS


def toron():
    import toron as t
    return t


class Refs:
    """Source spaces for links."""
    def __init__(self):
        from toron.space import DataSpace
        self.spaces = []
        for cols, rows in ((['A'], [('x',), ('y',), ('z',), ('w',)]),
                           (['A', 'B'], [('x', 'x'), ('x', 'y'), ('y', 'x')])):
            s = DataSpace()
            s.set_domain('src')
            s.add_index_columns(*cols)
            s.insert_index(rows, cols)
            self.spaces.append(s)
        self.uids = [s.unique_id for s in self.spaces]


class Store:
    """One space in one storage mode."""
    def __init__(self, mode, d, name='space'):
        from toron.space import DataSpace
        self.mode, self.d, self.name = mode, d, name
        self.path = os.path.join(d, 'work', name + '.toron')
        if mode == 'mem':
            self.space = DataSpace()
        elif mode == 'cache':
            self.space = DataSpace(cache_to_drive=True)
        elif mode == 'bind':
            self.space = toron().bind_file(self.path, mode='rwc')
        elif mode in ('read', 'readcache'):
            DataSpace().to_file(self.path)
            self.space = toron().read_file(self.path, cache_to_drive=mode == 'readcache')
        else:
            raise AssertionError(mode)

    @property
    def bound(self):
        return self.mode == 'bind'

    def state(self):
        return world.space_state(self.space, self.path if self.bound else None, self.d)

    def reopen(self):
        """Save, drop the object and open it again (bound: rebind)."""
        t = toron()
        if self.bound:
            self.space = None
            self.space = t.bind_file(self.path, mode='rw')
        else:
            self.space.to_file(self.path)
            self.space = None
            self.space = t.read_file(self.path, cache_to_drive=self.mode in ('cache', 'readcache'))

    def move(self, mode):
        """Continue in another storage mode (through a saved file)."""
        t = toron()
        self.n = getattr(self, 'n', 0) + 1
        path = os.path.join(self.d, 'work', f'{self.name}-moved{self.n}.toron')
        if mode == 'bind':
            if self.bound:
                with bypass():
                    world.space_state(self.space, self.path, self.d)
            self.space.to_file(path)
            self.space = None
            self.space = t.bind_file(path, mode='rw')
        else:
            self.space.to_file(path)
            self.space = None
            self.space = t.read_file(path, cache_to_drive=mode in ('cache', 'readcache'))
        self.mode, self.path = mode, path

MODES = ['mem', 'cache', 'bind', 'read', 'readcache']


def run_op(space, op, refs, hook=None):
    """None on success, the exception otherwise."""
    try:
        world.execute(space, op, refs.spaces, hook)
    except Exception as e:
        if not simlib._in_toron(e.__traceback__) and not isinstance(e, (AssertionError,)):
            tb, last = e.__traceback__, None
            while tb:
                last = tb.tb_frame.f_code.co_filename
                tb = tb.tb_next
            if last.endswith(('world.py', 'gen.py', 'hist.py')) and not getattr(e, 'injected', False):
                raise
        return e
    return None



# ------------------------------------------------------------ the histories
ALL_KEYS = None
DELOPS = {'delidx', 'delidxc', 'dropwg', 'droplink', 'delunm', 'delnoidx', 'delw', 'delwc', 'delm', 'delmc',
          'updidx', 'addwg', 'addlink', 'insidx', 'insw', 'insm2', 'editwg', 'editlink'}
COLOPS = {'addcols', 'rencol', 'rencols', 'legren', 'chlabel', 'setattrs', 'chattr', 'dom'}
IDXOPS = {'insidx', 'updidx', 'delidx', 'delidxc'}
WOPS = {'addwg', 'editwg', 'dropwg', 'setdefwg', 'insw', 'updw', 'delw', 'delwc'}
LOPS = {'addlink', 'editlink', 'droplink', 'insm2', 'insm', 'updm', 'delm', 'delmc', 'reify'}
POPS = {'addpart', 'addparts', 'dropparts'}
QOPS = {'insq', 'delunm', 'delnoidx'}

# keys: parts of the state compared after every step; full: operations after
# which the whole state is compared; accept: operations whose acceptance or
# rejection is compared; w: drawing weights
SPECS = {
    'P08': dict(keys=['index', 'seq', 'hash'], full=set(), accept=IDXOPS | {'addcols'}, reads=['index'],
                w=dict(insidx=20, updidx=14, delidx=10, delidxc=4, insw=3, insm2=3, insq=2, addcols=2, rencols=1, legren=3)),
    'P09': dict(keys=['wg', 'defwg'], full={'insw', 'updw', 'delw', 'delwc', 'setdefwg', 'editwg'}, accept=WOPS | IDXOPS, reads=['wg'],
                w=dict(insw=16, updw=10, delw=7, delwc=4, updidx=9, delidx=7, insidx=12, addwg=4, dropwg=2, insm2=2, insm=1, updm=1, insq=1)),
    'P10': dict(keys=['links'], full={'insm2', 'insm', 'updm', 'delm', 'delmc', 'reify', 'addlink', 'editlink'}, accept=LOPS, reads=['links'],
                w=dict(insm2=14, insm=8, updm=10, delm=8, delmc=5, reify=3, addlink=4, editlink=4, droplink=2, updidx=9, delidx=7, insidx=9, insq=1, insw=1)),
    'P11': dict(keys=['orphans', 'fk'], full=DELOPS, accept={'delidx', 'delidxc', 'dropwg', 'droplink', 'delunm', 'delnoidx'}, reads=['unm'],
                w=dict(delidx=10, delidxc=5, dropwg=6, droplink=6, delunm=6, delnoidx=5, addwg=6, addlink=6, insq=10, dropparts=4)),
    'P12': dict(keys=['parts', 'struct'], full=POPS, accept=POPS | {'insq', 'insm2', 'insm', 'updm'} | IDXOPS, reads=['parts'],
                w=dict(addpart=8, addparts=8, dropparts=8, addcols=4, rencol=2, insidx=12, updidx=8, delidx=6, insq=10, insm2=6, insm=4)),
    'P19': dict(keys=['q'], full={'insq'}, accept={'insq'}, reads=['q'],
                w=dict(insq=40, addpart=3, dropparts=2, delunm=3, delnoidx=3, setattrs=3, chattr=2, chlabel=1, dom=2, addcols=1)),
    'P20': dict(keys=['cols', 'attrs', 'disp', 'domain'], full=COLOPS, accept=COLOPS, reads=['cols', 'index', 'q'],
                w=dict(addcols=9, rencol=9, rencols=9, legren=5, chlabel=9, setattrs=7, chattr=7, dom=4, insq=8, insw=4, insm2=4, delidx=4)),
    'P22': dict(keys=[], full=set(), accept={'addwg', 'editwg', 'addlink', 'editlink', 'dom'}, reads=['meta'],
                w=dict(addwg=12, editwg=16, addlink=12, editlink=18, dropwg=3, droplink=3, setdefwg=2, dom=6, insq=14, setattrs=3, chattr=1,
                       insidx=4, updidx=2, delidx=2, insw=3, updw=1, insm2=3, insm=1, updm=1, delm=1)),
}


def metadata(st):
    return dict(domain=st['domain'], attrs=st['attrs'], wg={n: {k: g[k] for k in ('desc', 'sel')} for n, g in st['wg'].items()},
                defwg=st['defwg'], links={k: {x: l[x] for x in ('hint', 'desc', 'sel', 'props', 'default')} for k, l in st['links'].items()})


class Ids:
    """Fingerprints seen for sets of ids: one to one."""
    def __init__(self):
        self.by_set, self.by_hash = {}, {}

    def see(self, ids, h, where):
        ids = frozenset(ids)
        if h is None:
            raise Violation('fingerprint-missing', where)
        if self.by_set.setdefault(ids, h) != h:
            raise Violation('fingerprint-differs', f'{where}: id set {sorted(ids)} has fingerprints {self.by_set[ids]} and {h}')
        if self.by_hash.setdefault(h, ids) != ids:
            raise Violation('fingerprint-collides', f'{where}: id sets {sorted(self.by_hash[h])} and {sorted(ids)} share {h}')

    def reference(self, ids):
        """Fingerprint of a space built directly to hold *ids*."""
        from toron.space import DataSpace
        with bypass():
            s = DataSpace()
            s.add_index_columns('r')
            top = max(ids)
            if top:
                s.insert_index([(f'v{i}',) for i in range(1, top + 1)], ['r'])
            gone = [i for i in range(1, top + 1) if i not in ids]
            if gone:
                s.delete_index([(i, f'v{i}') for i in gone], ['index_id', 'r'])
            with s._managed_cursor() as cur:
                return s._dal.PropertyRepository(cur).get('index_hash')


# ------------------------------------------------------------ public reads
def rows_of(it):
    return sorted((tuple(r) for r in it), key=repr)


def level_desc(st, hx):
    b = bytes.fromhex(hx) if hx else b''
    if not b:
        return None
    on = {i * 8 + j for i, y in enumerate(b) for j in range(8) if y & (0x80 >> j)}
    return ', '.join(c for j, c in enumerate(st['cols']) if j not in on) or None


def public_reads(space, st, what, uids, model, rng):
    """Pairs (name, expected rows, actual rows) of the public reading calls."""
    cols = tuple(st['cols'])
    out = []
    if 'cols' in what:
        disp = [c for c in (st['disp'] or []) if c in cols] + [c for c in cols if c not in (st['disp'] or [])]
        out.append(('index_columns', list(cols), list(space.index_columns)))
        out.append(('get_label_columns', disp, list(space.get_label_columns())))
        out.append(('get_registered_attributes', st['attrs'], list(space.get_registered_attributes())))
        out.append(('domain', st['domain'], space.domain))
    if 'index' in what and cols:
        want = [('index_id',) + cols] + sorted([(i,) + l for i, l in st['index'].items()], key=repr)
        got = list(space.select_index(header=True))
        out.append(('select_index', want, got[:1] + rows_of(got[1:])))
        out.append(('max_index_id', max(st['index']), space.max_index_id))
        c = rng.choice(cols)
        l = rng.choice(sorted(st['index'].values()))[cols.index(c)]
        out.append((f'select_index({c}={l!r})', rows_of((i,) + x for i, x in st['index'].items() if x[cols.index(c)] == l),
                    rows_of(space.select_index(**{c: l}))))
    if 'parts' in what:
        want = sorted(sorted(s) for s in world.closure(st['parts'])) if st['parts'] else [[]]
        got = sorted(sorted(s) for s in world.closure([list(p) for p in space.partition_definitions]))
        out.append(('partition_definitions', want, got))
    if 'meta' in what:
        out.append(('domain', st['domain'], space.domain))
        out.append(('get_registered_attributes', st['attrs'], list(space.get_registered_attributes())))
        fields = lambda g: [g.name, g.description, g.selectors]
        out.append(('weight_groups', sorted([n, g['desc'], g['sel']] for n, g in sorted(st['wg'].items())),
                    sorted([fields(g) for g in space.weight_groups], key=lambda x: x[0])))
        for n, g in sorted(st['wg'].items()):
            out.append((f'get_weight_group({n!r})', [n, g['desc'], g['sel']], fields(space.get_weight_group(n))))
        d = space.get_default_weight_group()
        out.append(('get_default_weight_group', st['defwg'], d.name if d else None))
        fields = lambda g: [g.other_unique_id, g.name, g.other_filename_hint, g.description, g.selectors, g.user_properties, bool(g.is_default)]
        want = {k: [k[0], k[1], l['hint'], l['desc'], l['sel'], l['props'], bool(l['default'])] for k, l in sorted(st['links'].items())}
        out.append(('links', list(want.values()), sorted([fields(g) for g in space.links], key=lambda x: x[:2])))
        for k in want:
            out.append((f'get_link{k}', want[k], fields(space.get_link(*k))))
    if 'wg' in what:
        out.append(('weight_groups', sorted([n, g['desc'], g['sel'], bool(g['complete'])] for n, g in sorted(st['wg'].items())),
                    sorted([g.name, g.description, g.selectors, bool(g.is_complete)] for g in sorted(space.weight_groups, key=lambda g: g.name))))
        d = space.get_default_weight_group()
        out.append(('get_default_weight_group', st['defwg'], d.name if d else None))
        dom = (st['domain'],) if st['domain'] else ()
        if cols:
            for n, g in sorted(st['wg'].items()):
                want = rows_of(l + dom + (n, g['w'].get(i)) for i, l in st['index'].items() if i)
                out.append((f'select_weights({n!r})', want, rows_of(space.select_weights(n))))
    if 'links' in what:
        for k, l in sorted(st['links'].items()):
            g = space.get_link(k[0], k[1])
            out.append((f'get_link{k}', [k[1], l['desc'], l['sel'], bool(l['default']), l['hash'], bool(l['complete'])],
                        [g.name, g.description, g.selectors, bool(g.is_default), g.other_index_hash, bool(g.is_locally_complete)]))
            if not cols:
                continue
            want = [(o, v, i) + st['index'][i] + (level_desc(st, lv),) for (o, i, lv), (v, p) in l['m'].items() if i]
            have = {x[1] for x in l['m']}
            want += [(None, None, i) + x + (None,) for i, x in st['index'].items() if i and i not in have]
            got = list(space.select_mappings(k[0], k[1], header=True))
            out.append((f'select_mappings{k}', [('other_index_id', k[1], 'index_id') + cols + ('ambiguous_fields',)] + rows_of(want),
                        got[:1] + rows_of(got[1:])))
        for u in uids:
            mine = [k for k in st['links'] if k[0] == u]
            dflt = [k[1] for k in mine if st['links'][k]['default']]
            if mine:
                want = mine[0][1] if len(mine) == 1 else dflt[0] if dflt else None
                try:
                    got = space.get_link(u).name
                except toron().ToronError:
                    got = None
                out.append((f'get_link({u!r})', want, got))
    dom = [st['domain']] if st['domain'] else []
    if 'q' in what and st['attrs'] and cols:
        want = [tuple(dom) + l + tuple(json.loads(a).get(x) for x in st['attrs']) + (v,) for (l, a), v in st['q'].items()]
        got = list(space.select_quantities2(header=True))
        out.append(('select_quantities2', [tuple((['domain'] if dom else []) + list(cols) + st['attrs'] + ['quantity'])] + rows_of(want),
                    [tuple(got[0])] + rows_of(got[1:])))
    if 'unm' in what and cols:
        names = list(space.select_quantities(header=True))[0]
        names = names[len(dom) + len(cols):-1]
        for fn, need in (('select_unmatched_quantities', True), ('select_quantities_without_index', False)):
            gone = set(model._unmatched(st, need))
            want = [tuple(dom) + l + tuple(json.loads(a).get(x) for x in names) + (v,) for (l, a), v in st['q'].items() if l in gone]
            out.append((fn, rows_of(want), rows_of(getattr(space, fn)(header=False))))
    return out


class Boom(Exception):
    injected = True


class Hist:
    MEASURE = 'distinct (operation, outcome, resulting logical state) triples'

    def __init__(self, prop, view=None):
        self.PROP = prop
        self.all = view == 'all'
        self.spec = SPECS.get(prop, dict(keys=[], full=set(), accept=set(), reads=['cols', 'index', 'parts', 'wg', 'links', 'q', 'unm'], w={}))
        self.RUNS = dict(quick=2000, thorough=16000)
        self.RULE = ('Each case is a seeded history of 10-45 operations (about a fifth of them under an injected fault, a raising input '
                     'iterator, a kill with recovery, or followed by a save and reload or a move to another storage mode) on one space; '
                     'an evaluation is one operation judged against the reference model and the invariants of this property; '
                     'non-trivial = the operation was applied or rejected for a reason the model specifies.')
        self.ASSUMPTIONS = ['The reference model leaves a few malformed inputs unspecified; for them only the invariants are checked.',
                            'After an operation interrupted by SIGINT both the old and the complete new state are accepted.']

    def generate(self, rng, tier, i):
        g = Gen(rng, self.spec['w'], bad=rng.choice([0.02, 0.08, 0.15]), meta=self.PROP == 'P22' or self.PROP == 'DIFF' and i % 3 == 0)
        steps = g.setup(wgs=rng.choice([1, 1, 2]), links=rng.choice([0, 1, 2, 3]) if self.PROP != 'P19' else 0,
                        nidx=rng.choice([2, 4, 6]))
        mode = MODES[i % len(MODES)]
        for _ in range(rng.choice([6, 12, 20] if tier == 'quick' else [8, 16, 40])):
            x = rng.random()
            op = g.next()
            if x < 0.07 or op[0] == 'legren' and x < 0.4:
                f = dict(k=rng.choice(['fs', 'stick', 'short', 'sqlint', 'mem', 'memrun', 'sigsql', 'sigfs']),
                         n=int(2 ** rng.uniform(0, 9)), e=rng.choice([5, 28]), v=rng.choice([1, 5, 30]), r=rng.choice([3, 50]))
                if rng.random() < 0.4:
                    f['back'] = rng.randrange(6)
                steps.append(['!F', f, op])
                steps.append(op)
            elif x < 0.11 and op[0] in world.HASITER:
                steps.append(['!X', rng.randint(0, 4), op])
                steps.append(op)
            elif x < 0.15:
                steps.append(['!K', rng.random(), op])
                steps.append(op)
            elif x < 0.18:
                steps += [op, ['!R']]
            elif x < 0.20:
                steps += [op, ['!M', rng.choice(MODES)]]
            else:
                steps.append(op)
        if self.PROP == 'P08' and rng.random() < 0.5:
            f = dict(k=rng.choice(['fs', 'stick', 'short', 'sqlint', 'mem', 'memrun', 'sigsql', 'sigfs']), n=int(2 ** rng.uniform(0, 9)),
                     e=rng.choice([5, 28]), v=rng.choice([1, 5, 30]), r=rng.choice([3, 50]))
            steps.append(['!D', rng.choice(['drop', 'legacy']), rng.randint(0, 9), f if rng.random() < 0.3 else None])
        return dict(mode=mode, ops=steps)

    def shrink_paths(self, case):
        return [('ops',)]

    def simplify(self, case):
        for n, op in enumerate(case['ops']):
            if op[0].startswith('!') and len(op) > 2:
                c = json.loads(json.dumps(case))
                c['ops'][n] = op[-1]
                yield c
        for n, op in enumerate(case['ops']):
            for k, x in enumerate(op):
                if isinstance(x, list) and len(x) > 1 and isinstance(x[0], list):
                    for j in range(len(x)):
                        c = json.loads(json.dumps(case))
                        del c['ops'][n][k][j]
                        yield c
        for m in ('mem', 'bind'):
            if case['mode'] != m:
                yield dict(case, mode=m)

    # --------------------------------------------------------------- running
    def run(self, case, res):
        try:
            self.run1(case, res)
        except world.BadFile as e:
            raise Violation('content-unreadable', f'{e} (mode {case["mode"]}, steps {len(case["ops"])})')

    def run1(self, case, res):
        import faults
        rng = random.Random(case['seed'])
        self.refs = refs = Refs()
        self.model = model = world.Model(refs.uids)
        st = Store(case['mode'], res.dir)
        ids = Ids()
        pre = st.state()
        self.maxid = 0
        uid = pre['uid']
        for n, step in enumerate(case['ops']):
            op = step[-1] if step[0][0] == '!' and step[0] != '!D' else step
            where = f'step {n} {json.dumps(step)} in mode {st.mode}'
            if step[0] == '!D':
                self.drop_columns(st, pre, step, where, res)
                break
            if step[0] in ('!R', '!M'):
                if step[0] == '!M':
                    st.move(step[1])
                    res.count('move.' + step[1])
                else:
                    st.reopen()
                    res.count('reopen')
                post = st.state()
                d = world.diff(pre, post)
                if d:
                    raise Violation('content-changed-by-reload', f'{where}: ' + '; '.join(d))
                continue
            try:
                exp, kind = model.apply(pre, op), 'ok'
            except world.Err:
                exp, kind = pre, 'err'
            except world.Unspecified:
                exp, kind = None, 'unspec'
            may = None                       # other states that are acceptable
            if step[0] == '!F':
                f = step[1]
                e, fired = faults.attempt(lambda: world.execute(st.space, op, refs.spaces), f, res.dir)
                if fired:
                    res.count('fault.' + f['k'])
                if e is not None and fired and kind != 'err':
                    may = ([exp] if faults.is_signal(f) and isinstance(e, KeyboardInterrupt) and exp else [])
                    if faults.is_signal(f) and exp is None:
                        may = None
                    if may is not None:
                        exp = pre
                    kind = 'fault'
                e = type(e)('') if e is not None else None
            elif step[0] == '!X':
                def hook(rows, k=step[1]):
                    def it():
                        for j, r in enumerate(rows):
                            if j >= k:
                                break
                            yield r
                        raise Boom('injected')
                    return it()
                e = run_op(st.space, op, refs, hook)
                res.count('fault.iterator')
                if e is None:
                    if exp is not pre:
                        raise Violation('iterator-error-swallowed', where)
                exp, kind = pre, 'fault'
            elif step[0] == '!K' and st.bound:
                e, may = self.crash(st, op, refs, step[1], res), []
                if exp is not None:
                    may = [exp]
                else:
                    may = None
                exp, kind = pre, 'fault'
            else:
                e = run_op(st.space, op, refs)
                e = type(e)(str(e)) if e is not None and type(e) in (ValueError, KeyError, RuntimeError, TypeError) else e
            msg = f'{type(e).__name__} {e}' if e is not None else 'ok'
            post = st.state()
            res.evals += 1
            res.count(f'op.{op[0]}.{kind}.{"err" if e else "ok"}')
            res.sig(op[0], kind, bool(e), world.digest(post))
            if kind != 'unspec':
                res.nontrivial += 1
            where += f' ({msg[:200]})'
            if kind == 'fault' and may is None:
                exp = None
            elif kind == 'unspec':
                exp = pre if e is not None else None
            elif kind in ('ok', 'err') and (kind == 'err') != (e is not None):
                if self.all or op[0] in self.spec['accept']:
                    raise Violation('accept-' + op[0], f'{where}: should be ' + ('accepted' if kind == 'ok' else 'rejected'))
                exp = None if e is None else pre
            if exp is not None:
                d = self.diff(exp, post, op)
                for alt in (may or []):
                    if d:
                        d2 = self.diff(alt, post, op)
                        if not d2:
                            d = []
                if d:
                    raise Violation('state-' + op[0], f'{where}: ' + '; '.join(d))
            self.invariants(pre, post, op, where, ids, case, n == len(case['ops']) - 1)
            for name, want, got in self.reads(st, post, rng, refs):
                d = world.diff(want, got)
                if d:
                    raise Violation('read-' + name.split('(')[0].split('{')[0], f'{where}; {name}: ' + '; '.join(d))
            if post['uid'] != uid:
                raise Violation('identity-changed', where)
            if self.PROP == 'P19' and op[0] == 'insq' and kind == 'ok' and rng.random() < 0.5:
                self.split_load(st, pre, post, op, refs, rng, where, res)
            pre = post
        res.sample = dict(mode=case['mode'], steps=len(case['ops']), records=len(pre['index']) - 1)

    def drop_columns(self, st, pre, step, where, res):
        """Removing label columns keeps every record under its id, and never
        makes an id available again; when it is refused nothing changes."""
        import faults
        import toron.dal1
        cols = list(pre['cols'])
        if len(cols) < 2:
            return
        gone = [c for j, c in enumerate(cols) if (step[2] >> (j % 4)) & 1] or [cols[step[2] % len(cols)]]
        if len(gone) == len(cols):
            gone = gone[1:]
        if step[1] == 'drop':
            act = lambda: st.space.drop_index_columns(*gone)
        else:
            act = lambda: toron.dal1.legacy_drop_labels(st.space, *gone)
        keep = [j for j, c in enumerate(cols) if c not in gone]
        after = {i: tuple(l[j] for j in keep) for i, l in pre['index'].items()}
        where += f' dropping {gone} of {cols}'
        if step[3]:
            e, fired = faults.attempt(act, step[3])
            if fired:
                res.count('fault.' + step[3]['k'])
        else:
            e, fired = None, False
            try:
                act()
            except Exception as x:
                e = x
        post = st.state()
        res.evals += 1
        res.nontrivial += 1
        res.count(f'op.{step[1]}cols.{"fault" if fired else "plain"}.{"err" if e else "ok"}')
        if e is not None:
            d = world.diff(pre, post)
            if d and not (isinstance(e, KeyboardInterrupt) and post['index'] == after and post['seq'] == pre['seq']):
                raise Violation('drop-columns-refused', f'{where} ({type(e).__name__}): ' + '; '.join(d))
        elif len(set(after.values())) != len(after):
            raise Violation('duplicate-labels', f'{where}: {after}')
        elif post['index'] != after or post['cols'] != [cols[j] for j in keep]:
            raise Violation('drop-columns', f'{where}: {world.diff(after, post["index"])} {post["cols"]}')
        try:
            st.space.insert_index([tuple(post['cols']), ('new record',) * len(post['cols'])])
        except Exception:
            if e is not None:
                raise
            return                           # the partitions can name columns that are gone
        new = set(st.state()['index']) - set(post['index'])
        if len(new) != 1 or min(new) <= max(self.maxid, max(pre['index'])):
            raise Violation('id-reused', f'{where}: new ids {sorted(new)}, handed out before up to {self.maxid}')

    def crash(self, st, op, refs, frac, res):
        initial = simlib.snapshot_dir(res.dir)
        L.sim_log_start()
        e = run_op(st.space, op, refs)
        L.sim_log_stop()
        last, states = None, []
        for i, marks, files in simlib.process_crash_states(initial, simlib.read_log()):
            last = files if files is not None else last
            states.append(last)
        files = states[min(len(states) - 1, int(frac * len(states)))]
        st.space = None
        simlib.restore_dir(res.dir, files)
        st.space = toron().bind_file(st.path, mode='rw')
        res.count('fault.kill')
        return e

    def diff(self, exp, post, op):
        if self.PROP == 'P22':
            return world.diff(metadata(exp), metadata(post))
        if self.all or op[0] in self.spec['full']:
            return world.compare(exp, post)
        ks = self.spec['keys']
        if not ks:
            return []
        a, b = dict(exp), dict(post)
        for k in list(a):
            if k not in ks and k not in ('cols', 'disp', 'parts', 'locs', 'ags', 'seq', 'hash', 'links', 'struct'):
                b[k] = a[k]
        for k in ('cols', 'disp', 'parts', 'hash', 'links', 'struct'):
            if k not in ks:
                b[k] = a[k]
        return world.compare(a, b)

    def reads(self, st, post, rng, refs):
        if not self.all and rng.random() > 0.35:
            return []
        try:
            return public_reads(st.space, post, self.spec['reads'], refs.uids, self.model, rng)
        except (AssertionError, Violation):
            raise
        except Exception as e:
            if not simlib._in_toron(e.__traceback__):
                raise
            raise Violation('read-fails', f'{type(e).__name__}: {e} in mode {st.mode}')

    def invariants(self, pre, post, op, where, ids, case, last):
        P = self.PROP
        real = [i for i in post['index'] if i]
        if P in ('P08', 'DIFF'):
            idx = post['index']
            if idx.get(0) != ('-',) * len(post['cols']):
                raise Violation('undefined-record', f'{where}: record 0 is {idx.get(0)}')
            if len(set(idx.values())) != len(idx):
                raise Violation('duplicate-labels', f'{where}: {idx}')
            if any(x == '' or x is None for l in idx.values() for x in l):
                raise Violation('empty-label', f'{where}: {idx}')
            new = [i for i in real if i not in pre['index']]
            if any(i <= self.maxid for i in new):
                raise Violation('id-reused', f'{where}: new ids {new}, handed out before up to {self.maxid}')
            self.maxid = max([self.maxid] + real)
            if post['hash'] is not None or real:
                ids.see(post['index'], post['hash'], where)
            if last and real and max(real) < 60:
                ids.see(post['index'], ids.reference(set(post['index'])), where + ' (a space built directly)')
        if P in ('P09', 'DIFF') and real:
            import math
            for g in post['wg']:
                w = post['wg'][g]['w']
                if bool(post['wg'][g]['complete']) != bool(world.wg_complete(post, g)):
                    raise Violation('completeness-wrong', f'{where}: group {g!r} is flagged {post["wg"][g]["complete"]}, weights for {sorted(w)}, records {sorted(real)}')
                bad = [(i, v) for i, v in w.items() if i == 0 or not isinstance(v, (int, float)) or not math.isfinite(v) or v < 0]
                if bad:
                    raise Violation('invalid-weight', f'{where}: group {g!r} has {bad}')
        if P in ('P10', 'DIFF'):
            for k, l in post['links'].items():
                if real and bool(l['complete']) != bool(world.link_complete(post, k)):
                    raise Violation('completeness-wrong', f'{where}: link {k} is flagged {l["complete"]}, mapped {sorted({x[1] for x in l["m"]})}, records {sorted(real)}')
                sh = world.shares(l['m'])
                for x, (v, p) in l['m'].items():
                    if not world.approx(p, sh[x]):
                        # merged records add up the shares they had, so the
                        # shares of values that are all zero may differ (the
                        # reference model has predicted them exactly)
                        group = [m for y, m in l['m'].items() if y[0] == x[0]]
                        if (any('updidx' in repr(o) for o in case['ops']) and not any(m[0] for m in group)
                                and all(m[1] is not None for m in group) and world.approx(sum(m[1] for m in group), 1.0)):
                            continue
                        raise Violation('wrong-share', f'{where}: link {k} mapping {x} value {v} has share {p}, expected {sh[x]}')
                if l['m'] or l['hash'] is not None:
                    ids.see(world.src_ids(l['m']), l['hash'], where + f' link {k}')
                    if last:
                        ids.see(world.src_ids(l['m']), ids.reference(set(world.src_ids(l['m']))), where + f' link {k} (a space built directly)')
            for u in {k[0] for k in post['links']}:
                if sum(bool(l['default']) for k, l in post['links'].items() if k[0] == u) > 1:
                    raise Violation('two-default-links', f'{where}: {u}')
        if P in ('P22', 'DIFF'):
            text = lambda x: x is None or isinstance(x, str)
            bad = [f'domain {post["domain"]!r}'] if not isinstance(post['domain'], str) else []
            for kind, items in (('group', post['wg']), ('link', post['links'])):
                for n, g in items.items():
                    if not (g['sel'] is None or isinstance(g['sel'], list) and all(isinstance(x, str) for x in g['sel'])) or not text(g['desc']):
                        bad.append(f'{kind} {n!r}: {g["desc"]!r} {g["sel"]!r}')
                    if kind == 'link' and not (g['props'] is None or isinstance(g['props'], dict)):
                        bad.append(f'link {n!r}: user properties {g["props"]!r}')
            for a in post['ags']:
                a = json.loads(a)
                if not isinstance(a, dict) or not all(isinstance(x, str) and x for x in a.values()):
                    bad.append(f'attributes {a!r}')
            if bad:
                raise Violation('malformed-metadata', f'{where}: ' + '; '.join(bad))
        if P in ('P11', 'DIFF'):
            if post['orphans'] or post['fk']:
                raise Violation('orphans', f'{where}: {post["orphans"] or post["fk"]}')
        if P in ('P12', 'DIFF') and post['cols'] and post['parts']:
            want = world.full_struct(post)
            d = world.diff(want, post['struct'])
            if d:
                raise Violation('structure-wrong', f'{where}: ' + '; '.join(d))
            if frozenset(post['cols']) not in world.closure(post['parts']):
                raise Violation('whole-space-missing', f'{where}: {post["parts"]}')
        if P in ('P20', 'DIFF'):
            names = post['cols'] + post['attrs']
            low = [x.lower() for x in post['cols']]
            if len(set(names)) != len(names) or len(set(low)) != len(low) or '' in post['cols'] or \
                    any(x in world.RESERVED for x in names):
                raise Violation('names-invalid', f'{where}: columns {post["cols"]} attributes {post["attrs"]}')
            if set(x for p in post['parts'] for x in p) - set(post['cols']):
                raise Violation('partition-names', f'{where}: {post["parts"]} {post["cols"]}')
            if post['disp'] is not None and (len(set(post['disp'])) != len(post['disp']) or set(post['disp']) - set(post['cols'])):
                raise Violation('display-order', f'{where}: {post["disp"]} {post["cols"]}')

    def split_load(self, st, pre, post, op, refs, rng, where, res):
        """The same load in several calls (and, where it cannot matter, in
        another order) stores the same quantities."""
        rows = op[2]
        pol = (op[4] or {}).get('on_existing', 'abort') if len(op) > 4 else 'abort'
        cut = rng.randint(0, len(rows))
        order = list(range(len(rows)))
        if pol in ('abort', 'sum'):
            rng.shuffle(order)

        # start again from the state before the load: load into a second space
        from toron.space import DataSpace

        def second(parts):
            s = Store('mem', res.dir)
            for c in [pre['cols']]:
                s.space.add_index_columns(*c)
            s.space.set_registered_attributes(pre['attrs'])
            if pre['domain']:
                s.space.set_domain(pre['domain'])
            if pre['parts']:
                s.space.add_partition_definitions(*[set(p) for p in pre['parts']])
            recs = sorted((i, l) for i, l in pre['index'].items() if i)
            if recs:
                s.space.insert_index([l for i, l in recs], pre['cols'])
            names = sorted({a for (l, a) in pre['q'] for a in json.loads(a)})
            for (l, a), v in pre['q'].items():
                s.space.insert_quantities(value='value', attributes=sorted(json.loads(a)),
                                          data=[l + tuple(json.loads(a)[x] for x in sorted(json.loads(a))) + (v,) + ((pre['domain'],) if pre['domain'] else ())],
                                          columns=pre['cols'] + sorted(json.loads(a)) + ['value'] + (['domain'] if pre['domain'] else []))
            for part in parts:
                if part:
                    world.execute(s.space, op[:2] + [part] + op[3:], refs.spaces)
            return s.state()['q']
        if not pre['cols'] or len(set(pre['index'].values())) < 2:
            return
        if any(n in pre['cols'] for (l, a) in pre['q'] for n in json.loads(a)):
            return  # a label column was given an attribute's name: rows cannot say which is which
        with bypass():
            got = second([[rows[i] for i in order[:cut]], [rows[i] for i in order[cut:]]])
        res.count('probe.split_loads')
        d = world.diff(post['q'], got)
        if d:
            raise Violation('split-load-differs', f'{where}: loaded in order {order} cut at {cut}: ' + '; '.join(d))


def make(prop, **kw):
    return Hist(prop, **kw)

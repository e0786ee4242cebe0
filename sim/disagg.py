"""P13: selecting data at record level (disaggregation), against a model that
spreads the stored quantities itself from the content of the file."""
import copy, json, math, os, random, re, threading, sys
import simlib, world, faults
from simlib import L, Violation, bypass
from gen import Gen
from hist import Refs, Store, MODES, run_op, toron

SELS = ['[year="2001"]', '[kind="a"]', '[sex]', '[year="2001"][kind="a"]', '[kind^="a"]', '[year$="1"]', '[year*="00"]', '[kind="A" i]', '[kind="2001"]', '[sex="2001"]', '[year]', '[kind]',
        ':is([year="2001"], [kind="a"])', ':not([sex="M"])', ':where([kind="a"])', '[sex="M"][year]', '[kind~="a"]', '[kind|="a"]',
        "[kind='ü']", ':not([kind="a"], [year])', '[year = "2002"]']
# some values are shared between attributes
VALUES = {'year': ['2001', '2002', 'M'], 'kind': ['a', 'b', 'ü', 'a b', 'a-x', 'A', '2001'], 'sex': ['M', 'F', 'a', '2001']}


# ------------------------------------------------- selectors, independently
def parse_sel(text):
    """(predicate, specificity) of a selector text."""
    pos = [0]

    def ws():
        while pos[0] < len(text) and text[pos[0]].isspace():
            pos[0] += 1

    def one():
        ws()
        m = re.compile(r':(is|not|where)\(').match(text, pos[0])
        if m:
            pos[0] = m.end()
            inner = [one()]
            ws()
            while text[pos[0]] == ',':
                pos[0] += 1
                inner.append(one())
                ws()
            assert text[pos[0]] == ')'
            pos[0] += 1
            top = max(s for _, s in inner)
            if m.group(1) == 'not':
                return (lambda d: not any(p(d) for p, _ in inner)), top
            return (lambda d: any(p(d) for p, _ in inner)), (top if m.group(1) == 'is' else (0, 0))
        m = re.compile(r'\[\s*([^\s\]=~|^$*"]+)\s*(?:([~|^$*]?=)\s*(?:"([^"]*)"|\'([^\']*)\')\s*([iI])?)?\s*\]').match(text, pos[0])
        assert m, text[pos[0]:]
        pos[0] = m.end()
        key, op, v1, v2, ic = m.groups()
        if op is None:
            return (lambda d: bool(d.get(key, ''))), (1, 0)
        val = v1 if v1 is not None else v2

        def test(d):
            a, b = val, d.get(key, '')
            if ic:
                a, b = a.upper(), b.upper()
            return {'=': a == b, '~=': a in b.split(), '|=': b == a or b.startswith(a + '-'), '^=': b.startswith(a),
                    '$=': b.endswith(a), '*=': a in b}[op]
        return test, (1, 1)
    parts = []
    ws()
    while pos[0] < len(text):
        parts.append(one())
        ws()
    if len(parts) == 1:
        return parts[0]
    return (lambda d: all(p(d) for p, _ in parts)), (sum(s[0] for _, s in parts), sum(s[1] for _, s in parts))


def choose(attrs, groups, default):
    """The key whose selectors match most specifically (unique), or default."""
    found = {}
    for k, sels in groups.items():
        for s in sels:
            p, spec = parse_sel(s)
            if p(attrs):
                found[k] = max(found.get(k, (-1, -1)), spec)
    for spec in sorted(set(found.values()), reverse=True):
        ks = [k for k, v in found.items() if v == spec]
        if len(ks) == 1:
            return ks[0]
    return default


class Refuse(Exception):
    pass


def spread(st, selectors=()):
    """[(index id, attributes incl. domain, share, value is exact, source)] of
    every stored quantity at a defined level."""
    out = []
    default = st['defwg']
    items = []
    for (loc, aj), val in st['q'].items():
        ad = json.loads(aj)
        if selectors and not any(parse_sel(s)[0](ad) for s in selectors):
            continue
        if tuple(1 if x else 0 for x in loc) not in st['struct']:
            continue
        items.append((loc, ad, val))
    if default is None or not st['wg'][default]['complete']:
        raise Refuse('must' if items else 'may')
    groups = {n: g['sel'] for n, g in st['wg'].items() if g['complete'] and g['sel']}
    for n, (loc, ad, val) in enumerate(sorted(items, key=repr)):
        cover = [i for i, l in st['index'].items() if all(not x or x == y for x, y in zip(loc, l))]
        if not cover:
            raise Refuse('must')
        if st['domain']:
            ad = dict(ad, domain=st['domain'])
        key = json.dumps(ad, sort_keys=True)
        if len(cover) == 1:
            out.append((cover[0], key, val, True, n))
            continue
        w = st['wg'][choose(ad, groups, default)]['w']
        # the undefined record takes part only with a weight of its own
        real = [i for i in cover if i != 0]
        tot = math.fsum(w.get(i, 0.0) for i in cover)
        for i in cover:
            if tot:
                s = val * (w.get(i, 0.0) / tot)
            else:
                s = val / len(real) if i != 0 else 0.0
            out.append((i, key, s, False, n))
    return out


def reduce_attrs(key, keep, domain):
    d = json.loads(key)
    if keep:
        d = {k: v for k, v in d.items() if k in keep or (k == 'domain' and domain)}
    return json.dumps(d, sort_keys=True)


def read_rows(reader, ncols):
    """{(labels, attributes json): value} of a reader's rows."""
    head = reader.columns[ncols:-1]
    out = {}
    for row in reader:
        row = tuple(row)
        ad = {k: v for k, v in zip(head, row[ncols:-1]) if v is not None}
        k = (row[:ncols], json.dumps(ad, sort_keys=True))
        if k in out:
            raise Violation('duplicate-row', repr(k))
        out[k] = row[-1]
    return out


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def check_rows(st, got, opts, where):
    """Compare the rows of a reader with the model on content *st*."""
    keep, quant = opts.get('sum'), opts.get('quant')
    if isinstance(keep, str):
        keep = [keep]
    parts = spread(st, opts.get('sel') or ())
    exp, contrib, totals = {}, {}, {}
    for i, key, s, exact, n in parts:
        k = (st['index'][i], reduce_attrs(key, keep, st['domain']))
        exp.setdefault(k, []).append(s)
        contrib.setdefault(k, []).append((s, exact))
    vals = {}
    for i, key, s, exact, n in parts:
        vals.setdefault((reduce_attrs(key, keep, st['domain']), n), []).append(s)
    # totals of every combination of attributes
    for (key, n), lst in vals.items():
        totals.setdefault(key, []).append(math.fsum(lst))
    sums = {}
    for (lab, key), v in got.items():
        if not isinstance(v, (int, float)) or not math.isfinite(v):
            raise Violation('not-a-number', f'{where}: {lab} {key}: {v!r}')
        sums.setdefault(key, []).append(v)
    for key in sorted(set(totals) | set(sums)):
        a, b = math.fsum(totals.get(key, [0.0])), math.fsum(sums.get(key, [0.0]))
        if not close(a, b):
            raise Violation('total-not-conserved', f'{where}: {key}: stored {a!r}, selected {b!r}; rows {sorted(got.items(), key=repr)[:12]}')
    for k in sorted(set(exp) | set(got), key=repr):
        e = math.fsum(exp.get(k, [0.0]))
        g = got.get(k, 0.0)
        if not quant:
            if not close(e, g):
                raise Violation('wrong-share', f'{where}: record {k[0]} {k[1]}: expected {e!r}, got {g!r}')
            continue
        cs = contrib.get(k, [])
        if not cs:
            if g:
                raise Violation('outside-coverage', f'{where}: record {k[0]} {k[1]}: got {g!r}')
            continue
        slack = sum(1 for s, exact in cs if not exact and abs(s - round(s)) > 1e-9)
        if abs(g - e) > slack + 1e-6 * max(1.0, abs(e)):
            raise Violation('quantised-too-far', f'{where}: record {k[0]} {k[1]}: share {e!r}, got {g!r}')
    if quant:
        # at most one fractional part for each fractional quantity spread
        for key in totals:
            frac = sum(1 for (kk, n), lst in vals.items() if kk == key and abs(math.fsum(lst) - round(math.fsum(lst))) > 1e-9)
            odd = [k for k, v in got.items() if k[1] == key and v != int(v)]
            if len(odd) > frac:
                raise Violation('not-whole', f'{where}: {key}: {[(k[0], got[k]) for k in odd]}, from {frac} fractional quantities')
    return len(parts), sum(1 for p in parts if not p[3])


class DGen(Gen):
    """Histories rich in levels, weights and quantities."""
    dash = 0.0

    def label(self):
        if self.dash and self.r.random() < self.dash:
            return '-'
        return self.r.choice(self.pool)

    def prepare(self, nidx=None):
        r = self.r
        self.pool = r.sample(['x', 'y', 'z', 'ü', "o'b", 'a b', '10'], r.choice([2, 2, 3]))
        ops, do = [], None
        do = lambda op: ops.append(self.apply(op))
        k = r.choice([1, 2, 2, 3, 3, 4])
        from gen import COLS, WIDE, ATTRS, GROUPS
        if r.random() < 0.05:
            k = r.choice([8, 9, 11])
        do(['addcols', r.sample(WIDE if k > 7 else COLS, k)])
        for _ in range(r.choice([0, 1, 2, 3]) if k > 1 else 0):
            p = self.g_addpart()
            if p:
                do(['addpart'] + p)
        do(['setattrs', ATTRS[:r.choice([1, 2, 3])]])
        if r.random() < 0.4:
            do(['dom', 'dö'])
        rows = [self.labels() for _ in range(nidx if nidx is not None else r.choice([1, 3, 6, 10, 16]))]
        do(['insidx', list(self.st['cols']), sorted(set(rows))])
        n = r.choice([1, 2, 3, 4])
        for j, g in enumerate(GROUPS[:n]):
            do(['addwg', g, None, None if j == 0 and r.random() < 0.6 else r.sample(SELS, r.choice([1, 1, 2])), None])
            if r.random() < 0.93:
                do(self.fill(g))
        for _ in range(r.choice([1, 2, 4])):
            do(self.load())
        return ops

    def fill(self, g, only=None):
        """Weights for all records of group *g* that have none."""
        r, st = self.r, self.st
        z = r.random() < 0.15
        rows = [[i] + list(st['index'][i]) + [0.0 if z or r.random() < 0.15 else r.choice([1.0, 2.0, 3.0, 0.5, 7.0, 100.0, 1e-6, 1e9, round(r.uniform(0, 20), 3)])]
                for i in self.ids() if i not in st['wg'].get(g, {'w': {}})['w'] or only is None]
        return ['insw', g, ['index_id'] + list(st['cols']) + ['val'], rows, 'val', 'replace']

    def load(self):
        r, st = self.r, self.st
        levels = sorted(st_levels(st))
        head = list(st['cols']) + list(st['attrs']) + ['value']
        rows, last = [], None
        for _ in range(r.choice([1, 3, 6, 12])):
            lev = r.choice(levels)
            lab = st['index'][r.choice(self.ids())] if self.ids() else ('-',) * len(st['cols'])
            row = [l if f else '' for l, f in zip(lab, lev)]
            ats = [r.choice(VALUES.get(a, ['v'])) if r.random() < 0.85 else '' for a in st['attrs']]
            if last and r.random() < 0.12:   # the values of an earlier row under other attributes
                ats = [x for x in last if x]
                for _ in range(len(st['attrs']) - len(ats)):
                    ats.insert(r.randrange(len(ats) + 1), '')
            last = ats
            row += ats
            rows.append(row + [r.choice([1.0, 10.0, 100.0, 7.25, 0.3, -5.0, -2.5, 0.0, 1e6, 123456.75, float(r.randint(0, 1000)), round(r.uniform(-50, 50), 2), 1e12 + 0.5])])
        return ['insq', head, rows, 'value', {'on_existing': r.choice(['sum', 'replace', 'ignore']),
                                                'allow_invalid_label': r.random() < 0.04, 'allow_invalid_partition': r.random() < 0.04}]

    def more(self):
        r = self.r
        x = r.random()
        if x < 0.35:
            return self.apply(self.load())
        if x < 0.5 and self.st['wg']:
            return self.apply(self.fill(r.choice(sorted(self.st['wg'])), only='missing' if r.random() < 0.6 else None))
        if x < 0.6 and self.st['wg']:
            return self.apply(['editwg', r.choice(sorted(self.st['wg'])), {'selectors': r.sample(SELS, r.choice([0, 1, 2]))}])
        return self.next()


def st_levels(st):
    ls = set(world.full_struct(st)) if st['parts'] else {(1,) * len(st['cols'])}
    return ls


W = dict(addcols=0, rencol=1, rencols=1, chlabel=1, setattrs=0, chattr=2, dom=1, addpart=2, addparts=1, dropparts=1, insidx=3, updidx=5, delidx=2,
         delidxc=1, addwg=1, editwg=1, dropwg=1, setdefwg=2, insw=2, updw=5, delw=1, delwc=1, addlink=0, editlink=0, droplink=0, insm2=0, insm=0,
         updm=0, delm=0, delmc=0, reify=0, insq=2, delunm=1, delnoidx=1)


KEEPLABELS = {'insq', 'insw', 'updw', 'delw', 'delwc', 'addwg', 'editwg', 'dropwg', 'setdefwg', 'delunm', 'delnoidx', 'dom', 'addpart', 'addparts', 'dropparts'}


class Disagg:
    RUNS = dict(quick=2400, thorough=90000)
    LEVEL = 'exploration'
    MEASURE = 'distinct (levels, weights chosen, options, content) tuples, and interleavings for the concurrent cases'
    RULE = ('Each case builds a seeded space (partitions, several weight groups with selectors, zero weights, quantities at every level), continues its '
            'history in changing storage modes, and selects its data with seeded options, partly under injected faults (then repeated) and partly '
            'while another binding modifies the file under the seeded scheduler; an evaluation is one selection compared with a model that spreads the '
            'stored quantities itself; non-trivial = at least one quantity was really spread over several records.')
    ASSUMPTIONS = ['Quantities at a level that the partitions do not define are not part of the record-level data (they are listed by '
                   'select_unmatched_quantities); a quantity that matches no record makes the selection raise.',
                   'Floating point sums are compared with a relative tolerance of 1e-9; wholeness of quantised parts is exact.']
    RUN_TIMEOUT = 120

    def __init__(self, prop):
        self.PROP = prop

    def generate(self, rng, tier, i):
        g = DGen(rng, dict(W), bad=rng.choice([0.0, 0.05]))
        g.dash = rng.choice([0, 0, 0, 0.1])
        setup = g.prepare()
        if rng.random() < 0.2:
            # labels are looked up when rows are read, so they stay as they are
            g.w = {k: (v if k in KEEPLABELS else 0) for k, v in g.w.items()}
            clients = [[['op', g.more()] for _ in range(rng.choice([1, 2, 3, 4]))], [self.call(rng, False) for _ in range(rng.choice([1, 2, 3]))]]
            return dict(kind='conc', setup=setup, clients=clients, sw=rng.choice([20, 60, 150, 300, 500]), stall=rng.choice([0, 0, 3, 15]), plan=None)
        steps = []
        for _ in range(rng.choice([2, 4, 7])):
            x = rng.random()
            if x < 0.5:
                steps.append(self.call(rng))
            elif x < 0.9:
                steps.append(['op', g.more()])
            else:
                steps.append(['move', rng.choice(MODES)])
        steps.append(self.call(rng))
        return dict(kind='seq', setup=setup, steps=steps, mode=rng.choice(MODES))

    def call(self, rng, fault=True):
        f = None
        if fault and rng.random() < 0.25:
            f = dict(k=rng.choice(['fs', 'stick', 'short', 'sqlint', 'mem', 'memrun', 'sigsql', 'sigfs']), n=int(2 ** rng.uniform(0, 9)),
                     e=rng.choice([5, 13, 28]), v=rng.choice([1, 5, 30]), r=3)
            if rng.random() < 0.4:
                f['back'] = rng.randrange(6)
        keep = None
        if rng.random() < 0.35:
            keep = rng.choice([['year'], ['kind'], ['year', 'sex'], 'kind', ['nope']])
        return ['call', dict(sel=rng.sample(SELS, rng.choice([1, 1, 2])) if rng.random() < 0.4 else [], cache=rng.random() < 0.4,
                             quant=rng.random() < 0.4, sum=keep), f]

    def shrink_paths(self, case):
        out = [('setup',)]
        if case['kind'] == 'seq':
            return [('steps',)] + out
        out = [('clients', 0), ('clients', 1)] + out
        if case['plan'] is not None:
            out.append(('plan',))
        return out

    def simplify(self, case):
        c = json.loads(json.dumps(case))
        for n, op in enumerate(case['setup']):
            if op[0] in ('insq', 'insidx') and len(op[2]) > 1:
                for k in range(len(op[2])):
                    d = json.loads(json.dumps(case))
                    del d['setup'][n][2][k]
                    yield d
        if case['kind'] == 'seq':
            if case['mode'] != 'mem':
                yield dict(c, mode='mem')
            for n, s in enumerate(case['steps']):
                if s[0] == 'call':
                    if s[2]:
                        d = json.loads(json.dumps(case))
                        d['steps'][n][2] = None
                        yield d
                    for k, v in (('sel', []), ('cache', False), ('quant', False), ('sum', None)):
                        if s[1][k] != v:
                            d = json.loads(json.dumps(case))
                            d['steps'][n][1][k] = v
                            yield d

    def select(self, space, o, ncols=None):
        r = space(*o['sel'], cache_to_drive=o['cache'], quantize=o['quant'], sum_by_attrs=o['sum'])
        try:
            return read_rows(r, len(r.index_columns))
        finally:
            r.close()

    def judge(self, res, st, o, got, err, where):
        """got rows or err; raises Violation."""
        try:
            n, split = check_rows(st, got if got is not None else {}, o, where) if err is None else (len(spread(st, o['sel'])), 0)
        except Refuse as e:
            if err is None and str(e) == 'must':
                raise Violation('not-refused', f'{where}: rows {sorted(got.items(), key=repr)[:6]}')
            res.count('probe.refused')
            return
        if err is not None:
            raise Violation('refused', f'{where}: {type(err).__name__}: {err}')
        if split:
            res.nontrivial += 1
            res.count('probe.spread_quantities', split)
        if o['quant']:
            res.count('probe.quantised')

    def run(self, case, res):
        if case['kind'] == 'conc':
            return self.run_conc(case, res)
        refs = Refs()
        d = res.dir
        s = Store(case['mode'], d)
        for op in case['setup']:
            run_op(s.space, op, refs)
        prev = None
        for n, step in enumerate(case['steps']):
            where = f'step {n} {json.dumps(step)[:300]} ({s.mode})'
            if step[0] == 'op':
                run_op(s.space, step[1], refs)
                prev = None
                continue
            if step[0] == 'move':
                s.move(step[1])
                continue
            o, f = step[1], step[2]
            st = s.state()
            res.evals += 1
            if f:
                out = {}

                def go():
                    out['got'] = self.select(s.space, o)
                err, fired = faults.attempt(go, f, res.dir)
                if fired:
                    res.count('fault.' + f['k'])
                if isinstance(err, Violation):
                    raise err
                if err is None:
                    self.judge(res, st, o, out['got'], None, where + ' with a fault')
                err = None
                after = s.state()
                if world.digest(after) != world.digest(st):
                    raise Violation('space-changed', f'{where}: {world.diff(st, after)}')
            got = err = None
            try:
                got = self.select(s.space, o)
            except Violation:
                raise
            except Exception as e:
                e.__traceback__ = None
                err = e
            self.judge(res, st, o, got, err, where)
            after = s.state()
            if world.digest(after) != world.digest(st):
                raise Violation('space-changed', f'{where}: {world.diff(st, after)}')
            # the same selection gives the same rows, cached or not
            if err is None:
                again = self.select(s.space, dict(o, cache=not o['cache']))
                if set(again) != set(got) or any(not close(again[k], got[k]) for k in got):
                    raise Violation('not-repeatable', f'{where}: {sorted(got.items(), key=repr)[:8]} then {sorted(again.items(), key=repr)[:8]}')
            res.sig(sorted(st['struct']), o, world.digest(st))
        res.sample = dict(steps=case['steps'][:6], mode=case['mode'])

    # ------------------------------------------------- with another user
    def run_conc(self, case, res):
        refs, d, t = Refs(), res.dir, toron()
        path = os.path.join(d, 'work', 'shared.toron')
        with bypass():
            s = t.DataSpace()
            for op in case['setup']:
                run_op(s, op, refs)
            s.to_file(path, fsync=False)
            del s
        copy_ = os.path.join(d, 'aux', 'copy.toron')
        with open(path, 'rb') as f, open(copy_, 'wb') as g:
            g.write(f.read())
        spaces = [t.bind_file(path, mode='rw'), t.bind_file(path, mode='ro' if case['seed'] % 3 == 0 else 'rw')]
        events, recs, errors = [0], [], []

        def client(tid):
            L.sim_thread_enter(tid)
            try:
                for k, step in enumerate(case['clients'][tid]):
                    rec = dict(t=tid, k=k, step=step, got=None, err=None)
                    recs.append(rec)
                    L.sim_point()
                    rec['inv'] = events[0] = events[0] + 1
                    try:
                        if step[0] == 'op':
                            world.execute(spaces[tid], step[1], refs.spaces)
                        else:
                            rec['got'] = self.select(spaces[tid], step[1])
                    except Exception as e:
                        rec['err'] = e
                        e.__traceback__ = None
                    rec['ret'] = events[0] = events[0] + 1
            except BaseException as e:
                errors.append(repr(e))
            finally:
                L.sim_thread_exit()
        sys.setswitchinterval(100)
        L.sim_sched_seed(case['seed'] & 0xffffffffffff, case['stall'])
        L.sim_sched_plan_clear()
        for st, tid in case['plan'] or []:
            L.sim_sched_plan_add(st, tid)
        L.sim_sched_start(2, case['sw'], case['plan'] is not None, 3000000)
        th = [threading.Thread(target=client, args=(i,), daemon=True) for i in range(2)]
        for x in th:
            x.start()
        for x in th:
            x.join()
        L.sim_log_stop()
        plan = [[L.sim_sched_switch_step(i), L.sim_sched_switch_tid(i)] for i in range(L.sim_sched_nswitch())]
        pin = None if case['plan'] is not None else dict(plan=plan)
        if errors:
            raise RuntimeError(errors[0])
        res.count('probe.context_switches', len(plan))
        st = L.sim_sched_stalls()
        if st:
            res.count('fault.stalled_client', st)
        try:
            self.judge_conc(case, res, refs, recs, copy_)
        except Violation as v:
            v.pin = v.pin or pin
            raise
        res.sig('sched', plan, [(r['t'], r['k'], bool(r['err'])) for r in recs])
        res.sample = dict(clients=case['clients'], switches=len(plan))

    def judge_conc(self, case, res, refs, recs, copy_):
        t = toron()
        done = [r for r in recs if r['t'] == 0 and r['err'] is None]
        with bypass():
            s = t.bind_file(copy_, mode='rw')
            states = [world.read_state(copy_)]
            for r in done:
                run_op(s, r['step'][1], refs)
                states.append(world.read_state(copy_))
        for r in recs:
            if r['t'] == 0:
                continue
            lo = sum(1 for w in done if w['ret'] < r['inv'])
            hi = sum(1 for w in done if w['inv'] < r['ret'])
            where = f'selection {r["k"]} {json.dumps(r["step"][1])} while another user ran {[w["step"][1][0] for w in done[lo:hi]]}'
            res.evals += 1
            if r['err'] is not None and 'locked' in str(r['err']):
                res.count('probe.busy')
                continue
            v = None
            for j in range(lo, hi + 1):
                try:
                    self.judge(res, states[j], r['step'][1], r['got'], r['err'], where)
                    v = None
                    break
                except Violation as e:
                    v = v or e
            if v is not None:
                raise Violation('mixed-states' if hi > lo else v.cls, f'{where}: explained by none of the {hi - lo + 1} states it overlaps: {v}')
            if hi > lo:
                res.count('probe.overlapping_selections')


def make(prop, **kw):
    return Disagg(prop)

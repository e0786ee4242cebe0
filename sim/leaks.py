"""P23: whatever way a call ends, it holds nothing afterwards."""
import gc, json, os, random, sqlite3
import simlib, world, faults
from simlib import L, Violation, bypass
from hist import Store, MODES, run_op, toron
from disagg import DGen, SELS
from gen import ATTRS
import atomic

KINDS = ('fs', 'stick', 'short', 'sqlint', 'mem', 'memrun', 'sigsql', 'sigfs')
READS = ['select_index', 'select_weights', 'select_mappings', 'select_quantities', 'select_quantities2',
         'select_unmatched_quantities', 'select_quantities_without_index', 'translate', 'weight_groups', 'links', 'structure', 'get_weights']
WHAT = dict(op=14, read=8, reader=6, treader=5, pivot=3, save=4, load=3, bind=3, mapload=2)


def descriptors():
    """What the open file descriptors of this process refer to."""
    out = []
    for n in os.listdir('/proc/self/fd'):
        try:
            p = os.readlink('/proc/self/fd/' + n)
        except OSError:
            continue
        if '/tsim' in p or '.toron' in p or '/tmp/' in p:
            out.append(p)
    return sorted(out)


class Thrown(Exception):
    """What a consumer throws into the reading."""


class Leaks:
    RUNS = dict(quick=140, thorough=16000)
    LEVEL = 'exploration'
    MEASURE = 'distinct (call, fault kind and position, outcome, storage modes) tuples'
    RULE = ('Each case is two generated spaces in seeded storage modes and one call (a modification, a reading taken to a seeded row and ended, a reader, '
            'a translation, a pivot, a save, an opening, a mapping load); it is repeated from a snapshot under drawn faults. An evaluation is one such call, '
            'followed, while the caller still holds the exception, by locking each file exclusively through an independent connection and by modifying the '
            'space again, and, after the exception and results are dropped, by a comparison of the open descriptors with those before; '
            'non-trivial = the fault fired inside the call.')
    ASSUMPTIONS = ['After SIGINT, locks are examined once the exception has been dropped (it can arrive inside contextlib).',
                   'Descriptors are compared after the exception of the call has been dropped (its frames may refer to connections).',
                   'A rollback that itself fails is completed by the next use.']

    def __init__(self, prop):
        self.PROP = prop

    def generate(self, rng, tier, i):
        g = DGen(rng, {}, bad=0.02)
        setup = g.prepare()
        for _ in range(rng.choice([0, 2])):
            setup.append(g.next())
        kind = rng.choices(list(WHAT), list(WHAT.values()))[0]
        call = [kind]
        if kind == 'op':
            names = list(atomic.TARGETS)
            op = None
            while op is None:
                n = rng.choices(names, [atomic.TARGETS[x] for x in names])[0]
                if n in ('dropcols',):
                    continue
                o = getattr(g, 'g_' + n)()
                op = [n] + o if o is not None else None
            call.append(op)
        elif kind == 'read':
            crit = {}
            if rng.random() < 0.5:
                col = rng.choice(g.st['cols'])
                crit = {col: rng.choice([l[g.st['cols'].index(col)] for l in g.st['index'].values() if l] or ['x'])}
            call += [rng.choice(READS), rng.choice([0, 1, 2, 5, 1 << 20]), rng.choice(['close', 'drop', 'throw', 'throw']), crit]
        elif kind in ('reader', 'treader'):
            call += [rng.random() < 0.6, rng.choice([[], [], [rng.choice(SELS)]]), rng.choice([0, 1, 3, 1 << 20]), rng.choice(['close', 'drop', 'throw'])]
        elif kind == 'pivot':
            call += [rng.random() < 0.6, rng.sample(ATTRS, rng.choice([1, 2])), rng.choice([0, 1, 1 << 20]), rng.choice(['close', 'drop', 'throw'])]
        elif kind == 'save':
            call += [rng.random() < 0.7, rng.choice(['new', 'old', 'nodir', 'dir'])]
        elif kind == 'load':
            call += [rng.random() < 0.5, rng.random() < 0.2]
        elif kind == 'bind':
            call += [rng.choice(['ro', 'rw', 'rwc']), rng.random() < 0.2]
        elif kind == 'mapload':
            call += [rng.choice(['->', '<-', '<->']), rng.random() < 0.3]
        # readings thrown into by their consumer, without faults
        thrown = [['read', r, rng.choice([2, 3, 5]), 'throw', {}] for r in rng.sample(READS, 5)]
        thrown += [rng.choice([['reader', rng.random() < 0.5, [], rng.choice([1, 2]), 'throw'], ['treader', rng.random() < 0.5, [], rng.choice([1, 2]), 'throw'],
                               ['pivot', rng.random() < 0.5, rng.sample(ATTRS, rng.choice([1, 2])), 1, 'throw']])]
        return dict(mode=MODES[i % len(MODES)], other=rng.choice(MODES), setup=setup, call=call, thrown=thrown, k=12 if tier == 'quick' else 60,
                    sweep=rng.choice(['', '', 'fs', 'sigsql', 'sqlint', 'mem', 'sigfs']))

    def shrink_paths(self, case):
        return [('thrown',), ('setup',)]

    def simplify(self, case):
        for m in ('mem', 'bind'):
            for k in ('mode', 'other'):
                if case[k] != m:
                    yield dict(case, **{k: m})

    # ------------------------------------------------------------- the call
    def make(self, case):
        """A function doing the call; what it makes is left in self.slot."""
        t = toron()
        from toron import graph, reader
        c, s, o = case['call'], self.a.space, self.b.space
        slot = self.slot = []
        work = os.path.join(self.d, 'work')

        def consume(it, n, how):
            slot.append(it)
            for _ in range(n):
                try:
                    next(it)
                except StopIteration:
                    break
            if how == 'throw' and hasattr(it, 'throw'):
                slot.clear()
                it.throw(Thrown('by the consumer'))
            if how in ('close', 'throw') and hasattr(it, 'close'):
                it.close()
            slot.clear()

        def go():
            if c[0] == 'op':
                return world.execute(s, c[1], self.refs.spaces)
            if c[0] == 'read':
                n = c[1]
                if n == 'weight_groups':
                    return list(s.weight_groups)
                if n == 'links':
                    o.links
                    return o.get_link(s, 'e1')
                if n == 'structure':
                    return s.partition_definitions, s.index_columns, s.get_label_columns(), s.get_registered_attributes(), s.domain, s.max_index_id
                g = sorted(x.name for x in s.weight_groups) or ['none']
                if n == 'select_weights':
                    it = s.select_weights(g[0], **c[4])
                elif n == 'select_mappings':
                    it = o.select_mappings(s, 'e1', header=True, **{k: v for k, v in c[4].items() if k in o.index_columns})
                elif n == 'select_index':
                    it = getattr(s, n)(header=True, **c[4])
                elif n == 'translate':
                    it = graph.translate(s.select_weights(g[0]), o)
                elif n == 'get_weights':
                    it = graph.get_weights(s)
                else:
                    it = getattr(s, n)(header=True)
                consume(iter(it), c[2], c[3])
            elif c[0] in ('reader', 'treader'):
                r = s(*c[2], cache_to_drive=c[1])
                self.readers.append(r)
                if c[0] == 'treader':
                    r.translate(o)
                consume(r, c[3], c[4])
            elif c[0] == 'pivot':
                r = s(cache_to_drive=c[1])
                self.readers.append(r)
                consume(iter(reader.pivot_reader(r, c[2])), c[3], c[4])
            elif c[0] == 'save':
                p = os.path.join(work, *dict(new=['new.toron'], old=['old.toron'], nodir=['no', 'x.toron'], dir=['adir'])[c[2]])
                s.to_file(p, fsync=c[1])
            elif c[0] == 'load':
                x = t.read_file(os.path.join(work, 'bad.toron' if c[2] else 'old.toron'), cache_to_drive=c[1])
                slot.append(x)
                list(x.select_index())
            elif c[0] == 'bind':
                p = os.path.join(work, 'bad.toron' if c[2] else 'new.toron' if c[1] == 'rwc' else 'old.toron')
                if c[1] == 'ro':
                    with faults.readonly(p):
                        x = t.bind_file(p, mode='ro')
                        slot.append(x)
                        list(x.select_index())
                else:
                    x = t.bind_file(p, mode=c[1])
                    slot.append(x)
                    x.set_domain('other')
            elif c[0] == 'mapload':
                head = ['index_id', *s.index_columns, 'm2', 'index_id', *o.index_columns]
                rows = [[str(i), *l, '1.5', str(1 + i % 3), 'pqr'[i % 3]] for i, l in sorted(self.pre['index'].items()) if i]
                if c[2]:
                    rows.insert(len(rows) // 2, rows[0][:2])
                graph.load_mapping(s, o, 'm2', iter(rows), head, c[1])
            return None
        return go

    def end(self):
        """The owners of what the call made end."""
        for r in self.readers:
            r.close()
        self.readers.clear()
        self.slot.clear()
        gc.collect()

    def probe(self, where, pin):
        """Nothing is locked and nothing is in progress."""
        with bypass():
            for st in (self.a, self.b):
                if st.bound and not st.dead:
                    con = sqlite3.connect(st.path, timeout=0, isolation_level=None)
                    try:
                        con.execute('BEGIN EXCLUSIVE')
                        con.execute('ROLLBACK')
                    except sqlite3.OperationalError as e:
                        raise Violation('file-locked', f'{where}: afterwards another user gets "{e}" on {os.path.basename(st.path)} (mode {st.mode})', pin)
                    finally:
                        con.close()
            for p in ('old.toron', 'new.toron'):
                p = os.path.join(self.d, 'work', p)
                if os.path.exists(p) and os.path.getsize(p):
                    con = sqlite3.connect(p, timeout=0, isolation_level=None)
                    try:
                        con.execute('BEGIN EXCLUSIVE')
                        con.execute('ROLLBACK')
                    except sqlite3.OperationalError as e:
                        raise Violation('file-locked', f'{where}: afterwards another user gets "{e}" on {os.path.basename(p)}', pin)
                    finally:
                        con.close()
            for st in (self.a, self.b):
                try:
                    st.space.add_weight_group('probe "1"', make_default=False)
                    st.space.edit_weight_group('probe "1"', description='x')
                    st.space.drop_weight_group('probe "1"')
                    st.space.add_index_columns(f'probe {len(st.space.index_columns)}')
                except Exception as e:
                    if not simlib._in_toron(e.__traceback__):
                        raise
                    raise Violation('space-blocked', f'{where}: afterwards modifying the space (mode {st.mode}) fails: {type(e).__name__}: {e}', pin)

    # ------------------------------------------------------------------ run
    def run(self, case, res):
        self.d, self.readers = res.dir, []
        work = os.path.join(self.d, 'work')
        with bypass():
            self.a, self.b = Store(case['mode'], self.d, 'a'), Store(case['other'], self.d, 'b')
            for st in (self.a, self.b):
                st.dead = False
            from toron.space import DataSpace
            self.refs = type('R', (), {'spaces': [DataSpace(), DataSpace()]})
            for op in case['setup']:
                run_op(self.a.space, op, self.refs)
            run_op(self.a.space, ['addlink', 0, 'e1', {}], self.refs)
            self.pre = self.a.state()
            o = self.b.space
            o.add_index_columns('key')
            o.insert_index([('p',), ('q',), ('r',)], ['key'])
            o.add_weight_group('w1')
            o.insert_weights('w1', [('p', 1.0), ('q', 2.0), ('r', 0.0)], ['key', 'w1'])
            o.add_link(self.a.space, 'e1')
            o.insert_mappings2(self.a.space, 'e1', [(i, 1 + j, b'\x80', 1.0 + j) for i in self.pre['index'] for j in (i % 3, (i + 1) % 3)],
                               ['other_index_id', 'index_id', 'mapping_level', 'e1'])
            if o.get_link(self.a.space, 'e1').other_index_hash is None:
                o.refresh_index_hash() if hasattr(o, 'refresh_index_hash') else None
            self.a.space.to_file(os.path.join(work, 'old.toron'), fsync=False)
            os.mkdir(os.path.join(work, 'adir'))
            with open(os.path.join(work, 'bad.toron'), 'wb') as f:
                f.write(b'SQLite format 3\0' + b'\x10\x00\x01\x01' + b'x' * 3000)
            o = None
            gc.collect()
        rng = random.Random(case['seed'])
        files0 = simlib.snapshot_dir(self.d)
        restore = lambda: simlib.restore_dir(self.d, files0)
        call = self.make(case)

        def wrapped(f=None, case=case, call=call):
            """(exception name, fired): the call, and what it leaves."""
            gc.collect()
            before = descriptors()
            pin = dict(pin=[f]) if f else None
            if f and f['k'] != 'iter':
                err, fired = faults.attempt(call, f)
            else:
                err, fired = None, False
                try:
                    call()
                except Exception as e:
                    if not simlib._in_toron(e.__traceback__) and not isinstance(e, (sqlite3.Error, OSError, Thrown)):
                        raise
                    err = e
            en = type(err).__name__ if err is not None else None
            where = f'{json.dumps(case["call"], ensure_ascii=False)[:300]} in modes {case["mode"]}, {case["other"]}' + \
                    (f' under {f}' if f else '') + f' ({en or "returned"}{": " + str(err)[:120] if err else ""})'
            # (an interrupt can arrive inside the interpreter's own handling of
            # context managers, which then end with the exception)
            if not self.reading() and not (en == 'KeyboardInterrupt' and faults.is_signal(f)):
                self.probe(where, pin)
            err = None
            self.end()
            self.probe(where, pin)
            gc.collect()
            after = descriptors()
            more = list(after)
            for x in before:
                if x in more:
                    more.remove(x)
            if more:
                raise Violation('descriptor-left-open', f'{where}: {[os.path.relpath(x, self.d) for x in more]}', pin)
            return en, fired
        en0, _ = simlib.forked(wrapped)
        restore()
        res.evals += 1
        res.count(f'call.{case["call"][0]}.{"rejected" if en0 else "ok"}')
        for c in case.get('thrown', ()):
            x = dict(case, call=c)
            simlib.forked(lambda: wrapped(None, x, self.make(x)))
            restore()
            res.evals += 1
            res.nontrivial += 1
            res.sig(c, case['mode'], case['other'])
            res.count('call.thrown_into')
        counts = faults.measure(call)
        restore()
        if 'pin' in case:
            plan = case['pin']
        else:
            # (an interrupt inside the library call that creates a temporary file is not toron's)
            quiet = case['call'][0] in ('op', 'read', 'bind', 'mapload')
            plan = faults.make_plan(rng, counts, case['k'], [k for k in KINDS if quiet or k != 'sigfs'])
            if case['sweep'] and (quiet or case['sweep'] != 'sigfs'):
                kw = {'e': 5} if case['sweep'] == 'fs' else {'v': 1} if case['sweep'] == 'sqlint' else {}
                s = faults.sweep(counts, case['sweep'], **kw)
                if len(s) > 50:
                    s = [s[j] for j in sorted(rng.sample(range(len(s)), 50))]
                plan += s
        for f in plan:
            en, fired = simlib.forked(lambda: wrapped(f))
            restore()
            res.evals += 1
            if fired:
                res.nontrivial += 1
                res.count(f'fault.{f["k"]}')
                res.sig(case['call'][:2], f, en, case['mode'], case['other'])
            res.count(f'outcome.{"error" if en else "returned"}')
        res.sample = dict(mode=case['mode'], other=case['other'], call=case['call'], points=counts, faults=plan[:3])

    def reading(self):
        """The caller itself still holds an open reading."""
        return bool(self.slot and hasattr(self.slot[0], '__next__')) or any(getattr(r, '_data', None) is not None for r in self.readers)


def make(prop, **kw):
    return Leaks(prop)

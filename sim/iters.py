"""P18: readings held open, abandoned, failing or interleaved."""
import copy, gc, json, math, os, random
import simlib, world, faults
from simlib import L, Violation, bypass
from hist import run_op, toron
from disagg import DGen, SELS
from gen import ATTRS, GROUPS

KINDS = ('fs', 'stick', 'short', 'sqlint', 'mem', 'memrun', 'sigsql')
READS = dict(index=4, weights=3, maps=4, q2=2, q=2, noidx=1, unm=2, reader=4, treader=2, pivot=5, getw=2, tweights=2)
FEEDS = ['index', 'index', 'quant', 'quant', 'reader', 'weights', 'delete']
TWO = ('maps', 'treader', 'tweights')


def canon(row):
    """(what must be equal, numbers) of one row."""
    txt, num = [], []

    def walk(x):
        if isinstance(x, float):
            num.append(x)
            txt.append('#')
        elif isinstance(x, (list, tuple)):
            txt.append('(')
            for y in x:
                walk(y)
            txt.append(')')
        elif isinstance(x, dict):
            walk(sorted(x.items()))
        elif hasattr(x, 'labels'):
            walk([x.id, *x.labels])
        else:
            txt.append(repr(x))
    walk(row)
    return ''.join(txt), num


def near(a, b):
    return a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def missing(got, want):
    """The first row of *got* that *want* does not account for."""
    pool = {}
    for r in want:
        k, n = canon(r)
        pool.setdefault(k, []).append(n)
    for r in got:
        k, n = canon(r)
        for m in pool.get(k, []):
            if all(near(x, y) for x, y in zip(n, m)):
                pool[k].remove(m)
                break
        else:
            return r
    return None


class Iters:
    RUNS = dict(quick=1200, thorough=60000)
    LEVEL = 'exploration'
    MEASURE = 'distinct (reading, rows taken, how it ended, fault, readings open at the time, next operation) tuples'
    RULE = ('Each case opens several row-by-row readings (index records, weights, mappings, quantities, record-level data, pivots, translated data) on '
            'several spaces in different storage modes, advances them in seeded order, ends them at seeded rows (exhausted, closed, dropped, or failed by '
            'an injected fault), and in between modifies and saves the spaces and feeds readings of one space into another; an evaluation is one comparison '
            'of rows, acceptance or content with a private copy on which the same was done in one piece; non-trivial = a reading was ended early, or '
            'several were open at once, or a reading fed an operation.')
    ASSUMPTIONS = ['While a reading is still open, modifications of the same content are not attempted (readings on a file keep it locked for writing, as SQLite does).',
                   'A reader that was partly read is not translated.']
    RUN_TIMEOUT = 120

    def __init__(self, prop):
        self.PROP = prop

    # ------------------------------------------------------------ generation
    def generate(self, rng, tier, i):
        ga, gb = DGen(rng, {}, bad=0.0), DGen(rng, {}, bad=0.0)
        a, b = ga.prepare(), gb.prepare(rng.choice([1, 3, 6]))
        level = world.level_hex((1,) * len(gb.st['cols']))
        seen, rows, hole = set(), [], rng.choice([0, 0, 0.03])
        for x in list(ga.st['index']):
            for _ in range(rng.choice([1, 1, 2])):
                y = rng.choice(list(gb.st['index']))
                if (x or y) and (x, y) not in seen and rng.random() >= hole:
                    seen.add((x, y))
                    rows.append([x, y, level, rng.choice([1.0, 2.5, 0.1, round(rng.uniform(0, 9), 4)])])
        spaces = [['A', rng.choice(['mem', 'drive', 'rw', 'rw', 'ro'])], ['B', rng.choice(['mem', 'drive', 'rw', 'rw', 'ro'])]]
        if rng.random() < 0.6:
            spaces.append(['A', rng.choice(['rw', 'ro', 'mem', 'drive', 'rw'])])
        steps = []
        for _ in range(rng.choice([4, 8, 14, 24])):
            x = rng.random()
            f = self.fault(rng) if rng.random() < 0.12 else None
            if x < 0.34:
                steps.append(['open', self.spec(rng, ga, gb), f])
            elif x < 0.68:
                steps.append(['next', rng.getrandbits(12), rng.choice([0, 1, 1, 2, 3, 10, 10000]), f])
            elif x < 0.8:
                steps.append(['end', rng.getrandbits(12), rng.choice(['close', 'drop', 'exhaust'])])
            elif x < 0.89:
                w = rng.getrandbits(12)
                steps.append(['op', w, (gb if spaces[w % len(spaces)][0] == 'B' else ga).more(), rng.choice(['close', 'drop', 'exhaust']), f if rng.random() < 0.4 else None])
            elif x < 0.96:
                steps.append(['feed', rng.choice(FEEDS), rng.getrandbits(12), rng.choice(['close', 'drop', 'exhaust']), f,
                              rng.choice([None, None, None, 0, 1, 3])])
            else:
                steps.append(['save', rng.getrandbits(12)])
        return dict(a=a, b=b, rows=rows, spaces=spaces, t=rng.choice(['mem', 'drive', 'rw']), steps=steps)

    def fault(self, rng):
        return dict(k=rng.choice(KINDS), n=int(2 ** rng.uniform(0, 8)), e=rng.choice(faults.ERRS), v=rng.choice([1, 5, 30]), r=3)

    def spec(self, rng, ga, gb):
        k = rng.choices(list(READS), list(READS.values()))[0]
        w = rng.getrandbits(12)
        s = dict(k=k, s=w, o=rng.getrandbits(12), head=rng.random() < 0.5)
        g = ga
        if k in ('index', 'weights') and rng.random() < 0.4:
            i = rng.choice(list(g.st['index']))
            c = rng.randrange(len(g.st['cols']))
            s['crit'] = {g.st['cols'][c]: g.st['index'][i][c]}
        if k in ('weights', 'tweights'):
            s['group'] = rng.choice(sorted(g.st['wg']) or ['w1'])
        if k in ('reader', 'treader', 'pivot'):
            s['sel'] = rng.choice([[], [], [], [rng.choice(SELS)]])
            s['cache'] = rng.random() < 0.4
        if k == 'pivot':
            s['cols'] = rng.sample(ATTRS, rng.choice([1, 1, 2]))
            s['agg'] = rng.choice(['sum', 'mean'])
            s['share'] = rng.random() < 0.7
        return s

    def shrink_paths(self, case):
        return [('steps',), ('rows',), ('a',), ('b',)]

    def simplify(self, case):
        for j, s in enumerate(case['steps']):
            f = {'open': 2, 'next': 3, 'op': 4, 'feed': 4}.get(s[0])
            if f and s[f]:
                c = json.loads(json.dumps(case))
                c['steps'][j][f] = None
                yield c

    # ------------------------------------------------------------- the world
    def group(self, j):
        f, m = self.spec_of[j]
        return f if m in ('rw', 'ro') else f'{f}{j}'

    def of(self, spec):
        """Indexes of the spaces a reading uses (A side first)."""
        if spec['k'] in TWO:
            aa = [j for j, (f, m) in enumerate(self.spec_of) if f == 'A']
            bb = [j for j, (f, m) in enumerate(self.spec_of) if f == 'B']
            return [aa[spec['s'] % len(aa)], bb[spec['o'] % len(bb)]]
        return [spec['s'] % self.nread]

    def make(self, spec, spaces, shared):
        """Start the reading on the given spaces."""
        t, k = toron(), spec['k']
        from toron import graph, reader
        js = self.of(spec)
        s = spaces[js[0]]
        crit = spec.get('crit') or {}
        if k == 'index':
            return s.select_index(header=spec['head'], **crit)
        if k == 'weights':
            return s.select_weights(spec['group'], **crit)
        if k == 'maps':
            return spaces[js[1]].select_mappings(s, 'e1', header=spec['head'])
        if k == 'q2':
            return s.select_quantities2(header=spec['head'])
        if k == 'q':
            return s.select_quantities(header=spec['head'])
        if k == 'noidx':
            return s.select_quantities_without_index(header=spec['head'])
        if k == 'unm':
            return s.select_unmatched_quantities(header=spec['head'])
        if k == 'getw':
            return graph.get_weights(s, header=spec['head'])
        if k == 'tweights':
            return graph.translate(s.select_weights(spec['group']), spaces[js[1]])
        if k == 'reader':
            return s(*spec['sel'], cache_to_drive=spec['cache'])
        if k == 'treader':
            return s(*spec['sel'], cache_to_drive=spec['cache']) >> spaces[js[1]]
        if k == 'pivot':
            key = json.dumps([js, spec['sel'], spec['cache']])
            r = shared.get(key) if spec['share'] else None
            if r is None:
                r = s(*spec['sel'], cache_to_drive=spec['cache'])
                shared[key if spec['share'] else id(r)] = r
            return reader.pivot_reader(r, spec['cols'], spec['agg'])
        raise AssertionError(k)

    def whole(self, spec):
        """Rows of the reading done in one piece on private copies."""
        with bypass():
            shared, rows, err = {}, [], None
            try:
                it = self.make(spec, [self.ctl[self.group(j)] for j in range(len(self.spec_of))], shared)
                for r in it:
                    rows.append(r)
            except Exception as e:
                if not simlib._in_toron(e.__traceback__):
                    raise
                err = type(e).__name__
                e.__traceback__ = None
            it = None
            for r in shared.values():
                r.close()
            gc.collect()
            return rows, err

    def where(self, x):
        s = x['spec']
        return f'{x["at"]}: {s["k"]} of {[self.spec_of[j] for j in self.of(s)]} {json.dumps({k: v for k, v in s.items() if k not in ("k", "s", "o")}, ensure_ascii=False)}'

    def judge(self, x, how):
        """Rows a reading gave, against those it gives alone."""
        self.res.evals += 1
        got, (want, err) = x['got'], x['want']
        bad = missing(got, want)
        if bad is not None:
            raise Violation('wrong-row', f'{self.where(x)}, {how}: row {bad!r} is not among the {len(want)} rows it gives alone')
        if how == 'exhausted':
            if err:
                raise Violation('error-lost', f'{self.where(x)}: ended after {len(got)} rows; alone it raises {err}')
            if len(got) != len(want):
                raise Violation('rows-missing', f'{self.where(x)}: {len(got)} rows, alone {len(want)}; missing {missing(want, got)!r}')

    def advance(self, x, n):
        it, got = x['it'], x['got']
        for _ in range(n):
            try:
                r = next(it)
            except StopIteration:
                return 'exhausted'
            got.append(r)
        return None

    def finish(self, x, how, note=None):
        """End a reading that is still open."""
        if how == 'exhaust':
            self.step_next(x, 1 << 20, None)
            return
        it, x['it'] = x['it'], None
        self.open.remove(x)
        if how == 'close':
            if hasattr(it, 'close'):
                it.close()
            elif hasattr(getattr(it, 'data', None), 'close'):
                it.data.close()
        it = None
        gc.collect()
        self.judge(x, note or how)
        self.res.count('ended.' + (note or how))
        if x['got'] is not None and len(x['got']) < len(x['want'][0]):
            self.res.nontrivial += 1
        self.res.sig('end', x['spec']['k'], len(x['got']), note or how, sorted(y['spec']['k'] for y in self.open))

    def step_next(self, x, n, f):
        res = self.res
        end = err = None
        if f is None:
            try:
                end = self.advance(x, n)
            except Exception as e:
                err = e
                if not simlib._in_toron(e.__traceback__):
                    raise
        else:
            slot = []
            err, fired = faults.attempt(lambda: slot.append(self.advance(x, n)), f)
            end = slot[0] if slot else None
            if fired:
                res.count('fault.' + f['k'])
                res.nontrivial += 1
        if err is not None:
            en, msg = type(err).__name__, str(err)[:200]
            err.__traceback__ = err.__context__ = err.__cause__ = None
            err = None
            if f is None and en != x['want'][1]:
                raise Violation('reading-failed', f'{self.where(x)}: {en}: {msg} after {len(x["got"])} rows; alone {x["want"][1] or "it does not fail"}')
            self.finish(x, 'drop', 'failed')
        elif end:
            self.judge(x, end)
            self.open.remove(x)
            x['it'] = None
            gc.collect()
            res.count('ended.exhausted')
        if len(self.open) > 1:
            res.nontrivial += 1

    def clear(self, groups, how):
        """End everything that reads the given contents."""
        for x in [x for x in self.open if {self.group(j) for j in self.of(x['spec'])} & groups]:
            if x in self.open:
                self.finish(x, how)
        x = None
        for k in list(self.shared):
            js = self.shared_of[k]
            if {self.group(j) for j in js} & groups:
                r = self.shared.pop(k)
                if how != 'drop':
                    r.close()
                r = None
        gc.collect()

    def content(self, j):
        f, m = self.spec_of[j]
        return world.space_state(self.sp[j], self.paths[f] if m in ('rw', 'ro') else None, self.d)

    def same(self, j, where):
        self.res.evals += 1
        got = self.content(j)
        with bypass():
            want = world.space_state(self.ctl[self.group(j)], None, self.d)
        got['props'].pop('created_date', None)
        want['props'].pop('created_date', None)
        d = world.diff(want, got)
        if d:
            raise Violation('content', f'{where}: ' + '; '.join(d))

    # ------------------------------------------------------------------ run
    def run(self, case, res):
        self.res, self.case, self.d = res, case, res.dir
        t = toron()
        work = os.path.join(self.d, 'work')
        self.paths = {f: os.path.join(work, f + '.toron') for f in 'ABT'}
        self.spec_of = [list(x) for x in case['spaces']] + [['T', case['t']]]
        self.nread = len(case['spaces'])
        self.T = len(case['spaces'])
        self.open, self.shared, self.shared_of, self.readers = [], {}, {}, []
        with bypass():
            a, b, tt = t.DataSpace(), t.DataSpace(), t.DataSpace()
            refs = type('R', (), {'spaces': [a, b]})
            for s, key in ((a, 'a'), (b, 'b')):
                for op in case[key]:
                    run_op(s, op, refs)
            run_op(b, ['addlink', 0, 'e1', {}], refs)
            run_op(b, ['insm2', 0, 'e1', case['rows']], refs)
            if a.index_columns:
                tt.add_index_columns(*a.index_columns)
            tt.set_registered_attributes(a.get_registered_attributes())
            if a.domain:
                tt.set_domain(a.domain)
            for f, s in zip('ABT', (a, b, tt)):
                s.to_file(self.paths[f], fsync=False)
            a = b = tt = s = refs = None
            gc.collect()
            self.sp, self.ctl = [], {}
            for j, (f, m) in enumerate(self.spec_of):
                p = self.paths[f]
                self.sp.append(t.read_file(p, cache_to_drive=m == 'drive') if m in ('mem', 'drive') else t.bind_file(p, mode=m))
                if self.group(j) not in self.ctl:
                    self.ctl[self.group(j)] = t.read_file(p)
            self.initial = {f: open(p, 'rb').read() for f, p in self.paths.items()}
        touched = set()
        for n, s in enumerate(case['steps']):
            at = f'step {n}'
            res.count('step.' + s[0])
            if s[0] == 'open':
                self.step_open(at, s)
            elif s[0] == 'next':
                if self.open:
                    self.step_next(self.open[s[1] % len(self.open)], s[2], s[3])
            elif s[0] == 'end':
                if self.open:
                    self.finish(self.open[s[1] % len(self.open)], s[2])
            elif s[0] == 'save':
                j = s[1] % len(self.sp)
                p = os.path.join(self.d, 'aux', f'save{n}.toron')
                hint = self.sp[j]._path_hint
                self.sp[j].to_file(p, fsync=False)
                self.sp[j]._path_hint = hint
                with bypass():
                    got, want = world.read_state(p), world.space_state(self.ctl[self.group(j)], None, self.d)
                    os.unlink(p)
                res.evals += 1
                for x in (got, want):
                    x['props'].pop('created_date', None)
                d = world.diff(want, got)
                if d:
                    raise Violation('saved-content', f'{at}: saved while {[x["spec"]["k"] for x in self.open]} are open: ' + '; '.join(d))
            elif s[0] == 'op':
                j = s[1] % self.nread
                if self.spec_of[j][1] == 'ro':
                    continue
                touched.add(self.group(j))
                self.clear({self.group(j)}, s[3])
                self.change(j, lambda sp, refs: run_op(sp, s[2], refs), s[4], f'{at} {json.dumps(s[2], ensure_ascii=False)[:300]} on {self.spec_of[j]} ({s[3]})')
                res.sig('op', s[2][0], self.spec_of[j], s[3], sorted(x['spec']['k'] for x in self.open))
            elif s[0] == 'feed':
                self.step_feed(at, s)
                touched.add(self.group(self.T))
        for x in list(self.open):
            self.finish(x, ['close', 'drop', 'exhaust'][len(x['got']) % 3])
        x = None
        for r in self.shared.values():
            r.close()
        r = None
        self.shared.clear()
        gc.collect()
        for j in range(len(self.sp)):
            f, m = self.spec_of[j]
            g = self.group(j)
            if m in ('rw', 'ro') and g not in touched:
                with bypass():
                    if open(self.paths[f], 'rb').read() != self.initial[f]:
                        raise Violation('file-changed', f'{f} was only read, but its bytes changed')
            self.same(j, f'end, {self.spec_of[j]}')
            if m != 'ro':
                touched.add(g)
                self.change(j, lambda sp, refs: run_op(sp, ['dom', f'last{j}'], refs), None, f'final operation on {self.spec_of[j]}')
                # two readings given up together, then a change of the tables
                with_rows = [self.sp[j].select_index(), self.sp[j].select_quantities2(), self.sp[j].select_index()]
                for k in range(case['seed'] % 4 + 1):
                    for it in with_rows[:2 + case['seed'] // 4 % 2]:
                        try:
                            next(it, None)
                        except t.ToronError:
                            pass                 # no attributes are registered
                if case['seed'] & 64:
                    for it in with_rows:
                        it.close()
                it = with_rows = None
                gc.collect()
                if j == self.T or f not in [self.spec_of[k][0] for k in range(j)]:
                    op = [['addcols', ['last']], ['legren', {}], ['addcols', ['last', 'of all']]][case['seed'] // 8 % 3]
                    if op[0] == 'legren':
                        c = self.sp[j].index_columns
                        op = ['legren', {c[0]: 'last'}] if c else ['dom', 'x']
                    res.sig('final', op[0], m)
                    self.change(j, lambda sp, refs: run_op(sp, op, refs), None, f'final {op} on {self.spec_of[j]}')
        res.sample = dict(spaces=self.spec_of, steps=case['steps'][:3])

    def step_open(self, at, s):
        res, spec, f = self.res, s[1], s[2]
        if spec['k'] in TWO and not all(any(x == y for x, _ in self.spec_of) for y in 'AB'):
            return
        x = dict(spec=spec, at=at, got=[], want=self.whole(spec), it=None)
        before = set(self.shared)
        err = None
        if f is None:
            try:
                x['it'] = self.make(spec, self.sp, self.shared)
            except Exception as e:
                err = e
                if not simlib._in_toron(e.__traceback__):
                    raise
        else:
            def go():
                x['it'] = self.make(spec, self.sp, self.shared)
            err, fired = faults.attempt(go, f)
            if fired:
                res.count('fault.' + f['k'])
                res.nontrivial += 1
        for k in set(self.shared) - before:
            self.shared_of[k] = self.of(spec)
        if err is not None:
            en, msg = type(err).__name__, str(err)[:200]
            err.__traceback__ = err.__context__ = err.__cause__ = None
            err = None
            x['it'] = None
            gc.collect()
            if f is None and en != x['want'][1]:
                raise Violation('reading-failed', f'{self.where(x)}: {en}: {msg} at its start; alone {x["want"][1] or "it does not fail"}')
            return
        res.count('read.' + spec['k'])
        self.open.append(x)

    def change(self, j, fn, f, where):
        """An operation on space j and, in one piece, on its private copy."""
        res = self.res
        refs = type('R', (), {'spaces': [self.sp[0], self.sp[1]]})
        before = None
        if f is not None:
            before = self.content(j)
            slot = []
            err, fired = faults.attempt(lambda: slot.append(fn(self.sp[j], refs)), f)
            e1 = err if err is not None else slot[0]
            err = None
            slot.clear()
            if fired:
                res.count('fault.' + f['k'])
            if e1 is not None:
                e1.__traceback__ = e1.__context__ = e1.__cause__ = None
                e1 = None
                gc.collect()
                now = self.content(j)
                if not world.diff(before, now):
                    # the failed operation can be done now
                    return self.change(j, fn, None, where + f' (again, after {f})')
                e1 = None
        else:
            e1 = fn(self.sp[j], refs)
        m1 = f'{type(e1).__name__}: {e1}'[:250]
        if e1 is not None:
            e1.__traceback__ = e1.__context__ = e1.__cause__ = None
        with bypass():
            c = [self.ctl[self.group(k)] for k in range(2)]
            e2 = fn(self.ctl[self.group(j)], type('R', (), {'spaces': c}))
        if e2 is not None:
            e2.__traceback__ = e2.__context__ = e2.__cause__ = None
        res.evals += 1
        if (e1 is None) != (e2 is None):
            raise Violation('operation-blocked' if e1 is not None else 'operation-accepted',
                            f'{where}: {m1 if e1 is not None else "accepted"}; on a copy never read this way: {type(e2).__name__ if e2 is not None else "accepted"} {e2 or ""}')
        e1 = e2 = None
        self.same(j, where)

    def step_feed(self, at, s):
        _, kind, w, how, f, boom = s
        self.clear({self.group(self.T)}, how)
        src = [j for j in range(self.nread) if self.spec_of[j][0] == 'A'][w % sum(1 for j in range(self.nread) if self.spec_of[j][0] == 'A')]
        where = f'{at} feed {kind} from {self.spec_of[src]} to T in mode {self.case["t"]}'
        from toron import graph

        def rows(sp):
            if kind in ('index', 'delete'):
                return (r[1:] if kind == 'index' else r for r in sp.select_index(header=True))
            if kind == 'quant':
                return sp.select_quantities2(header=True)
            if kind == 'weights':
                return (r[1:] for r in graph.get_weights(sp, header=True))
            r = sp(cache_to_drive=bool(w & 64))
            return (y for x in ([r.columns], r) for y in x)

        def stopping(it):
            n = 0
            for r in it:
                if n == boom:
                    raise ValueError('the rest of the rows is missing')
                n += 1
                yield r

        def fn(t, lazy):
            sp = self.sp[src] if lazy else self.ctl[self.group(src)]
            try:
                data = rows(sp)
            except Exception as e:        # nothing to read (no weights)
                if not simlib._in_toron(e.__traceback__):
                    raise
                e.__traceback__ = None
                return e
            if not lazy:
                try:
                    data = iter(list(data))
                except Exception as e:
                    e.__traceback__ = None
                    return e
            if boom is not None:
                data = stopping(data)
            try:
                if kind in ('index', 'weights'):
                    t.insert_index(data)
                elif kind == 'delete':
                    t.delete_index(data)
                else:
                    t.insert_quantities2(value_column='quantity' if kind == 'quant' else 'value', data=data, allow_invalid_label=True,
                                         allow_invalid_partition=True, on_existing=['sum', 'replace', 'ignore', 'abort'][w % 4])
            except Exception as e:
                if not simlib._in_toron(e.__traceback__) and not isinstance(e, ValueError):
                    raise
                e.__traceback__ = None
                return e
            finally:
                data = None
            return None
        self.res.nontrivial += 1
        self.res.count('feed.' + kind)
        self.change(self.T, lambda sp, refs: fn(sp, sp is self.sp[self.T]), f, where)
        gc.collect()
        self.res.sig('feed', kind, self.spec_of[src], how, boom, sorted(x['spec']['k'] for x in self.open))


def make(prop):
    return Iters(prop)

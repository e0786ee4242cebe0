"""P14: translating data from one space to another, against a model that
applies the link shares itself."""
import json, math, os, random, sys, threading
import simlib, world, faults
from simlib import L, Violation, bypass
from gen import LINKS, ATTRS, GROUPS
from hist import Store, MODES, run_op, toron
from disagg import DGen, SELS, W, Refuse, choose, spread, reduce_attrs, read_rows, close


class Sources:
    """Source spaces of links, by position."""
    def __init__(self, *spaces):
        self.spaces = list(spaces)


class TGen(DGen):
    """One space of a chain; links come from the previous one."""
    def cover(self, src, full=True):
        """Mapping rows from the records of *src* to ours."""
        r, st = self.r, self.st
        lv = world.level_hex((1,) * len(st['cols']))
        levels = [l for l in self.levels() if l != lv]
        rows, seen = [], set()
        mine, theirs = self.ids(), [i for i in src.st['index'] if i]
        if not mine or not theirs:
            return []

        def add(o, i, h):
            if (o, i, h) not in seen and (o or i):
                seen.add((o, i, h))
                rows.append([o, i, h, r.choice([1.0, 1.0, 2.0, 3.0, 0.5, 7.0, 0.0, 100.0, 1e-6, round(r.uniform(0, 20), 3)])])
        for o in theirs:
            for _ in range(r.choice([1, 1, 2, 3])):
                add(o, r.choice(mine + ([0] if r.random() < 0.1 else [])), r.choice(levels) if levels and r.random() < 0.15 else lv)
        for i in mine:
            if not any(x[1] == i for x in rows):
                add(r.choice(theirs) if r.random() < 0.8 else 0, i, lv)
        r.shuffle(rows)
        if not full:
            rows = rows[:-1] if r.random() < 0.5 else [x for x in rows if x[0] != rows[0][0]]
        return rows

    def links(self, src):
        r, ops = self.r, []
        for j in range(r.choice([1, 1, 2, 3])):
            sel = r.sample(SELS, r.choice([1, 1, 2])) if j and r.random() < 0.85 or r.random() < 0.2 else None
            if r.random() < 0.1:
                sel = ['[weight="w1"]']
            opts = {'selectors': sel} if sel else {}
            if r.random() < 0.15:
                opts['is_default'] = r.choice([True, False])
            ops.append(self.apply(['addlink', 0, LINKS[j], opts]))
            rows = self.cover(src, full=r.random() < 0.93)
            if rows and r.random() < 0.97:
                ops.append(self.apply(['insm2', 0, LINKS[j], rows]))
        return ops

    def g_insm2(self):
        return None

    def relink(self, src):
        """Drop one link's mappings and make them again."""
        r = self.r
        names = [k[1] for k in self.st['links']]
        if not names:
            return self.links(src)[:1]
        n = r.choice(names)
        out = [self.apply(['droplink', 0, n]), self.apply(['addlink', 0, n, {'is_default': True} if r.random() < 0.7 else {}])]
        rows = self.cover(src)
        if rows:
            out.append(self.apply(['insm2', 0, n, rows]))
        return out

    def change(self, src):
        r = self.r
        x = r.random()
        if x < 0.25 and src is not None:
            return self.relink(src)
        if x < 0.45 and src is not None and self.st['links']:
            n = r.choice(sorted(self.st['links']))[1]
            y = r.random()
            if y < 0.3:
                return [self.apply(['editlink', 0, n, {'is_default': r.choice([True, True, False])}])]
            if y < 0.6:
                return [self.apply(['editlink', 0, n, {'selectors': r.sample(SELS, r.choice([1, 2]))}])]
            o = self.mrows(0, n, 2, 0.9)
            if o:
                return [self.apply([r.choice(['updm', 'delm', 'insm'])] + o)]
        return [self.more()]


class Transl:
    RUNS = dict(quick=1800, thorough=60000)
    LEVEL = 'exploration'
    MEASURE = 'distinct (options, links in use, content) tuples, and interleavings for the concurrent cases'
    RULE = ('Each case builds a chain of two or three spaces with one to three links each (selectors, defaults, stale and incomplete ones, undefined '
            'records), goes on changing them, makes readers and weight iterators, and translates them along the chain, partly under faults (then the '
            'data is read or the translation repeated), partly iterated already, and partly while another user changes the target file under the '
            'seeded scheduler; an evaluation is one translation compared with a model that applies the shares itself; non-trivial = something was '
            'really divided among several records.')
    ASSUMPTIONS = ['Floating point sums are compared with a relative tolerance of 1e-9.',
                   'A reader that has been read to its end and is then translated is not used further.']
    RUN_TIMEOUT = 120

    def __init__(self, prop):
        self.PROP = prop

    # ------------------------------------------------------------ cases
    def generate(self, rng, tier, i):
        n = rng.choice([2, 2, 2, 3])
        gens, setups = [], []
        for j in range(n):
            g = TGen(rng, dict(W), bad=rng.choice([0.0, 0.03]))
            ops = g.prepare(nidx=rng.choice([1, 2, 3, 5, 8]))
            if j:
                ops += g.links(gens[-1])
            gens.append(g)
            setups.append(ops)
        if rng.random() < 0.2:
            for g in gens:
                g.w = {k: 0 for k in g.w}
                g.w.update(updm=1, insm=1, delm=1, editlink=1, insq=1)
            ops = []
            while len(ops) < rng.choice([1, 2, 3, 4]):
                ops += [['op', o] for o in gens[1].change(gens[0]) if o[0] not in ('updidx', 'delidx', 'rencol')]
            return dict(kind='conc', setups=setups[:2], clients=[ops, [['tr', dict(self.opts(rng), cache=True), rng.random() < 0.3] for _ in range(rng.choice([1, 2, 3]))]],
                        sw=rng.choice([20, 60, 150, 300, 500]), stall=rng.choice([0, 0, 3, 15]), plan=None)
        steps = []
        for _ in range(rng.choice([3, 5, 9])):
            x = rng.random()
            if x < 0.3:
                j = rng.randrange(n)
                steps += [['op', j, o] for o in gens[j].change(gens[j - 1] if j else None)]
            elif x < 0.45:
                steps.append(['mk', rng.randrange(n - 1), self.opts(rng)])
            elif x < 0.55:
                steps.append(['w', rng.randrange(n - 1), rng.choice(GROUPS[:2])])
            elif x < 0.6:
                steps.append(['move', rng.randrange(n), rng.choice(MODES)])
            else:
                steps.append(self.tr(rng))
        steps.append(self.tr(rng))
        steps.append(self.tr(rng))
        return dict(kind='seq', setups=setups, steps=steps, modes=[rng.choice(MODES) for _ in range(n)])

    def opts(self, rng):
        keep = rng.choice([['year'], ['kind'], ['year', 'sex']]) if rng.random() < 0.3 else None
        return dict(sel=rng.sample(SELS, 1) if rng.random() < 0.3 else [], cache=rng.random() < 0.5, quant=rng.random() < 0.3, sum=keep)

    def tr(self, rng):
        f = None
        if rng.random() < 0.35:
            f = dict(k=rng.choice(['fs', 'stick', 'short', 'sqlint', 'mem', 'memrun', 'sigsql', 'sigfs']), n=int(2 ** rng.uniform(0, 8)),
                     e=rng.choice([5, 13, 28]), v=rng.choice([1, 5, 30]), r=3)
            if rng.random() < 0.4:
                f['back'] = rng.randrange(5)
        # reader number (or a new one), quantize, fault, rows read before, then
        return ['tr', rng.randrange(3), rng.choice([None, None, True, False]), f,
                rng.choice([0, 0, 0, 1, 2]) if rng.random() < 0.4 else 0, rng.choice(['read', 'retry'])]

    def shrink_paths(self, case):
        out = [('setups', i) for i in range(len(case['setups']))]
        if case['kind'] == 'seq':
            return [('steps',)] + out
        out = [('clients', 0), ('clients', 1)] + out
        if case['plan'] is not None:
            out.append(('plan',))
        return out

    def simplify(self, case):
        if case['kind'] == 'seq':
            for n, m in enumerate(case['modes']):
                if m != 'mem':
                    c = json.loads(json.dumps(case))
                    c['modes'][n] = 'mem'
                    yield c
            for n, s in enumerate(case['steps']):
                if s[0] == 'tr' and s[3]:
                    c = json.loads(json.dumps(case))
                    c['steps'][n][3] = None
                    yield c
        for a, ops in enumerate(case['setups']):
            for b, op in enumerate(ops):
                if op[0] in ('insq', 'insm2') and len(op[2 if op[0] == 'insq' else 3]) > 1:
                    k = 2 if op[0] == 'insq' else 3
                    for x in range(len(op[k])):
                        c = json.loads(json.dumps(case))
                        del c['setups'][a][b][k][x]
                        yield c

    # ------------------------------------------------------------- model
    def candidates(self, src_uid, src_hash, st):
        """(default link key, {key: selectors}, reason for refusing)."""
        mine = {k: l for k, l in st['links'].items() if k[0] == src_uid}
        if not mine:
            return None, {}, 'no link'
        fresh = {k: l for k, l in mine.items() if l['hash'] == src_hash}
        if not fresh:
            return None, {}, 'stale links'
        dflt = [k for k, l in fresh.items() if l['default']]
        if not dflt:
            return None, {}, 'no default among the current links'
        if not fresh[dflt[0]]['complete']:
            return None, {}, 'default link incomplete'
        return dflt[0], {k: l['sel'] for k, l in fresh.items() if l['complete'] and l['sel']}, None

    def expect(self, base, src_uid, src_hash, st, keep_undefined=True):
        """{(id, attrs): [contributions]} after translating *base*; raises Refuse."""
        dflt, sels, why = self.candidates(src_uid, src_hash, st)
        if why:
            raise Refuse(why)
        out, split = {}, 0
        tables = {}
        for (i, key), vals in base.items():
            if i == 0:
                if keep_undefined:
                    out.setdefault((0, key), []).extend((v, True) for v in vals)
                continue
            lk = choose(json.loads(key), sels, dflt)
            if lk not in tables:
                t = tables[lk] = {}
                for (o, x, lv), p in world.shares(st['links'][lk]['m']).items():
                    t.setdefault(o, []).append((x, p))
            rows = tables[lk].get(i)
            if not rows:
                raise Refuse('no mapping for a record')
            split += len(rows) > 1
            for v in vals:
                for x, p in rows:
                    out.setdefault((x, key), []).append((v * p, False))
        return out, split

    def compare(self, base, exp, got, quant, where, vague=()):
        """*got*: {(id, attrs): value}."""
        keys = sorted({k[1] for k in base} | {k[1] for k in got})
        for key in keys:
            a = math.fsum(v for k, vs in base.items() if k[1] == key for v in vs)
            b = math.fsum(v for k, v in got.items() if k[1] == key)
            if not close(a, b):
                raise Violation('total-not-conserved', f'{where}: {key}: before {a!r}, after {b!r}')
        for k in sorted(set(exp) | set(got), key=repr):
            cs = exp.get(k, [])
            e, g = math.fsum(c for c, _ in cs), got.get(k, 0.0)
            if not quant:
                if not close(e, g):
                    raise Violation('wrong-share', f'{where}: record {k[0]} {k[1]}: expected {e!r}, got {g!r}')
                continue
            if k[1] in vague:
                continue
            if not cs and g:
                raise Violation('outside-links', f'{where}: record {k[0]} {k[1]}: got {g!r}')
            slack = sum(1 for c, whole in cs if not whole and abs(c - round(c)) > 1e-9)
            if abs(g - e) > slack + 1e-6 * max(1.0, abs(e)):
                raise Violation('quantised-too-far', f'{where}: record {k[0]} {k[1]}: share {e!r}, got {g!r}')
        if quant:
            for key in set(keys) - set(vague):
                frac = sum(1 for k, vs in base.items() if k[1] == key for v in vs if v != int(v))
                odd = [k for k, v in got.items() if k[1] == key and v != int(v)]
                if len(odd) > frac:
                    raise Violation('not-whole', f'{where}: {key}: {odd}')

    def byid(self, rows, st):
        ids = {l: i for i, l in st['index'].items()}
        return {(ids[lab], key): v for (lab, key), v in rows.items()}

    # --------------------------------------------------------------- runs
    def make(self, spaces, states, j, o):
        """A reader of space j, with its rows by id as lists of parts."""
        s, st = spaces[j], states[j]
        kw = dict(cache_to_drive=o['cache'], quantize=o['quant'], sum_by_attrs=o['sum'])
        twin = s(*o['sel'], **kw)
        try:
            rows = self.byid(read_rows(twin, len(twin.index_columns)), st)
        finally:
            twin.close()
        # how many parts each row consists of matters when quantising
        parts = {}
        for i, key, v, exact, n in spread(st, o['sel']):
            parts.setdefault((i, reduce_attrs(key, o['sum'], st['domain'])), []).append(v)
        base, vague = {}, set()
        for k, v in rows.items():
            if o['quant'] and len(parts.get(k, [v])) > 1:
                vague.add(k[1])        # the parts of the row are not known
            ps = parts.get(k, [v])
            base[k] = ps if not o['quant'] and close(math.fsum(ps), v) else [v] if len(ps) == 1 else [v / len(ps)] * len(ps)
        return dict(r=s(*o['sel'], **kw), at=j, base=base, uid=st['uid'], o=o, dead=False, read=None, quant=o['quant'], rows=rows, vague=vague)

    def run(self, case, res):
        if case['kind'] == 'conc':
            return self.run_conc(case, res)
        n = len(case['setups'])
        stores, srcs = [], []
        for j in range(n):
            stores.append(Store(case['modes'][j], res.dir, f's{j}'))
            srcs.append(Sources(stores[j - 1].space if j else stores[0].space))
            for op in case['setups'][j]:
                run_op(stores[j].space, op, srcs[j])
        readers = []
        state = lambda: [s.state() for s in stores]
        for num, step in enumerate(case['steps']):
            where = f'step {num} {json.dumps(step)[:260]} ({[s.mode for s in stores]})'
            if step[0] == 'op':
                srcs[step[1]].spaces[0] = stores[max(step[1] - 1, 0)].space
                run_op(stores[step[1]].space, step[2], srcs[step[1]])
                continue
            if step[0] == 'move':
                stores[step[1]].move(step[2])
                for r in readers:           # a reader goes with the object it came from
                    if r['at'] == step[1]:
                        r['dead'] = True
                continue
            if step[0] == 'mk':
                st = state()
                try:
                    readers.append(self.make([s.space for s in stores], st, step[1], step[2]))
                except (RuntimeError, Refuse):
                    res.count('probe.no_reader')
                continue
            if step[0] == 'w':
                self.weights(stores, step, res, where)
                continue
            self.translate(stores, readers, step, res, where, random.Random(case['seed'] + num))
        for r in readers:
            r['r'].close()
        res.sample = dict(steps=case['steps'][:8], modes=case['modes'])

    def weights(self, stores, step, res, where):
        """A weight iterator translated on the fly."""
        j, g = step[1], step[2]
        a, b = stores[j], stores[j + 1]
        sa, sb = a.state(), b.state()
        res.evals += 1
        try:
            it = a.space.select_weights(g) >> b.space
            cols = it.columns
            rows = [tuple(x) for x in it]
            err = None
        except Exception as e:
            e.__traceback__ = None
            rows, err = [], e
        for s, pre in ((a, sa), (b, sb)):
            if world.digest(s.state()) != world.digest(pre):
                raise Violation('space-changed', where)
        base = {(i, json.dumps({'weight': g})): [v] for i, v in sa['wg'].get(g, {'w': {}})['w'].items()}
        try:
            exp, split = self.expect(base, sa['uid'], sa['hash'], sb, keep_undefined=False)
        except Refuse as e:
            if err is None and base:
                raise Violation('not-refused', f'{where}: {e}: {len(rows)} rows')
            res.count('probe.refused')
            return
        if err is not None:
            raise Violation('refused', f'{where}: {type(err).__name__}: {err}')
        n = len(sb['cols'])
        got = {}
        ids = {l: i for i, l in sb['index'].items()}
        wpos = cols.index('weight')
        for r in rows:
            k = (ids[r[:n]], json.dumps({'weight': r[wpos]}))
            got[k] = got.get(k, 0.0) + r[-1]
        self.compare(base, exp, got, False, where)
        res.nontrivial += bool(split)
        res.count('probe.weights_translated')

    def translate(self, stores, readers, step, res, where, rng):
        _, which, quant, f, part, after = step
        live = [r for r in readers if not r['dead'] and r['at'] + 1 < len(stores)]
        st = [s.state() for s in stores]
        if not live or which >= len(live):
            j = rng.randrange(len(stores) - 1)
            o = dict(sel=[], cache=rng.random() < 0.5, quant=rng.random() < 0.3, sum=None)
            try:
                rd = self.make([s.space for s in stores], st, j, o)
            except (RuntimeError, Refuse):
                res.count('probe.no_reader')
                return
            readers.append(rd)
        else:
            rd = live[which]
        j = rd['at']
        target = stores[j + 1]
        res.evals += 1
        q = rd['quant'] if quant is None else quant
        why = exp = None
        try:
            exp, split = self.expect(rd['base'], st[j]['uid'], st[j]['hash'], st[j + 1])
        except Refuse as e:
            why = str(e)
        reader = rd['r']
        n0 = len(reader.index_columns)
        seen, rd['got'] = [], None
        for _ in range(part):
            try:
                seen.append(tuple(next(reader)))
            except (StopIteration, KeyError):
                break

        def go():
            if quant is None and rng.random() < 0.5:
                reader >> target.space
            else:
                reader.translate(target.space, quantize=quant)

        def unchanged():
            for k, s in enumerate(stores):
                now = s.state()
                if world.digest(now) != world.digest(st[k]):
                    raise Violation('space-changed', f'{where}: space {k}: {world.diff(st[k], now)}')

        def rows():
            return read_rows(reader, len(reader.index_columns))

        def asbefore(what):
            """The untranslated rows are all there."""
            rd['dead'] = rd['dead'] or bool(part)
            if world.digest(st[j]['index']) != world.digest(stores[j].state()['index']) or set(rd['rows']) - {(i, k) for i in st[j]['index'] for _, k in rd['rows']}:
                return
            lab = st[j]['index']
            want = sorted(((lab[i], k), v) for (i, k), v in rd['rows'].items())
            if rd['read'] is not None:
                return
            if part:
                head = reader.columns[n0:-1]
                first = [((r[:n0], json.dumps({k: v for k, v in zip(head, r[n0:-1]) if v is not None}, sort_keys=True)), r[-1]) for r in seen]
            else:
                first = []
            rd['got'] = rows()
            got = sorted(first + list(rd['got'].items()))
            rd['dead'] = True
            if [k for k, v in got] != [k for k, v in want] or any(not close(a[1], b[1]) for a, b in zip(got, want)):
                raise Violation('data-changed-by-failure', f'{where}: {what}: before {want[:8]}, after {got[:8]}')
            res.count('probe.data_intact_after_failure')

        if f:
            err, fired = faults.attempt(go, f, res.dir)
            if fired:
                res.count('fault.' + f['k'])
            unchanged()
            done = err is None
            err = None
            if not done and fired and f['k'].startswith('sig'):
                # an interrupt can arrive just after the work was done
                rd['dead'] = True
                if part:
                    return
                try:
                    asbefore('an interrupted translation')
                except Violation as v:
                    if why or rd['got'] is None:
                        raise
                    try:
                        self.compare(rd['base'], exp, self.byid(rd['got'], st[j + 1]), q, where, rd['vague'])
                    except (Violation, KeyError):
                        raise v
                    res.count('probe.interrupted_after_completion')
                return
        else:
            done = False
        if not done and (not f or after == 'retry'):
            try:
                go()
                done = True
            except Exception as e:
                e.__traceback__ = None
                unchanged()
                if why is None and not part:
                    raise Violation('refused', f'{where}: {type(e).__name__}: {e}')
                res.count('probe.refused' if why else 'probe.refused_while_iterated')
                asbefore(f'{type(e).__name__}: {e}')
                return
        if not done:
            asbefore('a failed translation')
            return
        if why and any(i for i, k in rd['base']):
            raise Violation('not-refused', f'{where}: {why}')
        unchanged()
        if why:
            rd['dead'] = True
            return
        if part:
            rd['dead'] = True              # nothing is said about these rows
            return
        if list(reader.index_columns) != list(target.space.index_columns):
            raise Violation('wrong-columns', where)
        # read through a second translation when the chain goes on
        if rng.random() < 0.3 and j + 2 < len(stores) and not q:
            rd['at'] = j + 1
            rd['base'] = {k: [c for c, _ in v] for k, v in exp.items()}
            rd['rows'] = {k: math.fsum(v) for k, v in rd['base'].items()}
            res.nontrivial += bool(split)
            rd['read'] = 'moved on'
            return
        got = self.byid(rows(), st[j + 1])
        self.compare(rd['base'], exp, got, q, where, rd['vague'])
        rd['dead'] = True
        res.nontrivial += bool(split)
        if split:
            res.count('probe.divided_rows', split)
        res.sig(rd['o'], q, world.digest(st[j + 1]['links']))

    # ------------------------------------------------- with another user
    def run_conc(self, case, res):
        d, t = res.dir, toron()
        with bypass():
            a, b = t.DataSpace(), t.DataSpace()
            for s, ops in zip((a, b), case['setups']):
                for op in ops:
                    run_op(s, op, Sources(a))
            path = os.path.join(d, 'work', 'target.toron')
            b.to_file(path, fsync=False)
            del b
            copy_ = os.path.join(d, 'aux', 'copy.toron')
            with open(path, 'rb') as f, open(copy_, 'wb') as g:
                g.write(f.read())
            # threads share nothing that lives in memory
            apath = os.path.join(d, 'work', 'source.toron')
            a.to_file(apath, fsync=False)
            a = t.bind_file(apath, mode='ro')
            sa = world.read_state(apath)
        spaces = [t.bind_file(path, mode='rw'), t.bind_file(path, mode='ro' if case['seed'] % 3 == 0 else 'rw')]
        events, recs, errors = [0], [], []
        readers = []
        for step in case['clients'][1]:
            try:
                readers.append(self.make([a], [sa], 0, step[1]))
            except (RuntimeError, Refuse):
                readers.append(None)

        def client(tid):
            L.sim_thread_enter(tid)
            try:
                for k, step in enumerate(case['clients'][tid]):
                    rec = dict(t=tid, k=k, step=step, err=None)
                    if tid and readers[k] is None:
                        continue
                    recs.append(rec)
                    L.sim_point()
                    rec['inv'] = events[0] = events[0] + 1
                    try:
                        if tid == 0:
                            world.execute(spaces[0], step[1], [a])
                        else:
                            readers[k]['r'].translate(spaces[1], quantize=step[2])
                    except Exception as e:
                        rec['err'] = e
                        e.__traceback__ = None
                    rec['ret'] = events[0] = events[0] + 1
            except BaseException as e:
                errors.append(repr(e))
            finally:
                L.sim_thread_exit()
        sys.setswitchinterval(100)
        L.sim_sched_seed(case['seed'] & 0xffffffffffff, case['stall'])
        L.sim_sched_plan_clear()
        for x, tid in case['plan'] or []:
            L.sim_sched_plan_add(x, tid)
        L.sim_sched_start(2, case['sw'], case['plan'] is not None, 3000000)
        th = []
        for i in range(2):
            x = threading.Thread(target=client, args=(i,), daemon=True)
            x.start()
            th.append(x)
        for x in th:
            x.join()
        L.sim_log_stop()
        plan = [[L.sim_sched_switch_step(i), L.sim_sched_switch_tid(i)] for i in range(L.sim_sched_nswitch())]
        pin = None if case['plan'] is not None else dict(plan=plan)
        if errors:
            raise RuntimeError(errors[0])
        res.count('probe.context_switches', len(plan))
        x = L.sim_sched_stalls()
        if x:
            res.count('fault.stalled_client', x)
        try:
            self.judge(case, res, a, sa, recs, readers, copy_)
        except Violation as v:
            v.pin = v.pin or pin
            raise
        res.sig('sched', plan, [(r['t'], r['k'], bool(r['err'])) for r in recs])
        res.sample = dict(clients=case['clients'], switches=len(plan))

    def judge(self, case, res, a, sa, recs, readers, copy_):
        done = [r for r in recs if r['t'] == 0 and r['err'] is None]
        with bypass():
            s = toron().bind_file(copy_, mode='rw')
            states = [world.read_state(copy_)]
            for r in done:
                run_op(s, r['step'][1], Sources(a))
                states.append(world.read_state(copy_))
        for r in recs:
            if r['t'] == 0:
                continue
            rd = readers[r['k']]
            lo = sum(1 for w in done if w['ret'] < r['inv'])
            hi = sum(1 for w in done if w['inv'] < r['ret'])
            where = f'translation {r["k"]} while another user ran {[w["step"][1][0] for w in done[lo:hi]]}'
            res.evals += 1
            rows = read_rows(rd['r'], len(rd['r'].index_columns))
            rd['r'].close()
            if r['err'] is not None:
                want = {(sa['index'][i], k): v for (i, k), v in rd['rows'].items()}
                if set(want) != set(rows) or any(not close(want[k], rows[k]) for k in want):
                    raise Violation('data-changed-by-failure', f'{where}: {r["err"]}')
                if 'locked' in str(r['err']):
                    res.count('probe.busy')
                    continue
            v = None
            for st in states[lo:hi + 1]:
                try:
                    try:
                        exp, split = self.expect(rd['base'], sa['uid'], sa['hash'], st)
                    except Refuse as e:
                        if r['err'] is None and any(i for i, k in rd['base']):
                            raise Violation('not-refused', f'{where}: {e}')
                        v = None
                        break
                    if r['err'] is not None:
                        raise Violation('refused', f'{where}: {type(r["err"]).__name__}: {r["err"]}')
                    self.compare(rd['base'], exp, self.byid(rows, st), r['step'][2], where, rd['vague'])
                    res.nontrivial += bool(split)
                    v = None
                    break
                except Violation as e:
                    v = v or e
            if v is not None:
                raise Violation('mixed-states' if hi > lo else v.cls, f'{where}: explained by none of the {hi - lo + 1} states it overlaps: {v}')
            if hi > lo:
                res.count('probe.overlapping_translations')


def make(prop, **kw):
    return Transl(prop)

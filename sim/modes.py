"""P03: the same history in every storage mode, in lockstep, with moves
between modes through saved files and faults on some of the copies."""
import json, os, random
import simlib, world, faults
from simlib import L, Violation, bypass
from gen import Gen
from hist import Store, Refs, run_op, public_reads, toron, MODES, Boom

NAMES = ['space', 'a b', 'ü-é', '100%', 'what?', 'x#1', "o'b", 'semi;colon', 'per%41cent', '+plus&amp', 'dot.toron.x', '-dash', 'q"t', ' lead']
WHAT = ['cols', 'index', 'parts', 'wg', 'links', 'q', 'unm']


class Named(Store):
    def __init__(self, mode, d, name, rel):
        self.rel = rel
        super().__init__(mode, d, name)


def disagg_rows(space):
    """Rows at record level, or the kind of refusal."""
    try:
        r = space()
        try:
            return sorted((tuple(x) for x in r), key=repr)
        finally:
            r.close()
    except Exception as e:
        return type(e).__name__


class Modes:
    RUNS = dict(quick=270, thorough=16000)
    LEVEL = 'exploration'
    MEASURE = 'distinct (operation, outcome, set of storage modes, resulting logical state) tuples'
    RULE = ('Each case runs one seeded history of 10-35 operations in lockstep on five copies of a space (memory, cached, bound, read, read and '
            'cached; file names with special characters, relative and absolute) and on a sixth that is saved and reopened in another mode again and '
            'again; on some copies an operation, a save or a reload first fails under an injected fault and is then repeated. An evaluation is one '
            'operation compared across all copies (acceptance, content, ids, public listings); non-trivial = the operation changed something.')
    ASSUMPTIONS = ['A faulted attempt that failed is repeated without the fault before copies are compared.']

    def __init__(self, prop):
        self.PROP = prop

    def generate(self, rng, tier, i):
        g = Gen(rng, bad=rng.choice([0.02, 0.1]))
        ops = g.setup(wgs=rng.choice([1, 2]), links=rng.choice([0, 1, 2]), nidx=rng.choice([2, 4, 6]))
        for _ in range(rng.choice([5, 10, 18])):
            ops.append(g.next())
        steps = []
        for op in ops:
            f = None
            if rng.random() < 0.12:
                f = [sorted(rng.sample(range(6), rng.choice([1, 1, 2, 5]))),
                     dict(k=rng.choice(['fs', 'stick', 'short', 'sqlint', 'mem', 'memrun']), n=int(2 ** rng.uniform(0, 9)),
                          e=rng.choice([5, 28]), v=rng.choice([1, 5, 30]), r=rng.choice([3, 50]))]
                if rng.random() < 0.4:
                    f[1]['back'] = rng.randrange(6)
            mv = rng.choice(MODES) if rng.random() < 0.3 else None
            mf = None
            if mv and rng.random() < 0.3:
                mf = dict(k=rng.choice(['fs', 'stick', 'short', 'sqlint', 'mem']), n=int(2 ** rng.uniform(0, 7)), e=rng.choice([5, 28]), v=5, r=3)
            ro = rng.sample(range(5), rng.choice([1, 2])) if rng.random() < 0.06 else []
            steps.append([op, f, mv, mf, ro])
        return dict(steps=steps, names=[rng.choice(NAMES) for _ in range(6)], rel=rng.random() < 0.3, chdir=rng.random() < 0.3)

    def shrink_paths(self, case):
        return [('steps',)]

    def simplify(self, case):
        for n, s in enumerate(case['steps']):
            for j in (1, 2, 3):
                if s[j]:
                    c = json.loads(json.dumps(case))
                    c['steps'][n][j] = None
                    yield c
            if s[4]:
                c = json.loads(json.dumps(case))
                c['steps'][n][4] = []
                yield c
        for k in ('rel', 'chdir'):
            if case[k]:
                yield dict(case, **{k: False})

    def run(self, case, res):
        refs = Refs()
        self.identities(res)
        stores = []
        d = res.dir
        for j in range(6):
            mode = (MODES + ['mem'])[j]
            base = d
            with bypass():
                os.makedirs(os.path.join(d, f's{j}', 'work'))
                os.makedirs(os.path.join(d, f's{j}', 'aux'))
            base = os.path.join(d, f's{j}')
            if case['rel']:
                base = os.path.relpath(base)
            stores.append(Store(mode, base, case['names'][j]))
            if case['rel'] and case['chdir']:
                # a path is resolved when it is given
                stores[-1].path = os.path.abspath(stores[-1].path)
                stores[-1].d = os.path.abspath(stores[-1].d)
                os.chdir(os.path.join(d, 'aux'))
                stores[-1].space.domain
                os.chdir(d)
        if case['chdir']:
            for s in stores:
                s.path, s.d = os.path.abspath(s.path), os.path.abspath(s.d)
            os.chdir(os.path.join(d, 'aux'))
        uids = [s.space.unique_id for s in stores]
        if len(set(uids)) != len(uids) or None in uids:
            raise Violation('identities-equal', repr(uids))
        model = world.Model(refs.uids)
        pre = None
        for n, (op, f, mv, mf, ro) in enumerate(case['steps']):
            where = f'step {n} {json.dumps(op)[:400]}'
            out = []
            for j, s in enumerate(stores):
                if f and j in f[0]:
                    e, fired = faults.attempt(lambda: world.execute(s.space, op, refs.spaces), f[1], d)
                    if fired:
                        res.count('fault.' + f[1]['k'])
                    if e is not None:
                        e = run_op(s.space, op, refs)
                        res.count('probe.repeated_after_fault')
                else:
                    e = run_op(s.space, op, refs)
                out.append(None if e is None else f'{type(e).__name__}: {e}')
                e = None
            if len({x is None for x in out}) > 1:
                raise Violation('modes-accept-differently', f'{where}: ' + self.names(stores, out))
            if mv:
                self.move(stores[5], mv, mf, where, res)
            for j in ro:
                stores[j].reopen()
                res.count('probe.reopened_' + stores[j].mode)
            states = [s.state() for s in stores]
            for s, st, u in zip(stores, states, uids):
                if st['uid'] != u or s.space.unique_id != u:
                    raise Violation('identity-changed', f'{where} in mode {s.mode}: {u} became {st["uid"]} / {s.space.unique_id}')
            canon = [self.canon(st) for st in states]
            for j in range(1, 6):
                dd = world.diff(canon[0], canon[j])
                if dd:
                    raise Violation('modes-differ', f'{where}: {stores[0].mode} against {stores[j].mode} (copy {j}): ' + '; '.join(dd))
            res.evals += 1
            dg = world.digest(canon[0])
            if dg != pre:
                res.nontrivial += 1
            pre = dg
            res.count(f'op.{op[0]}.{"ok" if out[0] is None else "err"}')
            res.sig(op[0], out[0] is None, stores[5].mode, dg)
            last = n == len(case['steps']) - 1
            if last or (case['seed'] + n) % 3 == 0:
                self.reads(stores, states, model, refs, case['seed'] + n, where)
            if last:
                rows = [disagg_rows(s.space) for s in stores]
                for j in range(1, 6):
                    dd = world.diff(rows[0], rows[j])
                    if dd:
                        raise Violation('modes-disaggregate-differently', f'{where}: {stores[0].mode} against {stores[j].mode}: ' + '; '.join(dd))
                res.count('probe.disaggregated' if not isinstance(rows[0], str) else 'probe.disaggregation_refused')
        res.sample = dict(steps=len(case['steps']), names=case['names'], moves=[s[2] for s in case['steps'] if s[2]])

    def names(self, stores, out):
        return '; '.join(f'{s.mode}: {o or "accepted"}' for s, o in zip(stores, out))[:900]

    def canon(self, st):
        st = dict(st)
        st.pop('uid')
        st['props'] = {k: v for k, v in st['props'].items() if 'creat' not in k and 'date' not in k}
        return st

    def move(self, s, mode, f, where, res):
        """Save and reopen in *mode*; the save and the reload may first fail."""
        t = toron()
        s.n = getattr(s, 'n', 0) + 1
        path = os.path.join(s.d, 'work', f'moved {s.n % 3}.toron')
        if s.bound and s.path == path:
            path = os.path.join(s.d, 'work', 'other.toron')
        if f:
            e, fired = faults.attempt(lambda: s.space.to_file(path), f)
            if fired:
                res.count('fault.save_' + f['k'])
            e = None
        s.space.to_file(path)
        old = s.space

        def open_():
            if mode == 'bind':
                return t.bind_file(path, mode='rw')
            return t.read_file(path, cache_to_drive=mode in ('cache', 'readcache'))
        if f:
            e, fired = faults.attempt(open_, f)
            if fired:
                res.count('fault.reload_' + f['k'])
            e = None
        s.space = open_()
        s.mode, s.path = mode, path
        del old
        res.count('probe.moved_to_' + mode)

    def reads(self, stores, states, model, refs, seed, where):
        got = []
        for s, st in zip(stores, states):
            try:
                got.append([(nm, g) for nm, w, g in public_reads(s.space, st, WHAT, refs.uids, model, random.Random(seed))])
            except Exception as e:
                if not simlib._in_toron(e.__traceback__):
                    raise
                raise Violation('read-fails', f'{where} in mode {s.mode}: {type(e).__name__}: {e}')
        for j in range(1, 6):
            dd = world.diff(got[0], got[j])
            if dd:
                raise Violation('modes-read-differently', f'{where}: {stores[0].mode} against {stores[j].mode}: ' + '; '.join(dd))

    def identities(self, res):
        """New spaces differ from each other even if the clock stands still or
        jumps back, the user seeds the random module, or the process forks."""
        from toron.space import DataSpace
        seen = []
        for k in range(3):
            random.seed(5)
            seen.append(DataSpace(cache_to_drive=k == 1).unique_id)
            L.sim_clock_jump(-3600 * 10**9 if k else 0)
        L.sim_clock_jump(2 * 3600 * 10**9)

        def child(seed):
            def go():
                L.sim_seed(seed)       # the operating system gives each process its own entropy
                return DataSpace().unique_id
            return go
        for k in (1, 2):
            seen.append(simlib.forked(child(k)))
        if len(set(seen)) != len(seen):
            raise Violation('identities-equal', repr(seen))


def make(prop, **kw):
    return Modes(prop)

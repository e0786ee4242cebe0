"""P04: every modifying operation is all-or-nothing when it fails."""
import copy, json, os, random
import simlib, world, faults
from simlib import L, Violation, bypass
from gen import Gen
from hist import Store, Refs, run_op, MODES

KINDS = ('fs', 'stick', 'short', 'sqlint', 'mem', 'memrun', 'sigsql', 'sigfs')
# operations that write many rows or many tables are drawn more often
TARGETS = dict(insidx=12, updidx=10, delidx=6, delidxc=5, insw=6, updw=4, delw=4, delwc=3, insm2=7, insm=4,
               updm=6, delm=5, delmc=4, reify=5, insq=10, delunm=5, delnoidx=5, addcols=5, rencol=4, rencols=4,
               chlabel=1, setattrs=1, chattr=1, dom=1, addpart=4, addparts=5, dropparts=5, addwg=3, editwg=2, dropwg=4,
               setdefwg=1, addlink=3, editlink=3, droplink=4, insq1=4, dropcols=3)


class Boom(Exception):
    injected = True


EXCS = {'ValueError': ValueError, 'Boom': Boom, 'KeyboardInterrupt': KeyboardInterrupt, 'OSError': OSError,
        'MemoryError': MemoryError, 'RuntimeError': RuntimeError}


def raising(n, exc):
    def hook(rows):
        def it():
            for i, r in enumerate(rows):
                if i == n:
                    raise EXCS[exc]('injected')
                yield r
            if n >= len(rows):
                raise EXCS[exc]('injected')
        return it()
    return hook


BADROWS = ['short', 'empty', 'none', 'object', 'huge', 'blob', 'nested', 'int']


def bad_row(row, kind):
    row = list(row)
    if kind == 'short':
        return tuple(row[:1])
    if kind == 'empty':
        return ()
    if kind == 'none':
        return tuple(None for _ in row)
    if kind == 'object':
        return tuple(object() for _ in row)
    if kind == 'huge':
        return tuple(10 ** 30 for _ in row)
    if kind == 'blob':
        return tuple(b'\xff\x00' for _ in row)
    if kind == 'nested':
        return tuple([x] for x in row)
    return 5


def with_bad_row(j, kind):
    def hook(rows):
        rows = list(rows)
        rows.insert(j, bad_row(rows[min(j, len(rows) - 1)] if rows else (1,), kind))
        return rows
    return hook


class Atomic:
    RUNS = dict(quick=240, thorough=16000)
    RULE = ('Each case is a generated space in one storage mode and one target operation; an evaluation is the target '
            'run once from a snapshot of that state under one injected fault (file-system error, sticky full disk, short '
            'write, statement interrupt, failing allocations, SIGINT, raising input iterator, malformed row), then repeated '
            'without it; non-trivial = the fault fired inside the operation.')
    MEASURE = 'distinct (operation, fault kind and position, outcome, state digest) tuples'
    ASSUMPTIONS = ['An interrupt (SIGINT) delivered in the last instructions of an operation may leave its complete effect although '
                   'the caller sees KeyboardInterrupt; a partial effect is never accepted.']

    def __init__(self, prop):
        self.PROP = prop

    def generate(self, rng, tier, i):
        names = list(TARGETS)
        g = Gen(rng, bad=0.02)
        ops = g.setup(wgs=rng.choice([1, 2]), links=rng.choice([1, 2]), nidx=rng.choice([3, 5, 8]))
        for _ in range(rng.choice([0, 2, 5])):
            ops.append(g.next())
        for _ in range(rng.choice([1, 2])):
            o = g.g_insq()
            if o:
                ops.append(g.apply(['insq'] + o))
        target = None
        for _ in range(50):
            name = rng.choices(names, [TARGETS[n] for n in names])[0]
            o = getattr(g, 'g_' + name)()
            if o is None:
                continue
            op = [name] + o
            if name in world.HASITER and rng.random() < 0.5:
                # more rows: later points inside the operation
                o2 = getattr(g, 'g_' + name)()
                pos = next(k for k, x in enumerate(op) if isinstance(x, list) and x and isinstance(x[0], list))
                if o2 and ([name] + o2)[:pos] == op[:pos]:
                    op[pos] = op[pos] + ([name] + o2)[pos]
            target = op
            break
        target = target or ['dom', 'zzz']
        sweep = rng.choice(['', '', '', 'sqlint', 'mem', 'sigsql', 'fs', 'sigfs'])
        return dict(mode=MODES[i % len(MODES)], ops=ops, target=target, k=24 if tier == 'quick' else 60, sweep=sweep)

    def shrink_paths(self, case):
        return [('ops',)]

    def simplify(self, case):
        t = case['target']
        for k, x in enumerate(t):
            if isinstance(x, list) and len(x) > 1 and isinstance(x[0], list):
                for j in range(len(x)):
                    c = json.loads(json.dumps(case))
                    del c['target'][k][j]
                    yield c

    def run(self, case, res):
        refs = Refs()
        st = Store(case['mode'], res.dir)
        for op in case['ops']:
            run_op(st.space, op, refs)
        target = case['target']
        rng = random.Random(case['seed'])
        pre = st.state()
        files0 = simlib.snapshot_dir(res.dir)
        restore = lambda: simlib.restore_dir(res.dir, files0)

        def plain(hook=None):
            world.execute(st.space, target, refs.spaces, hook)

        def base():
            e = run_op(st.space, target, refs)
            return (type(e).__name__ if e else None, str(e)[:200]), st.state()
        (err0, msg0), post0 = simlib.forked(base)
        restore()
        if err0:
            d = world.diff(pre, post0)
            if d:
                raise Violation('rejected-but-changed', f'{json.dumps(target)} raised {err0} {msg0} in mode {case["mode"]}: ' + '; '.join(d))
        res.count(f'target.{target[0]}.{"rejected" if err0 else "ok"}')
        counts = faults.measure(plain)
        restore()
        if 'pin' in case:
            plan = case['pin']
        else:
            plan = faults.make_plan(rng, counts, case['k'], KINDS)
            if case['sweep']:
                kw = {'e': 5} if case['sweep'] == 'fs' else {'v': 1} if case['sweep'] == 'sqlint' else {}
                s = faults.sweep(counts, case['sweep'], **kw)
                if len(s) > 150:
                    s = [s[j] for j in sorted(rng.sample(range(len(s)), 150))]
                plan += s
            if target[0] in world.HASITER:
                rows = next((x for x in target if isinstance(x, list) and x and isinstance(x[0], list)), [])
                for j in range(len(rows) + 1):
                    plan.append(dict(k='iter', n=j, x=rng.choice(sorted(EXCS))))
                    plan.append(dict(k='badrow', n=j, x=rng.choice(BADROWS)))
        same = lambda a, b: not world.diff(a, b)
        for f in plan:
            def sub():
                if f['k'] == 'iter':
                    err, fired = None, True
                    try:
                        plain(raising(f['n'], f['x']))
                    except BaseException as e:
                        err = e
                elif f['k'] == 'badrow':
                    err, fired = None, True
                    try:
                        plain(with_bad_row(f['n'], f['x']))
                    except BaseException as e:
                        err = e
                else:
                    err, fired = faults.attempt(plain, f)
                en = type(err).__name__ if err is not None else None
                pin = dict(pin=[f])
                where = f'{json.dumps(target)} in mode {case["mode"]} under {f} ({en or "returned"}{": " + str(err)[:120] if err else ""})'
                # frames of the failed call may keep its iterators alive
                err = None
                with bypass():
                    try:
                        got = st.state()
                    except Exception as e:
                        raise Violation('unusable-after-failure', f'{where}: reading the space: {type(e).__name__}: {e}', pin)
                unchanged, complete = same(pre, got), same(post0, got)
                if f['k'] == 'badrow':
                    if en is None:
                        return en, fired, 'accepted'
                    complete = False
                if en is None:
                    if f['k'] == 'iter':
                        if not err0 and (f['n'] <= 0 or not complete):
                            raise Violation('iterator-error-swallowed', where, pin)
                    elif err0 or not complete:
                        raise Violation('success-without-complete-effect', f'{where}: ' + '; '.join(world.diff(post0, got)) +
                                        (f' (fault-free: {err0} {msg0})' if err0 else ''), pin)
                    return en, fired, 'complete'
                if not unchanged and not (complete and (en == 'KeyboardInterrupt' and f['k'] in ('sigsql', 'sigfs'))):
                    raise Violation('partial-effect', f'{where}: ' + '; '.join(world.diff(pre, got)), pin)
                if unchanged:
                    # the same call again, without the fault
                    e2 = run_op(st.space, target, refs)
                    n2 = type(e2).__name__ if e2 else None
                    with bypass():
                        got2 = st.state()
                    if n2 != err0 or not same(post0, got2):
                        raise Violation('retry-differs', f'{where}; repeated: {n2} {e2}, fault-free {err0} {msg0}: ' +
                                        '; '.join(world.diff(post0, got2)), pin)
                return en, fired, 'unchanged' if unchanged else 'complete'
            en, fired, out = simlib.forked(sub)
            restore()
            res.evals += 1
            if fired:
                res.nontrivial += 1
                res.count(f'fault.{f["k"]}')
                res.sig(target[0], f, en, out, world.digest(pre))
            res.count(f'outcome.{out}.{"error" if en else "ok"}')
        res.sample = dict(mode=case['mode'], target=target, points=counts, faults=plan[:3])


def make(prop, **kw):
    return Atomic(prop)

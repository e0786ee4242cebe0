"""P01 / P02: saving to a file under crashes, power loss and faults."""
import copy, json, os, random
import simlib, world, faults
from simlib import L, Violation, bypass
from gen import Gen
from hist import Store, Refs, run_op, MODES
from modes import NAMES


class Saves:
    MEASURE = ('distinct (fault or cut position, observed destination outcome, content digest) tuples')
    SAVE_MODES = MODES + ['self']

    def __init__(self, prop):
        self.PROP = prop
        self.RUNS = dict(quick=1200, thorough=6000) if prop == 'P01' else dict(quick=240, thorough=6000)
        self.LEVEL = 'fault_enumeration' if prop == 'P01' else 'exploration'
        self.ASSUMPTIONS = [
            'Power loss: file data not fsynced may be lost, kept or torn per 512-byte sector in any combination; '
            'directory entries changed since the last directory fsync survive as an ordered prefix of the changes.',
            'The destination directory stays writable for clean-up (unlink itself is not made to fail).']
        self.RULE = (
            'Each case is a generated space (random columns, partitions, weights, links, quantities) in one storage mode, '
            'an old destination (absent, another space, other bytes, or its own bound file) and 1-3 saves; '
            + ('every operation boundary of every save is a kill point, and several power-loss states are drawn per point; '
               'an evaluation is one reconstructed disk state that differs from those already judged; non-trivial = '
               'the cut lies strictly inside a save.' if prop == 'P01' else
               'an evaluation is one save under one injected fault; non-trivial = the fault fired.'))

    def generate(self, rng, tier, i):
        g = Gen(rng, bad=0.0)
        ops = g.setup(wgs=rng.choice([0, 1, 2]), links=rng.choice([0, 1]))
        ops += [g.next() for _ in range(rng.choice([0, 3, 8]))]
        extra = [[g.next() for _ in range(rng.choice([1, 2]))] for _ in range(rng.choice([0, 1, 2]))]
        return dict(mode=self.SAVE_MODES[i % len(self.SAVE_MODES)], ops=ops, extra=extra if self.PROP == 'P01' else [],
                    old=rng.choice(['none', 'space', 'space', 'bytes', 'empty']), big=rng.choice([0, 0, 40]),
                    fsync=(rng.random() < 0.75) if self.PROP == 'P02' else rng.random() < 0.8,
                    form=rng.choice(['str', 'path', 'bytes', 'rel']), name=rng.choice(['dst'] + NAMES[1:]), k=24 if tier == 'quick' else 60,
                    sweep=rng.choice(['', '', 'fs', 'sigsql', 'sigfs', 'stick']))

    def shrink_paths(self, case):
        return [('extra',), ('ops',)]

    def build(self, case, res):
        refs = Refs()
        mode = 'bind' if case['mode'] == 'self' else case['mode']
        st = Store(mode, res.dir)
        for op in case['ops']:
            run_op(st.space, op, refs)
        if case['big'] and st.space.index_columns:
            cols = st.space.index_columns
            st.space.insert_index([tuple(f'big{i}-{c}-' + 'p' * 60 for c in cols) for i in range(case['big'])], cols)
        dst = st.path if case['mode'] == 'self' else os.path.join(res.dir, 'work', case['name'] + rng_ext(case))
        if case['mode'] != 'self':
            with bypass():
                if case['old'] == 'space':
                    from toron.space import DataSpace
                    o = DataSpace()
                    o.add_index_columns('OLD')
                    o.insert_index([(f'r{i}',) for i in range(30)], ['OLD'])
                    o.to_file(dst, fsync=False)
                elif case['old'] == 'bytes':
                    with open(dst, 'wb') as f:
                        f.write(b'some other file\n' * 100)
                elif case['old'] == 'empty':
                    open(dst, 'wb').close()
        f = {'str': lambda p: p, 'path': lambda p: __import__('pathlib').Path(p), 'bytes': os.fsencode,
             'rel': os.path.relpath}[case['form']]
        return refs, st, dst, f(dst)

    # ---------------------------------------------------------------- P01
    def run(self, case, res):
        return self.run_crash(case, res) if self.PROP == 'P01' else self.run_fault(case, res)

    def judge(self, dst, files, allowed, where, cache, res):
        """The destination must hold one of the allowed contents."""
        b = files.get(dst)
        key = (b, tuple(x[0] for x in allowed))
        if key in cache:
            return cache[key]
        got = None
        for name, val in allowed:
            if name == 'old' and b == val:
                got = 'old'
                break
        if got is None and b is not None:
            with bypass():
                p = os.path.join(res.dir, 'aux', 'crash.toron')
                for q in files:
                    if q.startswith(dst) and q != dst:       # e.g. a journal
                        with open(p + q[len(dst):], 'wb') as f:
                            f.write(files[q])
                with open(p, 'wb') as f:
                    f.write(b)
                try:
                    s = world.read_state(p)
                except world.BadFile as e:
                    s = str(e)
                for q in os.listdir(res.dir + '/aux'):
                    os.unlink(os.path.join(res.dir, 'aux', q))
            for name, val in allowed:
                if name != 'old' and s == val:
                    got = name
                    break
        if got is None:
            what = 'missing' if b is None else f'{len(b)} bytes' + ('' if isinstance(s, dict) else f', unreadable: {s}')
            raise Violation('destination-neither-old-nor-new',
                            f'{where}: destination is {what}; allowed {[n for n, _ in allowed]}')
        res.evals += 1
        cache[key] = got
        return got

    def run_crash(self, case, res):
        refs, st, dst, arg = self.build(case, res)
        rng = random.Random(case['seed'])
        initial = simlib.snapshot_dir(res.dir)
        old = initial.get(dst)
        states = []
        L.sim_log_start()
        groups = [None] + list(case['extra'])
        for n, ops in enumerate(groups):
            for op in (ops or []):
                with bypass() if case['mode'] != 'self' else _null():
                    run_op(st.space, op, refs)
            L.sim_mark(2 * n)
            st.space.to_file(arg, fsync=case['fsync'])
            L.sim_mark(2 * n + 1)
            states.append(world.read_state(dst))
            mem = st.state()
            d = world.diff(mem, states[-1])
            if d:
                raise Violation('saved-file-incomplete', '; '.join(d))
        L.sim_log_stop()
        log = simlib.read_log()
        if case['mode'] == 'self' and any(case['extra']):
            # other operations change the same file: only the saves are judged
            pass
        from_marks = lambda marks: marks[-1] if marks else -1
        cache = {}

        def allowed(marks):
            m = from_marks(marks)
            if m < 0:
                return [('old', old)]
            n = m // 2
            out = []
            if m % 2:                         # save n has returned
                out.append((f'save{n}', states[n]))
                if case['mode'] == 'self':
                    return None if n + 1 < len(groups) else out
            else:                             # save n in progress
                out.append((f'save{n}', states[n]))
                if n:
                    out.append((f'save{n - 1}', states[n - 1]))
                else:
                    out.append(('old', old))
                if case['mode'] == 'self' and n:
                    out.append((f'save{n}', states[n]))
            return out
        # killed at every operation boundary
        for i, marks, files in simlib.process_crash_states(initial, log):
            if files is None:
                continue
            a = allowed(marks)
            if a is None:
                continue
            got = self.judge(dst, files, a, f'process killed after operation {i} of {len(log)}', cache, res)
            res.count('fault.process_kill')
            res.count('probe.kill_leaves_' + got[:4])
            inside = bool(marks) and marks[-1] % 2 == 0
            if inside:
                res.nontrivial += 1
                res.sig('kill', i, got, world.digest(states[0]))
        # power loss
        if case['fsync']:
            cuts = list(range(1, len(log) + 1))
            if case.get('pcut') is not None:
                cuts = [case['pcut'][0]]
            last = {}
            for cut in cuts:
                for r in ([case['pcut'][1]] if case.get('pcut') is not None else range(3 if cut < len(log) else 8)):
                    prng = random.Random(f'{case["seed"]}/{cut}/{r}')
                    marks, files, info = simlib.power_crash_state(initial, log, cut, prng)
                    a = allowed(marks)
                    if a is None:
                        continue
                    if case['mode'] == 'self' and marks and marks[-1] % 2 == 0 and marks[-1] > 0:
                        pass
                    try:
                        got = self.judge(dst, files, a, f'power lost after operation {cut} of {len(log)} {info}', cache, res)
                    except Violation as v:
                        if case['mode'] == 'self' and not (marks and marks[-1] == 0):
                            # the bound file itself may be behind by an earlier operation
                            if len(a) > 1:
                                continue
                        v.pin = dict(pcut=[cut, r])
                        v.cls = 'power-loss-' + v.cls
                        raise
                    res.count('fault.power_loss')
                    res.count('fault.power_loss_' + info['writes'])
                    res.count('probe.power_leaves_' + got[:4])
                    res.sig('power', cut, got, info['writes'], world.digest(states[0]))
        res.sample = res.sample or dict(mode=case['mode'], old=case['old'], fsync=case['fsync'], operations_logged=len(log),
                                        saves=len(groups))

    # ---------------------------------------------------------------- P02
    def run_fault(self, case, res):
        refs, st, dst, arg = self.build(case, res)
        rng = random.Random(case['seed'])
        before = st.state()
        files0 = simlib.snapshot_dir(res.dir)
        old = files0.get(dst)
        hint = st.space.path_hint
        save = lambda: st.space.to_file(arg, fsync=case['fsync'])
        with_log = []

        def restore():
            simlib.restore_dir(res.dir, files0)
        counts = faults.measure(save)
        restore()
        if counts['err']:
            raise Violation('plain-save-fails', counts['err'])
        if 'pin' in case:
            plan = case['pin']
        else:
            plan = faults.make_plan(rng, counts, case['k'])
            if case['sweep']:
                kw = {'e': 28} if case['sweep'] in ('fs', 'stick') else {}
                plan += faults.sweep(counts, case['sweep'], **kw)[:200]
            # no write permission on the destination
            plan += [dict(k='perm', w=w) for w in (['file'] if old is not None else []) + ['dir']]
        for f in plan:
            def sub():
                L.sim_log_start()
                if f['k'] == 'perm':
                    err = None
                    with faults.readonly(dst if f['w'] == 'file' else os.path.dirname(dst)):
                        try:
                            save()
                        except Exception as e:
                            err = e
                    fired = err is not None
                else:
                    err, fired = faults.attempt(save, f)
                L.sim_log_stop()
                log = simlib.read_log()
                with bypass():
                    files = simlib.snapshot_dir(res.dir)
                    stray = sorted(p for p in files if p not in files0 and p != dst)
                    gone = sorted(p for p in files0 if p not in files)
                    if len(stray) == 1 and f['k'] == 'sigfs' and faults.fired_class() == 'CREATE' \
                            and isinstance(err, KeyboardInterrupt) and not files[stray[0]]:
                        # the interrupt came before the name of the new, still
                        # empty file was known to the program
                        stray = []
                        os.unlink(next(p for p in files if p not in files0 and p != dst))
                        res.count('probe.interrupted_while_creating')
                    if stray or gone:
                        raise Violation('stray-file', f'save under {f} ({type(err).__name__ if err else "no error"}): '
                                        f'left {[os.path.basename(x) for x in stray]} removed {gone}', dict(pin=[f]))
                    b = files.get(dst)
                    try:
                        got = world.read_state(dst) if b is not None else None
                    except world.BadFile as e:
                        got = str(e)
                    new = got == before
                    if err is None and not new:
                        raise Violation('save-claims-success', f'save under {f} returned normally, destination: '
                                        f'{got if isinstance(got, str) else "missing" if b is None else world.diff(before, got)}', dict(pin=[f]))
                    if err is not None and b != old and not new:
                        raise Violation('failed-save-damages-destination', f'save under {f} raised {type(err).__name__}: {err}; destination: {got if isinstance(got, str) else "missing" if b is None else world.diff(before, got)}', dict(pin=[f]))
                    if err is None and not files_same_elsewhere(files, files0, dst):
                        raise Violation('other-file-changed', f'{f}', dict(pin=[f]))
                    # the space is unchanged
                    try:
                        now = st.state()
                    except Exception as e:
                        raise Violation('space-unusable-after-failed-save', f'{f}: {type(e).__name__}: {e}', dict(pin=[f]))
                    d = world.diff(before, now)
                    if d:
                        raise Violation('space-changed-by-failed-save', f'{f}: ' + '; '.join(d), dict(pin=[f]))
                # a synced save that returned is durable
                if err is None and case['fsync'] and fired:
                    for r in range(3):
                        prng = random.Random(f'{case["seed"]}/{f}/{r}')
                        _, pf, info = simlib.power_crash_state(files0, log, len(log), prng)
                        self.judge(dst, pf, [('new', before)], f'power lost after a save under {f} had returned {info}', {}, res)
                # ... and can be saved again
                try:
                    save()
                except Exception as e:
                    raise Violation('later-save-fails', f'after {f} ({type(err).__name__ if err else "ok"}): {type(e).__name__}: {e}', dict(pin=[f]))
                with bypass():
                    if world.read_state(dst) != before:
                        raise Violation('later-save-wrong', f'after {f}', dict(pin=[f]))
                    left = [p for p in simlib.snapshot_dir(res.dir) if p not in files0 and p != dst]
                    if left:
                        raise Violation('stray-file', f'after {f} and a later save: {left}', dict(pin=[f]))
                return type(err).__name__ if err else None, fired, faults.fired_class(), b == old
            name, fired, cls, isold = simlib.forked(sub)
            restore()
            res.evals += 1
            if fired:
                res.nontrivial += 1
                res.count(f'fault.{f["k"]}' + (f'_{f["w"]}' if f['k'] == 'perm' else f'_{cls}' if cls else ''))
                res.sig(f, name, isold, world.digest(before))
            res.count('outcome.' + (name or 'saved') + ('' if isold else '_new_in_place'))
        res.sample = dict(mode=case['mode'], old=case['old'], fsync=case['fsync'], points=counts, faults=plan[:3])


def rng_ext(case):
    """A file name without, with the usual, or with another extension."""
    return ('.toron', '.toron', '', '.db', '.temp')[case['seed'] % 5]


def files_same_elsewhere(a, b, dst):
    return all(a.get(p) == v for p, v in b.items() if p != dst)


class _null:
    def __enter__(self):
        pass
    def __exit__(self, *a):
        pass


def make(prop, **kw):
    return Saves(prop)

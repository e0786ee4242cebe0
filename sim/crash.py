"""P05: a space bound to a file under kills and power loss at any point."""
import hashlib, json, os, random
import simlib, world, faults
from simlib import L, Violation, bypass
from gen import Gen
from hist import Store, Refs, run_op, toron
from modes import NAMES


class Crash:
    RUNS = dict(quick=330, thorough=20000)
    LEVEL = 'fault_enumeration'
    MEASURE = 'distinct (cut position, kind of crash, recovered state digest) tuples'
    RULE = ('Each case binds a file (creating it in part of the cases), runs 2-8 generated operations (some under an injected fault) '
            'and records every file operation; every operation boundary is a kill point, and 2-6 power-loss states are drawn per point; '
            'an evaluation is one reconstructed disk that differs from those already judged, recovered by the real code; '
            'non-trivial = the cut lies inside an operation. Part of the recoveries are themselves killed and recovered again, '
            'and part are continued with the remaining operations.')
    ASSUMPTIONS = [
        'Power loss: file data not fsynced may be lost, kept or torn per 512-byte sector in any combination; '
        'directory entries changed since the last directory fsync survive as an ordered prefix of the changes.',
        'Kill: every system call issued before the kill has taken effect.']

    def __init__(self, prop):
        self.PROP = prop

    def generate(self, rng, tier, i):
        g = Gen(rng, bad=0.03)
        create = i % 4 == 0
        setup = [] if create and rng.random() < 0.5 else g.setup(wgs=rng.choice([1, 2]), links=rng.choice([0, 1, 2]))
        steps = []
        if not setup:
            steps = g.setup(wgs=1, links=0, nidx=2)[:rng.choice([0, 1, 3])]
        for _ in range(rng.choice([1, 3, 6])):
            op = g.next()
            if rng.random() < 0.15:
                steps.append(['!F', dict(k=rng.choice(['fs', 'short', 'sqlint', 'mem', 'sigsql']), n=int(2 ** rng.uniform(0, 8)),
                                         e=rng.choice([5, 28]), v=rng.choice([1, 5, 30]), r=3), op])
            else:
                steps.append(op)
        return dict(name=rng.choice(NAMES), create=create, setup=setup, steps=steps, power=2 if tier == 'quick' else 6, recrash=rng.choice([0, 3]),
                    big=rng.choice([0, 0, 0, 60]))

    def shrink_paths(self, case):
        return [('steps',), ('setup',)]

    def run(self, case, res):
        refs = Refs()
        d = res.dir
        path = os.path.join(d, 'work', case['name'] + '.toron')
        t = toron()
        if not case['create']:
            with bypass():
                s = t.DataSpace()
                for op in case['setup']:
                    run_op(s, op, refs)
                if case['big'] and s.index_columns:
                    cols = s.index_columns
                    s.insert_index([tuple(f'big{i}-{c}-' + 'p' * 90 for c in cols) for i in range(case['big'])], cols)
                s.to_file(path, fsync=False)
                del s
        initial = simlib.snapshot_dir(d)
        existed = path in initial
        states = []                 # states[k]: after step k (0: after binding)
        L.sim_log_start()
        space = t.bind_file(path, mode='rwc')
        L.sim_mark(0)
        with bypass():
            states.append(world.read_state(path))
        if existed is False and (states[0]['cols'] or states[0]['index'] not in ({0: ()}, {})):
            raise Violation('new-file-not-empty', repr(states[0])[:300])
        outcomes = []
        steps = (case['setup'] + case['steps']) if case['create'] else case['steps']
        for k, step in enumerate(steps):
            if step[0] == '!F':
                e, fired = faults.attempt(lambda: world.execute(space, step[2], refs.spaces), step[1])
                if fired:
                    res.count('fault.' + step[1]['k'])
            else:
                e = run_op(space, step, refs)
            outcomes.append(type(e).__name__ if e else 'ok')
            e = None
            L.sim_mark(k + 1)
            with bypass():
                states.append(world.read_state(path))
        L.sim_log_stop()
        log = simlib.read_log()
        rng = random.Random(case['seed'])
        cache = {}
        self.res, self.case, self.steps, self.refs = res, case, steps, refs
        last = initial
        for i, marks, files in simlib.process_crash_states(initial, log):
            if files is None:
                continue
            last = files
            done = marks[-1] if marks else -1
            if case.get('pcut') is not None:
                continue
            where = f'killed after file operation {i} of {len(log)} ({self.what(done, outcomes)})'
            allowed = self.allowed_kill(done, states)
            got = self.judge(path, files, allowed, existed, where, cache, rng, True)
            res.count('fault.kill')
            res.count(f'probe.kill_recovers_{got}')
            res.sig('kill', i, got, world.digest(states[-1]))
        actual = simlib.snapshot_dir(d)
        if {p: b for p, b in last.items() if '/work/' in p} != {p: b for p, b in actual.items() if '/work/' in p}:
            raise RuntimeError('the recorded file operations do not add up to the actual files')
        cuts = range(1, len(log) + 1)
        if case.get('pcut') is not None:
            cuts = [case['pcut'][0]]
        for cut in cuts:
            for r in ([case['pcut'][1]] if case.get('pcut') is not None else range(case['power'])):
                prng = random.Random(f'{case["seed"]}/{cut}/{r}')
                marks, files, info = simlib.power_crash_state(initial, log, cut, prng)
                done = marks[-1] if marks else -1
                allowed = self.allowed_kill(done, states)
                # the last operation that changed anything may be lost
                prev = [s for s in states[:done + 1] if world.diff(s, states[done])] if done >= 0 else []
                if prev:
                    allowed.append(('one_lost', prev[-1]))
                where = f'power lost after file operation {cut} of {len(log)} {info} ({self.what(done, outcomes)})'
                try:
                    # a file created and bound may itself be lost with its name
                    got = self.judge(path, files, allowed, existed, where, cache, prng, False, maylack=not prev and not existed)
                except Violation as v:
                    v.pin = dict(pcut=[cut, r])
                    raise
                res.count('fault.power_loss')
                res.count('fault.power_loss_' + info['writes'])
                res.count(f'probe.power_recovers_{got}')
                res.sig('power', cut, got, info['writes'], world.digest(states[-1]))
        res.sample = dict(create=case['create'], operations=len(steps), file_operations=len(log), outcomes=outcomes)

    def what(self, done, outcomes):
        if done < 0:
            return 'while binding'
        if done >= len(self.steps):
            return 'after the last operation'
        return f'during {json.dumps(self.steps[done])[:200]} which would have ended with {outcomes[done]}'

    def allowed_kill(self, done, states):
        if done < 0:
            return [('creating', states[0])]
        out = [('before', states[done])]
        if done + 1 < len(states):
            out.append(('after', states[done + 1]))
        return out

    def judge(self, path, files, allowed, existed, where, cache, rng, kill, maylack=False):
        rel = {os.path.basename(p): b for p, b in files.items() if '/work/' in p}
        h = hashlib.sha256()
        for n in sorted(rel):
            h.update(n.encode() + b'\0' + hashlib.sha256(rel[n]).digest())
        key = (h.hexdigest(), tuple((n, id(s)) for n, s in allowed), maylack)
        if key in cache:
            return cache[key]
        res = self.res
        t = toron()
        rd = os.path.join(res.dir, 'aux', 'rec')
        with bypass():
            os.makedirs(rd, exist_ok=True)

        def lay(fs):
            with bypass():
                for n in os.listdir(rd):
                    os.unlink(os.path.join(rd, n))
                for n, b in fs.items():
                    with open(os.path.join(rd, n), 'wb') as f:
                        f.write(b)
        lay(rel)
        p = os.path.join(rd, os.path.basename(path))
        res.evals += 1
        res.nontrivial += 1
        creating = allowed[0][0] == 'creating'
        if not os.path.exists(p):
            if (creating and not existed) or maylack:
                cache[key] = 'no_file'
                return 'no_file'
            raise Violation('file-missing', where)
        try:
            recrash = self.case['recrash'] and rng.random() < 0.3
            if recrash:
                L.sim_log_start()
            s = t.bind_file(p, mode='rw')
            uid = s.unique_id
            if recrash:
                L.sim_log_stop()
                rlog = simlib.read_log()
        except Exception as e:
            L.sim_log_stop()
            if (creating and not existed) or maylack:
                # refused; a second attempt with rwc must not open it either
                for mode in ('ro',):
                    try:
                        t.bind_file(p, mode=mode).unique_id
                    except Exception:
                        continue
                    raise Violation('half-made-file-opened', f'{where}: refused as rw but opened as {mode}')
                cache[key] = 'refused'
                return 'refused'
            raise Violation('recovery-fails', f'{where}: {type(e).__name__}: {e}')
        try:
            with bypass():
                got = world.read_state(p)
        except world.BadFile as e:
            raise Violation('recovered-file-corrupt', f'{where}: {e}')
        if got['fk'] or got['orphans']:
            raise Violation('recovered-file-inconsistent', f'{where}: {got["fk"]} {got["orphans"]}')
        name = next((n for n, st in allowed if not world.diff(st, got)), None)
        if name is None and creating and not existed:
            # a complete, empty space with its own identity
            a, b = dict(allowed[0][1]), dict(got)
            a.pop('uid'), b.pop('uid')
            a['props'] = {k: v for k, v in a['props'].items() if 'creat' not in k and 'date' not in k}
            b['props'] = {k: v for k, v in b['props'].items() if 'creat' not in k and 'date' not in k}
            if not world.diff(a, b):
                name = 'creating'
        if name is None:
            raise Violation('recovered-state-wrong', f'{where}: allowed {[n for n, _ in allowed]}; against {allowed[0][0]}: ' +
                            '; '.join(world.diff(allowed[0][1], got)))
        # the recovered space works: continue with the next operations
        if self.steps and rng.random() < 0.25:
            k = {id(st): n for n, st in enumerate(self.order(allowed))}
            before = got
            op = next((x[-1] if x[0] == '!F' else x for x in self.steps[-1:]), None)
            m = world.Model(self.refs.uids)
            try:
                exp = m.apply(before, op)
            except world.Err:
                exp = before
            except world.Unspecified:
                exp = None
            e = run_op(s, op, self.refs)
            with bypass():
                now = world.read_state(p)
            if exp is not None and world.compare(exp, now):
                raise Violation('recovered-space-misbehaves', f'{where}: then {json.dumps(op)} ({e}): ' + '; '.join(world.compare(exp, now)))
            res.count('probe.continued_after_recovery')
        s = None
        if recrash and rlog:
            # killed again while recovering
            for i, marks, fs2 in simlib.process_crash_states({os.path.join(rd, n): b for n, b in rel.items()}, rlog):
                if fs2 is None or i == 0:
                    continue
                lay({os.path.basename(q): b for q, b in fs2.items()})
                try:
                    s2 = t.bind_file(p, mode='rw')
                    s2.unique_id
                    with bypass():
                        g2 = world.read_state(p)
                except Exception as e:
                    if maylack:
                        continue
                    raise Violation('second-recovery-fails', f'{where}, killed again after operation {i} of its recovery: {type(e).__name__}: {e}')
                if world.diff(got, g2):
                    raise Violation('second-recovery-differs', f'{where}, killed again after operation {i} of its recovery: ' + '; '.join(world.diff(got, g2)))
                res.count('fault.kill_during_recovery')
        cache[key] = name
        return name

    def order(self, allowed):
        return [s for _, s in allowed]


def make(prop, **kw):
    return Crash(prop)

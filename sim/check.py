"""check.py PROP [quick|thorough] | PROP --replay FILE | PROP --determinism N"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simlib
simlib.reexec_under_shim()
simlib.load_shim()
import importlib, json, pickle, random, select, shutil, struct, time, signal

VERIF = simlib.VERIF
STUBS = ('real: all toron code, CPython sqlite3 module, SQLite library and its unix VFS, the kernel file '
         'system (tmpfs) below the seam; simulated: outcome of system calls (faults), what survives a crash or '
         'power loss, fsync (recorded, not executed), clock, sleeping, randomness (uuid, temporary names), '
         'SQLite memory allocation failures, statement interrupts, signals, thread scheduling')


def _quiet():
    import logging
    logging.disable(logging.CRITICAL)


def load(prop):
    _quiet()
    import registry
    modname, kw = registry.PROPS[prop]
    # imported once, before the runs are forked
    os.umask(0o022)
    import toron, toron.graph, toron.reader, toron.space
    import world
    world.learn_objects()
    mod = importlib.import_module(modname)
    return mod.make(prop, **kw) if hasattr(mod, 'make') else mod


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('finding:') and f'property={prop} ' in line:
                d = dict(x.split('=', 1) for x in line.split()[1:4])
                d['text'] = ' '.join(line.split()[4:])
                out.append(d)
    return out


def gen_case(mod, seed, i, tier):
    rng = random.Random(f'{seed}/{mod.PROP}/{i}')
    case = mod.generate(rng, tier, i)
    case.setdefault('seed', rng.getrandbits(63))
    return json.loads(json.dumps(case))


def run_pool(mod, seed, tier, n, workers, cap_s, t0, keep_going=False):
    tok_r, tok_w = os.pipe()
    res_r, res_w = os.pipe()
    try:
        import fcntl
        fcntl.fcntl(tok_w, 1031, 1 << 20)          # F_SETPIPE_SZ
    except OSError:
        pass
    pids = []
    for w in range(workers):
        pid = os.fork()
        if pid == 0:
            try:
                os.close(tok_w); os.close(res_r)
                while True:
                    b = os.read(tok_r, 4)
                    if len(b) < 4:
                        break
                    i = struct.unpack('<I', b)[0]
                    if time.monotonic() - t0 > cap_s:
                        continue
                    st = time.monotonic()
                    try:
                        case = gen_case(mod, seed, i, tier)
                        out = simlib.run_one(mod, case, f'w{w:02d}')
                    except BaseException:
                        import traceback
                        out = simlib.empty_result('HARNESS', traceback.format_exc())
                        case = None
                    if case is not None and out['viol'] and out['viol']['cls'] in ('no-progress', 'process-died', 'HARNESS'):
                        out2 = simlib.run_one(mod, case, f'w{w:02d}')   # confirm
                        if not out2['viol']:
                            out2['stats']['unconfirmed_' + out['viol']['cls']] = 1
                        out = out2
                    out['i'] = i
                    out['dt'] = time.monotonic() - st
                    data = pickle.dumps(out)
                    fn = os.path.join(simlib.SCRATCH, f'res{i}')
                    with open(fn, 'wb') as f:
                        f.write(data)
                    os.write(res_w, struct.pack('<I', i))
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(0)
        pids.append(pid)
    os.close(tok_r); os.close(res_w)
    sent, results, stop = 0, [], False
    pending = 0
    while True:
        while not stop and sent < n and pending < workers * 3:
            os.write(tok_w, struct.pack('<I', sent))
            sent += 1
            pending += 1
        if pending == 0:
            break
        ready, _, _ = select.select([res_r], [], [], 1.0)
        if time.monotonic() - t0 > cap_s and not stop:
            stop = True
            os.close(tok_w); tok_w = -1
        if not ready:
            continue
        b = os.read(res_r, 4)
        if len(b) < 4:
            break
        i = struct.unpack('<I', b)[0]
        pending -= 1
        fn = os.path.join(simlib.SCRATCH, f'res{i}')
        out = pickle.load(open(fn, 'rb'))
        os.unlink(fn)
        results.append(out)
        if out['viol'] and not stop and not keep_going:
            stop = True
            os.close(tok_w); tok_w = -1
    if tok_w >= 0:
        os.close(tok_w)
    for p in pids:
        os.waitpid(p, 0)
    return results


def main():
    prop = sys.argv[1]
    tier = 'quick'
    if '--replay' in sys.argv:
        return replay(prop, sys.argv[sys.argv.index('--replay') + 1])
    if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'):
        tier = sys.argv[2]
    elif os.environ.get('VERIF_TIER') in ('quick', 'thorough'):
        tier = os.environ['VERIF_TIER']
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.monotonic()
    simlib.make_scratch()
    try:
        mod = load(prop)
        if '--determinism' in sys.argv:
            return determinism(mod, seed, tier, int(sys.argv[sys.argv.index('--determinism') + 1]))
        if '--survey' in sys.argv:
            return survey(mod, seed, tier, int(sys.argv[sys.argv.index('--survey') + 1]), t0)
        if '--case' in sys.argv:
            i = int(sys.argv[sys.argv.index('--case') + 1])
            case = gen_case(mod, seed, i, tier)
            print(json.dumps(case))
            print({k: v for k, v in simlib.run_one(mod, case).items() if k != 'sigs'})
            return 0
        return check(mod, prop, tier, seed, t0)
    finally:
        shutil.rmtree(simlib.SCRATCH, ignore_errors=True)


def survey(mod, seed, tier, n, t0):
    """Run without stopping and group the failures (development aid)."""
    by, stats = {}, {}
    rs = run_pool(mod, seed, tier, n, int(os.environ.get('SIM_WORKERS', '8')), 3000, t0, keep_going=True)
    for o in rs:
        for k, v in o['stats'].items():
            stats[k] = stats.get(k, 0) + v
        if o['viol']:
            by.setdefault(o['viol']['cls'], []).append((o['i'], o['viol']['msg']))
    if '-v' in sys.argv:
        for k in sorted(stats):
            print(f'  {k}: {stats[k]}')
    for k, v in sorted(by.items(), key=lambda t: -len(t[1])):
        if '-a' in sys.argv:
            for i, m in sorted(v):
                print(f'    {k} {i}: {m[:400]}')
        print(f'{len(v)}x {k}: case {min(v)[0]}: {min(v)[1][-1500:] if k in ("HARNESS", "unexpected-exception") else min(v)[1][:900]}')
    print(f'{len(rs)} runs, {sum(o["evals"] for o in rs)} evals, {sum(len(v) for v in by.values())} failing, slowest {max(o["dt"] for o in rs):.1f}s, {time.monotonic() - t0:.1f} s')
    return 0


def check(mod, prop, tier, seed, t0):
    workers = int(os.environ.get('SIM_WORKERS', '8'))
    n = mod.RUNS[tier]
    n = max(1, int(n * float(os.environ.get('SIM_SCALE', '1'))))
    cap = getattr(mod, 'CAP', {}).get(tier, 420 if tier == 'quick' else 3000)
    code = 0
    # known findings: shown, never silenced beyond their own input
    for k in known_findings(prop):
        case = json.load(open(os.path.join(VERIF, k['case'])))['case']
        out = simlib.run_one(mod, case)
        if out['viol'] and out['viol']['cls'] == k['key']:
            print(f"KNOWN-FINDING: property={prop} {k['text']}", flush=True)
        elif out['viol']:
            # fails, but not in the listed way: a different violation
            report(mod, prop, case, out['viol'], seed, -1, False)
            code = 1
    results = run_pool(mod, seed, tier, n, workers, cap, t0)
    if not results:
        print('no result', file=sys.stderr)
        return 2
    results.sort(key=lambda o: o['i'])
    viols = [o for o in results if o['viol']]
    harness = [o for o in viols if o['viol']['cls'] == 'HARNESS']
    real = [o for o in viols if o['viol']['cls'] != 'HARNESS']
    if real:
        o = real[0]
        case = gen_case(mod, seed, o['i'], tier)
        report(mod, prop, case, o['viol'], seed, o['i'], True)
        code = 1
    elif harness:
        print('HARNESS ERROR in case', harness[0]['i'], '\n', harness[0]['viol']['msg'], file=sys.stderr)
        code = 2
    write_evidence(mod, prop, tier, seed, results, time.monotonic() - t0, len(real), n)
    if code == 0:
        print(f'{prop}: held on {len(results)} simulated runs ({sum(o["evals"] for o in results)} evaluations), '
              f'{time.monotonic() - t0:.1f} s')
    return code


def report(mod, prop, case, viol, seed, idx, shrink):
    cls = viol['cls']
    if viol.get('pin'):
        pinned = dict(case, **viol['pin'])
        out = simlib.run_one(mod, pinned)
        if out['viol'] and out['viol']['cls'] == cls:
            case = pinned
    runs = 0
    if shrink:
        case, runs = simlib.minimise(mod, case, cls)
    out = simlib.run_one(mod, case)
    final = out['viol'] if out['viol'] and out['viol']['cls'] == cls else viol
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    path = os.path.join(VERIF, 'replays', f'{prop}-{seed}-{idx}.json')
    with open(path, 'w') as f:
        json.dump(dict(property=prop, seed=seed, index=idx, cls=cls, msg=final['msg'],
                       trace=out['trace'], reproduces=bool(out['viol'] and out['viol']['cls'] == cls),
                       minimising_runs=runs, case=case), f, indent=1)
    print(f'violation class {cls}: {final["msg"][:2000]}')
    print(f'VIOLATION property={prop} replay={path}', flush=True)


def replay(prop, path):
    simlib.make_scratch()
    try:
        mod = load(prop)
        rec = json.load(open(path))
        out = simlib.run_one(mod, rec['case'])
        v = out['viol']
        if v and v['cls'] == rec['cls']:
            print(f'reproduced: {v["cls"]}: {v["msg"]}')
            print('trace identical' if out['trace'] == rec.get('trace') else 'trace differs')
            print(f'VIOLATION property={prop} replay={path}')
            return 1
        print('not reproduced:', v)
        return 0
    finally:
        shutil.rmtree(simlib.SCRATCH, ignore_errors=True)


def determinism(mod, seed, tier, n):
    bad = 0
    for i in range(n):
        case = gen_case(mod, seed, i, tier)
        a = simlib.run_one(mod, case, 'a1')
        b = simlib.run_one(mod, case, 'b2')
        if (a['trace'], a['stats'], a['viol']) != (b['trace'], b['stats'], b['viol']):
            bad += 1
            print('differs: case', i, a['stats'], b['stats'], a['viol'], b['viol'])
        print('T', i, a['trace'][:16])
    print(f'determinism {mod.PROP}: {n} cases twice, {bad} differ')
    return 1 if bad else 0


def write_evidence(mod, prop, tier, seed, results, wall, nviol, planned):
    stats, sigs = {}, set()
    for o in results:
        for k, v in o['stats'].items():
            stats[k] = stats.get(k, 0) + v
        sigs.update(o['sigs'])
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault.')}
    probes = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('probe.')}
    other = {k: v for k, v in sorted(stats.items()) if not k.startswith(('fault.', 'probe.'))}
    samples = [o['sample'] for o in results if o['sample']][:3]
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'exploration'),
              coverage=dict(
                  evaluations=sum(o['evals'] for o in results),
                  distinct_nontrivial=len(sigs),
                  rule=mod.RULE, samples=samples or [str(results[0]['i'])],
                  simulated_runs=len(results), planned_runs=planned,
                  runs_per_hour=round(len(results) / max(wall, 1e-3) * 3600),
                  evaluations_per_hour=round(sum(o['evals'] for o in results) / max(wall, 1e-3) * 3600),
                  simulated_seconds=round(sum(o['vtime'] for o in results) / 1e9, 3),
                  faults_injected=faults, faults_total=sum(faults.values()),
                  distinct_measure=getattr(mod, 'MEASURE', 'hash of the logical content and fault position of each evaluation'),
                  reach_probes=probes, other_counts=other,
                  components=STUBS),
              assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(wall, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', f'{prop}.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)


if __name__ == '__main__':
    sys.exit(main())

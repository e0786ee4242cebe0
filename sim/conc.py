"""P06: several clients with their own bindings on one file, real threads
under the seeded scheduler of the seam; histories checked for
serializability by re-executing one-at-a-time orders on the real code."""
import gc, json, os, random, sqlite3, sys, threading
import simlib, world, faults
from simlib import L, Violation, bypass
from gen import Gen
from hist import Refs, run_op, toron

READS = ['index', 'cols', 'weights', 'q', 'maps', 'groups', 'links', 'parts', 'maxid', 'save', 'load', 'loadcache', 'disagg', 'unm']
RELABEL = {'addcols', 'rencol', 'rencols', 'chlabel', 'updidx', 'delidx', 'delidxc', 'insidx'}


def rows_of(it):
    return sorted((tuple(r) for r in it), key=repr)


def read(space, kind, arg, tmp, path):
    """One complete read, as a comparable value."""
    t = toron()
    if kind == 'index':
        return [list(map(str, r)) for r in rows_of(space.select_index(header=True))]
    if kind == 'cols':
        return sorted(space.index_columns)
    if kind == 'maxid':
        return space.max_index_id
    if kind == 'groups':
        return sorted([g.name, g.description, bool(g.is_complete)] for g in space.weight_groups)
    if kind == 'links':
        return sorted([l.name, l.description, bool(l.is_locally_complete), bool(l.is_default), l.other_index_hash] for l in space.links)
    if kind == 'parts':
        return sorted(sorted(p) for p in space.partition_definitions)
    if kind == 'weights':
        return rows_of(space.select_weights(arg, header=True))
    if kind == 'maps':
        return rows_of(space.select_mappings(arg[0], arg[1], header=True))
    if kind == 'q':
        return rows_of(space.select_quantities2(header=True))
    if kind == 'unm':
        return rows_of(space.select_unmatched_quantities(header=True))
    if kind == 'disagg':
        r = space()
        try:
            return rows_of(r)
        finally:
            r.close()
    if kind == 'save':
        space.to_file(tmp)
        try:
            with bypass():
                return world.digest(world.read_state(tmp))
        finally:
            with bypass():
                os.unlink(tmp)
    if kind in ('load', 'loadcache'):
        s = t.read_file(path, cache_to_drive=kind == 'loadcache')
        s.to_file(tmp)
        try:
            with bypass():
                return world.digest(world.read_state(tmp))
        finally:
            with bypass():
                os.unlink(tmp)
    raise AssertionError(kind)


class Conc:
    RUNS = dict(quick=2400, thorough=60000)
    LEVEL = 'exploration'
    MEASURE = 'distinct interleavings: hash of the recorded context switches together with the outcomes'
    RULE = ('Each case is one schedule of 2-4 clients (1-4 modifying or reading operations each) on one file, every file operation, SQLite step '
            'and sleep being a scheduling point decided by the seed, with stalled clients, clock jumps and storage faults in part of the cases; '
            'an evaluation is one operation of a client placed in a one-at-a-time order; non-trivial = the clients really overlapped.')
    ASSUMPTIONS = ['Clients are threads of one process with separate bindings; SQLite arbitrates them by its in-process locks, not by fcntl locks between processes.',
                   'A failed operation must have had no effect; it need not fail in every one-at-a-time order.']
    RUN_TIMEOUT = 120

    def __init__(self, prop):
        self.PROP = prop

    def generate(self, rng, tier, i):
        g = Gen(rng, dict(addcols=1, rencol=1, rencols=1, insidx=10, updidx=8, delidx=6, insw=10, updw=6, insq=10, insm2=6,
                          setdefwg=0), bad=0.03)   # choosing a default group takes two calls
        if rng.random() < 0.3:               # some clients change the structure, all at the same time
            g.w.update(chlabel=12, chattr=5, setattrs=4, addpart=5, addparts=4, dropparts=4, addwg=5, editwg=5, dropwg=2,
                       addlink=5, editlink=5, dom=3)
        setup = g.setup(wgs=rng.choice([1, 2]), links=rng.choice([0, 1, 1]), nidx=rng.choice([3, 5]), ncols=rng.choice([1, 2, 2, 3, 4]))
        n = rng.choice([2, 2, 2, 3, 3, 4])
        clients = [[] for _ in range(n)]
        rprob = rng.choice([0.0, 0.3, 0.5])
        for k in range(n * rng.choice([1, 2, 3] if n < 4 else [1, 2])):
            c = k % n
            if rng.random() < rprob:
                kind = rng.choice(READS)
                arg = None
                if kind == 'weights':
                    arg = rng.choice(sorted(g.st['wg'])) if g.st['wg'] else 'w1'
                if kind == 'maps':
                    ls = sorted(g.st['links'])
                    if not ls:
                        kind = 'q'
                    else:
                        arg = list(rng.choice(ls))
                clients[c].append(['R', kind, arg])
            else:
                clients[c].append(g.next())
        if any(op[0] in RELABEL for c in clients for op in c):
            # a reader looks labels up when its rows are read: two reads
            for c in clients:
                for op in c:
                    if op[0] == 'R' and op[1] == 'disagg':
                        op[1] = 'q'
        fault = None
        if rng.random() < 0.2:
            fault = dict(k=rng.choice(['fs', 'stick', 'short', 'sqlint', 'mem']), n=int(2 ** rng.uniform(0, 9)),
                         e=rng.choice([5, 28]), v=rng.choice([1, 5, 30]), r=3)
        return dict(setup=setup, clients=clients, sw=rng.choice([20, 60, 150, 300, 500]), stall=rng.choice([0, 0, 3, 15]), fault=fault,
                    plan=None, crash=rng.random() < 0.3)

    def shrink_paths(self, case):
        out = [('clients', i) for i in range(len(case['clients']))]
        if case['plan'] is not None:
            out.append(('plan',))
        return out

    def simplify(self, case):
        if case['fault']:
            yield dict(case, fault=None)
        if case['crash']:
            yield dict(case, crash=False)

    def run(self, case, res):
        refs = self.refs = Refs()
        d, t = res.dir, toron()
        path = self.path = os.path.join(d, 'work', 'shared.toron')
        with bypass():
            s = t.DataSpace()
            for op in case['setup']:
                run_op(s, op, refs)
            s.to_file(path, fsync=False)
            del s
        self.refuids = {f'S{k}': u for k, u in enumerate(refs.uids)}
        with open(path, 'rb') as f:
            self.start = f.read()
        n = len(case['clients'])
        events, recs = [], []
        spaces = [t.bind_file(path, mode='rw') for _ in range(n)]
        errors = []

        def client(tid):
            L.sim_thread_enter(tid)
            try:
                for k, op in enumerate(case['clients'][tid]):
                    rec = dict(t=tid, k=k, op=op, inv=None, ret=None, err=None, val=None)
                    recs.append(rec)
                    L.sim_point()
                    rec['inv'] = len(events)
                    events.append(('inv', tid, k))
                    L.sim_mark(len(recs) * 2)
                    try:
                        rec['val'] = self.do(spaces[tid], op, os.path.join(d, 'aux', f'c{tid}.toron'), path, refs)
                    except Exception as e:
                        rec['err'] = f'{type(e).__name__}: {e}'
                        rec['exc'] = type(e).__name__
                        # frames of a failed attempt keep nothing alive
                        e.__traceback__ = None
                    rec['ret'] = len(events)
                    events.append(('ret', tid, k))
                    L.sim_mark(len(events) << 20)
            except BaseException as e:
                errors.append(repr(e))
            finally:
                L.sim_thread_exit()
        sys.setswitchinterval(100)
        L.sim_sched_seed(case['seed'] & 0xffffffffffff, case['stall'])
        L.sim_sched_plan_clear()
        for st, tid in case['plan'] or []:
            L.sim_sched_plan_add(st, tid)
        initial = simlib.snapshot_dir(d)
        L.sim_log_start()
        L.sim_sched_start(n, case['sw'], case['plan'] is not None, 3000000)
        if case['fault']:
            faults.arm(case['fault'])
        th = [threading.Thread(target=client, args=(i,), daemon=True) for i in range(n)]
        for x in th:
            x.start()
        for x in th:
            x.join()
        fired = faults.disarm()
        L.sim_log_stop()
        log = simlib.read_log() if case['crash'] else []
        plan = [[L.sim_sched_switch_step(i), L.sim_sched_switch_tid(i)] for i in range(L.sim_sched_nswitch())]
        pin = None if case['plan'] is not None else dict(plan=plan)
        if errors:
            raise RuntimeError(errors[0])
        if fired:
            res.count('fault.' + case['fault']['k'])
        st = L.sim_sched_stalls()
        if st:
            res.count('fault.stalled_client', st)
        res.count('probe.context_switches', len(plan))
        res.count('probe.scheduling_points', L.sim_sched_steps())
        busy = 0
        for r in recs:
            if r['err'] and 'locked' in r['err']:
                busy += 1
        res.count('probe.failed_because_busy', busy)
        res.count('probe.virtual_sleeps', L.sim_sleeps())
        try:
            self.judge(case, res, recs, events, spaces, fired, initial, log)
        except Violation as v:
            v.pin = v.pin or pin
            raise
        overlap = any(a['t'] != b['t'] and a['inv'] < b['ret'] and b['inv'] < a['ret'] for a in recs for b in recs)
        if overlap:
            res.nontrivial += 1
        res.sig('sched', plan, [(r['t'], r['k'], bool(r['err'])) for r in recs])
        res.sample = dict(clients=case['clients'], outcomes=[[r['t'], r['k'], r['err'] or 'ok'] for r in recs], switches=len(plan))

    def do(self, space, op, tmp, path, refs):
        if op[0] == 'R':
            arg = op[2]
            if op[1] == 'maps':
                arg = [self.refuids[arg[0]], arg[1]]
            return read(space, op[1], arg, tmp, path)
        world.execute(space, op, refs.spaces)
        return None

    def judge(self, case, res, recs, events, spaces, fired, initial, log):
        path = self.path
        if L.sim_sched_overrun():
            raise Violation('no-progress', 'the clients did not finish within the step bound')
        for r in recs:
            if r['err'] and not fired:
                if r['exc'] in ('OperationalError', 'DatabaseError') and 'locked' not in r['err']:
                    res.count('probe.other_storage_error')
                if r['exc'] in ('DatabaseError', 'InternalError', 'InterfaceError', 'ProgrammingError'):
                    raise Violation('storage-error', f'{self.show(r)}')
        # everyone can make progress again
        for k, s in enumerate(spaces):
            try:
                s.set_domain(f'after{k}')
                if s.domain != f'after{k}':
                    raise Violation('progress-lost', f'client {k} reads back another domain than it set')
            except Exception as e:
                if not simlib._in_toron(e.__traceback__) and not isinstance(e, sqlite3.Error):
                    raise
                raise Violation('locked-out', f'client {k} cannot set the domain after everyone finished: {type(e).__name__}: {e}; {self.history(recs)}')
        with bypass():
            final = world.read_state(path)
        if final['fk'] or final['orphans']:
            raise Violation('inconsistent', f'{final["fk"]} {final["orphans"]}; {self.history(recs)}')
        for s in spaces:
            if s.domain != final['domain']:
                raise Violation('clients-disagree', f'{s.domain!r} {final["domain"]!r}')
        left = [n for n in os.listdir(os.path.dirname(path)) if n != 'shared.toron']
        if left:
            raise Violation('file-left', repr(left))
        res.evals += len(recs)
        self.nodes = 0
        self.cache = {}
        done = [r for r in recs if not r['err']]
        order = self.linear(done, [], final, ignore_domain=True)
        if order is None:
            raise Violation('not-serializable', f'no one-at-a-time order explains the outcome: {self.history(recs)}; final content: {self.brief(final)}')
        res.count('probe.orders_tried', self.nodes)
        if log:
            self.killed(case, res, recs, initial, log, fired)

    def killed(self, case, res, recs, initial, log, fired):
        """All clients killed at once at a drawn point."""
        rng = random.Random(case['seed'])
        cuts = sorted(rng.sample(range(1, len(log) + 1), min(3, len(log))))
        for i, marks, files in simlib.process_crash_states(initial, log):
            if i not in cuts and not (files is None and i in cuts):
                if files is not None:
                    lastfiles = files
                continue
            if files is not None:
                lastfiles = files
            fs = lastfiles
            nret = max([m >> 20 for m in marks if m >= 1 << 20] or [0])
            invoked = max([m // 2 for m in marks if m < 1 << 20] or [0])
            done = [r for r in recs if r['ret'] is not None and r['ret'] < nret and not r['err']]
            pend = [r for n, r in enumerate(recs) if n < invoked and not (r['ret'] is not None and r['ret'] < nret) and r['op'][0] != 'R']
            rd = os.path.join(res.dir, 'aux', 'rec')
            with bypass():
                os.makedirs(rd, exist_ok=True)
                for n in os.listdir(rd):
                    os.unlink(os.path.join(rd, n))
                for p, b in fs.items():
                    if '/work/' in p:
                        with open(os.path.join(rd, os.path.basename(p)), 'wb') as f:
                            f.write(b)
            p = os.path.join(rd, 'shared.toron')
            where = f'all clients killed after file operation {i} of {len(log)}: {self.history(recs)}'
            try:
                s = toron().bind_file(p, mode='rw')
                s.domain
                with bypass():
                    got = world.read_state(p)
            except (Exception, world.BadFile) as e:
                raise Violation('recovery-fails', f'{where}: {type(e).__name__}: {e}')
            res.count('fault.kill_all')
            res.evals += 1
            if self.linear(done, pend, got) is None:
                raise Violation('recovered-not-serializable', f'{where}; returned: {[self.show(r) for r in done]}; recovered: {self.brief(got)}')

    def linear(self, done, maybe, final, ignore_domain=False):
        """An order of all of *done* and some of *maybe* that gives *final*."""
        fin = dict(final)
        if ignore_domain:
            fin.pop('domain')
        fd = world.digest(fin)
        seen = set()
        recs = sorted(done, key=lambda r: r['ret']) + maybe
        need = frozenset(range(len(done)))

        def node(bytes_, digest_):
            pass

        def end(state):
            st = dict(state)
            if ignore_domain:
                st.pop('domain')
            return not world.diff(fin, st) if world.digest(st) != fd else True

        def rec(placed, key, state):
            if need <= placed and end(state):
                return []
            if (placed, key) in seen:
                return None
            seen.add((placed, key))
            for j, r in enumerate(recs):
                if j in placed:
                    continue
                # real-time order: whoever returned before r was invoked comes first
                if any(k not in placed and q['ret'] is not None and k in need and q['ret'] < r['inv'] for k, q in enumerate(recs) if k != j):
                    continue
                if any(k not in placed and q['t'] == r['t'] and q['k'] < r['k'] for k, q in enumerate(recs) if k != j and k in need):
                    continue
                nxt = self.step(key, r)
                if nxt is None:
                    continue
                out = rec(placed | {j}, *nxt)
                if out is not None:
                    return [r] + out
            return None
        k0 = self.root()
        return rec(frozenset(), *k0)

    def root(self):
        if 'root' not in self.cache:
            self.cache['root'] = self.put(self.start)
        return self.cache['root']

    def put(self, data):
        p = self.path + '.lin'
        with bypass():
            with open(p, 'wb') as f:
                f.write(data)
            st = world.read_state(p)
            os.unlink(p)
        key = world.digest(st)
        self.cache.setdefault(('bytes', key), data)
        return key, st

    def step(self, key, r):
        """State after r alone on the state key, or None when r would not have
        given the outcome it gave."""
        ck = (key, r['t'], r['k'])
        if ck in self.cache:
            return self.cache[ck]
        self.nodes += 1
        if self.nodes > 4000:
            raise RuntimeError('too many orders')
        p = self.path + '.lin'
        out = None
        with bypass():
            with open(p, 'wb') as f:
                f.write(self.cache[('bytes', key)])
            s = toron().bind_file(p, mode='rw')
            try:
                val = self.do(s, r['op'], p + '.tmp', p, self.refs)
                ok = True
            except Exception as e:
                ok = False
            s = None
            if ok and (r['ret'] is None or r['err'] or not world.diff(r['val'], val) if r['op'][0] == 'R' else True):
                if r['op'][0] == 'R':
                    out = (key, world.read_state(p)) if False else self.peek(key, p)
                else:
                    with open(p, 'rb') as f:
                        out = self.put2(f.read(), p)
            for q in (p, p + '-journal'):
                if os.path.exists(q):
                    os.unlink(q)
        self.cache[ck] = out
        return out

    def peek(self, key, p):
        st = self.cache.get(('state', key))
        if st is None:
            st = self.cache[('state', key)] = world.read_state(p)
        return key, st

    def put2(self, data, p):
        st = world.read_state(p)
        key = world.digest(st)
        self.cache.setdefault(('bytes', key), data)
        self.cache.setdefault(('state', key), st)
        return key, st

    def show(self, r):
        return f'client {r["t"]} {json.dumps(r["op"])[:160]} -> {r["err"] or ("ok" if r["val"] is None else str(r["val"])[:200])} [{r["inv"]},{r["ret"]}]'

    def history(self, recs):
        return ' | '.join(self.show(r) for r in recs)[:1600]

    def brief(self, st):
        return json.dumps({k: v for k, v in st.items() if k in ('cols', 'index', 'domain')}, default=str)[:300] + ' wg ' + \
            str({k: v['w'] for k, v in st['wg'].items()})[:200] + ' q ' + str(st['q'])[:200]


def make(prop, **kw):
    return Conc(prop)

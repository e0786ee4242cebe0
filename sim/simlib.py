"""Run-time of the simulator: ctypes view of the preload seam, forked runs,
logs of file operations, crash-state reconstruction, minimising, replay and
evidence.  Everything a run does is a function of its JSON case."""
import ctypes, errno, gc, hashlib, json, os, pickle, random, select, shutil
import signal, stat, struct, subprocess, sys, tempfile, time, traceback

SIM_DIR = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(SIM_DIR)
PY = '/opt/venv/bin/python'

# --------------------------------------------------------------- preload
def _build_shim():
    src = os.path.join(SIM_DIR, 'simshim.c')
    with open(src, 'rb') as f:
        tag = hashlib.sha256(f.read()).hexdigest()[:16]
    for d in (os.path.join(VERIF, 'build'), os.path.join(tempfile.gettempdir(), 'toron-sim-build')):
        so = os.path.join(d, f'simshim-{tag}.so')
        if os.path.exists(so):
            return so
        try:
            os.makedirs(d, exist_ok=True)
            tmp = f'{so}.{os.getpid()}'
            subprocess.run(['gcc', '-O1', '-fPIC', '-shared', '-w', '-o', tmp, src,
                            '-ldl', '-lpthread'], check=True)
            os.chmod(tmp, 0o755)
            os.replace(tmp, so)
            return so
        except OSError:
            continue
    raise RuntimeError('cannot build the simulation shim')


def reexec_under_shim():
    """Restart this process with the seam preloaded (no-op when it is)."""
    if os.environ.get('TORON_SIM_PRELOADED'):
        return
    so = _build_shim()
    repo = os.environ.get('TORON_SIM_REPO', '/repo')
    env = {k: v for k, v in os.environ.items()
           if k in ('PATH', 'HOME', 'VERIF_SEED', 'VERIF_TIER', 'TORON_SIM_REPO', 'SIM_WORKERS', 'SIM_SCALE', 'SIM_HASHSEED')}
    env.update(TORON_SIM_PRELOADED='1', LD_PRELOAD=so,
               PYTHONHASHSEED=env.get('SIM_HASHSEED', '0'),
               PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent/pyc',
               PYTHONPATH=f'{repo}/src:{SIM_DIR}', LC_ALL='C.UTF-8', TZ='UTC',
               PYTHONWARNINGS='ignore')
    os.execve(PY, [PY, '-X', 'utf8', os.path.abspath(sys.argv[0])] + sys.argv[1:], env)


L = None
C = dict(OPEN=1, CREATE=2, READ=4, WRITE=8, TRUNC=16, FSYNC=32, DIRSYNC=64,
         RENAME=128, UNLINK=256, CHMOD=512)
CNAME = {v: k for k, v in C.items()}
(EV_CREATE, EV_WRITE, EV_TRUNC, EV_FSYNC, EV_DIRSYNC, EV_RENAME, EV_UNLINK,
 EV_CHMOD, EV_MARK, EV_FAULT, EV_OPENW, EV_LINK) = range(1, 13)


def load_shim():
    """Bind the seam; must happen before sqlite3/toron are imported."""
    global L
    ctypes.CDLL('libsqlite3.so.0', mode=ctypes.RTLD_GLOBAL)
    L = ctypes.CDLL(None)
    i, i64, u32, u64, vp, sz, d, s = (ctypes.c_int, ctypes.c_int64, ctypes.c_uint32,
        ctypes.c_uint64, ctypes.c_void_p, ctypes.c_size_t, ctypes.c_double, ctypes.c_char_p)
    for name, res, args in [
        ('sim_sched_start', None, [i, u32, i, i64]), ('sim_sched_plan_clear', None, []),
        ('sim_sched_plan_add', None, [i64, i]), ('sim_sched_nswitch', i, []),
        ('sim_sched_switch_step', i64, [i]), ('sim_sched_switch_tid', i, [i]),
        ('sim_sched_steps', i64, []), ('sim_sched_stalls', i64, []), ('sim_sched_seed', None, [u64, u32]), ('sim_sched_overrun', i, []),
        ('sim_thread_enter', None, [i]), ('sim_thread_exit', None, []), ('sim_point', None, []), ('sim_unpriv', None, [i]),
        ('sim_enable', None, [s, u64]), ('sim_disable', None, []), ('sim_seed', None, [u64]),
        ('sim_bypass', None, [i]), ('sim_log_start', None, []), ('sim_log_stop', None, []),
        ('sim_log_len', sz, []), ('sim_log_ptr', vp, []), ('sim_log_count', u32, []),
        ('sim_mark', None, [i64]), ('sim_arm', None, [u32, i64, i, i, i]),
        ('sim_disarm', i, []), ('sim_fired_class', u32, []), ('sim_seen', i64, []),
        ('sim_opcount', i64, [i]), ('sim_opcount_reset', None, []), ('sim_vtime', i64, []),
        ('sim_clock_jump', None, [i64]), ('sim_real_time', d, []), ('sim_sleeps', i64, []),
        ('sim_sql_arm', None, [i64, i, i]), ('sim_sql_disarm', i, []),
        ('sim_sql_seen', i64, []), ('sim_sql_steps', i64, []),
        ('sim_install_allocator', i, []), ('sim_mem_arm', None, [i64, i64]),
        ('sim_mem_disarm', i, []), ('sim_mem_seen', i64, []),
    ]:
        f = getattr(L, name)
        f.restype, f.argtypes = res, args
    if L.sim_install_allocator() != 0:
        raise RuntimeError('cannot install the allocator seam')


class bypass:
    """Harness I/O: not logged, not counted, never faulted."""
    def __enter__(self):
        L.sim_bypass(1)
    def __exit__(self, *a):
        L.sim_bypass(0)


def read_log():
    n = L.sim_log_len()
    buf = ctypes.string_at(L.sim_log_ptr(), n) if n else b''
    out, p = [], 0
    while p < len(buf):
        k, fid, off, n1, n2 = struct.unpack_from('<BIqII', buf, p)
        p += 21
        b1 = buf[p:p + n1]; p += n1
        b2 = buf[p:p + n2]; p += n2
        out.append((k, fid, off, b1, b2))
    return out

# --------------------------------------------------------------- results
class Violation(Exception):
    def __init__(self, cls, msg, pin=None):
        super().__init__(msg)
        self.cls, self.msg, self.pin = cls, msg, pin


class Result:
    """What one run reports back."""
    def __init__(self):
        self.stats = {}
        self.viol = None          # dict(cls,msg,pin)
        self.sigs = set()         # distinct states / interleavings reached
        self.trace = hashlib.sha256()
        self.evals = 0
        self.nontrivial = 0
        self.sample = None
        self.known = []

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def sig(self, *parts):
        h = hashlib.blake2b(repr(parts).encode(), digest_size=8).hexdigest()
        self.sigs.add(h)
        self.trace.update(h.encode())

    def note(self, *parts):
        self.trace.update(repr(parts).encode())


def _in_toron(tb):
    """True when the innermost frames of a traceback are toron's own."""
    last = None
    while tb:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    return last is not None and '/src/toron/' in last.replace('\\', '/')

# ------------------------------------------------------------ forked runs
SCRATCH = None


def make_scratch():
    global SCRATCH
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp'
    SCRATCH = tempfile.mkdtemp(prefix='tsim', dir=base)
    os.chmod(SCRATCH, 0o711)
    return SCRATCH


def drop_privileges():
    if os.geteuid() == 0:
        try:
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
        except OSError:
            pass


def _child(mod, case, slot, wfd):
    code = 0
    try:
        d = os.path.join(SCRATCH, slot)
        os.mkdir(d, 0o700)
        for sub in ('tmp', 'work', 'aux'):
            os.mkdir(os.path.join(d, sub), 0o700)
        try:
            if os.geteuid() == 0:
                for x in (d, d + '/tmp', d + '/work', d + '/aux'):
                    os.chown(x, 65534, 65534)
                drop_privileges()
        except OSError:
            pass                         # stay root, inside the scratch tree
        os.umask(0o022)
        tempfile.tempdir = d + '/tmp'
        tempfile._name_sequence = None
        os.chdir(d)
        seed = int(case.get('seed', 0)) & 0xffffffffffffffff
        random.seed(seed)
        ctypes.CDLL('libsqlite3.so.0').sqlite3_randomness(0, None)
        L.sim_enable(d.encode(), seed)
        res = Result()
        res.dir = d
        sys.unraisablehook = lambda u: None   # generators closed by interrupts
        gc.disable()                     # collection at fixed points only
        try:
            mod.run(case, res)
        except Violation as v:
            res.viol = dict(cls=v.cls, msg=v.msg, pin=v.pin)
        except BaseException as e:
            L.sim_disarm(); L.sim_sql_disarm(); L.sim_mem_disarm()
            tb = ''.join(traceback.format_exception(e))[-3000:]
            if _in_toron(e.__traceback__):
                res.viol = dict(cls='unexpected-exception', pin=None,
                                msg=f'{type(e).__name__}: {e} | {tb[-1500:]}')
            else:
                res.viol = dict(cls='HARNESS', msg=tb, pin=None)
        out = dict(stats=res.stats, viol=res.viol, sigs=sorted(res.sigs),
                   trace=res.trace.hexdigest(), evals=res.evals,
                   nontrivial=res.nontrivial, sample=res.sample, known=res.known,
                   vtime=L.sim_vtime() - 1700000000 * 10**9)
        L.sim_disable()
        data = pickle.dumps(out)
        with os.fdopen(wfd, 'wb') as f:
            f.write(data)
    except BaseException:
        traceback.print_exc()
        code = 3
    finally:
        os._exit(code)


def empty_result(cls, msg):
    return dict(viol=dict(cls=cls, msg=msg, pin=None), stats={}, sigs=[], trace='', evals=0,
                nontrivial=0, sample=None, known=[], vtime=0)


def run_one(mod, case, slot='s', timeout=None):
    """Run one case in a forked child; returns the result dict."""
    timeout = timeout or getattr(mod, 'RUN_TIMEOUT', 240)
    d = os.path.join(SCRATCH, slot)
    shutil.rmtree(d, ignore_errors=True)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        os.setpgid(0, 0)
        _child(mod, case, slot, w)
    os.close(w)
    chunks, deadline, timed_out = [], time.monotonic() + timeout, False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], min(left, 5))
        if ready:
            b = os.read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
    os.close(r)
    if timed_out:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
    _, status = os.waitpid(pid, 0)
    shutil.rmtree(d, ignore_errors=True)
    if timed_out:
        return empty_result('no-progress', f'run made no progress in {timeout} s')
    if os.waitstatus_to_exitcode(status) == 98:
        return empty_result('no-progress', 'an operation waits forever for a lock that nobody will release')
    if status != 0 or not chunks:
        return empty_result('process-died', f'run ended with wait status {status}')
    return pickle.loads(b''.join(chunks))


def forked(fn):
    """Run fn() in a forked copy of this process (a snapshot: everything fn
    does to memory is undone).  Returns fn's picklable value; a Violation
    raised in the copy is raised here."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ('ok', fn())
            except Violation as v:
                out = ('viol', (v.cls, v.msg, v.pin))
            except BaseException as e:
                L.sim_disarm(); L.sim_sql_disarm(); L.sim_mem_disarm()
                tb = ''.join(traceback.format_exception(e))[-3000:]
                if _in_toron(e.__traceback__):
                    out = ('viol', ('unexpected-exception', tb, None))
                else:
                    out = ('harness', tb)
            with bypass():
                with os.fdopen(w, 'wb') as f:
                    f.write(pickle.dumps(out))
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(0)
    os.close(w)
    data = []
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        data.append(b)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if os.waitstatus_to_exitcode(status) == 98:
        raise Violation('no-progress', 'an operation waits forever for a lock that nobody will release')
    if not data:
        raise Violation('process-died', f'forked copy died, status {status}')
    kind, val = pickle.loads(b''.join(data))
    if kind == 'viol':
        raise Violation(*val)
    if kind == 'harness':
        raise RuntimeError('in forked copy: ' + val)
    return val

# ---------------------------------------------------------- file systems
class FS:
    """Files of a directory tree as of some point of a log: path -> bytes."""
    def __init__(self, files=None):
        self.files = dict(files or {})
    def clone(self):
        return FS(self.files)


def snapshot_dir(d):
    with bypass():
        out = {}
        for root, _, names in os.walk(d):
            for n in names:
                p = os.path.join(root, n)
                if os.path.isfile(p):
                    with open(p, 'rb') as f:
                        out[p] = f.read()
        return out


def restore_dir(d, files):
    """Make the tree below d hold exactly *files*."""
    with bypass():
        for root, _, names in os.walk(d):
            for n in names:
                p = os.path.join(root, n)
                if p not in files:
                    os.unlink(p)
        for p, b in files.items():
            if not p.startswith(d + '/'):
                continue
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(b)


def _apply_write(buf, off, data):
    if len(buf) < off:
        buf.extend(b'\0' * (off - len(buf)))
    buf[off:off + len(data)] = data


def process_crash_states(initial, log):
    """Yield (i, marks, files) for the tree after the first i operations
    (everything the process did reached the kernel)."""
    names, inodes = {}, {}
    nxt = [1 << 40]
    for p, b in initial.items():
        nxt[0] += 1
        names[p] = nxt[0]
        inodes[nxt[0]] = bytearray(b)
    fidmap = {}
    marks = []

    def files():
        return {p: bytes(inodes[i]) for p, i in names.items()}
    yield 0, tuple(marks), files()
    for n, ev in enumerate(log):
        changed = _step(ev, names, inodes, fidmap, marks, nxt)
        yield n + 1, tuple(marks), (files() if changed else None)


def _step(ev, names, inodes, fidmap, marks, nxt):
    k, fid, off, b1, b2 = ev
    if k in (EV_CREATE, EV_OPENW):
        p = os.fsdecode(b1)
        if p not in names:
            nxt[0] += 1
            names[p] = nxt[0]
            inodes[nxt[0]] = bytearray()
            fidmap[fid] = nxt[0]
            return True
        fidmap[fid] = names[p]
        return False
    if k == EV_WRITE:
        _apply_write(inodes[fidmap[fid]], off, b1)
        return True
    if k == EV_TRUNC:
        buf = inodes[fidmap[fid]]
        if off < len(buf):
            del buf[off:]
        else:
            buf.extend(b'\0' * (off - len(buf)))
        return True
    if k == EV_RENAME:
        a, b = os.fsdecode(b1), os.fsdecode(b2)
        if a in names:
            names[b] = names.pop(a)
        return True
    if k == EV_LINK:
        a, b = os.fsdecode(b1), os.fsdecode(b2)
        if a in names:
            names[b] = names[a]
        return True
    if k == EV_UNLINK:
        names.pop(os.fsdecode(b1), None)
        return True
    if k == EV_MARK:
        marks.append(off)
    return False


def power_crash_state(initial, log, cut, rng, ndir=None):
    """One possible on-disk tree after a power loss following the first *cut*
    operations.  Unflushed writes of a file may be lost, kept or torn at
    512-byte sectors, in any combination; directory operations since the last
    directory sync survive as an ordered prefix."""
    # volatile model: inode -> durable bytes + list of pending (write|trunc)
    nxt = [1 << 40]
    names, fidmap, dur, pend = {}, {}, {}, {}
    dirpend = []                        # pending directory operations
    dnames = {}
    for p, b in initial.items():
        nxt[0] += 1
        names[p] = dnames[p] = nxt[0]
        dur[nxt[0]] = bytearray(b)
        pend[nxt[0]] = []

    def dapply(op):
        if op[0] == 'add':
            dnames[op[1]] = op[2]
        elif op[0] == 'ren':
            if op[1] in dnames:
                dnames[op[2]] = dnames.pop(op[1])
            else:
                dnames[op[2]] = op[3]
        else:
            dnames.pop(op[1], None)
    marks = []
    for k, fid, off, b1, b2 in log[:cut]:
        if k in (EV_CREATE, EV_OPENW):
            p = os.fsdecode(b1)
            if p not in names:
                nxt[0] += 1
                names[p] = nxt[0]
                dur[nxt[0]] = bytearray()
                pend[nxt[0]] = []
                dirpend.append(('add', p, nxt[0]))
            fidmap[fid] = names[p]
        elif k == EV_WRITE:
            pend[fidmap[fid]].append(('w', off, b1))
        elif k == EV_TRUNC:
            pend[fidmap[fid]].append(('t', off, b''))
        elif k == EV_FSYNC:
            i = fidmap.get(fid)
            if i is not None:
                _flush(dur[i], pend[i])
                pend[i] = []
        elif k == EV_DIRSYNC:
            for op in dirpend:
                dapply(op)
            dirpend = []
        elif k == EV_RENAME:
            a, b = os.fsdecode(b1), os.fsdecode(b2)
            if a in names:
                i = names[b] = names.pop(a)
                dirpend.append(('ren', a, b, i))
        elif k == EV_LINK:
            a, b = os.fsdecode(b1), os.fsdecode(b2)
            if a in names:
                names[b] = names[a]
                dirpend.append(('add', b, names[a]))
        elif k == EV_UNLINK:
            p = os.fsdecode(b1)
            names.pop(p, None)
            dirpend.append(('del', p))
        elif k == EV_MARK:
            marks.append(off)
    nd = rng.randint(0, len(dirpend)) if ndir is None else min(ndir, len(dirpend))
    if rng.random() < 0.4:
        nd = len(dirpend)
    elif rng.random() < 0.4:
        nd = 0
    for op in dirpend[:nd]:
        dapply(op)
    mode = rng.choice(['none', 'all', 'each', 'prefix', 'torn', 'each'])
    out = {}
    for p, i in dnames.items():
        buf = bytearray(dur[i])
        ops = pend[i]
        if mode == 'prefix':
            ops = ops[:rng.randint(0, len(ops))]
        elif mode == 'none':
            ops = []
        for op in ops:
            if op[0] == 't':
                if mode in ('all', 'prefix') or rng.random() < 0.5:
                    _flush(buf, [op])
                continue
            if mode in ('all', 'prefix'):
                _flush(buf, [op])
            elif mode == 'each':
                if rng.random() < 0.5:
                    _flush(buf, [op])
            elif mode == 'torn':
                off, data = op[1], op[2]
                q = 0
                while q < len(data):
                    step = 512 - (off + q) % 512
                    if rng.random() < 0.5:
                        _apply_write(buf, off + q, data[q:q + step])
                    q += step
        out[p] = bytes(buf)
    return tuple(marks), out, dict(dirops=f'{nd}/{len(dirpend)}', writes=mode,
                                   pending=sum(map(len, pend.values())))


def _flush(buf, ops):
    for o, off, data in ops:
        if o == 'w':
            _apply_write(buf, off, data)
        elif off < len(buf):
            del buf[off:]
        else:
            buf.extend(b'\0' * (off - len(buf)))

# ----------------------------------------------------------- minimising
def minimise(mod, case, cls, budget_s=60, max_runs=400):
    """Delta-debug the list fields of a failing case, keeping its class."""
    t0, runs = time.monotonic(), [0]

    def fails(c):
        if runs[0] >= max_runs or time.monotonic() - t0 > budget_s:
            return False
        runs[0] += 1
        out = run_one(mod, c, 'min', timeout=min(60, getattr(mod, 'RUN_TIMEOUT', 240)))
        v = out['viol']
        return bool(v) and v['cls'] == cls

    def shrink_list(c, path):
        def get(c):
            x = c
            for k in path:
                x = x[k]
            return x

        def put(c, lst):
            c2 = json.loads(json.dumps(c))
            x = c2
            for k in path[:-1]:
                x = x[k]
            x[path[-1]] = lst
            return c2
        lst = get(c)
        n = max(1, len(lst) // 2)
        while n >= 1 and lst:
            i = 0
            while i < len(lst):
                cand = lst[:i] + lst[i + n:]
                c2 = put(c, cand)
                if fails(c2):
                    c, lst = c2, cand
                else:
                    i += n
            n //= 2
        return c
    if hasattr(mod, 'shrink_paths'):
        for _ in range(2):
            before = json.dumps(case)
            for path in mod.shrink_paths(case):
                case = shrink_list(case, path)
            if hasattr(mod, 'simplify'):
                for cand in mod.simplify(case):
                    if fails(cand):
                        case = cand
            if json.dumps(case) == before:
                break
    return case, runs[0]

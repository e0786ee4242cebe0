"""Fault plans: what to inject while one operation runs."""
import errno, os, signal
import simlib
from simlib import C

# every file-system class except UNLINK (cleanup itself is not faulted)
FS_MASK = sum(C[k] for k in ('OPEN', 'CREATE', 'READ', 'WRITE', 'TRUNC', 'FSYNC', 'DIRSYNC', 'RENAME', 'CHMOD'))
WR_MASK = sum(C[k] for k in ('CREATE', 'WRITE', 'TRUNC', 'FSYNC', 'DIRSYNC', 'RENAME'))
HUGE = 1 << 60


def measure(fn):
    """Run fn in a forked copy and count its injection points."""
    def go():
        L = simlib.L
        L.sim_arm(FS_MASK, HUGE, errno.EIO, 0, 0)
        L.sim_sql_arm(HUGE, 2, 0)
        L.sim_mem_arm(HUGE, 1)
        try:
            fn()
            err = None
        except Exception as e:
            err = f'{type(e).__name__}: {e}'
        n = dict(fs=L.sim_seen(), sql=L.sim_sql_seen(), mem=L.sim_mem_seen(), err=err)
        L.sim_disarm(); L.sim_sql_disarm(); L.sim_mem_disarm()
        return n
    return simlib.forked(go)


ERRS = [errno.ENOSPC, errno.EIO, errno.EACCES, errno.EMFILE, errno.EDQUOT, errno.EROFS]


def make_plan(rng, counts, k, kinds=('fs', 'stick', 'short', 'sqlint', 'mem', 'memrun', 'sigsql', 'sigfs')):
    """k fault points: early, late and anywhere."""
    out = []
    kinds = [x for x in kinds if
             (counts['fs'] if x in ('fs', 'stick', 'short', 'sigfs') else
              counts['mem'] if x in ('mem', 'memrun') else counts['sql']) > 0]
    if not kinds:
        return out
    for j in range(k):
        kind = kinds[j % len(kinds)]
        hi = counts['fs'] if kind in ('fs', 'stick', 'short', 'sigfs') else \
            counts['mem'] if kind in ('mem', 'memrun') else counts['sql']
        m = rng.random()
        if m < 0.15:
            n = 1 + min(hi - 1, rng.randrange(4))
        elif m < 0.45:
            n = max(1, hi - rng.randrange(8))
        else:
            n = rng.randint(1, hi)
        f = dict(k=kind, n=n)
        if kind in ('fs', 'stick'):
            f['e'] = rng.choice(ERRS)
        elif kind == 'short':
            f['e'] = errno.ENOSPC
        elif kind == 'sqlint':
            f['v'] = rng.choice([1, 2, 5, 10, 30, 100, 400, 2000])
        elif kind == 'memrun':
            f['r'] = rng.choice([2, 8, 1 << 30])
        out.append(f)
    return out


def sweep(counts, kind, **kw):
    """Every injection point of one kind."""
    hi = counts['fs'] if kind in ('fs', 'stick', 'short', 'sigfs') else \
        counts['mem'] if kind in ('mem', 'memrun') else counts['sql']
    return [dict(k=kind, n=n, **kw) for n in range(1, hi + 1)]


class readonly:
    """Without write permission on the given paths, as an unprivileged user."""
    def __init__(self, *paths):
        self.paths = [p for p in paths if os.path.exists(p)]

    def __enter__(self):
        with simlib.bypass():
            self.modes = [os.stat(p).st_mode & 0o7777 for p in self.paths]
            for p, m in zip(self.paths, self.modes):
                os.chmod(p, m & ~0o222)
        simlib.L.sim_unpriv(1)

    def __exit__(self, *a):
        simlib.L.sim_unpriv(0)
        with simlib.bypass():
            for p, m in zip(self.paths, self.modes):
                if os.path.exists(p):
                    os.chmod(p, m)


def arm(f):
    L = simlib.L
    k = f['k']
    if k == 'fs':
        L.sim_arm(FS_MASK, f['n'], f['e'], 0, 0)
    elif k == 'stick':
        # a full or failing disk: every later write-side call fails as well
        L.sim_arm(WR_MASK, f['n'], f['e'], 1, 0)
    elif k == 'short':
        L.sim_arm(C['WRITE'], f['n'], f['e'], 1, 1)
    elif k == 'sigfs':
        L.sim_arm(FS_MASK, f['n'], 0, 0, 2)
    elif k == 'sqlint':
        L.sim_sql_arm(f['n'], 1, f['v'])
    elif k == 'sigsql':
        L.sim_sql_arm(f['n'], 2, 0)
    elif k == 'mem':
        L.sim_mem_arm(f['n'], 1)
    elif k == 'memrun':
        L.sim_mem_arm(f['n'], f['r'])
    else:
        raise AssertionError(k)


def disarm():
    """Returns whether a fault fired."""
    L = simlib.L
    a, b, c = L.sim_disarm(), L.sim_sql_disarm(), L.sim_mem_disarm()
    return bool(a or b or c)


def fired_class():
    return simlib.CNAME.get(simlib.L.sim_fired_class(), '')


def is_signal(f):
    return f['k'] in ('sigsql', 'sigfs')


def attempt(fn, f, d=None):
    """Run fn under fault f.  Returns (exception or None, fired).  A fault with
    'back' strikes that many points before the last one (counted in a copy;
    what the copy does to the files below d is undone)."""
    if f.get('back') is not None and d:
        files = simlib.snapshot_dir(d)
        c = measure(fn)
        simlib.restore_dir(d, files)
        n = c['fs'] if f['k'] in ('fs', 'stick', 'short', 'sigfs') else c['mem'] if f['k'] in ('mem', 'memrun') else c['sql']
        f = dict(f, n=max(1, n - f['back']))
    signal.signal(signal.SIGINT, signal.default_int_handler)
    err = None
    try:
        arm(f)
        try:
            fn()
        finally:
            fired = disarm()
        for _ in range(3):          # let a pending interrupt surface here
            pass
    except BaseException as e:
        err = e
        fired = disarm() or fired
    try:
        return err, fired
    finally:
        err = None                  # no cycle through this frame

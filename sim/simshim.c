/* simshim.c - LD_PRELOAD seam under CPython and SQLite.
 *
 * Everything nondeterministic that toron touches below Python is decided
 * here: file-system calls under one scratch prefix are logged and can be made
 * to fail, randomness and wall-clock time are synthetic, sleeping is virtual,
 * SQLite's allocator can be made to fail, SQLite statements can be
 * interrupted, and (when threads are registered) exactly one thread runs at a
 * time and the next one to run is decided by a seeded scheduler.
 *
 * Inert until sim_enable() is called.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define REAL(ret, name, args) \
    static ret (*real_##name) args; \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

/* ------------------------------------------------------------------ */
/* state                                                                */
static int g_on;                 /* simulation enabled                  */
static int g_unpriv;             /* emulate an unprivileged user        */
static char g_prefix[512];
static size_t g_plen;
static uint64_t g_rng = 88172645463325252ull;
static int64_t g_vtime_ns = 1700000000ll * 1000000000ll;
static __thread int t_bypass;

static uint64_t rng_next(void) {            /* splitmix64 */
    uint64_t z = (g_rng += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

/* event kinds */
enum { EV_CREATE = 1, EV_WRITE, EV_TRUNC, EV_FSYNC, EV_DIRSYNC, EV_RENAME,
       EV_UNLINK, EV_CHMOD, EV_MARK, EV_FAULT, EV_OPENW, EV_LINK };

/* operation classes for fault injection (bit mask) */
enum { C_OPEN = 1, C_CREATE = 2, C_READ = 4, C_WRITE = 8, C_TRUNC = 16,
       C_FSYNC = 32, C_DIRSYNC = 64, C_RENAME = 128, C_UNLINK = 256,
       C_CHMOD = 512, C_ACCESS = 1024 };

#define MAXFD 4096
static struct { int used; int isdir; uint32_t fid; int append; } g_fd[MAXFD];
static char *g_fdpath[MAXFD];

/* file identity: (dev, ino, generation) -> fid */
static struct { dev_t dev; ino_t ino; uint32_t fid; int dead; } *g_ino;
static int g_nino, g_cino;
static uint32_t g_nextfid = 1;

/* log buffer */
static unsigned char *g_log; static size_t g_llen, g_lcap; static int g_logging;
static uint32_t g_lcount;

static void log_reserve(size_t n) {
    if (g_llen + n > g_lcap) {
        size_t c = g_lcap ? g_lcap * 2 : 1 << 16;
        while (c < g_llen + n) c *= 2;
        g_log = realloc(g_log, c); g_lcap = c;
    }
}
/* record: u8 kind, u32 fid, i64 off, u32 n1, u32 n2, bytes1, bytes2 */
static void log_ev(int kind, uint32_t fid, int64_t off, const void *b1, uint32_t n1,
                   const void *b2, uint32_t n2) {
    if (!g_logging) return;
    log_reserve(32 + (size_t)n1 + n2);
    unsigned char *p = g_log + g_llen;
    *p++ = kind; memcpy(p, &fid, 4); p += 4; memcpy(p, &off, 8); p += 8;
    memcpy(p, &n1, 4); p += 4; memcpy(p, &n2, 4); p += 4;
    if (n1) memcpy(p, b1, n1);
    p += n1;
    if (n2) memcpy(p, b2, n2);
    p += n2;
    g_llen = p - g_log; g_lcount++;
}

/* ------------------------------------------------------------------ */
/* fault plan                                                           */
static struct {
    int armed; uint32_t mask; int64_t nth; int err; int sticky; int mode;
    /* mode 0: fail with err; 1: short write then err; 2: raise SIGINT and go on;
       3: EINTR once (caller should retry) */
    int fired; int64_t seen; uint32_t fired_class;
} g_f;
static int64_t g_opcount[16];

static int class_ix(uint32_t c) { int i = 0; while (c > 1) { c >>= 1; i++; } return i; }

/* returns 0: go on; >0: errno to return; -1: short write */
static int fault_check(uint32_t cls) {
    g_opcount[class_ix(cls)]++;
    if (!g_f.armed || !(cls & g_f.mask)) return 0;
    if (g_f.fired && g_f.sticky) return g_f.err;
    if (g_f.fired) return 0;
    if (++g_f.seen != g_f.nth) return 0;
    g_f.fired = 1; g_f.fired_class = cls;
    log_ev(EV_FAULT, cls, g_f.err, NULL, 0, NULL, 0);
    if (g_f.mode == 2) { raise(SIGINT); return 0; }
    if (g_f.mode == 1 && cls == C_WRITE) return -1;
    return g_f.err;
}

/* ------------------------------------------------------------------ */
/* cooperative scheduler over real threads                              */
#define MAXT 8
static struct {
    int on; int nthreads; int cur; int state[MAXT]; int64_t wake[MAXT];
    /* state: 0 unused, 1 runnable, 2 sleeping, 3 done, 4 not yet started */
    pthread_cond_t cv[MAXT]; pthread_mutex_t mu;
    int64_t step; uint32_t switch_per_1024; int explicit_mode;
    int64_t maxsteps; int overrun; int started;
} g_s = { .mu = PTHREAD_MUTEX_INITIALIZER };
static __thread int t_tid = -1;
#define MAXSW 65536
static struct { int64_t step; int tid; } g_sw[MAXSW], g_plan[MAXSW];
static int g_nsw, g_nplan, g_iplan;
static uint64_t g_srng; static uint32_t g_stall1024;
static uint64_t srng(void) { g_srng ^= g_srng << 13; g_srng ^= g_srng >> 7; g_srng ^= g_srng << 17; return g_srng; }
/* true while the calling thread holds the interpreter lock: no other thread
   could run, so this is not a scheduling point */
static int holds_gil(void) {
    static int (*chk)(void); static int looked;
    if (!looked) { chk = dlsym(RTLD_DEFAULT, "PyGILState_Check"); looked = 1; }
    return chk ? chk() : 0;
}

static void record_switch(int64_t step, int tid) {
    if (g_nsw < MAXSW) { g_sw[g_nsw].step = step; g_sw[g_nsw].tid = tid; g_nsw++; }
}
static int runnable(int t) { return g_s.state[t] == 1; }

/* choose next thread. must hold mu. cur may be not runnable. */
static int choose(int voluntary) {
    int64_t step = g_s.step;
    for (;;) {
        int n = 0, list[MAXT];
        for (int i = 0; i < g_s.nthreads; i++) {
            if (g_s.state[i] == 2 && g_s.wake[i] <= g_vtime_ns) g_s.state[i] = 1;
            if (runnable(i)) list[n++] = i;
        }
        if (n == 0) {
            int64_t best = -1;
            for (int i = 0; i < g_s.nthreads; i++)
                if (g_s.state[i] == 2 && (best < 0 || g_s.wake[i] < best)) best = g_s.wake[i];
            if (best < 0) return -1;          /* everyone done */
            g_vtime_ns = best; continue;
        }
        int cur = g_s.cur;
        int def = (cur >= 0 && runnable(cur)) ? cur : list[0];
        int pick = def;
        if (g_s.explicit_mode) {
            while (g_iplan < g_nplan && g_plan[g_iplan].step < step) g_iplan++;
            if (g_iplan < g_nplan && g_plan[g_iplan].step == step) {
                int t = g_plan[g_iplan].tid; g_iplan++;
                if (t >= 0 && t < g_s.nthreads && runnable(t)) pick = t;
            }
        } else if (def != cur || (srng() >> 11 & 1023) < g_s.switch_per_1024) {
            pick = list[(srng() >> 11) % n];
        }
        if (pick != def) record_switch(step, pick);
        (void)voluntary;
        return pick;
    }
}
static void hand_to(int next, int me) {       /* holds mu */
    if (next == me) return;
    g_s.cur = next;
    if (next >= 0) pthread_cond_signal(&g_s.cv[next]);
    if (me >= 0 && g_s.state[me] != 3)
        while (g_s.cur != me) pthread_cond_wait(&g_s.cv[me], &g_s.mu);
}
static int64_t g_nstall;
static void sched_sleep(int64_t ns);
static void sched_point(void) {
    if (!g_s.on || t_tid < 0 || t_bypass || holds_gil()) return;
    int e = errno;
    int64_t stall = 0;
    pthread_mutex_lock(&g_s.mu);
    g_s.step++;
    /* a stalled client: sleeps for some virtual time, whatever it holds */
    if (g_s.explicit_mode) {
        while (g_iplan < g_nplan && g_plan[g_iplan].step < g_s.step) g_iplan++;
        if (g_iplan < g_nplan && g_plan[g_iplan].step == g_s.step && g_plan[g_iplan].tid >= 1000) stall = g_plan[g_iplan++].tid;
    } else if (g_stall1024 && (srng() >> 11 & 1023) < g_stall1024) {
        static const int ms[] = {1, 30, 400, 3000, 6000, 20000};
        stall = 1000 + ms[(srng() >> 11) % 6];
        record_switch(g_s.step, stall);
    }
    if (stall) {
        g_nstall++;
        pthread_mutex_unlock(&g_s.mu);
        sched_sleep((stall - 1000) * 1000000ll);
        errno = e;
        return;
    }
    if (g_s.step > g_s.maxsteps) { g_s.overrun = 1; pthread_mutex_unlock(&g_s.mu); errno = e; return; }
    hand_to(choose(0), t_tid);
    pthread_mutex_unlock(&g_s.mu);
    errno = e;
}
static void sched_sleep(int64_t ns) {
    pthread_mutex_lock(&g_s.mu);
    g_s.step++;
    g_s.state[t_tid] = 2; g_s.wake[t_tid] = g_vtime_ns + ns;
    int nx = choose(1);
    hand_to(nx, t_tid);
    pthread_mutex_unlock(&g_s.mu);
}
int64_t sim_sched_stalls(void) { return g_nstall; }
void sim_sched_seed(uint64_t seed, uint32_t stall1024) { g_srng = seed * 0x9e3779b97f4a7c15ull | 1; g_stall1024 = stall1024; for (int i = 0; i < 9; i++) srng(); g_nstall = 0; }
void sim_sched_start(int nthreads, uint32_t sw1024, int explicit_mode, int64_t maxsteps) {
    g_s.nthreads = nthreads; g_s.cur = -1; g_s.step = 0; g_s.switch_per_1024 = sw1024;
    g_s.explicit_mode = explicit_mode; g_s.maxsteps = maxsteps; g_s.overrun = 0; g_s.started = 0;
    for (int i = 0; i < MAXT; i++) { g_s.state[i] = i < nthreads ? 4 : 0; pthread_cond_init(&g_s.cv[i], NULL); }
    g_nsw = 0; g_iplan = 0; g_s.on = 1;
}
void sim_sched_plan_clear(void) { g_nplan = 0; g_iplan = 0; }
void sim_sched_plan_add(int64_t step, int tid) { if (g_nplan < MAXSW) { g_plan[g_nplan].step = step; g_plan[g_nplan].tid = tid; g_nplan++; } }
int sim_sched_nswitch(void) { return g_nsw; }
int64_t sim_sched_switch_step(int i) { return g_sw[i].step; }
int sim_sched_switch_tid(int i) { return g_sw[i].tid; }
int64_t sim_sched_steps(void) { return g_s.step; }
int sim_sched_overrun(void) { return g_s.overrun; }
/* called (GIL released by ctypes) by each client thread; blocks until chosen */
void sim_thread_enter(int tid) {
    t_tid = tid;
    pthread_mutex_lock(&g_s.mu);
    g_s.state[tid] = 1; g_s.started++;
    if (g_s.started == g_s.nthreads) {         /* last arrival starts the run */
        int nx = choose(0);
        g_s.cur = nx;
        if (nx != tid) pthread_cond_signal(&g_s.cv[nx]);
    }
    while (g_s.cur != tid) pthread_cond_wait(&g_s.cv[tid], &g_s.mu);
    pthread_mutex_unlock(&g_s.mu);
}
void sim_thread_exit(void) {
    pthread_mutex_lock(&g_s.mu);
    g_s.state[t_tid] = 3; g_s.step++;
    int me = t_tid; t_tid = -1;
    int nx = choose(1);
    g_s.cur = nx;
    if (nx >= 0) pthread_cond_signal(&g_s.cv[nx]);
    if (nx < 0) g_s.on = 0;
    (void)me;
    pthread_mutex_unlock(&g_s.mu);
}
/* explicit scheduling point offered to Python code (invoke/return of an op) */
void sim_point(void) { sched_point(); }

/* ------------------------------------------------------------------ */
/* control API (ctypes)                                                 */
static void forget_all(void) {
    for (int i = 0; i < MAXFD; i++) { g_fd[i].used = 0; free(g_fdpath[i]); g_fdpath[i] = NULL; }
    g_nino = 0; g_nextfid = 1;
}
void sim_enable(const char *prefix, uint64_t seed) {
    snprintf(g_prefix, sizeof g_prefix, "%s", prefix); g_plen = strlen(g_prefix);
    g_rng = seed * 2654435761u + 0x1234567; g_vtime_ns = 1700000000ll * 1000000000ll;
    forget_all(); g_llen = 0; g_lcount = 0; g_logging = 0; memset(&g_f, 0, sizeof g_f);
    memset(g_opcount, 0, sizeof g_opcount);
    g_unpriv = 0; g_on = 1;
}
void sim_disable(void) { g_on = 0; }
void sim_seed(uint64_t seed) { g_rng = seed * 2654435761u + 0x1234567; }
void sim_bypass(int on) { t_bypass += on ? 1 : -1; if (t_bypass < 0) t_bypass = 0; }
void sim_log_start(void) { g_llen = 0; g_lcount = 0; g_logging = 1; }
void sim_log_stop(void) { g_logging = 0; }
size_t sim_log_len(void) { return g_llen; }
const void *sim_log_ptr(void) { return g_log; }
uint32_t sim_log_count(void) { return g_lcount; }
void sim_mark(int64_t n) { log_ev(EV_MARK, 0, n, NULL, 0, NULL, 0); }
void sim_arm(uint32_t mask, int64_t nth, int err, int sticky, int mode) {
    memset(&g_f, 0, sizeof g_f); g_f.armed = 1; g_f.mask = mask; g_f.nth = nth; g_f.err = err;
    g_f.sticky = sticky; g_f.mode = mode;
}
int sim_disarm(void) { int r = g_f.fired; g_f.armed = 0; return r; }
uint32_t sim_fired_class(void) { return g_f.fired ? g_f.fired_class : 0; }
int64_t sim_seen(void) { return g_f.seen; }
int64_t sim_opcount(int ix) { return g_opcount[ix]; }
void sim_opcount_reset(void) { memset(g_opcount, 0, sizeof g_opcount); }
int64_t sim_vtime(void) { return g_vtime_ns; }
void sim_clock_jump(int64_t ns) { g_vtime_ns += ns; }
double sim_real_time(void) {
    REAL(int, clock_gettime, (clockid_t, struct timespec *));
    struct timespec ts; real_clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec / 1e9;
}

/* ------------------------------------------------------------------ */
/* path tracking                                                        */
static int tracked(const char *path, char *out, size_t n) {
    if (!g_on || t_bypass || !path) return 0;
    if (path[0] != '/') {
        char cwd[1024];
        if (!getcwd(cwd, sizeof cwd)) return 0;
        if ((size_t)snprintf(out, n, "%s/%s", cwd, path) >= n) return 0;
    } else if ((size_t)snprintf(out, n, "%s", path) >= n) return 0;
    return strncmp(out, g_prefix, g_plen) == 0;
}
static uint32_t fid_of(int fd) {
    struct stat st;
    if (fstat(fd, &st)) return 0;
    for (int i = 0; i < g_nino; i++)
        if (!g_ino[i].dead && g_ino[i].dev == st.st_dev && g_ino[i].ino == st.st_ino) return g_ino[i].fid;
    if (g_nino == g_cino) { g_cino = g_cino ? g_cino * 2 : 64; g_ino = realloc(g_ino, g_cino * sizeof *g_ino); }
    g_ino[g_nino].dev = st.st_dev; g_ino[g_nino].ino = st.st_ino; g_ino[g_nino].dead = 0;
    g_ino[g_nino].fid = g_nextfid++;
    return g_ino[g_nino++].fid;
}
static void ino_dead_if_last(const char *p) {      /* inode number may be recycled */
    struct stat st;
    if (lstat(p, &st) || st.st_nlink > 1) return;
    for (int i = 0; i < g_nino; i++)
        if (!g_ino[i].dead && g_ino[i].dev == st.st_dev && g_ino[i].ino == st.st_ino) { g_ino[i].dead = 1; }
}
/* Emulation of an unprivileged user (the process runs as root): write
 * permission on a tracked path is decided by its mode bits alone. */
void sim_unpriv(int on) { g_unpriv = on; }
static int no_write(const char *p) {
    struct stat st;
    return g_unpriv && stat(p, &st) == 0 && !(st.st_mode & 0222);
}
static int no_write_dir(const char *p) {
    char d[1024]; snprintf(d, sizeof d, "%s", p);
    char *e = strrchr(d, '/');
    if (!g_unpriv || !e || e == d) return 0;
    *e = 0;
    return no_write(d);
}
static int is_tracked_fd(int fd) { return g_on && !t_bypass && fd >= 0 && fd < MAXFD && g_fd[fd].used; }

static int do_open(int (*op)(const char *, int, ...), const char *path, int flags, mode_t mode) {
    char ap[1024];
    if (!tracked(path, ap, sizeof ap)) return op(path, flags, mode);
    sched_point();
    struct stat st; int existed = (stat(ap, &st) == 0);
    int creating = (flags & O_CREAT) && !existed;
    int isdir = existed && S_ISDIR(st.st_mode);
    if (!isdir) {
        int f = fault_check(creating ? C_CREATE : C_OPEN);
        if (f > 0) { errno = f; return -1; }
    }
    if (creating ? no_write_dir(ap) : (!isdir && existed && (flags & O_ACCMODE) != O_RDONLY && no_write(ap))) { errno = EACCES; return -1; }
    int fd = op(path, flags, mode);
    if (fd < 0 || fd >= MAXFD) return fd;
    int e = errno;
    free(g_fdpath[fd]); g_fdpath[fd] = strdup(ap);
    g_fd[fd].used = 1; g_fd[fd].isdir = isdir; g_fd[fd].append = !!(flags & O_APPEND);
    g_fd[fd].fid = isdir ? 0 : fid_of(fd);
    if (creating) { uint32_t m = mode; log_ev(EV_CREATE, g_fd[fd].fid, m, ap, strlen(ap), NULL, 0); }
    else if (!isdir) {
        log_ev(EV_OPENW, g_fd[fd].fid, (flags & O_ACCMODE) != O_RDONLY, ap, strlen(ap), NULL, 0);
        if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) log_ev(EV_TRUNC, g_fd[fd].fid, 0, NULL, 0, NULL, 0);
    }
    errno = e;
    return fd;
}
#define OPENARGS mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); }
static int urandom_fd = -1;
static int wrap_open(int (*op)(const char *, int, ...), const char *path, int flags, mode_t mode) {
    if (g_on && path && !strcmp(path, "/dev/urandom")) { int fd = op(path, flags, mode); urandom_fd = fd; return fd; }
    return do_open(op, path, flags, mode);
}
int open(const char *path, int flags, ...) { REAL(int, open, (const char *, int, ...)); OPENARGS; return wrap_open(real_open, path, flags, mode); }
int open64(const char *path, int flags, ...) { REAL(int, open64, (const char *, int, ...)); OPENARGS; return wrap_open(real_open64, path, flags, mode); }
static int (*g_openat_real)(int, const char *, int, ...);
static int openat_shim(const char *p, int flags, ...) { mode_t mode = 0; va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); return g_openat_real(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *path, int flags, ...) { REAL(int, openat, (int, const char *, int, ...)); OPENARGS; if (d != AT_FDCWD && path && path[0] != '/') return real_openat(d, path, flags, mode); g_openat_real = real_openat; return wrap_open(openat_shim, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { REAL(int, openat64, (int, const char *, int, ...)); OPENARGS; if (d != AT_FDCWD && path && path[0] != '/') return real_openat64(d, path, flags, mode); g_openat_real = real_openat64; return wrap_open(openat_shim, path, flags, mode); }

int close(int fd) {
    REAL(int, close, (int));
    if (fd == urandom_fd) urandom_fd = -1;
    if (fd >= 0 && fd < MAXFD && g_fd[fd].used) { g_fd[fd].used = 0; }
    return real_close(fd);
}
static void fill_random(void *b, size_t n) { unsigned char *p = b; while (n) { uint64_t r = rng_next(); size_t k = n < 8 ? n : 8; memcpy(p, &r, k); p += k; n -= k; } }
ssize_t read(int fd, void *b, size_t n) {
    REAL(ssize_t, read, (int, void *, size_t));
    if (g_on && fd >= 0 && fd == urandom_fd) { fill_random(b, n); return n; }
    if (is_tracked_fd(fd) && !g_fd[fd].isdir) { sched_point(); int f = fault_check(C_READ); if (f > 0) { errno = f; return -1; } }
    return real_read(fd, b, n);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) {
    REAL(ssize_t, pread, (int, void *, size_t, off_t));
    if (is_tracked_fd(fd)) { sched_point(); int f = fault_check(C_READ); if (f > 0) { errno = f; return -1; } }
    return real_pread(fd, b, n, o);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    REAL(ssize_t, pread64, (int, void *, size_t, off64_t));
    if (is_tracked_fd(fd)) { sched_point(); int f = fault_check(C_READ); if (f > 0) { errno = f; return -1; } }
    return real_pread64(fd, b, n, o);
}
static ssize_t log_pwrite(int fd, const void *b, size_t n, off64_t o, ssize_t (*w)(int, const void *, size_t, off64_t)) {
    sched_point();
    int f = fault_check(C_WRITE);
    if (f > 0) { errno = f; return -1; }
    if (f < 0) { n = n / 2; if (!n) { errno = ENOSPC; return -1; } }
    ssize_t r = w(fd, b, n, o);
    if (r > 0) log_ev(EV_WRITE, g_fd[fd].fid, o, b, r, NULL, 0);
    return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(ssize_t, pwrite64, (int, const void *, size_t, off64_t));
    return is_tracked_fd(fd) ? log_pwrite(fd, b, n, o, real_pwrite64) : real_pwrite64(fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
    REAL(ssize_t, pwrite, (int, const void *, size_t, off_t));
    return is_tracked_fd(fd) ? log_pwrite(fd, b, n, o, (ssize_t (*)(int, const void *, size_t, off64_t))real_pwrite) : real_pwrite(fd, b, n, o);
}
ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, write, (int, const void *, size_t));
    if (!is_tracked_fd(fd) || g_fd[fd].isdir) return real_write(fd, b, n);
    sched_point();
    int f = fault_check(C_WRITE);
    if (f > 0) { errno = f; return -1; }
    if (f < 0) { n = n / 2; if (!n) { errno = ENOSPC; return -1; } }
    off64_t o = lseek(fd, 0, g_fd[fd].append ? SEEK_END : SEEK_CUR);
    ssize_t r = real_write(fd, b, n);
    if (r > 0) log_ev(EV_WRITE, g_fd[fd].fid, o, b, r, NULL, 0);
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, writev, (int, const struct iovec *, int));
    if (!is_tracked_fd(fd)) return real_writev(fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; i++) { ssize_t r = write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; }
    return t;
}
static ssize_t emu_copy(int out, int in, off64_t *off, size_t n) {
    char buf[65536]; if (n > sizeof buf) n = sizeof buf;
    ssize_t r = off ? pread64(in, buf, n, *off) : read(in, buf, n);
    if (r <= 0) return r;
    ssize_t w = write(out, buf, r);
    if (w > 0 && off) *off += w;
    if (w >= 0 && w < r && !off) lseek(in, w - r, SEEK_CUR);
    return w;
}
ssize_t sendfile(int out, int in, off_t *off, size_t n) {
    REAL(ssize_t, sendfile, (int, int, off_t *, size_t));
    return is_tracked_fd(out) ? emu_copy(out, in, (off64_t *)off, n) : real_sendfile(out, in, off, n);
}
ssize_t sendfile64(int out, int in, off64_t *off, size_t n) {
    REAL(ssize_t, sendfile64, (int, int, off64_t *, size_t));
    return is_tracked_fd(out) ? emu_copy(out, in, off, n) : real_sendfile64(out, in, off, n);
}
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned fl) {
    REAL(ssize_t, copy_file_range, (int, off64_t *, int, off64_t *, size_t, unsigned));
    if (is_tracked_fd(out)) { errno = EXDEV; return -1; }
    return real_copy_file_range(in, oi, out, oo, n, fl);
}
static int do_ftrunc(int fd, off64_t len, int (*t)(int, off64_t)) {
    if (!is_tracked_fd(fd)) return t(fd, len);
    sched_point();
    int f = fault_check(C_TRUNC);
    if (f > 0) { errno = f; return -1; }
    int r = t(fd, len);
    if (!r) log_ev(EV_TRUNC, g_fd[fd].fid, len, NULL, 0, NULL, 0);
    return r;
}
int ftruncate64(int fd, off64_t len) { REAL(int, ftruncate64, (int, off64_t)); return do_ftrunc(fd, len, real_ftruncate64); }
int ftruncate(int fd, off_t len) { REAL(int, ftruncate, (int, off_t)); return do_ftrunc(fd, len, (int (*)(int, off64_t))real_ftruncate); }
static int do_sync(int fd, int (*s)(int)) {
    if (!is_tracked_fd(fd)) return s(fd);
    sched_point();
    int f = fault_check(g_fd[fd].isdir ? C_DIRSYNC : C_FSYNC);
    if (f > 0) { errno = f; return -1; }
    if (g_fd[fd].isdir) log_ev(EV_DIRSYNC, 0, 0, g_fdpath[fd], strlen(g_fdpath[fd]), NULL, 0);
    else log_ev(EV_FSYNC, g_fd[fd].fid, 0, NULL, 0, NULL, 0);
    return 0;                          /* scratch is memory backed: nothing to flush */
}
int fsync(int fd) { REAL(int, fsync, (int)); return do_sync(fd, real_fsync); }
int fdatasync(int fd) { REAL(int, fdatasync, (int)); return do_sync(fd, real_fdatasync); }

/* The directory for temporary files is a file system of its own. */
static int other_device(const char *a, const char *b) {
    int x = g_plen < strlen(a) && !strncmp(a + g_plen, "/tmp/", 5);
    int y = g_plen < strlen(b) && !strncmp(b + g_plen, "/tmp/", 5);
    return x != y;
}
int rename(const char *a, const char *b) {
    REAL(int, rename, (const char *, const char *));
    char pa[1024], pb[1024];
    int ta = tracked(a, pa, sizeof pa), tb = tracked(b, pb, sizeof pb);
    if (!ta && !tb) return real_rename(a, b);
    sched_point();
    int f = fault_check(C_RENAME);
    if (f > 0) { errno = f; return -1; }
    if (no_write_dir(pa) || no_write_dir(pb)) { errno = EACCES; return -1; }
    if (!ta || !tb || other_device(pa, pb)) { errno = EXDEV; return -1; }
    ino_dead_if_last(pb);
    int r = real_rename(a, b);
    if (!r) log_ev(EV_RENAME, 0, 0, pa, strlen(pa), pb, strlen(pb));
    return r;
}
int renameat(int x, const char *a, int y, const char *b) {
    REAL(int, renameat, (int, const char *, int, const char *));
    if (x == AT_FDCWD && y == AT_FDCWD) return rename(a, b);
    return real_renameat(x, a, y, b);
}
int link(const char *a, const char *b) {
    REAL(int, link, (const char *, const char *));
    char pa[1024], pb[1024];
    if (!tracked(a, pa, sizeof pa) || !tracked(b, pb, sizeof pb)) return real_link(a, b);
    sched_point();
    int f = fault_check(C_RENAME);
    if (f > 0) { errno = f; return -1; }
    if (no_write_dir(pb)) { errno = EACCES; return -1; }
    if (other_device(pa, pb)) { errno = EXDEV; return -1; }
    int r = real_link(a, b);
    if (!r) log_ev(EV_LINK, 0, 0, pa, strlen(pa), pb, strlen(pb));
    return r;
}
int unlink(const char *a) {
    REAL(int, unlink, (const char *));
    char pa[1024];
    if (!tracked(a, pa, sizeof pa)) return real_unlink(a);
    sched_point();
    int f = fault_check(C_UNLINK);
    if (f > 0) { errno = f; return -1; }
    if (no_write_dir(pa)) { errno = EACCES; return -1; }
    ino_dead_if_last(pa);
    int r = real_unlink(a);
    if (!r) log_ev(EV_UNLINK, 0, 0, pa, strlen(pa), NULL, 0);
    return r;
}
int unlinkat(int d, const char *a, int fl) {
    REAL(int, unlinkat, (int, const char *, int));
    if ((d == AT_FDCWD || (a && a[0] == '/')) && !(fl & AT_REMOVEDIR)) return unlink(a);
    return real_unlinkat(d, a, fl);
}
int remove(const char *a) { struct stat st; if (!lstat(a, &st) && S_ISDIR(st.st_mode)) return rmdir(a); return unlink(a); }
int chmod(const char *a, mode_t m) {
    REAL(int, chmod, (const char *, mode_t));
    char pa[1024];
    if (!tracked(a, pa, sizeof pa)) return real_chmod(a, m);
    sched_point();
    int f = fault_check(C_CHMOD);
    if (f > 0) { errno = f; return -1; }
    int r = real_chmod(a, m);
    if (!r) log_ev(EV_CHMOD, 0, m, pa, strlen(pa), NULL, 0);
    return r;
}
int fchmodat(int d, const char *a, mode_t m, int fl) {
    REAL(int, fchmodat, (int, const char *, mode_t, int));
    if (d == AT_FDCWD && fl == 0) return chmod(a, m);
    return real_fchmodat(d, a, m, fl);
}
int access(const char *a, int m) {
    REAL(int, access, (const char *, int));
    char pa[1024];
    if (tracked(a, pa, sizeof pa)) {
        sched_point();
        if ((m & W_OK) && no_write(pa)) { errno = EACCES; return -1; }
    }
    return real_access(a, m);
}

/* ------------------------------------------------------------------ */
/* randomness, wall clock, sleeping                                     */
ssize_t getrandom(void *b, size_t n, unsigned fl) {
    REAL(ssize_t, getrandom, (void *, size_t, unsigned));
    if (!g_on) return real_getrandom(b, n, fl);
    fill_random(b, n); return n;
}
int getentropy(void *b, size_t n) {
    REAL(int, getentropy, (void *, size_t));
    if (!g_on) return real_getentropy(b, n);
    fill_random(b, n); return 0;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
    REAL(int, clock_gettime, (clockid_t, struct timespec *));
    if (!g_on || (c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE)) return real_clock_gettime(c, ts);
    g_vtime_ns += 1000;
    ts->tv_sec = g_vtime_ns / 1000000000ll; ts->tv_nsec = g_vtime_ns % 1000000000ll; return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
    REAL(int, gettimeofday, (struct timeval *, void *));
    if (!g_on) return real_gettimeofday(tv, tz);
    tv->tv_sec = g_vtime_ns / 1000000000ll; tv->tv_usec = g_vtime_ns / 1000 % 1000000; return 0;
}
time_t time(time_t *t) {
    REAL(time_t, time, (time_t *));
    if (!g_on) return real_time(t);
    time_t v = g_vtime_ns / 1000000000ll; if (t) *t = v; return v;
}
static int64_t g_sleeps;
int64_t sim_sleeps(void) { return g_sleeps; }
static int64_t g_lonely;
static int vsleep(int64_t ns) {
    g_sleeps++;
    if (g_s.on && t_tid >= 0) sched_sleep(ns);
    else { g_vtime_ns += ns; if (++g_lonely > 20000) { _exit(98); } }
    return 0;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
    REAL(int, nanosleep, (const struct timespec *, struct timespec *));
    if (!g_on) return real_nanosleep(a, b);
    return vsleep(a->tv_sec * 1000000000ll + a->tv_nsec);
}
int usleep(useconds_t u) {
    REAL(int, usleep, (useconds_t));
    if (!g_on) return real_usleep(u);
    return vsleep((int64_t)u * 1000);
}
unsigned sleep(unsigned s) {
    REAL(unsigned, sleep, (unsigned));
    if (!g_on) return real_sleep(s);
    return vsleep((int64_t)s * 1000000000ll);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
    REAL(int, clock_nanosleep, (clockid_t, int, const struct timespec *, struct timespec *));
    if (!g_on) return real_clock_nanosleep(c, fl, a, b);
    return vsleep(a->tv_sec * 1000000000ll + a->tv_nsec);
}

/* ------------------------------------------------------------------ */
/* SQLite: interrupts, signals at statement steps, failing allocations  */
typedef struct sqlite3 sqlite3; typedef struct sqlite3_stmt sqlite3_stmt;
static struct { int armed; int64_t nth, seen; int mode; int fired; int vm_ops; sqlite3 *db; } g_q;
static int (*r_step)(sqlite3_stmt *); static sqlite3 *(*r_dbh)(sqlite3_stmt *);
static void (*r_prog)(sqlite3 *, int, int (*)(void *), void *);
static int64_t g_steps; static int (*r_busy)(sqlite3_stmt *);
/* SQLite also calls this after a statement's last opcode, when its effect can
   no longer be prevented: a finished statement is not interrupted (it would
   claim to have failed although, say, its commit has taken place) */
static int prog_cb(void *x) {
    if (g_q.armed && !g_q.fired && r_busy((sqlite3_stmt *)x)) { g_q.fired = 1; return 1; }
    return 0;
}
/* mode 1: SQLITE_INTERRUPT after vm_ops virtual-machine opcodes of the nth step;
   mode 2: SIGINT to this process after the nth step */
void sim_sql_arm(int64_t nth, int mode, int vm_ops) { memset(&g_q, 0, sizeof g_q); g_q.armed = 1; g_q.nth = nth; g_q.mode = mode; g_q.vm_ops = vm_ops; }
int sim_sql_disarm(void) { g_q.armed = 0; return g_q.fired; }
int64_t sim_sql_seen(void) { return g_q.seen; }
int64_t sim_sql_steps(void) { return g_steps; }
int sqlite3_step(sqlite3_stmt *st) {
    if (!r_step) {
        r_step = dlsym(RTLD_NEXT, "sqlite3_step"); r_dbh = dlsym(RTLD_NEXT, "sqlite3_db_handle");
        r_prog = dlsym(RTLD_NEXT, "sqlite3_progress_handler"); r_busy = dlsym(RTLD_NEXT, "sqlite3_stmt_busy");
    }
    g_steps++;
    if (g_s.on && t_tid >= 0) sched_point();
    if (!st || !g_on || !g_q.armed || t_bypass || g_q.fired) return r_step(st);
    if (++g_q.seen != g_q.nth && !(g_q.seen > g_q.nth && g_q.mode == 1)) return r_step(st);
    if (g_q.mode == 1) {
        sqlite3 *db = r_dbh(st);
        r_prog(db, g_q.vm_ops > 0 ? g_q.vm_ops : 1, prog_cb, st);
        int rc = r_step(st);
        r_prog(db, 0, NULL, NULL);
        return rc;
    }
    int rc = r_step(st);
    if (g_q.mode == 2) { g_q.fired = 1; raise(SIGINT); }
    return rc;
}
/* allocator wrapper installed through sqlite3_config before SQLite starts */
struct memm { void *(*xMalloc)(int); void (*xFree)(void *); void *(*xRealloc)(void *, int); int (*xSize)(void *); int (*xRoundup)(int); int (*xInit)(void *); void (*xShutdown)(void *); void *pAppData; };
static struct memm g_mem0;
static struct { int armed; int64_t nth, seen; int fired; int run; } g_m;
static int64_t g_allocs;
static int mem_fail(void) {
    g_allocs++;
    if (!g_m.armed || t_bypass) return 0;
    ++g_m.seen;
    if (g_m.seen >= g_m.nth && g_m.seen < g_m.nth + g_m.run) { g_m.fired = 1; return 1; }
    return 0;
}
static void *m_malloc(int n) { return mem_fail() ? NULL : g_mem0.xMalloc(n); }
static void *m_realloc(void *p, int n) { return mem_fail() ? NULL : g_mem0.xRealloc(p, n); }
int sim_install_allocator(void) {
    int (*cfg)(int, ...) = dlsym(RTLD_DEFAULT, "sqlite3_config");
    if (!cfg) return -1;
    int rc = cfg(5 /*GETMALLOC*/, &g_mem0);
    if (rc) return rc;
    struct memm m = g_mem0; m.xMalloc = m_malloc; m.xRealloc = m_realloc;
    static struct memm keep; keep = m;
    return cfg(4 /*MALLOC*/, &keep);
}
void sim_mem_arm(int64_t nth, int run) { memset(&g_m, 0, sizeof g_m); g_m.armed = 1; g_m.nth = nth; g_m.run = run; }
int sim_mem_disarm(void) { g_m.armed = 0; return g_m.fired; }
int64_t sim_mem_seen(void) { return g_m.seen; }

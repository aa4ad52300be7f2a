/* LD_PRELOAD shim used by the conformance drivers.
 *  VT_FILE     shared file (int64 sec, int64 usec, ...): virtual wall clock; frozen at that value
 *              its third and fourth numbers cut the byte streams of sockets: a read (write) mode and a seed;
 *              mode 1: one byte at a time, 2: short pieces and spurious EAGAINs, 3: pieces of up to a few hundred bytes
 *  VT_SCALE    factor by which the monotonic clock runs faster (1-second timers tick quickly)
 *  VT_PERTURB  1/N probability of a short pause around pthread_mutex_lock/unlock
 *  VT_FNJIT    1/N probability of a short pause at entry to or return from a function of the server (built to call us there)
 *              the tenth number of VT_FILE is a gate: reads from sockets wait (a quarter of a second at most) until it is 0;
 *              the eleventh counts the threads waiting
 *              the twelfth makes replies that are longer than it trickle, a few bytes now and then, until it is 0
 *  CRASH_DIR   only files below this directory are counted
 *  CRASH_AT    _exit(137) just before the n-th counted persistence call (1-based)
 *  CRASH_MODE  0: before the call; 1: half of a write is done first; 2: after the call
 *              3: the call fails with ENOSPC and the process lives on
 *  CRASH_ONLY  "what" or "what name-prefix": count only such calls
 *  CRASH_LOG   file receiving one line per counted call (mmap-free, O_APPEND)
 *              the sixth number of VT_FILE counts down to such a moment as well, the seventh is its mode;
 *              the eighth is the part of a write to be done in mode 1, in thousandths
 *  VT_STRICT   waits of half a second and more end only when the virtual clock gets there
 *              (as the ninth number of VT_FILE tells it: after the server's own clock has been set)
 *              the fifth number of VT_FILE slows the thread writing a snapshot by that many microseconds per unlock
 */
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <execinfo.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>

static volatile int64_t *vt;
static double scale = 1.0;
static int perturb, fnjit;
static struct timespec mono0, raw0;
static int (*r_mutex_lock)(pthread_mutex_t *);
static int (*r_mutex_unlock)(pthread_mutex_t *);
static int (*r_signal)(pthread_cond_t *);
static int (*r_timedwait)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
static int (*r_epoll_wait)(int, struct epoll_event *, int, int);
static int inited;

static char crash_dir[PATH_MAX];
static int crash_dirlen;
static long crash_at = -1;
static int crash_mode, strict;
static const char *crash_only;
static __thread int snapper;
static int crash_logfd = -1;
static long crash_count;
static volatile int64_t *crash_shm; /* [0] counter shared over restarts, [1] armed */
static pthread_mutex_t crash_mx = PTHREAD_MUTEX_INITIALIZER;

static int raw_clock(clockid_t c, struct timespec *ts) { return syscall(SYS_clock_gettime, c, ts); }

static void bt(int sig)
{
    void *f[40];
    backtrace_symbols_fd(f, backtrace(f, 40), 2);
    signal(sig, SIG_DFL);
    raise(sig);
}

__attribute__((constructor)) static void init(void)
{
    if (inited) return;
    inited = 1;
    r_mutex_lock = dlsym(RTLD_NEXT, "pthread_mutex_lock");
    r_mutex_unlock = dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    r_timedwait = dlvsym(RTLD_NEXT, "pthread_cond_timedwait", "GLIBC_2.3.2");
    r_signal = dlvsym(RTLD_NEXT, "pthread_cond_signal", "GLIBC_2.3.2");
    if (!r_signal) r_signal = dlsym(RTLD_NEXT, "pthread_cond_signal");
    if (!r_timedwait) r_timedwait = dlsym(RTLD_NEXT, "pthread_cond_timedwait");
    r_epoll_wait = dlsym(RTLD_NEXT, "epoll_wait");
    const char *s = getenv("VT_FILE");
    if (s) {
        int fd = open(s, O_RDWR);
        if (fd >= 0) {
            void *p = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) vt = p;
            close(fd);
        }
    }
    if ((s = getenv("VT_SCALE"))) scale = atof(s);
    if (scale < 1.0) scale = 1.0;
    if ((s = getenv("VT_PERTURB"))) perturb = atoi(s);
    if ((s = getenv("VT_FNJIT"))) fnjit = atoi(s);
    if (getenv("VT_STRICT")) strict = 1;
    if (getenv("SHIM_BT")) { signal(SIGSEGV, bt); signal(SIGABRT, bt); }
    raw_clock(CLOCK_MONOTONIC, &mono0);
    if ((s = getenv("CRASH_DIR"))) {
        if (!realpath(s, crash_dir)) snprintf(crash_dir, sizeof crash_dir, "%s", s);
        crash_dirlen = strlen(crash_dir);
        if ((s = getenv("CRASH_AT"))) crash_at = atol(s);
        if ((s = getenv("CRASH_MODE"))) crash_mode = atoi(s);
        crash_only = getenv("CRASH_ONLY");
        if ((s = getenv("CRASH_LOG"))) crash_logfd = open(s, O_WRONLY | O_CREAT | O_APPEND, 0644);
    }
}

/* ---------------------------------------------------------------- time */
static volatile time_t picked;
int gettimeofday(struct timeval *tv, void *tz)
{
    if (!inited) init();
    if (vt) {
        tv->tv_sec = vt[0]; tv->tv_usec = vt[1];
        if (syscall(SYS_gettid) == getpid()) picked = tv->tv_sec;
        return 0;
    }
    struct timespec ts; raw_clock(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *t)
{
    if (!inited) init();
    time_t r;
    if (vt) r = picked ? picked : vt[0];    /* (in step with the time the server's clock handler has picked up) */
    else { struct timespec ts; raw_clock(CLOCK_REALTIME, &ts); r = ts.tv_sec; }
    if (t) *t = r;
    return r;
}
int clock_gettime(clockid_t c, struct timespec *ts)
{
    if (!inited) init();
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) {
        if (vt) { ts->tv_sec = vt[0]; ts->tv_nsec = vt[1] * 1000; return 0; }
        return raw_clock(c, ts);
    }
    if (scale > 1.0 && (c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_MONOTONIC_RAW || c == CLOCK_BOOTTIME)) {
        struct timespec n; raw_clock(CLOCK_MONOTONIC, &n);
        double d = (n.tv_sec - mono0.tv_sec) + (n.tv_nsec - mono0.tv_nsec) / 1e9;
        d *= scale;
        int64_t ns = (int64_t)(d * 1e9) + mono0.tv_nsec;
        ts->tv_sec = mono0.tv_sec + ns / 1000000000LL;
        ts->tv_nsec = ns % 1000000000LL;
        return 0;
    }
    return raw_clock(c, ts);
}
int epoll_wait(int fd, struct epoll_event *ev, int max, int timeout)
{
    if (!inited) init();
    if (timeout > 0 && scale > 1.0) {
        int t = (int)(timeout / scale);
        timeout = t < 1 ? 1 : t;
    }
    return r_epoll_wait(fd, ev, max, timeout);
}
static volatile unsigned signals[256];
int pthread_cond_signal(pthread_cond_t *c)
{
    if (!inited) init();
    __sync_fetch_and_add(&signals[((uintptr_t)c >> 4) & 255], 1);
    return r_signal(c);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *abs)
{
    if (!inited) init();
    if (!vt) return r_timedwait(c, m, abs);
    int64_t d = (int64_t)(abs->tv_sec - vt[0]) * 1000000000LL + (abs->tv_nsec - vt[1] * 1000);
    if (strict && d >= 500000000LL) {
        /* (a signal that comes between two of the short waits must end the long one) */
        unsigned h = ((uintptr_t)c >> 4) & 255, was = signals[h];
        while ((int64_t)(abs->tv_sec - vt[8]) * 1000000000LL + (abs->tv_nsec - vt[1] * 1000) > 0) {
            if (signals[h] != was) return 0;
            struct timespec n; raw_clock(CLOCK_REALTIME, &n);
            n.tv_nsec += 2000000; if (n.tv_nsec >= 1000000000) { n.tv_sec++; n.tv_nsec -= 1000000000; }
            int r = r_timedwait(c, m, &n);
            if (r != ETIMEDOUT) return r;
        }
        return ETIMEDOUT;
    }
    if (d < 0) d = 0;
    if (d > 1000000000LL) d = 1000000000LL;
    d = (int64_t)(d / (scale > 10 ? 10 : scale));
    struct timespec n; raw_clock(CLOCK_REALTIME, &n);
    int64_t ns = n.tv_nsec + d;
    n.tv_sec += ns / 1000000000LL; n.tv_nsec = ns % 1000000000LL;
    return r_timedwait(c, m, &n);
}

/* ---------------------------------------------------------------- schedule perturbation */
static __thread uint32_t rng;
static inline void jitter(int n)
{
    if (!rng) rng = (uint32_t)(uintptr_t)&rng * 2654435761u ^ (uint32_t)syscall(SYS_gettid) * 40503u | 1;
    rng ^= rng << 13; rng ^= rng >> 17; rng ^= rng << 5;
    if (rng % n == 0) {
        if ((rng >> 8) % 4 == 0) { struct timespec t = {0, (long)((rng >> 12) % 60000)}; syscall(SYS_nanosleep, &t, NULL); }
        else sched_yield();
    }
}
int pthread_mutex_lock(pthread_mutex_t *m)
{
    if (!inited) init();
    if (!r_mutex_lock) r_mutex_lock = dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (perturb) jitter(perturb);
    return r_mutex_lock(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
    if (!inited) init();
    if (!r_mutex_unlock) r_mutex_unlock = dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    int r = r_mutex_unlock(m);
    if (perturb) jitter(perturb);
    if (snapper && vt && vt[4] > 0) {
        struct timespec t = {vt[4] / 1000000, vt[4] % 1000000 * 1000};
        syscall(SYS_nanosleep, &t, NULL);
    }
    return r;
}

void __cyg_profile_func_enter(void *f, void *site) { if (fnjit) jitter(fnjit); }
void __cyg_profile_func_exit(void *f, void *site) { if (fnjit) jitter(fnjit); }

/* ---------------------------------------------------------------- cutting the byte streams */
static __thread uint64_t crng;
static uint32_t crand(void)
{
    if (!crng) crng = (uint64_t)vt[3] * 0x9E3779B97F4A7C15ull + 0x1234567 + (uint64_t)syscall(SYS_gettid);
    crng ^= crng << 13; crng ^= crng >> 7; crng ^= crng << 17;
    return (uint32_t)(crng >> 16);
}
static int issock(int fd) { struct stat st; return fstat(fd, &st) == 0 && S_ISSOCK(st.st_mode); }
/* how many of n bytes may pass now; 0 means none (EAGAIN) */
static size_t cut(size_t n)
{
    int mode = (int)vt[2];
    if (mode == 1) return 1;
    uint32_t r = crand();
    if (mode == 2) {
        if (r % 4 == 0) return 0;
        size_t k = 1 + (r >> 3) % ((r >> 2) % 2 ? 4 : 40);
        return k < n ? k : n;
    }
    if (r % 8 == 0) return 0;
    size_t k = 1 + (r >> 3) % 400;
    return k < n ? k : n;
}
static void gate(void)
{
    struct timespec a, b; raw_clock(CLOCK_MONOTONIC, &a);
    __sync_fetch_and_add(&vt[10], 1);
    while (vt[9]) {
        sched_yield();
        raw_clock(CLOCK_MONOTONIC, &b);
        if ((b.tv_sec - a.tv_sec) * 1000 + (b.tv_nsec - a.tv_nsec) / 1000000 > 250) break;
    }
    __sync_fetch_and_sub(&vt[10], 1);
}
ssize_t read(int fd, void *b, size_t n)
{
    if (vt && vt[9] && n && issock(fd)) gate();
    if (vt && vt[2] && n && issock(fd)) {
        size_t k = cut(n);
        if (!k) { errno = EAGAIN; return -1; }
        n = k;
    }
    return syscall(SYS_read, fd, b, n);
}
ssize_t sendmsg(int fd, const struct msghdr *m, int flags)
{
    if (vt && vt[11] && m->msg_iovlen) {
        size_t all = 0;
        for (size_t i = 0; i < m->msg_iovlen; i++) all += m->msg_iov[i].iov_len;
        if (all > (size_t)vt[11]) {
            if (crand() % 64) { sched_yield(); errno = EAGAIN; return -1; }
            size_t i = 0; while (i < m->msg_iovlen && !m->msg_iov[i].iov_len) i++;
            struct iovec v = m->msg_iov[i]; if (v.iov_len > 50) v.iov_len = 50;
            struct msghdr h = *m; h.msg_iov = &v; h.msg_iovlen = 1;
            return syscall(SYS_sendmsg, fd, &h, flags);
        }
    }
    if (vt && vt[2] && m->msg_iovlen) {
        size_t all = 0, k; struct iovec v;
        for (size_t i = 0; i < m->msg_iovlen; i++) all += m->msg_iov[i].iov_len;
        if (all) {
            k = cut(all < 4096 ? all : 4096);
            if (!k) { errno = EAGAIN; return -1; }
            size_t i = 0; while (i < m->msg_iovlen && !m->msg_iov[i].iov_len) i++;
            /* only the first piece, or part of it */
            v.iov_base = m->msg_iov[i].iov_base; v.iov_len = k < m->msg_iov[i].iov_len ? k : m->msg_iov[i].iov_len;
            struct msghdr h = *m; h.msg_iov = &v; h.msg_iovlen = 1;
            return syscall(SYS_sendmsg, fd, &h, flags);
        }
    }
    return syscall(SYS_sendmsg, fd, m, flags);
}

/* ---------------------------------------------------------------- crash points */
static int fdpath(int fd, char *buf, size_t n)
{
    char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t k = readlink(l, buf, n - 1);
    if (k < 0) return 0;
    buf[k] = 0;
    return 1;
}
static int under(const char *p)
{
    return crash_dirlen && strncmp(p, crash_dir, crash_dirlen) == 0 && (p[crash_dirlen] == '/' || !p[crash_dirlen]);
}
static void note(const char *what, const char *path, long a, long b)
{
    if (crash_logfd >= 0) {
        char l[PATH_MAX + 128];
        const char *base = strrchr(path, '/'); base = base ? base + 1 : path;
        int n = snprintf(l, sizeof l, "%ld %s %s %ld %ld\n", crash_count, what, base, a, b);
        syscall(SYS_write, crash_logfd, l, n);
    }
}
/* returns 1 when this call is the crash point, 2 when it is to fail */
static int tick(const char *what, const char *path, long a, long b)
{
    int hit = 0;
    if (crash_only) {
        size_t n = strlen(what);
        const char *base = strrchr(path, '/'); base = base ? base + 1 : path;
        if (strncmp(crash_only, what, n) || (crash_only[n] == ' ' ? strncmp(base, crash_only + n + 1, strlen(crash_only + n + 1)) : crash_only[n])) {
            r_mutex_lock(&crash_mx); note(what, path, a, b); r_mutex_unlock(&crash_mx);
            return 0;
        }
    }
    r_mutex_lock(&crash_mx);
    crash_count++;
    note(what, path, a, b);
    hit = crash_count == crash_at;
    if (vt && vt[5] > 0 && --vt[5] == 0) { hit = 1; crash_mode = vt[6]; }
    if (hit && crash_mode == 3) { r_mutex_unlock(&crash_mx); errno = ENOSPC; return 2; }
    if (!hit) r_mutex_unlock(&crash_mx); /* on a hit nobody else proceeds */
    return hit;
}
static void die(void) { syscall(SYS_exit_group, 137); }

ssize_t write(int fd, const void *b, size_t n)
{
    char p[PATH_MAX];
    if (!inited) init();
    if (crash_dirlen && fd > 2 && fdpath(fd, p, sizeof p) && under(p)) {
        off_t pos = lseek(fd, 0, SEEK_CUR);
        int hit = tick("write", p, pos, n);
        if (hit == 2) return -1;
        if (hit) {
            if (crash_mode == 1) syscall(SYS_write, fd, b, vt && vt[7] > 0 && vt[7] < 1000 ? n * vt[7] / 1000 : n / 2);
            if (crash_mode == 2) syscall(SYS_write, fd, b, n);
            die();
        }
    }
    return syscall(SYS_write, fd, b, n);
}
#define SIMPLE(name, sysn, what) \
int name(int fd) { char p[PATH_MAX]; if (!inited) init(); \
    if (crash_dirlen && fdpath(fd, p, sizeof p) && under(p)) { struct stat st; fstat(fd, &st); \
        int hit = tick(what, p, st.st_size, 0); if (hit == 2) return -1; \
        if (hit) { if (crash_mode == 2) syscall(sysn, fd); die(); } } \
    int r = syscall(sysn, fd); return r; }
SIMPLE(fsync, SYS_fsync, "fsync")
SIMPLE(fdatasync, SYS_fdatasync, "fdatasync")
int ftruncate(int fd, off_t len)
{
    char p[PATH_MAX]; if (!inited) init();
    if (crash_dirlen && fdpath(fd, p, sizeof p) && under(p)) {
        int hit = tick("ftruncate", p, len, 0); if (hit == 2) return -1;
        if (hit) { if (crash_mode == 2) syscall(SYS_ftruncate, fd, len); die(); }
    }
    return syscall(SYS_ftruncate, fd, len);
}
static const char *absp(const char *path, char *buf)
{
    if (path[0] == '/') { snprintf(buf, PATH_MAX, "%s", path); return buf; }
    char cwd[PATH_MAX]; if (!getcwd(cwd, sizeof cwd)) cwd[0] = 0;
    snprintf(buf, PATH_MAX, "%s/%s", cwd, path);
    return buf;
}
int rename(const char *a, const char *b)
{
    char p[PATH_MAX]; if (!inited) init();
    if (crash_dirlen && under(absp(b, p))) {
        int hit = tick("rename", p, 0, 0); if (hit == 2) return -1;
        if (hit) { if (crash_mode == 2) syscall(SYS_rename, a, b); die(); }
    }
    return syscall(SYS_rename, a, b);
}
int unlink(const char *a)
{
    char p[PATH_MAX]; if (!inited) init();
    if (crash_dirlen && under(absp(a, p))) {
        int hit = tick("unlink", p, 0, 0); if (hit == 2) return -1;
        if (hit) { if (crash_mode == 2) syscall(SYS_unlink, a); die(); }
    }
    return syscall(SYS_unlink, a);
}
int open(const char *path, int flags, ...)
{
    mode_t mode = 0; char p[PATH_MAX];
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
    if (crash_dirlen && (flags & O_CREAT) && under(absp(path, p))) {
        const char *base = strrchr(p, '/');
        if (base && !strncmp(base, "/snapshot_", 10)) snapper = 1;
        int hit = tick("open", p, 0, 0); if (hit == 2) return -1;
        if (hit) { if (crash_mode == 2) syscall(SYS_openat, AT_FDCWD, path, flags, mode); die(); }
    }
    return syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}

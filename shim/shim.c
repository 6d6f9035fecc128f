// Preloaded into the dld executable.  Owns the nondeterminism of one dld run:
//  * getrandom()     -> the hash seed the harness chose
//  * fork server     -> the harness sends (seed, fault, cwd, argv), gets (wait status, #events)
//  * file-system calls are numbered; call number N can be made to fail, be cut short, or kill the process
// Without DLDMC_SERVER it runs one plain execution configured by DLDMC_SEED / DLDMC_FAULT (for replays).
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MAXEV 65536
struct shared {
    uint32_t nev;
    uint8_t ev[MAXEV];
};
static struct shared *sh;
static struct shared dummy;
static uint64_t seed;
static uint32_t fkind, findex;  // see enum
static uint32_t fkind2, findex2;  // a second fault
static int armed;
enum { F_NONE, F_EIO, F_ENOSPC, F_SHORT, F_KILL_BEFORE, F_KILL_AFTER, F_EINTR, F_TORN,
       // a single byte; from that call on: a few bytes at a time, no room for any write, every call fails
       F_ONE, F_DRIP, F_FULL, F_DEAD };
enum { E_OPEN = 1, E_READ, E_WRITE, E_CHMOD, E_RENAME, E_UNLINK, E_TRUNC, E_SYNC, E_OPENW, E_LINK, E_STAT };

// A generator rather than the raw seed, so that neighbouring seeds give unrelated orders.
static uint64_t mix(uint64_t *s) {
    uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
    (void)f;
    uint64_t s = seed;
    unsigned char *p = b;
    for (size_t i = 0; i < n; i += 8) {
        uint64_t v = mix(&s);
        memcpy(p + i, &v, n - i < 8 ? n - i : 8);
    }
    return (ssize_t)n;
}

// Whatever else a run might take for its own belongs to the seed too (0: the real one).
static uint64_t of_seed(uint64_t salt) {
    uint64_t s = seed ^ salt;
    return mix(&s);
}
int clock_gettime(clockid_t c, struct timespec *t) {
    int r = (int)syscall(SYS_clock_gettime, c, t);
    if (!r && seed && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) t->tv_sec = (time_t)(of_seed(1) & 0x7fffffff);
    return r;
}
int gettimeofday(struct timeval *restrict t, void *restrict z) {
    struct timespec x;
    (void)z;
    clock_gettime(CLOCK_REALTIME, &x);
    t->tv_sec = x.tv_sec;
    t->tv_usec = x.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *t) {
    struct timespec x;
    clock_gettime(CLOCK_REALTIME, &x);
    if (t) *t = x.tv_sec;
    return x.tv_sec;
}
pid_t getpid(void) {
    return seed ? (pid_t)(of_seed(2) % 4000000 + 2) : (pid_t)syscall(SYS_getpid);
}
// Addresses of later allocations in another order.
static void shuffle_heap(void) {
    void *v[64];
    uint64_t s = seed ^ 3;
    if (!seed) return;
    for (int i = 0; i < 64; i++) v[i] = malloc(mix(&s) % (i % 4 ? 512 : 8192));
    for (int i = 0; i < 64; i++)
        if (mix(&s) % 3) free(v[i]);
}

static int hits(uint32_t f, uint32_t at, uint32_t i, int kind) {
    if (!f || i < at || (f == F_FULL && kind != E_WRITE && kind != E_TRUNC)) return 0;
    return i == at || f >= F_DRIP;
}
// Returns 0 to proceed, otherwise the fault to apply at this call.
static int event(int kind) {
    if (!armed) return 0;
    uint32_t i = sh->nev++;
    if (i < MAXEV) sh->ev[i] = (uint8_t)kind;
    if (hits(fkind, findex, i, kind)) return (int)fkind;
    if (hits(fkind2, findex2, i, kind)) return (int)fkind2;
    return 0;
}
static void die(void) {
    syscall(SYS_kill, (pid_t)syscall(SYS_getpid), SIGKILL);
    for (;;) pause();
}
static int pre(int kind, int *after) {  // 1: return -1 with errno set
    int f = event(kind);
    *after = 0;
    switch (f) {
        case F_EIO: errno = EIO; return 1;
        case F_ENOSPC: errno = ENOSPC; return 1;
        case F_EINTR: errno = EINTR; return 1;
        case F_KILL_BEFORE: die(); break;
        case F_KILL_AFTER: *after = 1; break;
        case F_SHORT: *after = 2; break;
        case F_TORN: *after = 3; break;
        case F_ONE: *after = 4; break;
        case F_DRIP: *after = 5; break;
        case F_FULL: errno = ENOSPC; return 1;
        case F_DEAD: errno = EIO; return 1;
    }
    return 0;
}
#define FIN(r) do { if (after == 1) { int e_ = errno; die(); errno = e_; } return r; } while (0)

static size_t cut(int after, size_t n) {
    if (n < 2) return n;
    switch (after) {
        case 2: return (n + 1) / 2;
        case 3: return n - 1;
        case 4: return 1;
        case 5: return n > 4096 ? 4096 : n;
    }
    return n;
}
static int do_open(int dir, const char *p, int fl, mode_t m) {
    int after;
    int w = (fl & O_ACCMODE) != O_RDONLY;
    if (pre(w ? E_OPENW : E_OPEN, &after)) return -1;
    int r = (int)syscall(SYS_openat, dir, p, fl, m);
    FIN(r);
}
#define MODE mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int fl, ...) { MODE return do_open(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { MODE return do_open(AT_FDCWD, p, fl | O_LARGEFILE, m); }
int openat(int d, const char *p, int fl, ...) { MODE return do_open(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { MODE return do_open(d, p, fl | O_LARGEFILE, m); }
ssize_t read(int fd, void *b, size_t n) {
    int after = 0;
    if (fd > 2 && pre(E_READ, &after)) return -1;
    if (after >= 2) n = after == 5 ? cut(5, n) : n > 1 ? 1 : n;
    ssize_t r = syscall(SYS_read, fd, b, n);
    FIN(r);
}
ssize_t write(int fd, const void *b, size_t n) {
    int after = 0;
    if (fd > 2 && pre(E_WRITE, &after)) return -1;
    n = cut(after, n);
    ssize_t r = syscall(SYS_write, fd, b, n);
    if (after == 3) die();
    FIN(r);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    int after = 0;
    if (fd > 2 && pre(E_WRITE, &after)) return -1;
    struct iovec one;
    if (after >= 2) {
        for (int i = 0; i < c; i++)
            if (v[i].iov_len) {
                one = v[i];
                one.iov_len = cut(after, one.iov_len);
                v = &one;
                c = 1;
                break;
            }
    }
    ssize_t r = syscall(SYS_writev, fd, v, c);
    if (after == 3) die();
    FIN(r);
}
static ssize_t do_pwrite(int fd, const void *b, size_t n, off_t o) {
    int after = 0;
    if (fd > 2 && pre(E_WRITE, &after)) return -1;
    n = cut(after, n);
    ssize_t r = syscall(SYS_pwrite64, fd, b, n, o);
    if (after == 3) die();
    FIN(r);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
#define W1(ret, name, params, kind, call) \
    ret name params { int after; if (pre(kind, &after)) return -1; ret r = (ret)(call); FIN(r); }
W1(int, fchmod, (int fd, mode_t m), E_CHMOD, syscall(SYS_fchmod, fd, m))
W1(int, chmod, (const char *p, mode_t m), E_CHMOD, syscall(SYS_fchmodat, AT_FDCWD, p, m))
W1(int, rename, (const char *a, const char *b), E_RENAME, syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b))
W1(int, link, (const char *a, const char *b), E_LINK, syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0))
W1(int, unlink, (const char *p), E_UNLINK, syscall(SYS_unlinkat, AT_FDCWD, p, 0))
W1(int, ftruncate, (int fd, off_t n), E_TRUNC, syscall(SYS_ftruncate, fd, n))
W1(int, ftruncate64, (int fd, off_t n), E_TRUNC, syscall(SYS_ftruncate, fd, n))
W1(int, fsync, (int fd), E_SYNC, syscall(SYS_fsync, fd))
W1(int, fdatasync, (int fd), E_SYNC, syscall(SYS_fdatasync, fd))

static int rd(void *b, size_t n) {
    char *p = b;
    while (n) {
        ssize_t r = syscall(SYS_read, 0, p, n);
        if (r <= 0) {
            if (r < 0 && errno == EINTR) continue;
            return -1;
        }
        p += r;
        n -= (size_t)r;
    }
    return 0;
}
static void wr(const void *b, size_t n) {
    const char *p = b;
    while (n) {
        ssize_t r = syscall(SYS_write, 1, p, n);
        if (r <= 0) {
            if (r < 0 && errno == EINTR) continue;
            _exit(3);
        }
        p += r;
        n -= (size_t)r;
    }
}

static void redirect(const char *path, int to) {
    int fd = (int)syscall(SYS_openat, AT_FDCWD, path, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
    if (fd < 0) _exit(121);
    dup2(fd, to);
    if (fd != to) syscall(SYS_close, fd);
}

// What is not an environment variable: "@umask=octal", "@cwd=directory", "@touch=time of the files named by arguments", "@stdin=file".
static int surroundings(const char *s, int argc, char **argv) {
    if (!strncmp(s, "@umask=", 7)) umask((mode_t)strtoul(s + 7, 0, 8));
    else if (!strncmp(s, "@cwd=", 5)) {
        if (chdir(s + 5)) _exit(122);
    } else if (!strncmp(s, "@touch=", 7)) {
        struct timespec t[2] = {{strtol(s + 7, 0, 0), 0}, {strtol(s + 7, 0, 0), 0}};
        for (int i = 1; i < argc; i++) utimensat(AT_FDCWD, argv[i], t, 0);
    } else if (!strcmp(s, "@stdin=closed")) syscall(SYS_close, 0);
    else return 0;
    return 1;
}

static char **serve(int *argc, char **argv) {
    char **env = argv + *argc + 1;
    int nenv = 0;
    while (env[nenv]) nenv++;
    sh = mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (sh == MAP_FAILED) _exit(3);
    for (;;) {
        uint32_t len;
        if (rd(&len, 4)) _exit(0);
        char *buf = malloc(len + 1);
        if (!buf || rd(buf, len)) _exit(0);
        buf[len] = 0;
        // seed u64, fkind u32, findex u32, timeout_ms u32, argc u32, envc u32, strings: cwd, out, err, argv..., env...
        uint32_t h[5];
        memcpy(&seed, buf, 8);
        memcpy(h, buf + 8, 20);
        sh->nev = 0;
        pid_t pid = fork();
        if (pid < 0) _exit(3);
        if (pid == 0) {
            char *p = buf + 28;
            char *cwd = p;
            p += strlen(p) + 1;
            char *out = p;
            p += strlen(p) + 1;
            char *err = p;
            p += strlen(p) + 1;
            if (chdir(cwd)) _exit(122);
            int n = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDONLY, 0);
            dup2(n, 0);
            if (n) syscall(SYS_close, n);
            redirect(out, 1);
            redirect(err, 2);
            fkind = h[0] & 0xff;
            fkind2 = h[0] >> 8;
            findex = h[1] & 0xffff;
            findex2 = h[1] >> 16;
            struct itimerval tv = {{0, 0}, {h[2] / 1000, (h[2] % 1000) * 1000}};
            setitimer(ITIMER_REAL, &tv, 0);
            struct rlimit rl = {2ul << 30, 2ul << 30};
            setrlimit(RLIMIT_AS, &rl);
            rl.rlim_cur = rl.rlim_max = 256ul << 20;
            setrlimit(RLIMIT_FSIZE, &rl);
            rl.rlim_cur = rl.rlim_max = 0;
            setrlimit(RLIMIT_CORE, &rl);
            char **nv = malloc(sizeof(char *) * (h[3] + h[4] + 2 + (size_t)nenv));
            uint32_t i;
            for (i = 0; i < h[3]; i++) {
                nv[i] = p;
                p += strlen(p) + 1;
            }
            nv[i] = 0;
            i++;
            for (uint32_t k = 0; k < h[4]; k++) {
                if (!surroundings(p, (int)h[3], nv)) nv[i++] = p;
                p += strlen(p) + 1;
            }
            for (int j = 0; j <= nenv; j++) nv[i + (uint32_t)j] = env[j];
            environ = nv + h[3] + 1;
            shuffle_heap();
            *argc = (int)h[3];
            armed = 1;
            return nv;
        }
        free(buf);
        int st;
        while (waitpid(pid, &st, 0) < 0)
            if (errno != EINTR) _exit(3);
        uint32_t n = sh->nev, c = n < MAXEV ? n : MAXEV;
        uint32_t rep[2] = {(uint32_t)st, n};
        wr(rep, 8);
        wr(sh->ev, c);
    }
}

int __libc_start_main(int (*m)(int, char **, char **), int argc, char **argv, void (*init)(void),
                      void (*fini)(void), void (*rf)(void), void *se) {
    int (*real)(int (*)(int, char **, char **), int, char **, void (*)(void), void (*)(void),
                void (*)(void), void *) = dlsym(RTLD_NEXT, "__libc_start_main");
    sh = &dummy;
    if (getenv("DLDMC_SERVER")) {
        unsetenv("DLDMC_SERVER");
        argv = serve(&argc, argv);
    } else {
        const char *s = getenv("DLDMC_SEED"), *f = getenv("DLDMC_FAULT");
        if (s) seed = strtoull(s, 0, 0);
        if (f && sscanf(f, "%u:%u:%u:%u", &fkind, &findex, &fkind2, &findex2) >= 2) armed = 1;
    }
    return real(m, argc, argv, init, fini, rf, se);
}

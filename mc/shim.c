/* Preloaded into the tools: gates the opening of input files (controlled scheduler), counts writes to
 * output files and injects crashes and failures at a chosen one. All control is in one shared file. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define SLOTS 1024
#define WLOG 4096
struct slot { volatile uint32_t state; uint32_t tid; char path[248]; };
struct ctl {
    volatile uint32_t nslots;   /* gated opens so far */
    volatile uint32_t nwrites;  /* writes to the watched output so far */
    volatile uint32_t nopens;   /* opens of the watched output for writing so far */
    volatile uint32_t hit;      /* the chosen fault happened */
    uint32_t wlen[WLOG];        /* requested lengths of these writes */
    struct slot slots[SLOTS];
};
static struct ctl *C;
static char gate[512], out[512];
static size_t gate_len, out_len;
static int out_stdout;
static int mode;                 /* 0 none, see below */
static long at = -1, part, persist;
static int once, gate_err;
static unsigned char tracked[4096];
enum { NONE, KILL_BEFORE, KILL_MID, KILL_AFTER, FAIL_ENOSPC, FAIL_EIO, MID_ENOSPC, EINTR_ONCE, SHORT, OPEN_KILL_BEFORE, OPEN_KILL_AFTER, OPEN_FAIL };

static int (*r_open)(const char *, int, ...);
static int (*r_openat)(int, const char *, int, ...);
static ssize_t (*r_write)(int, const void *, size_t);
static ssize_t (*r_writev)(int, const struct iovec *, int);
static int (*r_close)(int);

static void init(void) {
    static int done;
    if (done) return;
    done = 1;
    r_open = dlsym(RTLD_NEXT, "open64");
    r_openat = dlsym(RTLD_NEXT, "openat64");
    r_write = dlsym(RTLD_NEXT, "write");
    r_writev = dlsym(RTLD_NEXT, "writev");
    r_close = dlsym(RTLD_NEXT, "close");
    const char *p = getenv("MCSHIM_CTL");
    if (!p) return;
    int fd = r_open(p, O_RDWR | O_CLOEXEC);
    if (fd < 0) _exit(97);
    C = mmap(NULL, sizeof *C, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    r_close(fd);
    if (C == MAP_FAILED) _exit(97);
    once = getenv("MCSHIM_ONCE") != NULL;
    gate_err = getenv("MCSHIM_GATE_ERR") != NULL;
    if ((p = getenv("MCSHIM_GATE"))) { strncpy(gate, p, sizeof gate - 1); gate_len = strlen(gate); }
    if ((p = getenv("MCSHIM_OUT"))) {
        if (!strcmp(p, "-")) out_stdout = 1;
        else { strncpy(out, p, sizeof out - 1); out_len = strlen(out); }
    }
    if ((p = getenv("MCSHIM_MODE"))) mode = atoi(p);
    if ((p = getenv("MCSHIM_AT"))) at = atol(p);
    if ((p = getenv("MCSHIM_PART"))) part = atol(p);
    if ((p = getenv("MCSHIM_PERSIST"))) persist = atol(p);
    if (out_stdout) tracked[1] = 1;
}
__attribute__((constructor)) static void ctor(void) { init(); }

static void die(void) { C->hit = 1; kill(getpid(), SIGKILL); for (;;) pause(); }

static void gate_wait(const char *path) {
    if (once) {
        uint32_t n = C->nslots;
        for (uint32_t j = 0; j < n && j < SLOTS; j++)
            if (!strncmp(C->slots[j].path, path, sizeof C->slots[j].path - 1)) return;
    }
    uint32_t i = __sync_fetch_and_add(&C->nslots, 1);
    if (i >= SLOTS) _exit(96);
    struct slot *s = &C->slots[i];
    s->tid = (uint32_t)syscall(SYS_gettid);
    strncpy(s->path, path, sizeof s->path - 1);
    __sync_synchronize();
    s->state = 1;
    while (s->state == 1) syscall(SYS_futex, &s->state, FUTEX_WAIT, 1, NULL, NULL, 0);
}
static int writing(int fl) { return (fl & O_ACCMODE) != O_RDONLY; }
static int pre_open(const char *path, int fl) {
    if (!C || !path) return 0;
    if (gate_len && !writing(fl) && !strncmp(path, gate, gate_len)) gate_wait(path);
    if (out_len && writing(fl) && !strncmp(path, out, out_len)) {
        long k = __sync_fetch_and_add(&C->nopens, 1);
        if (k == at && mode == OPEN_KILL_BEFORE) die();
        if (k == at && mode == OPEN_FAIL) { C->hit = 1; errno = ENOSPC; return -1; }
        return (int)k + 1;
    }
    return 0;
}
static void post_open(const char *path, int fl, int fd, int k) {
    if (!C || fd < 0 || fd >= (int)sizeof tracked) return;
    tracked[fd] = k > 0;
    if (k > 0 && k - 1 == at && mode == OPEN_KILL_AFTER) die();
    (void)path; (void)fl;
}
#define OPEN_BODY(call) \
    mode_t m = 0; \
    if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } \
    init(); \
    int k = pre_open(path, fl); \
    if (k < 0) return -1; \
    int fd = call; \
    int e = errno; \
    post_open(path, fl, fd, k); \
    errno = e; \
    return fd;
int open(const char *path, int fl, ...) { OPEN_BODY(r_open(path, fl, m)) }
int open64(const char *path, int fl, ...) { OPEN_BODY(r_open(path, fl, m)) }
int openat(int d, const char *path, int fl, ...) { OPEN_BODY(r_openat(d, path, fl, m)) }
int openat64(int d, const char *path, int fl, ...) { OPEN_BODY(r_openat(d, path, fl, m)) }
int close(int fd) {
    init();
    if (fd >= 0 && fd < (int)sizeof tracked && fd != 1) tracked[fd] = 0;
    return r_close(fd);
}
static int watched(int fd) { return C && fd >= 0 && fd < (int)sizeof tracked && tracked[fd]; }
ssize_t write(int fd, const void *buf, size_t n) {
    init();
    if (fd == 2 && C && gate_err) gate_wait("standard error");
    if (!watched(fd)) return r_write(fd, buf, n);
    long k = __sync_fetch_and_add(&C->nwrites, 1);
    if (k < WLOG) C->wlen[k] = (uint32_t)n;
    int here = k == at, later = persist && k > at && at >= 0;
    size_t p = (size_t)part < n ? (size_t)part : n ? n - 1 : 0; /* lengths vary a little: always less than all of it */
    switch (mode) {
    case KILL_BEFORE: if (here) die(); break;
    case KILL_MID: if (here) { r_write(fd, buf, p); die(); } break;
    case KILL_AFTER: if (here) { r_write(fd, buf, n); die(); } break;
    case FAIL_ENOSPC: if (here || later) { C->hit = 1; errno = ENOSPC; return -1; } break;
    case FAIL_EIO: if (here || later) { C->hit = 1; errno = EIO; return -1; } break;
    case MID_ENOSPC:
        if (here) { C->hit = 1; if (p > 0) return r_write(fd, buf, p); errno = ENOSPC; return -1; }
        if (k == at + 1 || (persist && k > at)) { errno = ENOSPC; return -1; }
        break;
    case EINTR_ONCE: if (here) { C->hit = 1; errno = EINTR; return -1; } break;
    case SHORT: if (here || later) { C->hit = 1; return r_write(fd, buf, p > 0 ? p : 1); } break;
    }
    return r_write(fd, buf, n);
}
ssize_t writev(int fd, const struct iovec *v, int cnt) {
    init();
    if (fd == 2 && C && gate_err) gate_wait("standard error");
    if (!watched(fd)) return r_writev(fd, v, cnt);
    for (int i = 0; i < cnt; i++)
        if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}

// The simulated operating system.
//
// Preloaded (LD_PRELOAD) into an unmodified binary of the code under test. It takes over
// __libc_start_main and turns the process into a fork server: each scenario received on the control
// descriptor is run in a fresh fork by calling the program's real main() with every source of
// nondeterminism behind this file: file system, descriptors, standard streams, clock, randomness,
// environment, process ids, allocator, futexes and threads. Nothing of the real file system is
// visible to the program and nothing it does reaches it. The scenario (tree, arguments, fault plan,
// concurrent modifications, schedule) decides everything; there is no other input.
//
// The kernel itself never allocates with malloc and reads no real clock.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/sysmacros.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64; typedef int32_t i32;

// ---------------------------------------------------------------- raw system calls
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long ret; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
#define raw(n, a, b, c) raw6(n, (long)(a), (long)(b), (long)(c), 0, 0, 0)

extern void *__libc_malloc(size_t); extern void *__libc_calloc(size_t, size_t); extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t); extern void __libc_free(void *);

// ---------------------------------------------------------------- vocabulary
enum Op { OP_OPEN = 1, OP_READ, OP_CLOSE, OP_STAT, OP_FSTAT, OP_OPENDIR, OP_READDIR, OP_CLOSEDIR, OP_OUT, OP_ERR, OP_READLINK,
    OP_REALPATH, OP_GETCWD, OP_LSEEK, OP_ACCESS, OP_MALLOC, OP_MUTATE, OP_EXEC, OP_SLEEP, OP_CLOCK, OP_RANDOM, OP_GETENV, OP_STDIN,
    OP_SYS, OP_MARK, OP_SWITCH, OP_STEPCAP, OP_DEADLOCK, OP_EVENT, OP_MMAP, OP_OTHER, OP_THREAD, OP_WAITS, OP_LSTAT, OP_EXIT, OP_CHDIR, OP_PROC, OP_N };
enum Fx { FX_ERRNO = 1, FX_SHORT, FX_ZERO, FX_FLIP, FX_KILL, FX_DELAY };
enum { NK_STAT = 0, NK_OPEN, NK_READ, NK_OPENDIR, NK_READDIR, NK_LSTAT };
enum { MU_UNLINK = 1, MU_SET, MU_TRUNC, MU_APPEND, MU_LINKIN, MU_RENAME, MU_SWAPTYPE, MU_NODEFAULT, MU_REPLACE };

typedef struct { int kind; int err; u64 at; u32 times; u32 fired; } NFault;
typedef struct Node { u8 type; int parent; char *name; u32 namelen; char *data; u64 len, cap; u32 flags; u64 ino; i64 mtime; i64 size_override;
    int *child; u32 *tag; int nchild, capchild; int alive; NFault nf[4]; int nnf; } Node;
typedef struct { int used; int node; u64 off; int isdir; Node *was; } Vfd;  // was: what the descriptor still refers to after its name became something else
typedef struct { int used; int vfd; int node; int pos, limit; u64 nread; struct dirent64 ent; struct dirent ent32; } Vdir;
typedef struct { u8 op; u32 nth; u8 fx; i64 arg; u32 repeat; u32 fired; } Fault;
typedef struct { u32 at; u8 action; u32 node; i64 arg; char *data; u32 len; int done; } Mut;

#define MAXN 140000
#define MAXFD 4096
#define MAXDIRS 4096
static Node *nodes; static int nnodes;
static Vfd vfds[MAXFD];
#define VN(v) (vfds[v].was ? vfds[v].was : &nodes[vfds[v].node])
static int fdbase = 1000, fdlimit = 1 << 30;
static Vdir *vdirs;
static Fault faults[4096]; static int nfaults;
static Mut muts[1024]; static int nmuts, next_mut;
static i32 *rpat, *wpat; static u32 nrpat, nwpat, irpat, iwpat;
static int cwd_node;
static u64 step_cap = 1 << 20;
static u64 clock_base, lat_max, clock_jump; static u64 rng_state = 1, lat_state = 1;
static int snapshot_dirs, tty, sim_pid = 4242, sim_cpus = 4, dot_pos, dtype_mode;
static volatile int active;
static char *arena, *arena_end;

// Shared with the server: header, log, output.
typedef struct { u64 loglen, outlen, errlen, steps_, fault_fired, mut_fired, sim_ns_, mallocs, max_fds_, open_fds_, sched_points, switches, live, peak, lost, hot, op_count_[OP_N]; } Head;
#define LOGCAP (256u << 20)
#define OUTCAP (128u << 20)
#define ERRCAP (1u << 20)
static Head *head;
#define steps head->steps_
#define sim_ns head->sim_ns_
#define op_count head->op_count_
#define open_fds head->open_fds_
#define max_open_fds head->max_fds_
static char *logbuf, *outbuf, *errbuf;

static u64 rng_next(u64 *s) { u64 z = (*s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }

static void *take(size_t n) { n = (n + 15) & ~(size_t)15; if (arena + n > arena_end) { raw(SYS_exit_group, 249, 0, 0); } void *p = arena; arena += n; return p; }

typedef struct __attribute__((packed)) { u32 step; u16 op; u8 fx; u8 pad; i32 a; i64 ret; i32 err; u32 mallocs; u32 outlen; u32 dlen; } Rec;
static void logrec(int op, int fx, i32 a, i64 ret, int err, const void *d, u32 dlen) {
    if (head->loglen + sizeof(Rec) + dlen > LOGCAP) { head->lost++; return; }
    Rec r = { (u32)steps, (u16)op, (u8)fx, 0, a, ret, err, (u32)head->mallocs, (u32)head->outlen, dlen };
    memcpy(logbuf + head->loglen, &r, sizeof r); if (dlen) memcpy(logbuf + head->loglen + sizeof r, d, dlen);
    head->loglen += sizeof r + dlen;
}
static void die(int code) { raw(SYS_exit_group, code, 0, 0); __builtin_unreachable(); }
static void kill_self(void) { raw(SYS_kill, raw(SYS_getpid, 0, 0, 0), SIGKILL, 0); for (;;) raw(SYS_pause, 0, 0, 0); }

// ---------------------------------------------------------------- thread scheduler
// Real threads, released one at a time; who runs next is decided here only.
enum { T_FREE, T_RUN, T_FUTEX, T_JOIN, T_SLEEP, T_DONE };
#define MAXT 512
typedef struct { int state; volatile int gate; u32 *faddr; int timed; u64 until; int timedout; int jointid; pthread_t pt; void *(*fn)(void *); void *arg; int rounds, gone; } Th; // gone: joined or detached, its slot is free once it is done
static Th th[MAXT]; static int nth_; static int cur; static __thread int me = -1;
static u64 sched_points; static u32 sched_prob; static u64 sched_rng = 1; static u64 *pre_at; static u32 *pre_to; static u32 npre, ipre; static int sched_random;
static pthread_key_t exit_key;

#define FAIR 2000000
static void fwait(volatile int *a) { while (!__atomic_load_n(a, __ATOMIC_ACQUIRE)) raw6(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); __atomic_store_n(a, 0, __ATOMIC_RELEASE); }
static void fwake(volatile int *a) { __atomic_store_n(a, 1, __ATOMIC_RELEASE); raw6(SYS_futex, (long)a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

static int runnable(int *list) {
    int n = 0; for (int i = 0; i < nth_; i++) { if (th[i].state == T_JOIN && th[th[i].jointid].state == T_DONE) th[i].state = T_RUN; if (th[i].state == T_RUN) list[n++] = i; }
    return n;
}
static u64 nblocks, since_switch;
static void switch_to(int next, int blocked) {
    since_switch = 0;
    if (next == cur && me == next) return;
    head->switches++; logrec(OP_SWITCH, 0, next, blocked == 2 ? -1 : blocked ? (i64)(nblocks | 1ull << 63) : (i64)sched_points, cur, 0, 0);
    int self = me, over = th[self].state == T_DONE; cur = next; fwake(&th[next].gate);
    if (!over) fwait(&th[self].gate);
}
static void block_and_switch(void) { // the current thread is not runnable any more
    int list[MAXT];
    for (;;) {
        int n = runnable(list);
        if (n) { // blocked threads leave too: decided by the seed, or by the explicit schedule (entries with the top bit set)
            int pick = sched_random ? (int)(rng_next(&sched_rng) % n) : 0; nblocks++;
            if (!sched_random) for (u32 i = 0; i < npre; i++) if (pre_at[i] == (nblocks | 1ull << 63)) for (int k = 0; k < n; k++) if ((u32)list[k] == pre_to[i]) pick = k;
            switch_to(list[pick], 1); return; }
        int best = -1; for (int i = 0; i < nth_; i++) if ((th[i].state == T_SLEEP || (th[i].state == T_FUTEX && th[i].timed)) && (best < 0 || th[i].until < th[best].until)) best = i;
        if (best < 0) { logrec(OP_DEADLOCK, 0, me, 0, 0, 0, 0); die(251); }
        if (th[best].until > sim_ns) sim_ns = th[best].until;
        th[best].timedout = 1; th[best].state = T_RUN;
    }
}
static u32 hot_prob; static int hot_now;
static void sched_point(void) {
    if (nth_ <= 1 || me < 0 || me != cur || th[me].state != T_RUN) return;
    sched_points++; head->sched_points = sched_points;
    int list[MAXT], n, next = -1;
    if (++since_switch > FAIR) { // a thread that spins on another one's progress must not keep it from running
        n = runnable(list); next = list[0]; for (int i = n - 1; i >= 0; i--) if (list[i] > me) next = list[i];
    } else if (sched_random) {
        u32 p = hot_now && hot_prob > sched_prob ? hot_prob : sched_prob;
        if ((rng_next(&sched_rng) & 0xfffff) >= p) return;
        n = runnable(list); next = list[rng_next(&sched_rng) % n];
    } else {
        while (ipre < npre && pre_at[ipre] < sched_points) ipre++;
        if (ipre >= npre || pre_at[ipre] != sched_points) return;
        n = runnable(list); u32 to = pre_to[ipre++]; next = list[to % n]; for (int i = 0; i < n; i++) if ((u32)list[i] == to) next = to;
    }
    since_switch = 0;
    if (next >= 0 && next != me) switch_to(next, 0);
}
// inserted by the compiler at every basic block and memory access of the library in the harness build
EXPORT void __sanitizer_cov_trace_pc(void) { if (active && nth_ > 1) sched_point(); }
// Accesses to state that threads can share are hot: a schedule may switch there more often. Shared is: the writable data of
// the program (not thread-local), what another thread wrote last, and every atomic operation.
#include <link.h>
static char *data_lo, *data_hi, *relro_lo, *relro_hi;
static int find_data(struct dl_phdr_info *i, size_t n, void *x) {
    for (int k = 0; k < i->dlpi_phnum; k++) { const ElfW(Phdr) *p = &i->dlpi_phdr[k]; char *a = (char *)i->dlpi_addr + p->p_vaddr;
        if (p->p_type == PT_LOAD && p->p_flags & PF_W) { if (!data_lo || a < data_lo) data_lo = a; if (a + p->p_memsz > data_hi) data_hi = a + p->p_memsz; }
        if (p->p_type == PT_GNU_RELRO) { relro_lo = a; relro_hi = a + p->p_memsz; } }
    return 1; // the first object is the program itself
}
static struct { u64 word; int who; } wrote[1 << 14];
static int is_hot(void *p, int store) {
    char *a = p; if (a >= data_lo && a < data_hi && !(a >= relro_lo && a < relro_hi)) return 1;
    u64 w = (u64)p >> 3; u32 h = (w * 0x9E3779B97F4A7C15ull) >> 50; int other = wrote[h].word == w && wrote[h].who != me;
    if (store) { wrote[h].word = w; wrote[h].who = me; } return other;
}
static void access_point(void *p, int store) { hot_now = is_hot(p, store); head->hot += hot_now; sched_point(); hot_now = 0; }
static void atomic_point(void) { if (active && nth_ > 1) { hot_now = 1; head->hot++; sched_point(); hot_now = 0; } }
#define COV(n) EXPORT void __sanitizer_cov_load##n(void *p) { if (active && nth_ > 1) access_point(p, 0); } EXPORT void __sanitizer_cov_store##n(void *p) { if (active && nth_ > 1) access_point(p, 1); }
#define AT(n, T) \
EXPORT T __tsan_atomic##n##_load(const volatile T *a, int o) { atomic_point(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
EXPORT void __tsan_atomic##n##_store(volatile T *a, T v, int o) { atomic_point(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
EXPORT T __tsan_atomic##n##_exchange(volatile T *a, T v, int o) { atomic_point(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
EXPORT T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int o) { atomic_point(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
EXPORT T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int o) { atomic_point(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
EXPORT T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int o) { atomic_point(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
EXPORT T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int o) { atomic_point(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
EXPORT T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int o) { atomic_point(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
EXPORT T __tsan_atomic##n##_fetch_nand(volatile T *a, T v, int o) { atomic_point(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
EXPORT T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T c, T v, int o, int f) { atomic_point(); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; } \
EXPORT int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int o, int f) { atomic_point(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
EXPORT int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int o, int f) { atomic_point(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
EXPORT void __tsan_atomic_thread_fence(int o) { atomic_point(); }
EXPORT void __tsan_atomic_signal_fence(int o) {}
EXPORT void __tsan_func_entry(void *p) {}
EXPORT void __tsan_func_exit(void) {}
EXPORT void __tsan_init(void) {}
COV(1) COV(2) COV(4) COV(8) COV(16)
static void exit_dtor(void *p) {
    long id = (long)p - 1;
    if (!active || th[id].state != T_RUN) return;
    if (++th[id].rounds < PTHREAD_DESTRUCTOR_ITERATIONS) { pthread_setspecific(exit_key, p); return; }
    th[id].state = T_DONE; logrec(OP_THREAD, 0, id, 2, 0, 0, 0); block_and_switch(); me = -1;
}
static void *tramp(void *p) {
    long id = (long)p; me = id; pthread_setspecific(exit_key, (void *)(id + 1)); fwait(&th[id].gate);
    return th[id].fn(th[id].arg);
}
static int (*real_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_pthread_join)(pthread_t, void **);
static int (*real_pthread_detach)(pthread_t);
static int fault_for(int op, i64 *arg);
EXPORT int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    if (!active) return real_pthread_create(t, a, fn, arg);
    i64 fa; int fx = fault_for(OP_THREAD, &fa); if (fx == FX_ERRNO) return (int)fa;
    int id = 1; while (id < nth_ && !(th[id].state == T_DONE && th[id].gone)) id++;
    if (id >= MAXT) return EAGAIN;
    if (id == nth_) nth_++;
    th[id].state = T_DONE; th[id].gone = 0; th[id].jointid = 0; th[id].fn = fn; th[id].arg = arg; th[id].gate = 0; th[id].rounds = 0; th[id].pt = 0; // taken, and not to be run before it exists
    int r = real_pthread_create(t, a, tramp, (void *)(long)id);
    if (r) { th[id].gone = 1; return r; }
    int ds; if (a && !pthread_attr_getdetachstate(a, &ds) && ds == PTHREAD_CREATE_DETACHED) th[id].gone = 1;
    th[id].pt = *t; th[id].state = T_RUN; logrec(OP_THREAD, 0, id, 1, 0, 0, 0); sched_point(); return 0;
}
EXPORT int pthread_join(pthread_t t, void **ret) {
    if (!active) return real_pthread_join(t, ret);
    for (int i = 1; i < nth_; i++) if (pthread_equal(th[i].pt, t) && !th[i].gone) {
        if (th[i].state != T_DONE) { th[me].state = T_JOIN; th[me].jointid = i; block_and_switch(); }
        int r = real_pthread_join(t, ret); th[i].gone = 1; return r;
    }
    return real_pthread_join(t, ret);
}
EXPORT int pthread_detach(pthread_t t) {
    if (active) for (int i = 1; i < nth_; i++) if (pthread_equal(th[i].pt, t) && !th[i].gone) { th[i].gone = 1; break; }
    return real_pthread_detach(t);
}
static long sim_futex(u32 *addr, int op, u32 val, const struct timespec *ts) {
    int cmd = op & FUTEX_CMD_MASK;
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
        logrec(OP_WAITS, 0, me, 0, 0, 0, 0);
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
        if (me < 0) { errno = EAGAIN; return -1; }
        th[me].faddr = addr; th[me].timed = ts != 0; th[me].timedout = 0; th[me].state = T_FUTEX;
        if (ts) { u64 t = (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec; th[me].until = cmd == FUTEX_WAIT ? sim_ns + t : (t > clock_base ? t - clock_base : 0); }
        block_and_switch();
        if (th[me].timedout) { errno = ETIMEDOUT; return -1; }
        return 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
        int n = 0; for (int i = 0; i < nth_ && n < (int)val; i++) if (th[i].state == T_FUTEX && th[i].faddr == addr) { th[i].state = T_RUN; n++; }
        sched_point(); return n;
    }
    errno = ENOSYS; return -1;
}

// ---------------------------------------------------------------- steps, faults, concurrent modifications
static char *pool_copy(const char *d, u32 n) { char *p = take(n + 1); memcpy(p, d, n); p[n] = 0; return p; }
static u32 tag_of(const char *s, u32 n) { u32 h = 2166136261u; for (u32 i = 0; i < n; i++) h = (h ^ (u8)s[i]) * 16777619u; return h; }
static void add_child(int p, int c) {
    Node *d = &nodes[p];
    if (d->nchild == d->capchild) { int nc = d->capchild ? d->capchild * 2 : 8; int *x = take(nc * sizeof(int)); memcpy(x, d->child, d->nchild * sizeof(int)); d->child = x; u32 *y = take(nc * sizeof(u32)); memcpy(y, d->tag, d->nchild * sizeof(u32)); d->tag = y; d->capchild = nc; }
    d->tag[d->nchild] = tag_of(nodes[c].name, nodes[c].namelen);
    d->child[d->nchild++] = c;
}
static void apply_mut(Mut *m) {
    Node *n = &nodes[m->node]; m->done = 1; head->mut_fired++;
    switch (m->action) {
    case MU_UNLINK: n->alive = 0; break;
    case MU_SET: n->data = m->data; n->len = m->len; n->cap = m->len; break;
    case MU_TRUNC: if ((u64)m->arg < n->len) n->len = m->arg; break;
    case MU_APPEND: { char *x = take(n->len + m->len + 1); memcpy(x, n->data, n->len); memcpy(x + n->len, m->data, m->len); n->data = x; n->len += m->len; break; }
    case MU_LINKIN: n->alive = 1; break;                       // a node that was prepared but not yet visible appears
    case MU_RENAME: n->name = m->data; n->namelen = m->len; { Node *d = &nodes[n->parent]; for (int i = 0; i < d->nchild; i++) if (&nodes[d->child[i]] == n) d->tag[i] = tag_of(n->name, n->namelen); } break;
    case MU_REPLACE:                                             // another file takes the name: who has the old one open keeps it
    case MU_SWAPTYPE: { Node *old = 0; for (int i = 0; i < MAXFD; i++) if (vfds[i].used && vfds[i].node == m->node && !vfds[i].was) { if (!old) { old = take(sizeof *old); *old = *n; } vfds[i].was = old; } }
        if (m->action == MU_REPLACE) n->ino += 1000003; else n->type = (u8)m->arg;
        n->data = m->data; n->len = m->len; n->cap = m->len; break;
    case MU_NODEFAULT: if (n->nnf < 4) { NFault *f = &n->nf[n->nnf++]; f->kind = (int)(m->arg >> 32); f->err = (int)(m->arg & 0xffffffff); f->at = 0; f->times = 0; f->fired = 0; } break;
    }
    logrec(OP_EVENT, m->action, m->node, m->arg, 0, 0, 0);
}
static int match_fault(int op, u64 cnt, i64 *arg) {
    for (int i = 0; i < nfaults; i++) { Fault *f = &faults[i];
        if (f->op == op && cnt >= f->nth && cnt < (u64)f->nth + f->repeat) { f->fired++; head->fault_fired++; *arg = f->arg; return f->fx; } }
    return 0;
}
static int fault_for(int op, i64 *arg) {
    u64 c = ++op_count[op];
    int fx = match_fault(op, c, arg);
    if (fx == FX_KILL) { logrec(op, FX_KILL, 0, 0, 0, 0, 0); kill_self(); }
    if (fx == FX_DELAY) { sim_ns += (u64)*arg; logrec(op, FX_DELAY, 0, *arg, 0, 0, 0); return 0; }
    return fx;
}
static int step(int op, i64 *arg) {
    sched_point();
    steps++;
    if (steps > step_cap) { logrec(OP_STEPCAP, 0, op, 0, 0, 0, 0); die(250); }
    while (next_mut < nmuts && muts[next_mut].at <= steps) apply_mut(&muts[next_mut++]);
    sim_ns += 200; if (lat_max) sim_ns += rng_next(&lat_state) % lat_max;
    i64 a; int fx = match_fault(0, steps, &a);                 // "any operation" faults: kill at step n
    if (fx == FX_KILL) { logrec(op, FX_KILL, 0, 0, 0, 0, 0); kill_self(); }
    return fault_for(op, arg);
}
static int node_fault(Node *n, int kind, u64 pos) {
    for (int i = 0; i < n->nnf; i++) { NFault *f = &n->nf[i]; if (f->kind == kind && pos >= f->at && (!f->times || f->fired < f->times)) { f->fired++; head->fault_fired++; return f->err; } }
    return 0;
}

// ---------------------------------------------------------------- path resolution
static int lookup(int dir, const char *s, u32 n) {
    if (n == 1 && s[0] == '.') return dir;
    if (n == 2 && s[0] == '.' && s[1] == '.') return nodes[dir].parent;
    const Node *d = &nodes[dir]; u32 h = tag_of(s, n);
    for (int i = 0; i < d->nchild; i++) if (d->tag[i] == h) { Node *c = &nodes[d->child[i]]; if (c->alive && c->namelen == n && !memcmp(c->name, s, n)) return nodes[dir].child[i]; }
    return -ENOENT;
}
static int resolve(int start, const char *path, int follow, int depth) {
    if (!path) return -EFAULT;
    if (!*path) return -ENOENT;
    if (strlen(path) >= PATH_MAX) return -ENAMETOOLONG;
    if (depth > 40) return -ELOOP;
    int d = *path == '/' ? 0 : start;
    const char *p = path;
    for (;;) {
        while (*p == '/') p++;
        if (!*p) { return d; }
        const char *e = p; while (*e && *e != '/') e++;
        if (e - p > 255) return -ENAMETOOLONG;
        if (nodes[d].type != 'D') return -ENOTDIR;
        int c = lookup(d, p, e - p); if (c < 0) return c;
        int last = !e[strspn(e, "/")]; int trailing = *e == '/';
        if (nodes[c].type == 'L' && (!last || follow || trailing)) {
            int t = resolve(d, nodes[c].data, 1, depth + 1); if (t < 0) return t; c = t;
        }
        if (!last || trailing) if (nodes[c].type != 'D') return -ENOTDIR;
        d = c; p = e;
    }
}
static int vfd_of(int fd) { return fd >= fdbase && fd < fdbase + MAXFD && vfds[fd - fdbase].used ? fd - fdbase : -1; }
static int at_start(int dirfd) { if (dirfd == AT_FDCWD) return cwd_node; int v = vfd_of(dirfd); return v >= 0 ? vfds[v].node : -1; }
static int new_vfd(int node, int isdir) {
    if (open_fds >= fdlimit) return -EMFILE;
    for (int i = 0; i < MAXFD; i++) if (!vfds[i].used) { vfds[i] = (Vfd){ 1, node, 0, isdir, 0 }; if (++open_fds > max_open_fds) max_open_fds = open_fds; return i; }
    return -EMFILE;
}
#define FAIL(e) do { errno = (e); return -1; } while (0)

// ---------------------------------------------------------------- files
static int sim_open(int dirfd, const char *path, int flags) {
    i64 fa; int fx = step(OP_OPEN, &fa); u32 pl = path ? strlen(path) : 0;
    if ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)) || (flags & O_TMPFILE) == O_TMPFILE) {
        if (!path || strcmp(path, "/dev/null")) { logrec(OP_MUTATE, 0, SYS_open, flags, EROFS, path, pl); FAIL(EROFS); }
    }
    if (fx == FX_ERRNO) { logrec(OP_OPEN, fx, -1, -1, fa, path, pl); FAIL(fa); }
    int s = at_start(dirfd); if (s < 0) { logrec(OP_OPEN, 0, -1, -1, EBADF, path, pl); FAIL(EBADF); }
    int n = resolve(s, path, !(flags & O_NOFOLLOW), 0);
    int e = n < 0 ? -n : 0;
    if (e == ENOENT && path && !strcmp(path, "/dev/null") && nnodes < MAXN) { // every world has one; it is not part of the tree
        nodes[nnodes].type = 'C'; nodes[nnodes].size_override = -1; nodes[nnodes].alive = 1; nodes[nnodes].name = "null"; nodes[nnodes].namelen = 4;
        int v = new_vfd(nnodes, 0); logrec(OP_OTHER, 0, -1, v < 0 ? -1 : v + fdbase, v < 0 ? -v : 0, path, pl); if (v < 0) FAIL(-v); return v + fdbase;
    }
    if (!e && nodes[n].type == 'L') e = ELOOP;
    if (!e && (flags & O_DIRECTORY) && nodes[n].type != 'D') e = ENOTDIR;
    if (!e) e = node_fault(&nodes[n], nodes[n].type == 'D' ? NK_OPENDIR : NK_OPEN, 0);
    if (e) { logrec(OP_OPEN, n < 0 ? 0 : FX_ERRNO, n < 0 ? -1 : n, -1, e, path, pl); FAIL(e); }
    int v = new_vfd(n, nodes[n].type == 'D'); if (v < 0) { logrec(OP_OPEN, 0, n, -1, -v, path, pl); FAIL(-v); }
    logrec(OP_OPEN, 0, n, v + fdbase, 0, path, pl);
    return v + fdbase;
}
static ssize_t sim_read_at(int fd, struct iovec *iov, int cnt, i64 at) {
    i64 fa;
    if (fd == 0) { step(OP_STDIN, &fa); logrec(OP_STDIN, 0, 0, 0, 0, 0, 0); return 0; }
    int fx = step(OP_READ, &fa);
    int v = vfd_of(fd); if (v < 0) { logrec(OP_READ, 0, fd, -1, EBADF, 0, 0); FAIL(EBADF); }
    Node *n = VN(v);
    if (fx == FX_ERRNO) { logrec(OP_READ, fx, fd, -1, fa, 0, 0); FAIL(fa); }
    if (n->type == 'D') { logrec(OP_READ, 0, fd, -1, EISDIR, 0, 0); FAIL(EISDIR); }
    u64 off = at >= 0 ? (u64)at : vfds[v].off;
    int e = node_fault(n, NK_READ, off); if (e) { logrec(OP_READ, FX_ERRNO, fd, -1, e, 0, 0); FAIL(e); }
    size_t want = 0; for (int i = 0; i < cnt; i++) want += iov[i].iov_len;
    size_t avail = off < n->len ? n->len - off : 0, k = want < avail ? want : avail;
    int patfx = 0;
    if (nrpat) { i32 p = rpat[irpat++ % nrpat]; if (p == -1) { head->fault_fired++; logrec(OP_READ, FX_ERRNO, fd, -1, EINTR, 0, 0); FAIL(EINTR); } if (p > 0 && (size_t)p < k) { k = p; patfx = FX_SHORT; head->fault_fired++; } }
    // fault plan: FX_SHORT keeps at least one byte, FX_ZERO is a premature end of file
    if (fx == FX_SHORT && k > 1 && (size_t)fa < k) k = fa < 1 ? 1 : fa;
    if (fx == FX_ZERO) k = 0;
    // a node-level read fault at an offset ahead of us: deliver up to it, fail next time
    for (int i = 0; i < n->nnf; i++) { NFault *f = &n->nf[i]; if (f->kind == NK_READ && f->at > off && off + k > f->at && (!f->times || f->fired < f->times)) k = f->at - off; }
    size_t done = 0; for (int i = 0; i < cnt && done < k; i++) { size_t m = k - done < iov[i].iov_len ? k - done : iov[i].iov_len; memcpy(iov[i].iov_base, n->data + off + done, m); done += m; }
    if (fx == FX_FLIP && k) { size_t o = (u64)(fa & 0xffffffff) % k, q = 0; for (int i = 0; i < cnt; i++) { if (o < q + iov[i].iov_len) { ((u8 *)iov[i].iov_base)[o - q] ^= (u8)(fa >> 32); break; } q += iov[i].iov_len; } }
    if (at < 0) vfds[v].off += k;
    // log what was really delivered
    if (head->loglen + sizeof(Rec) + 8 + k <= LOGCAP) {
        Rec r = { (u32)steps, OP_READ, (u8)(fx ? fx : patfx), 0, fd, (i64)k, 0, (u32)head->mallocs, (u32)head->outlen, (u32)k + 8 }; memcpy(logbuf + head->loglen, &r, sizeof r); char *q = logbuf + head->loglen + sizeof r;
        memcpy(q, &off, 8); q += 8; size_t d2 = 0; for (int i = 0; i < cnt && d2 < k; i++) { size_t m = k - d2 < iov[i].iov_len ? k - d2 : iov[i].iov_len; memcpy(q + d2, iov[i].iov_base, m); d2 += m; }
        head->loglen += sizeof r + 8 + k;
    } else head->lost++;
    return k;
}
static ssize_t sim_write(int fd, const struct iovec *iov, int cnt) {
    i64 fa; size_t want = 0; for (int i = 0; i < cnt; i++) want += iov[i].iov_len;
    if (fd == -777) { logrec(OP_MARK, 0, (i32)want, 0, 0, iov[0].iov_base, iov[0].iov_len < 64 ? iov[0].iov_len : 64); return want; }
    if (fd == -778) { logrec(OP_OTHER, 0, (i32)want, 0, 0, iov[0].iov_base, iov[0].iov_len); return want; } // results of the harness: outside the simulated world
    if (fd != 1 && fd != 2) { step(OP_MUTATE, &fa); logrec(OP_MUTATE, 0, SYS_write, fd, EBADF, 0, 0); FAIL(EBADF); }
    int op = fd == 1 ? OP_OUT : OP_ERR; int fx = step(op, &fa); int patfx = 0;
    size_t k = want;
    if (fx == FX_ERRNO) { logrec(op, fx, fd, -1, fa, 0, 0); FAIL(fa); }
    if (fd == 1 && nwpat && want) { i32 p = wpat[iwpat++ % nwpat]; if (p == -1) { head->fault_fired++; logrec(op, FX_ERRNO, fd, -1, EINTR, 0, 0); FAIL(EINTR); } if (p > 0 && (size_t)p < k) { k = p; patfx = FX_SHORT; head->fault_fired++; } }
    if (fx == FX_SHORT && k > 1 && (size_t)fa < k) k = fa < 1 ? 1 : fa;
    if (fx == FX_ZERO) k = 0;
    char *buf = fd == 1 ? outbuf : errbuf; u64 *len = fd == 1 ? &head->outlen : &head->errlen; u64 cap = fd == 1 ? OUTCAP : ERRCAP;
    size_t done = 0; for (int i = 0; i < cnt && done < k; i++) { size_t m = k - done < iov[i].iov_len ? k - done : iov[i].iov_len; if (*len + m > cap) { if (fd == 1) head->lost++; break; } memcpy(buf + *len, iov[i].iov_base, m); *len += m; done += m; }
    logrec(op, fx ? fx : patfx, (i32)want, (i64)k, 0, 0, 0);
    return k;
}

static u64 owners; static u32 sim_uid = 1000;
static void fill_stat(Node *n, int idx, struct stat64 *s) {
    memset(s, 0, sizeof *s);
    s->st_dev = 77; for (Node *x = n; ; x = &nodes[x->parent]) { if (x->flags >> 8 & 0xff) { s->st_dev = 77 + (x->flags >> 8 & 0xff); break; } if (x == nodes) break; } // a mount point and what is below it
    s->st_ino = n->ino ? n->ino : (u64)idx + 100; s->st_nlink = 1; s->st_uid = 1000; s->st_gid = 1000; s->st_blksize = 4096;
    if (owners) { u64 h = owners + idx; h = rng_next(&h); s->st_uid = h & 1 ? 0 : h >> 8 & 0xffff; s->st_gid = h & 2 ? 0 : h >> 24 & 0xffff; s->st_blksize = 1u << (9 + (h >> 40) % 14); }
    if (n->type == 'D' && !(dot_pos & 4)) { s->st_nlink = 2; for (int i = 0; i < n->nchild; i++) s->st_nlink += nodes[n->child[i]].type == 'D'; }
    else if (n->type != 'D' && n->ino) { s->st_nlink = 0; for (int i = 0; i < nnodes; i++) s->st_nlink += nodes[i].ino == n->ino && nodes[i].type == n->type; }
    s->st_mode = n->type == 'D' ? S_IFDIR | 0755 : n->type == 'L' ? S_IFLNK | 0777 : n->type == 'P' ? S_IFIFO | 0644 : n->type == 'C' ? S_IFCHR | 0644 : S_IFREG | 0644;
    if (n->flags >> 16 & 0x1000) s->st_mode = (s->st_mode & S_IFMT) | (n->flags >> 16 & 0xfff); // what the owner may do is not ours to judge: the caller has every right
    s->st_size = n->type == 'P' || n->type == 'C' ? 0 : n->type == 'D' ? 4096 : (i64)n->len; if (n->size_override >= 0) s->st_size = n->size_override;
    s->st_blocks = owners & 1 ? 0 : (s->st_size + 511) / 512; s->st_mtim.tv_sec = n->mtime; s->st_atim.tv_sec = n->mtime; s->st_ctim.tv_sec = n->mtime;
    if (owners) { u64 h = owners * 31 + idx; h = rng_next(&h); s->st_atim.tv_sec += (i64)(h % 5) * 86400 - 2 * 86400; s->st_ctim.tv_sec += (i64)(h >> 8 & 0xffff); s->st_mtim.tv_nsec = (h >> 34) % 1000000000; }
}
static int stat_node(int op, int dirfd, const char *path, int follow, int empty, int *out) { // errno or 0
    i64 fa; int fx = step(op, &fa); u32 pl = path ? strlen(path) : 0; int n;
    if (fx == FX_ERRNO) { logrec(op, fx, -1, -1, fa, path, pl); return fa; }
    if (op == OP_FSTAT || (empty && path && !*path)) {
        if (dirfd >= 0 && dirfd <= 2) { *out = -1 - dirfd; logrec(op, 0, dirfd, 0, 0, 0, 0); return 0; }
        int v = vfd_of(dirfd); if (v < 0) { logrec(op, 0, dirfd, -1, EBADF, 0, 0); return EBADF; }
        n = vfds[v].node;
    } else {
        int s = at_start(dirfd); if (s < 0) { logrec(op, 0, -1, -1, EBADF, path, pl); return EBADF; }
        n = resolve(s, path, follow, 0);
    }
    int e = n < 0 ? -n : node_fault(&nodes[n], op == OP_LSTAT ? NK_LSTAT : NK_STAT, 0);
    logrec(op, n >= 0 && e ? FX_ERRNO : 0, n < 0 ? -1 : n, e ? -1 : 0, e, path, pl);
    *out = n; return e;
}
static void std_stat(int fd, struct stat64 *s) { memset(s, 0, sizeof *s); s->st_mode = (fd == 1 && !tty) ? S_IFREG | 0644 : S_IFCHR | 0620; s->st_blksize = 4096; s->st_ino = 5 + fd; s->st_nlink = 1; }
static int do_stat(int op, int dirfd, const char *path, int follow, int empty, struct stat64 *s) {
    int n, e = stat_node(op, dirfd, path, follow, empty, &n); if (e) FAIL(e);
    int v = op == OP_FSTAT || (empty && path && !*path) ? vfd_of(dirfd) : -1;
    if (n < 0) std_stat(-n - 1, s); else fill_stat(v >= 0 ? VN(v) : &nodes[n], n, s);
    return 0;
}
#define DELEGATE(name, ret, proto, args) static ret(*real_##name) proto;

EXPORT int open64(const char *p, int f, ...);
static int (*real_open64)(const char *, int, ...);
static ssize_t (*real_read)(int, void *, size_t); static ssize_t (*real_write)(int, const void *, size_t); static int (*real_close)(int);
EXPORT int open64(const char *p, int f, ...) { if (!active) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return real_open64(p, f, m); } return sim_open(AT_FDCWD, p, f); }
EXPORT int open(const char *p, int f, ...) { if (!active) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return real_open64(p, f, m); } return sim_open(AT_FDCWD, p, f); }
EXPORT int openat(int d, const char *p, int f, ...) { if (!active) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return raw6(SYS_openat, d, (long)p, f, m, 0, 0); } return sim_open(d, p, f); }
EXPORT int openat64(int d, const char *p, int f, ...) { if (!active) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return raw6(SYS_openat, d, (long)p, f, m, 0, 0); } return sim_open(d, p, f); }
EXPORT int creat(const char *p, mode_t m) { return open64(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int creat64(const char *p, mode_t m) { return open64(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT ssize_t read(int fd, void *b, size_t n) { if (!active) return real_read(fd, b, n); struct iovec v = { b, n }; return sim_read_at(fd, &v, 1, -1); }
EXPORT ssize_t readv(int fd, const struct iovec *v, int c) { if (!active) return raw(SYS_readv, fd, v, c); return sim_read_at(fd, (struct iovec *)v, c, -1); }
EXPORT ssize_t pread64(int fd, void *b, size_t n, off64_t o) { if (!active) return raw6(SYS_pread64, fd, (long)b, n, o, 0, 0); struct iovec v = { b, n }; return sim_read_at(fd, &v, 1, o); }
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
EXPORT ssize_t preadv64(int fd, const struct iovec *v, int c, off64_t o) { if (!active) return raw6(SYS_preadv, fd, (long)v, c, o, 0, 0); return sim_read_at(fd, (struct iovec *)v, c, o); }
EXPORT ssize_t preadv(int fd, const struct iovec *v, int c, off_t o) { return preadv64(fd, v, c, o); }
EXPORT ssize_t write(int fd, const void *b, size_t n) { if (!active) return real_write(fd, b, n); struct iovec v = { (void *)b, n }; return sim_write(fd, &v, 1); }
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) { if (!active) return raw(SYS_writev, fd, v, c); return sim_write(fd, v, c); }
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { if (!active) return raw6(SYS_pwrite64, fd, (long)b, n, o, 0, 0); struct iovec v = { (void *)b, n }; return sim_write(fd, &v, 1); }
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
EXPORT int close(int fd) {
    if (!active) return real_close(fd);
    i64 fa; int fx = step(OP_CLOSE, &fa); int v = vfd_of(fd);
    if (v < 0) { logrec(OP_CLOSE, 0, fd, -1, EBADF, 0, 0); FAIL(EBADF); }
    vfds[v].used = 0; open_fds--;
    int e = fx == FX_ERRNO ? (int)fa : 0; logrec(OP_CLOSE, fx, fd, e ? -1 : 0, e, 0, 0); if (e) FAIL(e); return 0;
}
EXPORT off64_t lseek64(int fd, off64_t o, int w) {
    if (!active) return raw(SYS_lseek, fd, o, w);
    i64 fa; int fx = step(OP_LSEEK, &fa); int v = vfd_of(fd); int e = 0; i64 r = -1;
    if (v < 0) e = EBADF; else if (VN(v)->type == 'P') e = ESPIPE; else if (fx == FX_ERRNO) e = fa; else {
        i64 len = VN(v)->size_override >= 0 ? VN(v)->size_override : (i64)VN(v)->len;
        r = w == SEEK_SET ? o : w == SEEK_CUR ? (i64)vfds[v].off + o : w == SEEK_END ? len + o : -1; if (r < 0) e = EINVAL; else vfds[v].off = r; }
    logrec(OP_LSEEK, fx, fd, r, e, 0, 0); if (e) FAIL(e); return r;
}
EXPORT off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }
EXPORT int stat64(const char *p, struct stat64 *s) { if (!active) return raw6(SYS_newfstatat, AT_FDCWD, (long)p, (long)s, 0, 0, 0); return do_stat(OP_STAT, AT_FDCWD, p, 1, 0, s); }
EXPORT int stat(const char *p, struct stat *s) { return stat64(p, (struct stat64 *)s); }
EXPORT int lstat64(const char *p, struct stat64 *s) { if (!active) return raw6(SYS_newfstatat, AT_FDCWD, (long)p, (long)s, AT_SYMLINK_NOFOLLOW, 0, 0); return do_stat(OP_LSTAT, AT_FDCWD, p, 0, 0, s); }
EXPORT int lstat(const char *p, struct stat *s) { return lstat64(p, (struct stat64 *)s); }
EXPORT int fstat64(int fd, struct stat64 *s) { if (!active) return raw(SYS_fstat, fd, s, 0) < 0 ? -1 : 0; return do_stat(OP_FSTAT, fd, 0, 1, 0, s); }
EXPORT int fstat(int fd, struct stat *s) { return fstat64(fd, (struct stat64 *)s); }
EXPORT int fstatat64(int d, const char *p, struct stat64 *s, int f) {
    if (!active) { long r = raw6(SYS_newfstatat, d, (long)p, (long)s, f, 0, 0); if (r < 0) FAIL(-r); return 0; }
    return do_stat((f & AT_SYMLINK_NOFOLLOW) ? OP_LSTAT : OP_STAT, d, p, !(f & AT_SYMLINK_NOFOLLOW), f & AT_EMPTY_PATH, s);
}
EXPORT int fstatat(int d, const char *p, struct stat *s, int f) { return fstatat64(d, p, (struct stat64 *)s, f); }
EXPORT int statx(int d, const char *restrict p, int f, unsigned mask, struct statx *restrict x) {
    if (!active) { long r = raw6(SYS_statx, d, (long)p, f, mask, (long)x, 0); if (r < 0) FAIL(-r); return 0; }
    if (!p || !x) FAIL(EFAULT);
    struct stat64 s; int op = (f & AT_EMPTY_PATH) && !*p ? OP_FSTAT : (f & AT_SYMLINK_NOFOLLOW) ? OP_LSTAT : OP_STAT;
    if (do_stat(op, d, p, !(f & AT_SYMLINK_NOFOLLOW), f & AT_EMPTY_PATH, &s)) return -1;
    memset(x, 0, sizeof *x); x->stx_mask = STATX_BASIC_STATS; x->stx_mode = s.st_mode; x->stx_size = s.st_size; x->stx_ino = s.st_ino; x->stx_nlink = s.st_nlink; x->stx_uid = s.st_uid; x->stx_gid = s.st_gid;
    x->stx_blksize = s.st_blksize; x->stx_blocks = s.st_blocks; x->stx_dev_major = major(s.st_dev); x->stx_dev_minor = minor(s.st_dev); x->stx_mtime.tv_sec = s.st_mtim.tv_sec; x->stx_mtime.tv_nsec = s.st_mtim.tv_nsec; x->stx_atime.tv_sec = s.st_atim.tv_sec; x->stx_ctime.tv_sec = s.st_ctim.tv_sec;
    return 0;
}
EXPORT int faccessat(int d, const char *p, int m, int f) {
    if (!active) { long r = raw6(SYS_faccessat, d, (long)p, m, f, 0, 0); if (r < 0) FAIL(-r); return 0; }
    struct stat64 s; return do_stat(OP_STAT, d, p, 1, 0, &s);
}
EXPORT int access(const char *p, int m) { return faccessat(AT_FDCWD, p, m, 0); }
EXPORT ssize_t readlinkat(int d, const char *restrict p, char *restrict b, size_t n) {
    if (!active) { long r = raw6(SYS_readlinkat, d, (long)p, (long)b, n, 0, 0); if (r < 0) FAIL(-r); return r; }
    i64 fa; int fx = step(OP_READLINK, &fa); u32 pl = strlen(p); int s = at_start(d), e = 0, k = -1; if (fx == FX_ERRNO) e = fa; else if (s < 0) e = EBADF; else { k = resolve(s, p, 0, 0); if (k < 0) e = -k; else if (nodes[k].type != 'L') e = EINVAL; }
    logrec(OP_READLINK, fx, k, e ? -1 : 0, e, p, pl); if (e) FAIL(e);
    size_t l = nodes[k].len < n ? nodes[k].len : n; memcpy(b, nodes[k].data, l); return l;
}
EXPORT ssize_t readlink(const char *restrict p, char *restrict b, size_t n) { return readlinkat(AT_FDCWD, p, b, n); }
static int node_path(int n, char *b, size_t cap) { // absolute path of a node
    int chain[512], k = 0; while (n != 0 && k < 512) { chain[k++] = n; n = nodes[n].parent; }
    size_t o = 0; if (!k) b[o++] = '/';
    while (k) { Node *x = &nodes[chain[--k]]; if (o + x->namelen + 2 > cap) return -1; b[o++] = '/'; memcpy(b + o, x->name, x->namelen); o += x->namelen; }
    b[o] = 0; return o;
}
EXPORT char *realpath(const char *restrict p, char *restrict out) {
    static char *(*rp)(const char *, char *); if (!active) { if (!rp) rp = dlsym(RTLD_NEXT, "realpath"); return rp(p, out); }
    i64 fa; int fx = step(OP_REALPATH, &fa); int n = fx == FX_ERRNO ? (int)-fa : resolve(cwd_node, p, 1, 0); logrec(OP_REALPATH, fx, n, n < 0 ? -1 : 0, n < 0 ? -n : 0, p, strlen(p));
    if (n < 0) { errno = -n; return 0; }
    if (!out) out = __libc_malloc(PATH_MAX);
    if (node_path(n, out, PATH_MAX) < 0) { errno = ENAMETOOLONG; return 0; } return out;
}
EXPORT char *getcwd(char *b, size_t n) {
    if (!active) { long r = raw(SYS_getcwd, b, n, 0); if (r < 0) { errno = -r; return 0; } return b; }
    i64 fa; int fx = step(OP_GETCWD, &fa); logrec(OP_GETCWD, fx, cwd_node, 0, 0, 0, 0); if (fx == FX_ERRNO) { errno = fa; return 0; }
    if (!b) { b = __libc_malloc(PATH_MAX); n = PATH_MAX; } if (node_path(cwd_node, b, n) < 0) { errno = ERANGE; return 0; } return b;
}
EXPORT int chdir(const char *p) { if (!active) return raw(SYS_chdir, p, 0, 0); i64 fa; step(OP_CHDIR, &fa); logrec(OP_CHDIR, 0, -1, 0, 0, p, strlen(p)); int n = resolve(cwd_node, p, 1, 0); if (n < 0) FAIL(-n); if (nodes[n].type != 'D') FAIL(ENOTDIR); cwd_node = n; return 0; }

// ---------------------------------------------------------------- directories
static DIR *dir_on(int node, int vfd) {
    for (int i = 0; i < MAXDIRS; i++) if (!vdirs[i].used) { Vdir *d = &vdirs[i]; d->used = 1; d->vfd = vfd; d->node = node; d->pos = 0; d->nread = 0; d->limit = snapshot_dirs ? nodes[node].nchild : -1; return (DIR *)d; }
    errno = ENOMEM; return 0;
}
EXPORT DIR *opendir(const char *p) {
    static DIR *(*ro)(const char *); if (!active) { if (!ro) ro = dlsym(RTLD_NEXT, "opendir"); return ro(p); }
    i64 fa; int fx = step(OP_OPENDIR, &fa); u32 pl = strlen(p); int e = 0, n = -1, v = -1;
    if (fx == FX_ERRNO) e = fa; else { n = resolve(cwd_node, p, 1, 0); if (n < 0) e = -n; else if (nodes[n].type != 'D') e = ENOTDIR; else { e = node_fault(&nodes[n], NK_OPENDIR, 0); if (e) fx = FX_ERRNO; } }
    if (!e) { v = new_vfd(n, 1); if (v < 0) e = -v; }
    logrec(OP_OPENDIR, fx, n < 0 ? -1 : n, e ? -1 : v + fdbase, e, p, pl); if (e) { errno = e; return 0; }
    return dir_on(n, v);
}
EXPORT DIR *fdopendir(int fd) {
    static DIR *(*ro)(int); if (!active) { if (!ro) ro = dlsym(RTLD_NEXT, "fdopendir"); return ro(fd); }
    i64 fa; int fx = step(OP_OPENDIR, &fa); int v = vfd_of(fd); int e = fx == FX_ERRNO ? (int)fa : v < 0 ? EBADF : VN(v)->type != 'D' ? ENOTDIR : 0;
    logrec(OP_OPENDIR, fx, v < 0 ? -1 : vfds[v].node, e ? -1 : fd, e, 0, 0); if (e) { errno = e; return 0; } return dir_on(vfds[v].node, v);
}
EXPORT int dirfd(DIR *d) { static int (*r)(DIR *); if (!active || (void *)d < (void *)vdirs || (void *)d >= (void *)(vdirs + MAXDIRS)) { if (!r) r = dlsym(RTLD_NEXT, "dirfd"); return r(d); } return ((Vdir *)d)->vfd + fdbase; }
static Node *dotn; 
static struct dirent64 *sim_readdir(Vdir *d) {
    i64 fa; int fx = step(OP_READDIR, &fa); Node *n = &nodes[d->node];
    if (fx == FX_ERRNO) { logrec(OP_READDIR, fx, d->node, -1, fa, 0, 0); errno = fa; return 0; }
    int e = node_fault(n, NK_READDIR, d->nread); if (e) { logrec(OP_READDIR, FX_ERRNO, d->node, -1, e, 0, 0); errno = e; return 0; }
    if (fx == FX_ZERO) { fx = 0; }
    int dots = (dot_pos & 3) % 3; // "." and "..": before, after or between the entries
    for (;;) {
        int total = d->limit >= 0 ? d->limit : n->nchild; int seq = d->pos++; int idx; const char *dn = 0;
        if (dots == 0) { if (seq < 2) dn = seq ? ".." : "."; idx = seq - 2; }
        else if (dots == 1) { idx = seq; if (seq == total) dn = "."; else if (seq == total + 1) dn = ".."; else if (seq > total + 1) idx = total; }
        else { if (seq == 0) dn = "."; else if (seq == 2 || (total == 0 && seq == 1)) dn = ".."; idx = seq == 1 ? 0 : seq - 2; if (total == 0 && seq >= 2) { dn = 0; idx = 0; } }
        if (!dn && idx >= total) { logrec(OP_READDIR, 0, d->node, 0, 0, 0, 0); return 0; }
        struct dirent64 *t = &d->ent; memset(t, 0, offsetof(struct dirent64, d_name));
        if (dn) { strcpy(t->d_name, dn); t->d_ino = d->node + 100; t->d_type = DT_DIR; t->d_reclen = 24; t->d_off = d->pos; logrec(OP_READDIR, 0, d->node, 2, 0, dn, strlen(dn)); return t; }
        int c = n->child[idx]; Node *x = &nodes[c];
        if (!x->alive && d->limit < 0) continue;
        if (!x->alive && (x->flags & 2)) continue; // prepared, never visible before it is linked in
        memcpy(t->d_name, x->name, x->namelen); t->d_name[x->namelen] = 0; t->d_ino = x->ino ? x->ino : (u64)c + 100; t->d_off = d->pos; t->d_reclen = sizeof *t;
        t->d_type = (x->flags & 1) ? DT_UNKNOWN : x->type == 'D' ? DT_DIR : x->type == 'L' ? DT_LNK : x->type == 'P' ? DT_FIFO : x->type == 'C' ? DT_CHR : DT_REG;
        d->nread++; logrec(OP_READDIR, 0, d->node, 1, 0, x->name, x->namelen); return t;
    }
}
EXPORT struct dirent64 *readdir64(DIR *d) { static struct dirent64 *(*r)(DIR *); if (!active) { if (!r) r = dlsym(RTLD_NEXT, "readdir64"); return r(d); } return sim_readdir((Vdir *)d); }
EXPORT struct dirent *readdir(DIR *d) { static struct dirent *(*r)(DIR *); if (!active) { if (!r) r = dlsym(RTLD_NEXT, "readdir"); return r(d); } return (struct dirent *)sim_readdir((Vdir *)d); }
EXPORT void rewinddir(DIR *d) { if (active) { ((Vdir *)d)->pos = 0; ((Vdir *)d)->nread = 0; } }
EXPORT int closedir(DIR *dd) {
    static int (*r)(DIR *); if (!active) { if (!r) r = dlsym(RTLD_NEXT, "closedir"); return r(dd); }
    Vdir *d = (Vdir *)dd; i64 fa; int fx = step(OP_CLOSEDIR, &fa);
    vfds[d->vfd].used = 0; open_fds--; d->used = 0;
    int e = fx == FX_ERRNO ? (int)fa : 0; logrec(OP_CLOSEDIR, fx, d->node, e ? -1 : 0, e, 0, 0); if (e) FAIL(e); return 0;
}

// ---------------------------------------------------------------- allocator
#include <malloc.h>
static u64 mem_limit, max_alloc;
static int malloc_fault2(size_t n, size_t old) { // old: what a reallocation gives back
    if (!active) return 0;
    sched_point();
    u64 c = ++op_count[OP_MALLOC]; head->mallocs = c; i64 a;
    if ((mem_limit && head->live + n > mem_limit + old) || (max_alloc && n > max_alloc)) { head->fault_fired++; logrec(OP_MALLOC, FX_ERRNO, -1, (i64)n, ENOMEM, 0, 0); errno = ENOMEM; return 1; }
    if (!nfaults) return 0;
    int fx = match_fault(OP_MALLOC, c, &a);
    if (fx == FX_KILL) { logrec(OP_MALLOC, fx, 0, 0, 0, 0, 0); kill_self(); }
    if (fx == FX_ERRNO) { logrec(OP_MALLOC, fx, 0, (i64)c, ENOMEM, 0, 0); errno = ENOMEM; return 1; }
    return 0;
}
static int malloc_fault(size_t n) { return malloc_fault2(n, 0); }
static void *got(void *p) { if (active && p) { head->live += malloc_usable_size(p); if (head->live > head->peak) head->peak = head->live; } return p; }
static void lost_(void *p) { if (active && p) { u64 k = malloc_usable_size(p); head->live = head->live > k ? head->live - k : 0; } }
EXPORT void *malloc(size_t n) { if (malloc_fault(n)) return 0; return got(__libc_malloc(n)); }
EXPORT void *calloc(size_t a, size_t b) { if (malloc_fault(a * b)) return 0; return got(__libc_calloc(a, b)); }
EXPORT void *realloc(void *p, size_t n) { if (malloc_fault2(n, active && p ? malloc_usable_size(p) : 0)) return 0; lost_(p); return got(__libc_realloc(p, n)); }
EXPORT void free(void *p) { if (active) { sched_point(); lost_(p); } __libc_free(p); }
EXPORT int posix_memalign(void **o, size_t a, size_t n) { if (malloc_fault(n)) return ENOMEM; void *p = __libc_memalign(a, n); if (!p) return ENOMEM; *o = got(p); return 0; }
EXPORT void *aligned_alloc(size_t a, size_t n) { if (malloc_fault(n)) return 0; return got(__libc_memalign(a, n)); }
EXPORT void *memalign(size_t a, size_t n) { if (malloc_fault(n)) return 0; return got(__libc_memalign(a, n)); }
EXPORT void *mmap64(void *a, size_t n, int p, int f, int fd, off64_t o) {
    if (active && fd >= 0 && !(f & MAP_ANONYMOUS)) { i64 fa; step(OP_MMAP, &fa); int v = vfd_of(fd); if (v < 0) { errno = EBADF; return MAP_FAILED; } Node *x = VN(v);
        if (x->type != 'F' || (p & PROT_WRITE && f & MAP_SHARED)) { logrec(OP_MMAP, 0, fd, -1, ENODEV, 0, 0); errno = ENODEV; return MAP_FAILED; }
        int e = node_fault(x, NK_READ, o); if (e) { logrec(OP_READ, FX_ERRNO, fd, -1, e, 0, 0); errno = e; return MAP_FAILED; }
        long r = raw6(SYS_mmap, 0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (r < 0 && r > -4096) { errno = -r; return MAP_FAILED; }
        u64 off = o, k = off < x->len ? x->len - off : 0; if (k > n) k = n; memcpy((void *)r, x->data + off, k);
        // counts as a read of what was mapped, followed by the end of the file when all of it was
        Rec q = { (u32)steps, OP_READ, 0, 0, fd, (i64)k, 0, (u32)head->mallocs, (u32)head->outlen, (u32)k + 8 };
        if (head->loglen + sizeof q + 8 + k <= LOGCAP) { memcpy(logbuf + head->loglen, &q, sizeof q); memcpy(logbuf + head->loglen + sizeof q, &off, 8); memcpy(logbuf + head->loglen + sizeof q + 8, (void *)r, k); head->loglen += sizeof q + 8 + k; } else head->lost++;
        if (off + k >= x->len && k) { u64 end = off + k; logrec(OP_READ, 0, fd, 0, 0, &end, 8); }
        return (void *)r; }
    long r = raw6(SYS_mmap, (long)a, n, p, f, fd, o); if (r < 0 && r > -4096) { errno = -r; return MAP_FAILED; } return (void *)r;
}
EXPORT void *mmap(void *a, size_t n, int p, int f, int fd, off_t o) { return mmap64(a, n, p, f, fd, o); }

// ---------------------------------------------------------------- clock, randomness, environment, process
static u64 now(void) { u64 c = ++op_count[OP_CLOCK]; sim_ns += 50; if (clock_jump && c % 3 == 0) sim_ns += clock_jump; return sim_ns; }
EXPORT int clock_gettime(clockid_t id, struct timespec *t) {
    if (!active) { long r = raw(SYS_clock_gettime, id, t, 0); if (r < 0) FAIL(-r); return 0; }
    u64 n = clock_base + now(); if (id == CLOCK_MONOTONIC || id == CLOCK_BOOTTIME) n = now() + 1000000000ull; t->tv_sec = n / 1000000000ull; t->tv_nsec = n % 1000000000ull; logrec(OP_CLOCK, 0, id, (i64)n, 0, 0, 0); return 0;
}
EXPORT int gettimeofday(struct timeval *restrict t, void *restrict z) { if (!active) return raw(SYS_gettimeofday, t, z, 0); u64 n = clock_base + now(); t->tv_sec = n / 1000000000ull; t->tv_usec = n / 1000 % 1000000; logrec(OP_CLOCK, 0, 0, n, 0, 0, 0); return 0; }
EXPORT time_t time(time_t *t) { if (!active) { return raw(SYS_time, t, 0, 0); } u64 n = clock_base + now(); logrec(OP_CLOCK, 0, 0, n, 0, 0, 0); if (t) *t = n / 1000000000ull; return n / 1000000000ull; }
static int sim_sleep(u64 ns) { i64 fa; step(OP_SLEEP, &fa); logrec(OP_SLEEP, 0, 0, (i64)ns, 0, 0, 0); if (me >= 0 && nth_ > 1) { th[me].state = T_SLEEP; th[me].until = sim_ns + ns; block_and_switch(); } else sim_ns += ns; return 0; }
EXPORT int nanosleep(const struct timespec *t, struct timespec *r) { if (!active) return raw(SYS_nanosleep, t, r, 0); return sim_sleep((u64)t->tv_sec * 1000000000ull + t->tv_nsec); }
EXPORT int clock_nanosleep(clockid_t c, int f, const struct timespec *t, struct timespec *r) { if (!active) return raw6(SYS_clock_nanosleep, c, f, (long)t, (long)r, 0, 0); u64 n = (u64)t->tv_sec * 1000000000ull + t->tv_nsec; if (f & TIMER_ABSTIME) n = n > sim_ns ? n - sim_ns : 0; return sim_sleep(n); }
EXPORT int usleep(useconds_t u) { if (!active) { struct timespec t = { u / 1000000, u % 1000000 * 1000 }; return raw(SYS_nanosleep, &t, 0, 0); } return sim_sleep(u * 1000ull); }
EXPORT unsigned sleep(unsigned s) { if (!active) { struct timespec t = { s, 0 }; raw(SYS_nanosleep, &t, 0, 0); return 0; } sim_sleep(s * 1000000000ull); return 0; }
EXPORT int sched_yield(void) { if (active) { if (nth_ > 1 && me >= 0) { int l[MAXT], n = runnable(l); for (int i = 0; i < n; i++) if (l[i] == me) { switch_to(l[(i + 1) % n], 2); break; } } return 0; } return raw(SYS_sched_yield, 0, 0, 0); }
EXPORT ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (!active) { long r = raw(SYS_getrandom, b, n, f); if (r < 0) FAIL(-r); return r; }
    ++op_count[OP_RANDOM]; logrec(OP_RANDOM, 0, n, 0, 0, 0, 0); for (size_t i = 0; i < n; i++) ((u8 *)b)[i] = (u8)rng_next(&rng_state); return n;
}
EXPORT int getentropy(void *b, size_t n) { return getrandom(b, n, 0) < 0 ? -1 : 0; }
extern char **environ;
static char *env_get(const char *k) { size_t l = strlen(k); for (char **e = environ; e && *e; e++) if (!strncmp(*e, k, l) && (*e)[l] == '=') return *e + l + 1; return 0; }
EXPORT char *getenv(const char *k) { if (active) { ++op_count[OP_GETENV]; logrec(OP_GETENV, 0, 0, 0, 0, k, strlen(k)); } return env_get(k); }
EXPORT char *secure_getenv(const char *k) { return getenv(k); }
EXPORT pid_t getpid(void) { return active ? sim_pid : raw(SYS_getpid, 0, 0, 0); }
EXPORT pid_t getppid(void) { return active ? sim_pid - 1 : raw(SYS_getppid, 0, 0, 0); }
EXPORT pid_t gettid(void) { return active ? sim_pid + (me > 0 ? me : 0) : raw(SYS_gettid, 0, 0, 0); }
EXPORT uid_t getuid(void) { return active ? sim_uid : (uid_t)raw(SYS_getuid, 0, 0, 0); }
EXPORT uid_t geteuid(void) { return active ? sim_uid : (uid_t)raw(SYS_geteuid, 0, 0, 0); }
EXPORT gid_t getgid(void) { return active ? sim_uid : (gid_t)raw(SYS_getgid, 0, 0, 0); }
EXPORT gid_t getegid(void) { return active ? sim_uid : (gid_t)raw(SYS_getegid, 0, 0, 0); }
EXPORT int gethostname(char *b, size_t n) { if (n) snprintf(b, n, "h%d", sim_pid); return 0; }
EXPORT int getrlimit64(__rlimit_resource_t k, struct rlimit64 *l) {
    if (!active) return raw(SYS_prlimit64, 0, k, 0) < 0 ? -1 : (raw6(SYS_prlimit64, 0, k, 0, (long)l, 0, 0) < 0 ? -1 : 0);
    l->rlim_cur = l->rlim_max = k == RLIMIT_NOFILE ? (fdlimit < 4096 ? fdlimit + 3 : 4096) : k == RLIMIT_STACK ? 8u << 20 : RLIM64_INFINITY; return 0;
}
EXPORT int getrlimit(__rlimit_resource_t k, struct rlimit *l) { return getrlimit64(k, (struct rlimit64 *)l); }
EXPORT int isatty(int fd) { if (!active) return 0; if (fd >= 0 && fd <= 2 && tty) return 1; errno = ENOTTY; return 0; }
EXPORT int ioctl(int fd, unsigned long r, ...) { va_list a; va_start(a, r); void *p = va_arg(a, void *); va_end(a); if (!active) { long x = raw(SYS_ioctl, fd, r, p); if (x < 0) FAIL(-x); return x; } errno = ENOTTY; return -1; }
EXPORT int poll(struct pollfd *p, nfds_t n, int t) { if (!active) return raw(SYS_poll, p, n, t); for (nfds_t i = 0; i < n; i++) p[i].revents = 0; return 0; }
static int (*real_sched_getaffinity)(pid_t, size_t, cpu_set_t *);
EXPORT int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) { if (!active) return raw(SYS_sched_getaffinity, p, n, s) < 0 ? -1 : 0; memset(s, 0, n); for (int i = 0; i < sim_cpus; i++) ((u8 *)s)[i / 8] |= 1 << (i % 8); return 0; }
EXPORT long sysconf(int k) { static long (*r)(int); if (!r) r = dlsym(RTLD_NEXT, "sysconf"); if (active && (k == _SC_NPROCESSORS_ONLN || k == _SC_NPROCESSORS_CONF)) return sim_cpus; if (active && k == _SC_OPEN_MAX) return fdlimit < 4096 ? fdlimit + 3 : 4096; return r(k); }
EXPORT int fcntl64(int fd, int c, ...) {
    va_list a; va_start(a, c); long x = va_arg(a, long); va_end(a);
    if (!active) { long r = raw(SYS_fcntl, fd, c, x); if (r < 0) FAIL(-r); return r; }
    if (c == F_GETFD || c == F_SETFD || c == F_SETFL) { if (fd > 2 && vfd_of(fd) < 0) FAIL(EBADF); return 0; } if (c == F_GETFL) return fd <= 2 ? O_RDWR : O_RDONLY;
    if (c == F_DUPFD || c == F_DUPFD_CLOEXEC) { if (fd <= 2) return fd; int v = vfd_of(fd); if (v < 0) FAIL(EBADF); int w = new_vfd(vfds[v].node, vfds[v].isdir); if (w < 0) FAIL(EMFILE); vfds[w].off = vfds[v].off; vfds[w].was = vfds[v].was; return w + fdbase; }
    FAIL(EINVAL);
}
EXPORT int fcntl(int fd, int c, ...) { va_list a; va_start(a, c); long x = va_arg(a, long); va_end(a); return fcntl64(fd, c, x); }
EXPORT int dup(int fd) { if (!active) return raw(SYS_dup, fd, 0, 0); if (fd <= 2) return fd; return fcntl64(fd, F_DUPFD, 0L); }

// everything that would change the file system, start a process or talk to the network: recorded, refused
static int mutate(long nr, const char *p, const char *q) {
    i64 fa; step(OP_MUTATE, &fa); char b[512]; int l = snprintf(b, sizeof b, "%s%s%s", p ? p : "", q ? " -> " : "", q ? q : ""); logrec(OP_MUTATE, 0, nr, 0, EROFS, b, l < 511 ? l : 511); errno = EROFS; return -1;
}
static int spawned(const char *w, const char *p) { i64 fa; step(OP_EXEC, &fa); char b[300]; int l = snprintf(b, sizeof b, "%s %s", w, p ? p : ""); logrec(OP_EXEC, 0, 0, 0, EPERM, b, l < 299 ? l : 299); errno = EPERM; return -1; }
#define REALI(name) static long (*r)(); if (!r) r = dlsym(RTLD_NEXT, name)
EXPORT int unlink(const char *p) { if (!active) return raw(SYS_unlink, p, 0, 0); return mutate(SYS_unlink, p, 0); }
EXPORT int unlinkat(int d, const char *p, int f) { if (!active) return raw(SYS_unlinkat, d, p, f); return mutate(SYS_unlinkat, p, 0); }
EXPORT int rmdir(const char *p) { if (!active) return raw(SYS_rmdir, p, 0, 0); return mutate(SYS_rmdir, p, 0); }
EXPORT int remove(const char *p) { if (!active) return raw(SYS_unlink, p, 0, 0); return mutate(SYS_unlink, p, 0); }
EXPORT int mkdir(const char *p, mode_t m) { if (!active) return raw(SYS_mkdir, p, m, 0); return mutate(SYS_mkdir, p, 0); }
EXPORT int mkdirat(int d, const char *p, mode_t m) { if (!active) return raw(SYS_mkdirat, d, p, m); return mutate(SYS_mkdirat, p, 0); }
EXPORT int rename(const char *p, const char *q) { if (!active) return raw(SYS_rename, p, q, 0); return mutate(SYS_rename, p, q); }
EXPORT int renameat(int a, const char *p, int b, const char *q) { if (!active) return raw6(SYS_renameat, a, (long)p, b, (long)q, 0, 0); return mutate(SYS_renameat, p, q); }
EXPORT int renameat2(int a, const char *p, int b, const char *q, unsigned f) { if (!active) return raw6(SYS_renameat2, a, (long)p, b, (long)q, f, 0); return mutate(SYS_renameat2, p, q); }
EXPORT int link(const char *p, const char *q) { if (!active) return raw(SYS_link, p, q, 0); return mutate(SYS_link, p, q); }
EXPORT int linkat(int a, const char *p, int b, const char *q, int f) { if (!active) return raw6(SYS_linkat, a, (long)p, b, (long)q, f, 0); return mutate(SYS_linkat, p, q); }
EXPORT int symlink(const char *p, const char *q) { if (!active) return raw(SYS_symlink, p, q, 0); return mutate(SYS_symlink, p, q); }
EXPORT int symlinkat(const char *p, int d, const char *q) { if (!active) return raw(SYS_symlinkat, p, d, q); return mutate(SYS_symlinkat, p, q); }
EXPORT int chmod(const char *p, mode_t m) { if (!active) return raw(SYS_chmod, p, m, 0); return mutate(SYS_chmod, p, 0); }
EXPORT int fchmod(int f, mode_t m) { if (!active) return raw(SYS_fchmod, f, m, 0); return mutate(SYS_fchmod, 0, 0); }
EXPORT int fchmodat(int d, const char *p, mode_t m, int f) { if (!active) return raw(SYS_fchmodat, d, p, m); return mutate(SYS_fchmodat, p, 0); }
EXPORT int chown(const char *p, uid_t u, gid_t g) { if (!active) return raw(SYS_chown, p, u, g); return mutate(SYS_chown, p, 0); }
EXPORT int lchown(const char *p, uid_t u, gid_t g) { if (!active) return raw(SYS_lchown, p, u, g); return mutate(SYS_lchown, p, 0); }
EXPORT int fchown(int f, uid_t u, gid_t g) { if (!active) return raw(SYS_fchown, f, u, g); return mutate(SYS_fchown, 0, 0); }
EXPORT int truncate64(const char *p, off64_t n) { if (!active) return raw(SYS_truncate, p, n, 0); return mutate(SYS_truncate, p, 0); }
EXPORT int truncate(const char *p, off_t n) { return truncate64(p, n); }
EXPORT int ftruncate64(int f, off64_t n) { if (!active) return raw(SYS_ftruncate, f, n, 0); return mutate(SYS_ftruncate, 0, 0); }
EXPORT int ftruncate(int f, off_t n) { return ftruncate64(f, n); }
EXPORT int utimensat(int d, const char *p, const struct timespec t[2], int f) { if (!active) return raw6(SYS_utimensat, d, (long)p, (long)t, f, 0, 0); return mutate(SYS_utimensat, p, 0); }
EXPORT int futimens(int f, const struct timespec t[2]) { if (!active) return -1; return mutate(SYS_utimensat, 0, 0); }
EXPORT int mkfifo(const char *p, mode_t m) { if (!active) return raw(SYS_mknod, p, m | S_IFIFO, 0); return mutate(SYS_mknod, p, 0); }
EXPORT int mknod(const char *p, mode_t m, dev_t d) { if (!active) return raw(SYS_mknod, p, m, d); return mutate(SYS_mknod, p, 0); }
EXPORT ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) { if (!active) return raw6(SYS_copy_file_range, a, (long)b, c, (long)d, n, f); errno = ENOSYS; return -1; }
EXPORT ssize_t sendfile64(int a, int b, off64_t *o, size_t n) { if (!active) return raw6(SYS_sendfile, a, b, (long)o, n, 0, 0); errno = EINVAL; return -1; }
EXPORT ssize_t sendfile(int a, int b, off_t *o, size_t n) { return sendfile64(a, b, o, n); }
EXPORT ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) { if (!active) return raw6(SYS_splice, a, (long)b, c, (long)d, n, f); errno = EINVAL; return -1; }
static pid_t (*real_fork)(void);
EXPORT pid_t fork(void) { if (!active) return real_fork(); return spawned("fork", 0); }
EXPORT int execve(const char *p, char *const a[], char *const e[]) { if (!active) return raw(SYS_execve, p, a, e); return spawned("execve", p); }
EXPORT int execvp(const char *p, char *const a[]) { if (!active) { errno = ENOSYS; return -1; } return spawned("execvp", p); }
EXPORT int posix_spawn(pid_t *restrict pid, const char *restrict p, const void *f, const void *a, char *const v[], char *const e[]) { if (active) spawned("posix_spawn", p); return EPERM; }
EXPORT int posix_spawnp(pid_t *restrict pid, const char *restrict p, const void *f, const void *a, char *const v[], char *const e[]) { if (active) spawned("posix_spawnp", p); return EPERM; }
// ---- the state of the process
static void touched(const char *w, const char *p) { char b[200]; int l = snprintf(b, sizeof b, "%s %s", w, p ? p : ""); logrec(OP_PROC, 0, 0, 0, 0, b, l < 199 ? l : 199); }
EXPORT int setenv(const char *k, const char *v, int o) { REALI("setenv"); if (active) touched("setenv", k); return r(k, v, o); }
EXPORT int unsetenv(const char *k) { REALI("unsetenv"); if (active) touched("unsetenv", k); return r(k); }
EXPORT int putenv(char *k) { REALI("putenv"); if (active) touched("putenv", k); return r(k); }
EXPORT int clearenv(void) { REALI("clearenv"); if (active) touched("clearenv", 0); return r(); }
EXPORT mode_t umask(mode_t m) { REALI("umask"); if (active) touched("umask", 0); return r(m); }
EXPORT int sigaction(int s, const struct sigaction *restrict a, struct sigaction *restrict o) { REALI("sigaction"); if (active && a) touched("sigaction", 0); return r(s, a, o); }
EXPORT void (*signal(int s, void (*h)(int)))(int) { static void (*(*r)(int, void (*)(int)))(int); if (!r) r = dlsym(RTLD_NEXT, "signal"); if (active) touched("signal", 0); return r(s, h); }
EXPORT int sigprocmask(int h, const sigset_t *restrict a, sigset_t *restrict o) { REALI("sigprocmask"); if (active && a) touched("sigprocmask", 0); return r(h, a, o); }
EXPORT int setrlimit64(__rlimit_resource_t w, const struct rlimit64 *l) { REALI("setrlimit64"); if (active) touched("setrlimit", 0); return r(w, l); }
EXPORT int setrlimit(__rlimit_resource_t w, const struct rlimit *l) { REALI("setrlimit"); if (active) touched("setrlimit", 0); return r(w, l); }
EXPORT int nice(int a) { REALI("nice"); if (active) touched("nice", 0); return r(a); }
EXPORT char *setlocale(int c, const char *l) { static char *(*r)(int, const char *); if (!r) r = dlsym(RTLD_NEXT, "setlocale"); if (active && l) touched("setlocale", l); return r(c, l); }
EXPORT int system(const char *c) { return spawned("system", c); }
EXPORT int socket(int a, int b, int c) { if (!active) { long r = raw(SYS_socket, a, b, c); if (r < 0) FAIL(-r); return r; } return spawned("socket", 0); }
EXPORT int pipe2(int *p, int f) { if (!active) { long r = raw(SYS_pipe2, p, f, 0); if (r < 0) FAIL(-r); return r; } return spawned("pipe2", 0); }
EXPORT int kill(pid_t p, int s) { if (!active) return raw(SYS_kill, p, s, 0); return spawned("kill", 0); }

static long (*real_syscall)(long, ...);
EXPORT long syscall(long nr, ...) {
    va_list v; va_start(v, nr); long a = va_arg(v, long), b = va_arg(v, long), c = va_arg(v, long), d = va_arg(v, long), e = va_arg(v, long), f = va_arg(v, long); va_end(v);
    if (!active) { long r = raw6(nr, a, b, c, d, e, f); if (r < 0 && r > -4096) FAIL(-r); return r; }
    switch (nr) {
    case SYS_futex: return sim_futex((u32 *)a, (int)b, (u32)c, (const struct timespec *)d);
    case SYS_getrandom: return getrandom((void *)a, b, c);
    case SYS_statx: return statx(a, (const char *)b, c, d, (struct statx *)e);
    case SYS_gettid: return gettid();
    case SYS_getpid: return getpid();
    case SYS_open: return sim_open(AT_FDCWD, (const char *)a, b);
    case SYS_openat: return sim_open(a, (const char *)b, c);
    case SYS_read: return read(a, (void *)b, c);
    case SYS_write: return write(a, (const void *)b, c);
    case SYS_close: return close(a);
    case SYS_sched_yield: return sched_yield();
    case SYS_clock_gettime: return clock_gettime(a, (struct timespec *)b);
    case SYS_copy_file_range: case SYS_membarrier: FAIL(ENOSYS);
    default: { i64 fa; step(OP_SYS, &fa); logrec(OP_SYS, 0, nr, 0, ENOSYS, 0, 0); FAIL(ENOSYS); }
    }
}

// ---------------------------------------------------------------- scenario
static const u8 *sp; static const u8 *sp_end;
static u8 g8(void) { return *sp++; } static u32 g32(void) { u32 x; memcpy(&x, sp, 4); sp += 4; return x; } static u64 g64(void) { u64 x; memcpy(&x, sp, 8); sp += 8; return x; }
static char *gbytes(u32 *n) { *n = g32(); char *p = pool_copy((const char *)sp, *n); sp += *n; return p; }
static char *sim_arg0; static char *sim_argv[64]; static int sim_argc; static char *sim_env[256]; static int sim_envc; static u64 heap_noise;
enum { CF_STEPCAP = 1, CF_FDLIMIT, CF_SNAPSHOT, CF_CLOCK, CF_JUMP, CF_PID, CF_CPUS, CF_SEED, CF_HEAP, CF_TTY, CF_SRANDOM, CF_SPROB, CF_SSEED, CF_LAT, CF_DOTS, CF_FDBASE, CF_MEMLIMIT, CF_MAXALLOC, CF_SHOT, CF_OWN, CF_UID };
static void load(const u8 *b, size_t n) {
    sp = b; sp_end = b + n; u32 l;
    while (sp < sp_end) switch (g8()) {
        case 'A': sim_argv[sim_argc++] = gbytes(&l); break;
        case '0': sim_arg0 = gbytes(&l); break;
        case 'E': sim_env[sim_envc++] = gbytes(&l); break;
        case 'N': { Node *x = &nodes[nnodes]; x->type = g8(); x->parent = g32(); x->name = gbytes(&x->namelen); u32 dl; x->data = gbytes(&dl); x->len = dl; x->flags = g32(); x->ino = g64(); x->mtime = g64(); x->size_override = g64(); x->alive = !(x->flags & 2); if (nnodes) add_child(x->parent, nnodes); nnodes++; break; }
        case 'n': { Node *x = &nodes[g32()]; NFault f; f.kind = g8(); f.err = g32(); f.at = g64(); f.times = g32(); f.fired = 0; if (x->nnf < 4) x->nf[x->nnf++] = f; break; }
        case 'W': cwd_node = g32(); break;
        case 'R': nrpat = g32(); rpat = take(nrpat * 4 + 4); memcpy(rpat, sp, nrpat * 4); sp += nrpat * 4; break;
        case 'T': nwpat = g32(); wpat = take(nwpat * 4 + 4); memcpy(wpat, sp, nwpat * 4); sp += nwpat * 4; break;
        case 'F': { Fault *f = &faults[nfaults++]; f->op = g8(); f->nth = g32(); f->fx = g8(); f->arg = g64(); f->repeat = g32(); f->fired = 0; break; }
        case 'M': { Mut *m = &muts[nmuts++]; m->at = g32(); m->action = g8(); m->node = g32(); m->arg = g64(); m->data = gbytes(&m->len); break; }
        case 'P': npre = g32(); pre_at = take(npre * 8 + 8); pre_to = take(npre * 4 + 4); for (u32 i = 0; i < npre; i++) { pre_at[i] = g64(); pre_to[i] = g32(); } break;
        case 'C': { u8 k = g8(); u64 v = g64(); switch (k) {
            case CF_STEPCAP: step_cap = v; break; case CF_FDLIMIT: fdlimit = v; break; case CF_SNAPSHOT: snapshot_dirs = v; break; case CF_CLOCK: clock_base = v; break; case CF_JUMP: clock_jump = v; break;
            case CF_PID: sim_pid = v; break; case CF_CPUS: sim_cpus = v; break; case CF_SEED: rng_state = v; lat_state = v ^ 0x5bd1e995; break; case CF_HEAP: heap_noise = v; break; case CF_TTY: tty = v; break;
            case CF_SRANDOM: sched_random = v; break; case CF_SPROB: sched_prob = v; break; case CF_SSEED: sched_rng = v; break; case CF_LAT: lat_max = v; break; case CF_DOTS: dot_pos = v; break; case CF_FDBASE: fdbase = v; break; case CF_MEMLIMIT: mem_limit = v; break; case CF_MAXALLOC: max_alloc = v; break; case CF_SHOT: hot_prob = v; break; case CF_OWN: owners = v; break; case CF_UID: sim_uid = v; break; } break; }
        default: raw(SYS_exit_group, 248, 0, 0);
    }
}

// ---------------------------------------------------------------- fork server
static int (*prog_main)(int, char **, char **);
static void xread(int fd, void *b, size_t n) { char *p = b; while (n) { long k = raw(SYS_read, fd, p, n); if (k == -EINTR) continue; if (k <= 0) raw(SYS_exit_group, 0, 0, 0); p += k; n -= k; } }
static void xwrite(int fd, const void *b, size_t n) { const char *p = b; while (n) { long k = raw(SYS_write, fd, p, n); if (k == -EINTR) continue; if (k <= 0) raw(SYS_exit_group, 0, 0, 0); p += k; n -= k; } }
#define IN 198
#define OUT 199
static int server(int argc, char **argv, char **envp) {
    char *shm = (char *)raw6(SYS_mmap, 0, sizeof(Head) + 4096 + LOGCAP + OUTCAP + ERRCAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    head = (Head *)shm; logbuf = shm + ((sizeof(Head) + 63) & ~63); outbuf = logbuf + LOGCAP; errbuf = outbuf + OUTCAP;
    raw6(SYS_prctl, PR_SET_PDEATHSIG, SIGKILL, 0, 0, 0, 0);
    size_t cap = 0; u8 *blob = 0;
    u32 hello = 0x51b1e550; xwrite(OUT, &hello, 4);
    for (;;) {
        u32 n, cpu; xread(IN, &n, 4); if (!n) raw(SYS_exit_group, 0, 0, 0); xread(IN, &cpu, 4);
        if (n > cap) { if (blob) raw(SYS_munmap, blob, cap, 0); cap = (n + 0xfffff) & ~0xfffffu; blob = (u8 *)raw6(SYS_mmap, 0, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
        xread(IN, blob, n);
        memset(head, 0, sizeof *head);
        pid_t pid = real_fork();
        if (pid == 0) {
            raw6(SYS_prctl, PR_SET_PDEATHSIG, SIGKILL, 0, 0, 0, 0);
            struct rlimit rl = { cpu, cpu + 2 }; setrlimit(RLIMIT_CPU, &rl); rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl); rl.rlim_cur = rl.rlim_max = 6ull << 30; setrlimit(RLIMIT_AS, &rl);
            raw(SYS_close, IN, 0, 0); raw(SYS_close, OUT, 0, 0);
            size_t as = ((size_t)n * 3 + (64u << 20) + sizeof(Node) * MAXN); arena = (char *)raw6(SYS_mmap, 0, as, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); arena_end = arena + as;
            nodes = take(sizeof(Node) * MAXN); vdirs = take(sizeof(Vdir) * 64 > 0 ? sizeof(Vdir) * MAXDIRS : 0);
            load(blob, n);
            for (u64 i = 0, r = heap_noise; i < (heap_noise & 63); i++) { rng_next(&r); void *volatile p = __libc_malloc(16 + r % 5000); if (r & 0x10000) __libc_free(p); }
            if (sim_arg0) argv[0] = sim_arg0;
            int i; for (i = 0; i < sim_argc && i < argc - 1; i++) argv[i + 1] = sim_argv[i]; if (i + 1 < argc) argv[i + 1] = 0;
            sim_env[sim_envc] = 0; environ = sim_env;
            th[0].state = T_RUN; nth_ = 1; cur = 0; me = 0; errno = 0;
            active = 1;
            int rc = prog_main(sim_argc + 1, argv, sim_env);
            exit(rc);
        }
        int st = 0; while (raw6(SYS_wait4, pid, (long)&st, 0, 0, 0, 0) == -EINTR) ;
        u32 hdr[5] = { (u32)st, (u32)sizeof(Head), (u32)head->loglen, (u32)head->outlen, (u32)head->errlen };
        xwrite(OUT, hdr, sizeof hdr); xwrite(OUT, head, sizeof *head); xwrite(OUT, logbuf, head->loglen); xwrite(OUT, outbuf, head->outlen); xwrite(OUT, errbuf, head->errlen);
    }
}
static void at_end(void) { if (active) { logrec(OP_EXIT, 0, 0, 0, 0, 0, 0); } }
__attribute__((destructor)) static void fini(void) { at_end(); }
__attribute__((constructor)) static void init(void) {
    real_open64 = dlsym(RTLD_NEXT, "open64"); real_read = dlsym(RTLD_NEXT, "read"); real_write = dlsym(RTLD_NEXT, "write"); real_close = dlsym(RTLD_NEXT, "close"); real_fork = dlsym(RTLD_NEXT, "fork");
    real_pthread_create = dlsym(RTLD_NEXT, "pthread_create"); real_pthread_join = dlsym(RTLD_NEXT, "pthread_join"); real_pthread_detach = dlsym(RTLD_NEXT, "pthread_detach"); real_syscall = dlsym(RTLD_NEXT, "syscall");
    pthread_key_create(&exit_key, exit_dtor); dl_iterate_phdr(find_data, 0);
}
EXPORT int __libc_start_main(int (*m)(int, char **, char **), int argc, char **argv, void (*i)(void), void (*f)(void), void (*l)(void), void *end) {
    int (*real)(int (*)(int, char **, char **), int, char **, void (*)(void), void (*)(void), void (*)(void), void *) = dlsym(RTLD_NEXT, "__libc_start_main");
    prog_main = m;
    return real(env_get("SIM_SERVER") ? server : m, argc, argv, i, f, l, end);
}

// See rt.h.  This file is not instrumented.
#include "rt.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#include <new>
#include <random>

extern "C" char __data_start, _end;

namespace rt {

const char *faultName[F_NKINDS] = {"alloc_fail", "open_fail",  "write_error", "disk_full",  "short_write", "eintr",
                                   "close_error", "read_error", "short_read",  "crash", "user_code_throws"};
bool concurrent = false;
void (*onStop)(Stop) = nullptr;
StopInfo stopInfo;

static const int MAXC = 8;
struct Caller {
    int id = 0;
    pthread_t th;
    int go = 0;
    bool op = false, done = false;
    const void *blocked = nullptr;
    uint64_t local = 0;
    std::vector<Preempt> forced, choices;  // explicit schedules
    size_t nextForced = 0, nextChoice = 0;
    const std::vector<Fault> *faults = nullptr;
    OpCount cnt;
    long rw = 0;  // reads and writes, for EINTR
    bool full = false;
};

// The hot part, first so that it stays in one cache line.
static struct {
    bool active;
    bool multi;
    uint64_t local, stop;
    uintptr_t glo, gsz;
} H;

static struct {
    EnvCfg env;
    SchedCfg cfg;
    Rng rng, clockRng, entropyRng, heapRng;
    int heap = 0;
    Caller c[MAXC];
    int n = 0, cur = 0, mainGo = 0;
    bool running = false;
    uint64_t done = 0;  // steps of finished slices
    uint64_t blindAt = ~0ull;
    long preempts = 0;
    Stats st;
    std::vector<Preempt> log;
    Disk disk;
    uint64_t junk = 0;
    int64_t clock = 0;
} G;

static const size_t TAB = 1 << 16;
struct Gran {
    uintptr_t a;
    int8_t last, writer;
    uint16_t count;
};
static Gran *gran;

Stats &stats() { return G.st; }
Disk &disk() { return G.disk; }
std::vector<Preempt> &preemptLog() { return G.log; }
int caller() { return G.cur; }
bool inOp() { return H.active; }

struct Off {  // the runtime's own code is not observed
    bool was;
    Off() : was(H.active) { H.active = false; }
    ~Off() { H.active = was; }
};

void note(uint64_t v) { G.st.eventHash = mix(G.st.eventHash, v); }

static void stopNow(Stop why, int status = 0) {
    H.active = false;
    stopInfo.why = why;
    stopInfo.status = status;
    if (onStop) onStop(why);
    _exit(99);
}

// ---------------------------------------------------------------- baton

static void fwait(int *w) {
    while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    __atomic_store_n(w, 0, __ATOMIC_RELAXED);
}
static void fpost(int *w) {
    __atomic_store_n(w, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

static void armStop() {
    Caller &me = G.c[G.cur];
    uint64_t s = ~0ull;
    uint64_t cap = G.env.stepCap > G.done ? G.env.stepCap - G.done : 0;
    s = me.local + cap + 1;
    if (G.cfg.mode == S_EXPLICIT) {
        while (me.nextForced < me.forced.size() && me.forced[me.nextForced].at < H.local) me.nextForced++;
        if (me.nextForced < me.forced.size()) s = std::min<uint64_t>(s, std::max(me.forced[me.nextForced].at, H.local + 1));
    } else if (H.multi && G.cfg.mean) {
        s = std::min(s, H.local + 1 + G.rng.below(2 * G.cfg.mean));
    }
    H.stop = s;
}

static bool runnable(int i) { return i >= 0 && i < G.n && !G.c[i].done && !G.c[i].blocked; }
static int randomOther() {
    int list[MAXC], k = 0;
    for (int i = 0; i < G.n; i++)
        if (i != G.cur && runnable(i)) list[k++] = i;
    return k ? list[G.rng.below(k)] : -1;
}
static void record(int kind, int to) {
    if (G.log.size() < 60000) G.log.push_back({G.cur, H.local, to, kind});
}
static int chooseOther() {  // the current caller cannot, or does not want to, go on
    Caller &me = G.c[G.cur];
    int to = -1;
    if (G.cfg.mode == S_RANDOM) {
        to = randomOther();
    } else {
        while (me.nextChoice < me.choices.size() && me.choices[me.nextChoice].at < H.local) me.nextChoice++;
        if (me.nextChoice < me.choices.size() && me.choices[me.nextChoice].at == H.local) {
            to = me.choices[me.nextChoice++].to;
            if (to == G.cur || !runnable(to)) to = -1;
        }
        for (int i = 0; to < 0 && i < G.n; i++)
            if (i != G.cur && runnable(i)) to = i;
    }
    if (to >= 0) record(1, to);
    return to;
}

static void switchTo(int to) {
    int from = G.cur;
    if (to == from) return;
    Caller &me = G.c[from], &next = G.c[to];
    me.op = H.active;
    G.done += H.local - me.local;
    me.local = H.local;
    G.st.switches++;
    G.st.schedHash = mix(mix(G.st.schedHash, (uint64_t)from << 8 | to), H.local);
    note(0x5157000000000000ull ^ ((uint64_t)from << 40) ^ ((uint64_t)to << 32) ^ H.local);
    G.cur = to;
    H.local = next.local;
    H.active = next.op;
    armStop();
    fpost(&next.go);
    if (!me.done) {
        fwait(&me.go);
        armStop();
    }
}

static void preemptTo(int to) {
    G.preempts++;
    record(0, to);
    switchTo(to);
}

static void blockOn(const void *what) {  // the current caller cannot go on until wake(what)
    Off off;
    Caller &me = G.c[G.cur];
    me.blocked = what;
    int to = chooseOther();
    if (to < 0) stopNow(STOP_DEADLOCK);
    bool was = off.was;
    H.active = was;
    switchTo(to);
    H.active = false;
}
static void wake(const void *what, bool all = true) {
    for (int i = 0; i < G.n; i++)
        if (G.c[i].blocked == what) {
            G.c[i].blocked = nullptr;
            if (!all) return;
        }
}

static void __attribute__((noinline)) slow() {
    if (G.done + (H.local - G.c[G.cur].local) > G.env.stepCap) stopNow(STOP_HANG);
    Caller &me = G.c[G.cur];
    if (G.cfg.mode == S_EXPLICIT) {
        while (me.nextForced < me.forced.size() && me.forced[me.nextForced].at <= H.local) {
            int to = me.forced[me.nextForced++].to;
            if (to != me.id && runnable(to)) preemptTo(to);
        }
        armStop();
        return;
    }
    if (H.multi && G.cfg.mean && G.preempts < G.cfg.maxPreempts) {
        int to = randomOther();
        if (to >= 0) {
            preemptTo(to);
            return;
        }
    }
    armStop();
}

static void maybePreempt(double p) {
    if (!H.multi || G.cfg.mode == S_EXPLICIT || G.preempts >= G.cfg.maxPreempts || p <= 0) return;
    if (!G.rng.chance(p)) return;
    int to = randomOther();
    if (to >= 0) preemptTo(to);
}

static inline void conflict(uintptr_t a, bool w) {
    uintptr_t g = a >> 3;
    Gran &e = gran[(g * 0x9E3779B97F4A7C15ull) >> 48];
    int me = G.cur;
    if (e.a != g) {
        e.a = g;
        e.last = (int8_t)me;
        e.writer = w ? (int8_t)me : -1;
        e.count = 0;
        if (a - H.glo < H.gsz) {
            e.count = 1;
            maybePreempt(w ? G.cfg.pGlobal : G.cfg.pGlobal / 2);
        }
        return;
    }
    bool hit = (e.writer >= 0 && e.writer != me) || (w && e.last != me);
    if (hit) {
        G.st.conflicts++;
        if (e.count < 65535) e.count++;
        e.last = (int8_t)me;
        if (w) e.writer = (int8_t)me;
        maybePreempt(G.cfg.pConflict / (1 + e.count / 16));
        return;
    }
    e.last = (int8_t)me;
    if (w) e.writer = (int8_t)me;
    if (a - H.glo < H.gsz) {
        if (e.count < 65535) e.count++;
        maybePreempt((w ? G.cfg.pGlobal : G.cfg.pGlobal / 2) / (1 + e.count / 4));
    }
}

static inline void access(void *p, bool w) {
    if (!H.active) return;
    if (++H.local >= H.stop) slow();
    if (H.multi) conflict((uintptr_t)p, w);
}

void seamPoint() {
    if (!H.active) return;
    if (++H.local >= H.stop) slow();
    maybePreempt(G.cfg.pSeam);
}

struct Start {
    Body body;
    void *arg;
    int id;
};
static pthread_key_t exitKey;
static void *threadMain(void *p) {
    Start *s = (Start *)p;
    pthread_setspecific(exitKey, p);
    fwait(&G.c[s->id].go);
    s->body(s->id, s->arg);
    H.active = false;
    return nullptr;
}
static void threadExit(void *p) {  // after the destructors of the thread's own data, still holding the baton
    Start *s = (Start *)p;
    Caller &me = G.c[s->id];
    me.done = true;
    G.st.schedHash = mix(G.st.schedHash, 0xD0 + s->id);
    int to = chooseOther();
    if (to >= 0) {
        switchTo(to);
    } else {
        for (int i = 0; i < G.n; i++)
            if (!G.c[i].done) stopNow(STOP_DEADLOCK);
        G.done += H.local - me.local;
        fpost(&G.mainGo);
    }
}

static void fillJunk(void *p, size_t n) {
    uint64_t *q = (uint64_t *)p;
    for (size_t i = 0; i < n / 8; i++) q[i] = G.junk;
}

void runCallers(int n, Body body, void *arg) {
    G.n = n;
    G.cur = 0;
    concurrent = H.multi = n > 1;
    std::vector<Start> st(n);
    for (int i = 0; i < n; i++) {
        G.c[i] = Caller();
        G.c[i].id = i;
        if (n > 1 && G.cfg.mode == S_EXPLICIT)
            for (auto &p : G.cfg.plan)
                if (p.who == i) (p.kind ? G.c[i].choices : G.c[i].forced).push_back(p);
        st[i] = {body, arg, i};
        const size_t sz = 16 << 20;
        char *stack = (char *)mmap((void *)(0x610000000000ull + i * 0x10000000ull), sz, PROT_READ | PROT_WRITE,
                                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
        fillJunk(stack + sz - (512 << 10), 512 << 10);
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstack(&at, stack, sz);
        if (pthread_create(&G.c[i].th, &at, threadMain, &st[i])) {
            perror("pthread_create");
            _exit(98);
        }
    }
    G.running = true;
    G.cur = 0;
    if (n > 1 && G.cfg.mode == S_RANDOM) G.cur = (int)G.rng.below(n);
    if (n > 1 && G.cfg.mode == S_EXPLICIT && !G.cfg.plan.empty() && G.cfg.plan[0].who < 0)
        G.cur = std::min(n - 1, G.cfg.plan[0].to);
    if (n > 1) G.log.push_back({-1, 0, G.cur, 1});
    H.local = 0;
    armStop();
    fpost(&G.c[G.cur].go);
    fwait(&G.mainGo);
    for (int i = 0; i < n; i++) pthread_join(G.c[i].th, nullptr);
    G.running = false;
    concurrent = H.multi = false;
    G.st.steps = G.done;
}

void enterOp(const std::vector<Fault> *faults) {
    Caller &me = G.c[G.cur];
    me.faults = faults && !faults->empty() ? faults : nullptr;
    me.cnt = OpCount();
    me.cnt.steps = H.local;
    me.rw = 0;
    me.full = false;
    H.active = true;
    seamPoint();
}
OpCount leaveOp() {
    H.active = false;
    Caller &me = G.c[G.cur];
    me.faults = nullptr;
    me.cnt.steps = H.local - me.cnt.steps;
    return me.cnt;
}

static const Fault *fires(FaultKind k, long index) {
    Caller &me = G.c[G.cur];
    if (!me.faults) return nullptr;
    for (auto &f : *me.faults)
        if (f.kind == k && f.index == index) {
            G.st.fired[k]++;
            me.cnt.fired++;
            if (k != F_WSHORT && k != F_EINTR && k != F_RSHORT) me.cnt.hardFired++;
            note(0xFA00000000000000ull ^ ((uint64_t)k << 32) ^ (uint64_t)index);
            return &f;
        }
    return nullptr;
}
bool userFault() {
    Off off;
    return fires(F_THROW, G.c[G.cur].cnt.userCalls++) != nullptr;
}

// ---------------------------------------------------------------- memory

static const uintptr_t ARENA = 0x600000000000ull;
static const size_t ARENA_SZ = 1ull << 30;
static char *brk_, *lim_;
struct Hdr {
    uint32_t size, cls;
    uint64_t magic;
};
static const uint64_t LIVE = 0x4C4956454C495645ull, DEAD = 0x4445414444454144ull, CAN = 0xCA4A91CA4A91CA4Aull;
static Hdr *freeList[80];

static int classOf(size_t n, size_t &rounded) {
    if (n <= 512) {
        rounded = (n + 15) & ~15ull;
        if (!rounded) rounded = 16;
        return (int)(rounded / 16);
    }
    int k = 10;
    while ((1ull << k) < n) k++;
    rounded = 1ull << k;
    return 33 + k - 9;
}
static void die(const char *m) {
    fprintf(stderr, "sim: %s\n", m);
    abort();
}
static void *aalloc(size_t n) {
    size_t r;
    if (n > ARENA_SZ) stopNow(STOP_MEMORY);
    int c = classOf(n, r);
    Hdr *h = freeList[c];
    if (h) {
        freeList[c] = *(Hdr **)(h + 1);
    } else {
        size_t need = sizeof(Hdr) + r + 16;
        if (brk_ + need > lim_) stopNow(STOP_MEMORY);
        // where fresh blocks lie differs from environment to environment: upwards, downwards or at either end
        if (G.heap == 1 || (G.heap >= 2 && (G.heapRng.next() & 4096))) {
            lim_ -= need;
            h = (Hdr *)lim_;
        } else {
            h = (Hdr *)brk_;
            brk_ += need;
        }
    }
    h->size = (uint32_t)n;
    h->cls = c;
    h->magic = LIVE;
    fillJunk(h + 1, r);
    uint64_t can = CAN;
    memcpy((char *)(h + 1) + n, &can, 8);
    return h + 1;
}
static bool ours(const void *p) { return (uintptr_t)p - ARENA < ARENA_SZ; }
static void afree(void *p) {
    Hdr *h = (Hdr *)p - 1;
    if (h->magic == DEAD) die("double free");
    if (h->magic != LIVE) die("free of a block that was never allocated");
    if (memcmp((char *)p + h->size, &CAN, 8)) die("write past the end of a heap block");
    h->magic = DEAD;
    size_t r;
    classOf(h->size, r);
    memset(p, 0xDD, r);
    *(Hdr **)p = freeList[h->cls];
    freeList[h->cls] = h;
}

static bool allocFault() {
    if (!H.active) return false;
    seamPoint();
    Off off;
    G.st.allocs++;
    return fires(F_ALLOC, G.c[G.cur].cnt.allocs++) != nullptr;
}

}  // namespace rt
using namespace rt;

void *operator new(size_t n) {
    if (!brk_) {
        void *p = malloc(n ? n : 1);
        if (!p) throw std::bad_alloc();
        return p;
    }
    if (allocFault()) throw std::bad_alloc();
    return aalloc(n);
}
void operator delete(void *p) noexcept {
    if (!p) return;
    if (ours(p))
        afree(p);
    else
        free(p);
}
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void *operator new[](size_t n) { return operator new(n); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }

extern "C" {
void *sim_malloc(size_t n) {
    if (!brk_) return malloc(n);
    if (allocFault()) {
        errno = ENOMEM;
        return nullptr;
    }
    return aalloc(n);
}
void sim_free(void *p) { operator delete(p); }
void *sim_calloc(size_t a, size_t b) {
    void *p = sim_malloc(a * b);
    if (p) memset(p, 0, a * b);
    return p;
}
void *sim_realloc(void *p, size_t n) {
    if (!p) return sim_malloc(n);
    if (!ours(p)) return realloc(p, n);
    void *q = sim_malloc(n);
    if (!q) return nullptr;
    Hdr *h = (Hdr *)p - 1;
    memcpy(q, p, h->size < n ? h->size : n);
    afree(p);
    return q;
}
void sim_exit(int status) {
    if (H.active) stopNow(STOP_EXIT, status);
    exit(status);
}

// The C library's functions that touch memory are not instrumented; what the library under test hands them is.
#define SPAN(p, n, w)                                                                   \
    do {                                                                                \
        if (H.active && (n)) {                                                          \
            access((void *)(p), w);                                                     \
            if ((size_t)(n) > 8) access((void *)((char *)(p) + (size_t)(n) - 1), w);    \
        }                                                                               \
    } while (0)
void *sim_memcpy(void *d, const void *s, size_t n) {
    SPAN(s, n, false);
    SPAN(d, n, true);
    return memcpy(d, s, n);
}
void *sim_memmove(void *d, const void *s, size_t n) {
    SPAN(s, n, false);
    SPAN(d, n, true);
    return memmove(d, s, n);
}
void *sim_memset(void *d, int c, size_t n) {
    SPAN(d, n, true);
    return memset(d, c, n);
}
int sim_memcmp(const void *a, const void *b, size_t n) {
    SPAN(a, n, false);
    SPAN(b, n, false);
    return memcmp(a, b, n);
}
void *sim_memchr(const void *a, int c, size_t n) {
    SPAN(a, n, false);
    return (void *)memchr(a, c, n);
}
size_t sim_strlen(const char *a) {
    SPAN(a, 1, false);
    return strlen(a);
}
int sim_strcmp(const char *a, const char *b) {
    SPAN(a, 1, false);
    SPAN(b, 1, false);
    return strcmp(a, b);
}
int sim_strncmp(const char *a, const char *b, size_t n) {
    SPAN(a, n, false);
    SPAN(b, n, false);
    return strncmp(a, b, n);
}
char *sim_strcpy(char *d, const char *s) {
    SPAN(s, 1, false);
    SPAN(d, strlen(s) + 1, true);
    return strcpy(d, s);
}
char *sim_strncpy(char *d, const char *s, size_t n) {
    SPAN(s, 1, false);
    SPAN(d, n, true);
    return strncpy(d, s, n);
}
char *sim_strcat(char *d, const char *s) {
    SPAN(s, 1, false);
    SPAN(d, 1, true);
    return strcat(d, s);
}
char *sim_strchr(const char *s, int c) {
    SPAN(s, 1, false);
    return (char *)strchr(s, c);
}
char *sim_strstr(const char *s, const char *q) {
    SPAN(s, 1, false);
    return (char *)strstr(s, q);
}
char *sim_strtok(char *s, const char *q) {  // keeps its place in a static
    seamPoint();
    char *r = strtok(s, q);
    seamPoint();
    return r;
}
double sim_strtod(const char *s, char **e) {
    SPAN(s, 1, false);
    return strtod(s, e);
}
double sim_atof(const char *s) {
    SPAN(s, 1, false);
    return atof(s);
}
int sim_vsnprintf(char *d, size_t n, const char *f, va_list l) {
    SPAN(d, n ? 1 : 0, true);
    return vsnprintf(d, n, f, l);
}
int sim_snprintf(char *d, size_t n, const char *f, ...) {
    va_list l;
    va_start(l, f);
    int r = sim_vsnprintf(d, n, f, l);
    va_end(l);
    return r;
}
int sim_vsprintf(char *d, const char *f, va_list l) { return sim_vsnprintf(d, 1 << 30, f, l); }
int sim_sprintf(char *d, const char *f, ...) {
    va_list l;
    va_start(l, f);
    int r = sim_vsnprintf(d, 1 << 30, f, l);
    va_end(l);
    return r;
}

// ---------------------------------------------------------------- instrumentation

void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n)                                                     \
    void __tsan_read##n(void *p) { access(p, false); }            \
    void __tsan_write##n(void *p) { access(p, true); }            \
    void __tsan_unaligned_read##n(void *p) { access(p, false); }  \
    void __tsan_unaligned_write##n(void *p) { access(p, true); }  \
    void __tsan_volatile_read##n(void *p) { access(p, false); }   \
    void __tsan_volatile_write##n(void *p) { access(p, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t) { access(p, false); }
void __tsan_write_range(void *p, size_t) { access(p, true); }
void __tsan_vptr_update(void **p, void *) { access(p, true); }
void __tsan_vptr_read(void **p) { access(p, false); }

#define ATOMIC(n, T)                                                                                          \
    T __tsan_atomic##n##_load(const volatile T *a, int) {                                                     \
        access((void *)a, false);                                                                             \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                          \
    }                                                                                                         \
    void __tsan_atomic##n##_store(volatile T *a, T v, int) {                                                  \
        access((void *)a, true);                                                                              \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                         \
    T __tsan_atomic##n##_exchange(volatile T *a, T v, int) {                                                  \
        access((void *)a, true);                                                                              \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                   \
    }                                                                                                         \
    T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int) {                                                 \
        access((void *)a, true);                                                                              \
        return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                    \
    }                                                                                                         \
    T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int) {                                                 \
        access((void *)a, true);                                                                              \
        return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                    \
    }                                                                                                         \
    T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int) {                                                 \
        access((void *)a, true);                                                                              \
        return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                    \
    }                                                                                                         \
    T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int) {                                                  \
        access((void *)a, true);                                                                              \
        return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                     \
    }                                                                                                         \
    T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int) {                                                 \
        access((void *)a, true);                                                                              \
        return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                    \
    }                                                                                                         \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) {                      \
        access((void *)a, true);                                                                              \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);               \
    }                                                                                                         \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) {                        \
        access((void *)a, true);                                                                              \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);               \
    }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { seamPoint(); }
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- blocking

int __cxa_guard_acquire(uint64_t *g) {
    seamPoint();
    volatile uint8_t *b = (volatile uint8_t *)g;
    for (;;) {
        if (b[0]) return 0;
        if (!b[1]) {
            b[1] = (uint8_t)(1 + G.cur);
            return 1;
        }
        if (!G.running) return 1;
        blockOn(g);
    }
}
void __cxa_guard_release(uint64_t *g) {
    seamPoint();
    volatile uint8_t *b = (volatile uint8_t *)g;
    b[0] = 1;
    b[1] = 0;
    wake(g);
}
void __cxa_guard_abort(uint64_t *g) {
    volatile uint8_t *b = (volatile uint8_t *)g;
    b[1] = 0;
    wake(g);
}

#define REAL(ret, name, ...)                     \
    typedef ret (*name##_fn)(__VA_ARGS__);       \
    static name##_fn real_##name() {             \
        static name##_fn f = nullptr;            \
        if (!f) f = (name##_fn)dlsym(RTLD_NEXT, #name); \
        return f;                                \
    }

struct Mx {
    void *m;
    int owner, depth;
};
static Mx mxs[256];
static Mx *mx(void *m) {
    Mx *freeOne = nullptr;
    for (auto &x : mxs) {
        if (x.m == m) return &x;
        if (!x.m && !freeOne) freeOne = &x;
    }
    if (!freeOne) die("too many locks");
    freeOne->m = m;
    freeOne->owner = -1;
    freeOne->depth = 0;
    return freeOne;
}
REAL(int, pthread_mutex_lock, pthread_mutex_t *)
REAL(int, pthread_mutex_trylock, pthread_mutex_t *)
REAL(int, pthread_mutex_unlock, pthread_mutex_t *)
static bool coop(void *m) {  // locks taken by the library go through the scheduler
    if (!G.running) return false;
    if (H.active) return true;
    for (auto &x : mxs)
        if (x.m == m) return true;
    return false;
}
int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!coop(m)) return real_pthread_mutex_lock()(m);
    seamPoint();
    Mx *x = mx(m);
    while (x->owner >= 0) {
        if (x->owner == G.cur) {
            if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) {
                x->depth++;
                return 0;
            }
            stopNow(STOP_DEADLOCK);
        }
        blockOn(m);
        x = mx(m);
    }
    x->owner = G.cur;
    x->depth = 1;
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!coop(m)) return real_pthread_mutex_trylock()(m);
    seamPoint();
    Mx *x = mx(m);
    if (x->owner >= 0) return EBUSY;
    x->owner = G.cur;
    x->depth = 1;
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!coop(m)) return real_pthread_mutex_unlock()(m);
    Mx *x = mx(m);
    if (x->owner == G.cur && --x->depth > 0) return 0;
    x->m = nullptr;
    x->owner = -1;
    wake(m);
    seamPoint();
    return 0;
}
// readers and one writer
struct Rw {
    void *m;
    int writer, readers;
};
static Rw rws[256];
static Rw *rw(void *m) {
    Rw *freeOne = nullptr;
    for (auto &x : rws) {
        if (x.m == m) return &x;
        if (!x.m && !freeOne) freeOne = &x;
    }
    if (!freeOne) die("too many locks");
    freeOne->m = m;
    freeOne->writer = -1;
    freeOne->readers = 0;
    return freeOne;
}
static bool coopRw(void *m) {
    if (!G.running) return false;
    if (H.active) return true;
    for (auto &x : rws)
        if (x.m == m) return true;
    return false;
}
static int rwTake(void *m, bool write, bool wait) {
    seamPoint();
    for (;;) {
        Rw *x = rw(m);
        if (x->writer < 0 && (!write || !x->readers)) {
            if (write)
                x->writer = G.cur;
            else
                x->readers++;
            return 0;
        }
        if (!wait) return EBUSY;
        if (x->writer == G.cur) stopNow(STOP_DEADLOCK);
        blockOn(m);
    }
}
REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t *)
REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t *)
REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t *)
REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t *)
REAL(int, pthread_rwlock_unlock, pthread_rwlock_t *)
int pthread_rwlock_rdlock(pthread_rwlock_t *m) { return coopRw(m) ? rwTake(m, false, true) : real_pthread_rwlock_rdlock()(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { return coopRw(m) ? rwTake(m, true, true) : real_pthread_rwlock_wrlock()(m); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { return coopRw(m) ? rwTake(m, false, false) : real_pthread_rwlock_tryrdlock()(m); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) { return coopRw(m) ? rwTake(m, true, false) : real_pthread_rwlock_trywrlock()(m); }
int pthread_rwlock_unlock(pthread_rwlock_t *m) {
    if (!coopRw(m)) return real_pthread_rwlock_unlock()(m);
    Rw *x = rw(m);
    if (x->writer >= 0)
        x->writer = -1;
    else
        x->readers--;
    if (x->readers <= 0) {
        x->m = nullptr;
        wake(m);
    }
    seamPoint();
    return 0;
}
REAL(int, pthread_once, pthread_once_t *, void (*)())
int pthread_once(pthread_once_t *o, void (*f)()) {
    if (!G.running) {
        if (*o == 2) return 0;  // done under the scheduler
        return real_pthread_once()(o, f);
    }
    volatile int *s = (volatile int *)o;
    seamPoint();
    for (;;) {
        if (*s == 2) return 0;
        if (*s == 0) {
            *s = 1;
            try {
                f();
            } catch (...) {
                *s = 0;
                wake(o);
                throw;
            }
            *s = 2;
            wake(o);
            return 0;
        }
        blockOn(o);
    }
}
REAL(int, pthread_cond_wait, pthread_cond_t *, pthread_mutex_t *)
REAL(int, pthread_cond_signal, pthread_cond_t *)
REAL(int, pthread_cond_broadcast, pthread_cond_t *)
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!G.running) return real_pthread_cond_wait()(c, m);
    Mx *x = mx(m);
    x->m = nullptr;
    x->owner = -1;
    wake(m);
    blockOn(c);
    return pthread_mutex_lock(m);
}
int pthread_cond_signal(pthread_cond_t *c) {
    if (!G.running) return real_pthread_cond_signal()(c);
    wake(c, false);
    seamPoint();
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    if (!G.running) return real_pthread_cond_broadcast()(c);
    wake(c);
    seamPoint();
    return 0;
}
int sched_yield() {
    if (!G.running) return 0;
    int to = chooseOther();
    if (to >= 0) switchTo(to);
    return 0;
}

// ---------------------------------------------------------------- clock, environment, entropy

static void tickClock() {
    G.st.clockReads++;
    G.clock += (int64_t)G.clockRng.below(2000000);
    if (G.clockRng.below(4) == 0) G.clock += ((int64_t)G.clockRng.below(7200) - 3600) * 1000000000ll;  // jumps, both ways
}
REAL(int, gettimeofday, struct timeval *, void *)
int gettimeofday(struct timeval *tv, void *tz) {
    if (!H.active) return real_gettimeofday()(tv, tz);
    Off off;
    tickClock();
    tv->tv_sec = G.clock / 1000000000ll;
    tv->tv_usec = (G.clock % 1000000000ll) / 1000;
    return 0;
}
REAL(int, clock_gettime, clockid_t, struct timespec *)
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!H.active) return real_clock_gettime()(id, ts);
    Off off;
    tickClock();
    ts->tv_sec = G.clock / 1000000000ll;
    ts->tv_nsec = G.clock % 1000000000ll;
    return 0;
}
REAL(time_t, time, time_t *)
time_t time(time_t *t) {
    if (!H.active) return real_time()(t);
    Off off;
    tickClock();
    time_t v = G.clock / 1000000000ll;
    if (t) *t = v;
    return v;
}
REAL(clock_t, clock, void)
clock_t clock() {
    if (!H.active) return real_clock()();
    Off off;
    tickClock();
    return (clock_t)(G.clock / 1000);
}
REAL(char *, getenv, const char *)
char *getenv(const char *n) {
    if (!H.active) return real_getenv()(n);
    Off off;
    if (!strcmp(n, "HOME")) return G.env.home.empty() ? nullptr : (char *)G.env.home.c_str();
    return real_getenv()(n);
}
REAL(ssize_t, getrandom, void *, size_t, unsigned)
ssize_t getrandom(void *p, size_t n, unsigned f) {
    if (!H.active) return real_getrandom()(p, n, f);
    Off off;
    G.st.entropyReads++;
    for (size_t i = 0; i < n; i++) ((char *)p)[i] = (char)G.entropyRng.next();
    return (ssize_t)n;
}
unsigned int sim_random_device(void *) __asm__("_ZNSt13random_device9_M_getvalEv");
unsigned int sim_random_device(void *) {
    Off off;
    G.st.entropyReads++;
    return (unsigned)G.entropyRng.next();
}

// ---------------------------------------------------------------- disk

struct SimFile {
    std::string path;
    size_t pos, wrote;
    bool rd, wr, app;
    FILE *f;
    int fd;
    bool open;
};
static SimFile files[64];
static const int FD0 = 100000;
static bool simPath(const char *p) {
    const std::string &h = G.env.home;
    return p && ((!h.empty() && !strncmp(p, h.c_str(), h.size())) || !strncmp(p, "/simhome", 8));
}
static SimFile *byFd(int fd) {
    if (fd < FD0 || fd >= FD0 + 64 || !files[fd - FD0].open) return nullptr;
    return &files[fd - FD0];
}
static SimFile *openSim(const char *path, bool rd, bool wr, bool creat, bool trunc, bool app) {
    Off off;
    Caller &me = G.c[G.cur];
    G.st.ioCalls++;
    if (const Fault *f = fires(F_OPEN, me.cnt.opens++)) {
        errno = (int)f->arg;
        return nullptr;
    }
    auto it = G.disk.find(path);
    if (it == G.disk.end()) {
        if (!creat) {
            errno = ENOENT;
            return nullptr;
        }
        G.disk[path] = "";
    } else if (trunc) {
        it->second.clear();
    }
    for (int i = 0; i < 64; i++)
        if (!files[i].open) {
            files[i].path = path;
            files[i].pos = files[i].wrote = 0;
            files[i].rd = rd;
            files[i].wr = wr;
            files[i].app = app;
            files[i].f = nullptr;
            files[i].fd = FD0 + i;
            files[i].open = true;
            return &files[i];
        }
    errno = EMFILE;
    return nullptr;
}
static ssize_t fwriteSim(SimFile *s, const char *p, size_t n) {
    seamPoint();
    Off off;
    Caller &me = G.c[G.cur];
    G.st.ioCalls++;
    long w = me.cnt.writes++;
    if (!s->wr) {
        errno = EBADF;
        return -1;
    }
    if (fires(F_EINTR, me.rw++)) {
        errno = EINTR;
        return -1;
    }
    if (fires(F_WRITE, w)) {
        errno = EIO;
        return -1;
    }
    std::string &d = G.disk[s->path];
    auto put = [&](size_t k) {
        if (s->app) s->pos = d.size();
        if (d.size() < s->pos + k) d.resize(s->pos + k);
        d.replace(s->pos, k, p, k);
        s->pos += k;
        s->wrote += k;
    };
    if (me.full) {
        errno = ENOSPC;
        return -1;
    }
    if (const Fault *f = fires(F_NOSPC, w)) {
        me.full = true;
        size_t k = std::min<size_t>((size_t)f->arg, n);
        if (k == n && k) k = n - 1;
        if (k) {
            put(k);
            return (ssize_t)k;
        }
        errno = ENOSPC;
        return -1;
    }
    if (const Fault *f = fires(F_WSHORT, w)) {
        size_t k = std::min<size_t>(std::max<long>(1, f->arg), n);
        put(k);
        return (ssize_t)k;
    }
    if (const Fault *f = fires(F_CRASH, w)) {
        put(std::min<size_t>((size_t)f->arg, n));
        stopNow(STOP_CRASHPOINT);
    }
    put(n);
    return (ssize_t)n;
}
static ssize_t freadSim(SimFile *s, char *p, size_t n) {
    seamPoint();
    Off off;
    Caller &me = G.c[G.cur];
    G.st.ioCalls++;
    long r = me.cnt.reads++;
    if (!s->rd) {
        errno = EBADF;
        return -1;
    }
    if (fires(F_EINTR, me.rw++)) {
        errno = EINTR;
        return -1;
    }
    if (fires(F_READ, r)) {
        errno = EIO;
        return -1;
    }
    std::string &d = G.disk[s->path];
    size_t k = s->pos < d.size() ? std::min(n, d.size() - s->pos) : 0;
    if (k > 1)
        if (const Fault *f = fires(F_RSHORT, r)) k = std::min<size_t>(std::max<long>(1, f->arg), k);
    memcpy(p, d.data() + s->pos, k);
    s->pos += k;
    return (ssize_t)k;
}
static off64_t seekSim(SimFile *s, off64_t o, int wh) {
    Off off;
    off64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off64_t)s->pos : (off64_t)G.disk[s->path].size();
    if (base + o < 0) {
        errno = EINVAL;
        return -1;
    }
    s->pos = (size_t)(base + o);
    return (off64_t)s->pos;
}
static int closeSim(SimFile *s) {
    seamPoint();
    Off off;
    Caller &me = G.c[G.cur];
    G.st.ioCalls++;
    s->open = false;
    s->f = nullptr;
    if (fires(F_CLOSE, me.cnt.closes++)) {
        std::string &d = G.disk[s->path];  // what was not yet on its way to the disk may be lost
        size_t lose = std::min(s->wrote, d.size());
        if (lose && me.cnt.closes % 3) d.resize(d.size() - 1 - (me.cnt.closes % 3 == 1 ? lose - 1 : lose / 2));
        s->wrote = 0;
        errno = EIO;
        return -1;
    }
    return 0;
}
static ssize_t ckWrite(void *c, const char *p, size_t n) {
    ssize_t r = fwriteSim((SimFile *)c, p, n);
    return r < 0 ? 0 : r;
}
static ssize_t ckRead(void *c, char *p, size_t n) { return freadSim((SimFile *)c, p, n); }
static int ckSeek(void *c, off64_t *o, int wh) {
    off64_t r = seekSim((SimFile *)c, *o, wh);
    if (r < 0) return -1;
    *o = r;
    return 0;
}
static int ckClose(void *c) { return closeSim((SimFile *)c); }

REAL(FILE *, fopen, const char *, const char *)
FILE *fopen(const char *path, const char *mode) {
    if (!H.active || !simPath(path)) return real_fopen()(path, mode);
    seamPoint();
    bool plus = strchr(mode, '+');
    SimFile *s = openSim(path, mode[0] == 'r' || plus, mode[0] != 'r' || plus, mode[0] != 'r', mode[0] == 'w', mode[0] == 'a');
    if (!s) return nullptr;
    Off off;
    cookie_io_functions_t io = {ckRead, ckWrite, ckSeek, ckClose};
    s->f = fopencookie(s, mode, io);
    return s->f;
}
FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }
REAL(int, fileno, FILE *)
int fileno(FILE *f) {
    for (auto &s : files)
        if (s.open && s.f == f) return s.fd;
    return real_fileno()(f);
}
REAL(int, open, const char *, int, mode_t)
int open(const char *path, int flags, ...) {
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list ap;
        va_start(ap, flags);
        m = va_arg(ap, mode_t);
        va_end(ap);
    }
    if (!H.active || !simPath(path)) return real_open()(path, flags, m);
    seamPoint();
    int acc = flags & O_ACCMODE;
    SimFile *s = openSim(path, acc != O_WRONLY, acc != O_RDONLY, flags & O_CREAT, flags & O_TRUNC, flags & O_APPEND);
    return s ? s->fd : -1;
}
int open64(const char *path, int flags, ...) {
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list ap;
        va_start(ap, flags);
        m = va_arg(ap, mode_t);
        va_end(ap);
    }
    return open(path, flags, m);
}
REAL(int, close, int)
int close(int fd) {
    if (SimFile *s = byFd(fd)) return closeSim(s);
    return real_close()(fd);
}
REAL(ssize_t, write, int, const void *, size_t)
ssize_t write(int fd, const void *p, size_t n) {
    if (SimFile *s = byFd(fd)) return fwriteSim(s, (const char *)p, n);
    return real_write()(fd, p, n);
}
REAL(ssize_t, writev, int, const struct iovec *, int)
ssize_t writev(int fd, const struct iovec *v, int k) {
    SimFile *s = byFd(fd);
    if (!s) return real_writev()(fd, v, k);
    static char buf[1 << 20];
    size_t n = 0;
    for (int i = 0; i < k; i++) {
        size_t m = std::min(v[i].iov_len, sizeof buf - n);
        memcpy(buf + n, v[i].iov_base, m);
        n += m;
    }
    return fwriteSim(s, buf, n);
}
REAL(ssize_t, read, int, void *, size_t)
ssize_t read(int fd, void *p, size_t n) {
    if (SimFile *s = byFd(fd)) return freadSim(s, (char *)p, n);
    return real_read()(fd, p, n);
}
REAL(off64_t, lseek64, int, off64_t, int)
off64_t lseek64(int fd, off64_t o, int wh) {
    if (SimFile *s = byFd(fd)) return seekSim(s, o, wh);
    return real_lseek64()(fd, o, wh);
}
off_t lseek(int fd, off_t o, int wh) { return lseek64(fd, o, wh); }
REAL(int, fsync, int)
int fsync(int fd) {
    if (byFd(fd)) return 0;
    return real_fsync()(fd);
}
int fdatasync(int fd) { return fsync(fd); }
static void statSim(struct stat *st, const std::string &path) {
    memset(st, 0, sizeof *st);
    st->st_mode = S_IFREG | 0644;
    st->st_size = (off_t)G.disk[path].size();
    st->st_nlink = 1;
    st->st_blksize = 4096;
}
REAL(int, fstat, int, struct stat *)
int fstat(int fd, struct stat *st) {
    if (SimFile *s = byFd(fd)) {
        Off off;
        statSim(st, s->path);
        return 0;
    }
    return real_fstat()(fd, st);
}
int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
REAL(int, stat, const char *, struct stat *)
int stat(const char *p, struct stat *st) {
    if (H.active && simPath(p)) {
        Off off;
        if (!G.disk.count(p)) {
            errno = ENOENT;
            return -1;
        }
        statSim(st, p);
        return 0;
    }
    return real_stat()(p, st);
}
REAL(int, access, const char *, int)
int access(const char *p, int m) {
    if (H.active && simPath(p)) {
        Off off;
        if (G.disk.count(p)) return 0;
        errno = ENOENT;
        return -1;
    }
    return real_access()(p, m);
}
REAL(int, rename, const char *, const char *)
int rename(const char *a, const char *b) {
    if (H.active && simPath(a)) {
        seamPoint();
        Off off;
        auto it = G.disk.find(a);
        if (it == G.disk.end()) {
            errno = ENOENT;
            return -1;
        }
        std::string d = it->second;
        G.disk.erase(it);
        G.disk[b] = d;
        return 0;
    }
    return real_rename()(a, b);
}
REAL(int, unlink, const char *)
int unlink(const char *p) {
    if (H.active && simPath(p)) {
        seamPoint();
        Off off;
        if (G.disk.erase(p)) return 0;
        errno = ENOENT;
        return -1;
    }
    return real_unlink()(p);
}
REAL(int, remove, const char *)
int remove(const char *p) {
    if (H.active && simPath(p)) return unlink(p);
    return real_remove()(p);
}
REAL(int, poll, struct pollfd *, nfds_t, int)
int poll(struct pollfd *f, nfds_t n, int t) {
    if (n == 1 && byFd(f->fd)) {
        f->revents = f->events;
        return 1;
    }
    return real_poll()(f, n, t);
}
REAL(int, ioctl, int, unsigned long, void *)
int ioctl(int fd, unsigned long r, ...) {
    va_list ap;
    va_start(ap, r);
    void *a = va_arg(ap, void *);
    va_end(ap);
    if (SimFile *s = byFd(fd)) {
        if (r == FIONREAD) {
            Off off;
            size_t sz = G.disk[s->path].size();
            *(int *)a = (int)(sz > s->pos ? sz - s->pos : 0);
            return 0;
        }
        errno = ENOTTY;
        return -1;
    }
    return real_ioctl()(fd, r, a);
}
}  // extern "C"

// ---------------------------------------------------------------- start-up

#ifdef RNG_SEAM0
extern std::mt19937 simRng0 __asm__("_ZN13Random_Double3rngE");
#endif
#ifdef RNG_SEAM1
extern std::mt19937 simRng1 __asm__("_ZN14Random_Integer3rngE");
#endif
#ifdef RNG_SEAM2
extern std::mt19937 simRng2 __asm__("_ZN17RandomDoubleNoise3rngE");
#endif
#ifdef RNG_SEAM3
extern std::mt19937 simRng3 __asm__("_ZN18RandomIntegerNoise3rngE");
#endif

// Raw streams at the ends of their range: zeros, ones, in turn, or mixed with ordinary ones, for the first 600 draws.
static unsigned long untemper(unsigned long y) {
    y ^= y >> 18;
    y ^= (y << 15) & 0xefc60000ul;
    unsigned long x = y;
    for (int i = 0; i < 5; i++) x = y ^ ((x << 7) & 0x9d2c5680ul);
    y = x & 0xfffffffful;
    x = y;
    for (int i = 0; i < 3; i++) x = y ^ (x >> 11);
    return x & 0xfffffffful;
}
static __attribute__((unused)) void reseed(std::mt19937 &r, unsigned seed, int extreme) {
    r.seed(seed);
    if (!extreme) return;
    unsigned long *x = (unsigned long *)&r;  // 624 words and the position
    rt::Rng g(seed);
    for (int i = 0; i < 600; i++)
        if (extreme < 4 || g.chance(0.5)) x[i] = untemper(extreme == 1 ? 0 : extreme == 2 ? 0xfffffffful : (extreme == 3 ? i % 2 : g.below(2)) ? 0xfffffffful : 0);
    x[624] = 0;
}

namespace rt {
void init(const EnvCfg &e, const SchedCfg &s) {
    G.env = e;
    G.cfg = s;
    pthread_key_create(&exitKey, threadExit);
    G.log.reserve(60002);
    G.rng = Rng(s.seed ^ 0xA5A5);
    G.entropyRng = Rng(e.entropy);
    G.clockRng = Rng(e.clock);
    G.clock = (int64_t)(Rng(e.clock).below(4000000000ull)) * 1000000000ll;
    Rng j(e.junk);
    G.heap = (int)(e.junk / 6 % 3);
    G.heapRng = Rng(e.junk ^ 0x48454150);
    switch (e.junk % 6) {
        case 0: G.junk = 0; break;
        case 1: G.junk = ~0ull; break;
        case 2: G.junk = 0x7FF8DEADBEEF0001ull; break;
        case 3: G.junk = 0x0000000100000001ull * (1 + j.below(5)); break;
        case 4: G.junk = 0x4000000000000000ull; break;
        default: G.junk = j.next();
    }
    H.glo = (uintptr_t)&__data_start;
    H.gsz = (uintptr_t)&_end - H.glo;
    gran = (Gran *)mmap(nullptr, TAB * sizeof(Gran), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    char *a = (char *)mmap((void *)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE,
                           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (a == MAP_FAILED) {
        perror("mmap");
        _exit(98);
    }
    lim_ = a + ARENA_SZ;
    brk_ = a;
    if (e.rng) {
        int extreme __attribute__((unused)) = (int)(e.rng >> 40);
#ifdef RNG_SEAM0
        reseed(simRng0, (unsigned)e.rng, extreme);
#endif
#ifdef RNG_SEAM1
        reseed(simRng1, (unsigned)(e.rng * 3 + 1), extreme);
#endif
#ifdef RNG_SEAM2
        reseed(simRng2, (unsigned)(e.rng * 5 + 2), extreme);
#endif
#ifdef RNG_SEAM3
        reseed(simRng3, (unsigned)(e.rng * 7 + 3), extreme);
#endif
    }
}
}  // namespace rt

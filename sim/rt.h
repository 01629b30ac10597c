// The simulator's runtime: scheduler, memory, disk, clock, environment and entropy seams.
//
// The library under test is compiled with -fsanitize=thread *instrumentation* but linked against this file instead
// of libtsan, so every load and store it makes is a scheduling point (and one tick of simulated time) that the
// seeded scheduler decides about.  Callers are real threads (so thread-local data is real) that hold a baton: exactly
// one runs at any instant, and who runs next is never left to the operating system.
#pragma once
#include <cstddef>
#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace rt {

struct Rng {  // splitmix64
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double in(double a, double b) { return a + (b - a) * unit(); }
    bool chance(double p) { return unit() < p; }
    template <class T>
    const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

enum FaultKind {
    F_ALLOC, F_OPEN, F_WRITE, F_NOSPC, F_WSHORT, F_EINTR, F_CLOSE, F_READ, F_RSHORT, F_CRASH, F_THROW, F_NKINDS
};
extern const char *faultName[F_NKINDS];

struct Fault {  // fires at the index-th event of its kind inside the operation it is attached to
    FaultKind kind;
    long index;
    long arg;
};

struct Preempt {  // caller `who` loses the baton to `to` when it has made `at` steps
    int who;
    uint64_t at;
    int to;
    int kind;  // 1: it had to give it up (blocked, finished); `to` is only who came next
};

enum SchedMode { S_EXPLICIT, S_RANDOM };

struct SchedCfg {
    SchedMode mode = S_EXPLICIT;
    uint64_t seed = 0;
    uint64_t mean = 0;      // mean distance of blind preemptions, 0 = none
    double pConflict = 0;   // chance to preempt at an access that conflicts with another caller's
    double pGlobal = 0;     // chance to preempt at an early access to process-wide data
    double pSeam = 0;       // chance to preempt at an allocation, lock or file call
    long maxPreempts = 2000;
    std::vector<Preempt> plan;  // explicit mode
};

struct EnvCfg {
    uint64_t junk = 1;      // fills fresh heap and stack memory
    uint64_t entropy = 1;   // std::random_device
    uint64_t clock = 1;     // wall clock start and jumps
    uint64_t rng = 0;       // stream of the library's process-wide generators (0: as shipped)
    std::string home = "/simhome";
    uint64_t stepCap = 400000000ull;
};

struct Stats {
    uint64_t steps = 0, switches = 0, conflicts = 0, allocs = 0, ioCalls = 0, schedHash = 14695981039346656037ull;
    uint64_t eventHash = 14695981039346656037ull;
    long fired[F_NKINDS] = {0};
    uint64_t clockReads = 0, entropyReads = 0;
};

struct OpCount {  // what one operation did, for aiming faults
    long allocs = 0, opens = 0, writes = 0, reads = 0, closes = 0, userCalls = 0;
    uint64_t steps = 0;
    long fired = 0, hardFired = 0;
};

typedef std::map<std::string, std::string> Disk;

void init(const EnvCfg &, const SchedCfg &);      // once per simulated process
typedef void (*Body)(int caller, void *arg);
void runCallers(int n, Body body, void *arg);      // returns when every caller is done
extern bool concurrent;                            // more than one caller is running

int caller();
void enterOp(const std::vector<Fault> *faults);    // from here to leaveOp the library runs, under the scheduler
OpCount leaveOp();
bool inOp();
void note(uint64_t v);                             // event log (hash)
void seamPoint();                                  // a scheduling point outside the library's own accesses
bool userFault();                                  // F_THROW: the caller's own code fails now?

Disk &disk();
Stats &stats();
std::vector<Preempt> &preemptLog();

enum Stop { STOP_NONE, STOP_HANG, STOP_DEADLOCK, STOP_MEMORY, STOP_EXIT, STOP_CRASHPOINT };
extern void (*onStop)(Stop);                       // ends the simulated process; must not return
struct StopInfo {
    Stop why = STOP_NONE;
    int status = 0;
};
extern StopInfo stopInfo;

inline uint64_t mix(uint64_t h, uint64_t v) {
    for (int i = 0; i < 8; i++) {
        h ^= (v >> (8 * i)) & 255;
        h *= 1099511628211ull;
    }
    return h;
}

}  // namespace rt

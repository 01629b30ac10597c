// The engine: runs plans in simulated processes, compares them with their reference runs, minimises what fails.
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <locale>
#include <sstream>

#include "exec.h"

using namespace rt;

Report &currentReport();

// ------------------------------------------------------------------ talking to the simulated process

struct Header {
    volatile int state;  // 0 running, 1 done, 2 violation
    char tag[24], msg[600];
    int caller, op, stage;
    volatile int at[16][2];  // where each caller is
    volatile int last;
    uint64_t blobLen, logLen, steps, schedHash, eventHash, switches;
    int stop;
};
static Header *hdr;
static Preempt *logArea;
static char *blobArea;
static const size_t LOGMAX = 60002, BLOBMAX = 48u << 20;
static int errFd = -1;

struct W {
    std::string s;
    void u(uint64_t v) { s.append((char *)&v, 8); }
    void d(double v) { s.append((char *)&v, 8); }
    void str(const std::string &x) {
        u(x.size());
        s += x;
    }
};
struct Rd {
    const char *p, *e;
    uint64_t u() {
        uint64_t v = 0;
        if (p + 8 <= e) memcpy(&v, p, 8);
        p += 8;
        return v;
    }
    double d() {
        double v = 0;
        if (p + 8 <= e) memcpy(&v, p, 8);
        p += 8;
        return v;
    }
    std::string str() {
        uint64_t n = u();
        if (p + n > e) return "";
        std::string r(p, n);
        p += n;
        return r;
    }
};

static void putRecs(W &w, const std::vector<Rec> &v) {
    w.u(v.size());
    for (auto &r : v) {
        w.u(r.status);
        w.u(r.digest);
        w.u(r.cnt.allocs), w.u(r.cnt.opens), w.u(r.cnt.writes), w.u(r.cnt.reads), w.u(r.cnt.closes), w.u(r.cnt.userCalls),
            w.u(r.cnt.steps);
    }
}
static void getRecs(Rd &r, std::vector<Rec> &v) {
    size_t n = r.u();
    for (size_t i = 0; i < n && r.p < r.e; i++) {
        Rec x;
        x.status = (int)r.u();
        x.digest = r.u();
        x.cnt.allocs = r.u(), x.cnt.opens = r.u(), x.cnt.writes = r.u(), x.cnt.reads = r.u(), x.cnt.closes = r.u(),
        x.cnt.userCalls = r.u(), x.cnt.steps = r.u();
        v.push_back(x);
    }
}
static void rawState() {  // no allocation
    auto &l = preemptLog();
    size_t n = std::min(l.size(), LOGMAX);
    if (n) memcpy((void *)logArea, l.data(), n * sizeof(Preempt));
    hdr->logLen = n;
    hdr->steps = stats().steps;
    hdr->schedHash = stats().schedHash;
    hdr->eventHash = stats().eventHash;
    hdr->switches = stats().switches;
}
static void send(const Report &r) {
    W w;
    w.u(r.crashed);
    putRecs(w, r.recs);
    putRecs(w, r.preludeRecs);
    w.u(disk().size());
    for (auto &f : disk()) {
        w.str(f.first);
        w.str(f.second);
    }
    Stats s = stats();
    w.s.append((char *)&s, sizeof s);
    w.u(r.cfg.size());
    for (double d : r.cfg) w.d(d);
    w.u(r.checks), w.u(r.retries), w.u(r.skipped), w.u(r.ops), w.u(r.digest);
    w.u(r.checksBy.size());
    for (auto &c : r.checksBy) {
        w.str(c.first);
        w.u(c.second);
    }
    w.str(r.other);
    if (w.s.size() <= BLOBMAX) {
        memcpy(blobArea, w.s.data(), w.s.size());
        hdr->blobLen = w.s.size();
    }
}
static bool receive(Report &r) {
    Rd b{blobArea, blobArea + hdr->blobLen};
    if (!hdr->blobLen) return false;
    r.crashed = b.u();
    getRecs(b, r.recs);
    getRecs(b, r.preludeRecs);
    size_t n = b.u();
    for (size_t i = 0; i < n; i++) {
        std::string k = b.str();
        r.disk[k] = b.str();
    }
    memcpy((void *)&r.stats, b.p, sizeof r.stats);
    b.p += sizeof r.stats;
    n = b.u();
    for (size_t i = 0; i < n; i++) r.cfg.push_back(b.d());
    r.checks = b.u(), r.retries = b.u(), r.skipped = b.u(), r.ops = b.u(), r.digest = b.u();
    n = b.u();
    for (size_t i = 0; i < n; i++) {
        std::string k = b.str();
        r.checksBy[k] = b.u();
    }
    r.other = b.str();
    return true;
}

static void childDone(const Report &r) {
    rawState();
    send(r);
    hdr->state = 1;
    _exit(0);
}
static void childFail(const char *tag, const char *msg, int caller, int op, int stage, const Report *) {
    snprintf(hdr->tag, sizeof hdr->tag, "%s", tag);
    snprintf(hdr->msg, sizeof hdr->msg, "%s", msg);
    hdr->caller = caller;
    hdr->op = op;
    hdr->stage = stage;
    rawState();
    hdr->state = 2;
    _exit(0);
}
static void childWhere(int caller, int op, int stage) {
    hdr->at[caller & 15][0] = op;
    hdr->at[caller & 15][1] = stage;
    hdr->last = caller;
}
static void childStop(Stop why) {
    int c = hdr->last & 15;
    hdr->stop = why;
    if (why == STOP_CRASHPOINT) {
        currentReport().crashed = true;
        childDone(currentReport());
    }
    const char *tag = why == STOP_HANG ? "HANG" : why == STOP_DEADLOCK ? "DEADLOCK" : why == STOP_MEMORY ? "MEM" : "EXIT";
    const char *msg = why == STOP_HANG ? "does not end" : why == STOP_DEADLOCK ? "waits for ever" : why == STOP_MEMORY ? "takes all memory" : "ends the process";
    childFail(tag, msg, c, hdr->at[c][0], hdr->at[c][1], nullptr);
}
static void childSignal(int sig) {
    int c = caller() & 15;
    char m[64];
    snprintf(m, sizeof m, "killed by signal %d", sig);
    if (sig == SIGXCPU)
        childFail("HANG", "takes too much processor time", c, hdr->at[c][0], hdr->at[c][1], nullptr);
    childFail("CRASH", m, c, hdr->at[c][0], hdr->at[c][1], nullptr);
}

struct RunResult {  // of one simulated process
    bool ok = false;
    Verdict v;
    Report r;
    std::vector<Preempt> log;
    uint64_t steps = 0, schedHash = 0, eventHash = 0;
};

static RunResult runChild(const Job &job) {
    memset((void *)hdr, 0, sizeof *hdr);
    if (ftruncate(errFd, 0)) {}
    lseek(errFd, 0, SEEK_SET);
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) {
        perror("fork");
        exit(2);
    }
    if (pid == 0) {
        dup2(errFd, 2);
        struct rlimit rl = {90, 95};
        setrlimit(RLIMIT_CPU, &rl);
        rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        static char alt[1 << 16];
        stack_t ss;
        memset(&ss, 0, sizeof ss);
        ss.ss_sp = alt;
        ss.ss_size = sizeof alt;
        sigaltstack(&ss, nullptr);
        for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU, SIGTRAP}) {
            struct sigaction sa;
            memset(&sa, 0, sizeof sa);
            sa.sa_handler = childSignal;
            sa.sa_flags = SA_ONSTACK | SA_NODEFER;
            sigaction(s, &sa, nullptr);
        }
        reportDone = childDone;
        reportFail = childFail;
        reportWhere = childWhere;
        onStop = childStop;
        execJob(job);
        _exit(97);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    RunResult r;
    r.steps = hdr->steps;
    r.schedHash = hdr->schedHash;
    r.eventHash = hdr->eventHash;
    r.log.assign(logArea, logArea + hdr->logLen);
    if (hdr->state == 1 && receive(r.r)) {
        r.ok = true;
        return r;
    }
    r.v.caller = hdr->caller;
    r.v.op = hdr->op;
    r.v.stage = hdr->stage;
    if (hdr->state == 2) {
        r.v.tag = hdr->tag;
        r.v.msg = hdr->msg;
    } else {
        int c = hdr->last & 15;
        r.v.caller = c;
        r.v.op = hdr->at[c][0];
        r.v.stage = hdr->at[c][1];
        r.v.tag = "CRASH";
        char m[80];
        snprintf(m, sizeof m, "process ended with status 0x%x", st);
        r.v.msg = m;
    }
    if (r.v.tag == "CRASH") {
        char e[300];
        lseek(errFd, 0, SEEK_SET);
        ssize_t n = read(errFd, e, sizeof e - 1);
        if (n > 0) {
            e[n] = 0;
            for (ssize_t i = 0; i < n; i++)
                if (e[i] == '\n' || e[i] == '\t') e[i] = ' ';
            r.v.msg += std::string(" (") + e + ")";
        }
    }
    return r;
}

// ------------------------------------------------------------------ one plan

struct Outcome {
    bool ok = true;
    Verdict v;
    int phase = 0;
    bool inRef = false;
    Plan aimed;  // the same plan with its faults aimed
    std::vector<std::vector<Preempt>> logs;
    uint64_t hash = H0INIT, steps = 0, switches = 0, schedHash = 0, checks = 0, retries = 0, skipped = 0, ops = 0, conflicts = 0;
    uint64_t io = 0, allocs = 0, clockReads = 0, entropyReads = 0, digest = 0;
    long fired[F_NKINDS] = {0};
    long losses = 0, restarts = 0;
    int callers = 0;
    std::map<std::string, uint64_t> checksBy;
    std::string other;
    static const uint64_t H0INIT = 14695981039346656037ull;
};

static long countFor(const OpCount &c, FaultKind k) {
    switch (k) {
        case F_ALLOC: return c.allocs;
        case F_OPEN: return c.opens;
        case F_WRITE: case F_NOSPC: case F_WSHORT: case F_CRASH: return c.writes;
        case F_READ: case F_RSHORT: return c.reads;
        case F_EINTR: return c.reads + c.writes;
        case F_CLOSE: return c.closes;
        case F_THROW: return c.userCalls;
        default: return 0;
    }
}
static void aim(Ops &ops, const std::vector<Rec> &recs, size_t from) {
    for (size_t i = 0; i < ops.size(); i++)
        for (auto &f : ops[i].faults) {
            if (f.at >= 0) continue;
            long n = from + i < recs.size() ? countFor(recs[from + i].cnt, f.kind) : 0;
            double frac = -f.at - 1e-9;
            if (frac < 0) frac = 0;
            f.at = n > 0 ? (double)std::min<long>(n - 1, (long)(frac * n)) : 0;
        }
}

static Outcome runPlan(const Plan &p) {
    Outcome o;
    o.aimed = p;
    Disk disk;
    static std::map<uint64_t, std::vector<double>> defaults;
    auto absorb = [&](const RunResult &r, bool main) {
        o.hash = mix(mix(o.hash, r.eventHash), r.ok ? r.r.digest : 1);
        const Stats &s = r.r.stats;
        if (!r.ok) {
            o.steps += r.steps;
            return;
        }
        o.steps += s.steps;
        o.checks += r.r.checks;
        for (auto &c : r.r.checksBy) o.checksBy[c.first] += c.second;
        if (o.other.empty()) o.other = r.r.other;
        if (!main) return;
        o.schedHash = mix(o.schedHash, s.schedHash);
        o.digest = mix(o.digest, r.r.digest);
        o.switches += s.switches;
        o.conflicts += s.conflicts;
        o.io += s.ioCalls;
        o.allocs += s.allocs;
        o.clockReads += s.clockReads;
        o.entropyReads += s.entropyReads;
        o.retries += r.r.retries;
        o.skipped += r.r.skipped;
        o.ops += r.r.ops;
        for (int i = 0; i < F_NKINDS; i++) o.fired[i] += s.fired[i];
    };
    for (size_t ph = 0; ph < p.phases.size(); ph++) {
        Phase &phase = o.aimed.phases[ph];
        o.phase = (int)ph;
        o.callers = std::max(o.callers, (int)phase.callers.size());
        if (phase.callers.empty()) phase.callers.push_back(Ops());
        phase.prelude.resize(phase.callers.size());
        Job j;
        j.plan = &o.aimed;
        j.disk = disk;
        // what the settings are in a new process
        uint64_t key = p.prop == "C09" ? p.refEnv.junk : 0;
        if (!defaults.count(key)) {
            j.env = p.refEnv;
            RunResult d = runChild(j);
            if (!d.ok) {
                o.ok = false;
                o.v = d.v;
                o.inRef = true;
                return o;
            }
            if (defaults.size() > 1000) defaults.clear();
            defaults[key] = d.r.cfg;
        }
        j.cfgDefaults = defaults[key];
        j.phase = &phase;
        uint64_t refSteps = 0;
        for (size_t c = 0; c < phase.callers.size(); c++) {
            j.refCaller = (int)c;
            j.env = p.refEnv;
            j.sched = SchedCfg();
            RunResult r = runChild(j);
            absorb(r, false);
            if (!r.ok) {
                o.ok = false;
                o.v = r.v;
                o.inRef = true;
                return o;
            }
            refSteps += r.r.stats.steps;
            j.refs.push_back(r.r.recs);
            if (c == 0) aim(phase.setup, r.r.recs, 0);
            aim(phase.callers[c], r.r.recs, phase.setup.size());
            aim(phase.prelude[c], r.r.preludeRecs, 0);
        }
        aim(phase.post, {}, 0);
        j.refCaller = -1;
        j.env = p.env;
        j.env.stepCap = std::min<uint64_t>(j.env.stepCap, 50000000ull + 40 * refSteps);
        j.sched = p.sched;
        j.sched.seed = p.sched.seed + ph;
        j.sched.plan = phase.preempts;
        RunResult r = runChild(j);
        absorb(r, true);
        o.logs.push_back(r.log);
        if (!r.ok) {
            o.ok = false;
            o.v = r.v;
            return o;
        }
        disk = r.r.disk;
        if (ph + 1 < p.phases.size()) o.restarts++;
        for (auto &l : phase.losses) {
            auto it = disk.find(p.env.home + "/" + l.file);
            if (it == disk.end()) continue;
            std::string &d = it->second;
            size_t n = d.size(), k = (size_t)(l.at * (double)n);
            if (l.kind) o.losses++;
            if (l.kind == 1) d.resize(std::min(k, n));
            if (l.kind == 2) d.clear();
            if (l.kind == 3) disk.erase(it);
            if (l.kind == 4)
                for (size_t i = k; i < n && i < k + 512; i++) d[i] = 0;
            if (l.kind == 5 && n) d[std::min(k, n - 1)] ^= 1 << (n % 7);
        }
    }
    return o;
}

// ------------------------------------------------------------------ minimising

static bool sameKind(const Verdict &a, const Verdict &b) { return a.tag == b.tag; }
static double now() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

struct Minimiser {
    Plan best;
    Outcome out;
    double until;
    long tries = 0;
    bool fails(const Plan &p, Outcome &o) {
        tries++;
        o = runPlan(p);
        return !o.ok && sameKind(o.v, out.v);
    }
    bool take(const Plan &p) {
        if (now() > until) return false;
        Outcome o;
        if (!fails(p, o)) return false;
        best = p;
        out = o;
        return true;
    }
    // generic: a list inside the plan loses chunks
    template <class T>
    void shrink(std::function<std::vector<T> &(Plan &)> get) {
        size_t n = get(best).size();
        for (size_t chunk = std::max<size_t>(1, n / 2);; chunk = std::max<size_t>(1, chunk / 2)) {
            bool any = false;
            for (size_t i = 0; i < get(best).size() && now() < until;) {
                Plan p = best;
                auto &v = get(p);
                size_t e = std::min(v.size(), i + chunk);
                v.erase(v.begin() + i, v.begin() + e);
                if (take(p))
                    any = true;
                else
                    i += chunk;
            }
            if (chunk == 1 && !any) break;
            if (now() > until) break;
        }
    }
    void ops(std::function<Ops &(Plan &)> get) {
        shrink<Op>([&](Plan &p) -> Ops & { return get(p); });
        for (size_t i = 0; i < get(best).size(); i++) {
            if (get(best)[i].faults.empty()) continue;
            shrink<FaultSpec>([&](Plan &p) -> std::vector<FaultSpec> & { return get(p)[i].faults; });
        }
    }
    void structure() {
        for (size_t ph = best.phases.size(); ph-- > 0;) {
            if (best.phases.size() > 1) {
                Plan p = best;
                p.phases.erase(p.phases.begin() + ph);
                if (take(p)) continue;
            }
            for (size_t c = best.phases[ph].callers.size(); c-- > 0;) {
                if (best.phases[ph].callers.size() > 1) {
                    Plan p = best;
                    p.phases[ph].callers.erase(p.phases[ph].callers.begin() + c);
                    if (c < p.phases[ph].prelude.size()) p.phases[ph].prelude.erase(p.phases[ph].prelude.begin() + c);
                    for (auto &x : p.phases[ph].preempts) {
                        if (x.who > (int)c) x.who--;
                        if (x.to > (int)c) x.to--;
                    }
                    if (take(p)) continue;
                }
                if (c < best.phases[ph].prelude.size()) ops([&](Plan &p) -> Ops & { return p.phases[ph].prelude[c]; });
                ops([&](Plan &p) -> Ops & { return p.phases[ph].callers[c]; });
            }
            ops([&](Plan &p) -> Ops & { return p.phases[ph].post; });
            ops([&](Plan &p) -> Ops & { return p.phases[ph].setup; });
            shrink<Loss>([&](Plan &p) -> std::vector<Loss> & { return p.phases[ph].losses; });
        }
        // long point lists: fewer points
        for (size_t ph = 0; ph < best.phases.size(); ph++) {
            auto lists = [&](std::function<Ops &(Plan &)> get) {
                for (size_t i = 0; i < get(best).size() && now() < until; i++) points(get, i);
            };
            for (size_t c = 0; c < best.phases[ph].callers.size(); c++) {
                lists([&](Plan &p) -> Ops & { return p.phases[ph].callers[c]; });
                if (c < best.phases[ph].prelude.size()) lists([&](Plan &p) -> Ops & { return p.phases[ph].prelude[c]; });
            }
            lists([&](Plan &p) -> Ops & { return p.phases[ph].setup; });
        }
    }
    void points(std::function<Ops &(Plan &)> get, size_t i) {
        std::istringstream in(get(best)[i].text);
        std::vector<std::string> t;
        std::string w;
        while (in >> w) t.push_back(w);
        if (t.empty() || (t[0] != "vor" && t[0] != "tgen" && t[0] != "seeds")) return;
        std::vector<geo::P> pts = ptsParse(t.back());
        if (pts.size() < 2) return;
        auto with = [&](const std::vector<geo::P> &v) {
            Plan p = best;
            std::string s;
            for (size_t k = 0; k + 1 < t.size(); k++) s += t[k] + " ";
            get(p)[i].text = s + ptsText(v);
            return take(p);
        };
        for (size_t chunk = pts.size() / 2; chunk >= 1 && now() < until; chunk /= 2)
            for (size_t k = 0; k < pts.size() && now() < until;) {
                auto v = pts;
                v.erase(v.begin() + k, v.begin() + std::min(v.size(), k + chunk));
                if (with(v))
                    pts = v;
                else
                    k += chunk;
            }
    }
    void schedule() {
        // the random schedule as it happened
        Plan p = out.aimed;
        p.sched = SchedCfg();
        for (size_t i = 0; i < p.phases.size(); i++) p.phases[i].preempts = i < out.logs.size() ? out.logs[i] : std::vector<Preempt>();
        double u = until;
        until = now() + 60;
        if (!take(p)) {
            until = u;
            return;
        }
        until = std::max(u, now() + 20);
        for (size_t i = 0; i < best.phases.size(); i++)
            shrink<Preempt>([&](Plan &q) -> std::vector<Preempt> & { return q.phases[i].preempts; });
    }
};

static Outcome minimise(const Plan &p, const Outcome &first, double seconds, long &tries) {
    Minimiser m;
    m.best = p;
    m.out = first;
    m.until = now() + seconds * 0.7;
    {
        Plan q = p;  // no interleaving at all?
        q.sched = SchedCfg();
        m.take(q);
    }
    {
        Plan q = m.best;
        q.env = q.refEnv;
        m.take(q);
    }
    m.structure();
    m.until = now() + seconds * 0.3;
    if (m.best.sched.mode == S_RANDOM) m.schedule();
    Plan q = m.out.aimed;  // with its faults aimed
    q.sched = m.best.sched;
    for (size_t i = 0; i < q.phases.size() && i < m.best.phases.size(); i++) q.phases[i].preempts = m.best.phases[i].preempts;
    m.until = now() + 60;
    m.take(q);
    tries = m.tries;
    m.out.aimed = m.best;
    return m.out;
}

// ------------------------------------------------------------------ commands

static std::string clean(std::string s) {
    for (auto &c : s)
        if (c == '\t' || c == '\n') c = ' ';
    return s;
}
static void line(uint64_t seed, const Outcome &o) {
    printf("R\t%llu\t%s\t%s\t%llu\t%llu\t%llu\t%llu\t%llu\t%llu\t%llu\t%llu\t%llu\t%llu\t%llu\t%llu\t%ld\t%ld\t%d\t%llu\t%llu\t",
           (unsigned long long)seed, o.ok ? "ok" : "FAIL", o.ok ? "-" : o.v.tag.c_str(), (unsigned long long)o.steps,
           (unsigned long long)o.switches, (unsigned long long)o.conflicts, (unsigned long long)o.schedHash,
           (unsigned long long)o.hash, (unsigned long long)o.digest, (unsigned long long)o.checks, (unsigned long long)o.retries,
           (unsigned long long)o.skipped, (unsigned long long)o.ops, (unsigned long long)o.io, (unsigned long long)o.allocs,
           o.losses, o.restarts, o.callers, (unsigned long long)o.clockReads, (unsigned long long)o.entropyReads);
    for (int i = 0; i < F_NKINDS; i++) printf("%s%ld", i ? "," : "", o.fired[i]);
    printf("\t");
    bool f = true;
    for (auto &c : o.checksBy) {
        printf("%s%s=%llu", f ? "" : ",", c.first.c_str(), (unsigned long long)c.second);
        f = false;
    }
    printf("\t%s\t%s\n", clean(o.v.msg).c_str(), clean(o.other).c_str());
    fflush(stdout);
}

static std::string replayText(const Plan &p, const Outcome &o) {
    std::ostringstream s;
    s << "# replay with: /verif/check.py --replay FILE\n# violation: " << o.v.tag << ": " << clean(o.v.msg) << "\n# in phase "
      << o.phase << ", caller " << o.v.caller << ", operation " << o.v.op << " of "
      << (o.inRef ? "the reference run" : o.v.stage == 0 ? "the setup" : o.v.stage == 1 ? "its earlier work" : o.v.stage == 2 ? "its work" : "the work after")
      << "\n# trace hash: " << o.hash << "\n"
      << planText(p);
    return s.str();
}

int main(int argc, char **argv) {
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
        setenv("SIM_REEXEC", "1", 1);
        if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    auto share = [](size_t n) {
        void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) {
            perror("mmap");
            exit(2);
        }
        return (char *)p;
    };
    {  // libstdc++ fills caches of the global locale on first use: not in the middle of some runs
        auto &ct = std::use_facet<std::ctype<char>>(std::locale());
        for (int i = 0; i < 256; i++) {
            ct.widen((char)i);
            ct.narrow((char)i, 0);
        }
        std::ostringstream o;
        o << 1 << " " << 1.5 << " " << (void *)&o << " " << true << 3ul << std::endl << std::setprecision(3) << std::fixed << 2.5f;
        std::istringstream in("1 2.5 x 7\nline\n");
        int a;
        double d;
        std::string w;
        unsigned long u;
        in >> a >> d >> w >> u;
        std::getline(in, w);
        std::getline(in, w);
        try {
            std::stod("1.5");
            std::stoi("x");
        } catch (const std::exception &) {
        }
    }
    hdr = (Header *)share(sizeof(Header));
    logArea = (Preempt *)share(LOGMAX * sizeof(Preempt));
    blobArea = share(BLOBMAX);
    errFd = memfd_create("sim", MFD_CLOEXEC);
    std::string cmd = argc > 1 ? argv[1] : "";
    if (cmd == "run" && argc >= 6) {  // run PROPERTY FROM STEP SECONDS [MAX]
        std::string prop = argv[2];
        uint64_t seed = strtoull(argv[3], nullptr, 10), step = strtoull(argv[4], nullptr, 10);
        double end = now() + atof(argv[5]);
        long max = argc > 6 ? atol(argv[6]) : 1000000000, n = 0;
        for (; n < max && now() < end; n++, seed += step) {
            Outcome o = runPlan(planMake(prop, seed));
            line(seed, o);
            if (!o.ok) break;
        }
        return 0;
    }
    if (cmd == "gen" && argc >= 4) {
        std::cout << planText(planMake(argv[2], strtoull(argv[3], nullptr, 10)));
        return 0;
    }
    if ((cmd == "minimise" && argc >= 6) || (cmd == "shrink" && argc >= 6)) {  // minimise PROPERTY SEED FILE SECONDS, shrink PROPERTY PLAN FILE SECONDS
        Plan p;
        if (cmd == "minimise") {
            p = planMake(argv[2], strtoull(argv[3], nullptr, 10));
        } else {
            std::ifstream f(argv[3]);
            std::stringstream s;
            s << f.rdbuf();
            std::string err;
            if (!planParse(s.str(), p, err)) return 2;
            p.prop = argv[2];
        }
        Outcome a = runPlan(p), b = runPlan(p);
        if (a.ok || b.ok || a.v.tag != b.v.tag || a.hash != b.hash) {
            printf("UNSTABLE\t%s\t%s\t%llu\t%llu\n", a.v.tag.c_str(), b.v.tag.c_str(), (unsigned long long)a.hash, (unsigned long long)b.hash);
            return 3;
        }
        long tries = 0;
        Outcome o = minimise(p, a, atof(argv[5]), tries);
        std::ofstream(argv[4]) << replayText(o.aimed, o);
        printf("MIN\t%s\t%ld\t%s\n", o.v.tag.c_str(), tries, clean(o.v.msg).c_str());
        return 0;
    }
    if (cmd == "replay" && argc >= 3) {
        std::ifstream f(argv[2]);
        std::stringstream s;
        s << f.rdbuf();
        Plan p;
        std::string err;
        if (!f || !planParse(s.str(), p, err)) {
            printf("cannot read the replay file: %s\n", err.c_str());
            return 2;
        }
        Outcome o = runPlan(p);
        printf("REPLAY\t%s\t%s\t%llu\t%s\n", p.prop.c_str(), o.ok ? "-" : o.v.tag.c_str(), (unsigned long long)o.hash, clean(o.v.msg).c_str());
        return o.ok ? 0 : 1;
    }
    fprintf(stderr, "usage: sim run|gen|minimise|replay ...\n");
    return 2;
}

// A plan is one simulated run written down: the operations of every caller, the faults, the schedule, the environment.
#pragma once
#include <string>
#include <vector>

#include "geom.h"
#include "rt.h"

struct FaultSpec {
    rt::FaultKind kind;
    double at;  // < 0: not aimed yet, fires at fraction -at of the events of the fault-free run
    long arg;
    int attempt;
};
struct Op {
    std::string text;  // name and arguments
    std::vector<FaultSpec> faults;
};
typedef std::vector<Op> Ops;
struct Loss {  // what a power failure leaves of a file written since the process started
    std::string file;
    int kind;  // 0 everything, 1 a prefix, 2 nothing in it, 3 gone, 4 a block of zeros, 5 a changed byte
    double at;
};
struct Phase {  // one life of the process
    Ops setup, post;
    std::vector<Ops> prelude, callers;
    std::vector<Loss> losses;
    std::vector<rt::Preempt> preempts;  // of an explicit schedule
};
struct Plan {
    std::string prop;
    uint64_t seed = 0;
    rt::EnvCfg env, refEnv;
    rt::SchedCfg sched;
    std::vector<Phase> phases;
};

std::string planText(const Plan &);
bool planParse(const std::string &, Plan &, std::string &err);
Plan planMake(const std::string &prop, uint64_t seed);
const std::vector<std::string> &profileNames();

inline std::string num(double v) {
    char b[40];
    snprintf(b, sizeof b, "%.17g", v);
    return b;
}
inline std::string ptsText(const std::vector<geo::P> &v) {
    std::string s;
    for (auto &p : v) s += (s.empty() ? "" : ";") + num(p.x) + "," + num(p.y);
    return s.empty() ? "-" : s;
}
inline std::vector<geo::P> ptsParse(const std::string &s) {
    std::vector<geo::P> v;
    if (s == "-") return v;
    const char *c = s.c_str();
    while (*c) {
        char *e;
        geo::P p;
        p.x = strtod(c, &e);
        if (*e != ',') break;
        p.y = strtod(e + 1, &e);
        v.push_back(p);
        c = *e == ';' ? e + 1 : e;
        if (*e != ';') break;
    }
    return v;
}
inline std::string hexText(const std::string &s) {
    static const char *d = "0123456789abcdef";
    std::string r = "x";
    for (unsigned char c : s) {
        r += d[c >> 4];
        r += d[c & 15];
    }
    return r;
}
inline std::string hexParse(const std::string &s) {
    std::string r;
    auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    for (size_t i = 1; i + 1 < s.size(); i += 2) r += (char)(v(s[i]) * 16 + v(s[i + 1]));
    return r;
}

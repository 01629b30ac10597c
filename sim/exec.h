// One simulated process: executes the operations of a phase and checks every result against the oracles.
#pragma once
#include <memory>
#include <set>

#include "calls.h"
#include "files.h"
#include "plan.h"

struct Rec {  // what one operation did in the reference run
    int status = 2;  // 0 returned, 1 threw, 2 skipped
    uint64_t digest = 0;
    rt::OpCount cnt;
};

enum Stage { ST_SETUP, ST_PRELUDE, ST_NOW, ST_POST };

struct Verdict {
    std::string tag, msg;
    int caller = -1, op = -1, stage = 0;
};

struct Job {  // input of a simulated process
    const Plan *plan = nullptr;
    const Phase *phase = nullptr;
    int refCaller = -1;  // >= 0: the reference run of that caller
    rt::EnvCfg env;
    rt::SchedCfg sched;
    std::vector<double> cfgDefaults;
    std::vector<std::vector<Rec>> refs;  // per caller, with the setup operations first
    rt::Disk disk;
};
struct Report {  // output of a simulated process
    bool crashed = false;  // ended at an injected crash
    std::vector<Rec> recs, preludeRecs;
    rt::Disk disk;
    rt::Stats stats;
    std::vector<double> cfg;
    uint64_t checks = 0, retries = 0, skipped = 0, ops = 0, digest = 0;
    std::map<std::string, uint64_t> checksBy;
    std::string other;  // an oracle of another property that did not hold
};

void execJob(const Job &);              // in the child; does not return
bool accepts(const std::string &prop, const std::string &tag);
extern void (*reportDone)(const Report &);            // serialise and end the process
extern void (*reportFail)(const char *tag, const char *msg, int caller, int op, int stage, const Report *);
extern void (*reportWhere)(int caller, int op, int stage);

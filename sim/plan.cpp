#include "plan.h"

#include <sstream>

using namespace rt;

static void opsText(std::ostringstream &o, const std::string &head, const Ops &ops) {
    if (ops.empty()) return;
    o << head << "\n";
    for (auto &p : ops) {
        o << "  op " << p.text << "\n";
        for (auto &f : p.faults) o << "    fault " << faultName[f.kind] << " " << num(f.at) << " " << f.arg << " " << f.attempt << "\n";
    }
}
static void envText(std::ostringstream &o, const char *n, const EnvCfg &e) {
    o << n << " " << e.junk << " " << e.entropy << " " << e.clock << " " << e.rng << " " << e.stepCap << " "
      << (e.home.empty() ? "-" : e.home) << "\n";
}
std::string planText(const Plan &p) {
    std::ostringstream o;
    o << "plan 1\nproperty " << p.prop << "\nseed " << p.seed << "\n";
    envText(o, "env", p.env);
    envText(o, "refenv", p.refEnv);
    if (p.sched.mode == S_RANDOM)
        o << "schedule random " << p.sched.seed << " " << p.sched.mean << " " << num(p.sched.pConflict) << " "
          << num(p.sched.pGlobal) << " " << num(p.sched.pSeam) << " " << p.sched.maxPreempts << "\n";
    else
        o << "schedule explicit\n";
    for (auto &ph : p.phases) {
        o << "phase\n";
        opsText(o, "setup", ph.setup);
        for (size_t c = 0; c < ph.callers.size(); c++) {
            o << "caller\n";
            if (c < ph.prelude.size()) opsText(o, "earlier", ph.prelude[c]);
            opsText(o, "now", ph.callers[c]);
        }
        opsText(o, "after", ph.post);
        for (auto &x : ph.preempts) o << "preempt " << x.who << " " << x.at << " " << x.to << " " << x.kind << "\n";
        for (auto &l : ph.losses) o << "loss " << l.file << " " << l.kind << " " << num(l.at) << "\n";
    }
    return o.str();
}
bool planParse(const std::string &text, Plan &p, std::string &err) {
    std::istringstream in(text);
    std::string line;
    Ops *cur = nullptr;
    p = Plan();
    p.sched.mode = S_EXPLICIT;
    while (std::getline(in, line)) {
        std::istringstream l(line);
        std::string w;
        l >> w;
        if (w.empty() || w[0] == '#' || w == "plan") continue;
        if (w == "property") l >> p.prop;
        else if (w == "seed") l >> p.seed;
        else if (w == "env" || w == "refenv") {
            EnvCfg &e = w == "env" ? p.env : p.refEnv;
            l >> e.junk >> e.entropy >> e.clock >> e.rng >> e.stepCap >> e.home;
            if (e.home == "-") e.home.clear();
        } else if (w == "schedule") {
            std::string m;
            l >> m;
            p.sched.mode = m == "random" ? S_RANDOM : S_EXPLICIT;
            if (m == "random")
                l >> p.sched.seed >> p.sched.mean >> p.sched.pConflict >> p.sched.pGlobal >> p.sched.pSeam >> p.sched.maxPreempts;
        } else if (w == "phase") {
            p.phases.push_back(Phase());
        } else if (p.phases.empty()) {
            err = "no phase before: " + line;
            return false;
        } else if (w == "preempt") {
            Preempt x;
            l >> x.who >> x.at >> x.to >> x.kind;
            p.phases.back().preempts.push_back(x);
        } else if (w == "setup") cur = &p.phases.back().setup;
        else if (w == "after") cur = &p.phases.back().post;
        else if (w == "caller") {
            p.phases.back().callers.push_back(Ops());
            p.phases.back().prelude.push_back(Ops());
        } else if (w == "earlier" || w == "now") {
            if (p.phases.back().callers.empty()) {
                err = "no caller before: " + line;
                return false;
            }
            cur = w == "now" ? &p.phases.back().callers.back() : &p.phases.back().prelude.back();
        } else if (w == "op") {
            if (!cur) {
                err = "op outside a list";
                return false;
            }
            Op o;
            size_t at = line.find("op ");
            o.text = line.substr(at + 3);
            cur->push_back(o);
        } else if (w == "fault") {
            FaultSpec f;
            std::string k;
            l >> k >> f.at >> f.arg >> f.attempt;
            f.kind = F_NKINDS;
            for (int i = 0; i < F_NKINDS; i++)
                if (k == faultName[i]) f.kind = (FaultKind)i;
            if (!cur || cur->empty() || f.kind == F_NKINDS) {
                err = "bad fault: " + line;
                return false;
            }
            cur->back().faults.push_back(f);
        } else if (w == "loss") {
            Loss x;
            l >> x.file >> x.kind >> x.at;
            p.phases.back().losses.push_back(x);
        } else {
            err = "cannot read: " + line;
            return false;
        }
    }
    return true;
}

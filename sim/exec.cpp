#include <functional>
#include "exec.h"

#include <cstdarg>
#include <cstring>
#include <sstream>

using namespace geo;
using lib::Out;
using rt::OpCount;

void (*reportDone)(const Report &);
void (*reportFail)(const char *, const char *, int, int, int, const Report *);
void (*reportWhere)(int, int, int);

bool accepts(const std::string &prop, const std::string &tag) {
    static const std::set<std::string> every = {"CRASH", "HANG", "DEADLOCK", "MEM", "EXIT", "UNEXPECTED"};
    static const std::map<std::string, std::set<std::string>> own = {
        {"C01", {"TILE"}},
        {"C02", {"SITES"}},
        {"C03", {"DELAUNAY"}},
        {"C04", {"CONSTRAINED"}},
        {"C05", {"ADJ"}},
        {"C06", {"FROZEN"}},
        {"C07", {"REF"}},
        {"C08", {"REF", "TEXT"}},
        {"C09", {"CONFIG"}},
        {"C10", {"REF", "FROZEN", "MEASURE", "EXPORT", "ADJ"}},
        {"C11", {"REF", "FROZEN", "ATOMIC"}},
        {"C12", {"ATOMIC", "REF"}},
        {"C13", {"MODEL", "MEASURE"}},
        {"C14", {"EXPORT", "TEXT"}},
        {"C15", {"IMPORT", "ATOMIC"}},
        {"C16", {"IMPORT", "ATOMIC"}},
        {"C17", {"IMPORT", "EXPORT", "ATOMIC", "REF"}},
        {"C18", {"GEN"}},
        {"C20", {"MEASURE"}},
        {"C21", {"PARTS"}},
        {"C27", {"MARK"}},
        {"C26", {"LIST", "TEXT", "EXPORT", "ATOMIC", "REF"}},
    };
    if (every.count(tag)) return true;
    auto it = own.find(prop);
    return it != own.end() && it->second.count(tag);
}

namespace {

struct RegSlot {
    lib::Reg *r = nullptr;
    Domain m;
    std::vector<P> centers, seeds;
    bool cut = false;   // its outline comes out of the clipping library
    bool wild = false;  // holds seeds of a random functor
    uint64_t dig = 0;
};
struct GenSlot {
    lib::Gen *g = nullptr;
    RegSlot from;
    std::vector<P> seeds;
    bool wild = false;
};
struct MeshSlot {
    lib::Mesh *m = nullptr;
    int vgen = -1;
    bool full = true, wild = false, fresh = true;
    uint64_t dig = 0;
    lib::MeshView v;
};
struct ListSlot {  // a UniqueList and what its history says is in it
    lib::List *l = nullptr;
    std::vector<P> items;
    std::vector<char> forced;
    bool anyForced() const { return std::count(forced.begin(), forced.end(), 1) > 0; }
    int keyed(P v) const {
        for (size_t i = 0; i < items.size(); i++)
            if (!forced[i] && items[i] == v) return (int)i;
        return -1;
    }
    int first(P v) const {
        auto it = std::find(items.begin(), items.end(), v);
        return it == items.end() ? -1 : (int)(it - items.begin());
    }
    int push(P v) {
        int k = keyed(v);
        if (k >= 0) return k;
        items.push_back(v);
        forced.push_back(0);
        return (int)items.size() - 1;
    }
};
struct MapsSlot {
    lib::Maps *m = nullptr;
    std::map<std::pair<int, int>, std::array<int, 2>> segs;
    std::map<P, std::vector<int>> pts;
};
struct Ctx {
    std::map<int, ListSlot> lists;
    std::map<int, MapsSlot> maps;
    std::map<int, RegSlot> regs;
    std::map<int, GenSlot> gens;
    std::map<int, lib::VGen *> vgens;
    std::map<int, MeshSlot> meshes;
    int hidden = 5000;
};

const Job *J;
Report R;
Ctx shared_;
std::vector<std::vector<double>> cfgAllowed;  // values each field may have, per field
double cfgMine[8][5];
bool cfgSet_[8][5];
const void *cfgInstance;

uint64_t hd(uint64_t h, double d) {
    d += 0.0;
    uint64_t u;
    memcpy(&u, &d, 8);
    return rt::mix(h, u);
}
uint64_t hp(uint64_t h, P p) { return hd(hd(h, p.x), p.y); }
const uint64_t H0 = 14695981039346656037ull;
uint64_t hpts(uint64_t h, const std::vector<P> &v) {
    h = rt::mix(h, v.size());
    for (auto &p : v) h = hp(h, p);
    return h;
}
uint64_t hstr(uint64_t h, const std::string &s) {
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return rt::mix(h, s.size());
}
uint64_t digest(const lib::MeshView &v) {
    uint64_t h = hpts(H0, v.d.pts);
    for (auto &c : v.d.cells) {
        h = rt::mix(h, c.size());
        for (int i : c) h = rt::mix(h, (uint64_t)i);
    }
    std::vector<std::array<int, 4>> e = v.d.edges;
    std::sort(e.begin(), e.end());
    for (auto &x : e)
        for (int i : x) h = rt::mix(h, (uint64_t)i);
    std::vector<std::pair<P, std::vector<int>>> pm = v.d.pmap;
    std::sort(pm.begin(), pm.end());
    for (auto &x : pm) {
        h = hp(h, x.first);
        for (int i : x.second) h = rt::mix(h, (uint64_t)i);
    }
    for (char b : v.boundary) h = rt::mix(h, (uint64_t)b);
    for (double a : v.area) h = hd(h, a);
    for (double a : v.diameter) h = hd(h, a);
    for (auto &p : v.centroid) h = hp(h, p);
    return h;
}
uint64_t digest(const lib::RegView &v, bool wild) {
    uint64_t h = hpts(H0, v.all);
    for (auto &q : v.holes) h = hpts(h, q);
    h = hpts(h, v.centers);
    if (!wild) h = hpts(h, v.seeds);
    for (auto &s : v.segs) h = rt::mix(rt::mix(h, (uint64_t)s[0]), (uint64_t)s[1]);
    h = hd(h, v.area);
    return rt::mix(hp(h, v.centroid), (uint64_t)v.sides);
}

std::vector<std::string> split(const std::string &s, char by) {
    std::vector<std::string> r;
    std::string cur;
    for (char c : s)
        if (c == by) {
            if (by != ' ' || !cur.empty()) r.push_back(cur);
            cur.clear();
        } else {
            cur += c;
        }
    if (!cur.empty() || by != ' ') r.push_back(cur);
    return r;
}

// ------------------------------------------------------------------ what the workload may mesh

bool axisRect(const Poly &p) {
    if (p.size() != 4) return false;
    for (int i = 0; i < 4; i++) {
        P a = p[i], b = p[(i + 1) % 4];
        if (a.x != b.x && a.y != b.y) return false;
    }
    return true;
}
bool exactlyOn(P q, const Poly &rect) {
    for (int i = 0; i < 4; i++) {
        P a = rect[i], b = rect[(i + 1) % 4];
        if (a.x == b.x && q.x == a.x && q.y >= std::min(a.y, b.y) && q.y <= std::max(a.y, b.y)) return true;
        if (a.y == b.y && q.y == a.y && q.x >= std::min(a.x, b.x) && q.x <= std::max(a.x, b.x)) return true;
    }
    return false;
}
bool surelyOn(P p, const Poly &q) {  // on a corner, or on an edge along an axis, without any rounding
    for (size_t i = 0; i < q.size(); i++) {
        P a = q[i], b = q[(i + 1) % q.size()];
        if (p == a) return true;
        if (std::max({std::fabs(a.x), std::fabs(a.y), std::fabs(b.x), std::fabs(b.y)}) > 1e4) continue;
        if (p.x == a.x && p.x == b.x && (p.y - a.y) * (p.y - b.y) < 0) return true;
        if (p.y == a.y && p.y == b.y && (p.x - a.x) * (p.x - b.x) < 0) return true;
    }
    return false;
}
double extent(const Poly &p) {
    P lo, hi;
    bbox(p, lo, hi);
    return std::max(hi.x - lo.x, hi.y - lo.y);
}
bool wellFormed(const Poly &o) {
    size_t n = o.size();
    for (size_t i = 0; i < n; i++) {
        if (std::fabs(cross(o[i], o[(i + 1) % n], o[(i + 2) % n])) < 0.1) return false;
        for (size_t k = i + 1; k < n; k++)
            if (dist(o[i], o[k]) < 0.3) return false;
        for (size_t k = 0; k < n; k++)
            if (k != i && (k + 1) % n != i && distSeg(o[i], o[k], o[(k + 1) % n]) < 0.05) return false;
    }
    return true;
}
// A configuration the library's fixed tolerance of 1e-5 is clearly fine for.
bool meshable(const RegSlot &r, const std::vector<P> &seeds) {
    const Domain &d = r.m;
    if (d.outer.size() < 3 || signedArea(d.outer) == 0 || !simple(d.outer)) return false;
    double s = extent(d.outer);
    if (s < 10 || s > 5000) return false;
    if (r.cut && !wellFormed(d.outer)) return false;
    for (size_t i = 0; i < d.holes.size(); i++) {
        const Poly &h = d.holes[i];
        if (h.size() < 3 || extent(h) < 0.02 * s) return false;
        for (size_t k = 0; k < h.size(); k++)
            if (!inside(h[k], d.outer) || distBoundary(h[k], d.outer) < 0.012 * s) return false;
        for (auto &p : d.outer)
            if (inside(p, h)) return false;
        for (size_t k = 0; k < i; k++) {
            const Poly &g = d.holes[k];
            if (inside(h[0], g) || inside(g[0], h)) return false;
            for (size_t a = 0; a < h.size(); a++)
                for (size_t b = 0; b < g.size(); b++)
                    if (segsDist(h[a], h[(a + 1) % h.size()], g[b], g[(b + 1) % g.size()]) < 0.012 * s) return false;
        }
    }
    bool rect = d.holes.empty() && axisRect(d.outer);
    for (size_t i = 0; i < seeds.size(); i++) {
        P p = seeds[i];
        if (rect && exactlyOn(p, d.outer)) {
            for (auto &c : d.outer)
                if (!(c == p) && dist(c, p) < 5e-4 * s) return false;
        } else if (distDomainBoundary(p, d) < 4e-4 * s) {
            return false;
        }
        for (size_t k = 0; k < i; k++) {
            double q = dist(p, seeds[k]);
            if (q > 0 && q < 4e-4 * s) return false;
            if (r.cut && (p.x == seeds[k].x || p.y == seeds[k].y)) return false;
        }
    }
    return true;
}

// ------------------------------------------------------------------ functors, as documented

struct Model1 {  // what a functor may answer for x: [lo, hi], and whether it has to be an integer
    double lo, hi;
    bool integer = false;
};
void fnArgs(const std::string &head, double a[3]) {
    size_t at = head.find(':');
    a[0] = a[1] = a[2] = 0;
    for (int i = 0; i < 3 && at != std::string::npos; i++) {
        a[i] = atof(head.c_str() + at + 1);
        at = head.find(':', at + 1);
    }
}
bool isRandom(const std::string &f) { return f[0] == 'r'; }
struct Fn {  // mirrors one functor instance
    std::string name;
    double a[3];
    std::shared_ptr<Fn> inner;
    bool flip = false;
    double base = 0;  // of a noise: what the noise was last added to
    double step;  // largest distance of arguments, for the alternating one
    explicit Fn(const std::string &s, double step = 0) : step(step) {
        size_t sl = s.find('/');
        std::string head = s.substr(0, sl);
        name = head.substr(0, head.find(':'));
        fnArgs(head, a);
        if (sl != std::string::npos) inner.reset(new Fn(s.substr(sl + 1), step));
    }
    void reach(double w) {
        step = w;
        if (inner) inner->reach(w);
    }
    std::vector<std::pair<double, double>> apply(double x) {  // union of intervals
        auto one = [](double v) {
            double e = 1e-9 * (1 + std::fabs(v));
            return std::vector<std::pair<double, double>>{{v - e, v + e}};
        };
        if (name == "const") return one(x);
        if (name == "uni") return one(x * a[0]);
        if (name == "user") return one(x + a[0]);
        if (name == "sin") return one(a[0] * std::sin(a[1] * x * M_PI + a[2] * M_PI / 180));
        if (name == "cos") return one(a[0] * std::cos(a[1] * x * M_PI + a[2] * M_PI / 180));
        if (name == "disp") {
            flip = !flip;
            return one(flip ? x + a[0] / 2 : x);
        }
        if (name == "alt") {  // displaced by half the distance of two of its arguments
            double e = 1e-9 * (1 + std::fabs(x) + step);
            return {{x - e, x + step / 2 + e}};
        }
        if (name == "rint") return {{a[0], a[1]}};
        if (name == "rdbl") {  // the end of the interval can be reached by rounding
            double e = 1e-15 * (std::fabs(a[0]) + std::fabs(a[1]));
            return {{a[0] - e, a[1] + e}};
        }
        std::vector<std::pair<double, double>> r;  // noise
        double e = 1e-9 * (1 + std::fabs(x));
        for (auto &i : inner->apply(x)) {
            base = (i.first + i.second) / 2;
            r.push_back({i.first + a[0] - e, i.second + a[1] + e});
            r.push_back({i.first - a[1] - e, i.second - a[0] + e});
        }
        return r;
    }
    bool allows(double x, double y) {
        bool in = false;
        for (auto &i : apply(x)) in = in || (y >= i.first && y <= i.second);
        if (name == "rint" && y != std::floor(y)) return false;
        return in;
    }
};

struct Grid {
    double x, y;
};
std::vector<Grid> grid(P lo, P hi, int nX, int nY) {
    std::vector<Grid> g;
    double dx = nX > 1 ? (hi.x - lo.x) / (nX - 1) : 0, dy = nY > 1 ? (hi.y - lo.y) / (nY - 1) : 0;
    for (int i = 0; i < nY; i++)
        for (int j = 0; j < nX; j++) g.push_back({lo.x + j * dx, lo.y + i * dy});
    return g;
}

// ------------------------------------------------------------------ executing

struct Exec {
    Ctx *ctx;
    int me = 0;
    Stage stage = ST_NOW;
    const std::vector<Rec> *refs = nullptr;  // compare with these
    std::vector<Rec> *recs = nullptr;        // record here
    size_t idx = 0, refIdx = 0;
    const Op *op = nullptr;
    Rec rec;
    std::vector<std::string> t;
    bool wild = false;

    void fail(const std::string &tag, const std::string &msg) {
        std::string m = "op " + t[0] + ": " + msg;
        if (accepts(J->plan->prop, tag)) reportFail(tag.c_str(), m.c_str(), me, (int)idx, stage, &R);
        if (R.other.empty()) R.other = tag + " " + m;
    }
    void check(const char *tag, const std::string &bad) {
        R.checks++;
        R.checksBy[tag]++;
        if (!bad.empty()) fail(tag, bad);
    }
    void check(const char *tag, bool ok, const char *what) { check(tag, ok ? std::string() : std::string(what)); }

    RegSlot *reg(int id) {
        auto &m = id >= 100 && id < 1000 ? shared_.regs : ctx->regs;
        auto it = m.find(id);
        return it == m.end() || !it->second.r ? nullptr : &it->second;
    }
    MeshSlot *mesh(int id) {
        auto &m = id >= 100 && id < 1000 ? shared_.meshes : ctx->meshes;
        auto it = m.find(id);
        return it == m.end() || !it->second.m ? nullptr : &it->second;
    }

    lib::Faults faultsFor(int attempt) {
        lib::Faults f;
        if (J->refCaller >= 0) return f;
        for (auto &s : op->faults)
            if (s.attempt == attempt && s.at >= 0) f.push_back({s.kind, (long)s.at, s.arg});
        return f;
    }
    template <class F>
    Out attempts(F call, const RegSlot *target = nullptr, const MeshSlot *mtarget = nullptr, bool exempt = false) {
        for (int a = 0;; a++) {
            lib::Faults f = faultsFor(a);
            Out o = call(&f);
            if (a == 0) rec.cnt = o.cnt;
            R.ops++;
            if (o.threw && o.cnt.fired > 0) {
                R.retries++;
                untouched(exempt ? target : nullptr, exempt ? mtarget : nullptr, true);
                continue;
            }
            return o;
        }
    }
    void untouched(const RegSlot *exceptR, const MeshSlot *exceptM, bool failed) {
        auto regs = [&](Ctx &c) {
            for (auto &e : c.regs)
                if (e.second.r && &e.second != exceptR) {
                    uint64_t d = digest(lib::view(e.second.r), false);
                    check(failed ? "ATOMIC" : "MODEL", d == e.second.dig,
                          failed ? "a failed operation changed a region" : "another region changed");
                    e.second.dig = d;
                }
        };
        auto meshes = [&](Ctx &c) {
            for (auto &e : c.meshes)
                if (e.second.m && &e.second != exceptM) {
                    MeshSlot &s = e.second;
                    uint64_t d = digest(lib::view(s.m, s.full));
                    if (d != s.dig && failed) check("ATOMIC", false, "a failed operation changed a mesh");
                    check("FROZEN", d == s.dig, "a mesh handed out earlier changed");
                    s.dig = d;
                }
        };
        regs(*ctx);
        meshes(*ctx);
        containers(failed);
        if (ctx != &shared_) {
            regs(shared_);
            meshes(shared_);
        }
    }
    // threw, and nothing injected is to blame
    bool ended(const Out &o, bool may, bool must, const char *tag, const char *mustMsg) {
        rec.status = o.threw ? 1 : 0;
        if (o.threw && !may && !must) fail("UNEXPECTED", "threw " + o.type + ": " + o.what);
        if (!o.threw && must) check(tag, mustMsg);
        if (o.threw) {
            R.checks++;
            untouched(nullptr, nullptr, true);
        }
        return !o.threw;
    }

    // -------------------------------------------------------------- regions

    void compareRegion(RegSlot &s, const lib::RegView &v) {
        check("MODEL", v.outer == s.m.outer, "the outline is not the one it was given");
        check("MODEL", v.holes == s.m.holes, "the holes are not the ones it was given");
        check("MODEL", v.seeds == s.seeds, "the seed points are not the ones it was given");
        size_t n = s.m.outer.size();
        for (auto &h : s.m.holes) n += h.size();
        bool ok = v.segs.size() == n && (int)s.m.outer.size() == v.sides;
        size_t at = 0, base = 0;
        auto ring = [&](size_t k) {
            for (size_t i = 0; ok && i < k; i++, at++) {
                int a = (int)(base + i), b = (int)(base + (i + 1) % k);
                ok = (v.segs[at][0] == a && v.segs[at][1] == b) || (v.segs[at][0] == b && v.segs[at][1] == a);
            }
            base += k;
        };
        if (ok) {
            ring(s.m.outer.size());
            for (auto &h : s.m.holes) ring(h.size());
        }
        check("MODEL", ok, "its segments are not the edges of its outline and holes");
        if (s.m.outer.size() > 2) {
            double A = std::fabs(signedArea(s.m.outer)), e = extent(s.m.outer);
            P lo, hi;
            bbox(s.m.outer, lo, hi);
            double far = std::max(std::max(std::fabs(lo.x), std::fabs(hi.x)), std::max(std::fabs(lo.y), std::fabs(hi.y)));
            check("MEASURE", std::fabs(std::fabs(v.area) - A) <= 1e-9 * (A + far * far), "getArea is not the area of its outline");
            check("MEASURE", v.lo == lo && v.hi == hi, "getBox is not the bounding box of its outline");
            if (A > 1e-3 * e * e) {
                P c = centroid(s.m.outer);
                check("MEASURE", dist(c, v.centroid) <= 1e-7 * (e + far * far / e), "getCentroid is not the centroid of its outline");
            }
        }
    }
    static P centroid(const Poly &p) {
        P o = p[0];
        double a = 0, x = 0, y = 0;
        for (size_t i = 0; i < p.size(); i++) {
            P b = p[i], c = p[(i + 1) % p.size()];
            b.x -= o.x, b.y -= o.y, c.x -= o.x, c.y -= o.y;
            double k = b.x * c.y - c.x * b.y;
            a += k;
            x += (b.x + c.x) * k;
            y += (b.y + c.y) * k;
        }
        return P{o.x + x / (3 * a), o.y + y / (3 * a)};
    }
    void settle(RegSlot &s) {  // after an operation on s
        lib::RegView v = lib::view(s.r);
        compareRegion(s, v);
        // the model goes on from what was asked for, so that a region that lost its outline is
        // also seen by the checks of what is made of it
        s.centers = v.centers;
        s.seeds = v.seeds;
        s.dig = digest(v, false);
        rec.digest = digest(v, s.wild);
        wild = wild || s.wild;
        untouched(&s, nullptr, false);
    }
    // 1 belongs in the region, 0 does not, 2 too close to tell
    int belongs(P p, const Domain &d) {
        bool rect = d.holes.empty() && axisRect(d.outer);
        if (rect && exactlyOn(p, d.outer)) return 1;
        double minEdge = 1e300;
        for (size_t i = 0; i < d.outer.size(); i++) minEdge = std::min(minEdge, dist(d.outer[i], d.outer[(i + 1) % d.outer.size()]));
        for (auto &h : d.holes)
            for (size_t i = 0; i < h.size(); i++) minEdge = std::min(minEdge, dist(h[i], h[(i + 1) % h.size()]));
        double zone = 2e-5 * std::max(1.0, 1 / std::max(minEdge, 1e-9));
        // exactly on the outline is in it, exactly on a hole is in the hole
        for (auto &h : d.holes)
            if (surelyOn(p, h)) return 0;
        if (surelyOn(p, d.outer)) {
            bool free = true;
            for (auto &h : d.holes) free = free && distBoundary(p, h) > zone && !inside(p, h);
            if (free) return 1;
        }
        if (distDomainBoundary(p, d) <= zone) return 2;
        return insideDomain(p, d) ? 1 : 0;
    }
    bool filtered(const std::vector<P> &given, const Domain &d, const std::vector<P> &got) {
        size_t k = 0;
        for (auto &p : given) {
            int b = belongs(p, d);
            if (b == 0) continue;
            if (k < got.size() && got[k] == p)
                k++;
            else if (b == 1)
                return false;
        }
        return k == got.size();
    }
    void seedsSettle(RegSlot &s, const std::vector<P> &added, bool mayReplace, const char *tag) {
        lib::RegView v = lib::view(s.r);
        std::vector<P> all = s.seeds;
        all.insert(all.end(), added.begin(), added.end());
        bool ok = filtered(all, s.m, v.seeds) || (mayReplace && filtered(added, s.m, v.seeds));
        const char *w = "the seed points are not the given ones inside the region, in order";
        check(tag, ok, w);
        if (strcmp(tag, "MODEL")) check("MODEL", ok, w);
        s.seeds = v.seeds;
        settle(s);
    }

    void opRegion() {
        int id = atoi(t[1].c_str());
        Poly p = ptsParse(t[2]);
        RegSlot s;
        s.m.outer = p;
        lib::Reg *r = nullptr;
        Out o = attempts([&](const lib::Faults *f) { return lib::regNew(p, f, r); });
        if (!ended(o, false, false, "", "")) return;
        s.r = r;
        keep(id, s);
    }
    void keep(int id, const RegSlot &s) {
        RegSlot &x = ctx->regs[id];
        if (x.r) ctx->regs[ctx->hidden++] = x;
        x = s;
        settle(x);
    }
    void opCopy() {
        RegSlot *s = reg(atoi(t[1].c_str()));
        if (!s) return skip();
        lib::Reg *r = nullptr;
        Out o = attempts([&](const lib::Faults *f) { return lib::regCopy(s->r, f, r); });
        if (!ended(o, false, false, "", "")) return;
        RegSlot c = *s;
        c.r = r;
        keep(atoi(t[2].c_str()), c);
    }
    void opAssign() {
        RegSlot *s = reg(atoi(t[1].c_str())), *d = reg(atoi(t[2].c_str()));
        if (!s || !d || s == d) return skip();
        Out o = attempts([&](const lib::Faults *f) { return lib::regAssign(s->r, f, d->r); }, d, nullptr, true);
        if (!ended(o, false, false, "", "")) return;
        lib::Reg *keepR = d->r;
        *d = *s;
        d->r = keepR;
        settle(*d);
    }
    void opMutate() {
        RegSlot *s = reg(atoi(t[1].c_str()));
        if (!s) return skip();
        Poly p = ptsParse(t[2]);
        int sure = simpleness(p, extent(p));
        Out o = attempts([&](const lib::Faults *f) { return lib::regMutate(s->r, p, f); });
        if (!ended(o, sure == 0, sure < 0, "MODEL", "a self-intersecting outline was accepted")) return;
        s->m.outer = p;
        s->cut = false;
        settle(*s);
    }
    bool far(const Poly &h, const RegSlot &s, double margin) {
        for (auto &g : s.m.holes) {
            if (inside(h[0], g) || inside(g[0], h)) return false;
            for (size_t a = 0; a < h.size(); a++)
                for (size_t b = 0; b < g.size(); b++)
                    if (segsDist(h[a], h[(a + 1) % h.size()], g[b], g[(b + 1) % g.size()]) < margin) return false;
        }
        return true;
    }
    static bool convex(const Poly &p) {
        double s = signedArea(p) < 0 ? -1 : 1;
        for (size_t i = 0; i < p.size(); i++)
            if (s * cross(p[i], p[(i + 1) % p.size()], p[(i + 2) % p.size()]) <= 0) return false;
        return true;
    }
    void opHole() {
        RegSlot *s = reg(atoi(t[1].c_str()));
        if (!s || s->m.outer.size() < 3) return skip();
        lib::HoleSpec h;
        h.circle = t[0] == "circ";
        if (h.circle) {
            h.c = {atof(t[2].c_str()), atof(t[3].c_str())};
            h.r = atof(t[4].c_str());
        } else {
            h.poly = ptsParse(t[2]);
            h.r = 0;
        }
        Poly hp;
        P center;
        Out ho = lib::holePoints(h, nullptr, hp, center);
        if (ho.threw) return fail("UNEXPECTED", "threw " + ho.type + ": " + ho.what);
        if (h.circle) {
            bool round = true;
            for (auto &p : hp) round = round && std::fabs(dist(p, h.c) - h.r) <= 1e-7 * (1 + h.r + std::fabs(h.c.x) + std::fabs(h.c.y));
            check("MODEL", round && center == h.c, "the points of a circular hole are not on its circle");
        } else {
            check("MODEL", hp == h.poly, "the points of a polygonal hole are not the given ones");
        }
        if (hp.size() < 3 || !simple(hp)) return skip();
        const Poly &o = s->m.outer;
        double sz = extent(o);
        for (auto &p : o)
            if (std::max(std::fabs(p.x), std::fabs(p.y)) > 1e6) return skip();
        for (auto &p : hp)
            if (std::max(std::fabs(p.x), std::fabs(p.y)) > 1e6) return skip();
        if (!simple(o) || signedArea(o) == 0) return skip();
        int crossings = 0;
        double near = 1e300;
        for (size_t a = 0; a < hp.size(); a++)
            for (size_t b = 0; b < o.size(); b++) {
                P p = hp[a], q = hp[(a + 1) % hp.size()], u = o[b], v = o[(b + 1) % o.size()];
                if (properCross(p, q, u, v)) crossings++;
                near = std::min(near, segsDist(p, q, u, v));
            }
        enum { IN, OUT, CUT, LOST } kind;
        double fine = 0;  // how closely the library looks and rounds, as configured
        for (double x : cfgAllowed[1]) fine = std::max(fine, 300 * x);
        for (double x : cfgAllowed[2]) fine = std::max(fine, 20 / x);
        if (J->plan->prop == "C09") fine = std::max({fine, 2e-3 * sz, .3});  // may be set to that in the meantime, and is relative to an edge
        if (crossings == 0 && near < std::max(0.003 * sz, fine)) return skip();
        if (crossings) {  // the cut must not graze a corner
            for (auto &p : o)
                if (distBoundary(p, hp) < std::max(0.003 * sz, fine)) return skip();
            for (auto &p : hp)
                if (distBoundary(p, o) < std::max(1e-5 * sz, fine)) return skip();
        }
        int left = piecesLeft(o, hp);
        if (crossings == 0)
            kind = left == 0 ? LOST : inside(hp[0], o) ? IN : OUT;
        else
            kind = left == 1 ? CUT : LOST;
        if (kind == CUT && !convex(hp)) return skip();
        if (kind != LOST && !far(hp, *s, std::max(0.005 * sz, fine))) return skip();
        std::vector<P> before = s->seeds;
        Poly old = o;
        h.shape = hp;
        Out out = attempts([&](const lib::Faults *f) { return lib::regHole(s->r, h, f); });
        if (h.other) return skip();  // another caller changed the number of points
        if (!ended(out, kind == OUT || kind == LOST, kind == LOST, "MODEL", "a hole that leaves no single region was accepted")) return;
        lib::RegView v = lib::view(s->r);
        if (kind == IN) {
            s->m.holes.push_back(hp);
        } else {
            double A = std::fabs(signedArea(v.outer)), want = std::fabs(signedArea(old));
            double q = 1e-5;  // what the clipping rounds to
            for (double x : cfgAllowed[2]) q = std::max(q, 1 / x);
            double slack = 4 * q * (perimeter(old) + perimeter(hp)) + 1e-9 * want;
            bool ok = simple(v.outer) && signedArea(v.outer) > 0;
            if (kind == CUT) {
                want -= clipArea(old, hp);
                for (auto &p : v.outer) ok = ok && std::min(distBoundary(p, old), distBoundary(p, hp)) < 5 * q;
                s->cut = true;
            } else {
                for (auto &p : v.outer) ok = ok && distBoundary(p, old) < 5 * q;
            }
            check("MODEL", ok && std::fabs(A - want) <= slack, kind == CUT ? "a hole across the outline is not cut out of it" : "a hole outside the region changed it");
            bool scaled = false;  // its corners are in steps of a scale in force
            for (double x : cfgAllowed[2]) {
                if (cfgSet_[me][2] && owns(2) && x != cfgMine[me][2]) continue;
                bool all = true;
                for (auto &p : v.outer)
                    for (double c : {p.x, p.y}) all = all && std::fabs(c * x - std::round(c * x)) < 1e-3 + 1e-12 * std::fabs(c * x);
                scaled = scaled || all;
            }
            check("CONFIG", scaled, "a hole was not cut out with the configured scale");
            s->m.outer = v.outer;
        }
        bool sok = v.seeds == before || filtered(before, s->m, v.seeds);
        check("MODEL", sok, "adding a hole changed the seed points");
        s->seeds = v.seeds;
        settle(*s);
    }
    void opClean() {
        RegSlot *s = reg(atoi(t[1].c_str()));
        if (!s) return skip();
        bool holes = t[0] == "cleanholes";
        Out o = attempts([&](const lib::Faults *f) { return holes ? lib::regCleanHoles(s->r, f) : lib::regCleanSeeds(s->r, f); });
        if (!ended(o, false, false, "", "")) return;
        if (holes) {
            s->m.holes.clear();
        } else {
            s->seeds.clear();
            s->wild = false;
        }
        settle(*s);
    }
    void opSeeds() {
        RegSlot *s = reg(atoi(t[1].c_str()));
        if (!s || s->m.outer.size() < 3) return skip();
        std::vector<P> p = ptsParse(t[2]);
        bool was = s->wild;
        Out o = attempts([&](const lib::Faults *f) { return lib::regSeeds(s->r, p, f); });
        s->wild = was;
        if (!ended(o, false, false, "", "")) return;
        seedsSettle(*s, p, true, "MODEL");
    }
    bool genOk(const lib::GenSpec &g, P lo, P hi, const std::vector<P> &got, size_t from, std::string &why) {
        Fn fx(g.x, hi.x - lo.x), fy(g.y, hi.y - lo.y);
        if (g.which == 1) fy.reach(hi.x - lo.x);  // y as a function of x
        if (g.which == 2) fx.reach(hi.y - lo.y);
        auto gr = grid(lo, hi, g.nX, g.nY);
        if (got.size() != from + gr.size()) {
            why = fmt("%.0f points generated for a grid of %.0f", (double)got.size() - (double)from, gr.size());
            return false;
        }
        double ex = 1e-9 * (1 + std::fabs(lo.x) + std::fabs(hi.x)), ey = 1e-9 * (1 + std::fabs(lo.y) + std::fabs(hi.y));
        for (size_t i = 0; i < gr.size(); i++) {
            P q = got[from + i];
            bool ok;
            if (g.which == 1)
                ok = std::fabs(q.x - gr[i].x) <= ex && near(fy, gr[i].x, q.y - gr[i].y, ey + ex);
            else if (g.which == 2)
                ok = std::fabs(q.y - gr[i].y) <= ey && near(fx, gr[i].y, q.x - gr[i].x, ex + ey);
            else
                ok = near(fx, gr[i].x, q.x, ex) & near(fy, gr[i].y, q.y, ey);
            if (!ok) {
                why = fmt("generated point %.0f is (%.12g, %.12g)", i, q.x, q.y);
                return false;
            }
        }
        return true;
    }
    bool near(Fn &f, double x, double y, double e) {
        if (f.name == "rint" && e < 1e-5) {
            double r = std::round(y);
            if (std::fabs(r - y) <= e) y = r;
        }
        for (auto &i : f.apply(x))
            if (y >= i.first - e && y <= i.second + e) return f.name != "rint" || std::fabs(y - std::round(y)) <= e;
        return false;
    }
    lib::GenSpec genSpec(size_t at) {
        lib::GenSpec g;
        g.x = t[at];
        g.y = t[at + 1];
        g.which = atoi(t[at + 2].c_str());
        g.nX = atoi(t[at + 3].c_str());
        g.nY = atoi(t[at + 4].c_str());
        return g;
    }
    bool genRandom(const lib::GenSpec &g) { return (g.which != 1 && isRandom(g.x)) || (g.which != 2 && isRandom(g.y)); }
    bool genFuzzy(const lib::GenSpec &g) {  // more than one answer is right
        auto z = [](const std::string &s) { return isRandom(s) || s.find("alt") != std::string::npos; };
        return (g.which != 1 && z(g.x)) || (g.which != 2 && z(g.y));
    }
    void opRegGen() {
        RegSlot *s = reg(atoi(t[1].c_str()));
        if (!s || s->m.outer.size() < 3) return skip();
        lib::GenSpec g = genSpec(2);
        Out o = attempts([&](const lib::Faults *f) { return lib::regGenerate(s->r, g, f); });
        if (!ended(o, false, false, "", "")) return;
        if (genRandom(g)) s->wild = true;
        lib::RegView v = lib::view(s->r);
        P lo, hi;
        bbox(s->m.outer, lo, hi);
        if (!genFuzzy(g)) {
            Fn fx(g.x), fy(g.y);
            std::vector<P> cand;
            for (auto &q : grid(lo, hi, g.nX, g.nY)) {
                P p{q.x, q.y};
                auto mid = [](std::vector<std::pair<double, double>> i) { return (i[0].first + i[0].second) / 2; };
                if (g.which == 1)
                    p.y += mid(fy.apply(q.x));
                else if (g.which == 2)
                    p.x += mid(fx.apply(q.y));
                else
                    p = {mid(fx.apply(q.x)), mid(fy.apply(q.y))};
                cand.push_back(p);
            }
            // the same points up to rounding
            std::vector<P> all = s->seeds;
            all.insert(all.end(), cand.begin(), cand.end());
            size_t k = 0;
            bool ok = true;
            for (auto &p : all) {
                int b = belongs(p, s->m);
                if (b == 0) continue;
                double e = 1e-8 * (1 + std::fabs(p.x) + std::fabs(p.y));
                if (k < v.seeds.size() && dist(v.seeds[k], p) <= e)
                    k++;
                else if (b == 1)
                    ok = false;
            }
            ok = ok && k == v.seeds.size();
            check("GEN", ok, "the seed points are not the generated ones inside the region");
            check("MODEL", ok, "the seed points are not the generated ones inside the region");
        } else {
            bool ok = v.seeds.size() <= s->seeds.size() + (size_t)g.nX * g.nY;
            size_t k = 0;
            for (auto &p : s->seeds) {
                int b = belongs(p, s->m);
                if (k < v.seeds.size() && v.seeds[k] == p)
                    k++;
                else
                    ok = ok && b != 1;
            }
            for (auto &p : v.seeds) ok = ok && belongs(p, s->m) != 0;
            check("GEN", ok, "the generated seed points are not inside the region");
            check("MODEL", ok, "the generated seed points are not inside the region");
        }
        s->seeds = v.seeds;
        settle(*s);
    }
    std::string path(const std::string &n) { return J->env.home + "/" + n; }
    void opSeedFile() {
        RegSlot *s = reg(atoi(t[1].c_str()));
        if (!s || s->m.outer.size() < 3) return skip();
        std::vector<P> p;
        auto it = rt::disk().find(path(t[2]));
        files::Verdict vd = it == rt::disk().end() || J->env.home.empty() ? files::INVALID : files::readSeeds(it->second, p);
        Out o = attempts([&](const lib::Faults *f) { return lib::regSeedFile(s->r, t[2], f); });
        if (vd == files::UNCLEAR) wild = true;
        if (!ended(o, vd == files::UNCLEAR, vd == files::INVALID, "IMPORT", "a damaged seed file was accepted")) return;
        if (vd == files::VALID) {
            seedsSettle(*s, p, false, "IMPORT");
        } else {
            s->seeds = lib::view(s->r).seeds;
            settle(*s);
        }
    }
    int precision() {
        int p = 6;
        for (int f = 3; f < 4; f++)
            if (!cfgAllowed[f].empty()) p = (int)cfgAllowed[f].back();
        return p;
    }
    template <class F>
    void exported(const std::string &file, F call, std::function<std::string(const std::string &)> bad) {
        Out o = attempts(call);
        bool home = !J->env.home.empty();
        if (!ended(o, false, !home, "EXPORT", "an export without a home directory reported success")) return;
        if (!home) return;
        auto it = rt::disk().find(path(file));
        if (it == rt::disk().end()) {
            check("EXPORT", "reported success and wrote no file");
        } else {
            check("EXPORT", bad(it->second));
            rec.digest = hstr(H0, it->second);
        }
        untouched(nullptr, nullptr, false);
    }
    void opRegPrint() {
        RegSlot *s = reg(atoi(t[1].c_str()));
        if (!s) return skip();
        if (s->wild) wild = true;
        lib::RegView v = lib::view(s->r);
        std::vector<P> pts = v.all;
        pts.insert(pts.end(), v.seeds.begin(), v.seeds.end());
        exported(t[2], [&](const lib::Faults *f) { return lib::regPrint(s->r, t[2], f); },
                 [&](const std::string &d) { return files::regionFile(d, pts, v.segs, precision()); });
    }
    void opTriPrint() {
        RegSlot *s = reg(atoi(t[1].c_str()));
        if (!s) return skip();
        if (s->wild) wild = true;
        lib::RegView v = lib::view(s->r);
        std::vector<P> pts;
        std::map<P, int> at;
        auto add = [&](P p) {
            auto i = at.insert({p, (int)pts.size()});
            if (i.second) pts.push_back(p);
            return i.first->second;
        };
        for (auto &p : v.seeds) add(p);
        std::vector<int> idx;
        for (auto &p : v.all) idx.push_back(add(p));
        for (size_t i = 0; i < pts.size(); i++)  // the library takes points closer than its tolerance for one
            for (size_t k = i + 1; k < pts.size(); k++)
                if (dist(pts[i], pts[k]) < 0.02) return skip();
        std::vector<std::array<int, 2>> segs;
        for (auto &x : v.segs) segs.push_back({{idx[x[0]], idx[x[1]]}});
        exported("toTriangle.poly", [&](const lib::Faults *f) { return lib::trianglePrint(s->r, f); },
                 [&](const std::string &d) { return files::polyFile(d, pts, segs, v.centers, precision()); });
    }
    void opRegQuery() {
        RegSlot *s = reg(atoi(t[1].c_str()));
        if (!s || s->m.outer.size() < 3) return skip();
        std::vector<P> q = ptsParse(t[2]);
        std::vector<int> a;
        Out o = attempts([&](const lib::Faults *f) { return lib::regQuery(s->r, q, f, a); });
        if (!ended(o, false, false, "", "")) return;
        Domain only;
        only.outer = s->m.outer;
        rec.digest = H0;
        for (size_t i = 0; i < q.size(); i++) {
            int b = belongs(q[i], only);
            bool edge = surelyOn(q[i], only.outer) || (axisRect(only.outer) && exactlyOn(q[i], only.outer));
            if (b != 2) check("MODEL", (a[2 * i] != 0) == (b == 1), "containsPoint is wrong");
            if (b != 2 && !edge) check("MODEL", a[2 * i + 1] == 0, "inEdges is wrong");
            if (edge) check("MODEL", a[2 * i + 1] != 0, "inEdges is wrong");
            rec.digest = rt::mix(rt::mix(rec.digest, (uint64_t)a[2 * i]), (uint64_t)a[2 * i + 1]);
        }
        untouched(nullptr, nullptr, false);
    }

    // -------------------------------------------------------------- meshes

    MeshSlot &keepMesh(int id, lib::Mesh *m, int vgen, bool w) {
        MeshSlot &x = ctx->meshes[id];
        if (x.m) ctx->meshes[ctx->hidden++] = x;
        x = MeshSlot();
        x.m = m;
        x.vgen = vgen;
        x.wild = w;
        x.full = ctx != &shared_;
        x.v = lib::view(m, x.full);
        x.dig = digest(x.v);
        check("ADJ", x.v.inconsistent);
        if (x.full && x.v.area.size() == x.v.d.cells.size()) measures(x.v);
        return x;
    }
    void measures(const lib::MeshView &v) {
        bool a = true, c = true, d = true;
        for (size_t i = 0; i < v.d.cells.size(); i++) {
            Poly p = cellPoly(v.d, i);
            double A = std::fabs(signedArea(p)), e = extent(p);
            double m = 0;
            for (auto &q : p) m = std::max(m, std::max(std::fabs(q.x), std::fabs(q.y)));
            double rnd = 1e-12 * m * m;
            a = a && std::fabs(std::fabs(v.area[i]) - A) <= 1e-9 * A + rnd;
            if (A > 1e-4 * e * e && A > 1e-3) c = c && dist(v.centroid[i], centroid(p)) <= 1e-6 * e + 100 * rnd * m / A;
            double best = 0;
            for (auto &q : p)
                for (auto &r : p) best = std::max(best, dist(q, r));
            d = d && v.diameter[i] <= best * (1 + 1e-9) && v.diameter[i] >= best * (1 - 1e-6) - 1e-9 * m;
        }
        check("MEASURE", a, "the area of a cell is wrong");
        check("MEASURE", c, "the centroid of a cell is wrong");
        check("MEASURE", d, "the diameter of a cell is wrong");
    }
    static std::vector<P> dedup(const std::vector<P> &v) {
        std::vector<P> r;
        std::set<P> s;
        for (auto &p : v)
            if (s.insert(p).second) r.push_back(p);
        return r;
    }
    const double tol = 1.5e-5;
    bool hasAll(const MeshData &m, const std::vector<P> &want) {
        std::set<P> s(m.pts.begin(), m.pts.end());
        for (auto &p : want)
            if (!s.count(p)) return false;
        return true;
    }
    std::vector<P> allPoints(const RegSlot &r, const std::vector<P> &seeds) {
        std::vector<P> a;
        for (auto &p : seeds)
            if (inDomain(p, r)) a.push_back(p);
        a.insert(a.end(), r.m.outer.begin(), r.m.outer.end());
        for (auto &h : r.m.holes) a.insert(a.end(), h.begin(), h.end());
        return dedup(a);
    }
    bool inDomain(P p, const RegSlot &r) {  // meshable() keeps seeds away from the edges, except on those of rectangles
        return insideDomain(p, r.m) || distDomainBoundary(p, r.m) < 1e-6;
    }
    // the points of edges with one cell are the boundary points of a mesh, as its cells have it
    void checkMarks(const lib::MeshView &v) {
        std::map<std::pair<int, int>, int> uses;
        for (auto &c : v.d.cells)
            for (size_t i = 0; i < c.size(); i++) uses[std::minmax(c[i], c[(i + 1) % c.size()])]++;
        std::vector<char> on(v.d.pts.size(), 0);
        for (auto &u : uses)
            if (u.second == 1 && u.first.first >= 0 && u.first.second < (int)on.size()) on[u.first.first] = on[u.first.second] = 1;
        // points that are the same but for rounding (the centre of many corners on a circle) may leave slits inside
        std::vector<char> vague(on.size(), 0);
        std::vector<size_t> order(on.size());
        for (size_t i = 0; i < order.size(); i++) order[i] = i;
        std::sort(order.begin(), order.end(), [&](size_t i, size_t k) { return v.d.pts[i].x < v.d.pts[k].x; });
        double near = 1e-6 * extent(v.d.pts);
        for (size_t i = 0; i < order.size(); i++)
            for (size_t k = i + 1; k < order.size() && v.d.pts[order[k]].x - v.d.pts[order[i]].x <= near; k++)
                if (dist(v.d.pts[order[i]], v.d.pts[order[k]]) <= near) vague[order[i]] = vague[order[k]] = 1;
        std::vector<char> unclear = vague;
        for (auto &u : uses)
            if (u.second == 1 && u.first.first >= 0 && u.first.second < (int)on.size() && (vague[u.first.first] || vague[u.first.second]))
                unclear[u.first.first] = unclear[u.first.second] = 1;
        std::string b;
        for (size_t i = 0; b.empty() && i < on.size() && i < v.boundary.size(); i++)
            if (!unclear[i] && on[i] != (v.boundary[i] != 0))
                b = fmt(on[i] ? "point (%.9g, %.9g) is on the boundary of the mesh and not marked so"
                              : "point (%.9g, %.9g) is marked as a boundary point and is inside", v.d.pts[i].x, v.d.pts[i].y);
        check("MARK", b);
    }
    static std::string circumcenters(const lib::MeshView &v) {
        for (size_t i = 0; i < v.d.cells.size() && v.circ.size() == v.d.cells.size(); i++) {
            Poly p = cellPoly(v.d, i);
            if (p.size() != 3) continue;
            double M = 0, L = extent(p), A = std::fabs(signedArea(p)), r[3];
            for (auto &q : p) M = std::max(M, std::max(std::fabs(q.x), std::fabs(q.y)));
            for (int k = 0; k < 3; k++) r[k] = dist(p[k], v.circ[i]);
            double lim = 1e-13 * M * M * L / A + 1e-9 * r[0];  // lost in the formula of the library at worst
            if (A > 1e-9 * L * L && !(std::fabs(r[0] - r[1]) <= lim && std::fabs(r[0] - r[2]) <= lim))
                return fmt("the circumcenter (%.9g, %.9g) of triangle %.0f is not equally far from its corners", v.circ[i].x, v.circ[i].y, (double)i);
        }
        return "";
    }
    void checkDelaunay(const lib::MeshView &v, const RegSlot &r, const std::vector<P> &seeds) {
        const MeshData &m = v.d;
        std::string b = partition(m, r.m, tol);
        if (b.empty()) b = delaunay(m, [](P, P) { return false; });
        if (b.empty()) b = circumcenters(v);
        if (b.empty() && !hasAll(m, allPoints(r, seeds))) b = "a seed or a corner of the domain is not a node";
        check("DELAUNAY", b);
        check("ADJ", adjacency(m, false));
    }
    void checkVoronoi(const MeshData &v, const MeshData &tri, const RegSlot &r, const std::vector<P> &seeds) {
        check("TILE", partition(v, r.m, tol));
        check("ADJ", adjacency(v));
        std::vector<int> site;
        std::string b = voronoi(v, tri, tol, &site);
        if (b.empty()) {
            std::set<P> owners;
            for (int i : site) owners.insert(tri.pts[i]);
            for (auto &p : seeds)
                if (inDomain(p, r) && !owners.count(p)) b = fmt("seed (%.9g, %.9g) has no cell", p.x, p.y);
        }
        check("SITES", b);
    }
    void opVor() {
        RegSlot *s = reg(atoi(t[1].c_str()));
        if (!s) return skip();
        int own = atoi(t[2].c_str()), V = atoi(t[3].c_str()), T = atoi(t[4].c_str());
        std::vector<P> seeds = t[5] == "=" ? s->seeds : ptsParse(t[5]);
        bool w = t[5] == "=" && s->wild;
        wild = w;
        if (!meshable(*s, seeds)) return skip();
        lib::VGen *g = nullptr;
        lib::Mesh *v = nullptr, *tr = nullptr;
        Out o = attempts([&](const lib::Faults *f) { return lib::vor(s->r, seeds, own, f, g, v, tr); });
        if (!ended(o, false, false, "", "")) return;
        if (g) ctx->vgens[V] = g;
        meshed(*s, seeds, v, tr, V, T, g ? V : -1, w);
    }
    void meshed(const RegSlot &s, const std::vector<P> &seeds, lib::Mesh *v, lib::Mesh *tr, int V, int T, int vgen, bool w) {
        uint64_t a, b;
        {
            MeshSlot &mv = keepMesh(V, v, vgen, w);
            a = mv.dig;
        }
        MeshSlot &mt = keepMesh(T, tr, vgen, w);
        b = mt.dig;
        MeshSlot &mv = *mesh(V == T ? T : V);
        checkDelaunay(mt.v, s, seeds);
        if (V != T) checkVoronoi(mv.v.d, mt.v.d, s, seeds);
        checkMarks(mt.v);
        checkMarks(mv.v);
        rec.digest = rt::mix(a, b);
        untouched(nullptr, nullptr, false);
    }
    void opGenNew() {
        RegSlot *s = reg(atoi(t[1].c_str()));
        if (!s) return skip();
        GenSlot g;
        g.from = *s;
        g.seeds = t[3] == "=" ? s->seeds : ptsParse(t[3]);
        g.wild = t[3] == "=" && s->wild;
        wild = g.wild;
        if (!meshable(*s, g.seeds)) return skip();
        Out o = attempts([&](const lib::Faults *f) { return lib::genNew(s->r, g.seeds, f, g.g); });
        if (!ended(o, false, false, "", "")) return;
        ctx->gens[atoi(t[2].c_str())] = g;
        untouched(nullptr, nullptr, false);
    }
    GenSlot *gen(int id) {
        auto it = ctx->gens.find(id);
        return it == ctx->gens.end() || !it->second.g ? nullptr : &it->second;
    }
    void opGenMesh() {
        GenSlot *g = gen(atoi(t[1].c_str()));
        if (!g) return skip();
        wild = g->wild;
        int M = atoi(t[2].c_str());
        lib::Kind k = t[0] == "conf" ? lib::CONFORMING : t[0] == "cons" ? lib::CONSTRAINED : lib::RESTRICTED;
        std::vector<std::array<P, 2>> segs;
        double sz = extent(g->from.m.outer);
        if (k == lib::RESTRICTED) {
            std::vector<P> p = ptsParse(t[3]);
            std::vector<P> nodes = allPoints(g->from, g->seeds);
            std::set<P> known(nodes.begin(), nodes.end());
            for (size_t i = 0; i + 1 < p.size(); i += 2) {
                std::array<P, 2> s = {{p[i], p[i + 1]}};
                bool ok = known.count(s[0]) && known.count(s[1]) && segmentOk(s[0], s[1], g->from.m, nodes, 8e-4 * sz);
                for (auto &o : segs) ok = ok && segmentsApart(s[0], s[1], o[0], o[1], 8e-4 * sz);
                if (ok) segs.push_back(s);
            }
        }
        lib::Mesh *m = nullptr;
        Out o = attempts([&](const lib::Faults *f) { return lib::genMesh(g->g, k, segs, f, m); });
        if (!ended(o, false, false, "", "")) return;
        MeshSlot &s = keepMesh(M, m, -1, g->wild);
        rec.digest = s.dig;
        checkMarks(s.v);
        if (k == lib::CONFORMING) {
            checkDelaunay(s.v, g->from, g->seeds);
        } else {
            const MeshData &d = s.v.d;
            std::string b = partition(d, g->from.m, tol);
            if (b.empty()) {
                std::vector<P> want = allPoints(g->from, g->seeds);
                std::set<P> a(want.begin(), want.end()), c(d.pts.begin(), d.pts.end());
                if (a != c) b = c.size() > a.size() ? "a constrained triangulation added points" : "a constrained triangulation lost points";
            }
            for (auto &x : segs)
                if (b.empty() && !segmentCovered(d, x[0], x[1], tol)) b = "a restricted segment is not an edge of the triangulation";
            if (b.empty())
                b = delaunay(d, [&](P p, P q) {
                    for (auto &x : segs)
                        if (distSeg(p, x[0], x[1]) < tol && distSeg(q, x[0], x[1]) < tol) return true;
                    return false;
                });
            check("CONSTRAINED", b);
            check("ADJ", adjacency(d, false));
        }
        untouched(nullptr, nullptr, false);
    }
    void opGenVor() {
        GenSlot *g = gen(atoi(t[1].c_str()));
        if (!g) return skip();
        wild = g->wild;
        lib::Mesh *v = nullptr, *tr = nullptr;
        Out o = attempts([&](const lib::Faults *f) { return lib::genVoronoi(g->g, f, v, tr); });
        if (!ended(o, false, false, "", "")) return;
        meshed(g->from, g->seeds, v, tr, atoi(t[2].c_str()), atoi(t[3].c_str()), -1, g->wild);
    }
    void opGenDrop() {
        auto it = ctx->gens.find(atoi(t[1].c_str()));
        if (it == ctx->gens.end()) return skip();
        lib::Gen *g = it->second.g;
        ctx->gens.erase(it);
        Out o = lib::genDrop(g, nullptr);
        if (ended(o, false, false, "", "")) untouched(nullptr, nullptr, false);
    }
    // triangles of the polygon ix of the list before, whose points are in the list after
    void checkParts(int kind, const std::vector<int> &ix, const std::vector<P> &before, const std::vector<P> &after,
                    const std::vector<std::array<int, 3>> &ts) {
        size_t n = ix.size();
        Poly p;
        for (int i : ix) p.push_back(before[i]);
        std::string b;
        if (after.size() != before.size() + (kind == 1) || !std::equal(before.begin(), before.end(), after.begin())) b = "the points it was given changed";
        if (b.empty() && ts.size() != (kind == 1 ? n : n - 2)) b = fmt("a polygon of %.0f corners became %.0f triangles", (double)n, (double)ts.size());
        std::map<std::pair<int, int>, int> uses;
        double sum = 0;
        std::set<int> known(ix.begin(), ix.end());
        if (kind == 1) known.insert((int)before.size());
        for (auto &x : ts) {
            for (int k = 0; b.empty() && k < 3; k++)
                if (!known.count(x[k])) b = "a triangle has a corner that is none of the polygon";
            if (!b.empty()) break;
            sum += std::fabs(signedArea(Poly{after[x[0]], after[x[1]], after[x[2]]}));
            for (int k = 0; k < 3; k++) uses[std::minmax(x[k], x[(k + 1) % 3])]++;
        }
        double A = std::fabs(signedArea(p)), M = 0;
        for (auto &q : p) M = std::max(M, std::max(std::fabs(q.x), std::fabs(q.y)));
        if (b.empty() && !(std::fabs(sum - A) <= 1e-9 * A + 1e-12 * M * M)) b = fmt("the triangles have the area %.12g, the polygon %.12g", sum, A);
        std::set<std::pair<int, int>> sides;
        for (size_t i = 0; i < n; i++) sides.insert(std::minmax(ix[i], ix[(i + 1) % n]));
        for (auto &u : uses)
            if (b.empty() && u.second != (sides.count(u.first) ? 1 : 2)) b = "the triangles do not meet edge to edge";
        for (auto &s : sides)
            if (b.empty() && !uses.count(s)) b = "a side of the polygon is no edge of a triangle";
        check("PARTS", b);
        rec.digest = hpts(H0, after);
        for (auto &x : ts)
            for (int i : x) rec.digest = rt::mix(rec.digest, (uint64_t)i);
    }
    static bool convexly(const Poly &p) {  // clearly
        size_t n = p.size();
        int left = 0, right = 0;
        for (size_t i = 0; i < n; i++) {
            P a = p[i], b = p[(i + 1) % n], c = p[(i + 2) % n];
            double x = (b.x - a.x) * (c.y - b.y) - (b.y - a.y) * (c.x - b.x), l = dist(a, b) * dist(b, c);
            left += x > 1e-9 * l;
            right += x < -1e-9 * l;
        }
        return left == (int)n || right == (int)n;
    }
    static bool concavely(const Poly &p) {
        size_t n = p.size();
        int left = 0, right = 0;
        for (size_t i = 0; i < n; i++) {
            P a = p[i], b = p[(i + 1) % n], c = p[(i + 2) % n];
            double x = (b.x - a.x) * (c.y - b.y) - (b.y - a.y) * (c.x - b.x), l = dist(a, b) * dist(b, c);
            left += x > 1e-6 * l;
            right += x < -1e-6 * l;
        }
        return left && right;
    }
    void opPolyTri() {
        int kind = atoi(t[1].c_str());
        Poly p = ptsParse(t[2]);
        std::vector<P> others = t.size() > 3 ? ptsParse(t[3]) : std::vector<P>();
        if (kind < 0 || kind > 2 || p.size() < 3 || signedArea(p) == 0 || !simple(p)) return skip();
        double s = extent(p);
        for (size_t i = 0; i < p.size(); i++)
            for (size_t k = 0; k < i; k++)
                if (dist(p[i], p[k]) < 1e-3 * s) return skip();
        for (size_t i = 0; i < others.size(); i++) {
            if (inside(others[i], p) || distBoundary(others[i], p) < 1e-2 * s) return skip();
            for (size_t k = 0; k < i; k++)
                if (dist(others[i], others[k]) < 1e-2 * s) return skip();
        }
        if (!clearCorners(p, s)) return skip();
        bool convex = convexly(p), concave = concavely(p);
        if (kind == 1 && !convex && !concave) return skip();
        std::vector<P> pts, list = others;
        std::vector<int> ix;
        for (size_t i = 0; i < p.size(); i++) {
            list.insert(list.begin() + others.size() / 2 + i, p[i]);
            ix.push_back((int)(others.size() / 2 + i));
        }
        std::vector<std::array<int, 3>> ts;
        Out o = attempts([&](const lib::Faults *f) { return lib::polyTriangles(kind, p, others, f, pts, ts); });
        bool refused = kind == 1 && concave;
        if (!ended(o, refused, refused, "PARTS", "a concave polygon was divided from its centre")) return;
        checkParts(kind, ix, list, pts, ts);
        untouched(nullptr, nullptr, false);
    }
    // what was asked, against the corners; the polygon turns counterclockwise after FIXCCW
    void checkAnswers(const Poly &given, const std::vector<int> &asks, const std::vector<P> &probes, const std::vector<lib::Answer> &got) {
        static const char *const names[] = {"area", "signed area", "diameter", "centroid", "average", "longest edge", "isConvex", "isClockwise", "containsPoint", "inEdges", "getPoints", "numberOfSides", "isSelfIntersecting", "", "", ""};
        Poly p = given;
        double e, M, A, best, longest, rnd, sign;
        P avg;
        bool clear, cornered, mutated = false;
        Domain d;
        auto measure = [&] {
            e = extent(p), M = 0, A = signedArea(p), best = 0, longest = 0;
            for (auto &q : p) M = std::max(M, std::max(std::fabs(q.x), std::fabs(q.y)));
            avg = {0, 0};
            for (size_t i = 0; i < p.size(); i++) {
                double l = dist(p[i], p[(i + 1) % p.size()]);
                longest = std::max(longest, l);
                for (auto &q : p) best = std::max(best, dist(q, p[i]));
                avg.x += p[i].x / (double)p.size();
                avg.y += p[i].y / (double)p.size();
            }
            rnd = 1e-12 * M * M, sign = A < 0 ? -1 : 1;
            clear = std::fabs(A) > 1e-4 * e * e && std::fabs(A) > 1e-3 && std::fabs(A) > 100 * rnd;
            cornered = clearCorners(p, e);
            d.outer = p;
        };
        measure();
        double scale = lib::mutateScale(asks);
        check("MEASURE", got.size() == asks.size(), "a question was not answered");
        for (size_t k = 0; k < got.size() && k < asks.size(); k++) {
            const lib::Answer &x = got[k];
            P q = probes.empty() ? P{0, 0} : probes[k % probes.size()];
            if (mutated) q = {q.x * scale, q.y * scale};
            bool ok = true;
            switch (x.ask) {
                case lib::AREA:  // the area of a clockwise polygon may have a sign
                    ok = std::fabs(std::fabs(x.a) - std::fabs(A)) <= 1e-9 * std::fabs(A) + rnd && (!clear || sign < 0 || x.a > 0);
                    break;
                case lib::SIGNED: ok = std::fabs(x.a - sign * std::fabs(A)) <= 1e-9 * std::fabs(A) + rnd; break;
                case lib::DIAMETER: ok = x.a <= best * (1 + 1e-9) && x.a >= best * (1 - 1e-6) - 1e-9 * M; break;
                case lib::CENTROID: ok = !clear || dist(P{x.a, x.b}, centroid(p)) <= 1e-6 * e + 100 * rnd * M / std::fabs(A); break;
                case lib::AVERAGE: ok = dist(P{x.a, x.b}, avg) <= 1e-9 * (e + M); break;
                case lib::LONGEST: ok = std::fabs(x.a - longest) <= 1e-9 * longest + 1e-12 * M; break;
                case lib::CONVEX:
                    if (convexly(p)) ok = x.a == 1;
                    if (concavely(p)) ok = x.a == 0;
                    break;
                case lib::CLOCKWISE: ok = !clear || (x.a == 1) == (sign < 0); break;
                case lib::CONTAINS:
                case lib::ONEDGE: {
                    bool edge = surelyOn(q, p);
                    int b = edge ? 1 : belongs(q, d);
                    if (M > 1e4 || !cornered || b == 2) break;
                    ok = (x.a != 0) == (x.ask == lib::CONTAINS ? b == 1 : edge);
                    break;
                }
                case lib::CORNERS: ok = x.a == 1; break;
                case lib::SIDES: ok = x.a == (double)p.size(); break;
                case lib::SELFCROSS: ok = !cornered || M > 1e4 || x.a == 0; break;
                case lib::FIXCCW: sign = 1; break;
                case lib::MUTATED:  // the corners as given, nearer the origin, once
                    if (mutated) break;
                    mutated = true;
                    for (auto &c : p) c = {c.x * scale, c.y * scale};
                    measure();
                    break;
                default: break;
            }
            if (!ok) check("MEASURE", fmt((std::string("a polygon's ") + names[x.ask] + " is wrong: %.12g %.12g").c_str(), x.a, x.b));
            rec.digest = rt::mix(rec.digest, (uint64_t)x.ask);
            uint64_t h[2];
            memcpy(h, &x.a, 8);
            memcpy(h + 1, &x.b, 8);
            rec.digest = rt::mix(rt::mix(rec.digest, h[0]), h[1]);
        }
    }
    static std::vector<int> asked(const std::string &s, bool cell, bool itself) {
        std::vector<int> r;
        for (char c : s) {
            int a = c - 'a';
            if (a < 0 || a >= lib::ASKS) continue;
            if (cell && a == lib::MUTATED) continue;
            if (itself && (a == lib::FIXCCW || a == lib::COPY)) continue;
            r.push_back(a);
        }
        return r;
    }
    // probes: fractions of the polygon's box; exactly 0 or 1 stand for corners and middles of sides, 2 and more for the height of a corner
    static std::vector<P> probesFor(const std::vector<P> &f, const Poly &p) {
        std::vector<P> r;
        P lo, hi;
        bbox(p, lo, hi);
        for (auto &q : f) {
            size_t i = (size_t)std::fabs(q.y * 1000) % p.size();
            P a = p[i], b = p[(i + 1) % p.size()];
            if (q.x == 0)
                r.push_back(a);
            else if (q.x == 1)
                r.push_back({(a.x + b.x) / 2, (a.y + b.y) / 2});
            else if (q.y >= 2)
                r.push_back({lo.x + q.x * (hi.x - lo.x), a.y});
            else
                r.push_back({lo.x + q.x * (hi.x - lo.x), lo.y + q.y * (hi.y - lo.y)});
        }
        return r;
    }
    void opPolyAsk() {
        Poly p = ptsParse(t[1]);
        std::vector<P> others = t.size() > 4 ? ptsParse(t[4]) : std::vector<P>();
        if (p.size() < 3 || signedArea(p) == 0 || !simple(p)) return skip();
        double s = extent(p);
        for (size_t i = 0; i < p.size(); i++)
            if (dist(p[i], p[(i + 1) % p.size()]) < 1e-3 * s || dist(p[i], p[(i + 1) % p.size()]) < 1e-2) return skip();
        if (!clearCorners(p, s)) return skip();
        std::vector<int> asks = asked(t[2], false, false);
        for (size_t i = 0; i < p.size(); i++)
            if (dist(p[i], p[(i + 1) % p.size()]) * lib::mutateScale(asks) < 1e-2) return skip();
        std::vector<P> probes = probesFor(ptsParse(t[3]), p);
        std::vector<lib::Answer> got;
        Out o = attempts([&](const lib::Faults *f) { return lib::polyMeasures(p, others, asks, probes, f, got); });
        if (!ended(o, false, false, "", "")) return;
        rec.digest = H0;
        checkAnswers(p, asks, probes, got);
        untouched(nullptr, nullptr, false);
    }
    void opCellAsk() {
        MeshSlot *s = mesh(atoi(t[1].c_str()));
        if (!s || s->v.d.cells.empty()) return skip();
        wild = s->wild;
        size_t c = (size_t)atol(t[2].c_str()) % s->v.d.cells.size();
        bool itself = t[3] == "1" && ctx != &shared_ && s->full;
        Poly p = cellPoly(s->v.d, c);
        if (p.size() < 3 || !simple(p)) return skip();
        double size = extent(p);
        for (size_t i = 0; i < p.size(); i++)
            if (dist(p[i], p[(i + 1) % p.size()]) < 1e-3 * size || dist(p[i], p[(i + 1) % p.size()]) < 1e-2) return skip();
        std::vector<int> asks = asked(t[4], true, itself);
        std::vector<P> probes = probesFor(ptsParse(t[5]), p);
        std::vector<lib::Answer> got;
        lib::Mesh *m = s->m;
        Out o = attempts([&](const lib::Faults *f) { return lib::cellMeasures(m, (int)c, itself, asks, probes, f, got); });
        if (!ended(o, false, false, "", "")) return;
        rec.digest = H0;
        checkAnswers(p, asks, probes, got);
        untouched(nullptr, nullptr, false);
    }
    // no corner nearly on a side it does not belong to
    static bool clearCorners(const Poly &p, double s) {
        size_t n = p.size();
        for (size_t i = 0; i < n; i++)
            for (size_t k = 0; k < n; k++)
                if (k != i && (k + 1) % n != i && distSeg(p[i], p[k], p[(k + 1) % n]) < 1e-3 * s) return false;
        return true;
    }
    void opCellTri() {
        MeshSlot *s = mesh(atoi(t[1].c_str()));
        if (!s || s->v.d.cells.empty()) return skip();
        wild = s->wild;
        int kind = atoi(t[2].c_str()) % 3;
        size_t c = (size_t)atol(t[3].c_str()) % s->v.d.cells.size();
        std::vector<int> ix = s->v.d.cells[c];
        Poly p = cellPoly(s->v.d, c);
        double size = extent(p);
        if (p.size() < 3 || !simple(p) || !clearCorners(p, size)) return skip();
        for (size_t i = 0; i < p.size(); i++)
            if (dist(p[i], p[(i + 1) % p.size()]) < 1e-3 * size) return skip();
        bool convex = convexly(p), concave = concavely(p);
        if (kind == 1 && !convex && !concave) return skip();
        std::vector<P> before = s->v.d.pts, pts;
        if (size < 5e-3 * extent(before)) return skip();
        std::vector<std::array<int, 3>> ts;
        lib::Mesh *m = s->m;
        Out o = attempts([&](const lib::Faults *f) { return lib::cellTriangles(m, kind, (int)c, f, pts, ts); });
        bool refused = kind == 1 && concave;
        if (!ended(o, refused, refused, "PARTS", "a concave cell was divided from its centre")) return;
        checkParts(kind, ix, before, pts, ts);
        untouched(nullptr, nullptr, false);
    }
    void opMeshCopy() {
        MeshSlot *s = mesh(atoi(t[1].c_str()));
        if (!s) return skip();
        wild = s->wild;
        lib::Mesh *m = nullptr;
        Out o = attempts([&](const lib::Faults *f) { return lib::meshCopy(s->m, f, m); });
        if (!ended(o, false, false, "", "")) return;
        s = mesh(atoi(t[1].c_str()));
        lib::MeshView before = s->v;
        MeshSlot &c = keepMesh(atoi(t[2].c_str()), m, -1, s->wild);
        lib::MeshView a = c.v;
        a.area = before.area;
        a.diameter = before.diameter;
        a.centroid = before.centroid;
        check("FROZEN", digest(a) == digest(before), "a copy of a mesh is not equal to it");
        rec.digest = c.dig;
        untouched(nullptr, nullptr, false);
    }
    void opMeshAssign() {
        MeshSlot *s = mesh(atoi(t[1].c_str())), *d = mesh(atoi(t[2].c_str()));
        if (!s || !d || s == d || lib::isTri(s->m) != lib::isTri(d->m) || d->vgen >= 0) return skip();
        wild = s->wild;
        Out o = attempts([&](const lib::Faults *f) { return lib::meshAssign(s->m, f, d->m); }, nullptr, d, true);
        if (!ended(o, false, false, "", "")) return;
        d->wild = s->wild;
        d->v = lib::view(d->m, d->full);
        d->dig = digest(d->v);
        lib::MeshView a = d->v, b = s->v;
        a.area = b.area;
        a.diameter = b.diameter;
        a.centroid = b.centroid;
        check("FROZEN", digest(a) == digest(b), "an assigned mesh is not equal to its source");
        rec.digest = d->dig;
        untouched(nullptr, d, false);
    }
    void opMeshDrop() {
        auto it = ctx->meshes.find(atoi(t[1].c_str()));
        if (it == ctx->meshes.end() || it->second.vgen >= 0) return skip();
        lib::Mesh *m = it->second.m;
        ctx->meshes.erase(it);
        Out o = lib::meshDrop(m, nullptr);
        if (ended(o, false, false, "", "")) untouched(nullptr, nullptr, false);
    }
    void opVGenDrop() {
        int id = atoi(t[1].c_str());
        auto it = ctx->vgens.find(id);
        if (it == ctx->vgens.end()) return skip();
        lib::VGen *g = it->second;
        ctx->vgens.erase(it);
        for (auto m = ctx->meshes.begin(); m != ctx->meshes.end();)
            if (m->second.vgen == id)
                m = ctx->meshes.erase(m);
            else
                ++m;
        Out o = lib::vgenDrop(g, nullptr);
        if (ended(o, false, false, "", "")) untouched(nullptr, nullptr, false);
    }
    void opMeshPrint() {
        MeshSlot *s = mesh(atoi(t[1].c_str()));
        if (!s) return skip();
        wild = s->wild;
        lib::MeshView v = lib::view(s->m, false);
        if (t[0] == "mprint")
            exported(t[2], [&](const lib::Faults *f) { return lib::meshPrint(s->m, t[2], f); },
                     [&](const std::string &d) { return files::meshFile(d, v.d, precision()); });
        else if (t[0] == "sprint")
            exported(t[2], [&](const lib::Faults *f) { return lib::segPrint(s->m, t[2], f); },
                     [&](const std::string &d) { return files::segmentFile(d, v.d); });
        else
            exported(t[2], [&](const lib::Faults *f) { return lib::pointPrint(s->m, t[2], f); },
                     [&](const std::string &d) { return files::pointFile(d, v.d, precision()); });
    }
    void opMeshNew() {
        lib::Mesh *m = nullptr;
        bool tri = atoi(t[2].c_str());
        Out o = attempts([&](const lib::Faults *f) { return lib::meshNew(tri, f, m); });
        if (!ended(o, false, false, "", "")) return;
        keepMesh(atoi(t[1].c_str()), m, -1, false);
    }
    void opMeshRead() {
        MeshSlot *s = mesh(atoi(t[1].c_str()));
        if (!s || s->vgen >= 0) return skip();
        int start = atoi(t[3].c_str());
        bool edges = false, tri = lib::isTri(s->m);
        MeshData want;
        auto it = rt::disk().find(path(t[2]));
        files::Verdict vd = it == rt::disk().end() || J->env.home.empty() ? files::INVALID : files::readMesh(it->second, start, tri, want, edges);
        Out o = attempts([&](const lib::Faults *f) { return lib::meshRead(s->m, t[2], start, f); });
        if (vd == files::UNCLEAR) wild = true;
        if (!ended(o, vd == files::UNCLEAR, vd == files::INVALID, "IMPORT", "a damaged mesh file was accepted")) return;
        s->v = lib::view(s->m, vd == files::VALID && s->full);
        if (vd != files::VALID) s->full = false;
        s->dig = digest(s->v);
        s->wild = wild;
        rec.digest = s->dig;
        if (vd == files::VALID) {
            const MeshData &d = s->v.d;
            std::string b;
            if (d.pts != dedup(want.pts)) b = "the nodes are not the ones in the file";
            if (b.empty() && d.cells.size() != want.cells.size()) b = "the number of cells is not the one in the file";
            for (size_t c = 0; b.empty() && c < d.cells.size(); c++) {
                bool same = d.cells[c].size() == want.cells[c].size();
                for (size_t k = 0; same && k < d.cells[c].size(); k++) {
                    int i = d.cells[c][k];
                    same = i >= 0 && i < (int)d.pts.size() && d.pts[i] == want.pts[want.cells[c][k]];
                }
                if (!same) b = fmt("cell %.0f is not the one in the file", c);
            }
            if (b.empty()) b = adjacency(d);
            if (b.empty()) b = s->v.inconsistent;
            check("IMPORT", b);
            check("ADJ", adjacency(d));
        }
        untouched(nullptr, s, false);
    }
    void opMeshQuery() {
        MeshSlot *s = mesh(atoi(t[1].c_str()));
        if (!s) return skip();
        wild = s->wild;
        lib::MeshView v;
        Out o = attempts([&](const lib::Faults *f) { return lib::meshQuery(s->m, true, f, v); });
        if (!ended(o, false, false, "", "")) return;
        check("ADJ", v.inconsistent);
        if (v.area.size() == v.d.cells.size()) measures(v);
        lib::MeshView a = v;
        if (!s->full) {
            a.area.clear();
            a.diameter.clear();
            a.centroid.clear();
        }
        check("FROZEN", digest(a) == s->dig, "a reader saw a mesh other than the one that was handed out");
        rec.digest = digest(v);
        untouched(nullptr, nullptr, false);
    }
    void opNeigh() {
        MeshSlot *s = mesh(atoi(t[1].c_str()));
        if (!s || s->v.d.pts.empty()) return skip();
        wild = s->wild;
        int n = atoi(t[2].c_str());
        rt::Rng g((uint64_t)atoll(t[3].c_str()));
        const MeshData &d = s->v.d;
        std::map<uint64_t, std::array<int, 2>> have;
        for (auto &e : d.edges) have[ukey(e[0], e[1])] = {{e[2], e[3]}};
        std::vector<std::array<int, 2>> q;
        for (int i = 0; i < n; i++) {
            int a, b;
            if (!d.edges.empty() && g.chance(0.5)) {
                auto &e = d.edges[g.below(d.edges.size())];
                a = e[0];
                b = e[1];
            } else {
                a = (int)g.below(d.pts.size());
                b = (int)g.below(d.pts.size() + 2);
                if (a == b) b++;
            }
            if (g.chance(0.5)) std::swap(a, b);
            q.push_back({{a, b}});
        }
        std::vector<lib::Neigh> a;
        Out o = attempts([&](const lib::Faults *f) { return lib::meshNeighbours(s->m, q, f, a); });
        if (!ended(o, false, false, "", "")) return;
        rec.digest = H0;
        bool ok = true;
        for (size_t i = 0; i < q.size(); i++) {
            auto it = have.find(ukey(q[i][0], q[i][1]));
            std::array<int, 2> w = {{-1, -1}};
            if (it != have.end()) w = it->second;
            ok = ok && ((a[i].a == w[0] && a[i].b == w[1]) || (a[i].a == w[1] && a[i].b == w[0]));
            rec.digest = rt::mix(rt::mix(rec.digest, (uint64_t)a[i].a), (uint64_t)a[i].b);
        }
        check("ADJ", ok, "getNeighbours does not answer the cells on a segment");
        untouched(nullptr, nullptr, false);
    }

    // -------------------------------------------------------------- generation and configuration

    void opPointGen() {
        lib::GenSpec g = genSpec(1);
        std::vector<P> box = ptsParse(t[6]), out;
        int keepN = atoi(t[7].c_str());
        if (box.size() != 2) return skip();
        Out o = attempts([&](const lib::Faults *f) { return lib::pointGenerate(g, box[0], box[1], keepN, f, out); });
        wild = genRandom(g);
        if (!ended(o, false, false, "", "")) return;
        std::string why;
        bool ok = out.size() >= (size_t)keepN;
        for (int i = 0; ok && i < keepN; i++) ok = out[i].x == i && out[i].y == -i;
        if (!ok)
            why = "the points that were there changed";
        else
            genOk(g, box[0], box[1], out, (size_t)keepN, why);
        check("GEN", why);
        rec.digest = hpts(H0, out);
    }
    void opApply() {
        int n = atoi(t[2].c_str());
        double lo = atof(t[4].c_str()), hi = atof(t[5].c_str());
        rt::Rng g((uint64_t)atoll(t[3].c_str()));
        std::vector<double> xs, ys;
        for (int i = 0; i < n; i++) xs.push_back(g.in(lo, hi));
        Out o = attempts([&](const lib::Faults *f) { return lib::apply(t[1], xs, f, ys); });
        wild = isRandom(t[1]);
        if (!ended(o, false, false, "", "")) return;
        std::string b;
        Fn f(t[1]);
        bool noise = f.inner != nullptr, extreme = (J->env.rng >> 40) != 0;
        std::set<double> vals;
        double mn = 1e300, mx = -1e300;
        int up = 0, down = 0;
        if (f.name != "alt" && !(noise && t[1].find("alt") != std::string::npos)) {
            for (int i = 0; i < n && b.empty(); i++) {
                if (!near(f, xs[i], ys[i], 1e-9 * (1 + std::fabs(xs[i])))) b = fmt("argument %.17g gives %.17g", xs[i], ys[i]);
                if (!extreme && f.name == "rdbl" && ys[i] >= f.a[1] && f.a[1] > f.a[0]) b = "a random double reaches its upper end";
                if (noise) {
                    double e = 1e-6 * f.a[1] + 1e-8 * (1 + std::fabs(xs[i]));
                    up += ys[i] > f.base + e;
                    down += ys[i] < f.base - e;
                }
                vals.insert(ys[i]);
                mn = std::min(mn, ys[i]);
                mx = std::max(mx, ys[i]);
            }
            double w = f.a[1] - f.a[0];
            if (b.empty() && !extreme && noise && n >= 100 && f.a[1] > .01 && (!up || !down)) b = "noise only ever has one sign";
            if (b.empty() && !extreme && f.name == "rdbl" && w > 0 && n >= 64 && (mn > f.a[0] + w / 2 || mx < f.a[0] + w / 2))
                b = "random doubles stay in one half of their range";
            if (b.empty() && !extreme && f.name == "rint" && w < 5 && n >= 64 * (w + 1) && vals.size() != (size_t)(w + 1))
                b = "a random integer never takes a value of its range";
        }
        check("GEN", b);
        rec.digest = H0;
        for (double y : ys) rec.digest = hd(rec.digest, y);
    }
    void opCfgSet() {
        int f = atoi(t[1].c_str());
        double v = atof(t[2].c_str());
        int field = f == 4 ? 3 : f;
        double stored = f == 4 ? (v == 6 ? 6 : v == 16 ? 16 : 10) : f == 1 ? v : std::floor(v);  // 4: a named precision
        cfgAllowed[field].push_back(stored);
        Out o = attempts([&](const lib::Faults *fl) { return lib::configSet(f, v, fl); });
        if (!ended(o, false, false, "", "")) return;
        cfgMine[me][field] = stored;
        cfgSet_[me][field] = true;
        R.checks++;
    }
    void opCfgGet(bool final) {
        std::vector<double> v;
        const void *inst = nullptr;
        Out o = attempts([&](const lib::Faults *f) { return lib::configGet(f, v, inst); });
        if (!ended(o, false, false, "", "")) return;
        if (!cfgInstance) cfgInstance = inst;
        check("CONFIG", inst == cfgInstance && inst, "instance() answered two different objects");
        for (int f = 0; f < 4; f++) {
            bool ok = false;
            if (final) {
                bool any = false;
                for (int c = 0; c < 8; c++)
                    if (cfgSet_[c][f]) {
                        any = true;
                        ok = ok || v[f] == cfgMine[c][f];
                    }
                if (!any) ok = v[f] == cfgAllowed[f][0];
                check("CONFIG", ok, "a setting was lost");
            } else if (cfgSet_[me][f] && owns(f)) {
                check("CONFIG", v[f] == cfgMine[me][f], "a caller does not read back the setting it made");
            } else {
                for (double a : cfgAllowed[f]) ok = ok || a == v[f];
                check("CONFIG", ok, "a setting holds a value nobody set");
            }
        }
        wild = rt::concurrent || J->plan->phases[0].callers.size() > 1;
        rec.digest = hd(hd(hd(hd(H0, v[0]), v[1]), v[2]), v[3]);
    }
    bool owns(int f) {
        for (int c = 0; c < 8; c++)
            if (c != me && cfgSet_[c][f]) return false;
        return true;
    }
    void opCfgCirc() {  // the settings govern what is made after them
        lib::HoleSpec h;
        h.circle = true;
        h.c = {atof(t[1].c_str()), atof(t[2].c_str())};
        h.r = atof(t[3].c_str());
        Poly p;
        P c;
        Out o = attempts([&](const lib::Faults *f) { return lib::holePoints(h, f, p, c); });
        if (!ended(o, false, false, "", "")) return;
        bool ok = false;
        if (cfgSet_[me][0] && owns(0))
            ok = (double)p.size() == cfgMine[me][0];
        else
            for (double a : cfgAllowed[0]) ok = ok || a == (double)p.size();
        check("CONFIG", ok, "a circle is not made of as many points as configured");
        wild = true;
    }
    void opCfgArc() {
        P c = {atof(t[1].c_str()), atof(t[2].c_str())};
        double r = atof(t[3].c_str()), from = atof(t[4].c_str()), to = atof(t[5].c_str());
        Poly p;
        Out o = attempts([&](const lib::Faults *f) { return lib::arcPoints(c, r, from, to, f, p); });
        if (!ended(o, false, false, "", "")) return;
        bool ok = false;
        double n = (double)p.size() - 1;
        if (cfgSet_[me][0] && owns(0))
            ok = n == cfgMine[me][0];
        else
            for (double a : cfgAllowed[0]) ok = ok || a == n;
        check("CONFIG", ok, "an arc is not made of as many steps as configured");
        for (size_t i = 0; ok && i < p.size(); i++) {
            double a = (from + (to - from) * (double)i / n) * M_PI / 180;
            ok = dist(p[i], P{c.x + r * std::cos(a), c.y + r * std::sin(a)}) <= 1e-9 * (r + std::fabs(c.x) + std::fabs(c.y));
        }
        check("CONFIG", ok, "the points of an arc are not where the configured number of steps puts them");
        wild = true;
    }
    void opCfgTol() {
        int axis = atoi(t[1].c_str());
        double d = atof(t[2].c_str());
        std::array<int, 3> a = {{0, 0, 0}};
        Out o = attempts([&](const lib::Faults *f) { return lib::tolerates(axis, d, f, a); });
        if (!ended(o, false, false, "", "")) return;
        bool yes = false, no = false;
        for (double x : cfgAllowed[1]) {
            if (cfgSet_[me][1] && owns(1) && x != cfgMine[me][1]) continue;
            (d < x ? yes : no) = true;
        }
        for (int x : a) check("CONFIG", x ? yes : no, "points are not taken to be equal within the configured tolerance");
        wild = true;
    }
    // -------------------------------------------------------------- containers and texts

    // every list and map holds what its history of changes says
    void containers(bool failed) {
        const char *tag = failed ? "ATOMIC" : "LIST";
        for (auto &e : ctx->lists) {
            ListSlot &s = e.second;
            lib::ListView v = lib::view(s.l);
            check(tag, v.size == (int)s.items.size() && v.items == s.items,
                  failed ? "a failed operation changed a list" : "a list does not hold what was put into it");
        }
        for (auto &e : ctx->maps) {
            MapsSlot &s = e.second;
            lib::MapsView v = lib::view(s.m);
            bool ok = v.segs == (int)s.segs.size() && v.d.edges.size() == s.segs.size() && v.pts == (int)s.pts.size() && v.d.pmap.size() == s.pts.size();
            for (size_t i = 0; ok && i < v.d.edges.size(); i++) {
                const std::array<int, 4> &x = v.d.edges[i];
                auto it = s.segs.find(std::minmax({x[0], x[1]}));
                ok = it != s.segs.end() && it->second[0] == x[2] && it->second[1] == x[3];
            }
            for (size_t i = 0; ok && i < v.d.pmap.size(); i++) {
                auto it = s.pts.find(v.d.pmap[i].first);
                ok = it != s.pts.end() && it->second == v.d.pmap[i].second;
            }
            check(tag, ok, failed ? "a failed operation changed a map of neighbours" : "a map of neighbours does not hold what was put into it");
        }
    }
    ListSlot *list(const std::string &id) {
        auto it = ctx->lists.find(atoi(id.c_str()));
        return it == ctx->lists.end() ? nullptr : &it->second;
    }
    MapsSlot *maps(const std::string &id) {
        auto it = ctx->maps.find(atoi(id.c_str()));
        return it == ctx->maps.end() ? nullptr : &it->second;
    }
    uint64_t dig(const ListSlot &s) { return hpts(H0, s.items); }
    static uint64_t hints(const std::vector<int> &v) {
        uint64_t h = rt::mix(H0, v.size());
        for (int i : v) h = rt::mix(h, (uint64_t)i);
        return h;
    }
    static int whole(const std::string &s) { return (int)strtol(s.c_str(), nullptr, 10); }
    void opListNew() {
        lib::List *l = nullptr;
        Out o = attempts([&](const lib::Faults *f) { return lib::listNew(whole(t[2]), f, l); });
        if (!ended(o, false, false, "", "")) return;
        ListSlot s;
        s.l = l;
        ctx->lists[whole(t[1])] = s;
        containers(false);
    }
    void opListCopy() {
        ListSlot *s = list(t[1]);
        if (!s) return skip();
        lib::List *l = nullptr;
        Out o = attempts([&](const lib::Faults *f) { return lib::listCopy(s->l, f, l); });
        if (!ended(o, false, false, "", "")) return;
        ListSlot n = *s;
        n.l = l;
        ctx->lists[whole(t[2])] = n;
        containers(false);
    }
    void opListDo() {
        ListSlot *s = list(t[1]);
        if (!s) return skip();
        lib::ListOp k = (lib::ListOp)whole(t[2]);
        P v = ptsParse(t[3])[0];
        if (k == lib::DEL && s->anyForced()) return skip();
        if (k == lib::POP && s->items.empty()) return skip();
        if (lib::listInts(s->l)) v.y = 0;
        int got = -1, want = -1;
        Out o = attempts([&](const lib::Faults *f) { return lib::listDo(s->l, k, v, f, got); });
        if (!ended(o, false, false, "", "")) return;
        auto erase = [&](int i) {
            s->items.erase(s->items.begin() + i);
            s->forced.erase(s->forced.begin() + i);
        };
        if (k == lib::PUSH) want = s->push(v);
        if (k == lib::FORCE) {
            want = (int)s->items.size();
            s->items.push_back(v);
            s->forced.push_back(1);
        }
        if (k == lib::POP) erase(0);
        if (k == lib::DEL && s->keyed(v) >= 0) erase(s->keyed(v));
        if (k == lib::CLEAR) {
            s->items.clear();
            s->forced.clear();
        }
        check("LIST", got == want, "push_back does not say where the element is");
        rec.digest = rt::mix(dig(*s), (uint64_t)got);
        containers(false);
    }
    void many(ListSlot *s, const std::vector<P> &v, std::function<Out(const lib::Faults *, std::vector<int> &)> call) {
        std::vector<int> got, want;
        for (int a = 0;; a++) {  // what went in before a failure stays
            lib::Faults f = faultsFor(a);
            got.clear();
            Out o = call(&f, got);
            if (a == 0) rec.cnt = o.cnt;
            R.ops++;
            if (!o.threw) break;
            if (o.cnt.fired == 0) return (void)ended(o, false, false, "", "");
            R.retries++;
            lib::ListView now = lib::view(s->l);
            bool ok = now.size == (int)now.items.size();
            for (size_t i = 0; i < v.size() && s->items.size() < now.items.size(); i++) s->push(v[i]);
            check("ATOMIC", ok && now.items == s->items, "a failed bulk insertion left something other than the first of its elements");
        }
        for (auto &p : v) want.push_back(s->push(p));
        check("LIST", got == want, "a bulk insertion does not say where its elements are");
        rec.status = 0;
        rec.digest = rt::mix(dig(*s), hints(got));
        containers(false);
    }
    void opListMany() {
        ListSlot *s = list(t[1]);
        if (!s) return skip();
        std::vector<P> v = ptsParse(t[2]);
        if (lib::listInts(s->l))
            for (auto &p : v) p.y = 0;
        many(s, v, [&](const lib::Faults *f, std::vector<int> &a) { return lib::listMany(s->l, v, f, a); });
    }
    void opListFrom() {
        ListSlot *s = list(t[1]), *k = list(t[2]);
        if (!s || !k || s == k || lib::listInts(s->l) != lib::listInts(k->l)) return skip();
        std::vector<P> v = k->items;
        many(s, v, [&](const lib::Faults *f, std::vector<int> &a) { return lib::listFrom(s->l, k->l, f, a); });
    }
    void opListSwap() {
        ListSlot *s = list(t[1]), *k = list(t[2]);
        if (!s || !k || s == k || lib::listInts(s->l) != lib::listInts(k->l)) return skip();
        Out o = attempts([&](const lib::Faults *f) { return lib::listSwap(s->l, k->l, f); });
        if (!ended(o, false, false, "", "")) return;
        std::swap(s->items, k->items);
        std::swap(s->forced, k->forced);
        containers(false);
    }
    void opListQuery() {
        ListSlot *s = list(t[1]);
        if (!s) return skip();
        std::vector<P> v = ptsParse(t[2]);
        if (lib::listInts(s->l))
            for (auto &p : v) p.y = 0;
        std::vector<int> got, want;
        Out o = attempts([&](const lib::Faults *f) { return lib::listQuery(s->l, v, f, got); });
        if (!ended(o, false, false, "", "")) return;
        for (auto &p : v) {
            want.push_back(s->first(p));
            want.push_back(s->keyed(p) >= 0);
        }
        check("LIST", got == want, "indexOf or contains does not answer what the history of the list says");
        rec.digest = hints(got);
        for (auto &e : ctx->lists) {
            ListSlot &k = e.second;
            if (&k == s || lib::listInts(k.l) != lib::listInts(s->l)) continue;
            Out q = attempts([&](const lib::Faults *f) { return lib::listPair(s->l, k.l, f, got); });
            if (!ended(q, false, false, "", "")) return;
            bool common = false;
            for (auto &p : k.items) common = common || s->keyed(p) >= 0;
            check("LIST", got[0] == (int)(s->items == k.items) && got[1] == (int)common, "== or hasCommonElement does not answer what the histories of two lists say");
        }
        containers(false);
    }
    void opMapsNew() {
        lib::Maps *m = nullptr;
        Out o = attempts([&](const lib::Faults *f) { return lib::mapsNew(f, m); });
        if (!ended(o, false, false, "", "")) return;
        MapsSlot s;
        s.m = m;
        ctx->maps[whole(t[1])] = s;
        containers(false);
    }
    void opMapsCopy() {
        MapsSlot *s = maps(t[1]);
        if (!s) return skip();
        lib::Maps *m = nullptr;
        Out o = attempts([&](const lib::Faults *f) { return lib::mapsCopy(s->m, f, m); });
        if (!ended(o, false, false, "", "")) return;
        MapsSlot n = *s;
        n.m = m;
        ctx->maps[whole(t[2])] = n;
        containers(false);
    }
    void opSegIn() {  // sins <maps> <a> <b> <n1> <n2> <both>
        MapsSlot *s = maps(t[1]);
        if (!s) return skip();
        std::array<int, 4> v = {{whole(t[2]), whole(t[3]), whole(t[4]), whole(t[5])}};
        bool both = whole(t[6]);
        std::pair<int, int> key = std::minmax({v[0], v[1]});
        Out o = attempts([&](const lib::Faults *f) { return lib::segInsert(s->m, v, both, f); });
        if (!ended(o, false, false, "", "")) return;
        auto it = s->segs.find(key);
        if (both)
            s->segs[key] = {{v[2], v[3]}};
        else if (it == s->segs.end())
            s->segs[key] = {{v[2], -1}};
        else
            it->second[1] = v[2];
        containers(false);
    }
    void opPointIn() {  // pins <maps> <point> <list> <n>..
        MapsSlot *s = maps(t[1]);
        if (!s) return skip();
        P p = ptsParse(t[2])[0];
        bool l = whole(t[3]);
        std::vector<int> n;
        for (size_t i = 4; i < t.size(); i++) n.push_back(whole(t[i]));
        if (!l) n.resize(1);
        Out o = attempts([&](const lib::Faults *f) { return lib::pointInsert(s->m, p, n, l, f); });
        if (!ended(o, false, false, "", "")) return;
        s->pts[p].insert(s->pts[p].end(), n.begin(), n.end());
        containers(false);
    }
    void opMapsQuery() {
        MapsSlot *s = maps(t[1]);
        if (!s) return skip();
        rt::Rng g((uint64_t)whole(t[2]));
        std::vector<std::array<int, 2>> q;
        std::vector<P> p;
        for (auto &e : s->segs)
            if (g.chance(0.7)) {
                bool turn = g.chance(0.5);
                q.push_back({{turn ? e.first.second : e.first.first, turn ? e.first.first : e.first.second}});
            }
        for (auto &e : s->pts)
            if (g.chance(0.7)) p.push_back(e.first);
        for (int i = 0; i < 4; i++) {
            q.push_back({{(int)g.below(12), (int)g.below(12)}});
            p.push_back({(double)g.below(8), (double)g.below(8)});
        }
        std::vector<int> got, want = {(int)s->segs.size(), (int)s->pts.size()};
        Out o = attempts([&](const lib::Faults *f) { return lib::mapsQuery(s->m, q, p, f, got); });
        if (!ended(o, false, false, "", "")) return;
        for (auto &x : q) {
            auto it = s->segs.find(std::minmax({x[0], x[1]}));
            want.push_back(it != s->segs.end());
            if (it != s->segs.end()) want.insert(want.end(), it->second.begin(), it->second.end());
        }
        for (auto &x : p) {
            auto it = s->pts.find(x);
            want.push_back(it != s->pts.end());
            if (it != s->pts.end()) want.insert(want.end(), it->second.begin(), it->second.end());
        }
        check("LIST", got == want, "a map of neighbours does not answer what was put into it");
        rec.digest = hints(got);
        containers(false);
    }
    void opMapsPrint() {
        MapsSlot *s = maps(t[1]);
        if (!s) return skip();
        MeshData d;
        for (auto &e : s->segs) d.edges.push_back({{e.first.first, e.first.second, e.second[0], e.second[1]}});
        for (auto &e : s->pts) d.pmap.push_back(e);
        if (t[0] == "sprt")
            exported(t[2], [&](const lib::Faults *f) { return lib::segPrint(s->m, t[2], f); },
                     [&](const std::string &x) { return files::segmentFile(x, d); });
        else
            exported(t[2], [&](const lib::Faults *f) { return lib::pointPrint(s->m, t[2], f); },
                     [&](const std::string &x) { return files::pointFile(x, d, precision()); });
        containers(false);
    }
    void opText() {  // text <kind> <a> <b> <number>
        int kind = whole(t[1]), a = whole(t[2]), b = whole(t[3]);
        double v = atof(t[4].c_str());
        std::string got, want = std::to_string(a);
        Out o = attempts([&](const lib::Faults *f) { return lib::text(kind, {(double)a, (double)b, v}, f, got); });
        if (!ended(o, false, false, "", "")) return;
        if (kind == 1) {
            char buf[400];
            snprintf(buf, sizeof buf, "%.*f", a, v);
            want = buf;
        }
        if (kind > 1) want += " " + std::to_string(b);
        if (kind == 5) want = "4 0 1 2 3";
        check("TEXT", got == want, "the text of a value is not its value");
        rec.digest = hstr(H0, got);
        untouched(nullptr, nullptr, false);
    }

    void opGeometry() {  // geom <kind> <points> <number>
        std::vector<double> got;
        std::string text;
        std::vector<P> in = ptsParse(t[2]);
        if (in.size() < 4) return skip();
        Out o = attempts([&](const lib::Faults *f) {
            got.clear();
            text.clear();
            return lib::geometry(whole(t[1]), in, whole(t[3]), f, got, text);
        });
        if (!ended(o, false, false, "", "")) return;
        rec.digest = hstr(H0, text);
        for (double d : got) rec.digest = hd(rec.digest, d);
        untouched(nullptr, nullptr, false);
    }

    void opFile() { rt::disk()[path(t[1])] = hexParse(t[2]); }

    void skip() {
        rec.status = 2;
        R.skipped++;
    }

    void one(const Op &o, size_t i) {
        op = &o;
        idx = i;
        t = split(o.text, ' ');
        rec = Rec();
        wild = false;
        reportWhere(me, (int)i, stage);
        static const std::map<std::string, std::pair<size_t, void (Exec::*)()>> table = {
            {"region", {3, &Exec::opRegion}},     {"rcopy", {3, &Exec::opCopy}},
            {"rassign", {3, &Exec::opAssign}},    {"mutate", {3, &Exec::opMutate}},
            {"circ", {5, &Exec::opHole}},         {"phole", {3, &Exec::opHole}},
            {"cleanholes", {2, &Exec::opClean}},  {"cleanseeds", {2, &Exec::opClean}},
            {"seeds", {3, &Exec::opSeeds}},       {"rgen", {7, &Exec::opRegGen}},
            {"seedfile", {3, &Exec::opSeedFile}}, {"rprint", {3, &Exec::opRegPrint}},
            {"tprint", {2, &Exec::opTriPrint}},   {"rquery", {3, &Exec::opRegQuery}},
            {"vor", {6, &Exec::opVor}},           {"tgen", {4, &Exec::opGenNew}},
            {"conf", {3, &Exec::opGenMesh}},      {"cons", {3, &Exec::opGenMesh}},
            {"restr", {4, &Exec::opGenMesh}},     {"info", {4, &Exec::opGenVor}},
            {"gdrop", {2, &Exec::opGenDrop}},     {"polytri", {3, &Exec::opPolyTri}},
            {"celltri", {4, &Exec::opCellTri}},   {"polyask", {4, &Exec::opPolyAsk}},
            {"cellask", {6, &Exec::opCellAsk}},
            {"mcopy", {3, &Exec::opMeshCopy}},    {"massign", {3, &Exec::opMeshAssign}},
            {"mdrop", {2, &Exec::opMeshDrop}},    {"vgendrop", {2, &Exec::opVGenDrop}},
            {"mprint", {3, &Exec::opMeshPrint}},  {"sprint", {3, &Exec::opMeshPrint}},
            {"pprint", {3, &Exec::opMeshPrint}},  {"mnew", {3, &Exec::opMeshNew}},
            {"mread", {4, &Exec::opMeshRead}},    {"mquery", {2, &Exec::opMeshQuery}},
            {"mneigh", {4, &Exec::opNeigh}},      {"pgen", {8, &Exec::opPointGen}},
            {"apply", {6, &Exec::opApply}},       {"cfgtol", {3, &Exec::opCfgTol}},
            {"cfgset", {3, &Exec::opCfgSet}},
            {"cfgcirc", {4, &Exec::opCfgCirc}},   {"cfgarc", {6, &Exec::opCfgArc}},   {"file", {3, &Exec::opFile}},
            {"lnew", {3, &Exec::opListNew}},      {"lcopy", {3, &Exec::opListCopy}},
            {"ldo", {4, &Exec::opListDo}},        {"lmany", {3, &Exec::opListMany}},
            {"lfrom", {3, &Exec::opListFrom}},    {"lswap", {3, &Exec::opListSwap}},
            {"lquery", {3, &Exec::opListQuery}},  {"snew", {2, &Exec::opMapsNew}},
            {"scopy", {3, &Exec::opMapsCopy}},    {"sins", {7, &Exec::opSegIn}},
            {"pins", {5, &Exec::opPointIn}},      {"squery", {3, &Exec::opMapsQuery}},
            {"sprt", {3, &Exec::opMapsPrint}},    {"pprt", {3, &Exec::opMapsPrint}},
            {"text", {5, &Exec::opText}},         {"geom", {4, &Exec::opGeometry}},
        };
        auto it = table.find(t[0]);
        if (t[0] == "cfgget" || t[0] == "cfgfinal")
            opCfgGet(t[0] == "cfgfinal");
        else if (it == table.end() || t.size() < it->second.first)
            fprintf(stderr, "unknown operation: %s\n", o.text.c_str());
        else
            (this->*it->second.second)();
        if (recs) recs->push_back(rec);
        if (!wild) R.digest = rt::mix(R.digest, rec.digest + (uint64_t)rec.status);
        rt::note(wild ? 0 : rec.digest);
        if (refs && !wild && refIdx < refs->size()) {
            const Rec &r = (*refs)[refIdx];
            if (r.status != rec.status)
                check("REF", fmt("outcome %.0f, alone and undisturbed it is %.0f (0 returned, 1 threw, 2 not applicable)", rec.status, r.status));
            else
                check("REF", r.digest == rec.digest, "the result differs from the one the same calls give alone and undisturbed");
        }
        refIdx++;
    }
    void all(const Ops &ops) {
        for (size_t i = 0; i < ops.size(); i++) one(ops[i], i);
    }
};

Ctx main_[8], prelude_[8];

void body(int c, void *) {
    const Phase &ph = *J->phase;
    int who = J->refCaller >= 0 ? J->refCaller : c;
    Exec e;
    e.me = who;
    const std::vector<Rec> *refs = J->refCaller < 0 && (size_t)who < J->refs.size() ? &J->refs[who] : nullptr;
    if (J->refCaller < 0 && (size_t)who < ph.prelude.size()) {
        e.ctx = &prelude_[who];
        e.stage = ST_PRELUDE;
        e.all(ph.prelude[who]);
    }
    e.ctx = &main_[who];
    e.stage = ST_NOW;
    if (J->refCaller >= 0) {
        e.recs = &R.recs;
    } else {
        e.refs = refs;
        e.refIdx = ph.setup.size();
    }
    e.all(ph.callers[who]);
    if (J->refCaller >= 0 && (size_t)who < ph.prelude.size()) {  // only to count what they do, for aiming faults
        e.ctx = &prelude_[who];
        e.stage = ST_PRELUDE;
        e.recs = &R.preludeRecs;
        e.all(ph.prelude[who]);
    }
}
void setupBody(int, void *) {
    Exec e;
    e.ctx = &shared_;
    e.stage = ST_SETUP;
    if (J->refCaller >= 0)
        e.recs = &R.recs;
    else if (!J->refs.empty())
        e.refs = &J->refs[0];
    e.all(J->phase->setup);
}
void postBody(int, void *) {
    Exec e;
    e.stage = ST_POST;
    e.ctx = &main_[0];
    e.all(J->phase->post);
    // everything handed out to anybody is still what it was
    e.t = {"end"};
    e.untouched(nullptr, nullptr, false);
    for (size_t i = 1; i < J->phase->callers.size(); i++) {
        e.ctx = &main_[i];
        e.untouched(nullptr, nullptr, false);
    }
}

}  // namespace

void execJob(const Job &j) {
    J = &j;
    cfgAllowed.assign(4, {});
    for (size_t f = 0; f < 4 && f < j.cfgDefaults.size(); f++) cfgAllowed[f].push_back(j.cfgDefaults[f]);
    rt::init(j.env, j.sched);
    rt::disk() = j.disk;
    if (!j.phase) {  // only asks for the defaults
        rt::runCallers(1, [](int, void *) {
            const void *i;
            lib::configGet(nullptr, R.cfg, i);
        }, nullptr);
        reportDone(R);
    }
    if (!j.phase->setup.empty()) rt::runCallers(1, setupBody, nullptr);
    if (j.refCaller >= 0) {
        rt::runCallers(1, body, nullptr);
    } else {
        rt::runCallers((int)j.phase->callers.size(), body, nullptr);
        rt::runCallers(1, postBody, nullptr);
    }
    reportDone(R);
}
Report &currentReport() { return R; }

// Seeds become plans: the workload, the faults, the schedule and the environment of every property's runs.
#include <cerrno>
#include <cstring>
#include <map>
#include <sstream>

#include "files.h"
#include "plan.h"

using namespace geo;
using namespace rt;

namespace {

struct RG {  // what the generator remembers about a region
    Poly outer;
    int kind = 0;
    double s = 1;
    std::vector<Poly> holes;
    bool cut = false, hasSeeds = false, randomSeeds = false;
    Domain dom() const { return Domain{outer, holes}; }
};

const char *UNICORN = "2,0;3,.5;3.5,2;4,4;6,4;8.5,4;9,2;9.5,.5;10,0;10.5,.5;11.2,2.5;11.5,4.5;11.8,8.75;11.8,11.5;13.5,11;14.5,11.2;15,12;"
                      "15,13;15,14.5;14,16.5;15,19.5;15.2,20;14.5,19.7;11.8,18.2;10.5,18.3;10,18;8,16;7.3,15.3;7,13.8;6.7,11.5;3.3,11.3;"
                      "1,10.5;.4,8.8;.3,6.8;.4,4;.8,2.1;1.3,.4";


RG makeOutline(Rng &g, bool generic = false) {
    RG r;
    int kind = generic ? 4 + (int)g.below(2) : (int)g.below(9);
    double s = std::pow(10.0, g.in(1.3, 3));
    Poly o;
    if (kind == 0) o = {{0, 0}, {1, 0}, {1, 1}, {0, 1}};
    if (kind == 1) o = {{.5, 0}, {1, 0}, {1, 1}, {0, 1}, {0, .5}, {.5, .5}};
    if (kind == 2) o = {{0, 0}, {1, 0}, {1.5, 1}, {.5, 1}};
    if (kind == 3)
        for (auto &p : ptsParse(UNICORN)) o.push_back({p.x / 20, p.y / 20});
    if (kind == 4 || kind == 5) {
        int n = 5 + (int)g.below(8);
        double rot = g.in(0, 7);
        for (int i = 0; i < n; i++) {
            double a = rot + 2 * M_PI * i / n, q = kind == 4 ? g.in(.5, 1) : 1;
            o.push_back({1 + q * cos(a), 1 + q * sin(a)});
        }
    }
    if (kind == 6) {
        double a = g.in(.2, .4), b = g.in(.6, .8), c = g.in(.2, .5), l = g.in(.7, 1), q = g.in(.7, 1);
        o = {{0, 0}, {1, 0}, {1, l}, {b, l}, {b, c}, {a, c}, {a, q}, {0, q}};
    }
    if (kind == 7) {  // stairs and battlements
        int n = 3 + (int)g.below(6), h = 0, last = 0;
        o = {{0, 0}, {1, 0}};
        for (int i = n; i > 0; i--) {
            do h = 2 + (int)g.below(7);
            while (h == last);
            o.push_back({(double)i / n, h / 8.0});
            o.push_back({(i - 1.0) / n, h / 8.0});
            last = h;
        }
    }
    if (kind == 8) {  // many corners
        int n = g.chance(0.12) ? 40 + (int)g.below(90) : 13 + (int)g.below(20);
        double rot = g.in(0, 7), low = g.chance(0.5) ? 1 : g.in(.7, 1);
        for (int i = 0; i < n; i++) {
            double a = rot + 2 * M_PI * i / n, q = g.in(low, 1);
            o.push_back({1 + q * cos(a), 1 + q * sin(a)});
        }
    }
    double ox = g.in(-1, 1) * s, oy = g.in(-1, 1) * s;
    if (g.chance(0.5)) ox = oy = 0;
    if (g.chance(0.05)) {  // far from the origin
        ox = g.in(-60, 60) * s;
        oy = g.in(-60, 60) * s;
    }
    if (kind < 3) {
        s = std::floor(s) + 1;
        ox = std::floor(ox);
        oy = std::floor(oy);
    }
    for (auto &p : o) {
        p.x = p.x * s + ox;
        p.y = p.y * s + oy;
    }
    if (!generic && g.chance(0.12)) {  // a corner that is almost or exactly flat
        size_t e = g.below(o.size());
        P a = o[e], b = o[(e + 1) % o.size()];
        double f = g.chance(0.4) ? .5 : g.in(.2, .8), d = g.chance(0.3) ? 0 : (g.chance(0.5) ? 1 : -1) * std::pow(10.0, g.in(-4.2, -1.5)) * s, l = dist(a, b);
        P q{a.x + f * (b.x - a.x) - d * (b.y - a.y) / l, a.y + f * (b.y - a.y) + d * (b.x - a.x) / l};
        bool flat = d == 0 && (a.x == b.x || a.y == b.y);
        Poly with = o;
        with.insert(with.begin() + e + 1, q);
        bool ok = l > .05 * s && (d != 0 || flat) && simple(with);
        for (size_t k = 0; ok && k < o.size(); k++)
            if (k != e) ok = segsDist(q, q, o[k], o[(k + 1) % o.size()]) > .01 * s;
        if (ok) {
            o = with;
            kind = kind < 3 ? 1 : 6;
        }
    }
    if (g.chance(0.12)) std::reverse(o.begin(), o.end());
    r.outer = o;
    r.kind = kind;
    r.s = s;
    return r;
}
Poly circlePoly(P c, double r, int n = 12, double rot = 0) {
    Poly p;
    for (int i = 0; i < n; i++) p.push_back({c.x + r * cos(rot + 2 * M_PI * i / n), c.y + r * sin(rot + 2 * M_PI * i / n)});
    return p;
}
bool clearOf(P c, double rad, const RG &r) {
    for (auto &h : r.holes)
        if (inside(c, h) || distBoundary(c, h) < rad + .03 * r.s) return false;
    return true;
}
bool insideHole(Rng &g, const RG &r, P &c, double &rad) {
    P lo, hi;
    bbox(r.outer, lo, hi);
    for (int t = 0; t < 40; t++) {
        c = {g.in(lo.x, hi.x), g.in(lo.y, hi.y)};
        rad = g.in(.03, .25) * r.s;
        if (inside(c, r.outer) && distBoundary(c, r.outer) > rad + .03 * r.s && clearOf(c, rad, r)) return true;
    }
    return false;
}
bool cutHole(Rng &g, const RG &r, P &c, double &rad) {
    if (r.cut || (r.kind != 4 && r.kind != 5 && r.kind != 2)) return false;
    const Poly &o = r.outer;
    for (int t = 0; t < 8; t++) {
        size_t e = g.below(o.size());
        P a = o[e], b = o[(e + 1) % o.size()];
        c = {(a.x + b.x) / 2, (a.y + b.y) / 2};
        rad = .2 * dist(a, b);
        bool ok = true;
        for (size_t k = 0; k < o.size(); k++)
            if (k != e && segsDist(c, c, o[k], o[(k + 1) % o.size()]) < rad * 1.2) ok = false;
        for (auto &h : r.holes)
            if (distBoundary(c, h) < rad + .03 * r.s || inside(c, h)) ok = false;
        if (ok) return true;
    }
    return false;
}
std::vector<P> makeSeeds(Rng &g, const RG &r, int n) {
    std::vector<P> out;
    P lo, hi;
    bbox(r.outer, lo, hi);
    Domain d = r.dom();
    int style = r.cut ? 0 : (int)g.below(8);  // 0-3 random, 4-5 grid, 6 close together, 7 along a line or a ring
    P c{g.in(lo.x, hi.x), g.in(lo.y, hi.y)};
    double a = g.in(0, 7);
    for (int i = 0; i < n; i++) {
        P p{g.in(lo.x, hi.x), g.in(lo.y, hi.y)};
        bool grid = style == 4 || style == 5;
        if (grid) {
            p.x = lo.x + (hi.x - lo.x) * (double)g.below(9) / 8.0;
            p.y = lo.y + (hi.y - lo.y) * (double)g.below(9) / 8.0;
        }
        if (style == 6) p = {c.x + g.in(-.03, .03) * r.s, c.y + g.in(-.03, .03) * r.s};
        if (style == 7) {
            double q = g.in(-1, 1) * r.s;
            p = {c.x + q * cos(a) + g.in(-.002, .002) * r.s, c.y + q * sin(a) + g.in(-.002, .002) * r.s};
        }
        double b = distDomainBoundary(p, d);
        if (grid) {
            if (b < 1e-2 * r.s && !(r.kind == 0 && r.holes.empty())) continue;
        } else if (b < 1e-3 * r.s) {
            continue;
        }
        bool dup = false;
        for (auto &x : out)
            if (dist(x, p) < 1e-3 * r.s) dup = true;
        if (dup || (!insideDomain(p, d) && b > 1e-9)) continue;
        out.push_back(p);
    }
    if (!out.empty() && g.chance(0.1)) out.push_back(out[g.below(out.size())]);  // given twice
    return out;
}

// ------------------------------------------------------------------ files

struct FileMesh {
    MeshData m;
    bool tri;
};
FileMesh makeMesh(Rng &g) {
    FileMesh f;
    f.tri = g.chance(0.4);
    bool vast = g.chance(0.006);
    int nx = 1 + (int)g.below(vast ? 32 : 5), ny = 1 + (int)g.below(vast ? 32 : 5);
    double s = std::pow(10.0, g.in(0, 3));
    for (int j = 0; j <= ny; j++)
        for (int i = 0; i <= nx; i++) {
            P p{i * s, j * s};
            if (g.chance(0.7)) {
                p.x += g.in(-.2, .2) * s;
                p.y += g.in(-.2, .2) * s;
            }
            f.m.pts.push_back(p);
        }
    auto id = [&](int i, int j) { return j * (nx + 1) + i; };
    for (int j = 0; j < ny; j++)
        for (int i = 0; i < nx; i++) {
            std::vector<int> q = {id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)};
            if (f.tri || g.chance(0.3)) {
                f.m.cells.push_back({q[0], q[1], q[2]});
                f.m.cells.push_back({q[0], q[2], q[3]});
            } else {
                f.m.cells.push_back(q);
            }
        }
    if (!f.tri && g.chance(0.15)) {  // one cell with many sides and its neighbours
        int n = 3 + (int)g.below(14);
        f.m.pts.clear();
        f.m.cells.assign(1, {});
        for (int k = 1; k < 3; k++)
            for (int i = 0; i < n; i++) f.m.pts.push_back({k * s * cos(2 * M_PI * i / n), k * s * sin(2 * M_PI * i / n)});
        for (int i = 0; i < n; i++) {
            f.m.cells[0].push_back(i);
            f.m.cells.push_back({i, n + i, n + (i + 1) % n, (i + 1) % n});
        }
    }
    auto corner = [&](int &c, int &k) {
        c = (int)g.below(f.m.cells.size());
        k = (int)g.below(f.m.cells[c].size());
    };
    int c, k;
    if (g.chance(0.15))  // some nodes are there twice
        for (int i = 1 + (int)g.below(3); i > 0; i--) {
            corner(c, k);
            f.m.pts.push_back(f.m.pts[f.m.cells[c][k]]);
            f.m.cells[c][k] = (int)f.m.pts.size() - 1;
        }
    if (g.chance(0.05)) f.m.pts.push_back({-s, -s});  // or are not used
    if (g.chance(0.3)) {  // in any order
        std::vector<int> to;
        for (size_t i = 0; i < f.m.pts.size(); i++) to.push_back((int)i);
        for (size_t i = to.size() - 1; i > 0; i--) std::swap(to[i], to[g.below(i + 1)]);
        std::vector<P> p(to.size());
        for (size_t i = 0; i < to.size(); i++) p[to[i]] = f.m.pts[i];
        f.m.pts = p;
        for (auto &x : f.m.cells)
            for (int &i : x) i = to[i];
    }
    return f;
}
std::string otherBreaks(Rng &g, const std::string &s) {  // as written on another system, or with blanks at the end of lines
    double u = g.unit();
    const char *brk = u < .05 ? "\r\n" : u < .08 ? " \n" : u < .1 ? "\t \n" : "\n";
    std::string r;
    for (char c : s) c == '\n' ? r += brk : r += c;
    return r;
}
// other ways to write the same number
std::string styled(int style, std::string s) {
    size_t sign = s[0] == '-';
    if (style == 1) s.insert(sign, "00");
    if (style == 2 && s.find('.') != std::string::npos && s.find('e') == std::string::npos) {
        while (s.back() == '0') s.pop_back();
        if (s.back() == '.') s.pop_back();
    }
    if (style == 3 && s[sign] == '0' && s.size() > sign + 2 && s[sign + 1] == '.') s.erase(sign, 1);
    if (style == 4)
        for (char &c : s) c = c == 'e' ? 'E' : c;
    return s;
}
std::string meshText(Rng &g, const FileMesh &f, int start, bool edges) {
    std::ostringstream o;
    int prec = 3 + (int)g.below(14);
    const char *sep = g.chance(0.8) ? " " : g.chance(0.5) ? "\t" : "  ";
    int style = g.chance(0.8) ? 0 : (int)g.below(5);
    auto d = [&](double v) {
        char b[64];
        if (g.chance(0.9))
            snprintf(b, sizeof b, "%.*f", prec, v);
        else
            snprintf(b, sizeof b, "%.*e", prec, v);
        return styled(style, b);
    };
    auto n = [&](int v) { return styled(style == 1 ? 1 : 0, std::to_string(v)); };
    o << f.m.pts.size() << "\n";
    for (auto &p : f.m.pts) {
        std::string x = d(p.x), y = d(p.y);
        o << x << sep << y << "\n";
    }
    if (edges) {
        std::set<uint64_t> e;
        for (auto &c : f.m.cells)
            for (size_t i = 0; i < c.size(); i++) e.insert(ukey(c[i], c[(i + 1) % c.size()]));
        o << e.size() << "\n";
        for (auto k : e) o << n((int)(k >> 32) + start) << sep << n((int)(uint32_t)k + start) << "\n";
    }
    o << f.m.cells.size() << "\n";
    for (auto &c : f.m.cells) {
        o << c.size();
        for (int i : c) o << sep << n(i + start);
        o << "\n";
    }
    std::string s = o.str();
    if (g.chance(0.15)) s.pop_back();  // no newline at the end
    return otherBreaks(g, s);
}
std::string seedText(Rng &g, const std::vector<P> &p) {
    std::ostringstream o;
    int prec = 4 + (int)g.below(14);
    const char *sep = g.chance(0.8) ? " " : "\t";
    int style = g.chance(0.8) ? 0 : (int)g.below(5);
    o << styled(style == 1 ? 1 : 0, std::to_string(p.size())) << "\n";
    for (auto &q : p) {
        char b[100], a[100];
        const char *f = g.chance(0.9) ? "%.*f" : "%.*e";
        snprintf(a, sizeof a, f, prec, q.x);
        snprintf(b, sizeof b, f, prec, q.y);
        o << styled(style, a) << sep << styled(style, b) << "\n";
    }
    std::string s = o.str();
    if (g.chance(0.15)) s.pop_back();
    return otherBreaks(g, s);
}
std::string damaged(Rng &g, std::string s) {
    if (s.empty()) return s;
    std::vector<std::string> l;
    std::stringstream in(s);
    std::string x;
    while (std::getline(in, x)) l.push_back(x);
    auto join = [&] {
        std::string r;
        for (auto &q : l) r += q + "\n";
        return r;
    };
    size_t i = l.empty() ? 0 : g.below(l.size());
    switch (g.below(10)) {
        case 0: return s.substr(0, g.below(s.size()));
        case 1: s[g.below(s.size())] ^= (char)(1 << g.below(7)); return s;
        case 2: l.erase(l.begin() + i); return join();
        case 3: l[i] = ""; return join();
        case 4: {  // a token goes missing
            size_t k = l[i].find_last_of(" \t");
            l[i] = k == std::string::npos ? "" : l[i].substr(0, k);
            return join();
        }
        case 5: {  // a token is no number
            static const char *bad[] = {"abc", "1.2.3", "-", "1e", "0x", "--1", "nan1", "1,5", "."};
            size_t k = l[i].find_last_of(" \t");
            l[i] = (k == std::string::npos ? "" : l[i].substr(0, k + 1)) + bad[g.below(9)];
            return join();
        }
        case 6: {  // counts and indexes that do not fit
            size_t k = l[i].find_last_of(" \t");
            static const char *bad[] = {"99999", "-1", "-7", "2147483648", "4000000000", "1000"};
            l[i] = (k == std::string::npos ? "" : l[i].substr(0, k + 1)) + bad[g.below(6)];
            return join();
        }
        case 7: l.resize(i); return join();
        case 8: s.replace(g.below(s.size()), 1, std::string(1 + g.below(600), '\0')); return s;
        default: return "";
    }
}

// ------------------------------------------------------------------ operations

struct World {
    Rng &g;
    int c;               // caller
    bool mesh3 = false;
    std::map<int, RG> regs;
    std::map<int, bool> meshes;    // slot -> triangles
    std::map<int, int> vgenOf;     // mesh -> generator it lives in
    std::map<int, std::vector<P>> gens;
    std::map<int, RG> genReg;
    std::vector<std::string> written;
    std::map<std::string, int> filesWritten;  // 0 mesh, 1 region ...
    int nextReg = 0, nextMesh = 0, nextGen = 0, nextFile = 0;
    std::map<std::string, double> w;
    Ops ops;
    double big = 1;
    int textKind = -1;  // mostly this kind of text, if any
    bool huge = false, lonely = false;
    bool poly = true;

    World(Rng &g, int c) : g(g), c(c) {}
    void weights(const std::string &s) {
        w.clear();
        std::istringstream in(s);
        std::string x;
        while (in >> x) {
            size_t k = x.find(':');
            w[x.substr(0, k)] = atof(x.c_str() + k + 1);
        }
    }
    void add(const std::string &s) { ops.push_back(Op{s, {}}); }
    std::string file(const char *k) {
        char b[40];
        snprintf(b, sizeof b, "c%d_%s%d.txt", c, k, nextFile++);
        return b;
    }
    // where an export goes: a new file, one it wrote before, or one that holds something else
    std::string target(const char *k) {
        if (!written.empty() && g.chance(0.3)) return written[g.below(written.size())];
        std::string f = file(k);
        written.push_back(f);
        if (g.chance(0.25)) older(f);
        return f;
    }
    void older(const std::string &f) {
        std::string junk;
        int lines = 1 + (int)g.below(g.chance(0.5) ? 10 : 400);
        for (int i = 0; i < lines; i++) {
            for (int k = 0; k < 4; k++) junk += std::to_string(g.below(1000)) + (g.chance(0.5) ? " " : ".5 ");
            junk += "\n";
        }
        add("file " + f + " " + hexText(junk));
    }
    int nSeeds() {
        double u = g.unit();
        if (huge && g.chance(0.1)) return (int)(300 * std::pow(10.0, g.unit()));
        if (huge) return 60 + (int)g.below(240);
        int n = u < .08 ? (int)g.below(3) : u < .8 ? 3 + (int)g.below(18) : 20 + (int)g.below(40);
        return std::max(0, (int)(n * big));
    }
    template <class M>
    int pick(const M &m) {
        if (m.empty()) return -1;
        auto it = m.begin();
        std::advance(it, g.below(m.size()));
        return it->first;
    }
    int newRegion(int slot = -1, bool generic = false) {
        int id = slot >= 0 ? slot : nextReg++;
        RG r = makeOutline(g, generic);
        regs[id] = r;
        add("region " + std::to_string(id) + " " + ptsText(r.outer));
        return id;
    }
    int anyReg() {
        if (regs.empty() || (regs.size() < 4 && g.chance(0.15))) return newRegion();
        return pick(regs);
    }
    Poly concave(P c, double rad) {  // within that circle; its centroid need not be inside of it
        Poly p;
        int kind = (int)g.below(5);
        double t = g.in(.25, .6), rot = g.chance(0.5) ? 0 : g.in(0, 7);
        if (kind == 0) {  // a part of a ring
            int n = 3 + (int)g.below(8);
            double a = g.in(1, 5.5);
            for (int i = 0; i <= n; i++) p.push_back({cos(a * i / n), sin(a * i / n)});
            for (int i = n; i >= 0; i--) p.push_back({(1 - t) * cos(a * i / n), (1 - t) * sin(a * i / n)});
        } else if (kind == 1) {  // L
            p = {{-.7, -.7}, {.7, -.7}, {.7, -.7 + t}, {-.7 + t, -.7 + t}, {-.7 + t, .7}, {-.7, .7}};
        } else if (kind == 2) {  // U
            t *= .8;
            p = {{-.7, -.7}, {.7, -.7}, {.7, .7}, {.7 - t, .7}, {.7 - t, -.7 + t}, {-.7 + t, -.7 + t}, {-.7 + t, .7}, {-.7, .7}};
        } else if (kind == 3) {  // a dart
            p = {{0, .2 - t}, {.7, -.7}, {0, .8}, {-.7, -.7}};
            std::rotate(p.begin(), p.begin() + g.below(4), p.end());
        } else {  // a star
            int n = 4 + (int)g.below(6);
            for (int i = 0; i < 2 * n; i++) {
                double q = i % 2 ? g.in(.3, .6) : g.in(.7, 1);
                p.push_back({q * cos(M_PI * i / n), q * sin(M_PI * i / n)});
            }
        }
        for (auto &x : p) x = {c.x + rad * (x.x * cos(rot) - x.y * sin(rot)), c.y + rad * (x.x * sin(rot) + x.y * cos(rot))};
        return p;
    }
    void hole(int id) {
        RG &r = regs[id];
        P c;
        double rad;
        if (!insideHole(g, r, c, rad)) return;
        std::string k = std::to_string(id);
        if (!poly || g.chance(0.6)) {
            add("circ " + k + " " + num(c.x) + " " + num(c.y) + " " + num(rad));
            r.holes.push_back(circlePoly(c, rad));
        } else {
            int n = g.chance(0.3) ? 4 : 3 + (int)g.below(9);
            Poly p = circlePoly(c, rad, n, g.in(0, 7));
            if (g.chance(0.3)) p = {{c.x - rad / 2, c.y - rad / 2}, {c.x + rad / 2, c.y - rad / 2}, {c.x + rad / 2, c.y + rad / 2}, {c.x - rad / 2, c.y + rad / 2}};
            if (g.chance(0.35)) p = concave(c, rad);
            if (g.chance(0.4)) std::reverse(p.begin(), p.end());
            add("phole " + k + " " + ptsText(p));
            r.holes.push_back(p);
        }
    }
    void cut(int id) {
        RG &r = regs[id];
        P c;
        double rad;
        if (!cutHole(g, r, c, rad)) return;
        add("circ " + std::to_string(id) + " " + num(c.x) + " " + num(c.y) + " " + num(rad));
        Poly o;  // roughly what is left
        r.cut = true;
        for (auto &p : r.outer) o.push_back(p);
        r.holes.push_back(circlePoly(c, rad * 1.1));  // seeds keep off it
    }
    void bar(int id) {
        RG &r = regs[id];
        P lo, hi;
        bbox(r.outer, lo, hi);
        std::string k = std::to_string(id);
        if (g.chance(0.1)) {  // over everything
            add("circ " + k + " " + num((lo.x + hi.x) / 2) + " " + num((lo.y + hi.y) / 2) + " " + num(g.in(1, 3) * (hi.x - lo.x + hi.y - lo.y)));
            return;
        }
        double a = g.chance(0.5) ? 0 : g.in(0, M_PI), thick = g.in(.02, .15) * r.s;
        bool across = g.chance(0.6);
        double len = across ? 2 * (hi.x - lo.x + hi.y - lo.y) : g.in(.2, .8) * r.s, shift = across ? g.in(-1, 1) * r.s : 0;
        P c{g.in(lo.x, hi.x), g.in(lo.y, hi.y)};
        if (across && g.chance(0.5)) c = {lo.x - g.in(.1, .5) * r.s, c.y};  // its middle lies outside
        c = {c.x + shift * cos(a), c.y + shift * sin(a)};
        double ux = cos(a) * len / 2, uy = sin(a) * len / 2, vx = -sin(a) * thick, vy = cos(a) * thick;
        Poly p = {{c.x - ux - vx, c.y - uy - vy}, {c.x + ux - vx, c.y + uy - vy}, {c.x + ux + vx, c.y + uy + vy}, {c.x - ux + vx, c.y - uy + vy}};
        if (g.chance(0.3)) std::reverse(p.begin(), p.end());
        add("phole " + k + " " + ptsText(p));
        if (!across) {
            r.cut = true;
            r.holes.push_back(p);  // seeds keep off it
        }
    }
    void outside(int id) {
        RG &r = regs[id];
        P lo, hi;
        bbox(r.outer, lo, hi);
        double rad = g.in(.03, .2) * r.s;
        P c{hi.x + rad * 1.5 + g.in(0, .2) * r.s, g.in(lo.y, hi.y)};
        add("circ " + std::to_string(id) + " " + num(c.x) + " " + num(c.y) + " " + num(rad));
    }
    std::string seedsFor(const RG &r) { return ptsText(makeSeeds(g, r, nSeeds())); }
    std::vector<P> meshSeeds(const RG &r) {  // for a generator, which takes any seeds
        std::vector<P> s = makeSeeds(g, r, nSeeds());
        if (!g.chance(0.25)) return s;
        P lo, hi;
        bbox(r.outer, lo, hi);
        int extra = 1 + (int)g.below(8);
        for (int i = 0; i < extra; i++) {
            P p{g.in(lo.x - .4 * r.s, hi.x + .4 * r.s), g.in(lo.y - .4 * r.s, hi.y + .4 * r.s)};
            if (!r.holes.empty() && g.chance(0.4)) {
                p = {0, 0};
                const Poly &h = r.holes[g.below(r.holes.size())];
                for (auto &q : h) p.x += q.x / h.size(), p.y += q.y / h.size();
            }
            bool ok = distDomainBoundary(p, r.dom()) > 2e-3 * r.s;
            for (auto &q : s) ok = ok && dist(p, q) > 2e-3 * r.s;
            if (ok) s.insert(s.begin() + g.below(s.size() + 1), p);
        }
        return s;
    }
    // seeds that are not all inside
    std::string anySeeds(const RG &r) {
        std::vector<P> s = makeSeeds(g, r, nSeeds());
        P lo, hi;
        bbox(r.outer, lo, hi);
        int extra = (int)g.below(6);
        for (int i = 0; i < extra; i++)
            s.insert(s.begin() + g.below(s.size() + 1), P{g.in(lo.x - .3 * r.s, hi.x + .3 * r.s), g.in(lo.y - .3 * r.s, hi.y + .3 * r.s)});
        for (auto &h : r.holes)
            if (g.chance(0.5)) {
                P c{0, 0};
                for (auto &p : h) c.x += p.x / h.size(), c.y += p.y / h.size();
                s.insert(s.begin() + g.below(s.size() + 1), c);
            }
        if (g.chance(0.1)) s.insert(s.end(), r.outer.begin(), r.outer.end());
        if (g.chance(0.2))  // level with a corner
            for (int i = 1 + (int)g.below(4); i > 0; i--) {
                const Poly &q = r.holes.empty() || g.chance(0.5) ? r.outer : r.holes[g.below(r.holes.size())];
                s.insert(s.begin() + g.below(s.size() + 1), P{g.in(lo.x - .1 * r.s, hi.x + .1 * r.s), q[g.below(q.size())].y});
            }
        if (g.chance(0.15)) {  // exactly on the edges of the outline or of a hole
            const Poly &q = r.holes.empty() || g.chance(0.3) ? r.outer : r.holes[g.below(r.holes.size())];
            for (size_t i = 0; i < q.size(); i++) {
                P a = q[i], b = q[(i + 1) % q.size()];
                if (g.chance(0.3)) s.insert(s.begin() + g.below(s.size() + 1), a);
                double u = g.in(.1, .9);
                if (a.x == b.x) s.insert(s.begin() + g.below(s.size() + 1), P{a.x, a.y + u * (b.y - a.y)});
                if (a.y == b.y) s.insert(s.begin() + g.below(s.size() + 1), P{a.x + u * (b.x - a.x), a.y});
            }
        }
        return ptsText(s);
    }
    std::string functorText(const RG *r, bool random, bool user, int axis) {
        P lo{0, 0}, hi{10, 10};
        if (r) bbox(r->outer, lo, hi);
        double a = axis == 0 ? lo.x : lo.y, b = axis == 0 ? hi.x : hi.y, wd = b - a;
        if (user && g.chance(0.5)) return "user:" + num(g.in(-.1, .1) * wd);
        if (random) {
            switch (g.below(4)) {
                case 0: return "rdbl:" + num(a - .05 * wd) + ":" + num(b + .05 * wd);
                case 1: return "rint:" + num(std::floor(a)) + ":" + num(std::floor(a) + (double)(g.chance(0.4) ? g.below(5) : (uint64_t)wd));
                case 2: return "rdn:" + num(g.in(0, .02) * wd) + ":" + num(g.in(.02, .1) * wd) + "/" + plain(wd);
                default: {
                    int from = (int)g.below(4), more = (int)g.below(6);
                    return "rin:" + num(from) + ":" + num(from + more) + "/" + plain(wd);
                }
            }
        }
        return plain(wd);
    }
    std::string plain(double wd) {
        switch (g.below(6)) {
            case 0: return "const";
            case 1: return "disp:" + num(g.in(-.1, .1) * wd);
            case 2: return "alt";
            case 3: return "uni:" + num(g.in(.5, 1.5));
            case 4: return "sin:" + num(g.in(0, .3) * wd) + ":" + num(g.in(.1, 3)) + ":" + num(g.in(0, 180));
            default: return "cos:" + num(g.in(0, .3) * wd) + ":" + num(g.in(.1, 3)) + ":" + num(g.in(0, 180));
        }
    }
    // for x and for y; often of one kind, where state that is shared by all rules of a kind shows
    std::string functorTexts(const RG *r, bool randomX, bool random, bool userX, bool userY) {
        std::string x = functorText(r, randomX, userX, 0), y = functorText(r, random, userY, 1);
        if (g.chance(0.3))
            for (int i = 0; i < 60 && x.substr(0, x.find_first_of(":/")) != y.substr(0, y.find_first_of(":/")); i++)
                y = functorText(r, random, false, 1);
        return x + " " + y;
    }
    void gridSize(int &nX, int &nY) {  // now and then long in one direction
        if (!g.chance(0.07)) return;
        nX = 12 + (int)g.below(60);
        nY = 1 + (int)g.below((uint64_t)(1 + 360 / nX));
        if (g.chance(0.5)) std::swap(nX, nY);
    }
    void rgen(int id, bool random, bool user) {
        RG &r = regs[id];
        int which = g.chance(0.3) ? 0 : (int)g.below(3);
        int nX = 1 + (int)g.below(7), nY = 1 + (int)g.below(7);
        if (big == 1) gridSize(nX, nY);
        add("rgen " + std::to_string(id) + " " + functorTexts(&r, random && g.chance(0.8), random, user, user) + " " +
            std::to_string(which) + " " + std::to_string(nX) + " " + std::to_string(nY));
        r.hasSeeds = true;
    }
    void restricted(int G) {
        std::vector<P> &s = gens[G];
        RG &r = genReg[G];
        std::vector<P> segs;
        int want = 1 + (int)g.below(5);
        std::vector<P> corners = r.outer, all = s;
        for (auto &h : r.holes) corners.insert(corners.end(), h.begin(), h.end());
        if (r.cut) corners.clear();
        all.insert(all.end(), corners.begin(), corners.end());
        double pc = g.chance(0.5) ? 0 : g.in(.2, .9);
        auto end = [&] { return !corners.empty() && (s.empty() || g.chance(pc)) ? corners[g.below(corners.size())] : s[g.below(s.size())]; };
        for (int t = 0; t < 40 && (int)segs.size() < 2 * want && !all.empty() && (!s.empty() || !corners.empty()); t++) {
            P a = end(), b = end();
            if (!segmentOk(a, b, r.dom(), all, 1.5e-3 * r.s)) continue;
            bool ok = true;
            for (size_t k = 0; k < segs.size(); k += 2) ok = ok && segmentsApart(a, b, segs[k], segs[k + 1], 1.5e-3 * r.s);
            if (!ok) continue;
            segs.push_back(a);
            segs.push_back(b);
        }
        int M = nextMesh++;
        meshes[M] = true;
        add("restr " + std::to_string(G) + " " + std::to_string(M) + " " + ptsText(segs));
    }
    int anyGen() {
        if (!gens.empty() && g.chance(0.75)) return pick(gens);
        int id = anyReg();
        int G = nextGen++;
        gens[G] = meshSeeds(regs[id]);
        genReg[G] = regs[id];
        add("tgen " + std::to_string(id) + " " + std::to_string(G) + " " + ptsText(gens[G]));
        return G;
    }
    int anyMesh() { return pick(meshes); }
    void vor(int id) {
        RG &r = regs[id];
        int V = nextMesh++, T = nextMesh++;
        bool own = g.chance(0.6);
        std::string seeds = r.hasSeeds && g.chance(0.5) ? "=" : ptsText(meshSeeds(r));
        add("vor " + std::to_string(id) + (own ? " 1 " : " 0 ") + std::to_string(V) + " " + std::to_string(T) + " " + seeds);
        meshes[V] = false;
        meshes[T] = false;
        if (!own) vgenOf[V] = vgenOf[T] = V;
    }
    int someMesh() {
        if (meshes.empty()) vor(anyReg());
        return anyMesh();
    }
    void step() {
        double sum = 0;
        for (auto &x : w) sum += x.second;
        double u = g.unit() * sum;
        std::string k;
        for (auto &x : w) {
            k = x.first;
            u -= x.second;
            if (u <= 0) break;
        }
        auto S = [](int i) { return std::to_string(i); };
        if (k == "region") {
            newRegion();
        } else if (k == "rcopy") {
            int a = anyReg(), b = nextReg++;
            regs[b] = regs[a];
            add("rcopy " + S(a) + " " + S(b));
        } else if (k == "rassign") {
            int a = anyReg(), b = pick(regs);
            if (a == b) return;
            regs[b] = regs[a];
            add("rassign " + S(a) + " " + S(b));
        } else if (k == "mutate") {
            int a = anyReg();
            RG n = makeOutline(g);
            RG old = regs[a];
            if (g.chance(0.2) && n.outer.size() > 3) {  // crosses itself
                size_t i = g.below(n.outer.size());
                std::swap(n.outer[i], n.outer[(i + 1) % n.outer.size()]);
                add("mutate " + S(a) + " " + ptsText(n.outer));
                return;
            }
            if (g.chance(0.5)) {  // the same outline, scaled about its middle: holes and seeds may stay inside
                n = old;
                if (!n.cut) {
                    P lo, hi;
                    bbox(n.outer, lo, hi);
                    double q = std::floor(g.in(1, 3));
                    for (auto &p : n.outer) p = {p.x + q * (p.x - lo.x), p.y + q * (p.y - lo.y)};
                    n.s *= 1 + q;
                    n.holes.clear();
                    n.holes = old.holes;
                }
            } else {
                n.holes = old.holes;
            }
            n.hasSeeds = old.hasSeeds;
            regs[a] = n;
            add("mutate " + S(a) + " " + ptsText(n.outer));
        } else if (k == "hole") {
            hole(anyReg());
        } else if (k == "cut") {
            int a = anyReg();
            if (regs[a].kind < 4 && g.chance(0.7)) a = newRegion(-1, true);
            cut(a);
        } else if (k == "outside") {
            outside(anyReg());
        } else if (k == "bar") {
            bar(anyReg());
        } else if (k == "cleanholes") {
            int a = anyReg();
            add("cleanholes " + S(a));
            if (!regs[a].cut) regs[a].holes.clear();
        } else if (k == "cleanseeds") {
            int a = anyReg();
            add("cleanseeds " + S(a));
            regs[a].hasSeeds = false;
        } else if (k == "seeds") {
            int a = anyReg();
            add("seeds " + S(a) + " " + (g.chance(0.5) ? seedsFor(regs[a]) : anySeeds(regs[a])));
            regs[a].hasSeeds = true;
        } else if (k == "rgen") {
            rgen(anyReg(), false, false);
        } else if (k == "rgenrandom") {
            rgen(anyReg(), true, false);
        } else if (k == "rgenuser") {
            rgen(anyReg(), false, true);
        } else if (k == "rquery") {
            int a = anyReg();
            std::string q = anySeeds(regs[a]);
            add("rquery " + S(a) + " " + q);
        } else if (k == "vor") {
            vor(anyReg());
        } else if (k == "conf" || k == "cons") {
            int G = anyGen(), M = nextMesh++;
            meshes[M] = true;
            add(k + " " + S(G) + " " + S(M));
        } else if (k == "restr") {
            restricted(anyGen());
        } else if (k == "info") {
            int G = anyGen(), V = nextMesh++, T = nextMesh++;
            meshes[V] = meshes[T] = false;
            add("info " + S(G) + " " + S(V) + " " + S(T));
        } else if (k == "gdrop") {
            if (gens.empty()) return;
            int G = pick(gens);
            gens.erase(G);
            add("gdrop " + S(G));
        } else if (k == "polytri") {
            RG r = makeOutline(g);
            int kind = (int)g.below(3);
            Poly p = g.chance(kind == 1 ? .7 : .3) ? circlePoly({0, 0}, r.s, 3 + (int)g.below(9), g.in(0, 7)) : r.outer;
            std::rotate(p.begin(), p.begin() + g.below(p.size()), p.end());
            if (g.chance(0.3)) std::reverse(p.begin(), p.end());
            std::vector<P> others;
            if (g.chance(0.4)) {
                P lo, hi;
                bbox(p, lo, hi);
                for (int i = (int)g.below(6); i >= 0; i--)
                    others.push_back({lo.x + (g.chance(0.5) ? g.in(1.1, 2) : g.in(-1, -.1)) * (hi.x - lo.x), lo.y + g.in(-1, 2) * (hi.y - lo.y)});
            }
            add("polytri " + S(kind) + " " + ptsText(p) + (others.empty() ? "" : " " + ptsText(others)));
        } else if (k == "polyask" || k == "cellask") {
            std::string asks;
            for (int i = 2 + (int)g.below(14); i > 0; i--) asks += (char)('a' + (g.chance(0.5) ? g.below(16) : g.chance(0.6) ? g.below(4) : 8 + g.below(2)));
            std::vector<P> at;
            for (int i = (int)g.below(7); i >= 0; i--)
                at.push_back(g.chance(0.2) ? P{g.in(-.2, 1.2), 2 + g.in(0, .99)} : g.chance(0.2) ? P{0, g.in(0, 1)} : g.chance(0.2) ? P{1, g.in(0, 1)} : P{g.in(-.2, 1.2), g.in(-.2, 1.2)});
            if (k == "cellask") {
                if (meshes.empty()) return;
                int M = someMesh();
                for (int i = 1 + (int)g.below(4); i > 0; i--)
                    add("cellask " + S(M) + " " + std::to_string(g.below(100000)) + " " + S((int)g.below(2)) + " " + asks + " " + ptsText(at));
                return;
            }
            RG r = makeOutline(g);
            Poly p = g.chance(.3) ? circlePoly({0, 0}, r.s, 3 + (int)g.below(9), g.in(0, 7)) : r.outer;
            std::rotate(p.begin(), p.begin() + g.below(p.size()), p.end());
            if (g.chance(0.4)) std::reverse(p.begin(), p.end());
            std::vector<P> others;
            for (int i = (int)g.below(5); i > 0; i--) others.push_back({g.in(-9, 9), g.in(-9, 9)});
            add("polyask " + ptsText(p) + " " + asks + " " + ptsText(at) + (others.empty() ? "" : " " + ptsText(others)));
        } else if (k == "celltri") {
            if (meshes.empty()) return;
            int M = someMesh();
            for (int i = 1 + (int)g.below(4); i > 0; i--) add("celltri " + S(M) + " " + S((int)g.below(3)) + " " + std::to_string(g.below(100000)));
        } else if (k == "mcopy") {
            int a = someMesh(), b = nextMesh++;
            meshes[b] = meshes[a];
            add("mcopy " + S(a) + " " + S(b));
        } else if (k == "massign") {
            int a = someMesh(), b = anyMesh();
            if (a == b || meshes[a] != meshes[b] || vgenOf.count(b)) return;
            add("massign " + S(a) + " " + S(b));
        } else if (k == "mdrop") {
            if (meshes.size() < 2) return;
            int a = anyMesh();
            if (vgenOf.count(a)) return;
            meshes.erase(a);
            add("mdrop " + S(a));
        } else if (k == "vgendrop") {
            if (vgenOf.empty()) return;
            int V = vgenOf.begin()->second;
            for (auto it = vgenOf.begin(); it != vgenOf.end();)
                if (it->second == V) {
                    meshes.erase(it->first);
                    it = vgenOf.erase(it);
                } else {
                    ++it;
                }
            add("vgendrop " + S(V));
        } else if (k == "mprint" || k == "sprint" || k == "pprint") {
            int a = someMesh();
            if (k == "pprint" && meshes[a]) return;
            std::string f = target(k.c_str());
            if (k == "mprint")
                filesWritten[f] = meshes[a];
            else
                filesWritten.erase(f);
            add(k + " " + S(a) + " " + f);
        } else if (k == "rprint") {
            int a = anyReg();
            std::string f = target("region");
            filesWritten.erase(f);
            add("rprint " + S(a) + " " + f);
        } else if (k == "tprint") {
            if (c != 0) return;
            int a = anyReg();
            if (g.chance(0.3)) older("toTriangle.poly");
            add("tprint " + S(a));
        } else if (k == "mquery") {
            add("mquery " + S(someMesh()));
        } else if (k == "mneigh") {
            add("mneigh " + S(someMesh()) + " " + S(1 + (int)g.below(40)) + " " + S((int)g.below(1000000)));
        } else if (k == "mread" || k == "mreadbad") {
            bool bad = k == "mreadbad";
            FileMesh f = makeMesh(g);
            int start = g.chance(0.15) ? (int)g.below(12) - 4 : (int)g.below(2), M;
            if (g.chance(0.4) && !filesWritten.empty()) {  // what was exported
                auto it = filesWritten.begin();
                std::advance(it, g.below(filesWritten.size()));
                M = nextMesh++;
                add("mnew " + S(M) + " " + S(it->second));
                meshes[M] = it->second;
                add("mread " + S(M) + " " + it->first + " 0");
                return;
            }
            std::string text = meshText(g, f, start, g.chance(0.5));
            if (bad) text = damaged(g, text);
            std::string n = file("mesh");
            M = -1;
            if (!meshes.empty() && g.chance(0.4)) {
                M = anyMesh();
                if (meshes[M] != f.tri || vgenOf.count(M)) M = -1;
            }
            if (M < 0) {
                M = nextMesh++;
                add("mnew " + S(M) + " " + S(f.tri));
                meshes[M] = f.tri;
            }
            if (!(bad && g.chance(0.08))) add("file " + n + " " + hexText(text));
            if (g.chance(0.05)) start += g.chance(0.5) ? 1 : -1;  // as if it counted from elsewhere
            add("mread " + S(M) + " " + n + " " + S(start));
        } else if (k == "seedfile" || k == "seedfilebad") {
            int a = anyReg();
            std::vector<P> s = ptsParse(g.chance(0.5) ? seedsFor(regs[a]) : anySeeds(regs[a]));
            if (lonely && g.chance(0.008)) {  // very many
                lonely = false;
                P lo, hi;
                bbox(regs[a].outer, lo, hi);
                for (int i = (int)(300 * std::pow(10.0, g.in(0, 1.2))); i > 0; i--) s.push_back({g.in(lo.x, hi.x), g.in(lo.y, hi.y)});
            }
            std::string text = seedText(g, s), n = file("seeds");
            bool bad = k == "seedfilebad";
            if (bad) text = damaged(g, text);
            if (!(bad && g.chance(0.08))) add("file " + n + " " + hexText(text));
            add("seedfile " + S(a) + " " + n);
            regs[a].hasSeeds = true;
        } else if (k == "pgen") {
            int which = g.chance(0.3) ? 0 : (int)g.below(3);
            double s = std::pow(10.0, g.in(0, 3));
            P lo{g.in(-1, 1) * s, g.in(-1, 1) * s}, hi{lo.x + g.in(.01, 1) * s, lo.y + g.in(.01, 1) * s};
            RG box;
            box.outer = {lo, {hi.x, lo.y}, hi, {lo.x, hi.y}};
            bool rnd = g.chance(0.6);
            int nX = (int)g.below(9), nY = (int)g.below(9);
            gridSize(nX, nY);
            add("pgen " + functorTexts(&box, rnd && g.chance(0.8), rnd, g.chance(0.1), false) + " " + S(which) + " " + S(nX) + " " +
                S(nY) + " " + ptsText({lo, hi}) + " " + S((int)g.below(4)));
        } else if (k == "apply") {
            RG box;
            double s = std::pow(10.0, g.in(0, 3));
            box.outer = {{0, 0}, {s, 0}, {s, s}, {0, s}};
            std::string f = functorText(&box, g.chance(0.8), false, 0);
            int n = 1 + (int)g.below(400);
            add("apply " + f + " " + S(n) + " " + S((int)g.below(1000000)) + " " + num(-s) + " " + num(s));
        } else if (k[0] == 'l' || k == "snew" || k == "scopy" || k == "sins" || k == "pins" || k == "squery" || k == "sprt" || k == "pprt") {
            container(k);
        } else if (k == "text") {
            int kind = textKind >= 0 && g.chance(0.8) ? textKind : (int)g.below(6);
            long a = g.chance(0.3) ? (long)g.below(10) : (long)g.below(4000000000u) - 2000000000;
            double v = g.in(-1, 1) * std::pow(10.0, g.in(-12, 12));
            if (kind == 1) a = (long)g.below(16);
            add("text " + S(kind) + " " + std::to_string(a) + " " + std::to_string((long)g.below(2000000000)) + " " + num(v));
        } else if (k == "geom") {
            int kind = textKind >= 0 && g.chance(0.8) ? textKind : (int)g.below(10);
            std::vector<P> in = makeOutline(g, true).outer;
            if (g.chance(0.5) || in.size() < 4) {  // a grid has points on one line and equal coordinates
                std::set<P> some;
                double s = g.chance(0.7) ? 1 : g.in(.01, 30);
                size_t n = 4 + g.below(g.chance(0.3) ? 40 : g.chance(0.5) ? 2 : 8);
                while (some.size() < n) some.insert({(double)g.below(7) * s, (double)g.below(7) * s});
                in.assign(some.begin(), some.end());
                for (size_t i = in.size() - 1; i > 0; i--) std::swap(in[i], in[g.below(i + 1)]);
            }
            add("geom " + S(kind) + " " + ptsText(in) + " " + S((int)g.below(1000)));
        } else if (k == "cfgset") {
            int field = c % 4;
            if (g.chance(0.15) && mesh3) field = (int)g.below(4);
            double v = 0;
            if (field == 0) v = 3 + (double)g.below(60);
            if (field == 1) v = std::pow(10.0, -3.0 - (double)g.below(6));
            if (field == 2) v = 1000 + (double)g.below(100000);
            if (field == 3) v = (double)g.below(g.chance(0.2) ? 26 : 15);
            if (field == 3 && g.chance(0.35)) field = 4, v = g.chance(.34) ? 6 : g.chance(.5) ? 10 : 16;
            add("cfgset " + S(field) + " " + num(v));
        } else if (k == "cfgtol") {
            add("cfgtol " + S((int)g.below(2)) + " " + num(g.in(.2, .9) * std::pow(10.0, -2.0 - (double)g.below(7))));
        } else if (k == "cfgget") {
            add("cfgget");
        } else if (k == "cfgcirc") {
            double turn = g.in(-360, 360);
            if (g.chance(0.4))
                add("cfgarc " + num(g.in(-10, 10)) + " " + num(g.in(-10, 10)) + " " + num(g.in(.1, 10)) + " " + num(turn) + " " + num(turn + g.in(-360, 360)));
            else
                add("cfgcirc " + num(g.in(-10, 10)) + " " + num(g.in(-10, 10)) + " " + num(g.in(.1, 10)));
        }
    }
    // ---- lists and maps of neighbours
    struct LG {
        bool ints, forcing;
        int span;
    };
    std::map<int, LG> lists;
    std::map<int, int> maps;
    int nextList = 0, nextMaps = 0;
    int newList() {
        int a = nextList++;
        static const int spans[] = {2, 3, 6, 40, 1000};
        lists[a] = LG{g.chance(0.5), g.chance(0.25), spans[g.below(g.chance(0.5) ? 5 : 4)]};
        if (nextList > 1 && g.chance(0.6)) lists[a].ints = lists[0].ints;
        add("lnew " + std::to_string(a) + " " + std::to_string((int)lists[a].ints));
        return a;
    }
    int someList() { return lists.empty() || g.chance(0.03) ? newList() : pick(lists); }
    int someMaps() {
        if (!maps.empty() && !g.chance(0.03)) return pick(maps);
        int a = nextMaps++;
        maps[a] = g.chance(0.5) ? 4 : 30;
        add("snew " + std::to_string(a));
        return a;
    }
    std::vector<P> values(const LG &l, int n) {
        std::vector<P> v;
        for (int i = 0; i < n; i++) v.push_back({(double)g.below(l.span), (double)g.below(l.span)});
        return v;
    }
    void container(const std::string &k) {
        auto S = [](int i) { return std::to_string(i); };
        if (k == "lnew") {
            newList();
        } else if (k == "lcopy") {
            int a = someList(), b = nextList++;
            lists[b] = lists[a];
            add("lcopy " + S(a) + " " + S(b));
        } else if (k == "ldo") {
            int a = someList(), n = 1 + (int)g.below(6);
            for (int i = 0; i < n; i++) {
                double u = g.unit();
                int what = u < .5 ? 0 : u < .7 ? 2 : u < .97 ? 3 : 4;
                if (lists[a].forcing && g.chance(0.3)) what = 1;
                add("ldo " + S(a) + " " + S(what) + " " + ptsText(values(lists[a], 1)));
            }
        } else if (k == "lmany") {
            int a = someList();
            add("lmany " + S(a) + " " + ptsText(values(lists[a], g.chance(0.04) ? 100 + (int)g.below(600) : 1 + (int)g.below(g.chance(0.8) ? 8 : 60))));
        } else if (k == "lfrom" || k == "lswap") {
            int a = someList(), b = someList();
            if (a == b || lists[a].ints != lists[b].ints) return;
            if (k == "lswap" || lists[b].forcing) lists[a].forcing = lists[b].forcing = lists[a].forcing || lists[b].forcing;
            add(k + " " + S(a) + " " + S(b));
        } else if (k == "lquery") {
            int a = someList();
            add("lquery " + S(a) + " " + ptsText(values(lists[a], 3 + (int)g.below(10))));
        } else if (k == "scopy") {
            int a = someMaps(), b = nextMaps++;
            maps[b] = maps[a];
            add("scopy " + S(a) + " " + S(b));
        } else if (k == "sins") {
            int a = someMaps(), n = 1 + (int)g.below(6);
            for (int i = 0; i < n; i++) {
                auto num = [&] { return g.chance(0.04) ? 1000000000 + (int)g.below(1000000000) : (int)g.below(maps[a]); };
                int x = num(), y = num();
                if (x == y) continue;
                add("sins " + S(a) + " " + S(x) + " " + S(y) + " " + S(num()) + " " + S(num()) + " " + S(g.chance(0.3)));
            }
        } else if (k == "pins") {
            int a = someMaps(), n = 1 + (int)g.below(6);
            for (int i = 0; i < n; i++) {
                int m = g.chance(0.5) ? 1 : 1 + (int)g.below(5);
                std::string o = "pins " + S(a) + " " + ptsText({{(double)g.below(maps[a]), (double)g.below(3)}}) + " " + S(g.chance(0.5));
                for (int j = 0; j < m; j++) o += " " + S((int)g.below(g.chance(0.05) ? 2000000000 : 20));
                add(o);
            }
        } else if (k == "squery") {
            add("squery " + S(someMaps()) + " " + S((int)g.below(1000000)));
        } else {  // sprt, pprt
            int a = someMaps();
            add(k + " " + S(a) + " " + target(k.c_str()));
        }
    }
    void steps(int n) {
        for (int i = 0; i < n; i++) step();
    }
};

int errnoFor(Rng &g) {
    static const int e[] = {ENOSPC, EACCES, EMFILE, EROFS, EIO, ENOENT};
    return e[g.below(6)];
}
FaultSpec makeFault(Rng &g, FaultKind k, int attempt) {
    FaultSpec f;
    f.kind = k;
    double u = g.unit();
    if (g.chance(0.2)) u *= 0.02;
    if (g.chance(0.2)) u = 1 - u * 0.02;
    f.at = -(1e-9 + u * (1 - 2e-9));
    f.attempt = attempt;
    f.arg = k == F_OPEN ? errnoFor(g) : k == F_NOSPC || k == F_CRASH ? (long)g.below(20) : 1 + (long)g.below(12);
    return f;
}
// faults on operations whose names are in `names`
void faults(Rng &g, Ops &ops, const std::set<std::string> &names, const std::vector<FaultKind> &kinds, double p) {
    for (auto &o : ops) {
        std::string n = o.text.substr(0, o.text.find(' '));
        if (!names.count(n) || !g.chance(p)) continue;
        int k = 1 + (int)g.below(3);
        for (int i = 0; i < k; i++) o.faults.push_back(makeFault(g, g.pick(kinds), i > 0 && g.chance(0.5) ? 1 : 0));
    }
}
const std::set<std::string> MESHING = {"vor", "conf", "cons", "restr", "info", "tgen"};
const std::set<std::string> REGION = {"region", "rcopy", "mutate", "circ", "phole", "cleanholes", "cleanseeds", "seeds", "rgen", "seedfile"};
const std::set<std::string> EXPORTS = {"mprint", "sprint", "pprint", "rprint", "tprint", "sprt", "pprt"};

void schedule(Rng &g, Plan &p, bool hot) {
    p.sched.mode = S_RANDOM;
    p.sched.seed = g.next();
    static const uint64_t mean[] = {0, 50, 500, 5000, 50000};
    static const double pc[] = {0, .02, .3}, pg[] = {0, .01, .2}, ps[] = {0, .01, .2};
    static const long mp[] = {3, 30, 2000};
    p.sched.mean = mean[g.below(5)];
    p.sched.pConflict = pc[g.below(3)];
    p.sched.pGlobal = pg[g.below(3)];
    p.sched.pSeam = ps[g.below(3)];
    p.sched.maxPreempts = mp[g.below(3)];
    if (hot && p.sched.mean > 500) p.sched.mean = 20 + g.below(200);
}

}  // namespace

const std::vector<std::string> &profileNames() {
    static const std::vector<std::string> n = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C20", "C21", "C26", "C27"};
    return n;
}

Plan planMake(const std::string &prop, uint64_t seed) {
    uint64_t salt = 0;
    for (char ch : prop) salt = salt * 131 + (unsigned char)ch;
    Rng g(seed * 1000003 + salt);
    Plan p;
    p.prop = prop;
    p.seed = seed;
    p.refEnv.junk = 6 * g.below(1000) + 5;
    p.refEnv.entropy = 1;
    p.refEnv.clock = 1;
    p.env.junk = g.next() >> 8;
    p.env.entropy = g.next();
    p.env.clock = g.next();
    static const char *homes[] = {"/simhome", "/simhome/a b", "/simhome/x"};
    p.env.home = p.refEnv.home = homes[g.below(3)];
    int id = atoi(prop.c_str() + 1);
    p.phases.resize(1);
    Phase &ph = p.phases[0];

    const std::string mk = "region:2 hole:3 cut:.6 outside:.2 bar:.15 cleanholes:.3 seeds:1 rgen:.5 mutate:.4 rcopy:.3 ";
    // how many callers, what they do, how much of it
    int callers = 1, len = 6;
    double prelude = 0.4;
    std::string weights, earlier = mk + "vor:3 conf:1 cons:1 restr:1 info:1 mneigh:.5 polytri:.2 rgenrandom:.3 mprint:.2 rquery:.3 geom:.2";
    auto conc = [&](double one) { callers = g.chance(one) ? 1 : 2 + (int)g.below(3); };
    switch (id) {
        case 1: conc(.5); weights = mk + "vor:5 info:2 conf:.5 cons:.5 restr:.5 mneigh:.3 rgenrandom:.3 rassign:.2 polytri:.3"; break;
        case 2: conc(.5); weights = mk + "vor:5 info:2 conf:.3 cons:.3 restr:.5 rgenrandom:.5 rassign:.2"; break;
        case 3: conc(.5); weights = mk + "conf:5 info:2 cons:1 restr:1 vor:1 gdrop:.2"; break;
        case 4: conc(.5); weights = mk + "cons:3 restr:5 conf:1.5 info:1 vor:.3 gdrop:.2"; break;
        case 5: conc(.6); weights = mk + "vor:3 conf:1.5 cons:1 restr:1 info:1 mneigh:3 mquery:.5 mread:1.5 mreadbad:.3 mcopy:.5"; break;
        case 6: conc(.6); len = 10; weights = mk + "vor:3 conf:2 cons:1 restr:1 info:2 mcopy:2 massign:1 mdrop:1 vgendrop:1 gdrop:1 mneigh:2 mquery:1 mread:1.5 mreadbad:1.5 mprint:.3 sprint:.2"; break;
        case 7: prelude = .9; weights = mk + "vor:4 conf:1 cons:1 restr:1 info:1 mneigh:1 polytri:.5 rquery:1 mprint:.7 rprint:.5 mread:.7 seedfile:.5 rassign:.3 geom:1"; break;
        case 8: callers = 2 + (int)g.below(3); len = 4; weights = mk + "vor:4 conf:1 cons:1 restr:1 info:1 polytri:.7 mneigh:.5 rquery:.5 mprint:.5 rprint:.3 mread:.5 seedfile:.5 rgenrandom:.3 text:.6 geom:.7 ldo:.2 lquery:.1"; break;
        case 9: callers = 1 + (int)g.below(4); prelude = .2; len = 8; weights = "cfgset:4 cfgget:4 cfgcirc:2 cfgtol:1.5 hole:.3 cut:.7"; break;
        case 10: callers = 2 + (int)g.below(3); prelude = .1; len = 5; break;
        case 11: conc(.6); prelude = .6; weights = mk + "vor:5 conf:2 cons:1 restr:1.5 info:2 mneigh:.5"; break;
        case 12: conc(.7); len = 9; weights = "region:1 hole:4 cut:1 outside:1 bar:2 cleanholes:.7 cleanseeds:.7 seeds:4 rgen:2 rgenuser:3 seedfile:1.5 seedfilebad:1 mutate:3 rcopy:1 rquery:.7"; break;
        case 13: conc(.7); len = 12; weights = "region:1 hole:4 cut:1.5 outside:1 bar:1.5 cleanholes:1 cleanseeds:1 seeds:4 rgen:2 rgenrandom:.7 seedfile:1 seedfilebad:.4 mutate:3 rcopy:1.5 rassign:1.5 rquery:2 vor:.3"; break;
        case 14: conc(.7); len = 7; prelude = .1; weights = mk + "vor:1.5 conf:.7 info:.4 mread:.7 mprint:4 sprint:2 pprint:2 rprint:3 tprint:1 sins:.5 pins:.5 sprt:.7 pprt:.7 text:.5"; break;
        case 15: conc(.7); len = 7; prelude = .1; weights = "region:1 hole:2 seeds:1 cleanseeds:.5 seedfile:4 seedfilebad:5 rcopy:.5"; break;
        case 16: conc(.7); len = 7; prelude = .1; weights = "mread:4 mreadbad:6 mcopy:1 mquery:.5 mneigh:.5 mprint:.7 vor:.2"; break;
        case 17: prelude = 0; break;
        case 18: conc(.4); len = 8; weights = mk + "pgen:4 apply:4 rgenrandom:3 rgen:1"; p.env.rng = 1 + g.below(1u << 30); if (g.chance(0.12)) p.env.rng |= (1 + g.below(4)) << 40; break;
        case 26: conc(.6); len = 24; prelude = .2; earlier = "ldo:3 lmany:2 sins:1 vor:1"; weights = "lnew:.5 lcopy:.7 ldo:8 lmany:3 lfrom:1 lswap:.5 lquery:5 scopy:.4 sins:3 pins:3 squery:3 sprt:.4 pprt:.4 text:1.5"; break;
        case 20: conc(.6); len = 9; prelude = .3; weights = mk + "polyask:6 cellask:5 vor:1 mread:.5 mcopy:.3"; break;
        case 21: conc(.6); len = 8; prelude = .3; weights = mk + "polytri:6 celltri:3 vor:1 mread:.3"; break;
        case 27: conc(.6); weights = mk + "vor:4 info:2 conf:1 cons:1 restr:1.5 mcopy:.3 rassign:.2"; break;
        default: break;
    }
    auto fill = [&](World &w, const std::string &ws, int n) {
        w.weights(ws);
        w.steps(n);
        return w.ops;
    };
    if (id == 9) {
        for (int c = 0; c < callers; c++) {
            World w(g, c);
            w.mesh3 = callers == 1;
            w.add("cfgget");
            fill(w, weights, len);
            if (callers == 1 && g.chance(0.7)) {  // precision governs exports
                w.weights("cfgset:2 mprint:2 rprint:2 mread:1 cfgcirc:1");
                for (int i = 0; i < 5; i++) {
                    if (g.chance(0.3)) w.add("cfgset 3 " + num(2 + (double)g.below(g.chance(0.2) ? 23 : 12)));
                    w.step();
                }
            }
            w.add("cfgget");
            ph.callers.push_back(w.ops);
        }
        ph.post.push_back(Op{"cfgfinal", {}});
        schedule(g, p, true);
        return p;
    }
    if (id == 10) {
        World s(g, 9);
        s.nextReg = s.nextMesh = s.nextGen = 100;
        s.big = 0.6;
        int regs = 1 + (int)g.below(2);
        for (int i = 0; i < regs; i++) {
            int r = s.newRegion(100 + i);
            s.nextReg = 101 + i;
            if (g.chance(0.6)) s.hole(r);
            if (g.chance(0.7)) {
                s.add("seeds " + std::to_string(r) + " " + s.seedsFor(s.regs[r]));
                s.regs[r].hasSeeds = true;
            }
            if (g.chance(0.8)) s.vor(r);
        }
        if (g.chance(0.4)) {
            s.weights("conf:1 cons:1 mread:1.5");
            s.steps(1 + (int)g.below(2));
        }
        ph.setup = s.ops;
        std::string focus;  // all readers ask the same kind of question
        if (!s.meshes.empty() && g.chance(0.3)) {
            static const char *kinds[] = {"mquery", "mneigh", "mneigh", "mcopy", "mprint", "sprint", "pprint", "rprint", "rquery", "rcopy", "vor", "conf"};
            focus = kinds[g.below(sizeof kinds / sizeof *kinds)];
        }
        for (int c = 0; c < callers; c++) {
            World w(g, c);
            w.regs = s.regs;
            w.meshes = s.meshes;
            w.vgenOf = s.vgenOf;
            w.gens = {};
            w.big = 0.5;
            std::string ws = "mquery:4 mneigh:3 mcopy:1 mprint:1.5 sprint:.7 pprint:.7 rprint:1 rquery:1.5 vor:.7 rcopy:.7";
            if (s.meshes.empty()) ws = "rprint:1 rquery:2 vor:2 rcopy:1";
            if (!focus.empty()) ws = focus + ":6 " + (focus == "mquery" ? "mneigh:1" : "mquery:.7");
            w.weights(ws);
            w.nextMesh = 0;
            for (int i = 0; i < len; i++) {
                // only the shared objects, so that callers meet
                w.regs = s.regs;
                w.meshes = s.meshes;
                w.step();
            }
            ph.callers.push_back(w.ops);
        }
        schedule(g, p, g.chance(0.5));
        return p;
    }
    if (id == 17) {
        int lives = 2 + (int)g.below(2);
        p.phases.resize(lives);
        World w(g, 0);
        w.big = 0.6;
        std::map<std::string, int> saved;
        std::map<std::string, std::string> seedSaved;
        for (int l = 0; l < lives; l++) {
            Phase &q = p.phases[l];
            World n(g, 0);
            n.nextFile = w.nextFile + 100 * l;
            n.big = 0.6;
            n.newRegion();
            if (g.chance(0.5)) n.hole(0);
            Ops o;
            if (l > 0) {  // what the life before left
                for (auto &f : saved) {
                    int M = n.nextMesh++;
                    n.add("mnew " + std::to_string(M) + " " + std::to_string(f.second));
                    n.add("mread " + std::to_string(M) + " " + f.first + " 0");
                    if (g.chance(0.5)) n.add("mneigh " + std::to_string(M) + " 20 " + std::to_string(g.below(100000)));
                    if (g.chance(0.3)) n.add("mprint " + std::to_string(M) + " again_" + f.first);
                    n.meshes[M] = f.second;
                }
                for (auto &f : seedSaved) n.add("seedfile 0 " + f.first);
            }
            n.weights("vor:2 conf:1 cons:.5 mprint:3 rprint:1 pprint:.5 mread:.5 seedfile:.5");
            n.steps(3 + (int)g.below(4));
            if (l + 1 < lives && g.chance(0.7)) {  // save over an older file
                if (!n.meshes.empty() && !saved.empty() && g.chance(0.5)) {
                    int M = n.anyMesh();
                    std::string f = saved.begin()->first;
                    saved[f] = n.meshes[M];
                    n.add("mprint " + std::to_string(M) + " " + f);
                }
            }
            for (auto &f : n.filesWritten) saved[f.first] = f.second;
            for (auto &op : n.ops)
                if (op.text.compare(0, 5, "file ") == 0 && op.text.find("seeds") != std::string::npos) {
                    std::istringstream in(op.text);
                    std::string a, b;
                    in >> a >> b;
                    seedSaved[b] = "";
                }
            if (l + 1 < lives) {
                std::vector<size_t> ex;
                for (size_t i = 0; i < n.ops.size(); i++)
                    if (n.ops[i].text.compare(0, 7, "mprint ") == 0) ex.push_back(i);
                if (!ex.empty() && g.chance(0.6)) n.ops[g.pick(ex)].faults.push_back(makeFault(g, F_CRASH, 0));
                for (auto &f : saved)
                    if (g.chance(0.4)) q.losses.push_back(Loss{f.first, (int)g.below(6), g.unit()});
                for (auto &f : seedSaved)
                    if (g.chance(0.4)) q.losses.push_back(Loss{f.first, (int)g.below(6), g.unit()});
            }
            if (g.chance(0.4)) faults(g, n.ops, {"mprint", "rprint", "pprint"}, {F_WRITE, F_NOSPC, F_WSHORT, F_EINTR, F_CLOSE, F_OPEN}, .4);
            if (g.chance(0.4)) faults(g, n.ops, {"mread", "seedfile"}, {F_READ, F_RSHORT, F_EINTR, F_OPEN, F_ALLOC}, .4);
            q.callers.push_back(n.ops);
        }
        schedule(g, p, false);
        return p;
    }
    double big = callers > 1 ? 0.6 : 1;
    // all callers make one kind of call, over and over: what its calls share is used by all of them at the same time
    std::string focus;
    int textKind = -1;
    int before = 4;
    if (id == 7 && g.chance(0.15)) {
        focus = g.chance(0.8) ? "geom" : "text";
        textKind = (int)g.below(focus == "geom" ? 10 : 6);
        weights = earlier = focus + ":6";
        len = 12;
        before = 14;
        prelude = 1;
    }
    if (id == 8 && g.chance(0.3)) {
        static const char *kinds[] = {"text", "hole", "polytri", "rquery", "mprint", "rprint", "mread", "seedfile", "rgenrandom", "rgen", "pgen", "apply",
                                      "lquery", "ldo", "mneigh", "cut", "mutate", "seeds", "text", "geom", "geom", "vor", "conf", "cons", "restr"};
        focus = kinds[g.below(sizeof kinds / sizeof *kinds)];
        textKind = (int)g.below(focus == "geom" ? 10 : 6);
        bool cheap = focus == "text" || focus == "geom" || focus[0] == 'l' || focus == "apply" || focus == "pgen";
        weights = std::string(cheap ? "" : "region:.7 hole:.4 ") + focus + ":6";
        if (focus == "mneigh") weights += " vor:1";
        len = cheap ? 12 : MESHING.count(focus) ? 4 : 7;
    }
    for (int c = 0; c < callers; c++) {
        World pre(g, c);
        pre.big = big * 0.6;
        pre.nextFile = 500;
        Ops po;
        if (g.chance(prelude)) {
            pre.textKind = id == 7 ? textKind : -1;
            po = fill(pre, earlier, 1 + (int)g.below(before));
            if (id != 12) faults(g, po, MESHING, {F_ALLOC}, id == 11 ? .6 : .2);
        }
        ph.prelude.push_back(po);
        World w(g, c);
        w.big = big;
        w.textKind = textKind;
        w.lonely = callers == 1 && (id == 15 || id == 13);
        w.huge = callers == 1 && id != 12 && id != 15 && id != 26 && g.chance(0.06);
        if (!w.huge && callers == 1 && id != 18 && g.chance(0.02)) {  // one thing, many times over
            std::istringstream in(weights);
            std::vector<std::string> all;
            for (std::string x; in >> x;) all.push_back(x.substr(0, x.find(':')));
            std::string one = g.pick(all);
            w.big = std::min(w.big, 0.4);
            fill(w, one + ":1", 17 + (int)g.below(24));
        }
        int n = w.huge ? 2 + (int)g.below(3) : std::max(2, (int)(len * g.in(.5, 1.3) / (callers > 2 ? 1.6 : 1)));
        fill(w, weights, n);
        // a run has to contain the operation the property is about
        auto must = [&](const std::string &names, const std::string &ws) {
            for (auto &o : w.ops)
                if (names.find("|" + o.text.substr(0, o.text.find(' ')) + "|") != std::string::npos) return;
            fill(w, ws, 1 + (int)g.below(2));
        };
        if (id == 14 && callers == 1 && g.chance(0.3))
            w.ops.insert(w.ops.begin() + g.below(w.ops.size()), Op{"cfgset 3 " + num(2 + (double)g.below(g.chance(0.4) ? 23 : 12)), {}});
        switch (id) {
            case 1: case 2: must("|vor|info|", "vor:3 info:1"); break;
            case 3: must("|conf|info|", "conf:3 info:1"); break;
            case 4: must("|cons|restr|", "cons:1 restr:3"); break;
            case 5: must("|vor|conf|cons|info|mread|", "vor:1 conf:1"); break;
            case 6: must("|vor|conf|cons|info|", "vor:1 conf:1"); w.weights(weights); w.steps(2); break;
            case 27: must("|vor|info|", "vor:3 info:1"); break;
            case 8: if (!focus.empty()) break;  // fall through
            case 11: must("|vor|conf|cons|restr|info|", "vor:2 conf:1 restr:1"); break;
            case 14: must("|mprint|rprint|sprint|pprint|", "mprint:1 rprint:1"); break;
            default: break;
        }
        switch (id) {
            case 1: case 2: case 3: case 4: case 5: case 20: case 21: case 27: if (g.chance(.3)) faults(g, w.ops, MESHING, {F_ALLOC}, .3); break;
            case 6: if (g.chance(.3)) faults(g, w.ops, {"vor", "conf", "cons", "restr", "info", "mcopy", "mread"}, {F_ALLOC}, .3); break;
            case 11: faults(g, w.ops, MESHING, {F_ALLOC}, .8); break;
            case 12: {
                faults(g, w.ops, REGION, {F_ALLOC}, .6);
                faults(g, w.ops, {"rgen"}, {F_THROW}, .6);
                faults(g, w.ops, {"seedfile"}, {F_READ, F_RSHORT, F_EINTR, F_OPEN, F_ALLOC}, .5);
                break;
            }
            case 13: if (g.chance(.2)) faults(g, w.ops, REGION, {F_ALLOC}, .2); break;
            case 14: faults(g, w.ops, EXPORTS, {F_WRITE, F_NOSPC, F_WSHORT, F_EINTR, F_CLOSE, F_OPEN, F_ALLOC}, .7); break;
            case 15: faults(g, w.ops, {"seedfile"}, {F_READ, F_RSHORT, F_EINTR, F_OPEN, F_ALLOC, F_CLOSE}, .5); break;
            case 16: faults(g, w.ops, {"mread"}, {F_READ, F_RSHORT, F_EINTR, F_OPEN, F_ALLOC, F_CLOSE}, .5); break;
            case 18: if (g.chance(.3)) faults(g, w.ops, {"rgen"}, {F_ALLOC}, .5); break;
            case 26:
                if (g.chance(.7)) faults(g, w.ops, {"lcopy", "ldo", "lmany", "lfrom", "lquery", "scopy", "sins", "pins", "squery", "text"}, {F_ALLOC}, g.in(.05, .5));
                if (g.chance(.3)) faults(g, w.ops, {"sprt", "pprt"}, {F_WRITE, F_NOSPC, F_WSHORT, F_EINTR, F_CLOSE, F_OPEN, F_ALLOC}, .5);
                break;
            default: break;
        }
        ph.callers.push_back(w.ops);
    }
    if ((id == 14 || id == 15 || id == 16) && g.chance(.05)) p.env.home = p.refEnv.home = "";
    if (id == 18) p.refEnv.rng = p.env.rng;
    if (id == 7 && g.chance(.3)) {  // the same again after a restart
        p.phases.push_back(p.phases[0]);
        p.phases[1].prelude.assign(p.phases[1].callers.size(), Ops());
    }
    schedule(g, p, false);
    return p;
}

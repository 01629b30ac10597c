// Geometry used by the simulator's oracles.  Nothing in here calls the library under test.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

namespace geo {

struct P {
    double x = 0, y = 0;
    bool operator<(const P &o) const { return x != o.x ? x < o.x : y < o.y; }
    bool operator==(const P &o) const { return x == o.x && y == o.y; }
};
typedef std::vector<P> Poly;

struct Domain {
    Poly outer;
    std::vector<Poly> holes;
};

// A mesh as an outside observer sees it.
struct MeshData {
    std::vector<P> pts;
    std::vector<std::vector<int>> cells;
    std::vector<std::array<int, 4>> edges;                  // a, b, n1, n2 (from the segment map)
    std::vector<std::pair<P, std::vector<int>>> pmap;       // from the point map
};

inline std::string fmt(const char *f, double a = 0, double b = 0, double c = 0, double d = 0) {
    char buf[256];
    snprintf(buf, sizeof buf, f, a, b, c, d);
    return buf;
}

inline double cross(P o, P a, P b) { return (a.x - o.x) * (b.y - o.y) - (a.y - o.y) * (b.x - o.x); }
inline double dist(P a, P b) { return std::hypot(a.x - b.x, a.y - b.y); }

inline double signedArea(const Poly &p) {
    if (p.empty()) return 0;
    long double s = 0;
    P o = p[0];
    for (size_t i = 0; i < p.size(); i++) {
        P a = p[i], b = p[(i + 1) % p.size()];
        s += ((long double)a.x - o.x) * ((long double)b.y - o.y) - ((long double)a.y - o.y) * ((long double)b.x - o.x);
    }
    return (double)(s / 2);
}
inline double perimeter(const Poly &p) {
    double s = 0;
    for (size_t i = 0; i < p.size(); i++) s += dist(p[i], p[(i + 1) % p.size()]);
    return s;
}
inline double distSeg(P q, P a, P b) {
    double l2 = (b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y);
    double t = l2 == 0 ? 0 : ((q.x - a.x) * (b.x - a.x) + (q.y - a.y) * (b.y - a.y)) / l2;
    t = std::max(0.0, std::min(1.0, t));
    return dist(q, P{a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)});
}
inline double distBoundary(P q, const Poly &p) {
    double d = 1e300;
    for (size_t i = 0; i < p.size(); i++) d = std::min(d, distSeg(q, p[i], p[(i + 1) % p.size()]));
    return d;
}
inline bool inside(P q, const Poly &p) {  // even-odd; meaningless on the boundary itself
    bool in = false;
    for (size_t i = 0, j = p.size() - 1; i < p.size(); j = i++)
        if ((p[i].y > q.y) != (p[j].y > q.y) &&
            q.x < (p[j].x - p[i].x) * (q.y - p[i].y) / (p[j].y - p[i].y) + p[i].x)
            in = !in;
    return in;
}
inline double distDomainBoundary(P q, const Domain &d) {
    double r = distBoundary(q, d.outer);
    for (auto &h : d.holes) r = std::min(r, distBoundary(q, h));
    return r;
}
inline bool insideDomain(P q, const Domain &d) {
    if (!inside(q, d.outer)) return false;
    for (auto &h : d.holes)
        if (inside(q, h)) return false;
    return true;
}
inline double domainArea(const Domain &d) {
    double a = std::fabs(signedArea(d.outer));
    for (auto &h : d.holes) a -= std::fabs(signedArea(h));
    return a;
}
inline double domainPerimeter(const Domain &d) {
    double a = perimeter(d.outer);
    for (auto &h : d.holes) a += perimeter(h);
    return a;
}
inline void bbox(const Poly &p, P &lo, P &hi) {
    lo = {1e300, 1e300};
    hi = {-1e300, -1e300};
    for (auto &q : p) {
        lo.x = std::min(lo.x, q.x);
        lo.y = std::min(lo.y, q.y);
        hi.x = std::max(hi.x, q.x);
        hi.y = std::max(hi.y, q.y);
    }
}
inline bool properCross(P a, P b, P c, P d) {
    double d1 = cross(a, b, c), d2 = cross(a, b, d), d3 = cross(c, d, a), d4 = cross(c, d, b);
    double l1 = dist(a, b), l2 = dist(c, d);
    double e1 = 1e-9 * l1 * (l1 + l2), e2 = 1e-9 * l2 * (l1 + l2);
    return ((d1 > e1 && d2 < -e1) || (d1 < -e1 && d2 > e1)) && ((d3 > e2 && d4 < -e2) || (d3 < -e2 && d4 > e2));
}
inline double segsDist(P a, P b, P c, P d) {
    if (properCross(a, b, c, d)) return 0;
    return std::min(std::min(distSeg(a, c, d), distSeg(b, c, d)), std::min(distSeg(c, a, b), distSeg(d, a, b)));
}
inline bool simple(const Poly &p) {
    size_t n = p.size();
    for (size_t i = 0; i < n; i++)
        for (size_t j = i + 1; j < n; j++) {
            if (j == i || j == (i + 1) % n || i == (j + 1) % n) continue;
            if (properCross(p[i], p[(i + 1) % n], p[j], p[(j + 1) % n])) return false;
        }
    return true;
}
// 1: plainly simple, -1: plainly crosses itself, 0: touches or folds onto itself within rounding
inline int simpleness(const Poly &p, double size) {
    size_t n = p.size();
    int r = 1;
    for (size_t i = 0; i < n; i++)
        for (size_t j = i + 1; j < n; j++) {
            P a = p[i], b = p[(i + 1) % n], c = p[j], d = p[(j + 1) % n];
            if (j == (i + 1) % n || i == (j + 1) % n) {
                if (j != (i + 1) % n) { std::swap(a, c); std::swap(b, d); }  // a-b(=c)-d
                if (n < 4 && dist(a, d) < 1e-4 * size) r = 0;
                if (distSeg(d, a, b) < 1e-4 * size || distSeg(a, c, d) < 1e-4 * size) r = 0;
                continue;
            }
            if (segsDist(a, b, c, d) > 1e-4 * size) continue;
            if (properCross(a, b, c, d) && distSeg(a, c, d) > 1e-3 * size && distSeg(b, c, d) > 1e-3 * size &&
                distSeg(c, a, b) > 1e-3 * size && distSeg(d, a, b) > 1e-3 * size)
                return -1;
            r = 0;
        }
    return r;
}
// Area of subject ∩ convex clip (Sutherland-Hodgman; the area is right for non-convex subjects too).
inline double clipArea(Poly subj, Poly conv) {
    if (signedArea(conv) < 0) std::reverse(conv.begin(), conv.end());
    for (size_t i = 0; i < conv.size() && !subj.empty(); i++) {
        P a = conv[i], b = conv[(i + 1) % conv.size()];
        Poly out;
        for (size_t k = 0; k < subj.size(); k++) {
            P s = subj[k], e = subj[(k + 1) % subj.size()];
            double cs = cross(a, b, s), ce = cross(a, b, e);
            if (cs >= 0) out.push_back(s);
            if ((cs >= 0) != (ce >= 0)) {
                double t = cs / (cs - ce);
                out.push_back({s.x + t * (e.x - s.x), s.y + t * (e.y - s.y)});
            }
        }
        subj = out;
    }
    return subj.empty() ? 0 : std::fabs(signedArea(subj));
}
inline double angleAt(P v, P a, P b) {  // angle a-v-b in [0, pi]
    double c = (a.x - v.x) * (b.x - v.x) + (a.y - v.y) * (b.y - v.y);
    return std::atan2(std::fabs(cross(v, a, b)), c);
}

inline uint64_t ekey(int a, int b) { return ((uint64_t)(uint32_t)a << 32) | (uint32_t)b; }
inline uint64_t ukey(int a, int b) { return a < b ? ekey(a, b) : ekey(b, a); }

inline std::string cellIdx(const MeshData &m) {
    int np = (int)m.pts.size();
    for (auto &p : m.pts)
        if (!std::isfinite(p.x) || !std::isfinite(p.y)) return "node with a non-finite coordinate";
    for (size_t c = 0; c < m.cells.size(); c++) {
        auto &v = m.cells[c];
        if (v.size() < 3) return fmt("cell %.0f has %.0f vertices", c, v.size());
        std::set<int> s(v.begin(), v.end());
        if (s.size() != v.size()) return fmt("cell %.0f repeats a vertex", c);
        if (*s.begin() < 0 || *s.rbegin() >= np) return fmt("cell %.0f names a node that does not exist", c);
    }
    return "";
}
inline Poly cellPoly(const MeshData &m, size_t c) {
    Poly p;
    for (int i : m.cells[c]) p.push_back(m.pts[i]);
    return p;
}

// Nodes so close to each other (by x, or by y at the same x) that the library's tolerant order of points, 1e-5 wide, does
// not tell clearly which are the same: where circles cut out of an outline and rounded have their centres.
inline std::vector<char> unclearNodes(const MeshData &m) {
    std::vector<int> v;
    std::vector<char> r(m.pts.size(), 0);
    for (auto &c : m.cells)
        for (int i : c) v.push_back(i);
    std::sort(v.begin(), v.end(), [&](int a, int b) { return m.pts[a] < m.pts[b]; });
    v.erase(std::unique(v.begin(), v.end()), v.end());
    for (size_t i = 0; i < v.size(); i++)
        for (size_t k = i + 1; k < v.size() && m.pts[v[k]].x - m.pts[v[i]].x < 5e-5; k++) {
            double dx = m.pts[v[k]].x - m.pts[v[i]].x, dy = std::fabs(m.pts[v[k]].y - m.pts[v[i]].y);
            if (dx > 2e-6 || (dy > 2e-6 && dy < 5e-5)) {
                r[v[i]] = r[v[k]] = 1;
            }
        }
    return r;
}
inline bool anyUnclear(const MeshData &m) {
    for (char c : unclearNodes(m))
        if (c) return true;
    return false;
}

// The cells tile the domain: simple, counter-clockwise, conforming, no gap, no overlap, nothing outside.
inline std::string partition(const MeshData &m, const Domain &d, double tol) {
    if (m.cells.empty()) return "mesh has no cells";
    std::string r = cellIdx(m);
    if (!r.empty()) return r;
    double per = domainPerimeter(d), A = domainArea(d), sum = 0;
    std::unordered_map<uint64_t, int> dir;
    std::vector<char> used(m.pts.size(), 0);
    std::vector<char> unclear = unclearNodes(m);  // some may have been taken for the same, and the cells be off by as much
    for (size_t c = 0; c < m.cells.size(); c++) {
        Poly p = cellPoly(m, c);
        double a = signedArea(p);
        if (a <= -tol * perimeter(p)) return fmt("cell %.0f is clockwise (area %g)", c, a);
        bool vague = false;
        for (int i : m.cells[c]) vague = vague || unclear[i];
        if (!simple(p) && !vague) return fmt("cell %.0f crosses itself", c);
        sum += a;
        auto &v = m.cells[c];
        for (size_t i = 0; i < v.size(); i++) {
            used[v[i]] = 1;
            auto ins = dir.insert({ekey(v[i], v[(i + 1) % v.size()]), (int)c});
            if (!ins.second && !unclear[v[i]] && !unclear[v[(i + 1) % v.size()]]) return fmt("cells %.0f and %.0f lie on the same side of one edge", ins.first->second, c);
        }
    }
    for (size_t i = 0; i < used.size(); i++)
        if (!used[i]) return fmt("node %.0f belongs to no cell", i);
    if (std::fabs(sum - A) > 3 * tol * per + 1e-9 * A)
        return fmt("cells cover area %.12g, the domain has area %.12g", sum, A);
    double blen = 0;
    bool vagueEdges = false;
    for (auto &e : dir) {
        int a = e.first >> 32, b = (int)(uint32_t)e.first;
        if (dir.count(ekey(b, a))) continue;
        if (unclear[a] || unclear[b]) {
            vagueEdges = true;
            continue;
        }
        P p = m.pts[a], q = m.pts[b], mid{(p.x + q.x) / 2, (p.y + q.y) / 2};
        blen += dist(p, q);
        // an outer edge may cut a corner that is flat within the library's tolerance
        double cut = 5 * tol + 2.2e-5 / std::max(dist(p, q), 1e-9);
        if (std::max(distDomainBoundary(p, d), distDomainBoundary(q, d)) > 5 * tol || distDomainBoundary(mid, d) > cut)
            return fmt("edge %.0f-%.0f has one cell but is not on the domain boundary", a, b);
    }
    if (!vagueEdges && std::fabs(blen - per) > 1e-6 * per + 50 * tol)
        return fmt("outer edges have length %.12g, the domain boundary %.12g", blen, per);
    for (size_t i = 0; i < m.pts.size(); i++)
        if (!insideDomain(m.pts[i], d) && distDomainBoundary(m.pts[i], d) > 5 * tol)
            return fmt("node %.0f at (%.9g, %.9g) lies outside the domain", i, m.pts[i].x, m.pts[i].y);
    return "";
}

// Segment map and point map say exactly what the cells say.
inline std::string adjacency(const MeshData &m, bool wantPmap = true) {
    std::string r = cellIdx(m);
    if (!r.empty()) return r;
    std::map<uint64_t, std::vector<int>> want;
    for (size_t c = 0; c < m.cells.size(); c++) {
        auto &v = m.cells[c];
        for (size_t i = 0; i < v.size(); i++) want[ukey(v[i], v[(i + 1) % v.size()])].push_back((int)c);
    }
    std::set<uint64_t> seen;
    std::vector<char> unclear;  // where it is unclear which nodes are the same, one cell may use one and its neighbour the other
    auto vague = [&](int a, int b) {
        if (unclear.empty()) unclear = unclearNodes(m);
        return unclear[a] || unclear[b];
    };
    for (auto &e : m.edges) {
        uint64_t k = ukey(e[0], e[1]);
        if (!seen.insert(k).second) return fmt("edge %.0f-%.0f is listed twice", e[0], e[1]);
        auto it = want.find(k);
        if (it == want.end()) return fmt("listed edge %.0f-%.0f belongs to no cell", e[0], e[1]);
        std::vector<int> have;
        if (e[2] != -1) have.push_back(e[2]);
        if (e[3] != -1) have.push_back(e[3]);
        std::sort(have.begin(), have.end());
        std::vector<int> w = it->second;
        std::sort(w.begin(), w.end());
        if (have != w && !vague(e[0], e[1]) && !(w.size() > 2 && anyUnclear(m)))
            return fmt("edge %.0f-%.0f: neighbours %.0f,%.0f do not match its cells", e[0], e[1], e[2], e[3]);
    }
    if (seen.size() != want.size())
        for (auto &w : want)
            if (!seen.count(w.first) && !vague((int)(w.first >> 32), (int)(uint32_t)w.first))
                return fmt("%.0f edges listed, the cells have %.0f", seen.size(), want.size());
    if (!wantPmap) return "";
    std::map<P, std::set<int>> byPt;
    for (size_t c = 0; c < m.cells.size(); c++)
        for (int v : m.cells[c]) byPt[m.pts[v]].insert((int)c);
    if (byPt.size() != m.pmap.size())
        r = fmt("point map has %.0f entries, the cells use %.0f nodes", m.pmap.size(), byPt.size());
    for (auto &e : m.pmap) {
        auto it = byPt.find(e.first);
        if (it == byPt.end())
            r = fmt("point map entry (%.9g, %.9g) is no node of a cell", e.first.x, e.first.y);
        else if (std::set<int>(e.second.begin(), e.second.end()) != it->second)
            r = fmt("point map: wrong cells around (%.9g, %.9g)", e.first.x, e.first.y);
    }
    return r.empty() || anyUnclear(m) ? "" : r;
}

// Every triangle is (constrained) Delaunay: across each edge that is not constrained, opposite angles sum to <= pi.
template <class F>
inline std::string delaunay(const MeshData &m, F constrained) {
    std::unordered_map<uint64_t, int> opp;
    for (auto &v : m.cells) {
        if (v.size() != 3) return "a triangulation holds a cell that is not a triangle";
        for (int i = 0; i < 3; i++) opp[ekey(v[i], v[(i + 1) % 3])] = v[(i + 2) % 3];
    }
    for (auto &e : opp) {
        int a = e.first >> 32, b = (int)(uint32_t)e.first;
        if (a > b) continue;
        auto it = opp.find(ekey(b, a));
        if (it == opp.end()) continue;
        P pa = m.pts[a], pb = m.pts[b];
        double s = angleAt(m.pts[e.second], pa, pb) + angleAt(m.pts[it->second], pa, pb);
        if (s > M_PI + 1e-5 && !constrained(pa, pb))
            return fmt("edge %.0f-%.0f is not Delaunay (opposite angles sum to %.9g)", a, b, s);
    }
    return "";
}

// Segment s-t is a chain of mesh edges.
inline bool segmentCovered(const MeshData &m, P s, P t, double tol) {
    std::set<uint64_t> es;
    double len = dist(s, t), got = 0;
    for (auto &v : m.cells)
        for (size_t i = 0; i < v.size(); i++) {
            int a = v[i], b = v[(i + 1) % v.size()];
            if (!es.insert(ukey(a, b)).second) continue;
            if (distSeg(m.pts[a], s, t) < tol && distSeg(m.pts[b], s, t) < tol) got += dist(m.pts[a], m.pts[b]);
        }
    return got > len - 20 * tol && got < len + 20 * tol + 1e-6 * len;
}

// Cell c belongs to one node of the triangulation and holds the points nearer to it than to its neighbours.
// siteOf (optional) receives the site of each cell.
inline std::string voronoi(const MeshData &m, const MeshData &tri, double tol, std::vector<int> *siteOf = nullptr) {
    std::string r = cellIdx(m);
    if (!r.empty()) return r;
    if (m.cells.size() != tri.pts.size())
        return fmt("%.0f cells for %.0f triangulation nodes", m.cells.size(), tri.pts.size());
    std::vector<int> site(m.cells.size(), -1);
    std::vector<std::vector<int>> at(m.pts.size());
    std::vector<int> order(tri.pts.size());
    for (size_t i = 0; i < order.size(); i++) order[i] = (int)i;
    std::sort(order.begin(), order.end(), [&](int a, int b) { return tri.pts[a].x < tri.pts[b].x; });
    std::vector<int> owner(tri.pts.size(), -1);
    for (size_t c = 0; c < m.cells.size(); c++) {
        Poly p = cellPoly(m, c);
        for (int v : m.cells[c]) at[v].push_back((int)c);
        P lo, hi;
        bbox(p, lo, hi);
        auto it = std::lower_bound(order.begin(), order.end(), lo.x - tol,
                                   [&](int a, double x) { return tri.pts[a].x < x; });
        int best = -1;
        double bestD = 1e300;
        for (; it != order.end() && tri.pts[*it].x <= hi.x + tol; ++it) {
            P s = tri.pts[*it];
            if (s.y < lo.y - tol || s.y > hi.y + tol) continue;
            double b = distBoundary(s, p);
            double dd = inside(s, p) ? -b : b;
            if (dd < bestD) {
                bestD = dd;
                best = *it;
            }
        }
        if (best < 0 || bestD > tol) return fmt("cell %.0f contains no node of the triangulation", c);
        site[c] = best;
        if (owner[best] >= 0) return fmt("cells %.0f and %.0f hold the same site", owner[best], c);
        owner[best] = (int)c;
    }
    for (size_t i = 0; i < at.size(); i++) {
        double lo = 1e300, hi = -1e300;
        for (int c : at[i]) {
            double d = dist(m.pts[i], tri.pts[site[c]]);
            lo = std::min(lo, d);
            hi = std::max(hi, d);
        }
        if (at[i].size() > 1 && hi - lo > 10 * tol + 1e-6 * hi)
            return fmt("node %.0f at (%.9g, %.9g) is not equidistant from the sites of its cells", i, m.pts[i].x, m.pts[i].y);
    }
    // a cell is as large as the shares its site has in the triangles around it
    std::vector<double> share(tri.pts.size(), 0), slack(tri.pts.size(), 0);
    for (auto &v : tri.cells) {
        P a = tri.pts[v[0]], b = tri.pts[v[1]], c = tri.pts[v[2]];
        double bx = b.x - a.x, by = b.y - a.y, cx = c.x - a.x, cy = c.y - a.y, D = 2 * (bx * cy - by * cx);
        double b2 = bx * bx + by * by, c2 = cx * cx + cy * cy;
        P o{a.x + (cy * b2 - by * c2) / D, a.y + (bx * c2 - cx * b2) / D};
        double big = 0;
        for (int i = 0; i < 3; i++) big = std::max(big, std::fabs(tri.pts[v[i]].x) + std::fabs(tri.pts[v[i]].y));
        double R = dist(a, o), per = dist(a, b) + dist(b, c) + dist(c, a);
        double fuzz = 1e-14 * per * (big + R) * (1 + R * per / std::fabs(D));
        for (int i = 0; i < 3; i++) {
            P p = tri.pts[v[i]], q = tri.pts[v[(i + 1) % 3]], r = tri.pts[v[(i + 2) % 3]];
            P m{(p.x + q.x) / 2, (p.y + q.y) / 2}, n{(p.x + r.x) / 2, (p.y + r.y) / 2};
            share[v[i]] += (cross(p, m, o) + cross(p, o, n)) / 2;
            slack[v[i]] += fuzz;
        }
    }
    for (size_t c = 0; c < m.cells.size(); c++) {
        Poly p = cellPoly(m, c);
        double A = signedArea(p), w = share[site[c]];
        if (!(std::fabs(A - w) <= 4 * tol * perimeter(p) + 1e-8 * A + slack[site[c]]))
            return fmt("the cell of the site at (%.9g, %.9g) has area %.12g, its part of the domain has %.12g", tri.pts[site[c]].x, tri.pts[site[c]].y, A, w);
    }
    if (siteOf) *siteOf = site;
    return "";
}

// Segment a-b may be asked for in a triangulation of d: it lies inside or is an edge, and keeps off everything but its ends.
inline bool segmentOk(P a, P b, const Domain &d, const std::vector<P> &others, double min) {
    if (dist(a, b) < min) return false;
    for (auto &q : others)
        if (!(q == a) && !(q == b) && distSeg(q, a, b) < min) return false;
    bool edge = false;
    auto clear = [&](const Poly &o) {
        for (size_t e = 0; e < o.size(); e++) {
            P u = o[e], v = o[(e + 1) % o.size()];
            bool ua = u == a || u == b, va = v == a || v == b;
            if (ua && va) {
                edge = true;
                continue;
            }
            if (!(u == a) && !(u == b) && distSeg(u, a, b) < min) return false;
            if (!(v == a) && !(v == b) && distSeg(v, a, b) < min) return false;
            if (ua || va) {
                P far = (u == a || v == a) ? b : a;
                if (distSeg(far, u, v) < min) return false;
            } else if (segsDist(a, b, u, v) < min) {
                return false;
            }
        }
        return true;
    };
    if (!clear(d.outer)) return false;
    for (auto &h : d.holes)
        if (!clear(h)) return false;
    return edge || insideDomain({(a.x + b.x) / 2, (a.y + b.y) / 2}, d);
}
inline bool segmentsApart(P a, P b, P c, P e, double min) {
    bool ca = c == a || c == b, ea = e == a || e == b;
    if (ca && ea) return true;  // the same one again
    if (ca || ea) {
        P f = ca ? e : c, g = (c == a || e == a) ? b : a;
        return distSeg(f, a, b) >= min && distSeg(g, c, e) >= min;
    }
    return segsDist(a, b, c, e) >= min;
}

// How many pieces are left of a simple polygon o when the simple polygon h, which crosses its outline, is taken away.
inline int piecesLeft(const Poly &o, const Poly &h) {
    struct X {
        size_t eo, eh;
        double to, th;
    };
    std::vector<X> xs;
    for (size_t i = 0; i < o.size(); i++)
        for (size_t k = 0; k < h.size(); k++) {
            P a = o[i], b = o[(i + 1) % o.size()], c = h[k], d = h[(k + 1) % h.size()];
            if (!properCross(a, b, c, d)) continue;
            double u = cross(c, d, a), v = cross(c, d, b), w = cross(a, b, c), z = cross(a, b, d);
            xs.push_back({i, k, u / (u - v), w / (w - z)});
        }
    size_t n = xs.size();
    if (n == 0) return inside(o[0], h) ? 0 : 1;
    std::vector<size_t> byO(n), byH(n), alongO(n), alongH(n);
    for (size_t i = 0; i < n; i++) byO[i] = byH[i] = i;
    std::sort(byO.begin(), byO.end(), [&](size_t p, size_t q) { return std::make_pair(xs[p].eo, xs[p].to) < std::make_pair(xs[q].eo, xs[q].to); });
    std::sort(byH.begin(), byH.end(), [&](size_t p, size_t q) { return std::make_pair(xs[p].eh, xs[p].th) < std::make_pair(xs[q].eh, xs[q].th); });
    bool out = !inside(o[0], h);  // the arc that ends in byO[0]
    for (size_t i = 0; i < n; i++)
        if (out == (i % 2 == 0)) {  // byO[i-1] .. byO[i] lies outside the hole
            size_t p = byO[(i + n - 1) % n], q = byO[i];
            alongO[p] = q;
            alongO[q] = p;
        }
    bool in = inside(h[0], o);
    for (size_t i = 0; i < n; i++)
        if (in == (i % 2 == 0)) {
            size_t p = byH[(i + n - 1) % n], q = byH[i];
            alongH[p] = q;
            alongH[q] = p;
        }
    std::vector<char> seen(n, 0);
    int pieces = 0;
    for (size_t i = 0; i < n; i++) {
        if (seen[i]) continue;
        pieces++;
        for (size_t k = i; !seen[k];) {
            seen[k] = 1;
            k = alongO[k];
            seen[k] = 1;
            k = alongH[k];
        }
    }
    return pieces;
}

}  // namespace geo

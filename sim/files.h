// What the bytes of a file say: the oracle's own readers.  Nothing in here calls the library under test.
#pragma once
#include <cctype>
#include <climits>
#include <cstdlib>
#include <cstring>

#include "geom.h"

namespace files {
using geo::MeshData;
using geo::P;

// VALID: there is one sensible reading.  INVALID: data is missing or is not a number, no reading exists.
// UNCLEAR: a reader may accept or refuse it.
enum Verdict { VALID, INVALID, UNCLEAR };

struct Lines {
    std::vector<std::vector<std::string>> l;
    size_t at = 0;
    bool endsWithNewline = true;
    explicit Lines(const std::string &s) {
        size_t i = 0;
        while (i < s.size()) {
            size_t e = s.find('\n', i);
            bool last = e == std::string::npos;
            if (last) {
                e = s.size();
                endsWithNewline = false;
            }
            std::vector<std::string> t;
            size_t k = i;
            while (k < e) {
                while (k < e && strchr(" \t\r\v\f", s[k]) && s[k]) k++;
                size_t b = k;
                while (k < e && !(strchr(" \t\r\v\f", s[k]) && s[k])) k++;
                if (k > b) t.push_back(s.substr(b, k - b));
            }
            l.push_back(t);
            i = e + 1;
        }
    }
    bool next(std::vector<std::string> &t) {
        if (at >= l.size()) return false;
        t = l[at++];
        return true;
    }
};
inline Verdict worst(Verdict a, Verdict b) {
    if (a == INVALID || b == INVALID) return INVALID;
    return a == UNCLEAR || b == UNCLEAR ? UNCLEAR : VALID;
}
inline Verdict real(const std::string &s, double &v) {
    const char *c = s.c_str();
    if (s.size() != strlen(c)) return INVALID;
    char *e;
    v = strtod(c, &e);
    if (e == c || *e) return INVALID;
    for (const char *p = c; *p; p++)
        if (!isdigit((unsigned char)*p) && !strchr("+-.eE", *p)) return UNCLEAR;  // inf, nan, hexadecimal
    if (!std::isfinite(v) || *c == '+') return UNCLEAR;
    return VALID;
}
inline Verdict integer(const std::string &s, long &v) {
    const char *c = s.c_str();
    if (s.size() != strlen(c)) return INVALID;
    char *e;
    v = strtol(c, &e, 10);
    if (e == c) return INVALID;
    if (*e) {
        double d;
        return real(s, d) == INVALID ? INVALID : UNCLEAR;  // 3.0 where an integer belongs
    }
    if (*c == '+' || v > INT_MAX || v < INT_MIN) return UNCLEAR;
    return VALID;
}
inline Verdict count(Lines &f, long &n) {
    std::vector<std::string> t;
    if (!f.next(t) || t.empty()) return INVALID;
    Verdict v = integer(t[0], n);
    if (v == INVALID) return v;
    if (n < 0) return INVALID;
    return t.size() > 1 ? UNCLEAR : v;
}
inline Verdict points(Lines &f, long n, std::vector<P> &out) {
    Verdict v = VALID;
    std::vector<std::string> t;
    for (long i = 0; i < n; i++) {
        if (!f.next(t) || t.size() < 2) return INVALID;
        P p;
        Verdict a = worst(real(t[0], p.x), real(t[1], p.y));
        if (a == INVALID) return INVALID;
        v = worst(v, t.size() > 2 ? UNCLEAR : a);
        out.push_back(p);
    }
    return v;
}
inline Verdict readSeeds(const std::string &s, std::vector<P> &out) {
    Lines f(s);
    long n = 0;
    Verdict v = count(f, n);
    if (v == INVALID) return v;
    v = worst(v, points(f, n, out));
    std::vector<std::string> t;
    while (v == VALID && f.next(t))
        if (!t.empty()) v = UNCLEAR;
    return v;
}
// Node lists are kept as in the file; duplicates are merged by the caller of the library only.
inline Verdict readMesh(const std::string &s, int start, bool triangles, MeshData &m, bool &hasEdges) {
    Lines f(s);
    long n = 0, k = 0;
    hasEdges = false;
    Verdict v = count(f, n);
    if (v == INVALID) return v;
    v = worst(v, points(f, n, m.pts));
    if (v == INVALID) return v;
    v = worst(v, count(f, k));
    if (v == INVALID) return v;
    std::vector<std::string> t;
    std::vector<std::array<long, 2>> listed;
    if (k > 0) {
        size_t save = f.at;
        if (!f.next(t)) return INVALID;
        f.at = save;
        if (t.size() == 2) {
            hasEdges = true;
            for (long i = 0; i < k; i++) {
                if (!f.next(t) || t.size() < 2) return INVALID;
                std::array<long, 2> e;
                Verdict a = worst(integer(t[0], e[0]), integer(t[1], e[1]));
                if (a == INVALID) return INVALID;
                v = worst(v, t.size() > 2 ? UNCLEAR : a);
                listed.push_back(e);
            }
            v = worst(v, count(f, k));
            if (v == INVALID) return v;
        }
    }
    std::map<P, int> first;  // equal nodes are one node
    std::vector<int> same;
    for (size_t i = 0; i < m.pts.size(); i++) same.push_back(first.insert({m.pts[i], (int)i}).first->second);
    auto one = [&](long i) { return i >= 0 && i < (long)same.size() ? same[i] : (int)i; };
    std::map<uint64_t, int> dir;
    for (long i = 0; i < k; i++) {
        if (!f.next(t) || t.empty()) return INVALID;
        long c = 0;
        Verdict a = integer(t[0], c);
        if (a == INVALID || c < 0) return INVALID;
        if ((long)t.size() < c + 1) return INVALID;
        if ((long)t.size() > c + 1 || c < 3 || (triangles && c != 3)) a = UNCLEAR;
        std::vector<int> cell;
        for (long j = 1; j <= c; j++) {
            long x = 0;
            Verdict b = integer(t[j], x);
            if (b == INVALID) return INVALID;
            if (b == VALID && (x < start || x - start >= n)) return INVALID;
            a = worst(a, b);
            cell.push_back((int)(x - start));
        }
        v = worst(v, a);
        std::set<int> u;
        for (int j : cell) u.insert(one(j));
        if (u.size() != cell.size()) v = worst(v, UNCLEAR);
        for (size_t j = 0; v == VALID && j < cell.size(); j++)
            if (++dir[geo::ekey(one(cell[j]), one(cell[(j + 1) % cell.size()]))] > 1) v = UNCLEAR;
        m.cells.push_back(cell);
    }
    if (n == 0 || k == 0) v = worst(v, UNCLEAR);
    while (v == VALID && f.next(t))
        if (!t.empty()) v = UNCLEAR;
    if (v != VALID) return v;
    for (size_t c = 0; c < m.cells.size(); c++)
        if (!geo::simple(geo::cellPoly(m, c))) return UNCLEAR;
    if (hasEdges) {  // an edge list that contradicts the cells
        std::set<uint64_t> a, b;
        for (auto &e : listed) a.insert(geo::ukey(one(e[0] - start), one(e[1] - start)));
        for (auto &d : dir) b.insert(geo::ukey((int)(d.first >> 32), (int)(uint32_t)d.first));
        if (a != b) return UNCLEAR;
    }
    std::vector<P> q = m.pts;  // nodes the library may or may not merge
    std::sort(q.begin(), q.end());
    for (size_t i = 0; i < q.size(); i++)
        for (size_t j = i + 1; j < q.size() && q[j].x - q[i].x < 1e-4; j++)
            if (!(q[i] == q[j]) && std::fabs(q[i].y - q[j].y) < 1e-4) return UNCLEAR;
    return VALID;
}

inline bool near(double file, double mem, int prec) {
    double t = 0.5000001 * std::pow(10.0, -prec) + 1e-12 * std::fabs(mem);
    return std::fabs(file - mem) <= t;
}
inline bool near(P a, P b, int prec) { return near(a.x, b.x, prec) && near(a.y, b.y, prec); }

// Does a written file say exactly what the object holds?  Returns what is wrong.
inline std::string meshFile(const std::string &s, const MeshData &m, int prec) {
    Lines f(s);
    long n;
    std::vector<P> p;
    if (!f.endsWithNewline) return "the file does not end with a complete line";
    if (count(f, n) != VALID || n != (long)m.pts.size()) return "wrong number of nodes";
    if (points(f, n, p) != VALID) return "a node line cannot be read";
    for (size_t i = 0; i < p.size(); i++)
        if (!near(p[i], m.pts[i], prec)) return geo::fmt("node %.0f is written as (%.9g, %.9g)", i, p[i].x, p[i].y);
    if (count(f, n) != VALID || n != (long)m.edges.size()) return "wrong number of segments";
    std::vector<std::string> t;
    std::set<uint64_t> want, have;
    for (auto &e : m.edges) want.insert(geo::ukey(e[0], e[1]));
    for (long i = 0; i < n; i++) {
        long a, b;
        if (!f.next(t) || t.size() != 2 || integer(t[0], a) != VALID || integer(t[1], b) != VALID)
            return "a segment line cannot be read";
        have.insert(geo::ukey((int)a, (int)b));
    }
    if (want != have) return "wrong segments";
    if (count(f, n) != VALID || n != (long)m.cells.size()) return "wrong number of polygons";
    for (long i = 0; i < n; i++) {
        if (!f.next(t)) return "a polygon line is missing";
        long v;
        if (t.size() != m.cells[i].size() + 1 || integer(t[0], v) != VALID || v != (long)m.cells[i].size())
            return geo::fmt("polygon %.0f is written with the wrong number of points", i);
        for (size_t k = 0; k < m.cells[i].size(); k++)
            if (integer(t[k + 1], v) != VALID || v != m.cells[i][k])
                return geo::fmt("polygon %.0f is written with wrong points", i);
    }
    if (f.next(t)) return "the file goes on after the polygons";
    return "";
}
inline std::string regionFile(const std::string &s, const std::vector<P> &pts, const std::vector<std::array<int, 2>> &segs, int prec) {
    Lines f(s);
    long n;
    std::vector<P> p;
    if (!f.endsWithNewline) return "the file does not end with a complete line";
    if (count(f, n) != VALID || n != (long)pts.size()) return "wrong number of points";
    if (points(f, n, p) != VALID) return "a point line cannot be read";
    for (size_t i = 0; i < p.size(); i++)
        if (!near(p[i], pts[i], prec)) return geo::fmt("point %.0f is written as (%.9g, %.9g)", i, p[i].x, p[i].y);
    if (count(f, n) != VALID || n != (long)segs.size()) return "wrong number of segments";
    std::vector<std::string> t;
    for (long i = 0; i < n; i++) {
        long a, b;
        if (!f.next(t) || t.size() != 2 || integer(t[0], a) != VALID || integer(t[1], b) != VALID || a != segs[i][0] || b != segs[i][1])
            return geo::fmt("segment %.0f is wrong", i);
    }
    if (count(f, n) != VALID || n != 0) return "the last line is not 0";
    if (f.next(t)) return "the file goes on after its end";
    return "";
}
inline std::string segmentFile(const std::string &s, const MeshData &m) {
    Lines f(s);
    if (!f.endsWithNewline) return "the file does not end with a complete line";
    std::map<uint64_t, std::array<int, 4>> want;
    for (auto &e : m.edges) want[geo::ukey(e[0], e[1])] = e;
    std::vector<std::string> t;
    size_t n = 0;
    std::set<uint64_t> seen;
    while (f.next(t)) {
        long v[4];
        if (t.size() != 4) return "a line does not hold two points and two neighbours";
        for (int i = 0; i < 4; i++)
            if (integer(t[i], v[i]) != VALID) return "a line cannot be read";
        auto it = want.find(geo::ukey((int)v[0], (int)v[1]));
        if (it == want.end()) return "a segment is listed that the mesh does not have";
        auto &e = it->second;
        if (!((v[2] == e[2] && v[3] == e[3]) || (v[2] == e[3] && v[3] == e[2]))) return "a segment is listed with wrong neighbours";
        if (!seen.insert(it->first).second) return "a segment is listed twice";
        n++;
    }
    return n == want.size() ? "" : "a segment is missing";
}
inline std::string pointFile(const std::string &s, const MeshData &m, int prec) {
    Lines f(s);
    if (!f.endsWithNewline) return "the file does not end with a complete line";
    std::vector<std::string> t;
    for (auto &e : m.pmap) {
        if (!f.next(t)) return "a point is missing";
        P p;
        if (t.size() != e.second.size() + 2 || real(t[0], p.x) != VALID || real(t[1], p.y) != VALID || !near(p, e.first, prec))
            return "a point is written wrongly";
        for (size_t k = 0; k < e.second.size(); k++) {
            long v;
            if (integer(t[k + 2], v) != VALID || v != e.second[k]) return "a point is written with wrong neighbours";
        }
    }
    return f.next(t) ? "the file goes on after its end" : "";
}
inline std::string polyFile(const std::string &s, const std::vector<P> &pts, const std::vector<std::array<int, 2>> &segs,
                            const std::vector<P> &holes, int prec) {
    Lines f(s);
    if (!f.endsWithNewline) return "the file does not end with a complete line";
    std::vector<std::string> t;
    auto ints = [&](std::vector<long> want) {
        if (!f.next(t) || t.size() != want.size()) return false;
        for (size_t i = 0; i < want.size(); i++) {
            long v;
            if (integer(t[i], v) != VALID || v != want[i]) return false;
        }
        return true;
    };
    if (!ints({(long)pts.size(), 2, 0, 0})) return "wrong point header";
    auto indexed = [&](const std::vector<P> &v) {
        for (size_t i = 0; i < v.size(); i++) {
            P p;
            long k;
            if (!f.next(t) || t.size() != 3 || integer(t[0], k) != VALID || k != (long)i || real(t[1], p.x) != VALID ||
                real(t[2], p.y) != VALID || !near(p, v[i], prec))
                return false;
        }
        return true;
    };
    if (!indexed(pts)) return "a point is written wrongly";
    if (!ints({(long)segs.size(), 0})) return "wrong segment header";
    for (size_t i = 0; i < segs.size(); i++)
        if (!ints({(long)i, segs[i][0], segs[i][1]})) return "a segment is written wrongly";
    if (!ints({(long)holes.size()})) return "wrong number of holes";
    if (!indexed(holes)) return "a hole is written wrongly";
    return f.next(t) ? "the file goes on after its end" : "";
}

}  // namespace files

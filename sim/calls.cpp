// Compiled like the library itself: instrumented, so that what the headers define is under the scheduler too.
#include "calls.h"

#include <cxxabi.h>
#include <typeinfo>

#include <delynoi/config/DelynoiConfig.h>
#include <delynoi/models/Mesh.h>
#include <delynoi/models/Region.h>
#include <delynoi/models/generator/PointGenerator.h>
#include <delynoi/models/generator/functions/functions.h>
#include <delynoi/models/generator/noise/noise.h>
#include <delynoi/models/hole/CircularHole.h>
#include <delynoi/models/hole/PolygonalHole.h>
#include <delynoi/triangulation/CenterTriangulationGenerator.h>
#include <delynoi/triangulation/DelaunayTriangulationGenerator.h>
#include <delynoi/triangulation/EarTriangulationGenerator.h>
#include <delynoi/voronoi/DelaunayToVoronoi.h>
#include <delynoi/voronoi/TriangleDelaunayGenerator.h>
#include <delynoi/voronoi/TriangleVoronoiGenerator.h>

namespace lib {

struct Reg : public Region {
    Reg(std::vector<Point> &p) : Region(p) {}
    Reg() : Region() {}
    Reg(const Reg &r) : Region(r) {}
};
struct Gen {
    TriangleDelaunayGenerator g;
    Gen(const std::vector<Point> &p, const Region &r) : g(p, r) {}
};
struct VGen {
    TriangleVoronoiGenerator g;
    VGen(std::vector<Point> &p, const Region &r) : g(p, r) {}
};
struct Mesh {
    ::Mesh<Polygon> *v;
    ::Mesh<Triangle> *t;
    bool owned;
};

static std::vector<Point> pts(const std::vector<P> &v) {
    std::vector<Point> r;
    r.reserve(v.size());
    for (size_t i = 0; i < v.size(); i++) r.push_back(Point(v[i].x, v[i].y));
    return r;
}
static P pt(const Point &p) {
    P r;
    r.x = p.getX();
    r.y = p.getY();
    return r;
}

struct UserError : public std::runtime_error {
    UserError() : std::runtime_error("user code failed") {}
};

template <class F>
static Out run(const Faults *f, F body) {
    Out o;
    rt::enterOp(f);
    try {
        body();
        o.cnt = rt::leaveOp();
    } catch (std::exception &e) {
        o.cnt = rt::leaveOp();
        o.threw = true;
        int st = 0;
        char *n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
        o.type = n ? n : typeid(e).name();
        o.what = e.what();
    } catch (...) {
        o.cnt = rt::leaveOp();
        o.threw = true;
        o.type = "unknown";
    }
    return o;
}

// ---------------------------------------------------------------- regions

RegView view(Reg *r) {
    RegView v;
    std::vector<Point> all = r->getRegionPoints();
    std::vector<Hole> &hs = r->getHoles();
    size_t inHoles = 0;
    for (size_t i = 0; i < hs.size(); i++) {
        std::vector<Point> p = hs[i].getPoints();
        Poly q;
        for (size_t k = 0; k < p.size(); k++) q.push_back(pt(p[k]));
        inHoles += q.size();
        v.holes.push_back(q);
        v.centers.push_back(pt(hs[i].getCenter()));
    }
    for (size_t i = 0; i < all.size(); i++) {
        v.all.push_back(pt(all[i]));
        if (i + inHoles < all.size()) v.outer.push_back(pt(all[i]));
    }
    std::vector<Point> s = r->getSeedPoints();
    for (size_t i = 0; i < s.size(); i++) v.seeds.push_back(pt(s[i]));
    std::vector<IndexSegment> segs;
    r->getSegments(segs);
    for (size_t i = 0; i < segs.size(); i++) {
        std::array<int, 2> a = {{segs[i].getFirst(), segs[i].getSecond()}};
        v.segs.push_back(a);
    }
    v.sides = r->numberOfSides();
    if (v.sides > 2 && (size_t)v.sides <= all.size()) {
        std::vector<Point> outer(all.begin(), all.begin() + v.outer.size());
        v.area = r->getArea(outer);
        v.centroid = pt(r->getCentroid(outer));
        BoundingBox b = r->getBox();
        v.lo.x = b.xMin();
        v.lo.y = b.yMin();
        v.hi.x = b.xMax();
        v.hi.y = b.yMax();
    }
    return v;
}

Out regNew(const Poly &p, const Faults *f, Reg *&r) {
    std::vector<Point> v = pts(p);
    return run(f, [&] { r = new Reg(v); });
}
Out regDefault(const Faults *f, Reg *&r) {
    return run(f, [&] { r = new Reg(); });
}
Out regCopy(Reg *a, const Faults *f, Reg *&b) {
    return run(f, [&] { b = new Reg(*a); });
}
Out regAssign(Reg *from, const Faults *f, Reg *to) {
    return run(f, [&] { *static_cast<Region *>(to) = *static_cast<Region *>(from); });
}
Out regDrop(Reg *r, const Faults *f) {
    return run(f, [&] { delete r; });
}
Out regMutate(Reg *r, const Poly &p, const Faults *f) {
    std::vector<Point> v = pts(p);
    return run(f, [&] { r->mutate(v); });
}
static Hole makeHole(const HoleSpec &h, std::vector<Point> &v) {
    if (h.circle) {
        CircularHole c(Point(h.c.x, h.c.y), h.r);
        return c;
    }
    PolygonalHole p(v);
    return p;
}
Out arcPoints(P center, double radius, double from, double to, const Faults *f, Poly &out) {
    std::vector<Point> got;
    Out o = run(f, [&] { got = delynoi_utilities::generateArcPoints(Point(center.x, center.y), radius, from, to); });
    out.clear();
    for (size_t i = 0; i < got.size(); i++) out.push_back(pt(got[i]));
    return o;
}
Out holePoints(const HoleSpec &h, const Faults *f, Poly &out, P &center) {
    std::vector<Point> v = pts(h.poly), got;
    Point c;
    Out o = run(f, [&] {
        Hole q = makeHole(h, v);
        got = q.getPoints();
        c = q.getCenter();
    });
    out.clear();
    for (size_t i = 0; i < got.size(); i++) out.push_back(pt(got[i]));
    center = pt(c);
    return o;
}
Out regHole(Reg *r, HoleSpec &h, const Faults *f) {
    std::vector<Point> v = pts(h.poly);
    return run(f, [&] {
        if (h.circle) {
            CircularHole c(Point(h.c.x, h.c.y), h.r);
            std::vector<Point> p = c.getPoints();
            bool same = p.size() == h.shape.size();
            for (size_t i = 0; same && i < p.size(); i++) same = p[i].getX() == h.shape[i].x && p[i].getY() == h.shape[i].y;
            h.other = !same;
            if (same) r->addHole(c);
        } else {
            r->addHole(PolygonalHole(v));
        }
    });
}
Out regCleanHoles(Reg *r, const Faults *f) {
    return run(f, [&] { r->cleanInternalHoles(); });
}
Out regCleanSeeds(Reg *r, const Faults *f) {
    return run(f, [&] { r->cleanSeedPoints(); });
}
Out regSeeds(Reg *r, const std::vector<P> &s, const Faults *f) {
    std::vector<Point> v = pts(s);
    return run(f, [&] { r->addSeedPoints(v); });
}
Out regSeedFile(Reg *r, const std::string &n, const Faults *f) {
    return run(f, [&] { r->addSeedsFromFile(n); });
}
Out regPrint(Reg *r, const std::string &n, const Faults *f) {
    return run(f, [&] { r->printInFile(n); });
}
Out regQuery(Reg *r, const std::vector<P> &q, const Faults *f, std::vector<int> &a) {
    std::vector<Point> v = pts(q);
    a.clear();
    a.reserve(2 * q.size());
    return run(f, [&] {
        a.clear();
        for (size_t i = 0; i < v.size(); i++) {
            a.push_back(r->containsPoint(v[i]));
            a.push_back(r->inEdges(v[i]));
        }
    });
}

// ---------------------------------------------------------------- seed point generation

struct UserFunctor : public Functor {
    double k;
    UserFunctor(double k) : k(k) {}
    double apply(double x) {
        rt::seamPoint();
        if (rt::userFault()) throw UserError();
        return x + k;
    }
};
static Functor *functor(const std::string &s) {
    size_t sl = s.find('/');
    std::string head = s.substr(0, sl), name = head.substr(0, head.find(':'));
    double a[3] = {0, 0, 0};
    size_t at = head.find(':');
    for (int i = 0; i < 3 && at != std::string::npos; i++) {
        a[i] = atof(head.c_str() + at + 1);
        at = head.find(':', at + 1);
    }
    if (name == "const") return functions::constant();
    if (name == "disp") return functions::displace_points(a[0]);
    if (name == "alt") return functions::constantAlternating();
    if (name == "uni") return functions::uniform(a[0]);
    if (name == "sin") return functions::sine(a[0], a[1], a[2]);
    if (name == "cos") return functions::cosine(a[0], a[1], a[2]);
    if (name == "rint") return functions::random_integer(a[0], a[1]);
    if (name == "rdbl") return functions::random_double(a[0], a[1]);
    if (name == "rdn") return noise::random_double_noise(functor(s.substr(sl + 1)), a[0], a[1]);
    if (name == "rin") return noise::random_integer_noise(functor(s.substr(sl + 1)), a[0], a[1]);
    return new UserFunctor(a[0]);
}
static PointGenerator makeGen(const GenSpec &g) {
    if (g.which == 1) return PointGenerator(functor(g.y), functions::x);
    if (g.which == 2) return PointGenerator(functor(g.x), functions::y);
    Functor *x = functor(g.x);
    return PointGenerator(x, functor(g.y));
}
Out regGenerate(Reg *r, const GenSpec &g, const Faults *f) {
    return run(f, [&] { r->generateSeedPoints(makeGen(g), g.nX, g.nY); });
}
Out pointGenerate(const GenSpec &g, P lo, P hi, int keep, const Faults *f, std::vector<P> &out) {
    std::vector<Point> v;
    Out o = run(f, [&] {
        v.clear();
        for (int i = 0; i < keep; i++) v.push_back(Point(i, -i));
        PointGenerator p = makeGen(g);
        p.generate(v, BoundingBox(Point(lo.x, lo.y), Point(hi.x, hi.y)), g.nX, g.nY);
    });
    out.clear();
    for (size_t i = 0; i < v.size(); i++) out.push_back(pt(v[i]));
    return o;
}
Out apply(const std::string &fn, const std::vector<double> &xs, const Faults *f, std::vector<double> &ys) {
    ys.assign(xs.size(), 0);
    return run(f, [&] {
        Functor *q = functor(fn);
        for (size_t i = 0; i < xs.size(); i++) ys[i] = q->apply(xs[i]);
    });
}

// ---------------------------------------------------------------- meshes

Out vor(Reg *r, const std::vector<P> &seeds, bool own, const Faults *f, VGen *&g, Mesh *&v, Mesh *&t) {
    std::vector<Point> s = pts(seeds);
    g = nullptr;
    v = t = nullptr;
    ::Mesh<Polygon> *a = nullptr, *b = nullptr;
    Out o = run(f, [&] {
        if (own) {  // as in the README: copies of what a temporary generator answers
            TriangleVoronoiGenerator gen(s, *r);
            a = new ::Mesh<Polygon>(gen.getMesh());
            b = new ::Mesh<Polygon>(gen.getTriangulation());
        } else {
            g = new VGen(s, *r);
            a = &g->g.getMesh();
            b = &g->g.getTriangulation();
        }
    });
    if (o.threw) {
        g = nullptr;
        return o;
    }
    v = new Mesh{a, nullptr, own};
    t = new Mesh{b, nullptr, own};
    return o;
}
Out vgenDrop(VGen *g, const Faults *f) {
    return run(f, [&] { delete g; });
}
Out genNew(Reg *r, const std::vector<P> &seeds, const Faults *f, Gen *&g) {
    std::vector<Point> s = pts(seeds);
    return run(f, [&] { g = new Gen(s, *r); });
}
Out genDrop(Gen *g, const Faults *f) {
    return run(f, [&] { delete g; });
}
Out genMesh(Gen *g, Kind k, const std::vector<std::array<P, 2>> &segs, const Faults *f, Mesh *&m) {
    std::vector<PointSegment> rs;
    for (size_t i = 0; i < segs.size(); i++)
        rs.push_back(PointSegment(Point(segs[i][0].x, segs[i][0].y), Point(segs[i][1].x, segs[i][1].y)));
    ::Mesh<Triangle> *t = nullptr;
    m = nullptr;
    Out o = run(f, [&] {
        if (k == CONFORMING)
            t = new ::Mesh<Triangle>(g->g.getConformingDelaunayTriangulation());
        else if (k == CONSTRAINED)
            t = new ::Mesh<Triangle>(g->g.getConstrainedDelaunayTriangulation());
        else
            t = new ::Mesh<Triangle>(g->g.getConstrainedDelaunayTriangulation(rs));
    });
    if (!o.threw) m = new Mesh{nullptr, t, true};
    return o;
}
Out genVoronoi(Gen *g, const Faults *f, Mesh *&v, Mesh *&t) {
    ::Mesh<Polygon> *a = nullptr, *b = nullptr;
    v = t = nullptr;
    Out o = run(f, [&] {
        DelaunayInfo d = g->g.getConformingDelaunay();
        b = new ::Mesh<Polygon>(g->g.initializeMesh<Polygon>());
        a = new ::Mesh<Polygon>(DelaunayToVoronoi(d).getMesh());
    });
    if (!o.threw) {
        v = new Mesh{a, nullptr, true};
        t = new Mesh{b, nullptr, true};
    }
    return o;
}
static std::vector<Triangle> parts(int kind, Polygon &poly, std::vector<Point> &v) {
    EarTriangulationGenerator ear;
    CenterTriangulationGenerator center;
    DelaunayTriangulationGenerator delaunay;
    TriangulationGenerator *g[] = {&ear, &center, &delaunay};
    return g[kind % 3]->triangulate(poly, v);
}
static void partsOut(std::vector<Point> &v, std::vector<Triangle> &ts, std::vector<P> &outPts, std::vector<std::array<int, 3>> &out) {
    for (size_t i = 0; i < v.size(); i++) outPts.push_back(pt(v[i]));
    for (size_t i = 0; i < ts.size(); i++) {
        std::vector<int> q = ts[i].getPoints();
        std::array<int, 3> a = {{q.size() == 3 ? q[0] : -1, q.size() > 1 ? q[1] : -1, q.size() > 2 ? q[2] : -1}};
        out.push_back(a);
    }
}
template <class T>
static void answers(T &c, std::vector<Point> &v, const std::vector<int> &asks, const std::vector<P> &probes, std::vector<Answer> &out) {
    for (size_t k = 0; k < asks.size(); k++) {
        Answer x = {asks[k], 0, 0};
        Point q = probes.empty() ? Point(0, 0) : Point(probes[k % probes.size()].x, probes[k % probes.size()].y);
        Point r;
        switch (asks[k]) {
            case AREA: x.a = c.getArea(v); break;
            case SIGNED: x.a = c.signedArea(v); break;
            case DIAMETER: x.a = c.getDiameter(v); break;
            case CENTROID: r = c.getCentroid(v); x.a = r.getX(); x.b = r.getY(); break;
            case AVERAGE: r = c.getAverage(v); x.a = r.getX(); x.b = r.getY(); break;
            case LONGEST: x.a = c.getMaxDistance(v); break;
            case CONVEX: x.a = c.isConvex(v); break;
            case CLOCKWISE: x.a = c.isClockwise(v); break;
            case CONTAINS: x.a = c.containsPoint(v, q); break;
            case ONEDGE: x.a = c.inEdges(v, q); break;
            case CORNERS: {
                std::vector<Point> l = c.getPoints(v);
                std::vector<int> ix = static_cast<const T &>(c).getPoints();
                x.a = l.size() == ix.size();
                for (size_t i = 0; x.a && i < l.size(); i++) x.a = l[i].getX() == v[ix[i]].getX() && l[i].getY() == v[ix[i]].getY();
                break;
            }
            case SIDES: x.a = c.numberOfSides(); break;
            case SELFCROSS: x.a = c.isSelfIntersecting(v); break;
            case FIXCCW: c.fixCCW(v); break;
            case COPY: {
                T d(c);
                c = d;
                break;
            }
            default: break;
        }
        out.push_back(x);
    }
}
Out cellMeasures(Mesh *m, int cell, bool itself, const std::vector<int> &asks, const std::vector<P> &probes, const Faults *f, std::vector<Answer> &out) {
    return run(f, [&] {
        out.clear();
        std::vector<Point> w = m->v ? m->v->getPoints().getList() : m->t->getPoints().getList();
        if (itself && m->v) return answers(m->v->getPolygon(cell), w, asks, probes, out);
        if (itself) return answers(m->t->getPolygon(cell), w, asks, probes, out);
        if (m->v) {
            Polygon c = m->v->getPolygon(cell);
            return answers(c, w, asks, probes, out);
        }
        Triangle c = m->t->getPolygon(cell);
        answers(c, w, asks, probes, out);
    });
}
Out polyMeasures(const Poly &p, const std::vector<P> &others, const std::vector<int> &asks, const std::vector<P> &probes, const Faults *f, std::vector<Answer> &out) {
    std::vector<Point> v = pts(others), own = pts(p);
    std::vector<int> idx;
    size_t at = v.size() / 2;
    for (size_t i = 0; i < p.size(); i++) {
        v.insert(v.begin() + at + i, Point(p[i].x, p[i].y));
        idx.push_back((int)(at + i));
    }
    return run(f, [&] {
        out.clear();
        size_t k = 0;
        while (k < asks.size() && asks[k] != MUTATED) k++;
        Polygon c(idx, v);
        std::vector<int> first(asks.begin(), asks.begin() + k), rest(asks.begin() + k, asks.end());
        answers(c, v, first, probes, out);
        if (rest.empty()) return;
        double q = mutateScale(asks);  // other corners, or the same, now a list of their own
        std::vector<P> turned, scaled = p;
        for (auto &x : scaled) x = {x.x * q, x.y * q};
        own = pts(scaled);
        c.mutate(own);
        for (size_t i = 0; i < rest.size() && !probes.empty(); i++) {
            P x = probes[(k + i) % probes.size()];
            turned.push_back({x.x * q, x.y * q});
        }
        answers(c, own, rest, turned, out);
    });
}
// the polygon is somewhere in a list of points
Out polyTriangles(int kind, const Poly &p, const std::vector<P> &others, const Faults *f, std::vector<P> &outPts, std::vector<std::array<int, 3>> &out) {
    std::vector<Point> v = pts(others);
    std::vector<int> idx;
    size_t at = v.size() / 2;
    for (size_t i = 0; i < p.size(); i++) {
        v.insert(v.begin() + at + i, Point(p[i].x, p[i].y));
        idx.push_back((int)(at + i));
    }
    std::vector<Triangle> ts;
    std::vector<Point> w;
    Out o = run(f, [&] {
        w = v;
        Polygon poly(idx, w);
        ts = parts(kind, poly, w);
    });
    outPts.clear();
    out.clear();
    if (!o.threw) partsOut(w, ts, outPts, out);
    return o;
}
Out cellTriangles(Mesh *m, int kind, int cell, const Faults *f, std::vector<P> &outPts, std::vector<std::array<int, 3>> &out) {
    std::vector<Triangle> ts;
    std::vector<Point> w;
    Out o = run(f, [&] {
        w = m->v ? m->v->getPoints().getList() : m->t->getPoints().getList();
        Polygon poly = m->v ? m->v->getPolygon(cell) : m->t->getPolygon(cell);
        ts = parts(kind, poly, w);
    });
    outPts.clear();
    out.clear();
    if (!o.threw) partsOut(w, ts, outPts, out);
    return o;
}

Out meshCopy(Mesh *m, const Faults *f, Mesh *&c) {
    ::Mesh<Polygon> *v = nullptr;
    ::Mesh<Triangle> *t = nullptr;
    Out o = run(f, [&] {
        if (m->v) v = new ::Mesh<Polygon>(*m->v);
        if (m->t) t = new ::Mesh<Triangle>(*m->t);
    });
    c = o.threw ? nullptr : new Mesh{v, t, true};
    return o;
}
Out meshAssign(Mesh *from, const Faults *f, Mesh *to) {
    return run(f, [&] {
        if (from->v && to->v) *to->v = *from->v;
        if (from->t && to->t) *to->t = *from->t;
    });
}
Out meshDrop(Mesh *m, const Faults *f) {
    return run(f, [&] {
        if (m->owned) {
            delete m->v;
            delete m->t;
        }
    });
}
static void more(Polygon &, MeshView &) {}
static void more(Triangle &c, MeshView &o) { o.circ.push_back(pt(c.getCircumcenter())); }
// what a cell says about its own edges and vertices
template <class T>
static void ownEdges(T &c, const std::vector<int> &ix, MeshView &o) {
    size_t n = ix.size();
    std::vector<IndexSegment> s;
    c.getSegments(s);
    bool ok = s.size() == n && c.numberOfSides() == (int)n;
    for (size_t k = 0; ok && k < n; k++) {
        int a = ix[k], b = ix[(k + 1) % n], far = ix[(k + 2) % n];
        ok = s[k].getFirst() == a && s[k].getSecond() == b;
        IndexSegment e(a, b), r(b, a), d(a, far), w(a, -5);
        ok = ok && c.containsEdge(e) && c.containsEdge(r) && !c.containsEdge(w) && c.isVertex(a) && !c.isVertex(-5);
        if (n > 3) ok = ok && !c.containsEdge(d);
    }
    if (!ok) o.inconsistent = "a cell does not know its own edges and vertices";
}
template <class T>
static void grab(::Mesh<T> &m, bool measures, MeshView &o) {
    UniqueList<Point> &p = m.getPoints();
    int n = p.size();
    for (int i = 0; i < n; i++) {
        o.d.pts.push_back(pt(p[i]));
        o.boundary.push_back(p[i].isInBoundary());
        if (!(pt(m.getPoint(i)) == o.d.pts.back())) o.inconsistent = "getPoint and getPoints differ";
    }
    std::vector<Point> &list = p.getList();
    std::vector<T> &cells = m.getPolygons();
    for (size_t c = 0; c < cells.size(); c++) {
        o.d.cells.push_back(cells[c].getPoints());
        bool sound = true;
        for (size_t k = 0; k < o.d.cells.back().size(); k++)
            sound = sound && o.d.cells.back()[k] >= 0 && o.d.cells.back()[k] < n;
        if (static_cast<const T &>(m.getPolygon((int)c)).getPoints() != o.d.cells.back()) o.inconsistent = "getPolygon and getPolygons differ";
        if (!sound || !measures) continue;
        o.area.push_back(cells[c].getArea(list));
        o.centroid.push_back(pt(cells[c].getCentroid(list)));
        o.diameter.push_back(cells[c].getDiameter(list));
        more(cells[c], o);
        ownEdges(cells[c], o.d.cells.back(), o);
    }
    SegmentMap *s = m.getSegments();
    if (s) {
        for (auto &e : s->getMap()) {
            std::array<int, 4> a = {{e.first.getFirst(), e.first.getSecond(), e.second.getFirst(), e.second.getSecond()}};
            o.d.edges.push_back(a);
        }
        if (s->size() != (int)o.d.edges.size()) o.inconsistent = "the number of segments is wrong";
    }
    PointMap *q = m.getPointMap();
    if (q) {
        for (auto &e : q->getMap()) o.d.pmap.push_back(std::make_pair(pt(e.first), e.second.getNeighbours()));
        if (q->size() != (int)o.d.pmap.size()) o.inconsistent = "the number of points in the point map is wrong";
    }
    for (size_t i = 0; i < o.d.edges.size(); i++) {
        NeighboursBySegment nb = m.getNeighbours(IndexSegment(o.d.edges[i][0], o.d.edges[i][1]));
        NeighboursBySegment nr = m.getNeighbours(IndexSegment(o.d.edges[i][1], o.d.edges[i][0]));
        if (nb.getFirst() != o.d.edges[i][2] || nb.getSecond() != o.d.edges[i][3] || nr.getFirst() != o.d.edges[i][2] ||
            nr.getSecond() != o.d.edges[i][3])
            o.inconsistent = "getNeighbours and the segment map differ";
    }
}
static void grab(Mesh *m, bool measures, MeshView &o) {
    if (m->v) grab(*m->v, measures, o);
    if (m->t) grab(*m->t, measures, o);
}
MeshView view(Mesh *m, bool measures) {
    MeshView v;
    grab(m, measures, v);
    return v;
}
Out meshQuery(Mesh *m, bool measures, const Faults *f, MeshView &v) {
    return run(f, [&] {
        v = MeshView();
        grab(m, measures, v);
    });
}
Out meshNeighbours(Mesh *m, const std::vector<std::array<int, 2>> &q, const Faults *f, std::vector<Neigh> &a) {
    a.clear();
    a.reserve(q.size());
    return run(f, [&] {
        a.clear();
        for (size_t i = 0; i < q.size(); i++) {
            IndexSegment s(q[i][0], q[i][1]);
            NeighboursBySegment n = m->v ? m->v->getNeighbours(s) : m->t->getNeighbours(s);
            Neigh r = {n.getFirst(), n.getSecond()};
            a.push_back(r);
        }
    });
}
Out meshPrint(Mesh *m, const std::string &n, const Faults *f) {
    return run(f, [&] {
        if (m->v) m->v->printInFile(n);
        if (m->t) m->t->printInFile(n);
    });
}
Out segPrint(Mesh *m, const std::string &n, const Faults *f) {
    return run(f, [&] { (m->v ? m->v->getSegments() : m->t->getSegments())->printInFile(n); });
}
Out pointPrint(Mesh *m, const std::string &n, const Faults *f) {
    return run(f, [&] { (m->v ? m->v->getPointMap() : m->t->getPointMap())->printInFile(n); });
}
Out trianglePrint(Reg *r, const Faults *f) {
    std::vector<Point> none;
    TriangleDelaunayGenerator g(none, *r);
    UniqueList<Point> list;
    std::vector<Point> s = r->getSeedPoints(), p = r->getRegionPoints();
    list.push_list(s);
    std::vector<int> idx = list.push_list(p);
    return run(f, [&] { g.writeTriangleInputFile(list, *r, idx); });
}
Out meshNew(bool tri, const Faults *f, Mesh *&m) {
    ::Mesh<Polygon> *v = nullptr;
    ::Mesh<Triangle> *t = nullptr;
    Out o = run(f, [&] {
        if (tri)
            t = new ::Mesh<Triangle>();
        else
            v = new ::Mesh<Polygon>();
    });
    m = o.threw ? nullptr : new Mesh{v, t, true};
    return o;
}
Out meshRead(Mesh *m, const std::string &n, int start, const Faults *f) {
    return run(f, [&] {
        if (m->v) m->v->createFromFile(n, start);
        if (m->t) m->t->createFromFile(n, start);
    });
}
bool isTri(Mesh *m) { return m->t; }

// ---------------------------------------------------------------- containers and texts

struct List {
    bool ints;
    UniqueList<Point> p;
    UniqueList<int> i;
};
struct Maps {
    SegmentMap s;
    PointMap p;
};
bool listInts(List *l) { return l->ints; }
ListView view(List *l) {
    ListView v;
    v.size = l->ints ? l->i.size() : l->p.size();
    std::vector<Point> a = l->p.getList();
    std::vector<int> b = l->i.getList();
    for (size_t k = 0; k < a.size(); k++) v.items.push_back(pt(a[k]));
    for (size_t k = 0; k < b.size(); k++) v.items.push_back(P{(double)b[k], 0});
    for (int k = 0; k < v.size && v.size == (int)v.items.size(); k++) {
        P q = l->ints ? P{(double)l->i[k], 0} : pt(l->p[k]);
        if (!(q == v.items[k])) v.size = -1;
    }
    return v;
}
Out listNew(bool ints, const Faults *f, List *&l) {
    return run(f, [&] {
        l = new List();
        l->ints = ints;
    });
}
Out listCopy(List *l, const Faults *f, List *&c) {
    return run(f, [&] { c = new List(*l); });
}
Out listDo(List *l, ListOp op, P v, const Faults *f, int &answer) {
    answer = -1;
    Point p(v.x, v.y);
    int i = (int)v.x;
    return run(f, [&] {
        if (op == PUSH) answer = l->ints ? l->i.push_back(i) : l->p.push_back(p);
        if (op == FORCE) answer = l->ints ? l->i.force_push_back(i) : l->p.force_push_back(p);
        if (op == POP) l->ints ? l->i.pop_front() : l->p.pop_front();
        if (op == DEL) l->ints ? l->i.delete_element(i) : l->p.delete_element(p);
        if (op == CLEAR) l->ints ? l->i.clear() : l->p.clear();
    });
}
Out listMany(List *l, const std::vector<P> &v, const Faults *f, std::vector<int> &a) {
    std::vector<Point> p = pts(v);
    std::vector<int> i;
    for (size_t k = 0; k < v.size(); k++) i.push_back((int)v[k].x);
    return run(f, [&] { a = l->ints ? l->i.push_list(i) : l->p.push_list(p); });
}
Out listFrom(List *l, List *from, const Faults *f, std::vector<int> &a) {
    return run(f, [&] { a = l->ints ? l->i.push_list(from->i) : l->p.push_list(from->p); });
}
Out listSwap(List *a, List *b, const Faults *f) {
    return run(f, [&] { a->ints ? a->i.swap(b->i) : a->p.swap(b->p); });
}
Out listQuery(List *l, const std::vector<P> &v, const Faults *f, std::vector<int> &a) {
    std::vector<Point> p = pts(v);
    a.clear();
    a.reserve(2 * v.size());
    return run(f, [&] {
        a.clear();
        for (size_t k = 0; k < p.size(); k++) {
            int i = (int)v[k].x;
            a.push_back(l->ints ? l->i.indexOf(i) : l->p.indexOf(p[k]));
            a.push_back(l->ints ? l->i.contains(i) : l->p.contains(p[k]));
        }
    });
}
Out listPair(List *l, List *k, const Faults *f, std::vector<int> &a) {
    a.assign(2, 0);
    return run(f, [&] {
        a[0] = l->ints ? l->i == k->i : l->p == k->p;
        a[1] = l->ints ? l->i.hasCommonElement(k->i) : l->p.hasCommonElement(k->p);
    });
}
Out mapsNew(const Faults *f, Maps *&m) {
    return run(f, [&] { m = new Maps(); });
}
Out mapsCopy(Maps *m, const Faults *f, Maps *&c) {
    return run(f, [&] { c = new Maps(*m); });
}
Out segInsert(Maps *m, const std::array<int, 4> &v, bool both, const Faults *f) {
    return run(f, [&] {
        if (both)
            m->s.insert(IndexSegment(v[0], v[1]), NeighboursBySegment(v[2], v[3]));
        else
            m->s.insert(IndexSegment(v[0], v[1]), v[2]);
    });
}
Out pointInsert(Maps *m, P v, const std::vector<int> &n, bool list, const Faults *f) {
    Point p(v.x, v.y);
    std::vector<int> c = n;
    return run(f, [&] {
        if (list)
            m->p.insert(p, c);
        else
            m->p.insert(p, c[0]);
    });
}
Out mapsQuery(Maps *m, const std::vector<std::array<int, 2>> &s, const std::vector<P> &p, const Faults *f, std::vector<int> &a) {
    a.clear();
    a.reserve(1000);
    return run(f, [&] {
        a.clear();
        a.push_back(m->s.size());
        a.push_back(m->p.size());
        for (size_t i = 0; i < s.size(); i++) {
            IndexSegment x(s[i][0], s[i][1]);
            bool in = m->s.containsSegment(x);
            a.push_back(in);
            if (in) {
                NeighboursBySegment n = m->s.get(x);
                a.push_back(n.getFirst());
                a.push_back(n.getSecond());
            }
        }
        for (size_t i = 0; i < p.size(); i++) {
            Point q(p[i].x, p[i].y);
            bool in = m->p.getMap().find(q) != m->p.getMap().end();
            a.push_back(in);
            if (in) {
                std::vector<int> n = m->p.get(q).getNeighbours();
                a.insert(a.end(), n.begin(), n.end());
            }
        }
    });
}
Out segPrint(Maps *m, const std::string &n, const Faults *f) {
    return run(f, [&] { m->s.printInFile(n); });
}
Out pointPrint(Maps *m, const std::string &n, const Faults *f) {
    return run(f, [&] { m->p.printInFile(n); });
}
MapsView view(Maps *m) {
    MapsView v;
    for (auto &e : m->s.getMap()) {
        std::array<int, 4> a = {{e.first.getFirst(), e.first.getSecond(), e.second.getFirst(), e.second.getSecond()}};
        v.d.edges.push_back(a);
    }
    for (auto &e : m->p.getMap()) v.d.pmap.push_back(std::make_pair(pt(e.first), e.second.getNeighbours()));
    v.segs = m->s.size();
    v.pts = m->p.size();
    return v;
}
Out text(int kind, const std::vector<double> &v, const Faults *f, std::string &s) {
    return run(f, [&] {
        int a = (int)v[0], b = (int)v[1];
        if (kind == 0) s = utilities::toString<int>(a);
        if (kind == 1) s = utilities::toStringWithPrecision(v[2], a);
        if (kind == 2) s = IndexSegment(a, b).getString();
        if (kind == 3) s = NeighboursBySegment(a, b).getString();
        if (kind == 4) s = EdgeData(a, b).getString();
        if (kind == 5) {
            std::vector<int> idx;
            std::vector<Point> p;
            for (int i = 0; i < 4; i++) {
                idx.push_back(i);
                p.push_back(Point(i % 3 ? 1 : 0, i / 2));
            }
            s = Polygon(idx, p).getString();
        }
    });
}

// what the geometry underneath answers: its truth is not judged here, only that it is the same for everybody at any time
Out geometry(int kind, const std::vector<P> &v, int n, const Faults *f, std::vector<double> &a, std::string &s) {
    std::vector<Point> p = pts(v);
    auto pa = [&](const Point &q) {
        a.push_back(q.getX());
        a.push_back(q.getY());
    };
    int m = (int)p.size(), k = n % m;
    Point c = p[k], d = p[(k + 1) % m], e = p[(k + 2) % m];
    return run(f, [&] {
        if (kind == 0) {
            s = c.getString();
            a.push_back(c.squareNorm());
            a.push_back(c == d);
            a.push_back(c < d);
            pa(c - d);
            a.push_back(delynoi_utilities::orientation(c, d, e));
            a.push_back(geometry_functions::area2(c, d, e));
            a.push_back(geometry_functions::collinear(c, d, e));
            a.push_back(geometry_functions::area(p));
            a.push_back(utilities::hash32(n));
            a.push_back(utilities::degrees(1 + n % 6));
            a.push_back(utilities::radian(n % 360));
            a.push_back(utilities::normalize(Pair<double>(1 + c.getX() * c.getX(), c.getY())).first);
        }
        if (kind == 1) {
            PointSegment g(c, d), h(d, e);
            s = g.getString();
            a.push_back(g.length());
            a.push_back(g.cartesianAngle());
            a.push_back(g == h);
            for (int i = 0; i < m; i++) {
                a.push_back(g.contains(p[i]));
                a.push_back(g.isVertex(p[i]));
            }
        }
        if (kind == 2) {
            IndexSegment g(k, (k + 1) % m), h((k + 2) % m, (k + 3) % m), t = g.add(n % 5);
            PointSegment o(d, e);
            Point x(0, 0);
            s = g.getString() + t.getString();
            a.push_back(g.length(p));
            a.push_back(g.cartesianAngle(p));
            pa(g.middlePoint(p));
            a.push_back(g.contains(p, e));
            a.push_back(g.contains(p, h));
            a.push_back(g.isContained(o, p));
            a.push_back(g.isCCW(p, e));
            a.push_back(g == h);
            a.push_back(g < h);
            a.push_back((double)g.hash);
            if (g.intersection(p, h, x)) pa(x);
            if (g.intersection(p, o, x)) pa(x);
            h.orderCCW(p, c);
            a.push_back(h.getFirst());
        }
        if (kind == 3) {
            BoundingBox b(c, d), o(d, e);
            a.push_back(b.getWidth());
            a.push_back(b.getHeight());
            a.push_back(b.xMin());
            a.push_back(b.xMax());
            a.push_back(b.yMin());
            a.push_back(b.yMax());
            pa(b.getFirst());
            pa(b.getSecond());
            a.push_back(b == o);
            for (int i = 0; i < m; i++) a.push_back(b.contains(p[i]));
            std::vector<PointSegment> g;
            b.getSegments(g);
            for (size_t i = 0; i < g.size(); i++) s += g[i].getString() + "\n";
        }
        if (kind == 4 || kind == 5) {
            std::vector<int> idx;
            delynoi_utilities::TrivialIndexVector(idx, m);
            Polygon q(idx, p);
            if (kind == 5) q.fixCCW(p);
            s = q.getString();
            a.push_back(q.getArea(p));
            a.push_back(q.signedArea(p));
            a.push_back(q.getDiameter(p));
            a.push_back(q.getMaxDistance(p));
            pa(q.getCentroid(p));
            pa(q.getAverage(p));
            a.push_back(q.isConvex(p));
            a.push_back(q.isClockwise(p));
            a.push_back(q.isSelfIntersecting(p));
            a.push_back(q.isVertex(n));
            a.push_back((double)q.hash);
            Point mid((c.getX() + e.getX()) / 2, (c.getY() + e.getY()) / 2);
            a.push_back(q.containsPoint(p, mid));
            a.push_back(q.inEdges(p, d));
            IndexSegment in = q.containerEdge(p, d), ed(k, (k + 1) % m);
            a.push_back(in.getFirst());
            a.push_back(in.getSecond());
            a.push_back(q.containsEdge(ed));
            std::vector<IndexSegment> g;
            q.getSegments(g);
            for (size_t i = 0; i < g.size(); i++) s += g[i].getString() + "\n";
            Polygon w(q);
            a.push_back(w == q);
            a.push_back(w < q);
            a.push_back(w.getArea(p));
            a.push_back(w.getDiameter(p));
        }
        if (kind == 6) {
            std::vector<Point> g = delynoi_utilities::generateArcPoints(c, 1 + n % 7, n % 90, 90 + n % 270);
            for (size_t i = 0; i < g.size(); i++) pa(g[i]);
        }
        if (kind == 7) {
            std::vector<Point> u, l, q = p;
            convex::convexHull(q, u, l);
            for (size_t i = 0; i < u.size(); i++) pa(u[i]);
            for (size_t i = 0; i < l.size(); i++) pa(l[i]);
            std::vector<std::pair<Point, Point> > r = convex::rotatingCalipers(p);
            for (size_t i = 0; i < r.size(); i++) {
                pa(r[i].first);
                pa(r[i].second);
            }
        }
        if (kind == 8) {
            std::vector<int> idx(3);
            for (int i = 0; i < 3; i++) idx[i] = (k + i) % m;
            UniqueList<Point> cc;
            std::vector<Point> cv;
            Triangle t(idx, p), tu(idx, p, cc), tv(idx, p, cv);
            s = t.getString();
            pa(t.getCircumcenter());
            pa(tu.getCircumcenter());
            a.push_back(tu.getCircumcenterIndex());
            a.push_back(tv.getCircumcenterIndex());
            a.push_back(t.thirdPoint(EdgeData(idx[0], idx[1])));
            a.push_back(t.thirdPoint(EdgeData(idx[1], idx[2])));
            a.push_back(t.getArea(p));
            a.push_back(cc.size() + cv.size());
        }
        if (kind == 9) {
            NeighboursBySegment g(n), h(n, n + 1), t(Pair<int>(n + 1, n));
            g.setNeighbour(n + 1);
            a.push_back(g == h);
            a.push_back(h == t);
            t.setFirst(n);
            t.setSecond(n + 1);
            s = g.getString() + h.getString() + t.getString();
            std::vector<std::string> w = utilities::splitBySpaces(s + "  " + s);
            a.push_back((double)w.size());
            for (size_t i = 0; i < w.size(); i++) s += "|" + w[i];
            std::vector<std::string> z = utilities::split(s, std::regex("\\|"));
            a.push_back((double)z.size());
        }
    });
}

// ---------------------------------------------------------------- configuration

Out tolerates(int axis, double d, const Faults *f, std::array<int, 3> &out) {
    return run(f, [&] {
        Point a(3, 4), b(axis ? 3 : 3 + d, axis ? 4 + d : 4);
        UniqueList<Point> l;
        l.push_back(a);
        l.push_back(b);
        out = {{a == b, !(a < b) && !(b < a), l.size() == 1}};
    });
}
Out configSet(int field, double v, const Faults *f) {
    return run(f, [&] {
        DelynoiConfig *c = DelynoiConfig::instance();
        if (field == 0) c->setDiscretizationGrade((int)v);
        if (field == 1) c->setTolerance(v);
        if (field == 2) c->setScale((int)v);
        if (field == 3) c->setPrecision((int)v);
        if (field == 4) c->setPrecision(v == 6 ? Precision::small : v == 16 ? Precision::large : Precision::mid);
    });
}
Out configGet(const Faults *f, std::vector<double> &v, const void *&inst) {
    v.assign(4, 0);
    return run(f, [&] {
        DelynoiConfig *c = DelynoiConfig::instance();
        inst = c;
        v[0] = c->getDiscretizationGrade();
        v[1] = c->getTolerance();
        v[2] = c->getScale();
        v[3] = c->getPrecision();
    });
}

}  // namespace lib

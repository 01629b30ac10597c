// The library under test as the simulated callers use it.  Every function enters the scheduler, calls the library's
// public API, leaves the scheduler, and only then looks at the result.
#pragma once
#include "geom.h"
#include "rt.h"

namespace lib {
using geo::MeshData;
using geo::P;
using geo::Poly;
typedef std::vector<rt::Fault> Faults;

struct Out {
    bool threw = false;
    std::string type, what;
    rt::OpCount cnt;
};

struct Reg;   // a Region
struct Gen;   // a TriangleDelaunayGenerator
struct VGen;  // a TriangleVoronoiGenerator
struct Mesh;  // a Mesh<Polygon> or a Mesh<Triangle>, owned or inside a VGen

struct RegView {
    std::vector<P> all;  // getRegionPoints
    Poly outer;
    std::vector<Poly> holes;
    std::vector<P> centers, seeds;
    std::vector<std::array<int, 2>> segs;
    double area = 0;
    P centroid, lo, hi;
    int sides = 0;
};
struct MeshView {
    MeshData d;
    std::vector<double> area, diameter;
    std::vector<P> centroid;
    std::vector<P> circ;  // of the triangles
    std::vector<char> boundary;
    std::string inconsistent;  // two ways of asking for the same thing disagree
};
struct Neigh {
    int a, b;
};

RegView view(Reg *);
MeshView view(Mesh *, bool measures);

Out regNew(const Poly &, const Faults *, Reg *&);
Out regDefault(const Faults *, Reg *&);
Out regCopy(Reg *, const Faults *, Reg *&);
Out regAssign(Reg *from, const Faults *, Reg *to);
Out regDrop(Reg *, const Faults *);
Out regMutate(Reg *, const Poly &, const Faults *);
struct HoleSpec {
    bool circle;
    P c;
    double r;
    Poly poly;
    Poly shape;          // what it looked like
    bool other = false;  // it looks otherwise by now, and was not added
};
Out holePoints(const HoleSpec &, const Faults *, Poly &pts, P &center);  // what the hole looks like, region aside
Out arcPoints(P center, double radius, double from, double to, const Faults *f, Poly &pts);  // angles in degrees
Out regHole(Reg *, HoleSpec &, const Faults *);
Out regCleanHoles(Reg *, const Faults *);
Out regCleanSeeds(Reg *, const Faults *);
Out regSeeds(Reg *, const std::vector<P> &, const Faults *);
Out regSeedFile(Reg *, const std::string &, const Faults *);
Out regPrint(Reg *, const std::string &, const Faults *);
Out regQuery(Reg *, const std::vector<P> &, const Faults *, std::vector<int> &answers);

// x and y are functor descriptions such as "sin:1:2:3" or "rdn:0:1/const"; which: 0 both, 1 only y given, 2 only x given
struct GenSpec {
    std::string x, y;
    int which, nX, nY;
};
Out regGenerate(Reg *, const GenSpec &, const Faults *);
Out pointGenerate(const GenSpec &, P lo, P hi, int keep, const Faults *, std::vector<P> &out);
Out apply(const std::string &functor, const std::vector<double> &xs, const Faults *, std::vector<double> &ys);

Out vor(Reg *, const std::vector<P> &seeds, bool own, const Faults *, VGen *&, Mesh *&voronoi, Mesh *&triangulation);
Out vgenDrop(VGen *, const Faults *);
Out genNew(Reg *, const std::vector<P> &seeds, const Faults *, Gen *&);
Out genDrop(Gen *, const Faults *);
enum Kind { CONFORMING, CONSTRAINED, RESTRICTED };
Out genMesh(Gen *, Kind, const std::vector<std::array<P, 2>> &segs, const Faults *, Mesh *&);
Out genVoronoi(Gen *, const Faults *, Mesh *&voronoi, Mesh *&triangulation);
Out polyTriangles(int kind, const Poly &, const std::vector<P> &others, const Faults *, std::vector<P> &pts, std::vector<std::array<int, 3>> &);
Out cellTriangles(Mesh *, int kind, int cell, const Faults *, std::vector<P> &pts, std::vector<std::array<int, 3>> &);

// one answer: what was asked and what came back (two numbers at most)
struct Answer {
    int ask;
    double a, b;
};
enum Ask { AREA, SIGNED, DIAMETER, CENTROID, AVERAGE, LONGEST, CONVEX, CLOCKWISE, CONTAINS, ONEDGE, CORNERS, SIDES, SELFCROSS, FIXCCW, COPY, MUTATED, ASKS };
inline double mutateScale(const std::vector<int> &asks) { return asks.size() % 4 ? 0.5 : 1; }  // what MUTATED does to the corners
// asks a cell of a mesh (itself, or a copy of it); probes[k % size] goes with the k-th question
Out cellMeasures(Mesh *, int cell, bool itself, const std::vector<int> &asks, const std::vector<P> &probes, const Faults *, std::vector<Answer> &);
// asks a polygon somewhere in a list of points
Out polyMeasures(const Poly &, const std::vector<P> &others, const std::vector<int> &asks, const std::vector<P> &probes, const Faults *, std::vector<Answer> &);

Out meshCopy(Mesh *, const Faults *, Mesh *&);
Out meshAssign(Mesh *from, const Faults *, Mesh *to);
Out meshDrop(Mesh *, const Faults *);
Out meshPrint(Mesh *, const std::string &, const Faults *);
Out segPrint(Mesh *, const std::string &, const Faults *);
Out pointPrint(Mesh *, const std::string &, const Faults *);
Out trianglePrint(Reg *, const Faults *);  // toTriangle.poly
Out meshNew(bool triangles, const Faults *, Mesh *&);
Out meshRead(Mesh *, const std::string &, int start, const Faults *);
Out meshQuery(Mesh *, bool measures, const Faults *, MeshView &);  // the same as view(), under the scheduler
Out meshNeighbours(Mesh *, const std::vector<std::array<int, 2>> &, const Faults *, std::vector<Neigh> &);
bool isTri(Mesh *);

// the containers underneath: UniqueList<Point> or UniqueList<int>, SegmentMap and PointMap
struct List;
struct Maps;
struct ListView {
    std::vector<P> items;
    int size = 0;
};
struct MapsView {
    MeshData d;  // edges and pmap
    int segs = 0, pts = 0;
};
enum ListOp { PUSH, FORCE, POP, DEL, CLEAR };
Out listNew(bool ints, const Faults *, List *&);
Out listCopy(List *, const Faults *, List *&);
Out listDo(List *, ListOp, P, const Faults *, int &answer);
Out listMany(List *, const std::vector<P> &, const Faults *, std::vector<int> &);
Out listFrom(List *, List *from, const Faults *, std::vector<int> &);
Out listSwap(List *, List *, const Faults *);
Out listQuery(List *, const std::vector<P> &, const Faults *, std::vector<int> &);  // indexOf and contains of each
Out listPair(List *, List *, const Faults *, std::vector<int> &);                   // equal, common element
bool listInts(List *);
ListView view(List *);
Out mapsNew(const Faults *, Maps *&);
Out mapsCopy(Maps *, const Faults *, Maps *&);
Out segInsert(Maps *, const std::array<int, 4> &, bool both, const Faults *);
Out pointInsert(Maps *, P, const std::vector<int> &, bool list, const Faults *);
Out mapsQuery(Maps *, const std::vector<std::array<int, 2>> &, const std::vector<P> &, const Faults *, std::vector<int> &);
Out segPrint(Maps *, const std::string &, const Faults *);
Out pointPrint(Maps *, const std::string &, const Faults *);
MapsView view(Maps *);
Out geometry(int kind, const std::vector<P> &, int n, const Faults *, std::vector<double> &, std::string &);
Out text(int kind, const std::vector<double> &, const Faults *, std::string &);

// whether two points at that distance along x (0) or y (1) are taken to be equal, ordered, and kept apart by a list
Out tolerates(int axis, double d, const Faults *, std::array<int, 3> &out);
Out configSet(int field, double value, const Faults *);
Out configGet(const Faults *, std::vector<double> &, const void *&instance);

}  // namespace lib

From 4a38e5c8f0b8e4a9c8a0c269b13bc379a686b484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:52 +0000
Subject: [PATCH 01/37] fix: return the conforming Delaunay triangulation by
 value

The reference returned named a local mesh, so every caller read a dead object.
---
 delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h | 2 +-
 delynoi/src/voronoi/TriangleDelaunayGenerator.cpp           | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h b/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
index ab53d6c..6dd44f9 100644
--- a/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
+++ b/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
@@ -62,7 +62,7 @@ public:
      * segments, are Delaunay through the inclusion of additional points)
      * @return the conforming Delaunay triangulation
      */
-    Mesh<Triangle>& getConformingDelaunayTriangulation();
+    Mesh<Triangle> getConformingDelaunayTriangulation();
 
     /* Returns the constrained Delaunay triangulation (triangles next to constrained segments are not necessarily
      * delaunay)
diff --git a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
index 4352961..f24e3c0 100644
--- a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
+++ b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
@@ -141,14 +141,13 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
     free(out.edgemarkerlist);
 }
 
-Mesh<Triangle>& TriangleDelaunayGenerator::getConformingDelaunayTriangulation()  {
+Mesh<Triangle> TriangleDelaunayGenerator::getConformingDelaunayTriangulation()  {
     if(!this->empty){
         char switches[] = "pzejDQ";
         callTriangle(seedPoints, switches);
     }
 
-    Mesh<Triangle> mesh = initializeMesh<Triangle>();
-    return mesh;
+    return initializeMesh<Triangle>();
 }
 
 void
-- 
2.43.0


From d82f987925a930d7abf655995b8c373c9c2d692f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:52 +0000
Subject: [PATCH 02/37] fix: let one generator answer several triangulation
 requests

The second request on a TriangleDelaunayGenerator returned the triangulation computed by the first,
whatever kind was asked for, and a request after a failed one returned what the failure left behind.
---
 .../voronoi/TriangleDelaunayGenerator.h       |  1 -
 .../src/voronoi/TriangleDelaunayGenerator.cpp | 37 ++++++++++---------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h b/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
index 6dd44f9..1ea2246 100644
--- a/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
+++ b/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
@@ -38,7 +38,6 @@ private:
     std::vector<EdgeData> edges;
     UniqueList<Point> circumcenters;
     std::unordered_map<Key, int, KeyHasher> edgeMap;
-    bool empty = false;
 
     /* Calls the Triangle library, filling the class members with the result
      * @param point_list points which Delaunay triangulation must be computed
diff --git a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
index f24e3c0..1a68ff0 100644
--- a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
+++ b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
@@ -7,16 +7,25 @@ TriangleDelaunayGenerator::TriangleDelaunayGenerator(const std::vector<Point>& p
 }
 
 void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, char *switches) {
-    this->empty = true;
     this->callTriangle(point_list, switches, std::vector<PointSegment>());
 }
 
 void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, char *switches,
                                              std::vector<PointSegment> restrictedSegments) {
 
-    this->empty = true;
     struct triangulateio in, out;
 
+    //Every request starts from scratch: a generator can be asked for more than one triangulation, and the meshes it
+    //already returned keep their own neighbourhood information
+    this->triangles.clear();
+    this->meshPoints.clear();
+    this->points.clear();
+    this->realPoints.clear();
+    this->edges.clear();
+    this->circumcenters.clear();
+    this->edgeMap.clear();
+    this->delaunayEdges = new SegmentMap;
+
     std::vector<Point> regionPoints = region.getRegionPoints();
     UniqueList<Point> pointList;
     pointList.push_list(point_list);
@@ -142,10 +151,8 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
 }
 
 Mesh<Triangle> TriangleDelaunayGenerator::getConformingDelaunayTriangulation()  {
-    if(!this->empty){
-        char switches[] = "pzejDQ";
-        callTriangle(seedPoints, switches);
-    }
+    char switches[] = "pzejDQ";
+    callTriangle(seedPoints, switches);
 
     return initializeMesh<Triangle>();
 }
@@ -183,29 +190,23 @@ TriangleDelaunayGenerator::writeTriangleInputFile(UniqueList<Point> &point_list,
 }
 
 DelaunayInfo TriangleDelaunayGenerator::getConformingDelaunay() {
-    if(!this->empty){
-        char switches[] = "pzejDQ";
-        callTriangle(seedPoints, switches);
-    }
+    char switches[] = "pzejDQ";
+    callTriangle(seedPoints, switches);
 
     return DelaunayInfo(triangles, meshPoints, delaunayEdges, points, realPoints, edges, edgeMap, circumcenters);
 }
 
 Mesh<Triangle> TriangleDelaunayGenerator::getConstrainedDelaunayTriangulation() {
-    if(!this->empty){
-        char switches[] = "pzejQ";
-        callTriangle(seedPoints, switches);
-    }
+    char switches[] = "pzejQ";
+    callTriangle(seedPoints, switches);
 
     return initializeMesh<Triangle>();
 }
 
 Mesh<Triangle>
 TriangleDelaunayGenerator::getConstrainedDelaunayTriangulation(std::vector<PointSegment> restrictedSegments) {
-    if(!this->empty){
-        char switches[] = "pzejQ";
-        callTriangle(seedPoints, switches, restrictedSegments);
-    }
+    char switches[] = "pzejQ";
+    callTriangle(seedPoints, switches, restrictedSegments);
 
     return initializeMesh<Triangle>();
 }
-- 
2.43.0


From 6da04928f940c94e32e2183359e7e224254d963d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:46 +0000
Subject: [PATCH 03/37] fix: let threads triangulate at the same time

Triangle keeps the bounds of its exact arithmetic and its random seed in globals that every call
recomputes, so a call starting in one thread disturbed the predicates of a call running in another.
---
 .../include/delynoi/voronoi/lib/triangle.c    | 24 +++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/delynoi/include/delynoi/voronoi/lib/triangle.c b/delynoi/include/delynoi/voronoi/lib/triangle.c
index 6edbe11..7b5c12a 100644
--- a/delynoi/include/delynoi/voronoi/lib/triangle.c
+++ b/delynoi/include/delynoi/voronoi/lib/triangle.c
@@ -634,18 +634,28 @@ struct memorypool {
 };
 
 
+/* Every call of triangulate() recomputes the variables below, so each       */
+/*   thread has its own:  threads may triangulate at the same time.          */
+
+#ifdef _MSC_VER
+#define PERTHREAD __declspec(thread)
+#else /* not _MSC_VER */
+#define PERTHREAD __thread
+#endif /* not _MSC_VER */
+
 /* Global constants.                                                         */
 
-REAL splitter;       /* Used to split REAL factors for exact multiplication. */
-REAL epsilon;                             /* Floating-point machine epsilon. */
-REAL resulterrbound;
-REAL ccwerrboundA, ccwerrboundB, ccwerrboundC;
-REAL iccerrboundA, iccerrboundB, iccerrboundC;
-REAL o3derrboundA, o3derrboundB, o3derrboundC;
+                     /* Used to split REAL factors for exact multiplication. */
+PERTHREAD REAL splitter;
+PERTHREAD REAL epsilon;                   /* Floating-point machine epsilon. */
+PERTHREAD REAL resulterrbound;
+PERTHREAD REAL ccwerrboundA, ccwerrboundB, ccwerrboundC;
+PERTHREAD REAL iccerrboundA, iccerrboundB, iccerrboundC;
+PERTHREAD REAL o3derrboundA, o3derrboundB, o3derrboundC;
 
 /* Random number seed is not constant, but I've made it global anyway.       */
 
-unsigned long randomseed;                     /* Current random number seed. */
+PERTHREAD unsigned long randomseed;           /* Current random number seed. */
 
 
 /* Mesh data structure.  Triangle operates on only one mesh, but the mesh    */
-- 
2.43.0


From 77083a11ad21ddbd553a92fe19828014bd6dd2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:46 +0000
Subject: [PATCH 04/37] fix: create the configuration once when threads use it
 first at the same time

Two threads could each create an instance; settings made on the one that lost were forgotten.
---
 delynoi/include/delynoi/config/DelynoiConfig.h | 2 --
 delynoi/src/config/DelynoiConfig.cpp           | 8 ++------
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/delynoi/include/delynoi/config/DelynoiConfig.h b/delynoi/include/delynoi/config/DelynoiConfig.h
index 8cf8f23..2d3687f 100644
--- a/delynoi/include/delynoi/config/DelynoiConfig.h
+++ b/delynoi/include/delynoi/config/DelynoiConfig.h
@@ -26,8 +26,6 @@ private:
      */
     int precision;
 
-    static DelynoiConfig* s_instance;
-
     /*
      * Constructor. Sets the default parameter value.
      */
diff --git a/delynoi/src/config/DelynoiConfig.cpp b/delynoi/src/config/DelynoiConfig.cpp
index 25b2030..9a7d035 100644
--- a/delynoi/src/config/DelynoiConfig.cpp
+++ b/delynoi/src/config/DelynoiConfig.cpp
@@ -1,7 +1,5 @@
 #include <delynoi/config/DelynoiConfig.h>
 
-DelynoiConfig* DelynoiConfig::s_instance = nullptr;
-
 DelynoiConfig::DelynoiConfig() {
     this->circle_discretization_grade = 12;
     this->double_comparison_tolerance = 0.00001;
@@ -46,9 +44,7 @@ int DelynoiConfig::getPrecision() {
 }
 
 DelynoiConfig *DelynoiConfig::instance() {
-    if(!s_instance){
-        s_instance = new DelynoiConfig;
-    }
+    static DelynoiConfig s_instance;
 
-    return s_instance;
+    return &s_instance;
 }
-- 
2.43.0


From 799ff0a86a49a2a9e3522cba9b98cd64fe08334c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:46 +0000
Subject: [PATCH 05/37] fix: report running out of memory while preparing a
 triangulation

The lists handed to Triangle came from malloc unchecked: when it failed the program crashed.
---
 .../src/voronoi/TriangleDelaunayGenerator.cpp | 27 +++++++++----------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
index 1a68ff0..8df6a87 100644
--- a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
+++ b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
@@ -31,10 +31,18 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
     pointList.push_list(point_list);
     std::vector<int> regionIndex = pointList.push_list(regionPoints);
 
+    std::vector<IndexSegment> segments;
+    region.getSegments(segments);
+    std::vector<Hole>& holes = region.getHoles();
+
+    //Triangle only reads these lists, so they can live in containers: nothing is lost if an exception is thrown
+    std::vector<REAL> inPoints (pointList.size()*2), inAttributes (pointList.size()), inHoles (holes.size()*2);
+    std::vector<int> inSegments ((segments.size() + restrictedSegments.size())*2);
+
     in.numberofpoints = pointList.size();
-    in.pointlist = (REAL*)malloc(in.numberofpoints*2*sizeof(REAL));
+    in.pointlist = inPoints.data();
     in.numberofpointattributes = 1;
-    in.pointattributelist = (REAL *) malloc(in.numberofpoints*in.numberofpointattributes*sizeof(REAL));
+    in.pointattributelist = inAttributes.data();
     int points = 0;
 
     for(int i=0;i<pointList.size();i++){
@@ -46,11 +54,8 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
 
     in.pointmarkerlist = (int *)NULL;
 
-    std::vector<IndexSegment> segments;
-    region.getSegments(segments);
-
     in.numberofsegments = (int) (segments.size() + restrictedSegments.size());
-    in.segmentlist = (int*)malloc(in.numberofsegments*2*sizeof(int));
+    in.segmentlist = inSegments.data();
     in.segmentmarkerlist = (int*) NULL;
     int k;
     for(k=0;k<segments.size();k++){
@@ -66,9 +71,8 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
         k++;
     }
 
-    std::vector<Hole>& holes = region.getHoles();
     in.numberofholes = (int) holes.size();
-    in.holelist = (REAL*)malloc(in.numberofholes*2*sizeof(REAL));
+    in.holelist = inHoles.data();
     for(int i=0;i<holes.size();i++){
         in.holelist[2*i] = holes[i].getCenter().getX();
         in.holelist[2*i+1] = holes[i].getCenter().getY();
@@ -132,13 +136,6 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
         this->delaunayEdges->insert(segment, neighbours);
     }
 
-    free(in.pointlist);
-    free(in.pointattributelist);
-    free(in.pointmarkerlist);
-    free(in.segmentlist);
-    free(in.segmentmarkerlist);
-    free(in.holelist);
-
     free(out.pointlist);
     free(out.pointattributelist);
     free(out.pointmarkerlist);
-- 
2.43.0


From 92b7c76354c7574cb2d173353d3fa75109c948e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:55 +0000
Subject: [PATCH 06/37] fix: report a failed triangulation instead of ending
 the program

When memory runs out, or the input cannot be triangulated, Triangle leaves through triexit(), which
ended the whole program. The generator now throws.
---
 .../include/delynoi/voronoi/lib/triangle.c    | 45 +++++++++++++++++++
 .../include/delynoi/voronoi/lib/triangle.h    |  2 +
 .../src/voronoi/TriangleDelaunayGenerator.cpp |  4 +-
 3 files changed, 50 insertions(+), 1 deletion(-)

diff --git a/delynoi/include/delynoi/voronoi/lib/triangle.c b/delynoi/include/delynoi/voronoi/lib/triangle.c
index 7b5c12a..7124013 100644
--- a/delynoi/include/delynoi/voronoi/lib/triangle.c
+++ b/delynoi/include/delynoi/voronoi/lib/triangle.c
@@ -342,6 +342,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <math.h>
+#include <setjmp.h>
 #ifndef NO_TIMER
 #include <sys/time.h>
 #endif /* not NO_TIMER */
@@ -657,6 +658,10 @@ PERTHREAD REAL o3derrboundA, o3derrboundB, o3derrboundC;
 
 PERTHREAD unsigned long randomseed;           /* Current random number seed. */
 
+/* Where triexit() goes while trytriangulate() runs.                         */
+
+PERTHREAD jmp_buf *exitpoint = (jmp_buf *) NULL;
+
 
 /* Mesh data structure.  Triangle operates on only one mesh, but the mesh    */
 /*   structure is used (instead of global variables) to allow reentrancy.    */
@@ -1420,6 +1425,9 @@ int status;
 #endif /* not ANSI_DECLARATORS */
 
 {
+  if (exitpoint != (jmp_buf *) NULL) {
+    longjmp(*exitpoint, 1);
+  }
   exit(status);
 }
 
@@ -16009,3 +16017,40 @@ char **argv;
   return 0;
 #endif /* not TRILIBRARY */
 }
+
+/*****************************************************************************/
+/*                                                                           */
+/*  trytriangulate()   Calls triangulate().  Returns one if it succeeds and  */
+/*                     zero if it gives up (memory runs out, or the input    */
+/*                     can't be triangulated), instead of ending the caller's*/
+/*                     program.  The memory in use when it gives up is lost. */
+/*                                                                           */
+/*****************************************************************************/
+
+#ifdef TRILIBRARY
+
+#ifdef ANSI_DECLARATORS
+int trytriangulate(char *triswitches, struct triangulateio *in,
+                   struct triangulateio *out, struct triangulateio *vorout)
+#else /* not ANSI_DECLARATORS */
+int trytriangulate(triswitches, in, out, vorout)
+char *triswitches;
+struct triangulateio *in;
+struct triangulateio *out;
+struct triangulateio *vorout;
+#endif /* not ANSI_DECLARATORS */
+
+{
+  jmp_buf here;
+
+  if (setjmp(here)) {
+    exitpoint = (jmp_buf *) NULL;
+    return 0;
+  }
+  exitpoint = &here;
+  triangulate(triswitches, in, out, vorout);
+  exitpoint = (jmp_buf *) NULL;
+  return 1;
+}
+
+#endif /* TRILIBRARY */
diff --git a/delynoi/include/delynoi/voronoi/lib/triangle.h b/delynoi/include/delynoi/voronoi/lib/triangle.h
index 33a8809..da89ede 100644
--- a/delynoi/include/delynoi/voronoi/lib/triangle.h
+++ b/delynoi/include/delynoi/voronoi/lib/triangle.h
@@ -287,6 +287,8 @@ struct triangulateio {
 
 void triangulate(char *, struct triangulateio *, struct triangulateio *,
                  struct triangulateio *);
+int trytriangulate(char *, struct triangulateio *, struct triangulateio *,
+                   struct triangulateio *);
 void trifree(VOID *memptr);
 
 #ifdef __cplusplus
diff --git a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
index 8df6a87..fca36bc 100644
--- a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
+++ b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
@@ -90,7 +90,9 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
     out.edgelist = (int *) NULL;
     out.edgemarkerlist = (int *) NULL;
 
-    triangulate(switches, &in, &out, (struct triangulateio *)NULL);
+    if(!trytriangulate(switches, &in, &out, (struct triangulateio *)NULL)){
+        throw std::runtime_error("Triangle could not compute the triangulation");
+    }
 
     for(int i=0;i<out.numberofpoints;i++){
         PointData data (i);
-- 
2.43.0


From 53bb8e9f45791e3b756f4ba442b3c741666ef6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:55 +0000
Subject: [PATCH 07/37] fix: Point::isValid answers whether the point holds a
 value

It answered the opposite, so Polygon::getCentroid never computed a centroid and every PolygonalHole
had its center at the origin.
---
 delynoi/src/models/basic/Point.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/src/models/basic/Point.cpp b/delynoi/src/models/basic/Point.cpp
index 6b14fe4..0bea35e 100644
--- a/delynoi/src/models/basic/Point.cpp
+++ b/delynoi/src/models/basic/Point.cpp
@@ -14,7 +14,7 @@ Point::Point() {
 }
 
 bool Point::isValid() {
-    return this->isEmpty;
+    return !this->isEmpty;
 }
 
 double Point::getX() const{
-- 
2.43.0


From 2e2d23f254e0e9ae6dbe6a655fdb83274aeb7398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:55 +0000
Subject: [PATCH 08/37] fix: generate finite points when one point per axis is
 asked for

The step was width/0, and 0*inf made every coordinate NaN.
---
 delynoi/src/models/generator/PointGenerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/delynoi/src/models/generator/PointGenerator.cpp b/delynoi/src/models/generator/PointGenerator.cpp
index 1ec7cc2..765084f 100644
--- a/delynoi/src/models/generator/PointGenerator.cpp
+++ b/delynoi/src/models/generator/PointGenerator.cpp
@@ -25,8 +25,8 @@ PointGenerator::PointGenerator(Functor *l, functions::independent_variable varia
 }
 
 void PointGenerator::generate(std::vector <Point> &vector, BoundingBox box, int nX, int nY) {
-    double dX = box.getWidth()/(nX-1);
-    double dY = box.getHeight()/(nY-1);
+    double dX = nX>1? box.getWidth()/(nX-1) : 0;
+    double dY = nY>1? box.getHeight()/(nY-1) : 0;
 
     for(int i = 0; i<nY; i++){
         for(int j = 0; j<nX; j++){
-- 
2.43.0


From c2e3173466dc54f5fb44c8cb571898a64e87da1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:55 +0000
Subject: [PATCH 09/37] fix: asking for the neighbours of a segment does not
 change the mesh

Looking up a segment the mesh does not have added it to the segment map, with an uninitialised neighbour.
---
 delynoi/include/delynoi/models/Mesh.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/delynoi/include/delynoi/models/Mesh.h b/delynoi/include/delynoi/models/Mesh.h
index 4bd46dd..6fe109f 100644
--- a/delynoi/include/delynoi/models/Mesh.h
+++ b/delynoi/include/delynoi/models/Mesh.h
@@ -119,7 +119,7 @@ public:
 
     /* Gets all neighbours by segment (incident polygons) of a given segment
      * @param s segment to lookup
-     * @return all incident polygons to s
+     * @return all incident polygons to s (none, if s is not a segment of the mesh)
      */
     NeighboursBySegment getNeighbours(IndexSegment s);
 };
@@ -274,6 +274,10 @@ Point Mesh<T>::getPoint(int i) {
 
 template <typename T>
 NeighboursBySegment Mesh<T>::getNeighbours(IndexSegment s) {
+    if(!this->edges->containsSegment(s)){
+        return NeighboursBySegment(-1, -1);
+    }
+
     return this->edges->get(s);
 }
 
-- 
2.43.0


From 75c97c11446bdb3499d93041d2ae00c4ca893347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:55 +0000
Subject: [PATCH 10/37] fix: toString reports running out of memory

The stream swallowed the failure and an incomplete text was returned as if it were the whole number.
---
 lib/utilities/include/utilities/utilities.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/utilities/include/utilities/utilities.h b/lib/utilities/include/utilities/utilities.h
index 22b9093..1a7bde7 100644
--- a/lib/utilities/include/utilities/utilities.h
+++ b/lib/utilities/include/utilities/utilities.h
@@ -13,6 +13,7 @@ namespace utilities{
     template <typename T>
     std::string toString(T a){
         std::stringstream sstream;
+        sstream.exceptions(std::ios::badbit);
         sstream << a;
         std::string s = sstream.str();
 
-- 
2.43.0


From 3724ac1dc9d010362be9b529ffcbeb3759adbd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:55 +0000
Subject: [PATCH 11/37] fix: write indexes as integers

Indexes went through double formatting, which turns 1234567 into 1.23457e+06.
---
 delynoi/src/models/basic/IndexSegment.cpp                | 2 +-
 delynoi/src/models/neighbourhood/EdgeData.cpp            | 2 +-
 delynoi/src/models/neighbourhood/NeighboursBySegment.cpp | 2 +-
 delynoi/src/models/polygon/Polygon.cpp                   | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/delynoi/src/models/basic/IndexSegment.cpp b/delynoi/src/models/basic/IndexSegment.cpp
index dfbadcd..d2cd37f 100644
--- a/delynoi/src/models/basic/IndexSegment.cpp
+++ b/delynoi/src/models/basic/IndexSegment.cpp
@@ -53,7 +53,7 @@ bool IndexSegment::isCCW(const std::vector<Point>& points, Point center) {
 }
 
 std::string IndexSegment::getString() const {
-    return utilities::toString<double>(this->getFirst()) + " " + utilities::toString<double>(this->getSecond());
+    return utilities::toString<int>(this->getFirst()) + " " + utilities::toString<int>(this->getSecond());
 }
 
 bool IndexSegment::operator==(const IndexSegment& other) const {
diff --git a/delynoi/src/models/neighbourhood/EdgeData.cpp b/delynoi/src/models/neighbourhood/EdgeData.cpp
index a52a3f3..45a86a9 100644
--- a/delynoi/src/models/neighbourhood/EdgeData.cpp
+++ b/delynoi/src/models/neighbourhood/EdgeData.cpp
@@ -17,7 +17,7 @@ void EdgeData::setTriangle(int t) {
 }
 
 std::string EdgeData::getString() {
-    return utilities::toString<double>(this->p1) + " " + utilities::toString<double>(this->p2);
+    return utilities::toString<int>(this->p1) + " " + utilities::toString<int>(this->p2);
 }
 
 bool EdgeData::operator==(const EdgeData &other) const {
diff --git a/delynoi/src/models/neighbourhood/NeighboursBySegment.cpp b/delynoi/src/models/neighbourhood/NeighboursBySegment.cpp
index b9ada00..dcd4275 100644
--- a/delynoi/src/models/neighbourhood/NeighboursBySegment.cpp
+++ b/delynoi/src/models/neighbourhood/NeighboursBySegment.cpp
@@ -29,7 +29,7 @@ int NeighboursBySegment::getSecond() const{
 }
 
 std::string NeighboursBySegment::getString() const {
-    return utilities::toString<double>(this->n1) + " " + utilities::toString<double>(this->n2);
+    return utilities::toString<int>(this->n1) + " " + utilities::toString<int>(this->n2);
 }
 
 bool NeighboursBySegment::operator==(const NeighboursBySegment &other) const{
diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index 5e8e16d..b342b97 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -244,10 +244,10 @@ bool Polygon::operator==(const Polygon &other) const{
 }
 
 std::string Polygon::getString() {
-    std::string base = utilities::toString<double>(this->points.size());
+    std::string base = utilities::toString<int>(this->points.size());
 
     for(int i=0;i<this->points.size();i++){
-        base += " " + utilities::toString<double>(this->points[i]);
+        base += " " + utilities::toString<int>(this->points[i]);
     }
 
     return base;
-- 
2.43.0


From 4d2658affaa4d72cf0c823503bcc9cacb21f410c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:55 +0000
Subject: [PATCH 12/37] fix: write coordinates with the configured number of
 decimals

The precision was set on the file but every coordinate was formatted apart from it, with six
significant digits: 1234.5678 became 1234.57 whatever DelynoiConfig said.
---
 delynoi/include/delynoi/models/Mesh.h         | 2 +-
 delynoi/src/models/Region.cpp                 | 5 +++--
 delynoi/src/models/neighbourhood/PointMap.cpp | 6 ++++--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/delynoi/include/delynoi/models/Mesh.h b/delynoi/include/delynoi/models/Mesh.h
index 6fe109f..82537a5 100644
--- a/delynoi/include/delynoi/models/Mesh.h
+++ b/delynoi/include/delynoi/models/Mesh.h
@@ -232,7 +232,7 @@ template <typename T>
 void Mesh<T>::printInStream(std::ofstream &file) {
     file << points.size() << std::endl;
     for(int i=0;i<points.size();i++){
-        file << points[i].getString() << std::endl;
+        file << points[i].getX() << " " << points[i].getY() << std::endl;
     }
 
     file << this->edges->size() << std::endl;
diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index b10a28e..3815c4f 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -200,16 +200,17 @@ void Region::printInFile(std::string fileName) {
 
     std::ofstream file;
     file.open(path, std::ios::out);
+    file << std::fixed << std::setprecision(DelynoiConfig::instance()->getPrecision());
 
     std::vector<Point> points = this->getRegionPoints();
 
     file << (points.size() + seedPoints.size()) << std::endl;
     for(int i=0;i<points.size();i++){
-        file << points[i].getString() << std::endl;
+        file << points[i].getX() << " " << points[i].getY() << std::endl;
     }
 
     for(int i=0;i<seedPoints.size();i++){
-        file << seedPoints[i].getString() << std::endl;
+        file << seedPoints[i].getX() << " " << seedPoints[i].getY() << std::endl;
     }
 
     std::vector<IndexSegment> segments;
diff --git a/delynoi/src/models/neighbourhood/PointMap.cpp b/delynoi/src/models/neighbourhood/PointMap.cpp
index f216940..f02e387 100644
--- a/delynoi/src/models/neighbourhood/PointMap.cpp
+++ b/delynoi/src/models/neighbourhood/PointMap.cpp
@@ -1,4 +1,6 @@
 #include <delynoi/models/neighbourhood/PointMap.h>
+#include <delynoi/config/DelynoiConfig.h>
+#include <iomanip>
 
 PointMap::PointMap() {}
 
@@ -44,10 +46,10 @@ void PointMap::printInFile(std::string fileName) {
 
     std::ofstream file;
     file.open(path, std::ios::out);
-
+    file << std::fixed << std::setprecision(DelynoiConfig::instance()->getPrecision());
 
     for(auto v : this->map){
-        file << v.first.getString() + " ";
+        file << v.first.getX() << " " << v.first.getY() << " ";
         NeighboursByPoint n = v.second;
 
         for(int i: n.getNeighbours()){
-- 
2.43.0


From c216d26f5a6175239e46de74aa38311bac5363b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:15 +0000
Subject: [PATCH 13/37] fix: report files that could not be written completely

A file that could not be opened, a full disk or a failed write went unnoticed: the print functions
returned as if everything had been stored.
---
 delynoi/include/delynoi/models/Mesh.h             | 2 +-
 delynoi/src/models/Region.cpp                     | 2 +-
 delynoi/src/models/neighbourhood/PointMap.cpp     | 2 +-
 delynoi/src/models/neighbourhood/SegmentMap.cpp   | 2 +-
 delynoi/src/voronoi/TriangleDelaunayGenerator.cpp | 2 +-
 lib/utilities/include/utilities/utilities.h       | 1 +
 lib/utilities/src/utilities.cpp                   | 9 ++++++++-
 7 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/delynoi/include/delynoi/models/Mesh.h b/delynoi/include/delynoi/models/Mesh.h
index 82537a5..905419c 100644
--- a/delynoi/include/delynoi/models/Mesh.h
+++ b/delynoi/include/delynoi/models/Mesh.h
@@ -210,7 +210,7 @@ void Mesh<T>::printInFile(std::string fileName) {
     file << std::fixed << std::setprecision(DelynoiConfig::instance()->getPrecision());
 
     printInStream(file);
-    file.close();
+    utilities::closeFile(file);
 }
 
 template <typename T>
diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index 3815c4f..5d78cd1 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -223,6 +223,6 @@ void Region::printInFile(std::string fileName) {
 
     file << 0 << std::endl;
 
-    file.close();
+    utilities::closeFile(file);
 
 }
diff --git a/delynoi/src/models/neighbourhood/PointMap.cpp b/delynoi/src/models/neighbourhood/PointMap.cpp
index f02e387..071b551 100644
--- a/delynoi/src/models/neighbourhood/PointMap.cpp
+++ b/delynoi/src/models/neighbourhood/PointMap.cpp
@@ -59,7 +59,7 @@ void PointMap::printInFile(std::string fileName) {
         file << std::endl;
     }
 
-    file.close();
+    utilities::closeFile(file);
 }
 
 
diff --git a/delynoi/src/models/neighbourhood/SegmentMap.cpp b/delynoi/src/models/neighbourhood/SegmentMap.cpp
index 418b518..8c96fd3 100644
--- a/delynoi/src/models/neighbourhood/SegmentMap.cpp
+++ b/delynoi/src/models/neighbourhood/SegmentMap.cpp
@@ -46,7 +46,7 @@ void SegmentMap::printInFile(std::string fileName) {
         file << v.first.getString() + " " + v.second.getString() << std::endl;
     }
 
-    file.close();
+    utilities::closeFile(file);
 }
 
 bool SegmentMap::containsSegment(IndexSegment s) {
diff --git a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
index fca36bc..bd34eeb 100644
--- a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
+++ b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
@@ -185,7 +185,7 @@ TriangleDelaunayGenerator::writeTriangleInputFile(UniqueList<Point> &point_list,
         file << j << " " << holes[j].getCenter().getString() << std::endl;
     }
 
-    file.close();
+    utilities::closeFile(file);
 }
 
 DelaunayInfo TriangleDelaunayGenerator::getConformingDelaunay() {
diff --git a/lib/utilities/include/utilities/utilities.h b/lib/utilities/include/utilities/utilities.h
index 1a7bde7..14ff5b0 100644
--- a/lib/utilities/include/utilities/utilities.h
+++ b/lib/utilities/include/utilities/utilities.h
@@ -42,6 +42,7 @@ namespace utilities{
     extern std::vector<std::string> split(std::string s, const std::regex regex);
     extern std::vector<std::string> splitBySpaces(std::string s);
     extern std::ifstream openFile(std::string fileName);
+    extern void closeFile(std::ofstream& file);
 }
 
 #endif 
diff --git a/lib/utilities/src/utilities.cpp b/lib/utilities/src/utilities.cpp
index ab83909..8ba74bb 100644
--- a/lib/utilities/src/utilities.cpp
+++ b/lib/utilities/src/utilities.cpp
@@ -95,6 +95,13 @@ namespace utilities {
 
         return infile;
     }
-}
 
+    void closeFile(std::ofstream& file){
+        file.close();
+
+        if(!file){
+            throw std::runtime_error("Could not write file. Please check path and available space.");
+        }
+    }
+}
 
-- 
2.43.0


From 6c23572f490abcd0814b6828eefa568750746e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:15 +0000
Subject: [PATCH 14/37] fix: write the input file for Triangle with the
 configured number of decimals

---
 delynoi/src/voronoi/TriangleDelaunayGenerator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
index bd34eeb..e092978 100644
--- a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
+++ b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
@@ -163,10 +163,11 @@ TriangleDelaunayGenerator::writeTriangleInputFile(UniqueList<Point> &point_list,
 
     std::ofstream file;
     file.open(path, std::ios::out);
+    file << std::fixed << std::setprecision(DelynoiConfig::instance()->getPrecision());
 
     file << point_list.size() << " 2 0 0" << std::endl;
     for (int i = 0; i < point_list.size(); ++i) {
-        file << i << " " << point_list[i].getString() << std::endl;
+        file << i << " " << point_list[i].getX() << " " << point_list[i].getY() << std::endl;
     }
 
     std::vector<IndexSegment> segments;
@@ -182,7 +183,7 @@ TriangleDelaunayGenerator::writeTriangleInputFile(UniqueList<Point> &point_list,
     file << holes.size() << std::endl;
 
     for (int j = 0; j < holes.size(); ++j) {
-        file << j << " " << holes[j].getCenter().getString() << std::endl;
+        file << j << " " << holes[j].getCenter().getX() << " " << holes[j].getCenter().getY() << std::endl;
     }
 
     utilities::closeFile(file);
-- 
2.43.0


From 3444ff45ba04d45bb64fb18af188fe5199902058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:15 +0000
Subject: [PATCH 15/37] fix: copying a region keeps its seed points

The copy constructor dropped them; the copy assignment did not.
---
 delynoi/src/models/Region.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index 5d78cd1..7cb54b0 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -25,6 +25,7 @@ Region::Region(const Polygon &other, std::vector<Point>& points) : Polygon() {
 Region::Region(const Region &other) : Polygon(other){
     this->p = other.p;
     this->holes.assign(other.holes.begin(), other.holes.end());
+    this->seedPoints = other.seedPoints;
 }
 
 std::vector<Hole>& Region::getHoles() {
-- 
2.43.0


From 46f40a2255fd83d8ace2a504b13b34b64e177058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:15 +0000
Subject: [PATCH 16/37] fix: a rejected change of a region leaves it as it was

When the new points (also those left by an intersecting hole) were rejected, or memory ran out, the
region already had lost its own.
---
 delynoi/src/models/Region.cpp          | 6 ++++--
 delynoi/src/models/polygon/Polygon.cpp | 7 ++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index 7cb54b0..95c1261 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -5,8 +5,10 @@ Region::Region(std::vector<Point>& points) : Polygon(points){
 }
 
 void Region::mutate(std::vector<Point> &points) {
-    this->p = points;
-    Polygon::mutate(points);
+    std::vector<Point> newPoints = points;
+
+    Polygon::mutate(newPoints);
+    this->p.swap(newPoints);
 }
 
 Region::Region() : Polygon(){}
diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index b342b97..775857c 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -19,13 +19,14 @@ Polygon::Polygon(std::vector<int>& points, std::vector<Point>& p) {
 }
 
 void Polygon::mutate(std::vector<Point> &p) {
-    this->points.clear();
-    delynoi_utilities::TrivialIndexVector(this->points,p.size());
+    Polygon changed;
+    delynoi_utilities::TrivialIndexVector(changed.points,p.size());
 
-    if(isSelfIntersecting(p)){
+    if(changed.isSelfIntersecting(p)){
         throw std::invalid_argument("Self intersecting polygons are not supported");
     }
 
+    this->points.swap(changed.points);
     this->diameter = -1;
     this->area = -1;
     this->centroid = Point();
-- 
2.43.0


From 1d46366e997ee960ccb9ce9ad389c441e865ebc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:15 +0000
Subject: [PATCH 17/37] fix: a failed generation or inclusion of seed points
 leaves the region as it was

An exception halfway (a user generation rule, memory) left unfiltered points in the seed list.
---
 delynoi/include/delynoi/models/Region.h |  7 ++++---
 delynoi/src/models/Region.cpp           | 26 +++++++++++++------------
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/delynoi/include/delynoi/models/Region.h b/delynoi/include/delynoi/models/Region.h
index ed8eed3..1129616 100644
--- a/delynoi/include/delynoi/models/Region.h
+++ b/delynoi/include/delynoi/models/Region.h
@@ -35,10 +35,11 @@ private:
      */
     std::vector<Point> seedPoints;
 
-    /* Erase from the seed point list all seed points that are not inside the region (as they are generated in the
-     * bounding box of the region)
+    /* Sets the seed points of the region, leaving out all that are not inside of it (as they are generated in the
+     * bounding box of the region). If it fails the region keeps the seed points it had
+     * @param seeds list of candidate points
      */
-    void clean();
+    void setSeeds(std::vector<Point>& seeds);
 public:
     /*
      * Constructor.
diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index 95c1261..9ca3e38 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -88,19 +88,21 @@ void Region::cleanInternalHoles() {
 
 void Region::generateSeedPoints(PointGenerator p, int nX, int nY){
     BoundingBox box = this->getBox();
-    p.generate(this->seedPoints, box, nX, nY);
-    this->clean();
+    std::vector<Point> seeds = this->seedPoints;
+
+    p.generate(seeds, box, nX, nY);
+    this->setSeeds(seeds);
 }
 
 void Region::addSeedPoints(std::vector<Point>& seeds) {
-    this->seedPoints.assign(seeds.begin(), seeds.end());
-    this->clean();
+    this->setSeeds(seeds);
 }
 
 void Region::addSeedsFromFile(std::string fileName) {
     std::ifstream infile;
     infile = utilities::openFile(fileName);
 
+    std::vector<Point> seeds = this->seedPoints;
     std::string line;
     std::getline(infile, line);
     int numberMeshPoints = std::atoi(line.c_str());
@@ -109,11 +111,11 @@ void Region::addSeedsFromFile(std::string fileName) {
         std::vector<std::string> splittedLine = utilities::splitBySpaces(line);
 
         Point newPoint(std::atof(splittedLine[0].c_str()), std::atof(splittedLine[1].c_str()));
-        this->seedPoints.push_back(newPoint);
+        seeds.push_back(newPoint);
     }
 
     infile.close();
-    this->clean();
+    this->setSeeds(seeds);
 }
 
 BoundingBox Region::getBox() {
@@ -132,16 +134,16 @@ BoundingBox Region::getBox() {
     return BoundingBox(Point(xMin,yMin), Point(xMax,yMax));
 }
 
-void Region::clean() {
+void Region::setSeeds(std::vector<Point>& seeds) {
     std::vector<int> toKeep;
     std::vector<Point> newSeeds;
 
-    for(int i = 0; i<seedPoints.size(); i++){
-        if(Polygon::containsPoint(p,seedPoints[i])){
+    for(int i = 0; i<seeds.size(); i++){
+        if(Polygon::containsPoint(p,seeds[i])){
             bool keep = true;
 
             for (Hole h : this->holes){
-                keep = keep && !h.containsPoint(seedPoints[i]);
+                keep = keep && !h.containsPoint(seeds[i]);
             }
 
             if(keep){
@@ -152,10 +154,10 @@ void Region::clean() {
     }
 
     for(int i=0; i<toKeep.size(); i++){
-        newSeeds.push_back(seedPoints[toKeep[i]]);
+        newSeeds.push_back(seeds[toKeep[i]]);
     }
 
-    this->seedPoints = newSeeds;
+    this->seedPoints.swap(newSeeds);
 }
 
 
-- 
2.43.0


From fa3e04f21f4a62c42aa689551e751f63923d5505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:00 +0000
Subject: [PATCH 18/37] fix: refuse incomplete or damaged seed point files

A file cut short crashed the program, and text that is not a number was read as zero.
---
 delynoi/src/models/Region.cpp               |  9 ++--
 lib/utilities/include/utilities/utilities.h |  4 ++
 lib/utilities/src/utilities.cpp             | 47 +++++++++++++++++++++
 3 files changed, 54 insertions(+), 6 deletions(-)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index 9ca3e38..7ad3f1b 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -103,14 +103,11 @@ void Region::addSeedsFromFile(std::string fileName) {
     infile = utilities::openFile(fileName);
 
     std::vector<Point> seeds = this->seedPoints;
-    std::string line;
-    std::getline(infile, line);
-    int numberMeshPoints = std::atoi(line.c_str());
+    int numberMeshPoints = utilities::readCount(infile);
     for (int i = 0; i < numberMeshPoints; ++i) {
-        std::getline(infile, line);
-        std::vector<std::string> splittedLine = utilities::splitBySpaces(line);
+        std::vector<std::string> splittedLine = utilities::readLine(infile);
 
-        Point newPoint(std::atof(splittedLine[0].c_str()), std::atof(splittedLine[1].c_str()));
+        Point newPoint(utilities::toDouble(splittedLine, 0), utilities::toDouble(splittedLine, 1));
         seeds.push_back(newPoint);
     }
 
diff --git a/lib/utilities/include/utilities/utilities.h b/lib/utilities/include/utilities/utilities.h
index 14ff5b0..8406f55 100644
--- a/lib/utilities/include/utilities/utilities.h
+++ b/lib/utilities/include/utilities/utilities.h
@@ -43,6 +43,10 @@ namespace utilities{
     extern std::vector<std::string> splitBySpaces(std::string s);
     extern std::ifstream openFile(std::string fileName);
     extern void closeFile(std::ofstream& file);
+    extern std::vector<std::string> readLine(std::ifstream& file);
+    extern double toDouble(const std::vector<std::string>& values, int index);
+    extern int toInteger(const std::vector<std::string>& values, int index);
+    extern int readCount(std::ifstream& file);
 }
 
 #endif 
diff --git a/lib/utilities/src/utilities.cpp b/lib/utilities/src/utilities.cpp
index 8ba74bb..c08ab69 100644
--- a/lib/utilities/src/utilities.cpp
+++ b/lib/utilities/src/utilities.cpp
@@ -12,6 +12,9 @@
 #include <iomanip>
 #include <fstream>
 #include <regex>
+#include <climits>
+#include <cstdlib>
+#include <stdexcept>
 
 namespace utilities {
     std::string toStringWithPrecision(double d, int precision){
@@ -103,5 +106,49 @@ namespace utilities {
             throw std::runtime_error("Could not write file. Please check path and available space.");
         }
     }
+
+    std::vector<std::string> readLine(std::ifstream& file){
+        std::string line;
+
+        if(!std::getline(file, line)){
+            throw std::runtime_error("Could not read file. It is incomplete.");
+        }
+
+        return splitBySpaces(line);
+    }
+
+    double toDouble(const std::vector<std::string>& values, int index){
+        const std::string text = index < values.size()? values[index] : "";
+        char* end;
+        double value = std::strtod(text.c_str(), &end);
+
+        if(text.empty() || end != text.c_str() + text.size()){
+            throw std::runtime_error("Could not read file. Expected a number and found: " + text);
+        }
+
+        return value;
+    }
+
+    int toInteger(const std::vector<std::string>& values, int index){
+        const std::string text = index < values.size()? values[index] : "";
+        char* end;
+        long value = std::strtol(text.c_str(), &end, 10);
+
+        if(text.empty() || end != text.c_str() + text.size() || value < INT_MIN || value > INT_MAX){
+            throw std::runtime_error("Could not read file. Expected an integer and found: " + text);
+        }
+
+        return (int) value;
+    }
+
+    int readCount(std::ifstream& file){
+        int count = toInteger(readLine(file), 0);
+
+        if(count < 0){
+            throw std::runtime_error("Could not read file. Found a negative number of elements.");
+        }
+
+        return count;
+    }
 }
 
-- 
2.43.0


From 197085092eccfc630f768d7459ab8c49ecde1927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:00 +0000
Subject: [PATCH 19/37] fix: read meshes completely or not at all, also those
 written by the library

createFromFile crashed on or made up contents for a file cut short or damaged, could not read what
printInFile writes (it lists segments too), mixed up the indexes when the file repeats a point, left
the point map empty, and wrote over the neighbourhood of the copies of the mesh.
---
 delynoi/include/delynoi/models/Mesh.h        | 78 ++++++++++++++++----
 lib/utilities/include/utilities/UniqueList.h |  7 ++
 2 files changed, 70 insertions(+), 15 deletions(-)

diff --git a/delynoi/include/delynoi/models/Mesh.h b/delynoi/include/delynoi/models/Mesh.h
index 905419c..e789785 100644
--- a/delynoi/include/delynoi/models/Mesh.h
+++ b/delynoi/include/delynoi/models/Mesh.h
@@ -4,6 +4,7 @@
 #include <delynoi/models/neighbourhood/SegmentMap.h>
 #include <utilities/UniqueList.h>
 #include <fstream>
+#include <memory>
 #include <delynoi/models/polygon/Polygon.h>
 #include <delynoi/models/neighbourhood/PointMap.h>
 #include <delynoi/models/polygon/Triangle.h>
@@ -166,38 +167,85 @@ void Mesh<T>::createFromFile(std::string fileName, int startIndex) {
 
 template <typename T>
 void Mesh<T>::createFromStream(std::ifstream &infile, int startIndex) {
-    std::string line;
-    std::getline(infile, line);
-    int numberMeshPoints = std::atoi(line.c_str());
+    //The mesh is read apart and replaces the contents of this one once it is complete
+    std::unique_ptr<SegmentMap> newEdges (new SegmentMap);
+    std::unique_ptr<PointMap> newPointMap (new PointMap);
+    UniqueList<Point> newPoints;
+    std::vector<T> newPolygons;
+    std::vector<int> indexes;
+
+    int numberMeshPoints = utilities::readCount(infile);
     for (int i = 0; i < numberMeshPoints; ++i) {
-        std::getline(infile, line);
-        std::vector<std::string> splittedLine = utilities::splitBySpaces(line);
+        std::vector<std::string> splittedLine = utilities::readLine(infile);
 
-        Point newPoint(std::atof(splittedLine[0].c_str()), std::atof(splittedLine[1].c_str()));
-        this->points.push_back(newPoint);
+        Point newPoint(utilities::toDouble(splittedLine, 0), utilities::toDouble(splittedLine, 1));
+        indexes.push_back(newPoints.push_back(newPoint));
     }
 
-    std::getline(infile, line);
-    int numberMeshPolygons = std::atoi(line.c_str());
+    int numberMeshPolygons = utilities::readCount(infile);
+    std::vector<std::string> splittedLine;
+
+    if(numberMeshPolygons > 0){
+        splittedLine = utilities::readLine(infile);
+
+        //Files written by printInFile list the segments before the polygons
+        if(splittedLine.size() == 2){
+            for (int i = 0; i < numberMeshPolygons; ++i) {
+                utilities::toInteger(splittedLine, 0);
+                utilities::toInteger(splittedLine, 1);
+
+                if(i < numberMeshPolygons - 1){
+                    splittedLine = utilities::readLine(infile);
+                }
+            }
+
+            numberMeshPolygons = utilities::readCount(infile);
+            if(numberMeshPolygons > 0){
+                splittedLine = utilities::readLine(infile);
+            }
+        }
+    }
 
     for (int i = 0; i < numberMeshPolygons; ++i) {
-        std::getline(infile, line);
-        std::vector<std::string> splittedLine = utilities::splitBySpaces(line);
+        int numberPolygonPoints = utilities::toInteger(splittedLine, 0);
+
+        if(numberPolygonPoints < 3 || splittedLine.size() != (std::size_t) numberPolygonPoints + 1){
+            throw std::runtime_error("Could not read file. A polygon is incomplete.");
+        }
 
         std::vector<int> polygonPoints;
         for (int j = 1; j < splittedLine.size(); ++j) {
-            polygonPoints.push_back(std::atoi(splittedLine[j].c_str()) - startIndex);
+            int index = utilities::toInteger(splittedLine, j) - startIndex;
+
+            if(index < 0 || index >= numberMeshPoints){
+                throw std::runtime_error("Could not read file. A polygon uses a point that is not in the file.");
+            }
+
+            polygonPoints.push_back(indexes[index]);
         }
 
-        T newPolygon(polygonPoints, this->points.getList());
-        this->polygons.push_back(newPolygon);
+        T newPolygon(polygonPoints, newPoints.getList());
+        newPolygons.push_back(newPolygon);
         std::vector<IndexSegment> segments;
         newPolygon.getSegments(segments);
 
         for (IndexSegment s: segments){
-            this->edges->insert(s, i);
+            newEdges->insert(s, i);
+        }
+
+        for (int p: polygonPoints){
+            newPointMap->insert(newPoints[p], i);
+        }
+
+        if(i < numberMeshPolygons - 1){
+            splittedLine = utilities::readLine(infile);
         }
     }
+
+    this->points.swap(newPoints);
+    this->polygons.swap(newPolygons);
+    this->edges = newEdges.release();
+    this->pointMap = newPointMap.release();
 }
 
 template <typename T>
diff --git a/lib/utilities/include/utilities/UniqueList.h b/lib/utilities/include/utilities/UniqueList.h
index 4488837..3a58187 100644
--- a/lib/utilities/include/utilities/UniqueList.h
+++ b/lib/utilities/include/utilities/UniqueList.h
@@ -30,6 +30,7 @@ public:
     bool hasCommonElement(UniqueList<T>& other);
 
     void clear();
+    void swap(UniqueList<T>& other);
     void delete_element(T item);
 };
 
@@ -147,6 +148,12 @@ void UniqueList<T>::clear() {
     this->map.clear();
 }
 
+template <class T>
+void UniqueList<T>::swap(UniqueList<T>& other) {
+    this->list.swap(other.list);
+    this->map.swap(other.map);
+}
+
 template <class T>
 void UniqueList<T>::delete_element(T item) {
     if(!this->contains(item)){
-- 
2.43.0


From d8cc88aa8bc09009e13c63f320b0f97cc8c83d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:36 +0000
Subject: [PATCH 20/37] fix: define the integer noise with the arguments it is
 declared with

No program using noise::random_integer_noise could be linked.
---
 delynoi/src/models/generator/noise/noise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/src/models/generator/noise/noise.cpp b/delynoi/src/models/generator/noise/noise.cpp
index ecdcb56..72623fd 100644
--- a/delynoi/src/models/generator/noise/noise.cpp
+++ b/delynoi/src/models/generator/noise/noise.cpp
@@ -7,7 +7,7 @@ namespace noise{
         return new RandomDoubleNoise(f, min, max);
     }
 
-    Functor* random_integer_noise(Functor* f, int min, int max){
+    Functor* random_integer_noise(Functor* f, double min, double max){
         return new RandomIntegerNoise(f, min, max);
     }
 }
-- 
2.43.0


From 8d1fad74f721768651915d2ec2b436562b79004b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:49 +0000
Subject: [PATCH 21/37] fix: circles are discretised into the configured number
 of points

---
 delynoi/src/models/polygon/Circle.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/delynoi/src/models/polygon/Circle.cpp b/delynoi/src/models/polygon/Circle.cpp
index b4ba79f..5ae43d9 100644
--- a/delynoi/src/models/polygon/Circle.cpp
+++ b/delynoi/src/models/polygon/Circle.cpp
@@ -11,16 +11,14 @@ std::vector<Point> Circle::discretizeCircle() {
     DelynoiConfig* config = DelynoiConfig::instance();
 
     std::vector<Point> points;
-    double delta = 360 / config->getDiscretizationGrade();
+    int grade = config->getDiscretizationGrade();
 
-    double angle = 0;
-    while (angle < 360) {
+    for (int i = 0; i < grade; ++i) {
+        double angle = i * 360.0 / grade;
         double x = center.getX() + radius * cos(utilities::radian(angle));
         double y = center.getY() + radius * sin(utilities::radian(angle));
 
         points.push_back(Point(x, y));
-
-        angle += delta;
     }
 
     return points;
-- 
2.43.0


From 91328c5141b666482e3fda561e44b475e7886a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:35 +0000
Subject: [PATCH 22/37] fix: addHole reports a failed clipping instead of
 taking the hole as inner

---
 delynoi/src/models/Region.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index 7ad3f1b..28c503e 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -59,7 +59,9 @@ void Region::addHole(Hole h) {
     ClipperLib::Clipper clipper;
     clipper.AddPath(region, ClipperLib::ptSubject, true);
     clipper.AddPath(hole, ClipperLib::ptClip, true);
-    clipper.Execute(ClipperLib::ctDifference, solution, ClipperLib::pftNonZero, ClipperLib::pftNonZero);
+    if(!clipper.Execute(ClipperLib::ctDifference, solution, ClipperLib::pftNonZero, ClipperLib::pftNonZero)){
+        throw std::runtime_error("The difference between the region and the hole could not be computed");
+    }
 
     if(solution.size()==1){
         //Hole does intersect, so Region has to change and the hole "disappears"
-- 
2.43.0


From de47b2b36b7e8fa9f7c439744398f31901c5bb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:55 +0000
Subject: [PATCH 23/37] fix: addHole scales in and out with one reading of the
 setting

---
 delynoi/src/models/Region.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index 28c503e..cf404fd 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -41,19 +41,20 @@ std::vector<Point> Region::getSeedPoints() {
 void Region::addHole(Hole h) {
     //When we receive a hole we check whether the difference between the region and the hole is just
     //one path (according to the used library)
-    DelynoiConfig* config = DelynoiConfig::instance();
+    //The scale is read only once: it has to be the same on the way in and on the way out
+    const int scale = DelynoiConfig::instance()->getScale();
     ClipperLib::Path region, hole;
     ClipperLib::Paths solution;
 
     for(int i=0;i<this->p.size(); i++){
-        region << ClipperLib::IntPoint((int)(config->getScale()*this->p[i].getX()),
-                                       (int)(config->getScale()*this->p[i].getY()));
+        region << ClipperLib::IntPoint((int)(scale*this->p[i].getX()),
+                                       (int)(scale*this->p[i].getY()));
     }
 
     std::vector<Point> holePoints = h.getPoints();
     for(int i=0;i<holePoints.size();i++){
-        hole << ClipperLib::IntPoint((int)(config->getScale()*holePoints[i].getX()),
-                                     (int)(config->getScale()*holePoints[i].getY()));
+        hole << ClipperLib::IntPoint((int)(scale*holePoints[i].getX()),
+                                     (int)(scale*holePoints[i].getY()));
     }
 
     ClipperLib::Clipper clipper;
@@ -68,8 +69,8 @@ void Region::addHole(Hole h) {
         std::vector<Point> newPoints;
 
         for(int i=0;i<solution[0].size();i++){
-            newPoints.push_back(Point(solution[0][i].X/(1.0*config->getScale()),
-                                      solution[0][i].Y/(1.0*config->getScale())));
+            newPoints.push_back(Point(solution[0][i].X/(1.0*scale),
+                                      solution[0][i].Y/(1.0*scale)));
         }
 
         this->mutate(newPoints);
-- 
2.43.0


From 85dd510be99fa618ede2d082698fc3cd9c3f86b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:31 +0000
Subject: [PATCH 24/37] fix: addHole works for coordinates beyond the range of
 int after scaling

---
 delynoi/src/models/Region.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index cf404fd..b5c6f3a 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -47,14 +47,14 @@ void Region::addHole(Hole h) {
     ClipperLib::Paths solution;
 
     for(int i=0;i<this->p.size(); i++){
-        region << ClipperLib::IntPoint((int)(scale*this->p[i].getX()),
-                                       (int)(scale*this->p[i].getY()));
+        region << ClipperLib::IntPoint((ClipperLib::cInt)(scale*this->p[i].getX()),
+                                       (ClipperLib::cInt)(scale*this->p[i].getY()));
     }
 
     std::vector<Point> holePoints = h.getPoints();
     for(int i=0;i<holePoints.size();i++){
-        hole << ClipperLib::IntPoint((int)(scale*holePoints[i].getX()),
-                                     (int)(scale*holePoints[i].getY()));
+        hole << ClipperLib::IntPoint((ClipperLib::cInt)(scale*holePoints[i].getX()),
+                                     (ClipperLib::cInt)(scale*holePoints[i].getY()));
     }
 
     ClipperLib::Clipper clipper;
-- 
2.43.0


From 25619dcf4d17ced1a8c8efc1f4dc94aafea3c0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:09 +0000
Subject: [PATCH 25/37] fix: addHole refuses a hole that covers or divides the
 region

---
 delynoi/src/models/Region.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index b5c6f3a..761aaeb 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -64,6 +64,11 @@ void Region::addHole(Hole h) {
         throw std::runtime_error("The difference between the region and the hole could not be computed");
     }
 
+    int outlines = (int) std::count_if(solution.begin(), solution.end(), ClipperLib::Orientation);
+    if(outlines!=1){
+        throw std::invalid_argument("Hole covers or divides the domain region");
+    }
+
     if(solution.size()==1){
         //Hole does intersect, so Region has to change and the hole "disappears"
         std::vector<Point> newPoints;
-- 
2.43.0


From 7ca459e3fe4206062c72b9d3465da842081b838e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:41 +0000
Subject: [PATCH 26/37] fix: toStringWithPrecision reports running out of
 memory

---
 lib/utilities/src/utilities.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/utilities/src/utilities.cpp b/lib/utilities/src/utilities.cpp
index c08ab69..9cb9161 100644
--- a/lib/utilities/src/utilities.cpp
+++ b/lib/utilities/src/utilities.cpp
@@ -19,6 +19,7 @@
 namespace utilities {
     std::string toStringWithPrecision(double d, int precision){
         std::stringstream sstream;
+        sstream.exceptions(std::ios::badbit);
         sstream << std::fixed << std::setprecision(precision);
         sstream << d;
         std::string s = sstream.str();
-- 
2.43.0


From cbc17b298aae83fa20f1290472933568f775d5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:51 +0000
Subject: [PATCH 27/37] fix: a clipping that runs out of memory frees its
 intersections once

---
 delynoi/src/models/hole/clipper/lib/clipper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/delynoi/src/models/hole/clipper/lib/clipper.cpp b/delynoi/src/models/hole/clipper/lib/clipper.cpp
index 177f34e..d85e8db 100644
--- a/delynoi/src/models/hole/clipper/lib/clipper.cpp
+++ b/delynoi/src/models/hole/clipper/lib/clipper.cpp
@@ -2909,6 +2909,7 @@ void Clipper::ProcessIntersectList()
       SwapPositionsInAEL( iNode->Edge1 , iNode->Edge2 );
     }
     delete iNode;
+    m_IntersectList[i] = 0;
   }
   m_IntersectList.clear();
 }
-- 
2.43.0


From cc4f9bf9d43d52141fda4235fce2ca2197a97192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:14 +0000
Subject: [PATCH 28/37] fix: parallel segments do not intersect by rounding
 errors

---
 delynoi/src/models/basic/Segment.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/delynoi/src/models/basic/Segment.cpp b/delynoi/src/models/basic/Segment.cpp
index 8f479a7..c598746 100644
--- a/delynoi/src/models/basic/Segment.cpp
+++ b/delynoi/src/models/basic/Segment.cpp
@@ -1,4 +1,6 @@
 #include <delynoi/models/basic/Segment.h>
+#include <algorithm>
+#include <limits>
 
 template <class T>
 Segment<T>::Segment(T p1, T p2) {
@@ -53,6 +55,14 @@ bool Segment<T>::intersects(Point p1, Point p2, Point o1, Point o2, Point &inter
     s1_x = p2.getX() - p1.getX();     s1_y = p2.getY() - p1.getY();
     s2_x = o2.getX() - o1.getX();     s2_y = o2.getY() - o1.getY();
 
+    //Parallel segments do not intersect: all that is left of the quotients below are rounding errors
+    double largest = std::max({std::abs(p1.getX()), std::abs(p1.getY()), std::abs(p2.getX()), std::abs(p2.getY()),
+                               std::abs(o1.getX()), std::abs(o1.getY()), std::abs(o2.getX()), std::abs(o2.getY())});
+    double lengths = std::abs(s1_x) + std::abs(s1_y) + std::abs(s2_x) + std::abs(s2_y);
+    if(std::abs(-s2_x * s1_y + s1_x * s2_y) <= 4*std::numeric_limits<double>::epsilon()*largest*lengths){
+        return false;
+    }
+
     double s, t;
     s = (-s1_y * (p1.getX() - o1.getX()) + s1_x * (p1.getY() - o1.getY())) / (-s2_x * s1_y + s1_x * s2_y);
     t = ( s2_x * (p1.getY() - o1.getY()) - s2_y * (p1.getX() - o1.getX())) / (-s2_x * s1_y + s1_x * s2_y);
-- 
2.43.0


From 8d9a020690956eced8fa7ad9bb8f925bb036c861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:38 +0000
Subject: [PATCH 29/37] fix: pop_front keeps the positions of the other
 elements

---
 lib/utilities/include/utilities/UniqueList.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/utilities/include/utilities/UniqueList.h b/lib/utilities/include/utilities/UniqueList.h
index 3a58187..b19be4a 100644
--- a/lib/utilities/include/utilities/UniqueList.h
+++ b/lib/utilities/include/utilities/UniqueList.h
@@ -67,10 +67,17 @@ int UniqueList<T>::force_push_back(T &item) {
 
 template <class T>
 void UniqueList<T>::pop_front() {
-    T elem = this->list[0];
+    auto iter = map.find(this->list[0]);
+
+    if(iter != map.end() && iter->second == 0){
+        map.erase(iter);
+    }
 
     this->list.erase(this->list.begin());
-    this->map.erase(elem);
+
+    for(auto& element : map){
+        element.second--;
+    }
 }
 
 template <class T>
-- 
2.43.0


From 72f37c977e59709e14ead0bcf30f8dd77b79bacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:38 +0000
Subject: [PATCH 30/37] fix: a list that runs out of memory is left as it was

---
 lib/utilities/include/utilities/UniqueList.h | 22 ++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/lib/utilities/include/utilities/UniqueList.h b/lib/utilities/include/utilities/UniqueList.h
index b19be4a..31b9786 100644
--- a/lib/utilities/include/utilities/UniqueList.h
+++ b/lib/utilities/include/utilities/UniqueList.h
@@ -49,8 +49,14 @@ int UniqueList<T>::push_back(T& item) {
     auto it = map.upper_bound(item);
 
     if (it == map.begin() || (--it)->first < item) {
-        map.insert(it, std::make_pair(item, list.size()));
-        list.push_back(item);
+        auto inserted = map.insert(it, std::make_pair(item, list.size()));
+
+        try{
+            list.push_back(item);
+        }catch(...){
+            map.erase(inserted);
+            throw;
+        }
 
         return (int) list.size()-1;
     }else{
@@ -168,13 +174,17 @@ void UniqueList<T>::delete_element(T item) {
     }
 
     auto iter = map.find(item);
-    this->list.erase(this->list.begin() + iter->second);
-    this->map.clear();
+    int index = iter->second;
+    std::map<T,int> remaining;
 
     for (int i=0;i<this->list.size();i++){
-        T e = this->list[i];
-        map.insert(std::make_pair(e, i));
+        if(i != index){
+            remaining.insert(std::make_pair(this->list[i], i < index? i : i-1));
+        }
     }
+
+    this->list.erase(this->list.begin() + index);
+    this->map.swap(remaining);
 }
 
 
-- 
2.43.0


From 33895284e673f7998f328276a365f19d692f3467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:39 +0000
Subject: [PATCH 31/37] fix: the center of a concave hole lies inside of the
 hole

---
 delynoi/src/models/hole/PolygonalHole.cpp | 50 +++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/delynoi/src/models/hole/PolygonalHole.cpp b/delynoi/src/models/hole/PolygonalHole.cpp
index 2020647..ef2c963 100644
--- a/delynoi/src/models/hole/PolygonalHole.cpp
+++ b/delynoi/src/models/hole/PolygonalHole.cpp
@@ -1,4 +1,44 @@
 #include <delynoi/models/hole/PolygonalHole.h>
+#include <algorithm>
+
+namespace {
+    //Point well inside of the polygon: the middle of the widest part of it along some horizontal line between two vertices
+    Point innerPoint(const std::vector<Point>& p, Point inner){
+        std::vector<double> heights;
+        for(const Point& point: p){
+            heights.push_back(point.getY());
+        }
+        std::sort(heights.begin(), heights.end());
+
+        double widest = 0;
+
+        for(int i=0;i+1<heights.size();i++){
+            double y = (heights[i] + heights[i+1])/2;
+            std::vector<double> crossings;
+
+            for(int j=0;j<p.size();j++){
+                const Point& a = p[j];
+                const Point& b = p[(j+1)%p.size()];
+
+                if((a.getY()>y) != (b.getY()>y)){
+                    crossings.push_back(a.getX() + (y-a.getY())/(b.getY()-a.getY())*(b.getX()-a.getX()));
+                }
+            }
+            std::sort(crossings.begin(), crossings.end());
+
+            for(int j=0;j+1<crossings.size();j+=2){
+                double width = std::min(crossings[j+1] - crossings[j], heights[i+1] - heights[i]);
+
+                if(width>widest){
+                    widest = width;
+                    inner = Point((crossings[j] + crossings[j+1])/2, y);
+                }
+            }
+        }
+
+        return inner;
+    }
+}
 
 PolygonalHole::PolygonalHole(std::vector<Point>& p) : Polygon(p) {
     for(int i=0;i<p.size();i++){
@@ -6,6 +46,16 @@ PolygonalHole::PolygonalHole(std::vector<Point>& p) : Polygon(p) {
     }
     this->center = this->getCentroid(p);
     Polygon::getSegments(this->segments);
+
+    //The centroid of a concave hole can be out of it, but the center of a hole has to tell where the hole is
+    bool inside = Hole::containsPoint(this->center);
+    for(IndexSegment segment: this->segments){
+        inside = inside && !segment.contains(this->HolePoints, this->center);
+    }
+
+    if(!inside){
+        this->center = innerPoint(this->HolePoints, this->center);
+    }
 }
 
 
-- 
2.43.0


From fe6ac4d95ad283b394fc5f9b758a07da05656109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 32/37] fix: integer noise of one size only has both signs

The sign was drawn from the range of the sizes, so that a range of a single
value always gave the same sign.
---
 .../delynoi/models/generator/noise/RandomIntegerNoise.h        | 1 +
 delynoi/src/models/generator/noise/RandomIntegerNoise.cpp      | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/delynoi/include/delynoi/models/generator/noise/RandomIntegerNoise.h b/delynoi/include/delynoi/models/generator/noise/RandomIntegerNoise.h
index 4998796..2a57e79 100644
--- a/delynoi/include/delynoi/models/generator/noise/RandomIntegerNoise.h
+++ b/delynoi/include/delynoi/models/generator/noise/RandomIntegerNoise.h
@@ -27,6 +27,7 @@ private:
     static std::default_random_engine rd;
     static std::mt19937 rng;
     std::uniform_int_distribution<int> uni;
+    std::uniform_int_distribution<int> sign;
 public:
     /*
      * Constructor.
diff --git a/delynoi/src/models/generator/noise/RandomIntegerNoise.cpp b/delynoi/src/models/generator/noise/RandomIntegerNoise.cpp
index 278ddb8..55711ef 100644
--- a/delynoi/src/models/generator/noise/RandomIntegerNoise.cpp
+++ b/delynoi/src/models/generator/noise/RandomIntegerNoise.cpp
@@ -8,8 +8,9 @@ RandomIntegerNoise::RandomIntegerNoise(Functor *f, double min, double max) {
     this->max = max;
     this->f = f;
     this->uni = std::uniform_int_distribution<int>(min,max);
+    this->sign = std::uniform_int_distribution<int>(0,1);
 }
 
 double RandomIntegerNoise::apply(double x) {
-    return f->apply(x) + (uni)(this->rng) * ((uni)(this->rng)%2? 1 : -1);
+    return f->apply(x) + (uni)(this->rng) * ((sign)(this->rng)? 1 : -1);
 }
-- 
2.43.0


From dd9818831d893ba75a2bd90477739e3d8293952b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:40 +0000
Subject: [PATCH 33/37] fix: order of Triangle's edges depended on where its
 memory pool got its blocks

---
 .../include/delynoi/voronoi/lib/triangle.c    | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/delynoi/include/delynoi/voronoi/lib/triangle.c b/delynoi/include/delynoi/voronoi/lib/triangle.c
index 7124013..a2338f3 100644
--- a/delynoi/include/delynoi/voronoi/lib/triangle.c
+++ b/delynoi/include/delynoi/voronoi/lib/triangle.c
@@ -14868,13 +14868,17 @@ char **argv;
   /*   the three edges of each triangle.  If there isn't another triangle  */
   /*   adjacent to the edge, operate on the edge.  If there is another     */
   /*   adjacent triangle, operate on the edge only if the current triangle */
-  /*   has a smaller pointer than its neighbor.  This way, each edge is    */
-  /*   considered only once.                                               */
+  /*   comes first in the traversal (its neighbor is not infected yet), or */
+  /*   has a smaller pointer than its neighbor if there are no segments    */
+  /*   and thus no place to infect.  This way, each edge is considered     */
+  /*   only once, and with segments their order does not depend on where   */
+  /*   the memory pool got its blocks.                                     */
   while (triangleloop.tri != (triangle *) NULL) {
     for (triangleloop.orient = 0; triangleloop.orient < 3;
          triangleloop.orient++) {
       sym(triangleloop, trisym);
-      if ((triangleloop.tri < trisym.tri) || (trisym.tri == m->dummytri)) {
+      if ((trisym.tri == m->dummytri) ||
+          (b->usesegments ? !infected(trisym) : triangleloop.tri < trisym.tri)) {
         org(triangleloop, p1);
         dest(triangleloop, p2);
 #ifdef TRILIBRARY
@@ -14919,8 +14923,20 @@ char **argv;
         edgenumber++;
       }
     }
+    if (b->usesegments) {
+      infect(triangleloop);
+    }
     triangleloop.tri = triangletraverse(m);
   }
+  if (b->usesegments) {
+    /* Leave the triangles as they were. */
+    traversalinit(&m->triangles);
+    triangleloop.tri = triangletraverse(m);
+    while (triangleloop.tri != (triangle *) NULL) {
+      uninfect(triangleloop);
+      triangleloop.tri = triangletraverse(m);
+    }
+  }
 
 #ifndef TRILIBRARY
   finishfile(outfile, argc, argv);
-- 
2.43.0


From 166b1de7a921c860a89bb5d5cbccd99d1bd82d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:50 +0000
Subject: [PATCH 34/37] fix: boundary points at the place of a circumcenter
 were not marked as such

The corners and edge midpoints that a Voronoi cell takes from the boundary are added to the list of circumcenters. When
the circumcenter of a triangle lies there (a right angle opposite to a boundary edge is enough), the list already has
the point and keeps that one, which is not marked as a boundary point.
---
 delynoi/src/voronoi/DelaunayToVoronoi.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/delynoi/src/voronoi/DelaunayToVoronoi.cpp b/delynoi/src/voronoi/DelaunayToVoronoi.cpp
index 89c199e..cef096a 100644
--- a/delynoi/src/voronoi/DelaunayToVoronoi.cpp
+++ b/delynoi/src/voronoi/DelaunayToVoronoi.cpp
@@ -73,8 +73,8 @@ DelaunayToVoronoi::DelaunayToVoronoi(DelaunayInfo& del) {
 
                 voronoiEdges->insert(e, cellIndex);
             } else{
-                regionCenter.setBoundary();
                 int regionIndex = del.circumcenters.push_back(regionCenter);
+                del.circumcenters[regionIndex].setBoundary();
 
                 cellPoints.push_back(regionIndex);
                 pointMap->insert(del.circumcenters[regionIndex], cellIndex);
@@ -110,9 +110,10 @@ int DelaunayToVoronoi::getCircumcenter(DelaunayInfo& del, int triangle, int edge
         return del.triangles[triangle].getCircumcenterIndex();
     }else{
         Point middlePoint = IndexSegment(del.edges[edge].p1, del.edges[edge].p2).middlePoint(del.meshPoints);
-        middlePoint.setBoundary();
 
+        //The circumcenter of a triangle can be at the same place: then the list has it already, and keeps that one
         int circumcenterIndex = del.circumcenters.push_back(middlePoint);
+        del.circumcenters[circumcenterIndex].setBoundary();
 
         return circumcenterIndex;
     }
-- 
2.43.0


From d12860a800f7ca807c34ab135204eac2e3bb596f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:58 +0000
Subject: [PATCH 35/37] fix: ear triangulation cut off the reflex corners of a
 polygon too

---
 delynoi/src/triangulation/EarTriangulationGenerator.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/delynoi/src/triangulation/EarTriangulationGenerator.cpp b/delynoi/src/triangulation/EarTriangulationGenerator.cpp
index fc73a4e..447b448 100644
--- a/delynoi/src/triangulation/EarTriangulationGenerator.cpp
+++ b/delynoi/src/triangulation/EarTriangulationGenerator.cpp
@@ -14,11 +14,15 @@ Triangle EarTriangulationGenerator::getEar(std::vector<Point>& points, std::vect
         return ear;
     }
 
+    double area = geometry_functions::area(points, pointList);
+
     for(int i=0;i<size;i++){
         bool test = false;
         Triangle t ({pointList[(size+i-1)%size], pointList[i%size], pointList[(size+i+1)%size]}, points);
 
-        if(t.isConvex(points)){
+        //The triangle is convex anyway: it is the corner of the polygon that has to turn the way the polygon does
+        if(delynoi_utilities::orientation(points[pointList[(size+i-1)%size]], points[pointList[i]],
+                                         points[pointList[(i+1)%size]])*area>0){
             for(int j=0;j<size;j++){
                 if(!t.isVertex(pointList[j]) && t.containsPoint(points, points[pointList[j]])){
                     test = true;
-- 
2.43.0


From 59aacdc265c8533cf0c77d9ee0f61ecfbe92e939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:58 +0000
Subject: [PATCH 36/37] fix: polygons whose first corner is flat were always
 taken for convex ones

---
 delynoi/src/models/polygon/Polygon.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index 775857c..91e95b4 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -204,6 +204,11 @@ bool Polygon::isConvex(std::vector<Point>& p) {
         if(determinant*newResult<0){
             return false;
         }
+
+        //A flat corner does not say which way the polygon turns
+        if(determinant==0){
+            determinant = newResult;
+        }
     }
 
     return true;
-- 
2.43.0


From 6094177ae8af8bf6cbfeae0939b6de4d2a4b26a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:11 +0000
Subject: [PATCH 37/37] fix: Delaunay triangulation of a polygon numbered its
 points anew

---
 .../DelaunayTriangulationGenerator.cpp        | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/delynoi/src/triangulation/DelaunayTriangulationGenerator.cpp b/delynoi/src/triangulation/DelaunayTriangulationGenerator.cpp
index 0c75bb6..e4c703a 100644
--- a/delynoi/src/triangulation/DelaunayTriangulationGenerator.cpp
+++ b/delynoi/src/triangulation/DelaunayTriangulationGenerator.cpp
@@ -3,8 +3,28 @@
 std::vector<Triangle> DelaunayTriangulationGenerator::triangulate(Polygon p, std::vector<Point>& points) {
     Region r (p, points);
 
-    TriangleDelaunayGenerator generator(points,r);
+    //The triangulation numbers the corners of the polygon, the caller wants the numbers of the points it gave
+    std::vector<int> indexes = p.getPoints();
+    std::vector<Point> corners = p.getPoints(points);
+    TriangleDelaunayGenerator generator(corners,r);
     Mesh<Triangle> triangulation = generator.getConstrainedDelaunayTriangulation();
 
-    return triangulation.getPolygons();
+    std::vector<int> uniqueIndexes;
+    UniqueList<Point> uniqueCorners;
+    for(int i=0;i<corners.size();i++){
+        if(uniqueCorners.push_back(corners[i])==uniqueIndexes.size()){
+            uniqueIndexes.push_back(indexes[i]);
+        }
+    }
+
+    std::vector<Triangle> triangles;
+    for(Triangle triangle : triangulation.getPolygons()){
+        std::vector<int> trianglePoints;
+        for(int point : triangle.getPoints()){
+            trianglePoints.push_back(uniqueIndexes[point]);
+        }
+        triangles.push_back(Triangle(trianglePoints, points));
+    }
+
+    return triangles;
 }
-- 
2.43.0


// Answers geometric questions about triangles (3 nodes), tetrahedra (4) and hexahedra (8).
//
// request:  <nodes> <spheres>, then x y z per node, then x y z radius per sphere
// answer:   volumes and centroid (cells only), one line per sphere (classification, greatest distance to a node), then "end"
#include <cstdio>
#include <vector>
#include "Peridigm_GeometryUtils.hpp"

using namespace PeridigmNS;

int main()
{
  int nodes, spheres;
  while(std::scanf("%d %d", &nodes, &spheres) == 2){
    std::vector<double> x(3*nodes), s(4*spheres);
    for(size_t i=0 ; i<x.size() ; ++i)
      if(std::scanf("%lf", &x[i]) != 1) return 2;
    for(size_t i=0 ; i<s.size() ; ++i)
      if(std::scanf("%lf", &s[i]) != 1) return 2;
    std::vector<double*> node(nodes);
    for(int i=0 ; i<nodes ; ++i)
      node[i] = &x[3*i];
    double centroid[3], volume = 0.0, again = 0.0;
    if(nodes == 4){
      tetCentroidAndVolume(&x[0], centroid, &volume);
      tetVolume(&x[0], &again);
      std::vector<double> c(3);
      tetCentroid(node, c);
      std::printf("%.17g %.17g %.17g %.17g %.17g %.17g\n", volume, again, tetVolume(node), centroid[0], centroid[1], centroid[2]);
      std::printf("%.17g %.17g %.17g\n", c[0], c[1], c[2]);
    }
    if(nodes == 8){
      hexCentroidAndVolume(&x[0], centroid, &volume);
      hexVolume(&x[0], &again);
      std::printf("%.17g %.17g %.17g %.17g %.17g %.17g\n", volume, again, hexVolume(node), centroid[0], centroid[1], centroid[2]);
    }
    for(int i=0 ; i<spheres ; ++i){
      const std::vector<double> center(&s[4*i], &s[4*i]+3);
      SphereIntersection where;
      if(nodes == 3)
        where = triangleSphereIntersection(node, center, s[4*i+3]);
      else if(nodes == 4)
        where = tetrahedronSphereIntersection(&x[0], center, s[4*i+3]);
      else
        where = hexahedronSphereIntersection(&x[0], center, s[4*i+3]);
      const char* name = where == INSIDE_SPHERE ? "inside" : where == INTERSECTS_SPHERE ? "intersects" : where == OUTSIDE_SPHERE ? "outside" : "?";
      std::printf("%s %.17g\n", name, maxDistanceToNode(nodes, &x[0], &center[0]));
    }
    std::printf("end\n");
    std::fflush(stdout);
  }
  return 0;
}

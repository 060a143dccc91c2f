// Answers spatial queries read from standard input with every search structure of the repository.
//
// request:  <points> <queries>, then x y z per point, then x y z radius per query
// answer:   per query four lines (kd-tree ball, Zoltan ball, kd-tree cube, nearest point), then "end"
#include <cstdio>
#include <vector>
#include <Teuchos_GlobalMPISession.hpp>
#include "Peridigm_JAMSearchTree.hpp"
#include "Peridigm_ZoltanSearchTree.hpp"
#include "kdtree.h"

static void print(const std::vector<int>& ids)
{
  std::printf("%d", static_cast<int>(ids.size()));
  for(size_t i=0 ; i<ids.size() ; ++i)
    std::printf(" %d", ids[i]);
  std::printf("\n");
}

int main(int argc, char* argv[])
{
  Teuchos::GlobalMPISession session(&argc, &argv, 0);
  int numPoints, numQueries;
  while(std::scanf("%d %d", &numPoints, &numQueries) == 2){
    std::vector<double> x(3*numPoints), q(4*numQueries);
    for(size_t i=0 ; i<x.size() ; ++i)
      if(std::scanf("%lf", &x[i]) != 1) return 2;
    for(size_t i=0 ; i<q.size() ; ++i)
      if(std::scanf("%lf", &q[i]) != 1) return 2;
    PeridigmNS::JAMSearchTree jam(numPoints, x.data());
    PeridigmNS::ZoltanSearchTree zoltan(numPoints, x.data());
    femanica::kdtree<double,int> tree = femanica::kdtree<double,int>::get_tree(x.data(), numPoints);
    for(int i=0 ; i<numQueries ; ++i){
      std::vector<int> a, b, c;
      jam.FindPointsWithinRadius(&q[4*i], q[4*i+3], a);
      zoltan.FindPointsWithinRadius(&q[4*i], q[4*i+3], b);
      tree.all_neighbors_cube(&q[4*i], q[4*i+3], c);
      int nearest = tree.nearest_neighbor_search(std::vector<double>(&q[4*i], &q[4*i]+3));
      print(a);
      print(b);
      print(c);
      std::printf("%d\n", nearest);
    }
    std::printf("end\n");
    std::fflush(stdout);
  }
  return 0;
}

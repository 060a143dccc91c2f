// Runs a sequence of operations on a data manager and reports the stored values after each "dump".
//
// request (read by the first process):  <number of bytes> and
//   <fields>   per field: label relation length temporal
//   <points>   per point: number of bonds
//   <layouts>  per layout and process: number of owned points, their ids, number of ghosts, their ids
//   <operations>:
//     write <field> <step> <seed>     values that depend on point, component, seed and, for ghosts, on the process
//     update | scatter | rebalance <layout> | dump
//     save | load                     to and from disk
//     copy <seed>                     into another manager that holds a part of the points; dumps that one
//     absent <field>                  asks for a field that has not been allocated
// answer: the lines of every process, then "end"
#include <mpi.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <Epetra_MpiComm.h>
#include <Epetra_SerialComm.h>
#include "Peridigm_DataManager.hpp"
#include "Peridigm_Field.hpp"

using namespace PeridigmNS;
using Teuchos::RCP;
using Teuchos::rcp;

static int rank, size;
static const char* STEPS[] = {"none", "n", "np1"};
static const PeridigmField::Step STEP[] = {PeridigmField::STEP_NONE, PeridigmField::STEP_N, PeridigmField::STEP_NP1};

static double value(long gid, long component, long seed, long extra)
{
  static const double scales[] = {1.0, 1e-30, 1e25, 3e-3};
  const long k = (gid*7919 + component*104729 + seed*1299709 + extra*15485863) % 1000003;
  return (k/97.0 - 5000.0)*scales[seed%4];
}

struct Maps {
  RCP<const Epetra_BlockMap> owned1, all1, owned3, all3, bonds;
};

static RCP<const Epetra_BlockMap> makeMap(std::vector<int> ids, int length, const Epetra_Comm& comm)
{
  int none = 0;
  return rcp(new Epetra_BlockMap(-1, ids.size(), ids.empty() ? &none : &ids[0], length, 0, comm));
}

static Maps makeMaps(const std::vector<int>& owned, const std::vector<int>& ghosts, const std::vector<int>& numBonds, const Epetra_Comm& comm)
{
  std::vector<int> all(owned), bonded, sizes;
  all.insert(all.end(), ghosts.begin(), ghosts.end());
  for(size_t i=0 ; i<owned.size() ; ++i)
    if(numBonds[owned[i]] > 0){
      bonded.push_back(owned[i]);
      sizes.push_back(numBonds[owned[i]]);
    }
  Maps m;
  m.owned1 = makeMap(owned, 1, comm);
  m.all1 = makeMap(all, 1, comm);
  m.owned3 = makeMap(owned, 3, comm);
  m.all3 = makeMap(all, 3, comm);
  int none = 0;
  m.bonds = rcp(new Epetra_BlockMap(-1, bonded.size(), bonded.empty() ? &none : &bonded[0], sizes.empty() ? &none : &sizes[0], 0, comm));
  return m;
}

static void dump(std::ostream& out, DataManager& dm, const std::vector<int>& fields)
{
  for(size_t f=0 ; f<fields.size() ; ++f)
    for(int s=0 ; s<3 ; ++s){
      if(!dm.hasData(fields[f], STEP[s]))
        continue;
      const Epetra_Vector& v = *dm.getData(fields[f], STEP[s]);
      out << "data " << f << " " << STEPS[s];
      char text[40];
      for(int i=0 ; i<v.Map().NumMyElements() ; ++i){
        out << " " << v.Map().GID(i) << ":" << v.Map().ElementSize(i);
        for(int k=0 ; k<v.Map().ElementSize(i) ; ++k){
          std::snprintf(text, sizeof(text), " %.17g", v[v.Map().FirstPointInElement(i)+k]);
          out << text;
        }
      }
      out << "\n";
    }
  out << "dumped\n";
}

static std::string answer(std::istream& in)
{
  std::ostringstream out;
  FieldManager& fm = FieldManager::self();
  int n;
  std::string word;
  in >> n;
  std::vector<int> fields(n);
  std::vector<bool> global(n);
  for(int f=0 ; f<n ; ++f){
    std::string label, relation, temporal;
    int length;
    in >> label >> relation >> length >> temporal;
    PeridigmField::Relation r = relation == "node" ? PeridigmField::NODE : relation == "element" ? PeridigmField::ELEMENT :
                                relation == "bond" ? PeridigmField::BOND : PeridigmField::GLOBAL;
    global[f] = relation == "global";
    // scalars, vectors and tensors go by these names in the code
    PeridigmField::Length l = length == 1 ? PeridigmField::SCALAR : length == 3 ? PeridigmField::VECTOR :
                              length == 6 ? PeridigmField::SYMMETRIC_TENSOR : length == 9 ? PeridigmField::FULL_TENSOR :
                              static_cast<PeridigmField::Length>(length);
    fields[f] = fm.getFieldId(r, l, temporal == "two" ? PeridigmField::TWO_STEP : PeridigmField::CONSTANT, label);
    if(fm.getFieldId(label) != fields[f] || !fm.hasField(label) || fm.getFieldSpec(fields[f]).getLabel() != label ||
       fm.getFieldSpec(label).getId() != fields[f] || fm.isGlobalSpec(fields[f]) != global[f])
      out << "field " << label << " is not found again\n";
  }
  int points;
  in >> points;
  std::vector<int> numBonds(points);
  for(int i=0 ; i<points ; ++i)
    in >> numBonds[i];

  Epetra_MpiComm comm(MPI_COMM_WORLD);
  std::vector<Maps> layouts;
  std::vector<std::vector<int> > ownedOf, ghostsOf;
  in >> n;
  for(int l=0 ; l<n ; ++l)
    for(int p=0 ; p<size ; ++p){
      int count;
      in >> count;
      std::vector<int> owned(count);
      for(int i=0 ; i<count ; ++i)
        in >> owned[i];
      in >> count;
      std::vector<int> ghosts(count);
      for(int i=0 ; i<count ; ++i)
        in >> ghosts[i];
      if(p == rank){
        layouts.push_back(makeMaps(owned, ghosts, numBonds, comm));
        ownedOf.push_back(owned);
        ghostsOf.push_back(ghosts);
      }
    }

  int now = 0;
  DataManager dm;
  dm.setMaps(layouts[0].owned1, layouts[0].all1, layouts[0].owned3, layouts[0].all3, layouts[0].bonds);
  dm.allocateData(fields);
  // global data is shared by all managers of the process
  for(size_t f=0 ; f<fields.size() ; ++f)
    for(int s=0 ; s<3 ; ++s)
      if(global[f] && dm.hasData(fields[f], STEP[s]))
        dm.getData(fields[f], STEP[s])->PutScalar(0.0);

  in >> n;
  int rebalanced = 0;
  for(int op=0 ; op<n ; ++op){
    in >> word;
    if(word == "write"){
      int f, s;
      long seed;
      in >> f >> s >> seed;
      Epetra_Vector& v = *dm.getData(fields[f], STEP[s]);
      for(int i=0 ; i<v.Map().NumMyElements() ; ++i){
        const int gid = v.Map().GID(i);
        const bool ghost = !global[f] && !layouts[now].owned1->MyGID(gid);
        for(int k=0 ; k<v.Map().ElementSize(i) ; ++k)
          v[v.Map().FirstPointInElement(i)+k] = value(gid, k, seed, ghost ? rank+1 : 0);
      }
    }
    else if(word == "update")
      dm.updateState();
    else if(word == "scatter")
      dm.scatterToGhosts();
    else if(word == "rebalance"){
      in >> now;
      const Maps& m = layouts[now];
      dm.rebalance(m.owned1, m.all1, m.owned3, m.all3, m.bonds);
      if(dm.getRebalanceCount() != ++rebalanced)
        out << "rebalanced " << dm.getRebalanceCount() << " times\n";
    }
    else if(word == "dump")
      dump(out, dm, fields);
    else if(word == "save" || word == "load"){
      mkdir("disk", 0700);
      MPI_Barrier(MPI_COMM_WORLD);
      if(word == "save")
        dm.writeBlocktoDisk("block", "disk");
      else
        dm.readBlockfromDisk("block", "disk");
      MPI_Barrier(MPI_COMM_WORLD);
    }
    else if(word == "copy"){
      int seed;
      in >> seed;
      Epetra_SerialComm self;
      std::vector<int> owned, ghosts;
      // a part of the points, in another order
      for(int i=ownedOf[now].size()-1 ; i>=0 ; --i)
        if((ownedOf[now][i]*7 + seed) % 3 != 0)
          owned.push_back(ownedOf[now][i]);
      for(int i=ghostsOf[now].size()-1 ; i>=0 ; --i)
        if((ghostsOf[now][i]*7 + seed) % 3 != 0)
          ghosts.push_back(ghostsOf[now][i]);
      Maps m = makeMaps(owned, ghosts, numBonds, self);
      DataManager part;
      part.setMaps(m.owned1, m.all1, m.owned3, m.all3, m.bonds);
      part.allocateData(fields);
      part.copyLocallyOwnedDataFromDataManager(dm);
      dump(out, part, fields);
    }
    else if(word == "absent"){
      std::string label;
      in >> label;
      const int id = fm.getFieldId(PeridigmField::ELEMENT, PeridigmField::SCALAR, PeridigmField::CONSTANT, label);
      for(int s=0 ; s<3 ; ++s){
        if(dm.hasData(id, STEP[s]))
          out << "field " << label << " is there\n";
        bool refused = false;
        try {
          dm.getData(id, STEP[s]);
        }
        catch(const std::exception&){
          refused = true;
        }
        if(!refused)
          out << "field " << label << " is not there but was returned\n";
      }
    }
  }
  return out.str();
}

int main(int argc, char* argv[])
{
  MPI_Init(&argc, &argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &rank);
  MPI_Comm_size(MPI_COMM_WORLD, &size);
  for(;;){
    int bytes = 0, arrived = 0;
    if(rank == 0){
      if(std::scanf("%d", &bytes) != 1)
        bytes = 0;
      for(int p=1 ; p<size ; ++p)
        MPI_Send(&bytes, 1, MPI_INT, p, 0, MPI_COMM_WORLD);
    }
    else{
      // wait without keeping the processor busy
      while(MPI_Iprobe(0, 0, MPI_COMM_WORLD, &arrived, MPI_STATUS_IGNORE), !arrived)
        usleep(200);
      MPI_Recv(&bytes, 1, MPI_INT, 0, 0, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
    }
    if(bytes == 0)
      break;
    std::string text(bytes, ' ');
    if(rank == 0){
      std::getchar();
      if(std::fread(&text[0], 1, bytes, stdin) != static_cast<size_t>(bytes))
        MPI_Abort(MPI_COMM_WORLD, 2);
    }
    MPI_Bcast(&text[0], bytes, MPI_CHAR, 0, MPI_COMM_WORLD);
    std::istringstream in(text);
    const std::string mine = answer(in);
    int length = mine.size();
    std::vector<int> lengths(size), offsets(size+1);
    MPI_Gather(&length, 1, MPI_INT, &lengths[0], 1, MPI_INT, 0, MPI_COMM_WORLD);
    for(int p=0 ; p<size ; ++p)
      offsets[p+1] = offsets[p] + lengths[p];
    std::vector<char> everything(offsets[size]+1);
    MPI_Gatherv(const_cast<char*>(mine.data()), length, MPI_CHAR, &everything[0], &lengths[0], &offsets[0], MPI_CHAR, 0, MPI_COMM_WORLD);
    if(rank == 0){
      for(int p=0 ; p<size ; ++p)
        std::printf("process %d\n%s", p, std::string(&everything[offsets[p]], lengths[p]).c_str());
      std::printf("end\n");
      std::fflush(stdout);
    }
  }
  MPI_Finalize();
  return 0;
}

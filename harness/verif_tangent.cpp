// Tangent matrix of a material model and the differences of its internal force.
//
// request:  <number of bytes> and a parameter list in XML with
//             Material            parameters of the material model
//             Influence Function, Horizon, Step, Owned, Block Diagonal
//             X, V, Damage, Temperature, Neighborhood (count, ids, count, ids, ...), Ids (global ids)
//             Y                   current positions after each step of the history, one step after the other
//             Pressure, Pressure Scale  of the fluid; no values if the fluid is not solved for
//             Probe               length of the differences
// answer:   tangent matrix, differences with Probe, differences with Probe/2 (row by row), then "end"
#include <cstdio>
#include <set>
#include <string>
#include <vector>
#include <Epetra_FECrsMatrix.h>
#include <Epetra_Map.h>
#include <Epetra_MpiComm.h>
#include <Teuchos_Array.hpp>
#include <Teuchos_GlobalMPISession.hpp>
#include <Teuchos_ParameterList.hpp>
#include <Teuchos_XMLParameterListCoreHelpers.hpp>
#include "Peridigm_DataManager.hpp"
#include "Peridigm_DegreesOfFreedomManager.hpp"
#include "Peridigm_Field.hpp"
#include "Peridigm_InfluenceFunction.hpp"
#include "Peridigm_MaterialFactory.hpp"
#include "Peridigm_SerialMatrix.hpp"

using namespace PeridigmNS;
typedef Teuchos::Array<double> Doubles;
typedef Teuchos::Array<int> Ints;

static void print(const std::vector<double>& m)
{
  for(size_t i=0 ; i<m.size() ; ++i)
    std::printf("%.17g%c", m[i], i+1<m.size() ? ' ' : '\n');
}

static void answer(Teuchos::ParameterList& in)
{
  const Doubles x = in.get<Doubles>("X"), vol = in.get<Doubles>("V"), y = in.get<Doubles>("Y"), damage = in.get<Doubles>("Damage"),
                temperature = in.get<Doubles>("Temperature");
  const Ints nb = in.get<Ints>("Neighborhood"), ids = in.get<Ints>("Ids");
  const double dt = in.get<double>("Step"), probe = in.get<double>("Probe");
  const Doubles pressure = in.get<Doubles>("Pressure");
  const int n = vol.size(), owned = in.get<int>("Owned"), steps = y.size()/(3*n);

  InfluenceFunction::self().setInfluenceFunction(in.get<std::string>("Influence Function"));
  static bool first = true;
  if(first){
    Teuchos::ParameterList solver;
    solver.set("Solve For Pressure", pressure.size() > 0);
    DegreesOfFreedomManager::self().initialize(solver);
  }
  first = false;
  const int dof = DegreesOfFreedomManager::self().totalNumberOfDegreesOfFreedom(), dim = dof*n;
  MaterialFactory factory;
  Teuchos::RCP<Material> mat = factory.create(in.sublist("Material"));

  FieldManager& fm = FieldManager::self();
  const int volumeId = fm.getFieldId(PeridigmField::ELEMENT, PeridigmField::SCALAR, PeridigmField::CONSTANT, "Volume");
  const int horizonId = fm.getFieldId(PeridigmField::ELEMENT, PeridigmField::SCALAR, PeridigmField::CONSTANT, "Horizon");
  const int xId = fm.getFieldId(PeridigmField::NODE, PeridigmField::VECTOR, PeridigmField::CONSTANT, "Model_Coordinates");
  const int yId = fm.getFieldId(PeridigmField::NODE, PeridigmField::VECTOR, PeridigmField::TWO_STEP, "Coordinates");
  const int vId = fm.getFieldId(PeridigmField::NODE, PeridigmField::VECTOR, PeridigmField::TWO_STEP, "Velocity");
  const int fId = fm.getFieldId(PeridigmField::NODE, PeridigmField::VECTOR, PeridigmField::TWO_STEP, "Force_Density");
  const int bondId = fm.getFieldId(PeridigmField::BOND, PeridigmField::SCALAR, PeridigmField::TWO_STEP, "Bond_Damage");
  const std::vector<int> own = mat->FieldIds();
  std::set<int> unique(own.begin(), own.end());
  const int more[] = {volumeId, horizonId, xId, yId, vId, fId, bondId};
  unique.insert(more, more+7);

  Epetra_MpiComm comm(MPI_COMM_SELF);
  std::vector<int> ownedIds(owned), sizes(owned);
  for(int i=0, k=0 ; i<owned ; ++i){
    ownedIds[i] = i;
    sizes[i] = nb[k];
    k += nb[k]+1;
  }
  Epetra_BlockMap owned1(owned, owned, ids.getRawPtr(), 1, 0, comm), all1(n, n, ids.getRawPtr(), 1, 0, comm),
                  owned3(owned, owned, ids.getRawPtr(), 3, 0, comm), all3(n, n, ids.getRawPtr(), 3, 0, comm),
                  bonds(owned, owned, ids.getRawPtr(), &sizes[0], 0, comm);
  DataManager dm;
  dm.setMaps(Teuchos::rcp(&owned1, false), Teuchos::rcp(&all1, false), Teuchos::rcp(&owned3, false), Teuchos::rcp(&all3, false),
             Teuchos::rcp(&bonds, false));
  dm.allocateData(std::vector<int>(unique.begin(), unique.end()));

  const double horizon = in.get<double>("Horizon");
  for(int i=0 ; i<n ; ++i){
    (*dm.getData(volumeId, PeridigmField::STEP_NONE))[i] = vol[i];
    (*dm.getData(horizonId, PeridigmField::STEP_NONE))[i] = horizon;
  }
  for(int i=0 ; i<3*n ; ++i){
    (*dm.getData(xId, PeridigmField::STEP_NONE))[i] = x[i];
    (*dm.getData(yId, PeridigmField::STEP_N))[i] = x[i];
    (*dm.getData(yId, PeridigmField::STEP_NP1))[i] = x[i];
  }
  mat->initialize(dt, owned, &ownedIds[0], nb.getRawPtr(), dm);
  if(fm.hasField("Temperature_Change") && unique.count(fm.getFieldId("Temperature_Change"))){
    const int tId = fm.getFieldId("Temperature_Change");
    for(int i=0 ; i<n ; ++i)
      (*dm.getData(tId, PeridigmField::STEP_N))[i] = (*dm.getData(tId, PeridigmField::STEP_NP1))[i] = temperature[i];
  }

  int pId = -1, flowId = -1;
  if(dof > 3){
    pId = fm.getFieldId("Fluid_Pressure_Y");
    flowId = fm.getFieldId("Flux_Density");
    for(int i=0 ; i<n ; ++i)
      (*dm.getData(pId, PeridigmField::STEP_N))[i] = (*dm.getData(pId, PeridigmField::STEP_NP1))[i] = pressure[i];
  }

  for(int k=0 ; k<steps ; ++k){
    if(k > 0){
      mat->computeForce(dt, owned, &ownedIds[0], nb.getRawPtr(), dm);
      dm.updateState();
    }
    for(int i=0 ; i<damage.size() ; ++i)
      (*dm.getData(bondId, PeridigmField::STEP_N))[i] = (*dm.getData(bondId, PeridigmField::STEP_NP1))[i] = damage[i];
    for(int i=0 ; i<3*n ; ++i){
      (*dm.getData(yId, PeridigmField::STEP_NP1))[i] = y[3*n*k+i];
      (*dm.getData(vId, PeridigmField::STEP_NP1))[i] = (y[3*n*k+i] - (*dm.getData(yId, PeridigmField::STEP_N))[i])/dt;
    }
  }

  Epetra_Map rows(dim, 0, comm);
  Teuchos::RCP<Epetra_FECrsMatrix> matrix = Teuchos::rcp(new Epetra_FECrsMatrix(Copy, rows, 0, false));
  std::vector<double> zeros(dim);
  std::vector<int> columns(dim);
  for(int i=0 ; i<dim ; ++i)
    columns[i] = i;
  for(int i=0 ; i<dim ; ++i)
    matrix->InsertGlobalValues(i, dim, &zeros[0], &columns[0]);
  matrix->GlobalAssemble();
  SerialMatrix tangent(matrix);
  mat->computeJacobian(dt, owned, &ownedIds[0], nb.getRawPtr(), dm, tangent,
                       in.get<bool>("Block Diagonal") ? Material::BLOCK_DIAGONAL : Material::FULL_MATRIX);
  matrix->GlobalAssemble();

  // rows and columns in the order of the points, not of the global ids
  std::vector<double> J(dim*dim);
  for(int i=0 ; i<dim ; ++i){
    int count;
    matrix->ExtractGlobalRowCopy(dof*ids[i/dof]+i%dof, dim, count, &zeros[0], &columns[0]);
    std::vector<double> row(dim);
    for(int k=0 ; k<count ; ++k)
      row[columns[k]] += zeros[k];
    for(int j=0 ; j<dim ; ++j)
      J[i*dim+j] = row[dof*ids[j/dof]+j%dof];
  }
  print(J);

  // fourth-order differences of the force times volume
  const double offset[] = {-2, -1, 1, 2}, weight[] = {1.0/12, -8.0/12, 8.0/12, -1.0/12};
  for(int half=0 ; half<2 ; ++half){
    const double h = half ? probe/2 : probe;
    std::vector<double> D(dim*dim);
    for(int j=0 ; j<dim ; ++j){
      const int point = j/dof, axis = j%dof;
      double& unknown = axis < 3 ? (*dm.getData(yId, PeridigmField::STEP_NP1))[3*point+axis] : (*dm.getData(pId, PeridigmField::STEP_NP1))[point];
      double none = 0.0;
      double& speed = axis < 3 ? (*dm.getData(vId, PeridigmField::STEP_NP1))[3*point+axis] : none;
      const double old = unknown, oldSpeed = speed, d = h*(axis < 3 ? 1.0 : in.get<double>("Pressure Scale"));
      for(int s=0 ; s<4 ; ++s){
        unknown = old + offset[s]*d;
        speed = oldSpeed + offset[s]*d/dt;
        mat->computeForce(dt, owned, &ownedIds[0], nb.getRawPtr(), dm);
        const Epetra_Vector& f = *dm.getData(fId, PeridigmField::STEP_NP1);
        for(int i=0 ; i<dim ; ++i){
          const double value = i%dof < 3 ? f[3*(i/dof)+i%dof] : (*dm.getData(flowId, PeridigmField::STEP_NP1))[i/dof];
          D[i*dim+j] += weight[s]*value*vol[i/dof]/d;
        }
      }
      unknown = old;
      speed = oldSpeed;
    }
    print(D);
  }
}

int main(int argc, char* argv[])
{
  Teuchos::GlobalMPISession session(&argc, &argv, 0);
  long bytes;
  while(std::scanf("%ld", &bytes) == 1){
    std::getchar();
    std::string text(bytes, ' ');
    if(std::fread(&text[0], 1, bytes, stdin) != static_cast<size_t>(bytes))
      return 2;
    answer(*Teuchos::getParametersFromXmlString(text));
    std::printf("end\n");
    std::fflush(stdout);
  }
  return 0;
}

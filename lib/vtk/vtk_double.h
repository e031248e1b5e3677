// A stand-in for the part of VTK 8 / ParaView Catalyst 5 that ristra/io uses, written from their documentation.
// It keeps what it is given, counts references, and notes every misuse in vtk_double::errors().
#pragma once
#include <algorithm>
#include <array>
#include <cstddef>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <numeric>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
using std::cerr; // vtkIOStream.h does this
using std::cout;
using std::endl;
using std::ofstream;
using std::ostream;

#define VTK_MAJOR_VERSION 8
#define VTK_DATA_ARRAY_FREE 0
#define VTK_DATA_ARRAY_DELETE 1
enum { VTK_VERTEX = 1, VTK_POLYGON = 7, VTK_TETRA = 10, VTK_HEXAHEDRON = 12, VTK_POLYHEDRON = 42 };
typedef long long vtkIdType;

namespace vtk_double {
inline long & live() {
  static long n = 0;
  return n;
}
inline std::vector<std::string> & errors() {
  static std::vector<std::string> e;
  return e;
}
inline void error(const std::string & s) { errors().push_back(s); }
} // namespace vtk_double

class vtkObjectBase {
  int refs = 1;

protected:
  vtkObjectBase() { ++vtk_double::live(); }
  virtual ~vtkObjectBase() { --vtk_double::live(); }

public:
  vtkObjectBase(const vtkObjectBase &) = delete;
  vtkObjectBase & operator=(const vtkObjectBase &) = delete;
  void Register(vtkObjectBase * = nullptr) { ++refs; }
  void UnRegister(vtkObjectBase * = nullptr) {
    if(--refs == 0)
      delete this;
  }
  void Delete() { UnRegister(); }
  int GetReferenceCount() { return refs; }
};
#define VTK_DOUBLE_NEW(T) \
  static T * New() { return new T; }

template<class T>
class vtkSmartPointer {
  T * p = nullptr;

public:
  vtkSmartPointer() {}
  vtkSmartPointer(T * q) : p(q) {
    if(p)
      p->Register();
  }
  vtkSmartPointer(const vtkSmartPointer & o) : vtkSmartPointer(o.p) {}
  template<class U>
  vtkSmartPointer(const vtkSmartPointer<U> & o) : vtkSmartPointer(static_cast<T *>(o.GetPointer())) {}
  ~vtkSmartPointer() {
    if(p)
      p->UnRegister();
  }
  vtkSmartPointer & operator=(vtkSmartPointer o) {
    std::swap(p, o.p);
    return *this;
  }
  vtkSmartPointer & operator=(T * q) { return *this = vtkSmartPointer(q); }
  static vtkSmartPointer New() {
    vtkSmartPointer r;
    r.p = T::New();
    return r;
  }
  template<class U>
  void TakeReference(U * q) {
    vtkSmartPointer r;
    r.p = q;
    *this = r;
  }
  T * GetPointer() const { return p; }
  T * Get() const { return p; }
  T * operator->() const { return p; }
  T & operator*() const { return *p; }
  operator T *() const { return p; }
};
template<class T>
class vtkNew {
  T * p = T::New();

public:
  vtkNew() {}
  vtkNew(const vtkNew &) = delete;
  vtkNew & operator=(const vtkNew &) = delete;
  ~vtkNew() { p->Delete(); }
  T * GetPointer() const { return p; }
  T * Get() const { return p; }
  T * operator->() const { return p; }
  T & operator*() const { return *p; }
  operator T *() const { return p; }
};

class vtkPoints : public vtkObjectBase {
public:
  std::vector<std::array<double, 3>> pts;
  bool in_double = false; // the default precision of vtkPoints is float
  std::array<double, 3> keep(double x, double y, double z) const {
    if(in_double)
      return {x, y, z};
    return {float(x), float(y), float(z)};
  }
  VTK_DOUBLE_NEW(vtkPoints)
  void SetDataTypeToDouble() { in_double = true; }
  void SetDataTypeToFloat() { in_double = false; }
  vtkIdType GetNumberOfPoints() { return vtkIdType(pts.size()); }
  void SetNumberOfPoints(vtkIdType n) { pts.resize(std::size_t(n)); }
  vtkIdType InsertNextPoint(double x, double y, double z) {
    pts.push_back(keep(x, y, z));
    return vtkIdType(pts.size()) - 1;
  }
  vtkIdType InsertNextPoint(const float * x) { return InsertNextPoint(x[0], x[1], x[2]); }
  vtkIdType InsertNextPoint(const double * x) { return InsertNextPoint(x[0], x[1], x[2]); }
  void InsertPoint(vtkIdType i, double x, double y, double z) {
    if(i < 0)
      return vtk_double::error("InsertPoint at a negative id");
    if(i >= GetNumberOfPoints())
      SetNumberOfPoints(i + 1);
    pts[std::size_t(i)] = keep(x, y, z);
  }
  void InsertPoint(vtkIdType i, const float * x) { InsertPoint(i, x[0], x[1], x[2]); }
  void InsertPoint(vtkIdType i, const double * x) { InsertPoint(i, x[0], x[1], x[2]); }
  void SetPoint(vtkIdType i, double x, double y, double z) {
    if(i < 0 || i >= GetNumberOfPoints())
      return vtk_double::error("SetPoint outside the points allocated");
    pts[std::size_t(i)] = keep(x, y, z);
  }
  void SetPoint(vtkIdType i, const float * x) { SetPoint(i, x[0], x[1], x[2]); }
  void SetPoint(vtkIdType i, const double * x) { SetPoint(i, x[0], x[1], x[2]); }
  void Reset() { pts.clear(); }
  void Initialize() { pts.clear(); }
  int Allocate(vtkIdType, vtkIdType = 0) { return 1; }
  void GetPoint(vtkIdType i, double * x) { std::copy_n(pts.at(std::size_t(i)).begin(), 3, x); }
};
class vtkCellArray : public vtkObjectBase {
public:
  std::vector<std::vector<vtkIdType>> list;
  VTK_DOUBLE_NEW(vtkCellArray)
  vtkIdType InsertNextCell(vtkIdType n, const vtkIdType * ids) {
    list.emplace_back(ids, ids + n);
    return vtkIdType(list.size()) - 1;
  }
  vtkIdType GetNumberOfCells() { return vtkIdType(list.size()); }
  int Allocate(vtkIdType, vtkIdType = 0) { return 1; }
  void Reset() { list.clear(); }
  void Initialize() { list.clear(); }
};

class vtkAbstractArray : public vtkObjectBase {
public:
  std::string name;
  int comps = 1;
  virtual std::vector<double> content() = 0;
  void SetName(const char * n) { name = n; }
  const char * GetName() { return name.c_str(); }
  void SetNumberOfComponents(int n) { comps = n; }
  int GetNumberOfComponents() { return comps; }
};
template<class T>
class vtkDoubleArrayBase : public vtkAbstractArray {
protected:
  std::vector<T> own;
  T * given = nullptr;
  vtkIdType given_size = 0;

public:
  std::vector<double> content() override {
    if(given)
      return std::vector<double>(given, given + given_size);
    return std::vector<double>(own.begin(), own.end());
  }
  void SetNumberOfTuples(vtkIdType n) { own.resize(std::size_t(n * comps)); }
  vtkIdType GetNumberOfTuples() { return (given ? given_size : vtkIdType(own.size())) / comps; }
  vtkIdType InsertNextValue(T v) {
    own.push_back(v);
    return vtkIdType(own.size()) - 1;
  }
  void SetValue(vtkIdType i, T v) {
    if(i < 0 || i >= vtkIdType(own.size()))
      return vtk_double::error("SetValue outside the array");
    own[std::size_t(i)] = v;
  }
  void SetNumberOfValues(vtkIdType n) { own.resize(std::size_t(n)); }
  vtkIdType GetNumberOfValues() { return given ? given_size : vtkIdType(own.size()); }
  T GetValue(vtkIdType i) { return given ? given[i] : own.at(std::size_t(i)); }
  void InsertValue(vtkIdType i, T v) {
    if(i >= vtkIdType(own.size()))
      own.resize(std::size_t(i + 1));
    SetValue(i, v);
  }
  template<class V>
  vtkIdType InsertNextTuple(const V * v) {
    for(int c = 0; c < comps; ++c)
      own.push_back(T(v[c]));
    return vtkIdType(own.size()) / comps - 1;
  }
  vtkIdType InsertNextTypedTuple(const T * v) { return InsertNextTuple(v); }
  vtkIdType InsertNextTuple1(double a) { return InsertNextTuple(&a); }
  vtkIdType InsertNextTuple3(double a, double b, double c) {
    double v[] = {a, b, c};
    return InsertNextTuple(v);
  }
  vtkIdType InsertNextTuple2(double a, double b) {
    double v[] = {a, b};
    return InsertNextTuple(v);
  }
  vtkIdType InsertNextTuple9(double a, double b, double c, double d, double e, double f, double g, double h, double i) {
    double v[] = {a, b, c, d, e, f, g, h, i};
    return InsertNextTuple(v);
  }
  template<class V>
  void InsertTuple(vtkIdType i, const V * v) {
    for(int c = 0; c < comps; ++c)
      InsertValue(i * comps + c, T(v[c]));
  }
  void InsertTypedTuple(vtkIdType i, const T * v) { InsertTuple(i, v); }
  void InsertComponent(vtkIdType i, int c, double v) { InsertValue(i * comps + c, T(v)); }
  void SetTuple1(vtkIdType i, double a) { SetTuple(i, &a); }
  void SetTuple3(vtkIdType i, double a, double b, double c) {
    double v[] = {a, b, c};
    SetTuple(i, v);
  }
  T * GetPointer(vtkIdType i) { return (given ? given : own.data()) + i; }
  T * WritePointer(vtkIdType i, vtkIdType n) {
    if(std::size_t(i + n) > own.size())
      own.resize(std::size_t(i + n));
    return own.data() + i;
  }
  template<class V>
  void SetTuple(vtkIdType i, const V * v) {
    for(int c = 0; c < comps; ++c)
      SetValue(i * comps + c, T(v[c]));
  }
  void SetTypedTuple(vtkIdType i, const T * v) { SetTuple(i, v); }
  void SetComponent(vtkIdType i, int c, double v) { SetValue(i * comps + c, T(v)); }
  void SetTypedComponent(vtkIdType i, int c, T v) { SetValue(i * comps + c, v); }
  int Allocate(vtkIdType, vtkIdType = 0) { return 1; }
};
template<class T>
class vtkSOADataArrayTemplate : public vtkDoubleArrayBase<T> {
public:
  static vtkSOADataArrayTemplate * New() { return new vtkSOADataArrayTemplate; }
  void SetArray(int comp, T * a, vtkIdType n, bool = false, bool = false, int = VTK_DATA_ARRAY_FREE) {
    if(comp != 0 || this->comps != 1)
      vtk_double::error("SetArray of several components is not modelled");
    this->given = a;
    this->given_size = n;
  }
};
template<class T>
class vtkAOSDataArrayTemplate : public vtkDoubleArrayBase<T> {
public:
  static vtkAOSDataArrayTemplate * New() { return new vtkAOSDataArrayTemplate; }
  void SetArray(T * a, vtkIdType n, int) { SetArray(a, n, 1, 0); }
  void SetArray(T * a, vtkIdType n, int, int) {
    this->given = a;
    this->given_size = n;
  }
};
#define VTK_DOUBLE_ARRAY(NAME, T)                     \
  class NAME : public vtkAOSDataArrayTemplate<T> {    \
  public:                                             \
    static NAME * New() { return new NAME; }          \
  };
VTK_DOUBLE_ARRAY(vtkFloatArray, float)
VTK_DOUBLE_ARRAY(vtkDoubleArray, double)
VTK_DOUBLE_ARRAY(vtkIntArray, int)
VTK_DOUBLE_ARRAY(vtkLongArray, long)
VTK_DOUBLE_ARRAY(vtkLongLongArray, long long)

class vtkFieldData : public vtkObjectBase {
public:
  std::vector<vtkSmartPointer<vtkAbstractArray>> arrays;
  static vtkFieldData * New() { return new vtkFieldData; }
  int AddArray(vtkAbstractArray * a) {
    for(std::size_t i = 0; i < arrays.size(); ++i)
      if(arrays[i]->name == a->name) { // an array of the same name is replaced
        arrays[i] = a;
        return int(i);
      }
    arrays.push_back(a);
    return int(arrays.size()) - 1;
  }
  int GetNumberOfArrays() { return int(arrays.size()); }
  int HasArray(const char * n) { return get(n) != nullptr; }
  vtkAbstractArray * GetAbstractArray(const char * n) { return get(n); }
  vtkAbstractArray * GetArray(const char * n) { return get(n); }
  vtkAbstractArray * get(const std::string & n) {
    for(auto & a : arrays)
      if(a->name == n)
        return a;
    return nullptr;
  }
};
class vtkPointData : public vtkFieldData {
public:
  VTK_DOUBLE_NEW(vtkPointData)
};
class vtkCellData : public vtkFieldData {
public:
  VTK_DOUBLE_NEW(vtkCellData)
};
class vtkDataObject : public vtkObjectBase {
  vtkNew<vtkFieldData> field;

public:
  vtkFieldData * GetFieldData() { return field; }
};
class vtkDataSet : public vtkDataObject {
  vtkNew<vtkPointData> pd;
  vtkNew<vtkCellData> cd;

public:
  vtkPointData * GetPointData() { return pd; }
  vtkCellData * GetCellData() { return cd; }
};
class vtkUnstructuredGrid : public vtkDataSet {
public:
  struct Cell {
    int type;
    std::vector<vtkIdType> ids;
    std::vector<std::vector<vtkIdType>> faces;
  };
  vtkSmartPointer<vtkPoints> points;
  vtkSmartPointer<vtkCellArray> cell_array;
  int cell_type = -1;
  std::vector<Cell> inserted;
  VTK_DOUBLE_NEW(vtkUnstructuredGrid)
  void Allocate(vtkIdType = 1000, int = 1000) {}
  void SetPoints(vtkPoints * p) { points = p; }
  vtkPoints * GetPoints() { return points; }
  void SetCells(int t, vtkCellArray * c) {
    cell_type = t;
    cell_array = c;
    inserted.clear();
  }
  vtkIdType InsertNextCell(int t, vtkIdType n, const vtkIdType * ids) {
    inserted.push_back({t, std::vector<vtkIdType>(ids, ids + n), {}});
    return vtkIdType(inserted.size()) - 1;
  }
  vtkIdType InsertNextCell(int t, vtkIdType n, const vtkIdType * ids, vtkIdType nf, const vtkIdType * faces) {
    if(t != VTK_POLYHEDRON)
      vtk_double::error("faces given for a cell that is no polyhedron");
    Cell c{t, std::vector<vtkIdType>(ids, ids + n), {}};
    for(vtkIdType f = 0; f < nf; ++f) {
      vtkIdType m = *faces++;
      if(m < 0)
        vtk_double::error("a face with a negative number of points");
      c.faces.emplace_back(faces, faces + m);
      faces += m;
    }
    inserted.push_back(c);
    return vtkIdType(inserted.size()) - 1;
  }
  vtkIdType GetNumberOfCells() { return cell_array ? cell_array->GetNumberOfCells() : vtkIdType(inserted.size()); }
  vtkIdType GetNumberOfPoints() { return points ? points->GetNumberOfPoints() : 0; }
};

// ------------------------------------------------------------- writers
namespace vtk_double {
struct Written {
  std::string kind, file;
  vtkDataObject * grid;
  bool binary;
  int pieces, start, end;
  bool controller;
};
inline std::vector<Written> & written() {
  static std::vector<Written> w;
  return w;
}
} // namespace vtk_double
class vtkMultiProcessController : public vtkObjectBase {
public:
  static vtkMultiProcessController *& global() {
    static vtkMultiProcessController * g = nullptr;
    return g;
  }
  static void SetGlobalController(vtkMultiProcessController * c) { // weak, as the real one is for our purposes
    global() = c;
  }
};
class vtkMPIController : public vtkMultiProcessController {
public:
  bool up = false;
  VTK_DOUBLE_NEW(vtkMPIController)
  ~vtkMPIController() {
    if(global() == this)
      global() = nullptr;
  }
  void Initialize(int *, char ***, int = 0) { up = true; }
  void Finalize(int = 0) { up = false; }
};
class vtkDoubleWriter : public vtkObjectBase {
protected:
  std::string file;
  vtkSmartPointer<vtkDataObject> input;
  bool binary = false;
  int pieces = 1, start = 0, end = 0;
  vtkSmartPointer<vtkMPIController> control;
  std::string kind;
  vtkDoubleWriter(const char * k) : kind(k) {}

public:
  void SetFileName(const char * n) { file = n; }
  void SetInputData(vtkDataObject * o) { input = o; }
  void SetInputDataObject(vtkDataObject * o) { input = o; }
  int Write() {
    vtk_double::written().push_back({kind, file, input, binary, pieces, start, end, control && control->up});
    if(!input)
      vtk_double::error("a writer without input");
    return 1;
  }
};
class vtkXMLUnstructuredGridWriter : public vtkDoubleWriter {
public:
  vtkXMLUnstructuredGridWriter() : vtkDoubleWriter("vtu") {}
  VTK_DOUBLE_NEW(vtkXMLUnstructuredGridWriter)
  void SetDataModeToBinary() { binary = true; }
  void SetDataModeToAscii() { binary = false; }
  void SetCompressor(void *) {}
};
class vtkXMLPUnstructuredGridWriter : public vtkDoubleWriter {
public:
  vtkXMLPUnstructuredGridWriter() : vtkDoubleWriter("pvtu") {}
  VTK_DOUBLE_NEW(vtkXMLPUnstructuredGridWriter)
  void SetDataModeToBinary() { binary = true; }
  void SetDataModeToAscii() { binary = false; }
  void SetCompressor(void *) {}
  void SetNumberOfPieces(int n) { pieces = n; }
  void SetStartPiece(int n) { start = n; }
  void SetEndPiece(int n) { end = n; }
  void SetController(vtkMPIController * c) { control = c; }
};
class vtkUnstructuredGridWriter : public vtkDoubleWriter {
public:
  vtkUnstructuredGridWriter() : vtkDoubleWriter("vtk") {}
  VTK_DOUBLE_NEW(vtkUnstructuredGridWriter)
  void SetFileTypeToBinary() { binary = true; }
  void SetFileTypeToASCII() { binary = false; }
};

// ------------------------------------------------------------- co-processing
class vtkCPInputDataDescription : public vtkObjectBase {
public:
  vtkSmartPointer<vtkDataObject> grid;
  VTK_DOUBLE_NEW(vtkCPInputDataDescription)
  void SetGrid(vtkDataObject * g) { grid = g; }
};
class vtkCPDataDescription : public vtkObjectBase {
public:
  std::map<std::string, vtkSmartPointer<vtkCPInputDataDescription>> inputs;
  double time = -1;
  vtkIdType step = -1;
  bool forced = false;
  VTK_DOUBLE_NEW(vtkCPDataDescription)
  void AddInput(const char * n) { inputs[n] = vtkSmartPointer<vtkCPInputDataDescription>::New(); }
  void SetTimeData(double t, vtkIdType s) {
    time = t;
    step = s;
  }
  void ForceOutputOn() { forced = true; }
  void ForceOutputOff() { forced = false; }
  void SetForceOutput(bool b) { forced = b; }
  vtkCPInputDataDescription * GetInputDescriptionByName(const char * n) {
    auto i = inputs.find(n);
    return i == inputs.end() ? nullptr : i->second.GetPointer();
  }
};
class vtkCPPythonScriptPipeline : public vtkObjectBase {
public:
  std::string script;
  VTK_DOUBLE_NEW(vtkCPPythonScriptPipeline)
  int Initialize(const char * f) {
    script = f;
    return 1;
  }
};
class vtkCPProcessor : public vtkObjectBase {
public:
  struct Step {
    double time;
    vtkIdType step;
    bool forced, had_input;
    vtkDataObject * grid;
  };
  bool up = false;
  std::vector<vtkSmartPointer<vtkCPPythonScriptPipeline>> pipelines;
  std::vector<Step> asked, done;
  int every = 1; // pipelines want every n-th step
  static vtkCPProcessor *& last() {
    static vtkCPProcessor * p = nullptr;
    return p;
  }
  static vtkCPProcessor * New() { return last() = new vtkCPProcessor; }
  ~vtkCPProcessor() {
    if(last() == this)
      last() = nullptr;
  }
  int Initialize() {
    up = true;
    return 1;
  }
  int AddPipeline(vtkCPPythonScriptPipeline * p) {
    if(!up)
      vtk_double::error("a pipeline is added before Initialize");
    pipelines.push_back(p);
    return 1;
  }
  Step step(vtkCPDataDescription * d) {
    auto in = d->GetInputDescriptionByName("input");
    return {d->time, d->step, d->forced, in != nullptr, in ? in->grid.GetPointer() : nullptr};
  }
  int RequestDataDescription(vtkCPDataDescription * d) {
    asked.push_back(step(d));
    return d->forced || (every && d->step % every == 0);
  }
  int CoProcess(vtkCPDataDescription * d) {
    done.push_back(step(d));
    return 1;
  }
  int Finalize() { return 1; }
};

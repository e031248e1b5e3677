// T02: the mesh and the fields handed to ParaView Catalyst, against a stand-in for VTK (lib/vtk).
#include "vp.h"
#include "vtk_double.h"
#include "mpi.h"
#include "flecsi/topology/mesh_utils.h"
#include "ristra/io/catalyst/adaptor.h"
#include "ristra/io/catalyst/flecsale_unstructuredGrid.h"
#include "ristra/io/catalyst/vtk/unstructuredGrid.h"
#include <set>
#include <unistd.h>
namespace cat = ristra::io::catalyst;
namespace rv = ristra::io::vtk;
using Mesh = flecsi_sp::burton::burton_mesh_t;
using Grid = vtkSmartPointer<vtkUnstructuredGrid>;
std::stringstream debugLog;
std::string debugLogName;

namespace {
constexpr std::size_t D = Mesh::num_dimensions;
struct vp_lcg {
  unsigned long s;
  std::size_t operator()(std::size_t n) {
    s = s * 6364136223846793005ul + 1442695040888963407ul;
    return (s >> 33) % n;
  }
};
struct Quiet {
  std::ostringstream os;
  std::streambuf * old;
  Quiet() : old(std::cout.rdbuf(os.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(old); }
};
// nothing is left over, nothing was misused
struct Ledger {
  long before = vtk_double::live();
  Ledger() {
    vtk_double::errors().clear();
    vtk_double::written().clear();
  }
  void close() {
    VP_ASSERT(vtk_double::errors().empty(), "misuse of VTK: " << vp::str(vtk_double::errors()));
    VP_EQ(vtk_double::live() - before, 0, "VTK objects that are never released");
  }
};
template<class T>
std::vector<T> shuffled(std::vector<T> v) {
  for(std::size_t i = v.size(); i > 1; --i)
    std::swap(v[i - 1], v[*vp::range<std::size_t>(0, i - 1)]);
  return v;
}
rc::Gen<double> coord() {
  return rc::gen::oneOf(vp::dyadic(4096, 8), rc::gen::map(vp::range(-1000000, 1000000), [](int i) { return i / 7919.0; }));
}
Mesh draw_mesh(bool any_order) {
  Mesh m;
  std::size_t nv = *vp::range<std::size_t>(D + 1, 14), nc = *vp::range<std::size_t>(1, 6), nf = *vp::range<std::size_t>(nc, 3 * nc + 3);
  for(std::size_t i = 0; i < nv; ++i) {
    Mesh::vertex_t v;
    for(auto & x : v.x)
      x = *coord();
    m.verts.push_back(v);
    m.vertex_order.push_back(i);
  }
  m.cell_faces.resize(nc);
  for(std::size_t f = 0; f < nf; ++f) {
    std::size_t n = D == 2 ? 2 : *vp::range<std::size_t>(3, std::min<std::size_t>(5, nv));
    auto ids = shuffled(m.vertex_order);
    ids.resize(n);
    m.face_verts.push_back(ids);
    std::size_t a = f < nc ? f : *vp::range<std::size_t>(0, nc - 1);
    std::vector<std::size_t> c{a};
    if(nc > 1 && *vp::coin()) {
      std::size_t b = *vp::range<std::size_t>(0, nc - 1);
      if(b != a) {
        c.push_back(b);
        if(*vp::coin())
          std::swap(c[0], c[1]);
      }
    }
    m.face_cells.push_back(c);
    for(auto i : c)
      m.cell_faces[i].push_back(f);
  }
  for(std::size_t c = 0; c < nc; ++c) {
    m.cell_faces[c] = shuffled(m.cell_faces[c]);
    std::set<std::size_t> v;
    for(auto f : m.cell_faces[c])
      v.insert(m.face_verts[f].begin(), m.face_verts[f].end());
    m.cell_verts.push_back(shuffled(std::vector<std::size_t>(v.begin(), v.end())));
    m.cell_order.push_back(c);
  }
  if(any_order)
    m.vertex_order = shuffled(m.vertex_order);
  int owned = *vp::range(0, 3);
  for(auto c : m.cell_order)
    if(owned == 0 || *vp::coin())
      m.owned_cells.push_back(c);
  return m;
}
std::string text(const Mesh & m) {
  std::ostringstream os;
  os << m.verts.size() << " vertices, cells";
  for(std::size_t c = 0; c < m.cell_verts.size(); ++c)
    os << " " << vp::str(m.cell_verts[c]) << "/" << vp::str(m.cell_faces[c]);
  os << " faces";
  for(std::size_t f = 0; f < m.face_verts.size(); ++f)
    os << " " << vp::str(m.face_verts[f]) << "|" << vp::str(m.face_cells[f]);
  os << " owned " << vp::str(m.owned_cells) << " order " << vp::str(m.vertex_order);
  return os.str();
}
void check_point(const std::array<double, 3> & p, const double * x, std::size_t n, const std::string & what) {
  for(std::size_t k = 0; k < 3; ++k)
    VP_EQ(float(p[k]), k < n ? float(x[k]) : 0.f, what << ", coordinate " << k);
}
void check_points(vtkUnstructuredGrid * g, const Mesh & m) {
  VP_ASSERT(g->GetPoints(), "the grid has no points");
  VP_EQ(g->GetNumberOfPoints(), vtkIdType(m.verts.size()), "number of points");
  for(std::size_t i = 0; i < m.verts.size(); ++i)
    check_point(g->GetPoints()->pts[i], m.verts[i].x.data(), D, "point " + std::to_string(i));
}
void check_cells(vtkUnstructuredGrid * g, const Mesh & m, const std::vector<std::size_t> & cells) {
  VP_EQ(g->GetNumberOfCells(), vtkIdType(cells.size()), "number of cells");
  VP_ASSERT(!g->cell_array, "the cells were replaced");
  for(std::size_t i = 0; i < cells.size(); ++i) {
    auto & got = g->inserted[i];
    auto c = cells[i];
    VP_EQ(got.type, int(VTK_POLYHEDRON), "type of cell " << i);
    VP_EQ(got.ids, (std::vector<vtkIdType>(m.cell_verts[c].begin(), m.cell_verts[c].end())), "vertices of cell " << i);
    VP_EQ(got.faces.size(), m.cell_faces[c].size(), "number of faces of cell " << i);
    for(std::size_t k = 0; k < got.faces.size(); ++k) {
      auto f = m.cell_faces[c][k];
      std::vector<vtkIdType> want(m.face_verts[f].begin(), m.face_verts[f].end());
      if(m.face_cells[f][0] != c)
        std::reverse(want.begin(), want.end()); // outward from this cell
      VP_EQ(got.faces[k], want, "face " << k << " of cell " << i);
    }
  }
}
// a mesh of the sizes simulations have
Mesh big_mesh(vp_lcg & r, std::size_t nv, std::size_t nc) {
  Mesh m;
  for(std::size_t i = 0; i < nv; ++i) {
    Mesh::vertex_t v;
    for(auto & x : v.x)
      x = double(r(2000001)) / 1024 - 900;
    m.verts.push_back(v);
    m.vertex_order.push_back(i);
  }
  m.cell_faces.resize(nc);
  for(std::size_t f = 0; f < 3 * nc; ++f) {
    std::size_t n = D == 2 ? 2 : 3 + r(6), first = r(nv), step = 1 + r(7);
    std::vector<std::size_t> ids;
    for(std::size_t k = 0; k < n; ++k)
      ids.push_back((first + k * step) % nv);
    m.face_verts.push_back(ids);
    std::size_t a = f < nc ? f : r(nc), b = r(nc);
    std::vector<std::size_t> c{a};
    if(b != a && r(2)) {
      c.push_back(b);
      if(r(2))
        std::swap(c[0], c[1]);
    }
    m.face_cells.push_back(c);
    for(auto i : c)
      m.cell_faces[i].push_back(f);
  }
  for(std::size_t c = 0; c < nc; ++c) {
    std::set<std::size_t> v;
    for(auto f : m.cell_faces[c])
      v.insert(m.face_verts[f].begin(), m.face_verts[f].end());
    m.cell_verts.emplace_back(v.begin(), v.end());
    m.cell_order.push_back(c);
  }
  std::size_t ghosts = r(4);
  for(auto c : m.cell_order)
    if(ghosts == 0 || r(4) >= ghosts)
      m.owned_cells.push_back(c);
  return m;
}
struct Field {
  int type, kind, where; // kind: 0 scalar, 1 vector, 2 tensor
  std::string name;
  std::vector<std::vector<int>> v; // per component
  std::size_t n;
};
Field draw_field() {
  Field f{*vp::range(0, 3), *vp::range(0, 2), *vp::range(0, 1), std::string(1, char('a' + *vp::range(0, 3))), {}, 0};
  f.n = *rc::gen::weightedOneOf<std::size_t>({{30, vp::range<std::size_t>(0, 9)}, {1, vp::range<std::size_t>(100, 700)}});
  int comps = f.kind == 0 ? 1 : f.kind == 1 ? *vp::range(1, 4) : 9;
  for(int i = 0; i < comps; ++i)
    f.v.push_back(*vp::vec<int>(f.n, vp::range(-100000, 100000)));
  return f;
}
std::string text(const Field & f) {
  return f.name + ":" + std::to_string(f.type) + std::to_string(f.kind) + std::to_string(f.where) + (f.n > 9 ? std::to_string(f.n) + vp::str(f.v[0][0]) : vp::str(f.v));
}
template<class F>
void by_type(int t, F f) {
  switch(t) {
  case 0: return f(double());
  case 1: return f(float());
  case 2: return f(int());
  default: return f(long());
  }
}
template<class T>
T value(int v) {
  return std::is_floating_point_v<T> ? T(v) / 8 : T(v);
}
void check_field(vtkUnstructuredGrid * g, const Field & f) {
  auto a = f.where == 0 ? (vtkFieldData *)g->GetPointData() : (vtkFieldData *)g->GetCellData();
  auto p = a->get(f.name);
  VP_ASSERT(p, "field " << f.name << " is missing on the " << (f.where ? "cells" : "points"));
  VP_EQ(p->comps, int(f.v.size()), "components of " << f.name);
  std::vector<double> want;
  for(std::size_t i = 0; i < f.n; ++i)
    for(auto & c : f.v)
      want.push_back(f.type < 2 ? c[i] / 8.0 : c[i]);
  VP_EQ(p->content(), want, "values of " << f.name);
}
void put(const Field & f, int api, rv::UnstructuredGrid & u, Grid & g) {
  by_type(f.type, [&](auto x) {
    using T = decltype(x);
    std::vector<std::vector<T>> data(f.v.size());
    for(std::size_t c = 0; c < data.size(); ++c)
      for(int v : f.v[c])
        data[c].push_back(value<T>(v));
    auto before = data;
    if(f.kind == 0)
      api == 0   ? cat::addScalar(data[0].data(), f.name, g, f.n, f.where)
      : api == 1 ? rv::setScalarData(f.name, data[0].data(), f.n, f.where, g)
                 : u.addScalarData(f.name, data[0].data(), f.n, f.where);
    else if(f.kind == 1 && api == 2 && data.size() == 3 && f.n % 2)
      u.addVectorData(f.name, int(f.n), f.where, data[0].data(), data[1].data(), data[2].data());
    else if(f.kind == 1)
      api == 0   ? cat::addVector(data, f.name, g, f.n, f.where)
      : api == 1 ? rv::setVectorData(f.name, data, f.n, f.where, g)
                 : u.addVectorData(f.name, data, f.n, f.where);
    else
      api == 0   ? cat::addTensor(data, f.name, g, f.n, f.where)
      : api == 1 ? rv::setTensorData(f.name, data, f.n, f.where, g)
                 : u.addTensorData(f.name, data, f.n, f.where);
    VP_ASSERT(data == before, "the data of the simulation changed");
  });
}
} // namespace

VP_PROP(mesh, 500) {
  Mesh m = draw_mesh(false);
  VP_CASE(m.cell_verts.size() > 1 && !m.owned_cells.empty(), text(m));
  vp::run([&] {
    Ledger l;
    {
      Quiet q;
      Grid g = cat::createMesh(m);
      check_points(g, m);
      check_cells(g, m, m.owned_cells);
      VP_EQ(g->GetReferenceCount(), 1, "references to the grid");
      Grid h = cat::createMesh(m); // a second one is independent
      check_cells(h, m, m.owned_cells);
      check_points(h, m);
      VP_ASSERT(h.GetPointer() != g.GetPointer() && h->GetPoints() != g->GetPoints(), "two grids share their contents");
    }
    l.close();
  });
}
VP_PROP(points_and_cells, 500) {
  Mesh m = draw_mesh(true);
  VP_CASE(m.cell_verts.size() > 1, text(m));
  vp::run([&] {
    Ledger l;
    {
      Quiet q;
      Grid g = Grid::New();
      cat::writePointsToGrid(m, g);
      cat::writeCellsToGrid(m, g);
      check_points(g, m);
      check_cells(g, m, m.cell_order);
    }
    l.close();
  });
}
VP_PROP(fields, 800) {
  std::vector<Field> fs;
  int n = *vp::range(1, 6);
  std::string t;
  for(int i = 0; i < n; ++i) {
    fs.push_back(draw_field());
    t += text(fs.back()) + " ";
  }
  int api = *vp::range(0, 2);
  VP_CASE(n > 1, "api=" << api << " " << t);
  vp::run([&] {
    Ledger l;
    {
      Quiet q;
      rv::UnstructuredGrid u(0, 1);
      Grid g = api == 2 ? u.getUGrid() : Grid::New();
      std::map<std::pair<int, std::string>, Field> model;
      for(auto & f : fs) {
        put(f, api, u, g);
        model[{f.where, f.name}] = f;
        std::size_t np = 0, nc = 0;
        for(auto & [k, v] : model) {
          check_field(g, v);
          ++(k.first ? nc : np);
        }
        VP_EQ(std::size_t(g->GetPointData()->GetNumberOfArrays()), np, "number of point fields");
        VP_EQ(std::size_t(g->GetCellData()->GetNumberOfArrays()), nc, "number of cell fields");
        VP_EQ(g->GetFieldData()->GetNumberOfArrays(), 0, "number of global fields");
      }
      // the default is a field on the cells
      double one = 2.5;
      cat::addScalar(&one, "default", g, 1);
      VP_ASSERT(g->GetCellData()->get("default") && !g->GetPointData()->get("default"), "the default is cell data");
    }
    l.close();
  });
}
VP_PROP(builder, 800) {
  int way = *vp::range(0, 4);
  auto xs = *vp::vec<double>(0, 8, coord());
  std::vector<std::vector<double>> pts;
  for(double x : xs)
    pts.push_back({x, *coord(), *coord()});
  std::vector<std::vector<long>> cells;
  int nc = *vp::range(0, 4);
  for(int i = 0; i < nc; ++i)
    cells.push_back(*vp::vec<long>(1, 6, vp::range<long>(0, 20)));
  int type = *vp::range(1, 42);
  bool twice = *vp::coin();
  VP_CASE(pts.size() > 1, "way=" << way << " points=" << vp::str(pts) << " cells=" << vp::str(cells) << " type=" << type << " twice=" << twice);
  vp::run([&] {
    Ledger l;
    {
      Quiet q;
      rv::UnstructuredGrid u;
      Grid kept;
      for(int round = 0; round <= int(twice); ++round) {
        std::vector<std::vector<vtkIdType>> want_cells;
        std::vector<double> flat;
        for(auto & p : pts)
          flat.insert(flat.end(), p.begin(), p.end());
        if(way == 0) { // points that are cells of their own
          for(auto & p : pts)
            u.addPoint(p.data());
          u.pushPointsToGrid(type);
        }
        else if(way == 1)
          u.setPoints(flat.data(), int(pts.size()), type);
        else {
          if(way == 2)
            for(auto & p : pts)
              u.insertNextPoint(p.data());
          else if(way == 3)
            for(auto & p : pts)
              u.insertNextPoint(p[0], p[1], p[2]);
          else
            u.insertNextPoints(flat.data(), int(pts.size()));
          for(auto & c : cells) {
            u.insertNextCell(c);
            want_cells.emplace_back(c.begin(), c.end());
          }
          u.pushPointsToGrid(type);
        }
        if(way < 2)
          for(std::size_t i = 0; i < pts.size(); ++i)
            want_cells.push_back({vtkIdType(i)});
        auto g = u.getUGrid();
        VP_ASSERT(g.GetPointer() == u.getGrid().GetPointer(), "getGrid and getUGrid differ");
        VP_EQ(g->GetNumberOfPoints(), vtkIdType(pts.size()), "number of points");
        for(std::size_t i = 0; i < pts.size(); ++i)
          check_point(g->GetPoints()->pts[i], pts[i].data(), 3, "point " + std::to_string(i));
        VP_EQ(g->cell_type, type, "cell type");
        VP_EQ(g->cell_array->list, want_cells, "cells");
        if(round == 0 && twice)
          u.reset();
        kept = g;
      }
    }
    l.close();
  });
}
// sizes beyond what the other checks draw
VP_PROP(large, 40) {
  int seed = *vp::range(0, 1000000);
  auto nv = *rc::gen::oneOf(vp::range<std::size_t>(60, 600), vp::range<std::size_t>(66000, 67000));
  auto nc = *rc::gen::oneOf(vp::range<std::size_t>(20, 600), vp::range<std::size_t>(20, 9000));
  auto np = *rc::gen::oneOf(vp::range<std::size_t>(100, 1000), vp::range<std::size_t>(30000, 70000));
  int way = *vp::range(0, 4), api = *vp::range(0, 2), kind = *vp::range(0, 2);
  VP_CASE(nc > 64, "seed=" << seed << " vertices=" << nv << " cells=" << nc << " values=" << np << " way=" << way << " api=" << api << " kind=" << kind);
  vp::run([&] {
    Ledger l;
    {
      Quiet q;
      vp_lcg r{(unsigned long)seed};
      Mesh m = big_mesh(r, nv, nc);
      {
        Grid g = cat::createMesh(m);
        check_points(g, m);
        check_cells(g, m, m.owned_cells);
        Grid h = Grid::New();
        cat::writePointsToGrid(m, h);
        cat::writeCellsToGrid(m, h);
        check_points(h, m);
        check_cells(h, m, m.cell_order);
      }
      rv::UnstructuredGrid u(0, 1);
      std::vector<double> flat(3 * np);
      for(auto & x : flat)
        x = double(r(2000001)) / 1024 - 900;
      std::vector<std::vector<vtkIdType>> want;
      if(way == 1)
        u.setPoints(flat.data(), int(np), VTK_VERTEX);
      else if(way == 4)
        u.insertNextPoints(flat.data(), int(np));
      else
        for(std::size_t i = 0; i < np; ++i)
          way == 0   ? u.addPoint(&flat[3 * i])
          : way == 2 ? u.insertNextPoint(&flat[3 * i])
                     : u.insertNextPoint(flat[3 * i], flat[3 * i + 1], flat[3 * i + 2]);
      if(way < 2)
        for(std::size_t i = 0; i < np; ++i)
          want.push_back({vtkIdType(i)});
      else
        for(std::size_t i = 0; i < np / 2; ++i) {
          std::vector<long> c(1 + r(8));
          for(auto & x : c)
            x = long(r(np));
          u.insertNextCell(c);
          want.emplace_back(c.begin(), c.end());
        }
      if(way != 1)
        u.pushPointsToGrid(VTK_VERTEX);
      auto g = u.getUGrid();
      VP_EQ(g->GetNumberOfPoints(), vtkIdType(np), "number of points");
      for(std::size_t i = 0; i < np; ++i)
        check_point(g->GetPoints()->pts[i], &flat[3 * i], 3, "point " + std::to_string(i));
      VP_ASSERT(g->cell_array->list == want, "cells");
      Field f{int(r(4)), kind, int(r(2)), "f", {}, np};
      f.v.resize(kind == 0 ? 1 : kind == 1 ? 3 : 9);
      for(auto & c : f.v)
        for(std::size_t i = 0; i < np; ++i)
          c.push_back(int(r(200001)) - 100000);
      put(f, api, u, g);
      auto a = f.where == 0 ? (vtkFieldData *)g->GetPointData() : (vtkFieldData *)g->GetCellData();
      auto p = a->get(f.name);
      VP_ASSERT(p && p->comps == int(f.v.size()), "field");
      auto got = p->content();
      VP_EQ(got.size(), np * f.v.size(), "values of the field");
      for(std::size_t i = 0; i < got.size(); ++i) {
        auto c = f.v[i % f.v.size()][i / f.v.size()];
        VP_EQ(got[i], f.type < 2 ? c / 8.0 : c, "value " << i << " of the field");
      }
    }
    l.close();
  });
}
VP_PROP(writing, 600) {
  int how = *vp::range(0, 4);
  auto small = rc::gen::weightedOneOf<int>({{8, vp::range(0, 4)}, {1, vp::range(0, 100000)}});
  int pieces = 1 + *small, start = *small, end = *small;
  auto name = rc::gen::map(vp::vec<char>(1, 8, vp::range<char>('a', 'e')), [](std::vector<char> v) { return std::string(v.begin(), v.end()); });
  auto file = *name;
  double field = *coord();
  bool ranks = *rc::gen::arbitrary<bool>();
  VP_CASE(pieces > 1, "ranks=" << ranks << " how=" << how << " pieces=" << pieces << "," << start << "," << end << " file=" << file);
  vp::run([&] {
    Ledger l;
    {
      Quiet q;
      rv::UnstructuredGrid u = ranks ? rv::UnstructuredGrid(1, 4) : rv::UnstructuredGrid();
      double p[3] = {1, 2, 3};
      u.addPoint(p);
      u.pushPointsToGrid(VTK_VERTEX);
      u.addFieldData("time", &field);
      auto a = u.getUGrid()->GetFieldData()->get("time");
      VP_ASSERT(a && a->comps == 1 && a->content() == std::vector<double>{field}, "global field");
      bool parallel = false;
      switch(how) {
      case 0:
        u.writeParts(pieces, start, end, file);
        parallel = true;
        break;
      case 1:
        u.setOutputSerial();
        u.writeParts(pieces, start, end, file);
        break;
      case 2: u.write(file); break;
      case 3:
        rv::writeUnstructuredGrid(file, u.getUGrid(), pieces, start, end);
        parallel = pieces > 1;
        break;
      default: cat::outputVTKUnstructredGrid(file, u.getUGrid());
      }
      auto & w = vtk_double::written();
      VP_EQ(w.size(), 1u, "number of files written");
      VP_EQ(w[0].file, how == 4 ? file : file + (parallel ? ".pvtu" : ".vtu"), "file name");
      VP_EQ(w[0].kind, std::string(how == 4 ? "vtk" : parallel ? "pvtu" : "vtu"), "format");
      VP_ASSERT(w[0].grid == u.getUGrid().GetPointer(), "another grid was written");
      VP_ASSERT(w[0].binary, "not written as binary");
      if(parallel) {
        VP_EQ(w[0].pieces, pieces, "pieces");
        VP_EQ(w[0].start, start, "first piece");
        VP_EQ(w[0].end, end, "last piece");
        VP_ASSERT(w[0].controller, "written without an initialised controller");
      }
    }
    l.close();
  });
}
VP_PROP(adaptor, 800) {
  auto scripts = *vp::vec<std::string>(0, 4, rc::gen::map(vp::vec<char>(0, 6, vp::range<char>('a', 'z')),
    [](std::vector<char> v) { return std::string(v.begin(), v.end()) + ".py"; }));
  struct Step {
    double t;
    unsigned n;
    bool last, other;
  };
  std::vector<Step> steps;
  int len = *vp::range(0, 8);
  std::string txt;
  for(int i = 0; i < len; ++i) {
    steps.push_back({*coord(), *vp::full<unsigned>(), *vp::range(0, 3) == 0, *vp::coin()});
    txt += std::to_string(steps.back().n) + (steps.back().last ? "! " : " ");
  }
  int every = *vp::range(0, 3);
  bool object = *vp::coin();
  VP_CASE(scripts.size() > 1 && len > 1, "scripts=" << vp::str(scripts) << " steps=" << txt << " every=" << every << " object=" << object);
  vp::run([&] {
    Ledger l;
    {
      Quiet q;
      Grid a = Grid::New(), b = Grid::New();
      std::unique_ptr<cat::adaptor_t> ad;
      vtkCPProcessor * p = nullptr;
      if(object) {
        ad = std::make_unique<cat::adaptor_t>(scripts);
        p = vtkCPProcessor::last();
      }
      else
        p = cat::initAdaptor(scripts);
      VP_ASSERT(p && p->up, "no initialised processor");
      std::vector<std::string> got;
      for(auto & x : p->pipelines)
        got.push_back(x->script);
      VP_EQ(got, scripts, "pipelines");
      p->every = every;
      std::size_t done = 0, asked = 0;
      for(auto & s : steps) {
        auto g = s.other ? b : a;
        if(object)
          ad->process(g, s.t, s.n, s.last);
        else
          cat::processCatalyst(p, g, s.t, s.n, s.last);
        VP_EQ(p->asked.size(), ++asked, "requests");
        auto & r = p->asked.back();
        VP_ASSERT(r.time == s.t && r.step == vtkIdType(s.n) && r.had_input, "the request describes another step");
        if(s.last)
          VP_ASSERT(r.forced, "the last step is not forced");
        if(object && !s.last)
          VP_ASSERT(!r.forced, "a step is forced that is not the last");
        bool wanted = r.forced || (every && s.n % unsigned(every) == 0);
        done += wanted;
        VP_EQ(p->done.size(), done, "steps processed");
        if(wanted) {
          auto & d = p->done.back();
          VP_ASSERT(d.time == s.t && d.step == vtkIdType(s.n) && d.grid == g.GetPointer(), "another step was processed");
        }
      }
      VP_EQ(p->pipelines.size(), scripts.size(), "pipelines at the end");
      if(object)
        ad.reset();
      else
        VP_ASSERT(cat::finalizeAdaptor(p) == nullptr, "a processor is left");
      VP_ASSERT(!vtkCPProcessor::last(), "the processor was not deleted");
      VP_ASSERT(a->GetReferenceCount() == 1 && b->GetReferenceCount() == 1, "a grid is still held");
    }
    l.close();
  });
}
VP_PROP(debug_file, 200) {
  auto s = *vp::vec<int>(0, 30, vp::range(0, 255));
  std::string text(s.begin(), s.end());
  VP_CASE(s.size() > 1, "text=" << vp::str(text));
  vp::run([&] {
    std::string f = vp::scratch() + "/dbg_XXXXXX";
    int fd = mkstemp(&f[0]);
    close(fd);
    Quiet q;
    cat::outputFile(f, text);
    std::ifstream i(f, std::ios::binary);
    std::string got((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
    unlink(f.c_str());
    VP_EQ(got, text, "the file written");
  });
}

#pragma once
#include <array>
#include <cstddef>
#include <vector>
#ifndef MESH_DIMS
#define MESH_DIMS 3
#endif
namespace flecsi {
struct owned_t {};
constexpr owned_t owned{};
} // namespace flecsi
namespace flecsi_sp {
namespace burton {
struct burton_mesh_t {
  using real_t = double;
  static constexpr std::size_t num_dimensions = MESH_DIMS;
  using vector_t = std::array<real_t, num_dimensions>;
  struct vertex_t {
    vector_t x;
    const vector_t & coordinates() const { return x; }
  };
  template<int Kind>
  struct entity { // an id that knows its mesh
    const burton_mesh_t * m;
    std::size_t i;
    std::size_t id() const { return i; }
    operator std::size_t() const { return i; }
    const vertex_t * operator->() const { return &m->verts[i]; }
    bool operator==(const entity & o) const { return i == o.i; }
    bool operator!=(const entity & o) const { return i != o.i; }
  };
  using V = entity<0>;
  using F = entity<1>;
  using C = entity<2>;
  template<class E>
  std::vector<E> list(const std::vector<std::size_t> & ids) const {
    std::vector<E> r;
    for(auto i : ids)
      r.push_back(E{this, i});
    return r;
  }
  // the mesh itself
  std::vector<vertex_t> verts;
  std::vector<std::vector<std::size_t>> cell_verts, cell_faces, face_verts, face_cells;
  std::vector<std::size_t> vertex_order, cell_order, owned_cells;
  // its interface
  std::size_t num_vertices() const { return verts.size(); }
  std::size_t num_faces() const { return face_verts.size(); }
  std::size_t num_cells() const { return cell_verts.size(); }
  auto vertices() const { return list<V>(vertex_order); }
  auto vertices(C c) const { return list<V>(cell_verts[c.i]); }
  auto vertices(F f) const { return list<V>(face_verts[f.i]); }
  auto cells() const { return list<C>(cell_order); }
  auto cells(flecsi::owned_t) const { return list<C>(owned_cells); }
  auto cells(F f) const { return list<C>(face_cells[f.i]); }
  auto faces(C c) const { return list<F>(cell_faces[c.i]); }
};
} // namespace burton
} // namespace flecsi_sp

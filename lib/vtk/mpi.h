// a stand-in for MPI on one rank of several
#pragma once
typedef int MPI_Comm;
#define MPI_COMM_WORLD 0
#define MPI_SUCCESS 0
namespace vtk_double {
inline int & rank() {
  static int r = 0;
  return r;
}
inline int & ranks() {
  static int n = 1;
  return n;
}
} // namespace vtk_double
inline int MPI_Comm_size(MPI_Comm, int * n) {
  *n = vtk_double::ranks();
  return 0;
}
inline int MPI_Comm_rank(MPI_Comm, int * n) {
  *n = vtk_double::rank();
  return 0;
}
inline double MPI_Wtime() { return 0; }

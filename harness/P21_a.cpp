// VTK files (see vtk.hpp)
// BOUND: meshes of up to 2 lines, 3 triangles, 2 quadrilaterals, 2 tetrahedra and 2 hexahedra, all assignments of the cells to 2 segments (both, one or none), symbolic coordinates and data, 2 orders of the vertices; hand-written files of 2 triangles cut off after every tag
#include "vtk.hpp"
VS_HARNESS(lines_1d) { mesh_trip<line_1d_mesh>(); }
VS_HARNESS(lines_3d) { mesh_trip<line_3d_mesh>(); }
VS_HARNESS(triangles_2d) { mesh_trip<triangular_2d_mesh>(); }
VS_HARNESS(triangles_3d) { mesh_trip<triangular_3d_mesh>(2); }

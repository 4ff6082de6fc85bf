// VTK files of thin meshes (see vtk.hpp)
#include "vtk.hpp"
VS_HARNESS(thin_tetrahedra_files) { mesh_trip<thin_tetrahedral_3d_mesh>(); }
VS_HARNESS(thin_triangle_files) { mesh_trip<thin_triangular_2d_mesh>(2); }
VS_HARNESS(thin_triangle_segment_files) { segments_trip<thin_triangular_2d_mesh>(2); }

// VTK files (see vtk.hpp)
#include "vtk.hpp"
VS_HARNESS(quadrilaterals_2d) { mesh_trip<quadrilateral_2d_mesh>(); }
VS_HARNESS(tetrahedra) { mesh_trip<tetrahedral_3d_mesh>(); }
VS_HARNESS(hexahedra) { mesh_trip<hexahedral_3d_mesh>(1); }

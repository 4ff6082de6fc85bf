// VTK files (see vtk.hpp)
#include "vtk.hpp"
VS_HARNESS(tetrahedron_segments) { segments_trip<tetrahedral_3d_mesh>(2); }
VS_HARNESS(quadrilateral_segments) { segments_trip<quadrilateral_2d_mesh>(2); }

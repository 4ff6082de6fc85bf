// VTK files (see vtk.hpp)
#include "vtk.hpp"
VS_HARNESS(triangle_segments) { segments_trip<triangular_2d_mesh>(2); }
VS_HARNESS(line_segments) { segments_trip<line_2d_mesh>(2); }
VS_HARNESS_THOROUGH(three_triangle_segments) { segments_trip<triangular_2d_mesh>(3); }

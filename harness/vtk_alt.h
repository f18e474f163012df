/* Forced include: compiles the library's VTK writer in another of its output
 * formats under other names.  VTK_ALT 1: text, doubles; 2: plain binary, doubles. */
#include <p4est_config.h>
#undef P4EST_ENABLE_VTK_COMPRESSION
#if VTK_ALT == 1
#undef P4EST_ENABLE_VTK_BINARY
#define VTK_ALT_NAME(x) x##_alt1
#else
#define VTK_ALT_NAME(x) x##_alt2
#endif
#define P4EST_ENABLE_VTK_DOUBLES 1
#if defined VTK_ALT_6
#define p6est_vtk_write_file VTK_ALT_NAME (p6est_vtk_write_file)
#define p6est_vtk_write_all VTK_ALT_NAME (p6est_vtk_write_all)
#define p6est_vtk_write_header VTK_ALT_NAME (p6est_vtk_write_header)
#define p6est_vtk_write_point_scalar VTK_ALT_NAME (p6est_vtk_write_point_scalar)
#define p6est_vtk_write_point_vector VTK_ALT_NAME (p6est_vtk_write_point_vector)
#define p6est_vtk_write_footer VTK_ALT_NAME (p6est_vtk_write_footer)
#elif defined VTK_ALT_3D
#define p8est_vtk_context_new VTK_ALT_NAME (p8est_vtk_context_new)
#define p8est_vtk_context_set_geom VTK_ALT_NAME (p8est_vtk_context_set_geom)
#define p8est_vtk_context_set_scale VTK_ALT_NAME (p8est_vtk_context_set_scale)
#define p8est_vtk_context_set_continuous VTK_ALT_NAME (p8est_vtk_context_set_continuous)
#define p8est_vtk_context_destroy VTK_ALT_NAME (p8est_vtk_context_destroy)
#define p8est_vtk_write_file VTK_ALT_NAME (p8est_vtk_write_file)
#define p8est_vtk_write_header VTK_ALT_NAME (p8est_vtk_write_header)
#define p8est_vtk_write_header_ho VTK_ALT_NAME (p8est_vtk_write_header_ho)
#define p8est_vtk_write_cell_data VTK_ALT_NAME (p8est_vtk_write_cell_data)
#define p8est_vtk_write_cell_dataf VTK_ALT_NAME (p8est_vtk_write_cell_dataf)
#define p8est_vtk_write_cell_datav VTK_ALT_NAME (p8est_vtk_write_cell_datav)
#define p8est_vtk_write_point_dataf VTK_ALT_NAME (p8est_vtk_write_point_dataf)
#define p8est_vtk_write_footer VTK_ALT_NAME (p8est_vtk_write_footer)
#else
#define p4est_vtk_context_new VTK_ALT_NAME (p4est_vtk_context_new)
#define p4est_vtk_context_set_geom VTK_ALT_NAME (p4est_vtk_context_set_geom)
#define p4est_vtk_context_set_scale VTK_ALT_NAME (p4est_vtk_context_set_scale)
#define p4est_vtk_context_set_continuous VTK_ALT_NAME (p4est_vtk_context_set_continuous)
#define p4est_vtk_context_destroy VTK_ALT_NAME (p4est_vtk_context_destroy)
#define p4est_vtk_write_file VTK_ALT_NAME (p4est_vtk_write_file)
#define p4est_vtk_write_header VTK_ALT_NAME (p4est_vtk_write_header)
#define p4est_vtk_write_header_ho VTK_ALT_NAME (p4est_vtk_write_header_ho)
#define p4est_vtk_write_cell_data VTK_ALT_NAME (p4est_vtk_write_cell_data)
#define p4est_vtk_write_cell_dataf VTK_ALT_NAME (p4est_vtk_write_cell_dataf)
#define p4est_vtk_write_cell_datav VTK_ALT_NAME (p4est_vtk_write_cell_datav)
#define p4est_vtk_write_point_dataf VTK_ALT_NAME (p4est_vtk_write_point_dataf)
#define p4est_vtk_write_footer VTK_ALT_NAME (p4est_vtk_write_footer)
#endif

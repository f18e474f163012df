/* built-in domains: trees, boundary faces, edge classes, corner classes, Euler characteristic, orientable, face-connected components */
#ifndef P4_TO_P8
static const Bi builtins[] = {
  {"unit", MK (p4est_connectivity_new_unitsquare ()), 0, 1, {1, 4, 0, 4, 1, 1, 1}},
  {"periodic", MK (p4est_connectivity_new_periodic ()), 0, 0, {1, 0, 0, 1, 0, 1, 1}},
  {"rotwrap", MK (p4est_connectivity_new_rotwrap ()), 0, 0, {1, 0, 0, 1, 0, 0, 1}},
  {"circle", MK (p4est_connectivity_new_circle ()), 0, 1, {6, 12, 0, 12, 0, 1, 1}},
  {"drop", MK (p4est_connectivity_new_drop ()), 0, 1, {5, 10, 0, 10, 0, 1, 1}},
  {"corner", MK (p4est_connectivity_new_corner ()), 0, 1, {3, 6, 0, 7, 1, 1, 1}},
  {"pillow", MK (p4est_connectivity_new_pillow ()), 0, 1, {2, 0, 0, 4, 2, 1, 1}},
  {"moebius", MK (p4est_connectivity_new_moebius ()), 0, 1, {5, 10, 0, 10, 0, 0, 1}},
  {"star", MK (p4est_connectivity_new_star ()), 0, 1, {6, 12, 0, 13, 1, 1, 1}},
  {"cubed", MK (p4est_connectivity_new_cubed ()), 0, 1, {6, 0, 0, 8, 2, 1, 1}},
  {"disk_nonperiodic", MK (p4est_connectivity_new_disk_nonperiodic ()), 0, 1, {5, 4, 0, 8, 1, 1, 1}},
  {"disk00", MK (p4est_connectivity_new_disk (0, 0)), 0, 1, {5, 4, 0, 8, 1, 1, 1}},
  {"disk10", MK (p4est_connectivity_new_disk (1, 0)), 0, 0, {5, 2, 0, 6, 0, 1, 1}},
  {"disk01", MK (p4est_connectivity_new_disk (0, 1)), 0, 0, {5, 2, 0, 6, 0, 1, 1}},
  {"disk11", MK (p4est_connectivity_new_disk (1, 1)), 0, 0, {5, 0, 0, 5, 0, 1, 1}},
  {"icosahedron", MK (p4est_connectivity_new_icosahedron ()), 0, 0, {10, 0, 0, 12, 2, 1, 1}},
  {"shell2d", MK (p4est_connectivity_new_shell2d ()), 0, 0, {8, 16, 0, 16, 0, 1, 1}},
  {"disk2d", MK (p4est_connectivity_new_disk2d ()), 0, 0, {5, 4, 0, 8, 1, 1, 1}},
  {"bowtie", MK (p4est_connectivity_new_bowtie ()), 0, 1, {2, 8, 0, 7, 1, 1, 2}},
};
#else
static const Bi builtins[] = {
  {"unit", MK (p8est_connectivity_new_unitcube ()), 0, 1, {1, 6, 12, 8, 1, 1, 1}},
  {"periodic", MK (p4est_connectivity_new_periodic ()), 0, 0, {1, 0, 3, 1, 0, 1, 1}},
  {"rotwrap", MK (p8est_connectivity_new_rotwrap ()), 0, 0, {1, 2, 4, 1, 0, 1, 1}},
  {"drop", MK (p8est_connectivity_new_drop ()), 0, 1, {5, 24, 46, 24, 0, 1, 2}},
  {"twocubes", MK (p8est_connectivity_new_twocubes ()), 0, 1, {2, 10, 20, 12, 1, 1, 1}},
  {"twowrap", MK (p8est_connectivity_new_twowrap ()), 0, 0, {2, 8, 16, 8, 0, 1, 1}},
  {"rotcubes", MK (p8est_connectivity_new_rotcubes ()), 0, 1, {6, 24, 49, 26, 1, 1, 1}},
  {"pillow", MK (p8est_connectivity_new_pillow ()), 0, 0, {2, 4, 12, 8, 2, 1, 1}},
  {"shell", MK (p8est_connectivity_new_shell ()), 0, 0, {24, 48, 122, 52, 2, 1, 1}},
  {"sphere", MK (p8est_connectivity_new_sphere ()), 0, 0, {13, 6, 52, 24, 1, 1, 1}},
  {"torus", MKN (p8est_connectivity_new_torus (n)), 1, 0, {5, 4, 20, 8, 0, 1, 1}},
  {"torus", MKN (p8est_connectivity_new_torus (n)), 2, 0, {10, 8, 40, 16, 0, 1, 1}},
  {"torus", MKN (p8est_connectivity_new_torus (n)), 3, 0, {15, 12, 60, 24, 0, 1, 1}},
  {"torus", MKN (p8est_connectivity_new_torus (n)), 7, 0, {35, 28, 140, 56, 0, 1, 1}},
};
#endif

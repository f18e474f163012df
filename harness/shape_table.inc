#ifndef P4_TO_P8
static const Shape shapes[] = {
  { "bowtie", 0, 7.99984656, 15.9998465593 }, { "circle", 0, 31.176914592, 60.000000049 }, { "corner", 0, 15.313708499, 29.8564064606 },
  { "cubed", 0, 24, 48 }, { "disk00", 0, 144, 125.254833996 }, { "disk01", 0, 144, 125.254833996 }, { "disk10", 0, 144, 125.254833996 },
  { "disk11", 0, 144, 125.254833996 }, { "disk2d", 0, 48, 64 }, { "disk_nonperiodic", 0, 144, 125.254833996 }, { "drop", 0, 32, 56.9705627485 },
  { "icosahedron", 0, 34.6410161514, 80 }, { "moebius", 0, 19.6279627825, 41.5108892299 }, { "periodic", 0, 4, 8 }, { "pillow", 0, 8, 16 },
  { "rotwrap", 0, 4, 8 }, { "shell2d", 0, 32, 64 }, { "star", 0, 18, 43.3780314341 }, { "unit", 0, 4, 8 },
};
#else
static const Shape shapes[] = {
  { "drop", 0, 64, 153.941125497 }, { "periodic", 0, 8, 24 }, { "pillow", 0, 16, 48 }, { "rotcubes", 0, 44, 145.797958971 }, { "rotwrap", 0, 8, 24 },
  { "shell", 0, 192, 576 }, { "sphere", 0, 448, 528 }, { "torus", 1, 96, 168 }, { "torus", 2, 192, 336 }, { "torus", 3, 288, 504 }, { "torus", 7, 672, 1176 },
  { "twocubes", 0, 16, 48 }, { "twowrap", 0, 16, 48 }, { "unit", 0, 8, 24 },
};
#endif

#!/usr/bin/env python3
"""Generates build.ninja for the harness: the library compiled from /repo/src twice
(sanitized with assertions, and plain without), the monitors for 2D and 3D."""
import glob, os, sys
H = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VH_REPO", "/repo")
B = os.environ.get("VH_BUILD", os.path.join(H, "..", "build"))
B = os.path.abspath(B)
os.makedirs(B, exist_ok=True)
MPI = "-I/usr/lib/x86_64-linux-gnu/openmpi/include"
INC = f"-I{H}/config -I{REPO}/src -I/opt/vp/sc-compat {MPI}"
skip = {"p4est_empty.c"}
libsrc = sorted(os.path.basename(s) for s in glob.glob(f"{REPO}/src/*.c"))
libsrc = [s for s in libsrc if not s.endswith("_empty.c")]
CFG = {
  "san": ("-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=alignment,nonnull-attribute -fno-sanitize-recover=all -DSC_ENABLE_DEBUG -include vh_pool.h", "-fsanitize=address,undefined", "-DSC_ENABLE_DEBUG -include vh_pool.h"),
  "rel": ("-O2 -g -ftrivial-auto-var-init=pattern -DVH_RELEASE", "", "-DVH_RELEASE"),
}
hsrc = sorted(os.path.basename(s) for s in glob.glob(f"{H}/*.cpp"))
out = []
w = out.append
w("ninja_required_version = 1.3")
w(f"builddir = {B}")
w("rule cc\n command = gcc $flags -w -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n description = CC $out")
w("rule cxx\n command = g++ -std=c++17 -O2 -g1 -D_Static_assert=static_assert $flags -w -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n description = CXX $out")
w("rule ccalt\n command = gcc $flags -w -MMD -MF $out.d -c $in -o $out && objcopy --wildcard --keep-global-symbol='*_alt$alt' $out\n depfile = $out.d\n deps = gcc\n description = CC $out")
w("rule ar\n command = rm -f $out && ar crs $out $in\n description = AR $out")
w("rule weak\n command = objcopy $flags $in $out\n description = WEAK $out")
SC = "/usr/lib/x86_64-linux-gnu/libsc.a"
OWN = "sc_malloc sc_calloc sc_realloc sc_strdup sc_free sc_memory_status sc_memory_check sc_array_resize sc_mempool_init sc_mempool_new sc_mempool_new_zero_and_persist".split()
w("rule ldw\n command = g++ $flags -o $out $in -L/usr/lib/x86_64-linux-gnu/openmpi/lib -lmpi -lz -lm\n description = LD $out")
w("rule ld\n command = g++ $flags -o $out $in -L/usr/lib/x86_64-linux-gnu/openmpi/lib -lsc -lmpi -lz -lm\n description = LD $out")
alls = []
for cfg, (cf, lf, hf) in CFG.items():
    objs = []
    for s in libsrc:
        o = f"{B}/{cfg}/lib/{s[:-2]}.o"
        w(f"build {o}: cc {REPO}/src/{s}\n flags = {cf} {INC}")
        objs.append(o)
    lib = f"{B}/{cfg}/libp4est.a"
    w(f"build {lib}: ar {' '.join(objs)}")
    # the allocation functions of the support library are replaced by exact ones (alloc.cpp)
    if cfg == "san":
        w(f"build {B}/san/libsc.a: weak {SC}\n flags = {' '.join('--weaken-symbol=' + x for x in OWN)}")
    for dim in (2, 3):
        hobjs = []
        for s in hsrc:
            if s.startswith("p6_") and dim == 2: continue
            if s.startswith("t_"): continue
            # the harness itself is not sanitized; ASan still checks the library
            o = f"{B}/{cfg}/h{dim}/{s[:-4]}.o"
            w(f"build {o}: cxx {H}/{s}\n flags = {hf} {'-DP4_TO_P8' if dim == 3 else ''} {INC}")
            hobjs.append(o)
        # the VTK writer again with its other output formats
        for alt in (1, 2):
            o = f"{B}/{cfg}/h{dim}/vtk_alt{alt}.o"
            w(f"build {o}: ccalt {REPO}/src/{'p8est' if dim == 3 else 'p4est'}_vtk.c | {H}/vtk_alt.h {H}/config/vh_pool.h\n flags = {cf} {INC} -DVTK_ALT={alt} {'-DVTK_ALT_3D' if dim == 3 else ''} -include {H}/vtk_alt.h\n alt = {alt}")
            hobjs.append(o)
            if dim == 2:
                o = f"{B}/{cfg}/h{dim}/vtk6_alt{alt}.o"
                w(f"build {o}: ccalt {REPO}/src/p6est_vtk.c | {H}/vtk_alt.h {H}/config/vh_pool.h\n flags = {cf} {INC} -DVTK_ALT={alt} -DVTK_ALT_6 -include {H}/vtk_alt.h\n alt = {alt}")
                hobjs.append(o)
        exe = f"{B}/vh{dim}-{cfg}"
        if cfg == "san": w(f"build {exe}: ldw {' '.join(hobjs)} {lib} {B}/san/libsc.a\n flags = {lf}")
        else: w(f"build {exe}: ld {' '.join(hobjs)} {lib}\n flags = {lf}")
        alls.append(exe)
w(f"build all: phony {' '.join(alls)}")
w("default all")
txt = "\n".join(out) + "\n"
path = f"{B}/build.ninja"
if not os.path.exists(path) or open(path).read() != txt:
    open(path, "w").write(txt)
print(B)

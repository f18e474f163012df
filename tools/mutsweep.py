#!/usr/bin/env python3
"""mutsweep.py N SEED [FILES...]: plants N small random changes into a copy of the source and runs
the checks related to the file on each; lists the changes that no monitor noticed (to be judged by hand:
many of them do not change behaviour).  A development aid, not a check."""
import os, random, re, shutil, subprocess, sys, time, tempfile, json, multiprocessing as mp
H = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
sys.path.insert(0, H); sys.path.insert(0, H + "/tools")
RELATED = {
 "p4est.c": "C01 C03 C05 C02 C24 C23 C14 C28", "p4est_algorithms.c": "C01 C03 C05 C02 C24 C20 C06 C13", "p4est_balance.c": "C05 C06 C22",
 "p4est_bits.c": "C19 C18 C20 C12 C24", "p4est_build.c": "C24 C23", "p4est_communication.c": "C13 C03 C15 C25 C20 C14 C23",
 "p4est_connectivity.c": "C16 C17 C18 C28", "p8est_connectivity.c": "C16 C17 C18 C28", "p4est_connrefine.c": "C16", "p4est_geometry.c": "C28 C26", "p8est_geometry.c": "C28",
 "p4est_ghost.c": "C06 C07 C29 C23 C08", "p8est_ghost.c": "C06", "p4est_io.c": "C14 C23", "p4est_iterate.c": "C08 C25", "p4est_lnodes.c": "C09 C29 C23 C06 C27",
 "p4est_mesh.c": "C11 C23", "p4est_nodes.c": "C10 C23", "p4est_plex.c": "C29 C23", "p4est_points.c": "C24", "p4est_search.c": "C12 C13 C24", "p4est_vtk.c": "C26",
 "p4est_wrap.c": "C21 C23", "p6est.c": "C22 C23", "p6est_communication.c": "C22", "p6est_ghost.c": "C27", "p6est_lnodes.c": "C27", "p6est_profile.c": "C22 C27",
 "p8est_bits.c": "C19 C18", "p8est_tets_hexes.c": "C17", "p4est_connectivity.h": "C16 C18",
}
THREED = {f for f in RELATED if f.startswith(("p6", "p8"))}
BINOPS = [(" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" && ", " || "), (" || ", " && "),
          (" + ", " - "), (" - ", " + "), (" & ", " | "), (" | ", " & "), (" << ", " >> "), (" += ", " -= "), (" -= ", " += "), (" |= ", " &= "), (" * ", " / ")]
SKIP = re.compile(r"ASSERT|LOG|PRODUCTION|ESSENTIAL|INFO|VERBOSE|CHECK_ABORT|^\s*(#|\*|/\*|//)|sc_flops|stats|printf|SC_TIME|inspect|_free|FREE|_reset|_destroy|indent|^\s*(else|return;|default:|\}|\{)?\s*$|const char|static |#define|\\\s*$|debug|magic")
def candidates(text):
    out = []
    lines = text.split("\n")
    depth_cmt = False; dbg = 0
    infunc = False
    skipcall = 0
    for i, l in enumerate(lines):
        if l.startswith("{"): infunc = True
        if l.startswith("}"): infunc = False
        if re.match(r"\s*#\s*if", l):
            if dbg or re.search(r"ENABLE_DEBUG|#\s*if 0|THEBIG|STATISTICS|TIMINGS|#ifdef P4EST_(?!TO)", l): dbg += 1
        elif re.match(r"\s*#\s*endif", l) and dbg: dbg -= 1
        if "/*" in l and "*/" not in l: depth_cmt = True
        if depth_cmt:
            if "*/" in l: depth_cmt = False
            continue
        if skipcall:
            if l.rstrip().endswith(";"): skipcall = 0
            continue
        if re.search(r"ASSERT|LOG|PRODUCTION|ESSENTIAL|INFO|VERBOSE|ABORT", l) and not l.rstrip().endswith(";"): skipcall = 1; continue
        if not infunc or dbg or SKIP.search(l): continue
        if re.match(r"^\s+(const\s+)?\w+(\s+\w+)?\s+\**\w+(\[.*\])?(,\s*\**\w+)*;$", l) and not l.strip().startswith(("return", "goto")): continue   # declaration
        code = re.sub(r"/\*.*?\*/", lambda m: " " * len(m.group(0)), l)
        for a, b in BINOPS:
            for m in re.finditer(re.escape(a), code):
                out.append((i, "op", m.start(), a, b))
        for m in re.finditer(r"(?<![\w.\"%])(\d)(?![\w.\"x])", code):
            d = int(m.group(1))
            for n in {d + 1, d - 1} - {-1}:
                out.append((i, "lit", m.start(), m.group(1), str(n)))
        for m in re.finditer(r"\+\+(\w+)|(\w+)\+\+", code):
            if re.match(r"\s+(\+\+\w+|\w+\+\+);", code): out.append((i, "del", 0, l, re.match(r"\s*", l).group(0) + ";"))
        if re.match(r"^\s+[\w\->\[\].()*]+ (=|\+=|\|=|&=) [^;]*;$", code) or re.match(r"^\s+\w+ \(.*\);$", code):
            prev = lines[i - 1].rstrip()
            if not re.match(r"^\s+(const )?\w+ +\**\w+ = ", code) and (prev.endswith((";", "{", "}")) or prev.strip() == ""):
                out.append((i, "del", 0, l, re.match(r"\s*", l).group(0) + ";"))
        if re.match(r"^\s+(continue|break);$", code): out.append((i, "del", 0, l, re.match(r"\s*", l).group(0) + ";"))
        # another variable of the neighbourhood instead
        names = sorted({x for k in range(max(0, i - 4), min(len(lines), i + 4)) for x in re.findall(r"(?<![\w.>\"])([a-z]\w*)(?!\w*[\s]*\()(?!\w)", re.sub(r"/\*.*?\*/", "", lines[k])) if not re.match(r"(const|void|int|if|for|else|while|return|size_t|sizeof|static|struct|char|double|long|unsigned|define|ifdef|endif|ifndef|p[248]e?s?t_\w+_t|p4est_\w+|p8est_\w+|sc_\w+|break|continue|switch|case)$", x)})
        for m in re.finditer(r"(?<![\w.>\"])([a-z]\w*)(?!\w)(?!\s*\()", code):
            if m.group(1) in names:
                for o in names:
                    if o != m.group(1): out.append((i, "var", m.start(), m.group(1), o))
        for m in re.finditer(r" (?:&&|\|\|) (\([^()]*\)|[^()&|]+)(?=\)| &&| \|\|)", code): out.append((i, "op", m.start(), m.group(0), ""))
        m = re.match(r"^(\s+(?:\} else )?if \()(.*)(\) \{)$", code)
        if m:
            out.append((i, "ift", 0, l, m.group(1) + "1 || (" + m.group(2) + ")" + m.group(3)))
            out.append((i, "iff", 0, l, m.group(1) + "0 && (" + m.group(2) + ")" + m.group(3)))
    return lines, out
def worker(k, tasks, results, frac):
    W = f"/tmp/mutsweep.{os.getppid()}.{k}"; shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    shutil.copytree(os.environ.get("SRC", "/repo") + "/src", W + "/repo/src")
    env = dict(os.environ, VH_REPO=W + "/repo", VH_BUILD=W + "/build")
    os.environ["VH_REPO"] = W + "/repo"; os.environ["VERIF_SEED"] = "1"
    subprocess.run([sys.executable, H + "/harness/mk.py"], env=env, check=True, stdout=subprocess.DEVNULL)
    def ninja(*t): return subprocess.run(["ninja", "-j", "3", "-C", W + "/build", *t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).returncode == 0
    assert ninja("all")
    import check
    check.BUILD = W + "/build"
    def text_of(f):
        r = []
        for o in ({f, f.replace("p4est", "p8est")} if f.endswith(".c") else {"p4est_connectivity.c", "p8est_connectivity.c", "p4est_algorithms.c", "p8est_algorithms.c"}):
            p = f"{W}/build/rel/lib/{o[:-2]}.o"
            if os.path.exists(p):
                subprocess.run(["objcopy", "-O", "binary", "--only-section=.text", p, W + "/t.bin"]); r.append(open(W + "/t.bin", "rb").read())
                subprocess.run(["objcopy", "-O", "binary", "--only-section=.rodata", p, W + "/t.bin"]); r.append(open(W + "/t.bin", "rb").read())
        return r
    base = {}
    while True:
        t = tasks.get()
        if t is None: break
        f, i, kind, col, a, b = t
        src = f"{W}/repo/src/{f}"
        if f not in base: base[f] = text_of(f)
        orig = open(src).read()
        lines = orig.split("\n")
        l = lines[i]
        lines[i] = (l[:col] + b + l[col + len(a):]) if kind in ("op", "lit", "var") else b
        new = lines[i]
        t0 = time.time(); verdict = "SURVIVED"
        open(src, "w").write("\n".join(lines))
        try:
            if not ninja("vh2-rel" if False else W + "/build/vh2-rel", W + "/build/vh3-rel"): verdict = "nobuild"
            elif text_of(f) == base[f]: verdict = "equivalent"
            else:
                stage = 0
                for cfgs, Ps, fr in ((("rel",), (3,), frac), (("rel",), (2, 5, 1), frac), (("san",), (2, 4, 3), frac)):
                    if cfgs == ("san",) and not ninja("all"): verdict = "nobuild"; break
                    for prop in RELATED[f].split():
                        jobs = {}
                        for j in check.SPECS[prop]["jobs"]("quick"):
                            if j.cfg in cfgs and j.P in Ps and (f not in THREED or j.dim == 3 or prop in ("C22", "C27")) and (j.dim, j.P) not in jobs: jobs[(j.dim, j.P)] = j
                        for j in jobs.values():
                            r = check.run_batch(j, prop, 1, 0, W, count=max(5, int(j.count * fr)), timeout=150, stall=30)
                            known = check.known_findings(prop)
                            v = [x for x in r["viol"] if not any(q["key"] == x["key"] for q in known)]
                            if v or r["hang"] or (r["rc"] != 0 and not r["viol"]):
                                verdict = f"killed {prop} {j.key()} {v[0]['key'] if v else 'hang' if r['hang'] else check.crash_key(r['text'])[1][:60]}"
                                break
                        if verdict != "SURVIVED": break
                    if verdict != "SURVIVED": break
        finally:
            open(src, "w").write(orig)
        results.put((f, i + 1, kind, l.strip(), new.strip(), verdict, time.time() - t0))
    shutil.rmtree(W, ignore_errors=True)
    results.put(None)
if __name__ == "__main__":
    N, seed = int(sys.argv[1]), int(sys.argv[2])
    files = sys.argv[3:] or list(RELATED)
    nw = int(os.environ.get("NW", "4")); frac = float(os.environ.get("FRAC", "0.35")); tlimit = float(os.environ.get("TLIM", "1e9"))
    rng = random.Random(seed)
    pool = []
    for f in files:
        _, c = candidates(open(os.environ.get("SRC", "/repo") + "/src/" + f).read())
        bl = {}
        for x in c: bl.setdefault(x[0], []).append(x)
        pool += [(f, xs) for xs in bl.values()]
    rng.shuffle(pool)
    tasks, results = mp.Queue(), mp.Queue()
    for f, xs in pool[:N]: tasks.put((f, *rng.choice(xs)))
    for _ in range(nw): tasks.put(None)
    ws = [mp.Process(target=worker, args=(k, tasks, results, frac)) for k in range(nw)]
    for w in ws: w.start()
    done, tally = 0, {}
    while done < nw:
        r = results.get()
        if r is None: done += 1; continue
        f, i, kind, old, new, v, dt = r
        tally[v.split()[0]] = tally.get(v.split()[0], 0) + 1
        print(f"{v} [{dt:.0f}s] {f}:{i} {kind}\n    - {old}\n    + {new}", flush=True)
    print("TALLY", tally)

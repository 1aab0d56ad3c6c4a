#!/usr/bin/env python3
"""Builds simulator binaries from /repo's current working tree into /verif/build (ninja, incremental).

usage: build.py TARGET...   TARGET = <group>_<config>, e.g. mov_up, k2_dbg, io_up
"""
import os, subprocess, sys, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))

CONFIGS = {
    "up":   "-DROUND_MODE_UP",
    "conv": "-DROUND_MODE_CONVERGENT",
    # -O0, like the repository's own Debug build: every access to shared state stays a memory access
    "dbg":  "-O0 -DROUND_MODE_UP -DFULL_ACCU -DAVEPOOL_16BIT_MUL -DMLI_DEBUG_MODE=DBG_MODE_FULL",
    "rc":   "-DROUND_MODE_UP -DMLI_DEBUG_MODE=DBG_MODE_RET_CODES",
}
GROUPS = {            # scenario sources of each binary
    "mov": ["s_mov.cc"],
    "k2":  ["s_k2.cc"],
    "k3":  ["s_k3.cc", "k3_kernels.cc"],
    "io":  ["s_io.cc"],
}
BASE = "-std=c++17 -O1 -g1 -fno-pie -fno-omit-frame-pointer"
LIBFLAGS = BASE + " -fsanitize-coverage=trace-pc -fstack-protector-strong -w"
# -w: warnings of the code under test are not what is judged here

IO_SOURCES = ["examples/auxiliary/idx_file.c", "examples/auxiliary/examples_aux.c",
              "examples/auxiliary/tests_aux.c", "examples/auxiliary/tensor_transform.c", "examples/example_face_detect/bmp_file_io.c"]


def library_sources():
    """Source list and include directories as the repository's own build defines them."""
    script = os.path.join(BUILD, "list.cmake")
    with open(script, "w") as f:
        f.write('set(ROUND_MODE UP)\nset(MLI_PLATFORM "")\ninclude(%s/lib/mli_lib.cmake)\n' % REPO)
        f.write('foreach(f ${MLI_LIB_SOURCE_FILES})\nmessage("SRC ${f}")\nendforeach()\n')
        f.write('foreach(f ${MLI_LIB_PRIVATE_INCLUDES} ${MLI_LIB_PUBLIC_INCLUDES})\nmessage("INC ${f}")\nendforeach()\n')
    r = subprocess.run(["cmake", "-P", script], capture_output=True, text=True)
    src, inc = [], []
    for l in (r.stdout + r.stderr).splitlines():
        if l.startswith("SRC "):
            s = os.path.normpath(l[4:])
            if s not in src:
                src.append(s)
        elif l.startswith("INC "):
            d = l[4:]
            if d.startswith("$<BUILD_INTERFACE:"):
                d = d[len("$<BUILD_INTERFACE:"):-1]
            d = os.path.normpath(d)
            if d not in inc:
                inc.append(d)
    if len(src) < 40:
        sys.stderr.write(r.stdout + r.stderr)
        raise SystemExit("build.py: cannot read the library's source list")
    return src, inc


def write_ninja(targets):
    os.makedirs(BUILD, exist_ok=True)
    src, inc = library_sources()
    incs = " ".join("-I" + d for d in inc)
    o = []
    o.append("builddir = %s" % BUILD)
    o.append("rule cxx\n  command = g++ -MMD -MF $out.d $flags -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    o.append("rule cc\n  command = gcc -MMD -MF $out.d $flags -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    o.append("rule ar\n  command = rm -f $out && ar crs $out $in")
    o.append("rule link\n  command = g++ -static -no-pie -o $out $in")
    scn = BASE + " -Wall -Wno-unused-function " + incs + " -I%s/sim -I%s -DSIM_TRUE=1" % (VERIF, REPO)
    o.append("build %s/sim.o: cxx %s/sim/sim.cc\n  flags = %s -fno-stack-protector" % (BUILD, VERIF, BASE + " -O2"))
    for m in ("begin", "end"):
        o.append("build %s/mark_%s.o: cxx %s/sim/mark_%s.cc\n  flags = %s" % (BUILD, m, VERIF, m, BASE))
    need_cfg = sorted({t.split("_")[1] for t in targets})
    need_grp = sorted({t.split("_")[0] for t in targets})
    lib_objs = {}
    for c in need_cfg:
        objs = lib_objs[c] = []
        for s in src:
            rel = os.path.relpath(s, REPO).replace("/", "_")
            ob = "%s/%s/%s.o" % (BUILD, c, rel)
            o.append("build %s: cxx %s\n  flags = %s %s %s" % (ob, s, LIBFLAGS, CONFIGS[c], incs))
            objs.append(ob)
        o.append("build %s/libmli_%s.a: ar %s" % (BUILD, c, " ".join(objs)))
        o.append("build %s/cfg_%s.o: cxx %s/sim/cfg.cc\n  flags = %s -DSIM_CONFIG='\"%s\"'" % (BUILD, c, VERIF, BASE, c))
    for g in need_grp:
        for s in GROUPS[g]:
            extra = ""
            if g == "io":
                extra = " -I%s/examples/auxiliary -I%s/examples/example_face_detect" % (REPO, REPO)
            if g == "k3":          # header templates of the library have to see the same configuration
                for c in need_cfg:
                    o.append("build %s/%s/%s.o: cxx %s/sim/%s\n  flags = %s %s" % (BUILD, c, s, VERIF, s, scn, CONFIGS[c]))
                continue
            o.append("build %s/%s.o: cxx %s/sim/%s\n  flags = %s%s" % (BUILD, s, VERIF, s, scn, extra))
    io_objs = []
    if "io" in need_grp:
        for s in IO_SOURCES:
            ob = "%s/io/%s.o" % (BUILD, s.replace("/", "_"))
            cf = LIBFLAGS.replace("-std=c++17 ", "") + " -fstack-protector-all"
            o.append("build %s: cc %s/%s\n  flags = %s -DROUND_MODE_UP %s -I%s/examples/auxiliary -I%s/examples/example_face_detect -include %s/sim/io_redirect.h"
                     % (ob, REPO, s, cf, incs, REPO, REPO, VERIF))
            io_objs.append(ob)
    for t in targets:
        g, c = t.split("_")
        if g == "k3":              # library objects first: its (instrumented) template instances are the ones linked
            ins = [BUILD + "/sim.o", BUILD + "/cfg_%s.o" % c] + [BUILD + "/mark_begin.o"] + lib_objs[c] + [BUILD + "/mark_end.o"] + ["%s/%s/%s.o" % (BUILD, c, s) for s in GROUPS[g]]
            o.append("build %s/%s: link %s" % (BUILD, t, " ".join(ins)))
            continue
        ins = ["%s/sim.o" % BUILD, "%s/cfg_%s.o" % (BUILD, c)] + ["%s/%s.o" % (BUILD, s) for s in GROUPS[g]]
        if g == "io":
            ins += io_objs
        ins += ["%s/mark_begin.o" % BUILD, "%s/libmli_%s.a" % (BUILD, c), "%s/mark_end.o" % BUILD]
        o.append("build %s/%s: link %s" % (BUILD, t, " ".join(ins)))
    text = "\n".join(o) + "\n"
    name = os.path.join(BUILD, "build-%s.ninja" % hashlib.sha1(" ".join(sorted(targets)).encode()).hexdigest()[:8])
    old = open(name).read() if os.path.exists(name) else None
    if old != text:
        with open(name, "w") as f:
            f.write(text)
    return name


def build(targets):
    os.makedirs(BUILD, exist_ok=True)
    n = write_ninja(targets)
    r = subprocess.run(["ninja", "-f", n, "-C", BUILD] + ["%s/%s" % (BUILD, t) for t in targets], capture_output=True, text=True)
    return r.returncode, r.stdout + r.stderr


if __name__ == "__main__":
    rc, out = build(sys.argv[1:])
    if rc:
        sys.stderr.write(out[-6000:])
    else:
        print(out.splitlines()[-1][:60] if out else "")
    sys.exit(rc)

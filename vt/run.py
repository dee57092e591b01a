#!/usr/bin/env python3
"""Builds the current /repo sources plus one driver and runs the exhaustive exploration for a property.

usage: run.py <property> [--tier quick|thorough] [--replay FILE] [--build-only] [driver args...]
Exit status: 0 property held on everything explored, 1 violation, anything else: error of the check itself.
"""
import json, os, shutil, subprocess, sys, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
VT = os.path.join(VERIF, "vt")
SKIP_DIRS = {"_build", "tests", ".git", "doc", "scripts", "testfiles", "cmake", "build"}

FLAVOURS = {
    "plain": ("g++", "-O1 -g0 -DNDEBUG", ""),
    "assert": ("g++", "-O1 -g0 -D_GLIBCXX_ASSERTIONS", ""),
    "asan": ("clang++", "-O1 -gline-tables-only -DNDEBUG -fsanitize=address,undefined -fno-sanitize=vptr,alignment,enum,function -fno-sanitize-recover=undefined -fsanitize-ignorelist=" + VT + "/ubsan.ignore -D_GLIBCXX_SANITIZE_VECTOR=1", "-fsanitize=address,undefined"),
}
# property -> driver source, flavour, level
CHECKS = json.load(open(os.path.join(VT, "checks.json")))

def sources():
    res = []
    for d, dirs, files in os.walk(REPO):
        dirs[:] = sorted(x for x in dirs if not (x in SKIP_DIRS or x.startswith(".")))
        for f in sorted(files):
            if f.endswith(".cpp"):
                res.append(os.path.join(d, f))
    return res

def build(prop):
    cfg = CHECKS[prop]
    flavour = cfg.get("flavour", "assert")
    cxx, cflags, ldflags = FLAVOURS[flavour]
    tag = flavour if REPO == "/repo" else flavour + "-" + hashlib.md5(REPO.encode()).hexdigest()[:8]
    bdir = os.path.join(os.environ.get("VT_BUILD", os.path.join(VERIF, "build")), tag)
    os.makedirs(bdir, exist_ok=True)
    inc = os.path.join(bdir, "inc")
    os.makedirs(inc, exist_ok=True)
    link = os.path.join(inc, "tagparser")
    if os.path.islink(link) and os.readlink(link) != REPO:
        os.unlink(link)
    if not os.path.islink(link):
        os.symlink(REPO, link)
    defs = ("-DCHRONO_UTILITIES_TIMESPAN_INTEGER_SCALE_OVERLOADS -DCPP_UTILITIES_USE_NATIVE_FILE_BUFFER -DTAG_PARSER_STATIC "
            f"-I{REPO} -I{VT}/include -I{inc} -I{VT} -I{VERIF}/drivers -isystem /usr/include/martchus-c++utilities -std=gnu++17")
    out = [f"ninja_required_version = 1.3\nrule cxx\n  command = {cxx} {defs} {cflags} -fvisibility=hidden -w -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n"
           f"rule vtcxx\n  command = {cxx} {defs} {cflags} $extra -Wall -Wno-unused -Wno-sign-compare -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n"
           f"rule link\n  command = {cxx} -o $out $in {ldflags} -lmartchus-c++utilities -lz -ldl -lpthread\n"]
    drivers = cfg["sources"]
    objs = []
    for s in drivers:  # drivers first: they are the slowest to compile
        o = f"drv/{prop}/" + os.path.basename(s).replace(".cpp", ".o")
        out.append(f"build {o}: vtcxx {os.path.join(VERIF, 'drivers', s)}\n  extra = {cfg.get('cflags', '')}\n")
        objs.append(o)
    out.append(f"build vt.o: vtcxx {VT}/vt.cpp\n")
    objs.append("vt.o")
    srcs = sources()
    # big translation units first
    srcs.sort(key=lambda p: -os.path.getsize(p))
    for s in srcs:
        o = "lib/" + os.path.relpath(s, REPO).replace("/", "_").replace(".cpp", ".o")
        out.append(f"build {o}: cxx {s}\n")
        objs.append(o)
    exe = f"{prop}.bin"
    out.append(f"build {exe}: link {' '.join(objs)}\n")
    nf = os.path.join(bdir, f"{prop}.ninja")
    text = "\n".join(out)
    if not os.path.exists(nf) or open(nf).read() != text:
        open(nf, "w").write(text)
    r = subprocess.run(["ninja", "-C", bdir, "-f", nf, "-j", os.environ.get("VT_JOBS", "8"), exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        lines = [l for l in r.stdout.splitlines() if not l.startswith("[") and " -std=gnu++17 " not in l]
        sys.stdout.write("\n".join(lines)[:6000] + "\n")
        print(f"error: build of check {prop} failed")
        sys.exit(4)
    return os.path.join(bdir, exe)

def main():
    args = sys.argv[1:]
    prop = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    rest = []
    build_only = False
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--replay":
            replay = args.pop(0)
        elif a == "--build-only":
            build_only = True
        else:
            rest.append(a)
    os.environ["VERIF_TIER"] = tier
    os.environ.setdefault("LC_ALL", "C.UTF-8")
    os.environ["ASAN_OPTIONS"] = "abort_on_error=0:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=1024:hard_rss_limit_mb=3000:detect_stack_use_after_return=0:handle_segv=1"
    os.environ["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    exe = build(prop)
    if build_only:
        return 0
    cfg = CHECKS[prop]
    if replay:
        r = json.load(open(replay))
        return subprocess.call([exe, "--exec", f"{r['suite']}:{r['top']}:" + ",".join(map(str, r["choices"]))] + rest)
    rdir = os.path.join(VERIF, "replay")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    jobs = os.environ.get("VT_JOBS", "8")
    cmd = [exe, "--known", os.path.join(VERIF, "known_findings.txt"), "--replay-dir", rdir, "--jobs", jobs,
           "--level", cfg.get("level", "model_checking"), "--evidence", os.path.join(VERIF, "evidence", prop + ".json"),
           "--soft-limit", "600" if tier == "quick" else "750"] + rest
    return subprocess.call(cmd)

sys.exit(main())

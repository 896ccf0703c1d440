#!/usr/bin/env python3
"""Builds and runs one property check against /repo's current working tree.

usage: run.py <ID> [quick|thorough] [extra harness options...]

Every harness /verif/harness/<ID>.cpp states how it is built in lines that
start with "//!":
  //! sources: full            all library sources (default), or a list of
                               globs under /repo; "none" for header-only code
  //! san: address,undefined   sanitizers (default), or thread, or none
  //! opt: -O0                 optimisation of library and harness
  //! flags: ...               extra compile flags
  //! inc: ...                 further include directories under /repo
  //! libs: ...                extra link flags
  //! so: NAME=f1,f2           extra shared objects (paths under /verif or
                               /repo), built next to the harness
Exit: 0 held, 1 violation, 2 the check could not be built or run.
"""
import glob, os, re, shlex, shutil, subprocess, sys, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = "g++"


def directives(path):
    d = {"sources": "full", "san": "address,undefined", "opt": "-O0",
         "flags": "", "libs": "", "so": [], "inc": "", "cxx": "g++"}
    for line in open(path):
        m = re.match(r"//!\s*(\w+):\s*(.*)$", line)
        if m:
            if m.group(1) == "so":
                d["so"].append(m.group(2).strip())
            else:
                d[m.group(1)] = m.group(2).strip()
    return d


def lib_sources(spec):
    if spec == "none":
        return []
    if spec == "full":
        out = []
        for top in ("src", "src-gen"):
            for f in glob.glob(os.path.join(REPO, top, "**", "*.cpp"),
                               recursive=True):
                rel = os.path.relpath(f, REPO)
                if "/python/" in rel or rel.endswith(".pkg.cpp"):
                    continue
                if "Tests" in rel or "xsmp_tests" in rel:
                    continue
                out.append(rel)
        return sorted(out)
    out = []
    for pat in spec.split():
        if pat == "full":
            out += lib_sources("full")
            continue
        out += sorted(os.path.relpath(f, REPO)
                      for f in glob.glob(os.path.join(REPO, pat)))
    return out


def build(prop, d, spec):
    san = d["san"]
    sanflags = ""
    if san and san != "none":
        sanflags = f"-fsanitize={san} -fno-sanitize=vptr" if "undefined" in san \
            else f"-fsanitize={san}"
    inc = (f"-I{REPO}/include -I{REPO}/src -I{REPO}/src-gen "
           f"-I{VERIF}/smp -I{VERIF}/lib -I{VERIF}/harness"
           + "".join(f" -I{REPO}/{p}" for p in d["inc"].split()))
    base = (f"-std=c++17 -g1 -w -pthread -D_GLIBCXX_ASSERTIONS -fno-omit-frame-pointer {d['opt']} "
            f"{sanflags} {d['flags']} {inc}")
    key = hashlib.sha1((REPO + base + d["cxx"]).encode()).hexdigest()[:10]
    dirn = os.path.join(BUILD, key)
    os.makedirs(dirn, exist_ok=True)
    exe = os.path.join(dirn, prop)
    n = [f"cxx = {d['cxx']}", f"flags = {base}",
         "rule cc",
         "  command = $cxx $flags $extra -MMD -MF $out.d -c $in -o $out",
         "  depfile = $out.d", "  deps = gcc",
         "rule link",
         "  command = $cxx $flags -rdynamic $in -o $out $libs",
         "rule so",
         "  command = $cxx $flags -shared -fPIC $extra $in -o $out $libs"]
    objs = []
    for s in dict.fromkeys(lib_sources(spec)):
        o = os.path.join(dirn, "lib", s + ".o")
        objs.append(o)
        n.append(f"build {o}: cc {os.path.join(REPO, s)}")
        n.append("  extra = -fPIC")
    h = os.path.join(dirn, "h", prop + ".o")
    n.append(f"build {h}: cc {os.path.join(VERIF, 'harness', prop + '.cpp')}")
    n.append(f"  extra = -DPBT_BUILD_DIR='\"{dirn}\"'")
    eng = os.path.join(dirn, "h", "pbt_run.o")
    n.append("rule engine")
    n.append(f"  command = g++ -std=c++17 -g1 -O1 -w -c $in -o $out")
    n.append(f"build {eng}: engine {VERIF}/lib/pbt_run.cpp | {VERIF}/lib/pbt.h")
    sos = []
    for so in d["so"]:
        name, files = so.split("=", 1)
        extra = ""
        if ":" in files:
            files, extra = files.split(":", 1)
        paths = []
        for f in files.split(","):
            p = os.path.join(VERIF, f)
            paths.append(p if os.path.exists(p) else os.path.join(REPO, f))
        o = os.path.join(dirn, name)
        sos.append(o)
        n.append(f"build {o}: so {' '.join(paths)}")
        n.append(f"  extra = {extra}")
    n.append(f"build {exe}: link {h} {eng} {' '.join(objs)} | {' '.join(sos)}")
    n.append(f"  libs = -lpthread -ldl {d['libs']} -Wl,-rpath,{dirn}")
    nf = os.path.join(dirn, f"{prop}.ninja")
    text = "\n".join([f"builddir = {dirn}/{prop}.nb"] + n) + "\n"
    open(nf, "w").write(text)
    r = subprocess.run(["ninja", "-f", nf, exe], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    return (exe if r.returncode == 0 else None), r.stdout


def run_script(script, prop, tier, seed, out, extra):
    """a check written in Python"""
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evidence = "-" if "--replay" in extra else os.path.join(
        VERIF, "evidence", prop + ".json")
    r = subprocess.run(["python3-vt", script, tier, seed, out, evidence] + extra,
                       cwd=out)
    return r.returncode if r.returncode in (0, 1) else 2


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get(
        "VERIF_TIER", "quick")
    extra = sys.argv[3:]
    seed = os.environ.get("VERIF_SEED", "1")
    out = os.path.join(BUILD, "out", prop + ("-replay" if "--replay" in extra else ""))
    script = os.path.join(VERIF, "harness", prop + ".py")
    if os.path.exists(script):
        return run_script(script, prop, tier, seed, out, extra)
    d = directives(os.path.join(VERIF, "harness", prop + ".cpp"))
    exe, log = build(prop, d, d["sources"])
    if exe is None and "full" not in d["sources"] and "undefined reference" in log:
        exe, log2 = build(prop, d, d["sources"] + " full")
        log += log2
    if exe is None:
        err = [x for x in log.splitlines()
               if re.search(r"error:|undefined reference|FAILED|cannot ", x)]
        print("\n".join(x[:300] for x in err[:25]))
        print(f"{prop}: the check could not be built", flush=True)
        return 2
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cmd = [exe, "--tier", tier, "--seed", seed, "--out", out, "--known",
           os.path.join(VERIF, "known_findings.txt")]
    if "--replay" not in extra:
        cmd += ["--evidence", os.path.join(VERIF, "evidence", prop + ".json")]
    env = dict(os.environ)
    env["LD_LIBRARY_PATH"] = os.path.dirname(exe)
    r = subprocess.run(cmd + extra, env=env, cwd=out)
    return r.returncode if r.returncode in (0, 1) else 2


sys.exit(main())

#!/usr/bin/env python3
"""Incremental, content-hash based build of the simulator against /repo's working tree.

Objects live in /verif/build (git-ignored).  An object is rebuilt when the command line or the
content of its source or any recorded header differs from what it was built from; file times are
never looked at, so applying and reverting a patch always gives the right binary.
"""
import concurrent.futures, fcntl, hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("JLM_REPO", "/repo")
OUT = os.environ.get("JLM_SIM_BUILD", os.path.join(VERIF, "build"))
CXX = "clang++-18"
LLVM_INC = "/usr/lib/llvm-18/include"
LLVM_LIB = "/usr/lib/llvm-18/lib"
COMMON = ["--std=c++17", "-O1", "-fPIC", "-w", "-MMD", "-MP", "-D_GNU_SOURCE",
          "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
          "-DJLM_ENABLE_ASSERTS", "-DJLM_SIMULATION", "-I" + REPO, "-I" + REPO + "/tests",
          "-I" + OUT + "/gen", "-isystem", LLVM_INC]
LIBS = ["util", "rvsdg", "llvm", "hls", "tooling"]
SKIP = re.compile(r"RhlsToFirrtlConverter|FirrtlToVerilogConverter")


def repo_sources():
    out = []
    for lib in LIBS:
        with open(f"{REPO}/jlm/{lib}/Makefile.sub") as f:
            text = f.read()
        m = re.search(r"lib%s_SOURCES\s*=\s*((?:.*\\\n)*.*)" % lib, text)
        for tok in m.group(1).replace("\\\n", " ").split():
            if tok.endswith(".cpp") and not SKIP.search(tok) and os.path.exists(f"{REPO}/{tok}"):
                out.append(tok)
    return sorted(set(out) | set(TOOLS))


def sim_sources():
    d = os.path.join(VERIF, "sim", "src")
    return sorted(os.path.join("sim/src", f) for f in os.listdir(d) if f.endswith(".cpp"))


def gen_paths():
    """The Makefile generates this header; the simulated tools never execute these programs."""
    d = os.path.join(OUT, "gen/jlm/tooling")
    os.makedirs(d, exist_ok=True)
    text = ('#ifndef JLM_TOOLING_COMMANDPATHS_HPP\n#define JLM_TOOLING_COMMANDPATHS_HPP\n'
            '#include <jlm/util/file.hpp>\nnamespace jlm::tooling {\n'
            'static inline jlm::util::FilePath clangpath("/sim/bin/clang");\n'
            'static inline jlm::util::FilePath llcpath("/sim/bin/llc");\n}\n#endif\n')
    p = os.path.join(d, "CommandPaths.hpp")
    if not os.path.exists(p) or open(p).read() != text:
        open(p, "w").write(text)


_hash = {}


def fhash(path):
    h = _hash.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _hash[path] = h
    return h


def parse_deps(dfile):
    try:
        text = open(dfile).read()
    except OSError:
        return []
    text = text.replace("\\\n", " ")
    deps = []
    for line in text.split("\n"):
        if ":" in line:
            deps += line.split(":", 1)[1].split()
    return sorted(set(os.path.abspath(d) for d in deps))


def digest(cmd, deps):
    h = hashlib.sha1(" ".join(cmd).encode())
    for d in deps:
        h.update(d.encode())
        h.update(fhash(d).encode())
    return h.hexdigest()


# the tools' main functions, which the simulated system starts as processes
TOOLS = {"tools/jlm-opt/jlm-opt.cpp": "jlmOptMain", "tools/jlc/jlc.cpp": "jlcMain", "tools/jhls/jhls.cpp": "jhlsMain"}


def compile_one(src, obj, state):
    rel = os.path.relpath(src, REPO)
    extra = ["-Dmain=" + TOOLS[rel]] if rel in TOOLS else []
    cmd = [CXX] + COMMON + extra + ["-c", src, "-o", obj]
    old = state.get(obj)
    if old and os.path.exists(obj) and old["digest"] == digest(cmd, old["deps"]):
        return obj, old, False, ""
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return obj, None, True, r.stdout
    deps = parse_deps(obj[:-2] + ".d")
    return obj, {"digest": digest(cmd, deps), "deps": deps}, True, ""


def build(verbose=False):
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    gen_paths()
    spath = os.path.join(OUT, "state.json")
    try:
        state = json.load(open(spath))
    except (OSError, ValueError):
        state = {}
    jobs = [(os.path.join(REPO, s), os.path.join(OUT, "obj/repo", s[:-4] + ".o")) for s in repo_sources()]
    jobs += [(os.path.join(VERIF, s), os.path.join(OUT, "obj", s[:-4] + ".o")) for s in sim_sources()]
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    new, errors, rebuilt = {}, [], 0
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for obj, st, did, err in ex.map(lambda j: compile_one(j[0], j[1], state), jobs):
            if st is None:
                errors.append(err)
            else:
                new[obj] = st
                rebuilt += did
    exe = os.path.join(OUT, "jlmsim")
    if errors:
        state.update(new)
        json.dump(state, open(spath, "w"))
        sys.stderr.write("\n".join(e[-4000:] for e in errors[:3]) + "\n")
        raise SystemExit(2)
    objs = [j[1] for j in jobs]
    objs.sort()
    link = [CXX, "-o", exe + ".tmp"] + objs + ["-rdynamic", "-L" + LLVM_LIB, "-Wl,-rpath," + LLVM_LIB,
                                               "-lLLVM-18", "-ldl", "-lpthread"]
    ld = hashlib.sha1((" ".join(link) + "".join(new[o]["digest"] for o in objs)).encode()).hexdigest()
    if state.get("__link__") != ld or not os.path.exists(exe):
        r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stdout[-4000:])
            json.dump(new, open(spath, "w"))
            raise SystemExit(2)
        os.replace(exe + ".tmp", exe)
    new["__link__"] = ld
    json.dump(new, open(spath + ".tmp", "w"))
    os.replace(spath + ".tmp", spath)
    if verbose:
        print(f"build: {rebuilt} objects rebuilt in {time.time() - t0:.1f}s")
    return exe


if __name__ == "__main__":
    print(build(True))

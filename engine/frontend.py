"""Front end: compiles every translation unit of the repository's own build (same globs,
same defines) to LLVM bitcode from the current working tree, links and normalises it with
irdump, and loads the result."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile

REPO = os.environ.get("DICTU_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
CLANG = "clang-18" if shutil.which("clang-18") else "clang"

DEFS = ["-DINCLUDE_SQLITE_LIB", "-DdAPI_EXPORTS"]
FLAGS = ["-O0", "-Xclang", "-disable-O0-optnone", "-g", "-gno-column-info", "-std=gnu11", "-w",
         "-fno-discard-value-names", "-emit-llvm", "-c", "-fPIC"]


class EngineError(Exception):
    pass


def sources():
    out = []
    for d, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            if not f.endswith(".c"):
                continue
            p = os.path.join(d, f)
            if re.search(r"(main|stringbuf|linenoise(-win32)?|utf8).c", p):
                continue
            if "sqlite3.c" in p:
                continue
            out.append(p)
    return out


def build_tool():
    """irdump is built by setup_cmd; when it is missing or stale it is rebuilt here."""
    src = os.path.join(HERE, "irdump.cpp")
    bdir = os.path.join(HERE, "_bin")
    exe = os.path.join(bdir, "irdump")
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    os.makedirs(bdir, exist_ok=True)
    tmp = exe + ".%d" % os.getpid()
    r = subprocess.run(["g++", "-std=c++17", "-O1", "-fno-rtti", src, "-I/usr/lib/llvm-18/include",
                        "-L/usr/lib/llvm-18/lib", "-Wl,-rpath,/usr/lib/llvm-18/lib", "-lLLVM-18", "-o", tmp],
                       capture_output=True, text=True)
    if r.returncode:
        raise EngineError("cannot build irdump:\n" + r.stderr[-2000:])
    os.replace(tmp, exe)
    return exe


def compile_tu(args):
    src, out, defs = args
    r = subprocess.run([CLANG] + FLAGS + defs + [src, "-o", out], capture_output=True, text=True,
                       cwd=os.path.join(REPO, "src"))
    return src, r.returncode, r.stderr


def load(noinline, extra_defs=(), max_inline=800, with_main=False, only=None, sroa=True):
    exe = build_tool()
    tmp = tempfile.mkdtemp(prefix="dictu-sa-")
    try:
        jobs, srcs = [], sources()
        if with_main:
            srcs = srcs + [os.path.join(REPO, "src/cli/main.c")]
        if only is not None:
            srcs = [s for s in srcs if os.path.relpath(s, os.path.join(REPO, "src")) in only]
        elif len(srcs) < 40:
            raise EngineError("only %d sources found under %s/src" % (len(srcs), REPO))
        for i, s in enumerate(srcs):
            jobs.append((s, os.path.join(tmp, "%03d.bc" % i), DEFS + list(extra_defs)))
        with cf.ThreadPoolExecutor(8) as ex:
            for s, rc, err in ex.map(compile_tu, jobs):
                if rc:
                    raise EngineError("clang failed on %s:\n%s" % (s, err[-1500:]))
        nf = os.path.join(tmp, "noinline.txt")
        open(nf, "w").write("\n".join(sorted(noinline)) + "\n")
        out = os.path.join(tmp, "ir.json")
        r = subprocess.run([exe, "--out", out, "--noinline", nf, "--max-inline", str(max_inline)] + ([] if sroa else ["--nosroa"]) + [j[1] for j in jobs],
                           capture_output=True, text=True)
        if r.returncode:
            raise EngineError("irdump failed: " + r.stderr[-1500:])
        with open(out) as f:
            m = json.load(f)
        m["sources"] = [os.path.relpath(s, REPO) for s in srcs]
        return m
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    import time
    t = time.time()
    build_tool()
    print("built", time.time() - t)
    t = time.time()
    m = load(set(sys.argv[1:]))
    print("load", time.time() - t, len(m["functions"]))
    n = sum(len(b) for f in m["functions"].values() for b in f["blocks"])
    print("insts", n)
    big = sorted(((sum(len(b) for b in f["blocks"]), k) for k, f in m["functions"].items()), reverse=True)[:15]
    print(big)

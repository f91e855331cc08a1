#!/usr/bin/env python3
"""Builds what the checks need from /repo's current working tree, into /verif/build (git-ignored).

Two flavours of the library under test are built from every RedshiftLibrary/src/lib/**/*.cpp:
  asan : -O1 -g1 -fsanitize=address -D_GLIBCXX_ASSERTIONS, linked statically into the C++ harness
  so   : -O1 shared library, loaded in place of the installed one by the Python checks
The Python extension is the one /repo was built with as long as the headers it wraps are unchanged,
otherwise it is wrapped and compiled again in /verif/build.

No build script of /repo is used: sources are globbed, so a source file added by a change is built too.
"""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
LIB = os.path.join(REPO, "RedshiftLibrary")
PYDIR = os.path.join(REPO, "pylibamazed/python")
VENV_PY = "/opt/vp/venv/bin/python"
BOOST = ["boost_filesystem", "boost_system", "boost_thread", "boost_timer", "boost_chrono",
         "boost_program_options"]


def sources():
    res = []
    for root, _, files in os.walk(os.path.join(LIB, "src/lib")):
        for f in files:
            if f.endswith(".cpp") and f != "lbfgsbfitter.cpp":  # LBFGSpp is not available offline
                res.append(os.path.join(root, f))
    return sorted(res)


def ensure_version_header():
    """version.h is generated by the repository's own build; when it is missing write a stand-in."""
    h = os.path.join(LIB, "RedshiftLibrary/version.h")
    if os.path.exists(h):
        return None
    src = h + ".in"
    inc = os.path.join(BUILD, "gen/RedshiftLibrary")
    os.makedirs(inc, exist_ok=True)
    txt = open(src).read() if os.path.exists(src) else '#define CPF_REDSHIFT_REVISION "0"\n'
    txt = re.sub(r"@[A-Za-z_]+@|\$\{[A-Za-z_]+\}", "0.0.0", txt)
    out = os.path.join(inc, "version.h")
    if not os.path.exists(out) or open(out).read() != txt:
        open(out, "w").write(txt)
    return os.path.join(BUILD, "gen")


def write_if_changed(path, txt):
    if os.path.exists(path) and open(path).read() == txt:
        return
    with open(path, "w") as f:
        f.write(txt)


def gen_ninja():
    os.makedirs(BUILD, exist_ok=True)
    gen = ensure_version_header()
    inc = f"-I{LIB} -isystem /usr/include/eigen3 -I{VERIF}/harness" + (f" -I{gen}" if gen else "")
    common = f"-std=c++17 -w -fno-strict-aliasing -DBOOST_ALL_DYN_LINK -DLIBRARY_PATH=\\\"{LIB}\\\" {inc}"
    syslibs = " ".join("-l" + b for b in BOOST) + \
        " -lcfitsio -lfftw3 -lopenblas -lgsl -lgslcblas -lpthread"
    out = []
    w = out.append
    w("ninja_required_version = 1.3")
    w(f"builddir = {BUILD}")
    w(f"common = {common}")
    w("asanflags = -O1 -g1 -fPIC -fsanitize=address -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS")
    w("soflags = -O1 -g0 -fPIC")
    w("rule cxx")
    w("  command = ccache g++ $common $flags -MMD -MF $out.d -c $in -o $out")
    w("  depfile = $out.d")
    w("  deps = gcc")
    w("rule ar")
    w("  command = rm -f $out && ar rcs $out @$out.rsp")
    w("  rspfile = $out.rsp")
    w("  rspfile_content = $in")
    w("rule linkso")
    w(f"  command = g++ -shared -o $out @$out.rsp {syslibs}")
    w("  rspfile = $out.rsp")
    w("  rspfile_content = $in")
    w("rule linkexe")
    w(f"  command = g++ -fsanitize=address -o $out $in {syslibs}")
    a, s = [], []
    for src in sources():
        rel = os.path.relpath(src, LIB).replace("/", "__")
        for flav, lst in (("asan", a), ("so", s)):
            o = f"{BUILD}/{flav}/{rel}.o"
            w(f"build {o}: cxx {src}")
            w(f"  flags = ${flav}flags")
            lst.append(o)
    w(f"build {BUILD}/libasan_redshift.a: ar {' '.join(a)}")
    w(f"build {BUILD}/so/libcpf-redshift.so: linkso {' '.join(s)}")
    # one executable per property: <ID>*.cpp with main.cpp and util*.cpp
    common_o, per = [], {}
    for src in sorted(glob.glob(f"{VERIF}/harness/*.cpp")):
        base = os.path.basename(src)
        o = f"{BUILD}/h/{base}.o"
        w(f"build {o}: cxx {src}")
        w("  flags = $asanflags")
        m = re.match(r"([A-Z]\d{2,3})", base)
        if m:
            per.setdefault(m.group(1), []).append(o)
        else:
            common_o.append(o)
    for pid, objs in per.items():
        w(f"build {BUILD}/bin/{pid}: linkexe {' '.join(objs + common_o)} {BUILD}/libasan_redshift.a")
    w("build cpp: phony " + " ".join(f"{BUILD}/bin/{p}" for p in per))
    w(f"build so: phony {BUILD}/so/libcpf-redshift.so")
    write_if_changed(f"{BUILD}/build.ninja", "\n".join(out) + "\n")


def ninja(*targets, quiet=True):
    env = dict(os.environ)
    env["CCACHE_DIR"] = f"{BUILD}/ccache"
    env["CCACHE_MAXSIZE"] = "2G"
    env["CCACHE_NOHASHDIR"] = "1"
    env.pop("CCACHE_DISABLE", None)
    r = subprocess.run(["ninja", "-C", BUILD, *targets], env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-6000:])
        raise SystemExit("vbuild: the build of /repo's working tree failed")
    if not quiet:
        print(r.stdout[-400:])


def header_stamp():
    h = hashlib.sha256()
    base = os.path.join(LIB, "RedshiftLibrary")
    for root, dirs, files in sorted(os.walk(base)):
        dirs.sort()
        for f in sorted(files):
            if f == "version.h" or f.startswith("redshift_wrap."):
                continue
            p = os.path.join(root, f)
            h.update(os.path.relpath(p, base).encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def build_pyext():
    """Wraps and compiles the Python extension, again whenever a header or interface file changed."""
    out = f"{BUILD}/py"
    stamp = header_stamp()
    sf = f"{BUILD}/py.stamp"
    if os.path.exists(sf) and open(sf).read() == stamp and os.path.exists(f"{out}/redshift.py"):
        return
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    env = dict(os.environ)
    env["CCACHE_DIR"] = f"{BUILD}/ccache"
    inc = os.path.join(LIB, "RedshiftLibrary")
    iface = os.path.join(inc, "redshift.i")
    gen = ensure_version_header()
    extra = [f"-I{gen}"] if gen else []
    subprocess.run(["swig", "-c++", "-python", "-w-all", f"-I{LIB}", *extra, f"-I{inc}", "-o", f"{out}/redshift_wrap.cxx",
                    "-outdir", out, iface], check=True, env=env, stdout=subprocess.DEVNULL,
                   stderr=subprocess.DEVNULL)
    cfg = subprocess.run([VENV_PY, "-c", "import sysconfig,numpy;print(sysconfig.get_paths()['include']);"
                          "print(numpy.get_include());print(sysconfig.get_config_var('EXT_SUFFIX'))"],
                         check=True, capture_output=True, text=True).stdout.split()
    o = f"{out}/redshift_wrap.o"
    subprocess.run(["ccache", "g++", "-std=c++17", "-O0", "-g0", "-w", "-fPIC", f"-I{LIB}", *extra, f"-I{inc}",
                    "-isystem", "/usr/include/eigen3", f"-I{cfg[0]}", f"-I{cfg[1]}", "-c",
                    f"{out}/redshift_wrap.cxx", "-o", o], check=True, env=env)
    subprocess.run(["g++", "-shared", o, "-o", f"{out}/_redshift{cfg[2]}", f"-L{BUILD}/so", "-lcpf-redshift",
                    f"-Wl,-rpath,{BUILD}/so"], check=True)
    os.remove(o)
    os.remove(f"{out}/redshift_wrap.cxx")
    open(sf, "w").write(stamp)


def sync_pypkg():
    """A copy of the Python package of the working tree, with the extension built above beside it."""
    dst = f"{BUILD}/pkg/pylibamazed"
    src = os.path.join(PYDIR, "pylibamazed")
    shutil.rmtree(f"{BUILD}/pkg", ignore_errors=True)
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns("__pycache__", "_redshift*.so", "redshift.py",
                                                           "resources"))
    os.symlink(f"{BUILD}/py/redshift.py", f"{dst}/redshift.py")
    for f in glob.glob(f"{BUILD}/py/_redshift*.so"):
        os.symlink(f, f"{dst}/{os.path.basename(f)}")
    # the repository's own build copies these into the package; take them from where git tracks them
    shutil.copytree(os.path.join(REPO, "pylibamazed/auxdir/pylibamazed"), f"{dst}/resources")


def build(kind, target=None):
    os.makedirs(BUILD, exist_ok=True)
    with open(f"{BUILD}/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        gen_ninja()
        if kind in ("cpp", "all"):
            ninja(f"{BUILD}/bin/{target}" if target else "cpp")
        if kind in ("py", "all"):
            ninja("so")
            build_pyext()
            sync_pypkg()


if __name__ == "__main__":
    t = time.time()
    build(sys.argv[1] if len(sys.argv) > 1 else "all")
    print(f"vbuild: done in {time.time() - t:.1f} s")

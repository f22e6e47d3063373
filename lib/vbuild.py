"""Incremental builder for the checks.

Everything is compiled from /repo's current working tree into /verif/build
(git-ignored).  A translation unit is recompiled only if its command line
changed or the *preprocessed* text changed, so edits of comments cost nothing;
nothing is decided from time stamps.
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, subprocess, sys, threading, time

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CORE = f"{REPO}/src/sst/core"
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4

INCLUDES = [f"-I{VERIF}/shim", f"-I{VERIF}/cfg", f"-I{CORE}", f"-I{REPO}/src", f"-I{REPO}/external",
            "-I/usr/include/python3.12", "-I/usr/include/hdf5/serial", f"-I{VERIF}/lib", f"-I{VERIF}/harness"]
DEFS = ["-DHAVE_CONFIG_H", "-DTIXML_USE_STL", "-DSST_BUILDING_CORE=1", "-D_DEFAULT_SOURCE", "-D_XOPEN_SOURCE=600",
        "-DVERIF=1"]
BASE = ["-std=c++17", "-fPIC", "-fexcess-precision=fast", "-w", "-pthread"]
FLAVORS = {
    # name: compiler, extra compile flags, extra link flags
    "o1": ("g++", ["-O1"], []),
    "asan": ("g++", ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"], ["-fsanitize=address"]),
    "tsan": ("g++", ["-O1", "-fsanitize=thread", "-fno-omit-frame-pointer", "-fno-inline-atomics" ][:3], []),
}
LIBS = ["-L/usr/lib/python3.12/config-3.12-x86_64-linux-gnu", "-L/usr/lib/x86_64-linux-gnu", "-lpython3.12", "-ldl",
        "-lm", "-lrt", "-lz", "-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-lhdf5_cpp"]

EXCLUDE_DIRS = ("testElements", "testingframework")
EXCLUDE = {"bootshared.cc", "bootsst.cc", "bootsstinfo.cc", "sstinfo.cc", "sstconfigtool.cc", "sstregistertool.cc",
           "configBaseSerEmpty.cc"}

_hash_lock = threading.Lock()
_hashes = {}


class BuildError(Exception):
    pass


def fhash(path):
    with _hash_lock:
        if path in _hashes:
            return _hashes[path]
    try:
        with open(path, "rb") as f:
            h = hashlib.sha256(f.read()).hexdigest()
    except OSError:
        h = "missing"
    with _hash_lock:
        _hashes[path] = h
    return h


def core_sources():
    out = []
    for root, dirs, files in os.walk(CORE):
        dirs[:] = sorted(d for d in dirs if d not in EXCLUDE_DIRS)
        for f in sorted(files):
            if f.endswith(".cc"):
                p = os.path.relpath(os.path.join(root, f), CORE)
                if p in EXCLUDE or "zoltpart" in p:
                    continue
                out.append(p)
    return out


def _run(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise BuildError(f"{what}: {' '.join(cmd[:3])}... failed:\n" + p.stderr.decode("utf-8", "replace")[-4000:])
    return p.stdout


def compile_unit(src, obj, flavor, extra=()):
    """Returns True if it had to be recompiled."""
    cc, flags, _ = FLAVORS[flavor]
    uut = "@uut" in extra
    cmd = [cc, *BASE, *flags, *DEFS, *[e for e in extra if e != "@uut"], *INCLUDES]
    ckey = hashlib.sha256("\0".join(cmd + [src] + ["uut"] * uut).encode()).hexdigest()
    meta_p = obj + ".meta"
    meta = None
    try:
        with open(meta_p) as f:
            meta = json.load(f)
    except (OSError, ValueError):
        pass
    if meta and meta["cmd"] == ckey and os.path.exists(obj):
        if all(fhash(p) == h for p, h in meta["deps"].items()):
            return False
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    dep = obj + ".d"
    if meta and meta["cmd"] == ckey and os.path.exists(obj):
        # contents changed: same text after preprocessing?
        pp = _run([*cmd, "-E", "-P", "-MD", "-MF", dep, src], f"preprocess {src}")
        ppsha = hashlib.sha256(pp).hexdigest()
        if ppsha == meta["pp"]:
            _write_meta(meta_p, ckey, dep, ppsha)
            return False
    else:
        pp = _run([*cmd, "-E", "-P", "-MD", "-MF", dep, src], f"preprocess {src}")
        ppsha = hashlib.sha256(pp).hexdigest()
    tmp = f"{obj}.{os.getpid()}.tmp"
    _run([*cmd, "-c", src, "-o", tmp], f"compile {src}")
    if uut:  # its static data in sections of their own, so that a harness can put them back to their first values
        _run(["objcopy", "--rename-section", ".bss=uut_bss", "--rename-section", ".data=uut_data", tmp], f"objcopy {src}")
    os.replace(tmp, obj)
    _write_meta(meta_p, ckey, dep, ppsha)
    return True


def _write_meta(meta_p, ckey, dep, ppsha):
    with open(dep) as f:
        txt = f.read().replace("\\\n", " ")
    deps = [d for d in txt.split(":", 1)[1].split() if not d.startswith("/usr/")]
    with open(meta_p + ".tmp", "w") as f:
        json.dump({"cmd": ckey, "pp": ppsha, "deps": {d: fhash(d) for d in deps}}, f)
    os.replace(meta_p + ".tmp", meta_p)
    try:
        os.remove(dep)
    except OSError:
        pass


def _parallel(tasks):
    """tasks: list of thunks.  Raises the first BuildError."""
    n = 0
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(t) for t in tasks]
        err = None
        for f in cf.as_completed(futs):
            try:
                n += bool(f.result())
            except BuildError as e:
                err = err or e
                for g in futs:
                    g.cancel()
            except cf.CancelledError:
                pass
    if err:
        raise err
    return n


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(f"{BUILD}/.lock", "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def _link(out, objs, flavor, extra, what):
    cc, flags, lflags = FLAVORS[flavor]
    key = hashlib.sha256()
    for o in objs:
        key.update(fhash_obj(o).encode())
    key.update("\0".join([cc, *lflags, *extra]).encode())
    k = key.hexdigest()
    kp = out + ".key"
    if os.path.exists(out) and os.path.exists(kp) and open(kp).read() == k:
        return
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".tmp"
    _run([cc, "-pthread", *lflags, "-o", tmp, *objs, *extra], what)
    os.replace(tmp, out)
    with open(kp, "w") as f:
        f.write(k)


def fhash_obj(p):
    with open(p, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def obj_of(flavor, rel):
    return f"{BUILD}/{flavor}/core/{rel[:-3]}.o"


def build_core(flavor, more=()):
    """Builds libsstcore.so of a flavour; `more` are further thunks to run in the same pool."""
    srcs = core_sources()
    tasks = []
    # biggest first
    srcs_sorted = sorted(srcs, key=lambda s: -os.path.getsize(f"{CORE}/{s}"))
    for s in srcs_sorted:
        extra = ["-Dmain=sst_main"] if s == "main.cc" else []
        tasks.append(lambda s=s, e=extra: compile_unit(f"{CORE}/{s}", obj_of(flavor, s), flavor, e))
    shim = f"{BUILD}/{flavor}/mpishim.o"
    tasks.append(lambda: compile_unit(f"{VERIF}/shim/mpishim.cc", shim, flavor if flavor != "tsan" else "o1"))
    n = _parallel(list(more) + tasks)
    so = f"{BUILD}/{flavor}/libsstcore.so"
    objs = [obj_of(flavor, s) for s in srcs] + [shim]
    _link(so, objs, flavor, ["-shared", "-Wl,--no-as-needed", "-Wl,-z,lazy", *LIBS], "link core")
    return so, n


def build(flavor, programs, core=True):
    """programs: list of dict(name=, srcs=[...], shared=bool, extra=[...], libs=[...]).  Returns {name: path}."""
    t0 = time.time()
    with Lock():
        more = []
        for p in programs:
            for s in p["srcs"]:
                more.append(lambda p=p, s=s: compile_unit(_abs(s), _hobj(flavor, p, s), flavor, p.get("extra", []) + _flags(s)))
        if core:
            so, n = build_core(flavor, more)
        else:
            n = _parallel(more)
        out = {}
        for p in programs:
            objs = [_hobj(flavor, p, s) for s in p["srcs"]]
            d = f"{BUILD}/{flavor}"
            path = f"{d}/lib{p['name']}.so" if p.get("shared") else f"{d}/{p['name']}"
            ex = list(p.get("libs", []))
            if p.get("shared"):
                ex += ["-shared"]
            elif core:
                ex += ["-rdynamic", f"-L{d}", "-lsstcore", f"-Wl,-rpath,{d}", "-Wl,--no-as-needed", *LIBS]
            if core and not p.get("shared"):
                # relink only when the exported interface could have changed: the .so is resolved at run time
                pass
            _link(path, objs, flavor, ex, f"link {p['name']}")
            out[p["name"]] = path
    return out, {"recompiled": n, "build_s": round(time.time() - t0, 1)}


def _flags(s):
    """A source may be (path, [flags of its own])."""
    return list(s[1]) if isinstance(s, tuple) else []


def _abs(s):
    """Relative paths are harness sources; @core/x is a source of the core."""
    if isinstance(s, tuple):
        s = s[0]
    if s.startswith("@core/"):
        return f"{CORE}/{s[6:]}"
    return s if s.startswith("/") else f"{VERIF}/harness/{s}"


def _hobj(flavor, p, s):
    return f"{BUILD}/{flavor}/h/{p['name']}/{os.path.basename(_abs(s))}.o"


if __name__ == "__main__":
    fl = sys.argv[1] if len(sys.argv) > 1 else "o1"
    t = time.time()
    print(build_core(fl), round(time.time() - t, 1), "s")

# Helpers of the demonstrations: builds the scripted elements, runs models with the installed sst and collects what each
# component observed.
import glob, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
INST = "/repo/_install"
TMP = tempfile.mkdtemp(prefix="demo.")
import atexit
atexit.register(lambda: shutil.rmtree(TMP, ignore_errors=True))


def build():
    inc = subprocess.run([INST + "/bin/sst-config", "--ELEMENT_CXXFLAGS"], capture_output=True, text=True).stdout.split()
    ld = subprocess.run([INST + "/bin/sst-config", "--ELEMENT_LDFLAGS"], capture_output=True, text=True).stdout.split()
    os.makedirs(TMP + "/lib")
    py = subprocess.run(["python3-config", "--includes"], capture_output=True, text=True).stdout.split()
    subprocess.run(["g++", "-O0", "-shared", *inc, "-fPIC", "-DHAVE_CONFIG_H", "-I" + INST + "/include", "-I" + INST + "/include/sst/core", *py, "-I" + HERE, "-o", TMP + "/lib/libvtest.so",
                    HERE + "/vtest.cc", HERE + "/vtlog.cc", *ld], check=True)


def comp(id, script="", ports="", clocks="", primary=0, rank=0, thread=0, sub="", mods=None, **params):
    c = {"name": "c%d" % id, "type": "vtest.Node", "params": dict({"id": str(id), "script": script, "ports": ports, "clocks": clocks, "primary": str(primary)}, **{k: str(v) for k, v in params.items()}),
         "partition": {"rank": rank, "thread": thread}}
    if sub: c["subcomponents"] = [{"slot_name": "s", "slot_number": 0, "type": "vtest.Sub", "params": {"id": str(id), "ports": sub}}]
    if mods: c["port_modules"] = mods
    return c


def link(n, a, pa, la, b, pb, lb=None):
    return {"name": "l%d" % n, "noCut": False, "left": {"component": a, "port": pa, "latency": la}, "right": {"component": b, "port": pb, "latency": lb or la}}


def model(comps, links, **opts):
    return {"program_options": {k.replace("_", "-"): v for k, v in opts.items()}, "components": comps, "links": links}


def sst(args, ranks=1, threads=1, env=None, timeout=60):
    cmd = [INST + "/bin/sst", "--add-lib-path=" + TMP + "/lib", "-n", str(threads), *args]
    if ranks > 1: cmd = ["mpirun", "--allow-run-as-root", "--oversubscribe", "-n", str(ranks), *cmd]
    try:
        p = subprocess.run(cmd, cwd=TMP, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=dict(os.environ, OMPI_MCA_rmaps_base_oversubscribe="1", **(env or {})))
    except subprocess.TimeoutExpired:
        print("TIMEOUT", cmd); sys.exit(1)
    return p.returncode, p.stdout


def collect():
    out = {}
    for f in glob.glob(TMP + "/log.*"):
        for l in open(f):
            c, rest = l.rstrip("\n").split(" ", 1)
            out.setdefault(int(c), []).append(rest)
        os.unlink(f)
    return out


def run(m, ranks=1, threads=1, args=(), timeout=60):
    with open(TMP + "/model.json", "w") as f: json.dump(m, f)
    rc, txt = sst(["--partitioner=sst.self", *args, "model.json"], ranks, threads, {"VT_LOG": TMP + "/log"}, timeout)
    rec = collect()
    if rc: print("sst ended with", rc, txt[-1500:])
    return rc, rec, txt


def only(rec, kinds):
    return {c: [r for r in v if r[0] in kinds] for c, v in rec.items()}


def expect(ok, what):
    print(("ok  " if ok else "BAD ") + what)
    if not ok: sys.exit(1)

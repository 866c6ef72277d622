#!/usr/bin/env python3
"""Builds the simulator: the real node sources of /repo against the simulated ROS, one binary per node.

Everything is rebuilt when the content of /repo's sources or of /verif/sim changed (content hash), nothing is
written into /repo.
"""
import hashlib, os, subprocess, sys, threading, glob, shutil, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
NODES = {"pose": "pose_msf", "position": "position_msf", "pose_pressure": "pose_pressure_msf",
         "position_pose": "position_pose_msf", "spherical": "spherical_msf", "distort": None}
MSF_NODES = [n for n in NODES if n != "distort"]

def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f: h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()

def files(root, exts):
    out = []
    for d, dirs, fs in os.walk(root):
        dirs[:] = [x for x in dirs if not x.startswith(".") and not x.startswith("_build")]
        for f in fs:
            if os.path.splitext(f)[1] in exts: out.append(os.path.join(d, f))
    return out

class Build:
    def __init__(self, variant="plain", nodes=None, log=sys.stderr):
        self.variant = variant; self.nodes = list(nodes or MSF_NODES); self.log = log
        repo_files = []
        for sub in ("msf_core", "msf_updates", "msf_timing", "msf_distort", "sensor_fusion_comm"):
            repo_files += files(os.path.join(REPO, sub), {".h", ".hpp", ".cc", ".cpp", ".c", ".cfg", ".msg", ".srv", ".inl"})
        self.repo_files = repo_files
        lib_files = files(SIM, {".h", ".cc", ".py", ".msg"})
        self.key_repo = tree_hash(repo_files + [f for f in lib_files if "/stubs/" in f or "/glue/" in f or "/msgs/" in f or f.endswith("gen_headers.py") or f.endswith("build.py")])[:16]
        self.key_lib = tree_hash(lib_files)[:16]
        base = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
        self.dir = os.path.join(base, variant + "-" + self.key_repo)
        self.libdir = os.path.join(base, variant + "-lib-" + self.key_lib)
        self.bindir = os.path.join(base, variant + "-bin-" + self.key_repo + "-" + self.key_lib)
        self.base = base

    def flags(self):
        f = ["-std=c++17", "-w", "-g1", "-DNDEBUG", "-DBOOST_NO_CXX11_VARIADIC_TEMPLATES", "-DBOOST_BIND_GLOBAL_PLACEHOLDERS",
             '-DROS_PACKAGE_NAME="msf"', "-DENABLE_MSF_TIMING", "-ffp-contract=off", "-I" + os.path.join(SIM, "stubs"), "-I" + os.path.join(self.dir, "gen"), "-I" + os.path.join(SIM, "core")]
        for sub in ("msf_core", "msf_updates", "msf_timing"): f.append("-I" + os.path.join(REPO, sub, "include"))
        f.append("-I/usr/include/eigen3")
        if self.variant == "asan": f += ["-O1", "-fsanitize=address,bounds,null,alignment,vptr,enum,bool", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
        return f

    def binary(self, node): return os.path.join(self.bindir, node)

    def ensure(self):
        """Builds what is missing. Returns True on success."""
        if all(os.path.exists(self.binary(n)) for n in self.nodes): return True
        for d in (self.dir, self.libdir, self.bindir): os.makedirs(d, exist_ok=True)
        gen = os.path.join(self.dir, "gen")
        subprocess.run([sys.executable, os.path.join(SIM, "gen_headers.py"), REPO, gen], check=True)
        opt = [] if self.variant == "asan" else ["-O1"]
        jobs = []
        for n in sorted(self.nodes, key=lambda n: n in ("position", "distort")):
            src = os.path.join(REPO, "msf_updates/src", NODES[n], "main.cpp") if NODES[n] else os.path.join(REPO, "msf_distort/src/msf_distort.cc")
            jobs.append((os.path.join(self.dir, "node_%s.o" % n), src, opt))
        repo_lib = sorted(glob.glob(os.path.join(REPO, "msf_core/src/lib/*.cc"))) + [os.path.join(REPO, "msf_timing/src/Timer.cc"), os.path.join(REPO, "msf_updates/src/msf_distort/PoseDistorter.cc")]
        if "distort" in self.nodes: jobs.append((os.path.join(self.dir, "glue_api.o"), os.path.join(SIM, "glue/api.cc"), opt))
        for s in repo_lib: jobs.append((os.path.join(self.dir, "lib_" + os.path.basename(s) + ".o"), s, opt))
        lib = sorted(glob.glob(os.path.join(SIM, "core/*.cc")))
        hopt = ["-O2"] if self.variant != "asan" else ["-O1", "-fno-sanitize=all"]
        for s in lib: jobs.append((os.path.join(self.libdir, os.path.basename(s) + ".o"), s, hopt + (["-DSIM_ASAN"] if self.variant == "asan" else [])))
        jobs = [j for j in jobs if not os.path.exists(j[0])]
        errs = []; lock = threading.Lock(); it = iter(jobs)
        def work():
            while True:
                with lock:
                    j = next(it, None)
                    if j is None or errs: return
                tmp = j[0] + ".%d.tmp" % os.getpid()
                r = subprocess.run(["g++"] + self.flags() + j[2] + ["-c", j[1], "-o", tmp], capture_output=True, text=True)
                if r.returncode: 
                    with lock: errs.append((j[1], r.stderr[-4000:]))
                else:
                    # the node's main becomes an ordinary function (renamed in the object: only there it may lack a return statement)
                    if os.path.basename(j[0]).startswith("node_"): subprocess.run(["objcopy", "--redefine-sym", "main=_Z9node_mainiPPc", tmp], check=True)
                    os.rename(tmp, j[0])
        par = int(os.environ.get("VERIF_JOBS", "8"))
        ts = [threading.Thread(target=work) for _ in range(par)]
        [t.start() for t in ts]; [t.join() for t in ts]
        if errs:
            for s, e in errs: print("BUILD FAILED", s, e, file=self.log)
            return False
        libs = [os.path.join(self.dir, "lib_" + os.path.basename(s) + ".o") for s in repo_lib]
        hl = [os.path.join(self.libdir, os.path.basename(s) + ".o") for s in lib]
        procs = []
        for n in self.nodes:
            tmp = self.binary(n) + ".%d.tmp" % os.getpid()
            cmd = ["g++", "-o", tmp, os.path.join(self.dir, "node_%s.o" % n)] + ([os.path.join(self.dir, "glue_api.o")] if n == "distort" else []) + libs + hl + ["-lglog", "-lpthread", "-ldl"]
            if self.variant == "asan": cmd += ["-fsanitize=address,undefined"]
            procs.append((n, tmp, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for n, tmp, p in procs:
            out, _ = p.communicate()
            if p.returncode: print("LINK FAILED", n, out[-3000:], file=self.log); return False
            os.rename(tmp, self.binary(n))
        self.prune()
        return True

    def prune(self):
        keep = {self.dir, self.libdir, self.bindir}
        ds = [os.path.join(self.base, d) for d in os.listdir(self.base)]
        old = sorted((d for d in ds if d not in keep and os.path.isdir(d)), key=os.path.getmtime)
        for d in old[:-12]: shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    v = sys.argv[1] if len(sys.argv) > 1 else "plain"
    t = time.time(); b = Build(v, sys.argv[2].split(",") if len(sys.argv) > 2 else None); ok = b.ensure()
    print(b.bindir, "%.1fs" % (time.time() - t)); sys.exit(0 if ok else 1)

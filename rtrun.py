"""Build a scratch copy of the working tree and evaluate the run-time contracts in it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
NPROC = os.cpu_count() or 4


def env(work, **more):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "CCACHE", "OMP_"))}
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONNOUSERSITE="1", MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(work, "mpl"),
             OPENBLAS_NUM_THREADS="2", OMP_NUM_THREADS="4", OMP_WAIT_POLICY="passive", GOMP_SPINCOUNT="0", OMP_DYNAMIC="false", PYTHONPATH=os.path.join(work, "src"))
    e.update(more)
    return e


class Scratch:
    def __init__(self, asan=False):
        self.work = tempfile.mkdtemp(prefix="verif_")
        self.asan = asan
        self.error = None

    def __enter__(self):
        src = os.path.join(self.work, "src")
        os.makedirs(src)
        os.makedirs(os.path.join(self.work, "mpl"))
        ign = shutil.ignore_patterns("*.so", "__pycache__", "*.pyc", ".git", "build")
        for d in ("longitudinal_tomography", "tomo"):
            shutil.copytree(os.path.join(REPO, d), os.path.join(src, d), ignore=ign, symlinks=True)
        v = os.path.join(src, "longitudinal_tomography", "_version.py")
        if not os.path.exists(v):
            with open(v, "w") as f:
                f.write("version = '3.4.1'\nversion_tuple = (3, 4, 1)\n")
        self.src = src
        self.error = self.build()
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.work, ignore_errors=True)

    def build(self):
        cpp = os.path.join(self.src, "longitudinal_tomography", "cpp_routines")
        info = subprocess.run([PY, "-c", "import pybind11,sysconfig;print(pybind11.get_include());print(sysconfig.get_paths()['include']);"
                               "print(sysconfig.get_config_var('EXT_SUFFIX'))"], stdout=subprocess.PIPE, text=True).stdout.split()
        flags = ["-fPIC", "-std=c++17", "-fopenmp", "-ffast-math", "-fvisibility=hidden", "-w", "-I" + info[0], "-I" + info[1]]
        flags += ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"] if self.asan else ["-O2"]
        ps = []
        for f in sorted(os.listdir(cpp)):
            if f.endswith(".cpp"):
                ps.append((f, subprocess.Popen(["g++", *flags, "-c", f, "-o", f + ".o"], cwd=cpp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        if self.asan:
            ps.append(("alloc_count", subprocess.Popen(["g++", *flags, "-c", os.path.join(HERE, "rt", "alloc_count.cc"), "-o", "alloc_count.o"], cwd=cpp,
                                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        for f, p in ps:
            out = p.communicate()[0]
            if p.returncode:
                return f"{f} does not compile:\n" + out.decode(errors="replace")[-2000:]
        p = subprocess.run(["g++", "-shared", *(["-fsanitize=address", "-Wl,-Bsymbolic"] if self.asan else []), *[f + ".o" for f, _ in ps], "-lgomp", "-o", "libtomo" + info[2]],
                           cwd=cpp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            return "link failed:\n" + p.stdout.decode(errors="replace")[-2000:]
        return None

    def run(self, prop, tier, seed, secs, replay=None, tag="0"):
        work = os.path.join(self.work, "w" + tag)
        os.makedirs(work, exist_ok=True)
        more = {}
        if self.asan:
            lib = subprocess.run(["g++", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
            lib += " " + subprocess.run(["g++", "-print-file-name=libstdc++.so.6"], stdout=subprocess.PIPE, text=True).stdout.strip()
            more = dict(LD_PRELOAD=lib, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:halt_on_error=1", PYTHONMALLOC="malloc")
        log = open(os.path.join(work, "log"), "wb")
        return subprocess.Popen([PY, os.path.join(HERE, "rt", "run.py"), prop, tier, str(seed), str(secs), work] + ([replay] if replay else []),
                                env=env(self.work, **more), cwd=work, stdout=log, stderr=subprocess.STDOUT), work

    def collect(self, p, work, limit):
        try:
            p.wait(limit)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        out = dict(cases=0, kinds={}, failures=[], findings={}, errors=[])
        try:
            out = json.load(open(os.path.join(work, "rt.json")))
        except Exception:
            pass
        if p.returncode != 0 or not out.get("done"):
            tail = open(os.path.join(work, "log"), "rb").read().decode(errors="replace")
            i = tail.find("ERROR: AddressSanitizer")
            tail = tail[max(0, i - 100):i + 3000] if i >= 0 else tail[-3000:]
            try:
                cur = json.load(open(os.path.join(work, "current.json")))
            except Exception:
                cur = None
            if p.returncode in (77, -11, -6, -7, -8, 134, 139) and cur:
                out["failures"].append(dict(kind=cur["kind"], input=cur["input"], message=f"the process died (status {p.returncode})", log=tail))
            elif cur is not None and p.returncode == -9 and not out.get("done"):
                out["errors"].append("no answer in time on " + json.dumps(cur)[:2000])
                out["hung"] = cur
            else:
                out["errors"].append(f"harness status {p.returncode}: {tail[-1500:]}")
        return out


def evaluate(prop, tier, seed, secs, asan=False, parallel=4, replay=None):
    with Scratch(asan) as s:
        if s.error:
            return dict(cases=0, kinds={}, failures=[], findings={}, errors=[s.error], build_error=True)
        n = 1 if replay else parallel
        ps = [s.run(prop, tier, seed * 1000 + i, secs, replay, str(i)) for i in range(n)]
        outs = [s.collect(p, w, secs + 90) for p, w in ps]
    tot = dict(cases=0, kinds={}, failures=[], findings=outs[0].get("findings", {}), errors=[])
    for o in outs:
        tot["cases"] += o["cases"]
        for k, v in o["kinds"].items():
            tot["kinds"][k] = tot["kinds"].get(k, 0) + v
        tot["failures"] += o["failures"]
        tot["errors"] += o["errors"]
    return tot


if __name__ == "__main__":
    t = time.time()
    r = evaluate(sys.argv[1], "quick", int(os.environ.get("VERIF_SEED", "1")), float(sys.argv[2]) if len(sys.argv) > 2 else 10, asan=sys.argv[1] == "P05", replay=sys.argv[3] if len(sys.argv) > 3 else None)
    for f in r["failures"]:
        print(f["kind"], f["message"][:300], json.dumps(f["input"])[:300], f.get("log", "")[:1500])
    r["failures"] = len(r["failures"])
    print(json.dumps(r)[:3000], "%.1fs" % (time.time() - t))

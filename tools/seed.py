"""usage: seed.py ID [check...]   (a tool for planting bugs; no check uses it)
Applies seeded/ID/patch.diff to a scratch copy of /repo, builds it, runs the stable tests and the demo there
(and the demo on an unpatched copy), then the named checks (default: the property of meta.json)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import rtrun    # noqa: E402

PY = rtrun.PY


def build(d):
    s = rtrun.Scratch.__new__(rtrun.Scratch)
    s.asan, s.src = False, d
    return s.build()


def tests(d):
    x = os.path.join(d, "out.xml")
    e = rtrun.env(d)
    e["PYTHONPATH"] = d
    os.makedirs(os.path.join(d, "mpl"), exist_ok=True)
    p = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=150", "-o", "junit_family=xunit2", f"--junitxml={x}", "unit_tests"],
                       cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ok = set()
    try:
        for c in ET.parse(x).getroot().iter("testcase"):
            if not any(k.tag in ("failure", "error", "skipped") for k in c):
                ok.add(c.get("classname") + "::" + c.get("name"))
    except Exception:
        return ["no report: " + p.stdout[-800:]]
    return [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in ok]


def demo(d, sid):
    tmp = tempfile.mkdtemp()
    try:
        for f in os.listdir(os.path.join(HERE, "seeded", sid)):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy(os.path.join(HERE, "seeded", sid, f), tmp)
        # the demo uses the current directory
        p = subprocess.run(["bash", os.path.join(tmp, "demo.sh")], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        return p.returncode, p.stdout[-600:]
    finally:
        shutil.rmtree(tmp)


def copy(patch=None):
    d = tempfile.mkdtemp(prefix="seed_")
    shutil.rmtree(d)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns("*.so", "build", "__pycache__"), symlinks=True)
    if patch:
        r = subprocess.run(["git", "apply", patch], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print("patch does not apply:", r.stdout)
            sys.exit(3)
    err = build(d)
    if err:
        print("does not build", err)
        sys.exit(3)
    return d


if __name__ == "__main__":
    sid = sys.argv[1]
    patch = os.path.join(HERE, "seeded", sid, "patch.diff")
    meta = json.load(open(os.path.join(HERE, "seeded", sid, "meta.json")))
    nocheck = "-n" in sys.argv
    checks = [a for a in sys.argv[2:] if a != "-n"] or [meta["property"]]
    d0 = copy()
    d1 = copy(patch)
    try:
        if os.environ.get("SKIP") != "1":
            lost = tests(d1)
            a, b = demo(d0, sid), demo(d1, sid)
            print(sid, "tests lost:", lost[:3], "| demo clean:", a[0], "patched:", b[0], "|", "VALID" if not lost and a[0] == 0 and b[0] != 0 else "INVALID")
            if a[0]:
                print("clean demo:", a[1])
            if not b[0]:
                print("patched demo:", b[1])
        if not nocheck:
            for c in checks:
                t = time.time()
                e = dict(os.environ, VERIF_REPO=d1)
                p = subprocess.run(["python3-vt", os.path.join(HERE, "check.py"), c], env=e, cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                print(f"{sid} {c}: exit {p.returncode} in {time.time() - t:.0f} s\n" + "\n".join("   " + l[:220] for l in p.stdout.splitlines()[-8:]))
    finally:
        shutil.rmtree(d0, ignore_errors=True)
        shutil.rmtree(d1, ignore_errors=True)

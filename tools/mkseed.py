"""usage: mkseed.py FILE.py ...  where FILE.py defines ID, PROPERTY, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (python source).
Writes seeded/ID."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="${TMPDIR:-/tmp}" OMP_NUM_THREADS=4
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
for f in sys.argv[1:]:
    ns = {}
    exec(open(f).read(), ns)
    d = tempfile.mkdtemp()
    subprocess.run(["git", "clone", "-q", "/repo", d + "/r"], check=True)
    for fn, old, new in ns["EDITS"]:
        p = os.path.join(d, "r", "longitudinal_tomography", fn)
        s = open(p).read()
        assert s.count(old) == 1, (f, fn, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    out = os.path.join(HERE, "seeded", ns["ID"])
    os.makedirs(out, exist_ok=True)
    with open(out + "/patch.diff", "w") as o:
        o.write(subprocess.run(["git", "diff"], cwd=d + "/r", stdout=subprocess.PIPE, text=True).stdout)
    shutil.rmtree(d)
    open(out + "/demo.sh", "w").write(SH)
    os.chmod(out + "/demo.sh", 0o755)
    open(out + "/demo.py", "w").write("import sys\nimport numpy as np\n" + ns["DEMO"].lstrip("\n"))
    json.dump(dict(property=ns["PROPERTY"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(out + "/meta.json", "w"), indent=1)
    print("wrote", ns["ID"])

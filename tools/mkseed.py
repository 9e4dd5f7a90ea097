"""
Make a planted bug: mkseed.py spec.py...

spec.py defines: ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python code), TESTS=[test files]
Applies to a scratch copy, confirms demo (0 on clean, !=0 on patched), runs TESTS, writes /verif/seeded/ID.
"""

import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(spec_fn):
    """main"""
    spec = {}
    exec(open(spec_fn).read(), spec)
    tmp = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        wt = tmp + "/repo"
        subprocess.check_call(["git", "clone", "-q", "--shared", "/repo", wt])
        for fn, old, new in spec["EDITS"]:
            s = open(wt + "/" + fn).read()
            assert s.count(old) == 1, (spec["ID"], fn, s.count(old), old)
            open(wt + "/" + fn, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", wt, "diff"], text=True)
        d = VERIF + "/seeded/" + spec["ID"]
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(spec["DEMO"])
        open(d + "/demo.sh", "w").write(
            '#!/bin/bash\n# cwd: the repo\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3\n'
            'D="$(cd "$(dirname "$0")" && pwd)"\n'
            'W="$(mktemp -d)"; trap \'rm -rf "$W"\' EXIT\nexport TMPDIR="$W"\n'
            '/opt/venv/bin/python "$D/demo.py"\n'
        )
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(
            {"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]},
            open(d + "/meta.json", "w"),
            indent=1,
        )
        r0 = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
        r1 = subprocess.run(["bash", d + "/demo.sh"], cwd=wt, capture_output=True, text=True)
        ok = r0.returncode == 0 and r1.returncode != 0
        print(spec["ID"], "demo clean", r0.returncode, "patched", r1.returncode, "OK" if ok else "BAD")
        if not ok or "-v" in sys.argv:
            print(r0.stdout[-800:], r0.stderr[-1500:], "----", r1.stdout[-800:], r1.stderr[-1500:])
        else:
            print("   ", (r1.stderr.strip().splitlines() or ["?"])[-1][:200])
        if "--tests" in sys.argv and ok:
            base = json.load(open("/opt/vp/BASELINE.json"))
            for t in spec["TESTS"]:
                env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", HOME=tmp, TMPDIR=tmp, CUDA_VISIBLE_DEVICES="", TF_USE_LEGACY_KERAS="1")
                r = subprocess.run(
                    ["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x" if False else "-q", "tests/%s.py" % t, "-rf"],
                    cwd=wt, env=env, capture_output=True, text=True,
                )
                failed = [l.split()[1].split("::")[-1] for l in r.stdout.splitlines() if l.startswith("FAILED")]
                bad = [f for f in failed if "tests.%s::%s" % (t, f) in base["stable"]]
                print("    tests", t, "failed stable:", bad, r.stdout.strip().splitlines()[-1][:100])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


for a in sys.argv[1:]:
    if a.endswith(".py"):
        main(a)

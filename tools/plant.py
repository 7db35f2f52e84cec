"""
Authoring helper for planted changes: plant.py SPEC.py
SPEC defines id, prop, edits=[(file, old, new)], needs, breaks, demo (python
source). The change is confirmed in a scratch copy: it applies, builds, passes
the stable tests, and the demo passes without it and fails with it.
"""
import json, os, shutil, subprocess, sys, tempfile

PY = "/opt/venv/bin/python"
spec = {}
exec(open(sys.argv[1]).read(), spec)
out = os.path.join("/verif/seeded", spec["id"])
tmp = tempfile.mkdtemp(prefix="plant-")
ok = False
try:
    wt = os.path.join(tmp, "repo")
    subprocess.check_call(["cp", "-a", "/repo", wt])
    for f, old, new in spec["edits"]:
        p = os.path.join(wt, "terragraph_planner", f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "diff"], cwd=wt)
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "wb").write(diff)
    open(out + "/demo.py", "w").write(spec["demo"].lstrip())
    if True:
        shutil.copy("/verif/lib/shim/xpress.py", out + "/xpress.py")
    open(out + "/demo.sh", "w").write(
        '#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\n'
        'export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here:$PWD"\n'
        'exec /opt/venv/bin/python "$here/demo.py"\n')
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": spec["prop"], "needs": spec["needs"],
               "what_it_breaks": spec["breaks"]},
              open(out + "/meta.json", "w"), indent=1)
    r0 = subprocess.run([out + "/demo.sh"], cwd="/repo",
                        capture_output=True, text=True)
    r1 = subprocess.run([out + "/demo.sh"], cwd=wt,
                        capture_output=True, text=True)
    print("demo clean", r0.returncode, r0.stderr[-600:] if r0.returncode else "")
    print("demo bug  ", r1.returncode, r1.stderr[-300:] + r1.stdout[-200:])
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    if "--notest" not in sys.argv:
        src = open("/opt/vp/plugins/no_xpress.py").read()
        open(tmp + "/no_xpress.py", "w").write(
            src.replace('REPO = "/repo"', f'REPO = "{wt}"'))
        o = "terragraph_planner/optimization"
        ig = [f"--ignore={o}/ilp_models/test/test_{m}.py" for m in (
            "cost_optimization", "coverage_optimization", "flow_optimization",
            "interference_optimization", "network_optimization",
            "redundancy_optimization", "xpress")] + [
            f"--ignore={o}/test/test_topology_{m}.py" for m in (
                "interference", "optimization", "report")]
        t = subprocess.run(
            [PY, "-m", "pytest", "terragraph_planner", "-q", "-p", "no_xpress",
             "-p", "no:cacheprovider", "--tb=no", "--timeout=300"] + ig,
            cwd=wt, capture_output=True, text=True,
            env={**os.environ, "PYTHONPATH": f"{tmp}:{wt}",
                 "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"})
        print(t.stdout.strip().splitlines()[-6:])
    ok = r0.returncode == 0 and r1.returncode != 0 and (
        "--notest" in sys.argv or "3 failed, 314 passed" in t.stdout)
    env = {**os.environ, "VERIF_REPO": wt}
    for c in [spec["prop"]] + spec.get("also", []):
        r = subprocess.run(["/verif/run.sh", c], env=env, cwd="/verif",
                           capture_output=True, text=True)
        print(c, "exit", r.returncode, r.stdout.strip()[-500:], r.stderr[-300:])
finally:
    shutil.rmtree(tmp)
print("OK" if ok else "NOT OK")

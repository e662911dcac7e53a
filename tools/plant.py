"""Try a planted bug in a scratch copy: python3 tools/plant.py ID [--check P01,P02] [--no-tests].

Reads seeded/<ID>/edits.json ([[file, old, new], ...]; removed once patch.diff is written) or
seeded/<ID>/patch.diff, demo.py / demo.sh and meta.json.
"""
import json, os, subprocess, sys, shutil
from pathlib import Path

V = Path("/verif")
DEMO = '''#!/bin/bash
# cwd: the repository. Exit 0 when the property holds.
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -W ignore "$d/demo.py"
'''


def main(bid, checks, tests):
    d = V / "seeded" / bid
    w = Path(f"/tmp/w/plant-{bid}")
    if w.exists():
        shutil.rmtree(w)
    subprocess.run(["cp", "-a", "/repo", str(w)], check=True)
    try:
        ed = d / "edits.json"
        if ed.exists():
            for f, old, new in json.loads(ed.read_text()):
                s = (w / f).read_text()
                assert s.count(old) == 1, f"{f}: {s.count(old)} matches of {old!r}"
                (w / f).write_text(s.replace(old, new))
            diff = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True, check=True).stdout
            (d / "patch.diff").write_text(diff)
            ed.unlink()
        else:
            subprocess.run(["git", "apply", str(d / "patch.diff")], cwd=w, check=True)
        if not (d / "demo.sh").exists():
            (d / "demo.sh").write_text(DEMO)
            os.chmod(d / "demo.sh", 0o755)
        ok = True
        r = subprocess.run([str(d / "demo.sh")], cwd="/repo", capture_output=True, text=True)
        print("demo unchanged:", r.returncode, (r.stdout + r.stderr)[-300:] if r.returncode else "")
        ok &= r.returncode == 0
        r = subprocess.run([str(d / "demo.sh")], cwd=w, capture_output=True, text=True)
        print("demo planted:  ", r.returncode, (r.stdout + r.stderr)[-200:])
        ok &= r.returncode != 0
        if tests:
            base = json.load(open("/opt/vp/BASELINE.json"))
            stable = set(base["stable"])
            script = f'''. /opt/vp/env.sh; cd {w}; export PYTHONPATH={w}
python -m pytest -q -p no:cacheprovider -n 8 --timeout=300 --doctest-modules --mpl --continue-on-collection-errors --basetemp={w}/.t --benchmark-storage={w}/.b -o junit_family=xunit2 --junitxml={w}/junit.xml >/dev/null 2>&1
/usr/bin/python3 /opt/vp/results.py {w}/out.json junit:{w}/junit.xml'''
            subprocess.run(["bash", "-c", script], check=False)
            passed = set(json.load(open(w / "out.json"))["passed"])
            miss = stable - passed
            print(f"stable tests: {len(stable & passed)}/{len(stable)}", sorted(miss)[:5])
            ok &= not miss
        for c in checks:
            r = subprocess.run([str(V / "run.sh"), c], cwd=V, env={**os.environ, "VERIF_REPO": str(w), "VERIF_SEED": "1", "VERIF_TIER": "quick"}, capture_output=True, text=True)
            lines = [x[:260] for x in (r.stdout + r.stderr).splitlines() if x.startswith("  ") and "[" in x][:2]
            print(f"check {c}: exit {r.returncode}", "CAUGHT" if r.returncode == 1 and f"VIOLATION property={c}" in r.stdout else "MISSED", *lines, sep="\n    ")
        print(bid, "COUNTS" if ok else "DOES NOT COUNT", "" if tests else "(tests not run)", flush=True)
    finally:
        shutil.rmtree(w)


if __name__ == "__main__":
    a = sys.argv[1:]
    ids = [x for x in a if not x.startswith("--")]
    ch = next(([y for y in x.split("=")[1].split(",") if y] for x in a if x.startswith("--check=")), None)
    for b in ids:
        c = ch if ch is not None else [json.loads((V / "seeded" / b / "meta.json").read_text())["property"]]
        main(b, c, "--no-tests" not in a)

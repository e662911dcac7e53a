"""Regenerate the 'fixed' list of known_findings.json from the fix commits of /repo (run by hand)."""
import json
import pathlib
import subprocess

PROPS = """P01 P02 P02 P26 P05 P05 P10 P10 P24 P10 P19 P19 P20 P20 P20 P09 P01 P26 P21 P32 P24 P14 P07 P07 P06 P08 P08 P15 P17 P19 P20 P20 P20 P34 P34 P24 P21 P22 P24 P26 P26 P28 P28 P28 P28 P30 P30 P31 P31 P31 P32 P33 P33 P33 P33 P06 P33 P26 P26 P19 P16 P38 P38 P38 P39 P39 P39""".split()
EXTRA = []
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True, check=True).stdout.splitlines()
fixes = [l.split(" ", 1) for l in log if " fix: " in l]
path = pathlib.Path(__file__).resolve().parent.parent / "known_findings.json"
data = json.loads(path.read_text())
props = PROPS + [p for p in EXTRA]
assert len(props) == len(fixes), (len(props), len(fixes))
data["fixed"] = [f"fixed: property={p} {h} {s.removeprefix('fix: ')}" for p, (h, s) in zip(props, fixes)]
path.write_text(json.dumps(data, indent=1) + "\n")

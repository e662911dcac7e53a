"""Generate properties.jsonl and MANIFEST.json from one table (run after editing: python tools/mk.py)."""

import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
PROPS = {}


def prop(pid, title, statement, over, text, why, files, mech, technique, note, observe=()):
    PROPS[pid] = dict(
        p=dict(
            id=pid,
            title=title,
            statement=statement,
            quantifier=dict(over=over.split(), text=text),
            why_tests_cant=why,
            anchors=dict(
                files=[f"graphix/{f}" for f in files.split()],
                mechanism=[dict(name=n, where=f"graphix/{w}") for n, w in mech],
                observe_at=list(observe),
                hook_needed=None,
            ),
        ),
        technique=technique,
        note=note,
    )


exec((ROOT / "tools" / "props.py").read_text())

claimed = [k for k in sorted(PROPS) if (ROOT / "checks" / f"{k}.py").exists()]
with (ROOT / "properties.jsonl").open("w") as f:
    for k in claimed:
        assert len(PROPS[k]["p"]["title"]) <= 80, k
        f.write(json.dumps(PROPS[k]["p"], ensure_ascii=False) + "\n")
manifest = {
    "version": 1,
    "setup_cmd": "true",
    "checks": [
        {
            "property": k,
            "quick_cmd": f"bash run.sh {k} quick",
            "thorough_cmd": f"bash run.sh {k} thorough",
            "technique": PROPS[k]["technique"],
            "level": "exploration",
            "level_note": PROPS[k]["note"],
        }
        for k in claimed
    ],
    "not_applicable": [],
}
(ROOT / "MANIFEST.json").write_text(json.dumps(manifest, indent=1, ensure_ascii=False) + "\n")
print(len(claimed), "claimed")
try:
    import jsonschema

    s = json.loads(Path("/root/.vp/PROPERTIES.schema.json").read_text())
    for line in (ROOT / "properties.jsonl").read_text().splitlines():
        jsonschema.validate(json.loads(line), s)
    jsonschema.validate(manifest, json.loads(Path("/root/.vp/MANIFEST.schema.json").read_text()))
    print("schemas ok")
except ImportError:
    pass

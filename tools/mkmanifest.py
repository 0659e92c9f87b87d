"""Writes /verif/MANIFEST.json from the registry and properties.jsonl."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sim"))
import registry as R  # noqa: E402

NA = {}
PURE = ("a pure function of its input: no schedule, clock, I/O, fault or history takes part in it, so a simulator has nothing to vary; "
        "deciding it needs numerical or statistical input generation, which is another family")
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in R.ENGINES:
        checks.append(dict(
            property=i, quick_cmd="/opt/venv/bin/python sim/run.py check %s" % i,
            thorough_cmd="VERIF_TIER=thorough /opt/venv/bin/python sim/run.py check %s" % i,
            evidence_file="evidence/%s.json" % i, technique=R.TECH[i],
            level=R.LEVEL.get(i, "exploration"), level_note=R.NOTE[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, PURE if i.startswith("P") else "not built yet")))
m = dict(version=1, setup_cmd="/opt/venv/bin/python sim/build.py",
         hooks=dict(guard="none (no hook was added to /repo)",
                    enable="the checks compile /repo's sources themselves (sim/build.py): gcc -fsanitize=thread instrumentation, symbols redirected to the simulated runtime with objcopy",
                    source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Every check rebuilds what it needs from /repo's working tree (objects cached by content under build/). See DESIGN.md.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

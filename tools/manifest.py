"""Writes MANIFEST.json from the table of checks."""

import json
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS, NOTES  # noqa: E402
from build import VERIF  # noqa: E402

HOOKS = ["ae95a45"]

TECH = {
    "lin": "stress runs with injected delays; recorded call histories decided offline per key (linearizability)",
}

props = [json.loads(x)["id"] for x in open(os.path.join(VERIF, "properties.jsonl"))]
checks = []
for p in props:
    if p in CHECKS:
        n = NOTES[p]
        checks.append(
            {
                "property": p,
                "quick_cmd": f"python3 check.py {p}",
                "thorough_cmd": f"python3 check.py {p} --tier thorough",
                "evidence_file": f"evidence/{p}.json",
                "technique": n[0],
                "level": CHECKS[p].level,
                "level_note": n[1],
            }
        )
m = {
    "version": 1,
    "setup_cmd": "python3 tools/build.py native",
    "hooks": {
        "guard": "cfg(scc_vhook)",
        "enable": 'RUSTFLAGS="--cfg scc_vhook --cap-lints=warn" for the harness crate in /verif/harness, which depends on /repo by path',
        "source_commits": [subprocess.run(["git", "-C", "/repo", "rev-parse", h], capture_output=True, text=True).stdout.strip() or h for h in HOOKS],
    },
    "checks": checks,
    "not_applicable": [{"property": p, "reason": "its check is not built yet"} for p in props if p not in CHECKS],
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")

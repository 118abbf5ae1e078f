#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py (run by hand after plan.py changes)."""
import json
from pathlib import Path
from plan import PLAN, TECH, NOTE
HOOKS = ["2dad57b", "6ca6534"]
m = {
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "hooks": {"guard": "verif_hooks", "enable": "RUSTFLAGS=\"--cfg verif_hooks\" (set by check.py for harness/conc only)", "source_commits": HOOKS},
    "checks": [dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p}", technique=TECH[p], level="exploration", level_note=NOTE[p]) for p in sorted(PLAN)],
    "not_applicable": [dict(property=f"C{i:02}", reason="check under construction") for i in range(1, 19) if f"C{i:02}" not in PLAN],
    "notes": "All checks are runs of the real crate under monitors; see DESIGN.md. KNOWN_FINDINGS lists recorded and repaired defects.",
}
(Path(__file__).parent / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")

#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property in properties.jsonl that a scenario decides."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
TODO = {}  # id: reason, for properties no check decides
NOTE = {
 "whole": "One whole node, its real code woven onto simulated goroutines, channels, locks, clock, network and disk; remote parties are scripted and adversarial.",
 "tool": "The real program's torrent and version commands run as processes of the simulated machine, on disks that nodes and crashes left and that others change meanwhile.",
 "api": "The real package code woven onto the simulator, driven by concurrent simulated clients.",
}
level = {
 "P01": "whole", "P02": "whole", "P03": "api", "P04": "api", "P05": "api", "P06": "whole", "P07": "whole",
 "P08": "api", "P09": "api", "P10": "api", "P11": "whole", "P12": "api", "P13": "api", "P14": "api", "P15": "api",
 "P16": "api", "P17": "api", "P18": "whole", "P19": "api", "P20": "whole", "P21": "whole", "P22": "tool", "P23": "whole", "P24": "api", "P25": "whole",
}
skip = set(sys.argv[1:])
m = {
 "version": 1,
 "setup_cmd": "./build.sh /tmp/dst.setup both && rm -rf /tmp/dst.setup",
 "checks": [{
   "property": i,
   "quick_cmd": "./check.sh %s quick" % i,
   "thorough_cmd": "./check.sh %s thorough" % i,
   "technique": "deterministic simulation with fault injection (seeded schedule and fault search)",
   "level": "exploration",
   "level_note": NOTE[level[i]] + " Seeded search, so a pass covers the runs listed in the evidence and no more; see DESIGN.md for oracle and bounds.",
 } for i in ids if i not in skip],
 "not_applicable": [{"property": i, "reason": TODO.get(i, "no check yet")} for i in ids if i in skip],
 "notes": "No hooks in /repo: the checks weave a copy of the working tree (dst/cmd/weave). See DESIGN.md.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")

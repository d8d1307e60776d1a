"""Source of MANIFEST.json: python3 -m lib.manifest > MANIFEST.json"""
import json
from lib import props, checks
NOTES = checks.NOTES
m = dict(version=1, setup_cmd="bash setup.sh",
  hooks=dict(guard="MT_VERIF_HOOKS", enable="-DMT_VERIF_HOOKS=1 on every compilation of /repo sources (lib/build.py)",
             source_commits=[]),
  checks=[], not_applicable=[])
import subprocess
try:
    m["hooks"]["source_commits"] = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=MT_VERIF_HOOKS"], capture_output=True, text=True).stdout.split()
except Exception:
    pass
for p in props.P:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
            technique=c["technique"], level="model_checking", level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason=NOTES.get(i, "check not built yet")))
print(json.dumps(m, indent=1))

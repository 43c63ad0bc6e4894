#!/usr/bin/env python3
"""seed.py ID PROPERTY : take the uncommitted change in /repo as planted bug ID, confirm it, store it, undo it.
The demonstration must already be in seeded/ID/demo.sh; 'needs' and 'what_it_breaks' come from seeded/ID/meta.json."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop = sys.argv[1:3]
d = os.path.join(HERE, "seeded", sid)
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
diff = sh("git -C /repo diff").stdout
if not diff.strip():
    sys.exit("no change in /repo")
open(os.path.join(d, "patch.diff"), "w").write(diff)
try:
    b = sh("bash /opt/vp/build.sh")
    if b.returncode:
        sys.exit("does not build: " + b.stderr[-500:])
    r = sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo")
    print("demo with the change: exit %d  %s" % (r.returncode, (r.stdout + r.stderr).strip()[-300:]))
    bad = r.returncode == 0
    if "--notest" not in sys.argv:
        sh("bash /opt/vp/test.sh /tmp/seed.json")
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        got = set(json.load(open("/tmp/seed.json"))["passed"])
        lost = sorted(base - got)
        print("stable tests lost:", len(lost), lost[:3])
        bad = bad or bool(lost)
    c = sh("timeout 900 python3 check.py %s" % prop, cwd=HERE, env=dict(os.environ, SA_EVIDENCE="/tmp/ev"))
    print("check %s: exit %d  %s" % (prop, c.returncode, c.stdout.strip()[:400]))
finally:
    sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")
r = sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo")
print("demo without: exit %d %s" % (r.returncode, (r.stdout + r.stderr).strip()[-300:] if r.returncode else ""))
print("KEEP" if not bad and r.returncode == 0 else "REJECT")

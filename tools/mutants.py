#!/usr/bin/env python3
"""Try the checks on edited copies of /repo: mutants.py [PID...]
Each tools/mut/PID.txt holds blocks:  === catch|quiet FILE / <<< old / --- / new / >>>"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(pid):
    t = open(os.path.join(HERE, "tools/mut", pid + ".txt")).read()
    n = 0
    for m in re.finditer(r"^=== (catch|quiet|miss)(?: \[([P0-9 ,]+)\])?(.*)\n((?:@ .*\n<<<\n(?:.*\n)*?---\n(?:.*\n)*?>>>\n)+)", t, re.M):
        eds = re.findall(r"@ (.*)\n<<<\n((?:.*\n)*?)---\n((?:.*\n)*?)>>>\n", m.group(4))
        n += 1
        yield m.group(1), m.group(3).strip(), eds
    if n != len(re.findall(r"^=== ", t, re.M)):
        print("%s: %d of %d blocks parsed" % (pid, n, len(re.findall(r"^=== ", t, re.M))))


def one(job):
    pid, want, title, eds = job
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        shutil.copytree(os.environ.get("SA_REPO", "/repo") + "/postgresql", d + "/postgresql", ignore=shutil.ignore_patterns("*.so", "__pycache__", "test"))
        for f, old, new in eds:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) < 1:
                return "STALE %s %s: %s not found" % (pid, title, old[:60])
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
        for f, old, new in eds:
            if f.endswith(".py"):
                try:
                    compile(open(os.path.join(d, f)).read(), f, "exec")
                except SyntaxError as e:
                    return "STALE %s %s: %s" % (pid, title, e)
        env = dict(os.environ, SA_REPO=d, SA_EVIDENCE=d + "/ev")
        r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), pid], env=env, capture_output=True, text=True, timeout=900)
        got = {0: "quiet", 1: "catch"}.get(r.returncode, "BROKEN")
        ok = got == want or want == "miss" and got == "quiet"
        lines = [l for l in r.stdout.splitlines() if l.startswith("  ")]
        return "%s %s %-6s %s%s" % ("ok  " if ok else "FAIL", pid, got, title, "" if ok and "-v" not in sys.argv else "\n" + "\n".join(lines[:6]) + (r.stdout[-1500:] + r.stderr[-500:] if got == "BROKEN" else ""))
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    pids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(f[:-4] for f in os.listdir(os.path.join(HERE, "tools/mut")))
    last = int(os.environ.get("LAST", 0))
    jobs = [(p, w, t, e) for p in pids for w, t, e in list(load(p))[-last:]]
    with ThreadPoolExecutor(int(os.environ.get("JOBS", 8))) as ex:
        res = list(ex.map(one, jobs))
    for r in res:
        print(r)
    print("%d of %d as expected" % (sum(r.startswith("ok") for r in res), len(res)))

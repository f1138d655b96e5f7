"""Runs the quick check of its property against every planted change (in a
scratch copy of /repo).  Usage: seeds.py [--all-checks] [id ...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    root = os.path.join(V, "seeded")
    missed = []
    for sid in sorted(os.listdir(root)):
        d = os.path.join(root, sid)
        if not os.path.exists(os.path.join(d, "meta.json")):
            continue
        if ids and sid not in ids and sid.split("-")[0] not in ids:
            continue
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        w = tempfile.mkdtemp(prefix="seed-")
        c = os.path.join(w, "repo")
        subprocess.check_call(["cp", "-a", "/repo", c])
        subprocess.check_call(["git", "-C", c, "apply",
                               os.path.join(d, "patch.diff")])
        r0 = subprocess.run([os.path.join(d, "demo.sh")], cwd="/repo",
                            capture_output=True).returncode
        r1 = subprocess.run([os.path.join(d, "demo.sh")], cwd=c,
                            capture_output=True).returncode
        r = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "mc/run.py", prop,
                            "--tier", "quick"], cwd=V, text=True,
                           env=dict(os.environ, MC_REPO=c),
                           capture_output=True)
        ls = r.stdout.splitlines()
        v = [i for i, l in enumerate(ls)
             if l.startswith("VIOLATION property=%s " % prop)]
        ok = r.returncode == 1 and v
        first = next((i for i, l in enumerate(ls) if " quick: " in l), 0)
        print("%-24s %s demo %d/%d rc %d %s | %s" % (
            sid, prop, r0, r1, r.returncode, "CAUGHT" if ok else "MISSED",
            ls[first + 1].strip()[:90] if ok else r.stderr[-300:]),
            flush=True)
        if not ok or r0 or not r1:
            missed.append(sid)
        shutil.rmtree(w)
    print("not caught or not valid:", missed)


main()

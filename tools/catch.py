#!/usr/bin/env python3
"""development: run the check of every seeded change on a clone with the change and write the table in DESIGN.md
usage: catch.py [ID...]"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
MARK = "| seeded change |"
def main():
    path = V + "/DESIGN.md"
    head, _, old = open(path).read().partition(MARK)
    have = {l.split("|")[1].strip(): l for l in old.splitlines()[2:] if l.startswith("|")}
    rows = []
    for sid in sorted(os.listdir(V + "/seeded")):
        m = json.load(open("%s/seeded/%s/meta.json" % (V, sid)))
        if sid in have and sid not in sys.argv[1:]:
            rows.append(have[sid]); continue
        d = tempfile.mkdtemp(dir="/tmp")
        run(["git", "clone", "-q", "/repo", d + "/r"])
        r = run(["git", "apply", "%s/seeded/%s/patch.diff" % (V, sid)], cwd=d + "/r"); assert r.returncode == 0, r.stdout
        r = run(["python3", V + "/check.py", m["property"]], cwd=V, env=dict(os.environ, VERIF_REPO=d + "/r"))
        why = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "  "))]
        res = {0: "missed", 1: "caught"}.get(r.returncode, "no answer")
        print(sid, m["property"], res, r.stdout.strip().splitlines()[-1][:200], flush=True)
        rows.append("| %s | %s | %s | %s |" % (sid, m["property"], res, m["needs"].replace("|", "/")))
        shutil.rmtree(d)
    open(path, "w").write(head + MARK + " property | its check | what it needs to manifest |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
main()

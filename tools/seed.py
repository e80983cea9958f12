#!/usr/bin/env python3
"""development: turn an edited scratch copy (/tmp/wt) and a demonstration (main.go) into seeded/<id>
usage: seed.py ID PROP MAIN.go NEEDS BREAKS [race]"""
import json, os, shutil, subprocess, sys
V = "/verif"; WT = "/tmp/wt"
def run(cmd, cwd=None, env=None): return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def fresh(d=WT):
    if os.path.exists(d): shutil.rmtree(d)
    r = run(["git", "clone", "-q", "/repo", d]); assert r.returncode == 0, r.stdout
def kit(dst, main, race=False):
    os.makedirs(dst, exist_ok=True)
    for f in ("pdfread", "interp", "observe", "tmpl", "ttf", "img", "cmyk"):
        shutil.copy("%s/harness/%s.go" % (V, f), "%s/kit_%s.go" % (dst, f))
    e = open(V + "/harness/exec.go").read()
    open(dst + "/kit_exec.go", "w").write(e)
    shutil.copy(V + "/harness/gp.go", dst + "/kit_gp.go")
    shutil.copy(V + "/tools/kit/kit.go", dst + "/kit.go")
    shutil.copy(main, dst + "/main.go")
    open(dst + "/demo.sh", "w").write(open(V + "/tools/kit/demo.sh").read().replace("RACE ", "-race " if race else ""))
    os.chmod(dst + "/demo.sh", 0o755)
def tests(d):
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    env = dict(os.environ, GOFLAGS="-mod=mod", GOWORK="off", GOTOOLCHAIN="local")
    os.makedirs(d + "/test/out", exist_ok=True)
    bad = []
    for b in base:
        pkg, t = b.rsplit("/", 1)
        rel = "./" + pkg.replace("github.com/signintech/pdft", "").lstrip("/")
        r = run(["go", "test", "-vet=off", "-count=1", "-run", "^%s$" % t, rel], cwd=d, env=env)
        if r.returncode != 0: bad.append((b, r.stdout[-400:]))
    return bad
def main():
    if sys.argv[1] == "fresh": return fresh()
    sid, prop, mainf, needs, breaks = sys.argv[1:6]
    race = len(sys.argv) > 6
    diff = run(["git", "-C", WT, "diff"]).stdout
    if not diff.strip(): print("no change in", WT); return 1
    env = dict(os.environ, GOFLAGS="-mod=mod", GOWORK="off", GOTOOLCHAIN="local")
    r = run(["go", "build", "./..."], cwd=WT, env=env)
    if r.returncode: print("build fails", r.stdout); return 1
    bad = tests(WT)
    if bad: print("tests fail:", bad); return 1
    tmp = "/tmp/seedtmp"; shutil.rmtree(tmp, ignore_errors=True)
    kit(tmp, mainf, race)
    fresh("/tmp/clean")
    a = run(["bash", tmp + "/demo.sh"], cwd="/tmp/clean"); b = run(["bash", tmp + "/demo.sh"], cwd=WT)
    print("clean:", a.returncode, a.stdout[-600:]); print("patched:", b.returncode, b.stdout[-600:])
    shutil.rmtree("/tmp/clean")
    if a.returncode != 0 or b.returncode == 0 or "FAIL" not in b.stdout and "panic" not in b.stdout and "RACE" not in b.stdout: print("DEMO NOT OK"); return 1
    dst = "%s/seeded/%s" % (V, sid)
    shutil.rmtree(dst, ignore_errors=True); shutil.copytree(tmp, dst)
    open(dst + "/patch.diff", "w").write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(dst + "/meta.json", "w"), indent=1)
    r = run(["git", "-C", "/repo", "apply", "--check", dst + "/patch.diff"]); assert r.returncode == 0, r.stdout
    env = dict(os.environ, VERIF_REPO=WT)
    c = run(["python3", V + "/check.py", prop], env=env, cwd=V)
    print("CHECK", prop, "exit", c.returncode, c.stdout[-500:])
sys.exit(main())

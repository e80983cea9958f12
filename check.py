#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]      decide one property on /repo's working tree
   check.py replay FILE                                       run one recorded scenario again
Pipeline: TLC generates scenarios from the specification (spec/Gen*.tla) -> the harness executes them on the
real code -> TLC validates the recorded traces against the specification (spec/Trace.tla).
Exit 0: held on everything explored. Exit 1: VIOLATION. Other: the check could not be run."""
import json, os, sys, subprocess, tempfile, shutil, time, re, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
CORES = min(8, os.cpu_count() or 4)
JAVA = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss16m", "-cp",
        "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC"]
sys.path.insert(0, os.path.join(HERE, "tools"))
from plan import PLAN  # what is run for each property


class Broken(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(tmp, race=False):
    out = os.path.join(tmp, "harness-race" if race else "harness")
    src = os.path.join(HERE, "harness")
    env = dict(os.environ, GOFLAGS="-mod=mod", GOWORK="off", GOTOOLCHAIN="local")
    modfile = []
    if REPO != "/repo":  # scratch copies of the repository (development only)
        mf = os.path.join(tmp, "go.mod")
        open(mf, "w").write(open(os.path.join(src, "go.mod")).read().replace("/repo", REPO))
        modfile = ["-modfile", mf]
    if race:
        env["CGO_ENABLED"] = "1"
    r = sh(["go", "build"] + modfile + (["-race"] if race else []) + ["-o", out, "."], cwd=src, env=env)
    if r.returncode != 0:
        raise Broken("the harness does not build against the working tree:\n" + r.stdout[-3000:])
    return out


def tlc(args, env, cwd, mem="2g", timeout=3000):
    meta = tempfile.mkdtemp(dir=cwd)
    cmd = JAVA[:1] + ["-Xmx" + mem, "-Djava.io.tmpdir=" + meta] + JAVA[1:] + ["-metadir", meta, "-noGenerateSpecTE"] + args
    try:
        r = sh(cmd, cwd=SPEC, env=dict(os.environ, **env), timeout=timeout)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r


def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        return int(m[-1][0]), int(m[-1][1])
    m = re.findall(r"number of states generated: (\d+)", out)
    if m:
        return int(m[-1]), int(m[-1])
    return 0, 0


def generate(tmp, job, seed, tier):
    """scenarios of one generator job, as a list of dicts"""
    n = job[tier]
    out = []
    if job.get("mode") == "bfs":  # exhaustive enumeration of a small model
        r = tlc(["-config", job["cfg"], "-workers", "1", job["module"]], dict(FAM=job["fam"], VAR=job.get("var", ""), TIER=tier, GSEED=str(seed)), tmp, mem="4g")
        if "Error:" in r.stdout:
            raise Broken("generator: " + r.stdout[-3000:])
        lines = [l for l in r.stdout.splitlines() if l.startswith('"@@')]
        st = stats(r.stdout)
        lines.sort()
        if n and len(lines) > n:  # bounded tier: a seeded sample of the enumeration
            import random
            rnd = random.Random(seed)
            lines = rnd.sample(lines, n)
    else:
        parts = min(CORES, max(1, n // 40))
        per = (n + parts - 1) // parts

        def one(j):
            return tlc(["-config", job.get("cfg", "Gen.cfg"), "-simulate", "num=%d" % per, "-depth", "400",
                        "-seed", str(seed * 1000 + j + 1 + job.get("off", 0)), "-workers", "1", job.get("module", "Gen.tla")],
                       dict(FAM=job["fam"], VAR=job.get("var", ""), TIER=tier, GSEED=str(seed)), tmp)
        with cf.ThreadPoolExecutor(CORES) as ex:
            rs = list(ex.map(one, range(parts)))
        lines = []
        for r in rs:
            got = [l for l in r.stdout.splitlines() if l.startswith('"@@')]
            if "Error:" in r.stdout or not got:
                raise Broken("generator: " + r.stdout[-3000:])
            lines += got
        st = (sum(stats(r.stdout)[0] for r in rs),) * 2
    for i, l in enumerate(lines):
        s = json.loads(json.loads(l)[2:])
        s["id"] = "%s-%s-%d-%d" % (job["fam"], job.get("var") or job.get("mode", "sim"), seed, i)
        out.append(s)
    return out, st


def execute(tmp, binary, scns, race=False):
    """run the scenarios on the real code; one trace record per scenario"""
    recs = {}
    shards = [scns[i::CORES] for i in range(CORES)]
    t0 = time.time()

    def one(j):
        todo = shards[j]
        res = []
        rnd = 0
        while todo:
            rnd += 1
            inp = os.path.join(tmp, "in%d_%d" % (j, rnd))
            outp = os.path.join(tmp, "out%d_%d" % (j, rnd))
            work = tempfile.mkdtemp(dir=tmp)
            with open(inp, "w") as f:
                for s in todo:
                    f.write(json.dumps(s) + "\n")
            env = dict(os.environ, GOMEMLIMIT="3GiB")
            if race:
                env["GORACE"] = "halt_on_error=1 exitcode=66"
            try:
                r = sh([binary, "run", inp, outp, work, REPO], env=env, timeout=1500)
                rc, txt = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                rc, txt = -1, "timeout"
            lines = open(outp, newline="\n").read().split("\n")[:-1] if os.path.exists(outp) else []
            good = []
            for l in lines:
                try:
                    good.append((json.loads(l), l))
                except ValueError:
                    break
            res += good
            shutil.rmtree(work, ignore_errors=True)
            os.unlink(inp)
            if os.path.exists(outp):
                os.unlink(outp)
            if good and good[-1][0].get("hang"):
                break  # the verdict is clear
            if rc == 0:
                if len(good) != len(todo):
                    raise Broken("harness: lost output %d of %d" % (len(good), len(todo)))
                break
            if rc == 2 and not good:
                raise Broken("harness: " + txt[-2000:])
            if len(good) < len(todo) and not (good and good[-1][0].get("hang")):
                # the process died in this scenario
                s = todo[len(good)]
                rec = dict(id=s["id"], hang=True, ev=[], tfs=[], fonts={}, imgs={}, badimgs=[], crash=txt[-1500:])
                res.append((rec, json.dumps(rec)))
                good.append(rec)
                if rnd > 5:
                    break
            todo = todo[len(good):]
        return res
    with cf.ThreadPoolExecutor(CORES) as ex:
        out = []
        for res in ex.map(one, range(CORES)):
            out += res
    return out


ODD = re.compile(r"null|[0-9]{10,}|[0-9]\.[0-9]|[0-9][eE]")


def plain(v):
    """values TLC can read: no null, whole numbers within +-10^9"""
    if v is None:
        return []
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return max(-10**9, min(10**9, int(v))) if v == v else 10**9
    return v


def validate(tmp, prop, recs, module="Trace", chunk=0):
    """TLC validates the traces; returns (violation or None, states, transitions)"""
    for rec, line in recs:
        if rec.get("hang"):
            return dict(scenario=rec["id"], event=0, why=["no answer: crash or hang", rec.get("crash", "")[-600:]]), 0, 0
    shards = [recs[i::CORES] for i in range(CORES)]
    shards = [s for s in shards if s]

    def one(j):
        fn = os.path.join(tmp, "trace%d.ndjson" % j)
        with open(fn, "w") as f:
            for rec, line in shards[j]:
                f.write((json.dumps(plain(rec)) if ODD.search(line) else line) + "\n")
        r = tlc(["-config", module + ".cfg", "-workers", "1", module + ".tla"], dict(TRACE=fn, PROP=prop), tmp, mem="3500m")
        os.unlink(fn)
        return r.stdout
    with cf.ThreadPoolExecutor(CORES) as ex:
        outs = list(ex.map(one, range(len(shards))))
    bad = None
    st = tr = 0
    for j, o in enumerate(outs):
        g, d = stats(o)
        st += d
        tr += g
        if "Invariant Holds is violated" in o:
            b = parse_bad(o)
            if bad is None or b["scenario"] < bad["scenario"]:
                bad = b
        elif "Model checking completed. No error has been found." not in o:
            raise Broken("trace validation: " + o[-3500:])
        else:
            want = sum(len(rec["ev"]) + 1 for rec, _ in shards[j])
            if d != want:
                raise Broken("trace validation: %d of %d recorded events were checked" % (d, want))
    return bad, st, tr


def parse_bad(o):
    sc = re.findall(r'/\\ scenario = "([^"]*)"', o)
    ev = re.findall(r"/\\ event = (\d+)", o)
    why = o[o.rfind("/\\ why = "):]
    why = why[9:why.find("\n\n")] if "\n\n" in why else why[9:400]
    return dict(scenario=sc[-1] if sc else "?", event=int(ev[-1]) if ev else 0, why=re.findall(r'"([^"]*)"', why))


def known():
    out = []
    fn = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r"known: property=(\S+) scenario=(\S+) (.*)", l)
            if m:
                out.append(m.groups())
    return out


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "setup":
        return setup()
    if len(sys.argv) > 2 and sys.argv[1] == "replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    a = sys.argv[2:]
    while a:
        if a[0] == "--tier":
            tier = a[1]
        elif a[0] == "--seed":
            seed = int(a[1])
        a = a[2:]
    t0 = time.time()
    plan = PLAN[prop]
    cov = mc = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir=os.environ.get("VERIF_TMP", "/tmp"))
    viol = None
    try:
        race = any(j.get("race") for j in plan["jobs"])
        binary = build(tmp)
        rbin = build(tmp, True) if race else None
        # 1. the specification itself
        models = []
        for m in plan.get("models", []):
            cfg = m.get("cfg_" + tier, m["cfg"])
            r = tlc(["-config", cfg, "-workers", str(CORES), "-deadlock", m["module"]], dict(TIER=tier), tmp, mem="8g")
            if "No error has been found" not in r.stdout:
                raise Broken("model checking of %s: %s" % (m["module"], r.stdout[-3500:]))
            g, d = stats(r.stdout)
            mc["states"] += d
            mc["transitions"] += g
            models.append("%s/%s: %d distinct states" % (m["module"], cfg, d))
        # 2. the code against the specification
        jobs = []
        for job in plan["jobs"]:
            rounds = job.get("rounds_" + tier, 1)
            for rd in range(rounds):
                scns, st = generate(tmp, dict(job, off=job.get("off", 0) + 100 * rd), seed, tier)
                mc["states"] += st[1]
                mc["transitions"] += st[0]
                if rd:
                    for s in scns:
                        s["id"] += "-r%d" % rd
                byid = {s["id"]: s for s in scns}
                recs = execute(tmp, rbin if job.get("race") else binary, scns, race=bool(job.get("race")))
                kn = [k for k in known() if k[0] == prop]
                bad, s1, t1 = validate(tmp, prop, recs, job.get("trace", "Trace"))
                while bad and any(k[1] == bad["scenario"] for k in kn):
                    k = [k for k in kn if k[1] == bad["scenario"]][0]
                    print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
                    recs = [x for x in recs if x[0]["id"] != bad["scenario"]]
                    bad, s1, t1 = validate(tmp, prop, recs, job.get("trace", "Trace"))
                mc["states"] += s1
                mc["transitions"] += t1
                mc["traces_validated_against_impl"] += len(recs)
                jobs.append("%s %s: %d scenarios, %d recorded events" % (job["fam"], job.get("var") or job.get("mode", "sim"), len(recs), s1))
                if not mc["samples"]:
                    mc["samples"] = [json.dumps(s)[:1200] for s in scns[:3]]
                if bad:
                    viol = (bad, byid.get(bad["scenario"]), job)
                    break
            if viol:
                break
        mc["samples"] += models + jobs
    except Broken as e:
        print("CHECK COULD NOT BE RUN: %s" % e)
        shutil.rmtree(tmp, ignore_errors=True)
        return 2
    except subprocess.TimeoutExpired as e:
        print("CHECK COULD NOT BE RUN: timeout %s" % e)
        shutil.rmtree(tmp, ignore_errors=True)
        return 2
    shutil.rmtree(tmp, ignore_errors=True)
    ev = dict(property=prop, tier=tier, seed=seed, level=plan["level"], coverage=cov, wall_s=round(time.time() - t0, 2),
              violations=1 if viol else 0, assumptions=plan.get("assumptions", []))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if viol:
        bad, scn, job = viol
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        fn = os.path.join(HERE, "replay", "%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9-]", "_", bad["scenario"])))
        with open(fn, "w") as f:
            json.dump(dict(property=prop, violation=bad, trace=job.get("trace", "Trace"), race=bool(job.get("race")), scenario=scn), f, indent=1)
        print("violated at event %d of %s: %s" % (bad["event"], bad["scenario"], "; ".join(bad["why"])))
        print("VIOLATION property=%s replay=%s" % (prop, fn))
        return 1
    print("%s held: %d scenarios validated, %d states, %.1f s" % (prop, mc["traces_validated_against_impl"], mc["states"], time.time() - t0))
    return 0


def setup():
    """nothing is kept between runs; this only shows that the tools are there"""
    tmp = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        build(tmp)
        for m in ("Gen", "Trace"):
            r = sh(["java", "-cp", JAVA[JAVA.index("-cp") + 1], "tla2sany.SANY", m + ".tla"], cwd=SPEC)
            if r.returncode != 0:
                raise Broken(r.stdout[-2000:])
    except Broken as e:
        print("SETUP: %s" % e)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return 0


def replay(fn):
    d = json.load(open(fn))
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        binary = build(tmp, d["race"])
        recs = execute(tmp, binary, [d["scenario"]], d["race"])
        bad, _, _ = validate(tmp, d["property"], recs, d["trace"])
        if os.environ.get("VERIF_DUMP"):
            json.dump(recs[0][0], open(os.environ["VERIF_DUMP"], "w"), indent=1)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if bad:
        print("violated at event %d of %s: %s" % (bad["event"], bad["scenario"], "; ".join(bad["why"])))
        print("VIOLATION property=%s replay=%s" % (d["property"], fn))
        return 1
    print("held")
    return 0


if __name__ == "__main__":
    sys.exit(main())

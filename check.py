#!/usr/bin/env python3
"""check.py <property> [--thorough]

Decides one property on /repo's current working tree.

 1. proof:   `python3-vt -m contracts <id>` parses the functions under contract from /repo's current source,
             generates the obligations and discharges them (see pyvc/ and contracts/).
 2. conform: `/opt/venv/bin/python -m conform <id>` runs the same contracts as run-time checks on the real code.
             It (a) cross-checks the verifier's models of numpy/torch/... against the real libraries, (b) turns a
             failed obligation into a concrete failing input, (c) is the bounded stand-in for obligations the
             verifier cannot decide (labelled bounded in the evidence, never counted as discharged).

exit 0: every obligation discharged (or undecided ones covered by the bounded stand-in) and no failing input.
exit 1: VIOLATION property=<id> replay=<path> [no-failing-input-found]
"""
import json, os, subprocess, sys, time, tempfile, shutil, signal

HERE = os.path.dirname(os.path.abspath(__file__))
PYC = "/opt/venv/bin/python"
PYV = "python3-vt"


def spawn(cmd, env, log):
    return subprocess.Popen(cmd, cwd=HERE, env=env, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)


def sweep(p):
    """Kill whatever the command left running in its session."""
    for d in os.listdir("/proc"):
        if d.isdigit() and int(d) != os.getpid():
            try:
                with open("/proc/%s/stat" % d) as f:
                    sid = int(f.read().rsplit(")", 1)[1].split()[3])
                if sid == p.pid:
                    os.kill(int(d), signal.SIGKILL)
            except (OSError, ValueError, IndexError):
                pass


def finish(p, deadline):
    try:
        p.wait(max(1.0, deadline - time.time()))
        return True
    except subprocess.TimeoutExpired:
        return False
    finally:
        sweep(p)
        p.wait()


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except Exception:
        return None


def findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:") and "property=%s " % prop in l:
                out.append(l[len("finding:"):].strip())
    return out


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    repo = os.environ.get("VERIF_REPO", "/repo")
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    env = dict(os.environ)
    env.update(VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_REPO=repo, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", TMPDIR=tmp)
    hard = 780 if tier == "quick" else 6000
    env.setdefault("VERIF_CONFORM_BUDGET", "150" if tier == "quick" else "1500")
    env.setdefault("VERIF_PROOF_BUDGET", "420" if tier == "quick" else "3600")
    deadline = t0 + hard
    try:
        cj, pj = os.path.join(tmp, "conform.json"), os.path.join(tmp, "proof.json")
        clog, plog = open(os.path.join(tmp, "c.log"), "w+"), open(os.path.join(tmp, "p.log"), "w+")
        pc = spawn([PYC, "-m", "conform", prop, cj], env, clog)
        pp = spawn([PYV, "-m", "contracts", prop, pj], env, plog)
        okc = finish(pc, min(deadline, t0 + float(env["VERIF_CONFORM_BUDGET"]) + 240))
        okp = finish(pp, min(deadline, t0 + float(env["VERIF_PROOF_BUDGET"]) + 120))
        conf, proof = load(cj), load(pj)
        clog.seek(0), plog.seek(0)
        clogt, plogt = clog.read()[-3000:], plog.read()[-3000:]
        if conf is None:
            # the package could not even be imported/driven: say so, decide below
            conf = dict(property=prop, evaluations=0, distinct=0, failures=[], samples=[], skipped=[],
                        errors=["conform produced no result (finished=%s): %s" % (okc, clogt)], wall=0)
        if proof is None:
            proof = dict(property=prop, obligations=[], undecided=[dict(unit="all", why="prover produced no result (finished=%s): %s"
                                                                        % (okp, plogt))], functions=[], trusted=[], assumptions=[],
                         wall=0, solver_time=0)
        # A package that cannot be imported at all violates everything it promises.
        obs = proof["obligations"]
        discharged = [o for o in obs if o["status"] == "proved"]
        refuted = [o for o in obs if o["status"] == "refuted"]
        open_ = [o for o in obs if o["status"] not in ("proved", "refuted")]
        # not proved although no resource limit was met: the solver gave a counterexample of the obligation with every
        # instance of the rules it was offered (obligations about a guessed witness or loop invariant do not count)
        failed = [o for o in open_ if o.get("sat") and not o.get("taint") and o.get("note") != "witness" and o["time"] < 1.0]
        fails = conf["failures"]
        if (refuted or open_) and not fails and conf["evaluations"] and time.time() < deadline - 200:
            # look harder for a concrete input of the failed obligation
            for s in ([11, 12] if tier == "quick" else [11, 12, 13, 14]):
                if time.time() > deadline - 150:
                    break
                e2 = dict(env, VERIF_SEED=str(seed * 100 + s), VERIF_CONFORM_BUDGET="100")
                cj2 = os.path.join(tmp, "conform%d.json" % s)
                p2 = spawn([PYC, "-m", "conform", prop, cj2], e2, clog)
                finish(p2, min(deadline, time.time() + 160))
                c2 = load(cj2)
                if c2:
                    conf["evaluations"] += c2["evaluations"]
                    conf["distinct"] = max(conf["distinct"], c2["distinct"])
                    if c2["failures"]:
                        fails = conf["failures"] = c2["failures"]
                        conf["seed"] = seed * 100 + s
                        break
        violation = None
        known = []
        kf = findings(prop)
        rdir = os.path.join(HERE, "replay")
        rpath = os.path.join(rdir, "%s.json" % prop)
        rep = dict(property=prop, seed=conf.get("seed", seed), tier=tier,
                   how="VERIF_SEED=%s %s -m conform %s out.json (in /verif) drives the real code again" % (conf.get("seed", seed), PYC, prop))
        new = [f for f in fails if not any(k and k.split(" ", 1)[1] == f["what"] for k in kf)]
        known = [f for f in fails if f not in new]
        if new:
            rep.update(kind="failing input on the real code", failures=new, failed_obligations=refuted + open_)
            violation = "VIOLATION property=%s replay=%s" % (prop, rpath)
        elif refuted or failed:
            rep.update(kind="failed obligation, no failing input found", failed_obligations=refuted + failed, other=[o for o in open_ if o not in failed])
            violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rpath)
        for f in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
        manifest = load(os.path.join(HERE, "MANIFEST.json")) or {"checks": []}
        lvl = next((c["level"] for c in manifest["checks"] if c["property"] == prop), "other")
        cov = dict(
            obligations=len(obs), discharged=len(discharged), checker_cmd="%s -m contracts %s OUT.json" % (PYV, prop),
            trusted_base=sorted(set(proof.get("trusted", []))) or ["pyvc (VC generator), z3, cvc5, sympy"],
            functions_under_contract=proof.get("functions", []),
            backends=count([o.get("backend") or "none" for o in discharged]),
            solver_time_s=proof.get("solver_time", 0), proof_wall_s=proof.get("wall", 0),
            obligations_by_unit=count([o["name"].split("/")[0] for o in obs]),
            refuted=[o["name"] for o in refuted], open_obligations=[o["name"] for o in open_],
            undecided_units=proof.get("undecided", []), vacuity_checks=proof.get("vacuity", []),
            evaluations=conf["evaluations"], distinct_nontrivial=conf["distinct"],
            rule="run-time contract evaluation on the real code (bounded: sampled inputs/schedules, see conform/); distinct by case key",
            samples=conf["samples"] or ["none"],
            bounded_standin=dict(label="bounded", evaluations=conf["evaluations"], skipped=conf["skipped"], harness_errors=conf["errors"],
                                 decides=[o["name"] for o in open_] + [u.get("unit") for u in proof.get("undecided", [])] +
                                 proof.get("bounded", [])),
            explanation="Obligations are generated from /repo's current source on this run and discharged by the named back ends; "
                        "whatever is listed under open_obligations/undecided_units/bounded_standin.decides was decided only by the "
                        "bounded run-time evaluation of the same contract and is not counted as discharged.",
        )
        ev = dict(property=prop, tier=tier, seed=seed, level=lvl, coverage=cov, assumptions=proof.get("assumptions", []),
                  wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d/%d obligations discharged, %d refuted, %d open, %d undecided units; %d run-time evaluations (%d failing, %d skipped units, "
              "%d harness errors); %.1f s" % (prop, len(discharged), len(obs), len(refuted), len(open_), len(proof.get("undecided", [])),
                                             conf["evaluations"], len(new), len(conf["skipped"]), len(conf["errors"]), time.time() - t0))
        for e in conf["errors"]:
            print("harness error:", e[-400:])
        for u in proof.get("undecided", []):
            print("undecided:", u.get("unit"), str(u.get("why"))[-300:])
        if violation:
            os.makedirs(rdir, exist_ok=True)
            with open(rpath, "w") as f:
                json.dump(rep, f, indent=1)
            for x in new[:3]:
                print("failing input:", x["what"])
            for o in (refuted + failed)[:5]:
                print("failed obligation:", o["name"])
            print(violation)
            return 1
        if not discharged and conf["evaluations"] == 0:
            print("nothing could be decided: no obligation and no evaluation")
            return 3
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def count(xs):
    d = {}
    for x in xs:
        d[x] = d.get(x, 0) + 1
    return d


if __name__ == "__main__":
    sys.exit(main())

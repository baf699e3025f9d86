"""Units of a property: each is a function under contract; its obligations are generated from /repo's current source."""
import importlib, os, sys, time, traceback

BUDGET = float(os.environ.get("VERIF_PROOF_BUDGET", "420"))
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
T0 = time.time()

TRUSTED = [
    "pyvc: the VC generator of /verif (Python semantics of the subset it executes, its loop rules, path enumeration)",
    "z3 4.x, cvc5 1.1.2, sympy 1.14 (rational-function normal forms)",
    "float64 read as extended reals: no rounding, no overflow (the run-time contracts exercise real floats)",
]


class Unit:
    def __init__(self, name, functions, fn, trusted=(), assumptions=(), timeout=8.0):
        self.name, self.functions, self.fn, self.trusted, self.assumptions, self.timeout = name, list(functions), fn, list(trusted), list(assumptions), timeout


class U:
    """What a unit sees: engine, obligations, vacuity bookkeeping."""

    def __init__(self, unit, E):
        self.unit, self.E = unit, E
        self.paths_seen = 0
        self.reached = 0
        self.vac = []
        self.muted = 0
        self.discovering = 0
        self.base = None
        self.only = None

    def prove(self, ctx, name, goal, **kw):
        if self.only and self.only not in name and not kw.get("sync"):
            return True          # (an obligation of another property)
        if self.muted or ctx.pos < len(ctx.dec):
            return True          # discovery run, or already decided on the path this one branched off from
        return self.E.obligation(ctx, "%s/%s" % (self.unit.name, name), goal, **kw)

    def paths(self, run, limit=400, fork=False):
        """Every path of run(ctx).  With fork, a path continues from the branching point in a process of its own."""
        from pyvc import par
        self.E.forking = fork and par.on()
        if self.E.forking:
            self.E.on_split = self.split
        for ctx, oc in self.E.paths(run, limit):
            self.paths_seen += 1
            yield ctx, oc
        self.E.forking = False

    def split(self):
        from pyvc import solver as S
        self.paths_seen = self.reached = 0
        self.vac = []
        self.base = dict(S.STATS)

    def reach(self, ctx, what="path"):
        """Vacuity guard: the hypotheses of this path must not be contradictory."""
        from pyvc import solver as S
        r, _ = S.check(ctx.hyps(), timeout=3000, rounds=2)
        self.vac.append(dict(unit=self.unit.name, what=what, hypotheses=r))
        if r != "unsat":
            self.reached += 1
        return r != "unsat"

    def reach_with(self, ctx, cond, what):
        """Vacuity guard for one case of a contract."""
        from pyvc import solver as S
        from pyvc.term import zb
        r, _ = S.check(ctx.hyps() + [zb(cond)], timeout=3000, rounds=2)
        self.vac.append(dict(unit=self.unit.name, what=what, hypotheses=r))
        return r != "unsat"

    def no_raise(self, ctx, oc, name="does not raise"):
        """On a path that ends in an exception the contract (normal return) fails."""
        if oc[0] == "raise":
            # (a loop that a summary says may run zero times leaves its variables unset: not held against the code)
            self.prove(ctx, "%s (%s)" % (name, oc[1].cls), False, **(dict(note="witness") if "UnboundLocal" in str(oc[1].cls) else {}))
            return False
        return True


def run_unit(u):
    """Generate and decide the obligations of one unit."""
    from pyvc import engine as EN, solver as S, par
    S.reset()
    tu = time.time()
    out = dict(obs=[], und=[], fns=[], vac=[], trusted=[])
    try:
        E = EN.Engine()
        E.timeout = u.timeout
    except Exception:
        out["und"].append(dict(unit=u.name, why="engine: " + traceback.format_exc()[-600:]))
        return out
    ctxu = U(u, E)
    ended = None
    try:
        u.fn(ctxu)
        ended = "ok"
    except EN.Unsupported as e:
        out["und"].append(dict(unit=u.name, why="outside the supported subset: %s" % str(e)[:400]))
        if os.environ.get("VERIF_TRACE"):
            traceback.print_exc()
    except Exception as e:
        out["und"].append(dict(unit=u.name, why="generator error: " + traceback.format_exc()[-700:]))
        if os.environ.get("VERIF_TRACE"):
            traceback.print_exc()
    E.collect()
    for r in E.results:
        r["unit"] = u.name
        for k in ("goal", "model", "backend"):
            if r.get(k) is not None:
                r[k] = str(r[k])
    base = ctxu.base or {k: 0 for k in S.STATS}
    out.update(obs=E.results, vac=ctxu.vac, trusted=sorted(set(u.trusted) | set(E.trusted)), stats={k: S.STATS[k] - base[k] for k in base},
               reached=ctxu.reached, seen=ctxu.paths_seen)
    par.release()
    for c in E.children:
        o = c.get()
        if o is None:
            out["und"].append(dict(unit=u.name, why="a path's process died"))
            continue
        for k in ("obs", "vac", "und"):
            out[k] = out[k] + o[k]
        out["reached"] += o["reached"]
        out["seen"] += o["seen"]
        out["trusted"] = sorted(set(out["trusted"]) | set(o["trusted"]))
        for k, v in o["stats"].items():
            out["stats"][k] += v
    if E.outlet is not None:
        par.deliver(E.outlet, out)
    if ended and not out["und"]:
        if not out["obs"]:
            out["und"].append(dict(unit=u.name, why="no obligation was generated"))
        elif not out["reached"]:
            out["und"].append(dict(unit=u.name, why="vacuous: no reachable path (%d explored)" % out["seen"]))
            for r in out["obs"]:
                r["status"] = "unknown"
        else:
            out["fns"] = u.functions
    if os.environ.get("VERIF_TRACE"):
        print("unit %s: %d obligations, %.1f s" % (u.name, len(out["obs"]), time.time() - tu), file=sys.stderr)
    return out


def run_units(prop, units, bounded=(), assumptions=()):
    from pyvc import par, solver as S
    t0 = time.time()
    obs, und, fns, trusted, ass, vac = [], [], [], set(TRUSTED), list(assumptions), []
    only = os.environ.get("VERIF_UNITS")
    units = [u for u in units if not only or any(o in u.name for o in only.split(","))]
    slots = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    st = dict(S.STATS)
    if slots > 1:
        par.start(slots)
        tasks = [(u, par.Task(lambda u=u: run_unit(u), group=True)) for u in units]
        outs = [(u, t.get(t0 + BUDGET)) for u, t in tasks]
    else:
        outs = [(u, run_unit(u)) for u in units]
    for u, o in outs:
        if o is None:
            und.append(dict(unit=u.name, why="the proof budget was used up, or the process of this unit died"))
            continue
        obs += o["obs"]
        und += o["und"]
        vac += o["vac"]
        fns += [f for f in o["fns"] if f not in fns]
        trusted |= set(o["trusted"])
        ass += [a for a in u.assumptions if a not in ass]
        for k, v in o.get("stats", {}).items():
            st[k] += v
    return dict(property=prop, obligations=obs, undecided=und, functions=fns, trusted=sorted(trusted), assumptions=ass, vacuity=vac,
                bounded=list(bounded), solver_time=round(st["z3_s"] + st["cvc5_s"], 2), solver_queries=st["queries"] + st["cvc5_queries"],
                wall=round(time.time() - t0, 2))


def prove_property(prop):
    try:
        m = importlib.import_module("contracts." + prop.lower())
    except ModuleNotFoundError as e:
        if "contracts." + prop.lower() not in str(e):
            raise
        return dict(property=prop, obligations=[], undecided=[dict(unit="all", why="no contracts written")], functions=[], trusted=[],
                    assumptions=[], wall=0, solver_time=0)
    return m.prove()

"""Symbolic execution of the Python files of the module: the real source is run with
numbers that are z3 terms; every truth value that depends on them forks the path.
Counterexamples and path witnesses are run again with plain Python numbers."""
import importlib.util
import json
import os
import sys
import time
import traceback
from fractions import Fraction
import z3

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


class Infeasible(BaseException):
    pass


class Failed(BaseException):
    pass


class Budget(BaseException):
    pass


CTX = None


def term(x):
    if isinstance(x, (Sym, SymBool)):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        x = Fraction(x)
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    return None


def both(a, b):
    a, b = a.t, term(b)
    if b is None or z3.is_bool(b):
        return None
    if a.sort() != b.sort():
        a, b = [z3.ToReal(x) if z3.is_int(x) else x for x in (a, b)]
    return a, b


class SymBool:
    __slots__ = ["t"]

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return CTX.branch(self.t)

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def __and__(self, o):
        return SymBool(z3.And(self.t, term(o)))

    def __or__(self, o):
        return SymBool(z3.Or(self.t, term(o)))

    __rand__, __ror__ = __and__, __or__

    # used as a plain value
    def __eq__(self, o):
        return bool(self) == o

    def __ne__(self, o):
        return bool(self) != o

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __str__(self):
        return str(bool(self))

    __repr__ = __str__


class Sym:
    """A symbolic integer or real."""
    __slots__ = ["t"]
    __array_priority__ = 0

    def __init__(self, t):
        self.t = t

    def __hash__(self):
        return 0                     # equal numbers have equal hashes; comparison decides

    def concrete(self):
        if not z3.is_int(self.t):
            raise TypeError("a symbolic real has no fixed value")
        return CTX.concretise(self.t)

    def __index__(self):
        return self.concrete()

    def __int__(self):
        return self.concrete()

    def __str__(self):
        return str(self.concrete())

    __repr__ = __str__

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __bool__(self):
        return CTX.branch(self.t != 0)


def _op(name, f):
    def fw(self, o):
        p = both(self, o)
        return NotImplemented if p is None else Sym(f(p[0], p[1]))

    def bw(self, o):
        p = both(self, o)
        return NotImplemented if p is None else Sym(f(p[1], p[0]))
    setattr(Sym, "__%s__" % name, fw)
    setattr(Sym, "__r%s__" % name, bw)


for _n, _f in dict(add=lambda a, b: a + b, sub=lambda a, b: a - b, mul=lambda a, b: a * b).items():
    _op(_n, _f)
_op("truediv", lambda a, b: (z3.ToReal(a) if z3.is_int(a) else a) / (z3.ToReal(b) if z3.is_int(b) else b))
Sym.__neg__ = lambda self: Sym(-self.t)
Sym.__pos__ = lambda self: self
Sym.__abs__ = lambda self: Sym(z3.If(self.t < 0, -self.t, self.t))


def _divmod(self, o, what):
    p = both(self, o)
    if p is None or not (z3.is_int(p[0]) and z3.is_int_value(z3.simplify(p[1])) and z3.simplify(p[1]).as_long() > 0):
        return NotImplemented
    return Sym(p[0] / p[1] if what else p[0] % p[1])


Sym.__floordiv__ = lambda self, o: _divmod(self, o, True)
Sym.__mod__ = lambda self, o: _divmod(self, o, False)


def _cmp(name, f, other):
    def g(self, o):
        p = both(self, o)
        return other if p is None else SymBool(f(p[0], p[1]))
    setattr(Sym, "__%s__" % name, g)


_cmp("eq", lambda a, b: a == b, False)
_cmp("ne", lambda a, b: a != b, True)
for _n, _f in dict(lt=lambda a, b: a < b, le=lambda a, b: a <= b, gt=lambda a, b: a > b, ge=lambda a, b: a >= b).items():
    _cmp(_n, _f, NotImplemented)


class Ctx:
    """One path.  `values` switches to plain numbers (replay)."""

    def __init__(self, stats, tier, prefix=(), values=None):
        self.stats, self.tier, self.values = stats, tier, values
        self.prefix, self.taken, self.alternatives = list(prefix), [], []
        self.solver = z3.Solver()
        self.solver.set("timeout", 60000)
        self.vars, self.fail, self.checks = {}, None, 0
        self.lines, self.funcs = 0, set()

    # inputs
    def int(self, name, lo, hi):
        if self.values is not None:
            return self.values[name]
        v = z3.Int(name)
        self.vars[name] = v
        self.solver.add(lo <= v, v <= hi)
        return Sym(v)

    def real(self, name):
        if self.values is not None:
            return Fraction(self.values[name])
        v = z3.Real(name)
        self.vars[name] = v
        return Sym(v)

    def choose(self, name, n):
        return int(self.int(name, 0, n - 1))

    # solver
    def ask(self, *a):
        t = time.time()
        r = self.solver.check(*a)
        self.stats["time"] += time.time() - t
        self.stats[str(r)] += 1
        if r == z3.unknown:
            raise Budget("undecided query")
        return r == z3.sat

    def branch(self, t):
        t = z3.simplify(t)
        if z3.is_true(t) or z3.is_false(t):
            return z3.is_true(t)
        n = len(self.taken)
        if n < len(self.prefix):
            v = self.prefix[n]
        else:
            if n > 2000:
                raise Budget("path too long")
            v = self.ask(t)
            if v and self.ask(z3.Not(t)):
                self.alternatives.append(self.taken + [False])
        self.taken.append(v)
        self.solver.add(t if v else z3.Not(t))
        return v

    def concretise(self, t):
        while True:
            s = z3.simplify(t)
            if z3.is_int_value(s):
                return s.as_long()
            n = len(self.taken)
            if n < len(self.prefix):
                v = self.prefix[n]
                if isinstance(v, int) and not isinstance(v, bool):
                    self.taken.append(v)
                    self.solver.add(t == v)
                    return v
                raise Budget("the execution is not deterministic")
            values = []
            while len(values) < 300 and self.ask(*[t != v for v in values]):
                values.append(self.solver.model().eval(t, model_completion=True).as_long())
            if not values:
                raise Infeasible()
            if len(values) == 300:
                raise Budget("unbounded number used as a plain one")
            for v in values[1:]:
                self.alternatives.append(self.taken + [v])
            self.taken.append(values[0])
            self.solver.add(t == values[0])
            return values[0]

    def model(self):
        m = self.solver.model()
        r = {}
        for n, v in self.vars.items():
            x = m.eval(v, model_completion=True)
            r[n] = x.as_long() if z3.is_int(v) else str(x.as_fraction() if z3.is_rational_value(x) else x.approx(20).as_fraction())
        return r

    def check(self, cond, label):
        self.checks += 1
        if isinstance(cond, SymBool):
            t = z3.simplify(cond.t, som=True)
            if z3.is_true(t):
                self.stats["normal form"] += 1
                return
            if self.ask(z3.Not(t)):
                self.fail = (label, self.model())
                raise Failed()
            self.solver.add(t)
        elif not cond:
            self.fail = (label, None)
            raise Failed()

    def equal(self, a, b, label):
        if isinstance(a, Sym) or isinstance(b, Sym):
            p = both(a, b) if isinstance(a, Sym) else both(b, a)
            if p is None:
                self.check(False, label)
            self.check(SymBool(z3.simplify(p[0] - p[1], som=True) == 0), label)
        else:
            self.check(a == b, label)


def run(entry, ctx, repo, trace=True):
    """Runs one path; returns (status, label, inputs)."""
    global CTX
    CTX = ctx

    def local(frame, event, arg):
        if event == "line":
            ctx.lines += 1
            if ctx.lines > 200000:
                raise Budget("path too long")
        return local

    def tracer(frame, event, arg):
        c = frame.f_code
        if not c.co_filename.startswith(repo):
            return None
        if c.co_name != "<module>":
            ctx.funcs.add(os.path.relpath(c.co_filename, repo) + ":" + c.co_qualname)
        return local
    try:
        sys.settrace(tracer)
        try:
            entry(ctx)
        finally:
            sys.settrace(None)
        return "ok", None
    except Failed:
        return "fail", ctx.fail[0]
    except Infeasible:
        return "infeasible", None
    except Budget as e:
        return "bad", str(e)
    except Exception as e:
        tb = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(repo)]
        return "fail", "raises %s" % type(e).__name__ + (" in %s" % tb[-1].name if tb else "")


def explore(entry, repo, tier, stats, budget):
    work, res, end = [[]], [], time.time() + budget
    while work:
        if time.time() > end:
            res.append(("bad", "time limit", None, None))
            break
        ctx = Ctx(stats, tier, work.pop())
        status, label = run(entry, ctx, repo)
        work += ctx.alternatives
        stats["checks"] += ctx.checks
        stats["lines"] += ctx.lines
        stats["funcs"] |= ctx.funcs
        m = None
        if status in ("ok", "fail"):
            m = ctx.fail[1] if ctx.fail and ctx.fail[1] is not None else None
            if m is None:
                if not ctx.ask():
                    continue
                m = ctx.model()
        if status != "infeasible":
            res.append((status, label, m, ctx.taken))
    return res


def main(prop, tier, tier_name, cfg, seed, repo, verbose):
    t0 = time.time()
    spec = importlib.util.spec_from_file_location("pyharness", os.path.join(ROOT, cfg["python"]))
    h = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(h)
    h.REPO = repo
    stats = dict(sat=0, unsat=0, unknown=0, time=0.0, checks=0, lines=0, funcs=set())
    stats["normal form"] = 0
    bad, viols, notrep, ents, val = [], [], [], {}, dict(total=0, ok=0)
    npaths = replayed = 0
    for name, entry in h.ENTRIES.items():
        if name.endswith("_T") and not tier:
            continue
        res = explore(entry, repo, tier, stats, 250)
        ents[name] = dict(paths=len(res), completed=sum(1 for r in res if r[0] == "ok"))
        npaths += len(res)
        if not ents[name]["completed"] and not any(r[0] == "fail" for r in res):
            bad.append("%s: nothing explored" % name)
        seen = set()
        for status, label, m, _ in res:
            if status == "bad":
                bad.append("%s: %s" % (name, label))
                continue
            if status == "fail" and label in seen:
                continue
            # the same inputs as plain numbers
            c = Ctx(stats, tier, values=m)
            s2, l2 = run(entry, c, repo)
            if status == "fail":
                replayed += 1
                if s2 == "fail":
                    seen.add(label)
                    viols.append((name, label, l2, m))
                else:
                    notrep.append("%s: %s %s" % (name, label, json.dumps(m)))
            else:
                val["total"] += 1
                if s2 == "ok":
                    val["ok"] += 1
                else:
                    bad.append("%s: plain run of a path witness ends with %s (%s)" % (name, l2, json.dumps(m)))
    wall = time.time() - t0
    cov = dict(states=npaths, transitions=stats["lines"], traces_validated_against_impl=val["ok"], samples=0, entries=ents,
               checks_discharged=stats["checks"], closed_by_normal_form=stats["normal form"],
               queries={k: stats[k] for k in ("sat", "unsat", "unknown")}, solver_time_s=round(stats["time"], 2),
               solver="z3 (python bindings of the tooling environment)",
               bounds=cfg["bounds"][tier_name], outside_bounds=cfg["outside"],
               functions_encoded=sorted(stats["funcs"]), functions_encoded_total=len(stats["funcs"]),
               path_witnesses=val, counterexamples_replayed=replayed, undecided=len(bad),
               explanation="states = symbolic paths explored to their end (each covers all inputs satisfying its path condition); "
                           "transitions = executed source lines of the module's Python files; traces = path witnesses executed again with plain numbers with the same outcome")
    ev = dict(property=prop, tier=tier_name, seed=seed, level="model_checking", coverage=cov, wall_s=round(wall, 2),
              assumptions=cfg.get("assumptions", []), violations=len(viols))
    os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d paths, %d checks, queries %s, solver %.1fs, witnesses %s, wall %.1fs" %
          (prop, tier_name, npaths, stats["checks"], cov["queries"], stats["time"], val, wall))
    if verbose:
        print(json.dumps(ents, indent=1))
        print("\n".join(sorted(stats["funcs"])))
    for n, (e, label, l2, m) in enumerate(viols):
        path = os.path.join(ROOT, "evidence", "replay", "%s_%s_%d.json" % (prop, tier_name, n))
        with open(path, "w") as f:
            json.dump(dict(property=prop, entry=e, label=label, source=cfg["python"], native_outcome=l2, inputs=m, tier=tier,
                           how="pysym.run(ENTRIES[entry], Ctx(stats, tier, values=inputs), '/repo')"), f, indent=1)
        print("  %s: %s  [%s]  inputs: %s" % (e, label, l2, json.dumps(m)[:500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    for b in sorted(set(bad))[:20]:
        print("INCONCLUSIVE: " + b[:800])
    for b in notrep[:20]:
        print("NOT REPRODUCED: " + b[:800])
    return 1 if viols else 2 if bad or notrep else 0

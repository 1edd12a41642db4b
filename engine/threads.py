"""Two threads: vp_threads(f, a, g, b) of the harness.

Both functions are executed from the same state, each in a process of its own,
with all accesses to shared memory recorded between the synchronisation events
(std::call_once, guards of local statics, mutexes).  The schedule is then left
to the solver: the times of all events are variables, and so is which thread
runs the body of each once-only region.  A query asks for a schedule in which
two accesses to the same bytes, one of them a write, happen at the same time.
Afterwards the threads are executed one after the other, so that the harness
can look at the results."""
import os
import pickle
import time

import z3

import core
import stubs
import trans
from core import E, CxxThrow, EngineError, MemError, PathEnd, SHIFT

NAMES = ("ld", "ldf", "st", "memcpy", "memset")
ORIG = {n: getattr(core, n) for n in NAMES}
SKIP = ("_ZSt11__once_call", "_ZSt15__once_callable")
TR = None


class Trace:
    def __init__(self, m):
        self.m = m
        self.base = E.nextid
        self.names = {}
        self.count = {}
        self.regions = []       # open once-only regions
        self.events = []        # (kind, location)
        self.segs = [({}, ())]  # (object -> [read bytes, written bytes, label], regions)
        self.mute = 0
        self.tls = set(SKIP) | {n for n, g in m.globals.items() if trans.L.IsThreadLocal(g)}

    def ident(self, o):
        """name of the object that is the same in both threads; None: private to the thread"""
        b = o.base
        if b in self.names:
            return self.names[b]
        r = None
        if o.kind == "global":
            r = None if o.name in self.tls else ("global", o.name)
        elif (b >> SHIFT) < self.base and o.kind in ("heap", "stack"):
            r = (o.kind, b >> SHIFT)
        self.names[b] = r
        return r

    def loc(self, a):
        o = E.objs.get(a >> SHIFT)
        if o is None:
            raise MemError("synchronisation on invalid address")
        return (self.ident(o) or ("private", o.base >> SHIFT), a - o.base)

    def access(self, a, n, write):
        o = E.objs.get(a >> SHIFT) if type(a) is int else None
        if o is None:
            return
        i = self.ident(o)
        if i is None or self.mute:
            return
        e = self.segs[-1][0].get(i)
        if e is None:
            e = self.segs[-1][0][i] = [0, 0, o.name]
        e[1 if write else 0] |= ((1 << n) - 1) << (a - o.base)

    def allocated(self, a, kind):
        if kind == "heap":
            if self.regions:
                f = self.regions[-1]
                k = self.count[f] = self.count.get(f, 0) + 1
                self.names[a] = ("once", f, k)
            else:
                self.names[a] = None
        elif kind == "stack":
            self.names[a] = None

    def event(self, kind, a):
        l = self.loc(a)
        if kind == "exit" and self.regions and self.regions[-1] == l:
            self.regions.pop()
        self.events.append((kind, l, tuple(self.regions)))
        if kind == "enter":
            self.regions.append(l)
        self.segs.append(({}, tuple(self.regions)))

    def install(self):
        def ld(a, n):
            self.access(a, n, False)
            return ORIG["ld"](a, n)

        def ldf(a, n):
            self.access(a, n, False)
            return ORIG["ldf"](a, n)

        def st(a, v, n):
            self.access(a, n, True)
            ORIG["st"](a, v, n)

        def memcpy(d, s, n):
            if type(n) is int and n:
                self.access(s, n, False)
                self.access(d, n, True)
            return ORIG["memcpy"](d, s, n)

        def memset(d, v, n):
            if type(n) is int and n:
                self.access(d, n, True)
            return ORIG["memset"](d, v, n)

        def lda(a, n):
            v = ORIG["ld"](a, n)
            if v and a in stubs.GUARDS:
                self.event("done", a)
            return v

        new = dict(ld=ld, ldf=ldf, st=st, memcpy=memcpy, memset=memset)
        for n, f in new.items():
            for mod in (trans, stubs):
                setattr(mod, n, f)
            self.m.ns[n] = f
        self.m.ns["lda"] = lda

        # objects come into being when they are first mentioned; their static
        # initialisation is no access of the thread
        def muted(f):
            def g(*a):
                self.mute += 1
                try:
                    return f(*a)
                finally:
                    self.mute -= 1
            return g
        for n in ("glob_addr", "ext_global", "translate"):
            setattr(self.m, n, muted(getattr(self.m, n)))
        alloc, free = E.alloc, E.free

        def alloc2(size, name="", kind="heap"):
            a = alloc(size, name, kind)
            self.allocated(a, kind)
            return a

        def free2(a):
            o = E.objs.get(a >> SHIFT) if type(a) is int and a else None
            if o is not None:
                self.access(o.base, o.size, True)
            free(a)
        E.alloc, E.free = alloc2, free2


def solo(m, f, a):
    """the trace of one thread that runs alone from the present state"""
    global TR
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            E.outfd = os.open("/dev/null", os.O_WRONLY)
            t = TR = Trace(m)
            t.install()

            def nofork(*a):
                raise EngineError("symbolic branch inside of a thread")
            E.do_fork = nofork
            note = None
            try:
                m.icall(f, a)
            except CxxThrow:
                note = "exception"
            except PathEnd as ex:
                note = "engine " + str(ex) if ex.args and ex.args[0] in ("engine", "steps") else "end"
            except MemError:
                note = "end"
            except Exception as ex:
                note = "engine %s %s" % (type(ex).__name__, ex)
            data = pickle.dumps((note, t.events, t.segs, sorted(E.funcs_used)))
            with os.fdopen(w, "wb") as o:
                o.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as i:
        data = i.read()
    os.waitpid(pid, 0)
    if not data:
        raise EngineError("no trace of a thread")
    note, events, segs, funcs = pickle.loads(data)
    if note and note.startswith("engine"):
        raise EngineError("thread: " + note)
    E.funcs_used.update(funcs)
    return events, segs


def unlocked(events, k):
    """index of the event that ends the critical section begun at k"""
    l, depth = events[k][1], 0
    for j in range(k, len(events)):
        if events[j][1] == l:
            depth += {"lock": 1, "rlock": 1, "unlock": -1}.get(events[j][0], 0)
            if depth == 0:
                return j
    return None


def encode(traces):
    """constraints on the times of the events: (solver, times, enabled)"""
    s = z3.Solver()
    s.set("timeout", E.timeout)
    T = []
    bodies = [{}, {}]
    for i, (events, segs) in enumerate(traces):
        t = [z3.Real("t%d_%d" % (i, k)) for k in range(len(events))]
        for x, y in zip(t, t[1:]):
            s.add(x < y)
        T.append(t)
        for k, (kind, l, reg) in enumerate(events):
            if kind == "enter":
                # the matching end of the body
                j = next((j for j in range(k + 1, len(events)) if events[j][0] == "exit" and events[j][1] == l), None)
                bodies[i].setdefault(l, (k, j))
    both = [l for l in bodies[0] if l in bodies[1]]
    own = {l: z3.Bool("first %s" % (l,)) for l in both}

    def enabled(i, reg):
        return z3.And([own[l] if i == 0 else z3.Not(own[l]) for l in reg if l in own])

    for l in both:
        (a0, b0), (a1, b1) = bodies[0][l], bodies[1][l]
        e = [enabled(0, traces[0][0][a0][2]), enabled(1, traces[1][0][a1][2])]
        for i in (0, 1):
            mine, (a, b), (oa, ob) = (own[l] if i == 0 else z3.Not(own[l])), bodies[i][l], bodies[1 - i][l]
            # this thread runs the body: it comes first, and the call of the other one returns after the end
            c = [T[i][a] < T[1 - i][oa]]
            if b is not None and ob is not None:
                c.append(T[i][b] < T[1 - i][ob])
            s.add(z3.Implies(z3.And(e[0], e[1], mine), z3.And(c)))
            # only this thread gets there
            s.add(z3.Implies(z3.And(e[i], z3.Not(e[1 - i])), mine))
            for k, (kind, m, reg) in enumerate(traces[1 - i][0]):
                if kind == "done" and m == l and b is not None:
                    s.add(z3.Implies(z3.And(e[i], mine, enabled(1 - i, reg)), T[i][b] < T[1 - i][k]))
    # critical sections
    sect = [[], []]
    for i, (events, segs) in enumerate(traces):
        for k, (kind, l, reg) in enumerate(events):
            if kind in ("lock", "rlock"):
                sect[i].append((l, k, unlocked(events, k), kind == "rlock", enabled(i, reg)))
    for l, a, b, ra, ea in sect[0]:
        for m, c, d, rb, eb in sect[1]:
            if l == m and not (ra and rb):
                o = []
                if b is not None:
                    o.append(T[0][b] < T[1][c])
                if d is not None:
                    o.append(T[1][d] < T[0][a])
                s.add(z3.Implies(z3.And(ea, eb), z3.Or(o)))
    return s, T, enabled


def races(traces):
    s, T, enabled = encode(traces)
    at = z3.Real("now")
    pairs = []
    for a, (sa, ra) in enumerate(traces[0][1]):
        for b, (sb, rb) in enumerate(traces[1][1]):
            for o in sa.keys() & sb.keys():
                x, y = sa[o], sb[o]
                if x[1] & (y[0] | y[1]) or x[0] & y[1]:
                    pairs.append((a, b, o, x[2], ra, rb))
    found = []
    while pairs:
        def when(i, k):
            c = []
            if k > 0:
                c.append(T[i][k - 1] < at)
            if k < len(T[i]):
                c.append(at < T[i][k])
            return c
        sel = [z3.And([enabled(0, p[4]), enabled(1, p[5])] + when(0, p[0]) + when(1, p[1])) for p in pairs]
        s.push()
        s.add(z3.Or(sel))
        t = time.time()
        r = str(s.check())
        E.qtime += time.time() - t
        E.nq[r] += 1
        if r == "unknown":
            raise PathEnd("undecided", "schedule query")
        hit = None
        if r == "sat":
            m = s.model()
            hit = next(p for p, c in zip(pairs, sel) if z3.is_true(m.eval(c, True)))
        s.pop()
        if hit is None:
            break
        found.append(hit)
        pairs = [p for p in pairs if p[2] != hit[2]]
    return found, sum(len(t[0]) for t in traces)


def run(m, f, a, g, b):
    f, a, g, b = [E.concretize(x) for x in (f, a, g, b)]
    traces = [solo(m, f, a), solo(m, g, b)]
    found, n = races(traces)
    E.checks.append("no data race in any schedule")
    for p in found[:3]:
        k = p[2]
        while k[0] == "once":
            k = k[1][0]
        E.candidate("data race on %s" % (p[3] if k[0] != "global" else k[1])[:150], None)
    for k, x in ((f, a), (g, b)):
        m.icall(k, x)

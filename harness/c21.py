"""C21: drives the Python extension; speaks the same worker protocol as the C++ harnesses.
usage: c21.py EXT.so REF --suite S --from A --to B --seed N --out FILE [--thorough] | --list"""
import sys, os, json, random, hashlib, gc, math, subprocess, importlib.util, importlib.machinery, threading, ctypes, faulthandler

EXT, REF = sys.argv[1], sys.argv[2]
QUICK = {"faithful": 500, "calls": 800, "errors": 320, "leaks": 50, "lifetime": 240, "threads": 48}
THOROUGH = {"faithful": 3000, "calls": 6000, "errors": 2000, "leaks": 250, "lifetime": 1500, "threads": 300}
if "--list" in sys.argv:
    for k in QUICK: print(k, QUICK[k], THOROUGH[k])
    sys.exit(0)
def load():
    l = importlib.machinery.ExtensionFileLoader("nikfemm", EXT); s = importlib.util.spec_from_loader("nikfemm", l); m = importlib.util.module_from_spec(s); l.exec_module(m); return m
nikfemm = load()
if "--probe" in sys.argv: sys.exit(0)
Sim, System = nikfemm.MultiLayerCurrentDensitySimulation, nikfemm.System

class Fail(Exception): pass
class Ctx:
    def __init__(self, rng, thorough): self.rng, self.thorough, self.evals, self.sig, self.nt, self.notes, self.text, self.bad = rng, thorough, 0, 0, False, {}, "", []
    def check(self, ok, key, msg):
        self.evals += 1
        if not ok and len(self.bad) < 5: self.bad.append((key, msg))
    def note(self, k, n=1): self.notes[k] = self.notes.get(k, 0) + n
    def nontrivial(self, o): self.nt = True; self.sig = int(hashlib.sha256(repr(o).encode()).hexdigest()[:16], 16)

# a scenario is a list of calls; the same list is made from Python and by the reference
def scenario(r, big=False):
    n = r.randint(1, 3); sc = 10 ** r.uniform(-3, 2) if r.random() < .5 else 1.; num = lambda v: int(v) if r.random() < .3 and v == int(v) else float(v); unit = r.choice([1, 1, 1, 10 ** 10])   # whole numbers, also beyond 32 bits
    calls = [("N", n, [num(r.choice([1, 2, .5, 7e-5, 3])) for _ in range(n)])]; boxes = []
    for l in range(n):
        w, h = r.uniform(1, 4) * sc, r.uniform(.5, 2) * sc; ox, oy = r.uniform(-3, 3) * sc, r.uniform(-3, 3) * sc
        if r.random() < .3: w, h, ox, oy = float(unit * r.randint(1, 4)), float(unit * r.randint(1, 3)), float(unit * r.randint(-4, 4)), float(unit * r.randint(-4, 4))
        k = r.random()
        if k < .5: calls.append(("R", [num(ox), num(oy)], [num(ox + w), num(oy + h)], l))
        elif k < .8: calls.append(("P", [[num(ox), num(oy)], [num(ox + w), num(oy)], [num(ox + w), num(oy + h)], [num(ox), num(oy + h)]], l))
        else: m = r.randint(3, 9); ph = r.uniform(0, 6); calls.append(("P", [[ox + w / 2 + w / 2 * math.cos(ph + 2 * math.pi * i / m), oy + h / 2 + w / 2 * math.sin(ph + 2 * math.pi * i / m)] for i in range(m)], l))
        calls.append(("G", [ox + w / 2, oy + h / 2 + .01 * h], float(r.choice([1, 10, 5.95e7, .1, 3e10])), l)); boxes.append((ox, oy, w, h, k))
        if r.random() < .25: calls.append(("R", [ox + .4 * w, oy + .4 * h], [ox + .45 * w, oy + .45 * h], l))
    whole = lambda p: [num(round(v) if abs(v) > 1e6 else v) for v in p]
    at = lambda l: whole([boxes[l][0] + boxes[l][2] * r.uniform(.25, .38), boxes[l][1] + boxes[l][3] * (.5 if boxes[l][4] >= .8 else r.uniform(.2, .38))])
    for l in range(n - 1): calls.append(("I", at(l), at(l + 1), l, l + 1, num(r.choice([1, 10, .25, 5 * 10 ** 9]))))
    area = max(b[2] * b[3] for b in boxes) * 10 ** r.uniform(-2.5 if big else -1.7, -.5); k = r.choice([3, 3, 3, 2]) ; calls.append(("M", [r.random() < .3, area, num(r.choice([20, 25, 0, 30, 33]))][:k]))
    area = num(round(area)) if area > 2 else area; calls[-1] = ("M", calls[-1][1][:1] + [area] + calls[-1][1][2:]) if k > 1 else calls[-1]
    a, b = at(0), [boxes[n - 1][0] + boxes[n - 1][2] * r.uniform(.55, .7), boxes[n - 1][1] + boxes[n - 1][3] * .6]; calls.append(("V", a, num(r.choice([1, -5, 2.5, 2 ** 40 + 1, -3 * 10 ** 9])), 0)); calls.append(("V", b, num(0), n - 1)); calls.append(("S",))
    if r.random() < .3: calls.append(("S",))
    if r.random() < .3: calls.append(("V", at(0), 3., 0)); calls.append(("S",))
    return calls
def text(calls):
    f = lambda v: float(v).hex(); o = []
    for c in calls:
        if c[0] == "N": o.append("N %d %s" % (c[1], " ".join(f(d) for d in c[2])))
        elif c[0] == "R": o.append("R %s %s %s %s %d" % (f(c[1][0]), f(c[1][1]), f(c[2][0]), f(c[2][1]), c[3]))
        elif c[0] == "P": o.append("P %d %d %s" % (c[2], len(c[1]), " ".join("%s %s" % (f(p[0]), f(p[1])) for p in c[1])))
        elif c[0] == "G": o.append("G %s %s %s %d" % (f(c[1][0]), f(c[1][1]), f(c[2]), c[3]))
        elif c[0] == "I": o.append("I %s %s %s %s %d %d %s" % (f(c[1][0]), f(c[1][1]), f(c[2][0]), f(c[2][1]), c[3], c[4], f(c[5])))
        elif c[0] == "M": o.append("M %d %s" % (len(c[1]), " ".join([str(int(c[1][0]))] * (len(c[1]) > 0) + [f(x) for x in c[1][1:]])))
        elif c[0] == "V": o.append("V %s %s %s %d" % (f(c[1][0]), f(c[1][1]), f(c[2]), c[3]))
        else: o.append("S")
    return "\n".join(o) + "\n"
def drive(calls, cls=None):
    """makes the calls; returns what they returned, or 'E' and the call that raised"""
    out = []; s = y = None
    for c in calls:
        try:
            if c[0] == "N": s = (cls or Sim)(c[1], c[2])
            elif c[0] == "R": s.draw_rectangle(c[1], c[2], c[3])
            elif c[0] == "P": s.draw_polygon(c[1], c[2])
            elif c[0] == "G": s.draw_region(c[1], c[2], c[3])
            elif c[0] == "I": s.add_interconnection(*c[1:])
            elif c[0] == "M": r = s.generate_system(*c[1]); y = r[0]; out.append(("M",) + tuple(r[1:]))
            elif c[0] == "V": s.set_voltage(y, *c[1:])
            else: out.append(("S",) + tuple(s.solve(y)))
        except Exception as e: out.append(("E", c[0], type(e).__name__, str(e))); break
    return out
def reference(calls):
    p = subprocess.run([REF], input=text(calls), capture_output=True, text=True, env={k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}, timeout=120); L = p.stdout.split("\n"); i = 0; out = []; n = calls[0][1]
    while i < len(L):
        w = L[i].split(); i += 1
        if not w: continue
        if w[0] == "F": return out
        if w[0] == "E": out.append(("E", w[1])); return out
        if w[0] == "L":
            pts, tris = [], []; off = 0; i -= 1
            for _ in range(n):
                _, a, b = L[i].split(); a, b = int(a), int(b); i += 1
                pts += [tuple(float.fromhex(x) for x in L[i + k].split()) for k in range(a)]; i += a
                tris.append([tuple(int(x) + off for x in L[i + k].split()) for k in range(b)]); i += b; off += a
            out.append(("M", tris, pts)); sizes = [t for t in tris]
        if w[0] == "S":
            a, b = int(w[1]), int(w[2]); out.append(("S", [float.fromhex(x) for x in L[i:i + a]], [float.fromhex(x) for x in L[i + a:i + a + b]])); i += a + b
    raise RuntimeError("the reference ended early: %d %s" % (p.returncode, p.stderr[-500:]))
same = lambda a, b: a == b or (a != a and b != b)
def compare(c, calls, got, ref):
    c.check(len(got) == len(ref) and [g[0] for g in got] == [r[0] for r in ref], "results", "calls returned %s, in C++ %s" % ([g[0] if g[0] != "E" else g for g in got], [r[0] if r[0] != "E" else r for r in ref]))
    mesh = None
    for g, r in zip(got, ref):
        if g[0] != r[0]: continue
        if g[0] == "E": c.check(g[1] == r[1], "raised-elsewhere", "raised in %s, in C++ in %s" % (g[1], r[1])); c.check(g[2] != "SystemError", "broken-error", "%s: %s" % (g[2], g[3])); c.note("refusals of both"); return
        if g[0] == "M":
            mesh = r; c.check([[tuple(t) for t in l] for l in g[1]] == r[1], "triangles", "the triangles differ"); c.check([tuple(p) for p in g[2]] == r[2], "vertices", "the vertices differ"); c.note("vertices compared", len(r[2]))
        else:
            layer = [i for i, l in enumerate(mesh[1]) for _ in range(len(set(v for t in l for v in t)))]; owner = {v: i for i, l in enumerate(mesh[1]) for t in l for v in t}
            c.check(len(g[1]) == len(r[1]) and all(same(v[3], w) for v, w in zip(g[1], r[1])), "voltages", "the voltages differ"); c.check(all((v[1], v[2]) == p for v, p in zip(g[1], mesh[2])), "places", "the places of the voltages differ"); c.check(all(g[1][i][0] == o for i, o in owner.items()), "layers", "the layers of the voltages differ")
            c.check([tuple(t[1:]) for t in g[2]] == [t for l in mesh[1] for t in l], "solution-triangles", "the triangles of the solution differ"); c.check([t[0] for t in g[2]] == [i for i, l in enumerate(mesh[1]) for t in l], "solution-layers", "the layers of the triangles differ")
            c.check(len(g[3]) == len(r[2]) and all(same(v[1], w) for v, w in zip(g[3], r[2])), "power", "the power densities differ"); c.note("voltages compared", len(r[1])); c.note("power densities compared", len(r[2]))
def suite_faithful(c):
    calls = scenario(c.rng, True); c.text = text(calls)[:600]
    if c.rng.random() < .15: k = c.rng.randrange(1, len(calls)); calls.insert(k, calls[k - 1]) if calls[k - 1][0] not in "NI" else None
    if c.rng.random() < .1: calls = [x for x in calls if x[0] != "G"]      # refused by both
    ref = reference(calls); got = drive(calls); compare(c, calls, got, ref)
    if c.rng.random() < .5: c.check(repr(drive(calls)) == repr(got), "repeat", "the same calls again return something else")
    c.nontrivial(text(calls))

# calls with arguments of every kind: they return or raise, and the interpreter goes on
class F(float): pass
class I(int): pass
class L(list): pass
class Odd:
    def __float__(self): raise ValueError("no")
    def __index__(self): return 1
    def __len__(self): return 2
    def __getitem__(self, i): return 1.
def junk(r, d=0):
    k = r.randint(0, 27)
    if k == 0: return None
    if k == 1: return r.choice([True, False])
    if k == 2: return r.choice([0, 1, 2, -1, 3, 10 ** 6, 2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64, -2 ** 63, 10 ** 400, -10 ** 400])
    if k == 3: return r.choice([0., 1., -1., .5, 1e308, -1e308, 1e-308, 5e-324, float("nan"), float("inf"), -float("inf")])
    if k == 4: return r.choice(["", "1", "abc", b"x", "\u20ac"])
    if k == 5: return r.choice([(), (0, 0), (1., 2.)])
    if k == 6: return {}
    if k == 7: return object()
    if k == 8: return F(1.5)
    if k == 9: return I(1)
    if k == 10: return L([0, 1])
    if k == 11: return Odd()
    if k == 12: return 1 + 2j
    if k == 13: return System
    if k == 14: return System()
    if k == 15: return lambda: 1
    if k == 16: return r.choice([[], [1], [1, 2, 3], [[]], [None, None], ["a", "b"], [1, None], [None, 1], [[1, 2]], [float("nan"), 1], [10 ** 400, 0], [True, False]])
    if k == 17 and d < 3: return [junk(r, d + 1) for _ in range(r.randint(0, 4))]
    if k == 18 and d < 3: return tuple(junk(r, d + 1) for _ in range(r.randint(0, 3)))
    if k <= 21: return [r.uniform(-3, 3), r.uniform(-3, 3)]
    if k <= 23: return r.uniform(-3, 3)
    if k == 24: return [[r.uniform(-3, 3), r.uniform(-3, 3)] for _ in range(r.randint(0, 6))]
    return r.randint(0, 2)
# what a call was given, it gives back: references to arguments that are still held after everything else is gone
class Loan:
    def __init__(self): self.kept = []
    def flat(self, o, out):
        out.append(o)
        if isinstance(o, (list, tuple)) and len(out) < 64:
            for x in o: self.flat(x, out)
        return out
    def call(self, f, a):
        objs = []; seen = set()
        for o in self.flat(list(a), [])[1:]:
            if id(o) not in seen: seen.add(id(o)); objs.append(o)
        before = [sys.getrefcount(o) for o in objs]
        try: return f(*a)
        finally:
            after = [sys.getrefcount(o) for o in objs]
            for o, x, z in zip(objs, before, after):
                if z != x: self.kept.append((o, z - x))
    def settle(self, c, n):
        """called when simulations are gone: nothing may hold what was lent (the list of the suspects itself does)"""
        gc.collect(); c.note("calls whose arguments were watched", n); ex = {}
        for o, d in self.kept: ex.setdefault(id(o), [o, 0]); ex[id(o)][1] += d
        for o, d in ex.values():
            c.check(False, "arguments", "the references to the argument %.60r changed by %+d during calls" % (o, d))
class Watched:
    def __init__(self, s, loan): self.s, self.loan, self.n = s, loan, 0
    def __getattr__(self, k):
        f = getattr(self.s, k)
        def g(*a): self.n += 1; return self.loan.call(f, a)
        return g
NAMES = ["generate_system", "solve", "set_voltage", "add_interconnection", "draw_rectangle", "draw_region", "draw_polygon"]
def shape(r, name, y):    # arguments of the right shape, some of them replaced
    p = lambda: [r.uniform(-3, 3), r.uniform(-3, 3)]; l = lambda: r.choice([0, 0, 0, 1, 2, 7])
    a = {"generate_system": lambda: [r.random() < .5, 10 ** r.uniform(-1.5, .5), r.choice([20, 25., 30])][:r.randint(1, 3)], "solve": lambda: [y], "set_voltage": lambda: [y, p(), r.uniform(-3, 3), l()], "add_interconnection": lambda: [p(), p(), l(), l(), r.uniform(.1, 3)], "draw_rectangle": lambda: [p(), p(), l()], "draw_region": lambda: [p(), r.uniform(.1, 3), l()], "draw_polygon": lambda: [[p() for _ in range(r.randint(3, 5))], l()]}[name]()
    if name == "generate_system" and len(a) == 1: a = a + [.5]     # an unbounded mesh is none of our business
    return a
def small(x):
    """no request for millions of triangles (a long thin drawing): that is a question of memory, not of the interface"""
    if type(x) in (list, tuple): return type(x)(small(v) for v in x)
    return 7 if type(x) in (int, float) and 10 < abs(x) < 10 ** 70 else x
def suite_calls(c):
    r = c.rng; sims, ys = [], [System()]; seen = set(); ret = 0; loan = Loan(); watched = 0
    for k in range(r.randint(5, 60)):
        if not sims or r.random() < .1:
            a = [r.choice([1, 2, 3]), None]; a[1] = [1.] * a[0]
            if r.random() < .4: a[r.randint(0, 1)] = junk(r)
            if r.random() < .1: a = [junk(r) for _ in range(r.randint(0, 4))]
            if a and isinstance(a[0], int) and not isinstance(a[0], bool) and a[0] > 100 and isinstance(a[-1], list) and len(a[-1]) == a[0]: continue
            try: s = Sim(*a); sims.append(s); ret += 1; c.check(len(a) == 2, "constructor", "a simulation of %r was made" % (a,))
            except SystemError as e: c.check(False, "system-error", "the constructor with %r: %s" % (a, e))
            except Exception as e: seen.add(type(e).__name__)
            c.evals += 1; continue
        s = r.choice(sims); n = r.choice(NAMES); a = shape(r, n, r.choice(ys)); bad = r.random()
        if bad < .4: a[r.randrange(len(a))] = junk(r)
        elif bad < .5: a = [junk(r) for _ in range(r.randint(0, 6))]
        if n.startswith("draw"): a[:1 if n != "draw_rectangle" else 2] = small(a[:1 if n != "draw_rectangle" else 2])
        if n == "generate_system":
            if len(a) < 2 or not isinstance(a[1], (int, float)): a = (a or [True])[:1] + [.5] + a[2:]
            if isinstance(a[1], (int, float)) and not abs(a[1]) > .02 and a[1] == a[1]: a[1] = .5
        if TRACE: print(n, a, file=sys.stderr, flush=True)
        watched += 1
        try: v = loan.call(getattr(s, n), a); ret += 1
        except SystemError as e: c.check(False, "system-error", "%s%r: %s" % (n, tuple(a), e)); continue
        except Exception as e: seen.add(type(e).__name__); c.check(str(e) != "" or True, "x", ""); continue
        c.evals += 1
        if n == "generate_system": ys.append(v[0]); c.check(len(v) == 3 and isinstance(v[0], System), "returned", "generate_system returned %r" % (type(v),))
        elif n == "solve": c.check(len(v) == 3 and all(isinstance(x, list) for x in v), "returned", "solve returned something else")
        else: c.check(v is None, "returned", "%s returned %r" % (n, v))
    del sims, ys; loan.settle(c, watched); survivor(c); c.note("calls that returned", ret); c.note("kinds of exceptions", len(seen)); c.text = "%d returned, raised %s" % (ret, sorted(seen)); c.nontrivial((c.idx, ret))
BASE = None; TRACE = os.environ.get("C21_TRACE")
def survivor(c):
    global BASE
    calls = [("N", 2, [1, 2.]), ("R", [0, 0], [3, 1], 0), ("G", [1, .5], 2., 0), ("R", [0, 0], [2, 1], 1), ("G", [1, .5], 3., 1), ("I", [2.5, .5], [.5, .5], 0, 1, .5), ("M", [False, .1, 25]), ("V", [0, 0], 1, 0), ("V", [2, 1], 0, 1), ("S",)]
    g = repr(drive(calls)); BASE = BASE or g; c.check("'E'" not in g, "survivor", "a valid simulation raises: %s" % g[:200]); c.check(g == BASE, "survivor", "a valid simulation returns something else than before")

# malformed calls must raise
def suite_errors(c):
    r = c.rng; calls = scenario(r); n = calls[0][1]; loan = Loan(); s = Watched(Sim(n, calls[0][2]), loan); y = None; rej = 0
    def refused(what, f, *a):
        nonlocal rej
        try: v = f(*a)
        except SystemError as e: c.check(False, "system-error", "%s: %s" % (what, e)); return
        except Exception as e: rej += 1; c.check(isinstance(e, (TypeError, ValueError, IndexError, OverflowError, RuntimeError, MemoryError)), "kind", "%s raises %r" % (what, e)); return
        c.check(False, "accepted", "%s was accepted" % what)
    P = [0., 0.]; Q = [1., 1.]
    def some():
        bl = r.choice([n, n + 1, n + 100, -1, 2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 10 ** 300]); bt = r.choice([None, "1", (0, 0), {}, object(), 1j]); short = r.choice([[], [1.]]); bn = r.choice([["a", 1], [None, None], [1., []], [{}, 1]]); big = [10 ** 400, 1.]; nf = r.choice([float("nan"), float("inf"), -float("inf")])
        yield "a layer %d of %d" % (bl, n), [lambda: s.draw_rectangle(P, Q, bl), lambda: s.draw_region(P, 1., bl), lambda: s.draw_polygon([P, Q, [0., 1.]], bl)] + ([lambda: s.set_voltage(y, P, 1., bl)] if y else []) + ([lambda: s.add_interconnection(P, Q, 0, bl, 1.)] if not 0 <= bl < 2 ** 64 else [])
        yield "a layer %r" % (bt,), [lambda: s.draw_rectangle(P, Q, bt), lambda: s.draw_region(P, 1., bt), lambda: s.draw_polygon([P, Q, [0., 1.]], bt), lambda: s.add_interconnection(P, Q, 0, bt, 1.), lambda: s.add_interconnection(P, Q, bt, 0, 1.)] + ([lambda: s.set_voltage(y, P, 1., bt)] if y else [])
        for w, p in (("a point %r" % (bt,), bt), ("a point %r" % (short,), short), ("a point %r" % (bn,), bn), ("a point beyond all doubles", big)): 
            yield w, [lambda p=p: s.draw_rectangle(p, Q, 0), lambda p=p: s.draw_rectangle(P, p, 0), lambda p=p: s.draw_region(p, 1., 0), lambda p=p: s.draw_polygon([P, p, Q], 0), lambda p=p: s.add_interconnection(p, Q, 0, 0, 1.), lambda p=p: s.add_interconnection(Q, p, 0, 0, 1.)] + ([lambda p=p: s.set_voltage(y, p, 1., 0)] if y else [])
        yield "a number %r" % (bt,), [lambda: s.draw_region(P, bt, 0), lambda: s.add_interconnection(P, Q, 0, 0, bt), lambda: s.generate_system(False, bt), lambda: s.generate_system(False, 1., bt), lambda: s.generate_system(bt)] + ([lambda: s.set_voltage(y, P, bt, 0)] if y else [])
        yield "a number beyond all doubles", [lambda: s.add_interconnection(P, Q, 0, 0, 10 ** 400), lambda: s.generate_system(False, 10 ** 400), lambda: s.generate_system(False, 1., 10 ** 400)] + ([lambda: s.set_voltage(y, P, 10 ** 400, 0)] if y else [])
        yield "a system %r" % (bt,), [lambda: s.solve(bt), lambda: s.set_voltage(bt, P, 1., 0)]
        yield "a system of nothing", [lambda: s.solve(System()), lambda: s.set_voltage(System(), P, 1., 0)]
        yield "too few arguments", [lambda: s.solve(), lambda: s.draw_rectangle(P, Q), lambda: s.draw_region(), lambda: s.draw_polygon([P]), lambda: s.set_voltage(), lambda: s.add_interconnection(P, Q, 0, 0)]
        yield "too many arguments", [lambda: s.solve(y, y), lambda: s.draw_rectangle(P, Q, 0, 0), lambda: s.draw_region(P, 1., 0, 0), lambda: s.draw_polygon([P, Q, [0., 1.]], 0, 0), lambda: s.generate_system(False, 1., 20., 1), lambda: s.add_interconnection(P, Q, 0, 0, 1., 1), lambda: s.set_voltage(y, P, 1., 0, 0)]
        yield "a crossing shape", [lambda: (lambda z: (z.draw_rectangle([0, 0], [2, 2], 0), z.draw_rectangle([1, 1], [3, 3], 0)))(Sim(1, [1]))]
        yield "a mesh of nothing", [lambda: Sim(1, [1]).generate_system(False, 1.), lambda: Sim(2, [1, 1]).generate_system()]
        yield "depths that do not fit", [lambda: Sim(n, [1.] * (n + 1)), lambda: Sim(2, []), lambda: Sim(1, bt), lambda: Sim(1, [bt]), lambda: Sim(bt, [1.]), lambda: Sim(), lambda: Sim(1), lambda: Sim(1, [1.], 1), lambda: Sim(-1, []), lambda: Sim(2 ** 40, [1.]), lambda: Sim(1, [10 ** 400])]
        yield "a polygon without points", [lambda: s.draw_polygon([], 0)]
        if y: yield "a point that is %r" % nf, [lambda: (s.set_voltage(y, [nf, 0.], 1., 0), s.solve(y)) if nf != nf else refuse()]
        yield "an angle of %r" % nf, [lambda: s.generate_system(False, 1., nf) if nf != nf else refuse()]
    def refuse(): raise ValueError("-")
    def round():
        for what, fs in some(): refused(what, r.choice(fs))
    round(); k = next(i for i, x in enumerate(calls) if x[0] == "M")
    for x in calls[1:k]:
        if x[0] == "R": s.draw_rectangle(x[1], x[2], x[3])
        elif x[0] == "P": s.draw_polygon(x[1], x[2])
        elif x[0] == "G": s.draw_region(x[1], x[2], x[3])
        elif x[0] == "I": s.add_interconnection(*x[1:])
        if r.random() < .3: round()
    # what was refused left no trace: the simulation is the one of the valid calls alone
    want = drive(calls)
    try: v = s.generate_system(*calls[k][1])
    except Exception as e: v = None; c.check(want[0][0] == "E", "trace", "after refused calls the mesh is refused: %s" % e)
    if v and want[0][0] == "M":
        c.check(repr(tuple(v[1:])) == repr(tuple(want[0][1:])), "trace", "after refused calls the mesh is another one"); y = v[0]; round_y = [z for z in calls[k + 1:]]
        z = drive(calls[:k + 1]); other = Sim(1, [1]); other.draw_rectangle([0, 0], [1, 1], 0); other.draw_region([.5, .5], 1., 0); oy = other.generate_system(False, .3, 20)[0]
        if len(want[0][2]) != 4 and len(other.generate_system(False, .3, 20)[2]) != len(want[0][2]): refused("the system of another simulation", s.solve, oy)
        if len(want[0][2]) > 6:      # a system of an earlier mesh of the same simulation
            t = Watched(Sim(1, [1]), loan); t.draw_rectangle([0, 0], [3, 1], 0); t.draw_region([1, .5], 1., 0); v1 = t.generate_system(False, .3, 20); v2 = t.generate_system(False, .02, 20)
            if len(v1[2]) != len(v2[2]): refused("the system of an earlier mesh", t.solve, v1[0])
            del v1, v2, t
        for x in round_y[:2]: s.set_voltage(y, *x[1:])
        g = s.solve(y); w = next(q for q in want if q[0] == "S") if any(q[0] == "S" for q in want) else None
        if w: c.check(repr(tuple(g)) == repr(tuple(w[1:])), "trace", "after refused calls the solution is another one")
    round(); k = s.n; loan.settle(c, k); survivor(c); c.note("malformed calls refused", rej); c.text = "%d refused" % rej; c.nontrivial((c.idx, text(calls)))

# repeated use does not leak
class Mall(ctypes.Structure): _fields_ = [(k, ctypes.c_size_t) for k in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]
try: mallinfo2 = ctypes.CDLL(None).mallinfo2; mallinfo2.restype = Mall
except AttributeError: mallinfo2 = None
def held(): gc.collect(); m = mallinfo2() if mallinfo2 else None; return sys.getallocatedblocks(), (m.uordblks + m.hblkhd) if m else 0
def suite_leaks(c):
    r = c.rng; k = c.idx % 5; calls = scenario(r); n = calls[0][1]; idle = [1.23456789, 98765432123456, [3.25, 4.5], object(), "abcdefgh"]
    def good(): drive(calls)
    def part():
        s = Sim(n, calls[0][2])
        for x in calls[1:]:
            if x[0] == "M": break
            {"R": lambda: s.draw_rectangle(*x[1:]), "P": lambda: s.draw_polygon(*x[1:]), "G": lambda: s.draw_region(*x[1:]), "I": lambda: s.add_interconnection(*x[1:])}[x[0]]()
    def errors():
        s = Sim(1, [1.])
        for z in ((), (1, [1.], 3), (2, [1.]), (2, "x"), ("a",), (-1,), (2, [1., "x"]), (1, idle[3]), (idle[3], [1.]), (2, idle[2], 1, 2), (1, [idle[3]]), (0, []), (10 ** 30,), (1.5, [1.])):
            try: Sim(*z)
            except Exception: pass
        for z in ((), (1,), (idle[3], idle[2])):
            try: System(*z)
            except Exception: pass
        for f in (lambda: s.draw_rectangle([1.5, 2.5], ["a", 1], 0), lambda: s.draw_region([77777., 888888.], 5.5, 99), lambda: s.draw_polygon([[1.5, 2.5], [1.5]], 0), lambda: s.draw_polygon([idle[2], idle[2], idle[3]], 0), lambda: s.solve(idle[3]), lambda: s.set_voltage(System(), idle[2], 1., 0), lambda: s.generate_system(False, idle[4]), lambda: s.generate_system(False, 1.), lambda: Sim(2, [1., idle[4]]), lambda: Sim(2, idle[2][:1]), lambda: Sim(1, [10 ** 400]), lambda: s.add_interconnection(idle[2], [idle[0]], 0, 0, 1.), lambda: (s.draw_rectangle([0, 0], [2, 2], 0), s.draw_rectangle([1, 1], [3, 3], 0))):
            try: f()
            except Exception: pass
    def mesh_only():
        s = Sim(1, [1]); s.draw_rectangle([0, 0], [3, 1], 0); s.draw_region([1, .5], 1., 0); y = s.generate_system(False, .05, 25); s.set_voltage(y[0], idle[2], idle[0], 0); s.set_voltage(y[0], [3, 1], 0, 0); s.solve(y[0]); s.generate_system(False, .05, 25)
    def refusals():
        s = Sim(1, [1]); s.draw_rectangle([0, 0], [3, 1], 0); s.draw_region([1, .5], 1., 0); a = s.generate_system(False, .4, 20); b = s.generate_system(False, .03, 25); z = Sim(1, [1])
        for f in (lambda: s.solve(a[0]), lambda: z.solve(b[0]), lambda: z.set_voltage(b[0], idle[2], 1., 0), lambda: s.set_voltage(b[0], [float("nan"), 0.], 1., 0), lambda: s.set_voltage(b[0], idle[2], 1., 5), lambda: s.set_voltage(a[0], [3, 1], idle[0], 0), lambda: s.generate_system(False, 1., float("nan"))):
            try: f()
            except Exception: pass
    f, w = [(good, "simulations"), (errors, "malformed calls"), (part, "drawings"), (mesh_only, "one simulation meshed twice"), (refusals, "refused systems and voltages")][k]
    for _ in range(6): f()
    refs = [sys.getrefcount(x) for x in idle] + [sys.getrefcount(None) if sys.version_info < (3, 12) else 0]; b0, m0 = held(); N = 24
    for _ in range(N): f()
    refs1 = None; grown = []
    for _ in range(4):
        b1, m1 = held(); refs1 = refs1 or [sys.getrefcount(x) for x in idle] + [sys.getrefcount(None) if sys.version_info < (3, 12) else 0]; grown.append((b1 - b0, m1 - m0)); b0, m0 = b1, m1
        if len(grown) < 4:
            for _ in range(N): f()
    db, dm = min(g[0] for g in grown) / N, min(g[1] for g in grown) / N
    c.check(db < .5, "objects", "every repetition of %s leaves %.1f objects behind" % (w, db)); c.check(dm < 96, "memory", "every repetition of %s leaves %.0f bytes behind" % (w, dm))
    for a, b, o in zip(refs, refs1, idle + [None]): c.check(a == b, "references", "the references to %r went from %d to %d in %d repetitions of %s" % (o, a, b, N, w))
    c.note("repetitions watched for leaks", 4 * N); c.text = "%s: %.2f objects, %.0f bytes each" % (w, db, dm); c.nontrivial((k, text(calls)))

# lifetimes: systems outlive simulations and the other way round, subclasses, cycles, several at once
def suite_lifetime(c):
    r = c.rng; live = []; class_ = type("S", (Sim,), {"extra": 1}); scen = [scenario(r) for _ in range(2)]; want = [drive(x) for x in scen]; runs = []
    for k in range(2): runs.append([scen[k], 0, None, None, []])
    while any(x[1] < len(x[0]) for x in runs):
        q = r.choice([x for x in runs if x[1] < len(x[0])]); x = q[0][q[1]]; q[1] += 1
        if q[4] and q[4][-1][0] == "E": continue
        try:
            if x[0] == "N": q[2] = (class_ if r.random() < .5 else Sim)(x[1], x[2])
            elif x[0] == "R": q[2].draw_rectangle(*x[1:])
            elif x[0] == "P": q[2].draw_polygon(*x[1:])
            elif x[0] == "G": q[2].draw_region(*x[1:])
            elif x[0] == "I": q[2].add_interconnection(*x[1:])
            elif x[0] == "M": v = q[2].generate_system(*x[1]); q[3] = v[0]; q[4].append(("M",) + tuple(v[1:]))
            elif x[0] == "V": q[2].set_voltage(q[3], *x[1:])
            else: q[4].append(("S",) + tuple(q[2].solve(q[3])))
        except Exception as e: q[4].append(("E", x[0], type(e).__name__, str(e)))
        if r.random() < .2: z = Sim(1, [1.]); z.draw_rectangle([0, 0], [1, 1], 0); z.draw_region([.5, .5], 1., 0); live.append(r.choice([z, z.generate_system(False, .3, 20)[0]]))
        if live and r.random() < .3: live.pop(r.randrange(len(live)))
        if r.random() < .1: gc.collect()
    for k in range(2): c.check(repr(runs[k][4]) == repr(want[k]), "interleaved", "simulation %d returns something else when others live beside it" % k)
    y = runs[0][3]
    if y is not None: runs[0][2] = None; gc.collect(); o = Sim(1, [1.]); 
    for o in list(runs[0][4]): 
        if o[0] == "S": o[1].clear(); o[2].clear(); o[3].clear()
    survivor(c); c.nontrivial((text(scen[0]), text(scen[1])))

# simulations in several threads of the interpreter
def suite_threads(c):
    r = c.rng; scen = [scenario(r) for _ in range(3)]; want = [repr(drive(x)) for x in scen]; got = [[None] * 3 for _ in range(4)]
    def body(t):
        for k in range(3): got[t][(k + t) % 3] = repr(drive(scen[(k + t) % 3]))
    old = sys.getswitchinterval(); sys.setswitchinterval(1e-5); T = [threading.Thread(target=body, args=(t,)) for t in range(4)]; [t.start() for t in T]; [t.join() for t in T]; sys.setswitchinterval(old)
    for t in range(4):
        for k in range(3): c.check(got[t][k] == want[k], "threads", "in a thread scenario %d returns something else" % k)
    c.nontrivial([text(x) for x in scen])

def main():
    a = sys.argv; g = lambda k: a[a.index(k) + 1]; suite, lo, hi, seed, path = g("--suite"), int(g("--from")), int(g("--to")), int(g("--seed")), g("--out"); th = "--thorough" in a
    faulthandler.enable(); null = os.open("/dev/null", os.O_WRONLY); os.dup2(null, 1); total, samples = {}, 0
    with open(path, "w") as o:
        for i in range(lo, hi):
            print("B %d" % i, file=o, flush=True); c = Ctx(random.Random("%d/%s/%d" % (seed, suite, i)), th); c.idx = i; globals()["suite_" + suite](c)
            for k, m in c.bad: print("V " + json.dumps({"suite": suite, "idx": i, "key": k, "msg": m[:3000], "case": c.text}), file=o)
            for k, v in c.notes.items(): total[k] = total.get(k, 0) + v
            if samples < 2 and c.text: samples += 1; print("S " + json.dumps({"suite": suite, "case": i, "what": c.text[:400]}), file=o)
            print("C %d %016x %d %d %s" % (i, c.sig, int(c.nt), c.evals, "viol" if c.bad else "ok"), file=o, flush=True)
        for k, v in total.items(): print("N " + json.dumps({"k": k, "v": v}), file=o)
        print("F", file=o, flush=True)
    o_ = sys.stdout; os._exit(0)
main()

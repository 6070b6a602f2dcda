"""What is run for each property: models, and requests made from them.

Models are checked by TLC and print what is to be replayed (EMIT, ENV); the
rest of the inputs is random. Expectations are not computed here.
"""
import copy
import json
import random
from concurrent.futures import ThreadPoolExecutor

import engine
import gen

PLANS = {}


def plan(*ids):
    def deco(f):
        for i in ids:
            PLANS[i] = f
        return f
    return deco


# how many more inputs than the numbers below say a quick run has time for
MORE = {"C17": 1, "C01": 3, "C03": 2, "C05": 5, "C07": 8, "C09": 10, "C10": 10, "C11": 8, "C12": 10, "C13": 10, "C14": 10, "C21": 6, "C22": 6}


class Ctx:
    """a run of a check: seeds, models, requests"""
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.r = random.Random("%s-%d" % (prop, seed))
        self.g = gen.Gen("%s-%d-g" % (prop, seed))
        self.reqs, self.origin = [], []
        self.states = self.transitions = 0
        self.models = []
        self.screened = 0

    def n(self, quick, thorough):
        return thorough if self.thorough else quick * MORE.get(self.prop, 4) if quick >= 50 else quick

    # -- models: each a (module, env); answers in the same order
    def model(self, module, **env):
        return self.models_([(module, env)])[0]

    def models_(self, specs):
        w = 8 if len(specs) == 1 else 4 if len(specs) < 4 else 2
        with ThreadPoolExecutor(8 // w) as ex:
            ts = list(ex.map(lambda s: engine.tlc(s[0], workers=w, env=dict({"TIER": self.tier}, **s[1]), heap="4g"), specs))
        out = []
        for (m, env), t in zip(specs, ts):
            self.states += t.distinct
            self.transitions += t.generated
            name = m + ("(%s)" % ",".join(v for v in env.values() if v) if env else "")
            self.models.append({"model": name, "states": t.distinct, "transitions": t.generated})
            out.append(t)
        return out

    def emits(self, module, **env):
        return engine.printed(self.model(module, **env), "EMIT")

    def add(self, req, origin):
        if not gen.lettered(req):
            return
        if len(self.reqs) % 2 and ("env" in req or "mods" in req):
            req["share"] = True         # equal operands are one value
        self.reqs.append(req)
        self.origin.append(origin)

    def accepted(self, ts, rest):
        """of many texts, those which the implementation takes, and some of the rest;
        the ones it rejects throughout satisfy what is asked of malformed texts"""
        ts = list(dict.fromkeys(ts))
        obs = engine.run_harness([{"op": "parse", "t": t, "look": False} for t in ts])
        yes = [t for t, o in zip(ts, obs) if "panic" in o or o["circ"]["k"] == "ok" or o["read"]["k"] == "ok" or o["end"]["k"] != "err"]
        got = set(yes)
        self.screened += len(ts)
        return yes + self.sample([t for t in ts if t not in got], rest)

    def unusual(self, reqs, rest, ok):
        """of many requests, those with observations which are not plainly fine, and some of the rest"""
        obs = engine.run_harness(reqs)
        odd = [i for i, o in enumerate(obs) if "panic" in o or not ok(o)]
        self.screened += len(reqs)
        got = set(odd)
        return [reqs[i] for i in odd] + self.sample([q for i, q in enumerate(reqs) if i not in got], rest)

    def sample(self, xs, n):
        xs = list(xs)
        return xs if len(xs) <= n else self.r.sample(xs, n)


def texts(c, alphas, n, keep=lambda e: True, more=""):
    """(alphabet, text, accepted) of the models of texts"""
    lay = "1" if c.prop == "C04" else ""
    # the whole depth where the texts themselves are what the property is about
    much = {} if c.prop in ("C02", "C03", "C04", "C05", "C15", "C16") else {"TIER": "quick"}
    ts = c.models_([("MC_Text", dict(much, ALPHA=a, MORE="1" if c.thorough else more, LAYOUT=lay)) for a in alphas])
    out = []
    for a, t in zip(alphas, ts):
        es = [e for e in engine.printed(t, "EMIT") if keep(e)]
        # accepted ones are rare, both kinds are wanted
        yes = [e for e in es if e["a"]]
        no = [e for e in es if not e["a"]]
        k = c.sample(yes, n if not no else max(n // 2, n - len(no)))
        out += [(a, e["t"], e["a"]) for e in k + c.sample(no, n - len(k))]
    return out


def doc_text(c, ms, top=None, info=None, **kw):
    w = gen.Writer(c.g, **kw)
    return w.layout(w.circuit(ms, top or ms[-1]["n"], c.g.info() if info is None else info))


def neighbours(c, rates=None):
    """texts next to those showing one construct each; rates: how many of each kind"""
    pool = {}
    for t in gen.SHOW:
        for k, x in gen.near(t, len(gen.HEAD) if t.startswith(gen.HEAD) else 0):
            pool.setdefault(k, []).append(x)
    out = []
    for k in sorted(pool):
        n = rates.get(k, 0) if rates else len(pool[k])
        out += c.sample(pool[k], c.n(n, n * 12))
    return out


def bigs(c, quick, thorough, kinds=None):
    """documents of circuits, each large in one respect"""
    for k in kinds or gen.Gen.BIG:
        for _ in range(c.n(quick, thorough)):
            yield k, c.g.big(k)


def huges(c, quick, thorough, kinds=None, most=520):
    """documents of circuits with hundreds of plain things of one kind"""
    for k in kinds or gen.Gen.HUGE:
        for i in range(c.n(quick, thorough)):
            yield k, c.g.huge(k, c.g.pick([n for n in [260, 300, 520, 1030] if n <= most] if i == 0 else [65, 70, 129, 140, 257, 300, 520, 800, 1030] if c.thorough else [65, 130, 260]))


ALL_ALPHAS = ["nest", "scope", "mem", "mods", "when", "types", "exprs", "stmts", "lits", "heads", "info", "fmt", "params", "ends", "smems"]


# ---------------------------------------------------------------------------
@plan("C01")
def printing(c):
    for _ in range(c.n(260, 5000)):
        ms = c.g.circuit_docs()
        c.add({"op": "rt", "mods": ms, "top": len(ms), "info": c.g.info(), "split": c.r.random() < 0.2}, "random circuit")
    for k, ms in bigs(c, 4, 60):
        c.add({"op": "rt", "mods": ms, "top": len(ms), "info": c.g.info()}, "large circuit, " + k)
    for k, ms in huges(c, 1, 6):
        c.add({"op": "rt", "mods": ms, "top": len(ms), "info": c.g.info()}, "hundreds of " + k)
    more = []
    for _ in range(c.n(4000, 60000)):
        ms = c.g.circuit_docs(n=1, size=2)
        more.append({"op": "rt", "mods": ms, "top": len(ms), "info": c.g.info()})
    plain = lambda o: o.get("printed") and o["back"]["circ"]["k"] == "ok" and o["same"] and o["stable"]
    for q in c.unusual(more, c.n(150, 2000), plain):
        c.add(q, "random small circuit")
    # texts the models accept, by way of their meaning
    es = texts(c, ["nest", "scope", "mem", "mods", "when", "types", "exprs", "stmts", "lits", "info", "fmt", "params"], c.n(50, 1500),
               keep=lambda e: e["a"])
    obs = engine.run_harness([{"op": "parse", "t": t} for _, t, _ in es])
    for (a, t, _), o in zip(es, obs):
        # modules of equal names cannot be told apart in text
        if "panic" not in o and o["circ"]["k"] == "ok" and len(set(m["n"] for m in o["mods"])) == len(o["mods"]):
            c.add({"op": "rt", "mods": o["mods"], "top": o["circ"]["top"], "info": o["circ"]["info"]}, "model of texts, " + a)
    # circuits grown by the model of writing
    for k, t in zip(("all", "shape"), c.models_([("MC_Write", {"KIND": k}) for k in ("all", "shape")])):
        for ms in c.sample(engine.printed(t, "EMIT"), c.n(350, 6000)):
            c.add({"op": "rt", "mods": ms, "top": 2, "info": ["top"]}, "model of writing, " + k)


@plan("C02")
def denotation(c):
    for _ in range(c.n(250, 5000)):
        ms = c.g.circuit_docs()
        c.add({"op": "parse", "t": doc_text(c, ms)}, "random text")
    for k, ms in bigs(c, 4, 60):
        c.add({"op": "parse", "t": doc_text(c, ms)}, "large text, " + k)
    for k, ms in huges(c, 1, 6, most=1030):
        c.add({"op": "parse", "t": doc_text(c, ms)}, "hundreds of " + k)
    for _ in range(c.n(120, 2000)):
        ms = c.g.circuit_docs(n=1, size=2)
        ms += [c.g.module("x%d" % i, ms, 2, 1, ext=True) for i in range(2)]
        c.add({"op": "parse", "t": doc_text(c, ms, top="x1", dups=0.5)}, "random text with entries given twice")
    for t in gen.SHOW + neighbours(c, {"less": 150, "twice": 150, "swap": 100, "more": 400, "other": 400}):
        c.add({"op": "parse", "t": t}, "showcase or its neighbour")
    for a, o, m, z, b in c.sample(gen.nestings(), c.n(60, 900)):
        n = c.r.choice([2, 3, 5])
        c.add({"op": "parse", "t": a + o * n + m + z * n + b}, "nesting")
    for a, t, _ in texts(c, ["types", "exprs", "stmts", "lits", "heads", "mem", "mods", "params", "fmt", "nest"], c.n(70, 2500), keep=lambda e: e["a"]):
        c.add({"op": "parse", "t": t}, "model of texts, " + a)


@plan("C03")
def rejection(c):
    ts = neighbours(c)
    for _ in range(c.n(40000, 400000)):  # two changes
        t = c.r.choice(gen.SHOW)
        t = gen.nearby(c.g, t, len(gen.HEAD) if t.startswith(gen.HEAD) else 0)
        ts.append(gen.nearby(c.g, t, len(gen.HEAD) if t.startswith(gen.HEAD) else 0))
    for _ in range(c.n(2500, 40000)):
        ms = c.g.circuit_docs(n=c.r.choice([1, 1, 2]), size=c.r.choice([1, 2, 4]))
        t = doc_text(c, ms, plain=c.r.random() < 0.3)
        ts += [gen.mutate(c.g, t) for _ in range(4)]
    for _, ms in bigs(c, 12, 200):
        t = doc_text(c, ms)
        ts += [gen.mutate(c.g, t) for _ in range(4)]
    ts += [t for s in gen.SHOW for t in gen.stranges(c.g, s)]
    ts += [gen.strange(c.g, c.r.choice(gen.SHOW)) for _ in range(c.n(6000, 60000))]
    ts += [gen.reindent(c.g, c.r.choice(gen.SHOW) if c.r.random() < 0.5 else doc_text(c, c.g.circuit_docs(n=1, size=4))) for _ in range(c.n(3000, 30000))]
    for _, ms in huges(c, 1, 6):
        t = doc_text(c, ms)
        ts += [gen.mutate(c.g, t) for _ in range(6)]
    for a, o, m, z, b in gen.nestings():
        for n in (1, 2, 3):
            ts += [gen.mutate(c.g, a + o * n + m + z * n + b), a + o * n + m + z * (n - 1) + b, a + o * n + z * n + b]
    for t in c.accepted(ts, c.n(400, 10000)):
        c.add({"op": "parse", "t": t}, "neighbour of a showcase, or mutated text")
    for a, t, _ in texts(c, ALL_ALPHAS, c.n(60, 2500)):
        c.add({"op": "parse", "t": t}, "model of texts, " + a)


# -- layout
def relayout(c, t, k):
    """another layout of the lines of a text"""
    g = c.g
    nl = "\n" in t
    ls = t.split("\n")
    last = ls[-1] == "" and nl
    if last:
        ls.pop()
    f = g.pick([1, 2, 3]) if k % 2 else 1
    eol = "\r\n" if k % 3 == 1 else "\n"
    out = []
    for l in ls:
        if "\r" in l:
            return None
        body = l.lstrip(" ")
        ind = (len(l) - len(body)) * f
        if k % 4 >= 2:
            for _ in range(g.r.randrange(0, 3)):
                out.append(g.pick(["", " ", "\t", ";x", "  ; when : (", "      ;;\t\"]"]))
        out.append(" " * ind + body + (g.pick(["", " ", "\t", "  ", ";", " ; @[x]", "\t;é€"]) if k % 4 != 1 else ""))
    r = eol.join(out)
    if not (k % 5 == 4):
        r += eol
    return r


@plan("C04")
def layout(c):
    docs = [c.g.circuit_docs(size=5) for _ in range(c.n(110, 2500))]
    docs += [ms for _, ms in bigs(c, 1, 30)] + [ms for _, ms in bigs(c, 4, 60, ["deep", "chain", "mods", "mems"])]
    for ms in docs:
        top, info = ms[-1]["n"], c.g.info()
        ws = [gen.Writer(c.g, plain=True)]
        tree = ws[0].circuit(ms, top, info)
        ts = [ws[0].layout(tree)]
        for kw in [dict(), dict(crlf=True, comments=0.3), dict(blanks=0.0, comments=0.0, crlf=False), dict(blanks=0.9, comments=0.5)]:
            ts.append(gen.Writer(c.g, **kw).layout(tree))
        ts[-1] = ts[-1].rstrip("\r\n")
        c.add({"op": "layout", "ts": ts, "same": [True] * len(ts)}, "random text in five layouts")
    for _ in range(c.n(45, 1000)):
        ms = c.g.circuit_docs(n=c.r.choice([1, 2]), size=2)
        tree = gen.Writer(c.g, plain=True).circuit(ms, ms[-1]["n"], c.g.info())
        ts = [gen.Writer(c.g, plain=True).layout(tree)] + [gen.Writer(c.g, wide=w, comments=0.3).layout(tree) for w in (0.1, 0.3, 0.8)]
        c.add({"op": "layout", "ts": ts, "same": [True] * len(ts)}, "random text, widely laid out")
    for a, t, _ in texts(c, ["nest", "mem", "when", "mods", "stmts"], c.n(80, 2000)):
        ts = [t] + [x for x in (relayout(c, t, k) for k in c.r.sample(range(1, 60), 3)) if x is not None]
        c.add({"op": "layout", "ts": ts, "same": [True] * len(ts)}, "model of texts, %s, relaid" % a)
    for a, t, _ in texts(c, ["ends", "nest", "when"], c.n(150, 4000)):
        c.add({"op": "layout", "ts": [t], "same": [True]}, "model of texts, " + a)


# -- names
def ctx_request(c, h, env, init, ports):
    steps = []
    for st in h:
        steps.append({"a": st["a"]} if st["a"] in ("push", "pop") else st)
        steps += [{"a": "lent", "n": x} for x in ("a", "b", "z")] + [{"a": "lmem", "n": x} for x in ("a", "b")] + [{"a": "lmod", "n": x} for x in ("a", "M")]
    return {"op": "ctx", "env": env, "init": init, "ports": ports, "steps": steps}


def ctx_env():
    port = lambda n, d, t: {"k": "port", "n": n, "dir": d, "ty": {"t": "uint", "w": t}, "info": []}
    mod = lambda n: {"n": n, "kind": "module", "info": [], "ports": [], "body": [], "defname": [], "params": []}
    smem = lambda n, w: {"n": n, "ty": {"t": "uint", "w": w}, "kind": "cmem", "ruw": []}
    return {"decls": [port("a", "input", 1), {"k": "wire", "n": "a", "ty": {"t": "clock"}}, {"k": "wire", "n": "b", "ty": {"t": "uint", "w": 2}},
                      port("a", "output", 9), port("b", "input", 8)],
            "smems": [smem("a", 1), smem("a", 2)], "mods": [mod("a"), mod("M")]}


@plan("C05")
def names(c):
    hs = c.emits("MC_Ctx")
    env = ctx_env()
    inits = [([], True), ([], False), ([1, 5], True), ([4, 1], True), ([3, 2], False), ([2, 1, 4], False), ([5], False)]
    for h in c.sample(hs, c.n(900, 30000)):
        i, p = c.r.choice(inits)
        c.add(ctx_request(c, h, env, i, p), "history of a context")
    for _ in range(c.n(220, 5000)):
        g = c.g
        old, gen.NAMES = gen.NAMES, ["a", "b", "é1"]
        oldk, gen.KEYNAMES = gen.KEYNAMES, ["a", "wire", "b"]
        g.heavy = c.r.choice([[], ["smem", "when", "decl"], ["decl", "when", "conn"]])
        g.kinds = c.r.choice([g.kinds0, g.kinds0, ["mport", "mport", "wire"]])
        try:
            ms = g.circuit_docs(n=c.r.choice([1, 2]), size=9, unique=False)
        finally:
            gen.NAMES, gen.KEYNAMES = old, oldk
            g.heavy, g.kinds = [], g.kinds0
        t = doc_text(c, ms, info=[], comments=0.02)
        if c.r.random() < 0.4:
            t = gen.mutate(g, t)
        c.add({"op": "parse", "t": t}, "text with many equal names")
    for k, ms in huges(c, 1, 6, ["nodes", "insts", "ports", "depth", "elses"]):
        c.add({"op": "parse", "t": doc_text(c, ms)}, "hundreds of " + k)
    for k, ms in bigs(c, 6, 100, ["names", "stmts", "deep", "chain", "mems", "insts"]):
        c.add({"op": "parse", "t": doc_text(c, ms)}, "large text, " + k)
    for a, t, _ in texts(c, ["scope", "when", "nest", "smems"], c.n(200, 4000)):
        c.add({"op": "parse", "t": t}, "model of texts, " + a)


# -- iterating
@plan("C06")
def iterating(c):
    t = c.model("MC_Iter")
    env = engine.printed(t, "ENV")[0]
    for e in c.sample(engine.printed(t, "EMIT"), c.n(900, 30000)):
        steps = [{"a": "next"} if i == 0 else {"a": "add", "m": env["added"][i - 1]} for i in e["h"]]
        steps += [{"a": "next"}] * 2
        c.add({"op": "mods", "t": "".join(env["parts"][i - 1] for i in e["s"]), "names": ["A", "B", "C", "?"], "steps": steps}, "history of an iterator")
    for _ in range(c.n(140, 3000)):
        ms = c.g.circuit_docs(n=c.r.choice([2, 3, 3, 4]), size=3, unique=c.r.random() < 0.5)
        t = doc_text(c, ms)
        if c.r.random() < 0.6:
            t = gen.mutate(c.g, t)
        c.add({"op": "parse", "t": t}, "text of several modules")
    for k, ms in huges(c, 2, 12, ["mods", "insts", "params"], most=1030):
        t = doc_text(c, ms)
        c.add({"op": "parse", "t": t if c.r.random() < 0.7 else gen.mutate(c.g, t)}, "hundreds of " + k)
    for k, ms in bigs(c, 10, 200, ["mods", "names", "insts"]):
        t = doc_text(c, ms)
        c.add({"op": "parse", "t": t if c.r.random() < 0.5 else gen.mutate(c.g, t)}, "large text, " + k)
    for _ in range(c.n(250, 4000)):      # instances of modules whose names look alike
        base = c.r.choice(["m1", "top", "Adder", "_x", "a_b", "é"])
        ns = [base] + [gen.confuse(c.g, base) for _ in range(3)]
        t = "circuit %s :\n" % base
        for i in range(c.r.randrange(1, 4)):
            t += " module %s :\n  skip\n" % c.r.choice(ns)
        t += " module %s :\n  inst i of %s\n" % (c.r.choice(ns), c.r.choice(ns))
        c.add({"op": "parse", "t": t}, "module names which look alike")
    for a, t, _ in texts(c, ["mods", "heads"], c.n(250, 4000)):
        c.add({"op": "parse", "t": t}, "model of texts, " + a)


def plain_mod(n, body=(), ports=(), info=()):
    return {"n": n, "kind": "module", "info": list(info), "ports": list(ports), "body": list(body), "defname": [], "params": []}


@plan("C07")
def top(c):
    cons, utf = c.models_([("MC_Consumer", {}), ("MC_Utf8", {})])
    ms = [plain_mod("A"), plain_mod("B"), plain_mod("A", [{"s": "skip", "info": []}]), plain_mod("C")]
    for k, e in enumerate(c.sample(engine.printed(cons, "EMIT"), c.n(1100, 20000))):
        n = len(e["items"]) + 2
        stop = c.r.randrange(0, n + 1)
        steps = ["circuit"]
        for _ in range(stop):
            steps += ["next", "circuit"]
        steps.append("into")
        look = {x: x for x in "ABC"}
        if k % 3 == 0:                   # names which are easily taken for each other
            look["A"] = c.r.choice(["m1", "top", "Adder", "_x", "a_b", "é", "A", "m$"])
            look["B"] = gen.confuse(c.g, look["A"])
            look["C"] = gen.confuse(c.g, c.r.choice([look["A"], look["B"]]))
        c.add({"op": "cons", "mods": [dict(m, n=look[m["n"]]) for m in ms], "items": e["items"], "top": look.get(e["top"], e["top"]), "info": c.r.choice([[], ["i"]]), "steps": steps}, "history of a consumer")
    for _ in range(c.n(150, 3000)):
        ms2 = c.g.circuit_docs(n=c.r.choice([1, 2, 3, 4]), size=2, unique=c.r.random() < 0.5)
        t = doc_text(c, ms2, top=c.r.choice([m["n"] for m in ms2] + ["absent"]))
        if c.r.random() < 0.3:
            t = gen.mutate(c.g, t)
        c.add({"op": "parse", "t": t}, "text of several modules")
        base = c.r.choice(["m1", "top", "Adder", "_x", "a_b", "é", "m$"])
        ns = [base] + [gen.confuse(c.g, base) for _ in range(3)]
        u = "circuit %s :\n" % base + "".join(" module %s :\n  skip\n" % c.r.choice(ns) for _ in range(c.r.randrange(1, 5)))
        c.add({"op": "parse", "t": u}, "module names which look alike")
        b = list(t.encode())
        sizes = c.r.choice([[1], [2, 3], [1, 5, 2], [1000], [4096], [7]])
        fail = [c.r.choice([len(b), c.r.randrange(0, len(b) + 1)])] if c.r.random() < 0.4 else []
        if c.r.random() < 0.2 and b:
            i = c.r.randrange(len(b))
            b[i] = c.r.choice([0x80, 0xC0, 0xFF, 0xED, 0xE2, b[i]])
        if gen.lettered_bytes(b):
            c.add({"op": "read", "bytes": b, "sizes": sizes, "fail": fail, "kind": c.r.randrange(9), "intr": c.r.random() < 0.2}, "stream")
    for t in gen.stranges(c.g, doc_text(c, c.g.circuit_docs(n=1, size=0))):
        c.add({"op": "read", "bytes": list(t.encode()), "sizes": c.r.choice([[1], [2, 3], [1000]]), "fail": [], "kind": 0, "intr": False}, "stream with a strange character")
    for _ in range(c.n(160, 3000)):
        t = gen.strange(c.g, doc_text(c, c.g.circuit_docs(n=1, size=1)) if c.r.random() < 0.5 else c.r.choice(gen.SHOW))
        c.add({"op": "read", "bytes": list(t.encode()), "sizes": c.r.choice([[1], [2, 3], [1000]]), "fail": [], "kind": 0, "intr": False}, "stream with a strange character")
        c.add({"op": "parse", "t": t}, "text with a strange character")
    for k, ms2 in bigs(c, 2, 30):
        t = doc_text(c, ms2)
        c.add({"op": "read", "bytes": list(t.encode()), "sizes": c.r.choice([[1], [2, 3], [1000], [4096], [8192], [64]]), "fail": [], "kind": 0, "intr": c.r.random() < 0.2}, "large stream, " + k)
    pre, post = list(b"circuit m : ;"), list(b"\n module m :\n  skip\n")
    for e in c.sample(engine.printed(utf, "EMIT"), c.n(700, 9000)):
        c.add({"op": "read", "bytes": pre + e + post, "sizes": c.r.choice([[1], [2], [3, 1], [100]]), "fail": [], "kind": 0, "intr": False}, "bytes of a comment")


@plan("C08")
def order(c):
    ref = {"e": "ref", "n": "c", "d": 1}
    names = ["A", "B", "C", "D", "E", "F"]
    clk = {"k": "port", "n": "c", "dir": "input", "ty": {"t": "uint", "w": 1}, "info": []}

    def nest(insts, r):
        out = []
        for s in insts:
            k = r.randrange(6)
            if k == 0:
                out.append({"s": "when", "c": ref, "t": [s], "f": [], "info": []})
            elif k == 1:
                out.append({"s": "when", "c": ref, "t": [{"s": "skip", "info": []}], "f": [s], "info": []})
            elif k == 2:
                out.append({"s": "when", "c": ref, "t": [{"s": "skip", "info": []}],
                            "f": [{"s": "when", "c": ref, "t": [{"s": "skip", "info": []}, s], "f": [], "info": []}], "info": []})
            else:
                out.append(s)
        if len(out) > 1 and r.random() < 0.3:
            j = r.randrange(1, len(out))
            out = [{"s": "when", "c": ref, "t": out[:j], "f": out[j:], "info": []}]
        return out

    def build(deps):
        perm = c.sample(names, len(deps)) if c.r.random() < 0.5 else names
        ms = []
        for i, d in enumerate(deps):
            insts = [{"s": "decl", "ent": {"k": "inst", "n": "i%d" % k, "of": perm[x - 1], "mi": x}, "info": []} for k, x in enumerate(d)]
            m = plain_mod(perm[i], nest(insts, c.r), [clk])
            if not d and c.r.random() < 0.15:
                m.update(kind="extmodule", body=[])
            ms.append(m)
        return ms
    gs = c.emits("MC_Printer")
    for deps in c.sample(gs, c.n(1300, 12000)):
        c.add({"op": "rt", "mods": build(deps), "top": len(deps), "info": [], "split": c.r.random() < 0.4}, "graph of modules")
    for _ in range(c.n(100, 2000)):          # larger ones
        n = c.r.choice([5, 6])
        deps = [[c.r.randrange(1, i + 1) for _ in range(c.r.choice([0, 1, 1, 2, 3]))] if i else [] for i in range(n)]
        top = c.r.choice([n, n, n - 1])
        c.add({"op": "rt", "mods": build(deps), "top": top, "info": [], "split": c.r.random() < 0.4}, "random graph of modules")
    for k, ms in huges(c, 3, 12, ["mods", "insts"]):
        c.add({"op": "rt", "mods": ms, "top": len(ms), "info": [], "split": c.r.random() < 0.4}, "hundreds of " + k)
    for k, ms in bigs(c, 15, 300, ["mods", "insts"]):
        c.add({"op": "rt", "mods": ms, "top": len(ms), "info": [], "split": c.r.random() < 0.4}, "large circuit, " + k)


# -- types
def vary(g, t):
    """a type differing from the given one in one place, at most"""
    t = copy.deepcopy(t)
    k = t["t"]
    if k == "vec":
        if g.p(0.3):
            t["n"] = g.pick([t["n"], (t["n"] + 1) % 65536])
        else:
            t["b"] = vary(g, t["b"])
    elif k == "bundle" and t["f"]:
        f = g.pick(t["f"])
        m = g.r.randrange(7)
        if m == 0:
            f["flip"] = not f["flip"]
        elif m == 1:
            f["n"] = g.field_name()
        elif m == 2 and len(t["f"]) > 1:
            g.r.shuffle(t["f"])
        elif m == 3:
            t["f"].remove(f)
        elif m == 4 and len(t["f"]) > 1:
            a, b = g.r.sample(t["f"], 2)
            a["flip"], b["flip"] = not a["flip"], not b["flip"]
        else:
            f["ty"] = vary(g, f["ty"])
    elif g.p(0.3):
        return g.type(1)
    elif "w" in t:
        t["w"] = g.width()
        if t["t"] == "fixed":
            t["p"] = [] if g.p(0.2) else [g.i16()]
    return t


def turn(g, t):
    """a weakly equivalent type: flips moved from a field to the fields below"""
    t = copy.deepcopy(t)
    if t["t"] == "vec":
        t["b"] = turn(g, t["b"])
    elif t["t"] == "bundle":
        for f in t["f"]:
            if f["ty"]["t"] == "bundle" and g.p(0.6):
                f["flip"] = not f["flip"]
                for x in f["ty"]["f"]:
                    x["flip"] = not x["flip"]
            elif f["ty"]["t"] == "vec" and f["ty"]["b"]["t"] == "bundle" and g.p(0.6):
                f["flip"] = not f["flip"]
                for x in f["ty"]["b"]["f"]:
                    x["flip"] = not x["flip"]
            f["ty"] = turn(g, f["ty"])
    return t


@plan("C09", "C10")
def type_laws(c):
    u = c.emits("MC_Types")[0]
    ts = u["u"]
    pairs = [[i + 1, j + 1] for i in range(len(ts)) for j in range(len(ts))]
    step = 400
    names = ["a", "b", "x", "none"]
    for i in range(0, len(pairs), step):
        ps = pairs[i:i + step]
        used = sorted(set(x for p in ps for x in p))
        m = {x: k + 1 for k, x in enumerate(used)}
        c.add({"op": "types", "ts": [ts[x - 1] for x in used], "pairs": [[m[a], m[b]] for a, b in ps], "names": names}, "pairs of the model's types")
    g = c.g
    for _ in range(c.n(220, 5000)):
        xs = []
        for _ in range(3):
            t = g.type(g.pick([1, 2, 3, 4]))
            xs += [t, vary(g, t), turn(g, t), vary(g, turn(g, t))]
        if g.p(0.15):
            t = g.deep_type(g.many(12)) if g.p(0.5) else {"t": "bundle", "f": [{"n": "f%d" % i, "flip": g.p(0.3), "ty": g.type(1)} for i in range(g.many())]}
            xs[:4] = [t, vary(g, t), turn(g, t), vary(g, turn(g, t))]
        ps = [[a + 1, b + 1] for a in range(len(xs)) for b in range(len(xs)) if a // 4 == b // 4 or g.p(0.05)]
        c.add({"op": "types", "ts": xs, "pairs": ps, "names": names + ["data", "c"]}, "random types and variations")
    for _ in range(c.n(30, 400)):
        t = g.wide_type()
        xs = [t, g.late(t), g.late(t), turn(g, t)]
        if g.p(0.3):
            xs = [{"t": "vec", "b": x, "n": 3} for x in xs] if g.p(0.5) else [{"t": "bundle", "f": [{"n": "w", "flip": g.p(0.3), "ty": x}]} for x in xs]
        c.add({"op": "types", "ts": xs, "pairs": [[1, 1]] + [[a, b] for a in (1, 2) for b in (2, 3, 4)], "names": ["f0", "f%d" % (len(t["f"]) - 1), "z", "f"]}, "wide types and variations")
    if c.prop == "C09":
        c.add({"op": "orient"}, "algebra of orientations")
    else:
        ws = [0, 1, 2, 15, 100, 32767, 32768, 65534, 65535]
        pts = [-32768, -32767, -100, -1, 0, 1, 2, 100, 32766, 32767]
        xs = [[a, b, x, y] for a in ws for b in pts for x in ws for y in pts]
        xs = c.sample(xs, c.n(3000, 9000)) + [[g.u16(), g.i16(), g.u16(), g.i16()] for _ in range(c.n(1000, 20000))]
        for i in range(0, len(xs), 200):
            c.add({"op": "fmax", "xs": xs[i:i + 200]}, "widths and points")
        # merging inside expressions
        for _ in range(c.n(60, 1000)):
            t = g.type(g.pick([1, 2, 3]))
            vs = [t, vary(g, t), vary(g, t), turn(g, t)]
            if g.p(0.2):
                t = g.wide_type()
                vs = [t, g.late(t), g.late(t), g.late(t)]
            alike = g.p(0.3)            # declarations may well share a name
            env = {"mods": [], "smems": [], "decls": [{"k": "wire", "n": "w" if alike else "w%d" % i, "ty": x} for i, x in enumerate(vs)] + [{"k": "wire", "n": "s", "ty": {"t": "uint", "w": 1}}]}
            rf = lambda i: {"e": "ref", "n": env["decls"][i]["n"], "d": next(j for j, d in enumerate(env["decls"]) if d == env["decls"][i]) + 1}
            xs = [{"e": "mux", "s": rf(4), "a": rf(a), "b": rf(b)} for a in range(4) for b in range(4)]
            c.add({"op": "exprs", "env": env, "xs": xs}, "multiplexers")


# -- expressions
def wires(ts):
    return {"mods": [], "smems": [], "decls": [{"k": "wire", "n": "w%d" % i, "ty": t} for i, t in enumerate(ts)]}


@plan("C11")
def operations(c):
    e = c.emits("MC_Ops")[0]
    ts = e["types"]
    env = wires(ts)
    ref = lambda i: {"e": "ref", "n": "w%d" % i, "d": i + 1}
    idx = range(len(ts))
    unary, binary = [], []
    for op in e["ops"]:
        for p in op["p"]:
            if op["n"] == 1:
                unary += [{"e": "op", "op": op["op"], "x": [ref(i)], "p": p} for i in idx]
            else:
                binary += [{"e": "op", "op": op["op"], "x": [ref(i), ref(j)], "p": p} for i in idx for j in idx]
    xs = c.sample(unary, c.n(8000, 10**9)) + c.sample(binary, c.n(16000, 10**9))
    # every pair of equal kinds, which is where the width rules are
    if not c.thorough:
        xs += c.sample([x for x in binary if ts[x["x"][0]["d"] - 1]["t"] == ts[x["x"][1]["d"] - 1]["t"]], 9000)
    for i in range(0, len(xs), 500):
        c.add({"op": "exprs", "env": env, "xs": xs[i:i + 500]}, "operations of the model")
    g = c.g
    for _ in range(c.n(60, 1500)):
        ts2 = [g.ground() for _ in range(8)]
        env2 = wires(ts2)
        def ex(d):
            if d == 0:
                i = g.r.randrange(8)
                return {"e": "ref", "n": "w%d" % i, "d": i + 1}
            return g.opx(lambda: ex(d - 1))
        c.add({"op": "exprs", "env": env2, "xs": [ex(g.pick([1, 1, 2, 3])) for _ in range(100)]}, "random operations")


def random_env(c, n=8, depth=2):
    """declarations of one random module with expressions over them"""
    g = c.g
    mods = []
    for x in ["m1", "m2"]:
        mods.append(g.module(x, mods, 2, 1))
    mods = [dict(m, body=[]) for m in mods]
    sc = gen.Scope(mods)
    for _ in range(2):
        sc.declare_mem(dict(g.smem(), ty=g.pick([g.type(), {"t": "vec", "b": g.type(), "n": 4}])))
    for p in [g.port() for _ in range(3)]:
        sc.declare(p)
    for _ in range(n):
        sc.declare(g.entity(sc))
    return sc, {"mods": mods, "smems": sc.smems, "decls": sc.decls}


def fields_of(g, t, out):
    """steps through a type"""
    while t["t"] in ("vec", "bundle"):
        if t["t"] == "vec":
            out.append(None)
            t = t["b"]
        elif t["f"]:
            f = g.pick(t["f"])
            out.append(f["n"])
            t = f["ty"]
        else:
            return


def paths(c, sc, n):
    """access paths which mostly exist"""
    g, xs = c.g, []
    typed = [d for d in sc.decls if "ty" in d and d["k"] != "mem"]
    for _ in range(n):
        d = g.pick(typed) if typed and g.p(0.8) else g.pick(sc.decls)
        e = {"e": "ref", "n": d["n"], "d": sc.decls.index(d) + 1}
        steps = []
        if "ty" in d and d["k"] != "mem":
            fields_of(g, d["ty"], steps)
        elif d["k"] == "mem" and d["ports"]:
            steps.append(g.pick(d["ports"])["n"])
            steps.append(g.pick(["data", "mask", "rdata", "wdata", "wmask", "addr", "clk", "en", "wmode"]))
            fields_of(g, d["ty"], steps)
        for s in steps[:g.r.randrange(len(steps) + 1)] if g.p(0.3) else steps:
            if s is None:
                e = {"e": "index", "b": e, "i": g.u16()} if g.p(0.5) else {"e": "access", "b": e, "x": g.expr(sc, 1)}
            else:
                e = {"e": "field", "b": e, "n": s if g.p(0.95) else g.field_name()}
        xs.append(e)
    return xs


@plan("C12", "C13")
def expressions(c):
    t = c.model("MC_Access")
    env = engine.printed(t, "ENV")[0]
    xs = c.sample(engine.printed(t, "EMIT"), c.n(9000, 120000))
    for i in range(0, len(xs), 250):
        c.add({"op": "exprs", "env": env, "xs": xs[i:i + 250]}, "expressions of the model")
    c.add({"op": "ents", "env": env}, "declarations of the model")
    for _ in range(c.n(130, 4000)):
        sc, env2 = random_env(c)
        xs = paths(c, sc, 20) + [c.g.expr(sc, c.g.pick([1, 2, 3])) for _ in range(15)]
        if c.g.p(0.5):
            xs += [{"e": "mux", "s": c.g.pick(xs), "a": c.g.pick(xs), "b": c.g.pick(xs)} for _ in range(8)]
            refs = [{"e": "ref", "n": d["n"], "d": env2["decls"].index(d) + 1} for d in env2["decls"]]
            xs += [{"e": "mux", "s": a, "a": a, "b": b} for a in refs for b in refs]
            env2, xs = gen.common(c.g, env2, xs)
        c.add({"op": "exprs", "env": env2, "xs": xs}, "random expressions")
        c.add({"op": "ents", "env": env2}, "random declarations")
    for _ in range(c.n(40, 1000)):
        sc = gen.Scope()
        t = c.g.deep_type(c.g.many(12)) if c.g.p(0.9) else c.g.wide_type()
        for e in ({"k": "port", "n": "a", "dir": c.g.pick(["input", "output"]), "ty": t, "info": []}, {"k": "wire", "n": "w", "ty": t},
                  {"k": "reg", "n": "r", "ty": c.g.late(t) if "f" in t and len(t["f"]) > 30 else vary(c.g, t), "clk": c.g.lit(), "rst": []}):
            sc.declare(e)
        xs = [c.g.path_into(c.g.ref(sc), t) for _ in range(6)] + [c.g.deep_expr(sc, c.g.many(14)) for _ in range(6)]
        a, w, r = ({"e": "ref", "n": x, "d": sc.ent[x]} for x in "awr")
        xs += [{"e": "mux", "s": a, "a": w, "b": r}, {"e": "mux", "s": a, "a": a, "b": w}]
        c.add({"op": "exprs", "env": {"mods": [], "smems": [], "decls": sc.decls}, "xs": xs}, "deep expressions")
    if c.prop == "C13":
        c.add({"op": "orient"}, "flows and orientations")


@plan("C14")
def interfaces(c):
    t = c.model("MC_Iface")
    env = engine.printed(t, "ENV")[0]
    es = engine.printed(t, "EMIT")
    g = c.g
    ds, mods = [], []

    def flush():
        if ds:
            c.add({"op": "ents", "env": {"mods": list(mods), "smems": [], "decls": list(ds)}}, "interfaces of the model")
        ds.clear()
        mods.clear()
    for k, e in enumerate(c.sample(es, c.n(2600, 50000))):
        if e["what"] == "mem":
            ds.append({"k": "mem", "n": "m%d" % k, "ty": env["datas"][e["di"] - 1], "depth": env["depths"][e["dd"] - 1], "ports": e["ps"],
                       "rl": 0, "wl": 1, "ruw": "undefined"})
        else:
            mods.append({"n": "M%d" % k, "kind": g.pick(["module", "extmodule"]), "info": [], "ports": e["ps"], "body": [], "defname": [], "params": []})
            ds.append({"k": "inst", "n": "i%d" % k, "of": "M%d" % k, "mi": len(mods)})
        if len(ds) == 40:
            flush()
    flush()
    for _ in range(c.n(120, 3000)):
        sc, env2 = random_env(c, 6)
        for m in [g.memory("q%d" % i) for i in range(4)]:
            if g.p(0.2):
                m["ports"] = [{"n": "p%d" % i, "d": g.pick(["read", "write", "rdwr"])} for i in range(g.many())]
                m["ty"] = g.wide_type() if g.p(0.1) else g.deep_type(g.many(8)) if g.p(0.5) else m["ty"]
            sc.declare(m)
        env2["decls"] = sc.decls
        c.add({"op": "ents", "env": env2}, "random declarations")
    xs = set()
    for b in range(0, 128):
        for d in (-2, -1, 0, 1, 2):
            if 0 <= 2**b + d < 2**128:
                xs.add(2**b + d)
    xs |= set(range(0, c.n(300, 3000))) | {2**128 - 1} | {g.r.getrandbits(g.r.randrange(1, 128)) for _ in range(c.n(300, 5000))}
    xs = [str(x) for x in sorted(xs)]
    for i in range(0, len(xs), 100):
        c.add({"op": "addrw", "xs": xs[i:i + 100]}, "address widths")


# -- texts in texts
@plan("C15")
def escapes(c):
    ss = c.emits("MC_Escape")
    ss = c.sample(ss, c.n(4400, 40000)) + [c.g.text(20) for _ in range(c.n(200, 4000))] + [c.g.text(c.r.choice([40, 70, 140, 300])) for _ in range(c.n(40, 800))]
    ck = {"k": "port", "n": "c", "dir": "input", "ty": {"t": "clock"}, "info": []}
    ref = {"e": "ref", "n": "c", "d": 1}
    per = 20
    for i in range(0, len(ss), per):
        xs = ss[i:i + per]
        ext = {"n": "X", "kind": "extmodule", "info": [], "ports": [], "body": [], "defname": [],
               "params": sorted([{"k": "p%d" % k, "v": {"str": s}} for k, s in enumerate(xs)], key=lambda p: p["k"])}
        body = [{"s": "decl", "ent": {"k": "inst", "n": "i", "of": "X", "mi": 1}, "info": [xs[0]]}]
        for s in xs:
            body.append({"s": "skip", "info": [s]})
            msg = c.r.choice([[{"lit": s}], [{"x": ref, "f": "b"}, {"lit": s}], [{"lit": s}, {"x": ref, "f": "c"}], [{"lit": s}, {"x": ref, "f": "d"}, {"lit": s}]])
            body.append({"s": "print", "clk": ref, "c": ref, "msg": msg, "name": [], "info": []})
        top = plain_mod("top", body, [dict(ck, info=[xs[-1]])], [xs[len(xs) // 2]])
        c.add({"op": "rt", "mods": [ext, top], "top": 2, "info": [xs[-1]]}, "strings in every context")
    raws = c.sample(ss, c.n(420, 20000))
    ctxs = ["circuit m :\n module m :\n  skip @[%s]\n  skip\n", "circuit m : @[%s]\n module m :\n  skip\n",
            "circuit m :\n extmodule m :\n  parameter p = \"%s\"\n", "circuit m :\n extmodule m :\n  parameter p = '%s'\n",
            "circuit m :\n module m :\n  input a : UInt<4>\n  printf(a, a, \"%s\")\n", "circuit m :\n module m :\n  input a : UInt<4>\n  printf(a, a, \"%s\", a)\n  skip\n"]
    for s in raws:
        for x in (ctxs if c.thorough else c.r.sample(ctxs, 3)):
            c.add({"op": "parse", "t": x.replace("%s", s)}, "string as written")
    for a, t, _ in texts(c, ["info", "fmt", "params"], c.n(200, 6000), more="1"):
        c.add({"op": "parse", "t": t}, "model of texts, " + a)


@plan("C16")
def numbers(c):
    e = c.emits("MC_Num")[0]
    cases = [(p, n) for p in e["places"] for n in e["nums"]] + [(p, n) for p in e["lits"] for n in e["syst"]]
    cases += [(p, n) for p in e["places"] for n in e["syst"] if n[0] != '"']
    for p, n in cases:
        c.add({"op": "parse", "t": p[0] + n + p[1]}, "numeral of the model")
    g = c.g
    for _ in range(c.n(500, 15000)):
        bits = g.pick([3, 8, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 500])
        v = g.r.getrandbits(bits)
        if g.p(0.4):
            v = (1 << bits) + g.pick([-2, -1, 0, 1])
        v = max(v, 0)
        s = g.pick(["", "", "-", "+"])
        z = g.pick(["", "", "0", "000", "0" * g.pick([8, 17, 20, 33, 40, 65, 130, 257])])
        n = g.pick([s + z + str(v), "\"h%s%s%x\"" % (s, z, v), "\"h%s%s%X\"" % (s, z, v), "\"o%s%s%o\"" % (s, z, v), "\"b%s%s%s\"" % (s, z, bin(v)[2:]),
                    "%s%s%d.%d" % (s, z, v % 10000, g.r.randrange(100)), "%s%d.%dE%d" % (s, v % 100, g.r.randrange(10), g.r.randrange(-3, 4))])
        p = g.pick(e["places"])
        c.add({"op": "parse", "t": p[0] + n + p[1]}, "random numeral")
    for a, t, _ in texts(c, ["lits"], c.n(300, 10000), more="1"):
        c.add({"op": "parse", "t": t}, "model of texts, " + a)


# -- totality
FRAGMENTS = gen.TOKENS + gen.KEYNAMES + gen.NAMES + ["circuit m :\n", " module m :\n", "  ", "   ", "\n", "\n", "\n", "  skip\n", "input a : UInt<1>\n", "UInt<", "SInt<1>(", ">", "Fixed<3><<-2>>",
             "{a : UInt, flip b : {c : Clock}}", "[4]", "wire w : ", "node n = ", "reg r : UInt, c with : ( reset => (a, b))", "mem m :\n", "data-type => UInt\n", "reader => r\n",
             "cmem", "smem s : UInt[2], old", "infer mport p = s[a], a", "inst i of m", "attach(a, b)", "stop(a, a, 1)", "printf(a, a, \"%d\", a)", "when a :", "else :", "defname = x",
             "parameter p = 1", "99999999999999999999", "65536", "UInt(\"hfff\")", "SInt(\"b-1\")", "bits(a, 3, 1)", "mux(a, b, c)", "validif(a, b)", "asFixed(a, -1)"]


def garbage(g):
    k = g.r.randrange(5)
    if k == 0:
        return "".join(g.pick(gen.JUNK) for _ in range(g.r.randrange(0, 60)))
    if k == 1:
        return "circuit m :\n module m :\n  " + "".join(g.pick(FRAGMENTS) for _ in range(g.r.randrange(0, 15)))
    if k == 2:
        return " ".join(g.pick(FRAGMENTS) for _ in range(g.r.randrange(0, 25)))
    if k == 3:
        return "circuit m :\n" + "".join(" " * g.r.randrange(0, 5) + g.pick(FRAGMENTS) + g.pick(["\n", "\n", " ", "\r\n"]) for _ in range(g.r.randrange(0, 20)))
    return "".join(chr(g.pick([g.r.randrange(0, 128), g.r.randrange(128, 0xD800), g.r.randrange(0xE000, 0x110000)])) for _ in range(g.r.randrange(0, 30)))


@plan("C17")
def totality(c):
    g = c.g
    ts = [garbage(g) for _ in range(c.n(60000, 1000000))] + neighbours(c)
    for _ in range(c.n(3000, 60000)):
        ms = g.circuit_docs(size=4)
        t = doc_text(c, ms)
        for _ in range(4):
            ts.append(gen.mutate(g, t if g.p(0.7) else gen.mutate(g, t)))
    ts += [t for s in gen.SHOW for t in gen.stranges(g, s)]
    ts += [gen.strange(g, g.pick(gen.SHOW)) for _ in range(c.n(3000, 40000))]
    ts += [t for _, t, _ in texts(c, ALL_ALPHAS, c.n(1000, 10000))]
    reqs = [{"op": "parse", "t": t, "look": False} for t in dict.fromkeys(ts)]
    for q in c.unusual(reqs, c.n(3000, 30000), lambda o: o["det"] and all(x == "none" for x in o["after"])):
        c.add(q, "garbage, mutated text, neighbour of a showcase, model of texts")
    e = c.emits("MC_Num")[0]
    for p in e["places"]:
        for n in e["nums"]:
            c.add({"op": "parse", "t": p[0] + n + p[1], "look": False}, "numeral of the model")
        for n in ("9" * 400, "\"h" + "f" * 20000 + "\"", "\"b-" + "1" * 70000 + "\"", "0" * 5000, "-" * 50):
            c.add({"op": "parse", "t": p[0] + n + p[1], "look": False}, "huge numeral")
    t = c.model("MC_Iter")
    env = engine.printed(t, "ENV")[0]
    for e in c.sample(engine.printed(t, "EMIT"), c.n(300, 5000)):
        steps = [{"a": "next"} if i == 0 else {"a": "add", "m": env["added"][i - 1]} for i in e["h"]] + [{"a": "next"}] * 3
        c.add({"op": "mods", "t": "".join(env["parts"][i - 1] for i in e["s"]), "names": ["A"], "steps": steps}, "history of an iterator")
    for _ in range(c.n(300, 6000)):
        c.add({"op": "mods", "t": garbage(g), "names": [], "steps": [{"a": "next"}] * 4}, "garbage for the iterator")
    for _ in range(c.n(400, 6000)):
        b = list(garbage(g).encode())
        if b and g.p(0.5):
            b[g.r.randrange(len(b))] = g.r.randrange(256)
        if gen.lettered_bytes(b):
            c.add({"op": "read", "bytes": b, "sizes": [g.pick([1, 3, 100])], "fail": [], "kind": 0, "intr": g.p(0.2)}, "garbage stream")
    pool = [t for t in dict.fromkeys(ts) if len(t) < 3000]
    for _ in range(c.n(60, 1500)):
        pick = c.sample(pool, 20) + [doc_text(c, g.circuit_docs(size=3, unique=False)) for _ in range(6)] + c.sample(gen.SHOW, 4)
        c.r.shuffle(pick)
        c.add({"op": "hist", "ts": pick}, "texts in several orders and threads")
    for j in range(c.n(240, 3000)):      # texts of equal length
        t = g.pick(gen.SHOW) if g.p(0.2) else doc_text(c, g.circuit_docs(size=g.pick([2, 4, 8]), n=g.pick([1, 2])))
        pick = [t]
        for _ in range(g.pick([4, 12])):
            pick.append(gen.resembling(g, g.pick(pick)))
        c.add({"op": "hist", "ts": pick}, "texts of equal length at the same place")
    for k in ("paren", "vec", "bundle", "field", "when", "elsewhen"):
        for n in (10, 60, 150):
            c.add({"op": "deep", "kind": k, "n": n}, "moderate nesting")
    for a, o, m, z, b in gen.nestings():
        for n in (3, 40, 160):
            c.add({"op": "deep", "kind": "text", "pre": a, "open": o, "mid": m, "close": z, "post": b, "n": n}, "moderate nesting")


# -- parts on their own
GROUNDS = ("uint", "sint", "analog", "fixed", "clock", "reset", "areset")


def kind_of(t):
    return "ground" if t["t"] in GROUNDS else "type"


def fields_in(t, out):
    if t["t"] == "vec":
        fields_in(t["b"], out)
    elif t["t"] == "bundle":
        for f in t["f"]:
            out.append(f)
            fields_in(f["ty"], out)


def refs_in(x):
    if isinstance(x, list):
        return [r for y in x for r in refs_in(y)]
    if isinstance(x, dict):
        return [x] if x.get("e") == "ref" else [r for y in x.values() for r in refs_in(y)]
    return []


def parts_of(c, env, xs):
    """documents of the parts of declarations and expressions which print on their own"""
    g, out = c.g, []
    for x in xs:
        out.append(("expr", x))
        if x["e"] == "op":
            out.append(("op", x))
    for d in env["decls"]:
        if d["k"] in ("port", "reg", "mport", "inst"):
            out.append(("ent", d))
            ns = [x["n"] for x in refs_in(d)]
            if ns and d["k"] != "inst":  # named like something it refers to
                out.append(("ent", dict(d, n=g.pick(ns))))
        if "ty" in d:
            out.append(("type", d["ty"]))
            fs = []
            fields_in(d["ty"], fs)
            out += [("field", f) for f in fs]
            out += [("ground", f["ty"]) for f in fs if kind_of(f["ty"]) == "ground"]
        if d["k"] == "mem":
            out += [("memport", p) for p in d["ports"]]
    out += [("smem", m) for m in env["smems"]]
    out += [("param", g.param()) for _ in range(6)]
    return [{"k": k, "d": d} for k, d in out]


def model_parts(c):
    t = c.model("MC_Parts")
    return engine.printed(t, "ENV")[0], sorted(engine.printed(t, "EMIT"), key=json.dumps)


@plan("C21")
def parts(c):
    g = c.g
    env, xs = model_parts(c)
    xs = c.sample(xs, c.n(2500, 40000))
    for i in range(0, len(xs), 60):
        c.add({"op": "parts", "env": env, "xs": xs[i:i + 60]}, "parts of the model")
    none = {"mods": [], "smems": [], "decls": []}
    xs = [{"k": k, "d": d} for k0, ds in (("dir", ["input", "output"]), ("ruw", gen.RUW)) for d in ds for k in (k0, k0 + "kw")]
    xs += [{"k": "smemkw", "d": {"n": "m", "ty": {"t": "clock"}, "kind": k, "ruw": r}} for k in ("cmem", "smem") for r in ([[]] if k == "cmem" else [[], ["old"]])]
    xs += [{"k": "modkw", "d": dict(plain_mod("m"), kind=k)} for k in ("module", "extmodule")]
    c.add({"op": "parts", "env": none, "xs": xs}, "keywords")
    for _ in range(c.n(160, 4000)):
        sc, env = random_env(c)
        env["decls"] = sc.decls
        env, ys = gen.distinct(env, [g.expr(sc, g.pick([1, 2, 3])) for _ in range(12)])
        c.add({"op": "parts", "env": env, "xs": parts_of(c, env, ys)}, "random parts")
    for _ in range(c.n(60, 1500)):
        sc = gen.Scope()
        for i in range(2):
            t = g.deep_type(g.many(12)) if g.p(0.5) else {"t": "bundle", "f": [{"n": "f%d" % i, "flip": g.p(0.3), "ty": g.type(1)} for i in range(g.many())]}
            sc.declare({"k": "wire", "n": "w%d" % i if g.p(0.5) else g.long_name(), "ty": t})
        sc.declare({"k": "reg", "n": "r", "ty": g.deep_type(3), "clk": g.deep_expr(sc, 3), "rst": []})
        env, ys = gen.distinct({"mods": [], "smems": [], "decls": sc.decls}, [g.deep_expr(sc, g.many(14)) for _ in range(4)])
        c.add({"op": "parts", "env": env, "xs": parts_of(c, env, ys)}, "large parts")
    ps = [{"k": "param", "d": g.param()} for _ in range(c.n(1500, 30000))]
    for i in range(0, len(ps), 60):
        c.add({"op": "parts", "env": none, "xs": ps[i:i + 60]}, "random parameters")


@plan("C22")
def equality(c):
    g = c.g
    menv, xs = model_parts(c)
    kinds, prs = {}, []                  # all pairs of a sample of each kind
    for x in xs:
        kinds.setdefault(x["k"], []).append(x["d"])
    for k in sorted(kinds):
        if k not in ("dir", "ruw"):
            ds = c.sample(kinds[k], c.n(26, 100))
            prs += [{"k": "anyent" if k == "ent" else k, "a": a, "b": b} for a in ds for b in ds]
    for i in range(0, len(prs), 200):
        c.add({"op": "pairs", "env": menv, "xs": prs[i:i + 200]}, "pairs of parts of the model")
    for _ in range(c.n(150, 4000)):
        sc, env = random_env(c)
        env["decls"] = sc.decls
        xs = parts_of(c, env, [g.expr(sc, g.pick([1, 2, 3])) for _ in range(8)])
        xs += [{"k": "ent", "d": d} for d in env["decls"]]
        prs = []
        for x in xs:
            prs.append({"k": x["k"], "a": x["d"], "b": x["d"]})
            for _ in range(2):
                y = gen.tweak(g, x["d"])
                if x["k"] == "op" and y["e"] != "op" or x["k"] == "ground" and y["t"] not in GROUNDS:
                    continue
                prs.append({"k": x["k"], "a": x["d"], "b": y})
                if x["k"] == "type":
                    prs.append({"k": "otype", "a": {"ty": x["d"], "f": g.p(0.5)}, "b": {"ty": y, "f": g.p(0.5)}})
                    if y["t"] in GROUNDS:
                        prs.append({"k": "mixed", "a": x["d"], "b": y})
                if x["k"] == "ent":
                    prs.append({"k": "anyent", "a": x["d"], "b": g.pick(env["decls"])})
            if x["k"] == "ground":
                prs.append({"k": "mixed", "a": x["d"], "b": x["d"]})
        # statements over these declarations, without new ones
        for _ in range(12):
            sc2 = gen.Scope()
            sc2.ent, sc2.mem = dict(sc.ent), dict(sc.mem)
            s = g.stmt(sc2, 0)
            if s["s"] in ("decl", "smem") and (sc2.decls and sc2.decls[0]["k"] in ("mport", "inst") or sc2.smems):
                continue
            for k in ("stmt", "stmtkind"):
                prs.append({"k": k, "a": s, "b": gen.tweak(g, s)})
                prs.append({"k": k, "a": s, "b": s})
        c.add({"op": "pairs", "env": env, "xs": prs}, "random parts and their neighbours")
    none = {"mods": [], "smems": [], "decls": []}
    prs = []
    for _ in range(c.n(40, 800)):        # parameters which look alike
        v = g.pick([0, 1, 5, 10, 2**31, 2**40, g.r.randrange(100000)])
        s = g.p(0.3) and v != 0
        t = str(v)
        z = len(t) - len(t.rstrip("0")) if v else 0
        whole = {"dbl": {"neg": s, "d": t[:len(t) - z], "x": z}}
        part = {"dbl": {"neg": s, "d": t + "5" if v else "5", "x": -1}}
        ps = [{"int": "-" * s + t}, whole, part, {"str": "-" * s + t}, {"str": "-" * s + t + ".0"}, {"str": ""}, {"int": t}]
        prs += [{"k": "param", "a": a, "b": b} for a in ps for b in ps]
    for i in range(0, len(prs), 200):
        c.add({"op": "pairs", "env": none, "xs": prs[i:i + 200]}, "parameters which look alike")
    for _ in range(c.n(250, 6000)):
        prs = []
        m = g.module("m", [], c.r.choice([1, 3, 6]), 3)
        prs.append({"k": "mod", "a": m, "b": m})
        prs += [{"k": "mod", "a": m, "b": gen.tweak(g, m)} for _ in range(4)]
        cs = g.circuit_docs(n=c.r.choice([2, 3]), size=3)
        doc = {"mods": cs, "info": g.info()}
        prs.append({"k": "circ", "a": doc, "b": doc})
        prs += [{"k": "circ", "a": doc, "b": {"mods": cs, "info": g.pick([[], ["x"]])}}]
        prs += [{"k": "circ", "a": doc, "b": dict(doc, mods=[gen.tweak(g, x) if i == j else x for i, x in enumerate(cs)])} for j in range(len(cs))]
        c.add({"op": "pairs", "env": none, "xs": prs}, "random modules and circuits and their neighbours")
    for k, cs in list(bigs(c, 5, 100)) + list(huges(c, 1, 8)):
        prs = []
        doc = {"mods": cs, "info": []}
        prs.append({"k": "circ", "a": doc, "b": doc})
        prs += [{"k": "circ", "a": doc, "b": dict(doc, mods=[gen.tweak(g, x) if x is cs[j] else x for x in cs])} for j in [g.r.randrange(len(cs)), len(cs) - 1]]
        c.add({"op": "pairs", "env": none, "xs": prs}, "large circuits and their neighbours")


@plan("C23")
def refusals(c):
    g = c.g
    cuts = c.emits("MC_Sink")[0]
    none = {"mods": [], "smems": [], "decls": []}
    env, xs = model_parts(c)
    for x in c.sample(xs, c.n(800, 12000)):
        c.add({"op": "sink", "env": env, "x": x, "cuts": c.sample(cuts, 12)}, "part of the model")
    for _ in range(c.n(60, 1500)):
        sc, env2 = random_env(c)
        env2["decls"] = sc.decls
        env2, ys = gen.distinct(env2, [g.expr(sc, g.pick([1, 2, 3])) for _ in range(4)])
        for x in c.sample(parts_of(c, env2, ys), 6):
            c.add({"op": "sink", "env": env2, "x": x, "cuts": c.sample(cuts, 16)}, "random part")
    for _ in range(c.n(120, 3000)):
        ms = g.circuit_docs(n=g.pick([1, 1, 2]), size=g.pick([1, 3]))
        c.add({"op": "sink", "env": none, "x": {"k": "circ", "d": {"mods": ms, "info": g.info()}}, "cuts": c.sample(cuts, c.n(30, 50))}, "random circuit")
    for k, ms in bigs(c, 2, 30):
        c.add({"op": "sink", "env": none, "x": {"k": "circ", "d": {"mods": ms, "info": g.info()}}, "cuts": c.sample(cuts, 10)}, "large circuit, " + k)
    t = c.model("MC_Write", KIND="all")
    for ms in c.sample(engine.printed(t, "EMIT"), c.n(150, 3000)):
        c.add({"op": "sink", "env": none, "x": {"k": "circ", "d": {"mods": ms, "info": ["top"]}}, "cuts": c.sample(cuts, c.n(16, 50))}, "model of writing")
    for t in c.sample(neighbours(c, {"less": 100, "other": 100}), c.n(80, 1000)):
        c.add({"op": "sink", "env": none, "x": {"k": "err", "d": t}, "cuts": c.sample(cuts, 8)}, "error")


@plan("C18")
def traversals(c):
    g = c.g
    nest = texts(c, ["nest", "when", "scope", "mods"], c.n(120, 3000), keep=lambda e: e["a"])
    obs = engine.run_harness([{"op": "parse", "t": t} for _, t, _ in nest])
    for (a, t, _), o in zip(nest, obs):
        c.add({"op": "parse", "t": t}, "model of texts, " + a)
        if "panic" not in o and o["circ"]["k"] == "ok":
            c.add({"op": "trav", "mods": o["mods"], "names": ["a", "b"]}, "modules of the model of texts, " + a)
    gs = c.emits("MC_Printer")
    for deps in c.sample(gs, c.n(300, 4000)):
        ms = []
        for i, d in enumerate(deps):
            body = []
            for k, x in enumerate(d):
                s = {"s": "decl", "ent": {"k": "inst", "n": "i%d" % (k % 2), "of": "M%d" % x, "mi": x}, "info": []}
                body.append(s)
            for _ in range(g.r.randrange(3)):
                j = g.r.randrange(len(body) + 1)
                h = g.r.randrange(j, len(body) + 1)
                body = body[:g.r.randrange(j + 1)] + [{"s": "when", "c": {"e": "uint", "v": "1", "w": 1}, "t": body[j:h], "f": body[h:], "info": []}]
            ms.append(plain_mod("M%d" % (i + 1), body))
        c.add({"op": "trav", "mods": ms, "names": ["a"]}, "graph of modules")
    for _ in range(c.n(200, 4000)):
        ms = g.circuit_docs(n=3, size=6)
        c.add({"op": "trav", "mods": ms, "names": gen.NAMES[:4]}, "random modules")
    for k, ms in huges(c, 1, 6, ["mods", "insts", "args", "whens", "depth", "elses", "nodes", "stmts"]):
        c.add({"op": "trav", "mods": ms, "names": ["a", "w3", "u1", "i"]}, "hundreds of " + k)
    for k, ms in bigs(c, 5, 100, ["mods", "insts", "deep", "chain", "stmts", "mems", "args"]):
        c.add({"op": "trav", "mods": ms, "names": ["a", "b", "u1", "i0"]}, "large modules, " + k)
    for _ in range(c.n(40, 1000)):
        sc, env = random_env(c)
        c.add({"op": "exprs", "env": env, "xs": [g.deep_expr(sc, g.many(16)) for _ in range(6)]}, "deep expressions")
    for _ in range(c.n(150, 4000)):
        sc, env = random_env(c)
        c.add({"op": "exprs", "env": env, "xs": [g.expr(sc, g.pick([1, 2, 3, 4])) for _ in range(20)]}, "random expressions")
    t = c.model("MC_Access")
    env = engine.printed(t, "ENV")[0]
    xs = c.sample(engine.printed(t, "EMIT"), c.n(4000, 60000))
    for i in range(0, len(xs), 250):
        c.add({"op": "exprs", "env": env, "xs": xs[i:i + 250]}, "expressions of the model")
    ops = c.emits("MC_Ops")[0]
    lit = lambda i: {"e": "uint", "v": "%x" % (i + 1), "w": 4}
    refs = {"mods": [], "smems": [], "decls": [{"k": "wire", "n": "w%d" % i, "ty": {"t": "uint", "w": i}} for i in range(3)]}
    ref = lambda i: {"e": "ref", "n": "w%d" % i, "d": i + 1}
    xs = []
    for o in ops["ops"]:
        for mk in ([ref(0), ref(1)], [lit(0), ref(2)], [{"e": "mux", "s": ref(0), "a": ref(1), "b": ref(1)}, {"e": "field", "b": ref(2), "n": "x"}]):
            for p in o["p"][:3]:
                xs.append({"e": "op", "op": o["op"], "x": mk[:o["n"]], "p": p})
    c.add({"op": "exprs", "env": refs, "xs": xs}, "operands of every operation")


@plan("C19")
def builders(c):
    kinds = ["mem", "reg", "port", "module", "field", "circuit", "stmt", "other"]
    ts = c.models_([("MC_Build", {"KIND": k}) for k in kinds])
    for k, t in zip(kinds, ts):
        env = engine.printed(t, "ENV")[0]
        for h in c.sample(engine.printed(t, "EMIT"), c.n(900, 15000)):
            c.add({"op": "build", "env": env, "steps": h}, "history of a " + k)
    g = c.g
    for _ in range(c.n(260, 8000)):
        sc, env = random_env(c)
        env["decls"] = sc.decls
        env, xs = gen.distinct(env, [[g.expr(sc, g.pick([0, 1, 2, 3])) for _ in range(10)]])
        c.add({"op": "build", "env": env, "steps": random_history(g, g.pick(kinds), env, xs[0])}, "random history")


def random_history(g, kind, env, xs):
    """constructor and many setters with values of any kind"""
    n = lambda: g.ident() if g.p(0.7) else g.long_name()
    ty = lambda: g.deep_type(g.many(8)) if g.p(0.1) else g.type()
    x = lambda: g.pick(xs)
    mp = lambda: {"n": n(), "d": g.pick(["read", "write", "rdwr"])}
    info = lambda: g.pick([[], [g.text()], [""], ["i"]])
    stmt = lambda: g.pick([{"s": "skip", "info": info()}, {"s": "inval", "x": {"e": "uint", "v": "1", "w": 1}, "info": info()},
                           {"s": "stop", "clk": g.lit(), "c": g.lit(), "code": g.i64(), "name": [n()] if g.p(0.5) else [], "info": info()},
                           {"s": "when", "c": g.lit(), "t": [{"s": "skip", "info": info()}], "f": [], "info": info()}])
    params = lambda: [{"k": k, "v": g.param()} for k in sorted(set(n() for _ in range(g.r.randrange(4))))]
    steps = []
    if kind == "mem":
        new = {"a": "new_mem", "n": n(), "ty": ty(), "depth": str(g.pick([0, 1, 2**32, 2**64 - 1, g.r.randrange(2**63)]))}
        step = lambda: g.pick([{"a": g.pick(["rl", "wl"]), "v": g.u16()}, {"a": "ruw", "to": g.pick(gen.RUW)}, {"a": "add_port", "p": mp()},
                               {"a": "add_ports", "ps": [mp() for _ in range(g.r.randrange(5))]}])
    elif kind == "reg":
        new = {"a": "new_reg", "n": n(), "ty": ty(), "clk": x()}
        step = lambda: g.pick([{"a": "with_reset", "s": x(), "v": x()}, {"a": "opt_reset", "r": [{"s": x(), "v": x()}] if g.p(0.7) else []}, {"a": "without_reset"}])
    elif kind == "field":
        new = {"a": "new_field", "n": g.field_name(), "ty": ty()}
        step = lambda: g.pick([{"a": "type", "ty": ty()}, {"a": "orient", "flip": g.p(0.5)}, {"a": "flipped"}])
    else:
        infos = lambda: g.pick([{"a": g.pick(["with_info", "set_info"]), "info": info()}, {"a": "clear_info"}])
        step = infos
        if kind == "port":
            new = {"a": "new_port", "n": n(), "ty": ty(), "dir": g.pick(["input", "output"])}
        elif kind == "circuit":
            new = {"a": "new_circuit", "i": g.r.randrange(len(env["mods"])) + 1}
        elif kind == "stmt":
            new = {"a": "new_stmt", "t": stmt()}
        elif kind == "module":
            ports = [dict(g.port(), n=p) for p in dict.fromkeys(n() for _ in range(g.r.randrange(6)))]
            new = {"a": "new_module", "n": n(), "kind": g.pick(["module", "extmodule"]), "ports": ports}
            kinds = lambda: {"a": "kind", "m": {"kind": "module", "body": [stmt() for _ in range(g.r.randrange(3))], "defname": [], "params": []} if g.p(0.5) else
                             {"kind": "extmodule", "body": [], "defname": [n()] if g.p(0.6) else [], "params": params()}}
            step = lambda: g.pick([infos(), infos(), {"a": "push", "t": stmt()}, {"a": "push", "t": stmt()}, kinds()])
        else:
            new = g.pick([{"a": "new_smem", "m": g.smem()}, {"a": "new_inst", "n": n(), "i": g.r.randrange(len(env["mods"])) + 1},
                          {"a": "new_mport", "m": dict(n=n(), k="mport", m=env["smems"][0]["n"], md=1, dir=g.pick(["read", "write", "rdwr", "infer"]), addr=x(), clk=x())}])
            return [new]
    return [new] + [step() for _ in range(g.pick([1, 3, 8, 20, 40]))]


@plan("C20")
def positions(c):
    g = c.g

    def shift(t, origin):
        if not t:           # nothing has no lines
            return
        ks, ts = [0], [t]
        for _ in range(c.n(2, 3)):
            k = g.pick([1, 2, 3, 7, 40]) if g.p(0.95) else g.pick([99, 100, 130, 255, 256, 257, 1000])
            pre = "".join(g.pick(["", " ", "\t ", ";x", " ; module", ";é€\t"]) + g.pick(["\n", "\n", "\r\n"]) for _ in range(k))
            ks.append(k)
            ts.append(pre + t)
        c.add({"op": "shift", "ts": ts, "k": ks}, origin)
    for _ in range(c.n(170, 4000)):
        ms = g.circuit_docs(size=4)
        shift(gen.mutate(g, doc_text(c, ms, plain=g.p(0.5))), "mutated text, shifted")
    for _ in range(c.n(250, 5000)):      # part of a text, which is told the whole
        t = doc_text(c, g.circuit_docs(n=g.pick([1, 2, 3]), size=3), plain=g.p(0.6))
        if g.p(0.7):
            t = gen.mutate(g, t)
        ls = t.split("\n")
        i = min(len(ls) - 1, g.pick([1, 1, 1, 1, 0, g.r.randrange(len(ls))]))
        pre = "\n".join(ls[:i]) + "\n" * (i > 0)
        if g.p(0.4):
            pre = "".join(g.pick(["", "x", "é ;", " module m :", "circuit"]) + g.pick(["\n", "\n", "\r\n", "\n\n\n"]) for _ in range(g.pick([1, 5, 60, 300]))) + g.pick(["", "", "", "abc", " "])
        c.add({"op": "origin", "t": "\n".join(ls[i:]), "pre": pre}, "part of a text")
    for k, ms in huges(c, 1, 4, ["stmts", "whens", "ports", "mods"]):
        shift(gen.mutate(g, doc_text(c, ms)), "mutated text with hundreds of %s, shifted" % k)
    for k, ms in bigs(c, 1, 30):
        shift(gen.mutate(g, doc_text(c, ms)), "mutated large text, shifted")
    for t in neighbours(c, {"less": 100, "swap": 60, "more": 100, "other": 100}):
        shift(t, "neighbour of a showcase, shifted")
    for a, t, _ in texts(c, ["nest", "scope", "mem", "mods", "when", "stmts", "exprs", "params"], c.n(60, 2000), keep=lambda e: not e["a"]):
        shift(t, "model of texts, %s, shifted" % a)

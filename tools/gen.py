"""Seeded generators of requests.

Nothing in here computes what the library is expected to do: generators only
choose inputs (documents, texts, histories). All judging is done by TLC.
"""
import copy
import decimal
import json
import random
import re
import unicodedata

LETTERS = ["é", "ß", "λ", "日", "Ж", "ª", "ⓐ", "\u0345"]
NUMS = ["²", "½", "٣", "Ⅷ"]
ODD = ["€", "→", "😀", "\u00a0", "\x0b", "\x00"]
NAMES = ["a", "b", "c", "x", "y", "w", "clk", "rst", "_t", "$m", "in0", "out_1", "é1", "λ日", "long_name_with_parts"]
KEYNAMES = ["skip", "when", "mux", "UInt", "SInt", "wire", "is", "reg", "add", "mem", "inst", "flip", "Clock", "node",
            "attach", "stop", "printf", "invalid", "bits", "validif", "input", "output", "with", "reset", "mport", "read",
            "module", "circuit", "of", "old", "defname", "parameter", "asFixed", "cat", "smem", "cmem", "infer", "circuitx"]
FIELDS = ["a", "b", "c", "r", "w", "0", "1x", "flip", "data", "addr", "en", "é", "_", "mask"]
BIN = ["add", "sub", "mul", "div", "rem", "lt", "leq", "gt", "geq", "eq", "neq", "dshl", "dshr", "and", "or", "xor", "cat"]
UN = ["asUInt", "asSInt", "asClock", "asAsyncReset", "cvt", "neg", "not", "andr", "orr", "xorr"]
UNN = ["pad", "shl", "shr", "head", "tail", "incp", "decp"]
UNP = ["asFixed", "setp"]
RUW = ["old", "new", "undefined"]
TXT = list("ab z09_$.,:;<>=()[]{}+-*/#!?^~|&@") + ["\"", "'", "\\", "%", "\n", "\t", "]", "n", "t", "b", "%", "\\"] + LETTERS + ["²", "€", "😀", "\r"]


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.heavy = []                  # kinds of statements wanted more often
        self.kinds0 = ["wire", "wire", "reg", "node", "node", "mem", "mport", "inst"]
        self.kinds = self.kinds0

    def pick(self, xs):
        return self.r.choice(xs)

    def p(self, x):
        return self.r.random() < x

    def chance(self, n):
        return self.r.randrange(n) == 0

    # -- small values
    def ident(self):
        return self.pick(KEYNAMES) if self.p(0.2) else self.pick(NAMES)

    def field_name(self):
        return self.pick(FIELDS)

    def u16(self):
        return self.pick([0, 1, 2, 3, 5, 7, 8, 16, 31, 32, 64, 100, 255, 256, 1023, 32767, 32768, 65534, 65535,
                          self.r.randrange(65536), self.r.randrange(64)])

    def small(self):
        return self.pick([0, 1, 2, 3, 4, 7, 8, 15, 16, self.r.randrange(100)])

    def i16(self):
        return self.pick([0, 1, -1, 2, -2, 5, -8, 32767, -32768, -32767, self.r.randrange(-32768, 32768)])

    def width(self):
        return -1 if self.p(0.3) else self.pick([0, 1, 2, 3, 4, 8, 16, 32, 65535, self.u16()])

    def text(self, n=8, empty=True):
        return "".join(self.pick(TXT) for _ in range(self.r.randrange(0 if empty else 1, n + 1)))

    def info(self, often=0.25):
        return [self.text()] if self.p(often) else []

    # -- types
    def ground(self):
        t = self.pick(["uint", "uint", "uint", "sint", "sint", "analog", "fixed", "clock", "reset", "areset"])
        if t in ("clock", "reset", "areset"):
            return {"t": t}
        if t == "fixed":
            return {"t": t, "w": self.width(), "p": [] if self.p(0.3) else [self.i16()]}
        return {"t": t, "w": self.width()}

    def type(self, depth=2):
        k = self.r.randrange(10)
        if depth == 0 or k < 5:
            return self.ground()
        if k < 7:
            return {"t": "vec", "b": self.type(depth - 1), "n": self.u16()}
        names = self.r.sample(FIELDS, self.r.randrange(0, 4))
        return {"t": "bundle", "f": [{"n": n, "flip": self.p(0.4), "ty": self.type(depth - 1)} for n in names]}

    # -- expressions over a scope
    def lit(self):
        bits = self.pick([0, 1, 2, 3, 4, 8, 31, 32, 33, 64, 127, 200])
        v = self.r.getrandbits(bits) if bits else 0
        if self.p(0.3) and bits:
            v = self.pick([1 << bits, (1 << bits) - 1, 1 << (bits - 1)])
        if self.p(0.5):
            return {"e": "uint", "v": "%x" % v, "w": self.u16() if self.p(0.5) else max(v.bit_length(), self.small())}
        n = -v if self.p(0.5) else v
        s = ("-%x" % -n) if n < 0 else "%x" % n
        return {"e": "sint", "v": s, "w": self.u16()}

    def ref(self, sc):
        n = self.pick(sorted(sc.ent))
        return {"e": "ref", "n": n, "d": sc.ent[n]}

    def expr(self, sc, depth=3):
        k = self.r.randrange(14)
        if depth == 0 or k < 4:
            return self.ref(sc) if sc.ent and self.p(0.75) else self.lit()
        sub = lambda: self.expr(sc, depth - 1)
        if k < 6:
            return {"e": "field", "b": sub(), "n": self.field_name()}
        if k < 7:
            return {"e": "index", "b": sub(), "i": self.u16()}
        if k < 8:
            return {"e": "access", "b": sub(), "x": sub()}
        if k < 9:
            return {"e": "mux", "s": sub(), "a": sub(), "b": sub()}
        if k < 10:
            return {"e": "validif", "s": sub(), "v": sub()}
        return self.opx(sub)

    def opx(self, sub):
        k = self.r.randrange(8)
        if k < 3:
            return {"e": "op", "op": self.pick(BIN), "x": [sub(), sub()], "p": []}
        if k < 5:
            return {"e": "op", "op": self.pick(UN), "x": [sub()], "p": []}
        if k < 6:
            return {"e": "op", "op": self.pick(UNN), "x": [sub()], "p": [self.u16()]}
        if k < 7:
            return {"e": "op", "op": self.pick(UNP), "x": [sub()], "p": [self.i16()]}
        return {"e": "op", "op": "bits", "x": [sub()], "p": [self.u16(), self.u16()]}

    # -- entities and statements
    def memory(self, n):
        names = self.r.sample(NAMES, self.r.randrange(0, 4))
        return {"k": "mem", "n": n, "ty": self.type(), "depth": str(self.pick([0, 1, 2, 3, 16, 1023, 2**32, 2**64 - 1, self.r.randrange(2**63)])),
                "ports": [{"n": x, "d": self.pick(["read", "write", "rdwr"])} for x in names],
                "rl": self.pick([0, 0, 1, 2, 65535]), "wl": self.pick([0, 0, 1, 3, 65535]), "ruw": self.pick(RUW)}

    def entity(self, sc):
        k = self.pick(self.kinds)
        n = self.ident()
        if k == "mport" and not sc.mem or k == "inst" and not sc.mods:
            k = "wire"
        again = sc.ent and self.p(0.12)  # a name in use, which may be referred to in here
        if again:
            n = self.pick(sorted(sc.ent))
        old = lambda e: {"e": "ref", "n": n, "d": sc.ent[n]} if again and self.p(0.4) else e
        if k == "wire":
            return {"k": k, "n": n, "ty": self.type()}
        if k == "reg":
            rst = [{"s": old(self.expr(sc, 2)), "v": old(self.expr(sc, 2))}] if self.p(0.5) else []
            return {"k": k, "n": n, "ty": self.type(), "clk": old(self.expr(sc, 2)), "rst": rst}
        if k == "node":
            return {"k": k, "n": n, "v": old(self.expr(sc))}
        if k == "mem":
            return self.memory(n)
        if k == "mport":
            m = self.pick(sorted(sc.mem))
            return {"k": k, "n": n, "m": m, "md": sc.mem[m], "dir": self.pick(["read", "write", "rdwr", "infer"]),
                    "addr": old(self.expr(sc, 2)), "clk": old(self.expr(sc, 1))}
        m = self.pick(sorted(sc.mods))
        return {"k": k, "n": n, "of": m, "mi": sc.mods[m]}

    def smem(self):
        k = self.pick(["cmem", "smem"])
        return {"n": self.ident(), "ty": self.type(), "kind": k, "ruw": [self.pick(RUW)] if k == "smem" and self.p(0.6) else []}

    def msg(self, sc):
        parts = []
        for _ in range(self.r.randrange(0, 5)):
            parts.append({"lit": self.text()} if self.p(0.5) else {"x": self.expr(sc, 2), "f": self.pick("bdxc")})
        return parts

    def i64(self):
        return str(self.pick([0, 1, -1, 5, 2**63 - 1, -2**63, self.r.randrange(-2**63, 2**63)]))

    def stmt(self, sc, depth):
        k = self.pick(["conn", "conn", "pconn", "skip", "decl", "decl", "decl", "decl", "smem", "inval", "attach", "when", "when", "stop", "print"] + self.heavy * 5)
        i = self.info()
        if k in ("conn", "pconn"):
            return {"s": k, "to": self.expr(sc, 2), "from": self.expr(sc), "info": i}
        if k == "decl":
            e = self.entity(sc)
            sc.declare(e)
            return {"s": k, "ent": e, "info": i}
        if k == "smem":
            m = self.smem()
            sc.declare_mem(m)
            return {"s": k, "m": m, "info": i}
        if k == "inval":
            return {"s": k, "x": self.expr(sc, 2), "info": i}
        if k == "attach":
            return {"s": k, "xs": [self.expr(sc, 1) for _ in range(self.r.randrange(1, 4))], "info": i}
        if k == "when" and depth > 0:
            return self.when(sc, depth, i)
        if k == "stop":
            return {"s": k, "clk": self.expr(sc, 1), "c": self.expr(sc, 2), "code": self.i64(), "name": [self.ident()] if self.p(0.4) else [], "info": i}
        if k == "print":
            return {"s": k, "clk": self.expr(sc, 1), "c": self.expr(sc, 2), "msg": self.msg(sc), "name": [self.ident()] if self.p(0.4) else [], "info": i}
        return {"s": "skip", "info": i}

    def when(self, sc, depth, i):
        c = self.expr(sc, 2)
        t = self.stmts(sc, depth - 1, 3)
        if self.p(0.3):                                # else when
            f = [self.when(sc, depth - 1, self.info(0.5))] if depth > 1 else []
        else:
            f = self.stmts(sc, depth - 1, 3) if self.p(0.5) else []
        return {"s": "when", "c": c, "t": t, "f": f, "info": i}

    def stmts(self, sc, depth, n):
        return [self.stmt(sc, depth) for _ in range(self.r.randrange(0, n + 1))]

    def port(self, n=None):
        return {"k": "port", "n": n or self.ident(), "dir": self.pick(["input", "output"]), "ty": self.type(), "info": self.info()}

    def param(self):
        k = self.r.randrange(3)
        if k == 0:
            return {"int": self.i64()}
        if k == 1:
            return {"dbl": self.double()}
        return {"str": self.text()}

    def double(self):
        """a value, as the shortest decimal that denotes it"""
        k = self.r.randrange(6)
        if k == 0:
            v = 0.0
        elif k == 1:
            v = float(self.pick([1, 5, 25, 125, 3, 12345, 15, 75, 1024, 9007199254740991, 0.1, 0.3, 16777217, 4294967295, 1e15, 1e16, 1e17, 1e21, 1e22, 1e23, 1e-5, 1e-7]))
        elif k == 2:
            v = self.r.randrange(100000) / 10 ** self.r.randrange(0, 8)
        elif k == 3:
            v = self.r.random() * 10.0 ** self.r.randrange(-6, 18)
        elif k == 4:
            v = self.r.random() * 10.0 ** self.r.randrange(-300, 300)
        else:
            v = self.pick([2.0 ** self.r.randrange(-1074, 1024), 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 1.0 + 2.0 ** -52, 2.0 ** 53 - 1, 3.4028234663852886e38])
        _, ds, x = decimal.Decimal(repr(v)).normalize().as_tuple()
        d = "".join(map(str, ds))
        return {"neg": v != 0 and self.p(0.4), "d": d, "x": 0 if d == "0" else x}

    def module(self, name, mods, size=6, depth=3, ext=None):
        ext = self.p(0.15) if ext is None else ext
        ports = [self.port() for _ in range(self.r.randrange(0, 4))]
        m = {"n": name, "kind": "extmodule" if ext else "module", "info": self.info(), "ports": ports, "body": [], "defname": [], "params": []}
        if ext:
            m["defname"] = [self.ident()] if self.p(0.5) else []
            ks = sorted(set(self.ident() for _ in range(self.r.randrange(0, 4))))
            m["params"] = [{"k": k, "v": self.param()} for k in ks]
        else:
            sc = Scope(mods)
            for p in ports:
                sc.declare(p)
            m["body"] = self.stmts(sc, depth, size)
        return m

    def circuit_docs(self, n=None, size=6, unique=True):
        """modules, each instantiating earlier ones only"""
        n = n or self.r.randrange(1, 4)
        pool = ["top", "m1", "m2", "m3", "Adder", "skip", "é", "module", "extmodule", "when", "m10", "circuit"]
        names = self.r.sample(pool, n) if unique else [self.pick(pool[:3]) for _ in range(n)]
        ms = []
        for x in names:
            ms.append(self.module(x, ms, size))
        return ms

    # -- large in one respect each
    BIG = ["mods", "ports", "stmts", "deep", "chain", "fields", "deeptype", "names", "text", "args", "mems", "deepexpr", "longpath", "params", "lits", "insts"]

    def many(self, hi=40):
        return self.pick([5, 6, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, self.r.randrange(4, hi + 1)]) if hi >= 33 else self.r.randrange(hi // 2, hi + 1)

    def deep_type(self, n, leaf=None):
        t = leaf or self.ground()
        for _ in range(n):
            if self.p(0.35):
                t = {"t": "vec", "b": t, "n": self.u16()}
            else:
                fs = [{"n": "f", "flip": self.p(0.5), "ty": t}]
                if self.p(0.5):
                    fs.insert(self.r.randrange(2), {"n": "e", "flip": self.p(0.5), "ty": self.ground()})
                t = {"t": "bundle", "f": fs}
        return t

    def wide_type(self, n=None):
        """a bundle of many plain fields"""
        n = n or self.pick([33, 64, 65, 66, 70, 100, 128, 129, 200, 256, 257, 260])
        leaf = self.pick([lambda: {"t": "clock"}, lambda: {"t": "uint", "w": self.small()}, self.ground])
        return {"t": "bundle", "f": [{"n": "f%d" % i, "flip": self.p(0.3), "ty": leaf()} for i in range(n)]}

    def late(self, t):
        """a wide type which differs from the given one in one field, often the last"""
        t = copy.deepcopy(t)
        n = len(t["f"])
        i = self.pick([n - 1, n - 1, n - 2, n // 2, 0, self.r.randrange(n)])
        k = self.r.randrange(4)
        if k == 0:
            t["f"][i]["n"] = "z"
        elif k == 1:
            t["f"][i]["flip"] = not t["f"][i]["flip"]
        elif k == 2:
            t["f"][i]["ty"] = self.ground()
        else:
            j = self.pick([0, n - 1, (i + 1) % n])
            t["f"][i], t["f"][j] = t["f"][j], t["f"][i]
        return t

    def path_into(self, x, t):
        """an expression for the innermost part of a type"""
        while t["t"] in ("vec", "bundle"):
            if t["t"] == "vec":
                x = {"e": "index", "b": x, "i": self.small()} if self.p(0.6) else {"e": "access", "b": x, "x": self.lit()}
                t = t["b"]
            else:
                f = next((f for f in t["f"] if f["n"] == "f"), None)
                if f is None:
                    return x
                x = {"e": "field", "b": x, "n": "f"}
                t = f["ty"]
        return x

    def deep_expr(self, sc, n):
        x = self.ref(sc) if sc.ent else self.lit()
        for _ in range(n):
            k = self.r.randrange(6)
            y = lambda: self.ref(sc) if sc.ent and self.p(0.5) else self.lit()
            if k == 0:
                xs = [y(), y()]
                xs.insert(self.r.randrange(3), x)
                x = {"e": "mux", "s": xs[0], "a": xs[1], "b": xs[2]}
            elif k == 1:
                x = {"e": "validif", "s": x, "v": y()} if self.p(0.5) else {"e": "validif", "s": y(), "v": x}
            elif k == 2:
                xs = [x, y()]
                self.r.shuffle(xs)
                x = {"e": "op", "op": self.pick(BIN), "x": xs, "p": []}
            elif k == 3:
                x = {"e": "op", "op": self.pick(UN), "x": [x], "p": []}
            elif k == 4:
                x = {"e": "op", "op": self.pick(UNN), "x": [x], "p": [self.small()]}
            else:
                x = {"e": "op", "op": "bits", "x": [x], "p": [self.small() + 5, self.small()]}
        return x

    def long_name(self):
        n = self.pick([16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 255, 256, 257])
        base = self.pick(["a", "x_", "long_", "é", "_"])
        return (base * n)[:n - 1] + self.pick(["", "0", "1", "b", "_"])

    def big(self, kind):
        """modules of a circuit, the last one on top"""
        top = {"n": "top", "kind": "module", "info": self.info(), "ports": [], "body": [], "defname": [], "params": []}
        one = {"e": "uint", "v": "1", "w": 1}
        ms, sc = [], Scope()
        body = top["body"]

        def put(e, info=None):
            sc.declare(e)
            body.append({"s": "decl", "ent": e, "info": self.info() if info is None else info})

        def port(n, t=None):
            e = {"k": "port", "n": n, "dir": self.pick(["input", "output"]), "ty": t or self.type(1), "info": self.info()}
            top["ports"].append(e)
            sc.declare(e)
        n = self.many()
        if kind in ("mods", "insts"):
            for i in range(self.many(20) if kind == "mods" else 3):
                m = {"n": "M%d" % i, "kind": "module" if self.p(0.8) else "extmodule", "info": self.info(), "ports": [self.port("p%d" % k) for k in range(self.r.randrange(3))],
                     "body": [], "defname": [], "params": []}
                if m["kind"] == "module":
                    for k in range(self.r.randrange(0, 3) if ms else 0):
                        j = self.r.randrange(len(ms))
                        m["body"].append({"s": "decl", "ent": {"k": "inst", "n": "i%d" % k, "of": ms[j]["n"], "mi": j + 1}, "info": self.info()})
                ms.append(m)
            sc = Scope(ms)
            for k in range(self.many(12) if kind == "mods" else n):
                j = self.r.randrange(len(ms))
                put({"k": "inst", "n": "u%d" % k, "of": ms[j]["n"], "mi": j + 1})
        elif kind == "ports":
            for i in range(n):
                port("p%d" % i)
            body += [{"s": "conn", "to": self.ref(sc), "from": self.ref(sc), "info": []} for _ in range(4)]
            ms.append(dict(top, n="sub"))
            sc = Scope(ms)
            body = top["body"] = []
            top["ports"] = []
            put({"k": "inst", "n": "u", "of": "sub", "mi": 1})
            for i in range(n):
                if self.p(0.3):
                    body.append({"s": "inval", "x": {"e": "field", "b": self.ref(sc), "n": "p%d" % i}, "info": []})
        elif kind == "stmts":
            port("a")
            body += [self.stmt(sc, 1) for _ in range(n + 10)]
        elif kind == "deep":
            port("a", {"t": "uint", "w": 1})

            def nest(d):
                b = [self.stmt(sc, 0) for _ in range(self.r.randrange(0, 2))]
                if d:
                    x = self.ref(sc)
                    t = nest(d - 1) if self.p(0.5) else None
                    f = None if t is not None else nest(d - 1)
                    s = {"s": "skip", "info": self.info()}
                    b.append({"s": "when", "c": x, "t": t if t is not None else [s], "f": (f if f is not None else [s] if self.p(0.4) else []), "info": self.info()})
                    if self.p(0.4):
                        b.append(self.stmt(sc, 0))
                return b or [{"s": "skip", "info": self.info()}]
            body += nest(self.many(16))
        elif kind == "chain":
            port("a", {"t": "uint", "w": 1})

            def more(d):
                x = self.ref(sc)
                b = [self.stmt(sc, 0)]
                return [{"s": "when", "c": x, "t": b, "f": more(d - 1) if d else [{"s": "skip", "info": []}] if self.p(0.5) else [], "info": self.info(0.4)}]
            body += more(self.many(18))
        elif kind == "fields":
            t = {"t": "bundle", "f": [{"n": "f%d" % i, "flip": self.p(0.4), "ty": self.type(1)} for i in range(n)]}
            port("a", t)
            put({"k": "wire", "n": "w", "ty": {"t": "vec", "b": t, "n": 3}})
            for i in range(n):
                if self.p(0.3):
                    body.append({"s": "inval", "x": {"e": "field", "b": {"e": "ref", "n": "a", "d": 1}, "n": "f%d" % i}, "info": []})
        elif kind in ("deeptype", "longpath"):
            t = self.deep_type(self.many(14))
            port("a", t)
            put({"k": "wire", "n": "w", "ty": t})
            put({"k": "reg", "n": "r", "ty": t, "clk": self.path_into({"e": "ref", "n": "a", "d": 1}, t), "rst": []})
            for _ in range(4 if kind == "longpath" else 1):
                body.append({"s": "conn", "to": self.path_into(self.ref(sc), t), "from": self.path_into(self.ref(sc), t), "info": self.info()})
        elif kind == "names":
            ns = list(dict.fromkeys(self.long_name() for _ in range(6)))
            top["n"] = self.long_name()
            port(ns[0])
            sub = {"n": ns[0], "kind": "extmodule", "info": [], "ports": [{"k": "port", "n": ns[-1], "dir": "input", "ty": {"t": "bundle", "f": [{"n": ns[0], "flip": False, "ty": {"t": "clock"}}]}, "info": []}],
                   "body": [], "defname": [self.long_name()], "params": [{"k": ns[0], "v": {"int": "1"}}]}
            if sub["n"] != top["n"]:
                ms.append(sub)
                sc.mods = {sub["n"]: 1}
            for x in ns[1:]:
                k = self.r.randrange(4)
                if k == 0:
                    put({"k": "wire", "n": x, "ty": {"t": "bundle", "f": [{"n": y, "flip": False, "ty": {"t": "clock"}} for y in ns]}})
                elif k == 1 and sc.mods:
                    put({"k": "inst", "n": x, "of": sub["n"], "mi": 1})
                else:
                    put({"k": "node", "n": x, "v": {"e": "field", "b": self.ref(sc), "n": self.pick(ns)}})
            body.append({"s": "stop", "clk": self.ref(sc), "c": self.ref(sc), "code": "0", "name": [self.long_name()], "info": []})
        elif kind == "text":
            port("a")
            for _ in range(3):
                x = self.text(self.pick([60, 130, 260, 600]), empty=False)
                body.append({"s": "skip", "info": [x]})
                body.append({"s": "print", "clk": self.ref(sc), "c": one, "msg": [{"lit": x}, {"x": self.ref(sc), "f": "d"}, {"lit": x}], "name": [], "info": []})
            ms.append({"n": "X", "kind": "extmodule", "info": [x], "ports": [], "body": [], "defname": [], "params": [{"k": "p", "v": {"str": x}}]})
            put({"k": "inst", "n": "i", "of": "X", "mi": 1})
        elif kind == "args":
            port("a")
            port("b")
            body.append({"s": "attach", "xs": [self.ref(sc) for _ in range(n)], "info": []})
            body.append({"s": "print", "clk": self.ref(sc), "c": one, "msg": [{"x": self.expr(sc, 1), "f": self.pick("bdxc")} if self.p(0.7) else {"lit": self.text(4)} for _ in range(n)], "name": [], "info": []})
        elif kind == "mems":
            for j in range(3):
                m = self.memory("m%d" % j)
                m["ports"] = [{"n": "p%d" % i, "d": self.pick(["read", "write", "rdwr"])} for i in range(self.many(20) if j else 2)]
                put(m)
            for j in range(3):
                m = self.smem()
                m["n"] = "s%d" % j
                sc.declare_mem(m)
                body.append({"s": "smem", "m": m, "info": []})
            for i in range(n // 2):
                j = self.r.randrange(3)
                put({"k": "mport", "n": "q%d" % i, "m": "s%d" % j, "md": j + 1, "dir": self.pick(["read", "write", "rdwr", "infer"]), "addr": self.ref(sc), "clk": self.ref(sc)})
        elif kind == "deepexpr":
            port("a")
            port("b")
            for i in range(2):
                put({"k": "node", "n": "n%d" % i, "v": self.deep_expr(sc, self.many(16))})
            body.append({"s": "conn", "to": self.ref(sc), "from": self.deep_expr(sc, 8), "info": []})
        elif kind == "params":
            ms.append({"n": "X", "kind": "extmodule", "info": [], "ports": [], "body": [], "defname": [],
                       "params": [{"k": k, "v": self.param()} for k in sorted("k%d" % i for i in range(n))]})
            put({"k": "inst", "n": "i", "of": "X", "mi": 1})
        elif kind == "lits":
            for i in range(6):
                v = self.r.getrandbits(self.pick([64, 128, 129, 256, 1000]))
                neg = self.p(0.4)
                x = {"e": "sint", "v": ("-" if neg and v else "") + "%x" % v, "w": self.u16()} if self.p(0.5) else {"e": "uint", "v": "%x" % v, "w": self.u16()}
                put({"k": "node", "n": "n%d" % i, "v": x})
        return ms + [top]

    HUGE = ["mods", "insts", "ports", "stmts", "args", "fields", "params", "memports", "whens", "depth", "elses", "nodes"]

    def huge(self, kind, n=None):
        """modules of a circuit with hundreds of plain things of one kind"""
        n = n or self.pick([65, 70, 129, 140, 257, 300, 520])
        clk = {"t": "clock"}
        one = {"t": "uint", "w": 1}
        skip = {"s": "skip", "info": []}
        a = {"e": "ref", "n": "a", "d": 1}
        top = {"n": "top", "kind": "module", "info": [], "ports": [{"k": "port", "n": "a", "dir": self.pick(["input", "output"]), "ty": one, "info": []}],
               "body": [], "defname": [], "params": []}
        ms, body = [], top["body"]

        def decl(e, info=()):
            return {"s": "decl", "ent": e, "info": list(info)}

        def mod(name, kind="module", ports=(), body=(), params=()):
            return {"n": name, "kind": kind, "info": [], "ports": list(ports), "body": list(body), "defname": [], "params": list(params)}

        def port(name, ty=clk):
            return {"k": "port", "n": name, "dir": "input", "ty": ty, "info": []}
        if kind == "mods":
            # every module is needed, some only by way of others
            for i in range(n):
                uses = [decl({"k": "inst", "n": "i", "of": "M%d" % j, "mi": j + 1}) for j in [self.r.randrange(i)] if self.p(0.3)] if i else []
                ms.append(mod("M%d" % i, "module" if uses else self.pick(["module", "extmodule"]), [], uses or ()))
                if ms[-1]["kind"] == "module" and not uses:
                    ms[-1]["body"] = [dict(skip)]
            used = {b["ent"]["of"] for m in ms for b in m["body"] if b["s"] == "decl"}
            for i in range(n):
                if "M%d" % i not in used or self.p(0.1):
                    body.append(decl({"k": "inst", "n": "u%d" % i, "of": "M%d" % i, "mi": i + 1}))
        elif kind == "insts":
            ms = [mod("M%d" % i, "extmodule", [port("p%d" % i)]) for i in range(3)]
            for i in range(n):
                # the last module only at the end
                j = self.r.randrange(2) if i < n - 1 else 2
                body.append(decl({"k": "inst", "n": "u%d" % i, "of": "M%d" % j, "mi": j + 1}))
        elif kind == "ports":
            ms = [mod("X", self.pick(["module", "extmodule"]), [port("p%d" % i, self.pick([clk, one])) for i in range(n)])]
            if ms[0]["kind"] == "module":
                ms[0]["body"] = [dict(skip)]
            u = decl({"k": "inst", "n": "u", "of": "X", "mi": 1})
            body += [u, {"s": "inval", "x": {"e": "field", "b": {"e": "ref", "n": "u", "d": 2}, "n": "p%d" % (n - 1)}, "info": []}]
        elif kind == "stmts":
            for i in range(n):
                body.append({"s": "skip", "info": [str(i)] if self.p(0.1) else []} if self.p(0.6) else {"s": "inval", "x": a, "info": []})
        elif kind == "args":
            body.append({"s": "attach", "xs": [a] * n, "info": []})
            m = [{"x": a, "f": self.pick("bdxc")} for _ in range(n)]
            body.append({"s": "print", "clk": a, "c": a, "msg": m + [{"lit": "z"}], "name": [], "info": []})
        elif kind == "fields":
            t = {"t": "bundle", "f": [{"n": "f%d" % i, "flip": self.p(0.2), "ty": self.pick([clk, one])} for i in range(n)]}
            body.append(decl({"k": "wire", "n": "w", "ty": t}))
            body.append({"s": "inval", "x": {"e": "field", "b": {"e": "ref", "n": "w", "d": 2}, "n": "f%d" % (n - 1)}, "info": []})
        elif kind == "params":
            ms = [mod("X", "extmodule", params=[{"k": k, "v": {"int": str(self.r.randrange(100))}} for k in sorted("k%d" % i for i in range(n))])]
            body.append(decl({"k": "inst", "n": "u", "of": "X", "mi": 1}))
        elif kind == "memports":
            body.append(decl({"k": "mem", "n": "m", "ty": one, "depth": "4", "ports": [{"n": "p%d" % i, "d": self.pick(["read", "write", "rdwr"])} for i in range(n)], "rl": 0, "wl": 1, "ruw": "old"}))
        elif kind == "whens":
            for i in range(n // 2):
                body.append({"s": "when", "c": a, "t": [dict(skip)], "f": [] if self.p(0.5) else [dict(skip), dict(skip)], "info": []})
        elif kind in ("depth", "elses"):
            b = [dict(skip)]
            for i in range(min(n, 100) - self.r.randrange(20)):
                if kind == "elses":
                    b = [{"s": "when", "c": a, "t": [dict(skip)], "f": b, "info": []}]
                else:
                    s = {"s": "when", "c": a, "t": b, "f": [], "info": []} if self.p(0.7) else {"s": "when", "c": a, "t": [dict(skip)], "f": [dict(skip)] + b, "info": []}
                    b = [s]
            body += b
        elif kind == "nodes":
            # each refers to the one before it by a name which is used again and again
            for i in range(min(n, 140)):
                body.append(decl({"k": "wire", "n": "w%d" % (i % 7), "ty": {"t": "uint", "w": i}}))
                body.append({"s": "inval", "x": {"e": "ref", "n": "w%d" % (i % 7), "d": i + 2}, "info": []})
        return ms + [top]


class Scope:
    def __init__(self, mods=()):
        self.ent, self.mem, self.decls, self.smems = {}, {}, [], []
        self.mods = {}
        for i, m in enumerate(mods):
            j = next(j for j, x in enumerate(mods) if x == m)
            self.mods[m["n"]] = j + 1

    def declare(self, e):
        self.decls.append(e)
        self.ent[e["n"]] = self.decls.index(e) + 1

    def declare_mem(self, m):
        self.smems.append(m)
        self.mem[m["n"]] = self.smems.index(m) + 1


# ---------------------------------------------------------------------------
# Writing documents as text, in a random layout

class Writer:
    """Turns documents into token lists, and those into text.

    A line is a list of tokens; blanks are allowed between any two of them,
    and needed between two words."""

    def __init__(self, gen, plain=False, blanks=0.3, comments=0.1, crlf=None, radix=True, dups=0.0, wide=0.0):
        self.g, self.plain, self.dups = gen, plain, dups
        self.wide = wide                 # how often blanks, comments and empty lines are many
        self.blanks, self.comments, self.radix = blanks, comments, radix
        self.eol = "\n"
        self.crlf = crlf

    # -- tokens
    def quote(self, s, special):
        out = ""
        for c in s:
            if c == "\n":
                out += self.g.pick(["\\n", "\\\n"])
            elif c == "\t":
                out += self.g.pick(["\\t", "\\\t"])
            elif c in special or c == "\\":
                out += "\\" + c
            elif c not in "nt" and self.g.p(0.05):
                out += "\\" + c
            else:
                out += c
        return out

    def num(self, neg, v, signed_ok=True):
        sign = "-" if neg else ("+" if self.g.p(0.05) and not self.plain else "")
        k = self.g.r.randrange(5) if self.radix and not self.plain else 0
        z = "0" * self.g.r.randrange(0, 3) if self.g.p(0.1) and not self.plain else ""
        if k < 2:
            return sign + z + str(v)
        if k == 2:
            return '"b%s%s%s"' % (sign, z, bin(v)[2:])
        if k == 3:
            return '"o%s%s%s"' % (sign, z, oct(v)[2:])
        h = "%x" % v
        return '"h%s%s%s"' % (sign, z, "".join(self.g.pick([c, c.upper()]) for c in h))

    def dec(self, s):
        s = str(s)
        if self.plain or not self.g.p(0.1):
            return s
        if s.startswith("-"):
            return "-0" + s[1:]
        return self.g.pick(["0" + s, "+" + s, "00" + s])

    def w(self, w):
        return [] if w < 0 else ["<" + self.dec(w) + ">"]

    def type(self, t):
        k = t["t"]
        if k == "vec":
            return self.type(t["b"]) + ["[", self.dec(t["n"]), "]"]
        if k == "bundle":
            out = ["{"]
            for i, f in enumerate(t["f"]):
                if i:
                    out.append(",")
                out += (["flip"] if f["flip"] else []) + [f["n"], ":"] + self.type(f["ty"])
            return out + ["}"]
        name = {"uint": "UInt", "sint": "SInt", "analog": "Analog", "fixed": "Fixed", "clock": "Clock", "reset": "Reset", "areset": "AsyncReset"}[k]
        out = [name] + (self.w(t["w"]) if "w" in t else [])
        if k == "fixed" and t["p"]:
            out.append("<<" + self.dec(t["p"][0]) + ">>")
        return out

    def args(self, xs):
        out = []
        for i, x in enumerate(xs):
            if i:
                out.append(",")
            out += x
        return out

    def expr(self, e):
        k = e["e"]
        if k in ("uint", "sint"):
            v = int(e["v"], 16)
            least = v.bit_length() if k == "uint" else ((v + 1 if v < 0 else v).bit_length() + 1)
            w = [] if least == e["w"] and self.g.p(0.7) and not self.plain else self.w(e["w"])
            return ["UInt" if k == "uint" else "SInt"] + w + ["(", self.num(v < 0, abs(v)), ")"]
        if k == "ref":
            return [e["n"]]
        if k == "field":
            return self.expr(e["b"]) + [".", e["n"]]
        if k == "index":
            return self.expr(e["b"]) + ["[", self.dec(e["i"]), "]"]
        if k == "access":
            return self.expr(e["b"]) + ["["] + self.expr(e["x"]) + ["]"]
        if k == "mux":
            return ["mux", "("] + self.args([self.expr(e["s"]), self.expr(e["a"]), self.expr(e["b"])]) + [")"]
        if k == "validif":
            return ["validif", "("] + self.args([self.expr(e["s"]), self.expr(e["v"])]) + [")"]
        return [e["op"], "("] + self.args([self.expr(x) for x in e["x"]] + [[self.dec(p)] for p in e["p"]]) + [")"]

    def info(self, i):
        return ["@[" + self.quote(i[0], "]") + "]"] if i else []

    def name(self, n):
        return [":", n[0]] if n else []

    def param(self, v):
        if "int" in v:
            return self.dec(v["int"])
        if "dbl" in v:
            d = v["dbl"]
            s, x = d["d"], d["x"]
            style = 0 if self.plain else self.g.r.randrange(3)
            if style == 0 or abs(x) > 20:
                if x >= 0:
                    t = s + "0" * x + ".0"
                else:
                    s2 = s.rjust(-x + 1, "0")
                    t = s2[:x] + "." + s2[x:]
            elif style == 1:
                t = s + ".0E" + str(x)
            else:
                t = "." + s + "E" + ("+" if x + len(s) >= 0 and self.g.p(0.5) else "") + str(x + len(s))
            return ("-" if d["neg"] else "") + t
        q = self.g.pick(["\"", "'"])
        return q + self.quote(v["str"], q) + q

    # -- lines: (tokens) or (tokens, [block])
    def mem_extra(self):
        g = self.g
        return [["data-type", "=>"] + self.type(g.type(1)), ["depth", "=>", self.dec(g.u16())], ["read-latency", "=>", self.dec(g.u16())],
                ["write-latency", "=>", self.dec(g.u16())], ["read-under-write", "=>", g.pick(RUW)]]

    def entity(self, e, info):
        k = e["k"]
        if k == "wire":
            return (["wire", e["n"], ":"] + self.type(e["ty"]) + info, None)
        if k == "reg":
            r = []
            if e["rst"]:
                r = ["with", ":", "(", "reset", "=>", "("] + self.args([self.expr(e["rst"][0]["s"]), self.expr(e["rst"][0]["v"])]) + [")", ")"]
            return (["reg", e["n"], ":"] + self.type(e["ty"]) + [","] + self.expr(e["clk"]) + r + info, None)
        if k == "node":
            return (["node", e["n"], "="] + self.expr(e["v"]) + info, None)
        if k == "mem":
            es = [["data-type", "=>"] + self.type(e["ty"]), ["depth", "=>", self.dec(e["depth"])]]
            if e["rl"] or self.g.p(0.5):
                es.append(["read-latency", "=>", self.dec(e["rl"])])
            if e["wl"] or self.g.p(0.5):
                es.append(["write-latency", "=>", self.dec(e["wl"])])
            if e["ruw"] != "undefined" or self.g.p(0.5):
                es.append(["read-under-write", "=>", e["ruw"]])
            ps = [[{"read": "reader", "write": "writer", "rdwr": "readwriter"}[p["d"]], "=>", p["n"]] for p in e["ports"]]
            if self.plain:
                es += ps
            else:
                while self.g.p(self.dups):             # the last one counts, or is an error
                    es.append(self.g.pick(self.mem_extra()))
                self.g.r.shuffle(es)
                i = 0
                for p in ps:                    # keep the order of ports
                    i = self.g.r.randrange(i, len(es) + 1)
                    es.insert(i, p)
                    i += 1
            return (["mem", e["n"], ":"] + info, [(x, None) for x in es])
        if k == "mport":
            return ([e["dir"], "mport", e["n"], "=", e["m"], "["] + self.expr(e["addr"]) + ["]"]
                    + ([","] if self.plain or self.g.p(0.8) else []) + self.expr(e["clk"]) + info, None)
        return (["inst", e["n"], "of", e["of"]] + info, None)

    def msg(self, parts):
        f, xs = "", []
        for m in parts:
            if "lit" in m:
                f += self.quote(m["lit"], '"').replace("\\%", "%").replace("%", "%%")
            else:
                f += "%" + m["f"]
                xs.append(self.expr(m["x"]))
        out = ['"' + f + '"']
        for x in xs:
            out += [","] + x
        return out

    def stmt(self, s):
        """list of lines"""
        k, i = s["s"], self.info(s["info"])
        if k in ("conn", "pconn"):
            return [(self.expr(s["to"]) + ["<=" if k == "conn" else "<-"] + self.expr(s["from"]) + i, None)]
        if k == "skip":
            return [(["skip"] + i, None)]
        if k == "decl":
            return [self.entity(s["ent"], i)]
        if k == "smem":
            m = s["m"]
            return [([m["kind"], m["n"], ":"] + self.type(m["ty"]) + ([",", m["ruw"][0]] if m["ruw"] else []) + i, None)]
        if k == "inval":
            return [(self.expr(s["x"]) + ["is", "invalid"] + i, None)]
        if k == "attach":
            return [(["attach", "("] + self.args([self.expr(x) for x in s["xs"]]) + [")"] + i, None)]
        if k == "stop":
            return [(["stop", "("] + self.args([self.expr(s["clk"]), self.expr(s["c"]), [self.dec(s["code"])]]) + [")"] + self.name(s["name"]) + i, None)]
        if k == "print":
            return [(["printf", "("] + self.args([self.expr(s["clk"]), self.expr(s["c"]), self.msg(s["msg"])]) + [")"] + self.name(s["name"]) + i, None)]
        return self.cond(s, [])

    def cond(self, s, pre):
        out = [(pre + ["when"] + self.expr(s["c"]) + [":"] + self.info(s["info"]), self.stmts(s["t"]))]
        f = s["f"]
        if len(f) == 1 and f[0]["s"] == "when" and self.g.p(0.7):
            return out + self.cond(f[0], ["else"])
        if f or (not self.plain and self.g.p(0.05)):
            out.append((["else", ":"], self.stmts(f)))
        return out

    def stmts(self, b):
        return [l for s in b for l in self.stmt(s)]

    def module(self, m):
        body = [([p["dir"], p["n"], ":"] + self.type(p["ty"]) + self.info(p["info"]), None) for p in m["ports"]]
        if m["kind"] == "extmodule":
            body += [(["defname", "=", d], None) for d in m["defname"]]
            ps = list(m["params"])
            if not self.plain:
                while self.g.p(self.dups):
                    ps.append({"k": self.g.pick(ps)["k"] if ps else self.g.ident(), "v": self.g.param()})
                self.g.r.shuffle(ps)
            body += [(["parameter", p["k"], "=", self.param(p["v"])], None) for p in ps]
        else:
            body += self.stmts(m["body"])
        return ([m["kind"], m["n"], ":"] + self.info(m["info"]), body)

    def circuit(self, ms, top, info):
        return (["circuit", top, ":"] + self.info(info), [self.module(m) for m in ms])

    # -- layout
    def word(self, c):
        return c.isalnum() or c in "_$" or c in NUMS or c in LETTERS

    def sep(self):
        g = self.g
        if g.p(self.blanks):
            n = g.pick([16, 17, 33, 65, 129, 257, 300]) if g.p(self.wide / 4) else g.r.randrange(1, 4)
            return "".join(g.pick([" ", " ", "\t"]) for _ in range(n))
        return ""

    def line(self, toks):
        out = ""
        for i, t in enumerate(toks):
            if i:
                b = " " if self.plain else self.sep()
                if not b and (self.word(out[-1]) and (self.word(t[0]) or t[0] in "+-") or out[-1] in ">-" and False):
                    b = " "
                out += b
            out += t
        return out

    def ending(self):
        g = self.g
        if self.plain:
            return "\n"
        out = ""
        while True:
            out += self.sep()
            if g.p(self.comments):
                out += ";" + "".join(g.pick(list("abc ;@[]\"\t\\'%:<=") + ["é", "€", "😀"]) for _ in range(g.pick([64, 200, 257, 1100]) if g.p(self.wide / 4) else g.r.randrange(0, 6)))
            if g.p(self.wide / 8):
                out += g.pick(["\n", "\r\n", " \n", "\t\n", ";\n", " ; x\n"]) * g.pick([9, 17, 33, 65, 130, 257])
            out += "\r\n" if (g.p(0.5) if self.crlf is None else self.crlf) else "\n"
            if not g.p(self.comments):
                return out

    def lines(self, ls, base, out):
        if not ls:
            return
        ind = base + (2 if self.plain else self.g.pick([1, 1, 2, 2, 3, 4, 7]))
        if self.g.p(self.wide / 2):
            ind = base + self.g.pick([8, 16, 17, 33, 65, 130, 257])
        for toks, block in ls:
            out.append(" " * ind + self.line(toks) + self.ending())
            if block is not None:
                self.lines(block, ind, out)

    def layout(self, tree):
        """text of a tree of lines, in a fresh layout"""
        g = self.g
        out = []
        if not self.plain and g.p(self.comments):
            out.append(self.ending())
        toks, mods = tree
        out.append(self.line(toks) + self.ending())
        self.lines(mods, 0, out)
        t = "".join(out)
        if not self.plain and g.p(0.2):
            t = t.rstrip("\r\n")
        return t


# ---------------------------------------------------------------------------
# Breaking texts

JUNK = list(" \t\n\r:;,.<>=()[]{}@\"'\\%+-0159abnx_$") + LETTERS + NUMS + ODD
TOKENS = ["skip", "when", "else", "else :", " : ", "<=", "<-", "is invalid", "UInt", "UInt<3>", "(", ")", "[", "]", "{", "}", ",", "=>", "@[x]", "@[",
          "\"", "with", "mux(", "flip", "65536", "65535", "-1", "18446744073709551616", "9223372036854775808", "-9223372036854775808", "%d", "%", "\\", "\n", "\r\n", "  ", ";c", "reset",
          "module m2 :", "circuit", "input a : UInt", "node n = UInt(1)", "wire w : Clock", "inst i of top", "mem m :", "depth => 3", "-", "+", "0x1", "\"h\"", "\"hg\"", "<<1>>", "<-1>", "1.5", ".5E3"]


def mutate(g, t):
    for _ in range(g.pick([1, 1, 1, 2, 3])):
        k = g.r.randrange(16)
        n = len(t)
        i = g.r.randrange(n + 1)
        ls = t.split("\n")
        j = g.r.randrange(len(ls))
        if k == 0:
            t = t[:i] + t[i + 1:]
        elif k == 1:
            t = t[:i] + g.pick(JUNK) + t[i:]
        elif k == 2:
            t = t[:i] + g.pick(JUNK) + t[i + 1:]
        elif k == 3:
            t = t[:i] + g.pick(TOKENS) + t[i:]
        elif k == 4:
            t = t[:i] + t[i + g.r.randrange(1, 8):]
        elif k == 5:
            del ls[j]
            t = "\n".join(ls)
        elif k == 6:
            ls.insert(j, ls[g.r.randrange(len(ls))])
            t = "\n".join(ls)
        elif k == 7:
            ls[j] = " " * g.r.randrange(1, 4) + ls[j]
            t = "\n".join(ls)
        elif k == 8:
            ls[j] = ls[j][g.r.randrange(1, 3):]
            t = "\n".join(ls)
        elif k == 9:
            a = g.r.randrange(len(ls))
            ls[j], ls[a] = ls[a], ls[j]
            t = "\n".join(ls)
        elif k == 10:
            t = t[:i]
        elif k == 11:
            ls[j] = ls[j].lstrip(" ")
            ls[j] = " " * g.r.randrange(0, 8) + ls[j]
            t = "\n".join(ls)
        elif k >= 14:
            # a word becomes another which looks alike
            ws = list(re.finditer(r"[\w$]+", t))
            if ws:
                a = g.pick(ws)
                t = t[:a.start()] + confuse(g, a.group()) + t[a.end():]
        elif k == 12:
            # exchange two words
            ws = list(re.finditer(r"[\w$]+", t))
            if len(ws) > 1:
                a, b = sorted(g.r.sample(range(len(ws)), 2))
                a, b = ws[a], ws[b]
                t = t[:a.start()] + b.group() + t[a.end():b.start()] + a.group() + t[b.end():]
        else:
            ls[j] = ls[j] + g.pick([" x", " )", ",", " skip", " @[a", " 1", "]", " :", "\r", "\r;", " ;\r", "\t;ok"])
            t = "\n".join(ls)
    return t


def reindent(g, t):
    """one line, or all lines from one on, moved by a round number of blanks"""
    ls = t.split("\n")
    j = g.r.randrange(len(ls))
    d = g.pick([1, 2, 4, 8, 10, 16, 32, 64, 100, 128, 255, 256, 257, 512, 1000, 1024] if g.p(0.2) else [4, 8, 16, 64, 128, 256])
    for i in range(j, j + 1 if g.p(0.6) else len(ls)):
        if ls[i].startswith(" " * d) and g.p(0.5):
            ls[i] = ls[i][d:]
        else:
            ls[i] = " " * d + ls[i]
    return "\n".join(ls)


# ---------------------------------------------------------------------------
# Small texts showing one construct each, and everything next to them

HEAD = "circuit m : @[c]\n module k : @[k]\n  input p : UInt<1>\n module m : @[m]\n  input a : UInt<4>\n  input v : { f : UInt<2>[2], flip g : SInt }\n  smem q : UInt<3>[5], old @[q]\n"
STMTS = ["a <= a @[i]", "v.f[1] <- not(a) @[i]", "skip @[i]", "wire w : UInt<4> @[i]", "wire w : { a : SInt<2>, flip b : Fixed<3><<-2>>[4] } @[i]",
         "wire w : {}[2] @[i]", "wire w : Analog<3> @[i]", "wire w : { f : AsyncReset, g : Reset } @[i]",
         "reg r : UInt<2>, a with : (reset => (a, v.g)) @[i]", "reg r : Clock, asClock(a) @[i]",
         "node n = mux(a, v.f[0], validif(a, a)) @[i]", "node n = bits(a, 3, 1) @[i]", "node n = v.f[a] @[i]", "node n = UInt<4>(\"h-1\") @[i]", "node n = SInt(-5) @[i]", "node n = UInt(\"b101\") @[i]",
         "node n = asFixed(pad(a, 2), -1) @[i]", "node n = add(a, cat(a, a)) @[i]",
         "mem x : @[i]\n   data-type => UInt<3>\n   depth => 12\n   read-latency => 1\n   write-latency => 2\n   read-under-write => old\n   reader => r0\n   writer => w0\n   readwriter => rw\n  x.r0.en <= a",
         "cmem x : UInt<3>[5] @[i]\n  read mport y = x[a], a @[j]", "smem x : { a : UInt } @[i]", "smem x : UInt[2], new @[i]", "write mport y = q[a], asClock(a) @[i]", "infer mport y = q[UInt(1)], a @[i]", "rdwr mport y = q[a] a @[i]",
         "inst x of k @[i]\n  x.p <= a", "a is invalid @[i]", "v.f[0] is invalid @[i]", "attach(a, v.g) @[i]", "attach(a) @[i]",
         "stop(a, a, -1) : s0 @[i]", "stop(a, a, 0) @[i]", "printf(a, a, \"x %d %b\\n %%\", a, v.g) : p0 @[i]", "printf(a, a, \"\") @[i]",
         "when a : @[i]\n   skip @[j]\n  else :\n   skip\n   skip @[k]", "when a : @[i]\n   wire w : UInt\n  else when v.g : @[e]\n   skip\n  else :\n   skip\n  w <= a", "when a :\n   when a : @[i]\n    skip\n   else : @[n]\n    skip", "when a : @[i]\n   skip\n  skip"]
TOPS = ["circuit m : @[c]\n module m : @[m]\n", "circuit m :\n extmodule m : @[m]\n  input a : UInt<1> @[i]\n  output b : { flip c : SInt<2>[3] }\n  defname = dn\n  parameter k = 12\n  parameter l = \"a\\\"b\"\n  parameter q = 'x'\n  parameter d = -1.5E3\n",
        "circuit b : @[c]\n module a :\n  input x : Clock @[i]\n  skip\n extmodule e :\n  defname = f\n module b : @[m]\n  inst i of a @[i]\n  inst j of e\n"]
SHOW = TOPS + [HEAD + "  " + s + "\n" for s in STMTS]
NEAR = [",", ":", "@[x]", "(", ")", "[", "]", "{", "}", "=>", "<=", "<-", "=", ".", "<1>", "<<1>>", "a", "1", "-1", "skip", "flip", "UInt", "\"s\"", ";", "else", "when", "a.b", "\n", "%", "'", "<", ">", "old", "of", "is", "with"]
TOKEN = re.compile(r"\"(?:[^\"\\]|\\.)*\"|'[^']*'|@\[[^\]]*\]|-?[\w$]+(?:-\w+)*|<<|>>|<=|<-|=>|\n|.")


def spans(t, start=0):
    """of tokens, blanks aside"""
    return [(m.start(), m.end()) for m in TOKEN.finditer(t, start) if m.group() not in " \t"]


def near(t, start=0):
    """(kind, text) next to the given one, token by token"""
    sp = spans(t, start)
    out = []
    for i, (a, b) in enumerate(sp):
        if t[a] != "\n":
            out.append(("less", t[:a] + t[b:]))
            out.append(("twice", t[:b] + " " + t[a:]))
            if i + 1 < len(sp) and t[sp[i + 1][0]] != "\n":
                c, d = sp[i + 1]
                out.append(("swap", t[:a] + t[c:d] + t[b:c] + t[a:b] + t[d:]))
        for x in NEAR:
            out.append(("more", t[:a] + " " + x + " " + t[a:]))
            if t[a] != "\n":
                out.append(("other", t[:a] + x + t[b:]))
    return out


def nearby(g, t, start=0):
    """one text next to the given one"""
    sp = spans(t, start)
    if not sp:
        return t
    a, b = g.pick(sp)
    k, x = g.r.randrange(5), g.pick(NEAR)
    if k == 0:
        return t[:a] + t[b:]
    if k == 1:
        return t[:b] + " " + t[a:]
    if k == 2:
        c, d = g.pick(sp)
        a, b, c, d = min((a, b, c, d), (c, d, a, b))
        return t[:a] + t[c:d] + t[b:c] + t[a:b] + t[d:] if b <= c else t
    if k == 3:
        return t[:a] + " " + x + " " + t[a:]
    return t[:a] + x + t[b:]


def confuse(g, n):
    """a name which is easily taken for the given one"""
    return g.pick(["_" + n, n + "_", "$" + n, n + "$", n + "0", n[:-1] or "z", n[1:] or "z", n.upper(), n.lower(), n.swapcase(), n + n, n + "é", "é" + n, n.replace("_", ""), n[::-1]])


# ---------------------------------------------------------------------------
# Documents next to a document

UNARY_SAME = [UN, UNN, UNP, BIN]


def sites(d, out, keep=()):
    """places in a document where a single thing may be changed: (how, container, key)"""
    if isinstance(d, list):
        for i, x in enumerate(d):
            sites(x, out)
        return
    if not isinstance(d, dict):
        return
    if "t" in d and isinstance(d["t"], str):                 # a type
        if "w" in d:
            out.append(("w", d, "w"))
            if d["t"] in ("uint", "sint", "analog"):
                out.append(("tkind", d, "t"))
        if d["t"] == "fixed":
            out.append(("point", d, "p"))
        if d["t"] in ("clock", "reset", "areset"):
            out.append(("tkind0", d, "t"))
        if d["t"] == "vec":
            out.append(("num", d, "n"))
        if d["t"] == "bundle":
            for i in range(len(d["f"])):
                out.append(("drop", d["f"], i))
            if len(d["f"]) > 1:
                out.append(("swap", d["f"], 0))
            out.append(("addfield", d, "f"))
    if "flip" in d:
        out.append(("not", d, "flip"))
        out.append(("name", d, "n"))
    e = d.get("e")
    if e in ("uint", "sint"):
        out += [("hex", d, "v"), ("num", d, "w"), ("lit", d, "e")]
    elif e == "field":
        out.append(("name", d, "n"))
    elif e == "index":
        out.append(("num", d, "i"))
    elif e == "mux":
        out.append(("exch", d, ("a", "b")))
        out.append(("exch", d, ("s", "a")))
    elif e == "validif":
        out.append(("exch", d, ("s", "v")))
    elif e == "op":
        out.append(("op", d, "op"))
        if len(d["x"]) == 2:
            out.append(("swap", d["x"], 0))
        for i in range(len(d["p"])):
            out.append(("const", d["p"], i))
    if "info" in d:
        out.append(("opt", d, "info"))
    k = d.get("k") if "n" in d else None                     # parameters have keys
    if k in ("port", "wire", "reg", "node", "mem", "mport", "inst"):
        out.append(("name", d, "n"))
        if k == "port":
            out.append(("dir", d, "dir"))
        if k == "mport":
            out.append(("mdir", d, "dir"))
            out.append(("exch", d, ("addr", "clk")))
        if k == "mem":
            out += [("bignum", d, "depth"), ("num", d, "rl"), ("num", d, "wl"), ("ruw", d, "ruw")]
            for i in range(len(d["ports"])):
                out += [("drop", d["ports"], i), ("name", d["ports"][i], "n"), ("mdir3", d["ports"][i], "d")]
            if len(d["ports"]) > 1:
                out.append(("swap", d["ports"], 0))
        if k == "reg":
            if d["rst"]:
                out += [("drop", d["rst"], 0), ("exch", d["rst"][0], ("s", "v"))]
    s = d.get("s") if isinstance(d.get("s"), str) else None
    if s in ("conn", "pconn"):
        out += [("conn", d, "s"), ("exch", d, ("to", "from"))]
    if s in ("stop", "print"):
        out += [("opt", d, "name"), ("exch", d, ("clk", "c"))]
    if s == "stop":
        out.append(("bignum", d, "code"))
    if s == "print":
        for i, m in enumerate(d["msg"]):
            out.append(("drop", d["msg"], i))
            out.append(("name", m, "lit") if "lit" in m else ("fmt", m, "f"))
        if len(d["msg"]) > 1:
            out.append(("swap", d["msg"], 0))
    if s == "when" and '"s": "decl"' not in json.dumps([d["t"], d["f"]]) and '"s": "smem"' not in json.dumps([d["t"], d["f"]]):
        out.append(("exch", d, ("t", "f")))
    if s == "attach":
        out.append(("dup", d["xs"], 0))
        if len(d["xs"]) > 1:
            out += [("drop", d["xs"], 0), ("swap", d["xs"], 0)]
    if "kind" in d and "ruw" in d:                           # a simple memory
        out += [("name", d, "n"), ("smem", d, "kind")]
    if "body" in d:
        out.append(("name", d, "n"))
        if d["kind"] == "extmodule":
            out.append(("opt", d, "defname"))
            for i, p in enumerate(d["params"]):
                out += [("drop", d["params"], i), ("param", p, "v"), ("name", p, "k")]
        for i in range(len(d["ports"])):
            if not d["body"]:
                out.append(("drop", d["ports"], i))
        if len(d["ports"]) > 1 and not d["body"]:
            out.append(("swap", d["ports"], 0))
        if not d["body"] and not d["params"] and not d["defname"]:
            out.append(("modkind", d, "kind"))
    for b in [d[x] for x in ("body", "t", "f") if isinstance(d.get(x), list) and ("body" in d or s == "when")]:
        for i, x in enumerate(b):
            if x["s"] not in ("decl", "smem", "when"):
                out.append(("drop", b, i))
                out.append(("dup", b, i))
        for i in range(len(b) - 1):
            if all(x["s"] not in ("decl", "smem", "when") for x in b[i:i + 2]):
                out.append(("swap", b, i))
    for x in d.values():
        sites(x, out)


def tweak(g, doc):
    """a copy which differs at one place, mostly (exchanged parts may be equal)"""
    d = json.loads(json.dumps(doc))
    out = []
    sites({"root": d}, out)
    if not out:
        return d
    hows = sorted(set(h for h, _, _ in out))
    how = g.pick(hows)
    _, c, k = g.pick([x for x in out if x[0] == how])
    if how == "w":
        c[k] = g.pick([x for x in (-1, 0, 1, 2, 65535, c[k] + 1 if c[k] < 65535 else 7) if x != c[k]])
    elif how == "num":
        c[k] = g.pick([x for x in (0, 1, 65535, (c[k] + 1) % 65536, (c[k] + 256) % 65536) if x != c[k]])
    elif how == "bignum":
        v = int(c[k])
        c[k] = str(g.pick([x for x in (0, 1, v + 1, v - 1, v + 2**32, v - 2**32) if x != v and 0 <= x < 2**63]))
    elif how == "tkind":
        c[k] = g.pick([x for x in ("uint", "sint", "analog") if x != c[k]])
    elif how == "tkind0":
        c[k] = g.pick([x for x in ("clock", "reset", "areset") if x != c[k]])
    elif how == "point":
        c[k] = g.pick([x for x in ([], [0], [1], [-1], [c[k][0] % 30000 + 1] if c[k] else [5]) if x != c[k]])
    elif how == "drop":
        del c[k]
    elif how == "dup":
        c.insert(k, json.loads(json.dumps(c[k])))
    elif how == "swap":
        c[k], c[k + 1] = c[k + 1], c[k]
    elif how == "exch":
        c[k[0]], c[k[1]] = c[k[1]], c[k[0]]
    elif how == "addfield":
        c[k].insert(g.r.randrange(len(c[k]) + 1), {"n": "zz", "flip": False, "ty": {"t": "clock"}})
    elif how == "not":
        c[k] = not c[k]
    elif how == "name":
        c[k] = g.pick([x for x in (c[k] + "_", c[k].upper(), c[k][:-1], "q") if x and x != c[k]])
    elif how == "hex":
        v = int(c[k], 16)
        v2 = g.pick([x for x in (v + 1, v ^ (1 << 40), v + (1 << 64), 0, 1) if x != v] + ([-v] if c["e"] == "sint" and v else []))
        v2 = abs(v2) if c["e"] == "uint" else v2
        c[k] = ("-%x" % -v2) if v2 < 0 else "%x" % v2
    elif how == "lit":
        if c["e"] == "uint" or not c["v"].startswith("-"):
            c[k] = "sint" if c[k] == "uint" else "uint"
    elif how == "op":
        grp = next(x for x in UNARY_SAME + [["bits"]] if c[k] in x)
        c[k] = g.pick([x for x in grp if x != c[k]] or grp)
    elif how == "const":
        lim = (-32768, 32767) if c[k] < 0 else (0, 32767)
        c[k] = g.pick([x for x in (c[k] + 1, c[k] - 1, 0, 1) if x != c[k] and lim[0] <= x <= lim[1]] or [c[k]])
    elif how == "opt":
        c[k] = g.pick([x for x in ([], ["x"], ["y"], [c[k][0] + " "] if c[k] and k == "info" else ["z"]) if x != c[k]])
    elif how == "dir":
        c[k] = "output" if c[k] == "input" else "input"
    elif how == "mdir":
        c[k] = g.pick([x for x in ("read", "write", "rdwr", "infer") if x != c[k]])
    elif how == "mdir3":
        c[k] = g.pick([x for x in ("read", "write", "rdwr") if x != c[k]])
    elif how == "ruw":
        c[k] = g.pick([x for x in RUW if x != c[k]])
    elif how == "conn":
        c[k] = "pconn" if c[k] == "conn" else "conn"
    elif how == "fmt":
        c[k] = g.pick([x for x in "bdxc" if x != c[k]])
    elif how == "smem":
        if c["kind"] == "cmem":
            c["kind"] = "smem"
        elif c["ruw"] and g.p(0.5):
            c["ruw"] = g.pick([x for x in ([], ["old"], ["new"], ["undefined"]) if x != c["ruw"]])
        elif not c["ruw"] and g.p(0.5):
            c["ruw"] = [g.pick(RUW)]
        else:
            c["kind"], c["ruw"] = "cmem", []
    elif how == "param":
        c[k] = g.pick([x for x in ({"int": "1"}, {"int": "2"}, {"str": "1"}, {"str": ""}, {"dbl": {"neg": False, "d": "1", "x": 0}},
                                   {"dbl": {"neg": True, "d": "15", "x": -1}}) if x != c[k]])
    elif how == "modkind":
        c[k] = "module" if c[k] == "extmodule" else "extmodule"
    return d


STRANGE = list("\ufeff\x00\u200b\u00a0\u3000\x0b\x0c\u0085\u2028\u2029\x1a\x1b\x7f\u200f\u0301\ufffd") + ["\ufeff\ufeff", "\r", "\t", "\\\n"]


# What the specification takes for letters and digits outside of ASCII, see FText
KNOWN = set(LETTERS + NUMS + ["É", "Λ", "ж"] + STRANGE)


def lettered(v):
    """whether every character outside of ASCII which may be a letter or digit is one the specification knows"""
    if isinstance(v, str):
        return v.isascii() or all(c <= "\x7f" or c in KNOWN or unicodedata.category(c)[0] in "PSZ" and unicodedata.category(c) != "So" or c in "😀" for c in v)
    if isinstance(v, dict):
        return all(lettered(k) and lettered(x) for k, x in v.items())
    return not isinstance(v, (list, tuple)) or all(map(lettered, v))


def lettered_bytes(b):
    try:
        return lettered(bytes(b).decode())
    except UnicodeDecodeError:
        return True


def strange(g, t):
    """a text with a character put where it may be taken for blank, or for nothing"""
    n = t.count("\n") + 1
    return stranger(g, t, g.pick(STRANGE), g.r.randrange(6), g.r.randrange(n))


def stranges(g, t):
    """every strange character in every kind of place"""
    n = t.count("\n") + 1
    return [stranger(g, t, x, k, g.r.randrange(n)) for x in STRANGE for k in range(6)]


def stranger(g, t, x, k, i):
    ls = t.split("\n")
    if k == 0:
        return x + t
    if k == 1:
        return t + x
    if k == 2:
        ls[i] = x + ls[i]
    elif k == 3:
        ls[i] = ls[i] + x
    elif k == 4:
        ls.insert(i, x)
    else:
        j = g.pick([j for j in range(len(ls[i]) + 1) if not 0 < j < len(ls[i]) or " " in ls[i][j - 1:j + 1]])
        ls[i] = ls[i][:j] + x + ls[i][j:]
    return "\n".join(ls)


def resembling(g, t):
    """a text of the same length, mostly with one word exchanged by one as long, or another digit"""
    ws = [m for m in re.finditer(r"[A-Za-z0-9_]+", t)]
    if not ws:
        return t
    for _ in range(20):
        m = g.pick(ws)
        w = m.group()
        if g.p(0.5):
            other = [x.group() for x in ws if len(x.group()) == len(w) and x.group() != w]
        else:
            i = g.r.randrange(len(w))
            other = [w[:i] + str(d) + w[i + 1:] for d in range(10)] if w[i].isdigit() else []
        if other:
            return t[:m.start()] + g.pick(other) + t[m.end():]
    return t


def distinct(env, xs):
    """environment and documents over it, renamed such that no two declarations share a name"""
    env, xs = json.loads(json.dumps([env, xs]))

    def fresh(ds):
        seen, m = set(), {}
        for i, d in enumerate(ds):
            n = d["n"]
            while n in seen:
                n += "_"
            seen.add(n)
            d["n"] = m[i + 1] = n
        return m
    ent, mem, mod = fresh(env["decls"]), fresh(env["smems"]), fresh(env["mods"])

    def walk(x):
        if isinstance(x, list):
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            if x.get("e") == "ref":
                x["n"] = ent[x["d"]]
            if x.get("k") == "mport" and "md" in x:
                x["m"] = mem[x["md"]]
            if x.get("k") == "inst" and "mi" in x:
                x["of"] = mod[x["mi"]]
            for y in x.values():
                walk(y)
    walk(env["decls"])
    walk(xs)
    return env, xs


def common(g, env, xs, names=("a", "b")):
    """environment and documents over it, renamed such that many declarations share a name"""
    env, xs = json.loads(json.dumps([env, xs]))
    ent = {}

    def walk(x):
        if isinstance(x, list):
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            if x.get("e") == "ref":
                x["n"], x["d"] = ent[x["d"]]
            else:
                for y in x.values():
                    walk(y)
    for i, d in enumerate(env["decls"]):
        walk(d)
        d["n"] = g.pick(names)
        ent[i + 1] = d["n"], env["decls"].index(d) + 1
    walk(xs)
    return env, xs


# -- texts nested in one place
def nestings():
    """(what is around, opening, innermost, closing, what follows): expressions in
    every place of a statement, nested in every place of an expression; types and
    statements nested in every place of theirs"""
    head = "circuit m :\n module m :\n  input v : { a : UInt<8>[4], b : { a : UInt<8> }[4] }\n  input u : UInt<8>[4]\n  input x : UInt<4>\n  input c : Clock\n  output y : UInt\n  output w : UInt<8>[4]\n"
    places = [("  node n = ", "\n"), ("  y <= ", "\n"), ("  y <- ", "\n"), ("  w[", "] <= x\n"), ("  w[", "] is invalid\n"), ("  w[", "] <- x\n"),
              ("  when ", " : skip\n"), ("  when x : skip\n  else when ", " : skip\n"), ("  stop(c, ", ", 1)\n"), ("  stop(c, ", ", 1) : s\n"),
              ("  printf(c, ", ", \"\")\n"), ("  printf(c, x, \"%d\", ", ")\n"), ("  printf(c, x, \"%d%x\", x, ", ")\n"),
              ("  attach(w[", "], w[0])\n"), ("  reg r : UInt, asClock(", ")\n"), ("  reg r : UInt, c with : (reset => (", ", x))\n"), ("  reg r : UInt, c with : (reset => (x, ", "))\n"),
              ("  cmem m : UInt[8]\n  read mport p = m[", "], c\n"), ("  smem m : UInt[8]\n  infer mport p = m[x], asClock(", ")\n"), ("  stop(asClock(", "), x, 1)\n")]
    exprs = [("u[", "x", "]"), ("v.a[", "x", "]"), ("v.b[", "x", "].a"), ("u[not(", "x", ")]"), ("u[", "x", "][0]"), ("u[", "x", "].a"), ("u[", "x", "][x]"), ("v.b[", "x", "][x].a[0]"),
             ("mux(", "x", ", x, x)"), ("mux(x, ", "x", ", x)"), ("mux(x, x, ", "x", ")"), ("validif(", "x", ", x)"), ("validif(x, ", "x", ")"),
             ("mux(", "x", ", x, x)[0]"), ("not(", "x", ")"), ("not( ", "x", " )"), ("add(", "x", ", x)"), ("add(x, ", "x", ")"), ("cat(", "u[0]", ", u[x])"), ("cat(u[x], ", "u[0]", ")"),
             ("pad(", "x", ", 8)"), ("bits(", "x", ", 1, 0)"), ("head(", "x", ", 1)"), ("tail(", "x", ", 1)"), ("asUInt(", "x", ")"), ("asFixed(", "x", ", 1)"), ("shl(", "x", ", 1)"),
             ("dshl(", "x", ", x)"), ("dshl(x, ", "x", ")"), ("andr(", "x", ")"), ("cvt(", "x", ")"), ("lt(", "UInt(1)", ", SInt(1))"), ("eq(UInt<8>(\"h1\"), ", "x", ")"), ("u[validif(x, ", "x", ")]"),
             ("mux(u[", "x", "], u[0], u[1])"), ("(", "x", ")"), ("not(", "x", ""), ("u[", "x", ""), ("", "x", "[0]"), ("", "v", ".a"), ("", "u", "[x]"), ("", "x", ")")]
    for a, b in places:
        for e in exprs:
            yield head + a, e[0], e[1], e[2], b
    types = [("{ a : ", "UInt<8>", " }"), ("{ flip a : ", "UInt", " }"), ("{ a : UInt, b : ", "Clock", " }"), ("{ a : ", "Clock", ", b : SInt<8>[4] }"), ("{ a : ", "Reset", " }[4]"), ("", "Fixed<8><<4>>", "[2]"),
             ("{ flip flip : ", "UInt", "[1] }"), ("{ ", "a : UInt", " }"), ("{ a : ", "UInt", ""), ("{ a : ", "", " }"), ("", "UInt", "<1>")]
    for a, b in [("  wire t : ", "\n"), ("  input t : ", "\n"), ("  output t : ", "\n"), ("  reg t : ", ", c\n"), ("  cmem t : ", "[4]\n"), ("  smem t : ", "[4] old\n"), ("  mem t :\n   data-type => ", "\n   depth => 4\n   read-latency => 0\n   write-latency => 1\n")]:
        for e in types:
            yield "circuit m :\n module m :\n" + "  input c : Clock\n" * ("reg" in a) + a, e[0], e[1], e[2], b
    for e in [("  when x : ", "skip", "\n"), ("  when x :\n   skip\n  else : ", "skip", "\n"), ("  when x : skip else : ", "skip", "\n"), ("  when x : skip else when x : ", "skip", "\n"), ("  when x : ", "skip", " else : skip\n"),
              ("  when x : ", "skip", " else when x : skip\n"), ("  when x : skip\n", "", ""), ("  node n = x\n", "", ""), ("  skip\n", "", ""), ("  skip @[a]\n", "", ""), ("  ; a\n", "", ""), ("\n", "", ""), ("  else : skip\n", "", "")]:
        yield (head,) + e + ("",)
    for e in [(" module m :\n  skip\n", "", ""), (" extmodule e :\n  parameter a = 1\n", "", ""), ("  inst i of e\n", "", ""), (" ", "module m :", " "), ("module m :\n ", "skip", "\n"), ("circuit m :\n", "", "")]:
        yield ("circuit m :\n",) + e + ("",)

"""Pairing of /repo's functions with the reference tree, and the decision
`same value flow`: normalised-MIR identity, else value-number equality with the
paired callees opaque, else with the callees that changed expanded."""
import hashlib, json, re, os, sys, time
from harness import *
from terms import MODE

LINED = {"=": 3, "call": 5}


class Norm:
    """structural hash of a body, independent of lines, impl numbers and files"""

    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.busy = set()

    def key(self, k):
        """name of a definition without impl/closure numbers when it can be resolved"""
        f = self.prog.fns.get(k)
        if f is None:
            return k
        if f.kind in ("Fn", "AssocFn"):
            return "fn:%s:%s" % (f.crate, f.qname)
        # closures, constants, promoteds: by content
        return "body:" + self.body(f)

    def body(self, f):
        h = self.memo.get(f.key)
        if h is not None:
            return h
        if f.key in self.busy:
            return "rec"
        self.busy.add(f.key)
        j = f.j
        out = [j["argc"], self.n(j["locals"])]
        for b in j["blocks"]:
            if b["c"]:
                continue
            for s in b["s"]:
                out.append(self.n(s[:3] if s[0] == "=" else s))
            t = b["t"]
            out.append(self.n(t[:5] if t[0] == "call" else t[:3] + t[4:] if t[0] == "assert" else t))
        self.busy.discard(f.key)
        h = hashlib.sha256(json.dumps(out).encode()).hexdigest()[:24]
        self.memo[f.key] = h
        return h

    def n(self, x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ("closure", "fndef") and isinstance(x[1], str):
                return [x[0], self.key(x[1])]
            return [self.n(y) for y in x]
        if isinstance(x, dict):
            if "promoted" in x:
                return ["promoted", self.key("%s#promoted%d" % (x["def"], x["promoted"])), self.n(x["ty"])]
            if "def" in x:
                d = x["def"]
                f = self.prog.fns.get(d)
                if f is not None and f.kind not in ("Fn", "AssocFn"):
                    return ["const", self.body(f)]
                return ["const", self.key(d), self.n(x.get("ty"))]
            r = {}
            for k, v in x.items():
                if k in ("path", "respath", "txt"):
                    if k == "txt" and "val" not in x and "str" not in x and "fn" not in x:
                        r[k] = v
                    continue
                if k in ("key", "res") and isinstance(v, str):
                    r[k] = self.key(v)
                else:
                    r[k] = self.n(v)
            return r
        return x


def refs_of(f):
    """callee / closure / const keys mentioned by a body"""
    out = set()

    def w(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ("closure", "fndef") and isinstance(x[1], str):
                out.add(x[1])
            for y in x:
                w(y)
        elif isinstance(x, dict):
            if "promoted" in x:
                out.add("%s#promoted%d" % (x["def"], x["promoted"]))
            elif "def" in x:
                out.add(x["def"])
            for k, v in x.items():
                if k in ("key", "res") and isinstance(v, str):
                    out.add(v)
                elif isinstance(v, (list, dict)):
                    w(v)
    for b in f.j["blocks"]:
        if b["c"]:
            continue
        w(b["s"])
        w(b["t"])
    return out


def sigkey(f):
    return json.dumps([f.j["argc"], [tysig(t) for t in f.j["locals"][: f.j["argc"] + 1]]])


def tysig(t):
    if isinstance(t, list):
        if t[0] == "closure":
            return ["closure"]
        if t[0] == "adt":
            return ["adt", t[1].split("::")[-1]] + [tysig(x) for x in t[2:]]
        return [t[0]] + [tysig(x) for x in t[1:]]
    return t


BUILDS = {}


def builds(f):
    """a function that only puts its arguments into a structure"""
    r = BUILDS.get(id(f))
    if r is None:
        bs = [b for b in f.j["blocks"] if not b["c"]]
        r = BUILDS[id(f)] = (len(bs) == 1 and bs[0]["t"][0] == "return" and 0 < f.j["argc"] and
                         all(x[0] == "=" and x[2][0] in ("use", "adt") for x in bs[0]["s"]) and
                         sum(x[2][0] == "adt" for x in bs[0]["s"]) == 1)
    return r


STRAIGHT = {}


def straight(f):
    """a short function without branches"""
    r = STRAIGHT.get(id(f))
    if r is None:
        bs = [b for b in f.j["blocks"] if not b["c"]]
        r = STRAIGHT[id(f)] = (all(b["t"][0] in ("goto", "return", "drop", "assert", "call") for b in bs) and
                               sum(len(b["s"]) for b in bs) <= 60 and sum(b["t"][0] == "call" for b in bs) <= 8)
    return r


class Pairs:
    def __init__(self, code, ref):
        self.code, self.ref = code, ref
        self.nc, self.nr = Norm(code), Norm(ref)
        self.pairs = {}     # (crate, qname) -> (code fn, ref fn)
        self.rmissing = []  # reference functions without a counterpart
        self.amb = set()
        rn = {k: v for k, v in ref.byname.items()}
        for k, rl in rn.items():
            cl = list(code.byname.get(k, []))
            rl = list(rl)
            # several functions of one name (free functions of different modules, macro impls)
            if len(rl) > 1 or len(cl) > 1:
                for r in list(rl):
                    m = [c for c in cl if c.file == r.file and sigkey(c) == sigkey(r)]
                    if len(m) == 1 and len([x for x in rl if x.file == r.file and sigkey(x) == sigkey(r)]) == 1:
                        self.add(k + (r.file, sigkey(r)), m[0], r)
                        cl.remove(m[0])
                        rl.remove(r)
                # the remaining ones by content
                for r in list(rl):
                    m = [c for c in cl if self.nc.body(c) == self.nr.body(r)]
                    if m:
                        self.add(k + (len(self.pairs),), m[0], r)
                        cl.remove(m[0])
                        rl.remove(r)
                for r in list(rl):
                    m = [c for c in cl if sigkey(c) == sigkey(r)]
                    if m:
                        self.add(k + (len(self.pairs),), m[0], r)
                        cl.remove(m[0])
                        rl.remove(r)
                self.rmissing += rl
            elif not cl:
                self.rmissing.append(rl[0])
            elif sigkey(cl[0]) != sigkey(rl[0]):
                self.rmissing.append(rl[0])
            else:
                self.add(k, cl[0], rl[0])
        # a missing private function may have been renamed: unique same-body candidate
        used = set(c.key for c, _ in self.pairs.values())
        for r in list(self.rmissing):
            m = [c for c in code.fns.values() if c.crate == r.crate and c.kind == r.kind and c.key not in used
                 and c.j["argc"] == r.j["argc"] and self.nc.body(c) == self.nr.body(r)]
            if len(m) == 1:
                self.rmissing.remove(r)
                used.add(m[0].key)
                self.add((r.crate, r.qname), m[0], r)
        self.c2p = {c.key: k for k, (c, r) in self.pairs.items()}
        self.r2p = {r.key: k for k, (c, r) in self.pairs.items()}
        self.canon = {}
        self.changed = {k for k, (c, r) in self.pairs.items() if self.nc.body(c) != self.nr.body(r)}
        self._callers = None

    def add(self, k, c, r):
        self.pairs[k] = (c, r)

    def callers(self):
        """pair key -> set of pair keys that reach it directly (through closures, consts
        and unpaired helpers) in either program"""
        if self._callers is not None:
            return self._callers
        out = {}
        for prog, tab in ((self.code, self.c2p), (self.ref, self.r2p)):
            direct = {}

            def reach(f, seen):
                if f.key in direct:
                    return direct[f.key]
                if f.key in seen:
                    return set()
                seen.add(f.key)
                s = set()
                for k in refs_of(f):
                    g = prog.fns.get(k)
                    if g is None:
                        continue
                    if k in tab:
                        s.add(tab[k])
                    else:
                        s |= reach(g, seen)
                return s
            for k, p in tab.items():
                for q in reach(prog.fns[k], set()):
                    out.setdefault(q, set()).add(p)
        self._callers = out
        return out

    # ---- comparison
    def opq(self, side, taint, me):
        tab = self.c2p if side == "c" else self.r2p

        def p(f):
            k = tab.get(f.key)
            if k is None or k in taint:
                return False
            if builds(f):
                return False
            if MODE["leaf"] and (straight(self.pairs[k][0]) or straight(self.pairs[k][1])):
                return False
            if f.trait and f.trait.split("::")[-1] in ALWAYS_INLINE and k not in self.bigcmp:
                return False
            return True
        return p

    bigcmp = set()

    def rename(self, side):
        if side == "r":
            return {}
        return {c.cname: r.cname for c, r in self.pairs.values() if c.cname != r.cname}

    def compare(self, k, taint):
        """equal with the paired callees opaque, or with those that only one of the two calls expanded"""
        t0 = time.time()
        first = None
        taint = set(taint)
        for _ in range(3):
            try:
                o = self.compare0(k, taint, t0)
            except Exception:
                if first is None:
                    raise
                break
            if first is None or not o[1]:
                first = o
            if not o[1] or time.time() - t0 > 25:
                break
            a = {self.c2p[x] for x in o[2].ctx.opaqued if x in self.c2p}
            b = {self.r2p[x] for x in o[3].ctx.opaqued if x in self.r2p}
            more = (a ^ b) - taint - {k}
            if not more:
                break
            taint |= more
        return first

    def compare0(self, k, taint, t0):
        out = None
        tries = [{}, {"restrict": True, "lift": True}, {"restrict": True}, {"lift": True}, {"peel": True}, {"peel": True, "restrict": True, "lift": True},
                 {"rem": True}, {"rem": True, "restrict": True}, {"rem": True, "restrict": True, "lift": True},
                 {"leaf": True}, {"leaf": True, "restrict": True, "lift": True}, {"bail": True}, {"frame": True}]
        zipped = False
        n = 0
        while n < len(tries):
            MODE.update({"zip": None, "zipused": False, "restrict": False, "lift": False, "peel": False, "rem": False, "leaf": False, "bail": False, "frame": False})
            MODE.update(tries[n])
            n += 1
            try:
                o = self.compare1(k, taint)
            except Exception:
                if out is None:
                    raise
                continue
            finally:
                used = MODE["zipused"]
                MODE.update({"zip": None, "restrict": False, "lift": False, "peel": False, "rem": False, "leaf": False, "bail": False, "frame": False})
            if out is None:
                out = o
            if not o[1]:
                return o
            if used and not zipped:
                zipped = True
                tries[n:n] = [{"zip": "a"}, {"zip": "b"}]
                tries += [{"zip": "a", "restrict": True}, {"zip": "b", "restrict": True}]
            if time.time() - t0 > 60:
                break
        return out

    def compare1(self, k, taint):
        c, r = self.pairs[k]
        sa = summarize(self.code, c, self.opq("c", taint, k), self.rename("c"))
        sb = summarize(self.ref, r, self.opq("r", taint, k))
        n, d = differences(sa, sb)
        return n, d, sa, sb

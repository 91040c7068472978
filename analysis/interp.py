"""Value-flow summaries of MIR bodies: a forward dataflow analysis over the control
flow graph (gated SSA; joins merge with decision diagrams, loops are summarised by
their induction variables and canonically coloured recurrences). Callees from the
workspace are inlined unless the rule keeps them opaque; std is modelled in stdm.py."""
import itertools, os, re
from fractions import Fraction
import terms
from terms import *
from values import *
import values

W = values.W


MUS = None  # debugging: colour -> (path, value after one more turn)

class Unsupported(Exception):
    pass


INTBITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128,
           "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}


def is_int(ty):
    return isinstance(ty, str) and ty in INTBITS


def tagint(m, unsigned):
    """values read at an integer type"""
    for t in ([m] if isinstance(m, T) else leaves(m)):
        if t.op not in ("+", "-", "*", "/", "neg", "pow", "k", "c"):
            t.isint = True
            if unsigned:
                t.uint = True


def few_cases(ms, n):
    """at most n combinations of leaves occur together"""
    k = 1
    for m in ms:
        k *= len(leaves(m))
    if k <= n:
        return True
    if k > 4096:
        return False
    seen = set()

    def f(*xs):
        seen.add(tuple(x.rid for x in xs if x is not DC))
        if len(seen) > n:
            raise Blowup()
        return num(len(seen))
    try:
        apply(None, f, *ms)
    except Blowup:
        return False
    return True


def ratio(v):
    """A literal's value; one written out in full (a folded `1. / 3.`) is the simple ratio it rounds"""
    f = Fraction(v)
    if f.denominator > 10 ** 13:
        q = f.limit_denominator(10000)
        if q and float(q) == float(f):
            return q
    return f


def is_float(ty):
    return ty in ("f32", "f64")


def is_num(ty):
    return is_int(ty) or is_float(ty) or ty == "char"


def head(ty):
    """ADT key / primitive name / constructor of a type"""
    if isinstance(ty, str):
        return ty
    if isinstance(ty, list) and ty:
        if ty[0] == "adt":
            return ty[1]
        return ty[0]
    return None


# ------------------------------------------------------------------ program
class Fn:
    __slots__ = ("j", "key", "crate", "name", "cfg", "self_", "trait", "traitargs", "kind", "file", "line", "cname", "qname")


def by_variant(v, ty):
    """a value of an enumeration without data, by cases"""
    ty = strip_ref(ty)
    key = ty[1] if isinstance(ty, list) and len(ty) > 1 and ty[0] == "adt" else None
    vs = W.enums.get(key) if isinstance(key, str) else None
    if not vs or len(vs) > 8 or any(fs for _, fs in vs) or isinstance(v, Node):
        return v
    e = expand_enum(v, key)
    if not isinstance(e, VEnum) or not isinstance(e.d, Node):
        return v
    pay = {n: {} for n, _ in vs}
    return map_leaves(e.d, lambda t: t if t is DC else as_scalar(VEnum(key, t, pay)))


def touched(f, local, fns):
    """what one function does with the structure its parameter refers to: (read, written, [(function, parameter)])"""
    rd, wr, calls = set(), set(), []
    alias, new = set(), [local]

    class Lost(Exception):
        pass

    def place(x):
        return isinstance(x, list) and len(x) == 2 and type(x[0]) is int and isinstance(x[1], list)

    def use(x, write=False, read=True):
        """every place mentioned in x"""
        if place(x):
            if x[0] in alias:
                p = x[1]
                if len(p) < 2 or p[0] != "*" or not (isinstance(p[1], list) and p[1][0] == "f"):
                    raise Lost()
                if read or len(p) > 2:
                    rd.add(p[1][1])
                if write:
                    wr.add(p[1][1])
            for q in x[1]:
                if isinstance(q, list) and q[:1] == ["i"] and q[1] in alias:
                    raise Lost()
            return
        if isinstance(x, dict):
            x = list(x.values())
        if isinstance(x, list):
            for y in x:
                use(y, write, read)

    def whole(v):
        """the reference itself, as an operand"""
        return isinstance(v, list) and len(v) == 2 and v[0] in ("c", "m") and place(v[1]) and v[1][0] in alias and not v[1][1]

    try:
        while new:
            alias |= set(new)
            new = []
            rd, wr, calls = set(), set(), []
            for b in f.j["blocks"]:
                if b.get("c"):
                    continue
                for s in b["s"]:
                    if s[0] != "=" or not place(s[1]):
                        use(s, True)
                        continue
                    d, v = s[1], s[2]
                    if d[0] in alias and d[1] == [] and d[0] == local:
                        return None
                    same = None
                    if v[0] == "use" and whole(v[1]):
                        same = True
                    elif v[0] == "ref" and place(v[-1]) and v[-1][0] in alias and v[-1][1] == ["*"]:
                        same = True
                    if same:
                        if d[1]:
                            return None
                        if d[0] == 0:
                            return None
                        if d[0] not in alias:
                            new.append(d[0])
                        continue
                    if not (d[0] in alias and d[1] == []):
                        use(d, True, False)
                    use(v, v[0] in ("ref", "addr", "rawptr") and v[1] not in ("shared", "imm", "const"), True)
                t = b["t"]
                if t[0] == "call":
                    g, args, d = t[1], t[2], t[3]
                    r = g.get("fn") if isinstance(g, dict) else None
                    if r is None:
                        use(g)
                    for i, a in enumerate(args):
                        if whole(a):
                            h = fns.get(r["key"]) if r is not None and "trait" not in r else None
                            if h is None or h.kind not in ("Fn", "AssocFn"):
                                return None
                            calls.append((h, i + 1))
                        else:
                            use(a)
                    use(d, True, False)
                elif t[0] != "return":
                    use(t[1:], True)
    except Lost:
        return None
    return rd, wr, calls


class Program:
    def __init__(self, crates, srcroot=None):
        self.srcroot = srcroot
        self.fns = {}
        self.byname = {}
        self.impls = []
        self.unsafe = []
        self.statics = []
        self.adts = {}
        self.crates = crates
        self.framecache = {}
        self.wstructs, self.wenums, self.wftypes = {}, dict(values.STDENUMS), {}
        self.activate()
        for cn, c in crates.items():
            if cn == "derive":
                continue
            for a in c["adts"]:
                self.adts[a["key"]] = a
                if a["kind"] == "enum":
                    W.enums[a["key"]] = [(v["name"], [f[0] for f in v["fields"]]) for v in a["variants"]]
                    for v in a["variants"]:
                        for f in v["fields"]:
                            W.ftypes[(a["key"], v["name"], f[0])] = f[1]
                else:
                    W.structs[a["key"]] = [(f[0], f[1]) for f in a["variants"][0]["fields"]]
                    for f in a["variants"][0]["fields"]:
                        W.ftypes[(a["key"], None, f[0])] = f[1]
            for im in c["impls"]:
                self.impls.append((cn, im))
            for u in c["unsafe_blocks"]:
                self.unsafe.append((cn, u))
            for j in c["fns"]:
                f = Fn()
                f.j, f.key, f.crate = j, j["key"], cn
                f.kind = j.get("kind")
                f.name = j.get("name")
                f.file, f.line = j["file"], j["line"]
                f.self_ = j.get("selfty")
                f.trait = j.get("trait")
                f.traitargs = j.get("traitargs")
                f.cfg = None
                f.cname, f.qname = self._cname(f)
                if f.key in self.fns and cn.endswith("-bin"):
                    pass
                self.fns[f.key] = f
                if f.kind in ("Fn", "AssocFn"):
                    self.byname.setdefault((cn, f.qname), []).append(f)
        self.traitimpls = {}
        for cn, im in self.impls:
            if im["trait"]:
                self.traitimpls.setdefault(im["trait"], []).append(im)

    def frame(self, fn, local):
        """(fields read, fields written) of the structure that parameter `local` refers to, by `fn` and whatever it hands
        the structure to; None when the reference goes somewhere unseen"""
        got = self.framecache.get((fn.key, local), 0)
        if got != 0:
            return got
        seen, todo, rd, wr = set(), [(fn, local)], set(), set()
        while todo:
            f, l = todo.pop()
            if (f.key, l) in seen:
                continue
            seen.add((f.key, l))
            r = touched(f, l, self.fns)
            if r is None or len(seen) > 60:
                rd = None
                break
            rd |= r[0]
            wr |= r[1]
            todo += r[2]
        got = self.framecache[(fn.key, local)] = None if rd is None else (rd, wr)
        return got

    def activate(self):
        """type tables of this program become the current ones"""
        W.structs, W.enums, W.ftypes = self.wstructs, self.wenums, self.wftypes

    def _cname(self, f):
        if f.kind not in ("Fn", "AssocFn"):
            return f.key, f.key
        if f.self_ is not None:
            s = tyname(f.self_)
            if f.trait:
                t = f.trait.split("::")[-1]
                if f.traitargs:
                    t += "<%s>" % ",".join(tyname(x) for x in f.traitargs)
                return "%s::%s" % (s, f.name), "<%s as %s>::%s" % (s, t, f.name)
            return "%s::%s" % (s, f.name), "%s::%s" % (s, f.name)
        td = f.j.get("trait_default")
        if td:
            return "%s::%s" % (td.split("::")[-1], f.name), "%s::%s" % (td.split("::")[-1], f.name)
        return f.name, f.name

    def find(self, crate, qname, optional=False):
        """unique function by crate and canonical name ('module/name' disambiguates by file)"""
        mod = None
        q = qname
        if "@" in qname:
            q, mod = qname.split("@")
        l = self.byname.get((crate, q), [])
        if mod:
            l = [f for f in l if f.file.endswith(mod)]
        if len(l) == 1:
            return l[0]
        if not l:
            return None
        if optional:
            return None
        raise KeyError("ambiguous %s %s: %s" % (crate, qname, [x.file for x in l]))

    def resolve_trait(self, trait, method, selfty):
        h = head(selfty)
        cands = []
        for im in self.traitimpls.get(trait, []):
            s = im["self"]
            if head(s) == h and h is not None and h != "param" and tymatch(s, selfty):
                for n, k in im["items"]:
                    if n == method:
                        cands.append((im, k))
        if len(cands) == 1:
            return cands[0][1]
        return None


def tymatch(pat, ty):
    """can the type be an instance of the pattern of an impl?"""
    if isinstance(pat, list) and pat and pat[0] == "param" or isinstance(ty, list) and ty and ty[0] == "param":
        return True
    if isinstance(pat, list) and isinstance(ty, list):
        if pat[:1] == ["adt"] and ty[:1] == ["adt"]:
            return pat[1] == ty[1] and all(tymatch(a, b) for a, b in zip(pat[2:], ty[2:]))
        return len(pat) == len(ty) and all(tymatch(a, b) for a, b in zip(pat, ty))
    return pat == ty or "..." in (pat, ty)


def tyname(ty):
    if isinstance(ty, str):
        return ty
    k = ty[0]
    if k == "adt":
        return ty[1].split("::")[-1]
    if k in ("ref", "refmut"):
        return "&" + ("mut " if k == "refmut" else "") + tyname(ty[1])
    if k == "tuple":
        return "(%s)" % ",".join(tyname(x) for x in ty[1:])
    if k == "array":
        return "[%s;%s]" % (tyname(ty[1]), ty[2])
    if k == "slice":
        return "[%s]" % tyname(ty[1])
    if k == "param":
        return ty[1]
    return str(ty[-1])


# ------------------------------------------------------------------ cfg
class Cfg:
    def __init__(self, j):
        bs = j["blocks"]
        self.n = len(bs)
        self.succ = []
        for b in bs:
            t = b["t"]
            k = t[0]
            if b["c"]:
                s = []
            elif k == "goto":
                s = [t[1]]
            elif k == "switch":
                s = [x[1] for x in t[3]] + [t[4]]
            elif k == "drop":
                s = [t[1]]
            elif k == "call":
                s = [t[4]] if t[4] is not None else []
            elif k == "assert":
                s = [t[4]]
            else:
                s = []
            self.succ.append(list(dict.fromkeys(s)))
        self._rpo()
        self._canreturn(bs)
        self._dom()
        self._loops()

    def _rpo(self):
        seen, post = {0}, []
        stack = [(0, iter(self.succ[0]))]
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(b)
                stack.pop()
        self.order = post[::-1]
        self.pos = {b: i for i, b in enumerate(self.order)}
        self.pred = {b: [] for b in self.order}
        for b in self.order:
            for s in self.succ[b]:
                self.pred[s].append(b)

    def _canreturn(self, bs):
        self.canreturn = set()
        todo = [b for b in self.order if bs[b]["t"][0] == "return"]
        while todo:
            b = todo.pop()
            if b in self.canreturn:
                continue
            self.canreturn.add(b)
            todo += self.pred[b]

    def _dom(self):
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in self.order[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                if not ps:
                    continue
                n = ps[0]
                for p in ps[1:]:
                    a, c = p, n
                    while a != c:
                        while self.pos[a] > self.pos[c]:
                            a = idom[a]
                        while self.pos[c] > self.pos[a]:
                            c = idom[c]
                    n = a
                if idom.get(b) != n:
                    idom[b] = n
                    changed = True
        self.idom = idom

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]

    def _loops(self):
        loops = {}
        for b in self.order:
            for s in self.succ[b]:
                if self.pos[s] <= self.pos[b]:
                    if not self.dominates(s, b):
                        raise Unsupported("irreducible loop")
                    body = loops.setdefault(s, {s})
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x not in body:
                            body.add(x)
                            stack.extend(self.pred[x])
        self.loops = loops  # header -> body set


# ------------------------------------------------------------------ state
class St:
    __slots__ = ("mem",)

    def __init__(self, mem=None):
        self.mem = mem if mem is not None else {}

    def copy(self):
        return St(dict(self.mem))


WORLD = ("W",)
PANIC = ("P",)   # boolean: an explicit check (assert!, panic!, unreachable!) has failed


class Frame:
    __slots__ = ("fn", "id", "tsub", "cfg", "retroot", "locals")

    def ty(self, local):
        return self.locals[local]


ACCESSOR = re.compile(r"(^|::)(index_mut|get_mut|as_mut|deref_mut|borrow_mut|first_mut|last_mut|as_mut_slice|make_mut|get_many_mut)$")


TRACE = None
SOURCES = {}


class Ctx:
    """one analysis run"""

    def __init__(self, prog, opaque=None, inline=None, maxdepth=24):
        self.prog = prog
        prog.activate()
        self.opaque = opaque or (lambda f: False)
        self.fid = itertools.count()
        self.ldepth = 0
        self.stack = []
        self.maxdepth = maxdepth
        self.calls = []
        self.inlined = set()
        self.opaqued = set()
        self.panics = []
        self.constexit = []
        self.checks = []
        self.keep_panics = False
        self.pc = []
        self.pccache = {}
        self.mterms = {}
        self.steps = 0
        self.notes = []
        self.rename = {}
        self.maxsteps = 400000
        self.skipcond = None
        self.lostargs = ()
        self.debugs = []
        self.unwraps = []

    # ---- memory
    def default(self, root):
        if root[0] == "M":
            return self.mterms[root]
        if root == WORLD:
            return sym("in", "world")
        if root == PANIC:
            return FALSE
        return DC

    def loadroot(self, st, root):
        v = st.mem.get(root)
        if v is None:
            v = self.default(root)
            if root[0] in ("M", "W", "P"):
                st.mem[root] = v
        return v

    def load(self, st, v):
        if isinstance(v, VRef):
            return get_path(self.loadroot(st, v.root), v.path)
        if isinstance(v, VRefs):
            return merge([c for c, _ in v.alts], [self.load(st, r) for _, r in v.alts])
        if isinstance(v, VStruct) and v.key == "&":
            return v.f["0"]
        return v

    def deep(self, st, v):
        """value with references replaced by what they refer to"""
        k = 0
        while isinstance(v, (VRef, VRefs)) or (isinstance(v, VStruct) and v.key == "&"):
            v = self.load(st, v)
            k += 1
            if k > 8:
                break
        if isinstance(v, VStruct) and any(isinstance(x, (VRef, VRefs, VStruct)) for x in v.f.values()):
            f = {n: self.deep(st, x) for n, x in v.f.items()}
            if any(f[n] is not v.f[n] for n in f):
                return VStruct(v.key, f)
        if isinstance(v, VEnum) and any(isinstance(x, (VRef, VRefs, VStruct)) for fs in v.pay.values() for x in fs.values()):
            return VEnum(v.key, v.d, {a: {n: self.deep(st, x) for n, x in fs.items()} for a, fs in v.pay.items()})
        return v

    def store(self, st, ref, x):
        if isinstance(ref, VRef):
            if ref.path:
                st.mem[ref.root] = set_path(self.loadroot(st, ref.root), ref.path, x)
            else:
                st.mem[ref.root] = x
        elif isinstance(ref, VRefs):
            for c, r in ref.alts:
                old = self.load(st, r)
                self.store(st, r, ite(c, x, old))
        elif isinstance(ref, VStruct) and ref.key == "&":
            self.store(st, ref.f["0"], x)
        elif isinstance(ref, (T, Node)):
            self.lostwrite(st, ref, x)

    # ---- places
    def lval(self, fr, st, place):
        """-> ('loc', VRef) or ('val', value)"""
        local, projs = place
        cur = VRef(("L", fr.id, local))
        val = None  # when not None: plain value (no location)
        i = 0
        variant = None
        while i < len(projs):
            p = projs[i]
            if p == "*":
                v = self.load(st, cur) if val is None else val
                if isinstance(v, (VRef, VRefs)):
                    if isinstance(v, VRefs):
                        cur, val = v, None
                    else:
                        cur, val = v, None
                elif isinstance(v, VStruct) and v.key == "&":
                    val = v.f["0"]
                elif i == 0 and v is not DC and isinstance(fr.locals[local], list) and fr.locals[local][:1] == ["refmut"]:
                    val = v  # the place is not known
                # Box / shared reference: the value itself, same location
            elif p[0] == "v":
                nxt = projs[i + 1] if i + 1 < len(projs) else None
                owner = nxt[2] if nxt is not None and nxt != "*" and nxt[0] == "f" else None
                i += 1
                if nxt is None:
                    break
                if nxt == "*":
                    i -= 1
                else:
                    e = ("vf", p[1], nxt[1], owner)
                    if val is not None:
                        val = vfield(val, p[1], nxt[1], owner)
                    else:
                        cur = self.ext(cur, e)
            elif p[0] == "f":
                if p[2] == "alloc::boxed::Box" or p[2].startswith("core::ptr::") or p[2].startswith("core::mem::maybe") \
                        or p[2].startswith("core::mem::manually"):
                    pass
                else:
                    if val is not None:
                        val = field(val, p[1], p[2])
                    else:
                        cur = self.ext(cur, ("f", p[1], p[2]))
            elif p[0] == "i":
                idx = as_scalar(self.loadroot(st, ("L", fr.id, p[1])))
                if val is not None:
                    val = seq_index(val, idx)
                else:
                    cur = self.ext(cur, ("i", idx))
            elif p[0] == "ci":
                base = self.load(st, cur) if val is None else val
                if p[2]:
                    idx = m_sub(seq_len(base), num(p[1], True))
                else:
                    idx = num(p[1], True)
                if val is not None:
                    val = seq_index(val, idx)
                else:
                    cur = self.ext(cur, ("i", idx))
            elif p[0] == "sub":
                base = self.load(st, cur) if val is None else val
                hi = m_sub(seq_len(base), num(p[2], True)) if p[3] else num(p[2], True)
                val = mk_slice(base, num(p[1], True), hi)
            else:
                raise Unsupported("projection %s" % (p,))
            i += 1
        if val is not None:
            return ("val", val)
        return ("loc", cur)

    def ext(self, ref, e):
        if isinstance(ref, VRefs):
            return VRefs([(c, VRef(r.root, r.path + (e,))) for c, r in ref.alts])
        return VRef(ref.root, ref.path + (e,))

    def read(self, fr, st, place):
        k, v = self.lval(fr, st, place)
        if k != "val":
            v = self.load(st, v)
        if isinstance(v, (T, Node)):
            ty = fr.locals[place[0]]
            for p in place[1]:
                if isinstance(ty, list) and (p == "*" and ty[0] in ("ref", "refmut") or p[0] == "i" and ty[0] in ("slice", "array")):
                    ty = ty[1]
                else:
                    ty = None
                    break
            if isinstance(ty, list) and fr.tsub:
                ty = self.subty(fr, ty)
            if is_int(ty):
                tagint(v, ty[0] == "u")
            elif ty == "bool":
                v = as_bool(v)
            elif isinstance(ty, list) and ty and ty[0] == "array":
                v = array_value(v, ty)
        return v

    def write(self, fr, st, place, x):
        k, v = self.lval(fr, st, place)
        if k == "loc":
            self.store(st, v, x)
        else:
            self.lostwrite(st, v, x)

    def lostwrite(self, st, v, x):
        """a write through a mutable reference whose place is not known: an ordered effect"""
        if v is DC:
            return
        w = self.loadroot(st, WORLD)
        st.mem[WORLD] = sym("write!", as_scalar(self.deep(st, v)), as_scalar(self.deep(st, x)), w)
        if TRACE is not None:
            TRACE.append((self.stack[-1].fn.qname if self.stack else "", "write", str(v)[:80]))

    # ---- types
    def subty(self, fr, ty):
        if not fr.tsub or not isinstance(ty, list):
            return ty
        if ty[0] == "param":
            return fr.tsub.get(ty[1], ty)
        return [ty[0]] + [self.subty(fr, x) if isinstance(x, list) else x for x in ty[1:]]

    # ---- operands
    def operand(self, fr, st, o):
        if isinstance(o, dict):
            return self.constant(fr, o)
        if o == "?":
            return sym("unknown-operand")
        return self.read(fr, st, o[1])

    def constant(self, fr, o):
        ty = self.subty(fr, o["ty"])
        if "fn" in o:
            r = o["fn"]
            return VFn(r.get("res") or r["key"], self.subref(fr, r))
        if "promoted" in o:
            return self.constbody("%s#promoted%d" % (o["def"], o["promoted"]), fr)
        if "val" in o:
            v = o["val"]
            if ty == "bool":
                return TRUE if v else FALSE
            if is_float(ty):
                if v in ("NaN", "inf", "-inf"):
                    return const("float", v)
                return num(ratio(v))
            if ty == "char" or is_int(ty):
                return num(int(v), True)
        if "str" in o:
            return string(o["str"])
        if "bytes" in o:
            bs = o["bytes"]
            if len(bs) <= 64:
                return VStruct("array", {str(i): num(x, True) for i, x in enumerate(bs)})
            return const("bytes", tuple(bs))
        if "def" in o and o["def"] in self.prog.fns:
            return self.constbody(o["def"], fr)
        if isinstance(ty, list):
            if ty[0] == "tuple" and len(ty) == 1:
                return UNIT
            if ty[0] == "closure":
                return VStruct("closure:" + ty[1], {})
            if ty[0] == "adt" and ty[1] in W.structs and not W.structs[ty[1]]:
                return VStruct(ty[1], {})
        if "generic" in o:
            g = o["generic"]
            sub = fr.tsub.get(g)
            if isinstance(sub, str) and sub.startswith("const "):
                g = sub[6:].split("_")[0]
            if g.split("_")[0].isdigit():
                return num(int(g.split("_")[0]), True)
            return sym("in", g, uint=True, isint=True)
        return const("txt", o.get("txt", o.get("def", "?")))

    def constbody(self, key, fr):
        f = self.prog.fns.get(key)
        if f is None:
            return const("txt", key)
        st = St()
        d, self.ldepth = self.ldepth, 0
        try:
            return self.run(f, [], st, fr.tsub)
        finally:
            self.ldepth = d

    def subref(self, fr, r):
        if not fr.tsub:
            return r
        r = dict(r)
        if "targs" in r:
            r["targs"] = [self.subty(fr, x) for x in r["targs"]]
        if "self" in r:
            r["self"] = self.subty(fr, r["self"])
        return r

    # ---- rvalues
    def rvalue(self, fr, st, rv, dest):
        k = rv[0]
        if k == "use":
            return self.operand(fr, st, rv[1])
        if k == "ref":
            kind, v = self.lval(fr, st, rv[2])
            if rv[1] == "mut" or rv[1] == "raw":
                if kind == "loc":
                    return v
                return v
            x = v if kind == "val" else self.load(st, v)
            if isinstance(x, (VRef, VRefs)):
                return VStruct("&", {"0": x})
            return x
        if k == "bin":
            return self.binop(rv[1], self.operand(fr, st, rv[2]), self.operand(fr, st, rv[3]), self.subty(fr, rv[4]), st)
        if k == "un":
            a = self.operand(fr, st, rv[2])
            ty = self.subty(fr, rv[3])
            if rv[1] == "Neg":
                return m_neg(as_scalar(a))
            if rv[1] == "Not":
                if ty == "bool":
                    return m_not(as_bool(as_scalar(a)))
                return lift("bitnot", lambda t: sym("bitnot", t), as_scalar(a))
            if rv[1] == "PtrMetadata":
                return seq_len(self.deep(st, a))
            raise Unsupported("unop " + rv[1])
        if k == "cast":
            return self.cast(rv[1], self.operand(fr, st, rv[2]), self.subty(fr, rv[3]), self.subty(fr, rv[4]))
        if k == "discr":
            v = self.read(fr, st, rv[1])
            return self.discr(self.deep(st, v), rv[2], rv[3])
        if k == "adt":
            _, key, var, vidx, fields, ops = rv
            vals = [self.operand(fr, st, o) for o in ops]
            if key in W.enums or key.split("::")[-1] != var:
                if key not in W.enums:
                    W.enums[key] = [(var, list(fields))]
                if key == RESULT and var == "Err":
                    return err()
                return VEnum(key, string(var), {var: dict(zip(fields, vals))})
            return VStruct(key, dict(zip(fields, vals)))
        if k == "tuple":
            vals = [self.operand(fr, st, o) for o in rv[1]]
            if not vals:
                return UNIT
            return VStruct("tuple", {str(i): v for i, v in enumerate(vals)})
        if k == "array":
            vals = [self.operand(fr, st, o) for o in rv[1]]
            return VStruct("array", {str(i): v for i, v in enumerate(vals)})
        if k == "closure":
            vals = [self.operand(fr, st, o) for o in rv[2]]
            return VStruct("closure:" + rv[1], {str(i): v for i, v in enumerate(vals)})
        if k == "repeat":
            x = self.operand(fr, st, rv[1])
            n = rv[2].split("_")[0]
            if n.isdigit() and int(n) <= 24:
                return VStruct("array", {str(i): x for i in range(int(n))})
            n = num(int(n), True) if n.isdigit() else sym("in", n, uint=True, isint=True)
            return sym("repeat", x if not isinstance(x, Node) else opaque_leaf(x), n)
        raise Unsupported("rvalue %s" % str(rv)[:80])

    def discr(self, v, key, names):
        if key == "core::cmp::Ordering":
            names = [("-1" if n == "Less" else d, n) for d, n in names]
        mp = {n: num(int(d), True) for d, n in names}
        if key and key not in W.enums and names:
            W.enums[key] = [(n, []) for _, n in names]
        if not isinstance(v, VEnum):
            e = expand_enum(v, key) if key else None
            if e is None:
                if v is DC:
                    return DC
                v = as_scalar(v)
                dom = tuple(sorted(mp))
                return map_leaves(v, lambda t: discr_node(t, dom, [mp[n] for n in dom]))
            v = e
        return apply(None, lambda t: mp.get(t.val, DC) if t.op == "c" else DC, v.known())

    def binop(self, op, a, b, ty, st):
        op = op.replace("Unchecked", "")
        if op.endswith("WithOverflow"):
            r = self.binop(op[:-12], a, b, ty, st)
            return VStruct("tuple", {"0": r, "1": FALSE})
        a, b = self.deep(st, a), self.deep(st, b)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if ty == "bool":
                x, y = as_bool(as_scalar(a)), as_bool(as_scalar(b))
                r = m_ite(x, y, m_not(y))
                if op == "Eq":
                    return r
                if op == "Ne":
                    return m_not(r)
            if is_num(ty) or (isinstance(ty, list) and ty[0] == "param"):
                return m_cmp(op, as_scalar(a), as_scalar(b), is_int(ty) or ty == "char")
            r = m_eqc(as_scalar(a), as_scalar(b))
            return m_not(r) if op == "Ne" else r
        a, b = as_scalar(a), as_scalar(b)
        if ty == "bool":
            x, y = as_bool(a), as_bool(b)
            if op == "BitAnd":
                return m_and(x, y)
            if op == "BitOr":
                return m_or(x, y)
            if op == "BitXor":
                return m_ite(x, m_not(y), y)
        if op == "Add":
            return m_add(a, b)
        if op == "Sub":
            return m_sub(a, b)
        if op == "Mul":
            return m_mul(a, b)
        if op == "Div":
            if is_int(ty):
                return lift("idiv:" + ("u" if ty[0] == "u" else "i"), lambda x, y: t_idiv(x, y, ty), a, b)
            return m_div(a, b)
        if op == "Rem":
            if MODE["rem"] and is_int(ty):
                return m_rem(a, b, ty)
            return lift("rem:" + ("u" if ty[0] == "u" else "i" if is_int(ty) else "f"), lambda x, y: t_rem(x, y, ty), a, b)
        if op == "Cmp":
            return cmp_ordering(a, b, is_int(ty))
        return lift("bit" + op, lambda x, y: t_bit(op, x, y, ty), a, b)

    def cast(self, kind, v, to, frm):
        if kind == "IntToInt":
            v = as_scalar(v)
            if frm == "bool":
                return m_ite(as_bool(v), num(1, True), num(0, True))
            if not is_int(to) and to != "char":
                return v
            fb = INTBITS.get(frm, 32 if frm == "char" else 64)
            tb = INTBITS.get(to, 32)
            fs = isinstance(frm, str) and frm[0] == "i"
            ts = isinstance(to, str) and to[0] == "i"
            if (tb > fb and (ts or not fs)) or (tb == fb and fs == ts) or (tb >= fb and not fs and ts):
                return v
            return lift("cast:" + to, lambda t: t_cast(t, to), v)
        if kind == "IntToFloat":
            return as_scalar(v)
        if kind == "FloatToInt":
            return lift("toint:" + to, lambda t: t_toint(t, to), as_scalar(v))
        if kind == "FloatToFloat":
            if to == "f32" and frm == "f64":
                return lift("f32", lambda t: t if t.op == "k" else sym("f32", t), as_scalar(v))
            return v
        if kind == "Transmute":
            if frm == to or not (is_num(frm) or is_num(to)):
                return v
            return lift("transmute:%s" % to, lambda t: sym("transmute:%s" % to, t), as_scalar(v))
        return v

    # ---- execution
    def run(self, fn, args, st, tsub=None, selfargs=None):
        """inline execution of a body: returns the value returned; st is updated"""
        if fn.cfg is None:
            fn.cfg = Cfg(fn.j)
        fr = Frame()
        fr.fn, fr.id, fr.tsub, fr.cfg = fn, next(self.fid), tsub or {}, fn.cfg
        fr.locals = fn.j["locals"]
        for i, a in enumerate(args):
            st.mem[("L", fr.id, i + 1)] = a
        self.stack.append(fr)
        try:
            region = set(fn.cfg.order)
            exits, backs, rets = self.region(fr, region, 0, st, None)
        finally:
            self.stack.pop()
        if not rets:
            # diverges
            st.mem.clear()
            return None
        out = self.merge_states(rets)
        ret = out.mem.get(("L", fr.id, 0), UNIT)
        st.mem.clear()
        for r, v in out.mem.items():
            if not (r[0] == "L" and r[1] == fr.id):
                st.mem[r] = v
        # references into the dead frame are replaced by values
        return ret

    def merge_states(self, items):
        """items: list of (cond, St)"""
        if len(items) == 1:
            return items[0][1].copy()
        conds = [c for c, _ in items]
        out = St()
        roots = {}
        for _, s in items:
            for r in s.mem:
                roots[r] = 1
        for r in roots:
            vs = [s.mem.get(r) for _, s in items]
            if all(v is vs[0] for v in vs):
                out.mem[r] = vs[0]
                continue
            cs, vv = [], []
            for c, v in zip(conds, vs):
                if v is None:
                    if r[0] in ("M", "W", "P"):
                        v = self.default(r)
                    else:
                        continue
                cs.append(c)
                vv.append(v)
            out.mem[r] = merge(cs, vv)
        return out

    def region(self, fr, region, entry, st, loophead):
        cfg = fr.cfg
        incoming = {entry: [(TRUE, st.copy())]}
        exits, backs, rets = [], [], []
        # blocks handled inside inner loops are skipped here
        inner = set()
        for h, body in cfg.loops.items():
            if h != loophead and h in region and body <= region:
                inner |= body - {h}
        todo = [b for b in cfg.order if b in region]

        def send(src, dst, c, s):
            if c is FALSE:
                return
            if loophead is not None and dst == loophead:
                backs.append((c, s))
            elif dst in region:
                incoming.setdefault(dst, []).append((c, s))
            else:
                exits.append((dst, c, s))

        for b in todo:
            if b in inner and b not in incoming:
                continue
            inc = incoming.pop(b, None)
            if not inc:
                continue
            cond = inc[0][0]
            for c, _ in inc[1:]:
                cond = m_or(cond, c)
            s = self.merge_states(inc)
            if len(inc) > 1 and cond is not TRUE:
                pass
            self.pc.append(cond)
            try:
                if b in cfg.loops and b != loophead:
                    outs = self.loop(fr, b, s)
                    if MODE["bail"]:
                        outs = self.bail(fr, outs)
                    for dst, c, s2 in outs:
                        if dst == "ret":
                            rets.append((m_and(cond, c), s2))
                        else:
                            send(b, dst, m_and(cond, c), s2)
                    continue
                for dst, c, s2 in self.block(fr, b, s):
                    if dst == "ret":
                        rets.append((m_and(cond, c), s2))
                    else:
                        send(b, dst, m_and(cond, c) if c is not TRUE else cond, s2)
            finally:
                self.pc.pop()
        return exits, backs, rets

    def block(self, fr, b, st):
        """-> list of (dst | 'ret', cond, state)"""
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported("analysis budget exceeded in %s" % fr.fn.key)
        blk = fr.fn.j["blocks"][b]
        for s in blk["s"]:
            if s[0] == "=":
                self.write(fr, st, s[1], self.rvalue(fr, st, s[2], s[1]))
            elif s[0] == "setdiscr":
                pass
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], TRUE, st)]
        if k == "drop":
            return [(t[1], TRUE, st)]
        if k == "assert":
            return [(t[4], TRUE, st)]
        if k == "return":
            return [("ret", TRUE, st)]
        if k == "switch":
            v = self.operand(fr, st, t[1])
            ty = self.subty(fr, t[2])
            out = []
            if ty == "bool":
                c = as_bool(as_scalar(v))
                for val, dst in t[3]:
                    out.append((dst, m_not(c) if val == "0" else c))
                out.append((t[4], c if t[3][0][0] == "0" else m_not(c)))
            else:
                rest = TRUE
                v = as_scalar(v)
                isdisc = not is_num(ty)
                for val, dst in t[3]:
                    n = int(val)
                    if isinstance(ty, str) and ty[0] == "i" and n >= 1 << (INTBITS.get(ty, 64) - 1):
                        n -= 1 << INTBITS.get(ty, 64)
                    if isinstance(v, Node) and all(x.op == "k" or x is DC for x in leaves(v)):
                        c = apply(("is", n), lambda x: DC if x is DC else TRUE if x.val == n else FALSE, v)
                    else:
                        c = m_cmp("Eq", v, num(n, True), True)
                    out.append((dst, c))
                    rest = m_and(rest, m_not(c))
                out.append((t[4], rest))
            if MODE["restrict"]:
                out = self.unpanicked(st, out)
            res = []
            live = [(d, c) for d, c in out if c is not FALSE]
            cr = fr.cfg.canreturn
            if MODE["bail"]:
                body = self.loopbody(fr, b)
                if body is not None:
                    cr = set(cr) | {d for d, _ in live if d not in body}
            alive = [d for d, _ in live if d in cr]
            if alive and len(alive) < len(live):
                dead = FALSE
                for d, c in live:
                    if d not in cr:
                        how = self.dies(fr, d)
                        if how == "panic":
                            dead = m_or(dead, c)
                        elif how == "debug":
                            self.checks.append((fr.fn.key, c, self.curpc()))
                if dead is not FALSE:
                    self.setpanic(st, dead)
            if len(live) == 2 and len(alive) == 1:
                # the other branch can only panic: a check, not a choice
                live = [(alive[0], TRUE)]
            if self.constexit and len(live) == 1 and len(out) > 1 and not self.constexit[-1]:
                body = self.loopbody(fr, b)
                if body is not None and live[0][0] in body and any(self.leaves(fr, d, body) for d, _ in out):
                    self.constexit[-1] = True
            for i, (d, c) in enumerate(live):
                res.append((d, c, st.copy() if i < len(live) - 1 else st))
            return res
        if k == "call":
            self.skipcond = None
            r = self.call(fr, st, t)
            sk, self.skipcond = self.skipcond, None
            if r is None or t[4] is None:
                return []
            if sk is not None:
                h = self.innermost(fr, b)
                if h is None:
                    raise Unsupported("filtered iterator outside a loop")
                (c, s), = r
                return [(h, sk, s.copy()), (t[4], m_not(sk), s)]
            return [(t[4], c, s) for c, s in r]
        if k in ("unreachable", "resume"):
            return []
        raise Unsupported("terminator " + k)

    def bail(self, fr, outs):
        """a loop left towards a panic: a check made when the loop ends"""
        dead = FALSE
        alive = []
        for d, c, s in outs:
            if d == "ret" or d in fr.cfg.canreturn:
                alive.append((d, c, s))
            else:
                how = self.dies(fr, d)
                if how == "panic":
                    dead = m_or(dead, c)
                elif how == "debug":
                    self.checks.append((fr.fn.key, c, self.curpc()))
        if not alive or dead is FALSE:
            return outs
        for _, _, s in alive:
            self.setpanic(s, dead)
        if len(alive) == 1:
            alive = [(alive[0][0], TRUE, alive[0][2])]
        return alive

    def unpanicked(self, st, out):
        """branch conditions, knowing that no earlier check has panicked"""
        p = st.mem.get(PANIC)
        if p is None or not isinstance(p, Node) or p.size > 400 or not any(isinstance(c, Node) for _, c in out):
            return out
        try:
            return [(d, restrict(m_not(p), c)) for d, c in out]
        except Blowup:
            return out

    def setpanic(self, st, c):
        st.mem[PANIC] = m_or(as_bool(as_scalar(self.loadroot(st, PANIC))), c)

    def dies(self, fr, b):
        """how a block that cannot return ends: 'panic', 'debug' (debug_assert!) or None (unreachable by typing)"""
        memo = fr.cfg.__dict__.setdefault("deaths", {}) if hasattr(fr.cfg, "__dict__") else {}
        if b in memo:
            return memo[b]
        bs = fr.fn.j["blocks"]
        seen, todo, how, loops = set(), [b], None, False
        while todo:
            x = todo.pop()
            if x in seen or bs[x]["c"]:
                continue
            seen.add(x)
            t = bs[x]["t"]
            if t[0] == "call" and t[4] is None:
                how = "debug" if self.debugline(fr.fn, t[5]) else "panic"
                break
            todo += fr.cfg.succ.get(x, []) if isinstance(fr.cfg.succ, dict) else fr.cfg.succ[x]
        memo[b] = how
        return how

    def debugline(self, fn, line):
        k = (id(self.prog), fn.file)
        ls = SOURCES.get(k)
        if ls is None:
            ls = []
            p = self.prog.srcroot and os.path.join(self.prog.srcroot, fn.file)
            if p and os.path.exists(p):
                ls = open(p, errors="replace").read().split("\n")
            SOURCES[k] = ls
        return isinstance(line, int) and 0 < line <= len(ls) and "debug_assert" in ls[line - 1]

    def loopbody(self, fr, b):
        h = self.innermost(fr, b)
        return fr.cfg.loops[h] if h is not None else None

    def leaves(self, fr, d, body):
        """d is outside the loop and can be reached (not an unreachable arm)"""
        return d not in body and fr.fn.j["blocks"][d]["t"][0] != "unreachable"

    def innermost(self, fr, b):
        best = None
        for h, body in fr.cfg.loops.items():
            if b in body and (best is None or len(body) < len(fr.cfg.loops[best])):
                best = h
        return best

    # ---- loops
    def loop(self, fr, h, st):
        body = fr.cfg.loops[h]
        holder = {}

        def bodyfn(s):
            exits, backs, rets = self.region(fr, body, h, s, h)
            ex = [(self.skip(fr, d, body), c, x) for d, c, x in exits] + [("ret", c, x) for c, x in rets]
            return ex, backs

        return self.loop_fix(st, bodyfn)

    def skip(self, fr, b, body):
        """follow empty goto blocks"""
        seen = set()
        while b not in seen:
            seen.add(b)
            blk = fr.fn.j["blocks"][b]
            if blk["t"][0] in ("goto",) and not blk["s"] and blk["t"][1] not in body:
                b = blk["t"][1]
            else:
                break
        return b

    def loop_fix(self, st, bodyfn):
        # 1. constant-trip loops are unrolled
        r = self.unroll(st, bodyfn)
        if r is not None:
            return r
        depth = self.ldepth
        self.ldepth += 1
        try:
            r = self._loop_fix(st, bodyfn, depth)
            return self.peel(st, bodyfn, r) if MODE["peel"] else r
        finally:
            self.ldepth -= 1

    def peel(self, st, bodyfn, general):
        """the loop that ends in its first turn is read off directly: a guard before it that gives the same is no difference"""
        first, backs = bodyfn(st.copy())
        first = [(d, c, x) for d, c, x in first if c is not FALSE]
        if not first or not backs:
            return general if backs else first
        go = backs[0][0]
        for c, _ in backs[1:]:
            go = m_or(go, c)
        rest = [(d, m_and(go, c), x) for d, c, x in general]
        return first + [(d, c, x) for d, c, x in rest if c is not FALSE]

    def unroll(self, st, bodyfn):
        """loops whose bound is a constant: every trip decides one exit test"""
        s = st.copy()
        out = []
        acc = TRUE
        steps0 = self.steps
        lim = terms.LIMIT[0]
        terms.LIMIT[0] = min(lim, 6000)
        try:
            for trip in range(40):
                self.constexit.append(False)
                try:
                    exits, backs = bodyfn(s.copy())
                finally:
                    decided = self.constexit.pop()
                for d, c, x in exits:
                    out.append((d, m_and(acc, c), x))
                if not backs:
                    if trip == 0:
                        return exits
                    out = [(d, c, x) for d, c, x in out if c is not FALSE]
                    return out
                if exits and not decided:
                    return None
                if trip > 25 and exits or self.steps - steps0 > 60000:
                    return None
                bc = backs[0][0]
                for c, _ in backs[1:]:
                    bc = m_or(bc, c)
                acc = m_and(acc, bc)
                if acc is FALSE:
                    return [(d, c, x) for d, c, x in out if c is not FALSE]
                s = self.merge_states(backs)
                if trip == 1 and self.longrange(st, s):
                    return None
        except Blowup:
            return None
        finally:
            terms.LIMIT[0] = lim
        return None

    def longrange(self, st, s):
        """a constant range iterator that has advanced and has more than 40 steps to go"""
        def rng(v):
            while isinstance(v, VStruct):
                if v.key == "it:Range":
                    a, b = v.f["pos"], v.f["end"]
                    if isinstance(a, T) and isinstance(b, T) and a.op == "k" and b.op == "k":
                        return a.val, b.val
                    return None
                v = v.f.get("it")
            return None

        for k, v in s.mem.items():
            r = rng(v)
            if r and r[1] - r[0] > 40:
                r0 = rng(st.mem.get(k))
                if r0 and r0[1] == r[1] and r0[0] < r[0]:
                    return True
        return False

    def _loop_fix(self, st, bodyfn, depth):
        carried = {}  # (root, path) -> init
        dset = frozenset([depth])
        st = st.copy()

        def inject(vals):
            s = st.copy()
            for (root, path), v in vals.items():
                if path and path[-1][0] == "discr" and isinstance(v, T) and v is not DC and v.op != "c" and path[-1][1] in W.enums:
                    dom = tuple(sorted(n for n, _ in W.enums[path[-1][1]]))
                    v = terms.discr_node(v, dom, [string(n) for n in dom])
                s.mem[root] = set_path(s.mem[root], path, v) if path else v
            return s

        def flags(init):
            if isinstance(init, T) and init.op != "c":
                return dict(uint=init.uint and init.isint, isint=init.isint)
            return {}

        def raw(p):
            return sym("mu", depth, "raw", pathkey(p), deps=dset, **flags(carried[p]))

        for it in range(20):
            mus = {p: raw(p) for p in carried}
            s1 = inject(mus)
            exits, backs = bodyfn(s1.copy())
            if not backs:
                return exits
            sb = self.merge_states(backs)
            new = []
            for r in sb.mem:
                if r not in st.mem:
                    if r[0] in ("M", "W", "P"):
                        st.mem[r] = self.default(r)
                        s1.mem[r] = st.mem[r]
                    else:
                        continue
                self.diff(s1.mem.get(r), sb.mem[r], (r, ()), new)
            fresh = []
            for p in new:
                if p in carried or any(p[0] == q[0] and p[1][: len(q[1])] == q[1] for q in carried):
                    continue
                fresh.append(p)
            if not fresh:
                break
            for p in fresh:
                # a coarser path replaces finer ones
                for q in [q for q in carried if q[0] == p[0] and q[1][: len(p[1])] == p[1]]:
                    del carried[q]
                carried[p] = self.under_pc(getp(st.mem[p[0]], p[1]))
        else:
            raise Unsupported("loop does not stabilise in %s" % (self.stack[-1].fn.key if self.stack else "?"))
        # 2. induction variables
        iota = sym("iota", depth, deps=dset, uint=True, isint=True)
        fixed, rest = {}, []
        for p in carried:
            init, nu = carried[p], getp(sb.mem[p[0]], p[1])
            mu = mus[p]
            step = None
            if scal(init) and scal(nu) and isinstance(mu, T):
                d = m_sub(nu, mu) if init is not DC else None
                if isinstance(d, T) and d is not DC and depth not in d.deps and d.fp != 0:
                    step = d
            if step is not None:
                fixed[p] = m_add(init, m_mul(step, iota))
            else:
                rest.append(p)
        if MODE["rem"] and rest:
            self.shifts(inject, bodyfn, carried, mus, fixed, rest, iota, depth)
        # 3. canonical colours for the other carried values; a running total is counted from zero
        total = {}
        for p in rest:
            init, nu = carried[p], getp(sb.mem[p[0]], p[1])
            if scal(init) and scal(nu) and isinstance(mus[p], T) and additive(init) and independent(nu, mus[p]):
                total[p] = init
        col = {p: prf("init", vfp(num(0) if p in total else self.deep(st, carried[p]))) for p in rest}
        cdeps = {p: EMPTY if p in total else vdeps(carried[p]) for p in rest}

        def colored(p):
            return terms._mk(prf("mu", depth, col[p]), "mu", (depth, col[p]), dset | cdeps[p], **flags(carried[p]))

        rounds = 2 if rest else 0
        for r in range(rounds + 1):
            vals = dict(fixed)
            for p in rest:
                vals[p] = m_add(total[p], colored(p)) if p in total else colored(p)
            s1 = inject(vals)
            exits, backs = bodyfn(s1.copy())
            if not backs:
                break
            if r < rounds:
                sb = self.merge_states(backs)
                nc = {}
                again = backs[0][0]
                for c, _ in backs[1:]:
                    again = m_or(again, c)
                for p in rest:
                    nu = getp(sb.mem[p[0]], p[1])
                    nu = self.deep(sb, nu)
                    if p in total:
                        nu = m_sub(as_scalar(nu), total[p])
                    if again is not TRUE and not isinstance(nu, T):
                        try:
                            nu = restrict_val(again, nu)
                        except Blowup:
                            pass
                    nc[p] = prf("col", col[p], vfp(nu))
                    if MUS is not None:
                        MUS[nc[p]] = (p, nu)
                    cdeps[p] = cdeps[p] | (vdeps(nu) - dset)
                col = nc
        if not exits:
            return []
        # 4. exits
        labels = {}
        conds, labs = [], []
        groups = {}
        for d, c, s in exits:
            groups.setdefault(d, []).append((c, s))
        ge = []
        for d, items in groups.items():
            c = items[0][0]
            for c2, _ in items[1:]:
                c = m_or(c, c2)
            ge.append((d, c, self.merge_states(items)))
        back = backs[0][0]
        for c, _ in backs[1:]:
            back = m_or(back, c)
        outcome = m_select([c for _, c, _ in ge] + [back], [const("exit", i) for i in range(len(ge))] + [const("exit", "back")])
        E = apply(None, lambda t: DC if t is DC else (FALSE if t.val == "back" else TRUE), outcome)
        lt = terms._mk(prf("loop", E.fp), "loop", (E,), E.deps - dset)
        sub = Wrap(lt, depth)
        try:
            sub.known = self.at_exit(E, iota, depth, {p: (carried[p], vals[p], backs) for p in rest if p not in total})
        except Blowup:
            pass
        res = []
        for i, (d, c, s) in enumerate(ge):
            Ei = apply(None, lambda t, i=i: DC if t is DC else (TRUE if t.val == i else FALSE), outcome)
            cw = sub.val(restrict(E, Ei)) if len(ge) > 1 else TRUE
            if scal(cw):
                cw = as_bool(cw)
            o = St()
            for r, v in s.mem.items():
                if depth in vdeps(v):
                    v = sub.val(restrict_val(Ei, v))
                o.mem[r] = v
            res.append((d, cw, o))
        return res

    def shifts(self, inject, bodyfn, carried, mus, fixed, rest, iota, depth):
        """what a turn leaves behind without looking at what it found is known in the next turn"""
        for _ in range(3):
            vals = dict(fixed)
            for p in rest:
                vals[p] = mus[p]
            exits, backs = bodyfn(inject(vals))
            if not backs:
                return
            sb = self.merge_states(backs)
            hit = False
            for p in list(rest):
                nu = self.deep(sb, getp(sb.mem[p[0]], p[1]))
                try:
                    old = Shift(iota, depth).val(nu)
                    fixed[p] = ite(m_cmp("Le", iota, num(0, True), True), carried[p], old)
                except (Blowup, Unsupported):
                    continue
                rest.remove(p)
                hit = True
            if not hit:
                return

    def at_exit(self, E, iota, depth, rest):
        """values at the end of a loop that visits positions 0..n and leaves only there"""
        if not isinstance(E, Node) or E.var.kind != "s" or not isinstance(E.var.term, T):
            return {}
        n = None
        for d in (t_sub(iota, E.var.term), t_add(iota, E.var.term)):
            if isinstance(d, T) and depth not in d.deps:
                for k in (-1, 0, 1):
                    b = t_add(d, num(k, True))
                    if m_not(m_cmp("Lt", iota, b, True)) is E:
                        n = b
        if n is None or n.op != "len":
            return {}
        known, sb = {iota.fp: n}, None
        for p, (init, mu, backs) in rest.items():
            if not isinstance(mu, T) or mu.op != "mu" or not isinstance(init, T) or init is DC or depth in init.deps:
                continue
            if sb is None:
                sb = self.merge_states(backs)
            nu = self.deep(sb, getp(sb.mem[p[0]], p[1]))
            if isinstance(nu, T) and nu.op == "set" and nu.args[0] is mu and nu.args[1] is iota and seq_len(init) is n:
                x = nu.args[2]
                if isinstance(x, T) and x.op == "val":
                    x = x.args[0]
                if isinstance(x, T) and depth not in x.deps:
                    known[mu.fp] = sym("repeat", x, n)
                elif isinstance(x, T) and x.op == "index" and x.args[1] is iota and depth not in x.args[0].deps and seq_len(x.args[0]) is n:
                    known[mu.fp] = x.args[0]
                continue
            if not isinstance(nu, T) or nu.op != "push" or nu.args[0] is not mu:
                continue
            x = nu.args[1]
            if isinstance(x, T) and x.op == "index" and x.args[1] is iota and depth not in x.args[0].deps and seq_len(x.args[0]) is n:
                import stdm
                known[mu.fp] = stdm.t_concat(init, x.args[0])
        return known

    def diff(self, a, b, at, out):
        if a is b or a is None:
            return
        if vfp(a) == vfp(b):
            return
        root, path = at
        if isinstance(b, VEnum) and not isinstance(a, VEnum) and a is not DC:
            a = expand_enum(a, b.key) or a
        if isinstance(a, VEnum) and not isinstance(b, VEnum) and b is not DC:
            b = expand_enum(b, a.key) or b
        if isinstance(a, VEnum) and isinstance(b, VEnum) and a.key == b.key:
            if a.d is not b.d:
                out.append((root, path + (("discr", b.key),)))
            for vn, fs in b.pay.items():
                for n, x in fs.items():
                    e = ("vf", vn, n, b.key)
                    old = a.pay.get(vn, {}).get(n, DC)
                    if old is DC:
                        if x is not DC:
                            out.append((root, path + (e,)))
                    else:
                        self.diff(old, x, (root, path + (e,)), out)
            return
        if isinstance(a, VStruct) and isinstance(b, VStruct) and a.key == b.key and set(a.f) == set(b.f) and a.f:
            for n in a.f:
                if a.key == "array":
                    self.diff(a.f[n], b.f[n], (root, path + (("i", num(int(n), True)),)), out)
                else:
                    self.diff(a.f[n], b.f[n], (root, path + (("f", n, a.key),)), out)
            return
        if isinstance(b, VStruct) and scal(a) and a is not DC and b.key in W.structs and b.base is None and False:
            return
        if isinstance(b, VStruct) and isinstance(a, T) and a is not DC and b.base is not None and b.base is a and b.f:
            for n in b.f:
                self.diff(field(a, n, b.key), b.f[n], (root, path + (("f", n, b.key),)), out)
            return
        out.append((root, path))

    # ---- calls
    def call(self, fr, st, t):
        """-> list of (cond, state) continuing at the target, or None when it diverges"""
        import stdm
        f, aops, dest = t[1], t[2], t[3]
        args = [self.operand(fr, st, a) for a in aops]
        if isinstance(f, dict) and "fn" in f:
            ref = self.subref(fr, f["fn"])
        elif isinstance(f, list):
            v = self.read(fr, st, f[1])
            r = self.callv(st, v, args)
            self.write(fr, st, dest, r if r is not None else DC)
            return [(TRUE, st)] if r is not None else None
        else:
            ref = {"key": "?", "path": "?"}
        dty = None
        if not dest[1]:
            dty = self.subty(fr, fr.locals[dest[0]])
        self.lostargs = [v for v, a in zip(args, aops) if isinstance(v, (T, Node)) and v is not DC and isinstance(a, list) and not a[1][1]
                         and isinstance(fr.locals[a[1][0]], list) and fr.locals[a[1][0]][:1] == ["refmut"]]
        ret = self.callref(st, ref, args, dty, t[5], fr)
        if ret is None:
            return None
        self.write(fr, st, dest, ret)
        return [(TRUE, st)]

    def callref(self, st, ref, args, dty=None, line=0, fr=None):
        import stdm
        key = ref["key"]
        target = None
        if "trait" in ref:
            if ref.get("reskind") == "item" and ref.get("res") in self.prog.fns:
                target = self.prog.fns[ref["res"]]
            elif ref.get("reskind") == "item" and ref.get("res"):
                pass  # resolved by the compiler to a function of another crate
            else:
                k = self.prog.resolve_trait(ref["trait"], ref["method"], ref.get("self"))
                if k and k in self.prog.fns:
                    target = self.prog.fns[k]
        elif key in self.prog.fns:
            target = self.prog.fns[key]
        # models first (they know identity-like trait methods)
        m = stdm.lookup(ref, target)
        if m is not None:
            r = m(self, st, ref, args, dty)
            if r is not stdm.PASS:
                return r
        if target is not None:
            return self.callfn(st, target, ref, args, dty)
        return self.opaque_call(st, opname(ref), args, dty)

    def callfn(self, st, target, ref, args, dty=None):
        name = target.cname
        onstack = any(f.fn is target for f in self.stack)
        if onstack or self.opaque(target) or len(self.stack) > self.maxdepth:
            self.opaqued.add(target.key)
            ret = target.j.get("ret")
            # what returns nothing and writes to none of its arguments is called for its effects
            eff = (dty or ret) == ["tuple"] and not any(isinstance(a, (VRef, VRefs)) for a in args)
            return self.opaque_call(st, self.rename.get(name, name), args, dty or ret, effect=eff, fn=target)
        self.inlined.add(target.key)
        tsub = {}
        g = target.j.get("generics") or []
        ta = ref.get("targs") or []
        if "trait" in ref and target.trait:
            # impl method reached through the trait: only its own generics could match; skip
            if len(ta) == len(g):
                tsub = dict(zip(g, ta))
            st_ = ref.get("self")
            if isinstance(st_, list) and isinstance(target.self_, list):
                unify(target.self_, st_, tsub)
        elif "trait" in ref:
            tsub = dict(zip(g, ta))
        else:
            tsub = dict(zip(g, ta))
        return self.run(target, args, st, tsub)

    def frames(self, st, fn, args, vals):
        """in `frame` mode: the arguments with only the fields the called function touches, and for each written one
        the fields it can write"""
        out = {}
        for i, a in enumerate(args):
            if not isinstance(a, (VRef, VRefs)) or i + 1 >= len(fn.j["locals"]):
                continue
            ty = fn.j["locals"][i + 1]
            if not (isinstance(ty, list) and ty[0] == "refmut" and isinstance(ty[1], list) and ty[1][0] == "adt"):
                continue
            key = ty[1][1]
            fr = self.prog.frame(fn, i + 1)
            names = struct_names(key)
            if fr is None or not names:
                continue
            rd, wr = fr
            # what is reached through a structure may be a cell, written through a shared reference
            wr = wr | {n for n in rd if "'adt'" in repr(W.ftypes.get((key, None, n), "'adt'"))}
            if all(n in wr for n in names):
                continue
            old = expand_struct(self.load(st, a), key, names)
            if not isinstance(old, VStruct):
                continue
            v = expand_struct(vals[i], key, names)
            vals[i] = as_scalar(VStruct(key, {n: v.f[n] if n in rd or n in wr else const("unread", "") for n in names}))
            out[i] = (key, names, wr, old)
        return out

    def opaque_call(self, st, name, args, dty=None, effect=False, fn=None):
        vals = [self.under_pc(self.opaque_arg(st, a)) for a in args]
        frames = self.frames(st, fn, args, vals) if MODE["frame"] and fn is not None and not effect else {}
        self.calls.append((name, tuple(vals), self.curpc()))
        if MODE["lift"] and not effect and fn is not None:
            for i, v in enumerate(vals):
                vals[i] = by_variant(v, fn.j["locals"][i + 1] if i + 1 < len(fn.j["locals"]) else None)
        if MODE["lift"] and not effect and any(isinstance(v, Node) for v in vals):
            places = [i for i, a in enumerate(args) if isinstance(a, (VRef, VRefs))]
            if not (places and (self.mutref(dty) is not None or self.lostargs)) and few_cases([v for v in vals if isinstance(v, Node)], 16):
                ks = [i for i, v in enumerate(vals) if isinstance(v, Node)]

                def cases(op, **fl):
                    def one(*xs):
                        w = list(vals)
                        for i, x in zip(ks, xs):
                            w[i] = x
                        return sym(op, *w, **fl)
                    nm = ("call", op, tuple(ks), tuple(vfp(v) for i, v in enumerate(vals) if i not in ks))
                    return lift(nm, one, *[vals[i] for i in ks])
                for i in places:
                    self.store(st, args[i], cases(name + "!out%d" % i))
                return self.typed(cases(name, **tyflags(strip_ref(dty) if dty is not None else None)), dty)
        if effect:
            w = self.loadroot(st, WORLD)
            st.mem[WORLD] = sym(name + "!", *vals, w)
        lost = [i for i, a in enumerate(args) if any(a is x for x in self.lostargs)] if self.lostargs else ()
        if lost and not effect and not ACCESSOR.search(name):
            w = self.loadroot(st, WORLD)
            st.mem[WORLD] = sym(name + "!lost", *vals, w)
            if TRACE is not None:
                TRACE.append((self.stack[-1].fn.qname if self.stack else "", "call", name))
        mref = self.mutref(dty)
        for i, a in enumerate(args):
            if isinstance(a, (VRef, VRefs)):
                if mref is not None and ACCESSOR.search(name):
                    continue  # only hands out the place
                o = sym(name + "!out%d" % i, *vals)
                if i in frames:
                    key, names, wr, old = frames[i]
                    o = VStruct(key, {n: field(o, n, key) if n in wr else old.f[n] for n in names})
                self.store(st, a, o)
        if mref is not None:
            for i, a in enumerate(args):
                if isinstance(a, (VRef, VRefs)):
                    o = self.ext(a, ("o", name, i, tuple(vals), mref[0]))
                    if mref[0] is None:
                        return o
                    r = expand_enum(sym(name, *vals), mref[0][1])
                    if r is None:
                        break
                    pay = {v: dict(fs) for v, fs in r.pay.items()}
                    pay[mref[0][0]]["0"] = o
                    return VEnum(r.key, r.d, pay)
        return self.typed(sym(name, *vals, **tyflags(strip_ref(dty) if dty is not None else None)), dty)

    def mutref(self, ty):
        """(None,) for &mut T, ((variant, enum),) for Option<&mut T> / Result<&mut T, _>"""
        if not isinstance(ty, list) or not ty:
            return None
        if ty[0] == "refmut":
            return (None,)
        if ty[0] == "adt" and len(ty) > 2 and isinstance(ty[2], list) and ty[2][:1] == ["refmut"]:
            if ty[1] == OPTION:
                return (("Some", OPTION),)
            if ty[1] == RESULT:
                return (("Ok", RESULT),)
        return None

    def curpc(self):
        return tuple(self.pc)

    def under_pc(self, v):
        """in `restrict` mode: the value simplified by the conditions under which it is used here"""
        if not MODE["restrict"] or isinstance(v, T) or not self.pc:
            return v
        key = tuple(c.rid for c in self.pc)
        c = self.pccache.get(key)
        if c is None:
            c = TRUE
            try:
                for x in self.pc:
                    c = m_and(c, x)
                    if isinstance(c, Node) and c.size > 4000:
                        c = TRUE
                        break
            except Blowup:
                c = TRUE
            self.pccache[key] = c
        if c is TRUE or not isinstance(c, Node):
            return v
        try:
            return restrict_val(c, v)
        except Blowup:
            return v

    def typed(self, t, ty):
        if isinstance(ty, list) and ty == ["tuple"]:
            return UNIT
        if isinstance(ty, list) and ty and ty[0] == "array":
            return array_value(t, ty)
        if ty == "bool":
            return as_bool(t)
        if isinstance(ty, list) and len(ty) > 2 and ty[0] == "adt" and ty[1] in (OPTION, RESULT) and ty[2] == ["tuple"]:
            r = expand_enum(t, ty[1])
            if isinstance(r, VEnum):
                k = "Ok" if ty[1] == RESULT else "Some"
                return VEnum(r.key, r.d, {**r.pay, k: {"0": UNIT}})
        return t

    def opaque_arg(self, st, a):
        v = self.deep(st, a)
        if isinstance(v, VFn):
            return v
        return as_scalar(self.lambdas(st, v))

    def closure_summary(self, st, c):
        f = self.prog.fns.get(c.key[8:])
        if f is None:
            return const("closure", c.key)
        s = st.copy()
        d, self.ldepth = self.ldepth, self.ldepth + 50
        args, muts = {}, []
        for i in range(ntup(f)):
            ty = f.j["locals"][i + 2]
            a = sym("carg", i, **tyflags(strip_ref(ty)))
            if isinstance(ty, list) and ty[0] == "refmut":
                root = ("C", next(self.fid))
                s.mem[root] = a
                muts.append((root, a))
                a = VRef(root)
            args[str(i)] = a
        try:
            r = self.callv(s, c, [VStruct("tuple", args)], tupled=True)
        except Unsupported:
            r = None
        finally:
            self.ldepth = d
        eff = []
        for root in sorted((k for k in s.mem if k[0] != "P" and (k in st.mem or k[0] in ("M", "W"))), key=str):
            v = s.mem[root]
            old = st.mem[root] if root in st.mem else self.default(root)
            if v is not old and vfp(v) != vfp(old):
                eff.append((root, v))
        if eff:
            for root, v in eff:
                st.mem[root] = sym("!closure", as_scalar(self.deep(s, v)))
        if r is None:
            return const("closure", "diverges")
        writes = [as_scalar(self.deep(s, s.mem[root])) for root, a in muts if s.mem.get(root, a) is not a]
        return sym("lambda", as_scalar(self.lambdas(s, self.deep(s, r))), *writes, *[as_scalar(self.deep(s, v)) for _, v in eff])

    def lambdas(self, st, v):
        """a closure inside a value stands for what it computes"""
        if isinstance(v, VStruct):
            if v.key.startswith("closure:"):
                return self.closure_summary(st, v)
            f = {n: self.lambdas(st, x) for n, x in v.f.items()}
            if any(f[n] is not v.f[n] for n in f):
                return VStruct(v.key, f, base=v.base)
        elif isinstance(v, VEnum):
            pay = {a: {n: self.lambdas(st, x) for n, x in fs.items()} for a, fs in v.pay.items()}
            if any(pay[a][n] is not v.pay[a][n] for a in pay for n in pay[a]):
                return VEnum(v.key, v.d, pay)
        elif isinstance(v, T) and v.op == "val":
            x = self.lambdas(st, v.args[0])
            if x is not v.args[0]:
                return as_scalar(x)
        elif isinstance(v, Node) and any(t.op == "val" for t in leaves(v)):
            return map_leaves(v, lambda t: self.lambdas(st, t) if t.op == "val" else t)
        return v

    def callv(self, st, f, args, tupled=False, env=None):
        """call a function value. args: list, or [tuple] when tupled"""
        f0 = f
        f = self.load(st, f) if isinstance(f, (VRef, VRefs)) else f
        if isinstance(f, VStruct) and f.key == "&":
            f = f.f["0"]
            if isinstance(f, (VRef, VRefs)):
                f0 = f
                f = self.load(st, f)
        if tupled:
            tup = args[0]
            if isinstance(tup, VStruct):
                args = [tup.f[k] for k in sorted(tup.f, key=int)]
            elif tup is UNIT:
                args = []
            else:
                args = [tup]
        if isinstance(f, VStruct) and f.key.startswith("closure:"):
            fn = self.prog.fns.get(f.key[8:])
            if fn is None:
                return self.opaque_call(st, f.key, args)
            if any(x.fn is fn for x in self.stack):
                return self.opaque_call(st, f.key, args)
            # closure env: by-ref (immutable: value) or &mut
            ety = fn.j["locals"][1]
            if isinstance(ety, list) and ety[0] == "refmut":
                if isinstance(f0, (VRef, VRefs)):
                    envv = f0
                else:
                    root = ("X", next(self.fid))
                    st.mem[root] = f
                    envv = VRef(root)
            else:
                envv = f
            tsub = dict(self.stack[-1].tsub) if self.stack else {}
            return self.run(fn, [envv] + list(args), st, tsub)
        if isinstance(f, VFn):
            return self.callref(st, f.ref, list(args))
        return self.opaque_call(st, "callvalue", [f] + list(args))

    def under(self, st, c, thunk):
        """run thunk(st) under condition c; effects are conditional"""
        if c is FALSE:
            return DC
        if c is TRUE:
            return thunk(st)
        s2 = st.copy()
        self.pc.append(c)
        try:
            r = thunk(s2)
        finally:
            self.pc.pop()
        if r is None:
            self.setpanic(st, c)
            return DC
        nc = None
        for root, v in s2.mem.items():
            old = st.mem.get(root)
            if old is v:
                continue
            if old is None:
                if root[0] in ("M", "W", "P"):
                    old = self.default(root)
                else:
                    st.mem[root] = v
                    continue
            if vfp(old) != vfp(v):
                if nc is None:
                    nc = m_not(c)
                st.mem[root] = merge([c, nc], [v, old])
        return r


def ntup(f):
    return max(0, f.j["argc"] - 1)


def unify(pat, ty, out):
    if isinstance(pat, list) and pat and pat[0] == "param":
        out.setdefault(pat[1], ty)
        return
    if isinstance(pat, list) and isinstance(ty, list) and len(pat) == len(ty) and pat[0] == ty[0]:
        for a, b in zip(pat[1:], ty[1:]):
            unify(a, b, out)


def opname(ref):
    p = ref.get("path", "?")
    if "trait" in ref:
        return "%s::%s" % (ref["trait"].split("::")[-1], ref["method"])
    import re
    p = re.sub(r"::<[^<>]*>", "", p)
    p = re.sub(r"<impl ([^<>]*)>", r"\1", p)
    parts = p.split("::")
    return "::".join(parts[-2:])


def pathkey(p):
    return str((p[0], [tuple(x.fp if isinstance(x, (T, Node)) else x for x in e) for e in p[1]]))


def getp(v, path):
    for e in path:
        if e[0] == "discr":
            if not isinstance(v, VEnum):
                v = expand_enum(v, e[1]) if v is not DC else None
                if v is None:
                    return DC
            v = v.d
        elif e[0] == "vf" and isinstance(v, VEnum):
            v = v.pay.get(e[1], {}).get(e[2], DC)
        else:
            v = get1(v, e)
    return v


def additive(m):
    return all(t is not DC and t is not BOT and t.op not in ("c", "val", "push", "set", "emptyvec") for t in leaves(m)) if isinstance(m, Node) \
        else m is not DC and m is not BOT and m.op not in ("c", "val", "push", "set", "emptyvec")


def independent(nu, mu):
    """nu - mu does not depend on mu"""
    try:
        d = m_sub(nu, mu)
    except Blowup:
        return False
    new = prf("other", mu.fp)
    memo = {}
    seen = set()

    def ok(x):
        if isinstance(x, T):
            return x is not BOT and terms._subst(x, mu.fp, new, memo) == x.fp and len(memo) < 3000
        if id(x) in seen:
            return True
        seen.add(id(x))
        return not mentions(x.var.term, mu) and all(ok(k) for k in x.kids)

    if isinstance(d, T) and d is DC:
        return False
    return ok(d)


def mentions(t, mu, n=None):
    n = n if n is not None else [0]
    n[0] += 1
    if t is mu or n[0] > 2000:
        return True
    if isinstance(t, T):
        return any(mentions(x, mu, n) for x in t.args if isinstance(x, (T, Node))) or any(isinstance(x, Value) for x in t.args)
    return mentions(t.var.term, mu, n) or any(mentions(k, mu, n) for k in t.kids)


class Wrap:
    """substitution of a loop's symbols by their values at the loop's exit"""

    def __init__(self, lt, depth):
        self.lt, self.depth, self.memo, self.known = lt, depth, {}, {}

    def val(self, v):
        if isinstance(v, T):
            return self.t(v)
        if isinstance(v, Node):
            return self.node(v)
        if self.depth not in vdeps(v):
            return v
        if isinstance(v, VStruct):
            return VStruct(v.key, {n: self.val(x) for n, x in v.f.items()})
        if isinstance(v, VEnum):
            return VEnum(v.key, self.val(v.d), {k: {n: self.val(x) for n, x in fs.items()} for k, fs in v.pay.items()})
        if isinstance(v, VRef):
            return VRef(v.root, tuple(tuple(self.val(x) if isinstance(x, (T, Node)) else tuple(self.val(y) if isinstance(y, (T, Node, Value)) else y for y in x) if isinstance(x, tuple) else x for x in e) for e in v.path))
        if isinstance(v, VRefs):
            return VRefs([(self.val(c), self.val(r)) for c, r in v.alts])
        return v

    def t(self, t):
        if self.depth not in t.deps:
            return t
        r = self.memo.get(t.fp)
        if r is None:
            r = self._t(t)
            self.memo[t.fp] = r
        return r

    def _t(self, t):
        o, a = t.op, t.args
        if o in ("iota", "mu"):
            r = self.known.get(t.fp)
            if r is not None:
                return r
            return terms._mk(prf("exit", self.lt.fp, t.fp), "exit", (self.lt, t), (t.deps - {self.depth}) | self.lt.deps,
                             uint=t.uint, isint=t.isint)
        if o in ("+", "-", "*", "/"):
            f = {"+": m_add, "-": m_sub, "*": m_mul, "/": m_div}[o]
            return f(self.t(a[0]), self.t(a[1]))
        if o == "neg":
            return m_neg(self.t(a[0]))
        if o == "pow":
            return lift(("pow", a[1]), lambda x: t_pow(x, a[1]), self.t(a[0]))
        if o == "val":
            return as_scalar(self.val(a[0]))
        na = []
        ch = False
        for x in a:
            if isinstance(x, (T, Node, Value)):
                y = self.val(x)
                if y is not x:
                    ch = True
                na.append(y)
            else:
                na.append(x)
        if not ch:
            return terms._mk(prf("exit", self.lt.fp, t.fp), "exit", (self.lt, t), (t.deps - {self.depth}) | self.lt.deps,
                             uint=t.uint, isint=t.isint)
        if o == "index":
            r = seq_index(na[0], na[1])
            return as_scalar(r)
        return sym(o, *na, uint=t.uint and t.isint, isint=t.isint)

    def node(self, n):
        if self.depth not in n.deps:
            return n
        r = self.memo.get(("n", n.rid))
        if r is not None:
            return r
        kids = [self.val(k) for k in n.kids]
        v = n.var
        if self.depth not in v.term.deps:
            nv = None
            sel = mknode(v, n.cells, [num(i) for i in range(len(kids))])
        else:
            t = self.t(v.term)
            if isinstance(t, Node):
                t = opaque_leaf(t)
            sel = self.selector(v, t, n.cells, len(kids))
        r = apply(None, lambda i, *ks: DC if i is DC else ks[int(i.val)], sel, *kids)
        self.memo[("n", n.rid)] = r
        return r

    def selector(self, v, t, cells, n):
        if v.kind == "b":
            return mknode(mkvar("b", t), cells, [num(0), num(1)])
        if v.kind == "d":
            return mknode(mkvar("d", t, v.dom), cells, [num(i) for i in range(n)])
        if v.kind == "m":
            return mknode(mkvar("m", t), cells, [num(i) for i in range(n)])
        # numeric position: re-normalise e - c comparisons
        e, off = terms._base(t)
        if off:
            cells = tuple((c - off, s) for c, s in cells)
        kids = [num(i) for i in range(n)]
        if not e.uint:
            m = t_neg(e)
            if m.uint or m.fp < e.fp:
                e = m
                cells = tuple((-c, 1 - s) for c, s in reversed(cells))
                kids = kids[::-1]
        if not cells:
            return kids[0]
        return terms._splitnode(e, v.isint, cells, kids)


class Shift(Wrap):
    """what a value of a loop's turn was in the turn before"""

    def __init__(self, iota, depth):
        Wrap.__init__(self, None, depth)
        self.known = {iota.fp: t_sub(iota, num(1, True))}

    def _t(self, t):
        if t.op in ("mu", "exit", "loop") or (t.op == "iota" and t.fp not in self.known):
            raise Blowup()
        if t.op in ("iota", "+", "-", "*", "/", "neg", "pow", "val"):
            return Wrap._t(self, t)
        if not any(isinstance(x, (T, Node, Value)) and self.depth in vdeps(x) for x in t.args):
            raise Blowup()
        return Wrap._t(self, t)

    def val(self, v):
        if isinstance(v, (VRef, VRefs, VFn)):
            raise Blowup()
        return Wrap.val(self, v)


# ------------------------------------------------------------------ integer helpers
def t_idiv(x, y, ty):
    if x.op == "k" and y.op == "k" and y.val != 0:
        q = abs(x.val) // abs(y.val)
        return num(q if (x.val >= 0) == (y.val >= 0) else -q, True)
    if y.op == "k" and y.val == 1:
        return x
    return sym("idiv", x, y, uint=ty[0] == "u", isint=True)


def m_rem(a, b, ty):
    """the remainder by cases: below the divisor, the divisor itself, above"""
    r = lift("rem:" + ("u" if ty[0] == "u" else "i"), lambda x, y: t_rem(x, y, ty), a, b)
    if isinstance(b, T) and b.op == "k" and b.val > 0:
        if isinstance(a, T) and a.op == "k":
            return r
        if ty[0] == "u":
            return m_ite(m_cmp("Lt", a, b, True), a, m_ite(m_eq(a, b), num(0, True), r))
        return m_ite(m_and(m_cmp("Lt", a, b, True), m_cmp("Ge", a, num(0, True), True)), a, r)
    if ty[0] != "u":
        return r
    return m_ite(m_cmp("Lt", a, b, True), a, m_ite(m_eq(a, b), num(0, True), r))


def m_eq(a, b):
    return m_and(m_cmp("Le", a, b, True), m_cmp("Ge", a, b, True))


def t_rem(x, y, ty):
    if x.op == "k" and y.op == "k" and y.val != 0:
        r = abs(x.val) % abs(y.val)
        return num(r if x.val >= 0 else -r)
    return sym("rem", x, y, uint=ty[0] == "u" if isinstance(ty, str) else False, isint=is_int(ty))


def t_bit(op, x, y, ty):
    if x.op == "k" and y.op == "k":
        a, b = int(x.val), int(y.val)
        r = {"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}.get(op)
        if op == "Shl":
            r = (a << b) & ((1 << INTBITS.get(ty, 64)) - 1)
        if op == "Shr":
            r = a >> b
        if r is not None:
            return num(r, True)
    if op in ("BitAnd", "BitOr", "BitXor"):
        x, y = sorted((x, y), key=lambda t: t.fp)
    return sym(op, x, y, uint=isinstance(ty, str) and ty[0] == "u", isint=True)


def t_cast(t, to):
    b = INTBITS.get(to, 32)
    if t.op == "k" and t.val.denominator == 1:
        n = int(t.val) & ((1 << b) - 1)
        if to[0] == "i" and n >= 1 << (b - 1):
            n -= 1 << b
        return num(n, True)
    return sym("cast:" + to, t, uint=to[0] == "u", isint=True)


def t_toint(t, to):
    if t.op == "k":
        v = abs(t.val).__floor__()
        v = v if t.val >= 0 else -v
        if to[0] == "u" and v < 0:
            v = 0
        return num(v, True)
    if t.op in ("floor",) and False:
        return t
    return sym("toint:" + to, t, uint=to[0] == "u", isint=True)


def cmp_ordering(a, b, isint):
    d = m_cmp3(a, b, (string("Less"), string("Equal"), string("Greater")), isint)
    return VEnum("core::cmp::Ordering", d, {"Less": {}, "Equal": {}, "Greater": {}})


def mk_slice(v, lo, hi):
    v = as_scalar(v)
    if isinstance(lo, T) and lo.op == "k" and lo.val == 0:
        n = seq_len(v)
        if n is hi:
            return v

    def f(t, l, h):
        if t.op == "slice":
            return sym("slice", t.args[0], m_add(t.args[1], l), m_add(t.args[1], h))
        return sym("slice", t, l, h)

    return lift("slice", f, v, lo, hi)

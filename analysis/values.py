"""Structured abstract values over the MDDs of terms.py.

 scalar            T or Node (an MDD)
 VStruct           struct / tuple / closure / fixed array, field by field
 VEnum             discriminant MDD (leaves: variant names) + payload per variant
 VRef              &mut reference: (root, path); shared references are the value itself
 VRefs             choice between several &mut references
 VFn               function item / closure used as a value
"""
from terms import *
import terms

OPTION = "core::option::Option"
RESULT = "core::result::Result"
STDENUMS = {
    OPTION: [("None", []), ("Some", ["0"])],
    RESULT: [("Ok", ["0"]), ("Err", ["0"])],
    "core::cmp::Ordering": [("Less", []), ("Equal", []), ("Greater", [])],
    "core::ops::control_flow::ControlFlow": [("Continue", ["0"]), ("Break", ["0"])],
    "alloc::borrow::Cow": [("Borrowed", ["0"]), ("Owned", ["0"])],
}


class World:
    """what is known about types; filled by the program loader"""
    structs = {}  # key -> [(field, type)]
    enums = dict(STDENUMS)  # key -> [(variant, [fields])]
    ftypes = {}  # (key, variant|None, field) -> type


W = World


class Value:
    pass


class VStruct(Value):
    __slots__ = ("key", "f", "base", "_fp")

    def __init__(self, key, f, base=None):
        self.key, self.f, self.base, self._fp = key, f, base, None

    def vfp(self):
        if self._fp is None:
            self._fp = self._calc()
        return self._fp

    def _calc(self):
        b = self.base
        if self.key == "array":
            if b is None:
                b = _etaarr(self)
            if b is not None and all(vfp(v) == vfp(t_index(b, num(int(n), True))) for n, v in self.f.items()):
                return b.fp
        elif b is not None and all(vfp(v) == vfp(field(b, n, self.key)) for n, v in self.f.items()):
            return b.fp
        if b is None and self.key != "array":
            # eta: all fields are projections of one value
            b = _eta(self)
            if b is not None:
                return b.fp
        if self.key == "array" and self.f:
            return prf("arr", len(self.f), *[vfp(self.f[str(i)]) for i in range(len(self.f))])
        return prf("struct", *[(n, vfp(v)) for n, v in sorted(self.f.items())])

    def vdeps(self):
        d = EMPTY
        for v in self.f.values():
            d = d | vdeps(v)
        return d

    def vshow(self, depth=5):
        if depth <= 0:
            return "…"
        if self.key == "array":
            return "[%s]" % ", ".join(show(v, depth - 1) for v in self.f.values())
        return "%s{%s}" % (self.key.split("::")[-1], ", ".join("%s: %s" % (n, show(v, depth - 1)) for n, v in self.f.items()))

    __repr__ = vshow


ARRLEN = {}  # values of array type: fingerprint -> length


def _etaarr(s):
    v = s.f.get("0")
    if not isinstance(v, T) or v.op != "index" or not isinstance(v.args[0], T) or ARRLEN.get(v.args[0].fp) != len(s.f):
        return None
    return v.args[0]


def array_value(v, ty):
    """an opaque value of type [T; N], N small, is the array of its elements"""
    if not (isinstance(ty, list) and ty and ty[0] == "array" and isinstance(v, (T, Node))):
        return v
    n = ty[2]
    if not n.isdigit() or not 0 < int(n) <= 16:
        return v
    n = int(n)
    if isinstance(v, Node):
        if all(t.op in ("index", "in") or t.op.startswith(".") for t in leaves(v)):
            return map_leaves(v, lambda t: array_value(t, ty))
        return v
    if v is DC or v is BOT or v.op in ("val", "set", "mu", "exit", "loop", "repeat", "map_seq", "c"):
        return v
    ARRLEN[v.fp] = n
    fl = tyflags(ty[1])
    f = {}
    for i in range(n):
        x = t_index(v, num(i, True))
        if fl and isinstance(x, T) and x.op == "index":
            x.isint = True
            x.uint = x.uint or bool(fl.get("uint"))
        f[str(i)] = x
    return VStruct("array", f, base=v)


def _eta(s):
    b = None
    if s.key in ("array",) or s.key.startswith("closure:") or not s.f:
        return None
    names = W.structs.get(s.key)
    if names is None and s.key != "tuple":
        return None
    for n, v in s.f.items():
        if isinstance(v, VStruct) and v.base is not None and v.vfp() == v.base.fp:
            v = v.base
        if isinstance(v, Node) and v.var.kind == "b" and v.fp == v.var.term.fp:
            v = v.var.term
        if not isinstance(v, T) or v.op != "." + n or len(v.args) != 1 or not isinstance(v.args[0], T):
            return None
        if b is None:
            b = v.args[0]
        elif b is not v.args[0]:
            return None
    return b


class VEnum(Value):
    __slots__ = ("key", "d", "pay", "_fp")

    def __init__(self, key, d, pay):
        self.key, self.d, self.pay, self._fp = key, d, pay, None

    def vfp(self):
        if self._fp is None:
            self._fp = self._calc()
        return self._fp

    def _calc(self):
        b = self._eta()
        if b is not None:
            return b.fp
        items = []
        present = set(t.val for t in leaves(self.d) if t.op == "c")
        for v in sorted(self.pay):
            if v not in present:
                continue
            c = self.isv(v)
            fs = self.pay[v]
            if fs:
                items.append((v, tuple((n, vfp(mask_val(c, x))) for n, x in sorted(fs.items()))))
        return prf("enum", self.d.fp, items)

    def _eta(self):
        """Some(x.0)/None rebuilt from x"""
        d = self.d
        if not isinstance(d, Node) or d.var.kind != "d":
            return None
        t = d.var.term
        e = expand_enum(t, self.key)
        if e is None or e.d is not d:
            return None
        for v, fs in e.pay.items():
            mine = self.pay.get(v, {})
            for n, x in fs.items():
                if n not in mine or vfp(mine[n]) != vfp(x):
                    return None
        return t

    def isv(self, v):
        return apply("isv:" + v + ":" + str(self.key), lambda t: TRUE if t.val == v and t.op == "c" else (DC if t is DC else FALSE), self.known())

    def known(self):
        """the discriminant as a choice among the variants, whatever it is computed from"""
        if self.key not in W.enums or all(t is DC or t is BOT or t.op == "c" for t in leaves(self.d)):
            return self.d
        dom = tuple(sorted(n for n, _ in W.enums[self.key]))
        return map_leaves(self.d, lambda t: t if t is DC or t is BOT or t.op == "c" else discr_node(t, dom, [string(n) for n in dom]))

    def vdeps(self):
        d = self.d.deps
        for fs in self.pay.values():
            for v in fs.values():
                d = d | vdeps(v)
        return d

    def vshow(self, depth=5):
        if depth <= 0:
            return "…"
        ls = leaves(self.d)
        if len(ls) == 1:
            v = ls[0].val
            fs = self.pay.get(v, {})
            return "%s(%s)" % (v, ", ".join(show(x, depth - 1) for x in fs.values()))
        return "enum(%s; %s)" % (show(self.d, depth - 1), "; ".join(
            "%s(%s)" % (v, ", ".join(show(x, depth - 1) for x in fs.values())) for v, fs in self.pay.items() if fs))

    __repr__ = vshow


def elemfp(x):
    if isinstance(x, (T, Node)):
        return x.fp
    if isinstance(x, tuple):
        return tuple(vfp(y) if isinstance(y, (T, Node, Value)) else y for y in x)
    return x


class VRef(Value):
    __slots__ = ("root", "path")

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)

    def vfp(self):
        return prf("ref", rootkey(self.root), [(p[0],) + tuple(elemfp(x) for x in p[1:]) for p in self.path])

    def vdeps(self):
        d = EMPTY
        for p in self.path:
            for x in p:
                if isinstance(x, (T, Node)):
                    d = d | x.deps
                elif isinstance(x, tuple):
                    for y in x:
                        d = d | vdeps(y)
        return d

    def vshow(self, depth=5):
        return "&mut %s%s" % (self.root, "".join(".%s" % (p[1:],) for p in self.path))

    __repr__ = vshow


def rootkey(r):
    return r


class VRefs(Value):
    """list of (cond, VRef)"""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def vfp(self):
        return prf("refs", *[(c.fp, vfp(r)) for c, r in self.alts])

    def vdeps(self):
        d = EMPTY
        for c, r in self.alts:
            d = d | c.deps | vdeps(r)
        return d

    def vshow(self, depth=5):
        return "refs(%s)" % ", ".join("%s?%s" % (show(c, depth - 1), r) for c, r in self.alts)

    __repr__ = vshow


class VFn(Value):
    __slots__ = ("key", "ref")

    def __init__(self, key, ref):
        self.key, self.ref = key, ref

    def vfp(self):
        return prf("fn", self.key)

    def vdeps(self):
        return EMPTY

    def vshow(self, depth=5):
        return "fn " + self.key

    __repr__ = vshow


def vfp(v):
    return v.fp if isinstance(v, (T, Node)) else v.vfp()


def vdeps(v):
    return v.deps if isinstance(v, (T, Node)) else v.vdeps()


def scal(v):
    return isinstance(v, (T, Node))


def as_scalar(v):
    """any value as an MDD (structured ones become one opaque number)"""
    if isinstance(v, (T, Node)):
        return v
    fp = v.vfp()
    return terms._mk(fp, "val", (v,), v.vdeps())


# ---------------------------------------------------------------- projection
def tyflags(ty):
    if isinstance(ty, str):
        if ty in ("usize", "u8", "u16", "u32", "u64", "u128"):
            return dict(uint=True, isint=True)
        if ty in ("isize", "i8", "i16", "i32", "i64", "i128"):
            return dict(isint=True)
    return {}


def strip_ref(ty):
    while isinstance(ty, list) and ty and ty[0] in ("ref", "refmut", "ptr"):
        ty = ty[1]
    return ty


def field(v, name, owner=None):
    """v.name for struct-like values"""
    if isinstance(v, VStruct):
        if name in v.f:
            return v.f[name]
        if v.base is not None:
            return field(v.base, name, owner)
        return sym("." + name, as_scalar(v))
    if isinstance(v, Node):
        return map_leaves(v, lambda t: field(t, name, owner))
    if isinstance(v, T):
        if v is DC or v is BOT:
            return v
        if v.op == "val":
            return field(v.args[0], name, owner)
        ty = W.ftypes.get((owner, None, name))
        r = sym("." + name, v, **tyflags(ty))
        if ty == "bool":
            return terms.t_bool(r)
        return array_value(r, ty) if isinstance(ty, list) and ty[0] == "array" else r
    if isinstance(v, VEnum):
        return sym("." + name, as_scalar(v))
    return sym("." + name, as_scalar(v))


def vfield(v, variant, name, key=None):
    """payload field of an enum value known to be `variant`"""
    if isinstance(v, VEnum):
        p = v.pay.get(variant)
        if p is None or name not in p:
            return DC
        return p[name]
    if isinstance(v, Node):
        return map_leaves(v, lambda t: vfield(t, variant, name, key))
    if isinstance(v, T):
        if v is DC or v is BOT:
            return v
        if v.op == "val":
            return vfield(v.args[0], variant, name, key)
        if key == RESULT and variant == "Err":
            return ERR
        ty = W.ftypes.get((key, variant, name))
        r = sym(".%s.%s" % (variant, name), v, **tyflags(ty))
        return terms.t_bool(r) if ty == "bool" else r
    return sym(".%s.%s" % (variant, name), as_scalar(v))


ERR = const("err", "err")


def map_leaves(m, f):
    """MDD m, f: leaf -> Value; result merged"""
    if isinstance(m, T):
        return f(m)
    ls = [t for t in leaves(m)]
    vals = [f(t) for t in ls]
    if all(scal(v) for v in vals):
        mp = {t.fp: v for t, v in zip(ls, vals)}
        return bind(m, lambda t: mp[t.fp])
    conds = [apply(None, lambda x, t=t: TRUE if x is t else FALSE, m) for t in ls]
    keep = [(c, v) for c, v, t in zip(conds, vals, ls) if t is not DC]
    return merge([c for c, _ in keep], [v for _, v in keep])


def expand_enum(t, key):
    """opaque scalar -> VEnum of type key"""
    if isinstance(t, VEnum):
        return t
    if key not in W.enums:
        return None
    if isinstance(t, Node):
        r = map_leaves(t, lambda x: expand_enum(x, key) if x is not DC else DC)
        return r if isinstance(r, VEnum) else None
    if not isinstance(t, T) or t is DC:
        return None
    if t.op == "val":
        if isinstance(t.args[0], VEnum):
            return t.args[0]
        return None
    vs = W.enums[key]
    dom = tuple(sorted(n for n, _ in vs))
    d = discr_node(t, dom, [string(n) for n in dom])
    return VEnum(key, d, {n: {f: vfield(t, n, f, key) for f in fs} for n, fs in vs})


def expand_struct(t, key, names):
    if isinstance(t, VStruct):
        return t
    t = as_scalar(t)
    if isinstance(t, Node):
        r = map_leaves(t, lambda x: expand_struct(x, key, names) if x is not DC else DC)
        if isinstance(r, VStruct):
            return r
        return VStruct(key, {n: field(t, n, key) for n in names})
    if t.op == "val" and isinstance(t.args[0], VStruct):
        return t.args[0]
    return VStruct(key, {n: field(t, n, key) for n in names}, base=t)


def struct_names(key, sample=None):
    if key in W.structs:
        return [n for n, _ in W.structs[key]]
    if sample is not None:
        return list(sample.f)
    return None


# ---------------------------------------------------------------- merging
def merge(conds, vals):
    """value chosen by disjoint conditions"""
    if len(vals) == 1:
        return vals[0]
    f0 = vfp(vals[0])
    if all(vfp(v) == f0 for v in vals[1:]):
        return vals[0]
    # drop don't cares
    if any(v is DC for v in vals):
        keep = [(c, v) for c, v in zip(conds, vals) if v is not DC]
        if not keep:
            return DC
        if len(keep) < len(vals):
            return merge([c for c, _ in keep], [v for _, v in keep])
    if all(scal(v) for v in vals):
        try:
            return m_select(conds, vals)
        except Blowup:
            if terms.LIMIT[0] < terms.CAP:
                raise
            return sym("phi", *[x for cv in zip(conds, vals) for x in cv])
    ens = [v for v in vals if isinstance(v, VEnum)]
    if ens:
        key = ens[0].key
        xs = [expand_enum(v, key) for v in vals]
        if all(x is not None for x in xs):
            d = m_select(conds, [x.d for x in xs])
            pay = {}
            for vn in {k for x in xs for k in x.pay}:
                names = {n for x in xs for n in x.pay.get(vn, {})}
                pay[vn] = {}
                for n in names:
                    cs, vv = [], []
                    for c, x in zip(conds, xs):
                        if vn in x.pay and n in x.pay[vn] and x.pay[vn][n] is not DC:
                            cv = m_and(c, x.isv(vn))
                            if cv is FALSE:
                                continue
                            cs.append(cv)
                            vv.append(x.pay[vn][n])
                    pay[vn][n] = merge(cs, vv) if vv else DC
            return VEnum(key, d, pay)
    sts = [v for v in vals if isinstance(v, VStruct)]
    if sts:
        s0 = sts[0]
        ok = all(v.key == s0.key and set(v.f) == set(s0.f) for v in sts)
        if ok:
            names = list(s0.f)
            if len(sts) == len(vals) or struct_names(s0.key) is not None or s0.key in ("tuple",):
                xs = [expand_struct(v, s0.key, names) for v in vals]
                if all(isinstance(x, VStruct) for x in xs):
                    return VStruct(s0.key, {n: merge(conds, [field(x, n, s0.key) for x in xs]) for n in names})
    if all(isinstance(v, (VRef, VRefs)) for v in vals):
        alts = []
        for c, v in zip(conds, vals):
            if isinstance(v, VRef):
                alts.append((c, v))
            else:
                alts += [(m_and(c, c2), r) for c2, r in v.alts]
        # same root, differing only by index: one reference with a merged index
        r0 = alts[0][1]
        if all(r.root == r0.root and len(r.path) == len(r0.path) and
               all(a[0] == b[0] and (a[0] == "i" or a == b) for a, b in zip(r.path, r0.path)) for _, r in alts):
            path = []
            for k in range(len(r0.path)):
                if r0.path[k][0] == "i":
                    path.append(("i", m_select([c for c, _ in alts], [r.path[k][1] for _, r in alts])))
                else:
                    path.append(r0.path[k])
            return VRef(r0.root, path)
        return VRefs(alts)
    return m_select(conds, [as_scalar(v) for v in vals])


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    return merge([c, m_not(c)], [a, b])


def mask_val(c, v):
    if c is TRUE:
        return v
    if scal(v):
        return masked(c, v)
    if isinstance(v, VStruct):
        return VStruct(v.key, {n: mask_val(c, x) for n, x in v.f.items()})
    if isinstance(v, VEnum):
        return VEnum(v.key, masked(c, v.d), v.pay) if not isinstance(v.d, T) or True else v
    return v


def restrict_val(c, v):
    if c is TRUE:
        return v
    if scal(v):
        return restrict(c, v)
    if isinstance(v, VStruct):
        f = {n: restrict_val(c, x) for n, x in v.f.items()}
        if all(vfp(f[n]) == vfp(v.f[n]) for n in f):
            return v
        return VStruct(v.key, f)
    if isinstance(v, VEnum):
        return VEnum(v.key, restrict(c, v.d), {k: {n: restrict_val(c, x) for n, x in fs.items()} for k, fs in v.pay.items()})
    return v


def some(x):
    return VEnum(OPTION, string("Some"), {"Some": {"0": x}, "None": {}})


NONE = VEnum(OPTION, string("None"), {"None": {}})


def option(c, x):
    """Some(x) if c else None"""
    if c is TRUE:
        return some(x)
    if c is FALSE:
        return NONE
    return VEnum(OPTION, m_ite(c, string("Some"), string("None")), {"Some": {"0": x}, "None": {}})


def ok(x):
    return VEnum(RESULT, string("Ok"), {"Ok": {"0": x}, "Err": {"0": ERR}})


def result(c, x):
    if c is TRUE:
        return ok(x)
    if c is FALSE:
        return err()
    return VEnum(RESULT, m_ite(c, string("Ok"), string("Err")), {"Ok": {"0": x}, "Err": {"0": ERR}})


def err():
    return VEnum(RESULT, string("Err"), {"Err": {"0": ERR}})


# ---------------------------------------------------------------- sequences
def seq_len(v):
    if isinstance(v, VStruct) and v.key == "array":
        return num(len(v.f), True)
    return map_leaves(as_scalar(v), t_len)


def t_len(t):
    if t is DC:
        return DC
    if t.op == "val" and isinstance(t.args[0], VStruct) and t.args[0].key == "array":
        return num(len(t.args[0].f), True)
    if t.op == "set":
        return seq_len(t.args[0])
    if t.op == "push":
        return m_add(seq_len(t.args[0]), num(1, True))
    if t.op == "emptyvec":
        return num(0, True)
    if t.op == "repeat":
        return t.args[1]
    if t.op == "slice":
        return m_sub(t.args[2], t.args[1])
    if t.op in ("map_seq", "iterseq"):
        return seq_len(t.args[0])
    if t.op == "windows" and isinstance(t.args[1], T):
        return m_add(m_sub(seq_len(t.args[0]), t.args[1]), num(1, True))
    if t.op == "c" and isinstance(t.val, str):
        return num(len(t.val.encode()), True)
    return sym("len", t, uint=True, isint=True)


def sub_slice(v, lo, hi):
    def f(t, l, h):
        if t.op == "slice":
            return sym("slice", t.args[0], m_add(t.args[1], l), m_add(t.args[1], h))
        return sym("slice", t, l, h)

    return lift("slice", f, as_scalar(v), lo, hi)


def seq_index(v, i):
    """element i of a sequence value"""
    if isinstance(v, VStruct) and v.key == "array":
        if isinstance(i, T) and i.op == "k" and i.val.denominator == 1 and str(i.val) in v.f:
            return v.f[str(i.val)]
        if isinstance(i, Node) and all(t.op == "k" or t is DC for t in leaves(i)):
            return map_leaves(i, lambda t: DC if t is DC else seq_index(v, t))
        if isinstance(i, T) and i is not DC and not i.deps and 0 < len(v.f) <= 16 and set(v.f) == {str(k) for k in range(len(v.f))}:
            return merge([m_cmp("Eq", i, num(k, True), True) for k in range(len(v.f))], [v.f[str(k)] for k in range(len(v.f))])
        v = as_scalar(v)
    v = as_scalar(v)
    if isinstance(v, Node):
        return map_leaves(v, lambda t: DC if t is DC else seq_index(t, i))
    if isinstance(i, Node):
        return map_leaves(i, lambda t: DC if t is DC else t_index(v, t))
    return t_index(v, i)


def t_index(t, i):
    if t is DC or i is DC:
        return DC
    o, a = t.op, t.args
    if o == "val" and isinstance(a[0], VStruct) and a[0].key == "array" and i.op == "k" and str(i.val) in a[0].f:
        return a[0].f[str(i.val)]
    if o == "c" and a[0] == "str" and i.op == "k" and i.val.denominator == 1:
        b = t.val.encode()
        if 0 <= i.val < len(b):
            return num(b[int(i.val)], True)
    if o == "set":
        j = a[1]
        if isinstance(j, T):
            d = t_sub(i, j)
            if d.op == "k":
                return a[2] if d.val == 0 else seq_index(a[0], i)
    elif o == "push":
        n = seq_len(a[0])
        if isinstance(n, T):
            d = t_sub(i, n)
            if d.op == "k":
                return a[1] if d.val == 0 else seq_index(a[0], i)
    elif o == "repeat":
        return a[0]
    elif o == "slice":
        return seq_index(a[0], m_add(a[1], i))
    elif o == "windows" and isinstance(a[1], T):
        return sub_slice(a[0], i, m_add(i, a[1]))
    elif o == "chunks_exact" and isinstance(a[1], T):
        return sub_slice(a[0], m_mul(i, a[1]), m_mul(m_add(i, num(1, True)), a[1]))
    elif o == "zeros":
        return num(0)
    return sym("index", t, i)


def seq_set(v, i, x):
    if isinstance(v, VStruct) and v.key == "array" and isinstance(i, T) and i.op == "k" and str(i.val) in v.f:
        f = dict(v.f)
        f[str(i.val)] = x
        return VStruct("array", f)
    if isinstance(v, Node) or isinstance(i, Node):
        return map_leaves(as_scalar(v), lambda t: map_leaves(i, lambda j: DC if t is DC or j is DC else seq_set(t, j, x)))
    v = as_scalar(v)
    if v.op == "val" and isinstance(v.args[0], VStruct) and v.args[0].key == "array" and i.op == "k" and str(i.val) in v.args[0].f:
        return seq_set(v.args[0], i, x)
    # writing back what is there
    if vfp(t_index(v, i)) == vfp(x):
        return v
    if v.op == "set" and isinstance(v.args[1], T) and v.args[1] is i:
        return seq_set(v.args[0], i, x)
    # commuting writes to distinct constant offsets get one order
    if v.op == "set" and isinstance(v.args[1], T):
        j = v.args[1]
        d = t_sub(i, j)
        if d.op == "k" and d.val < 0:
            return seq_set(seq_set(v.args[0], i, x), j, v.args[2])
    if scal(x) and isinstance(x, Node):
        return map_leaves(x, lambda t: DC if t is DC else sym("set", v, i, t))
    return sym("set", v, i, x)


def seq_push(v, x):
    v = as_scalar(v)
    if isinstance(v, Node):
        return map_leaves(v, lambda t: DC if t is DC else seq_push(t, x))
    if v.op == "emptyvec":
        return as_scalar(VStruct("array", {"0": x}))
    if v.op == "val" and isinstance(v.args[0], VStruct) and v.args[0].key == "array":
        f = dict(v.args[0].f)
        f[str(len(f))] = x
        return as_scalar(VStruct("array", f))
    if isinstance(x, Node):
        return map_leaves(x, lambda t: DC if t is DC else sym("push", v, t))
    return sym("push", v, x)


EMPTYVEC = sym("emptyvec")


# ---------------------------------------------------------------- paths
# ---------------------------------------------------------------- maps
EMPTYMAP = const("hmap", 0)


def _over(m, k, hit, miss, op):
    """look k up through the insertions m is made of"""
    if m is DC or k is DC:
        return DC
    if m.op == "hput":
        m0, k0, v0 = m.args
        below = lambda: _over(m0, k, hit, miss, op)
        if k0 is k or k0.fp == k.fp:
            return hit(v0)
        return terms.m_ite(terms.m_eqc(k0, k), hit(v0), below())
    if m is EMPTYMAP:
        return miss
    return sym(op, m, k)


def map_get(m, k):
    return terms.bind(as_scalar(m), lambda m: terms.bind(as_scalar(k), lambda k: _over(m, k, lambda v: v, DC, "hget")))


def map_has(m, k):
    r = terms.bind(as_scalar(m), lambda m: terms.bind(as_scalar(k), lambda k: _over(m, k, lambda v: TRUE, FALSE, "hhas")))
    return terms.as_bool(r)


def map_put(m, k, v):
    def put(m, k, v):
        if DC in (m, k, v):
            return DC
        if m.op == "hput" and m.args[1].fp == k.fp:
            m = m.args[0]
        return sym("hput", m, k, v)
    return terms.lift("hput", put, as_scalar(m), as_scalar(k), as_scalar(v))


def get_path(v, path):
    for p in path:
        v = get1(v, p)
    return v


def get1(v, p):
    k = p[0]
    if k == "f":
        return field(v, p[1], p[2] if len(p) > 2 else None)
    if k == "vf":
        return vfield(v, p[1], p[2], p[3])
    if k == "i":
        return seq_index(v, p[1])
    if k == "k":
        return map_get(v, p[1])
    if k == "discr":
        return v.d
    if k == "p":  # named projection (opaque accessor)
        return sym("." + p[1], as_scalar(v))
    if k == "o":  # what an opaque call handed out a mutable reference to
        _, name, i, vals, wrap = p
        vals = list(vals)
        vals[i] = as_scalar(v)
        r = sym(name, *vals)
        return r if wrap is None else vfield(r, wrap[0], "0", wrap[1])
    raise AssertionError(p)


def set_path(v, path, x):
    if not path:
        return x
    p, rest = path[0], path[1:]
    k = p[0]
    if k == "f":
        owner = p[2] if len(p) > 2 else None
        if not isinstance(v, VStruct):
            names = struct_names(owner) if owner else None
            if names is None:
                names = [p[1]]
            if isinstance(v, T) and v.op == "val" and isinstance(v.args[0], VStruct):
                v = v.args[0]
            elif v is DC:
                v = VStruct(owner or "tuple", {})
            else:
                v = expand_struct(v, owner or "?", names)
                if not isinstance(v, VStruct):
                    return sym("upd", as_scalar(v), p[1], x)
        f = dict(v.f)
        if p[1] in f or not rest:
            old = f.get(p[1], DC)
        else:
            old = field(v, p[1], owner)
        f[p[1]] = set_path(old, rest, x) if rest else x
        return VStruct(v.key, f, v.base)
    if k == "vf":
        variant, name, key = p[1], p[2], p[3]
        if not isinstance(v, VEnum):
            e = expand_enum(v, key)
            if e is None:
                e = VEnum(key, string(variant), {variant: {}})
            v = e
        pay = {a: dict(b) for a, b in v.pay.items()}
        fs = pay.setdefault(variant, {})
        old = fs.get(name, DC)
        fs[name] = set_path(old, rest, x) if rest else x
        return VEnum(v.key, v.d, pay)
    if k == "i":
        if rest:
            x = set_path(seq_index(v, p[1]), rest, x)
        return seq_set(v, p[1], x)
    if k == "k":
        if rest:
            x = set_path(map_get(v, p[1]), rest, x)
        return map_put(v, p[1], x)
    if k == "discr":
        if not isinstance(v, VEnum):
            v = expand_enum(v, p[1]) or VEnum(p[1], x, {vn: {} for vn, _ in W.enums.get(p[1], [])})
        return VEnum(v.key, x, v.pay)
    if k == "p":
        if rest:
            x = set_path(get1(v, p), rest, x)
        return sym("upd", as_scalar(v), p[1], x)
    if k == "o":
        if rest:
            x = set_path(get1(v, p), rest, x)
        vals = list(p[3])
        vals[p[2]] = as_scalar(v)
        return sym(p[1] + "!set", *vals, as_scalar(x))
    raise AssertionError(p)

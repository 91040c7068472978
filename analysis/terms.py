"""Value numbers and multi-valued decision diagrams (MDDs).

A scalar value number `T` is identified by a fingerprint in the field GF(2^61-1):
+ - * / and integer powers are interpreted in the field, every other operator is a
keyed hash of its arguments (random-interpretation value numbering, Gulwani &
Necula 2003). Two terms with equal fingerprints are the same value number, so
algebraically equal expressions get one number however they are written.

A conditional value is an ordered, reduced decision diagram whose variables are
canonical atoms (an opaque boolean, the position of an expression on the number
line, the discriminant of an enum, a string compared to literals, the exit taken
by a loop) and whose leaves are value numbers. Nothing is executed and no solver
is involved.
"""
import hashlib
import struct
from fractions import Fraction

P = (1 << 61) - 1


class Blowup(Exception):
    pass


# choices among equally sound normal forms; pair.compare tries several when the first differs
MODE = {"zip": None, "zipused": False, "restrict": False, "lift": False, "peel": False, "rem": False, "leaf": False, "bail": False, "frame": False}


def prf(*parts):
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        h.update(repr(p).encode())
        h.update(b"\x00")
    return int.from_bytes(h.digest(), "big") % P


def inv(x):
    return pow(x, P - 2, P)


EMPTY = frozenset()


class T:
    __slots__ = ("fp", "op", "args", "deps", "off", "val", "uint", "isint", "ids", "rid")

    def __repr__(self):
        return show(self)


_tab = {}


def _mk(fp, op, args=(), deps=EMPTY, off=Fraction(0), val=None, uint=False, isint=False):
    t = _tab.get(fp)
    if t is not None:
        if uint and not t.uint:
            t.uint = True
        if isint and not t.isint:
            t.isint = True
        return t
    if op in ("+", "-", "*") and off.numerator % P * inv(off.denominator % P) % P == fp:
        return num(off)
    t = T()
    t.fp = t.rid = fp
    t.op, t.args, t.deps, t.off, t.val, t.uint, t.isint = op, args, deps, off, val, uint, isint
    _tab[fp] = t
    return t


def num(v, isint=False):
    v = Fraction(v)
    fp = v.numerator % P * inv(v.denominator % P) % P
    return _mk(fp, "k", (), EMPTY, v, v, v >= 0, isint or v.denominator == 1)


def sym(op, *args, deps=EMPTY, uint=False, isint=False):
    """opaque (uninterpreted) operator application; args: T / Node / Value / plain"""
    d = deps
    key = [op]
    for a in args:
        if isinstance(a, (T, Node)):
            d = d | a.deps
            key.append(a.fp)
        elif hasattr(a, "vfp"):
            d = d | a.vdeps()
            key.append(a.vfp())
        else:
            key.append(a)
    return _mk(prf(*key), op, args, d, uint=uint or isint and False, isint=isint or uint)


def const(tag, v):
    return _mk(prf("const", tag, v), "c", (tag, v), val=v)


TRUE = const("bool", True)
FALSE = const("bool", False)
DC = const("dc", "dc")  # don't care
BOT = const("bot", "bot")  # not reached / other variant
UNIT = const("unit", "()")


def string(s):
    return const("str", s)


def isconst(t):
    return isinstance(t, T) and t.op == "k"


# ---------------------------------------------------------------- arithmetic
def t_add(a, b):
    if a.op == "k" and b.op == "k":
        return num(a.val + b.val)
    return _mk((a.fp + b.fp) % P, "+", (a, b), a.deps | b.deps, a.off + b.off,
               uint=a.uint and b.uint, isint=a.isint and b.isint)


def t_sub(a, b):
    if a.op == "k" and b.op == "k":
        return num(a.val - b.val)
    return _mk((a.fp - b.fp) % P, "-", (a, b), a.deps | b.deps, a.off - b.off, isint=a.isint and b.isint)


def t_mul(a, b):
    if a.op == "k" and b.op == "k":
        return num(a.val * b.val)
    if (a.op == "k" and a.val == 0) or (b.op == "k" and b.val == 0):
        return num(0)
    off = Fraction(0)
    if a.op == "k":
        off = a.val * b.off
    elif b.op == "k":
        off = b.val * a.off
    return _mk(a.fp * b.fp % P, "*", (a, b), a.deps | b.deps, off,
               uint=a.uint and b.uint, isint=a.isint and b.isint)


def t_div(a, b):
    if b.op == "k" and b.val != 0:
        return t_mul(a, num(1 / b.val))
    if b.fp == 0:
        return sym("div0", a)
    if a.op == "k" and a.val == 0:
        return num(0)
    return _mk(a.fp * inv(b.fp) % P, "/", (a, b), a.deps | b.deps)


def t_neg(a):
    if a.op == "k":
        return num(-a.val)
    return _mk((-a.fp) % P, "neg", (a,), a.deps, -a.off, isint=a.isint)


def t_pow(a, n):
    if a.op == "k":
        if a.val == 0 and n <= 0:
            return num(1) if n == 0 else sym("div0", a)
        return num(a.val ** n)
    if n < 0:
        return t_div(num(1), t_pow(a, -n))
    return _mk(pow(a.fp, n, P), "pow", (a, n), a.deps, isint=a.isint)


def t_ineg_int(a):
    return t_neg(a)


# ---------------------------------------------------------------- variables
class Var:
    __slots__ = ("kind", "fp", "term", "dom", "isint", "ord")


_vars = {}


def mkvar(kind, term, dom=None, fp=None):
    f = prf("var", kind, term.fp if fp is None else fp, *(dom or ()))
    v = _vars.get(f)
    if v is None:
        v = Var()
        v.kind, v.fp, v.term, v.dom, v.ord = kind, f, term, dom, len(_vars)
        v.isint = kind == "s" and term.isint
        _vars[f] = v
    return v


class Node:
    """cells: for 'b': (0,1); 'd': domain; 's': split points (len(kids)-1); 'm': constants (+default last)

    fp says what is computed (a boolean and the decision on it have one fp), rid also how it is written"""
    __slots__ = ("var", "cells", "kids", "fp", "rid", "deps", "uint", "isint", "size", "bl")

    def __repr__(self):
        return show(self)


_nodes = {}


_vanmemo = {}


def _vanish(var, c, left, right):
    """do the leaf terms left and right coincide when var.term == c ?"""
    if not (isinstance(left, T) and isinstance(right, T)):
        return False
    e = var.term
    d = (left.fp - right.fp) % P
    g = (e.fp - num(c).fp) % P
    if g == 0:
        return False
    for k in (1, P - 1, 2, P - 2):
        if d == g * k % P:
            return True
    r = _solve(e, c)
    if r is None:
        return False
    a, newfp = r
    return _subst(left, a.fp, newfp, {}) == _subst(right, a.fp, newfp, {})


def _solve(e, c):
    """an atom of e with unit coefficient and the fingerprint it has when e == c"""
    stack = [(e, 1)]
    while stack:
        t, s = stack.pop()
        if t.op == "+":
            stack += [(t.args[0], s), (t.args[1], s)]
        elif t.op == "-":
            stack += [(t.args[0], s), (t.args[1], -s)]
        elif t.op == "neg":
            stack.append((t.args[0], -s))
        elif t.op == "k" or t.op in ("*", "/", "pow"):
            continue
        else:
            rest = (e.fp - s * t.fp) % P
            # the atom must not occur elsewhere in e
            if _occurs_twice(e, t):
                continue
            return t, (s * (num(c).fp - rest)) % P
    return None


def _occurs_twice(e, a):
    n = 0
    stack = [e]
    seen = 0
    while stack:
        t = stack.pop()
        seen += 1
        if seen > 400:
            return True
        if t is a:
            n += 1
            if n > 1:
                return True
            continue
        for x in t.args:
            if isinstance(x, T):
                stack.append(x)
    return False


def _subst(t, afp, newfp, memo):
    if t.fp == afp:
        return newfp
    r = memo.get(t.fp)
    if r is not None:
        return r
    if len(memo) > 3000:
        return t.fp
    o, a = t.op, t.args
    if o in ("k", "c"):
        r = t.fp
    elif o == "+":
        r = (_subst(a[0], afp, newfp, memo) + _subst(a[1], afp, newfp, memo)) % P
    elif o == "-":
        r = (_subst(a[0], afp, newfp, memo) - _subst(a[1], afp, newfp, memo)) % P
    elif o == "neg":
        r = (-_subst(a[0], afp, newfp, memo)) % P
    elif o == "*":
        r = _subst(a[0], afp, newfp, memo) * _subst(a[1], afp, newfp, memo) % P
    elif o == "/":
        r = _subst(a[0], afp, newfp, memo) * inv(_subst(a[1], afp, newfp, memo)) % P
    elif o == "pow":
        r = pow(_subst(a[0], afp, newfp, memo), a[1], P)
    else:
        key = [o]
        for x in a:
            if isinstance(x, T):
                key.append(_subst(x, afp, newfp, memo))
            elif isinstance(x, Node):
                key.append(x.fp)
            elif hasattr(x, "vfp"):
                key.append(x.vfp())
            else:
                key.append(x)
        r = prf(*key)
    memo[t.fp] = r
    return r


_cellfp = {}


def mknode(var, cells, kids):
    kids = list(kids)
    k = var.kind
    fps = {}
    for x in kids:
        y = fps.setdefault(x.fp, x)
        if y is not x:
            # one boolean written in two ways: as decisions
            fps[x.fp] = x if isinstance(x, Node) and x.bl else y
            fps[None] = True
    if None in fps:
        kids = [fps[x.fp] for x in kids]
    if k == "s":
        # don't-care cells take the value of a neighbour
        n = len(kids)
        if any(x is DC for x in kids):
            if all(x is DC for x in kids):
                return DC
            for i in range(1, n):
                if kids[i] is DC:
                    kids[i] = kids[i - 1]
            for i in range(n - 2, -1, -1):
                if kids[i] is DC:
                    kids[i] = kids[i + 1]
        # point cells where both sides meet
        for i in range(1, n - 1):
            if cells[i - 1][0] == cells[i][0] and kids[i] is not kids[i - 1]:
                if kids[i] is kids[i + 1] and _vanish(var, cells[i][0], kids[i - 1], kids[i + 1]):
                    kids[i] = kids[i - 1]
        oc, ok = [], [kids[0]]
        for c, x in zip(cells, kids[1:]):
            if x is not ok[-1]:
                oc.append(c)
                ok.append(x)
        if len(ok) == 1:
            return ok[0]
        if not var.isint:
            # reals: a split point where both sides agree belongs to the right
            for i, c in enumerate(oc):
                if c[1] == 1 and (i == 0 or oc[i - 1][0] < c[0]) and isinstance(ok[i], T) and isinstance(ok[i + 1], T):
                    key = (var.fp, c[0], ok[i].fp, ok[i + 1].fp)
                    r = _vanmemo.get(key)
                    if r is None:
                        r = _vanmemo[key] = _vanish(var, c[0], ok[i], ok[i + 1])
                    if r:
                        oc[i] = (c[0], 0)
        else:
            # integers: a split point where both sides agree belongs to the right
            for i, c in enumerate(oc):
                for _ in range(3):
                    if c[1] == 1 and (i == 0 or oc[i - 1][0] < c[0] - 1) and not (var.term.uint and c[0] == 0) \
                            and _vanish(var, c[0], ok[i], ok[i + 1]):
                        oc[i] = c = (c[0] - 1, 1)
                    else:
                        break
            # what is never negative is 0 below its first split point 0
            if len(oc) and var.term.uint and oc[0] == (0, 1) and _vanish(var, oc[0][0], ok[0], ok[1]):
                del oc[0], ok[0]
                if len(ok) == 1:
                    return ok[0]
        cells, kids = tuple(oc), ok
    elif k == "m":
        nd = [x for x in kids if x is not DC]
        if not nd:
            return DC
        if all(x is nd[0] for x in nd):
            return nd[0]
        # constants that behave like the default are dropped
        d = kids[-1]
        oc, ok = [], []
        for c, x in zip(cells, kids[:-1]):
            if x is not d and x is not DC:
                oc.append(c)
                ok.append(x)
        if d is DC and len(set(x.rid for x in ok)) == 1:
            return ok[0]
        if not oc:
            return d
        cells, kids = tuple(oc), ok + [d]
    else:
        nd = [x for x in kids if x is not DC]
        if not nd:
            return DC
        if all(x is nd[0] for x in nd):
            return nd[0]
    key = (var.fp, cells, tuple(x.rid for x in kids))
    n = _nodes.get(key)
    if n is None:
        n = Node()
        n.var, n.cells, n.kids = var, cells, tuple(kids)
        if var.kind == "b" and kids[0] is FALSE and kids[1] is TRUE:
            n.fp = var.term.fp  # the decision on x is x itself
            n.rid = prf("decision", n.fp)
        else:
            cf = _cellfp.get(cells)
            if cf is None:
                cf = _cellfp[cells] = prf("cells", [str(c) for c in cells])
            fps = tuple(x.fp for x in kids)
            b = hashlib.blake2b(struct.pack("%dQ" % (len(kids) + 3), 7, var.fp, cf, *fps), digest_size=8)
            n.fp = n.rid = int.from_bytes(b.digest(), "big") % P
            if fps != key[2]:
                n.rid = prf("written", n.fp, *key[2])
        d = var.term.deps if var.term is not None else EMPTY
        for x in kids:
            d = d | x.deps
        n.deps = d
        n.bl = all(x.bl if isinstance(x, Node) else x is TRUE or x is FALSE or x is DC or x is BOT for x in kids)
        n.uint = n.isint = False
        n.size = 1 + sum(x.size if isinstance(x, Node) else 1 for x in kids)
        _nodes[key] = n
    return n


def _partition(var, nodes):
    if var.kind == "b":
        return (0, 1)
    if var.kind == "d":
        dom = var.dom
        for n in nodes:
            if len(n.cells) > len(dom):
                dom = n.cells
        return dom
    s = set()
    for n in nodes:
        s.update(n.cells)
    return tuple(sorted(s))


def _cof(n, var, cells):
    """kids of n along the given partition of var"""
    if not isinstance(n, Node) or n.var is not var:
        return None
    k = var.kind
    if k == "b":
        return n.kids
    if k == "d":
        if n.cells == cells:
            return n.kids
        m = dict(zip(n.cells, n.kids))
        return tuple(m.get(c, DC) for c in cells)
    if k == "s":
        out, j = [], 0
        for i in range(len(cells) + 1):
            # cell i lies between cells[i-1] and cells[i]
            if i > 0:
                while j < len(n.cells) and n.cells[j] <= cells[i - 1]:
                    j += 1
            out.append(n.kids[j])
        return tuple(out)
    m = dict(zip(n.cells, n.kids[:-1]))
    return tuple(m.get(c, n.kids[-1]) for c in cells) + (n.kids[-1],)


CAP = 60000
LIMIT = [CAP]
_applymemo = {}


def apply(name, f, *ms, short=None):
    """n-ary apply; f works on leaf terms; results memoised under `name` (None: no memo)"""
    memo = _applymemo.setdefault(name, {}) if name else {}
    budget = [LIMIT[0]]
    if len(memo) > 400000:
        memo.clear()

    def rec(ms):
        if short is not None:
            r = short(ms)
            if r is not None:
                return r
        key = tuple(m.rid for m in ms)
        r = memo.get(key)
        if r is not None:
            return r
        top = None
        for m in ms:
            if isinstance(m, Node) and (top is None or m.var.ord < top.ord):
                top = m.var
        if top is None:
            r = f(*ms)
            if isinstance(r, Node):
                raise AssertionError("apply leaf gives node")
        else:
            budget[0] -= 1
            if budget[0] < 0:
                raise Blowup()
            cells = _partition(top, [m for m in ms if isinstance(m, Node) and m.var is top])
            ncell = len(cells) if top.kind in ("b", "d") else len(cells) + 1
            cof = [_cof(m, top, cells) for m in ms]
            kids = [rec(tuple(c[i] if c is not None else m for c, m in zip(cof, ms))) for i in range(ncell)]
            r = mknode(top, cells, kids)
        memo[key] = r
        return r

    return rec(tuple(ms))


_selmemo = {}


def m_select(conds, vals):
    """conds: disjoint boolean MDDs; value where none holds is a don't care"""
    if len(vals) == 1:
        return vals[0]
    if all(v is vals[0] for v in vals):
        return vals[0]
    if len(_selmemo) > 400000:
        _selmemo.clear()
    budget = [LIMIT[0]]

    def rec(ps):
        qs = []
        for c, v in ps:
            if c is TRUE:
                return v
            if c is FALSE or c is DC or v is DC:
                continue
            qs.append((c, v))
        if not qs:
            return DC
        if all(v is qs[0][1] for _, v in qs):
            return qs[0][1]
        key = tuple(sorted((c.rid, v.rid) for c, v in qs))
        r = _selmemo.get(key)
        if r is not None:
            return r
        budget[0] -= 1
        if budget[0] < 0:
            raise Blowup()
        top = None
        for cv in qs:
            for m in cv:
                if isinstance(m, Node) and (top is None or m.var.ord < top.ord):
                    top = m.var
        cells = _partition(top, [m for cv in qs for m in cv if isinstance(m, Node) and m.var is top])
        ncell = len(cells) if top.kind in ("b", "d") else len(cells) + 1
        cof = [(_cof(c, top, cells), _cof(v, top, cells)) for c, v in qs]
        kids = [rec([(c if x is None else x[i], v if y is None else y[i]) for (c, v), (x, y) in zip(qs, cof)])
                for i in range(ncell)]
        r = mknode(top, cells, kids)
        _selmemo[key] = r
        return r

    return rec([(as_bool(c), v) for c, v in zip(conds, vals)])


def m_ite(c, a, b):
    if a is b or c is TRUE:
        return a
    if c is FALSE:
        return b
    c = as_bool(c)
    return apply("ite", lambda x, y, z: y if x is TRUE else (z if x is FALSE else DC), c, a, b,
                 short=lambda ms: ms[1] if ms[0] is TRUE else ms[2] if ms[0] is FALSE else DC if ms[0] is DC else None)


def m_not(a):
    a = as_bool(a)
    return apply("not", lambda x: FALSE if x is TRUE else TRUE if x is FALSE else DC, a)


def _and(x, y):
    if x is FALSE or y is FALSE:
        return FALSE
    if x is TRUE:
        return y
    if y is TRUE:
        return x
    return DC


def _or(x, y):
    if x is TRUE or y is TRUE:
        return TRUE
    if x is FALSE:
        return y
    if y is FALSE:
        return x
    return DC


def _sand(ms):
    a, b = ms
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE or a is b:
        return b
    if b is TRUE:
        return a
    return None


def _sor(ms):
    a, b = ms
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE or a is b:
        return b
    if b is FALSE:
        return a
    return None


def m_and(a, b):
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    a, b = as_bool(a), as_bool(b)
    return apply("and", _and, a, b, short=_sand)


def m_or(a, b):
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    a, b = as_bool(a), as_bool(b)
    return apply("or", _or, a, b, short=_sor)


def restrict(c, v):
    """v simplified where c does not hold"""
    if c is TRUE or isinstance(v, T):
        return v
    c = as_bool(c)
    return apply("restrict", lambda x, y: y if x is TRUE else DC, c, v,
                 short=lambda ms: ms[1] if ms[0] is TRUE else DC if isinstance(ms[0], T) else None)


def masked(c, v):
    """v where c holds, BOT elsewhere (exact, no don't cares)"""
    if c is TRUE:
        return v
    c = as_bool(c)
    return apply("masked", lambda x, y: y if x is TRUE else BOT, c, v,
                 short=lambda ms: ms[1] if ms[0] is TRUE else BOT if isinstance(ms[0], T) else None)


def opaque_leaf(m):
    """an MDD turned into one value number"""
    if isinstance(m, T):
        return m
    return _mk(prf("mdd", m.fp), "mdd", (m,), m.deps)


def lift(name, f, *ms):
    """apply a leaf operator over MDDs, falling back to an opaque leaf on blow-up"""
    if all(isinstance(m, T) for m in ms):
        if any(m is DC for m in ms):
            return DC
        return f(*ms)

    def g(*xs):
        for x in xs:
            if x is DC:
                return DC
        return f(*xs)

    try:
        sz = 1
        for m in ms:
            sz *= m.size if isinstance(m, Node) else 1
        if sz > 3_000_000:
            raise Blowup()
        return apply(("op", name), g, *ms)
    except Blowup:
        if LIMIT[0] < CAP:
            raise
        big = max(range(len(ms)), key=lambda i: ms[i].size if isinstance(ms[i], Node) else 0)
        ms = list(ms)
        ms[big] = opaque_leaf(ms[big])
        return lift(name, f, *ms)


def leaves(m):
    seen, out, stack = set(), [], [m]
    while stack:
        x = stack.pop()
        if x.rid in seen:
            continue
        seen.add(x.rid)
        if isinstance(x, Node):
            stack.extend(x.kids)
        else:
            out.append(x)
    return out


def bind(m, f):
    """replace each leaf t by the MDD f(t)"""
    if isinstance(m, T):
        return f(m)
    ls = leaves(m)
    vals = [f(t) for t in ls]
    if all(v is t for v, t in zip(vals, ls)):
        return m
    if all(isinstance(v, T) for v in vals):
        idx = {t.fp: v for t, v in zip(ls, vals)}
        return apply(None, lambda x: idx[x.fp], m)
    lset, memo, budget = {}, {}, [CAP]

    def lv(x):
        r = lset.get(x.rid)
        if r is None:
            r = lset[x.rid] = frozenset((x.fp,)) if isinstance(x, T) else frozenset().union(*map(lv, x.kids))
        return r

    def rec(m, env):
        # env: ((leaf fingerprint, value) ..) for the leaves below m
        if len(env) == 1 or all(v is env[0][1] for _, v in env):
            return env[0][1]
        key = (m.rid,) + tuple(v.rid for _, v in env)
        r = memo.get(key)
        if r is not None:
            return r
        budget[0] -= 1
        if budget[0] < 0:
            raise Blowup()
        top = m.var
        for _, v in env:
            if isinstance(v, Node) and v.var.ord < top.ord:
                top = v.var
        ns = [x for x in [m] + [v for _, v in env] if isinstance(x, Node) and x.var is top]
        cells = _partition(top, ns)
        ncell = len(cells) if top.kind in ("b", "d") else len(cells) + 1
        mc = _cof(m, top, cells)
        vc = [_cof(v, top, cells) for _, v in env]
        kids = []
        for i in range(ncell):
            mi = m if mc is None else mc[i]
            ls = lv(mi)
            if mi is DC and not any(l == DC.fp for l, _ in env):
                kids.append(DC)
                continue
            kids.append(rec(mi, tuple((l, v if c is None else c[i]) for (l, v), c in zip(env, vc) if l in ls)))
        r = mknode(top, cells, kids)
        memo[key] = r
        return r

    return rec(m, tuple((t.fp, v) for t, v in zip(ls, vals)))


# ---------------------------------------------------------------- conditions
def t_bool(t):
    """boolean leaf -> MDD over {TRUE,FALSE}"""
    if t is TRUE or t is FALSE or t is DC or t is BOT:
        return t
    return mknode(mkvar("b", t), (0, 1), (FALSE, TRUE))


def as_bool(m):
    if isinstance(m, T):
        return t_bool(m)
    if m.bl:
        return m
    return bind(m, t_bool)


def _base(t):
    """split t = base + off; orientation so that base and -base give one variable"""
    off = t.off
    b = t_sub(t, num(off)) if off else t
    if b.fp == t.fp:
        b = t
    return b, off


def _splitnode(e, isint, pts, kids):
    """node on e with split points pts=[(c,side)], side 0: before c, 1: after c"""
    if isint:
        q = []
        for c, s in pts:
            # integers: canonical split "after k" (between k and k+1)
            if s == 0:
                k = -((-c.numerator) // c.denominator) - 1  # ceil(c)-1
            else:
                k = c.numerator // c.denominator  # floor(c)
            q.append((Fraction(k), 1))
        pts = q
    # remove duplicated / impossible cells
    oc, ok = [], [kids[0]]
    for c, x in zip(pts, kids[1:]):
        if oc and oc[-1] == c:
            ok[-1] = x
        else:
            oc.append(c)
            ok.append(x)
    if e.uint and isint:
        while oc and oc[0][0] < 0:
            oc.pop(0)
            ok.pop(0)
    if not oc:
        return ok[0]
    v = mkvar("s", e)
    if isint:
        v.isint = True
    return mknode(v, tuple(oc), ok)


def t_cmp(a, b, lt, eq, gt, isint):
    """three-way comparison of a and b with boolean outcomes"""
    d = t_sub(a, b)
    if d.op == "k":
        return lt if d.val < 0 else gt if d.val > 0 else eq
    e, off = _base(d)
    # d = e + off ; compare e with -off
    if not e.uint:
        n = t_neg(e)
        if n.uint or n.fp < e.fp:
            e, c = n, off
            lt, gt = gt, lt
        else:
            c = -off
    else:
        c = -off
    return _splitnode(e, isint, [(c, 0), (c, 1)], [lt, eq, gt])


def m_cmp(op, a, b, isint):
    tab = {"Lt": (TRUE, FALSE, FALSE), "Le": (TRUE, TRUE, FALSE), "Gt": (FALSE, FALSE, TRUE),
           "Ge": (FALSE, TRUE, TRUE), "Eq": (FALSE, TRUE, FALSE), "Ne": (TRUE, FALSE, TRUE)}[op]
    return m_cmp3(a, b, tab, isint)


def m_cmp3(a, b, tab, isint):
    if isinstance(a, T) and isinstance(b, T):
        if a is DC or b is DC:
            return DC
        return t_cmp(a, b, *tab, isint)
    d = lift("-", t_sub, a, b)
    z = num(0)
    return bind(d, lambda t: t if t in (DC, BOT) else t_cmp(t, z, *tab, isint))


def t_eqc(a, b):
    """equality of non-numeric terms"""
    if a.fp == b.fp:
        return TRUE
    if a.op == "c" and b.op == "c":
        return FALSE
    if a.op == "c":
        a, b = b, a
    if b.op == "c" and b.args and b.args[0] == "str":
        return mknode(mkvar("m", a), (b.val,), (TRUE, FALSE))
    x, y = sorted((a, b), key=lambda t: t.fp)
    return t_bool(sym("eq", x, y))


def m_eqc(a, b):
    if isinstance(a, T) and isinstance(b, T):
        if a is DC or b is DC:
            return DC
        return t_eqc(a, b)
    return bind(a, lambda x: bind(b, lambda y: DC if x is DC or y is DC else t_eqc(x, y)))


def discr_node(t, dom, outs):
    """dom: variant names; outs: leaf per variant"""
    return mknode(mkvar("d", t, tuple(dom)), tuple(dom), outs)


# ---------------------------------------------------------------- arithmetic on MDDs
def m_add(a, b):
    return lift("+", t_add, a, b)


def m_sub(a, b):
    return lift("-", t_sub, a, b)


def m_mul(a, b):
    return lift("*", t_mul, a, b)


def m_div(a, b):
    return lift("/", t_div, a, b)


def m_neg(a):
    return lift("neg", t_neg, a)


def m_max(a, b, isint=False):
    return m_ite(m_cmp("Lt", a, b, isint), b, a)


def m_min(a, b, isint=False):
    return m_ite(m_cmp("Lt", b, a, isint), b, a)


def m_abs(a, isint=False):
    return m_ite(m_cmp("Lt", a, num(0), isint), m_neg(a), a)


# ---------------------------------------------------------------- printing
def show(t, depth=6):
    if isinstance(t, Node):
        if depth <= 0:
            return "…"
        v = show_var(t.var, depth - 1)
        if t.var.kind == "b":
            return "(if %s then %s else %s)" % (v, show(t.kids[1], depth - 1), show(t.kids[0], depth - 1))
        if t.var.kind == "s":
            lab = ["%s%s" % ("<" if s == 0 else "≤", _fr(c)) for c, s in t.cells] + ["above"]
            return "(%s: %s)" % (v, ", ".join("%s→%s" % (a, show(k, depth - 1)) for a, k in zip(lab, t.kids)))
        lab = list(t.cells) + (["_"] if t.var.kind == "m" else [])
        return "(match %s {%s})" % (v, ", ".join("%s→%s" % (a, show(k, depth - 1)) for a, k in zip(lab, t.kids)))
    if not isinstance(t, T):
        return t.vshow(depth) if hasattr(t, "vshow") else str(t)
    o, a = t.op, t.args
    if o == "k":
        return _fr(t.val)
    if o == "c":
        return repr(t.val) if a and a[0] == "str" else str(t.val)
    if o == "in":
        return str(a[0])
    if depth <= 0:
        return "…"
    d = depth - 1
    if o in ("+", "-", "*", "/"):
        return "(%s %s %s)" % (show(a[0], d), o, show(a[1], d))
    if o == "neg":
        return "-" + show(a[0], d)
    if o == "pow":
        return "%s^%d" % (show(a[0], d), a[1])
    if o.startswith("."):
        return show(a[0], d) + o
    if o == "index":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    return "%s(%s)" % (o, ", ".join(show(x, d) if isinstance(x, (T, Node)) or hasattr(x, "vshow") else str(x)
                                   for x in a))


def show_var(v, depth):
    return show(v.term, depth) if v.term is not None else "loop-exit"


def _fr(f):
    if isinstance(f, Fraction):
        return str(f.numerator) if f.denominator == 1 else "%g" % float(f)
    return str(f)

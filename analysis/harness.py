"""Rules over the fact base: value-flow equivalence of a function with its
reference definition (crate `spec`), plus helpers shared by all rules."""
import os, sys, time, json, traceback, signal, resource, gc

sys.setrecursionlimit(200000)
import terms
from terms import *
from values import *
import interp
from interp import Program, Ctx, St, WORLD, tyflags, strip_ref, Unsupported, tyname


class Finding:
    def __init__(self, key, where, text):
        self.key, self.where, self.text = key, where, text


class Summary:
    pass


def anyname(names):
    s = set(names)
    return lambda f: f.cname in s or f.qname in s


def summarize(prog, f, opaque=None, rename=None, nargs=None):
    ctx = Ctx(prog, opaque)
    if rename:
        ctx.rename = dict(rename)
    st = St()
    args = []
    for i in range(f.j["argc"]):
        ty = f.j["locals"][i + 1]
        if isinstance(ty, list) and ty[0] == "refmut":
            st.mem[("A", i)] = array_value(sym("in", "a%d" % i, **tyflags(strip_ref(ty))), strip_ref(ty))
            args.append(VRef(("A", i)))
        else:
            args.append(array_value(sym("in", "a%d" % i, **tyflags(strip_ref(ty))), strip_ref(ty)))
    r = ctx.run(f, args, st)
    s = Summary()
    s.fn, s.ctx = f, ctx
    s.diverges = r is None
    s.ret = ctx.lambdas(st, ctx.deep(st, r)) if r is not None else const("diverges", 0)
    s.outs = {}
    if r is not None:
        for i in range(f.j["argc"]):
            if ("A", i) in st.mem:
                s.outs[i] = ctx.lambdas(st, ctx.deep(st, st.mem[("A", i)]))
    s.world = st.mem.get(WORLD)
    s.panic = TRUE if r is None else as_bool(as_scalar(st.mem.get(interp.PANIC, FALSE)))
    s.locks = {k: v for k, v in st.mem.items() if k[0] == "M"}
    return s


def isbool(x):
    return scal(x) and any(t is TRUE or t is FALSE for t in leaves(x))


def comp_diff(a, b, path, out, limit=6):
    """component-wise differences of two values"""
    if len(out) >= limit:
        return
    if a is None or b is None:
        if a is not b:
            out.append((path, show(a, 8) if a is not None else "absent", show(b, 8) if b is not None else "absent"))
        return
    if vfp(a) == vfp(b):
        return
    if isinstance(a, VStruct) and isinstance(b, VStruct):
        ns = list(dict.fromkeys(list(a.f) + list(b.f)))
        n0 = len(out)
        for n in ns:
            x = a.f[n] if n in a.f else (field(a.base, n, a.key) if a.base is not None else None)
            y = b.f[n] if n in b.f else (field(b.base, n, b.key) if b.base is not None else None)
            comp_diff(x, y, path + "." + n, out, limit)
        if len(out) > n0:
            return
        if a.key == b.key and a.base is None and b.base is None and set(a.f) == set(b.f):
            return  # every component agrees wherever it is meaningful
    if isinstance(a, VEnum) and isinstance(b, VEnum):
        n0 = len(out)
        if vfp(a.d) != vfp(b.d):
            out.append((path + " (which case)", show(a.d, 8), show(b.d, 8)))
            same = False
        else:
            same = isinstance(a.d, Node)
        for v in dict.fromkeys(list(a.pay) + list(b.pay)):
            fa, fb = a.pay.get(v, {}), b.pay.get(v, {})
            for n in dict.fromkeys(list(fa) + list(fb)):
                x, y = fa.get(n), fb.get(n)
                if (x is None or x is DC) and (y is None or y is DC):
                    continue
                if same and x is not None and y is not None and vfp(x) != vfp(y):
                    # only where this is the case
                    try:
                        c = a.isv(v)
                        if isbool(x) or isbool(y):
                            x, y = as_bool(as_scalar(x)), as_bool(as_scalar(y))
                        x, y = mask_val(c, x), mask_val(c, y)
                    except Blowup:
                        pass
                comp_diff(x, y, "%s as %s.%s" % (path, v, n), out, limit)
        if len(out) > n0:
            return
        if same and a.key == b.key:
            return  # every component agrees in the case it belongs to
    out.append((path, show(a, 10), show(b, 10)))


def closed(items):
    """disjunction of conditions recorded outside loops, with their path conditions"""
    r = FALSE
    for c, pc in items:
        for p in pc:
            c = m_and(c, p)
        if isinstance(c, (T, Node)) and not c.deps:
            r = m_or(r, c)
    return r


def panic_cond(s):
    """where an explicit check of the function fails"""
    return s.panic


def panic_diff(sa, sb):
    """explicit panics that only one of the two has. A check that the other makes by unwrap/expect counts as made"""
    pa, pb = sa.panic, sb.panic
    if vfp(pa) == vfp(pb):
        return []
    out = []
    try:
        for x, px, y, py in ((sb, pb, sa, pa), (sa, pa, sb, pb)):
            allow = m_or(m_or(py, closed(y.ctx.unwraps)), closed((c, pc) for _, c, pc in y.ctx.checks))
            if m_and(px, m_not(allow)) is not FALSE:
                out.append(("panics", show(pa, 8), show(pb, 8)))
                break
    except Blowup:
        pass
    return out


def differences(sa, sb, ignore_ret=False, ignore=()):
    n, out = differences0(sa, sb, ignore_ret, ignore)
    if out and (sb.panic is not FALSE or sb.ctx.checks):
        try:
            d = m_not(m_or(sb.panic, closed((c, pc) for _, c, pc in sb.ctx.checks)))
        except Blowup:
            return n, out
        if d is not TRUE and d is not FALSE:
            ta, tb = Summary(), Summary()
            for s, t in ((sa, ta), (sb, tb)):
                t.ctx = s.ctx
                t.ret = mask_val(d, s.ret)
                t.outs = {i: mask_val(d, v) for i, v in s.outs.items()}
                t.world = None if s.world is None else mask_val(d, s.world)
                t.locks = {k: mask_val(d, v) for k, v in s.locks.items()}
            n, out = differences0(ta, tb, ignore_ret, ignore)
    return n + 1, out + panic_diff(sa, sb)


def differences0(sa, sb, ignore_ret=False, ignore=()):
    out = []
    n = 0
    if not ignore_ret:
        n += 1
        comp_diff(sa.ret, sb.ret, "result", out)
    for i in sorted(set(sa.outs) | set(sb.outs)):
        if i in ignore:
            continue
        n += 1
        comp_diff(sa.outs.get(i), sb.outs.get(i), "*arg%d" % i, out)
    n += 1
    if (sa.world is None) != (sb.world is None) or (sa.world is not None and vfp(sa.world) != vfp(sb.world)):
        comp_diff(sa.world, sb.world, "effects", out)
    ka, kb = sa.locks, sb.locks
    for k in set(ka) | set(kb):
        n += 1
        comp_diff(ka.get(k), kb.get(k), "locked state", out)
    return n, out


# ------------------------------------------------------------------ obligations
def is_stub(f):
    """reference functions whose body only diverges stand for opaque operations"""
    for b in f.j["blocks"]:
        if b["t"][0] == "return" and not b["c"]:
            return not reachable_return(f)
    return True


def reachable_return(f):
    if f.cfg is None:
        f.cfg = interp.Cfg(f.j)
    for b in f.cfg.order:
        if f.j["blocks"][b]["t"][0] == "return":
            return True
    return False


class Module:
    """one reference module: spec/src/<name>.rs <-> functions of one crate"""

    def __init__(self, prog, name, crate, inline=(), only=None, skip=()):
        self.prog, self.name, self.crate = prog, name, crate
        self.file = "src/%s.rs" % name
        self.fns = []
        self.stubs = set()
        self.helpers = []
        for f in prog.fns.values():
            if f.crate != "spec" or f.kind not in ("Fn", "AssocFn") or f.file != self.file or f.j.get("derived"):
                continue
            if is_stub(f):
                self.stubs.add(f.cname)
                continue
            if f.j.get("vis") != "pub":
                self.helpers.append(f)
                continue
            self.fns.append(f)


def trait_sig(f):
    return (f.trait or "").split("::")[-1]


def candidates(prog, crate, f):
    l = prog.byname.get((crate, f.qname), [])
    return [x for x in l if not x.j.get("derived") or True]


def same_shape(a, b):
    """private functions may be renamed: same arity and result head"""
    return a.j["argc"] == b.j["argc"] and tyname(a.j["ret"]) == tyname(b.j["ret"])


ALWAYS_INLINE = {"PartialEq", "PartialOrd", "Ord", "Eq", "Clone", "Deref", "DerefMut", "AsRef", "Borrow", "Default"}


def opaque_pred(names, this=None):
    def p(f):
        if f.trait and f.trait.split("::")[-1] in ALWAYS_INLINE:
            return False
        return (f.cname in names or f.qname in names)
    return p

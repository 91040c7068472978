"""Models of the std functions the workspace uses (identity-like conversions, Option /
Result / iterator combinators, Vec and slice operations, float functions)."""
import re
from fractions import Fraction
import terms
from terms import *
from values import *
import values
from interp import (Unsupported, is_int, is_float, is_num, head, opname, mk_slice, cmp_ordering, t_idiv, t_rem, strip_ref,
                    WORLD, tyname)
import interp

W = values.W
PASS = object()
MODELS = {}
PATHS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


_memo = {}


def norm(p):
    r = _memo.get(p)
    if r is None:
        q = re.sub(r"<impl ([^<>]*(?:<[^<>]*>)?[^<>]*)>", r"\1", p)
        for _ in range(4):
            q = re.sub(r"::<[^<>]*>", "", q)
        q = q.replace("[T]", "slice").replace("[T; N]", "array")
        r = "::".join(q.split("::")[-2:])
        _memo[p] = r
    return r


def lookup(ref, target):
    if "trait" in ref:
        n = "%s::%s" % (ref["trait"].split("::")[-1], ref["method"])
        ext = ref["trait"].split("::")[0] in ("core", "alloc", "std", "rayon", "num_traits") or n in MODELS and n.startswith("OneZero")
        if not ext:
            return None
        if target is not None and not target.j.get("derived") and n not in ALWAYS:
            return None
        return MODELS.get(n)
    p = ref.get("path", "")
    if target is not None:
        return None
    return MODELS.get(norm(p))


ALWAYS = {"Clone::clone", "Fn::call", "FnMut::call_mut", "FnOnce::call_once", "OneZero::zero", "OneZero::one"}


def A(ctx, st, v):
    return ctx.deep(st, v)


def S(ctx, st, v):
    return as_scalar(ctx.deep(st, v))


# ------------------------------------------------------------------ identities
@model("Clone::clone", "ToOwned::to_owned", "Into::into", "hint::must_use", "hint::black_box", "Borrow::borrow", "AsRef::as_ref",
       "slice::as_slice", "Vec::as_slice", "array::as_slice", "String::as_str", "String::as_bytes", "str::as_bytes", "slice::to_vec",
       "Box::new", "Arc::new", "Rc::new", "Mutex::new", "RefCell::new", "RwLock::new", "Option::as_ref", "Option::as_deref",
       "Option::cloned", "Option::copied", "Result::cloned", "Result::copied", "Result::as_ref", "slice::into_vec", "Vec::into_boxed_slice", "convert::identity",
       "Path::new", "TryInto::try_into#id", "Result::ok#no", "str::to_string", "String::into_bytes", "Cow::into_owned", "Wrapping", "Cell::new",
       "Iterator::cloned", "Iterator::copied", "Iterator::by_ref#no", "Iterator::fuse", "String::from", "str::to_owned",
       "ParallelIterator::cloned", "ParallelIterator::copied", "str::as_str")
def m_id(ctx, st, ref, args, dty):
    n = ref.get("method")
    if n == "into":
        ta = ref.get("targs") or []
        if len(ta) == 2:
            f = find_from(ctx, ta[0], ta[1])
            if f is not None:
                return ctx.callfn(st, f, {"key": f.key}, args, dty)
            if is_num(strip_ref(ta[0])) and not is_num(ta[1]):
                return ctx.opaque_call(st, "into:" + tyname(ta[1]), args, dty)
    v = args[0]
    if isinstance(v, (VRef, VRefs)) and n not in ("into", "borrow") and norm(ref.get("path", "")) not in (
            "hint::must_use", "hint::black_box", "Box::new", "Arc::new", "Rc::new", "Mutex::new", "Option::as_ref"):
        return ctx.load(st, v)
    if isinstance(v, VStruct) and v.key == "&" and n in ("clone", "borrow", "as_ref"):
        return ctx.load(st, v.f["0"])
    if norm(ref.get("path", "")) in ("Option::as_ref", "Option::as_deref", "Result::as_ref"):
        return A(ctx, st, v)
    return v


def find_from(ctx, src, dst):
    idx = getattr(ctx.prog, "_froms", None)
    if idx is None:
        idx = {}
        for f in ctx.prog.fns.values():
            if f.trait == "core::convert::From" and f.name == "from" and f.traitargs:
                idx.setdefault((head(f.self_), head(strip_ref(f.traitargs[0]))), []).append(f)
        ctx.prog._froms = idx
    l = idx.get((head(dst), head(strip_ref(src))), [])
    return l[0] if len(l) == 1 else None


@model("From::from")
def m_from(ctx, st, ref, args, dty):
    ta = ref.get("targs") or []
    if len(ta) == 2:
        f = find_from(ctx, ta[1], ta[0])
        if f is not None:
            return ctx.callfn(st, f, {"key": f.key}, args, dty)
        if is_num(ta[0]) and is_num(ta[1]):
            return ctx.cast("IntToFloat" if is_float(ta[0]) and is_int(ta[1]) else "IntToInt" if is_int(ta[0]) else "FloatToFloat",
                            args[0], ta[0], ta[1])
        return args[0]
    return args[0]


@model("TryInto::try_into", "TryFrom::try_from")
def m_tryinto(ctx, st, ref, args, dty):
    v = S(ctx, st, args[0])
    c = bind(v, lambda t: t if t is DC else TRUE if t.op == "k" and t.val >= 0 else t_bool(sym("fits", t)))
    return result(c, args[0])


@model("ToString::to_string")
def m_tostring(ctx, st, ref, args, dty):
    s = strip_ref(ref.get("self"))
    if s == "str" or head(s) in ("alloc::string::String", "alloc::borrow::Cow"):
        return A(ctx, st, args[0])
    return lift("to_string", lambda t: sym("to_string", t), S(ctx, st, args[0]))


@model("Deref::deref")
def m_deref(ctx, st, ref, args, dty):
    v = args[0]
    if isinstance(v, VStruct) and v.key == "&":
        v = v.f["0"]
    if isinstance(v, (VRef, VRefs)):
        return ctx.load(st, v)
    return v


@model("DerefMut::deref_mut", "AsMut::as_mut", "Vec::as_mut_slice", "BorrowMut::borrow_mut", "array::as_mut_slice")
def m_derefmut(ctx, st, ref, args, dty):
    v = args[0]
    if isinstance(v, VRef):
        x = ctx.load(st, v)
        if isinstance(x, (VRef, VRefs)):
            return x
    return v


@model("Box::new_uninit")
def m_newuninit(ctx, st, ref, args, dty):
    root = ("H", next(ctx.fid))
    st.mem[root] = DC
    return VRef(root)


@model("boxed::box_assume_init_into_vec_unsafe")
def m_boxinit(ctx, st, ref, args, dty):
    return ctx.load(st, args[0])


@model("Mutex::lock", "RwLock::write", "RwLock::read")
def m_lock(ctx, st, ref, args, dty):
    v = args[0]
    if isinstance(v, (VRef, VRefs)):
        return ok(v)
    t = as_scalar(ctx.deep(st, v))
    root = ("M", t.fp)
    ctx.mterms[root] = field(t, "locked") if isinstance(t, T) and t.op != "val" else v
    return ok(VRef(root))


@model("Mutex::get_mut", "Arc::get_mut", "RefCell::get_mut")
def m_getmut(ctx, st, ref, args, dty):
    if norm(ref["path"]).startswith("Arc"):
        return some(args[0])
    return ok(args[0])


@model("OnceLock::get_or_init", "OnceLock::new")
def m_once(ctx, st, ref, args, dty):
    if len(args) < 2:
        return const("oncelock", "new")
    return ctx.callv(st, args[1], [])


@model("mem::swap")
def m_swap(ctx, st, ref, args, dty):
    a, b = ctx.load(st, args[0]), ctx.load(st, args[1])
    ctx.store(st, args[0], b)
    ctx.store(st, args[1], a)
    return UNIT


@model("mem::replace")
def m_replace(ctx, st, ref, args, dty):
    a = ctx.load(st, args[0])
    ctx.store(st, args[0], args[1])
    return a


@model("mem::take", "Option::take")
def m_take(ctx, st, ref, args, dty):
    a = ctx.load(st, args[0])
    if norm(ref["path"]) == "Option::take" or isinstance(a, VEnum):
        ctx.store(st, args[0], NONE)
    else:
        ctx.store(st, args[0], sym("default"))
    return a


@model("mem::drop", "Vec::reserve", "Vec::shrink_to_fit", "io::_eprint", "Formatter::width", "String::reserve", "String::shrink_to_fit")
def m_unit(ctx, st, ref, args, dty):
    return UNIT


@model("io::_print", "fs::write", "fs::create_dir_all", "fs::create_dir")
def m_effect(ctx, st, ref, args, dty):
    return ctx.opaque_call(st, norm(ref["path"]), args, dty, effect=True)


@model("panicking::panic", "panicking::panic_fmt", "rt::panic_fmt", "rt::panic_display", "panicking::assert_failed",
       "panicking::unreachable_default_msg", "panicking::unimplemented_default_msg", "panicking::todo_default_msg", "rt::begin_panic",
       "panicking::unreachable_display", "panicking::panic_explicit", "panicking::panic_display", "panicking::panic_str_2015",
       "panicking::panic_bounds_check", "panicking::assert_failed_inner", "hint::unreachable_unchecked", "panicking::panic_nounwind",
       "option::expect_failed", "option::unwrap_failed", "result::unwrap_failed", "panicking::panic_str")
def m_panic(ctx, st, ref, args, dty):
    ctx.panics.append((ctx.stack[-1].fn.key if ctx.stack else "?", ctx.curpc()))
    return None


@model("process::exit")
def m_exit(ctx, st, ref, args, dty):
    ctx.calls.append(("process::exit", tuple(as_scalar(A(ctx, st, a)) for a in args), ctx.curpc()))
    return None


# ------------------------------------------------------------------ numbers
def num1(name, fold=None):
    def f(ctx, st, ref, args, dty):
        def g(t):
            if fold is not None and t.op == "k":
                r = fold(t.val)
                if r is not None:
                    return num(r)
            return sym(name, t)
        return lift(name, g, S(ctx, st, args[0]))
    return f


def isqrt(v):
    from math import isqrt as q
    if v >= 0:
        a, b = q(v.numerator), q(v.denominator)
        if a * a == v.numerator and b * b == v.denominator:
            return Fraction(a, b)
    return None


for _n, _f in (("sqrt", isqrt), ("exp", lambda v: 1 if v == 0 else None), ("ln", lambda v: 0 if v == 1 else None), ("log10", None),
               ("log2", None), ("exp2", None), ("sin", lambda v: 0 if v == 0 else None), ("cos", lambda v: 1 if v == 0 else None),
               ("tan", lambda v: 0 if v == 0 else None), ("asin", None), ("acos", None), ("atan", None), ("sinh", None), ("cosh", None),
               ("tanh", None), ("floor", lambda v: v.__floor__()), ("ceil", lambda v: v.__ceil__()),
               ("round", lambda v: (v + Fraction(1, 2)).__floor__() if v >= 0 else -((-v + Fraction(1, 2)).__floor__())),
               ("trunc", None), ("fract", None), ("signum", None), ("cbrt", None), ("exp_m1", None), ("ln_1p", None), ("to_bits", None),
               ("from_bits", None)):
    for _t in ("f64", "f32"):
        MODELS["%s::%s" % (_t, _n)] = num1(_n, _f)

PI_ = Fraction("3.141592653589793")


@model("f64::to_radians", "f32::to_radians")
def m_rad(ctx, st, ref, args, dty):
    return m_mul(S(ctx, st, args[0]), num(PI_ / 180))


@model("f64::to_degrees", "f32::to_degrees")
def m_deg(ctx, st, ref, args, dty):
    return m_mul(S(ctx, st, args[0]), num(180 / PI_))


@model("f64::abs", "f32::abs", "i32::abs", "i64::abs", "isize::abs")
def m_absm(ctx, st, ref, args, dty):
    return m_abs(S(ctx, st, args[0]), norm(ref["path"])[0] == "i")


@model("f64::max", "f32::max", "Ord::max", "cmp::max")
def m_maxm(ctx, st, ref, args, dty):
    return m_max(S(ctx, st, args[0]), S(ctx, st, args[1]), "Ord" in ref.get("path", "") or "cmp" in ref.get("path", ""))


@model("f64::min", "f32::min", "Ord::min", "cmp::min")
def m_minm(ctx, st, ref, args, dty):
    return m_min(S(ctx, st, args[0]), S(ctx, st, args[1]), "Ord" in ref.get("path", "") or "cmp" in ref.get("path", ""))


@model("f64::clamp", "f32::clamp", "Ord::clamp")
def m_clamp(ctx, st, ref, args, dty):
    i = "Ord" in ref.get("path", "")
    x, lo, hi = (S(ctx, st, a) for a in args)
    return m_ite(m_cmp("Lt", x, lo, i), lo, m_ite(m_cmp("Gt", x, hi, i), hi, x))


@model("f64::powi", "f32::powi", "usize::pow", "u32::pow", "i32::pow", "u64::pow", "u8::pow")
def m_powi(ctx, st, ref, args, dty):
    def f(x, n):
        if n.op == "k" and abs(n.val) < 64 and n.val.denominator == 1:
            return t_pow(x, int(n.val))
        return sym("powf", x, n)
    return lift("powi", f, S(ctx, st, args[0]), S(ctx, st, args[1]))


@model("f64::powf", "f32::powf")
def m_powf(ctx, st, ref, args, dty):
    def f(x, n):
        if n.op == "k":
            if n.val.denominator == 1 and abs(n.val) < 64:
                return t_pow(x, int(n.val))
            if n.val == Fraction(1, 2):
                return sym("sqrt", x)
        return sym("powf", x, n)
    return lift("powf", f, S(ctx, st, args[0]), S(ctx, st, args[1]))


@model("f64::mul_add", "f32::mul_add")
def m_muladd(ctx, st, ref, args, dty):
    a, b, c = (S(ctx, st, x) for x in args)
    return m_add(m_mul(a, b), c)


@model("f64::recip", "f32::recip")
def m_recip(ctx, st, ref, args, dty):
    return m_div(num(1), S(ctx, st, args[0]))


@model("f64::hypot")
def m_hypot(ctx, st, ref, args, dty):
    a, b = (S(ctx, st, x) for x in args)
    return lift("sqrt", lambda t: sym("sqrt", t), m_add(m_mul(a, a), m_mul(b, b)))


@model("f64::atan2", "f32::atan2", "f64::copysign", "f64::rem_euclid", "usize::rem_euclid", "f64::log", "f64::div_euclid")
def m_num2(ctx, st, ref, args, dty):
    n = norm(ref["path"]).split("::")[-1]
    return lift(n, lambda a, b: sym(n, a, b), S(ctx, st, args[0]), S(ctx, st, args[1]))


@model("f64::sin_cos", "f32::sin_cos")
def m_sincos(ctx, st, ref, args, dty):
    x = S(ctx, st, args[0])
    return VStruct("tuple", {"0": MODELS["f64::sin"](ctx, st, ref, [x], dty), "1": MODELS["f64::cos"](ctx, st, ref, [x], dty)})


@model("f64::is_nan", "f32::is_nan")
def m_isnan(ctx, st, ref, args, dty):
    return as_bool(lift("is_nan", lambda t: FALSE if t.op == "k" else sym("is_nan", t), S(ctx, st, args[0])))


@model("f64::is_finite", "f32::is_finite")
def m_isfinite(ctx, st, ref, args, dty):
    x = S(ctx, st, args[0])
    nan = as_bool(lift("is_nan", lambda t: FALSE if t.op == "k" else sym("is_nan", t), x))
    inf = as_bool(lift("is_infinite", lambda t: FALSE if t.op == "k" else sym("is_infinite", t), x))
    return m_not(m_or(nan, inf))


@model("f64::is_infinite", "f32::is_infinite", "f64::is_sign_negative", "f64::is_sign_positive")
def m_isinf(ctx, st, ref, args, dty):
    n = norm(ref["path"]).split("::")[-1]
    return as_bool(lift(n, lambda t: (FALSE if n == "is_infinite" else TRUE) if t.op == "k" and "finite" in n else sym(n, t), S(ctx, st, args[0])))


@model("usize::abs_diff", "u8::abs_diff", "u32::abs_diff", "i32::abs_diff")
def m_absdiff(ctx, st, ref, args, dty):
    return m_abs(m_sub(S(ctx, st, args[0]), S(ctx, st, args[1])), True)


@model("usize::saturating_sub", "u8::saturating_sub", "u32::saturating_sub")
def m_satsub(ctx, st, ref, args, dty):
    a, b = S(ctx, st, args[0]), S(ctx, st, args[1])
    return m_ite(m_cmp("Lt", a, b, True), num(0, True), m_sub(a, b))


@model("usize::wrapping_add", "usize::wrapping_sub", "usize::wrapping_mul", "u32::wrapping_add", "u8::wrapping_add", "usize::saturating_add",
       "i32::wrapping_sub", "u32::wrapping_sub")
def m_wrap(ctx, st, ref, args, dty):
    a, b = S(ctx, st, args[0]), S(ctx, st, args[1])
    n = norm(ref["path"])
    return (m_add if n.endswith("add") else m_sub if n.endswith("sub") else m_mul)(a, b)


@model("usize::checked_sub", "u8::checked_sub", "u32::checked_sub")
def m_checked_sub(ctx, st, ref, args, dty):
    a, b = S(ctx, st, args[0]), S(ctx, st, args[1])
    return option(m_not(m_cmp("Lt", a, b, True)), m_sub(a, b))


@model("usize::checked_add", "usize::checked_mul")
def m_checked_add(ctx, st, ref, args, dty):
    a, b = S(ctx, st, args[0]), S(ctx, st, args[1])
    return some((m_add if "add" in ref["path"] else m_mul)(a, b))


@model("OneZero::zero")
def m_zero(ctx, st, ref, args, dty):
    s = ref.get("self")
    if head(s) in ("f64", "f32", "param") or is_num(s):
        return num(0)
    return PASS


@model("OneZero::one")
def m_one(ctx, st, ref, args, dty):
    s = ref.get("self")
    if head(s) in ("f64", "f32", "param") or is_num(s):
        return num(1)
    return PASS


def numlike(ty):
    ty = strip_ref(ty)
    return is_num(ty) or head(ty) in ("param", "other")


def arith(name, f):
    def g(ctx, st, ref, args, dty):
        if not numlike(ref.get("self")):
            return PASS
        a = S(ctx, st, args[0])
        b = S(ctx, st, args[1])
        ty = strip_ref(ref.get("self"))
        return ctx.binop(f, a, b, ty, st)
    return g


def arith_assign(f):
    def g(ctx, st, ref, args, dty):
        if not numlike(ref.get("self")):
            return PASS
        a = S(ctx, st, args[0])
        b = S(ctx, st, args[1])
        ctx.store(st, args[0], ctx.binop(f, a, b, strip_ref(ref.get("self")), st))
        return UNIT
    return g


for _n, _o in (("Add", "Add"), ("Sub", "Sub"), ("Mul", "Mul"), ("Div", "Div"), ("Rem", "Rem"), ("BitAnd", "BitAnd"), ("BitOr", "BitOr"),
               ("BitXor", "BitXor"), ("Shl", "Shl"), ("Shr", "Shr")):
    MODELS["%s::%s" % (_n, _n.lower() if _n[:3] != "Bit" else _n.lower())] = arith(_n, _o)
    MODELS["%sAssign::%s_assign" % (_n, _n.lower())] = arith_assign(_o)
for _n in ("BitAnd", "BitOr", "BitXor"):
    MODELS["%s::%s" % (_n, _n.lower())] = arith(_n, _n)


@model("Neg::neg")
def m_negm(ctx, st, ref, args, dty):
    if not numlike(ref.get("self")):
        return PASS
    return m_neg(S(ctx, st, args[0]))


@model("Not::not")
def m_notm(ctx, st, ref, args, dty):
    if strip_ref(ref.get("self")) != "bool":
        return PASS
    return m_not(as_bool(S(ctx, st, args[0])))


# ------------------------------------------------------------------ comparison
def eq_val(ctx, a, b, ty):
    ty = strip_ref(ty)
    if is_num(ty):
        return m_cmp("Eq", as_scalar(a), as_scalar(b), is_int(ty) or ty == "char")
    if ty == "bool":
        x, y = as_bool(as_scalar(a)), as_bool(as_scalar(b))
        return m_ite(x, y, m_not(y))
    h = head(ty)
    if h in W.enums and (isinstance(a, VEnum) or isinstance(b, VEnum) or all(not fs for _, fs in W.enums[h])):
        ea, eb = expand_enum(a, h), expand_enum(b, h)
        if ea is not None and eb is not None:
            r = apply(None, lambda x, y: DC if x is DC or y is DC else TRUE if x is y else FALSE, ea.d, eb.d)
            for vn, fs in W.enums[h]:
                for n in fs:
                    x, y = ea.pay.get(vn, {}).get(n), eb.pay.get(vn, {}).get(n)
                    if x is None or y is None or x is DC or y is DC:
                        continue
                    fty = W.ftypes.get((h, vn, n))
                    if h == OPTION and isinstance(ty, list) and len(ty) > 2:
                        fty = ty[2]
                    e = eq_val(ctx, x, y, fty)
                    r = m_ite(m_and(ea.isv(vn), eb.isv(vn)), m_and(r, e), r)
            return r
    if h in W.structs and (isinstance(a, VStruct) or isinstance(b, VStruct)) or h == "tuple":
        names = [n for n, _ in W.structs[h]] if h in W.structs else [str(i) for i in range(len(ty) - 1)]
        r = TRUE
        for i, n in enumerate(names):
            fty = W.ftypes.get((h, None, n)) if h in W.structs else ty[1 + i]
            r = m_and(r, eq_val(ctx, field(a, n, h), field(b, n, h), fty))
        return r
    if ty is None and isinstance(a, T) and isinstance(b, T) and (a.isint or b.op == "k"):
        return m_cmp("Eq", a, b, False)
    return m_eqc(as_scalar(a), as_scalar(b))


@model("PartialEq::eq", "PartialEq::ne")
def m_eq(ctx, st, ref, args, dty):
    ty = strip_ref(ref.get("self"))
    a, b = A(ctx, st, args[0]), A(ctx, st, args[1])
    if head(ty) == "param":
        r = m_cmp("Eq", as_scalar(a), as_scalar(b), False)
    else:
        r = eq_val(ctx, a, b, ty)
    return m_not(r) if ref["method"] == "ne" else r


@model("Ord::cmp", "PartialOrd::partial_cmp", "f64::total_cmp")
def m_cmpm(ctx, st, ref, args, dty):
    ty = strip_ref(ref.get("self")) if "self" in ref else "f64"
    a, b = A(ctx, st, args[0]), A(ctx, st, args[1])
    if is_num(ty) or head(ty) == "param":
        r = cmp_ordering(as_scalar(a), as_scalar(b), is_int(ty) or ty == "char")
        return some(r) if ref.get("method") == "partial_cmp" else r
    if ref.get("derived"):
        return PASS
    return PASS


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def m_lt(ctx, st, ref, args, dty):
    ty = strip_ref(ref.get("self"))
    op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[ref["method"]]
    if is_num(ty) or head(ty) == "param":
        return m_cmp(op, S(ctx, st, args[0]), S(ctx, st, args[1]), is_int(ty))
    k = ctx.prog.resolve_trait("core::cmp::PartialOrd", "partial_cmp", ty)
    if k and k in ctx.prog.fns:
        r = ctx.callfn(st, ctx.prog.fns[k], {"key": k}, args)
        r = expand_enum(r, OPTION)
        if r is not None:
            o = expand_enum(r.pay.get("Some", {}).get("0", DC), "core::cmp::Ordering")
            okv = {"Lt": ("Less",), "Le": ("Less", "Equal"), "Gt": ("Greater",), "Ge": ("Greater", "Equal")}[op]
            if o is not None:
                c = apply(None, lambda t: DC if t is DC else TRUE if t.val in okv else FALSE, o.d)
                return m_and(r.isv("Some"), c)
    return PASS


@model("Ordering::is_lt", "Ordering::is_le", "Ordering::is_gt", "Ordering::is_ge", "Ordering::is_eq", "Ordering::is_ne")
def m_ordis(ctx, st, ref, args, dty):
    n = norm(ref["path"]).split("::")[1]
    okv = {"is_lt": ("Less",), "is_le": ("Less", "Equal"), "is_gt": ("Greater",), "is_ge": ("Greater", "Equal"), "is_eq": ("Equal",),
           "is_ne": ("Less", "Greater")}[n]
    o = expand_enum(A(ctx, st, args[0]), "core::cmp::Ordering")
    return apply(None, lambda t: DC if t is DC else TRUE if t.val in okv else FALSE, o.d)


@model("Ordering::then", "Ordering::then_with", "Ordering::reverse")
def m_ordthen(ctx, st, ref, args, dty):
    key = "core::cmp::Ordering"
    o = expand_enum(A(ctx, st, args[0]), key)
    if o is None:
        return PASS
    n = norm(ref["path"]).split("::")[1]
    if n == "reverse":
        swap = {"Less": "Greater", "Greater": "Less"}
        return VEnum(key, apply(None, lambda t: t if t is DC else string(swap.get(t.val, t.val)), o.d), o.pay)
    eq = o.isv("Equal")
    if n == "then":
        r = A(ctx, st, args[1])
    else:
        r = ctx.under(st, eq, lambda s: ctx.callv(s, args[1], []))
    r = expand_enum(r, key)
    if r is None:
        return PASS
    return VEnum(key, m_ite(eq, r.d, o.d), o.pay)


@model("intrinsics::discriminant_value", "mem::discriminant")
def m_discr(ctx, st, ref, args, dty):
    v = A(ctx, st, args[0])
    ta = strip_ref((ref.get("targs") or [None])[0])
    h = head(ta)
    if h in W.enums:
        names = [(str(i), n) for i, (n, _) in enumerate(W.enums[h])]
        return ctx.discr(v, h, names)
    return PASS


@model("RangeInclusive::new")
def m_rinew(ctx, st, ref, args, dty):
    return VStruct("core::ops::range::RangeInclusive", {"start": args[0], "end": args[1]})


@model("RangeInclusive::contains", "Range::contains")
def m_rcontains(ctx, st, ref, args, dty):
    r = A(ctx, st, args[0])
    x = S(ctx, st, args[1])
    isint = is_int(strip_ref((ref.get("targs") or ["f64"])[0]))
    lo, hi = as_scalar(field(r, "start")), as_scalar(field(r, "end"))
    return m_and(m_not(m_cmp("Lt", x, lo, isint)),
                 m_cmp("Le" if "Inclusive" in ref["path"] else "Lt", x, hi, isint))


# ------------------------------------------------------------------ Option / Result
def shallow(ctx, st, v):
    """the enum itself; mutable references it carries stay references"""
    k = 0
    while (isinstance(v, (VRef, VRefs)) or isinstance(v, VStruct) and v.key == "&") and k < 8:
        v = ctx.load(st, v)
        k += 1
    if isinstance(v, VEnum) and any(isinstance(x, (VRef, VRefs)) for fs in v.pay.values() for x in fs.values()):
        return v
    return A(ctx, st, v)


def opt(ctx, st, v):
    v = shallow(ctx, st, v)
    return expand_enum(v, OPTION)


def res(ctx, st, v):
    v = shallow(ctx, st, v)
    return expand_enum(v, RESULT)


def any_enum(ctx, st, v, path):
    return res(ctx, st, v) if "esult" in path else opt(ctx, st, v)


def good(e):
    return e.isv("Some" if e.key == OPTION else "Ok")


def payload(e):
    return e.pay.get("Some" if e.key == OPTION else "Ok", {}).get("0", DC)


@model("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err")
def m_issome(ctx, st, ref, args, dty):
    e = any_enum(ctx, st, args[0], ref["path"])
    c = good(e)
    return c if norm(ref["path"]).split("::")[1] in ("is_some", "is_ok") else m_not(c)


@model("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Option::unwrap_unchecked")
def m_unwrap(ctx, st, ref, args, dty):
    v = args[0]
    e = expand_enum(v, RESULT if "esult" in ref["path"] else OPTION) if not isinstance(v, (VRef, VRefs)) else any_enum(ctx, st, v, ref["path"])
    c = good(e)
    if c is FALSE:
        return None
    ctx.unwraps.append((m_not(c), ctx.curpc()))
    p = payload(e)
    return p


@model("Option::as_mut", "Option::as_deref_mut")
def m_asmut(ctx, st, ref, args, dty):
    e = opt(ctx, st, args[0])
    if isinstance(args[0], VRef):
        return option(good(e), VRef(args[0].root, args[0].path + (("vf", "Some", "0", OPTION),)))
    return e


@model("Option::unwrap_or", "Result::unwrap_or", "Option::unwrap_or_default", "Result::unwrap_or_default")
def m_unwrapor(ctx, st, ref, args, dty):
    e = any_enum(ctx, st, args[0], ref["path"])
    d = args[1] if len(args) > 1 else default_of(ctx, st, dty)
    return ite(good(e), payload(e), d)


@model("Option::unwrap_or_else", "Result::unwrap_or_else")
def m_unwraporelse(ctx, st, ref, args, dty):
    e = any_enum(ctx, st, args[0], ref["path"])
    c = m_not(good(e))
    d = ctx.under(st, c, lambda s: ctx.callv(s, args[1], [ERR] if e.key == RESULT else []))
    return ite(good(e), payload(e), d)


@model("Option::map", "Result::map")
def m_map(ctx, st, ref, args, dty):
    e = any_enum(ctx, st, args[0], ref["path"])
    c = good(e)
    x = ctx.under(st, c, lambda s: ctx.callv(s, args[1], [payload(e)]))
    return option(c, x) if e.key == OPTION else result(c, x)


@model("Option::and_then", "Result::and_then")
def m_andthen(ctx, st, ref, args, dty):
    e = any_enum(ctx, st, args[0], ref["path"])
    c = good(e)
    x = ctx.under(st, c, lambda s: ctx.callv(s, args[1], [payload(e)]))
    return ite(c, x, NONE if e.key == OPTION else err())


@model("Option::or_else", "Option::or", "Result::or_else", "Result::or")
def m_orelse(ctx, st, ref, args, dty):
    e = any_enum(ctx, st, args[0], ref["path"])
    c = good(e)
    if norm(ref["path"]).endswith("_else"):
        x = ctx.under(st, m_not(c), lambda s: ctx.callv(s, args[1], [ERR] if e.key == RESULT else []))
    else:
        x = A(ctx, st, args[1])
    return ite(c, e, x)


@model("Option::filter")
def m_ofilter(ctx, st, ref, args, dty):
    e = opt(ctx, st, args[0])
    c = good(e)
    x = ctx.under(st, c, lambda s: ctx.callv(s, args[1], [payload(e)]))
    return option(m_and(c, as_bool(as_scalar(x))), payload(e))


@model("Option::map_or", "Option::map_or_else", "Result::map_or", "Option::is_some_and", "Option::is_none_or", "Result::is_ok_and", "Result::map_or_else")
def m_mapor(ctx, st, ref, args, dty):
    n = norm(ref["path"])
    e = any_enum(ctx, st, args[0], n)
    c = good(e)
    if n.endswith("is_some_and") or n.endswith("is_ok_and") or n.endswith("is_none_or"):
        f, d = args[1], (TRUE if n.endswith("none_or") else FALSE)
    elif n.endswith("or_else"):
        f = args[2]
        d = ctx.under(st, m_not(c), lambda s: ctx.callv(s, args[1], [ERR] if e.key == RESULT else []))
    else:
        f, d = args[2], args[1]
    x = ctx.under(st, c, lambda s: ctx.callv(s, f, [payload(e)]))
    return ite(c, x, d)


@model("Option::ok_or", "Option::ok_or_else")
def m_okor(ctx, st, ref, args, dty):
    e = opt(ctx, st, args[0])
    return result(good(e), payload(e))


@model("Result::ok")
def m_ok(ctx, st, ref, args, dty):
    e = res(ctx, st, args[0])
    return option(good(e), payload(e))


@model("Result::err")
def m_err(ctx, st, ref, args, dty):
    e = res(ctx, st, args[0])
    return option(m_not(good(e)), ERR)


@model("Result::map_err")
def m_maperr(ctx, st, ref, args, dty):
    return res(ctx, st, args[0])


@model("Option::insert", "Option::replace")
def m_optins(ctx, st, ref, args, dty):
    old = ctx.load(st, args[0])
    ctx.store(st, args[0], some(args[1]))
    if norm(ref["path"]).endswith("replace"):
        return old
    return VRef(args[0].root, args[0].path + (("vf", "Some", "0", OPTION),)) if isinstance(args[0], VRef) else args[1]


@model("Option::zip")
def m_optzip(ctx, st, ref, args, dty):
    a, b = opt(ctx, st, args[0]), opt(ctx, st, args[1])
    return option(m_and(good(a), good(b)), VStruct("tuple", {"0": payload(a), "1": payload(b)}))


@model("bool::then", "bool::then_some")
def m_then(ctx, st, ref, args, dty):
    c = as_bool(S(ctx, st, args[0]))
    if norm(ref["path"]).endswith("some"):
        return option(c, args[1])
    return option(c, ctx.under(st, c, lambda s: ctx.callv(s, args[1], [])))


CF = "core::ops::control_flow::ControlFlow"


@model("Try::branch")
def m_branch(ctx, st, ref, args, dty):
    h = head(strip_ref(ref.get("self")))
    e = expand_enum(args[0], h)
    if e is None:
        return PASS
    if h == CF:
        return e
    g = "Some" if h == OPTION else "Ok"
    d = apply(None, lambda t: DC if t is DC else string("Continue") if t.val == g else string("Break"), e.d)
    return VEnum(CF, d, {"Continue": {"0": payload(e)}, "Break": {"0": NONE if h == OPTION else err()}})


@model("FromResidual::from_residual", "Try::from_output")
def m_fromres(ctx, st, ref, args, dty):
    h = head(strip_ref(ref.get("self")))
    if ref["method"] == "from_output":
        return some(args[0]) if h == OPTION else ok(args[0])
    return NONE if h == OPTION else err()


def default_of(ctx, st, ty):
    ty = strip_ref(ty)
    if is_num(ty):
        return num(0, is_int(ty))
    if ty == "bool":
        return FALSE
    h = head(ty)
    if h == OPTION:
        return NONE
    if h == "alloc::vec::Vec":
        return EMPTYVEC
    if h == "alloc::string::String" or ty == "str":
        return string("")
    if h in MAPS:
        return EMPTYMAP
    if h in ("std::sync::poison::mutex::Mutex", "std::sync::Mutex", "alloc::sync::Arc", "alloc::boxed::Box") and len(ty) > 2:
        return default_of(ctx, st, ty[2])
    if h == "array":
        n = ty[2].split("_")[0]
        if n.isdigit() and int(n) <= 64:
            return VStruct("array", {str(i): default_of(ctx, st, ty[1]) for i in range(int(n))})
    if h == "tuple":
        return VStruct("tuple", {str(i): default_of(ctx, st, t) for i, t in enumerate(ty[1:])}) if len(ty) > 1 else UNIT
    k = ctx.prog.resolve_trait("core::default::Default", "default", ty)
    if k and k in ctx.prog.fns:
        return ctx.callfn(st, ctx.prog.fns[k], {"key": k}, [])
    return sym("default:" + tyname(ty) if ty is not None else "default")


@model("Default::default")
def m_default(ctx, st, ref, args, dty):
    ty = ref.get("self")
    k = ref.get("res")
    if k in ctx.prog.fns:
        return PASS
    return default_of(ctx, st, ty)


# ------------------------------------------------------------------ sequences
@model("Vec::new", "Vec::with_capacity")
def m_vecnew(ctx, st, ref, args, dty):
    return EMPTYVEC


@model("String::new", "String::with_capacity")
def m_strnew(ctx, st, ref, args, dty):
    return string("")


@model("vec::from_elem")
def m_fromelem(ctx, st, ref, args, dty):
    x, n = args
    n = as_scalar(n)
    if isinstance(n, T) and n.op == "k" and n.val <= 24:
        return VStruct("array", {str(i): x for i in range(int(n.val))})
    return map_leaves(n, lambda t: DC if t is DC else map_leaves(as_scalar(x), lambda y: sym("repeat", y, t)))


@model("Vec::push", "String::push", "VecDeque::push_back")
def m_push(ctx, st, ref, args, dty):
    v = ctx.load(st, args[0])
    ctx.store(st, args[0], seq_push(v, ctx.deep(st, args[1])))
    return UNIT


@model("String::push_str")
def m_pushstr(ctx, st, ref, args, dty):
    v = as_scalar(ctx.load(st, args[0]))
    x = S(ctx, st, args[1])
    ctx.store(st, args[0], lift("concat", t_concat, v, x))
    return UNIT


def t_concat(a, b):
    if a.op == "c" and a.args[0] == "str" and b.op == "c" and b.args[0] == "str":
        return string(a.val + b.val)
    if a.op == "c" and a.args[0] == "str" and a.val == "":
        return b
    if b.op == "c" and b.args[0] == "str" and b.val == "":
        return a
    if a.op == "emptyvec":
        return b
    if b.op == "emptyvec":
        return a
    if b.op == "concat":
        return t_concat(t_concat(a, b.args[0]), b.args[1])
    if a.op == "concat" and b.op == "c" and a.args[1].op == "c":
        return t_concat(a.args[0], string(a.args[1].val + b.val))
    return sym("concat", a, b)


@model("Vec::len", "slice::len", "String::len", "str::len", "VecDeque::len", "array::len", "HashMap::len")
def m_len(ctx, st, ref, args, dty):
    return seq_len(A(ctx, st, args[0]))


@model("Vec::is_empty", "slice::is_empty", "String::is_empty", "str::is_empty", "HashMap::is_empty")
def m_isempty(ctx, st, ref, args, dty):
    return m_cmp("Eq", seq_len(A(ctx, st, args[0])), num(0, True), True)


MAPS = ("std::collections::hash::map::HashMap", "alloc::collections::btree::map::BTreeMap")


@model("HashMap::new", "HashMap::with_capacity", "BTreeMap::new")
def m_mapnew(ctx, st, ref, args, dty):
    return EMPTYMAP


@model("HashMap::contains_key", "BTreeMap::contains_key")
def m_maphas(ctx, st, ref, args, dty):
    return map_has(A(ctx, st, args[0]), A(ctx, st, args[1]))


@model("HashMap::get", "BTreeMap::get")
def m_mapget(ctx, st, ref, args, dty):
    m, k = A(ctx, st, args[0]), A(ctx, st, args[1])
    return option(map_has(m, k), map_get(m, k))


@model("HashMap::get_mut", "BTreeMap::get_mut")
def m_mapgetmut(ctx, st, ref, args, dty):
    if not isinstance(args[0], (VRef, VRefs)):
        return PASS
    m, k = A(ctx, st, args[0]), S(ctx, st, args[1])
    return option(map_has(m, k), ctx.ext(args[0], ("k", k)))


@model("HashMap::insert", "BTreeMap::insert")
def m_mapinsert(ctx, st, ref, args, dty):
    if not isinstance(args[0], (VRef, VRefs)):
        return PASS
    m, k = A(ctx, st, args[0]), S(ctx, st, args[1])
    old = option(map_has(m, k), map_get(m, k))
    ctx.store(st, args[0], map_put(m, k, A(ctx, st, args[2])))
    return old


@model("HashMap::entry", "BTreeMap::entry")
def m_mapentry(ctx, st, ref, args, dty):
    if not isinstance(args[0], (VRef, VRefs)):
        return PASS
    return VStruct("mapentry", {"ref": args[0], "key": S(ctx, st, args[1])})


@model("Entry::or_insert", "Entry::or_default", "Entry::or_insert_with")
def m_orinsert(ctx, st, ref, args, dty):
    e = args[0]
    if not isinstance(e, VStruct) or e.key != "mapentry":
        return PASS
    r, k = e.f["ref"], e.f["key"]
    m = A(ctx, st, r)
    has = map_has(m, k)
    nm = norm(ref["path"])
    if nm.endswith("or_insert"):
        v = A(ctx, st, args[1])
    elif nm.endswith("with"):
        v = A(ctx, st, ctx.under(st, m_not(has), lambda s: ctx.callv(s, args[1], [])))
        m = A(ctx, st, r)
    else:
        v = default_of(ctx, st, strip_ref(dty))
        if v is None or v is PASS:
            return PASS
    ctx.store(st, r, m_ite(has, as_scalar(m), map_put(m, k, v)))
    return ctx.ext(r, ("k", k))


def _ascii(*ranges):
    def f(ctx, st, ref, args, dty):
        c = S(ctx, st, args[0])
        r = FALSE
        for lo, hi in ranges:
            r = m_or(r, m_and(m_cmp("Ge", c, num(ord(lo), True), True), m_cmp("Le", c, num(ord(hi), True), True)))
        return r
    return f


for _n, _r in (("is_ascii_digit", ["09"]), ("is_ascii_alphabetic", ["AZ", "az"]), ("is_ascii_alphanumeric", ["09", "AZ", "az"]),
               ("is_ascii_uppercase", ["AZ"]), ("is_ascii_lowercase", ["az"]), ("is_ascii_whitespace", ["\t\n", "\x0c\r", "  "]),
               ("is_ascii", ["\0\x7f"]), ("is_ascii_hexdigit", ["09", "AF", "af"]),
               ("is_ascii_punctuation", ["!/", ":@", "[`", "{~"]), ("is_ascii_graphic", ["!~"])):
    for _m in ("methods", "num", "char", "u8"):
        MODELS["%s::%s" % (_m, _n)] = _ascii(*_r)


@model("Index::index")
def m_index(ctx, st, ref, args, dty):
    v = A(ctx, st, args[0])
    i = A(ctx, st, args[1])
    if head(strip_ref(ref.get("self"))) in MAPS:
        return map_get(v, i)
    if isinstance(i, VStruct) and "ops::range" in i.key:
        lo, hi = range_bounds(ctx, st, i, v)
        return mk_slice(v, lo, hi)
    if isinstance(i, VStruct):
        return v
    return seq_index(v, as_scalar(i))


def range_bounds(ctx, st, i, v):
    k = i.key.split("::")[-1]
    lo = as_scalar(i.f.get("start", num(0, True)))
    hi = as_scalar(i.f["end"]) if "end" in i.f else seq_len(v)
    if "Inclusive" in k:
        hi = m_add(hi, num(1, True))
    return lo, hi


@model("IndexMut::index_mut")
def m_indexmut(ctx, st, ref, args, dty):
    i = A(ctx, st, args[1])
    if isinstance(i, VStruct):
        if "RangeFull" in i.key:
            return args[0]
        return PASS
    r = args[0]
    if isinstance(r, (VRef, VRefs)):
        x = ctx.load(st, r)
        if isinstance(x, (VRef, VRefs)):
            r = x
        return ctx.ext(r, ("i", as_scalar(i)))
    return seq_index(r, as_scalar(i))


def inbounds(v, i):
    return m_cmp("Lt", i, seq_len(v), True)


@model("slice::get", "Vec::get")
def m_get(ctx, st, ref, args, dty):
    v = A(ctx, st, args[0])
    i = A(ctx, st, args[1])
    if isinstance(i, VStruct):
        return PASS
    i = as_scalar(i)
    return option(inbounds(v, i), seq_index(v, i))


@model("slice::get_mut", "Vec::get_mut")
def m_getmutv(ctx, st, ref, args, dty):
    v = A(ctx, st, args[0])
    i = S(ctx, st, args[1])
    if not isinstance(args[0], (VRef, VRefs)):
        return PASS
    return option(inbounds(v, i), ctx.ext(args[0], ("i", i)))


@model("slice::first", "slice::last", "slice::first_mut", "slice::last_mut")
def m_first(ctx, st, ref, args, dty):
    v = A(ctx, st, args[0])
    n = seq_len(v)
    nm = norm(ref["path"])
    i = num(0, True) if "first" in nm else m_sub(n, num(1, True))
    c = m_not(m_cmp("Eq", n, num(0, True), True))
    if nm.endswith("mut") and isinstance(args[0], (VRef, VRefs)):
        return option(c, ctx.ext(args[0], ("i", i)))
    return option(c, seq_index(v, i))


@model("Vec::pop")
def m_pop(ctx, st, ref, args, dty):
    v = ctx.load(st, args[0])
    n = seq_len(v)
    c = m_not(m_cmp("Eq", n, num(0, True), True))
    last = seq_index(v, m_sub(n, num(1, True)))
    ctx.store(st, args[0], map_leaves(as_scalar(v), lambda t: DC if t is DC else t.args[0] if t.op == "push" else t if t.op == "emptyvec" else sym("popped", t)))
    return option(c, last)


@model("Vec::clear", "String::clear")
def m_clear(ctx, st, ref, args, dty):
    ctx.store(st, args[0], EMPTYVEC if "Vec" in ref["path"] else string(""))
    return UNIT


@model("slice::copy_from_slice", "slice::clone_from_slice")
def m_copyfrom(ctx, st, ref, args, dty):
    x = A(ctx, st, args[1])
    if isinstance(args[0], (VRef, VRefs)):
        ctx.store(st, args[0], x)
        return UNIT
    return PASS


@model("array::map")
def m_arrmap(ctx, st, ref, args, dty):
    v = A(ctx, st, args[0])
    if isinstance(v, VStruct) and v.key == "array":
        return VStruct("array", {k: ctx.callv(st, args[1], [v.f[k]]) for k in sorted(v.f, key=int)})
    return materialise(ctx, st, VStruct("it:Map", {"it": mk_seq(as_scalar(v)), "f": args[1]}))


@model("slice::fill")
def m_fill(ctx, st, ref, args, dty):
    v = A(ctx, st, args[0])
    x = A(ctx, st, args[1])
    if isinstance(v, VStruct) and v.key == "array":
        ctx.store(st, args[0], VStruct("array", {k: x for k in v.f}))
    else:
        ctx.store(st, args[0], map_leaves(as_scalar(x), lambda y: sym("repeat", y, seq_len(v))))
    return UNIT


@model("Vec::extend_from_slice", "Vec::append#no", "Extend::extend")
def m_extend(ctx, st, ref, args, dty):
    it = to_iter(ctx, st, args[1], None)
    dst = args[0]

    def body(s, x):
        v = ctx.load(s, dst)
        ctx.store(s, dst, seq_push(v, ctx.deep(s, x)))
        return None
    consume(ctx, st, it, body)
    return UNIT


@model("slice::swap")
def m_sswap(ctx, st, ref, args, dty):
    v = ctx.load(st, args[0])
    i, j = S(ctx, st, args[1]), S(ctx, st, args[2])
    a, b = seq_index(v, i), seq_index(v, j)
    ctx.store(st, args[0], seq_set(seq_set(v, i, b), j, a))
    return UNIT


@model("slice::reverse")
def m_sreverse(ctx, st, ref, args, dty):
    v = ctx.load(st, args[0])
    if isinstance(v, VStruct) and v.key == "array":
        n = len(v.f)
        ctx.store(st, args[0], VStruct("array", {str(i): v.f[str(n - 1 - i)] for i in range(n)}))
        return UNIT
    ctx.store(st, args[0], materialise(ctx, st, VStruct("it:Rev", {"it": mk_seq(as_scalar(v))})))
    return UNIT


@model("slice::contains")
def m_scontains(ctx, st, ref, args, dty):
    return t_bool(sym("contains", S(ctx, st, args[0]), S(ctx, st, args[1])))


@model("slice::windows", "slice::chunks", "slice::chunks_exact", "ParallelSlice::par_chunks", "slice::split", "str::lines", "str::chars",
       "str::bytes", "str::split", "str::split_whitespace", "str::split_ascii_whitespace", "str::char_indices", "HashMap::iter", "HashMap::values",
       "HashMap::keys", "BTreeMap::iter", "HashMap::into_iter")
def m_seqs(ctx, st, ref, args, dty):
    n = norm(ref["path"]).split("::")[-1]
    s = sym(n, *[ctx.opaque_arg(st, a) for a in args])
    return mk_seq(s)


@model("slice::chunks_mut", "slice::chunks_exact_mut", "ParallelSliceMut::par_chunks_mut", "ParallelSliceMut::par_chunks_exact_mut")
def m_chunksmut(ctx, st, ref, args, dty):
    if not isinstance(args[0], (VRef, VRefs)):
        return PASS
    n = norm(ref["path"]).split("::")[-1].replace("_mut", "").replace("par_", "")
    v = as_scalar(ctx.deep(st, args[0]))
    k = A(ctx, st, args[1])
    r = ctx.ext(args[0], ("o", n, 0, (v, as_scalar(k)), None))
    return VStruct("it:SeqMut", {"ref": r, "pos": num(0, True), "end": seq_len(sym(n, v, as_scalar(k)))})


# ------------------------------------------------------------------ iterators
def mk_seq(v):
    return VStruct("it:Seq", {"seq": v, "pos": num(0, True), "end": seq_len(v)})


def mk_range(lo, hi):
    return VStruct("it:Range", {"pos": lo, "end": hi})


def to_iter(ctx, st, v, ty):
    if isinstance(v, VStruct) and v.key == "&":
        v = v.f["0"]
    if isinstance(v, VRef):
        x = ctx.load(st, v)
        if isinstance(x, VStruct) and x.key.startswith("it:"):
            return x  # by_ref: state kept by caller
        if isinstance(x, (VRef, VRefs)):
            v, x = x, ctx.load(st, x)
        return VStruct("it:SeqMut", {"ref": v, "pos": num(0, True), "end": seq_len(x)})
    if isinstance(v, VStruct):
        if v.key.startswith("it:"):
            return v
        if v.key == "core::ops::range::Range":
            return mk_range(as_scalar(v.f["start"]), as_scalar(v.f["end"]))
        if v.key == "core::ops::range::RangeInclusive":
            return mk_range(as_scalar(v.f["start"]), m_add(as_scalar(v.f["end"]), num(1, True)))
        if v.key == "core::ops::range::RangeFrom":
            return VStruct("it:From", {"pos": as_scalar(v.f["start"])})
    if isinstance(v, VEnum) and v.key == OPTION:
        return VStruct("it:Opt", {"o": v})
    if ty is not None:
        h = head(strip_ref(ty))
        if h and "hash::map" in h or h and "btree" in h:
            return mk_seq(sym("entries", as_scalar(v)))
        if h == "core::ops::range::Range":
            return mk_range(as_scalar(field(v, "start")), as_scalar(field(v, "end")))
    return mk_seq(v)


@model("IntoIterator::into_iter", "IntoParallelIterator::into_par_iter", "IntoParallelRefIterator::par_iter", "slice::iter", "Vec::iter",
       "IntoParallelRefMutIterator::par_iter_mut", "slice::iter_mut", "Vec::drain#no", "Option::iter", "Option::into_iter")
def m_intoiter(ctx, st, ref, args, dty):
    ty = ref.get("self")
    h = head(strip_ref(ty)) if ty is not None else None
    if h and ctx.prog.resolve_trait("core::iter::traits::iterator::Iterator", "next", strip_ref(ty)):
        return args[0]
    return to_iter(ctx, st, args[0], ty)


def it_of(ctx, st, v):
    x = v
    if isinstance(x, (VRef, VRefs)):
        x = ctx.load(st, x)
    return to_iter(ctx, st, x, None)


SKIP = string("Skip")


def opt3(o):
    """(some cond, skip cond, payload)"""
    s = o.isv("Some")
    k = o.isv("Skip") if "Skip" in [t.val for t in leaves(o.d)] else FALSE
    return s, k, payload(o)


def mk3(s, k, x):
    d = m_ite(s, string("Some"), string("None"))
    if k is not FALSE:
        d = m_ite(k, SKIP, d)
    return VEnum(OPTION, d, {"Some": {"0": x}, "None": {}})


ONE = num(1, True)


def nxt(ctx, st, it):
    """-> (option value (may have variant Skip), next iterator state)"""
    k = it.key
    f = it.f
    if k == "it:Seq":
        c = m_cmp("Lt", f["pos"], f["end"], True)
        return option(c, seq_index(f["seq"], f["pos"])), VStruct(k, {"seq": f["seq"], "pos": m_add(f["pos"], ONE), "end": f["end"]})
    if k == "it:Range":
        c = m_cmp("Lt", f["pos"], f["end"], True)
        return option(c, f["pos"]), VStruct(k, {"pos": m_add(f["pos"], ONE), "end": f["end"]})
    if k == "it:From":
        return some(f["pos"]), VStruct(k, {"pos": m_add(f["pos"], ONE)})
    if k == "it:SeqMut":
        c = m_cmp("Lt", f["pos"], f["end"], True)
        return option(c, ctx.ext(f["ref"], ("i", f["pos"]))), VStruct(k, {"ref": f["ref"], "pos": m_add(f["pos"], ONE), "end": f["end"]})
    if k == "it:Opt":
        return f["o"], VStruct(k, {"o": NONE})
    if k == "it:Map":
        o, i2 = nxt(ctx, st, f["it"])
        s, sk, x = opt3(o)
        y = ctx.under(st, s, lambda s_: ctx.callv(s_, f["f"], [x]))
        return mk3(s, sk, y), VStruct(k, {"it": i2, "f": f["f"]})
    if k == "it:Enumerate":
        o, i2 = nxt(ctx, st, f["it"])
        s, sk, x = opt3(o)
        n2 = m_add(f["n"], ONE)
        if sk is not FALSE:
            n2 = m_ite(sk, f["n"], n2)
        return mk3(s, sk, VStruct("tuple", {"0": f["n"], "1": x})), VStruct(k, {"it": i2, "n": n2})
    if k == "it:Zip":
        o1, a2 = nxt(ctx, st, f["a"])
        o2, b2 = nxt(ctx, st, f["b"])
        s1, k1, x1 = opt3(o1)
        s2, k2, x2 = opt3(o2)
        if k1 is not FALSE or k2 is not FALSE:
            raise Unsupported("zip of filtered iterators")
        if s1 is not s2 and s1 is not TRUE and s2 is not TRUE:
            # which of the two ends first is not known here; pair.compare retries with
            # "the other is not shorter" (an index loop would have panicked there)
            MODE["zipused"] = True
            if MODE["zip"] == "a":
                s2 = s1
            elif MODE["zip"] == "b":
                s1 = s2
        return option(m_and(s1, s2), VStruct("tuple", {"0": x1, "1": x2})), VStruct(k, {"a": a2, "b": b2})
    if k in ("it:Filter", "it:FilterMap", "it:TakeWhile", "it:MapWhile"):
        o, i2 = nxt(ctx, st, f["it"])
        s, sk, x = opt3(o)
        y = ctx.under(st, s, lambda s_: ctx.callv(s_, f["f"], [x]))
        if k in ("it:FilterMap", "it:MapWhile"):
            e = expand_enum(y, OPTION) if y is not DC else NONE
            g, p = good(e), payload(e)
        else:
            g, p = as_bool(as_scalar(y)), x
        take = m_and(s, g)
        drop = m_and(s, m_not(g))
        if k in ("it:TakeWhile", "it:MapWhile"):
            return mk3(take, sk, p), VStruct(k, {"it": i2, "f": f["f"]})
        return mk3(take, m_or(sk, drop), p), VStruct(k, {"it": i2, "f": f["f"]})
    if k == "it:Rev":
        o, i2 = nxt_back(ctx, st, f["it"])
        return o, VStruct(k, {"it": i2})
    if k == "it:Take":
        c = m_cmp("Gt", f["n"], num(0, True), True)
        o, i2 = nxt(ctx, st, f["it"])
        s, sk, x = opt3(o)
        return mk3(m_and(c, s), m_and(c, sk), x), VStruct(k, {"it": i2, "n": m_sub(f["n"], ONE)})
    if k == "it:Skip":
        c = m_cmp("Gt", f["n"], num(0, True), True)
        o, i2 = nxt(ctx, st, f["it"])
        s, sk, x = opt3(o)
        return mk3(m_and(m_not(c), s), m_or(sk, m_and(c, s)), x), VStruct(k, {"it": i2, "n": m_ite(c, m_sub(f["n"], ONE), f["n"])})
    if k == "it:Chain":
        o1, a2 = nxt(ctx, st, f["a"])
        o2, b2 = nxt(ctx, st, f["b"])
        s1, k1, x1 = opt3(o1)
        s2, k2, x2 = opt3(o2)
        live = m_or(s1, k1)
        return (merge([live, m_not(live)], [o1, o2]),
                VStruct(k, {"a": a2, "b": merge([live, m_not(live)], [f["b"], b2])}))
    if k == "it:StepBy":
        o, i2 = nxt(ctx, st, f["it"])
        g = dict(i2.f)
        g["pos"] = m_add(f["it"].f["pos"], f["n"])
        return o, VStruct(k, {"it": VStruct(i2.key, g), "n": f["n"]})
    raise Unsupported("iterator " + k)


def nxt_back(ctx, st, it):
    k, f = it.key, it.f
    if k in ("it:Seq", "it:Range", "it:SeqMut"):
        c = m_cmp("Lt", f["pos"], f["end"], True)
        e = m_sub(f["end"], ONE)
        x = seq_index(f["seq"], e) if k == "it:Seq" else e if k == "it:Range" else ctx.ext(f["ref"], ("i", e))
        g = dict(f)
        g["end"] = e
        return option(c, x), VStruct(k, g)
    if k == "it:Map":
        o, i2 = nxt_back(ctx, st, f["it"])
        s, sk, x = opt3(o)
        y = ctx.under(st, s, lambda s_: ctx.callv(s_, f["f"], [x]))
        return mk3(s, sk, y), VStruct(k, {"it": i2, "f": f["f"]})
    if k == "it:Enumerate" and f["it"].key in ("it:Seq", "it:Range", "it:SeqMut"):
        o, i2 = nxt_back(ctx, st, f["it"])
        s, sk, x = opt3(o)
        n = m_add(f["n"], m_sub(i2.f["end"], i2.f["pos"]))
        return mk3(s, sk, VStruct("tuple", {"0": n, "1": x})), VStruct(k, {"it": i2, "n": f["n"]})
    if k == "it:Rev":
        o, i2 = nxt(ctx, st, f["it"])
        return o, VStruct(k, {"it": i2})
    raise Unsupported("next_back " + k)


class SkipResult:
    def __init__(self, skip, val):
        self.skip, self.val = skip, val


@model("Iterator::next", "DoubleEndedIterator::next_back")
def m_next(ctx, st, ref, args, dty):
    r = args[0]
    it = ctx.load(st, r) if isinstance(r, (VRef, VRefs)) else r
    holder = r
    if isinstance(it, (VRef, VRefs)):
        holder = it
        it = ctx.load(st, it)
    if not (isinstance(it, VStruct) and it.key.startswith("it:")):
        ty = strip_ref(ref.get("self"))
        if ctx.prog.resolve_trait("core::iter::traits::iterator::Iterator", "next", ty):
            return PASS
        if isinstance(it, VStruct):
            it = to_iter(ctx, st, it, None)
        else:
            it = mk_seq(it)
    o, i2 = (nxt if ref["method"] == "next" else nxt_back)(ctx, st, it)
    if isinstance(holder, (VRef, VRefs)):
        ctx.store(st, holder, i2)
    s, k, x = opt3(o)
    if k is not FALSE:
        ctx.skipcond = k
        return option(s, x)
    return o


def adaptor(name, *fields):
    def f(ctx, st, ref, args, dty):
        it = it_of(ctx, st, args[0])
        d = {"it": it}
        for n, a in zip(fields, args[1:]):
            d[n] = a
        return VStruct("it:" + name, d)
    return f


for _t in ("Iterator", "ParallelIterator", "IndexedParallelIterator"):
    MODELS[_t + "::map"] = adaptor("Map", "f")
    MODELS[_t + "::filter"] = adaptor("Filter", "f")
    MODELS[_t + "::filter_map"] = adaptor("FilterMap", "f")
    MODELS[_t + "::take_while"] = adaptor("TakeWhile", "f")
    MODELS[_t + "::map_while"] = adaptor("MapWhile", "f")


@model("Iterator::enumerate", "IndexedParallelIterator::enumerate")
def m_enum(ctx, st, ref, args, dty):
    return VStruct("it:Enumerate", {"it": it_of(ctx, st, args[0]), "n": num(0, True)})


@model("Iterator::zip", "IndexedParallelIterator::zip", "iter::zip")
def m_zip(ctx, st, ref, args, dty):
    return VStruct("it:Zip", {"a": to_iter(ctx, st, args[0], None) if ref.get("method") is None else it_of(ctx, st, args[0]),
                              "b": to_iter(ctx, st, args[1], None)})


@model("Iterator::chain")
def m_chain(ctx, st, ref, args, dty):
    return VStruct("it:Chain", {"a": it_of(ctx, st, args[0]), "b": to_iter(ctx, st, args[1], None)})


@model("Iterator::rev", "IndexedParallelIterator::rev")
def m_rev(ctx, st, ref, args, dty):
    it = it_of(ctx, st, args[0])
    return it.f["it"] if it.key == "it:Rev" else VStruct("it:Rev", {"it": it})


def it_skip(it, n):
    k, f = it.key, dict(it.f)
    if k in ("it:Seq", "it:Range", "it:SeqMut"):
        f["pos"] = m_add(f["pos"], n)
        return VStruct(k, f)
    if k == "it:Enumerate":
        f["it"] = it_skip(f["it"], n)
        if f["it"] is None:
            return None
        f["n"] = m_add(f["n"], n)
        return VStruct(k, f)
    if k == "it:Zip":
        f["a"], f["b"] = it_skip(f["a"], n), it_skip(f["b"], n)
        return VStruct(k, f) if f["a"] is not None and f["b"] is not None else None
    if k == "it:Rev" and f["it"].key in ("it:Seq", "it:Range", "it:SeqMut"):
        g = dict(f["it"].f)
        g["end"] = m_sub(g["end"], n)
        return VStruct(k, {"it": VStruct(f["it"].key, g)})
    return None


@model("Iterator::skip", "IndexedParallelIterator::skip")
def m_skip(ctx, st, ref, args, dty):
    it = it_of(ctx, st, args[0])
    n = S(ctx, st, args[1])
    r = it_skip(it, n)
    return r if r is not None else VStruct("it:Skip", {"it": it, "n": n})


@model("Iterator::take", "IndexedParallelIterator::take")
def m_takeit(ctx, st, ref, args, dty):
    it = it_of(ctx, st, args[0])
    n = S(ctx, st, args[1])
    if it.key in ("it:Seq", "it:Range", "it:SeqMut"):
        f = dict(it.f)
        if it.key != "it:Range" and not (isinstance(n, T) and n.op == "k"):
            MODE["zipused"] = True
            if MODE["zip"]:
                # assuming there are that many
                f["end"] = m_add(f["pos"], n)
                return VStruct(it.key, f)
        f["end"] = m_min(f["end"], m_add(f["pos"], n), True)
        return VStruct(it.key, f)
    return VStruct("it:Take", {"it": it, "n": n})


@model("Iterator::step_by")
def m_stepby(ctx, st, ref, args, dty):
    it = it_of(ctx, st, args[0])
    n = S(ctx, st, args[1])
    if it.key in ("it:Range", "it:Seq", "it:SeqMut"):
        return VStruct("it:StepBy", {"it": it, "n": n})
    raise Unsupported("step_by")


def consume(ctx, st, it, body, result=None):
    """run body(state, element) for every element; body returns None (continue) or a
    boolean MDD: break when true. Returns the condition 'left by break' (FALSE if never)"""
    root = ("X", next(ctx.fid))
    st.mem[root] = it

    def bodyfn(s):
        o, i2 = nxt(ctx, s, s.mem[root])
        some_, skip, x = opt3(o)
        exits, backs = [], []
        none = m_not(m_or(some_, skip))
        if none is not FALSE:
            exits.append(("end", none, s.copy()))
        elif ctx.constexit:
            ctx.constexit[-1] = True
        if skip is not FALSE:
            s2 = s.copy()
            s2.mem[root] = i2
            backs.append((skip, s2))
        if some_ is not FALSE:
            s3 = s.copy()
            s3.mem[root] = i2
            ctx.pc.append(some_)
            try:
                b = body(s3, x)
            finally:
                ctx.pc.pop()
            if b is None:
                backs.append((some_, s3))
            elif b is STOP:
                pass
            else:
                cb = m_and(some_, b)
                if cb is not FALSE:
                    exits.append(("brk", cb, s3.copy()))
                nb = m_and(some_, m_not(b))
                if nb is not FALSE:
                    backs.append((nb, s3))
        return exits, backs

    res = ctx.loop_fix(st, bodyfn)
    if not res:
        raise Unsupported("iterator consumer never ends")
    out = ctx.merge_states([(c, s) for _, c, s in res])
    brk = FALSE
    for d, c, s in res:
        if d == "brk":
            brk = m_or(brk, c)
    st.mem.clear()
    st.mem.update(out.mem)
    st.mem.pop(root, None)
    return brk


STOP = object()


def call1(ctx, s, f, args):
    r = ctx.callv(s, f, args)
    return r


def acc_loop(ctx, st, it, init, step):
    """fold with accumulator; step(s, acc, x) -> new acc or (new acc, break cond)"""
    root = ("X", next(ctx.fid))
    st.mem[root] = init

    def body(s, x):
        r = step(s, s.mem[root], x)
        if r is None:
            return STOP
        if isinstance(r, tuple):
            s.mem[root] = r[0]
            return r[1]
        s.mem[root] = r
        return None
    brk = consume(ctx, st, it, body)
    v = st.mem.pop(root)
    return v, brk


def write_back(ctx, st, arg):
    pass


@model("Iterator::for_each", "ParallelIterator::for_each")
def m_foreach(ctx, st, ref, args, dty):
    it = it_of(ctx, st, args[0])
    root = ("X", next(ctx.fid))
    st.mem[root] = args[1]
    fv = VRef(root) if isinstance(args[1], VStruct) else args[1]
    consume(ctx, st, it, lambda s, x: STOP if ctx.callv(s, fv, [x]) is None else None)
    st.mem.pop(root, None)
    return UNIT


@model("Iterator::fold")
def m_fold(ctx, st, ref, args, dty):
    it = it_of(ctx, st, args[0])
    v, _ = acc_loop(ctx, st, it, args[1], lambda s, a, x: ctx.callv(s, args[2], [a, x]))
    return v


@model("Iterator::try_fold", "Iterator::try_for_each")
def m_tryfold(ctx, st, ref, args, dty):
    it = it_of(ctx, st, args[0])
    tf = ref["method"] == "try_fold"
    init = args[1] if tf else UNIT
    f = args[2] if tf else args[1]
    flag = ("X", next(ctx.fid))
    h = head(strip_ref(dty)) if dty else RESULT

    def step(s, a, x):
        r = ctx.callv(s, f, [a, x] if tf else [x])
        if r is None:
            return None
        e = expand_enum(ctx.deep(s, r), h if h in (OPTION, RESULT) else RESULT)
        g = good(e)
        return payload(e) if tf else UNIT, m_not(g)
    v, brk = acc_loop(ctx, st, it, init, step)
    c = m_not(brk)
    return option(c, v) if h == OPTION else result(c, v)


@model("Iterator::sum", "ParallelIterator::sum", "Iterator::product")
def m_sum(ctx, st, ref, args, dty):
    it = it_of(ctx, st, args[0])
    if ref["method"] == "sum":
        v, _ = acc_loop(ctx, st, it, num(0), lambda s, a, x: m_add(as_scalar(a), as_scalar(ctx.deep(s, x))))
    else:
        v, _ = acc_loop(ctx, st, it, num(1), lambda s, a, x: m_mul(as_scalar(a), as_scalar(ctx.deep(s, x))))
    return v


@model("Iterator::count")
def m_count(ctx, st, ref, args, dty):
    it = it_of(ctx, st, args[0])
    v, _ = acc_loop(ctx, st, it, num(0, True), lambda s, a, x: m_add(a, ONE))
    return v


@model("Iterator::any", "Iterator::all")
def m_any(ctx, st, ref, args, dty):
    it = it_of(ctx, st, args[0])
    neg = ref["method"] == "all"

    def body(s, x):
        r = ctx.callv(s, args[1], [x])
        if r is None:
            return STOP
        r = as_bool(as_scalar(r))
        return m_not(r) if neg else r
    b = consume(ctx, st, it, body)
    return m_not(b) if neg else b


@model("Iterator::find", "Iterator::position", "Iterator::find_map")
def m_find(ctx, st, ref, args, dty):
    it = it_of(ctx, st, args[0])
    root = ("X", next(ctx.fid))
    st.mem[root] = DC
    cnt = ("X", next(ctx.fid))
    st.mem[cnt] = num(0, True)
    m = ref["method"]
    mutable = m == "find" and isinstance(it, VStruct) and isinstance(it.f.get("ref"), (VRef, VRefs)) and "pos" in it.f

    def body(s, x):
        r = ctx.callv(s, args[1], [x])
        if r is None:
            return STOP
        if m == "find_map":
            e = expand_enum(ctx.deep(s, r), OPTION)
            c, p = good(e), payload(e)
        else:
            c, p = as_bool(as_scalar(r)), x
        if m == "position" or mutable:
            p = s.mem[cnt]
        s.mem[root] = p
        n = m_add(s.mem[cnt], ONE)
        s.mem[cnt] = n
        return c
    b = consume(ctx, st, it, body)
    v = st.mem.pop(root)
    st.mem.pop(cnt, None)
    if mutable:
        v = ctx.ext(it.f["ref"], ("i", m_add(as_scalar(it.f["pos"]), restrict(b, as_scalar(v)))))
    return option(b, v)


@model("Iterator::last", "Iterator::nth", "Iterator::max_by", "Iterator::min_by", "Iterator::max", "Iterator::min", "Iterator::peekable",
       "Iterator::flat_map", "Iterator::partition", "Iterator::unzip", "Iterator::max_by_key", "Iterator::min_by_key", "Iterator::reduce",
       "Iterator::flatten", "Iterator::scan", "Iterator::inspect", "Iterator::skip_while", "Iterator::cycle")
def m_iteropaque(ctx, st, ref, args, dty):
    it = it_of(ctx, st, args[0])
    if ref["method"] == "nth":
        n = S(ctx, st, args[1])
        j = it_skip(it, n)
        if j is not None:
            o, i2 = nxt(ctx, st, j)
            ctx.store(st, args[0], i2)
            return o
    seq = materialise(ctx, st, it)
    return sym("iter_" + ref["method"], seq, *[ctx.opaque_arg(st, a) for a in args[1:]])


def materialise(ctx, st, it):
    v, _ = acc_loop(ctx, st, it, EMPTYVEC, lambda s, a, x: seq_push(a, ctx.deep(s, x)))
    return as_scalar(v)


@model("Iterator::collect", "ParallelIterator::collect", "FromIterator::from_iter")
def m_collect(ctx, st, ref, args, dty):
    it = it_of(ctx, st, args[0])
    h = head(strip_ref(dty)) if dty else None
    if h in (RESULT, OPTION):
        def step(s, a, x):
            e = expand_enum(ctx.deep(s, x), h)
            return seq_push(a, payload(e)), m_not(good(e))
        v, brk = acc_loop(ctx, st, it, EMPTYVEC, step)
        return result(m_not(brk), v) if h == RESULT else option(m_not(brk), v)
    if it.key == "it:Seq" and isinstance(it.f["pos"], T) and it.f["pos"].op == "k" and it.f["pos"].val == 0 and h == "alloc::vec::Vec" \
            and vfp(it.f["end"]) == vfp(seq_len(it.f["seq"])) and False:
        return it.f["seq"]
    if it.key == "it:SeqMut":
        return it  # a collection of references to the same places
    v = materialise(ctx, st, it)
    if h and h != "alloc::vec::Vec":
        return sym("collect:" + h.split("::")[-1], v)
    return v


# ------------------------------------------------------------------ closures
@model("Fn::call", "FnMut::call_mut", "FnOnce::call_once")
def m_fncall(ctx, st, ref, args, dty):
    return ctx.callv(st, args[0], [args[1]], tupled=True)


# ------------------------------------------------------------------ fmt
@model("Arguments::new", "Arguments::new_v1", "Arguments::from_str", "Arguments::from_str_nonconst", "Arguments::new_const")
def m_args(ctx, st, ref, args, dty):
    t = ctx.deep(st, args[0])
    xs = ctx.deep(st, args[1]) if len(args) > 1 else VStruct("array", {})
    p = fmt_pieces(t, xs)
    if p is None:
        return sym("fmt", *[ctx.opaque_arg(st, a) for a in args])
    return sym("fmt", *p)


def fmt_pieces(t, xs):
    """what a format template writes: literal text and arguments in order; a constant argument is text"""
    if isinstance(t, T) and t.op == "c" and isinstance(t.val, str):
        return [t]
    if isinstance(t, VStruct) and t.key == "array":
        bs = [t.f[str(i)] for i in range(len(t.f))]
        if not all(isinstance(b, T) and b.op == "k" for b in bs):
            return None
        bs = [int(b.val) for b in bs]
    elif isinstance(t, T) and t.op == "c" and isinstance(t.val, tuple):
        bs = list(t.val)
    else:
        return None
    if not isinstance(xs, VStruct) or xs.key != "array":
        return None
    out, i, n = [], 0, 0

    def lit(x):
        if out and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    try:
        while bs[i] != 0:
            b = bs[i]
            i += 1
            if b < 0x80:
                lit(bytes(bs[i:i + b]).decode())
                i += b
            elif b == 0x80:
                ln = bs[i] + 256 * bs[i + 1]
                lit(bytes(bs[i + 2:i + 2 + ln]).decode())
                i += 2 + ln
            elif b >= 0xC0:
                if b & 0x30:
                    return None
                sz = (4 if b & 1 else 0) + (2 if b & 2 else 0) + (2 if b & 4 else 0)
                opt = tuple(bs[i:i + sz])
                i += sz
                if b & 8:
                    n = bs[i] + 256 * bs[i + 1]
                    i += 2
                x = xs.f[str(n)]
                n += 1
                plain = b & 7 == 0
                if plain and isinstance(x, T) and x.op == "arg" and x.args[0] == "display":
                    y = x.args[1]
                    if isinstance(y, T) and y.op == "c" and isinstance(y.val, str):
                        lit(y.val)
                        continue
                    if isinstance(y, T) and y.op == "format":
                        y = y.args[0]
                    if isinstance(y, T) and y.op == "fmt":
                        q = [z for z in y.args if not (isinstance(z, T) and (z.op == "hole" or z.op == "c" and isinstance(z.val, str)))]
                        if not q:
                            for z in y.args:
                                if z.op == "c":
                                    lit(z.val)
                                else:
                                    out.append(z)
                            continue
                out.append(sym("hole", b & 7, opt, x))
            else:
                return None
    except (IndexError, KeyError, UnicodeDecodeError):
        return None
    return [string(x) if isinstance(x, str) else x for x in out] or [string("")]


@model("Argument::new_display", "Argument::new_debug", "Argument::new_lower_exp")
def m_arg(ctx, st, ref, args, dty):
    how = norm(ref["path"]).split("_")[-1]
    x = ctx.opaque_arg(st, args[0])
    ty = (ref.get("targs") or [None])[0]
    while isinstance(ty, list) and ty[0] in ("ref", "refmut"):
        ty = ty[1]
    if how in ("display", "debug") and isinstance(ty, str) and ty[:1] in "ui" and ty != "unit" and isinstance(x, T) and x.op == "k" and x.val.denominator == 1:
        return sym("arg", "display", string(str(x.val)))
    return sym("arg", how, x)


@model("fmt::format")
def m_format(ctx, st, ref, args, dty):
    return sym("format", ctx.opaque_arg(st, args[0]))

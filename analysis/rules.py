"""Structural rules over the fact base (call graph, value use, declarations)."""
import os, re
import facts
from pair import refs_of

RULES = {}


def rule(f):
    RULES[f.__name__] = f
    return f


def loc(f):
    return "%s:%d %s" % (f.file, f.line, f.qname)


class Graph:
    """callers' view of a program: direct callees with trait methods resolved to every implementation"""

    def __init__(self, prog):
        self.prog = prog
        self.impls = {}
        for f in prog.fns.values():
            if f.crate != "spec" and f.kind in ("Fn", "AssocFn") and f.trait:
                self.impls.setdefault((f.trait, f.name), []).append(f)
        self.memo = {}

    def out(self, f):
        r = self.memo.get(f.key)
        if r is None:
            r = []
            for k in sorted(refs_of(f)):
                t, _, n = k.rpartition("::")
                g = self.prog.fns.get(k)
                r.append((k, ([g] if g is not None else []) + self.impls.get((t, n), [])))
            self.memo[f.key] = r
        return r

    def reach(self, roots, stop=lambda f: False):
        """key -> (function, parent) reached, and external callees [(key, function)]"""
        seen, ext, todo = {}, [], [(r, None) for r in roots]
        while todo:
            f, p = todo.pop()
            if f.key in seen or stop(f):
                continue
            seen[f.key] = (f, p)
            for k, cs in self.out(f):
                if not cs:
                    ext.append((k, f))
                for g in cs:
                    todo.append((g, f))
        return seen, ext

    def path(self, seen, f):
        out = []
        while f is not None and len(out) < 12:
            out.append(f.qname)
            f = seen[f.key][1] if f.key in seen else None
        return " <- ".join(out)


# ------------------------------------------------------------------ C38
TOKEN = re.compile(r"//[^\n]*|/\*.*?\*/|\"(?:\\.|[^\"\\])*\"|'(?:\\.|[^'\\])'|\b(?:unsafe|extern|static)\b\s*(?:mut\b|\"C[^\"]*\"|ref\b)?|asm!|transmute", re.S)
MUTABLE = re.compile(r"::(Cell|RefCell|UnsafeCell|OnceCell|LazyCell|Mutex|RwLock|OnceLock|LazyLock|Once|Condvar|LocalKey|Atomic\w*|ReentrantLock)\b")


def clap_default(key):
    return re.search(r"::augment_args(_for_update)?::DEFAULT_VALUE(#\d+)?$", key)


def global_state(prog):
    """statics that can change at run time"""
    out = []
    for cn, c in sorted(prog.crates.items()):
        if cn == "spec":
            continue
        mut = {s[0] for s in c.get("statics", []) if s[1] != "Not"}
        for j in c["fns"]:
            if j.get("kind") != "Static" or clap_default(j["key"]):
                continue
            if j["key"] in mut or MUTABLE.search(str(j["locals"][0])):
                out.append((j["key"], "%s:%d" % (j["file"], j["line"])))
    return out


@rule
def no_unsafe(run, A, B):
    """no unsafe block, function or impl, foreign item, inline assembly or run-time mutable static in any compiled crate, and no `unsafe`/foreign/`static mut` token in any other source file except the documented bit-level square root."""
    n = 0
    for cn, c in sorted(A.crates.items()):
        if cn == "spec":
            continue
        for u in c["unsafe_blocks"]:
            run.add("unsafe-block:%s:%s" % (cn, u if isinstance(u, str) else u[0]), str(u), "unsafe block")
        for im in c["impls"]:
            n += 1
            if im["unsafe"]:
                run.add("unsafe-impl:%s:%s" % (cn, im["trait"]), str(im["self"]), "unsafe impl of %s" % im["trait"])
        for j in c["fns"]:
            n += 1
            if j.get("unsafe"):
                run.add("unsafe-fn:%s" % j["key"], "%s:%d" % (j["file"], j["line"]), "unsafe function")
    for k, w in global_state(A):
        run.add("global:" + k, w, "global variable that can change at run time")
    files = 0
    for rel, data in facts.sources().items():
        if not rel.endswith(".rs") or rel.endswith("quick_inverse_sqrt.rs"):
            continue
        files += 1
        text = facts.cut_tests(data.decode("utf8", "replace"))
        for m in TOKEN.finditer(text):
            t = m.group(0)
            if t[0] in "/\"'":
                continue
            t = " ".join(t.split())
            if t in ("static", "extern"):
                continue
            if t.startswith("static") and t != "static mut":
                continue
            line = text.count("\n", 0, m.start()) + 1
            run.add("token:%s:%s" % (rel, t), "%s:%d" % (rel, line), "`%s` in the source" % t)
    run.cov["items_inspected"] = n
    run.cov["source_files_scanned"] = files
    if n < 4000 or files < 120:
        run.add("floor:no_unsafe", "workspace", "only %d items in %d files inspected" % (n, files))


# ------------------------------------------------------------------ C37
NONDET = [
    (re.compile(r"^(rand|rand_core|rand_chacha|getrandom|oorandom|fastrand|nanorand|uuid)\b"), "draws random numbers"),
    (re.compile(r"^std::time::.*::now$|^chrono::.*::(now|today)$|^(time|instant)::"), "reads a clock"),
    (re.compile(r"^std::env::"), "reads the environment"),
    (re.compile(r"^std::(collections::hash::(map|set)|hash::random).*::(iter|iter_mut|keys|values|values_mut|into_iter|into_keys|into_values|drain|retain|extract_if|next|union|intersection|difference|symmetric_difference|hash_one|build_hasher)$"), "depends on the order of a hashed collection"),
    (re.compile(r"^hashbrown::.*::(iter|keys|values|into_iter|drain|retain|next)$"), "depends on the order of a hashed collection"),
    (re.compile(r"^std::thread::|^rayon(_core)?::(current_|max_num|ThreadPool)"), "depends on the thread it runs on"),
    (re.compile(r"^core::sync::atomic::|^std::sync::atomic::"), "uses a shared counter"),
    (re.compile(r"^std::thread::local::|^std::sync::(once_lock|lazy_lock|poison::once)|^core::cell::(once|lazy)"), "keeps state between calls"),
    (re.compile(r"^std::process::id|^std::net::"), "depends on the machine it runs on"),
    (re.compile(r"::fmt::Pointer|^core::ptr::.*::(addr|expose_provenance)$"), "depends on memory addresses"),
]
RAYON_OK = {"zip", "into_par_iter", "par_iter", "par_iter_mut", "par_chunks", "par_chunks_mut", "par_chunks_exact", "par_chunks_exact_mut",
            "map", "enumerate", "for_each", "collect", "cloned", "copied", "with_min_len", "with_max_len", "chunks", "rev", "take", "skip", "len",
            "collect_into_vec", "unzip", "par_windows", "filter", "filter_map", "flat_map", "flat_map_iter", "count", "all", "any", "max", "min",
            "deref", "deref_mut", "try_for_each", "find_first", "position_first", "for_each_with", "map_with", "map_init", "step_by", "interleave", "chain", "flatten", "par_bridge_"}
RAYON = re.compile(r"^rayon(_core)?::")


@rule
def determinism(run, A, B):
    """no function reachable from a time step, a controller, the driver or the construction of the thermal and air models calls a source of randomness, a clock, the environment, an unordered collection's iteration, a thread identity, an order-sensitive parallel reduction or run-time mutable global state; call graph with every implementation of every trait method."""
    g = Graph(A)
    roots = []
    for f in A.fns.values():
        if f.kind not in ("Fn", "AssocFn") or f.crate == "spec":
            continue
        t = (f.trait or "").split("::")[-1]
        if t == "SimulationModel" and (f.name != "new" or f.crate in ("heat", "air")):
            roots.append(f)
        elif t == "SimpleControl":
            roots.append(f)
        elif f.crate == "simple" and f.name in ("run", "run_rhai"):
            roots.append(f)
    names = sorted(r.qname for r in roots)
    run.cov["roots"] = names
    if len([r for r in roots if r.name == "march"]) < 4 or len(roots) < 12:
        run.add("floor:roots", "SimulationModel", "expected march of four models, the controllers and the driver; found %s" % names)

    def stop(f):
        # optical preprocessing may sample: the constructor of the solar model, and what only it uses
        return (f.crate == "light" and f.name == "new" and (f.trait or "").endswith("SimulationModel")) or f.crate == "spec"
    seen, ext = g.reach(roots, stop)
    run.cov["functions_reached"] = len(seen)
    run.cov["external_callees_checked"] = len(set(k for k, _ in ext))
    if len(seen) < 400:
        run.add("floor:reach", "call graph", "only %d functions reached" % len(seen))
    for k, f in ext:
        for rx, what in NONDET:
            if rx.search(k):
                run.add("nondet:%s:%s" % (f.crate, k), loc(f), "%s: calls %s; path %s" % (what, k, g.path(seen, f)))
        if RAYON.search(k) and k.rpartition("::")[2] not in RAYON_OK:
            run.add("reduction:%s:%s" % (f.crate, k), loc(f), "parallel operation whose result depends on the schedule: %s; path %s" % (k, g.path(seen, f)))
    gs = {k for k, _ in global_state(A)}
    for key, (f, p) in seen.items():
        if key in gs:
            run.add("global:" + key, loc(p) if p is not None else key, "state that outlives the call: %s; path %s" % (key, g.path(seen, p)))
        for b in f.j["blocks"]:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "cast" and str(s[2][1]) in ("PointerExposeProvenance", "PointerExposeAddress"):
                    run.add("address:%s:%s" % (f.crate, f.qname), loc(f), "a memory address becomes a number; path %s" % g.path(seen, f))
    # closures handed to rayon must not meet in a lock
    par = [f for f, _ in seen.values() if any(RAYON.search(k) and k.endswith(("::for_each", "::map", "::for_each_with", "::try_for_each", "::filter_map", "::flat_map")) for k, cs in g.out(f) if not cs)]
    run.cov["parallel_regions"] = sorted(set(f.qname for f in par))
    for f in par:
        cl = [c for k, cs in g.out(f) for c in cs if c.kind == "Closure"]
        s2, e2 = g.reach(cl)
        for k, h in e2:
            if re.search(r"sync::poison::(mutex|rwlock)::.*::(lock|write|try_lock|try_write)$|mpsc::", k):
                run.add("race:%s:%s" % (f.crate, k), loc(f), "threads of a parallel region update shared state under a lock (%s in %s): the order decides the result" % (k, h.qname))


# ------------------------------------------------------------------ C39
def is_result(t):
    return isinstance(t, list) and t and t[0] == "adt" and t[1].endswith("::result::Result")


DISCARD = re.compile(r"^core::result::.*::(ok|unwrap_or|unwrap_or_default|unwrap_or_else|is_ok|is_err|map_or|map_or_else|or|or_else|unwrap_or_log|into_iter|iter|is_ok_and|flatten)$")


def places(x, out):
    """locals mentioned in an rvalue/operand/place structure"""
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
            out.append((x[0], x[1]))
            for e in x[1]:
                if isinstance(e, list) and e and e[0] == "i":
                    out.append((e[1], []))
            return
        for y in x:
            places(y, out)
    elif isinstance(x, dict):
        for v in x.values():
            if isinstance(v, (list, dict)):
                places(v, out)


def swallow_sites(prog):
    """{(crate, fallible callee): [function]} where a Result's Err case is dropped"""
    out, calls = {}, 0
    for f in prog.fns.values():
        if f.crate == "spec" or f.kind not in ("Fn", "AssocFn", "Closure") or f.j.get("derived"):
            continue
        j = f.j
        uses, defs, errread = {}, {}, set()
        moved = {}
        for b in j["blocks"]:
            if b["c"]:
                continue
            for s in b["s"]:
                if s[0] == "=":
                    l = []
                    places(s[2], l)
                    for v, pr in l:
                        uses[v] = uses.get(v, 0) + (0 if s[2][0] == "discr" else 1)
                        if any(isinstance(e, list) and e[0] == "v" and e[1] == "Err" for e in pr):
                            errread.add(v)
                    if s[2][0] == "use" and isinstance(s[2][1], list) and s[2][1][0] in ("m", "c"):
                        p = s[2][1][1]
                        if not p[1] and not s[1][1]:
                            moved.setdefault(p[0], []).append(s[1][0])
            t = b["t"]
            l = []
            if t[0] == "call":
                places(t[2], l)
                if isinstance(t[1], list):
                    places(t[1], l)
                calls += 1
            elif t[0] in ("switch", "assert"):
                places(t[1], l)
            elif t[0] == "return":
                uses[0] = uses.get(0, 0) + 1
            for v, pr in l:
                uses[v] = uses.get(v, 0) + 1
        for b in j["blocks"]:
            t = b["t"]
            if b["c"] or t[0] != "call" or not isinstance(t[1], dict) or "fn" not in t[1]:
                continue
            key = t[1]["fn"].get("res") or t[1]["fn"]["key"]
            name = key.rpartition("::")[2]
            dst = t[3]
            if dst[1]:
                continue
            d = dst[0]
            ty = j["locals"][d]
            if d != 0 and is_result(ty) and ty[2:] and t[4] is not None:
                if not uses.get(d) :
                    out.setdefault((f.crate, name), []).append(f)
                    continue
                # matched but the error is never looked at, the value itself not passed on
                if d not in errread and all_projected(j, d):
                    out.setdefault((f.crate, name), []).append(f)
            if DISCARD.search(key):
                src = origin(j, t[2])
                out.setdefault((f.crate, src or name), []).append(f)
    return out, calls


def all_projected(j, d):
    """every use of local d is a discriminant read or a projection of it"""
    for b in j["blocks"]:
        if b["c"]:
            continue
        for s in b["s"]:
            if s[0] != "=":
                continue
            if s[2][0] == "discr":
                continue
            l = []
            places(s[2], l)
            for v, pr in l:
                if v == d and not any(isinstance(e, list) and e[0] == "v" for e in pr):
                    return False
        t = b["t"]
        l = []
        if t[0] == "call":
            places(t[2], l)
        for v, pr in l:
            if v == d and not any(isinstance(e, list) and e[0] == "v" for e in pr):
                return False
    return True


def origin(j, args):
    """name of the call that produced the first argument"""
    l = []
    places(args[:1], l)
    if not l:
        return None
    v = l[0][0]
    for _ in range(4):
        for b in j["blocks"]:
            if b["c"]:
                continue
            t = b["t"]
            if t[0] == "call" and t[3][0] == v and not t[3][1] and isinstance(t[1], dict) and "fn" in t[1]:
                return (t[1]["fn"].get("res") or t[1]["fn"]["key"]).rpartition("::")[2]
        nxt = None
        for b in j["blocks"]:
            for s in b["s"]:
                if s[0] == "=" and s[1][0] == v and not s[1][1]:
                    l = []
                    places(s[2], l)
                    if l:
                        nxt = l[0][0]
        if nxt is None:
            return None
        v = nxt
    return None


@rule
def errors(run, A, B):
    """every call returning a Result is followed through the body: the sites where its Err case is dropped, replaced by a default or never looked at are counted per crate and per fallible operation; no crate may have more such sites for an operation than the reviewed tree, and the condition under which each Result-returning function fails must be the reviewed one."""
    a, calls = swallow_sites(A)
    b, _ = swallow_sites(B)
    run.cov["calls_inspected"] = calls
    run.cov["reviewed_discard_sites"] = sum(len(v) for v in b.values())
    if calls < 8000:
        run.add("floor:calls", "workspace", "only %d calls inspected" % calls)
    for k, v in sorted(a.items()):
        if len(v) > len(b.get(k, [])):
            old = {f.qname for f in b.get(k, [])}
            new = [f for f in v if f.qname not in old] or v
            run.add("swallowed:%s:%s" % k, loc(new[0]), "the failure of `%s` is dropped here (%d such sites, %d reviewed)" % (k[1], len(v), len(b.get(k, []))))

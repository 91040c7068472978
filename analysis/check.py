#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]

Decides one property from the source: builds the fact base of /repo, of the
reference tree and of the reference laws, applies the property's rules and
writes evidence/<PROPERTY>.json.  Exit 0: holds; exit 1: VIOLATION."""
import os, sys, time, json, pickle, signal, resource, select, gc, traceback, re, hashlib

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts
from pair import *
import props

VERIF = facts.VERIF
JOBS = int(os.environ.get("VP_JOBS", "8"))
LIMIT = int(os.environ.get("VP_LIMIT", "150"))


# ------------------------------------------------------------------ jobs in child processes
def run_jobs(jobs, limit):
    """jobs: list of (name, thunk). thunk returns a picklable result. -> {name: result | ('error', text)}"""
    res, live, i = {}, {}, 0
    gc.freeze()
    while i < len(jobs) or live:
        while i < len(jobs) and len(live) < JOBS:
            name, thunk = jobs[i]
            i += 1
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
                    gc.disable()  # terms hold no cycles
                    try:
                        out = thunk()
                    except Blowup:
                        out = ("error", "decision diagram too large")
                    except MemoryError:
                        out = ("error", "out of memory")
                    except RecursionError:
                        out = ("error", "recursion too deep")
                    except Exception as e:
                        tb = traceback.extract_tb(e.__traceback__)[-1]
                        out = ("error", "%s: %s (%s:%d)" % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno))
                    data = pickle.dumps(out)
                    with os.fdopen(w, "wb") as f:
                        f.write(data)
                except BaseException:
                    code = 1
                os._exit(code)
            os.close(w)
            live[r] = (pid, name, time.time(), [])
        rs, _, _ = select.select(list(live), [], [], 0.2)
        for r in rs:
            pid, name, t0, buf = live[r]
            d = os.read(r, 1 << 20)
            if d:
                buf.append(d)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del live[r]
            try:
                res[name] = pickle.loads(b"".join(buf))
            except Exception:
                res[name] = ("error", "analysis process ended")
        now = time.time()
        for r in list(live):
            pid, name, t0, buf = live[r]
            if now - t0 > limit:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del live[r]
                res[name] = ("error", "time limit")
    return res


# ------------------------------------------------------------------ cheap structural features
def features(prog, tab, f, seen=None):
    """names and constants a body mentions, through closures and unpaired helpers"""
    seen = seen if seen is not None else set()
    if f.key in seen:
        return set()
    seen.add(f.key)
    out = set()

    def w(x):
        if isinstance(x, list):
            if len(x) == 4 and x[0] == "f" and isinstance(x[1], str):
                if not x[1].isdigit():
                    out.add(("field", x[1]))
            for y in x:
                w(y)
        elif isinstance(x, dict):
            if "val" in x and isinstance(x.get("ty"), str) and x["ty"] not in ("bool",):
                try:
                    v = float(x["val"])
                    if v not in (0.0, 1.0, -1.0):
                        out.add(("const", v))
                except ValueError:
                    pass
            for v in x.values():
                if isinstance(v, (list, dict)):
                    w(v)
    for b in f.j["blocks"]:
        if not b["c"]:
            w(b["s"])
            w(b["t"])
    for k in refs_of(f):
        g = prog.fns.get(k)
        if g is None:
            continue
        if k in tab:
            out.add(("call", g.qname))
        else:
            out |= features(prog, tab, g, seen)
    return out


class Run:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.findings = []
        self.notes = []
        self.cov = {}
        self.assumptions = []

    def add(self, key, where, text):
        self.findings.append(Finding(key, where, text))


def where(f):
    return "%s:%d %s" % (f.file, f.line, f.qname)


def diff_text(d):
    return "; ".join("%s: found %s, expected %s" % (p, x[:300], y[:300]) for p, x, y in d[:3])


# ------------------------------------------------------------------ rule: reference cone
def closure(P, roots, close):
    """reference functions reachable from the roots through calls, staying in the crates of `close`"""
    impls = {}
    for f in P.ref.fns.values():
        if f.kind in ("Fn", "AssocFn") and f.trait:
            impls.setdefault((f.trait, f.name), []).append(f)
    seen, todo = set(), list(roots)
    while todo:
        f = todo.pop()
        if f.key in seen:
            continue
        seen.add(f.key)
        for k in refs_of(f):
            g = P.ref.fns.get(k)
            cand = [g] if g is not None else []
            t, _, n = k.rpartition("::")
            cand += impls.get((t, n), [])
            for g in cand:
                if g.crate in close or g.crate in ("polynomial", "utils") or g.kind not in ("Fn", "AssocFn"):
                    todo.append(g)
    return seen


RESULT = "core::result::Result"


def errcase(sa, sb):
    """only the condition under which the function fails"""
    ea, eb = expand_enum(sa.ret, RESULT), expand_enum(sb.ret, RESULT)
    if ea is None or eb is None:
        return 1, ([] if vfp(sa.ret) == vfp(sb.ret) else [("failure condition", show(sa.ret, 8), show(sb.ret, 8))])
    if vfp(ea.d) == vfp(eb.d):
        return 1, []
    return 1, [("failure condition", show(ea.d, 8), show(eb.d, 8))]


def fallible(f):
    t = f.j["locals"][0]
    return isinstance(t, list) and t[:1] == ["adt"] and t[1].endswith("result::Result")


def cone_rule(run, P, cone, close, project=None):
    S, missing = set(), []
    roots = [r for r in P.ref.fns.values() if r.kind in ("Fn", "AssocFn") and in_cone(r, cone)]
    run.cov["anchor_functions"] = len(roots)
    keys = closure(P, roots, close)
    for k, (c, r) in P.pairs.items():
        if r.key in keys:
            S.add(k)
    for r in P.rmissing:
        if r.key in keys:
            missing.append(r)
    if project == "errcase":
        S = {k for k in S if fallible(P.pairs[k][1])}
        missing = []
    run.cov["functions_in_cone"] = len(S) + len(missing)
    todo = {k for k in S if k in P.changed}
    identical = len(S) - len(todo)
    if run.tier == "thorough":
        todo = set(S)
    callers = P.callers() if (todo or missing) else {}
    # functions whose private callee disappeared or changed its signature
    for r in missing:
        up = set()
        for k, rr in P.r2p.items():
            pass
        cs = [k for k, (c, rr) in P.pairs.items() if r.key in refs_closure(P.ref, rr, P.r2p)]
        if not cs:
            run.add("missing:%s:%s" % (r.crate, r.qname), "%s %s" % (r.file, r.qname),
                    "the function is gone (or changed its signature) and nothing that used it remains to stand for it")
        for k in cs:
            todo.add(k)
    taint = set()
    results = {}
    done = {}
    undecided = []
    comps = 0
    rounds = 0
    inl, opqd, steps = set(), 0, 0
    while todo and rounds < 6:
        rounds += 1
        jobs = []
        for k in sorted(todo, key=str):
            def thunk(k=k, taint=frozenset(taint)):
                n, d, sa, sb = P.compare(k, taint)
                if project == "errcase":
                    n, d = errcase(sa, sb)
                return ("ok", n, d, sorted(sa.ctx.inlined), len(sa.ctx.opaqued), sa.ctx.steps)
            jobs.append((k, thunk))
        res = run_jobs(jobs, LIMIT)
        todo = set()
        for k, v in res.items():
            c, r = P.pairs[k]
            if v[0] == "ok":
                comps += v[1]
                inl |= set(v[3])
                opqd += v[4]
                steps += v[5]
            if v[0] == "ok" and not v[2]:
                results[k] = "same"
                continue
            if v[0] == "error":
                results[k] = ("undecided", v[1])
            else:
                results[k] = ("differs", v[2])
            priv = r.j.get("vis") != "pub"
            up = callers.get(k, set()) - {k}
            if priv and up and k not in taint and v[0] == "ok":
                taint.add(k)
                for u in up:
                    if u not in taint:
                        todo.add(u)
    for k, v in results.items():
        c, r = P.pairs[k]
        if v == "same":
            continue
        if k in taint:
            bad = [u for u in callers.get(k, set()) - {k} if results.get(u) != "same" and u not in taint]
            ok = all(results.get(u) == "same" or u in taint for u in callers.get(k, set()) - {k})
            if ok:
                continue
        if v[0] == "undecided":
            if k not in P.changed or project:
                undecided.append("%s (%s)" % (where(c), v[1]))
                continue
            fa, fb = features(P.code, P.c2p, c), features(P.ref, P.r2p, r)
            if fa != fb:
                run.add("changed:%s:%s" % (r.crate, r.qname), where(c),
                        "the value flow could not be compared (%s) and it mentions different things: only here %s; only in the reference %s"
                        % (v[1], sorted(map(str, fa - fb))[:6], sorted(map(str, fb - fa))[:6]))
            else:
                undecided.append("%s (%s)" % (where(c), v[1]))
            continue
        if k not in P.changed and k not in S:
            pass
        run.add("differs:%s:%s" % (r.crate, r.qname), where(c), "computes something else than the reference definition: " + diff_text(v[1]))
    run.cov["functions_identical_to_reference"] = identical
    run.cov["functions_compared_by_value_flow"] = len(results)
    run.cov["components_compared"] = comps
    run.cov["callees_expanded"] = len(inl)
    run.cov["blocks_analysed"] = steps
    run.cov["undecided"] = undecided
    return S


def refs_closure(prog, f, tab, seen=None):
    seen = seen if seen is not None else set()
    out = set()
    for k in refs_of(f):
        if k in seen:
            continue
        seen.add(k)
        out.add(k)
        g = prog.fns.get(k)
        if g is not None and k not in tab and g.kind not in ("Fn", "AssocFn"):
            out |= refs_closure(prog, g, tab, seen)
    return out


def in_cone(f, cone):
    for crate, file, q in cone:
        if f.crate != crate or f.j.get("testmod"):
            continue
        if file and not re.search(file, f.file):
            continue
        if q and not re.search(q, f.qname):
            continue
        return True
    return False


# ------------------------------------------------------------------ rule: reference laws
def law_rule(run, A, module, crate, floor):
    M = Module(A, module, crate)
    names = set(f.cname for f in M.fns) | M.stubs
    jobs, obl = [], {}
    n = 0
    for f in M.fns:
        c = candidates(A, crate, f)
        key = "%s:%s" % (crate, f.qname)
        if len(c) > 1:
            c = [x for x in c if sigkey(x) == sigkey(f)] or c
        n += 1
        if len(c) != 1:
            obl[key] = (f, None)
            continue
        obl[key] = (f, c[0])

        def thunk(f=f, c=c[0]):
            first = None
            for op in (names, M.stubs):
                p = opaque_pred(op - {f.cname})
                try:
                    sa, sb = summarize(A, c, p), summarize(A, f, p)
                    m, d = differences(sa, sb)
                except (Blowup, Unsupported) as e:
                    if first is None:
                        raise
                    continue
                if not d:
                    return ("ok", m, [], len(sa.ctx.inlined), sa.ctx.steps)
                first = first or ("ok", m, d, len(sa.ctx.inlined), sa.ctx.steps)
            return first
        jobs.append((key, thunk))
    res = run_jobs(jobs, LIMIT)
    comps = 0
    for key, (f, c) in sorted(obl.items()):
        if c is None:
            if f.j.get("vis") == "pub":
                run.add("law-missing:" + key, f.qname, "no function of that name in crate %s" % crate)
            continue
        v = res[key]
        if v[0] != "ok":
            run.add("law-undecided:" + key, where(c), "cannot be compared with its law: " + v[1])
            continue
        comps += v[1]
        if v[2]:
            run.add("law:" + key, where(c), "does not satisfy its law: " + diff_text(v[2]))
    run.cov.setdefault("laws", {})[module] = {"obligations": n, "components_compared": comps}
    if n < floor:
        run.add("floor:" + module, module, "only %d obligations, expected at least %d" % (n, floor))


def explain(prop):
    t = []
    if prop.get("cone"):
        t.append("Each function of the cone (the property's anchor functions and what they call) is compared with its reviewed definition: "
                 "identical normalised MIR, or equal gated value graphs of the result, of every reachable output place and of the ordered effects, "
                 "with paired callees opaque and unpaired or changed private callees expanded.")
    if prop["laws"]:
        t.append("Functions with a hand-written law (crate spec) are compared with the law the same way, on every run.")
    if prop["rules"]:
        import rules
        for r in prop["rules"]:
            t.append("Rule %s: %s" % (r, rules.RULES[r].__doc__))
    return " ".join(t)


def known():
    p = os.path.join(VERIF, "known-findings.txt")
    out = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    prop = props.PROPS[pid]
    run = Run(pid, tier)
    crates, ref, missing, hashes = facts.load()
    A, B = Program(crates, facts.REPO), Program(ref, os.path.join(facts.VERIF, "reference"))
    for m in missing:
        run.add("crate-missing:" + m, m, "crate not analysed")
    P = None
    if prop.get("cone"):
        P = Pairs(A, B)
        S = cone_rule(run, P, prop["cone"], prop["close"], prop.get("project"))
        total = run.cov["anchor_functions"]
        if total < prop["floor"]:
            run.add("floor:cone", pid, "reference cone has %d functions, expected at least %d" % (total, prop["floor"]))
    for module, crate, floor in prop.get("laws", []):
        law_rule(run, A, module, crate, floor)
    for name in prop.get("rules", []):
        import rules
        rules.RULES[name](run, A, B)
    kn = known()
    bad = []
    for f in run.findings:
        d = kn.get((pid, f.key))
        if d is not None:
            print("KNOWN-FINDING: property=%s %s (%s)" % (pid, d, f.where))
        else:
            bad.append(f)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = dict(run.cov)
    cov["explanation"] = explain(prop)
    cov["crates_analysed"] = sorted(A.crates)
    cov["functions_in_fact_base"] = len(A.fns)
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick",
          "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "other", "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "assumptions": props.ASSUMPTIONS + prop.get("assumptions", []),
          "violations": len(bad)}
    cov["violations_found"] = [{"key": f.key, "where": f.where, "what": f.text[:2000]} for f in bad]
    evp = os.path.join(VERIF, "evidence", pid + ".json")
    json.dump(ev, open(evp, "w"), indent=1)
    print("%s: %s" % (pid, json.dumps({k: v for k, v in run.cov.items() if k != "explanation"})[:1500]))
    if bad:
        rp = os.path.join(VERIF, "evidence", pid + ".violations.txt")
        with open(rp, "w") as o:
            for f in bad:
                o.write("%s\n  at %s\n  %s\n" % (f.key, f.where, f.text))
        for f in bad[:10]:
            print("  %s at %s: %s" % (f.key, f.where, f.text[:700]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()

"""Builds the fact base: mirrors /repo's sources, compiles them (type-check and
MIR only; nothing is run) under the mirfacts driver and loads the JSON facts."""
import fcntl, hashlib, json, os, pickle, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.environ.get("VP_CACHE", os.path.join(VERIF, ".cache"))
USES = re.compile(r"\bvalidate::|\bextern\s+crate\s+validate\b|\buse\s+validate\b")
COMMENT = re.compile(r"^\s*//.*$", re.M)
DEP = re.compile(r"^\s*validate(\.git)?\s*=")
LIBS = ["air", "calendar", "communication", "derive", "geometry", "heat", "light", "matrix", "model", "polynomial",
        "rendering", "schedule", "test_models", "utils", "weather", "simple"]
BINS = ["simple", "spict", "sfluxmtx", "sfalsecolor", "scompare"]


class BuildError(Exception):
    pass


def _files(root):
    out = []
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in (".git", "target", "docs", "public", "node_modules"))
        rel = os.path.relpath(d, root)
        parts = rel.split(os.sep)
        if "tests" in parts or (parts[0] == "examples"):
            dirs[:] = []
            continue
        for f in sorted(files):
            if f.endswith(".rs") or f in ("Cargo.toml", "Cargo.lock") or (f.endswith((".in", ".txt")) and "src" in parts):
                out.append(os.path.normpath(os.path.join(rel, f)))
    return out


def _transform(rel, data):
    if os.path.basename(rel) == "Cargo.toml":
        t = data.decode()
        return "".join(l for l in t.splitlines(True) if not DEP.match(l)).encode()
    return data


def cut_tests(t):
    """source text without its test module"""
    m = re.search(r"^#\[cfg\(test\)\]\s*\n(#\[[^\n]*\]\s*\n)*mod \w+ \{", t, re.M)
    if m:
        # the module closes with the next line holding only '}'
        e = re.compile(r"^\}\s*$", re.M).search(t, m.end())
        t = t[: m.start()] + (t[e.end():] if e else "")
    return t


def sources(root=None):
    root = root or REPO
    r = {}
    for rel in _files(root):
        with open(os.path.join(root, rel), "rb") as f:
            r[rel] = _transform(rel, f.read())
    return r


def _hash(items):
    h = hashlib.sha256()
    for k in sorted(items):
        h.update(k.encode() + b"\0" + hashlib.sha256(items[k]).digest())
    return h.hexdigest()[:24]


def _env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["CARGO_INCREMENTAL"] = "0"
    sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=e, capture_output=True, text=True).stdout.strip()
    e["LD_LIBRARY_PATH"] = sysroot + "/lib"
    return e


def _run(cmd, cwd, env):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("%s failed in %s:\n%s" % (" ".join(cmd), cwd, p.stdout[-6000:]))
    return p.stdout


def _write_mirror(dst, items):
    os.makedirs(dst, exist_ok=True)
    keep = set(items)
    for rel, data in items.items():
        out = os.path.join(dst, rel)
        try:
            if open(out, "rb").read() == data:
                continue
        except OSError:
            pass
        os.makedirs(os.path.dirname(out), exist_ok=True)
        with open(out, "wb") as f:
            f.write(data)
    for d, _, files in os.walk(dst):
        for f in files:
            if os.path.relpath(os.path.join(d, f), dst) not in keep:
                os.remove(os.path.join(d, f))


def driver():
    d = os.path.join(VERIF, "driver")
    src = {f: open(os.path.join(d, f), "rb").read() for f in ("Cargo.toml", "src/main.rs", "src/json.rs")}
    h = _hash(src)
    exe = os.path.join(CACHE, "driver-" + h, "mirfacts")
    if not os.path.exists(exe):
        t = os.path.join(CACHE, "driver-target")
        _run(["cargo", "build", "--offline", "--target-dir", t], d, _env())
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        shutil.copy(os.path.join(t, "debug", "mirfacts"), exe + ".tmp")
        os.rename(exe + ".tmp", exe)
    return exe, h


def _compile(tag, items, dh, exe, args):
    """returns the directory of fact files for this set of sources"""
    h = _hash(items)
    out = os.path.join(CACHE, "facts-%s-%s-%s" % (tag, h, dh[:8]))
    if os.path.exists(os.path.join(out, "DONE")):
        return out, h
    mir = os.path.join(CACHE, "mirror-" + tag)
    _write_mirror(mir, items)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    env = _env()
    env["RUSTC_WORKSPACE_WRAPPER"] = exe
    env["MIRFACTS_OUT"] = out
    tgt = os.path.join(CACHE, "target")
    # dependencies stay warm, but every workspace crate must be re-analysed
    names = set()
    for rel, data in items.items():
        if os.path.basename(rel) == "Cargo.toml":
            m = re.search(rb'^\s*name\s*=\s*"([^"]+)"', data, re.M)
            if m:
                names.add(m.group(1).decode())
    for sub in ("build", ".fingerprint"):
        d = os.path.join(tgt, "debug", sub)
        for n in os.listdir(d) if os.path.isdir(d) else []:
            if n in names or n.rsplit("-", 1)[0] in names:
                shutil.rmtree(os.path.join(d, n), ignore_errors=True)
    log = _run(["cargo", "check", "--offline", "--target-dir", tgt] + args, mir, env)
    open(os.path.join(out, "DONE"), "w").write(log[-4000:])
    # keep the cache small: only the newest two fact sets
    olds = sorted((os.path.getmtime(os.path.join(CACHE, x)), x) for x in os.listdir(CACHE)
                  if x.startswith("facts-%s-" % tag))
    for _, x in olds[:-3]:
        shutil.rmtree(os.path.join(CACHE, x), ignore_errors=True)
    return out, h


def build():
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe, dh = driver()
        rdir, rh = _compile("repo", sources(), dh, exe, ["--workspace", "--features", "parallel"])
        fdir, fh = _compile("ref", sources(os.path.join(VERIF, "reference")), dh, exe, ["--workspace", "--features", "parallel"])
        sdir, sh = _compile("spec", sources(os.path.join(VERIF, "spec")), dh, exe, [])
    return rdir, fdir, sdir, rh, fh, sh


def _load(*dirs):
    crates = {}
    for d in dirs:
        for f in sorted(os.listdir(d)):
            if f.endswith(".json"):
                crates[f[:-5]] = json.load(open(os.path.join(d, f)))
    return crates


def load():
    """(facts of /repo plus the reference laws, facts of the reference tree, missing crates, hashes)"""
    rdir, fdir, sdir, rh, fh, sh = build()
    crates = _load(rdir, sdir)
    ref = _load(fdir)
    missing = [c for c in LIBS if c not in crates] + [b + "-bin" for b in BINS if b + "-bin" not in crates]
    missing += ["reference " + c for c in LIBS if c not in ref] + (["spec"] if "spec" not in crates else [])
    return crates, ref, missing, (rh, fh, sh)


if __name__ == "__main__":
    c, r, m, h = load()
    print({k: len(v["fns"]) for k, v in c.items()}, "missing", m, h)
    print({k: len(v["fns"]) for k, v in r.items()})

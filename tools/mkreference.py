#!/usr/bin/env python3
"""Regenerates /verif/reference from a reviewed tree of germolinal/simple:
non-test sources only, test modules cut off.  Run by hand after a reviewed
`fix:` commit; never by a check."""
import os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "analysis"))
import facts

src = sys.argv[1] if len(sys.argv) > 1 else "/repo"
dst = os.path.join(facts.VERIF, "reference")
items = facts.sources(src)
shutil.rmtree(dst, ignore_errors=True)
for rel, data in items.items():
    if rel.endswith(".rs"):
        t = facts.cut_tests(data.decode())
        data = t.encode()
    if rel.endswith("Cargo.toml"):
        data = re.sub(r"(?ms)^\[\[(bench|example|test)\]\].*?(?=^\[|\Z)", "", data.decode()).encode()
    if rel.split(os.sep)[0] in ("node_modules",) or "/benches/" in rel:
        continue
    out = os.path.join(dst, rel)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    open(out, "wb").write(data)
print(len(items), "files")

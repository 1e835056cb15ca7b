#!/usr/bin/env python3
"""Mirror /repo as a cargo package in /verif/.work/pkg (or the directory given).

/repo's Cargo.toml names an optional path dependency (factrs-typetag, an empty git submodule here) that cargo
refuses to load, so the harness depends on a mirror of /repo whose Cargo.toml lacks that dependency and the
`serde` feature that needs it.  Files are copied by content: a file is rewritten exactly when its content differs,
so cargo rebuilds exactly what changed, whatever the modification times in /repo are."""
import os, re, sys

REPO = os.environ.get("FACTRS_REPO", "/repo")
PKG = sys.argv[1] if len(sys.argv) > 1 else "/verif/.work/pkg"
SKIP = {".git", "target", "Cargo.lock", "factrs-typetag", ".github"}


def write(path, data):
    if os.path.exists(path):
        with open(path, "rb") as f:
            if f.read() == data:
                return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


seen = set()
for root, dirs, files in os.walk(REPO):
    rel = os.path.relpath(root, REPO)
    dirs[:] = sorted(d for d in dirs if d not in SKIP)
    for name in sorted(files):
        if name in SKIP:
            continue
        r = os.path.normpath(os.path.join(rel, name))
        with open(os.path.join(root, name), "rb") as f:
            data = f.read()
        if r == "Cargo.toml":
            t = data.decode()
            t = re.sub(r"(?m)^typetag\s*=.*\n", "", t)
            t = re.sub(r"(?m)^serde\s*=\s*\{.*\n", "", t)
            t = re.sub(r"(?m)^serde\s*=\s*\[[^\]]*\]\n", "", t)
            data = t.encode()
        write(os.path.join(PKG, r), data)
        seen.add(r)
for root, dirs, files in os.walk(PKG):
    for name in files:
        r = os.path.normpath(os.path.join(os.path.relpath(root, PKG), name))
        if r not in seen:
            os.unlink(os.path.join(PKG, r))

#!/usr/bin/env python3
"""Create build/ws: the workspace cargo sees.

/repo cannot be built in place: four of its member crates have no sources (the
lookup tables are not checked in). As the official build does, this links every
entry of /repo into build/ws and supplies the missing src/lib.rs of the table
crates, here the on-demand reconstructions from /verif/lut.

A content hash of everything compiled decides staleness (mtimes of a restored
tree say nothing): when it changed since the last build in a target directory,
cargo's fingerprints for the linked crates are dropped.
"""
import hashlib, os, shutil, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("F256_REPO", "/repo")
WS = os.path.join(V, "build", "ws")


def relink(src, dst):
    if os.path.islink(dst) and os.readlink(dst) == src:
        return
    if os.path.islink(dst) or os.path.isfile(dst):
        os.unlink(dst)
    elif os.path.isdir(dst):
        shutil.rmtree(dst)
    os.symlink(src, dst)


def main():
    os.makedirs(WS, exist_ok=True)
    want = set()
    for e in sorted(os.listdir(REPO)):
        if e in (".git", "Cargo.lock", "target", ".gitignore", ".github", "tests", "analysis"):
            continue
        src, dst = os.path.join(REPO, e), os.path.join(WS, e)
        want.add(e)
        if e.endswith("_lut") and not os.path.exists(os.path.join(src, "src")):
            if os.path.islink(dst):
                os.unlink(dst)
            os.makedirs(os.path.join(dst, "src"), exist_ok=True)
            for f in os.listdir(src):
                relink(os.path.join(src, f), os.path.join(dst, f))
            relink(os.path.join(V, "lut", e + ".rs"), os.path.join(dst, "src", "lib.rs"))
            for z in ("mpz.rs", "mpz_pure.rs"):
                relink(os.path.join(V, "lut", z), os.path.join(dst, "src", z))
        else:
            relink(src, dst)
    for e in os.listdir(WS):
        if e not in want and e not in ("Cargo.lock", "target"):
            p = os.path.join(WS, e)
            if os.path.islink(p) or os.path.isfile(p):
                os.unlink(p)
            else:
                shutil.rmtree(p)
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), os.path.join(V, "lut")):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                h.update(open(p, "rb").read())
    h.update(open(os.path.join(REPO, "Cargo.toml"), "rb").read())
    dig = h.hexdigest()
    for t in sys.argv[1:]:
        stamp = os.path.join(t, ".src-hash")
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != dig and os.path.isdir(t):
            for d, ds, fs in os.walk(t):
                if os.path.basename(d) == ".fingerprint":
                    for x in list(ds):
                        if x.startswith("f256-") or x.startswith("f256_"):
                            shutil.rmtree(os.path.join(d, x))
                    ds[:] = []
                elif os.path.basename(d) == "build":
                    # newer cargo: one directory per package
                    for x in list(ds):
                        if x == "f256" or x.startswith("f256-") or x.startswith("f256_"):
                            shutil.rmtree(os.path.join(d, x))
                    ds[:] = []
                elif os.path.basename(d) in ("deps", "incremental"):
                    ds[:] = []
        os.makedirs(t, exist_ok=True)
        open(stamp, "w").write(dig)


main()

#!/usr/bin/env python3
"""Content fingerprints of the workspace crates: prints the crates whose files differ from the last build."""
import hashlib, json, os, re, sys
REPO = os.environ.get("REPO_ROOT", "/repo"); STAMP = os.path.join(os.environ.get("CARGO_TARGET_DIR", "/verif/target"), "content.json")
def crates():
    out = {}
    for d in sorted(os.listdir(REPO)):
        p = os.path.join(REPO, d)
        if d in ("target", ".git", "docs", "examples", "nix"): continue
        cands = [p] if os.path.isfile(os.path.join(p, "Cargo.toml")) else (
            [os.path.join(p, s) for s in sorted(os.listdir(p))] if os.path.isdir(p) else [])
        for c in cands:
            t = os.path.join(c, "Cargo.toml")
            if not os.path.isfile(t): continue
            m = re.search(r"^name\s*=\s*['\"]([^'\"]+)", open(t).read(), re.M)
            if not m: continue
            h = hashlib.sha256()
            for root, dirs, files in os.walk(c):
                dirs[:] = sorted(x for x in dirs if x not in ("target", "tests", "docs", ".git", "node_modules"))
                for f in sorted(files):
                    fp = os.path.join(root, f)
                    if os.path.islink(fp): continue
                    h.update(fp.encode()); h.update(open(fp, "rb").read())
            out[m.group(1)] = h.hexdigest()
    return out
cur = crates()
if sys.argv[1] == "record":
    json.dump(cur, open(STAMP, "w"))
else:
    try: old = json.load(open(STAMP))
    except Exception: old = {}
    if old:
        for k, v in cur.items():
            if k in old and old[k] != v: print(k)

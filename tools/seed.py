#!/usr/bin/env python3
"""seed.py <file.py>...: turns seed definitions into /verif/seeded/<id>/ and confirms them in a scratch copy of /repo.
A definition file sets: id, prop, needs, breaks, edits=[(file, old, new)], main (Rust source of the demonstration)."""
import sys, os, json, subprocess, shutil
WT = "/tmp/seedwt"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    if not os.path.exists(WT): sh(f"cp -a /repo {WT}")
    sh(f"git -C {WT} fetch -q /repo main && git -C {WT} checkout -qf FETCH_HEAD")
    for f in sys.argv[1:]:
        ns = {}; exec(open(f).read(), ns)
        seeds = ns.get("seeds") or [ns]
        for n in seeds: one(n)
def one(n):
    sid = n["id"]; d = f"/verif/seeded/{sid}"
    sh(f"git -C {WT} checkout -qf .")
    for (p, old, new) in n["edits"]:
        s = open(f"{WT}/{p}").read()
        if s.count(old) != 1: print(sid, "EDIT matches", s.count(old), p, repr(old[:60])); return
        open(f"{WT}/{p}", "w").write(s.replace(old, new))
    # changed lines must be of the original repository
    patch = sh(f"git -C {WT} diff").stdout
    sh(f"git -C {WT} checkout -qf .")
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(patch)
    open(f"{d}/main.rs", "w").write(n["main"].lstrip())
    shutil.copy("/verif/tools/demo.sh", f"{d}/demo.sh"); os.chmod(f"{d}/demo.sh", 0o755)
    shutil.copy("/verif/harness/Cargo.lock", f"{d}/Cargo.lock")
    deps = [l for l in open("/verif/harness/Cargo.toml") if l.startswith("bluejay") or l.startswith("serde_json")]
    open(f"{d}/deps.txt", "w").write("".join(l.replace("../../repo", "/repo") for l in deps))
    json.dump({"property": n["prop"], "needs": n["needs"], "what_it_breaks": n["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    clean = sh(f"bash {d}/demo.sh", cwd=WT)
    sh(f"git -C {WT} apply {d}/patch.diff")
    bad = sh(f"bash {d}/demo.sh", cwd=WT)
    t = sh("cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 2>&1", cwd=WT, env={**os.environ, "RUSTUP_TOOLCHAIN": "1.79.0", "INSTA_UPDATE": "no", "INSTA_FORCE_PASS": "0", "TRYBUILD": "wip", "NO_COLOR": "1"})
    sh(f"git -C {WT} checkout -qf .")
    ok = clean.returncode == 0 and bad.returncode not in (0, 4) and t.returncode == 0
    print(sid, n["prop"], "OK" if ok else "REJECTED", "clean", clean.returncode, "patched", bad.returncode, "tests", t.returncode)
    if not ok:
        print("  clean:", (clean.stdout + clean.stderr)[-600:]); print("  patched:", (bad.stdout + bad.stderr)[-600:])
        if t.returncode: print("  tests:", "\n".join(l for l in t.stdout.split("\n") if "FAILED" in l or l.startswith("error"))[:800])
main()

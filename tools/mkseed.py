"""mkseed.py SPEC.py...: write seeded/<id>/ from a specification file that defines
ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and DEMO (shell), FILES = {name: text}."""
import json, os, subprocess, sys, shutil, tempfile
SEEDED = "/verif/seeded"
RUST = '''#!/bin/bash
# builds demo.rs against the library that build.sh left behind, and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
rustc --edition 2021 -A warnings -o "$scratch/demo" --extern rtest=/repo/target/debug/librtest.rlib \\
    -L dependency=/repo/target/debug/deps "$here/demo.rs" || exit 2
mkdir "$scratch/tmp"
cd "$scratch" && TMPDIR="$scratch/tmp" SCRATCH="$scratch" timeout 60 ./demo
'''
PY = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
export PYTHONPATH=/repo/python PYTHONDONTWRITEBYTECODE=1 SCRATCH="$scratch"
cd "$scratch" && timeout 60 /opt/vp/venv/bin/python "$here/demo.py"
'''
def main(spec):
    ns = {"RUST": RUST, "PY": PY, "FILES": {}}
    exec(open(spec).read(), ns)
    d = f"{SEEDED}/{ns['ID']}"
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="mkseed.")
    try:
        diff = b""
        for f in dict.fromkeys(e[0] for e in ns["EDITS"]):
            text = subprocess.run(["git", "-C", "/repo", "show", f"HEAD:{f}"], capture_output=True, text=True, check=True).stdout
            new = text
            for ff, a, b in ns["EDITS"]:
                if ff != f: continue
                assert new.count(a) == 1, (ns["ID"], f, new.count(a), a)
                new = new.replace(a, b)
            for side, body in (("a", text), ("b", new)):
                os.makedirs(os.path.dirname(f"{t}/{side}/{f}"), exist_ok=True)
                open(f"{t}/{side}/{f}", "w").write(body)
        diff = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=t, capture_output=True).stdout
        open(f"{d}/patch.diff", "wb").write(diff)
    finally:
        shutil.rmtree(t)
    demo = ns["DEMO"]
    open(f"{d}/demo.sh", "w").write(demo)
    os.chmod(f"{d}/demo.sh", 0o755)
    for n, body in ns["FILES"].items():
        open(f"{d}/{n}", "w").write(body)
    json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
    print("wrote", d)
for s in sys.argv[1:]:
    main(s)

#!/usr/bin/env python3
"""Build the simulator from /repo's current working tree.

Generates /verif/build/rtest (a package whose modules are /repo/src/*.rs by #[path]) and builds /verif/sim against it.
The first of these that compiles is used:
  cli+api   everything, with the parser and pyo3 replaced by stubs
  cli       the same without the direct library driver
  api       only the modules the repository's own offline build compiles (no CLI, no collection)
Prints the chosen mode; exit 0 if a simulator was built.
"""
import os, re, subprocess, sys, fcntl, json

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RTSIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(BUILD, "rtest")
SIM = os.path.join(VERIF, "sim")

LEFT_OUT = {"collection_integration", "collection::nodes", "python_discovery::cases",
            "python_discovery::constant_resolver", "python_discovery::discovery",
            "python_discovery::module_resolver", "python_discovery::semantic_analyzer",
            "python_discovery::visitor"}


def read(p):
    with open(p, encoding="utf-8") as f:
        return f.read()


def write(p, t):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or read(p) != t:
        with open(p, "w", encoding="utf-8") as f:
            f.write(t)


def module(path, directory, prefix="", full=True):
    text = read(path)

    def use(m):
        return "" if not full and prefix + m[1] in LEFT_OUT else m[0]

    def mod(m):
        vis, name = m[1] or "", m[2]
        inner = f"{directory}/{name}"
        if full:
            if not prefix and name == "python_discovery":
                return f'#[path = "{SIM}/stubs/python_discovery.rs"]\npub mod python_discovery;'
            if not prefix and name == "pyo3":
                vis = "pub "
        elif prefix + name in LEFT_OUT or name == "pyo3":
            return "" if name != "pyo3" else "mod pyo3 {}"
        if os.path.exists(f"{inner}/mod.rs"):
            if not full and any(x.startswith(f"{prefix}{name}::") for x in LEFT_OUT):
                return f"{vis}mod {name} {{\n{module(f'{inner}/mod.rs', inner, f'{prefix}{name}::', full)}\n}}"
            return f'#[path = "{inner}/mod.rs"]\n{vis}mod {name};'
        return f'#[path = "{inner}.rs"]\n{vis}mod {name};'

    text = re.sub(r"^pub use (\w+)\b[^;]*;", use, text, flags=re.M)
    text = re.sub(r"^(pub(?:\([^)]*\))? )?mod (\w+);", mod, text, flags=re.M)
    return text


def generate(full):
    manifest = re.sub(r"^ruff_\w+ = .*\n", "", read(f"{REPO}/Cargo.toml"), flags=re.M)
    manifest = re.sub(r"^\[lib\]\n(?:.+\n)*", '[lib]\npath = "lib.rs"\n', manifest, flags=re.M)
    manifest = re.sub(r"^pyo3 = .*\n", f'pyo3 = {{ path = "{SIM}/stubs/pyo3", optional = true }}\n', manifest, flags=re.M)
    manifest = re.sub(r"^extension-module = .*\n", 'extension-module = []\nsim-cli = ["dep:pyo3"]\n', manifest, flags=re.M)
    manifest = re.sub(r"^\[dev-dependencies\]\n(?:.+\n)*", "", manifest, flags=re.M)
    lib = module(f"{REPO}/src/lib.rs", f"{REPO}/src", "", full).replace('"extension-module"', '"sim-cli"')
    write(f"{OUT}/Cargo.toml", manifest)
    write(f"{OUT}/lib.rs", "#![allow(warnings)]\n" + lib)


def cargo(features):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=f"{BUILD}/target", CARGO_TERM_COLOR="never",
               RUSTUP_TOOLCHAIN="stable", RUSTC_WRAPPER="", CARGO_INCREMENTAL="1",
               RUSTFLAGS="")
    env.setdefault("HOME", "/root")
    return subprocess.run(["cargo", "build", "--offline", "--manifest-path", f"{SIM}/Cargo.toml", "--features", features],
                          env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def main():
    os.makedirs(BUILD, exist_ok=True)
    with open(f"{BUILD}/.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        seed = f"{BUILD}/Cargo.lock.seed"
        text = read(f"{REPO}/Cargo.lock")
        if not (os.path.exists(seed) and read(seed) == text and os.path.exists(f"{SIM}/Cargo.lock")):
            write(f"{SIM}/Cargo.lock", text)
            write(seed, text)
        lib, src = f"{BUILD}/libpysim.so", f"{VERIF}/pysim/preload.c"
        if not os.path.exists(lib) or os.path.getmtime(lib) < os.path.getmtime(src):
            c = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-w", "-o", lib + ".new", src, "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if c.returncode != 0:
                sys.stderr.write(c.stdout)
                return 2
            os.rename(lib + ".new", lib)
        logs = []
        for mode, full, feats in (("cli+api", True, "cli,api"), ("cli", True, "cli"), ("api", False, "api")):
            generate(full)
            r = cargo(feats)
            if r.returncode == 0:
                write(f"{BUILD}/mode.json", json.dumps({"mode": mode}))
                if logs:
                    sys.stderr.write("note: built in reduced mode %s\n" % mode)
                    if os.environ.get("RTSIM_VERBOSE"):
                        sys.stderr.write("".join(logs))
                print(mode)
                return 0
            logs.append(f"--- {mode}\n{r.stdout}\n")
        sys.stderr.write("".join(logs))
        return 2


if __name__ == "__main__":
    sys.exit(main())

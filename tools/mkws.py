#!/usr/bin/env python3
"""Mirror /repo into <out>/ws as a cargo workspace that resolves offline.

Only manifests are generated; every `src` directory is a symlink into the repo, so rustc compiles the
repo's own files.  Manifests lose dev-dependencies, benches and examples.  A crate listed in STUBBED is replaced by
/verif/shims/<name>.  Unavailable registry crates are patched with /verif/shims/registry/<name>.
"""
import os, re, sys, json

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AXON_REPO", "/repo")
OUT = os.environ.get("AXON_BUILD", f"{VERIF}/build")
WS = f"{OUT}/ws"

# repo crates compiled from the repo's own sources
REAL = [
    "protocol",
    "common/apm-derive", "common/config-parser", "common/crypto", "common/hasher",
    "common/logger", "common/merkle", "common/version",
    "core/interoperation", "core/rpc-client", "core/db", "core/storage", "core/executor",
    "core/mempool", "core/consensus", "core/api", "core/run", "core/cli",
    "devtools/axon-tools",
]
# repo crates that need unavailable crates beyond what a shim can stand in for
STUBBED = {"common/apm": "common-apm", "core/network": "core-network"}


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.islink(path):
        os.unlink(path)
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)


def link(dst, src):
    if os.path.islink(dst) and os.readlink(dst) == src:
        return
    if os.path.lexists(dst):
        os.unlink(dst)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    os.symlink(src, dst)


def sanitise(text):
    parts = re.split(r"^(?=\[)", text, flags=re.M)
    out = []
    for p in parts:
        head = p.split("\n", 1)[0]
        if head.startswith(("[dev-dependencies", "[[bench", "[[example", "[profile", "[workspace", "[patch",
                            "[target.'cfg(all(not(target_env")):
            continue
        # pprof (a profiler, off by default) and jemalloc (an allocator, off by default) are not available here
        out.append(re.sub(r"^(pprof|common-memory-tracker|jemalloc) = .*\n", "", p, flags=re.M))
    return "".join(out)


def main():
    members = []
    for m in REAL:
        if not os.path.isdir(f"{REPO}/{m}"):
            continue
        text = open(f"{REPO}/{m}/Cargo.toml").read()
        write(f"{WS}/{m}/Cargo.toml", sanitise(text))
        for e in os.listdir(f"{REPO}/{m}"):
            if e in ("Cargo.toml", "Cargo.lock", "tests", "benches", "examples", "target"):
                continue
            link(f"{WS}/{m}/{e}", f"{REPO}/{m}/{e}")
        members.append(m)
    # whatever the sources include by relative path is resolved through the src symlink (in /repo)
    for m, shim in STUBBED.items():
        base = f"{VERIF}/shims/{shim}"
        if not os.path.isdir(base):
            continue
        for d, dirs, names in os.walk(base):
            dirs[:] = [x for x in dirs if x != "target"]
            for n in names:
                link(f"{WS}/{m}/{os.path.relpath(d, base)}/{n}".replace("/./", "/"), f"{d}/{n}")
        # the shim pulls in what it can of the real crate through `real`
        link(f"{WS}/{m}/src/real", f"{REPO}/{m}/src")
        members.append(m)
    for h in sorted(os.listdir(f"{VERIF}/harness")):
        if not os.path.exists(f"{VERIF}/harness/{h}/Cargo.toml"):
            continue
        for e in os.listdir(f"{VERIF}/harness/{h}"):
            link(f"{WS}/harness/{h}/{e}", f"{VERIF}/harness/{h}/{e}")
        members.append(f"harness/{h}")
    link(f"{WS}/repo", REPO)
    patch = []
    reg = f"{VERIF}/shims/registry"
    if os.path.isdir(reg):
        for c in sorted(os.listdir(reg)):
            patch.append(f'{c} = {{ path = "{reg}/{c}" }}\n')
    root = "[workspace]\nresolver = \"2\"\nmembers = [\n" + "".join(f'    "{m}",\n' for m in members) + "]\n"
    root += f'exclude = ["repo"]\n'
    root += "\n[patch.crates-io]\n" + "".join(patch)
    root += """
[profile.dev]
opt-level = 1
debug = "line-tables-only"
overflow-checks = true
debug-assertions = true

[profile.dev.package."*"]
opt-level = 2
debug = false
debug-assertions = false
"""
    write(f"{WS}/Cargo.toml", root)
    lock = f"{WS}/Cargo.lock"
    base = f"{VERIF}/tools/Cargo.lock"
    if not os.path.exists(lock):
        src = base if os.path.exists(base) else f"{REPO}/Cargo.lock"
        write(lock, open(src).read())


main()

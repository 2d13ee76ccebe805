#!/usr/bin/env python3
"""Generates /verif/mc/gen/cdn-*: verbatim copies of the sources of /repo's crates with Cargo.toml files whose
dependencies are resolved by /verif/mc's workspace (shims for tokio, parking_lot, async-channel, ...).
Only files whose content changed are rewritten, so cargo rebuilds only what changed."""
import os, re, sys

REPO = os.environ.get("VMC_REPO", "/repo")
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "gen")
CRATES = ["cdn-proto", "cdn-broker", "cdn-client", "cdn-marshal"]
SKIP = {"target", "benches", "Dockerfile"}


def put(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return False
    except OSError:
        pass
    with open(path, "wb") as f:
        f.write(data)
    return True


LOCKS = {"Mutex", "MutexGuard", "RwLock", "RwLockReadGuard", "RwLockWriteGuard", "atomic"}


def leaves(tree, prefix=""):
    """The paths of a use tree"""
    tree = tree.strip()
    depth = start = 0
    brace = tree.find("{")
    if brace < 0:
        return [prefix + tree] if tree else []
    head, inner = tree[:brace], tree[brace + 1:tree.rindex("}")]
    out = []
    for i, c in enumerate(inner + ","):
        if c == "{":
            depth += 1
        elif c == "}":
            depth -= 1
        elif c == "," and depth == 0:
            out += leaves(inner[start:i], prefix + head)
            start = i + 1
    return out


def std_locks(text):
    """std's locks would block the checker's thread: they are replaced by its own, line by line"""
    def use(m):
        paths = [re.sub(r"\s+", " ", p).strip() for p in leaves(re.sub(r"//[^\n]*", "", m.group(2)))]
        name = lambda p: re.match(r"(?:::)?std::sync::(\w+)", p)
        if not any(name(p) and name(p).group(1) in LOCKS for p in paths):
            return m.group(0)
        new = [re.sub(r"^(?:::)?std::sync::", "tokio::vmc_sync::", p) for p in paths]
        return m.group(1) + "use {" + ", ".join(new) + "};" + "\n" * m.group(0).count("\n")
    text = re.sub(r"(?m)^(\s*(?:pub(?:\([^)]*\))? )?)use ((?:::)?std::[^;]*);", use, text)
    # a module that is used by its name
    if re.search(r"(?m)^\s*use std::(sync;|\{[^;]*\bsync\s*[,}])", text):
        text = re.sub(r"(?<![:\w])sync::(" + "|".join(LOCKS) + r")\b", r"tokio::vmc_sync::\1", text)
    return re.sub(r"(?<!use )\b(?:::)?std::sync::(" + "|".join(LOCKS) + r")\b", r"tokio::vmc_sync::\1", text)


def manifest(text):
    out = []
    for part in re.split(r"(?m)^(?=\[)", text):
        if part.startswith(("[[bin]]", "[[bench]]", "[dev-dependencies]", "[build-dependencies]",
                            "[target.'cfg(tokio_unstable)'.dependencies]", "[lints")):
            # the build script keeps its dependencies
            if not part.startswith("[build-dependencies]"):
                continue
        out.append(part)
    text = "".join(out)
    text = re.sub(r"(?m)^async-std\s*=.*\n", "", text)
    text = re.sub(r'(?m)^runtime-async-std\s*=.*\n', "", text)
    text = re.sub(r'(?m)^async-channel\s*=.*$', "async-channel.workspace = true", text)
    text = re.sub(r'(?m)^local-ip-address\s*=.*$', "local-ip-address.workspace = true", text)
    text = text.replace("[package]\n", "[package]\nautobins = false\nautobenches = false\nautotests = false\n", 1)
    text += "\n[lints.rust]\nunexpected_cfgs = \"allow\"\n"
    return text


def main():
    keep = set()
    changed = []
    for crate in CRATES:
        src = os.path.join(REPO, crate)
        for base, dirs, files in os.walk(src):
            dirs[:] = [d for d in dirs if d not in SKIP]
            for name in files:
                if name in SKIP:
                    continue
                path = os.path.join(base, name)
                rel = os.path.relpath(path, REPO)
                with open(path, "rb") as f:
                    data = f.read()
                if rel == f"{crate}/Cargo.toml":
                    data = manifest(data.decode()).encode()
                elif name.endswith(".rs") and rel.startswith(f"{crate}/src/"):
                    text = data.decode(errors="surrogateescape")
                    data = std_locks(text).encode(errors="surrogateescape")
                keep.add(rel)
                if put(os.path.join(OUT, rel), data):
                    changed.append(rel)
    for base, dirs, files in os.walk(OUT):
        for name in files:
            rel = os.path.relpath(os.path.join(base, name), OUT)
            if rel not in keep:
                os.unlink(os.path.join(base, name))
                changed.append("-" + rel)
    if changed:
        print("gen: updated", len(changed), "files", file=sys.stderr)


main()

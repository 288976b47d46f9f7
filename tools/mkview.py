#!/usr/bin/env python3
"""Makes a cargo view of /repo in which the `manul` dependency is the stand-in of /verif/stub/manul.

mkview.py OUT [--tests]: OUT/src -> symlink to <repo>/src; OUT/Cargo.toml and Cargo.lock derived from
the repository's. With --tests the stand-in's `dev` feature is on for dev-dependencies."""
import os, re, sys

REPO = os.environ.get("SYN_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STUB = os.path.join(HERE, "stub", "manul")


def write(path, text):
    if os.path.exists(path) and not os.path.islink(path) and open(path).read() == text:
        return
    if os.path.lexists(path):
        os.remove(path)
    with open(path, "w") as f:
        f.write(text)


def make(out, tests=False):
    os.makedirs(out, exist_ok=True)
    src = os.path.join(out, "src")
    if not (os.path.islink(src) and os.readlink(src) == REPO + "/src"):
        if os.path.lexists(src):
            os.remove(src)
        os.symlink(REPO + "/src", src)
    rd = os.path.join(out, "README.md")
    if not os.path.lexists(rd):
        os.symlink(REPO + "/README.md", rd)
    toml = open(REPO + "/Cargo.toml").read()
    n = len(re.findall(r"^manul[ \t]*=", toml, flags=re.M))
    if n == 0:
        raise SystemExit("mkview: no manul dependency in Cargo.toml")
    head, sep, tail = toml.partition("[dev-dependencies]")
    head = re.sub(r"^manul[ \t]*=.*\n", f'manul = {{ path = "{STUB}" }}\n', head, flags=re.M)
    dev = f'manul = {{ path = "{STUB}", features = ["dev"] }}\n' if tests else ""
    tail = re.sub(r"^manul[ \t]*=.*\n", dev, tail, flags=re.M)
    toml = head + sep + tail
    # benches and examples are not part of the library
    toml = re.sub(r"^\[\[(bench|example)\]\]\n(?:(?!\[)[^\n]*\n)*", "", toml, flags=re.M)
    if "[workspace]" not in toml:
        toml += "\n[workspace]\n"
    write(os.path.join(out, "Cargo.toml"), toml)
    lock = open(REPO + "/Cargo.lock").read()
    blocks = re.split(r"\n(?=\[\[package\]\]\n)", lock)
    blocks = [b for b in blocks if 'name = "manul"' not in b]
    lp = os.path.join(out, "Cargo.lock")
    mark = os.path.join(out, ".lockbase")
    base = "\n".join(blocks)
    if not (os.path.exists(lp) and os.path.exists(mark) and open(mark).read() == base):
        write(lp, base.replace(' "manul",\n', ""))
        write(mark, base)


if __name__ == "__main__":
    make(sys.argv[1], "--tests" in sys.argv)

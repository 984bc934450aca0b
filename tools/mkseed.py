#!/usr/bin/env python3
"""usage: mkseed.py ID FILE <<< "old\n====\nnew": writes seeded/ID/patch.diff (developer tool)."""
import sys, os, subprocess, tempfile, shutil
id = sys.argv[1]
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(root, "seeded", id); os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix="mkseed."); r = os.path.join(w, "repo")
subprocess.check_call(["git", "clone", "-q", "-s", "/repo", r])
edits = sys.stdin.read().split("\n#### ")
for e in edits:
    if not e.strip(): continue
    fn, body = e.split("\n", 1); fn = fn.replace("#### ", "").strip()
    old, new = body.split("\n====\n"); old = old.strip("\n"); new = new.strip("\n")
    p = os.path.join(r, fn); s = open(p).read()
    assert s.count(old) == 1, (fn, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
subprocess.call(["/opt/veriftools/go1.27.3/bin/gofmt", "-l", r])
out = subprocess.check_output(["git", "-C", r, "diff"])
open(os.path.join(d, "patch.diff"), "wb").write(out)
shutil.rmtree(w)
demo = os.path.join(d, "demo.sh")
if not os.path.exists(demo):
    open(demo, "w").write('''#!/bin/bash
# Builds and runs the program beside this file against the tree in the current
# directory.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
repo="$PWD"
d="$(mktemp -d)" || exit 3
trap 'rm -rf "$d"' EXIT
cp "$here"/*.go "$d/" || exit 3
sed 's#^module .*#module demo#' go.mod > "$d/go.mod"
printf 'require github.com/nlpodyssey/spago v0.0.0\\nreplace github.com/nlpodyssey/spago => %s\\n' "$repo" >> "$d/go.mod"
cp go.sum "$d/"
cd "$d" && timeout 200 go run .
''')
    os.chmod(demo, 0o755)

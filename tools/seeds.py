#!/usr/bin/env python3
"""Planted bugs: the table they are written from. Run "seeds.py gen [id...]" to
rewrite /verif/seeded/<id>/. A development tool; no check reads it or seeded/."""
import json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}


def seed(id, prop, edits, needs, breaks, demo, pkg=".", imports="", arch="amd64", race=False, generated=False):
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, pkg=pkg,
                     imports=imports.split(), arch=arch, race=race, generated=generated)


SH = '''#!/bin/bash
# exit 0: the property's demonstration passes; nonzero: it fails. Run in the repository's root.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off@ENV@
printf '{"Replace": {"%s": "%s"}}' "$PWD/@PKG@zz_seeded_demo_test.go" "$here/demo_test.go" > "$tmp/overlay.json"
go test@RACE@ -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 250s -run '^TestSeededDemo$' ./@PKG@
'''

# for a demonstration that runs on the assembly the generator writes
GENERATE = """cat > "$tmp/gen.mod" <<'E'
module github.com/phoreproject/bls

go 1.26.0

require (
	github.com/minio/blake2b-simd v0.0.0-20160723061019-3f5f724cb5b1
	github.com/mmcloughlin/avo v0.0.0-20190318053554-7a0eb66183da
	golang.org/x/crypto v0.0.0-20210921155107-089bfa567519
	golang.org/x/sys v0.49.0
	golang.org/x/tools v0.52.0
)

replace golang.org/x/crypto => golang.org/x/crypto v0.0.0-20210921155107-089bfa567519
E
GOSUMDB=off GOFLAGS="-mod=mod -modfile=$tmp/gen.mod" go run asm/asm.go -out "$tmp/gen.s" || exit 4
printf '{"Replace": {"%s": "%s", "%s": "%s"}}' "$PWD/zz_seeded_demo_test.go" "$here/demo_test.go" "$PWD/primitivefuncs_amd64.s" "$tmp/gen.s" > "$tmp/overlay.json"
"""


def files(id):
    s = SEEDS[id]
    pkg = "" if s["pkg"] == "." else s["pkg"] + "/"
    sh = SH.replace("@PKG@", pkg).replace("@RACE@", " -race" if s["race"] else "")
    sh = sh.replace("@ENV@", " GOARCH=386 CGO_ENABLED=0" if s["arch"] == "386" else " GORACE=history_size=1000" if s["race"] else "")
    if s["generated"]:
        l = sh.splitlines(True)
        sh = "".join(GENERATE if x.startswith("printf") else x for x in l)
    name = "bls_test" if s["pkg"] == "." else s["pkg"] + "_test"
    imps = ["testing"] + s["imports"] + ["github.com/phoreproject/bls"]
    if s["pkg"] != ".":
        imps.append("github.com/phoreproject/bls/" + s["pkg"])
    body = s["demo"].strip() + "\n"
    imps = [i for i in imps if (i.split("/")[-1] + ".") in body]
    go = "package %s\n\nimport (\n%s\n)\n\n%s" % (
        name, "\n".join('\t"%s"' % i for i in sorted(imps)), body)
    meta = json.dumps({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n"
    return {"demo.sh": sh, "demo_test.go": go, "meta.json": meta}


def apply(id, root):
    for e in SEEDS[id]["edits"]:
        f, old, new = e[:3]
        p = os.path.join(root, f)
        t = open(p).read()
        n = t.count(old)
        if len(e) == 4:  # the occurrence to edit, from 0
            parts = t.split(old)
            t = old.join(parts[:e[3] + 1]) + new + old.join(parts[e[3] + 1:])
        elif n != 1:
            raise SystemExit("%s: %s: %d matches of %r" % (id, f, n, old[:80]))
        else:
            t = t.replace(old, new)
        open(p, "w").write(t)


def gen(id):
    d = os.path.join(VERIF, "seeded", id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        os.mkdir(w + "/r")
        subprocess.check_call("git -C /repo archive HEAD | tar x -C %s/r && cd %s/r && git init -q . && git add -A "
                              "&& git -c user.name=x -c user.email=x@x commit -qm x" % (w, w), shell=True)
        apply(id, w + "/r")
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"])
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    for n, t in files(id).items():
        p = os.path.join(d, n)
        open(p, "w").write(t)
        if n.endswith(".sh"):
            os.chmod(p, 0o755)


sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == "__main__":
    import seeds as me
    import seedlist  # noqa: F401  (fills me.SEEDS)
    if sys.argv[1] == "gen":
        for id in sys.argv[2:] or me.SEEDS:
            me.gen(id)
            print("generated", id)
    elif sys.argv[1] == "list":
        print("\n".join(me.SEEDS))

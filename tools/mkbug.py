#!/usr/bin/env python3
"""Creates and verifies planted bugs.

usage: mkbug.py make SPEC.py...     writes /verif/seeded/<id>/ for every bug of the spec files and verifies it
       mkbug.py verify [ID...]      verifies the committed bugs again
       mkbug.py run [ID...]         runs the check of the property of every bug with the patch applied to /repo

A spec file contains calls of bug(id, property, needs, breaks, edits, main), where edits is a list of
(file, old text, new text) and main the body of the demonstration program.
"""
import json, os, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
REPO = "/repo"
BASE = "e07ec26"
DEMO = '''#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd /repo || exit 3
exec go run %s "$D/main.go"
'''


def sh(cmd, cwd=None, timeout=600):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def scratch():
    d = tempfile.mkdtemp(prefix="bug-", dir="/tmp")
    os.rmdir(d)
    code, out = sh(f"git worktree add --detach {d} HEAD", REPO)
    assert code == 0, out
    return d


def drop(d):
    sh(f"git worktree remove --force {d}", REPO)
    shutil.rmtree(d, ignore_errors=True)
    sh("git worktree prune", REPO)


def stable(d):
    code, out = sh(". /opt/vp/env.sh; go build -tags timetzdata ./...", d)
    if code:
        return "build: " + out
    code, out = sh(f". /opt/vp/env.sh; go test -json -tags timetzdata -vet=off -count=1 -timeout 10m ./... > {d}-test.json; "
                   f"python3 /opt/vp/stable_ids.py < {d}-test.json > {d}-test.ids; python3 /opt/vp/results.py {d}-out.json gojson:{d}-test.ids; rm -f {d}-test.json {d}-test.ids", d)
    passed = set(json.load(open(f"{d}-out.json"))["passed"])
    os.remove(f"{d}-out.json")
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    missing = [t for t in base if t not in passed]
    if missing:
        return "tests fail: " + "; ".join(missing[:6])
    return ""


def originals(d, patch):
    """lines removed by the patch that do not come from the original repository"""
    bad, removed = [], 0
    cur = None
    line = 0
    blame = {}
    for l in patch.splitlines():
        if l.startswith("--- a/"):
            cur = l[6:]
            _, out = sh(f"git blame -l -s HEAD -- {cur}", REPO)
            blame[cur] = [x.lstrip("^")[:7] for x in out.splitlines()]
        elif l.startswith("@@"):
            line = int(l.split()[1].split(",")[0][1:])
        elif l.startswith("-") and not l.startswith("---"):
            removed += 1
            if not blame[cur][line - 1].startswith(BASE[:6]):
                bad.append(f"{cur}:{line}")
            line += 1
        elif l.startswith(" "):
            line += 1
    return removed, bad


def verify(id):
    dir = os.path.join(SEEDED, id)
    patch = os.path.join(dir, "patch.diff")
    problems = []
    removed, bad = originals(None, open(patch).read())
    if removed == 0:
        problems.append("no original line changed")
    if bad:
        problems.append("lines of own commits: " + ", ".join(bad))
    d = scratch()
    try:
        demo = os.path.join(tempfile.mkdtemp(prefix="demo-"), "x")
        shutil.copytree(dir, demo)
        for f in ("patch.diff", "meta.json"):
            os.remove(os.path.join(demo, f))
        sh(f"sed -i 's#^cd /repo #cd {d} #' {demo}/demo.sh; sed -i 's#(./repo.)#(\"{d}\")#' {demo}/main.go")
        code, out = sh(f"bash {demo}/demo.sh", d, 300)
        if code:
            problems.append(f"demo fails on the unchanged tree ({code}): {out[-1500:]}")
        code, out = sh(f"git apply {patch}", d)
        if code:
            return [f"does not apply: {out}"]
        code, out = sh(f"bash {demo}/demo.sh", d, 300)
        if code == 0:
            problems.append("demo passes with the patch")
        elif code == 124:
            problems.append("demo times out")
        else:
            print("   demo:", out.strip().splitlines()[-1][:200] if out.strip() else code)
        shutil.rmtree(os.path.dirname(demo))
        err = stable(d)
        if err:
            problems.append(err)
    finally:
        drop(d)
    return problems


BUGS = []


def bug(id, prop, needs, breaks, edits, main, imports=(), race=False):
    BUGS.append((id, prop, needs, breaks, edits, main, imports, race))


def make(spec):
    BUGS.clear()
    exec(compile(open(spec).read(), spec, "exec"), {"bug": bug})
    only = os.environ.get("ONLY", "").split(",") if os.environ.get("ONLY") else None
    for id, prop, needs, breaks, edits, main, imports, race in BUGS:
        if only and id not in only:
            continue
        print("==", id, prop, flush=True)
        dir = os.path.join(SEEDED, id)
        if os.path.exists(os.path.join(dir, "patch.diff")) and not only:
            print("   exists")
            continue
        d = scratch()
        try:
            ok = True
            for file, old, new in edits:
                p = os.path.join(d, file)
                text = open(p).read()
                if text.count(old) != 1:
                    print(f"   {file}: {text.count(old)} matches of {old!r}")
                    ok = False
                    break
                open(p, "w").write(text.replace(old, new))
            if not ok:
                continue
            _, gf = sh(". /opt/vp/env.sh; gofmt -l " + " ".join({e[0] for e in edits}), d)
            if gf.strip():
                print("   gofmt:", gf)
            _, patch = sh("git diff", d)
        finally:
            drop(d)
        os.makedirs(dir, exist_ok=True)
        open(os.path.join(dir, "patch.diff"), "w").write(patch)
        imps = "\n".join(f'\t{i}' if i.startswith(('"', '_ "')) or " " in i else f'\t"{i}"' for i in imports)
        open(os.path.join(dir, "main.go"), "w").write("package main\n\nimport (\n" + imps + "\n)\n\n" + main.strip() + "\n")
        sh(f". /opt/vp/env.sh; gofmt -w {dir}/main.go")
        open(os.path.join(dir, "demo.sh"), "w").write(DEMO % ("-race" if race else ""))
        os.chmod(os.path.join(dir, "demo.sh"), 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(dir, "meta.json"), "w"), indent=1)
        problems = verify(id)
        if problems:
            for p in problems:
                print("   PROBLEM", p)
            if not os.environ.get("KEEP"):
                shutil.rmtree(dir)
        else:
            print("   ok")


def copies():
    """Copies of the sources and the harness, so that /repo is left alone; INPLACE=1 uses /repo itself."""
    if os.environ.get("INPLACE"):
        return REPO, ROOT, lambda: None
    d = tempfile.mkdtemp(prefix="verif-bugrun-")
    sh(f"cp -a {REPO} {d}/repo && git -C {d}/repo checkout -q -- . && mkdir {d}/verif && cp -a check.sh setup.sh harness known_findings.txt {d}/verif/", ROOT)
    sh(f"sed -i 's#=> /repo#=> {d}/repo#' verif/harness/go.mod; sed -i 's#repoDir = \"/repo\"#repoDir = \"{d}/repo\"#' verif/harness/c29_generators.go", d)
    return d + "/repo", d + "/verif", lambda: shutil.rmtree(d)


def run(ids):
    repo, verif, done = copies()
    try:
        for id in ids:
            meta = json.load(open(os.path.join(SEEDED, id, "meta.json")))
            code, out = sh(f"git apply {SEEDED}/{id}/patch.diff", repo)
            assert code == 0, out
            try:
                code, out = sh(f"./check.sh {os.environ.get('CHECK') or meta['property']}", verif, 900)
            finally:
                sh("git checkout -- .", repo)
            viol = [l for l in out.splitlines() if l.startswith("VIOLATION property=")]
            print(f"{id:28} {meta['property']} {'CAUGHT' if code == 1 and viol else 'MISSED %d' % code}", flush=True)
            if os.environ.get("V"):
                print("\n".join(out.splitlines()[:12]))
    finally:
        done()


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        for a in args:
            make(a)
        return
    ids = args or sorted(os.listdir(SEEDED))
    ids = [i for i in ids if os.path.exists(os.path.join(SEEDED, i, "patch.diff"))]
    if cmd == "verify":
        for i in ids:
            print(i, verify(i) or "ok", flush=True)
    else:
        run(ids)


main()

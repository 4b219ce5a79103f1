#!/usr/bin/env python3
"""Mutation run: applies the mutants of a file written by mutgen to scratch copies and runs tests and checks.

usage: mutants.py MUTANTS.jsonl OUT.jsonl WORKERS [MAX_PER_FILE] [FILE_PREFIX...]

Each line of OUT is the mutant plus "result": build, tests, caught (with "by"), survived.
"""
import json, os, random, shutil, subprocess, sys, threading, queue, signal

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = [
    ("catalog/po/po_string", "C11 C10"), ("catalog/po/wrap", "C11"), ("catalog/po/encoder", "C11 C21 C28"),
    ("catalog/po/comment", "C21 C11 C10 C02"), ("catalog/po/file", "C21 C11 C10 C15 C02"), ("catalog/po/message", "C21 C11 C10"),
    ("catalog/po/", "C10 C11 C12 C09 C15 C21"),
    ("internal/mo", "C13 C12 C09 C15 C17"), ("catalog/json", "C14 C15 C02 C09 C12 C17 C04 C05 C28"),
    ("catalog/poplural/ast", "C16 C12 C20"), ("catalog/poplural", "C16 C17 C20 C19 C12"),
    ("catalog/po", "C15 C17 C10 C13 C03 C02 C04"),
    ("catalog/cldrplural", "C18 C19 C17 C12 C14"),
    ("catalog/catalog.go", "C04 C05 C17 C09"),
    ("internal/cast", "C19 C26 C18 C23 C24 C25"), ("internal/calendar", "C24 C25 C23"), ("internal/util", "C08 C06 C23 C26 C10"),
    ("humanize/numbers", "C26 C27"), ("humanize/dateformat", "C23 C27"), ("humanize/date", "C24 C25 C23 C27"), ("humanize", "C26 C23 C24 C25 C27"),
    ("loader", "C08 C07 C09 C06"), ("bundle", "C07 C06 C05 C02 C03"), ("localizer", "C03 C22 C04 C05 C17 C06"),
    ("locale", "C03 C04 C17 C22 C05"), ("utils", "C08 C22 C06 C07 C28"), ("", "C03 C22"),
]


def sh(cmd, cwd, timeout):
    p = subprocess.Popen(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, errors="replace")
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return 124, out


def main():
    src, out, workers = sys.argv[1], sys.argv[2], int(sys.argv[3])
    limit = int(sys.argv[4]) if len(sys.argv) > 4 else 10**9
    prefixes = sys.argv[5:]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            m = json.loads(l)
            done.add((m["file"], m["from"], m["to"], m["new"]))
    per = {}
    for l in open(src):
        m = json.loads(l)
        if prefixes and not any(m["file"].startswith(p) for p in prefixes):
            continue
        per.setdefault(m["file"], []).append(m)
    todo = []
    rnd = random.Random(7)
    for f, ms in sorted(per.items()):
        rnd.shuffle(ms)
        todo += [m for m in ms[:limit] if (m["file"], m["from"], m["to"], m["new"]) not in done]
    rnd.shuffle(todo)
    q = queue.Queue()
    for m in todo:
        q.put(m)
    print(len(todo), "mutants", flush=True)
    lock = threading.Lock()

    def work(w):
        d = f"/tmp/mut/{w}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
        os.makedirs(d + "/verif")
        sh(f"cp -a check.sh setup.sh harness known_findings.txt {d}/verif/; sed -i 's#=> /repo#=> {d}/repo#' {d}/verif/harness/go.mod", ROOT, 60)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                break
            p = f"{d}/repo/{m['file']}"
            text = open(p, "rb").read()
            open(p, "wb").write(text[:m["from"]] + m["new"].encode() + text[m["to"]:])
            try:
                code, o = sh(". /opt/vp/env.sh; ulimit -v 12000000; go build ./...", d + "/repo", 120)
                if code:
                    m["result"] = "build"
                else:
                    pk = ["./" + os.path.dirname(m["file"]), ".", "./catalog/..."] + (["./humanize"] if m["file"].startswith(("humanize", "internal/c")) else [])
                    code, o = sh(f". /opt/vp/env.sh; ulimit -v 12000000; go test -tags timetzdata -vet=off -timeout 40s {' '.join(dict.fromkeys(pk))}", d + "/repo", 120)
                    tests = code
                    if tests:
                        m["result"] = "tests"
                    else:
                        m["result"] = "survived"
                        ids = next(c for pre, c in CHECKS if m["file"].startswith(pre)).split()
                        for id in ids:
                            code, o = sh(f"VERIF_SEED=1 VERIF_TIER=quick ./check.sh {id}", d + "/verif", 600)
                            if code == 1 and "VIOLATION" in o:
                                m["result"], m["by"] = "caught", id
                                break
                            if code != 0:
                                m["result"], m["by"], m["out"] = "error", id, o[-600:]
                                break
            finally:
                open(p, "wb").write(text)
            with lock:
                with open(out, "a") as f:
                    f.write(json.dumps(m) + "\n")
        shutil.rmtree(d, ignore_errors=True)

    ts = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


main()

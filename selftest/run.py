#!/usr/bin/env python3
"""Try the checks on edited copies of /repo/punx:  selftest/run.py [case name beginnings]

cases/*.txt holds edits, each as

    # name | file | properties | quiet or caught
    old text
    ====
    new text
    ----

A "quiet" edit keeps the behaviour, a "caught" one breaks the properties named.
"""
import concurrent.futures
import glob
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
CHECK = os.path.join(os.path.dirname(HERE), "check.py")


def cases():
    for name in sorted(glob.glob(os.path.join(HERE, "cases", "*.txt"))):
        for block in open(name).read().split("\n----\n"):
            if not block.strip():
                continue
            head, _, body = block.lstrip("\n").partition("\n")
            title, file, pids, expect = [x.strip() for x in head.lstrip("# ").split("|")]
            edits = [e.split("\n====\n") for e in body.split("\n++++\n")]
            yield os.path.basename(name)[:-4] + ":" + title, file.split(), pids.split(), expect, edits


def run(case):
    title, file, pids, expect, edits = case
    d = tempfile.mkdtemp(prefix="punxself")
    try:
        repo = os.path.join(d, "repo")
        shutil.copytree("/repo/punx", os.path.join(repo, "punx"), ignore=shutil.ignore_patterns("cache", "data", "__pycache__"))
        for i, e in enumerate(edits):
            p = os.path.join(repo, "punx", file[min(i, len(file) - 1)])
            s = open(p).read()
            if len(e) != 2 or e[0] not in s:
                return title, "BAD CASE", "text not found", []
            open(p, "w").write(s.replace(e[0], e[1].rstrip("\n") if not e[0].endswith("\n") else e[1], 1))
            compile(open(p).read(), p, "exec")
        got, lines = {}, []
        for pid in pids:
            r = subprocess.run([sys.executable, CHECK, pid], env=dict(os.environ, PUNX_REPO=repo, PUNX_EVIDENCE=os.path.join(d, "ev")), capture_output=True, text=True)
            got[pid] = {0: "quiet", 1: "caught"}.get(r.returncode, "broken")
            if got[pid] != expect:
                lines += [pid + ": " + x for x in (r.stdout + r.stderr).splitlines() if "violated" in x or "BROKEN" in x or "e.g." in x or "Error" in x or "] " in x][:8]
        good = all(v == expect for v in got.values()) if expect == "quiet" else any(v == "caught" for v in got.values()) and all(v != "broken" for v in got.values())
        return title, "ok" if good else "WRONG", " ".join("%s=%s" % x for x in got.items()), [] if good else lines
    finally:
        shutil.rmtree(d)


def main():
    want = sys.argv[1:]
    todo = [c for c in cases() if not want or any(c[0].startswith(w) or c[0].split(":")[1].startswith(w) for w in want)]
    wrong = 0
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for title, state, what, lines in ex.map(run, todo):
            if state != "ok" or want:
                print(state, title, what)
            for x in lines:
                print("    " + x[: int(os.environ.get("W", "240"))])
            wrong += state != "ok"
    print("%d cases, %d wrong" % (len(todo), wrong))
    return wrong > 0


if __name__ == "__main__":
    sys.exit(main())

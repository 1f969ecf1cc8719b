#!/usr/bin/env python3
"""Runs the check of each planted bug's property against a scratch copy of /repo with the bug, and writes
docs/planted-bugs.md. Not part of any check. Usage: seeded.py [--jobs N] [ids]"""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
args = sys.argv[1:]
jobs = 2
if args[:1] == ["--jobs"]:
    jobs, args = int(args[1]), args[2:]
ids = args or sorted(d for d in os.listdir(SEED) if os.path.isdir(os.path.join(SEED, d)))


def one(i):
    m = json.load(open(os.path.join(SEED, i, "meta.json")))
    work = tempfile.mkdtemp(prefix="seeded-")
    try:
        repo, verif = os.path.join(work, "repo"), os.path.join(work, "verif")
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        subprocess.run(["git", "-C", HERE, "worktree", "prune"], check=False)
        subprocess.run(["rsync", "-a", "--exclude", "seeded", "--exclude", ".git", "--exclude", "out", HERE + "/", verif + "/"],
                       check=False) if shutil.which("rsync") else subprocess.run(
            "mkdir -p %s && cd %s && tar cf - --exclude=./seeded --exclude=./.git --exclude=./out . | tar xf - -C %s" % (verif, HERE, verif), shell=True, check=True)
        r = subprocess.run(["git", "-C", repo, "apply", os.path.join(SEED, i, "patch.diff")], capture_output=True, text=True)
        if r.returncode:
            return i, m, "patch does not apply", ""
        e = dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick")
        r = subprocess.run(["python3", "run.py", m["property"], "quick"], cwd=verif, env=e, capture_output=True, text=True, timeout=900)
        hit = r.returncode == 1 and "VIOLATION property=" + m["property"] in r.stdout
        lines = [l for l in r.stdout.splitlines() if l.strip()]
        return i, m, "caught" if hit else "MISSED (exit %d)" % r.returncode, lines[0][:160] if lines else ""
    finally:
        shutil.rmtree(work, ignore_errors=True)


res = {}
with cf.ThreadPoolExecutor(jobs) as ex:
    for i, m, state, line in ex.map(one, ids):
        res[i] = (m, state)
        print(i, m["property"], state, "|", line, flush=True)
if not args:
    with open(os.path.join(HERE, "docs", "planted-bugs.md"), "w") as f:
        f.write("# Planted bugs and the checks that catch them\n\nWritten by tools/seeded.py: the quick check of the property named, seed 1.\n\n")
        f.write("| bug | property | needs | what it breaks | quick check |\n|-----|------|------|------|------|\n")
        for i in sorted(res):
            m, state = res[i]
            f.write("| %s | %s | %s | %s | %s |\n" % (i, m["property"], m["needs"], m["what_it_breaks"], state))
print(sum(1 for r in res.values() if r[1] == "caught"), "of", len(res), "caught")

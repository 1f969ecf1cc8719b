#!/usr/bin/env python3
"""Reverts each fix: commit in a scratch copy of /repo, runs the check of its property and writes docs/reverted-fixes.md.
Not part of any check. Usage: reverts.py [--jobs N] [commits]"""
import os, re, shutil, subprocess, sys, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args, jobs = sys.argv[1:], 2
if args[:1] == ["--jobs"]:
    jobs, args = int(args[1]), args[2:]
fixes = [m.groups() for m in re.finditer(r"^fixed: property=(\S+) (\S+) (.*)$", open(HERE + "/known_findings.txt").read(), re.M)]
if args:
    fixes = [f for f in fixes if f[1] in args]


def one(f):
    pid, commit, what = f
    work = tempfile.mkdtemp(prefix="revert-")
    try:
        repo, verif = work + "/repo", work + "/verif"
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        subprocess.run("mkdir -p %s && cd %s && tar cf - --exclude=./seeded --exclude=./.git --exclude=./out . | tar xf - -C %s" % (verif, HERE, verif), shell=True, check=True)
        r = subprocess.run(["git", "-C", repo, "-c", "user.name=x", "-c", "user.email=x@x", "revert", "--no-edit", commit], capture_output=True, text=True)
        if r.returncode:
            return f, "does not revert cleanly"
        r = subprocess.run(["go", "build", "./..."], cwd=repo, capture_output=True, text=True)
        if r.returncode:
            return f, "does not build when reverted alone"
        e = dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick")
        r = subprocess.run(["python3", "run.py", pid, "quick"], cwd=verif, env=e, capture_output=True, text=True, timeout=900)
        return f, "reported" if r.returncode == 1 and "VIOLATION property=" + pid in r.stdout else "MISSED (exit %d)" % r.returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)


out = []
with cf.ThreadPoolExecutor(jobs) as ex:
    for f, state in ex.map(one, fixes):
        out.append((f, state))
        print(f[1], f[0], state, "|", f[2][:90], flush=True)
if not args:
    with open(HERE + "/docs/reverted-fixes.md", "w") as o:
        o.write("# Fixes reverted one at a time\n\nWritten by tools/reverts.py: the quick check of the property named, seed 1.\n\n| commit | property | what failed | quick check with the fix reverted |\n|---|---|---|---|\n")
        for f, state in out:
            o.write("| %s | %s | %s | %s |\n" % (f[1], f[0], f[2], state))

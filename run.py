#!/usr/bin/env python3
"""Runs the check of one property against /repo's working tree.

    run.py <ID> quick|thorough          exit 0: held; 1: a line VIOLATION property=<ID> replay=<file>; 2: no answer
    run.py <ID> --replay <file>         runs exactly that case again
    run.py --all quick|thorough [ID...] every check one after the other (development)

Environment: VERIF_SEED (default 1).
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, array

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(HERE, "harness")
OUT = os.path.join(HERE, "out", "replay")
ASSUME = json.load(open(os.path.join(HERE, "tools", "assumptions.json")))


def env():
    e = dict(os.environ)
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", PBT_HARNESS=HARNESS)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    return e


class NoAnswer(Exception):
    pass


def build(work, cli):
    """Builds the harness (and the command line) from the working tree into the scratch directory."""
    src = os.path.join(work, "harness")
    shutil.copytree(HARNESS, src, ignore=shutil.ignore_patterns("regress", "known"))
    if REPO != "/repo":
        p = os.path.join(src, "go.mod")
        s = open(p).read()
        open(p, "w").write(s.replace("=> /repo", "=> " + REPO))
    bins = {}

    def go(out, cwd, *flags):
        r = subprocess.run(["go", "build", "-buildvcs=false", *flags, "-o", out, "."], cwd=cwd, env=env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise NoAnswer("build failed:\n" + r.stdout[-4000:])
    bins["pbt"] = os.path.join(work, "pbt")
    go(bins["pbt"], src)
    bins["cli"] = os.path.join(work, "json-dom")
    if cli:
        go(bins["cli"], REPO)
    return bins


def info(bins, pid):
    for p in json.loads(subprocess.check_output([bins["pbt"], "list"], env=env())):
        if p["id"] == pid:
            return p
    raise NoAnswer("unknown property " + pid)


def replay(bins, binary, pid, case_file, limit, work):
    """Runs one case in a process of its own: (failed, message)."""
    try:
        r = subprocess.run([binary, "replay", "-prop", pid, "-case", case_file, "-cli", bins["cli"]], env=env(), cwd=work,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=limit + 60)
    except subprocess.TimeoutExpired:
        return True, "hang"
    if r.returncode == 0:
        return False, r.stdout.strip()
    if r.returncode == 1 and "PBT-FAIL" in r.stdout:
        return True, r.stdout[r.stdout.index("PBT-FAIL") + 9:].strip()
    if r.returncode == 3:
        return True, "hang: the case did not end within %ds" % limit
    if r.returncode == 66 or "DATA RACE" in r.stderr:
        return True, "data race\n" + r.stderr[:3000]
    if r.returncode == 2 and ("fatal error" in r.stderr or "panic:" in r.stderr or "goroutine stack exceeds" in r.stderr):
        return True, "process crash: " + r.stderr[:3000]
    if r.returncode < 0:
        raise NoAnswer("replay ended by signal %d" % -r.returncode)
    raise NoAnswer("replay exited with %d: %s" % (r.returncode, r.stderr[-2000:]))


def write_replay(pid, case, message):
    os.makedirs(OUT, exist_ok=True)
    n = 0
    while os.path.exists(os.path.join(OUT, "%s-%d.json" % (pid, n))):
        n += 1
    path = os.path.join(OUT, "%s-%d.json" % (pid, n))
    with open(path, "w") as f:
        json.dump({"property": pid, "message": message, "case": case}, f, indent=1, ensure_ascii=True)
    return path


def smaller(v):
    """Smaller variants of a JSON value, for cases that crash the process (rapid cannot shrink those)."""
    if isinstance(v, list):
        for n in (len(v) // 2, 1):
            if n:
                for i in range(0, len(v), n):
                    yield v[:i] + v[i + n:]
        for i, e in enumerate(v):
            for s in smaller(e):
                yield v[:i] + [s] + v[i + 1:]
    elif isinstance(v, dict):
        for k in v:
            yield {a: b for a, b in v.items() if a != k}
        for k in v:
            for s in smaller(v[k]):
                yield {**v, k: s}
    elif isinstance(v, str):
        n = len(v)
        for size in (n // 2, n // 4, 1):
            if size:
                for i in range(0, n, size):
                    yield v[:i] + v[i + size:]


def shrink(fails, case, seconds=40):
    end = time.time() + seconds
    progress = True
    while progress and time.time() < end:
        progress = False
        for s in smaller(case):
            if time.time() > end:
                break
            if len(json.dumps(s)) < len(json.dumps(case)) and fails(s):
                case, progress = s, True
                break
    return case


def known_findings(bins, pid, limit, work):
    """Confirms the listed findings of the property; they are listed in known_findings.txt and kept in harness/known."""
    d = os.path.join(HARNESS, "known", pid)
    listed = open(os.path.join(HERE, "known_findings.txt")).read() if os.path.exists(os.path.join(HERE, "known_findings.txt")) else ""
    n = 0
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        path = os.path.join(d, f)
        k = json.load(open(path))
        name = f[:-5]
        if "property=%s id=%s " % (pid, name) not in listed:
            raise NoAnswer("known/%s/%s is not listed in known_findings.txt" % (pid, f))
        try:
            failed, message = replay(bins, bins["pbt"], pid, path, limit, work)
        except NoAnswer as e:
            failed, message = True, str(e)
        if failed:
            n += 1
            print("KNOWN-FINDING: property=%s id=%s %s" % (pid, name, k["message"]))
        else:
            print("note: the known finding %s of %s does not fail any more (%s)" % (name, pid, message[:200]))
    return n


def check(pid, tier, seed):
    start = time.time()
    work = tempfile.mkdtemp(prefix="verif-pbt-")
    try:
        man = {c["property_id"] if "property_id" in c else c.get("property"): c for c in
               json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]}
        level = man.get(pid, {}).get("level", "exploration")
        bins = build(work, True)
        p = info(bins, pid)
        if p["race"]:
            bins.update(build_race(work, tier == "thorough"))
        nw = p["workers"] if tier == "quick" else p["tworkers"]
        budget = float(os.environ.get("VERIF_BUDGET", "240" if tier == "quick" else "660"))
        jobs = []
        for k in range(nw):
            # of a property about concurrency every second worker runs under the race detector
            b = bins["race"] if "race" in bins and k % 2 else bins["pbt"]
            e = env()
            e["GORACE"] = "exitcode=66 halt_on_error=1"
            err = open(os.path.join(work, "err-%d" % k), "w+")
            scale = float(os.environ.get("VERIF_SCALE", "1"))
            if b != bins["pbt"] and tier == "quick":
                scale *= 0.25
            jobs.append((k, b, err, subprocess.Popen(
                [b, "run", "-prop", pid, "-tier", tier, "-seed", str(seed), "-worker", str(k), "-workers", str(nw),
                 "-dir", work, "-cli", bins["cli"], "-budget", "%ds" % budget, "-scale", str(scale)],
                env=e, cwd=work, stdout=err, stderr=err)))
        deadline = time.time() + budget + p["limit_s"] + 60
        results, bad, distinct = [], [], array.array("Q")
        for k, b, err, proc in jobs:
            try:
                rc = proc.wait(timeout=max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                proc.kill()
                proc.wait()
                rc = 3
            rf = os.path.join(work, "result-%d.json" % k)
            r = json.load(open(rf)) if os.path.exists(rf) else None
            if r:
                results.append(r)
            hf = os.path.join(work, "hashes-%d.bin" % k)
            if os.path.exists(hf):
                distinct.frombytes(open(hf, "rb").read())
            if rc == 0 and r and r["done"]:
                if r.get("failure"):
                    bad.append((k, b, r["failure"]["case"], r["failure"]["message"], None))
                continue
            err.seek(0)
            bad.append((k, b, None, err.read(), rc))
        violations = []
        noanswer = None
        for k, b, case, message, rc in bad:
            if violations:
                break
            if case is not None:
                violations.append((case, message))
                continue
            cur = os.path.join(work, "current-%d.json" % k)
            if "harness error" in message or not os.path.exists(cur) or os.path.getsize(cur) == 0:
                noanswer = "worker %d exited with %s: %s" % (k, rc, message[-3000:])
                continue
            raw = open(cur, "rb").read().decode("utf-8", "replace")
            try:
                case = json.loads(raw)
            except ValueError:
                noanswer = "worker %d exited with %s in an unreadable case" % (k, rc)
                continue
            one = os.path.join(work, "one.json")

            def fails(c):
                with open(one, "w") as f:
                    json.dump({"property": pid, "case": c}, f)
                return replay(bins, b, pid, one, p["limit_s"], work)
            confirmed = False
            for _ in range(2 if rc == 3 else 6):
                try:
                    confirmed, msg = fails(case)
                except NoAnswer as e:
                    noanswer = str(e)
                    break
                if confirmed:
                    break
            if confirmed:
                if not msg.startswith("hang"):
                    def again(c):
                        try:
                            return fails(c)[0]
                        except NoAnswer:
                            return False
                    case = shrink(again, case)
                violations.append((case, msg))
            elif rc != 3 and ("DATA RACE" in message or "fatal error: concurrent map" in message):
                # depends on the schedule: the report itself is the evidence
                violations.append((case, "depends on the schedule\n" + message[:6000]))
            elif rc != 3 and rc == 2 and "json-dom" in message and "panic:" in message:
                violations.append((case, "crash of a background goroutine\n" + message[:6000]))
            else:
                noanswer = "worker %d exited with %s and its case did not fail alone: %s\n...\n%s" % (k, rc, message[:1500], message[-1500:])
        known = known_findings(bins, pid, p["limit_s"], work)
        tags, samples = {}, []
        for r in results:
            for t, n in (r["tags"] or {}).items():
                tags[t] = tags.get(t, 0) + n
        for i in range(6):
            for r in results:
                if len(samples) < 6 and i < len(r["samples"] or []):
                    samples.append(r["samples"][i])
        ev = {"property": pid, "tier": tier, "seed": seed, "level": level,
              "coverage": {"evaluations": sum(r["evaluations"] for r in results),
                           "distinct_nontrivial": len(set(distinct)),
                           "rule": p["rule"], "samples": samples,
                           "discarded": sum(r["discarded"] for r in results),
                           "classes": dict(sorted(tags.items())),
                           "workers": nw, "race_detector_workers": nw // 2 if "race" in bins else 0,
                           "exhaustive": False},
              "assumptions": ASSUME.get("*", []) + ASSUME.get(pid, []),
              "known_findings_confirmed": known,
              "wall_s": round(time.time() - start, 1), "violations": len(violations)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if violations:
            case, message = violations[0]
            path = write_replay(pid, case, message)
            print(message[:3000])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        if noanswer:
            raise NoAnswer(noanswer)
        print("%s %s: held on %d cases (%d distinct non-trivial) in %.1fs" % (
            pid, tier, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def build_race(work, must):
    out = os.path.join(work, "pbt-race")
    r = subprocess.run(["go", "build", "-buildvcs=false", "-race", "-o", out, "."], cwd=os.path.join(work, "harness"), env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        if must:
            raise NoAnswer("race build failed:\n" + r.stdout[-4000:])
        return {}
    return {"race": out}


def main():
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if len(sys.argv) >= 4 and sys.argv[2] == "--replay":
        work = tempfile.mkdtemp(prefix="verif-pbt-")
        try:
            bins = build(work, True)
            failed, message = replay(bins, bins["pbt"], sys.argv[1], os.path.abspath(sys.argv[3]), info(bins, sys.argv[1])["limit_s"], work)
            print(message)
            if failed:
                print("VIOLATION property=%s replay=%s" % (sys.argv[1], sys.argv[3]))
            return 1 if failed else 0
        finally:
            shutil.rmtree(work, ignore_errors=True)
    if len(sys.argv) >= 3 and sys.argv[1] == "--all":
        ids = sys.argv[3:] or [c["property"] if "property" in c else c["property_id"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
        rcs = {}
        for i in ids:
            try:
                rcs[i] = check(i, sys.argv[2], seed)
            except NoAnswer as e:
                print(i, "no answer:", e)
                rcs[i] = 2
        print({i: r for i, r in rcs.items() if r})
        return max(rcs.values())
    return check(sys.argv[1], sys.argv[2], seed)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as e:
        print("no answer:", e)
        sys.exit(2)

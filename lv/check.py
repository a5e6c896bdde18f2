"""Runs the check of one property against /repo's current source.

    python3 -m lv.check C03 [--tier quick|thorough] [--repo DIR] [--jobs REGEX]

The source is compiled (type-checked, not run) by the driver, which writes the type-checked
program and its MIR as JSON; the analyses read only that.  Exit 0: nothing to report; exit 1 with
a VIOLATION line: a construct violates the property."""
import gc, sys, os, re, json, time, subprocess, tempfile, shutil, signal, traceback, resource, hashlib
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DRIVER = os.path.join(VERIF, "driver", "target", "debug", "mirdump")
REL = ["--config", "profile.dev.debug-assertions=false", "--config", "profile.dev.overflow-checks=false"]
JOB_LIMIT = 600
TOTAL_LIMIT = 800


class Verdict:
    """status: ok | violation | undetermined"""

    __slots__ = ("status", "rule", "where", "what", "entry", "path", "n")

    def __init__(self, status, rule, where, what, entry="", path=(), n=1):
        self.status, self.rule, self.where, self.what = status, rule, where, what
        self.entry, self.path, self.n = entry, tuple(path), n

    def key(self):
        return f"{self.rule}|{self.where}|{self.what}"

    def json(self):
        return {"status": self.status, "rule": self.rule, "where": self.where, "what": self.what,
                "entry": self.entry, "path": list(self.path), "count": self.n}


class Job:
    def __init__(self, name, fn, cost=1, release=False):
        self.name, self.fn, self.cost, self.release = name, fn, cost, release


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def toolchain_lib():
    r = sh(["rustc", "+nightly", "--print", "sysroot"])
    return os.path.join(r.stdout.strip().splitlines()[-1], "lib")


def build_driver():
    src = os.path.join(VERIF, "driver", "src", "main.rs")
    if os.path.exists(DRIVER) and os.path.getmtime(DRIVER) >= os.path.getmtime(src):
        return
    r = sh(["cargo", "+nightly", "build", "--offline"], cwd=os.path.join(VERIF, "driver"))
    if r.returncode != 0 or not os.path.exists(DRIVER):
        print(r.stdout)
        raise SystemExit("driver build failed")


def dump(repo, tmp, release=False):
    """type-check the crate and write its MIR"""
    out = os.path.join(tmp, "rel.json" if release else "dbg.json")
    tgt = os.path.join(tmp, "tgt_rel" if release else "tgt_dbg")
    env = dict(os.environ)
    env.pop("RUSTC_WRAPPER", None)
    env.update(LD_LIBRARY_PATH=toolchain_lib(), RUSTC_WORKSPACE_WRAPPER=DRIVER, LV_CRATE="linfa_linalg",
               LV_OUT=out, CARGO_NET_OFFLINE="true", RUSTFLAGS="")
    cmd = ["cargo", "+nightly", "check", "--offline", "--lib", "--target-dir", tgt] + (REL if release else [])
    # an existing lock file is used; without one cargo would write it next to the manifest
    had = os.path.exists(os.path.join(repo, "Cargo.lock"))
    r = sh(cmd, cwd=repo, env=env)
    if not had and os.path.exists(os.path.join(repo, "Cargo.lock")) and sh(
            ["git", "-C", repo, "check-ignore", "-q", "Cargo.lock"]).returncode != 0:
        os.remove(os.path.join(repo, "Cargo.lock"))
    if not os.path.exists(out):
        print(r.stdout[-4000:])
        print("the crate does not type-check: no analysis possible")
        raise SystemExit(2)
    shutil.rmtree(tgt, ignore_errors=True)
    return out


def worker(job, path, q):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    gc.disable()

    def late(*_):
        raise TimeoutError()

    signal.signal(signal.SIGALRM, late)
    signal.alarm(JOB_LIMIT)
    t = time.time()
    stats = {}
    try:
        from .mir import Program
        from .entries import Missing

        P = Program(path)
        try:
            vs = job.fn(P, stats)
        except Missing as e:
            vs = [Verdict("undetermined", "anchor", str(e), "anchor not found in the program")]
    except TimeoutError:
        vs = [Verdict("undetermined", "limit", job.name, "time limit of the analysis")]
    except MemoryError:
        vs = [Verdict("undetermined", "limit", job.name, "memory limit of the analysis")]
    except Exception:
        vs = [Verdict("undetermined", "engine", job.name, "analysis stopped: " + traceback.format_exc()[-1500:])]
    signal.alarm(0)
    for v in vs:
        v.entry = v.entry or job.name
    q.send((vs, stats, time.time() - t))
    q.close()


def run_jobs(jobs, paths, ncpu):
    """own small pool: one process per job, most expensive first"""
    todo = sorted(jobs, key=lambda j: -j.cost)
    running, done = {}, []
    t0 = time.time()
    while todo or running:
        while todo and len(running) < ncpu:
            j = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=worker, args=(j, paths[j.release], b))
            p.start()
            b.close()
            running[a] = (j, p, time.time())
        ready = mp.connection.wait(list(running), timeout=5)
        for a in ready:
            j, p, _ = running.pop(a)
            try:
                r = a.recv()
            except EOFError:
                r = ([Verdict("undetermined", "engine", j.name, "analysis process ended early", j.name)], {}, 0)
            p.join()
            done.append((j, *r))
        if time.time() - t0 > TOTAL_LIMIT:
            for a, (j, p, _) in running.items():
                p.kill()
                done.append((j, [Verdict("undetermined", "limit", j.name, "time limit of the check", j.name)], {}, 0))
            for j in todo:
                done.append((j, [Verdict("undetermined", "limit", j.name, "time limit of the check", j.name)], {}, 0))
            break
    return done


def known():
    """known findings: lines 'known: property=<id> key=<key>'"""
    d = {}
    f = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) key=(.*)$", l.strip())
            if m:
                d.setdefault(m.group(1), set()).add(m.group(2))
    return d


def main(argv):
    import argparse
    from . import props

    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--jobs", default=None)
    ap.add_argument("--ncpu", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("-v", action="store_true")
    o = ap.parse_args(argv)
    t0 = time.time()
    spec = props.PROPS[o.property]
    jobs = spec.jobs(o.tier)
    if o.jobs:
        jobs = [j for j in jobs if re.search(o.jobs, j.name)]
    build_driver()
    tmp = tempfile.mkdtemp(prefix="lv_")
    try:
        paths = {}
        for rel in sorted({j.release for j in jobs}):
            paths[rel] = dump(o.repo, tmp, rel)
        digest = {("release" if r else "debug"): hashlib.sha256(open(p, "rb").read()).hexdigest()[:16]
                  for r, p in paths.items()}
        done = run_jobs(jobs, paths, o.ncpu)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return report(o, spec, done, digest, t0)


def report(o, spec, done, digest, t0):
    pid = o.property
    kn = known().get(pid, set())
    counts = {"ok": 0, "violation": 0, "undetermined": 0}
    by_rule = {}
    viol, und, seen, hits = [], [], {}, set()
    fns, stats = set(), {}
    for j, vs, st, t in done:
        fns |= set(st.pop("functions", ()))
        for k, x in st.items():
            stats[k] = stats.get(k, 0) + x if isinstance(x, (int, float)) else x
        for v in vs:
            counts[v.status] += v.n
            r = by_rule.setdefault(v.rule, {"ok": 0, "violation": 0, "undetermined": 0})
            r[v.status] += v.n
            if v.status == "violation":
                if v.key() in kn:
                    hits.add(v.key())
                elif v.key() in seen:
                    seen[v.key()].append(v.entry)
                else:
                    seen[v.key()] = [v.entry]
                    viol.append(v)
            elif v.status == "undetermined":
                und.append(v)
    for h in sorted(hits):
        print(f"KNOWN-FINDING: property={pid} {h}")
    for v in und[:40] if not o.v else und:
        print(f"UNDETERMINED property={pid} [{v.rule}] {v.entry}: {v.where}: {v.what[:700]}")
    if o.v:
        for j, vs, st, t in sorted(done, key=lambda d: -d[3]):
            print(f"   {j.name}: {t:.1f}s {len(vs)} verdicts")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rp = os.path.join(VERIF, "evidence", f"{pid}.replay.json")
    wall = time.time() - t0
    n = counts["ok"] + counts["violation"] + counts["undetermined"]
    cov = {
        "explanation": spec.explain,
        "rule": spec.rule,
        "analysed_program": digest,
        "jobs": len(done),
        "obligations": n,
        "discharged": counts["ok"],
        "undetermined": counts["undetermined"],
        "by_rule": by_rule,
        "functions_analysed": len(fns),
        "functions": sorted(fns),
        "entries": sorted(j.name for j, *_ in done),
        "checker_cmd": f"python3 -m lv.check {pid} --tier {o.tier}",
        "trusted_base": spec.trusted,
        "undetermined_items": [v.json() for v in und[:50]],
        **stats,
    }
    ev = {
        "property": pid, "tier": o.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": spec.level,
        "coverage": cov, "wall_s": round(wall, 1), "violations": len(viol),
        "assumptions": spec.assumptions,
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w"), indent=1)
    print(f"{pid}: {n} obligations, {counts['ok']} discharged, {counts['undetermined']} undetermined, "
          f"{len(viol)} violations, {len(fns)} functions, {wall:.1f}s")
    if viol:
        for v in viol:
            print(f"  violated: [{v.rule}] {v.where}: {v.what}\n    entries: {', '.join(sorted(set(seen[v.key()]))[:6])}"
                  + (f"\n    path: {' > '.join(v.path)}" if v.path else ""))
        json.dump({"property": pid, "program": digest, "violations": [v.json() for v in viol],
                   "rerun": f"cd /verif && python3 -m lv.check {pid} --tier {o.tier}"}, open(rp, "w"), indent=1)
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if os.path.exists(rp):
        os.remove(rp)
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

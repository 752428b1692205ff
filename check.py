#!/usr/bin/env python3
"""Decides one property: builds its harness from /repo's working tree, runs it in parallel
shards under the sanitizers, collects what the monitors saw, writes evidence/<id>.json.

usage: check.py Pxx [--tier quick|thorough]      run the check
       check.py Pxx --case N [--seed S]          re-run one case (replay)
exit:  0 held, 1 VIOLATION printed, 2 could not run
"""
import argparse, json, os, re, resource, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
import build as builder

B = builder.B
ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:max_malloc_fill_size=65536:"
                        "malloc_fill_byte=190:hard_rss_limit_mb=3000:detect_stack_use_after_return=1:"
                        "allocator_may_return_null=0:max_allocation_size_mb=2048:quarantine_size_mb=32",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=99", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1")


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))


def summarise(err):
    m = re.search(r"(SUMMARY: .*)", err)
    lines = [l for l in err.splitlines() if l.strip()]
    for l in lines:
        if "runtime error:" in l or "ERROR: AddressSanitizer" in l or "Assertion" in l or "terminate" in l:
            return l.strip()[:300] + ((" | " + m.group(1)[:200]) if m else "")
    return m.group(1)[:300] if m else (lines[-1][:300] if lines else "died silently")


class Shard:
    def __init__(self, pid, exe, work, args, k, n, hang):
        self.pid, self.exe, self.args, self.k, self.n, self.hang = pid, exe, args, k, n, hang
        self.j, self.e = (os.path.join(work, "%s.%d.%s" % (pid, k, x)) for x in ("journal", "err"))
        self.viol, self.summary, self.crashes, self.done, self.next = [], [], 0, False, 0
        self.start(0)

    def start(self, frm):
        for f in (self.j, self.e):
            if os.path.exists(f):
                os.remove(f)
        self.err = open(self.e, "wb")
        self.p = subprocess.Popen([self.exe] + self.args + ["--shard", str(self.k), "--shards", str(self.n), "--from",
                                  str(frm), "--journal", self.j, "--hang", str(self.hang)],
                                  stdout=subprocess.DEVNULL, stderr=self.err, stdin=subprocess.DEVNULL, env=ENV,
                                  preexec_fn=limits, cwd=os.path.dirname(self.j))

    def poll(self):
        rc = self.p.poll()
        if rc is None:
            return False
        self.err.close()
        last, hang, fin = None, False, False
        if os.path.exists(self.j):
            for l in open(self.j, errors="replace"):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if "begin" in d:
                    last = d
                elif "violation" in d:
                    self.viol.append(dict(case=d["violation"], scenario=d["scenario"], key=d["key"], msg=d["msg"],
                                          trace=d.get("trace", "")))
                elif "hang" in d:
                    hang = True
                elif "summary" in d:
                    self.summary.append(d)
                    fin = True
        if fin and rc == 0:
            self.done = True
            return True
        if last is None:
            raise RuntimeError("harness died before its first case: rc=%s %s" % (rc, open(self.e, errors="replace").read()[-800:]))
        err = open(self.e, errors="replace").read()
        self.viol.append(dict(case=last["begin"], scenario=last["scenario"], key="hang" if hang else "crash",
                              msg="no answer within %d s of CPU time" % self.hang if hang else summarise(err),
                              trace=err[:6000]))
        self.crashes += 1
        if self.crashes >= 4:
            self.done = True
            return True
        self.start(last["begin"] + 1)
        return False


def known(pid):
    """open: property=<id> scenario=<name> key=<key> :: <what fails>   (fixed: lines suppress nothing)"""
    out, path = {}, os.path.join(V, "known-findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"open: property=(\S+) scenario=(\S+) key=(.*?) :: (.*)", l.strip())
            if m and m.group(1) == pid:
                out[(m.group(2), m.group(3))] = dict(what=m.group(4))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--case", type=int)
    ap.add_argument("--cases", type=int)
    ap.add_argument("--shards", type=int, default=8)
    a = ap.parse_args()
    pid, tier = a.pid, "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    rc, out = builder.build([pid])
    if rc:
        print(out[-4000:])
        print("check.py: build failed for", pid)
        return 2
    exe = os.path.join(B, "bin", pid)
    tb = time.time() - t0
    info = json.loads(subprocess.run([exe, "--describe"], stdout=subprocess.PIPE, env=ENV, check=True).stdout)
    args = ["--seed", str(a.seed)] + (["--thorough"] if tier == "thorough" else [])
    if a.cases:
        args += ["--cases", str(a.cases)]
    if a.case is not None:
        return subprocess.run([exe] + args + ["--case", str(a.case), "--journal", "/dev/stdout"], env=ENV).returncode
    work = os.path.join(B, "run", pid)
    os.makedirs(work, exist_ok=True)
    budget = 1500 if tier == "thorough" else 150
    args += ["--budget", str(budget)]
    shards = [Shard(pid, exe, work, args, k, a.shards, 240 if tier == "thorough" else 90) for k in range(a.shards)]
    while not all(s.done or s.poll() for s in shards):
        time.sleep(0.02)
    viol = sorted((v for s in shards for v in s.viol), key=lambda v: v["case"])
    sm = [x for s in shards for x in s.summary]
    counts, sigs, samples = {}, set(), []
    for x in sm:
        for k, v in x["counts"].items():
            counts[k] = counts.get(k, 0) + v
        sigs.update(x["sigs"])
        samples += x["samples"]
    kn, fresh, hit = known(pid), [], []
    for v in viol:
        k = (v["scenario"], v["key"])
        (hit if k in kn else fresh).append(v)
    rdir = os.path.join(V, "replays")
    reported = 0
    seen = set()
    for v in fresh:
        if (v["scenario"], v["key"]) in seen:
            continue
        seen.add((v["scenario"], v["key"]))
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-%d.json" % (pid, v["case"]))
        json.dump(dict(property=pid, seed=a.seed, tier=tier, replay="python3 check.py %s --tier %s --seed %d --case %d" %
                       (pid, tier, a.seed, v["case"]), **v), open(rp, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        print("  scenario %s, case %d, %s: %s" % (v["scenario"], v["case"], v["key"], v["msg"][:600]))
        reported += 1
        if reported >= 12:
            break
    for k in {(v["scenario"], v["key"]) for v in hit}:
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[k]["what"]))
    ev = dict(property=pid, tier=tier, seed=a.seed, level="exploration",
              coverage=dict(evaluations=sum(x["cases"] for x in sm), distinct_nontrivial=len(sigs), rule=info["rule"],
                            samples=samples[:6], oracle_checks=sum(x["checks"] for x in sm), observed=counts,
                            shards_completed=len(sm), stopped_early=sum(x["cut"] for x in sm),
                            sanitizers="address, undefined, float-cast-overflow, _GLIBCXX_ASSERTIONS; abort on first report"),
              assumptions=["what the workload did not drive was not observed",
                           "one compiler (g++ 13, -O1), x86-64, single thread"],
              wall_s=round(time.time() - t0, 2), build_s=round(tb, 2), violations=len(fresh), known_findings_seen=len(hit))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    c = ev["coverage"]
    print("%s %s seed=%d: %d cases, %d oracle checks, %d distinct, %d violations, build %.1fs, total %.1fs" %
          (pid, tier, a.seed, c["evaluations"], c["oracle_checks"], c["distinct_nontrivial"], len(fresh), tb, ev["wall_s"]))
    if fresh:
        return 1
    if not sm or c["evaluations"] == 0:
        print("check.py: nothing was observed")
        return 2
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception as e:  # an error of the check, not an answer
        print("check.py: error:", repr(e))
        sys.exit(2)

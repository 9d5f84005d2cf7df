#!/usr/bin/env python3
"""run_check.py <property>: builds the property's harnesses, runs them over their cases in parallel shards,
turns sanitizer reports, aborts and hangs into violation records, applies known_findings.json,
writes evidence/<property>.json. Exit 0 held, 1 violation, 2 error of the check."""
import array, collections, concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from checks import CHECKS

VERIF = vbuild.VERIF
WALL_SHARD = {"quick": 600, "thorough": 3 * 3600}
MAX_RESTARTS = 6


def die(msg):
    print("CHECK-ERROR: " + msg)
    sys.exit(2)


def crash_key(text, rc, repo):
    """A stable key for a process that died."""
    kind, where = None, None
    m = re.search(r"^(\S+?):(\d+):\d+: runtime error: (.*)$", text, re.M)
    if m and "AddressSanitizer" not in text[:m.start()]:
        kind = "ubsan:" + re.sub(r"-?\d[\d.e+]*|0x[0-9a-f]+", "N", m.group(3))[:70].strip()
        where = os.path.basename(m.group(1))
    else:
        m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
        if m: kind = "asan:" + m.group(1)
        m2 = re.search(r"WARNING: ThreadSanitizer: ([^\(\n]+)", text)
        if m2: kind = "tsan:" + m2.group(1).strip()
        if "VF-HANG" in text: kind = "hang"
        if kind is None:
            kind = "abort" if rc in (-6, 134) else ("signal%d" % -rc if rc < 0 else "exit%d" % rc)
    fn = None
    for m in re.finditer(r"^\s*#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):\d+", text, re.M):
        if m.group(2).startswith(repo + "/"):
            fn = re.sub(r"\(.*", "", m.group(1))
            break
    if fn is None:  # tsan style
        for m in re.finditer(r"^\s*#\d+ (.+?) (/\S+?):\d+", text, re.M):
            if m.group(2).startswith(repo + "/"):
                fn = re.sub(r"\(.*", "", m.group(1))
                break
    # an out-of-memory kill or a harness frame only: still reported, with what is known
    return "%s@%s" % (kind, fn or where or "?")


class Shard:
    def __init__(self, exe, spec, seed, tier, shard, shards, cases, scratch):
        self.exe, self.spec, self.seed, self.tier = exe, spec, seed, tier
        self.shard, self.shards, self.cases = shard, shards, cases
        self.dir = os.path.join(scratch, "%s-%d" % (os.path.basename(exe), shard))
        os.makedirs(self.dir, exist_ok=True)
        self.out = os.path.join(self.dir, "out.jsonl")
        self.viol, self.errors = [], []

    def env(self):
        e = dict(os.environ)
        # address-space exhaustion must look like an allocation failure report, not like an OOM kill
        e["ASAN_OPTIONS"] = ("abort_on_error=0:detect_leaks=0:exitcode=99:handle_abort=1:allocator_may_return_null=0:"
                             "max_allocation_size_mb=4096:hard_rss_limit_mb=6000:detect_stack_use_after_return=0:quarantine_size_mb=32")
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
        e["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=99:second_deadlock_stack=1:report_signal_unsafe=0:history_size=5:suppressions=" + os.path.join(VERIF, "tools", "tsan.supp")
        e["VERIF_REPO_DIR"] = vbuild.REPO
        return e

    def once(self, start, only=None, wall=None):
        cmd = [self.exe, "--seed", str(self.seed), "--tier", self.tier, "--cases", str(self.cases), "--shard", str(self.shard),
               "--shards", str(self.shards), "--start", str(start), "--out", self.out, "--scratch", self.dir]
        if only is not None: cmd += ["--only", str(only)]
        cmd += self.spec.get("args", [])
        with open(os.path.join(self.dir, "err.txt"), "wb") as ef:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=self.env(), cwd=self.dir)
            try:
                rc = p.wait(timeout=wall)
            except subprocess.TimeoutExpired:
                p.kill(); p.wait(); rc = None
        with open(os.path.join(self.dir, "err.txt"), "rb") as ef:
            data = ef.read()
        if len(data) > 2000000: data = data[:1000000] + data[-1000000:]
        return rc, data.decode("utf8", "replace"), " ".join(cmd)

    def cur(self):
        try:
            t = open(self.out + ".cur").read().split()
            return int(t[0]), t[1]
        except Exception:
            return -1, "?"

    def run(self):
        start, restarts = 0, 0
        wall = WALL_SHARD[self.tier]
        t0 = time.time()
        while True:
            rc, err, cmd = self.once(start, wall=max(30, wall - (time.time() - t0)))
            if rc in (0, 1) and "ThreadSanitizer" not in err: return self
            case, suite = self.cur()
            if rc == 3 or "HARNESS-ERROR" in err:
                self.errors.append("harness error: " + err[-800:]); return self
            if "hard rss limit exhausted" in err or rc == -9:
                # memory growth counts as a violation only if it comes back when the case runs alone
                pass
            if rc is None:
                # stuck without using CPU: believe it only if it happens again
                if case < 0: self.errors.append("timeout outside a case"); return self
                rc2, err2, cmd = self.once(0, only=case, wall=120)
                if rc2 is None: key, err = "stuck", "case %d does not finish within 120 s, twice" % case
                elif rc2 in (0, 1): self.errors.append("shard timeout, case %d finishes alone" % case); return self
                else: key, err = crash_key(err2, rc2, vbuild.REPO), err2
            elif rc == 77:
                rc2, err2, cmd = self.once(0, only=case, wall=300)
                if rc2 in (0, 1): self.errors.append("CPU limit not reproduced in case %d" % case); return self
                key, err = crash_key(err2 or err, 77, vbuild.REPO), err2
            else:
                key = crash_key(err, rc, vbuild.REPO)
            i = max(0, max(err.find("ERROR: AddressSanitizer"), err.find("runtime error:"), err.find("WARNING: ThreadSanitizer")) - 200)
            self.viol.append({"key": key, "what": err[i:i + 3500] or err[-1500:], "suite": suite, "case": case, "note": "rc=%s" % rc})
            if case < 0 or rc in (0, 1) or "ThreadSanitizer" in err: return self
            restarts += 1
            if restarts > MAX_RESTARTS: return self
            start = case + 1


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": []}


def main():
    if len(sys.argv) < 2: die("usage: run_check.py <property> [tier]")
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if prop not in CHECKS: die("no check for " + prop)
    t0 = time.time()
    ck = CHECKS[prop]
    scratch = tempfile.mkdtemp(prefix="vf_%s_" % prop, dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        rc = run(prop, tier, seed, ck, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def run(prop, tier, seed, ck, scratch, t0):
    jobs = []
    build_s = time.time()
    for spec in ck["harnesses"]:
        exe, log = vbuild.build(spec.get("flavour", "asan"), spec["name"], spec["sources"], spec.get("cflags", ""),
                                spec.get("ldlibs", ""), spec.get("ldflags", ""), [vbuild.REPO + "/" + s for s in spec.get("repo_sources", [])],
                                [vbuild.REPO + "/" + s for s in spec.get("repo_inc", [])])
        if not exe: die("build of %s failed:\n%s" % (spec["name"], log[-4000:]))
        jobs.append((exe, spec))
    build_s = time.time() - build_s
    ncpu = os.cpu_count() or 8
    shards = []
    for exe, spec in jobs:
        n = spec.get("shards", ncpu)
        for i in range(n):
            shards.append(Shard(exe, spec, seed, tier, i, n, spec["cases"][tier], scratch))
    par = max(1, min(len(shards), ck.get("parallel", ncpu)))
    with concurrent.futures.ThreadPoolExecutor(par) as ex:
        list(ex.map(lambda s: s.run(), shards))

    viol, errors, evals = [], [], 0
    counters = collections.Counter()
    samples, rules, sigs = [], [], set()
    for s in shards:
        viol += [dict(v, harness=s.spec["name"], shard=s.shard, shards=s.shards, cases=s.cases, flavour=s.spec.get("flavour", "asan")) for v in s.viol]
        errors += s.errors
        if os.path.exists(s.out):
            for line in open(s.out, errors="replace"):
                try: d = json.loads(line)
                except ValueError: continue
                if d["type"] == "violation":
                    viol.append(dict(d, harness=s.spec["name"], shard=s.shard, shards=s.shards, cases=s.cases, flavour=s.spec.get("flavour", "asan")))
                else:
                    evals += d["evaluations"]
                    counters.update(d["counters"])
                    if d["rule"] not in rules: rules.append(d["rule"])
                    if len(samples) < 6: samples += d["samples"][:2]
        if os.path.exists(s.out + ".sigs"):
            a = array.array("Q"); a.frombytes(open(s.out + ".sigs", "rb").read()); sigs.update(a)

    known = [k for k in known_findings().get("findings", []) if k["property"] == prop]
    fresh, seen = collections.OrderedDict(), set()
    for v in viol:
        hit = None
        for k in known:
            if v["key"] == k["key"] and (not k.get("suite") or k["suite"] == v.get("suite")):
                hit = k; break
        if hit is not None: seen.add(hit["key"])
        else: fresh.setdefault(v["key"], v)
    for k in known:  # listed findings are always announced
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    rdir = os.path.join(VERIF, "replays")
    n = 0
    for key, v in fresh.items():
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%d.json" % (prop, n)); n += 1
        v["command"] = "VERIF_SEED=%d python3 %s %s   # then: %s/%s/%s --seed %d --tier %s --cases %d --shards %d --only %d --scratch /tmp -v" % (
            seed, os.path.join(VERIF, "tools", "run_check.py"), prop, vbuild.BUILD, v["flavour"], v["harness"], seed, tier, v["cases"], v["shards"], v["case"])
        json.dump(v, open(path, "w"), indent=1)
        print("violated: key=%s case=%s suite=%s\n  %s" % (key, v["case"], v.get("suite"), v["what"][:700].replace("\n", "\n  ")))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    cov = {"evaluations": evals, "distinct_nontrivial": len(sigs), "rule": " | ".join(rules), "samples": samples,
           "counters": dict(sorted(counters.items())), "build_s": round(build_s, 1), "tolerated_known_findings_seen": sorted(seen)}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": ck.get("level", "exploration"), "coverage": cov,
          "assumptions": ck.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(fresh)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not os.environ.get("VERIF_NOEVIDENCE"): json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s seed=%d: %d cases, %d distinct situations, %d violation kinds, %.0f s (build %.0f s)" % (
        prop, tier, seed, evals, len(sigs), len(fresh), time.time() - t0, build_s))
    if fresh: return 1
    if errors:
        for e in errors[:5]: print("CHECK-ERROR: " + e)
        return 2
    # a run in which the monitors saw (almost) nothing is not a verdict
    for name, least in ck.get("require", {}).items():
        got = counters.get(name, 0)
        if got < least: print("CHECK-ERROR: monitor observed only %d %s (needs %d)" % (got, name, least)); return 2
    if evals == 0 or len(sigs) < 2: print("CHECK-ERROR: nothing observed"); return 2
    return 0


main()

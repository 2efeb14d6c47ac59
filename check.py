#!/usr/bin/env python3
"""Driver of the runtime-monitoring checks.

  check.py <ID>            run the check of one property (VERIF_SEED, VERIF_TIER)
  check.py --setup         build every harness variant
  check.py --replay FILE   re-run a recorded violation

Exit 0: held on everything observed; 1: violated (VIOLATION line); 2: no verdict.
"""
import json, os, re, shutil, struct, subprocess, sys, tempfile, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN, NOTES

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.environ.get("MON_TARGET", os.path.join(VERIF, "target"))
REPLAYS = os.path.join(VERIF, "replays")
EVID = os.path.join(VERIF, "evidence")
TRIPLE = "x86_64-unknown-linux-gnu"
PINNED = "nightly-2025-03-06"
CPUS = min(8, os.cpu_count() or 8)

# name -> (toolchain, cargo args, rustflags, profile dir, extra env)
FULL = "full,unstable"
VARIANTS = {
    "rel": dict(tc=PINNED, feats=FULL, profile="release"),
    "dbg": dict(tc=PINNED, feats=FULL, profile="debug"),
    "asan": dict(tc=PINNED, feats=FULL, profile="release", flags="-Zsanitizer=address --cfg mon_plain_alloc", target=TRIPLE),
    "tsan": dict(tc="nightly", feats="full", profile="release", flags="-Zsanitizer=thread --cfg mon_plain_alloc -Cunsafe-allow-abi-mismatch=sanitizer",
                 target=TRIPLE, extra=["-Zbuild-std"]),
    "msan": dict(tc="nightly", feats="full", profile="release", flags="-Zsanitizer=memory -Zsanitizer-memory-track-origins --cfg mon_plain_alloc -Cunsafe-allow-abi-mismatch=sanitizer",
                 target=TRIPLE, extra=["-Zbuild-std"]),
    "miri": dict(tc="nightly", feats="full", profile="debug", miri=True),
    "miri-tb": dict(tc="nightly", feats="full", profile="debug", miri=True, miriflags="-Zmiri-tree-borrows", dir="miri"),
    # other targets, in the interpreter: 32 bits with 8-byte integers aligned to 4, big-endian 64 and 32 bits
    "i686": dict(tc="nightly", feats="full", profile="debug", miri=True, target="i686-unknown-linux-gnu"),
    "i686-rel": dict(tc="nightly", feats="full", profile="release", miri=True, target="i686-unknown-linux-gnu", dir="i686"),
    "mips": dict(tc="nightly", feats="full", profile="debug", miri=True, target="mips-unknown-linux-gnu"),
    "s390x": dict(tc="nightly", feats="full", profile="release", miri=True, target="s390x-unknown-linux-gnu"),
    "safe": dict(tc=PINNED, feats="bytes_safe,unstable", profile="release"),
    # the same harness against other releases of the foreign crate that Cargo.toml admits
    "b1111": dict(tc=PINNED, feats=FULL, profile="release", bytes="1.11.1"),
    "b1121": dict(tc=PINNED, feats=FULL, profile="release", bytes="1.12.1"),
    "b1121safe": dict(tc=PINNED, feats="bytes_safe,unstable", profile="release", bytes="1.12.1"),
    "stable": dict(tc="nightly", feats="full", profile="release"),
}


class Broken(Exception):
    pass


class BuildFailed(Broken):
    def __init__(self, name, text):
        super().__init__(f"build of variant {name} failed:\n{text[-4000:]}")
        self.name, self.text = name, text


def log(*a):
    print(*a, flush=True)


def env_for(v):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_ENCODED_RUSTFLAGS", None)
    e["RUSTUP_TOOLCHAIN"] = v["tc"]
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    if v.get("flags"):
        e["RUSTFLAGS"] = v["flags"]
    if v.get("miri") and v.get("target"):
        # one library build per target, so that they can be made side by side
        e["XDG_CACHE_HOME"] = os.path.join(TARGET, "xcache_" + v["target"])
    return e


def cargo_cmd(name, v, miri_run=False):
    tdir = os.path.join(TARGET, v.get("dir", name))
    cmd = ["cargo"]
    if v.get("miri"):
        cmd += ["miri", "run"]
    else:
        cmd += ["build"]
    cmd += ["--offline", "--locked", "--quiet", "--manifest-path", os.path.join(v.get("crate", HARNESS), "Cargo.toml"), "--target-dir", tdir]
    if v["profile"] == "release":
        cmd += ["--release"]
    if v.get("feats"):
        cmd += ["--features", v["feats"]]
    if v.get("target"):
        cmd += ["--target", v["target"]]
    cmd += v.get("extra", [])
    return cmd


def binary(name, v):
    p = os.path.join(TARGET, v.get("dir", name))
    if v.get("target"):
        p = os.path.join(p, v["target"])
    return os.path.join(p, v["profile"], v.get("bin", "mon"))


def build(name):
    v = VARIANTS[name]
    os.makedirs(TARGET, exist_ok=True)
    e = env_for(v)
    if v.get("bytes"):
        v["crate"] = os.path.join(TARGET, "src_" + name)
        shutil.rmtree(v["crate"], ignore_errors=True)
        os.makedirs(v["crate"])
        for f in ("Cargo.toml", "Cargo.lock"):
            shutil.copy(os.path.join(HARNESS, f), v["crate"])
        shutil.copytree(os.path.join(HARNESS, "src"), os.path.join(v["crate"], "src"))
        p = subprocess.run(["cargo", "update", "--offline", "-p", "bytes", "--precise", v["bytes"]], env=e, cwd=v["crate"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=100)
        if p.returncode != 0:
            raise Broken(f"bytes {v['bytes']} is not available:\n{p.stdout[-1000:]}")
    cmd = cargo_cmd(name, v)
    if v.get("miri"):
        # first run builds; --list does nothing else
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation"
        cmd = cmd + ["--", "--list"]
    t = time.time()
    p = subprocess.run(cmd, env=e, cwd=HARNESS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if p.returncode != 0:
        raise BuildFailed(name, p.stdout)
    return time.time() - t


def build_all(names):
    names = list({(VARIANTS[n].get("dir", n), VARIANTS[n]["profile"]): n for n in names}.values())
    errs, th = [], []

    def one(n):
        try:
            build(n)
        except Exception as ex:  # noqa
            errs.append(ex)
    for n in names:
        t = threading.Thread(target=one, args=(n,))
        t.start()
        th.append(t)
    for t in th:
        t.join()
    if errs:
        raise errs[0]


SIG = {4: "SIGILL", 5: "SIGTRAP", 6: "SIGABRT", 7: "SIGBUS", 8: "SIGFPE", 11: "SIGSEGV", 27: "SIGPROF"}
MIRI_BASE = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"


def worker_cmd(variant, suite, seed, shard, shards, cases, secs, out, only=None, cpu=20, mem=False, salt=0, extra=()):
    v = VARIANTS[variant]
    args = ["--suite", suite, "--seed", str(seed), "--shard", str(shard), "--shards", str(shards), "--cases", str(cases), "--secs", str(secs), "--cpu", str(cpu)]
    if out:
        args += ["--out", out]
    if only is not None:
        args += ["--case", str(only)]
    if mem:
        args += ["--memory-only"]
    args += list(extra)
    e = env_for(v)
    e.pop("RUSTFLAGS", None)
    if v.get("miri"):
        e.update(env_for(v))
        e["MIRIFLAGS"] = f"{MIRI_BASE} {v.get('miriflags', '')} -Zmiri-seed={salt + shard}"
        return cargo_cmd(variant, v) + ["--"] + args, e
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=87:allocator_may_return_null=1:detect_stack_use_after_return=1:max_allocation_size_mb=4096"
    e["MSAN_OPTIONS"] = "exitcode=89:abort_on_error=0"
    e["TSAN_OPTIONS"] = f"halt_on_error=1:exitcode=88:report_signal_unsafe=0:suppressions={os.path.join(VERIF, 'tsan.supp')}"
    return [binary(variant, v)] + args, e


def first_report(err):
    keep = []
    for l in err.splitlines():
        if re.search(r"MONALLOC|ERROR: AddressSanitizer|WARNING: ThreadSanitizer|WARNING: MemorySanitizer|error: Undefined Behavior|error: .*(race|unsupported|leak|deadlock)|Data race|^\s+#[0-4] |panicked|SUMMARY|inside `|--> /repo|stack overflow", l):
            keep.append(l.strip())
        if len(keep) >= 14:
            break
    return " | ".join(keep)[:1500] if keep else err[-600:]


# The parking_lot of a dependency (dashmap, below the interner) calls futex with an argument type this interpreter
# refuses; it says nothing about the library, and ends the process when two threads meet in a lock.
DISMISSED = re.compile(r"incorrect c-variadic argument type for .syscall\(SYS_futex")


def classify(variant, rc, err):
    """None = clean or functional result in the json; otherwise ('viol'|'broken', text)."""
    if rc == 0 or rc == 1 and not VARIANTS[variant].get("miri"):
        return None
    if rc < 0 and -rc in SIG:
        if -rc == 27:
            return "viol", "the case did not terminate within its CPU budget (SIGPROF)"
        return "viol", f"killed by {SIG[-rc]}: {first_report(err)}"
    if rc in (86, 87, 88, 89):
        if "runaway" in err:
            return "viol", f"runaway allocation: {first_report(err)}"
        return "viol", first_report(err)
    if VARIANTS[variant].get("miri"):
        if "unsupported operation" in err and "Undefined Behavior" not in err:
            return "broken", first_report(err)
        if DISMISSED.search(err):
            return "dismissed", first_report(err)
        if "Undefined Behavior" in err or "the evaluated program leaked memory" in err or "deadlock" in err:
            return "viol", first_report(err)
        if rc == 1:
            return None
    return "broken", f"worker ended with {rc}: {err[-1500:]}"


class Run:
    """One suite on one variant, spread over worker processes."""

    def __init__(self, variant, suite, cases, secs, seed, mem=False, shards=None, cpu=20, wall=700, salt=0, extra=()):
        self.variant, self.suite, self.cases, self.secs, self.seed = variant, suite, cases, secs, seed
        self.mem, self.shards, self.cpu, self.wall, self.salt, self.extra = mem, shards or CPUS, cpu, wall, salt, extra
        self.violations, self.results, self.sigs = [], [], set()
        self.dismissed = 0

    def go(self):
        d = tempfile.mkdtemp(prefix="mon_")
        try:
            self._go(d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return self

    def _go(self, d):
        procs = []
        per = max(1, -(-self.cases // self.shards))
        for s in range(self.shards):
            cmd, e = worker_cmd(self.variant, self.suite, self.seed, s, self.shards, per, self.secs, d, cpu=self.cpu, mem=self.mem, salt=self.salt, extra=self.extra)
            so, se = open(f"{d}/out_{s}", "wb"), open(f"{d}/err_{s}", "wb")
            procs.append((s, subprocess.Popen(cmd, env=e, stdout=so, stderr=se, cwd=d)))
        end = time.time() + self.wall
        for s, p in procs:
            try:
                rc = p.wait(timeout=max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                for _, q in procs:
                    q.kill()
                raise Broken(f"{self.suite}/{self.variant}: no answer within {self.wall} s")
            err = open(f"{d}/err_{s}", errors="replace").read()
            out = open(f"{d}/out_{s}", errors="replace").read()
            c = classify(self.variant, rc, err)
            rp = f"{d}/res_{s}.json"
            tries = 0
            while c and c[0] == "dismissed":
                self.dismissed += 1
                tries += 1
                if tries > 4 or time.time() > end - 60:
                    break
                # the same cases under another schedule
                cmd, e = worker_cmd(self.variant, self.suite, self.seed, s, self.shards, per, self.secs, d, cpu=self.cpu, mem=self.mem, salt=self.salt + 7919 * tries, extra=self.extra)
                try:
                    p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", cwd=d, timeout=max(1, end - time.time()))
                except subprocess.TimeoutExpired:
                    break
                rc, out, err = p.returncode, p.stdout, p.stderr
                c = classify(self.variant, rc, err)
            if c and c[0] == "dismissed":
                continue
            if c and c[0] == "broken":
                for _, q in procs:
                    q.kill()
                raise Broken(f"{self.suite}/{self.variant} shard {s}: {c[1]}")
            if c:
                case = None
                try:
                    case = struct.unpack("<Q", open(f"{d}/state_{s}", "rb").read(8))[0]
                except Exception:  # noqa
                    m = re.findall(r"^CASE (\d+)", out + "\n" + err, re.M)
                    case = int(m[-1]) if m else None
                self.violations.append(dict(suite=self.suite, variant=self.variant, seed=self.seed, case=case, message=c[1], log=[], shard=s, shards=self.shards, cases=per, salt=self.salt, mem=self.mem, extra=list(self.extra)))
                continue
            if not os.path.exists(rp):
                raise Broken(f"{self.suite}/{self.variant} shard {s} left no result (exit {rc}): {err[-800:]}")
            r = json.load(open(rp))
            self.results.append(r)
            if r["violation"]:
                v = dict(r["violation"])
                v.update(variant=self.variant, shard=s, shards=self.shards, cases=per, salt=self.salt, mem=self.mem, extra=list(self.extra))
                self.violations.append(v)
            raw = open(f"{d}/sigs_{s}", "rb").read()
            self.sigs.update(struct.unpack(f"<{len(raw) // 8}Q", raw))


def confirm(v):
    """Re-run the single case of a violation; adds the operation log when it reproduces."""
    if v.get("case") is None or VARIANTS[v["variant"]].get("miri") or v["variant"] == "tsan":
        return
    d = tempfile.mkdtemp(prefix="mon_")
    try:
        cmd, e = worker_cmd(v["variant"], v["suite"], v["seed"], v["case"] % v["shards"], v["shards"], 1, 1e9, d, only=v["case"], mem=v.get("mem", False), extra=v.get("extra", ()))
        p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=120, cwd=d)
        c = classify(v["variant"], p.returncode, p.stderr)
        v["reproduced_alone"] = bool(c or p.returncode == 1)
        logp = f"{d}/log_{v['case'] % v['shards']}"
        if not v["log"] and os.path.exists(logp):
            v["log"] = open(logp, errors="replace").read().splitlines()[-60:]
    except subprocess.TimeoutExpired:
        v["reproduced_alone"] = None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)", l)
            if m:
                out.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return out


def special(name, seed, tier, args):
    import specials
    return getattr(specials, name)(seed, tier, sys.modules[__name__], *args)


def check(pid):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    plan = PLAN[pid]
    runs = [r for r in plan["runs"] if r.get(tier, r.get("quick")) is not None]
    build_all([r["variant"] for r in runs if "variant" in r] + plan.get("builds", []))
    tb = time.time() - t0
    viol, parts, sigs, samples, cnt = [], [], set(), [], {}
    tot = dict(cases=0, checks=0, nontrivial=0)
    known = [(k, rx, d) for k, rx, d in known_findings() if k == pid]

    def listed(v):
        return next((d for _, rx, d in known if rx.search(f"{v.get('variant')}/{v.get('suite')}: {v['message']}")), None)
    for i, r in enumerate(runs):
        n = r.get(tier, r.get("quick"))
        if "special" in r:
            res = special(r["special"], seed, tier, r.get("args", ()))
            viol += res.get("violations", [])
            parts.append(res["part"])
            tot["cases"] += res.get("cases", 0)
            tot["checks"] += res.get("checks", 0)
            tot["nontrivial"] += res.get("nontrivial", 0)
            sigs.update(res.get("sigs", ()))
            samples += res.get("samples", [])
            for k, x in res.get("counters", {}).items():
                cnt[k] = cnt.get(k, 0) + x
            if not all(map(listed, viol)):
                break
            continue
        secs = r.get("secs", 60 if tier == "quick" else 240)
        R = Run(r["variant"], r["suite"], n, secs, seed * 7919 + 31 * i + 1, mem=r.get("mem", False), shards=r.get("shards"), cpu=r.get("cpu", 20), salt=seed * 100000 + i * 1000, extra=r.get("extra", ())).go()
        c = sum(x["cases"] for x in R.results)
        parts.append(dict(variant=r["variant"], suite=r["suite"], cases=c, checks=sum(x["checks"] for x in R.results), allocations=sum(x["allocs"] for x in R.results),
                          distinct=len(R.sigs), dismissed_reports=R.dismissed, stopped_on_time_limit=sum(x["ended_early"] for x in R.results)))
        tot["cases"] += c
        tot["checks"] += sum(x["checks"] for x in R.results)
        tot["nontrivial"] += sum(x["nontrivial"] for x in R.results)
        sigs.update(R.sigs)
        for x in R.results:
            for k, y in x["counters"].items():
                cnt[k] = cnt.get(k, 0) + y
            if len(samples) < 4:
                samples += [dict(variant=r["variant"], suite=r["suite"], **s) for s in x["samples"][:1]]
        viol += R.violations
        if not all(map(listed, viol)):
            break
    real, seen_known = [], {}
    for v in viol:
        k = listed(v)
        if k:
            seen_known[k] = v
        else:
            real.append(v)
    for k, rx, d in known:
        log(f"KNOWN-FINDING: property={pid} {d}")
    if not real and tot["cases"] == 0:
        raise Broken("nothing was observed")
    if not real and len(sigs) < plan.get("min_distinct", 2):
        raise Broken(f"only {len(sigs)} distinct histories observed")
    for name in plan.get("must_see", []):
        if not real and not cnt.get(name):
            raise Broken(f"the workload never reached '{name}'")
    os.makedirs(EVID, exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=tot["cases"], distinct_nontrivial=len(sigs), oracle_comparisons=tot["checks"],
                            rule=plan["rule"], runs=parts, events=dict(sorted(cnt.items(), key=lambda kv: -kv[1])[:160]), samples=samples[:4] or [{"note": "no sample recorded"}],
                            build_s=round(tb, 1)),
              assumptions=plan.get("assumptions", NOTES), wall_s=round(time.time() - t0, 2), violations=len(real))
    tmp = os.path.join(EVID, f".{pid}.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(EVID, f"{pid}.json"))
    if real:
        os.makedirs(REPLAYS, exist_ok=True)
        real.sort(key=lambda v: (v.get("case") is None, v.get("case") or 0))
        v = real[0]
        if "suite" in v:
            confirm(v)
        path = os.path.join(REPLAYS, f"{pid}.json")
        v["property"] = pid
        json.dump(v, open(path, "w"), indent=1)
        log(f"  {v.get('suite')}/{v.get('variant')} case {v.get('case')}: {v['message'][:800]}")
        for l in v.get("log", [])[-12:]:
            log("    " + l[:220])
        log(f"VIOLATION property={pid} replay={path}")
        return 1
    log(f"{pid}: held on {tot['cases']} executions ({len(sigs)} distinct, {tot['checks']} oracle comparisons), build {tb:.0f} s, total {time.time() - t0:.0f} s")
    return 0


def replay(path):
    v = json.load(open(path))
    if "suite" not in v:
        log(json.dumps(v, indent=1))
        log(f"re-run with: VERIF_SEED=<seed> python3 check.py {v['property']}")
        return 2
    build(v["variant"])
    cmd, e = worker_cmd(v["variant"], v["suite"], v["seed"], v["shard"], v["shards"], v["cases"], 1e9, None, only=v["case"], mem=v.get("mem", False), salt=v.get("salt", 0), extra=v.get("extra", ()))
    return subprocess.run(cmd, env=e).returncode


def main():
    try:
        a = sys.argv[1:]
        if a and a[0] == "--setup":
            todo = sorted({r["variant"] for p in PLAN.values() for r in p["runs"] if "variant" in r})
            build_all([n for n in todo if n in ("rel", "dbg")])
            log("built", todo)
            return 0
        if a and a[0] == "--replay":
            return replay(a[1])
        if "--thorough" in a:
            os.environ["VERIF_TIER"] = "thorough"
        return check(a[0])
    except Broken as ex:
        log(f"NO VERDICT: {ex}")
        return 2
    except subprocess.TimeoutExpired as ex:
        log(f"NO VERDICT: {ex}")
        return 2


if __name__ == "__main__":
    sys.exit(main())

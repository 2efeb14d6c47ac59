"""Checks that are not one harness suite: feature configurations, compile probes, overflow stress, dependency probe."""
import os, re, shutil, subprocess, struct, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))

# ---------------------------------------------------------------- C24: feature configurations
CONFIGS = {
    "none": "",
    "macros-chunk": "macros,chunk",
    "alloc": "alloc",
    "std": "std",
    "queue": "queue",
    "queue-alloc": "queue,alloc",
    "queue-std": "queue,std,macros,chunk",
    "bytes-queue": "bytes,queue",
    "bytes-alloc": "bytes,alloc",
    "bytes-safe-queue": "bytes_safe,queue",
    "http-queue": "http,queue",
    "arbitrary-queue": "arbitrary,queue",
    "extras-alloc": "alloc,interning,arbitrary,http,serde,nom",
    "serde-nom": "serde,nom",
    "serde-nom-queue": "serde,nom,queue,macros",
    "full": "std,queue,interning,arbitrary,http,nom,serde,macros,chunk",
    "full-bytes-safe": "std,queue,interning,arbitrary,http,bytes_safe,nom,serde,macros,chunk",
}
DEBUG_TOO = ("none", "alloc", "queue", "queue-alloc", "bytes-queue", "arbitrary-queue", "serde-nom", "full")
LEVELS = {"plain": 30_000, "heap": 40_000, "io": 30_000, "queue": 60_000, "queueheap": 4_000, "capacity": 60_000, "bytes": 40_000, "buf": 30_000, "bufqueue": 30_000, "body": 40_000, "bodyqueue": 10_000, "arb": 40_000, "parse": 8_000, "serde": 15_000, "serdeheap": 20_000}


def _probe_build(D, name, prof):
    tdir = os.path.join(D.TARGET, "cfg", name)
    v = dict(tc=D.PINNED)
    cmd = ["cargo", "build", "--offline", "--locked", "--quiet", "--manifest-path", os.path.join(VERIF, "cfgprobe", "Cargo.toml"), "--target-dir", tdir, "-j", "2"]
    if CONFIGS[name]:
        cmd += ["--features", CONFIGS[name]]
    if prof == "release":
        cmd += ["--release"]
    p = subprocess.run(cmd, env=D.env_for(v), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if p.returncode:
        raise D.Broken(f"build of configuration {name}/{prof} failed:\n{p.stdout[-3000:]}")
    return os.path.join(tdir, prof, "cfgprobe")


def configs(seed, tier, D, names=tuple(CONFIGS), levels=tuple(LEVELS)):  # noqa: C901
    """The same programs in several feature configurations: what they observe is compared."""
    LV = {lv: LEVELS[lv] for lv in levels}
    bins = {}

    def both(name):
        return [((name, p), _probe_build(D, name, p)) for p in (("release", "debug") if name in DEBUG_TOO else ("release",))]
    with ThreadPoolExecutor(D.CPUS) as ex:
        for r in ex.map(both, names):
            bins.update(r)
    offers = {k: subprocess.run([b, "--levels"], stdout=subprocess.PIPE, text=True, check=True).stdout.split() for k, b in bins.items()}
    d = tempfile.mkdtemp(prefix="mon_cfg_")
    viol, sigs, steps, runs, samples = [], set(), 0, 0, []
    try:
        jobs = []
        for lv, n in LV.items():
            n = n * (12 if tier == "thorough" else 1)
            have = [k for k in bins if lv in offers[k]]
            if len(have) < 2:
                raise D.Broken(f"level {lv} is offered by {have} only")
            for k in have:
                nn = n if k[1] == "release" else n // 3
                jobs.append((lv, k, nn))

        def go(j):
            lv, k, n = j
            out = f"{d}/{lv}.{k[0]}.{k[1]}"
            try:
                p = subprocess.run([bins[k], lv, str(seed), "0", str(n), out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=400)
            except subprocess.TimeoutExpired:
                return j, None, "no end within 400 s"
            if p.returncode:
                return j, None, f"ended with {p.returncode}: {p.stderr[-400:]}"
            raw = open(out, "rb").read()
            return j, (struct.unpack(f"<{len(raw) // 8}Q", raw), p.stdout), None
        res = {}
        with ThreadPoolExecutor(D.CPUS) as ex:
            for j, r, err in ex.map(go, jobs):
                lv, k, n = j
                runs += 1
                if err:
                    viol.append(dict(message=f"level {lv} in configuration {k[0]}/{k[1]}: {err}", level=lv, config=k, seed=seed, case=None))
                    continue
                res[(lv, k)] = r[0]
                steps += int(re.search(r"STEPS (\d+)", r[1]).group(1))
                m = re.search(r"BROKEN (\d+) (.*)", r[1])
                if m:
                    viol.append(dict(message=f"level {lv} in configuration {k[0]}/{k[1]}, program {m.group(1)}: {m.group(2)[:600]}", level=lv, config=k, seed=seed, case=int(m.group(1)), log=explain(bins[k], lv, seed, int(m.group(1)))[-30:]))
        compared = 0
        for lv in LV:
            ks = [k for (l, k) in res if l == lv]
            if not ks:
                continue
            ref = max(ks, key=lambda k: (k[1] == "release", len(CONFIGS[k[0]])))
            sigs.update(hash((lv, x)) & 0xFFFFFFFFFFFFFFFF for x in res[(lv, ref)])
            for k in ks:
                if k == ref:
                    continue
                a, b = res[(lv, ref)], res[(lv, k)]
                n = min(len(a), len(b))
                compared += n
                if a[:n] == b[:n]:
                    continue
                c = next(i for i in range(n) if a[i] != b[i])
                x, y = explain(bins[ref], lv, seed, c), explain(bins[k], lv, seed, c)
                i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
                one = lambda z: z[i] if i < len(z) else "(nothing)"  # noqa: E731
                viol.append(dict(message=f"level {lv}, program {c}, step {i}: {ref[0]}/{ref[1]} observed `{one(x)[:300]}`, {k[0]}/{k[1]} observed `{one(y)[:300]}`", level=lv, config=[ref, k], seed=seed, case=c, log=x[max(0, i - 8):i]))
        for lv in ("plain", "capacity") if len(LV) > 5 else list(LV)[:1]:
            k = min((k for k in bins if lv in offers[k]), key=lambda k: (len(CONFIGS[k[0]]), k[1] != "release"))
            samples.append(dict(level=lv, config="/".join(k), program=1, transcript=explain(bins[k], lv, seed, 1)[:20]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return dict(violations=viol, cases=sum(len(x) for x in res.values()), checks=compared, nontrivial=len(sigs), sigs=sigs, samples=samples,
                counters={"observations": steps, "configurations": len(bins), "runs": runs},
                part=dict(special="configs", configurations=[f"{a}/{b}" for a, b in bins], levels={lv: [f"{k[0]}/{k[1]}" for (l, k) in res if l == lv] for lv in LV}, transcripts_compared=compared, observations=steps))


def explain(b, lv, seed, case):
    p = subprocess.run([b, lv, str(seed), str(case), "--explain"], stdout=subprocess.PIPE, text=True, errors="replace", timeout=60)
    return p.stdout.splitlines()


# ---------------------------------------------------------------- C04: every suite in the interpreter
def miri_pool(seed, tier, D, jobs, mem=True):
    """jobs: (variant, suite, cases); one process each, as many at a time as there are processors."""
    mult = 6 if tier == "thorough" else 1
    runs = [D.Run(v, s, n, 1e9, seed * 7919 + 1000 + i, mem=mem, shards=1, wall=850 if tier == "quick" else 6000, salt=seed * 100000 + i * 1000)
            for i, (v, s, n) in enumerate((v, s, n) for m in range(mult) for v, s, n in jobs)]
    with ThreadPoolExecutor(D.CPUS) as ex:
        for r in ex.map(lambda r: r.go(), runs):
            pass
    parts, out = {}, dict(violations=[], cases=0, checks=0, nontrivial=0, sigs=set(), counters={})
    for r in runs:
        out["violations"] += r.violations
        out["sigs"] |= r.sigs
        for x in r.results:
            out["cases"] += x["cases"]
            out["checks"] += x["checks"]
            out["nontrivial"] += x["nontrivial"]
            parts[f"{r.variant}/{r.suite}"] = parts.get(f"{r.variant}/{r.suite}", 0) + x["cases"]
    out["part"] = dict(special="miri pool", cases=parts)
    return out


# ---------------------------------------------------------------- C04: configurations without heap, and others, in the interpreter
def cfg_miri(seed, tier, D, table):
    """table: configuration -> {level: programs}. The programs of C24, judged by the interpreter only."""
    mult = 1 if tier == "quick" else 12
    crate = os.path.join(VERIF, "cfgprobe")
    work = tempfile.mkdtemp(prefix="mon_cfgm_")
    out = dict(violations=[], cases=0, checks=0, nontrivial=0, sigs=set(), counters={})

    def call(name, args, k, wall):
        e = D.env_for(dict(tc="nightly"))
        e["MIRIFLAGS"] = f"-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-seed={seed * 1000 + k}"
        cmd = ["cargo", "miri", "run", "--offline", "--locked", "--quiet", "--manifest-path", os.path.join(crate, "Cargo.toml"), "--target-dir", os.path.join(D.TARGET, "cfgm", name)]
        if CONFIGS[name]:
            cmd += ["--features", CONFIGS[name]]
        try:
            return subprocess.run(cmd + ["--"] + args, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=wall)
        except subprocess.TimeoutExpired:
            raise D.Broken(f"programs {args} of configuration {name} did not end within {wall} s in the interpreter")

    def offers(name):
        p = call(name, ["--levels"], 0, 700)
        if p.returncode:
            raise D.Broken(f"build of configuration {name} for the interpreter failed:\n{p.stderr[-3000:]}")
        return name, p.stdout.split()

    def go(j):
        name, lv, first, n, k = j
        f = os.path.join(work, str(k))
        return j, call(name, [lv, str(seed), str(first), str(n), f], k, 700 if tier == "quick" else 6000), f
    try:
        D.build("miri")  # the interpreter's standard library, once
        with ThreadPoolExecutor(D.CPUS) as ex:
            have = dict(ex.map(offers, table))
        jobs = []
        for name, lvs in table.items():
            for lv, n in lvs.items():
                if lv not in have[name]:
                    raise D.Broken(f"level {lv} is not offered by configuration {name}")
                # several processes each, the slow ones first
                for first in range(0, n * mult, max(1, n // 3)):
                    jobs.append((name, lv, first, min(max(1, n // 3), n * mult - first)))
        jobs = [(*j, k) for k, j in enumerate(sorted(jobs, key=lambda j: j[1] != "capacity"))]
        with ThreadPoolExecutor(D.CPUS) as ex:
            for (name, lv, first, n, k), p, f in ex.map(go, jobs):
                if p.returncode:
                    m = re.search(r"error: (Undefined Behavior.*)", p.stderr)
                    if not m:
                        raise D.Broken(f"level {lv} of configuration {name} ended with {p.returncode} in the interpreter:\n{p.stderr[-2000:]}")
                    where = re.findall(r"--> (\S*/repo/src/\S+|/repo/src/\S+)|inside `([^`]+)`", p.stderr)
                    out["violations"].append(dict(variant="cfg_miri/" + name, seed=seed, case=k, message=f"{lv} of configuration {name}, programs {first}..{first + n}: {m.group(1)} | {' | '.join(a or b for a, b in where[:5])}"[:900], log=p.stderr.splitlines()[-40:]))
                    continue
                raw = open(f, "rb").read()
                hs = struct.unpack(f"<{len(raw) // 8}Q", raw)
                out["sigs"].update(hash((name, x)) & 0xFFFFFFFFFFFFFFFF for x in hs)
                out["cases"] += len(hs)
                out["nontrivial"] += len(hs)
                steps = int(re.search(r"STEPS (\d+)", p.stdout).group(1))
                out["counters"]["cfg_miri." + name] = out["counters"].get("cfg_miri." + name, 0) + steps
    finally:
        shutil.rmtree(work, ignore_errors=True)
    out["part"] = dict(special="configurations in the interpreter", programs=table)
    return out


# ---------------------------------------------------------------- C25: every suite on other targets
def cross(seed, tier, D, jobs):
    """A target for which the library alone does not build, while it does for this one, is a violation as well."""
    try:
        D.build_all(sorted({v for v, _, _ in jobs}))
    except D.BuildFailed as ex:
        if not re.search(r"could not compile `bytedata` \(lib\)", ex.text):
            raise
        D.build("miri")
        t = D.VARIANTS[ex.name]["target"]
        errs = re.findall(r"^error.*(?:\n +--> .*)?", ex.text, re.M)
        return dict(violations=[dict(variant=ex.name, seed=seed, case=None, message=f"the library builds for {D.TRIPLE} and not for {t}: {' | '.join(errs)[:700]}", log=[])],
                    part=dict(special="cross", failed=t), cases=1)
    out = miri_pool(seed, tier, D, jobs, mem=False)
    out["part"]["special"] = "other targets, interpreted"
    return out


# ---------------------------------------------------------------- C04, C05, C06: programs that must not run
def probes(seed, tier, D, group):
    """Compile every program of probes/table.py in both forms. A refused program cannot misbehave; an accepted one
    is run in the interpreter under several schedules, whose report is the violation."""
    import json
    import sys
    sys.path.insert(0, os.path.join(VERIF, "probes"))
    import table
    # the nightly compiler is only used for the interpreter: its borrow checker accepts uses after free that stable refuses
    v, vm = dict(tc="stable"), dict(tc="nightly")
    crate, tdir = os.path.join(VERIF, "probes"), os.path.join(D.TARGET, "probes")
    base = ["--offline", "--locked", "--manifest-path", os.path.join(crate, "Cargo.toml"), "--target-dir", tdir]
    p = subprocess.run(["cargo", "build", "--message-format=json", *base], env=D.env_for(v), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=800)
    if p.returncode:
        raise D.Broken(f"build of the probes failed:\n{p.stderr[-3000:]}")
    ext = {}
    for l in p.stdout.splitlines():
        d = json.loads(l)
        if d.get("reason") == "compiler-artifact":
            for f in d["filenames"]:
                if f.endswith((".rlib", ".rmeta")):
                    m = re.search(r"([\w-]+)@(\d+)[^@]*$", d["package_id"])
                    n = d["target"]["name"].replace("-", "_")
                    ext.setdefault(n, set()).add(f)
                    if m and n == "http_body":
                        ext.setdefault(f"{n}_{m.group(2)}", set()).add(f)
    externs = [x for n in ("bytedata", "bytes", "nom", "arbitrary", "http_body_1") for f in sorted(ext[n]) for x in ("--extern", f"{n}={f}")]
    dirs = [x for d in sorted({os.path.dirname(f) for fs in ext.values() for f in fs} | {os.path.join(tdir, "debug", "deps")}) for x in ("-L", "dependency=" + d)]
    forms = {k: x for k, x in table.forms().items() if x[0] == group}
    work = tempfile.mkdtemp(prefix="mon_probe_")
    out = dict(violations=[], cases=0, checks=0, nontrivial=0, sigs=set(), counters={})
    refused, accepted, codes = 0, [], {}

    def comp(name, form):
        f = os.path.join(work, f"{name}_{form}.rs")
        with open(f, "w") as h:
            h.write(table.PRELUDE + forms[name][1 if form == "good" else 2])
        p = subprocess.run(["rustc", "--edition", "2021", "--crate-name", "probe", "--emit", "metadata", "-o", f + ".rmeta", *dirs, *externs, f],
                           env=D.env_for(v), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
        return name, form, p.returncode, p.stderr

    try:
        with ThreadPoolExecutor(D.CPUS) as ex:
            res = list(ex.map(lambda x: comp(*x), [(n, f) for n in forms for f in ("good", "bad")]))
        if any(f == "good" and rc for _, f, rc, _ in res):
            raise D.Broken("control forms of probes are not accepted:\n" + "\n".join(f"{n}: {err[:700]}" for n, f, rc, err in res if f == "good" and rc))
        for n, f, rc, err in res:
            out["cases"] += 1
            out["checks"] += 1
            if f == "good":
                continue
            if rc:
                refused += 1
                out["nontrivial"] += 1
                out["sigs"].add(n)
                for c in set(re.findall(r"error\[(E\d+)\]", err)) or {"other"}:
                    codes[c] = codes.get(c, 0) + 1
            else:
                accepted.append(n)
        for n in accepted:
            src = os.path.join(work, n + "_bad.rs")
            run = os.path.join(work, "run_" + n)
            os.makedirs(os.path.join(run, "src"))
            shutil.copy(src, os.path.join(run, "src", "main.rs"))
            for f in ("Cargo.toml", "Cargo.lock"):
                shutil.copy(os.path.join(crate, f), run)
            for k in range(4):
                e = D.env_for(vm)
                e["MIRIFLAGS"] = f"-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-seed={seed * 100 + k}"
                try:
                    p = subprocess.run(["cargo", "miri", "run", "--offline", "--locked", "--quiet", "--manifest-path", os.path.join(run, "Cargo.toml"), "--target-dir", os.path.join(D.TARGET, "probes_miri")],
                                       env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=150)
                except subprocess.TimeoutExpired:
                    break
                out["cases"] += 1
                if "could not compile" in p.stderr and k == 0:
                    out["counters"]["accepted_but_not_by_the_interpreter's_compiler"] = out["counters"].get("accepted_but_not_by_the_interpreter's_compiler", 0) + 1
                    break
                if "Undefined Behavior" in p.stderr:
                    m = re.search(r"error: (Undefined Behavior.*)", p.stderr)
                    out["violations"].append(dict(variant="probes", seed=seed, case=k, message=f"the safe program {n} is accepted, and the interpreter reports: {m.group(1) if m else 'Undefined Behavior'}"[:800],
                                                  log=[l for l in forms[n][2].split("\n")][:40]))
                    break
    finally:
        shutil.rmtree(work, ignore_errors=True)
    out["counters"].update({"refused": refused, "accepted": len(accepted), **codes})
    out["part"] = dict(special="probes", group=group, programs=len(forms), refused=refused, accepted=accepted, codes=codes)
    return out

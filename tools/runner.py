"""Runs the explorers of one property, replays what they report, writes the
evidence file, and prints the verdict."""
import json, os, re, resource, shutil, subprocess, sys, time, mmap, struct

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import mkbuild

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:"
                    "detect_stack_use_after_return=0:allocator_may_return_null=1:"
                    "hard_rss_limit_mb=3400",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=98",
    "LC_ALL": "C.UTF-8",
}


# Code that allocates without end is to fail by itself, not to take down the
# machine. (AddressSanitizer reserves address space, it has the limit above).
MEMORY_LIMIT = 3400 << 20


def limit_memory(variant):
    if variant.startswith("asan"):
        return None
    return lambda: resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))


def known_findings(prop):
    res = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for l in f:
                l = l.strip()
                if not l.startswith("finding:"):
                    continue
                e = json.loads(l[len("finding:"):])
                if e.get("property") == prop:
                    res.append(e)
    return res


def read_cur(path):
    try:
        with open(path, "rb") as f:
            b = f.read()
        idx = struct.unpack("<q", b[:8])[0]
        d = b[8:].split(b"\0", 1)[0].decode("utf-8", "replace")
        return idx, d
    except Exception:
        return -1, ""


class Pass:
    """One exploration: a harness binary, in some build variant."""

    def __init__(self, harness, variant="fast", srcs=None, lfl="", args=(),
                 shards=8, env=None, name=None, timeout=None, defs=""):
        self.harness, self.variant = harness, variant
        self.srcs = srcs or [harness + ".cc"]
        self.lfl, self.args, self.shards = lfl, list(args), shards
        self.env = env or {}
        self.name = name or f"{harness}/{variant}" + "".join(args)
        self.timeout = timeout
        self.defs = defs


def run_pass(p, binary, tier, rundir):
    out = os.path.join(rundir, re.sub(r"[^A-Za-z0-9_.-]", "_", p.name))
    os.makedirs(out)
    env = dict(os.environ)
    env.update(SAN_ENV)
    env.update(p.env)
    env["VERIF_OUT"] = out
    base = [binary, "--out", out] + p.args
    if tier == "thorough":
        base.append("--thorough")
    procs = {}
    crashes = []
    ncrash = {}

    def start(s, extra=()):
        e = open(os.path.join(out, f"stderr.{s}"), "wb")
        procs[s] = subprocess.Popen(
            base + ["--shard", f"{s}/{p.shards}"] + list(extra),
            stdout=subprocess.DEVNULL, stderr=e, env=env, cwd=out,
            start_new_session=True, preexec_fn=limit_memory(p.variant))

    limit = p.timeout or (800 if tier == "quick" else 4 * 3600)
    t0 = time.time()
    for s in range(p.shards):
        start(s)
    timed_out = False
    while procs:
        for s in list(procs):
            rc = procs[s].poll()
            if rc is None:
                continue
            del procs[s]
            if rc == 0:
                continue
            with open(os.path.join(out, f"stderr.{s}"), "rb") as f:
                err = f.read()[-6000:].decode("utf-8", "replace")
            if rc == 2:
                raise SystemExit(f"harness error in {p.name}: {err}")
            idx, desc = read_cur(os.path.join(out, f"cur.{s}"))
            kind = {77: "hang", 99: "memory-error", 98: "undefined-behaviour"}.get(rc, "crash")
            crashes.append({"index": idx, "key": kind, "case": desc, "shard": s,
                            "msg": f"process ended with {rc}: " + err[-3000:]})
            ncrash[s] = ncrash.get(s, 0) + 1
            if ncrash[s] < 4 and idx >= 0:
                start(s, ["--start", str(idx + 1)])
        if time.time() - t0 > limit:
            timed_out = True
            for s in procs:
                os.killpg(procs[s].pid, 9)
            break
        time.sleep(0.01)
    if timed_out:
        raise SystemExit(f"{p.name}: time limit of {limit}s exceeded")
    fails = list(crashes)
    st = {"enumerated": 0, "executed": 0, "transitions": 0, "samples": [],
          "counters": {}, "fail_total": 0}
    states, nontriv = set(), set()
    for s in range(p.shards):
        ff = os.path.join(out, f"fails.{s}")
        if os.path.exists(ff):
            with open(ff, encoding="utf-8") as f:
                for l in f:
                    try:
                        e = json.loads(l)
                    except ValueError:
                        continue
                    e["shard"] = s
                    fails.append(e)
        sf = os.path.join(out, f"stats.{s}")
        if os.path.exists(sf):
            with open(sf) as f:
                e = json.load(f)
            st["enumerated"] = max(st["enumerated"], e["enumerated"])
            for k in ("executed", "transitions", "fail_total"):
                st[k] += e[k]
            st["samples"] += e["samples"][:2]
            for k, v in e["counters"].items():
                st["counters"][k] = st["counters"].get(k, 0) + v
        for nm, acc in (("states", states), ("nontriv", nontriv)):
            bf = os.path.join(out, f"{nm}.{s}")
            if os.path.exists(bf):
                with open(bf, "rb") as f:
                    b = f.read()
                acc.update(struct.unpack(f"<{len(b)//8}Q", b))
                os.remove(bf)
    st["states"] = len(states)
    st["nontriv"] = len(nontriv)
    for f in fails:
        f["pass"] = p
        f["cmd"] = base
        f["env"] = {k: env[k] for k in list(SAN_ENV) + list(p.env)}
    return st, fails


def replay(f, rundir):
    """Re-executes a reported case alone (twice); falls back to the whole shard."""
    p = f["pass"]
    env = dict(os.environ)
    env.update(f["env"])
    rdir = os.path.join(rundir, f"replay{f['index']}-{os.getpid()}")
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir)
    env["VERIF_OUT"] = rdir
    cmd = [c if c != f["cmd"][2] else rdir for c in f["cmd"]]

    def once(extra, limit=300):
        for fn in os.listdir(rdir):
            fp = os.path.join(rdir, fn)
            if os.path.isfile(fp):
                os.remove(fp)
        try:
            r = subprocess.run(cmd + extra, env=env, cwd=rdir, timeout=limit,
                               stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE,
                               preexec_fn=limit_memory(p.variant))
        except subprocess.TimeoutExpired:
            return True
        if r.returncode != 0:
            return True
        for fn in os.listdir(rdir):
            if fn.startswith("fails."):
                with open(os.path.join(rdir, fn)) as ff:
                    for l in ff:
                        if json.loads(l)["index"] == f["index"]:
                            return True
        return False

    alone = ["--only", str(f["index"])]
    if f["index"] >= 0 and once(alone):
        return "alone", cmd + alone
    full = ["--shard", f"{f['shard']}/{p.shards}"]
    if once(full, 900):
        return "history", cmd + full
    return None, cmd + alone


def run_check(prop, spec):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    passes = [p for p in spec["passes"] if tier == "thorough" or not getattr(p, "thorough_only", False)]
    # Build everything first.
    bins = {}
    byvar = {}
    for p in passes:
        byvar.setdefault((p.variant, p.defs), []).append((p.harness, p.srcs, p.lfl))
    for (v, defs), hs in byvar.items():
        uniq = []
        for h in hs:
            if h not in uniq:
                uniq.append(h)
        outs = mkbuild.build(v, uniq, defs)
        for k, b in outs.items():
            bins[(v, k)] = b
    tb = time.time() - t0
    rundir = os.path.join(VERIF, "_build", "run", f"{prop}-{os.getpid()}")
    shutil.rmtree(rundir, ignore_errors=True)
    os.makedirs(rundir)
    cov = {"evaluations": 0, "states": 0, "transitions": 0,
           "distinct_nontrivial": 0, "samples": [], "passes": [],
           "exhaustive": True, "rule": spec["rule"]}
    allfails = []
    try:
        for p in passes:
            tp = time.time()
            st, fails = run_pass(p, bins[(p.variant, p.harness)], tier, rundir)
            ev = st["counters"].pop("evaluations", 0) or st["executed"]
            cov["evaluations"] += ev
            cov["states"] += st["states"]
            cov["transitions"] += st["transitions"]
            cov["distinct_nontrivial"] += st["nontriv"]
            cov["samples"] += st["samples"][:4]
            cov["passes"].append({
                "name": p.name, "cases": st["executed"], "evaluations": ev,
                "states": st["states"], "transitions": st["transitions"],
                "wall_s": round(time.time() - tp, 2), **st["counters"]})
            allfails += fails
            if st["enumerated"] and not fails and st["executed"] != st["enumerated"]:
                raise SystemExit(f"{p.name}: executed {st['executed']} of "
                                 f"{st['enumerated']} enumerated cases")
        # Known findings.
        kf = known_findings(prop)
        hit = {}
        viol = []
        for f in allfails:
            for i, e in enumerate(kf):
                if re.fullmatch(e["key"], f["key"]) and re.search(e["case"], f["case"], re.S) \
                        and re.search(e.get("msg", ""), f["msg"], re.S):
                    hit[i] = hit.get(i, 0) + 1
                    break
            else:
                viol.append(f)
        for i, e in enumerate(kf):
            if hit.get(i):
                print(f"KNOWN-FINDING: property={prop} {e['what']}")
        bykey = {}
        for f in sorted(viol, key=lambda f: (f["key"], f["index"])):
            bykey.setdefault((f["key"], f["pass"].name), []).append(f)
        rc = 0
        rdir = os.path.join(VERIF, "replays")
        unrep = []
        for n, (k, fs) in enumerate(bykey.items()):
            if n >= 6:
                break
            for f in fs[:3]:
                how, cmd = replay(f, rundir)
                if how:
                    break
            if not how:
                unrep.append(f)
                continue
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, f"{prop}-{n}.json")
            with open(rp, "w") as o:
                json.dump({"property": prop, "key": f["key"], "pass": f["pass"].name,
                           "case_index": f["index"], "case": f["case"],
                           "message": f["msg"], "replayed": how,
                           "replay_env": f["env"],
                           "replay_cmd": [c if "/run/" not in c else "/tmp" for c in cmd]},
                          o, indent=1)
            print(f"  [{f['key']}] {f['msg'][:1500]}\n  case: {f['case'][:1500]}")
            print(f"VIOLATION property={prop} replay={rp}")
            rc = 1
        cov["violations_reported"] = len(viol)
        ev = {"property": prop, "tier": tier, "seed": seed, "level": spec["level"],
              "coverage": cov, "assumptions": spec.get("assumptions", []),
              "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
        cov["build_s"] = round(tb, 2)
        cov["bounds"] = spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"]
        if spec["level"] == "model_checking":
            # Every explored case executes the real code and is compared.
            cov["traces_validated_against_impl"] = sum(x["cases"] for x in cov["passes"])
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as o:
            json.dump(ev, o, indent=1)
        print(f"{prop}: {cov['evaluations']} evaluations, {cov['states']} states, "
              f"{cov['transitions']} transitions, {len(viol)} violations, "
              f"{ev['wall_s']}s (build {tb:.1f}s)")
        if unrep and rc == 0:
            for f in unrep:
                print("not reproduced:", f["key"], f["case"][:300], f["msg"][:300])
            return 2
        return rc
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(rundir, ignore_errors=True)

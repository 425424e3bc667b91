#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]   - one check: builds the harness from /repo, lets the specification generate the
scenarios, drives the real code through them, lets TLC validate the recording against the specification, model-checks the
design modules of the property, writes evidence/<PROPERTY>.json.
run.py replay FILE                    - runs the scenario of a replay file again and validates it.
Exit 0: held on everything explored. 1: VIOLATION lines. 2: the machinery itself failed."""
import concurrent.futures, json, os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(V, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
T0 = time.time()
SHARDS = 6                 # processes that record at the same time

# property -> (trace specification family, harness binary, level, design models (module, config per tier))
FAMILY = {
    "C01": ("Stark", "stark"), "C02": ("Stark", "stark"), "C03": ("Stark", "stark"), "C04": ("Stark", "stark"), "C05": ("Stark", "stark"),
    "C06": ("Stark", "stark"), "C07": ("Stark", "stark"), "C17": ("Stark", "stark"), "C18": ("Stark", "stark"),
    "C23": ("Stark", "stark"), "C24": ("Stark", "stark"),
    "C19": ("Fri", "stark"), "C20": ("Fri", "stark"),
    "C08": ("Hash", "hash"), "C09": ("Hash", "hash"), "C10": ("Hash", "hash"), "C26": ("Hash", "hash"),
    "C11": ("Num", "num"), "C12": ("Num", "num"), "C13": ("Num", "num"), "C14": ("Num", "num"), "C25": ("Num", "num"),
    "C15": ("Inst", "inst"), "C16": ("Inst", "inst"), "C21": ("Inst", "inst"), "C22": ("Inst", "inst"),
}
# design models: (module, configuration of the quick tier, of the thorough tier); a configuration in NEGATIVE describes a
# design with a known defect, which TLC has to find
MODELS = {
    "C01": [("MCStark", "MCStark", "MCStark_deep")],
    "C02": [("MCAli", "MCAli", "MCAli_deep"), ("MCStark", None, "MCStark_deep")],
    "C03": [("MCStark", "MCStark", "MCStark_deep")],
    "C04": [("MCPos", "MCPos", "MCPos"), ("MCFri", None, "MCFri")],
    "C05": [("MCFri", "MCFri_quick", "MCFri")],
    "C06": [("MCTranscript", "MCTranscript", "MCTranscript_deep"), ("MCTranscript", None, "MCTranscript_late_claims"),
            ("MCTranscript", None, "MCTranscript_no_inner_roots"), ("MCTranscript", None, "MCTranscript_no_final_coefs")],
    "C07": [("MCPos", "MCPos", "MCPos")],
    "C08": [("MCMerkle", "MCMerkle", "MCMerkle_deep"), ("MCWorker", None, "MCWorker")],
    "C09": [("MCMerkle", "MCMerkle", "MCMerkle_deep"), ("MCMerkle", None, "MCMerkle_norange")],
    "C10": [("MCTranscript", "MCTranscript", "MCTranscript_deep")],
    "C11": [("MCNum", "MCNum", "MCNum_deep")],
    "C12": [("MCNum", "MCNum", "MCNum_deep"), ("MCWorker", None, "MCWorker")],
    "C13": [("MCWorker", "MCWorker_quick", "MCWorker_deep"), ("MCNum", None, "MCNum_deep")],
    "C14": [("MCNum", "MCNum", "MCNum_deep"), ("MCPos", None, "MCPos")],
    "C15": [("MCAli", "MCAli_quick", "MCAli_deep")],
    "C16": [("MCAli", "MCAli_quick", "MCAli_deep")],
    "C17": [("MCAli", "MCAli", "MCAli_deep"), ("MCWorker", None, "MCWorker")],
    "C18": [("MCStark", "MCStark", "MCStark_deep")],
    "C19": [("MCFri", "MCFri_quick", "MCFri"), ("MCFri", None, "MCFri_two")],
    "C20": [("MCFri", "MCFri_quick", "MCFri_two"), ("MCFri", None, "MCFri")],
    "C21": [("MCExpr", "MCExpr", "MCExpr_deep")],
    "C22": [("MCExpr", "MCExpr", "MCExpr_deep")],
    "C23": [("MCAli", "MCAli_quick", "MCAli_deep"), ("MCStark", None, "MCStark_deep")],
    "C25": [("MCPoly", "MCPoly", "MCPoly_deep"), ("MCPoly", None, "MCPoly_eager"), ("MCPoly", None, "MCPoly_stale")],
    "C26": [("MCHasher", "MCHasher_lazy", "MCHasher_deep"), ("MCHasher", None, "MCHasher_eager"), ("MCHasher", "MCHasher_tail", "MCHasher_tail"),
            ("MCHasher", None, "MCHasher_nolen"), ("MCHasher", None, "MCHasher_kept")],
    "C24": [("MCReuse", "MCReuse", "MCReuse_deep"), ("MCReuse", None, "MCReuse_reset"), ("MCReuse", None, "MCReuse_kept"), ("MCWorker", None, "MCWorker")],
}
NEGATIVE = {"MCTranscript_late_claims", "MCTranscript_no_inner_roots", "MCTranscript_no_final_coefs", "MCMerkle_norange", "MCReuse_reset", "MCReuse_kept", "MCPoly_eager", "MCPoly_stale",
            "MCHasher_tail", "MCHasher_nolen", "MCHasher_kept"}
LEVEL = {}
TITLES = {}
for line in open(os.path.join(V, "properties.jsonl")):
    if line.strip():
        d = json.loads(line)
        TITLES[d["id"]] = d["title"]


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def tlc(work, args, env, timeout):
    meta = os.path.join(work, "md.%d" % random.randrange(10**9))
    cmd = ["java", "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + work, "-cp", JARS, "tlc2.TLC", "-noTE", "-metadir", meta] + args
    e = dict(os.environ)
    e.update(env)
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError("TLC ran out of time: " + " ".join(args))
    shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout


def states_of(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def build(binary):
    os.makedirs(os.path.join(V, "work"), exist_ok=True)
    r = subprocess.run([os.path.join(V, "build.sh"), binary], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        log(r.stdout[-4000:])
        raise ToolError("the harness does not build")
    return r.stdout.strip().splitlines()[-1]


def generate(pid, fam, tier, seed, work):
    out = os.path.join(work, "scenarios.ndjson")
    rc, o = tlc(work, ["-config", "Empty.cfg", "Gen%s.tla" % fam], {"PROP": pid, "TIER": tier, "SEED": str(seed), "OUT": out}, 600 if tier == "quick" else 1800)
    m = re.search(r'<<"SCENARIOS", (\d+)>>', o)
    if rc != 0 or not m or not os.path.exists(out):
        log(o[-3000:])
        raise ToolError("no scenarios generated")
    return out, int(m.group(1))


def record_part(exe, lines, work, tag, limit):
    """runs the harness over some scenarios; a scenario on which the process dies is recorded as a crash.
    Returns the recordings in order, possibly fewer than scenarios after repeated hangs or crashes."""
    recs, crashes = [], 0
    while len(recs) < len(lines):
        part, res, errf = [os.path.join(work, "part%s.%s" % (tag, x)) for x in ("ndjson", "out", "err")]
        with open(part, "w") as f:
            f.write("\n".join(lines[len(recs):]) + "\n")
        if os.path.exists(res):
            os.remove(res)
        with open(errf, "w") as err:
            rc = subprocess.run([exe, part, res, str(limit)], stdout=subprocess.DEVNULL, stderr=err, cwd=work).returncode
        got = [x for x in open(res, errors="replace").read().split("\n") if x.strip()] if os.path.exists(res) else []
        if got and rc not in (0, 4):
            try:
                json.loads(got[-1])
            except ValueError:
                got.pop()
        recs += got
        if rc == 0:
            if len(recs) != len(lines):
                raise ToolError("recording is incomplete")
        elif rc == 4:
            break                               # repeated hangs: they are recorded, the rest is not run
        elif rc == 3:
            log(open(errf).read()[-2000:])
            raise ToolError("the harness cannot run a scenario")
        else:
            d = json.loads(lines[len(recs)])
            d.update({"res": "crash", "rc": rc})
            recs.append(json.dumps(d))
            crashes += 1
            if crashes >= 3:
                break
    return recs


def record(binary, scen, work, limit):
    """all scenarios, dealt out to several processes; recordings come back in the order of the scenarios"""
    exe = os.path.join(V, "harness/target/release/h_" + binary)
    lines = [x for x in open(scen).read().split("\n") if x.strip()]
    n = min(SHARDS, len(lines))
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        parts = list(ex.map(lambda k: record_part(exe, lines[k::n], work, k, limit), range(n)))
    recs, index, stopped = [], [], False
    for pos in range(len(lines)):
        k, i = pos % n, pos // n
        if i < len(parts[k]):
            recs.append(parts[k][i])
            index.append(pos)
        else:
            stopped = True
    out = os.path.join(work, "cases.ndjson")
    with open(out, "w") as f:
        f.write("\n".join(recs) + "\n")
    return out, len(recs), stopped, index


def validate(fam, pid, cases, n, work, tier="quick"):
    """TLC steps every recorded case through the trace specification; it stops at the first one that is not accepted (the
    verdicts of those judged until then are kept), so a tree that breaks everything takes no longer than a good one"""
    e = {"CASES": cases, "PROP": pid}
    rc, o = tlc(work, ["-workers", "8", "-config", "Trace.cfg", "Trace%s.tla" % fam], e, 840 if tier == "quick" else 3600)
    gen, dist = states_of(o)
    # a recording with values that no behaviour of the specification has (the expected values cannot even be evaluated)
    m = re.search(r"State 1: <Initial predicate>.*?/\\ k = (\d+)", o, re.S)
    if rc not in (0, 12) and m and "The error occurred when TLC was evaluating" in o:
        log(o[-3000:])
        return {int(m.group(1)): "bad recording that no behaviour of the specification has"}, [], gen, dist
    if rc not in (0, 12) or (rc == 0 and dist < 2 * n):
        with open(os.path.join(work, "tlc.log"), "w") as f:
            f.write(o)
        log(o[-6000:])
        raise ToolError("TLC could not judge the recording (rc %d, %d states for %d cases)" % (rc, dist, n))
    verdicts = {}
    for m in re.finditer(r'<<\s*"CASE",\s*(\d+),\s*"((?:[^"\\]|\\.)*)"\s*>>', o):
        verdicts[int(m.group(1))] = m.group(2)
    groups = [(m.group(1), m.group(2)) for m in re.finditer(r'<<\s*"GROUP",\s*(<<[^>]*>>),\s*"((?:[^"\\]|\\.)*)"\s*>>', o)]
    bad = [k for k, v in verdicts.items() if v.startswith("bad")]
    violated = "Invariant Accepted is violated" in o or rc == 12
    if violated != bool(bad or [g for g in groups if g[1].startswith("bad")]):
        log(o[-3000:])
        raise ToolError("verdicts could not be read back")
    return verdicts, groups, gen, dist


def models(pid, tier, work):
    """the design models of the property, on the specification alone"""
    out = []
    for module, quick, deep in MODELS.get(pid, []):
        cfg = quick if tier == "quick" else deep
        if not cfg:
            continue
        t = time.time()
        rc, o = tlc(work, ["-workers", "3", "-config", cfg + ".cfg", module + ".tla"], {"TIER": tier}, 800 if tier == "quick" else 3600)
        gen, dist = states_of(o)
        wrong = re.search(r"Invariant \S+ is violated", o) is not None
        if dist == 0 or wrong != (cfg in NEGATIVE) or (rc != 0 and not wrong):
            log(o[-4000:])
            raise ToolError("design model %s does not check (rc %d)" % (cfg, rc))
        out.append({"module": module, "config": cfg, "states": dist, "transitions": gen, "wall_s": round(time.time() - t, 1),
                    "result": "finds the defect it describes" if wrong else "all properties hold"})
    return out


def known_findings():
    r = {}
    p = os.path.join(V, "known_findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) (\S+) (.*)", line.strip())
        if m:
            r[(m.group(1), m.group(2))] = m.group(3)
    return r


def brief(rec, depth=0):
    """a case short enough to be read"""
    if isinstance(rec, dict):
        return {k: brief(v, depth + 1) for k, v in list(rec.items())[:40]}
    if isinstance(rec, list):
        return [brief(x, depth + 1) for x in rec[:8]] + (["... %d in all" % len(rec)] if len(rec) > 8 else [])
    if isinstance(rec, str) and len(rec) > 80:
        return rec[:80] + "..."
    return rec


def check(pid, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    fam, binary = FAMILY[pid]
    work = os.path.join(V, "work", "%s-%d" % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        pool = concurrent.futures.ThreadPoolExecutor(1)
        model_runs = pool.submit(models, pid, tier, work)
        cfg = build(binary)
        t_build = time.time() - T0
        scen, nscen = generate(pid, fam, tier, seed, work)
        cases, n, stopped, index = record(binary, scen, work, 60)
        t_rec = time.time() - T0
        verdicts, groups, gen, dist = validate(fam, pid, cases, n, work, tier)
        mods = model_runs.result()
        recs = [json.loads(x) for x in open(cases) if x.strip()]
        known = known_findings()
        bad, seen, skipped = [], {}, {}
        for k, v in sorted(verdicts.items()):
            m = re.match(r"known (\S+)", v)
            if m and (pid, m.group(1)) in known:
                seen[m.group(1)] = seen.get(m.group(1), 0) + 1
            elif v.startswith("skip"):
                skipped[v] = skipped.get(v, 0) + 1
            elif v.startswith("bad") or m:
                bad.append((k, v))
        rdir = os.path.join(V, "replays")
        lines = []
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(pid + "-"):
                os.remove(os.path.join(rdir, f))
        for k, v in bad[:5]:
            path = os.path.join(rdir, "%s-%d.json" % (pid, k))
            scn = [x for x in open(scen) if x.strip()][index[k - 1]]
            with open(path, "w") as f:
                json.dump({"property": pid, "verdict": v, "scenario": json.loads(scn), "record": recs[k - 1]}, f)
            lines.append("VIOLATION property=%s replay=%s" % (pid, path))
            log("  case %d: %s" % (k, v), json.dumps(brief(json.loads(scn)))[:600])
        for i, (g, v) in enumerate([x for x in groups if x[1].startswith("bad")][:3]):
            path = os.path.join(rdir, "%s-group%d.json" % (pid, i))
            shutil.copy(cases, path + ".cases")
            with open(path, "w") as f:
                json.dump({"property": pid, "verdict": v, "group": g, "cases": path + ".cases"}, f)
            lines.append("VIOLATION property=%s replay=%s" % (pid, path))
            log("  relation %s: %s" % (g, v))
        if len(bad) > 5:
            log("  ... %d cases in all" % len(bad))
        kinds = {}
        for r in recs:
            key = "%s/%s" % (r.get("op"), r.get("res"))
            kinds[key] = kinds.get(key, 0) + 1
        distinct = len({json.dumps({k: v for k, v in r.items() if k != "seed"}, sort_keys=True) for r in recs if r.get("res") != "absent"})
        rnd = random.Random(seed)
        samples = [brief(recs[i]) for i in sorted(rnd.sample(range(len(recs)), min(3, len(recs))))]
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": LEVEL.get(pid, "model_checking"),
            "coverage": {
                "states": sum(m["states"] for m in mods) + dist,
                "transitions": sum(m["transitions"] for m in mods) + gen,
                "traces_validated_against_impl": n - sum(skipped.values()),
                "evaluations": n, "distinct_nontrivial": distinct,
                "rule": "scenarios are enumerated by spec/Gen%s.tla; each is run on the real code, recorded, and judged by TLC against spec/Trace%s.tla; distinct counts recordings that differ in more than their seed" % (fam, fam),
                "scenarios": nscen, "by_kind": kinds, "design_models": mods, "trace_spec_states": dist,
                "skipped": skipped, "known_findings_seen": seen, "stopped_early": stopped, "hooks": cfg,
                "build_s": round(t_build, 1), "record_s": round(t_rec - t_build, 1), "samples": samples,
            },
            "assumptions": ["TLC and its JSON reader", "the harness records what the code returned", "Blake2s is collision free on the recorded inputs"],
            "wall_s": round(time.time() - T0, 1), "violations": len(lines),
        }
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for d, c in sorted(seen.items()):
            print("KNOWN-FINDING: property=%s %s %s (%d recorded cases)" % (pid, d, known[(pid, d)], c))
        for x in lines:
            print(x)
        print("%s %s: %d recordings judged, %d violations, %.0f s" % (pid, tier, n, len(lines), time.time() - T0))
        return 1 if lines else 0
    finally:
        if not os.environ.get("KEEP_WORK"):
            shutil.rmtree(work, ignore_errors=True)


def replay(path):
    d = json.load(open(path))
    pid = d["property"]
    fam, binary = FAMILY[pid]
    work = os.path.join(V, "work", "replay-%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    try:
        if "group" in d:
            print("relation %s over %s: %s" % (d["group"], d["cases"], d["verdict"]))
            return 0
        build(binary)
        scen = os.path.join(work, "s.ndjson")
        with open(scen, "w") as f:
            f.write(json.dumps(d["scenario"]) + "\n")
        cases, n, _, _ = record(binary, scen, work, 60)
        verdicts, groups, _, _ = validate(fam, pid, cases, n, work)
        print("recorded then: %s\nnow: %s" % (d["verdict"], verdicts.get(1, "ok")))
        return 1 if verdicts.get(1, "ok").startswith("bad") else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        if sys.argv[1] == "replay":
            sys.exit(replay(sys.argv[2]))
        sys.exit(check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
    except ToolError as e:
        log("TOOL ERROR:", e)
        sys.exit(2)

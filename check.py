#!/usr/bin/env python3
"""check.py <property id>: builds the engines the property needs from /repo's working tree, runs them,
writes evidence/<id>.json and reports.  Exit 0: held on everything explored; 1: VIOLATION; 2: a build
failed; 3: inconclusive (nothing was observed, or the machine was in the way)."""
import array, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from pathlib import Path

VERIF = Path(__file__).resolve().parent
REPO = Path("/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
QUICK = TIER != "thorough"
CPUS = max(2, os.cpu_count() or 8)
HOST = "x86_64-unknown-linux-gnu"
T0 = time.time()
sys.path.insert(0, str(VERIF))
from plan import ENGINES, PLAN, RULES, ASSUME  # noqa: E402


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


class Engine:
    def __init__(self, name):
        self.name = name
        for k, v in ENGINES[name].items():
            setattr(self, k, v)
        self.ok, self.err = False, ""

    def build(self):
        env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
        for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "MIRIFLAGS", "CARGO_BUILD_TARGET"):
            env.pop(k, None)
        env.update(getattr(self, "env", {}))
        t = time.time()
        cmd = self.build_cmd
        try:
            p = subprocess.run(cmd, cwd=VERIF / "harness" / self.crate, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
            self.ok, self.err = p.returncode == 0, p.stdout
        except subprocess.TimeoutExpired:
            self.err = "the build timed out"
        self.secs = time.time() - t


def build(names):
    es = {n: Engine(n) for n in names}
    ths = [threading.Thread(target=e.build) for e in es.values()]
    [t.start() for t in ths]
    [t.join() for t in ths]
    for e in es.values():
        log(f"built {e.name}: {'ok' if e.ok else 'FAILED'} ({e.secs:.1f}s)")
    return es


class Result:
    def __init__(self):
        self.evaluations = self.nontrivial = 0
        self.distinct = set()
        self.counters, self.samples, self.notes = {}, [], []
        self.violation = None

    def counter(self, k, v):
        if k in ("model_states", "max_steps_per_call", "max_depth") or k.startswith("max_"):
            self.counters[k] = max(self.counters.get(k, 0), v)
        else:
            self.counters[k] = self.counters.get(k, 0) + v


SAN = re.compile(r"(ERROR: AddressSanitizer: [^\n]*|error: Undefined Behavior: [^\n]*|error: memory leaked: [^\n]*|error: the evaluated program deadlocked[^\n]*|WARNING: ThreadSanitizer: [^\n]*|VIOLATED: [^\n]*)")


def run_job(engine, job, pid, res, deadline):
    """Runs one job on all cores. Returns a violation (what, replay) or None."""
    opts = job["opts"]
    secs = job["quick"] if QUICK else job["thorough"]
    secs = min(secs, max(2, deadline - time.time()))
    n = opts.get("workers", CPUS)
    tmp = Path(tempfile.mkdtemp(prefix="mrb-check-"))
    env = dict(os.environ, **getattr(engine, "run_env", {}))
    env["RUST_BACKTRACE"] = "0"
    procs = []
    for k in range(n):
        def cmdline(extra=(), k=k):
            c = list(engine.run_cmd) + [job["mode"], "--lens", opts.get("lens", pid), "--seed", str(SEED + opts.get("salt", 0) * 7919), "--worker", str(k), "--workers", str(n),
                 "--secs", str(int(secs)), "--hashes", str(tmp / f"h{k}")] + list(engine.run_args)
            for a, b in opts.get("args", {}).items():
                c += [f"--{a}", str(b)]
            return c + list(extra)
        procs.append(spawn(cmdline(), engine, env, tmp / f"o{k}", tmp / f"e{k}") + (cmdline,))
    # generous: only a watchdog, never a verdict
    end = time.time() + secs * 3 + opts.get("grace", 60)
    viol, soft = None, []
    live = dict(enumerate(procs))
    while live and not viol:
        time.sleep(0.05)
        late = time.time() > end
        for k, (p, fo, fe, cmdline) in list(live.items()):
            if p.poll() is None:
                if not late:
                    continue
                kill(p)
                soft.append("a worker was stopped by the watchdog")
                del live[k]
                continue
            del live[k]
            v = judge(engine, job, pid, p.returncode, fo, fe, res, cmdline, env, tmp, soft)
            if v:
                viol = v
                break
    for p, *_ in live.values():
        kill(p)
    seen = set()
    for f in tmp.glob("h*"):
        if f.is_file():
            a = array.array("Q")
            b = f.read_bytes()
            a.frombytes(b[: len(b) // 8 * 8])
            seen.update(a)
    tag = f"{engine.name}:{job['mode']}"
    res.distinct.update((tag, x) for x in seen)
    res.notes += [f"{tag}: {s}" for s in dict.fromkeys(soft)]
    shutil.rmtree(tmp, ignore_errors=True)
    return viol


def spawn(cmd, engine, env, out, err):
    fo, fe = open(out, "w"), open(err, "w")
    p = subprocess.Popen([str(c) for c in cmd], stdin=subprocess.DEVNULL, stdout=fo, stderr=fe, env=env, cwd=VERIF / "harness" / engine.crate, start_new_session=True)
    fo.close()
    fe.close()
    return p, out, err


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def again(engine, cmd, env, tmp, limit=90):
    """Runs a worker once more; used to confirm what could be the machine's fault."""
    p, fo, fe = spawn(cmd, engine, env, tmp / "again.o", tmp / "again.e")
    try:
        p.wait(limit)
    except subprocess.TimeoutExpired:
        kill(p)
        return None, "", ""
    return p.returncode, fo.read_text(errors="replace"), fe.read_text(errors="replace")


def judge(engine, job, pid, rc, fo, fe, res, cmdline, env, tmp, soft):
    out, err = fo.read_text(errors="replace"), fe.read_text(errors="replace")
    j = None
    for line in out.splitlines():
        if line.startswith("JSON "):
            try:
                j = json.loads(line[5:])
            except ValueError:
                pass
    if j:
        res.evaluations += j["evaluations"]
        res.nontrivial += j["nontrivial"]
        for k, v in j["counters"].items():
            res.counter(f"{engine.name}:{job['mode']}:{k}", v)
        if len(res.samples) < 8 and j["samples"] and not any(s["engine"] == engine.name and s["mode"] == job["mode"] for s in res.samples):
            res.samples.append({"engine": engine.name, "mode": job["mode"], "case": j["samples"][0][:6000]})
    head = f"engine {engine.name}, mode {job['mode']}\ncommand (in harness/{engine.crate}): {' '.join(map(str, cmdline()))}\n"
    if rc == 1 and j and j.get("violation"):
        v = j["violation"]
        return v["what"], head + v["replay"]
    m = SAN.search(err) or SAN.search(out)
    if m:
        what = m.group(1)
        if "memory leaked" in what and not job["opts"].get("leaks"):
            soft.append("memory leaked (not this property's concern)")
            return None
        case = re.findall(r"CASE (\d+)", err)
        return f"{engine.name}: {what}", head + (f"last case: {case[-1]} (add --case {case[-1]})\n" if case else "") + err[-12000:]
    if rc == 0 and j:
        return None
    m = re.search(r"CRASH signal=(\d+) seed=(\d+)", out) or re.search(r"(HANG) seed=(\d+)", out)
    if m:
        hang = m.group(1) == "HANG"
        r2, o2, e2 = again(engine, cmdline(["--case", m.group(2), "--cases", "1"]), env, tmp)
        if not re.search("CRASH|HANG", o2) and not hang:
            r2, o2, e2 = again(engine, cmdline(), env, tmp, 240)
        if re.search("CRASH|HANG", o2):
            what = "an operation does not return (15 s, spinning or blocked)" if hang else f"the program crashes with signal {m.group(1)}"
            return f"{what} in case {m.group(2)}", head + f"add: --case {m.group(2)} --cases 1\n" + m.group(0)
        soft.append(f"{m.group(0)}: not reproduced")
        return None
    if rc in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL):
        r2, o2, e2 = again(engine, cmdline(), env, tmp, 240)
        if r2 == rc:
            return f"the program crashes with signal {-rc}", head + err[-4000:]
    soft.append(f"a worker ended with {rc} and no verdict: {err.strip()[-300:]}")
    return None


def known_findings(pid):
    out = []
    f = VERIF / "KNOWN_FINDINGS"
    for line in f.read_text().splitlines() if f.exists() else []:
        m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line)
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3)))
    return out


def main():
    pid = sys.argv[1]
    jobs = [j for j in PLAN[pid] if (j["quick"] if QUICK else j["thorough"])]
    names = list(dict.fromkeys(j["engine"] for j in jobs))
    es = build(names)
    res = Result()
    bad = [e for e in es.values() if not e.ok]
    for e in bad:
        print(e.err[-3000:])
    # Engines which look inside (hooks) may stop building when the code is reorganised: the others decide.
    if any(not getattr(e, "optional", False) for e in bad):
        log("inconclusive: an engine does not build")
        return 2
    limit = 780 if QUICK else 3400 * 3
    deadline = T0 + limit
    viol, ran, found = None, {}, 0
    for j in jobs:
        e = es[j["engine"]]
        if not e.ok:
            res.notes.append(f"{e.name}: not built, skipped")
            continue
        if time.time() > deadline:
            res.notes.append(f"{e.name}:{j['mode']}: no time left")
            continue
        before = res.evaluations
        viol = run_job(e, j, pid, res, deadline)
        n = res.evaluations - before
        found += n
        ran[f"{e.name}:{j['mode']}"] = ran.get(f"{e.name}:{j['mode']}", 0) + n
        log(f"{e.name} {j['mode']}: {n} executions" + (f" -> {viol[0]}" if viol else ""))
        if viol:
            break
        if not n and not getattr(e, "optional", False) and not j["opts"].get("soft"):
            log("inconclusive: nothing was executed:", res.notes[-3:])
            return 3
    known_lines = []
    rep = sum(v for k, v in res.counters.items() if k.endswith("known:known_finding_reproduced"))
    if rep and not viol:
        ks = known_findings(pid)
        for i, t in ks:
            known_lines.append(f"KNOWN-FINDING: property={pid} {i}: {t}")
        if not ks:
            viol = ("the producer's reset_index makes unread items vanish", "seq known")
    ev = {
        "property": pid, "tier": "quick" if QUICK else "thorough", "seed": SEED, "level": "exploration",
        "coverage": {
            "evaluations": res.evaluations,
            "distinct_nontrivial": len(res.distinct),
            "rule": RULES[pid],
            "samples": res.samples,
            "executions_per_engine": ran,
            "nontrivial_executions": res.nontrivial,
            "observed": dict(sorted(res.counters.items())),
            "engines": {e.name: {"built": e.ok, "build_s": round(e.secs, 1)} for e in es.values()},
            "notes": res.notes,
            "known_findings": known_lines,
        },
        "assumptions": ASSUME.get(pid, []) + ASSUME["*"],
        "wall_s": round(time.time() - T0, 1),
        "violations": 1 if viol else 0,
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1) + "\n")
    for n in res.notes:
        log("note:", n)
    if viol:
        (VERIF / "replays").mkdir(exist_ok=True)
        r = VERIF / "replays" / f"{pid}-{TIER}-{SEED}.txt"
        r.write_text(f"property {pid}\n{viol[0]}\n\n{viol[1]}\n")
        print(viol[0])
        print(viol[1][:4000])
        print(f"VIOLATION property={pid} replay={r}")
        return 1
    if not res.evaluations or not len(res.distinct):
        log("inconclusive: nothing was observed")
        return 3
    for k in known_lines:
        print(k)
    log(f"{pid}: held on {res.evaluations} executions, {len(res.distinct)} distinct non-trivial ones")
    return 0


if __name__ == "__main__":
    sys.exit(main())

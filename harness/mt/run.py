#!/usr/bin/env python3
"""Runs the thread programs, under Miri or as a native (ThreadSanitizer) binary, in batches until the time is up,
and reports like the other engines (one JSON line)."""
import array, json, os, re, subprocess, sys, time

mode = sys.argv[1]
a = dict(zip((x.lstrip("-") for x in sys.argv[2::2]), sys.argv[3::2]))
lens, seed, secs = a.get("lens", ""), int(a.get("seed", 1)), int(a.get("secs", 10))
native = a.get("native")
worker = int(a.get("worker", 0))
T0 = time.time()
PROGRAM = re.compile(r"PROGRAM (\w+) (\d+) owned=(\w+) Conf \{ len: (\d+), items: (\d+), three: (\w+), moves: (\w+), stack: (\w+)")


def kind(text):
    """(category, what) of a failed run."""
    m = re.search(r"VIOLATED: (\w+): ([^\n]*)", text)
    if m:
        return m.group(1), m.group(0)
    m = re.search(r"error: Undefined Behavior: ([^\n]*)", text) or re.search(r"WARNING: ThreadSanitizer: ([^\n]*)", text)
    if m:
        w = m.group(0)
        if "ata race" in w:
            return ("Life" if "dealloc" in w else "Race"), w
        if re.search(r"dangling|freed|use-after-free|deallocat|out-of-bounds", w):
            return "Life", w
        return "UB", w
    m = re.search(r"error: memory leaked: [^\n]*", text)
    if m:
        return "Leak", m.group(0)
    m = re.search(r"error: the evaluated program deadlocked[^\n]*", text)
    if m:
        return "Deadlock", m.group(0)
    m = re.search(r"panicked at [^\n]*\n[^\n]*", text)
    if m:
        return "Panic", m.group(0)
    return None, None


MINE = {
    "C01": {"Value", "Lost"},
    "C02": {"Value", "Lost", "Race", "UB"},
    "C03": {"Race", "UB", "Over"},
    "C04": {"Over", "Lost"},
    "C07": {"Life", "Flag", "Leak", "UB"},
    "C08": {"Ledger", "Leak", "UB", "Life"},
    "C09": {"Ledger", "UB", "Life"},
    "C10": {"Deadlock", "Lost", "Under"},
    "C12": {"Under", "Over"},
    "C15": {"Deadlock"},
}
ev, distinct, counters, samples, viol, other = 0, set(), {}, [], None, {}


def count(text):
    global ev
    for m in PROGRAM.finditer(text):
        ev += 1
        distinct.add(int(m.group(2)) & (2**64 - 1))
        for k in (f"items_{'owned' if m.group(3) == 'true' else 'plain'}", f"stages_{3 if m.group(6) == 'true' else 2}", f"storage_{'stack' if m.group(8) == 'true' else 'heap'}", f"len_{m.group(4)}"):
            counters[k] = counters.get(k, 0) + 1
        if not samples:
            samples.append(m.group(0) + " }")


def miri(flags, args, limit):
    env = dict(os.environ, MIRIFLAGS="-Zmiri-disable-stacked-borrows " + flags, RUSTFLAGS="-Awarnings", CARGO_TERM_COLOR="never")
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--target-dir", "target/miri", "--"] + args
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit)
        return p.returncode, p.stdout.decode(errors="replace"), cmd
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode(errors="replace"), cmd


def judge(text, replay):
    global viol
    c, w = kind(text)
    if c is None:
        counters["runs_without_verdict"] = counters.get("runs_without_verdict", 0) + 1
        print(text[-2000:], file=sys.stderr)
        return
    if c == "Panic" or c in MINE.get(lens, ()) or lens == "ALL":
        viol = {"what": f"{'ThreadSanitizer' if native else 'Miri'}, {mode}: {w}", "replay": replay + "\n" + text[-12000:]}
    else:
        other[c] = other.get(c, 0) + 1


if native:
    while time.time() - T0 < secs and not viol and sum(other.values()) < 20:
        s = (seed * 1_000_003 + worker * 7919 + counters.get("batches", 0)) % 2**31
        cmd = [native, mode, "1", str(s), str(min(5, max(1, int(secs - (time.time() - T0)))))]
        env = dict(os.environ, TSAN_OPTIONS="exitcode=66 halt_on_error=1 report_signal_unsafe=0")
        try:
            p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
            text, rc = p.stdout.decode(errors="replace"), p.returncode
        except subprocess.TimeoutExpired as e:
            counters["stopped_by_watchdog"] = counters.get("stopped_by_watchdog", 0) + 1
            text, rc = (e.stdout or b"").decode(errors="replace"), 0
        counters["batches"] = counters.get("batches", 0) + 1
        count(text)
        if rc:
            judge(text, " ".join(cmd))
else:
    per, size, k = 2, 64, 0
    first = (seed * 2_000_003 + worker * 100_003 + sum(map(ord, mode))) % 2_000_000_000
    while not viol and sum(other.values()) < 4:
        left = secs - (time.time() - T0)
        if left <= 0:
            break
        rate = ["0.01", "0.1", "0.03", "0.3"][k % 4]
        flags = f"-Zmiri-preemption-rate={rate}"
        t = time.time()
        rc, text, cmd = miri(f"{flags} -Zmiri-many-seeds={first}..{first + size}", [mode, str(per)], max(60, left * 4))
        count(text)
        k += 1
        counters["interpreter_seeds"] = counters.get("interpreter_seeds", 0) + size
        if rc is None:
            counters["stopped_by_watchdog"] = counters.get("stopped_by_watchdog", 0) + 1
        elif rc:
            m = re.search(r"FAILING SEED: (\d+)", text)
            if m:
                one = f"{flags} -Zmiri-seed={m.group(1)}"
                rc2, t2, _ = miri(one, [mode, str(per)], 120)
                if rc2:
                    judge(t2, f"MIRIFLAGS='-Zmiri-disable-stacked-borrows {one}' {' '.join(cmd)}   (in harness/mt)")
                else:
                    judge(text, f"{flags}, interpreter seed {m.group(1)}: {' '.join(cmd)}   (in harness/mt)")
            else:
                judge(text, " ".join(cmd))
                if k > 2 and not ev:
                    break
        first += size
        d = time.time() - t
        print(f"batch of {size} at rate {rate}: {d:.1f}s", file=sys.stderr)
        left = secs - (time.time() - T0)
        size = max(16, min(2048, int(size * min(left, 12) / max(d, 0.5))))
for c, n in other.items():
    counters[f"deviations_of_other_properties_{c}"] = n
if "hashes" in a:
    array.array("Q", distinct).tofile(open(a["hashes"], "wb"))
print("JSON " + json.dumps({"evaluations": ev, "nontrivial": ev, "distinct": len(distinct), "counters": counters, "samples": samples, "violation": viol}))
sys.exit(1 if viol else 0)

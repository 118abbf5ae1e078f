"""What each check runs: engines, and per property the jobs (mode, seconds in the quick / thorough tier)."""
import re
from pathlib import Path

HOST = "x86_64-unknown-linux-gnu"
# The scheduler of harness/conc derives happens-before from the hooked atomics alone. Code which synchronises
# by other means as well (fences, other atomics) is run sequentially consistently there, and its races are left to Miri.
SRC = {f: f.read_text(errors="replace") for f in Path("/repo/src").rglob("*.rs") if f.name != "verif_hooks.rs"}
HOOKED = """#[cfg(not(verif_hooks))]
use core::sync::atomic::{AtomicBool, AtomicUsize};"""
FENCES = any(re.search(r"\bfence\s*\(|\basm!|\bAtomic[UI](8|16|32|64)\b|\bAtomicPtr\b|\bstd::sync\b", t) or
             (f.name != "buf_ref.rs" and re.search(r"\bsync::atomic::(\{[^}]*)?\bAtomic(?!Waker)", t.replace(HOOKED, ""))) for f, t in SRC.items())


def cargo(crate, *args, toolchain=None, target="target"):
    return ["cargo"] + ([f"+{toolchain}"] if toolchain else []) + ["build", "--release", "--offline", "--quiet", "--target-dir", target, *args]


# Aliasing models are off: handing out windows of the buffer while the iterator is used again is how the crate works.
MIRI = {"MIRIFLAGS": "-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation", "RUSTFLAGS": "-Awarnings"}


def miri(*args):
    # (one at a time: the first one builds the interpreter's standard library)
    return ["flock", "/tmp/mrb-miri.lock", "cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--target-dir", "target/miri", "--", *args]


ENGINES = {
    "seq": dict(crate="seq", build_cmd=cargo("seq", target="target/std"), run_cmd=["target/std/release/seq"], run_args=[]),
    "seq-vmem": dict(crate="seq", build_cmd=cargo("seq", "--features", "vmem", target="target/vmem"), run_cmd=["target/vmem/release/seq"], run_args=[]),
    "seq-noalloc": dict(crate="seq", build_cmd=cargo("seq", "--no-default-features", target="target/noalloc"), run_cmd=["target/noalloc/release/seq"], run_args=[]),
    "seq-asan": dict(crate="seq", build_cmd=cargo("seq", "--target", HOST, toolchain="nightly", target="target/asan"),
                     env={"RUSTFLAGS": "-Zsanitizer=address -Cdebuginfo=1"},
                     run_env={"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0:detect_stack_use_after_return=1"},
                     run_cmd=[f"target/asan/{HOST}/release/seq"], run_args=["--sanitize", "1", "--announce", "1", "--nosig", "1"]),
    "seq-miri": dict(crate="seq", build_cmd=miri("hist", "--cases", "0"), env=MIRI, run_env=MIRI, run_cmd=miri("")[2:][:-1],
                     run_args=["--sanitize", "1", "--announce", "1", "--nosig", "1"], optional=True),
    "conc": dict(crate="conc", build_cmd=cargo("conc", target="target/hooks"), env={"RUSTFLAGS": "--cfg verif_hooks"}, run_cmd=["target/hooks/release/conc"],
                 run_args=["--sc", "1"] if FENCES else [], optional=True),
    "conc-vmem": dict(crate="conc", build_cmd=cargo("conc", "--features", "vmem", target="target/hooks-vmem"), env={"RUSTFLAGS": "--cfg verif_hooks"},
                      run_cmd=["target/hooks-vmem/release/conc"], run_args=["--sc", "1"] if FENCES else [], optional=True),
    "mt-miri": dict(crate="mt", build_cmd=miri("pipe", "0"), env=MIRI, run_cmd=["python3", "run.py"], run_args=[], optional=True),
    "mt-tsan": dict(crate="mt", build_cmd=cargo("mt", "-Zbuild-std", "--target", HOST, toolchain="nightly", target="target/tsan"), env={"RUSTFLAGS": "-Zsanitizer=thread -Awarnings"},
                    run_cmd=["python3", "run.py"], run_args=["--native", f"target/tsan/{HOST}/release/mt"], optional=True),
    "sendprobe": dict(crate="sendprobe", build_cmd=cargo("sendprobe", target="target/std"), run_cmd=["target/std/release/sendprobe"], run_args=[]),
    "sendprobe-vmem": dict(crate="sendprobe", build_cmd=cargo("sendprobe", "--features", "vmem", target="target/vmem"), run_cmd=["target/vmem/release/sendprobe"], run_args=[], optional=True),
}


def J(engine, mode, quick, thorough=None, **opts):
    return dict(engine=engine, mode=mode, quick=quick, thorough=quick * 15 if thorough is None else thorough, opts=opts)


ONE = dict(workers=1)
PLAN = {
    "C01": [J("seq", "hist", 18, 300), J("conc", "pipe", 6, 120), J("seq", "marathon", 3, 120), J("mt-miri", "pipe", 0, 120, **ONE), J("seq-vmem", "hist", 4, 60), J("seq-noalloc", "hist", 3, 60)],
    "C02": [J("conc", "pipe", 16, 600), J("conc", "mix", 12, 600), J("mt-miri", "pipe", 20, 600, **ONE), J("mt-tsan", "pipe", 0, 200), J("conc-vmem", "pipe", 4, 200)],
    "C03": [J("conc", "mix", 14, 600), J("conc", "pipe", 10, 300), J("mt-miri", "pipe", 16, 400, **ONE), J("mt-miri", "flags", 8, 200, **ONE), J("mt-tsan", "pipe", 0, 200), J("mt-tsan", "flags", 0, 100), J("conc-vmem", "pipe", 3, 100), J("conc-vmem", "mix", 3, 100)],
    "C04": [J("seq", "known", 1, 1, workers=1), J("seq", "hist", 15, 300), J("conc", "mix", 8, 200), J("conc", "pipe", 4, 100), J("seq", "marathon", 3, 120), J("seq-vmem", "hist", 3, 60)],
    "C05": [J("seq", "hist", 15, 300), J("conc", "mix", 10, 300), J("conc", "pipe", 3, 100), J("seq", "marathon", 3, 120), J("seq-vmem", "hist", 4, 60), J("seq-noalloc", "hist", 3, 60)],
    "C06": [J("seq", "windows", 14, 300), J("seq", "hist", 8, 200), J("seq-asan", "windows", 0, 120), J("seq-vmem", "windows", 4, 60), J("seq-vmem", "hist", 4, 60)],
    "C07": [J("seq", "drops", 5, 120), J("seq", "hist", 6, 200), J("seq-asan", "hist", 6, 200), J("conc", "drops", 10, 300), J("conc", "mix", 4, 100),
            J("mt-miri", "drops", 18, 400, **ONE), J("mt-miri", "flags", 8, 200, **ONE), J("mt-tsan", "drops", 0, 100), J("seq-noalloc", "drops", 3, 60), J("seq-vmem", "drops", 3, 60), J("conc-vmem", "drops", 3, 60)],
    "C08": [J("seq", "hist", 12, 300), J("seq", "cells", 3, 60), J("seq", "panics", 3, 60), J("seq-asan", "panics", 3, 60), J("seq-asan", "hist", 10, 300), J("conc", "drops", 4, 100), J("conc", "pipe", 4, 100), J("seq-miri", "hist", 12, 400), J("mt-miri", "pipe", 0, 200, **ONE), J("seq-noalloc", "hist", 3, 60), J("seq-vmem", "hist", 4, 60)],
    "C09": [J("seq", "hist", 12, 300), J("seq", "cells", 3, 60), J("seq", "panics", 2, 60), J("seq-asan", "cells", 0, 60), J("seq-miri", "cells", 0, 120), J("seq-asan", "hist", 10, 300), J("conc", "mix", 3, 60), J("seq-miri", "hist", 12, 400), J("seq-noalloc", "hist", 3, 60), J("seq-vmem", "hist", 4, 60)],
    "C10": [J("seq", "hist", 8, 200), J("conc", "mix", 10, 300), J("conc", "pipe", 12, 300), J("conc", "drops", 3, 60), J("seq", "marathon", 3, 60), J("mt-miri", "pipe", 0, 200, **ONE)],
    "C11": [J("seq", "hist", 18, 400), J("conc", "mix", 6, 200), J("seq", "marathon", 3, 60), J("seq-vmem", "hist", 3, 60)],
    "C12": [J("seq", "hist", 18, 400), J("conc", "mix", 8, 200), J("seq", "marathon", 3, 60), J("seq-vmem", "hist", 3, 60), J("seq-noalloc", "hist", 3, 60)],
    "C13": [J("seq", "diff", 18, 400), J("seq-noalloc", "diff", 6, 120), J("seq-vmem", "diff", 4, 60)],
    "C14": [J("seq", "polls", 14, 300), J("seq", "hist", 8, 200), J("conc", "await", 8, 200), J("seq-noalloc", "polls", 3, 60), J("seq-vmem", "polls", 3, 60)],
    "C15": [J("seq", "wake", 14, 300), J("conc", "await", 10, 300), J("conc", "pipe", 3, 100), J("mt-miri", "block", 16, 300, **ONE), J("seq-vmem", "wake", 3, 60), J("conc-vmem", "await", 2, 60)],
    "C16": [J("sendprobe", "probe", 1, 1, workers=4), J("sendprobe-vmem", "probe", 1, 1, workers=1)],
    "C17": [J("seq-vmem", m, q, t) for m, q, t in [("vmem", 2, 2), ("hist", 12, 300), ("windows", 5, 60), ("construct", 4, 60), ("cells", 2, 30), ("panics", 2, 30), ("polls", 4, 60), ("drops", 4, 60), ("diff", 4, 60), ("wake", 4, 60), ("marathon", 3, 60)]] + [J("conc-vmem", "mix", 5, 200), J("conc-vmem", "pipe", 5, 200), J("conc-vmem", "drops", 3, 100), J("conc-vmem", "await", 3, 100)],
    "C18": [J("seq", "zero", 1, 1, workers=1), J("seq", "construct", 8, 120), J("seq", "cells", 2, 30), J("seq", "hist", 12, 300), J("seq-noalloc", "construct", 4, 60), J("seq-noalloc", "hist", 5, 100)],
}
HIST = ("random single-threaded histories (operations on producer, worker, consumer; plain, detached, async-polled; several item types, lengths 1..33, storages, "
        "initial contents, ends of life) judged step by step against a reference model; non-trivial: the history has refused requests, granted requests, delivered values; "
        "distinct: by script and length. ")
CONC = ("`conc`: random 2/3-thread programs (all operations and forms) under a scheduler which switches at every atomic access of the crate (random, PCT and freeze schedules), "
        "and lets loads yield every older value the release/acquire model allows; non-trivial: a thread was preempted within a call and values were delivered (drops: drops overlapped); "
        "distinct: by the sequence of (thread, location, value) of all atomic accesses. ")
MARATHON = ("`marathon`: single-threaded runs of millions of operations (lengths 2..70000, hundreds of thousands of laps where short) judged by counters and position-derived values; "
            "non-trivial: more than 100 laps; distinct: by seed. ")
CELLS = "`cells`: single cells and storages (all types, random scripts of take/clone/store/drop) under the ownership ledger; `panics`: histories in which clones of items panic within operations, under the same ledger; non-trivial: an empty and an occupied cell were handled. "
AWAIT = ("`conc await`: the same scheduler with tasks which await async operations: one which got Pending runs again only after the waker of its latest poll has been woken (some polls come unasked, some "
         "futures are dropped after a few polls); when all tasks sleep or have finished, none may sleep for what is there; a poll which begins when the condition holds (and reads nothing stale) must not yield Pending. ")
MT = "`mt`: 2/3-thread programs over std::thread under Miri (random interpreter seeds and preemption rates; weak memory on); distinct: by program seed, drawn anew for each interpreter seed. "
RULES = {
    "C01": HIST + MARATHON + CONC,
    "C02": CONC + MT, "C03": CONC + MT,
    "C16": "`sendprobe`: every (buffer kind, storage, item kind, iterator form or future) is moved to / shared with another thread where the type system allows it, and used there; distinct: by combination. ",
    "C04": HIST + MARATHON + CONC + "`known` probes the recorded finding.",
    "C05": HIST + MARATHON + CONC,
    "C06": "`windows`: for every index of a ring and every count the windows of every getter are checked slot by slot (address and value), enumerated for lengths 1..9 and random beyond; non-trivial: it has windows across the physical end. " + HIST,
    "C07": "`drops`: every combination of plain/detached/async forms, drop order and 2/3 iterators (enumerated), then random ones after random histories. " + HIST + CONC + MT,
    "C08": HIST + CELLS + CONC, "C09": HIST + CELLS + CONC, "C10": HIST + MARATHON + CONC, "C11": HIST + MARATHON + CONC, "C12": HIST + MARATHON + CONC,
    "C13": "`diff`: one script run on every variant, storage and form; their traces are compared; non-trivial: the script wraps around and has refusals. ",
    "C14": "`polls`: histories in which each operation is a future polled 1..k times, with operations of the others in between, or dropped while pending; non-trivial: a future was pending first and ready later. " + HIST + AWAIT,
    "C15": "`wake`: tasks on an executor that polls only woken tasks; distinct by seed. " + AWAIT + CONC + MT,
    "C17": "all modes of the sequential engine and of the scheduler, built with feature vmem (page-sized lengths). " + HIST + CONC,
    "C18": CELLS + "`construct`: constructors x lengths (1..40 enumerated, random beyond) x storages; `zero`: n = 0; " + HIST,
}
ASSUME = {"*": ["the reference model in harness/seq/src/model.rs states what the documentation promises", "only the executions counted here were judged; nothing is claimed about others"]}
S = "runtime monitoring: random histories of the real crate against an executable reference model"
W = "controlled-scheduler runs of the real crate on hooked atomics with weak-memory loads"
TECH = {
    "C01": S + " (value oracle); " + W,
    "C02": "runtime monitoring: " + W + " and prefix/conservation monitors; Miri many-seeds; ThreadSanitizer",
    "C03": "runtime monitoring: " + W + ", slot-ownership and vector-clock race monitors; Miri data-race detector; ThreadSanitizer",
    "C04": S + " (position and capacity oracle); " + W + " (order monitor at every store)",
    "C05": S + " (grant/refuse oracle); " + W + " (over-report monitor)",
    "C06": "runtime monitoring: address and content monitor on every handed out window, enumerated small rings; AddressSanitizer",
    "C07": "runtime monitoring: enumerated drop orders, allocation and liveness monitors; quarantining allocator under " + W + "; Miri; AddressSanitizer",
    "C08": S + " (per-instance ownership ledger); " + W + "; AddressSanitizer; Miri",
    "C09": S + " (zeroed-slot detectors in the item type); AddressSanitizer; Miri",
    "C10": "runtime monitoring: step counter per call and drain monitor under " + W + " with frozen peers; " + "random sequential histories",
    "C11": S + " (reset oracle); " + W,
    "C12": S + " (detached position oracle); " + W + " (publication monitor)",
    "C13": "runtime monitoring: differential traces of all variants, storages and forms",
    "C14": "runtime monitoring: poll/attempt comparison against the reference model; awaiting tasks under " + W,
    "C15": "runtime monitoring: wake-driven executor and waker monitor with bounded progress; sleeping tasks under " + W + "; parked threads under Miri's deadlock detector",
    "C16": "runtime monitoring: programs which move/share every iterator form wherever the compiler allows it, with thread-affinity monitors",
    "C17": "runtime monitoring: all sequential monitors on the vmem build plus mirror and mapping monitors; " + W,
    "C18": "runtime monitoring: constructor/split session monitors, enumerated sizes",
}
NOTE = {p: "Held on the executions counted in the evidence file (exploration, not proof). Trusts the reference model and the monitors of the harness." for p in PLAN}

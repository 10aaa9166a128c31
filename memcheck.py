#!/usr/bin/env python3
"""C24: runs the monitors' workloads under AddressSanitizer and Miri.

Only reports of the engines count here. What the monitors themselves think of the behaviour is
judged by the checks of the other properties.
"""
import json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(HERE, "target")
EVID = os.path.join(HERE, "evidence")
args = sys.argv[1:]
tier = args[0]
opt = dict(zip(args[1::2], args[2::2]))
seed = opt.get("--seed", os.environ.get("VERIF_SEED", "1"))
only = opt.get("--only")
thorough = tier == "thorough"
start = time.time()

for kind in ("asan", "miri"):
    r = subprocess.run([os.path.join(HERE, "build.sh"), kind])
    if r.returncode:
        sys.exit(2)
# Not memory errors: resource exhaustion is C01's business.
IGNORED = ("stack-overflow", "out-of-memory", "allocation-size-too-big", "calloc-overflow",
           "requested allocation size", "failed to allocate")


def violation(what, rerun, text):
    os.makedirs(EVID, exist_ok=True)
    path = os.path.join(EVID, "replay-C24.json")
    with open(path, "w") as f:
        json.dump({"property": "C24", "seed": int(seed), "tier": tier, "what": what,
                   "rerun": rerun, "report": text[-6000:]}, f, indent=2)
    return what, path


found = None
engines = {}
evals = nontrivial = 0
samples = []

# --- AddressSanitizer
ASAN = os.path.join(TARGET, "asan", "x86_64-unknown-linux-gnu", "release", "uwuhi-monitor")
props = {"C01": 3000, "C02": 3000, "C03": 3000, "C04": 12000, "C05": 300, "C06": 3000, "C07": 2000,
         "C08": 3000, "C09": 500, "C10": 2000, "C11": 1500, "C13": 1500, "C16": 1500, "C17": 1500,
         "C19": 1500, "C20": 3000, "C21": 3000, "C22": 600, "C23": 400, "C24": 20000, "C26": 300, "C28": 3000}
env = dict(os.environ, UWUHI_NO_SOAK="1", ASAN_OPTIONS="exitcode=99:detect_leaks=0:allocator_may_return_null=1")
for p, n in props.items():
    if found or only:
        break
    n *= 6 if thorough else 1
    cmd = [ASAN, "run", p, "--tier", tier, "--seed", seed, "--cases", str(n), "--engine", "asan", "--no-evidence"]
    try:
        r = subprocess.run(cmd, env=env, capture_output=True, text=True, errors="replace", timeout=200)
    except subprocess.TimeoutExpired:
        engines["asan " + p] = "timeout"
        continue
    m = re.search(r"(\d+) evaluations, (\d+) distinct", r.stdout)
    if m:
        evals += int(m[1])
        nontrivial += int(m[2])
        engines["asan " + p] = int(m[1])
    text = r.stdout + r.stderr
    head = re.search(r"ERROR: AddressSanitizer:?.*|unsafe precondition.*", text)
    if head and not any(i in head[0] for i in IGNORED):
        found = violation(f"{head[0]} (workload {p})", " ".join(cmd), text)

# --- Miri
menv = dict(os.environ, MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks",
            XDG_CACHE_HOME=os.path.join(TARGET, "cache"), CARGO_NET_OFFLINE="true")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
    menv.pop(k, None)
cases = 130 if thorough else 22


def miri(k):
    s = str(int(seed) * 1000 + k)
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--no-default-features", "--quiet",
           "--target-dir", os.path.join(TARGET, "miri"), "--", "child", "C24", "--tier", "quick",
           "--seed", s, "--cases", str(cases), "--threads", "1", "--engine", "miri", "--no-evidence"]
    try:
        r = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=menv, capture_output=True,
                           text=True, errors="replace", timeout=650)
        return k, cmd, r.stdout + r.stderr
    except subprocess.TimeoutExpired as e:
        return k, cmd, (e.stdout or b"").decode(errors="replace") + "TIMEOUT"


if not found:
    with ThreadPoolExecutor(8) as ex:
        for k, cmd, text in ex.map(miri, range(8)):
            m = re.search(r"(\d+) evaluations, (\d+) distinct", text)
            if m:
                evals += int(m[1])
                nontrivial += int(m[2])
                engines[f"miri {k}"] = int(m[1])
            else:
                engines[f"miri {k}"] = "no result"
            ub = re.search(r"error: Undefined Behavior.*|unsafe precondition.*", text)
            if ub and not found:
                found = violation(ub[0], "cd harness && " + " ".join(cmd), text)

asan_ok = sum(1 for k, v in engines.items() if k.startswith("asan") and isinstance(v, int))
miri_ok = sum(1 for k, v in engines.items() if k.startswith("miri") and isinstance(v, int))
os.makedirs(EVID, exist_ok=True)
with open(os.path.join(EVID, "C24.json"), "w") as f:
    json.dump({
        "property": "C24", "tier": tier, "seed": int(seed), "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": max(nontrivial, 1 if found else 0),
            "rule": "evaluations of the workloads of C01-C11, C13, C16, C17, C19-C23 (at reduced counts) under AddressSanitizer and of a compact workload over the I/O-less API under Miri; non-trivial as defined for each workload",
            "samples": [f"{k}: {v}" for k, v in list(engines.items())[:6]],
            "engines": engines,
        },
        "assumptions": ["AddressSanitizer and Miri report the memory errors of the executions they watch",
                        "held on the executions counted here, nothing more"],
        "wall_s": round(time.time() - start, 1), "violations": 1 if found else 0,
    }, f, indent=2)
print(f"C24 [{tier} seed {seed}] {evals} evaluations, {nontrivial} distinct non-trivial; "
      f"{asan_ok} AddressSanitizer workloads, {miri_ok} Miri runs; {time.time() - start:.1f} s")
if found:
    print(found[0])
    print(f"VIOLATION property=C24 replay={found[1]}")
    sys.exit(1)
if asan_ok == 0 or miri_ok == 0:
    print("INCONCLUSIVE: nothing observed", engines)
    sys.exit(3)

#!/usr/bin/env python3
"""Second half of the check of C20: the address, leak and thread sanitizers and the interpreter watch
cases of many properties. Adds what they saw to evidence/C20.json."""
import json, os, re, signal, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tier, seed = os.environ.get("VERIF_TIER", "quick"), os.environ.get("VERIF_SEED", "1")
thorough = tier == "thorough"
T = "x86_64-unknown-linux-gnu"
SLOTS = 8
ALL = "C20,C01,C03,C19,C04,C10,C18,C11,C06,C12,C05,C13,C07,C16,C08,C17,C09,C14,C15,C21,C02,C22,C23"
seconds = {"address": 600 if thorough else 40, "thread": 600 if thorough else 30, "miri": 2400 if thorough else 230}
begin = time.time()


def build(cmd, cwd, env):
    r = subprocess.run(cmd, cwd=cwd, env={**os.environ, **env}, capture_output=True, text=True)
    if r.returncode != 0:
        errors = [l for l in r.stderr.splitlines() if l.startswith("error")]
        print("INCONCLUSIVE", " ".join(cmd[:4]), "does not build:", *(errors or r.stderr.splitlines()[-5:])[:5])
        sys.exit(2)


def run(jobs, limit):
    """Starts the jobs, (command, environment, output), all of which end by the limit."""
    started = []
    for cmd, env, out in jobs:
        f = open(out, "w")
        started.append((subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env={**os.environ, **env},
                                         start_new_session=True), out))
    end = time.time() + limit
    done = []
    for p, out in started:
        code = None
        while time.time() < end and code is None:
            code = p.poll()
            time.sleep(0.05)
        if code is None:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        done.append((code, open(out, errors="replace").read()))
    return done


def violated(kind, text, case):
    os.makedirs(f"{V}/replays", exist_ok=True)
    path = f"{V}/replays/C20-{seed}-{kind}.txt"
    open(path, "w").write(f"property: C20\n{kind} reports in {case}\n\n{text[-60000:]}")
    return path


def main():
    scratch = subprocess.run(["mktemp", "-d"], capture_output=True, text=True).stdout.strip()
    seen, bad, unclear = {}, None, []
    cargo = ["cargo", "+nightly"]
    for kind, flags, reports in [
        ("address", [], r"ERROR: (Address|Leak)Sanitizer|AddressSanitizer:DEADLYSIGNAL"),
        ("thread", ["-Zbuild-std"], r"WARNING: ThreadSanitizer|ERROR: ThreadSanitizer"),
    ]:
        if bad:
            break
        target = f"{V}/harness/target/{kind}"
        build(cargo + ["build", *flags, "--release", "--offline", "--target", T, "--target-dir", target],
              f"{V}/harness", {"RUSTFLAGS": f"-Zsanitizer={kind}"})
        exe = f"{target}/{T}/release/verif_harness"
        options = {"ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:symbolize=1:detect_stack_use_after_return=1",
                   "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1"}
        ids = ALL if kind == "address" else "C19,C20,C19,C18"
        jobs = [([exe, "sweep", ids, seed, str(k), str(SLOTS), str(seconds[kind])], options, f"{scratch}/{kind}{k}")
                for k in range(SLOTS)]
        cases = updates = 0
        for code, text in run(jobs, seconds[kind] + 60):
            at = re.findall(r"^AT (.*)$", text, re.M)
            if re.search(reports, text) and "stack-overflow" not in text:
                bad = bad or (kind, text, at[-1] if at else "?")
            m = re.search(r"^SWEPT (\d+) (\d+)$", text, re.M)
            if m and (code == 0 or bad):
                cases, updates = cases + int(m[1]), updates + int(m[2])
            elif code is not None and not bad:
                unclear.append(f"{kind} sanitizer run ended with {code} in {at[-1] if at else '?'}")
        seen[kind] = {"cases": cases, "updates": updates}
    if not bad:
        build(cargo + ["miri", "setup"], f"{V}/miri", {})
        env = {"MIRIFLAGS": "-Zmiri-disable-isolation"}
        cmd = cargo + ["miri", "run", "--manifest-path", f"{V}/miri/Cargo.toml", "--offline", "--", seed]
        build(cmd + ["0", "1", "0"], f"{V}/miri", env)
        # a check has 900 s
        left = seconds["miri"] if thorough else max(60, min(seconds["miri"], 760 - (time.time() - begin)))
        jobs = [(cmd + [str(k), str(SLOTS), "100000"], env, f"{scratch}/miri{k}") for k in range(SLOTS)]
        cases, updates, ids, odd = 0, 0, set(), 0
        for code, text in run(jobs, left):
            at = re.findall(r"^CASE (.*)$", text, re.M)
            for id, n, ok, u, s in re.findall(r"^DONE (C\d\d) (\d+) (\w+) (\d+) ([\d.]+)$", text, re.M):
                cases, updates = cases + 1, updates + int(u)
                ids.add(id)
            if re.search(r"^error: (Undefined Behavior|memory leaked|Data race|abnormal termination)", text, re.M):
                bad = bad or ("miri", text, at[-1] if at else "?")
            elif code is not None:
                unclear.append(f"interpreter ended with {code} in {at[-1] if at else '?'}: {text[-300:]}")
        seen["miri"] = {"cases": cases, "updates": updates, "properties": sorted(ids)}
    subprocess.run(["rm", "-rf", scratch])
    path = f"{V}/evidence/C20.json"
    evidence = json.load(open(path))
    evidence["coverage"]["sanitizers"] = seen
    evidence["wall_s"] += time.time() - begin
    evidence["violations"] = 1 if bad else 0
    json.dump(evidence, open(path, "w"), indent=2)
    if bad:
        kind, text, case = bad
        m = re.search(r"^.*(ERROR: |WARNING: ThreadSan|error: ).*$", text, re.M)
        print(m[0] if m else "report")
        print(f"VIOLATION property=C20 replay={violated(*bad)}")
        return 1
    if unclear or any(not s["cases"] for s in seen.values()):
        print("INCONCLUSIVE", *unclear[:5])
        return 2
    print(f"held: property=C20 sanitizers={seen} wall={time.time() - begin:.0f}s")
    return 0


sys.exit(main())

#!/usr/bin/env python3
"""P20: the workloads of the other monitors, under the sanitizers.

san.py build | run TIER SECONDS_ALREADY_SPENT | replay FILE
"""
import json, os, re, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
TRIPLE = "x86_64-unknown-linux-gnu"
ALL = "P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P19 P20".split()
FAST = "P20 P01 P03 P07 P10 P11 P12 P13 P14 P15 P19".split()
START = time.time()


class Tool:
    def __init__(self, name, flags, extra, env, props, procs, seconds, patterns, ignore):
        self.name, self.extra, self.env = name, extra, env
        self.props, self.procs, self.seconds = props, procs, seconds
        self.patterns, self.ignore, self.flags = patterns, ignore, flags
        self.dir = f"{HERE}/target/{name}"

    def environ(self, k=0):
        e = dict(os.environ)
        e.pop("RUSTUP_TOOLCHAIN", None)
        e.update(CARGO_TARGET_DIR=self.dir, CARGO_PROFILE_DEV_DEBUG="line-tables-only")
        if self.flags:
            e["RUSTFLAGS"] = self.flags
        e.update({n: v.replace("@K", str(k % 100000)) for n, v in self.env.items()})
        return e

    def cargo(self):
        if self.name == "miri":
            return "cargo +nightly miri run --offline --locked --bin vh --".split()
        return f"cargo +nightly build --offline --locked --bin vh --target {TRIPLE}".split() + self.extra

    def command(self, args):
        if self.name == "miri":
            return self.cargo() + ["inproc"] + args
        return [f"{self.dir}/{TRIPLE}/debug/vh", "inproc"] + args

    def start_build(self):
        os.makedirs(self.dir, exist_ok=True)
        self.log = open(f"{self.dir}/build.log", "w")
        cmd = self.cargo() + (["list"] if self.name == "miri" else [])
        return subprocess.Popen(cmd, cwd=f"{HERE}/harness", env=self.environ(), stdin=subprocess.DEVNULL,
                                stdout=self.log, stderr=subprocess.STDOUT, start_new_session=True)

    def report(self, text):
        """The line of the report, if any."""
        for line in text.splitlines():
            if any(p in line for p in self.patterns) and not any(i in line for i in self.ignore):
                return line.strip()
        return None


TOOLS = [
    Tool("asan", "-Zsanitizer=address", [],
         {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:allocator_may_return_null=1"},
         ALL, 8, {"quick": 50, "thorough": 900},
         ["ERROR: AddressSanitizer", "unsafe precondition"],
         ["stack-overflow", "out-of-memory", "allocation-size-too-big", "out of memory"]),
    Tool("tsan", "-Zsanitizer=thread", ["-Zbuild-std"],
         {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0"},
         ["P20", "P20", "P13", "P12"], 4, {"quick": 40, "thorough": 900},
         ["WARNING: ThreadSanitizer", "unsafe precondition"],
         ["thread leak", "signal-unsafe"]),
    Tool("miri", "", [],
         {"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows "
                       "-Zmiri-seed=@K -Zmiri-preemption-rate=0.03",
          "VERIF_SMALL": "1"},
         FAST, 8, {"quick": 90, "thorough": 1800},
         ["error: Undefined Behavior", "unsafe precondition"], []),
]


# Seconds spent on new processes.
COLD = {"procs": 8, "asan": {"quick": 0, "thorough": 0}, "tsan": {"quick": 40, "thorough": 600},
        "miri": {"quick": 40, "thorough": 900}}


def end(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def build(tools, limit):
    """Builds at the same time; returns the tools that are ready."""
    ps = [(t, t.start_build()) for t in tools]
    ready = []
    for t, p in ps:
        try:
            if p.wait(max(1, limit - (time.time() - START))) == 0:
                ready.append(t)
        except subprocess.TimeoutExpired:
            pass
    for _, p in ps:
        end(p)
    return ready


def run_tool(t, tier, seed, work, limit):
    """Returns what was observed, and the violation if any."""
    seconds = min(t.seconds[tier], int(limit - (time.time() - START)))
    if seconds < 10:
        return {"processes": 0, "note": "no time left"}, None
    ps = []
    t0 = time.time()
    for k in range(t.procs):
        # Disjoint ranges of cases.
        args = [str(seed), str(k * 10_000_000), "10000000"] + t.props
        env = t.environ(k)
        env.update(VERIF_SECONDS=str(seconds), VERIF_VERBOSE="1")
        out, err = open(f"{work}/{t.name}{k}.out", "w"), open(f"{work}/{t.name}{k}.err", "w")
        ps.append((k, subprocess.Popen(t.command(args), cwd=f"{HERE}/harness", env=env, stdin=subprocess.DEVNULL,
                                       stdout=out, stderr=err, start_new_session=True)))
    hard = t0 + seconds + (90 if t.name == "miri" else 45)
    seen = {"processes": len(ps), "cases": {}, "evaluations": 0, "ends": {}}
    bad = None
    # A process that ends early may have something to report: wait for any.
    left = dict(ps)
    while left and bad is None and time.time() < hard:
        for k, p in list(left.items()):
            if p.poll() is None:
                continue
            del left[k]
            err = open(f"{work}/{t.name}{k}.err", errors="replace").read()
            what = t.report(err)
            if what:
                bad = (k, what, err)
        time.sleep(0.1)
    for k, p in ps:
        late = p.poll() is None
        end(p)
        err = open(f"{work}/{t.name}{k}.err", errors="replace").read()
        how = "ended in a long case" if late else "completed" if p.returncode == 0 else f"exit status {p.returncode}"
        seen["ends"][how] = seen["ends"].get(how, 0) + 1
        lines = re.findall(r"^case (P\d+) ", err, re.M)
        if late and lines:
            lines.pop()
        for l in lines:
            seen["cases"][l] = seen["cases"].get(l, 0) + 1
        out = open(f"{work}/{t.name}{k}.out").read().strip()
        if out.startswith("{"):
            seen["evaluations"] += json.loads(out)["evaluations"]
        if bad is None and not late and t.report(err):
            bad = (k, t.report(err), err)
    seen["seconds"] = round(time.time() - t0, 1)
    return seen, bad


def run_cold(t, tier, seed, work, limit):
    """New processes, where the first use of the library is by several threads."""
    seconds = min(COLD[t.name][tier], int(limit - (time.time() - START)))
    seen = {"processes": 0, "cold": 0}
    if seconds < 10:
        return seen, None
    t0 = time.time()
    running, bad, nxt = [], None, 0
    while True:
        now = time.time() - t0
        while len(running) < COLD["procs"] and now < seconds and bad is None:
            idx, nxt = nxt, nxt + 1
            err = open(f"{work}/cold{idx % 64}.err", "w+")
            env = t.environ(idx)
            env.update(VERIF_COLD="1", VERIF_VERBOSE="1")
            p = subprocess.Popen(t.command([seed, str(5_000_000_000 + idx), "1", "P20"]), cwd=f"{HERE}/harness", env=env,
                                 stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err, start_new_session=True)
            running.append((idx, p, err, time.time()))
        if not running:
            break
        for r in list(running):
            idx, p, err, since = r
            if p.poll() is None:
                if time.time() - since > 100 or bad:
                    end(p)
                    running.remove(r)
                continue
            running.remove(r)
            seen["cold"] += 1
            seen["processes"] += 1
            err.seek(0)
            text = err.read()
            what = t.report(text)
            if what and bad is None:
                bad = (idx, what, text)
        time.sleep(0.002)
    seen["seconds"] = round(time.time() - t0, 1)
    return seen, bad


def violation(t, seed, k, what, err, cold=False):
    last = ([("P20", 0)] + [(m[0], int(m[1])) for m in re.findall(r"^case (P\d+) \d+ (\d+)", err, re.M)])[-1]
    os.makedirs(f"{HERE}/replays", exist_ok=True)
    path = f"{HERE}/replays/P20-{t.name}-{seed}-{k}.txt"
    with open(path, "w") as f:
        f.write(f"property=P20 tool={t.name} seed={seed} process={k} case={last[0]} index={last[1]} cold={int(cold)}\n")
        f.write(f"replay: bash {HERE}/check.sh replay {path}\n\n")
        f.write("\n".join(l for l in err.splitlines() if not l.startswith(("case ", "warning")))[:60000])
    print(f"{what} (case {last[0]} {seed} {last[1]} under {t.name})")
    print(f"VIOLATION property=P20 replay={path}")


def run(tier, spent):
    seed = os.environ.get("VERIF_SEED", "1")
    if not seed.isdigit():
        seed = "1"
    limit = {"quick": 760 - spent, "thorough": 7200}[tier]
    work = f"{HERE}/work/P20-{os.getpid()}"
    os.makedirs(work, exist_ok=True)
    code = 0
    path = f"{HERE}/evidence/P20.json"
    evidence = json.load(open(path))
    events = evidence["coverage"]["events"]
    try:
        ready = build(TOOLS, limit - 100)
        for t in TOOLS:
            if t not in ready:
                print(f"{t.name}: not built (no verdict from it)")
                events[f"{t.name}: not built"] = 1
                continue
            seen, bad = run_cold(t, tier, seed, work, limit)
            cold = bad is not None
            events[f"{t.name}: new processes"] = seen["cold"]
            if COLD[t.name][tier]:
                print(f"{t.name}: {seen['cold']} new processes, {seen.get('seconds', 0)} s")
            if bad is None:
                seen, bad = run_tool(t, tier, seed, work, limit)
            for p, n in sorted(seen.get("cases", {}).items()):
                events[f"{t.name}: cases of {p}"] = n
            for how, n in seen.get("ends", {}).items():
                events[f"{t.name}: processes: {how}"] = n
            evidence["coverage"]["evaluations"] += sum(seen.get("cases", {}).values())
            print(f"{t.name}: {sum(seen.get('cases', {}).values())} cases, {seen.get('seconds', 0)} s, {seen.get('ends')}")
            if bad:
                violation(t, seed, *bad, cold=cold)
                code = 1
                break
    finally:
        shutil.rmtree(work, ignore_errors=True)
    evidence["wall_s"] = evidence["wall_s"] + time.time() - START
    json.dump(evidence, open(path, "w"), indent=2)
    return code


def replay(file):
    head = open(file).readline()
    get = lambda k: re.search(rf"\b{k}=(\S+)", head)[1]
    t = next(t for t in TOOLS if t.name == get("tool"))
    build([t], 1200)
    cmd = t.command([get("seed"), get("index"), "1", get("case")])
    e = t.environ(int(get("process")))
    e["VERIF_VERBOSE"] = "1"
    if get("cold") == "1":
        e["VERIF_COLD"] = "1"
    r = subprocess.run(cmd, cwd=f"{HERE}/harness", env=e, stdin=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    sys.stderr.write(r.stderr[-20000:])
    return 1 if t.report(r.stderr) else 0


if sys.argv[1] == "build":
    ready = build(TOOLS, 1200)
    print("sanitizers ready: " + " ".join(t.name for t in ready))
elif sys.argv[1] == "run":
    sys.exit(run(sys.argv[2], int(sys.argv[3])))
else:
    sys.exit(replay(sys.argv[2]))

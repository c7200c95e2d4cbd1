#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]   decides one property of /repo's working tree
check.py --replay FILE               replays a recorded counterexample natively

Exit 0: every harness of the property was decided and holds. Exit 1 with a VIOLATION line: a counterexample which
reproduces natively. Exit 2: anything else (does not compile, time or memory ran out, a counterexample which does not
reproduce, a witness which cannot be reached).
"""
import atexit, glob, json, os, re, resource, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
REPO = "/repo"
sys.path.insert(0, VERIF)
from specs import PROPS, DEFAULTS  # noqa: E402

CORES = os.cpu_count() or 4
START = time.time()


def log(*a):
    print("[%6.1fs]" % (time.time() - START), *a, flush=True)


class CheckError(Exception):
    pass


# ---------------------------------------------------------------------------------------------------------- processes

_children = set()


def _limits(gb):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    return f


def run(cmd, env, timeout, gb=14, cwd=HARNESS):
    """Runs a command in its own process group; the whole group ends with it. Returns (rc or None, output)."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", preexec_fn=_limits(gb))
    _children.add(p)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out
    finally:
        _children.discard(p)


def _cleanup():
    for p in list(_children):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass


atexit.register(_cleanup)
signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))


class Build:
    """One build configuration of the harness crate: the guard of the hooks, and the features of lcms2."""

    def __init__(self, root, hooks, features):
        self.hooks, self.features = hooks, features
        self.dir = os.path.join(root, "h%d%s" % (hooks, features))

    def env(self, sub):
        e = dict(os.environ)
        for k in ("CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN", "CARGO_ENCODED_RUSTFLAGS"):
            e.pop(k, None)
        e["CARGO_NET_OFFLINE"] = "true"
        e["CARGO_TERM_COLOR"] = "never"
        e["RUSTFLAGS"] = "-Awarnings" + (" --cfg verif_hooks" if self.hooks else "")
        e["CARGO_TARGET_DIR"] = os.path.join(self.dir, sub)
        e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
        e["RUST_BACKTRACE"] = "0"
        return e

    def feat(self):
        return ["--features", self.features] if self.features else []


# --------------------------------------------------------------------------------------------------------------- Kani

KANI = ["cargo", "kani", "--lib", "-Z", "stubbing", "-Z", "unstable-options", "-Z", "restrict-vtable",
        "--no-assertion-reach-checks"]


def flags(g, unwind=None, cbmc=()):
    """Kani's flags for a group of harnesses; to be put last"""
    f = ["--solver", g.get("solver", "minisat")] + g.get("flags", [])
    if unwind:
        f += ["--unwind", str(unwind)]
    cbmc = list(cbmc) + g.get("cbmc", [])
    return f + (["--cbmc-args"] + cbmc if cbmc else [])


def kani(build, sub, harnesses, flags, timeout, playback=False, jobs=CORES):
    """Decides harnesses. Returns {harness: result}, with result as in Kani's JSON plus `stats`, and the output."""
    js = os.path.join(build.dir, sub + ".json")
    os.makedirs(build.dir, exist_ok=True)
    cmd = KANI + build.feat() + ["--export-json", js, "--harness-timeout", "%ds" % timeout, "--exact"]
    for h in harnesses:
        cmd += ["--harness", h]
    if playback:
        cmd += ["-Z", "concrete-playback", "--concrete-playback", "print"]
    else:
        cmd += ["-j", str(jobs), "--output-format", "terse"]
    cmd += flags
    rounds = -(-len(harnesses) // (1 if playback else jobs))
    rc, out = run(cmd, build.env(sub), timeout * rounds + 120)
    if not os.path.exists(js):
        errs = re.findall(r"^error.*(?:\n.*){0,8}", out, re.M)
        raise CheckError("Kani gave no result:\n" + "\n".join(errs[:5] or [out[-3000:]]))
    d = json.load(open(js))
    stats = {c["harness_id"]: c.get("cbmc_stats") or {} for c in d["cbmc"]}
    ends = {c["harness_id"]: c.get("exit_status") for c in d["error_details"]}
    res = {}
    for r in d["verification_results"]["results"]:
        r["stats"] = stats.get(r["harness_id"], {})
        r["end"] = ends.get(r["harness_id"])
        res[r["harness_id"]] = r
    for h in harnesses:
        if h not in res:
            raise CheckError("Kani did not run " + h)
    return res, out


def trace(build, sub, harness, flags, timeout):
    """The values of the first counterexample CBMC finds. (Kani itself gives none for loops that go on.)"""
    cmd = KANI + build.feat() + ["--harness-timeout", "%ds" % timeout, "--exact", "--harness", harness,
                                 "--output-format", "old", "--no-slice-formula"] + flags
    # else CBMC would stop at the first witness
    rc, out = run(cmd, dict(build.env(sub), VP_NO_WITNESSES="1"), timeout + 120)
    what = re.search(r"^Violated property:\n.*\n  (.*)", out, re.M)
    if not what:
        return None
    values = []
    for m in re.finditer(r"^  goto_symex\$\$return_value\$\$\S*any_raw_(?:array|internal)[^=]*=.*"
                         r"\((\{ [01 ,]* \}|[01 ]+)\)$", out[:what.start()], re.M):
        for e in m.group(1).strip("{} ").split(","):
            bits = e.replace(" ", "")
            values.append([int(bits[k:k + 8], 2) for k in range(0, len(bits), 8)][::-1])
    return what.group(1), values


def playback_tests(out):
    """The concrete values Kani printed: [(harness, kind, description, values)]."""
    tests = []
    for m in re.finditer(r"Concrete playback unit test for `(.*?)`:\n```\n(.*?)\n```", out, re.S):
        what = re.search(r"/// Check for `(.*?)`: \"(.*?)\"\n", m.group(2), re.S)
        vals = re.search(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];", m.group(2), re.S)
        if not vals:
            continue
        values = [[int(x) for x in v.split(",") if x.strip()] for v in
                  re.findall(r"^\s*vec!\[(.*?)\]", vals.group(1), re.M)]
        tests.append((m.group(1), what.group(1) if what else "?", what.group(2) if what else "?", values))
    return tests


def bad_checks(r):
    """(failed, undecided, unreached witnesses) of a result"""
    failed = [c for c in r["checks"] if c["status"].lower() in ("failure", "failed")]
    undecided = [c for c in r["checks"] if c["status"].lower() in ("undetermined", "unknown", "error", "solver_error")]
    unreached = [c for c in r["checks"] if c["category"] == "cover" and c["status"].lower() != "satisfied"]
    return failed, undecided, unreached


# ------------------------------------------------------------------------------------------------------------ LLVM IR

def native_harness(task):
    """The harness that replays a task of ir.py"""
    kind, _, number = task.partition(":")
    if kind == "others":
        return "curves::other_types"
    number = int(number)
    return "curves::%s%d" % ("r" if kind == "roundtrip" else "p" if number > 0 else "m", abs(number))


def symbolic_ir(build, sub, tasks, timeout):
    """Decides tasks of ir.py. Returns {task: result} with results of Kani's shape."""
    env = build.env(sub)
    env["RUSTUP_TOOLCHAIN"] = "stable"
    files = []
    for package in ("lcms2", "harness"):
        cmd = ["cargo", "rustc", "-p", package, "--lib", "--release"] + build.feat() + \
              ["--", "--emit=llvm-ir", "-C", "codegen-units=1", "-C", "no-vectorize-slp", "-C", "no-vectorize-loops",
               "-C", "debuginfo=0", "-C", "overflow-checks=on"]
        rc, out = run(cmd, env, 300)
        found = glob.glob(os.path.join(env["CARGO_TARGET_DIR"], "release", "deps", package + "-*.ll"))
        if rc != 0 or not found:
            raise CheckError("no LLVM IR of %s:\n%s" % (package, out[-3000:]))
        files.append(max(found, key=os.path.getmtime))
    parts = [tasks[k::CORES] for k in range(min(CORES, len(tasks)))]
    outs = [None] * len(parts)

    def part(k):
        outs[k] = run(["python3-vt", os.path.join(VERIF, "ir.py")] + files + parts[k], env, timeout)[1]
    ts = [threading.Thread(target=part, args=(k,)) for k in range(len(parts))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    res = {}
    for out in outs:
        for line in out.splitlines():
            if not line.startswith("{"):
                continue
            d = json.loads(line)
            if "error" in d:
                raise CheckError("%s: %s" % (d["task"], d["error"]))
            status = {"held": "Success", "failed": "Failure", "undecided": "Undetermined"}
            checks = [{"status": status[st], "category": "assertion", "description": what, "model": model,
                       "function": "lcms2", "location": None} for what, st, model in d["checks"]]
            if d["witnesses"]:
                checks.append({"status": "Satisfied", "category": "cover", "description": "paths with a model",
                               "function": "", "location": None})
            res[d["task"]] = {
                "status": "Success" if all(c["status"] in ("Success", "Satisfied") for c in checks) else "Failure",
                "duration_ms": d["wall_s"] * 1000, "checks": checks, "end": None, "witnesses": d["witnesses"],
                "encoded": d["functions"],
                "stats": {"size_program_expression": d["steps"], "vccs_generated": d["paths"],
                          "vccs_remaining": d["queries"], "runtime_solver_s": d["solver_s"],
                          "runtime_symex_s": d["symex_s"]}}
    for t in tasks:
        if t not in res:
            raise CheckError("%s was not decided:\n%s" % (t, "\n".join(o[-500:] for o in outs)))
    return res


# ------------------------------------------------------------------------------------------------------------- replay

class Replayer:
    """Runs harnesses natively on concrete values, in the dev and the release profile."""

    def __init__(self, build):
        self.build, self.bins = build, {}
        self.lock = threading.Lock()

    def binary(self, profile):
        with self.lock:
            if profile not in self.bins:
                cmd = ["cargo", "build", "--bin", "replay"] + self.build.feat()
                if profile == "release":
                    cmd.append("--release")
                env = self.build.env("native")
                env["RUSTUP_TOOLCHAIN"] = "stable"
                rc, out = run(cmd, env, 300)
                if rc != 0:
                    raise CheckError("the native replay does not build:\n" + out[-3000:])
                self.bins[profile] = os.path.join(env["CARGO_TARGET_DIR"],
                                                  "debug" if profile == "dev" else "release", "replay")
            return self.bins[profile]

    def native(self, profile, harness, path, search=False):
        """-> (reproduced, text)"""
        env = self.build.env("native")
        if search:
            env["VP_SEARCH"] = "1"
        rc, out = run([self.binary(profile), harness, path], env, 60 if search else 20)
        if rc is None:
            return True, "does not terminate (20 s)", out
        if rc == 101 or rc < 0:
            m = re.search(r"panicked at (.*?):\n(.*)", out)
            return True, ("panic at %s: %s" % m.groups()) if m else "ended by signal %d" % -rc, out
        return False, {0: "completes", 3: "assumption not met", 4: "values do not fit"}.get(rc, "exit %d" % rc), out

    def miri(self, harness, path):
        env = self.build.env("miri")
        env["MIRIFLAGS"] = "-Zmiri-disable-isolation"
        rc, out = run(["cargo", "+nightly", "miri", "run", "--bin", "replay"] + self.build.feat() +
                      ["--", harness, path], env, 240, gb=24)
        if "Undefined Behavior" in out:
            m = re.search(r"Undefined Behavior: (.*)", out)
            return True, "Miri: undefined behaviour: " + m.group(1), out
        return False, "Miri: nothing (exit %s)" % rc, out


def write_values(path, prop, harness, build, what, values):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write("# property %s, harness %s, hooks %d, features %s\n" % (prop, harness, build.hooks,
                                                                      build.features or "-"))
        f.write("# fails: %s\n# replay: python3 /verif/check.py --replay %s\n" % (what.replace("\n", " "), path))
        for v in values:
            f.write(" ".join("%02x" % b for b in v) + "\n")


# --------------------------------------------------------------------------------------------------------------- main

def first_line(s):
    return s.strip().splitlines()[0] if s.strip() else ""


def decide(prop, tier, root):
    spec = dict(DEFAULTS, **PROPS[prop])
    groups = spec["groups"]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    results, cov = {}, []
    problems, violations = [], []
    validated, samples = 0, []
    builds = {}

    def build_for(g):
        key = (g.get("hooks", spec["hooks"]), g.get("features", ""))
        if key not in builds:
            builds[key] = Build(root, *key)
        return builds[key]

    lock = threading.Lock()
    errors = []

    def work(i, g, hs, timeout):
        try:
            res, out = kani(build_for(g), "kani%d" % i, hs, flags(g), timeout,
                            jobs=max(1, min(len(hs), CORES)))
            for h, r in list(res.items()):
                failed = bad_checks(r)[0]
                if failed and all(c["category"] == "unwind" for c in failed):
                    log(h, "goes beyond its unwinding bound, trying a larger one")
                    r2 = kani(build_for(g), "kani%d" % i, [h], flags(g, g.get("unwind", 140)), timeout)[0][h]
                    if r2["status"] == "Success" or not all(c["category"] == "unwind" for c in bad_checks(r2)[0]):
                        res[h] = dict(r2, unwind=g.get("unwind", 140))
            with lock:
                results.update({h: (r, g) for h, r in res.items()})
        except CheckError as e:
            errors.append(str(e))

    def ir_work(i, g, tasks, timeout):
        nonlocal validated
        try:
            b = build_for(g)
            res = symbolic_ir(b, "ir%d" % i, tasks, timeout)
            with lock:
                results.update({t: (r, g) for t, r in res.items()})
            if any(bad_checks(r)[0] for r in res.values()):
                return
            rep = replayers(b)
            for t, r in res.items():
                for k, values in enumerate(r["witnesses"]):
                    path = os.path.join(b.dir, "wit-%s-%d" % (t.replace(":", ""), k))
                    write_values(path, prop, native_harness(t), b, "witness", values)
                    bad, text, o = rep.native("dev", native_harness(t), path)
                    with lock:
                        if bad or "WITNESS" not in o:
                            problems.append("a witness of %s: natively %s" % (t, text))
                        else:
                            validated += 1
                            if len(samples) < 4:
                                samples.append({"harness": t, "witness": "model of a pair of paths",
                                                "values": [" ".join("%02x" % x for x in v) for v in values]})
        except CheckError as e:
            errors.append(str(e))

    def validate(i, g, h, timeout):
        """Witnesses of the symbolic run must run natively, and do what the harness asserts."""
        nonlocal validated
        try:
            b = build_for(g)
            res, out = kani(b, "val%d" % i, [h], flags(g), timeout, playback=True)
            rep = replayers(b)
            for k, (hh, kind, what, values) in enumerate(playback_tests(out)):
                if kind != "cover":
                    continue
                path = os.path.join(b.dir, "wit-%d-%d" % (i, k))
                write_values(path, prop, h, b, what, values)
                bad, text, o = rep.native("dev", h, path)
                if bad or "WITNESS" not in o:
                    with lock:
                        problems.append("witness '%s' of %s: natively %s" % (what, h, text))
                else:
                    with lock:
                        validated += 1
                        if len(samples) < 4:
                            samples.append({"harness": h, "witness": what,
                                            "values": [" ".join("%02x" % x for x in v) for v in values][:40]})
        except CheckError as e:
            errors.append(str(e))

    reps = {}

    def replayers(b):
        with lock:
            return reps.setdefault(b.dir, Replayer(b))

    threads = []
    for i, g in enumerate(groups):
        if "ir" in g:
            threads.append(threading.Thread(target=ir_work, args=(i, g, g["ir"], 600)))
            continue
        hs = list(g["quick"]) + (list(g.get("thorough", [])) if tier == "thorough" else [])
        hs = [h for h in hs if not (tier == "thorough" and h in g.get("quick_only", []))]
        timeout = g.get("timeout", spec["timeout"]) if tier == "quick" else g.get("timeout_thorough",
                                                                                 spec["timeout_thorough"])
        if hs:
            threads.append(threading.Thread(target=work, args=(i, g, hs, timeout)))
    vals = spec.get("validate", []) if tier == "quick" else [h for g in groups if "ir" not in g for h in
                                                           list(g["quick"]) + list(g.get("thorough", []))]
    if tier == "thorough" and "validate_thorough" in spec:
        vals = spec["validate_thorough"]
    vthreads = []
    for i, h in enumerate(vals):
        g = next(g for g in groups if h in g.get("quick", []) or h in g.get("thorough", []))
        vthreads.append(threading.Thread(target=validate, args=(i, g, h, spec["timeout"])))
    if tier == "quick":
        threads += vthreads
        vthreads = []
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    if not any(bad_checks(r)[0] for r, _ in results.values()):
        for k in range(0, len(vthreads), 4):
            for t in vthreads[k:k + 4]:
                t.start()
            for t in vthreads[k:k + 4]:
                t.join()

    # judge
    failing = []
    for h, (r, g) in sorted(results.items()):
        failed, undecided, unreached = bad_checks(r)
        st = r["stats"]
        log("%-28s %-8s %6.1fs  %d checks, %d failed, %d witnesses, solver %.1fs" % (
            h, r["status"], r["duration_ms"] / 1000, len(r["checks"]), len(failed),
            sum(c["category"] == "cover" for c in r["checks"]), st.get("runtime_solver_s") or 0))
        for c in failed:
            log("    FAILED", c["category"], first_line(c["description"]), "in", c.get("function"))
        if failed:
            failing.append((h, r, g, failed))
        elif r["status"] != "Success":
            problems.append("%s was not decided (%s)" % (h, r["end"]))
        elif undecided:
            problems.append("%s has undecided checks" % h)
        elif unreached:
            problems.append("%s: witness not reachable: %s" % (h, ", ".join(c["description"] for c in unreached)))
        elif not r["checks"]:
            problems.append("%s: no checks" % h)

    # counterexamples
    for h, r, g, failed in failing:
        if violations:
            break
        log("counterexample for", h)
        b = build_for(g)
        try:
            if "ir" in g:
                v = ir_counterexample(prop, h, b, failed, replayers(b))
            else:
                v = counterexample(prop, spec, h, g, b, r.get("unwind"), replayers(b))
        except CheckError as e:
            errors.append(str(e))
            continue
        if v:
            violations.append(v)
        else:
            problems.append("%s: fails, but no counterexample reproduces natively" % h)

    problems += errors
    evidence(prop, spec, tier, seed, results, validated, samples, violations, problems)
    for h, what, path in violations:
        log("%s: %s" % (h, what))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    if violations:
        return 1
    for p in problems:
        log("PROBLEM", p)
    if problems:
        return 2
    log("property %s holds within the bounds" % prop)
    return 0


def ir_counterexample(prop, task, b, failed, rep):
    """The models, or values near them for which the real pow gives a violation, too"""
    h = native_harness(task)
    path = os.path.join(VERIF, "replay", "%s-%s.txt" % (prop, task.replace(":", "")))
    for search in (False, True):
        for c in failed[:20]:
            write_values(path, prop, h, b, c["description"], c["model"])
            for profile in ("dev", "release"):
                bad, text, o = rep.native(profile, h, path, search)
                if not bad:
                    continue
                found = re.search(r"FOUND (.*)", o)
                if found:
                    values = [list(bytes.fromhex(x)) for x in found.group(1).split()]
                    write_values(path, prop, h, b, c["description"], values)
                    bad, text, o = rep.native(profile, h, path)
                    if not bad:
                        continue
                log("    %s: %s" % (profile, text))
                with open(path, "a") as f:
                    f.write("# natively (%s): %s\n" % (profile, text.replace("\n", " ")))
                return task, text, path
    return None


def counterexample(prop, spec, h, g, b, unwind, rep):
    timeout = max(spec["timeout"], 300)
    out_dir = os.path.join(VERIF, "replay")
    path = os.path.join(out_dir, "%s-%s.txt" % (prop, h.replace("::", "-")))

    def native(what, values):
        write_values(path, prop, h, b, what, values)
        for profile in ("dev", "release"):
            bad, text, o = rep.native(profile, h, path)
            log("    %s: %s" % (profile, text), "(%s)" % first_line(what))
            if bad:
                with open(path, "a") as f:
                    f.write("# natively (%s): %s\n" % (profile, text.replace("\n", " ")))
                return h, text, path

    # The first counterexample CBMC finds is the quickest to get
    t = trace(b, "cex", h, flags(g, unwind, ["--stop-on-fail", "--trace"]), timeout)
    if t:
        v = native(*t)
        if v:
            return v
    # One for each check that fails, and for each witness
    res, out = kani(b, "cex", [h], flags(g, unwind), timeout, playback=True)
    tests = playback_tests(out)
    tests.sort(key=lambda t: t[1] == "cover")
    for hh, kind, what, values in tests:
        v = native("%s: %s" % (kind, what), values)
        if v:
            return v
    for hh, kind, what, values in tests[:3]:
        if kind == "cover":
            continue
        write_values(path, prop, h, b, "%s: %s" % (kind, what), values)
        bad, text, o = rep.miri(h, path)
        log("    " + text)
        if bad:
            return h, text, path
    if not tests:
        log("    Kani gave no concrete values")
    return None


def evidence(prop, spec, tier, seed, results, validated, samples, violations, problems):
    tot = {"steps": 0, "vccs": 0, "vccs_left": 0, "solver": 0.0, "symex": 0.0, "checks": 0, "held": 0, "wit": 0}
    functions, per, solvers = set(), [], set()
    for h, (r, g) in sorted(results.items()):
        st = r["stats"]
        tot["steps"] += st.get("size_program_expression") or 0
        tot["vccs"] += st.get("vccs_generated") or 0
        tot["vccs_left"] += st.get("vccs_remaining") or 0
        tot["solver"] += st.get("runtime_solver_s") or 0
        tot["symex"] += st.get("runtime_symex_s") or 0
        checks = [c for c in r["checks"] if c["category"] != "cover"]
        tot["checks"] += len(checks)
        tot["held"] += sum(c["status"].lower() in ("success", "unreachable") for c in checks)
        tot["wit"] += sum(c["category"] == "cover" and c["status"].lower() == "satisfied" for c in r["checks"])
        functions.update(r.get("encoded", []))
        for c in r["checks"]:
            if c.get("location") and "/repo/" in (c["location"].get("file") or "") or "lcms2::" in (c["function"] or ""):
                functions.add(c["function"])
        per.append({"harness": h, "result": r["status"], "wall_s": round(r["duration_ms"] / 1000, 2),
                    "symex_s": st.get("runtime_symex_s"), "solver_s": st.get("runtime_solver_s"),
                    "ssa_steps": st.get("size_program_expression"), "vccs": st.get("vccs_generated"),
                    "vccs_to_solver": st.get("vccs_remaining"), "checks": len(checks)})
    if not samples:
        samples = [{"harness": p["harness"], "decided": p["result"], "checks": p["checks"],
                    "bounds": spec["bounds"]} for p in per[:4]]
    e = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["steps"], "transitions": tot["vccs"],
            "traces_validated_against_impl": validated,
            "counts": "states: steps of the symbolic execution (SSA equation), each standing for all values of the "
                      "symbolic inputs; transitions: verification conditions generated from them; traces validated: "
                      "models of reachability witnesses that were run natively against the real code",
            "samples": samples,
            "functions_encoded": sorted(functions | set(spec["functions"])),
            "bounds": spec["bounds"], "outside": spec["outside"],
            "queries_discharged": tot["held"], "queries": tot["checks"],
            "conditions_sent_to_solver": tot["vccs_left"], "witnesses_reached": tot["wit"],
            "solver_time_s": round(tot["solver"], 3), "symbolic_execution_s": round(tot["symex"], 3),
            "harnesses": per, "problems": problems,
        },
        "assumptions": spec["assumptions"] + [
            "rustc, Kani 0.68 / CBMC 6.11 and the SAT/SMT solver are right",
            "x86_64, little endian, 64 bit; dev profile (overflow checks on)"],
        "wall_s": round(time.time() - START, 1), "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(e, f, indent=1)


def known_findings(prop):
    """Lines of genuine defects that are recorded and not repaired."""
    out = []
    try:
        for line in open(os.path.join(VERIF, "KNOWN_FINDINGS")):
            m = re.match(r"known: property=(\w+) (.*)", line)
            if m and m.group(1) == prop:
                out.append(m.group(2).strip())
    except OSError:
        pass
    return out


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i:i + 2]
    scratch = os.environ.get("VERIF_SCRATCH", "/tmp")
    root = os.path.join(scratch, "vp-check-%d" % os.getpid())
    os.makedirs(root)
    atexit.register(lambda: shutil.rmtree(root, ignore_errors=True))
    if args and args[0] == "--replay":
        path = os.path.abspath(args[1])
        m = re.search(r"harness (\S+), hooks (\d), features (\S+)", open(path).read())
        rep = Replayer(Build(root, bool(int(m.group(2))), "" if m.group(3) == "-" else m.group(3)))
        bad = False
        for profile in ("dev", "release"):
            b, text, o = rep.native(profile, m.group(1), path)
            print(o, "==> %s: %s" % (profile, text))
            bad |= b
        return 1 if bad else 0
    prop = args[0]
    for what in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    try:
        return decide(prop, tier, root)
    except CheckError as e:
        log("PROBLEM", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())

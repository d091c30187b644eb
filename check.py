#!/usr/bin/env python3
"""Driver of the checks.

  check.py <ID> [quick|thorough]     decide one property on /repo's current working tree
  check.py --replay <file>           re-execute a recorded violation
  check.py --all [quick|thorough]    all properties, one after another

Builds the explorers in harness/ together with /repo's sources in a scratch directory, runs them sharded over all
cores, merges their coverage into evidence/<ID>.json.  Exit 0: held on everything explored.  Exit 1 plus a
VIOLATION line: broken (only after the failing case, or else the failing worker, has been re-executed and failed
again).  Exit 2: the check itself could not run.
"""
import concurrent.futures, glob, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

NPROC = min(8, os.cpu_count() or 1)
ENV = dict(os.environ, PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1",
           UBSAN_OPTIONS="halt_on_error=1:exitcode=98:print_stacktrace=0", TSAN_OPTIONS="halt_on_error=1:exitcode=66:report_signal_unsafe=0", LC_ALL="C")

VARIANTS = {
    # fast: optimised, asserts off (as the project's own build); san: asserts, libstdc++ checks, AddressSanitizer
    "fast": ["-O2", "-DNDEBUG"],
    "san": ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-DMC_SAN=1"],
}
# optimised with the library's own assertions on: they must hold in every legal use
VARIANTS["asserts"] = ["-O2", "-UNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-DMC_SAN=1"]
# race detection; skipped (and said so in the evidence) where the ThreadSanitizer runtime cannot start
VARIANTS["tsan"] = ["-O1", "-g", "-fsanitize=thread", "-DMC_TSAN=1"]
# undefined behaviour: every operation of the explored histories must be defined
VARIANTS["ub"] = ["-O2", "-g", "-fsanitize=undefined,float-cast-overflow,float-divide-by-zero", "-fno-sanitize=nonnull-attribute,vptr", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-DMC_SAN=1"]
VARIANTS["ubasan"] = VARIANTS["ub"] + ["-fsanitize=address", "-fno-omit-frame-pointer"]
CONFIGS = {
    "default": ["-std=c++17"],
    "pmr": ["-std=c++20", "-DNIMIDI2_PMR_SYSEX_DATA=1"],
    "custom": ["-std=c++17", "-DNIMIDI2_CUSTOM_SYSEX_DATA_ALLOCATOR=1"],
}


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def build(jobs, scratch):
    """jobs: list of (harness, variant, config[, explored as another property]); returns {job: executable}"""
    all_jobs, jobs = jobs, sorted({tuple(j[:3]) for j in jobs})
    lib_srcs = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    cmds, objs = [], {}
    for h, v, c in jobs:
        flags = ["g++", "-w", "-pthread"] + CONFIGS[c] + VARIANTS[v] + ["-I" + REPO + "/inc", "-I" + VERIF + "/harness"]
        mine = []
        for s in lib_srcs:
            o = f"{scratch}/{v}-{c}-{os.path.relpath(s, REPO).replace('/', '_')}.o"
            mine.append(o)
            if ("lib", o) not in objs:
                objs[("lib", o)] = True
                cmds.append(flags + ["-c", s, "-o", o])
        o = f"{scratch}/{v}-{c}-h-{h}.o"
        cmds.append(flags + ["-c", f"{VERIF}/harness/{h}.cpp", "-o", o])
        objs[(h, v, c)] = (flags, mine + [o], f"{scratch}/{h}-{v}-{c}")
    cmds.sort(key=lambda x: "/harness/" not in x[-3])

    def run(cmd):
        p = subprocess.run(cmd, env=ENV, capture_output=True, text=True)
        if p.returncode:
            raise CheckError("build failed: " + " ".join(cmd) + "\n" + p.stderr[-6000:])
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(run, cmds))
        exes = {}
        links = []
        for j in jobs:
            flags, os_, exe = objs[j]
            exes[j] = exe
            links.append(flags + os_ + ["-o", exe])
        list(ex.map(run, links))
    return {j: exes[tuple(j[:3])] for j in all_jobs}


def read_crumb(path):
    try:
        d = open(path, "rb").read()
        ticks, n = struct.unpack_from("<QQ", d, 0)
        sec = d[16:80].split(b"\0")[0].decode()
        vals = struct.unpack_from(f"<{n}Q", d, 80) if n <= 16384 else ()
        return sec, vals
    except Exception:
        return None, ()


def run_worker(exe, prop, tier, shard, shards, out, limit, skip=()):
    cmd = [exe, "run", prop, tier, str(shard), str(shards), out]
    t = time.time()
    with open(f"{out}/log.{shard}", "wb") as lf:
        p = subprocess.Popen(cmd, stdout=lf, stderr=lf, env=dict(ENV, MC_SKIP=" ".join(skip)), cwd=out, start_new_session=True)
        try:
            rc = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = "timeout"
    return shard, rc, time.time() - t


def as_prop(job, prop):
    return job[3] if len(job) > 3 else prop


def failure_case(out, shard, rc):
    """(section, case-hex, why) of a failed worker"""
    f = f"{out}/fail.{shard}"
    if rc == 1 and os.path.exists(f):
        d = dict(l.rstrip("\n").split("=", 1) for l in open(f, errors="replace") if "=" in l)
        return d.get("section", "?"), d.get("case", ""), d.get("why", "")
    sec, vals = read_crumb(f"{out}/crumb.{shard}")
    tail = open(f"{out}/log.{shard}", "rb").read()[-3000:].decode(errors="replace")
    kind = "hang" if rc in (3, "timeout") else f"abnormal end (exit {rc})"
    return sec or "?", " ".join(f"{v:x}" for v in vals), kind + ": " + tail.replace("\n", " | ")[:1500]


def replay_case(exe, prop, file, out, limit=120):
    """True if the recorded case fails again"""
    try:
        p = subprocess.run([exe, "replay", prop, file, out], env=ENV, cwd=out, timeout=limit,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return p.returncode not in (0, 2), p.returncode, p.stdout.decode(errors="replace")[-1500:]
    except subprocess.TimeoutExpired:
        return True, "timeout", "hang"


def known_findings(prop):
    """entries '<property> <section> <case-hex...>' of known_findings.txt that are recorded, not repaired"""
    res = []
    f = f"{VERIF}/known_findings.txt"
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("known: "):
                m = re.match(r"known: property=(\S+) section=(\S+) case=\[([^\]]*)\] (.*)", l)
                if m and m.group(1) == prop:
                    res.append((m.group(2), m.group(3), m.group(4)))
    return res


def check(prop, tier):
    spec = CHECKS[prop]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    ev_path = f"{VERIF}/evidence/{prop}.json"
    if os.path.exists(ev_path):
        os.remove(ev_path)
    scratch = tempfile.mkdtemp(prefix=f"nimidi2-{prop}-")
    try:
        jobs = [tuple(j) for j in spec["jobs"]]
        exes = build(jobs, scratch)
        build_s = time.time() - t0
        skipped = [j for j in jobs if j[1] == "tsan" and subprocess.run([exes[j], "probe"], env=ENV, capture_output=True).returncode != 0]
        jobs = [j for j in jobs if j not in skipped]
        limit = 840 - build_s if tier == "quick" else 6 * 3600
        results = {}
        plan = []
        for j in jobs:
            out = f"{scratch}/out-" + "-".join(j)
            os.makedirs(out)
            # repetitions in other configurations run lighter bounds; sanitizer builds treat quick as light (see mc.h)
            jt = tier if len(j) == 3 and j[1] != "asserts" and (j[1] == "fast" or spec.get("san_thorough", True)) else "quick" if tier == "thorough" else "light"
            shards = spec.get("shards", NPROC)
            for s in range(shards):
                plan.append((j, out, s, shards, jt))
        failed = []
        skip = spec.get("quick_skips", ()) if tier == "quick" else ()
        with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
            futs = {ex.submit(run_worker, exes[j], as_prop(j, prop), jt, s, n, out, limit, skip): (j, out, s, n, jt) for j, out, s, n, jt in plan}
            for f in concurrent.futures.as_completed(futs):
                j, out, s, n, jt = futs[f]
                _, rc, dt = f.result()
                results[(j, s)] = (rc, dt)
                if rc == 2:
                    raise CheckError("explorer error: " + open(f"{out}/log.{s}", errors="replace").read()[-2000:])
                if rc != 0:
                    failed.append((j, out, s, n, jt, rc))
        if os.environ.get("MC_TIMES"):
            for j in jobs:
                log("time", "/".join(j), round(sum(t for (k, _), (_, t) in results.items() if k == j), 1))
        violations, kf, alike, unstable = [], [], 0, []
        failed.sort(key=lambda x: (jobs.index(x[0]), x[2]))
        for (j, out, s, n, jt, rc) in failed:
            sec, case, why = failure_case(out, s, rc)
            os.makedirs(f"{VERIF}/replay", exist_ok=True)
            rp = f"{VERIF}/replay/{prop}-{'-'.join(j[1:])}-{s}.txt"
            body = (f"property={prop}\njob={','.join(j)}\nshard={s}\nshards={n}\ntier={jt}\nsection={sec}\ncase={case}\nwhy={why}\n"
                    f"replay with: {VERIF}/check.py --replay {rp}\n")
            with open(rp, "w") as f:
                f.write(body)
            again, rrc, text = replay_case(exes[j], as_prop(j, prop), rp, out)
            how = "case replayed"
            if not again:
                # the failure may depend on what ran before it: re-run the whole deterministic worker
                for f in glob.glob(f"{out}/fail.{s}"):
                    os.remove(f)
                _, rc2, _ = run_worker(exes[j], as_prop(j, prop), jt, s, n, out, limit, skip)
                if rc2 == 0:
                    unstable.append(f"failure of {sec} [{case}] did not reproduce ({why})")
                    continue
                how = "whole worker re-run"
            if j[1].startswith("ub") and rc == 1:
                log(f"note: {j[3]} fails, without undefined behaviour: not a violation of {prop} ({why})")
                alike += 1
                continue
            if len(j) > 3 and not j[1].startswith("ub"):
                # another property's exploration in another configuration: only a difference between configurations counts
                dj = (j[0], j[1], "default")
                if dj not in exes:
                    exes.update(build([dj], scratch))
                dout = f"{scratch}/out-diff-{j[0]}"
                os.makedirs(dout, exist_ok=True)
                same = replay_case(exes[dj], j[3], rp, dout)[0] if again else run_worker(exes[dj], j[3], jt, s, n, dout, limit)[1] != 0
                if same:
                    log(f"note: {j[3]} fails in configuration {j[2]} and in the default configuration alike: not a violation of {prop} ({why})")
                    alike += 1
                    continue
            known = [k for k in known_findings(prop) if k[0] == sec and k[1] == case]
            if known:
                kf.append(known[0][2])
                continue
            violations.append((rp, sec, case, why, how))
            break
        if unstable and not violations:
            raise CheckError("; ".join(unstable))
        # ---- coverage
        cov = {}
        tot = {"evaluations": 0, "nontrivial": 0, "transitions": 0, "traces": 0}
        samples, outcomes, states = [], 0, 0
        for j in jobs:
            out = f"{scratch}/out-" + "-".join(j)
            secs = {}
            for f in sorted(glob.glob(out + "/cov.*.json")):
                for name, d in json.load(open(f)).items():
                    e = secs.setdefault(name, {"evaluations": 0, "nontrivial": 0, "transitions": 0, "traces": 0, "out": set(), "bound": d["bound"], "samples": []})
                    for k in ("evaluations", "nontrivial", "transitions", "traces"):
                        e[k] += d[k]
                    e["out"].update(d["outcomes"])
                    e["samples"] += d["samples"][:1]
            for name, e in secs.items():
                st = set()
                for f in glob.glob(f"{out}/states.{name}.*"):
                    b = open(f, "rb").read()
                    st.update(struct.unpack(f"<{len(b)//8}Q", b))
                for k in tot:
                    tot[k] += e[k]
                states += len(st)
                outcomes += len(e["out"])
                samples += [f"{name}: {x}" for x in e["samples"][:2]]
                cov[f"{'/'.join(j)}/{name}"] = {"cases": e["evaluations"], "nontrivial": e["nontrivial"], "model_states": len(st),
                                                "steps": e["transitions"], "distinct_outcomes": len(e["out"]), "bound": e["bound"]}
        level = spec["level"]
        coverage = {"samples": samples[:12], "per_section": cov, "distinct_outcomes": outcomes, "exhaustive": not failed}
        if level == "model_checking":
            coverage.update(states=states, transitions=tot["transitions"], traces_validated_against_impl=tot["traces"])
        else:
            coverage.update(evaluations=tot["evaluations"], distinct_nontrivial=tot["nontrivial"], rule=spec["rule"])
            if tot["transitions"]:
                coverage["steps"] = tot["transitions"]
        ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
              "assumptions": spec.get("assumptions", []) + [f"{'/'.join(j)} skipped: ThreadSanitizer does not start here" for j in skipped], "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
        with open(ev_path, "w") as f:
            json.dump(ev, f, indent=1)
        for k in kf:
            log(f"KNOWN-FINDING: property={prop} {k}")
        if violations:
            rp, sec, case, why, how = violations[0]
            log(f"property {prop} violated in section {sec} ({how}): {why}")
            log(f"VIOLATION property={prop} replay={rp}")
            return 1
        log(f"OK property={prop} tier={tier} cases={tot['evaluations']} states={states} steps={tot['transitions']} outcomes={outcomes} "
            f"build={build_s:.1f}s total={time.time()-t0:.1f}s")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(file):
    file = os.path.abspath(file)
    d = dict(l.rstrip("\n").split("=", 1) for l in open(file) if "=" in l)
    scratch = tempfile.mkdtemp(prefix="nimidi2-replay-")
    try:
        j = tuple(d["job"].split(","))
        exe = build([j], scratch)[j]
        pr = as_prop(j, d["property"])
        again, rc, text = replay_case(exe, pr, file, scratch)
        print(text)
        if not again:
            print("single case passes; re-running the whole worker")
            _, rc, _ = run_worker(exe, pr, d["tier"], int(d["shard"]), int(d["shards"]), scratch, 3600)
            print(open(f"{scratch}/log.{d['shard']}", errors="replace").read()[-3000:])
            again = rc != 0
        print("FAILS" if again else "passes")
        return 1 if again else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == "--replay":
            return replay(a[1])
        if a and a[0] == "--setup":
            # nothing to install: every check compiles what it needs; make sure the toolchain works
            for t in (["g++", "--version"], ["python3", "--version"]):
                subprocess.run(t, env=ENV, check=True, stdout=subprocess.DEVNULL)
            os.makedirs(f"{VERIF}/evidence", exist_ok=True)
            return 0
        if a and a[0] == "--all":
            bad = 0
            for p in CHECKS:
                r = check(p, a[1] if len(a) > 1 else "quick")
                bad = max(bad, r)
            return bad
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        return check(a[0], tier)
    except CheckError as e:
        log("CHECK-ERROR:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())

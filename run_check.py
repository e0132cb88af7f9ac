#!/usr/bin/env python3
"""Run the check of one property: build its harness from /repo's working tree, drive it with
generated inputs, write evidence/<id>.json.

  run_check.py <property> [quick|thorough]   the registered commands
  run_check.py --setup                       self-test of the engine
  run_check.py --replay <replay file>        run one saved failing input again
"""
import json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
REPLAYS = os.path.join(HERE, "replays")
EVID = os.path.join(HERE, "evidence")
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

BASE = ["-std=c++14", "-g", "-include", "cstdint", "-I" + REPO + "/include",
        "-I" + HERE + "/harness", "-w"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
ENV = dict(os.environ,
           ASAN_OPTIONS="abort_on_error=0:detect_leaks=0:allocator_may_return_null=0:exitcode=99:strict_string_checks=1",
           UBSAN_OPTIONS="print_stacktrace=0:exitcode=98:halt_on_error=1",
           OMP_WAIT_POLICY="passive", LC_ALL="C")


def log(*a):
    print(*a, flush=True)


def without_failing_relations(path, name, errors):
    """the harness without the relations the compiler's messages point into, and their names"""
    lines = open(path).read().split("\n")
    at = {int(n) for n in re.findall(r"(?:^|[/\s])%s:(\d+)[:,]" % re.escape(os.path.basename(path)), errors, re.M)}
    blocks, i = [], 0
    while i < len(lines):
        m = re.match(r'RELATION\("([^"]*)"', lines[i])
        if m:
            j = i
            if not lines[i].rstrip().endswith("}"):
                while j + 1 < len(lines) and lines[j] != "}":
                    j += 1
            blocks.append((m.group(1), i, j))
            i = j
        i += 1
    gone = [b for b in blocks if any(b[1] < n <= b[2] + 1 for n in at)]
    if len(gone) == len(blocks):
        return None, []
    for _, a, b in gone:
        lines[a:b + 1] = [""] * (b + 1 - a)
    return "\n".join(lines), [b[0] for b in gone]


def build(pid, var):
    """compile one variant of a harness; returns the path of the binary"""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "%s-%s" % (pid, var["name"]))
    inc = []
    if var.get("shim"):
        inc.append("-I" + HERE + "/shim")
    inc += ["-isystem", "/usr/include/eigen3"]
    for i in var.get("include", []):
        inc.append("-I" + i.replace("@REPO@", REPO).replace("@BUILD@", BUILD).replace("@HERE@", HERE))
    flags = [f.replace("@BUILD@", BUILD).replace("@REPO@", REPO) for f in var.get("flags", ["-O1"])]
    if var.get("sanitize", True):
        flags += SAN
    if var.get("openmp", True):
        flags.append("-fopenmp")
    cxx = var.get("cxx", "g++")
    cmd = [cxx] + BASE + inc + flags + [os.path.join(HERE, "harness", var["src"]), "-o", out] + var.get("libs", [])
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    src, left_out = os.path.join(HERE, "harness", var["src"]), []
    while r.returncode != 0 and len(left_out) < 40:
        # a rewritten library may no longer accept every type or container the relations use
        narrowed, gone = without_failing_relations(src, var["src"], r.stdout)
        if not gone:
            break
        left_out += gone
        src = os.path.join(BUILD, "%s-%s-narrowed.cpp" % (pid, var["name"]))
        with open(src, "w") as f:
            f.write(narrowed)
        cmd[cmd.index("-o") - 1] = src
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if left_out and r.returncode == 0:
        log("note: %s: these relations do not compile against %s and are left out: %s" % (var["src"], REPO, ", ".join(left_out)))
    if r.returncode != 0:
        log("the harness %s does not compile against %s:" % (var["src"], REPO))
        log(r.stdout[-6000:])
        raise SystemExit(2)
    return out


def fuzz(pid, var, stats, seed, deadline):
    """thorough tier: coverage-guided search over the choice sequences of each relation"""
    fvar = dict(var, name=var["name"] + "-fuzz", cxx="clang++", openmp=False,
                flags=["-O1", "-fsanitize=fuzzer", "-DPBT_FUZZ"] + [f for f in var.get("flags", []) if not f.startswith("-O")])
    binary = build(pid, fvar)
    names = [r["name"] for r in stats["relations"]]
    per = max(5, int((deadline - time.time()) / max(1, (len(names) + 7) // 8)))
    done = []
    work = os.path.join(BUILD, "fuzz-" + pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    queue, running = list(names), []
    bad = None
    while queue or running:
        while queue and len(running) < 8 and not bad:
            n = queue.pop(0)
            d = os.path.join(work, re.sub(r"\W", "_", n))
            os.makedirs(d)
            rp = os.path.join(d, "replay")
            env = dict(ENV, PBT_RELATION=n, PBT_REPLAY_OUT=rp)
            os.makedirs(d + "/corpus")
            p = subprocess.Popen([binary, "-seed=%d" % (seed or 1), "-max_total_time=%d" % per, "-timeout=60", "-rss_limit_mb=3000",
                                  "-max_len=2048", "-len_control=20", "-artifact_prefix=" + d + "/", d + "/corpus"],
                                 env=env, stdout=subprocess.DEVNULL, stderr=open(d + "/log", "w"))
            running.append((n, d, rp, p))
        for x in list(running):
            if x[3].poll() is not None:
                running.remove(x)
                n, d, rp, p = x
                text = open(d + "/log", errors="replace").read()
                m = re.findall(r"^#(\d+)\s", text, re.M)
                execs = int(m[-1]) if m else 0
                done.append({"relation": n, "executions": execs, "corpus": len(os.listdir(d + "/corpus")), "exit": p.returncode})
                if p.returncode != 0:
                    bad = bad or (n, d, rp, text)
        if bad:
            queue = []
            for x in running:
                x[3].kill()
        time.sleep(0.2)
    if bad:
        n, d, rp, text = bad
        if not os.path.exists(rp):  # a crash: turn the artifact into a choice file
            arts = [f for f in os.listdir(d) if f.startswith(("crash-", "timeout-", "oom-"))]
            if not arts or arts[0].startswith(("timeout-", "oom-")):
                log("note: the fuzzer stopped on a resource limit in %s" % n)
                shutil.rmtree(work, ignore_errors=True)
                return done, None
            data = open(os.path.join(d, arts[0]), "rb").read()
            ch, i = [], 0
            while i < len(data) and len(ch) < 4096:
                ln = 1 << (data[i] & 3)
                i += 1
                ch.append(int.from_bytes(data[i:i + ln], "little"))
                i += ln
            open(rp, "w").write("property %s\nrelation %s\nchoices %s\nmessage crash found by the fuzzer\n" % (pid, n, " ".join(map(str, ch))))
        out = os.path.join(REPLAYS, "%s-%s-fuzz.replay" % (pid, var["name"]))
        shutil.copy(rp, out)
        shutil.rmtree(work, ignore_errors=True)
        return done, out
    shutil.rmtree(work, ignore_errors=True)
    return done, None


def replay_fails(binary, path, times=20):
    """whether the saved case fails within a number of runs (races may need several)"""
    bad = 0
    last = ""
    for _ in range(times):
        r = subprocess.run([binary, "--replay", path, "--case-cpu", "30"], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        last = r.stdout
        if r.returncode not in (0, 1):
            log("the replay of %s ended with status %d:\n%s" % (path, r.returncode, last[-2000:]))
            raise SystemExit(2)
        if r.returncode == 1:
            bad = 1
            break
    return bad, last


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


def main():
    if sys.argv[1] == "--setup":
        from checks import SELFTEST
        b = build("selftest", SELFTEST)
        r = subprocess.run([b, "--cases", "2000"], env=ENV)
        sys.exit(0 if r.returncode == 0 else 1)
    if sys.argv[1] == "--replay":
        txt = open(sys.argv[2]).read()
        pid = re.search(r"^property (\S+)", txt, re.M).group(1)
        vn = re.search(r"^variant (\S+)", txt, re.M)
        var = [v for v in CHECKS[pid]["variants"] if not vn or v["name"] == vn.group(1)][0]
        b = build(pid, var)
        bad, out = replay_fails(b, sys.argv[2], 1)
        log(out)
        sys.exit(1 if bad else 0)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = CHECKS[pid]
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    if spec.get("prepare"):
        spec["prepare"](REPO, BUILD)
    rels, viol, inconclusive, fuzzed = [], None, [], []
    for var in spec["variants"]:
        if viol:
            break
        binary = build(pid, var)
        cases = int(var["cases"] * (1 if tier == "quick" else var.get("thorough_factor", 20)))
        cap = var.get("time_cap", 60) if tier == "quick" else var.get("thorough_cap", 360)
        stats = os.path.join(BUILD, "%s-%s.stats.json" % (pid, var["name"]))
        rp = os.path.join(REPLAYS, "%s-%s.replay" % (pid, var["name"]))
        for f in (stats, rp):
            if os.path.exists(f):
                os.remove(f)
        r = subprocess.run([binary, "--property", pid, "--seed", str(seed), "--cases", str(cases), "--workers",
                            str(var.get("workers", 6)), "--time-cap", str(cap), "--shrink-cap", "40", "--case-cpu", str(var.get("case_cpu", 30)),
                            "--stats", stats, "--replay-out", rp], env=ENV, stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, text=True, errors="replace")
        log(r.stdout[-4000:].rstrip())
        if r.returncode == 3:
            inconclusive.append(var["name"])
        elif r.returncode not in (0, 1):
            log("harness %s ended with status %d" % (var["name"], r.returncode))
            raise SystemExit(2)
        st = json.load(open(stats))
        for x in st["relations"]:
            x["variant"] = var["name"]
        rels += st["relations"]
        if r.returncode == 1:
            with open(rp, "a") as f:
                f.write("variant %s\n" % var["name"])
            bad, out = replay_fails(binary, rp)
            if bad:
                log(out[-3000:])
                viol = rp
            else:
                inconclusive.append(var["name"])
                log("note: the failing case did not fail in 20 replays")
        elif tier == "thorough" and var.get("fuzz", True) and var.get("fuzz_seconds", 150):
            d, frp = fuzz(pid, var, st, seed, time.time() + var.get("fuzz_seconds", 150))
            fuzzed += d
            if frp:
                with open(frp, "a") as f:
                    f.write("variant %s\n" % var["name"])
                bad, out = replay_fails(binary, frp)
                if bad:
                    log(out[-3000:])
                    viol = frp
                else:
                    log("note: a fuzzer artifact did not fail in the engine")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["cases"] for r in rels),
            "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in rels),
            "discarded": sum(r["discarded"] for r in rels),
            "rule": "; ".join("%s: %s" % (r["name"], r["rule"]) for r in rels),
            "samples": [s for r in rels for s in ["%s: %s" % (r["name"], x) for x in r["samples"][:2]]][:40] or ["(no case finished)"],
            "relations": rels,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if viol else 0,
    }
    for r in rels:
        r.pop("samples", None)
    if fuzzed:
        ev["coverage"]["fuzzing"] = fuzzed
    if inconclusive:
        ev["coverage"]["inconclusive_variants"] = inconclusive
    for r in rels:
        if not viol and r["cases"] == 0 and r["discarded"] > 0:
            log("no case of %s/%s could be evaluated" % (r["variant"], r["name"]))
            raise SystemExit(2)
    tmp = os.path.join(EVID, pid + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(EVID, pid + ".json"))
    for k in known_findings(pid):
        log("KNOWN-FINDING: property=%s %s" % (pid, k))
    log("%s %s: %d cases, %d distinct non-trivial, %.1f s" % (pid, tier, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
    if viol:
        log("VIOLATION property=%s replay=%s" % (pid, viol))
        sys.exit(1)
    sys.exit(0)


main()

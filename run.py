#!/usr/bin/env python3
"""Decides one property of nestl by generated-input search against the code in /repo.

usage: run.py ID [quick|thorough]        check one property (exit 0: held, exit 1: VIOLATION line)
       run.py ID --replay FILE           rebuild and replay a failure file
"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
PBT = os.path.join(HERE, "pbt")
PROPS = os.path.join(HERE, "props")
CORES = int(os.environ.get("VF_CORES", "8"))

from config import CONFIG                      # cases per tier, rule texts, levels

GCC = "g++-13" if shutil.which("g++-13") else "g++"
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,object-size,vptr", "-fno-sanitize-recover=all"]
BASE = ["-std=gnu++11", "-g1", "-Wno-deprecated-declarations", "-I" + REPO, "-I" + PBT]

# kinds of build: name -> (compiler, flags)
BUILDS = {
    "san": (GCC, ["-O1", "-fno-lifetime-dse"] + SAN),
    "rel": (GCC, ["-O2", "-DNDEBUG", "-fno-lifetime-dse"]),
    "clang": ("clang++", ["-O1"] + SAN),
    "tsan": (GCC, ["-O1", "-fsanitize=thread", "-pthread"]),
    "ctsan": ("clang++", ["-O1", "-fsanitize=thread", "-pthread"]),
    "fuzz": ("clang++", ["-O1", "-DVF_LIBFUZZER", "-fsanitize=fuzzer,address,undefined", "-fno-sanitize=alignment,object-size,vptr", "-fno-sanitize-recover=all"]),
}
MODES = {"exc": [], "nx": ["-fno-exceptions"]}


def parts_of(pid):
    m = re.match(r"// PARTS (\d+)", open(os.path.join(PROPS, pid + ".cpp")).readline())
    return int(m.group(1)) if m else 1


class CompileError(Exception):
    pass


def units(pid, mode, build, work):
    """(command, object, is_harness) for each translation unit of one binary"""
    cxx, flags = BUILDS[build]
    tag = "%s-%s" % (build, mode)
    out = []
    eng = os.path.join(work, tag + "-engine.o")
    fl = [f for f in flags]
    out.append(([cxx] + BASE + fl + ['-DVF_PROPERTY="%s"' % pid, '-DVF_MODE="%s"' % tag, "-c", os.path.join(PBT, "engine.cpp"), "-o", eng], eng, False))
    src = os.path.join(PROPS, pid + ".cpp")
    for p in range(parts_of(pid)):
        variants = [("", MODES[mode] if mode in MODES else [])]
        if mode == "both":     # the two library modes side by side in one binary
            variants = [("e", ["-Dnestl=nestl_exc", "-DVM=vm_exc"]), ("n", ["-Dnestl=nestl_nx", "-DVM=vm_nx", "-fno-exceptions"])]
            if p == 0:
                variants = [("", ["-DVF_NEUTRAL"])]
        for v, extra in variants:
            obj = os.path.join(work, "%s-%d%s.o" % (tag, p, v))
            out.append(([cxx] + BASE + fl + extra + ["-DPART=%d" % p, "-c", src, "-o", obj], obj, True))
    return out


def link(mode, build, objs, exe):
    cxx, flags = BUILDS[build]
    return [cxx] + [f for f in flags if f.startswith("-fsanitize") or f.startswith("-O") or f == "-pthread"] + objs + ["-o", exe]


def run_cmd(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, errors="replace")
    return p.returncode, p.stdout


def build_all(pid, wanted, work):
    """wanted: list of (mode, build); returns {(mode, build): exe}"""
    jobs = []
    with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
        for mode, build in wanted:
            for cmd, obj, harness in units(pid, mode, build, work):
                jobs.append((mode, build, obj, harness, cmd, ex.submit(run_cmd, cmd)))
        objs, bad = {}, None
        for mode, build, obj, harness, cmd, fut in jobs:
            rc, text = fut.result()
            if rc:
                if not harness:
                    sys.stderr.write(text)
                    sys.exit(2)
                if re.search(r"internal compiler error|Killed|No space left|cannot execute", text) and not re.search(r"\berror: (?!.*(Killed|cannot execute))", text):
                    rc, text = run_cmd(cmd)      # the compiler was ended from outside: try once more on its own
                    if not rc:
                        objs.setdefault((mode, build), []).append(obj)
                        continue
                bad = bad or (mode, build, " ".join(cmd), text)
                continue
            objs.setdefault((mode, build), []).append(obj)
        if bad:
            raise CompileError("%s-%s\n%s\n%s" % (bad[1], bad[0], bad[2], bad[3]))
        exes, futs = {}, []
        for k in wanted:
            exe = os.path.join(work, "h-%s-%s" % k)
            exes[k] = exe
            futs.append((k, ex.submit(run_cmd, link(k[0], k[1], objs[k], exe))))
        for k, f in futs:
            rc, text = f.result()
            if rc:
                raise CompileError("link %s-%s\n%s" % (k[1], k[0], text))
    for k in objs:
        for o in objs[k]:
            os.unlink(o)
    return exes


def fixed_addresses():
    """ThreadSanitizer does not cope with widely randomised addresses; switch that off where it is allowed"""
    sa = shutil.which("setarch")
    if sa and subprocess.run([sa, "-R", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
        return [sa, "-R"]
    return []


def save_replay(pid, path, name):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    dst = os.path.join(d, name)
    shutil.copyfile(path, dst)
    return dst


def fuzz_stage(pid, exe, run_exe, mode, seed, secs, work):
    """coverage-guided search over the same choice sequences; returns (execs, failure message or None, replay)"""
    corp = os.path.join(work, "corpus-" + mode)
    art = os.path.join(work, "art-" + mode) + "/"
    os.makedirs(corp, exist_ok=True)
    os.makedirs(art, exist_ok=True)
    cmd = [exe, "-seed=%d" % (seed % 1000000 + 1), "-max_total_time=%d" % secs, "-fork=%d" % (CORES - 1), "-max_len=1500", "-rss_limit_mb=2500",
           "-timeout=25", "-artifact_prefix=" + art, "-print_final_stats=1", "-use_value_profile=0", corp]
    p = subprocess.run(cmd, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, errors="replace")
    execs = 0
    for m in re.finditer(r"^#(\d+):", p.stdout, re.M):
        execs = max(execs, int(m.group(1)))
    cov = re.findall(r"cov: (\d+)", p.stdout)
    for a in sorted(os.listdir(art)):
        if not (a.startswith("crash-") or a.startswith("timeout-")):
            continue
        # turn the input into a choice sequence, then confirm and minimise it with the plain harness
        dump = os.path.join(work, "dump.txt")
        subprocess.run([exe, os.path.join(art, a)], cwd=work, env=dict(os.environ, VF_DUMP=dump), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        out = os.path.join(work, "fz.txt")
        js = os.path.join(work, "fz.json")
        if not os.path.exists(dump):
            continue
        rc = subprocess.run([run_exe, "--replay", dump, "--json", js, "--out", out], cwd=work, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
        if rc == 1:
            return execs, json.load(open(js))["message"], out, len(os.listdir(corp)), int(cov[-1]) if cov else 0
    return execs, None, None, len(os.listdir(corp)), int(cov[-1]) if cov else 0


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    if len(sys.argv) > 2:
        if sys.argv[2] == "--replay":
            replay = sys.argv[3]
        else:
            tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    cfg = CONFIG[pid]
    os.makedirs(os.path.join(HERE, ".build"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(HERE, ".build"))
    os.environ["VF_TMP"] = work
    try:
        if replay:
            return do_replay(pid, cfg, replay, work)
        if cfg.get("programs"):
            return check_programs(pid, cfg, tier, seed, work)
        return check(pid, cfg, tier, seed, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def do_replay(pid, cfg, replay, work):
    text = open(replay, errors="replace").read()
    m = re.search(r"^mode (\w+)-(\w+)", text, re.M)
    if cfg.get("programs"):
        return programs_of(pid).replay(replay, REPO, work)
    if not m:
        print(text)
        try:
            build_all(pid, [(mo, cfg.get("build", "san")) for mo in cfg["modes"]], work)
            print("the harness compiles now")
            return 0
        except CompileError as e:
            print("still does not compile:\n" + str(e)[:3000])
            return 1
    build = m.group(1) if m.group(1) != "fuzz" else "san"
    try:
        exe = build_all(pid, [(m.group(2), build)], work)[(m.group(2), build)]
    except CompileError as e:
        print("the harness does not compile:\n" + str(e)[:3000])
        return 1
    return subprocess.run((fixed_addresses() if "tsan" in build else []) + [exe, "--replay", replay], cwd=work).returncode


def check(pid, cfg, tier, seed, work):
    t0 = time.time()
    modes = cfg["modes"]
    base = cfg.get("build", "san")
    wanted = [(m, base) for m in modes]
    if base == "tsan":
        if tier == "thorough":
            wanted += [(m, "ctsan") for m in modes]
    elif tier == "thorough" or cfg.get("clang"):
        wanted += [(m, "clang") for m in modes]
    if tier == "thorough" and base == "san":
        wanted += [(m, "rel") for m in modes]
        if cfg.get("fuzz", True):
            wanted += [(m, "fuzz") for m in modes]
    violations, runs = [], []
    ev = {"evaluations": 0, "distinct_nontrivial": 0, "rule": cfg["rule"], "samples": [], "runs": runs, "scenarios": {}, "events": {}}
    try:
        exes = build_all(pid, wanted, work)
    except CompileError as e:
        p = os.path.join(work, "compile.txt")
        open(p, "w").write("property %s\nThe harness, which uses only the documented interface, does not compile against /repo:\n%s" % (pid, e))
        dst = save_replay(pid, p, "%s-compile.txt" % pid)
        violations.append({"message": "the interface the property is about does not compile", "replay": dst})
        exes = {}
    ev["build_s"] = round(time.time() - t0, 1)
    known = known_findings(pid)
    for k in wanted if exes else []:
        mode, build = k
        if build == "fuzz":
            continue
        cases = cfg["cases"] if tier == "quick" else cfg.get("thorough_cases", cfg["cases"] * (40 if build in ("san", "tsan") else 20))
        if tier == "quick" and build == "clang":
            cases //= 4
        cases = int(cases * float(os.environ.get("VF_SCALE", "1")))        # for campaigns over many changed trees
        js = os.path.join(work, "o-%s-%s.json" % k)
        out = os.path.join(work, "r-%s-%s.txt" % k)
        cmd = [exes[k], "--seed", str(seed), "--cases", str(cases), "--mincases", str(cases), "--secs", "1", "--hard", str(150 if tier == "quick" else 1500),
               "--workers", str(CORES), "--json", js, "--out", out]
        if build in ("tsan", "ctsan"):
            cmd = fixed_addresses() + cmd
        if build == "rel":
            cmd += ["--start", str(10 ** 9)]
        if build in ("clang", "ctsan"):
            cmd += ["--start", str(2 * 10 ** 9)]
        for attempt in range(20):
            p = subprocess.run(cmd, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, errors="replace")
            if "unexpected memory mapping" not in p.stdout:        # ThreadSanitizer dislikes some random layouts: try another
                break
        if p.returncode not in (0, 1) or not os.path.exists(js):
            sys.stderr.write("harness ended with %d\n%s\n" % (p.returncode, p.stdout))
            return 2
        o = json.load(open(js))
        ev["evaluations"] += o["evaluations"]
        ev["distinct_nontrivial"] += o["distinct_nontrivial"]
        runs.append({"build": build, "mode": mode, "evaluations": o["evaluations"], "distinct_nontrivial": o["distinct_nontrivial"],
                     "longest_choice_sequence": o["longest_choice_sequence"], "wall_s": o["wall_s"], "unreproduced": o["unreproduced"]})
        for n, c in o["scenarios"].items():
            ev["scenarios"][n] = ev["scenarios"].get(n, 0) + c
        for n, c in o["labels"].items():
            ev["events"][n] = ev["events"].get(n, 0) + c
        ev["samples"] += ["%s %s" % (mode, s) for s in o["samples"][:3 if build == base else 1]]
        if o["failed"]:
            dst = save_replay(pid, out, "%s-%s-%s.txt" % (pid, build, mode))
            violations.append({"message": o["message"], "scenario": o["scenario"], "mode": mode, "build": build, "replay": dst})
            if tier == "quick":
                break
    if tier == "thorough" and not violations:
        for k in wanted:
            if k[1] != "fuzz":
                continue
            execs, msg, out, corp, cov = fuzz_stage(pid, exes[k], exes[(k[0], "san")], k[0], seed, int(os.environ.get("VF_FUZZ_SECS", cfg.get("fuzz_secs", 240))), work)
            runs.append({"build": "libFuzzer", "mode": k[0], "executions": execs, "corpus": corp, "coverage_edges": cov})
            ev["evaluations"] += execs
            if msg:
                dst = save_replay(pid, out, "%s-fuzz-%s.txt" % (pid, k[0]))
                violations.append({"message": msg, "mode": k[0], "build": "fuzz", "replay": dst})
    for f in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, f))
    doc = {"property": pid, "tier": tier, "seed": seed, "level": cfg["level"], "coverage": ev, "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
    ev["violation_details"] = violations
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
    print("%s %s: %d cases, %d distinct non-trivial, %.0f s" % (pid, tier, ev["evaluations"], ev["distinct_nontrivial"], time.time() - t0))
    for v in violations:
        print("  " + v["message"][:1500])
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
    return 1 if violations else 0


def programs_of(pid):
    sys.path.insert(0, PROPS)
    sys.dont_write_bytecode = True
    return __import__(pid)


def check_programs(pid, cfg, tier, seed, work):
    """a property whose cases are whole generated programs"""
    t0 = time.time()
    n, per = cfg["programs"] if tier == "quick" else (cfg["programs"][0] * 12, cfg["programs"][1])
    n = max(1, int(n * float(os.environ.get("VF_SCALE", "1"))))
    stats, bad = programs_of(pid).search(REPO, work, seed, n, per, CORES, 300 if tier == "quick" else 3000)
    ev = {"evaluations": stats["cases"], "distinct_nontrivial": len(stats["distinct"]), "rule": cfg["rule"], "samples": stats["samples"],
          "programs_built_and_run": stats["programs"], "events": stats["events"], "violation_details": []}
    lines = []
    if bad:
        p = os.path.join(work, "bad.cpp")
        open(p, "w").write(bad[1])
        dst = save_replay(pid, p, "%s-program.cpp" % pid)
        ev["violation_details"].append({"message": bad[0], "replay": dst})
        lines = ["  " + bad[0][:1500], "VIOLATION property=%s replay=%s" % (pid, dst)]
    for f in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, f))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": cfg["level"], "coverage": ev, "wall_s": round(time.time() - t0, 1), "violations": len(lines) // 2}, f, indent=1)
    print("%s %s: %d cases, %d distinct non-trivial, %.0f s" % (pid, tier, ev["evaluations"], ev["distinct_nontrivial"], time.time() - t0))
    for l in lines:
        print(l)
    return 1 if lines else 0


def known_findings(pid):
    r = []
    try:
        for line in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"open: property=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                r.append(m.group(2))
    except OSError:
        pass
    return r


if __name__ == "__main__":
    sys.exit(main())

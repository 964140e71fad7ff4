#!/usr/bin/env python3
"""Runs one property's check:   run.py <property> [quick|thorough]      (run.py --replay FILE re-runs one case)

Builds the property's harness and the library sources it exercises from /repo's
current working tree under sanitizers, runs its cases in parallel shards, merges
what the monitors observed into evidence/<id>.json and reports a verdict:
exit 0 held on everything explored; exit 1 + VIOLATION line; exit 2 inconclusive / harness error.
"""
import glob, hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

INC = ["-I%s/common/include" % REPO, "-I%s/geometry/include" % REPO, "-I%s/pcl/include" % REPO,
       "-isystem", "/usr/include/eigen3", "-I%s/harness" % VERIF]
BASE = ["-std=c++17", "-w", "-pthread", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]
SAN = {
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "asan0": ["-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "asanonly": ["-O1", "-g1", "-fsanitize=address", "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
    "plain": ["-O2", "-g1"],
    "noise": ["-O0", "-g1", "-finstrument-functions"],
}
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
FAST = bool(os.environ.get("VERIF_FAST"))  # mutation sweep only: short limits, first death ends the shard
MAX_SHARD_WALL = int(os.environ.get("VERIF_WALL", "0"))


class Inconclusive(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def lib_sources(lib):
    return sorted(glob.glob("%s/%s/src/*.cpp" % (REPO, lib)))


def build(pid, spec, bdir):
    cxx = spec.get("cxx", "g++")
    san = SAN[spec.get("san", "asan")]
    jobs = []
    inc = list(INC)
    for d in spec.get("incdirs", []):
        inc += ["-isystem", d]
    for src in spec["src"]:
        # "file.cpp:K" compiles part K of a harness split for build time; part 0 holds main()
        name, _, part = src.partition(":")
        flags = spec.get("flags", []) + (["-DVMON_CASE_CPU_LIMIT=6"] if FAST else []) + (["-DVPART=" + part] if part else []) + (["-DVMON_NO_MAIN"] if part not in ("", "0") else [])
        jobs.append((os.path.join(VERIF, "harness", name), os.path.join(bdir, "h_%s.o" % src.replace(":", "_")), san, flags))
    libobjs = {}
    for lib in spec.get("libs", []):
        libobjs[lib] = []
        for s in lib_sources(lib):
            base = os.path.basename(s)
            if base in spec.get("skip", []):
                continue
            o = os.path.join(bdir, "%s_%s.o" % (lib, base))
            libobjs[lib].append(o)
            jobs.append((s, o, SAN[spec.get("libsan", {}).get(base, spec.get("san", "asan"))], []))

    def one(j):
        src, obj, sanf, flags = j
        cmd = [cxx] + BASE + sanf + inc + flags + ["-c", src, "-o", obj]
        r = sh(cmd)
        return (src, r.returncode, r.stdout)

    with ThreadPoolExecutor(JOBS) as ex:
        for src, rc, out in ex.map(one, jobs):
            if rc != 0:
                raise Inconclusive("compilation of %s failed:\n%s" % (src, out[-4000:]))
    exe = os.path.join(bdir, "harness")

    def link():
        archives = []
        for lib in reversed([l for l in libobjs if libobjs[l]]):
            a = os.path.join(bdir, "lib%s.a" % lib)
            if os.path.exists(a):
                os.unlink(a)
            r = sh(["ar", "rcs", a] + libobjs[lib])
            if r.returncode:
                raise Inconclusive("ar failed: " + r.stdout)
            archives.append(a)
        return sh([cxx, "-pthread"] + [f for f in san if f.startswith("-fsan")] +
                  [j[1] for j in jobs if os.path.basename(j[1]).startswith("h_")] +
                  ["-Wl,--start-group"] + archives + ["-Wl,--end-group"] + spec.get("link", []) + ["-lboost_filesystem", "-lboost_system", "-o", exe])

    r = link()
    if r.returncode:
        # the code under test may have moved to a source this check does not build: build all the others as well
        have = [o for l in libobjs.values() for o in l]
        more = []
        for lib in ("common", "geometry"):
            for s in lib_sources(lib):
                o = os.path.join(bdir, "%s_%s.o" % (lib, os.path.basename(s)))
                if o not in have:
                    more.append((lib, s, o))
        with ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(one, [(s, o, san, []) for lib, s, o in more]))
        for (lib, s, o), (src, rc, out) in zip(more, res):
            if rc != 0:
                raise Inconclusive("compilation of %s failed:\n%s" % (src, out[-4000:]))
            libobjs.setdefault(lib, []).append(o)
        r = link()
    if r.returncode:
        raise Inconclusive("link failed:\n" + r.stdout[-4000:])
    return exe


def env_for(spec):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=0:hard_rss_limit_mb=3500:detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1:suppressions=%s/harness/tsan.supp" % VERIF
    e["LC_ALL"] = "C.UTF-8"
    return e


def read_progress(path):
    try:
        b = open(path, "rb").read()
        case, ops, state = struct.unpack_from("QQi", b, 0)
        op = b[20:220].split(b"\0")[0].decode("utf8", "replace")
        return case, ops, state, op
    except Exception:
        return 0, 0, -1, ""


def parse_out(path):
    r = dict(V=[], C={}, M={}, R={}, S=[], G=set(), N=(0, 0), E=None, done=False)
    if not os.path.exists(path):
        return r
    for line in open(path, errors="replace"):
        p = line.rstrip("\n").split("\t")
        if p[0] == "V":
            r["V"].append((int(p[1]), p[2], "\t".join(p[3:])))
        elif p[0] == "C":
            r["C"][p[1]] = int(p[2])
        elif p[0] == "M":
            r["M"][p[1]] = float(p[2])
        elif p[0] == "R":
            r["R"][p[1]] = int(p[2])
        elif p[0] == "S":
            r["S"].append("\t".join(p[1:]))
        elif p[0] == "G":
            r["G"].add(p[1])
        elif p[0] == "N":
            r["N"] = (int(p[1]), int(p[2]))
        elif p[0] == "E":
            r["E"] = "\t".join(p[1:])
        elif p[0] == "DONE":
            r["done"] = True
    return r


def classify_death(rc, err, op, state):
    """Names a process death: (key, message)."""
    m = re.search(r"runtime error: ([^\n]*)", err)
    if m:
        fn = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\s(]+)", err)
        return "ubsan", "undefined behaviour during %s: %s [%s]" % (op, m.group(1), fn[0] if fn else "?")
    m = re.search(r"ERROR: AddressSanitizer: (.*)", err)
    if m:
        fn = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]+)", err)
        return "asan", "AddressSanitizer during %s: %s [%s]" % (op, m.group(1)[:200], "; ".join(fn[:4])[:300])
    m = re.search(r"==\d+== ((?:Conditional jump|Use of uninit|Syscall param|Invalid |Mismatched|Source and dest|Argument )[^\n]*)", err)
    if m:
        fn = re.findall(r"==\d+==    (?:at|by) 0x[0-9A-F]+: ([^\n]+)", err)
        return "memcheck", "memcheck during %s: %s [%s]" % (op, m.group(1)[:200], "; ".join(fn[:3])[:300])
    m = re.search(r"WARNING: ThreadSanitizer: (.*)", err)
    if m:
        fn = re.findall(r"#0 ([^\n]+)", err)
        return "tsan", "ThreadSanitizer during %s: %s [%s]" % (op, m.group(1)[:200], "; ".join(fn[:3])[:300])
    if "hard rss limit exhausted" in err:
        return "memory", "memory grew without bound (rss limit) during %s" % op
    if state == 3 or rc == 97:
        return "hang", "no result within the CPU-time limit of one case during %s" % op
    if "Assertion '" in err or "Assertion `" in err:
        m = re.search(r"([^\n]*Assertion [^\n]*)", err)
        return "libassert", "library assertion during %s: %s" % (op, m.group(1)[:300])
    return "terminated", "process terminated (status %s) during %s %s" % (rc, op, err[-300:].replace("\n", " "))


def run_shard(exe, spec, tier, seed, shard, nshards, wdir, extra):
    """Runs one shard to its end; returns (merged outputs, violations). A death is charged to its case, then the shard resumes after it."""
    outs, viols = [], []
    start, deaths, hang_retry = 0, 0, set()
    wall = MAX_SHARD_WALL or (800 if tier == "quick" else spec.get("thorough_wall", 6 * 3600))
    t_end = time.time() + wall
    env = env_for(spec)
    while True:
        out = os.path.join(wdir, "out_%d_%d" % (shard, start))
        prog = os.path.join(wdir, "prog_%d" % shard)
        errf = os.path.join(wdir, "err_%d" % shard)
        scratch = os.path.join(wdir, "scratch_%d" % shard)
        os.makedirs(scratch, exist_ok=True)
        env["VMON_SCRATCH"] = scratch
        env.update(spec.get("env", {}))
        cmd = spec.get("wrap", []) + [exe, "--seed", str(seed), "--tier", tier, "--shard", str(shard), "--nshards", str(nshards),
               "--start", str(start), "--out", out, "--progress", prog] + extra
        with open(errf, "w") as ef:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL, cwd=scratch, env=env, start_new_session=True)
            try:
                rc = p.wait(max(1, t_end - time.time()))
            except subprocess.TimeoutExpired:
                try:
                    os.killpg(p.pid, 9)
                except Exception:
                    pass
                p.wait()
                if viols:
                    return outs, viols
                raise Inconclusive("shard %d exceeded its wall-clock budget (%d s)" % (shard, wall))
        r = parse_out(out)
        if r["done"]:
            if r["E"]:
                raise Inconclusive("harness error: " + r["E"])
            outs.append(r)
            viols += [dict(case=c, key=k, msg=m, err="") for c, k, m in r["V"]]
            return outs, viols
        if rc == 98:
            raise Inconclusive("harness could not start")
        err = open(errf, errors="replace").read()
        case, ops, state, op = read_progress(prog)
        key, msg = classify_death(rc, err, op, state)
        if rc == -9 and key == "terminated":
            if viols:
                return outs, viols
            raise Inconclusive("shard %d was killed" % shard)
        if state not in (1, 3):
            raise Inconclusive("process died outside a case (rc=%s): %s" % (rc, err[-1500:]))
        if key == "hang" and case not in hang_retry and not extra and not FAST:
            hang_retry.add(case)
            start = case
            continue
        viols.append(dict(case=case, key=key, msg=msg, err=err[:6000]))
        deaths += 1
        if deaths >= 3 or key == "hang" or extra or FAST:
            return outs, viols
        start = case + 1


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("known", [])


def main():
    args = sys.argv[1:]
    extra, replay = [], None
    if args and args[0] == "--replay":
        replay = json.load(open(args[1]))
        pid, tier, seed = replay["property"], replay["tier"], replay["seed"]
        extra = ["--only-case", str(replay["case"])]
    else:
        pid = args[0]
        tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1
    if "--case" in args:
        extra = ["--only-case", args[args.index("--case") + 1]]
    specs = CHECKS[pid]
    t0 = time.time()
    evid = os.path.join(VERIF, "evidence")
    os.makedirs(evid, exist_ok=True)
    top = os.path.join(VERIF, ".build")
    os.makedirs(top, exist_ok=True)
    bdir = tempfile.mkdtemp(prefix=pid + "_", dir=top)
    allouts, viols, exes = [], [], {}
    parts = specs if isinstance(specs, list) else [specs]
    try:
        build_s = 0
        for pi, spec in enumerate(parts):
            if replay and replay.get("part", 0) != pi:
                continue
            pd = os.path.join(bdir, "p%d" % pi)
            os.makedirs(pd)
            tb = time.time()
            if "reuse" in spec:  # the executable of an earlier part, run in another way
                exe = exes.get(spec["reuse"]) or build(pid, parts[spec["reuse"]], pd)
            else:
                exe = build(pid, spec, pd)
            exes[pi] = exe
            build_s += time.time() - tb
            nsh = 1 if extra else spec.get("shards", JOBS)
            with ThreadPoolExecutor(nsh) as ex:
                futs = [ex.submit(run_shard, exe, spec, tier, seed, i, nsh, pd, extra) for i in range(nsh)]
                errs = []
                for f in futs:
                    try:
                        o, v = f.result()
                        allouts += o
                        for x in v:
                            x["part"] = pi
                        viols += v
                    except Inconclusive as e:
                        errs.append(str(e))
            if errs and not viols:
                raise Inconclusive(errs[0])
        known = load_known()
        new, hit = [], {}
        for v in viols:
            k = next((k for k in known if k["property"] == pid and k["key"] == v["key"] and
                      (not k.get("match") or re.search(k["match"], v["msg"]))), None)
            if k:
                hit[k["what"]] = hit.get(k["what"], 0) + 1
            else:
                new.append(v)
        cnt, mx, req, sigs, samples = {}, {}, {}, set(), []
        ev = nt = 0
        for o in allouts:
            for k, n in o["C"].items():
                cnt[k] = cnt.get(k, 0) + n
            for k, n in o["M"].items():
                mx[k] = max(mx.get(k, n), n)
            req.update(o["R"])
            sigs |= o["G"]
            samples += o["S"]
            ev += o["N"][0]
            nt += o["N"][1]
        rule = "; ".join(p["rule"] for p in parts)
        evidence = dict(property=pid, tier=tier, seed=seed, level="exploration",
                        coverage=dict(evaluations=ev, distinct_nontrivial=len(sigs), rule=rule, samples=samples[:6],
                                      observed_events=cnt, observed_maxima=mx, build_s=round(build_s, 1),
                                      builds=[dict(compiler=p.get("cxx", "g++"), sanitizers=p.get("san", "asan"), harness=p["src"]) if "src" in p else dict(reuse=p["reuse"], tool=p["wrap"][0]) for p in parts],
                                      known_findings_hit=hit),
                        assumptions=parts[0].get("assumptions", []),
                        wall_s=round(time.time() - t0, 2), violations=len(new))
        if not extra:
            tmp = os.path.join(evid, ".%s.tmp" % pid)
            json.dump(evidence, open(tmp, "w"), indent=1)
            os.replace(tmp, os.path.join(evid, pid + ".json"))
        for w, n in hit.items():
            print("KNOWN-FINDING: property=%s %s (%d cases)" % (pid, w, n))
        if new:
            rdir = os.path.join(evid, "replay")
            os.makedirs(rdir, exist_ok=True)
            seen = set()
            for v in new:
                if v["key"] in seen:
                    continue
                seen.add(v["key"])
                rp = os.path.join(rdir, "%s_%s_%d.json" % (pid, re.sub(r"\W+", "_", v["key"]), v["case"]))
                json.dump(dict(property=pid, tier=tier, seed=seed, case=v["case"], part=v["part"], key=v["key"], message=v["msg"], report=v["err"],
                               command="python3 %s --replay %s" % (os.path.join(VERIF, "run.py"), rp)), open(rp, "w"), indent=1)
                print("  [%s] case %d: %s" % (v["key"], v["case"], v["msg"][:600]))
                print("VIOLATION property=%s replay=%s" % (pid, rp))
            return 1
        if extra:
            print("case held")
            return 0
        for k, n in req.items():
            if cnt.get(k, 0) < n:
                raise Inconclusive("observed only %d of '%s' (need %d)" % (cnt.get(k, 0), k, n))
        if ev == 0 or not sigs:
            raise Inconclusive("nothing was observed")
        print("OK property=%s tier=%s seed=%d cases=%d distinct=%d checks=%d wall=%.1fs (build %.1fs)" %
              (pid, tier, seed, ev, len(sigs), cnt.get("checks", 0), time.time() - t0, build_s))
        return 0
    except Inconclusive as e:
        print("INCONCLUSIVE property=%s: %s" % (pid, e))
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(bdir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())

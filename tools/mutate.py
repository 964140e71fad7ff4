#!/usr/bin/env python3
"""Mutation sweep: applies small edits to scratch copies of the repository and reports those that no check notices.

usage: mutate.py OUT.jsonl [-j N] [FILE-REGEX]     (development tool; no check uses it; works on copies under /tmp only)
"""
import hashlib, json, os, re, shutil, subprocess, sys, concurrent.futures as cf, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C, S, G, GS = "common/include/rofl/common/", "common/src/", "geometry/include/rofl/geometry/", "geometry/src/"
MAP = {
 C + "min_max_heap.h": "C01 C27", C + "interval_indices.h": "C02 C27 C03 C04", C + "grid.h": "C03 C27", C + "peak_finder_d.h": "C04 C27",
 C + "disjoint_set.h": "C05", S + "disjoint_set.cpp": "C05", C + "label_set.h": "C06", S + "label_set.cpp": "C06",
 C + "bit_manip.h": "C07 C08", S + "bit_manip.cpp": "C07 C08", C + "numeric_traits.h": "C07 C08 C09 C10",
 C + "morton_sort.h": "C09 C10 C11", C + "morton_tree.h": "C11", S + "morton_tree.cpp": "C11", C + "tls_scalar_consensus.h": "C12 C27",
 C + "param_map.h": "C13", S + "param_map.cpp": "C13", C + "io.h": "C14", S + "io.cpp": "C14", C + "profiler.h": "C15 C28", S + "profiler.cpp": "C15 C28",
 C + "functions.h": "C16 C17 C18", S + "functions.cpp": "C16 C17 C18 C27", C + "vector_array.h": "C26",
 GS + "base_geometry2.cpp": "C19", GS + "gis.cpp": "C20", G + "gis.h": "C20", G + "box_registration.h": "C21",
 GS + "correspondence_graph_association.cpp": "C22", G + "correspondence_graph_association.h": "C22",
 GS + "hough_plane_detector.cpp": "C23 C27", G + "hough_plane_detector.h": "C23 C27",
 GS + "hough_line_detector.cpp": "C24 C27", G + "hough_line_detector.h": "C24 C27",
 "pcl/include/rofl/pcl/point_cloud_plane_aligner.h": "C25",
}
OPS = [(r"(?<=[\w)\]] )<= ", "< "), (r"(?<=[\w)\]] )< (?=[\w(*-])", "<= "), (r"(?<=[\w)\]] )>= ", "> "), (r"(?<=[\w)\]] )> (?=[\w(*-])", ">= "),
       (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \* (?=[\w(])", " / "), (r" / (?=[\w(])", " * "),
       (r" \+= ", " -= "), (r" -= ", " += "), (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"std::min<", "std::max<"), (r"std::max<", "std::min<"),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" << (?=\d|\()", " >> "), (r" >> (?=\d|\()", " << "), (r" & ", " | "), (r" \| ", " & "), (r" \^ ", " | "),
       (r"(?<![\w.])(\d+)(?![\w.])", "N+1"), (r"(?<![\w.])([1-9]\d*)(?![\w.])", "N-1"), (r"floor\(", "ceil("), (r"ceil\(", "floor("), (r"\bfabs\(", "("), (r"\bcos\(", "sin("), (r"\bsin\(", "cos("),
       (r"(?<![\w.])(\d+\.\d+)(?![\w.])", "F")]
SKIP = re.compile(r"std::c(out|err)|ROFL_(VAR|MSG|ERR)|^\s*(#|//|\*|/\*|template|using|typedef|namespace|public:|private:|static_assert)|ROFL_COMMON_PROFILER|^\s*<<")

def mutants(text):
    lines = text.split("\n")
    incomment = False
    for n, l in enumerate(lines):
        code = l
        if incomment:
            if "*/" in l:
                incomment = False
            continue
        if "/*" in l and "*/" not in l:
            incomment = True
            continue
        if SKIP.search(l) or not l.strip():
            continue
        code = l.split("//")[0]
        for pat, rep in OPS:
            for m in re.finditer(pat, code):
                if code[:m.start()].count('"') % 2:
                    continue
                if rep == "N+1":
                    new = str(int(m.group(1)) + 1)
                elif rep == "N-1":
                    new = str(int(m.group(1)) - 1)
                elif rep == "F":
                    new = repr(float(m.group(1)) * 1.01 + 0.001)
                else:
                    new = rep
                yield n, code[:m.start()] + new + code[m.end():]
        m = re.match(r"^(\s*)(\}? ?else )?if \((.*)\) \{?\s*$", code)
        if m:
            for c in ("true", "false"):
                yield n, code.replace("if (" + m.group(3) + ")", "if (%s)" % c)
        st = code.strip()
        if st.endswith(";") and re.match(r"^[\w\[\]().>*&:+-]+( [-+*/|&^]?= |\+\+|--|\(|\.)", st) and not st.startswith(("return", "const ", "for ", "else", "int ", "bool ", "double ", "auto ")):
            if st.count("(") == st.count(")"):
                yield n, code[:len(code) - len(code.lstrip())] + ";"

def main():
    out = sys.argv[1]
    j = int(sys.argv[sys.argv.index("-j") + 1]) if "-j" in sys.argv else 6
    rx = sys.argv[-1] if len(sys.argv) > 2 and sys.argv[-2] != "-j" else "."
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)["id"] for l in open(out)}
    jobs = []
    for f, checks in MAP.items():
        if not re.search(rx, f):
            continue
        text = open("/repo/" + f).read()
        for n, new in mutants(text):
            i = hashlib.md5(("%s:%d:%s" % (f, n, new)).encode()).hexdigest()[:10]
            if i not in done:
                done.add(i)
                jobs.append((i, f, n, new, checks.split()))
    frac = {S + "bit_manip.cpp": 0.12, S + "functions.cpp": 0.35, GS + "hough_plane_detector.cpp": 0.4, C + "min_max_heap.h": 0.4,
            C + "numeric_traits.h": 0.4, C + "morton_sort.h": 0.5, C + "interval_indices.h": 0.5, GS + "hough_line_detector.cpp": 0.5}
    if not os.environ.get("MUT_ALL"):
        jobs = [x for x in jobs if int(x[0][:4], 16) < 65536 * frac.get(x[1], 1)]
    jobs.sort()
    print(len(jobs), "mutants")
    slots = queue.Queue()
    for k in range(j):
        d = "/tmp/mut%d" % k
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run("mkdir -p %s && git clone -q /repo %s/repo && mkdir %s/verif && cp -r %s/run.py %s/checks.py %s/harness %s/known_findings.json %s/verif/" % (d, d, d, V, V, V, V, d), shell=True, check=True)
        slots.put(d)
    log = open(out, "a")

    def one(job):
        i, f, n, new, checks = job
        d = slots.get()
        try:
            p = d + "/repo/" + f
            text = open(p).read()
            lines = text.split("\n")
            old = lines[n]
            lines[n] = new
            open(p, "w").write("\n".join(lines))
            res = "survived"
            try:
                for c in checks:
                    e = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_JOBS="4", VERIF_FAST="1", VERIF_WALL="100", VERIF_SEED="1")
                    r = subprocess.run(["python3", d + "/verif/run.py", c, "quick"], env=e, capture_output=True, text=True)
                    if r.returncode == 1:
                        m = re.search(r"\[(\w+)\] case", r.stdout)
                        res = "killed %s %s" % (c, m.group(1) if m else "")
                        break
                    if r.returncode != 0:
                        res = "nobuild" if "compilation" in r.stdout else "inconclusive %s %s" % (c, r.stdout[-200:])
                        break
            finally:
                open(p, "w").write(text)
            return dict(id=i, file=f, line=n + 1, old=old.strip(), new=new.strip(), result=res)
        finally:
            slots.put(d)
    cnt = {}
    with cf.ThreadPoolExecutor(j) as ex:
        for r in ex.map(one, jobs):
            log.write(json.dumps(r) + "\n")
            log.flush()
            k = r["result"].split()[0]
            cnt[k] = cnt.get(k, 0) + 1
            if k in ("survived", "inconclusive"):
                print(k, "%s:%d" % (r["file"], r["line"]), r["old"], " => ", r["new"], r["result"][:150], flush=True)
    print(cnt)
    for k in range(j):
        shutil.rmtree("/tmp/mut%d" % k, ignore_errors=True)

if __name__ == "__main__":
    main()

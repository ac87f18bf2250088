#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property of /repo by symbolic execution of the real code (see DESIGN.md)."""
import json, os, re, shutil, subprocess, sys, time, glob, threading
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LAGER_REPO", "/repo")
B = os.path.join(V, "build")
LSYM = os.path.join(B, "lsym")
ROOTFLAGS = ["-I" + os.path.join(V, "harness"), "-I" + REPO]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def parse(path):
    h = {"entries": [], "bounds": [], "outside": [], "assume": [], "stub": [], "flags": []}
    for line in open(path):
        m = re.match(r"//@\s*([a-z-]+):\s*(.*)", line)
        if not m:
            continue
        k, v = m.group(1), m.group(2).strip()
        if k == "entry":
            w = v.split()
            e = {"name": w[0], "reach": [], "flags": [], "mt": False, "time": 0, "tier": "both", "lsym": []}
            for x in w[1:]:
                if x.startswith("reach="):
                    e["reach"] = x[6:].split(",")
                elif x.startswith("flag="):
                    e["flags"].append(x[5:])
                elif x == "mt":
                    e["mt"] = True
                elif x.startswith("tier="):
                    e["tier"] = x[5:]
                elif x.startswith("lsym="):
                    e["lsym"] += x[5:].split(",")
            h["entries"].append(e)
        elif k == "flags":
            h["flags"] += v.replace("@V@", V).split()
        else:
            h.setdefault(k, []).append(v)
    return h


def known_findings(pid):
    r = {}
    for line in open(os.path.join(V, "known_findings.txt")):
        m = re.match(r'known: property=(\S+) entry=(\S+) assertion="([^"]*)" (.*)', line)
        if m and m.group(1) == pid:
            r[m.group(2)] = (m.group(3), m.group(4))
    return r


class Giveup(Exception):
    pass


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    jobs = int(os.environ.get("LSYM_JOBS", str(os.cpu_count() or 8)))
    budget = float(os.environ.get("LSYM_BUDGET", "840" if tier == "quick" else "7200"))
    t0 = time.time()
    src = os.path.join(V, "harness", pid + ".cpp")
    h = parse(src)
    tag = "%s-%s-%d" % (pid, tier, os.getpid())
    wd = os.path.join(B, "run", tag)
    os.makedirs(wd)
    repdir = os.path.join(B, "replay", pid)
    shutil.rmtree(repdir, ignore_errors=True)
    evf = os.path.join(V, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(evf), exist_ok=True)
    if os.path.exists(evf):
        os.unlink(evf)
    procs = []
    try:
        rc = run(pid, tier, seed, jobs, budget, t0, src, h, wd, repdir, evf, procs)
    except Giveup as e:
        print("check %s: no answer: %s" % (pid, e))
        rc = 2
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        if not os.environ.get("LSYM_KEEP"):
            shutil.rmtree(wd, ignore_errors=True)
    print("check %s %s: exit %d after %.1f s" % (pid, tier, rc, time.time() - t0))
    return rc


# A copy of the harness without the entries that do not compile, and their names.
def prune(src, wd, flags, jobs):
    text = open(src).read().split("\n")
    names = re.findall(r"^HARNESS\((\w+)\)", "\n".join(text), re.M)

    def without(gone, dst):
        lines, i = list(text), 0
        while i < len(lines):
            m = re.match(r"HARNESS\((\w+)\)", lines[i])
            if m:
                j = i
                if not lines[i].rstrip().endswith("}"):
                    while j + 1 < len(lines) and lines[j] != "}":
                        j += 1
                if m.group(1) in gone:
                    lines[i:j + 1] = ["HARNESS(%s) {}" % m.group(1)] + [""] * (j - i)
                i = j
            i += 1
        with open(dst, "w") as f:
            f.write("\n".join(lines))

    # every entry on its own
    def compiles(gone, dst):
        without(gone, dst)
        return all(sh(["clang++"] + fl + ["-fsyntax-only", dst]).returncode == 0 for fl in flags)
    with ThreadPoolExecutor(max_workers=jobs) as ex:
        r = list(ex.map(lambda n: compiles(set(names) - {n}, os.path.join(wd, "only_%s.cpp" % n)), names))
    gone = set(n for n, ok in zip(names, r) if not ok)
    dst = os.path.join(wd, os.path.basename(src))
    if len(gone) == len(names) or not compiles(gone, dst):
        return None
    return dst, gone


def run(pid, tier, seed, jobs, budget, t0, src, h, wd, repdir, evf, procs, partial=None):
    known, findings = known_findings(pid), []
    if sh(["make", "-s", "-C", os.path.join(V, "engine")]).returncode:
        raise Giveup("engine does not build")
    T = "-DTIER=%d" % (1 if tier == "thorough" else 0)
    base = ["-O1", "-g", "-D_GLIBCXX_ASSERTIONS", "-Wno-everything", T] + ROOTFLAGS
    std = [] if any(f.startswith("-std=") for f in h["flags"]) else ["-std=c++17"]
    entries = [e for e in h["entries"] if e["tier"] in ("both", tier)]
    variants = {}
    for e in entries:
        variants.setdefault((tuple(e["flags"]), e["mt"]), []).append(e)
    # compile every variant: bitcode (waits) and the native replay build (in the background)
    bcs, native = {}, {}
    for i, ((fl, mt), es) in enumerate(variants.items()):
        bc = os.path.join(wd, "h%d.bc" % i)
        common = std + base + h["flags"] + list(fl)
        c = ["clang++"] + common + ["-fno-vectorize", "-fno-slp-vectorize", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-emit-llvm", "-c", src, "-o", bc] + (["-D_GLIBCXX_TSAN=1"] if mt else [])  # as in the replay build
        bcs[(fl, mt)] = (subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), bc)
        exe = os.path.join(wd, "n%d" % i)
        if mt:
            n = ["sh", "-c", " && ".join([
                " ".join(["clang++"] + [quote(x) for x in common] + ["-fsanitize=thread", "-c", src, "-o", exe + ".o"]),
                "clang++ -std=c++17 -O1 -g -c %s -o %s.rt.o" % (os.path.join(V, "engine", "replay_mt.cpp"), exe),
                "clang++ -rdynamic %s.o %s.rt.o -o %s -ldl -lpthread" % (exe, exe, exe)])]
        else:
            n = ["clang++"] + common + ["-fsanitize=address", "-fno-omit-frame-pointer", "-rdynamic", src, os.path.join(V, "engine", "replay.cpp"), "-o", exe, "-ldl"]
        native[(fl, mt)] = (subprocess.Popen(n, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), exe)
        procs += [bcs[(fl, mt)][0], native[(fl, mt)][0]]
    linked = {}
    for k, (p, bc) in bcs.items():
        o, _ = p.communicate()
        if p.returncode:
            why = "the harness does not compile against the current tree:\n" + o[:3000]
            rest = None
            if not partial:
                for q in procs:
                    if q.poll() is None:
                        q.kill()
                        q.wait()
                rest = prune(src, wd, [std + base + h["flags"] + list(f) for f, _ in variants], jobs)
            if not rest:
                raise Giveup(why)
            # decide what still compiles: a violation there counts, and without one there is no answer
            src2, gone = rest
            h2 = dict(h, entries=[e for e in h["entries"] if e["name"] not in gone])
            if not any(e["tier"] in ("both", tier) for e in h2["entries"]):
                raise Giveup(why)
            print("  %s: parts that do not compile are left out: %s" % (pid, " ".join(sorted(gone))))
            wd2 = os.path.join(wd, "rest")
            os.makedirs(wd2)
            return run(pid, tier, seed, jobs, budget, t0, src2, h2, wd2, repdir, evf, procs, why)
        l = bc[:-3] + "l.bc"
        r = sh(["llvm-link-18" if shutil.which("llvm-link-18") else "/usr/lib/llvm-18/bin/llvm-link", bc, os.path.join(B, "rt.bc"), "-o", l])
        if r.returncode:
            raise Giveup("link: " + r.stdout[:2000])
        linked[k] = l

    def nativeExe(k):
        p, exe = native[k]
        o, _ = p.communicate() if p.returncode is None else ("", None)
        if p.returncode:
            raise Giveup("the native harness does not compile:\n" + (o or "")[:3000])
        return exe

    def replay(e, files, strict):
        k = (tuple(e["flags"]), e["mt"])
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:max_malloc_fill_size=1000000:malloc_fill_byte=190:detect_stack_use_after_return=1:abort_on_error=0:allocator_may_return_null=1:symbolize=0"
        if strict:
            env["LSYM_STRICT"] = "1"
        r = sh([nativeExe(k), e["name"]] + files, env=env, errors="replace")
        res, cur = {}, []
        for line in r.stdout.split("\n"):
            m = re.match(r"RESULT (\S+) (\d+)$", line)
            if m:
                res[m.group(1)] = (int(m.group(2)), "\n".join(cur))
                cur = []
            else:
                cur.append(line)
        if len(res) != len(files):
            raise Giveup("native replayer failed: " + r.stdout[-1500:])
        return res

    tot = {}
    fns, reached, asserts, samples, maxrss = set(), {}, {}, [], 0
    errors, violations, validated, perentry = [partial] if partial else [], [], 0, []
    toval = []
    for e in entries:
        k = (tuple(e["flags"]), e["mt"])
        out = os.path.join(wd, e["name"])
        left = budget - (time.time() - t0)
        if left < 5:
            raise Giveup("time budget exhausted before entry " + e["name"])
        te = time.time()
        cmd = [LSYM, linked[k], "-o", out, "-j", str(jobs), "--time", "%.0f" % left, "--entry", e["name"], "--seed", str(seed), "--samples", "6" if tier == "quick" else "24"] + e["lsym"]
        if tier == "thorough":
            os.makedirs(out + ".q", exist_ok=True)
            cmd += ["--dump-queries", out + ".q"]
        r = sh(cmd, errors="replace")
        st = {}
        err = []
        rl = set()
        for f in glob.glob(out + ".stats.*"):
            for line in open(f, errors="replace"):
                w = line.rstrip("\n").split(" ", 2)
                if w[0] == "stat":
                    st[w[1]] = st.get(w[1], 0) + int(w[2])
                elif w[0] == "fstat":
                    st[w[1]] = st.get(w[1], 0) + float(w[2])
                elif w[0] == "max":
                    maxrss = max(maxrss, int(w[2]))
                elif w[0] == "reach":
                    rl.add(line.rstrip("\n")[6:])
                elif w[0] == "assert":
                    asserts[w[2]] = asserts.get(w[2], 0) + int(w[1])
                elif w[0] == "fn":
                    fns.add(w[1])
                elif w[0] == "error":
                    err.append(line[6:].strip().replace("|", "\n"))
        if r.returncode or not st:
            err.append("engine exit %d: %s" % (r.returncode, r.stdout[-1500:]))
        viol = sorted(glob.glob(out + ".viol.[0-9]"))
        if viol and e["name"] in known:
            kmsg, ktext = known[e["name"]]
            msgs = [m for f in viol for m in [line[8:].strip() for line in open(f, errors="replace") if line.startswith("message ")]]
            if msgs and all(m.split("|")[0].split(": ", 1)[-1].strip() == kmsg for m in msgs):
                rr = replay(e, viol, False)
                if any(c not in (0, 43, 44) for c, _ in rr.values()):
                    print("KNOWN-FINDING: property=%s %s" % (pid, ktext))
                    findings.append({"entry": e["name"], "assertion": kmsg, "finding": ktext})
                    continue
        for f in viol:
            violations.append((e, f))
        if err and not viol:
            errors += ["%s: %s" % (e["name"], x) for x in err]
        for kx, vx in st.items():
            tot[kx] = tot.get(kx, 0) + vx
        reached[e["name"]] = sorted(rl)
        perentry.append({"entry": e["name"], "paths": st.get("paths", 0), "infeasible": st.get("infeasible", 0), "pruned": st.get("pruned", 0), "instructions": st.get("instr", 0), "queries": st.get("queries", 0),
                         "solver_calls": st.get("z3calls", 0), "solver_s": round(st.get("z3time", 0), 2), "wall_s": round(time.time() - te, 2), "reach": sorted(rl)})
        print("  %-28s paths %d, infeasible %d, pruned %d, instructions %d, queries %d (solver %d, %.1f s), %.1f s" % (e["name"], st.get("paths", 0), st.get("infeasible", 0), st.get("pruned", 0), st.get("instr", 0), st.get("queries", 0), st.get("z3calls", 0), st.get("z3time", 0), time.time() - te))
        sys.stdout.flush()
        if viol:
            break
        miss = [x for x in e["reach"] if x not in rl]
        if miss and not err:
            errors.append("%s: vacuous: reachability witness not reached: %s" % (e["name"], ", ".join(miss)))
        toval.append((e, sorted(glob.glob(out + ".sample.*"))))
    nviol = 0
    if violations:
        for e, f in violations:
            if "lsym-replay" not in open(f, errors="replace").read(20):
                continue
            rr = replay(e, [f], False)
            c, log = rr.get(f, (0, ""))
            msg = ""
            for line in open(f, errors="replace"):
                if line.startswith("message "):
                    msg = line[8:].strip()
            if c in (0, 43, 44):
                errors.append("counterexample not reproduced by the native build (status %d): %s %s" % (c, msg.replace("|", "\n")[:1500], log[-300:]))
                continue
            os.makedirs(repdir, exist_ok=True)
            dst = os.path.join(repdir, "%s.%d.replay" % (e["name"], nviol))
            with open(dst, "w") as o:
                o.write(open(f).read())
                o.write("entry %s\nharness %s\n" % (e["name"], src))
                for line in log.split("\n")[:60]:
                    o.write("native %s\n" % line)
            print("violation in %s: %s" % (e["name"], msg.replace("|", "\n")))
            print("native replay status %d: %s" % (c, "\n".join(log.strip().split("\n")[:6])))
            print("VIOLATION property=%s replay=%s" % (pid, dst))
            nviol += 1
            break
    elif not errors:
        for e, fs in toval:
            if not fs:
                errors.append(e["name"] + ": no path completed")
                continue
            rr = replay(e, fs, True)
            for f in fs:
                c, log = rr.get(f, (-1, "no result"))
                if c != 0:
                    errors.append("%s: native run of a path disagrees with the engine (status %d): %s\n%s" % (e["name"], c, log[-1500:], open(f).read()[:1500]))
                else:
                    validated += 1
                    if len(samples) < 6 and fs.index(f) < 2:
                        samples.append({"entry": e["name"], "inputs": [l.strip() for l in open(f) if l.split(" ")[0] in ("v", "uf", "sched")][:40], "observed": [l.strip() for l in open(f) if l.startswith("o ")][:40]})
    cross = None
    if tier == "thorough" and not violations and not errors:
        cross = crosscheck(wd, errors)
    dem = sh(["c++filt"], input="\n".join(sorted(fns))).stdout.split("\n")
    lag = sorted(set(re.sub(r"\s+", " ", d)[:200] for d in dem if "lager::" in d))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot.get("paths", 0) + tot.get("infeasible", 0) + tot.get("pruned", 0) + tot.get("forks", 0),
            "transitions": tot.get("instr", 0),
            "traces_validated_against_impl": validated,
            "samples": samples,
            "exhaustive": not errors and not nviol,
            "paths_completed": tot.get("paths", 0), "paths_infeasible": tot.get("infeasible", 0), "schedules_pruned_by_por": tot.get("pruned", 0),
            "assertions_checked": tot.get("asserts", 0), "assertions_decided_by_solver": tot.get("asserts_proved", 0),
            "solver_queries": tot.get("queries", 0), "solver_calls": tot.get("z3calls", 0), "solver_sat": tot.get("z3sat", 0), "solver_unsat": tot.get("z3unsat", 0), "solver_time_s": round(tot.get("z3time", 0), 2),
            "max_rss_mb_per_worker": maxrss,
            "known_findings_seen": findings,
            "bounds": h["bounds"], "outside_bounds": h["outside"], "stubs": h["stub"],
            "entries": perentry, "reachability_witnesses": reached, "assertions": asserts,
            "functions_encoded_total": len(fns), "functions_encoded_lager": len(lag), "functions_encoded_lager_names": lag[:400],
        },
        "assumptions": h["assume"] + ["LLVM 18 front end (clang -O1) translates the sources faithfully; Z3 4.8 answers are right; memory model sequentially consistent; runtime library models in engine/rt.cpp"],
        "wall_s": round(time.time() - t0, 2), "violations": nviol,
    }
    if cross is not None:
        ev["coverage"]["solver_crosscheck"] = cross
    if errors:
        ev["coverage"]["errors"] = [x[:500] for x in errors[:10]]
    with open(evf, "w") as f:
        json.dump(ev, f, indent=1)
    if nviol:
        return 1
    if errors:
        for x in errors[:6]:
            print("error: " + x[:3000])
        return 2
    print("  held on all %d paths; %d native replays agree" % (tot.get("paths", 0), validated))
    return 0


def crosscheck(wd, errors):
    n = {"queries": 0, "agree": 0}
    for f in sorted(glob.glob(os.path.join(wd, "*.q", "*.smt2"))):
        exp = f.rsplit(".", 2)[1]
        for s in (["z3-new", "-T:20", f], ["cvc5", "--tlimit=20000", f]):
            r = sh(s).stdout.strip().split("\n")[0]
            if r in ("sat", "unsat"):
                n["queries"] += 1
                if r == exp:
                    n["agree"] += 1
                else:
                    errors.append("solver disagreement on a dumped query: %s says %s, engine %s" % (s[0], r, exp))
    return n


def quote(x):
    return "'" + x.replace("'", "'\\''") + "'"


if __name__ == "__main__":
    sys.exit(main())

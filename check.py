#!/usr/bin/env python3
"""check.py C07            decide one property (tier: VERIF_TIER, seed: VERIF_SEED)
   check.py --replay FILE  run a replay file against /repo
   check.py --setup        check that the tools are there

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.  Exit 2: no answer.
"""
import fcntl, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
T0 = time.time()
COMPILERS = [c for c in os.environ.get("VERIF_CXX", "clang++ g++").split() if shutil.which(c)]
JOBS = max(2, min(8, os.cpu_count() or 8))

BASIC, TIMED, STDOPT = [0, 1, 2], [3, 4, 5], [6, 7, 8]
ALL = BASIC + TIMED + [9, 10]
# worlds, cases per quick run, cases per thorough run, fuzzing seconds of a thorough run
PROPS = {
    "C01": (ALL, 60000, 1500000, 120), "C02": (ALL, 60000, 1500000, 120), "C03": (ALL, 60000, 1500000, 120),
    "C04": (ALL, 60000, 1500000, 120), "C05": (ALL, 60000, 1500000, 120), "C06": (ALL, 60000, 1500000, 120),
    "C07": (ALL, 60000, 1500000, 120), "C08": (ALL, 60000, 1500000, 120), "C09": (ALL, 60000, 1500000, 120),
    "C10": (ALL, 60000, 1500000, 120), "C11": (ALL, 16000, 400000, 120), "C12": (ALL, 60000, 1500000, 120),
    "C13": (ALL, 60000, 1500000, 120), "C14": (ALL, 60000, 1500000, 120), "C15": (TIMED + [10], 60000, 1500000, 120),
    "C16": (TIMED + [10], 60000, 1500000, 120), "C17": (BASIC + TIMED, 50000, 1200000, 120),
    "C18": ("wrap0", 60000, 1500000, 120), "C19": ("wrap1", 60000, 1500000, 120),
    "C20": ([0, 2, 3, 5], 50000, 1200000, 120), "C21": ([1, 2, 4, 5], 30000, 900000, 120),
    "C22": (BASIC + TIMED, 60000, 1500000, 120), "C23": ([1, 2, 4, 5], 60000, 1500000, 120),
    "C24": ([2, 5], 6000, 150000, 60), "C25": ([0, 1, 4] + STDOPT, 50000, 1200000, 120),
    "C26": (ALL, 60000, 1500000, 120),
}
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
COMMON = ["clang++", "-std=c++17", "-g1", "-w", "-include", "prelude.hpp", "-D_GLIBCXX_ASSERTIONS"]


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for root in paths:
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:20]


def units(what, opt, fuzz, work=False):
    """(object name, command) of every translation unit."""
    us = []
    lib = ["-I" + os.path.join(REPO, "include"), "-I."] + SAN + [opt]
    cov = ["-fsanitize=fuzzer-no-link"] if fuzz else []
    if isinstance(what, str):
        t = what[-1]
        for p in range(4):
            us.append(("wrap%s_%d.o" % (t, p), COMMON + lib + cov + ["-DWRAP_TIMED=" + t, "-DWRAP_PART=%d" % p, "-c", "wrap_part.cpp"]))
    else:
        for w in sorted(what, key=lambda w: (w not in (2, 5, 8), w)):
            d = ["-DSTD_OPT", "-DLRU=LRU_std"] if w in STDOPT else []
            if work:
                d = d + ["-finstrument-functions"]
            us.append(("world%d.o" % w, COMMON + lib + cov + d + ["-DWORLD=%d" % w, "-c", "world.cpp"]))
    for m in ["engine", "model", "gen", "main"] + (["wrap"] if isinstance(what, str) else []) + (["fuzz"] if fuzz else []):
        d = ["-DVF_FUZZ"] if fuzz else []
        us.append((m + ".o", COMMON + ["-I.", "-fsanitize=address", "-O1"] + d + ["-c", m + ".cpp"]))
    return us


def build(what, opt, fuzz=False, work=False):
    """Returns (binary, error text).  With a binary and an error text, some worlds are missing from it."""
    os.makedirs(BUILD, exist_ok=True)
    key = digest([os.path.join(REPO, "include"), HARNESS], repr((what, opt, fuzz, work, COMPILERS)))
    out = os.path.join(BUILD, key)
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = os.path.join(out, "harness")
        part = os.path.join(out, "missing.txt")
        if os.path.exists(exe):
            return exe, open(part).read() if os.path.exists(part) else ""
        err = None
        # The second compiler is for trees the first one cannot build, in part or at all.
        for cc in ["clang++"] if fuzz else COMPILERS:
            full, e = build_with(cc, units(what, opt, fuzz, work), out, exe + "." + cc, fuzz)
            err = e if err is None else err
            if full:
                os.rename(exe + "." + cc, exe)
                return exe, ""
        for cc in COMPILERS:
            if os.path.exists(exe + "." + cc):
                os.rename(exe + "." + cc, exe)
                with open(part, "w") as f:
                    f.write(err)
                return exe, err
        return None, err


def build_with(cc, us, out, exe, fuzz):
    """Returns (is everything in it, error text); the binary is there if at least one world is in it."""
    def comp(u):
        r = subprocess.run([cc] + u[1][1:] + ["-o", os.path.join(out, u[0])], cwd=HARNESS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return r.returncode, r.stdout.decode(errors="replace")
    with ThreadPoolExecutor(JOBS) as ex:
        rs = list(ex.map(comp, us))
    err = "".join("%s: %s" % (u[0], r[1]) for u, r in zip(us, rs) if r[0])
    objs = [os.path.join(out, u[0]) for u, r in zip(us, rs) if not r[0]]
    subject = re.compile(r"(world|wrap[01]_)\d\.o$")
    ok = not any(r[0] and not subject.match(u[0]) for u, r in zip(us, rs)) and any(subject.search(g) for g in objs)
    if ok:
        r = subprocess.run([cc, "-fsanitize=address,undefined" + (",fuzzer" if fuzz else "")] + objs + ["-o", exe + ".tmp"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            err, ok = err + r.stdout.decode(errors="replace"), False
        else:
            os.rename(exe + ".tmp", exe)
    for o in objs:
        os.unlink(o)
    return ok and not err, err


def prune():
    """Keep the newest few build directories."""
    try:
        ds = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if re.fullmatch("[0-9a-f]{20}", d)), key=os.path.getmtime)
        for d in ds[:-24]:
            if time.time() - os.path.getmtime(d) > 3600:
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def compiles(text, extra=()):
    """With either compiler; the text is the first one's."""
    first = None
    for cc in COMPILERS:
        good, o = compiles_with(cc, text, extra)
        if good:
            return True, o
        first = o if first is None else first
    return False, first


def compiles_with(cc, text, extra):
    r = subprocess.run([cc, "-std=c++17", "-w", "-fsyntax-only", "-I" + os.path.join(REPO, "include"), "-I" + HARNESS] + list(extra) + ["-x", "c++", "-"],
                       input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode == 0, r.stdout.decode(errors="replace")


def run_cmd(cmd, timeout, env=None, out=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=out or subprocess.PIPE, stderr=subprocess.STDOUT, env=e, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, (o or b"").decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, _ = p.communicate()
        return -999, (o or b"").decode(errors="replace")


def known_findings(prop):
    """(scenario hash or text, description) of the open findings."""
    ks = []
    try:
        for l in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
            m = re.match(r"known: property=(\S+) replay=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                ks.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return ks


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.what, quick, thorough, self.fuzz_s = PROPS[prop]
        self.cases = quick if self.tier == "quick" else thorough
        scale = float(os.environ.get("VERIF_SCALE", "1"))
        self.cases = int(self.cases * scale)
        self.limit = 240 if self.tier == "quick" else 3600
        self.work = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        os.makedirs(EVID, exist_ok=True)
        self.cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []}
        self.violations = []
        self.notes = []

    # ---------------------------------------------------------------- parts
    def random_search(self, exe):
        chunk = 250 if self.tier == "quick" else 2000
        chunk = min(chunk, max(20, self.cases // (JOBS * 4)))
        starts = list(range(0, self.cases, chunk))
        deadline = time.time() + self.limit
        total = dict(evaluations=0, nontrivial=0, steps=0, offtarget=0)
        feats, hashes, samples, rule = {}, set(), [], ""
        failures = []
        stop = []

        def one(st):
            if stop or time.time() > deadline:
                return None
            n = min(chunk, self.cases - st)
            b = os.path.join(self.work, "c%d" % st)
            rc, o = run_cmd([exe, "run", self.prop, str(self.seed), str(st), str(n), b + ".cur", b + ".json", b + ".hash"], 900)
            if rc != 0:
                stop.append(1)
            return st, n, rc, o
        with ThreadPoolExecutor(JOBS) as ex:
            for r in ex.map(one, starts):
                if r is None:
                    continue
                st, n, rc, o = r
                b = os.path.join(self.work, "c%d" % st)
                d = None
                try:
                    d = json.load(open(b + ".json"))
                except (OSError, ValueError):
                    pass
                if d:
                    for k in total:
                        total[k] += d[k]
                    for k, v in d["features"].items():
                        f = feats.setdefault(k, [0, 0])
                        f[0] += v[0]
                        f[1] += v[1]
                    rule = d["rule"]
                    if len(samples) < 3:
                        samples += d["samples"][:1]
                    raw = open(b + ".hash", "rb").read()
                    hashes.update(struct.unpack("%dQ" % (len(raw) // 8), raw))
                if rc == 3:
                    raise RuntimeError("harness error: " + o)
                if rc == 1 and d:
                    failures.append((st, d["scenario"], d["failure"], n))
                elif rc != 0:
                    cur = ""
                    try:
                        cur = open(b + ".cur", "rb").read().split(b"\0")[0].decode()
                    except OSError:
                        pass
                    failures.append((st, cur, "ended with status %d: %s" % (rc, tail(o)), n))
                for x in (".cur", ".json", ".hash"):
                    try:
                        os.unlink(b + x)
                    except OSError:
                        pass
        self.cov["evaluations"] += total["evaluations"]
        self.cov["distinct_nontrivial"] += len(hashes)
        self.cov["rule"] = rule
        self.cov["samples"] += samples
        self.cov["nontrivial_cases"] = total["nontrivial"]
        self.cov["operations"] = total["steps"]
        self.cov["mismatches_of_other_properties"] = total["offtarget"]
        self.cov["features_occurrences_and_cases"] = feats
        self.cov["cases_planned"] = self.cases
        return sorted(failures)

    def fuzz(self, exe, seconds):
        """libFuzzer over the byte encoding of scenarios."""
        d = os.path.join(self.work, "fuzz")
        os.makedirs(d, exist_ok=True)
        logs = []

        def one(i):
            c = os.path.join(d, "corpus%d" % (i % 2))
            os.makedirs(c, exist_ok=True)
            rc, o = run_cmd([exe, "-seed=%d" % (self.seed * 100 + i), "-max_total_time=%d" % seconds, "-max_len=900", "-timeout=0", "-rss_limit_mb=2500",
                             "-len_control=20", "-reload=1", "-print_final_stats=1", "-artifact_prefix=" + os.path.join(d, "a%d-" % i), c], seconds + 200,
                            {"VF_PROP": self.prop, "VF_SCENARIO": os.path.join(d, "s%d.txt" % i)})
            return i, rc, o
        fails, execs, ft = [], 0, 0
        with ThreadPoolExecutor(JOBS) as ex:
            for i, rc, o in ex.map(one, range(JOBS)):
                m = re.search(r"stat::number_of_executed_units:\s*(\d+)", o)
                if m:
                    execs += int(m.group(1))
                m = re.findall(r" ft: (\d+)", o)
                if m:
                    ft = max(ft, int(m[-1]))
                s = os.path.join(d, "s%d.txt" % i)
                if rc not in (0, -999):
                    txt = open(s, "rb").read().split(b"\0")[0].decode() if os.path.exists(s) else ""
                    fails.append((i, txt, "fuzzing ended with status %d: %s" % (rc, tail(o)), 0))
        self.cov["fuzz_executions"] = execs
        self.cov["fuzz_coverage_features"] = ft
        self.cov["evaluations"] += execs
        return fails

    def confirm(self, exe, fail, idx):
        """Shrinks and replays a failure.  True if it is a violation."""
        st, scenario, msg, n = fail
        rp = os.path.join(EVID, "%s.replay%s.txt" % (self.prop, "" if idx == 0 else str(idx)))
        src = os.path.join(self.work, "fail.txt")
        open(src, "w").write(scenario)
        ok = False
        if scenario.strip():
            rc, _ = run_cmd([exe, "replay", src], 120, {"VF_TARGET": self.prop})
            if rc not in (0, 3):
                small = os.path.join(self.work, "small.txt")
                run_cmd([exe, "shrink", src, small, "30"], 200, {"VF_TARGET": self.prop})
                best = src
                if os.path.exists(small):
                    rc, _ = run_cmd([exe, "replay", small], 120, {"VF_TARGET": self.prop})
                    if rc not in (0, 3):
                        best = small
                runs = [run_cmd([exe, "replay", best, "-v"], 120, {"VF_TARGET": self.prop}) for _ in range(3)]
                bad = [r for r in runs if r[0] not in (0, 3)]
                if bad:
                    ok = True
                    body = open(best).read()
                    open(rp, "w").write(body)
                    log("replay (%d of 3 runs fail):" % len(bad))
                    print(cut(bad[0][1]))
        if not ok and n:
            # something that builds up over several cases
            b = os.path.join(self.work, "again")
            rc, o = run_cmd([exe, "run", self.prop, str(self.seed), str(st), str(n), b + ".cur", b + ".json", b + ".hash"], 900)
            if rc != 0:
                ok = True
                open(rp, "w").write("# run %s %d %d %d\n# %s\n%s" % (self.prop, self.seed, st, n, msg.replace("\n", "\n# "), scenario))
                log(cut(o))
        if not ok:
            self.notes.append("not reproducible, ignored: " + msg[:400])
            log("not reproducible:", cut(msg))
            return False
        self.violations.append(rp)
        log(cut(msg))
        return True

    def broken_build(self, err):
        """The harness does not compile with this tree: is it this property's part of the interface?"""
        base, o = compiles("#include <lru/lru.hpp>\nint main(){LRU::Cache<int,int> c(2); c.insert(1,2); return c.lookup(1);}")
        if not base:
            log("the library does not compile\n" + cut(o))
            return 2
        n = int(self.prop[1:])
        probe = open(os.path.join(HARNESS, "probe.cpp")).read()
        modes = [["-include", "prelude.hpp"]] if n != 25 else [["-include", "prelude.hpp"], ["-DSTD_OPT", "-include", "prelude.hpp"]]
        for m in modes:
            good, o = compiles("#define PROBE %d\n" % n + probe, m)
            if not good:
                rp = os.path.join(EVID, "%s.replay.cpp" % self.prop)
                open(rp, "w").write("// clang++ -std=c++17 -fsyntax-only -I/repo/include -Iharness %s\n#define PROBE %d\n%s" % (" ".join(m), n, probe))
                log("a program that only uses what the property is about no longer compiles\n" + cut(o))
                self.violations.append(rp)
                self.cov.update(evaluations=1, distinct_nontrivial=0, rule="compilation of the property's part of the interface", samples=[probe[:2000]])
                self.evidence()
                self.report()
                return 1
        log("the harness does not compile with this tree\n" + cut(err))
        return 2

    def evidence(self):
        e = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": self.cov,
             "assumptions": ["clang++ -std=c++17, libstdc++, ASan and UBSan; one thread; virtual clock"],
             "wall_s": round(time.time() - T0, 1), "violations": len(self.violations)}
        if self.notes:
            e["assumptions"] += self.notes
        p = os.path.join(EVID, self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(e, f, indent=1)
        os.rename(p + ".tmp", p)

    def report(self):
        for v in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, v), flush=True)

    def go(self):
        for f in os.listdir(EVID):
            if f.startswith(self.prop + ".replay"):
                os.unlink(os.path.join(EVID, f))
        opt = "-O0" if self.tier == "quick" else "-O1"
        exe, err = build(self.what, opt, False, self.prop == "C24")
        if not exe:
            return self.broken_build(err)
        missing = err
        self.cov["compiler"] = "g++" if b"GCC: (" in open(exe, "rb").read() and not b"clang version" in open(exe, "rb").read() else "clang++"
        log("built" + (" in part: " + ", ".join(re.findall(r"^(\w+)\.o: ", err, re.M)) + " missing" if missing else ""))
        status = 0
        known = []
        for path, what in known_findings(self.prop):
            rc, _ = run_cmd([exe, "replay", os.path.join(HERE, path)], 120, {"VF_TARGET": self.prop})
            if rc not in (0, 3):
                print("KNOWN-FINDING: property=%s %s" % (self.prop, what), flush=True)
                known.append(what)
        fails = self.random_search(exe)
        log("%d cases, %d distinct and non-trivial, %d operations" % (self.cov["evaluations"], self.cov["distinct_nontrivial"], self.cov["operations"]))
        done = False
        for i, f in enumerate(fails[:3]):
            if self.confirm(exe, f, i):
                done = True
                break
        if missing and not done:
            return self.broken_build(missing)
        if not done and self.tier == "thorough" and self.fuzz_s:
            fexe, err = build(self.what, opt, True, self.prop == "C24")
            if not fexe:
                log("fuzzer build failed\n" + cut(err))
                return 2
            fails2 = self.fuzz(fexe, self.fuzz_s)
            log("%d executions of the fuzzer" % self.cov["fuzz_executions"])
            for i, f in enumerate(fails2[:3]):
                if self.confirm(exe, f, i):
                    done = True
                    break
        self.evidence()
        self.report()
        if done:
            status = 1
        elif self.cov["evaluations"] == 0 or self.cov["distinct_nontrivial"] == 0:
            log("nothing was explored")
            status = 2
        return status


def tail(s):
    ls = [l for l in s.splitlines() if l.strip()]
    key = [l for l in ls if re.search(r"ERROR: |runtime error|Assertion|terminate called|SUMMARY", l)]
    return " | ".join((key or ls[-3:])[:3])[:600]


def cut(s, n=6000):
    return s if len(s) <= n else s[:n // 2] + "\n...\n" + s[-n // 2:]


def replay(path):
    text = open(path).read()
    if path.endswith(".cpp"):
        m = [["-include", "prelude.hpp"], ["-DSTD_OPT", "-include", "prelude.hpp"]]
        for x in m:
            good, o = compiles(text, x)
            if not good:
                print(o)
                return 1
        return 0
    m = re.search(r"\bC\d\d\b", text)
    prop = os.environ.get("VF_TARGET") or m.group(0)
    exe, err = build(PROPS[prop][0], "-O0", False, prop == "C24")
    if not exe:
        print(err)
        return 2
    m = re.match(r"# run (C\d\d) (\d+) (\d+) (\d+)", text)
    if m:
        w = os.path.join(BUILD, "replay-%d" % os.getpid())
        rc, o = run_cmd([exe, "run"] + list(m.groups()) + [w + ".cur", w + ".json", w + ".hash"], 900)
    else:
        rc, o = run_cmd([exe, "replay", path, "-v"], 300)
    print(o)
    return 0 if rc == 0 else 1


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        for t in ("clang++",):
            if not shutil.which(t):
                print(t + " is missing")
                return 2
        ok, o = compiles("#include <lru/lru.hpp>\nint main(){}")
        print("ready" if ok else o)
        return 0
    if len(a) == 2 and a[0] == "--replay":
        return replay(a[1])
    if len(a) != 1 or a[0] not in PROPS:
        print(__doc__)
        return 2
    c = Check(a[0])
    try:
        return c.go()
    except Exception as e:
        log("no answer:", repr(e))
        return 2
    finally:
        shutil.rmtree(c.work, ignore_errors=True)
        prune()


if __name__ == "__main__":
    sys.exit(main())

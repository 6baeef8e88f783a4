#!/usr/bin/env python3
"""Solver-based check of one property against the current /repo tree.

usage: check.py PROPERTY [quick|thorough]
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import string
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.join(REPO, "src")
LLVM = "/usr/lib/llvm-18"
CLANG = LLVM + "/bin/clang++"
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
ENG = os.path.join(HERE, "engine")
HAR = os.path.join(HERE, "harness")
JOBS = os.cpu_count() or 8
OPT = ["-O1", "-w", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
       "-ffp-contract=off", "-fno-omit-frame-pointer", "-fPIC"]


class BuildError(Exception):
    pass


def run(cmd, env=None, timeout=600, cwd=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=env, timeout=timeout, cwd=cwd)
    return p.returncode, p.stdout.decode(errors="replace")


def must(cmd, env=None):
    rc, out = run(cmd, env)
    if rc:
        raise BuildError(" ".join(cmd) + "\n" + out[-4000:])


def version_header(bdir):
    """version.hpp is generated and untracked: make one when it is missing."""
    inc = os.path.join(bdir, "inc")
    os.makedirs(os.path.join(inc, "diffpy"), exist_ok=True)
    if not os.path.exists(os.path.join(SRC, "diffpy/version.hpp")):
        tpl = open(os.path.join(SRC, "diffpy/version.tpl")).read()
        txt = string.Template(tpl).safe_substitute(
            DIFFPY_VERSION="1004001001LL", DIFFPY_VERSION_MAJOR=1,
            DIFFPY_VERSION_MINOR=4, DIFFPY_VERSION_MICRO=1,
            DIFFPY_VERSION_PATCH=1, DIFFPY_VERSION_STR="1.4.1",
            DIFFPY_VERSION_DATE="unknown", DIFFPY_GIT_SHA="unknown")
        open(os.path.join(inc, "diffpy/version.hpp"), "w").write(txt)
    return inc


def repo_sources():
    out = []
    for d, sub, files in os.walk(os.path.join(SRC, "diffpy")):
        sub[:] = [s for s in sub if s != "tests"]
        out += [os.path.join(d, f) for f in files if f.endswith(".cpp")]
    return sorted(out)


class Builder:
    def __init__(self, bdir):
        self.b = bdir
        self.inc = version_header(bdir)
        self.pool = cf.ThreadPoolExecutor(JOBS)
        self.plugin = os.path.join(bdir, "vppass.so")
        self.incs = ["-I" + SRC, "-I" + self.inc, "-I" + ENG, "-I" + HAR]

    def engine(self):
        cxx = subprocess.check_output([LLVM + "/bin/llvm-config", "--cxxflags"]).decode().split()
        cxx = [c for c in cxx if not c.startswith("-std")]
        f1 = self.pool.submit(must, [CLANG, "-O1", "-w", "-fPIC", "-shared"] + cxx +
                              ["-std=c++17", "-fno-rtti", ENG + "/vppass.cpp", "-o", self.plugin])
        f2 = self.pool.submit(must, [CLANG, "-std=c++17", "-O1", "-ffp-model=strict", "-w", "-fPIC", "-I" + Z3 + "/include",
                                     "-c", ENG + "/vprt.cpp", "-o", self.b + "/vprt.o"])
        f1.result()
        return f2

    def pch(self):
        """Precompiled library headers, only to parse them once."""
        hdr = os.path.join(ENG, "pch.hpp")
        jobs = [(["-include-pch", self.b + "/pch_sym.pch"], [CLANG, "-std=c++11"] + OPT + ["-x", "c++-header", hdr, "-o", self.b + "/pch_sym.pch"]),
                (["-include", self.b + "/pch_nat.hpp"], ["g++", "-std=c++11", "-w", "-fPIC", "-x", "c++-header", hdr, "-o", self.b + "/pch_nat.hpp.gch"])]
        shutil.copy(hdr, self.b + "/pch_nat.hpp")
        self.psym, self.pnat = [], []
        def one(flags, cmd):
            try:
                must(cmd)
                return flags
            except BuildError:
                return []
        a, b = [self.pool.submit(one, f, c) for f, c in jobs]
        self.psym, self.pnat = a.result(), b

    def symcc(self, src, obj, defs=(), ints=False):
        env = dict(os.environ, VP_INTS="1" if ints else "0")
        must([CLANG, "-std=c++11"] + OPT + list(defs) + getattr(self, "psym", []) +
             ["-fpass-plugin=" + self.plugin] + self.incs + ["-c", src, "-o", obj], env)

    def symbolic(self, harnesses):
        """harnesses: list of dicts; those with ir=True are interpreted bit-precisely"""
        irh = [h for h in harnesses if h.get("ir")]
        irf = [self.pool.submit(self.irsym)] if irh else []
        irf += self.irmodules(irh)
        for f in irf:
            f.result()
        harnesses = [h for h in harnesses if not h.get("ir")]
        if not harnesses:
            return
        frt = self.engine()
        self.pch()
        intsmode = any(h.get("ints") for h in harnesses)
        fmode = any(not h.get("ints") for h in harnesses)
        objs = {False: [], True: []}
        futs = []
        for ints in ([False] if fmode else []) + ([True] if intsmode else []):
            srcs = repo_sources()
            if ints:
                want = set()
                for h in harnesses:
                    if h.get("ints"):
                        want.update(h.get("sources", ["*"]))
                if "*" not in want:
                    srcs = [s for s in srcs if any(os.path.relpath(s, SRC).startswith(w) or w == "*" for w in want)]
            for s in srcs:
                o = os.path.join(self.b, "%s_%d.o" % (os.path.relpath(s, SRC).replace("/", "_"), ints))
                objs[ints].append(o)
                futs.append(self.pool.submit(self.symcc, s, o, (), ints))
            o = os.path.join(self.b, "models_%d.o" % ints)
            objs[ints].append(o)
            futs.append(self.pool.submit(self.symcc, HAR + "/models.cpp", o, (), ints))
        for h in harnesses:
            h["obj"] = os.path.join(self.b, h["name"] + ".o")
            futs.append(self.pool.submit(self.symcc, os.path.join(HAR, h["src"]), h["obj"],
                                         ["-D" + d for d in h.get("defs", [])], bool(h.get("ints"))))
        for f in futs + [frt]:
            f.result()
        libs = {}
        for ints in objs:
            if objs[ints]:
                lib = os.path.join(self.b, "libsym%d.a" % ints)
                must([LLVM + "/bin/llvm-ar", "rcs", lib] + objs[ints])
                libs[ints] = objs[ints]
        futs = []
        for h in harnesses:
            h["exe"] = os.path.join(self.b, h["name"])
            futs.append(self.pool.submit(
                must, [CLANG, h["obj"], self.b + "/vprt.o"] + libs[bool(h.get("ints"))] +
                ["-o", h["exe"], "-rdynamic", "-L" + Z3 + "/lib", "-lz3", "-Wl,-rpath," + Z3 + "/lib",
                 "-lboost_serialization", "-lgsl", "-lgslcblas", "-lObjCryst", "-ldl", "-lm"]))
        for f in futs:
            f.result()

    def irsym(self):
        """The bit-precise interpreter."""
        cxx = subprocess.check_output([LLVM + "/bin/llvm-config", "--cxxflags"]).decode().split()
        cxx = [c for c in cxx if not c.startswith("-std") and c != "-fno-exceptions"]
        must([CLANG, "-O1", "-w", "-I" + Z3 + "/include"] + cxx + ["-std=c++17", "-fexceptions", ENG + "/irsym.cpp", "-o", self.b + "/irsym",
              "-L" + LLVM + "/lib", "-lLLVM-18", "-L" + Z3 + "/lib", "-lz3", "-Wl,-rpath," + Z3 + "/lib", "-Wl,-rpath," + LLVM + "/lib"])

    def ircc(self, src, out, defs=()):
        must([CLANG, "-std=c++11"] + [o for o in OPT if o != "-fno-omit-frame-pointer"] + list(defs) + self.incs + ["-emit-llvm", "-c", src, "-o", out])

    def irmodules(self, harnesses):
        """One module of LLVM IR per harness: the harness, the sources it names, and others they need."""
        if not harnesses:
            return []
        allsrc = repo_sources()
        bc = {s: os.path.join(self.b, "ir_%s.bc" % os.path.relpath(s, SRC).replace("/", "_")) for s in allsrc}
        bc[ENG + "/strinst.cpp"] = self.b + "/ir_strinst.bc"
        named = {s for h in harnesses for s in allsrc if os.path.relpath(s, SRC) in h["sources"]}
        futs = [self.pool.submit(self.ircc, s, bc[s]) for s in sorted(named) + [ENG + "/strinst.cpp"]]
        for h in harnesses:
            h["bc"] = os.path.join(self.b, "ir_h_%s.bc" % h["name"])
            futs.append(self.pool.submit(self.ircc, os.path.join(HAR, h["src"]), h["bc"], ["-D" + d for d in h.get("defs", [])]))
        for f in futs:
            f.result()
        done = set(named)
        for h in harnesses:
            h["mod"] = os.path.join(self.b, h["name"] + ".bc")
            use = [s for s in sorted(named) if os.path.relpath(s, SRC) in h["sources"]]
            must([LLVM + "/bin/llvm-link", h["bc"], bc[ENG + "/strinst.cpp"]] + [bc[s] for s in use] + ["-o", h["mod"]])
            und = subprocess.check_output([LLVM + "/bin/llvm-nm", "-u", "-C", h["mod"]]).decode()
            if "diffpy::" in und:
                rest = [s for s in allsrc if s not in done]
                for f in [self.pool.submit(self.ircc, s, bc[s]) for s in rest]:
                    f.result()
                done.update(allsrc)
                must([LLVM + "/bin/llvm-link", "--only-needed", h["mod"]] + [bc[s] for s in allsrc if s not in use] + ["-o", h["mod"] + "2"])
                os.rename(h["mod"] + "2", h["mod"])
        return []

    def native_lib(self):
        """The library as the plain g++ build has it (for replays), at low priority."""
        self.natobjs = []
        self.natsrc = {}
        futs = []
        pnat = self.pnat.result() if hasattr(self, "pnat") else []
        nat = ["nice", "-n", "10", "g++", "-std=c++11", "-w", "-fPIC"]
        for s in repo_sources():
            o = os.path.join(self.b, "nat_" + os.path.relpath(s, SRC).replace("/", "_") + ".o")
            self.natobjs.append(o)
            self.natsrc[os.path.relpath(s, SRC)] = o
            if not os.path.exists(o):
                futs.append(self.pool.submit(must, nat + pnat + self.incs + ["-c", s, "-o", o]))
        no = os.path.join(self.b, "vpnative.o")
        futs.append(self.pool.submit(must, nat + ["-I" + ENG, "-c", ENG + "/vpnative.cpp", "-o", no]))
        self.natfuts = futs

    def native(self, h):
        """The replay executable: the same harness over the plain g++ build."""
        exe = os.path.join(self.b, "nat_" + h["name"])
        if os.path.exists(exe):
            return exe
        ho = os.path.join(self.b, "nat_h_" + h["name"] + ".o")
        # misuse of memory and overflow show in a bit-precise replay as well
        san = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"] if h.get("ir") else []
        cc = ["g++", "-std=c++11", "-g", "-w", "-fPIC", "-DVP_NATIVE"] + san + ["-D" + d for d in h.get("defs", [])] + self.incs
        futs = [self.pool.submit(must, cc + ["-c", os.path.join(HAR, h["src"]), "-o", ho])]
        objs = list(self.natobjs)
        for s in h.get("sources", []) if h.get("ir") else []:
            if s in self.natsrc:
                o = ho + "_" + os.path.basename(s) + ".o"
                objs[objs.index(self.natsrc[s])] = o
                futs.append(self.pool.submit(must, cc + ["-c", os.path.join(SRC, s), "-o", o]))
        for f in self.natfuts + futs:
            f.result()
        must(["g++"] + san + [ho, self.b + "/vpnative.o"] + objs +
             ["-o", exe, "-rdynamic", "-lboost_serialization", "-lgsl", "-lgslcblas", "-lObjCryst", "-ldl", "-lm"])
        return exe

    def replay(self, exe, rp):
        try:
            return run(["timeout", "120", exe, rp], env=replay_env(), timeout=150)
        except subprocess.TimeoutExpired:
            return 124, "timeout"


def replay_env():
    e = dict(os.environ)
    e["DIFFPYRUNTIME"] = os.path.join(SRC, "runtime")
    e["ASAN_OPTIONS"] = "exitcode=3:detect_leaks=0"
    e["UBSAN_OPTIONS"] = "exitcode=3:print_stacktrace=0"
    return e


def load_known(prop):
    """Known findings: lines 'finding: property=<id> key=<regex> <what>'."""
    out = []
    fn = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(fn):
        for line in open(fn):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from registry import PROPS
    P = PROPS[prop]
    t0 = time.time()
    bdir = tempfile.mkdtemp(prefix="vp_%s_" % prop)
    code = 2
    try:
        code = check(prop, P, tier, seed, bdir, t0)
    except BuildError as e:
        print("BUILD-ERROR: %s" % e)
        code = 2
    finally:
        if not os.environ.get("VP_KEEP"):
            shutil.rmtree(bdir, ignore_errors=True)
        else:
            print("kept", bdir)
    sys.exit(code)


def check(prop, P, tier, seed, bdir, t0):
    B = Builder(bdir)
    harnesses = []
    for h in P["harnesses"]:
        h = dict(h)
        if h.get("tier", "quick") == "thorough" and tier != "thorough":
            continue
        h["defs"] = list(h.get("defs", []))
        if tier == "thorough":
            h["defs"] += ["VP_THOROUGH=1"]
        only = os.environ.get("VP_ONLY")
        if only and only != h["name"]:
            continue
        harnesses.append(h)
    B.symbolic(harnesses)
    tbuild = time.time() - t0
    B.native_lib()
    evdir = os.path.join(HERE, "evidence")
    rpdir = os.path.join(evdir, "replays")
    os.makedirs(rpdir, exist_ok=True)
    for f in glob.glob(os.path.join(rpdir, prop + "_*")):
        os.unlink(f)
    known = load_known(prop)
    total = dict(paths=0, killed=0, forks=0, queries=0, solver_s=0.0, checks_proved=0, trivial=0,
                 fallbacks=0, unknown_branch=0, unknown_check=0, timeouts=0, nerr=0, infeasible=0)
    functions, checks, reach = {}, {}, {}
    executed = set()
    problems, violations, kf_hits, unconfirmed = [], [], [], []
    validated = 0
    samples, divergent = [], []
    hinfo = []
    budget_all = float(os.environ.get("VP_BUDGET", 0)) or P.get("budget", 600 if tier == "quick" else 3000)
    for h in harnesses:
        out = os.path.join(bdir, h["name"] + ".json")
        budget = h.get("budget", budget_all)
        if tier == "quick":
            budget = max(30, min(budget, 820 - (time.time() - t0)))
        env = dict(os.environ, DIFFPYRUNTIME=os.path.join(SRC, "runtime"), VERIF_SEED=str(seed))
        p = subprocess.Popen(([B.b + "/irsym", h["mod"]] if h.get("ir") else [h["exe"]]) + [out, str(budget), str(JOBS)], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        so, _ = p.communicate()
        if os.environ.get("VP_VERBOSE"):
            sys.stdout.write(so.decode(errors="replace")[-20000:])
        try:
            R = json.load(open(out))
        except Exception as e:
            problems.append("%s: no result (%s) %s" % (h["name"], e, so.decode(errors="replace")[-500:]))
            continue
        for k in total:
            total[k] += R.get(k, 0)
        for k, v in R["functions"].items():
            functions[k] = functions.get(k, 0) + v[0]
            if v[1]:
                executed.add(k)
        for k, v in R["checks"].items():
            c = checks.setdefault(h["name"] + ":" + k, [0, 0])
            c[0] += v[0]
            c[1] += v[1]
        for k, v in R["reach"].items():
            reach[h["name"] + ":" + k] = v[0]
        hinfo.append(dict(harness=h["name"], source=h["src"], bounds=h.get("bounds", P.get("bounds", "")), paths=R["paths"],
                          infeasible_or_assumed_away=R["killed"], forks=R["forks"], max_fork_depth=R["maxdepth"],
                          queries=R["queries"], fallback_queries=R["fallbacks"], solver_s=R["solver_s"], wall_s=R["wall_s"]))
        if os.environ.get("VP_VERBOSE"):
            print(json.dumps(hinfo[-1]))
        for e in R["errors"]:
            problems.append("%s: engine: %s" % (h["name"], e))
        if R["timeouts"]:
            problems.append("%s: exploration did not finish in %.0f s" % (h["name"], budget))
        if R["unknown_check"]:
            problems.append("%s: %d solver queries for checks came back unknown" % (h["name"], R["unknown_check"]))
        for w in h.get("reach", []):
            if not R["reach"].get(w, [0])[0] and not R["violations"]:
                problems.append("%s: witness '%s' not reached (vacuous)" % (h["name"], w))
        if not R["violations"] and R["paths"] == 0:
            problems.append("%s: no path completed" % h["name"])
        if R["violations"]:
            exe = B.native(h)
            seen = set()
            for i, v in enumerate(R["violations"]):
                cid = re.match(r"check (.*)", v).group(1)
                if cid in seen:
                    continue
                rp = os.path.join(rpdir, "%s_%s_%d.txt" % (prop, h["name"], i))
                open(rp, "w").write("property %s\nharness %s (%s)\n%s" % (prop, h["name"], h["src"], v))
                rc, o = B.replay(exe, rp)
                ok = rc == 3 or rc in (134, 139, 136, -6, -11, -8)
                if rc == 124 and cid.startswith("crash"):
                    ok = False
                kf = None
                txt = v + "\n" + o
                for key, what in known:
                    if re.search(key, cid + " " + txt.replace("\n", " ; ")):
                        kf = (key, what)
                if ok and kf:
                    kf_hits.append(kf)
                    validated += 1
                    continue
                if ok:
                    validated += 1
                    seen.add(cid)
                    open(rp, "a").write("\n# replay on the native build: exit %d\n# %s\n" % (rc, o.strip().replace("\n", "\n# ")))
                    violations.append((h["name"], cid, rp, o.strip()[:300]))
                else:
                    unconfirmed.append("%s: counterexample to %s did not replay (exit %d: %s)" % (h["name"], cid, rc, o.strip()[-200:]))
        if violations:
            break
        if R.get("samples"):
            samples.append((h, R["samples"]))
    if not violations:
        # the encoding is validated: inputs of completed symbolic paths are run
        # through the native build, where every check must hold as well
        for h, ss in samples:
            exe = B.native(h)
            fs = []
            for i, v in enumerate(ss):
                rp = os.path.join(bdir, "sample_%s_%d.txt" % (h["name"], i))
                open(rp, "w").write(v)
                fs.append(B.pool.submit(B.replay, exe, rp))
            for f, v in zip(fs, ss):
                rc, o = f.result()
                if rc == 0:
                    validated += 1
                elif rc != 5:
                    divergent.append("%s: exit %d %s :: %s" % (h["name"], rc, o.strip()[-200:], v[:600]))
    kf_hits = sorted(set(kf_hits))
    for key, what in kf_hits:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    for hn, cid, rp, o in violations:
        print("violation of check '%s' in %s: %s" % (cid, hn, o))
    if violations:
        print("VIOLATION property=%s replay=%s" % (prop, violations[0][2]))
    problems += unconfirmed if not violations else []
    for p_ in problems:
        print("PROBLEM: " + p_)
    for d in divergent[:5]:
        print("note: native replay of a sample path diverged: " + d[:300].replace("\n", " ; "))
    wall = time.time() - t0
    nrepo = sorted(k for k in functions if "diffpy::" in k and functions[k])
    ev = dict(
        property=prop, tier=tier, seed=seed, level=P.get("level", "model_checking"),
        coverage=dict(
            states=int(total["paths"]), transitions=int(total["forks"] + total["queries"]),
            traces_validated_against_impl=int(validated),
            samples=[hh for hh in hinfo][:20],
            states_meaning="completed symbolic paths (each one an SMT path condition over all inputs within the bounds)",
            transitions_meaning="solver-decided forks plus solver queries",
            checks_discharged=int(total["checks_proved"]), checks_discharged_without_query=int(total["trivial"]),
            solver_queries=int(total["queries"]), solver_seconds=round(total["solver_s"], 3),
            paths_ruled_out=int(total["killed"]), branches_unknown_explored_both_ways=int(total["unknown_branch"]),
            checks_unknown=int(total["unknown_check"]), engine_errors=int(total["nerr"]),
            per_check={k: dict(held=v[0], violated=v[1]) for k, v in sorted(checks.items())},
            witnesses=reach, functions_with_symbolic_operations=nrepo[:400],
            functions_encoded=sorted(executed)[:600], functions_encoded_count=len(executed),
            bounds=P.get("bounds", ""), build_s=round(tbuild, 1), problems=problems,
            known_findings=[w for _, w in kf_hits],
            samples_replayed_meaning="inputs of completed symbolic paths (and of reported counterexamples) replayed on the native build with the same outcome",
            samples_that_diverged=divergent[:10],
            source_hash=hashlib.sha256(b"".join(open(f, "rb").read() for f in repo_sources())).hexdigest()),
        assumptions=P.get("assumptions", []) + COMMON_ASSUMPTIONS,
        wall_s=round(wall, 2), violations=len(violations))
    if P.get("level") == "other":
        ev["coverage"]["explanation"] = P.get("bounds", "")
    with open(os.path.join(evdir, prop + ".json"), "w") as fp:
        json.dump(ev, fp, indent=1)
    print("property=%s tier=%s paths=%d queries=%d checks=%d replayed=%d solver=%.1fs build=%.1fs wall=%.1fs" % (
        prop, tier, total["paths"], total["queries"], total["checks_proved"], validated, total["solver_s"], tbuild, wall))
    if violations:
        return 1
    return 2 if problems else 0


COMMON_ASSUMPTIONS = [
    "symbolic doubles are interpreted over the reals (or IEEE binary64 where the harness says 'fp'); rounding, overflow and signed zero of symbolic values are outside the encoding",
    "clang 18 -O1 IR of /repo's current sources is what is executed; counterexamples are replayed on a g++ build of the same sources",
    "GSL matrix routines are replaced by exact 3x3 models; libstdc++, Boost.Serialization and libm on concrete values run natively",
    "bounds as stated; nothing is claimed outside them",
]

if __name__ == "__main__":
    main()

#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]
Decides one property: extracts the functions under contract from /repo's current source, generates the proof obligations
with Why3, discharges them with SMT solvers, and runs the executable-contract harness against the real code."""
import sys, os, time, json, subprocess, shutil, hashlib, traceback, tempfile, threading, signal, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(ROOT, "specs"))
sys.setrecursionlimit(20000)
from concurrent.futures import ThreadPoolExecutor
import prove

REPO = os.environ.get("GAPP_REPO", "/repo")
T0 = time.time()
CXX = "g++"
CXXFLAGS = ["-std=c++20", "-O1", "-g0", "-w", "-D_GLIBCXX_ASSERTIONS", "-U_FORTIFY_SOURCE", "-I" + REPO + "/src", "-I" + ROOT + "/replay", "-pthread"]


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


class Harness:
    """builds and runs the executable contracts against the real code"""

    def __init__(self, h, work, tier, seed):
        self.h, self.work, self.tier, self.seed = h, work, tier, seed
        self.result = None      # ('ok'|'fail'|'error', text)
        self.stats = {}
        self.th = threading.Thread(target=self.run)
        self.th.start()

    def sh(self, cmd, timeout):
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                             start_new_session=True, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0", UBSAN_OPTIONS="print_stacktrace=0"))
        try:
            out, _ = p.communicate(timeout=timeout)
            return p.returncode, out
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return -999, "timeout"

    def run(self):
        try:
            self.result = self._run()
        except Exception as e:
            self.result = ("error", traceback.format_exc())

    def _run(self):
        h = self.h
        flags = list(CXXFLAGS) + h.get("flags", [])
        if h.get("asan", True):
            flags += ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr"]
        objs = []
        jobs = []
        for s in h["src"]:
            jobs.append((os.path.join(ROOT, "replay", s), "h_" + s.replace("/", "_")))
        if h.get("lib"):
            for d, _, fs in os.walk(os.path.join(REPO, "src")):
                for f in sorted(fs):
                    if f.endswith(".cpp") and os.path.relpath(os.path.join(d, f), REPO) not in h.get("exclude", []):
                        jobs.append((os.path.join(d, f), "l_" + os.path.relpath(os.path.join(d, f), REPO).replace("/", "_")))
        def one(j):
            o = os.path.join(self.work, j[1] + ".o")
            r, out = self.sh([CXX, *flags, "-c", j[0], "-o", o], 420)
            return r, out, o, j[0]
        with ThreadPoolExecutor(6) as ex:
            res = list(ex.map(one, jobs))
        for r, out, o, s in res:
            if r != 0:
                return ("error", "compilation of %s failed:\n%s" % (s, out[-3000:]))
            objs.append(o)
        exe = os.path.join(self.work, "harness")
        r, out = self.sh([CXX, *flags, *objs, "-o", exe, "-latomic"], 200)
        if r != 0:
            return ("error", "link failed:\n" + out[-3000:])
        self.exe = exe
        secs = h.get("secs", 15) if self.tier == "quick" else h.get("secs_thorough", 120)
        cmd = [exe, "--seed", str(self.seed), "--secs", str(secs)] + (["--thorough"] if self.tier != "quick" else [])
        self.cmd = cmd
        r, out = self.sh(cmd, secs * 3 + 120)
        self.out = out
        for ln in out.splitlines():
            if ln.startswith("STATS "):
                self.stats = dict(kv.split("=") for kv in ln[6:].split())
        self.groups = {ln.split()[1]: int(ln.split()[2]) for ln in out.splitlines() if ln.startswith("GROUP ")}
        self.samples = [ln[7:] for ln in out.splitlines() if ln.startswith("SAMPLE ")]
        if r == 0 and out.rstrip().endswith("OK"):
            return ("ok", "")
        fl = [ln for ln in out.splitlines() if ln.startswith("FAIL ")]
        if fl or r != 0:
            return ("fail", "\n".join(fl) + "\n" + out[-4000:] + ("\nexit status %d" % r))
        return ("error", out[-3000:])


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    nohar = "--no-harness" in sys.argv
    noproof = "--no-proof" in sys.argv
    work = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try:
        return decide(prop, tier, seed, work, nohar, noproof)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(prop, tier, seed, work, nohar, noproof):
    mod = importlib.import_module(prop.lower())
    har = Harness(mod.HARNESS, work, tier, seed) if mod.HARNESS and not nohar else None
    R = prove_targets(mod, prop, tier, work) if not noproof else dict(targets=[], goals=[])
    if har:
        har.th.join()
    return report(mod, prop, tier, seed, work, R, har)


def prove_targets(mod, prop, tier, work):
    import target
    from translate import Unsupported
    base = {}
    bf = os.path.join(ROOT, "specs", "locals.json")
    if os.path.exists(bf):
        base = json.load(open(bf))
    targets = []
    texts = []
    for sp in mod.TARGETS:
        t = dict(name=sp["name"], spec=sp, status="?", goals=[], why="", fns=[], models=[])
        targets.append(t)
        try:
            if sp.get("smt"):
                t["text"] = None
                continue
            if sp.get("lemma"):
                t["text"] = "module M\n" + sp["lemma"] + "\nend\n"
                t["vac"] = None
                continue
            s2 = dict(sp)
            if sp["name"] in base.get(prop, {}):
                s2["locals"] = [tuple(x) for x in base[prop][sp["name"]]["locals"]]
            ast = target.get_ast([sp["tu"]])
            t["text"], tr = target.extract(ast, s2)
            t["fns"], t["models"] = list(tr.used_fns), sorted(tr.used_models)
            t["nloops"] = tr.nloop
            t["locals"] = tr.locals_log
            t["vac"] = vacuity_text(target, ast, s2, tr)
        except (Unsupported, RuntimeError, KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError) as e:
            t["status"] = "not-extracted"
            t["why"] = "%s: %s" % (type(e).__name__, e)
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
    log("extracted %d of %d targets" % (sum(1 for t in targets if "text" in t), len(targets)))

    def gen(t):
        if t["status"] == "not-extracted":
            return
        if t["spec"].get("smt"):
            t["goals"] = prove.smt_goals(t["spec"]["smt"], os.path.join(work, t["name"]))
            return
        f = os.path.join(work, t["name"] + ".mlw")
        open(f, "w").write(t["text"])
        try:
            t["goals"] = prove.vcgen(f, f[:-4] + ".vc")
            if not t["goals"]:
                t["status"], t["why"] = "not-extracted", "no obligations generated"
        except RuntimeError as e:
            t["status"], t["why"] = "not-attached", str(e)[-600:]
            return
        if t.get("vac"):
            f = os.path.join(work, t["name"] + "_vac.mlw")
            open(f, "w").write(t["vac"])
            try:
                t["vgoals"] = [g for g in prove.vcgen(f, f[:-4] + ".vc") if "vacuity" in g.expl]
            except RuntimeError as e:
                t["vgoals"] = None
    with ThreadPoolExecutor(prove.NPROC) as ex:
        list(ex.map(gen, targets))
    goals = [g for t in targets for g in t["goals"]]
    log("%d obligations" % len(goals))
    plan = prove.QUICK if tier == "quick" else prove.THOROUGH
    prove.prove_all(goals, [plan[0]])
    rest = [g for g in goals if g.status != "proved"]
    for g in rest:
        g.status = "unknown"
    if rest:
        log("%d obligations need more time" % len(rest))
        prove.prove_all(rest, [plan[1]], jobs=4)
        rest = [g for g in rest if g.status != "proved"]
    if rest:
        # the last round decides alarms: few goals, long limits; many failures are cut short
        dl = time.time() + (240 if tier == "quick" else 1500)
        prove.prove_all(rest, [plan[2]], jobs=2, deadline=dl, stop_after=6)
        rest = [g for g in rest if g.status != "proved"]
        if 0 < len(rest) <= 3:
            # an overloaded machine is no alarm: the last few get a minute and a half with every solver before they count as unproved
            prove.prove_all(rest, [[(s, 90) for s in ("cvc5", "z3-new", "z3-nomb", "z3")]], jobs=2)
    if os.environ.get("SLOW"):
        for g in goals:
            if g.secs > float(os.environ["SLOW"]):
                log("slow", "%.1f" % g.secs, g.name, g.expl, g.solver)
    for t in targets:
        if t["status"] == "?":
            bad = [g for g in t["goals"] if g.status != "proved"]
            t["status"] = "proved" if not bad else "failed"
            known = base.get(prop, {}).get(t["name"], {}).get("loops")
            if bad and known is not None and t.get("nloops", 0) > known:
                # a loop that the specification has no invariant for: the failure says nothing about the code
                t["status"], t["why"] = "not-attached", "%d loops, invariants are known for %d" % (t["nloops"], known)
                t["goals"] = []
    log("proved: %d of %d obligations" % (sum(1 for g in goals if g.status == "proved"), len(goals)))
    # vacuity: some path to every normal exit and to the end of every loop body must not be provably impossible
    labels = []
    for t in targets:
        if t["status"] != "proved" or not t.get("vgoals"):
            continue
        by = {}
        for g in t["vgoals"]:
            by.setdefault(g.expl, []).append(g)
        for lb, gs in by.items():
            labels.append((t, lb, gs))

    def vac(x):
        t, lb, gs = x
        for g in reversed(gs):
            prove.solve(g, [[("z3-new", 1)]])
            if g.status != "proved":
                return True
        return False
    with ThreadPoolExecutor(prove.NPROC) as ex:
        rs = list(ex.map(vac, labels))
    nv = 0
    for (t, lb, gs), ok in zip(labels, rs):
        nv += 1
        if not ok and lb.split(" [")[0] not in t["spec"].get("dead", []):
            t["status"] = "vacuous"
            t["why"] = "contract is vacuous: " + lb
    log("vacuity probes: %d, all reachable: %s" % (nv, all(t["status"] != "vacuous" for t in targets)))
    return dict(targets=targets, goals=goals, vacuity=nv)


def vacuity_text(target, ast, sp, tr):
    s = dict(sp)
    s["ensures"] = [("vacuity exit", "false")]
    gh = dict(sp.get("ghost", {}))
    for i in range(1, tr.nloop + 1):
        gh["loop%d.end" % i] = gh.get("loop%d.end" % i, "") + " assert { [@expl:vacuity loop %d] false };" % i
    s["ghost"] = gh
    txt, _ = target.extract(ast, s)
    return txt


FIXED_TRUST = [
    "clang 18 parses the C++ of the current tree as the compiler does (its AST is what is translated)",
    "translate.py: AST-to-WhyML translation of the C++ subset (drops: exceptions/allocation failure, noexcept, object lifetimes and move-from state, pointer identity)",
    "standard library and small_vector element access / size / push_back / insert modelled as pure sequences (models.py); container sizes assumed < 2^50",
    "Why3 1.6 VC generation; SMT solvers z3/cvc5 answering unsat",
    "sequence/set/option axioms of theory.py",
]


def known(prop):
    f = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(f):
        for ln in open(f):
            ln = ln.strip()
            if ln.startswith("known: property=%s " % prop):
                out.append(ln[len("known: "):])
    return out


def report(mod, prop, tier, seed, work, R, har):
    ev_dir = os.path.join(ROOT, "evidence")
    rp_dir = os.path.join(ev_dir, "replay")
    os.makedirs(rp_dir, exist_ok=True)
    targets, goals = R["targets"], R["goals"]
    failed = [t for t in targets if t["status"] in ("failed", "vacuous")]
    unattached = [t for t in targets if t["status"] in ("not-extracted", "not-attached")]
    for t in targets:
        ng = len(t["goals"])
        nd = sum(1 for g in t["goals"] if g.status == "proved")
        log("  %-46s %-13s %d/%d %s" % (t["name"], t["status"], nd, ng, t["why"][:300].replace("\n", " ")))
        for g in t["goals"]:
            if g.status != "proved":
                log("      UNPROVED %s: %s (%s)" % (t["name"], g.expl, " ".join(g.tried)))
    hres = har.result if har else ("none", "")
    if har:
        log("harness: %s %s" % (hres[0], har.stats))
        if hres[0] != "ok":
            log(hres[1][:3000])
    violation = None
    nviol = 0
    rp = os.path.join(rp_dir, "%s_%s.txt" % (prop, tier))
    oblig_txt = "".join("unproved obligation: %s / %s (%s; %s)\n" % (t["name"], g.expl, g.status, " ".join(g.tried))
                        for t in failed for g in t["goals"] if g.status != "proved")
    oblig_txt += "".join("%s: %s\n" % (t["name"], t["why"]) for t in failed if t["why"])
    if hres[0] == "fail":
        nviol = 1
        open(rp, "w").write("property %s\nfailing input found by running the executable contract against the real code\ncommand: %s (harness sources: %s)\n\n%s\n\n%s"
                            % (prop, " ".join(har.cmd), har.h["src"], hres[1], oblig_txt))
        violation = "VIOLATION property=%s replay=%s" % (prop, rp)
    elif failed:
        nviol = len(failed)
        txt = "property %s\nproof obligations that are discharged on the unchanged tree and are not on this one; no failing input found\n\n%s\n" % (prop, oblig_txt)
        for t in failed:
            for g in t["goals"]:
                if g.status != "proved":
                    w = g.file.replace("/smt/", "/why/").replace(".smt2", ".why")
                    if os.path.exists(w):
                        s = open(w).read()
                        i = s.rfind("goal ")
                        txt += "\n--- %s: %s\n%s\nsolver answers: %s\n" % (t["name"], g.expl, s[i:i + 6000], " ".join(g.tried))
        open(rp, "w").write(txt)
        violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp)
    elif hres[0] == "error" and har:
        log("harness could not be built or run; the proof result stands alone")
        if unattached:
            # neither machinery reached these functions
            open(rp, "w").write("property %s\nfunctions neither verifiable nor executable: %s\n%s" % (prop, [(t["name"], t["why"]) for t in unattached], hres[1]))
            violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp)
            nviol = 1
    by_solver = {}
    for g in goals:
        if g.status == "proved":
            by_solver[g.solver] = by_solver.get(g.solver, 0) + 1
    fns = sorted({f for t in targets if t["status"] == "proved" for f in t["fns"]})
    mods = sorted({m for t in targets for m in t["models"]})
    cov = dict(
        obligations=len(goals), discharged=sum(1 for g in goals if g.status == "proved"),
        checker_cmd="python3 engine/check.py %s %s" % (prop, tier),
        trusted_base=FIXED_TRUST + mods + list(getattr(mod, "TRUST", [])),
        by_solver=by_solver, solver_secs=round(sum(g.secs for g in goals), 1), vacuity_probes=R.get("vacuity", 0),
        functions_under_contract=[dict(target=t["name"], function=t["spec"].get("qname", "lemma"), status=t["status"], obligations=len(t["goals"]),
                                       discharged=sum(1 for g in t["goals"] if g.status == "proved"), secs=round(sum(g.secs for g in t["goals"]), 2),
                                       inlined=[f for f in t["fns"] if f != t["spec"].get("qname")], note=t["why"][:300]) for t in targets],
        bounded_stand_in=[t["name"] for t in unattached] + list(getattr(mod, "BOUNDED", [])),
    )
    if har:
        cov["harness"] = dict(result=hres[0], stats=har.stats, groups=getattr(har, "groups", {}), label="bounded complement: executable contracts run against the real code, never counted as proved")
        cov["evaluations"] = int(har.stats.get("evaluations", 0))
        cov["distinct_nontrivial"] = int(har.stats.get("distinct", 0))
        cov["rule"] = "cases enumerated and drawn by the harness groups; distinct by the textual description of the input"
        cov["samples"] = getattr(har, "samples", [])[:12]
    level = getattr(mod, "LEVEL", "proof")
    if level == "proof" and (cov["obligations"] != cov["discharged"] or cov["obligations"] == 0):
        level = "exploration"
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=list(getattr(mod, "ASSUME", [])) + mods,
              wall_s=round(time.time() - T0, 1), violations=nviol)
    json.dump(ev, open(os.path.join(ev_dir, prop + ".json"), "w"), indent=1)
    for k in known(prop):
        print("KNOWN-FINDING: " + k)
    if violation:
        print(violation, flush=True)
        return 1
    print("OK property=%s obligations=%d/%d bounded=%s wall=%.0fs" % (prop, cov["discharged"], cov["obligations"], cov["bounded_stand_in"], time.time() - T0))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)

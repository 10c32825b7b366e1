"""Why3 verification condition generation and solver dispatch."""
import os, re, subprocess, shutil, time, glob, sys
from concurrent.futures import ThreadPoolExecutor
import threading

NPROC = int(os.environ.get("VERIF_JOBS", "8"))
SOLVERS = {
    "z3-new": lambda f, t, seed: ["z3-new", "-smt2", "-T:%d" % t, f],
    "z3": lambda f, t, seed: ["z3", "-smt2", "-T:%d" % t, f],
    "cvc5": lambda f, t, seed: ["cvc5", "--lang=smt2", "--tlimit=%d" % (t * 1000), f],
    "cvc5-enum": lambda f, t, seed: ["cvc5", "--lang=smt2", "--enum-inst", "--tlimit=%d" % (t * 1000), f],
    "coqc": lambda f, t, seed: ["timeout", str(t), "bash", "-c", 'cd "$(dirname "$0")" && coqc -q -w none "$(basename "$0")" >/dev/null 2>&1 && echo unsat', f],
    "z3-nomb": lambda f, t, seed: ["z3-new", "-smt2", "smt.mbqi=false", "smt.auto_config=false", "-T:%d" % t, f],
}


class Goal:
    __slots__ = ("plan", "name", "expl", "file", "loc", "status", "solver", "secs", "tried")

    def __init__(self, name, expl, file, loc):
        self.name, self.expl, self.file, self.loc = name, expl, file, loc
        self.plan = None
        self.status, self.solver, self.secs, self.tried = "unknown", None, 0.0, []


def vcgen(mlw, outdir):
    """returns list of Goal; raises RuntimeError when why3 rejects the file"""
    if os.path.isdir(outdir):
        shutil.rmtree(outdir)
    d1, d2 = os.path.join(outdir, "smt"), os.path.join(outdir, "why")
    os.makedirs(d1)
    os.makedirs(d2)

    def run(drv, d, extra):
        return subprocess.run(["why3", "prove", "-D", drv, "-a", "split_vc", *extra, "-o", d, mlw],
                              stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    with ThreadPoolExecutor(2) as ex:
        f1 = ex.submit(run, "z3", d1, [])
        f2 = ex.submit(run, "why3", d2, ["--debug=print_attributes"])
        p1, p2 = f1.result(), f2.result()
    err = p1.stderr + p2.stderr
    if p1.returncode != 0 or "rror" in p1.stderr.replace("unused", ""):
        raise RuntimeError("why3: " + err[-2000:])
    goals = []
    for f in sorted(glob.glob(d1 + "/*.smt2")):
        b = os.path.basename(f)[:-5]
        m = re.match(r"^.*?-(.*)$", b)
        wf = os.path.join(d2, b + ".why")
        expl, loc = "", ""
        if os.path.exists(wf):
            t = open(wf).read()
            i = t.rfind("\n  goal ")
            if i < 0:
                i = t.rfind("goal ")
            g = t[i:]
            # explanation attributes: first expl in the goal header
            ee = re.findall(r"\[@expl:([^\]]*)\]", g.split(":", 1)[0] + ":" + g[:4000])
            expl = ee[-1] if ee else ""
            hd = re.findall(r"\[@expl:([^\]]*)\]", g[:g.find("\n", 400) if len(g) > 400 else len(g)])
            expl = pick_expl(g)
        s = open(f).read()
        s = re.sub(r"\(set-logic [^)]*\)", "(set-logic ALL)", s)
        open(f, "w").write(s)
        goals.append(Goal(b, expl, f, loc))
    return goals


def smt_goals(items, base):
    """goals given directly as SMT-LIB text"""
    r = []
    for k, (expl, txt) in enumerate(items):
        coq = txt.startswith("(*coq*)")
        f = "%s_%d.%s" % (base, k, "v" if coq else "smt2")
        open(f, "w").write(txt)
        g = Goal(os.path.basename(f).rsplit(".", 1)[0], expl, f, "")
        g.plan = [[("coqc", 120)]] if coq else [[("z3-new", 150)]]
        r.append(g)
    return r


def pick_expl(g):
    # why3 puts the attributes of the goal right after its name; nested explanations come from sub-formulas
    ee = re.findall(r"\[@expl:([^\]]*)\]", g)
    if not ee:
        return ""
    spec = [e for e in ee if not re.match(r"^(VC for|assertion$|loop invariant (init|preservation)$|postcondition$|precondition$|check$)", e)]
    gen = [e for e in ee if re.match(r"^(loop invariant (init|preservation)|precondition|assertion|postcondition|unreachable|loop variant decrease|variant decrease|exceptional postcondition|witness)", e)]
    s = spec[-1] if spec else ee[-1]
    if gen and gen[0] not in s:
        if gen[0].startswith("loop invariant"):
            s += " [%s]" % gen[0].split(" ", 2)[2]
    return s


def solve(goal, plan, seed=1):
    """plan: list of rounds; each round a list of (solver, seconds) run in parallel"""
    t0 = time.time()
    for rnd in (goal.plan or plan):
        procs = []
        for sv, tl in rnd:
            p = subprocess.Popen(SOLVERS[sv](goal.file, tl, seed), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            procs.append((sv, tl, p, time.time()))
        pend = list(procs)
        done = False
        while pend and not done:
            for it in list(pend):
                sv, tl, p, ts = it
                if p.poll() is not None:
                    out = p.stdout.read().strip().split("\n")[0] if True else ""
                    pend.remove(it)
                    goal.tried.append("%s:%s" % (sv, out[:20]))
                    if out == "unsat":
                        goal.status, goal.solver = "proved", sv
                        done = True
                        break
                    if out == "sat":
                        goal.status = "refuted"
                elif time.time() - ts > tl + 3:
                    p.kill()
            if pend and not done:
                time.sleep(0.005)
        for it in pend:
            it[2].kill()
            it[2].wait()
        if done:
            break
    goal.secs = time.time() - t0
    return goal


QUICK = [[("z3-new", 1)], [("cvc5", 5), ("z3-new", 5)], [("cvc5", 20), ("z3-new", 20), ("z3", 20), ("cvc5-enum", 20)]]
THOROUGH = [[("z3-new", 2)], [("cvc5", 10), ("z3-new", 10)], [("cvc5", 120), ("z3-new", 120), ("z3", 120), ("cvc5-enum", 120)]]


def prove_all(goals, plan=QUICK, jobs=None, deadline=None, stop_after=None):
    fails = [0]
    lock = threading.Lock()

    def one(g):
        if deadline and time.time() > deadline:
            g.tried.append("deadline")
            return g
        if stop_after and fails[0] >= stop_after:
            g.tried.append("skipped")
            return g
        solve(g, plan)
        if g.status != "proved":
            with lock:
                fails[0] += 1
        return g
    with ThreadPoolExecutor(jobs or NPROC) as ex:
        return list(ex.map(one, goals))

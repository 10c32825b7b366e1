"""development runner: python3 dev.py c02 [target ...]   prints unproved obligations"""
import sys, os, time, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "specs"))
import target, prove
m = importlib.import_module(sys.argv[1])
only = [a for a in sys.argv[2:] if not a.startswith("-")]
verbose = "-v" in sys.argv
show = "-s" in sys.argv
for sp in m.TARGETS:
    if only and sp["name"] not in only:
        continue
    t0 = time.time()
    if sp.get("smt"):
        os.makedirs("/tmp/w/dev", exist_ok=True)
        gs = prove.smt_goals(sp["smt"], "/tmp/w/dev/" + sp["name"])
        prove.prove_all(gs)
        print(sp["name"], len([g for g in gs if g.status == "proved"]), len(gs), max(g.secs for g in gs))
        continue
    if sp.get("lemma"):
        txt = "module M\n" + sp["lemma"] + "\nend\n"
    else:
        ast = target.get_ast([sp["tu"]])
        if "-smoke" in sys.argv:
            sp = dict(sp, ensures=list(sp.get("ensures", [])) + [("SMOKE", "false")], loops={k: dict(v, inv=list(v.get("inv", [])) + []) for k, v in sp.get("loops", {}).items()})
            g = dict(sp.get("ghost") or {})
            for k in ([int(a[6:]) for a in sys.argv if a.startswith("-only=")] or sp["loops"]):
                kk = "loop%d.body" % k
                g[kk] = g.get(kk, "") + " assert { [@expl:SMOKE body %d] false };" % k
            sp["ghost"] = g
        try:
            txt, tr = target.extract(ast, sp)
        except target.Unsupported as e:
            
            if "-t" in sys.argv:
                import traceback; traceback.print_exc()
            else:
                print(sp["name"], "UNSUPPORTED", e)
            continue
        if "-l" in sys.argv:
            print(tr.locals_log, tr.loop_log)
    os.makedirs("/tmp/w/dev", exist_ok=True)
    f = "/tmp/w/dev/%s_%s.mlw" % (sys.argv[1], sp["name"])
    open(f, "w").write(txt)
    if show:
        print(txt[txt.find("\nlet f") if "\nlet f" in txt else txt.find("\nlet "):])
    t1 = time.time()
    try:
        gs = prove.vcgen(f, f[:-4] + ".vc")
    except RuntimeError as e:
        print(sp["name"], "WHY3 ERROR", e)
        continue
    t2 = time.time()
    plan = [[("z3-new", 2)], [("cvc5", 10), ("z3-new", 10)]] if "-long" not in sys.argv else prove.QUICK
    prove.prove_all(gs, plan)
    if "-smoke" in sys.argv:
        sm = {}
        for g in gs:
            if "SMOKE" in g.expl:
                sm.setdefault(g.expl, []).append(g.status == "proved")
        print(sp["name"], {k: ("DEAD" if all(v) else "ok") for k, v in sm.items()})
        continue
    bad = [g for g in gs if g.status != "proved"]
    print("%s: %d/%d proved, extract %.1fs vcgen %.1fs prove %.1fs max %.1f" % (sp["name"], len(gs) - len(bad), len(gs), t1 - t0, t2 - t1, time.time() - t2, max(g.secs for g in gs)))
    for g in gs:
        if g.status != "proved" or verbose:
            print("   ", g.status, g.solver, round(g.secs, 2), g.expl, g.file if g.status != "proved" else "")

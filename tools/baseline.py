"""names of the locals and number of loops of every target on the current tree -> specs/locals.json"""
import sys, json, importlib, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(R, "engine"), os.path.join(R, "specs")]
import target
from translate import Unsupported
out = os.path.join(R, "specs", "locals.json")
old = json.load(open(out)) if os.path.exists(out) else {}
props = [a.upper() for a in sys.argv[1:]] or sorted(f[:-3].upper() for f in os.listdir(os.path.join(R, "specs")) if f[0] == "c" and f[1:-3].isdigit())
for p in props:
    old[p] = {}
    for sp in importlib.import_module(p.lower()).TARGETS:
        if sp.get("smt") or sp.get("lemma"): continue
        try:
            tr = target.extract(target.get_ast([sp["tu"]]), dict(sp))[1]
            old[p][sp["name"]] = dict(locals=tr.locals_log, loops=tr.nloop)
        except Unsupported as e:
            print(p, sp["name"], e)
    print(p, len(old[p]), flush=True)
json.dump(old, open(out, "w"), separators=(",", ":"), sort_keys=True)

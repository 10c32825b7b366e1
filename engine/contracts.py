"""Turns the contract of a target into an assumed `val` for its callers (the target itself is checked against its body)."""
from translate import same_seq, idx_of, T, L, It, VarIt, Tup, Obj, UNIT, Unsupported, wty, san, irange, ilit, par
from ctypes_ import Ty, SZ
import cxxast


def contract_of(spec, wname=None, pick=None):
    wname = wname or spec["name"] + "_contract"

    def h(tr, fn, obj, vs, n):
        if pick and not pick(fn):
            return None
        d = tr.ast.definition_of(fn)
        names, args, outs, decl_args = [], [], [], []
        pn = spec.get("params")
        req, ens = [], []
        seqs = {}
        if obj is not None and not isinstance(obj, Obj):
            if isinstance(obj, L) and not ") const" in d.type:
                outs.append(obj)
                decl_args.append(("out", "this_", obj.ty))
            else:
                decl_args.append(("in", "this_", obj.ty))
                args.append(tr.term(obj))
        extra = spec.get("contract_args")
        for i, p in enumerate(d.params):
            nm = san(pn[i]) if pn and i < len(pn) else san(p.get("name") or "unused%d" % i)
            q = p.get("type", {}).get("qualType", "").strip()
            ty = tr.ty(p).with_(const=False, ref=None)
            v = vs[i] if i < len(vs) else None
            if v is None:
                ini = [c for c in p.get("inner", []) if c.get("kind", "").endswith(("Expr", "Literal", "Operator"))]
                v = tr.expr(ini[0])
            if nm in spec.get("param_values", {}) or isinstance(v, Obj):
                continue
            if ty.k == "iter" and nm in spec.get("iter_params", {}) and isinstance(v, (It, VarIt)) and not spec["iter_params"][nm][1] and v.rev == ("reverse_iterator" in (p.get("type", {}).get("desugaredQualType") or q)):
                sn = spec["iter_params"][nm][0]
                if ("in", sn, v.seq.ty.with_(const=False, ref=None)) not in decl_args:
                    decl_args.append(("in", sn, v.seq.ty.with_(const=False, ref=None)))
                    args.append(tr.term(v.seq))
                    seqs[sn] = v.seq
                elif not same_seq(seqs[sn], v.seq):
                    raise Unsupported("iterators into different containers passed to " + fn.qname)
                decl_args.append(("in", nm + "_0", SZ))
                args.append(idx_of(v))
                continue
            if ty.k == "iter":
                raise Unsupported("contract with iterator parameters for " + fn.qname)
            if ty.k == "opaque":
                continue
            if q.endswith("&") and not tr.ty(p).const and not q.endswith("&&"):
                if not isinstance(v, L):
                    raise Unsupported("mutable reference argument of " + fn.qname)
                outs.append(v)
                decl_args.append(("out", nm, ty))
            else:
                byval = not q.endswith("&") or (q.endswith("&&") and any(nm + "_0" in f for _, f in spec.get("requires", []) + spec.get("ensures", [])))
                decl_args.append(("in", nm + ("_0" if byval else ""), ty))
                args.append(tr.term(tr.coerce(tr.snap(v), ty)))
        for nm, ty, fn_ in spec.get("ghost_outs", []):
            outs.append((tr.spec.get("ghost_out", {}).get(nm) or fn_)(tr))
            decl_args.append(("out", nm, ty))
        ins = [a for a in decl_args if a[0] == "in"]
        oo = [a for a in decl_args if a[0] == "out"]
        rt = tr.ty_str(spec.get("ret_type") or cxxast.ret_of(d.node.get("type", {}).get("qualType", "")))
        rt = rt.with_(const=False, ref=None)
        back = None
        if rt.k == "iter":
            if len(seqs) != 1:
                raise Unsupported("iterator returned by " + fn.qname)
            back = next(v for v in vs if isinstance(v, (It, VarIt)))
            rt = SZ
        txt = "val %s %s : %s\n" % (wname, " ".join(["(%s: %s)" % (nm, wty(t)) for _, nm, t in ins] + ["(ref %s: %s)" % (nm, wty(t)) for _, nm, t in oo]) or "()", wty(rt))
        for _, nm, t in ins:
            if t.k == "int" and not (nm.endswith("_0") and nm[:-2] in spec.get("iter_params", {})):
                mn, mx = irange(t)
                txt += "  requires { %s <= %s <= %s }\n" % (ilit(mn), nm, ilit(mx))
        for l, f in spec.get("requires", []):
            txt += "  requires { [@expl:precondition of %s: %s] %s }\n" % (fn.qname.split("::")[-1], l.replace("[", "(").replace("]", ")"), f)
        if oo:
            txt += "  writes { %s }\n" % ", ".join(nm for _, nm, _ in oo)
        for l, f in spec.get("ensures", []):
            txt += "  ensures { %s }\n" % f
        if spec.get("diverges"):
            txt += "  diverges\n"
        tr.used_models.add("contract of %s (checked as target %s)" % (fn.qname, spec["name"]))
        g = tr.spec.get("ghost", {})
        nm = fn.qname.split("::")[-1]
        if g.get("before_call:" + nm):
            tr.blk.add("raw", g["before_call:" + nm])
        r = tr.emit_val_call(wname, txt, args, rt, outs)
        if g.get("after_call:" + nm):
            tr.blk.add("raw", g["after_call:" + nm].replace("RESULT", par(tr.term(r)) if "RESULT" in g["after_call:" + nm] else ""))
        return It(back.seq, par(tr.term(r)), back.rev) if back is not None else r
    return h

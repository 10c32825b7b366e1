"""Contracts assumed for the C++ standard library (and, at client call sites, for the repo's own containers, whose behaviour is
a separate property).  Every rule used in a run is listed in that run's evidence."""
import re
from fractions import Fraction
from ctypes_ import Ty, parse, split_targs, BOOL, DBL, VOID, SZ, PD
from translate import *
from translate import inner, strip, sfx, wty, par, ilit, idx_of, same_seq, irange, tup_get, node_type_str, loc, wrap_lets
import translate as TR


def arglist(ct):
    i = ct.find("(")
    d = 0
    for j in range(i, len(ct)):
        if ct[j] == "(":
            d += 1
        elif ct[j] == ")":
            d -= 1
            if d == 0:
                return ct[i + 1:j]
    return ""


class Models:
    def __init__(self, spec_models=None):
        self.over = spec_models or {}      # qualified /repo name -> python model (contract discharged elsewhere)

    # ------------------------------------------------------------------ misc
    def use(self, tr, name):
        tr.used_models.add(name)

    def dlit(self, tr, v):
        f = Fraction(str(v)) if "e" not in str(v).lower() else Fraction(float(v))
        if f.denominator == 1 and abs(f.numerator) < 2**53:
            return "(d_of_int %s)" % ilit(int(f)) if f != 0 else "d_zero"
        lits = tr.__dict__.setdefault("dlits", {})
        fl = float(v)
        nm = "d_c_" + re.sub(r"\W", "_", repr(fl))
        lits[nm] = fl
        return nm

    def global_var(self, tr, name, n, rd):
        if name in ("prng",):
            return Obj("prng")
        if name in tr.spec.get("globals", {}):
            return tr.spec["globals"][name](tr)
        if name in ("inf", "inf_v"):
            return T("d_inf", DBL)
        if name == "epsilon" or name == "eps":
            return T("d_eps", DBL)
        if name in ("less", "greater", "equivalent") and "ordering" in node_type_str(n):
            return T({"less": "(-1)", "greater": "1", "equivalent": "0"}[name], Ty("int", True, 8))
        return None

    def enum_const(self, tr, rd, n):
        if rd.get("id") in tr.ast.enum_consts:
            return str(tr.ast.enum_consts[rd["id"]])
        raise Unsupported("enum constant " + rd.get("name", ""))

    def obj_member(self, tr, v, name):
        if name in tr.spec.get("obj_members", {}):
            return tr.spec["obj_members"][name](tr, v)
        return None

    def compare_obj(self, tr, op, a, b):
        # std::*_ordering compared with the literal 0
        if getattr(b, "name", None) == "__unspec":
            return tr.compare(op, a, T("0", Ty("int", True, 32)))
        if getattr(a, "name", None) == "__unspec":
            return tr.compare(op, T("0", Ty("int", True, 32)), b)
        raise Unsupported("comparison of objects %s %s" % (getattr(a, "name", a), getattr(b, "name", b)))

    def special_call(self, tr, name, args, n):
        return None

    def gapp_fn(self, tr, fn, obj, vs, n):
        h = self.over.get(fn.qname)
        if h is not None:
            self.use(tr, "contract of " + fn.qname)
            return h(tr, obj, vs, n)
        if fn.qname in ("gapp::operator\"\"_sz", "gapp::operator\"\"_pd"):
            return tr.coerce(vs[0], SZ if fn.qname.endswith("sz") else PD)
        if fn.qname == "gapp::detail::forward_like":
            return vs[0]
        return None

    # ------------------------------------------------------------------ construction
    def construct(self, tr, n):
        ty = tr.ty(n)
        q = node_type_str(n)
        q0 = n.get("type", {}).get("qualType", "")
        args = [a for a in inner(n) if a.get("kind") != "CXXDefaultArgExpr"]
        ct = n.get("ctorType", {}).get("qualType", "")
        if ty.k == "seq":
            return self.construct_seq(tr, n, ty, q, q0, args, ct)
        if ty.k == "set":
            vs = tr.eval_seq([lambda a=a: tr.expr(a) for a in args])
            if len(vs) == 1 and isinstance(vs[0], (T, L)) and vs[0].ty.k == "set":
                return vs[0]
            if len(vs) == 2 and isinstance(vs[0], (It, VarIt)):
                raise Unsupported("set from range")
            return T("zempty_%s" % sfx(ty.a), ty)
        if ty.k in ("int", "dbl", "bool"):
            v = tr.expr(args[0]) if args else tr.default(ty)
            if not (isinstance(v, (T, L)) and v.ty.k in ("int", "dbl", "bool")):
                raise Unsupported("construct scalar")
            v = tr.coerce(v, ty)
            self.bounded_check(tr, q, v)
            return v
        if ty.k == "tup":
            if len(args) == 1:
                v = tr.expr(args[0])
                return v if isinstance(v, Tup) else tr.coerce(v, ty)
            vs = tr.eval_seq([lambda a=a: tr.expr(a) for a in args])
            if not vs:
                return tr.default(ty)
            vs = [tr.snap(v) if isinstance(v, (L, VarIt)) and not tref else v
                  for v, tref in zip(vs, [getattr(t, "ref", None) for t in ty.a])]
            out = []
            for v, t in zip(vs, ty.a):
                out.append(v if isinstance(v, (It, VarIt, Clo, Obj)) else tr.coerce(v, t))
            return Tup(out)
        if ty.k == "opt":
            if not args:
                return tr.default(ty)
            v = tr.expr(args[0])
            if isinstance(v, Obj) and "nullopt" in v.name:
                return tr.default(ty)
            if v.ty.k == "opt":
                return v
            return tr.coerce(v, ty)
        if ty.k == "iter":
            if not args:
                return T("0", SZ)       # a singular iterator
            v = tr.expr(args[0])
            if isinstance(v, (It, VarIt)) and "reverse_iterator" in q and not v.rev and "const_reverse" not in q:
                return It(v.seq, idx_of(v), True)
            return v
        if ty.k == "rec":
            return self.construct_rec(tr, n, ty, args, ct)
        # opaque
        base = re.sub(r"<.*", "", q.replace("const ", "")).split("::")[-1].strip()
        if len(args) == 1:
            v = tr.expr(args[0])
            if isinstance(v, (Clo, It, VarIt)):
                return v
            if isinstance(v, Obj) and ("(lambda" in q or v.name.split("<")[0].split("::")[-1] == base):
                return v
            return Obj(base, [v], Ty("opaque", q))
        vs = tr.eval_seq([lambda a=a: tr.expr(a) for a in args])
        if base == "tuple" or base == "pair":
            return Tup(vs)
        return Obj(base, vs, Ty("opaque", q))

    def bounded_check(self, tr, q, v):
        m = re.search(r"Interval<(\w+)>\{\s*\{?([^}]*)\}", q)
        if m:
            p = [x.strip() for x in m.group(2).split(",")]
            if len(p) == 4 and m.group(1) == "double":
                try:
                    lo, hi = float(p[0]), float(p[1])
                except ValueError:
                    return
                tl = self.dlit(tr, p[0])
                t = tr.term(v)
                f = "not (d_lt %s %s)" % (par(t), tl)
                if p[2] == "false":
                    f += " && not (d_eq %s %s)" % (par(t), tl)
                if hi < 1e300:
                    f += " && not (d_lt %s %s)" % (self.dlit(tr, p[1]), par(t))
                tr.check("value is inside of the allowed interval", f)

    def construct_seq(self, tr, n, ty, q, q0, args, ct):
        e = sfx(ty.a)
        tr.reg(ty)
        is_bitset = "dynamic_bitset" in q
        if not args:
            return T("empty_%s" % e, ty)
        vs = tr.eval_seq([lambda a=a: tr.expr(a) for a in args])
        if len(vs) == 1 or (len(vs) == 2 and isinstance(vs[1], Obj)):
            v = vs[0]
            if isinstance(v, (T, L)) and v.ty.k == "seq":
                return v
            if isinstance(v, (T, L)) and v.ty.k == "rec" and "span" in q0:      # the elements of a class that wraps one sequence
                fs = [(f, t) for f, t in tr.recs[v.ty.a] if t.k == "seq" and t.a == ty.a]
                its = [f for f, t in tr.recs[v.ty.a] if (v.ty.a, f) in tr.iter_fields]
                if not fs and len(its) == 2 and tr.spec.get("iter_seq"):
                    s = tr.spec["iter_seq"](tr)
                    ia, ib = (tr.let("%s.%s" % (par(tr.term(v)), tr.fieldname(v.ty.a, f)), "va") for f in its)
                    tr.check("valid iterator range", "0 <= %s <= %s && %s <= %s" % (ia, ib, ib, tr.seq_len(s)))
                    r = T("sub_%s %s %s %s" % (e, par(tr.term(s)), ia, ib), ty)
                    r.view = (s, ia, ib)
                    return r
                if len(fs) == 1:
                    return L(v.root, v.path + [("f",) + fs[0]], fs[0][1], v.rty) if isinstance(v, L) else T("%s.%s" % (par(tr.term(v)), tr.fieldname(v.ty.a, fs[0][0])), fs[0][1])
            if isinstance(v, (T, L)) and v.ty.k == "int":
                d = "false" if is_bitset else tr.term(tr.default(ty.a)) if ty.a.k != "rec" else tr.term(tr.default(ty.a))
                t = tr.term(v)
                tr.check("container size is not negative", "0 <= %s" % t)
                self.use(tr, "std::vector / small_vector / dynamic_bitset (n): n value-initialised elements")
                return T("mk_%s %s %s" % (e, par(t), par(d)), ty)
        if len(vs) >= 2:
            a, b = vs[0], vs[1]
            if isinstance(a, (It, VarIt)) and isinstance(b, (It, VarIt)):
                if not same_seq(a.seq, b.seq):
                    raise Unsupported("range construction from two containers")
                s = a.seq
                if ty.a.k == "opaque":
                    ty, e = s.ty.with_(const=False, ref=None), sfx(s.ty.a)
                if s.ty.a.k != ty.a.k or a.rev:
                    raise Unsupported("range construction of a different element type (%s from %s)" % (ty, s.ty))
                ia, ib = idx_of(a), idx_of(b)
                tr.check("valid iterator range", "0 <= %s <= %s && %s <= %s" % (ia, ib, ib, tr.seq_len(s)))
                self.use(tr, "vector(first, last): copy of the range")
                r = T("sub_%s %s %s %s" % (e, par(tr.term(s)), par(ia), par(ib)), ty)
                if "span" in q0:
                    ia, ib = tr.let(ia, "va"), tr.let(ib, "vb")
                    r.view = (s, ia, ib)
                return r
            if isinstance(a, (T, L)) and a.ty.k == "int" and isinstance(b, (T, L)):
                t = tr.term(a)
                tr.check("container size is not negative", "0 <= %s" % t)
                return T("mk_%s %s %s" % (e, par(t), par(tr.term(tr.coerce(b, ty.a)))), ty)
            if isinstance(a, (T, L)) and a.ty.k == "seq":
                return a
            if isinstance(a, (It, VarIt)) and isinstance(b, (T, L)) and b.ty.k == "int":   # span(ptr, n)
                ia, t = idx_of(a), tr.term(b)
                tr.check("valid span", "0 <= %s && %s + %s <= %s" % (t, ia, t, tr.seq_len(a.seq)))
                return T("sub_%s %s %s (%s + %s)" % (e, par(tr.term(a.seq)), par(ia), par(ia), par(t)), ty)
        raise Unsupported("constructor of %s (%s)" % (q0, ct))

    def construct_rec(self, tr, n, ty, args, ct):
        node = tr.rec_nodes[ty.a]
        ps = split_targs(arglist(ct))
        if len(args) == 1 and len(ps) == 1:
            pt = tr.ty_str(ps[0])
            if pt.k == "rec" and pt.a == ty.a:
                return tr.expr(args[0])
        decl = None
        for c in inner(node):
            cands = [c] if c.get("kind") == "CXXConstructorDecl" else [d for d in inner(c) if d.get("kind") == "CXXConstructorDecl"] if c.get("kind") == "FunctionTemplateDecl" else []
            for d in cands:
                if d["type"]["qualType"].split(") ")[0].rstrip(")") == ct.split(") ")[0].rstrip(")") or d["type"]["qualType"] == ct:
                    decl = d
        if decl is not None:
            fn = tr.ast.fns.get(decl["id"])
            if fn is not None:
                d2 = tr.ast.definition_of(fn)
                if d2.body is not None:
                    vs = tr.eval_seq([lambda a=a: tr.expr(a) for a in inner(n)])
                    return self.run_ctor(tr, ty, d2, vs)
        if not args:
            return tr.construct_default(ty)
        raise Unsupported("constructor %s of %s %s" % (ct, ty.a, n.get("type")))

    def ctor_object(self, tr, ty, fn, nm):
        """the object after the member initialisers of constructor `fn` (parameters already bound), as a fresh variable"""
        base = tr.construct_default(ty)
        given = {}
        for ini in fn.inits:
            f = ini.get("anyInit", {}).get("name")
            ii = inner(ini)
            if f and ii and not (ii[0].get("kind") == "CXXDefaultInitExpr" and not inner(ii[0])):
                given[f] = ii[0]
        parts = []
        deft = None
        for f, t in tr.recs[ty.a]:
            if f in given:
                v = tr.expr(given[f])
                if isinstance(v, (Clo, Obj)):
                    v = T(tr.any(t), t)
                parts.append("%s = %s" % (tr.fieldname(ty.a, f), tr.term(tr.coerce(v, t))))
            else:
                if deft is None:
                    deft = tr.let(base.term, "d")
                parts.append("%s = %s.%s" % (tr.fieldname(ty.a, f), deft, tr.fieldname(ty.a, f)))
        tr.blk.add("ref", nm, "{ " + "; ".join(parts) + " }", ty)
        tr.blk.locals.add(nm)
        tr.roots[nm] = ty
        return L(nm, [], ty, ty)

    def emplaced(self, tr, ty, vs):
        """element constructed in place from constructor arguments"""
        if ty.k == "rec":
            for c in inner(tr.rec_nodes[ty.a]):
                if c.get("kind") == "CXXConstructorDecl" and len([p for p in inner(c) if p.get("kind") == "ParmVarDecl"]) == len(vs) and len(vs) > 1:
                    fn = tr.ast.fns.get(c["id"])
                    d = tr.ast.definition_of(fn) if fn is not None else None
                    if d is not None and d.body is not None:
                        return tr.snap(self.run_ctor(tr, ty, d, vs))
        if ty.k == "seq" and not vs:
            return T("empty_%s" % sfx(ty.a), ty)
        raise Unsupported("emplacement of a %s from %d arguments" % (ty, len(vs)))

    RANGES = ("find_if", "find_if_not", "find", "all_of", "any_of", "none_of", "is_sorted", "sort", "min_element", "max_element", "for_each", "fill", "reverse", "copy", "transform", "equal")

    def ranges_call(self, tr, name, vs):
        """std::ranges::name(range or iterators, ..., projection)"""
        vs = list(vs)
        if not isinstance(vs[0], (It, VarIt)):
            r = tr.range_seq(vs[0])
            vs[:1] = [It(r, "0"), It(r, tr.size_of(r).term)]
        rest = vs[2:]
        mems = [v for v in rest if isinstance(v, Obj) and v.name == "member pointer"]
        if mems:
            proj = rest.pop()
            rest = [v for v in rest if v is not proj]
            if any(m is not proj for m in mems) or len(rest) != 1:
                raise Unsupported("std::ranges::%s with these projections" % name)
            f = rest[0]
            rest = [Clo(lambda tr, a, nn=None: tr.invoke(f, [tr.member(x, proj.args[0]) for x in a]))]
        self.use(tr, "std::ranges::%s: std::%s on the range with the projection applied" % (name, name))
        r = getattr(self, "std_" + name)(tr, vs[:2] + rest, None)
        return r

    def run_ctor(self, tr, ty, fn, vs):
        if fn.qname not in tr.used_fns:
            tr.used_fns.append(fn.qname)
        save_env, save_this = tr.env, tr.this
        tr.env = dict(save_env)
        try:
            tr.bind_params(fn.params, vs)
            o = self.ctor_object(tr, ty, fn, tr.newname("obj"))
            tr.this = o
            if inner(fn.body):
                tr.run_body(fn.body, VOID, "constructor")
            return o
        finally:
            tr.env, tr.this = save_env, save_this

    # ------------------------------------------------------------------ methods
    def method(self, tr, o, name, vs, n, fn):
        if isinstance(o, Obj):
            return self.obj_method(tr, o, name, vs, n, fn)
        if isinstance(o, (It, VarIt)):
            if name == "base" and o.rev:
                return It(o.seq, idx_of(o))
            return None
        if isinstance(o, Clo):
            if name == "operator()":
                return tr.invoke(o, vs)
            return None
        if isinstance(o, Tup):
            return None
        k = o.ty.k
        if k == "seq":
            return self.seq_method(tr, o, name, vs, n)
        if k == "set":
            return self.set_method(tr, o, name, vs, n)
        if k == "opt":
            t = tr.term(o)
            if name == "has_value" or name == "operator bool":
                return T("%s.has" % par(t), BOOL)
            if name == "value":
                tr.check("optional has a value", "%s.has" % par(t))
                return T("%s.val_" % par(t), o.ty.a)
            if name == "value_or":
                return T("(if %s.has then %s.val_ else %s)" % (par(t), par(t), tr.term(tr.coerce(vs[0], o.ty.a))), o.ty.a)
            return None
        if k in ("dbl", "int", "bool") and name.startswith("operator "):
            return o
        if k in ("dbl", "int", "bool") and name in tr.spec.get("obj_methods", {}):
            return tr.spec["obj_methods"][name](tr, o, vs)
        if k in ("dbl", "int", "bool") and name == "load":
            return o
        if k in ("dbl", "int", "bool") and name == "store":
            tr.assign(o, vs[0])
            return UNIT
        return None

    def obj_method(self, tr, o, name, vs, n, fn):
        h = tr.spec.get("obj_methods", {}).get(name)
        if h is not None:
            return h(tr, o, vs)
        if name in ("operator()",):
            return self.invoke_obj(tr, o, vs)
        return None

    def seq_method(self, tr, o, name, vs, n):
        e = sfx(o.ty.a)
        s = lambda: par(tr.term(o))
        lam = tr.spec.get("seq_methods", {}).get(name)
        if lam is not None:
            r = lam(tr, o, vs)
            if r is not None:
                return r
        if name in ("size", "nrows", "length"):
            return tr.size_of(o)
        if name == "ssize":
            return T(tr.size_of(o).term, PD)
        if name == "empty":
            return T("(%s = 0)" % tr.seq_len(o), BOOL)
        if name == "ncols":
            if o.ty.a.k != "seq":
                return None
            self.use(tr, "Matrix: every row has ncols() elements (class invariant, C18)")
            nc = "(ncols_%s %s)" % (e, s())
            tr.vals["ncols_" + e] = "val function ncols_%s (s: %s) : int\naxiom ncols_nonneg_%s : forall s [ncols_%s s]. 0 <= ncols_%s s\naxiom ncols_set_%s : forall s i r [ncols_%s (set_%s s i r)]. 0 <= i < len_%s s -> len_%s r = ncols_%s s -> ncols_%s (set_%s s i r) = ncols_%s s\n" % (e, wty(o.ty), e, e, e, e, e, e, e, sfx(o.ty.a.a), e, e, e, e)
            tr.assume("forall r'. 0 <= r' < len_%s %s -> len_%s (get_%s %s r') = %s < size_limit" % (e, s(), sfx(o.ty.a.a), e, s(), nc))
            return T(nc, SZ)
        if name == "operator()" and len(vs) == 2 and o.ty.a.k == "seq":
            return tr.at(tr.at(o, tr.term(vs[0])), tr.term(vs[1]))
        if name in ("begin", "cbegin", "data"):
            return It(o, "0")
        if name in ("end", "cend"):
            return It(o, tr.size_of(o).term)
        if name in ("rbegin", "crbegin"):
            return It(o, tr.size_of(o).term, True)
        if name in ("rend", "crend"):
            return It(o, "0", True)
        if name == "front":
            return tr.at(o, "0", "front() of a non-empty container")
        if name == "back":
            return tr.at(o, "(%s - 1)" % tr.seq_len(o), "back() of a non-empty container")
        if name == "operator[]":
            return tr.at(o, tr.term(vs[0]))
        if name == "at":
            return tr.at(o, tr.term(vs[0]), "at() in range")
        if name in ("push_back", "emplace_back", "append_row"):
            if len(vs) != 1:
                vs = [self.emplaced(tr, o.ty.a, vs)]
            self.use(tr, "push_back/emplace_back appends")
            tr.set_term(o, "snoc_%s %s %s" % (e, s(), par(tr.term(tr.coerce(vs[0], o.ty.a)))), "grow")
            if name == "emplace_back":
                return tr.at(o, "(%s - 1)" % tr.seq_len(o))
            return UNIT
        if name == "pop_back":
            tr.check("pop_back() of a non-empty container", "0 < %s" % tr.seq_len(o))
            tr.set_term(o, "sub_%s %s 0 (%s - 1)" % (e, s(), tr.seq_len(o)), "grow")
            return UNIT
        if name == "pop_front":
            tr.check("pop_front() of a non-empty container", "0 < %s" % tr.seq_len(o))
            tr.set_term(o, "sub_%s %s 1 (%s)" % (e, s(), tr.seq_len(o)), "grow")
            return UNIT
        if name in ("reserve", "shrink_to_fit"):
            return UNIT
        if name == "clear":
            tr.set_term(o, "empty_%s" % e, "grow")
            return UNIT
        if name == "resize":
            m = tr.term(vs[0])
            d = tr.term(tr.coerce(vs[1], o.ty.a)) if len(vs) > 1 else tr.term(tr.default(o.ty.a))
            tr.check("container size is not negative", "0 <= %s" % m)
            self.use(tr, "resize(n, v): prefix kept, new elements are v")
            tr.set_term(o, "resize_%s %s %s %s" % (e, s(), par(m), par(d)), "grow")
            return UNIT
        if name == "fill" and len(vs) == 1:
            tr.set_term(o, "mk_%s (%s) %s" % (e, tr.seq_len(o), par(tr.term(tr.coerce(vs[0], o.ty.a)))), "elem")
            return UNIT
        if name == "find_first" and o.ty.a.k == "bool":
            self.use(tr, "dynamic_bitset::find_first(v): least index holding v, size() if none")
            v = tr.term(vs[0])
            r = tr.any(SZ)
            tr.assume("0 <= %s <= %s" % (r, tr.seq_len(o)))
            tr.assume("%s < %s -> get_b %s %s = (if %s then True else False)" % (r, tr.seq_len(o), s(), r, v))
            tr.assume("forall k'. 0 <= k' < %s -> not (get_b %s k' = (if %s then True else False))" % (r, s(), v))
            return T(r, SZ)
        if name == "test":
            return tr.at(o, tr.term(vs[0]))
        if name == "set" and o.ty.a.k == "bool":
            tr.set_term(tr.at(o, tr.term(vs[0])), tr.term(vs[1]) if len(vs) > 1 else "true")
            return UNIT
        if name == "erase":
            if len(vs) == 1:
                i = idx_of(vs[0])
                tr.check("erase of a valid element", "0 <= %s < %s" % (i, tr.seq_len(o)))
                i = tr.let(i, "i")
                j = "(%s + 1)" % i
            else:
                i, j = idx_of(vs[0]), idx_of(vs[1])
                tr.check("erase of a valid range", "0 <= %s <= %s && %s <= %s" % (i, j, j, tr.seq_len(o)))
                i, j = tr.let(i, "i"), tr.let(j, "j")
            self.use(tr, "erase(first, last) removes exactly the range and keeps the order")
            tr.set_term(o, "cat_%s (sub_%s %s 0 %s) (sub_%s %s %s (%s))" % (e, e, s(), i, e, s(), j, tr.seq_len(o)), "grow")
            return It(o, i)
        if name == "emplace":
            if len(vs) != 2 or not (isinstance(vs[1], (T, L)) and vs[1].ty.k == o.ty.a.k):
                vs = [vs[0], self.emplaced(tr, o.ty.a, vs[1:])]
            name = "insert"
        if name == "insert":
            i = idx_of(vs[0])
            tr.check("insert at a valid position", "0 <= %s <= %s" % (i, tr.seq_len(o)))
            i = tr.let(i, "i")
            if len(vs) == 2:
                if vs[1].ty.k == "seq" and o.ty.a.k != "seq":
                    mid = par(tr.term(vs[1]))
                else:
                    mid = "(snoc_%s empty_%s %s)" % (e, e, par(tr.term(tr.coerce(vs[1], o.ty.a))))
            elif len(vs) == 3 and isinstance(vs[1], (It, VarIt)):
                a, b = idx_of(vs[1]), idx_of(vs[2])
                tr.check("valid iterator range", "0 <= %s <= %s && %s <= %s" % (a, b, b, tr.seq_len(vs[1].seq)))
                mid = "(sub_%s %s %s %s)" % (e, par(tr.term(vs[1].seq)), par(a), par(b))
            else:
                c = tr.term(vs[1])
                tr.check("insert count is not negative", "0 <= %s" % c)
                mid = "(mk_%s %s %s)" % (e, par(c), par(tr.term(tr.coerce(vs[2], o.ty.a))))
            self.use(tr, "insert(pos, ...) places the new elements before pos and keeps the rest in order")
            tr.set_term(o, "cat_%s (cat_%s (sub_%s %s 0 %s) %s) (sub_%s %s %s (%s))" % (e, e, e, s(), i, mid, e, s(), i, tr.seq_len(o)), "grow")
            return It(o, i)
        if name == "assign":
            if len(vs) == 2 and isinstance(vs[0], (It, VarIt)):
                a, b = idx_of(vs[0]), idx_of(vs[1])
                tr.check("valid iterator range", "0 <= %s <= %s && %s <= %s" % (a, b, b, tr.seq_len(vs[0].seq)))
                tr.set_term(o, "sub_%s %s %s %s" % (e, par(tr.term(vs[0].seq)), par(a), par(b)), "grow")
                return UNIT
            if len(vs) == 2:
                tr.set_term(o, "mk_%s %s %s" % (e, par(tr.term(vs[0])), par(tr.term(tr.coerce(vs[1], o.ty.a)))), "grow")
                return UNIT
        if name == "swap":
            a, b = tr.let(tr.term(o), "sw"), tr.let(tr.term(vs[0]), "sw")
            tr.set_term(o, b, "grow")
            tr.set_term(vs[0], a, "grow")
            return UNIT
        if name in ("subspan", "first", "last"):
            ln = tr.seq_len(o)
            if name == "first":
                i, j = "0", tr.term(vs[0])
            elif name == "last":
                i, j = "(%s - %s)" % (ln, tr.term(vs[0])), "(%s)" % ln
            else:
                i = tr.term(vs[0])
                j = "(%s + %s)" % (i, tr.term(vs[1])) if len(vs) > 1 else "(%s)" % ln
            tr.check("valid subspan", "0 <= %s <= %s && %s <= %s" % (i, j, j, ln))
            return T("sub_%s %s %s %s" % (e, s(), par(i), par(j)), o.ty)
        return None

    def set_method(self, tr, o, name, vs, n):
        e = sfx(o.ty.a)
        s = par(tr.term(o))
        if name in ("contains", "count"):
            t = "(zmem_%s %s %s)" % (e, par(tr.term(vs[0])), s)
            return T(t, BOOL) if name == "contains" else T("(if %s then 1 else 0)" % t, SZ)
        if name in ("insert", "emplace"):
            tr.set_term(o, "zadd_%s %s %s" % (e, par(tr.term(vs[0])), s))
            return Obj("discard")
        if name == "erase":
            tr.set_term(o, "zdel_%s %s %s" % (e, par(tr.term(vs[0])), s))
            return Obj("discard")
        if name == "clear":
            tr.set_term(o, "zempty_%s" % e)
            return UNIT
        if name == "reserve":
            return UNIT
        return None

    # ------------------------------------------------------------------ operators
    def operator(self, tr, op, vals, n, fn, rd):
        a = vals[0]
        if isinstance(a, Clo) and op == "()":
            return a.call(tr, vals[1:], rd.get("id"))
        if isinstance(a, Obj):
            h = tr.spec.get("obj_operators", {}).get(op)
            if h is not None:
                r = h(tr, a, vals[1:])
                if r is not None:
                    return r
            if op == "()":
                return self.invoke_obj(tr, a, vals[1:])
            if op == "=" and a.name == "discard":
                return a
            return None
        b = vals[1] if len(vals) > 1 else None
        if isinstance(a, (It, VarIt)) or isinstance(b, (It, VarIt)):
            if op == "*":
                return tr.deref(a)
            if op == "->":
                return tr.deref(a)
            if op in ("++", "--"):
                return tr.incdec(a, op, len(vals) > 1)
            if op in ("+", "-"):
                return tr.iter_arith(op, a, b)
            if op in ("+=", "-="):
                tr.assign(a, tr.it_add(a, tr.term(b), 1 if op == "+=" else -1))
                return a
            if op in ("==", "!=", "<", ">", "<=", ">="):
                return tr.compare(op, a, b)
            if op == "=":
                tr.assign(a, b)
                return a
            if op == "[]":
                return tr.deref(tr.it_add_nocheck(a, tr.term(b)))
            if op == "<=>":
                return None
            return None
        if isinstance(a, Tup):
            if op in ("==", "!="):
                r = "(" + " && ".join(tr.compare("==", x, y).term for x, y in zip(a.vs, b.vs)) + ")"
                return T(r if op == "==" else "(not %s)" % r, BOOL)
            return None
        k = a.ty.k
        if op == "()" and k == "seq" and a.ty.a.k == "seq" and len(vals) == 3:
            return tr.at(tr.at(a, tr.term(vals[1])), tr.term(vals[2]))
        if op == "=":
            if k in ("seq", "set", "opt", "rec", "tup", "bool", "int", "dbl"):
                if fn is not None and k == "rec" and not fn.node.get("isImplicit") and tr.ast.definition_of(fn).body is not None \
                        and not fn.node.get("explicitlyDefaulted"):
                    return None
                if isinstance(b, Obj) and k == "opt":
                    tr.set_term(a, "none_%s" % sfx(a.ty.a))
                    return a
                if k == "seq":
                    tr.set_term(a, tr.term(b), "grow")
                else:
                    tr.assign(a, b)
                return a
        if op == "[]" and k == "seq":
            return tr.at(a, tr.term(b))
        if op == "()" and k == "seq" and a.ty.a.k == "seq" and len(vals) == 3:
            return tr.at(tr.at(a, tr.term(b), "matrix row index in bounds"), tr.term(vals[2]), "matrix column index in bounds")
        if k == "opt":
            if op == "*":
                return tr.deref(a)
            if op == "->":
                return tr.deref(a)
        if op in ("==", "!=") and k in ("seq", "opt", "set"):
            return tr.compare(op, a, b)
        if op in ("==", "!=", "<", ">", "<=", ">=") and k in ("int", "dbl", "bool"):
            if fn is None:
                return tr.compare(op, a, b)
        if op == "<=>" and k == "seq" and a.ty.a.k == "int" and getattr(b.ty, "k", "") == "seq":
            self.use(tr, "lexicographic three-way comparison of vectors: antisymmetric, transitive, equal only for equal elements")
            return T("(cmp_seq %s %s)" % (par(tr.term(a)), par(tr.term(b))), Ty("int", True, 8))
        if op == "<=>" and k == "int":
            return None
        if op == "!" and k == "bool":
            return T("(not %s)" % par(tr.term(a)), BOOL)
        if op in ("&=", "|=", "^=") and k == "bool":
            f = {"^=": "xorb", "|=": "orb", "&=": "andb"}[op]
            tr.assign(a, T("(%s %s %s)" % (f, par(tr.term(a)), par(tr.term(tr.coerce(b, BOOL)))), BOOL))
            return a
        return None

    def invoke_obj(self, tr, c, vs):
        if c.name.startswith("ranges:"):
            return self.ranges_call(tr, c.name[7:], vs)
        nm = c.name.split("::")[-1]
        nm = re.sub(r"<.*", "", nm).strip()
        h = tr.spec.get("obj_calls", {}).get(nm) or tr.spec.get("obj_calls", {}).get(c.name)
        if h is not None:
            return h(tr, c, vs)
        if c.name.startswith("ranges:"):
            return self.ranges_call(tr, c.name[7:], vs)
        if nm == "less":
            return tr.compare("<", vs[0], vs[1])
        if nm == "greater":
            return tr.compare(">", vs[0], vs[1])
        if nm == "less_equal":
            return tr.compare("<=", vs[0], vs[1])
        if nm in ("greater_equal", "not_equal_to"):
            return tr.compare({"greater_equal": ">=", "not_equal_to": "!="}[nm], vs[0], vs[1])
        if nm == "equal_to":
            return tr.compare("==", vs[0], vs[1])
        if nm == "identity":
            return vs[0]
        if nm == "plus":
            return tr.arith("+", vs[0], vs[1], vs[0].ty)
        if nm == "minus":
            return tr.arith("-", vs[0], vs[1], vs[0].ty)
        if nm == "multiplies":
            return tr.arith("*", vs[0], vs[1], vs[0].ty)
        if nm == "uniform_int_distribution":
            lb, ub = tr.term(c.args[0]), tr.term(c.args[1])
            tr.check("uniform_int_distribution has lower bound <= upper bound", "%s <= %s" % (lb, ub))
            self.use(tr, "std::uniform_int_distribution{a,b}(g): some value in [a,b]")
            ty = c.args[0].ty
            r = tr.any(ty)
            tr.assume("%s <= %s <= %s" % (lb, r, ub))
            return T(r, ty)
        if nm == "prng" or nm == "ConcurrentXoroshiro128p":
            self.use(tr, "prng(): some 64-bit value")
            r = tr.any(SZ)
            tr.assume("0 <= %s <= 18446744073709551615" % r)
            return T(r, SZ)
        raise Unsupported("call of object " + c.name)

    def range_for(self, tr, vb, ve, name, var, body, s):
        raise Unsupported("range-for over %s" % getattr(vb, "name", vb.kind))

    # ------------------------------------------------------------------ closures as formulas
    def pred_formula(self, tr, clo, argvals):
        """truth of closure on symbolic values; returns (formula, preconditions)"""
        old, b = tr.sub()
        try:
            r = tr.invoke(clo, argvals)
            if isinstance(r, (T, L)) and r.ty.k == "int":
                r = tr.coerce(r, BOOL)
            t = tr.term(r)
        finally:
            tr.blk = old
        return tr.pure_formula(b, t)

    def val_formula(self, tr, clo, argvals):
        old, b = tr.sub()
        try:
            r = tr.invoke(clo, argvals)
            t = tr.term(r)
        finally:
            tr.blk = old
        f, pre = tr.pure_formula(b, t)
        return f, pre, r.ty

    def rng(self, tr, a, b, what="valid iterator range"):
        if not same_seq(a.seq, b.seq):
            raise Unsupported("iterator pair from different containers")
        lo, hi = idx_of(a), idx_of(b)
        if a.rev:
            lo, hi = hi, lo
        f = "0 <= %s <= %s && %s <= %s" % (lo, hi, hi, tr.seq_len(a.seq))
        if not (lo == "0" and hi == tr.seq_len(a.seq)):
            tr.check(what, f)
        return lo, hi

    def elem(self, tr, seq, k):
        return T("get_%s %s %s" % (sfx(seq.ty.a), par(tr.term(seq)), par(k)), seq.ty.a)

    def forall_pre(self, tr, pre, guard, var):
        for lbl, p in pre:
            tr.check(lbl, "forall %s. %s -> %s" % (var, guard, par(p)))

    # ------------------------------------------------------------------ std free functions
    def std_fn(self, tr, name, vs, n, rd):
        h = tr.spec.get("std", {}).get(name)
        if h is not None:
            return h(tr, vs, n)
        m = getattr(self, "std_" + re.sub(r"\W", "_", name), None)
        if m is None:
            raise Unsupported("std function %s at %s" % (name, loc(n)))
        r = m(tr, vs, n)
        if r is None:
            raise Unsupported("std function %s at %s" % (name, loc(n)))
        return r

    def std_move(self, tr, vs, n):
        if len(vs) == 1:
            return vs[0]
        if len(vs) == 3:
            return self.std_copy(tr, vs, n)

    std_forward = std_as_const = std_addressof = std_to_address = std_move_if_noexcept = lambda self, tr, vs, n: vs[0]

    def std_operator__sz(self, tr, vs, n):
        return tr.coerce(vs[0], SZ)

    def std_swap(self, tr, vs, n):
        a, b = vs
        if isinstance(a, VarIt):
            raise Unsupported("swap of iterators")
        ta = tr.let(tr.term(a), "sw")
        tb = tr.let(tr.term(b), "sw")
        a, b = tr.freeze_lv(a), tr.freeze_lv(b)
        k = "grow" if a.ty.k == "seq" else None
        tr.set_term(a, tb, k)
        tr.set_term(b, ta, k)
        return UNIT

    def std_iter_swap(self, tr, vs, n):
        return self.std_swap(tr, [tr.deref(vs[0]), tr.deref(vs[1])], n)

    def std_exchange(self, tr, vs, n):
        old = tr.snap(vs[0])
        tr.assign(vs[0], vs[1])
        return old

    def std_max(self, tr, vs, n):
        if len(vs) == 1 and vs[0].ty.k == "seq":
            raise Unsupported("max(init list)")
        if len(vs) == 3:
            return None
        if len(vs) == 0:
            return self.nl(tr, n, "max")
        a, b = vs
        return self.ite(tr, tr.compare("<", a, b).term, b, a)

    def std_min(self, tr, vs, n):
        if len(vs) == 0:
            return self.nl(tr, n, "min")
        if len(vs) != 2:
            return None
        a, b = vs
        return self.ite(tr, tr.compare("<", b, a).term, b, a)

    def std_minmax(self, tr, vs, n):
        if len(vs) != 2:
            return None
        a, b = tr.snap(vs[0]), tr.snap(vs[1])
        c = tr.compare("<", b, a).term
        return Tup([self.ite(tr, c, b, a), self.ite(tr, c, a, b)])

    def nl(self, tr, n, which):
        ty = tr.ty(n)
        if ty.k == "int":
            mn, mx = irange(ty)
            return T(ilit(mx if which == "max" else mn), ty)
        if ty.k == "dbl":
            return T("d_max" if which == "max" else "d_min_pos", DBL)
        return None

    def std_lowest(self, tr, vs, n):
        return T("(d_neg d_max)", DBL)

    def std_infinity(self, tr, vs, n):
        return T("d_inf", DBL)

    def std_epsilon(self, tr, vs, n):
        return T("d_eps", DBL)

    def std_quiet_NaN(self, tr, vs, n):
        return T("d_nan", DBL)

    def ite(self, tr, c, a, b):
        return T("(if %s then %s else %s)" % (c, tr.term(a), tr.term(b)), a.ty)

    def std_clamp(self, tr, vs, n):
        if len(vs) != 3:
            return None
        v, lo, hi = vs
        tr.check("std::clamp has lower bound <= upper bound", "not %s" % tr.compare("<", hi, lo).term)
        return T("(if %s then %s else if %s then %s else %s)" % (tr.compare("<", v, lo).term, tr.term(lo), tr.compare("<", hi, v).term, tr.term(hi), tr.term(v)), v.ty)

    def std_abs(self, tr, vs, n):
        v = vs[0]
        if v.ty.k == "dbl":
            return T("d_abs %s" % par(tr.term(v)), DBL)
        return T("(if %s < 0 then - %s else %s)" % ((par(tr.term(v)),) * 3), v.ty)

    std_fabs = std_abs

    def std_isnan(self, tr, vs, n):
        return T("(not (d_is_num %s))" % par(tr.term(vs[0])), BOOL)

    def std_isfinite(self, tr, vs, n):
        return T("(d_finite %s)" % par(tr.term(vs[0])), BOOL)

    def _d1(fn):
        def f(self, tr, vs, n):
            return T("%s %s" % (fn, par(tr.term(tr.coerce(vs[0], DBL)))), DBL)
        return f
    std_sqrt = _d1("d_sqrt")
    std_exp = _d1("d_exp")
    std_log = _d1("d_log")
    std_floor = _d1("d_floor")
    std_ceil = _d1("d_ceil")
    std_round = _d1("d_round")
    std_sin = _d1("d_sin")
    std_cos = _d1("d_cos")
    std_acos = _d1("d_acos")
    std_atan = _d1("d_atan")
    std_tgamma = _d1("d_tgamma")
    std_exp2 = _d1("d_exp2")

    def std_signbit(self, tr, vs, n):
        return T("(d_signbit %s)" % par(tr.term(vs[0])), BOOL)

    def std_pow(self, tr, vs, n):
        return T("d_pow %s %s" % (par(tr.term(tr.coerce(vs[0], DBL))), par(tr.term(tr.coerce(vs[1], DBL)))), DBL)

    def std_distance(self, tr, vs, n):
        return tr.iter_arith("-", vs[1], vs[0])

    def std_next(self, tr, vs, n):
        return tr.it_add(vs[0], tr.term(vs[1]) if len(vs) > 1 else "1", 1)

    def std_prev(self, tr, vs, n):
        return tr.it_add(vs[0], tr.term(vs[1]) if len(vs) > 1 else "1", -1)

    def std_advance(self, tr, vs, n):
        tr.assign(vs[0], tr.it_add(vs[0], tr.term(vs[1]), 1))
        return UNIT

    def std_begin(self, tr, vs, n):
        return It(vs[0], "0")

    def std_end(self, tr, vs, n):
        return It(vs[0], tr.size_of(vs[0]).term)

    std_cbegin, std_cend = std_begin, std_end

    def std_size(self, tr, vs, n):
        return tr.size_of(vs[0])

    def std_ssize(self, tr, vs, n):
        return T(tr.size_of(vs[0]).term, PD)

    def std_get(self, tr, vs, n):
        raise Unsupported("std::get")

    def std_invoke(self, tr, vs, n):
        c = vs[0]
        if isinstance(c, (Clo, Obj)):
            return tr.invoke(c, vs[1:])
        return None

    std___invoke = std_invoke

    def std_ref(self, tr, vs, n):
        return vs[0]

    std_cref = std_ref

    def std_make_pair(self, tr, vs, n):
        return Tup([tr.snap(v) for v in vs])

    std_make_tuple = std_make_pair

    def std___assert_fail(self, tr, vs, n):
        tr.check("assertion failure is not reached", "false")
        return UNIT

    # -- searching
    def std_find(self, tr, vs, n):
        a, b, v = vs
        return self.find_gen(tr, a, b, lambda k: tr.compare("==", self.elem(tr, a.seq, k), v).term, [])

    def find_gen(self, tr, a, b, f, pre):
        lo, hi = self.rng(tr, a, b)
        self.use(tr, "std::find/find_if: first match, last if none")
        r = tr.any(SZ)
        if a.rev:
            raise Unsupported("find on reverse iterators")
        tr.assume("%s <= %s <= %s" % (lo, r, hi))
        tr.assume("%s < %s -> %s" % (r, hi, par(f(r))))
        tr.assume("forall k'. %s <= k' < %s -> not %s" % (lo, r, par(f("k'"))))
        return It(a.seq, r)

    def std_find_if(self, tr, vs, n):
        a, b, p = vs
        f, pre = self.pred_formula(tr, p, [self.elem(tr, a.seq, "k'")])
        lo, hi = self.rng(tr, a, b)
        self.forall_pre(tr, pre, "%s <= k' < %s" % (lo, hi), "k'")
        return self.find_gen(tr, a, b, lambda k: "(let k' = %s in %s)" % (k, f) if k != "k'" else f, pre)

    def std_count_if(self, tr, vs, n):
        a, b, p = vs
        f, pre = self.pred_formula(tr, p, [self.elem(tr, a.seq, "k'")])
        lo, hi = self.rng(tr, a, b)
        self.forall_pre(tr, pre, "%s <= k' < %s" % (lo, hi), "k'")
        self.use(tr, "std::count_if: not negative, at most the length of the range; whether no, one or several elements satisfy the predicate")
        r = tr.any(Ty("int", True, 64))
        some = lambda lo_: "(exists k'. %s <= k' < %s /\\ %s)" % (lo_, hi, par(f))
        tr.assume("0 <= %s <= %s - %s" % (r, hi, lo))
        tr.assume("%s > 0 <-> %s" % (r, some(lo)))
        tr.assume("%s > 1 <-> (exists j'. %s <= j' < %s /\\ (let k' = j' in %s) /\\ %s)" % (r, lo, hi, f, some("j' + 1")))
        return T(r, Ty("int", True, 64))

    def std_find_if_not(self, tr, vs, n):
        a, b, p = vs
        f, pre = self.pred_formula(tr, p, [self.elem(tr, a.seq, "k'")])
        lo, hi = self.rng(tr, a, b)
        self.forall_pre(tr, pre, "%s <= k' < %s" % (lo, hi), "k'")
        return self.find_gen(tr, a, b, lambda k: "not (let k' = %s in %s)" % (k, f) if k != "k'" else "not (%s)" % f, pre)

    def quant(self, tr, vs, neg_in, neg_out):
        a, b, p = vs
        lo, hi = self.rng(tr, a, b)
        f, pre = self.pred_formula(tr, p, [self.elem(tr, a.seq, "k'")])
        self.forall_pre(tr, pre, "%s <= k' < %s" % (lo, hi), "k'")
        r = tr.any(BOOL)
        f = "not (%s)" % f if neg_in else f
        q = "(forall k'. %s <= k' < %s -> %s)" % (lo, hi, par(f))
        tr.assume("%s <-> %s%s" % (r, "not " if neg_out else "", q))
        return T(r, BOOL)

    def std_all_of(self, tr, vs, n):
        return self.quant(tr, vs, False, False)

    def std_any_of(self, tr, vs, n):
        return self.quant(tr, vs, True, True)

    def std_none_of(self, tr, vs, n):
        return self.quant(tr, vs, True, False)

    def std_is_sorted(self, tr, vs, n):
        a, b = vs[0], vs[1]
        lo, hi = self.rng(tr, a, b)
        f, pre = self.cmp_formula(tr, vs[2] if len(vs) > 2 else None, a.seq, "(k' + 1)", "k'")
        self.forall_pre(tr, pre, "%s <= k' /\\ k' + 1 < %s" % (lo, hi), "k'")
        r = tr.any(BOOL)
        tr.assume("%s <-> (forall k'. %s <= k' /\\ k' + 1 < %s -> not %s)" % (r, lo, hi, par(f)))
        return T(r, BOOL)

    def cmp_formula(self, tr, comp, seq, j, k):
        return self.cmp_vals(tr, comp, self.elem(tr, seq, j), self.elem(tr, seq, k))

    def cmp_vals(self, tr, comp, x, y):
        if comp is None:
            return tr.compare("<", x, y).term, []
        return self.pred_formula(tr, comp, [x, y])

    def minmax(self, tr, vs, is_min):
        a, b = vs[0], vs[1]
        comp = vs[2] if len(vs) > 2 else None
        lo, hi = self.rng(tr, a, b)
        self.use(tr, "std::min_element/max_element: first extremal element, last if empty")
        r = tr.any(SZ)
        s = a.seq
        tr.assume("%s <= %s <= %s" % (lo, r, hi))
        tr.assume("(%s = %s) <-> (%s >= %s)" % (r, hi, lo, hi))
        if is_min:
            f1, p1 = self.cmp_formula(tr, comp, s, "k'", r)
            f2, p2 = self.cmp_formula(tr, comp, s, r, "k'")
        else:
            f1, p1 = self.cmp_formula(tr, comp, s, r, "k'")
            f2, p2 = self.cmp_formula(tr, comp, s, "k'", r)
        self.forall_pre(tr, p1 + p2, "%s <= k' < %s /\\ %s <= %s < %s" % (lo, hi, lo, r, hi), "k'")
        tr.assume("forall k'. %s <= k' < %s -> not %s" % (lo, hi, par(f1)))
        tr.assume("forall k'. %s <= k' < %s -> %s" % (lo, r, par(f2)))
        return It(s, r)

    def std_min_element(self, tr, vs, n):
        return self.minmax(tr, vs, True)

    def std_max_element(self, tr, vs, n):
        return self.minmax(tr, vs, False)

    def std_equal(self, tr, vs, n):
        a, b, c = vs[0], vs[1], vs[2]
        lo, hi = self.rng(tr, a, b)
        rest = vs[3:]
        d = None
        if rest and isinstance(rest[0], (It, VarIt)):
            d = rest.pop(0)
        comp = rest[0] if rest else None
        lo2 = idx_of(c)
        x = self.elem(tr, a.seq, "(%s + k')" % lo if lo != "0" else "k'")
        y = self.elem(tr, c.seq, "(%s + k')" % lo2 if lo2 != "0" else "k'")
        f, pre = self.pred_formula(tr, comp, [x, y]) if comp is not None else (tr.compare("==", x, y).term, [])
        ln = "(%s - %s)" % (hi, lo) if lo != "0" else hi
        r = tr.any(BOOL)
        g = "(forall k'. 0 <= k' < %s -> %s)" % (ln, par(f))
        if d is not None:
            l2 = "(%s - %s)" % (idx_of(d), lo2) if lo2 != "0" else idx_of(d)
            self.forall_pre(tr, pre, "0 <= k' < %s /\\ %s = %s" % (ln, ln, l2), "k'")
            tr.assume("%s <-> (%s = %s /\\ %s)" % (r, ln, l2, g))
        else:
            tr.check("second range is long enough", "%s + %s <= %s" % (lo2, ln, tr.seq_len(c.seq)))
            self.forall_pre(tr, pre, "0 <= k' < %s" % ln, "k'")
            tr.assume("%s <-> %s" % (r, g))
        return T(r, BOOL)

    # -- mutation of ranges: the result is a fresh sequence related to the old one
    def fresh_like(self, tr, a, lo, hi):
        s = a.seq
        e = sfx(s.ty.a)
        old = tr.let(tr.term(s), "o")
        new = tr.any(s.ty, "n")
        tr.assume("len_%s %s = len_%s %s" % (e, new, e, old))
        tr.assume("forall k'. 0 <= k' < len_%s %s /\\ not (%s <= k' < %s) -> get_%s %s k' = get_%s %s k'" % (e, old, lo, hi, e, new, e, old))
        return old, new, e

    def commit(self, tr, a, new):
        if not isinstance(a.seq, L):
            raise Unsupported("modification through a constant range")
        tr.set_term(a.seq, new, "elem")

    def perm_model(self, tr, a, b, what):
        lo, hi = self.rng(tr, a, b)
        lo, hi = tr.let(lo, "lo"), tr.let(hi, "hi")
        old, new, e = self.fresh_like(tr, a, lo, hi)
        p, q = tr.any(Ty("seq", SZ), "pm"), tr.any(Ty("seq", SZ), "qm")
        tr.reg(Ty("seq", SZ))
        tr.assume("len_i %s = len_%s %s /\\ len_i %s = len_%s %s" % (p, e, old, q, e, old))
        tr.assume("forall k'. 0 <= k' < len_%s %s -> 0 <= get_i %s k' < len_%s %s /\\ (%s <= k' < %s -> %s <= get_i %s k' < %s) /\\ (not (%s <= k' < %s) -> get_i %s k' = k') /\\ get_%s %s k' = get_%s %s (get_i %s k') /\\ get_i %s (get_i %s k') = k'"
                  % (e, old, p, e, old, lo, hi, lo, p, hi, lo, hi, p, e, new, e, old, p, q, p))
        tr.assume("forall k'. 0 <= k' < len_%s %s -> 0 <= get_i %s k' < len_%s %s /\\ (%s <= k' < %s -> %s <= get_i %s k' < %s) /\\ get_%s %s k' = get_%s %s (get_i %s k') /\\ get_i %s (get_i %s k') = k'"
                  % (e, old, q, e, old, lo, hi, lo, q, hi, e, old, e, new, q, p, q))
        self.use(tr, what)
        tr.last_perm = (p, q)
        h = tr.spec.get("after_perm")
        if h:
            tr.blk.add("raw", h(old, new, p, q, e, lo, hi))
        return old, new, e, lo, hi

    def std_sort(self, tr, vs, n):
        a, b = vs[0], vs[1]
        comp = vs[2] if len(vs) > 2 else None
        if a.rev:
            raise Unsupported("sort of reverse iterators")
        e0 = sfx(a.seq.ty.a)
        if comp is not None and not (isinstance(comp, Obj)):
            self.strict_weak(tr, comp, a, b)
        old, new, e, lo, hi = self.perm_model(tr, a, b, "std::sort: permutation of the range, sorted by the comparator (given a strict weak order)")
        f, pre = self.cmp_vals(tr, comp, T("get_%s %s k2'" % (e, new), a.seq.ty.a), T("get_%s %s k1'" % (e, new), a.seq.ty.a))
        tr.assume("forall k1' k2'. %s <= k1' < k2' < %s -> not %s" % (lo, hi, par(f)))
        if tr.spec.get("after_sort"):
            tr.blk.add("raw", tr.spec["after_sort"](old, new, lo, hi))
        self.sort_pre(tr, comp, a, old, e, lo, hi)
        self.commit(tr, a, new)
        return UNIT

    std_stable_sort = std_sort

    def sort_pre(self, tr, comp, a, old, e, lo, hi):
        if comp is None:
            return
        f, pre = self.cmp_vals(tr, comp, T("get_%s %s k1'" % (e, old), a.seq.ty.a), T("get_%s %s k2'" % (e, old), a.seq.ty.a))
        for lbl, p in pre:
            tr.check(lbl, "forall k1' k2'. %s <= k1' < %s /\\ %s <= k2' < %s -> %s" % (lo, hi, lo, hi, par(p)))

    def strict_weak(self, tr, comp, a, b):
        if tr.spec.get("no_swo"):
            return
        lo, hi = ("0", tr.seq_len(a.seq)) if a.rev or b.rev else (par(idx_of(a)), par(idx_of(b)))
        X = [self.elem(tr, a.seq, "k%d'" % i) for i in range(3)]
        def c(i, j):
            f, _ = self.cmp_vals(tr, comp, X[i], X[j])
            return par(f)
        g = " /\\ ".join("%s <= k%d' < %s" % (lo, i, hi) for i in range(3))
        tr.check("comparator is irreflexive", "forall k0'. %s <= k0' < %s -> not %s" % (lo, hi, c(0, 0)))
        tr.check("comparator is transitive", "forall k0' k1' k2'. %s -> %s -> %s -> %s" % (g, c(0, 1), c(1, 2), c(0, 2)))
        tr.check("incomparability under the comparator is transitive", "forall k0' k1' k2'. %s -> %s -> %s \\/ %s" % (g, c(0, 2), c(0, 1), c(1, 2)))

    def std_partial_sort(self, tr, vs, n):
        a, m, b = vs[0], vs[1], vs[2]
        comp = vs[3] if len(vs) > 3 else None
        im = tr.let(idx_of(m), "m")
        if comp is not None and not isinstance(comp, Obj):
            self.strict_weak(tr, comp, a, b)
        old, new, e, lo, hi = self.perm_model(tr, a, b, "std::partial_sort: permutation; the first part is sorted and not greater than the rest")
        tr.check("valid iterator range", "%s <= %s <= %s" % (lo, im, hi))
        f, pre = self.cmp_vals(tr, comp, T("get_%s %s k2'" % (e, new), a.seq.ty.a), T("get_%s %s k1'" % (e, new), a.seq.ty.a))
        tr.assume("forall k1' k2'. %s <= k1' < k2' < %s /\\ k1' < %s -> not %s" % (lo, hi, im, par(f)))
        self.sort_pre(tr, comp, a, old, e, lo, hi)
        self.commit(tr, a, new)
        return UNIT

    def std_nth_element(self, tr, vs, n):
        a, m, b = vs[0], vs[1], vs[2]
        comp = vs[3] if len(vs) > 3 else None
        im = tr.let(idx_of(m), "m")
        if comp is not None and not isinstance(comp, Obj):
            self.strict_weak(tr, comp, a, b)
        old, new, e, lo, hi = self.perm_model(tr, a, b, "std::nth_element: permutation; elements before nth are not greater than those from nth on")
        tr.check("valid iterator range", "%s <= %s <= %s" % (lo, im, hi))
        f, pre = self.cmp_vals(tr, comp, T("get_%s %s k2'" % (e, new), a.seq.ty.a), T("get_%s %s k1'" % (e, new), a.seq.ty.a))
        tr.assume("forall k1' k2'. %s <= k1' <= %s <= k2' < %s -> not %s" % (lo, im, hi, par(f)))
        self.sort_pre(tr, comp, a, old, e, lo, hi)
        self.commit(tr, a, new)
        return UNIT

    def std_shuffle(self, tr, vs, n):
        old, new, e, lo, hi = self.perm_model(tr, vs[0], vs[1], "std::shuffle: some permutation of the range")
        self.commit(tr, vs[0], new)
        return UNIT

    def std_reverse(self, tr, vs, n):
        a, b = vs
        lo, hi = self.rng(tr, a, b)
        lo, hi = tr.let(lo, "lo"), tr.let(hi, "hi")
        old, new, e = self.fresh_like(tr, a, lo, hi)
        self.use(tr, "std::reverse: element k of the range becomes element lo+hi-1-k")
        tr.assume("forall k'. %s <= k' < %s -> get_%s %s k' = get_%s %s (%s + %s - 1 - k')" % (lo, hi, e, new, e, old, lo, hi))
        tr.assume("forall k'. %s <= k' < %s -> get_%s %s k' = get_%s %s (%s + %s - 1 - k')" % (lo, hi, e, old, e, new, lo, hi))
        self.commit(tr, a, new)
        return UNIT

    def std_rotate(self, tr, vs, n):
        a, m, b = vs
        lo, hi = self.rng(tr, a, b)
        lo, hi = tr.let(lo, "lo"), tr.let(hi, "hi")
        im = tr.let(idx_of(m), "m")
        tr.check("valid iterator range", "%s <= %s <= %s" % (lo, im, hi))
        old, new, e = self.fresh_like(tr, a, lo, hi)
        self.use(tr, "std::rotate(f,m,l): [m,l) followed by [f,m)")
        # forward and backward directions
        tr.assume("forall k'. %s <= k' < %s -> get_%s %s k' = (if k' < %s + %s - %s then get_%s %s (k' + %s - %s) else get_%s %s (k' - (%s - %s)))" % (lo, hi, e, new, lo, hi, im, e, old, im, lo, e, old, hi, im))
        tr.assume("forall k'. %s <= k' < %s -> get_%s %s k' = (if k' < %s then get_%s %s (k' + (%s - %s)) else get_%s %s (k' - (%s - %s)))" % (lo, hi, e, old, im, e, new, hi, im, e, new, im, lo))
        self.commit(tr, a, new)
        return It(a.seq, "(%s + %s - %s)" % (lo, hi, im))

    def std_fill(self, tr, vs, n):
        a, b, v = vs
        lo, hi = self.rng(tr, a, b)
        lo, hi = tr.let(lo, "lo"), tr.let(hi, "hi")
        t = tr.let(tr.term(tr.coerce(v, a.seq.ty.a)), "v")
        old, new, e = self.fresh_like(tr, a, lo, hi)
        tr.assume("forall k'. %s <= k' < %s -> get_%s %s k' = %s" % (lo, hi, e, new, t))
        self.commit(tr, a, new)
        return UNIT

    def std_iota(self, tr, vs, n):
        a, b, v = vs
        lo, hi = self.rng(tr, a, b)
        lo, hi = tr.let(lo, "lo"), tr.let(hi, "hi")
        t = tr.let(tr.term(v), "v")
        old, new, e = self.fresh_like(tr, a, lo, hi)
        self.use(tr, "std::iota: element lo+k becomes v+k")
        tr.assume("forall k'. %s <= k' < %s -> get_%s %s k' = %s + (k' - %s)" % (lo, hi, e, new, t, lo))
        self.commit(tr, a, new)
        return UNIT

    def std_copy(self, tr, vs, n):
        a, b, d = vs
        lo, hi = self.rng(tr, a, b)
        if isinstance(d, Obj) and d.name == "back_inserter":
            s = d.args[0]
            e = sfx(s.ty.a)
            tr.set_term(s, "cat_%s %s (sub_%s %s %s %s)" % (e, par(tr.term(s)), e, par(tr.term(a.seq)), par(lo), par(hi)), "grow")
            return d
        lo, hi = tr.let(lo, "lo"), tr.let(hi, "hi")
        dl = tr.let(idx_of(d), "dl")
        tr.check("destination range is large enough", "%s + (%s - %s) <= %s" % (dl, hi, lo, tr.seq_len(d.seq)))
        src = tr.let(tr.term(a.seq), "src")
        old, new, e = self.fresh_like(tr, d, dl, "(%s + (%s - %s))" % (dl, hi, lo))
        e2 = sfx(a.seq.ty.a)
        if e2 != e:
            raise Unsupported("copy between different element types")
        tr.assume("forall k'. %s <= k' < %s + (%s - %s) -> get_%s %s k' = get_%s %s (%s + (k' - %s))" % (dl, dl, hi, lo, e, new, e, src, lo, dl))
        self.commit(tr, d, new)
        return It(d.seq, "(%s + (%s - %s))" % (dl, hi, lo))

    def std_back_inserter(self, tr, vs, n):
        return Obj("back_inserter", [vs[0]])

    def std_transform(self, tr, vs, n):
        a, b = vs[0], vs[1]
        if len(vs) == 4:
            d, f = vs[2], vs[3]
            args = lambda k: [self.elem(tr, a.seq, k)]
        else:
            c, d, f = vs[2], vs[3], vs[4]
            args = None
        lo, hi = self.rng(tr, a, b)
        if lo != "0":
            lo = tr.let(lo, "lo")
        hi = tr.let(hi, "hi")
        src = T(tr.let(tr.term(a.seq), "src"), a.seq.ty)
        if len(vs) == 4:
            arg = [self.elem(tr, src, "(%s + (k' - %s))" % (lo, "dl''"))]
        else:
            src2 = T(tr.let(tr.term(c.seq), "src"), c.seq.ty)
            lo2 = tr.let(idx_of(c), "lo")
            tr.check("second range is long enough", "%s + (%s - %s) <= %s" % (lo2, hi, lo, tr.seq_len(c.seq)))
            arg = [self.elem(tr, src, "(%s + (k' - %s))" % (lo, "dl''")), self.elem(tr, src2, "(%s + (k' - %s))" % (lo2, "dl''"))]
        if isinstance(d, Obj) and d.name == "back_inserter":
            raise Unsupported("transform to back_inserter")
        dl = tr.let(idx_of(d), "dl")
        for x in arg:
            x.term = x.term.replace("dl''", dl)
        tr.check("destination range is large enough", "%s + (%s - %s) <= %s" % (dl, hi, lo, tr.seq_len(d.seq)))
        fm, pre, rt = self.val_formula(tr, f, arg)
        fm = tr.term(tr.coerce(T(fm, rt), d.seq.ty.a))
        self.forall_pre(tr, pre, "%s <= k' < %s + (%s - %s)" % (dl, dl, hi, lo), "k'")
        old, new, e = self.fresh_like(tr, d, dl, "(%s + (%s - %s))" % (dl, hi, lo))
        self.use(tr, "std::transform: elementwise application")
        tr.assume("forall k'. %s <= k' < %s + (%s - %s) -> get_%s %s k' = %s" % (dl, dl, hi, lo, e, new, fm))
        self.commit(tr, d, new)
        return It(d.seq, "(%s + (%s - %s))" % (dl, hi, lo))

    def std_unique(self, tr, vs, n):
        a, b = vs[0], vs[1]
        if len(vs) > 2:
            return self.unique_pred(tr, a, b, vs[2])
        lo, hi = self.rng(tr, a, b)
        lo, hi = tr.let(lo, "lo"), tr.let(hi, "hi")
        old, new, e = self.fresh_like(tr, a, lo, hi)
        if tr.seq_len(T(new, a.seq.ty)) and a.seq.ty.a.k != "int":
            raise Unsupported("std::unique of " + repr(a.seq.ty.a))
        u = tr.any(SZ)
        self.use(tr, "std::unique: keeps the first element of every run of equal elements, in order")
        tr.assume("%s <= %s <= %s /\\ (%s < %s -> %s < %s)" % (lo, u, hi, lo, hi, lo, u))
        tr.assume("forall k'. %s <= k' < %s - 1 -> get_%s %s k' <> get_%s %s (k' + 1)" % (lo, u, e, new, e, new))
        tr.assume("forall k'. %s <= k' < %s -> exists p'. %s <= p' < %s /\\ get_%s %s k' = get_%s %s p'" % (lo, u, lo, hi, e, new, e, old))
        tr.assume("forall p'. %s <= p' < %s -> exists k'. %s <= k' < %s /\\ get_%s %s k' = get_%s %s p'" % (lo, hi, lo, u, e, new, e, old))
        tr.assume("(forall p' q'. %s <= p' <= q' < %s -> get_%s %s p' <= get_%s %s q') -> forall k' j'. %s <= k' < j' < %s -> get_%s %s k' < get_%s %s j'" % (lo, hi, e, old, e, old, lo, u, e, new, e, new))
        if tr.spec.get("after_unique"):
            tr.blk.add("raw", tr.spec["after_unique"](old, new, u, e, lo, hi))
        self.commit(tr, a, new)
        return It(a.seq, u)

    def unique_pred(self, tr, a, b, comp):
        lo, hi = self.rng(tr, a, b)
        lo, hi = tr.let(lo, "lo"), tr.let(hi, "hi")
        old, new, e = self.fresh_like(tr, a, lo, hi)
        u = tr.any(SZ)
        src, own = tr.any(Ty("seq", SZ)), tr.any(Ty("seq", SZ))
        self.use(tr, "std::unique with an equivalence: keeps the first element of every run of equivalent elements, in order")
        et = a.seq.ty.a
        def P(x, y):
            return par(self.cmp_vals(tr, comp, T(x, et), T(y, et))[0])
        o = lambda i: "(get_%s %s %s)" % (e, old, i)
        w = lambda i: "(get_%s %s %s)" % (e, new, i)
        R = "%s <= %%s < %s" % (lo, hi)
        tr.check("the predicate is reflexive", "forall x'. %s -> %s" % (R % "x'", P(o("x'"), o("x'"))))
        tr.check("the predicate is symmetric", "forall x' y'. %s -> %s -> %s -> %s" % (R % "x'", R % "y'", P(o("x'"), o("y'")), P(o("y'"), o("x'"))))
        tr.check("the predicate is transitive", "forall x' y' z'. %s -> %s -> %s -> %s -> %s -> %s" % (R % "x'", R % "y'", R % "z'", P(o("x'"), o("y'")), P(o("y'"), o("z'")), P(o("x'"), o("z'"))))
        tr.assume("%s <= %s <= %s /\\ (%s < %s -> %s < %s)" % (lo, u, hi, lo, hi, lo, u))
        tr.assume("forall k' [%s]. %s <= k' < %s -> %s <= get_i %s k' < %s /\\ %s = %s" % (w("k'"), lo, u, lo, src, hi, w("k'"), o("(get_i %s k')" % src)))
        tr.assume("forall j' k'. %s <= j' < k' < %s -> get_i %s j' < get_i %s k'" % (lo, u, src, src))
        tr.assume("forall p' [%s]. %s <= p' < %s -> %s <= get_i %s p' < %s /\\ %s" % (o("p'"), lo, hi, lo, own, u, P(w("(get_i %s p')" % own), o("p'"))))
        tr.assume("forall k'. %s <= k' < %s - 1 -> not %s" % (lo, u, P(w("k'"), w("(k' + 1)"))))
        if tr.spec.get("after_unique"):
            tr.blk.add("raw", tr.spec["after_unique"](old, new, u, e, lo, hi))
        self.commit(tr, a, new)
        return It(a.seq, u)

    def std_for_each(self, tr, vs, n):
        a, b, f = vs
        self.use(tr, "std::for_each: one call for every element in turn")
        e0 = tr.snap(b)
        i0 = tr.snap(a)
        it = tr.new_iter_var("for_each__i", i0, "range-index")
        tr.loop("range", lambda: tr.compare("!=", it, e0).term, lambda: tr.invoke(f, [tr.deref(It(it.seq, it.ref))]), lambda: tr.assign(it, It(it.seq, "(%s + 1)" % it.ref)),
                auto=["%s <= %s <= %s" % (par(i0.idx), it.ref, par(e0.idx))], variant="(%s - %s)" % (par(e0.idx), it.ref), rng=(it, i0, e0))
        return UNIT

    def std_erase(self, tr, vs, n):
        raise Unsupported("std::erase")

    def std_isinf(self, tr, vs, n):
        return T("(d_is_num %s && not (d_finite %s))" % ((par(tr.term(vs[0])),) * 2), BOOL)

    def std_minmax_element(self, tr, vs, n):
        a, b = vs[0], vs[1]
        self.use(tr, "std::minmax_element: a smallest and a largest element")
        return Tup([self.minmax(tr, vs, True), self.minmax(tr, vs, False)])

    def sum_args(self, tr, a, b, op, f):
        """the terms added by a (transform_)reduce / scan with std::plus"""
        if not (isinstance(op, Obj) and "plus" in op.name):
            raise Unsupported("reduction with another operation than std::plus")
        lo, hi = self.rng(tr, a, b)
        lo, hi = tr.let(lo, "lo"), tr.let(hi, "hi")
        src = T(tr.let(tr.term(a.seq), "src"), a.seq.ty)
        fm, pre, rt = self.val_formula(tr, f, [self.elem(tr, src, "k'")])
        self.forall_pre(tr, pre, "%s <= k' < %s" % (lo, hi), "k'")
        return lo, hi, fm, rt

    def std_transform_reduce(self, tr, vs, n):
        a, b, init, op, f = vs
        lo, hi, fm, rt = self.sum_args(tr, a, b, op, f)
        t = tr.let(tr.term(tr.coerce(init, DBL)), "v")
        r = tr.any(DBL)
        self.use(tr, "std::transform_reduce with plus: a floating-point sum in some order (of non-negative numbers: a number not below any of them)")
        tr.assume("d_is_num %s -> d_rk d_zero <= d_rk %s -> (forall k'. %s <= k' < %s -> d_is_num %s /\\ d_rk d_zero <= d_rk %s) -> d_is_num %s /\\ d_rk %s <= d_rk %s /\\ (forall k'. %s <= k' < %s -> d_rk %s <= d_rk %s)"
                  % (t, t, lo, hi, par(fm), par(fm), r, t, r, lo, hi, par(fm), r))
        return T(r, DBL)

    def std_transform_inclusive_scan(self, tr, vs, n):
        a, b, d, op, f = vs
        lo, hi, fm, rt = self.sum_args(tr, a, b, op, f)
        dl = tr.let(idx_of(d), "dl")
        tr.check("destination range is large enough", "%s + (%s - %s) <= %s" % (dl, hi, lo, tr.seq_len(d.seq)))
        old, new, e = self.fresh_like(tr, d, dl, "(%s + (%s - %s))" % (dl, hi, lo))
        self.use(tr, "std::transform_inclusive_scan with plus: partial sums, each the previous one plus the next term (libstdc++)")
        tr.assume("forall k'. %s <= k' < %s -> get_%s %s (%s + (k' - %s)) = (if k' = %s then %s else d_add (get_%s %s (%s + (k' - %s) - 1)) %s)" % (lo, hi, e, new, dl, lo, lo, par(fm), e, new, dl, lo, par(fm)))
        self.commit(tr, d, new)
        return It(d.seq, "(%s + (%s - %s))" % (dl, hi, lo))

    def std_generate(self, tr, vs, n):
        a, b, f = vs
        self.use(tr, "std::generate: every element in turn becomes the value of a call")
        e0 = tr.snap(b)
        i0 = tr.snap(a)
        it = tr.new_iter_var("generate__i", i0, "range-index")

        def body():
            r = tr.invoke(f, [])
            old, new, e = self.fresh_like(tr, It(a.seq, it.ref), it.ref, "(%s + 1)" % it.ref)
            tr.assume("get_%s %s %s = %s" % (e, new, it.ref, tr.term(tr.coerce(r, a.seq.ty.a))))
            self.commit(tr, a, new)
        tr.loop("range", lambda: tr.compare("!=", it, e0).term, body, lambda: tr.assign(it, It(it.seq, "(%s + 1)" % it.ref)),
                auto=["%s <= %s <= %s" % (par(i0.idx), it.ref, par(e0.idx))], variant="(%s - %s)" % (par(e0.idx), it.ref), rng=(it, i0, e0))
        return UNIT

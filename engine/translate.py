"""Translates one real C++ function (clang AST of /repo's current source, concrete instantiation)
into a WhyML function annotated with the contract from /verif/specs.

The translation is syntax directed: every executable statement of the function body (and of the /repo functions it
calls that carry no contract of their own, which are inlined) appears in the result.  Container element access, iterator
dereference, arithmetic, conversions and GAPP_ASSERT conditions become proof obligations.
"""
import os, re
from ctypes_ import Ty, parse, split_targs, BOOL, DBL, VOID, SZ, PD
import cxxast


class Unsupported(Exception):
    pass


# ----------------------------------------------------------------------------------------------- values
class V:
    kind = "?"


class T(V):
    kind = "T"

    def __init__(self, term, ty):
        self.term, self.ty = term, ty


class L(V):
    """lvalue: WhyML ref `root` followed by accessors ('f', field, ty) / ('i', term, ty)  (ty = type after the access)"""
    kind = "L"

    def __init__(self, root, path, ty, rty):
        self.root, self.path, self.ty, self.rty = root, path, ty, rty

    def ext(self, acc):
        return L(self.root, self.path + [acc], acc[2], self.rty)

    def key(self):
        return (self.root, tuple(p[1] for p in self.path))


class It(V):
    kind = "It"

    def __init__(self, seq, idx, rev=False):
        self.seq, self.idx, self.rev = seq, idx, rev     # seq: L or T (seq typed), idx: term (absolute index of forward position)

    @property
    def ty(self):
        return Ty("iter", self.seq.ty.a)


class VarIt(V):
    """a local variable of iterator type; binding of container is fixed at initialisation"""
    kind = "VarIt"

    def __init__(self, seq, ref, rev=False):
        self.seq, self.ref, self.rev = seq, ref, rev

    @property
    def ty(self):
        return Ty("iter", self.seq.ty.a)


class Clo(V):
    kind = "Clo"
    ty = Ty("opaque", "closure")

    def __init__(self, call, env=None, this=None, node=None, rec=None):
        self.call, self.env, self.this, self.node, self.rec = call, env, this, node, rec


class Tup(V):
    kind = "Tup"

    def __init__(self, vs):
        self.vs = vs

    @property
    def ty(self):
        return Ty("tup", tuple(v.ty for v in self.vs))


def drop_default_args(args):
    """trailing default arguments are evaluated from the callee's parameter declarations"""
    args = list(args)
    while args and args[-1].get("kind") == "CXXDefaultArgExpr" and not inner(args[-1]):
        args.pop()
    return args


class Obj(V):
    kind = "Obj"

    def __init__(self, name, args=(), ty=None):
        self.name, self.args = name, list(args)
        self.ty = ty or Ty("opaque", name)


UNIT = T("()", VOID)


class Block:
    def __init__(self):
        self.items = []          # ('let',n,term) ('ref',n,term,ty) ('assert',lbl,f) ('assume',f) ('raw',text)
        self.writes = []         # (root, fields tuple, kind)
        self.locals = set()
        self.effect = False      # anything but let/assert/assume
        self.term_flow = False   # block never falls through

    def add(self, *it):
        self.items.append(it)
        if it[0] not in ("let", "assert", "assume"):
            self.effect = True


def sfx(ty):
    k = ty.k
    if k == "int":
        return "i"
    if k == "bool":
        return "b"
    if k == "dbl":
        return "d"
    if k == "seq":
        return "s" + sfx(ty.a)
    if k == "set":
        return "z" + sfx(ty.a)
    if k == "rec":
        return ty.a
    if k == "tup":
        return "t" + "".join(sfx(x) for x in ty.a)
    if k == "opt":
        return "o" + sfx(ty.a)
    if k == "opaque":
        return "q"
    raise Unsupported("no WhyML type for %r" % ty)


def wty(ty):
    k = ty.k
    if k == "int":
        return "int"
    if k == "bool":
        return "bool"
    if k == "dbl":
        return "dbl"
    if k == "void":
        return "unit"
    if k == "seq":
        return "seq_" + sfx(ty.a)
    if k == "set":
        return "set_" + sfx(ty.a)
    if k == "rec":
        return ty.a
    if k == "tup":
        return "(" + ", ".join(wty(x) for x in ty.a) + ")"
    if k == "opt":
        return "opt_" + sfx(ty.a)
    if k == "opaque":
        return "opq"
    if k == "iter":
        return "int"
    raise Unsupported("no WhyML type for %r" % ty)


WRES = {"val", "end", "in", "at", "old", "type", "use", "goal", "lemma", "axiom", "module", "result", "match", "with",
        "fun", "function", "predicate", "let", "ref", "to", "by", "so", "pure", "any", "abstract", "begin", "done",
        "exception", "clone", "scope", "import", "export", "variant", "mutable", "private", "alias", "range", "float",
        "constant", "label", "check", "assume", "assert", "invariant", "raises", "reads", "writes", "returns", "ghost",
        "downto", "diverges", "try", "raise", "rec", "then", "not", "true", "false", "absurd", "coinductive",
        "inductive", "theory", "epsilon", "partial", "meta", "requires", "ensures", "return", "break", "continue"}


def san(n):
    n = re.sub(r"\W", "_", n)
    if not n:
        n = "anon"
    if n[0].isupper() or n[0].isdigit():
        n = "v_" + n
    if n in WRES:
        n += "_"
    return n


def lbl_(s):
    return s.replace("[", "(").replace("]", ")")


def par(t):
    if re.match(r"^[\w']+$", t) or (t.startswith("(") and _closed(t)):
        return t
    return "(" + t + ")"


def _closed(t):
    d = 0
    for i, c in enumerate(t):
        if c == "(":
            d += 1
        elif c == ")":
            d -= 1
            if d == 0 and i < len(t) - 1:
                return False
    return True


INTMAX = {(False, 64): 2**64 - 1, (True, 64): 2**63 - 1, (False, 32): 2**32 - 1, (True, 32): 2**31 - 1,
          (False, 8): 255, (True, 8): 127, (False, 16): 65535, (True, 16): 32767, (True, 128): 2**127 - 1, (False, 128): 2**128 - 1}
INTNAME = {(False, 64): "u64", (True, 64): "i64", (False, 32): "u32", (True, 32): "i32", (False, 8): "u8", (True, 8): "i8",
           (False, 16): "u16", (True, 16): "i16", (True, 128): "i128", (False, 128): "u128"}


def irange(ty):
    mx = INTMAX[(ty.a, ty.b)]
    mn = -mx - 1 if ty.a else 0
    return mn, mx


def ilit(n):
    return str(n) if n >= 0 else "(%d)" % n


def node_type_str(n):
    t = n.get("type", {})
    return t.get("desugaredQualType") or t.get("qualType", "")


TRANSPARENT = ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr",
               "ConstantExpr", "SubstNonTypeTemplateParmExpr", "CXXFunctionalCastExpr", "CXXStaticCastExpr", "CStyleCastExpr",
               "CXXConstCastExpr", "FullExpr")


def inner(n):
    return [c for c in n.get("inner", []) if c]


def strip(n):
    while n.get("kind") in TRANSPARENT:
        ii = inner(n)
        ii = [c for c in ii if "Decl" not in c.get("kind", "") or c.get("kind") == "DeclRefExpr"]
        if not ii:
            break
        n = ii[-1] if n.get("kind") != "SubstNonTypeTemplateParmExpr" else ii[-1]
    return n


class Translator:
    """One instance per target function."""

    def __init__(self, ast, spec, contracts=None, models=None):
        self.ast = ast
        self.spec = spec
        self.contracts = contracts or {}    # qualified name -> contract (callee by contract)
        self.models = models                # std models (module models.py)
        self.types = {}                     # sfx -> Ty of sequences etc. used
        self.recs = {}                      # rec name -> list[(field, Ty)]
        self.rec_nodes = {}
        self.iter_fields = set()
        self.names = {}
        self.locals_log = []                # (cxx name, type string) in translation order
        self.ntemp = 0
        self.nloop = 0
        self.loop_log = []
        self.ncall = {}
        self.excs = []
        self.vals = {}                      # contracted callees used: whyml name -> text
        self.used_fns = []                  # /repo functions whose body is part of this translation
        self.used_models = set()
        self.anyused = set()
        self.env = {}
        self.this = None
        self.blk = None
        self.retstack = []
        self.dtors = []      # destructors of the target's RAII objects, run at every exit
        self.loopstack = []
        self.wrap = bool(spec.get("wrap"))
        self.depth = 0
        self.inlining = []
        self.rename = spec.get("_rename", {})
        self.roots = {}                     # ref name -> Ty

    # ------------------------------------------------------------------ types
    def resolve_rec(self, q):
        """record type by name -> Ty('rec', name) or None"""
        ov = self.spec.get("types", {})
        for pat, ty in ov.items():
            if q == pat or q.endswith("::" + pat):
                return self.reg(ty)
        m = re.match(r"^([\w:]+)\s*(?:<(.*)>)?$", q, re.S)
        if not m:
            return None
        base, args = m.group(1), m.group(2)
        short = base.split("::")[-1]
        if short in ("NonNegative", "Positive", "Normalized", "BoundedValue", "Negative") and args:
            return parse(split_targs(args)[0], self.R)
        if short == "Probability":
            return DBL
        if short == "type_identity_t" and args:
            return parse(args, self.R)
        seqs = {"FitnessVector": DBL}
        if short in seqs:
            return Ty("seq", seqs[short])
        if short in ("Chromosome",) and args:
            return Ty("seq", parse(split_targs(args)[0], self.R))
        if short == "BoundsVector" and args:
            return Ty("seq", parse("gapp::Bounds<%s>" % split_targs(args)[0], self.R))
        if short in ("Population", "Candidates") and args:
            return Ty("seq", parse("gapp::Candidate<%s>" % split_targs(args)[0], self.R))
        if short in ("FitnessMatrix",) or (short == "Matrix" and args):
            return Ty("seq", Ty("seq", DBL if short == "FitnessMatrix" else parse(split_targs(args)[0], self.R)))
        if short == "NeighbourLists" and args:
            return self.ty_str("std::vector<gapp::crossover::dtl::NeighbourList<%s>>" % args)
        if short == "size_type":
            return SZ
        if short == "difference_type":
            return PD
        name = short.lower() + ("_" + "_".join(sfx_s(a, self) for a in split_targs(args)) if args else "")
        name = san(name)
        if name in self.recs:
            return Ty("rec", name)
        node = self.find_record(base, args)
        if node is None:
            return None
        self.recs[name] = None
        self.rec_nodes[name] = node
        fl = []
        self.collect_fields(node, fl, name)
        self.recs[name] = fl
        self.types["rec:" + name] = Ty("rec", name)
        return Ty("rec", name)

    def find_record(self, base, args):
        cands = []
        for qn, nodes in self.ast.rec_by_name.items():
            if qn == base or qn.endswith("::" + base) or qn == "gapp::" + base or base.endswith("::" + qn.split("::")[-1]):
                cands += nodes
        exact = self.ast.rec_by_name.get(base)
        if not args:
            r = [c for c in (exact or cands) if c["kind"] == "CXXRecordDecl"]
            return r[0] if r else None
        want = [norm_t(a) for a in split_targs(args)]
        for c in cands:
            if c["kind"] != "ClassTemplateSpecializationDecl":
                continue
            have = []
            for ta in inner(c):
                if ta.get("kind") == "TemplateArgument":
                    if "type" in ta:
                        have.append(norm_t(ta["type"]["qualType"]))
                    elif "value" in ta:
                        have.append(str(ta["value"]))
            if have[:len(want)] == want:
                return c
        return None

    def collect_fields(self, node, fl, name):
        for b in node.get("bases", []):
            bt = b.get("type", {})
            q = bt.get("desugaredQualType") or bt.get("qualType", "")
            if "interface" in q:
                continue
            m = re.match(r"^([\w:]+)\s*(?:<(.*)>)?$", q, re.S)
            if not m:
                continue
            bn = self.find_record(m.group(1), m.group(2))
            if bn is not None:
                self.collect_fields(bn, fl, name)
        for c in inner(node):
            if c.get("kind") == "FieldDecl" and c.get("name"):
                t = self.ty_str(node_type_str(c))
                if t.k == "iter" and self.spec.get("iter_base"):
                    t = SZ
                    self.iter_fields.add((name, c["name"]))
                elif t.k in ("iter", "opaque", "void"):
                    t = Ty("opaque", "opq")
                try:
                    wty(t)
                except Unsupported:
                    t = Ty("opaque", "opq")
                fl.append((c["name"], self.reg(t.with_(const=False, ref=None))))

    def R(self, q):
        return self.resolve_rec(q)

    def reg(self, ty):
        """register types so their theories get emitted"""
        if ty.k in ("seq", "set", "opt"):
            self.reg(ty.a)
            self.types.setdefault(ty.k + ":" + sfx(ty.a), ty)
        elif ty.k == "tup":
            for x in ty.a:
                self.reg(x)
        return ty

    def alias(self, q):
        for al, tg in self.spec.get("aliases", {}).items():
            if al in q:
                q = re.sub(r"\b%s\b" % al, tg, q)
        return q

    def ty_str(self, q):
        q = self.alias(q)
        q = q.replace("gapp::detail::", "gapp::detail::")
        t = parse(q, self.R)
        try:
            self.reg(t)
        except Unsupported:
            pass
        return t

    def ty(self, n):
        tt = n.get("type", {})
        q = self.alias(tt.get("qualType", ""))
        t = parse(q, self.R)
        if t.k == "opaque" and tt.get("desugaredQualType"):
            t2 = parse(tt["desugaredQualType"], self.R)
            if t2.k != "opaque":
                t = t2
        try:
            self.reg(t)
        except Unsupported:
            pass
        return t

    # ------------------------------------------------------------------ emission helpers
    def tmp(self, p="t"):
        self.ntemp += 1
        return "%s_%d'" % (p, self.ntemp) if False else "%s'%d" % (p, self.ntemp)

    def let(self, term, p="t"):
        n = self.tmp(p)
        self.blk.add("let", n, term)
        return n

    def check(self, label, f):
        if f in ("true", "(true)"):
            return
        self.blk.add("assert", label, f)

    def assume(self, f):
        self.blk.add("assume", f)

    def any(self, ty, p="r"):
        w = wty(ty)
        self.reg(ty)
        key = sfx(ty)
        self.anyused.add((key, w))
        n = self.tmp(p)
        self.blk.add("let", n, "any_%s ()" % key)
        return n

    def write(self, root, fields, kind):
        self.blk.writes.append((root, fields, kind))
        self.blk.effect = True

    def newname(self, n):
        n = self.rename.get(n, n)
        n = san(n)
        c = self.names.get(n, 0)
        self.names[n] = c + 1
        return n if c == 0 else "%s__%d" % (n, c + 1)

    def sub(self):
        b = Block()
        old, self.blk = self.blk, b
        return old, b

    def merge_writes(self, b):
        for w in b.writes:
            if w[0] not in b.locals:
                self.blk.writes.append(w)
                self.blk.effect = True

    def render(self, b, final="()"):
        out = []
        for it in b.items:
            k = it[0]
            if k == "let":
                out.append("let %s = %s in" % (it[1], it[2]))
            elif k == "ref":
                out.append("let ref %s : %s = %s in" % (it[1], wty(it[3]), it[2]))
            elif k == "assert":
                out.append("assert { [@expl:%s] %s };" % (it[1].replace("]", ")").replace("[", "("), it[2]))
            elif k == "assume":
                out.append("assume { %s };" % it[1])
            else:
                out.append(it[1])
        out.append(final)
        return "\n".join(out)

    def pure_formula(self, b, final):
        """block of lets/asserts -> (formula term, list of (label, guarded formula))"""
        if b.writes or any(it[0] not in ("let", "ref", "assert", "assume") for it in b.items):
            raise Unsupported("side effect in a pure context")
        pre = []
        lets = []
        hyps = []
        for it in b.items:
            if it[0] in ("let", "ref"):
                if it[2].startswith("any_"):
                    raise Unsupported("nondeterminism in a pure context")
                lets.append((it[1], it[2]))
            elif it[0] == "assert":
                pre.append((it[1], wrap_lets(lets, "".join("%s -> " % par(h) for h in hyps) + par(it[2]) if hyps else it[2])))
            elif it[0] == "assume":
                hyps.append(it[1])
        return wrap_lets(lets, final), pre

    # ------------------------------------------------------------------ reading values
    def fieldname(self, rec, f):
        return rec + "_" + f

    def term(self, v):
        if isinstance(v, T):
            return v.term
        if isinstance(v, L):
            t = v.root
            cur = v.rty
            for a in v.path:
                if a[0] == "f":
                    t = "%s.%s" % (par(t), self.fieldname(cur.a, a[1]))
                elif a[0] == "t":
                    t = tup_get(par(t), cur, a[1])
                else:
                    t = "get_%s %s %s" % (sfx(cur.a), par(t), par(a[1]))
                cur = a[2]
            return t
        if isinstance(v, Tup):
            return "(" + ", ".join(self.term(x) for x in v.vs) + ")"
        if isinstance(v, (It, VarIt)):
            # iterators stored in records are positions in the one container the target names
            if self.spec.get("iter_base") and not v.rev and self.term(v.seq) == self.spec["iter_base"]:
                return idx_of(v)
            raise Unsupported("iterator used as a plain value")
        raise Unsupported("value %s used as a term" % v.kind)

    def rval(self, v):
        """strip lvalue-ness: produce value independent of later writes is done by snap()"""
        return v

    def snap(self, v, blk=None, pos=None):
        """freeze a value so later writes don't affect it; inserts a let at (blk,pos) or appends"""
        def put(term, p="s"):
            if re.match(r"^[\w']*'\d+$", term) or re.match(r"^\(?-?\d+\)?$", term) or term in ("true", "false", "()"):
                return term
            n = self.tmp(p)
            if blk is None:
                self.blk.add("let", n, term)
            else:
                blk.items.insert(pos[0], ("let", n, term))
                pos[0] += 1
            return n
        if isinstance(v, (T,)):
            return T(put(v.term), v.ty)
        if isinstance(v, L):
            return T(put(self.term(v)), v.ty)
        if isinstance(v, It):
            return It(v.seq, put(v.idx), v.rev)
        if isinstance(v, VarIt):
            return It(v.seq, put(v.ref), v.rev)
        if isinstance(v, Tup):
            return Tup([self.snap(x, blk, pos) for x in v.vs])
        return v

    def freeze_lv(self, v):
        """freeze index terms of an lvalue (bind reference)"""
        if isinstance(v, L):
            p = []
            for a in v.path:
                if a[0] == "i" and not re.match(r"^([\w']*'\d+|\(?-?\d+\)?)$", a[1]):
                    p.append(("i", self.let(a[1], "x"), a[2]))
                else:
                    p.append(a)
            return L(v.root, p, v.ty, v.rty)
        if isinstance(v, It):
            return It(v.seq, self.let(v.idx, "x") if not re.match(r"^([\w']*'\d+|\(?-?\d+\)?)$", v.idx) else v.idx, v.rev)
        return v

    def evals(self, nodes, lv=()):
        """evaluate left to right, snapshotting when a later operand writes"""
        vals = []
        for k, n in enumerate(nodes):
            v = n() if callable(n) else self.expr(n)
            vals.append(v)
        return vals

    def eval_seq(self, thunks, keep_lv=None):
        """thunks evaluated in order; if a later one writes, earlier rvalues are snapshotted at their evaluation point"""
        res = []
        marks = []
        for k, th in enumerate(thunks):
            nw = len(self.blk.writes)
            v = th()
            if len(self.blk.writes) > nw:
                # earlier values must be frozen before the point where evaluation of this operand began
                shift = 0
                for j in range(len(res)):
                    if keep_lv and keep_lv[j]:
                        continue
                    pos = [marks[j] + shift]
                    before = len(self.blk.items)
                    res[j] = self.snap(res[j], self.blk, pos)
                    shift += len(self.blk.items) - before
            res.append(v)
            marks.append(len(self.blk.items))
        return res

    # ------------------------------------------------------------------ writing
    def assign(self, lv, v):
        if hasattr(lv, "assign_hook"):
            return lv.assign_hook(self, v)
        if isinstance(lv, VarIt):
            if not isinstance(v, (It, VarIt)):
                raise Unsupported("assignment to an iterator variable from a non-iterator")
            if not same_seq(lv.seq, v.seq):
                raise Unsupported("iterator variable re-bound to a different container")
            self.blk.add("raw", "%s <- %s;" % (lv.ref, idx_of(v)))
            self.write(lv.ref, (), "whole")
            return
        if isinstance(lv, Obj) and lv.name == "discard":
            return
        if not isinstance(lv, L):
            raise Unsupported("assignment to a non-lvalue (%s)" % lv.kind)
        t = self.term(self.coerce(v, lv.ty))
        self.set_term(lv, t)

    def set_term(self, lv, t, kind=None):
        def build(base, cur, path):
            if not path:
                return t
            a = path[0]
            if a[0] == "f":
                fn = self.fieldname(cur.a, a[1])
                sub = build("%s.%s" % (par(base), fn), a[2], path[1:])
                return "{ %s with %s = %s }" % (par(base), fn, sub)
            if a[0] == "t":
                parts = [tup_get(par(base), cur, j) for j in range(len(cur.a))]
                parts[a[1]] = build(parts[a[1]], a[2], path[1:])
                return "(" + ", ".join(parts) + ")"
            s = sfx(cur.a)
            sub = build("get_%s %s %s" % (s, par(base), par(a[1])), a[2], path[1:])
            return "set_%s %s %s %s" % (s, par(base), par(a[1]), par(sub))
        new = build(lv.root, lv.rty, lv.path)
        self.blk.add("raw", "%s <- %s;" % (lv.root, new))
        fields = []
        k = "whole"
        for a in lv.path:
            if a[0] in ("f", "t"):
                fields.append(a[1])
            else:
                k = "elem"
                break
        rest = lv.path[len(fields):]
        self.write(lv.root, tuple(fields), kind if (kind and k != "elem") else (k if k == "whole" else ("elem" if len(rest) == 1 else "deep")))

    # ------------------------------------------------------------------ conversions
    def coerce(self, v, ty):
        if isinstance(v, Tup) and ty.k == "tup":
            return Tup([self.coerce(x, t) for x, t in zip(v.vs, ty.a)])
        if isinstance(v, Tup) and ty.k == "rec":
            fl = self.recs[ty.a]
            if len(fl) == len(v.vs):
                return T("{ " + "; ".join("%s = %s" % (self.fieldname(ty.a, f), self.term(self.coerce(x, t))) for (f, t), x in zip(fl, v.vs)) + " }", ty)
        if isinstance(v, (T, L)):
            st = v.ty
            if st.k == "bool" and ty.k == "int":
                return T("(if %s then 1 else 0)" % self.term(v), ty)
            if st.k == "int" and ty.k == "bool":
                return T("(not (%s = 0))" % self.term(v), BOOL)
            if st.k == "int" and ty.k == "int":
                return self.cast_int(v, ty)
            if st.k == "int" and ty.k == "dbl":
                return T("d_of_int %s" % par(self.term(v)), DBL)
            if st.k == "dbl" and ty.k == "int":
                return self.d2i(v, ty)
            if st.k != "opt" and ty.k == "opt":
                return T("some_%s %s" % (sfx(ty.a), par(self.term(self.coerce(v, ty.a)))), ty)
        return v

    def d2i(self, v, ty):
        mn, mx = irange(ty)
        t = self.let("d_trunc %s" % par(self.term(v)), "tr")
        self.check("conversion of a real to an integer is in range", "d_is_num %s && %s <= %s <= %s" % (par(self.term(v)), ilit(mn), t, ilit(mx)))
        return T(t, ty)

    def lit_of(self, term):
        m = re.match(r"^\(?(-?\d+)\)?$", term)
        return int(m.group(1)) if m else None

    def type_range(self, v, ty=None):
        """every value read from typed memory is in the range of its type"""
        pass

    def cast_int(self, v, ty, explicit=False):
        st = v.ty
        t = self.term(v)
        mn, mx = irange(ty)
        smn, smx = irange(st)
        n = self.lit_of(t)
        if n is not None:
            if not (mn <= n <= mx):
                n = (n - mn) % (mx - mn + 1) + mn
            return T(ilit(n), ty)
        if mn <= smn and smx <= mx:
            return T(t, ty)
        self.assume_range(v)
        if self.wrap or explicit and self.spec.get("wrap_casts"):
            return T("wrap_%s %s" % (INTNAME[(ty.a, ty.b)], par(t)), ty)
        f = []
        if mn > smn:
            f.append("%s <= %s" % (ilit(mn), t))
        if mx < smx:
            f.append("%s <= %s" % (t, ilit(mx)))
        self.check("integer conversion preserves the value", " && ".join(f))
        return T(t, ty)

    def assume_range(self, v):
        """integer leaf reads: assume representable (holds for every object of that C++ type)"""
        if isinstance(v, L) and v.ty.k == "int":
            mn, mx = irange(v.ty)
            t = self.term(v)
            self.blk.add("assume", "%s <= %s <= %s" % (ilit(mn), t, ilit(mx)))

    def arith(self, op, a, b, ty):
        ta, tb = self.term(a), self.term(b)
        if ty.k == "dbl":
            fn = {"+": "d_add", "-": "d_sub", "*": "d_mul", "/": "d_div"}[op]
            return T("%s %s %s" % (fn, par(ta), par(tb)), DBL)
        if ty.k == "bool":
            ty = Ty("int", True, 32)
        if ty.k != "int":
            raise Unsupported("arithmetic %s on %r" % (op, ty))
        la, lb = self.lit_of(ta), self.lit_of(tb)
        mn, mx = irange(ty)
        if op in "+-*":
            if la is not None and lb is not None:
                r = {"+": la + lb, "-": la - lb, "*": la * lb}[op]
                if mn <= r <= mx:
                    return T(ilit(r), ty)
            self.assume_range(a)
            self.assume_range(b)
            r = "(%s %s %s)" % (par(ta), op, par(tb))
            if not ty.a and self.wrap:
                if op == "*":
                    return T("wrapm_%s %s" % (INTNAME[(ty.a, ty.b)], r), ty)
                return T("wrap_%s %s" % (INTNAME[(ty.a, ty.b)], r), ty)
            f = []
            if op == "+" and not ty.a:
                f = ["%s <= %s" % (r, ilit(mx))]
            elif op == "-" and not ty.a:
                f = ["%s <= %s" % (tb, ta)]
            else:
                f = ["%s <= %s <= %s" % (ilit(mn), r, ilit(mx))]
            self.check("no integer overflow in %s" % {"+": "addition", "-": "subtraction", "*": "multiplication"}[op], f[0])
            return T(r, ty)
        if op in "/%":
            self.check("division by non-zero", "not (%s = 0)" % tb)
            self.assume_range(a)
            if ty.a:
                return T("%s %s %s" % ({"/": "cdiv", "%": "cmod"}[op], par(ta), par(tb)), ty)
            return T("%s %s %s" % ({"/": "div", "%": "mod"}[op], par(ta), par(tb)), ty)
        if op in ("&", "|", "^", "<<", ">>"):
            fn = {"&": "bw_and", "|": "bw_or", "^": "bw_xor", "<<": "bw_shl", ">>": "bw_shr"}[op]
            if op == ">>" and lb is not None and not ty.a:
                return T("div %s %s" % (par(ta), 2 ** lb), ty)
            if op in ("<<", ">>"):
                self.check("shift amount in range", "0 <= %s < %d" % (tb, max(32, ty.b)))
            return T("%s_%s %s %s" % (fn, INTNAME[(ty.a, ty.b)], par(ta), par(tb)), ty)
        raise Unsupported("operator " + op)

    def compare(self, op, a, b):
        if isinstance(a, (It, VarIt)) or isinstance(b, (It, VarIt)):
            ia, ib = idx_of(a), idx_of(b)
            if a.rev:
                ia, ib = ib, ia
            ta, tb, k = ia, ib, "int"
            if op in ("==", "!="):
                r = "(%s = %s)" % (ta, tb)
                return T(r if op == "==" else "(not %s)" % r, BOOL)
            return T("(%s %s %s)" % (ta, op, tb), BOOL)
        if isinstance(a, Obj) or isinstance(b, Obj):
            return self.models.compare_obj(self, op, a, b)
        ta, tb = self.term(a), self.term(b)
        k, kb = a.ty.k, b.ty.k
        if k == "opt" or kb == "opt":
            if k == "opt" and kb == "opt":
                r = "eq_%s %s %s" % (sfx(a.ty), par(ta), par(tb))
            elif k == "opt":
                r = "(%s.has && %s)" % (par(ta), self.compare("==", T("%s.val_" % par(ta), a.ty.a), b).term)
            else:
                r = "(%s.has && %s)" % (par(tb), self.compare("==", a, T("%s.val_" % par(tb), b.ty.a)).term)
            return T(r if op == "==" else "(not (%s))" % r, BOOL)
        if k == "dbl" or kb == "dbl":
            ta = self.term(self.coerce(a, DBL))
            tb = self.term(self.coerce(b, DBL))
            fn = {"<": ("d_lt", 0, 0), ">": ("d_lt", 1, 0), "<=": ("d_le", 0, 0), ">=": ("d_le", 1, 0), "==": ("d_eq", 0, 0), "!=": ("d_eq", 0, 1)}[op]
            x, y = (tb, ta) if fn[1] else (ta, tb)
            r = "(%s %s %s)" % (fn[0], par(x), par(y))
            return T("(not %s)" % r if fn[2] else r, BOOL)
        if k == "bool" and kb == "bool":
            if op == "==":
                return T("(eqb %s %s)" % (par(ta), par(tb)), BOOL)
            if op == "!=":
                return T("(not (eqb %s %s))" % (par(ta), par(tb)), BOOL)
        if k == "bool":
            ta, k = "(if %s then 1 else 0)" % ta, "int"
        if kb == "bool":
            tb, kb = "(if %s then 1 else 0)" % tb, "int"
        if k == "int" and kb == "int":
            if op == "==":
                return T("(%s = %s)" % (ta, tb), BOOL)
            if op == "!=":
                return T("(not (%s = %s))" % (ta, tb), BOOL)
            return T("(%s %s %s)" % (ta, op, tb), BOOL)
        if op in ("==", "!="):
            e = "(eq_%s %s %s)" % (self.eqfn(a.ty), par(ta), par(tb))
            return T(e if op == "==" else "(not %s)" % e, BOOL)
        raise Unsupported("comparison %s on %r/%r" % (op, a.ty, b.ty))

    def eqfn(self, ty):
        self.reg(ty)
        return sfx(ty)

    # ------------------------------------------------------------------ element access
    def seq_len(self, v):
        if hasattr(v, "len_hook"):
            return v.len_hook(self)
        return "len_%s %s" % (sfx(v.ty.a), par(self.term(v)))

    def size_of(self, v):
        n = self.seq_len(v)
        self.blk.add("assume", "%s < size_limit" % n)
        return T(n, SZ)

    def at(self, v, idx, label="element access in bounds"):
        """v seq value, idx term -> element value (lvalue if v is)"""
        if hasattr(v, "elem_hook"):
            return v.elem_hook(self, idx)
        self.check(label, "0 <= %s < %s" % (idx, self.seq_len(v)))
        if isinstance(v, L):
            return v.ext(("i", idx, v.ty.a))
        return T("get_%s %s %s" % (sfx(v.ty.a), par(self.term(v)), par(idx)), v.ty.a)

    def deref(self, it):
        if isinstance(it, VarIt):
            it = It(it.seq, it.ref, it.rev)
        if not isinstance(it, It):
            if isinstance(it, (T, L)) and it.ty.k == "opt":
                t = self.term(it)
                self.check("optional has a value when dereferenced", "%s.has" % par(t))
                return T("%s.val_" % par(t), it.ty.a)
            if isinstance(it, Obj) and hasattr(it, "deref"):
                return it.deref(self)
            raise Unsupported("dereference of %s" % it.kind)
        idx = it.idx if not it.rev else "(%s - 1)" % it.idx
        return self.at(it.seq, idx, "iterator dereference in bounds")

    def it_add(self, it, term, sign=1):
        n = self.lit_of(term)
        if it.rev:
            sign = -sign
        i = idx_of(it)
        if n == 0:
            r = i
        else:
            r = "(%s %s %s)" % (i, "+" if sign > 0 else "-", par(term))
        self.check("iterator stays within the container", "0 <= %s <= %s" % (r, self.seq_len(it.seq)))
        return It(it.seq, r, it.rev)

    # ------------------------------------------------------------------ expressions
    def expr(self, n):
        k = n["kind"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported("expression kind %s at %s" % (k, loc(n)))
        return m(n)

    def pure(self, n):
        return self.term(self.expr(n))

    def e_CXXThrowExpr(self, n):
        self.check("no exception is thrown under the precondition", "false")
        return UNIT

    def e_ParenExpr(self, n):
        return self.expr(inner(n)[0])

    e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ParenExpr

    def e_ConstantExpr(self, n):
        if "value" in n and self.ty(n).k == "int" and re.match(r"^-?\d+$", str(n["value"])):
            return T(ilit(int(n["value"])), self.ty(n))
        return self.expr(inner(n)[0])

    def e_SubstNonTypeTemplateParmExpr(self, n):
        return self.expr(inner(n)[-1])

    def e_IntegerLiteral(self, n):
        return T(ilit(int(n["value"])), self.ty(n))

    def e_CharacterLiteral(self, n):
        return T(str(n["value"]), self.ty(n))

    def e_FloatingLiteral(self, n):
        return T(self.models.dlit(self, n["value"]), DBL)

    def e_CXXBoolLiteralExpr(self, n):
        v = n["value"]
        return T("true" if v in (True, "true") else "false", BOOL)

    def e_CXXNullPtrLiteralExpr(self, n):
        return Obj("nullptr")

    def e_StringLiteral(self, n):
        return Obj("string")

    def e_UserDefinedLiteral(self, n):
        return self.e_CallExpr(n)

    def e_CXXThisExpr(self, n):
        if self.this is None:
            raise Unsupported("this")
        return self.this

    def e_CXXDefaultArgExpr(self, n):
        ii = inner(n)
        if ii:
            return self.expr(ii[0])
        raise Unsupported("default argument not in the AST")

    def e_CXXDefaultInitExpr(self, n):
        ii = inner(n)
        if ii:
            return self.expr(ii[0])
        raise Unsupported("default member initialiser not in the AST")

    def e_CXXScalarValueInitExpr(self, n):
        return self.default(self.ty(n))

    def e_ImplicitValueInitExpr(self, n):
        return self.default(self.ty(n))

    def e_UnaryExprOrTypeTraitExpr(self, n):
        t = self.ty_str(n.get("argType", {}).get("desugaredQualType") or n.get("argType", {}).get("qualType", ""))
        if n.get("name") == "sizeof" and t.k == "int":
            return T(str(t.b // 8), SZ)
        raise Unsupported("sizeof")

    def default(self, ty):
        if ty.k == "int":
            return T("0", ty)
        if ty.k == "bool":
            return T("false", ty)
        if ty.k == "dbl":
            return T("d_zero", ty)
        if ty.k == "seq":
            self.reg(ty)
            return T("empty_%s" % sfx(ty.a), ty)
        if ty.k == "set":
            self.reg(ty)
            return T("zempty_%s" % sfx(ty.a), ty)
        if ty.k == "opt":
            self.reg(ty)
            return T("none_%s" % sfx(ty.a), ty)
        if ty.k == "tup":
            return Tup([self.default(x) for x in ty.a])
        if ty.k == "rec":
            return self.construct_default(ty)
        if ty.k == "opaque":
            return Obj(ty.a, ty=ty)
        raise Unsupported("default value of %r" % ty)

    def construct_default(self, ty):
        fl = self.recs[ty.a]
        node = self.rec_nodes[ty.a]
        inits = {c["name"]: c for c in inner(node) if c.get("kind") == "FieldDecl" and c.get("name")}
        parts = []
        for f, t in fl:
            c = inits.get(f)
            ini = [x for x in inner(c) if x.get("kind", "").endswith(("Expr", "Literal", "Operator"))] if c else []
            if ini:
                v = self.term(self.coerce(self.expr(ini[0]), t))
            elif t.k == "opaque":
                v = self.any(t)
            else:
                v = self.term(self.default(t))
            parts.append("%s = %s" % (self.fieldname(ty.a, f), v))
        return T("{ " + "; ".join(parts) + " }", ty)

    def e_DeclRefExpr(self, n):
        rd = n.get("referencedDecl", {})
        rid = rd.get("id")
        if rid in self.env:
            return self.env[rid]
        name = rd.get("name", "")
        kind = rd.get("kind")
        if kind in ("VarDecl", "VarTemplateSpecializationDecl"):
            g = self.models.global_var(self, name, n, rd)
            if g is not None:
                return g
            vd = self.ast.vars.get(rid)
            if vd is not None:
                ii = [c for c in inner(vd) if c.get("kind", "").endswith(("Expr", "Literal", "Operator"))]
                q = vd.get("type", {}).get("qualType", "")
                if ii and (vd.get("constexpr") or "const" in q):
                    return self.coerce(self.expr(ii[0]), self.ty(vd))
            if name in self.models.RANGES and "ranges" in rd.get("type", {}).get("qualType", "") + rd.get("type", {}).get("desugaredQualType", "") or (name in self.models.RANGES and re.search(r"_fn$", rd.get("type", {}).get("qualType", ""))):
                return Obj("ranges:" + name)
        if kind == "EnumConstantDecl":
            return T(self.models.enum_const(self, rd, n), Ty("int", True, 32))
        if kind in ("FunctionDecl", "CXXMethodDecl"):
            return Clo(lambda tr, args, nn=n: tr.call_fn(rd, args, nn))
        if kind == "NonTypeTemplateParmDecl":
            raise Unsupported("uninstantiated template parameter")
        raise Unsupported("reference to %s %s at %s" % (kind, name, loc(n)))

    def e_ImplicitCastExpr(self, n):
        return self.cast(n)

    e_CXXFunctionalCastExpr = e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr

    def cast(self, n):
        ck = n.get("castKind")
        ii = [c for c in inner(n)]
        sub = ii[-1]
        explicit = n["kind"] != "ImplicitCastExpr"
        if ck in ("LValueToRValue", "NoOp", "FunctionToPointerDecay", "ConstructorConversion", "UserDefinedConversion",
                  "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "BuiltinFnToFnPtr", "ArrayToPointerDecay", "Dependent"):
            v = self.expr(sub)
            if ck == "ArrayToPointerDecay" and isinstance(v, (T, L)) and v.ty.k == "seq":
                return It(v, "0")
            if ck == "BaseToDerived":
                return v
            return v
        if ck == "ToVoid":
            self.expr(sub)
            return UNIT
        if ck in ("IntegralCast", "BooleanToSignedIntegral"):
            v = self.expr(sub)
            ty = self.ty(n)
            if isinstance(v, Obj):
                return v
            if ty.k == "bool":
                return self.coerce(v, BOOL)
            if v.ty.k == "bool":
                return self.coerce(v, ty)
            return self.cast_int(v, ty, explicit)
        if ck == "IntegralToBoolean":
            v = self.expr(sub)
            return T("(not (%s = 0))" % self.term(v), BOOL)
        if ck == "PointerToBoolean":
            v = self.expr(sub)
            if isinstance(v, Obj) and v.name == "string":
                return T("true", BOOL)
            if isinstance(v, (Obj, It)) and self.spec.get("obj_methods", {}).get("operator bool"):
                return self.spec["obj_methods"]["operator bool"](self, v, [])
            raise Unsupported("pointer to bool")
        if ck == "IntegralToFloating":
            v = self.expr(sub)
            return self.coerce(v, DBL)
        if ck == "FloatingToIntegral":
            return self.d2i(self.expr(sub), self.ty(n))
        if ck == "FloatingCast":
            v = self.expr(sub)
            return v
        if ck == "FloatingToBoolean":
            raise Unsupported("float to bool")
        if ck in ("NullToPointer",):
            return Obj("nullptr")
        raise Unsupported("cast %s at %s" % (ck, loc(n)))

    def cond_formula(self, n):
        """boolean expression -> term (bool)"""
        v = self.expr(n)
        if isinstance(v, (T, L)) and v.ty.k != "bool":
            v = self.coerce(v, BOOL)
        return self.term(v)

    def e_BinaryOperator(self, n):
        op = n["opcode"]
        a, b = inner(n)[:2]
        if op in ("&&", "||"):
            ta = self.cond_formula(a)
            old, blk = self.sub()
            tb = self.cond_formula(b)
            self.blk = old
            if not blk.items:
                return T("(%s %s %s)" % (ta, op, tb), BOOL)
            if not blk.effect and not any(i[0] == "let" and i[2].startswith("any_") for i in blk.items):
                # guard the obligations of the right operand
                f, pre = self.pure_formula(blk, tb)
                g = ta if op == "&&" else "not %s" % ta
                for lbl, p in pre:
                    self.check(lbl, "(%s) -> (%s)" % (g, p))
                return T("(%s %s %s)" % (ta, op, f), BOOL)
            self.merge_writes(blk)
            r = self.tmp("c")
            if op == "&&":
                txt = "let %s = if %s then begin\n%s\nend else false in" % (r, ta, self.render(blk, tb))
            else:
                txt = "let %s = if %s then true else begin\n%s\nend in" % (r, ta, self.render(blk, tb))
            self.blk.add("raw", txt)
            return T(r, BOOL)
        if op == "=":
            vb, va = self.eval_seq([lambda: self.expr(b), lambda: self.expr(a)])
            self.assign(va, vb)
            return va
        if op == ",":
            self.expr(a)
            return self.expr(b)
        va, vb = self.eval_seq([lambda: self.expr(a), lambda: self.expr(b)])
        if "this_oid" in self.spec and isinstance(va, Obj) and op in self.spec["obj_operators"]:
            return self.spec["obj_operators"][op](self, va, vb)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return self.compare(op, va, vb)
        if isinstance(va, (It, VarIt)) or isinstance(vb, (It, VarIt)):
            return self.iter_arith(op, va, vb)
        return self.arith(op, va, vb, self.ty(n))

    def iter_arith(self, op, va, vb):
        ita, itb = isinstance(va, (It, VarIt)), isinstance(vb, (It, VarIt))
        if op == "-" and ita and itb:
            if not same_seq(va.seq, vb.seq):
                raise Unsupported("difference of iterators into different containers")
            r = "(%s - %s)" % (idx_of(va), idx_of(vb))
            if va.rev:
                r = "(%s - %s)" % (idx_of(vb), idx_of(va))
            if idx_of(vb) == "0" and not va.rev:
                r = idx_of(va)
            return T(r, PD)
        if op == "+" and itb:
            va, vb = vb, va
        if op in "+-":
            return self.it_add(va, self.term(vb), 1 if op == "+" else -1)
        raise Unsupported("iterator arithmetic " + op)

    def e_CompoundAssignOperator(self, n):
        op = n["opcode"][:-1]
        a, b = inner(n)[:2]
        vb, va = self.eval_seq([lambda: self.expr(b), lambda: self.expr(a)])
        if isinstance(va, VarIt):
            self.assign(va, self.it_add(va, self.term(vb), 1 if op == "+" else -1))
            return va
        ct = n.get("computeLHSType", {})
        cty = self.ty_str(ct.get("desugaredQualType") or ct.get("qualType", "")) if ct else va.ty
        lhs = va
        if va.ty.k == "bool" and op in ("^", "|", "&"):
            tb = self.term(vb)
            if vb.ty.k == "int":
                l = self.lit_of(tb)
                tb = {0: "false", 1: "true"}.get(l) or ("(if %s = 1 then true else false)" % tb)
                m = re.match(r"^\(if (.*) then 1 else 0\)$", self.term(vb))
                if m:
                    tb = m.group(1)
            fn = {"^": "xorb", "|": "orb", "&": "andb"}[op]
            self.assign(va, T("(%s %s %s)" % (fn, par(self.term(va)), par(tb)), BOOL))
            return va
        x = self.coerce(T(self.term(va), va.ty), cty) if va.ty.k == "int" else va
        y = self.coerce(vb, cty) if cty.k == "dbl" and vb.ty.k != "dbl" else vb
        r = self.arith(op, x, y, cty if cty.k in ("int", "dbl") else va.ty)
        self.assign(va, r)
        return va

    def e_UnaryOperator(self, n):
        op = n["opcode"]
        s = inner(n)[0]
        if op == "!":
            return T("(not %s)" % par(self.cond_formula(s)), BOOL)
        if op in ("++", "--"):
            v = self.expr(s)
            return self.incdec(v, op, n.get("isPostfix"))
        if op == "*":
            v = self.expr(s)
            if v is self.this:
                return v
            if isinstance(v, Obj) and "*" in self.spec.get("obj_operators", {}):
                return self.spec["obj_operators"]["*"](self, v, [])
            return self.deref(v)
        if op == "&":
            k = strip(s)
            if k.get("kind") == "DeclRefExpr" and k.get("referencedDecl", {}).get("kind") == "FieldDecl":
                return Obj("member pointer", [k["referencedDecl"]["name"]])
            v = self.expr(s)
            if isinstance(v, L) and v.path and v.path[-1][0] == "i":
                parent = L(v.root, v.path[:-1], None, v.rty)
                parent.ty = v.path[-2][2] if len(v.path) > 1 else v.rty
                return It(parent, v.path[-1][1])
            return v
        v = self.expr(s)
        if op == "-":
            if v.ty.k == "dbl":
                return T("d_neg %s" % par(self.term(v)), DBL)
            l = self.lit_of(self.term(v))
            if l is not None:
                return T(ilit(-l), self.ty(n))
            return self.arith("-", T("0", v.ty), v, self.ty(n))
        if op == "+":
            return v
        if op == "~":
            return T("bw_not_%s %s" % (INTNAME[(v.ty.a, v.ty.b)], par(self.term(v))), self.ty(n))
        raise Unsupported("unary " + op)

    def incdec(self, v, op, postfix):
        if isinstance(v, VarIt):
            old = self.snap(v) if postfix else None
            self.assign(v, self.it_add(v, "1", 1 if op == "++" else -1))
            return old if postfix else v
        old = self.snap(v) if postfix else None
        r = self.arith("+" if op == "++" else "-", T(self.term(v), v.ty), T("1", v.ty), v.ty)
        self.set_term(v, r.term)
        return old if postfix else v

    def e_ConditionalOperator(self, n):
        c, a, b = inner(n)[:3]
        # assert(...) expansion
        sb = strip(b)
        if sb.get("kind") == "CallExpr":
            cal = strip(inner(sb)[0])
            if cal.get("referencedDecl", {}).get("name") == "__assert_fail":
                t = self.cond_formula(c)
                self.check("assertion " + self.src_label(c, sb), t)
                return UNIT
        tc = self.cond_formula(c)
        return self.branch_value(tc, lambda: self.expr(a), lambda: self.expr(b), self.ty(n))

    def src_label(self, c, sb):
        args = inner(sb)[1:]
        try:
            s = strip(args[0])
            if s.get("kind") == "StringLiteral":
                return "(" + s.get("value", "").strip('"').replace("{", "(").replace("}", ")").replace('\\"', "'")[:90] + ")"
        except Exception:
            pass
        return ""

    def branch_value(self, tc, fa, fb, ty=None):
        old, ba = self.sub()
        va = fa()
        self.blk = old
        old, bb = self.sub()
        vb = fb()
        self.blk = old
        if isinstance(va, Obj) and isinstance(vb, Obj) and hasattr(va, "oid") and hasattr(vb, "oid") and va.name == vb.name and not ba.items and not bb.items:
            o = Obj(va.name)        # one of two objects that the spec identifies by terms
            o.oid = self.let("(if %s then %s else %s)" % (tc, va.oid, vb.oid), "obj")
            return o
        sh = shape(va, vb)
        if sh is None:
            # different shapes: try plain terms
            raise Unsupported("conditional operator with incompatible operands")
        if sh in ("int?",):
            pass
        pa, pb = flat(self, va, sh, ty), flat(self, vb, sh, ty)
        pure_ok = not ba.effect and not bb.effect and not any(i[0] == "let" and i[2].startswith("any_") for b in (ba, bb) for i in b.items)
        if pure_ok:
            res = []
            for lbl_g, blk in ((tc, ba), ("not %s" % par(tc), bb)):
                _, pre = self.pure_formula(blk, "true")
                for lbl, p in pre:
                    self.check(lbl, "(%s) -> (%s)" % (lbl_g, p))
            lets_a = [(i[1], i[2]) for i in ba.items if i[0] == "let"]
            lets_b = [(i[1], i[2]) for i in bb.items if i[0] == "let"]
            for x, y in zip(pa, pb):
                if x == y and not lets_a and not lets_b:
                    res.append(x)
                else:
                    res.append("(if %s then %s else %s)" % (tc, wrap_lets(lets_a, x), wrap_lets(lets_b, y)))
        else:
            self.merge_writes(ba)
            self.merge_writes(bb)
            fin = lambda p: "(" + ", ".join(p) + ")" if len(p) != 1 else p[0]
            names = [self.tmp("c") for _ in pa]
            lhs = "(" + ", ".join(names) + ")" if len(names) != 1 else names[0]
            if not names:
                lhs, names = "()", []
                self.blk.add("raw", "if %s then begin\n%s\nend else begin\n%s\nend;" % (tc, self.render(ba, "()"), self.render(bb, "()")))
            else:
                self.blk.add("raw", "let %s = if %s then begin\n%s\nend else begin\n%s\nend in" % (lhs, tc, self.render(ba, fin(pa)), self.render(bb, fin(pb))))
            res = names
        return unflat(sh, res)

    def e_MemberExpr(self, n):
        base = inner(n)[0] if inner(n) else None
        name = n.get("name", "")
        rid = n.get("referencedMemberDecl")
        if rid in self.ast.vars:      # static member through object
            return self.e_DeclRefExpr({"referencedDecl": {"id": rid, "name": name, "kind": "VarDecl"}, "kind": "DeclRefExpr"})
        v = self.expr(base)
        return self.member(v, name, n)

    def range_seq(self, v):
        """container behind a range argument"""
        if isinstance(v, (T, L)) and v.ty.k == "seq":
            return v
        raise Unsupported("range argument of type %s" % getattr(v, "ty", v))

    def member(self, v, name, n=None):
        if isinstance(v, (It, VarIt)):
            v = self.deref(v)
        if isinstance(v, Tup) and name in ("first", "second"):
            return v.vs[0 if name == "first" else 1]
        if isinstance(v, Obj):
            r = self.models.obj_member(self, v, name)
            if r is not None:
                return r
            raise Unsupported("member %s of %s" % (name, v.name))
        if v.ty.k == "tup" and name in ("first", "second"):
            j = 0 if name == "first" else 1
            if isinstance(v, L):
                return v.ext(("t", j, v.ty.a[j]))
            return T(tup_get(par(self.term(v)), v.ty, j), v.ty.a[j])
        if v.ty.k == "rec":
            for f, t in self.recs[v.ty.a]:
                if f == name:
                    if name in self.spec.get("obj_members", {}):
                        return self.spec["obj_members"][name](self, v)
                    if (v.ty.a, f) in self.iter_fields and self.spec.get("iter_seq"):
                        return It(self.spec["iter_seq"](self), "%s.%s" % (par(self.term(v)), self.fieldname(v.ty.a, f)))
                    if isinstance(v, L):
                        return v.ext(("f", f, t))
                    return T("%s.%s" % (par(self.term(v)), self.fieldname(v.ty.a, f)), t)
            if name in self.spec.get("obj_members", {}):
                return self.spec["obj_members"][name](self, v)
        raise Unsupported("member %s of %r" % (name, v.ty))

    def e_ArraySubscriptExpr(self, n):
        a, b = inner(n)[:2]
        va, vb = self.eval_seq([lambda: self.expr(a), lambda: self.expr(b)])
        if isinstance(va, (It, VarIt)):
            return self.deref(self.it_add_nocheck(va, self.term(vb)))
        raise Unsupported("array subscript")

    def it_add_nocheck(self, it, term, sign=1):
        if it.rev:
            sign = -sign
        i = idx_of(it)
        l = self.lit_of(term)
        if l == 0:
            return It(it.seq, i, it.rev)
        if i == "0" and sign > 0:
            return It(it.seq, term, it.rev)
        return It(it.seq, "(%s %s %s)" % (i, "+" if sign > 0 else "-", par(term)), it.rev)

    def e_InitListExpr(self, n):
        ty = self.ty(n)
        kids = inner(n)
        if ty.k == "rec":
            vs = self.eval_seq([lambda c=c: self.expr(c) for c in kids])
            fl = self.recs[ty.a]
            if not fl and not vs:
                return Obj("tag")
            if len(vs) < len(fl):
                d = self.construct_default(ty)
                base = self.let(d.term, "d")
                extra = [T("%s.%s" % (base, self.fieldname(ty.a, f)), t) for f, t in fl[len(vs):]]
                vs = vs + extra
            return T("{ " + "; ".join("%s = %s" % (self.fieldname(ty.a, f), self.term(self.coerce(v, t))) for (f, t), v in zip(fl, vs)) + " }", ty)
        if ty.k == "seq" or n.get("array_filler") is not None or "[" in n.get("type", {}).get("qualType", ""):
            if ty.k == "seq" and len(kids) == 1 and kids[0].get("kind") == "InitListExpr":
                return self.expr(kids[0])
            vs = self.eval_seq([lambda c=c: self.expr(c) for c in kids])
            if ty.k == "seq" and len(vs) == 1 and isinstance(vs[0], (T, L)) and vs[0].ty.k == "seq" and ty.a.k in ("dbl", "int", "bool", "opaque"):
                return vs[0]        # {x} with x convertible to the container type
            et = ty.a if ty.k == "seq" else (vs[0].ty if vs else None)
            if et is None:
                raise Unsupported("empty array initialiser")
            t = "empty_%s" % sfx(et)
            self.reg(Ty("seq", et))
            for v in vs:
                t = "snoc_%s (%s) %s" % (sfx(et), t, par(self.term(self.coerce(v, et))))
            return T(t, Ty("seq", et))
        if len(kids) == 1:
            return self.coerce(self.expr(kids[0]), ty)
        if not kids:
            return self.default(ty)
        if ty.k == "tup":
            return Tup(self.eval_seq([lambda c=c: self.expr(c) for c in kids]))
        raise Unsupported("initialiser list for %r" % ty)

    def e_CXXStdInitializerListExpr(self, n):
        return self.expr(inner(n)[0])

    def e_CXXConstructExpr(self, n):
        return self.models.construct(self, n)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXRewrittenBinaryOperator(self, n):
        # semantic form: last inner
        c = strip(inner(n)[-1])
        if c.get("kind") == "CXXOperatorCallExpr" and len(inner(c)) == 3:
            # (a <=> b) op 0   is   a op b
            op = strip(inner(c)[0]).get("referencedDecl", {}).get("name", "").replace("operator", "")
            for k in (1, 2):
                sub = strip(inner(c)[k])
                if op in ("<", ">", "<=", ">=") and sub.get("kind") == "CXXOperatorCallExpr" and len(inner(sub)) == 3 and strip(inner(sub)[0]).get("referencedDecl", {}).get("name") == "operator<=>":
                    a, b = self.eval_seq([lambda x=x: self.expr(x) for x in inner(sub)[1:]])
                    if all(isinstance(x, (It, VarIt)) or (isinstance(x, (T, L)) and x.ty.k == "int") for x in (a, b)):
                        return self.compare(op, *((a, b) if k == 1 else (b, a)))
                    break
        return self.expr(inner(n)[-1])

    def e_LambdaExpr(self, n):
        kids = inner(n)
        rec = next(c for c in kids if c["kind"] == "CXXRecordDecl")
        env = dict(self.env)
        caps = [c for c in kids if c["kind"] not in ("CXXRecordDecl", "CompoundStmt")]
        fields = [c for c in inner(rec) if c.get("kind") == "FieldDecl"]
        copies = set()
        mutable = any(m.get("kind") == "CXXMethodDecl" and m.get("name") == "operator()" and not re.search(r"\)\s*const", m.get("type", {}).get("qualType", "")) for m in inner(rec))
        for f, c in zip(fields, caps):
            q = f.get("type", {}).get("qualType", "")
            s = strip(c)
            while s.get("kind") == "CXXConstructExpr" and len(inner(s)) == 1:      # a copied capture of class type
                s = strip(inner(s)[0])
            if s.get("kind") == "DeclRefExpr" and not q.endswith("&"):
                rid = s["referencedDecl"]["id"]
                if rid in env and not isinstance(env[rid], (Clo, Obj)):
                    if mutable and isinstance(env[rid], (It, VarIt)):
                        env[rid] = self.new_iter_var(s["referencedDecl"].get("name", "cap"), self.snap(env[rid]), "capture")
                    elif mutable and isinstance(env[rid], (T, L)) and env[rid].ty.k in ("int", "bool", "dbl"):
                        env[rid] = self.new_var(s["referencedDecl"].get("name", "cap"), self.snap(env[rid]), env[rid].ty, "capture")
                    else:
                        env[rid] = self.snap(env[rid])
                copies.add(rid)
        body = next((c for c in kids if c["kind"] == "CompoundStmt"), None)
        inits = [(f, c) for f, c in zip(fields, caps) if strip(c).get("kind") not in ("DeclRefExpr", "CXXThisExpr")]
        if inits and body is not None:
            # init-captures: the body refers to capture variables that are declared nowhere else
            known, unknown = set(), []

            def walk(x):
                if x.get("kind") in ("VarDecl", "BindingDecl", "ParmVarDecl"):
                    known.add(x.get("id"))
                if x.get("kind") == "DeclRefExpr":
                    r = x["referencedDecl"]
                    if r.get("kind") == "VarDecl" and r["id"] not in env and r["id"] not in self.ast.vars and r["id"] not in unknown:
                        unknown.append(r["id"])
                for y in inner(x):
                    walk(y)
            walk(body)
            for m in inner(rec):
                walk(m)
            unknown = [u for u in unknown if u not in known]
            if len(unknown) == len(inits):
                for u, (f, c) in zip(unknown, inits):
                    if f.get("type", {}).get("qualType", "").endswith("&"):
                        raise Unsupported("reference init-capture")
                    env[u] = self.snap(self.expr(c))
            elif unknown:
                raise Unsupported("init-captures of a lambda")
        h = self.spec.get("lambda_pure", {}).get(getattr(self, "lambda_no", {}).get(id(n)))
        if h is not None:
            return Clo(lambda tr, args, nn=None: h(tr, args), env, self.this, n, rec)
        clo = Clo(lambda tr, args, nn=None: tr.call_lambda(rec, body, env, self.this, args, nn), env, self.this, n, rec)
        clo.copies = copies
        return clo

    def lambda_method(self, rec, args, nn):
        """pick operator() declaration (possibly instantiated generic)"""
        meths = []
        for c in inner(rec):
            if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()":
                meths.append(c)
            if c.get("kind") == "FunctionTemplateDecl" and c.get("name") == "operator()":
                for d in inner(c):
                    if d.get("kind") == "CXXMethodDecl" and any(x.get("kind") == "CompoundStmt" for x in inner(d)):
                        ps = [p for p in inner(d) if p.get("kind") == "ParmVarDecl"]
                        if not any("auto" in node_type_str(p) for p in ps):
                            meths.append(d)
        if nn is not None:
            for m in meths:
                if m["id"] == nn:
                    return m
        if not meths:
            raise Unsupported("lambda without an instantiated body")
        if len(meths) > 1:
            ok = []
            for m in meths:
                ps = [p for p in inner(m) if p.get("kind") == "ParmVarDecl"]
                if len(ps) == len(args) and all(self.ty(p).k == a.ty.k and (self.ty(p).k != "int" or (self.ty(p).a, self.ty(p).b) == (a.ty.a, a.ty.b)) for p, a in zip(ps, args) if a.ty is not None):
                    ok.append(m)
            if ok:
                return ok[0]
        return meths[0]

    def call_lambda(self, rec, body, env, this, args, nn):
        m = self.lambda_method(rec, args, nn)
        mb = next((c for c in inner(m) if c.get("kind") == "CompoundStmt"), None)
        body = mb if mb is not None else body
        params = [p for p in inner(m) if p.get("kind") == "ParmVarDecl"]
        save_env, save_this = self.env, self.this
        self.env, self.this = dict(env), this
        # by-reference captures see the current bindings (refs are shared by name)
        try:
            self.bind_params(params, args)
            rt = self.ty_str(cxxast.ret_of(m["type"].get("qualType", "")))
            return self.run_body(body, rt, "lambda")
        finally:
            self.env, self.this = save_env, save_this

    # ------------------------------------------------------------------ calls
    def e_CallExpr(self, n):
        kids = inner(n)
        cal = strip(kids[0])
        args = drop_default_args(kids[1:])
        if cal["kind"] == "DeclRefExpr":
            rd = cal["referencedDecl"]
            if rd.get("id") in self.env:
                c = self.env[rd["id"]]
                vs = self.eval_seq([lambda a=a: self.expr(a) for a in args])
                return self.invoke(c, vs)
            return self.call_decl(rd, args, n)
        if cal["kind"] == "MemberExpr":
            return self.e_CXXMemberCallExpr(n)
        if cal["kind"] == "UnresolvedLookupExpr":
            raise Unsupported("unresolved call")
        c = self.expr(cal)
        vs = self.eval_seq([lambda a=a: self.expr(a) for a in args])
        return self.invoke(c, vs)

    def invoke(self, c, vs, nid=None):
        if isinstance(c, Clo):
            return c.call(self, vs, nid)
        if isinstance(c, (It, VarIt)):
            return self.invoke(self.deref(c), vs, nid)
        if isinstance(c, Obj):
            return self.models.invoke_obj(self, c, vs)
        raise Unsupported("call of a %s" % c.kind)

    def call_decl(self, rd, args, n):
        name = rd.get("name", "")
        vs = None
        fn = self.ast.fns.get(rd.get("id"))
        if fn is None:
            h = self.models.special_call(self, name, args, n)
            if h is not None:
                return h
        vs = self.eval_seq([lambda a=a: self.expr(a) for a in args])
        return self.call_fn(rd, vs, n)

    def call_fn(self, rd, vs, n):
        name = rd.get("name", "")
        fn = self.ast.fns.get(rd.get("id"))
        if fn is not None:
            r = self.call_contract(fn, None, vs, n)
            if r is not None:
                return r
            d = self.ast.definition_of(fn)
            r = self.models.gapp_fn(self, d, None, vs, n)
            if r is not None:
                return r
            if d.body is None:
                raise Unsupported("no body for " + fn.qname)
            return self.inline(d, vs, None)
        return self.models.std_fn(self, name, vs, n, rd)

    def e_CXXMemberCallExpr(self, n):
        kids = inner(n)
        me = strip(kids[0])
        if me["kind"] != "MemberExpr":
            raise Unsupported("member call through pointer")
        name = me.get("name", "")
        base = inner(me)[0] if inner(me) else None
        args = drop_default_args(kids[1:])
        rid = me.get("referencedMemberDecl")
        base_writes = False
        vals = self.eval_seq([lambda: self.expr(base)] + [lambda a=a: self.expr(a) for a in args], keep_lv=[True] + [False] * len(args))
        obj, vs = vals[0], vals[1:]
        return self.call_method(obj, name, rid, vs, n)

    def call_method(self, obj, name, rid, vs, n):
        if isinstance(obj, (It, VarIt)) and me_arrow(n):
            obj = self.deref(obj)
        fn = self.ast.fns.get(rid)
        if fn is not None:
            r = self.call_contract(fn, obj, vs, n)
            if r is not None:
                return r
        r = self.models.method(self, obj, name, vs, n, fn)
        if r is not None:
            return r
        if fn is not None:
            d = self.ast.definition_of(fn)
            r = self.models.gapp_fn(self, d, obj, vs, n)
            if r is not None:
                return r
            if d.body is not None:
                return self.inline(d, vs, obj)
            raise Unsupported("no body for method " + fn.qname)
        raise Unsupported("method %s of %r at %s" % (name, getattr(obj, "ty", None), loc(n)))

    def e_CXXOperatorCallExpr(self, n):
        kids = inner(n)
        cal = strip(kids[0])
        rd = cal.get("referencedDecl", {})
        op = rd.get("name", "").replace("operator", "")
        args = kids[1:]
        if op == "=":
            vb, va = self.eval_seq([lambda: self.expr(args[1]), lambda: self.expr(args[0])])
            vals = [va, vb]
        elif op in ("+=", "-=", "*=", "/=", "^=", "|=", "&="):
            vb, va = self.eval_seq([lambda: self.expr(args[1]), lambda: self.expr(args[0])])
            vals = [va, vb]
        else:
            keep = [op in ("[]", "()", "++", "--", "*", "->")] + [False] * (len(args) - 1)
            vals = self.eval_seq([lambda a=a: self.expr(a) for a in args], keep_lv=keep)
        fn = self.ast.fns.get(rd.get("id"))
        if fn is not None:
            r = self.call_contract(fn, vals[0] if fn.cls is not None else None, vals[1:] if fn.cls is not None else vals, n)
            if r is not None:
                return r
        if op == "->" and "->" in self.spec.get("obj_operators", {}):
            return self.spec["obj_operators"]["->"](self, self.expr(args[0]), [])
        if op == "->" and fn is not None and fn.qname == "gapp::detail::proxy_ptr::operator->":
            return vals[0]
        r = self.models.operator(self, op, vals, n, fn, rd)
        if r is not None:
            return r
        if fn is not None:
            d = self.ast.definition_of(fn)
            if d.body is not None:
                if d.node["kind"] == "CXXMethodDecl":
                    return self.inline(d, vals[1:], vals[0])
                return self.inline(d, vals, None)
        raise Unsupported("operator%s on %s at %s" % (op, ", ".join(repr(getattr(v, "ty", v.kind)) for v in vals), loc(n)))

    def call_contract(self, fn, obj, vs, n):
        c = self.contracts.get(fn.qname)
        if c is None:
            return None
        if callable(c):
            return c(self, fn, obj, vs, n)
        return None

    # contract call: name, params [(pname, wty, V, mutable L or None)], ret Ty
    def emit_val_call(self, wname, decl, args, ret, outs):
        """args: list of terms, outs: list of L lvalues (passed by reference, in order after args)"""
        self.vals[wname] = decl
        call = [wname]
        for a in args:
            call.append(par(a))
        tmps = []
        for lv in outs:
            t = self.newname("out")
            self.blk.add("ref", t, self.term(lv), lv.ty)
            self.blk.locals.add(t)
            tmps.append(t)
            call.append("(ref %s)" % t if False else "&%s" % t)
        if not args and not outs:
            call.append("()")
        if ret.k == "void":
            self.blk.add("raw", " ".join(call) + ";")
            res = UNIT
        else:
            r = self.tmp("r")
            self.blk.add("raw", "let %s = %s in" % (r, " ".join(call)))
            res = T(r, ret)
        self.blk.effect = True
        for lv, t in zip(outs, tmps):
            self.set_term(lv, t)
        return res

    # ------------------------------------------------------------------ inlining
    def inline(self, fn, vs, this):
        if fn.qname in self.inlining and self.inlining.count(fn.qname) > 2:
            raise Unsupported("recursion through " + fn.qname)
        if len(self.inlining) > 25:
            raise Unsupported("inlining too deep at " + fn.qname)
        if fn.qname not in self.used_fns:
            self.used_fns.append(fn.qname)
        save_env, save_this = self.env, self.this
        self.env = dict(save_env)
        self.inlining.append(fn.qname)
        try:
            if this is not None:
                self.this = this
            self.bind_params(fn.params, vs)
            rt = self.ty_str(self.fn_ret(fn))
            return self.run_body(fn.body, rt, fn.qname.split("::")[-1])
        finally:
            self.env, self.this = save_env, save_this
            self.inlining.pop()

    def fn_ret(self, fn):
        t = fn.node.get("type", {})
        r = cxxast.ret_of(t.get("qualType", ""))
        if "GeneType" in r or self.ty_str(r).k == "opaque":
            d = t.get("desugaredQualType")
            if d:
                r2 = cxxast.ret_of(d)
                if r2 != r and not r2.startswith("auto") and self.ty_str(r2).k != "opaque":
                    return r2
            # alias of the enclosing class
            for al, tgt in self.ast.aliases.items():
                pass
        return r

    def bind_params(self, params, vs):
        i = 0
        for p in params:
            if i >= len(vs):
                ini = [c for c in inner(p) if c.get("kind", "").endswith(("Expr", "Literal", "Operator"))]
                if not ini:
                    t = p.get("type", {})
                    m = re.match(r"(?:const )?std::(?:ranges::)?(less|greater|less_equal|equal_to|identity|plus)\b", (t.get("desugaredQualType") or t.get("qualType", "")))
                    if not m:
                        raise Unsupported("missing argument for parameter %s" % p.get("name"))
                    v = Obj(m.group(1))      # value-initialised function object
                else:
                    v = self.expr(ini[0])
            else:
                v = vs[i]
            i += 1
            self.env[p["id"]] = self.bind_value(p, v)

    def bind_value(self, p, v):
        q = p.get("type", {}).get("qualType", "")
        ty = self.ty(p)
        isref = q.strip().endswith("&")
        if isinstance(v, (Clo, Obj)):
            return v
        if isref:
            return self.freeze_lv(v) if isinstance(v, (L, It)) else v
        if isinstance(v, (It, VarIt)):
            return self.new_iter_var(p.get("name", "it"), v, q)
        if isinstance(v, Tup):
            return v
        if ty.k == "opaque":
            ty = v.ty
        v = self.coerce(v, ty)
        if "const" in q.split() and not isinstance(v, L):
            return self.snap(v)
        if ty.k == "void" or v.ty.k == "void":
            return v
        return self.new_var(p.get("name") or "arg", v, v.ty if ty.k == "opaque" else ty, q)

    def new_var(self, name, v, ty, q=""):
        ty = ty.with_(const=False, ref=None)
        self.log_local(name, q)
        nm = self.newname(name)
        t = self.term(v)
        self.blk.add("ref", nm, t, ty)
        self.blk.locals.add(nm)
        self.roots[nm] = ty
        return L(nm, [], ty, ty)

    def log_local(self, name, q):
        self.locals_log.append((name, q))

    def new_iter_var(self, name, v, q=""):
        self.log_local(name, q)
        nm = self.newname(name)
        seq = v.seq
        if isinstance(seq, T) and not re.match(r"^[\w']+$", seq.term):
            seq = T(self.let(seq.term, "sq"), seq.ty)
        self.blk.add("ref", nm, idx_of(v), SZ)
        self.blk.locals.add(nm)
        self.roots[nm] = SZ
        return VarIt(seq, nm, v.rev)

    def run_body(self, body, rt, name):
        """inline execution of a function body; returns its value"""
        fr = {"rt": rt, "exc": None, "shape": None, "name": name, "top": False}
        self.retstack.append(fr)
        save_loops = self.loopstack
        self.loopstack = []
        try:
            old, blk = self.sub()
            v = self.stmts_tail(inner(body), fr)
            self.blk = old
        finally:
            self.retstack.pop()
            self.loopstack = save_loops
        if fr["exc"] is None and v is not None:
            # straight line: splice the block
            for it in blk.items:
                self.blk.items.append(it)
            self.blk.writes += blk.writes
            self.blk.locals |= blk.locals
            self.blk.effect = self.blk.effect or blk.effect
            return v
        # exceptions involved
        self.merge_writes(blk)
        self.blk.effect = True
        if fr["exc"] is None:
            raise Unsupported("function %s may not return" % name)
        sh = fr["shape"]
        comps = fr["names"]
        payload = lambda p: "()" if not p else (p[0] if len(p) == 1 else "(" + ", ".join(p) + ")")
        if v is not None:
            parts = flat(self, v, sh, rt) if sh != "unit" else []
            fin = payload(parts)
        else:
            fin = "absurd"
        names = [self.tmp("r") for _ in range(fr["n"])]
        txt = self.render(blk, fin)
        lhs = payload(names) if names else "()"
        if names:
            self.blk.add("raw", "let %s = try begin\n%s\nend with %s e' -> e' end in" % (lhs, txt, fr["exc"]))
        else:
            self.blk.add("raw", "try begin\n%s\nend with %s -> () end;" % (txt, fr["exc"]))
        return unflat(sh, names) if sh != "unit" else UNIT

    def always_returns(self, s):
        k = s.get("kind")
        if k == "ReturnStmt":
            return True
        if k == "CompoundStmt":
            return any(self.always_returns(c) for c in inner(s))
        if k == "IfStmt":
            ii, c, th, el = if_parts(s)
            cv = const_cond(s, c)
            if cv is True:
                return self.always_returns(th)
            if cv is False:
                return el is not None and self.always_returns(el)
            return el is not None and self.always_returns(th) and self.always_returns(el)
        if k in ("CallExpr",) and is_unreachable(s):
            return True
        return False

    def contains_return(self, s):
        if s.get("kind") == "ReturnStmt":
            return True
        if s.get("kind") in ("LambdaExpr",):
            return False
        return any(self.contains_return(c) for c in inner(s))

    def stmts_tail(self, ss, fr):
        """statements in tail position of a function body: returns the result value, or None when it never falls out normally
        (all paths raised), UNIT for falling off the end of a void function"""
        i = 0
        while i < len(ss):
            s = ss[i]
            k = s.get("kind")
            if k == "ReturnStmt":
                ii = inner(s)
                return self.ret_value(ii[0] if ii else None, fr)
            if k == "CompoundStmt" and (self.always_returns(s) or i == len(ss) - 1):
                return self.stmts_tail(inner(s), fr)
            if k == "CallExpr" and is_unreachable(s):
                self.check("unreachable code is not reached", "false")
                self.blk.add("raw", "absurd;") if False else None
                return "unreachable"
            if k == "IfStmt" and self.contains_return(s):
                ini, c, th, el = if_parts(s)
                for x in ini:
                    self.stmt(x)
                cv = const_cond(s, c)
                if cv is not None:
                    br = th if cv else el
                    rest = ([br] if br is not None else []) + ss[i + 1:]
                    # note: scopes are flattened, names are unique
                    flat_rest = []
                    for r in rest:
                        if r.get("kind") == "CompoundStmt":
                            flat_rest += inner(r)
                        else:
                            flat_rest.append(r)
                    return self.stmts_tail(flat_rest, fr)
                rest = ss[i + 1:]
                ta_ret = self.always_returns(th)
                el_ret = el is not None and self.always_returns(el)
                if ta_ret or el_ret:
                    tc = self.cond_formula(c)
                    tc = self.let(tc, "c") if not re.match(r"^[\w']+$", tc) and False else tc
                    th_s = [th] if ta_ret else [th] + rest
                    el_s = ([el] if el is not None else []) + ([] if el_ret else rest)
                    if ta_ret and el_ret:
                        el_s = [el]
                    return self.tail_branch(tc, th_s, el_s, fr)
            self.stmt(s)
            i += 1
        return UNIT

    def tail_branch(self, tc, sa, sb, fr):
        cnt = self.names.copy()
        old, ba = self.sub()
        va = self.stmts_tail(sa, fr)
        self.blk = old
        old, bb = self.sub()
        vb = self.stmts_tail(sb, fr)
        self.blk = old
        if va == "unreachable" and vb == "unreachable":
            raise Unsupported("unreachable on both branches")
        if va == "unreachable" or vb == "unreachable":
            g = tc if va == "unreachable" else "not %s" % par(tc)
            live, v = (bb, vb) if va == "unreachable" else (ba, va)
            dead = ba if va == "unreachable" else bb
            if va == "unreachable":
                self.check("unreachable code is not reached", "not %s" % par(tc))
            else:
                self.check("unreachable code is not reached", tc)
            for it in live.items:
                self.blk.items.append(it)
            self.blk.writes += live.writes
            self.blk.locals |= live.locals
            self.blk.effect = self.blk.effect or live.effect
            return v
        self.merge_writes(ba)
        self.merge_writes(bb)
        if va is None and vb is None:
            self.blk.add("raw", "if %s then begin\n%s\nend else begin\n%s\nend;" % (tc, self.render(ba, "()"), self.render(bb, "()")))
            return None
        if va is UNIT or vb is UNIT:
            self.blk.add("raw", "if %s then begin\n%s\nend else begin\n%s\nend;" % (tc, self.render(ba, "()"), self.render(bb, "()")))
            return UNIT
        rt = fr["rt"]
        if va is None or vb is None:
            v = vb if va is None else va
            sh = shape(v, v)
            p = flat(self, v, sh, rt)
            pay = p[0] if len(p) == 1 else "(" + ", ".join(p) + ")"
            names = [self.tmp("c") for _ in p]
            lhs = names[0] if len(names) == 1 else "(" + ", ".join(names) + ")"
            pa, pb = ("absurd", pay) if va is None else (pay, "absurd")
            self.blk.add("raw", "let %s = if %s then begin\n%s\nend else begin\n%s\nend in" % (lhs, tc, self.render(ba, pa), self.render(bb, pb)))
            return unflat(sh, names)
        sh = shape(va, vb)
        if sh is None and rt is not None:
            va, vb = self.to_ty(va, rt), self.to_ty(vb, rt)
            sh = shape(va, vb)
        if sh is None:
            raise Unsupported("branches return different kinds of value")
        pa, pb = flat(self, va, sh, rt), flat(self, vb, sh, rt)
        pure_ok = not ba.effect and not bb.effect and not any(i[0] == "let" and i[2].startswith("any_") for b in (ba, bb) for i in b.items)
        if pure_ok and not fr["top"]:
            for g, blk in ((tc, ba), ("not %s" % par(tc), bb)):
                _, pre = self.pure_formula(blk, "true")
                for lbl, p in pre:
                    self.check(lbl, "(%s) -> (%s)" % (g, p))
            la = [(i[1], i[2]) for i in ba.items if i[0] == "let"]
            lb = [(i[1], i[2]) for i in bb.items if i[0] == "let"]
            return unflat(sh, ["(if %s then %s else %s)" % (tc, wrap_lets(la, x), wrap_lets(lb, y)) for x, y in zip(pa, pb)])
        names = [self.tmp("c") for _ in pa]
        fin = lambda p: p[0] if len(p) == 1 else "(" + ", ".join(p) + ")"
        lhs = fin(names) if names else "()"
        self.blk.add("raw", "let %s = if %s then begin\n%s\nend else begin\n%s\nend in" % (lhs, tc, self.render(ba, fin(pa)), self.render(bb, fin(pb))))
        return unflat(sh, names)

    def to_ty(self, v, ty):
        if ty is None or ty.k == "opaque":
            return v
        v = self.coerce(v, ty)
        if isinstance(v, (L, Tup)) and ty.k in ("rec", "seq", "tup", "int", "bool", "dbl", "opt"):
            return T(self.term(v), ty)
        return v

    def ret_value(self, e, fr):
        if e is None:
            v = UNIT
        else:
            v = self.expr(e)
            rt = fr["rt"]
            if rt is not None and rt.k not in ("opaque", "void", "iter") and rt.ref is None and isinstance(v, (T, L, Tup)):
                v = self.coerce(v, rt)
                if isinstance(v, L):
                    v = T(self.term(v), v.ty)
                v = self.snap(v)
        if fr["top"]:
            t = self.term(v) if v is not UNIT else "()"
            return self.exit_anchor(v)
        return v

    def exit_anchor(self, v):
        if self.dtors:
            if v is not UNIT:
                v = T(self.let(self.term(v), "rv"), v.ty)
            for run in reversed(self.dtors):
                run()
        txt = self.spec.get("ghost", {}).get("exit")
        if txt:
            if v is not UNIT:
                self.blk.add("let", "res_", self.term(v))
                self.blk.add("raw", txt)
                return T("res_", v.ty)
            self.blk.add("raw", txt)
        return v

    def raise_return(self, e):
        fr = self.retstack[-1]
        v = self.ret_value(e, fr)
        if v is UNIT:
            sh, parts = "unit", []
        else:
            sh = shape(v, v)
            parts = flat(self, v, sh, fr["rt"])
        if fr["exc"] is None:
            self.ntemp += 1
            fr["exc"] = "Ret%d" % self.ntemp
            fr["shape"] = sh
            fr["n"] = len(parts)
            fr["names"] = None
            tys = flat_types(v, sh, fr["rt"]) if sh != "unit" else []
            self.excs.append((fr["exc"], tys))
        else:
            if sh != "unit" and not shape_compat(fr["shape"], sh):
                raise Unsupported("returns of different kinds")
        pay = "" if not parts else (par(parts[0]) if len(parts) == 1 else "(" + ", ".join(parts) + ")")
        self.blk.add("raw", "raise %s %s;" % (fr["exc"], pay) if pay else "raise %s;" % fr["exc"])

    # ------------------------------------------------------------------ statements
    def stmt(self, s):
        k = s.get("kind")
        m = getattr(self, "s_" + k, None)
        if m is not None:
            return m(s)
        if k.endswith(("Expr", "Operator", "Literal", "Cleanups")):
            if is_unreachable(s):
                self.check("unreachable code is not reached", "false")
                return
            v = self.expr(s)
            return
        raise Unsupported("statement kind %s at %s" % (k, loc(s)))

    def s_NullStmt(self, s):
        pass

    def s_CompoundStmt(self, s):
        for c in inner(s):
            self.stmt(c)

    def s_AttributedStmt(self, s):
        for c in inner(s):
            if not c["kind"].endswith("Attr"):
                self.stmt(c)

    def s_DeclStmt(self, s):
        for d in inner(s):
            if d["kind"] == "VarDecl" and re.match(r"(gapp::)?(detail::)?restore_on_exit\b", d.get("type", {}).get("qualType", "")):
                self.restore_guard(s, d)
                continue
            if self.scope_guard(s, d):
                continue
            self.decl(d)

    def scope_guard(self, s, d):
        """an RAII object named in the spec: its constructor and destructor have an effect on ghost state"""
        q = d.get("type", {}).get("qualType", "")
        m = re.match(r"(?:const )?(?:\w+::)*(\w+)\b", q)
        g = self.spec.get("guards", {}).get(m.group(1)) if d["kind"] == "VarDecl" and m else None
        if g is None:
            return False
        if g[1] and (len(self.retstack) != 1 or not any(c.get("id") == s.get("id") for c in inner(self.fn_body))):
            raise Unsupported("%s in a nested scope" % m.group(1))
        e = [c for c in inner(d) if not c["kind"].endswith("Attr")][-1]
        while e["kind"] not in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr"):
            e = inner(e)[0]
        vs = [self.expr(a) for a in inner(e)]
        self.env[d["id"]] = g[0](self, vs)
        if g[1]:
            self.dtors.append(lambda: g[1](self))
        return True

    def restore_guard(self, s, d):
        """detail::restore_on_exit guard{ vars... }: the variables get their current values back at every exit of the function"""
        if len(self.retstack) != 1 or not any(c.get("id") == s.get("id") for c in inner(self.fn_body)):
            raise Unsupported("restore_on_exit in a nested scope")
        e = [c for c in inner(d) if not c["kind"].endswith("Attr")][-1]
        while e["kind"] not in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            e = inner(e)[0]
        for a in inner(e):
            v = self.expr(a)
            if not isinstance(v, L):
                raise Unsupported("restore_on_exit of a non-variable")
            v = self.freeze_lv(v)
            o = T(self.let(self.term(v), "saved"), v.ty)
            self.dtors.append(lambda v=v, o=o: self.assign(v, o))
        self.used_models.add("restore_on_exit: the destructor restores the values at every return (exceptions are not modelled)")

    def decl(self, d):
        k = d["kind"]
        if k in ("UsingDecl", "UsingEnumDecl", "TypedefDecl", "TypeAliasDecl", "StaticAssertDecl", "UsingDirectiveDecl", "CXXRecordDecl", "NamespaceAliasDecl"):
            return
        if k == "DecompositionDecl":
            ii = inner(d)
            init = next(c for c in ii if c["kind"] != "BindingDecl")
            binds = [c for c in ii if c["kind"] == "BindingDecl"]
            v = self.expr(init)
            q = d.get("type", {}).get("qualType", "")
            parts = self.destructure(v, len(binds))
            isref = q.strip().endswith("&")
            for b, p in zip(binds, parts):
                if isinstance(p, (It, VarIt)):
                    self.env[b["id"]] = self.new_iter_var(b.get("name", "it"), p, "iter")
                elif isinstance(p, (Clo, Obj)):
                    self.env[b["id"]] = p
                elif isref:
                    self.env[b["id"]] = self.freeze_lv(p)
                else:
                    self.env[b["id"]] = self.new_var(b.get("name", "b"), p, p.ty, q)
            return
        if k != "VarDecl":
            raise Unsupported("declaration kind " + k)
        q = d.get("type", {}).get("qualType", "")
        ty = self.ty(d)
        ii = [c for c in inner(d) if not c["kind"].endswith("Attr")]
        if d.get("storageClass") == "static" or d.get("tls"):
            if "const" not in q.split() and not d.get("constexpr"):
                # static / thread_local mutable object: arbitrary content
                nm = self.any(ty)
                self.env[d["id"]] = self.new_var(d["name"], T(nm, ty), ty, q)
                return
        if not ii:
            if ty.k in ("int", "bool", "dbl"):
                self.env[d["id"]] = self.new_var(d["name"], T(self.any(ty), ty), ty, q)
                return
            v = self.default(ty)
        else:
            v = self.expr(ii[-1])
        self.env[d["id"]] = self.bind_decl(d, v, ty, q)
        nv = self.env[d["id"]]
        if getattr(v, "view", None) and isinstance(nv, L):
            self.__dict__.setdefault("views", {})[nv.root] = v.view      # a span: the part of a container it refers to
        nm = nv.root if isinstance(nv, L) and not nv.path else self.rename.get(d["name"], d["name"])
        a = self.spec.get("ghost", {}).get("decl:" + nm)
        if a:
            self.blk.add("raw", a)

    def bind_decl(self, d, v, ty, q):
        isref = q.strip().endswith("&")
        name = d.get("name", "v")
        if isinstance(v, (Clo, Obj)):
            return v
        if isref:
            if isinstance(v, (L, It)):
                return self.freeze_lv(v)
            if isinstance(v, VarIt):
                return v
            if not isinstance(v, T):
                return v
            t = self.let(self.term(v), san(name))
            if t.startswith(san(name) + "'"):
                r = self.fresh_name("ref_" + san(name)) if hasattr(self, "fresh_name") else "ref_" + san(name)
                self.blk.add("raw", "let ghost %s = %s in" % (r, t))
            return T(t, v.ty)
        if isinstance(v, (It, VarIt)):
            return self.new_iter_var(name, v, q)
        if isinstance(v, Tup):
            if any(isinstance(x, (It, VarIt, Clo, Obj)) for x in v.vs) :
                return self.snap(v)
            return self.new_var(name, v, v.ty if ty.k != "tup" else ty, q)
        if ty.k == "opaque":
            ty = v.ty
        if ty.k == "void":
            return v
        v = self.coerce(v, ty)
        return self.new_var(name, v, ty if ty.k != "opaque" else v.ty, q)

    def destructure(self, v, n):
        if isinstance(v, Tup):
            return v.vs
        if v.ty.k == "tup":
            if isinstance(v, T):
                names = [self.tmp("u") for _ in range(n)]
                self.blk.add("raw", "let (%s) = %s in" % (", ".join(names), v.term))
                return [T(x, t) for x, t in zip(names, v.ty.a)]
            return [v.ext(("t", j, v.ty.a[j])) for j in range(n)]
        if v.ty.k == "rec":
            if isinstance(v, T):
                nm = self.let(v.term, "u")
                return [T("%s.%s" % (nm, self.fieldname(v.ty.a, f)), t) for f, t in self.recs[v.ty.a]]
            return [v.ext(("f", f, t)) for f, t in self.recs[v.ty.a]]
        raise Unsupported("structured binding of %r" % v.ty)

    def s_ReturnStmt(self, s):
        ii = inner(s)
        self.raise_return(ii[0] if ii else None)

    def s_BreakStmt(self, s):
        self.blk.add("raw", "break;")

    def s_ContinueStmt(self, s):
        lp = self.loopstack[-1]
        if lp["cont"] is None:
            self.ntemp += 1
            lp["cont"] = "Cont%d" % self.ntemp
            self.excs.append((lp["cont"], []))
        self.blk.add("raw", "raise %s;" % lp["cont"])

    def s_IfStmt(self, s):
        ini, c, th, el = if_parts(s)
        for x in ini:
            self.stmt(x)
        cv = const_cond(s, c)
        if cv is not None:
            br = th if cv else el
            if br is not None:
                self.stmt(br)
            return
        if c.get("kind") == "DeclStmt":
            raise Unsupported("declaration as a condition")
        tc = self.cond_formula(c)
        old, ba = self.sub()
        self.stmt(th)
        self.blk = old
        old, bb = self.sub()
        if el is not None:
            self.stmt(el)
        self.blk = old
        self.merge_writes(ba)
        self.merge_writes(bb)
        ta = self.render(ba, "()")
        tb = self.render(bb, "()")
        if not bb.items:
            self.blk.add("raw", "if %s then begin\n%s\nend;" % (tc, ta))
        else:
            self.blk.add("raw", "if %s then begin\n%s\nend else begin\n%s\nend;" % (tc, ta, tb))

    # loops ---------------------------------------------------------------
    def s_WhileStmt(self, s):
        ii = inner(s)
        cond, body = ii[-2], ii[-1]
        self.loop("while", lambda: self.cond_formula(cond), lambda: self.stmt(body), None)

    def s_DoStmt(self, s):
        body, cond = inner(s)
        # do body while(cond)  ==  first := true; while (first || cond) { first := false; body }
        nm = self.newname("first_iter")
        self.blk.add("ref", nm, "true", BOOL)
        self.blk.locals.add(nm)
        self.roots[nm] = BOOL

        def c():
            old, b = self.sub()
            t = self.cond_formula(cond)
            self.blk = old
            if not b.items:
                return "(%s || %s)" % (nm, t)
            self.merge_writes(b)
            r = self.tmp("c")
            self.blk.add("raw", "let %s = if %s then true else begin\n%s\nend in" % (r, nm, self.render(b, t)))
            return r

        def bd():
            self.blk.add("raw", "%s <- false;" % nm)
            self.write(nm, (), "whole")
            self.stmt(body)
        self.loop("do", c, bd, None)

    def s_ForStmt(self, s):
        ii = s.get("inner", [])
        init, _, cond, inc, body = ii[0], ii[1], ii[2], ii[3], ii[4]
        if init:
            self.stmt(init)
        cv = (lambda: self.cond_formula(cond)) if cond else (lambda: "true")
        self.loop("for", cv, lambda: self.stmt(body), (lambda: self.stmt(inc)) if inc else None, fornodes=(cond, inc))

    def s_CXXTryStmt(self, s):
        """try / catch (...): the exceptions are those the contracts of the called functions raise (WhyML exception Cpp_exc)"""
        ii = inner(s)
        if len(ii) != 2 or len([c for c in inner(ii[1]) if c.get("kind")]) != 1:
            raise Unsupported("catch of a particular type")
        if self.contains_return(s):
            raise Unsupported("return inside a try block")
        old, ba = self.sub()
        self.stmt(ii[0])
        self.blk = old
        old, bb = self.sub()
        self.stmt([c for c in inner(ii[1]) if c.get("kind")][0])
        self.blk = old
        self.merge_writes(ba)
        self.merge_writes(bb)
        self.cpp_exc()
        self.blk.effect = True
        self.blk.add("raw", "try begin\n%s\nend with Cpp_exc -> begin\n%s\nend end;" % (self.render(ba, "()"), self.render(bb, "()")))

    def cpp_exc(self):
        if ("Cpp_exc", []) not in self.excs:
            self.excs.append(("Cpp_exc", []))

    def throw(self):
        self.cpp_exc()
        self.blk.effect = True
        self.blk.add("raw", "raise Cpp_exc;")

    def s_CXXForRangeStmt(self, s):
        ii = s.get("inner", [])
        init = ii[0]
        if init:
            self.stmt(init)
        rng, beg, end, cond, inc, var, body = ii[1:8]
        self.stmt(rng)
        vd = inner(var)[0]
        name = vd.get("name") or "elem"
        if vd["kind"] == "DecompositionDecl":
            name = "_".join(b.get("name", "") for b in inner(vd) if b["kind"] == "BindingDecl")
        bd = inner(beg)[0]
        ed = inner(end)[0]
        vb = self.expr(inner(bd)[-1])
        ve = self.expr(inner(ed)[-1])
        if not isinstance(vb, (It, VarIt)) or not isinstance(ve, (It, VarIt)):
            return self.models.range_for(self, vb, ve, name, var, body, s)
        i0 = self.snap(vb)
        e0 = self.snap(ve)
        b_idx = self.new_iter_var(name + "__i", i0, "range-index")
        self.env[bd["id"]] = b_idx
        self.env[ed["id"]] = e0
        # loop variable type is taken from the AST; the element is bound at each iteration

        def c():
            return self.compare("!=", b_idx, e0).term

        def body_():
            self.stmt(var)
            self.stmt(body)

        def inc_():
            self.assign(b_idx, It(b_idx.seq, "(%s %s 1)" % (b_idx.ref, "-" if b_idx.rev else "+"), b_idx.rev))
        if b_idx.rev:
            auto = ["%s <= %s <= %s" % (par(e0.idx), b_idx.ref, par(i0.idx))]
            var_ = "(%s - %s)" % (b_idx.ref, par(e0.idx))
        else:
            auto = ["%s <= %s <= %s" % (par(i0.idx), b_idx.ref, par(e0.idx))]
            var_ = "(%s - %s)" % (par(e0.idx), b_idx.ref)
        self.loop("range", c, body_, inc_, auto=auto, variant=var_, rng=(b_idx, i0, e0))

    def loop(self, kind, condf, bodyf, incf, auto=None, variant=None, fornodes=None, rng=None):
        self.nloop += 1
        no = self.nloop
        sp = self.spec.get("loops", {}).get(no, {})
        self.loop_log.append((no, kind, list(self.inlining)))
        gh = self.spec.get("ghost", {})
        lab = "L%d" % no
        if gh.get("loop%d.before" % no):
            self.blk.add("raw", gh["loop%d.before" % no])
        # condition
        old, cb = self.sub()
        tc = condf()
        self.blk = old
        # body
        lp = {"cont": None}
        self.loopstack.append(lp)
        old, bb = self.sub()
        if gh.get("loop%d.body" % no):
            self.blk.add("raw", gh["loop%d.body" % no])
        bodyf()
        self.blk = old
        self.loopstack.pop()
        old, ib = self.sub()
        if gh.get("loop%d.end" % no):
            self.blk.add("raw", gh["loop%d.end" % no])
        if incf:
            incf()
        self.blk = old
        writes = [w for b in (cb, bb, ib) for w in b.writes if w[0] not in (cb.locals | bb.locals | ib.locals)]
        incw = [w for w in ib.writes]
        bodyw = [w for w in bb.writes if w[0] not in bb.locals]
        invs = [("loop %d: range of the iteration index" % no, a) for a in (auto or [])]
        if variant and sp.get("variant") is None:
            sp = dict(sp, variant=variant)
        invs += self.auto_frames(no, lab, writes)
        if kind == "for" and fornodes and fornodes[0] and fornodes[1]:
            a, vnt = self.auto_for(no, lab, fornodes, writes, incw, bodyw)
            invs = a + invs
            if vnt and sp.get("variant") is None:
                sp = dict(sp, variant=vnt)
        for nm, f in sp.get("inv", []):
            invs.append(("loop %d invariant: %s" % (no, nm), f))
        if sp.get("noauto"):
            invs = [i for i in invs if "invariant:" in i[0]]
        lines = ["label %s in" % lab]
        inv_txt = "".join("  invariant { [@expl:%s] %s }\n" % (lbl_(a), f) for a, f in invs)
        if sp.get("variant"):
            inv_txt += "  variant { %s }\n" % sp["variant"]
        bt = self.render(bb, "()")
        if lp["cont"]:
            bt = "try begin\n%s\nend with %s -> () end;" % (bt, lp["cont"])
        else:
            bt = bt[:-2] if bt.endswith("()") and bb.items else bt
            if bt.strip() == "()":
                bt = ""
        it = self.render(ib, "()")
        if cb.items:
            ct = "begin\n%s\nend" % self.render(cb, tc)
        else:
            ct = tc
        lines.append("while %s do\n%s%s\n%s\ndone;" % (ct, inv_txt, bt, it))
        self.blk.add("raw", "\n".join(lines))
        for w in writes:
            self.blk.writes.append(w)
        if gh.get("loop%d.after" % no):
            self.blk.add("raw", gh["loop%d.after" % no])

    def auto_frames(self, no, lab, writes):
        """length and field frame invariants, derived from the set of assignments in the loop"""
        out = []
        roots = {}
        for r, f, k in writes:
            roots.setdefault(r, []).append((f, k))
        for r, ws in roots.items():
            ty = self.roots.get(r)
            if ty is None:
                continue
            out += self.frames_of(r, ty, (), ws, lab, no)
        return out

    def frames_of(self, base, ty, fields, ws, lab, no):
        out = []
        here = [(f, k) for f, k in ws if f[:len(fields)] == fields]
        if not here:
            eqf = "%s = (%s at %s)" % (base, base, lab)
            return [("loop %d: %s is not modified" % (no, base), eqf)] if fields else []
        if any(f == fields and k in ("whole", "grow") for f, k in here):
            return []
        if ty.k == "rec":
            for f, t in self.recs[ty.a]:
                fn = self.fieldname(ty.a, f)
                out += self.frames_of_field("%s.%s" % (base, fn), base, fn, t, fields + (f,), ws, lab, no)
            return out
        if ty.k == "seq":
            s = sfx(ty.a)
            out.append(("loop %d: size of %s is unchanged" % (no, base), "len_%s %s = len_%s (%s at %s)" % (s, base, s, base, lab)))
            if ty.a.k == "seq" and all(k in ("elem", "deep") for f, k in here if f == fields) and all(k == "deep" for f, k in here if f == fields):
                s2 = sfx(ty.a.a)
                out.append(("loop %d: sizes of the rows of %s are unchanged" % (no, base),
                            "forall k'. 0 <= k' < len_%s %s -> len_%s (get_%s %s k') = len_%s (get_%s (%s at %s) k')" % (s, base, s2, s, base, s2, s, base, lab)))
        return out

    def frames_of_field(self, expr, base, fn, t, fields, ws, lab, no):
        here = [(f, k) for f, k in ws if f[:len(fields)] == fields]
        at = lambda e: "(%s at %s)" % (e, lab)
        if not here:
            return [("loop %d: %s is not modified" % (no, expr), "%s = %s" % (expr, at(expr)))]
        if any(f == fields and k in ("whole", "grow") for f, k in here):
            return []
        if t.k == "seq":
            s = sfx(t.a)
            return [("loop %d: size of %s is unchanged" % (no, expr), "len_%s %s = len_%s %s" % (s, par(expr), s, at(expr)))]
        if t.k == "rec":
            out = []
            for f, tt in self.recs[t.a]:
                out += self.frames_of_field("%s.%s" % (expr, self.fieldname(t.a, f)), base, None, tt, fields + (f,), ws, lab, no)
            return out
        return []

    def auto_for(self, no, lab, fornodes, writes, incw, bodyw):
        cond, inc = fornodes
        i = strip(inc)
        if i.get("kind") != "UnaryOperator" and not (i.get("kind") == "CompoundAssignOperator"):
            if not (i.get("kind") == "CXXOperatorCallExpr"):
                return [], None
        up = None
        step = 1
        if i.get("kind") == "UnaryOperator":
            if i["opcode"] not in ("++", "--"):
                return [], None
            up = i["opcode"] == "++"
            tgt = strip(inner(i)[0])
        elif i.get("kind") == "CompoundAssignOperator":
            if i["opcode"] not in ("+=", "-="):
                return [], None
            up = i["opcode"] == "+="
            tgt = strip(inner(i)[0])
            st = strip(inner(i)[1])
            if st.get("kind") != "IntegerLiteral":
                return [], None
            step = int(st["value"])
        else:
            nm = strip(inner(i)[0]).get("referencedDecl", {}).get("name")
            if nm not in ("operator++", "operator--"):
                return [], None
            up = nm == "operator++"
            tgt = strip(inner(i)[1])
        if tgt.get("kind") != "DeclRefExpr":
            return [], None
        v = self.env.get(tgt["referencedDecl"]["id"])
        if isinstance(v, L) and not v.path and v.ty.k == "int":
            ref = v.root
        elif isinstance(v, VarIt) and not v.rev:
            ref = v.ref
        else:
            return [], None
        if any(w[0] == ref for w in bodyw):
            return [], None
        c = strip(cond)
        if c.get("kind") not in ("BinaryOperator", "CXXOperatorCallExpr", "CXXRewrittenBinaryOperator"):
            return [("loop %d: range of the loop counter" % no, ("(%s at %s) <= %s" if up else "%s <= (%s at %s)") % ((ref, lab, ref) if up else (ref, ref, lab)))], None
        if c.get("kind") == "CXXRewrittenBinaryOperator":
            c = strip(inner(c)[-1])
        if c.get("kind") == "UnaryOperator":
            c2 = strip(inner(c)[0])
            op = "!=" if c.get("opcode") == "!" else None
            c = c2
            ops = inner(c2)[1:] if c2.get("kind") == "CXXOperatorCallExpr" else inner(c2)
        elif c.get("kind") == "BinaryOperator":
            op = c["opcode"]
            ops = inner(c)
        else:
            op = strip(inner(c)[0]).get("referencedDecl", {}).get("name", "").replace("operator", "")
            ops = inner(c)[1:]
        if len(ops) < 2:
            return [], None
        lhs, rhs = strip(ops[0]), ops[1]
        first = [("loop %d: range of the loop counter" % no, ("(%s at %s) <= %s" % (ref, lab, ref)) if up else ("%s <= (%s at %s)" % (ref, ref, lab)))]
        if not (lhs.get("kind") == "DeclRefExpr" and lhs["referencedDecl"]["id"] == tgt["referencedDecl"]["id"]):
            return first, None
        wroots = {(w[0]) for w in writes if w[0] != ref}
        old, b = self.sub()
        try:
            rv = self.expr(rhs)
            rt = idx_of(rv) if isinstance(rv, (It, VarIt)) else self.term(rv)
            bad = b.effect
        except Unsupported:
            bad = True
        self.blk = old
        if bad:
            return first, None
        lets = [(it[1], it[2]) for it in b.items if it[0] == "let"]
        rt = wrap_lets(lets, rt)
        # bounds that only mention sizes of containers whose size does not change are fine: they are re-evaluated in the invariant
        slack = "" if step == 1 else " + %d" % (step - 1)
        if up and op in ("<", "!="):
            first.append(("loop %d: loop counter does not pass its bound" % no, "%s <= %s%s \\/ %s = (%s at %s)" % (ref, par(rt), slack, ref, ref, lab)))
            return first, "(%s - %s)" % (par(rt), ref)
        if up and op == "<=":
            first.append(("loop %d: loop counter does not pass its bound" % no, "%s <= %s + %d \\/ %s = (%s at %s)" % (ref, par(rt), step, ref, ref, lab)))
            return first, "(%s - %s)" % (par(rt), ref)
        if not up and op in (">", "!="):
            first.append(("loop %d: loop counter does not pass its bound" % no, "%s <= %s \\/ %s = (%s at %s)" % (par(rt), ref, ref, ref, lab)))
            return first, "(%s - %s)" % (ref, par(rt))
        if not up and op == ">=":
            first.append(("loop %d: loop counter does not pass its bound" % no, "%s - %d <= %s \\/ %s = (%s at %s)" % (par(rt), step, ref, ref, ref, lab)))
            return first, "(%s - %s + 1)" % (ref, par(rt))
        return first, None

    # ------------------------------------------------------------------ top level
    def function(self, fn):
        """translate a target function; returns (whyml text of the let declaration)"""
        spec = self.spec
        self.blk = Block()
        params = []
        pnames = spec.get("params")
        ty_of = {}
        if spec.get("this_obj"):
            self.this = Obj(spec["this_obj"])       # every member access goes through the spec
            if "this_oid" in spec:
                self.this.oid = spec["this_oid"]
        elif fn.cls is not None and fn.node.get("storageClass") != "static" and fn.node["kind"] != "CXXConstructorDecl":
            tq = spec.get("this_type") or self.class_type(fn)
            tt = self.ty_str(tq)
            if tt.k == "opaque":
                raise Unsupported("class type %s" % tq)
            const = bool(re.search(r"\)\s*const", fn.type))
            if const:
                params.append("(this_: %s)" % wty(tt))
                self.this = T("this_", tt)
            else:
                params.append("(ref this_: %s)" % wty(tt))
                self.this = L("this_", [], tt, tt)
                self.roots["this_"] = tt
            self.names["this_"] = 1
        pre = []
        body_pre = []
        for i, p in enumerate(fn.params):
            nm = san(pnames[i]) if pnames and i < len(pnames) else san(p.get("name") or "unused%d" % i)
            self.names[nm] = self.names.get(nm, 0) + 1
            q = p.get("type", {}).get("qualType", "")
            ty = self.ty(p)
            h = spec.get("param_values", {}).get(nm)
            if h is not None:
                decl, v = h(self)
                params += decl
                self.env[p["id"]] = v
                continue
            if ty.k == "opaque":
                m = re.match(r"(?:const )?std::(?:ranges::)?(less|greater|less_equal|equal_to|identity|plus)\b", (p.get("type", {}).get("desugaredQualType") or q))
                self.env[p["id"]] = Obj(m.group(1)) if m else Obj("param:" + nm, ty=ty)
                continue
            if ty.k == "iter":
                sq = spec.get("iter_params", {}).get(nm)
                if sq is None:
                    raise Unsupported("iterator parameter %s" % nm)
                sname, mutable = sq
                sty = Ty("seq", ty.a)
                self.reg(sty)
                if sname not in ty_of:
                    ty_of[sname] = sty
                    params.append("(%s%s: %s)" % ("ref " if mutable else "", sname, wty(sty)))
                    if mutable:
                        self.roots[sname] = sty
                seqv = L(sname, [], sty, sty) if mutable else T(sname, sty)
                params.append("(%s_0: int)" % nm)
                self.roots[nm] = SZ
                self.blk.add("ref", nm, "%s_0" % nm, SZ)
                self.env[p["id"]] = VarIt(seqv, nm, "reverse_iterator" in (p.get("type", {}).get("desugaredQualType") or q) or "reverse_iterator" in q)
                continue
            if q.strip().endswith("&") and not ty.const and not q.strip().endswith("&&"):
                params.append("(ref %s: %s)" % (nm, wty(ty)))
                t0 = ty.with_(const=False, ref=None)
                self.env[p["id"]] = L(nm, [], t0, t0)
                self.roots[nm] = t0
            elif q.strip().endswith("&") and ty.const:
                params.append("(%s: %s)" % (nm, wty(ty)))
                self.env[p["id"]] = T(nm, ty.with_(const=False, ref=None))
            else:
                t0 = ty.with_(const=False, ref=None)
                params.append("(%s_0: %s)" % (nm, wty(ty)))
                self.blk.add("ref", nm, nm + "_0", t0)
                self.env[p["id"]] = L(nm, [], t0, t0)
                self.roots[nm] = t0
            if ty.k == "int":
                mn, mx = irange(ty)
                vn = nm if (q.strip().endswith("&")) else nm + "_0"
                pre.append("%s <= %s <= %s" % (ilit(mn), vn, ilit(mx)))
        ctor = fn.node["kind"] == "CXXConstructorDecl"
        if ctor and spec.get("this_obj"):
            for ini in fn.inits:
                f, ii = ini.get("anyInit", {}).get("name"), inner(ini)
                h = spec.get("init_hooks", {}).get(f)
                if h is not None and ii and ii[0].get("kind") in ("CXXConstructExpr", "CXXDefaultInitExpr", "ExprWithCleanups"):
                    e = ii[0]
                    while e.get("kind") != "CXXConstructExpr" and len(inner(e)) == 1: e = inner(e)[0]
                    if e.get("kind") == "CXXConstructExpr" or not inner(e):
                        h(self, [self.expr(x) for x in inner(e) if x.get("kind") != "CXXDefaultArgExpr"])
                        continue
                if not (f in spec.get("plain_inits", ()) or (ii and ii[0].get("kind") == "CXXDefaultInitExpr" and not inner(ii[0]))):
                    raise Unsupported("initialiser of %s" % f)
            ctor, rt = False, VOID
        else:
            rt = self.ty_str((spec.get("this_type") or self.class_type(fn)) if ctor else (spec.get("ret_type") or self.fn_ret(fn)))
        if ctor:
            self.names["this_"] = 1
            if rt.k != "rec":
                raise Unsupported("constructor of %s" % rt)
            self.this = self.models.ctor_object(self, rt, fn, "this_")
        if rt.k == "opaque":
            raise Unsupported("return type " + self.fn_ret(fn) + " / " + str(fn.node.get("type")))
        if fn.qname not in self.used_fns:
            self.used_fns.append(fn.qname)
        self.inlining.append(fn.qname)
        fr = {"rt": rt if rt.k != "iter" else Ty("iter", rt.a), "exc": None, "shape": None, "name": fn.qname, "top": True}
        if rt.k == "iter":
            fr["iter"] = True
        self.retstack.append(fr)
        g = spec.get("ghost", {}).get("entry")
        if g:
            self.blk.add("raw", g)
        if rt.k == "iter":
            self.ret_value_orig = self.ret_value
            def rv(e, f, o=self.ret_value_orig):
                if f["top"]:
                    v = self.expr(e)
                    return self.exit_anchor(T(self.let(idx_of(v)), SZ))
                return o(e, f)
            self.ret_value = rv
            fr["rt"] = SZ
            rt = SZ
        if spec.get("ret_model"):
            o2 = self.ret_value
            def rv2(e, f, o2=o2):
                if f["top"]:
                    v = self.expr(e)
                    return self.exit_anchor(spec["ret_model"](self, v))
                return o2(e, f)
            self.ret_value = rv2
        self.fn_body = fn.body
        v = self.stmts_tail(inner(fn.body), fr)
        if ctor and (v is UNIT or v is None):
            if fr["exc"]:
                raise Unsupported("constructor with an early return")
            self.exit_anchor(UNIT)
            fin = "this_"
        elif v is None:
            fin = "absurd"
        elif v is UNIT:
            self.exit_anchor(UNIT)
            fin = "()"
        elif v == "unreachable":
            fin = "absurd"
        else:
            fin = self.term(v)
        txt = self.render(self.blk, fin)
        if fr["exc"]:
            if rt.k == "void":
                txt = "try begin\n%s\nend with %s -> () end" % (txt, fr["exc"])
            else:
                txt = "try begin\n%s\nend with %s e' -> e' end" % (txt, fr["exc"])
        if not params:
            params = ["()"]
        rtw = spec.get("ret_wty") or wty(rt)
        head = "let %s %s : %s\n" % (spec["name"], " ".join(params + spec.get("ghost_params", [])), rtw)
        for f in pre:
            head += "  requires { %s }\n" % f
        for nm, f in spec.get("requires", []):
            head += "  requires { [@expl:precondition %s] %s }\n" % (lbl_(nm), f)
        for nm, f in spec.get("ensures", []):
            head += "  ensures { [@expl:postcondition %s] %s }\n" % (lbl_(nm), f)
        for nm, f in spec.get("raises", []):
            self.cpp_exc()
            head += "  raises { Cpp_exc -> [@expl:postcondition when an exception leaves the function: %s] %s }\n" % (lbl_(nm), f)
        if spec.get("diverges"):
            head += "  diverges\n"
        return head + "=\n" + txt

    def class_type(self, fn):
        c = fn.cls
        nm = c.get("name", "")
        if c["kind"] == "ClassTemplateSpecializationDecl":
            args = []
            for ta in inner(c):
                if ta.get("kind") == "TemplateArgument":
                    if "type" in ta:
                        args.append(ta["type"]["qualType"])
                    elif "value" in ta:
                        args.append(str(ta["value"]))
            return "%s<%s>" % (nm, ", ".join(args))
        qn = fn.qname.rsplit("::", 1)[0]
        return qn


# ----------------------------------------------------------------------------------------------- helpers
def wrap_lets(lets, t):
    used = []
    body = t
    # keep only needed lets, innermost first
    need = set(re.findall(r"[\w']+", t))
    for n, e in reversed(lets):
        if n in need:
            used.append((n, e))
            need |= set(re.findall(r"[\w']+", e))
    for n, e in used:
        body = "(let %s = %s in %s)" % (n, e, body)
    return body


def idx_of(v):
    return v.ref if isinstance(v, VarIt) else v.idx


def same_seq(a, b):
    if isinstance(a, L) and isinstance(b, L):
        return a.key() == b.key()
    if isinstance(a, T) and isinstance(b, T):
        return a.term == b.term
    return False


def shape(a, b):
    """common static shape of two values, or None"""
    if isinstance(a, (It, VarIt)) and isinstance(b, (It, VarIt)):
        if same_seq(a.seq, b.seq) and a.rev == b.rev:
            return ("it", a.seq, a.rev)
        return None
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.vs) == len(b.vs):
        ss = [shape(x, y) for x, y in zip(a.vs, b.vs)]
        if any(s is None for s in ss):
            return None
        return ("tup", ss)
    if isinstance(a, Tup) and isinstance(b, (T, L)) and b.ty.k == "tup":
        return ("t", b.ty)
    if isinstance(b, Tup) and isinstance(a, (T, L)) and a.ty.k == "tup":
        return ("t", a.ty)
    if isinstance(a, L) and isinstance(b, L) and a.root == b.root and len(a.path) == len(b.path) and \
            all(x[0] == y[0] and (x[0] == "i" or x[1] == y[1]) for x, y in zip(a.path, b.path)):
        return ("lv", a)
    if isinstance(a, (T, L)) and isinstance(b, (T, L)):
        if a.ty.k == "int" and b.ty.k == "int":
            ty = a.ty
            return ("t", ty)
        if a.ty.k == b.ty.k:
            return ("t", a.ty)
        if {a.ty.k, b.ty.k} == {"int", "dbl"}:
            return ("t", DBL)
        if a.ty.k == "opt":
            return ("t", a.ty)
        if b.ty.k == "opt":
            return ("t", b.ty)
        if {a.ty.k, b.ty.k} == {"int", "bool"}:
            return ("t", a.ty if a.ty.k == "int" else b.ty)
    if isinstance(a, Obj) and isinstance(b, Obj) and a.name == b.name and not a.args and not b.args:
        return ("obj", a)
    if a is UNIT and b is UNIT:
        return ("t", VOID)
    return None


def shape_compat(s1, s2):
    if s1 == s2:
        return True
    if s1[0] != s2[0]:
        return False
    if s1[0] == "t":
        return s1[1].k == s2[1].k
    if s1[0] == "it":
        return same_seq(s1[1], s2[1])
    if s1[0] == "lv":
        a, b = s1[1], s2[1]
        return a.root == b.root and len(a.path) == len(b.path)
    return True


def flat(tr, v, sh, ty=None):
    if sh[0] == "t":
        if sh[1].k == "void":
            return []
        return [tr.term(tr.coerce(v, sh[1]))]
    if sh[0] == "it":
        return [idx_of(v)]
    if sh[0] == "lv":
        return [a[1] for a in v.path if a[0] == "i"]
    if sh[0] == "tup":
        return [x for s, y in zip(sh[1], v.vs) for x in flat(tr, y, s)]
    if sh[0] == "obj":
        return []
    raise Unsupported("shape")


def flat_types(v, sh, ty=None):
    if sh[0] == "t":
        return [] if sh[1].k == "void" else [wty(sh[1])]
    if sh[0] == "it":
        return ["int"]
    if sh[0] == "lv":
        return ["int" for a in sh[1].path if a[0] == "i"]
    if sh[0] == "tup":
        return [x for s, y in zip(sh[1], v.vs) for x in flat_types(y, s)]
    return []


def unflat(sh, parts):
    parts = list(parts)

    def go(s):
        if s[0] == "t":
            if s[1].k == "void":
                return UNIT
            return T(parts.pop(0), s[1])
        if s[0] == "it":
            return It(s[1], parts.pop(0), s[2])
        if s[0] == "lv":
            a = s[1]
            p = [x if x[0] != "i" else ("i", parts.pop(0), x[2]) for x in a.path]
            return L(a.root, p, a.ty, a.rty)
        if s[0] == "tup":
            return Tup([go(x) for x in s[1]])
        if s[0] == "obj":
            return s[1]
    return go(sh)


def tup_get(t, ty, j):
    n = len(ty.a)
    return "(let (%s) = %s in x')" % (", ".join("x'" if k == j else "_" for k in range(n)), t)


def if_parts(s):
    ii = [c for c in s.get("inner", []) if c]
    ini = []
    if s.get("hasInit"):
        ini.append(ii.pop(0))
    if s.get("hasVar"):
        ini.append(ii.pop(0))
    c, th = ii[0], ii[1]
    el = ii[2] if len(ii) > 2 else None
    return ini, c, th, el


def const_cond(s, c):
    """value of an `if constexpr` condition"""
    if not s.get("isConstexpr"):
        return None
    if c.get("kind") == "ConstantExpr" and "value" in c:
        return str(c["value"]) in ("true", "1", "True")
    x = strip(c)
    if x.get("kind") == "CXXBoolLiteralExpr":
        return x["value"] in (True, "true")
    if x.get("kind") == "ConstantExpr" and "value" in x:
        return str(x["value"]) in ("true", "1")
    return None


def is_unreachable(s):
    s = strip(s)
    if s.get("kind") == "CallExpr":
        nm = strip(inner(s)[0]).get("referencedDecl", {}).get("name")
        return nm in ("__builtin_unreachable",)
    return False


def me_arrow(n):
    try:
        return bool(strip(inner(n)[0]).get("isArrow"))
    except Exception:
        return False


def loc(n):
    r = n.get("range", {}).get("begin", {})
    for k in ("expansionLoc", "spellingLoc"):
        if k in r:
            r = r[k]
            break
    return "%s:%s" % (r.get("file", ""), r.get("line", ""))


def norm_t(s):
    s = s.replace("gapp::", "").replace("std::", "").replace(" ", "")
    return {"size_t": "unsignedlong"}.get(s, s)


def sfx_s(a, tr):
    t = tr.ty_str(a)
    try:
        return sfx(t) if t.k != "opaque" else san(t.a)
    except Unsupported:
        return san(a)

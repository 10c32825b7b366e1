from common import *
from translate import idx_of, It, VarIt, Unsupported, same_seq
import theory
PROP = "C16"
TU = drv("small_vector.cpp")
TARGETS = []
INT = Ty("int", True, 64)
BLK = Ty("seq", INT)
ALV = Ty("seq", Ty("bool"))
SV = "gapp::small_vector::"
D = "gapp::detail::"
# ---------------------------------------------------------------- the memory
# mem/alive: the block first_ points to (contents, which cells hold an object); heap: it was allocated and is owned; n: last_ - first_; cap: last_alloc_ - first_.
# While the block is allocated the inline buffer holds no objects. nmem/nalive: a block allocated by the function.
def lv(nm): return L(nm, [], BLK, BLK)
GP = ["(ref mem: seq_i)", "(ref alive: seq_b)", "(ref heap: bool)", "(ref n: int)", "(ref cap: int)"]
PRE = """
val constant cap_limit : int
axiom cap_limit: cap_limit = 1152921504606846975
val constant inl : int
axiom inl: 1 <= inl < 1073741824
predicate cells (al: seq_b) (a b: int) (v: bool) = 0 <= a <= b <= len_b al /\\ forall k. a <= k < b -> (get_b al k <-> v)
predicate owns (mem: seq_i) (alive: seq_b) (heap: bool) (n cap: int) =
  len_i mem = cap /\\ len_b alive = cap /\\ 0 <= n <= cap <= cap_limit /\\ (heap \\/ cap = inl) /\\ (forall k. 0 <= k < cap -> (get_b alive k <-> k < n))
predicate marked (al0 al: seq_b) (a b: int) (v: bool) = len_b al = len_b al0 /\\ forall k. 0 <= k < len_b al -> (get_b al k <-> (if a <= k < b then v else get_b al0 k))
predicate kept (m0 m: seq_i) (a b: int) = len_i m = len_i m0 /\\ forall k. 0 <= k < len_i m -> not (a <= k < b) -> get_i m k = get_i m0 k
predicate moved (s m: seq_i) (a b d: int) = forall k. d <= k < d + (b - a) -> get_i m k = get_i s (k - d + a)
val construct_one (ref m: seq_i) (ref al: seq_b) (a v: int) : unit
  requires { [@expl:constructed in a cell of the block that holds no object] 0 <= a < len_b al /\\ len_i m = len_b al /\\ not (get_b al a) }
  writes { m, al } ensures { kept (old m) m a (a + 1) /\\ get_i m a = v /\\ marked (old al) al a (a + 1) true }
val construct_fill (ref m: seq_i) (ref al: seq_b) (a b v: int) : unit
  requires { [@expl:constructed in cells of the block that hold no objects] len_i m = len_b al /\\ cells al a b false }
  writes { m, al } ensures { kept (old m) m a b /\\ (forall k. a <= k < b -> get_i m k = v) /\\ marked (old al) al a b true }
val construct_copy (ref m: seq_i) (ref al: seq_b) (a b: int) (s: seq_i) (c: int) : unit
  requires { [@expl:constructed in cells of the block that hold no objects] len_i m = len_b al /\\ cells al a b false }
  requires { [@expl:the source range is long enough] 0 <= c /\\ c + (b - a) <= len_i s }
  writes { m, al } ensures { kept (old m) m a b /\\ moved s m c (c + (b - a)) a /\\ marked (old al) al a b true }
val relocate_to (ref m: seq_i) (al: seq_b) (a b: int) (ref dm: seq_i) (ref dal: seq_b) (d: int) : unit
  requires { [@expl:moved objects are alive] len_i m = len_b al /\\ cells al a b true }
  requires { [@expl:constructed in cells of the block that hold no objects] len_i dm = len_b dal /\\ cells dal d (d + (b - a)) false }
  writes { m, dm, dal } ensures { kept (old m) m a b /\\ kept (old dm) dm d (d + (b - a)) /\\ moved (old m) dm a b d /\\ marked (old dal) dal d (d + (b - a)) true }
val relocate_in (ref m: seq_i) (ref al: seq_b) (a b d: int) : unit
  requires { [@expl:moved objects are alive] len_i m = len_b al /\\ cells al a b true }
  requires { [@expl:constructed in cells of the block that hold no objects] cells al d (d + (b - a)) false }
  writes { m, al } ensures { len_i m = len_i (old m) /\\ (forall k. 0 <= k < len_i m -> not (a <= k < b) -> not (d <= k < d + (b - a)) -> get_i m k = get_i (old m) k) /\\ moved (old m) m a b d /\\ marked (old al) al d (d + (b - a)) true }
val destroy_cells (ref al: seq_b) (a b: int) : unit
  requires { [@expl:destroyed objects are alive] cells al a b true }
  writes { al } ensures { marked (old al) al a b false }
val assign_fill (ref m: seq_i) (al: seq_b) (a b v: int) : unit
  requires { [@expl:assigned objects are alive] len_i m = len_b al /\\ cells al a b true }
  writes { m } ensures { kept (old m) m a b /\\ (forall k. a <= k < b -> get_i m k = v) }
val assign_copy (ref m: seq_i) (al: seq_b) (a b: int) (s: seq_i) (c: int) : unit
  requires { [@expl:assigned objects are alive] len_i m = len_b al /\\ cells al a b true }
  requires { [@expl:the source range is long enough] 0 <= c /\\ c + (b - a) <= len_i s }
  writes { m } ensures { kept (old m) m a b /\\ moved s m c (c + (b - a)) a }
val shift_right_cells (ref m: seq_i) (al: seq_b) (a b s: int) : unit
  requires { [@expl:shifted objects are alive] len_i m = len_b al /\\ cells al a b true /\\ 0 <= s }
  writes { m } ensures { kept (old m) m a b /\\ (forall k. a + s <= k < b -> get_i m k = get_i (old m) (k - s)) /\\ (s = 0 -> m = old m) }
val shift_left_cells (ref m: seq_i) (al: seq_b) (a b s: int) : int
  requires { [@expl:shifted objects are alive] len_i m = len_b al /\\ cells al a b true /\\ 0 <= s }
  writes { m } ensures { kept (old m) m a b /\\ (forall k. a <= k < b - s -> get_i m k = get_i (old m) (k + s)) /\\ (s = 0 -> m = old m) /\\ result = (if s < b - a then b - s else a) }
val move_back_cells (ref m: seq_i) (al: seq_b) (a b e: int) : unit
  requires { [@expl:moved and assigned objects are alive] len_i m = len_b al /\\ cells al a b true /\\ cells al (e - (b - a)) e true }
  requires { [@expl:the end of the destination is not inside the source] not (a < e <= b) \\/ a = b }
  writes { m } ensures { len_i m = len_i (old m) /\\ (forall k. 0 <= k < len_i m -> not (a <= k < b) -> not (e - (b - a) <= k < e) -> get_i m k = get_i (old m) k) /\\ moved (old m) m a b (e - (b - a)) }
"""
def raw(tr, txt, v=UNIT):
    tr.blk.effect = True
    tr.blk.add("raw", txt)
    return v
def allocate(tr, fn, o, vs, n):
    c = par(tr.term(vs[-1]))
    return raw(tr, "let ref nmem : seq_i = any seq_i in let ref nalive : seq_b = any seq_b in let ref pending : bool = true in assume { len_i nmem = %s /\\ len_b nalive = %s /\\ forall k. 0 <= k < %s -> not (get_b nalive k) }; assert { [@expl:not more elements than an allocation can have] 0 <= %s <= cap_limit };" % (c, c, c, c), Obj("block"))
def blkname(v):
    nm = v.seq.root if isinstance(v, (It, VarIt)) and isinstance(v.seq, L) and not v.seq.path else None
    if nm not in ("mem", "nmem"): raise Unsupported("pointer into another block")
    return nm
def ptr(tr, v):
    if isinstance(v, L) and v.root in ("mem", "nmem") and len(v.path) == 1 and v.path[0][0] == "i": return v.root, tr.let(v.path[0][1], "cell")
    return blkname(v), tr.let(idx_of(v), "cell")
def al(nm): return {"mem": "alive", "nmem": "nalive"}[nm]
ALIAS = "valias < 0 \\/ (not gone /\\ 0 <= valias < len_b alive /\\ get_b alive valias /\\ get_i mem valias = %s)"
def value(tr, v):
    if isinstance(v, Obj) and v.name == "managed": return v.valt
    if isinstance(v, L) and v.root in ("mem", "nmem") and len(v.path) == 1:
        tr.check("the object that is read is alive", "0 <= %s < len_b %s /\\ get_b %s %s" % (v.path[0][1], al(v.root), al(v.root), par(v.path[0][1])))
    t = tr.term(v)
    if t in ("value", "args"):
        tr.check("the given value is not used after the element it may refer to was moved, changed or destroyed", ALIAS % t)
    return par(t)
def deallocate(tr, fn, o, vs, n):
    b, i = ptr(tr, vs[1])
    if b != "mem": raise Unsupported("deallocation of another block")
    tr.check("the block is released once, with its size", "heap /\\ %s = 0 /\\ %s = len_i mem" % (i, tr.term(vs[2])))
    tr.check("no object is leaked", "forall k. 0 <= k < len_b alive -> not (get_b alive k)")
    return raw(tr, "heap <- false; mem <- any seq_i; alive <- any seq_b; assume { len_i mem = 0 /\\ len_b alive = 0 };")
def construct(tr, fn, o, vs, n):
    b, i = ptr(tr, vs[1])
    return raw(tr, "construct_one &%s &%s %s %s;" % (b, al(b), i, value(tr, vs[2]) if len(vs) > 2 else "0"))
def construct_range(tr, fn, o, vs, n):
    (b, i), (b2, j) = ptr(tr, vs[1]), ptr(tr, vs[2])
    if b != b2: raise Unsupported("range of two blocks")
    if len(vs) == 3: return raw(tr, "construct_fill &%s &%s %s %s 0;" % (b, al(b), i, j))
    if isinstance(vs[3], (It, VarIt)): return raw(tr, "construct_copy &%s &%s %s %s %s %s;" % (b, al(b), i, j, par(tr.term(vs[3].seq)), par(idx_of(vs[3]))))
    return raw(tr, "construct_fill &%s &%s %s %s %s;" % (b, al(b), i, j, value(tr, vs[3])))
def relocate(tr, fn, o, vs, n):
    (b, i), (b2, j), (d, k) = (ptr(tr, x) for x in vs[1:4])
    if b != b2: raise Unsupported("range of two blocks")
    if b == d: return raw(tr, "relocate_in &%s &%s %s %s %s;" % (b, al(b), i, j, k))
    return raw(tr, "relocate_to &%s %s %s %s &%s &%s %s;" % (b, al(b), i, j, d, al(d), k))
def destroy_range(tr, fn, o, vs, n):
    (b, i), (b2, j) = ptr(tr, vs[1]), ptr(tr, vs[2])
    if b != b2: raise Unsupported("range of two blocks")
    return raw(tr, "destroy_cells &%s %s %s;" % (al(b), i, j))
def destroy(tr, fn, o, vs, n):
    b, i = ptr(tr, vs[1])
    return raw(tr, "destroy_cells &%s %s (%s + 1);" % (al(b), i, i))
def assign_range(tr, fn, o, vs, n):
    (b, i), (b2, j) = ptr(tr, vs[0]), ptr(tr, vs[1])
    if b != b2: raise Unsupported("range of two blocks")
    if isinstance(vs[2], (It, VarIt)): return raw(tr, "assign_copy &%s %s %s %s %s %s;" % (b, al(b), i, j, par(tr.term(vs[2].seq)), par(idx_of(vs[2]))))
    return raw(tr, "assign_fill &%s %s %s %s %s;" % (b, al(b), i, j, value(tr, vs[2])))
def shift(which):
    def h(tr, vs, n):
        (b, i), (b2, j) = ptr(tr, vs[0]), ptr(tr, vs[1])
        s = par(tr.term(vs[2]))
        tr.models.use(tr, "std::shift_left, std::shift_right, std::move_backward on live objects; moved-from objects have any value")
        if which == "right": return raw(tr, "shift_right_cells &%s %s %s %s %s;" % (b, al(b), i, j, s), Obj("iterator"))
        r = tr.newname("sl")
        return raw(tr, "let %s = shift_left_cells &%s %s %s %s %s in" % (r, b, al(b), i, j, s), It(lv(b), r))
    return h
def move_backward(tr, vs, n):
    (b, i), (b2, j), (b3, e) = (ptr(tr, x) for x in vs[:3])
    if not b == b2 == b3: raise Unsupported("range of two blocks")
    return raw(tr, "move_back_cells &%s %s %s %s %s;" % (b, al(b), i, j, e), Obj("iterator"))
def adopt(tr, last, cap):
    tr.check("the old block is released and its objects are destroyed", "not heap /\\ forall k. 0 <= k < len_b alive -> not (get_b alive k)")
    tr.check("the new block is adopted once", "pending")
    return raw(tr, "mem <- nmem; alive <- nalive; heap <- true; gone <- true; pending <- false; n <- %s; cap <- %s;" % (last, cap))
def set_storage(tr, fn, o, vs, n):
    b, i = ptr(tr, vs[0])
    if b != "nmem": raise Unsupported("storage that was not just allocated")
    tr.check("the pointer is the start of the block", "%s = 0" % i)
    ts = [tr.let(idx_of(v), "p") if isinstance(v, (It, VarIt)) else tr.let(tr.term(v), "p") for v in vs[1:]]
    return adopt(tr, ts[0], ts[1])
def set_buffer_storage(tr, fn, o, vs, n):
    s = tr.let(tr.term(vs[0]), "p")
    tr.check("the old block is released and its objects are destroyed", "not heap /\\ forall k. 0 <= k < len_b alive -> not (get_b alive k)")
    return raw(tr, "mem <- any seq_i; alive <- any seq_b; gone <- true; assume { len_i mem = inl /\\ len_b alive = inl /\\ forall k. 0 <= k < inl -> not (get_b alive k) }; n <- %s; cap <- inl;" % s)
class First(It):
    def __init__(self): super().__init__(lv("mem"), "0")
    def assign_hook(self, tr, v):
        b, i = ptr(tr, v)
        if b != "nmem": raise Unsupported("first_ bound to something that was not just allocated")
        tr.check("the pointer is the start of the block", "%s = 0" % i)
        adopt(tr, "0", "0")
class Cur(VarIt):
    def __init__(self, r): super().__init__(lv("mem"), r); self.r = r
    def assign_hook(self, tr, v):
        b = blkname(v)
        if b == "nmem": tr.check("the pointer points into the block of the vector", "not pending")
        raw(tr, "%s <- %s;" % (self.r, idx_of(v)))
        tr.write(self.r, (), "whole")
def guard(tr, vs):
    # the destructor of a guard undoes the work unless it was released: armed_k says that it was not
    k = tr.c16_guards = getattr(tr, "c16_guards", 0) + 1
    if k > 4: raise Unsupported("more than 4 guards")
    raw(tr, "armed_%d <- true;" % k)
    o = Obj("guard"); o.ref = "armed_%d" % k
    return o
def managed(tr, vs):
    o = Obj("managed"); o.valt = tr.let(value(tr, vs[1]), "elem")
    return o
def addressof(tr, vs, n):
    if isinstance(vs[0], L) and vs[0].root in ("mem", "nmem") and len(vs[0].path) == 1: return It(lv(vs[0].root), vs[0].path[0][1])
    return vs[0]
def minimum(tr, vs, n):
    if isinstance(vs[0], (It, VarIt)):
        (b, i), (b2, j) = ptr(tr, vs[0]), ptr(tr, vs[1])
        if b != b2: raise Unsupported("range of two blocks")
        return It(lv(b), "(if %s < %s then %s else %s)" % (j, i, j, i))
    return tr.models.std_min(tr, vs, n)
def unmanage(tr, a, vs): return T(a.valt, INT)
GP = GP + ["(ref gone: bool)", "(valias: int)"]
GREFS = ["mem", "alive", "heap", "n", "cap", "gone"]
OINV = ("one object in each of the first size() cells and none elsewhere; the block is owned", "owns mem alive heap n cap")
GONE = ("a value given by reference lies in the current block or outside of the vector", "not gone")
VAL = lambda v: ("the given value may be an element of the vector", "valias < 0 \\/ (0 <= valias < n /\\ get_i mem valias = %s)" % v)
SAME = ("nothing changes", "mem = old mem /\\ alive = old alive /\\ heap = old heap /\\ n = old n /\\ cap = old cap /\\ gone = old gone")
G_ = lambda k: "get_i mem (%s)" % k
O_ = lambda k: "get_i (old mem) (%s)" % k
PREFIX = lambda hi: "(forall k. 0 <= k < %s -> get_i mem k = get_i (old mem) k)" % hi
def call_of(spec):
    """a caller sees the contract of the target only"""
    args, ret = spec["cargs"], spec.get("cret", "unit")
    def h(tr, fn, o, vs, n):
        decl, call = [], []
        va = None
        d = tr.ast.definition_of(fn)
        vs = list(vs) + [tr.expr([c for c in p.get("inner", []) if c.get("kind", "").endswith(("Expr", "Literal", "Operator"))][0]) for p in d.params[len(vs):]]
        for (nm, kind), v in zip(args, vs):
            if kind == "int": decl.append("(%s_0: int)" % nm); call.append(par(tr.term(v)))
            elif kind == "pos":
                b, i = ptr(tr, v)
                if b != "mem": raise Unsupported("position in another block")
                decl.append("(%s_0: int)" % nm); call.append(i)
            elif kind == "src":
                if "(rng: seq_i)" not in decl: decl.append("(rng: seq_i)"); call.append(par(tr.term(v.seq)))
                decl.append("(%s_0: int)" % nm); call.append(par(idx_of(v)))
            elif kind == "value":
                own = tr.term(v) in ("value", "args") if not (isinstance(v, Obj) and v.name == "managed") else False
                decl.append("(%s: int)" % nm); call.append(value(tr, v)); va = "valias" if own else "(-1)"
        decl.append("(valias: int)"); call.append(va or "(-1)")
        txt = "val %s_contract %s %s : %s\n" % (spec["name"], " ".join(decl), " ".join("(ref %s: %s)" % (g, t) for g, t in zip(GREFS, ["seq_i", "seq_b", "bool", "int", "int", "bool"])), {"iter": "int"}.get(ret, ret))
        for l, f in spec["requires"]: txt += "  requires { [@expl:precondition of %s: %s] %s }\n" % (spec["name"], l, f)
        txt += "  writes { %s }\n" % ", ".join(GREFS)
        for l, f in spec["ensures"]: txt += "  ensures { %s }\n" % f
        tr.vals[spec["name"] + "_contract"] = txt
        tr.used_models.add("contract of %s (checked as target %s)" % (fn.qname, spec["name"]))
        r = tr.newname("r")
        raw(tr, "let %s = %s_contract %s %s in" % (r, spec["name"], " ".join(call), " ".join("&" + g for g in GREFS)))
        return It(lv("mem"), r) if ret == "iter" else T(r, SZ) if ret == "int" else UNIT
    return h
def unchecked(tr, fn, o, vs, n):
    i = tr.let("n", "at")
    raw(tr, "construct_one &mem &alive %s %s; n <- n + 1;" % (i, value(tr, vs[0])))
    return L("mem", [("i", i, INT)], INT, BLK)
CON = {D + "allocate": allocate, D + "deallocate": deallocate, D + "construct": construct, D + "construct_range": construct_range, D + "relocate_range_strong": relocate, D + "relocate_range_weak": relocate,
       D + "destroy_range": destroy_range, D + "destroy": destroy, D + "assign_range": assign_range, SV + "set_storage": set_storage, SV + "set_buffer_storage": set_buffer_storage,
       SV + "is_small": lambda tr, fn, o, vs, n: T("(not heap)", BOOL), SV + "data": lambda tr, fn, o, vs, n: First(), SV + "inline_capacity": lambda tr, fn, o, vs, n: T("inl", SZ),
       SV + "max_size": lambda tr, fn, o, vs, n: T("cap_limit", SZ)}
SEL = lambda f: "small_vectorIlLm4E" in f.mangled
POS = {"pos": lambda tr: (["(pos_0: int)"], It(lv("mem"), "pos_0")), "first": lambda tr: (["(first_0: int)"], It(lv("mem"), "first_0")), "last": lambda tr: (["(last_0: int)"], It(lv("mem"), "last_0"))}
VALS = {k: (lambda k: lambda tr: (["(%s: int)" % k], T(k, INT)))(k) for k in ("value", "args")}
SRC = {"src_first": ("rng", False), "src_last": ("rng", False)}
FWD = ("emplace_back_unchecked", "emplace_back", "emplace", "reallocate_append", "reallocate_emplace")
def t(name, m, sel=lambda f: True, req=(), inv=True, con=(), pick="", **kw):
    if m in FWD and not pick:
        first = t(name, m, sel, req, inv, con, "long &)", **kw)
        t(name + "_rvalue", m, sel, req, inv, con, "long &&)", **{k: v for k, v in kw.items() if k != "cargs"})
        return first
    c = dict(CON)
    for s in con: c[SV + s["m"]] = dispatch(s["m"])
    TARGETS.append(dict(dict(name=name, m=m, this_obj="vector", sel=sel, tu=TU, qname=SV + m, match=lambda f: SEL(f) and sel(f) and (not pick or ("long &&)" in f.type) == (pick == "long &&)")), prelude=PRE, contracts=c,
                             obj_members={"first_": lambda tr, v: First(), "last_": lambda tr, v: Cur("n"), "last_alloc_": lambda tr, v: Cur("cap"), "alloc_": lambda tr, v: Obj("allocator"),
                                          "data": lambda tr, v: It(lv("nmem"), "0") if isinstance(v, Obj) and v.name == "block" else None, "size": lambda tr, v: T("(len_i nmem)", SZ) if isinstance(v, Obj) and v.name == "block" else None},
                             obj_methods={"operator bool": lambda tr, o, vs: T("true", BOOL), "release": lambda tr, o, vs: raw(tr, "%s <- false;" % o.ref)}, guards={"scope_exit": (guard, None), "allocator_managed": (managed, None)},
                             obj_operators={"*": unmanage}, std={"min": minimum, "shift_left": shift("left"), "shift_right": shift("right"), "move_backward": move_backward, "addressof": addressof},
                             ghost={"entry": "let ref armed_1 = false in let ref armed_2 = false in let ref armed_3 = false in let ref armed_4 = false in", "exit": "assert { [@expl:every guard is released, so the work is not undone] not armed_1 /\\ not armed_2 /\\ not armed_3 /\\ not armed_4 };"},
                             ghost_params=GP, aliases={"reference": "long &", "const_reference": "const long &", "value_type": "long", "size_type": "unsigned long", "difference_type": "long"}, types={"iterator": Ty("iter", INT), "const_iterator": Ty("iter", INT), "pointer": Ty("iter", INT)},
                             use_types=[BLK, ALV], param_values=dict(POS, **VALS), iter_params=SRC, requires=([OINV, GONE] if inv else []) + list(req)), **kw))
    return TARGETS[-1]
def dispatch(m):
    def h(tr, fn, o, vs, n):
        for s in TARGETS:
            if s.get("m") == m and s.get("cargs") is not None and s["sel"](fn): return call_of(s)(tr, fn, o, vs, n)
        raise Unsupported("no contract for this overload of " + m)
    return h
GROW = lambda g: ("no more elements than an allocation can have", "cap + %s <= cap_limit" % g)
NC = t("next_capacity", "next_capacity", params=["min_growth"], req=[GROW("min_growth_0")], cargs=[("min_growth", "int")], cret="int", ensures=[("room for the new elements", "cap + min_growth_0 <= result <= cap_limit"), SAME])
CAP = ("at least the requested capacity, not less than before", "cap >= new_capacity_0 /\\ heap")
RN = t("reallocate_n", "reallocate_n", params=["new_capacity"], req=[("room for the elements", "n <= new_capacity_0 <= cap_limit")], cargs=[("new_capacity", "int")],
       ensures=[OINV, ("the elements are kept", "n = old n /\\ " + PREFIX("n")), ("the capacity", "cap = new_capacity_0")])
RA = t("reallocate_append", "reallocate_append", params=["new_capacity", "args"], req=[("room for one more", "n < new_capacity_0 <= cap_limit"), VAL("args")], cargs=[("new_capacity", "int"), ("args", "value")], cret="iter",
       ensures=[OINV, ("the elements are kept, the new one is the last", "n = old n + 1 /\\ %s /\\ %s = args /\\ result = old n" % (PREFIX("old n"), G_("old n")))])
def inserted(cnt, at, val, p="pos_0"):
    return [("the elements before the position are kept", PREFIX(p)), ("the new elements", "forall k. %s <= k < %s + (%s) -> get_i mem k = %s" % (p, p, cnt, val)), ("the elements after the position follow", "n = old n + (%s) /\\ forall k. %s + (%s) <= k < n -> get_i mem k = get_i (old mem) (k - (%s))" % (cnt, p, cnt, cnt)), ("the position of the first new element is returned", "result = " + p)]
POSN = ("a valid position", "0 <= pos_0 <= n")
RNG = ("a range", "0 <= src_first_0 <= src_last_0 <= len_i rng < size_limit")
RC = "src_last_0 - src_first_0"
RVAL = "get_i rng (src_first_0 + (k - pos_0))"
RE = t("reallocate_emplace", "reallocate_emplace", params=["new_capacity", "pos", "args"], req=[POSN, ("room for one more", "n < new_capacity_0 <= cap_limit"), VAL("args")], cargs=[("new_capacity", "int"), ("pos", "pos"), ("args", "value")], cret="iter", ensures=[OINV] + inserted("1", "pos_0", "args"))
isval = lambda f: "long" in f.params[-1].get("type", {}).get("qualType", "") and "&" in f.params[-1].get("type", {}).get("qualType", "")
RIV = t("reallocate_insert_value", "reallocate_insert", isval, params=["new_capacity", "pos", "count", "value"], req=[POSN, ("room for the new elements", "n + count_0 <= new_capacity_0 <= cap_limit"), VAL("value")], cargs=[("new_capacity", "int"), ("pos", "pos"), ("count", "int"), ("value", "value")], cret="iter", ensures=[OINV] + inserted("count_0", "pos_0", "value"))
RIR = t("reallocate_insert_range", "reallocate_insert", lambda f: not isval(f), params=["new_capacity", "pos", "src_first", "src_last"], req=[POSN, RNG, ("room for the new elements", "n + (%s) <= new_capacity_0 <= cap_limit" % RC)], cargs=[("new_capacity", "int"), ("pos", "pos"), ("src_first", "src"), ("src_last", "src")], cret="iter", ensures=[OINV] + inserted(RC, "pos_0", RVAL))
RS = t("reserve", "reserve", params=["new_capacity"], con=[NC, RN], req=[("not more elements than an allocation can have", "new_capacity_0 <= cap_limit")], cargs=[("new_capacity", "int")], ensures=[OINV, ("the elements are kept", "n = old n /\\ " + PREFIX("n")), ("the capacity", "cap >= new_capacity_0 /\\ cap >= old cap"), ("nothing changes if there was room", "new_capacity_0 <= old cap -> mem = old mem /\\ alive = old alive /\\ heap = old heap /\\ cap = old cap /\\ gone = old gone")])
t("shrink_to_fit", "shrink_to_fit", con=[RN], ensures=[OINV, ("the elements are kept", "n = old n /\\ " + PREFIX("n"))])
t("clear", "clear", ensures=[OINV, ("empty, in the same block", "n = 0 /\\ cap = old cap /\\ heap = old heap")])
t("reset", "reset", ensures=[OINV, ("empty, without an allocated block", "n = 0 /\\ not heap /\\ cap = inl")])
t("deallocate", "deallocate", inv=False, req=[("the objects are destroyed", "len_i mem = cap /\\ len_b alive = cap /\\ forall k. 0 <= k < cap -> not (get_b alive k)"), ("bounds", "0 <= cap <= cap_limit")], ensures=[("no block is owned", "not heap")])
t("emplace_back_unchecked", "emplace_back_unchecked", params=["args"], ret_type="long", req=[("there is room", "n < cap"), VAL("args")], ensures=[OINV, ("the elements are kept, the new one is the last", "n = old n + 1 /\\ %s /\\ %s = args /\\ result = args" % (PREFIX("old n"), G_("old n"))), ("in the same block", "cap = old cap /\\ heap = old heap")])
EB = t("emplace_back", "emplace_back", params=["args"], ret_type="long", con=[NC, RA], req=[GROW("1"), VAL("args")], cargs=[("args", "value")], cret="int", ensures=[OINV, ("the elements are kept, the new one is the last", "n = old n + 1 /\\ %s /\\ %s = args /\\ result = args" % (PREFIX("old n"), G_("old n")))])
t("push_back", "push_back", lambda f: "const long &" in f.type, params=["value"], con=[EB], req=[GROW("1"), VAL("value")], ensures=[OINV, ("the elements are kept, the new one is the last", "n = old n + 1 /\\ %s /\\ %s = value" % (PREFIX("old n"), G_("old n")))])
t("push_back_move", "push_back", lambda f: "long &&" in f.type, params=["value"], con=[EB], req=[GROW("1"), VAL("value")], ensures=[OINV, ("the elements are kept, the new one is the last", "n = old n + 1 /\\ %s /\\ %s = value" % (PREFIX("old n"), G_("old n")))])
t("pop_back", "pop_back", req=[("not empty", "n > 0")], ensures=[OINV, ("the last element is gone", "n = old n - 1 /\\ mem = old mem /\\ cap = old cap /\\ heap = old heap")])
RZ = lambda v: [OINV, ("the first elements are kept, new ones have the value", "n = count_0 /\\ (forall k. 0 <= k < n -> get_i mem k = (if k < old n then get_i (old mem) k else %s))" % v)]
LIM = ("not more elements than an allocation can have", "count_0 <= cap_limit")
RI0 = t("resize_impl", "resize_impl", lambda f: len(f.params) == 1, params=["count"], con=[RS], req=[LIM], cargs=[("count", "int")], ensures=RZ("0"))
RI1 = t("resize_impl_value", "resize_impl", lambda f: len(f.params) == 2, params=["count", "args"], con=[RS], req=[LIM, VAL("args"), ("a value in the vector needs enough room", "valias < 0 \\/ count_0 <= cap")], cargs=[("count", "int"), ("args", "value")], ensures=RZ("args"))
t("resize", "resize", lambda f: len(f.params) == 1, params=["count"], con=[RI0], req=[LIM], ensures=RZ("0"))
t("resize_value", "resize", lambda f: len(f.params) == 2, params=["count", "value"], con=[RI1], req=[LIM, VAL("value")], ensures=RZ("value"))
EM = t("emplace", "emplace", params=["pos", "args"], con=[NC, RE], req=[POSN, GROW("1"), VAL("args")], cargs=[("pos", "pos"), ("args", "value")], cret="iter", ensures=[OINV] + inserted("1", "pos_0", "args"))
t("insert_one", "insert", lambda f: len(f.params) == 2 and "const long &" in f.type, params=["pos", "value"], con=[EM], req=[POSN, GROW("1"), VAL("value")], ensures=[OINV] + inserted("1", "pos_0", "value"))
t("insert_one_move", "insert", lambda f: len(f.params) == 2 and "long &&" in f.type, params=["pos", "value"], con=[EM], req=[POSN, GROW("1"), VAL("value")], ensures=[OINV] + inserted("1", "pos_0", "value"))
t("insert_value", "insert", lambda f: len(f.params) == 3 and isval(f), params=["pos", "count", "value"], con=[NC, RIV], req=[POSN, ("no more elements than an allocation can have", "count_0 <= cap_limit /\\ cap + count_0 <= cap_limit"), VAL("value")], ensures=[OINV] + inserted("count_0", "pos_0", "value"))
t("insert_range", "insert", lambda f: len(f.params) == 3 and not isval(f) and "initializer" not in f.type, params=["pos", "src_first", "src_last"], con=[NC, RIR], req=[POSN, RNG, GROW("(%s)" % RC)], ensures=[OINV] + inserted(RC, "pos_0", RVAL))
erased = lambda a, b: [OINV, ("the elements before are kept", PREFIX(a)), ("the elements after the erased ones follow", "n = old n - (%s - %s) /\\ forall k. %s <= k < n -> get_i mem k = get_i (old mem) (k + (%s - %s))" % (b, a, a, b, a)), ("the position after the erased elements is returned", "result = " + a), ("in the same block", "cap = old cap /\\ heap = old heap")]
ER = t("erase_range", "erase", lambda f: len(f.params) == 2, params=["first", "last"], req=[("a range of the vector", "0 <= first_0 <= last_0 <= n")], cargs=[("first", "pos"), ("last", "pos")], cret="iter", ensures=erased("first_0", "last_0"))
t("erase", "erase", lambda f: len(f.params) == 1, params=["pos"], con=[ER], req=[("a position of an element", "0 <= pos_0 < n")], ensures=erased("pos_0", "(pos_0 + 1)"))
t("assign_value", "assign", isval, params=["count", "value"], con=[NC], req=[("no more elements than an allocation can have", "cap + count_0 <= cap_limit"), VAL("value")], ensures=[OINV, ("count copies of the value", "n = count_0 /\\ forall k. 0 <= k < n -> get_i mem k = value")])
for w, nm in (("__normal_iterator", ""), ("(const long *", "_pointer")):
    t("assign_range" + nm, "assign", (lambda w: lambda f: not isval(f) and "initializer" not in f.type and w in f.type)(w), params=["src_first", "src_last"], con=[NC], req=[RNG, GROW("(%s)" % RC)], ensures=[OINV, ("the elements of the range", "n = %s /\\ forall k. 0 <= k < n -> get_i mem k = get_i rng (src_first_0 + k)" % RC)])
NE = ("not empty", "n > 0")
VP = ("a valid position", "pos_0 < n")
del POS["pos"]
acc = lambda name, m, res, req, **kw: t(name, m, lambda f: ") const" in f.type, req=req, ensures=[("the element", "result = " + res), SAME], **kw)
acc("index", "operator[]", G_("pos_0"), [VP], params=["pos"])
acc("at_", "at", G_("pos_0"), [VP], params=["pos"])
acc("front", "front", G_("0"), [NE])
acc("back", "back", G_("n - 1"), [NE])
acc("size", "size", "n", [])
acc("capacity", "capacity", "cap", [])
t("empty", "empty", ensures=[("whether there are no elements", "result <-> n = 0"), SAME])
# constructors: the pointers are null, no block is owned
START = "mem <- any seq_i; alive <- any seq_b; heap <- false; n <- 0; cap <- 0; gone <- true; assume { len_i mem = 0 /\\ len_b alive = 0 };"
NEW = ("no block yet", "not heap /\\ len_i mem = 0 /\\ len_b alive = 0")
AN = t("allocate_n", "allocate_n", params=["count"], inv=False, req=[NEW, LIM], cargs=[("count", "int")], ensures=[OINV, ("empty, with room for the elements", "n = 0 /\\ cap >= count_0")])
def ctor(name, sel, ens, **kw):
    t(name, "small_vector", sel, con=[AN], inv=False, plain_inits=("alloc_", "buffer_"), ensures=[OINV, ens], **kw)
    TARGETS[-1]["ghost"] = dict(TARGETS[-1]["ghost"], entry=START + TARGETS[-1]["ghost"]["entry"])
EXT = ("the value is not an element of the new vector", "valias < 0")
ptype = lambda f, i: f.params[i].get("type", {}).get("qualType", "") if i < len(f.params) else ""
ctor("construct_count", lambda f: len(f.params) == 2 and ptype(f, 0) == "size_type", ("value-initialised elements", "n = count_0 /\\ forall k. 0 <= k < n -> get_i mem k = 0"), params=["count", "allocator"], req=[LIM])
ctor("construct_values", lambda f: len(f.params) == 3 and ptype(f, 0) == "size_type", ("copies of the value", "n = count_0 /\\ forall k. 0 <= k < n -> get_i mem k = value"), params=["count", "value", "allocator"], req=[LIM, EXT])
ctor("construct_from_range", lambda f: len(f.params) == 3 and "iterator" in ptype(f, 0), ("the elements of the range", "n = %s /\\ forall k. 0 <= k < n -> get_i mem k = get_i rng (src_first_0 + k)" % RC), params=["src_first", "src_last", "allocator"], req=[RNG])
ctor("construct_from_pointer", lambda f: len(f.params) == 3 and ptype(f, 0) == "const long *", ("the elements of the range", "n = %s /\\ forall k. 0 <= k < n -> get_i mem k = get_i rng (src_first_0 + k)" % RC), params=["src_first", "src_last", "allocator"], req=[RNG])
t("destructor", "~small_vector", ensures=[("every object is destroyed and no block is owned", "not heap /\\ forall k. 0 <= k < len_b alive -> not (get_b alive k)")])
# ---------------------------------------------------------------- the functions on ranges of elements, for a type with its own constructors and destructor
def vp(nm, block="mem"):
    def h(tr):
        tr.blk.add("ref", nm, nm + "_0", SZ)
        tr.roots[nm] = SZ
        return ["(%s_0: int)" % nm], VarIt(lv(block) if block != "rng" else T("rng", BLK), nm)
    return h
HGP = ["(ref mem: seq_i)", "(ref alive: seq_b)", "(ref nmem: seq_i)", "(ref nalive: seq_b)", "(rng: seq_i)"]
def hp(name, m, sel, b="mem", **kw):
    e = SPECS[m]
    TARGETS.append(dict(dict(name=name, tu=TU, qname=D + m, match=lambda f: "4Elem" in f.mangled and sel(f), prelude=PRE, contracts={D + "construct": construct, D + "destroy": destroy}, guards={"scope_exit": (guard, None)}, obj_methods={"release": lambda tr, o, vs: raw(tr, "%s <- false;" % o.ref)},
                             ghost={"entry": "let ref armed_1 = false in", "exit": "assert { [@expl:every guard is released, so the work is not undone] not armed_1 };"},
                             param_values={"first": vp("first"), "last": vp("last"), "dest": vp("dest", b), "val_": lambda tr: (["(val_: int)"], T("val_", INT)), "src_first": vp("src_first", "rng")},
                             ghost_params=HGP, use_types=[BLK, ALV], requires=[("blocks", "len_i mem = len_b alive /\\ len_i nmem = len_b nalive")] + e[0], ensures=e[1]), **kw))
FREE = ("the cells hold no objects", "cells alive first_0 last_0 false")
LIVE = ("the objects are alive", "cells alive first_0 last_0 true")
MK = lambda hi, v="true", lo="first_0": ("the cells so far", "marked (old alive) alive %s %s %s" % (lo, hi, v))
ONLY = lambda hi: ("only these cells are changed", "kept (old mem) mem first_0 %s /\\ nmem = old nmem /\\ nalive = old nalive" % hi)
FILL = lambda hi, v: ("the values", "forall k. first_0 <= k < %s -> get_i mem k = %s" % (hi, v))
CPY = lambda hi: ("the values", "moved rng mem src_first_0 (src_first_0 + (%s - first_0)) first_0" % hi)
SPECS = {"construct_range": ([FREE], [MK("last_0"), ONLY("last_0")]), "destroy_range": ([LIVE], [MK("last_0", "false"), ("the contents of the other cells are unchanged", "mem = old mem /\\ nmem = old nmem /\\ nalive = old nalive")])}
BND = ("within the range", "first_0 <= next <= last_0 /\\ first = first_0 /\\ last = last_0")
LP = lambda *inv: {1: dict(inv=[MK("next"), ONLY("next"), BND] + list(inv), variant="last - next")}
hp("construct_range_default", "construct_range", lambda f: len(f.params) == 3, loops=LP())
hp("construct_range_value", "construct_range", lambda f: len(f.params) == 4 and "iterator" not in f.params[3].get("type", {}).get("qualType", "") + f.params[3].get("type", {}).get("desugaredQualType", ""), loops=LP(FILL("next", "val_")))
TARGETS[-1]["ensures"] = TARGETS[-1]["ensures"] + [FILL("last_0", "val_")]
hp("construct_range_copy", "construct_range", lambda f: len(f.params) == 4 and "iterator" in f.params[3].get("type", {}).get("qualType", "") + f.params[3].get("type", {}).get("desugaredQualType", ""), loops=LP(CPY("next"), ("the position in the source", "src_first - src_first_0 = next - first_0")))
TARGETS[-1]["ensures"] = TARGETS[-1]["ensures"] + [CPY("last_0")]
TARGETS[-1]["requires"] = TARGETS[-1]["requires"] + [("the source range is long enough", "0 <= src_first_0 /\\ src_first_0 + (last_0 - first_0) <= len_i rng")]
hp("destroy_range", "destroy_range", lambda f: True, loops={1: dict(inv=[MK("first", "false"), ("within the range", "first_0 <= first <= last_0 /\\ last = last_0"), ("nothing else changes", "mem = old mem /\\ nmem = old nmem /\\ nalive = old nalive")], variant="last - first")})
for w in ("strong", "weak"):
    m = "relocate_range_" + w
    OUT = [("dest", "kept (old nmem) nmem dest_0 (dest_0 + (%s - first_0)) /\\ moved mem nmem first_0 %s dest_0 /\\ marked (old nalive) nalive dest_0 (dest_0 + (%s - first_0)) true"), ("the source", "mem = old mem /\\ alive = old alive")]
    SPECS[m] = ([LIVE, ("the cells hold no objects", "cells nalive dest_0 (dest_0 + (last_0 - first_0)) false")], [(a, f % (("last_0",) * f.count("%s")) if "%s" in f else f) for a, f in OUT])
    POSI = ("the position in the destination", "next - dest_0 = first - first_0 /\\ first_0 <= first <= last_0 /\\ last = last_0 /\\ dest = dest_0")
    hp(m, m, lambda f: True, "nmem", loops={1: dict(inv=[(a, f % (("first",) * f.count("%s")) if "%s" in f else f) for a, f in OUT] + [POSI], variant="last - first")})
    IN = "len_i mem = len_i (old mem) /\\ kept (old mem) mem dest_0 (dest_0 + (%s - first_0)) /\\ moved (old mem) mem first_0 %s dest_0 /\\ marked (old alive) alive dest_0 (dest_0 + (%s - first_0)) true"
    SPECS[m] = ([LIVE, ("the cells hold no objects", "cells alive dest_0 (dest_0 + (last_0 - first_0)) false")], [("the values are moved to the destination", IN % (("last_0",) * 3))])
    hp(m + "_same_block", m, lambda f: True, "mem", loops={1: dict(inv=[("the values so far", IN % (("first",) * 3)), POSI], variant="last - first")})
# ---------------------------------------------------------------- operations on two vectors: blocks 0 and 1 are the inline buffers of this and other, the blocks from 2 on are on the heap
PRE2 = """
type memory
val function cv (m: memory) (b i: int) : int
predicate alv memory int int
val function bl (b: int) : int
val constant inl : int
axiom inl: 1 <= inl < 1073741824 /\\ bl 0 = inl /\\ bl 1 = inl
type objs
val function og (m: objs) (o: int) : int
val function oset (m: objs) (o v: int) : objs
axiom oset: forall m o v p. og (oset m o v) p = (if o = p then v else og m p)
predicate cells2 (m: memory) (b i j: int) (v: bool) = 0 <= i <= j <= bl b /\\ forall k. i <= k < j -> (alv m b k <-> v)
predicate vec (m: memory) (fb fi lb li eb ei: objs) (o: int) = let b = og fb o in
  og lb o = b /\\ og eb o = b /\\ og fi o = 0 /\\ 0 <= og li o <= og ei o /\\ og ei o = bl b < 1152921504606846976 /\\ (b = o \\/ b >= 2) /\\ (forall k. 0 <= k < bl b -> (alv m b k <-> k < og li o)) /\\ (b <> o -> forall k. 0 <= k < inl -> not (alv m o k))
predicate holds (m: memory) (fb li: objs) (o: int) (m0: memory) (fb0 li0: objs) (p: int) = og li o = og li0 p /\\ forall k. 0 <= k < og li o -> cv m (og fb o) k = cv m0 (og fb0 p) k
val relocate2 (ref m: memory) (a i j b k: int) : unit
  requires { [@expl:moved objects are alive] cells2 m a i j true }
  requires { [@expl:constructed in cells of the block that hold no objects] cells2 m b k (k + (j - i)) false }
  writes { m }
  ensures { forall c x. alv m c x <-> (alv (old m) c x \\/ (c = b /\\ k <= x < k + (j - i))) }
  ensures { forall c x. not (c = a /\\ i <= x < j) -> not (c = b /\\ k <= x < k + (j - i)) -> cv m c x = cv (old m) c x }
  ensures { forall x. k <= x < k + (j - i) -> cv m b x = cv (old m) a (x - k + i) }
val destroy2 (ref m: memory) (a i j: int) : unit
  requires { [@expl:destroyed objects are alive] cells2 m a i j true }
  writes { m }
  ensures { forall c x. alv m c x <-> (alv (old m) c x /\\ not (c = a /\\ i <= x < j)) }
  ensures { forall c x. cv m c x = cv (old m) c x }
val swap_ranges2 (ref m: memory) (a i j b k: int) : unit
  requires { [@expl:swapped objects are alive and distinct] cells2 m a i j true /\\ cells2 m b k (k + (j - i)) true /\\ a <> b }
  writes { m }
  ensures { forall c x. alv m c x <-> alv (old m) c x }
  ensures { forall c x. not (c = a /\\ i <= x < j) -> not (c = b /\\ k <= x < k + (j - i)) -> cv m c x = cv (old m) c x }
  ensures { (forall x. k <= x < k + (j - i) -> cv m b x = cv (old m) a (x - k + i)) /\\ forall x. i <= x < j -> cv m a x = cv (old m) b (x - i + k) }
"""
class Ptr(Obj):
    def __init__(self, b, i):
        super().__init__("ptr"); self.b, self.i = b, i
class MovePtr(Ptr): pass
class PRef(Ptr):
    def __init__(self, o, w):
        super().__init__("(og %sb %s)" % (w, o), "(og %si %s)" % (w, o)); self.o, self.w = o, w
    def assign_hook(self, tr, v):
        b, i = pt(tr, v)
        raw(tr, "%sb <- oset %sb %s %s; %si <- oset %si %s %s;" % (self.w, self.w, self.o, b, self.w, self.w, self.o, i))
def pt(tr, v):
    if not isinstance(v, Ptr): raise Unsupported("not a pointer")
    return tr.let(v.b, "blk"), tr.let(v.i, "cell")
def oid(v): return getattr(v, "oid", "0")
def mem2(w): return lambda tr, v: PRef(oid(v), w) if isinstance(v, Obj) and v.name == "vector" else None
def buf(tr, v):
    o = Obj("buffer"); o.oid = oid(v)
    return o
def plus(tr, a, b):
    if isinstance(a, Ptr):
        bl, i = pt(tr, a)
        return Ptr(bl, "(%s + %s)" % (i, tr.term(b)))
    raise Unsupported("addition")
def minus(tr, a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        (x, i), (y, j) = pt(tr, a), pt(tr, b)
        tr.check("the subtracted pointers point into one block", "%s = %s" % (x, y))
        return T("(%s - %s)" % (i, j), INT)
    raise Unsupported("subtraction")
def equal2(neg):
    def h(tr, a, b):
        if isinstance(a, Ptr):
            (x, i), (y, j) = pt(tr, a), pt(tr, b)
            return T(("not " if neg else "") + "(%s = %s && %s = %s)" % (x, y, i, j), BOOL)
        return T(("not " if neg else "") + "(%s = %s)" % (oid(a), oid(b)), BOOL)
    return h
def swap2(tr, vs, n):
    if not isinstance(vs[0], PRef): 
        if isinstance(vs[0], Obj) and vs[0].name == "allocator": return UNIT
        raise Unsupported("swap")
    a, b = Ptr(*pt(tr, vs[0])), Ptr(*pt(tr, vs[1]))
    vs[0].assign_hook(tr, b); vs[1].assign_hook(tr, a)
    return UNIT
def exchange2(tr, vs, n):
    a = Ptr(*pt(tr, vs[0]))
    vs[0].assign_hook(tr, vs[1])
    return a
def swap_ranges(tr, vs, n):
    (a, i), (a2, j), (b, k) = (pt(tr, v) for v in vs)
    tr.check("a range of one block", "%s = %s" % (a, a2))
    return raw(tr, "swap_ranges2 &m %s %s %s %s %s;" % (a, i, j, b, k), Obj("iterator"))
def relocate2(tr, fn, o, vs, n):
    (a, i), (a2, j), (b, k) = (pt(tr, v) for v in vs[1:4])
    tr.check("a range of one block", "%s = %s" % (a, a2))
    return raw(tr, "relocate2 &m %s %s %s %s %s;" % (a, i, j, b, k))
def destroy2(tr, fn, o, vs, n):
    (a, i), (a2, j) = (pt(tr, v) for v in vs[1:3])
    tr.check("a range of one block", "%s = %s" % (a, a2))
    return raw(tr, "destroy2 &m %s %s %s;" % (a, i, j))
def storage2(tr, fn, o, vs, n):
    ps = [Ptr(*pt(tr, v)) for v in vs]
    for w, v in zip("fle", ps): PRef(oid(o), w).assign_hook(tr, v)
    return UNIT
def buffer2(tr, fn, o, vs, n):
    s = tr.let(tr.term(vs[0]), "size")
    i = oid(o)
    for w, v in zip("fle", (Ptr(i, "0"), Ptr(i, s), Ptr(i, "inl"))): PRef(i, w).assign_hook(tr, v)
    return UNIT
def size2(tr, fn, o, vs, n):
    (x, i), (y, j) = pt(tr, PRef(oid(o), "f")), pt(tr, PRef(oid(o), "l"))
    tr.check("the subtracted pointers point into one block", "%s = %s" % (x, y))
    return T("(%s - %s)" % (j, i), SZ)
def small2(tr, fn, o, vs, n):
    x, i = pt(tr, PRef(oid(o), "f"))
    return T("(%s = %s && %s = 0)" % (x, oid(o), i), BOOL)
def other(tr):
    o = Obj("vector"); o.oid = "1"
    return [], o
CON2 = {D + "relocate_range_strong": relocate2, D + "relocate_range_weak": relocate2, D + "destroy_range": destroy2, SV + "set_storage": storage2, SV + "set_buffer_storage": buffer2, SV + "begin": lambda tr, fn, o, vs, n: PRef(oid(o), "f"), SV + "end": lambda tr, fn, o, vs, n: PRef(oid(o), "l"), SV + "size": size2, SV + "is_small": small2}
ST = "m fb fi lb li eb ei"
BOTH = ("both vectors own their blocks and have one object in each of their first size() cells", "vec %s 0 /\\ vec %s 1 /\\ og fb 0 <> og fb 1" % (ST, ST))
KEPT = ("no heap block is lost", "(og (old fb) 0 < 2 \\/ og fb 0 = og (old fb) 0 \\/ og fb 1 = og (old fb) 0) /\\ (og (old fb) 1 < 2 \\/ og fb 0 = og (old fb) 1 \\/ og fb 1 = og (old fb) 1)")
HOLDS = lambda a, b: "holds m fb li %s (old m) (old fb) (old li) %s" % (a, b)
def t2(name, m, sel=lambda f: True, **kw):
    TARGETS.append(dict(dict(name=name, this_obj="vector", this_oid="0", tu=TU, qname=SV + m, match=lambda f: SEL(f) and sel(f), prelude=PRE2, contracts=CON2,
                             obj_members=dict({"first_": mem2("f"), "last_": mem2("l"), "last_alloc_": mem2("e"), "buffer_": buf, "alloc_": lambda tr, v: Obj("allocator")}),
                             obj_methods={"begin": lambda tr, o, vs: Ptr(oid(o), "0"), "end": lambda tr, o, vs: Ptr(oid(o), "inl")},
                             obj_operators={"+": plus, "-": minus, "==": equal2(False), "!=": equal2(True), "=": lambda tr, a, vs: a if a.name == "allocator" else None}, std={"make_move_iterator": lambda tr, vs, n: MovePtr(*pt(tr, vs[0])), "swap": swap2, "exchange": exchange2, "swap_ranges": swap_ranges, "addressof": lambda tr, vs, n: vs[0], "move": lambda tr, vs, n: vs[0]},
                             param_values={"other": other}, ghost_params=["(ref m: memory)"] + ["(ref %s: objs)" % w for w in "fb fi lb li eb ei".split()], requires=[BOTH]), **kw))
t2("swap", "swap", ensures=[BOTH, ("each has the elements of the other", HOLDS(0, 1) + " /\\ " + HOLDS(1, 0)), KEPT])
EMPTY1 = ("the other vector is empty", "og li 1 = 0")
# the contract of assign (target assign_range), for a source in another block
ASSIGN2 = """
val assign2 (ref m: memory) (ref fb fi lb li eb ei: objs) (b i j: int) : unit
  requires { [@expl:the elements of the source are alive and not those of this vector] cells2 m b i j true /\\ b <> og fb 0 /\\ b <> 0 }
  requires { [@expl:the vector is valid] vec m fb fi lb li eb ei 0 }
  writes { m, fb, fi, lb, li, eb, ei }
  ensures { vec m fb fi lb li eb ei 0 /\\ og li 0 = j - i /\\ forall k. 0 <= k < j - i -> cv m (og fb 0) k = cv (old m) b (i + k) }
  ensures { forall o. o <> 0 -> og fb o = og (old fb) o /\\ og fi o = og (old fi) o /\\ og lb o = og (old lb) o /\\ og li o = og (old li) o /\\ og eb o = og (old eb) o /\\ og ei o = og (old ei) o }
  ensures { og fb 0 = og (old fb) 0 \\/ (og fb 0 >= 2 /\\ og fb 0 <> b /\\ og fb 0 <> og fb 1) }
  ensures { forall c k. c <> 0 -> c <> og fb 0 -> c <> og (old fb) 0 -> (alv m c k <-> alv (old m) c k) }
"""
def assign2(tr, fn, o, vs, n):
    if oid(o) != "0": raise Unsupported("assign to another object")
    (a, i), (a2, j) = (pt(tr, v) for v in vs)
    tr.check("a range of one block", "%s = %s" % (a, a2))
    mv = all(isinstance(v, MovePtr) for v in vs)
    tr.vals["assign2"] = ASSIGN2 if mv else ASSIGN2 + "  ensures { forall k. i <= k < j -> cv m b k = cv (old m) b k }\n"
    tr.used_models.add("contract of assign (checked as target assign_range, in the memory of one vector)")
    return raw(tr, "assign2 &m &fb &fi &lb &li &eb &ei %s %s %s;" % (a, i, j))
CON2[SV + "assign"] = assign2
KEPT1 = ("no heap block of the other vector is lost", "og (old fb) 1 < 2 \\/ og fb 0 = og (old fb) 1 \\/ og fb 1 = og (old fb) 1")
NORET = dict(ret_type="long", ret_wty="int", ret_model=lambda tr, v: T("0", INT))
t2("move_assignment", "operator=", lambda f: "small_vector" in f.type and "&&" in f.type and "initializer" not in f.type, **NORET,  ensures=[BOTH, ("the elements of the other vector", HOLDS(0, 1)), KEPT1, ("a heap block of this vector is kept if the other one has one, too", "og (old fb) 0 < 2 \\/ og (old fb) 1 < 2 \\/ og fb 0 = og (old fb) 0 \\/ og fb 1 = og (old fb) 0")])
t2("copy_assignment", "operator=", lambda f: "const" in f.type and "small_vector" in f.type and "&&" not in f.type and "initializer" not in f.type, **NORET,  ensures=[BOTH, ("the elements of the other vector", HOLDS(0, 1)), ("the other vector is unchanged", "og fb 1 = og (old fb) 1 /\\ " + HOLDS(1, 1))])
# a vector under construction: its inline buffer holds no objects, it owns no block
t2("construct_move", "small_vector", lambda f: len(f.params) == 1 and "small_vector<" in f.type + f.params[0].get("type", {}).get("qualType", "") and "&&" in f.type, plain_inits=("alloc_", "buffer_"), requires=[("the new vector owns nothing", "(forall k. 0 <= k < inl -> not (alv m 0 k)) /\\ vec %s 1 /\\ og fb 1 <> 0" % ST)],
   ensures=[BOTH, ("the elements of the other vector", HOLDS(0, 1)), EMPTY1, ("no heap block is lost", "og (old fb) 1 < 2 \\/ og fb 0 = og (old fb) 1")])
BOUNDED = ["small_vector: initializer lists, input iterators, comparisons, copy construction"]
HARNESS = dict(src=["c16.cpp"], lib=True, asan=True, secs=12, secs_thorough=90)

from common import *
from contracts import contract_of
from translate import idx_of, It, VarIt, Unsupported, same_seq
import theory, lemmas
PROP = "C17"
TU = drv("cache.cpp")
TARGETS = []
INT = Ty("int", True, 64)
BLK = Ty("seq", INT)
ALV = Ty("seq", Ty("bool"))
CB = "gapp::detail::circular_buffer::"
# ---------------------------------------------------------------- the memory behind buffer_
# mem: the contents of the block, alive: the cells that hold a constructed object, held: the buffer owns a block
def blk(tr): return L("mem", [], BLK, BLK)
def alv(tr): return L("alive", [], ALV, ALV)
GP = ["(ref mem: seq_i)", "(ref alive: seq_b)", "(ref held: bool)"]
OUTS = [("mem", BLK, lambda tr: blk(tr)), ("alive", ALV, lambda tr: alv(tr)), ("held", Ty("bool"), lambda tr: L("held", [], Ty("bool"), Ty("bool")))]
class Buf(It):
    """the pointer member: it can be indexed, tested and re-bound to a freshly allocated block"""
    def __init__(self, tr):
        super().__init__(blk(tr), "0")
    def assign_hook(self, tr, v):
        if not (isinstance(v, (It, VarIt)) and tr.term(v.seq).startswith("nmem")):
            raise Unsupported("buffer_ bound to something that was not just allocated")
        tr.check("the old block has been released", "not held")
        tr.blk.add("raw", "mem <- nmem; alive <- nalive; held <- true;")
def allocate(tr, fn, o, vs, n):
    c = par(tr.term(vs[-1]))
    tr.blk.add("raw", "let ref nmem : seq_i = any seq_i in let ref nalive : seq_b = any seq_b in assume { len_i nmem = %s /\\ len_b nalive = %s /\\ %s < cap_limit /\\ forall k. 0 <= k < %s -> not (get_b nalive k) };" % (c, c, c, c))
    return Obj("block")
def deallocate(tr, fn, o, vs, n):
    if not (isinstance(vs[1], (It, VarIt)) and tr.term(vs[1].seq) == "mem"): raise Unsupported("deallocation of another block")
    tr.check("the block is released once, with its size", "held /\\ %s = 0 /\\ %s = len_i mem" % (idx_of(vs[1]), tr.term(vs[2])))
    tr.check("no object is leaked", "forall k. 0 <= k < len_b alive -> not (get_b alive k)")
    tr.blk.add("raw", "held <- false; mem <- any seq_i; alive <- any seq_b; assume { len_i mem = 0 /\\ len_b alive = 0 };")
    return UNIT
def cell(tr, p):
    if isinstance(p, L) and p.root == "mem" and len(p.path) == 1 and p.path[0][0] == "i":
        return tr.let(p.path[0][1], "cell")
    if not (isinstance(p, (It, VarIt)) and tr.term(p.seq) == "mem"):
        raise Unsupported("pointer into another block")
    return tr.let(idx_of(p), "cell")
def construct(tr, fn, o, vs, n):
    c = cell(tr, vs[1])
    tr.check("constructed in a cell of the buffer that holds no object", "0 <= %s < len_i mem /\\ not (get_b alive %s)" % (c, c))
    v = par(tr.term(vs[2]))
    tr.blk.add("raw", "mem <- set_i mem %s %s; alive <- set_b alive %s true;" % (c, v, c))
    return UNIT
def destroy(tr, fn, o, vs, n):
    c = cell(tr, vs[1])
    tr.check("destroyed object is alive", "0 <= %s < len_i mem /\\ get_b alive %s" % (c, c))
    tr.blk.add("raw", "alive <- set_b alive %s false;" % c)
    return UNIT
F, Z, K = ("this_.circular_buffer_i_std__allocator_long__%s_" % x for x in ("first", "size", "capacity"))
class View(L):
    """the buffer as its iterators see it: position p is the object in cell slot(first, p, capacity)"""
    def __init__(self, tr):
        super().__init__("mem", [], BLK, BLK)
    def key(self): return ("view", ())
    def len_hook(self, tr): return Z
    def elem_hook(self, tr, idx):
        tr.check("iterator of the buffer in range", "0 <= %s < %s" % (idx, Z))
        return L("mem", [("i", "(slot (%s) (%s) (%s))" % (F, idx, K), INT)], INT, BLK)
def begin(tr, fn, o, vs, n):
    tr.models.use(tr, "stable_iterator: *(begin() + p) is (*this)[p]")
    return It(View(tr), "0")
def end(tr, fn, o, vs, n): return It(View(tr), Z)
CON = {"gapp::detail::construct": construct, "gapp::detail::destroy": destroy, "gapp::detail::allocate": allocate, "gapp::detail::deallocate": deallocate,
       CB + "begin": begin, CB + "end": end}
PRE = """
constant cap_limit : int
axiom cap_limit: cap_limit = 1152921504606846976
let function slot (f p cap: int) : int = if f + p >= cap then f + p - cap else f + p
predicate live (f a n cap k: int) = f + a <= k < f + n \\/ f + a <= k + cap < f + n
predicate cbs (f a n cap: int) (mem: seq_i) (alive: seq_b) =
  len_i mem = cap /\\ len_b alive = cap /\\ 0 <= a <= n <= cap < cap_limit /\\ 0 <= f /\\ (f < cap \\/ (f = 0 /\\ cap = 0))
  /\\ (forall k. 0 <= k < cap -> (get_b alive k <-> live f a n cap k))
predicate cb (f n cap: int) (mem: seq_i) (alive: seq_b) = cbs f 0 n cap mem alive
function elem (f cap: int) (mem: seq_i) (p: int) : int = get_i mem (slot f p cap)
"""
INV = "cb (%s) (%s) (%s) mem alive /\\ (%s > 0 -> held)" % (F, Z, K, K)
OINV = ("the cells between first and first + size hold the objects, and no others", INV)
E = lambda p: "elem (%s) (%s) mem (%s)" % (F, K, p)
OE = lambda p: "elem (old (%s)) (old (%s)) (old mem) (%s)" % (F, K, p)
CAPSAME = ("the capacity is unchanged", "%s = old %s" % (K, K))
NE = ("the buffer is not empty", "%s > 0" % Z)
PURE = ("nothing changes", "this_ = old this_ /\\ mem = old mem /\\ alive = old alive /\\ held = old held")
def t(name, m, sel=lambda f: "IlSaIlEE" in f.mangled, req=(), **kw):
    TARGETS.append(dict(dict(name=name, tu=TU, qname=CB + m, match=sel, prelude=PRE, contracts=CON, obj_members={"buffer_": lambda tr, v: Buf(tr), "data": lambda tr, v: It(L("nmem", [], BLK, BLK), "0") if isinstance(v, Obj) and v.name == "block" else None},
                             obj_methods={"operator bool": lambda tr, o, vs: T("held", Ty("bool"))},
                             ghost_params=GP, ghost_outs=OUTS, aliases={"reference": "long &", "const_reference": "const long &", "value_type": "long"}, use_types=[BLK, ALV],
                             requires=[OINV] + list(req)), **kw))
    return TARGETS[-1]
HASCAP = ("there is room for an element", "%s > 0" % K)
def grow(name, back):
    # what an insertion at one end does to the sequence of elements
    n0, n1 = "old %s" % Z, Z
    if back:
        keep = "if (%s) < %s then (forall p. 0 <= p < (%s) -> %s = %s) else (forall p q. 0 <= p < %s - 1 -> q = p + 1 -> %s = %s)" % (n0, K, n0, E("p"), OE("p"), Z, E("p"), OE("q"))
        new = "%s = args" % E("%s - 1" % Z)
    else:
        keep = "forall p q. 0 <= p < %s - 1 -> q = p + 1 -> %s = %s" % (Z, E("q"), OE("p"))
        new = "%s = args" % E("0")
    return t(name, name, ret_type="long", req=[HASCAP], ensures=[OINV, CAPSAME, ("one more element, at most the capacity", "%s = (if (%s) < %s then (%s) + 1 else %s)" % (Z, n0, K, n0, K)),
             ("the other elements keep their order; only the one at the far end is dropped from a full buffer", keep), ("the new element is at its end", new), ("the new element is returned", "result = args")])
EB = grow("emplace_back", True)
EF = grow("emplace_front", False)
PF = t("pop_front", "pop_front", req=[NE], ensures=[OINV, CAPSAME, ("one element less", "%s = (old %s) - 1" % (Z, Z)), ("the first element is gone, the others keep their order", "forall p q. 0 <= p < %s -> q = p + 1 -> %s = %s" % (Z, E("p"), OE("q")))])
PB = t("pop_back", "pop_back", req=[NE], ensures=[OINV, CAPSAME, ("one element less", "%s = (old %s) - 1" % (Z, Z)), ("the last element is gone, the others are unchanged", "forall p. 0 <= p < %s -> %s = %s" % (Z, E("p"), OE("p")))])
FR = t("front", "front", req=[NE], ensures=[("the first element", "result = %s" % E("0")), PURE])
BA = t("back", "back", req=[NE], ensures=[("the last element", "result = %s" % E("%s - 1" % Z)), PURE])
IX = t("index", "operator[]", lambda f: "IlSaIlEE" in f.mangled and not f.type.rstrip().endswith("const"), params=["pos"], req=[("a valid position", "0 <= pos_0 < %s" % Z)], ensures=[("the element at the position", "result = %s" % E("pos_0")), PURE])
IXK = t("index_const", "operator[]", lambda f: "IlSaIlEE" in f.mangled and  f.type.rstrip().endswith("const"), params=["pos"], req=[("a valid position", "0 <= pos_0 < %s" % Z)], ensures=[("the element at the position", "result = %s" % E("pos_0")), PURE])
IXC = t("at_checked", "at", params=["pos"], req=[("a valid position", "0 <= pos_0 < %s" % Z)], ensures=[("the element at the position", "result = %s" % E("pos_0")), PURE])
CLI = [("objects destroyed so far", "cbs (%s) elem__i (%s) (%s) mem alive" % (F, Z, K)), ("the buffer keeps its block", "this_ = old this_ /\\ held = old held")]
CL = t("clear", "clear", loops={1: dict(inv=CLI)}, ensures=[OINV, CAPSAME, ("empty", "%s = 0" % Z), ("the buffer keeps its block", "held = old held")])
RS = t("reset", "reset", params=["new_capacity"], loops={1: dict(inv=CLI)}, ensures=[OINV, ("empty, with the new capacity", "%s = 0 /\\ %s = new_capacity_0" % (Z, K))])
DE = t("release", "destroy", loops={1: dict(inv=CLI)}, ensures=[("every object is destroyed and the block released", "not held /\\ forall k. 0 <= k < len_b alive -> not (get_b alive k)")])

def ucopy(tr, vs, n):
    src, d = vs[0], vs[2]
    if not (isinstance(src, It) and isinstance(src.seq, View) and isinstance(d, (It, VarIt)) and tr.term(d.seq) == "nmem"): raise Unsupported("copy from or to another block")
    a, k, b = (tr.let(x, "cp") for x in (idx_of(src), tr.term(vs[1]), idx_of(d)))
    tr.check("the copied elements exist", "0 <= %s /\\ 0 <= %s /\\ %s + %s <= %s" % (a, k, a, k, Z))
    tr.check("copied to cells of the new block", "0 <= %s /\\ %s + %s <= len_i nmem" % (b, b, k))
    tr.check("the cells of the new block hold no objects", "forall x. %s <= x < %s + %s -> not (get_b nalive x)" % (b, b, k))
    tr.blk.effect = True
    tr.models.use(tr, "std::uninitialized_copy_n")
    tr.blk.add("raw", "let nm0 = nmem in let na0 = nalive in nmem <- any seq_i; nalive <- any seq_b; assume { len_i nmem = len_i nm0 /\\ len_b nalive = len_b na0 /\\ (forall x y. %s <= x < %s + %s -> y = x - %s + %s -> get_i nmem x = elem (%s) (%s) mem y) /\\ forall x. 0 <= x < len_b na0 -> (get_b nalive x <-> (%s <= x < %s + %s \\/ get_b na0 x)) };" % (b, b, k, b, a, F, K, b, b, k))
    return UNIT
def guard(tr, vs):
    tr.blk.effect = True
    tr.blk.add("raw", "armed <- true;")
    o = Obj("guard"); return o
def release(tr, o, vs):
    tr.blk.effect = True
    tr.blk.add("raw", "armed <- false;")
    return UNIT
SC = t("set_capacity", "set_capacity", params=["new_capacity"], loops={1: dict(inv=CLI)}, guards={"scope_exit": (guard, None)}, std={"uninitialized_copy_n": ucopy},
       ensures=[OINV, ("the capacity", "%s = new_capacity_0" % K), ("the first elements are kept", "%s = (if old %s < new_capacity_0 then old %s else new_capacity_0) /\\ forall p. 0 <= p < %s -> %s = %s" % (Z, Z, Z, Z, E("p"), OE("p")))],
       ghost={"entry": "let ref armed = false in", "exit": "assert { [@expl:the guard is released, so the new block stays] not armed };"})
SC["obj_methods"] = dict(SC["obj_methods"], release=release)
SC["contracts"] = dict(CON, **{"gapp::detail::make_move_iterator_if_noexcept": lambda tr, fn, o, vs, n: vs[0]})

# ---------------------------------------------------------------- the cache
# m: the map (m_has, m_val), mbk: its bucket count, ord: the keys in order_ (oldest first), ocap: the capacity of order_.
# A map iterator is known by its key; it stays valid as long as the key is in the map and no insertion rehashes.
FC = "gapp::detail::fifo_cache::"
CPRE = """
type kmap
val function m_has kmap int : bool
val function m_val kmap int : int
val function m_size kmap : int
val function m_put kmap int int : kmap
val function m_del kmap int : kmap
val function m_empty : kmap
axiom m_size0: forall m: kmap. 0 <= m_size m
axiom m_put_has: forall m: kmap, k v x: int. m_has (m_put m k v) x <-> (x = k \\/ m_has m x)
axiom m_put_val: forall m: kmap, k v x: int. m_val (m_put m k v) x = (if x = k then v else m_val m x)
axiom m_put_size: forall m: kmap, k v: int. m_size (m_put m k v) = (if m_has m k then m_size m else m_size m + 1)
axiom m_del_has: forall m: kmap, k x: int. m_has (m_del m k) x <-> (x <> k /\\ m_has m x)
axiom m_del_val: forall m: kmap, k x: int. x <> k -> m_val (m_del m k) x = m_val m x
axiom m_del_size: forall m: kmap, k: int. m_size (m_del m k) = (if m_has m k then m_size m - 1 else m_size m)
axiom m_empty: m_size m_empty = 0 /\\ forall x: int. not (m_has m_empty x)
"""
ORDD = """
val function vf int : int
predicate inord (s: seq_i) (k: int) = exists p. 0 <= p < len_i s /\\ get_i s p = k
val function drop1 (s: seq_i) : seq_i
axiom drop1_len: forall s: seq_i. len_i s > 0 -> len_i (drop1 s) = len_i s - 1
axiom drop1_get: forall s: seq_i, p: int. 0 <= p < len_i s - 1 -> get_i (drop1 s) p = get_i s (p + 1)
"""
ORDL = """
lemma inord_snoc: forall s: seq_i, k x: int [inord (snoc_i s k) x]. inord (snoc_i s k) x <-> (x = k \\/ inord s x)
lemma inord_drop: forall s: seq_i, x: int [inord (drop1 s) x]. len_i s > 0 -> inord s x -> x = get_i s 0 \\/ inord (drop1 s) x
"""
CACHE = """
predicate cache (m: kmap) (ord: seq_i) (ocap mbk: int) =
  len_i ord <= ocap < size_limit /\\ m_size m = len_i ord /\\ mbk >= ocap + 1
  /\\ (forall p. 0 <= p < len_i ord -> m_has m (get_i ord p))
  /\\ (forall p q. 0 <= p < q < len_i ord -> get_i ord p <> get_i ord q)
  /\\ (forall k. m_has m k -> inord ord k)
"""
CPRE += ORDD + ORDL.replace("lemma ", "axiom ") + CACHE
TARGETS.append(lemmas.lemma("insertion_order", lemmas.seq_theory() + ORDD + """
let lemma snoc_in (s: seq_i) (k x: int)
  ensures { inord (snoc_i s k) x <-> (x = k \\/ inord s x) }
= assert { get_i (snoc_i s k) (len_i s) = k };
  assert { forall p. 0 <= p < len_i s -> get_i (snoc_i s k) p = get_i s p };
  assert { x = k -> inord (snoc_i s k) x };
  assert { inord s x -> inord (snoc_i s k) x };
  assert { forall p. 0 <= p < len_i (snoc_i s k) -> p = len_i s \\/ 0 <= p < len_i s }
let lemma drop_in (s: seq_i) (x: int)
  requires { len_i s > 0 }
  requires { inord s x }
  ensures { x = get_i s 0 \\/ inord (drop1 s) x }
= let ghost p = any int ensures { 0 <= result < len_i s /\\ get_i s result = x } in
  assert { p > 0 -> get_i (drop1 s) (p - 1) = x /\\ 0 <= p - 1 < len_i (drop1 s) };
  assert { p > 0 -> inord (drop1 s) x }
""" + ORDL))
SEQI = Ty("seq", INT)
def o_l(): return L("ord", [], SEQI, SEQI)
class MapIt(Obj):
    def __init__(self, key, found="true"):
        super().__init__("mapit"); self.keyt = key; self.found = found
class Cell(Obj):
    def __init__(self, key):
        super().__init__("cell"); self.keyt = key
def keyof(tr, v):
    if not isinstance(v, MapIt) and isinstance(v, Obj) and len(getattr(v, "args", [])) == 1: v = v.args[0]
    return v.keyt if isinstance(v, MapIt) else par(tr.term(v))
def fresh_key(tr, v): return tr.let(tr.term(v), "key")
def norehash(tr): tr.check("an insertion never rehashes, so the iterators in order_ stay valid", "m_size m <= mbk")
def ins_assign(tr, o, vs):
    k = fresh_key(tr, vs[0]); h = tr.let("m_has m %s" % k, "had"); v = par(tr.term(vs[1]))
    tr.blk.add("raw", "m <- m_put m %s %s;" % (k, v)); norehash(tr)
    return Tup([MapIt(k), T("(not %s)" % h, BOOL)])
def try_emplace(tr, o, vs):
    k = fresh_key(tr, vs[0]); h = tr.let("m_has m %s" % k, "had"); v = par(tr.term(vs[1]))
    tr.blk.add("raw", "m <- (if %s then m else m_put m %s %s);" % (h, k, v)); norehash(tr)
    return Tup([MapIt(k), T("(not %s)" % h, BOOL)])
def find(tr, o, vs):
    k = fresh_key(tr, vs[0])
    return MapIt(k, "(m_has m %s)" % k)
def erase(tr, o, vs):
    k = tr.let(keyof(tr, vs[0]), "gone")
    tr.check("the erased iterator points to an element of the map", "m_has m %s" % k)
    tr.blk.add("raw", "m <- m_del m %s;" % k)
    return UNIT
def on(name, fm, fo):
    return lambda tr, o, vs: (fm if o.name == "cache" else fo)(tr, o, vs)
def none(*a): raise Unsupported("operation on the map or the order of the cache")
def ofront(tr, o, vs):
    tr.check("the order is not empty", "0 < len_i ord")
    return MapIt(tr.let("get_i ord 0", "oldest"))
def opush(tr, o, vs):
    tr.check("there is room for an element", "0 < ocap")
    tr.check("the stored iterator points to an element of the map", "m_has m %s" % keyof(tr, vs[0]))
    tr.blk.add("raw", "ord <- snoc_i (if len_i ord < ocap then ord else drop1 ord) %s;" % keyof(tr, vs[0]))
    return UNIT
def raw(tr, txt, v=UNIT):
    tr.blk.effect = True
    tr.blk.add("raw", txt); return v
METH = {"insert_or_assign": on("", ins_assign, none), "try_emplace": on("", try_emplace, none), "find": on("", find, none), "erase": on("", erase, none),
        "end": on("", lambda tr, o, vs: MapIt("0", "end"), none), "contains": on("", lambda tr, o, vs: T("(m_has m %s)" % par(tr.term(vs[0])), BOOL), none),
        "size": on("", lambda tr, o, vs: T("(m_size m)", SZ), lambda tr, o, vs: T("(len_i ord)", SZ)), "empty": on("", lambda tr, o, vs: T("(m_size m = 0)", BOOL), lambda tr, o, vs: T("(len_i ord = 0)", BOOL)),
        "capacity": on("", none, lambda tr, o, vs: T("ocap", SZ)), "full": on("", none, lambda tr, o, vs: T("(len_i ord = ocap)", BOOL)), "front": on("", none, ofront), "push_back": on("", none, opush),
        "bucket_count": on("", lambda tr, o, vs: T("mbk", SZ), none), "max_load_factor": on("", lambda tr, o, vs: T(tr.models.dlit(tr, 1), DBL), none),
        "clear": on("", lambda tr, o, vs: raw(tr, "m <- m_empty;"), lambda tr, o, vs: raw(tr, "ord <- any seq_i; assume { len_i ord = 0 };")),
        "reserve": on("", lambda tr, o, vs: raw(tr, "mbk <- any int; assume { mbk >= m_size m /\\ mbk >= %s };" % par(tr.term(vs[0]))), none),
        "reset": on("", none, lambda tr, o, vs: raw(tr, "ocap <- %s; ord <- any seq_i; assume { len_i ord = 0 /\\ ocap < size_limit };" % par(tr.term(vs[0]))))}
def eqit(tr, a, b):
    b = b[0]
    if b.found != "end": a, b = b, a
    return T("(not %s)" % a.found, BOOL)
def arrow(tr, a, vs):
    tr.check("dereferenced iterator points to an element of the map", a.found)
    return a
def got(tr, v):
    if v.name == "nullptr": return T("(false, 0)", INT)
    return T("(true, m_val m %s)" % v.keyt, INT)
CINV = ("the order lists every key of the map once, oldest first; at most capacity keys; room for one more without a rehash", "cache m ord ocap mbk")
CGP = ["(ref m: kmap)", "(ref ord: seq_i)", "(ref ocap: int)", "(ref mbk: int)"]
SAMEC = ("nothing changes", "m = old m /\\ ord = old ord /\\ ocap = old ocap /\\ mbk = old mbk")
def c(name, m, sel=lambda f: True, req=(), **kw):
    TARGETS.append(dict(dict(name=name, tu=TU, qname=FC + m, match=lambda f: "IllSt" in f.mangled and sel(f), prelude=CPRE, aliases={"key_type": "long", "Value": "long", "pointer": "long", "const_pointer": "long"},
                             obj_members={"cache_": lambda tr, v: Obj("cache"), "order_": lambda tr, v: Obj("order"), "second": lambda tr, v: Cell(v.keyt), "first": lambda tr, v: T(v.keyt, INT)},
                             obj_methods=METH, obj_operators={"==": eqit, "!=": lambda tr, a, b: T("(not %s)" % eqit(tr, a, b).term, BOOL), "->": arrow, "*": arrow},
                             ghost_params=CGP, use_types=[SEQI], dbl=True, requires=[CINV] + list(req)), **kw))
    return TARGETS[-1]
c("get", "get", params=["key"], ret_type="long", ret_model=got, ret_wty="(bool, int)",
  ensures=[("a pointer exactly when the key is in the cache", "let (f, _) = result in f <-> m_has m key"), ("the value stored for the key", "let (f, v) = result in f -> v = m_val m key"), SAMEC])
c("contains", "contains", ensures=[("whether the key is in the cache", "result <-> m_has m key"), SAMEC])
STEP = [("nothing is stored in a cache without capacity", "ocap = 0 -> m = old m /\\ ord = old ord"),
        ("a new key goes to the end of the order, the oldest key of a full cache goes", "ocap > 0 -> not (m_has (old m) key) -> ord = snoc_i (if len_i (old ord) < ocap then old ord else drop1 (old ord)) key"),
        ("a known key keeps its place", "m_has (old m) key -> ord = old ord"), ("the capacity is unchanged", "ocap = old ocap /\\ mbk = old mbk"),
        ("the other values are unchanged", "forall k. k <> key -> m_has m k -> m_has (old m) k /\\ m_val m k = m_val (old m) k"),
        ("only the oldest key of a full cache is dropped", "forall k. m_has (old m) k -> not (m_has m k) -> len_i (old ord) = ocap /\\ k = get_i (old ord) 0 /\\ not (m_has (old m) key)")]
c("insert", "insert", lambda f: f.type.count(",") == 1 and len(f.params) == 2, ensures=[CINV] + STEP + [("the key has the new value", "ocap > 0 -> m_has m key /\\ m_val m key = value")])
c("try_insert", "try_insert", ensures=[CINV] + STEP + [("the key has the new value, unless it had one", "ocap > 0 -> m_has m key /\\ m_val m key = (if m_has (old m) key then m_val (old m) key else vargs)")])
c("cache_clear", "clear", ensures=[CINV, ("the cache is empty", "m_size m = 0 /\\ ocap = old ocap")])
c("cache_reset", "reset", req=[("a size", "new_capacity_0 < size_limit - 1")], ensures=[CINV, ("the cache is empty, with the new capacity", "m_size m = 0 /\\ ocap = new_capacity_0")])
VALS = "forall k. m_has m k -> (m_val m k = vf k \\/ (m_has (old m) k /\\ m_val m k = m_val (old m) k))"
RI = c("insert_range", "insert", lambda f: len(f.params) == 3, req=[("a range", "0 <= first_0 <= last_0 <= len_i rng < size_limit")], iter_params={"first": ("rng", False), "last": ("rng", False)}, param_values={"f": lambda tr: ([], Obj("valuefn"))}, obj_calls={"valuefn": lambda tr, c, vs: T("(vf %s)" % par(tr.term(vs[0])), INT)},
  ensures=[CINV, ("every value in the cache is the one computed for its key, or the one it had", VALS), ("the capacity is unchanged", "ocap = old ocap /\\ mbk = old mbk"),
           ("the last element of the range is stored", "ocap > 0 -> first_0 < last_0 -> m_has m (get_i rng (last_0 - 1)) /\\ m_val m (get_i rng (last_0 - 1)) = vf (get_i rng (last_0 - 1))")],
  loops={1: dict(inv=[CINV, ("values so far", VALS), ("the last element", "first > first at L1 -> m_has m (get_i rng (first - 1)) /\\ m_val m (get_i rng (first - 1)) = vf (get_i rng (first - 1))"), ("the bounds of the range", "last = last_0 /\\ 0 <= first at L1 <= first /\\ (first_0 < last_0 -> first at L1 < last)"), ("the capacity is unchanged", "ocap = old ocap /\\ mbk = old mbk")])})
# ---------------------------------------------------------------- operations on two caches: m, ord, ocap, mbk are this one's, m2, ord2, ocap2, mbk2 the other's
def sfx(v): return getattr(v, "oid", "")
class MapIt2(MapIt):
    def __init__(self, key, o):
        super().__init__(key, "(m_has m%s %s)" % (o, key)); self.oid = o
class Cell2(Cell):
    def __init__(self, key, o):
        super().__init__(key); self.oid = o
class Ord2(L):
    """the order of a cache: its elements are iterators of the cache's map"""
    def __init__(self, o):
        super().__init__("ord" + o, [], SEQI, SEQI); self.oid = o
    def elem_hook(self, tr, idx):
        tr.check("a position of the order", "0 <= %s < len_i ord%s" % (idx, self.oid))
        return MapIt2(tr.let("get_i ord%s (%s)" % (self.oid, idx), "kept"), self.oid)
def part(nm):
    def h(tr, v):
        o = Obj(nm); o.oid = sfx(v); return o
    return h
def swap2(tr, o, vs):
    if o.name == "fifo": return None     # the member function: inlined
    a, b = sfx(o), sfx(vs[0])
    if not isinstance(vs[0], Obj) or vs[0].name != o.name: raise Unsupported("swap")
    for w in (("m", "mbk") if o.name == "cache" else ("ord", "ocap")):
        t = tr.newname("sw")
        raw(tr, "let %s = %s%s in %s%s <- %s%s; %s%s <- %s;" % (t, w, a, w, a, w, b, w, b, t))
    return UNIT
def insert2(tr, o, vs):
    if not isinstance(vs[0], Cell2) or sfx(o): raise Unsupported("insertion")
    k = vs[0].keyt
    raw(tr, "m <- (if m_has m %s then m else m_put m %s (m_val m%s %s));" % (k, k, vs[0].oid, k)); norehash(tr)
    r = Obj("inserted"); r.keyt = k
    return r
def opush2(tr, o, vs):
    if sfx(o): raise Unsupported("change of the other cache")
    return opush(tr, o, vs)
def new_map(tr, vs):
    return raw(tr, "m <- m_empty; mbk <- any int; assume { mbk >= 1%s };" % "".join(" /\\ mbk >= %s" % par(tr.term(v)) for v in vs[:1]))
def new_order(tr, vs):
    return raw(tr, "ord <- any seq_i; ocap <- %s; assume { len_i ord = 0 /\\ ocap < size_limit };" % (par(tr.term(vs[0])) if vs else "0"))
def cells_differ(tr, a, b):
    b = b[0] if isinstance(b, list) else b
    return T("(not (%s = %s && m_val m%s %s = m_val m%s %s))" % (a.keyt, b.keyt, sfx(a), a.keyt, sfx(b), b.keyt), BOOL)
def deref2(tr, a, vs):
    if not isinstance(a, MapIt2) and len(getattr(a, "args", [])) == 1: a = a.args[0]
    if not isinstance(a, MapIt2): raise Unsupported("dereferenced value")
    tr.check("dereferenced iterator points to an element of its map", a.found)
    return Cell2(a.keyt, a.oid)
def at2(tr, a, vs):
    return Ord2(sfx(a)).elem_hook(tr, par(tr.term(vs[0])))
METH2 = {"swap": swap2, "insert": on("", insert2, none), "push_back": on("", none, opush2), "capacity": lambda tr, o, vs: T("ocap" + sfx(o), SZ) if o.name == "order" else None if o.name == "fifo" else none(),
         "size": lambda tr, o, vs: None if o.name == "fifo" else T("(m_size m%s)" % sfx(o) if o.name == "cache" else "(len_i ord%s)" % sfx(o), SZ), "empty": lambda tr, o, vs: None if o.name == "fifo" else T("(m_size m%s = 0)" % sfx(o) if o.name == "cache" else "(len_i ord%s = 0)" % sfx(o), BOOL),
         "begin": on("", none, lambda tr, o, vs: It(Ord2(sfx(o)), "0")), "end": on("", none, lambda tr, o, vs: It(Ord2(sfx(o)), "len_i ord" + sfx(o)))}
def fifo(o):
    def h(tr):
        v = Obj("fifo"); v.oid = o; return [], v
    return h
CIN2 = ("the invariants hold for the other cache", "cache m2 ord2 ocap2 mbk2")
SAMEK = "len_i ord = len_i %s /\\ ocap = %s /\\ (forall p. 0 <= p < len_i ord -> get_i ord p = get_i (%s) p) /\\ forall k. (m_has m k <-> m_has (%s) k) /\\ (m_has m k -> m_val m k = m_val (%s) k)"
IS = lambda o: SAMEK % tuple(x % (o,) if o == "2" else "(old %s2)" % x[:-2] for x in ("ord%s", "ocap%s", "ord%s", "m%s", "m%s"))
SAME2 = ("the other cache is unchanged", "m2 = old m2 /\\ ord2 = old ord2 /\\ ocap2 = old ocap2 /\\ mbk2 = old mbk2")
SWAPPED = ("each cache has what the other had", "m = old m2 /\\ ord = old ord2 /\\ ocap = old ocap2 /\\ m2 = old m /\\ ord2 = old ord /\\ ocap2 = old ocap")
def c2(name, m, sel=lambda f: True, **kw):
    TARGETS.append(dict(dict(name=name, tu=TU, qname=FC + m, match=lambda f: ("IllSt" in f.mangled or m == "operator==") and sel(f), prelude=CPRE, this_obj="fifo", this_oid="",
                             obj_members={"cache_": part("cache"), "order_": part("order"), "first": lambda tr, v: MapIt2(v.keyt, "") if v.name == "inserted" else None},
                             obj_methods=METH2, obj_operators={"*": deref2, "!=": cells_differ, "==": lambda tr, a, b: T("(not %s)" % cells_differ(tr, a, b).term, BOOL), "[]": at2},
                             init_hooks={"cache_": new_map, "order_": new_order}, param_values={"other": fifo("2"), "lhs": fifo(""), "rhs": fifo("2")},
                             ghost_params=CGP + ["(ref m2: kmap)", "(ref ord2: seq_i)", "(ref ocap2: int)", "(ref mbk2: int)"], use_types=[SEQI]), **kw))
REFCLS = lambda f: f.type + (f.params[0].get("type", {}).get("qualType", "") if f.params else "")
c2("cache_swap", "swap", requires=[CINV, CIN2], ensures=[CINV, CIN2, SWAPPED])
c2("cache_assign", "operator=", requires=[CINV, CIN2], ret_type="long", ret_wty="int", ret_model=lambda tr, v: T("0", INT), ensures=[CINV, CIN2, SWAPPED])
c2("cache_new", "fifo_cache", lambda f: len(f.params) == 1 and "fifo_cache" not in REFCLS(f).replace("&&", "&"), requires=[("a size", "0 <= capacity_0 < size_limit - 1")], ensures=[CINV, ("an empty cache with the capacity", "m_size m = 0 /\\ ocap = capacity_0")])
c2("cache_move", "fifo_cache", lambda f: len(f.params) == 1 and "fifo_cache" in REFCLS(f) and "&&" in REFCLS(f), requires=[CIN2],
   ensures=[CINV, CIN2, ("the new cache has what the other had", "m = old m2 /\\ ord = old ord2 /\\ ocap = old ocap2"), ("the other cache is empty, without capacity", "m_size m2 = 0 /\\ ocap2 = 0")])
CI = "elem__i"
c2("cache_copy", "fifo_cache", lambda f: len(f.params) == 1 and "const" in REFCLS(f) and "fifo_cache" in REFCLS(f), requires=[CIN2, ("a size", "ocap2 < size_limit - 1")],
   ensures=[CINV, ("the copy has the same keys, in the same order, with the same values, and the same capacity", IS("2")), SAME2],
   loops={1: dict(inv=[("the part copied so far", "len_i ord = it__i /\\ m_size m = it__i /\\ ocap = ocap2 /\\ mbk >= ocap + 1 /\\ (forall p. 0 <= p < it__i -> get_i ord p = get_i ord2 p) /\\ (forall p. 0 <= p < it__i -> m_has m (get_i ord2 p)) /\\ (forall k. m_has m k -> inord ord k /\\ m_has m2 k /\\ m_val m k = m_val m2 k)"), SAME2])})
c2("cache_equal", "operator==", requires=[CINV, CIN2], ensures=[("equal exactly if they have the same keys, in the same order, with the same values", "result <-> (len_i ord = len_i ord2 /\\ forall p. 0 <= p < len_i ord -> get_i ord p = get_i ord2 p /\\ m_val m (get_i ord p) = m_val m2 (get_i ord p))"), SAMEC],
   loops={1: dict(inv=[("equal so far", "forall p. 0 <= p < i -> get_i ord p = get_i ord2 p /\\ m_val m (get_i ord p) = m_val m2 (get_i ord p)")])})
# ---------------------------------------------------------------- two circular buffers: fst, siz, kap, mem, alive, held are this one's, fst2, ... the other's
def bfield(w):
    return lambda tr, v: L(w + sfx(v), [], SZ, SZ)
def swap_b(tr, vs, n):
    a, b = vs
    if isinstance(a, L) and isinstance(b, L) and not a.path and not b.path:
        ws = [(a.root, b.root)]
    elif isinstance(a, Obj) and isinstance(b, Obj) and a.name == b.name == "alloc": return UNIT
    elif isinstance(a, Obj) and isinstance(b, Obj) and a.name == b.name == "bufptr":
        ws = [(w + sfx(a), w + sfx(b)) for w in ("mem", "alive", "held")]
    else: raise Unsupported("swap")
    for x, y in ws:
        t = tr.newname("sw")
        raw(tr, "let %s = %s in %s <- %s; %s <- %s;" % (t, x, x, y, y, t))
    return UNIT
def cbuf(o):
    def h(tr):
        v = Obj("ring"); v.oid = o; return [], v
    return h
BI = lambda o: "cb fst{0} siz{0} kap{0} mem{0} alive{0} /\\ (kap{0} > 0 -> held{0})".format(o)
BI1, BI2 = ("the cells between first and first + size hold the objects, and no others", BI("")), ("the same for the other buffer", BI("2"))
BGP = ["(ref %s%s: %s)" % (w, o, ty) for o in ("", "2") for w, ty in (("mem", "seq_i"), ("alive", "seq_b"), ("held", "bool"), ("fst", "int"), ("siz", "int"), ("kap", "int"))]
BSW = lambda a, b: " /\\ ".join("%s%s = old %s%s" % (w, a, w, b) for w in ("mem", "alive", "held", "fst", "siz", "kap"))
def b2(name, m, sel=lambda f: True, **kw):
    TARGETS.append(dict(dict(name=name, tu=TU, qname=CB + m, match=lambda f: "IlSaIlEE" in f.mangled and sel(f), prelude=PRE, this_obj="ring", this_oid="",
                             obj_members={"first_": bfield("fst"), "size_": bfield("siz"), "capacity_": bfield("kap"), "buffer_": part("bufptr"), "alloc_": part("alloc")}, std={"swap": swap_b},
                             plain_inits=("alloc_",), param_values={"other": cbuf("2")}, ghost_params=BGP, use_types=[BLK, ALV]), **kw))
b2("buffer_swap", "swap", requires=[BI1, BI2], ensures=[BI1, BI2, ("each buffer has what the other had", BSW("", "2") + " /\\ " + BSW("2", ""))])
b2("buffer_assign", "operator=", requires=[BI1, BI2], ret_type="long", ret_wty="int", ret_model=lambda tr, v: T("0", INT), ensures=[BI1, BI2, ("each buffer has what the other had", BSW("", "2") + " /\\ " + BSW("2", ""))])
b2("buffer_move", "circular_buffer", lambda f: len(f.params) == 1 and "circular_buffer<" in REFCLS(f) and "&&" in REFCLS(f), requires=[BI2, ("the new buffer has the default values of its members", "fst = 0 /\\ siz = 0 /\\ kap = 0 /\\ not held /\\ len_i mem = 0 /\\ len_b alive = 0")],
   ensures=[BI1, BI2, ("the new buffer has what the other had, which is left without a block", BSW("", "2") + " /\\ not held2")])
BOUNDED = ["circular_buffer: construction with a capacity, from a range and as a copy; comparisons"]
HARNESS = dict(src=["c17.cpp"], lib=True, asan=True, secs=10, secs_thorough=90)

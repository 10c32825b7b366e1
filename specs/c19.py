from common import *
from contracts import contract_of
import theory, lemmas, c08
PROP = "C19"
D = "gapp::detail::"
TU = drv("algo.cpp")
TARGETS = []
MEM = "predicate mem (r: seq_i) (v: int) = exists k. 0 <= k < len_i r /\\ get_i r k = v\n"


def t(name, q, m=lambda f: True, **kw):
    TARGETS.append(dict(dict(name=name, tu=TU, dbl=True, qname=D + q, match=m, prelude=MEM), **kw))
    return TARGETS[-1]


STEPM = "predicate memb (r: seq_i) (n v: int) = exists k. 0 <= k < n /\\ get_i r k = v\n"
PERM_MEM = lambda old, new, p, q, e, lo, hi: "assert { [@expl:sorting keeps the values] forall v. mem %s v -> mem %s v }; assert { [@expl:sorting adds no value] forall v. mem %s v -> mem %s v };" % (old, new, new, old)
ERASE_DUP = t("erase_duplicates", "erase_duplicates", prelude=MEM + STEPM, after_perm=PERM_MEM,
  after_unique=lambda old, new, u, e, lo, hi: "assert { [@expl:no value is lost] forall v. mem %s v -> memb %s %s v }; assert { [@expl:no value is added] forall v. memb %s %s v -> mem %s v }; let ghost un = %s in let ghost uu = %s in" % (old, new, u, new, u, old, new, u),
  ghost={"exit": "assert { [@expl:the first part remains] forall v. memb un uu v -> mem range_ v }; assert { [@expl:only the first part remains] forall v. mem range_ v -> memb un uu v };"},
  ensures=[("the same values", "forall v. mem range_ v <-> mem (old range_) v"), ("in ascending order, each once", "forall i j. 0 <= i < j < len_i range_ -> get_i range_ i < get_i range_ j")])
R = lambda rev: (lambda f: ("reverse_iterator" in f.type) == rev)
IP = {"first": ("data", False), "last": ("data", False), "middle": ("data", False)}
LIM = ("a valid range", "0 <= first_0 <= last_0 <= len_i data")
LIM2 = ("below 2^50 elements", "last_0 - first_0 < size_limit")
t("index_vector", "index_vector", requires=[("no overflow", "n_0 < size_limit /\\ first_0 < size_limit")], ensures=[("consecutive indices", "len_i result = n_0 /\\ forall k. 0 <= k < n_0 -> get_i result k = first_0 + k")])
ORDERED = lambda f, e, n: "forall i j. 0 <= i < j < %s /\\ i < %s -> get_i data (first_0 + get_i result %s) <= get_i data (first_0 + get_i result %s)" % (n, e, f, "j" if f == "i" else "i")
RIDX = "get_i data (last_0 + get_i result {0})"
RLIM = [("a valid reversed range", "0 <= last_0 <= first_0 <= len_i data"), ("below 2^50 elements", "first_0 - last_0 < size_limit")]
PI = PERM_I + MEM
for rev in (False, True):
    L_ = RLIM + [("not empty", "last_0 < first_0")] if rev else [LIM, LIM2]
    n = "(first_0 - last_0)" if rev else "(last_0 - first_0)"
    base = "last_0" if rev else "first_0"
    sg = "_reverse" if rev else ""
    le = (lambda a, b: "get_i data (%s + get_i result %s) <= get_i data (%s + get_i result %s)" % (base, b, base, a)) if rev else (lambda a, b: "get_i data (%s + get_i result %s) <= get_i data (%s + get_i result %s)" % (base, a, base, b))
    what = "descending" if rev else "ascending"
    A = t("argsort" + sg, "argsort", R(rev), iter_params=IP, prelude=PI, requires=L_, ensures=[("a permutation of the positions", "len_i result = %s /\\ perm result" % n), ("%s order of the values" % what, "forall i j. 0 <= i < j < %s -> %s" % (n, le("i", "j")))])
    mid = "(first_0 - middle_0)" if rev else "(middle_0 - first_0)"
    t("partial_argsort" + sg, "partial_argsort", R(rev), iter_params=IP, prelude=PI, requires=L_ + [("the middle lies in the range", "last_0 <= middle_0 <= first_0" if rev else "first_0 <= middle_0 <= last_0")], contracts={D + "argsort": contract_of(A)},
      ensures=[("a permutation of the positions", "len_i result = %s /\\ perm result" % n), ("the first ones come first, in %s order of the values" % what, "forall i j. 0 <= i < j < %s -> i < %s -> %s" % (n, mid, le("i", "j")))])
t("lower_bound", "lower_bound", iter_params=IP, requires=[LIM, LIM2, ("sorted", "forall i j. first_0 <= i < j < last_0 -> get_i data i <= get_i data j")],
  ensures=[("everything before is smaller, nothing from there on is", "first_0 <= result <= last_0 /\\ (forall k. first_0 <= k < result -> get_i data k < value) /\\ (forall k. result <= k < last_0 -> value <= get_i data k)")],
  loops={1: dict(inv=[("smaller before", "first_0 <= first <= last /\\ 0 <= length <= last - first /\\ forall k. first_0 <= k < first -> get_i data k < value")], variant="length"),
         2: dict(inv=[("smaller before", "first_0 <= first <= last /\\ forall k. first_0 <= k < first -> get_i data k < value")], variant="last - first")})
EXT = {}
for rev in (False, True):
    for q, op in (("max_element", "<="), ("min_element", ">=")):
        v = q[:3]
        if not rev:
            EXT[q, rev] = t(q, q, R(rev), iter_params=IP, requires=[LIM],
              ensures=[("the first extreme element, or the end", "(first_0 = last_0 -> result = last_0) /\\ (first_0 < last_0 -> first_0 <= result < last_0 /\\ (forall k. first_0 <= k < last_0 -> get_i data k %s get_i data result) /\\ (forall k. first_0 <= k < result -> get_i data k <> get_i data result))" % op)],
              loops={1: dict(inv=[("extreme so far", "first_0 <= %(v)s_elem < first <= last /\\ %(v)s_value = get_i data %(v)s_elem /\\ (forall k. first_0 <= k < first -> get_i data k %(op)s %(v)s_value) /\\ (forall k. first_0 <= k < %(v)s_elem -> get_i data k <> %(v)s_value)" % dict(v=v, op=op))], variant="last - first")})
        else:
            EXT[q, rev] = t(q + "_reverse", q, R(rev), iter_params=IP, requires=RLIM[:1],
              ensures=[("the last extreme element, or the end", "(first_0 = last_0 -> result = last_0) /\\ (last_0 < first_0 -> last_0 < result <= first_0 /\\ (forall k. last_0 <= k < first_0 -> get_i data k %s get_i data (result - 1)) /\\ (forall k. result <= k < first_0 -> get_i data k <> get_i data (result - 1)))" % op)],
              loops={1: dict(inv=[("extreme so far", "last <= first < %(v)s_elem <= first_0 /\\ %(v)s_value = get_i data (%(v)s_elem - 1) /\\ (forall k. first <= k < first_0 -> get_i data k %(op)s %(v)s_value) /\\ (forall k. %(v)s_elem <= k < first_0 -> get_i data k <> %(v)s_value)" % dict(v=v, op=op))], variant="first - last")})
for rev in (False, True):
    for q, op, m in (("argmax", "<=", "max_element"), ("argmin", ">=", "min_element")):
        b, e = ("last_0", "first_0") if rev else ("first_0", "last_0")
        t(q + ("_reverse" if rev else ""), q, R(rev), iter_params=IP, requires=[("a valid non-empty range", "0 <= %s < %s <= len_i data" % (b, e)), ("below 2^50 elements", "%s - %s < size_limit" % (e, b))], contracts={D + m: contract_of(EXT[m, rev])},
          ensures=[("position of an extreme element, the %s one of equals" % ("last" if rev else "first"), "0 <= result < %s - %s /\\ (forall k. %s <= k < %s -> get_i data k %s get_i data (%s + result)) /\\ forall k. %s -> get_i data k <> get_i data (%s + result)" % (e, b, b, e, op, b, "%s + result < k < %s" % (b, e) if rev else "%s <= k < %s + result" % (b, b), b))])
t("contains", "contains", iter_params=IP, requires=[LIM], ensures=[("whether the value occurs", "result <-> exists k. first_0 <= k < last_0 /\\ get_i data k = val_")])
ACC = "(* the predicate passed by the caller: any pure function of the value *)\nval function accept (v: int) : bool\n"
PV = {"pred": lambda tr: ([], Obj("accept"))}
OC = {"accept": lambda tr, c, vs: T("(accept %s)" % par(tr.term(vs[0])), BOOL)}
FLT = lambda v: "(exists idx. inc idx %s /\\ (forall k. first_0 <= k < first /\\ accept (get_i data k) <-> exists j. 0 <= j < len_i idx /\\ get_i idx j = k))" % v
CNT = """
function count (r: seq_i) (lo hi: int) : int
axiom count_empty : forall r lo. count r lo lo = 0
axiom count_step : forall r lo hi [count r lo hi, get_i r hi]. lo <= hi -> count r lo (hi + 1) = count r lo hi + (if accept (get_i r hi) then 1 else 0)
"""
t("find_all", "find_all", types={"ValueType": SZ}, iter_params=IP, param_values=PV, obj_calls=OC, prelude=ACC + CNT, requires=[LIM, LIM2],
  ensures=[("as many as are accepted", "len_i result = count data first_0 last_0"), ("every accepted element, in its place among them", "forall k. first_0 <= k < last_0 -> accept (get_i data k) -> 0 <= count data first_0 k < len_i result /\\ get_i result (count data first_0 k) = get_i data k")],
  loops={1: dict(inv=[("position", "first_0 <= first <= last"), ("accepted so far", "len_i result_ = count data first_0 first /\\ len_i result_ <= first - first_0"), ("each in its place", "forall k. first_0 <= k < first -> accept (get_i data k) -> 0 <= count data first_0 k < len_i result_ /\\ get_i result_ (count data first_0 k) = get_i data k")], variant="last - first")})
FIRSTOF = lambda a: [("the first position, or nothing", "(result.has -> 0 <= result.val_ < len_i range_ /\\ %s /\\ forall k. 0 <= k < result.val_ -> not %s) /\\ (not result.has -> forall k. 0 <= k < len_i range_ -> not %s)" % (a("result.val_"), a("k"), a("k")))]
BIG = ("below 2^50 elements", "len_i range_ < size_limit")
t("index_of", "index_of", prelude="", requires=[BIG], ensures=FIRSTOF(lambda x: "(get_i range_ %s = val_)" % x))
t("find_index", "find_index", param_values=PV, obj_calls=OC, prelude=ACC, requires=[BIG], ensures=FIRSTOF(lambda x: "accept (get_i range_ %s)" % x))
t("find_indices", "find_indices", param_values=PV, obj_calls=OC, prelude=ACC + MEM, requires=[BIG],
  ensures=[("exactly the accepted positions", "forall k. mem result k <-> 0 <= k < len_i range_ /\\ accept (get_i range_ k)"), ("ascending", "forall i j. 0 <= i < j < len_i result -> get_i result i < get_i result j")],
  ghost={"loop1.body": "let ghost idx0 = indices in", "loop1.end": "assert { [@expl:positions found before remain] forall k. mem idx0 k -> mem indices k }; assert { [@expl:this position] accept (get_i range_ i) -> get_i indices (len_i indices - 1) = i };"},
  loops={1: dict(inv=[("ascending", "forall i j. 0 <= i < j < len_i indices -> get_i indices i < get_i indices j"), ("accepted positions", "forall j. 0 <= j < len_i indices -> 0 <= get_i indices j < i /\\ accept (get_i range_ (get_i indices j))"), ("no accepted position is missing", "forall k. 0 <= k < i -> accept (get_i range_ k) -> mem indices k")])})
t("erase_first", "erase_first_stable", prelude=MEM,
  ensures=[("whether it was there", "result <-> mem (old range_) value"), ("nothing else changes", "not result -> range_ = old range_"),
           ("the first one is removed, the others keep their order", "result -> exists p. 0 <= p < len_i (old range_) /\\ get_i (old range_) p = value /\\ (forall k. 0 <= k < p -> get_i (old range_) k <> value) /\\ len_i range_ = len_i (old range_) - 1 /\\ (forall k. 0 <= k < p -> get_i range_ k = get_i (old range_) k) /\\ (forall k. p <= k < len_i range_ -> get_i range_ k = get_i (old range_) (k + 1))")])
t("select", "select", prelude="", requires=[("the indices are in range", "forall k. 0 <= k < len_i indices_0 -> 0 <= get_i indices_0 k < len_i container")],
  ensures=[("the named elements in the order of the indices", "len_i result = len_i indices_0 /\\ forall k. 0 <= k < len_i indices_0 -> get_i result k = get_i container (get_i indices_0 k)")],
  loops={1: dict(inv=[("so far", "len_i selected = idx__i /\\ forall k. 0 <= k < idx__i -> get_i selected k = get_i container (get_i indices k)")])})
for q, c in (("elementwise_min", "d_lt (get_d right k) (get_d (old left) k)"), ("elementwise_max", "d_lt (get_d (old left) k) (get_d right k)")):
    EW = lambda e: "forall k. 0 <= k < %s -> get_d left k = (if %s then get_d right k else get_d (old left) k)" % (e, c)
    t(q, q, prelude="", requires=[("rows of one length", "len_d left = len_d right")], ensures=[("the smaller or larger one at every position", "len_d left = len_d (old left) /\\ " + EW("len_d left"))],
      loops={1: dict(inv=[("visited", EW("i")), ("the rest is unchanged", "forall k. i <= k < len_d left -> get_d left k = get_d (old left) k")])})
AR = ["first", "second", "rest"]
for n in (2, 3):
    for q, op in (("max", ">="), ("min", "<=")):
        t("%s%d" % (q, n), q, (lambda n: lambda f: f.type.count("&") == n + 1)(n), prelude="", ensures=[("one of the arguments", " \\/ ".join("result = %s" % a for a in AR[:n])), ("none is beyond it", " /\\ ".join("result %s %s" % (op, a) for a in AR[:n]))])
SWP = """
predicate swapped (s u: seq_i) (i j: int) = len_i u = len_i s /\\ get_i u i = get_i s j /\\ get_i u j = get_i s i /\\ forall k. 0 <= k < len_i s -> k <> i -> k <> j -> get_i u k = get_i s k
(* u is s after any number of exchanges inside lo..hi-1 *)
inductive rearr (s u: seq_i) (lo hi: int) = Same : forall s lo hi. rearr s s lo hi | Swap : forall s u w lo hi i j. rearr s u lo hi -> lo <= i < hi -> lo <= j < hi -> swapped u w i j -> rearr s w lo hi
"""
t("partial_shuffle", "partial_shuffle", iter_params={k: ("data", True) for k in IP}, prelude=SWP, requires=[("a valid range", "0 <= first_0 <= middle_0 <= last_0 <= len_i data"), LIM2],
  ensures=[("a rearrangement of the range", "rearr (old data) data first_0 last_0"), ("the rest is unchanged", "len_i data = len_i (old data) /\\ forall k. 0 <= k < len_i data -> k < first_0 \\/ last_0 <= k -> get_i data k = get_i (old data) k")],
  ghost={"loop1.body": "let ghost d0 = data in let ghost f0 = first in", "loop1.end": "assert { [@expl:one exchange inside of the rest of the range] exists j. f0 <= j < last /\\ swapped d0 data f0 j };"},
  loops={1: dict(inv=[("position", "first_0 <= first <= middle"), ("so far", "rearr (old data) data first_0 last_0"), ("the rest is unchanged", "len_i data = len_i (old data) /\\ forall k. 0 <= k < len_i data -> k < first_0 \\/ last_0 <= k -> get_i data k = get_i (old data) k")], variant="middle - first")})
HARNESS = dict(src=["c19.cpp"], lib=True, asan=True, secs=8, secs_thorough=60)

from common import *
from contracts import contract_of
import theory, lemmas, c07, c08
PROP = "C09"
G = "gapp::algorithm::dtl::"
TU = drv("nd_sort.cpp")
TARGETS = []
CON = c08.CON
MF = lambda s: (lambda f: s in f.type)
FM = {"first": ("fmat", False), "last": ("fmat", False)}


def t(name, q, m=lambda f: True, **kw):
    TARGETS.append(dict(dict(name=name, tu=TU, dbl=True, qname=G + q, match=m, prelude=c08.DOM, contracts=CON), **kw))
    return TARGETS[-1]


t("ens_order", "efficientNonDominatedSort", **{"lambda": 1}, prelude=c08.LEX, contracts={}, requires=[c08.ROWS], ensures=[("lexicographic order, larger first", "result <-> lexgt lhs rhs")],
  loops={1: dict(inv=[("equal so far", "forall j. 0 <= j < i -> d_eq (get_d lhs j) (get_d rhs j)")])})
FE = "seq_frontelement"
NDS = """
predicate wf (m: seq_sd) (f a b: int) = worse (get_sd m (f + a)) (get_sd m (f + b))
predicate transf (m: seq_sd) (f n: int) = forall a b c. 0 <= a < n -> 0 <= b < n -> 0 <= c < n -> wf m f a b -> wf m f b c -> wf m f a c
function ix (s: seq_frontelement) (k: int) : int = (get_frontelement s k).frontelement_idx
function rk (s: seq_frontelement) (k: int) : int = (get_frontelement s k).frontelement_rank
predicate isat (s: seq_frontelement) (k: int) = 0 <= k < len_frontelement s
predicate srt (s: seq_frontelement) = (forall j k. isat s j -> isat s k -> j <= k -> rk s j <= rk s k) /\\ (forall k. isat s k -> 0 <= rk s k)
predicate rows (s: seq_frontelement) (n: int) = (forall k. isat s k -> 0 <= ix s k < n) /\\ (forall j k. isat s j -> isat s k -> j <> k -> ix s j <> ix s k)
predicate above (m: seq_sd) (f: int) (s: seq_frontelement) = forall j k. isat s j -> isat s k -> wf m f (ix s j) (ix s k) -> rk s j > rk s k
predicate witn (m: seq_sd) (f: int) (s: seq_frontelement) (x r: int) = exists j. isat s j /\\ rk s j = r /\\ wf m f x (ix s j)
predicate tight (m: seq_sd) (f: int) (s: seq_frontelement) = forall k. isat s k -> rk s k > 0 -> witn m f s (ix s k) (rk s k - 1)
predicate ranked (m: seq_sd) (f n: int) (s: seq_frontelement) = srt s /\\ rows s n /\\ above m f s /\\ tight m f s
predicate visited (idx: seq_i) (s: seq_frontelement) (q: int) = forall k. isat s k -> inv_i idx (ix s k) < q
predicate inserted (s s': seq_frontelement) (p: int) (v: frontelement) = 0 <= p <= len_frontelement s /\\ len_frontelement s' = len_frontelement s + 1 /\\ get_frontelement s' p = v /\\ (forall k. 0 <= k < p -> get_frontelement s' k = get_frontelement s k) /\\ (forall k. p < k < len_frontelement s' -> get_frontelement s' k = get_frontelement s (k - 1))
predicate split (s: seq_frontelement) (p r: int) = 0 <= r /\\ 0 <= p <= len_frontelement s /\\ (forall k. 0 <= k < p -> rk s k < r) /\\ (forall k. p <= k < len_frontelement s -> rk s k >= r)
predicate lowr (s: seq_frontelement) = forall k. isat s k -> rk s k <= k
predicate free (m: seq_sd) (f: int) (s: seq_frontelement) (x r: int) = forall k. isat s k -> rk s k = r -> not (wf m f x (ix s k))
predicate later (m: seq_sd) (f: int) (s: seq_frontelement) (x: int) = forall k. isat s k -> not (wf m f (ix s k) x) /\\ ix s k <> x
"""
INSERT = """ insert_ranked (m: seq_sd) (f n: int) (s s': seq_frontelement) (p: int) (v: frontelement) : unit
  requires { transf m f n /\\ ranked m f n s /\\ inserted s s' p v /\\ 0 <= v.frontelement_idx < n /\\ split s p v.frontelement_rank }
  requires { free m f s v.frontelement_idx v.frontelement_rank /\\ later m f s v.frontelement_idx /\\ (v.frontelement_rank > 0 -> witn m f s v.frontelement_idx (v.frontelement_rank - 1)) }
  ensures { ranked m f n s' }
"""
SQ = lambda a, b: theory.SEQ.replace("@", a).replace("$", b)
TARGETS.append(lemmas.lemma("ranked_insertion", c08.theory_dbl() + SQ("d", "dbl") + SQ("sd", "seq_d") + SQ("i", "int") + "type frontelement = { frontelement_idx: int; frontelement_rank: int }\n" + SQ("frontelement", "frontelement") + lemmas.PERM_AX + c08.DOM + NDS + """
let rec lemma chain (m: seq_sd) (f n: int) (s: seq_frontelement) (x k r: int)
  requires { transf m f n /\\ rows s n /\\ srt s /\\ tight m f s /\\ isat s k /\\ 0 <= x < n /\\ wf m f x (ix s k) /\\ 0 <= r <= rk s k }
  ensures { witn m f s x r }
  variant { rk s k }
= if r < rk s k then begin
    assert { witn m f s (ix s k) (rk s k - 1) };
    assert { witn m f s x (rk s k - 1) };
    let ghost ref j = any int ensures { isat s result /\\ rk s result = rk s k - 1 /\\ wf m f x (ix s result) } in
    chain m f n s x j r
  end
let lemma""".replace("let ghost ref j = any int ensures", "let ghost j = any int ensures") + INSERT + """= let x = v.frontelement_idx in let r = v.frontelement_rank in
  assert { forall k. isat s k -> wf m f x (ix s k) -> rk s k >= r -> witn m f s x r };
  assert { forall k. isat s k -> wf m f x (ix s k) -> rk s k < r };
  assert { forall k. isat s' k -> k < p -> isat s k /\\ get_frontelement s' k = get_frontelement s k };
  assert { forall k. isat s' k -> k > p -> isat s (k - 1) /\\ get_frontelement s' k = get_frontelement s (k - 1) };
  assert { forall k. isat s' k -> (k = p /\\ get_frontelement s' k = v) \\/ (exists j. isat s j /\\ get_frontelement s' k = get_frontelement s j) };
  assert { forall j. isat s j -> j < p -> isat s' j /\\ get_frontelement s' j = get_frontelement s j };
  assert { forall j. isat s j -> j >= p -> isat s' (j + 1) /\\ get_frontelement s' (j + 1) = get_frontelement s j };
  assert { forall j. isat s j -> exists k. isat s' k /\\ get_frontelement s' k = get_frontelement s j };
  assert { srt s' };
  assert { rows s' n };
  assert { above m f s' };
  assert { forall y q. witn m f s y q -> witn m f s' y q };
  assert { tight m f s' }
"""))
NPRE = [c08.SEP, ("a range of rows", "0 <= first_0 <= last_0 <= len_sd fmat")]
NPOST = [("every row of the range once", "len_frontelement result = last_0 - first_0 /\\ rows result (last_0 - first_0)"), ("ordered by rank", "srt result"),
         ("a dominated row has a larger rank than the rows dominating it", "above fmat first_0 result"),
         ("a row of a rank above 0 is dominated by a row of the rank below", "tight fmat first_0 result"), ("ranks are not larger than the positions", "lowr result")]
PF, OI = "pareto_fronts", "indices__3"
VIS = ("the visited rows are ranked", "ranked fmat first (last - first) pareto_fronts /\\ len_frontelement pareto_fronts = idx__i /\\ visited indices__3 pareto_fronts idx__i /\\ lowr pareto_fronts")
ENS = t("ens", "efficientNonDominatedSort", iter_params=FM, lambda_pure={1: c08.lex}, prelude=c08.BEST + c08.ORD + NDS + "val" + INSERT, requires=NPRE, ensures=NPOST,
  loops={1: dict(inv=[VIS]),
         2: dict(inv=[("position of the front", "split pareto_fronts front_first rank"), ("ranks are below the positions", "rank <= front_first"), ("dominated by the front before", "rank > 0 -> witn fmat first pareto_fronts idx (rank - 1)")], variant="len_frontelement pareto_fronts - front_first")},
  ghost={"loop1.before": "assert { [@expl:order is a permutation] perm indices__3 /\\ len_i indices__3 = last - first };"
           " assert { [@expl:no row is dominated by a later one] forall p q. 0 <= p < q < len_i indices__3 -> not (wf fmat first (get_i indices__3 p) (get_i indices__3 q)) }; assert { [@expl:dominance is transitive on the range] transf fmat first (last - first) };",
         "loop2.after": "let ghost pf0 = pareto_fronts in let ghost v0 = { frontelement_idx = idx; frontelement_rank = rank } in assert { [@expl:no row of the front dominates this one] free fmat first pf0 idx rank }; assert { [@expl:it is not dominating a ranked one] later fmat first pf0 idx };",
         "loop1.end": "assert { [@expl:the element is inserted] inserted pf0 pareto_fronts front_first v0 }; insert_ranked fmat first (last - first) pf0 pareto_fronts front_first v0;"})
RK = """
function ix (s: seq_frontelement) (k: int) : int = (get_frontelement s k).frontelement_idx
function rk (s: seq_frontelement) (k: int) : int = (get_frontelement s k).frontelement_rank
predicate isat (s: seq_frontelement) (k: int) = 0 <= k < len_frontelement s
predicate srt (s: seq_frontelement) = (forall j k. isat s j -> isat s k -> j <= k -> rk s j <= rk s k)
predicate rows (s: seq_frontelement) (n: int) = (forall k. isat s k -> 0 <= ix s k < n) /\\ (forall j k. isat s j -> isat s k -> j <> k -> ix s j <> ix s k)
"""
EL = "this_.paretofronts_elements_"
m = lambda nm, **kw: t(nm, "ParetoFronts::" + kw.pop("fn", nm), contracts={}, prelude=RK, **kw)
SRT = ("elements are ordered by rank", "srt %s" % EL)
m("resize", requires=[("not larger", "0 <= new_size_0 <= len_frontelement " + EL)], ensures=[("the first elements are kept", "len_frontelement %s = new_size_0 /\\ forall k. 0 <= k < new_size_0 -> get_frontelement %s k = get_frontelement (old %s) k" % (EL, EL, EL))])
m("ranks", requires=[("every row once", "rows %s (len_frontelement %s)" % (EL, EL))], ensures=[("the rank of every element, at its index", "len_i result = len_frontelement %s /\\ forall k. isat %s k -> get_i result (ix %s k) = rk %s k" % (EL, EL, EL, EL))],
  loops={1: dict(inv=[("the visited elements", "len_i ranks = len_frontelement %s /\\ forall k. 0 <= k < elem__i -> get_i ranks (ix %s k) = rk %s k" % (EL, EL, EL))])})
SRT2 = [SRT, ("ranks are not negative", "forall k. isat %s k -> 0 <= rk %s k" % (EL, EL))]
IB = dict(iter_base=EL, types={"iterator": Ty("iter", Ty("rec", "frontelement"))})
LE = "len_frontelement " + EL
RK2 = """
function lo (r: seq_paretofrontsrange) (i: int) : int = (get_paretofrontsrange r i).paretofrontsrange_first_
function hi (r: seq_paretofrontsrange) (i: int) : int = (get_paretofrontsrange r i).paretofrontsrange_last_
predicate one_rank (s: seq_frontelement) (a b: int) = 0 <= a < b <= len_frontelement s /\\ (forall j k. a <= j < b -> a <= k < b -> rk s j = rk s k) /\\ (b = len_frontelement s \\/ rk s a <> rk s b)
predicate tiles (s: seq_frontelement) (r: seq_paretofrontsrange) (e: int) = (forall i. 0 <= i < len_paretofrontsrange r -> one_rank s (lo r i) (hi r i)) /\\ (forall i. 0 < i < len_paretofrontsrange r -> lo r i = hi r (i - 1)) /\\ (if len_paretofrontsrange r = 0 then e = 0 else lo r 0 = 0 /\\ hi r (len_paretofrontsrange r - 1) = e)
"""
m("fronts", **IB, requires=SRT2 + [("not empty", LE + " > 0"), ("ranks fit", "forall k. isat %s k -> rk %s k < size_limit" % (EL, EL))], ensures=[("consecutive ranges of equal rank, the next one of another rank, covering all elements", "tiles %s result (%s)" % (EL, LE)), ("the elements are not changed", "%s = old %s" % (EL, EL))],
  loops={1: dict(inv=[("fronts so far", "tiles %s fronts front_first /\\ 0 <= front_first <= it <= %s /\\ front_first < %s" % (EL, LE, LE)), ("one rank since the start of the front", "forall k. front_first <= k < it -> rk %s k = rk %s front_first" % (EL, EL)), ("unchanged", "%s = this0" % EL)], variant=LE + " - it")},
  ghost={"entry": "let ghost this0 = %s in" % EL, "loop1.body": "let ghost fr0 = fronts in", "loop1.end": "assert { [@expl:a front is added at its end] tiles %s fronts front_first };" % EL})
TARGETS[-1]["prelude"] = RK + RK2
cut = "rk %s (size_0 - 1) = rk %s size_0" % (EL, EL)
m("partial_front", fn="partialFront", **IB, requires=SRT2 + [("a proper size", "0 < size_0 <= " + LE)], ensures=[("the front that the first elements cut", "size_0 < %s -> %s -> result.paretofrontsrange_first_ < size_0 < result.paretofrontsrange_last_ <= %s /\\ 0 <= result.paretofrontsrange_first_ /\\ forall k. isat %s k -> (result.paretofrontsrange_first_ <= k < result.paretofrontsrange_last_ <-> rk %s k = rk %s size_0)" % (LE, cut, LE, EL, EL, EL)),
  ("empty when they end between two fronts", "size_0 = %s \\/ not (%s) -> result.paretofrontsrange_first_ = result.paretofrontsrange_last_ /\\ (size_0 < %s -> result.paretofrontsrange_first_ = size_0)" % (LE, cut, LE)), ("a valid range, the elements are not changed", "0 <= result.paretofrontsrange_first_ <= result.paretofrontsrange_last_ <= %s /\\ %s = old %s" % (LE, EL, EL))])
UT = [Ty("seq", SZ)]
ND = t("nds", "nonDominatedSort", MF("const_iterator"), iter_params=FM, prelude=c08.BEST + c08.ORD + NDS, contracts={G + "efficientNonDominatedSort": contract_of(ENS)}, use_types=UT, requires=NPRE + [("at least one row", "first_0 < last_0")], ensures=[(a, b.replace("result", "result.paretofronts_elements_")) for a, b in NPOST])
t("ndsm", "nonDominatedSort", lambda f: "const_iterator" not in f.type, contracts={G + "nonDominatedSort": contract_of(ND)}, prelude=c08.BEST + c08.ORD + NDS, use_types=UT, requires=[c08.SEP, ("at least one row", "len_sd fmat > 0")], ensures=[(a, b.replace("last_0 - first_0", "len_sd fmat").replace("first_0", "0").replace("result", "result.paretofronts_elements_")) for a, b in NPOST])
BOUNDED = ["fastNonDominatedSort", "dominanceDegreeSort"]
HARNESS = dict(src=["c09.cpp"], lib=True, asan=True, secs=12, secs_thorough=90)

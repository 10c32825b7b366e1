from common import *
from fp import facts
from contracts import contract_of
import theory
PROP = "C07"


def theory_dbl():
    return theory.BASE + theory.DBL
G = "gapp::math::"
TU = drv("math.cpp")
db = lambda f: "(double" in f.type
GL = dict(globals={"absolute_tolerance": lambda tr: T("abs_tol", DBL), "relative_tolerance": lambda tr: T("rel_tol", DBL)})
TOL = "val constant abs_tol : dbl\nval constant rel_tol : dbl\naxiom tol_ax : d_finite abs_tol /\\ d_rk d_zero <= d_rk abs_tol /\\ d_finite rel_tol /\\ d_rk d_zero <= d_rk rel_tol <= d_rk (d_of_int 1)\n"

DEF = TOL + """
(* documented meaning of the tolerant comparisons: exact order when an operand is infinite, otherwise the difference is compared with max(relative tolerance * larger magnitude, absolute tolerance) *)
function dmx (x y: dbl) : dbl = if d_lt x y then y else x
function tolr (a b: dbl) : dbl = dmx (d_mul rel_tol (dmx (d_abs a) (d_abs b))) abs_tol
predicate inf2 (a b: dbl) = d_eq (dmx (d_abs a) (d_abs b)) d_inf
predicate flt (a b: dbl) = if inf2 a b then d_lt a b else d_lt (tolr a b) (d_sub b a)
predicate feq (a b: dbl) = if inf2 a b then d_eq a b else d_le (d_abs (d_sub a b)) (tolr a b)
"""
LAWS = """
axiom flt_lt : forall a b. d_is_num a -> d_is_num b -> flt a b -> d_rk a < d_rk b
axiom flt_feq : forall a b [feq a b]. d_is_num a -> d_is_num b -> (feq a b <-> not (flt a b) /\\ not (flt b a))
"""
FN = "sub_pos sub_neg sub_num sub_num2 abs abs_fin mul_le x_sub_spos_inv sub_abs_sym x_abs_eq x_abs_cases x_abs_inf x_neg_flip x_sub_inf x_ninf neg neg_fin"
FA, FL = facts(FN)
NUMS = ("operands are not NaN", "d_is_num lhs_0 /\\ d_is_num rhs_0")
LEMMA = dict(name="lemma_comparisons", lemma=theory_dbl() + DEF + FA + """
goal less_is_ordered: forall a b. d_is_num a -> d_is_num b -> flt a b -> d_rk a < d_rk b
goal never_both: forall a b. d_is_num a -> d_is_num b -> flt a b -> not (flt b a)
goal trichotomy: forall a b. d_is_num a -> d_is_num b -> (feq a b <-> not (flt a b) /\\ not (flt b a))
goal symmetric: forall a b. d_is_num a -> d_is_num b -> feq a b -> feq b a
goal reflexive: forall a. d_is_num a -> feq a a
""")
TARGETS = [FL, LEMMA]


def t(name, q, m=lambda f: True, **kw):
    TARGETS.append(dict(dict(name=name, tu=TU, dbl=True, qname=G + q, match=m, prelude=DEF, **GL), **kw))
    return TARGETS[-1]


CON = {}
for f, e in (("floatIsEqual", "result <-> feq lhs_0 rhs_0"), ("floatIsLess", "result <-> flt lhs_0 rhs_0"), ("floatIsLessAssumeNotGreater", "result <-> flt lhs_0 rhs_0"),
             ("floatIsGreater", "result <-> flt rhs_0 lhs_0"), ("floatIsLessEq", "result <-> not (flt rhs_0 lhs_0)"), ("floatIsGreaterEq", "result <-> not (flt lhs_0 rhs_0)")):
    CON[G + f] = contract_of(t(f, f, db, requires=[NUMS], ensures=[("the documented comparison", e)], prelude=DEF + FA))
CON[G + "floatCompare"] = contract_of(t("floatCompare", "floatCompare", db, prelude=DEF + FA, requires=[NUMS], ensures=[("three-way comparison: -1 less, 1 greater, 0 equivalent", "(result = -1 \\/ result = 0 \\/ result = 1) /\\ (result = -1 <-> flt lhs_0 rhs_0) /\\ (result = 1 <-> flt rhs_0 lhs_0)")]))
VNUM = [("equal lengths", "len_d lhs_0 = len_d rhs_0"), ("no NaN", "forall i. 0 <= i < len_d lhs_0 -> d_is_num (get_d lhs_0 i) /\\ d_is_num (get_d rhs_0 i)")]
PAR = DEF + """
predicate worse_at (a b: seq_d) (i: int) = flt (get_d a i) (get_d b i)
predicate ncworse (a b: seq_d) = (forall i. 0 <= i < len_d a -> not (worse_at b a i)) /\\ (exists i. 0 <= i < len_d a /\\ worse_at a b i)
"""
ASYM = "axiom flt_asym : forall a b [flt a b, flt b a]. d_is_num a -> d_is_num b -> flt a b -> not (flt b a)\n"
t("paretoCompareLess", "paretoCompareLess", prelude=PAR, contracts=CON, requires=VNUM, ensures=[("lhs is dominated: nowhere greater and somewhere less", "result <-> ncworse lhs_0 rhs_0")],
  loops={1: dict(inv=[("no objective of lhs so far is greater", "forall k. 0 <= k < i -> not (worse_at rhs lhs k)")]),
         2: dict(inv=[("no objective of lhs is greater, none so far is less", "(forall k. 0 <= k < len_d lhs -> not (worse_at rhs lhs k)) /\\ (forall k. 0 <= k < i__2 -> not (worse_at lhs rhs k))")])})
t("paretoCompare", "paretoCompare", prelude=PAR + ASYM, contracts=CON, requires=VNUM, ensures=[("-1 iff lhs is dominated, 1 iff rhs is dominated, else 0", "(result = -1 \\/ result = 0 \\/ result = 1) /\\ (result = -1 <-> ncworse lhs_0 rhs_0) /\\ (result = 1 <-> ncworse rhs_0 lhs_0)")],
  loops={1: dict(inv=[("flags", "(lhs_has_lower = 0 \\/ lhs_has_lower = 1) /\\ (rhs_has_lower = 0 \\/ rhs_has_lower = 1) /\\ lhs_has_lower + rhs_has_lower <= 1"),
                      ("lhs_has_lower: some objective so far is less", "lhs_has_lower = 1 <-> exists k. 0 <= k < i /\\ worse_at lhs rhs k"), ("rhs_has_lower: some objective so far is greater", "rhs_has_lower = 1 <-> exists k. 0 <= k < i /\\ worse_at rhs lhs k")])})
t("floatVecIsEqual", "floatVecIsEqual", contracts={G + "floatIsEqual": lambda tr, fn, o, vs, n: T("(feq (%s) (%s))" % (tr.coerce(vs[0], DBL).term, tr.coerce(vs[1], DBL).term), Ty("bool"))},
  requires=[("no NaN", "forall i. 0 <= i < len_d lhs_0 -> d_is_num (get_d lhs_0 i)"), ("no NaN in rhs", "forall i. 0 <= i < len_d rhs_0 -> d_is_num (get_d rhs_0 i)")],
  ensures=[("equal lengths and elementwise equivalent", "result <-> len_d lhs_0 = len_d rhs_0 /\\ forall i. 0 <= i < len_d lhs_0 -> feq (get_d lhs_0 i) (get_d rhs_0 i)")])
PLAWS = """
axiom flt_asym : forall a b [flt a b, flt b a]. d_is_num a -> d_is_num b -> flt a b -> not (flt b a)
predicate nums (a: seq_d) = forall i. 0 <= i < len_d a -> d_is_num (get_d a i)
goal dominance_irreflexive: forall a. nums a -> not (ncworse a a)
goal dominance_asymmetric: forall a b. nums a -> nums b -> len_d a = len_d b -> ncworse a b -> not (ncworse b a)
"""
TARGETS.append(dict(name="lemma_dominance", lemma=theory_dbl() + theory.SEQ.replace("@", "d").replace("$", "dbl") + PAR + PLAWS))
HARNESS = dict(src=["c07.cpp"], lib=True, secs=12, secs_thorough=60)

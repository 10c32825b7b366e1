import re
from common import *
from fp import facts
from contracts import contract_of
import theory, lemmas, c08, c09, c14, c19
PROP = "C11"
A = "gapp::algorithm::"
TU = drv("nsga.cpp")
TARGETS = []
CON = {"gapp::detail::maxFitness": contract_of(c08.MAXF)} if hasattr(c08, "MAXF") else {}
def par_each(tr, fn, o, vs, n):
    a, b, f = vs[0], vs[1], vs[-1]
    tr.models.use(tr, "parallel_for of independent iterations: one call for every element, in turn")
    return tr.models.std_for_each(tr, [a, b, f], n)


def t(name, q, **kw):
    TARGETS.append(dict(dict(name=name, tu=TU, dbl=True, qname=A + q, prelude="\n"), **kw))
    return TARGETS[-1]


# ---- NSGA-II
R2, D2 = "this_.nsga2_ranks_", "this_.nsga2_dists_"
t("nsga2_select", "NSGA2::selectImpl", params=["ga", "fmat"], models=RNG, requires=[("the population was initialised", "0 < len_sd fmat /\\ len_i %s = len_sd fmat /\\ len_d %s = len_sd fmat" % (R2, D2))],
  ensures=[("an index of the population", "0 <= result < len_sd fmat")],
  ghost={"exit": "assert { [@expl:the better of the two drawn candidates] (res_ = idx1 \\/ res_ = idx2) /\\ forall o. (o = idx1 \\/ o = idx2) -> get_i %s res_ <= get_i %s o /\\ (get_i %s res_ = get_i %s o -> not (d_lt (get_d %s res_) (get_d %s o))) };" % (R2, R2, R2, R2, D2, D2)})
ZERO = lambda s, n: "(forall k. 0 <= k < len_i indices -> 0 <= get_i indices k < %s /\\ get_i %s (get_i indices k) = 0) /\\ (forall p. 0 <= p < %s -> get_i %s p = 0 -> mem indices p) /\\ (forall i j. 0 <= i < j < len_i indices -> get_i indices i < get_i indices j)" % (n, s, n, s)
MEM = "predicate mem (r: seq_i) (v: int) = exists k. 0 <= k < len_i r /\\ get_i r k = v\n"
t("nsga2_optimal", "NSGA2::optimalSolutionsImpl", params=["ga"], prelude=MEM, loops={1: dict(inv=[("so far", ZERO(R2, "i"))])}, ghost={"loop1.body": "let ghost ix0 = indices in let ghost i0 = i in", "loop1.end": "assert { [@expl:kept] forall p. mem ix0 p -> mem indices p }; assert { [@expl:added] get_i %s i0 = 0 -> len_i indices > 0 /\\ get_i indices (len_i indices - 1) = i0 /\\ mem indices i0 };" % R2}, ensures=[("exactly the candidates of rank 0", "(forall k. 0 <= k < len_i result -> 0 <= get_i result k < len_i %s /\\ get_i %s (get_i result k) = 0) /\\ (forall p. 0 <= p < len_i %s -> get_i %s p = 0 -> exists k. 0 <= k < len_i result /\\ get_i result k = p)" % (R2, R2, R2, R2)),
  ("each once", "forall i j. 0 <= i < j < len_i result -> get_i result i < get_i result j")])
# ---- NSGA-III
I = "NSGA3::Impl::"
WV = t("weight_vector", "weightVector", prelude="predicate axisw (w: seq_d) (n a: int) = len_d w = n /\\ forall k. 0 <= k < n -> get_d w k = if k = a then d_of_int 1 else d_c_1e_06\n", requires=[("a valid axis", "axis_0 < dimensions_0")], ensures=[("one on the axis, nearly zero elsewhere", "axisw result dimensions_0 axis_0")])

NREQ = ("points of one size", "len_d ideal_point_0 = len_d fvec_0 = len_d nadir_point_0")
t("asf", "ASF", requires=[("points of one size, not empty", "0 < len_d ideal_point_0 = len_d weights_0 = len_d fitness_0"), ("the weighted differences are numbers", "forall i. 0 <= i < len_d fitness_0 -> d_is_num (d_div (d_sub (get_d ideal_point_0 i) (get_d fitness_0 i)) (get_d weights_0 i))")],
  prelude="function wd (a w f: seq_d) (i: int) : dbl = d_div (d_sub (get_d a i) (get_d f i)) (get_d w i)\npredicate attained (a w f: seq_d) (n: int) (d: dbl) = exists j. 0 <= j < n /\\ d_rk (wd a w f j) = d_rk d\naxiom fp_ninf : forall x [d_rk x]. d_is_num x -> d_rk (d_neg d_inf) <= d_rk x\naxiom neg_inf : d_is_num (d_neg d_inf)\n",
  loops={1: dict(inv=[("largest so far", "d_is_num dmax /\\ (forall j. 0 <= j < i -> d_rk (wd ideal_point weights fitness j) <= d_rk dmax) /\\ (i = 0 -> dmax = d_neg d_inf) /\\ (i > 0 -> attained ideal_point weights fitness i dmax)")])}, ghost={"loop1.body": "let ghost d0 = dmax in let ghost i0 = i in", "loop1.end": "assert { [@expl:the larger one] dmax = d0 \\/ dmax = wd ideal_point weights fitness i0 }; assert { [@expl:not below] d_is_num (wd ideal_point weights fitness i0) /\\ d_rk (wd ideal_point weights fitness i0) <= d_rk dmax /\\ d_rk d0 <= d_rk dmax }; assert { [@expl:kept] i0 > 0 -> attained ideal_point weights fitness i0 d0 }; assert { [@expl:attained before or here] (i0 > 0 /\\ dmax = d0) \\/ d_rk (wd ideal_point weights fitness i0) = d_rk dmax }; assert { [@expl:attained] attained ideal_point weights fitness (i0 + 1) dmax };"},
  ensures=[("the largest weighted difference to the ideal point", "d_is_num result /\\ (forall j. 0 <= j < len_d fitness_0 -> d_rk (wd ideal_point_0 weights_0 fitness_0 j) <= d_rk result) /\\ (exists j. 0 <= j < len_d fitness_0 /\\ d_rk (wd ideal_point_0 weights_0 fitness_0 j) = d_rk result)")])
NRM = "d_div (d_sub (get_d %s j) (get_d %s j)) (let d = d_sub (get_d %s j) (get_d %s j) in if d_lt d d_c_1e_08 then d_c_1e_08 else d)"
t("normalize", "normalizeFitnessVec", requires=[NREQ], ensures=[("the distance to the ideal point relative to the nadir point", "len_d result = len_d fvec_0 /\\ forall j. 0 <= j < len_d fvec_0 -> get_d result j = " + NRM % ("ideal_point_0", "fvec_0", "ideal_point_0", "nadir_point_0"))],
  loops={1: dict(inv=[("so far", "len_d fnorm = len_d fvec /\\ forall j. 0 <= j < i -> get_d fnorm j = " + NRM % ("ideal_point", "fvec", "ideal_point", "nadir_point"))])})
IM = dict(this_type="gapp::algorithm::NSGA3::Impl", aliases={"CandidateInfo": "gapp::algorithm::NSGA3::Impl::CandidateInfo", "Impl::CandidateInfo": "gapp::algorithm::NSGA3::Impl::CandidateInfo"})
FM = dict(iter_params={"first": ("fmat", False), "last": ("fmat", False)})

ID, EXP, ND_, RL = (("this_.impl_%s_" % x) for x in ("ideal_point", "extreme_points", "nadir_point", "ref_lines"))
same = lambda *fs: ("nothing else changes", " /\\ ".join("%s = old %s" % (f, f) for f in fs))
SQ_ = c09.SQ
SI, NC = "this_.impl_sol_info_", "this_.impl_niche_counts_"
NIT = """
function rf (s: seq_candidateinfo) (e: seq_frontelement) (k: int) : int = (get_candidateinfo s (get_frontelement e k).frontelement_idx).candidateinfo_ref_idx
function rd (s: seq_candidateinfo) (e: seq_frontelement) (k: int) : dbl = (get_candidateinfo s (get_frontelement e k).frontelement_idx).candidateinfo_ref_dist
predicate infos (s: seq_candidateinfo) (e: seq_frontelement) (m: int) = forall k. 0 <= k < len_frontelement e -> 0 <= (get_frontelement e k).frontelement_idx < len_candidateinfo s /\\ 0 <= rf s e k < m
"""
UT = [Ty("seq", SZ)]
INF = lambda e="pareto_fronts_0": ("the candidates are associated with reference lines", "infos %s %s (len_i %s)" % (SI, e, NC))
CNT = NIT + """
function cnt (s: seq_candidateinfo) (e: seq_frontelement) (r n: int) : int
axiom cnt_0 : forall s e r. cnt s e r 0 = 0
axiom cnt_s : forall s e r n [cnt s e r n]. n > 0 -> cnt s e r n = cnt s e r (n - 1) + (if rf s e (n - 1) = r then 1 else 0)
axiom cnt_b : forall s e r n [cnt s e r n]. n >= 0 -> 0 <= cnt s e r n <= n
"""
t("recalc", I + "recalcNicheCounts", **IM, prelude=CNT, requires=[INF()], ensures=[("the number of candidates at every reference line", "len_i %s = len_i (old %s) /\\ forall r. 0 <= r < len_i %s -> get_i %s r = cnt (old %s) pareto_fronts_0 r (len_frontelement pareto_fronts_0)" % (NC, NC, NC, NC, SI)), ("associations unchanged", "%s = old %s" % (SI, SI)), same(ID, EXP, ND_, RL)],
  ghost={"entry": "let ghost si0 = %s in let ghost n0 = len_i %s in" % (SI, NC)},
  loops={1: dict(inv=[("counted so far", "%s = si0 /\\ len_i %s = n0 /\\ forall r. 0 <= r < n0 -> get_i %s r = cnt si0 pareto_fronts r for_each__i" % (SI, NC, NC))])})
g_ = lambda x, f: "(get_candidateinfo %s %s).candidateinfo_%s" % (SI, x, f)
t("niched", I + "nichedCompare", models=RNG, **IM, requires=[("valid candidates", "lhs_0 < len_candidateinfo %s /\\ rhs_0 < len_candidateinfo %s" % (SI, SI))],
  ensures=[("within a niche the better rank, then the smaller distance wins", "%s = %s -> (result <-> %s < %s \\/ (%s = %s /\\ d_lt (%s) (%s)))" % tuple(g_(x, f) for f in ("ref_idx", "rank", "rank", "ref_dist") for x in ("lhs_0", "rhs_0")))])
t("refset", I + "referenceSetOf", **IM, use_types=UT, prelude=NIT + MEM, contracts={"gapp::detail::erase_duplicates": contract_of(c19.ERASE_DUP)}, requires=[INF()], after_perm=c19.PERM_MEM,
  ghost={"entry": "let ghost si0 = %s in let ghost nc0 = %s in" % (SI, NC), "before_call:erase_duplicates": "assert { [@expl:the lines of the candidates] forall k. 0 <= k < len_frontelement pareto_fronts -> get_i refs k = rf si0 pareto_fronts k }; assert { [@expl:all of them] forall k. 0 <= k < len_frontelement pareto_fronts -> mem refs (rf si0 pareto_fronts k) }; assert { [@expl:no others] forall v. mem refs v -> exists k. 0 <= k < len_frontelement pareto_fronts /\\ v = rf si0 pareto_fronts k }; assert { [@expl:valid lines] forall v. mem refs v -> 0 <= v < len_i nc0 };",
         "after_call:erase_duplicates": "assert { [@expl:valid lines after] forall k. 0 <= k < len_i refs -> mem refs (get_i refs k) && 0 <= get_i refs k < len_i nc0 };assert { [@expl:every line remains] forall k. 0 <= k < len_frontelement pareto_fronts_0 -> mem refs (rf si0 pareto_fronts_0 k) }; assert { [@expl:no others remain] forall v. mem refs v -> exists k. 0 <= k < len_frontelement pareto_fronts_0 /\\ v = rf si0 pareto_fronts_0 k };", "exit": "assert { [@expl:every line in order] forall k. 0 <= k < len_frontelement pareto_fronts_0 -> mem res_ (rf si0 pareto_fronts_0 k) }; assert { [@expl:no others in order] forall v. mem res_ v -> exists k. 0 <= k < len_frontelement pareto_fronts_0 /\\ v = rf si0 pareto_fronts_0 k }; assert { [@expl:members] forall j. 0 <= j < len_i res_ -> mem res_ (get_i res_ j) };"},
  ensures=[("every reference line of the candidates", "forall k. 0 <= k < len_frontelement pareto_fronts_0 -> mem result (rf %s pareto_fronts_0 k)" % SI),
           ("no other reference lines", "forall v. mem result v -> exists k. 0 <= k < len_frontelement pareto_fronts_0 /\\ v = rf %s pareto_fronts_0 k" % SI),
           ("each once", "forall i j. 0 <= i < j < len_i result -> get_i result i <> get_i result j"),
           ("the least crowded first", "forall i j. 0 <= i <= j < len_i result -> get_i %s (get_i result i) <= get_i %s (get_i result j)" % (NC, NC)),
           ("nothing else changes", "this_ = old this_")])
CL = "d_is_num (get_candidateinfo"
VV = """
function vv (s: seq_candidateinfo) (e: seq_frontelement) (r k: int) : dbl = if rf s e k = r then rd s e k else d_inf
axiom fin_inf : forall x. d_finite x -> d_is_num x /\\ d_rk x < d_rk d_inf
axiom inf_num : d_is_num d_inf
"""
t("closest", I + "findClosestAssociated", **IM, use_types=UT, prelude=NIT + VV, loops={1: dict(inv=[("closest so far", "0 <= min_elem < first /\\ d_is_num min_value /\\ min_value = vv %s pareto_fronts ref_ min_elem /\\ forall j. 0 <= j < first -> d_rk min_value <= d_rk (vv %s pareto_fronts ref_ j)" % (SI, SI))])},
  ghost={"loop1.body": "assert { [@expl:value of the element] d_is_num (vv %s pareto_fronts ref_ first) };" % SI, "loop1.after": "assert { [@expl:a value below infinity] forall j. 0 <= j < len_frontelement pareto_fronts /\\ rf %s pareto_fronts j = ref_ -> d_rk min_value <= d_rk (rd %s pareto_fronts j) < d_rk d_inf }; assert { [@expl:the line of the result] rf %s pareto_fronts min_elem = ref_ };" % (SI, SI, SI)}, ret_type="gapp::algorithm::dtl::FrontElement", requires=[INF(), ("finite distances", "forall k. 0 <= k < len_frontelement pareto_fronts_0 -> d_finite (rd %s pareto_fronts_0 k)" % SI), ("a candidate is associated with the line", "exists k. 0 <= k < len_frontelement pareto_fronts_0 /\\ rf %s pareto_fronts_0 k = ref__0" % SI)],
  ensures=[("the closest of the candidates associated with the line", "exists k. 0 <= k < len_frontelement pareto_fronts_0 /\\ result = get_frontelement pareto_fronts_0 k /\\ rf %s pareto_fronts_0 k = ref__0 /\\ forall j. 0 <= j < len_frontelement pareto_fronts_0 -> rf %s pareto_fronts_0 j = ref__0 -> d_rk (rd %s pareto_fronts_0 k) <= d_rk (rd %s pareto_fronts_0 j)" % (SI, SI, SI, SI))])
CR = """
predicate crowd (n r: seq_i) = forall i j. 0 <= i <= j < len_i r -> get_i n (get_i r i) <= get_i n (get_i r j)
predicate lines (n r: seq_i) = (forall i. 0 <= i < len_i r -> 0 <= get_i r i < len_i n) /\\ forall i j. 0 <= i < j < len_i r -> get_i r i <> get_i r j
predicate mem (r: seq_i) (v: int) = exists k. 0 <= k < len_i r /\\ get_i r k = v
"""
t("incr", I + "incrementNicheCount", **IM, prelude=CR, ghost={"entry": "let ghost r0 = refs in", "exit": "assert { [@expl:two lines are exchanged] let l = first_eq - 1 in 0 <= current <= l < len_i r0 /\\ len_i refs = len_i r0 /\\ get_i refs current = get_i r0 l /\\ get_i refs l = get_i r0 current /\\ forall k. 0 <= k < len_i refs -> k <> current -> k <> l -> get_i refs k = get_i r0 k }; assert { [@expl:the lines before] forall k. 0 <= k < len_i refs -> get_i refs k = get_i r0 (if k = current then first_eq - 1 else if k = first_eq - 1 then current else k) && mem r0 (get_i refs k) }; assert { [@expl:the lines after] forall k. 0 <= k < len_i refs -> get_i r0 k = get_i refs (if k = current then first_eq - 1 else if k = first_eq - 1 then current else k) && mem refs (get_i r0 k) };"}, requires=[("distinct reference lines, the least crowded first", "lines %s refs /\\ crowd %s refs" % (NC, NC)), ("one of them", "mem refs ref__0"), ("counts below 2^50", "forall r. 0 <= r < len_i %s -> get_i %s r < size_limit" % (NC, NC))],
  ensures=[("one more candidate at the line", "len_i %s = len_i (old %s) /\\ forall r. 0 <= r < len_i %s -> get_i %s r = get_i (old %s) r + (if r = ref__0 then 1 else 0)" % (NC, NC, NC, NC, NC)), ("the same lines, each once", "lines %s refs /\\ len_i refs = len_i (old refs) /\\ forall v. mem refs v <-> mem (old refs) v" % NC), ("the least crowded first", "crowd %s refs" % NC), ("associations unchanged", "%s = old %s" % (SI, SI)), same(ID, EXP, ND_, RL)])
t("create", I + "createPopulation", **IM, prelude=NIT, use_types=UT, requires=[("valid candidates", "forall k. 0 <= k < len_frontelement pareto_fronts_0 -> 0 <= (get_frontelement pareto_fronts_0 k).frontelement_idx < len_candidateinfo %s" % SI)],
  ghost={"entry": "let ghost si0 = %s in" % SI},
  loops={1: dict(inv=[("so far", "len_i new_pop = sol__i /\\ len_candidateinfo new_info = sol__i /\\ forall k. 0 <= k < sol__i -> get_i new_pop k = (get_frontelement pareto_fronts k).frontelement_idx /\\ get_candidateinfo new_info k = get_candidateinfo si0 (get_i new_pop k)")])},
  ensures=[("the candidates in order, with their data", "len_i result = len_frontelement pareto_fronts_0 /\\ len_candidateinfo %s = len_i result /\\ forall k. 0 <= k < len_i result -> get_i result k = (get_frontelement pareto_fronts_0 k).frontelement_idx /\\ get_candidateinfo %s k = get_candidateinfo (old %s) (get_i result k)" % (SI, SI, SI)), same(NC, ID, EXP, ND_, RL)])
from translate import L, T, It
ELT = Ty("seq", Ty("rec", "frontelement"))
ELG = dict(iter_base="elements", iter_seq=lambda tr: L("elements", [], ELT, ELT), types={"iterator": Ty("iter", Ty("rec", "frontelement"))}, use_types=[ELT], ghost_params=["(ref elements: seq_frontelement)"], ghost_outs=[("elements", ELT, None)])
CRW = """
function lo (r: seq_paretofrontsrange) (i: int) : int = (get_paretofrontsrange r i).paretofrontsrange_first_
function hi (r: seq_paretofrontsrange) (i: int) : int = (get_paretofrontsrange r i).paretofrontsrange_last_
predicate rng1 (s: seq_frontelement) (a b: int) = 0 <= a < b <= len_frontelement s /\\ (forall j k. a <= j < b -> a <= k < b -> rk s j = rk s k)
predicate ranges (s: seq_frontelement) (r: seq_paretofrontsrange) = forall i. 0 <= i < len_paretofrontsrange r -> rng1 s (lo r i) (hi r i)
predicate inold (s0: seq_frontelement) (v: frontelement) = exists j. isat s0 j /\\ v = get_frontelement s0 j
predicate kept (s0 s: seq_frontelement) = len_frontelement s = len_frontelement s0 /\\ (forall k. isat s0 k -> rk s k = rk s0 k) /\\ (forall k. isat s0 k -> inold s0 (get_frontelement s k)) /\\ (forall k. isat s0 k -> inold s (get_frontelement s0 k))
predicate numbers (f: seq_sd) = forall r c. 0 <= r < len_sd f -> 0 <= c < len_d (get_sd f r) -> small (get_d (get_sd f r) c)
predicate nneg (d: seq_d) = forall k. 0 <= k < len_d d -> d_is_num (get_d d k) /\\ d_rk d_zero <= d_rk (get_d d k)
"""
NUMS = ("fitness values whose differences do not overflow", "numbers fmat")
RANKSTEP = lambda old, new, p, q, e, lo, hi: ("assert { [@expl:one rank in the range] forall j k. %s <= j < %s -> %s <= k < %s -> rk %s j = rk %s k };" % (lo, hi, lo, hi, old, old)
  + "assert { [@expl:sorting keeps the ranks] forall k. isat %s k -> isat %s k /\\ isat %s (get_i %s k) /\\ get_frontelement %s k = get_frontelement %s (get_i %s k) /\\ rk %s k = rk %s k };" % (old, new, old, p, new, old, p, new, old)
  + "assert { [@expl:sorting keeps the rows] forall j k. isat %s j -> isat %s k -> j <> k -> get_i %s j <> get_i %s k /\\ ix %s j <> ix %s k };" % (old, old, p, p, new, new)
  + "assert { [@expl:sorting loses no element] forall k. isat %s k -> isat %s (get_i %s k) /\\ get_frontelement %s k = get_frontelement %s (get_i %s k) };" % (old, new, q, old, new, q))
FA, FL = facts("small_sub small_fin sub_pos div_pos x_add_nn x_finite x_inf_bounds")
ASC = lambda old, new, lo, hi: "assert { [@expl:numbers] forall j. %s <= j < %s -> small (get_d fvec (ix %s j)) /\\ d_is_num (get_d fvec (ix %s j)) }; assert { [@expl:ascending] forall j k. %s <= j < k < %s -> not (d_lt (get_d fvec (ix %s k)) (get_d fvec (ix %s j))) && d_rk (get_d fvec (ix %s j)) <= d_rk (get_d fvec (ix %s k)) };" % (lo, hi, new, new, lo, hi, new, new, new, new)
CROWD = t("crowding", "crowdingDistances", **ELG, after_perm=RANKSTEP, after_sort=ASC, prelude=FA + c09.RK + CRW, requires=[("at least one row", "0 < len_sd fmat"), NUMS, ("distinct rows", "rows elements (len_sd fmat)"), ("non-empty ranges of one rank", "ranges elements pareto_fronts")],
  ensures=[("a distance for every row", "len_d result = len_sd fmat /\\ nneg result"), ("the ranges are only reordered", "kept (old elements) elements /\\ rows elements (len_sd fmat)"),
           ("elements outside the ranges are unchanged", "forall k. isat elements k -> (forall i. 0 <= i < len_paretofrontsrange pareto_fronts -> not (lo pareto_fronts i <= k < hi pareto_fronts i)) -> get_frontelement elements k = get_frontelement (old elements) k")],
  ghost={"entry": "let ghost el0 = elements in assume { ncols_sd fmat < size_limit };",
         "loop4.body": " assert { [@expl:positive interval] d_finite finterval /\\ d_rk d_zero < d_rk finterval }; assert { [@expl:gap] small (get_d fvec (ix elements (it + 1))) /\\ small (get_d fvec (ix elements (it - 1))) /\\ d_finite (d_sub (get_d fvec (ix elements (it + 1))) (get_d fvec (ix elements (it - 1)))) /\\ d_rk d_zero <= d_rk (d_sub (get_d fvec (ix elements (it + 1))) (get_d fvec (ix elements (it - 1)))) }; assert { [@expl:share] d_is_num (d_div (d_sub (get_d fvec (ix elements (it + 1))) (get_d fvec (ix elements (it - 1)))) finterval) /\\ d_rk d_zero <= d_rk (d_div (d_sub (get_d fvec (ix elements (it + 1))) (get_d fvec (ix elements (it - 1)))) finterval) };", "loop3.body": "let ghost el1 = elements in",
         "loop3.end": "assert { [@expl:rows stay distinct] rows elements (len_sd fmat) }; assert { [@expl:one range reordered] kept el1 elements }; assert { [@expl:elements from before] forall v. inold el1 v -> inold el0 v }; assert { [@expl:no element is lost] forall v. inold el1 v -> inold elements v }; assert { [@expl:reordered since the start] kept el0 elements }; assert { [@expl:ranks stay] ranges elements pareto_fronts };"},
  loops={1: dict(inv=[("reordered", "kept el0 elements"), ("distinct rows", "rows elements (len_sd fmat)"), ("ranges", "ranges elements pareto_fronts"), ("outside", "OUT"), ("distances are not negative", "nneg crowding_distances")]),
         2: dict(inv=[("the column", "len_d col = row /\\ forall k. 0 <= k < row -> get_d col k = get_d (get_sd fmat k) col_idx /\\ small (get_d col k)")]),
         3: dict(inv=[("reordered", "kept el0 elements"), ("distinct rows", "rows elements (len_sd fmat)"), ("ranges", "ranges elements pareto_fronts"), ("outside", "OUT"), ("distances are not negative", "nneg crowding_distances")]),
         4: dict(inv=[("a position of the range", "ref_front.paretofrontsrange_first_ < it"), ("distances are not negative", "nneg crowding_distances")], variant="ref_front.paretofrontsrange_last_ - it")})
for no in (1, 3):
    CROWD["loops"][no]["inv"][3] = ("outside", "forall k. isat elements k -> (forall i. 0 <= i < len_paretofrontsrange pareto_fronts -> not (lo pareto_fronts i <= k < hi pareto_fronts i)) -> get_frontelement elements k = get_frontelement el0 k")
PFE = "pareto_fronts.paretofronts_elements_"
PFL = lambda tr: L("pareto_fronts", [("f", "elements_", ELT)], ELT, Ty("rec", "paretofronts"))
def by(tg, name):
    return next(x for x in tg if x["name"] == name)
CONN = {A + "dtl::nonDominatedSort": contract_of(by(c09.TARGETS, "ndsm")), A + "dtl::ParetoFronts::partialFront": contract_of(by(c09.TARGETS, "partial_front")),
        A + "dtl::ParetoFronts::resize": contract_of(by(c09.TARGETS, "resize")), A + "dtl::ParetoFronts::fronts": contract_of(by(c09.TARGETS, "fronts")), A + "dtl::ParetoFronts::ranks": contract_of(by(c09.TARGETS, "ranks")),
        A + "crowdingDistances": contract_of(CROWD)}
ELP = dict(iter_base=PFE, iter_seq=PFL, ghost_out={"elements": PFL}, types={"iterator": Ty("iter", Ty("rec", "frontelement"))}, use_types=[ELT, Ty("seq", SZ)], contracts=CONN)
P2 = c08.BEST + c08.ORD + c09.NDS + c09.RK2 + FA + CRW.split("\n", 3)[3] + """
predicate chosen (e: seq_frontelement) (p v r: int) = exists j. 0 <= j < p /\\ ix e j = v /\\ rk e j = r
predicate ranking (m: seq_sd) (e: seq_frontelement) = len_frontelement e = len_sd m /\\ ranked m 0 (len_sd m) e
"""
KEPT = """ kept_ranked (m: seq_sd) (s s': seq_frontelement) : unit
  requires { ranking m s /\\ kept s s' /\\ rows s' (len_sd m) }
  ensures { ranking m s' }
"""
TARGETS.append(lemmas.lemma("kept_ranking", c08.theory_dbl() + SQ_("d", "dbl") + SQ_("sd", "seq_d") + SQ_("i", "int") + "type frontelement = { frontelement_idx: int; frontelement_rank: int }\ntype paretofrontsrange = { paretofrontsrange_first_: int; paretofrontsrange_last_: int }\n" + SQ_("frontelement", "frontelement") + SQ_("paretofrontsrange", "paretofrontsrange") + lemmas.PERM_AX + c08.DOM + P2.replace(c08.BEST, "").replace(c08.ORD, "") + "let lemma" + KEPT + """= 
  assert { srt s' };
  assert { forall v. inold s' v -> inold s v };
  assert { forall j k. isat s' j -> isat s' k -> wf m 0 (ix s' j) (ix s' k) -> rk s' j > rk s' k };
  assert { forall x r. witn m 0 s x r -> witn m 0 s' x r };
  assert { tight m 0 s' }
"""))
N2 = "ga.gainfo_population_size_"
next2 = t("next2", "NSGA2::nextPopulationImpl", **ELP, params=["ga", "fmat"], after_perm=lambda *a: RANKSTEP(*a) + "let ghost e1 = %s in let ghost e1' = %s in assert { [@expl:the same rows] rows e1' (len_sd fmat) }; assert { [@expl:the same ranks] forall k. isat e1 k -> rk e1' k = rk e1 k }; assert { [@expl:the same elements] forall k. isat e1 k -> inold e1 (get_frontelement e1' k) /\\ inold e1' (get_frontelement e1 k) }; assert { [@expl:the front is reordered] kept e1 e1' }; assert { [@expl:reordered before or unchanged] kept e0 e1 }; assert { [@expl:elements from before] forall v. inold e1 v -> inold e0 v }; assert { [@expl:no element is lost] forall v. inold e1 v -> inold e1' v };" % (a[0], a[1]), prelude=P2 + "val" + KEPT, requires=[c08.SEP, NUMS, ("more than one objective, a column for each", "ga.gainfo_num_objectives_ > 1 /\\ ncols_sd fmat = ga.gainfo_num_objectives_"), ("a positive population size, enough candidates", "0 < %s <= len_sd fmat < size_limit" % N2), ("one rank for every candidate", "len_i %s = %s" % (R2, N2))],
  ensures=[("population size many distinct candidates", "len_i result = %s /\\ (forall k. 0 <= k < %s -> 0 <= get_i result k < len_sd fmat) /\\ forall i j. 0 <= i < j < %s -> get_i result i <> get_i result j" % (N2, N2, N2)),
           ("the first ones of the non-dominated ranking, with their ranks", "exists e. ranking fmat e /\\ forall k. 0 <= k < %s -> chosen e %s (get_i result k) (get_i %s k)" % (N2, N2, R2)),
           ("a rank and a distance for every candidate", "len_i %s = %s /\\ len_d %s = %s" % (R2, N2, D2, N2))],
  loops={1: dict(inv=[("copied", "forall k. 0 <= k < i -> get_i new_pop k = ix %s k /\\ get_i %s k = rk %s k /\\ get_d %s k = get_d dists (ix %s k)" % (PFE, R2, PFE, D2, PFE))])},
  ghost={"decl:pareto_fronts": "let ghost e0 = %s in" % PFE, "before_call:resize": "let ghost e2 = %s in let ghost ds = %s in assert { [@expl:the fronts are reordered] kept e0 e2 /\\ rows e2 (len_sd fmat) }; kept_ranked fmat e0 e2; assert { [@expl:larger crowding distances first in the front that is cut] forall j k. 0 <= j < popsize -> popsize <= k < len_frontelement e2 -> rk e2 j = rk e2 k -> not (d_lt (get_d ds (ix e2 j)) (get_d ds (ix e2 k))) };" % (PFE, D2),
         "after_call:resize": "let ghost e3 = %s in assert { [@expl:the first ones remain] len_frontelement e3 = popsize /\\ forall k. isat e3 k -> isat e2 k /\\  get_frontelement e3 k = get_frontelement e2 k /\\ ix e3 k = ix e2 k /\\ rk e3 k = rk e2 k /\\ rk e2 k = rk e0 k /\\ rk e3 k <= k }; assert { [@expl:distinct] rows e3 (len_sd fmat) }; assert { [@expl:in order] srt e3 }; assert { [@expl:the chosen ones] forall v. inold e3 v -> chosen e2 popsize v.frontelement_idx v.frontelement_rank };" % PFE, "after_call:fronts": "assert { [@expl:ranges of one rank] forall i. 0 <= i < len_paretofrontsrange RESULT -> one_rank e3 (lo RESULT i) (hi RESULT i) && rng1 e3 (lo RESULT i) (hi RESULT i) };",
         "exit": "assert { [@expl:distinct rows] forall i j. 0 <= i < popsize -> 0 <= j < popsize -> i <> j -> ix %s i <> ix %s j }; assert { [@expl:reordered again] kept e3 %s }; assert { [@expl:chosen] forall k. 0 <= k < popsize -> chosen e2 popsize (get_i res_ k) (get_i %s k) };" % (PFE, PFE, PFE, R2)})
MF_ = lambda x: x.replace("fmat", "ga.gainfo_fitness_matrix_")
t("init2", "NSGA2::initializeImpl", **ELP, params=["ga"], prelude=P2 + "val" + KEPT, requires=[(a, MF_(b)) for a, b in [c08.SEP, NUMS, ("more than one objective", "ga.gainfo_num_objectives_ > 1"), ("at least one candidate", "0 < len_sd fmat < size_limit")]],
  ghost={"decl:pareto_fronts": "let ghost e0 = %s in" % PFE, "after_call:fronts": "assert { [@expl:ranges of one rank] forall i. 0 <= i < len_paretofrontsrange RESULT -> one_rank e0 (lo RESULT i) (hi RESULT i) && rng1 e0 (lo RESULT i) (hi RESULT i) };"},
  ensures=[(a, MF_(b)) for a, b in [("the non-dominated rank of every candidate", "exists e. ranking fmat e /\\ forall k. isat e k -> get_i %s (ix e k) = rk e k" % R2), ("a rank and a distance for every candidate", "len_i %s = len_sd fmat /\\ len_d %s = len_sd fmat" % (R2, D2))]])
TARGETS.append(c19.ERASE_DUP)
# ---- NSGA-III: the whole algorithm
ZERO3 = lambda n: ZERO("@", n).replace("get_i @ (get_i indices k)", g_("(get_i indices k)", "rank")).replace("get_i @ p", g_("p", "rank"))
PIM = dict(IM, obj_members={"pimpl_": lambda tr, v: v}, obj_operators={"->": lambda tr, a, vs: a})
t("n3_select", "NSGA3::selectImpl", **PIM, models=RNG, params=["ga", "fmat"], requires=[("the population was initialised", "0 < len_sd fmat < size_limit /\\ len_candidateinfo %s = len_sd fmat" % SI)], ensures=[("an index of the population", "0 <= result < len_sd fmat")],
  contracts={A + I + "nichedCompare": contract_of(by(TARGETS, "niched"))},
  ghost={"exit": "assert { [@expl:the better of the two drawn candidates if they share a reference line] (res_ = idx1 \\/ res_ = idx2) /\\ (%s = %s -> forall o. (o = idx1 \\/ o = idx2) -> %s <= %s /\\ (%s = %s -> not (d_lt (%s) (%s)))) };" % (g_("idx1", "ref_idx"), g_("idx2", "ref_idx"), g_("res_", "rank"), g_("o", "rank"), g_("res_", "rank"), g_("o", "rank"), g_("o", "ref_dist"), g_("res_", "ref_dist"))})
t("n3_optimal", "NSGA3::optimalSolutionsImpl", **PIM, params=["ga"], prelude=MEM, loops={1: dict(inv=[("so far", ZERO3("i"))])}, ghost={"loop1.body": "let ghost ix0 = indices in let ghost i0 = i in", "loop1.end": "assert { [@expl:kept] forall p. mem ix0 p -> mem indices p }; assert { [@expl:added] %s = 0 -> len_i indices > 0 /\\ get_i indices (len_i indices - 1) = i0 /\\ mem indices i0 };" % g_("i0", "rank")},
  ensures=[("exactly the candidates of rank 0", "(forall k. 0 <= k < len_i result -> 0 <= get_i result k < len_candidateinfo %s /\\ %s = 0) /\\ (forall p. 0 <= p < len_candidateinfo %s -> %s = 0 -> exists k. 0 <= k < len_i result /\\ get_i result k = p)" % (SI, g_("(get_i result k)", "rank"), SI, g_("p", "rank"))), ("each once", "forall i j. 0 <= i < j < len_i result -> get_i result i < get_i result j")])
RN = lambda x: x.replace("attained", "mattained").replace("bound", "mbound").replace("nums", "mnums")
def renamed(sp, **kw):
    r = dict(dict(sp, **kw), requires=[(a, RN(b)) for a, b in sp["requires"]], ensures=[(a, RN(b)) for a, b in sp["ensures"]], prelude=RN(sp["prelude"]))
    r["loops"] = {k: dict(v, inv=[(a, RN(b)) for a, b in v["inv"]]) for k, v in sp.get("loops", {}).items()}
    r["ghost"] = {k: RN(v) for k, v in sp.get("ghost", {}).items()}
    TARGETS.append(r)
    return r
EMR = renamed(c14.EL["max"], name="elementwise_max_row")
EMX = renamed(c14.EL["max"], tu=TU, match=lambda f: "inplace_t" in f.type)
MXF = renamed(c14.EXT["max"], contracts={"gapp::detail::elementwise_max": contract_of(EMR)})
N3 = RN(c14.NUM + c14.EXTR) + """
predicate sml (v: seq_d) = forall c. 0 <= c < len_d v -> small (get_d v c)
predicate srows (m: seq_sd) (a b n: int) = forall k. a <= k < b -> len_d (get_sd m k) = n /\\ sml (get_sd m k)
predicate lrows (m: seq_sd) (n: int) = forall k. 0 <= k < len_sd m -> len_d (get_sd m k) = n
"""
FA3, FL3 = facts("small_sub small_fin div_num")
RNG3 = [("a non-empty range of rows", "0 <= first_0 < last_0 <= len_sd fmat < size_limit"), ("rows of one length with moderate values", "lrows fmat (len_d %s) /\\ srows fmat first_0 last_0 (len_d %s) /\\ sml %s /\\ 0 < len_d %s" % (ID, ID, ID, ID))]
IDEAL = t("n3_ideal", I + "updateIdealPoint", **IM, **FM, use_types=UT, prelude=FA3 + N3, contracts={"gapp::detail::elementwise_max": contract_of(EMX), "gapp::detail::maxFitness": contract_of(MXF)}, requires=RNG3,
  ensures=[("the largest value seen of every objective", "len_d ID = len_d (old ID) /\\ sml ID /\\ forall c. 0 <= c < len_d ID -> d_rk (get_d (old ID) c) <= d_rk (get_d ID c) /\\ (forall k. first_0 <= k < last_0 -> d_rk (get_d (get_sd fmat k) c) <= d_rk (get_d ID c)) /\\ (get_d ID c = get_d (old ID) c \\/ exists k. first_0 <= k < last_0 /\\ get_d ID c = get_d (get_sd fmat k) c)".replace("ID", ID)), same(SI, NC, EXP, ND_, RL)])
def c_asf(tr, fn, o, vs, n):
    tr.models.use(tr, "ASF: the value described by the contract of target asf")
    a, w, f = (par(tr.term(v)) for v in vs)
    tr.check("points of one size, not empty, whose weighted differences are numbers", "0 < len_d %s = len_d %s = len_d %s /\\ forall i. 0 <= i < len_d %s -> d_is_num (d_div (d_sub (get_d %s i) (get_d %s i)) (get_d %s i))" % (a, w, f, f, a, f, w))
    return T("(asf %s %s %s)" % (a, w, f), DBL)
EXTP = "val constant d_c_1e_06 : dbl\n" + WV["prelude"] + """
val function asf (a w f: seq_d) : dbl
lemma whole_row : forall s [sub_d s 0 (len_d s)]. ext_d (sub_d s 0 (len_d s)) s && sub_d s 0 (len_d s) = s
axiom asf_num : forall a w f [asf a w f]. 0 < len_d a = len_d w = len_d f -> (forall i. 0 <= i < len_d f -> d_is_num (d_div (d_sub (get_d a i) (get_d f i)) (get_d w i))) -> d_is_num (asf a w f)
predicate posw (w: seq_d) = forall k. 0 <= k < len_d w -> d_finite (get_d w k) /\\ d_rk d_zero < d_rk (get_d w k)
lemma asf_ok : forall a w f [asf a w f]. 0 < len_d a = len_d w = len_d f -> sml a -> sml f -> posw w -> forall i. 0 <= i < len_d f -> d_is_num (d_div (d_sub (get_d a i) (get_d f i)) (get_d w i))
axiom tiny : d_finite d_c_1e_06 /\\ d_rk d_zero < d_rk d_c_1e_06
axiom one : d_finite (d_of_int 1) /\\ d_rk d_zero < d_rk (d_of_int 1)
(* row r is the extreme point of axis d: a given row, none of them has a smaller weighted distance *)
predicate given (m: seq_sd) (f l: int) (e: seq_sd) (r: seq_d) = (exists k. f <= k < l /\\ r = get_sd m k) \\/ (exists k. 0 <= k < len_sd e /\\ r = get_sd e k)
predicate least (a w: seq_d) (m: seq_sd) (f l: int) (e: seq_sd) (r: seq_d) = (forall k. f <= k < l -> d_rk (asf a w r) <= d_rk (asf a w (get_sd m k))) /\\ (forall k. 0 <= k < len_sd e -> d_rk (asf a w r) <= d_rk (asf a w (get_sd e k)))
predicate extreme (a: seq_d) (m: seq_sd) (f l: int) (e: seq_sd) (d: int) (r: seq_d) = given m f l e r /\\ exists w. axisw w (len_d a) d /\\ least a w m f l e r
"""
EXTR3 = t("n3_extreme", I + "updateExtremePoints", **IM, **FM, use_types=UT, prelude=FA3 + N3 + EXTP, contracts={A + "weightVector": contract_of(WV), A + "ASF": c_asf}, requires=RNG3 + [("the extreme points are rows of that length", "lrows %s (len_d %s) /\\ srows %s 0 (len_sd %s) (len_d %s)" % (EXP, ID, EXP, EXP, ID))],
  ensures=[("the extreme point of every axis", "len_sd EX = len_d ID /\\ forall d. 0 <= d < len_d ID -> extreme ID fmat first_0 last_0 (old EX) d (get_sd EX d)".replace("ID", ID).replace("EX", EXP)), ("rows of that length", "lrows %s (len_d %s) /\\ srows %s 0 (len_sd %s) (len_d %s)" % (EXP, ID, EXP, EXP, ID)), same(SI, NC, ID, ND_, RL)],
  loops={1: dict(inv=[("the extreme points of the axes so far", "len_sd new_extreme_points = dim /\\ forall d. 0 <= d < dim -> extreme ID fmat first_0 last_0 EX d (get_sd new_extreme_points d)".replace("ID", ID).replace("EX", EXP)), ("rows of that length so far", "lrows new_extreme_points (len_d %s) /\\ srows new_extreme_points 0 dim (len_d %s)" % (ID, ID))]),
         2: dict(inv=[("the least distance so far", "0 <= min_elem < first__3 /\\ min_value = get_d chebysev_distances min_elem /\\ forall j. 0 <= j < first__3 -> d_rk min_value <= d_rk (get_d chebysev_distances j)")])},
  ghost={"after_call:weightVector": "assert { [@expl:positive weights] axisw RESULT (len_d %s) dim /\\ posw RESULT };" % ID,
         "loop1.body": "let ghost ne0 = new_extreme_points in let ghost d0 = dim in",
         "loop2.before": "assert { [@expl:distances of the rows] forall k. 0 <= k < popsize -> get_d chebysev_distances k = asf %s weights (get_sd fmat (first + k)) /\\ d_is_num (get_d chebysev_distances k) }; assert { [@expl:distances of the extreme points] forall k. popsize <= k < len_d chebysev_distances -> get_d chebysev_distances k = asf %s weights (get_sd %s (k - popsize)) /\\ d_is_num (get_d chebysev_distances k) };" % (ID, ID, EXP),
         "loop2.after": "assert { [@expl:no row is closer] forall k. first_0 <= k < last_0 -> get_d chebysev_distances (k - first_0) = asf %s weights (get_sd fmat k) && d_rk min_value <= d_rk (asf %s weights (get_sd fmat k)) }; assert { [@expl:no extreme point is closer] forall k. 0 <= k < len_sd %s -> get_d chebysev_distances (k + popsize) = asf %s weights (get_sd %s k) && d_rk min_value <= d_rk (asf %s weights (get_sd %s k)) };" % (ID, ID, EXP, ID, EXP, ID, EXP),
         "loop1.end": "assert { [@expl:the chosen row] get_d chebysev_distances idx = asf %s weights (get_sd new_extreme_points d0) }; assert { [@expl:a given row] given fmat first_0 last_0 %s (get_sd new_extreme_points d0) }; assert { [@expl:the extreme point] extreme %s fmat first_0 last_0 %s d0 (get_sd new_extreme_points d0) }; assert { [@expl:the earlier ones] forall d. 0 <= d < d0 -> get_sd new_extreme_points d = get_sd ne0 d };" % (ID, EXP, ID, EXP)})
ROWSL = [("the extreme points are rows of that length", "lrows %s (len_d %s) /\\ srows %s 0 (len_sd %s) (len_d %s)" % (EXP, ID, EXP, EXP, ID))]
NADIR3 = t("n3_nadir", I + "updateNadirPoint", **IM, **FM, use_types=UT, prelude=FA3 + N3 + EXTP + c08.NAD, contracts={A + I + "updateExtremePoints": contract_of(EXTR3), "gapp::detail::findFrontNadirPoint": contract_of(c08.FNADIR)}, requires=RNG3 + ROWSL,
  ghost={"after_call:findFrontNadirPoint": "assert { [@expl:rows] 0 < len_sd EX /\\ srows EX 0 (len_sd EX) (len_d ID) /\\ len_d RESULT = len_d ID }; assert { [@expl:smallest] forall c. 0 <= c < len_d RESULT -> nadir_upto EX (len_sd EX) RESULT c && some_row EX (len_sd EX) c (get_d RESULT c) && small (get_d RESULT c) };".replace("ID", ID).replace("EX", EXP)},
  ensures=EXTR3["ensures"][:2] + [("the smallest value of every objective over the extreme points", "len_d ND = len_d ID /\\ sml ND /\\ forall c. 0 <= c < len_d ND -> nadir_upto EX (len_sd EX) ND c".replace("ND", ND_).replace("ID", ID).replace("EX", EXP)), same(SI, NC, ID, RL)])
ASP = """
(* the squared distance of a point from a reference line; assumed not to overflow *)
val function pdist (l f: seq_d) : dbl
axiom pdist_fin : forall l f [pdist l f]. d_finite (pdist l f)
(* std::inner_product of a part of f and the values of l from a position on; assumed to be a number *)
val function dotn (f: seq_d) (a b: int) (l: seq_d) (c: int) (z: dbl) : dbl
axiom dotn_num : forall f a b l c z [dotn f a b l c z]. d_is_num (dotn f a b l c z)
function dot (f l: seq_d) : dbl = dotn f 0 (len_d f) l 0 d_zero
function norm (a n f: seq_d) (j: int) : dbl = NORM
predicate normed (a n f r: seq_d) = len_d r = len_d f /\\ forall j. 0 <= j < len_d f -> get_d r j = norm a n f j
predicate nearest (rl: seq_sd) (v: seq_d) (i: int) = 0 <= i < len_sd rl /\\ forall r. 0 <= r < len_sd rl -> d_rk (dot v (get_sd rl r)) <= d_rk (dot v (get_sd rl i))
predicate near (a n f: seq_d) (rl: seq_sd) (i: int) (d: dbl) = exists v. normed a n f v /\\ nearest rl v i /\\ d = pdist (get_sd rl i) v
predicate assoc (a n: seq_d) (m: seq_sd) (f0: int) (rl: seq_sd) (s: seq_candidateinfo) (i: int) = near a n (get_sd m (f0 + i)) rl (get_candidateinfo s i).candidateinfo_ref_idx (get_candidateinfo s i).candidateinfo_ref_dist
function fx (e: seq_frontelement) (k: int) : int = (get_frontelement e k).frontelement_idx
predicate apart (e: seq_frontelement) = forall j k. 0 <= j < len_frontelement e -> 0 <= k < len_frontelement e -> j <> k -> fx e j <> fx e k
predicate inside (e: seq_frontelement) (n: int) = forall k. 0 <= k < len_frontelement e -> 0 <= (get_frontelement e k).frontelement_idx < n
""".replace("NORM", NRM % ("a", "f", "a", "n")) + NIT
def c_dot(tr, vs, n):
    f, l = vs[0], vs[2]
    tr.models.use(tr, "std::inner_product: an unspecified number that depends on its arguments")
    tr.check("range of the inner product", "0 <= %s <= %s <= len_d %s /\\ %s + (%s - %s) <= len_d %s" % (f.idx, vs[1].idx, par(tr.term(f.seq)), l.idx, vs[1].idx, f.idx, par(tr.term(l.seq))))
    return T("(dotn %s %s %s %s %s %s)" % (par(tr.term(f.seq)), par(f.idx), par(vs[1].idx), par(tr.term(l.seq)), par(l.idx), par(tr.term(vs[3]))), DBL)
def c_pdist(tr, fn, o, vs, n):
    tr.models.use(tr, "perpendicularDistanceSq: an unspecified finite value that depends on the line and the point")
    return T("(pdist %s %s)" % tuple(par(tr.term(v)) for v in vs), DBL)
ASSOC = t("n3_assoc", I + "associatePopWithRefs", **IM, **FM, use_types=UT, prelude="val constant d_c_1e_08 : dbl\n" + FA3 + N3 + EXTP + c08.NAD + ASP, contracts={A + I + "updateIdealPoint": contract_of(IDEAL), A + I + "updateNadirPoint": contract_of(NADIR3), A + "normalizeFitnessVec": contract_of(by(TARGETS, "normalize")), "gapp::math::perpendicularDistanceSq": c_pdist, "gapp::detail::parallel_for": par_each}, std={"inner_product": c_dot},
  requires=RNG3 + ROWSL + [("reference lines of that length", "0 < len_sd %s < size_limit /\\ lrows %s (len_d %s)" % (RL, RL, ID)), ("distinct candidates of the range, each with a rank", "inside pareto_fronts_0 (last_0 - first_0) /\\ apart pareto_fronts_0 /\\ len_candidateinfo %s = last_0 - first_0" % SI)],
  ghost={"loop1.before": "let ghost si0 = %s in" % SI, "loop1.body": "let ghost si1 = %s in let ghost it0 = for_each__i in" % SI,
         "loop2.after": "assert { [@expl:the nearest line] nearest %s fnorm max_elem };" % RL,
         "loop1.end": "assert { [@expl:normalised] normed %s %s (get_sd fmat (first_0 + fx pareto_fronts it0)) fnorm }; assert { [@expl:associated] assoc %s %s fmat first_0 %s %s (fx pareto_fronts it0) }; assert { [@expl:others unchanged] forall i. 0 <= i < len_candidateinfo SI -> i <> fx pareto_fronts it0 -> get_candidateinfo SI i = get_candidateinfo si1 i };".replace("SI", SI) % (ID, ND_, ID, ND_, RL, SI)},
  loops={1: dict(inv=[("associated so far", "forall k. 0 <= k < for_each__i -> assoc %s %s fmat first_0 %s %s (fx pareto_fronts k)" % (ID, ND_, RL, SI)), ("ranks unchanged", "forall i. 0 <= i < last_0 - first_0 -> (get_candidateinfo %s i).candidateinfo_rank = (get_candidateinfo si0 i).candidateinfo_rank" % SI)]),
         2: dict(inv=[("nearest so far", "0 <= max_elem < first__2 /\\ max_value = dot fnorm (get_sd %s max_elem) /\\ forall r. 0 <= r < first__2 -> d_rk (dot fnorm (get_sd %s r)) <= d_rk max_value" % (RL, RL))])},
  ensures=[EXTR3["ensures"][1], ("a larger ideal point", "len_d ID = len_d (old ID) /\\ sml ID".replace("ID", ID)), ("ranks unchanged", "forall i. 0 <= i < last_0 - first_0 -> (get_candidateinfo SI i).candidateinfo_rank = (get_candidateinfo (old SI) i).candidateinfo_rank".replace("SI", SI)), ("every candidate of the fronts is associated with its nearest reference line", "len_candidateinfo SI = last_0 - first_0 /\\ forall k. 0 <= k < len_frontelement pareto_fronts_0 -> assoc ID ND fmat first_0 RL SI (get_frontelement pareto_fronts_0 k).frontelement_idx".replace("SI", SI).replace("ID", ID).replace("ND", ND_).replace("RL", RL)), same(NC, RL)])
P3 = "\n".join(l for l in P2.replace(c08.BEST, "").replace(c08.ORD, "").split("\n") if "paretofrontsrange" not in l and "predicate one_rank" not in l)
FA4, FL4 = facts("small_sub small_fin sub_pos div_pos x_add_nn x_finite x_inf_bounds div_num")
TARGETS.append(FL4)
PRE3 = "val constant d_c_1e_08 : dbl\n" + c08.BEST + c08.ORD + P3.replace(FA, FA4) + N3 + EXTP + c08.NAD + ASP.replace(NIT, CNT)
def c_refs(tr, fn, o, vs, n):
    d, k = (par(tr.term(v)) for v in vs)
    tr.models.use(tr, "reference line generator (library or user code): the requested number of rows of the requested length")
    return T("(reflines %s %s)" % (d, k), Ty("seq", Ty("seq", DBL)))
PRE3 += "val function reflines (d k: int) : seq_sd\naxiom reflines_def : forall d k [reflines d k]. 0 < d -> 0 < k -> len_sd (reflines d k) = k /\\ lrows (reflines d k) d\npredicate ranked_info (s: seq_candidateinfo) (e: seq_frontelement) (n: int) = forall k. 0 <= k < n -> (get_candidateinfo s (ix e k)).candidateinfo_rank = rk e k\n"
PF3 = dict(PIM, iter_base=PFE, iter_seq=PFL, ghost_out={"elements": PFL}, types={"iterator": Ty("iter", Ty("rec", "frontelement"))}, use_types=[ELT, Ty("seq", SZ)])
CON3 = {A + "dtl::nonDominatedSort": contract_of(by(c09.TARGETS, "nds")), A + "dtl::ParetoFronts::partialFront": contract_of(by(c09.TARGETS, "partial_front")), A + "dtl::ParetoFronts::resize": contract_of(by(c09.TARGETS, "resize")),
        A + I + "associatePopWithRefs": contract_of(ASSOC), A + I + "recalcNicheCounts": contract_of(by(TARGETS, "recalc")), A + I + "referenceSetOf": contract_of(by(TARGETS, "refset")), A + I + "incrementNicheCount": contract_of(by(TARGETS, "incr")), A + I + "createPopulation": contract_of(by(TARGETS, "create")), A + I + "findClosestAssociated": contract_of(by(TARGETS, "closest")),
        A + I + "generateReferencePoints": c_refs, "gapp::detail::maxFitness": contract_of(MXF)}
READY = lambda n: "len_d ID = %s /\\ sml ID /\\ lrows EX (len_d ID) /\\ srows EX 0 (len_sd EX) (len_d ID) /\\ 0 < len_sd RL < size_limit /\\ lrows RL (len_d ID) /\\ len_i NC = len_sd RL".replace("ID", ID).replace("EX", EXP).replace("RL", RL).replace("NC", NC) % n
OBJ3 = ("more than one objective, a column for each", "ga.gainfo_num_objectives_ > 1 /\\ lrows fmat ga.gainfo_num_objectives_")
AS_ = "assoc %s %s fmat 0 %s %s" % (ID, ND_, RL, SI)
INIT3 = t("n3_init", "NSGA3::initializeImpl", **PF3, params=["ga"], prelude=PRE3, contracts=CON3, requires=[(a, MF_(b)) for a, b in [c08.SEP, NUMS, OBJ3, ("a fitness vector for every candidate", "0 < ga.gainfo_population_size_ = len_sd fmat < size_limit")]],
  ghost={"entry": "assert { [@expl:rows] lrows %s ga.gainfo_num_objectives_ /\\ srows %s 0 (len_sd %s) ga.gainfo_num_objectives_ };" % ((MF_("fmat"),) * 3), "decl:pareto_fronts": "let ghost e0 = %s in" % PFE,
         "after_call:maxFitness": "assert { [@expl:ideal point] len_d RESULT = ga.gainfo_num_objectives_ && forall c. 0 <= c < len_d RESULT -> mbound_at true FM 0 (len_sd FM) RESULT c && small (get_d RESULT c) };".replace("FM", MF_("fmat")),
         "after_call:associatePopWithRefs": "assert { [@expl:associated] forall k. isat e0 k -> %s (ix e0 k) }; assert { [@expl:the ranks] ranked_info %s e0 (len_sd fmat) };".replace("fmat", MF_("fmat")) % (MF_(AS_), SI)},
  loops={1: dict(inv=[("the ranks so far", "ranked_info %s %s for_each__i" % (SI, PFE))])},
  ensures=[("ready for the first generation", "len_candidateinfo %s = ga.gainfo_population_size_ /\\ " % SI + READY("ga.gainfo_num_objectives_")), ("the non-dominated rank of every candidate, associated with its nearest reference line", MF_("exists e. ranking fmat e /\\ ranked_info %s e (len_sd fmat) /\\ forall k. isat e k -> %s (ix e k)" % (SI, AS_)))])
def c_closest(tr, fn, o, vs, n):
    """the contract of target closest, with the returned reference as a position of the container that the span refers to"""
    s, ia, ib = tr.views[vs[0].root]
    tr.models.use(tr, "findClosestAssociated: the contract of target closest; the result refers to an element of the range")
    e, r, si, nc = par(tr.term(s)), par(tr.term(vs[1])), par(tr.term(L("this_", [], None, None)) + ".impl_sol_info_"), "this_.impl_niche_counts_"
    rg = "%s <= k < %s" % (ia, ib)
    tr.check("the candidates are associated with reference lines, at finite distances", "forall k. %s -> 0 <= ix %s k < len_candidateinfo %s /\\ 0 <= rf %s %s k < len_i %s /\\ d_finite (rd %s %s k)" % (rg, e, SI, SI, e, nc, SI, e))
    tr.check("a candidate is associated with the line", "exists k. %s /\\ rf %s %s k = %s" % (rg, SI, e, r))
    k = tr.any(SZ)
    tr.blk.add("raw", "let ghost closest_at = %s in" % k)
    tr.assume("%s <= %s < %s /\\ rf %s %s %s = %s /\\ forall j. %s <= j < %s -> rf %s %s j = %s -> d_rk (rd %s %s %s) <= d_rk (rd %s %s j)" % (ia, k, ib, SI, e, k, r, ia, ib, SI, e, r, SI, e, k, SI, e))
    return s.ext(("i", k, Ty("rec", "frontelement")))
PA, PB = "partial_front.paretofrontsrange_first_", "partial_front.paretofrontsrange_last_"
NEXT3 = t("n3_next", "NSGA3::nextPopulationImpl", **PF3, params=["ga", "fmat"], models=RNG, prelude=PRE3 + CR.replace("predicate mem ", "predicate mem ") + """
let rec lemma cnt_same (s: seq_candidateinfo) (e e': seq_frontelement) (n: int) : unit
  requires { 0 <= n /\\ forall k. 0 <= k < n -> get_frontelement e k = get_frontelement e' k }
  ensures { forall r. cnt s e r n = cnt s e' r n }
  variant { n }
= if n > 0 then begin cnt_same s e e' (n - 1); assert { rf s e (n - 1) = rf s e' (n - 1) }; assert { forall r. cnt s e r n = cnt s e r (n - 1) + (if rf s e (n - 1) = r then 1 else 0) }; assert { forall r. cnt s e' r n = cnt s e' r (n - 1) + (if rf s e' (n - 1) = r then 1 else 0) } end
predicate fit (s: seq_candidateinfo) (e: seq_frontelement) (k m: int) = 0 <= ix e k < len_candidateinfo s /\\ 0 <= rf s e k < m /\\ d_finite (rd s e k)
predicate used (s: seq_candidateinfo) (e: seq_frontelement) (a b v: int) = exists k. a <= k < b /\\ rf s e k = v
predicate several (s: seq_candidateinfo) (e: seq_frontelement) (a b v: int) = exists j k. a <= j < k < b /\\ rf s e j = v /\\ rf s e k = v
predicate exchanged (e e': seq_frontelement) (p q: int) = len_frontelement e' = len_frontelement e /\\ get_frontelement e' p = get_frontelement e q /\\ get_frontelement e' q = get_frontelement e p /\\ forall k. isat e k -> k <> p -> k <> q -> get_frontelement e' k = get_frontelement e k
(* of the candidates from a on, those before n were taken: their lines have at most one more, they are the closest ones of their lines *)
let lemma exch (s: seq_candidateinfo) (e e': seq_frontelement) (p q b: int) : unit
  requires { exchanged e e' p q /\\ 0 <= p <= q < b <= len_frontelement e /\\ rk e p = rk e q }
  ensures { [@expl:exch 1] kept e e' }
  ensures { [@expl:exch 2] forall n. rows e n -> rows e' n }
  ensures { [@expl:exch 4] forall m. (forall k. 0 <= k < b -> fit s e k m) -> forall k. 0 <= k < b -> fit s e' k m }
  ensures { [@expl:exch 5] forall v. v <> rf s e q -> used s e p b v <-> used s e' (p + 1) b v }
  ensures { [@expl:exch 6] several s e p b (rf s e q) <-> used s e' (p + 1) b (rf s e q) }
  ensures { [@expl:exch 7] forall v. used s e' (p + 1) b v -> used s e p b v }
  ensures { [@expl:exch 8] forall k. p <= k < b -> exists j. p <= j < b /\\ get_frontelement e' k = get_frontelement e j }
= assert { get_frontelement e' p = get_frontelement e q && ix e' p = ix e q && rk e' p = rk e q && rf s e' p = rf s e q && rd s e' p = rd s e q };
  assert { get_frontelement e' q = get_frontelement e p && ix e' q = ix e p && rk e' q = rk e p && rf s e' q = rf s e p && rd s e' q = rd s e p };
  assert { forall k. isat e k -> k <> p -> k <> q -> get_frontelement e' k = get_frontelement e k && ix e' k = ix e k && rk e' k = rk e k && rf s e' k = rf s e k && rd s e' k = rd s e k };
  assert { forall k. isat e k -> let j = (if k = p then q else if k = q then p else k) in isat e j && get_frontelement e' k = get_frontelement e j && get_frontelement e' j = get_frontelement e k && inold e (get_frontelement e' k) && inold e' (get_frontelement e k) };
  assert { forall k m. 0 <= k < b -> (forall k. 0 <= k < b -> fit s e k m) -> let f = (if k = p then q else if k = q then p else k) in 0 <= f < b && fit s e f m && fit s e' k m };
  assert { forall j k n. rows e n -> isat e j -> isat e k -> j <> k -> let f = (if j = p then q else if j = q then p else j) in let g = (if k = p then q else if k = q then p else k) in f <> g /\\ isat e f /\\ isat e g && ix e' j = ix e f && ix e' k = ix e g && ix e' j <> ix e' k };
  assert { forall v k. v <> rf s e q -> p <= k < b -> rf s e k = v -> let j = (if k = p then q else k) in p + 1 <= j < b /\\ rf s e' j = v };
  assert { forall v k. p + 1 <= k < b -> rf s e' k = v -> let j = (if k = q then p else k) in p <= j < b /\\ j <> q /\\ rf s e j = v };
  assert { forall j k. p <= j < k < b -> rf s e j = rf s e q -> rf s e k = rf s e q -> used s e' (p + 1) b (rf s e q) by let u = (if k <> q then k else if j = p then q else j) in p + 1 <= u < b /\\ rf s e' u = rf s e q };
  assert { forall k. p + 1 <= k < b -> rf s e' k = rf s e q -> several s e p b (rf s e q) by let j = (if k = q then p else k) in p <= j < b /\\ j <> q /\\ rf s e j = rf s e q }
predicate fair (n: seq_i) (s: seq_candidateinfo) (e: seq_frontelement) (a n' b: int) = forall k j. a <= k < n' -> n' <= j < b -> get_i n (rf s e k) <= get_i n (rf s e j) + 1
predicate near_first (s: seq_candidateinfo) (e: seq_frontelement) (a n' b: int) = forall k j. a <= k < n' -> n' <= j < b -> rf s e k = rf s e j -> d_rk (rd s e k) <= d_rk (rd s e j)
(* e: the ranking, s: the ranks and reference lines of the candidates; the first n are kept *)
predicate picked (m: seq_sd) (e: seq_frontelement) (s: seq_candidateinfo) (n: int) (a nd: seq_d) (rl: seq_sd) =
  (forall k. isat e k -> (get_candidateinfo s (ix e k)).candidateinfo_rank = rk e k)
  /\\ (forall k. isat e k -> rk e k <= rk e (n - 1) -> assoc a nd m 0 rl s (ix e k))
  /\\ (forall k j. 0 <= k < n -> n <= j < len_frontelement e -> rk e k = rk e j -> cnt s e (rf s e k) n <= cnt s e (rf s e j) n + 1 /\\ (rf s e k = rf s e j -> d_rk (rd s e k) <= d_rk (rd s e j)))
predicate taken_from (e: seq_frontelement) (s: seq_candidateinfo) (n: int) (r: seq_i) (s': seq_candidateinfo) = forall k. 0 <= k < n -> get_i r k = ix e k /\\ get_candidateinfo s' k = get_candidateinfo s (ix e k)
let lemma taken (n n': seq_i) (s: seq_candidateinfo) (e e': seq_frontelement) (a p q b m: int) : unit
  requires { exchanged e e' p q /\\ 0 <= a <= p <= q < b <= len_frontelement e /\\ (forall k. 0 <= k < b -> fit s e k m) }
  requires { forall r. 0 <= r < m -> get_i n' r = get_i n r + (if r = rf s e q then 1 else 0) }
  ensures { [@expl:fair] fair n s e a p b -> (forall k. p <= k < b -> get_i n (rf s e q) <= get_i n (rf s e k)) -> fair n' s e' a (p + 1) b }
  ensures { [@expl:near] near_first s e a p b -> (forall k. p <= k < b -> rf s e k = rf s e q -> d_rk (rd s e q) <= d_rk (rd s e k)) -> near_first s e' a (p + 1) b }
= assert { get_frontelement e' p = get_frontelement e q && rf s e' p = rf s e q && rd s e' p = rd s e q };
  assert { get_frontelement e' q = get_frontelement e p && rf s e' q = rf s e p && rd s e' q = rd s e p };
  assert { forall k. isat e k -> k <> p -> k <> q -> get_frontelement e' k = get_frontelement e k && rf s e' k = rf s e k && rd s e' k = rd s e k };
  assert { forall k. 0 <= k < b -> fit s e k m && 0 <= rf s e k < m && get_i n' (rf s e k) = get_i n (rf s e k) + (if rf s e k = rf s e q then 1 else 0) };
  assert { forall j. p + 1 <= j < b -> let f = (if j = q then p else j) in p <= f < b /\\ rf s e' j = rf s e f /\\ rd s e' j = rd s e f };
  assert { forall k. a <= k < p + 1 -> let f = (if k = p then q else k) in rf s e' k = rf s e f /\\ rd s e' k = rd s e f /\\ (f = q \\/ a <= f < p) }
let lemma several_part (s: seq_candidateinfo) (e r: seq_frontelement) (a b v: int) : unit
  requires { forall k. 0 <= k < b - a -> rf s r k = rf s e (a + k) }
  ensures { several s r 0 (b - a) v <-> several s e a b v }
= assert { forall j k. 0 <= j < k < b - a -> rf s r j = v -> rf s r k = v -> a <= a + j < a + k < b && rf s e (a + j) = v && rf s e (a + k) = v && several s e a b v };
  assert { forall j k. a <= j < k < b -> rf s e j = v -> rf s e k = v -> rf s r (j - a) = rf s e (a + (j - a)) && rf s r (k - a) = rf s e (a + (k - a)) && several s r 0 (b - a) v }
let lemma kept_trans (a b c: seq_frontelement) : unit
  requires { kept a b /\\ kept b c }
  ensures { kept a c }
= assert { forall v. inold b v -> inold a v }; assert { forall v. inold b v -> inold c v }
predicate removed (r r': seq_i) (v p: int) = 0 <= p < len_i r /\\ get_i r p = v /\\ (forall k. 0 <= k < p -> get_i r k <> v) /\\ len_i r' = len_i r - 1 /\\ (forall k. 0 <= k < p -> get_i r' k = get_i r k) /\\ (forall k. p <= k < len_i r' -> get_i r' k = get_i r (k + 1))
let lemma erased (n r r': seq_i) (v p: int) : unit
  requires { removed r r' v p /\\ lines n r /\\ crowd n r }
  ensures { lines n r' /\\ crowd n r' }
  ensures { forall u. mem r' u <-> mem r u /\\ u <> v }
= assert { forall k. 0 <= k < len_i r' -> let f = (if k < p then k else k + 1) in 0 <= f < len_i r /\\ f <> p /\\ get_i r' k = get_i r f };
  assert { forall k. 0 <= k < len_i r -> k <> p -> let f = (if k < p then k else k - 1) in 0 <= f < len_i r' /\\ get_i r' f = get_i r k };
  assert { forall k. 0 <= k < len_i r -> k <> p -> get_i r k <> v }
val""" + KEPT, contracts=dict(CON3, **{A + I + "findClosestAssociated": c_closest, "gapp::detail::erase_first_stable": contract_of(by(c19.TARGETS, "erase_first"))}),
  requires=[c08.SEP, NUMS, OBJ3, ("a positive population size, more candidates", "0 < %s < len_sd fmat < size_limit" % N2), ("initialised", READY("ga.gainfo_num_objectives_"))],
  ghost={"entry": "assert { [@expl:columns] len_d (get_sd fmat 0) = ga.gainfo_num_objectives_ };", "decl:pareto_fronts": "let ghost e0 = %s in" % PFE,
         "decl:partial_front": "assert { [@expl:one rank] forall j k. PA <= j < PB -> PA <= k < PB -> rk e0 j = rk e0 k }; assert { [@expl:the front that is cut] forall k. isat e0 k -> rk e0 k <= rk e0 (popsize - 1) -> k < PB }; assert { [@expl:candidates of one front on both sides] forall k j. 0 <= k < popsize -> popsize <= j < len_frontelement e0 -> rk e0 k = rk e0 j -> PA <= k /\\ j < PB };",
         "before_call:associatePopWithRefs": "assert { [@expl:distinct candidates] forall k. 0 <= k < PB -> 0 <= ix e0 k < len_sd fmat };",
         "after_call:associatePopWithRefs": "assert { [@expl:associated] forall k. 0 <= k < PB -> get_frontelement (sub_frontelement e0 0 PB) k = get_frontelement e0 k && AS (ix e0 k) && fit SI e0 k (len_sd RL) };",
         "after_call:recalcNicheCounts": "cnt_same SI (sub_frontelement e0 0 PA) e0 PA;",
         "after_call:referenceSetOf": "assert { [@expl:part] let se = sub_frontelement e0 PA PB in len_frontelement se = PB - PA /\\ (forall k. 0 <= k < PB - PA -> rf SI se k = rf SI e0 (PA + k)) /\\ forall k. PA <= k < PB -> rf SI se (k - PA) = rf SI e0 k }; assert { [@expl:lines of the front] forall v. mem RESULT v <-> used SI e0 PA PB v }; assert { [@expl:valid lines] forall j. 0 <= j < len_i RESULT -> mem RESULT (get_i RESULT j) && 0 <= get_i RESULT j < len_i NC }; let ghost im = this_ in",
         "loop2.body": "let ghost e1 = PFE in let ghost nc1 = NC in let ghost i0 = i in let ghost rf1 = ref_indices in let ghost p0 = PA + i in assert { [@expl:one left] p0 < popsize <= PB && used SI e1 p0 PB (rf SI e1 p0) && mem ref_indices (rf SI e1 p0) && 0 < len_i ref_indices };",
         "before_call:incrementNicheCount": "assert { [@expl:one of the lines] mem ref_indices selected_ref_idx /\\ used SI e1 p0 PB selected_ref_idx }; assert { [@expl:a least crowded line] forall v. used SI e1 p0 PB v -> mem rf1 v && get_i NC selected_ref_idx <= get_i NC v }; assert { [@expl:counts] forall r. 0 <= r < len_i NC -> get_i NC r = cnt SI e1 r p0 && get_i NC r < size_limit };",
         "decl:associated_sol_count": "let ghost rfb = ref_indices in assert { [@expl:the remaining candidates] forall k. 0 <= k < PB - p0 -> get_frontelement remaining k = get_frontelement e1 (p0 + k) /\\ rf SI remaining k = rf SI e1 (p0 + k) }; assert { [@expl:the remaining ones] forall k. p0 <= k < PB -> fit SI e1 k (len_i NC) && rf SI remaining (k - p0) = rf SI e1 k }; assert { [@expl:several remaining candidates of the line] associated_sol_count > 1 <-> several SI remaining 0 (PB - p0) selected_ref_idx }; several_part SI e1 remaining p0 PB selected_ref_idx; assert { [@expl:several candidates of the line] associated_sol_count > 1 <-> several SI e1 p0 PB selected_ref_idx };",
         "after_call:erase_first_stable": "assert { [@expl:it was there] mem rfb selected_ref_idx }; assert { [@expl:found] RESULT }; assert { [@expl:the line is removed] exists p. get_i rfb p = selected_ref_idx /\\ removed rfb ref_indices selected_ref_idx p };",
         "loop2.after": "let ghost e3 = PFE in let ghost s3 = SI in kept_ranked fmat e0 e3; assert { [@expl:all taken] PA + i = popsize }; assert { [@expl:ranks of all] forall k. isat e3 k -> (get_candidateinfo SI (ix e3 k)).candidateinfo_rank = rk e3 k }; assert { [@expl:associated ones] forall k. 0 <= k < PB -> AS (ix e3 k) }; assert { [@expl:same ranks] forall k. isat e3 k -> rk e3 k = rk e0 k }; assert { [@expl:the front that is cut] forall k. isat e3 k -> rk e3 k <= rk e3 (popsize - 1) -> k < PB }; assert { [@expl:candidates of one front on both sides] forall k j. 0 <= k < popsize -> popsize <= j < len_frontelement e3 -> rk e3 k = rk e3 j -> PA <= k /\\ j < PB }; assert { [@expl:fair and near] forall k j. PA <= k < popsize -> popsize <= j < PB -> get_i NC (rf SI e3 k) = cnt SI e3 (rf SI e3 k) popsize && get_i NC (rf SI e3 j) = cnt SI e3 (rf SI e3 j) popsize && cnt SI e3 (rf SI e3 k) popsize <= cnt SI e3 (rf SI e3 j) popsize + 1 /\\ (rf SI e3 k = rf SI e3 j -> d_rk (rd SI e3 k) <= d_rk (rd SI e3 j)) }; assert { [@expl:picked] picked fmat e3 s3 popsize ID ND RL };",
         "loop2.end": "let ghost e2 = PFE in assert { [@expl:the chosen one in front] PA <= p0 <= closest_at < PB /\\ get_frontelement e2 p0 = get_frontelement e1 closest_at }; assert { [@expl:the one it replaces] get_frontelement e2 closest_at = get_frontelement e1 p0 }; assert { [@expl:exchanged] exchanged e1 e2 p0 closest_at }; assert { [@expl:ranks] rk e1 p0 = rk e0 p0 /\\ rk e1 closest_at = rk e0 closest_at }; assert { [@expl:of one rank] rk e1 p0 = rk e1 closest_at }; exch SI e1 e2 p0 closest_at PB; taken nc1 NC SI e1 e2 PA p0 closest_at PB (len_i NC); kept_trans e0 e1 e2; cnt_same SI e1 e2 p0; "
           "assert { [@expl:the line of the chosen one] rf SI e2 p0 = selected_ref_idx };"},
  loops={1: dict(inv=[("the ranks so far", "ranked_info %s e0 for_each__i" % SI)]),
         2: dict(inv=[("reordered", "kept e0 PFE"), ("distinct rows", "rows PFE (len_sd fmat)"), ("only in the front that is cut", "forall k. isat PFE k -> not (PA <= k < PB) -> get_frontelement PFE k = get_frontelement e0 k"), ("associations unchanged", "SI = im.impl_sol_info_"),
                      ("frame", "ID = im.impl_ideal_point_ /\\ ND = im.impl_nadir_point_ /\\ EX = im.impl_extreme_points_ /\\ RL = im.impl_ref_lines_ /\\ len_i NC = len_sd RL"), ("associated", "forall k. 0 <= k < PB -> fit SI PFE k (len_i NC)"),
                      ("lines, the least crowded first", "lines NC ref_indices /\\ crowd NC ref_indices"), ("the lines of the remaining candidates", "forall v. mem ref_indices v <-> used SI PFE (PA + i) PB v"), ("the numbers of chosen candidates", "forall r. 0 <= r < len_i NC -> get_i NC r = cnt SI PFE r (PA + i)"),
                      ("fair so far", "fair NC SI PFE PA (PA + i) PB"), ("the closest ones first", "near_first SI PFE PA (PA + i) PB")])},
  ensures=[("population size many distinct candidates", "len_i result = %s /\\ (forall k. 0 <= k < %s -> 0 <= get_i result k < len_sd fmat) /\\ forall i j. 0 <= i < j < %s -> get_i result i <> get_i result j" % (N2, N2, N2)),
           ("the first ones of the non-dominated ranking, from the front that is cut the closest ones of the least crowded lines", "exists e s. ranking fmat e /\\ picked fmat e s %s ID ND RL /\\ taken_from e s %s result SI".replace("ID", ID).replace("ND", ND_).replace("RL", RL).replace("SI", SI) % (N2, N2)),
           ("ready for the next generation", "len_candidateinfo %s = %s /\\ " % (SI, N2) + READY("ga.gainfo_num_objectives_"))])
for d in (NEXT3["ghost"], *(NEXT3["loops"][k] for k in NEXT3["loops"])):
    for k, v in list(d.items()):
        f = lambda x: re.sub(r"\b(PA|PB|SI|NC|ID|ND|EX|RL|PFE|AS)\b", lambda m: dict(PA=PA, PB=PB, SI=SI, NC=NC, ID=ID, ND=ND_, EX=EXP, RL=RL, PFE=PFE, AS=AS_)[m.group(1)], x)
        d[k] = f(v) if isinstance(v, str) else [(a, f(b)) for a, b in v]
BOUNDED = ["NSGA3::Impl::generateReferencePoints and the reference line generators (their results are assumed to be rows of the requested number and length)"]
HARNESS = dict(src=["c11.cpp"], lib=True, asan=True, flags=["-fno-access-control"], exclude=["src/algorithm/nsga3.cpp"], secs=12, secs_thorough=90)

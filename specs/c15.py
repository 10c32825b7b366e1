from common import *
from contracts import contract_of
from translate import idx_of
import theory, lemmas, c07, c14, c08
PROP = "C15"
TU = drv("metrics.cpp")
M = "gapp::metrics::"
TARGETS = []
BOOL = Ty("bool")
DEF, NUM, EXTR, MEAN = c14.DEF, c14.NUM, c14.EXTR, c14.MEAN
def t(name, q, m=lambda f: True, **kw):
    TARGETS.append(dict(dict(name=name, tu=TU, dbl=True, qname="gapp::" + q, match=m, prelude=DEF), **kw))
    return TARGETS[-1]
def reuse(s, contracts=None):
    TARGETS.append(dict(s, tu=TU, **({"contracts": contracts} if contracts else {})))
    return TARGETS[-1]
EMIN, EMAX = reuse(c14.EL["min"]), reuse(c14.EL["max"])
MIN, MAX = reuse(c14.EXT["min"], {"gapp::detail::elementwise_min": contract_of(EMIN)}), reuse(c14.EXT["max"], {"gapp::detail::elementwise_max": contract_of(EMAX)})
MEANT = reuse(c14.MEANT)
ROWS = c14.ROWS
IT = c14.IT
VAR = """
val function d_sq (x: dbl) : dbl
function vsum (m: seq_sd) (a k: int) (mean: seq_d) (w: dbl) (i: int) : dbl
axiom vsum_zero : forall m a mean w i [vsum m a a mean w i]. vsum m a a mean w i = d_zero
axiom vsum_step : forall m a k mean w i [vsum m a (k+1) mean w i]. a <= k -> vsum m a (k+1) mean w i = d_add (vsum m a k mean w i) (d_mul (d_sq (d_sub (get_d (get_sd m k) i) (get_d mean i))) w)
predicate var_at (m: seq_sd) (a b: int) (mean: seq_d) (v: dbl) (i: int) = v = if b - a = 1 then d_zero else vsum m a b mean (d_div (d_of_int 1) (d_sub (d_of_int (b - a)) (d_of_int 1))) i
predicate var_of (m: seq_sd) (a b: int) (mean r: seq_d) = len_d r = len_d (get_sd m 0) /\\ forall i. 0 <= i < len_d r -> var_at m a b mean (get_d r i) i
predicate dev_of (m: seq_sd) (a b: int) (mean r: seq_d) = len_d r = len_d (get_sd m 0) /\\ exists v. var_of m a b mean v /\\ forall i. 0 <= i < len_d r -> get_d r i = d_sqrt (get_d v i)
"""
three = lambda f: "span" in f.type
two = lambda f: "span" not in f.type
STD = {"pow": lambda tr, vs, n: T("(d_sq %s)" % par(tr.term(vs[0])), DBL)}
R0 = ROWS[:1]
MREQ = ("a mean per objective", "len_d %s = len_d (get_sd fmat 0)")
V3 = t("fitnessVariance_mean", "detail::fitnessVariance", three, prelude=DEF + VAR, std=STD, **IT, requires=R0 + [(MREQ[0], MREQ[1] % "fitness_mean_0")], ensures=[("the sum of the squared differences from the mean divided by the number of rows less one", "var_of fmat first_0 last_0 fitness_mean_0 result")],
  loops={1: dict(inv=[("the sums of the rows so far", "forall c. 0 <= c < len_d fitness_variance -> get_d fitness_variance c = vsum fmat first_0 for_each__i fitness_mean ninv c")]),
         2: dict(inv=[("the sums of the objectives so far include this row", "forall c. 0 <= c < len_d fitness_variance -> get_d fitness_variance c = vsum fmat first_0 (if c < i then for_each__i + 1 else for_each__i) fitness_mean ninv c")])})
CON = {"gapp::detail::minFitness": contract_of(MIN), "gapp::detail::maxFitness": contract_of(MAX), "gapp::detail::fitnessMean": contract_of(MEANT)}
PRE = DEF + EXTR + MEAN + VAR
V2 = t("fitnessVariance", "detail::fitnessVariance", two, prelude=PRE, contracts={**CON, "gapp::detail::fitnessVariance": contract_of(V3)}, **IT, requires=R0, ensures=[("the variance around the mean of the rows", "exists mean. mean_of fmat first_0 last_0 mean /\\ var_of fmat first_0 last_0 mean result")])
S3 = t("fitnessStdDev_mean", "detail::fitnessStdDev", three, prelude=PRE, contracts={**CON, "gapp::detail::fitnessVariance": contract_of(V3)}, **IT, requires=R0 + [(MREQ[0], MREQ[1] % "mean_0")], ensures=[("the square roots of the variances", "dev_of fmat first_0 last_0 mean_0 result")],
  ghost={"loop1.before": "let ghost v0 = fitness_std_dev in", "exit": "assert { [@expl:the variances] var_of fmat first_0 last_0 mean v0 };"}, loops={1: dict(inv=[("the roots so far", "len_d fitness_std_dev = len_d v0 /\\ (forall k. 0 <= k < f__i -> get_d fitness_std_dev k = d_sqrt (get_d v0 k)) /\\ (forall k. f__i <= k < len_d v0 -> get_d fitness_std_dev k = get_d v0 k)")])})
S2 = t("fitnessStdDev", "detail::fitnessStdDev", two, prelude=PRE, contracts={**CON, "gapp::detail::fitnessStdDev": contract_of(S3)}, **IT, requires=R0, ensures=[("the deviation around the mean of the rows", "exists mean. mean_of fmat first_0 last_0 mean /\\ dev_of fmat first_0 last_0 mean result")])
CON.update({"gapp::detail::fitnessVariance": contract_of(V2), "gapp::detail::fitnessStdDev": contract_of(S2)})
POP = ("a population with rows of one length without NaN", "0 < len_sd ga.gainfo_fitness_matrix_ /\\ rows ga.gainfo_fitness_matrix_ ga.gainfo_num_objectives_")
F_ = "ga.gainfo_fitness_matrix_"
N_ = "(len_sd %s)" % F_
STATS = {"FitnessMin": "bound false {m} 0 {n} {r}", "FitnessMax": "bound true {m} 0 {n} {r}", "FitnessMean": "mean_of {m} 0 {n} {r}",
         "FitnessVariance": "exists mean. mean_of {m} 0 {n} mean /\\ var_of {m} 0 {n} mean {r}", "FitnessStdDev": "exists mean. mean_of {m} 0 {n} mean /\\ dev_of {m} 0 {n} mean {r}"}
for c, s in STATS.items():
    d = "this_.%s_data_" % c.lower()
    o = "(old this_).%s_data_" % c.lower()
    t(c.lower() + "_update", "metrics::" + c + "::update", prelude=PRE, contracts=CON, requires=[POP],
      ensures=[("one value is added, the earlier ones stay", "len_sd {d} = len_sd {o} + 1 /\\ forall k. 0 <= k < len_sd {o} -> get_sd {d} k = get_sd {o} k".format(d=d, o=o)),
               ("the value is the statistic of this generation", s.format(m=F_, n=N_, r="(get_sd %s (len_sd %s))" % (d, o)))])
def fld(c, f): return "this_.%s_%s" % (c.lower(), f), "(old this_).%s_%s" % (c.lower(), f)
# clearing: the generic one, and the ones that reserve memory
for i, c in enumerate(list(STATS)):
    d, o = fld(c, "data_")
    t(c.lower() + "_init", "metrics::Monitor::initialize", (lambda n: lambda f: n in f.mangled)("%d%sENS" % (len(c), c)), prelude=NUM, use_types=[Ty("seq", Ty("seq", DBL))], ensures=[("no values before the run", "len_sd this_.monitor_%s_ssd_data_ = 0" % c.lower())])
KNOWN = ("the number of objectives is known", "0 < ga.gainfo_num_objectives_")
t("nadir_init", "metrics::NadirPoint::initialize", prelude=NUM, requires=[KNOWN], ensures=[("no values before the run", "len_sd %s = 0" % fld("NadirPoint", "data_")[0])])
C8N = [x for x in c08.TARGETS if x["name"] == "nadir"][0]
nd, no = fld("NadirPoint", "data_")
t("nadir_update", "metrics::NadirPoint::update", prelude=C8N["prelude"], contracts={"gapp::detail::findNadirPoint": contract_of(C8N)}, use_types=[Ty("seq", Ty("seq", DBL)), Ty("seq", Ty("int"))],
  requires=[("a population with rows of one length without NaN, comparable", "0 < ga.gainfo_population_size_ /\\ 0 < len_sd {m} /\\ rect {m} /\\ trans {m} /\\ len_d (get_sd {m} 0) = ga.gainfo_num_objectives_".format(m=F_)), ("earlier values are as long", "forall k. 0 <= k < len_sd %s -> len_d (get_sd %s k) = ga.gainfo_num_objectives_" % (nd, nd))],
  ensures=[("one value is added, the earlier ones stay", "len_sd {d} = len_sd {o} + 1 /\\ forall k. 0 <= k < len_sd {o} -> get_sd {d} k = get_sd {o} k".format(d=nd, o=no)),
           ("the smallest value of every objective over the front of this generation", "exists f. front_of {m} f /\\ forall c. 0 <= c < len_d (get_sd {d} (len_sd {o})) -> nadirf {m} f (len_i f) (get_sd {d} (len_sd {o})) c".format(m=F_, d=nd, o=no))])
t("evals_init", "metrics::FitnessEvaluations::initialize", prelude="", use_types=[DBL], ensures=[("no values before the run", "len_i %s = 0 /\\ %s = 0" % (fld("FitnessEvaluations", "data_")[0], fld("FitnessEvaluations", "sum_")[0]))])
d, o = fld("FitnessEvaluations", "data_")
s, so = fld("FitnessEvaluations", "sum_")
NE = t("num_fitness_evals", "GaInfo::num_fitness_evals", prelude="", ensures=[("the number of counted evaluations", "result = this_.gainfo_num_fitness_evals_")], **c14.LOAD)
t("evals_update", "metrics::FitnessEvaluations::update", contracts={"gapp::GaInfo::num_fitness_evals": contract_of(NE)}, prelude="function isum (s: seq_i) : int\naxiom isum_snoc : forall s v [snoc_i s v]. isum (snoc_i s v) = isum s + v\n", use_types=[DBL],
  requires=[("the evaluations before this generation are recorded", "isum %s = %s /\\ 0 <= %s <= ga.gainfo_num_fitness_evals_" % (d, s, s))],
  ensures=[("the number of evaluations of this generation is added, the earlier ones stay", "len_i {d} = len_i {o} + 1 /\\ (forall k. 0 <= k < len_i {o} -> get_i {d} k = get_i {o} k) /\\ get_i {d} (len_i {o}) = ga.gainfo_num_fitness_evals_ - {so}".format(d=d, o=o, so=so)), ("all evaluations are recorded", "isum %s = %s /\\ %s = ga.gainfo_num_fitness_evals_" % (d, s, s))])
NADP = "exists f. c f"
# the set of metrics: every one of them is initialised and updated, once per call
def m_log(tr, o, vs):
    tr.blk.add("raw", "log <- snoc_i log (get_i this_.metricset_metrics_ metric__i);")
    return UNIT
for nm in ("initialize", "update"):
    t("metricset_" + nm, "detail::MetricSet::" + nm, prelude="", types={"std::unique_ptr<gapp::metrics::MonitorBase>": Ty("int"), "std::unique_ptr<metrics::MonitorBase>": Ty("int")}, use_types=[DBL, Ty("seq", Ty("int"))],
      contracts={"gapp::metrics::MonitorBase::" + nm: lambda tr, fn, o, vs, n: m_log(tr, o, vs)}, obj_operators={"->": lambda tr, a, vs: a},
      ghost_params=["(ref log: seq_i)"], ghost_outs=[("log", Ty("seq", Ty("int")), lambda tr: L("log", [], Ty("seq", Ty("int")), Ty("seq", Ty("int"))))],
      ensures=[("every metric once, in order", "len_i log = len_i (old log) + len_i this_.metricset_metrics_ /\\ forall k. 0 <= k < len_i this_.metricset_metrics_ -> get_i log (len_i (old log) + k) = get_i this_.metricset_metrics_ k")],
      loops={1: dict(inv=[("the metrics so far", "len_i log = len_i (old log) + metric__i /\\ forall k. 0 <= k < metric__i -> get_i log (len_i (old log) + k) = get_i this_.metricset_metrics_ k")])})
t("limitSet", "detail::limitSet", prelude=NUM, requires=[("rows as long as the limit, no NaN", "forall k. 0 <= k < len_sd fmat_0 -> len_d (get_sd fmat_0 k) = len_d limit_0 /\\ nums (get_sd fmat_0 k)"), ("no NaN in the limit", "nums limit_0")],
  ensures=[("every value is the smaller one of the old value and the limit", "len_sd result = len_sd fmat_0 /\\ forall k. 0 <= k < len_sd result -> lim1 (get_sd fmat_0 k) limit_0 (get_sd result k)")])
TARGETS[-1]["prelude"] = NUM + """
predicate lim_at (o l v: seq_d) (i: int) = get_d v i = if d_lt (get_d l i) (get_d o i) then get_d l i else get_d o i
predicate lim1 (o l v: seq_d) = len_d v = len_d o /\\ forall i. 0 <= i < len_d o -> lim_at o l v i
"""
L1 = ("the rows so far are limited", "len_sd fmat = len_sd fmat_0 /\\ (forall k. 0 <= k < row -> lim1 (get_sd fmat_0 k) limit_0 (get_sd fmat k)) /\\ (forall k. %s <= k < len_sd fmat -> get_sd fmat k = get_sd fmat_0 k)")
TARGETS[-1]["loops"] = {1: dict(inv=[(L1[0], L1[1] % "row")]), 2: dict(inv=[(L1[0], L1[1] % "row + 1"), ("this row so far", "len_d (get_sd fmat row) = len_d limit_0 /\\ (forall i. 0 <= i < col -> lim_at (get_sd fmat_0 row) limit_0 (get_sd fmat row) i) /\\ (forall i. col <= i < len_d limit_0 -> get_d (get_sd fmat row) i = get_d (get_sd fmat_0 row) i)")])}

# hypervolume: the measure of a union of boxes, by inclusion-exclusion over the non-dominated points
D = "gapp::detail::"
SORT = [x for x in c08.TARGETS if x["name"] == "sort"][0]
VOL = "use real.RealInfix\n" + """
(* approx v x: v is the floating-point value of a formula whose exact value is x (rounding is not bounded here) *)
predicate approx (v: dbl) (x: real)
axiom approx_zero : approx d_zero 0.0
axiom approx_add : forall v w x y [approx v x, approx w y, d_add v w]. approx v x -> approx w y -> approx (d_add v w) (x +. y)
axiom approx_sub : forall v w x y [approx v x, approx w y, d_sub v w]. approx v x -> approx w y -> approx (d_sub v w) (x -. y)
axiom approx_abs : forall v x [approx v x, d_abs v]. approx v x -> x >=. 0.0 -> approx (d_abs v) x
(* box p r: the volume between two points *)
function box (p r: seq_d) : real
axiom box_nonneg : forall p r [box p r]. (forall i. 0 <= i < len_d r -> d_rk (get_d r i) <= d_rk (get_d p i)) -> box p r >=. 0.0
predicate lim_at (o l v: seq_d) (i: int) = get_d v i = if d_lt (get_d l i) (get_d o i) then get_d l i else get_d o i
predicate lim1 (o l v: seq_d) = len_d v = len_d o /\\ forall i. 0 <= i < len_d o -> lim_at o l v i
(* vol m a b r: the volume of the union of the boxes between r and the rows a .. b-1 of m *)
function vol (m: seq_sd) (a b: int) (r: seq_d) : real
axiom vol_empty : forall m a r [vol m a a r]. vol m a a r = 0.0
predicate part (m: seq_sd) (a b: int) (s: seq_sd) = len_sd s = b - a /\\ forall k. 0 <= k < b - a -> get_sd s k = get_sd m (a + k)
predicate limits (m: seq_sd) (a b: int) (p: seq_d) (l: seq_sd) = len_sd l = b - a /\\ forall k [get_sd l k]. 0 <= k < b - a -> lim1 (get_sd m (a + k)) p (get_sd l k)
axiom vol_incl : forall m l a a1 b r [vol m a b r, limits m a1 b (get_sd m a) l]. 0 <= a < b <= len_sd m -> a1 = a + 1 -> limits m a1 b (get_sd m a) l -> vol m a b r = box (get_sd m a) r +. vol m (a + 1) b r -. vol l 0 (len_sd l) r
predicate above (m: seq_sd) (r: seq_d) = forall k [get_sd m k]. 0 <= k < len_sd m -> len_d (get_sd m k) = len_d r /\\ forall i. 0 <= i < len_d r -> d_is_num (get_d r i) /\\ d_is_num (get_d (get_sd m k) i) /\\ d_rk (get_d r i) <= d_rk (get_d (get_sd m k) i)
(* separated_rows and separated_limits prove these from the definitions *)
predicate sep_with (m: seq_sd) (p: seq_d)
predicate rowof (m: seq_sd) (v: seq_d) = exists j. 0 <= j < len_sd m /\\ get_sd m j = v
predicate rows_of (m s: seq_sd) = forall k [get_sd s k]. 0 <= k < len_sd s -> rowof m (get_sd s k)
axiom sep_rows : forall m s [separated m, rows_of m s]. separated m -> rows_of m s -> separated s
axiom sep_pick : forall m s p [rows_of m s, sep_with s p]. separated m -> rows_of m s -> rowof m p -> sep_with s p
axiom sep_lim : forall m p l [sep_with m p, limits m 0 (len_sd m) p l]. sep_with m p -> limits m 0 (len_sd m) p l -> separated l
axiom sep_nums : forall m k i [separated m, get_d (get_sd m k) i]. separated m -> 0 <= k < len_sd m -> 0 <= i < len_d (get_sd m k) -> d_is_num (get_d (get_sd m k) i)
axiom sep_len : forall m j k [separated m, get_sd m j, get_sd m k]. separated m -> 0 <= j < len_sd m -> 0 <= k < len_sd m -> len_d (get_sd m j) = len_d (get_sd m k)
predicate eqv (a b: seq_d) = len_d a = len_d b /\\ forall i. 0 <= i < len_d a -> d_eq (get_d a i) (get_d b i)
predicate eqrow (s: seq_sd) (v: seq_d) = exists j. 0 <= j < len_sd s /\\ eqv v (get_sd s j)
axiom eqrow_snoc : forall s a v [eqrow (snoc_sd s a) v]. eqrow (snoc_sd s a) v <-> eqrow s v \\/ eqv v a
axiom eqrow_last : forall s v [eqrow s v, eq_sd v (get_sd s (len_sd s - 1))]. len_sd s > 0 -> eq_sd v (get_sd s (len_sd s - 1)) -> eqrow s v
predicate frontier (m s: seq_sd) = rows_of m s /\\ forall x. 0 <= x < len_sd m -> nondom m x -> eqrow s (get_sd m x)
(* the points that are dominated or repeated add nothing *)
axiom vol_front : forall m s r [vol s 0 (len_sd s) r, frontier m s]. separated m -> above m r -> frontier m s -> vol s 0 (len_sd s) r = vol m 0 (len_sd m) r
"""
ABOVE = ("no point is below the reference point, no NaN", "above fmat ref_point_0")
HPRE = c08.BEST + c08.ORD + VOL
UNI = t("unique_front", "detail::uniqueSortedParetoFront", prelude=HPRE, contracts={D + "findParetoFrontSort": contract_of(SORT)}, requires=[c08.SEP],
  ensures=[("every row of the result is a row, every non-dominated row is in the result", "frontier fmat result"), ("not more rows", "len_sd result <= len_sd fmat")],
  ghost={"loop1.end": "assert { [@expl:this row is in the result] eqrow front (get_sd fmat optimal_idx) };"},
  loops={1: dict(inv=[("rows of the matrix", "rows_of fmat front /\\ len_sd front <= optimal_idx__i"), ("the rows so far are in the result", "forall k. 0 <= k < optimal_idx__i -> eqrow front (get_sd fmat (get_i optimal_indices k))")])})

LIM = TARGETS.index([x for x in TARGETS if x["name"] == "limitSet"][0])
LIMT = TARGETS.pop(LIM)
LIMT["prelude"] = HPRE
LIMT["requires"] = [("rows as long as the limit", "forall k. 0 <= k < len_sd fmat_0 -> len_d (get_sd fmat_0 k) = len_d limit_0")]
LIMT["use_types"] = [Ty("seq", Ty("int"))]
LIMT["ensures"] = [("every value is the smaller one of the old value and the limit", "limits fmat_0 0 (len_sd fmat_0) limit_0 result")]
TARGETS.append(LIMT)

C_LIM = contract_of(LIMT)
def tr_box(tr, vs, n):
    """std::transform_reduce as the product of the differences (any other operation: an unknown value)"""
    a, b, init, f, g = vs[0], vs[2], vs[3], vs[4], vs[5]
    op = lambda o: getattr(o, "name", "").split("::")[-1].split("<")[0]
    v = tr.any(DBL)
    tr.check("as many values in the second range", "%s <= len_d %s" % (par(idx_of(vs[1])), par(tr.term(b.seq))))
    if op(f) == "multiplies" and op(g) == "minus" and tr.term(tr.coerce(init, DBL)) == "(d_of_int 1)" and idx_of(a) == "0" and idx_of(b) == "0":
        tr.models.use(tr, "std::transform_reduce with multiplies and minus from 1: the product of the differences, in some order; the rounding is not bounded")
        tr.assume("%s = len_d %s -> approx %s (box %s %s)" % (par(idx_of(vs[1])), par(tr.term(a.seq)), v, par(tr.term(a.seq)), par(tr.term(b.seq))))
    return T(v, DBL)
GEQ = "(forall i. 0 <= i < len_d %s -> d_is_num (get_d %s i) /\\ d_is_num (get_d %s i) /\\ d_rk (get_d %s i) <= d_rk (get_d %s i))"
def geq(r, p): return GEQ % (r, r, p, r, p)
VB = t("volumeBetween", "math::volumeBetween", prelude=HPRE, use_types=[Ty("seq", Ty("seq", DBL)), Ty("seq", Ty("int"))], std={"transform_reduce": tr_box}, requires=[("points of one length, the second one not above the first one", "len_d p1_0 = len_d p2_0 /\\ " + geq("p2_0", "p1_0"))], ensures=[("the volume between the points", "approx result (box p1_0 p2_0)")])
VB["tu"] = drv("metrics.cpp")
CV = {"gapp::math::volumeBetween": contract_of(VB)}
PP = ("a point that is not below the reference point", "len_d point_0 = len_d ref_point_0 /\\ " + geq("ref_point_0", "point_0"))
INC = t("inclusive", "detail::inclusiveHypervolume", prelude=HPRE, contracts=CV, use_types=[Ty("seq", Ty("seq", DBL)), Ty("seq", Ty("int"))], requires=[PP], ensures=[("the volume of the point's box", "approx result (box point_0 ref_point_0)")])
HVP = [ABOVE, c08.SEP]
HVE = [("the volume of the union of the boxes of the points", "approx result (vol fmat 0 (len_sd fmat) ref_point_0)")]
seqsel = lambda f: "detail3seq" in f.mangled or "seqE" in f.mangled
parsel = lambda f: "3par" in f.mangled
HSEQ = dict(name="hv_seq", requires=HVP + [("the recursion gets smaller", "len_sd fmat < measure")], ensures=HVE, params=["", "fmat", "ref_point"])
MEAS = "val constant measure : int\n"
REQX = [PP, ("rows not below the reference point, no NaN", "above rest ref_point_0"), ("the rows and the point have values that are equal or separated", "sep_with rest point_0")]
ENSX = [("the volume of the point's box less the volume of the rows limited to it", "exists l. limits rest 0 (len_sd rest) point_0 l /\\ approx result (box point_0 ref_point_0 -. vol l 0 (len_sd l) ref_point_0)")]
US = [Ty("seq", Ty("seq", DBL)), Ty("seq", Ty("int"))]
EXC = t("exclusive", "detail::exclusiveHypervolume", prelude=HPRE + MEAS, use_types=US, contracts={D + "inclusiveHypervolume": contract_of(INC), D + "limitSet": contract_of(LIMT), D + "hypervolume": contract_of(HSEQ)},
  requires=REQX + [("fewer rows than in the caller", "len_sd rest < measure")], ensures=ENSX)

EXCC = {D + "exclusiveHypervolume": contract_of(dict(EXC, requires=REQX + [("fewer rows than in the caller", "len_sd rest < measure")])), D + "uniqueSortedParetoFront": contract_of(UNI)}
FRN = "vol front 0 (len_sd front) ref_point"
RESTG = "assert { [@expl:the remaining rows are rows of the front] rows_of front rest by forall k. 0 <= k < len_sd rest -> get_sd rest k = get_sd front (%(p)s + 1 + k) }; assert { [@expl:the point is a row of the front] rowof front (get_sd front %(p)s) }; assert { [@expl:the remaining rows are separated] separated rest };"
VOLG = "assert { [@expl:inclusion and exclusion] forall l. limits rest 0 (len_sd rest) (get_sd front %(p)s) l -> (vol front %(p)s (len_sd front) ref_point = box (get_sd front %(p)s) ref_point +. vol front (%(p)s + 1) (len_sd front) ref_point -. vol l 0 (len_sd l) ref_point by limits front (%(p)s + 1) (len_sd front) (get_sd front %(p)s) l) };"
t("hv_seq", "detail::hypervolume", seqsel, params=["tag", "fmat", "ref_point"], prelude=HPRE + MEAS, use_types=US, contracts=EXCC, requires=HVP + [("measure of the recursion", "measure = len_sd fmat")], ensures=HVE,
  ghost={"loop1.before": "assert { [@expl:the front has the volume of all points] %s = vol fmat 0 (len_sd fmat) ref_point }; assert { [@expl:the front is separated] separated front };" % FRN, "decl:rest": RESTG % dict(p="point"), "loop1.end": VOLG % dict(p="point")},
  loops={1: dict(inv=[("the volume of the rows so far", "approx hypervolume (%s -. vol front point (len_sd front) ref_point)" % FRN)])})

def pfor(tr, fn, o, vs, n):
    tr.models.use(tr, "parallel_for calls the function once for every index, in any order and concurrently; the atomic additions of the iterations commute (up to rounding)")
    tr.in_par = True
    r = c08.par_for(tr, fn, o, vs, n)
    tr.in_par = False
    return r
def at_add(tr, o, vs):
    """atomic<double>::fetch_add"""
    old = tr.any(DBL) if getattr(tr, "in_par", False) else tr.snap(o)
    tr.assign(o, T("(d_add %s %s)" % (par(tr.term(o)), par(tr.term(vs[0]))), DBL))
    return old
def at_load(tr, o, vs):
    """inside the concurrent iterations another iteration may have changed the value"""
    return T(tr.any(DBL), DBL) if getattr(tr, "in_par", False) else tr.snap(o)
def at_store(tr, o, vs):
    """inside the concurrent iterations a plain store loses what the others added"""
    tr.assign(o, T(tr.any(DBL), DBL) if getattr(tr, "in_par", False) else vs[0])
    return UNIT
HPAR = t("hv_par", "detail::hypervolume", parsel, params=["tag", "fmat", "ref_point"], prelude=HPRE + MEAS, use_types=US, types={"std::atomic<double>": DBL, "atomic<double>": DBL, "iota_iterator<>": SZ}, globals={"memory_order_relaxed": lambda tr: T("0", SZ)}, contracts={**EXCC, D + "parallel_for": pfor}, obj_methods={"fetch_add": at_add, "load": at_load, "store": at_store}, requires=HVP + [("measure of the recursion", "measure = len_sd fmat")], ensures=HVE,
  ghost={"loop1.before": "assert { [@expl:the front has the volume of all points] %s = vol fmat 0 (len_sd fmat) ref_point }; assert { [@expl:the front is separated] separated front };" % FRN, "decl:rest": RESTG % dict(p="idx"), "decl:exclusive_hypervolume": VOLG % dict(p="idx") + " assert { [@expl:the volume added] forall l. limits rest 0 (len_sd rest) point l -> approx exclusive_hypervolume (box point ref_point -. vol l 0 (len_sd l) ref_point) -> approx exclusive_hypervolume (vol front idx (len_sd front) ref_point -. vol front (idx + 1) (len_sd front) ref_point) by box point ref_point -. vol l 0 (len_sd l) ref_point = vol front idx (len_sd front) ref_point -. vol front (idx + 1) (len_sd front) ref_point }; assert { [@expl:the volume added] approx exclusive_hypervolume (vol front idx (len_sd front) ref_point -. vol front (idx + 1) (len_sd front) ref_point) };"},
  loops={1: dict(inv=[("the volume of the rows so far", "pf_i <= len_sd front /\\ approx hypervolume (%s -. vol front pf_i (len_sd front) ref_point)" % FRN)])})
HVT = t("hypervolume", "detail::hypervolume", lambda f: not seqsel(f) and not parsel(f), prelude=HPRE, use_types=US, contracts={D + "hypervolume": contract_of(dict(name="hv_par", params=["", "fmat", "ref_point"], requires=HVP, ensures=HVE), pick=parsel)}, requires=HVP, ensures=HVE)

# the hypervolume metrics
HV = HPRE + """
predicate hv_of (m: seq_sd) (r: seq_d) (v: dbl) = approx v (vol m 0 (len_sd m) r)
axiom vol_ext : forall m x y a b [vol m x y a, len_d b]. len_d a = len_d b -> (forall i. 0 <= i < len_d a -> get_d a i = get_d b i) -> vol m x y a = vol m x y b
predicate below (r: seq_d) (m: seq_sd) = forall k. 0 <= k < len_sd m -> len_d (get_sd m k) = len_d r /\\ forall i. 0 <= i < len_d r -> d_rk (get_d r i) <= d_rk (get_d (get_sd m k) i)
"""
CHV = {**CON, D + "hypervolume": contract_of(HVT)}
SEPP = ("values equal or separated by more than the tolerance", "separated " + F_)
d, o = fld("Hypervolume", "data_")
rp = fld("Hypervolume", "ref_point_")[0]
t("hypervolume_init", "metrics::Hypervolume::initialize", prelude=NUM, requires=[KNOWN, ("a reference point with a coordinate per objective", "len_d %s = ga.gainfo_num_objectives_" % rp)], ensures=[("no values before the run", "len_d %s = 0" % d), ("the reference point stays", "%s = %s" % (rp, fld("Hypervolume", "ref_point_")[1]))])
t("hypervolume_update", use_types=US, q="metrics::Hypervolume::update", prelude=PRE + HV, contracts=CHV, requires=[POP, SEPP, KNOWN, ("a reference point that is not better than any point", "len_d %s = ga.gainfo_num_objectives_ /\\ nums %s /\\ below %s %s" % (rp, rp, rp, F_))],
  ensures=[("one value is added, the earlier ones stay", "len_d {d} = len_d {o} + 1 /\\ forall k. 0 <= k < len_d {o} -> get_d {d} k = get_d {o} k".format(d=d, o=o)), ("the hypervolume of this generation", "hv_of %s %s (get_d %s (len_d %s))" % (F_, rp, d, o)), ("the reference point stays", "%s = %s" % (rp, fld("Hypervolume", "ref_point_")[1]))])
d, o = fld("AutoHypervolume", "data_")
w, wo = fld("AutoHypervolume", "worst_point_")
f, fo = fld("AutoHypervolume", "fitness_matrices_")
AUTO = "predicate auto (d: seq_d) (w: seq_d) (f: seq_ssd) = len_d d = len_ssd f /\\ nums w /\\ forall k [get_ssd f k]. 0 <= k < len_ssd f -> below w (get_ssd f k) /\\ separated (get_ssd f k) /\\ hv_of (get_ssd f k) w (get_d d k)\n"
t("auto_init", use_types=US, q="metrics::AutoHypervolume::initialize", prelude=NUM + HV + AUTO, requires=[KNOWN], ensures=[("no values before the run, no point seen", "len_d %s = 0 /\\ len_ssd %s = 0 /\\ len_d %s = ga.gainfo_num_objectives_ /\\ forall k. 0 <= k < len_d %s -> get_d %s k = d_inf" % (d, f, w, w, w)), ("nothing recorded", "auto %s %s %s" % (d, w, f))])
LOWER = """assert {{ [@expl:the worst point is at most the worst one of this generation and the previous one] forall i. 0 <= i < len_d {w} -> d_is_num (get_d {w} i) /\\ d_rk (get_d {w} i) <= d_rk (get_d worst_point i) /\\ d_rk (get_d {w} i) <= d_rk (get_d {wo} i) }}; assert {{ [@expl:not better than the points of this generation] below {w} {m} }}; assert {{ [@expl:not better than the points of an earlier generation] forall k. 0 <= k < len_ssd {fo} -> below {w} (get_ssd {fo} k) }};""".format(w=w, wo=wo, fo=fo, m=F_)
t("auto_update", use_types=US, q="metrics::AutoHypervolume::update", prelude=PRE + HV + AUTO, contracts={**CHV, "gapp::detail::elementwise_min": contract_of(EMIN)}, requires=[POP, SEPP, KNOWN, ("every recorded hypervolume is relative to the same reference point", "len_d %s = ga.gainfo_num_objectives_ /\\ auto %s %s %s" % (w, d, w, f))],
  ensures=[("the points of this generation are recorded", "len_ssd {f} = len_ssd {o} + 1 /\\ (forall k. 0 <= k < len_ssd {o} -> get_ssd {f} k = get_ssd {o} k) /\\ get_ssd {f} (len_ssd {o}) = {m}".format(f=f, o=fo, m=F_)),
           ("every generation's hypervolume is relative to the same reference point, the worst one of all generations", "len_d %s = ga.gainfo_num_objectives_ /\\ auto %s %s %s" % (w, d, w, f))],
  loops={1: dict(inv=[("the hypervolumes so far are relative to the new reference point", "len_d {d} = len_d {do} /\\ forall k. 0 <= k < i -> hv_of (get_ssd {fo} k) {w} (get_d {d} k)".format(d=d, do=o, fo=fo, w=w))])},
  ghost={"decl:worst_point": "assert { [@expl:numbers] forall i. 0 <= i < len_d worst_point -> (d_is_num (get_d worst_point i) by bound_at false %s 0 %s worst_point i) }; assert { [@expl:not better than the points of this generation] forall k i. 0 <= k < %s -> 0 <= i < len_d worst_point -> (d_rk (get_d worst_point i) <= d_rk (get_d (get_sd %s k) i) by bound_at false %s 0 %s worst_point i) }; assert { nums worst_point /\\ below worst_point %s };" % (F_, N_, N_, F_, F_, N_, F_), "loop1.before": LOWER, "exit": LOWER + "assert {{ [@expl:the hypervolumes stay if the reference point stays] forall k. 0 <= k < len_d {o} -> hv_of (get_ssd {fo} k) {w} (get_d {d} k) }};".format(o=o, fo=fo, w=w, d=d),
         "before_call:hypervolume": LOWER, "loop1.after": ""})

# the consequences of separation used above, from the definitions (the ones of specs/c08.py)
AX = lambda a: VOL[VOL.index("axiom " + a):].split("\n")[0].replace("axiom ", "goal ")
PR = lambda a: VOL[VOL.index("predicate " + a):].split("\n")[0]
TARGETS.append(lemmas.lemma("separated_limits", c08.theory_dbl() + theory.SEQ.replace("@", "d").replace("$", "dbl") + theory.SEQ.replace("@", "sd").replace("$", "seq_d") + c07.PAR + c07.LAWS + """
val predicate eq_sd (a b: seq_d)
axiom eq_def_sd : forall a b: seq_d. eq_sd a b <-> (len_d a = len_d b /\\ forall k. 0 <= k < len_d a -> d_eq (get_d a k) (get_d b k))
predicate numrow (a: seq_d) = forall i. 0 <= i < len_d a -> d_is_num (get_d a i)
predicate sep2 (a b: seq_d) = len_d a = len_d b /\\ numrow a /\\ numrow b /\\ (forall i. 0 <= i < len_d a -> feq (get_d a i) (get_d b i) -> d_rk (get_d a i) = d_rk (get_d b i))
predicate separated (m: seq_sd) = forall a b. 0 <= a < len_sd m -> 0 <= b < len_sd m -> sep2 (get_sd m a) (get_sd m b)
predicate sep_with (m: seq_sd) (p: seq_d) = separated m /\\ forall a. 0 <= a < len_sd m -> sep2 (get_sd m a) p /\\ sep2 p (get_sd m a)
""" + "".join(PR(x) + "\n" for x in ("lim_at", "lim1", "limits", "rowof", "rows_of", "eqv", "eqrow")) + "".join(AX(x) + "\n" for x in ("sep_rows", "sep_pick", "sep_nums", "sep_len", "eqrow_last")) + """
let lemma snoc_elems (s: seq_sd) (a v: seq_d)
  ensures { eqrow (snoc_sd s a) v <-> eqrow s v \\/ eqv v a }
= assert { get_sd (snoc_sd s a) (len_sd s) = a };
  assert { forall j [get_sd s j]. 0 <= j < len_sd s -> get_sd (snoc_sd s a) j = get_sd s j };
  assert { eqv v a -> eqrow (snoc_sd s a) v by eqv v (get_sd (snoc_sd s a) (len_sd s)) };
  assert { forall j. 0 <= j < len_sd s -> eqv v (get_sd s j) -> eqrow (snoc_sd s a) v by eqv v (get_sd (snoc_sd s a) j) };
  assert { forall j. 0 <= j < len_sd s + 1 -> eqv v (get_sd (snoc_sd s a) j) -> eqrow s v \\/ eqv v a }
predicate pick (p o v: seq_d) = len_d v = len_d o = len_d p /\\ forall i. 0 <= i < len_d o -> get_d v i = get_d p i \\/ get_d v i = get_d o i
goal lim_elem : forall o p v i. lim_at o p v i -> get_d v i = get_d p i \\/ get_d v i = get_d o i
axiom a_elem : forall o p v i [lim_at o p v i]. lim_at o p v i -> get_d v i = get_d p i \\/ get_d v i = get_d o i
let lemma lim_pick (o p v: seq_d)
  requires { len_d o = len_d p /\\ lim1 o p v }
  ensures { pick p o v }
= assert { forall i [get_d v i]. 0 <= i < len_d o -> lim_at o p v i }
goal pick_sep : forall p a b x y. sep2 a p -> sep2 p a -> sep2 p b -> sep2 b p -> sep2 a b -> pick p a x -> pick p b y -> sep2 x y
axiom a_pick : forall o p v [lim1 o p v]. len_d o = len_d p -> lim1 o p v -> pick p o v
axiom a_sep : forall p a b x y [pick p a x, pick p b y]. sep2 a p -> sep2 p a -> sep2 p b -> sep2 b p -> sep2 a b -> pick p a x -> pick p b y -> sep2 x y
goal lim_rows : forall m p l. sep_with m p -> limits m 0 (len_sd m) p l -> forall k. 0 <= k < len_sd l -> pick p (get_sd m k) (get_sd l k)
axiom a_rows : forall m p l [limits m 0 (len_sd m) p l]. sep_with m p -> limits m 0 (len_sd m) p l -> forall k [get_sd l k]. 0 <= k < len_sd l -> pick p (get_sd m k) (get_sd l k)
""" + AX("eqrow_snoc") + "\n" + AX("sep_lim") + "\n"))

HARNESS = dict(src=["c15.cpp"], lib=True, asan=True, flags=[], exclude=[], secs=10, secs_thorough=60)

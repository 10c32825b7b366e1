from common import *
from fp import facts
from contracts import contract_of
import theory, lemmas, c07
PROP = "C14"
TU = drv("stop.cpp")
S = "gapp::stopping::"
TARGETS = []
BOOL = Ty("bool")
NUM = "predicate nums (f: seq_d) = forall k. 0 <= k < len_d f -> d_is_num (get_d f k)\n"
DEFV = NUM + """predicate better_at (b v: seq_d) (delta: dbl) (i: int) = d_le (d_add (get_d b i) delta) (get_d v i)
predicate better (b v: seq_d) (delta: dbl) = exists i. 0 <= i < len_d v /\\ better_at b v delta i
predicate updated (b0 b v: seq_d) (delta: dbl) (n: int) = len_d b = len_d b0 /\\ (forall i. 0 <= i < n -> get_d b i = if better_at b0 v delta i then get_d v i else get_d b0 i) /\\ (forall i. n <= i < len_d b0 -> get_d b i = get_d b0 i)
"""
DEF = DEFV + """predicate rows (m: seq_sd) (n: int) = forall k. 0 <= k < len_sd m -> len_d (get_sd m k) = n /\\ nums (get_sd m k)
"""
def t(name, q, m=lambda f: True, **kw):
    TARGETS.append(dict(dict(name=name, tu=TU, dbl=True, qname="gapp::" + q, match=m, prelude=DEF), **kw))
    return TARGETS[-1]
cls = lambda s: (lambda f: f.cls and f.cls.get("name") == s)
# extrema and means of the population
ROWS = [("a non-empty range of rows of one length", "0 <= first_0 < last_0 <= len_sd fmat /\\ forall k. 0 <= k < len_sd fmat -> len_d (get_sd fmat k) = len_d (get_sd fmat 0)"), ("no NaN", "forall k. first_0 <= k < last_0 -> nums (get_sd fmat k)")]
IT = dict(iter_params={"first": ("fmat", False), "last": ("fmat", False)})
EXTR = """
predicate attained (m: seq_sd) (a b: int) (r: seq_d) (i: int) = exists k. a <= k < b /\\ get_d (get_sd m k) i = get_d r i
predicate bound_at (sgn: bool) (m: seq_sd) (a b: int) (r: seq_d) (i: int) = d_is_num (get_d r i) /\\ (forall k. a <= k < b -> if sgn then d_rk (get_d (get_sd m k) i) <= d_rk (get_d r i) else d_rk (get_d r i) <= d_rk (get_d (get_sd m k) i)) /\\ attained m a b r i
predicate bound (sgn: bool) (m: seq_sd) (a b: int) (r: seq_d) = len_d r = len_d (get_sd m 0) /\\ forall i [get_d r i]. 0 <= i < len_d r -> bound_at sgn m a b r i
"""
EL = {}
for nm, s, op in (("min", "false", "<="), ("max", "true", ">=")):
    EL[nm] = t("elementwise_" + nm, "detail::elementwise_" + nm, m=lambda f: "ConstMatrixRowRef" in f.mangled and "inplace_t" in f.type, prelude=NUM, requires=[("equal lengths", "len_d left = len_d right"), ("no NaN", "nums left /\\ nums right")],
      ensures=[("every element becomes the %simum of the two" % nm, "len_d left = len_d (old left) /\\ forall k. 0 <= k < len_d left -> get_d left k = if d_lt %s then get_d right k else get_d (old left) k" % ("(get_d right k) (get_d (old left) k)" if nm == "min" else "(get_d (old left) k) (get_d right k)"))],
      loops={1: dict(inv=[("the elements so far are done", "len_d left = len_d (old left) /\\ (forall k. 0 <= k < i -> get_d left k = if d_lt %s then get_d right k else get_d (old left) k) /\\ (forall k. i <= k < len_d left -> get_d left k = get_d (old left) k)" % ("(get_d right k) (get_d (old left) k)" if nm == "min" else "(get_d (old left) k) (get_d right k)"))])})
EXT = {}
for nm, s in (("min", "false"), ("max", "true")):
    EXT[nm] = t(nm + "Fitness", "detail::" + nm + "Fitness", prelude=DEF + EXTR, contracts={"gapp::detail::elementwise_" + nm: contract_of(EL[nm])}, **IT, requires=ROWS,
      ensures=[("the %simum of every objective over the rows, attained by a row" % nm, "bound %s fmat first_0 last_0 result" % s)],
      loops={1: dict(inv=[("position", "first_0 <= first < last"), ("numbers", "nums %s_fitness" % nm), ("the extremum of the rows so far", "bound %s fmat first_0 (first+1) %s_fitness" % (s, nm))], variant="last - first")},
      ghost={"loop1.body": "let ghost r0 = %s_fitness in" % nm, "loop1.end": "assert { forall i. 0 <= i < len_d r0 -> get_d r0 i = get_d {r} i -> attained fmat first_0 first r0 i -> attained fmat first_0 (first+1) {r} i }; assert { forall i. 0 <= i < len_d r0 -> bound_at {s} fmat first_0 first r0 i -> bound_at {s} fmat first_0 (first+1) {r} i };".replace("{r}", nm + "_fitness").replace("{s}", s)})
MEAN = """
function msum (m: seq_sd) (a k: int) (w: dbl) (i: int) : dbl
axiom msum_zero : forall m a w i [msum m a a w i]. msum m a a w i = d_zero
axiom msum_step : forall m a k w i [msum m a (k+1) w i]. a <= k -> msum m a (k+1) w i = d_add (msum m a k w i) (d_mul (get_d (get_sd m k) i) w)
predicate mean_of (m: seq_sd) (a b: int) (r: seq_d) = len_d r = len_d (get_sd m 0) /\\ forall i. 0 <= i < len_d r -> get_d r i = msum m a b (d_div (d_of_int 1) (d_of_int (b - a))) i
"""
MEANT = t("fitnessMean", "detail::fitnessMean", prelude=DEF + MEAN, **IT, requires=ROWS[:1], ensures=[("the sum of the values divided by the number of rows", "mean_of fmat first_0 last_0 result")],
  loops={1: dict(inv=[("the sums of the rows so far", "forall c. 0 <= c < len_d fitness_mean -> get_d fitness_mean c = msum fmat first_0 for_each__i ninv c")]),
         2: dict(inv=[("the sums of the objectives so far include this row", "forall c. 0 <= c < len_d fitness_mean -> get_d fitness_mean c = msum fmat first_0 (if c < i then for_each__i + 1 else for_each__i) ninv c")])})
# stop conditions
ga = "ga.gainfo_"
LOAD = dict(obj_methods={"load": lambda tr, o, vs: o.args[0]}, globals={"memory_order_acquire": lambda tr: T("0", SZ)})
NE = t("num_fitness_evals", "GaInfo::num_fitness_evals", prelude="", ensures=[("the number of counted evaluations", "result = this_.gainfo_num_fitness_evals_")], **LOAD)
BASE = t("operator()", "stopping::StopCondition::operator()", prelude="val function stops_ (state: int) : bool\nval function next_ (state: int) : int\n", obj_members={}, use_types=[DBL], ghost_params=["(ref state: int)"], ghost_outs=[("state", SZ, lambda tr: L("state", [], SZ, SZ))],
  contracts={S + "StopCondition::stop_condition": lambda tr, fn, o, vs, n: (tr.blk.add("raw", "let b' = stops_ state in state <- next_ state;"), T("b'", BOOL))[1]},
  requires=[("the current generation is below the maximum", "0 <= ga.gainfo_generation_cntr_ < ga.gainfo_max_gen_ < 18446744073709551616")],
  ensures=[("stops iff the condition is met or the generations are over", "result <-> stops_ (old state) \\/ ga.gainfo_generation_cntr_ + 1 >= ga.gainfo_max_gen_"), ("the condition is evaluated once", "state = next_ (old state)")])
IMP = t("metricImproved", "stopping::metricImproved", prelude=DEFV, requires=[("equal lengths", "len_d best_so_far = len_d new_val")],
  ensures=[("improved iff some value reached the previous best plus delta", "result <-> better (old best_so_far) new_val delta_0"), ("the improved values become the best ones", "updated (old best_so_far) best_so_far new_val delta_0 (len_d new_val)")],
  loops={1: dict(inv=[("the values so far are updated", "updated (old best_so_far) best_so_far new_val delta i"), ("improved iff a value so far is better", "improved <-> exists k. 0 <= k < i /\\ better_at (old best_so_far) new_val delta k")])})
CON = {"gapp::GaInfo::num_fitness_evals": contract_of(NE), "gapp::math::paretoCompareLess": lambda tr, fn, o, vs, n: (tr.check("equal lengths", "len_d %s = len_d %s" % tuple(par(tr.term(v)) for v in vs)), T("(ncworse %s %s)" % tuple(par(tr.term(v)) for v in vs), BOOL))[1]}
t("fitnessEvals", "stopping::FitnessEvals::stop_condition", contracts=CON, ensures=[("met once the maximum number of evaluations is reached", "result <-> ga.gainfo_num_fitness_evals_ >= this_.fitnessevals_max_fitness_evals_")])
t("fitnessValue", "stopping::FitnessValue::stop_condition", contracts=CON, prelude=c07.DEF + DEF + "predicate worse_at (a b: seq_d) (i: int) = flt (get_d a i) (get_d b i)\npredicate ncworse (a b: seq_d) = (forall i. 0 <= i < len_d a -> not (worse_at b a i)) /\\ (exists i. 0 <= i < len_d a /\\ worse_at a b i)\n",
  requires=[("every row has a value per objective, so has the threshold", "0 < ga.gainfo_num_objectives_ /\\ rows ga.gainfo_fitness_matrix_ ga.gainfo_num_objectives_ /\\ len_d this_.fitnessvalue_fitness_threshold_ = ga.gainfo_num_objectives_")],
  ensures=[("met iff some candidate is not dominated by the threshold", "result <-> exists k. 0 <= k < len_sd ga.gainfo_fitness_matrix_ /\\ not (ncworse (get_sd ga.gainfo_fitness_matrix_ k) this_.fitnessvalue_fitness_threshold_)")],
  ghost={"exit": "assert { [@expl:the span of a row is the row] forall k. 0 <= k < len_sd ga.gainfo_fitness_matrix_ -> let r = get_sd ga.gainfo_fitness_matrix_ k in let s = sub_d r 0 (len_d r) in len_d s = len_d r /\\ forall j. 0 <= j < len_d r -> get_d s j = get_d r j }; assert { forall k. 0 <= k < len_sd ga.gainfo_fitness_matrix_ -> let r = get_sd ga.gainfo_fitness_matrix_ k in let s = sub_d r 0 (len_d r) in ncworse s this_.fitnessvalue_fitness_threshold_ <-> ncworse r this_.fitnessvalue_fitness_threshold_ };"})
CON.update({S + "metricImproved": contract_of(IMP), "gapp::detail::maxFitness": contract_of(EXT["max"]), "gapp::detail::fitnessMean": contract_of(MEANT)})
POP = ("a population with rows of one length without NaN", "0 < len_sd ga.gainfo_fitness_matrix_ /\\ rows ga.gainfo_fitness_matrix_ ga.gainfo_num_objectives_")
for c, fld, met in (("FitnessMeanStall", "best_fitness_mean_", "mean_of"), ("FitnessBestStall", "fitness_max_", "bound true")):
    lo = c.lower()
    p = "this_." + lo + "_"
    o = "(old this_)." + lo + "_"
    same = "%spatience_ = %spatience_ /\\ %sdelta_ = %sdelta_" % (p, o, p, o)
    PAT = ("a patience below the largest number", "%spatience_ < 18446744073709551615" % p)
    t(lo[0:11] + "_init", "stopping::" + c + "::initialize", prelude=NUM, requires=[PAT, ("the number of objectives is known", "0 < ga.gainfo_num_objectives_")], ensures=[("the patience starts over", "%scntr_ = %spatience_ + 1" % (p, p)), ("nothing reached yet", "len_d %s%s = ga.gainfo_num_objectives_ /\\ forall i. 0 <= i < ga.gainfo_num_objectives_ -> get_d %s%s i = d_neg d_inf" % (p, fld, p, fld)), ("settings unchanged", same)])
    t(lo[0:11] + "_stop", "stopping::" + c + "::stop_condition", prelude=DEF + EXTR + MEAN, contracts=CON, requires=[POP, PAT, ("initialised", "0 <= %scntr_ /\\ len_d %s%s = ga.gainfo_num_objectives_" % (p, p, fld))],
      ensures=[("the patience starts over with every improvement of the metric by at least delta, else it runs down by one", "exists v. %s ga.gainfo_fitness_matrix_ 0 (len_sd ga.gainfo_fitness_matrix_) v /\\ updated %s%s %s%s v %sdelta_ (len_d v) /\\ %scntr_ = (if better %s%s v %sdelta_ then %spatience_ + 1 else if %scntr_ = 0 then 0 else %scntr_ - 1)" % (met, o, fld, p, fld, p, p, o, fld, p, p, o, o)),
               ("met iff the patience has run out", "result <-> %scntr_ = 0" % p), ("settings unchanged", same), ("the number of values stays", "len_d %s%s = ga.gainfo_num_objectives_" % (p, fld))])
t("noEarlyStop", "stopping::NoEarlyStop::stop_condition", prelude="", use_types=[DBL], ensures=[("never met", "not result")])

# composition: a child is any state machine, evaluated through its operator()
COMP = "val function stops_ (child: int) (state: int) : bool\nval function next_ (child: int) (state: int) : int\nval function init_ (child: int) (state: int) : int\n"
CH = {"left_": ("0", "ls"), "right_": ("1", "rs"), "base_": ("0", "ls")}
def child(k):
    return lambda tr, v: Obj("child:" + k, [])
def c_invoke(tr, vs, n=None):
    k, s = CH[vs[0].name[6:]]
    b = tr.any(BOOL)
    tr.assume("%s = stops_ %s %s" % (b, k, s))
    tr.blk.add("raw", "%s <- next_ %s %s;" % (s, k, s))
    return T(b, BOOL)
def m_init(tr, o, vs):
    k, s = CH[o.name[6:]]
    tr.blk.add("raw", "%s <- init_ %s %s;" % (s, k, s))
    return UNIT
KW = dict(prelude=COMP, obj_members={k: child(k) for k in CH}, std={"invoke": c_invoke}, obj_methods={"initialize": m_init}, ghost_params=["(ref ls: int)", "(ref rs: int)"], use_types=[DBL], obj_calls={"child:" + k: (lambda tr, c, vs: c_invoke(tr, [c])) for k in CH})
L_, R_ = "stops_ 0 (old ls)", "stops_ 1 (old rs)"
BOTH = "ls = next_ 0 (old ls) /\\ rs = next_ 1 (old rs)"
for c, e in (("OR", [("met iff one of the conditions is met", "result <-> %s \\/ %s" % (L_, R_)), ("both conditions are evaluated in every generation unless the run stops", "ls = next_ 0 (old ls) /\\ (not result -> rs = next_ 1 (old rs))")]),
             ("AND", [("met iff both conditions are met", "result <-> %s /\\ %s" % (L_, R_)), ("both conditions are evaluated in every generation", BOTH)]),
             ("NOT", [("met iff the condition is not met", "result <-> not (%s)" % L_), ("the condition is evaluated in every generation", "ls = next_ 0 (old ls)")])):
    m = lambda f: f.mangled != ""
    t(c.lower() + "_stop", "stopping::dtl::" + c + "::stop_condition", m=m, **KW, ensures=e)
    t(c.lower() + "_init", "stopping::dtl::" + c + "::initialize", m=m, **KW, ensures=[("every condition is initialised", "ls = init_ 0 (old ls)" + ("" if c == "NOT" else " /\\ rs = init_ 1 (old rs)"))])
TARGETS.append(lemmas.lemma("patience", c07.theory_dbl() + """
function count (p n: int) : int
axiom start : forall p. count p 0 = p + 1
axiom stall : forall p n. 0 <= n -> count p (n+1) = if count p n = 0 then 0 else count p n - 1
let rec lemma counts_down (p n: int)
  requires { 0 <= p /\\ 0 <= n } ensures { count p n = if n <= p + 1 then p + 1 - n else 0 } variant { n }
= if n > 0 then counts_down p (n-1)
goal stops_after_patience: forall p n. 0 <= p -> 0 <= n -> (count p n = 0 <-> n >= p + 1)
"""))
HARNESS = dict(src=["c14.cpp"], lib=True, asan=True, flags=[], exclude=[], secs=10, secs_thorough=60)

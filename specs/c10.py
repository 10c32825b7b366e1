from common import *
from contracts import contract_of
import theory, lemmas, c07, c08
PROP = "C10"
TU = drv("soga.cpp")
TARGETS = []
R = "gapp::replacement::"
N = "ga.gainfo_population_size_"
SEPW = """
(* separated: rows of one length (one objective) without NaN whose values are pairwise equal or further apart than the comparison tolerance; consequences proved by lemma_one_objective *)
predicate sep1 (m: seq_sd)
axiom sep1_trans : forall m a b c [sep1 m, worse (get_sd m a) (get_sd m b), worse (get_sd m b) (get_sd m c)]. sep1 m -> 0 <= a < len_sd m -> 0 <= b < len_sd m -> 0 <= c < len_sd m -> worse (get_sd m a) (get_sd m b) -> worse (get_sd m b) (get_sd m c) -> worse (get_sd m a) (get_sd m c)
axiom sep1_neg : forall m a b c [sep1 m, get_sd m b, worse (get_sd m a) (get_sd m c)]. sep1 m -> 0 <= a < len_sd m -> 0 <= b < len_sd m -> 0 <= c < len_sd m -> worse (get_sd m a) (get_sd m c) -> worse (get_sd m a) (get_sd m b) \\/ worse (get_sd m b) (get_sd m c)
"""
PRE0 = c08.DOM + "predicate firsts (m: seq_sd) (s: seq_i) (e: int) = forall k q [get_i s k, get_i s q]. 0 <= k < e -> e <= q < len_i s -> not (worse (get_sd m (get_i s k)) (get_sd m (get_i s q)))\n" + "predicate memf (s: seq_i) (n p: int) = exists j. 0 <= j < n /\\ get_i s j = p\n" + lemmas.PERM_AX + SEPW
def STEP(s, e):
    return ("assert { [@expl:the order is a permutation] perm %(s)s }; assert { [@expl:the first ones are not worse than the rest] firsts fmat %(s)s %(e)s };"
            " assert { [@expl:every index has a position] forall p. 0 <= p < len_i %(s)s -> 0 <= inv_i %(s)s p < len_i %(s)s /\\ get_i %(s)s (inv_i %(s)s p) = p };"
            " assert { [@expl:nothing outside the first ones is better] forall k p. 0 <= k < %(e)s -> 0 <= p < len_i %(s)s -> inv_i %(s)s p >= %(e)s -> not (worse (get_sd fmat (get_i %(s)s k)) (get_sd fmat p)) };"
            " assert { [@expl:better ones are among the first] forall k p. 0 <= k < %(e)s -> 0 <= p < len_i %(s)s -> worse (get_sd fmat (get_i %(s)s k)) (get_sd fmat p) -> inv_i %(s)s p < %(e)s /\\ memf %(s)s %(e)s p };" % dict(s=s, e=e))


PRE = PRE0
SEP = ("one objective without NaN, values equal or separated by more than the tolerance", "sep1 fmat")


def t(name, q, **kw):
    TARGETS.append(dict(dict(name=name, tu=TU, dbl=True, qname=R + q + "::nextPopulationImpl", prelude=PRE, contracts=c08.CON), **kw))
    return TARGETS[-1]


SIZES = ("a positive population size and two populations", "0 < %s /\\ 2 * %s <= len_sd fmat" % (N, N))
t("keep_children", "KeepChildren", params=["ga", "fmat"], requires=[SIZES, ("sizes below 2^49", "%s < 562949953421312" % N)], ensures=[("the first children", "len_i result = %s /\\ forall k. 0 <= k < %s -> get_i result k = %s + k" % (N, N, N))])
EC = "(if this_.elitism_n_ < {0} then this_.elitism_n_ else {0})".format(N)
t("elitism", "Elitism", ghost={"decl:sorted_parent_indices": STEP("sorted_parent_indices", "elite_count"), "exit": "assert { [@expl:the elites come first] forall j. 0 <= j < elite_count -> get_i indices__5 j = get_i sorted_parent_indices j };"}, requires=[SIZES, SEP, ("sizes below 2^49", "%s < 562949953421312" % N)], ensures=[
    ("population size indices", "len_i result = %s" % N), ("the elites are parents, each once", "forall i j. 0 <= i < %s -> 0 <= get_i result i < %s /\\ (0 <= j < i -> get_i result i <> get_i result j)" % (EC, N)),
    ("no other parent is better than an elite", "forall k p. 0 <= k < %s -> 0 <= p < %s -> worse (get_sd fmat (get_i result k)) (get_sd fmat p) -> memf result %s p" % (EC, N, EC)),
    ("the rest are the first children", "forall k. %s <= k < %s -> get_i result k = %s + (k - %s)" % (EC, N, N, EC))])
t("keep_best", "KeepBest", ghost={"decl:sorted_indices": STEP("sorted_indices", N) + "let ghost all = sorted_indices in", "exit": "assert { [@expl:the first ones are kept] forall j. 0 <= j < %s -> get_i sorted_indices j = get_i all j };" % N}, requires=[SIZES, SEP, ("sizes below 2^49", "len_sd fmat < 562949953421312")], ensures=[
    ("population size indices", "len_i result = %s" % N), ("each once, in range", "inj_i result /\\ inrange result (len_sd fmat)"),
    ("best first", "forall i j. 0 <= i < j < %s -> not (worse (get_sd fmat (get_i result i)) (get_sd fmat (get_i result j)))" % N),
    ("no other candidate is better than a kept one", "forall k p. 0 <= k < %s -> 0 <= p < len_sd fmat -> worse (get_sd fmat (get_i result k)) (get_sd fmat p) -> memf result %s p" % (N, N))])
SQ = lambda a, b: theory.SEQ.replace("@", a).replace("$", b)
TARGETS.append(lemmas.lemma("one_objective", c08.theory_dbl() + SQ("d", "dbl") + SQ("sd", "seq_d") + c07.PAR + c07.LAWS + """
predicate worse (a b: seq_d) = len_d a = len_d b /\\ ncworse a b
predicate numrow (a: seq_d) = forall i. 0 <= i < len_d a -> d_is_num (get_d a i)
predicate sep2 (a b: seq_d) = len_d a = 1 /\\ len_d b = 1 /\\ numrow a /\\ numrow b /\\ (feq (get_d a 0) (get_d b 0) -> d_rk (get_d a 0) = d_rk (get_d b 0))
predicate sep1 (m: seq_sd) = forall a b. 0 <= a < len_sd m -> 0 <= b < len_sd m -> sep2 (get_sd m a) (get_sd m b)
goal worse_value : forall a b. sep2 a b -> (worse a b <-> d_rk (get_d a 0) < d_rk (get_d b 0))
axiom a_value : forall a b [worse a b]. sep2 a b -> (worse a b <-> d_rk (get_d a 0) < d_rk (get_d b 0))
""" + SEPW.split("predicate sep1 (m: seq_sd)\n")[1].replace("axiom ", "goal ")))
G = "gapp::algorithm::Algorithm::"
FIT = """
function fit (s: seq_candidate_d) (i: int) : seq_d = (get_candidate_d s i).candidate_d_fitness
"""
CD = "candidate_d"
def c_next(tr, fn, o, vs, n):
    """Contract of the virtual nextPopulationImpl: distinct indices into the combined fitness matrix (what a policy has to return)."""
    m = tr.term(vs[-1])
    r = tr.any(Ty("seq", SZ))
    tr.assume("inj_i %s /\\ inrange %s (len_sd %s)" % (r, r, par(m)))
    tr.blk.add("raw", "let ghost chosen = %s in" % r)
    return T(r, Ty("seq", SZ))


def c_opt(tr, fn, o, vs, n):
    r = tr.any(Ty("seq", SZ))
    tr.assume("inj_i %s /\\ inrange %s ga.ga_d_population_size_" % (r, r))
    tr.blk.add("raw", "let ghost chosen = %s in" % r)
    return T(r, Ty("seq", SZ))


def c_sel(tr, fn, o, vs, n):
    r = tr.any(SZ)
    tr.assume("0 <= %s < len_sd fmat" % r)
    tr.blk.add("raw", "let ghost chosen = %s in" % r)
    return T(r, SZ)


def c_front(tr, fn, o, vs, n):
    p = tr.term(vs[0])
    r = tr.any(Ty("seq", Ty("rec", CD)))
    tr.assume("front_of %s %s" % (par(p), r))
    return T(r, Ty("seq", Ty("rec", CD)))


VIRT = {"%s::%s" % (c, f): h for c in ("gapp::algorithm::Algorithm", "gapp::replacement::Replacement", "gapp::selection::Selection") for f, h in (("nextPopulationImpl", c_next), ("optimalSolutionsImpl", c_opt), ("selectImpl", c_sel))}
ALG = {**VIRT, "gapp::detail::toFitnessMatrix": contract_of(c08.TFM), "gapp::detail::findParetoFront": c_front}
FIT = PERM_I + """
predicate picked (pop: seq_candidate_d) (idx: seq_i) (n: int) (r: seq_candidate_d) = len_candidate_d r = n /\\ forall k. 0 <= k < n -> get_candidate_d r k = get_candidate_d pop (get_i idx k)
predicate selection_of (pop r: seq_candidate_d) = exists idx. inj_i idx /\\ inrange idx (len_candidate_d pop) /\\ picked pop idx (len_i idx) r
(* the Pareto front of a population, as returned by findParetoFront (C08) *)
predicate front_of (pop r: seq_candidate_d)
"""
PS = "ga.ga_d_population_size_"
LEN = lambda s: "len_candidate_d " + s
t("nextPopulation", "x", qname=G + "nextPopulation", contracts=ALG, prelude=FIT, requires=[("populations of proper sizes", "%s = %s /\\ %s <= %s" % (PS, LEN("parents_0"), PS, LEN("children_0"))), ("total below 2^50", "%s + %s < size_limit" % (LEN("parents_0"), LEN("children_0")))],
  ensures=[("the next population consists of candidates of the combined population, each at most once", "exists all. len_candidate_d all = len_candidate_d parents_0 + len_candidate_d children_0 /\\ (forall k. 0 <= k < len_candidate_d all -> get_candidate_d all k = (if k < len_candidate_d parents_0 then get_candidate_d parents_0 k else get_candidate_d children_0 (k - len_candidate_d parents_0))) /\\ selection_of all result")],
  loops={1: dict(inv=[("selected so far", "picked parents chosen idx__i selected")])})
t("optimalSolutions", "x", qname=G + "optimalSolutions", contracts=ALG, prelude=FIT, requires=[("the population has the population size", "%s = %s" % (PS, LEN("pop")))], ensures=[("the solutions the algorithm names, or the Pareto front", "front_of pop result \\/ selection_of pop result")],
  loops={1: dict(inv=[("selected so far", "picked pop chosen idx__i selected")])})
t("select_candidate", "x", qname=G + "select", contracts=ALG, prelude="\n", ghost={"exit": "assert { [@expl:the selected one] res_ = get_candidate_d pop chosen };"}, requires=[("populations of proper sizes", "%s = %s /\\ len_sd fmat = %s" % (PS, LEN("pop"), PS))], ensures=[("a candidate of the population", "exists k. 0 <= k < %s /\\ result = get_candidate_d pop k" % LEN("pop"))])
HARNESS = dict(src=["c10.cpp"], lib=True, asan=True, secs=10, secs_thorough=60)

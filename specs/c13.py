from common import *
from contracts import contract_of
from translate import idx_of
import theory, lemmas, c08
PROP = "C13"
GENES = globals().get("GENES", False)  # C20 loads this file once more, with validity of the genes added
TU = drv("ga.cpp")
TARGETS = []
IC = Ty("rec", "candidate_i")
SI = Ty("seq", SZ)
def ptr(name):
    return lambda tr, v: Obj("ptr:" + name, [v])
PTRS = ("fitness_function_", "algorithm_", "stop_condition_", "crossover_", "mutation_", "repair_", "on_generation_end_")
OM = {k: ptr(k) for k in PTRS}
OO = {"->": lambda tr, a, vs: Obj("*" + a.name), "*": lambda tr, a, vs: Obj("*" + a.name)}
def m_bool(tr, o, vs):
    return T({"ptr:repair_": "has_repair_", "ptr:on_generation_end_": "has_callback_"}.get(o.name, "true"), BOOL)
def m_varlen(tr, o, vs):
    return T({"*ptr:mutation_": "mut_var_", "*ptr:crossover_": "cross_var_"}[o.name], BOOL)
def c_fitness(tr, c, vs):
    """a call of the user's fitness function: counted, fit_of for static ones"""
    tr.models.use(tr, "a static fitness function returns the same values for equal chromosomes, always num_objectives many numbers (the user's obligation)")
    r = tr.any(Ty("seq", DBL))
    x = par(tr.term(vs[0]))
    tr.assume("(not dyn_ -> %s = fit_of %s) /\\ okfit this_.ga_i_num_objectives_ %s" % (r, x, r))
    tr.blk.add("raw", "calls <- calls + 1;")
    return T(r, Ty("seq", DBL))
def m_fetch_add(tr, o, vs):
    v = o.args[0]
    old = tr.snap(v)
    tr.check("the counter does not overflow", "%s < 18446744073709551615" % par(tr.term(old)))
    tr.assign(v, T("(%s + %s)" % (par(tr.term(old)), par(tr.term(vs[0]))), SZ))
    return old
OMM = {"operator bool": m_bool, "allow_variable_chrom_length": m_varlen, "is_dynamic": lambda tr, o, vs: T("dyn_", BOOL), "chrom_len": lambda tr, o, vs: T("chrom_len_", SZ), "get": lambda tr, o, vs: o, "fetch_add": m_fetch_add}
GL = {"memory_order_release": lambda tr: T("0", SZ)}
PRE = r"""
val constant chrom_len_ : int
axiom chrom_len_range : 0 < chrom_len_ < size_limit
val constant dyn_ : bool
val constant mut_var_ : bool
val constant cross_var_ : bool
val constant has_repair_ : bool
val constant has_callback_ : bool
(* the values of a static fitness function *)
function fit_of (c: seq_i) : seq_d
predicate okc (c: candidate_i) = not dyn_ -> c.candidate_i_is_evaluated -> c.candidate_i_fitness = fit_of c.candidate_i_chromosome
predicate oklen (c: candidate_i) = (cross_var_ /\ mut_var_) \/ len_i c.candidate_i_chromosome = chrom_len_
predicate numsd (f: seq_d) = forall k. 0 <= k < len_d f -> d_is_num (get_d f k)
predicate okfit (n: int) (f: seq_d) = len_d f = n /\ numsd f
GENES_DEF
predicate evald (n: int) (c: candidate_i) = oklen c /\ GENES_OF c.candidate_i_is_evaluated /\ okfit n c.candidate_i_fitness /\ okc c
(* a candidate that is not necessarily evaluated *)
predicate cand (n: int) (c: candidate_i) = oklen c /\ GENES_OF okc c /\ (c.candidate_i_is_evaluated -> okfit n c.candidate_i_fitness)
predicate allcand (n: int) (p: seq_candidate_i) = forall k. 0 <= k < len_candidate_i p -> cand n (get_candidate_i p k)
predicate okp (p: seq_candidate_i) = forall k. 0 <= k < len_candidate_i p -> okc (get_candidate_i p k)
predicate synced (m: seq_sd) (p: seq_candidate_i) = len_sd m = len_candidate_i p /\ forall k. 0 <= k < len_sd m -> eq_sd (get_sd m k) (get_candidate_i p k).candidate_i_fitness
predicate sync (m: seq_sd) (p: seq_candidate_i) = len_sd m = len_candidate_i p /\ forall k. 0 <= k < len_sd m -> get_sd m k = (get_candidate_i p k).candidate_i_fitness
(* the number of objectives of the fitness function *)
val constant nobj_ : int
axiom nobj_range : 0 < nobj_ < size_limit
predicate cached (c: candidate_i) (f: seq_d) (n: int) = okfit n f /\ (not dyn_ -> f = fit_of c.candidate_i_chromosome)
predicate allevald (n: int) (p: seq_candidate_i) = forall k. 0 <= k < len_candidate_i p -> evald n (get_candidate_i p k)
"""
GDEF = """
(* validity of a chromosome for the encoding and the bounds of the run *)
predicate okg (c: seq_i)
val constant bnds_ : seq_bounds_i
"""
PRE = PRE.replace("GENES_DEF", GDEF if GENES else "").replace("GENES_OF ", "okg c.candidate_i_chromosome /\\ " if GENES else "")
BNDS = lambda g: " /\\ %s.ga_i_bounds_ = bnds_" % g if GENES else ""
def genes(*cs):
    return "".join(" /\\ okg %s" % c for c in cs) if GENES else ""

CON = {"gapp::GA::chrom_len": lambda tr, fn, o, vs, n: T("chrom_len_", SZ),
       "gapp::mutation::Mutation::allow_variable_chrom_length": lambda tr, fn, o, vs, n: T("mut_var_", BOOL),
       "gapp::crossover::Crossover::allow_variable_chrom_length": lambda tr, fn, o, vs, n: T("cross_var_", BOOL)}
def t(name, q, m=lambda f: True, **kw):
    TARGETS.append(dict(dict(name=name, tu=TU, dbl=True, qname="gapp::" + q, match=m, contracts=CON, obj_members=OM, obj_operators=OO, obj_methods=OMM, obj_calls={"*ptr:fitness_function_": c_fitness}, globals=GL, prelude=PRE, use_types=[IC]), **kw))
    return TARGETS[-1]
def v_mutate(tr, fn, o, vs, n):
    """the virtual mutate: the chromosome becomes anything of a proper length"""
    tr.models.use(tr, "crossovers and mutations change chromosome lengths only if both of them allow variable lengths")
    r = tr.any(SI)
    if GENES:
        tr.models.use(tr, "mutations keep the genes valid for the encoding (C05)")
        tr.check("the mutation gets valid genes", "okg %s" % par(tr.term(vs[2])))
    tr.assume("((cross_var_ /\\ mut_var_) \\/ len_i %s = len_i %s)%s" % (r, par(tr.term(vs[2])), genes(r)))
    tr.assign(vs[2], T(r, SI))
    return UNIT
def v_cross(tr, fn, o, vs, n):
    """the virtual crossover: any two children of a proper length"""
    P = tr.ty_str(cxxast.ret_of(fn.node["type"]["qualType"])).with_(const=False, ref=None)
    r = tr.any(P)
    F, S = r + ".candidatepair_i_first", r + ".candidatepair_i_second"
    if GENES:
        tr.models.use(tr, "crossovers keep the genes valid for the encoding (C01 to C04)")
        tr.check("the crossover gets valid genes", " /\\ ".join("okg %s.candidate_i_chromosome" % par(tr.term(v)) for v in vs[1:3]))
    tr.assume("oklen %s /\\ oklen %s%s" % (F, S, genes(F + ".candidate_i_chromosome", S + ".candidate_i_chromosome")))
    return T(r, P)
import cxxast
GNOBJ = ("the number of objectives is known", "0 < ga.ga_i_num_objectives_" + BNDS("ga"))
MUT = t("mutation", "mutation::Mutation::operator()", contracts={**CON, "gapp::mutation::Mutation::mutate": v_mutate}, requires=[("a valid candidate", "cand ga.ga_i_num_objectives_ candidate"), GNOBJ],
  ensures=[("the candidate stays valid, known fitness values stay those of the chromosome", "cand ga.ga_i_num_objectives_ candidate"),
           ("a changed chromosome has no known fitness", "candidate.candidate_i_is_evaluated -> (old candidate).candidate_i_is_evaluated /\\ ext_i candidate.candidate_i_chromosome (old candidate).candidate_i_chromosome /\\ candidate.candidate_i_fitness = (old candidate).candidate_i_fitness")])
CROSS = t("crossover", "crossover::Crossover::operator()", models=RNG, contracts={**CON, "gapp::crossover::Crossover::crossover": v_cross},
  requires=[("evaluated parents", "evald ga.ga_i_num_objectives_ parent1 /\\ evald ga.ga_i_num_objectives_ parent2"), GNOBJ],
  ensures=[("the children are valid, their known fitness values are those of their chromosomes", "cand ga.ga_i_num_objectives_ result.candidatepair_i_first /\\ cand ga.ga_i_num_objectives_ result.candidatepair_i_second")])
NOBJ = ("the number of objectives is known", "0 < this_.ga_i_num_objectives_" + BNDS("this_"))
HVF = t("hasValidFitness", "GA::hasValidFitness", requires=[NOBJ], ensures=[("evaluated with a value for every objective", "result <-> sol.candidate_i_is_evaluated /\\ len_d sol.candidate_i_fitness = this_.ga_i_num_objectives_")])
HVC = t("hasValidChromosome", "GA::hasValidChromosome", ensures=[("a proper length", "result <-> oklen sol")])
IVE = t("isValidEvaluatedPopulation", "GA::isValidEvaluatedPopulation", requires=[NOBJ], ensures=[("every candidate is evaluated and has a proper length", "result <-> forall k. 0 <= k < len_candidate_i pop -> oklen (get_candidate_i pop k) /\\ (get_candidate_i pop k).candidate_i_is_evaluated /\\ len_d (get_candidate_i pop k).candidate_i_fitness = this_.ga_i_num_objectives_")])
IVU = t("isValidUnevaluatedPopulation", "GA::isValidUnevaluatedPopulation", requires=[NOBJ], ensures=[("every candidate has a proper length, and fitness values of the proper number if evaluated", "result <-> forall k. 0 <= k < len_candidate_i pop -> oklen (get_candidate_i pop k) /\\ ((get_candidate_i pop k).candidate_i_is_evaluated -> len_d (get_candidate_i pop k).candidate_i_fitness = this_.ga_i_num_objectives_)")])
SYN = t("fitnessMatrixIsSynced", "GA::fitnessMatrixIsSynced", ensures=[("row k of the matrix is the fitness of candidate k", "result <-> synced this_.ga_i_fitness_matrix_ this_.ga_i_population_")])
CON = {**CON, "gapp::GA::hasValidFitness": contract_of(HVF), "gapp::GA::hasValidChromosome": contract_of(HVC), "gapp::GA::isValidEvaluatedPopulation": contract_of(IVE), "gapp::GA::isValidUnevaluatedPopulation": contract_of(IVU), "gapp::GA::fitnessMatrixIsSynced": contract_of(SYN)}
def c_repair(tr, c, vs):
    tr.models.use(tr, "the repair function returns chromosomes of a proper length (asserted by repair)")
    r = tr.any(SI)
    if GENES: tr.models.use(tr, "the repair function returns genes valid for the encoding (the user's obligation)")
    tr.assume("((cross_var_ /\\ mut_var_) \\/ len_i %s = chrom_len_)%s" % (r, genes(r)))
    return T(r, SI)
OC = {"*ptr:fitness_function_": c_fitness, "ptr:repair_": c_repair}
OLDS = "(old sol)"
REP = t("repair", "GA::repair", obj_calls=OC, contracts=CON, requires=[("a valid candidate", "cand this_.ga_i_num_objectives_ sol")],
  ensures=[("the candidate stays valid, known fitness values stay those of the chromosome", "cand this_.ga_i_num_objectives_ sol"), ("a changed chromosome has no known fitness", "sol.candidate_i_is_evaluated -> (old sol).candidate_i_is_evaluated /\\ sol.candidate_i_fitness = (old sol).candidate_i_fitness"), ("nothing changes without a repair function", "not has_repair_ -> sol = old sol")])
def call_target(spec):
    h = contract_of(spec)
    def g(tr, c, vs):
        import target
        return h(tr, target.find_fn(tr.ast, spec), None, vs, None)
    return g
c_mutop = call_target(MUT)
c_crossop = call_target(CROSS)
MUTE = t("mutate", "GA::mutate", requires=[("a valid candidate", "cand this_.ga_i_num_objectives_ sol"), NOBJ], ensures=[(a, __import__("re").sub(r"\bga\b", "this_", __import__("re").sub(r"\bcandidate\b", "sol", b))) for a, b in MUT["ensures"]], obj_calls={"*ptr:mutation_": c_mutop}, contracts=CON)
def cache_get(tr, o, vs):
    c = par(tr.term(vs[0]))
    r = tr.any(Ty("seq", DBL))
    h = tr.any(BOOL)
    tr.models.use(tr, "fifo_cache::get finds a value inserted for an equal key (C17), and only valid values were inserted (obligation of updatePopulation)")
    tr.assume("%s -> cached %s %s this_.ga_i_num_objectives_" % (h, c, r))
    return Obj("hit", [T(h, BOOL), T(r, Ty("seq", DBL))])
EVAL = t("evaluate", "GA::evaluate", obj_members={**OM, "fitness_cache_": ptr("cache")}, obj_methods={**OMM, "get": lambda tr, o, vs: cache_get(tr, o, vs) if o.name == "ptr:cache" else o, "operator bool": lambda tr, o, vs: o.args[0] if o.name == "hit" else m_bool(tr, o, vs)}, obj_operators={**OO, "*": lambda tr, a, vs: a.args[1] if a.name == "hit" else OO["*"](tr, a, vs)}, obj_calls=OC, contracts=CON, ghost_params=["(ref calls: int)"], ghost_outs=[("calls", SZ, lambda tr: L("calls", [], SZ, SZ))],
  requires=[NOBJ, ("a valid candidate", "cand this_.ga_i_num_objectives_ sol"), ("less than 2^64 evaluations", "this_.ga_i_num_fitness_evals_ < 18446744073709551615")],
  ensures=[("the candidate is evaluated with the fitness of its chromosome", "evald this_.ga_i_num_objectives_ sol"), ("the chromosome is unchanged", "sol.candidate_i_chromosome = (old sol).candidate_i_chromosome"),
           ("every call is counted", "this_.ga_i_num_fitness_evals_ - (old this_).ga_i_num_fitness_evals_ = calls - (old calls)"),
           ("at most one call, none for a known static fitness, one for a dynamic one", "old calls <= calls <= old calls + 1 /\\ (not dyn_ -> (old sol).candidate_i_is_evaluated -> calls = old calls) /\\ (dyn_ -> calls = old calls + 1)"),
           ("nothing else changes", "this_ = { (old this_) with ga_i_num_fitness_evals_ = this_.ga_i_num_fitness_evals_ }")])

PS = "this_.ga_i_population_size_"
SC = Ty("seq", IC)
CX = t("ga_crossover", "GA::crossover", obj_calls={"*ptr:crossover_": c_crossop}, contracts=CON, requires=[(a, b.replace("ga.", "this_.")) for a, b in CROSS["requires"]], ensures=[(a, b.replace("ga.", "this_.")) for a, b in CROSS["ensures"]])
def v_gencand(tr, fn, o, vs, n):
    tr.models.use(tr, "generateCandidate returns an unevaluated candidate of a proper length (asserted by generatePopulation)")
    r = tr.any(IC)
    if GENES: tr.check("generateCandidate sees the bounds of the run", "this_.ga_i_bounds_ = bnds_")
    tr.assume("oklen %s /\\ not %s.candidate_i_is_evaluated%s" % (r, r, genes(r + ".candidate_i_chromosome")))
    return T(r, IC)
GEN = t("generatePopulation", "GA::generatePopulation", contracts={**CON, "gapp::GA::generateCandidate": v_gencand}, requires=[NOBJ, ("a positive size", "0 < pop_size_0 < size_limit"), ("a valid initial population, known fitness values are those of the chromosomes", "allcand this_.ga_i_num_objectives_ initial_population_0")],
  ensures=[("the population has the requested size", "len_candidate_i result = pop_size_0"), ("every candidate is valid, known fitness values are those of the chromosomes", "allcand this_.ga_i_num_objectives_ result"),
           ("the initial population comes first", "forall k. 0 <= k < len_candidate_i initial_population_0 -> k < pop_size_0 -> get_candidate_i result k = get_candidate_i initial_population_0 k")],
  loops={k: dict(inv=[("valid so far", "len_candidate_i population <= pop_size /\\ len_candidate_i population >= npreset /\\ allcand this_.ga_i_num_objectives_ population"), ("the initial population comes first", "forall k. 0 <= k < npreset -> get_candidate_i population k = get_candidate_i initial_population_0 k")], variant="pop_size - len_candidate_i population") for k in (1,)})
def c_tfm(tr, fn, o, vs, n):
    tr.models.use(tr, "toFitnessMatrix: row k is the fitness of candidate k (C08)")
    p = par(tr.term(vs[0]))
    R = Ty("seq", Ty("seq", DBL))
    r = tr.any(R)
    tr.assume("sync %s %s" % (r, p))
    return T(r, R)
def v_next(tr, o, vs):
    tr.models.use(tr, "Algorithm::nextPopulation: population_size candidates of the parents and children (C10)")
    p, c = par(tr.term(vs[1])), par(tr.term(vs[2]))
    r = tr.any(SC)
    tr.check("parents and children of proper sizes", "len_candidate_i %s = %s /\\ %s <= len_candidate_i %s" % (p, PS, PS, c))
    tr.assume("len_candidate_i %s = %s /\\ forall k. 0 <= k < %s -> (exists j. 0 <= j < len_candidate_i %s /\\ get_candidate_i %s k = get_candidate_i %s j) \\/ (exists j. 0 <= j < len_candidate_i %s /\\ get_candidate_i %s k = get_candidate_i %s j)" % (r, PS, PS, p, r, p, c, r, c))
    return T(r, SC)
def cache_insert(tr, o, vs):
    tr.models.use(tr, "fifo_cache::insert(first, last, &fitness) inserts the chromosome-fitness pairs of exactly the given candidates (C17)")
    q = vs[0].seq
    tr.check("the entire population is inserted", "%s = 0 /\\ %s = len_candidate_i %s" % (idx_of(vs[0]), idx_of(vs[1]), par(tr.term(q))))
    assert isinstance(vs[2], Obj) and vs[2].args == ["fitness"], vs[2]
    tr.check("only valid fitness values enter the cache", "forall k. 0 <= k < len_candidate_i {0} -> cached (get_candidate_i {0} k) (get_candidate_i {0} k).candidate_i_fitness this_.ga_i_num_objectives_".format(par(tr.term(q))))
    return UNIT
CACHE = dict(obj_members={**OM, "fitness_cache_": ptr("cache")})
INV = [NOBJ, ("every candidate is evaluated with the fitness of its chromosome", "allevald this_.ga_i_num_objectives_ this_.ga_i_population_"), ("the fitness matrix is that of the population", "sync this_.ga_i_fitness_matrix_ this_.ga_i_population_"), ("the population has the population size", "len_candidate_i this_.ga_i_population_ = " + PS), ("a population size of at most 2^49", "0 < 2 * %s < size_limit" % PS)]
FRAME = lambda fs: "this_ = { (old this_) with %s }" % "; ".join("ga_i_%s = this_.ga_i_%s" % (f, f) for f in fs)
UPD = t("updatePopulation", "GA::updatePopulation", contracts={**CON, "gapp::detail::toFitnessMatrix": c_tfm}, obj_methods={**OMM, "insert": cache_insert, "nextPopulation": v_next}, requires=INV + [("the children are evaluated with the fitness of their chromosomes", "allevald this_.ga_i_num_objectives_ children_0"), ("children of the population size", "len_candidate_i children_0 = " + PS)],
  ensures=INV[1:4] + [("nothing else changes", FRAME(["population_", "fitness_matrix_"]))], **CACHE)
PREP = t("prepareSelections", "GA::prepareSelections", contracts=CON, obj_methods={**OMM, "prepareSelections": lambda tr, o, vs: UNIT}, requires=INV)

def pfor(tr, fn, o, vs, n):
    """parallel_for over a range: one call for every element (the iterations touch different elements; the shared counter is atomic)"""
    a, b, f = vs
    tr.models.use(tr, "parallel_for calls the function once for every element; iterations touch disjoint elements (and the atomic counter), so their order does not matter")
    if not hasattr(a, "seq"):
        return c08.par_for(tr, fn, o, vs, n)
    lo, hi = tr.let(idx_of(a), "lo"), tr.let(idx_of(b), "hi")
    ix = tr.newname("pf_i")
    tr.blk.add("ref", ix, lo, SZ)
    tr.blk.locals.add(ix)
    tr.roots[ix] = SZ
    tr.loop("range", lambda: "(%s < %s)" % (ix, hi), lambda: tr.invoke(f, [tr.deref(It(a.seq, ix))], id(n)), lambda: tr.blk.add("raw", "%s <- %s + 1;" % (ix, ix)), auto=["%s <= %s" % (lo, ix)], variant="%s - %s" % (hi, ix))
    return UNIT
def nop(tr, fn, o, vs, n): return UNIT
def v_select(tr, fn, o, vs, n):
    tr.models.use(tr, "select returns a candidate of the population (C10)")
    r = tr.any(IC)
    tr.assume("exists k. 0 <= k < len_candidate_i this_.ga_i_population_ /\\ %s = get_candidate_i this_.ga_i_population_ k" % r)
    return T(r, IC)
def at_metrics(tr, fn, o, vs, n):
    tr.check("the metrics see the evaluated population of the generation that just ended", "allevald this_.ga_i_num_objectives_ this_.ga_i_population_ /\\ sync this_.ga_i_fitness_matrix_ this_.ga_i_population_ /\\ this_.ga_i_generation_cntr_ = generation")
    tr.blk.add("raw", "metrics_seen <- metrics_seen + 1;")
    return UNIT
def at_callback(tr, c, vs):
    tr.check("the callback sees the evaluated population of the generation that just ended, its metrics included", "allevald this_.ga_i_num_objectives_ this_.ga_i_population_ /\\ sync this_.ga_i_fitness_matrix_ this_.ga_i_population_ /\\ this_.ga_i_generation_cntr_ = generation /\\ metrics_seen = generation + 1")
    return UNIT
def v_front(tr, fn, o, vs, n):
    tr.models.use(tr, "findParetoFront: candidates of the population (C08)")
    r = tr.any(SC)
    tr.assume("forall k. 0 <= k < len_candidate_i {r} -> exists j. 0 <= j < len_candidate_i {a} /\\ get_candidate_i {r} k = get_candidate_i {a} j".format(r=r, a=par(tr.term(vs[0]))))
    return T(r, SC)
def c_uos(tr, fn, o, vs, n):
    """updateOptimalSolutions by its contract (target updateOptimalSolutions)"""
    tr.check("only evaluated solutions and candidates", "allevald this_.ga_i_num_objectives_ %s /\\ allevald this_.ga_i_num_objectives_ %s" % (par(tr.term(vs[0])), par(tr.term(vs[1]))))
    r = tr.any(SC)
    tr.assume("allevald this_.ga_i_num_objectives_ %s" % r)
    tr.assign(vs[0], T(r, SC))
    return UNIT
CON2 = {**CON, "gapp::detail::parallel_for": pfor, "gapp::detail::toFitnessMatrix": c_tfm, "gapp::GA::evaluate": contract_of(EVAL), "gapp::GA::mutate": contract_of(MUTE), "gapp::GA::repair": contract_of(REP), "gapp::GA::crossover": contract_of(CX), "gapp::GA::select": v_select, "gapp::GA::updatePopulation": contract_of(UPD), "gapp::GA::prepareSelections": contract_of(PREP), "gapp::GA::generatePopulation": contract_of(GEN),
        "gapp::detail::MetricSet::update": at_metrics, "gapp::GA::updateOptimalSolutions": c_uos, "gapp::detail::findParetoFront": v_front}
GA_T = dict(types={"iota_iterator<>": SZ}, obj_calls={"ptr:on_generation_end_": at_callback}, ghost_params=["(ref calls: int)", "(ref metrics_seen: int)", "(ref generation: int)"], ghost_outs=[(g, SZ, (lambda g: lambda tr: L(g, [], SZ, SZ))(g)) for g in ("calls", "metrics_seen", "generation")])
N = "this_.ga_i_num_objectives_"
SOLS = ("every solution is evaluated with the fitness of its chromosome", "allevald this_.ga_i_num_objectives_ this_.ga_i_solutions_")
SOFAR = lambda pf, t: ("the first children are valid", "forall k. 0 <= k < %s -> cand %s (get_candidate_i children k)" % (t, N))
EVALS = "this_.ga_i_num_fitness_evals_ - (old this_).ga_i_num_fitness_evals_ = calls - (old calls)"
COUNT = ("counters", "this_.ga_i_generation_cntr_ = generation /\\ metrics_seen = generation + 1 /\\ generation < size_limit /\\ this_.ga_i_num_fitness_evals_ + %s < 18446744073709551615" % PS)
ADV = t("advance", "GA::advance", contracts=CON2, **GA_T, requires=INV + [SOLS, COUNT],
  loops={1: dict(inv=[SOFAR("pf_i", "2 * pf_i")]), 2: dict(inv=[("the first children are evaluated", "forall k. 0 <= k < pf_i__2 -> evald %s (get_candidate_i children k)" % N), ("the others are valid", "forall k. pf_i__2 <= k < len_candidate_i children -> cand %s (get_candidate_i children k)" % N), ("every call is counted", "pf_i__2 <= len_candidate_i children /\\ 0 <= %s <= pf_i__2 /\\ calls - (old calls) = this_.ga_i_num_fitness_evals_ - (old this_).ga_i_num_fitness_evals_" % EVALS.split(" = ")[0]), ("nothing else changes", "this_ = { (old this_) with ga_i_num_fitness_evals_ = this_.ga_i_num_fitness_evals_ }")])},
  ghost={"entry": "generation <- generation + 1;", "loop1.after": "assert { [@expl:parents are evaluated] forall k. 0 <= k < len_candidate_i this_.ga_i_population_ -> evald %s (get_candidate_i this_.ga_i_population_ k) };" % N},
  ensures=INV[1:4] + [SOLS, ("every evaluation is counted", EVALS), ("one evaluation per child at most", "0 <= %s <= %s" % (EVALS.split(" = ")[0], PS)), ("the generation is counted", "this_.ga_i_generation_cntr_ = generation /\\ generation = old generation + 1"), ("the metrics were updated once", "metrics_seen = generation + 1"),
    ("the settings do not change", FRAME(["population_", "fitness_matrix_", "num_fitness_evals_", "generation_cntr_", "solutions_"]))])

def asg(tr, a, vs): return a
def v_nobj(tr, fn, o, vs, n):
    tr.models.use(tr, "findNumberOfObjectives: the positive number of values the fitness function returns (its one call is not counted)")
    if GENES: tr.check("findNumberOfObjectives sees the bounds of the run", "this_.ga_i_bounds_ = bnds_")
    r = tr.any(SZ)
    tr.assume("%s = nobj_" % r)
    tr.blk.add("raw", "calls <- calls + 1;")
    return T(r, SZ)
SIZES = ("positive sizes", "0 < 2 * %s < size_limit /\\ this_.ga_i_cached_generations_ * %s < 18446744073709551616 /\\ 0 < this_.ga_i_max_gen_ < size_limit" % (PS, PS))
def cache_reset(tr, o, vs):
    tr.models.use(tr, "fifo_cache::reset drops every cached value (C17)")
    tr.blk.add("raw", "fresh <- true;")
    return UNIT
BREQ = [("the bounds of the run", "bounds_0 = bnds_")] if GENES else []
ALLU = ("the initial population is valid: fitness values given in it are right for the fitness function", "allcand nobj_ initial_population_0")
INIT = t("initializeAlgorithm", "GA::initializeAlgorithm", contracts={**CON2, "gapp::GA::findNumberOfObjectives": v_nobj, "gapp::GA::initialize": nop, "gapp::GaInfo::initialize": nop, "gapp::detail::MetricSet::initialize": nop, "gapp::GA::mutation_rate": nop, "gapp::GA::defaultMutationRate": lambda tr, fn, o, vs, n: T(tr.any(DBL), DBL), "gapp::GA::defaultAlgorithm": lambda tr, fn, o, vs, n: Obj("ptr:algorithm_")},
  obj_methods={**OMM, "initialize": lambda tr, o, vs: UNIT, "reset": cache_reset, "reset_scheduler": lambda tr, o, vs: UNIT}, obj_operators={**OO, "=": asg}, globals={**GL, "global_thread_pool": lambda tr: Obj("pool")}, **CACHE, **GA_T,
  requires=[SIZES, ALLU, ("no metrics yet", "metrics_seen = 0")] + BREQ,
  ghost={"entry": "let ref fresh = false in generation <- 0; assert { [@expl:sizes] (if not dyn_ then 1 else 0) * this_.ga_i_cached_generations_ = (if not dyn_ then this_.ga_i_cached_generations_ else 0) }; assert { [@expl:sizes] 0 <= this_.ga_i_cached_generations_ -> 0 <= (if not dyn_ then 1 else 0) * this_.ga_i_cached_generations_ * this_.ga_i_population_size_ < 18446744073709551616 };",
         "loop1.before": "assert { [@expl:values cached for an earlier fitness function are dropped] fresh };"},
  loops={1: dict(inv=[("the first candidates are evaluated", "forall k. 0 <= k < pf_i -> evald %s (get_candidate_i this_.ga_i_population_ k)" % N), ("the others are valid", "forall k. pf_i <= k < len_candidate_i this_.ga_i_population_ -> cand %s (get_candidate_i this_.ga_i_population_ k)" % N), ("every call is counted", "pf_i <= len_candidate_i this_.ga_i_population_ /\\ 0 <= this_.ga_i_num_fitness_evals_ <= pf_i /\\ calls - (old calls) = this_.ga_i_num_fitness_evals_ + 1"), ("only the candidates and the counter change", "this_ = { (this_ at L1) with ga_i_num_fitness_evals_ = this_.ga_i_num_fitness_evals_; ga_i_population_ = this_.ga_i_population_ } /\\ len_candidate_i this_.ga_i_population_ = %s" % PS)])},
  ensures=INV[:4] + [SOLS, ("every evaluation is counted, but the one that finds the number of objectives", "calls = (old calls) + 1 + this_.ga_i_num_fitness_evals_"), ("one evaluation per candidate at most", "0 <= this_.ga_i_num_fitness_evals_ <= " + PS), ("the first generation", "this_.ga_i_generation_cntr_ = 0 /\\ generation = 0"), ("the metrics were updated once", "metrics_seen = 1"), ("the settings do not change", "this_.ga_i_population_size_ = (old this_).ga_i_population_size_ /\\ this_.ga_i_max_gen_ = (old this_).ga_i_max_gen_")])
def v_stop(tr, fn, o, vs, n):
    r = tr.any(BOOL)
    tr.models.use(tr, "StopCondition::operator() is true if generation_cntr + 1 >= max_gen (C14)")
    tr.assume("this_.ga_i_generation_cntr_ + 1 >= this_.ga_i_max_gen_ -> %s" % r)
    tr.blk.add("raw", "stopped <- %s;" % r)
    return T(r, BOOL)
def isbv(f): return "BoundsVector<long>, size_t" in f.type and f.mangled
SOLVE = t("solve", "GA::solve", isbv, contracts={**CON2, "gapp::GA::initializeAlgorithm": contract_of(INIT), "gapp::GA::advance": contract_of(ADV), "gapp::GA::stopCondition": v_stop}, obj_operators={**OO, "=": asg}, **GA_T,
  requires=[("positive sizes", "0 < 2 * %s < size_limit /\\ this_.ga_i_cached_generations_ * %s < 18446744073709551616 /\\ 0 < generations_0 < size_limit" % (PS, PS)), ALLU, ("no metrics yet", "metrics_seen = 0"), ("less than 2^64 evaluations", "(generations_0 + 1) * %s < 18446744073709551615" % PS), ("bounds for every gene", "len_bounds_i bounds_0 = chrom_len_")] + BREQ,
  ghost={"entry": "let ref stopped = false in", "loop1.after": "assert { [@expl:the run ends when the stop condition is met] stopped };", "exit": "assert { [@expl:the solutions are returned] res_ = this_.ga_i_solutions_ };"},
  loops={1: dict(inv=INV[:4] + [SOLS, ("every evaluation is counted", "calls = (old calls) + 1 + this_.ga_i_num_fitness_evals_"), ("at most one evaluation per candidate and generation", "0 <= this_.ga_i_num_fitness_evals_ <= (generation + 1) * %s" % PS), ("generations", "this_.ga_i_generation_cntr_ = generation /\\ metrics_seen = generation + 1 /\\ 0 <= generation < generations_0"), ("the settings do not change", "%s = (old this_).ga_i_population_size_ /\\ this_.ga_i_max_gen_ = generations_0" % PS)], variant="generations_0 - generation")},
  ensures=INV[:4] + [SOLS, ("the returned solutions are evaluated with the fitness of their chromosomes", "allevald this_.ga_i_num_objectives_ result"), ("every evaluation is counted, but the one that finds the number of objectives", "calls = (old calls) + 1 + this_.ga_i_num_fitness_evals_"), ("at most one evaluation per candidate and generation", "this_.ga_i_num_fitness_evals_ <= (generation + 1) * %s" % PS), ("at most the given number of generations, all counted and measured", "this_.ga_i_generation_cntr_ = generation /\\ metrics_seen = generation + 1 /\\ generation < generations_0"), ("the maximum number of generations is restored", "this_.ga_i_max_gen_ = (old this_).ga_i_max_gen_"), ("the population size does not change", "%s = (old this_).ga_i_population_size_" % PS)])
def v_merge(tr, fn, o, vs, n):
    tr.models.use(tr, "mergeParetoSets: elements of the two sets (C08)")
    r = tr.any(SC)
    tr.assume("forall k. 0 <= k < len_candidate_i {r} -> (exists j. 0 <= j < len_candidate_i {a} /\\ get_candidate_i {r} k = get_candidate_i {a} j) \\/ (exists j. 0 <= j < len_candidate_i {b} /\\ get_candidate_i {r} k = get_candidate_i {b} j)".format(r=r, a=par(tr.term(vs[0])), b=par(tr.term(vs[1]))))
    tr.blk.add("raw", "let ghost merged = %s in assert { [@expl:merged ones are evaluated] allevald this_.ga_i_num_objectives_ merged };" % r)
    return T(r, SC)
def v_opt(tr, o, vs):
    tr.models.use(tr, "Algorithm::optimalSolutions: candidates of the population (C10)")
    r = tr.any(SC)
    tr.assume("forall k. 0 <= k < len_candidate_i {r} -> exists j. 0 <= j < len_candidate_i pop /\\ get_candidate_i {r} k = get_candidate_i pop j".format(r=r))
    tr.blk.add("raw", "assert { [@expl:the optimal ones are evaluated] allevald this_.ga_i_num_objectives_ %s };" % r)
    return T(r, SC)
LEX = PRE + r"""
predicate isin (s: seq_candidate_i) (c: candidate_i) = exists j. 0 <= j < len_candidate_i s /\ get_candidate_i s j = c
predicate haschr (s: seq_candidate_i) (n: int) (c: seq_i) = exists k. 0 <= k < n /\ ext_i (get_candidate_i s k).candidate_i_chromosome c

val function cmp_seq (a b: seq_i) : int
axiom cmp_seq_eq : forall a b [cmp_seq a b]. cmp_seq a b = 0 <-> ext_i a b
axiom cmp_seq_anti : forall a b [cmp_seq a b]. cmp_seq a b = - (cmp_seq b a)
axiom cmp_seq_trans : forall a b c [cmp_seq a b, cmp_seq b c]. cmp_seq a b <= 0 -> cmp_seq b c <= 0 -> cmp_seq a c <= 0
"""
G_ = "get_candidate_i %s %s"
CHR = lambda s, k: "(get_candidate_i %s %s).candidate_i_chromosome" % (s, k)
def AFTER_U(old, new, u, e, lo, hi):
    return """let ghost us = %s in let ghost un = %s in let ghost uu = %s in
assert { [@expl:only sorted in between] len_candidate_i us = len_candidate_i merged /\\ (forall k. 0 <= k < len_candidate_i us -> isin merged (get_candidate_i us k)) };
assert { [@expl:nothing lost by sorting] forall j. 0 <= j < len_candidate_i merged -> exists k. 0 <= k < len_candidate_i us /\\ get_candidate_i us k = get_candidate_i merged j };
assert { [@expl:sorted] forall j k. 0 <= j < k < len_candidate_i us -> cmp_seq %s %s <= 0 };
assert { [@expl:kept elements are sorted] forall j k. 0 <= j < k < uu -> cmp_seq %s %s <= 0 };
assert { [@expl:neighbours differ] forall j. 0 <= j < uu - 1 -> cmp_seq %s %s < 0 };
assert { [@expl:kept elements differ] forall j k. 0 <= j < k < uu -> cmp_seq %s %s < 0 };
assert { [@expl:kept ones are merged ones] forall k. 0 <= k < uu -> isin merged (get_candidate_i un k) };
assert { [@expl:every chromosome is kept] forall p. 0 <= p < len_candidate_i us -> haschr un uu (get_candidate_i us p).candidate_i_chromosome };
assert { [@expl:every merged chromosome is kept] forall j. 0 <= j < len_candidate_i merged -> haschr un uu (get_candidate_i merged j).candidate_i_chromosome };
""" % (old, new, u, CHR("us", "j"), CHR("us", "k"), CHR("un", "j"), CHR("un", "k"), CHR("un", "j"), CHR("un", "(j + 1)"), CHR("un", "j"), CHR("un", "k"))
t("updateOptimalSolutions", "GA::updateOptimalSolutions", prelude=LEX, after_unique=AFTER_U, contracts={**CON, "gapp::detail::mergeParetoSets": v_merge}, obj_methods={**OMM, "optimalSolutions": v_opt}, requires=[("the solutions so far are evaluated", "allevald this_.ga_i_num_objectives_ optimal_sols /\\ allevald this_.ga_i_num_objectives_ pop")],
  ensures=[("the solutions are evaluated with the fitness of their chromosomes", "allevald this_.ga_i_num_objectives_ optimal_sols")],
  ghost={"exit": "assert { [@expl:the kept part is returned] len_candidate_i optimal_sols = uu /\\ forall k. 0 <= k < uu -> get_candidate_i optimal_sols k = get_candidate_i un k }; assert { [@expl:the kept chromosomes are returned] forall c. haschr un uu c -> haschr optimal_sols (len_candidate_i optimal_sols) c }; assert { [@expl:only merged solutions] forall k. 0 <= k < len_candidate_i optimal_sols -> isin merged (get_candidate_i optimal_sols k) }; assert { [@expl:every merged chromosome is among the solutions] forall j. 0 <= j < len_candidate_i merged -> haschr optimal_sols (len_candidate_i optimal_sols) (get_candidate_i merged j).candidate_i_chromosome }; assert { [@expl:no chromosome twice] forall j k. 0 <= j < k < len_candidate_i optimal_sols -> not (ext_i (get_candidate_i optimal_sols k).candidate_i_chromosome (get_candidate_i optimal_sols j).candidate_i_chromosome) };"})
HARNESS = dict(src=["c13.cpp"], lib=True, asan=True, secs=12, secs_thorough=90)

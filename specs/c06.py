from common import *
from fp import facts
from contracts import contract_of
PROP = "C06"
G = "gapp::rng::"
TU = drv("rng.cpp")
ul = lambda f: "unsigned long" in f.type
M = lambda *ex: {k: v for k, v in RNG.items() if k.split("::")[-1] not in ex}


# the distributions of the C++ standard library and the raw generator, through their specification
def obj(nm):
    return lambda tr, *a: Obj(nm)


def call_normal(tr, c, vs):
    tr.models.use(tr, "std::normal_distribution()(g): some finite number")
    r = tr.any(DBL)
    tr.assume("d_finite %s" % r)
    return T(r, DBL)


def call_bool(tr, c, vs):
    return T(tr.any(BOOL), BOOL)


def call_poisson(tr, c, vs):
    tr.models.use(tr, "std::poisson_distribution(m)(g): some non-negative integer")
    r = tr.any(SZ)
    tr.assume("0 <= %s <= 18446744073709551615" % r)
    return T(r, SZ)


GEN = dict(globals={"generator_": obj("generator"), "digits": lambda tr: T("53", INT)},
           obj_members={"bool_distribution": obj("bool_dist"), "normal_distribution": obj("normal_dist"), "poisson_distribution": obj("poisson_dist")},
           obj_methods={"mean": lambda tr, o, vs: T(tr.any(DBL), DBL)}, obj_operators={"=": lambda tr, a, vs: a},
           obj_calls={"bool_dist": call_bool, "normal_dist": call_normal, "poisson_dist": call_poisson})

# number of selected values among the first n
CNT_DEF = """
function nsel (s: seq_b) (n: int) : int
axiom nsel_0 : forall s n [nsel s n]. n <= 0 -> nsel s n = 0
axiom nsel_s : forall s n [nsel s n]. 0 < n -> nsel s n = nsel s (n-1) + (if get_b s (n-1) then 1 else 0)
"""
CNT = CNT_DEF[:CNT_DEF.index("axiom nsel_s")] + """
axiom nsel_next : forall s n [nsel s n, get_b s n]. 0 <= n -> nsel s (n+1) = nsel s n + (if get_b s n then 1 else 0)
axiom nsel_full : forall s n [nsel s n]. 0 <= n <= len_b s -> (forall k. 0 <= k < n -> get_b s k) -> nsel s n = n
axiom nsel_unset : forall s i n [nsel (set_b s i false) n]. 0 <= i < n -> n <= len_b s -> get_b s i -> nsel (set_b s i false) n = nsel s n - 1
axiom nsel_mono : forall s m n [nsel s m, nsel s n]. 0 <= m <= n -> 0 <= nsel s m <= nsel s n <= nsel s m + (n - m)
"""
CNT_PROOF = CNT_DEF + """
let rec lemma nsel_full_l (s: seq_b) (n: int)
  requires { 0 <= n <= len_b s } requires { forall k. 0 <= k < n -> get_b s k }
  ensures { nsel s n = n } variant { n }
= if n > 0 then nsel_full_l s (n-1)
let rec lemma nsel_ext (s t: seq_b) (n: int)
  requires { forall k. 0 <= k < n -> get_b s k = get_b t k } ensures { nsel s n = nsel t n } variant { n }
= if n > 0 then nsel_ext s t (n-1)
let rec lemma nsel_unset_l (s: seq_b) (i n: int)
  requires { 0 <= i < n <= len_b s } requires { get_b s i } ensures { nsel (set_b s i false) n = nsel s n - 1 } variant { n }
= if n - 1 = i then nsel_ext (set_b s i false) s (n-1) else nsel_unset_l s i (n-1)
let rec lemma nsel_mono_l (s: seq_b) (m n: int)
  requires { 0 <= m <= n } ensures { nsel s m <= nsel s n <= nsel s m + (n - m) } variant { n - m }
= if m < n then nsel_mono_l s m (n-1)
let rec lemma nsel_pos (s: seq_b) (n: int)
  requires { 0 <= n } ensures { 0 <= nsel s n } variant { n }
= if n > 0 then nsel_pos s (n-1)
goal nsel_full_g: forall s n. 0 <= n <= len_b s -> (forall k. 0 <= k < n -> get_b s k) -> nsel s n = n
goal nsel_unset_g: forall s i n. 0 <= i < n -> n <= len_b s -> get_b s i -> nsel (set_b s i false) n = nsel s n - 1
goal nsel_mono_g: forall s m n. 0 <= m <= n -> 0 <= nsel s m <= nsel s n <= nsel s m + (n - m)
goal nsel_next_g: forall s n. 0 <= n -> nsel s (n+1) = nsel s n + (if get_b s n then 1 else 0)
"""
import lemmas
SU_GHOST = {"loop1.body": "let ghost nb = numbers in let ghost kk = number in let ghost ss = is_selected in",
            "loop1.end": "assert { [@expl:numbers after this iteration] forall v. pre_mem numbers (kk + 1) v <-> (pre_mem nb kk v \\/ v = get_i numbers kk) }; assert { [@expl:flags after this iteration] forall v. 0 <= v < ubound_0 - lbound_0 -> (get_b is_selected v <-> (get_b ss v \\/ v = get_i numbers kk - lbound_0)) };"}
FN = "mul_num add_num x_one_m_one x_mul_zero x_mul_zero2 x_mul_one x_mul_gt0 x_add_zero x_sqrt_zero x_unit53 x_round_lo x_round_hi x_round_ge x_round_le x_frac x_inv_ge1 x_mul_ge1 x_add_ge1 x_add_ge1b x_add_q one_minus mul_unit2 mul_pos mul_le sqrt_pos rand_range"
FA, FL = facts(FN)


def ax(names):
    return facts(names)[0]


TARGETS = [FL, lemmas.lemma("count_selected", lemmas.seq_theory("b", "bool") + CNT_PROOF)]
ONE = "(d_of_int 1)"
PROB = ("the success rate is a probability", "d_le d_zero p_0 && d_le p_0 %s" % ONE)
BIN = [("never more successes than trials", "0 <= result <= n_0"), ("rate 0 gives no success", "d_rk p_0 <= d_rk d_zero -> result = 0"), ("rate 1 gives n successes", "d_rk p_0 = d_rk %s -> result = n_0" % ONE)]
NB = ("number of trials below 2^50", "n_0 < size_limit")


def t(name, q, m=ul, **kw):
    TARGETS.append(dict(dict(name=name, tu=TU, dbl=True, qname=G + q, match=m, **GEN), **kw))
    return TARGETS[-1]


t("randomInt", "randomInt", requires=[("lbound <= ubound", "lbound_0 <= ubound_0")], ensures=[("the value is in [lbound, ubound]", "lbound_0 <= result <= ubound_0")])
t("randomInt_signed", "randomInt", lambda f: "(long," in f.type, requires=[("lbound <= ubound", "lbound_0 <= ubound_0")], ensures=[("the value is in [lbound, ubound]", "lbound_0 <= result <= ubound_0")])
t("randomReal", "randomReal", lambda f: f.type.endswith("()"), prelude=ax("x_unit53"), ensures=[("the value is in [0, 1)", "d_finite result /\\ d_rk d_zero <= d_rk result < d_rk %s" % ONE)])
t("randomReal_range", "randomReal", lambda f: "(double" in f.type, models=M(), prelude=ax("rand_range"),
  requires=[("lbound <= ubound, finite bounds and width", "d_le lbound_0 ubound_0 /\\ d_finite lbound_0 /\\ d_finite ubound_0 /\\ d_finite (d_sub ubound_0 lbound_0)")],
  ensures=[("the value is in [lbound, ubound]", "d_finite result /\\ d_rk lbound_0 <= d_rk result <= d_rk ubound_0")])
t("randomNormal", "randomNormal", lambda f: "double" in f.type, prelude=ax("mul_num add_num x_mul_zero2 x_add_zero"),
  requires=[("finite mean, finite standard deviation >= 0", "d_finite mean_0 /\\ d_finite std_dev_0 /\\ d_le d_zero std_dev_0")],
  ensures=[("never NaN", "d_is_num result"), ("a zero standard deviation gives the mean", "d_rk std_dev_0 = d_rk d_zero -> d_rk result = d_rk mean_0")])
t("randomPoisson", "randomPoisson", requires=[("mean > 0", "d_lt d_zero mean_0")], ensures=[("not negative", "0 <= result")])
BN = t("binomial_normal", "randomBinomialApproxNormal", models=M(), diverges=True, prelude=ax("one_minus mul_unit2 mul_pos mul_num sqrt_pos x_one_m_one x_mul_zero x_mul_zero2 x_mul_one x_sqrt_zero x_round_lo x_round_hi x_round_ge x_round_le"),
  requires=[PROB, NB], ensures=BIN,
  loops={1: dict(inv=[("a zero deviation always gives the mean", "d_rk std_dev = d_rk d_zero -> d_rk rand = d_rk mean")])},
  ghost={"decl:std_dev": "assert { [@expl:the mean and the deviation are finite and not negative] d_finite mean /\\ d_finite std_dev /\\ d_rk d_zero <= d_rk std_dev }; assert { [@expl:rate 0: mean and deviation 0] d_rk p_0 <= d_rk d_zero -> d_rk mean = d_rk d_zero /\\ d_rk std_dev = d_rk d_zero }; assert { [@expl:rate 1: mean n and deviation 0] d_rk p_0 = d_rk (d_of_int 1) -> d_rk mean = d_rk (d_of_int n_0) /\\ d_rk std_dev = d_rk d_zero };"})
BP = t("binomial_poisson", "randomBinomialApproxPoisson", models=M(), diverges=True, prelude=ax("x_mul_gt0 mul_unit2"), requires=[PROB, NB, ("at least one trial", "1 <= n_0")], ensures=BIN,
  loops={1: dict(inv=[("not negative", "0 <= rand")])})
BE = t("binomial_exact", "randomBinomialExact", models=M(), wrap=True, requires=[PROB, NB], ensures=BIN,
  loops={1: dict(inv=[("trials left", "0 <= n <= n_0 /\\ 0 <= res <= n_0 - n"), ("rate 0", "d_rk p_0 <= d_rk d_zero -> res = 0"), ("rate 1", "d_rk p_0 = d_rk (d_of_int 1) -> res = n_0 - n")], variant="n")})
t("binomial", "randomBinomial", diverges=True, models=M("randomBinomial"), requires=[PROB, NB], ensures=BIN,
  contracts={G + "randomBinomialApproxNormal": contract_of(BN), G + "randomBinomialApproxPoisson": contract_of(BP), G + "randomBinomialExact": contract_of(BE)})
t("randomIndex", "randomIndex", lambda f: True, models=M("randomIndex"), requires=[("not empty", "0 < len_d range_")], ensures=[("a valid index", "0 <= result < len_d range_")])
UNI = """
predicate pre_mem (s: seq_i) (n v: int) = exists j. 0 <= j < n /\\ get_i s j = v
predicate pre_distinct (s: seq_i) (n: int) = forall a b. 0 <= a < b < n -> get_i s a <> get_i s b
predicate pre_in (s: seq_i) (n lo hi: int) = forall a. 0 <= a < n -> lo <= get_i s a < hi
"""
UE = [("as many values as asked for", "len_i result = count_0"), ("every value is in [lbound, ubound)", "pre_in result count_0 lbound_0 ubound_0"), ("the values are distinct", "pre_distinct result count_0")]
UR = [("lbound <= ubound", "lbound_0 <= ubound_0"), ("the range holds enough values", "count_0 <= ubound_0 - lbound_0"), ("less than 2^50 values", "count_0 < size_limit")]


def floyd(member, k="number", lim="limit", nm="numbers", chk=""):
    return dict(variant="ubound_0 - " + lim, inv=[("one number per step", "0 <= %s <= count_0 /\\ %s = ubound_0 - count_0 + %s /\\ len_i %s = count_0" % (k, lim, k, nm)),
                ("numbers so far are below the limit", "pre_in %s %s lbound_0 %s" % (nm, k, lim)),
                ("numbers so far are distinct", "pre_distinct %s %s" % (nm, k)), member])


US = t("sampleUniqueSet", "sampleUniqueSet", models=M(), prelude=UNI, requires=UR, ensures=UE,
  loops={1: floyd(("the set holds the numbers so far", "forall v. zmem_i v selected <-> pre_mem numbers number v"))},
  ghost={"loop1.body": "let ghost nb = numbers in let ghost kk = number in let ghost ss = selected in", "loop1.end":
         "assert { [@expl:numbers after this iteration] forall v. pre_mem numbers (kk + 1) v <-> (pre_mem nb kk v \\/ v = get_i numbers kk) }; assert { [@expl:set after this iteration] forall v. zmem_i v selected <-> (zmem_i v ss \\/ v = get_i numbers kk) };"})
t("sampleUnique", "sampleUnique", models=M("sampleUnique"), prelude=UNI + CNT + ax("mul_le"), requires=UR + [("the range is below 2^50", "ubound_0 - lbound_0 < size_limit")], ensures=UE, contracts={G + "sampleUniqueSet": contract_of(US)},
  loops={
   1: floyd(("the flags mark the numbers so far", "len_b is_selected = ubound_0 - lbound_0 /\\ (forall v. 0 <= v < len_b is_selected -> (get_b is_selected v <-> pre_mem numbers number (v + lbound_0)))")),
   2: dict(inv=[("values not reached yet are selected", "len_b is_selected = ubound_0 - lbound_0 /\\ (forall v. limit__2 - lbound_0 <= v < len_b is_selected -> get_b is_selected v)"),
                ("each step removes one value", "nsel is_selected (ubound_0 - lbound_0) = count_0 + (ubound_0 - limit__2)")]),
   3: dict(inv=[("one number per selected value", "number__2 = nsel is_selected n__3 /\\ len_b is_selected = ubound_0 - lbound_0 /\\ nsel is_selected (ubound_0 - lbound_0) = count_0"),
                ("numbers so far are below the current value", "pre_in numbers number__2 lbound_0 (lbound_0 + n__3)"), ("numbers so far are distinct", "pre_distinct numbers number__2")])}, ghost=SU_GHOST)
t("sampleCdf", "sampleCdf", lambda f: "double" in f.type, models=M(), prelude="predicate below (s: seq_d) (n: int) (v: dbl) = forall k. 0 <= k < n -> d_lt (get_d s k) v\n",
  requires=[("a sorted, non-empty cdf of numbers, not negative", "0 < len_d cdf_0 /\\ d_le d_zero (get_d cdf_0 0) /\\ (forall k. 0 <= k < len_d cdf_0 -> d_is_num (get_d cdf_0 k)) /\\ (forall i j. 0 <= i <= j < len_d cdf_0 -> d_rk (get_d cdf_0 i) <= d_rk (get_d cdf_0 j))")],
  ensures=[("an index of the cdf", "0 <= result < len_d cdf_0")],
  loops={1: dict(variant="length", inv=[("search range", "0 <= length /\\ 0 <= first /\\ first + length <= last"), ("everything before the range is below the draw", "below cdf first threshold")]),
         2: dict(inv=[("everything before is below the draw", "below cdf first threshold")])},
  ghost={"exit": "assert { [@expl:the index is the first whose cumulative value is not below the draw] forall k. 0 <= k < len_d cdf -> (k < first -> d_lt (get_d cdf k) threshold) /\\ (k = first -> not (d_lt (get_d cdf k) threshold)) };"})
POW1 = "axiom fp_pow1 : forall x y [d_pow x y]. d_is_num x -> d_finite y -> d_rk (d_of_int 1) <= d_rk x -> d_rk d_zero <= d_rk y -> d_is_num (d_pow x y) /\\ d_rk (d_of_int 1) <= d_rk (d_pow x y)\n"
POWT = ["libm pow of a base >= 1 and a finite exponent >= 0 is a number >= 1"]
QA = dict(aliases={"result_type": "gapp::small_vector<double>"})
BIGI = "axiom d_of_int_pow2 : d_rk (d_of_int 1) < d_rk (d_of_int 4611686018427387904) < d_rk (d_of_int 9223372036854775808)\naxiom d_trunc_p63 : forall x [d_trunc x]. d_is_num x -> d_rk d_zero <= d_rk x < d_rk (d_of_int 9223372036854775808) -> 0 <= d_trunc x < 9223372036854775808\n"
UNITS = "predicate fin_ge0 (s: seq_d) = forall k. 0 <= k < len_d s -> d_finite (get_d s k) /\\ d_rk d_zero <= d_rk (get_d s k)\npredicate le1 (s: seq_d) = forall k. 0 <= k < len_d s -> d_rk (get_d s k) <= d_rk (d_of_int 1)\npredicate lt1 (s: seq_d) (n: int) = forall k. 0 <= k < n -> d_rk (get_d s k) < d_rk (d_of_int 1)\n"
PHI = t("qrng_phi", "QuasiRandom::phi", lambda f: True, wrap=True, prelude=POW1 + ax("x_add_ge1 x_add_ge1b x_inv_ge1"), trust=POWT, requires=[("dimension below 2^50", "dim_0 < size_limit")],
  ensures=[("the generalised golden ratio is a number >= 1", "d_is_num result /\\ d_rk (d_of_int 1) <= d_rk result")],
  loops={1: dict(variant="n", inv=[("at least 1", "0 <= n /\\ d_is_num phid /\\ d_rk (d_of_int 1) <= d_rk phid")])})
SEED = lambda v: ("a seed >= 0 and < 2^62", "d_finite %s /\\ d_rk d_zero <= d_rk %s < d_rk (d_of_int 4611686018427387904)" % (v, v))
INVQ = lambda o: [("one coordinate per dimension", "len_d {0}.quasirandom_d_point_ = {0}.quasirandom_d_dim_ /\\ len_d {0}.quasirandom_d_alpha_ = {0}.quasirandom_d_dim_ /\\ {0}.quasirandom_d_dim_ < size_limit".format(o)),
                  ("steps in [0, 1]", "fin_ge0 {0}.quasirandom_d_alpha_ /\\ le1 {0}.quasirandom_d_alpha_".format(o)), ("coordinates finite, not negative, < 2^62", "fin_ge0 {0}.quasirandom_d_point_ /\\ ltq {0}.quasirandom_d_point_".format(o))]
UNITS += "predicate ltq (s: seq_d) = forall k. 0 <= k < len_d s -> d_rk (get_d s k) < d_rk (d_of_int 4611686018427387904)\n"
t("qrng_ctor", "QuasiRandom::QuasiRandom", lambda f: True, prelude=UNITS + ax("x_mul_ge1 x_inv_ge1"), requires=[("dimension below 2^50", "dim_0 < size_limit"), SEED("seed_0")], ensures=INVQ("result") + [("the dimension asked for", "result.quasirandom_d_dim_ = dim_0")],
  contracts={G + "QuasiRandom::phi": contract_of(PHI)},
  loops={1: dict(inv=[("alpha so far", "d_is_num phidpow /\\ d_rk (d_of_int 1) <= d_rk phidpow"), ("steps so far in [0, 1]", "forall k. 0 <= k < i -> d_finite (get_d this_.quasirandom_d_alpha_ k) /\\ d_rk d_zero <= d_rk (get_d this_.quasirandom_d_alpha_ k) <= d_rk (d_of_int 1)"),
                      ("coordinates so far equal the seed", "len_d this_.quasirandom_d_point_ = dim_0 /\\ len_d this_.quasirandom_d_alpha_ = dim_0 /\\ (forall k. 0 <= k < i -> get_d this_.quasirandom_d_point_ k = seed_0)")])})
t("qrng_next", "QuasiRandom::operator()", lambda f: True, prelude=UNITS + ax("x_frac x_add_q") + BIGI, requires=INVQ("this_"), ensures=INVQ("this_") + [("the point is in the unit cube", "len_d result = this_.quasirandom_d_dim_ /\\ fin_ge0 result /\\ lt1 result (len_d result)")], **QA,
  loops={1: dict(inv=[("coordinates done are in [0, 1)", "lt1 this_.quasirandom_d_point_ i"), ("coordinates stay finite and not negative", "fin_ge0 this_.quasirandom_d_point_ /\\ ltq this_.quasirandom_d_point_"), ("steps unchanged", "this_.quasirandom_d_alpha_ = (old this_).quasirandom_d_alpha_")])})
t("qrng_reset", "QuasiRandom::reset", lambda f: True, prelude=UNITS, requires=INVQ("this_") + [SEED("new_seed_0")], ensures=INVQ("this_"))
HARNESS = dict(src=["c06.cpp"], lib=True, secs=12, secs_thorough=200)

from common import *
from fp import facts
from contracts import contract_of
import theory, lemmas, c06, c08, c10
PROP = "C12"
TU = drv("soga.cpp")
S = "gapp::selection::"
FN = "int_arith mono x_add_zero x_mul_zero2 add_num add_pos mul_pos div_pos div_unit mul_le mid_fin mid_sub mid2_fin const1 add_ord sub_pos fin_between small_fin sub_num x_add_nn x_thirds x_roulette x_third_mid x_third_mid2 x_add_nz mul_num mul_num3 x_inv_normal x_one_mul x_mul_zero mid_between mid_add x_div_zero x_inv_inf x_inv_ge1 x_inf_div x_nan_div x_sub_inf x_finite x_inf_bounds"
FA, FL = facts(FN)
TARGETS = [FL]
# the selection weights w of the candidates give the cumulative distribution c: sums of increments that are non-negative and grow with the weight
CDF = """
predicate nonneg (w: seq_d) = forall i. 0 <= i < len_d w -> d_is_num (get_d w i) /\\ d_finite (get_d w i) /\\ d_rk d_zero <= d_rk (get_d w i)
function inc (m v k w: dbl) : dbl = d_add (d_mul (d_div w m) v) k
predicate norm (m v k: dbl) = d_finite m /\\ d_rk d_zero < d_rk m /\\ d_finite v /\\ d_rk d_zero <= d_rk v /\\ d_finite k /\\ d_rk d_zero <= d_rk k
predicate upto (m: dbl) (w: seq_d) = forall i. 0 <= i < len_d w -> d_rk (get_d w i) <= d_rk m
predicate sums (m v k: dbl) (w c: seq_d) = forall i. 0 <= i < len_d w -> get_d c i = (if i = 0 then inc m v k (get_d w i) else d_add (get_d c (i-1)) (inc m v k (get_d w i)))
predicate cdf_of (w c: seq_d) = len_d c = len_d w /\\ nonneg w /\\ exists m v k. norm m v k /\\ upto m w /\\ sums m v k w c
predicate cdf_ok (c: seq_d) = (forall i. 0 <= i < len_d c -> d_is_num (get_d c i) /\\ d_rk d_zero <= d_rk (get_d c i)) /\\ (forall i j. 0 <= i <= j < len_d c -> d_rk (get_d c i) <= d_rk (get_d c j))
"""


LEM = """ sums_sorted (m v k: dbl) (w c: seq_d) : unit
  requires { norm m v k /\\ upto m w /\\ nonneg w /\\ len_d c = len_d w /\\ sums m v k w c }
  ensures { cdf_ok c }
"""
SQ = lambda a, b: theory.SEQ.replace("@", a).replace("$", b)
TARGETS.append(lemmas.lemma("cumulative_sums", c08.theory_dbl() + SQ("d", "dbl") + CDF + FA + """
predicate num_to (c: seq_d) (n: int) = forall i. 0 <= i < n -> d_is_num (get_d c i) /\\ d_rk d_zero <= d_rk (get_d c i)
let rec lemma num_upto (m v k: dbl) (w c: seq_d) (n: int)
  requires { norm m v k /\\ upto m w /\\ nonneg w /\\ len_d c = len_d w /\\ sums m v k w c /\\ 0 <= n <= len_d c }
  ensures { num_to c n } variant { n }
= if n > 0 then begin num_upto m v k w c (n-1); assert { d_finite (d_div (get_d w (n-1)) m) /\\ d_rk d_zero <= d_rk (d_div (get_d w (n-1)) m) }; assert { d_is_num (inc m v k (get_d w (n-1))) /\\ d_rk d_zero <= d_rk (inc m v k (get_d w (n-1))) }; assert { n > 1 -> d_is_num (get_d c (n-2)) /\\ d_rk d_zero <= d_rk (get_d c (n-2)) }; assert { d_is_num (get_d c (n-1)) /\\ d_rk d_zero <= d_rk (get_d c (n-1)) } end
let rec lemma sorted_upto (m v k: dbl) (w c: seq_d) (n: int)
  requires { norm m v k /\\ upto m w /\\ nonneg w /\\ len_d c = len_d w /\\ sums m v k w c /\\ 0 <= n <= len_d c }
  ensures { forall i j. 0 <= i <= j < n -> d_rk (get_d c i) <= d_rk (get_d c j) } variant { n }
= num_upto m v k w c n; if n > 1 then begin sorted_upto m v k w c (n-1); assert { d_finite (d_div (get_d w (n-1)) m) /\\ d_rk d_zero <= d_rk (d_div (get_d w (n-1)) m) }; assert { d_is_num (inc m v k (get_d w (n-1))) /\\ d_rk d_zero <= d_rk (inc m v k (get_d w (n-1))) }; assert { d_rk (get_d c (n-2)) <= d_rk (get_d c (n-1)) } end
let ghost""" + LEM + "= num_upto m v k w c (len_d c); sorted_upto m v k w c (len_d c)\n" + """
let lemma increments (m v k x y: dbl)
  requires { norm m v k } requires { d_finite x /\\ d_finite y /\\ d_rk d_zero <= d_rk x <= d_rk y <= d_rk m }
  ensures { d_is_num (inc m v k x) /\\ d_is_num (inc m v k y) /\\ d_rk (inc m v k x) <= d_rk (inc m v k y) }
= assert { d_finite (d_div x m) /\\ d_finite (d_div y m) }; assert { d_rk (d_div x m) <= d_rk (d_div y m) }; assert { d_rk (d_mul (d_div x m) v) <= d_rk (d_mul (d_div y m) v) }
"""))

def t(name, q, **kw):
    TARGETS.append(dict(dict(name=name, tu=TU, dbl=True, qname=S + q, prelude=CDF + FA + "val" + LEM), **kw))
    return TARGETS[-1]


WREQ = [("there are weights", "0 < len_d weights_0"), ("weights are finite and not negative", "forall i. 0 <= i < len_d weights_0 -> d_finite (get_d weights_0 i) /\\ d_rk d_zero <= d_rk (get_d weights_0 i)")]
WEIGHTS = t("weightsToCdf", "weightsToCdf", requires=WREQ, ensures=[("partial sums of increments that grow with the weights", "cdf_of weights_0 result"), ("a non-decreasing sequence of non-negative numbers", "cdf_ok result")],
  ghost={"exit": "assert { [@expl:largest weight is positive] d_finite wmax /\\ d_rk d_zero < d_rk wmax }; assert { [@expl:sum of the weights] d_is_num wsum /\\ d_rk d_zero <= d_rk wsum }; assert { [@expl:normalisation] norm wmax idiv corr }; assert { [@expl:each entry is the previous one plus the increment] sums wmax idiv corr weights res_ }; assert { [@expl:no weight is above the largest] upto wmax weights }; sums_sorted wmax idiv corr weights res_;"})

FVEC = t("toFitnessVector", "x", qname="gapp::detail::toFitnessVector", tu=drv("population.cpp"), prelude="", iter_params={"first": ("fmat", False), "last": ("fmat", False)}, param_names=None,
  requires=[("a range of rows with one objective", "0 <= first_0 <= last_0 <= len_sd fmat /\\ forall i. 0 <= i < len_sd fmat -> len_d (get_sd fmat i) = 1")],
  ensures=[("the fitness values", "len_d result = last_0 - first_0 /\\ forall i. 0 <= i < len_d result -> get_d result i = get_d (get_sd fmat (first_0 + i)) 0")])
CON = {S + "weightsToCdf": contract_of(WEIGHTS), "gapp::detail::toFitnessVector": contract_of(FVEC)}
ONE = ("a fitness matrix with one objective", "0 < len_sd fmat /\\ len_d (get_sd fmat 0) = 1 /\\ forall i. 0 <= i < len_sd fmat -> len_d (get_sd fmat i) = 1")
MID = ("finite fitness values, at most 2^500 in magnitude", "forall i. 0 <= i < len_sd fmat -> mid (get_d (get_sd fmat i) 0)")
GROW = """
function fit (m: seq_sd) (i: int) : dbl = get_d (get_sd m i) 0
predicate grows (m: seq_sd) (w: seq_d) = len_d w = len_sd m /\\ forall i j. 0 <= i < len_sd m -> 0 <= j < len_sd m -> d_rk (fit m i) <= d_rk (fit m j) -> d_rk (get_d w i) <= d_rk (get_d w j)
predicate fair (m: seq_sd) (c: seq_d) = exists w. grows m w /\\ cdf_of w c
"""
FAIR = lambda cl: [("the weights of the candidates grow with their fitness", "fair fmat this_.%s_cdf_" % cl), ("a non-decreasing sequence of non-negative numbers", "cdf_ok this_.%s_cdf_" % cl)]
def prep(cl, w="fvec", **kw):
    t(cl.lower(), cl + "::prepareSelectionsImpl", **dict(dict(params=["ga", "fmat"], prelude=CDF + FA + GROW, contracts=CON, requires=[ONE, MID], ensures=FAIR(cl.lower()), ghost={"exit": "assert { [@expl:weights of better candidates are not smaller] grows fmat %s };" % w}), **kw))
RW = "(d_add (d_mul scale (get_d fvec i)) offset)"
W = lambda j: RW.replace(" i)", " %s)" % j)
def c_mean(tr, fn, o, vs, n):
    v = par(tr.term(vs[0]))
    r = tr.any(DBL)
    tr.models.use(tr, "math::mean of values of at most 2^500: a number of at most 2^500 (trusted, compared with a reference in the harness)")
    tr.assume("(forall i. 0 <= i < len_d %s -> mid (get_d %s i)) -> mid %s" % (v, v, r))
    return T(r, DBL)
def c_dev(tr, fn, o, vs, n):
    r = tr.any(DBL)
    tr.models.use(tr, "math::stdDev: a non-negative number (trusted, compared with a reference in the harness)")
    tr.assume("d_is_num %s /\\ d_rk d_zero <= d_rk %s" % (r, r))
    return T(r, DBL)
SW = "(let w = d_add (d_of_int 1) (d_mul (d_sub (get_d fvec i) fmean) idiv) in w)"
prep("Sigma", contracts={**CON, "gapp::math::mean": c_mean, "gapp::math::stdDev": c_dev}, requires=[ONE, MID, ("a positive, finite scale", "d_finite this_.sigma_scale_ /\\ d_rk d_zero < d_rk this_.sigma_scale_")],
  ghost={"decl:idiv": "assert { [@expl:positive factor] d_finite idiv /\\ d_rk d_zero < d_rk idiv }; assert { [@expl:weights grow] forall i j. 0 <= i < len_d fvec -> 0 <= j < len_d fvec -> d_rk (get_d fvec i) <= d_rk (get_d fvec j) -> d_is_num %s /\\ d_rk %s <= d_rk %s };" % (SW, SW, SW.replace(" i)", " j)")),
         "exit": "assert { [@expl:weights of better candidates are not smaller] grows fmat fvec };"})
prep("Roulette", ghost={"decl:lowest": "assert { [@expl:the lowest fitness] mid lowest /\\ forall i. 0 <= i < len_d fvec -> mid (get_d fvec i) /\\ d_is_num (get_d fvec i) /\\ d_rk lowest <= d_rk (get_d fvec i) };",
  "decl:offset": "assert { [@expl:no offset without negative fitness values] d_rk d_zero <= d_rk lowest -> d_is_num offset /\\ d_rk offset = d_rk d_zero /\\ d_finite offset }; assert { [@expl:offset for negative fitness values] d_rk lowest < d_rk d_zero -> offset = d_mul (d_neg (d_div (d_of_int 2) (d_of_int 3))) lowest /\\ mid offset };",
  "decl:scale": "assert { [@expl:scale] d_finite scale /\\ d_rk d_zero < d_rk scale <= d_rk (d_of_int 1) }; assert { [@expl:scaled fitness values] forall i. 0 <= i < len_d fvec -> mid (d_mul scale (get_d fvec i)) /\\ d_is_num (d_mul scale (get_d fvec i)) };"
    "assert { [@expl:the weight of the lowest fitness is not negative] d_rk d_zero <= d_rk (d_add (d_mul scale lowest) offset) };"
    "assert { [@expl:weights are numbers] forall i. 0 <= i < len_d fvec -> d_finite %s };"
    "assert { [@expl:weights are not negative] forall i. 0 <= i < len_d fvec -> d_rk d_zero <= d_rk %s };"
    "assert { [@expl:weights grow] forall i j. 0 <= i < len_d fvec -> 0 <= j < len_d fvec -> d_rk (get_d fvec i) <= d_rk (get_d fvec j) -> d_rk %s <= d_rk %s };" % (RW, RW, RW, W("j")),
  "exit": "assert { [@expl:weights of better candidates are not smaller] grows fmat fvec };"})

def c_lerp(tr, vs, n):
    a, b, t_ = [par(tr.term(tr.coerce(v, DBL))) for v in vs]
    tr.models.use(tr, "std::lerp: monotone in the parameter, between its end points for a parameter in [0, 1] (C++ standard)")
    return T("(d_lerp %s %s %s)" % (a, b, t_), DBL)
LERP = """
function d_lerp (a b t: dbl) : dbl
val function d_lerp (a b t: dbl) : dbl
axiom lerp_between : forall a b t [d_lerp a b t]. d_finite a -> d_finite b -> d_is_num t -> d_rk a <= d_rk b -> d_rk d_zero <= d_rk t <= d_rk (d_of_int 1) -> d_finite (d_lerp a b t) /\\ d_rk a <= d_rk (d_lerp a b t) <= d_rk b
axiom lerp_mono : forall a b t u [d_lerp a b t, d_lerp a b u]. d_finite a -> d_finite b -> d_rk a <= d_rk b -> d_is_num t -> d_is_num u -> d_rk t <= d_rk u -> d_rk (d_lerp a b t) <= d_rk (d_lerp a b u)
""".replace("function d_lerp (a b t: dbl) : dbl\nval ", "val ")
RANK = """
predicate outgrows (m: seq_sd) (w: seq_d) = len_d w = len_sd m /\\ forall i j. 0 <= i < len_sd m -> 0 <= j < len_sd m -> d_rk (fit m i) < d_rk (fit m j) -> d_rk (get_d w i) <= d_rk (get_d w j)
predicate rfair (m: seq_sd) (lo hi: dbl) (c: seq_d) = exists w. outgrows m w /\\ (forall i. 0 <= i < len_sd m -> d_rk lo <= d_rk (get_d w i) <= d_rk hi) /\\ cdf_of w c
function rden (n: int) : dbl = if d_lt (d_sub (d_of_int n) (d_of_int 1)) (d_of_int 1) then d_of_int 1 else d_sub (d_of_int n) (d_of_int 1)
function rt (n k: int) : dbl = d_div (d_of_int k) (rden n)
predicate rweight (lo hi: dbl) (n: int) (w: seq_d) (s: seq_i) (e: int) = forall k [get_i s k]. 0 <= k < e -> get_d w (get_i s k) = d_lerp lo hi (rt n k)
predicate ordered (m: seq_sd) (s: seq_i) = forall i j. 0 <= i < j < len_i s -> d_rk (fit m (get_i s i)) <= d_rk (fit m (get_i s j))
"""
LH = "(this_.rank_min_weight_) (this_.rank_max_weight_)"
prep("Rank", w="weights", std={"lerp": c_lerp}, prelude=CDF + FA + GROW + lemmas.PERM_AX + LERP + RANK, requires=[("a fitness matrix with one objective", ONE[1]), ("no NaN among the fitness values", "forall i. 0 <= i < len_sd fmat -> d_is_num (fit fmat i)"), ("fewer than 2^50 candidates", "len_sd fmat < size_limit"), ("weights of the best and the worst, finite and ordered (constructor)", "d_finite this_.rank_min_weight_ /\\ d_finite this_.rank_max_weight_ /\\ d_rk d_zero <= d_rk this_.rank_min_weight_ <= d_rk this_.rank_max_weight_")],
  ensures=[("weights between the configured ones, not smaller for better candidates", "rfair fmat this_.rank_min_weight_ this_.rank_max_weight_ this_.rank_cdf_"), ("a non-decreasing sequence of non-negative numbers", "cdf_ok this_.rank_cdf_")],
  loops={1: dict(inv=[("weights by rank", "len_d weights = len_sd fmat /\\ rweight %s (len_sd fmat) weights indices__3 i" % LH)])},
  ghost={"decl:indices__3": "assert { [@expl:the order is a permutation] perm indices__3 /\\ len_i indices__3 = len_sd fmat }; assert { [@expl:the order is by fitness] ordered fmat indices__3 };"
           "assert { [@expl:every index has a position] forall p. 0 <= p < len_i indices__3 -> 0 <= inv_i indices__3 p < len_i indices__3 /\\ get_i indices__3 (inv_i indices__3 p) = p };"
           "assert { [@expl:denominator] d_finite (rden (len_sd fmat)) /\\ d_rk d_zero < d_rk (rden (len_sd fmat)) /\\ forall k. 0 <= k < len_sd fmat -> d_rk (d_of_int k) <= d_rk (rden (len_sd fmat)) };"
           "assert { [@expl:relative ranks] forall k. 0 <= k < len_sd fmat -> d_is_num (rt (len_sd fmat) k) /\\ d_rk d_zero <= d_rk (rt (len_sd fmat) k) <= d_rk (d_of_int 1) };"
           "assert { [@expl:relative ranks grow] forall k l. 0 <= k <= l < len_sd fmat -> d_rk (rt (len_sd fmat) k) <= d_rk (rt (len_sd fmat) l) };",
         "loop1.after": "assert { [@expl:weight of each candidate] forall p. 0 <= p < len_sd fmat -> get_d weights p = d_lerp %s (rt (len_sd fmat) (inv_i indices__3 p)) };"
           "assert { [@expl:weights are between the configured ones] forall p. 0 <= p < len_sd fmat -> d_finite (get_d weights p) /\\ d_rk this_.rank_min_weight_ <= d_rk (get_d weights p) <= d_rk this_.rank_max_weight_ };"
           "assert { [@expl:better candidates come later] forall p q. 0 <= p < len_sd fmat -> 0 <= q < len_sd fmat -> d_rk (fit fmat p) < d_rk (fit fmat q) -> inv_i indices__3 p < inv_i indices__3 q };" % LH,
         "exit": "assert { [@expl:weights of better candidates are not smaller] outgrows fmat weights };"})

def c_temp(tr, c, vs):
    tr.models.use(tr, "the temperature function returns a positive, finite number (the caller's obligation)")
    r = tr.any(DBL)
    tr.assume("d_finite %s /\\ d_rk d_zero < d_rk %s" % (r, r))
    return T(r, DBL)
def c_exp(tr, vs, n):
    tr.models.use(tr, "libm exp: monotone, never negative (glibc: correctly rounded to within 1 ulp, monotone in practice; trusted)")
    return T("(d_exp %s)" % par(tr.term(tr.coerce(vs[0], DBL))), DBL)
EXP = """
axiom exp_num : forall x [d_exp x]. d_is_num x -> d_is_num (d_exp x) /\\ d_rk d_zero <= d_rk (d_exp x)
axiom exp_mono : forall x y [d_exp x, d_exp y]. d_is_num x -> d_is_num y -> d_rk x <= d_rk y -> d_rk (d_exp x) <= d_rk (d_exp y)
"""
EXP += """axiom exp_inf : forall x [d_exp x]. d_is_num x -> d_rk x = d_rk d_inf -> d_rk (d_exp x) = d_rk d_inf
axiom exp_nan : forall x [d_exp x]. not (d_is_num x) -> not (d_is_num (d_exp x))
function bwt (x m d t: dbl) : dbl = let e = d_exp (d_div (d_sub (d_div x d) (d_div m d)) t) in if d_lt e d_max then e else d_max
"""
BLEM = """ boltzmann_weights (x y m d t: dbl) : unit
  requires { d_finite x /\\ d_finite y /\\ d_finite m /\\ d_rk m <= d_rk x <= d_rk y }
  requires { d_finite d /\\ d_rk d_zero < d_rk d /\\ d_finite t /\\ d_rk d_zero < d_rk t }
  ensures { d_finite (bwt x m d t) /\\ d_finite (bwt y m d t) /\\ d_rk d_zero <= d_rk (bwt x m d t) <= d_rk (bwt y m d t) }
"""
BALL = """ boltzmann_all (f: seq_sd) (m d t: dbl) : unit
  requires { d_finite m /\\ d_finite d /\\ d_rk d_zero < d_rk d /\\ d_finite t /\\ d_rk d_zero < d_rk t }
  requires { forall i. 0 <= i < len_sd f -> d_finite (fit f i) /\\ d_rk m <= d_rk (fit f i) }
  ensures { forall i. 0 <= i < len_sd f -> d_finite (bwt (fit f i) m d t) /\\ d_rk d_zero <= d_rk (bwt (fit f i) m d t) }
  ensures { forall i j. 0 <= i < len_sd f -> 0 <= j < len_sd f -> d_rk (fit f i) <= d_rk (fit f j) -> d_rk (bwt (fit f i) m d t) <= d_rk (bwt (fit f j) m d t) }
"""
TARGETS.append(lemmas.lemma("boltzmann_weights", c08.theory_dbl() + SQ("d", "dbl") + SQ("sd", "seq_d") + FA + GROW.split("predicate fair")[0] + EXP + """
let lemma saturated (x m d t: dbl) requires { d_finite x /\\ d_finite m /\\ d_rk m <= d_rk x } requires { d_finite d /\\ d_rk d_zero < d_rk d /\\ d_finite t /\\ d_rk d_zero < d_rk t } requires { not (d_finite (d_div m d)) }
  ensures { bwt x m d t = d_max }
= assert { d_is_num (d_div m d) /\\ d_is_num (d_div x d) /\\ d_rk (d_div m d) <= d_rk (d_div x d) }; assert { not (d_is_num (d_sub (d_div x d) (d_div m d))) \\/ d_is_num (d_sub (d_div x d) (d_div m d)) /\\ d_rk (d_sub (d_div x d) (d_div m d)) = d_rk d_inf };
  assert { let q = d_div (d_sub (d_div x d) (d_div m d)) t in not (d_is_num q) \\/ d_is_num q /\\ d_rk q = d_rk d_inf }
let lemma between_zero_and_max (e: dbl) requires { d_is_num e /\\ d_rk d_zero <= d_rk e /\\ d_lt e d_max } ensures { d_finite e } = ()
let lemma""" + BLEM + """
= if any bool ensures { result <-> d_finite (d_div m d) } then begin
    assert { d_is_num (d_sub (d_div x d) (d_div m d)) /\\ d_is_num (d_sub (d_div y d) (d_div m d)) /\\ d_rk (d_sub (d_div x d) (d_div m d)) <= d_rk (d_sub (d_div y d) (d_div m d)) };
    assert { let q = d_div (d_sub (d_div x d) (d_div m d)) t in let r = d_div (d_sub (d_div y d) (d_div m d)) t in d_is_num q /\\ d_is_num r /\\ d_rk q <= d_rk r }
  end
let ghost""" + BALL + """= let lemma one (i: int) requires { 0 <= i < len_sd f } ensures { d_finite (bwt (fit f i) m d t) /\\ d_rk d_zero <= d_rk (bwt (fit f i) m d t) } = boltzmann_weights (fit f i) (fit f i) m d t in
  let lemma two (i j: int) requires { 0 <= i < len_sd f /\\ 0 <= j < len_sd f /\\ d_rk (fit f i) <= d_rk (fit f j) } ensures { d_rk (bwt (fit f i) m d t) <= d_rk (bwt (fit f j) m d t) } = boltzmann_weights (fit f i) (fit f j) m d t in ()
"""))
BW = "bwt (fit fmat %s) s'8 df temperature"
prep("Boltzmann", prelude=CDF + FA + GROW + EXP + "val" + BLEM + "val" + BALL, std={"exp": c_exp}, obj_members={"temperature_": lambda tr, o: Obj("temperature")}, obj_calls={"temperature": c_temp},
  ghost={"decl:df": "let ghost lowest = get_d fvec fmin in assert { [@expl:range of the fitness values] d_finite df /\\ d_rk d_zero < d_rk df };",
         "exit": "boltzmann_all fmat lowest df temperature; assert { [@expl:the weight of each candidate] forall i. 0 <= i < len_sd fmat -> get_d fvec i = bwt (fit fmat i) lowest df temperature }; assert { [@expl:weights of better candidates are not smaller] grows fmat fvec };"})
t("tournament", "Tournament::selectImpl", params=["ga", "fmat"], models=RNG, prelude=GROW.split("predicate grows")[0] + "predicate mem (s: seq_i) (v: int) = exists j. 0 <= j < len_i s /\\ get_i s j = v\n", requires=[ONE, ("no NaN among the fitness values", "forall i. 0 <= i < len_sd fmat -> d_is_num (fit fmat i)"), ("the tournament is not larger than the population", "0 < this_.tournament_tourney_size_ <= len_sd fmat")],
  ensures=[("an index of the population", "0 <= result < len_sd fmat")], loops={1: dict(inv=[("drawn indices", "forall k. 0 <= k < generate__i -> 0 <= get_i candidate_indices k < len_sd fmat")])},
  ghost={"exit": "assert { [@expl:the winner is one of the drawn candidates] len_i candidate_indices = this_.tournament_tourney_size_ /\\ mem candidate_indices res_ }; assert { [@expl:no drawn candidate is better] forall k. 0 <= k < len_i candidate_indices -> d_rk (fit fmat (get_i candidate_indices k)) <= d_rk (fit fmat res_) };"})

SAMPLE = [x for x in c06.TARGETS if x["name"] == "sampleCdf"][0]
for cl in "Roulette", "Rank", "Sigma", "Boltzmann":
    t(cl.lower() + "_select", cl + "::selectImpl", params=["ga", "fmat"], contracts={"gapp::rng::sampleCdf": contract_of(SAMPLE)}, prelude="predicate below (s: seq_d) (n: int) (v: dbl) = forall k. 0 <= k < n -> d_lt (get_d s k) v\n" + CDF,
      requires=[("the cumulative distribution of the population (prepareSelections)", "0 < len_d this_.%s_cdf_ = len_sd fmat /\\ cdf_ok this_.%s_cdf_" % (cl.lower(), cl.lower()))], ensures=[("an index of the population", "0 <= result < len_sd fmat")])
HARNESS = dict(src=["c12.cpp"], lib=True, asan=True, flags=[], secs=10, secs_thorough=60)

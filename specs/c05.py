from common import *
from fp import facts
PROP = "C05"
M = "gapp::mutation::"
FN = "add_num2 sub_num sub_num2 mul_num mul_unit2 sub_pos sub_neg add_ord one_minus fin_between mid_fin mid_between mid_sub mid2_fin div_pos add_num x_half_lo x_half_hi x_minus_one div_unit mid_add mul_le const1"
FA, FL = facts(FN)
# libm pow: x in [0, 1], y >= 0  ->  pow(x, y) in [0, 1]
POW01 = "axiom fp_pow01 : forall x y [d_pow x y]. d_is_num x -> d_is_num y -> d_rk d_zero <= d_rk x <= d_rk (d_of_int 1) -> d_rk d_zero <= d_rk y -> d_is_num (d_pow x y) /\\ d_rk d_zero <= d_rk (d_pow x y) <= d_rk (d_of_int 1)\n"
PM = lambda c: ("mutation rate is a probability (invariant of the Probability type)", "d_le d_zero this_.%s_pm_ && d_le this_.%s_pm_ (d_of_int 1)" % (c, c))
MEM = """
predicate seen (s: seq_i) (n v: int) = exists j. 0 <= j < n /\\ get_i s j = v
predicate distinct (s: seq_i) = forall a b. 0 <= a < b < len_i s -> get_i s a <> get_i s b
"""


def common(e, c):
    n = "len_%s chromosome" % e
    o = "len_%s (old chromosome)" % e
    return [("the length is kept", "%s = %s" % (n, o)),
            ("rate 0 never mutates", "d_rk this_.%s_pm_ <= d_rk d_zero -> forall k. 0 <= k < %s -> get_%s chromosome k = get_%s (old chromosome) k" % (c, o, e, e))]


def frame(e, idxs, at=None):
    """genes at positions not visited so far are unchanged"""
    cnt = at or "idx__i"
    return ("only genes at sampled positions change", "forall k. 0 <= k < len_%s chromosome -> not (seen %s %s k) -> get_%s chromosome k = get_%s (old chromosome) k" % (e, idxs, cnt, e, e))


def fr_exit(e, idxs):
    return "assert { [@expl:only genes at distinct sampled positions change] distinct %s /\\ (forall k. 0 <= k < len_%s chromosome -> not (seen %s (len_i %s) k) -> get_%s chromosome k = get_%s (old chromosome) k) };" % (idxs, e, idxs, idxs, e, e)


STEP = lambda idxs: {"loop1.body": "assert { [@expl:position not visited before] not (seen %s idx__i (get_i %s idx__i)) }; assert { [@expl:positions visited after this iteration] forall v. seen %s (idx__i + 1) v <-> (seen %s idx__i v \\/ v = get_i %s idx__i) };" % ((idxs,) * 5)}
TARGETS = [FL]
# ---------------------------------------------------------------- binary
BITS = """
(* xor of the least significant bit (proved over 32 bit vectors by the target lemma_bits) *)
val function bw_xor_i32 int int : int
axiom bits_flip : forall x [bw_xor_i32 x 1]. 0 <= x <= 255 -> 0 <= bw_xor_i32 x 1 <= 255
axiom bits_flip01 : bw_xor_i32 0 1 = 1 /\\ bw_xor_i32 1 1 = 0
axiom bits_flip_neq : forall x [bw_xor_i32 x 1]. 0 <= x <= 255 -> bw_xor_i32 x 1 <> x
"""
BV = "(set-logic ALL)\n(declare-const x (_ BitVec 32))\n"
TARGETS.append(dict(name="lemma_bits", smt=[
    ("bit fact bits_flip", BV + "(assert (bvsle #x00000000 x))(assert (bvsle x #x000000ff))(assert (not (and (bvsle #x00000000 (bvxor x #x00000001)) (bvsle (bvxor x #x00000001) #x000000ff))))(check-sat)"),
    ("bit fact bits_flip01", BV + "(assert (not (and (= (bvxor #x00000000 #x00000001) #x00000001) (= (bvxor #x00000001 #x00000001) #x00000000))))(check-sat)"),
    ("bit fact bits_flip_neq", BV + "(assert (= (bvxor x #x00000001) x))(check-sat)")]))
N = "len_i chromosome"
TARGETS.append(dict(name="flip", tu=drv("mut_bin.cpp"), qname=M + "binary::Flip::mutate", aliases={"GeneType": "unsigned char"}, models=RNG, prelude=BITS + MEM,
    requires=[PM("flip"), ("binary genes", "forall k. 0 <= k < %s -> 0 <= get_i chromosome k <= 1" % N)],
    ensures=common("i", "flip") + [("genes stay binary", "forall k. 0 <= k < %s -> 0 <= get_i chromosome k <= 1" % N)],
    loops={1: dict(inv=[frame("i", "flipped_indices"),
                        ("visited genes are flipped", "forall k. 0 <= k < %s -> seen flipped_indices idx__i k -> get_i chromosome k = 1 - get_i (old chromosome) k" % N)])},
    ghost={**STEP("flipped_indices"), "exit": "assert { [@expl:exactly the genes at the sampled positions are flipped, once each] distinct flipped_indices /\\ (forall k. 0 <= k < %s -> if seen flipped_indices (len_i flipped_indices) k then get_i chromosome k = 1 - get_i (old chromosome) k else get_i chromosome k = get_i (old chromosome) k) };" % N}))
# ---------------------------------------------------------------- integer
BI = "(get_bounds_i ga.ga_i_bounds_ k)"
IN = "%s.bounds_i_lower_ <= get_i %%s k <= %s.bounds_i_upper_" % (BI, BI)
CHG = "seen mutated_indices %s k -> %s.bounds_i_lower_ < %s.bounds_i_upper_ -> get_i chromosome k <> get_i (old chromosome) k" % ("%s", BI, BI)
TARGETS.append(dict(name="int_uniform", tu=drv("mut_int.cpp"), qname=M + "integer::Uniform::mutate", aliases={"GeneType": "long"}, models=RNG, prelude=MEM, diverges=True,
    requires=[PM("uniform"), ("one pair of bounds per gene", "len_bounds_i (ga.ga_i_bounds_) = " + N), ("genes within their bounds", "forall k. 0 <= k < %s -> %s" % (N, IN % "chromosome"))],
    ensures=common("i", "uniform") + [("genes stay within their bounds", "forall k. 0 <= k < %s -> %s" % (N, IN % "chromosome"))],
    loops={1: dict(inv=[frame("i", "mutated_indices"), ("genes stay within their bounds", "forall k. 0 <= k < %s -> %s" % (N, IN % "chromosome")),
                        ("visited genes with another allele change", "forall k. 0 <= k < %s -> %s" % (N, CHG % "idx__i"))]),
           2: dict(inv=[("the new gene is within the bounds of its position", "(get_bounds_i ga.ga_i_bounds_ (get_i mutated_indices idx__i)).bounds_i_lower_ <= new_gene <= (get_bounds_i ga.ga_i_bounds_ (get_i mutated_indices idx__i)).bounds_i_upper_"),
                        ("there is another allele to draw", "(get_bounds_i ga.ga_i_bounds_ (get_i mutated_indices idx__i)).bounds_i_lower_ < (get_bounds_i ga.ga_i_bounds_ (get_i mutated_indices idx__i)).bounds_i_upper_")])},
    ghost={**STEP("mutated_indices"), "exit": fr_exit("i", "mutated_indices") + "assert { [@expl:every sampled gene that has another allele changes] forall k. 0 <= k < %s -> %s };" % (N, CHG % "(len_i mutated_indices)")}))
# ---------------------------------------------------------------- real
ND = "len_d chromosome"
BD = "(get_bounds_d ga.ga_d_bounds_ k)"
IND = "d_is_num (get_d %%s k) /\\ d_rk %s.bounds_d_lower_ <= d_rk (get_d %%s k) <= d_rk %s.bounds_d_upper_" % (BD, BD)
MIDB = "mid %s.bounds_d_lower_ /\\ mid %s.bounds_d_upper_ /\\ d_rk %s.bounds_d_lower_ <= d_rk %s.bounds_d_upper_" % (BD, BD, BD, BD)
AT = lambda t: t.replace(" k)", " (get_i mutated_indices idx__i))")
EXTRA = {"NonUniform": [("beta is not negative (NonNegative)", "d_le d_zero this_.nonuniform_beta_"),
                        ("the generation counter does not exceed the maximum", "0 <= ga.ga_d_generation_cntr_ <= ga.ga_d_max_gen_ /\\ 1 <= ga.ga_d_max_gen_")],
         "Gauss": [("sigma is a finite positive number (Positive)", "d_finite this_.gauss_sigma_ /\\ d_rk d_zero < d_rk this_.gauss_sigma_"),
                   ("the standard deviations do not overflow", "forall k. 0 <= k < %s -> d_finite (d_div (d_sub %s.bounds_d_upper_ %s.bounds_d_lower_) this_.gauss_sigma_)" % (ND, BD, BD))],
         "Polynomial": [("eta is a moderate non-negative number (NonNegative)", "mid this_.polynomial_eta_ /\\ d_rk d_zero <= d_rk this_.polynomial_eta_")]}
for c in ("Uniform", "NonUniform", "Gauss", "Polynomial", "Boundary"):
    inv = [frame("d", "mutated_indices"), ("genes stay numbers within their bounds", "forall k. 0 <= k < %s -> %s" % (ND, IND % ("chromosome", "chromosome")))]
    g = dict(STEP("mutated_indices"))
    g["exit"] = fr_exit("d", "mutated_indices")
    B1 = "get_bounds_d ga.ga_d_bounds_ (get_i mutated_indices idx__i)"
    g["loop1.body"] += " assert { [@expl:moderate bounds of the gene] mid (%s).bounds_d_lower_ /\\ mid (%s).bounds_d_upper_ };" % (B1, B1)
    if c == "Boundary":
        bnd = "forall k. 0 <= k < %s -> seen mutated_indices %%s k -> get_d chromosome k = %s.bounds_d_lower_ \\/ get_d chromosome k = %s.bounds_d_upper_" % (ND, BD, BD)
        inv.append(("visited genes lie on a bound", bnd % "idx__i"))
        g["exit"] += "assert { [@expl:every sampled gene is set to one of its bounds] %s };" % (bnd % "(len_i mutated_indices)")
    if c == "NonUniform":
        g["decl:rand"] = "assert { [@expl:elapsed fraction of the run] let q = d_div (d_of_int ga.ga_d_generation_cntr_) (d_of_int ga.ga_d_max_gen_) in d_is_num q /\\ d_rk d_zero <= d_rk q <= d_rk (d_of_int 1) };"
        g["decl:exponent"] = "assert { [@expl:the exponent lies between 0 and 1] d_is_num exponent /\\ d_rk d_zero <= d_rk exponent <= d_rk (d_of_int 1) };"
        g["decl:multiplier"] = "assert { [@expl:the multiplier lies between 0 and 1] d_is_num multiplier /\\ d_rk d_zero <= d_rk multiplier <= d_rk (d_of_int 1) };"
        g["decl:bound"] = "assert { [@expl:finite distance to the bound] d_finite (d_sub bound (get_d chromosome (get_i mutated_indices idx__i))) /\\ d_finite (get_d chromosome (get_i mutated_indices idx__i)) };"
    if c == "Polynomial":
        ex = "d_div (d_of_int 1) (d_add (d_of_int 1) this_.polynomial_eta_)"
        pre = "assert { [@expl:non-negative exponent] d_is_num (%s) /\\ d_rk d_zero <= d_rk (%s) };" % (ex, ex)
        g["decl:delta"] = pre + "assert { [@expl:delta is finite] d_finite delta };" + "assert { [@expl:finite distance to the bound] mid (get_d chromosome (get_i mutated_indices idx__i)) };"
        g["decl:delta__2"] = pre + "assert { [@expl:delta is finite] d_finite delta__2 };" + "assert { [@expl:finite distance to the bound] mid (get_d chromosome (get_i mutated_indices idx__i)) };"
    TARGETS.append(dict(name="real_" + c.lower(), tu=drv("mut_real.cpp"), qname=M + "real::" + c + "::mutate", aliases={"GeneType": "double"}, models=RNG, prelude=((FA if c == "Polynomial" else "\n".join(l for l in FA.split("\n") if "d_c_0_5" not in l) + "\n")) + POW01 + MEM,
        requires=[PM(c.lower()), ("one pair of bounds per gene", "len_bounds_d (ga.ga_d_bounds_) = " + ND),
                  ("bounds are moderate numbers (|b| <= 2^500) with lower <= upper", "forall k. 0 <= k < %s -> %s" % (ND, MIDB)),
                  ("genes are numbers within their bounds", "forall k. 0 <= k < %s -> %s" % (ND, IND % ("chromosome", "chromosome")))] + EXTRA.get(c, []),
        ensures=common("d", c.lower()) + [("genes stay numbers within their bounds", "forall k. 0 <= k < %s -> %s" % (ND, IND % ("chromosome", "chromosome")))],
        loops={1: dict(inv=inv)}, ghost=g))
HARNESS = dict(src=["c05.cpp"], lib=True, secs=12, secs_thorough=240)

from common import *
from fp import facts, POW_AX
PROP = "C03"
# libm pow: pow(x, y) with x >= 1, y <= 0 lies in [0, 1]
POW2 = "axiom fp_pow_contract : forall x y [d_pow x y]. d_is_num x -> d_finite y -> d_rk (d_of_int 1) <= d_rk x -> d_rk y <= d_rk d_zero -> d_is_num (d_pow x y) /\\ d_rk d_zero <= d_rk (d_pow x y) <= d_rk (d_of_int 1)\n"
FA, FL = facts()
R = "gapp::crossover::real::"
P = lambda i: "get_d (parent%d.candidate_d_chromosome) k" % i
NN = "len_d (parent1.candidate_d_chromosome)"
B = "get_bounds_d (ga.ga_d_bounds_) k"
C = {1: "result.candidatepair_d_first.candidate_d_chromosome", 2: "result.candidatepair_d_second.candidate_d_chromosome"}
inb = lambda t: "d_is_num (%s) /\\ d_rk (%s).bounds_d_lower_ <= d_rk (%s) <= d_rk (%s).bounds_d_upper_" % (t, B, t, B)
REQ = [("parents of equal length", "len_d (parent1.candidate_d_chromosome) = len_d (parent2.candidate_d_chromosome)"),
       ("one pair of bounds per gene", "len_bounds_d (ga.ga_d_bounds_) = " + NN),
       ("bounds are moderate numbers (|b| <= 2^500) with lower <= upper", "forall k. 0 <= k < %s -> mid (%s).bounds_d_lower_ /\\ mid (%s).bounds_d_upper_ /\\ d_rk (%s).bounds_d_lower_ <= d_rk (%s).bounds_d_upper_" % (NN, B, B, B, B)),
       ("the parents' genes are within the bounds", "forall k. 0 <= k < %s -> %s /\\ %s" % (NN, inb(P(1)), inb(P(2))))]
ENS = [("children of the parents' length", "len_d (%s) = %s /\\ len_d (%s) = %s" % (C[1], NN, C[2], NN)),
       ("every gene of the first child is a number within its bounds", "forall k. 0 <= k < %s -> %s" % (NN, inb("get_d (%s) k" % C[1]))),
       ("every gene of the second child is a number within its bounds", "forall k. 0 <= k < %s -> %s" % (NN, inb("get_d (%s) k" % C[2])))]
CH = lambda i: "child%d.candidate_d_chromosome" % i
INV = [("children of the parents' length", "len_d (%s) = %s /\\ len_d (%s) = %s" % (CH(1), NN, CH(2), NN)),
       ("genes of the first child set so far are within the bounds", "forall k. 0 <= k < %s -> %s" % (NN, inb("get_d (%s) k" % CH(1)))),
       ("genes of the second child set so far are within the bounds", "forall k. 0 <= k < %s -> %s" % (NN, inb("get_d (%s) k" % CH(2))))]
K = lambda t: t.replace(" k", " i")
GH = {"loop1.body": "assert { [@expl:moderate genes] mid (%s) /\\ mid (%s) };" % (K(P(1)), K(P(2)))}


BE = lambda b: "assert { [@expl:%s is a number >= 1] d_is_num %s /\\ d_rk (d_of_int 1) <= d_rk %s };" % (b, b, b)
AL = lambda b: "assert { [@expl:%s lies between 1 and 2] d_finite %s /\\ d_rk (d_of_int 1) <= d_rk %s <= d_rk (d_of_int 2) };" % (b, b, b)
BP = lambda b: "assert { [@expl:%s is a non-negative number] d_is_num %s /\\ d_rk d_zero <= d_rk %s };" % (b, b, b)
EX = "(d_neg (d_add (this_.simulatedbinary_eta_) (d_of_int 1)))"
SBX = {"decl:beta1": BE("beta1"), "decl:beta2": BE("beta2") + "assert { [@expl:the exponent is finite and not positive] d_finite %s /\\ d_rk %s <= d_rk d_zero };" % (EX, EX),
       "decl:alpha1": AL("alpha1"), "decl:alpha2": AL("alpha2"),
       "decl:beta1_prime": BP("beta1_prime"), "decl:beta2_prime": BP("beta2_prime"),
       "decl:u": "assert { [@expl:u * alpha < 2] d_finite (d_mul u alpha) /\\ d_rk d_zero <= d_rk (d_mul u alpha) < d_rk (d_of_int 2) };"
                 "assert { [@expl:base of pow] d_is_num (d_div (d_of_int 1) (d_sub (d_of_int 2) (d_mul u alpha))) /\\ d_rk d_zero <= d_rk (d_div (d_of_int 1) (d_sub (d_of_int 2) (d_mul u alpha))) };",
       "decl:u__2": "assert { [@expl:u * alpha < 2] d_finite (d_mul u__2 alpha__2) /\\ d_rk d_zero <= d_rk (d_mul u__2 alpha__2) < d_rk (d_of_int 2) };"
                 "assert { [@expl:base of pow] d_is_num (d_div (d_of_int 1) (d_sub (d_of_int 2) (d_mul u__2 alpha__2))) /\\ d_rk d_zero <= d_rk (d_div (d_of_int 1) (d_sub (d_of_int 2) (d_mul u__2 alpha__2))) };"}


def c_floatIsEqual(tr, obj, vs, n):
    a, b = tr.snap(vs[0]), tr.snap(vs[1])
    r = tr.any(BOOL)
    tr.assume("not %s -> d_is_num %s -> d_is_num %s -> d_rk %s <> d_rk %s" % (r, tr.term(a), tr.term(b), tr.term(a), tr.term(b)))
    return T(r, BOOL)


def c_any_bool(tr, obj, vs, n):
    return T(tr.any(BOOL), BOOL)


MODELS = {**RNG, "gapp::math::floatIsEqual": c_floatIsEqual, "gapp::math::paretoCompareLess": c_any_bool}
TARGETS = [FL]
EXTRA = {"BLXa": [("alpha is a moderate non-negative number (NonNegative)", "mid this_.blxa_alpha_ /\\ d_rk d_zero <= d_rk this_.blxa_alpha_")],
         "SimulatedBinary": [("eta is a moderate non-negative number (NonNegative)", "mid this_.simulatedbinary_eta_ /\\ d_rk d_zero <= d_rk this_.simulatedbinary_eta_")],
         "Wright": [("fitness vectors of equal length", "len_d (parent1.candidate_d_fitness) = len_d (parent2.candidate_d_fitness)")]}
for cl in ("Arithmetic", "BLXa", "SimulatedBinary", "Wright"):
    TARGETS.append(dict(name=cl.lower(), tu=drv("cx_real.cpp"), qname=R + cl + "::crossover", aliases={"GeneType": "double"}, models=MODELS, prelude=FA + POW_AX + POW2,
                        requires=REQ + EXTRA.get(cl, []), ensures=ENS, loops={1: dict(inv=INV)}, ghost={**GH, **(SBX if cl == "SimulatedBinary" else {})}))
HARNESS = dict(src=["c03.cpp"], lib=True, secs=14, secs_thorough=240)

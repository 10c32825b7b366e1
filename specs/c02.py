from common import *
from lemmas import *
from contracts import contract_of
PROP = "C02"


C1 = "get_i (result.candidatepair_i_first.candidate_i_chromosome) k"
C2 = "get_i (result.candidatepair_i_second.candidate_i_chromosome) k"
P1 = "get_i (parent1.candidate_i_chromosome) k"
P2 = "get_i (parent2.candidate_i_chromosome) k"
N = "len_i (parent1.candidate_i_chromosome)"
KEEP = "(%s = %s /\\ %s = %s)" % (C1, P1, C2, P2)
SWAP = "(%s = %s /\\ %s = %s)" % (C1, P2, C2, P1)
LEN = ("children have the parents' length", "len_i (result.candidatepair_i_first.candidate_i_chromosome) = %s /\\ len_i (result.candidatepair_i_second.candidate_i_chromosome) = %s" % (N, N))
EQLEN = ("parents of equal length", "len_i (parent1.candidate_i_chromosome) = len_i (parent2.candidate_i_chromosome)")
COMPL = ("children are complementary at every position", "forall k. 0 <= k < %s -> %s \\/ %s" % (N, KEEP, SWAP))
D = "gapp::crossover::dtl::"
ul = lambda f: "unsigned long" in f.type


def swapinv(no, swapped, v1="child1", v2="child2", base=("parent1", "parent2")):
    """loop invariant: at positions satisfying `swapped` the genes are exchanged w.r.t. base, elsewhere not"""
    a, b = base
    return ("genes exchanged exactly at the positions already visited",
            "forall k. 0 <= k < %s -> if %s then get_i (%s.candidate_i_chromosome) k = get_i (%s.candidate_i_chromosome) k /\\ get_i (%s.candidate_i_chromosome) k = get_i (%s.candidate_i_chromosome) k "
            "else get_i (%s.candidate_i_chromosome) k = get_i (%s.candidate_i_chromosome) k /\\ get_i (%s.candidate_i_chromosome) k = get_i (%s.candidate_i_chromosome) k"
            % (N, swapped, v1, b, v2, a, v1, a, v2, b))


ODD = "mod (cntle crossover_points_0 k (len_i crossover_points_0)) 2 = 1"


def swst(odd):
    return ("genes exchanged exactly between the processed cut points",
            "forall k. 0 <= k < %s -> if %s then get_i (child1.candidate_i_chromosome) k = %s /\\ get_i (child2.candidate_i_chromosome) k = %s "
            "else get_i (child1.candidate_i_chromosome) k = %s /\\ get_i (child2.candidate_i_chromosome) k = %s" % (N, odd, P1, P2, P2, P1))


TARGETS = [CNTLE_LEMMA,
    dict(name="single_point", tu=drv("crossover.cpp"), qname=D + "singlePointCrossoverImpl", match=ul,
         requires=[EQLEN, ("cut point within the chromosome", "crossover_point_0 <= " + N)],
         ensures=[LEN, COMPL, ("one cut", "forall k. 0 <= k < %s -> if k < crossover_point_0 then %s else %s" % (N, SWAP, KEEP))],
         loops={1: dict(inv=[swapinv(1, "k < i")])}),
    dict(name="two_point", tu=drv("crossover.cpp"), qname=D + "twoPointCrossoverImpl", match=ul,
         requires=[EQLEN, ("cut points within the chromosome", "let (a, b) = crossover_points_0 in 0 <= a <= %s /\\ 0 <= b <= %s" % (N, N))],
         ensures=[LEN, COMPL, ("two cuts", "let (a, b) = crossover_points_0 in forall k. 0 <= k < %s -> if (a <= k < b) || (b <= k < a) then %s else %s" % (N, SWAP, KEEP))],
         loops={1: dict(inv=[swapinv(1, "(let (a, b) = crossover_points_0 in (a <= k < i && a <= b) || (b <= k < i && b <= a))")])}),
    dict(name="n_point", tu=drv("crossover.cpp"), qname=D + "nPointCrossoverImpl", match=ul,
         prelude=CNTLE + CNTLE_PERM_AX,
         requires=[EQLEN, ("cut points within the chromosome", "forall i. 0 <= i < len_i crossover_points_0 -> 0 <= get_i crossover_points_0 i <= %s" % N)],
         ensures=[LEN, COMPL,
                  ("the source parent changes exactly at the cut points",
                   "(forall k. 0 <= k < %s -> if %s then %s else %s) \\/ (forall k. 0 <= k < %s -> if %s then %s else %s)" % (N, ODD, KEEP, SWAP, N, ODD, SWAP, KEEP))],
         after_perm=lambda old, new, p, q, e, lo, hi: "assert { [@expl:sorting permutes the cut points] permw %s %s %s %s (len_i crossover_points_0) };\nlet ghost srt = %s in let ghost m0 = len_i srt in assert { [@expl:cut point counts] forall k. cntle crossover_points_0 k m0 = cntle srt k m0 };" % (old, new, p, q, new),
         ghost={"loop1.before": "let ghost m1 = len_i crossover_points in assert { [@expl:even number of cut points] mod m1 2 = 0 }; assert { [@expl:cut points are sorted] forall a b. 0 <= a < b < m1 -> 0 <= get_i crossover_points a <= get_i crossover_points b <= %s };"
                "assert { [@expl:cut point counts] forall k. 0 <= k < %s -> cntle crossover_points k m1 = cntle crossover_points_0 k m0 };" % (N, N)},
         loops={1: dict(inv=[("pairs of cut points", "mod i 2 = 1 /\\ 1 <= i <= m1 + 1"), swst("mod (cntle crossover_points k (i-1)) 2 = 1")]),
                2: dict(inv=[("cut range", "get_i crossover_points (i-1) <= j <= get_i crossover_points i"),
                             swst("(mod (cntle crossover_points k (i-1)) 2 = 1) <-> not (get_i crossover_points (i-1) <= k < j)")])}),
]
UNI = ("genes exchanged exactly at the sampled positions visited so far",
       "forall k. 0 <= k < %s -> ((get_i (child1.candidate_i_chromosome) k = %s /\\ get_i (child2.candidate_i_chromosome) k = %s) \\/ (get_i (child1.candidate_i_chromosome) k = %s /\\ get_i (child2.candidate_i_chromosome) k = %s))" % (N, P1, P2, P2, P1))
BY = {t["name"]: t for t in TARGETS}
GENES = {"binary": "unsigned char", "integer": "long"}
for enc in ("binary", "integer"):
    ty = GENES[enc]
    for nm in ("single_point", "two_point", "n_point"):
        t = dict(BY[nm], name="%s_%s" % (nm, enc), tu=drv("cx_ops.cpp"), match=(lambda f, ty=ty: "<%s>" % ty in f.type))
        TARGETS.append(t)
        BY[t["name"]] = t
    for cl, impl in (("SinglePoint", "single_point"), ("TwoPoint", "two_point"), ("NPoint", "n_point"), ("Uniform", None)):
        t = dict(name="%s_%s_operator" % (enc, cl), tu=drv("cx_ops.cpp"), qname="gapp::crossover::%s::%s::crossover" % (enc, cl),
                 prelude=CNTLE, models=RNG, aliases={"GeneType": ty}, requires=[EQLEN], ensures=[LEN, COMPL])
        if impl:
            t["contracts"] = {BY[impl]["qname"]: contract_of(BY["%s_%s" % (impl, enc)])}
        else:
            t["loops"] = {1: dict(inv=[UNI])}
            t["requires"] = [EQLEN, ("swap probability in [0, 1] (invariant of the Probability type)", "d_le d_zero this_.uniform_ps_ && d_le this_.uniform_ps_ (d_of_int 1)")]
        TARGETS.append(t)
HARNESS = dict(src=["c02.cpp"], lib=True, secs=12, secs_thorough=200)

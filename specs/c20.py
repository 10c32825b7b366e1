"""Validity of every candidate of a run: the candidates generateCandidate makes, and the GA targets of C13
with validity of the genes added to their contracts (okg: an abstract predicate that the operators preserve by C01 to C05)."""
from common import *
import os, types
import c06
PROP = "C20"
G = types.ModuleType("c13_genes")
G.GENES = True
G.__file__ = os.path.join(os.path.dirname(os.path.abspath(__file__)), "c13.py")
exec(compile(open(G.__file__).read(), G.__file__, "exec"), G.__dict__)
TARGETS = []
E = drv("encoding.cpp")
PRE = """
val constant chrom_len_ : int
axiom chrom_len_range : 0 <= chrom_len_ < size_limit
"""
def rb(tr, *a):
    return T(tr.any(BOOL), BOOL)
GT = {"BinaryGA": "unsigned char", "IntegerGA": "long", "PermutationGA": "unsigned long", "RCGA": "double"}
def gen(name, cls, sx, **kw):
    n = "len_%s result.candidate_%s_chromosome" % (sx, sx)
    g = "(get_%s result.candidate_%s_chromosome k)" % (sx, sx)
    kw["ensures"] = [("one gene per position", n + " = chrom_len_"), ("not evaluated", "not result.candidate_%s_is_evaluated" % sx)] + [(a, b.replace("GENE", g).replace("LEN", n).replace("CHR", "result.candidate_%s_chromosome" % sx)) for a, b in kw["ensures"]]
    kw.setdefault("requires", [])
    pre = kw.pop("prelude", "")
    TARGETS.append(dict(dict(name=name, tu=E, dbl=True, qname="gapp::%s::generateCandidate" % cls, models=RNG, aliases={"GeneType": GT[cls]}, prelude=PRE + pre, contracts={q + "GA::chrom_len": lambda tr, fn, o, vs, n: T("chrom_len_", SZ) for q in ("gapp::", "gapp::GaInfo::")}), **kw))
gen("gen_binary", "BinaryGA", "i", ensures=[("genes are 0 or 1", "forall k. 0 <= k < LEN -> 0 <= GENE <= 1")], loops={1: dict(inv=[("the genes so far are 0 or 1", "forall k. 0 <= k < generate__i -> 0 <= get_i solution.candidate_i_chromosome k <= 1")])})
B = "(get_bounds_i this_.integerga_bounds_ k)"
gen("gen_integer", "IntegerGA", "i", requires=[("ordered bounds for every gene", "len_bounds_i this_.integerga_bounds_ = chrom_len_ /\\ forall k. 0 <= k < chrom_len_ -> {0}.bounds_i_lower_ <= {0}.bounds_i_upper_".format(B))],
  ensures=[("genes are within their bounds", "forall k. 0 <= k < LEN -> {0}.bounds_i_lower_ <= GENE <= {0}.bounds_i_upper_".format(B))],
  loops={1: dict(inv=[("the genes so far are within their bounds", "idx <= chrom_len_ /\\ forall k. 0 <= k < idx -> {0}.bounds_i_lower_ <= get_i solution.candidate_i_chromosome k <= {0}.bounds_i_upper_".format(B))])})
gen("gen_permutation", "PermutationGA", "i", prelude=PERM_I, ensures=[("the genes are a permutation", "perm CHR")])
BD = "(get_bounds_d this_.rcga_bounds_ k)"
LO, HI = BD + ".bounds_d_lower_", BD + ".bounds_d_upper_"
gen("gen_real", "RCGA", "d", requires=[("ordered finite bounds of finite width for every gene", "len_bounds_d this_.rcga_bounds_ = chrom_len_ /\\ forall k. 0 <= k < chrom_len_ -> d_finite %s /\\ d_finite %s /\\ d_finite (d_sub %s %s) /\\ d_le %s %s" % (LO, HI, HI, LO, LO, HI))],
  ensures=[("genes are numbers within their bounds", "forall k. 0 <= k < LEN -> d_is_num GENE /\\ d_rk %s <= d_rk GENE <= d_rk %s" % (LO, HI))],
  loops={1: dict(inv=[("the genes so far are within their bounds", "i <= len_d solution.candidate_d_chromosome /\\ forall k. 0 <= k < i -> d_is_num (get_d solution.candidate_d_chromosome k) /\\ d_rk %s <= d_rk (get_d solution.candidate_d_chromosome k) <= d_rk %s" % (LO, HI))])})
SKIP = ("hasValidFitness", "hasValidChromosome", "isValidEvaluatedPopulation", "isValidUnevaluatedPopulation", "fitnessMatrixIsSynced")  # decided under C13, no genes involved
TARGETS += [t for t in G.TARGETS if t["name"] not in SKIP]
# where the solutions come from is enough here: that none is lost or repeated is part of C13
import re
U = [t for t in TARGETS if t["name"] == "updateOptimalSolutions"][0]
KEEP = ("only sorted in between", "kept ones are merged ones", "the kept part is returned", "only merged solutions")
def only(text):
    return re.sub(r"assert \{ \[@expl:([^\]]*)\][^}]*\};", lambda m: m.group(0) if m.group(1) in KEEP else "", text)
AU = U["after_unique"]
U["after_unique"] = lambda *a: only(AU(*a))
U["ghost"] = {k: only(v) for k, v in U["ghost"].items()}
HARNESS = dict(src=["c20.cpp"], lib=True, asan=True, secs=12, secs_thorough=90)

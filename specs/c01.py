from common import *
from lemmas import *
from contracts import contract_of
PROP = "C01"
D = "gapp::crossover::dtl::"
ul = lambda f: "unsigned long" in f.type
P1, P2 = "parent1.candidate_i_chromosome", "parent2.candidate_i_chromosome"
C = "result.candidate_i_chromosome"
CH = "child.candidate_i_chromosome"
N = "len_i (%s)" % P1
NONNEG = "(forall i. 0 <= i < len_i (%s) -> 0 <= get_i (%s) i)"

IS_VALID = dict(name="is_valid_permutation", tu=drv("crossover.cpp"), qname=D + "isValidIntegerPermutation", match=ul, prelude=PERM_AX,
                params=["chrom"],
                ensures=[("true exactly for permutations of 0..n-1", "result <-> (perm chrom \\/ not (forall i. 0 <= i < len_i chrom -> 0 <= get_i chrom i))")],
                loops={1: dict(inv=[("the genes seen so far are distinct", "forall v. 0 <= v < len_i chrom -> (get_b present v <-> exists j. 0 <= j < val__i /\\ get_i chrom j = v)"),
                                    ("distinct", "forall a b. 0 <= a < b < val__i -> get_i chrom a <> get_i chrom b")])},
                ghost={})
IS_VALID["ensures"] = [("a permutation of 0..n-1 is accepted", "perm chrom -> result")]
IS_VALID["ghost"] = {"entry": "assert { perm chrom /\\ len_i chrom > 0 -> mem_i chrom 0 /\\ mem_i chrom (len_i chrom - 1) };"}
IS_VALID["loops"] = {1: dict(inv=[("genes seen so far", "forall v. 0 <= v < len_i chrom -> get_b present v -> exists j. 0 <= j < val__i /\\ get_i chrom j = v")])}
VALID = {D + "isValidIntegerPermutation": contract_of(IS_VALID, wname="is_valid_permutation_c")}

PERMS = [("parents are permutations of the same genes", "perm (%s) /\\ perm (%s) /\\ len_i (%s) = len_i (%s)" % (P1, P2, P1, P2))]
RANGE = ("range within the chromosome", "first_0 <= last_0 <= " + N)
POST = ("the child is a permutation of the same genes", "perm (%s) /\\ len_i (%s) = %s" % (C, C, N))
INSIDE = ("the selected range is taken from the first parent", "forall i. first_0 <= i < last_0 -> get_i (%s) i = get_i (%s) i" % (C, P1))

DSET = """
(* the set of the genes s[f..l) *)
function dset (s: seq_i) (f l: int) : seq_b
axiom dset_len : forall s f l [dset s f l]. len_b (dset s f l) = len_i s
axiom dset_def : forall s f l v [get_b (dset s f l) v]. 0 <= v < len_i s -> (get_b (dset s f l) v <-> exists i. f <= i < l /\\ get_i s i = v)
"""
DSET += """
(* rank of a slot outside [f, l); rank of a slot counted cyclically from st *)
function outr (a f l: int) : int
axiom outr_def : forall a f l [outr a f l]. outr a f l = if a < f then a else a - (l - f)
function cycr (a st n: int) : int
axiom cycr_def : forall a st n [cycr a st n]. cycr a st n = if a >= st then a - st else a - st + n
"""
DS = "(dset (%s) first_0 last_0)" % P1
FILL = lambda upto: ("genes marked so far", "forall v. 0 <= v < %s -> (get_b is_direct v <-> exists i. first <= i < %s /\\ get_i (%s) i = v)" % (N, upto, P1))
SELR = "assert { [@expl:marked genes are those of the range] ext_b is_direct %s }; assert { [@expl:marked genes by position] rset (%s) is_direct first last }; assert { [@expl:number of genes outside the range] cnd (%s) is_direct (%s) = %s - (last - first) }; " % (DS, P1, P1, N, N)

DISTINCT = "assert { [@expl:genes of the child are distinct] forall a b. 0 <= a < b < %s -> get_i (%s) a <> get_i (%s) b };" % (N, CH, CH)
SLOT2 = "(if cnd (%s) %s j < first_0 then cnd (%s) %s j else cnd (%s) %s j + (last_0 - first_0))" % ((P2, DS) * 3)
ORDER2 = dict(name="order2", tu=drv("crossover.cpp"), qname=D + "order2CrossoverImpl", match=ul, contracts=VALID,
              prelude=PERM_AX + CND_AX + DSET,
              requires=PERMS + [RANGE],
              ensures=[INSIDE, ("the other genes are in the second parent's order", "forall j. 0 <= j < %s -> not get_b %s (get_i (%s) j) -> get_i (%s) %s = get_i (%s) j" % (N, DS, P2, C, SLOT2, P2)), POST],
              loops={1: dict(inv=[FILL("idx")]),
                     2: dict(inv=[("next free slot", "let c = cnd (%s) %s gene__i in child_pos = (if c <= first then c else c + (last - first))" % (P2, DS)),
                                  ("range kept", "forall i. first <= i < last -> get_i (%s) i = get_i (%s) i" % (CH, P1)),
                                  ("genes placed so far", "forall j. 0 <= j < gene__i -> not get_b %s (get_i (%s) j) -> get_i (%s) %s = get_i (%s) j" % (DS, P2, CH, SLOT2, P2))])},
              ghost={"loop2.body": "assert { [@expl:unplaced genes fit] not get_b %s (get_i (%s) gene__i) -> cnd (%s) %s gene__i < cnd (%s) %s (%s) /\\ cnd (%s) %s (%s) = %s - (last - first) /\\ (if child_pos = first then last else child_pos) < %s };" % (DS, P2, P2, DS, P2, DS, N, P2, DS, N, N, N),
                     "loop1.after": SELR + "assert { [@expl:number of genes outside the range] cnd (%s) %s (%s) = %s - (last - first) };" % (P2, DS, N, N),
                     "loop2.after": "assert { [@expl:every slot is filled] forall a. 0 <= a < %s -> not (first <= a < last) -> 0 <= outr a first last < cnd (%s) %s (%s) /\\ hasrank (%s) %s (%s) (outr a first last) };"
                                    "assert { [@expl:every slot is filled] forall a. 0 <= a < %s -> not (first <= a < last) -> exists j. 0 <= j < %s /\\ not get_b %s (get_i (%s) j) /\\ cnd (%s) %s j = outr a first last /\\ get_i (%s) a = get_i (%s) j };"
                                    "assert { [@expl:outside genes are unmarked] forall a. 0 <= a < %s -> 0 <= get_i (%s) a < %s /\\ (get_b %s (get_i (%s) a) <-> first <= a < last) };"
                                    % (N, P2, DS, N, P2, DS, N, N, N, DS, P2, P2, DS, CH, P2, N, CH, N, DS, CH) + DISTINCT})

START = "(if last_0 = %s then 0 else last_0)" % N
IDX = lambda q: "(if %s + %s < %s then %s + %s else %s + %s - %s)" % (START, q, N, START, q, START, q, N)
ROT = "(cat_i (sub_i (%s) %s (%s)) (sub_i (%s) 0 %s))" % (P2, START, N, P2, START)
SLOT1 = IDX("(cnd %s %s j)" % (ROT, DS))
ORDER1 = dict(name="order1", tu=drv("crossover.cpp"), qname=D + "order1CrossoverImpl", match=ul, contracts=VALID,
              prelude=PERM_AX + CND_AX + DSET,
              requires=PERMS + [RANGE],
              ensures=[INSIDE, ("the other genes are in the second parent's cyclic order from the end of the range",
                                "let rot = %s in forall j. 0 <= j < %s -> not get_b %s (get_i rot j) -> get_i (%s) %s = get_i rot j" % (ROT, N, DS, C, SLOT1.replace(ROT, "rot"))), POST],
              loops={1: dict(inv=[FILL("idx")]),
                     2: dict(inv=[("scan position", "0 <= q <= %s /\\ cnd rot %s q = i /\\ parent_pos = %s /\\ child_pos = %s" % (N, DS, IDX("q"), IDX("i"))),
                                  ("range kept", "forall i. first <= i < last -> get_i (%s) i = get_i (%s) i" % (CH, P1)),
                                  ("genes placed so far", "forall j. 0 <= j < q -> not get_b %s (get_i rot j) -> get_i (%s) %s = get_i rot j" % (DS, CH, SLOT1.replace(ROT, "rot")))]),
                     3: dict(inv=[("scan position", "0 <= q < %s /\\ cnd rot %s q = i /\\ parent_pos = %s" % (N, DS, IDX("q"))),
                                  ("genes placed so far", "forall j. 0 <= j < q -> not get_b %s (get_i rot j) -> get_i (%s) %s = get_i rot j" % (DS, CH, SLOT1.replace(ROT, "rot")))],
                             variant="%s - q" % N)},
              ghost={"loop1.after": SELR + "let ghost rot = %s in let ghost ref q = 0 in assert { [@expl:rotation] len_i rot = %s /\\ forall j. 0 <= j < %s -> get_i rot j = get_i (%s) %s }; assert { [@expl:rotation is a permutation] perm rot };"
                                           "assert { [@expl:number of genes outside the range] cnd rot %s (%s) = %s - (last - first) };" % (ROT, N, N, P2, IDX("j"), DS, N, N),
                     "loop3.before": "assert { [@expl:unplaced genes remain] q < %s };" % N,
                     "loop3.body": "q <- q + 1; assert { [@expl:unplaced genes remain] q < %s };" % N,
                     "loop3.after": "assert { [@expl:gene to place] 0 <= q < %s /\\ not get_b %s (get_i rot q) /\\ parent_pos = %s /\\ cnd rot %s q = i }; assert { [@expl:earlier genes have earlier slots] forall j. 0 <= j < q -> not get_b %s (get_i rot j) -> 0 <= cnd rot %s j < i };" % (N, DS, IDX("q"), DS, DS, DS),
                     "loop2.end": "q <- q + 1;",
                     "loop2.after": "assert { [@expl:no unplaced genes remain] forall j. q <= j < %s -> get_b %s (get_i rot j) };"
                                    "assert { [@expl:every slot is filled] forall a. 0 <= a < %s -> not (first <= a < last) -> 0 <= cycr a %s (%s) < cnd rot %s (%s) /\\ hasrank rot %s (%s) (cycr a %s (%s)) };"
                                    "assert { [@expl:every slot is filled] forall a. 0 <= a < %s -> not (first <= a < last) -> exists j. 0 <= j < q /\\ not get_b %s (get_i rot j) /\\ cnd rot %s j = cycr a %s (%s) /\\ get_i (%s) a = get_i rot j };"
                                    "assert { [@expl:outside genes are unmarked] forall a. 0 <= a < %s -> 0 <= get_i (%s) a < %s /\\ (get_b %s (get_i (%s) a) <-> first <= a < last) };"
                                    % (N, DS, N, START, N, DS, N, DS, N, START, N, N, DS, DS, START, N, CH, N, CH, N, DS, CH)
                                    + DISTINCT})

DSEL = """
(* the set of the genes s[idx[t]] *)
function dsel (s: seq_i) (idx: seq_i) : seq_b
axiom dsel_len : forall s idx [dsel s idx]. len_b (dsel s idx) = len_i s
axiom dsel_def : forall s idx v [get_b (dsel s idx) v]. 0 <= v < len_i s -> (get_b (dsel s idx) v <-> exists t. 0 <= t < len_i idx /\\ get_i s (get_i idx t) = v)
"""
DX = "(dsel (%s) indices_0)" % P1
NXT = "(let r = get_i next_indirect k in (r = 18446744073709551615 /\\ (forall m. k <= m < %s -> get_b %s (get_i (%s) m))) \\/ (k <= r < %s /\\ not get_b %s (get_i (%s) r) /\\ (forall m. k <= m < r -> get_b %s (get_i (%s) m))))" % (N, DX, P1, N, DX, P1, DX, P1)
POSITION = dict(name="position", wrap=True, tu=drv("crossover.cpp"), qname=D + "positionCrossoverImpl", match=ul, contracts=VALID,
                prelude=PERM_AX + CND_AX + DSEL,
                requires=PERMS + [("at least one gene", "0 < " + N), ("indices within the chromosome", "forall t. 0 <= t < len_i indices_0 -> 0 <= get_i indices_0 t < " + N)],
                ensures=[("genes at the selected positions are kept", "forall t. 0 <= t < len_i indices_0 -> get_i (%s) (get_i indices_0 t) = get_i (%s) (get_i indices_0 t)" % (C, P1)),
                         ("the other genes are in the second parent's order", "forall i j. 0 <= i < %s -> 0 <= j < %s -> not get_b %s (get_i (%s) i) -> not get_b %s (get_i (%s) j) -> cnd (%s) %s i = cnd (%s) %s j -> get_i (%s) i = get_i (%s) j"
                          % (N, N, DX, P1, DX, P2, P1, DX, P2, DX, C, P2)), POST],
                loops={1: dict(inv=[("genes marked so far", "forall v. 0 <= v < %s -> (get_b is_direct v <-> exists t. 0 <= t < idx__i /\\ get_i (%s) (get_i indices_0 t) = v)" % (N, P1))]),
                       2: dict(inv=[("next unselected position", "-1 <= i <= %s - 1 /\\ ((indirect = -1 /\\ (forall m. i < m < %s -> get_b %s (get_i (%s) m))) \\/ (i < indirect < %s /\\ not get_b %s (get_i (%s) indirect) /\\ (forall m. i < m < indirect -> get_b %s (get_i (%s) m))))"
                                     % (N, N, DX, P1, N, DX, P1, DX, P1)),
                                    ("table of next unselected positions", "forall k. i < k < %s -> %s" % (N, NXT))]),
                       3: dict(inv=[("slots used", "0 <= child_pos <= %s /\\ cnd (%s) %s child_pos = cnd (%s) %s gene__i" % (N, P1, DX, P2, DX)),
                                    ("selected genes are kept", "forall i. 0 <= i < %s -> get_b %s (get_i (%s) i) -> get_i (%s) i = get_i (%s) i" % (N, DX, P1, CH, P1)),
                                    ("genes placed so far", "forall i j. 0 <= i < %s -> 0 <= j < gene__i -> not get_b %s (get_i (%s) i) -> not get_b %s (get_i (%s) j) -> cnd (%s) %s i = cnd (%s) %s j -> get_i (%s) i = get_i (%s) j"
                                     % (N, DX, P1, DX, P2, P1, DX, P2, DX, CH, P2))])},
                ghost={"loop1.after": "assert { [@expl:marked genes are the selected ones] ext_b is_direct %s };" % DX,
                       "loop2.after": "assert { [@expl:as many unselected genes in both parents] cnd (%s) %s (%s) = cnd (%s) %s (%s) };" % (P1, DX, N, P2, DX, N),
                       "loop3.body": "assert { [@expl:an unselected position remains] not get_b %s (get_i (%s) gene__i) -> cnd (%s) %s child_pos < cnd (%s) %s (%s) /\\ child_pos < %s };"
                                     "assert { [@expl:the next unselected position] not get_b %s (get_i (%s) gene__i) -> (let r = get_i next_indirect child_pos in child_pos <= r < %s /\\ not get_b %s (get_i (%s) r) /\\ cnd (%s) %s r = cnd (%s) %s child_pos) };"
                                     % (DX, P2, P1, DX, P1, DX, N, N, DX, P2, N, DX, P1, P1, DX, P1, DX),
                       "loop3.after": "assert { [@expl:every unselected position is filled] forall i. 0 <= i < %s -> not get_b %s (get_i (%s) i) -> 0 <= cnd (%s) %s i < cnd (%s) %s (%s) /\\ hasrank (%s) %s (%s) (cnd (%s) %s i) };"
                                      "assert { [@expl:every unselected position is filled] forall i. 0 <= i < %s -> not get_b %s (get_i (%s) i) -> exists j. 0 <= j < %s /\\ not get_b %s (get_i (%s) j) /\\ cnd (%s) %s j = cnd (%s) %s i /\\ get_i (%s) i = get_i (%s) j };"
                                      "assert { [@expl:unselected slots hold unselected genes] forall i. 0 <= i < %s -> 0 <= get_i (%s) i < %s /\\ (get_b %s (get_i (%s) i) <-> get_b %s (get_i (%s) i)) };"
                                      % (N, DX, P1, P1, DX, P2, DX, N, P2, DX, N, P1, DX, N, DX, P1, N, DX, P2, P2, DX, P1, DX, CH, P2, N, CH, N, DX, CH, DX, P1) + DISTINCT})

PRED = "(inv_i (%s) (get_i (%s) x))" % (P1, P2)
MARK = "forall x. 0 <= x < %s -> get_i rt x = -1 \\/ (first <= get_i rt x %%s /\\ not get_b %s (get_i (%s) (get_i rt x)) /\\ 0 <= get_i rk x < len_i vs /\\ get_i vs (get_i rk x) = x /\\ (x = get_i rt x \\/ (first <= %s < last /\\ get_i rt %s = get_i rt x /\\ 0 <= get_i rk %s < get_i rk x)))" % (N, DS, P2, PRED, PRED, PRED)
VIS = "forall t. 0 <= t < len_i vs -> 0 <= get_i vs t < %s /\\ get_i rt (get_i vs t) <> -1 /\\ get_i rk (get_i vs t) = t" % N
LENS = "len_i rt = %s /\\ len_i rk = %s /\\ len_i en = %s" % (N, N, N)
OUTM = "forall x. 0 <= x < %s -> not (first <= x < last) -> if get_i rt x = -1 then get_i (%s) x = get_i (%s) x else get_i rt x < i__3 /\\ get_i (%s) x = get_i (%s) (get_i rt x)" % (N, CH, P2, CH, P2)
ENDS = "forall r. first <= r < i__3 -> not get_b %s (get_i (%s) r) -> 0 <= get_i en r < %s /\\ not (first <= get_i en r < last) /\\ get_i rt (get_i en r) = r" % (DS, P2, N)
KEEPR = "forall k. first <= k < last -> get_i (%s) k = get_i (%s) k" % (CH, P1)
PMX = dict(name="pmx", tu=drv("crossover.cpp"), qname=D + "pmxCrossoverImpl", match=ul, contracts=VALID, prelude=PERM_AX + DSET,
           requires=PERMS + [RANGE],
           ensures=[INSIDE, ("genes outside the range that do not conflict are kept from the second parent", "forall k. 0 <= k < %s -> not (first_0 <= k < last_0) -> not get_b %s (get_i (%s) k) -> get_i (%s) k = get_i (%s) k" % (N, DS, P2, C, P2)), POST],
           loops={1: dict(inv=[("genes marked so far", "forall v. 0 <= v < %s -> (get_b is_direct v <-> exists j. first <= j < i /\\ get_i (%s) j = v)" % (N, P1)),
                               ("range copied", "forall k. 0 <= k < %s -> get_i (%s) k = if first <= k < i then get_i (%s) k else get_i (%s) k" % (N, CH, P1, P2))]),
                  2: dict(inv=[("positions of the genes in the second parent", "forall t. 0 <= t < i__2 -> get_i index_lookup (get_i (%s) t) = t" % P2)]),
                  3: dict(inv=[("range kept", KEEPR), ("bookkeeping", LENS), ("chains", MARK % "< i__3"), ("visited positions", VIS), ("slots outside the range", OUTM), ("chain ends", ENDS)]),
                  4: dict(inv=[("bookkeeping", LENS), ("chains", MARK % "<= i__3"), ("visited positions", VIS), ("slots outside the range", OUTM), ("chain ends", ENDS),
                               ("current position is new", "0 <= pos < %s /\\ get_i rt pos = -1 /\\ (pos = i__3 \\/ (let y = inv_i (%s) (get_i (%s) pos) in first <= y < last /\\ get_i rt y = i__3 /\\ get_i rk y = len_i vs - 1))" % (N, P1, P2))],
                          variant="%s - len_i vs" % N)},
           ghost={"loop1.after": "assert { [@expl:marked genes are those of the range] ext_b is_direct %s };" % DS,
                  "loop2.after": "assert { [@expl:lookup table] forall v. 0 <= v < %s -> get_i index_lookup v = inv_i (%s) v };"
                                 "let ghost ref rt = mk_i (%s) (-1) in let ghost ref rk = mk_i (%s) (-1) in let ghost ref en = mk_i (%s) (-1) in let ghost ref vs = empty_i in " % (N, P2, N, N, N),
                  "loop3.body": "",
                  "loop4.before": "assert { [@expl:chain start is new] get_i rt i__3 = -1 };",
                  "loop4.body": "rt <- set_i rt pos i__3; rk <- set_i rk pos (len_i vs); vs <- snoc_i vs pos; assert { [@expl:visited positions are distinct] inj_i vs /\\ inrange vs (%s) };" % N,
                  "loop4.after": "rt <- set_i rt pos i__3; rk <- set_i rk pos (len_i vs); vs <- snoc_i vs pos; en <- set_i en i__3 pos;",
                  "loop3.after": "assert { [@expl:chain ends outside the range conflict] forall x. 0 <= x < %s -> not (first <= x < last) -> get_i rt x <> -1 -> get_b %s (get_i (%s) x) };"
                                 "assert { [@expl:every selected gene occurs] forall v. 0 <= v < %s -> get_b %s v -> mem_i (%s) v };"
                                 "assert { [@expl:every other gene occurs] forall j. 0 <= j < %s -> not get_b %s (get_i (%s) j) -> (if first <= j < last then get_i (%s) (get_i en j) = get_i (%s) j else get_i (%s) j = get_i (%s) j) };"
                                 "assert { [@expl:every other gene occurs] forall j. 0 <= j < %s -> not get_b %s (get_i (%s) j) -> mem_i (%s) (get_i (%s) j) };"
                                 "assert { [@expl:every gene occurs] forall v. 0 <= v < %s -> get_i (%s) (inv_i (%s) v) = v /\\ mem_i (%s) v };" % (N, DS, P2, N, DS, CH, N, DS, P2, CH, P2, CH, P2, N, DS, P2, CH, P2, N, P2, P2, CH)})

# ---------------------------------------------------------------- cycle crossover
FX = "(inv_i chrom1 (get_i chrom2 x))"
FXP = "(inv_i (%s) (get_i (%s) x))" % (P1, P2)
NC = "len_i chrom1"
PERM12 = [("both are permutations of the same genes", "perm chrom1 /\\ perm chrom2 /\\ len_i chrom1 = len_i chrom2")]
OK_ODD1 = ("selected positions so far", "len_b om = %s /\\ (forall t. 0 <= t < len_i odd_indices -> 0 <= get_i odd_indices t < %s /\\ get_b om (get_i odd_indices t))" % (NC, NC))
OK_ODD2 = ("selected positions are distinct", "inj_i odd_indices")
OK_ODD3 = ("selected positions are visited", "forall x. 0 <= x < %s -> get_b om x -> get_b deleted x" % NC)
OK_ODD4 = ("selected positions are recorded", "forall x. 0 <= x < %s -> get_b om x -> 0 <= get_i oix x < len_i odd_indices /\\ get_i odd_indices (get_i oix x) = x" % NC)
CNT = ("number of visited positions", "len_b deleted = %s /\\ num_deleted = cbt deleted (%s)" % (NC, NC))
ONE = ("the cycle followed so far ends at the current position", "0 <= pos < %s /\\ 0 <= s0 < %s /\\ cycle_start = get_i chrom1 s0 /\\ get_b deleted pos /\\ get_b deleted s0 /\\ "
       "(forall x. 0 <= x < %s -> get_b deleted x -> x = pos \\/ get_b deleted %s) /\\ (forall x. 0 <= x < %s -> get_b deleted %s -> %s = s0 \\/ (get_b deleted x /\\ x <> pos))" % (NC, NC, NC, FX, NC, FX, FX))
ONEO = ("the selected positions follow the cycle", "if odd_cycle then get_b om pos /\\ get_b om s0 /\\ (forall x. 0 <= x < %s -> get_b om x -> x = pos \\/ get_b om %s) /\\ (forall x. 0 <= x < %s -> get_b om %s -> %s = s0 \\/ (get_b om x /\\ x <> pos)) "
        "else (forall x. 0 <= x < %s -> (get_b om x <-> get_b om %s))" % (NC, FX, NC, FX, FX, NC, FX))
FRANGE = "(forall x. 0 <= x < %s -> 0 <= %s < %s /\\ get_i chrom1 %s = get_i chrom2 x)" % (NC, FX, NC, FX)
ODDI = dict(name="odd_cycle_indices", tu=drv("crossover.cpp"), qname=D + "findOddCycleIndices", match=ul, contracts=VALID, prelude=PERM_AX + CBT_AX,
            requires=PERM12,
            ensures=[("selected positions are distinct and within the chromosome", "inj_i result /\\ inrange result (%s)" % NC),
                     ("the selected positions are whole cycles", "forall x. 0 <= x < %s -> (mem_i result x <-> mem_i result %s)" % (NC, FX))],
            loops={1: dict(inv=[("gene positions so far", "forall k. 0 <= k < i -> get_i index_lookup (get_i chrom1 k) = k")]),
                   2: dict(inv=[CNT, OK_ODD1, OK_ODD2, OK_ODD3, OK_ODD4, ("record", "len_i oix = %s" % NC), ("visited positions are whole cycles", "forall x. 0 <= x < %s -> (get_b deleted x <-> get_b deleted %s)" % (NC, FX)),
                                ("selected positions are whole cycles", "forall x. 0 <= x < %s -> (get_b om x <-> get_b om %s)" % (NC, FX))], variant="%s - num_deleted" % NC),
                   3: dict(inv=[CNT, OK_ODD1, OK_ODD2, OK_ODD3, OK_ODD4, ("record", "len_i oix = %s" % NC), ONE, ONEO, ("progress", "nd0 < num_deleted")], variant="%s - num_deleted" % NC)},
            ghost={"loop1.after": "assert { [@expl:position lookup] forall v. 0 <= v < %s -> get_i index_lookup v = inv_i chrom1 v }; assert { [@expl:successor of a position] %s }; let ghost ref om = mk_b (%s) false in let ghost ref oix = mk_i (%s) 0 in assert { [@expl:nothing visited yet] cbt deleted (%s) = 0 };" % (NC, FRANGE, NC, NC, NC),
                   "loop2.body": "assert { [@expl:an unvisited position remains] not (forall x. 0 <= x < %s -> get_b deleted x) }; let ghost nd0 = num_deleted in" % NC,
                   "loop3.before": "let ghost s0 = pos in if odd_cycle then begin om <- set_b om pos true; oix <- set_i oix pos (len_i odd_indices - 1) end;",
                   "loop3.end": "if odd_cycle then begin om <- set_b om pos true; oix <- set_i oix pos (len_i odd_indices - 1) end;",
                   "loop3.after": "assert { [@expl:the cycle is closed] forall x. 0 <= x < %s -> %s = s0 -> x = pos };" % (NC, FX)})
SW = lambda c, inn, out: "get_i (%s) x = (if %s then get_i (%s) x else get_i (%s) x)"
R1, R2 = "result.candidatepair_i_first.candidate_i_chromosome", "result.candidatepair_i_second.candidate_i_chromosome"
KEPT2 = lambda a, b: "((get_i (%s) x = get_i (%s) x /\\ get_i (%s) x = get_i (%s) x) \\/ (get_i (%s) x = get_i (%s) x /\\ get_i (%s) x = get_i (%s) x))" % (a, P1, b, P2, a, P2, b, P1)
POST2 = ("both children are permutations of the same genes", "perm (%s) /\\ perm (%s) /\\ len_i (%s) = %s /\\ len_i (%s) = %s" % (R1, R2, R1, N, R2, N))
C1V, C2V = "child1.candidate_i_chromosome", "child2.candidate_i_chromosome"
CYCLE = dict(name="cycle", tu=drv("crossover.cpp"), qname=D + "cycleCrossoverImpl", match=ul, contracts={D + "findOddCycleIndices": contract_of(ODDI)}, prelude=PERM_AX,
             requires=PERMS,
             ensures=[("every position is taken from one parent, complementary in the sibling", "forall x. 0 <= x < %s -> %s" % (N, KEPT2(R1, R2))), POST2],
             loops={1: dict(inv=[("genes exchanged at the selected positions visited so far",
                                  "forall x. 0 <= x < %s -> if (exists t. 0 <= t < idx__i /\\ get_i odd_cycle_idxs t = x) then get_i (%s) x = get_i (%s) x /\\ get_i (%s) x = get_i (%s) x else get_i (%s) x = get_i (%s) x /\\ get_i (%s) x = get_i (%s) x"
                                  % (N, C1V, P2, C2V, P1, C1V, P1, C2V, P2))])},
             ghost={"loop1.after": "assert { [@expl:positions exchanged] forall x. 0 <= x < %s -> if mem_i odd_cycle_idxs x then get_i (%s) x = get_i (%s) x /\\ get_i (%s) x = get_i (%s) x else get_i (%s) x = get_i (%s) x /\\ get_i (%s) x = get_i (%s) x };"
                                   % (N, C1V, P2, C2V, P1, C1V, P1, C2V, P2)
                                   + "assert { [@expl:successor of a position] forall x. 0 <= x < %s -> 0 <= %s < %s /\\ get_i (%s) %s = get_i (%s) x };" % (N, FXP, N, P1, FXP, P2)
                                   + "".join("assert { [@expl:genes of the child are distinct] forall x y. 0 <= x < %s -> 0 <= y < %s -> mem_i odd_cycle_idxs x -> not mem_i odd_cycle_idxs y -> get_i (%s) x <> get_i (%s) y };" % (N, N, c, c) for c in (C1V, C2V))
                                   + "".join("assert { [@expl:genes of the child are distinct] inj_i (%s) }; assert { [@expl:genes of the child are in range] inrange (%s) (%s) };" % (c, c, N) for c in (C1V, C2V))})
TARGETS = [PIGEON_LEMMA, CND_LEMMA, CBT_LEMMA, IS_VALID, ORDER1, ORDER2, POSITION, PMX, ODDI, CYCLE]
HARNESS = None

# ---------------------------------------------------------------- edge crossover
NL = "gapp::crossover::dtl::NeighbourList"
nlu = lambda f: "unsigned long" in f.type and "unordered" not in f.type
EMPTY = "18446744073709551615"
NB = """
function bl (b: bool) : int = if b then 1 else 0
predicate nbok (a: seq_i) (s: int) = len_i a = 4 /\\ (forall k. 0 <= k < 4 -> 0 <= get_i a k <= 18446744073709551615) /\\ s = (if get_i a 0 = 18446744073709551615 then 0 else 1) + (if get_i a 1 = 18446744073709551615 then 0 else 1) + (if get_i a 2 = 18446744073709551615 then 0 else 1) + (if get_i a 3 = 18446744073709551615 then 0 else 1)
predicate nbpre (a: seq_i) = forall k. 0 <= k < 3 -> get_i a k = 18446744073709551615 -> get_i a (k + 1) = 18446744073709551615
predicate inl (a: seq_i) (v: int) = v <> 18446744073709551615 /\\ (get_i a 0 = v \\/ get_i a 1 = v \\/ get_i a 2 = v \\/ get_i a 3 = v)
""".replace("\\\\", "\\")
A_, S_ = "this_.neighbourlist_i_neighbours_", "this_.neighbourlist_i_size_"
nbm = lambda f: f.type == "void (unsigned long)"
ADD = dict(name="nb_add", tu=drv("crossover.cpp"), qname=NL + "::add", match=nbm, prelude=NB,
           requires=[("valid neighbour list with its free slots at the back", "nbok (%s) (%s) /\\ nbpre (%s)" % (A_, S_, A_)),
                     ("a real gene", "value_0 <> " + EMPTY), ("room for a new neighbour", "%s < 4 \\/ inl (%s) value_0" % (S_, A_))],
           ensures=[("still a valid list", "nbok (%s) (%s) /\\ nbpre (%s)" % (A_, S_, A_)),
                    ("exactly the value is added", "forall x. inl (%s) x <-> inl (old %s) x \\/ x = value_0" % (A_, A_)),
                    ("at most one slot is taken", "%s <= old %s + 1" % (S_, S_))],
           loops={1: dict(inv=[("unchanged so far", "this_ = old this_"), ("no free slot before", "forall k. 0 <= k < neighbour__i -> get_i (%s) k <> %s /\\ get_i (%s) k <> value_0" % (A_, EMPTY, A_))])})
REMOVE = dict(name="nb_remove", tu=drv("crossover.cpp"), qname=NL + "::remove", match=nbm, prelude=NB,
              requires=[("valid neighbour list", "nbok (%s) (%s)" % (A_, S_)), ("a real gene", "value_0 <> " + EMPTY)],
              ensures=[("still a valid list", "nbok (%s) (%s)" % (A_, S_)),
                       ("exactly the value is removed", "forall k. 0 <= k < 4 -> get_i (%s) k = (if get_i (old %s) k = value_0 then %s else get_i (old %s) k)" % (A_, A_, EMPTY, A_))],
              loops={1: dict(inv=[("valid", "nbok (%s) (%s)" % (A_, S_)), ("removed so far", "forall k. 0 <= k < 4 -> get_i (%s) k = (if k < neighbour__i && get_i (old %s) k = value_0 then %s else get_i (old %s) k)" % (A_, A_, EMPTY, A_))])})
NBC = {NL + "::add": contract_of(ADD), NL + "::remove": contract_of(REMOVE)}
G_ = lambda c, g: "(get_neighbourlist_i %s %s).neighbourlist_i_neighbours_" % (c, g)
Z_ = lambda c, g: "(get_neighbourlist_i %s %s).neighbourlist_i_size_" % (c, g)
ADJ = lambda p, x, g: "(inv_i %s %s = inv_i %s %s + 1 \\/ inv_i %s %s = inv_i %s %s - 1)" % (p, x, p, g, p, x, p, g)
DONE = lambda p, g, i: "(bl (inv_i %s %s = 0) + 2 * bl (0 < inv_i %s %s < %s))" % (p, g, p, g, i)
MAKE = dict(name="nb_make", tu=drv("crossover.cpp"), qname=D + "makeNeighbourLists", match=nlu, prelude=PERM_AX + NB, contracts=NBC,
            requires=PERM12 + [("at least two genes", "2 <= " + NC)],
            ensures=[("one list per gene", "len_neighbourlist_i result = " + NC),
                     ("the lists are valid", "forall g. 0 <= g < %s -> nbok (%s) (%s)" % (NC, G_("result", "g"), Z_("result", "g"))),
                     ("each list holds exactly the neighbours in the two parents", "forall g x. 0 <= g < %s -> 0 <= x < %s -> (inl (%s) x <-> %s \\/ %s)" % (NC, NC, G_("result", "g"), ADJ("chrom1", "x", "g"), ADJ("chrom2", "x", "g"))),
                     ("nothing else is in the lists", "forall g x. 0 <= g < %s -> inl (%s) x -> 0 <= x < %s" % (NC, G_("result", "g"), NC))],
            loops={1: dict(inv=[("one list per gene", "len_neighbourlist_i nb_lists = %s /\\ 1 <= i <= %s - 1" % (NC, NC)),
                                ("the lists are valid", "forall g. 0 <= g < %s -> nbok (%s) (%s) /\\ nbpre (%s)" % (NC, G_("nb_lists", "g"), Z_("nb_lists", "g"), G_("nb_lists", "g"))),
                                ("slots taken", "forall g. 0 <= g < %s -> %s <= %s + %s" % (NC, Z_("nb_lists", "g"), DONE("chrom1", "g", "i"), DONE("chrom2", "g", "i"))),
                                ("neighbours so far", "forall g x. 0 <= g < %s -> 0 <= x < %s -> (inl (%s) x <-> (inv_i chrom1 g < i /\\ %s) \\/ (inv_i chrom2 g < i /\\ %s))" % (NC, NC, G_("nb_lists", "g"), ADJ("chrom1", "x", "g"), ADJ("chrom2", "x", "g"))),
                                ("nothing else is in the lists", "forall g x. 0 <= g < %s -> inl (%s) x -> 0 <= x < %s" % (NC, G_("nb_lists", "g"), NC))])})
LASTG = "(get_i (%s) (len_i (%s) - 1))" % (CH, CH)
AL = lambda v, last: "(not get_b is_used %s \\/ %s = %s)" % (v, v, last)
LV = lambda last: ("the lists of unplaced genes are symmetric and hold unplaced genes only", "forall b x. 0 <= b < %s -> %s -> inl (%s) x -> 0 <= x < %s /\\ %s /\\ x <> b /\\ inl (%s) b" % (N, AL("b", last), G_("nb_lists", "b"), N, AL("x", last), G_("nb_lists", "x")))
OKL = ("the lists are valid", "len_neighbourlist_i nb_lists = %s /\\ forall g. 0 <= g < %s -> nbok (%s) (%s)" % (N, N, G_("nb_lists", "g"), Z_("nb_lists", "g")))
EDGE = dict(name="edge", tu=drv("crossover.cpp"), qname=D + "edgeCrossoverImpl", match=ul, prelude=PERM_AX + CBT_AX + NB,
            contracts={**VALID, **NBC, D + "makeNeighbourLists": contract_of(MAKE)},
            requires=PERMS + [("at least two genes", "2 <= " + N)],
            ensures=[("the child starts with the first gene of the first parent", "get_i (%s) 0 = get_i (%s) 0" % (C, P1)), POST],
            loops={1: dict(inv=[OKL, ("genes placed", "1 <= len_i (%s) <= %s /\\ get_i (%s) 0 = get_i (%s) 0 /\\ cbt is_used (%s) = len_i (%s)" % (CH, N, CH, P1, N, CH)),
                                ("placed genes are marked", "len_b is_used = %s /\\ forall k. 0 <= k < len_i (%s) -> 0 <= get_i (%s) k < %s /\\ get_b is_used (get_i (%s) k)" % (N, CH, CH, N, CH)),
                                ("placed genes are distinct", "inj_i (%s)" % CH), LV(LASTG)], variant="%s - len_i (%s)" % (N, CH)),
                   2: dict(inv=[OKL, ("the list walked is unchanged", "%s = %s" % (G_("nb_lists", "last_gene"), G_("nl0", "last_gene"))),
                                ("the next gene is unplaced", "0 <= next_gene < %s /\\ not get_b is_used next_gene" % N),
                                ("lists of unplaced genes, in range", "forall b x. 0 <= b < %s -> not get_b is_used b -> inl (%s) x -> 0 <= x < %s /\\ x <> b" % (N, G_("nb_lists", "b"), N)),
                                ("lists of unplaced genes, the last gene", "forall b. 0 <= b < %s -> not get_b is_used b -> inl (%s) last_gene -> inl (%s) b /\\ (forall s. 0 <= s < neighbour__i -> get_i (%s) s <> b)" % (N, G_("nb_lists", "b"), G_("nl0", "last_gene"), G_("nl0", "last_gene"))),
                                ("lists of unplaced genes, other genes", "forall b x. 0 <= b < %s -> not get_b is_used b -> inl (%s) x -> x <> last_gene -> not get_b is_used x /\\ inl (%s) b" % (N, G_("nb_lists", "b"), G_("nb_lists", "x"))),
                                ("neighbours of the last gene are unplaced", "forall x. inl (%s) x -> 0 <= x < %s /\\ not get_b is_used x" % (G_("nb_lists", "last_gene"), N))])},
            ghost={"loop1.before": "assert { [@expl:one gene placed] cbt is_used (%s) = 1 };" % N,
                   "loop1.body": "assert { [@expl:an unplaced gene remains] not (forall v. 0 <= v < %s -> get_b is_used v) }; let ghost nl0 = nb_lists in" % N,
                   "decl:neighbour": "assert { [@expl:the neighbour is in the list] neighbour <> %s -> inl (%s) neighbour };" % (EMPTY, G_("nb_lists", "last_gene")),
                   "after_call:remove": "assert { [@expl:other lists are unchanged] forall b. 0 <= b < %s -> b <> neighbour -> get_neighbourlist_i nb_lists b = get_neighbourlist_i nlb b }; assert { [@expl:lists only lose the last gene] forall b x. 0 <= b < %s -> inl (%s) x -> inl (%s) x }; assert { [@expl:the last gene leaves the list] not inl (%s) last_gene };" % (N, N, G_("nb_lists", "b"), G_("nlb", "b"), G_("nb_lists", "neighbour")),
                   "before_call:remove": "let ghost nlb = nb_lists in",
                   "loop2.after": "assert { [@expl:the last gene is in no list of an unplaced gene] forall b. 0 <= b < %s -> not get_b is_used b -> not inl (%s) last_gene };" % (N, G_("nb_lists", "b"))})
TARGETS += [ADD, REMOVE, MAKE, EDGE]
for cl, impl, spec in (("Order1", "order1CrossoverImpl", ORDER1), ("Order2", "order2CrossoverImpl", ORDER2), ("Position", "positionCrossoverImpl", POSITION),
                       ("Cycle", "cycleCrossoverImpl", CYCLE), ("Edge", "edgeCrossoverImpl", EDGE), ("PMX", "pmxCrossoverImpl", PMX)):
    TARGETS.append(dict(name=cl.lower() + "_operator", tu=drv("cx_perm.cpp"), qname="gapp::crossover::perm::%s::crossover" % cl, aliases={"GeneType": "unsigned long"},
                        prelude=spec["prelude"], use_types=[SEQB], models=RNG, contracts={D + impl: contract_of(spec)}, requires=PERMS, ensures=[POST2]))
HARNESS = dict(src=["c01.cpp"], lib=True, secs=14, secs_thorough=240)

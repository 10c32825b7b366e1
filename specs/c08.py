from common import *
from contracts import contract_of
import theory, lemmas, c07
PROP = "C08"
D = "gapp::detail::"
TU = drv("population.cpp")
def theory_dbl():
    return theory.BASE + theory.DBL
DOM = """
(* worse a b: a is Pareto-dominated by b (math::paretoCompareLess, C07) *)
val predicate worse (a b: seq_d)
axiom worse_irr : forall a [worse a a]. not (worse a a)
axiom worse_asym : forall a b [worse a b]. worse a b -> not (worse b a)
"""
def c_less(tr, fn, o, vs, n):
    a, b = tr.term(vs[0]), tr.term(vs[1])
    return T("(worse %s %s)" % (par(a), par(b)), Ty("bool"))
DOM += "let function cmpw (a b: seq_d) : int = if worse a b then -1 else if worse b a then 1 else 0\n"
def c_cmp(tr, fn, o, vs, n):
    a, b = tr.term(vs[0]), tr.term(vs[1])
    return T("(cmpw %s %s)" % (par(a), par(b)), Ty("int", True, 8))
CON = {"gapp::math::paretoCompareLess": c_less, "gapp::math::paretoCompare": c_cmp}
TARGETS = []
def t(name, q, m=lambda f: True, **kw):
    TARGETS.append(dict(dict(name=name, tu=TU, dbl=True, qname=D + q, match=m, prelude=DOM, contracts=CON), **kw))
    return TARGETS[-1]

INVSWAP = """
axiom inv_swap : forall s: seq_i, a b va vb x: int [inv_i (set_i (set_i s a va) b vb) x]. perm s -> 0 <= a < len_i s -> 0 <= b < len_i s -> va = get_i s b -> vb = get_i s a -> 0 <= x < len_i s ->
  perm (set_i (set_i s a va) b vb) /\\ inv_i (set_i (set_i s a va) b vb) x = (if x = vb then b else if x = va then a else inv_i s x)
"""
BEST = lemmas.PERM_AX + INVSWAP + DOM + """
predicate wi (m: seq_sd) (a b: int) = worse (get_sd m a) (get_sd m b)
predicate trans (m: seq_sd) = forall a b c. 0 <= a < len_sd m -> 0 <= b < len_sd m -> 0 <= c < len_sd m -> wi m a b -> wi m b c -> wi m a c
predicate nondom (m: seq_sd) (x: int) = forall y. 0 <= y < len_sd m -> not (wi m x y)
predicate alive (idx opt: seq_i) (f l x: int) = f <= inv_i idx x < l \\/ mem_i opt x
predicate dead_ok (m: seq_sd) (idx opt: seq_i) (f l x: int) = alive idx opt f l x \\/ (exists y. 0 <= y < len_sd m /\\ alive idx opt f l y /\\ wi m x y)
predicate rem (m: seq_sd) (idx opt: seq_i) (f l: int) = forall x. 0 <= x < len_sd m -> dead_ok m idx opt f l x
predicate keeps (m: seq_sd) (idx opt: seq_i) (f l: int) (idx' opt': seq_i) (f' l' b: int) = forall x. 0 <= x < len_sd m -> alive idx opt f l x -> alive idx' opt' f' l' x \\/ x = b
predicate covered (m: seq_sd) (opt: seq_i) (x: int) = mem_i opt x \\/ (exists k. 0 <= k < len_i opt /\\ wi m x (get_i opt k))
predicate shape (m: seq_sd) (idx: seq_i) (f l: int) = perm idx /\\ len_i idx = len_sd m /\\ 0 <= f <= l <= len_sd m
predicate opt_ok (m: seq_sd) (opt: seq_i) = inj_i opt /\\ inrange opt (len_sd m) /\\ (forall k. 0 <= k < len_i opt -> nondom m (get_i opt k))
"""
COVS = """
axiom mem_snoc : forall s v x [mem_i (snoc_i s v) x]. mem_i (snoc_i s v) x <-> mem_i s x \\/ x = v
axiom covered_snoc : forall m s v x [covered m (snoc_i s v) x]. covered m s x \\/ x = v \\/ wi m x v -> covered m (snoc_i s v) x
"""
STEP = """ rem_step (m: seq_sd) (idx opt: seq_i) (f l: int) (idx' opt': seq_i) (f' l' b c: int) : unit
  requires { trans m /\\ 0 <= b < len_sd m /\\ 0 <= c < len_sd m /\\ rem m idx opt f l /\\ keeps m idx opt f l idx' opt' f' l' b }
  requires { alive idx' opt' f' l' c /\\ (alive idx' opt' f' l' b \\/ wi m b c) }
  ensures { rem m idx' opt' f' l' }
"""
NODOM = """ not_dominated (m: seq_sd) (idx opt: seq_i) (f l b: int) : unit
  requires { trans m /\\ 0 <= b < len_sd m /\\ rem m idx opt f l /\\ (forall y. 0 <= y < len_sd m -> alive idx opt f l y -> not (wi m b y)) }
  ensures { nondom m b }
"""
TARGETS.append(lemmas.lemma("dominated_rows", theory_dbl() + theory.SEQ.replace("@", "d").replace("$", "dbl") + theory.SEQ.replace("@", "sd").replace("$", "seq_d") + theory.SEQ.replace("@", "i").replace("$", "int") + BEST +
  """
let lemma mem_snoc (s: seq_i) (v x: int)
  ensures { mem_i (snoc_i s v) x <-> mem_i s x \\/ x = v }
= assert { get_i (snoc_i s v) (len_i s) = v }; assert { forall j. 0 <= j < len_i s -> get_i (snoc_i s v) j = get_i s j }
let lemma covered_snoc (m: seq_sd) (s: seq_i) (v x: int)
  requires { covered m s x \\/ x = v \\/ wi m x v }
  ensures { covered m (snoc_i s v) x }
= mem_snoc s v x; assert { get_i (snoc_i s v) (len_i s) = v }; assert { forall j. 0 <= j < len_i s -> get_i (snoc_i s v) j = get_i s j }
""" + "let lemma" + STEP + "= assert { forall x. 0 <= x < len_sd m -> dead_ok m idx opt f l x -> dead_ok m idx' opt' f' l' x }\nlet lemma" + NODOM + "= assert { forall x. 0 <= x < len_sd m -> dead_ok m idx opt f l x -> not (wi m b x) }\n"))
TARGETS.append(lemmas.lemma("permutation_swap", lemmas.seq_theory() + lemmas.PERM_AX + INVSWAP.replace("axiom inv_swap", "goal inverse_after_a_swap")))
TARGETS.append(lemmas.PIGEON_LEMMA)
BEST += COVS + "val" + STEP + "val" + NODOM
TRANS = ("dominance among the rows is transitive (fitness values are equal or separated by more than the tolerance)", "trans fmat")
FRONT = [("every returned index is a non-dominated row, each once", "opt_ok fmat result"), ("every non-dominated row is returned", "forall x. 0 <= x < len_sd fmat -> nondom fmat x -> mem_i result x")]
IDX, OPT, F_ = "indices__2", "optimal_indices", "first__2"
SH = ("the indices stay a permutation", "shape fmat %s %s last" % (IDX, F_))
OK1 = ("the indices found are optimal", "opt_ok fmat %s" % OPT)
OUT = lambda n: ("the indices found are not in the remaining range", "forall k. 0 <= k < %s -> not (%s <= inv_i %s (get_i %s k) < last)" % (n, F_, IDX, OPT))
REM = ("removed rows are found or dominated by a remaining or found one", "rem fmat %s %s %s last" % (IDX, OPT, F_))
NDO = lambda n: ("no remaining row is dominated by a found one", "forall p k. %s <= p < last -> 0 <= k < %s -> not (wi fmat (get_i %s p) (get_i %s k))" % (F_, n, IDX, OPT))
LO = "len_i " + OPT
PROG = ("progress", "f0 <= %s /\\ last <= l0" % F_)
B_ = "(get_i %s best)" % IDX
SWAPS = ""
NONEMPTY = ("a non-empty matrix has a non-empty front", "len_sd fmat > 0 -> len_i result > 0")
BESTT = t("best", "findParetoFrontBest", prelude=BEST, requires=[TRANS], ensures=FRONT + [NONEMPTY],
  loops={1: dict(inv=[SH, OK1, OUT(LO), REM, NDO(LO)], variant="last - " + F_),
         2: dict(inv=[SH, OK1, OUT(LO), REM, NDO(LO), PROG, ("position of the best", "%s <= best < it <= last" % F_),
                      ("no row before it dominates the best one", "forall p. %s <= p < it -> not (wi fmat %s (get_i %s p))" % (F_, B_, IDX)),
                      ("no row between is dominated by the best one", "forall p. best < p < it -> not (wi fmat (get_i %s p) %s)" % (IDX, B_))], variant="last - it"),
         3: dict(inv=[SH, OK1, OUT(LO + " - 1"), REM, NDO(LO + " - 1"), PROG, ("position of the best", "%s <= best < last /\\ %s <= it__2 /\\ %s > 0 /\\ get_i %s (%s - 1) = %s" % (F_, F_, LO, OPT, LO, B_)),
                      ("no row before it is dominated by the best one", "forall p. %s <= p < it__2 -> not (wi fmat (get_i %s p) %s)" % (F_, IDX, B_)),
                      ("no row after it is dominated by the best one", "forall p. best < p < last -> not (wi fmat (get_i %s p) %s)" % (IDX, B_))])},
  ghost={"loop1.body": "let ghost f0 = first__2 in let ghost l0 = last in",
         "loop2.body": "let ghost i2 = %s in let ghost f2 = %s in let ghost l2 = last in let ghost b2 = %s in let ghost c2 = get_i %s it in" % (IDX, F_, B_, IDX),
         "loop2.end": "if comp > 0 then rem_step fmat i2 %s f2 l2 %s %s %s last c2 b2 else if comp < 0 then rem_step fmat i2 %s f2 l2 %s %s %s last b2 c2;" % (OPT, IDX, OPT, F_, OPT, IDX, OPT, F_),
         "loop3.before": "rem_step fmat %s (o3) %s last %s %s %s last %s %s;" % (IDX, F_, IDX, OPT, F_, B_, B_),
         "loop3.body": "let ghost i3 = %s in let ghost f3 = %s in let ghost c3 = get_i %s it__2 in" % (IDX, F_, IDX),
         "loop3.end": "rem_step fmat i3 %s f3 last %s %s %s last c3 %s;" % (OPT, IDX, OPT, F_, B_),
         "loop3.after": "let ghost i4 = %s in let ghost l4 = last in let ghost b4 = %s in" % (IDX, B_),
         "loop1.end": "rem_step fmat i4 %s %s l4 %s %s %s last b4 b4;" % (OPT, F_, IDX, OPT, F_),
         "loop2.after": "assert { [@expl:no remaining row dominates the best one] forall p. %s <= p < last -> not (wi fmat %s (get_i %s p)) }; assert { [@expl:no remaining or found row dominates the best one] forall y. 0 <= y < len_sd fmat -> alive %s %s %s last y -> not (wi fmat %s y) }; not_dominated fmat %s %s %s last %s; let ghost o3 = %s in" % (F_, B_, IDX, IDX, OPT, F_, B_, IDX, OPT, F_, B_, OPT),
         "exit": "assert { [@expl:every optimal row is found] forall x. 0 <= x < len_sd fmat -> dead_ok fmat %s %s %s last x -> nondom fmat x -> mem_i %s x }; assert { [@expl:the first row is found or dominated by a found one] len_sd fmat > 0 -> dead_ok fmat %s %s %s last 0 };" % (IDX, OPT, F_, OPT, IDX, OPT, F_)})

ORD = """
(* separated: rows of one length without NaN whose values are pairwise equal or further apart than the comparison tolerance; consequences proved by lemma_separated_rows *)
predicate separated (m: seq_sd)
val predicate lexgtv (a b: seq_d)
axiom sep_trans : forall m [separated m]. separated m -> trans m
axiom sep_lex : forall m a b [separated m, wi m a b]. separated m -> 0 <= a < len_sd m -> 0 <= b < len_sd m -> wi m a b -> lexgtv (get_sd m b) (get_sd m a)
axiom lex_irr : forall a [lexgtv a a]. not (lexgtv a a)
axiom lex_trans : forall m a b c [separated m, lexgtv (get_sd m a) (get_sd m b), lexgtv (get_sd m b) (get_sd m c)]. separated m -> 0 <= a < len_sd m -> 0 <= b < len_sd m -> 0 <= c < len_sd m -> lexgtv (get_sd m a) (get_sd m b) -> lexgtv (get_sd m b) (get_sd m c) -> lexgtv (get_sd m a) (get_sd m c)
axiom lex_neg : forall m a b c [separated m, get_sd m b, lexgtv (get_sd m a) (get_sd m c)]. separated m -> 0 <= a < len_sd m -> 0 <= b < len_sd m -> 0 <= c < len_sd m -> lexgtv (get_sd m a) (get_sd m c) -> lexgtv (get_sd m a) (get_sd m b) \\/ lexgtv (get_sd m b) (get_sd m c)
"""
SEP = ("rows of one length without NaN, values equal or separated by more than the tolerance", "separated fmat")
LEX = """
(* lexgt a b: the rows differ and the first difference is in favour of a *)
predicate lexgt (a b: seq_d) = exists k. 0 <= k < len_d a /\\ not (d_eq (get_d a k) (get_d b k)) /\\ d_lt (get_d b k) (get_d a k) /\\ (forall j. 0 <= j < k -> d_eq (get_d a j) (get_d b j))
"""

TARGETS.append(lemmas.lemma("separated_rows", theory_dbl() + theory.SEQ.replace("@", "d").replace("$", "dbl") + theory.SEQ.replace("@", "sd").replace("$", "seq_d") + c07.PAR + c07.LAWS + LEX + """
predicate worse (a b: seq_d) = len_d a = len_d b /\\ ncworse a b
predicate wi (m: seq_sd) (a b: int) = worse (get_sd m a) (get_sd m b)
predicate trans (m: seq_sd) = forall a b c. 0 <= a < len_sd m -> 0 <= b < len_sd m -> 0 <= c < len_sd m -> wi m a b -> wi m b c -> wi m a c
predicate numrow (a: seq_d) = forall i. 0 <= i < len_d a -> d_is_num (get_d a i)
predicate sep2 (a b: seq_d) = len_d a = len_d b /\\ numrow a /\\ numrow b /\\ (forall i. 0 <= i < len_d a -> feq (get_d a i) (get_d b i) -> d_rk (get_d a i) = d_rk (get_d b i))
predicate separated (m: seq_sd) = forall a b. 0 <= a < len_sd m -> 0 <= b < len_sd m -> sep2 (get_sd m a) (get_sd m b)
predicate le_row (a b: seq_d) = forall i. 0 <= i < len_d a -> d_rk (get_d a i) <= d_rk (get_d b i)
predicate lt_row (a b: seq_d) = exists i. 0 <= i < len_d a /\\ d_rk (get_d a i) < d_rk (get_d b i)
predicate lexgtv (a b: seq_d) = len_d a = len_d b /\\ numrow a /\\ numrow b /\\ lexgt a b
predicate first_diff (a b: seq_d) (k: int) = 0 <= k < len_d a /\\ d_rk (get_d a k) <> d_rk (get_d b k) /\\ (forall j. 0 <= j < k -> d_rk (get_d a j) = d_rk (get_d b j))
goal worse_irr : forall a. not (worse a a)
goal worse_asym : forall a b. worse a b -> not (worse b a)
goal worse_rank : forall a b. sep2 a b -> (worse a b <-> le_row a b /\\ lt_row a b)
axiom a_rank : forall a b [worse a b]. sep2 a b -> (worse a b <-> le_row a b /\\ lt_row a b)
goal sep_trans : forall m. separated m -> trans m
goal lexgt_rank : forall a b. len_d a = len_d b -> numrow a -> numrow b -> (lexgt a b <-> exists k. first_diff a b k /\\ d_rk (get_d b k) < d_rk (get_d a k))
axiom a_lex : forall a b [lexgt a b]. len_d a = len_d b -> numrow a -> numrow b -> (lexgt a b <-> exists k. first_diff a b k /\\ d_rk (get_d b k) < d_rk (get_d a k))
let lemma least (a b: seq_d) (k: int)
  requires { 0 <= k < len_d a /\\ d_rk (get_d a k) <> d_rk (get_d b k) }
  ensures { exists j. first_diff a b j /\\ j <= k }
= let ref j = 0 in
  while d_rk (get_d a j) = d_rk (get_d b j) do
    invariant { 0 <= j <= k /\\ forall i. 0 <= i < j -> d_rk (get_d a i) = d_rk (get_d b i) }
    variant { k - j }
    j <- j + 1
  done;
  assert { first_diff a b j }
goal sep_lex : forall m a b. separated m -> 0 <= a < len_sd m -> 0 <= b < len_sd m -> wi m a b -> lexgtv (get_sd m b) (get_sd m a)
goal lex_irr : forall a. not (lexgtv a a)
goal lex_trans : forall a b c. lexgtv a b -> lexgtv b c -> lexgtv a c
let lemma negtrans (a b c: seq_d) (k: int)
  requires { len_d a = len_d b = len_d c /\\ numrow a /\\ numrow b /\\ numrow c /\\ first_diff a c k /\\ d_rk (get_d c k) < d_rk (get_d a k) }
  ensures { lexgtv a b \\/ lexgtv b c }
= if d_rk (get_d a k) <> d_rk (get_d b k) then () else ();
  assert { (forall j. 0 <= j < k -> d_rk (get_d a j) = d_rk (get_d b j)) -> d_rk (get_d b k) = d_rk (get_d a k) -> first_diff b c k };
  assert { (forall j. 0 <= j < k -> d_rk (get_d a j) = d_rk (get_d b j)) -> d_rk (get_d b k) <> d_rk (get_d a k) -> first_diff a b k };
  assert { (forall j. 0 <= j < k -> d_rk (get_d a j) = d_rk (get_d b j)) -> d_rk (get_d b k) > d_rk (get_d a k) -> first_diff b c k };
  assert { forall j. j < k -> first_diff a b j -> first_diff b c j };
  assert { forall j. 0 <= j < k -> d_rk (get_d a j) <> d_rk (get_d b j) -> exists i. first_diff a b i /\\ i <= j }
goal lex_neg : forall m a b c. separated m -> 0 <= a < len_sd m -> 0 <= b < len_sd m -> 0 <= c < len_sd m -> lexgtv (get_sd m a) (get_sd m c) -> lexgtv (get_sd m a) (get_sd m b) \\/ lexgtv (get_sd m b) (get_sd m c)
"""))
ROWS = ("rows of one length without NaN", "len_d lhs = len_d rhs /\\ (forall i. 0 <= i < len_d lhs -> d_is_num (get_d lhs i)) /\\ (forall i. 0 <= i < len_d rhs -> d_is_num (get_d rhs i))")
for nm, q in (("sort_order", "findParetoFrontSort"), ("kung_order", "findParetoFrontKung")):
    TARGETS.append(dict(name=nm, tu=TU, dbl=True, qname=D + q, **{"lambda": 1}, prelude=LEX, requires=[ROWS], ensures=[("lexicographic order, larger first", "result <-> lexgt lhs rhs")],
        loops={1: dict(inv=[("equal so far", "forall j. 0 <= j < i -> d_eq (get_d lhs j) (get_d rhs j)")])}))
lex = lambda tr, a: T("(lexgtv %s %s)" % (par(tr.term(a[0])), par(tr.term(a[1]))), Ty("bool"))
IN = lambda v: "(get_i indices__3 %s)" % v
t("sort", "findParetoFrontSort", lambda_pure={1: lex}, prelude=BEST + ORD, requires=[SEP], ensures=FRONT,
  loops={1: dict(inv=[OK1, ("the indices found come from the visited rows", "forall k. 0 <= k < len_i optimal_indices -> inv_i indices__3 (get_i optimal_indices k) < idx__i"),
                      ("visited rows are found or dominated by a found one", "forall p. 0 <= p < idx__i -> covered fmat optimal_indices %s" % IN("p"))])},
  ghost={"loop1.before": "assert { [@expl:the order is a permutation of the rows] perm indices__3 /\\ len_i indices__3 = len_sd fmat }; assert { [@expl:no row is dominated by a later one] forall p q. 0 <= p < q < len_sd fmat -> not (wi fmat %s %s) };" % (IN("p"), IN("q")),
         "decl:dominated": "assert { [@expl:not dominated by a visited row] not dominated -> forall p. 0 <= p < len_sd fmat -> not (wi fmat idx %s) }; assert { [@expl:not dominated by any row] not dominated -> forall y [wi fmat idx y]. 0 <= y < len_sd fmat -> 0 <= inv_i indices__3 y < len_sd fmat /\\ %s = y }; assert { [@expl:the row is optimal] not dominated -> nondom fmat idx }; assert { [@expl:a dominated row is covered] dominated -> covered fmat optimal_indices idx };" % (IN("p"), IN("(inv_i indices__3 y)")),
         "exit": "assert { [@expl:every row is covered] forall x [covered fmat optimal_indices x]. 0 <= x < len_sd fmat -> 0 <= inv_i indices__3 x < len_sd fmat /\\ %s = x }; assert { [@expl:every row is covered] forall x [nondom fmat x]. 0 <= x < len_sd fmat -> covered fmat optimal_indices x };" % IN("(inv_i indices__3 x)")})
KOK = ("the front lies in the range", "forall k. 0 <= k < len_i result -> first_0 <= inv_i indices (get_i result k) < last_0 /\\ 0 <= get_i result k < len_i indices")
KND = ("no row of the front is dominated by a row of the range", "forall k p. 0 <= k < len_i result -> first_0 <= p < last_0 -> not (wi fmat (get_i result k) (get_i indices p))")
KCOV = ("every row of the range is in the front or dominated by one in it", "forall p. first_0 <= p < last_0 -> covered fmat result (get_i indices p)")
KINJ = ("the front holds every index once", "inj_i result")
KPRE = [("the order is a permutation of the rows", "perm indices /\\ len_i indices = len_sd fmat"), ("non-empty range", "0 <= first_0 < last_0 <= len_i indices"), ("dominance is transitive", "trans fmat"),
        ("no row is dominated by a later one", "forall p q. 0 <= p < q < len_sd fmat -> not (wi fmat (get_i indices p) (get_i indices q))")]
IP = {"first": ("indices", False), "last": ("indices", False)}
KUNG = dict(name="kung", iter_params=IP, requires=KPRE + [("the recursion gets smaller", "last_0 - first_0 < measure")], ensures=[KINJ, KOK, KND, KCOV])
rs = lambda f: f.replace("result", "top_half").replace("first_0", "first").replace("last_0", "last")
t("kung", "findParetoFrontKungImpl", iter_params=IP, prelude=BEST + "val constant measure : int\n", requires=KPRE + [("measure of the recursion", "measure = last_0 - first_0")], ensures=[KINJ, KOK, KND, KCOV],
  contracts={**CON, D + "findParetoFrontKungImpl": contract_of(KUNG)},
  loops={1: dict(inv=[(n_, rs(f_)) for n_, f_ in (KINJ, KOK, KND)] + [
             ("where the rows come from", "forall k. 0 <= k < len_i top_half -> inv_i indices (get_i top_half k) < middle \\/ (exists j. 0 <= j < bad__i /\\ get_i bottom_half j = get_i top_half k)"),
             ("first half", "forall p. first <= p < middle -> covered fmat top_half (get_i indices p)"),
             ("second half so far", "forall j. 0 <= j < bad__i -> covered fmat top_half (get_i bottom_half j)")]),
         2: dict(inv=[("not dominated so far", "not is_dominated /\\ forall k. 0 <= k < good__i -> not (wi fmat (get_i bottom_half bad__i) (get_i top_half k))")])})
t("kungall", "findParetoFrontKung", lambda_pure={1: lex}, prelude=BEST + ORD + "constant measure : int\n", requires=[SEP, ("at least one row", "0 < len_sd fmat")], ensures=FRONT,
  contracts={**CON, D + "findParetoFrontKungImpl": contract_of(dict(KUNG, requires=KPRE))},
  ghost={"exit": "assert { [@expl:the order is a permutation of the rows] perm indices__3 /\\ len_i indices__3 = len_sd fmat }; assert { [@expl:positions of the rows] forall x. 0 <= x < len_sd fmat -> 0 <= inv_i indices__3 x < len_sd fmat /\\ %s = x };"
         " assert { [@expl:a row of the front is not dominated] forall k y [wi fmat (get_i res_ k) y]. 0 <= k < len_i res_ -> 0 <= y < len_sd fmat -> 0 <= inv_i indices__3 y < len_sd fmat /\\ %s = y };"
         " assert { [@expl:every row is covered] forall x [covered fmat res_ x]. 0 <= x < len_sd fmat -> 0 <= inv_i indices__3 x < len_sd fmat /\\ %s = x }; assert { [@expl:every row is covered] forall x [nondom fmat x]. 0 <= x < len_sd fmat -> covered fmat res_ x };" % (IN("(inv_i indices__3 x)"), IN("(inv_i indices__3 y)"), IN("(inv_i indices__3 x)"))})
RECT = ("rows of one length without NaN", "forall r c. 0 <= r < len_sd optimal_points -> len_d (get_sd optimal_points r) = len_d (get_sd optimal_points 0) /\\ (0 <= c < len_d (get_sd optimal_points 0) -> d_is_num (get_d (get_sd optimal_points r) c))")
NAD = """
predicate rect (m: seq_sd) = forall r. 0 <= r < len_sd m -> len_d (get_sd m r) = len_d (get_sd m 0) /\\ forall c. 0 <= c < len_d (get_sd m 0) -> d_is_num (get_d (get_sd m r) c)
predicate some_row (m: seq_sd) (n c: int) (v: dbl) = exists r. 0 <= r < n /\\ get_d (get_sd m r) c = v
predicate low (m: seq_sd) (n c: int) (v: dbl) = forall r. 0 <= r < n -> d_rk v <= d_rk (get_d (get_sd m r) c)
predicate nadir_upto (m: seq_sd) (n: int) (v: seq_d) (c: int) = low m n c (get_d v c) /\\ some_row m n c (get_d v c) /\\ d_is_num (get_d v c)
"""
NADP = ("the smallest value of every column", "len_sd optimal_points > 0 -> len_d result = len_d (get_sd optimal_points 0) /\\ forall c. 0 <= c < len_d result -> nadir_upto optimal_points (len_sd optimal_points) result c")
FNADIR = t("fnadir", "findFrontNadirPoint", prelude=NAD, requires=[("rows of one length without NaN", "rect optimal_points")], ensures=[NADP, ("empty for no points", "len_sd optimal_points = 0 -> len_d result = 0")],
  loops={1: dict(inv=[("length", "len_d nadir_point = len_d (get_sd optimal_points 0)"), ("minimum of the visited rows", "forall c. 0 <= c < len_d nadir_point -> nadir_upto optimal_points i nadir_point c")]),
         2: dict(inv=[("length", "len_d nadir_point = len_d (get_sd optimal_points 0)"), ("minimum of the visited rows and this one", "forall c. 0 <= c < i__2 -> nadir_upto optimal_points (i+1) nadir_point c"),
                      ("minimum of the rows visited before", "forall c. i__2 <= c < len_d nadir_point -> nadir_upto optimal_points i nadir_point c")])})
FEQ = c07.PAR + c07.LAWS + "val predicate feqv (a b: dbl)\naxiom feqv_def : forall a b [feqv a b]. feqv a b <-> feq a b\naxiom feq_refl : forall a [feq a a]. d_is_num a -> feq a a\n"
CEQ = {"gapp::math::floatIsEqual": lambda tr, fn, o, vs, n: T("(feqv %s %s)" % (par(tr.term(vs[0])), par(tr.term(vs[1]))), Ty("bool"))}
FRONT1D = t("front1D", "findParetoFront1D", prelude=lemmas.PERM + FEQ + """
predicate maxrow (m: seq_sd) (b: int) = 0 <= b < len_sd m /\\ (forall y. 0 <= y < len_sd m -> d_rk (get_d (get_sd m y) 0) <= d_rk (get_d (get_sd m b) 0))
predicate top (m: seq_sd) (s: seq_i) = exists b. maxrow m b /\\ forall x. 0 <= x < len_sd m -> (mem_i s x <-> feq (get_d (get_sd m b) 0) (get_d (get_sd m x) 0))
axiom mem_snoc : forall s v x [mem_i (snoc_i s v) x]. mem_i (snoc_i s v) x <-> mem_i s x \\/ x = v
""", contracts=CEQ, requires=[("rows of one value, not NaN", "len_sd fmat > 0 /\\ forall r. 0 <= r < len_sd fmat -> len_d (get_sd fmat r) = 1 /\\ d_is_num (get_d (get_sd fmat r) 0)")],
  ensures=[("each index once, in range", "inj_i result /\\ inrange result (len_sd fmat)"), ("exactly the rows equal to the largest value within the tolerance", "top fmat result"), NONEMPTY],
  ghost={"exit": "assert { [@expl:the largest row is included] mem_i res_ best };"},
  loops={1: dict(inv=[("indices in increasing order", "inj_i indices /\\ inrange indices i"), ("the matching rows so far", "forall x. 0 <= x < i -> (mem_i indices x <-> feq max_fitness (get_d (get_sd fmat x) 0))")])})
TOP = FRONT1D["prelude"]
F1 = {"findParetoFront1D": contract_of(FRONT1D), "findParetoFrontBest": contract_of(BESTT)}
F1 = {**CON, **{D + k: v for k, v in F1.items()}}
TOPD = TOP[TOP.index("predicate maxrow"):TOP.index("axiom mem_snoc")]
ONE = "len_d (get_sd fmat 0) = 1"
FPRE = [("rows of one length", "forall r. 0 <= r < len_sd fmat -> len_d (get_sd fmat r) = len_d (get_sd fmat 0)"), ("no NaN in a single column", "%s -> forall r. 0 <= r < len_sd fmat -> d_is_num (get_d (get_sd fmat r) 0)" % ONE), ("dominance among the rows is transitive", "trans fmat")]
FPOST = [("each index once, in range", "inj_i result /\\ inrange result (len_sd fmat)"), ("one objective: the rows equal to the largest value within the tolerance", "len_sd fmat > 0 -> %s -> top fmat result" % ONE),
         ("otherwise exactly the non-dominated rows", "len_sd fmat > 0 -> not %s -> forall x. 0 <= x < len_sd fmat -> (mem_i result x <-> nondom fmat x)" % ONE)]
FR = t("front", "findParetoFront", lambda f: "Matrix" in f.type, prelude=FEQ + BEST + TOPD, contracts=F1, requires=FPRE, ensures=FPOST + [NONEMPTY])
TOPF = "fitness_matrix"
rf = lambda f: f.replace("fmat", "fitness_matrix")
t("nadir", "findNadirPoint", prelude=FEQ + BEST + TOPD + NAD + """
predicate lowf (m: seq_sd) (f: seq_i) (n c: int) (v: dbl) = forall k. 0 <= k < n -> d_rk v <= d_rk (get_d (get_sd m (get_i f k)) c)
predicate some_rowf (m: seq_sd) (f: seq_i) (n c: int) (v: dbl) = exists k. 0 <= k < n /\\ get_d (get_sd m (get_i f k)) c = v
predicate nadirf (m: seq_sd) (f: seq_i) (n: int) (v: seq_d) (c: int) = lowf m f n c (get_d v c) /\\ some_rowf m f n c (get_d v c) /\\ d_is_num (get_d v c)
predicate front_of (m: seq_sd) (f: seq_i) = inj_i f /\\ inrange f (len_sd m) /\\ (if len_d (get_sd m 0) = 1 then top m f else forall x. 0 <= x < len_sd m -> (mem_i f x <-> nondom m x))
""", contracts={**F1, D + "findParetoFront": contract_of(FR)},
  requires=[("rows of one length without NaN", "rect fitness_matrix")] + [(n_, rf(f_)) for n_, f_ in FPRE],
  ensures=[("the smallest value of every column over the front", "len_sd fitness_matrix > 0 -> len_d result = len_d (get_sd fitness_matrix 0) /\\ exists f. front_of fitness_matrix f /\\ forall c. 0 <= c < len_d result -> nadirf fitness_matrix f (len_i f) result c"), ("empty for no points", "len_sd fitness_matrix = 0 -> len_d result = 0")],
  loops={1: dict(inv=[("length", "len_d nadir_point = len_d (get_sd fitness_matrix 0)"), ("minimum of the visited rows", "forall c. 0 <= c < len_d nadir_point -> nadirf fitness_matrix ref_front_indices i nadir_point c")]),
         2: dict(inv=[("length", "len_d nadir_point = len_d (get_sd fitness_matrix 0)"), ("minimum of the visited rows and this one", "forall c. 0 <= c < i__2 -> nadirf fitness_matrix ref_front_indices (i+1) nadir_point c"),
                      ("minimum of the rows visited before", "forall c. i__2 <= c < len_d nadir_point -> nadirf fitness_matrix ref_front_indices i nadir_point c")])},
  ghost={"loop2.body": "let ghost v0 = nadir_point in assert { nadirf fitness_matrix ref_front_indices i v0 i__2 };",
         "loop2.end": "assert { [@expl:the column minimum is taken by a row] some_rowf fitness_matrix ref_front_indices (i+1) i__2 (get_d nadir_point i__2) }; assert { [@expl:no row is below the column minimum] lowf fitness_matrix ref_front_indices (i+1) i__2 (get_d nadir_point i__2) };"
         " assert { [@expl:column minimum] nadirf fitness_matrix ref_front_indices (i+1) nadir_point i__2 }; assert { [@expl:other columns unchanged] forall c. 0 <= c < i__2 -> get_d nadir_point c = get_d v0 c };"})
t("toFitnessVector", "toFitnessVector", iter_params={"first": ("fmat", False), "last": ("fmat", False)}, requires=[("a range of rows with at least one value", "0 <= first_0 <= last_0 <= len_sd fmat /\\ forall r. 0 <= r < len_sd fmat -> len_d (get_sd fmat r) > 0")],
  ensures=[("the first value of every row", "len_d result = last_0 - first_0 /\\ forall k. 0 <= k < len_d result -> get_d result k = get_d (get_sd fmat (first_0 + k)) 0")])
TFM = t("toFitnessMatrix", "toFitnessMatrix", requires=[("", "true")], ensures=[("row i is the fitness vector of candidate i", "len_sd result = len_candidate_d pop /\\ forall i. 0 <= i < len_candidate_d pop -> get_sd result i = (get_candidate_d pop i).candidate_d_fitness")],
  loops={1: dict(inv=[("rows so far", "len_sd fitness_matrix = sol__i /\\ forall i. 0 <= i < sol__i -> get_sd fitness_matrix i = (get_candidate_d pop i).candidate_d_fitness")])})
I8 = Ty("int", True, 8)


def par_for(tr, fn, o, vs, n):
    a, b, f = vs
    lo, hi = tr.let(tr.term(a), "lo"), tr.let(tr.term(b), "hi")
    ix = tr.newname("pf_i")
    tr.blk.add("ref", ix, lo, SZ)
    tr.blk.locals.add(ix)
    tr.roots[ix] = SZ
    tr.loop("range", lambda: "(%s < %s)" % (ix, hi), lambda: tr.invoke(f, [T(ix, SZ)], id(n)), lambda: tr.blk.add("raw", "%s <- %s + 1;" % (ix, ix)), auto=["%s <= %s" % (lo, ix)], variant="%s - %s" % (hi, ix))
    return UNIT
# rely-guarantee: between two accesses of one iteration the other iterations may change rhs_state, but only to values justified by `okr`, which every store here is checked to satisfy
def env_step(tr, st):
    n = tr.any(Ty("seq", SZ), "env")
    tr.blk.add("raw", "assume { [@expl:interference of the other iterations] rely lhs rhs %s %s };" % (st, n))
    tr.blk.add("raw", "assert { [@expl:what is decided stays decided] forall i' j'. 0 <= i' < pf_i \\/ (i' = pf_i /\\ 0 <= j' < j) -> 0 <= j' < len_candidate_d rhs -> done1 lhs rhs lhs_state %s i' j' };" % n)
    tr.blk.add("raw", "%s <- %s;" % (st, n))


def shared(tr, o):
    v = o.args[0]
    if not (isinstance(v, L) and tr.term(v) == "get_i rhs_state j"):
        raise Unsupported("atomic access to something else than an element of rhs_state")
    return v


def at_load(tr, o, vs):
    v = shared(tr, o)
    env_step(tr, "rhs_state")
    return tr.snap(v)


def at_store(tr, o, vs):
    v = shared(tr, o)
    t = tr.let(tr.term(vs[0]), "st")
    tr.check("the stored dominance state is justified", "okr lhs rhs j %s" % t)
    env_step(tr, "rhs_state")
    s = tr.let("rhs_state", "pre")
    tr.assign(v, vs[0])
    tr.blk.add("raw", "assert { [@expl:the store is a step the other iterations expect] rely lhs rhs %s rhs_state }; assert { [@expl:what is decided stays decided] forall i' j'. 0 <= i' < pf_i \\/ (i' = pf_i /\\ 0 <= j' < j) -> 0 <= j' < len_candidate_d rhs -> done1 lhs rhs lhs_state %s i' j' -> done1 lhs rhs lhs_state rhs_state i' j' };" % (s, s))
    return UNIT
CS = "seq_candidate_d"
MERGE = DOM + """
function fit (s: seq_candidate_d) (i: int) : seq_d = (get_candidate_d s i).candidate_d_fitness
predicate dm (a b: seq_candidate_d) (i j: int) = worse (fit a i) (fit b j)
predicate antichain (s: seq_candidate_d) = forall i j. 0 <= i < len_candidate_d s -> 0 <= j < len_candidate_d s -> not (dm s s i j)
predicate transb (a b: seq_candidate_d) = forall i j k. 0 <= i < len_candidate_d a -> 0 <= j < len_candidate_d b -> 0 <= k < len_candidate_d a -> dm a b i j -> dm b a j k -> dm a a i k
predicate okr (l r: seq_candidate_d) (j v: int) = (v = 2 /\\ exists i. 0 <= i < len_candidate_d l /\\ dm r l j i) \\/ (v = 1 /\\ exists i. 0 <= i < len_candidate_d l /\\ dm l r i j)
predicate rely (l r: seq_candidate_d) (s s': seq_i) = len_i s' = len_i s /\\ forall j. 0 <= j < len_i s -> get_i s' j = get_i s j \\/ okr l r j (get_i s' j)
predicate okl (l r: seq_candidate_d) (i v: int) = v = 0 \\/ (v = 2 /\\ exists j. 0 <= j < len_candidate_d r /\\ dm l r i j) \\/ (v = 1 /\\ exists j. 0 <= j < len_candidate_d r /\\ dm r l j i)
predicate stl (l r: seq_candidate_d) (s: seq_i) = forall i. 0 <= i < len_i s -> okl l r i (get_i s i)
predicate str (l r: seq_candidate_d) (s: seq_i) = forall j. 0 <= j < len_i s -> get_i s j = 0 \\/ okr l r j (get_i s j)
predicate done1 (l r: seq_candidate_d) (sl sr: seq_i) (i j: int) = (dm l r i j -> get_i sl i = 2) /\\ (dm r l j i -> get_i sr j = 2)
predicate domd (a b: seq_candidate_d) (i: int) = exists j. 0 <= j < len_candidate_d b /\\ dm a b i j
predicate from_ (a b: seq_candidate_d) (n: int) (x: candidate_d) = exists i. 0 <= i < n /\\ not (domd a b i) /\\ get_candidate_d a i = x
predicate has (s: seq_candidate_d) (x: candidate_d) = exists k. 0 <= k < len_candidate_d s /\\ get_candidate_d s k = x
predicate premises (l r: seq_candidate_d) = antichain l /\\ antichain r /\\ transb l r /\\ transb r l
axiom rely_set : forall l r s j v [rely l r s (set_i s j v)]. 0 <= j < len_i s -> okr l r j v -> rely l r s (set_i s j v)
axiom rely_done : forall l r sl sr sr' i j [done1 l r sl sr i j, rely l r sr sr']. premises l r -> 0 <= i < len_candidate_d l -> 0 <= j < len_i sr -> len_i sr = len_candidate_d r -> rely l r sr sr' -> done1 l r sl sr i j -> done1 l r sl sr' i j
axiom has_snoc : forall s v x [has (snoc_candidate_d s v) x]. has (snoc_candidate_d s v) x <-> has s x \\/ x = v
"""
TARGETS.append(lemmas.lemma("merge_steps", theory_dbl() + theory.SEQ.replace("@", "d").replace("$", "dbl") + theory.SEQ.replace("@", "i").replace("$", "int") + "type candidate_d = { candidate_d_fitness: seq_d; candidate_d_chromosome: seq_d; candidate_d_is_evaluated: bool }\n" +
  theory.SEQ.replace("@", "candidate_d").replace("$", "candidate_d") + MERGE.replace("axiom rely_", "goal rely_").replace("axiom has_snoc", """let lemma has_snoc_p (s: seq_candidate_d) (v x: candidate_d)
  ensures { has (snoc_candidate_d s v) x <-> has s x \\/ x = v }
= assert { get_candidate_d (snoc_candidate_d s v) (len_candidate_d s) = v }; assert { forall j. 0 <= j < len_candidate_d s -> get_candidate_d (snoc_candidate_d s v) j = get_candidate_d s j }
goal has_snoc""")))
STS = ("every state is justified", "stl lhs rhs lhs_state /\\ str lhs rhs rhs_state")
DONE = ("the visited elements are decided", "forall i j. 0 <= i < pf_i -> 0 <= j < len_candidate_d rhs -> done1 lhs rhs lhs_state rhs_state i j")
RES1 = lambda n, m: ("what is kept", "forall x. has optimal_solutions x <-> from_ lhs rhs %s x \\/ from_ rhs lhs %s x" % (n, m))
t("merge", "mergeParetoSets", types={"ParetoDominance": I8, "iota_iterator<>": SZ}, contracts={**CON, D + "parallel_for": par_for}, obj_methods={"load": at_load, "store": at_store}, globals={"memory_order_relaxed": lambda tr: T("0", SZ)}, prelude=MERGE,
  requires=[("each set is mutually non-dominated", "antichain lhs_0 /\\ antichain rhs_0"), ("dominance is transitive among the elements", "transb lhs_0 rhs_0 /\\ transb rhs_0 lhs_0")],
  ensures=[("exactly the elements of either set that no element of the other dominates", "forall x. has result x <-> from_ lhs_0 rhs_0 (len_candidate_d lhs_0) x \\/ from_ rhs_0 lhs_0 (len_candidate_d rhs_0) x")],
  loops={1: dict(inv=[STS, DONE]),
         2: dict(inv=[STS, DONE, ("the visited pairs are decided", "forall k. 0 <= k < j -> done1 lhs rhs lhs_state rhs_state i k")]),
         3: dict(inv=[RES1("i__2", "0")]), 4: dict(inv=[RES1("(len_candidate_d lhs)", "i__3")])},
  ghost={"loop2.end": "assert { [@expl:the pair is decided] done1 lhs rhs lhs_state rhs_state i j };",
         "loop1.before": "assert { [@expl:premises] premises lhs rhs }; assert { [@expl:each set is mutually non-dominated] antichain lhs /\\ antichain rhs /\\ transb lhs rhs /\\ transb rhs lhs };",
         "loop1.after": "assert { [@expl:every pair is decided] forall i j [dm lhs rhs i j]. 0 <= i < len_candidate_d lhs -> 0 <= j < len_candidate_d rhs -> done1 lhs rhs lhs_state rhs_state i j }; assert { [@expl:every dominated element of lhs is marked] forall i. 0 <= i < len_candidate_d lhs -> domd lhs rhs i -> get_i lhs_state i = 2 }; assert { [@expl:exactly the dominated elements of lhs are marked] forall i. 0 <= i < len_candidate_d lhs -> (get_i lhs_state i = 2 <-> domd lhs rhs i) }; assert { [@expl:exactly the dominated elements of rhs are marked] forall j. 0 <= j < len_candidate_d rhs -> (get_i rhs_state j = 2 <-> domd rhs lhs j) };"})
GM = {**F1, D + "findParetoFront": contract_of(FR), D + "toFitnessMatrix": contract_of(TFM)}
PW = lambda a, b: "worse (fit pop %s) (fit pop %s)" % (a, b)
TOPP = """
predicate maxc (p: seq_candidate_d) (b: int) = 0 <= b < len_candidate_d p /\\ (forall y. 0 <= y < len_candidate_d p -> d_rk (get_d (fit p y) 0) <= d_rk (get_d (fit p b) 0))
predicate ndomc (p: seq_candidate_d) (x: int) = forall y. 0 <= y < len_candidate_d p -> not (worse (fit p x) (fit p y))
function fit (s: seq_candidate_d) (i: int) : seq_d = (get_candidate_d s i).candidate_d_fitness
predicate selection (p: seq_candidate_d) (f: seq_i) (r: seq_candidate_d) = len_candidate_d r = len_i f /\\ forall k. 0 <= k < len_i f -> get_candidate_d r k = get_candidate_d p (get_i f k)
"""
TOPP = "\n".join(sorted(TOPP.strip().split("\n"), key=lambda l: not l.startswith("function"))) + "\n"
t("frontpop", "findParetoFront", lambda f: "Matrix" not in f.type, prelude=FEQ + BEST + TOPD + TOPP, contracts=GM,
  requires=[("fitness vectors of one positive length", "forall r. 0 <= r < len_candidate_d pop -> len_d (fit pop r) = len_d (fit pop 0) /\\ len_d (fit pop r) > 0"), ("no NaN for a single objective", "len_d (fit pop 0) = 1 -> forall r. 0 <= r < len_candidate_d pop -> d_is_num (get_d (fit pop r) 0)"),
            ("dominance is transitive among the candidates", "forall a b c. 0 <= a < len_candidate_d pop -> 0 <= b < len_candidate_d pop -> 0 <= c < len_candidate_d pop -> %s -> %s -> %s" % (PW("a", "b"), PW("b", "c"), PW("a", "c")))],
  ensures=[("one objective: every candidate equal to the best within the tolerance, once", "len_candidate_d pop > 0 -> len_d (fit pop 0) = 1 -> exists f b. maxc pop b /\\ inj_i f /\\ inrange f (len_candidate_d pop) /\\ selection pop f result /\\ forall x. 0 <= x < len_candidate_d pop -> (mem_i f x <-> feq (get_d (fit pop b) 0) (get_d (fit pop x) 0))"),
           ("otherwise every non-dominated candidate, once", "len_candidate_d pop > 0 -> len_d (fit pop 0) <> 1 -> exists f. inj_i f /\\ inrange f (len_candidate_d pop) /\\ selection pop f result /\\ forall x. 0 <= x < len_candidate_d pop -> (mem_i f x <-> ndomc pop x)"),
           ("nothing from nothing", "len_candidate_d pop = 0 -> len_candidate_d result = 0")],
  loops={1: dict(inv=[("selected so far", "len_candidate_d selected = idx__i /\\ forall k. 0 <= k < idx__i -> get_candidate_d selected k = get_candidate_d pop (get_i indices k)")])},
  ghost={"loop1.after": "assert { [@expl:the selection follows the indices] selection pop optimal_indices selected }; assert { [@expl:rows are the fitness vectors] forall i. 0 <= i < len_candidate_d pop -> get_sd fitness_matrix i = fit pop i };"
         " assert { [@expl:the largest row is the best candidate] forall b. maxrow fitness_matrix b -> maxc pop b }; assert { [@expl:non-dominated rows are non-dominated candidates] forall x. 0 <= x < len_candidate_d pop -> (nondom fitness_matrix x <-> ndomc pop x) };"})
HARNESS = dict(src=["c08.cpp"], lib=True, asan=True, secs=12, secs_thorough=90)

from common import *
from fp import facts
PROP = "C04"
R = "gapp::mutation::perm::"
FA, FL = facts("mul_le")
PRE = PERM_I + """
predicate sameset (o n: seq_i) = len_i n = len_i o /\\ (perm o -> perm n)
predicate same (o n: seq_i) = len_i n = len_i o /\\ (forall k. 0 <= k < len_i o -> get_i n k = get_i o k)
(* n is o with the elements of [f, l) in reverse order *)
predicate revd (o n: seq_i) (f l: int) = 0 <= f /\\ f <= l <= len_i o /\\ len_i n = len_i o /\\ (forall k. 0 <= k < len_i o -> if f <= k < l then get_i n k = get_i o (f + l - 1 - k) else get_i n k = get_i o k)
(* n is o with the elements at two different positions exchanged *)
predicate swapd (o n: seq_i) (a b: int) = 0 <= a < len_i o /\\ 0 <= b < len_i o /\\ a <> b /\\ len_i n = len_i o /\\ get_i n a = get_i o b /\\ get_i n b = get_i o a /\\ (forall k. 0 <= k < len_i o -> k <> a -> k <> b -> get_i n k = get_i o k)
(* n is o with the elements at three different positions exchanged cyclically *)
predicate swapd3 (o n: seq_i) (a b c: int) = 0 <= a < len_i o /\\ 0 <= b < len_i o /\\ 0 <= c < len_i o /\\ a <> b /\\ a <> c /\\ b <> c /\\ len_i n = len_i o /\\ get_i n a = get_i o c /\\ get_i n b = get_i o a /\\ get_i n c = get_i o b
  /\\ (forall k. 0 <= k < len_i o -> k <> a -> k <> b -> k <> c -> get_i n k = get_i o k)
(* n differs from o only in [f, l) *)
predicate within (o n: seq_i) (f l: int) = 0 <= f /\\ f <= l <= len_i o /\\ len_i n = len_i o /\\ (forall k. 0 <= k < len_i o -> not (f <= k < l) -> get_i n k = get_i o k)
(* n is o with the adjacent blocks [f, m) and [m, l) exchanged *)
predicate rotd (o n: seq_i) (f m l: int) = 0 <= f /\\ f < m < l /\\ l <= len_i o /\\ len_i n = len_i o
  /\\ (forall k. 0 <= k < len_i o -> get_i n k = (if f <= k < f + l - m then get_i o (k + m - f) else if f + l - m <= k < l then get_i o (k - (l - m)) else get_i o k))
"""
O = "(old chromosome)"
N = "len_i (old chromosome)"
PM = lambda c: ("mutation rate is a probability (invariant of the Probability type)", "d_le d_zero this_.%s_pm_ && d_le this_.%s_pm_ (d_of_int 1)" % (c, c))
RM = lambda c: ("the relative range is in [0, 1] (invariant of the Normalized type)", "d_le d_zero this_.%s_range_max_ && d_le this_.%s_range_max_ (d_of_int 1)" % (c, c))
SZ = ("fewer than 2^53 genes", "len_i chromosome < 9007199254740992")
MAXL = lambda c: "(let t = d_trunc (d_mul this_.%s_range_max_ (d_of_int %s)) in if t < 2 then 2 else t)" % (c, par(N))
STRUCT = {
    "inversion": ("nothing or one segment is reversed, of at least 2 and at most max(2, range_max * n) genes", "same %s chromosome \\/ (exists f l. revd %s chromosome f l /\\ 2 <= l - f <= %s)" % (O, O, MAXL("inversion"))),
    "swap2": ("nothing or two different positions are exchanged", "same %s chromosome \\/ (exists a b. swapd %s chromosome a b)" % (O, O)),
    "swap3": ("nothing or three different positions are exchanged cyclically", "same %s chromosome \\/ (exists a b c. swapd3 %s chromosome a b c)" % (O, O)),
    "shuffle": ("genes change only within a range of at most max(2, range_max * n) genes", "same %s chromosome \\/ (exists f l. within %s chromosome f l /\\ 2 <= l - f <= %s)" % (O, O, MAXL("shuffle"))),
    "shift": ("nothing or a block of genes moves to another position", "same %s chromosome \\/ (exists f m l. rotd %s chromosome f m l)" % (O, O)),
}
# witnesses of the structural postconditions: ghost variables set where the operator makes its choices
GHOST = {
    "swap2": {"entry": "let ref ga : int = 0 in let ref gb : int = 0 in", "decl:idxs": "ga <- get_i idxs 0; gb <- get_i idxs 1;",
              "exit": "assert { [@expl:witness] same %s chromosome \\/ swapd %s chromosome ga gb };" % (O, O)},
    "swap3": {"entry": "let ref ga : int = 0 in let ref gb : int = 0 in let ref gc : int = 0 in", "decl:idxs": "ga <- get_i idxs 0; gb <- get_i idxs 1; gc <- get_i idxs 2;",
              "exit": "assert { [@expl:witness] same %s chromosome \\/ swapd3 %s chromosome ga gb gc };" % (O, O)},
    "inversion": {"entry": "let ref ga : int = 0 in let ref gb : int = 0 in", "decl:last": "ga <- first; gb <- last;",
                  "exit": "assert { [@expl:witness] same %s chromosome \\/ (revd %s chromosome ga gb /\\ 2 <= gb - ga <= %s) };" % (O, O, MAXL("inversion"))},
    "shuffle": {"entry": "let ref ga : int = 0 in let ref gb : int = 0 in", "decl:last": "ga <- first; gb <- last;",
                "exit": "assert { [@expl:witness] same %s chromosome \\/ (within %s chromosome ga gb /\\ 2 <= gb - ga <= %s) };" % (O, O, MAXL("shuffle"))},
    "shift": {"entry": "let ref ga : int = 0 in let ref gb : int = 0 in let ref gl : int = 0 in", "decl:idxs": "ga <- get_i idxs 0; gb <- get_i idxs 1; gl <- range_len;",
              "exit": "assert { [@expl:witness] same %s chromosome \\/ (if gb < ga then rotd %s chromosome gb ga (ga + gl) else rotd %s chromosome ga (ga + gl) (gb + gl)) };" % (O, O, O)},
}
TARGETS = [FL]
for cl in ("Inversion", "Swap2", "Swap3", "Shuffle", "Shift"):
    c = cl.lower()
    req = [PM(c), SZ] + ([RM(c)] if c in ("inversion", "shuffle", "shift") else [])
    ens = [("the length is kept", "len_i chromosome = " + N),
           ("permutations stay permutations", "perm %s -> perm chromosome" % O),
           ("rate 0 never mutates", "d_rk this_.%s_pm_ <= d_rk d_zero -> same %s chromosome" % (c, O)), STRUCT[c]]
    if c != "shift":
        ens.append(("too short chromosomes are kept", "%s < %d -> same %s chromosome" % (N, 3 if c == "swap3" else 2, O)))
    TARGETS.append(dict(name=c, tu=drv("mut_perm.cpp"), qname=R + cl + "::mutate", aliases={"GeneType": "unsigned long"}, models=RNG, prelude=PRE + FA, requires=req, ensures=ens, ghost=GHOST[c]))
HARNESS = dict(src=["c04.cpp"], lib=True, secs=8, secs_thorough=200)

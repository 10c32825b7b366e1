"""WhyML theories used by the extracted functions: monomorphic sequences, sets, options, doubles, machine integers."""
from translate import sfx, wty

BASE = r"""
  use int.Int
  use bool.Bool
  use int.EuclideanDivision
  use int.ComputerDivision as CD
  let predicate eqb (a b: bool) = (a && b) || (not a && not b)
  let function xorb (a b: bool) : bool = if a then not b else b
  let function andb (a b: bool) : bool = a && b
  let function orb (a b: bool) : bool = a || b
  let function cdiv (a b: int) : int requires { b <> 0 } = CD.div a b
  let function cmod (a b: int) : int requires { b <> 0 } = CD.mod a b
  axiom cdiv_pos : forall a b: int [cdiv a b]. 0 <= a -> 0 < b -> cdiv a b = div a b
  axiom cmod_pos : forall a b: int [cmod a b]. 0 <= a -> 0 < b -> cmod a b = mod a b
  constant size_limit : int = 1125899906842624
"""

WRAP = r"""
  let function wrap_u64 (x: int) : int = if 0 <= x <= 18446744073709551615 then x else if x < 0 then x + 18446744073709551616 else x - 18446744073709551616
  let function wrap_u32 (x: int) : int = if 0 <= x <= 4294967295 then x else if x < 0 then x + 4294967296 else x - 4294967296
  let function wrap_i64 (x: int) : int = if -9223372036854775808 <= x <= 9223372036854775807 then x else if x < 0 then x + 18446744073709551616 else x - 18446744073709551616
"""

SEQ = r"""
  type seq_@
  val function len_@ (s: seq_@) : int
  val function get_@ (s: seq_@) (i: int) : $
  val function set_@ (s: seq_@) (i: int) (v: $) : seq_@
  val function snoc_@ (s: seq_@) (v: $) : seq_@
  val constant empty_@ : seq_@
  val function mk_@ (n: int) (v: $) : seq_@
  val function sub_@ (s: seq_@) (lo: int) (hi: int) : seq_@
  val function cat_@ (a: seq_@) (b: seq_@) : seq_@
  val function resize_@ (s: seq_@) (n: int) (v: $) : seq_@
  axiom len_nonneg_@ : forall s: seq_@ [len_@ s]. 0 <= len_@ s
  axiom set_len_@ : forall s: seq_@, i: int, v: $ [set_@ s i v]. len_@ (set_@ s i v) = len_@ s
  axiom set_get_@ : forall s: seq_@, i j: int, v: $ [get_@ (set_@ s i v) j].
    0 <= i < len_@ s -> get_@ (set_@ s i v) j = if i = j then v else get_@ s j
  axiom empty_len_@ : len_@ empty_@ = 0
  axiom snoc_len_@ : forall s: seq_@, v: $ [snoc_@ s v]. len_@ (snoc_@ s v) = len_@ s + 1
  axiom snoc_get_@ : forall s: seq_@, v: $, j: int [get_@ (snoc_@ s v) j].
    0 <= j <= len_@ s -> get_@ (snoc_@ s v) j = if j = len_@ s then v else get_@ s j
  axiom mk_len_@ : forall n: int, v: $ [mk_@ n v]. 0 <= n -> len_@ (mk_@ n v) = n
  axiom mk_get_@ : forall n: int, v: $, j: int [get_@ (mk_@ n v) j]. 0 <= j < n -> get_@ (mk_@ n v) j = v
  axiom sub_len_@ : forall s: seq_@, lo hi: int [sub_@ s lo hi]. 0 <= lo <= hi <= len_@ s -> len_@ (sub_@ s lo hi) = hi - lo
  axiom sub_get_@ : forall s: seq_@, lo hi j: int [get_@ (sub_@ s lo hi) j].
    0 <= lo <= hi <= len_@ s /\ 0 <= j < hi - lo -> get_@ (sub_@ s lo hi) j = get_@ s (lo + j)
  axiom cat_len_@ : forall a b: seq_@ [cat_@ a b]. len_@ (cat_@ a b) = len_@ a + len_@ b
  axiom cat_get_@ : forall a b: seq_@, j: int [get_@ (cat_@ a b) j].
    0 <= j < len_@ a + len_@ b -> get_@ (cat_@ a b) j = if j < len_@ a then get_@ a j else get_@ b (j - len_@ a)
  axiom resize_len_@ : forall s: seq_@, n: int, v: $ [resize_@ s n v]. 0 <= n -> len_@ (resize_@ s n v) = n
  axiom resize_get_@ : forall s: seq_@, n: int, v: $, j: int [get_@ (resize_@ s n v) j].
    0 <= j < n -> get_@ (resize_@ s n v) j = if j < len_@ s then get_@ s j else v
  predicate ext_@ (a b: seq_@) = len_@ a = len_@ b /\ forall k. 0 <= k < len_@ a -> get_@ a k = get_@ b k
  axiom ext_ax_@ : forall a b: seq_@ [ext_@ a b]. ext_@ a b -> a = b
"""
SEQ_EQ = r"""
  val predicate eq_s@ (a b: seq_@)
  axiom eq_def_@ : forall a b: seq_@. eq_s@ a b <-> (len_@ a = len_@ b /\ forall k. 0 <= k < len_@ a -> %s)
"""

SET = r"""
  type set_@
  val predicate zmem_@ (x: $) (s: set_@)
  val constant zempty_@ : set_@
  val function zadd_@ (x: $) (s: set_@) : set_@
  val function zdel_@ (x: $) (s: set_@) : set_@
  axiom zempty_def_@ : forall x: $. not (zmem_@ x zempty_@)
  axiom zadd_def_@ : forall x y: $, s: set_@ [zmem_@ x (zadd_@ y s)]. zmem_@ x (zadd_@ y s) <-> (x = y \/ zmem_@ x s)
  axiom zdel_def_@ : forall x y: $, s: set_@ [zmem_@ x (zdel_@ y s)]. zmem_@ x (zdel_@ y s) <-> (x <> y /\ zmem_@ x s)
"""

OPT = r"""
  type opt_@ = { has: bool; val_: $ }
  val constant dflt_@ : $
  let function some_@ (x: $) : opt_@ = { has = true; val_ = x }
  let function none_@ : opt_@ = { has = false; val_ = dflt_@ }
"""

# doubles: is_num = not NaN; rk is the position of a number in the (finite, totally ordered) set of doubles, +0 and -0 share it
DBL = r"""
  type dbl
  val predicate d_is_num (x: dbl)
  val predicate d_finite (x: dbl)
  function d_rk (x: dbl) : int
  val predicate d_lt (x y: dbl)
  val predicate d_le (x y: dbl)
  val predicate d_eq (x y: dbl)
  axiom d_lt_def : forall x y: dbl [d_lt x y]. d_lt x y <-> (d_is_num x /\ d_is_num y /\ d_rk x < d_rk y)
  axiom d_le_def : forall x y: dbl [d_le x y]. d_le x y <-> (d_is_num x /\ d_is_num y /\ d_rk x <= d_rk y)
  axiom d_eq_def : forall x y: dbl [d_eq x y]. d_eq x y <-> (d_is_num x /\ d_is_num y /\ d_rk x = d_rk y)
  axiom d_finite_num : forall x: dbl [d_finite x]. d_finite x -> d_is_num x
  val function d_of_int (n: int) : dbl
  axiom d_of_int_num : forall n: int [d_of_int n]. d_is_num (d_of_int n) /\ d_finite (d_of_int n)
  axiom d_of_int_mono : forall a b: int [d_of_int a, d_of_int b]. a <= b -> d_rk (d_of_int a) <= d_rk (d_of_int b)
  axiom d_of_int_exact : forall a b: int [d_of_int a, d_of_int b]. -9007199254740992 <= a <= 9007199254740992 /\ -9007199254740992 <= b <= 9007199254740992 /\ a < b -> d_rk (d_of_int a) < d_rk (d_of_int b)
  let constant d_zero : dbl = d_of_int 0
  val constant d_inf : dbl
  val constant d_max : dbl
  val constant d_eps : dbl
  val constant d_min_pos : dbl
  val constant d_nan : dbl
  axiom d_nan_ax : not (d_is_num d_nan)
  axiom d_inf_ax : d_is_num d_inf /\ not (d_finite d_inf) /\ (forall x: dbl [d_rk x]. d_is_num x -> d_rk x <= d_rk d_inf)
  axiom d_inf_fin : forall x: dbl [d_finite x]. d_finite x -> d_rk x < d_rk d_inf
  axiom d_max_top : forall x: dbl [d_finite x]. d_finite x -> d_rk x <= d_rk d_max
  axiom d_max_ax : d_finite d_max /\ d_rk d_zero < d_rk d_max
  axiom d_eps_ax : d_finite d_eps /\ d_rk d_zero < d_rk d_eps < d_rk (d_of_int 1)
  axiom d_min_pos_ax : d_finite d_min_pos /\ d_rk d_zero < d_rk d_min_pos < d_rk (d_of_int 1)
  val function d_add (x y: dbl) : dbl
  val function d_sub (x y: dbl) : dbl
  val function d_mul (x y: dbl) : dbl
  val function d_div (x y: dbl) : dbl
  val function d_neg (x: dbl) : dbl
  val function d_abs (x: dbl) : dbl
  val function d_sqrt (x: dbl) : dbl
  val function d_exp (x: dbl) : dbl
  val function d_log (x: dbl) : dbl
  val function d_floor (x: dbl) : dbl
  val function d_ceil (x: dbl) : dbl
  val function d_round (x: dbl) : dbl
  val function d_sin (x: dbl) : dbl
  val function d_cos (x: dbl) : dbl
  val function d_acos (x: dbl) : dbl
  val function d_atan (x: dbl) : dbl
  val function d_exp2 (x: dbl) : dbl
  val function d_tgamma (x: dbl) : dbl
  val function d_pow (x y: dbl) : dbl
  val predicate d_signbit (x: dbl)
  val function d_trunc (x: dbl) : int
  axiom d_trunc_of_int : forall n: int [d_trunc (d_of_int n)]. -9007199254740992 <= n <= 9007199254740992 -> d_trunc (d_of_int n) = n
  (* truncation towards zero is monotone *)
  axiom d_trunc_le : forall x: dbl, n: int [d_trunc x, d_of_int n]. -9007199254740992 <= n <= 9007199254740992 -> d_is_num x -> d_rk x <= d_rk (d_of_int n) -> d_trunc x <= n
  axiom d_trunc_ge : forall x: dbl, n: int [d_trunc x, d_of_int n]. -9007199254740992 <= n <= 9007199254740992 -> d_is_num x -> d_rk (d_of_int n) <= d_rk x -> n <= d_trunc x
"""


def tyrefs(ty):
    k = ty.k
    if k in ("seq", "set", "opt"):
        return [ty.a]
    if k == "tup":
        return list(ty.a)
    return []


def emit(tr, extra_types=()):
    """module prelude text for translator `tr`"""
    out = [BASE]
    done = set()
    need_dbl = [False]
    recs = {}
    text = []

    def need(ty):
        k = ty.k
        if k == "dbl":
            if "dbl" not in done:
                done.add("dbl")
                text.append(DBL)
            return
        if k == "opaque":
            if "opq" not in done:
                done.add("opq")
                text.append("  type opq\n")
            return
        if k in ("int", "bool", "void", "iter"):
            return
        if k == "tup":
            for x in ty.a:
                need(x)
            return
        if k == "rec":
            key = "rec:" + ty.a
            if key in done:
                return
            done.add(key)
            fl = tr.recs.get(ty.a) or []
            for f, t in fl:
                need(t)
            if fl:
                text.append("  type %s = { %s }\n" % (ty.a, "; ".join("%s_%s: %s" % (ty.a, f, wty(t)) for f, t in fl)))
            else:
                text.append("  type %s\n" % ty.a)
            return
        key = k + ":" + sfx(ty.a)
        if key in done:
            return
        done.add(key)
        need(ty.a)
        s, w = sfx(ty.a), wty(ty.a)
        tpl = {"seq": SEQ, "set": SET, "opt": OPT}[k]
        t = tpl.replace("@", s).replace("$", w)
        if k == "opt":
            t = t.replace("has:", "has:")
        if k == "seq":
            e = eq_term(ty.a, "get_%s a k" % s, "get_%s b k" % s)
            if e:
                t += (SEQ_EQ.replace("@", s)) % e
        text.append(t)
    for ty in list(tr.types.values()) + list(extra_types):
        need(ty)
    for key, w in sorted(tr.anyused):
        if w == "dbl":
            need_d = True
    from ctypes_ import DBL as D_, Ty
    if any("dbl" in w for _, w in tr.anyused) or getattr(tr, "dlits", None) is not None or tr.spec.get("dbl"):
        need(D_)
    out += text
    lits = getattr(tr, "dlits", None)
    if lits:
        order = sorted(lits.items(), key=lambda x: x[1])
        for nm, v in order:
            out.append("  val constant %s : dbl\n  axiom %s_num : d_finite %s\n" % (nm, nm, nm))
        import math
        pts = [(v, nm) for nm, v in order] + [(float(i), "(d_of_int %d)" % i if i >= 0 else "(d_of_int (%d))" % i)
                                              for i in sorted({0, 1} | {math.floor(v) for _, v in order if abs(v) < 1e9} | {math.ceil(v) for _, v in order if abs(v) < 1e9})]
        pts.sort(key=lambda x: x[0])
        for (v1, n1), (v2, n2) in zip(pts, pts[1:]):
            if v1 < v2:
                out.append("  axiom ord_%s : d_rk %s < d_rk %s\n" % (abs(hash((n1, n2))) if False else len(out), n1, n2))
    if tr.wrap:
        out.append(WRAP)
    for key, w in sorted(tr.anyused):
        out.append("  val any_%s () : %s\n" % (key, w))
    for nm, tys in tr.excs:
        out.append("  exception %s %s\n" % (nm, "" if not tys else (tys[0] if len(tys) == 1 else "(" + ", ".join(tys) + ")")))
    return "".join(out)


def eq_term(ty, a, b):
    if ty.k in ("int",):
        return "%s = %s" % (a, b)
    if ty.k == "bool":
        return "%s = %s" % (a, b)
    if ty.k == "dbl":
        return "d_eq (%s) (%s)" % (a, b)
    if ty.k == "seq":
        return "eq_s%s (%s) (%s)" % (sfx(ty.a), a, b)
    return None

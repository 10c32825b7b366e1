"""Mathematical lemmas over the sequence theory, proved by Why3 on every run (targets with key `lemma`), then used as axioms."""
import re
from common import *
import theory


def seq_theory(e="i", w="int"):
    return theory.BASE + theory.SEQ.replace("@", e).replace("$", w)


# ---- counting the elements <= k is invariant under permutation
CNTLE = """
function cntle (s: seq_i) (k: int) (n: int) : int
axiom cntle_0 : forall s k n [cntle s k n]. n <= 0 -> cntle s k n = 0
axiom cntle_s : forall s k n [cntle s k n]. 0 < n -> cntle s k n = cntle s k (n-1) + (if get_i s (n-1) <= k then 1 else 0)
"""
CNTLE_PERM_AX = """
axiom cntle_perm : forall s t p q: seq_i, m k: int. len_i s = m -> len_i t = m -> len_i p = m -> len_i q = m ->
  (forall j. 0 <= j < m -> 0 <= get_i p j < m /\\ get_i t j = get_i s (get_i p j) /\\ get_i q (get_i p j) = j) ->
  (forall j. 0 <= j < m -> 0 <= get_i q j < m /\\ get_i p (get_i q j) = j) ->
  cntle s k m = cntle t k m
"""
CNTLE_PERM_AX = """
predicate permw (s t p q: seq_i) (m: int) = 0 <= m /\\ len_i s = m /\\ len_i t = m /\\ len_i p = m /\\ len_i q = m /\\
  (forall j. 0 <= j < m -> 0 <= get_i p j < m /\\ get_i t j = get_i s (get_i p j) /\\ get_i q (get_i p j) = j) /\\
  (forall j. 0 <= j < m -> 0 <= get_i q j < m /\\ get_i p (get_i q j) = j)
axiom cntle_perm : forall s t p q: seq_i, m: int [permw s t p q m]. permw s t p q m -> forall k. cntle s k m = cntle t k m
axiom cntle_ext : forall s t k n. (forall j. 0 <= j < n -> get_i s j = get_i t j) -> cntle s k n = cntle t k n
axiom cntle_snoc : forall s v k n [cntle (snoc_i s v) k n]. 0 <= n <= len_i s -> cntle (snoc_i s v) k n = cntle s k n
"""
CNTLE_PROOF = CNTLE + """
let rec lemma cntle_ext (s t: seq_i) (k n: int)
  requires { forall j. 0 <= j < n -> get_i s j = get_i t j }
  ensures { cntle s k n = cntle t k n }
  variant { n }
= if n > 0 then cntle_ext s t k (n-1)

lemma cntle_snoc : forall s v k n [cntle (snoc_i s v) k n]. 0 <= n <= len_i s -> cntle (snoc_i s v) k n = cntle s k n

let rec lemma cntle_set (s: seq_i) (i v k n: int)
  requires { 0 <= i < n <= len_i s }
  ensures { cntle (set_i s i v) k n = cntle s k n - (if get_i s i <= k then 1 else 0) + (if v <= k then 1 else 0) }
  variant { n }
= if n - 1 = i then cntle_ext (set_i s i v) s k (n-1)
  else cntle_set s i v k (n-1)

let rec lemma cntle_perm (s t p q: seq_i) (m k: int)
  requires { 0 <= m <= len_i s /\\ m <= len_i t /\\ m <= len_i p /\\ m <= len_i q }
  requires { forall j. 0 <= j < m -> 0 <= get_i p j < m /\\ get_i t j = get_i s (get_i p j) /\\ get_i q (get_i p j) = j }
  requires { forall j. 0 <= j < m -> 0 <= get_i q j < m /\\ get_i p (get_i q j) = j }
  ensures { cntle s k m = cntle t k m }
  variant { m }
= if m > 0 then begin
    let a = get_i p (m-1) in
    let b = get_i q (m-1) in
    let s2 = set_i s a (get_i s (m-1)) in
    let p2 = set_i p b a in
    let q2 = set_i q a b in
    if b = m - 1 then begin
      cntle_perm s t p q (m-1) k
    end else begin
      assert { get_i p b = m-1 };
      assert { a <> m-1 };
      assert { forall j. 0 <= j < m-1 -> j <> b -> get_i p j <> m-1 };
      assert { forall j. 0 <= j < m-1 -> get_i p j <> a };
      assert { forall j. 0 <= j < m-1 -> 0 <= get_i p2 j < m-1 };
      assert { forall j. 0 <= j < m-1 -> j <> a -> get_i q j <> b };
      assert { forall j. 0 <= j < m-1 -> j <> a -> get_i q j <> m-1 };
      assert { forall j. 0 <= j < m-1 -> 0 <= get_i q2 j < m-1 };
      assert { forall j. 0 <= j < m-1 -> get_i t j = get_i s2 (get_i p2 j) };
      assert { forall j. 0 <= j < m-1 -> get_i q2 (get_i p2 j) = j };
      assert { forall j. 0 <= j < m-1 -> get_i p2 (get_i q2 j) = j };
      cntle_perm s2 t p2 q2 (m-1) k;
      cntle_set s a (get_i s (m-1)) k (m-1);
    end
  end
"""
# ---- pigeonhole facts
PIGEON_PROOF = """
predicate inj_i (s: seq_i) = forall i j. 0 <= i < j < len_i s -> get_i s i <> get_i s j
predicate inrange (s: seq_i) (n: int) = forall i. 0 <= i < len_i s -> 0 <= get_i s i < n
predicate mem_i (s: seq_i) (v: int) = exists i. 0 <= i < len_i s /\\ get_i s i = v

(* an injective sequence over [0, n) has at most n elements *)
let rec lemma pigeon (s: seq_i) (n: int)
  requires { 0 <= n /\\ inj_i s /\\ inrange s n }
  ensures { len_i s <= n }
  variant { n }
= if n > 0 then begin
    let l = len_i s in
    if l > 0 then begin
    let ref k = -1 in
    let ref i = 0 in
    while i < l do
      invariant { 0 <= i <= l }
      invariant { -1 <= k < i }
      invariant { k >= 0 -> get_i s k = n-1 }
      invariant { k < 0 -> forall j. 0 <= j < i -> get_i s j <> n-1 }
      variant { l - i }
      if get_i s i = n-1 then k <- i;
      i <- i + 1
    done;
    if k < 0 then pigeon s (n-1)
    else begin
      let t = sub_i (set_i s k (get_i s (l-1))) 0 (l-1) in
      assert { forall j. 0 <= j < l-1 -> get_i t j = if j = k then get_i s (l-1) else get_i s j };
      assert { inj_i t };
      assert { inrange t (n-1) };
      pigeon t (n-1)
    end end
  end else assert { len_i s > 0 -> 0 <= get_i s 0 < n }

(* an injective sequence of n elements over [0, n) takes every value *)
let lemma pigeon_surj (s: seq_i) (v: int)
  requires { inj_i s /\\ inrange s (len_i s) /\\ 0 <= v < len_i s }
  ensures { mem_i s v }
= if (not (mem_i s v)) then begin
    pigeon (snoc_i s v) (len_i s);
    ()
  end
"""
PIGEON_AX = """
axiom pigeon : forall s: seq_i, n: int [inrange s n]. 0 <= n -> inj_i s -> inrange s n -> len_i s <= n
axiom pigeon_surj : forall s: seq_i, v: int. inj_i s -> inrange s (len_i s) -> 0 <= v < len_i s -> mem_i s v
"""


def lemma(name, text):
    return dict(name="lemma_" + name, lemma=text)


CNTLE_LEMMA = lemma("count_permutation", seq_theory() + CNTLE_PROOF)
PIGEON_LEMMA = lemma("pigeonhole", seq_theory() + PIGEON_PROOF)

# ---- permutations of 0..n-1, counting the elements outside a set
PERM = """
predicate inj_i (s: seq_i) = forall i j. 0 <= i < j < len_i s -> get_i s i <> get_i s j
predicate inrange (s: seq_i) (n: int) = forall i. 0 <= i < len_i s -> 0 <= get_i s i < n
predicate mem_i (s: seq_i) (v: int) = exists i. 0 <= i < len_i s /\\ get_i s i = v
predicate perm (s: seq_i) = inj_i s /\\ inrange s (len_i s)
"""
PERM_AX = PERM + PIGEON_AX + """
axiom perm_surj_inj : forall s: seq_i. inrange s (len_i s) -> (forall v. 0 <= v < len_i s -> mem_i s v) -> inj_i s
(* inverse of a permutation (exists by pigeon_surj) *)
function inv_i (s: seq_i) (v: int) : int
axiom inv_r : forall s v [inv_i s v]. perm s -> 0 <= v < len_i s -> 0 <= inv_i s v < len_i s /\\ get_i s (inv_i s v) = v
axiom inv_l : forall s i [inv_i s (get_i s i)]. perm s -> 0 <= i < len_i s -> inv_i s (get_i s i) = i
"""
PIGEON_PROOF += """
(* a surjective sequence of n elements over [0, n) is injective *)
let lemma perm_surj_inj (s: seq_i)
  requires { inrange s (len_i s) /\\ forall v. 0 <= v < len_i s -> mem_i s v }
  ensures { inj_i s }
= let n = len_i s in
  let ref w = empty_i in
  let ref v = 0 in
  while v < n do
    invariant { 0 <= v <= n /\\ len_i w = v }
    invariant { forall u. 0 <= u < v -> 0 <= get_i w u < n /\\ get_i s (get_i w u) = u }
    variant { n - v }
    let ref k = 0 in
    assert { mem_i s v };
    while get_i s k <> v do
      invariant { 0 <= k < n }
      invariant { forall j. 0 <= j < k -> get_i s j <> v }
      variant { n - k }
      k <- k + 1
    done;
    w <- snoc_i w k;
    v <- v + 1
  done;
  assert { inj_i w };
  assert { forall i. 0 <= i < n -> mem_i w i };
  let back (i: int) requires { 0 <= i < n } ensures { get_i w (get_i s i) = i } = assert { mem_i w i } in
  let ref i = 0 in
  while i < n do
    invariant { 0 <= i <= n /\\ forall a. 0 <= a < i -> get_i w (get_i s a) = a }
    variant { n - i }
    back i;
    i <- i + 1
  done
"""
PIGEON_LEMMA = lemma("pigeonhole", seq_theory() + PIGEON_PROOF)

CND = """
(* number of i < k whose element is not in the set d *)
function cnd (s: seq_i) (d: seq_b) (k: int) : int
axiom cnd_0 : forall s d k [cnd s d k]. k <= 0 -> cnd s d k = 0
axiom cnd_s : forall s d k [cnd s d k]. 0 < k -> cnd s d k = cnd s d (k-1) + (if get_b d (get_i s (k-1)) then 0 else 1)
"""
CND_AX = CND + """
axiom cnd_next : forall s d k [cnd s d (k+1)]. 0 <= k -> cnd s d (k+1) = cnd s d k + (if get_b d (get_i s k) then 0 else 1)
axiom cnd_nonneg : forall s d k [cnd s d k]. 0 <= k -> 0 <= cnd s d k <= k
axiom cnd_mono : forall s d a b [cnd s d a, cnd s d b]. 0 <= a <= b -> cnd s d a <= cnd s d b <= cnd s d a + (b - a)
axiom cnd_lt : forall s d a b [cnd s d a, cnd s d b]. 0 <= a < b -> not get_b d (get_i s a) -> cnd s d a < cnd s d b
axiom cnd_wit : forall s d m c [cnd s d m, cnd s d c]. true
predicate hasrank (s: seq_i) (d: seq_b) (m c: int) = exists j. 0 <= j < m /\\ not get_b d (get_i s j) /\\ cnd s d j = c
axiom cnd_wit2 : forall s d m c [hasrank s d m c]. 0 <= c < cnd s d m -> hasrank s d m c
predicate rset (s: seq_i) (d: seq_b) (f l: int) = forall i. 0 <= i < len_i s -> (get_b d (get_i s i) <-> f <= i < l)
axiom cnd_perm : forall s t d [cnd s d (len_i s), cnd t d (len_i t)]. perm s -> perm t -> len_i s = len_i t -> len_i s <= len_b d -> cnd s d (len_i s) = cnd t d (len_i t)
axiom cnd_range : forall s d f l [rset s d f l]. 0 <= f <= l <= len_i s -> rset s d f l -> cnd s d (len_i s) = len_i s - (l - f)
axiom cnd_flat : forall s d a b. 0 <= a <= b -> (forall i. a <= i < b -> get_b d (get_i s i)) -> cnd s d a = cnd s d b
"""
CND_AX = CND_AX.replace("axiom cnd_wit : forall s d m c [cnd s d m, cnd s d c]. true\n", "")
CND_PROOF = PERM + PIGEON_AX + CND + """
lemma cnd_next : forall s d k [cnd s d (k+1)]. 0 <= k -> cnd s d (k+1) = cnd s d k + (if get_b d (get_i s k) then 0 else 1)
let rec lemma cnd_mono (s: seq_i) (d: seq_b) (a b: int)
  requires { 0 <= a <= b }
  ensures { cnd s d a <= cnd s d b <= cnd s d a + (b - a) }
  variant { b }
= if a < b then cnd_mono s d a (b-1)
let lemma cnd_nonneg (s: seq_i) (d: seq_b) (k: int) requires { 0 <= k } ensures { 0 <= cnd s d k <= k } = cnd_mono s d 0 k
let lemma cnd_lt (s: seq_i) (d: seq_b) (a b: int)
  requires { 0 <= a < b /\\ not get_b d (get_i s a) }
  ensures { cnd s d a < cnd s d b }
= cnd_mono s d (a+1) b
let rec lemma cnd_wit2 (s: seq_i) (d: seq_b) (m c: int)
  requires { 0 <= c < cnd s d m }
  ensures { exists j. 0 <= j < m /\\ not get_b d (get_i s j) /\\ cnd s d j = c }
  variant { if m < 0 then 0 else m }
= if m > 0 then (if get_b d (get_i s (m-1)) then cnd_wit2 s d (m-1) c else if cnd s d (m-1) > c then cnd_wit2 s d (m-1) c)
let rec lemma cnd_ext (s t: seq_i) (d: seq_b) (k: int)
  requires { forall i. 0 <= i < k -> get_i s i = get_i t i }
  ensures { cnd s d k = cnd t d k }
  variant { k }
= if k > 0 then cnd_ext s t d (k-1)
let rec lemma cnd_set (s: seq_i) (d: seq_b) (i v k: int)
  requires { 0 <= i < k <= len_i s }
  ensures { cnd (set_i s i v) d k = cnd s d k - (if get_b d (get_i s i) then 0 else 1) + (if get_b d v then 0 else 1) }
  variant { k }
= if k - 1 = i then cnd_ext (set_i s i v) s d (k-1)
  else cnd_set s d i v (k-1)
let rec function cntu (d: seq_b) (m: int) : int
  variant { if m < 0 then 0 else m }
= if m <= 0 then 0 else cntu d (m-1) + (if get_b d (m-1) then 0 else 1)
let rec lemma cnd_id (s: seq_i) (d: seq_b) (m: int)
  requires { 0 <= m /\\ len_i s = m /\\ perm s }
  ensures { cnd s d m = cntu d m }
  variant { m }
= if m > 0 then begin
    assert { mem_i s (m-1) };
    let ref k = 0 in
    while get_i s k <> m-1 do
      invariant { 0 <= k < m }
      invariant { forall j. 0 <= j < k -> get_i s j <> m-1 }
      variant { m - k }
      k <- k + 1
    done;
    let l = get_i s (m-1) in
    let t = sub_i (set_i s k l) 0 (m-1) in
    assert { forall j. 0 <= j < m-1 -> get_i t j = if j = k then l else get_i s j };
    assert { inj_i t };
    assert { inrange t (m-1) };
    cnd_id t d (m-1);
    cnd_ext t (set_i s k l) d (m-1);
    if k < m-1 then cnd_set s d k l (m-1)
  end
let lemma cnd_perm (s t: seq_i) (d: seq_b)
  requires { perm s /\\ perm t /\\ len_i s = len_i t }
  ensures { cnd s d (len_i s) = cnd t d (len_i t) }
= cnd_id s d (len_i s); cnd_id t d (len_i t)
let rec lemma cnd_flat (s: seq_i) (d: seq_b) (a b: int)
  requires { 0 <= a <= b /\\ forall i. a <= i < b -> get_b d (get_i s i) }
  ensures { cnd s d a = cnd s d b }
  variant { b }
= if a < b then cnd_flat s d a (b-1)
let rec lemma cnd_full (s: seq_i) (d: seq_b) (a b: int)
  requires { 0 <= a <= b /\\ forall i. a <= i < b -> not get_b d (get_i s i) }
  ensures { cnd s d b = cnd s d a + (b - a) }
  variant { b }
= if a < b then cnd_full s d a (b-1)
let lemma cnd_range (s: seq_i) (d: seq_b) (f l: int)
  requires { 0 <= f <= l <= len_i s /\\ forall i. 0 <= i < len_i s -> (get_b d (get_i s i) <-> f <= i < l) }
  ensures { cnd s d (len_i s) = len_i s - (l - f) }
= cnd_full s d 0 f; cnd_flat s d f l; cnd_full s d l (len_i s)
"""
SEQ_B = theory.SEQ.replace("@", "b").replace("$", "bool")
CND_LEMMA = lemma("count_outside_set", seq_theory() + SEQ_B + CND_PROOF)

CBT = """
(* number of set bits among the first k *)
function cbt (d: seq_b) (k: int) : int
axiom cbt_0 : forall d k [cbt d k]. k <= 0 -> cbt d k = 0
axiom cbt_s : forall d k [cbt d k]. 0 < k -> cbt d k = cbt d (k-1) + (if get_b d (k-1) then 1 else 0)
"""
CBT_AX = CBT + """
axiom cbt_bounds : forall d k [cbt d k]. 0 <= k -> 0 <= cbt d k <= k
axiom cbt_set : forall d i k [cbt (set_b d i true) k]. 0 <= i < k <= len_b d -> not get_b d i -> cbt (set_b d i true) k = cbt d k + 1
axiom cbt_zero : forall d k. (forall i. 0 <= i < k -> not get_b d i) -> cbt d k = 0
axiom cbt_all : forall d k. 0 <= k -> (forall i. 0 <= i < k -> get_b d i) -> cbt d k = k
axiom cbt_one : forall d k. 0 <= k -> cbt d k = k -> forall i. 0 <= i < k -> get_b d i
"""
CBT_PROOF = CBT + """
let rec lemma cbt_bounds (d: seq_b) (k: int)
  requires { 0 <= k }
  ensures { 0 <= cbt d k <= k }
  variant { k }
= if k > 0 then cbt_bounds d (k-1)
let rec lemma cbt_ext (d e: seq_b) (k: int)
  requires { forall i. 0 <= i < k -> get_b d i = get_b e i }
  ensures { cbt d k = cbt e k }
  variant { if k < 0 then 0 else k }
= if k > 0 then cbt_ext d e (k-1)
let rec lemma cbt_set (d: seq_b) (i k: int)
  requires { 0 <= i < k <= len_b d /\\ not get_b d i }
  ensures { cbt (set_b d i true) k = cbt d k + 1 }
  variant { k }
= if k - 1 = i then cbt_ext (set_b d i true) d (k-1) else cbt_set d i (k-1)
let rec lemma cbt_zero (d: seq_b) (k: int)
  requires { forall i. 0 <= i < k -> not get_b d i }
  ensures { cbt d k = 0 }
  variant { if k < 0 then 0 else k }
= if k > 0 then cbt_zero d (k-1)
let rec lemma cbt_all (d: seq_b) (k: int)
  requires { 0 <= k /\\ forall i. 0 <= i < k -> get_b d i }
  ensures { cbt d k = k }
  variant { k }
= if k > 0 then cbt_all d (k-1)
let rec lemma cbt_one (d: seq_b) (k: int)
  requires { 0 <= k /\\ cbt d k = k }
  ensures { forall i. 0 <= i < k -> get_b d i }
  variant { k }
= if k > 0 then begin cbt_bounds d (k-1); cbt_one d (k-1) end
"""
CBT_LEMMA = lemma("count_bits", seq_theory() + SEQ_B + CBT_PROOF)

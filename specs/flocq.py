"""IEEE-754 facts that bit-blasting cannot decide, proved with Flocq (binary64, round to nearest even) by coqc on every run.
val x: the real value of a finite double. Each entry: name -> (why3 axiom, Coq statement and proof script)."""
HEAD = """(*coq*)
From Coq Require Import Reals ZArith Lra Lia.
From Flocq Require Import Core BinarySingleNaN Binary Bits.
Open Scope R_scope.
Notation F := (binary_float 53 1024).
Notation mul := (Bmult 53 1024 eq_refl eq_refl binop_nan_pl64 mode_NE).
Notation div := (Bdiv 53 1024 eq_refl eq_refl binop_nan_pl64 mode_NE).
Notation val := (B2R 53 1024).
Notation fin x := (is_finite 53 1024 x = true).
#[export] Instance Vexp : Valid_exp (SpecFloat.fexp 53 1024).
Proof. apply fexp_correct. reflexivity. Qed.
"""
FACTS = {
    "mul_le": ("axiom fp_mul_le : forall x y [d_mul x y]. d_is_num x -> d_finite y -> d_rk d_zero <= d_rk x <= d_rk (d_of_int 1) -> d_rk d_zero <= d_rk y -> d_finite (d_mul x y) /\\ d_rk d_zero <= d_rk (d_mul x y) <= d_rk y",
               r"""Lemma fact : forall x y : F, fin x -> fin y -> 0 <= val x <= 1 -> 0 <= val y -> fin (mul x y) /\ 0 <= val (mul x y) <= val y.
Proof.
intros x y Fx Fy Hx Hy.
generalize (Bmult_correct 53 1024 eq_refl eq_refl binop_nan_pl64 mode_NE x y).
cbv zeta.
assert (H: 0 <= round radix2 (SpecFloat.fexp 53 1024) (round_mode mode_NE) (val x * val y) <= val y).
{ split.
  - apply round_ge_generic; auto with typeclass_instances. apply generic_format_0. apply Rmult_le_pos; lra.
  - apply round_le_generic; auto with typeclass_instances. apply generic_format_B2R.
    rewrite <- (Rmult_1_l (val y)) at 2. apply Rmult_le_compat_r; lra. }
rewrite Rlt_bool_true.
- intros (E & Fi & _). rewrite E, Fi, Fx, Fy. simpl. split; auto.
- rewrite Rabs_pos_eq by lra. apply Rle_lt_trans with (1 := proj2 H).
  apply Rle_lt_trans with (Rabs (val y)). apply Rle_abs. apply abs_B2R_lt_emax.
Qed.
"""),
    "div_unit": ("axiom fp_div_unit : forall x y [d_div x y]. d_finite x -> d_finite y -> d_rk d_zero <= d_rk x <= d_rk y -> d_rk d_zero < d_rk y -> d_finite (d_div x y) /\\ d_rk d_zero <= d_rk (d_div x y) <= d_rk (d_of_int 1)",
               r"""Lemma fact : forall x y : F, fin x -> fin y -> 0 <= val x <= val y -> 0 < val y -> fin (div x y) /\ 0 <= val (div x y) <= 1.
Proof.
intros x y Fx Fy Hx Hy.
generalize (Bdiv_correct 53 1024 eq_refl eq_refl binop_nan_pl64 mode_NE x y ltac:(lra)).
cbv zeta.
assert (Q: 0 <= val x / val y <= 1).
{ assert (Hi: 0 < / val y) by (apply Rinv_0_lt_compat; lra). split.
  - apply Rmult_le_pos; lra.
  - unfold Rdiv. rewrite <- (Rinv_r (val y)) by lra. apply Rmult_le_compat_r; lra. }
assert (H: 0 <= round radix2 (SpecFloat.fexp 53 1024) (round_mode mode_NE) (val x / val y) <= 1).
{ split.
  - apply round_ge_generic; auto with typeclass_instances. apply generic_format_0. lra.
  - apply round_le_generic; auto with typeclass_instances.
    change 1 with (bpow radix2 0). apply generic_format_bpow. simpl. vm_compute. discriminate. lra. }
rewrite Rlt_bool_true.
- intros (E & Fi & _). rewrite E, Fi, Fx. split; auto.
- rewrite Rabs_pos_eq by lra. apply Rle_lt_trans with (1 := proj2 H).
  change 1 with (bpow radix2 0). apply bpow_lt. reflexivity.
Qed.
"""),
    "rand_range": ("axiom fp_rand_range : forall a b r [d_add a (d_mul (d_sub b a) r)]. d_finite a -> d_finite b -> d_finite (d_sub b a) -> d_rk a <= d_rk b -> d_is_num r -> d_rk d_zero <= d_rk r < d_rk (d_of_int 1) -> d_finite (d_add a (d_mul (d_sub b a) r)) /\\ d_rk a <= d_rk (d_add a (d_mul (d_sub b a) r)) <= d_rk b",
               r"""From Flocq Require Import Plus_error.
Open Scope R_scope.
Notation add := (Bplus 53 1024 eq_refl eq_refl binop_nan_pl64 mode_NE).
Notation sub := (Bminus 53 1024 eq_refl eq_refl binop_nan_pl64 mode_NE).
Notation fexp := (SpecFloat.fexp 53 1024).
Notation rnd := (round radix2 fexp ZnearestE).
Notation fmt := (generic_format radix2 fexp).
Lemma real_fact : forall a b r : R, fmt a -> fmt b -> fmt r -> a <= b -> 0 <= r -> r < 1 -> 0 <= rnd (rnd (b - a) * r) <= b - a.
Proof.
intros a b r Ga Gb Gr Hab Hr0 Hr1.
set (d := rnd (b - a)).
assert (Hd0: 0 <= d). { apply round_ge_generic; auto with typeclass_instances. apply generic_format_0. lra. }
assert (Gd: fmt d). { apply generic_format_round; auto with typeclass_instances. }
split.
{ apply round_ge_generic; auto with typeclass_instances. apply generic_format_0. apply Rmult_le_pos; lra. }
destruct (Rle_or_lt (b - a) (bpow radix2 (-1021))) as [Hs|Hbig].
- (* the difference is exact *)
  assert (E: d = b - a).
  { apply round_generic; auto with typeclass_instances. unfold Rminus.
    change fexp with (FLT_exp (-1074) 53).
    apply FLT_format_plus_small; auto.
    - reflexivity.
    - apply generic_format_opp. exact Ga.
    - replace (b + - a) with (b - a) by ring. rewrite Rabs_pos_eq by lra. exact Hs. }
  rewrite <- E. apply round_le_generic; auto with typeclass_instances.
  rewrite <- (Rmult_1_r d) at 2. apply Rmult_le_compat_l; lra.
- (* r <= 1 - 2^-53 *)
  assert (Hr: r <= 1 - bpow radix2 (-53)).
  { assert (P: pred radix2 fexp 1 = 1 - bpow radix2 (-53)).
    { change 1 with (bpow radix2 0) at 1. rewrite pred_bpow. simpl. reflexivity. }
    rewrite <- P. apply pred_ge_gt; auto with typeclass_instances. change 1 with (bpow radix2 0). apply generic_format_bpow. vm_compute. discriminate. }
  assert (Hdbig: bpow radix2 (-1021) <= d).
  { apply round_ge_generic; auto with typeclass_instances. apply generic_format_bpow. vm_compute. discriminate. lra. }
  set (p := pred radix2 fexp d).
  assert (Gp: fmt p). { apply generic_format_pred; auto with typeclass_instances. }
  assert (Hp: p <= b - a).
  { destruct (Rle_or_lt p (b - a)) as [H|H]; auto. exfalso.
    assert (d <= p). { apply round_le_generic; auto with typeclass_instances. lra. }
    assert (p < d). { apply pred_lt_id. assert (0 < bpow radix2 (-1021)) by apply bpow_gt_0. lra. }
    lra. }
  apply Rle_trans with (2 := Hp).
  assert (Hpn: bpow radix2 (-1022) <= p).
  { apply pred_ge_gt; auto with typeclass_instances. apply generic_format_bpow. vm_compute. discriminate.
    apply Rlt_le_trans with (2 := Hdbig). apply bpow_lt. reflexivity. }
  apply round_N_le_midp; auto with typeclass_instances.
  assert (Hpos: 0 < p). { apply Rlt_le_trans with (2 := Hpn). apply bpow_gt_0. }
  assert (S: succ radix2 fexp p = d). { apply succ_pred; auto with typeclass_instances. }
  assert (U: ulp radix2 fexp p <= Rabs p * bpow radix2 (1 - 53)).
  { change fexp with (FLT_exp (-1074) 53). apply ulp_FLT_le. rewrite Rabs_pos_eq by lra. exact Hpn. }
  rewrite Rabs_pos_eq in U by lra.
  assert (D: d = p + ulp radix2 fexp p). { rewrite <- S. apply succ_eq_pos. lra. }
  change (1 - 53)%Z with (-52)%Z in U.
  assert (B: bpow radix2 (-52) = 2 * bpow radix2 (-53)). { simpl. lra. }
  assert (P53: 0 < bpow radix2 (-53)) by apply bpow_gt_0.
  rewrite B in U. rewrite S. set (e := bpow radix2 (-53)) in *. set (u := ulp radix2 fexp p) in *.
  assert (M: d * r <= d * (1 - e)). { apply Rmult_le_compat_l; lra. }
  assert (pu: 0 < u). { assert (p < d). { apply pred_lt_id. assert (0 < bpow radix2 (-1021)) by apply bpow_gt_0. lra. } lra. }
  assert (u <= 2 * (p * e)) by lra.
  assert (p * e < d * e). { apply Rmult_lt_compat_r; lra. }
  lra.
Qed.
Lemma fact : forall a b r : F, fin a -> fin b -> fin r -> fin (sub b a) -> val a <= val b -> 0 <= val r -> val r < 1 ->
  fin (add a (mul (sub b a) r)) /\ val a <= val (add a (mul (sub b a) r)) <= val b.
Proof.
intros a b r Fa Fb Fr Fs Hab Hr0 Hr1.
assert (Ga := generic_format_B2R 53 1024 a). assert (Gb := generic_format_B2R 53 1024 b). assert (Gr := generic_format_B2R 53 1024 r).
assert (H := real_fact _ _ _ Ga Gb Gr Hab Hr0 Hr1).
assert (Es: val (sub b a) = rnd (val b - val a)).
{ generalize (Bminus_correct 53 1024 eq_refl eq_refl binop_nan_pl64 mode_NE b a Fb Fa).
  destruct Rlt_bool. intros (E & _). exact E.
  intros (E & _). exfalso. revert E Fs. unfold BinarySingleNaN.binary_overflow. destruct (sub b a); simpl; intros; try discriminate. }
assert (Bd: forall x : F, Rabs (val x) < bpow radix2 1024) by (intros; apply abs_B2R_lt_emax).
assert (Em: val (mul (sub b a) r) = rnd (rnd (val b - val a) * val r) /\ fin (mul (sub b a) r)).
{ generalize (Bmult_correct 53 1024 eq_refl eq_refl binop_nan_pl64 mode_NE (sub b a) r). cbv zeta. rewrite Es.
  rewrite Rlt_bool_true. rewrite Fs, Fr. intros (E & Fi & _). auto.
  change (round_mode mode_NE) with ZnearestE. rewrite Rabs_pos_eq by lra.
  apply Rle_lt_trans with (rnd (val b - val a)).
  - apply round_le_generic; auto with typeclass_instances. apply generic_format_round; auto with typeclass_instances.
    assert (0 <= rnd (val b - val a)). { apply round_ge_generic; auto with typeclass_instances. apply generic_format_0. lra. }
    rewrite <- (Rmult_1_r (rnd _)) at 2. apply Rmult_le_compat_l; lra.
  - rewrite <- Es. apply Rle_lt_trans with (1 := Rle_abs _). apply Bd. }
destruct Em as [Em Fm].
generalize (Bplus_correct 53 1024 eq_refl eq_refl binop_nan_pl64 mode_NE a (mul (sub b a) r) Fa Fm).
rewrite Em. change (round_mode mode_NE) with ZnearestE.
assert (R: val a <= rnd (val a + rnd (rnd (val b - val a) * val r)) <= val b).
{ split. apply round_ge_generic; auto with typeclass_instances. lra. apply round_le_generic; auto with typeclass_instances. lra. }
rewrite Rlt_bool_true.
- intros (E & Fi & _). rewrite E, Fi. auto.
- assert (A := Bd a). assert (B := Bd b). apply Rabs_lt. apply Rabs_lt_inv in A. apply Rabs_lt_inv in B. lra.
Qed.
"""),
    "sqrt_pos": ("axiom fp_sqrt_pos : forall x [d_sqrt x]. d_finite x -> d_rk d_zero <= d_rk x -> d_finite (d_sqrt x) /\\ d_rk d_zero <= d_rk (d_sqrt x)",
               r"""Notation sq := (Bsqrt 53 1024 eq_refl eq_refl unop_nan_pl64 mode_NE).
Lemma fact : forall x : F, fin x -> 0 <= val x -> fin (sq x) /\ 0 <= val (sq x).
Proof.
intros x Fx Hx.
destruct (Bsqrt_correct 53 1024 eq_refl eq_refl unop_nan_pl64 mode_NE x) as (E & Fi & _).
split.
- rewrite Fi. destruct x as [s|s|s pl|s m e H]; try reflexivity; try discriminate Fx. destruct s; [|reflexivity].
  exfalso. revert Hx. unfold B2R. intros Hx.
  assert (F2R (Float radix2 (cond_Zopp true (Zpos m)) e) < 0) by (apply F2R_lt_0; reflexivity). lra.
- rewrite E. apply round_ge_generic; auto with typeclass_instances. apply generic_format_0. apply sqrt_ge_0.
Qed.
"""),
    "sub_abs_sym": ("axiom fp_sub_abs_sym : forall x y [d_abs (d_sub x y)]. d_finite x -> d_finite y -> (d_finite (d_sub x y) <-> d_finite (d_sub y x)) /\\ (d_finite (d_sub x y) -> d_rk (d_abs (d_sub x y)) = d_rk (d_abs (d_sub y x)))",
               r"""Notation sub := (Bminus 53 1024 eq_refl eq_refl binop_nan_pl64 mode_NE).
Lemma opp_r : forall x, round radix2 (SpecFloat.fexp 53 1024) (round_mode mode_NE) (- x) = - round radix2 (SpecFloat.fexp 53 1024) (round_mode mode_NE) x.
Proof. intros. apply round_NE_opp. Qed.
Lemma fact : forall x y : F, fin x -> fin y -> (fin (sub x y) <-> fin (sub y x)) /\ (fin (sub x y) -> Rabs (val (sub x y)) = Rabs (val (sub y x))).
Proof.
intros x y Fx Fy.
generalize (Bminus_correct 53 1024 eq_refl eq_refl binop_nan_pl64 mode_NE x y Fx Fy).
generalize (Bminus_correct 53 1024 eq_refl eq_refl binop_nan_pl64 mode_NE y x Fy Fx).
replace (val y - val x) with (- (val x - val y)) by ring.
rewrite opp_r, Rabs_Ropp.
destruct (Rlt_bool _ _).
- intros (A & B & _) (C & D & _). rewrite A, B, C, D, Rabs_Ropp. tauto.
- intros (A & _) (C & _).
  assert (N: forall z b, B2FF 53 1024 z = binary_overflow 53 1024 mode_NE b -> is_finite 53 1024 z = false).
  { intros z b. destruct z; simpl; try discriminate; reflexivity. }
  rewrite (N _ _ A), (N _ _ C). split. tauto. discriminate.
Qed.
"""),
    "mono": ("axiom fp_mul_mono : forall x y c [d_mul x c, d_mul y c]. d_is_num x -> d_is_num y -> d_finite c -> d_rk d_zero < d_rk c -> d_rk x <= d_rk y -> d_is_num (d_mul x c) /\\ d_is_num (d_mul y c) /\\ d_rk (d_mul x c) <= d_rk (d_mul y c)\naxiom fp_mul_mono2 : forall x y c [d_mul c x, d_mul c y]. d_is_num x -> d_is_num y -> d_finite c -> d_rk d_zero < d_rk c -> d_rk x <= d_rk y -> d_is_num (d_mul c x) /\\ d_is_num (d_mul c y) /\\ d_rk (d_mul c x) <= d_rk (d_mul c y)\naxiom fp_div_mono : forall x y c [d_div x c, d_div y c]. d_is_num x -> d_is_num y -> d_finite c -> d_rk d_zero < d_rk c -> d_rk x <= d_rk y -> d_is_num (d_div x c) /\\ d_is_num (d_div y c) /\\ d_rk (d_div x c) <= d_rk (d_div y c)\naxiom fp_add_mono : forall x y c [d_add x c, d_add y c]. d_is_num x -> d_is_num y -> d_finite c -> d_rk x <= d_rk y -> d_is_num (d_add x c) /\\ d_is_num (d_add y c) /\\ d_rk (d_add x c) <= d_rk (d_add y c)\naxiom fp_add_mono2 : forall x y c [d_add c x, d_add c y]. d_is_num x -> d_is_num y -> d_finite c -> d_rk x <= d_rk y -> d_is_num (d_add c x) /\\ d_is_num (d_add c y) /\\ d_rk (d_add c x) <= d_rk (d_add c y)\naxiom fp_sub_mono : forall x y c [d_sub x c, d_sub y c]. d_is_num x -> d_is_num y -> d_finite c -> d_rk x <= d_rk y -> d_is_num (d_sub x c) /\\ d_is_num (d_sub y c) /\\ d_rk (d_sub x c) <= d_rk (d_sub y c)",
               r"""Notation add := (Bplus 53 1024 eq_refl eq_refl binop_nan_pl64 mode_NE).
Notation sub := (Bminus 53 1024 eq_refl eq_refl binop_nan_pl64 mode_NE).
Notation isnan x := (is_nan 53 1024 x = true).
Notation rnd := (round radix2 (SpecFloat.fexp 53 1024) (round_mode mode_NE)).
(* the rounded result z of the real number r, as an extended number: finite and rounded, or the infinity of the sign of r *)
Definition res (r : R) (z : F) := (fin z /\ val z = rnd r /\ Rabs (rnd r) < bpow radix2 1024) \/ (bpow radix2 1024 <= rnd r /\ z = B754_infinity 53 1024 false) \/ (rnd r <= - bpow radix2 1024 /\ z = B754_infinity 53 1024 true).
Definition le (x y : F) := (fin x /\ fin y /\ val x <= val y) \/ x = B754_infinity 53 1024 true \/ y = B754_infinity 53 1024 false.
Lemma mono : forall r s x y, r <= s -> res r x -> res s y -> ~ isnan x /\ ~ isnan y /\ le x y.
Proof.
intros r s x y H [(A & B & C)|[(B & C)|(B & C)]] [(D & E & G)|[(E & G)|(E & G)]];
assert (K: rnd r <= rnd s) by (apply round_le; auto with typeclass_instances; apply valid_rnd_round_mode);
assert (P := bpow_gt_0 radix2 1024);
(split; [|split]); try (subst; simpl; discriminate);
try (intro N; destruct x; simpl in *; discriminate); try (intro N; destruct y; simpl in *; discriminate);
unfold le; auto; try (left; split; [|split]; auto; rewrite B, E; exact K);
try (exfalso; apply Rabs_lt_inv in C || apply Rabs_lt_inv in G; lra); try (exfalso; lra).
Qed.
Lemma ovf : forall r z s, (rnd r <= 0 -> s = true) -> (0 <= rnd r -> s = false) -> Rlt_bool (Rabs (rnd r)) (bpow radix2 1024) = false -> B2FF 53 1024 z = binary_overflow 53 1024 mode_NE s -> res r z.
Proof.
intros r z s Hn Hp Hb Hz. right.
generalize (Rlt_bool_spec (Rabs (rnd r)) (bpow radix2 1024)). rewrite Hb. intro L. inversion_clear L.
assert (P := bpow_gt_0 radix2 1024).
unfold binary_overflow in Hz. simpl in Hz.
destruct (Rle_or_lt 0 (rnd r)).
- left. split. rewrite Rabs_pos_eq in H; auto. rewrite (Hp H0) in Hz. destruct z; simpl in Hz; try discriminate. inversion Hz. reflexivity.
- right. split. rewrite Rabs_left in H; lra. rewrite (Hn (Rlt_le _ _ H0)) in Hz. destruct z; simpl in Hz; try discriminate. inversion Hz. reflexivity.
Qed.
Lemma nz : forall r, Rlt_bool (Rabs (rnd r)) (bpow radix2 1024) = false -> rnd r <> 0.
Proof. intros r H E. rewrite E, Rabs_R0, Rlt_bool_true in H. discriminate. apply bpow_gt_0. Qed.
Lemma sgn : forall r (s : bool), Rlt_bool (Rabs (rnd r)) (bpow radix2 1024) = false -> (s = true -> r <= 0) -> (s = false -> 0 <= r) -> (rnd r <= 0 -> s = true) /\ (0 <= rnd r -> s = false).
Proof.
intros r s Hb Hn Hp. assert (N := nz r Hb).
assert (A: r <= 0 -> rnd r <= 0). { intro. apply round_le_generic; auto with typeclass_instances. apply generic_format_0. }
assert (B: 0 <= r -> 0 <= rnd r). { intro. apply round_ge_generic; auto with typeclass_instances. apply generic_format_0. }
destruct s; split; intro H; auto; exfalso; [assert (r <= 0) by auto | assert (0 <= r) by auto]; lra.
Qed.
Lemma bsign : forall x : F, fin x -> (Bsign 53 1024 x = true -> val x <= 0) /\ (Bsign 53 1024 x = false -> 0 <= val x).
Proof.
intros x Fx. destruct x as [s|s|s pl|s m e H]; try discriminate; simpl; split; intro E; try lra; subst.
- apply F2R_le_0. simpl. discriminate.
- apply F2R_ge_0. simpl. discriminate.
Qed.
Lemma res_mul : forall x c : F, fin x -> fin c -> res (val x * val c) (mul x c).
Proof.
intros x c Fx Fc. generalize (Bmult_correct 53 1024 eq_refl eq_refl binop_nan_pl64 mode_NE x c). cbv zeta.
case_eq (Rlt_bool (Rabs (rnd (val x * val c))) (bpow radix2 1024)); intros Hb.
- intros (E & Fi & _). left. split. rewrite Fi, Fx, Fc. reflexivity. split; auto.
  generalize (Rlt_bool_spec (Rabs (rnd (val x * val c))) (bpow radix2 1024)). rewrite Hb. intro L. inversion_clear L. auto.
- intros E. destruct (bsign x Fx) as [A B], (bsign c Fc) as [C D].
  destruct (sgn (val x * val c) (xorb (Bsign 53 1024 x) (Bsign 53 1024 c)) Hb) as [S T].
  + intro K. destruct (Bsign 53 1024 x), (Bsign 53 1024 c); try discriminate K; [assert (U := A eq_refl); assert (V := D eq_refl) | assert (U := B eq_refl); assert (V := C eq_refl)]; nra.
  + intro K. destruct (Bsign 53 1024 x), (Bsign 53 1024 c); try discriminate K; [assert (U := A eq_refl); assert (V := C eq_refl) | assert (U := B eq_refl); assert (V := D eq_refl)]; nra.
  + apply (ovf _ _ _ S T Hb E).
Qed.
Lemma res_div : forall x c : F, fin x -> fin c -> val c <> 0 -> res (val x / val c) (div x c).
Proof.
intros x c Fx Fc Nc. generalize (Bdiv_correct 53 1024 eq_refl eq_refl binop_nan_pl64 mode_NE x c Nc). cbv zeta.
case_eq (Rlt_bool (Rabs (rnd (val x / val c))) (bpow radix2 1024)); intros Hb.
- intros (E & Fi & _). left. split. rewrite Fi, Fx. reflexivity. split; auto.
  generalize (Rlt_bool_spec (Rabs (rnd (val x / val c))) (bpow radix2 1024)). rewrite Hb. intro L. inversion_clear L. auto.
- intros E. destruct (bsign x Fx) as [A B], (bsign c Fc) as [C D].
  assert (I: 0 < val c -> 0 < / val c) by apply Rinv_0_lt_compat.
  assert (J: val c < 0 -> / val c < 0) by apply Rinv_lt_0_compat.
  destruct (sgn (val x / val c) (xorb (Bsign 53 1024 x) (Bsign 53 1024 c)) Hb) as [S T]; unfold Rdiv in *.
  + intro K. destruct (Bsign 53 1024 x), (Bsign 53 1024 c); try discriminate K; [assert (U := A eq_refl); assert (V := D eq_refl); assert (W: 0 < / val c) by (apply I; lra) | assert (U := B eq_refl); assert (V := C eq_refl); assert (W: / val c < 0) by (apply J; lra)]; nra.
  + intro K. destruct (Bsign 53 1024 x), (Bsign 53 1024 c); try discriminate K; [assert (U := A eq_refl); assert (V := C eq_refl); assert (W: / val c < 0) by (apply J; lra) | assert (U := B eq_refl); assert (V := D eq_refl); assert (W: 0 < / val c) by (apply I; lra)]; nra.
  + apply (ovf _ _ _ S T Hb E).
Qed.
Lemma res_add : forall x c : F, fin x -> fin c -> res (val x + val c) (add x c).
Proof.
intros x c Fx Fc. generalize (Bplus_correct 53 1024 eq_refl eq_refl binop_nan_pl64 mode_NE x c Fx Fc).
case_eq (Rlt_bool (Rabs (rnd (val x + val c))) (bpow radix2 1024)); intros Hb.
- intros (E & Fi & _). left. split. auto. split; auto.
  generalize (Rlt_bool_spec (Rabs (rnd (val x + val c))) (bpow radix2 1024)). rewrite Hb. intro L. inversion_clear L. auto.
- intros (E & Es). destruct (bsign x Fx) as [A B], (bsign c Fc) as [C D]. rewrite <- Es in C, D.
  destruct (sgn (val x + val c) (Bsign 53 1024 x) Hb) as [S T].
  + intro K. assert (U := A K). assert (V := C K). lra.
  + intro K. assert (U := B K). assert (V := D K). lra.
  + apply (ovf _ _ _ S T Hb E).
Qed.
Lemma res_sub : forall x c : F, fin x -> fin c -> res (val x - val c) (sub x c).
Proof.
intros x c Fx Fc. generalize (Bminus_correct 53 1024 eq_refl eq_refl binop_nan_pl64 mode_NE x c Fx Fc).
case_eq (Rlt_bool (Rabs (rnd (val x - val c))) (bpow radix2 1024)); intros Hb.
- intros (E & Fi & _). left. split. auto. split; auto.
  generalize (Rlt_bool_spec (Rabs (rnd (val x - val c))) (bpow radix2 1024)). rewrite Hb. intro L. inversion_clear L. auto.
- intros (E & Es). destruct (bsign x Fx) as [A B], (bsign c Fc) as [C D].
  destruct (sgn (val x - val c) (Bsign 53 1024 x) Hb) as [S T].
  + intro K. assert (U := A K). rewrite K in Es. destruct (Bsign 53 1024 c); try discriminate. assert (V := D eq_refl). lra.
  + intro K. assert (U := B K). rewrite K in Es. destruct (Bsign 53 1024 c); try discriminate. assert (V := C eq_refl). lra.
  + apply (ovf _ _ _ S T Hb E).
Qed.

Lemma ext : forall (op : F -> F), (forall x, fin x -> ~ isnan (op x)) -> op (B754_infinity 53 1024 true) = B754_infinity 53 1024 true -> op (B754_infinity 53 1024 false) = B754_infinity 53 1024 false ->
  (forall x y, fin x -> fin y -> val x <= val y -> ~ isnan (op x) /\ ~ isnan (op y) /\ le (op x) (op y)) ->
  forall x y : F, ~ isnan x -> ~ isnan y -> le x y -> ~ isnan (op x) /\ ~ isnan (op y) /\ le (op x) (op y).
Proof.
intros op Hn Hm Hp Hf x y Nx Ny [(A & B & C)|[A|A]].
- auto.
- subst. rewrite Hm. split; [simpl; discriminate|]. split; [|right; left; reflexivity].
  destruct y as [s|s|s pl|s m e H]; try (apply Hn; reflexivity); try (destruct s; rewrite ?Hm, ?Hp; simpl; discriminate). exfalso. apply Ny. reflexivity.
- subst. rewrite Hp. split; [|split; [simpl; discriminate|right; right; reflexivity]].
  destruct x as [s|s|s pl|s m e H]; try (apply Hn; reflexivity); try (destruct s; rewrite ?Hm, ?Hp; simpl; discriminate). exfalso. apply Nx. reflexivity.
Qed.
Lemma le_refl : forall x : F, fin x -> val x <= val x. Proof. intros. lra. Qed.
Lemma posfin : forall c : F, fin c -> 0 < val c -> exists m e H, c = B754_finite 53 1024 false m e H.
Proof.
intros c Fc Hc. destruct c as [s|s|s pl|s m e H]; try discriminate; simpl in Hc; try lra.
destruct s; eauto. exfalso. refine (Rlt_irrefl _ (Rlt_trans _ _ _ Hc _)). apply F2R_lt_0. reflexivity.
Qed.
Lemma mul_mono : forall c, fin c -> 0 < val c -> forall x y : F, ~ isnan x -> ~ isnan y -> le x y -> ~ isnan (mul x c) /\ ~ isnan (mul y c) /\ le (mul x c) (mul y c).
Proof.
intros c Fc Hc. assert (L: forall x y : F, fin x -> fin y -> val x <= val y -> ~ isnan (mul x c) /\ ~ isnan (mul y c) /\ le (mul x c) (mul y c)).
{ intros. apply mono with (2 := res_mul x c H Fc) (3 := res_mul y c H0 Fc). apply Rmult_le_compat_r; lra. }
apply (ext (fun x => mul x c)); auto; try (destruct (posfin c Fc Hc) as (m & e & H & E); subst; reflexivity).
intros x Fx. apply (L x x Fx Fx (le_refl x Fx)).
Qed.
Lemma mul_mono2 : forall c, fin c -> 0 < val c -> forall x y : F, ~ isnan x -> ~ isnan y -> le x y -> ~ isnan (mul c x) /\ ~ isnan (mul c y) /\ le (mul c x) (mul c y).
Proof.
intros c Fc Hc. assert (L: forall x y : F, fin x -> fin y -> val x <= val y -> ~ isnan (mul c x) /\ ~ isnan (mul c y) /\ le (mul c x) (mul c y)).
{ intros. apply mono with (2 := res_mul c x Fc H) (3 := res_mul c y Fc H0). apply Rmult_le_compat_l; lra. }
apply (ext (fun x => mul c x)); auto; try (destruct (posfin c Fc Hc) as (m & e & H & E); subst; reflexivity).
intros x Fx. apply (L x x Fx Fx (le_refl x Fx)).
Qed.
Lemma div_mono : forall c, fin c -> 0 < val c -> forall x y : F, ~ isnan x -> ~ isnan y -> le x y -> ~ isnan (div x c) /\ ~ isnan (div y c) /\ le (div x c) (div y c).
Proof.
intros c Fc Hc. assert (L: forall x y : F, fin x -> fin y -> val x <= val y -> ~ isnan (div x c) /\ ~ isnan (div y c) /\ le (div x c) (div y c)).
{ intros. apply mono with (2 := res_div x c H Fc ltac:(lra)) (3 := res_div y c H0 Fc ltac:(lra)). unfold Rdiv. assert (0 < / val c) by (apply Rinv_0_lt_compat; lra). apply Rmult_le_compat_r; lra. }
apply (ext (fun x => div x c)); auto; try (destruct (posfin c Fc Hc) as (m & e & H & E); subst; reflexivity).
intros x Fx. apply (L x x Fx Fx (le_refl x Fx)).
Qed.
Lemma add_mono : forall c, fin c -> forall x y : F, ~ isnan x -> ~ isnan y -> le x y -> ~ isnan (add x c) /\ ~ isnan (add y c) /\ le (add x c) (add y c).
Proof.
intros c Fc. assert (L: forall x y : F, fin x -> fin y -> val x <= val y -> ~ isnan (add x c) /\ ~ isnan (add y c) /\ le (add x c) (add y c)).
{ intros. apply mono with (2 := res_add x c H Fc) (3 := res_add y c H0 Fc). lra. }
apply (ext (fun x => add x c)); auto; try (destruct c; try discriminate; reflexivity).
intros x Fx. apply (L x x Fx Fx (le_refl x Fx)).
Qed.
Lemma add_mono2 : forall c, fin c -> forall x y : F, ~ isnan x -> ~ isnan y -> le x y -> ~ isnan (add c x) /\ ~ isnan (add c y) /\ le (add c x) (add c y).
Proof.
intros c Fc. assert (L: forall x y : F, fin x -> fin y -> val x <= val y -> ~ isnan (add c x) /\ ~ isnan (add c y) /\ le (add c x) (add c y)).
{ intros. apply mono with (2 := res_add c x Fc H) (3 := res_add c y Fc H0). lra. }
apply (ext (fun x => add c x)); auto; try (destruct c; try discriminate; reflexivity).
intros x Fx. apply (L x x Fx Fx (le_refl x Fx)).
Qed.
Lemma sub_mono : forall c, fin c -> forall x y : F, ~ isnan x -> ~ isnan y -> le x y -> ~ isnan (sub x c) /\ ~ isnan (sub y c) /\ le (sub x c) (sub y c).
Proof.
intros c Fc. assert (L: forall x y : F, fin x -> fin y -> val x <= val y -> ~ isnan (sub x c) /\ ~ isnan (sub y c) /\ le (sub x c) (sub y c)).
{ intros. apply mono with (2 := res_sub x c H Fc) (3 := res_sub y c H0 Fc). lra. }
apply (ext (fun x => sub x c)); auto; try (destruct c; try discriminate; reflexivity).
intros x Fx. apply (L x x Fx Fx (le_refl x Fx)).
Qed.
Definition fact := (mul_mono, mul_mono2, div_mono, add_mono, add_mono2, sub_mono).
"""),
    "int_arith": ("axiom fp_int_sub : forall n m: int [d_sub (d_of_int n) (d_of_int m)]. -9007199254740992 <= n <= 9007199254740992 -> -9007199254740992 <= m <= 9007199254740992 -> -9007199254740992 <= n - m <= 9007199254740992 -> d_finite (d_sub (d_of_int n) (d_of_int m)) /\\ d_rk (d_sub (d_of_int n) (d_of_int m)) = d_rk (d_of_int (n - m))\naxiom fp_int_add : forall n m: int [d_add (d_of_int n) (d_of_int m)]. -9007199254740992 <= n <= 9007199254740992 -> -9007199254740992 <= m <= 9007199254740992 -> -9007199254740992 <= n + m <= 9007199254740992 -> d_finite (d_add (d_of_int n) (d_of_int m)) /\\ d_rk (d_add (d_of_int n) (d_of_int m)) = d_rk (d_of_int (n + m))",
               r"""Notation sub := (Bminus 53 1024 eq_refl eq_refl binop_nan_pl64 mode_NE).
Notation add := (Bplus 53 1024 eq_refl eq_refl binop_nan_pl64 mode_NE).
Lemma int_format : forall n, (Z.abs n <= 2 ^ 53)%Z -> generic_format radix2 (SpecFloat.fexp 53 1024) (IZR n).
Proof.
intros n Hn. change (SpecFloat.fexp 53 1024) with (FLT_exp (-1074) 53).
destruct (Z_le_lt_eq_dec _ _ Hn) as [L|E].
- apply generic_format_FLT. exists (Float radix2 n 0). unfold F2R; simpl; ring. exact L. simpl; lia.
- assert (H: (n = 2 ^ 53 \/ n = - 2 ^ 53)%Z) by lia. destruct H as [H|H]; subst n.
  + replace (IZR (2 ^ 53)) with (bpow radix2 53) by (simpl; reflexivity). apply generic_format_bpow. vm_compute. discriminate.
  + replace (IZR (- 2 ^ 53)) with (- bpow radix2 53) by (simpl; lra). apply generic_format_opp. apply generic_format_bpow. vm_compute. discriminate.
Qed.
Lemma int_bound : forall n, (Z.abs n <= 2 ^ 53)%Z -> Rabs (IZR n) < bpow radix2 1024.
Proof. intros n Hn. rewrite <- abs_IZR. apply Rle_lt_trans with (IZR (2 ^ 53)). apply IZR_le; auto. change (IZR (2 ^ 53)) with (bpow radix2 53). apply bpow_lt. reflexivity. Qed.
Lemma fact_sub : forall (x y : F) n m, fin x -> fin y -> val x = IZR n -> val y = IZR m -> (Z.abs (n - m) <= 2 ^ 53)%Z -> fin (sub x y) /\ val (sub x y) = IZR (n - m).
Proof.
intros x y n m Fx Fy Ex Ey H.
generalize (Bminus_correct 53 1024 eq_refl eq_refl binop_nan_pl64 mode_NE x y Fx Fy).
rewrite Ex, Ey, <- minus_IZR, round_generic; auto with typeclass_instances. 2: apply int_format; auto.
rewrite Rlt_bool_true by (apply int_bound; auto). intros (E & Fi & _). auto.
Qed.
Lemma fact_add : forall (x y : F) n m, fin x -> fin y -> val x = IZR n -> val y = IZR m -> (Z.abs (n + m) <= 2 ^ 53)%Z -> fin (add x y) /\ val (add x y) = IZR (n + m).
Proof.
intros x y n m Fx Fy Ex Ey H.
generalize (Bplus_correct 53 1024 eq_refl eq_refl binop_nan_pl64 mode_NE x y Fx Fy).
rewrite Ex, Ey, <- plus_IZR, round_generic; auto with typeclass_instances. 2: apply int_format; auto.
rewrite Rlt_bool_true by (apply int_bound; auto). intros (E & Fi & _). auto.
Qed.
Definition fact := (fact_sub, fact_add).
"""),
}

"""IEEE-754 facts over the abstract double theory (d_rk: order embedding of the non-NaN doubles into the integers).
Each fact is stated twice: as an axiom over `dbl`, and as an SMT floating-point formula (Float64, round to nearest even) that a solver must prove on every run."""

# (name, why3 axiom, smt: (vars, hypothesis list, conclusion))   in SMT: fin num le lt etc. are macros
FACTS = [
    ("add_num", "axiom fp_add_num : forall x y [d_add x y]. d_is_num x -> d_finite y -> d_is_num (d_add x y)", "x y", ["(num x)", "(fin y)"], "(num (add x y))"),
    ("add_num2", "axiom fp_add_num2 : forall x y [d_add x y]. d_finite x -> d_is_num y -> d_is_num (d_add x y)", "x y", ["(fin x)", "(num y)"], "(num (add x y))"),
    ("sub_num", "axiom fp_sub_num : forall x y [d_sub x y]. d_is_num x -> d_finite y -> d_is_num (d_sub x y)", "x y", ["(num x)", "(fin y)"], "(num (sub x y))"),
    ("sub_num2", "axiom fp_sub_num2 : forall x y [d_sub x y]. d_finite x -> d_is_num y -> d_is_num (d_sub x y)", "x y", ["(fin x)", "(num y)"], "(num (sub x y))"),
    ("mul_num", "axiom fp_mul_num : forall x y [d_mul x y]. d_finite x -> d_finite y -> d_is_num (d_mul x y)", "x y", ["(fin x)", "(fin y)"], "(num (mul x y))"),
    ("mul_num2", "axiom fp_mul_num2 : forall x y [d_mul x y]. d_is_num x -> d_finite y -> d_rk y <> d_rk d_zero -> d_is_num (d_mul x y)", "x y", ["(num x)", "(fin y)", "(not (eq y zero))"], "(num (mul x y))"),
    ("mul_num3", "axiom fp_mul_num3 : forall x y [d_mul x y]. d_is_num y -> d_finite x -> d_rk x <> d_rk d_zero -> d_is_num (d_mul x y)", "x y", ["(num y)", "(fin x)", "(not (eq x zero))"], "(num (mul x y))"),
    ("mul_unit", "axiom fp_mul_unit : forall x y [d_mul x y]. d_rk d_zero <= d_rk x <= d_rk (d_of_int 1) -> d_is_num x -> d_finite y -> d_finite (d_mul x y)", "x y", ["(le zero x)", "(le x one)", "(fin y)"], "(fin (mul x y))"),
    ("mul_pos", "axiom fp_mul_pos : forall x y [d_mul x y]. d_is_num (d_mul x y) -> d_is_num x -> d_is_num y -> d_rk d_zero <= d_rk x -> d_rk d_zero <= d_rk y -> d_rk d_zero <= d_rk (d_mul x y)", "x y", ["(num (mul x y))", "(le zero x)", "(le zero y)"], "(le zero (mul x y))"),
    ("div_num", "axiom fp_div_num : forall x y [d_div x y]. d_is_num x -> d_finite y -> d_rk y <> d_rk d_zero -> d_is_num (d_div x y)", "x y", ["(num x)", "(fin y)", "(not (eq y zero))"], "(num (div x y))"),
    ("div_pos", "axiom fp_div_pos : forall x y [d_div x y]. d_is_num x -> d_finite y -> d_rk d_zero <= d_rk x -> d_rk d_zero < d_rk y -> d_is_num (d_div x y) /\\ d_rk d_zero <= d_rk (d_div x y)", "x y", ["(num x)", "(fin y)", "(le zero x)", "(lt zero y)"], "(and (num (div x y)) (le zero (div x y)))"),
    ("sub_pos", "axiom fp_sub_pos : forall x y [d_sub x y]. d_finite x -> d_finite y -> d_rk y <= d_rk x -> d_rk d_zero <= d_rk (d_sub x y)", "x y", ["(fin x)", "(fin y)", "(le y x)"], "(le zero (sub x y))"),
    ("sub_neg", "axiom fp_sub_neg : forall x y [d_sub x y]. d_finite x -> d_finite y -> d_rk x <= d_rk y -> d_rk (d_sub x y) <= d_rk d_zero", "x y", ["(fin x)", "(fin y)", "(le x y)"], "(le (sub x y) zero)"),
    ("sub_spos", "axiom fp_sub_spos : forall x y [d_sub x y]. d_finite x -> d_finite y -> d_rk y < d_rk x -> d_rk d_zero < d_rk (d_sub x y)", "x y", ["(fin x)", "(fin y)", "(lt y x)"], "(lt zero (sub x y))"),
    ("sub_ord", "axiom fp_sub_ord : forall x y [d_sub x y]. d_is_num x -> d_is_num y -> d_is_num (d_sub x y) -> d_rk d_zero <= d_rk y -> d_rk (d_sub x y) <= d_rk x", "x y", ["(num x)", "(num (sub x y))", "(le zero y)"], "(le (sub x y) x)"),
    ("add_ord", "axiom fp_add_ord : forall x y [d_add x y]. d_is_num x -> d_is_num y -> d_is_num (d_add x y) -> d_rk d_zero <= d_rk y -> d_rk x <= d_rk (d_add x y)", "x y", ["(num x)", "(num (add x y))", "(le zero y)"], "(le x (add x y))"),
    ("add_pos", "axiom fp_add_pos : forall x y [d_add x y]. d_is_num (d_add x y) -> d_is_num x -> d_is_num y -> d_rk d_zero <= d_rk x -> d_rk d_zero <= d_rk y -> d_rk d_zero <= d_rk (d_add x y)", "x y", ["(num (add x y))", "(le zero x)", "(le zero y)"], "(le zero (add x y))"),
    ("one_minus", "axiom fp_one_minus : forall x [d_sub (d_of_int 1) x]. d_is_num x -> d_rk d_zero <= d_rk x <= d_rk (d_of_int 1) -> d_finite (d_sub (d_of_int 1) x) /\\ d_rk d_zero <= d_rk (d_sub (d_of_int 1) x) <= d_rk (d_of_int 1)", "x", ["(le zero x)", "(le x one)"], "(and (fin (sub one x)) (le zero (sub one x)) (le (sub one x) one))"),
    ("abs", "axiom fp_abs : forall x [d_abs x]. d_is_num x -> d_is_num (d_abs x) /\\ d_rk d_zero <= d_rk (d_abs x)", "x", ["(num x)"], "(and (num (fp.abs x)) (le zero (fp.abs x)))"),
    ("abs_fin", "axiom fp_abs_fin : forall x [d_abs x]. d_finite x -> d_finite (d_abs x)", "x", ["(fin x)"], "(fin (fp.abs x))"),
    ("abs_nz", "axiom fp_abs_nz : forall x [d_abs x]. d_is_num x -> d_rk x <> d_rk d_zero -> d_rk d_zero < d_rk (d_abs x)", "x", ["(num x)", "(not (eq x zero))"], "(lt zero (fp.abs x))"),
    ("abs_id", "axiom fp_abs_id : forall x [d_abs x]. d_is_num x -> d_rk d_zero <= d_rk x -> d_rk (d_abs x) = d_rk x", "x", ["(le zero x)"], "(eq (fp.abs x) x)"),
    ("neg", "axiom fp_neg : forall x [d_neg x]. d_is_num x -> d_is_num (d_neg x) /\\ (d_rk d_zero <= d_rk x -> d_rk (d_neg x) <= d_rk d_zero) /\\ (d_rk x <= d_rk d_zero -> d_rk d_zero <= d_rk (d_neg x))", "x", ["(num x)"], "(and (num (fp.neg x)) (=> (le zero x) (le (fp.neg x) zero)) (=> (le x zero) (le zero (fp.neg x))))"),
    ("neg_fin", "axiom fp_neg_fin : forall x [d_neg x]. d_finite x -> d_finite (d_neg x)", "x", ["(fin x)"], "(fin (fp.neg x))"),
    ("fin_between", "axiom fp_fin_between : forall x y z. d_finite x -> d_finite z -> d_is_num y -> d_rk x <= d_rk y <= d_rk z -> d_finite y", "x y z", ["(fin x)", "(fin z)", "(le x y)", "(le y z)"], "(fin y)"),
    ("small_add", "axiom fp_small_add : forall x y [d_add x y]. small x -> small y -> d_finite (d_add x y)", "x y", ["(small x)", "(small y)"], "(fin (add x y))"),
    ("small_sub", "axiom fp_small_sub : forall x y [d_sub x y]. small x -> small y -> d_finite (d_sub x y)", "x y", ["(small x)", "(small y)"], "(fin (sub x y))"),
    ("small_between", "axiom fp_small_between : forall x y z [small x, small z, small y]. small x -> small z -> d_is_num y -> d_rk x <= d_rk y <= d_rk z -> small y", "x y z", ["(small x)", "(small z)", "(le x y)", "(le y z)"], "(small y)"),
    ("mid_fin", "axiom fp_mid_fin : forall x [mid x]. mid x -> d_finite x /\\ small x", "x", ["(mid x)"], "(and (fin x) (small x))"),
    ("mid_between", "axiom fp_mid_between : forall x y z [mid x, mid z, mid y]. mid x -> mid z -> d_is_num y -> d_rk x <= d_rk y <= d_rk z -> mid y", "x y z", ["(mid x)", "(mid z)", "(le x y)", "(le y z)"], "(mid y)"),
    ("mid_sub", "axiom fp_mid_sub : forall x y [d_sub x y]. mid x -> mid y -> mid2 (d_sub x y)", "x y", ["(mid x)", "(mid y)"], "(mid2 (sub x y))"),
    ("mid_add", "axiom fp_mid_add : forall x y [d_add x y]. mid x -> mid y -> mid2 (d_add x y)", "x y", ["(mid x)", "(mid y)"], "(mid2 (add x y))"),
    ("mid2_fin", "axiom fp_mid2_fin : forall x [mid2 x]. mid2 x -> d_finite x /\\ small x", "x", ["(mid2 x)"], "(and (fin x) (small x))"),
    ("mid_mul", "axiom fp_mid_mul : forall x y [d_mul x y]. mid x -> mid2 y -> mid3 (d_mul x y)", "x y", ["(mid x)", "(mid2 y)"], "(mid3 (mul x y))"),
    ("mid3_fin", "axiom fp_mid3_fin : forall x [mid3 x]. mid3 x -> d_finite x /\\ small x", "x", ["(mid3 x)"], "(and (fin x) (small x))"),
    ("mid3_add", "axiom fp_mid3_add : forall x y [d_add x y]. mid x -> mid3 y -> small (d_add x y)", "x y", ["(mid x)", "(mid3 y)"], "(small (add x y))"),
    ("mid3_sub", "axiom fp_mid3_sub : forall x y [d_sub x y]. mid x -> mid3 y -> small (d_sub x y)", "x y", ["(mid x)", "(mid3 y)"], "(small (sub x y))"),
    ("sub_nz", "axiom fp_sub_nz : forall x y [d_sub x y]. d_finite x -> d_finite y -> d_rk x <> d_rk y -> d_rk (d_sub x y) <> d_rk d_zero", "x y", ["(fin x)", "(fin y)", "(not (eq x y))"], "(not (eq (sub x y) zero))"),
    ("const1", "axiom fp_const1 : mid (d_of_int 1)", "x", ["(eq x one)"], "(mid x)"),
    ("const2", "axiom fp_const2 : mid (d_of_int 2)", "x", ["(eq x two)"], "(mid x)"),
    #("sub_order", "axiom fp_sub_order : forall x y. d_is_num x -> d_is_num y -> d_rk x <= d_rk y -> d_finite x \\/ d_finite y -> d_is_num x", "x y", ["(le x y)"], "(num x)"),
    ("addsub_le", "axiom fp_addsub_le : forall x y e [d_sub x e, d_add y e]. d_is_num (d_sub x e) -> d_is_num (d_add y e) -> d_is_num x -> d_is_num y -> d_is_num e -> d_rk x <= d_rk y -> d_rk d_zero <= d_rk e -> d_rk (d_sub x e) <= d_rk (d_add y e)", "x y e", ["(num (sub x e))", "(num (add y e))", "(le x y)", "(le zero e)"], "(le (sub x e) (add y e))"),
    ("alpha", "axiom fp_alpha : forall p [d_sub (d_of_int 2) p]. d_is_num p -> d_rk d_zero <= d_rk p <= d_rk (d_of_int 1) -> d_finite (d_sub (d_of_int 2) p) /\\ d_rk (d_of_int 1) <= d_rk (d_sub (d_of_int 2) p) <= d_rk (d_of_int 2)", "p", ["(le zero p)", "(le p one)"], "(and (fin (sub two p)) (le one (sub two p)) (le (sub two p) two))"),
    ("mul_lt2", "axiom fp_mul_lt2 : forall u a [d_mul u a]. d_is_num u -> d_is_num a -> d_rk d_zero <= d_rk u < d_rk (d_of_int 1) -> d_rk d_zero <= d_rk a <= d_rk (d_of_int 2) -> d_finite (d_mul u a) /\\ d_rk d_zero <= d_rk (d_mul u a) < d_rk (d_of_int 2)", "u a", ["(le zero u)", "(lt u one)", "(le zero a)", "(le a two)"], "(and (fin (mul u a)) (le zero (mul u a)) (lt (mul u a) two))"),
    ("mul_unit2", "axiom fp_mul_unit2 : forall x y [d_mul x y]. d_rk d_zero <= d_rk y <= d_rk (d_of_int 1) -> d_is_num y -> d_finite x -> d_finite (d_mul x y)", "x y", ["(le zero y)", "(le y one)", "(fin x)"], "(fin (mul x y))"),
    ("x_half_lo", "axiom fp_half_lo : forall a [d_mul (d_of_int 2) a]. d_is_num a -> d_rk d_zero <= d_rk a <= d_rk d_c_0_5 -> d_is_num (d_mul (d_of_int 2) a) /\\ d_rk d_zero <= d_rk (d_mul (d_of_int 2) a) <= d_rk (d_of_int 1)", "x", ["(le zero x)", "(le x half)"], "(and (le zero (mul two x)) (le (mul two x) one))"),
    ("x_half_hi", "axiom fp_half_hi : forall a [d_mul (d_of_int 2) a]. d_is_num a -> d_rk d_c_0_5 < d_rk a < d_rk (d_of_int 1) -> d_is_num (d_sub (d_of_int 2) (d_mul (d_of_int 2) a)) /\\ d_rk d_zero <= d_rk (d_sub (d_of_int 2) (d_mul (d_of_int 2) a)) <= d_rk (d_of_int 1)", "x", ["(lt half x)", "(lt x one)"], "(and (le zero (sub two (mul two x))) (le (sub two (mul two x)) one))"),
    ("x_minus_one", "axiom fp_minus_one : forall x [d_sub x (d_of_int 1)]. d_is_num x -> d_rk d_zero <= d_rk x <= d_rk (d_of_int 1) -> d_finite (d_sub x (d_of_int 1)) /\\ d_rk (d_sub x (d_of_int 1)) <= d_rk d_zero", "x", ["(le zero x)", "(le x one)"], "(and (fin (sub x one)) (le (sub x one) zero))"),
    ("x_one_m_one", "axiom fp_one_m_one : forall y [d_sub (d_of_int 1) y]. d_is_num y -> d_rk y = d_rk (d_of_int 1) -> d_rk (d_sub (d_of_int 1) y) = d_rk d_zero", "y", ["(eq y one)"], "(eq (sub one y) zero)"),
    ("x_mul_zero", "axiom fp_mul_zero : forall x y [d_mul x y]. d_finite x -> d_is_num y -> d_rk y = d_rk d_zero -> d_rk (d_mul x y) = d_rk d_zero", "x y", ["(fin x)", "(eq y zero)"], "(eq (mul x y) zero)"),
    ("x_mul_zero2", "axiom fp_mul_zero2 : forall x y [d_mul y x]. d_finite x -> d_is_num y -> d_rk y = d_rk d_zero -> d_rk (d_mul y x) = d_rk d_zero", "x y", ["(fin x)", "(eq y zero)"], "(eq (mul y x) zero)"),
    ("x_mul_one", "axiom fp_mul_one : forall x y [d_mul x y]. d_finite x -> d_is_num y -> d_rk y = d_rk (d_of_int 1) -> d_rk (d_mul x y) = d_rk x", "x y", ["(fin x)", "(eq y one)"], "(eq (mul x y) x)"),
    ("x_mul_gt0", "axiom fp_mul_gt0 : forall x y [d_mul x y]. d_is_num x -> d_is_num y -> d_rk (d_of_int 1) <= d_rk x -> d_rk d_zero < d_rk y -> d_is_num (d_mul x y) /\\ d_rk d_zero < d_rk (d_mul x y)", "x y", ["(le one x)", "(lt zero y)", "(num y)"], "(lt zero (mul x y))"),
    ("x_add_zero", "axiom fp_add_zero : forall x y [d_add y x]. d_is_num x -> d_is_num y -> d_rk y = d_rk d_zero -> d_rk (d_add y x) = d_rk x", "x y", ["(num x)", "(eq y zero)"], "(eq (add y x) x)"),
    ("x_sqrt_zero", "axiom fp_sqrt_zero : forall y [d_sqrt y]. d_is_num y -> d_rk y = d_rk d_zero -> d_rk (d_sqrt y) = d_rk d_zero", "y", ["(eq y zero)"], "(eq (fp.sqrt RNE y) zero)"),
    ("x_unit53", "axiom fp_unit53 : forall n: int [d_of_int n]. 0 <= n < 9007199254740992 -> d_finite (d_mul (d_of_int n) (d_div d_eps (d_of_int 2))) /\\ d_rk d_zero <= d_rk (d_mul (d_of_int n) (d_div d_eps (d_of_int 2))) < d_rk (d_of_int 1)", "x", ["(le zero x)", "(lt x (fp #b0 #b10000110100 #x0000000000000))"], "(let ((q (mul x (div (fp #b0 #b01111001011 #x0000000000000) two)))) (and (fin q) (le zero q) (lt q one)))"),
    ("x_round_lo", "axiom fp_round_lo : forall x [d_round x]. d_is_num x -> d_rk (d_neg d_c_0_5) < d_rk x -> d_is_num (d_round x) /\\ d_rk d_zero <= d_rk (d_round x)", "x", ["(lt (fp.neg half) x)"], "(and (num (fp.roundToIntegral RNA x)) (le zero (fp.roundToIntegral RNA x)))"),
    ("x_round_hi", "axiom fp_round_hi : forall x, n: int [d_round x, d_of_int n]. 0 <= n <= 1125899906842624 -> d_is_num x -> d_rk x < d_rk (d_add (d_of_int n) d_c_0_5) -> d_rk (d_round x) <= d_rk (d_of_int n)", "x n", ["(num x)", "(fin n)", "(le zero n)", "(le n (fp #b0 #b10000110001 #x0000000000000))", "(eq n (fp.roundToIntegral RNE n))", "(lt x (add n half))"], "(le (fp.roundToIntegral RNA x) n)"),
    ("x_round_ge", "axiom fp_round_ge : forall x, n: int [d_round x, d_of_int n]. d_is_num x -> d_rk (d_of_int n) <= d_rk x -> d_rk (d_of_int n) <= d_rk (d_round x)", "x n", ["(num x)", "(eq n (fp.roundToIntegral RNE n))", "(le n x)"], "(le n (fp.roundToIntegral RNA x))"),
    ("x_round_le", "axiom fp_round_le : forall x, n: int [d_round x, d_of_int n]. d_is_num x -> d_rk x <= d_rk (d_of_int n) -> d_rk (d_round x) <= d_rk (d_of_int n)", "x n", ["(num x)", "(eq n (fp.roundToIntegral RNE n))", "(le x n)"], "(le (fp.roundToIntegral RNA x) n)"),
    ("x_frac", "axiom fp_frac : forall x [d_sub x (d_of_int (d_trunc x))]. d_finite x -> d_rk d_zero <= d_rk x -> d_rk x < d_rk (d_of_int 9223372036854775808) -> d_finite (d_sub x (d_of_int (d_trunc x))) /\\ d_rk d_zero <= d_rk (d_sub x (d_of_int (d_trunc x))) < d_rk (d_of_int 1)", "x", ["(le zero x)", "(fin x)"], "(let ((q (sub x (fp.roundToIntegral RTZ x)))) (and (fin q) (le zero q) (lt q one)))"),
    ("x_inv_ge1", "axiom fp_inv_ge1 : forall x [d_div (d_of_int 1) x]. d_is_num x -> d_rk (d_of_int 1) <= d_rk x -> d_finite (d_div (d_of_int 1) x) /\\ d_rk d_zero <= d_rk (d_div (d_of_int 1) x) <= d_rk (d_of_int 1)", "x", ["(le one x)"], "(let ((q (div one x))) (and (fin q) (le zero q) (le q one)))"),
    ("x_mul_ge1", "axiom fp_mul_ge1 : forall x y [d_mul x y]. d_is_num x -> d_is_num y -> d_rk (d_of_int 1) <= d_rk x -> d_rk (d_of_int 1) <= d_rk y -> d_is_num (d_mul x y) /\\ d_rk (d_of_int 1) <= d_rk (d_mul x y)", "x y", ["(le one x)", "(le one y)"], "(le one (mul x y))"),
    ("x_add_ge1", "axiom fp_add_ge1 : forall x y [d_add x y]. d_is_num x -> d_is_num y -> d_rk (d_of_int 1) <= d_rk x -> d_rk d_zero <= d_rk y -> d_is_num (d_add x y) /\\ d_rk (d_of_int 1) <= d_rk (d_add x y)", "x y", ["(le one x)", "(le zero y)"], "(le one (add x y))"),
    ("x_add_ge1b", "axiom fp_add_ge1b : forall x y [d_add x y]. d_is_num x -> d_is_num y -> d_rk d_zero <= d_rk x -> d_rk (d_of_int 1) <= d_rk y -> d_is_num (d_add x y) /\\ d_rk (d_of_int 1) <= d_rk (d_add x y)", "x y", ["(le zero x)", "(le one y)"], "(le one (add x y))"),
    ("x_add_q", "axiom fp_add_q : forall x y [d_add x y]. d_is_num x -> d_is_num y -> d_rk d_zero <= d_rk x < d_rk (d_of_int 4611686018427387904) -> d_rk d_zero <= d_rk y <= d_rk (d_of_int 1) -> d_finite (d_add x y) /\\ d_rk d_zero <= d_rk (d_add x y) < d_rk (d_of_int 9223372036854775808)", "x y", ["(le zero x)", "(lt x (fp #b0 #b10000111101 #x0000000000000))", "(le zero y)", "(le y one)"], "(and (fin (add x y)) (le zero (add x y)) (lt (add x y) (fp #b0 #b10000111110 #x0000000000000)))"),
    ("x_sub_spos_inv", "axiom fp_sub_spos_inv : forall x y [d_sub x y]. d_is_num x -> d_is_num y -> d_is_num (d_sub x y) -> d_rk d_zero < d_rk (d_sub x y) -> d_rk y < d_rk x", "x y", ["(lt zero (sub x y))"], "(lt y x)"),
    ("x_abs_eq", "axiom fp_abs_eq : forall x y [d_abs x, d_abs y]. d_is_num x -> d_is_num y -> d_rk (d_abs x) = d_rk (d_abs y) -> d_abs x = d_abs y", "x y", ["(num x)", "(num y)", "(eq (fp.abs x) (fp.abs y))"], "(= (fp.abs x) (fp.abs y))"),
    ("x_abs_cases", "axiom fp_abs_cases : forall x [d_abs x]. d_is_num x -> (d_rk d_zero <= d_rk x -> d_rk (d_abs x) = d_rk x) /\\ (d_rk x <= d_rk d_zero -> d_rk (d_abs x) = d_rk (d_neg x))", "x", ["(num x)"], "(and (=> (le zero x) (eq (fp.abs x) x)) (=> (le x zero) (eq (fp.abs x) (fp.neg x))))"),
    ("x_abs_inf", "axiom fp_abs_inf : forall x [d_abs x]. d_is_num x -> (d_rk (d_abs x) = d_rk d_inf <-> not (d_finite x))", "x", ["(num x)"], "(= (eq (fp.abs x) (_ +oo 11 53)) (not (fin x)))"),
    ("x_neg_flip", "axiom fp_neg_flip : forall x y [d_neg x, d_neg y]. d_is_num x -> d_is_num y -> (d_rk x < d_rk (d_neg y) <-> d_rk y < d_rk (d_neg x))", "x y", ["(num x)", "(num y)"], "(= (lt x (fp.neg y)) (lt y (fp.neg x)))"),
    ("x_sub_inf", "axiom fp_sub_inf : forall x y [d_sub x y]. d_is_num x -> d_is_num y -> not (d_finite x /\\ d_finite y) -> (d_rk x < d_rk y -> d_is_num (d_sub x y) /\\ d_rk (d_sub x y) = d_rk (d_neg d_inf)) /\\ (d_rk y < d_rk x -> d_is_num (d_sub x y) /\\ d_rk (d_sub x y) = d_rk d_inf) /\\ (d_rk x = d_rk y -> not (d_is_num (d_sub x y)))", "x y", ["(num x)", "(num y)", "(not (and (fin x) (fin y)))"], "(and (=> (lt x y) (eq (sub x y) (fp.neg (_ +oo 11 53)))) (=> (lt y x) (eq (sub x y) (_ +oo 11 53))) (=> (eq x y) (not (num (sub x y)))))"),
    ("x_ninf", "axiom fp_ninf : forall x [d_finite x]. d_finite x -> d_rk (d_neg d_inf) < d_rk x", "x", ["(fin x)"], "(lt (fp.neg (_ +oo 11 53)) x)"),
    ("x_div_zero", "axiom fp_div_zero : forall x y [d_div x y]. d_is_num x -> d_rk d_zero < d_rk x -> d_is_num y -> d_rk y = d_rk d_zero -> not (d_finite (d_div x y))", "x y", ["(lt zero x)", "(eq y zero)"], "(not (fin (div x y)))"),
    ("x_inv_inf", "axiom fp_inv_inf : forall y [d_div (d_of_int 1) y]. d_is_num y -> d_rk d_zero <= d_rk y -> d_is_num (d_div (d_of_int 1) y) /\\ d_rk d_zero <= d_rk (d_div (d_of_int 1) y) \\/ not (d_finite (d_div (d_of_int 1) y))", "y", ["(le zero y)"], "(or (and (num (div one y)) (le zero (div one y))) (not (fin (div one y))))"),
    ("x_add_nn", "axiom fp_add_nn : forall x y [d_add x y]. d_is_num x -> d_is_num y -> d_rk d_zero <= d_rk x -> d_rk d_zero <= d_rk y -> d_is_num (d_add x y) /\\ d_rk x <= d_rk (d_add x y) /\\ d_rk y <= d_rk (d_add x y)", "x y", ["(le zero x)", "(le zero y)"], "(and (le x (add x y)) (le y (add x y)))"),
    ("x_thirds", "axiom fp_thirds : d_finite (d_div (d_of_int 1) (d_of_int 3)) /\\ d_rk d_zero < d_rk (d_div (d_of_int 1) (d_of_int 3)) <= d_rk (d_of_int 1) /\\ d_finite (d_neg (d_div (d_of_int 2) (d_of_int 3))) /\\ d_rk (d_neg (d_div (d_of_int 2) (d_of_int 3))) < d_rk d_zero", "x", ["(eq x x)"], "(and (fin (div one three)) (lt zero (div one three)) (le (div one three) one) (fin (fp.neg (div two three))) (lt (fp.neg (div two three)) zero))"),
    ("x_roulette", "axiom fp_roulette : forall l [d_mul (d_neg (d_div (d_of_int 2) (d_of_int 3))) l]. d_finite l -> d_rk l < d_rk d_zero -> d_rk d_zero <= d_rk (d_add (d_mul (d_div (d_of_int 1) (d_of_int 3)) l) (d_mul (d_neg (d_div (d_of_int 2) (d_of_int 3))) l))", "l", ["(fin l)", "(lt l zero)"], "(le zero (add (mul (div one three) l) (mul (fp.neg (div two three)) l)))"),
    ("x_third_mid", "axiom fp_third_mid : forall l [d_mul (d_neg (d_div (d_of_int 2) (d_of_int 3))) l]. mid l -> mid (d_mul (d_neg (d_div (d_of_int 2) (d_of_int 3))) l)", "l", ["(mid l)"], "(mid (mul (fp.neg (div two three)) l))"),
    ("x_third_mid2", "axiom fp_third_mid2 : forall l [d_mul (d_div (d_of_int 1) (d_of_int 3)) l]. mid l -> mid (d_mul (d_div (d_of_int 1) (d_of_int 3)) l)", "l", ["(mid l)"], "(mid (mul (div one three) l))"),
    ("x_add_nz", "axiom fp_add_nz : forall x y [d_add x y]. d_is_num x -> d_is_num y -> d_rk y = d_rk d_zero -> d_rk (d_add x y) = d_rk x /\\ d_is_num (d_add x y)", "x y", ["(num x)", "(eq y zero)"], "(eq (add x y) x)"),
    ("x_one_mul", "axiom fp_one_mul : forall x y [d_mul y x]. d_is_num x -> d_is_num y -> d_rk y = d_rk (d_of_int 1) -> d_is_num (d_mul y x) /\\ d_rk (d_mul y x) = d_rk x", "x y", ["(num x)", "(eq y one)"], "(eq (mul y x) x)"),
    ("x_inv_normal", "axiom fp_inv_normal : forall x [d_div (d_of_int 1) x]. d_finite x -> d_rk d_min_pos <= d_rk x -> d_finite (d_div (d_of_int 1) x) /\\ d_rk d_zero < d_rk (d_div (d_of_int 1) x)", "x", ["(fin x)", "(le dmin x)"], "(and (fin (div one x)) (lt zero (div one x)))"),
    ("x_inf_div", "axiom fp_inf_div : forall x y [d_div x y]. d_is_num x -> d_rk x = d_rk d_inf -> d_finite y -> d_rk d_zero < d_rk y -> d_is_num (d_div x y) /\\ d_rk (d_div x y) = d_rk d_inf", "x y", ["(eq x (_ +oo 11 53))", "(fin y)", "(lt zero y)"], "(eq (div x y) (_ +oo 11 53))"),
    ("x_nan_div", "axiom fp_nan_div : forall x y [d_div x y]. not (d_is_num x) -> not (d_is_num (d_div x y))", "x y", ["(not (num x))"], "(not (num (div x y)))"),
    ("x_finite", "axiom fp_finite : forall x [d_finite x]. d_is_num x -> (d_finite x <-> d_rk (d_neg d_inf) < d_rk x < d_rk d_inf)", "x", ["(num x)"], "(= (fin x) (and (lt (fp.neg (_ +oo 11 53)) x) (lt x (_ +oo 11 53))))"),
    ("x_inf_bounds", "axiom fp_inf_bounds : forall x [d_is_num x]. d_is_num x -> d_rk (d_neg d_inf) <= d_rk x <= d_rk d_inf", "x", ["(num x)"], "(and (le (fp.neg (_ +oo 11 53)) x) (le x (_ +oo 11 53)))"),
    ("small_fin", "axiom fp_small_fin : forall x [small x]. small x -> d_finite x", "x", ["(small x)"], "(fin x)"),
]
SMT_HEAD = """(set-logic ALL)
(define-sort D () (_ FloatingPoint 11 53))
(define-fun zero () D (_ +zero 11 53))
(define-fun one () D (fp #b0 #b01111111111 #x0000000000000))
(define-fun half () D (fp #b0 #b01111111110 #x0000000000000))
(define-fun two () D (fp #b0 #b10000000000 #x0000000000000))
(define-fun three () D (fp #b0 #b10000000000 #x8000000000000))
(define-fun dmin () D (fp #b0 #b00000000001 #x0000000000000))
(define-fun big () D (fp #b0 #b11111111100 #x0000000000000))
(define-fun num ((x D)) Bool (not (fp.isNaN x)))
(define-fun fin ((x D)) Bool (and (not (fp.isNaN x)) (not (fp.isInfinite x))))
(define-fun le ((x D) (y D)) Bool (fp.leq x y))
(define-fun lt ((x D) (y D)) Bool (fp.lt x y))
(define-fun eq ((x D) (y D)) Bool (fp.eq x y))
(define-fun add ((x D) (y D)) D (fp.add RNE x y))
(define-fun sub ((x D) (y D)) D (fp.sub RNE x y))
(define-fun mul ((x D) (y D)) D (fp.mul RNE x y))
(define-fun div ((x D) (y D)) D (fp.div RNE x y))
(define-fun small ((x D)) Bool (and (le (fp.neg big) x) (le x big)))
(define-fun bm () D (fp #b0 #b10111110011 #x0000000000000))
(define-fun bm2 () D (fp #b0 #b10111110101 #x0000000000000))
(define-fun bm3 () D (fp #b0 #b11111110001 #x0000000000000))
(define-fun mid3 ((x D)) Bool (and (le (fp.neg bm3) x) (le x bm3)))
(define-fun mid ((x D)) Bool (and (le (fp.neg bm) x) (le x bm)))
(define-fun mid2 ((x D)) Bool (and (le (fp.neg bm2) x) (le x bm2)))
"""


def smt_text(f):
    nm, ax, vs, hyp, con = f
    t = SMT_HEAD
    for v in vs.split():
        t += "(declare-const %s D)\n" % v
    for h in hyp:
        t += "(assert %s)\n" % h
    return t + "(assert (not %s))\n(check-sat)\n" % con


HEAD = "(* IEEE-754 double arithmetic: each fact is proved over Float64 by the target lemma_ieee754 *)\n(* small x: -2^1021 <= x <= 2^1021 *)\npredicate small (x: dbl)\n(* mid x: |x| <= 2^500, mid2 x: |x| <= 2^502, mid3 x: |x| <= 2^1010 *)\npredicate mid (x: dbl)\npredicate mid2 (x: dbl)\npredicate mid3 (x: dbl)\n"


def facts(names=None):
    """-> (axioms for the prelude, lemma target that proves them); SMT facts by default, Flocq facts when named"""
    import flocq
    fs = [f for f in FACTS if (not f[0].startswith('x_') if names is None else f[0] in names.split())]
    cs = [n for n in names.split() if n in flocq.FACTS] if names else []
    assert names is None or len(fs) + len(cs) == len(names.split())
    return (HEAD + "".join(f[1] + "\n" for f in fs) + "".join(flocq.FACTS[n][0] + "\n" for n in cs),
            dict(name="lemma_ieee754", smt=[("IEEE-754 fact " + f[0], smt_text(f)) for f in fs] + [("IEEE-754 fact %s (Flocq)" % n, flocq.HEAD + flocq.FACTS[n][1]) for n in cs]))


# the C math library: pow of a non-negative base is a number and not negative, for a finite exponent
POW_AX = "axiom fp_pow : forall x y [d_pow x y]. d_is_num x -> d_finite y -> d_rk d_zero <= d_rk x -> d_is_num (d_pow x y) /\\ d_rk d_zero <= d_rk (d_pow x y)\n"

(* f64 as Flocq's IEEE 754 binary64 with one NaN, round to nearest even *)
Require Import ZArith Reals Lia Lra Psatz Bool.
From Flocq Require Import Core IEEE754.BinarySingleNaN.
From Flocq Require IEEE754.Binary IEEE754.Bits.
Open Scope R_scope.

Definition hp : Prec_gt_0 53 := eq_refl.
Definition hpe : Prec_lt_emax 53 1024 := eq_refl.
#[global] Existing Instance hp.
#[global] Existing Instance hpe.
Definition F64 := binary_float 53 1024.
Notation fexp64 := (SpecFloat.fexp 53 1024).
#[global] Instance vexp : Valid_exp fexp64 := fexp_correct 53 1024 hp.
Notation rnd := (round radix2 fexp64 ZnearestE).

Definition big := 9007199254740992%Z.
Definition f_add : F64 -> F64 -> F64 := Bplus mode_NE.
Definition f_sub : F64 -> F64 -> F64 := Bminus mode_NE.
Definition f_mul : F64 -> F64 -> F64 := Bmult mode_NE.
Definition f_div : F64 -> F64 -> F64 := Bdiv mode_NE.
Definition f_neg : F64 -> F64 := @Bopp 53 1024.
Definition f_cmp : F64 -> F64 -> option comparison := @Bcompare 53 1024.
Definition f_int (i : Z) : F64 := binary_normalize 53 1024 hp hpe mode_NE i 0 false.
Definition f_lit (b : Z) : F64 := Binary.B2BSN 53 1024 (Bits.b64_of_bits b).
Definition nan64 : { x : Binary.binary_float 53 1024 | Binary.is_nan 53 1024 x = true } := Bits.default_nan_pl64.
Definition f_bits (x : F64) : Z := Bits.bits_of_b64 (Binary.BSN2B 53 1024 nan64 x).
Definition f_le a b := f_cmp a b = Some Lt \/ f_cmp a b = Some Eq.
Definition f_lt a b := f_cmp a b = Some Lt.
Definition f_gt a b := f_cmp a b = Some Gt.
Definition f_ge a b := f_cmp a b = Some Gt \/ f_cmp a b = Some Eq.
Definition is_Some {A} (o : option A) := o <> None.
Definition f_ord a := is_Some (f_cmp a a).
Definition f_in (x : F64) (i j : Z) := f_le (f_int i) x /\ f_le x (f_int j).
(* minNum, the first of two equal arguments *)
Definition f_min (a b : F64) : F64 :=
  if is_nan a then b else if is_nan b then a else
  match f_cmp a b with Some Gt => b | _ => a end.

(* ---- basic facts ---- *)
Lemma cmp_fin : forall a b, is_finite a = true -> is_finite b = true ->
  f_cmp a b = Some (Rcompare (B2R a) (B2R b)).
Proof. apply Bcompare_correct. Qed.

Lemma le_fin : forall a b, is_finite a = true -> is_finite b = true -> (f_le a b <-> B2R a <= B2R b).
Proof.
intros a b Ha Hb. unfold f_le. rewrite (cmp_fin a b Ha Hb).
destruct (Rcompare_spec (B2R a) (B2R b)); split; intros H'; try lra; auto.
destruct H'; discriminate.
Qed.
Lemma lt_fin : forall a b, is_finite a = true -> is_finite b = true -> (f_lt a b <-> B2R a < B2R b).
Proof.
intros a b Ha Hb. unfold f_lt. rewrite (cmp_fin a b Ha Hb).
destruct (Rcompare_spec (B2R a) (B2R b)); split; intros H'; try lra; auto; discriminate.
Qed.
Lemma ord_nan : forall a, f_ord a <-> is_nan a = false.
Proof. intros [s|[|]| |s m e H]; unfold f_ord, is_Some; simpl; split; intro K; try discriminate; try easy.
all: unfold f_cmp, Bcompare; simpl; try discriminate.
Qed.
Lemma fin_nan : forall a : F64, is_finite a = true -> is_nan a = false.
Proof. now intros [| | |]. Qed.

(* integers up to 2^53 are exact *)
Lemma int_format : forall i, (Z.abs i <= big)%Z -> generic_format radix2 fexp64 (IZR i).
Proof.
intros i Hi. change fexp64 with (FLT_exp (3 - 1024 - 53) 53).
destruct (Z.eq_dec (Z.abs i) big) as [E|E].
- assert (Hb: generic_format radix2 (FLT_exp (3 - 1024 - 53) 53) (IZR big)).
  { replace (IZR big) with (bpow radix2 53) by (simpl; unfold big; lra).
    apply generic_format_bpow. unfold FLT_exp. simpl. lia. }
  assert (K: (i = big \/ i = -big)%Z) by (unfold big in *; lia).
  destruct K as [K|K]; rewrite K.
  + exact Hb.
  + rewrite opp_IZR. now apply generic_format_opp.
- apply generic_format_FLT. exists (Float radix2 i 0).
  + unfold F2R; simpl; lra.
  + simpl. unfold big in *. lia.
  + simpl. lia.
Qed.
Lemma rnd_int : forall i, (Z.abs i <= big)%Z -> rnd (IZR i) = IZR i.
Proof. intros i Hi. apply round_generic; auto with typeclass_instances. now apply int_format. Qed.
Lemma IZR_big : IZR big = bpow radix2 53.
Proof. unfold big. simpl. lra. Qed.
Lemma big_emax : IZR big < bpow radix2 1024.
Proof. rewrite IZR_big. apply bpow_lt. lia. Qed.

(* a real between small integers rounds to one between them *)
Lemma rnd_between : forall x i j, (Z.abs i <= big)%Z -> (Z.abs j <= big)%Z ->
  IZR i <= x <= IZR j -> IZR i <= rnd x <= IZR j.
Proof.
intros x i j Hi Hj [H1 H2]. split.
- rewrite <- (rnd_int i Hi). apply round_le; auto with typeclass_instances.
- rewrite <- (rnd_int j Hj). apply round_le; auto with typeclass_instances.
Qed.
Lemma small_no_overflow : forall x i j, (Z.abs i <= big)%Z -> (Z.abs j <= big)%Z ->
  IZR i <= x <= IZR j -> Rlt_bool (Rabs (rnd x)) (bpow radix2 1024) = true.
Proof.
intros x i j Hi Hj H. apply Rlt_bool_true.
apply Rle_lt_trans with (IZR big); [|apply big_emax].
destruct (rnd_between x i j Hi Hj H) as [H1 H2].
apply Rabs_le. split.
- apply Rle_trans with (IZR i); auto. rewrite <- opp_IZR. apply IZR_le. lia.
- apply Rle_trans with (IZR j); auto. apply IZR_le. lia.
Qed.

Lemma int_correct : forall i, (Z.abs i <= big)%Z ->
  is_finite (f_int i) = true /\ B2R (f_int i) = IZR i /\ Bsign (f_int i) = Z.ltb i 0.
Proof.
intros i Hi. unfold f_int.
generalize (binary_normalize_correct 53 1024 hp hpe mode_NE i 0 false). cbv zeta.
assert (E: F2R (Float radix2 i 0) = IZR i) by (unfold F2R; simpl; lra).
rewrite E. unfold round_mode. rewrite (rnd_int i Hi).
rewrite Rlt_bool_true.
- intros (A & B & C). repeat split; auto. rewrite C.
  destruct (Rcompare_spec (IZR i) 0) as [K|K|K].
  + apply lt_IZR in K. symmetry. now apply Z.ltb_lt.
  + apply eq_IZR in K. subst. reflexivity.
  + apply lt_IZR in K. symmetry. apply Z.ltb_ge. lia.
- apply Rle_lt_trans with (IZR big); [|apply big_emax].
  rewrite <- abs_IZR. now apply IZR_le.
Qed.

(* f_in a i j *)
Definition fin_in (a : F64) (i j : Z) := is_finite a = true /\ IZR i <= B2R a <= IZR j.
Lemma in_spec : forall a i j, (Z.abs i <= big)%Z -> (Z.abs j <= big)%Z ->
  (f_in a i j <-> fin_in a i j).
Proof.
intros a i j Hi Hj.
destruct (int_correct i Hi) as (Fi & Ri & _). destruct (int_correct j Hj) as (Fj & Rj & _).
split.
- intros [H1 H2].
  destruct (is_finite a) eqn:Fa.
  + split; auto. apply le_fin in H1; auto. apply le_fin in H2; auto. lra.
  + exfalso. destruct a as [s|s| |s m e B]; try discriminate.
    * destruct (f_int i) as [s1|s1| |s1 m1 e1 B1], (f_int j) as [s2|s2| |s2 m2 e2 B2]; try discriminate;
      destruct s; destruct H1, H2; try discriminate; try (destruct s1; discriminate); try (destruct s2; discriminate).
    * destruct H1; destruct (f_int i) as [s1|[|]| |[|] m1 e1 B1]; discriminate.
- intros [Fa [H1 H2]]. split; apply le_fin; auto; lra.
Qed.

Require Import ZArith Reals Lia Lra Psatz Bool.
From Flocq Require Import Core IEEE754.BinarySingleNaN.
From Flocq Require IEEE754.Binary IEEE754.Bits.
Require Import F64Model.
Open Scope R_scope.

Definition P52 := 4503599627370496%Z.
Definition INF := 9218868437227405312%Z.       (* 0x7ff0_0000_0000_0000 *)
Definition NEG := 9223372036854775808%Z.       (* 0x8000_0000_0000_0000 *)
Definition NINF := 18442240474082181120%Z.     (* 0xfff0_0000_0000_0000 *)

Lemma lit_bits_id : forall x, f_lit (f_bits x) = x.
Proof.
intros x. unfold f_lit, f_bits, Bits.b64_of_bits, Bits.bits_of_b64.
rewrite Bits.binary_float_of_bits_of_binary_float. apply Binary.B2BSN_BSN2B.
Qed.
Lemma bits_range : forall x, (0 <= f_bits x < 18446744073709551616)%Z.
Proof.
intros x. unfold f_bits, Bits.bits_of_b64.
exact (Bits.bits_of_binary_float_range 52 11 eq_refl eq_refl _).
Qed.
(* mantissas *)
Lemma mant_range : forall m e, SpecFloat.bounded 53 1024 m e = true ->
  (Z.pos m < 2 * P52)%Z /\ (-1074 <= e <= 971)%Z /\ ((Z.pos m < P52)%Z -> e = (-1074)%Z).
Proof.
intros m e H. unfold SpecFloat.bounded in H. apply andb_prop in H. destruct H as [A B].
apply Z.leb_le in B. unfold SpecFloat.canonical_mantissa in A. apply Zeq_bool_eq in A.
unfold SpecFloat.fexp, SpecFloat.emin in A.
rewrite Digits.Zpos_digits2_pos in A.
assert (D: (Digits.Zdigits radix2 (Z.pos m) <= 53)%Z) by lia.
repeat split; try lia.
- apply (Digits.Zpower_gt_Zdigits radix2 53 (Z.pos m)) in D. simpl in D. unfold P52. lia.
- intros L. assert ((Digits.Zdigits radix2 (Z.pos m) <= 52)%Z).
  { apply (Digits.Zdigits_le_Zpower radix2). simpl. unfold P52 in L. lia. }
  lia.
Qed.
Lemma bits_finite : forall s m e H, f_bits (B754_finite s m e H) =
  ((if s then NEG else 0) + (if (P52 <=? Z.pos m)%Z then (e + 1075) * P52 + (Z.pos m - P52) else Z.pos m))%Z.
Proof.
intros s m e H. unfold f_bits, Bits.bits_of_b64, Bits.bits_of_binary_float, Binary.BSN2B.
change (2 ^ 52)%Z with P52.
replace (Z.leb 0 (Z.pos m - P52)) with (Z.leb P52 (Z.pos m)).
2:{ destruct (Z.leb_spec P52 (Z.pos m)); destruct (Z.leb_spec 0 (Z.pos m - P52)); lia. }
destruct (mant_range m e H) as (_ & He & _).
destruct (Z.leb P52 (Z.pos m)); unfold Bits.join_bits; rewrite Z.shiftl_mul_pow2 by lia;
change (2 ^ 52)%Z with P52; change (2 ^ 11)%Z with 2048%Z; unfold SpecFloat.emin, NEG, P52; destruct s; lia.
Qed.
Lemma bits_zero : forall s, f_bits (B754_zero s) = if s then NEG else 0%Z.
Proof. now intros [|]. Qed.
Lemma bits_inf : forall s, f_bits (B754_infinity s) = if s then NINF else INF.
Proof. now intros [|]. Qed.
Lemma bits_nan : (INF < f_bits B754_nan < NEG)%Z.
Proof. now split. Qed.
Lemma bits_finite_range : forall s m e H,
  (0 < f_bits (B754_finite s m e H) - (if s then NEG else 0) < INF)%Z.
Proof.
intros s m e H. rewrite bits_finite.
destruct (mant_range m e H) as (A & B & C). unfold INF, P52 in *.
destruct (Z.leb_spec 4503599627370496 (Z.pos m)); lia.
Qed.

(* the value of a bit pattern below infinity *)
Definition val (b : Z) : R :=
  if (b / P52 =? 0)%Z then IZR (b mod P52) * bpow radix2 (-1074)
  else IZR (b mod P52 + P52) * bpow radix2 (b / P52 - 1075).
Lemma val_finite : forall x : F64, is_finite x = true -> Bsign x = false -> B2R x = val (f_bits x).
Proof.
intros [s|s| |s m e H] F S; try discriminate; simpl in S; subst s.
- rewrite bits_zero. unfold val. change (0 / P52 =? 0)%Z with true. change (0 mod P52)%Z with 0%Z. cbv iota. change (B2R (B754_zero false : F64)) with 0. ring.
- rewrite bits_finite. destruct (mant_range m e H) as (A & B & C).
  unfold B2R, F2R. simpl cond_Zopp. cbn [Fnum Fexp].
  destruct (Z.leb_spec P52 (Z.pos m)).
  + rewrite Z.add_0_l.
    assert (D: (((e + 1075) * P52 + (Z.pos m - P52)) / P52 = e + 1075)%Z).
    { symmetry. apply Zdiv_unique with (Z.pos m - P52)%Z; unfold P52 in *; lia. }
    assert (M: (((e + 1075) * P52 + (Z.pos m - P52)) mod P52 = Z.pos m - P52)%Z).
    { symmetry. apply Zmod_unique with (e + 1075)%Z; unfold P52 in *; lia. }
    unfold val. rewrite D, M. destruct (Z.eqb_spec (e + 1075) 0); [lia|].
    f_equal; f_equal; lia.
  + rewrite Z.add_0_l. rewrite (C H0). unfold val.
    rewrite Z.div_small, Z.mod_small by lia. reflexivity.
Qed.
Lemma val_mono : forall b c, (0 <= b <= c)%Z -> val b <= val c.
Proof.
intros b c H. unfold val.
assert (P: (0 < P52)%Z) by reflexivity.
pose proof (Z.div_mod b P52 ltac:(lia)) as Db. pose proof (Z.div_mod c P52 ltac:(lia)) as Dc.
pose proof (Z.mod_pos_bound b P52 P) as Mb. pose proof (Z.mod_pos_bound c P52 P) as Mc.
pose proof (Z.div_le_mono b c P52 P ltac:(lia)) as L.
assert (B0: (0 <= b / P52)%Z) by (apply Z.div_pos; lia).
set (eb := (b / P52)%Z) in *. set (ec := (c / P52)%Z) in *.
set (mb := (b mod P52)%Z) in *. set (mc := (c mod P52)%Z) in *.
destruct (Z.eqb_spec eb 0), (Z.eqb_spec ec 0).
- apply Rmult_le_compat_r. apply bpow_ge_0. apply IZR_le. nia.
- apply Rle_trans with (IZR (mc + P52) * bpow radix2 (-1074)).
  + apply Rmult_le_compat_r. apply bpow_ge_0. apply IZR_le. lia.
  + apply Rmult_le_compat_l. apply IZR_le; lia. apply bpow_le. lia.
- lia.
- destruct (Z.eq_dec eb ec) as [E|E].
  + rewrite E. apply Rmult_le_compat_r. apply bpow_ge_0. apply IZR_le. nia.
  + apply Rle_trans with (IZR (2 * P52) * bpow radix2 (eb - 1075)).
    * apply Rmult_le_compat_r. apply bpow_ge_0. apply IZR_le. lia.
    * rewrite mult_IZR. replace (2 * IZR P52 * bpow radix2 (eb - 1075)) with (IZR P52 * bpow radix2 (1 + (eb - 1075))).
      2:{ rewrite bpow_plus. change (bpow radix2 1) with 2. ring. }
      apply Rle_trans with (IZR (mc + P52) * bpow radix2 (1 + (eb - 1075))).
      -- apply Rmult_le_compat_r. apply bpow_ge_0. apply IZR_le. lia.
      -- apply Rmult_le_compat_l. apply IZR_le; lia. apply bpow_le. lia.
Qed.
Definition ok_bits (b : Z) := (0 <= b <= INF \/ NEG <= b <= NINF)%Z.
Lemma lit_bits : forall b, ok_bits b -> f_bits (f_lit b) = b /\ is_nan (f_lit b) = false.
Proof.
intros b K.
assert (R: (0 <= b < 2 ^ (52 + 11 + 1))%Z) by (unfold ok_bits, INF, NEG, NINF in K; simpl; lia).
pose proof (Bits.bits_of_binary_float_of_bits 52 11 eq_refl eq_refl eq_refl b R) as I.
fold Bits.b64_of_bits in I.
unfold f_lit, f_bits.
change (Bits.binary_float_of_bits 52 11 eq_refl eq_refl eq_refl b) with (Bits.b64_of_bits b) in I.
unfold Bits.bits_of_b64.
destruct (Bits.b64_of_bits b) as [s|s|s pl Hpl|s m e H].
- split; [exact I|reflexivity].
- split; [exact I|reflexivity].
- exfalso. revert I. unfold Bits.bits_of_binary_float, Bits.join_bits.
  rewrite Z.shiftl_mul_pow2 by lia. intros I.
  assert (Q: (Z.pos pl < P52)%Z).
  { unfold Binary.nan_pl in Hpl. rewrite Digits.Zpos_digits2_pos in Hpl.
    apply Z.ltb_lt in Hpl. 
    apply (Digits.Zpower_gt_Zdigits radix2 52 (Z.pos pl)). lia. }
  unfold ok_bits, INF, NEG, NINF, P52 in *.
  change (2 ^ 52)%Z with 4503599627370496%Z in I. change (2 ^ 11)%Z with 2048%Z in I.
  destruct s; lia.
- split; [exact I|reflexivity].
Qed.
Lemma bits_sign : forall x : F64, is_nan x = false -> (Bsign x = false <-> (f_bits x <= INF)%Z) /\ ok_bits (f_bits x).
Proof.
intros [s|s| |s m e H] N; try discriminate; unfold ok_bits.
- rewrite bits_zero. destruct s; unfold NEG, INF, NINF; simpl; split; try split; intros; try easy; lia.
- rewrite bits_inf. destruct s; unfold NEG, INF, NINF; simpl; split; try split; intros; try easy; lia.
- pose proof (bits_finite_range s m e H). simpl Bsign. destruct s; unfold NEG, INF, NINF in *; split; try split; intros; try easy; lia.
Qed.
Lemma lit_small : forall b, (0 <= b < INF)%Z -> is_finite (f_lit b) = true /\ Bsign (f_lit b) = false /\ B2R (f_lit b) = val b.
Proof.
intros b K.
destruct (lit_bits b) as [I N]. { unfold ok_bits, INF, NEG, NINF in *. lia. }
assert (S: Bsign (f_lit b) = false). { apply (proj1 (bits_sign _ N)). rewrite I. lia. }
assert (F: is_finite (f_lit b) = true).
{ destruct (f_lit b) as [s|s| |s m e H] eqn:E; try easy.
  rewrite bits_inf in I. destruct s; unfold INF, NINF in *; lia. }
repeat split; auto. rewrite (val_finite _ F S). now rewrite I.
Qed.
Lemma lit_inf : f_lit INF = B754_infinity false.
Proof. reflexivity. Qed.

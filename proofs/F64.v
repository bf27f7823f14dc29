(* the axioms of spec/05_f64.rs, proved *)
Require Import ZArith Reals Lia Lra Psatz Bool.
From Flocq Require Import Core IEEE754.BinarySingleNaN.
From Flocq Require IEEE754.Binary IEEE754.Bits.
From Flocq Require Plus_error.
Require Import F64Model F64Bits.
Open Scope R_scope.

(* ---- operations on finite numbers with a small result ---- *)
Definition small (i j : Z) := (Z.abs i <= big /\ Z.abs j <= big)%Z.
Lemma add_small : forall a b i j, small i j -> is_finite a = true -> is_finite b = true ->
  IZR i <= B2R a + B2R b <= IZR j ->
  is_finite (f_add a b) = true /\ B2R (f_add a b) = rnd (B2R a + B2R b) /\
  Bsign (f_add a b) = match Rcompare (B2R a + B2R b) 0 with Eq => andb (Bsign a) (Bsign b) | Lt => true | Gt => false end.
Proof.
intros a b i j [Hi Hj] Fa Fb H.
generalize (Bplus_correct 53 1024 hp hpe mode_NE a b Fa Fb). unfold round_mode.
rewrite (small_no_overflow _ i j Hi Hj H). intros (A & B & C). repeat split; auto.
Qed.
Lemma sub_small : forall a b i j, small i j -> is_finite a = true -> is_finite b = true ->
  IZR i <= B2R a - B2R b <= IZR j ->
  is_finite (f_sub a b) = true /\ B2R (f_sub a b) = rnd (B2R a - B2R b).
Proof.
intros a b i j [Hi Hj] Fa Fb H.
generalize (Bminus_correct 53 1024 hp hpe mode_NE a b Fa Fb). unfold round_mode.
rewrite (small_no_overflow _ i j Hi Hj H). intros (A & B & C). repeat split; auto.
Qed.
Lemma mul_small : forall a b i j, small i j -> is_finite a = true -> is_finite b = true ->
  IZR i <= B2R a * B2R b <= IZR j ->
  is_finite (f_mul a b) = true /\ B2R (f_mul a b) = rnd (B2R a * B2R b) /\ Bsign (f_mul a b) = xorb (Bsign a) (Bsign b).
Proof.
intros a b i j [Hi Hj] Fa Fb H.
generalize (Bmult_correct 53 1024 hp hpe mode_NE a b). unfold round_mode.
rewrite (small_no_overflow _ i j Hi Hj H). intros (A & B & C).
rewrite Fa, Fb in B. simpl in B. repeat split; auto. apply C. now apply fin_nan.
Qed.
Lemma div_small : forall a b i j, small i j -> is_finite a = true -> B2R b <> 0 ->
  IZR i <= B2R a / B2R b <= IZR j ->
  is_finite (f_div a b) = true /\ B2R (f_div a b) = rnd (B2R a / B2R b).
Proof.
intros a b i j [Hi Hj] Fa Zb H.
generalize (Bdiv_correct 53 1024 hp hpe mode_NE a b Zb). unfold round_mode.
rewrite (small_no_overflow _ i j Hi Hj H). intros (A & B & C).
rewrite Fa in B. repeat split; auto.
Qed.
Lemma in_rnd : forall r i j x, small i j -> is_finite r = true -> B2R r = rnd x -> IZR i <= x <= IZR j -> f_in r i j.
Proof.
intros r i j x [Hi Hj] F E H. apply in_spec; auto. split; auto. rewrite E. now apply rnd_between.
Qed.
Lemma in_fin : forall x i j, small i j -> f_in x i j -> is_finite x = true /\ IZR i <= B2R x <= IZR j.
Proof. intros x i j [Hi Hj] H. now apply in_spec in H. Qed.

(* ---- comparison through the extended reals ---- *)
Inductive ext := NI | Fin (r : R) | PI | NN.
Definition toext (x : F64) := match x with B754_nan => NN | B754_infinity true => NI | B754_infinity false => PI | _ => Fin (B2R x) end.
Definition ele a b := match a, b with NN, _ | _, NN => False | NI, _ => True | _, PI => True | Fin x, Fin y => x <= y | _, _ => False end.
Definition elt a b := match a, b with NN, _ | _, NN => False | NI, NI => False | NI, _ => True | PI, _ => False | _, PI => True | Fin x, Fin y => x < y | _, _ => False end.
Lemma toext_fin : forall x : F64, is_finite x = true -> toext x = Fin (B2R x).
Proof. now intros [| | |]. Qed.
Lemma le_ext : forall a b, f_le a b <-> ele (toext a) (toext b).
Proof.
intros a b. destruct (is_finite a) eqn:Fa, (is_finite b) eqn:Fb.
- rewrite (toext_fin a Fa), (toext_fin b Fb). now apply le_fin.
- destruct b as [s|[|]| |s m e H]; try discriminate; rewrite (toext_fin a Fa); unfold f_le, f_cmp, Bcompare;
  destruct a as [sa|sa| |sa ma ea Ha]; try discriminate; simpl; try destruct sa; simpl; intuition discriminate.
- destruct a as [s|[|]| |s m e H]; try discriminate; rewrite (toext_fin b Fb); unfold f_le, f_cmp, Bcompare;
  destruct b as [sa|sa| |sa ma ea Ha]; try discriminate; simpl; try destruct sa; simpl; intuition discriminate.
- destruct a as [s|[|]| |s m e H], b as [sb|[|]| |sb mb eb Hb]; try discriminate; unfold f_le, f_cmp, Bcompare; simpl; intuition discriminate.
Qed.
Lemma lt_ext : forall a b, f_lt a b <-> elt (toext a) (toext b).
Proof.
intros a b. destruct (is_finite a) eqn:Fa, (is_finite b) eqn:Fb.
- rewrite (toext_fin a Fa), (toext_fin b Fb). now apply lt_fin.
- destruct b as [s|[|]| |s m e H]; try discriminate; rewrite (toext_fin a Fa); unfold f_lt, f_cmp, Bcompare;
  destruct a as [sa|sa| |sa ma ea Ha]; try discriminate; simpl; try destruct sa; simpl; intuition discriminate.
- destruct a as [s|[|]| |s m e H]; try discriminate; rewrite (toext_fin b Fb); unfold f_lt, f_cmp, Bcompare;
  destruct b as [sa|sa| |sa ma ea Ha]; try discriminate; simpl; try destruct sa; simpl; intuition discriminate.
- destruct a as [s|[|]| |s m e H], b as [sb|[|]| |sb mb eb Hb]; try discriminate; unfold f_lt, f_cmp, Bcompare; simpl; intuition discriminate.
Qed.
Lemma ord_ext : forall a, f_ord a <-> toext a <> NN.
Proof. intros a. rewrite ord_nan. destruct a as [|[|]| |]; simpl; split; intro; try easy; discriminate. Qed.
Lemma toext_int : forall i, (Z.abs i <= big)%Z -> toext (f_int i) = Fin (IZR i).
Proof. intros i H. destruct (int_correct i H) as (F & E & _). rewrite toext_fin by easy. now rewrite E. Qed.
Lemma ge0 : forall x, f_le (f_int 0) x -> toext x = PI \/ (is_finite x = true /\ 0 <= B2R x).
Proof.
intros x H. apply le_ext in H. rewrite toext_int in H by (unfold big; lia).
destruct x as [s|[|]| |s m e B]; simpl in H |- *; auto; try easy.
Qed.
Lemma gt0 : forall x, f_lt (f_int 0) x -> toext x = PI \/ (is_finite x = true /\ 0 < B2R x).
Proof.
intros x H. apply lt_ext in H. rewrite toext_int in H by (unfold big; lia).
destruct x as [s|[|]| |s m e B]; simpl in H |- *; auto; try easy.
Qed.
Lemma pi_inf : forall x : F64, toext x = PI -> x = B754_infinity false.
Proof. now intros [|[|]| |]. Qed.
Ltac sml := unfold small, big in *; lia.
Ltac use H := apply in_fin in H; [|sml]; destruct H as [? [? ?]].

Lemma axiom_f_cmp : forall a b, is_Some (f_cmp a b) <-> f_ord a /\ f_ord b.
Proof.
intros a b. rewrite !ord_nan. unfold is_Some.
destruct a as [s|[|]| |[|] m e H], b as [sb|[|]| |[|] mb eb Hb]; unfold f_cmp, Bcompare; simpl; intuition try discriminate;
try (destruct sb; discriminate); try (destruct s; discriminate).
Qed.
Lemma axiom_f_rev : forall a b,
  (f_cmp a b = Some Lt <-> f_cmp b a = Some Gt) /\ (f_cmp a b = Some Eq <-> f_cmp b a = Some Eq) /\
  (f_cmp a b = Some Gt <-> f_cmp b a = Some Lt).
Proof.
intros a b. unfold f_cmp. rewrite (Bcompare_swap _ _ b a). 
destruct (Bcompare b a) as [[| |]|]; simpl; intuition discriminate.
Qed.
Lemma axiom_trans : forall a b c, f_le a b -> f_le b c -> f_le a c /\ (f_lt a b \/ f_lt b c -> f_lt a c).
Proof.
intros a b c. rewrite !le_ext, !lt_ext.
destruct (toext a), (toext b), (toext c); simpl; intuition (try lra).
Qed.
Lemma axiom_comm : forall a b, f_add a b = f_add b a /\ f_mul a b = f_mul b a.
Proof.
intros a b. split.
- destruct (is_finite a) eqn:Fa, (is_finite b) eqn:Fb.
  + generalize (Bplus_correct 53 1024 hp hpe mode_NE a b Fa Fb) (Bplus_correct 53 1024 hp hpe mode_NE b a Fb Fa).
    rewrite (Rplus_comm (B2R b)). fold f_add.
    destruct Rlt_bool.
    * intros (A1 & A2 & A3) (B1 & B2 & B3). apply B2R_Bsign_inj; auto.
      -- now rewrite A1.
      -- rewrite A3, B3. destruct Rcompare; auto. apply andb_comm.
    * intros (A1 & A2) (B1 & B2). apply B2SF_inj. rewrite A1, B1. now rewrite A2.
  + destruct b as [s|s| |s m e H]; try discriminate; destruct a as [sa|sa| |sa ma ea Ha]; try discriminate; reflexivity.
  + destruct a as [s|s| |s m e H]; try discriminate; destruct b as [sb|sb| |sb mb eb Hb]; try discriminate; reflexivity.
  + destruct a as [s|s| |s m e H]; try discriminate; destruct b as [sb|sb| |sb mb eb Hb]; try discriminate; try reflexivity.
    destruct s, sb; reflexivity.
- destruct (is_finite a) eqn:Fa, (is_finite b) eqn:Fb.
  + generalize (Bmult_correct 53 1024 hp hpe mode_NE a b) (Bmult_correct 53 1024 hp hpe mode_NE b a).
    rewrite (Rmult_comm (B2R b)). fold f_mul. rewrite Fa, Fb. simpl andb.
    destruct Rlt_bool.
    * intros (A1 & A2 & A3) (B1 & B2 & B3). apply B2R_Bsign_inj; auto.
      -- now rewrite A1.
      -- rewrite A3, B3 by (now apply fin_nan). apply xorb_comm.
    * intros A1 B1. apply B2SF_inj. rewrite A1, B1. now rewrite xorb_comm.
  + destruct b as [s|s| |s m e H]; try discriminate; destruct a as [sa|sa| |sa ma ea Ha]; try discriminate; unfold f_mul, Bmult; try reflexivity; now rewrite xorb_comm.
  + destruct a as [s|s| |s m e H]; try discriminate; destruct b as [sb|sb| |sb mb eb Hb]; try discriminate; unfold f_mul, Bmult; try reflexivity; now rewrite xorb_comm.
  + destruct a as [s|s| |s m e H]; try discriminate; destruct b as [sb|sb| |sb mb eb Hb]; try discriminate; unfold f_mul, Bmult; try reflexivity; now rewrite xorb_comm.
Qed.
Lemma axiom_int : forall i j, (- big <= i /\ i <= big)%Z -> (- big <= j /\ j <= big)%Z ->
  f_ord (f_int i) /\ (f_le (f_int i) (f_int j) <-> (i <= j)%Z) /\ (f_lt (f_int i) (f_int j) <-> (i < j)%Z).
Proof.
intros i j Hi Hj. rewrite ord_ext, le_ext, lt_ext, !toext_int by (unfold big in *; lia).
repeat split; intros; try easy; simpl in *; try (now apply IZR_le); try (now apply IZR_lt).
now apply le_IZR. now apply lt_IZR.
Qed.
Lemma int_any : forall i, (0 <= i <= 18446744073709551616)%Z -> is_finite (f_int i) = true /\ B2R (f_int i) = rnd (IZR i).
Proof.
intros i Hi. unfold f_int.
generalize (binary_normalize_correct 53 1024 hp hpe mode_NE i 0 false). cbv zeta.
assert (E: F2R (Float radix2 i 0) = IZR i) by (unfold F2R; simpl; lra).
rewrite E. unfold round_mode. rewrite Rlt_bool_true.
- intros (A & B & _). now split.
- assert (G: generic_format radix2 fexp64 (bpow radix2 64)).
  { apply generic_format_bpow. unfold SpecFloat.fexp, SpecFloat.emin. lia. }
  assert (B64: bpow radix2 64 = IZR 18446744073709551616) by (simpl; lra).
  apply Rle_lt_trans with (bpow radix2 64); [|apply bpow_lt; lia].
  rewrite Rabs_pos_eq.
  + apply Rle_trans with (rnd (bpow radix2 64)).
    * apply round_le; auto with typeclass_instances. rewrite B64. apply IZR_le. lia.
    * rewrite round_generic; auto with typeclass_instances. lra.
  + rewrite <- (rnd_int 0) by (unfold big; lia). apply round_le; auto with typeclass_instances. apply IZR_le. lia.
Qed.
Lemma axiom_int_mono : forall i j, (0 <= i /\ i <= j /\ j <= 18446744073709551616)%Z -> f_le (f_int i) (f_int j).
Proof.
intros i j H. destruct (int_any i ltac:(lia)) as [A B], (int_any j ltac:(lia)) as [C D].
apply le_fin; auto. rewrite B, D. apply round_le; auto with typeclass_instances. apply IZR_le. lia.
Qed.
Lemma axiom_lit_int : f_int 0 = f_lit 0 /\ f_int 1 = f_lit 4607182418800017408 /\ f_int 2 = f_lit 4611686018427387904 /\ f_int 4 = f_lit 4616189618054758400 /\ f_int 8 = f_lit 4620693217682128896 /\ f_int 2097152 = f_lit 4701758010974797824 /\ f_int (- 2097152) = f_lit 13925130047829573632 /\ f_int (- 1) = f_lit 13830554455654793216.
Proof. repeat split; apply B2SF_inj; vm_compute; reflexivity. Qed.
Lemma axiom_lit : forall b c, (0 <= b < 18446744073709551616)%Z -> (0 <= c < 18446744073709551616)%Z ->
  (b <= c)%Z -> (c <= 9218868437227405312)%Z -> f_le (f_lit b) (f_lit c).
Proof.
intros b c Hb Hc L K. apply le_ext.
destruct (Z.eq_dec c INF) as [->|N].
- rewrite lit_inf. destruct (Z.eq_dec b INF) as [->|N].
  + rewrite lit_inf. exact I.
  + destruct (lit_small b) as (F & _ & _). { unfold INF in *; lia. }
    rewrite (toext_fin _ F). exact I.
- destruct (lit_small c) as (Fc & _ & Vc). { unfold INF in *; lia. }
  destruct (lit_small b) as (Fb & _ & Vb). { unfold INF in *; lia. }
  rewrite (toext_fin _ Fb), (toext_fin _ Fc). simpl. rewrite Vb, Vc. apply val_mono. lia.
Qed.
Lemma lit_neg : forall b, (0 <= b <= INF)%Z -> f_lit (NEG + b) = f_neg (f_lit b).
Proof.
intros b K.
destruct (lit_bits (NEG + b)) as [I N]. { unfold ok_bits, INF, NEG, NINF in *. lia. }
assert (E: f_bits (f_neg (f_lit (NEG + b))) = b).
{ destruct (f_lit (NEG + b)) as [s|s| |s m e H] eqn:Q; try discriminate; unfold f_neg, Bopp.
  - rewrite bits_zero in I. rewrite bits_zero. destruct s; simpl; unfold INF, NEG, NINF in *; lia.
  - rewrite bits_inf in I. rewrite bits_inf. destruct s; simpl; unfold INF, NEG, NINF in *; lia.
  - pose proof (bits_finite_range s m e H). rewrite bits_finite in *. destruct s; simpl negb; unfold INF, NEG, NINF in *; lia. }
rewrite <- E at 2. rewrite lit_bits_id. unfold f_neg. symmetry. apply Bopp_involutive.
Qed.
Lemma axiom_lit_neg : forall b c d e, (0 <= b < 18446744073709551616)%Z -> (0 <= c < 18446744073709551616)%Z ->
  (0 <= d < 18446744073709551616)%Z -> (0 <= e < 18446744073709551616)%Z ->
  (b <= c)%Z -> (c <= 9218868437227405312)%Z -> (d = b + 9223372036854775808)%Z -> (e = c + 9223372036854775808)%Z ->
  f_le (f_lit e) (f_lit d) /\ f_le (f_lit d) (f_int 0).
Proof.
intros b c d e Hb Hc _ _ L K -> ->. rewrite !(Z.add_comm _ 9223372036854775808).
assert (M: forall x y, f_le x y -> f_le (f_neg y) (f_neg x)).
{ intros x y. rewrite !le_ext.
  assert (T: forall z, toext (f_neg z) = match toext z with Fin r => Fin (- r) | PI => NI | NI => PI | NN => NN end).
  { intros [[|]|[|]| |s m e H]; try reflexivity.
    - simpl. now rewrite Ropp_0.
    - simpl. now rewrite Ropp_0.
    - unfold f_neg. rewrite (toext_fin (Bopp _)), B2R_Bopp by reflexivity. reflexivity. }
  rewrite !T. destruct (toext x), (toext y); simpl; try easy; lra. }
fold NEG. rewrite !lit_neg by (unfold INF; lia).
split. { apply M. now apply axiom_lit. }
replace (f_int 0) with (f_neg (f_neg (f_int 0))) by apply Bopp_involutive.
apply M. change (f_neg (f_int 0)) with (f_lit NEG).
apply (axiom_trans _ (f_lit 0)). { apply le_fin; try easy. simpl. lra. }
apply axiom_lit; try lia.
Qed.
Lemma ge0_sign : forall x, f_lt (f_int 0) x -> Bsign x = false /\ is_nan x = false.
Proof.
intros x H. destruct (gt0 x H) as [K|[F K]].
- rewrite (pi_inf x K). now split.
- split; [|now apply fin_nan]. destruct x as [s|s| |[|] m e B]; try discriminate; simpl in *; auto; try lra.
Qed.
Lemma axiom_bits : forall x, f_lit (f_bits x) = x /\
  (f_ord x -> ((f_bits x <= 9218868437227405312)%Z \/ ((9223372036854775808 <= f_bits x)%Z /\ (f_bits x <= 18442240474082181120)%Z))) /\
  (f_lt (f_int 0) x -> ((0 < f_bits x)%Z /\ (f_bits x <= 9218868437227405312)%Z)) /\
  (f_le (f_int 0) x -> (f_bits x <= 9223372036854775808)%Z) /\
  (f_ord x <-> ~ ((9218868437227405312 < f_bits x)%Z /\ (f_bits x < 9223372036854775808)%Z \/ (18442240474082181120 < f_bits x)%Z)).
Proof.
intros x. split; [apply lit_bits_id|].
assert (R := bits_range x).
assert (O: f_ord x -> ok_bits (f_bits x)). { intros K. apply ord_nan in K. now apply (bits_sign x K). }
unfold ok_bits, INF, NEG, NINF in O.
split; [intros K; specialize (O K); lia|].
split.
- intros K. destruct (ge0_sign x K) as [S N]. destruct (bits_sign x N) as [E _]. apply E in S. unfold INF in S.
  split; [|lia].
  destruct (Z.eq_dec (f_bits x) 0) as [Z0|]; [|lia]. exfalso.
  rewrite <- (lit_bits_id x), Z0 in K. apply lt_ext in K. rewrite toext_int in K by (unfold big; lia).
  change (f_lit 0) with (B754_zero false : F64) in K. simpl in K. lra.
- split.
  + intros K. destruct (ge0 x K) as [P|[F P]].
    * rewrite (pi_inf x P), bits_inf. unfold INF. lia.
    * destruct x as [s|s| |[|] m e B]; try discriminate.
      -- rewrite bits_zero. destruct s; unfold NEG; lia.
      -- exfalso. unfold B2R, F2R in P; simpl in P. pose proof (bpow_gt_0 radix2 e).
         assert (IZR (Z.neg m) < 0) by (apply IZR_lt; lia). nra.
      -- pose proof (bits_finite_range false m e B). unfold INF in *. lia.
  + split.
    * intros K. specialize (O K). lia.
    * intros K. apply ord_nan. destruct x as [s|s| |s m e B]; auto. exfalso. apply K. left.
      pose proof bits_nan. unfold INF, NEG in *. lia.
Qed.
Lemma axiom_lit_bits : forall b, (0 <= b < 18446744073709551616)%Z ->
  ((b <= 9218868437227405312)%Z \/ ((9223372036854775808 <= b)%Z /\ (b <= 18442240474082181120)%Z)) ->
  f_bits (f_lit b) = b /\ f_ord (f_lit b).
Proof.
intros b R K. destruct (lit_bits b) as [A B]. { unfold ok_bits, INF, NEG, NINF. lia. }
split; auto. now apply ord_nan.
Qed.

Lemma div_le_l : forall a b c, 0 < c -> a <= b * c -> a / c <= b.
Proof. intros a b c H L. apply Rmult_le_reg_r with c; auto. unfold Rdiv. rewrite Rmult_assoc, Rinv_l, Rmult_1_r; lra. Qed.
Lemma div_le_r : forall a b c, 0 < c -> b * c <= a -> b <= a / c.
Proof. intros a b c H L. apply Rmult_le_reg_r with c; auto. unfold Rdiv. rewrite Rmult_assoc, Rinv_l, Rmult_1_r; lra. Qed.
Lemma axiom_add_in : forall a b i j k l, f_in a i j -> f_in b k l ->
  (- big <= i + k)%Z -> (j + l <= big)%Z -> (- big <= i /\ i <= j /\ j <= big)%Z -> (- big <= k /\ k <= l /\ l <= big)%Z ->
  f_in (f_add a b) (i + k) (j + l).
Proof.
intros a b i j k l Ha Hb S1 S2 S3 S4. use Ha. use Hb.
assert (R: IZR (i + k) <= B2R a + B2R b <= IZR (j + l)) by (rewrite !plus_IZR; lra).
destruct (add_small a b (i + k) (j + l)) as (F & E & _); auto; [sml|].
apply in_rnd with (x := B2R a + B2R b); auto. sml.
Qed.
Lemma axiom_sub_in : forall a b i j k l, f_in a i j -> f_in b k l ->
  (- big <= i - l)%Z -> (j - k <= big)%Z -> (- big <= i /\ i <= j /\ j <= big)%Z -> (- big <= k /\ k <= l /\ l <= big)%Z ->
  f_in (f_sub a b) (i - l) (j - k).
Proof.
intros a b i j k l Ha Hb S1 S2 S3 S4. use Ha. use Hb.
assert (R: IZR (i - l) <= B2R a - B2R b <= IZR (j - k)) by (rewrite !minus_IZR; lra).
destruct (sub_small a b (i - l) (j - k)) as (F & E); auto; [sml|].
apply in_rnd with (x := B2R a - B2R b); auto. sml.
Qed.
Lemma axiom_mul_in : forall a b i j k l, f_in a i j -> f_in b k l ->
  (0 <= i /\ i <= j /\ j <= big)%Z -> (0 <= k /\ k <= l /\ l <= big)%Z -> (j * l <= big)%Z ->
  f_in (f_mul a b) (i * k) (j * l).
Proof.
intros a b i j k l Ha Hb S3 S4 S5. use Ha. use Hb.
assert (0 <= IZR i) by (apply IZR_le; lia). assert (0 <= IZR k) by (apply IZR_le; lia).
assert (R: IZR (i * k) <= B2R a * B2R b <= IZR (j * l)) by (rewrite !mult_IZR; split; apply Rmult_le_compat; lra).
assert (S: small (i * k) (j * l)) by (unfold small, big in *; nia).
destruct (mul_small a b (i * k) (j * l)) as (F & E & _); auto.
apply in_rnd with (x := B2R a * B2R b); auto.
Qed.
Lemma axiom_mul_abs : forall a b i k, f_in a (- i) i -> f_in b (- k) k ->
  (0 <= i /\ i <= big)%Z -> (0 <= k /\ k <= big)%Z -> (i * k <= big)%Z ->
  f_in (f_mul a b) (- (i * k)) (i * k).
Proof.
intros a b i k Ha Hb S3 S4 S5. use Ha. use Hb. rewrite opp_IZR in *.
assert (R: IZR (- (i * k)) <= B2R a * B2R b <= IZR (i * k)).
{ rewrite opp_IZR, !mult_IZR. apply Rabs_le_inv. rewrite Rabs_mult.
  apply Rmult_le_compat; try apply Rabs_pos; apply Rabs_le; lra. }
assert (S: small (- (i * k)) (i * k)) by (unfold small, big in *; nia).
destruct (mul_small a b (- (i * k)) (i * k)) as (F & E & _); auto.
apply in_rnd with (x := B2R a * B2R b); auto.
Qed.
(* a divisor from k on: finite or infinite *)
Lemma div_inf : forall (a : F64) s, is_finite a = true -> f_div a (B754_infinity s) = B754_zero (xorb (Bsign a) s).
Proof. now intros [sa|sa| |sa m e H] s F. Qed.
Lemma zero_in : forall s i j, (- big <= i /\ i <= 0 /\ 0 <= j /\ j <= big)%Z -> f_in (B754_zero s) i j.
Proof.
intros s i j H. apply in_spec; try (unfold big in *; lia). split; auto. simpl.
split; apply IZR_le; lia.
Qed.
Lemma from_k : forall b k, (1 <= k /\ k <= big)%Z -> f_le (f_int k) b -> b = B754_infinity false \/ (is_finite b = true /\ IZR k <= B2R b).
Proof.
intros b k Hk H. apply le_ext in H. rewrite toext_int in H by (unfold big in *; lia).
destruct b as [s|[|]| |s m e B]; simpl in H |- *; auto; easy.
Qed.
Lemma axiom_div_in : forall a b i k, f_in a 0 (i * k) -> f_le (f_int k) b ->
  (0 <= i /\ i <= big)%Z -> (1 <= k /\ k <= big)%Z -> (i * k <= big)%Z -> f_in (f_div a b) 0 i.
Proof.
intros a b i k Ha Hb S3 S4 S5.
apply in_fin in Ha; [|unfold small, big in *; nia]. destruct Ha as [Fa [A1 A2]].
destruct (from_k b k S4 Hb) as [->|[Fb B1]].
- rewrite div_inf by easy. apply zero_in. unfold big in *; lia.
- assert (1 <= IZR k) by (apply IZR_le; lia). assert (0 <= IZR i) by (apply IZR_le; lia).
  assert (R: IZR 0 <= B2R a / B2R b <= IZR i).
  { split.
    - apply Rmult_le_pos; [lra|]. apply Rlt_le, Rinv_0_lt_compat. lra.
    - apply div_le_l; [lra|]. rewrite mult_IZR in A2. nra. }
  assert (S: small 0 i) by (unfold small, big in *; nia).
  destruct (div_small a b 0 i) as (F & E); auto; [lra|].
  apply in_rnd with (x := B2R a / B2R b); auto.
Qed.
Lemma axiom_div_abs : forall a b i, f_in a (- i) i -> f_le (f_int 1) b -> (0 <= i /\ i <= big)%Z -> f_in (f_div a b) (- i) i.
Proof.
intros a b i Ha Hb S3. use Ha. rewrite opp_IZR in *.
destruct (from_k b 1) as [->|[Fb B1]]; [unfold big; lia|easy| |].
- rewrite div_inf by easy. apply zero_in. unfold big in *; lia.
- assert (0 <= IZR i) by (apply IZR_le; lia).
  assert (R: IZR (- i) <= B2R a / B2R b <= IZR i).
  { rewrite opp_IZR. split.
    - apply div_le_r; [lra|]. nra.
    - apply div_le_l; [lra|]. nra. }
  assert (S: small (- i) i) by (unfold small, big in *; nia).
  destruct (div_small a b (- i) i) as (F & E); auto; [lra|].
  apply in_rnd with (x := B2R a / B2R b); auto.
Qed.
Lemma axiom_div_part : forall a b i, f_le (f_int 0) a -> f_le a b -> f_lt (f_int 0) b -> f_le b (f_int i) ->
  (1 <= i /\ i <= big)%Z -> f_in (f_div a b) 0 1.
Proof.
intros a b i A1 A2 A3 A4 S.
assert (B: f_in b 0 i). { split; auto. apply lt_ext in A3. apply le_ext. destruct (toext (f_int 0)), (toext b); simpl in *; auto; lra. }
use B.
destruct (gt0 b A3) as [K|[_ K]]. { rewrite toext_fin in K by easy. discriminate. }
destruct (ge0 a A1) as [K'|[Fa K']]. { apply le_ext in A2. rewrite K', (toext_fin b) in A2 by easy. easy. }
apply le_ext in A2. rewrite !toext_fin in A2 by easy. simpl in A2.
assert (R: IZR 0 <= B2R a / B2R b <= IZR 1).
{ split. apply Rmult_le_pos; [lra|]. apply Rlt_le, Rinv_0_lt_compat. lra. apply div_le_l; lra. }
assert (S1: small 0 1) by (unfold small, big; lia).
destruct (div_small a b 0 1) as (F & E); auto; [lra|].
apply in_rnd with (x := B2R a / B2R b); auto.
Qed.
Lemma over_inf : forall (r : F64) s, B2SF r = binary_overflow 53 1024 mode_NE s -> r = B754_infinity s.
Proof. intros x s H. destruct x; simpl in H; try discriminate. injection H as H. now rewrite H. Qed.
Lemma pos_sign : forall x : F64, is_finite x = true -> 0 < B2R x -> Bsign x = false.
Proof.
intros [s|s| |[|] m e B] F H; try discriminate; simpl in *; auto; try lra.
exfalso. unfold F2R in H. cbn [Fnum Fexp] in H. pose proof (bpow_gt_0 radix2 e).
assert (IZR (Z.neg m) < 0) by (apply IZR_lt; lia). nra.
Qed.
Lemma neg_sign : forall x : F64, is_finite x = true -> B2R x < 0 -> Bsign x = true.
Proof.
intros [s|s| |[|] m e B] F H; try discriminate; simpl in *; auto; try lra.
exfalso. unfold F2R in H. cbn [Fnum Fexp] in H. pose proof (bpow_gt_0 radix2 e).
assert (0 < IZR (Z.pos m)) by (apply IZR_lt; lia). nra.
Qed.
Lemma rnd_0 : rnd 0 = 0.
Proof. apply round_0; auto with typeclass_instances. Qed.
Lemma no_over_0 : Rlt_bool (Rabs (rnd 0)) (bpow radix2 1024) = true.
Proof. rewrite rnd_0, Rabs_R0. apply Rlt_bool_true, bpow_gt_0. Qed.
Lemma rnd_ge0 : forall x, 0 <= x -> 0 <= rnd x.
Proof. intros x H. rewrite <- rnd_0. apply round_le; auto with typeclass_instances. Qed.
Lemma le0_fin : forall r : F64, is_finite r = true -> 0 <= B2R r -> f_le (f_int 0) r.
Proof. intros r F H. apply le_ext. rewrite toext_int by (unfold big; lia). now rewrite toext_fin. Qed.
Lemma le0_inf : f_le (f_int 0) (B754_infinity false).
Proof. now left. Qed.

(* dividing a finite number that is not negative by a positive finite one *)
Lemma div_fin_pos : forall a b : F64, is_finite a = true -> 0 <= B2R a -> is_finite b = true -> 0 < B2R b ->
  (is_finite (f_div a b) = true /\ B2R (f_div a b) = rnd (B2R a / B2R b)) \/ f_div a b = B754_infinity false.
Proof.
intros a b Fa A Fb B.
assert (Zb: B2R b <> 0) by lra.
generalize (Bdiv_correct 53 1024 hp hpe mode_NE a b Zb). unfold round_mode. fold f_div. rewrite Fa.
destruct (Req_dec (B2R a) 0) as [Z|NZ].
- unfold Rdiv. rewrite Z, Rmult_0_l, no_over_0. intros (H1 & H2 & _). auto.
- destruct Rlt_bool.
  + intros (H1 & H2 & _). auto.
  + intros H. right. apply over_inf in H. rewrite H.
    rewrite (pos_sign a), (pos_sign b) by (auto; lra). reflexivity.
Qed.
Lemma axiom_div_pos : forall a b i, f_in a 1 i -> (1 <= i /\ i <= big)%Z -> f_lt (f_int 0) b -> f_le b (f_int 18446744073709551616) ->
  f_lt (f_int 0) (f_div a b).
Proof.
intros a b i Ha S Hb Lb. use Ha.
destruct (gt0 b Hb) as [K|[Fb K]].
{ apply le_ext in Lb. rewrite K in Lb. destruct (int_any 18446744073709551616 ltac:(lia)) as [F _]. rewrite (toext_fin _ F) in Lb. easy. }
assert (U: B2R b <= bpow radix2 64).
{ destruct (int_any 18446744073709551616 ltac:(lia)) as [F E]. apply le_fin in Lb; auto. rewrite E in Lb.
  assert (B64: bpow radix2 64 = IZR 18446744073709551616) by (simpl; lra).
  rewrite <- B64 in Lb. rewrite round_generic in Lb; auto with typeclass_instances.
  apply generic_format_bpow. unfold SpecFloat.fexp, SpecFloat.emin. lia. }
apply lt_ext. rewrite toext_int by (unfold big; lia).
destruct (div_fin_pos a b) as [[F E]|E]; auto; try lra.
- rewrite toext_fin by easy. simpl. rewrite E.
  apply Rlt_le_trans with (bpow radix2 (-64)); [apply bpow_gt_0|].
  assert (G: generic_format radix2 fexp64 (bpow radix2 (-64))).
  { apply generic_format_bpow. unfold SpecFloat.fexp, SpecFloat.emin. lia. }
  rewrite <- (round_generic radix2 fexp64 ZnearestE _ G).
  apply round_le; auto with typeclass_instances.
  apply div_le_r; [lra|].
  apply Rle_trans with (bpow radix2 (-64) * bpow radix2 64).
  + apply Rmult_le_compat_l; auto. apply bpow_ge_0.
  + rewrite <- bpow_plus. simpl. lra.
- rewrite E. exact I.
Qed.
Lemma axiom_div_ord : forall a b i, f_in a 0 i -> (0 <= i /\ i <= big)%Z -> f_lt (f_int 0) b -> f_le (f_int 0) (f_div a b).
Proof.
intros a b i Ha S Hb. use Ha.
destruct (gt0 b Hb) as [K|[Fb K]].
- rewrite (pi_inf b K), div_inf by easy. apply le0_fin; [easy|simpl; lra].
- destruct (div_fin_pos a b) as [[F E]|E]; auto; try lra.
  + apply le0_fin; auto. rewrite E. apply rnd_ge0. apply Rmult_le_pos; [lra|]. apply Rlt_le, Rinv_0_lt_compat. lra.
  + rewrite E. apply le0_inf.
Qed.
Lemma fin_int_eq : forall (x : F64) i, (Z.abs i <= big)%Z -> is_finite x = true -> B2R x = IZR i -> Bsign x = Z.ltb i 0 -> x = f_int i.
Proof. intros x i H F E S. destruct (int_correct i H) as (A & B & C). apply B2R_Bsign_inj; auto; congruence. Qed.
Lemma div_sign : forall a b : F64, B2R b <> 0 -> is_nan (f_div a b) = false -> is_finite (f_div a b) = true -> Bsign (f_div a b) = xorb (Bsign a) (Bsign b).
Proof.
intros a b Zb N F. generalize (Bdiv_correct 53 1024 hp hpe mode_NE a b Zb). fold f_div. destruct Rlt_bool.
- intros (_ & _ & H). now apply H.
- intros H. apply over_inf in H. rewrite H in F. easy.
Qed.
Lemma axiom_div_self : forall i, (1 <= i /\ i <= big)%Z -> f_div (f_int i) (f_int i) = f_int 1.
Proof.
intros i S. destruct (int_correct i) as (F & E & Sg); [unfold big in *; lia|].
assert (1 <= IZR i) by (apply IZR_le; lia).
destruct (div_small (f_int i) (f_int i) 1 1) as (Fd & Ed); auto; [unfold small, big; lia|lra| |].
{ rewrite E. unfold Rdiv. rewrite Rinv_r by lra. lra. }
apply fin_int_eq; auto; [unfold big; lia| |].
- rewrite Ed, E. unfold Rdiv. rewrite Rinv_r by lra. apply rnd_int. unfold big; lia.
- rewrite div_sign; auto; [now rewrite xorb_nilpotent|lra|now apply fin_nan].
Qed.
Lemma axiom_div_same : forall a i, f_in a (- i) i -> (1 <= i /\ i <= big)%Z -> f_lt (f_int 0) a \/ f_lt a (f_int 0) -> f_div a a = f_int 1.
Proof.
intros a i H S N. use H.
destruct (int_correct 0) as (F0 & E0 & S0); [unfold big; lia|].
assert (Z: B2R a <> 0). { destruct N as [N|N]; apply lt_fin in N; auto; rewrite E0 in N; lra. }
destruct (div_small a a 1 1) as (Fd & Ed); auto; [unfold small, big; lia| |].
{ unfold Rdiv. rewrite Rinv_r by lra. lra. }
apply fin_int_eq; auto; [unfold big; lia| |].
- rewrite Ed. unfold Rdiv. rewrite Rinv_r by lra. apply rnd_int. unfold big; lia.
- rewrite div_sign; auto; [now rewrite xorb_nilpotent|now apply fin_nan].
Qed.
Lemma axiom_equal : forall a b, f_cmp a b = Some Eq -> f_lt (f_int 0) a -> a = b.
Proof.
intros a b C H. destruct (gt0 a H) as [K|[F K]].
- rewrite (pi_inf a K) in *. destruct b as [s|[|]| |[|] m e B]; try discriminate. reflexivity.
- destruct (is_finite b) eqn:Fb.
  + rewrite cmp_fin in C by easy. assert (E: B2R a = B2R b). { destruct (Rcompare_spec (B2R a) (B2R b)); congruence. }
    apply B2R_Bsign_inj; auto.
    destruct a as [s|s| |[|] m e B], b as [s'|s'| |[|] m' e' B']; try discriminate; simpl in *; auto; try lra.
    * assert (F2R (Float radix2 (Z.neg m') e') < 0) by (now apply F2R_lt_0). lra.
  + exfalso. destruct b as [s|[|]| |s m e B]; try discriminate; destruct a as [s1|s1| |[|] m1 e1 B1]; try discriminate.
Qed.
Lemma mul_nz : forall a b : F64, is_finite a = true -> B2R a <> 0 -> is_nan b = false ->
  is_nan (f_mul a b) = false /\
  (is_finite (f_mul a b) = true /\ B2R (f_mul a b) = rnd (B2R a * B2R b) /\ is_finite b = true \/
   f_mul a b = B754_infinity (xorb (Bsign a) (Bsign b)) /\ (is_finite b = true -> B2R b <> 0)).
Proof.
intros a b Fa Za Nb. destruct (is_finite b) eqn:Fb.
- generalize (Bmult_correct 53 1024 hp hpe mode_NE a b). unfold round_mode. fold f_mul. rewrite Fa, Fb.
  destruct (Req_dec (B2R b) 0) as [Z|NZ].
  + rewrite Z, Rmult_0_r, no_over_0. intros (H1 & H2 & _). split; [now apply fin_nan|]. left. auto.
  + destruct Rlt_bool.
    * intros (H1 & H2 & _). split; [now apply fin_nan|]. left. auto.
    * intros H. apply over_inf in H. rewrite H. split; [easy|]. right. auto.
- destruct b as [s|s| |s m e B]; try discriminate. destruct a as [sa|sa| |sa ma ea Ha]; try discriminate.
  + simpl in Za. lra.
  + split; [easy|]. right. split; [reflexivity|discriminate].
Qed.
Lemma axiom_mul_ord : forall a b i, f_in a 1 i \/ f_in a (- i) (- (1)) -> (1 <= i /\ i <= big)%Z -> f_ord b ->
  f_ord (f_mul a b) /\ (f_in a 1 i /\ f_le (f_int 0) b -> f_le (f_int 0) (f_mul a b)) /\
  (f_in a (- i) (- (1)) /\ f_le b (f_int 0) -> f_le (f_int 0) (f_mul a b)).
Proof.
intros a b i H S Ob. apply ord_nan in Ob.
assert (A: is_finite a = true /\ B2R a <> 0).
{ destruct H as [H|H]; use H; split; auto; rewrite ?opp_IZR in *; lra. }
destruct A as [Fa Za]. destruct (mul_nz a b Fa Za Ob) as [N C].
split; [now apply ord_nan|]. split.
- intros [Ha Hb]. use Ha. destruct C as [(F & E & Fb)|[E Nb]].
  + apply le0_fin; auto. rewrite E. apply rnd_ge0. destruct (ge0 b Hb) as [K|[_ K]]; [rewrite (pi_inf b K) in Fb; easy|]. nra.
  + rewrite E, (pos_sign a) by (auto; lra). destruct (ge0 b Hb) as [K|[Fb K]].
    * rewrite (pi_inf b K). apply le0_inf.
    * rewrite (pos_sign b); auto; [apply le0_inf|]. specialize (Nb Fb). lra.
- intros [Ha Hb]. use Ha. rewrite ?opp_IZR in *.
  assert (NB: toext b = NI \/ (is_finite b = true /\ B2R b <= 0)).
  { apply le_ext in Hb. rewrite toext_int in Hb by (unfold big; lia). destruct b as [s|[|]| |s m e B]; simpl in *; auto; easy. }
  destruct C as [(F & E & Fb)|[E Nb]].
  + apply le0_fin; auto. rewrite E. apply rnd_ge0. destruct NB as [K|[_ K]]; [destruct b as [s|[|]| |s m e B]; easy|]. nra.
  + rewrite E, (neg_sign a) by (auto; lra). destruct NB as [K|[Fb K]].
    * destruct b as [s|[|]| |s m e B]; try easy; apply le0_inf.
    * rewrite (neg_sign b); auto; [apply le0_inf|]. specialize (Nb Fb). lra.
Qed.
Lemma axiom_mul_zero : forall i, (1 <= i /\ i <= big)%Z -> f_mul (f_int i) (f_int 0) = f_int 0.
Proof.
intros i S. destruct (int_correct i) as (F & E & Sg); [unfold big in *; lia|].
destruct (int_correct 0) as (F0 & E0 & S0); [unfold big; lia|].
destruct (mul_small (f_int i) (f_int 0) 0 0) as (Fm & Em & Sm); auto; [unfold small, big; lia| |].
{ rewrite E0. lra. }
apply fin_int_eq; auto; [unfold big; lia| |].
- rewrite Em, E0, Rmult_0_r. apply rnd_0.
- rewrite Sm, Sg, S0. destruct (Z.ltb_spec i 0); [lia|reflexivity].
Qed.
Lemma axiom_mul_int : forall i j, (- big <= i /\ i <= big)%Z -> (- big <= j /\ j <= big)%Z -> (- big <= i * j /\ i * j <= big)%Z -> (0 < i * j)%Z \/ (i * j < 0)%Z ->
  f_mul (f_int i) (f_int j) = f_int (i * j).
Proof.
intros i j Hi Hj S N. destruct (int_correct i) as (F & E & Sg); [unfold big in *; lia|].
destruct (int_correct j) as (F' & E' & Sg'); [unfold big in *; lia|].
destruct (mul_small (f_int i) (f_int j) (i * j) (i * j)) as (Fm & Em & Sm); auto; [unfold small, big in *; lia| |].
{ rewrite E, E', mult_IZR. lra. }
apply fin_int_eq; auto; [unfold big in *; lia| |].
- rewrite Em, E, E', <- mult_IZR. apply rnd_int. unfold big in *; lia.
- rewrite Sm, Sg, Sg'. destruct (Z.ltb_spec i 0), (Z.ltb_spec j 0), (Z.ltb_spec (i * j) 0); simpl; auto; exfalso; nia.
Qed.
Lemma rnd_b : forall x : F64, rnd (B2R x) = B2R x.
Proof. intros x. apply round_generic; auto with typeclass_instances. apply generic_format_B2R. Qed.
Lemma axiom_add_mono : forall a b i j, f_in a 0 i -> f_in b 0 j -> (0 <= i)%Z -> (0 <= j)%Z -> (i + j <= big)%Z ->
  f_le b (f_add a b) /\ f_le a (f_add a b).
Proof.
intros a b i j Ha Hb S1 S2 S3. use Ha. use Hb.
assert (R: IZR 0 <= B2R a + B2R b <= IZR (i + j)) by (rewrite plus_IZR; lra).
destruct (add_small a b 0 (i + j)) as (F & E & _); auto; [sml|].
split; apply le_fin; auto; rewrite E.
- rewrite <- (rnd_b b) at 1. apply round_le; auto with typeclass_instances. lra.
- rewrite <- (rnd_b a) at 1. apply round_le; auto with typeclass_instances. lra.
Qed.
Lemma sub_in : forall a b i j, f_in a (- i) i -> f_in b (- j) j -> (0 <= i)%Z -> (0 <= j)%Z -> (i + j <= big)%Z ->
  is_finite a = true /\ is_finite b = true /\ is_finite (f_sub a b) = true /\ B2R (f_sub a b) = rnd (B2R a - B2R b).
Proof.
intros a b i j Ha Hb S1 S2 S3. use Ha. use Hb. rewrite opp_IZR in *.
destruct (sub_small a b (- (i + j)) (i + j)) as (F & E); auto; [sml|].
rewrite opp_IZR, plus_IZR; lra.
Qed.
Lemma rnd_gt0 : forall x y : F64, B2R y < B2R x -> 0 < rnd (B2R x - B2R y).
Proof.
intros x y H.
assert (0 <= rnd (B2R x - B2R y)) by (apply rnd_ge0; lra).
assert (rnd (B2R x - B2R y) <> 0); [|lra].
unfold Rminus. change fexp64 with (FLT_exp (3 - 1024 - 53) 53).
assert (Hx := generic_format_B2R 53 1024 x). assert (Hy := generic_format_B2R 53 1024 y).
change fexp64 with (FLT_exp (3 - 1024 - 53) 53) in Hx, Hy.
apply Plus_error.round_plus_neq_0; auto with typeclass_instances.
- now apply generic_format_opp.
- lra.
Qed.
Lemma axiom_sub_sign : forall a b i j, f_in a (- i) i -> f_in b (- j) j -> (0 <= i)%Z -> (0 <= j)%Z -> (i + j <= big)%Z ->
  (f_le b a -> f_le (f_int 0) (f_sub a b)) /\ (f_lt b a -> f_lt (f_int 0) (f_sub a b)) /\ (f_lt a b -> f_lt (f_sub a b) (f_int 0)).
Proof.
intros a b i j Ha Hb S1 S2 S3. destruct (sub_in a b i j) as (Fa & Fb & F & E); auto.
split; [|split]; intros H.
- apply le0_fin; auto. rewrite E. apply le_fin in H; auto. apply rnd_ge0. lra.
- apply lt_fin in H; auto. apply lt_ext. rewrite toext_int by (unfold big; lia). rewrite toext_fin by easy. simpl. rewrite E. now apply rnd_gt0.
- apply lt_fin in H; auto. apply lt_ext. rewrite toext_int by (unfold big; lia). rewrite toext_fin by easy. simpl. rewrite E.
  replace (B2R a - B2R b) with (- (B2R b - B2R a)) by lra. rewrite round_NE_opp. pose proof (rnd_gt0 b a H). lra.
Qed.
Lemma axiom_sub_mono : forall a b c i j, f_in a (- i) i -> f_in b (- i) i -> f_in c (- j) j -> (0 <= i)%Z -> (0 <= j)%Z -> (i + j <= big)%Z ->
  f_le a b -> f_le (f_sub a c) (f_sub b c).
Proof.
intros a b c i j Ha Hb Hc S1 S2 S3 H.
destruct (sub_in a c i j) as (Fa & Fc & F & E); auto. destruct (sub_in b c i j) as (Fb & _ & F' & E'); auto.
apply le_fin; auto. apply le_fin in H; auto. rewrite E, E'. apply round_le; auto with typeclass_instances. lra.
Qed.
Lemma axiom_add_zero : forall x, f_lt (f_int 0) x -> f_add (f_lit 0) x = x /\ f_add (f_lit 9223372036854775808) x = x.
Proof.
intros x H. change (f_lit 0) with (B754_zero false : F64). change (f_lit 9223372036854775808) with (B754_zero true : F64).
destruct (gt0 x H) as [K|[F K]].
- rewrite (pi_inf x K). now split.
- destruct x as [s|s| |s m e B]; try discriminate. now split.
Qed.
Lemma axiom_add_int : forall i j, (0 <= i)%Z -> (0 <= j)%Z -> (i + j <= big)%Z -> f_add (f_int i) (f_int j) = f_int (i + j).
Proof.
intros i j H1 H2 S. destruct (int_correct i) as (F & E & Sg); [unfold big in *; lia|].
destruct (int_correct j) as (F' & E' & Sg'); [unfold big in *; lia|].
assert (R: IZR (i + j) <= B2R (f_int i) + B2R (f_int j) <= IZR (i + j)) by (rewrite E, E', plus_IZR; lra).
destruct (add_small (f_int i) (f_int j) (i + j) (i + j)) as (Fa & Ea & Sa); auto; [unfold small, big in *; lia|].
apply fin_int_eq; auto; [unfold big in *; lia| |].
- rewrite Ea, E, E', <- plus_IZR. apply rnd_int. unfold big in *; lia.
- rewrite Sa, E, E', <- plus_IZR, Sg, Sg'. destruct (Z.ltb_spec (i + j) 0); [lia|].
  destruct (Rcompare_spec (IZR (i + j)) 0) as [K|K|K]; auto.
  + apply lt_IZR in K. lia.
  + destruct (Z.ltb_spec i 0), (Z.ltb_spec j 0); auto; lia.
Qed.
Lemma axiom_min : forall a b, f_ord a -> f_ord b -> (f_min a b = a \/ f_min a b = b) /\ f_le (f_min a b) a /\ f_le (f_min a b) b.
Proof.
intros a b Ha Hb. pose proof (proj2 (axiom_f_cmp a b) (conj Ha Hb)) as C.
assert (Aa: f_le a a). { apply le_ext. apply ord_ext in Ha. destruct (toext a); simpl; auto; lra. }
assert (Bb: f_le b b). { apply le_ext. apply ord_ext in Hb. destruct (toext b); simpl; auto; lra. }
apply ord_nan in Ha, Hb.
unfold f_min. rewrite Ha, Hb. unfold is_Some in C.
destruct (f_cmp a b) as [[| |]|] eqn:K; try easy.
- split; auto. split; auto. now right.
- split; auto. split; auto. now left.
- split; auto. split; auto. destruct (axiom_f_rev a b) as (_ & _ & R). apply R in K. now left.
Qed.
Lemma axiom_scale : forall x, ((0 < f_bits x)%Z /\ (f_bits x < 4503599627370496)%Z) ->
  ((4503599627370496 <= f_bits (f_mul x (f_lit 4850376798678024192)))%Z /\ (f_bits (f_mul x (f_lit 4850376798678024192)) < 310748374288564224)%Z).
Proof.
intros x [H1 H2].
destruct x as [s|s| |s m e B].
{ rewrite bits_zero in *. destruct s; unfold NEG in *; lia. }
{ rewrite bits_inf in *. destruct s; unfold INF, NINF in *; lia. }
{ pose proof bits_nan. unfold INF in *. lia. }
pose proof (bits_finite_range s m e B) as BR.
destruct s; [unfold NEG in BR; lia|].
assert (M: (Z.pos m < P52)%Z /\ e = (-1074)%Z).
{ rewrite bits_finite in H1, H2. destruct (mant_range m e B) as (A & C & D).
  destruct (Z.leb_spec P52 (Z.pos m)); unfold P52 in *; [lia|]. split; [lia|]. now apply D. }
destruct M as [M ->].
set (x := (B754_finite false m (-1074) B : F64)) in *.
assert (X: B2R x = IZR (Z.pos m) * bpow radix2 (-1074)) by reflexivity.
destruct (lit_small 4850376798678024192) as (Ft & St & Vt); [unfold INF; lia|].
assert (T: B2R (f_lit 4850376798678024192) = bpow radix2 54).
{ rewrite Vt. unfold val. change (4850376798678024192 / P52)%Z with 1077%Z. change (4850376798678024192 mod P52)%Z with 0%Z. 
  cbn [Z.eqb]. rewrite Z.add_0_l. replace (IZR P52) with (bpow radix2 52) by (unfold P52; simpl; lra). rewrite <- bpow_plus. f_equal. }
assert (P: B2R x * B2R (f_lit 4850376798678024192) = IZR (Z.pos m) * bpow radix2 (-1020)).
{ rewrite X, T, Rmult_assoc, <- bpow_plus. reflexivity. }
assert (M1: 1 <= IZR (Z.pos m)) by (apply IZR_le; lia).
assert (M2: IZR (Z.pos m) <= bpow radix2 52) by (replace (bpow radix2 52) with (IZR P52) by (unfold P52; simpl; lra); apply IZR_le; lia).
assert (G: generic_format radix2 fexp64 (IZR (Z.pos m) * bpow radix2 (-1020))).
{ change fexp64 with (FLT_exp (3 - 1024 - 53) 53). apply generic_format_FLT. exists (Float radix2 (Z.pos m) (-1020)).
  - reflexivity.
  - simpl Fnum. change (Z.abs (Z.pos m)) with (Z.pos m). change (radix2 ^ 53)%Z with 9007199254740992%Z. unfold P52 in M. lia.
  - simpl. lia. }
assert (U: IZR (Z.pos m) * bpow radix2 (-1020) <= bpow radix2 (-968)).
{ replace (bpow radix2 (-968)) with (bpow radix2 52 * bpow radix2 (-1020)) by (rewrite <- bpow_plus; reflexivity).
  apply Rmult_le_compat_r; auto. apply bpow_ge_0. }
assert (L: bpow radix2 (-1020) <= IZR (Z.pos m) * bpow radix2 (-1020)).
{ rewrite <- (Rmult_1_l (bpow radix2 (-1020))) at 1. apply Rmult_le_compat_r; auto. apply bpow_ge_0. }
assert (S: bpow radix2 (-968) <= 1) by (change 1 with (bpow radix2 0); apply bpow_le; lia).
assert (L0 := bpow_ge_0 radix2 (-1020)).
destruct (mul_small x (f_lit 4850376798678024192) 0 1) as (F & E & Sg); auto; [unfold small, big; lia|rewrite P; lra|].
assert (N: Bsign (f_mul x (f_lit 4850376798678024192)) = false) by (rewrite Sg, St; reflexivity).
assert (V: val (f_bits (f_mul x (f_lit 4850376798678024192))) = IZR (Z.pos m) * bpow radix2 (-1020)).
{ rewrite <- val_finite; auto. rewrite E, P. apply round_generic; auto with typeclass_instances. }
pose proof (bits_range (f_mul x (f_lit 4850376798678024192))) as R.
set (r := f_bits (f_mul x (f_lit 4850376798678024192))) in *.
split.
- destruct (Z_lt_le_dec r 4503599627370496) as [K|K]; auto. exfalso.
  assert (Q: val r <= val 4503599627370495) by (apply val_mono; lia).
  assert (W: val 4503599627370495 <= bpow radix2 (-1022)).
  { unfold val. change (4503599627370495 / P52)%Z with 0%Z. change (4503599627370495 mod P52)%Z with 4503599627370495%Z. cbn [Z.eqb].
    replace (bpow radix2 (-1022)) with (bpow radix2 52 * bpow radix2 (-1074)) by (rewrite <- bpow_plus; reflexivity).
    apply Rmult_le_compat_r. apply bpow_ge_0. simpl. lra. }
  assert (W2: bpow radix2 (-1022) < bpow radix2 (-1020)) by (apply bpow_lt; lia).
  rewrite V in Q. lra.
- destruct (Z_lt_le_dec r 310748374288564224) as [K|K]; auto. exfalso.
  assert (Q: val 310748374288564224 <= val r) by (apply val_mono; lia).
  assert (W: val 310748374288564224 = bpow radix2 (-954)).
  { unfold val. change (310748374288564224 / P52)%Z with 69%Z. change (310748374288564224 mod P52)%Z with 0%Z. 
    cbn [Z.eqb]. rewrite Z.add_0_l. replace (IZR P52) with (bpow radix2 52) by (unfold P52; simpl; lra). rewrite <- bpow_plus. f_equal. }
  assert (W2: bpow radix2 (-968) < bpow radix2 (-954)) by (apply bpow_lt; lia).
  rewrite V, W in Q. lra.
Qed.
Lemma axiom_log_zero : forall b, (0 <= b < 18446744073709551616)%Z -> ((b = 0)%Z \/ (b = 9223372036854775808)%Z) ->
  f_div (f_lit 13830554455654793216) (f_mul (f_lit b) (f_lit b)) = f_lit 18442240474082181120.
Proof. intros b _ [->| ->]; apply B2SF_inj; vm_compute; reflexivity. Qed.
Lemma axiom_log_negative : forall x, ~ f_ord (f_div (f_sub x x) (f_lit 0)).
Proof.
intros x. rewrite ord_nan. change (f_lit 0) with (B754_zero false : F64).
destruct (is_finite x) eqn:F.
- generalize (Bminus_correct 53 1024 hp hpe mode_NE x x F F). unfold round_mode. rewrite Rminus_diag_eq by easy. rewrite no_over_0.
  fold f_sub. intros (A & B & _). rewrite rnd_0 in A.
  destruct (f_sub x x) as [s|s| |s m e H]; try discriminate; simpl; try easy.
  exfalso. apply (f_equal (fun r => Rcompare r 0)) in A. cbv beta in A; rewrite (Rcompare_Eq 0 0) in A by reflexivity.
  destruct s; simpl in A; [rewrite Rcompare_Lt in A|rewrite Rcompare_Gt in A]; try discriminate.
  + apply F2R_lt_0. reflexivity.
  + apply F2R_gt_0. reflexivity.
- destruct x as [s|[|]| |s m e H]; try discriminate; simpl; easy.
Qed.
Lemma axiom_minus_zero : f_cmp (f_lit 9223372036854775808) (f_lit 0) = Some Eq.
Proof. reflexivity. Qed.
Lemma axiom_neg_mul : forall a b, f_mul (f_neg a) b = f_neg (f_mul a b) /\ f_mul a (f_neg b) = f_neg (f_mul a b).
Proof.
assert (L: forall a b, f_mul (f_neg a) b = f_neg (f_mul a b)).
{ intros a b. destruct (is_finite a) eqn:Fa, (is_finite b) eqn:Fb.
  - assert (Fn: is_finite (f_neg a) = true) by (unfold f_neg; now rewrite is_finite_Bopp).
    assert (En: B2R (f_neg a) = - B2R a) by apply B2R_Bopp.
    assert (Sn: Bsign (f_neg a) = negb (Bsign a)) by (apply Bsign_Bopp; now apply fin_nan).
    generalize (Bmult_correct 53 1024 hp hpe mode_NE a b) (Bmult_correct 53 1024 hp hpe mode_NE (f_neg a) b).
    fold f_mul. rewrite En, Sn, Fn, Fa, Fb.
    replace (- B2R a * B2R b)%R with (- (B2R a * B2R b))%R by ring.
    change (round_mode mode_NE) with ZnearestE.
    rewrite round_NE_opp, Rabs_Ropp.
    destruct Rlt_bool.
    + intros (A1 & A2 & A3) (B1 & B2 & B3).
      assert (N1: is_nan (f_mul (f_neg a) b) = false) by now apply fin_nan.
      assert (N2: is_nan (f_mul a b) = false) by now apply fin_nan.
      apply B2R_Bsign_inj.
      * exact B2.
      * unfold f_neg at 1. rewrite is_finite_Bopp. exact A2.
      * rewrite B1. unfold f_neg. rewrite B2R_Bopp. now rewrite A1.
      * rewrite B3; auto. unfold f_neg at 1. rewrite Bsign_Bopp; auto. rewrite A3; auto. now rewrite negb_xorb_l.
    + intros A B. apply B2SF_inj. rewrite B. unfold f_neg. assert (O: forall x : F64, B2SF (@Bopp 53 1024 x) = SpecFloat.SFopp (B2SF x)) by now intros [| | |]. rewrite O, A. rewrite <- negb_xorb_l. now destruct (xorb (Bsign a) (Bsign b)).
  - destruct b as [s|s| |s m e H]; try discriminate; destruct a as [sa|sa| |sa ma ea Ha]; try discriminate; cbn; try reflexivity; now rewrite <- negb_xorb_l.
  - destruct a as [s|s| |s m e H]; try discriminate; destruct b as [sb|sb| |sb mb eb Hb]; try discriminate; cbn; try reflexivity; now rewrite <- negb_xorb_l.
  - destruct a as [s|s| |s m e H]; try discriminate; destruct b as [sb|sb| |sb mb eb Hb]; try discriminate; cbn; try reflexivity; now rewrite <- negb_xorb_l. }
intros a b. split; [apply L|].
destruct (axiom_comm a (f_neg b)) as [_ ->]. rewrite L. now destruct (axiom_comm b a) as [_ ->].
Qed.
Lemma axiom_neg_one : forall x, f_mul (f_lit 13830554455654793216) x = f_neg x.
Proof.
intros x. destruct (is_finite x) eqn:Fx.
- assert (E: B2R (f_lit 13830554455654793216) = (-1)%R) by (vm_compute; lra).
  assert (F: is_finite (f_lit 13830554455654793216) = true) by reflexivity.
  assert (S: Bsign (f_lit 13830554455654793216) = true) by reflexivity.
  generalize (Bmult_correct 53 1024 hp hpe mode_NE (f_lit 13830554455654793216) x).
  fold f_mul. rewrite E, F, Fx, S.
  replace (-1 * B2R x)%R with (- B2R x)%R by ring.
  change (round_mode mode_NE) with ZnearestE.
  rewrite round_NE_opp, Rabs_Ropp.
  rewrite round_generic; [|auto with typeclass_instances|apply generic_format_B2R].
  rewrite Rlt_bool_true by apply abs_B2R_lt_emax.
  intros (A & B & C). apply B2R_Bsign_inj.
  + now rewrite B.
  + unfold f_neg. now rewrite is_finite_Bopp.
  + rewrite A. unfold f_neg. now rewrite B2R_Bopp.
  + rewrite C by now apply fin_nan. unfold f_neg. rewrite Bsign_Bopp by now apply fin_nan. now destruct (Bsign x).
- destruct x as [s|s| |s m e H]; try discriminate; try reflexivity.
Qed.
Lemma axiom_two32 : f_int 4294967296 = f_lit 4751297606875873280 /\ f_div (f_int 4294967296) (f_lit 4629137466983448576) = f_lit 4729079848714178833.
Proof. split; apply B2SF_inj; vm_compute; reflexivity. Qed.

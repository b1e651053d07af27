/-
C07  All second-order-section filter entry points compute the same cascade.

Arithmetic is abstract here (`RsScalar`: addition and multiplication commute, nothing else is
known), so the equalities hold bit for bit in floating point.
-/
import RsLemmas
import Gen.Sosfilt
set_option linter.all false
open Classical Gen
namespace C07
variable {K : Type} [RsScalar K]

/-- one direct-form-II-transposed step of a section (a[0] = 1) -/
def biq (x : K) (s : Sos K) : K × Sos K :=
  (s.b 0 * x + s.zi0,
   ⟨s.b, s.a, s.b 1 * x - s.a 1 * (s.b 0 * x + s.zi0) + s.zi1, s.b 2 * x - s.a 2 * (s.b 0 * x + s.zi0)⟩)
/-- one sample through the cascade -/
def casc : K → List (Sos K) → K × List (Sos K)
  | x, [] => (x, [])
  | x, s :: t => ((casc (biq x s).1 t).1, (biq x s).2 :: (casc (biq x s).1 t).2)
/-- a signal through the cascade, sample by sample: outputs and final sections -/
def filt : List K → List (Sos K) → List K × List (Sos K)
  | [], s => ([], s)
  | x :: t, s => ((casc x s).1 :: (filt t (casc x s).2).1, (filt t (casc x s).2).2)

/-! ### the specification: lengths, coefficients, splitting -/
theorem casc_length (x : K) (s : List (Sos K)) : (casc x s).2.length = s.length := by
  induction s generalizing x with
  | nil => rfl
  | cons a t ih => simp [casc, ih]
theorem filt_length (y : List K) (s : List (Sos K)) : (filt y s).1.length = y.length ∧ (filt y s).2.length = s.length := by
  induction y generalizing s with
  | nil => simp [filt]
  | cons a t ih => simp [filt, ih, casc_length]
theorem casc_coef (x : K) (s : List (Sos K)) : (casc x s).2.map (fun q => (q.b, q.a)) = s.map (fun q => (q.b, q.a)) := by
  induction s generalizing x with
  | nil => rfl
  | cons a t ih => simp [casc, ih, biq]
/-- the coefficients are never modified -/
theorem filt_coef (y : List K) (s : List (Sos K)) : (filt y s).2.map (fun q => (q.b, q.a)) = s.map (fun q => (q.b, q.a)) := by
  induction y generalizing s with
  | nil => rfl
  | cons a t ih => simp only [filt, ih, casc_coef]
theorem filt_append (x y : List K) (s : List (Sos K)) :
    filt (x ++ y) s = ((filt x s).1 ++ (filt y (filt x s).2).1, (filt y (filt x s).2).2) := by
  induction x generalizing s with
  | nil => rfl
  | cons a t ih => simp [filt, ih]

/-! ### loops of the code against the specification -/
theorem accum_casc (g : K → Sos K → K × Sos K) (hg : ∀ x s, g x s = biq x s) (x : K) (s : List (Sos K)) : rsMapAccum g x s = casc x s := by
  induction s generalizing x with
  | nil => rfl
  | cons a t ih => simp [rsMapAccum, casc, hg, ih]
theorem accum_filt {α β : Type} (c : α → K) (o : α → K → β) (g : List (Sos K) → α → List (Sos K) × β)
    (hg : ∀ s x, g s x = ((casc (c x) s).2, o x (casc (c x) s).1)) (s : List (Sos K)) (y : List α) :
    rsMapAccum g s y = ((filt (y.map c) s).2, List.zipWith o y (filt (y.map c) s).1) := by
  induction y generalizing s with
  | nil => rfl
  | cons a t ih => simp [rsMapAccum, filt, hg, ih]
theorem zipWith_snd {α β : Type} (l : List α) (m : List β) (h : m.length = l.length) : List.zipWith (fun _ r => r) l m = m := by
  apply List.ext_getElem
  · simp [h]
  · intro i h1 h2; simp
theorem chunks_length {α : Type} (n : ℕ) (l : List α) : (rsChunks n l).length = l.length / n := by simp [rsChunks]
theorem chunks_take {α : Type} (n : ℕ) (l : List α) : (rsChunks n l).flatten = l.take (l.length / n * n) := by
  unfold rsChunks
  have h : ∀ m, m * n ≤ l.length → ((List.range m).map (fun i => (l.drop (i * n)).take n)).flatten = l.take (m * n) := by
    intro m hm
    induction m with
    | zero => simp
    | succ m ih =>
      rw [List.range_succ, List.map_append, List.flatten_append, ih (by nlinarith)]
      simp only [List.map_cons, List.map_nil, List.flatten_cons, List.flatten_nil, List.append_nil]
      rw [Nat.succ_mul, ← List.take_append_drop (m * n) (l.take (m * n + n)), List.take_take, List.drop_take]
      congr 2
      · omega
      · omega
  exact h _ (Nat.div_mul_le_self _ _)
/-- filtering tile by tile is filtering the concatenated tiles -/
theorem accum_tiles {α : Type} (c : α → K) (zs : List (List K)) (g : List (Sos K) → List α × List K → List (Sos K) × (List α × List K))
    (ys : List (List α)) (hl : ys.length = zs.length)
    (hg : ∀ s p, p ∈ List.zip ys zs → g s p = ((filt (p.1.map c) s).2, (p.1, (filt (p.1.map c) s).1))) (s : List (Sos K)) :
    (rsMapAccum g s (List.zip ys zs)).1 = (filt (ys.flatten.map c) s).2 ∧
    ((rsMapAccum g s (List.zip ys zs)).2.map Prod.snd).flatten = (filt (ys.flatten.map c) s).1 := by
  induction ys generalizing zs s with
  | nil => simp [rsMapAccum, filt]
  | cons a t ih =>
    cases zs with
    | nil => simp at hl
    | cons b u =>
      have h1 := hg s (a, b) (by simp)
      have ih' := ih u (by simpa using hl) (fun s p hp => hg s p (by simp [hp])) (filt (a.map c) s).2
      simp only [List.zip_cons_cons, rsMapAccum, h1, List.flatten_cons, List.map_append, filt_append, List.map_cons]
      exact ⟨ih'.1, by rw [ih'.2]⟩
theorem zip_chunks_len {α β : Type} (n : ℕ) (y : List α) (z : List β) {p : List α × List β}
    (hp : p ∈ List.zip (rsChunks n y) (rsChunks n z)) : p.1.length = n ∧ p.2.length = n := by
  have h := List.of_mem_zip (a := p.1) (b := p.2) hp
  have aux : ∀ {γ : Type} (l : List γ) (q : List γ), q ∈ rsChunks n l → q.length = n := by
    intro γ l q hq
    simp only [rsChunks, List.mem_map, List.mem_range] at hq
    obtain ⟨i, hi, rfl⟩ := hq
    simp only [List.length_take, List.length_drop]
    have h1 : (i + 1) * n ≤ l.length / n * n := Nat.mul_le_mul_right n hi
    have h2 := Nat.div_mul_le_self l.length n
    have : (i + 1) * n = i * n + n := by ring
    omega
  exact ⟨aux _ _ h.1, aux _ _ h.2⟩

/-- the recurrence written in the code is the specified step, up to commutation of single operations -/
macro "step_eq" : tactic => `(tactic| first
  | rfl
  | (simp only [biq]; done)
  | (simp only [biq, RsScalar.add_comm', RsScalar.mul_comm']; done))

/-- the inner loop over the sections -/
theorem inner (x : K) (s : List (Sos K)) (f : K → Sos K → Option (K × Sos K)) (hf : ∀ x s, f x s = some (biq x s)) :
    rsMapAccumM f x s = some (casc x s) := by
  rw [rsMapAccumM_some f (fun x s => biq x s) s x (fun x s _ => hf x s), accum_casc _ (fun _ _ => rfl)]
theorem biquad_fold_contract (x : K) (s : Sos K) : biquad_fold x s = some (biq x s) := by
  rw [← wp_eq]
  unfold biquad_fold
  rs_inl
  vcg
  step_eq

/-- the body of a loop over the sections, written in place or as a call -/
macro "section_step" : tactic => `(tactic|
  (rw [← wp_eq]
   vcg
   first
     | (refine wp_of_eq (biquad_fold_contract _ _) ?_; vcg; rfl)
     | step_eq))
theorem sosfilt_item_contract (x : K) (s : List (Sos K)) : sosfilt_item x s = some (casc x s) := by
  rw [← wp_eq]
  unfold sosfilt_item
  rs_inl
  vcg
  first
    | (rs_reduce
       rw [accum_casc _ (fun x s => by step_eq)])
    | (refine wp_of_eq (inner _ _ _ (fun x s => by section_step)) ?_
       vcg
       rfl)

theorem sosfilt_st_contract (y : List K) (s : List (Sos K)) : sosfilt_st y s = some (filt y s) := by
  rw [← wp_eq]
  unfold sosfilt_st
  rs_inl
  vcg
  refine wp_rsMapAccumM (fun s x => ((casc x s).2, (casc x s).1)) (fun s x _ => ?_) ?_
  · vcg
    refine wp_of_eq (sosfilt_item_contract _ _) ?_
    vcg
    rfl
  · rw [accum_filt (fun x => x) (fun _ r => r) _ (fun s x => rfl)]
    vcg
    have := (filt_length y s).1
    refine Prod.ext ?_ ?_ <;> simp [this, zipWith_snd]

theorem sosfilt_dyn_contract (y : List K) (s : List (Sos K)) : sosfilt_dyn y s = some (filt y s) := by
  rw [← wp_eq]
  unfold sosfilt_dyn
  rs_inl
  vcg
  all_goals
    refine wp_rsMapAccumM_inv (fun q => q.length = s.length) (fun s x => ((casc x s).2, (casc x s).1)) rfl (fun q x hq _ => ?_) ?_
    · vcg
      all_goals try (first | omega | skip)
      all_goals first
        | (refine wp_of_eq (sosfilt_item_contract _ _) ?_
           vcg
           refine ⟨rfl, ?_⟩
           rw [← hq]; exact casc_length x q)
        | (rs_reduce
           rw [accum_casc _ (fun x s => by step_eq)]
           simp only [List.drop_zero, List.take_zero, List.nil_append]
           rw [List.take_of_length_le (by omega), List.drop_eq_nil_of_le (by omega), List.append_nil]
           refine ⟨rfl, ?_⟩
           rw [← hq]; exact casc_length x q)
        | (refine wp_of_eq (inner _ _ _ (fun x s => by section_step)) ?_
           vcg
           all_goals try (first | omega | skip)
           rs_reduce
           simp only [List.drop_zero, List.take_zero, List.nil_append]
           rw [List.take_of_length_le (by omega), List.drop_eq_nil_of_le (by omega), List.append_nil]
           refine ⟨rfl, ?_⟩
           rw [← hq]; exact casc_length x q)
    · rw [accum_filt (fun x => x) (fun _ r => r) _ (fun s x => rfl)]
      vcg
      have := (filt_length y s).1
      refine Prod.ext ?_ ?_ <;> simp [this, zipWith_snd]

theorem take_mul_eq {α : Type} (l : List α) (n m : ℕ) (h : l.length % n = 0) (hm : m = l.length / n * n) : l.take m = l := by
  rw [hm, Nat.div_mul_cancel (Nat.dvd_of_mod_eq_zero h), List.take_length]

/-- one sample of the fast loops -/
macro "fast_sample" : tactic => `(tactic|
  (vcg
   refine wp_of_eq (inner _ _ _ (fun x s => ?_)) ?_
   · section_step
   · vcg; rfl))

theorem zip_conv {α β γ : Type} (c : α → γ) (l : List α) (m : List β) (h : l.length ≤ m.length) :
    (List.zip l m).map (fun x => c (Prod.fst x)) = l.map c := by
  have e : (List.zip l m).map (fun x => x.1) = l := List.map_fst_zip h
  conv_rhs => rw [← e, List.map_map]
  rfl
theorem overwrite_all {α : Type} (l x : List α) (h : l.length ≤ x.length) : rsOverwrite l x = x := by
  unfold rsOverwrite; rw [List.drop_eq_nil_of_le h, List.append_nil]
theorem overwrite_length {α : Type} (l x : List α) (h : x.length ≤ l.length) : (rsOverwrite l x).length = l.length := by
  unfold rsOverwrite; simp; omega
/-- tiles first, the rest by the recursive call -/
theorem glue {α : Type} (c : α → K) (y : List α) (z : List K) (s : List (Sos K)) (m : ℕ) (hm : m ≤ y.length) :
    (rsOverwrite z (filt ((y.take m).map c) s).1).take m ++ (filt ((y.drop m).map c) (filt ((y.take m).map c) s).2).1 = (filt (y.map c) s).1
    ∧ (filt ((y.drop m).map c) (filt ((y.take m).map c) s).2).2 = (filt (y.map c) s).2 := by
  have e : y.map c = (y.take m).map c ++ (y.drop m).map c := by rw [← List.map_append, List.take_append_drop]
  rw [e, filt_append]
  refine ⟨?_, rfl⟩
  have hl := (filt_length ((y.take m).map c) s).1
  simp only [List.length_map, List.length_take] at hl
  unfold rsOverwrite
  rw [List.take_append_of_le_length (by omega), List.take_of_length_le (by omega)]
/-- one tile: the inner loop over its samples -/
macro "fast_tile" c:term:max hl:ident : tactic => `(tactic|
  (vcg
   refine wp_rsMapAccumM (fun s x => ((casc ($c x.1) s).2, (x.1, (casc ($c x.1) s).1))) (fun s x _ => by fast_sample) ?_
   rw [accum_filt (fun x => $c (Prod.fst x)) (fun x r => (Prod.fst x, r)) _ (fun s x => rfl)]
   vcg
   rs_reduce
   rw [zip_conv $c _ _ (by omega)]
   rw [List.map_zipWith]
   rw [zipWith_snd _ _ (by rw [(filt_length _ _).1]; simp; omega)]
   rw [overwrite_all _ _ (by rw [(filt_length _ _).1, List.length_map]; omega)]))
macro "fast_arm" c:term:max y:ident z:ident s:ident h:ident ih:ident : tactic => `(tactic|
  (refine wp_rsMapAccumM (fun s c => ((filt (c.1.map $c) s).2, (c.1, (filt (c.1.map $c) s).1))) (fun q c hc => ?_) ?_
   · have hl := zip_chunks_len 4 $y $z hc
     fast_tile $c hl
   · have ht := accum_tiles $c (rsChunks 4 $z) _ (rsChunks 4 $y) (by simp [chunks_length, $h:ident]) (fun s p _ => rfl) $s
     rs_reduce
     generalize rsMapAccum _ $s (List.zip (rsChunks 4 $y) (rsChunks 4 $z)) = R at ht ⊢
     obtain ⟨R1, R2⟩ := R
     rw [chunks_take] at ht
     obtain ⟨h1, h2⟩ := ht
     replace h1 : R1 = _ := h1
     have hd := Nat.div_add_mod ($y).length 4
     have hidx : ($y).length - ($y).length % 4 = ($y).length / 4 * 4 := by omega
     have hl1 := filt_length ((($y).take (($y).length / 4 * 4)).map $c) $s
     rw [List.length_map, List.length_take] at hl1
     have hw : (rsOverwrite $z (R2.map Prod.snd).flatten).length = ($y).length := by
       rw [overwrite_length _ _ (by rw [h2]; omega), $h:ident]
     vcg
     all_goals try (rs_reduce; omega)
     rs_reduce
     refine wp_of_eq ($ih _ ?_ _ _ _ ?_ rfl) ?_
     · rw [List.length_drop, List.length_take]; omega
     · rw [List.length_drop, List.length_take, List.length_drop, List.length_take]; omega
     vcg
     all_goals try (rs_reduce; omega)
     rs_reduce
     rw [hidx, List.take_length]
     subst h1
     rw [h2] at *
     rw [List.drop_eq_nil_of_le (le_refl _), List.append_nil]
     have hg := glue $c $y $z $s (($y).length / 4 * 4) (by omega)
     rw [hg.1, hg.2]))
macro "fast_plain" c:term:max : tactic => `(tactic|
  (refine wp_rsMapAccumM (fun s x => ((casc ($c x.1) s).2, (x.1, (casc ($c x.1) s).1))) (fun s x _ => by fast_sample) ?_
   rw [accum_filt (fun x => $c (Prod.fst x)) (fun x r => (Prod.fst x, r)) _ (fun s x => rfl)]
   vcg
   rs_reduce
   rw [zip_conv $c _ _ (by omega)]
   rw [List.map_zipWith]
   rw [zipWith_snd _ _ (by rw [(filt_length _ _).1]; simp; omega)]
   rw [overwrite_all _ _ (by rw [(filt_length _ _).1, List.length_map]; omega)]))

theorem u_sosfilt32_contract' (y : List K) (s : List (Sos K)) (z : List K) (h : z.length = y.length) :
    u_sosfilt32 y s z = some ((filt (y.map (fun x => x)) s).2, (filt (y.map (fun x => x)) s).1) := by
  generalize hn : y.length = n
  induction n using Nat.strong_induction_on generalizing y s z with
  | _ n ih =>
    rw [← wp_eq]
    rw [u_sosfilt32]
    rs_inl
    vcg
    all_goals try (exfalso; omega)
    all_goals try omega
    · have : y = [] := List.length_eq_zero_iff.1 (by assumption)
      subst this
      have : z = [] := List.length_eq_zero_iff.1 (by simpa using h)
      subst this
      rfl
    all_goals simp only [decide_eq_true_eq] at *
    all_goals first
      | fast_arm (fun x : K => x) y z s h ih
      | fast_plain (fun x : K => x)
/-- the 32-bit fast path, tiled or not, is the cascade -/
theorem u_sosfilt32_contract (y : List K) (s : List (Sos K)) (z : List K) (h : z.length = y.length) :
    u_sosfilt32 y s z = some ((filt y s).2, (filt y s).1) := by
  rw [u_sosfilt32_contract' y s z h]; simp
/-- the integer-input fast path is the cascade on the converted samples -/
theorem u_sosfilt_isize_32_contract (y : List ℤ) (s : List (Sos K)) (z : List K) (h : z.length = y.length) :
    u_sosfilt_isize_32 y s z = some ((filt (y.map (fun x => ((x : ℤ) : K))) s).2, (filt (y.map (fun x => ((x : ℤ) : K))) s).1) := by
  generalize hn : y.length = n
  induction n using Nat.strong_induction_on generalizing y s z with
  | _ n ih =>
    rw [← wp_eq]
    rw [u_sosfilt_isize_32]
    rs_inl
    vcg
    all_goals try (exfalso; omega)
    all_goals try omega
    · have : y = [] := List.length_eq_zero_iff.1 (by assumption)
      subst this
      have : z = [] := List.length_eq_zero_iff.1 (by simpa using h)
      subst this
      rfl
    all_goals simp only [decide_eq_true_eq] at *
    all_goals first
      | fast_arm (fun x : ℤ => ((x : ℤ) : K)) y z s h ih
      | fast_plain (fun x : ℤ => ((x : ℤ) : K))

theorem sosfilt_fast32_st_contract (y : List K) (s : List (Sos K)) (z : List K) (h : z.length = y.length) :
    sosfilt_fast32_st y s z = some ((filt y s).2, (filt y s).1) := by
  rw [← wp_eq]
  unfold sosfilt_fast32_st
  rs_inl
  vcg
  refine wp_of_eq (u_sosfilt32_contract y s z h) ?_
  vcg
  rfl
theorem sosfilt_ifast32_st_contract (y : List ℤ) (s : List (Sos K)) (z : List K) (h : z.length = y.length) :
    sosfilt_ifast32_st y s z = some ((filt (y.map (fun x => ((x : ℤ) : K))) s).2, (filt (y.map (fun x => ((x : ℤ) : K))) s).1) := by
  rw [← wp_eq]
  unfold sosfilt_ifast32_st
  rs_inl
  vcg
  refine wp_of_eq (u_sosfilt_isize_32_contract y s z h) ?_
  vcg
  rfl
end C07

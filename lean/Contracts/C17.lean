import RsLemmas
import Gen.Zpk2sos
import Contracts.C16
/-! Contracts of `cplxreal_dyn`, `single_zpksos_dyn`, `nearest_real_complex_idx_dyn` and `zpk2sos_dyn`
(the second-order sections multiply out to the filter). -/
set_option linter.unusedTactic false
set_option linter.unreachableTactic false
set_option maxRecDepth 4000
open Gen Polynomial
set_option linter.unusedSimpArgs false
namespace C17

abbrev cj (w : ℂ) : ℂ := (starRingEnd ℂ) w
/-- the roots are closed under conjugation, with multiplicity -/
def Conj (l : List ℂ) : Prop := (l.map cj).Perm l
/-- every root is real or clearly off the real axis (by the relative tolerance of `cplxreal_dyn`) -/
def Clear (l : List ℂ) : Prop := ∀ w ∈ l, w.im = 0 ∨ rsEps * 100 * |w.re| < |w.im|

/-! ### sorting -/
theorem sort_sorted {α : Type} {cmp : α → α → Ordering} {le : α → α → Prop} (h : ∀ a b, cmp a b ≠ Ordering.gt ↔ le a b)
    (tot : ∀ a b, le a b ∨ le b a) (tr : ∀ a b c, le a b → le b c → le a c) (l : List α) :
    (rsSortUnst cmp l).Pairwise le := by
  have := (rsSortUnst' cmp l).2.2 (fun a b hab => by
      rw [h]; rcases tot a b with hh | hh
      · exact absurd hab ((h a b).2 hh)
      · exact hh) (fun a b c h1 h2 => by rw [h] at *; exact tr a b c h1 h2)
  exact this.imp (fun hh => (h _ _).1 hh)
/-- by real part, then by magnitude of the imaginary part -/
def le1 (a b : ℂ) : Prop := a.re < b.re ∨ a.re = b.re ∧ |a.im| ≤ |b.im|
/-- by magnitude of the imaginary part, then by real part -/
def le2 (a b : ℂ) : Prop := |a.im| < |b.im| ∨ |a.im| = |b.im| ∧ a.re ≤ b.re
theorem lex_tot (f g : ℂ → ℝ) (a b : ℂ) : (f a < f b ∨ f a = f b ∧ g a ≤ g b) ∨ (f b < f a ∨ f b = f a ∧ g b ≤ g a) := by
  rcases lt_trichotomy (f a) (f b) with h | h | h
  · exact Or.inl (Or.inl h)
  · rcases le_total (g a) (g b) with k | k
    · exact Or.inl (Or.inr ⟨h, k⟩)
    · exact Or.inr (Or.inr ⟨h.symm, k⟩)
  · exact Or.inr (Or.inl h)
theorem lex_tr (f g : ℂ → ℝ) (a b c : ℂ) (h1 : f a < f b ∨ f a = f b ∧ g a ≤ g b) (h2 : f b < f c ∨ f b = f c ∧ g b ≤ g c) :
    f a < f c ∨ f a = f c ∧ g a ≤ g c := by
  rcases h1 with h1 | ⟨h1, h1'⟩ <;> rcases h2 with h2 | ⟨h2, h2'⟩
  · exact Or.inl (h1.trans h2)
  · exact Or.inl (h2 ▸ h1)
  · exact Or.inl (h1 ▸ h2)
  · exact Or.inr ⟨h1.trans h2, h1'.trans h2'⟩
theorem eq_of_im_sign {a b : ℂ} (hr : a.re = b.re) (hi : |a.im| = |b.im|) (hs : 0 < a.im ↔ 0 < b.im) (hn : a.im ≠ 0) (hm : b.im ≠ 0) : a = b := by
  apply Complex.ext hr
  rcases lt_or_gt_of_ne hn with h | h
  · have : ¬ 0 < b.im := fun hb => by linarith [hs.2 hb]
    have hb : b.im < 0 := lt_of_le_of_ne (not_lt.1 this) hm
    rw [abs_of_neg h, abs_of_neg hb] at hi; linarith
  · have hb := hs.1 h
    rwa [abs_of_pos h, abs_of_pos hb] at hi

theorem csqrt_re (w : ℂ) : (rsCsqrt (w * w)).re = |w.re| := by
  unfold rsCsqrt
  have key : ∀ x : ℂ, 0 < x.re → (x * x) ^ ((1 : ℂ) / 2) = x := fun x hx => by
    rw [← sq, one_div]; exact Complex.sq_cpow_two_inv hx
  rcases lt_trichotomy w.re 0 with h | h | h
  · have : w * w = (-w) * (-w) := by ring
    rw [this, key (-w) (by simpa using h), abs_of_neg h]; simp
  · have e : w * w = ((-(w.im ^ 2) : ℝ) : ℂ) := by
      apply Complex.ext <;> simp [h, sq]
    rw [h, abs_zero, e]
    by_cases h0 : w.im = 0
    · simp [h0]
    · have : ((-(w.im ^ 2) : ℝ) : ℂ) ^ ((1 : ℂ) / 2) = |w.im| * Complex.I := by
        rw [Complex.ofReal_cpow_of_nonpos (by nlinarith [sq_nonneg w.im])]
        have e2 : (-((-(w.im ^ 2) : ℝ) : ℂ)) = ((|w.im| : ℝ) : ℂ) ^ 2 := by
          rw [← Complex.ofReal_neg, neg_neg, ← sq_abs]; push_cast; ring
        rw [e2, one_div, Complex.sq_cpow_two_inv (by simpa using h0)]
        congr 1
        rw [show (Real.pi : ℂ) * Complex.I * 2⁻¹ = (Real.pi : ℂ) / 2 * Complex.I by ring]
        exact Complex.exp_pi_div_two_mul_I
      rw [this]; simp
  · rw [key w h, abs_of_pos h]

/-! ### rising and falling edges -/
theorem edges (g : Bool × Bool → ℤ) (hg : ∀ a b, g (a, b) = if a = b then 0 else if a = true then -1 else 1) (l : List Bool) :
    ∀ (b : Bool) (off : ℕ), (b :: l).getLast? = some false →
    let S := (((List.zip (b :: l) l).map g).zipIdx off).filter (fun x => decide (x.1 > 0)) |>.map (·.2)
    let T := (((List.zip (b :: l) l).map g).zipIdx off).filter (fun x => decide (x.1 < 0)) |>.map (·.2)
    if b = false then List.Forall₂ (· ≤ ·) S T else ∃ t T', T = t :: T' ∧ off ≤ t ∧ List.Forall₂ (· ≤ ·) S T' := by
  induction l with
  | nil => intro b off h; simp at h; subst h; simp
  | cons c l ih =>
    intro b off h
    have h' : (c :: l).getLast? = some false := by simpa using h
    have := ih c (off + 1) h'
    cases b <;> cases c <;> simp [hg, -List.forall₂_map_left_iff, -List.forall₂_map_right_iff] at this ⊢
    · exact this
    · obtain ⟨t, T', h1, h2, h3⟩ := this
      rw [h1]; exact List.Forall₂.cons (by omega) h3
    · exact this
    · obtain ⟨t, T', h1, h2, h3⟩ := this
      exact ⟨t, T', h1, by omega, h3⟩
theorem enum_edges (q : ℤ → Bool) (L : List ℤ) :
    ((rsEnum L).filter (fun x => q x.2)).map (fun x => x.1) = (L.zipIdx.filter (fun x => q x.1)).map (·.2) := by
  rw [rsEnum_eq, List.filter_map, List.map_map]
  rfl
theorem stop_lt (g : Bool × Bool → ℤ) (hg : ∀ a b, g (a, b) = if a = b then 0 else if a = true then -1 else 1) (m : List Bool) (j : ℕ)
    (hj : j ∈ ((((List.zip ([false] ++ (m ++ [false])) (m ++ [false])).map g).zipIdx).filter (fun x => decide (x.1 < 0))).map (·.2)) :
    j < m.length + 1 ∧ 1 ≤ j := by
  simp only [List.mem_map, List.mem_filter, Prod.exists] at hj
  obtain ⟨a, b, ⟨h1, h2⟩, rfl⟩ := hj
  rw [List.mem_zipIdx_iff_getElem?] at h1
  simp only [List.getElem?_map, Option.map_eq_some_iff] at h1
  obtain ⟨⟨x, y⟩, h3, h4⟩ := h1
  rw [List.getElem?_zip_eq_some] at h3
  obtain ⟨h5, h6⟩ := h3
  have hb : b < m.length + 1 := by
    have := List.getElem?_eq_some_iff.1 h6; obtain ⟨h, _⟩ := this; simpa using h
  refine ⟨hb, ?_⟩
  rcases Nat.eq_zero_or_pos b with h | h
  · subst h
    simp at h5; subst h5
    rw [hg] at h4
    cases y <;> simp at h4 <;> simp [← h4] at h2
  · exact h
/-- run starts and stops: as many of each, in order, all within the list -/
theorem runs (g : Bool × Bool → ℤ) (hg : ∀ a b, g (a, b) = if a = b then 0 else if a = true then -1 else 1) (m : List Bool)
    {S T : List ℕ} (hS : ((rsEnum (List.map g (List.zip (List.replicate 1 false ++ (m ++ List.replicate 1 false))
      (List.drop 1 (List.replicate 1 false ++ (m ++ List.replicate 1 false)))))).filter (fun x => decide (0 < x.2))).map (fun x => x.1) = S)
    (hT : ((rsEnum (List.map g (List.zip (List.replicate 1 false ++ (m ++ List.replicate 1 false))
      (List.drop 1 (List.replicate 1 false ++ (m ++ List.replicate 1 false)))))).filter (fun x => decide (x.2 < 0))).map (fun x => x.1) = T) :
    List.Forall₂ (· ≤ ·) S T ∧ ∀ t ∈ T, t < m.length + 1 ∧ 1 ≤ t := by
  rw [enum_edges (fun x => decide (0 < x))] at hS
  rw [enum_edges (fun x => decide (x < 0))] at hT
  have e := edges g hg (m ++ [false]) false 0 (by simp [List.getLast?_cons])
  simp only [if_true] at e
  subst hS hT
  exact ⟨e, fun t ht => stop_lt g hg m t ht⟩
theorem conj_split {z w : List ℂ} (hz : Conj z) (hw : w.Perm z) (hs : w.Pairwise le1) :
    w.filter (fun a => decide (a.im < 0)) = (w.filter (fun a => decide (0 < a.im))).map cj := by
  refine List.Perm.eq_of_pairwise (le := le1) ?_ (hs.filter _) ?_ ?_
  · intro a b ha hb h1 h2
    simp only [List.mem_filter, decide_eq_true_eq, List.mem_map] at ha hb
    obtain ⟨c, ⟨_, hc⟩, rfl⟩ := hb
    have hb : (cj c).im < 0 := by simp [cj]; exact hc
    have hr : a.re = (cj c).re := by
      rcases h1 with h | ⟨h, _⟩
      · rcases h2 with h' | ⟨h', _⟩
        · linarith
        · linarith
      · exact h
    have hi : |a.im| = |(cj c).im| := by
      rcases h1 with h | ⟨_, h⟩
      · linarith
      · rcases h2 with h' | ⟨_, h'⟩
        · linarith
        · exact le_antisymm h h'
    exact eq_of_im_sign hr hi ⟨fun h => by linarith [ha.2], fun h => by linarith⟩ ha.2.ne hb.ne
  · rw [List.pairwise_map]
    exact (hs.filter _).imp (fun h => by simpa [le1, cj] using h)
  · have h1 : (w.map cj).Perm w := ((hw.map cj).trans hz).trans hw.symm
    have h2 := h1.filter (fun a => decide (a.im < 0))
    refine h2.symm.trans ?_
    rw [List.filter_map]
    apply List.Perm.of_eq
    congr 1
    apply List.filter_congr
    intro x _
    simp [cj]
theorem near_iff {z : List ℂ} (hc : Clear z) {a : ℂ} (ha : a ∈ z) : |a.im| ≤ rsEps * 100 * (rsCsqrt (a * a)).re ↔ a.im = 0 := by
  rw [csqrt_re]
  constructor
  · intro h; rcases hc a ha with h' | h'
    · exact h'
    · linarith
  · intro h; rw [h, abs_zero]
    have : 0 < rsEps := rsEps'.2
    positivity
/-- sorting a run keeps the two halves conjugate -/
theorem sort_conj (cmp : ℂ → ℂ → Ordering) (h : ∀ a b, cmp a b ≠ Ordering.gt ↔ le2 a b) (l : List ℂ) (hl : ∀ a ∈ l, 0 < a.im) :
    rsSortUnst cmp (l.map cj) = (rsSortUnst cmp l).map cj := by
  have S := fun l => sort_sorted (le := le2) h (lex_tot (fun a => |a.im|) (fun a => a.re)) (lex_tr (fun a => |a.im|) (fun a => a.re)) l
  have Pm : ∀ l, (rsSortUnst cmp l).Perm l := fun l => C16.sort_perm cmp l
  refine List.Perm.eq_of_pairwise (le := le2) ?_ (S _) ?_ ((Pm _).trans ((Pm l).map cj).symm)
  · intro a b ha hb h1 h2
    have ha := (Pm _).mem_iff.1 ha
    have hb := ((Pm l).map cj).mem_iff.1 hb
    have neg : ∀ x ∈ l.map cj, x.im < 0 := fun x hx => by
      obtain ⟨y, hy, rfl⟩ := List.mem_map.1 hx
      simpa [cj] using hl y hy
    have na := neg a ha
    have nb := neg b hb
    have hi : |a.im| = |b.im| := by
      rcases h1 with h | ⟨h, _⟩
      · rcases h2 with h' | ⟨h', _⟩
        · linarith
        · linarith
      · exact h
    have hr : a.re = b.re := by
      rcases h1 with h | ⟨_, h⟩
      · linarith
      · rcases h2 with h' | ⟨_, h'⟩
        · linarith
        · exact le_antisymm h h'
    exact eq_of_im_sign hr hi ⟨fun h => by linarith, fun h => by linarith⟩ na.ne nb.ne
  · rw [List.pairwise_map]
    exact (S l).imp (fun h => by simpa [le2, cj] using h)
theorem cplxreal_dyn_contract (z : List ℂ) (hz : Conj z) (hc : Clear z) : wp (cplxreal_dyn z none) (fun r =>
    r.1.Perm (z.filter (fun w => decide (0 < w.im))) ∧ r.2.Perm (z.filter (fun w => decide (w.im = 0)))) := by
  unfold cplxreal_dyn
  rs_inl
  generalize hw : rsSortUnst _ z = w
  have hwp : w.Perm z := by rw [← hw]; exact C16.sort_perm _ _
  have hws : w.Pairwise le1 := by
    rw [← hw]
    refine sort_sorted ?_ (lex_tot (fun a => a.re) (fun a => |a.im|)) (lex_tr (fun a => a.re) (fun a => |a.im|)) z
    intro a b
    unfold rsCmp
    split_ifs <;> simp <;> grind
  clear hw
  have fr : w.filter (fun a => decide (|a.im| ≤ rsEps * 100 * (rsCsqrt (a * a)).re)) = w.filter (fun a => decide (a.im = 0)) :=
    List.filter_congr (fun a ha => by simp only [near_iff hc (hwp.mem_iff.1 ha)])
  have fc : w.filter (fun a => !decide (|a.im| ≤ rsEps * 100 * (rsCsqrt (a * a)).re)) = w.filter (fun a => !decide (a.im = 0)) :=
    List.filter_congr (fun a ha => by simp only [near_iff hc (hwp.mem_iff.1 ha)])
  have fp : (w.filter (fun a => !decide (a.im = 0))).filter (fun a => decide (a.im > 0)) = w.filter (fun a => decide (0 < a.im)) := by
    rw [List.filter_filter]; exact List.filter_congr (fun a _ => by grind)
  have fn : (w.filter (fun a => !decide (a.im = 0))).filter (fun a => decide (a.im < 0)) = w.filter (fun a => decide (a.im < 0)) := by
    rw [List.filter_filter]; exact List.filter_congr (fun a _ => by grind)
  have fm : (w.filter (fun a => decide (a.im = 0))).map (fun a => (Complex.mk a.re 0)) = w.filter (fun a => decide (a.im = 0)) := by
    conv_rhs => rw [← List.map_id (w.filter _)]
    exact List.map_congr_left (fun a ha => by
      simp only [List.mem_filter, decide_eq_true_eq] at ha
      exact Complex.ext rfl ha.2.symm)
  have hzn := conj_split hz hwp hws
  have pp := hwp.filter (fun a => decide (0 < a.im))
  have pr := hwp.filter (fun a => decide (a.im = 0))
  vcg
  all_goals simp only [Option.getD_none, fr, fc, fp, fn, fm, hzn, gt_iff_lt] at *
  · have : z = [] := List.length_eq_zero_iff.1 (by assumption)
    subst this; simp
  · rename_i h
    have ha := List.length_filter_eq_length_iff.1 h
    refine ⟨?_, pr⟩
    have : w.filter (fun a => decide (0 < a.im)) = [] := by
      rw [List.filter_eq_nil_iff]; intro a hm
      have := ha a hm; simp at this; simp [this]
    rw [← this]; exact pp
  · rename_i h; simp at h
  · have hpos : ∀ a ∈ w.filter (fun a => decide (0 < a.im)), 0 < a.im := fun a ha => by
      simpa using (List.mem_filter.1 ha).2
    generalize w.filter (fun a => decide (0 < a.im)) = zp at *
    generalize hS : List.map (fun x : ℕ × ℤ => x.1) (List.filter (fun x => decide (0 < x.2)) _) = S at *
    generalize hT : List.map (fun x : ℕ × ℤ => x.1) (List.filter (fun x => decide (x.2 < 0)) _) = T at *
    obtain ⟨hf, hb⟩ := runs _ (fun a b => by cases a <;> cases b <;> simp) _ hS hT
    have hb' : ∀ t ∈ T, t < zp.length := fun t ht => by
      have := hb t ht
      simp only [List.length_map, List.length_zip, List.length_drop] at this
      omega
    rename_i hlen
    refine wp_foldlM (fun _ s => s.2 = s.1.map cj ∧ s.1.Perm zp) ⟨rfl, List.Perm.refl _⟩ ?_ ?_
    · rintro i hi ⟨a, b⟩ ⟨h1, h2⟩
      simp only [List.length_range] at hi
      dsimp only at h1 h2 ⊢
      subst h1
      have hl := h2.length_eq
      have hT' : i < T.length := by omega
      have ht := hb' T[i] (List.getElem_mem _)
      have hst : S[i] ≤ T[i] := hf.get hi hT'
      have hx : ∀ x ∈ (a.take (T[i] + 1)).drop S[i], 0 < x.im := fun x hx => hpos x (h2.mem_iff.1 (List.mem_of_mem_take (List.mem_of_mem_drop hx)))
      vcg
      all_goals simp only [List.getElem_range, List.length_map] at *
      all_goals first | omega | skip
      rw [← List.map_take, ← List.map_drop, ← List.map_take, ← List.map_drop, sort_conj _ ?_ _ hx, List.map_append, List.map_append]
      · refine ⟨rfl, List.Perm.trans ?_ h2⟩
        have e : a = a.take S[i] ++ (a.take (T[i] + 1)).drop S[i] ++ a.drop (T[i] + 1) := by
          rw [← List.take_append_drop (T[i] + 1) a]
          congr 1
          · rw [List.take_append_drop]
            conv_lhs => rw [← List.take_append_drop S[i] (a.take (T[i] + 1))]
            rw [List.take_take, Nat.min_eq_left (by omega)]
          · rw [List.take_append_drop]
        conv_rhs => rw [e]
        exact ((C16.sort_perm _ _).append_left _).append_right _
      · intro x y
        unfold rsCmp
        show _ ↔ (|x.im| < |y.im| ∨ |x.im| = |y.im| ∧ x.re ≤ y.re)
        split_ifs <;> simp <;> grind
    · rintro ⟨a, b⟩ ⟨h1, h2⟩
      dsimp only at h1 h2 ⊢
      subst h1
      have hz2 : a.zip (a.map cj) = a.map (fun x => (x, cj x)) := by
        conv_lhs => rw [← List.map_id a, List.map_map, List.zip_map', ]
        rfl
      vcg
      · rename_i h
        rw [hz2] at h
        simp only [List.any_map, List.any_eq_true, Function.comp, decide_eq_true_eq, cj, Complex.conj_conj, sub_self, norm_zero] at h
        obtain ⟨x, _, h⟩ := h
        have : 0 < rsEps := rsEps'.2
        have : 0 ≤ rsEps * 100 * ‖(starRingEnd ℂ) x‖ := by positivity
        linarith
      · refine ⟨?_, pr⟩
        dsimp only
        rw [hz2, List.map_map]
        have : List.map ((fun x : ℂ × ℂ => (x.1 + (starRingEnd ℂ) x.2) / (((2 : ℝ) : ℝ) : ℂ)) ∘ fun x => (x, cj x)) a = a := by
          conv_rhs => rw [← List.map_id a]
          exact List.map_congr_left (fun x _ => by simp [cj])
        exact (List.Perm.of_eq this).trans (h2.trans pp)
  · rename_i hne
    refine hne ?_
    generalize w.filter (fun a => decide (0 < a.im)) = zp at *
    generalize hS : List.map (fun x : ℕ × ℤ => x.1) (List.filter (fun x => decide (0 < x.2)) _) = S at *
    generalize hT : List.map (fun x : ℕ × ℤ => x.1) (List.filter (fun x => decide (x.2 < 0)) _) = T at *
    exact (runs _ (fun a b => by cases a <;> cases b <;> simp) _ hS hT).1.length_eq

/-! ### selection -/
theorem minBy_spec {α : Type} (f : α → ℝ) (l : List α) (hl : l ≠ []) :
    ∃ x ∈ l, rsMinBy (fun a b => rsCmp (f a) (f b)) l = some x ∧ ∀ y ∈ l, f x ≤ f y := by
  cases l with
  | nil => exact absurd rfl hl
  | cons a l =>
    unfold rsMinBy rsReduce
    dsimp only
    clear hl
    induction l generalizing a with
    | nil => exact ⟨a, by simp, rfl, by simp⟩
    | cons b l ih =>
      rw [List.foldl_cons]
      by_cases h : f b < f a
      · have e : rsCmp (f a) (f b) = Ordering.gt := by simp [rsCmp, h, not_lt.2 h.le]
        simp only [e]
        obtain ⟨x, hx, h1, h2⟩ := ih b
        refine ⟨x, List.mem_cons_of_mem _ hx, h1, fun y hy => ?_⟩
        rcases List.mem_cons.1 hy with rfl | hy
        · exact (h2 b (by simp)).trans h.le
        · exact h2 y hy
      · have e : rsCmp (f a) (f b) ≠ Ordering.gt := by unfold rsCmp; split_ifs <;> simp
        cases ho : rsCmp (f a) (f b)
        case gt => exact absurd ho e
        all_goals
          dsimp only
          obtain ⟨x, hx, h1, h2⟩ := ih a
          refine ⟨x, by rcases List.mem_cons.1 hx with rfl | hx <;> simp [*], h1, fun y hy => ?_⟩
          rcases List.mem_cons.1 hy with rfl | hy
          · exact h2 y (by simp)
          · rcases List.mem_cons.1 hy with rfl | hy
            · exact (h2 a (by simp)).trans (not_lt.1 h)
            · exact h2 y (by simp [hy])
theorem mem_enum {α : Type} (l : List α) (i : ℕ) (x : α) : (i, x) ∈ rsEnum l ↔ l[i]? = some x := by
  rw [rsEnum_eq]
  simp only [List.mem_map, Prod.exists, Prod.mk.injEq]
  constructor
  · rintro ⟨a, b, h, rfl, rfl⟩; exact List.mem_zipIdx_iff_getElem?.1 h
  · intro h; exact ⟨x, i, List.mem_zipIdx_iff_getElem?.2 h, rfl, rfl⟩
/-- the pole closest to the unit circle -/
theorem worst_spec (p : List ℂ) (hp : p ≠ []) :
    wp (rsMinBy (fun a b : ℕ × ℝ => rsCmp a.2 b.2) (List.map (fun x : ℕ × ℂ => (x.1, |(1 : ℝ) - ‖x.2‖|)) (rsEnum p)))
      (fun r => ∃ h : r.1 < p.length, ∀ v ∈ p, |1 - ‖p[r.1]‖| ≤ |1 - ‖v‖|) := by
  obtain ⟨x, hx, h1, h2⟩ := minBy_spec (fun a : ℕ × ℝ => a.2) (List.map (fun x : ℕ × ℂ => (x.1, |(1 : ℝ) - ‖x.2‖|)) (rsEnum p))
    (by simp [rsEnum]; exact hp)
  refine wp_of_eq h1 ?_
  obtain ⟨⟨i, v⟩, hv, rfl⟩ := List.mem_map.1 hx
  rw [mem_enum] at hv
  obtain ⟨hi, hv⟩ := List.getElem?_eq_some_iff.1 hv
  refine ⟨hi, fun u hu => ?_⟩
  obtain ⟨j, hj, rfl⟩ := List.getElem_of_mem hu
  have := h2 (j, |1 - ‖p[j]‖|) (List.mem_map.2 ⟨(j, p[j]), (mem_enum _ _ _).2 (by simp [hj]), rfl⟩)
  dsimp only at this ⊢
  rw [hv]; exact this
theorem nearest_any (l : List ℂ) (w : ℂ) (hl : l ≠ []) :
    wp (nearest_real_complex_idx_dyn l w WhichNearestComplex.Any) (fun r => r < l.length) := by
  unfold nearest_real_complex_idx_dyn
  rs_inl
  obtain ⟨x, hx, h1, h2⟩ := minBy_spec (fun a : ℕ × ℝ × ℂ => a.2.1) (rsEnum (List.map (fun f : ℂ => (‖f - w‖, f)) l)) (by simp [rsEnum]; exact hl)
  refine wp_map (wp_of_eq h1 ?_)
  obtain ⟨i, v⟩ := x
  rw [mem_enum] at hx
  obtain ⟨hi, _⟩ := List.getElem?_eq_some_iff.1 hx
  simpa using hi
theorem nearest_real (l : List ℂ) (w : ℂ) (hl : ∃ x ∈ l, x.im = 0) :
    wp (nearest_real_complex_idx_dyn l w WhichNearestComplex.Real) (fun r => ∃ h : r < l.length, l[r].im = 0) := by
  unfold nearest_real_complex_idx_dyn
  rs_inl
  obtain ⟨x, hx, h1, h2⟩ := minBy_spec (fun a : ℕ × ℝ × ℂ => a.2.1)
    (List.filter (fun a => decide (a.2.2.im = 0)) (rsEnum (List.map (fun f : ℂ => (‖f - w‖, f)) l))) (by
      obtain ⟨y, hy, h0⟩ := hl
      obtain ⟨j, hj, rfl⟩ := List.getElem_of_mem hy
      refine List.ne_nil_of_mem (a := (j, ‖l[j] - w‖, l[j])) (List.mem_filter.2 ⟨?_, by simpa using h0⟩)
      rw [mem_enum]; simp [hj])
  refine wp_map (wp_of_eq h1 ?_)
  obtain ⟨i, v⟩ := x
  obtain ⟨hx, h0⟩ := List.mem_filter.1 hx
  rw [mem_enum, List.getElem?_map, Option.map_eq_some_iff] at hx
  obtain ⟨a, ha, rfl⟩ := hx
  obtain ⟨hi, ha⟩ := List.getElem?_eq_some_iff.1 ha
  refine ⟨hi, ?_⟩
  rw [ha]; simpa using h0

/-! ### one section -/
/-- numerator and denominator of a section, as polynomials in z -/
noncomputable def num (s : Sos ℝ) : ℂ[X] := C (s.b 0 : ℂ) * X ^ 2 + C (s.b 1 : ℂ) * X + C (s.b 2 : ℂ)
noncomputable def den (s : Sos ℝ) : ℂ[X] := C (s.a 0 : ℂ) * X ^ 2 + C (s.a 1 : ℂ) * X + C (s.a 2 : ℂ)
/-- the product of (x - a)(x - b) is real -/
def RealPair (a b : ℂ) : Prop := (a + b).im = 0 ∧ (a * b).im = 0
theorem realPair_conj (a : ℂ) : RealPair a (cj a) := by constructor <;> simp [cj]; ring
theorem realPair_real {a b : ℂ} (ha : a.im = 0) (hb : b.im = 0) : RealPair a b := by constructor <;> simp [ha, hb]
theorem P2 (a b : ℂ) : C16.P [a, b] = X ^ 2 + C (-(a + b)) * X + C (a * b) := by
  simp [C16.P]; ring
theorem desc2 (a b : ℂ) : C16.desc [a, b] = [1, -(a + b), a * b] := by
  unfold C16.desc
  rw [P2]
  simp [List.range_succ, coeff_X, coeff_C]
theorem single_zpksos_dyn_contract (a b c d : ℂ) (hz : RealPair a b) (hp : RealPair c d) :
    wp (single_zpksos_dyn [a, b] [c, d] 1) (fun s => num s = C16.P [a, b] ∧ den s = C16.P [c, d] ∧ s.a 0 = 1 ∧ s.b 0 = 1) := by
  unfold single_zpksos_dyn
  rs_inl
  have tf := C16.zpk2tf_dyn_contract 2 [a, b] [c, d] 1
  have e1 : C16.pad (2 + 1) ((C16.desc [a, b]).map (fun c => 1 * c.re)) = [1, -(a + b).re, (a * b).re] := by
    simp only [desc2, C16.pad]; simp [List.range_succ]
  have e2 : C16.pad (2 + 1) ((C16.desc [c, d]).map (fun c => c.re)) = [1, -(c + d).re, (c * d).re] := by
    simp only [desc2, C16.pad]; simp [List.range_succ]
  rw [e1, e2] at tf
  have hr : ∀ a b, RealPair a b → C (((1 : ℝ)) : ℂ) * X ^ 2 + C (((-(a + b).re : ℝ)) : ℂ) * X + C (((a * b).re : ℝ) : ℂ) = C16.P [a, b] := by
    intro a b h
    have f1 : (((-(a + b).re : ℝ)) : ℂ) = -(a + b) := by
      have h1 := h.1
      apply Complex.ext
      · simp
      · simp at h1 ⊢; linarith
    have f2 : (((a * b).re : ℝ) : ℂ) = a * b := by
      apply Complex.ext
      · simp
      · simp only [Complex.ofReal_im]; exact h.2.symm
    rw [f1, f2, P2]; simp
  vcg
  refine wp_of_eq tf ?_
  vcg
  all_goals first | (exfalso; simp [rsRotR] at *; done) | (simp [rsRotR]; done) | skip
  unfold Sos_new Default_Sos_default
  vcg
  refine ⟨?_, ?_, ?_, ?_⟩
  · rw [← hr a b hz]; simp [num, rsRotR]
  · rw [← hr c d hp]; simp [den, rsRotR]
  · simp [rsRotR]
  · simp [rsRotR]

/-! ### the roots represented by a half list -/
/-- a non-real entry stands for itself and its conjugate -/
noncomputable def full (l : List ℂ) : List ℂ := l.flatMap (fun w => if w.im = 0 then [w] else [w, cj w])
noncomputable def reals (l : List ℂ) : List ℂ := l.filter (fun w => decide (w.im = 0))
theorem full_append (l m : List ℂ) : full (l ++ m) = full l ++ full m := by simp [full]
theorem full_perm {l m : List ℂ} (h : l.Perm m) : (full l).Perm (full m) := h.flatMap_right _
theorem erase_perm (l : List ℂ) (i : ℕ) (h : i < l.length) : l.Perm (l[i] :: l.eraseIdx i) :=
  (List.getElem_cons_eraseIdx_perm h).symm
theorem full_erase (l : List ℂ) (i : ℕ) (h : i < l.length) :
    (full l).Perm ((if l[i].im = 0 then [l[i]] else [l[i], cj l[i]]) ++ full (l.eraseIdx i)) := by
  have := full_perm (erase_perm l i h)
  simpa [full] using this
theorem P_perm {l m : List ℂ} (h : l.Perm m) : C16.P l = C16.P m := (h.map _).prod_eq
theorem P_app (l m : List ℂ) : C16.P (l ++ m) = C16.P l * C16.P m := by simp [C16.P]
theorem reals_parity (l : List ℂ) : (reals l).length % 2 = (full l).length % 2 := by
  induction l with
  | nil => simp [reals, full]
  | cons a l ih =>
    by_cases h : a.im = 0
    · simp [reals, full, h] at ih ⊢; omega
    · simp [reals, full, h] at ih ⊢; omega
theorem reals_erase (l : List ℂ) (i : ℕ) (h : i < l.length) :
    (reals l).length = (if l[i].im = 0 then 1 else 0) + (reals (l.eraseIdx i)).length := by
  have := ((erase_perm l i h).filter (fun w => decide (w.im = 0))).length_eq
  unfold reals
  rw [this, List.filter_cons]
  by_cases h0 : l[i].im = 0 <;> simp [h0]; omega
theorem full_ne {l : List ℂ} (h : full l ≠ []) : l ≠ [] := by rintro rfl; simp [full] at h
theorem full_nil {l : List ℂ} (h : (full l).length = 0) : l = [] := by
  cases l with
  | nil => rfl
  | cons a l => exfalso; unfold full at h; rw [List.flatMap_cons] at h; split at h <;> simp at h
theorem full_split {z zc zr : List ℂ} (hz : Conj z) (hc : zc.Perm (z.filter (fun w => decide (0 < w.im))))
    (hr : zr.Perm (z.filter (fun w => decide (w.im = 0)))) : (full (zc ++ zr)).Perm z := by
  have h1 : full zr = zr := by
    unfold full
    have : ∀ w ∈ zr, (if w.im = 0 then [w] else [w, cj w]) = [w] := fun w hw => by
      have := (List.mem_filter.1 (hr.mem_iff.1 hw)).2
      simp at this; simp [this]
    rw [List.flatMap_congr this]; simp
  have h2 : (full zc).Perm (zc ++ zc.map cj) := by
    have hp : ∀ w ∈ zc, w.im ≠ 0 := fun w hw => by
      have := (List.mem_filter.1 (hc.mem_iff.1 hw)).2
      simp at this; exact this.ne'
    clear hc h1
    induction zc with
    | nil => simp [full]
    | cons a l ih =>
      have := ih (fun w hw => hp w (by simp [hw]))
      have e : full (a :: l) = a :: cj a :: full l := by simp [full, hp a (by simp)]
      rw [e]
      simp only [List.cons_append, List.map_cons]
      refine List.Perm.cons _ ?_
      refine (List.Perm.cons _ this).trans ?_
      exact List.perm_middle.symm
  rw [full_append, h1]
  have hn : (z.filter (fun w => decide (w.im < 0))).Perm ((z.filter (fun w => decide (0 < w.im))).map cj) := by
    have h := hz.filter (fun a => decide (a.im < 0))
    refine h.symm.trans ?_
    rw [List.filter_map]
    apply List.Perm.of_eq
    congr 1
    apply List.filter_congr
    intro x _
    simp [cj]
  have s1 : z.Perm (z.filter (fun w => decide (0 < w.im)) ++ z.filter (fun w => !decide (0 < w.im))) :=
    (List.filter_append_perm _ _).symm
  have s2 := (List.filter_append_perm (fun w : ℂ => decide (w.im < 0)) (z.filter (fun w => !decide (0 < w.im)))).symm
  rw [List.filter_filter, List.filter_filter] at s2
  have e1 : z.filter (fun a => decide (a.im < 0) && !decide (0 < a.im)) = z.filter (fun w => decide (w.im < 0)) :=
    List.filter_congr (fun a _ => by grind)
  have e2 : z.filter (fun a => !decide (a.im < 0) && !decide (0 < a.im)) = z.filter (fun w => decide (w.im = 0)) :=
    List.filter_congr (fun a _ => by grind)
  rw [e1, e2] at s2
  refine (h2.append hr).trans ?_
  refine List.Perm.trans ?_ (s1.trans (s2.append_left _)).symm
  rw [← List.append_assoc]
  exact ((hc.append ((hc.map cj).trans hn.symm))).append_right _

/-! ### the whole cascade -/
/-- pad with roots at the origin to two per section -/
noncomputable def padz (l : List ℂ) (n : ℕ) : List ℂ := l ++ List.replicate (2 * n - l.length) 0
/-- number of sections -/
def nsec (z p : List ℂ) : ℕ := max 1 ((max z.length p.length + 1) / 2)
/-- `s` holds the pole of `p` closest to the unit circle -/
def HasWorst (p : List ℂ) (s : Sos ℝ) : Prop := ∃ w ∈ p, (∀ v ∈ p, |1 - ‖w‖| ≤ |1 - ‖v‖|) ∧ (den s).eval w = 0
/-- what the caller relies on -/
structure Spec (z p : List ℂ) (k : ℝ) (sos : List (Sos ℝ)) : Prop where
  count : sos.length = nsec z p
  zeros : (sos.map num).prod = C (k : ℂ) * C16.P (padz z (nsec z p))
  poles : (sos.map den).prod = C16.P (padz p (nsec z p))
  monic : ∀ s ∈ sos, s.a 0 = 1
  worst : ∃ s, sos.getLast? = some s ∧ HasWorst (padz p (nsec z p)) s
theorem padz_conj {l : List ℂ} (n : ℕ) (h : Conj l) : Conj (padz l n) := by
  unfold Conj padz
  rw [List.map_append, List.map_replicate]
  have : cj 0 = 0 := by simp [cj]
  rw [this]
  exact h.append_right _
theorem padz_clear {l : List ℂ} (n : ℕ) (h : Clear l) : Clear (padz l n) := by
  intro w hw
  rcases List.mem_append.1 hw with hw | hw
  · exact h w hw
  · rw [List.eq_of_mem_replicate hw]; simp
theorem ite_pad (l : List ℂ) (d : ℤ) : (if d > 0 then l ++ List.map (fun _ => (0 : ℂ)) (rsIRange 0 d) else l) = l ++ List.replicate d.toNat 0 := by
  split
  · rw [List.map_const']; congr 1; simp [rsIRange]
  · rename_i h; have : d.toNat = 0 := by omega
    simp [this]
/-- the same padding by `resize` -/
theorem resize_grow (l : List ℂ) (n : ℕ) (h : l.length ≤ n) : rsResize l n 0 = l ++ List.replicate (n - l.length) 0 := by
  unfold rsResize; rw [List.take_of_length_le h]
section
variable (z p : List ℂ)
theorem resize_pad1 : rsResize p (max p.length z.length) 0 = p ++ List.replicate ((z.length : ℤ) - (p.length : ℤ)).toNat (0 : ℂ) := by
  rw [resize_grow _ _ (by omega)]; congr 2; omega
theorem resize_pad2 : rsResize p (max z.length p.length) 0 = p ++ List.replicate ((z.length : ℤ) - (p.length : ℤ)).toNat (0 : ℂ) := by
  rw [max_comm]; exact resize_pad1 z p
theorem resize_pad3 : rsResize z (max p.length z.length) 0 = z ++ List.replicate (((p ++ List.replicate ((z.length : ℤ) - (p.length : ℤ)).toNat (0 : ℂ)).length : ℤ) - (z.length : ℤ)).toNat (0 : ℂ) := by
  rw [resize_grow _ _ (by omega), List.length_append, List.length_replicate]; congr 2; omega
theorem resize_pad4 : rsResize z (max z.length p.length) 0 = z ++ List.replicate (((p ++ List.replicate ((z.length : ℤ) - (p.length : ℤ)).toNat (0 : ℂ)).length : ℤ) - (z.length : ℤ)).toNat (0 : ℂ) := by
  rw [max_comm]; exact resize_pad3 z p
theorem resize_pad5 (n : ℕ) : (if p.length < n then rsResize p n 0 else p) = p ++ List.replicate ((n : ℤ) - (p.length : ℤ)).toNat (0 : ℂ) := by
  split
  · rw [resize_grow _ _ (by omega)]; congr 2; omega
  · rw [show ((n : ℤ) - (p.length : ℤ)).toNat = 0 by omega]; simp
theorem resize_pad6 (n : ℕ) : (if n > p.length then rsResize p n 0 else p) = p ++ List.replicate ((n : ℤ) - (p.length : ℤ)).toNat (0 : ℂ) := resize_pad5 p n
theorem resize_pad7 (n : ℕ) : (if n > p.length then rsSubU n p.length >>= fun m => some (p ++ List.map (fun _ => (0 : ℂ)) (List.range m)) else some p) =
    some (p ++ List.replicate ((n : ℤ) - (p.length : ℤ)).toNat (0 : ℂ)) := by
  split
  · rename_i h
    rw [show rsSubU n p.length = some (n - p.length) by simp [rsSubU]; omega, Option.bind_eq_bind, Option.bind_some, List.map_const', List.length_range]
    congr 3; omega
  · rw [show ((n : ℤ) - (p.length : ℤ)).toNat = 0 by omega]; simp
theorem resize_pad8 (n : ℕ) : (if p.length < n then rsSubU n p.length >>= fun m => some (p ++ List.map (fun _ => (0 : ℂ)) (List.range m)) else some p) =
    some (p ++ List.replicate ((n : ℤ) - (p.length : ℤ)).toNat (0 : ℂ)) := resize_pad7 p n
/-- the same padding by pushing zeros -/
theorem loop_push (n : ℕ) (l : List ℂ) : rsLoop (fun s => if s.length < n then some (true, s ++ [(0 : ℂ)]) else some (false, s)) l =
    some (l ++ List.replicate ((n : ℤ) - (l.length : ℤ)).toNat (0 : ℂ)) := by
  obtain ⟨r, h, rfl⟩ := rsLoop_inv (fun s : List ℂ => if s.length < n then some (true, s ++ [(0 : ℂ)]) else some (false, s)) (fun s => s ++ List.replicate ((n : ℤ) - (s.length : ℤ)).toNat (0 : ℂ) = l ++ List.replicate ((n : ℤ) - (l.length : ℤ)).toNat (0 : ℂ))
    (fun s => n - s.length) (fun r => r = l ++ List.replicate ((n : ℤ) - (l.length : ℤ)).toNat (0 : ℂ)) l rfl (fun s hs => by
      by_cases hc : s.length < n
      · refine ⟨(true, s ++ [0]), by simp [hc], fun _ => ⟨?_, by simp; omega⟩, by simp⟩
        change (s ++ [(0:ℂ)]) ++ _ = _
        rw [← hs, List.append_assoc, show ((n : ℤ) - (s.length : ℤ)).toNat = ((n : ℤ) - ((s ++ [(0 : ℂ)]).length : ℤ)).toNat + 1 by simp; omega, List.replicate_succ]
        rfl
      · refine ⟨(false, s), by simp [hc], by simp, fun _ => ?_⟩
        change s = _
        rw [← hs, show ((n : ℤ) - (s.length : ℤ)).toNat = 0 by omega]; simp)
  exact h
theorem loop_push' (n : ℕ) (l : List ℂ) : rsLoop (fun s => if n > s.length then some (true, s ++ [(0 : ℂ)]) else some (false, s)) l =
    some (l ++ List.replicate ((n : ℤ) - (l.length : ℤ)).toNat (0 : ℂ)) := loop_push n l
end
/-- asking whether there is a real root, in the form the proof uses -/
theorem any_count {α : Type} (l : List α) (q : α → Bool) : (l.any q = true) ↔ ¬ (l.filter q).length = 0 := by
  simp [List.any_eq_true, List.length_eq_zero_iff, List.filter_eq_nil_iff]
theorem any_count' {α : Type} (l : List α) (q : α → Bool) : (l.any q = false) ↔ (l.filter q).length = 0 := by
  simp [List.length_eq_zero_iff, List.filter_eq_nil_iff]
theorem all_count {α : Type} (l : List α) (q : α → Prop) [DecidablePred q] :
    (l.all (fun x => decide (¬ q x)) = true) ↔ (l.filter (fun x => decide (q x))).length = 0 := by
  simp [List.length_eq_zero_iff, List.filter_eq_nil_iff]
theorem isEmpty_count {α : Type} (l : List α) : (l.isEmpty = true) ↔ l.length = 0 := by simp [List.length_eq_zero_iff]
/-- loop invariant after `i` of `n` sections -/
structure Inv (Z Q : List ℂ) (n i : ℕ) (s : List (Sos ℝ) × List ℂ × List ℂ) : Prop where
  len : s.1.length = i
  zl : (full s.2.1).length = 2 * (n - i)
  pl : (full s.2.2).length = 2 * (n - i)
  zeros : (s.1.map num).prod * C16.P (full s.2.1) = C16.P Z
  poles : (s.1.map den).prod * C16.P (full s.2.2) = C16.P Q
  monic : ∀ x ∈ s.1, x.a 0 = 1
  first : i = 0 → (full s.2.2).Perm Q
  worst : i ≠ 0 → ∃ x, s.1.head? = some x ∧ HasWorst Q x
theorem nsec_eq (z p : List ℂ) (h : ¬ (z.length = 0 ∧ p.length = 0)) : nsec z p = (max z.length p.length + 1) / 2 := by
  unfold nsec; omega
theorem pad_eq (z p : List ℂ) (h : ¬ (z.length = 0 ∧ p.length = 0)) :
    (if (p ++ List.replicate ((z.length : ℤ) - (p.length : ℤ)).toNat (0 : ℂ)).length % 2 = 1 then
      (z ++ List.replicate (((p ++ List.replicate ((z.length : ℤ) - (p.length : ℤ)).toNat (0 : ℂ)).length : ℤ) - (z.length : ℤ)).toNat (0 : ℂ) ++ [0],
        p ++ List.replicate ((z.length : ℤ) - (p.length : ℤ)).toNat (0 : ℂ) ++ [0])
     else (z ++ List.replicate (((p ++ List.replicate ((z.length : ℤ) - (p.length : ℤ)).toNat (0 : ℂ)).length : ℤ) - (z.length : ℤ)).toNat (0 : ℂ),
        p ++ List.replicate ((z.length : ℤ) - (p.length : ℤ)).toNat (0 : ℂ))) = (padz z (nsec z p), padz p (nsec z p)) := by
  rw [nsec_eq z p h]
  unfold padz
  simp only [List.length_append, List.length_replicate]
  split
  · rw [List.append_assoc, List.append_assoc, ← List.replicate_succ', ← List.replicate_succ']
    congr 3 <;> push_cast <;> omega
  · congr 3 <;> push_cast <;> omega
theorem sec_eq (z p : List ℂ) (h : ¬ (z.length = 0 ∧ p.length = 0)) :
    (max (p ++ List.replicate ((z.length : ℤ) - (p.length : ℤ)).toNat (0 : ℂ)).length
      (z ++ List.replicate (((p ++ List.replicate ((z.length : ℤ) - (p.length : ℤ)).toNat (0 : ℂ)).length : ℤ) - (z.length : ℤ)).toNat (0 : ℂ)).length + 1) / 2 = nsec z p := by
  rw [nsec_eq z p h]
  simp only [List.length_append, List.length_replicate]
  push_cast; omega
/-- one more section: two poles and two zeros leave the lists -/
theorem Inv.step {Z Q : List ℂ} {n i : ℕ} {sos : List (Sos ℝ)} {z p z' p' : List ℂ} {a b c d : ℂ} {x : Sos ℝ} (hi : i < n)
    (I : Inv Z Q n i (sos, z, p)) (hz : (full z).Perm ([a, b] ++ full z')) (hp : (full p).Perm ([c, d] ++ full p'))
    (hw : ∀ v ∈ p, |1 - ‖c‖| ≤ |1 - ‖v‖|)
    (hn : num x = C16.P [a, b]) (hd : den x = C16.P [c, d]) (hm : x.a 0 = 1) : Inv Z Q n (i + 1) (sos ++ [x], z', p') where
  len := by simpa using I.len
  zl := by have := I.zl; have h := hz.length_eq; simp at this h ⊢; omega
  pl := by have := I.pl; have h := hp.length_eq; simp at this h ⊢; omega
  zeros := by
    rw [← I.zeros, P_perm hz, P_app, ← hn]; simp [mul_assoc]
  poles := by
    rw [← I.poles, P_perm hp, P_app, ← hd]; simp [mul_assoc]
  monic := by
    intro y hy
    rcases List.mem_append.1 hy with hy | hy
    · exact I.monic y hy
    · rw [List.mem_singleton.1 hy]; exact hm
  first := by omega
  worst := by
    intro _
    by_cases h0 : i = 0
    · have : sos = [] := List.length_eq_zero_iff.1 (by have := I.len; simpa [h0] using this)
      subst this
      refine ⟨x, rfl, c, (I.first h0).mem_iff.1 (hp.mem_iff.2 (by simp)), fun v hv => ?_, by rw [hd]; simp [C16.P]⟩
      have hv := (I.first h0).mem_iff.2 hv
      obtain ⟨u, hu, hv⟩ := List.mem_flatMap.1 hv
      have := hw u hu
      have e : ‖v‖ = ‖u‖ := by
        split at hv
        · simp at hv; rw [hv]
        · simp [cj] at hv; rcases hv with rfl | rfl
          · rfl
          · simp
      rwa [e]
    · obtain ⟨y, hy, h⟩ := I.worst h0
      exact ⟨y, by simp only [List.head?_append]; simp at hy; rw [hy]; rfl, h⟩
/-- scaling the first section by the gain -/
theorem gain_spec {k : ℝ} {R : List (Sos ℝ)} (hR : 0 < R.length) (s' : Sos ℝ) (hn : num s' = C (k : ℂ) * num R[0]) (hd : den s' = den R[0])
    (ha : s'.a = R[0].a) :
    ((R.set 0 s').map num).prod = C (k : ℂ) * (R.map num).prod ∧ ((R.set 0 s').map den).prod = (R.map den).prod ∧
    (∀ x ∈ R.set 0 s', ∃ y ∈ R, x.a = y.a) ∧ ∃ y, (R.set 0 s').getLast? = some y ∧ ∃ y0, R.getLast? = some y0 ∧ den y = den y0 := by
  cases R with
  | nil => simp at hR
  | cons a R =>
    simp only [List.getElem_cons_zero] at hn hd ha
    refine ⟨by simp [hn, mul_assoc], by simp [hd], ?_, ?_⟩
    · intro x hx
      rw [List.set_cons_zero] at hx
      rcases List.mem_cons.1 hx with rfl | hx
      · exact ⟨a, by simp, ha⟩
      · exact ⟨x, by simp [hx], rfl⟩
    · rw [List.set_cons_zero]
      cases R with
      | nil => exact ⟨s', rfl, a, rfl, hd⟩
      | cons b R =>
        refine ⟨(b :: R).getLast (by simp), ?_, (b :: R).getLast (by simp), ?_, rfl⟩ <;>
          simp [List.getLast?_eq_some_getLast]
theorem zpk2sos_dyn_contract (order : ℕ) (z p : List ℂ) (k : ℝ) (pairing : Option ZpkPairing) (analog : Option Bool)
    (hpair : pairing = none ∨ pairing = some ZpkPairing.Nearest) (han : analog = none ∨ analog = some false)
    (hz : Conj z) (hp : Conj p) (cz : Clear z) (cp : Clear p) :
    wp (zpk2sos_dyn order ⟨z, p, k⟩ pairing analog) (fun r => Spec z p k r.sos) := by
  have ha : analog.getD false = false := by rcases han with rfl | rfl <;> rfl
  have hq : pairing.getD ZpkPairing.Nearest = ZpkPairing.Nearest := by rcases hpair with rfl | rfl <;> rfl
  unfold zpk2sos_dyn
  rs_inl
  simp only [ha, hq, Bool.false_eq_true, if_false, not_false_eq_true, if_true, ite_pad, and_true]
  simp -failIfUnchanged only [resize_pad1 z p, resize_pad2 z p, resize_pad3 z p, resize_pad4 z p, resize_pad5, resize_pad6, resize_pad7, resize_pad8]
  first | (simp only [loop_push, loop_push']; simp only [Option.bind_eq_bind, Option.bind_some]) | skip
  simp -failIfUnchanged only [any_count, any_count', all_count, isEmpty_count, not_not, gt_iff_lt, Nat.pos_iff_ne_zero, ne_eq]
  vcg
  · unfold Sos_new Default_Sos_default
    vcg
    rename_i h
    obtain ⟨h1, h2⟩ := h
    have h1 := List.length_eq_zero_iff.1 h1
    have h2 := List.length_eq_zero_iff.1 h2
    subst h1 h2
    have e : padz [] (nsec [] []) = [0, 0] := rfl
    refine ⟨rfl, ?_, ?_, ?_, _, rfl, 0, ?_⟩ <;> try rw [e]
    · simp only [num, C16.P, List.map_cons, List.map_nil, List.prod_cons, List.prod_nil]; simp; first | done | (left; ring) | ring
    · simp [den, C16.P]; ring
    · simp
    · simp [den]
  · rename_i hne hx
    clear hx
    simp only [pad_eq z p hne, sec_eq z p hne]
    have hn1 : 1 ≤ nsec z p := by unfold nsec; omega
    have hZl : (padz z (nsec z p)).length = 2 * nsec z p := by rw [nsec_eq z p hne]; simp [padz]; omega
    have hQl : (padz p (nsec z p)).length = 2 * nsec z p := by rw [nsec_eq z p hne]; simp [padz]; omega
    refine wp_conseq (cplxreal_dyn_contract _ (padz_conj _ hz) (padz_clear _ cz)) (fun rz hrz => ?_)
    vcg
    refine wp_conseq (cplxreal_dyn_contract _ (padz_conj _ hp) (padz_clear _ cp)) (fun rp hrp => ?_)
    vcg
    have fz := full_split (padz_conj _ hz) hrz.1 hrz.2
    have fp := full_split (padz_conj _ hp) hrp.1 hrp.2
    generalize hn : nsec z p = n at *
    generalize hZ : padz z n = Z at *
    generalize hQ : padz p n = Q at *
    refine wp_foldlM (fun i s => Inv Z Q n i s) ?_ ?_ ?_
    · exact ⟨rfl, by rw [fz.length_eq]; simpa using hZl, by rw [fp.length_eq]; simpa using hQl, by simp [P_perm fz], by simp [P_perm fp], by simp, fun _ => fp, fun h => absurd rfl h⟩
    · rintro i hi ⟨sos, zs, ps⟩ I
      simp only [List.length_range] at hi
      dsimp only
      have hzl := I.zl
      have hpl := I.pl
      have hpne : ps ≠ [] := full_ne (by intro h; simp [h] at hpl; omega)
      have hzne : zs ≠ [] := full_ne (by intro h; simp [h] at hzl; omega)
      vcg
      refine wp_conseq (worst_spec ps hpne) ?_
      rintro ⟨r, rv⟩ ⟨hr, hw⟩
      dsimp only at hr hw ⊢
      have hfp := full_erase ps r hr
      have hrp' := reals_erase ps r hr
      have hpar := reals_parity ps
      have hparz := reals_parity zs
      clear fz fp hrz hrp hz hp cz cp hne hpair han ha hq hn hZ hQ hZl hQl
      dsimp only at hzl hpl
      have hzl0 : ¬ zs.length = 0 := fun h => hzne (List.length_eq_zero_iff.1 h)
      have hcnt : (List.filter (fun x : ℂ => decide (x.im = 0)) (ps.eraseIdx r)).length = (reals (ps.eraseIdx r)).length := rfl
      vcg
      · exact hr
      · -- a last real pole: impossible, real poles come in an even number
        rename_i h
        rw [if_pos (by tauto), ← hcnt, (by tauto : (List.filter (fun x : ℂ => decide (x.im = 0)) (ps.eraseIdx r)).length = 0)] at hrp'
        exfalso; omega
      · rename_i h
        rw [if_neg (by tauto), ← hcnt, (by tauto : (List.filter (fun x : ℂ => decide (x.im = 0)) (ps.eraseIdx r)).length = 1)] at hrp'
        exfalso; omega
      · -- two real poles
        rename_i h1 h2 h0
        rw [if_pos h0] at hfp hrp'
        have hne : (ps.eraseIdx r).filter (fun x => decide (x.im = 0)) ≠ [] := fun h => h1 ⟨h0, by rw [h]; rfl⟩
        have hne' : List.map (fun x : ℕ × ℂ => x.2) ((rsEnum (ps.eraseIdx r)).filter (fun x => decide (x.2.im = 0))) ≠ [] := by
          obtain ⟨x, hx⟩ := List.exists_mem_of_ne_nil _ hne
          obtain ⟨hx, hx0⟩ := List.mem_filter.1 hx
          obtain ⟨j, hj, rfl⟩ := List.getElem_of_mem hx
          exact List.ne_nil_of_mem (List.mem_map.2 ⟨(j, _), List.mem_filter.2 ⟨(mem_enum _ _ _).2 (List.getElem?_eq_getElem hj), hx0⟩, rfl⟩)
        refine wp_conseq (worst_spec _ hne') ?_
        rintro ⟨j, _⟩ ⟨hj, -⟩
        simp only [List.length_map] at hj
        dsimp only
        have hmem := List.getElem_mem hj
        refine wp_bind (wp_of_eq (rsIdx_some hj) ?_)
        generalize (List.filter (fun x : ℕ × ℂ => decide (x.2.im = 0)) (rsEnum (ps.eraseIdx r)))[j] = e at hmem ⊢
        obtain ⟨e1, e2⟩ := e
        obtain ⟨hm1, hm2⟩ := List.mem_filter.1 hmem
        obtain ⟨he, rfl⟩ := List.getElem?_eq_some_iff.1 ((mem_enum _ _ _).1 hm1)
        have hm2 : (ps.eraseIdx r)[e1].im = 0 := by simpa using hm2
        dsimp only
        have H2 := realPair_real h0 hm2
        have fe2 := full_erase _ e1 he
        rw [if_pos hm2] at fe2
        have HP := hfp.trans (fe2.append_left _)
        vcg
        · exact he
        · refine wp_conseq (nearest_any zs _ hzne) (fun q hq => ?_)
          have fe := full_erase zs q hq
          have re := reals_erase zs q hq
          vcg
          · exact hq
          · rename_i hnr
            rw [if_neg hnr] at fe
            refine wp_conseq (single_zpksos_dyn_contract _ _ _ _ (realPair_conj _) H2) ?_
            rintro x ⟨hn, hd, hm, -⟩
            vcg
            exact I.step hi fe HP hw hn hd hm
          · rename_i hnr hany
            have hnr := not_not.1 hnr
            rw [if_pos hnr] at fe
            replace hany := (any_count _ _).2 hany
            simp only [List.any_eq_true, decide_eq_true_eq] at hany
            refine wp_conseq (nearest_real _ _ hany) ?_
            rintro q2 ⟨hq2, hr2⟩
            vcg
            · exact hq2
            · have fe2 := full_erase _ q2 hq2
              rw [if_pos hr2] at fe2
              refine wp_conseq (single_zpksos_dyn_contract _ _ _ _ (realPair_real hnr hr2) H2) ?_
              rintro x ⟨hn, hd, hm, -⟩
              vcg
              exact I.step hi (fe.trans (fe2.append_left _)) HP hw hn hd hm
            · rename_i hc; exact hc hr2
          · -- a single real zero: impossible
            rename_i hnr hany
            exfalso
            have hnr := not_not.1 hnr
            rw [if_pos hnr] at re
            have : reals (zs.eraseIdx q) = [] := by
              unfold reals
              rw [List.filter_eq_nil_iff]
              intro x hx h0
              exact hany ((any_count _ _).1 (List.any_eq_true.2 ⟨x, hx, h0⟩))
            rw [this] at re
            simp only [List.length_nil] at re
            omega
        · rename_i h; exact absurd (not_not.1 h) hzl0
      · rename_i h1 h0 h3
        rw [if_neg h0] at hfp hrp'
        have H2 := realPair_conj ps[r]
        have HP := hfp
        refine wp_conseq (nearest_any zs _ hzne) (fun q hq => ?_)
        have fe := full_erase zs q hq
        have re := reals_erase zs q hq
        vcg
        · exact hq
        · rename_i hnr
          rw [if_neg hnr] at fe
          refine wp_conseq (single_zpksos_dyn_contract _ _ _ _ (realPair_conj _) H2) ?_
          rintro x ⟨hn, hd, hm, -⟩
          vcg
          exact I.step hi fe HP hw hn hd hm
        · rename_i hnr hany
          have hnr := not_not.1 hnr
          rw [if_pos hnr] at fe
          replace hany := (any_count _ _).2 hany
          simp only [List.any_eq_true, decide_eq_true_eq] at hany
          refine wp_conseq (nearest_real _ _ hany) ?_
          rintro q2 ⟨hq2, hr2⟩
          vcg
          · exact hq2
          · have fe2 := full_erase _ q2 hq2
            rw [if_pos hr2] at fe2
            refine wp_conseq (single_zpksos_dyn_contract _ _ _ _ (realPair_real hnr hr2) H2) ?_
            rintro x ⟨hn, hd, hm, -⟩
            vcg
            exact I.step hi (fe.trans (fe2.append_left _)) HP hw hn hd hm
          · rename_i hc; exact hc hr2
        · -- a single real zero: impossible
          rename_i hnr hany
          exfalso
          have hnr := not_not.1 hnr
          rw [if_pos hnr] at re
          have : reals (zs.eraseIdx q) = [] := by
            unfold reals
            rw [List.filter_eq_nil_iff]
            intro x hx h0
            exact hany ((any_count _ _).1 (List.any_eq_true.2 ⟨x, hx, h0⟩))
          rw [this] at re
          simp only [List.length_nil] at re
          omega
      · rename_i h; exact absurd (not_not.1 h) hzl0
    · rintro ⟨sos, zs, ps⟩ I
      dsimp only
      have hl := I.len
      have hzn := full_nil (by have := I.zl; simpa using this)
      have hpn := full_nil (by have := I.pl; simpa using this)
      have I1 := I.zeros
      have I2 := I.poles
      have I3 := I.monic
      have I4 := I.worst (by simp; omega)
      simp only [List.length_range] at hl
      dsimp only at hzn hpn I1 I2 I3 I4
      subst hzn hpn
      simp only [full, List.flatMap_nil, C16.P, List.map_nil, List.prod_nil, mul_one] at I1 I2
      have hlr : 0 < sos.reverse.length := by simp; omega
      clear fz fp hrz hrp hz hp cz cp hne I
      vcg
      all_goals first | exact hlr | (rename_i h; exact absurd rfl h) | skip
      obtain ⟨g1, g2, g3, g4⟩ := gain_spec (k := k) hlr { b := rsArrOfList sos.reverse[0].b (List.map (fun b => b * k) (List.ofFn sos.reverse[0].b)), a := sos.reverse[0].a, zi0 := sos.reverse[0].zi0, zi1 := sos.reverse[0].zi1 }
        (by simp [num, rsArrOfList]; ring) (by simp [den]) rfl
      refine ⟨by simp [hl, hn], ?_, ?_, ?_, ?_⟩
      · rw [hn, hZ]; refine g1.trans ?_
        rw [List.map_reverse, List.prod_reverse, I1]; rfl
      · rw [hn, hQ]; refine g2.trans ?_
        rw [List.map_reverse, List.prod_reverse, I2]; rfl
      · intro x hx
        obtain ⟨y, hy, e⟩ := g3 x hx
        rw [e]; exact I3 y (List.mem_reverse.1 hy)
      · obtain ⟨y, hy, y0, hy0, e⟩ := g4
        obtain ⟨x, hx, w, h1, h2, h3⟩ := I4
        rw [List.getLast?_reverse, hx] at hy0
        simp only [Option.some.injEq] at hy0
        subst hy0
        rw [hn, hQ]
        exact ⟨y, hy, w, h1, h2, by rw [e]; exact h3⟩
  · rename_i hne h
    rw [pad_eq z p hne] at h
    refine h ?_
    rw [nsec_eq z p hne]; simp [padz]; omega
end C17

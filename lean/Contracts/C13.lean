/-
C13  Analog prototypes have the right poles, zeros and gain for every order.
-/
import RsLemmas
import Gen.Proto
import Contracts.C14
set_option linter.all false
open Classical Gen ComplexConjugate C14
namespace C13

/-- angle pi*m/(2n), m = -n+1+2i -/
noncomputable def ang (n i : ℕ) : ℝ := Real.pi * (((-(n : ℤ) + 1 + 2 * (i : ℤ) : ℤ)) : ℝ) / (2 * (n : ℝ))

theorem ang_bounds (n i : ℕ) (h : i < n) : -(Real.pi / 2) < ang n i ∧ ang n i < Real.pi / 2 := by
  have hn : (0 : ℝ) < n := by exact_mod_cast (by omega : 0 < n)
  have h1 : (i : ℝ) + 1 ≤ n := by exact_mod_cast h
  have h0 : (0 : ℝ) ≤ i := by positivity
  have hp := Real.pi_pos
  unfold ang
  push_cast
  constructor
  · rw [lt_div_iff₀ (by positivity)]; nlinarith
  · rw [div_lt_iff₀ (by positivity)]; nlinarith
theorem ang_rev (n i : ℕ) (h : i < n) : ang n (n - 1 - i) = - ang n i := by
  unfold ang
  have : ((n - 1 - i : ℕ) : ℤ) = (n : ℤ) - 1 - i := by omega
  rw [this]
  push_cast
  ring
theorem cos_pos (n i : ℕ) (h : i < n) : 0 < Real.cos (ang n i) := Real.cos_pos_of_mem_Ioo (ang_bounds n i h)

theorem stepBy2 (a : ℤ) (m : ℕ) (b : ℤ) (h : (b - a).toNat = m) :
    rsStepBy 2 (rsIRange a b) = (List.range ((m + 1) / 2)).map (fun i : ℕ => a + 2 * (i : ℤ)) := by
  unfold rsStepBy rsIRange
  rw [h]
  simp only [List.length_map, List.length_range]
  rw [show (m + 2 - 1) / 2 = (m + 1) / 2 by omega]
  conv_rhs => rw [← List.filterMap_eq_map]
  apply List.filterMap_congr
  intro i hi
  have hi' : i < (m + 1) / 2 := List.mem_range.1 hi
  rw [List.getElem?_map, List.getElem?_range (by omega)]
  simp [mul_comm]
/-- the angles of the prototypes -/
theorem ms_eq (n : ℕ) : rsStepBy 2 (rsIRange (-(n : ℤ) + 1) (n : ℤ)) = (List.range n).map (fun i : ℕ => -(n : ℤ) + 1 + 2 * (i : ℤ)) := by
  rw [stepBy2 _ (2 * n - 1) _ (by omega)]
  rcases Nat.eq_zero_or_pos n with rfl | h
  · rfl
  · rw [show (2 * n - 1 + 1) / 2 = n by omega]

/-- a list whose reversal is its conjugate is closed under conjugation -/
theorem real_of_rev (n : ℕ) (g : ℕ → ℂ) (h : ∀ i < n, g (n - 1 - i) = conj (g i)) : Real' ((List.range n).map g) := by
  unfold Real'
  have : (List.map g (List.range n)).map (fun w => conj w) = (List.map g (List.range n)).reverse := by
    apply List.ext_getElem
    · simp
    · intro i h1 h2
      have hi : i < n := by simpa using h1
      simp only [List.getElem_map, List.getElem_range, List.getElem_reverse, List.length_map, List.length_range]
      exact (h i hi).symm
  rw [this]
  exact List.reverse_perm _

theorem mkI (x : ℝ) : Complex.mk 0 x = Complex.I * (x : ℂ) := by apply Complex.ext <;> simp

theorem buttap_contract (n : ℕ) :
    buttap_dyn n = some ⟨[], (List.range n).map (fun i => -Complex.exp (Complex.I * (ang n i : ℝ))), 1⟩ := by
  rw [← wp_eq]
  unfold buttap_dyn ZpkFormatFilter_new
  rs_inl
  vcg
  rw [ms_eq, List.map_map]
  simp only [ZpkFormatFilter.mk.injEq, true_and, and_true]
  refine List.map_congr_left (fun i _ => ?_)
  show -Complex.exp (Complex.mk 0 (ang n i)) = _
  rw [mkI]

/-- all poles strictly in the left half plane and on the unit circle; the DC gain is 1; the filter is proper and real -/
theorem buttap_poles (n : ℕ) : wp (buttap_dyn n) (fun f => Proper f ∧ f.z = [] ∧ f.p.length = n ∧ H f 0 = 1 ∧ ∀ p ∈ f.p, p.re < 0 ∧ ‖p‖ = 1) := by
  refine wp_of_eq (buttap_contract n) ?_
  have hR : Real' ((List.range n).map (fun i => -Complex.exp (Complex.I * (ang n i : ℝ)))) := by
    refine real_of_rev n _ (fun i hi => ?_)
    rw [ang_rev n i hi, map_neg, ← Complex.exp_conj]
    simp
  refine ⟨⟨by simp, by simp [Real'], hR⟩, rfl, by simp, ?_, ?_⟩
  · have hs : ((List.range n).map (fun i => ang n i)).sum = 0 := by
      have h1 : ((List.range n).map (fun i => ang n i)).reverse = (List.range n).map (fun i => - ang n i) := by
        apply List.ext_getElem
        · simp
        · intro i h1 h2
          have hi : i < n := by simpa using h2
          simp only [List.getElem_map, List.getElem_range, List.getElem_reverse, List.length_map, List.length_range]
          exact ang_rev n i hi
      have h2 := List.sum_reverse ((List.range n).map (fun i => ang n i))
      rw [h1] at h2
      have h3 : ((List.range n).map (fun i => - ang n i)).sum = - ((List.range n).map (fun i => ang n i)).sum := by
        induction (List.range n) with
        | nil => simp
        | cons x t ih => simp only [List.map_cons, List.sum_cons, ih]; ring
      linarith
    have he : poly ((List.range n).map (fun i => -Complex.exp (Complex.I * (ang n i : ℝ)))) 0 = Complex.exp (Complex.I * (((List.range n).map (fun i => ang n i)).sum : ℝ)) := by
      unfold poly
      rw [List.map_map]
      generalize List.range n = l
      induction l with
      | nil => simp
      | cons x t ih =>
        rw [List.map_cons, List.prod_cons, ih, List.map_cons, List.sum_cons]
        simp only [Function.comp, zero_sub, neg_neg]
        rw [← Complex.exp_add]
        push_cast
        ring_nf
    simp only [H, he, hs]
    simp [poly]
  · intro p hp
    simp only [List.mem_map, List.mem_range] at hp
    obtain ⟨i, hi, rfl⟩ := hp
    refine ⟨?_, ?_⟩
    · rw [Complex.neg_re, mul_comm, Complex.exp_ofReal_mul_I_re]
      have := cos_pos n i hi
      linarith
    · rw [norm_neg, mul_comm, Complex.norm_exp_ofReal_mul_I]

/-! ### Chebyshev I -/
noncomputable def eps1 (rp : ℝ) : ℝ := Real.sqrt ((10 : ℝ) ^ (rp / 10) - 1)
noncomputable def mu1 (n : ℕ) (rp : ℝ) : ℝ := Real.arsinh (1 / eps1 rp) / n
noncomputable def poles1 (n : ℕ) (rp : ℝ) : List ℂ := (List.range n).map (fun i => -Complex.sinh (mu1 n rp + Complex.I * (ang n i : ℝ)))

theorem eps1_pos (rp : ℝ) (h : 0 < rp) : 0 < eps1 rp := by
  refine Real.sqrt_pos.2 ?_
  have := Real.one_lt_rpow (x := 10) (by norm_num) (show 0 < rp / 10 by positivity)
  linarith
theorem eps1_sq (rp : ℝ) (h : 0 < rp) : 1 + eps1 rp * eps1 rp = (10 : ℝ) ^ (rp / 10) := by
  have := Real.one_lt_rpow (x := 10) (by norm_num) (show 0 < rp / 10 by positivity)
  rw [eps1, Real.mul_self_sqrt (by linarith)]
  ring
theorem mu1_pos (n : ℕ) (rp : ℝ) (hn : 0 < n) (h : 0 < rp) : 0 < mu1 n rp := by
  have := eps1_pos rp h
  have hn' : (0 : ℝ) < n := by exact_mod_cast hn
  refine div_pos (Real.arsinh_pos_iff.2 (by positivity)) hn'
theorem sinh_re (m a : ℝ) : (Complex.sinh ((m : ℂ) + Complex.I * (a : ℝ))).re = Real.sinh m * Real.cos a := by
  rw [mul_comm Complex.I, Complex.sinh_add, Complex.sinh_mul_I, Complex.cosh_mul_I]
  simp [← Complex.ofReal_sinh, ← Complex.ofReal_cosh, ← Complex.ofReal_cos, ← Complex.ofReal_sin]

theorem poles1_real (n : ℕ) (rp : ℝ) : Real' (poles1 n rp) := by
  refine real_of_rev n _ (fun i hi => ?_)
  rw [ang_rev n i hi, map_neg, ← Complex.sinh_conj]
  simp
theorem poles1_left (n : ℕ) (rp : ℝ) (h : 0 < rp) : ∀ p ∈ poles1 n rp, p.re < 0 := by
  intro p hp
  simp only [poles1, List.mem_map, List.mem_range] at hp
  obtain ⟨i, hi, rfl⟩ := hp
  rw [Complex.neg_re, sinh_re]
  have h1 := cos_pos n i hi
  have h2 : 0 < Real.sinh (mu1 n rp) := Real.sinh_pos_iff.2 (mu1_pos n rp (by omega) h)
  have := mul_pos h2 h1
  linarith

/-- poles and gain by the defining formulas -/
theorem cheb1ap_contract (n : ℕ) (rp : ℝ) : cheb1ap_dyn n rp = some (if n = 0 then ⟨[], [], (10 : ℝ) ^ (-rp / 20)⟩
    else ⟨[], poles1 n rp, ((poles1 n rp).map (fun p => -p)).prod.re / (if n % 2 = 0 then Real.sqrt (1 + eps1 rp * eps1 rp) else 1)⟩) := by
  rw [← wp_eq]
  unfold cheb1ap_dyn
  rs_inl
  have e2 : Complex.mk 1 0 = (1 : ℂ) := rfl
  vcg
  · rename_i h; rw [if_pos h]
  · rename_i h
    rw [if_neg h, ms_eq]
    have hp : List.map (fun theta_10 => -Complex.sinh (Complex.mk (Real.arsinh (1 / Real.sqrt ((10 : ℝ) ^ (rp / 10) - 1)) / (n : ℝ)) theta_10))
        (List.map (fun m_8 : ℤ => Real.pi * ((m_8 : ℝ) / ((2 * (n : ℤ) : ℤ) : ℝ))) (List.map (fun i : ℕ => -(n : ℤ) + 1 + 2 * (i : ℤ)) (List.range n))) = poles1 n rp := by
      rw [List.map_map, List.map_map]
      refine List.map_congr_left (fun i _ => ?_)
      simp only [Function.comp]
      congr 2
      have : Real.pi * (((-(n : ℤ) + 1 + 2 * (i : ℤ) : ℤ) : ℝ) / ((2 * (n : ℤ) : ℤ) : ℝ)) = ang n i := by
        unfold ang; push_cast; ring
      rw [this]
      apply Complex.ext <;> simp [mu1, eps1]
    simp only [hp]
    simp only [rs_norm, nfPair, e2]
    simp only [ZpkFormatFilter.mk.injEq, true_and]
    first
      | (split
         · rfl
         · simp)
      | (simp only [eps1]; split_ifs <;> simp)

theorem prod_neg_ne (l : List ℂ) (h : ∀ p ∈ l, p ≠ 0) : (l.map (fun p => -p)).prod ≠ 0 := by
  rw [Ne, List.prod_eq_zero_iff]
  simp only [List.mem_map, not_exists, not_and]
  intro p hp e
  exact h p hp (by simpa using e)
theorem poly_zero (l : List ℂ) : poly l 0 = (l.map (fun p => -p)).prod := by simp [poly]

/-- stable, real, proper; DC gain 1 for odd and 10^(-rp/20) for even order -/
theorem cheb1ap_poles (n : ℕ) (rp : ℝ) (h : 0 < rp) : wp (cheb1ap_dyn n rp) (fun f => Proper f ∧ f.z = [] ∧ f.p.length = n ∧
    H f 0 = (if n % 2 = 0 then (((10 : ℝ) ^ (-rp / 20) : ℝ) : ℂ) else 1) ∧ ∀ p ∈ f.p, p.re < 0) := by
  refine wp_of_eq (cheb1ap_contract n rp) ?_
  by_cases hn : n = 0
  · subst hn
    simp only [if_true, Nat.zero_mod]
    refine ⟨⟨by simp, by simp [Real'], by simp [Real']⟩, by simp, by simp, by simp [H, poly], by simp⟩
  · rw [if_neg hn]
    refine ⟨⟨by simp, by simp [Real'], poles1_real n rp⟩, rfl, by simp [poles1], ?_, poles1_left n rp h⟩
    have hr := prod_real (poles1 n rp) (fun p => -p) (fun w => by simp) (poles1_real n rp)
    have hne := prod_neg_ne (poles1 n rp) (fun p hp e => by have := poles1_left n rp h p hp; rw [e] at this; simp at this)
    simp only [H, poly_zero, List.map_nil, List.prod_nil, mul_one]
    rw [Complex.ofReal_div, hr]
    split
    · rw [eps1_sq rp h, div_right_comm, div_self hne]
      have : (10 : ℝ) ^ (-rp / 20) = 1 / Real.sqrt ((10 : ℝ) ^ (rp / 10)) := by
        rw [Real.sqrt_eq_rpow, ← Real.rpow_mul (by norm_num), one_div, ← Real.rpow_neg (by norm_num)]
        congr 1
        ring
      rw [this]
      push_cast
      rfl
    · rw [Complex.ofReal_one, div_one, div_self hne]

/-! ### Chebyshev II -/
noncomputable def de2 (rs : ℝ) : ℝ := 1 / Real.sqrt ((10 : ℝ) ^ (1 / 10 * rs) - 1)
noncomputable def mu2 (n : ℕ) (rs : ℝ) : ℝ := Real.arsinh (1 / de2 rs) / n
/-- indices with a nonzero angle -/
def idx (n : ℕ) : List ℕ := (List.range n).filter (fun i => decide (2 * i + 1 ≠ n))
noncomputable def zeros2 (n : ℕ) : List ℂ := (idx n).map (fun i => Complex.I / ((Real.sin (ang n i) : ℝ) : ℂ))
noncomputable def pole2 (n : ℕ) (rs : ℝ) (i : ℕ) : ℂ := 1 / Complex.mk (-(Real.sinh (mu2 n rs) * Real.cos (ang n i))) (-(Real.cosh (mu2 n rs) * Real.sin (ang n i)))
noncomputable def poles2 (n : ℕ) (rs : ℝ) : List ℂ := (List.range n).map (pole2 n rs)

theorem mu2_pos (n : ℕ) (rs : ℝ) (hn : 0 < n) (h : 0 < rs) : 0 < mu2 n rs := by
  have h1 := Real.one_lt_rpow (x := 10) (by norm_num) (show 0 < 1 / 10 * rs by positivity)
  have h2 : 0 < Real.sqrt ((10 : ℝ) ^ (1 / 10 * rs) - 1) := Real.sqrt_pos.2 (by linarith)
  have hn' : (0 : ℝ) < n := by exact_mod_cast hn
  refine div_pos (Real.arsinh_pos_iff.2 ?_) hn'
  unfold de2
  positivity

theorem idx_odd (k : ℕ) : idx (2 * k + 1) = List.range k ++ (List.range k).map (fun i => k + 1 + i) := by
  unfold idx
  have : List.range (2 * k + 1) = List.range k ++ (k :: (List.range k).map (fun i => k + 1 + i)) := by
    rw [show 2 * k + 1 = k + (k + 1) by omega, List.range_add, List.range_succ_eq_map]
    simp [Function.comp_def, add_assoc, add_comm, Nat.succ_eq_add_one]
    intros; omega
  rw [this, List.filter_append, List.filter_cons]
  have h1 : (List.range k).filter (fun i => decide (2 * i + 1 ≠ 2 * k + 1)) = List.range k := by
    rw [List.filter_eq_self]
    intro i hi
    have := List.mem_range.1 hi
    simp; omega
  have h2 : ((List.range k).map (fun i => k + 1 + i)).filter (fun i => decide (2 * i + 1 ≠ 2 * k + 1)) = (List.range k).map (fun i => k + 1 + i) := by
    rw [List.filter_eq_self]
    intro i hi
    obtain ⟨j, _, rfl⟩ := List.mem_map.1 hi
    simp; omega
  rw [h1, h2]
  simp
theorem idx_even (k : ℕ) : idx (2 * k) = List.range (2 * k) := by
  unfold idx
  rw [List.filter_eq_self]
  intro i hi
  simp; omega

/-- the list of multipliers the zeros are made from -/
theorem ms2_eq (n : ℕ) : (if n % 2 = 1 then rsStepBy 2 (rsIRange (-(n : ℤ) + 1) 0) ++ rsStepBy 2 (rsIRange 2 (n : ℤ))
    else rsStepBy 2 (rsIRange (-(n : ℤ) + 1) (n : ℤ)) ++ rsStepBy 2 (rsIRange 0 0)) = (idx n).map (fun i : ℕ => -(n : ℤ) + 1 + 2 * (i : ℤ)) := by
  split
  · obtain ⟨k, rfl⟩ : ∃ k, n = 2 * k + 1 := ⟨n / 2, by omega⟩
    rw [idx_odd, stepBy2 _ (2 * k) _ (by omega), stepBy2 _ (2 * k - 1) _ (by omega)]
    rw [show (2 * k + 1) / 2 = k by omega, show (2 * k - 1 + 1) / 2 = k by omega, List.map_append, List.map_map]
    congr 1
    refine List.map_congr_left (fun i _ => ?_)
    simp only [Function.comp]
    push_cast
    ring
  · obtain ⟨k, rfl⟩ : ∃ k, n = 2 * k := ⟨n / 2, by omega⟩
    rw [idx_even, ms_eq, stepBy2 _ 0 _ (by omega)]
    simp

theorem sin_ne (n i : ℕ) (h : i ∈ idx n) : Real.sin (ang n i) ≠ 0 := by
  simp only [idx, List.mem_filter, List.mem_range, decide_eq_true_eq] at h
  obtain ⟨hi, hne⟩ := h
  have hb := ang_bounds n i hi
  have hp := Real.pi_pos
  have h0 : ang n i ≠ 0 := by
    unfold ang
    have hn : (0 : ℝ) < n := by exact_mod_cast (by omega : 0 < n)
    have : (((-(n : ℤ) + 1 + 2 * (i : ℤ) : ℤ)) : ℝ) ≠ 0 := by
      rw [Int.cast_ne_zero]; omega
    exact div_ne_zero (mul_ne_zero hp.ne' this) (by positivity)
  rcases lt_or_gt_of_ne h0 with h | h
  · exact (Real.sin_neg_of_neg_of_neg_pi_lt h (by linarith)).ne
  · exact (Real.sin_pos_of_pos_of_lt_pi h (by linarith)).ne'

theorem zeros2_real (n : ℕ) : Real' (zeros2 n) := by
  unfold Real' zeros2
  have hrev : (idx n).map (fun i => n - 1 - i) = (idx n).reverse := by
    have h1 : (List.range n).map (fun i => n - 1 - i) = (List.range n).reverse := by
      apply List.ext_getElem
      · simp
      · intro i h1 h2; simp
    unfold idx
    rw [← List.filter_reverse, ← h1, List.filter_map]
    congr 1
    apply List.filter_congr
    intro i hi
    have := List.mem_range.1 hi
    simp only [Function.comp, decide_eq_decide]
    omega
  have : ((idx n).map (fun i => Complex.I / ((Real.sin (ang n i) : ℝ) : ℂ))).map (fun w => conj w)
      = ((idx n).map (fun i => Complex.I / ((Real.sin (ang n i) : ℝ) : ℂ))).reverse := by
    rw [← List.map_reverse, ← hrev, List.map_map, List.map_map]
    refine List.map_congr_left (fun i hi => ?_)
    have hi' : i < n := by
      simp only [idx, List.mem_filter, List.mem_range] at hi; exact hi.1
    simp only [Function.comp]
    rw [ang_rev n i hi', Real.sin_neg, map_div₀, Complex.conj_I, Complex.conj_ofReal]
    push_cast
    rw [neg_div, div_neg]
  rw [this]
  exact List.reverse_perm _
theorem zeros2_ne (n : ℕ) : ∀ z ∈ zeros2 n, z ≠ 0 := by
  intro z hz
  simp only [zeros2, List.mem_map] at hz
  obtain ⟨i, hi, rfl⟩ := hz
  exact div_ne_zero Complex.I_ne_zero (by exact_mod_cast sin_ne n i hi)
theorem poles2_real (n : ℕ) (rs : ℝ) : Real' (poles2 n rs) := by
  refine real_of_rev n _ (fun i hi => ?_)
  unfold pole2
  rw [ang_rev n i hi, map_div₀, map_one, Real.cos_neg, Real.sin_neg]
  congr 1
  apply Complex.ext <;> simp
theorem poles2_left (n : ℕ) (rs : ℝ) (h : 0 < rs) : ∀ p ∈ poles2 n rs, p.re < 0 := by
  intro p hp
  simp only [poles2, List.mem_map, List.mem_range] at hp
  obtain ⟨i, hi, rfl⟩ := hp
  have h1 := cos_pos n i hi
  have h2 : 0 < Real.sinh (mu2 n rs) := Real.sinh_pos_iff.2 (mu2_pos n rs (by omega) h)
  have h3 := mul_pos h2 h1
  unfold pole2
  rw [one_div, Complex.inv_re]
  refine div_neg_of_neg_of_pos (by simpa using h3) ?_
  rw [Complex.normSq_pos]
  intro e
  have := congrArg Complex.re e
  simp only [Complex.zero_re] at this
  linarith

/-- zeros, poles and gain by the defining formulas -/
theorem cheb2ap_contract (n : ℕ) (rs : ℝ) : cheb2ap_dyn n rs = some (if n = 0 then ⟨[], [], 1⟩
    else ⟨zeros2 n, poles2 n rs, (((poles2 n rs).map (fun p => -p)).prod / ((zeros2 n).map (fun z => -z)).prod).re⟩) := by
  rw [← wp_eq]
  unfold cheb2ap_dyn
  rs_inl
  vcg
  · rename_i h; rw [if_pos h]
  · rename_i h
    rw [if_neg h, ms2_eq, ms_eq]
    have e2 : Complex.mk 1 0 = (1 : ℂ) := rfl
    simp only [foldl_prod, e2, one_mul]
    have key : ∀ Z P : List ℂ, Z = zeros2 n → P = poles2 n rs →
        (ZpkFormatFilter.mk Z P ((P.map (fun p => -p)).prod / (Z.map (fun z => -z)).prod).re) =
        ⟨zeros2 n, poles2 n rs, (((poles2 n rs).map (fun p => -p)).prod / ((zeros2 n).map (fun z => -z)).prod).re⟩ := by
      rintro Z P rfl rfl; rfl
    refine key _ _ ?_ ?_
    · simp only [List.map_map]
      refine List.map_congr_left (fun i _ => ?_)
      simp only [Function.comp]
      rw [show ((-(n : ℤ) + 1 + 2 * (i : ℤ) : ℤ) : ℝ) * (Real.pi / (2 * (n : ℝ))) = ang n i by unfold ang; ring]
      show -(starRingEnd ℂ) (Complex.I / ((Real.sin (ang n i) : ℝ) : ℂ)) = _
      rw [map_div₀, Complex.conj_I, Complex.conj_ofReal, neg_div, neg_neg]
    · simp only [List.map_map]
      refine List.map_congr_left (fun i _ => ?_)
      simp only [Function.comp]
      have h1 : Complex.mk 0 (Real.pi * ((-(n : ℤ) + 1 + 2 * (i : ℤ) : ℤ) : ℝ) / (2 * (((n : ℤ)) : ℝ))) = ((ang n i : ℝ) : ℂ) * Complex.I := by
        apply Complex.ext <;> simp only [Complex.re_ofReal_mul, Complex.im_ofReal_mul, Complex.I_re, Complex.I_im, mul_zero, mul_one, ang, Int.cast_natCast]
      rw [h1, Complex.neg_re, Complex.neg_im, Complex.exp_ofReal_mul_I_re, Complex.exp_ofReal_mul_I_im]
      unfold pole2 mu2 de2
      rw [mul_neg, mul_neg]

/-- stable, real, proper; DC gain 1 -/
theorem cheb2ap_poles (n : ℕ) (rs : ℝ) (h : 0 < rs) : wp (cheb2ap_dyn n rs) (fun f => Proper f ∧ f.z.length = n - n % 2 ∧ f.p.length = n ∧
    H f 0 = 1 ∧ (∀ z ∈ f.z, z.re = 0 ∧ z ≠ 0) ∧ ∀ p ∈ f.p, p.re < 0) := by
  refine wp_of_eq (cheb2ap_contract n rs) ?_
  by_cases hn : n = 0
  · subst hn
    simp only [if_true]
    refine ⟨⟨by simp, by simp [Real'], by simp [Real']⟩, by simp, by simp, by simp [H, poly], by simp, by simp⟩
  · rw [if_neg hn]
    have hl : (zeros2 n).length = n - n % 2 := by
      simp only [zeros2, List.length_map]
      rcases Nat.even_or_odd' n with ⟨k, rfl | rfl⟩
      · rw [idx_even]; simp
      · rw [idx_odd]; simp; omega
    have hr := prod_real (poles2 n rs) (fun p => -p) (fun w => by simp) (poles2_real n rs)
    have hrz := prod_real (zeros2 n) (fun p => -p) (fun w => by simp) (zeros2_real n)
    have hne := prod_neg_ne (poles2 n rs) (fun p hp e => by have := poles2_left n rs h p hp; rw [e] at this; simp at this)
    have hnz := prod_neg_ne (zeros2 n) (zeros2_ne n)
    refine ⟨⟨by simp [poles2, hl], zeros2_real n, poles2_real n rs⟩, hl, by simp [poles2], ?_, ?_, poles2_left n rs h⟩
    · simp only [H, poly_zero]
      rw [← hr, ← hrz, ← Complex.ofReal_div, Complex.ofReal_re, Complex.ofReal_div]
      rw [← hr] at hne
      rw [← hrz] at hnz
      rw [div_mul_cancel₀ _ hnz, div_self hne]
    · intro z hz
      refine ⟨?_, zeros2_ne n z hz⟩
      simp only [zeros2, List.mem_map] at hz
      obtain ⟨i, hi, rfl⟩ := hz
      rw [Complex.div_ofReal_re]; simp
end C13

/-
C15  The bilinear transform is exact and keeps stable filters stable.
-/
import RsLemmas
import Gen.Bilinear
import Contracts.C14
set_option linter.all false
open Classical Gen ComplexConjugate C14
namespace C15

theorem stable (F : ℝ) (p : ℂ) (hF : 0 < F) (hp : p.re < 0) : ‖((F : ℂ) + p) / ((F : ℂ) - p)‖ < 1 := by
  have h : ((F : ℂ) - p) ≠ 0 := by
    intro e
    have := congrArg Complex.re e
    simp at this
    linarith
  rw [norm_div, div_lt_one (norm_pos_iff.2 h)]
  apply lt_of_pow_lt_pow_left₀ 2 (norm_nonneg _)
  rw [Complex.sq_norm, Complex.sq_norm, Complex.normSq_apply, Complex.normSq_apply]
  simp
  nlinarith

theorem bilinear_contract (f : ZpkFormatFilter ℝ) (fs : ℝ) (hf : Proper f) (hfs : 0 < fs) (hn : f.p.length < 2 ^ 64)
    (h0 : ∀ w ∈ f.z ++ f.p, w ≠ ((2 * fs : ℝ) : ℂ)) :
    wp (bilinear_zpk_dyn f fs) (fun g =>
      g.p = f.p.map (fun p => (((2 * fs : ℝ) : ℂ) + p) / (((2 * fs : ℝ) : ℂ) - p)) ∧
      g.z = f.z.map (fun z => (((2 * fs : ℝ) : ℂ) + z) / (((2 * fs : ℝ) : ℂ) - z)) ++ List.replicate (f.p.length - f.z.length) (-1) ∧
      g.z.length = g.p.length ∧
      ∀ z : ℂ, z ≠ -1 → H g z = H f (((2 * fs : ℝ) : ℂ) * (z - 1) / (z + 1))) := by
  unfold bilinear_zpk_dyn ZpkFormatFilter_new
  rs_inl
  vcg
  refine wp_of_eq (relative_degree_dyn_contract _ _ hf.deg hn) ?_
  vcg
  have hd := hf.deg
  have e1 : Complex.mk (2 * fs) 0 = ((2 * fs : ℝ) : ℂ) := rfl
  have e2 : Complex.mk 1 0 = (1 : ℂ) := rfl
  have e3 : Complex.mk (-1) 0 = (-1 : ℂ) := by apply Complex.ext <;> simp
  simp only [e1, e2, e3]
  generalize hF : 2 * fs = F at *
  have hF0 : 0 < F := by linarith
  refine ⟨by simp, by simp, by simp; omega, fun z hz => ?_⟩
  have hz1 : z + 1 ≠ 0 := fun e => hz (by linear_combination e)
  simp only [H, map_const_range, rs_norm, nfPair, foldl_prod, poly_append, poly_const, one_mul]
  have hne : ∀ l : List ℂ, (∀ w ∈ l, w ∈ f.z ++ f.p) → (l.map (fun w => (F : ℂ) - w)).prod ≠ 0 := by
    intro l hl
    rw [Ne, List.prod_eq_zero_iff]
    simp only [List.mem_map, not_exists, not_and]
    intro w hw e
    exact h0 w (hl w hw) (by linear_combination -e)
  have nz := hne f.z (fun w hw => by simp [hw])
  have np := hne f.p (fun w hw => by simp [hw])
  have rz := prod_real f.z (fun w => (F : ℂ) - w) (fun w => by simp) hf.rz
  have rp := prod_real f.p (fun w => (F : ℂ) - w) (fun w => by simp) hf.rp
  have key : ∀ l : List ℂ, (∀ w ∈ l, w ∈ f.z ++ f.p) →
      poly (l.map (fun w => ((F : ℂ) + w) / ((F : ℂ) - w))) z = (z + 1) ^ l.length * ((l.map (fun w => (F : ℂ) - w)).prod)⁻¹ * poly l ((F : ℂ) * (z - 1) / (z + 1)) := by
    intro l hl
    rw [poly_map l (fun w => ((F : ℂ) + w) / ((F : ℂ) - w)) (fun w => (z + 1) * ((F : ℂ) - w)⁻¹) z ((F : ℂ) * (z - 1) / (z + 1))]
    · rw [List.prod_map_mul, List.map_const', List.prod_replicate, prod_map_inv (g := fun w => (F : ℂ) - w)]
    · intro w hw
      have : (F : ℂ) - w ≠ 0 := fun e => h0 w (hl w hw) (by linear_combination -e)
      field_simp
      ring
  rw [key f.z (fun w hw => by simp [hw]), key f.p (fun w hw => by simp [hw])]
  have hk : (((List.map (fun w => (F : ℂ) - w) f.z).prod / (List.map (fun w => (F : ℂ) - w) f.p).prod).re : ℂ) =
      (List.map (fun w => (F : ℂ) - w) f.z).prod / (List.map (fun w => (F : ℂ) - w) f.p).prod := by
    rw [← rz, ← rp, ← Complex.ofReal_div, Complex.ofReal_re]
  rw [Complex.ofReal_mul, hk]
  generalize (List.map (fun w => (F : ℂ) - w) f.z).prod = Z at nz ⊢
  generalize (List.map (fun w => (F : ℂ) - w) f.p).prod = P at np ⊢
  have : (z + 1) ^ f.p.length = (z + 1) ^ (f.p.length - f.z.length) * (z + 1) ^ f.z.length := by
    rw [← pow_add]; congr 1; omega
  rw [this, sub_neg_eq_add]
  by_cases hD : poly f.p ((F : ℂ) * (z - 1) / (z + 1)) = 0
  · simp [hD]
  · field_simp

/-- every pole with negative real part ends strictly inside the unit circle -/
theorem bilinear_stable (f : ZpkFormatFilter ℝ) (fs : ℝ) (hf : Proper f) (hfs : 0 < fs) (hn : f.p.length < 2 ^ 64)
    (h0 : ∀ w ∈ f.z ++ f.p, w ≠ ((2 * fs : ℝ) : ℂ)) (hs : ∀ p ∈ f.p, p.re < 0) :
    wp (bilinear_zpk_dyn f fs) (fun g => ∀ p ∈ g.p, ‖p‖ < 1) := by
  refine wp_conseq (bilinear_contract f fs hf hfs hn h0) ?_
  rintro g ⟨h, -⟩ p hp
  rw [h, List.mem_map] at hp
  obtain ⟨q, hq, rfl⟩ := hp
  exact stable (2 * fs) q (by linarith) (hs q hq)

theorem improper_rejects (f : ZpkFormatFilter ℝ) (fs : ℝ) (h : f.p.length < f.z.length) : bilinear_zpk_dyn f fs = none := by
  unfold bilinear_zpk_dyn
  rs_inl
  rw [relative_degree_dyn_rejects _ _ h]
  rfl
end C15

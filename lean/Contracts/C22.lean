import RsLemmas
import Gen.Wave
/-! Contract of `square`. -/
open Gen
namespace C22

/-- time modulo 2*pi, in [0, 2*pi) -/
noncomputable def phase (t : ℝ) : ℝ := 2 * Real.pi * Int.fract (t / (2 * Real.pi))
theorem phase_spec (t : ℝ) : 0 ≤ phase t ∧ phase t < 2 * Real.pi ∧ ∃ n : ℤ, phase t = t - n * (2 * Real.pi) := by
  have hp := Real.pi_pos
  have h2 := Int.fract_nonneg (t / (2 * Real.pi))
  have h3 := Int.fract_lt_one (t / (2 * Real.pi))
  refine ⟨by unfold phase; positivity, by unfold phase; nlinarith, ⌊t / (2 * Real.pi)⌋, ?_⟩
  unfold phase
  rw [Int.fract]
  field_simp
/-- it is the only such value -/
theorem phase_unique (t x : ℝ) (h0 : 0 ≤ x) (h1 : x < 2 * Real.pi) (n : ℤ) (h : x = t - n * (2 * Real.pi)) : x = phase t := by
  have hp := Real.pi_pos
  have : Int.fract (t / (2 * Real.pi)) = x / (2 * Real.pi) := by
    rw [Int.fract_eq_iff]
    refine ⟨by positivity, by rw [div_lt_one (by positivity)]; exact h1, n, ?_⟩
    rw [h]; field_simp; ring
  unfold phase
  rw [this]; field_simp

theorem wrap (t : ℝ) : (if rsFmod t (2 * Real.pi) < 0 then rsFmod t (2 * Real.pi) + 2 * Real.pi else rsFmod t (2 * Real.pi)) = phase t := by
  have hp := Real.pi_pos
  unfold rsFmod rsTrunc
  by_cases h : 0 ≤ t / (2 * Real.pi)
  · rw [if_pos h]
    have e : t - 2 * Real.pi * ((⌊t / (2 * Real.pi)⌋ : ℤ) : ℝ) = phase t := by
      unfold phase; rw [Int.fract]; field_simp
    rw [e, if_neg (not_lt.2 (phase_spec t).1)]
  · rw [if_neg h]
    have e : t - 2 * Real.pi * ((⌈t / (2 * Real.pi)⌉ : ℤ) : ℝ) = 2 * Real.pi * (t / (2 * Real.pi) - ⌈t / (2 * Real.pi)⌉) := by
      field_simp
    have h1 := Int.le_ceil (t / (2 * Real.pi))
    have h2 := Int.ceil_lt_add_one (t / (2 * Real.pi))
    split
    · rename_i h3
      refine phase_unique t _ ?_ (by linarith) (⌈t / (2 * Real.pi)⌉ - 1) (by push_cast; ring)
      rw [e]; nlinarith
    · rename_i h3
      refine phase_unique t _ (not_lt.1 h3) ?_ (⌈t / (2 * Real.pi)⌉) (by ring)
      rw [e]; nlinarith

theorem square_contract (t : List ℝ) (duty : ℝ) (h : 0 ≤ duty ∧ duty ≤ 1) :
    square t duty = some (t.map (fun t => if phase t < 2 * Real.pi * duty then 1 else -1)) := by
  rw [← wp_eq]
  unfold square
  rs_inl
  vcg
  · refine List.map_congr_left (fun t _ => ?_)
    simp only [wrap]
    try (split_ifs <;> first | rfl | (exfalso; linarith))
  · contradiction
theorem square_rejects (t : List ℝ) (duty : ℝ) (h : duty < 0 ∨ 1 < duty) : square t duty = none := by
  unfold square
  rs_inl
  rw [if_neg]
  rintro ⟨h1, h2⟩
  rcases h with h | h <;> linarith
end C22

import RsFourier
import Gen.Convolve
/-! Contracts of the FFT convolution: it is the direct sum, in every mode. -/
set_option maxRecDepth 4000
set_option linter.unusedTactic false
open Gen Fourier Finset
namespace C20

/-- direct convolution sum -/
noncomputable def conv (x y : List ℝ) (i : ℕ) : ℝ := ∑ j ∈ range (i + 1), x.getD j 0 * y.getD (i - j) 0

theorem pad_getD (N : ℕ) (x : List ℝ) (h : x.length ≤ N) (j : ℕ) :
    (rsOverwrite (List.replicate N (0 : ℂ)) ((List.map (fun p : ℂ × ℝ => (Complex.mk p.2 0, p.2)) (List.zip (List.replicate N (0 : ℂ)) x)).map Prod.fst)).getD j 0 = ((x.getD j 0 : ℝ) : ℂ) := by
  unfold rsOverwrite
  rw [List.getD_eq_getElem?_getD, List.getElem?_append]
  by_cases hj : j < x.length
  · rw [if_pos (by simp; omega), List.getD_eq_getElem _ _ hj]
    rw [List.getElem?_eq_getElem (by simp; omega)]
    simp
    rfl
  · rw [if_neg (by simp; omega), List.getD_eq_default _ _ (by omega)]
    rw [List.getElem?_drop, List.getElem?_replicate]
    split <;> simp
theorem pad_length (N : ℕ) (x : List ℝ) (h : x.length ≤ N) :
    (rsOverwrite (List.replicate N (0 : ℂ)) ((List.map (fun p : ℂ × ℝ => (Complex.mk p.2 0, p.2)) (List.zip (List.replicate N (0 : ℂ)) x)).map Prod.fst)).length = N := by
  simp [rsOverwrite, h]

/-- for sequences short enough the cyclic convolution is the direct one -/
theorem conv_direct (N : ℕ) (x y : List ℝ) (hN : x.length + y.length ≤ N + 1) (i : ℕ) (hi : i < N) :
    G N (fun k => F N (fun j => ((x.getD j 0 : ℝ) : ℂ)) k * F N (fun j => ((y.getD j 0 : ℝ) : ℂ)) k) i = N * ((conv x y i : ℝ) : ℂ) := by
  rw [conv_cyclic N (by omega)]
  congr 1
  unfold conv
  push_cast
  have h1 : ∀ j ∈ range N, (∑ l ∈ range N, if (N : ℤ) ∣ (i : ℤ) - j - l then ((x.getD j 0 : ℝ) : ℂ) * ((y.getD l 0 : ℝ) : ℂ) else 0)
      = if j < i + 1 then ((x.getD j 0 : ℝ) : ℂ) * ((y.getD (i - j) 0 : ℝ) : ℂ) else 0 := by
    intro j hj
    have hj := mem_range.1 hj
    by_cases hjx : j < x.length
    · have h2 : ∀ l ∈ range N, (if (N : ℤ) ∣ (i : ℤ) - j - l then ((x.getD j 0 : ℝ) : ℂ) * ((y.getD l 0 : ℝ) : ℂ) else 0)
          = if j < i + 1 ∧ l = i - j then ((x.getD j 0 : ℝ) : ℂ) * ((y.getD l 0 : ℝ) : ℂ) else 0 := by
        intro l hl
        have hl := mem_range.1 hl
        by_cases hly : l < y.length
        · have : (N : ℤ) ∣ (i : ℤ) - j - l ↔ (j < i + 1 ∧ l = i - j) := by
            constructor
            · rintro ⟨c, hc⟩
              have : c = 0 := by
                by_contra h0
                rcases lt_or_gt_of_ne h0 with h | h
                · have : (N : ℤ) * c ≤ -N := by nlinarith
                  omega
                · have : (N : ℤ) ≤ N * c := by nlinarith
                  omega
              subst this
              omega
            · rintro ⟨a, b⟩
              exact ⟨0, by omega⟩
          simp only [this]
        · rw [List.getD_eq_default y _ (by omega)]; simp
      rw [sum_congr rfl h2]
      by_cases h3 : j < i + 1
      · simp only [h3, true_and, if_true]
        rw [sum_ite_eq' (range N) (i - j)]
        rw [if_pos (mem_range.2 (by omega))]
      · simp [h3]
    · rw [List.getD_eq_default x _ (by omega)]; simp
  rw [sum_congr rfl h1, ← sum_filter]
  refine sum_congr ?_ (fun _ _ => rfl)
  ext j
  simp only [mem_filter, mem_range]
  omega

theorem le_nextPow (n : ℕ) : n ≤ rsNextPow2 n := Nat.le_pow_clog (by decide) n

/-- the full convolution, and what each mode takes of it -/
noncomputable def full (x y : List ℝ) : List ℝ := (List.range (x.length + y.length - 1)).map (conv x y)
noncomputable def spec (x y : List ℝ) : ConvolveMode → List ℝ
  | ConvolveMode.Full => (List.range (x.length + y.length - 1)).map (conv x y)
  | ConvolveMode.Same => (List.range x.length).map (fun i => conv x y ((y.length - 1) / 2 + i))
  | ConvolveMode.Valid => (List.range (max x.length y.length - min x.length y.length + 1)).map (fun i => conv x y (min x.length y.length - 1 + i))

theorem slice_range (n a b : ℕ) (f : ℕ → ℝ) (h : a ≤ b) (hb : b ≤ n) : (((List.range n).map f).take b).drop a = (List.range (b - a)).map (fun i => f (a + i)) := by
  apply List.ext_getElem
  · simp; omega
  · intro i h1 h2; simp

theorem fftconvolve_contract (x y : List ℝ) (mode : ConvolveMode) (hx : x ≠ []) (hy : y ≠ []) : fftconvolve x y mode = some (spec x y mode) := by
  have hx := List.length_pos_iff.2 hx
  have hy := List.length_pos_iff.2 hy
  rw [← wp_eq]
  unfold fftconvolve
  rs_inl
  vcg
  · omega
  generalize hN : rsNextPow2 (x.length + y.length - 1) = N
  have hle : x.length + y.length - 1 ≤ N := by rw [← hN]; exact le_nextPow _
  have hN0 : (N : ℝ) ≠ 0 := by exact_mod_cast (by omega : N ≠ 0)
  refine wp_of_eq (if_pos (pad_length N x (by omega))) ?_
  vcg
  refine wp_of_eq (if_pos (pad_length N y (by omega))) ?_
  vcg
  rw [dft_fwd, dft_fwd]
  simp only [pad_getD N x (by omega), pad_getD N y (by omega)]
  have hz : List.map (fun x_21 : ℂ × ℂ => x_21.1 * x_21.2) (List.zip (List.map (F N (fun j => ((x.getD j 0 : ℝ) : ℂ))) (List.range N))
      (List.map (F N (fun j => ((y.getD j 0 : ℝ) : ℂ))) (List.range N))) =
      (List.range N).map (fun k => F N (fun j => ((x.getD j 0 : ℝ) : ℂ)) k * F N (fun j => ((y.getD j 0 : ℝ) : ℂ)) k) := by
    apply List.ext_getElem
    · simp
    · intro i h1 h2; simp
  rw [hz]
  refine wp_of_eq (if_pos (by simp)) ?_
  rw [dft_inv]
  have hf : List.map (fun x_27 : ℂ => x_27.re / (N : ℝ)) (List.take (x.length + y.length - 1) (List.map (G N (fun j => (List.map (fun k => F N (fun j => ((x.getD j 0 : ℝ) : ℂ)) k * F N (fun j => ((y.getD j 0 : ℝ) : ℂ)) k) (List.range N)).getD j 0)) (List.range N)))
      = (List.range (x.length + y.length - 1)).map (conv x y) := by
    apply List.ext_getElem
    · simp; omega
    · intro i h1 h2
      simp only [List.length_map, List.length_range] at h2
      simp only [List.getElem_map, List.getElem_take, List.getElem_range]
      rw [G_congr N _ (fun k => F N (fun j => ((x.getD j 0 : ℝ) : ℂ)) k * F N (fun j => ((y.getD j 0 : ℝ) : ℂ)) k) (fun j hj => by rw [getD_range, if_pos hj]),
        conv_direct N x y (by omega) i (by omega)]
      rw [← Complex.ofReal_natCast, ← Complex.ofReal_mul, Complex.ofReal_re]
      field_simp
  vcg
  rw [hf]
  cases mode with
  | Full => dsimp only; vcg; rfl
  | Valid =>
    dsimp only
    by_cases hc : y.length ≤ x.length
    all_goals try simp only [ge_iff_le, gt_iff_lt, hc, not_lt.2, not_le.1, if_true, if_false]
    all_goals vcg
    all_goals first | omega | skip
    all_goals try simp only [List.length_map, List.length_range]
    all_goals first | omega | skip
    all_goals (rw [slice_range _ _ _ _ (by omega) (by omega)]; unfold spec; congr 2 <;> (first | omega | (funext i; congr 2; omega)))
  | Same =>
    dsimp only
    vcg
    all_goals try simp only [List.length_map, List.length_range]
    all_goals first | omega | skip
    rw [slice_range _ _ _ _ (by omega) (by omega)]; unfold spec; congr 2; omega
theorem convolve_contract (x y : List ℝ) (mode : ConvolveMode) (hx : x ≠ []) (hy : y ≠ []) : convolve x y mode = some (spec x y mode) := by
  unfold convolve
  rs_inl
  exact fftconvolve_contract x y mode hx hy
theorem correlate_contract (x y : List ℝ) (mode : ConvolveMode) (hx : x ≠ []) (hy : y ≠ []) : correlate x y mode = some (spec x y.reverse mode) := by
  unfold correlate
  rs_inl
  exact fftconvolve_contract x y.reverse mode hx (by simpa using hy)
end C20

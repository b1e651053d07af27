import RsLemmas
/-! The discrete Fourier transform the extracted code calls (`rsDft`), as finite sums, and its inversion. -/
open Finset
namespace Fourier

theorem sum_list_range {M : Type} [AddCommMonoid M] (n : ℕ) (f : ℕ → M) : ((List.range n).map f).sum = ∑ i ∈ range n, f i := by
  induction n with
  | zero => simp
  | succ n ih => rw [List.range_succ, List.map_append, List.sum_append, ih, sum_range_succ]; simp

/-- `e^{2 pi i m / N}` -/
noncomputable def w (N : ℕ) (m : ℤ) : ℂ := Complex.exp (2 * Real.pi * Complex.I * (m : ℂ) / (N : ℂ))
theorem w_add (N : ℕ) (a b : ℤ) : w N (a + b) = w N a * w N b := by
  unfold w; rw [← Complex.exp_add]; congr 1; push_cast; ring
theorem w_zero (N : ℕ) : w N 0 = 1 := by simp [w]
theorem w_mul (N : ℕ) (a : ℤ) (k : ℕ) : w N (a * k) = w N a ^ k := by
  unfold w; rw [← Complex.exp_nat_mul]; congr 1; push_cast; ring
theorem w_eq_one (N : ℕ) (hN : 0 < N) (m : ℤ) : w N m = 1 ↔ (N : ℤ) ∣ m := by
  unfold w
  rw [Complex.exp_eq_one_iff]
  have hN' : (N : ℂ) ≠ 0 := by exact_mod_cast hN.ne'
  have hp : (2 * Real.pi * Complex.I : ℂ) ≠ 0 := by
    simp [Real.pi_ne_zero, Complex.I_ne_zero]
  constructor
  · rintro ⟨n, h⟩
    refine ⟨n, ?_⟩
    have : (m : ℂ) = (N : ℂ) * n := by
      field_simp at h
      have h2 : (2 * Real.pi * Complex.I : ℂ) * (m : ℂ) = (2 * Real.pi * Complex.I : ℂ) * ((N : ℂ) * n) := by linear_combination (norm := ring_nf) (2 * (Real.pi : ℂ) * Complex.I) * h
      exact mul_left_cancel₀ hp h2
    exact_mod_cast this
  · rintro ⟨n, rfl⟩
    refine ⟨n, ?_⟩
    push_cast
    field_simp
/-- orthogonality of the characters -/
theorem w_sum (N : ℕ) (hN : 0 < N) (m : ℤ) : ∑ k ∈ range N, w N (m * k) = if (N : ℤ) ∣ m then (N : ℂ) else 0 := by
  simp only [w_mul]
  split
  · rename_i h
    rw [(w_eq_one N hN m).2 h]; simp
  · rename_i h
    have h1 : w N m ≠ 1 := fun e => h ((w_eq_one N hN m).1 e)
    have h2 := geom_sum_mul (w N m) N
    have h3 : w N m ^ N = 1 := by
      rw [← w_mul, w_eq_one N hN]; exact ⟨m, by ring⟩
    rw [h3, sub_self] at h2
    exact (mul_eq_zero.1 h2).resolve_right (sub_ne_zero.2 h1)

/-- transform of a sequence given by a function -/
noncomputable def F (N : ℕ) (x : ℕ → ℂ) (k : ℕ) : ℂ := ∑ j ∈ range N, x j * w N (-((j : ℤ) * k))
noncomputable def G (N : ℕ) (x : ℕ → ℂ) (k : ℕ) : ℂ := ∑ j ∈ range N, x j * w N ((j : ℤ) * k)
theorem dft_fwd (N : ℕ) (l : List ℂ) : rsDft N true l = (List.range N).map (F N (fun j => l.getD j 0)) := by
  unfold rsDft
  refine List.map_congr_left (fun k _ => ?_)
  rw [sum_list_range]
  refine sum_congr rfl (fun j _ => ?_)
  simp only [List.getD_eq_getElem?_getD]
  congr 1
  unfold w
  congr 1
  simp only [if_true]; push_cast; ring
theorem dft_inv (N : ℕ) (l : List ℂ) : rsDft N false l = (List.range N).map (G N (fun j => l.getD j 0)) := by
  unfold rsDft
  refine List.map_congr_left (fun k _ => ?_)
  rw [sum_list_range]
  refine sum_congr rfl (fun j _ => ?_)
  simp only [List.getD_eq_getElem?_getD]
  congr 1
  unfold w
  congr 1
  simp only [Bool.false_eq_true, if_false]; push_cast; ring
theorem getD_range (N : ℕ) (f : ℕ → ℂ) (j : ℕ) : ((List.range N).map f).getD j 0 = if j < N then f j else 0 := by
  split
  · rename_i h; rw [List.getD_eq_getElem _ _ (by simpa using h)]; simp
  · rename_i h; rw [List.getD_eq_default _ _ (by simpa using h)]
theorem F_congr (N : ℕ) (x y : ℕ → ℂ) (h : ∀ j < N, x j = y j) (k : ℕ) : F N x k = F N y k :=
  sum_congr rfl (fun j hj => by rw [h j (mem_range.1 hj)])
theorem G_congr (N : ℕ) (x y : ℕ → ℂ) (h : ∀ j < N, x j = y j) (k : ℕ) : G N x k = G N y k :=
  sum_congr rfl (fun j hj => by rw [h j (mem_range.1 hj)])

/-- convolution theorem, cyclic -/
theorem conv_cyclic (N : ℕ) (hN : 0 < N) (x y : ℕ → ℂ) (i : ℕ) : G N (fun k => F N x k * F N y k) i =
    N * ∑ j ∈ range N, ∑ l ∈ range N, if (N : ℤ) ∣ (i : ℤ) - j - l then x j * y l else 0 := by
  unfold G F
  have h1 : ∀ k : ℕ, (∑ j ∈ range N, x j * w N (-((j : ℤ) * k))) * (∑ j ∈ range N, y j * w N (-((j : ℤ) * k))) * w N ((k : ℤ) * i)
      = ∑ j ∈ range N, ∑ l ∈ range N, x j * y l * w N (((i : ℤ) - j - l) * k) := by
    intro k
    rw [sum_mul_sum, sum_mul]
    refine sum_congr rfl (fun j _ => ?_)
    rw [sum_mul]
    refine sum_congr rfl (fun l _ => ?_)
    rw [show ((i : ℤ) - j - l) * k = -((j : ℤ) * k) + (-((l : ℤ) * k) + (k : ℤ) * i) by ring, w_add, w_add]
    ring
  simp only [h1]
  rw [sum_comm, mul_sum]
  refine sum_congr rfl (fun j _ => ?_)
  rw [sum_comm, mul_sum]
  refine sum_congr rfl (fun l _ => ?_)
  rw [← mul_sum, w_sum N hN]
  split
  · ring
  · ring
end Fourier

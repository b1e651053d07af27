/-
C05  Moment statistics equal their textbook definitions for every sample.
-/
import RsLemmas
import Gen.Moments
import Contracts.C04
set_option linter.all false
open Classical Gen
namespace C05

/-! ### textbook definitions (indexed sums, not folds) -/
noncomputable def avg (y : List ℝ) : ℝ := (∑ i : Fin y.length, y[i]) / y.length
noncomputable def var (y : List ℝ) : ℝ := (∑ i : Fin y.length, (y[i] - avg y) ^ 2) / y.length
/-- lag-`k` autocorrelation: sum over all pairs `(t, t+k)` inside the sample -/
noncomputable def acor (y : List ℝ) (k : ℕ) : ℝ :=
  ((∑ t ∈ Finset.range (y.length - k), (y[t]! - avg y) * (y[t + k]! - avg y)) / y.length) / var y
/-- mean of the squared successive differences -/
noncomputable def msd (y : List ℝ) : ℝ :=
  (∑ t ∈ Finset.range (y.length - 1), (y[t + 1]! - y[t]!) ^ 2) / ((y.length - 1 : ℕ) : ℝ)

/-- sums whose terms agree -/
theorem sum_congr {α : Type} (l : List α) (f g : α → ℝ) (h : ∀ x ∈ l, f x = g x) : (l.map f).sum = (l.map g).sum := by
  rw [List.map_congr_left h]
theorem sum_fin (y : List ℝ) (g : ℝ → ℝ) : (∑ i : Fin y.length, g y[i]) = (y.map g).sum := by
  rw [← Fin.sum_ofFn]
  congr 1
  apply List.ext_getElem <;> simp
theorem avg_eq (y : List ℝ) : avg y = y.sum / y.length := by
  unfold avg; rw [sum_fin y (fun x => x)]; simp
theorem var_eq (y : List ℝ) : var y = (y.map (fun x => (x - avg y) ^ 2)).sum / y.length := by
  unfold var; rw [sum_fin y (fun x => (x - avg y) ^ 2)]
theorem sum_zip_drop (y : List ℝ) (k : ℕ) (g : ℝ → ℝ → ℝ) :
    ((List.zip y (y.drop k)).map (fun p => g p.1 p.2)).sum = ∑ t ∈ Finset.range (y.length - k), g y[t]! y[t + k]! := by
  rw [Finset.sum_range, ← Fin.sum_ofFn]
  congr 1
  apply List.ext_getElem
  · simp
  · intro i h1 h2
    simp only [List.length_map, List.length_zip, List.length_drop] at h1
    simp only [List.getElem_map, List.getElem_zip, List.getElem_drop, List.getElem_ofFn]
    rw [getElem!_pos y i (by omega), getElem!_pos y (i+k) (by omega)]
    simp [Nat.add_comm]

@[rs_spec] theorem mean_contract (y : List ℝ) : mean y = some (avg y, y.length) := by
  rw [← wp_eq]
  unfold mean
  rs_inl!
  vcg
  rs_done [avg_eq]

@[rs_spec] theorem variance_contract (y : List ℝ) : variance y = some (var y, y.length) := by
  rw [← wp_eq]
  unfold variance
  rs_inl!
  vcg
  rs_done [var_eq]

@[rs_spec] theorem stdev_contract (y : List ℝ) : stdev y = some (Real.sqrt (var y), y.length) := by
  rw [← wp_eq]
  unfold stdev
  rs_inl!
  vcg
  rs_done [var_eq]

theorem acor_eq (y : List ℝ) (k : ℕ) :
    acor y k = ((List.zip y (y.drop k)).map (fun p => (p.1 - avg y) * (p.2 - avg y))).sum / y.length / var y := by
  unfold acor
  rw [← sum_zip_drop y k (fun a b => (a - avg y) * (b - avg y))]
theorem msd_eq (y : List ℝ) : msd y = ((List.zip y (y.drop 1)).map (fun p => (p.2 - p.1) ^ 2)).sum / ((y.length - 1 : ℕ) : ℝ) := by
  unfold msd
  rw [← sum_zip_drop y 1 (fun a b => (b - a) ^ 2)]

theorem autocorr_contract (y : List ℝ) (k : ℕ) : autocorr y k = some (acor y k) := by
  rw [← wp_eq]
  unfold autocorr
  rs_inl!
  vcg
  rs_done [acor_eq]

/-- one output per neighbouring pair, in order -/
theorem lag_diff_contract (y : List ℝ) :
    wp (lag_diff y) (fun r => r.length = y.length - 1 ∧ ∀ i, i + 1 < y.length → r[i]? = some (y[i + 1]! - y[i]!)) := by
  unfold lag_diff
  rs_inl!
  vcg
  refine ⟨by simp, fun i hi => ?_⟩
  rw [List.getElem?_eq_getElem (by simp; omega)]
  simp only [List.getElem_map, List.getElem_zip, List.getElem_drop]
  rw [getElem!_pos y i (by omega), getElem!_pos y (i+1) (by omega)]
  simp [Nat.add_comm]

theorem rmssd_contract (y : List ℝ) : rmssd y = some (Real.sqrt (msd y)) := by
  rw [← wp_eq]
  unfold rmssd
  rs_inl!
  vcg
  rs_done [msd_eq, avg_eq, ← List.drop_one]

/-- one output per input, in order -/
theorem zscore_contract (y : List ℝ) : zscore y = some (y.map (fun x => (x - avg y) / Real.sqrt (var y))) := by
  rw [← wp_eq]
  unfold zscore
  rs_inl!
  vcg
  rs_done []

theorem mod_zscore_contract (y : List ℝ) :
    mod_zscore y = some (y.map (fun x => 0.6745 * (x - C04.med y) / C04.med (y.map (fun x => |x - C04.med y|)))) := by
  rw [← wp_eq]
  unfold mod_zscore
  rs_inl!
  vcg
  rs_done []
end C05

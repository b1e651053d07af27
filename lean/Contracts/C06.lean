/-
C06  Tiled fast statistics use every sample at every array length.
-/
import RsLemmas
import Gen.Fast
import Contracts.C05
set_option linter.all false
open Classical Gen
namespace C06

theorem chunks_flatten {α : Type} (n : ℕ) (l : List α) : (rsChunks n l).flatten = l.take (l.length / n * n) := by
  unfold rsChunks
  have h : ∀ m, m * n ≤ l.length → ((List.range m).map (fun i => (l.drop (i * n)).take n)).flatten = l.take (m * n) := by
    intro m hm
    induction m with
    | zero => simp
    | succ m ih =>
      rw [List.range_succ, List.map_append, List.flatten_append, ih (by nlinarith)]
      simp only [List.map_cons, List.map_nil, List.flatten_cons, List.flatten_nil, List.append_nil]
      rw [Nat.succ_mul, ← List.take_append_drop (m * n) (l.take (m * n + n)), List.take_take, List.drop_take]
      congr 2
      · omega
      · omega
  exact h _ (Nat.div_mul_le_self _ _)
/-- tiles plus remainder are the whole sequence -/
theorem tiles_sum {α : Type} (n : ℕ) (l : List α) (f : α → ℝ) :
    ((rsChunks n l).map (fun c => (c.map f).sum)).sum + ((rsRemainder n l).map f).sum = (l.map f).sum := by
  have h : ((rsChunks n l).map (fun c => (c.map f).sum)).sum = ((rsChunks n l).flatten.map f).sum := by
    generalize rsChunks n l = c
    induction c with
    | nil => rfl
    | cons a t ih => simp [ih]
  rw [h, chunks_flatten, rsRemainder, ← List.sum_append, ← List.map_append, List.take_append_drop]
/-- ragged tiles are the whole sequence -/
theorem tiles_sum' {α : Type} (n : ℕ) (l : List α) (f : α → ℝ) (hn : 0 < n) :
    ((rsChunksAll n l).map (fun c => (c.map f).sum)).sum = (l.map f).sum := by
  have h : ∀ c : List (List α), (c.map (fun c => (c.map f).sum)).sum = (c.flatten.map f).sum := by
    intro c
    induction c with
    | nil => rfl
    | cons a t ih => simp [ih]
  have hf : ∀ m, ((List.range m).map (fun i => (l.drop (i * n)).take n)).flatten = l.take (m * n) := by
    intro m
    induction m with
    | zero => simp
    | succ m ih =>
      rw [List.range_succ, List.map_append, List.flatten_append, ih, Nat.succ_mul, List.take_add]
      simp
  rw [h, rsChunksAll, hf, List.take_of_length_le]
  have := Nat.div_add_mod (l.length + n - 1) n
  have := Nat.mod_lt (l.length + n - 1) hn
  rw [Nat.mul_comm]
  omega
theorem chunks_zip {α β γ : Type} (n : ℕ) (l : List α) (r : List β) (h : l.length = r.length) (g : List (α × β) → γ) :
    (List.zip (rsChunks n l) (rsChunks n r)).map (fun p => g (List.zip p.1 p.2)) = (rsChunks n (List.zip l r)).map g := by
  unfold rsChunks
  apply List.ext_getElem
  · simp [h]
  · intro i h1 h2
    simp [List.zip_eq_zipWith, List.drop_zipWith, List.take_zipWith]
theorem rem_zip {α β : Type} (n : ℕ) (l : List α) (r : List β) (h : l.length = r.length) :
    List.zip (rsRemainder n l) (rsRemainder n r) = rsRemainder n (List.zip l r) := by
  unfold rsRemainder
  simp [List.zip_eq_zipWith, List.drop_zipWith, h]
/-- tiled product sum of two equally long sequences -/
theorem tiles_zip (n : ℕ) (l r : List ℝ) (h : l.length = r.length) :
    ((List.zip (rsRemainder n l) (rsRemainder n r)).map (fun p => p.1 * p.2)).sum +
     ((List.zip (rsChunks n l) (rsChunks n r)).map (fun p => ((List.zip p.1 p.2).map (fun q => q.1 * q.2)).sum)).sum
      = ((List.zip l r).map (fun p => p.1 * p.2)).sum := by
  rw [rem_zip n l r h, chunks_zip n l r h (fun c => (c.map (fun q => q.1 * q.2)).sum), add_comm, tiles_sum]
theorem zip_take_drop (w : List ℝ) (k : ℕ) : List.zip (w.take (w.length - k)) (w.drop k) = List.zip w (w.drop k) := by
  apply List.ext_getElem
  · simp
  · intro i h1 h2; simp

theorem rms_fast32_contract (N : ℕ) (y : List ℝ) (hN : y.length = N) :
    rms_fast32 N y = some (Real.sqrt ((∑ i : Fin y.length, y[i] ^ 2) / N)) := by
  rw [← wp_eq]
  subst hN
  unfold rms_fast32
  rs_inl!
  vcg
  all_goals try (exfalso; omega)
  have ht := tiles_sum 4 y (fun x => x * x)
  have hc := tiles_sum' 4 y (fun x => x * x) (by decide)
  rw [C05.sum_fin y (fun x => x ^ 2)]
  all_goals
    rs_reduce
    simp only [sq, rs_norm, nfPair] at *
    first
    | (congr 2 <;> linarith)
    | (congr 1 <;> linarith)

/-- the mean-removed product sum at lag `k` -/
noncomputable def lagsum (y : List ℝ) (k : ℕ) : ℝ :=
  ∑ t ∈ Finset.range (y.length - k), (y[t]! - C05.avg y) * (y[t + k]! - C05.avg y)
theorem lagsum_eq (y : List ℝ) (k : ℕ) (w : List ℝ) (hw : w = y.map (fun x => x - C05.avg y)) :
    ((List.zip w (w.drop k)).map (fun p => p.1 * p.2)).sum = lagsum y k := by
  subst hw
  unfold lagsum
  rw [← C05.sum_zip_drop y k (fun a b => (a - C05.avg y) * (b - C05.avg y))]
  congr 1
  apply List.ext_getElem
  · simp
  · intro i h1 h2; simp

/-- output `i` holds the full product sum at lag `SKIP + i`, `y` is centred in place and the variance returned -/
theorem autocorr_fast32_contract (N M SKIP : ℕ) (y x : List ℝ) (hN : y.length = N) (hM : x.length = M) (h : M + SKIP ≤ N) :
    autocorr_fast32 N M SKIP y x =
      some (C05.var y, y.map (fun v => v - C05.avg y), (List.range M).map (fun i => lagsum y (SKIP + i))) := by
  subst hN hM
  rw [← wp_eq]
  unfold autocorr_fast32
  rs_inl!
  vcg
  all_goals try (exfalso; omega)
  all_goals try (rs_reduce; simp only [List.length_map]; omega)
  rs_reduce
  simp only [← C05.avg_eq]
  generalize hw : y.map (fun v => v - C05.avg y) = w
  have hl : w.length = y.length := by rw [← hw]; simp
  refine wp_mapM (fun p => (p.1, lagsum y p.1)) ?_ ?_
  · rintro ⟨k, xv⟩ hk
    have hk' : k ∈ rsRange SKIP w.length := (List.of_mem_zip hk).1
    rw [mem_rsRange] at hk'
    vcg
    all_goals try (rs_reduce; omega)
    all_goals try (exfalso; revert ‹¬ _›; decide)
    rs_reduce
    simp only [List.drop_zero, List.take_length]
    have h1 := tiles_zip 4 (w.take (w.length - k)) (w.drop k) (by simp)
    have h2 := lagsum_eq y k w hw.symm
    rw [zip_take_drop] at h1
    have h3 := zip_take_drop w k
    refine Prod.ext rfl ?_
    rs_reduce
    simp only [rs_norm, nfPair, h3, mul_comm] at h1 h2 ⊢
    linarith
  · rs_reduce
    vcg
    refine Prod.ext ?_ (Prod.ext rfl ?_)
    · rw [C05.var_eq, ← hw]
      simp [sq, Function.comp_def]
    · rs_reduce
      unfold rsOverwrite
      simp only [List.map_map, List.length_map, List.length_zip, rsRange_length]
      rw [List.drop_eq_nil_of_le (by omega), List.append_nil]
      apply List.ext_getElem
      · simp; omega
      · intro i h1 h2
        simp [rsRange_getElem]
/-- too many lags for the array are rejected -/
theorem autocorr_fast32_rejects (N M SKIP : ℕ) (y x : List ℝ) (h : ¬ M + SKIP ≤ N) : autocorr_fast32 N M SKIP y x = none := by
  unfold autocorr_fast32
  rw [if_neg h]
end C06

import RsFourier
import Gen.Resample
/-! Contracts of Fourier resampling. -/
set_option maxRecDepth 4000
set_option linter.unusedTactic false
set_option linter.unusedSimpArgs false
open Gen Fourier Finset
namespace C21

/-- spectrum of the input -/
noncomputable def X (x : List ℝ) (k : ℕ) : ℂ := F x.length (fun j => ((x.getD j 0 : ℝ) : ℂ)) k
/-- the spectrum of length `n`: the lowest bins of both sides, zero elsewhere -/
noncomputable def Y (x : List ℝ) (n k : ℕ) : ℂ :=
  if k < min x.length n / 2 then X x k else if n - min x.length n / 2 ≤ k ∧ k < n then X x (x.length - (n - k)) else 0
/-- its inverse transform, scaled by the input length -/
noncomputable def spec (x : List ℝ) (n : ℕ) : List ℝ := (List.range n).map (fun i => (G n (Y x n) i).re / x.length)

theorem fftProcess_eq (n : ℕ) (d : Bool) (l : List ℂ) (h : l.length = n) : rsFftProcess n d l = some (rsDft n d l) := if_pos h

/-! The spectrum may be filled by copies or by loops: `Inv T n W s` says that every entry of `s` is zero or the
target `T`, and the target wherever `W` says it was written. -/
section
variable (T : ℕ → ℂ) (n : ℕ)
def Inv (W : ℕ → Prop) (s : List ℂ) : Prop := s.length = n ∧ ∀ k < n, (s.getD k 0 = T k ∨ s.getD k 0 = 0) ∧ (W k → s.getD k 0 = T k)
def Step (V : ℕ → Prop) (s s' : List ℂ) : Prop := s'.length = n ∧ ∀ k < n, (s'.getD k 0 = s.getD k 0 ∨ s'.getD k 0 = T k) ∧ (V k → s'.getD k 0 = T k)
variable {T n}
theorem inv_zero : Inv T n (fun _ => False) (List.replicate n 0) := by
  refine ⟨by simp, fun k hk => ⟨Or.inr ?_, fun h => h.elim⟩⟩
  rw [List.getD_eq_getElem _ _ (by simpa using hk), List.getElem_replicate]
theorem inv_step {W V : ℕ → Prop} {s s' : List ℂ} (h : Inv T n W s) (h' : Step T n V s s') : Inv T n (fun k => W k ∨ V k) s' := by
  refine ⟨h'.1, fun k hk => ?_⟩
  obtain ⟨a, b⟩ := h.2 k hk
  obtain ⟨c, d⟩ := h'.2 k hk
  refine ⟨?_, ?_⟩
  · rcases c with c | c
    · rw [c]; exact a
    · exact Or.inl c
  · rintro (w | w)
    · rcases c with c | c
      · rw [c]; exact b w
      · exact c
    · exact d w
theorem step_set {s : List ℂ} (hs : s.length = n) {i : ℕ} {v : ℂ} (h : v = T i) : Step T n (fun k => k = i) s (s.set i v) := by
  refine ⟨by simpa using hs, fun k hk => ?_⟩
  rw [List.getD_eq_getElem _ _ (by simpa [hs] using hk), List.getD_eq_getElem _ _ (by simpa [hs] using hk), List.getElem_set]
  split
  · rename_i h1; subst h1; exact ⟨Or.inr h, fun _ => h⟩
  · rename_i h1; exact ⟨Or.inl rfl, fun h2 => absurd h2.symm h1⟩
theorem step_trans {V1 V2 V : ℕ → Prop} {s s1 s2 : List ℂ} (h1 : Step T n V1 s s1) (h2 : Step T n V2 s1 s2) (h : ∀ k, V k → V1 k ∨ V2 k) : Step T n V s s2 := by
  refine ⟨h2.1, fun k hk => ?_⟩
  obtain ⟨a, b⟩ := h1.2 k hk
  obtain ⟨c, d⟩ := h2.2 k hk
  refine ⟨?_, fun hv => ?_⟩
  · rcases c with c | c
    · rw [c]; exact a
    · exact Or.inr c
  · rcases h k hv with w | w
    · rcases c with c | c
      · rw [c]; exact b w
      · exact c
    · exact d w
theorem wp_slice_inv {W : ℕ → Prop} {s src : List ℂ} {a b : ℕ} {Q : List ℂ → Prop} (hs : Inv T n W s) (hab : a ≤ b ∧ b ≤ n) (hl : src.length = b - a)
    (hv : ∀ j < b - a, src.getD j 0 = T (a + j)) (hq : ∀ s', Inv T n (fun k => W k ∨ (a ≤ k ∧ k < b)) s' → Q s') : wp (rsSliceSet s a b src) Q := by
  have h0 := hs.1
  refine ⟨_, by simp [rsSliceSet, h0, hab.1, hab.2]; rfl, hq _ (inv_step hs ?_)⟩
  refine ⟨by simp; omega, fun k hk => ?_⟩
  try rw [List.append_assoc]
  by_cases c1 : k < a
  · have : (s.take a ++ (src ++ s.drop b)).getD k 0 = s.getD k 0 := by
      rw [List.getD_eq_getElem?_getD, List.getElem?_append_left (by simp; omega), List.getElem?_take, if_pos c1, List.getD_eq_getElem?_getD]
    rw [this]
    exact ⟨Or.inl rfl, fun h => by omega⟩
  · have e1 : (s.take a ++ (src ++ s.drop b)).getD k 0 = (src ++ s.drop b).getD (k - a) 0 := by
      rw [List.getD_eq_getElem?_getD, List.getElem?_append_right (by simp; omega), List.getD_eq_getElem?_getD]
      simp only [List.length_take]
      rw [Nat.min_eq_left (by omega)]
    rw [e1]
    by_cases c2 : k < b
    · have e2 : (src ++ s.drop b).getD (k - a) 0 = T k := by
        rw [List.getD_eq_getElem?_getD, List.getElem?_append_left (by omega), ← List.getD_eq_getElem?_getD, hv _ (by omega)]
        congr 1; omega
      rw [e2]
      exact ⟨Or.inr rfl, fun _ => rfl⟩
    · have e2 : (src ++ s.drop b).getD (k - a) 0 = s.getD k 0 := by
        rw [List.getD_eq_getElem?_getD, List.getElem?_append_right (by omega), List.getElem?_drop, List.getD_eq_getElem?_getD]
        congr 2; omega
      rw [e2]
      exact ⟨Or.inl rfl, fun h => by omega⟩
theorem wp_loop_inv {α : Type} {W : ℕ → Prop} (U : ℕ → Prop) (V : α → ℕ → Prop) {s : List ℂ} {l : List α} {f : List ℂ → α → Option (List ℂ)} {Q : List ℂ → Prop}
    (hs : Inv T n W s) (hU : ∀ k, U k → ∃ x ∈ l, V x k) (hf : ∀ x ∈ l, ∀ s, s.length = n → wp (f s x) (Step T n (V x) s))
    (hq : ∀ s', Inv T n (fun k => W k ∨ U k) s' → Q s') : wp (List.foldlM f s l) Q := by
  have key : ∀ (l : List α) (W : ℕ → Prop) (s : List ℂ), Inv T n W s → (∀ x ∈ l, ∀ s, s.length = n → wp (f s x) (Step T n (V x) s)) →
      wp (List.foldlM f s l) (fun s' => Inv T n (fun k => W k ∨ ∃ x ∈ l, V x k) s') := by
    intro l
    induction l with
    | nil =>
      intro W s h _
      refine ⟨s, rfl, ?_⟩
      simpa using h
    | cons x xs ih =>
      intro W s h hf
      rw [List.foldlM_cons]
      refine wp_bind ?_
      obtain ⟨s1, e1, h1⟩ := hf x (by simp) s h.1
      refine ⟨s1, e1, ?_⟩
      obtain ⟨s2, e2, h2⟩ := ih _ s1 (inv_step h h1) (fun y hy => hf y (by simp [hy]))
      refine ⟨s2, e2, h2.1, fun k hk => ⟨(h2.2 k hk).1, fun hw => (h2.2 k hk).2 ?_⟩⟩
      rcases hw with hw | ⟨y, hy, hw⟩
      · exact Or.inl (Or.inl hw)
      · rcases List.mem_cons.1 hy with rfl | hy
        · exact Or.inl (Or.inr hw)
        · exact Or.inr ⟨y, hy, hw⟩
  obtain ⟨s', e, h⟩ := key l W s hs hf
  refine ⟨s', e, hq _ ⟨h.1, fun k hk => ⟨(h.2 k hk).1, fun hw => (h.2 k hk).2 ?_⟩⟩⟩
  exact hw.imp id (hU k)
end

/-- a value of the target spectrum: the bin it is copied from -/
theorem Y_low (x : List ℝ) (n k j : ℕ) (h : k < min x.length n / 2) (e : j = k) : X x j = Y x n k := by unfold Y; rw [if_pos h, e]
theorem Y_high (x : List ℝ) (n k j : ℕ) (h : n - min x.length n / 2 ≤ k) (hk : k < n) (e : j = x.length - (n - k)) : X x j = Y x n k := by
  unfold Y; rw [if_neg (by omega), if_pos ⟨h, hk⟩, e]
theorem getD_X (x : List ℝ) (m k : ℕ) (h : k < m) : ((List.range m).map (X x)).getD k 0 = X x k := by
  rw [List.getD_eq_getElem _ _ (by simpa using h), List.getElem_map, List.getElem_range]
set_option hygiene false in
macro "c21_val" : tactic => `(tactic| (
  try simp only [List.getElem_map, List.getElem_range, List.getD_eq_getElem?_getD, List.getElem?_take, List.getElem?_drop, List.getElem?_map]
  try (rw [if_pos (by omega)])
  try (rw [List.getElem?_range (by omega)]; simp only [Option.map_some, Option.getD_some])
  first
  | exact Y_low _ _ _ _ (by omega) (by omega)
  | exact Y_high _ _ _ _ (by omega) (by omega) (by omega)))
/-- a loop whose body writes one or two entries of the target -/
syntax "c21_loop" term:max term:max : tactic
set_option hygiene false in
macro_rules
  | `(tactic| c21_loop $U $V) => `(tactic| (
    refine wp_loop_inv (T := Y x n) (n := n) $U $V (by assumption) ?_ ?_ ?_
    · intro k hk
      first
      | exact ⟨k, by simp only [List.mem_reverse, List.mem_range, List.mem_range'_1, mem_rsRange] at *; omega, by omega⟩
      | exact ⟨k - (n - min x.length n / 2), by simp only [List.mem_reverse, List.mem_range, List.mem_range'_1, mem_rsRange] at *; omega, by omega⟩
      | exact ⟨n - 1 - k, by simp only [List.mem_reverse, List.mem_range, List.mem_range'_1, mem_rsRange] at *; omega, by omega⟩
      | exact ⟨n - k, by simp only [List.mem_reverse, List.mem_range, List.mem_range'_1, mem_rsRange] at *; omega, by omega⟩
      | (rcases hk with hk | hk
         · exact ⟨k, by simp only [List.mem_reverse, List.mem_range, List.mem_range'_1, mem_rsRange] at *; omega, by omega⟩
         · first
           | exact ⟨k - (n - min x.length n / 2), by simp only [List.mem_reverse, List.mem_range, List.mem_range'_1, mem_rsRange] at *; omega, by omega⟩
           | exact ⟨n - 1 - k, by simp only [List.mem_reverse, List.mem_range, List.mem_range'_1, mem_rsRange] at *; omega, by omega⟩)
    · intro i hi s hs
      simp only [List.mem_reverse, List.mem_range, List.mem_range'_1, mem_rsRange] at hi
      vcg
      all_goals try simp only [List.length_map, List.length_range, List.length_set] at *
      all_goals try omega
      first
      | (refine step_trans (step_set hs ?_) (step_set (by simpa using hs) ?_) (fun k hk => by omega) <;> c21_val)
      | (refine step_trans (step_set hs ?_) ⟨by simpa using hs, fun k _ => ⟨Or.inl rfl, fun h => h.elim⟩⟩ (V2 := fun _ => False) (fun k hk => Or.inl (by omega)); c21_val)
    intro s' hs'; have hl' := hs'.1))
set_option hygiene false in
macro "c21_write" : tactic => `(tactic| first
  | (refine wp_slice_inv (T := Y x n) (n := n) (by assumption) ?_ ?_ ?_ ?_
     · (try simp only [List.length_map, List.length_range, List.length_replicate] at *); (try constructor) <;> omega
     · (try simp only [List.length_map, List.length_range, List.length_replicate, List.length_take, List.length_drop] at *); omega
     · intro j hj; (try simp only [List.length_map, List.length_range, List.length_replicate] at *); c21_val
     intro s' hs'; have hl' := hs'.1)
  | c21_loop (fun k => k < min x.length n / 2 ∨ (n - min x.length n / 2 ≤ k ∧ k < n)) (fun i k => k = i ∨ k = n - min x.length n / 2 + i)
  | c21_loop (fun k => k < min x.length n / 2 ∨ (n - min x.length n / 2 ≤ k ∧ k < n)) (fun i k => k = i ∨ k = n - 1 - i)
  | c21_loop (fun k => k < min x.length n / 2) (fun i k => k = i)
  | c21_loop (fun k => n - min x.length n / 2 ≤ k ∧ k < n) (fun i k => k = i)
  | c21_loop (fun k => n - min x.length n / 2 ≤ k ∧ k < n) (fun i k => k = n - min x.length n / 2 + i)
  | c21_loop (fun k => n - min x.length n / 2 ≤ k ∧ k < n) (fun i k => k = n - 1 - i)
  | c21_loop (fun k => n - min x.length n / 2 ≤ k ∧ k < n) (fun i k => k = n - i))

theorem resample_contract (x : List ℝ) (n : ℕ) (hx : x ≠ []) (hn : 1 ≤ n) : resample x n = some (spec x n) := by
  have hx := List.length_pos_iff.2 hx
  rw [← wp_eq]
  unfold resample
  rs_inl
  vcg
  refine wp_of_eq (fftProcess_eq _ _ _ (by simp)) ?_
  rw [dft_fwd]
  have hX : List.map (F x.length (fun j => (List.map (fun x_7 : ℝ => Complex.mk x_7 0) x).getD j 0)) (List.range x.length) = (List.range x.length).map (X x) := by
    refine List.map_congr_left (fun k _ => F_congr _ _ _ (fun j hj => ?_) k)
    rw [List.getD_eq_getElem _ _ (by simpa using hj), List.getD_eq_getElem _ _ hj, List.getElem_map]
    rfl
  rw [hX]
  have hh : min x.length n / 2 + min x.length n / 2 ≤ min x.length n := by omega
  have hi0 : Inv (Y x n) n (fun _ => False) (List.replicate n 0) := inv_zero
  rs_reduce
  try simp only [List.length_map, List.length_range]
  repeat' (first | c21_write | (is_wp; rs_reduce; vc1))
  all_goals try simp only [List.length_map, List.length_range, List.length_replicate, List.length_append, List.length_take, List.length_drop] at *
  all_goals try omega
  have hw := hs'
  refine wp_of_eq (fftProcess_eq _ _ _ hw.1) ?_
  vcg
  rw [dft_inv]
  unfold spec
  rw [List.map_map]
  refine List.map_congr_left (fun i hi => ?_)
  simp only [Function.comp]
  rw [G_congr n _ (Y x n)]
  · rw [one_div, div_eq_mul_inv]
  intro k hk
  obtain ⟨c1, c2⟩ := hw.2 k hk
  by_cases d1 : k < min x.length n / 2 ∨ (n - min x.length n / 2 ≤ k ∧ k < n)
  · exact c2 (by simp only [List.length_map, List.length_range, List.length_replicate] at *; omega)
  · rcases c1 with c1 | c1
    · exact c1
    · rw [c1]; unfold Y; rw [if_neg (by omega), if_neg (by omega)]

/-- exactly `n` samples -/
theorem resample_length (x : List ℝ) (n : ℕ) (hx : x ≠ []) (hn : 1 ≤ n) : wp (resample x n) (fun r => r.length = n) :=
  wp_of_eq (resample_contract x n hx hn) (by simp [spec])

theorem X_const (m : ℕ) (c : ℝ) (k : ℕ) (hk : k < m) : X (List.replicate m c) k = if k = 0 then (m : ℂ) * c else 0 := by
  unfold X F
  rw [List.length_replicate]
  have : ∀ j ∈ range m, (((List.replicate m c).getD j 0 : ℝ) : ℂ) * w m (-((j : ℤ) * k)) = (c : ℂ) * w m ((-(k : ℤ)) * j) := by
    intro j hj
    rw [List.getD_eq_getElem _ _ (by simpa using mem_range.1 hj), List.getElem_replicate]
    congr 2
    ring
  rw [sum_congr rfl this, ← mul_sum, w_sum m (by omega)]
  have : (m : ℤ) ∣ -(k : ℤ) ↔ k = 0 := by
    rw [dvd_neg]
    constructor
    · intro h
      have := Nat.eq_zero_of_dvd_of_lt (Int.natCast_dvd_natCast.1 h) hk
      exact this
    · rintro rfl; simp
  simp only [this]
  split
  · ring
  · ring
/-- a constant stays constant -/
theorem resample_constant (m n : ℕ) (c : ℝ) (hm : 2 ≤ m) (hn : 2 ≤ n) : resample (List.replicate m c) n = some (List.replicate n c) := by
  rw [resample_contract _ _ (by simp; omega) (by omega)]
  congr 1
  have hY : ∀ k < n, Y (List.replicate m c) n k = if k = 0 then (m : ℂ) * c else 0 := by
    intro k hk
    unfold Y
    rw [List.length_replicate]
    by_cases h0 : k < min m n / 2
    · rw [if_pos h0, X_const m c k (by omega)]
    · rw [if_neg h0, if_neg (show ¬ k = 0 by omega)]
      split
      · rw [X_const m c _ (by omega), if_neg (by omega)]
      · rfl
  unfold spec
  apply List.ext_getElem
  · simp
  · intro i h1 h2
    simp only [List.getElem_map, List.getElem_range, List.getElem_replicate, List.length_replicate]
    rw [G_congr n _ _ hY]
    unfold G
    simp only [ite_mul, zero_mul]
    rw [sum_ite_eq' (range n) 0, if_pos (mem_range.2 (by omega))]
    rw [show ((0 : ℕ) : ℤ) * (i : ℤ) = 0 by simp, w_zero, mul_one]
    have : (m : ℝ) ≠ 0 := by exact_mod_cast (by omega : m ≠ 0)
    rw [← Complex.ofReal_natCast, ← Complex.ofReal_mul, Complex.ofReal_re]
    field_simp
end C21

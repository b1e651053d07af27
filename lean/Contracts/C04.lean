/-
C04  The median is the true middle order statistic of the sample.
-/
import RsLemmas
import Gen.Median
set_option linter.all false
open Classical Gen
namespace C04

/-- the sample in ascending order (Mathlib/core merge sort: the specification, not the code's selection) -/
noncomputable def sorted (y : List ℝ) : List ℝ := y.mergeSort (fun a b => decide (a ≤ b))
theorem sorted_perm (y : List ℝ) : (sorted y).Perm y := List.mergeSort_perm _ _
theorem sorted_length (y : List ℝ) : (sorted y).length = y.length := (sorted_perm y).length_eq
theorem sorted_sorted (y : List ℝ) : (sorted y).Pairwise (· ≤ ·) := by
  have := List.pairwise_mergeSort (le := fun a b : ℝ => decide (a ≤ b))
    (fun a b c h1 h2 => by simp only [decide_eq_true_eq] at *; linarith)
    (fun a b => by simpa using le_total a b) y
  exact this.imp (fun h => by simpa using h)

/-- `r` is an element of rank `k` (counted from zero) -/
def IsKth (y : List ℝ) (k : ℕ) (r : ℝ) : Prop :=
  r ∈ y ∧ y.countP (fun x => decide (x < r)) ≤ k ∧ k < y.countP (fun x => decide (x ≤ r))

theorem kth_sorted {y : List ℝ} {k : ℕ} {r : ℝ} (h : IsKth y k r) : (sorted y)[k]? = some r := by
  obtain ⟨hm, h1, h2⟩ := h
  rw [← (sorted_perm y).countP_eq] at h1 h2
  have hs := sorted_sorted y
  have hk : k < (sorted y).length := lt_of_lt_of_le h2 List.countP_le_length
  generalize sorted y = s at *
  rw [List.getElem?_eq_getElem hk]
  congr 1
  have mono : ∀ i j (hi : i < s.length) (hj : j < s.length), i ≤ j → s[i] ≤ s[j] := by
    intro i j hi hj hij
    rcases Nat.lt_or_eq_of_le hij with h | h
    · exact (List.pairwise_iff_getElem.1 hs) i j hi hj h
    · subst h; exact le_refl _
  apply le_antisymm
  · by_contra hlt
    push Not at hlt
    have : s.countP (fun x => decide (x ≤ r)) ≤ k := by
      rw [← List.take_append_drop k s, List.countP_append]
      have h0 : (s.drop k).countP (fun x => decide (x ≤ r)) = 0 := by
        rw [List.countP_eq_zero]
        intro a ha
        obtain ⟨i, hi, rfl⟩ := List.mem_iff_getElem.1 ha
        rw [List.getElem_drop]
        have := mono k (k+i) hk (by simp at hi; omega) (by omega)
        simp only [decide_eq_true_eq]; linarith
      rw [h0]
      refine le_trans (Nat.add_le_add_right List.countP_le_length _) ?_
      simp
    omega
  · by_contra hlt
    push Not at hlt
    have : k + 1 ≤ s.countP (fun x => decide (x < r)) := by
      rw [← List.take_append_drop (k+1) s, List.countP_append]
      have h0 : (s.take (k+1)).countP (fun x => decide (x < r)) = (s.take (k+1)).length := by
        rw [List.countP_eq_length]
        intro a ha
        obtain ⟨i, hi, rfl⟩ := List.mem_iff_getElem.1 ha
        rw [List.getElem_take]
        have := mono i k (by simp at hi; omega) hk (by simp at hi; omega)
        simp only [decide_eq_true_eq]; linarith
      rw [h0, List.length_take]
      omega
    omega

/-- every element is below, at or above the pivot -/
theorem split3 (y : List ℝ) (p : ℝ) :
    y.countP (fun x => decide (x < p)) + y.countP (fun x => decide (x = p)) + y.countP (fun x => decide (p < x)) = y.length := by
  induction y with
  | nil => rfl
  | cons a t ih =>
    simp only [List.countP_cons, List.length_cons, decide_eq_true_eq]
    rcases lt_trichotomy a p with h | h | h
    · rw [if_pos h, if_neg h.ne, if_neg h.asymm]; omega
    · rw [if_neg h.not_lt, if_pos h, if_neg (by rw [h]; exact lt_irrefl _)]; omega
    · rw [if_neg h.asymm, if_neg h.ne', if_pos h]; omega
theorem count_le (y : List ℝ) (p : ℝ) :
    y.countP (fun x => decide (x ≤ p)) = y.countP (fun x => decide (x < p)) + y.countP (fun x => decide (x = p)) := by
  induction y with
  | nil => rfl
  | cons a t ih =>
    simp only [List.countP_cons, decide_eq_true_eq, ih]
    rcases lt_trichotomy a p with h | h | h
    · rw [if_pos h.le, if_pos h, if_neg h.ne]; omega
    · rw [if_pos h.le, if_neg h.not_lt, if_pos h]; omega
    · rw [if_neg (not_le.2 h), if_neg h.asymm, if_neg h.ne']; omega
/-- counting below a threshold in the part above the pivot -/
theorem count_upper (y : List ℝ) (p r : ℝ) (h : p < r) :
    y.countP (fun x => decide (x < r)) = y.countP (fun x => decide (x ≤ p)) + (y.filter (fun x => decide (p < x))).countP (fun x => decide (x < r)) := by
  induction y with
  | nil => rfl
  | cons a t ih =>
    simp only [List.countP_cons, List.filter_cons, decide_eq_true_eq, ih]
    rcases le_or_gt a p with hc | hc
    · rw [if_pos (by linarith), if_pos hc, if_neg (by linarith)]; omega
    · rw [if_neg (not_le.2 hc), if_pos hc, List.countP_cons]; simp only [decide_eq_true_eq]; omega
theorem count_upper' (y : List ℝ) (p r : ℝ) (h : p < r) :
    y.countP (fun x => decide (x ≤ r)) = y.countP (fun x => decide (x ≤ p)) + (y.filter (fun x => decide (p < x))).countP (fun x => decide (x ≤ r)) := by
  induction y with
  | nil => rfl
  | cons a t ih =>
    simp only [List.countP_cons, List.filter_cons, decide_eq_true_eq, ih]
    rcases le_or_gt a p with hc | hc
    · rw [if_pos (by linarith), if_pos hc, if_neg (by linarith)]; omega
    · rw [if_neg (not_le.2 hc), if_pos hc, List.countP_cons]; simp only [decide_eq_true_eq]; omega
theorem count_lower (y : List ℝ) (p r : ℝ) (h : r < p) :
    y.countP (fun x => decide (x < r)) = (y.filter (fun x => decide (x < p))).countP (fun x => decide (x < r)) := by
  induction y with
  | nil => rfl
  | cons a t ih =>
    simp only [List.countP_cons, List.filter_cons, decide_eq_true_eq, ih]
    rcases lt_or_ge a p with hc | hc
    · rw [if_pos hc, List.countP_cons]; simp only [decide_eq_true_eq]
    · rw [if_neg (by linarith), if_neg (by linarith)]; omega
theorem count_lower' (y : List ℝ) (p r : ℝ) (h : r < p) :
    y.countP (fun x => decide (x ≤ r)) = (y.filter (fun x => decide (x < p))).countP (fun x => decide (x ≤ r)) := by
  induction y with
  | nil => rfl
  | cons a t ih =>
    simp only [List.countP_cons, List.filter_cons, decide_eq_true_eq, ih]
    rcases lt_or_ge a p with hc | hc
    · rw [if_pos hc, List.countP_cons]; simp only [decide_eq_true_eq]
    · rw [if_neg (by linarith), if_neg (by linarith)]; omega

/-- the part strictly on one side of an element is shorter than the list -/
theorem filter_lt_length {y : List ℝ} {p : ℝ} (q : ℝ → Bool) (hp : p ∈ y) (hq : q p = false) : (y.filter q).length < y.length :=
  List.length_filter_lt_length_iff_exists.2 ⟨p, hp, by simp [hq]⟩

theorem kth_lower {y : List ℝ} {p : ℝ} {k : ℕ} {r : ℝ} (h : IsKth (y.filter (fun x => decide (x < p))) k r) : IsKth y k r := by
  obtain ⟨h0, h1, h2⟩ := h
  rw [List.mem_filter] at h0
  have hr : r < p := by simpa using h0.2
  refine ⟨h0.1, ?_, ?_⟩
  · rw [count_lower y p r hr]; exact h1
  · rw [count_lower' y p r hr]; exact h2
theorem kth_upper {y : List ℝ} {p : ℝ} {k j : ℕ} {r : ℝ} (h : IsKth (y.filter (fun x => decide (p < x))) j r)
    (hj : k = y.countP (fun x => decide (x ≤ p)) + j) : IsKth y k r := by
  obtain ⟨h0, h1, h2⟩ := h
  rw [List.mem_filter] at h0
  have hr : p < r := by simpa using h0.2
  refine ⟨h0.1, ?_, ?_⟩
  · rw [count_upper y p r hr]; omega
  · rw [count_upper' y p r hr]; omega
theorem kth_pivot {y : List ℝ} {p : ℝ} {k : ℕ} (hp : p ∈ y) (h1 : y.countP (fun x => decide (x < p)) ≤ k)
    (h2 : k < y.countP (fun x => decide (x ≤ p))) : IsKth y k p := ⟨hp, h1, h2⟩

/-- `quickselect` terminates and returns the element of rank `k` -/
theorem quickselect_contract (y : List ℝ) (k : ℕ) (hk : k < y.length) : wp (quickselect y k) (IsKth y k) := by
  generalize hn : y.length = n
  induction n using Nat.strong_induction_on generalizing y k with
  | _ n ih =>
    rw [quickselect]
    rs_inl!
    refine wp_ite ?_ ?_ <;> intro h1
    · obtain ⟨a, rfl⟩ := List.length_eq_one_iff.1 h1
      have : k = 0 := by simpa using hk
      subst this
      exact ⟨a, rfl, by simp [IsKth]⟩
    · have hlt : y.length / 2 < y.length := by omega
      rw [List.getElem?_eq_getElem hlt]
      have hp : y[y.length / 2] ∈ y := List.getElem_mem hlt
      generalize y[y.length / 2] = p at *
      have e1 := split3 y p
      have e2 := count_le y p
      have f1 : (y.filter (fun x => decide (x < p))).length = y.countP (fun x => decide (x < p)) := List.countP_eq_length_filter.symm
      have f2 : (y.filter (fun x => decide (p < x))).length = y.countP (fun x => decide (p < x)) := List.countP_eq_length_filter.symm
      have g1 := filter_lt_length (fun x => decide (x < p)) hp (by simp)
      have g2 := filter_lt_length (fun x => decide (p < x)) hp (by simp)
      rs_reduce
      simp only [List.map_id', List.map_id_fun', id, gt_iff_lt, Option.bind_eq_bind, Option.bind_some]
      vcg
      all_goals try omega
      · refine wp_conseq (ih _ (by omega) _ k (by assumption) rfl) (fun r hr => kth_lower hr)
      · exact kth_pivot hp (by omega) (by omega)
      · refine wp_conseq (ih _ (by omega) _ _ (by omega) rfl) (fun r hr => kth_upper hr (by omega))

/-- textbook median -/
noncomputable def med (y : List ℝ) : ℝ :=
  if y.length = 0 then 0
  else if y.length % 2 = 1 then (sorted y)[y.length / 2]!
  else ((sorted y)[y.length / 2 - 1]! + (sorted y)[y.length / 2]!) / 2

theorem quickselect_eq (y : List ℝ) (k : ℕ) (hk : k < y.length) : quickselect y k = some (sorted y)[k]! := by
  obtain ⟨r, h1, h2⟩ := quickselect_contract y k hk
  rw [h1, List.getElem!_eq_getElem?_getD, kth_sorted h2]; rfl

@[rs_spec] theorem median_contract (y : List ℝ) : median y = some (med y, y.length) := by
  rw [← wp_eq]
  unfold median med
  rs_inl
  vcg
  all_goals try (refine wp_of_eq (quickselect_eq y _ (by omega)) ?_)
  all_goals vcg
  all_goals try (refine wp_of_eq (quickselect_eq y _ (by omega)) ?_)
  all_goals vcg
  all_goals try omega
  all_goals (try simp_all)
  all_goals
    first
    | done
    | (obtain ⟨a, rfl⟩ := List.length_eq_one_iff.1 (by assumption); simp [sorted])
    | (rw [if_neg (by simp_all [← List.length_pos_iff]), if_neg (by omega)])

@[rs_spec] theorem median_abs_deviation_contract (y : List ℝ) :
    median_abs_deviation y = some (med (y.map (fun x => |x - med y|)), y.length) := by
  rw [← wp_eq]
  unfold median_abs_deviation
  rs_inl!
  vcg
  rs_done []
end C04

/-
C12  Companion matrices are correct and stay in bounds.

The code writes through `get_unchecked_mut`; the translation makes every write checked
(an index outside the matrix is `none`), so `= some _` below includes memory safety.
-/
import RsLemmas
import Gen.Companion
set_option linter.all false
open Classical Gen
namespace C12

/-- a sequence of writes inside the matrix -/
theorem write_all (f : RMat ℝ → (ℕ × ℕ) × ℝ → Option (RMat ℝ)) (hf : ∀ M e, f M e = rsMatSet M e.1.1 e.1.2 e.2)
    (l : List ((ℕ × ℕ) × ℝ)) (M : RMat ℝ) (hb : ∀ e ∈ l, e.1.1 < M.nrows ∧ e.1.2 < M.ncols) :
    wp (List.foldlM f M l) (fun R => R.nrows = M.nrows ∧ R.ncols = M.ncols ∧
      (∀ a b v, ((a, b), v) ∈ l → (∀ v', ((a, b), v') ∈ l → v' = v) → R.get a b = v) ∧
      (∀ a b, (∀ v, ((a, b), v) ∉ l) → R.get a b = M.get a b)) := by
  induction l generalizing M with
  | nil => exact ⟨M, rfl, rfl, rfl, by simp, by simp⟩
  | cons e t ih =>
    obtain ⟨⟨i, j⟩, x⟩ := e
    rw [List.foldlM_cons, hf]
    have h0 := hb ((i, j), x) (by simp)
    refine wp_bind ?_
    refine wp_rsMatSet h0 ?_
    refine wp_conseq (ih _ (fun e he => hb e (by simp [he]))) ?_
    rintro R ⟨h1, h2, h3, h4⟩
    refine ⟨h1, h2, ?_, ?_⟩
    · intro a b v hv hu
      by_cases hm : ∃ v', ((a, b), v') ∈ t
      · obtain ⟨v', hv'⟩ := hm
        have e1 := hu v' (by simp [hv'])
        subst e1
        exact h3 a b v' hv' (fun w hw => hu w (by simp [hw]))
      · push Not at hm
        rw [h4 a b hm]
        have : ((a, b), v) = ((i, j), x) := by
          rcases List.mem_cons.1 hv with h | h
          · exact h
          · exact absurd h (hm v)
        simp only [Prod.mk.injEq] at this
        simp [this]
    · intro a b hn
      rw [h4 a b (fun v hv => hn v (by simp [hv]))]
      have : ¬ (a = i ∧ b = j) := by
        rintro ⟨rfl, rfl⟩
        exact hn x (by simp)
      simp [this]

/-- the entry the documentation prescribes -/
noncomputable def entry (c : List ℝ) (i j : ℕ) : ℝ :=
  if i = 0 then (if j + 1 < c.length then - c.getD (j + 1) 0 / c.getD 0 0 else 0)
  else if i = j + 1 then 1 else 0

/-- any sequence with a first element, any `m ≥ 2` (whether or not the lengths agree): the right matrix, no write outside it -/
theorem companion_dyn_contract (c : List ℝ) (m : ℕ) (hm : 2 ≤ m) (hc : c ≠ []) :
    wp (companion_dyn c m) (fun R => R.nrows = m - 1 ∧ R.ncols = m - 1 ∧ ∀ i < m - 1, ∀ j < m - 1, R.get i j = entry c i j) := by
  obtain ⟨c0, t, rfl⟩ := List.exists_cons_of_ne_nil hc
  unfold companion_dyn
  rs_inl
  simp only [List.head?_cons, List.tail_cons]
  vcg
  all_goals try omega
  refine wp_conseq (write_all _ (fun M e => ?_) _ _ ?_) ?_
  · cases h : rsMatSet M e.1.1 e.1.2 e.2 <;> rfl
  · rintro ⟨⟨i, j⟩, v⟩ he
    simp only [List.mem_append, List.mem_map, rsEnum_eq] at he
    simp only [rsMatZeros]
    rcases he with ⟨p, ⟨q, hq, rfl⟩, hp⟩ | ⟨k, hk, hp⟩
    · simp only [Prod.mk.injEq] at hp
      have := List.snd_lt_of_mem_zipIdx hq
      simp only [List.length_take] at this
      omega
    · simp only [Prod.mk.injEq] at hp
      simp only [List.mem_range] at hk
      omega
  · rintro R ⟨h1, h2, h3, h4⟩
    refine ⟨h1, h2, fun i hi j hj => ?_⟩
    have memE : ∀ k v, ((0, k), v) ∈ (List.map (fun x_6 : ℕ × ℝ => ((0, x_6.1), -x_6.2 / c0)) (rsEnum (List.take (m - 1) t)) ++
        List.map (fun i_8 => ((i_8 + 1, i_8), (1 : ℝ))) (List.range (m - 2))) ↔ ∃ h : k < (List.take (m - 1) t).length, v = -(List.take (m - 1) t)[k] / c0 := by
      intro k v
      simp only [List.mem_append, List.mem_map, rsEnum_eq, Prod.exists, List.mem_zipIdx_iff_getElem?]
      constructor
      · rintro (⟨a, b, ⟨x, n, hx, he⟩, hk⟩ | ⟨a, _, h⟩)
        · simp only [Prod.mk.injEq] at he hk
          obtain ⟨rfl, rfl⟩ := he
          obtain ⟨⟨_, rfl⟩, rfl⟩ := hk
          obtain ⟨h, e⟩ := List.getElem?_eq_some_iff.1 hx
          exact ⟨h, by rw [e]⟩
        · simp at h
      · rintro ⟨h, rfl⟩
        exact Or.inl ⟨k, _, ⟨_, _, List.getElem?_eq_getElem h, rfl⟩, rfl⟩
    have memS : ∀ i' k v, ((i' + 1, k), v) ∈ (List.map (fun x_6 : ℕ × ℝ => ((0, x_6.1), -x_6.2 / c0)) (rsEnum (List.take (m - 1) t)) ++
        List.map (fun i_8 => ((i_8 + 1, i_8), (1 : ℝ))) (List.range (m - 2))) ↔ i' = k ∧ k < m - 2 ∧ v = 1 := by
      intro i' k v
      simp only [List.mem_append, List.mem_map, Prod.exists, List.mem_range]
      constructor
      · rintro (⟨a, b, _, h⟩ | ⟨a, ha, h⟩)
        · simp at h
        · simp only [Prod.mk.injEq] at h
          obtain ⟨⟨h1, h2⟩, h3⟩ := h
          exact ⟨by omega, by omega, h3.symm⟩
      · rintro ⟨rfl, h, rfl⟩
        exact Or.inr ⟨i', h, rfl⟩
    have hl : (List.take (m - 1) t).length = min (m - 1) t.length := List.length_take
    unfold entry
    cases i with
    | zero =>
      rw [if_pos rfl]
      by_cases hj' : j < (List.take (m - 1) t).length
      · have e := h3 0 j _ ((memE j _).2 ⟨hj', rfl⟩) (fun v' hv' => by
          obtain ⟨_, rfl⟩ := (memE j v').1 hv'; rfl)
        rw [e, if_pos (by simp only [List.length_cons]; omega)]
        have h5 : j < t.length := by omega
        simp [h5]
      · rw [h4 0 j (fun v hv => hj' ((memE j v).1 hv).1), if_neg (by simp only [List.length_cons]; omega)]
        rfl
    | succ i' =>
      rw [if_neg (by omega)]
      by_cases e : i' = j
      · subst e
        rw [if_pos rfl]
        exact h3 _ _ _ ((memS i' i' 1).2 ⟨rfl, by omega, rfl⟩) (fun v' hv' => ((memS i' i' v').1 hv').2.2)
      · rw [if_neg (by omega), h4 _ _ (fun v hv => e ((memS i' j v).1 hv).1)]
        rfl

/-- fewer than two coefficients, or nothing to read: rejected (the documented panics), never an out-of-bounds access -/
theorem companion_dyn_rejects (c : List ℝ) (m : ℕ) (h : m < 2 ∨ c = []) : companion_dyn c m = none := by
  unfold companion_dyn
  rs_inl
  rcases h with h | rfl
  · by_cases h2 : m < 2 <;> simp_all
  · by_cases h2 : m < 2 <;> simp [h2]

end C12

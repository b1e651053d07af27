/-
C25  Sections imported from SciPy rows keep every coefficient in place.
-/
import RsLemmas
import Gen.Sos
set_option linter.all false
open Classical Gen
namespace C25
variable {K : Type} [RsScalar K]

@[rs_spec] theorem default_contract : (Default_Sos_default : Option (Sos K)) = some ⟨fun _ => 0, fun _ => 0, 0, 0⟩ := by
  rw [← wp_eq]
  unfold Default_Sos_default
  rs_inl
  vcg
  first
    | rfl
    | (simp only [Sos.mk.injEq]
       refine ⟨funext fun i => ?_, funext fun i => ?_, ?_, ?_⟩ <;> first | rfl | (fin_cases i <;> rfl))

/-- a new section: the coefficients given, delays zero -/
@[rs_spec] theorem new_contract (b a : Fin 3 → K) : Sos_new b a = some ⟨b, a, 0, 0⟩ := by
  rw [← wp_eq]
  unfold Sos_new
  rs_inl
  vcg
  first
    | rfl
    | (simp only [Sos.mk.injEq]
       refine ⟨funext fun i => ?_, funext fun i => ?_, ?_, ?_⟩ <;> first | rfl | (fin_cases i <;> rfl))

/-- row `i` of the coefficient matrix as a section -/
def row (l : List K) (i : ℕ) : Sos K :=
  ⟨fun j => l.getD (6 * i + j) 0, fun j => l.getD (6 * i + 3 + j) 0, 0, 0⟩

theorem tuples_length {α : Type} (n : ℕ) (l : List α) (h : n * 6 = l.length) : (rsTuples6 l).length = n := by
  induction n generalizing l with
  | zero =>
    obtain rfl : l = [] := List.length_eq_zero_iff.1 (by omega)
    rfl
  | succ n ih =>
    obtain ⟨a, l, rfl⟩ := List.exists_cons_of_ne_nil (l := l) (by rintro rfl; simp at h)
    obtain ⟨b, l, rfl⟩ := List.exists_cons_of_ne_nil (l := l) (by rintro rfl; simp at h <;> omega)
    obtain ⟨c, l, rfl⟩ := List.exists_cons_of_ne_nil (l := l) (by rintro rfl; simp at h <;> omega)
    obtain ⟨d, l, rfl⟩ := List.exists_cons_of_ne_nil (l := l) (by rintro rfl; simp at h <;> omega)
    obtain ⟨e, l, rfl⟩ := List.exists_cons_of_ne_nil (l := l) (by rintro rfl; simp at h <;> omega)
    obtain ⟨f, l, rfl⟩ := List.exists_cons_of_ne_nil (l := l) (by rintro rfl; simp at h <;> omega)
    simp only [List.length_cons] at h
    simp [rsTuples6, ih l (by omega)]

theorem tuples_rows (n : ℕ) (l : List K) (h : n * 6 = l.length) :
    (rsTuples6 l).map (fun t => (⟨![t.1, t.2.1, t.2.2.1], ![t.2.2.2.1, t.2.2.2.2.1, t.2.2.2.2.2], 0, 0⟩ : Sos K)) = (List.range n).map (row l) := by
  induction n generalizing l with
  | zero =>
    obtain rfl : l = [] := List.length_eq_zero_iff.1 (by omega)
    rfl
  | succ n ih =>
    obtain ⟨a, l, rfl⟩ := List.exists_cons_of_ne_nil (l := l) (by rintro rfl; simp at h)
    obtain ⟨b, l, rfl⟩ := List.exists_cons_of_ne_nil (l := l) (by rintro rfl; simp at h <;> omega)
    obtain ⟨c, l, rfl⟩ := List.exists_cons_of_ne_nil (l := l) (by rintro rfl; simp at h <;> omega)
    obtain ⟨d, l, rfl⟩ := List.exists_cons_of_ne_nil (l := l) (by rintro rfl; simp at h <;> omega)
    obtain ⟨e, l, rfl⟩ := List.exists_cons_of_ne_nil (l := l) (by rintro rfl; simp at h <;> omega)
    obtain ⟨f, l, rfl⟩ := List.exists_cons_of_ne_nil (l := l) (by rintro rfl; simp at h <;> omega)
    simp only [List.length_cons] at h
    rw [List.range_succ_eq_map, List.map_cons, List.map_map, rsTuples6, List.map_cons, ih l (by omega)]
    refine congrArg₂ _ ?_ (List.map_congr_left fun i _ => ?_)
    · simp only [row, Sos.mk.injEq]
      refine ⟨funext fun j => ?_, funext fun j => ?_, trivial, trivial⟩ <;> fin_cases j <;> rfl
    · simp only [row, Sos.mk.injEq, Function.comp]
      refine ⟨funext fun j => ?_, funext fun j => ?_, trivial, trivial⟩
      · rw [show 6 * (i + 1) + (j : ℕ) = (6 * i + j) + 1 + 1 + 1 + 1 + 1 + 1 by ring]; simp
      · rw [show 6 * (i + 1) + 3 + (j : ℕ) = (6 * i + 3 + j) + 1 + 1 + 1 + 1 + 1 + 1 by ring]; simp

/-- the same by indices or by chunks -/
theorem mapM_rows {α : Type} (n : ℕ) (l : List K) (xs : List α) (g : ℕ → α) (f : α → Option (Sos K)) (hx : xs = (List.range n).map g)
    (hf : ∀ i < n, f (g i) = some (row l i)) : wp (xs.mapM f) (fun r => r = (List.range n).map (row l)) := by
  subst hx
  refine ⟨_, ?_, rfl⟩
  rw [List.mapM_map]
  have : ∀ (ks : List ℕ), (∀ i ∈ ks, i < n) → List.mapM (fun i => f (g i)) ks = some (ks.map (row l)) := by
    intro ks
    induction ks with
    | nil => intro _; rfl
    | cons k ks ih =>
      intro hk
      rw [List.mapM_cons, hf k (hk k (by simp)), ih (fun i hi => hk i (by simp [hi]))]; rfl
  exact this _ (fun i hi => List.mem_range.1 hi)
theorem idx_get (l : List K) (i : ℕ) (h : i < l.length) : rsIdx l i = some (l.getD i 0) := by
  simp [rsIdx, h]
theorem idx_chunk (l : List K) (i k : ℕ) (hk : k < 6) (h : i * 6 + 6 ≤ l.length) : rsIdx ((l.drop (i * 6)).take 6) k = some (l.getD (6 * i + k) 0) := by
  rw [idx_get _ _ (by simp; omega)]
  congr 1
  simp only [List.getD_eq_getElem?_getD, List.getElem?_take, hk, if_true, List.getElem?_drop]
  congr 2; ring
theorem row_mk (l : List K) (i : ℕ) : (⟨![l.getD (6 * i) 0, l.getD (6 * i + 1) 0, l.getD (6 * i + 2) 0], ![l.getD (6 * i + 3) 0, l.getD (6 * i + 4) 0, l.getD (6 * i + 5) 0], 0, 0⟩ : Sos K) = row l i := by
  simp only [row, Sos.mk.injEq]
  refine ⟨funext fun j => ?_, funext fun j => ?_, trivial, trivial⟩ <;> fin_cases j <;> rfl
/-- `order` rows of six: section `i` holds entries `6i .. 6i+2` as numerator and `6i+3 .. 6i+5` as denominator, with
zero delays; nothing is computed, so the values are the ones given -/
theorem from_scipy_contract (n : ℕ) (l : List K) (h : n * 6 = l.length) :
    Sos_from_scipy_dyn n l = some ((List.range n).map (row l)) := by
  rw [← wp_eq]
  unfold Sos_from_scipy_dyn
  rs_inl
  simp only [rs_spec, nf_mapM_some, nf_bind_some]
  vcg
  all_goals try (exfalso; omega)
  all_goals
    (try rw [List.take_of_length_le (by rw [tuples_length n l h])])
    first
      | exact tuples_rows n l h
      | (refine mapM_rows n l _ (fun i => i) _ (by simp [show l.length / 6 = n by omega]) (fun i hi => ?_)
         have e : ∀ k, k < 6 → rsIdx l (6 * i + k) = some (l.getD (6 * i + k) 0) := fun k hk => idx_get l _ (by omega)
         have e0 : rsIdx l (6 * i) = some (l.getD (6 * i) 0) := idx_get l _ (by omega)
         simp only [Nat.mul_comm i 6, e0, e 0 (by omega), e 1 (by omega), e 2 (by omega), e 3 (by omega), e 4 (by omega), e 5 (by omega), Option.bind_eq_bind, Option.bind_some]
         exact congrArg some (row_mk l i))
      | (refine mapM_rows n l _ (fun i => (l.drop (i * 6)).take 6) _ (by simp [rsChunks, show l.length / 6 = n by omega]) (fun i hi => ?_)
         have e : ∀ k, k < 6 → rsIdx ((l.drop (i * 6)).take 6) k = some (l.getD (6 * i + k) 0) := fun k hk => idx_chunk l i k hk (by omega)
         simp only [e 0 (by omega), e 1 (by omega), e 2 (by omega), e 3 (by omega), e 4 (by omega), e 5 (by omega), Option.bind_eq_bind, Option.bind_some]
         exact congrArg some (row_mk l i))
theorem from_scipy_length (n : ℕ) (l : List K) (h : n * 6 = l.length) :
    wp (Sos_from_scipy_dyn n l) (fun r => r.length = n) := by
  rw [from_scipy_contract n l h]
  exact wp_some (by simp)
/-- any other number of coefficients is rejected -/
theorem from_scipy_rejects (n : ℕ) (l : List K) (h : n * 6 ≠ l.length) : Sos_from_scipy_dyn n l = none := by
  unfold Sos_from_scipy_dyn
  rs_inl
  first
    | rw [if_neg h]
    | simp [h]
    | (simp [h]; omega)
end C25

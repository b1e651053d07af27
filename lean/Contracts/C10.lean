/-
C10  Odd extension padding has the documented shape and values.
-/
import RsLemmas
import Gen.Ext
set_option linter.all false
open Classical Gen
namespace C10

/-- entry of the odd extension by `n` of a line `x` of length `L` -/
def ext (x : ℕ → ℝ) (L n a : ℕ) : ℝ :=
  if a < n then 2 * x 0 - x (n - a)
  else if a < n + L then x (a - n)
  else 2 * x (L - 1) - x (L - 2 - (a - n - L))

/-- the documented form: the middle is the input, entry `n-1-d` before it is `2*first - x[1+d]`,
entry `d` after it is `2*last - x[last-1-d]` -/
theorem ext_middle (x : ℕ → ℝ) (L n k : ℕ) (h : k < L) : ext x L n (n + k) = x k := by
  unfold ext
  rw [if_neg (by omega), if_pos (by omega)]
  congr 1; omega
theorem ext_before (x : ℕ → ℝ) (L n d : ℕ) (h : d < n) : ext x L n (n - 1 - d) = 2 * x 0 - x (1 + d) := by
  unfold ext
  rw [if_pos (by omega)]
  congr 2; omega
theorem ext_after (x : ℕ → ℝ) (L n d : ℕ) (h : n < L) (hd : d < n) : ext x L n (n + L + d) = 2 * x (L - 1) - x (L - 1 - 1 - d) := by
  unfold ext
  rw [if_neg (by omega), if_neg (by omega)]
  congr 2; omega

/-- `M'` has the shape of `M` and every entry of `M` that equals the target `T` still does -/
def Keeps (T : ℕ → ℕ → ℝ) (M M' : RMat ℝ) : Prop :=
  M'.nrows = M.nrows ∧ M'.ncols = M.ncols ∧ ∀ a b, M.get a b = T a b → M'.get a b = T a b

theorem fill {α : Type} (T : ℕ → ℕ → ℝ) (W : α → ℕ → ℕ → Prop) (f : RMat ℝ → α → Option (RMat ℝ)) (l : List α) (M : RMat ℝ)
    (h : ∀ S, S.nrows = M.nrows → S.ncols = M.ncols → ∀ x ∈ l, wp (f S x) (fun S' => Keeps T S S' ∧ ∀ a b, W x a b → S'.get a b = T a b)) :
    wp (List.foldlM f M l) (fun S' => Keeps T M S' ∧ ∀ x ∈ l, ∀ a b, W x a b → S'.get a b = T a b) := by
  induction l generalizing M with
  | nil => exact ⟨M, rfl, ⟨rfl, rfl, fun _ _ h => h⟩, by simp⟩
  | cons x t ih =>
    rw [List.foldlM_cons]
    refine wp_bind ?_
    refine wp_conseq (h M rfl rfl x (by simp)) ?_
    rintro S ⟨⟨h1, h2, h3⟩, h4⟩
    refine wp_conseq (ih S (fun S1 e1 e2 y hy => h S1 (by rw [e1, h1]) (by rw [e2, h2]) y (by simp [hy]))) ?_
    rintro S2 ⟨⟨g1, g2, g3⟩, g4⟩
    refine ⟨⟨by rw [g1, h1], by rw [g2, h2], fun a b e => g3 a b (h3 a b e)⟩, fun y hy a b w => ?_⟩
    rcases List.mem_cons.1 hy with rfl | hy
    · exact g3 a b (h4 a b w)
    · exact g4 y hy a b w

theorem set_keeps {T : ℕ → ℕ → ℝ} {S : RMat ℝ} {i j : ℕ} {v : ℝ} {W : ℕ → ℕ → Prop} (hv : v = T i j)
    (hW : ∀ a b, W a b → a = i ∧ b = j) :
    Keeps T S ⟨S.nrows, S.ncols, fun a b => if a = i ∧ b = j then v else S.get a b⟩ ∧
      ∀ a b, W a b → (if a = i ∧ b = j then v else S.get a b) = T a b := by
  refine ⟨⟨rfl, rfl, fun a b e => ?_⟩, fun a b w => ?_⟩
  · by_cases c : a = i ∧ b = j
    · simp [c, hv]
    · simp [c, e]
  · simp [hW a b w, hv]

/-- two nested loops, the inner one over `i` writing `(p i j, q i j)` -/
theorem fill2 (T : ℕ → ℕ → ℝ) (p q : ℕ → ℕ → ℕ) (f : ℕ → RMat ℝ → ℕ → Option (RMat ℝ)) (l m : List ℕ) (M : RMat ℝ)
    (h : ∀ S, S.nrows = M.nrows → S.ncols = M.ncols → ∀ j ∈ l, ∀ i ∈ m, wp (f j S i) (fun S' => Keeps T S S' ∧ ∀ a b, (a = p i j ∧ b = q i j) → S'.get a b = T a b)) :
    wp (List.foldlM (fun s j => List.foldlM (f j) s m) M l) (fun S' => Keeps T M S' ∧ ∀ j ∈ l, ∀ i ∈ m, S'.get (p i j) (q i j) = T (p i j) (q i j)) := by
  refine wp_conseq (fill T (fun j a b => ∃ i ∈ m, a = p i j ∧ b = q i j) _ l M (fun S e1 e2 j hj => ?_)) ?_
  · refine wp_conseq (fill T (fun i a b => a = p i j ∧ b = q i j) _ m S (fun S1 d1 d2 i hi => h S1 (by rw [d1, e1]) (by rw [d2, e2]) j hj i hi)) ?_
    rintro S' ⟨k, w⟩
    refine ⟨k, ?_⟩
    rintro a b ⟨i, hi, hab⟩
    exact w i hi a b hab
  · rintro S' ⟨k, w⟩
    exact ⟨k, fun j hj i hi => w j hj _ _ ⟨i, hi, rfl, rfl⟩⟩

theorem copy (x : RMat ℝ) : wp (rsMatOfList x.nrows x.ncols (rsMatToList x)) (fun R => R.nrows = x.nrows ∧ R.ncols = x.ncols ∧
    ∀ i < x.nrows, ∀ j < x.ncols, R.get i j = x.get i j) := by
  have hl : (rsMatToList x).length = x.nrows * x.ncols := by simp [rsMatToList]
  rw [rsMatOfList, if_pos hl]
  refine wp_some ⟨rfl, rfl, fun i hi j hj => ?_⟩
  have hk : j * x.nrows + i < x.nrows * x.ncols := by
    calc j * x.nrows + i < j * x.nrows + x.nrows := by omega
      _ = (j + 1) * x.nrows := by ring
      _ ≤ x.ncols * x.nrows := Nat.mul_le_mul_right _ hj
      _ = _ := by ring
  have h1 : (j * x.nrows + i) % x.nrows = i := by
    rw [Nat.add_comm, Nat.add_mul_mod_self_right, Nat.mod_eq_of_lt hi]
  have h2 : (j * x.nrows + i) / x.nrows = j := by
    rw [Nat.add_comm, Nat.add_mul_div_right _ _ (by omega), Nat.div_eq_of_lt hi, Nat.zero_add]
  simp [rsMatToList, List.getElem?_map, hk, h1, h2]

/-- the extent along an axis -/
def extent (x : RMat ℝ) (axis : ℕ) : ℕ := if axis = 0 then x.nrows else x.ncols
/-- `R` is the odd extension by `n` of `x` along `axis` -/
def IsExt (x R : RMat ℝ) (n axis : ℕ) : Prop :=
  if axis = 0 then R.nrows = x.nrows + 2 * n ∧ R.ncols = x.ncols ∧
    ∀ i < R.nrows, ∀ j < R.ncols, R.get i j = ext (fun t => x.get t j) x.nrows n i
  else R.nrows = x.nrows ∧ R.ncols = x.ncols + 2 * n ∧
    ∀ i < R.nrows, ∀ j < R.ncols, R.get i j = ext (fun t => x.get i t) x.ncols n j

macro "body" : tactic => `(tactic| (
  simp only [List.mem_range] at *
  vcg
  all_goals try simp only [List.length_map, List.length_range, rsMatZeros] at *
  all_goals try omega
  refine set_keeps ?_ (by rintro a b ⟨rfl, rfl⟩; exact ⟨by omega, by omega⟩)
  show _ = ext _ _ _ _
  unfold ext
  simp only [List.getElem_map, List.getElem_range, one_add_one_eq_two]
  split_ifs
  all_goals first
    | (exfalso; omega)
    | rfl
    | (congr 1; omega)
    | (congr 2; omega)))

theorem hit {T : ℕ → ℕ → ℝ} {S : RMat ℝ} {a b i j : ℕ} (h : S.get a b = T a b) (ea : a = i) (eb : b = j) : S.get i j = T i j := by
  subst ea eb; exact h

set_option hygiene false in
/-- entry `(i, j)` was written by the loop `w` at step `(o, k)` -/
macro "at_step" o:term:max k:term:max : tactic => `(tactic| first
  | exact hit (u3 _ _ (t3 _ _ (w1 $o (by omega) $k (by omega)))) (by omega) (by omega)
  | exact hit (u3 _ _ (w2 $o (by omega) $k (by omega))) (by omega) (by omega)
  | exact hit (w3 $o (by omega) $k (by omega)) (by omega) (by omega))

set_option hygiene false in
/-- entry `(i, j)` was written by one of the three loops, whichever their order, nesting and direction -/
macro "rows" : tactic => `(tactic| first
  | at_step j i
  | at_step i j
  | at_step j (i - n)
  | at_step (i - n) j
  | at_step j (i - n - x.nrows)
  | at_step (i - n - x.nrows) j
  | at_step j (x.nrows + 2 * n - 1 - i)
  | at_step (x.nrows + 2 * n - 1 - i) j
  | at_step j (n - 1 - i)
  | at_step (n - 1 - i) j
)
set_option hygiene false in
macro "cols" : tactic => `(tactic| first
  | at_step i j
  | at_step j i
  | at_step i (j - n)
  | at_step (j - n) i
  | at_step i (j - n - x.ncols)
  | at_step (j - n - x.ncols) i
  | at_step i (x.ncols + 2 * n - 1 - j)
  | at_step (x.ncols + 2 * n - 1 - j) i
  | at_step i (n - 1 - j)
  | at_step (n - 1 - j) i
)

set_option hygiene false in
/-- a loop that writes the target, whichever its nesting and direction; the rest of the proof goes on from what it wrote -/
macro "rowloop" : tactic => `(tactic| first
  | (refine wp_conseq (fill2 T (fun i j => i) (fun i j => j) _ _ _ _ (fun S e1 e2 j hj i hi => ?_)) ?_
     · body
     beta_reduce)
  | (refine wp_conseq (fill2 T (fun i j => i + n) (fun i j => j) _ _ _ _ (fun S e1 e2 j hj i hi => ?_)) ?_
     · body
     beta_reduce)
  | (refine wp_conseq (fill2 T (fun i j => x.nrows + 2 * n - 1 - i) (fun i j => j) _ _ _ _ (fun S e1 e2 j hj i hi => ?_)) ?_
     · body
     beta_reduce)
  | (refine wp_conseq (fill2 T (fun i j => n - 1 - i) (fun i j => j) _ _ _ _ (fun S e1 e2 j hj i hi => ?_)) ?_
     · body
     beta_reduce)
  | (refine wp_conseq (fill2 T (fun i j => i + n + x.nrows) (fun i j => j) _ _ _ _ (fun S e1 e2 j hj i hi => ?_)) ?_
     · body
     beta_reduce)
  | (refine wp_conseq (fill2 T (fun i j => j) (fun i j => i) _ _ _ _ (fun S e1 e2 j hj i hi => ?_)) ?_
     · body
     beta_reduce)
  | (refine wp_conseq (fill2 T (fun i j => j + n) (fun i j => i) _ _ _ _ (fun S e1 e2 j hj i hi => ?_)) ?_
     · body
     beta_reduce)
  | (refine wp_conseq (fill2 T (fun i j => x.nrows + 2 * n - 1 - j) (fun i j => i) _ _ _ _ (fun S e1 e2 j hj i hi => ?_)) ?_
     · body
     beta_reduce)
  | (refine wp_conseq (fill2 T (fun i j => n - 1 - j) (fun i j => i) _ _ _ _ (fun S e1 e2 j hj i hi => ?_)) ?_
     · body
     beta_reduce)
  | (refine wp_conseq (fill2 T (fun i j => j + n + x.nrows) (fun i j => i) _ _ _ _ (fun S e1 e2 j hj i hi => ?_)) ?_
     · body
     beta_reduce)
)

set_option hygiene false in
/-- a loop that writes the target, whichever its nesting and direction; the rest of the proof goes on from what it wrote -/
macro "colloop" : tactic => `(tactic| first
  | (refine wp_conseq (fill2 T (fun i j => i) (fun i j => j) _ _ _ _ (fun S e1 e2 j hj i hi => ?_)) ?_
     · body
     beta_reduce)
  | (refine wp_conseq (fill2 T (fun i j => i) (fun i j => j + n) _ _ _ _ (fun S e1 e2 j hj i hi => ?_)) ?_
     · body
     beta_reduce)
  | (refine wp_conseq (fill2 T (fun i j => i) (fun i j => x.ncols + 2 * n - 1 - j) _ _ _ _ (fun S e1 e2 j hj i hi => ?_)) ?_
     · body
     beta_reduce)
  | (refine wp_conseq (fill2 T (fun i j => i) (fun i j => n - 1 - j) _ _ _ _ (fun S e1 e2 j hj i hi => ?_)) ?_
     · body
     beta_reduce)
  | (refine wp_conseq (fill2 T (fun i j => i) (fun i j => j + n + x.ncols) _ _ _ _ (fun S e1 e2 j hj i hi => ?_)) ?_
     · body
     beta_reduce)
  | (refine wp_conseq (fill2 T (fun i j => j) (fun i j => i) _ _ _ _ (fun S e1 e2 j hj i hi => ?_)) ?_
     · body
     beta_reduce)
  | (refine wp_conseq (fill2 T (fun i j => j) (fun i j => i + n) _ _ _ _ (fun S e1 e2 j hj i hi => ?_)) ?_
     · body
     beta_reduce)
  | (refine wp_conseq (fill2 T (fun i j => j) (fun i j => x.ncols + 2 * n - 1 - i) _ _ _ _ (fun S e1 e2 j hj i hi => ?_)) ?_
     · body
     beta_reduce)
  | (refine wp_conseq (fill2 T (fun i j => j) (fun i j => n - 1 - i) _ _ _ _ (fun S e1 e2 j hj i hi => ?_)) ?_
     · body
     beta_reduce)
  | (refine wp_conseq (fill2 T (fun i j => j) (fun i j => i + n + x.ncols) _ _ _ _ (fun S e1 e2 j hj i hi => ?_)) ?_
     · body
     beta_reduce)
)

theorem odd_ext_dyn_contract (x : RMat ℝ) (n axis : ℕ) (ha : axis < 2) (hn : n < extent x axis) :
    wp (odd_ext_dyn x n axis) (fun R => IsExt x R n axis) := by
  unfold odd_ext_dyn extent at *
  rs_inl
  by_cases hn0 : n < 1
  · have : n = 0 := by omega
    subst this
    vcg
    all_goals try (exfalso; omega)
    refine wp_conseq (copy x) ?_
    rintro R ⟨h1, h2, h3⟩
    unfold IsExt ext
    split <;> refine ⟨by omega, by omega, fun i hi j hj => ?_⟩
    · rw [if_neg (by omega), if_pos (by omega), h3 i (by omega) j (by omega)]; simp
    · rw [if_neg (by omega), if_pos (by omega), h3 i (by omega) j (by omega)]; simp
  · have hax : axis = 0 ∨ axis = 1 := by omega
    rcases hax with rfl | rfl
    · have hn' : n < x.nrows := by simpa using hn
      vcg
      all_goals try (exfalso; omega)
      all_goals try omega
      let T : ℕ → ℕ → ℝ := fun a b => ext (fun t => x.get t b) x.nrows n a
      rowloop
      rintro S1 ⟨⟨s1, s2, s3⟩, w1⟩
      vcg
      rowloop
      rintro S2 ⟨⟨t1, t2, t3⟩, w2⟩
      vcg
      all_goals try omega
      rowloop
      rintro S3 ⟨⟨u1, u2, u3⟩, w3⟩
      simp only [rsMatZeros] at s1 s2
      unfold IsExt
      rw [if_pos rfl]
      refine ⟨by omega, by omega, fun i hi j hj => ?_⟩
      show S3.get i j = T i j
      simp only [List.mem_range] at w1 w2 w3
      by_cases c1 : i < n
      · rows
      · by_cases c2 : i < n + x.nrows
        · rows
        · rows
    · have hn' : n < x.ncols := by simpa using hn
      vcg
      all_goals try (exfalso; omega)
      all_goals try omega
      let T : ℕ → ℕ → ℝ := fun a b => ext (fun t => x.get a t) x.ncols n b
      colloop
      rintro S1 ⟨⟨s1, s2, s3⟩, w1⟩
      vcg
      colloop
      rintro S2 ⟨⟨t1, t2, t3⟩, w2⟩
      vcg
      all_goals try omega
      colloop
      rintro S3 ⟨⟨u1, u2, u3⟩, w3⟩
      simp only [rsMatZeros] at s1 s2
      unfold IsExt
      rw [if_neg (by omega)]
      refine ⟨by omega, by omega, fun i hi j hj => ?_⟩
      show S3.get i j = T i j
      simp only [List.mem_range] at w1 w2 w3
      by_cases c1 : j < n
      · cols
      · by_cases c2 : j < n + x.ncols
        · cols
        · cols

/-- an axis that does not exist, or an extension not shorter than the line: rejected (the documented panics) -/
theorem odd_ext_dyn_rejects (x : RMat ℝ) (n axis : ℕ) (h : 2 ≤ axis ∨ (1 ≤ n ∧ extent x axis ≤ n)) : odd_ext_dyn x n axis = none := by
  unfold odd_ext_dyn extent at *
  rs_inl
  repeat' split
  all_goals first
    | rfl
    | (exfalso; simp only [not_true, not_false_eq_true, if_true, one_ne_zero, if_false, *] at h; omega)
    | (exfalso; split_ifs at h <;> omega)

/-- the number of entries `pad` adds on each side -/
def edge (t : Pad) (len : Option ℕ) (ntaps : ℕ) : ℕ := if t = Pad.None then 0 else len.getD (3 * ntaps)

/-- no padding: the input and 0; otherwise the odd extension by the explicit length or three times the tap count, and that length -/
theorem pad_contract (t : Pad) (len : Option ℕ) (x : RMat ℝ) (axis ntaps : ℕ) (ht : t = Pad.None ∨ t = Pad.Odd) (ha : axis < 2)
    (he : edge t len ntaps < extent x axis) :
    wp (pad t len x axis ntaps) (fun r => r.1 = edge t len ntaps ∧ IsExt x r.2 (edge t len ntaps) axis ∧
      (edge t len ntaps = 0 → ∀ i < x.nrows, ∀ j < x.ncols, r.2.get i j = x.get i j)) := by
  have zero : ∀ R, R.nrows = x.nrows → R.ncols = x.ncols → (∀ i < x.nrows, ∀ j < x.ncols, R.get i j = x.get i j) → IsExt x R 0 axis := by
    intro R h1 h2 h3
    unfold IsExt ext
    split <;> refine ⟨by omega, by omega, fun i hi j hj => ?_⟩
    · rw [if_neg (by omega), if_pos (by omega), h3 i (by omega) j (by omega)]; simp
    · rw [if_neg (by omega), if_pos (by omega), h3 i (by omega) j (by omega)]; simp
  unfold pad edge extent at *
  rs_inl
  rcases ht with rfl | rfl
  · simp only [if_true] at he ⊢
    have hax : axis = 0 ∨ axis = 1 := by omega
    rcases hax with rfl | rfl
    all_goals
      vcg
      all_goals try omega
      all_goals try (exfalso; simp at *; omega)
      all_goals
        refine wp_conseq (copy x) ?_
        rintro R ⟨h1, h2, h3⟩
        vcg
        exact ⟨rfl, zero R h1 h2 h3, fun _ => h3⟩
  · have hP : (Pad.Odd = Pad.None) = False := by simp
    simp only [hP, if_false] at he ⊢
    have hO : ∀ R E, IsExt x R E axis → E = 0 → ∀ i < x.nrows, ∀ j < x.ncols, R.get i j = x.get i j := by
      intro R E hR e0 i hi j hj
      subst e0
      unfold IsExt ext at hR
      by_cases hx : axis = 0
      · rw [if_pos hx] at hR
        rw [hR.2.2 i (by omega) j (by omega), if_neg (by omega), if_pos (by omega)]; simp
      · rw [if_neg hx] at hR
        rw [hR.2.2 i (by omega) j (by omega), if_neg (by omega), if_pos (by omega)]; simp
    have hax : axis = 0 ∨ axis = 1 := by omega
    cases len
    all_goals
      simp only [Option.getD_none, Option.getD_some, Bool.false_eq_true, if_false, if_true] at he ⊢
      rcases hax with rfl | rfl
      all_goals
        vcg
        all_goals try simp only [if_true, one_ne_zero, if_false] at *
        all_goals try (exfalso; omega)
        all_goals try omega
        all_goals first
          | contradiction
          | (exfalso; simp_all; done)
          | (refine wp_conseq (copy x) ?_
             rintro R ⟨h1, h2, h3⟩
             vcg
             exact ⟨by omega, by rw [show 3 * ntaps = 0 by omega]; exact zero R h1 h2 h3, fun _ => h3⟩)
          | (refine wp_conseq (copy x) ?_
             rintro R ⟨h1, h2, h3⟩
             vcg
             refine ⟨rfl, ?_, fun _ => h3⟩
             subst_vars
             exact zero R h1 h2 h3)
          | (refine wp_conseq (odd_ext_dyn_contract x _ _ (by omega) (by unfold extent; simp; omega)) ?_
             intro R hR
             vcg
             exact ⟨by omega, by first | exact hR | (rw [show 3 * ntaps = ntaps * 3 by omega]; exact hR),
               by first | exact hO R _ hR | (rw [show 3 * ntaps = ntaps * 3 by omega]; exact hO R _ hR)⟩)

/-- a line not longer than the edge is rejected -/
theorem pad_rejects (t : Pad) (len : Option ℕ) (x : RMat ℝ) (axis ntaps : ℕ) (h : 2 ≤ axis ∨ extent x axis ≤ edge t len ntaps) :
    pad t len x axis ntaps = none := by
  unfold pad
  rs_inl
  unfold extent edge at h
  by_cases ha : axis < 2
  · have h' := h.resolve_left (by omega)
    have hax : axis = 0 ∨ axis = 1 := by omega
    rcases hax with rfl | rfl
    · cases t <;> cases len <;> simp at h' ⊢ <;> intros <;> omega
    · cases t <;> cases len <;> simp at h' ⊢ <;> intros <;> omega
  · simp [ha]

end C10

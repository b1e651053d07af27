/-
Proof rules for the loop combinators of `RsPrelude` (all proved, nothing assumed).
-/
import RsPrelude
set_option linter.all false
open Classical

attribute [rs_simp] Option.bind_eq_bind Option.bind_some Option.bind_none Option.pure_def

section
variable {σ α β : Type}

/-- invariant rule for a checked fold -/
theorem foldlM_inv (f : σ → α → Option σ) (l : List α) (s : σ) (I : ℕ → σ → Prop) (h0 : I 0 s)
    (hs : ∀ i (h : i < l.length) s, I i s → ∃ s', f s l[i] = some s' ∧ I (i+1) s') :
    ∃ s', List.foldlM f s l = some s' ∧ I l.length s' := by
  induction l generalizing s I with
  | nil => exact ⟨s, rfl, h0⟩
  | cons x xs ih =>
    obtain ⟨s1, h1, h2⟩ := hs 0 (by simp) s h0
    obtain ⟨s2, h3, h4⟩ := ih s1 (fun i => I (i+1)) h2 (fun i h s hi => by
      exact hs (i+1) (by simpa using h) s hi)
    refine ⟨s2, ?_, by simpa using h4⟩
    simp only [List.foldlM_cons]
    simp only [List.getElem_cons_zero] at h1
    rw [h1]; exact h3

/-- a checked fold whose states are known in advance -/
theorem foldlM_eq (f : σ → α → Option σ) (l : List α) (s : σ) (g : ℕ → σ) (h0 : s = g 0)
    (hs : ∀ i (h : i < l.length), f (g i) l[i] = some (g (i+1))) :
    List.foldlM f s l = some (g l.length) := by
  obtain ⟨s', h1, h2⟩ := foldlM_inv f l s (fun i s => s = g i) h0 (fun i h s hi => ⟨g (i+1), by rw [hi]; exact hs i h, rfl⟩)
  rw [h1, h2]

theorem foldl_inv (f : σ → α → σ) (l : List α) (s : σ) (I : ℕ → σ → Prop) (h0 : I 0 s)
    (hs : ∀ i (h : i < l.length) s, I i s → I (i+1) (f s l[i])) : I l.length (List.foldl f s l) := by
  induction l generalizing s I with
  | nil => exact h0
  | cons x xs ih =>
    have := ih (f s x) (fun i => I (i+1)) (hs 0 (by simp) s h0) (fun i h s hi => by
      exact hs (i+1) (by simpa using h) s hi)
    simpa using this

theorem foldl_eq (f : σ → α → σ) (l : List α) (s : σ) (g : ℕ → σ) (h0 : s = g 0)
    (hs : ∀ i (h : i < l.length), f (g i) l[i] = g (i+1)) :
    List.foldl f s l = g l.length :=
  foldl_inv f l s (fun i s => s = g i) h0 (fun i h s hi => by rw [hi]; exact hs i h)

/-- a checked fold whose body never fails is a plain fold -/
theorem foldlM_some (f : σ → α → Option σ) (g : σ → α → σ) (l : List α) (s : σ)
    (h : ∀ s x, x ∈ l → f s x = some (g s x)) : List.foldlM f s l = some (List.foldl g s l) := by
  induction l generalizing s with
  | nil => rfl
  | cons x xs ih =>
    simp only [List.foldlM_cons, List.foldl_cons]
    rw [h s x (by simp)]
    exact ih _ (fun s y hy => h s y (by simp [hy]))

theorem mapM_some' (f : α → Option β) (g : α → β) (l : List α) (h : ∀ x ∈ l, f x = some (g x)) :
    List.mapM f l = some (l.map g) := by
  induction l with
  | nil => rfl
  | cons x xs ih =>
    simp only [List.mapM_cons]
    rw [h x (by simp), ih (fun y hy => h y (by simp [hy]))]
    rfl

/-- total-correctness rule for `while`/`loop` -/
theorem rsLoop_inv (f : σ → Option (Bool × σ)) (I : σ → Prop) (m : σ → ℕ) (Q : σ → Prop) (s : σ) (h0 : I s)
    (hs : ∀ s, I s → ∃ r, f s = some r ∧ (r.1 = true → I r.2 ∧ m r.2 < m s) ∧ (r.1 = false → Q r.2)) :
    ∃ r, rsLoop f s = some r ∧ Q r := by
  generalize hm : m s = k
  induction k using Nat.strong_induction_on generalizing s with
  | _ k ih =>
    obtain ⟨r, h1, h2, h3⟩ := hs s h0
    rw [rsLoop, h1]
    simp only [Option.bind_eq_bind, Option.bind_some]
    by_cases hb : r.1 = true
    · obtain ⟨hI, hlt⟩ := h2 hb
      simp only [hb, if_true]
      exact ih (m r.2) (by omega) r.2 hI rfl
    · simp only [Bool.not_eq_true] at hb
      exact ⟨r.2, by simp [hb], h3 hb⟩

theorem rsMapAccumM_some (f : σ → α → Option (σ × β)) (g : σ → α → σ × β) (l : List α) (s : σ)
    (h : ∀ s x, x ∈ l → f s x = some (g s x)) : rsMapAccumM f s l = some (rsMapAccum g s l) := by
  induction l generalizing s with
  | nil => rfl
  | cons x xs ih =>
    simp only [rsMapAccumM, rsMapAccum]
    rw [h s x (by simp)]
    simp only [Option.bind_eq_bind, Option.bind_some]
    rw [ih _ (fun s y hy => h s y (by simp [hy]))]
    rfl

theorem rsMapAccum_length (f : σ → α → σ × β) (l : List α) (s : σ) : (rsMapAccum f s l).2.length = l.length := by
  induction l generalizing s with
  | nil => rfl
  | cons x xs ih => simp [rsMapAccum, ih]

theorem rsMapAccum_append (f : σ → α → σ × β) (l m : List α) (s : σ) :
    rsMapAccum f s (l ++ m) =
      ((rsMapAccum f (rsMapAccum f s l).1 m).1, (rsMapAccum f s l).2 ++ (rsMapAccum f (rsMapAccum f s l).1 m).2) := by
  induction l generalizing s with
  | nil => rfl
  | cons x xs ih => simp [rsMapAccum, ih]

theorem rsMapAccum_congr (f g : σ → α → σ × β) (l : List α) (s : σ) (h : ∀ s x, x ∈ l → f s x = g s x) :
    rsMapAccum f s l = rsMapAccum g s l := by
  induction l generalizing s with
  | nil => rfl
  | cons x xs ih =>
    simp only [rsMapAccum]
    rw [h s x (by simp), ih _ (fun s y hy => h s y (by simp [hy]))]

theorem rsEnum_eq (l : List α) : rsEnum l = l.zipIdx.map (fun p => (p.2, p.1)) := by
  unfold rsEnum
  apply List.ext_getElem
  · simp
  · intro i h1 h2; simp

@[simp] theorem rsEnum_length (l : List α) : (rsEnum l).length = l.length := by simp [rsEnum]
@[simp] theorem rsRange_length (a b : ℕ) : (rsRange a b).length = b - a := by simp [rsRange]
theorem rsRange_getElem (a b i : ℕ) (h : i < (rsRange a b).length) : (rsRange a b)[i] = a + i := by simp [rsRange]
theorem mem_rsRange (a b i : ℕ) : i ∈ rsRange a b ↔ a ≤ i ∧ i < b := by
  simp only [rsRange, List.mem_range'_1]; omega

/-- checked integer operations, when the result is representable -/
theorem rsFrom_some {t : IntTy} {x : ℤ} (h1 : t.lo ≤ x) (h2 : x ≤ t.hi) : rsFrom t x = some x := by simp [rsFrom, h1, h2]
theorem rsMul_some {t : IntTy} {x y : ℤ} (h1 : t.lo ≤ x * y) (h2 : x * y ≤ t.hi) : rsMul t x y = some (x * y) := rsFrom_some h1 h2
theorem rsAdd_some {t : IntTy} {x y : ℤ} (h1 : t.lo ≤ x + y) (h2 : x + y ≤ t.hi) : rsAdd t x y = some (x + y) := rsFrom_some h1 h2
theorem rsSub_some {t : IntTy} {x y : ℤ} (h1 : t.lo ≤ x - y) (h2 : x - y ≤ t.hi) : rsSub t x y = some (x - y) := rsFrom_some h1 h2
theorem rsDiv_some {t : IntTy} {x y : ℤ} (ht : t.lo ≤ 0) (hx : 0 ≤ x) (hy : 0 < y) (h2 : x ≤ t.hi) : rsDiv t x y = some (x / y) := by
  have h3 : x / y ≤ x := Int.ediv_le_self _ hx
  have h4 : 0 ≤ x / y := Int.ediv_nonneg hx hy.le
  have : x.tdiv y = x / y := Int.tdiv_eq_ediv_of_nonneg hx
  simp only [rsDiv, this, rsFrom]
  rw [if_neg (by omega), if_pos (by omega)]
theorem rsRem_some {t : IntTy} {x y : ℤ} (ht : t.lo ≤ 0) (hx : 0 ≤ x) (hy : 0 < y) (h2 : x ≤ t.hi) : rsRem t x y = some (x % y) := by
  have h3 : x / y ≤ x := Int.ediv_le_self _ hx
  have h4 : 0 ≤ x / y := Int.ediv_nonneg hx hy.le
  have h5 : x.tdiv y = x / y := Int.tdiv_eq_ediv_of_nonneg hx
  have h6 : x.tmod y = x % y := Int.tmod_eq_emod_of_nonneg hx
  simp only [rsRem, h5, h6]
  rw [if_neg (by omega), if_pos (by omega)]
theorem rsToUsize_some {x : ℤ} (h1 : 0 ≤ x) (h2 : x ≤ (usizeMax : ℤ)) : rsToUsize x = some x.toNat := by simp [rsToUsize, h1, h2]
theorem rsAddU_some {x y : ℕ} (h : x + y ≤ usizeMax) : rsAddU x y = some (x + y) := by simp [rsAddU, h]
theorem rsSubU_some {x y : ℕ} (h : y ≤ x) : rsSubU x y = some (x - y) := by simp [rsSubU, h]
theorem rsIdx_some {l : List α} {i : ℕ} (h : i < l.length) : rsIdx l i = some l[i] := by simp [rsIdx, h]
theorem rsSet_some {l : List α} {i : ℕ} {x : α} (h : i < l.length) : rsSet l i x = some (l.set i x) := by simp [rsSet, h]
theorem rsSlice_some {l : List α} {a b : ℕ} (h : a ≤ b) (h2 : b ≤ l.length) : rsSlice l a b = some ((l.take b).drop a) := by simp [rsSlice, h, h2]
end

/-! ### Verification-condition generation

`wp o Q`: the computation `o` does not fail and its result satisfies `Q`. -/
def wp {α : Type} (o : Option α) (Q : α → Prop) : Prop := ∃ r, o = some r ∧ Q r

section
variable {σ α β : Type}
theorem wp_some {a : α} {Q : α → Prop} (h : Q a) : wp (some a) Q := ⟨a, rfl, h⟩
theorem wp_pure {a : α} {Q : α → Prop} (h : Q a) : wp (pure a) Q := ⟨a, rfl, h⟩
theorem wp_bind {o : Option α} {f : α → Option β} {Q : β → Prop} (h : wp o (fun r => wp (f r) Q)) : wp (o >>= f) Q := by
  obtain ⟨r, rfl, h2⟩ := h; exact h2
theorem wp_bind' {o : Option α} {f : α → Option β} {Q : β → Prop} (h : wp o (fun r => wp (f r) Q)) : wp (o.bind f) Q := wp_bind h
theorem wp_ite {c : Prop} [Decidable c] {a b : Option α} {Q : α → Prop} (h1 : c → wp a Q) (h2 : ¬ c → wp b Q) :
    wp (if c then a else b) Q := by
  by_cases h : c
  · rw [if_pos h]; exact h1 h
  · rw [if_neg h]; exact h2 h
theorem wp_conseq {o : Option α} {P Q : α → Prop} (h : wp o P) (hpq : ∀ r, P r → Q r) : wp o Q := by
  obtain ⟨r, h1, h2⟩ := h; exact ⟨r, h1, hpq r h2⟩
theorem wp_of_eq {o : Option α} {a : α} {Q : α → Prop} (h : o = some a) (hq : Q a) : wp o Q := ⟨a, h, hq⟩
theorem wp_eq {o : Option α} {a : α} : wp o (fun r => r = a) ↔ o = some a := by
  constructor
  · rintro ⟨r, h, rfl⟩; exact h
  · intro h; exact ⟨a, h, rfl⟩
theorem wp_map {o : Option α} {f : α → β} {Q : β → Prop} (h : wp o (fun r => Q (f r))) : wp (o.map f) Q := by
  obtain ⟨r, rfl, h2⟩ := h; exact ⟨f r, rfl, h2⟩
theorem wp_none {Q : α → Prop} (h : False) : wp (none : Option α) Q := h.elim
theorem wp_false {o : Option α} {Q : α → Prop} (h : False) : wp o Q := h.elim

theorem wp_rsFrom {t : IntTy} {x : ℤ} {Q : ℤ → Prop} (h1 : t.lo ≤ x ∧ x ≤ t.hi) (h : Q x) : wp (rsFrom t x) Q := ⟨x, rsFrom_some h1.1 h1.2, h⟩
theorem wp_rsMul {t : IntTy} {x y : ℤ} {Q : ℤ → Prop} (h1 : t.lo ≤ x * y ∧ x * y ≤ t.hi) (h : Q (x * y)) : wp (rsMul t x y) Q := ⟨_, rsMul_some h1.1 h1.2, h⟩
theorem wp_rsAdd {t : IntTy} {x y : ℤ} {Q : ℤ → Prop} (h1 : t.lo ≤ x + y ∧ x + y ≤ t.hi) (h : Q (x + y)) : wp (rsAdd t x y) Q := ⟨_, rsAdd_some h1.1 h1.2, h⟩
theorem wp_rsSub {t : IntTy} {x y : ℤ} {Q : ℤ → Prop} (h1 : t.lo ≤ x - y ∧ x - y ≤ t.hi) (h : Q (x - y)) : wp (rsSub t x y) Q := ⟨_, rsSub_some h1.1 h1.2, h⟩
theorem wp_rsDiv {t : IntTy} {x y : ℤ} {Q : ℤ → Prop} (h1 : t.lo ≤ 0 ∧ 0 ≤ x ∧ 0 < y ∧ x ≤ t.hi) (h : Q (x / y)) : wp (rsDiv t x y) Q :=
  ⟨_, rsDiv_some h1.1 h1.2.1 h1.2.2.1 h1.2.2.2, h⟩
theorem wp_rsRem {t : IntTy} {x y : ℤ} {Q : ℤ → Prop} (h1 : t.lo ≤ 0 ∧ 0 ≤ x ∧ 0 < y ∧ x ≤ t.hi) (h : Q (x % y)) : wp (rsRem t x y) Q :=
  ⟨_, rsRem_some h1.1 h1.2.1 h1.2.2.1 h1.2.2.2, h⟩
theorem wp_rsToUsize {x : ℤ} {Q : ℕ → Prop} (h1 : 0 ≤ x ∧ x ≤ (usizeMax : ℤ)) (h : Q x.toNat) : wp (rsToUsize x) Q := ⟨_, rsToUsize_some h1.1 h1.2, h⟩
theorem wp_rsAddU {x y : ℕ} {Q : ℕ → Prop} (h1 : x + y ≤ usizeMax) (h : Q (x + y)) : wp (rsAddU x y) Q := ⟨_, rsAddU_some h1, h⟩
theorem wp_rsSubU {x y : ℕ} {Q : ℕ → Prop} (h1 : y ≤ x) (h : Q (x - y)) : wp (rsSubU x y) Q := ⟨_, rsSubU_some h1, h⟩
theorem wp_rsIdx {l : List α} {i : ℕ} {Q : α → Prop} (h1 : i < l.length) (h : Q l[i]) : wp (rsIdx l i) Q := ⟨_, rsIdx_some h1, h⟩
theorem wp_rsSet {l : List α} {i : ℕ} {x : α} {Q : List α → Prop} (h1 : i < l.length) (h : Q (l.set i x)) : wp (rsSet l i x) Q := ⟨_, rsSet_some h1, h⟩
theorem wp_rsSlice {l : List α} {a b : ℕ} {Q : List α → Prop} (h1 : a ≤ b ∧ b ≤ l.length) (h : Q ((l.take b).drop a)) : wp (rsSlice l a b) Q :=
  ⟨_, rsSlice_some h1.1 h1.2, h⟩
theorem wp_rsSliceSet {l x : List α} {a b : ℕ} {Q : List α → Prop} (h1 : a ≤ b ∧ b ≤ l.length) (h : Q (l.take a ++ x ++ l.drop b)) :
    wp (rsSliceSet l a b x) Q := ⟨_, by simp [rsSliceSet, h1], h⟩
theorem wp_rsMatGet {m : RMat α} {i j : ℕ} {Q : α → Prop} (h1 : i < m.nrows ∧ j < m.ncols) (h : Q (m.get i j)) : wp (rsMatGet m i j) Q :=
  ⟨_, by simp [rsMatGet, h1], h⟩
theorem wp_rsMatSet {m : RMat α} {i j : ℕ} {x : α} {Q : RMat α → Prop} (h1 : i < m.nrows ∧ j < m.ncols)
    (h : Q ⟨m.nrows, m.ncols, fun a b => if a = i ∧ b = j then x else m.get a b⟩) : wp (rsMatSet m i j x) Q :=
  ⟨_, by simp [rsMatSet, h1], h⟩
theorem wp_rsMatRow {m : RMat α} {i : ℕ} {Q : List α → Prop} (h1 : i < m.nrows) (h : Q ((List.range m.ncols).map (fun j => m.get i j))) :
    wp (rsMatRow m i) Q := ⟨_, by simp [rsMatRow, h1], h⟩
theorem wp_rsMatCol {m : RMat α} {j : ℕ} {Q : List α → Prop} (h1 : j < m.ncols) (h : Q ((List.range m.nrows).map (fun i => m.get i j))) :
    wp (rsMatCol m j) Q := ⟨_, by simp [rsMatCol, h1], h⟩

/-- loop invariant over a checked fold: `I i s` holds before step `i` -/
theorem wp_foldlM {f : σ → α → Option σ} {l : List α} {s : σ} {Q : σ → Prop} (I : ℕ → σ → Prop) (h0 : I 0 s)
    (hs : ∀ i (h : i < l.length) s, I i s → wp (f s l[i]) (I (i+1))) (hq : ∀ s, I l.length s → Q s) :
    wp (List.foldlM f s l) Q := by
  obtain ⟨s', h1, h2⟩ := foldlM_inv f l s I h0 hs
  exact ⟨s', h1, hq s' h2⟩
theorem wp_foldl {f : σ → α → σ} {l : List α} {s : σ} {Q : σ → Prop} (I : ℕ → σ → Prop) (h0 : I 0 s)
    (hs : ∀ i (h : i < l.length) s, I i s → I (i+1) (f s l[i])) (hq : ∀ s, I l.length s → Q s) : Q (List.foldl f s l) :=
  hq _ (foldl_inv f l s I h0 hs)
/-- total correctness of `while`/`loop`: invariant `I`, measure `m`, exit condition `E` -/
theorem wp_rsLoop {f : σ → Option (Bool × σ)} {s : σ} {Q : σ → Prop} (I : σ → Prop) (m : σ → ℕ) (E : σ → Prop) (h0 : I s)
    (hs : ∀ s, I s → wp (f s) (fun r => (r.1 = true → I r.2 ∧ m r.2 < m s) ∧ (r.1 = false → E r.2)))
    (hq : ∀ s, E s → Q s) : wp (rsLoop f s) Q := by
  obtain ⟨r, h1, h2⟩ := rsLoop_inv f I m E s h0 hs
  exact ⟨r, h1, hq r h2⟩
theorem wp_mapM {f : α → Option β} {l : List α} {Q : List β → Prop} (g : α → β) (hf : ∀ x ∈ l, wp (f x) (fun r => r = g x)) (hq : Q (l.map g)) :
    wp (List.mapM f l) Q := ⟨_, mapM_some' f g l (fun x hx => wp_eq.1 (hf x hx)), hq⟩
theorem wp_rsMapAccumM {f : σ → α → Option (σ × β)} {l : List α} {s : σ} {Q : σ × List β → Prop} (g : σ → α → σ × β)
    (hf : ∀ s x, x ∈ l → wp (f s x) (fun r => r = g s x)) (hq : Q (rsMapAccum g s l)) : wp (rsMapAccumM f s l) Q :=
  ⟨_, rsMapAccumM_some f g l s (fun s x hx => wp_eq.1 (hf s x hx)), hq⟩
/-- the same with an invariant on the threaded state -/
theorem wp_rsMapAccumM_inv {f : σ → α → Option (σ × β)} {l : List α} {s : σ} {Q : σ × List β → Prop} (J : σ → Prop) (g : σ → α → σ × β) (h0 : J s)
    (hf : ∀ s x, J s → x ∈ l → wp (f s x) (fun r => r = g s x ∧ J r.1)) (hq : Q (rsMapAccum g s l)) : wp (rsMapAccumM f s l) Q := by
  refine wp_of_eq ?_ hq
  clear hq
  induction l generalizing s with
  | nil => rfl
  | cons x xs ih =>
    obtain ⟨r, h1, h2, h3⟩ := hf s x h0 (by simp)
    subst h2
    simp only [rsMapAccumM, rsMapAccum]
    rw [h1]
    simp only [Option.bind_eq_bind, Option.bind_some]
    rw [ih h3 (fun s y hj hy => hf s y hj (by simp [hy]))]
    rfl
theorem wp_rsModU {x y : ℕ} {Q : ℕ → Prop} (h1 : y ≠ 0) (h : Q (x % y)) : wp (rsModU x y) Q := ⟨_, by simp [rsModU, h1], h⟩
theorem wp_rsDivU {x y : ℕ} {Q : ℕ → Prop} (h1 : y ≠ 0) (h : Q (x / y)) : wp (rsDivU x y) Q := ⟨_, by simp [rsDivU, h1], h⟩
end

open Lean Meta in
/-- beta, zeta and projection-of-constructor reduction, nothing else -/
def rsReduce1 (e : Expr) : MetaM Expr :=
  Core.transform e (post := fun e => do
    let e := e.headBeta
    match e with
    | .letE _ _ v b _ => return .visit (b.instantiate1 v)
    | .proj _ i c =>
      let c := c.consumeMData
      let env ← getEnv
      if let some (.ctorInfo ci) := c.getAppFn.constName?.bind env.find? then
        if c.getAppNumArgs == ci.numParams + ci.numFields then
          return .visit c.getAppArgs[ci.numParams + i]!
      return .done e
    | _ =>
      if let some n := e.getAppFn.constName? then
        if let some info ← getProjectionFnInfo? n then
          let args := e.getAppArgs
          if h : info.numParams < args.size then
            let c := args[info.numParams].consumeMData
            if let some cn := c.getAppFn.constName? then
              if let some (.ctorInfo ci) := (← getEnv).find? cn then
                if !info.fromClass && c.getAppNumArgs == ci.numParams + ci.numFields then
                  let r := mkAppN c.getAppArgs[ci.numParams + info.i]! (args.extract (info.numParams + 1) args.size)
                  return .visit r
      return .done e)
open Lean Elab Tactic Meta in
elab "rs_reduce" : tactic => do
  let g ← getMainGoal
  let t ← instantiateMVars (← g.getType)
  let t' ← rsReduce1 t
  if t' == t then return
  replaceMainGoal [← g.replaceTargetDefEq t']

open Lean Elab Tactic Meta in
/-- one step of verification-condition generation, chosen by the computation at hand
(no rule for loops: a loop needs an invariant) -/
elab "vc1" : tactic => do
  let t ← instantiateMVars (← (← getMainGoal).getType)
  let t := t.consumeMData
  unless t.getAppFn.isConstOf ``wp && t.getAppNumArgs == 3 do throwError "not a wp goal"
  let o := t.getAppArgs[1]!.consumeMData
  let go (s : TSyntax `tactic) : TacticM Unit := evalTactic s
  match o.getAppFn.constName? with
  | some ``Option.some => go (← `(tactic| refine wp_some ?_))
  | some ``Option.none => go (← `(tactic| refine wp_none ?_))
  | some ``Bind.bind => go (← `(tactic| refine wp_bind ?_))
  | some ``Option.bind => go (← `(tactic| refine wp_bind' ?_))
  | some ``Option.map => go (← `(tactic| refine wp_map ?_))
  | some ``Pure.pure => go (← `(tactic| refine wp_pure ?_))
  | some ``ite => go (← `(tactic| (refine wp_ite ?_ ?_ <;> intro _)))
  | some ``rsFrom => go (← `(tactic| refine wp_rsFrom ?_ ?_))
  | some ``rsMul => go (← `(tactic| refine wp_rsMul ?_ ?_))
  | some ``rsAdd => go (← `(tactic| refine wp_rsAdd ?_ ?_))
  | some ``rsSub => go (← `(tactic| refine wp_rsSub ?_ ?_))
  | some ``rsDiv => go (← `(tactic| refine wp_rsDiv ?_ ?_))
  | some ``rsRem => go (← `(tactic| refine wp_rsRem ?_ ?_))
  | some ``rsToUsize => go (← `(tactic| refine wp_rsToUsize ?_ ?_))
  | some ``rsAddU => go (← `(tactic| refine wp_rsAddU ?_ ?_))
  | some ``rsSubU => go (← `(tactic| refine wp_rsSubU ?_ ?_))
  | some ``rsModU => go (← `(tactic| refine wp_rsModU ?_ ?_))
  | some ``rsDivU => go (← `(tactic| refine wp_rsDivU ?_ ?_))
  | some ``rsIdx => go (← `(tactic| refine wp_rsIdx ?_ ?_))
  | some ``rsSet => go (← `(tactic| refine wp_rsSet ?_ ?_))
  | some ``rsSlice => go (← `(tactic| refine wp_rsSlice ?_ ?_))
  | some ``rsSliceSet => go (← `(tactic| refine wp_rsSliceSet ?_ ?_))
  | some ``rsMatGet => go (← `(tactic| refine wp_rsMatGet ?_ ?_))
  | some ``rsMatSet => go (← `(tactic| refine wp_rsMatSet ?_ ?_))
  | some ``rsMatRow => go (← `(tactic| refine wp_rsMatRow ?_ ?_))
  | some ``rsMatCol => go (← `(tactic| refine wp_rsMatCol ?_ ?_))
  | some n =>
    if n.getPrefix == `Gen then go (← `(tactic| simp only [rs_spec])) else throwError "no rule"
  | _ => throwError "no rule"
open Lean Elab Tactic Meta in
/-- succeeds only on a `wp` goal -/
elab "is_wp" : tactic => do
  let t ← instantiateMVars (← (← getMainGoal).getType)
  unless t.consumeMData.getAppFn.isConstOf ``wp do throwError "not a wp goal"
/-- generate verification conditions up to the next loop or call -/
macro "vcg" : tactic => `(tactic| repeat' (is_wp; rs_reduce; vc1))
/-! ### normal forms of loops: what a fold computes, however it is written -/
section
variable {α β M : Type}
@[rs_norm] theorem nf_foldl_add [AddCommMonoid M] (g : α → M) (l : List α) (s : M) : l.foldl (fun s x => s + g x) s = s + (l.map g).sum := by
  induction l generalizing s with
  | nil => simp
  | cons a t ih => simp [ih, add_assoc]
@[rs_norm] theorem nf_foldl_add' [AddCommMonoid M] (g : α → M) (l : List α) (s : M) : l.foldl (fun s x => g x + s) s = s + (l.map g).sum := by
  rw [← nf_foldl_add]; congr; ext; rw [add_comm]
@[rs_norm] theorem nf_foldl_mul [CommMonoid M] (g : α → M) (l : List α) (s : M) : l.foldl (fun s x => s * g x) s = s * (l.map g).prod := by
  induction l generalizing s with
  | nil => simp
  | cons a t ih => simp [ih, mul_assoc]
@[rs_norm] theorem nf_foldl_mul' [CommMonoid M] (g : α → M) (l : List α) (s : M) : l.foldl (fun s x => g x * s) s = s * (l.map g).prod := by
  rw [← nf_foldl_mul]; congr; ext; rw [mul_comm]
@[rs_norm] theorem nf_foldl_add0 [AddCommMonoid M] (l : List M) (s : M) : l.foldl (fun s x => s + x) s = s + l.sum := by
  simpa using nf_foldl_add (fun x => x) l s
@[rs_norm] theorem nf_foldl_add0' [AddCommMonoid M] (l : List M) (s : M) : l.foldl (fun s x => x + s) s = s + l.sum := by
  simpa using nf_foldl_add' (fun x => x) l s
@[rs_norm] theorem nf_foldl_mul0 [CommMonoid M] (l : List M) (s : M) : l.foldl (fun s x => s * x) s = s * l.prod := by
  simpa using nf_foldl_mul (fun x => x) l s
@[rs_norm] theorem nf_foldl_mul0' [CommMonoid M] (l : List M) (s : M) : l.foldl (fun s x => x * s) s = s * l.prod := by
  simpa using nf_foldl_mul' (fun x => x) l s
@[rs_norm] theorem nf_foldl_push0 (l : List β) (s : List β) : l.foldl (fun s x => s ++ [x]) s = s ++ l := by
  induction l generalizing s with
  | nil => simp
  | cons a t ih => simp [ih]
@[rs_norm] theorem nf_foldl_push_if0 (p : β → Prop) [DecidablePred p] (l : List β) (s : List β) :
    l.foldl (fun s x => if p x then s ++ [x] else s) s = s ++ l.filter (fun x => decide (p x)) := by
  induction l generalizing s with
  | nil => simp
  | cons a t ih => by_cases h : p a <;> simp [ih, h]
@[rs_norm] theorem nf_foldl_push (g : α → β) (l : List α) (s : List β) : l.foldl (fun s x => s ++ [g x]) s = s ++ l.map g := by
  induction l generalizing s with
  | nil => simp
  | cons a t ih => simp [ih]
@[rs_norm] theorem nf_foldl_push_if (p : α → Prop) [DecidablePred p] (g : α → β) (l : List α) (s : List β) :
    l.foldl (fun s x => if p x then s ++ [g x] else s) s = s ++ (l.filter (fun x => decide (p x))).map g := by
  induction l generalizing s with
  | nil => simp
  | cons a t ih => by_cases h : p a <;> simp [ih, h]
@[rs_norm] theorem nf_foldl_push_ifn (p : α → Prop) [DecidablePred p] (g : α → β) (l : List α) (s : List β) :
    l.foldl (fun s x => if p x then s else s ++ [g x]) s = s ++ (l.filter (fun x => decide (¬ p x))).map g := by
  induction l generalizing s with
  | nil => simp
  | cons a t ih => by_cases h : p a <;> simp [ih, h]
theorem nf_ite_mk {σ τ : Type} (c : Prop) [Decidable c] (a : σ) (b : τ) (s : σ × τ) : (if c then (a, b) else s) = (if c then a else s.1, if c then b else s.2) := by
  split_ifs <;> rfl
theorem nf_ite_mk' {σ τ : Type} (c : Prop) [Decidable c] (a : σ) (b : τ) (s : σ × τ) : (if c then s else (a, b)) = (if c then s.1 else a, if c then s.2 else b) := by
  split_ifs <;> rfl
theorem nf_ite_nest {σ : Type} (p q : Prop) [Decidable p] [Decidable q] (a b : σ) : (if p then a else if q then b else a) = (if ¬ p ∧ q then b else a) := by
  by_cases p <;> by_cases q <;> simp_all
theorem nf_le_and_lt (a b : ℝ) : (a ≤ b ∧ a < b) ↔ a < b := ⟨fun h => h.2, fun h => ⟨h.le, h⟩⟩
theorem nf_ge_and_lt (a b : ℝ) : (¬ b < a ∧ a < b) ↔ a < b := ⟨fun h => h.2, fun h => ⟨not_lt.2 h.le, h⟩⟩
@[rs_norm] theorem nf_mapM_some (g : α → β) (l : List α) : List.mapM (fun x => some (g x)) l = some (l.map g) :=
  mapM_some' _ g l (fun _ _ => rfl)
@[rs_norm] theorem nf_mapM_some0 (l : List α) : List.mapM (fun x => some x) l = some l := by
  simpa using nf_mapM_some (fun x => x) l
@[rs_norm] theorem nf_foldlM_some {σ : Type} (g : σ → α → σ) (l : List α) (s : σ) : List.foldlM (fun s x => some (g s x)) s l = some (l.foldl g s) :=
  foldlM_some _ g l s (fun _ _ _ => rfl)
@[rs_norm] theorem nf_bind_some {σ : Type} (a : σ) (f : σ → Option β) : (some a >>= f) = f a := rfl
theorem nf_foldl_pair {σ τ : Type} (f : σ → α → σ) (g : τ → α → τ) (l : List α) (s : σ × τ) :
    l.foldl (fun s x => (f s.1 x, g s.2 x)) s = (l.foldl f s.1, l.foldl g s.2) := by
  induction l generalizing s with
  | nil => rfl
  | cons a t ih => simp [ih]
theorem nf_map_id (l : List α) : l.map (fun x => x) = l := List.map_id' l
theorem nf_list_zero_add (s : List α) : [] ++ s = s := rfl
end
attribute [rs_norm] nf_ite_mk nf_ite_mk' nf_ite_nest ite_self nf_le_and_lt nf_ge_and_lt gt_iff_lt ge_iff_le nf_map_id nf_list_zero_add zero_add one_mul List.map_map Function.comp_def
open Lean Meta in
/-- a fold over a pair whose components do not read each other is a pair of folds -/
simproc_decl nfPair (List.foldl _ _ _) := fun e => do
  let_expr List.foldl σ α f s l := e | return .continue
  let σ ← whnfR σ
  let_expr Prod _ _ := σ | return .continue
  let .lam n1 _ (.lam n2 t2 b _) _ := f | return .continue
  let_expr Prod.mk A B p q := b | return .continue
  withLocalDeclD n1 σ fun sv => withLocalDeclD n2 t2 fun xv => do
    let p := p.instantiateRev #[sv, xv]
    let q := q.instantiateRev #[sv, xv]
    let proj (n : Name) (v e : Expr) : Expr := e.replace fun x =>
      if x.isAppOfArity n 3 && x.appArg! == sv then some v
      else match x with
        | .proj ``Prod i c => if c == sv && (i == 0) == (n == ``Prod.fst) then some v else none
        | _ => none
    withLocalDeclD `a A fun a => withLocalDeclD `b B fun bv => do
      let p' := proj ``Prod.fst a p
      let q' := proj ``Prod.snd bv q
      if p'.containsFVar sv.fvarId! || q'.containsFVar sv.fvarId! then return .continue
      let F ← mkLambdaFVars #[a, xv] p'
      let G ← mkLambdaFVars #[bv, xv] q'
      let pr ← mkAppOptM ``nf_foldl_pair #[some α, some A, some B, some F, some G, some l, some s]
      let some (_, _, rhs) := (← inferType pr).eq? | return .continue
      return .visit { expr := rhs.headBeta, proof? := some (← mkExpectedTypeHint pr (← mkEq e rhs)) }
attribute [rs_norm] nfPair
/-- unfold the helpers that are not under a contract of their own -/
macro "rs_inl" : tactic => `(tactic| try simp only [rs_inline])
/-- ... and bring loops to normal form -/
macro "rs_inl!" : tactic => `(tactic| (try simp only [rs_inline]; try simp only [rs_norm, nfPair]))


/-- closes a goal about pure values left by `vcg`: the two sides agree up to ring normal form, case splits on
conditions and empty lists -/
macro "rs_close1" : tactic => `(tactic| first
  | with_reducible rfl
  | omega
  | assumption
  | (ring_nf; done)
  | (simp; done)
  | (simp; ring_nf; done)
  | (simp; ring_nf; simp; done)
  | (simp_all; done)
  | (simp_all; ring_nf; done)
  | (simp_all; ring_nf; simp; done))
syntax "rs_done" "[" Lean.Parser.Tactic.simpLemma,* "]" : tactic
macro_rules
  | `(tactic| rs_done [$ls,*]) => `(tactic| (
      all_goals try rs_reduce
      all_goals try simp only [pow_two, rs_norm, nfPair, $ls,*]
      all_goals try split_ifs
      all_goals try refine Prod.ext ?_ ?_
      all_goals rs_close1))

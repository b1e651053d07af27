/-
Semantics of the Rust operations the extractor emits.  `none` = panic / overflow /
out-of-bounds / non-termination.  This file is part of the trusted base.
-/
import RsAttr
set_option linter.all false
open Classical

/-! ### Integers -/
structure IntTy where
  lo : ℤ
  hi : ℤ
namespace IntTy
def u8 : IntTy := ⟨0, 2^8-1⟩
def u16 : IntTy := ⟨0, 2^16-1⟩
def u32 : IntTy := ⟨0, 2^32-1⟩
def u64 : IntTy := ⟨0, 2^64-1⟩
def u128 : IntTy := ⟨0, 2^128-1⟩
def usize : IntTy := ⟨0, 2^64-1⟩
def i8 : IntTy := ⟨-2^7, 2^7-1⟩
def i16 : IntTy := ⟨-2^15, 2^15-1⟩
def i32 : IntTy := ⟨-2^31, 2^31-1⟩
def i64 : IntTy := ⟨-2^63, 2^63-1⟩
def i128 : IntTy := ⟨-2^127, 2^127-1⟩
def isize : IntTy := ⟨-2^63, 2^63-1⟩
/-- representable -/
def mem (t : IntTy) (x : ℤ) : Prop := t.lo ≤ x ∧ x ≤ t.hi
/-- one of the twelve primitive types, as far as the arguments need it -/
structure Ok (t : IntTy) : Prop where
  lo : t.lo ≤ 0
  hi : 127 ≤ t.hi
end IntTy

@[irreducible] def usizeMax : ℕ := 2^64-1

noncomputable def rsFrom (t : IntTy) (x : ℤ) : Option ℤ := if t.lo ≤ x ∧ x ≤ t.hi then some x else none
/-- `as` to a fixed width -/
noncomputable def rsWrap (t : IntTy) (x : ℤ) : ℤ := (x - t.lo) % (t.hi - t.lo + 1) + t.lo
noncomputable def rsAdd (t : IntTy) (x y : ℤ) : Option ℤ := rsFrom t (x + y)
noncomputable def rsSub (t : IntTy) (x y : ℤ) : Option ℤ := rsFrom t (x - y)
noncomputable def rsMul (t : IntTy) (x y : ℤ) : Option ℤ := rsFrom t (x * y)
noncomputable def rsNeg (t : IntTy) (x : ℤ) : Option ℤ := rsFrom t (-x)
noncomputable def rsDiv (t : IntTy) (x y : ℤ) : Option ℤ := if y = 0 then none else rsFrom t (x.tdiv y)
noncomputable def rsRem (t : IntTy) (x y : ℤ) : Option ℤ :=
  if y = 0 then none else if t.lo ≤ x.tdiv y ∧ x.tdiv y ≤ t.hi then some (x.tmod y) else none
noncomputable def rsPow (t : IntTy) (x : ℤ) (n : ℕ) : Option ℤ := rsFrom t (x ^ n)
noncomputable def rsAnd (x y : ℤ) : ℤ := Int.land x y
noncomputable def rsToUsize (x : ℤ) : Option ℕ := if 0 ≤ x ∧ x ≤ (usizeMax : ℤ) then some x.toNat else none
noncomputable def rsAsUsize (x : ℤ) : ℕ := (x % (2^64 : ℤ)).toNat
noncomputable def rsAddU (x y : ℕ) : Option ℕ := if x + y ≤ usizeMax then some (x + y) else none
noncomputable def rsMulU (x y : ℕ) : Option ℕ := if x * y ≤ usizeMax then some (x * y) else none
noncomputable def rsSubU (x y : ℕ) : Option ℕ := if y ≤ x then some (x - y) else none
noncomputable def rsDivU (x y : ℕ) : Option ℕ := if y = 0 then none else some (x / y)
noncomputable def rsModU (x y : ℕ) : Option ℕ := if y = 0 then none else some (x % y)

/-! ### Scalars -/
/-- abstract scalar arithmetic: only what holds for IEEE arithmetic bit for bit is assumed -/
class RsScalar (K : Type) extends Add K, Mul K, Sub K, Neg K, Div K, Zero K, One K where
  ofNat' : ℕ → K
  ofInt' : ℤ → K
  add_comm' : ∀ a b : K, a + b = b + a
  mul_comm' : ∀ a b : K, a * b = b * a
  fma : K → K → K → K
instance (K : Type) [RsScalar K] : NatCast K := ⟨RsScalar.ofNat'⟩
instance (K : Type) [RsScalar K] : IntCast K := ⟨RsScalar.ofInt'⟩
noncomputable instance : RsScalar ℝ where
  ofNat' := fun n => (n : ℝ)
  ofInt' := fun n => (n : ℝ)
  add_comm' := add_comm
  mul_comm' := mul_comm
  fma := fun a b c => a * b + c
def rsFma {K} [RsScalar K] (a b c : K) : K := RsScalar.fma a b c
def rsSumK {K} [RsScalar K] (l : List K) : K := l.foldl (· + ·) 0
def rsProdK {K} [RsScalar K] (l : List K) : K := l.foldl (· * ·) 1

noncomputable def rsTrunc (x : ℝ) : ℝ := if 0 ≤ x then ((⌊x⌋ : ℤ) : ℝ) else ((⌈x⌉ : ℤ) : ℝ)
noncomputable def rsFmod (x y : ℝ) : ℝ := x - y * rsTrunc (x / y)
noncomputable def rsRemEuclid (x y : ℝ) : ℝ := let r := rsFmod x y; if r < 0 then r + |y| else r
/-- machine epsilon: some positive real, nothing else is known about it -/
opaque rsEps' : {x : ℝ // 0 < x} := ⟨1, one_pos⟩
noncomputable def rsEps : ℝ := rsEps'.1
/-- principal complex square root -/
noncomputable def rsCsqrt (z : ℂ) : ℂ := z ^ ((1 : ℂ) / 2)

noncomputable def rsCmp {α : Type} [LT α] (a b : α) : Ordering :=
  if a < b then Ordering.lt else if b < a then Ordering.gt else Ordering.eq

/-! ### Sequences -/
def rsIdx {α : Type} (l : List α) (i : ℕ) : Option α := l[i]?
def rsSet {α : Type} (l : List α) (i : ℕ) (x : α) : Option (List α) := if i < l.length then some (l.set i x) else none
def rsSlice {α : Type} (l : List α) (a b : ℕ) : Option (List α) :=
  if a ≤ b ∧ b ≤ l.length then some ((l.take b).drop a) else none
def rsSliceSet {α : Type} (l : List α) (a b : ℕ) (x : List α) : Option (List α) :=
  if a ≤ b ∧ b ≤ l.length then some (l.take a ++ x ++ l.drop b) else none
/-- write a prefix -/
def rsOverwrite {α : Type} (l x : List α) : List α := x ++ l.drop x.length
/-- next_power_of_two (1 for 0) -/
def rsNextPow2 (n : ℕ) : ℕ := 2 ^ Nat.clog 2 n
def rsRange (a b : ℕ) : List ℕ := List.range' a (b - a)
def rsIRange (a b : ℤ) : List ℤ := (List.range (b - a).toNat).map (fun i : ℕ => a + (i : ℤ))
def rsEnum {α : Type} (l : List α) : List (ℕ × α) := List.zip (List.range l.length) l
def rsMapAccum {σ α β : Type} (f : σ → α → σ × β) : σ → List α → σ × List β
  | s, [] => (s, [])
  | s, x :: xs =>
    let r := f s x
    let t := rsMapAccum f r.1 xs
    (t.1, r.2 :: t.2)
def rsMapAccumM {σ α β : Type} (f : σ → α → Option (σ × β)) : σ → List α → Option (σ × List β)
  | s, [] => some (s, [])
  | s, x :: xs => f s x >>= fun r => rsMapAccumM f r.1 xs >>= fun t => some (t.1, r.2 :: t.2)
/-- `for` with early exit: the body says whether to go on -/
def rsForBrk {σ α : Type} (f : σ → α → Option (Bool × σ)) : σ → List α → Option σ
  | s, [] => some s
  | s, x :: xs => f s x >>= fun r => if r.1 = true then rsForBrk f r.2 xs else some r.2
/-- `while`/`loop`: the body says whether to go on; divergence is `none` -/
def rsLoop {σ : Type} (f : σ → Option (Bool × σ)) (s : σ) : Option σ :=
  f s >>= fun r => if r.1 = true then rsLoop f r.2 else some r.2
partial_fixpoint
def rsFilterM {α : Type} (p : α → Option Bool) : List α → Option (List α)
  | [] => some []
  | x :: xs => p x >>= fun b => rsFilterM p xs >>= fun r => some (if b then x :: r else r)
def rsFindM {α : Type} (p : α → Option Bool) : List α → Option (Option α)
  | [] => some none
  | x :: xs => p x >>= fun b => if b then some (some x) else rsFindM p xs
/-- full chunks of length n -/
def rsChunks {α : Type} (n : ℕ) (l : List α) : List (List α) :=
  (List.range (l.length / n)).map (fun i => (l.drop (i * n)).take n)
def rsRemainder {α : Type} (n : ℕ) (l : List α) : List α := l.drop (l.length / n * n)
def rsChunksAll {α : Type} (n : ℕ) (l : List α) : List (List α) :=
  (List.range ((l.length + n - 1) / n)).map (fun i => (l.drop (i * n)).take n)
def rsWindows {α : Type} (n : ℕ) (l : List α) : List (List α) :=
  (List.range (l.length + 1 - n)).map (fun i => (l.drop i).take n)
def rsStepBy {α : Type} (n : ℕ) (l : List α) : List α :=
  (List.range ((l.length + n - 1) / n)).filterMap (fun i => l[i * n]?)
def rsTuples2 {α : Type} : List α → List (α × α)
  | a :: b :: t => (a, b) :: rsTuples2 t
  | _ => []
def rsTuples3 {α : Type} : List α → List (α × α × α)
  | a :: b :: c :: t => (a, b, c) :: rsTuples3 t
  | _ => []
def rsTuples4 {α : Type} : List α → List (α × α × α × α)
  | a :: b :: c :: d :: t => (a, b, c, d) :: rsTuples4 t
  | _ => []
def rsTuples6 {α : Type} : List α → List (α × α × α × α × α × α)
  | a :: b :: c :: d :: e :: f :: t => (a, b, c, d, e, f) :: rsTuples6 t
  | _ => []
def rsArrOfList {α : Type} {n : ℕ} (old : Fin n → α) (l : List α) : Fin n → α := fun i => (l[i.1]?).getD (old i)
def rsReduce {α : Type} (f : α → α → α) : List α → Option α
  | [] => none
  | x :: xs => some (xs.foldl f x)
def rsMinBy {α : Type} (cmp : α → α → Ordering) (l : List α) : Option α :=
  rsReduce (fun x y => match cmp x y with | Ordering.gt => y | _ => x) l
def rsMaxBy {α : Type} (cmp : α → α → Ordering) (l : List α) : Option α :=
  rsReduce (fun x y => match cmp x y with | Ordering.gt => x | _ => y) l
def rsSortBy {α : Type} (cmp : α → α → Ordering) (l : List α) : List α :=
  l.mergeSort (fun a b => cmp a b != Ordering.gt)
/-- `sort_unstable_by`: some permutation, sorted when the comparator is a total preorder -/
opaque rsSortUnst' {α : Type} (cmp : α → α → Ordering) (l : List α) :
    {r : List α // r.Perm l ∧
      ((∀ a b, cmp a b = Ordering.gt → cmp b a ≠ Ordering.gt) →
       (∀ a b c, cmp a b ≠ Ordering.gt → cmp b c ≠ Ordering.gt → cmp a c ≠ Ordering.gt) →
        r.Pairwise (fun a b => cmp a b ≠ Ordering.gt))} :=
  ⟨rsSortBy cmp l, List.mergeSort_perm _ _, fun ht htr => by
    have := List.pairwise_mergeSort (le := fun a b => cmp a b != Ordering.gt)
      (fun a b c h1 h2 => by simp only [bne_iff_ne, ne_eq] at *; exact htr a b c h1 h2)
      (fun a b => by
        by_cases h : cmp a b = Ordering.gt
        · simp [h]; exact ht a b h
        · simp [h]) l
    exact this.imp (fun h => by simpa using h)⟩
def rsSortUnst {α : Type} (cmp : α → α → Ordering) (l : List α) : List α := (rsSortUnst' cmp l).1
def rsInsert {α : Type} (l : List α) (i : ℕ) (x : α) : Option (List α) :=
  if i ≤ l.length then some (l.take i ++ x :: l.drop i) else none
def rsResize {α : Type} (l : List α) (n : ℕ) (x : α) : List α := l.take n ++ List.replicate (n - l.length) x
def rsSwap {α : Type} (l : List α) (i j : ℕ) : Option (List α) :=
  rsIdx l i >>= fun a => rsIdx l j >>= fun b => some ((l.set i b).set j a)
def rsRotR {α : Type} (l : List α) (k : ℕ) : List α := l.drop (l.length - k) ++ l.take (l.length - k)
def rsRotL {α : Type} (l : List α) (k : ℕ) : List α := l.drop k ++ l.take k
def rsSplitFirst {α : Type} : List α → Option (α × List α)
  | [] => none
  | x :: xs => some (x, xs)
def rsSplitLast {α : Type} (l : List α) : Option (α × List α) := l.getLast?.map (fun x => (x, l.dropLast))

/-! ### Matrices (column-major) -/
structure RMat (α : Type) where
  nrows : ℕ
  ncols : ℕ
  get : ℕ → ℕ → α
def rsMatZeros {α : Type} [Zero α] (r c : ℕ) : RMat α := ⟨r, c, fun _ _ => 0⟩
def rsMatGet {α : Type} (m : RMat α) (i j : ℕ) : Option α := if i < m.nrows ∧ j < m.ncols then some (m.get i j) else none
def rsMatSet {α : Type} (m : RMat α) (i j : ℕ) (x : α) : Option (RMat α) :=
  if i < m.nrows ∧ j < m.ncols then
    some ⟨m.nrows, m.ncols, fun a b => if a = i ∧ b = j then x else m.get a b⟩ else none
def rsMatToList {α : Type} (m : RMat α) : List α :=
  (List.range (m.nrows * m.ncols)).map (fun k => m.get (k % m.nrows) (k / m.nrows))
def rsMatLin {α : Type} (m : RMat α) (k : ℕ) : Option α :=
  if k < m.nrows * m.ncols then some (m.get (k % m.nrows) (k / m.nrows)) else none
def rsMatSetLin {α : Type} (m : RMat α) (k : ℕ) (x : α) : Option (RMat α) :=
  if k < m.nrows * m.ncols then rsMatSet m (k % m.nrows) (k / m.nrows) x else none
/-- from_iterator: the item count must be exactly r*c -/
def rsMatOfList {α : Type} [Inhabited α] (r c : ℕ) (l : List α) : Option (RMat α) :=
  if l.length = r * c then some ⟨r, c, fun i j => (l[j * r + i]?).getD default⟩ else none
def rsMatOfVec {α : Type} [Inhabited α] (l : List α) : RMat α := ⟨l.length, 1, fun i _ => (l[i]?).getD default⟩
def rsMatDiag {α : Type} [Zero α] (r c : ℕ) (x : α) : RMat α := ⟨r, c, fun i j => if i = j then x else 0⟩
/-- all entries are computed; any failing entry fails the construction -/
noncomputable def rsMatFromFnM {α : Type} [Inhabited α] (r c : ℕ) (f : ℕ → ℕ → Option α) : Option (RMat α) :=
  if ∀ i < r, ∀ j < c, f i j ≠ none then some ⟨r, c, fun i j => (f i j).getD default⟩ else none
def rsMatSub {α : Type} [Sub α] (a b : RMat α) : Option (RMat α) :=
  if a.nrows = b.nrows ∧ a.ncols = b.ncols then some ⟨a.nrows, a.ncols, fun i j => a.get i j - b.get i j⟩ else none
def rsMatAdd {α : Type} [Add α] (a b : RMat α) : Option (RMat α) :=
  if a.nrows = b.nrows ∧ a.ncols = b.ncols then some ⟨a.nrows, a.ncols, fun i j => a.get i j + b.get i j⟩ else none
def rsMatRow {α : Type} (m : RMat α) (i : ℕ) : Option (List α) :=
  if i < m.nrows then some ((List.range m.ncols).map (fun j => m.get i j)) else none
def rsMatCol {α : Type} (m : RMat α) (j : ℕ) : Option (List α) :=
  if j < m.ncols then some ((List.range m.nrows).map (fun i => m.get i j)) else none
def rsMatT {α : Type} (m : RMat α) : RMat α := ⟨m.ncols, m.nrows, fun i j => m.get j i⟩
def rsMatMap {α β : Type} (f : α → β) (m : RMat α) : RMat β := ⟨m.nrows, m.ncols, fun i j => f (m.get i j)⟩
def rsMatOverwrite {α : Type} (m : RMat α) (l : List α) : RMat α :=
  ⟨m.nrows, m.ncols, fun i j => (l[j * m.nrows + i]?).getD (m.get i j)⟩

/-! ### Dependencies -/
section
open Matrix Finset
/-- a minimum-norm solution of the normal equations exists -/
theorem lstsq_exists {m n : ℕ} (A : Matrix (Fin m) (Fin n) ℝ) (y : Fin m → ℝ) :
    ∃ u : Fin m → ℝ, Aᵀ *ᵥ (A *ᵥ (Aᵀ *ᵥ u) - y) = 0 := by
  have inj : ∀ v : Fin n → ℝ, Aᵀ *ᵥ (A *ᵥ v) = 0 → A *ᵥ v = 0 := by
    intro v h
    have := congrArg (fun w => v ⬝ᵥ w) h
    simp only [dotProduct_zero] at this
    rw [dotProduct_mulVec, vecMul_transpose] at this
    exact dotProduct_self_eq_zero.1 this
  have inj2 : ∀ u : Fin m → ℝ, A *ᵥ (Aᵀ *ᵥ u) = 0 → Aᵀ *ᵥ u = 0 := by
    intro u h
    have := congrArg (fun w => u ⬝ᵥ w) h
    simp only [dotProduct_zero] at this
    rw [dotProduct_mulVec, ← mulVec_transpose] at this
    exact dotProduct_self_eq_zero.1 this
  let T : (Fin m → ℝ) →ₗ[ℝ] (Fin n → ℝ) := Aᵀ.mulVecLin
  let S : (Fin m → ℝ) →ₗ[ℝ] (Fin n → ℝ) := Aᵀ.mulVecLin ∘ₗ A.mulVecLin ∘ₗ Aᵀ.mulVecLin
  have hk : LinearMap.ker S = LinearMap.ker T := by
    ext u
    simp only [LinearMap.mem_ker, S, T, LinearMap.comp_apply, mulVecLin_apply]
    constructor
    · intro h; exact inj2 u (inj _ h)
    · intro h; rw [h]; simp
  have hr : LinearMap.range S = LinearMap.range T := by
    apply Submodule.eq_of_le_of_finrank_eq
    · rintro _ ⟨u, rfl⟩
      exact ⟨A *ᵥ (Aᵀ *ᵥ u), rfl⟩
    · have h1 := LinearMap.finrank_range_add_finrank_ker S
      have h2 := LinearMap.finrank_range_add_finrank_ker T
      rw [hk] at h1
      omega
  have : T y ∈ LinearMap.range S := by rw [hr]; exact ⟨y, rfl⟩
  obtain ⟨u, hu⟩ := this
  refine ⟨u, ?_⟩
  rw [mulVec_sub, sub_eq_zero]
  exact hu
/-- what the least-squares crate is assumed to return: a solution of the normal equations in the row space -/
def LstsqSpec (m : RMat ℝ) (y r : List ℝ) : Prop :=
  r.length = m.ncols ∧
  (∀ j < m.ncols, ∑ i ∈ range m.nrows, m.get i j * ((∑ k ∈ range m.ncols, m.get i k * r.getD k 0) - y.getD i 0) = 0) ∧
  ∃ u : ℕ → ℝ, ∀ j < m.ncols, r.getD j 0 = ∑ i ∈ range m.nrows, m.get i j * u i
theorem LstsqSpec_exists (m : RMat ℝ) (y : List ℝ) : ∃ r, LstsqSpec m y r := by
  obtain ⟨u, hu⟩ := lstsq_exists (m := m.nrows) (n := m.ncols) (fun i j => m.get i j) (fun i => y.getD i 0)
  have hc : ∀ j < m.ncols, ((List.range m.ncols).map (fun j => ∑ i : Fin m.nrows, m.get i j * u i)).getD j 0 = ∑ i : Fin m.nrows, m.get i j * u i := by
    intro j hj
    rw [List.getD_eq_getElem _ _ (by simpa using hj)]; simp
  refine ⟨(List.range m.ncols).map (fun j => ∑ i : Fin m.nrows, m.get i j * u i), by simp, ?_, fun i => if h : i < m.nrows then u ⟨i, h⟩ else 0, ?_⟩
  · intro j hj
    have h := congrFun hu ⟨j, hj⟩
    simp only [mulVec, dotProduct, transpose_apply, Pi.zero_apply, Pi.sub_apply] at h
    refine Eq.trans ?_ h
    rw [Finset.sum_range]
    refine Finset.sum_congr rfl (fun i _ => ?_)
    rw [Finset.sum_range]
    have e : ∀ k : Fin m.ncols, ((List.range m.ncols).map (fun j => ∑ i : Fin m.nrows, m.get i j * u i)).getD k 0 = ∑ i : Fin m.nrows, m.get i k * u i := fun k => hc k k.2
    simp only [e]
    rfl
  · intro j hj
    rw [hc j hj, Finset.sum_range]
    exact Finset.sum_congr rfl (fun i _ => by simp)
end
/-- `lstsq::lstsq(a, y, eps)` (an external crate, by SVD).  Assumed contract: for matching sizes and a threshold
of at most 1e-9 it returns the minimum-norm least-squares solution (no singular value at or below the
threshold, exact arithmetic); nothing is known otherwise. -/
noncomputable opaque rsLstsq' (m : RMat ℝ) (y : List ℝ) (eps : ℝ) :
    {r : Option (List ℝ) // m.nrows = y.length → 0 ≤ eps → eps ≤ 1e-9 → ∃ c, r = some c ∧ LstsqSpec m y c} :=
  ⟨some (Classical.choose (LstsqSpec_exists m y)), fun _ _ _ => ⟨_, rfl, Classical.choose_spec (LstsqSpec_exists m y)⟩⟩
noncomputable def rsLstsq (m : RMat ℝ) (y : List ℝ) (eps : ℝ) : Option (List ℝ) := (rsLstsq' m y eps).1
/-- rustfft: unnormalised DFT of exactly `n` samples (forward kernel `e^{-2πi jk/n}`) -/
noncomputable def rsDft (n : ℕ) (fwd : Bool) (buf : List ℂ) : List ℂ :=
  (List.range n).map (fun k : ℕ => ((List.range n).map (fun j : ℕ =>
    (buf[j]?).getD 0 * Complex.exp ((if fwd then -1 else 1) * (2 * Real.pi * Complex.I * (j : ℂ) * (k : ℂ) / (n : ℂ))))).sum)
noncomputable def rsFftProcess (n : ℕ) (fwd : Bool) (buf : List ℂ) : Option (List ℂ) :=
  if buf.length = n then some (rsDft n fwd buf) else none
theorem usizeMax_val : usizeMax = 2^64-1 := by unfold usizeMax; rfl

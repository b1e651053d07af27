/-
C03  Permutation counts and Stirling numbers are exact wherever representable.
-/
import RsLemmas
import Gen.Perm
set_option linter.all false
open Classical Gen
namespace C03

/-- what is used of the twelve primitive types -/
structure Prim (t : IntTy) : Prop where
  lo : t.lo ≤ 0
  hi : 127 ≤ t.hi
  top : t.hi < 2 ^ 128

theorem fact_lt {n : ℕ} (h : (n.factorial : ℤ) < 2 ^ 128) : n ≤ 34 := by
  by_contra hn
  have h1 : Nat.factorial 35 ≤ n.factorial := Nat.factorial_le (by omega)
  have h2 : (2:ℤ) ^ 128 ≤ (Nat.factorial 35 : ℕ) := by norm_num [Nat.factorial]
  have h3 : ((Nat.factorial 35 : ℕ) : ℤ) ≤ n.factorial := by exact_mod_cast h1
  omega
theorem desc_mono {n i j : ℕ} (hij : i ≤ j) (hj : j ≤ n) : n.descFactorial i ≤ n.descFactorial j := by
  induction j, hij using Nat.le_induction with
  | base => exact le_rfl
  | succ j hj' ih =>
    refine le_trans (ih (by omega)) ?_
    rw [Nat.descFactorial_succ]
    exact Nat.le_mul_of_pos_left _ (by omega)
theorem fact_le_desc {n k : ℕ} (h : k ≤ n) : k.factorial ≤ n.descFactorial k := by
  rw [Nat.descFactorial_eq_factorial_mul_choose]
  exact Nat.le_mul_of_pos_right _ (Nat.choose_pos h)

/-- n!/(n-k)! whenever it is representable; 0 for negative arguments and for k > n. -/
theorem primint_perm_contract (t : IntTy) (ht : Prim t) (n k : ℤ) (hn : n ≤ t.hi)
    (hr : 0 ≤ n → 0 ≤ k → (n.toNat.descFactorial k.toNat : ℤ) ≤ t.hi) :
    primint_perm t n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.descFactorial k.toNat : ℤ)) := by
  obtain ⟨h1, h2, h3⟩ := ht
  have hum := usizeMax_val
  rw [← wp_eq]
  by_cases hz : (k > n ∨ n < 0) ∨ k < 0
  · have e : (if n < 0 ∨ k < 0 then 0 else (n.toNat.descFactorial k.toNat : ℤ)) = 0 := by
      split
      · rfl
      · rename_i h; push Not at h
        rw [Nat.descFactorial_of_lt (by omega)]; rfl
    rw [e]
    unfold primint_perm
    rs_inl
    refine wp_ite ?_ ?_ <;> intro _
    · exact wp_some rfl
    · exact wp_false (by omega)
  rw [if_neg (by omega)]
  push Not at hz
  have hr := hr (by omega) (by omega)
  obtain ⟨N, rfl⟩ : ∃ m : ℕ, n = m := ⟨n.toNat, by omega⟩
  obtain ⟨K, rfl⟩ : ∃ m : ℕ, k = m := ⟨k.toNat, by omega⟩
  simp only [Int.toNat_natCast] at hr ⊢
  have hKN : K ≤ N := by omega
  have hK34 : K ≤ 34 := by
    apply fact_lt
    have : ((K.factorial : ℕ) : ℤ) ≤ N.descFactorial K := by exact_mod_cast fact_le_desc hKN
    omega
  unfold primint_perm
  rs_inl
  vcg
  all_goals try omega
  first
    | (refine wp_foldlM (fun i s => s = (N.descFactorial i : ℤ)) (by simp) (fun i hi s hs => ?_) (fun s hs => ?_)
       · subst hs
         have hiK : i < K := by simp at hi; omega
         have hmono : ((N.descFactorial (i+1) : ℕ) : ℤ) ≤ N.descFactorial K := by exact_mod_cast desc_mono (by omega) hKN
         have hst : (N.descFactorial i : ℤ) * ((N : ℤ) - i) = N.descFactorial (i+1) := by
           rw [Nat.descFactorial_succ]; push_cast [show i ≤ N by omega]; ring
         have hpos : (0 : ℤ) ≤ N.descFactorial (i+1) := by positivity
         simp only [List.getElem_range]
         vcg
         all_goals (try simp only [hst])
         all_goals omega
       · rw [hs]; simp)
    | (refine wp_foldlM (fun i (s : ℤ × ℤ) => s = ((N.descFactorial i : ℤ), (N : ℤ) - i)) (by simp) (fun i hi s hs => ?_) (fun s hs => ?_)
       · subst hs
         have hiK : i < K := by simp at hi; omega
         have hmono : ((N.descFactorial (i+1) : ℕ) : ℤ) ≤ N.descFactorial K := by exact_mod_cast desc_mono (by omega) hKN
         have hst : (N.descFactorial i : ℤ) * ((N : ℤ) - i) = N.descFactorial (i+1) := by
           rw [Nat.descFactorial_succ]; push_cast [show i ≤ N by omega]; ring
         have hpos : (0 : ℤ) ≤ N.descFactorial (i+1) := by positivity
         dsimp only
         vcg
         all_goals (try simp only [hst])
         all_goals first | omega | (push_cast; simp; done) | (push_cast; ring_nf; done) | (push_cast; refine Prod.ext rfl ?_; dsimp only; ring)
       · rw [hs]; vcg; simp)
    | (refine wp_foldlM (fun i (s : ℤ × ℤ) => s = ((N : ℤ) - i, (N.descFactorial i : ℤ))) (by simp) (fun i hi s hs => ?_) (fun s hs => ?_)
       · subst hs
         have hiK : i < K := by simp at hi; omega
         have hmono : ((N.descFactorial (i+1) : ℕ) : ℤ) ≤ N.descFactorial K := by exact_mod_cast desc_mono (by omega) hKN
         have hst : (N.descFactorial i : ℤ) * ((N : ℤ) - i) = N.descFactorial (i+1) := by
           rw [Nat.descFactorial_succ]; push_cast [show i ≤ N by omega]; ring
         have hpos : (0 : ℤ) ≤ N.descFactorial (i+1) := by positivity
         dsimp only
         vcg
         all_goals (try simp only [hst])
         all_goals first | omega | (push_cast; simp; done) | (push_cast; ring_nf; done) | (push_cast; refine Prod.ext rfl ?_; dsimp only; ring)
       · rw [hs]; vcg; simp)

theorem stirling_le_left (n k : ℕ) (hk : 1 ≤ k) : n.stirlingSecond k ≤ (n+1).stirlingSecond k := by
  obtain ⟨k, rfl⟩ : ∃ j, k = j + 1 := ⟨k-1, by omega⟩
  rw [Nat.stirlingSecond_succ_succ]
  nlinarith [Nat.zero_le (n.stirlingSecond k), Nat.zero_le (n.stirlingSecond (k+1))]

/-- S(n,k) whenever it is representable; 0 for negative arguments and for k > n. -/
theorem primint_stirling2_contract (t : IntTy) (ht : Prim t) (n k : ℤ) (hn : n ≤ t.hi) (hk : k ≤ t.hi)
    (hr : 0 ≤ n → 0 ≤ k → (n.toNat.stirlingSecond k.toNat : ℤ) ≤ t.hi) :
    primint_stirling2 t n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.stirlingSecond k.toNat : ℤ)) := by
  obtain ⟨h1, h2, h3⟩ := ht
  by_cases hz : n < 0 ∨ k < 0
  · rw [if_pos hz, ← wp_eq, primint_stirling2]
    rs_inl
    vcg
    all_goals first | rfl | omega | exact wp_false (by omega)
  rw [if_neg hz]
  push Not at hz
  replace hr := hr (by omega) (by omega)
  obtain ⟨N, rfl⟩ : ∃ m : ℕ, n = m := ⟨n.toNat, by omega⟩
  obtain ⟨K, rfl⟩ : ∃ m : ℕ, k = m := ⟨k.toNat, by omega⟩
  simp only [Int.toNat_natCast] at hr ⊢
  clear hz
  induction N generalizing K with
  | zero =>
    rw [← wp_eq, primint_stirling2]
    rs_inl
    rcases K with _ | K
    · vcg
      all_goals first | (simp; done) | omega | exact wp_false (by omega)
    · vcg
      all_goals first | (simp; done) | omega | exact wp_false (by omega)
  | succ N ih =>
    rw [← wp_eq, primint_stirling2]
    rs_inl
    rcases K with _ | K
    · vcg
      all_goals first | (simp; done) | omega | exact wp_false (by omega)
    · by_cases hgt : K > N
      · vcg
        all_goals first | omega | exact wp_false (by omega) | (rw [Nat.stirlingSecond_eq_zero_of_lt (by omega)]; rfl)
      by_cases heq : K = N
      · subst heq
        vcg
        all_goals first | (rw [Nat.stirlingSecond_self]; rfl) | omega | exact wp_false (by omega)
      have e : ((N+1).stirlingSecond (K+1) : ℤ) = (K+1) * N.stirlingSecond (K+1) + N.stirlingSecond K := by
        rw [Nat.stirlingSecond_succ_succ]; push_cast; ring
      have p1 : (0 : ℤ) ≤ N.stirlingSecond (K+1) := by positivity
      have p2 : (0 : ℤ) ≤ N.stirlingSecond K := by positivity
      have p3 : (0 : ℤ) ≤ (K+1) * N.stirlingSecond (K+1) := by positivity
      have p4 : (N.stirlingSecond (K+1) : ℤ) ≤ (K+1) * N.stirlingSecond (K+1) := by nlinarith
      have i1 := ih (by push_cast at hn; omega) (K+1) hk (by omega)
      have i2 := ih (by push_cast at hn; omega) K (by push_cast at hk; omega) (by omega)
      have c1 : (((N+1 : ℕ)) : ℤ) - 1 = N := by push_cast; omega
      have c2 : (((K+1 : ℕ)) : ℤ) - 1 = K := by push_cast; omega
      have c3 : ((K+1 : ℕ) : ℤ) = (K : ℤ) + 1 := by push_cast; ring
      rw [e]
      vcg
      have i1' : primint_stirling2 t (N : ℤ) ((K : ℤ) + 1) = some (N.stirlingSecond (K+1) : ℤ) := by rw [← c3]; exact i1
      have i3 : primint_stirling2 t (((N+1 : ℕ) : ℤ) - 1) ((K+1 : ℕ) : ℤ) = some (N.stirlingSecond (K+1) : ℤ) := by rw [c1]; exact i1
      have i4 : primint_stirling2 t (((N+1 : ℕ) : ℤ) - 1) (((K+1 : ℕ) : ℤ) - 1) = some (N.stirlingSecond K : ℤ) := by rw [c1, c2]; exact i2
      have m1 : (N.stirlingSecond (K+1) : ℤ) * (K + 1) = (K + 1) * N.stirlingSecond (K+1) := mul_comm _ _
      -- the two recursive calls, in either order
      all_goals (try (exfalso; omega))
      all_goals (try simp only [c1, c2])
      all_goals (try (first | refine wp_of_eq i1 ?_ | refine wp_of_eq i1' ?_ | refine wp_of_eq i2 ?_ | refine wp_of_eq i3 ?_ | refine wp_of_eq i4 ?_
                      vcg))
      all_goals (try simp only [c1, c2])
      all_goals (try (first | refine wp_of_eq i1 ?_ | refine wp_of_eq i1' ?_ | refine wp_of_eq i2 ?_ | refine wp_of_eq i3 ?_ | refine wp_of_eq i4 ?_
                      vcg))
      all_goals (try rw [c3])
      all_goals (try simp only [m1])
      all_goals first | omega | (simp only [m1] at *; omega) | rfl

theorem prim_u8 : Prim IntTy.u8 := by constructor <;> norm_num [IntTy.u8]
theorem prim_u16 : Prim IntTy.u16 := by constructor <;> norm_num [IntTy.u16]
theorem prim_u32 : Prim IntTy.u32 := by constructor <;> norm_num [IntTy.u32]
theorem prim_u64 : Prim IntTy.u64 := by constructor <;> norm_num [IntTy.u64]
theorem prim_u128 : Prim IntTy.u128 := by constructor <;> norm_num [IntTy.u128]
theorem prim_usize : Prim IntTy.usize := by constructor <;> norm_num [IntTy.usize]
theorem prim_i8 : Prim IntTy.i8 := by constructor <;> norm_num [IntTy.i8]
theorem prim_i16 : Prim IntTy.i16 := by constructor <;> norm_num [IntTy.i16]
theorem prim_i32 : Prim IntTy.i32 := by constructor <;> norm_num [IntTy.i32]
theorem prim_i64 : Prim IntTy.i64 := by constructor <;> norm_num [IntTy.i64]
theorem prim_i128 : Prim IntTy.i128 := by constructor <;> norm_num [IntTy.i128]
theorem prim_isize : Prim IntTy.isize := by constructor <;> norm_num [IntTy.isize]
theorem u8_perm (n k : ℤ) (hn : n ≤ IntTy.u8.hi) (hr : 0 ≤ n → 0 ≤ k → (n.toNat.descFactorial k.toNat : ℤ) ≤ IntTy.u8.hi) :
    Combinatoric_u8_perm n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.descFactorial k.toNat : ℤ)) := by
  unfold Combinatoric_u8_perm; rs_inl; exact primint_perm_contract _ prim_u8 n k hn hr
theorem u8_stirling2 (n k : ℤ) (hn : n ≤ IntTy.u8.hi) (hk : k ≤ IntTy.u8.hi)
    (hr : 0 ≤ n → 0 ≤ k → (n.toNat.stirlingSecond k.toNat : ℤ) ≤ IntTy.u8.hi) :
    Combinatoric_u8_stirling2 n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.stirlingSecond k.toNat : ℤ)) := by
  unfold Combinatoric_u8_stirling2; rs_inl; exact primint_stirling2_contract _ prim_u8 n k hn hk hr
theorem u16_perm (n k : ℤ) (hn : n ≤ IntTy.u16.hi) (hr : 0 ≤ n → 0 ≤ k → (n.toNat.descFactorial k.toNat : ℤ) ≤ IntTy.u16.hi) :
    Combinatoric_u16_perm n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.descFactorial k.toNat : ℤ)) := by
  unfold Combinatoric_u16_perm; rs_inl; exact primint_perm_contract _ prim_u16 n k hn hr
theorem u16_stirling2 (n k : ℤ) (hn : n ≤ IntTy.u16.hi) (hk : k ≤ IntTy.u16.hi)
    (hr : 0 ≤ n → 0 ≤ k → (n.toNat.stirlingSecond k.toNat : ℤ) ≤ IntTy.u16.hi) :
    Combinatoric_u16_stirling2 n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.stirlingSecond k.toNat : ℤ)) := by
  unfold Combinatoric_u16_stirling2; rs_inl; exact primint_stirling2_contract _ prim_u16 n k hn hk hr
theorem u32_perm (n k : ℤ) (hn : n ≤ IntTy.u32.hi) (hr : 0 ≤ n → 0 ≤ k → (n.toNat.descFactorial k.toNat : ℤ) ≤ IntTy.u32.hi) :
    Combinatoric_u32_perm n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.descFactorial k.toNat : ℤ)) := by
  unfold Combinatoric_u32_perm; rs_inl; exact primint_perm_contract _ prim_u32 n k hn hr
theorem u32_stirling2 (n k : ℤ) (hn : n ≤ IntTy.u32.hi) (hk : k ≤ IntTy.u32.hi)
    (hr : 0 ≤ n → 0 ≤ k → (n.toNat.stirlingSecond k.toNat : ℤ) ≤ IntTy.u32.hi) :
    Combinatoric_u32_stirling2 n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.stirlingSecond k.toNat : ℤ)) := by
  unfold Combinatoric_u32_stirling2; rs_inl; exact primint_stirling2_contract _ prim_u32 n k hn hk hr
theorem u64_perm (n k : ℤ) (hn : n ≤ IntTy.u64.hi) (hr : 0 ≤ n → 0 ≤ k → (n.toNat.descFactorial k.toNat : ℤ) ≤ IntTy.u64.hi) :
    Combinatoric_u64_perm n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.descFactorial k.toNat : ℤ)) := by
  unfold Combinatoric_u64_perm; rs_inl; exact primint_perm_contract _ prim_u64 n k hn hr
theorem u64_stirling2 (n k : ℤ) (hn : n ≤ IntTy.u64.hi) (hk : k ≤ IntTy.u64.hi)
    (hr : 0 ≤ n → 0 ≤ k → (n.toNat.stirlingSecond k.toNat : ℤ) ≤ IntTy.u64.hi) :
    Combinatoric_u64_stirling2 n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.stirlingSecond k.toNat : ℤ)) := by
  unfold Combinatoric_u64_stirling2; rs_inl; exact primint_stirling2_contract _ prim_u64 n k hn hk hr
theorem u128_perm (n k : ℤ) (hn : n ≤ IntTy.u128.hi) (hr : 0 ≤ n → 0 ≤ k → (n.toNat.descFactorial k.toNat : ℤ) ≤ IntTy.u128.hi) :
    Combinatoric_u128_perm n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.descFactorial k.toNat : ℤ)) := by
  unfold Combinatoric_u128_perm; rs_inl; exact primint_perm_contract _ prim_u128 n k hn hr
theorem u128_stirling2 (n k : ℤ) (hn : n ≤ IntTy.u128.hi) (hk : k ≤ IntTy.u128.hi)
    (hr : 0 ≤ n → 0 ≤ k → (n.toNat.stirlingSecond k.toNat : ℤ) ≤ IntTy.u128.hi) :
    Combinatoric_u128_stirling2 n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.stirlingSecond k.toNat : ℤ)) := by
  unfold Combinatoric_u128_stirling2; rs_inl; exact primint_stirling2_contract _ prim_u128 n k hn hk hr
theorem usize_perm (n k : ℤ) (hn : n ≤ IntTy.usize.hi) (hr : 0 ≤ n → 0 ≤ k → (n.toNat.descFactorial k.toNat : ℤ) ≤ IntTy.usize.hi) :
    Combinatoric_usize_perm n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.descFactorial k.toNat : ℤ)) := by
  unfold Combinatoric_usize_perm; rs_inl; exact primint_perm_contract _ prim_usize n k hn hr
theorem usize_stirling2 (n k : ℤ) (hn : n ≤ IntTy.usize.hi) (hk : k ≤ IntTy.usize.hi)
    (hr : 0 ≤ n → 0 ≤ k → (n.toNat.stirlingSecond k.toNat : ℤ) ≤ IntTy.usize.hi) :
    Combinatoric_usize_stirling2 n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.stirlingSecond k.toNat : ℤ)) := by
  unfold Combinatoric_usize_stirling2; rs_inl; exact primint_stirling2_contract _ prim_usize n k hn hk hr
theorem i8_perm (n k : ℤ) (hn : n ≤ IntTy.i8.hi) (hr : 0 ≤ n → 0 ≤ k → (n.toNat.descFactorial k.toNat : ℤ) ≤ IntTy.i8.hi) :
    Combinatoric_i8_perm n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.descFactorial k.toNat : ℤ)) := by
  unfold Combinatoric_i8_perm; rs_inl; exact primint_perm_contract _ prim_i8 n k hn hr
theorem i8_stirling2 (n k : ℤ) (hn : n ≤ IntTy.i8.hi) (hk : k ≤ IntTy.i8.hi)
    (hr : 0 ≤ n → 0 ≤ k → (n.toNat.stirlingSecond k.toNat : ℤ) ≤ IntTy.i8.hi) :
    Combinatoric_i8_stirling2 n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.stirlingSecond k.toNat : ℤ)) := by
  unfold Combinatoric_i8_stirling2; rs_inl; exact primint_stirling2_contract _ prim_i8 n k hn hk hr
theorem i16_perm (n k : ℤ) (hn : n ≤ IntTy.i16.hi) (hr : 0 ≤ n → 0 ≤ k → (n.toNat.descFactorial k.toNat : ℤ) ≤ IntTy.i16.hi) :
    Combinatoric_i16_perm n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.descFactorial k.toNat : ℤ)) := by
  unfold Combinatoric_i16_perm; rs_inl; exact primint_perm_contract _ prim_i16 n k hn hr
theorem i16_stirling2 (n k : ℤ) (hn : n ≤ IntTy.i16.hi) (hk : k ≤ IntTy.i16.hi)
    (hr : 0 ≤ n → 0 ≤ k → (n.toNat.stirlingSecond k.toNat : ℤ) ≤ IntTy.i16.hi) :
    Combinatoric_i16_stirling2 n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.stirlingSecond k.toNat : ℤ)) := by
  unfold Combinatoric_i16_stirling2; rs_inl; exact primint_stirling2_contract _ prim_i16 n k hn hk hr
theorem i32_perm (n k : ℤ) (hn : n ≤ IntTy.i32.hi) (hr : 0 ≤ n → 0 ≤ k → (n.toNat.descFactorial k.toNat : ℤ) ≤ IntTy.i32.hi) :
    Combinatoric_i32_perm n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.descFactorial k.toNat : ℤ)) := by
  unfold Combinatoric_i32_perm; rs_inl; exact primint_perm_contract _ prim_i32 n k hn hr
theorem i32_stirling2 (n k : ℤ) (hn : n ≤ IntTy.i32.hi) (hk : k ≤ IntTy.i32.hi)
    (hr : 0 ≤ n → 0 ≤ k → (n.toNat.stirlingSecond k.toNat : ℤ) ≤ IntTy.i32.hi) :
    Combinatoric_i32_stirling2 n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.stirlingSecond k.toNat : ℤ)) := by
  unfold Combinatoric_i32_stirling2; rs_inl; exact primint_stirling2_contract _ prim_i32 n k hn hk hr
theorem i64_perm (n k : ℤ) (hn : n ≤ IntTy.i64.hi) (hr : 0 ≤ n → 0 ≤ k → (n.toNat.descFactorial k.toNat : ℤ) ≤ IntTy.i64.hi) :
    Combinatoric_i64_perm n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.descFactorial k.toNat : ℤ)) := by
  unfold Combinatoric_i64_perm; rs_inl; exact primint_perm_contract _ prim_i64 n k hn hr
theorem i64_stirling2 (n k : ℤ) (hn : n ≤ IntTy.i64.hi) (hk : k ≤ IntTy.i64.hi)
    (hr : 0 ≤ n → 0 ≤ k → (n.toNat.stirlingSecond k.toNat : ℤ) ≤ IntTy.i64.hi) :
    Combinatoric_i64_stirling2 n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.stirlingSecond k.toNat : ℤ)) := by
  unfold Combinatoric_i64_stirling2; rs_inl; exact primint_stirling2_contract _ prim_i64 n k hn hk hr
theorem i128_perm (n k : ℤ) (hn : n ≤ IntTy.i128.hi) (hr : 0 ≤ n → 0 ≤ k → (n.toNat.descFactorial k.toNat : ℤ) ≤ IntTy.i128.hi) :
    Combinatoric_i128_perm n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.descFactorial k.toNat : ℤ)) := by
  unfold Combinatoric_i128_perm; rs_inl; exact primint_perm_contract _ prim_i128 n k hn hr
theorem i128_stirling2 (n k : ℤ) (hn : n ≤ IntTy.i128.hi) (hk : k ≤ IntTy.i128.hi)
    (hr : 0 ≤ n → 0 ≤ k → (n.toNat.stirlingSecond k.toNat : ℤ) ≤ IntTy.i128.hi) :
    Combinatoric_i128_stirling2 n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.stirlingSecond k.toNat : ℤ)) := by
  unfold Combinatoric_i128_stirling2; rs_inl; exact primint_stirling2_contract _ prim_i128 n k hn hk hr
theorem isize_perm (n k : ℤ) (hn : n ≤ IntTy.isize.hi) (hr : 0 ≤ n → 0 ≤ k → (n.toNat.descFactorial k.toNat : ℤ) ≤ IntTy.isize.hi) :
    Combinatoric_isize_perm n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.descFactorial k.toNat : ℤ)) := by
  unfold Combinatoric_isize_perm; rs_inl; exact primint_perm_contract _ prim_isize n k hn hr
theorem isize_stirling2 (n k : ℤ) (hn : n ≤ IntTy.isize.hi) (hk : k ≤ IntTy.isize.hi)
    (hr : 0 ≤ n → 0 ≤ k → (n.toNat.stirlingSecond k.toNat : ℤ) ≤ IntTy.isize.hi) :
    Combinatoric_isize_stirling2 n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.stirlingSecond k.toNat : ℤ)) := by
  unfold Combinatoric_isize_stirling2; rs_inl; exact primint_stirling2_contract _ prim_isize n k hn hk hr

end C03

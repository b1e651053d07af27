/-
C02  Combinations with and without repetition are exact wherever representable.
-/
import RsLemmas
import Gen.Comb
set_option linter.all false
open Classical Gen
namespace C02

/-- what is used of the twelve primitive types -/
structure Prim (t : IntTy) : Prop where
  lo : t.lo ≤ 0
  hi : 127 ≤ t.hi
  top : t.hi < 2 ^ 128

/-! ### facts about binomials -/
theorem choose_mono_half {n i j : ℕ} (hij : i ≤ j) (hj : 2 * j ≤ n) : n.choose i ≤ n.choose j := by
  induction j, hij using Nat.le_induction with
  | base => exact le_rfl
  | succ j hj' ih => exact le_trans (ih (by omega)) (Nat.choose_le_succ_of_lt_half_left (by omega))
theorem choose_two_ge {n : ℕ} {m : ℕ} (h : m ≤ n) (hm : 1 ≤ m) : m * (m - 1) ≤ 2 * n.choose 2 := by
  have h1 : m.choose 2 ≤ n.choose 2 := Nat.choose_le_choose 2 h
  have h2 : 2 * m.choose 2 = m * (m - 1) := by
    rw [Nat.choose_two_right]; exact Nat.mul_div_cancel' (Nat.even_mul_pred_self m).two_dvd
  omega
/-- the remainder part of a step never exceeds the next binomial -/
theorem choose_ge_sq {n i : ℕ} (h : 2 * (i + 1) ≤ n) : (i + 1) * i ≤ n.choose i := by
  rcases i with _ | _ | i
  · simp
  · simp; omega
  · have h1 := choose_mono_half (n := n) (i := 2) (j := i + 2) (by omega) (by omega)
    have h2 := choose_two_ge (n := n) (m := 2 * (i + 3)) (by omega) (by omega)
    have h3 : 2 * (i + 3) - 1 = 2 * i + 5 := by omega
    rw [h3] at h2
    nlinarith
theorem step_eq (n i : ℕ) (h : i ≤ n) : (n.choose (i + 1) : ℤ) * (i + 1) = n.choose i * ((n : ℤ) - i) := by
  have := Nat.choose_succ_right_eq n i
  have h2 : ((n - i : ℕ) : ℤ) = (n : ℤ) - i := by omega
  rw [← h2]; exact_mod_cast this

/-- the exact division done without ever exceeding the result -/
theorem step_arith (C D u m : ℤ) (hu0 : 0 < u) (hm0 : 0 < m) (hC0 : 0 ≤ C) (hge : u * (u - 1) ≤ C) (hst : D * u = C * m) :
    0 ≤ C / u * m ∧ C / u * m ≤ D ∧ 0 ≤ C % u * m ∧ C % u * m ≤ D ∧ C / u ≤ C ∧ C % u * m / u = D - C / u * m := by
  have hqr := Int.mul_ediv_add_emod C u
  have hr0 := Int.emod_nonneg C (show u ≠ 0 by omega)
  have hrlt := Int.emod_lt_of_pos C hu0
  have hq0 : 0 ≤ C / u := Int.ediv_nonneg hC0 hu0.le
  have hqC : C / u ≤ C := Int.ediv_le_self _ hC0
  generalize C / u = q at *
  generalize C % u = r at *
  have hrm : r * m = u * (D - q * m) := by
    calc r * m = (u * q + r) * m - u * q * m := by ring
      _ = u * (D - q * m) := by rw [hqr, ← hst]; ring
  have hrm0 : 0 ≤ r * m := by positivity
  have hqm0 : 0 ≤ q * m := by positivity
  refine ⟨hqm0, ?_, hrm0, ?_, hqC, ?_⟩
  · by_contra hcon
    have : u * (D - q * m) < 0 := mul_neg_of_pos_of_neg hu0 (by omega)
    omega
  · have h6 : u * r ≤ C := le_trans (mul_le_mul_of_nonneg_left (by omega : r ≤ u - 1) hu0.le) hge
    have h5 : u * (r * m) ≤ u * D := by
      calc u * (r * m) = (u * r) * m := by ring
        _ ≤ C * m := mul_le_mul_of_nonneg_right h6 hm0.le
        _ = u * D := by rw [← hst]; ring
    exact le_of_mul_le_mul_left h5 hu0
  · rw [hrm]; exact Int.mul_ediv_cancel_left _ (by omega)

/-- C(n,k) whenever it is representable; 0 for negative arguments and for k > n. -/
theorem primint_comb_contract (t : IntTy) (ht : Prim t) (n k : ℤ) (hn : n ≤ t.hi)
    (hr : 0 ≤ n → 0 ≤ k → (n.toNat.choose k.toNat : ℤ) ≤ t.hi) :
    primint_comb t n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.choose k.toNat : ℤ)) := by
  obtain ⟨h1, h2, h3⟩ := ht
  have hum := usizeMax_val
  rw [← wp_eq]
  by_cases hz : (k > n ∨ n < 0) ∨ k < 0
  · have e : (if n < 0 ∨ k < 0 then 0 else (n.toNat.choose k.toNat : ℤ)) = 0 := by
      split
      · rfl
      · rename_i h; push Not at h
        rw [Nat.choose_eq_zero_of_lt (by omega)]; rfl
    rw [e]
    unfold primint_comb
    rs_inl
    refine wp_ite ?_ ?_ <;> intro _
    · exact wp_some rfl
    · exact wp_false (by omega)
  rw [if_neg (by omega)]
  push Not at hz
  have hr := hr (by omega) (by omega)
  obtain ⟨N, rfl⟩ : ∃ m : ℕ, n = m := ⟨n.toNat, by omega⟩
  obtain ⟨M, rfl⟩ : ∃ m : ℕ, k = m := ⟨k.toNat, by omega⟩
  simp only [Int.toNat_natCast] at hr ⊢
  obtain ⟨K, hK⟩ : ∃ K, K = min M (N - M) := ⟨_, rfl⟩
  have hmin : min (M : ℤ) ((N : ℤ) - M) = K := by omega
  have hCK : N.choose M = N.choose K := by
    rcases min_choice M (N - M) with h | h
    · rw [hK, h]
    · rw [hK, h]; exact (Nat.choose_symm (by omega)).symm
  rw [hCK] at hr ⊢
  have hK2 : 2 * K ≤ N := by omega
  have hKu : K + 1 ≤ usizeMax := by
    by_contra hcon
    have h4 := choose_mono_half (n := N) (i := 2) (j := K) (by omega) hK2
    have h5 := choose_two_ge (n := N) (m := 2 ^ 65 - 2) (by omega) (by norm_num)
    have h6 : (2 : ℕ) ^ 129 ≤ (2 ^ 65 - 2) * (2 ^ 65 - 2 - 1) := by norm_num
    have h7 : ((N.choose 2 : ℕ) : ℤ) ≤ N.choose K := by exact_mod_cast h4
    have h8 : (2 : ℤ) ^ 129 ≤ 2 * N.choose 2 := by exact_mod_cast le_trans h6 h5
    omega
  unfold primint_comb
  rs_inl
  vcg
  all_goals (try rw [hmin])
  all_goals try omega
  refine wp_foldlM (fun i s => s = (N.choose i : ℤ)) (by simp) (fun i hi s hs => ?_) (fun s hs => ?_)
  · subst hs
    have hiK : i < K := by simp at hi; omega
    rw [rsRange_getElem]
    have hge := choose_ge_sq (n := N) (i := i) (by omega)
    have hst := step_eq N i (by omega)
    have hmono : ((N.choose (i+1) : ℕ) : ℤ) ≤ N.choose K := by exact_mod_cast choose_mono_half (by omega) hK2
    have hmono0 : ((N.choose i : ℕ) : ℤ) ≤ N.choose K := by exact_mod_cast choose_mono_half (by omega) hK2
    have hge' : ((i : ℤ) + 1) * i ≤ N.choose i := by exact_mod_cast hge
    obtain ⟨C, hC⟩ : ∃ C : ℤ, C = N.choose i := ⟨_, rfl⟩
    obtain ⟨D, hD⟩ : ∃ D : ℤ, D = N.choose (i+1) := ⟨_, rfl⟩
    have hC0 : 0 ≤ C := by rw [hC]; positivity
    have hD0 : 0 ≤ D := by rw [hD]; positivity
    rw [← hC, ← hD] at hst
    rw [← hC] at hge' hmono0
    rw [← hD] at hmono
    rw [← hC]
    obtain ⟨u, hu⟩ : ∃ u : ℤ, u = i + 1 := ⟨_, rfl⟩
    obtain ⟨m, hm⟩ : ∃ m : ℤ, m = N - i := ⟨_, rfl⟩
    rw [← hu, ← hm] at hst
    obtain ⟨a1, a2, a3, a4, a5, a6⟩ := step_arith C D u m (by omega) (by omega) hC0 (by nlinarith) hst
    have e1 : (((1 + i : ℕ)) : ℤ) = u := by push_cast; omega
    have e2 : (N : ℤ) - (u - 1) = m := by omega
    rw [e1]
    vcg
    all_goals (try simp only [e2, a6])
    all_goals omega
  · rw [hs]
    congr 2
    simp
theorem le_choose (K N : ℕ) (h1 : 1 ≤ K) (h2 : K + 1 ≤ N) : N ≤ N.choose K := by
  by_cases h : 2 * K ≤ N
  · simpa using choose_mono_half (n := N) (i := 1) (j := K) h1 h
  · rw [← Nat.choose_symm (by omega)]
    simpa using choose_mono_half (n := N) (i := 1) (j := N - K) (by omega) (by omega)

/-- C(n+k-1,k) whenever it is representable; 0 for negative arguments and for n = 0. -/
theorem primint_comb_rep_contract (t : IntTy) (ht : Prim t) (n k : ℤ) (hn : n ≤ t.hi) (hk : k ≤ t.hi)
    (hr : 0 < n → 0 ≤ k → ((n + k - 1).toNat.choose k.toNat : ℤ) ≤ t.hi) :
    primint_comb_rep t n k = some (if n ≤ 0 ∨ k < 0 then 0 else ((n + k - 1).toNat.choose k.toNat : ℤ)) := by
  rw [← wp_eq]
  have hp := ht
  obtain ⟨h1, h2, h3⟩ := ht
  by_cases hz : n ≤ 0 ∨ k < 0
  · rw [if_pos hz]
    unfold primint_comb_rep
    rs_inl
    refine wp_ite ?_ ?_ <;> intro _
    · exact wp_some rfl
    · exact wp_false (by omega)
  rw [if_neg hz]
  push Not at hz
  have hr := hr (by omega) (by omega)
  have hN : n - 1 + k ≤ t.hi := by
    by_contra hcon
    obtain ⟨N, hN⟩ : ∃ m : ℕ, n + k - 1 = m := ⟨(n + k - 1).toNat, by omega⟩
    obtain ⟨K, hK⟩ : ∃ m : ℕ, k = m := ⟨k.toNat, by omega⟩
    rw [hN, hK] at hr
    simp only [Int.toNat_natCast] at hr
    have hk0 : 1 ≤ K := by omega
    have hkN : K + 1 ≤ N := by omega
    have : N ≤ N.choose K := by
      exact le_choose K N hk0 hkN
    omega
  have hc := primint_comb_contract t hp (n - 1 + k) k hN (fun _ _ => by rw [show n - 1 + k = n + k - 1 by ring]; exact hr)
  rw [if_neg (by omega), show n - 1 + k = n + k - 1 by ring] at hc
  unfold primint_comb_rep
  rs_inl
  vcg
  all_goals try omega
  rw [show n - 1 + k = n + k - 1 by ring]
  exact wp_of_eq hc rfl

theorem prim_u8 : Prim IntTy.u8 := by constructor <;> norm_num [IntTy.u8]
theorem prim_u16 : Prim IntTy.u16 := by constructor <;> norm_num [IntTy.u16]
theorem prim_u32 : Prim IntTy.u32 := by constructor <;> norm_num [IntTy.u32]
theorem prim_u64 : Prim IntTy.u64 := by constructor <;> norm_num [IntTy.u64]
theorem prim_u128 : Prim IntTy.u128 := by constructor <;> norm_num [IntTy.u128]
theorem prim_usize : Prim IntTy.usize := by constructor <;> norm_num [IntTy.usize]
theorem prim_i8 : Prim IntTy.i8 := by constructor <;> norm_num [IntTy.i8]
theorem prim_i16 : Prim IntTy.i16 := by constructor <;> norm_num [IntTy.i16]
theorem prim_i32 : Prim IntTy.i32 := by constructor <;> norm_num [IntTy.i32]
theorem prim_i64 : Prim IntTy.i64 := by constructor <;> norm_num [IntTy.i64]
theorem prim_i128 : Prim IntTy.i128 := by constructor <;> norm_num [IntTy.i128]
theorem prim_isize : Prim IntTy.isize := by constructor <;> norm_num [IntTy.isize]
theorem u8_comb (n k : ℤ) (hn : n ≤ IntTy.u8.hi) (hr : 0 ≤ n → 0 ≤ k → (n.toNat.choose k.toNat : ℤ) ≤ IntTy.u8.hi) :
    Combinatoric_u8_comb n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.choose k.toNat : ℤ)) := by
  unfold Combinatoric_u8_comb; rs_inl; exact primint_comb_contract _ prim_u8 n k hn hr
theorem u8_comb_rep (n k : ℤ) (hn : n ≤ IntTy.u8.hi) (hk : k ≤ IntTy.u8.hi)
    (hr : 0 < n → 0 ≤ k → ((n + k - 1).toNat.choose k.toNat : ℤ) ≤ IntTy.u8.hi) :
    Combinatoric_u8_comb_rep n k = some (if n ≤ 0 ∨ k < 0 then 0 else ((n + k - 1).toNat.choose k.toNat : ℤ)) := by
  unfold Combinatoric_u8_comb_rep; rs_inl; exact primint_comb_rep_contract _ prim_u8 n k hn hk hr
theorem u16_comb (n k : ℤ) (hn : n ≤ IntTy.u16.hi) (hr : 0 ≤ n → 0 ≤ k → (n.toNat.choose k.toNat : ℤ) ≤ IntTy.u16.hi) :
    Combinatoric_u16_comb n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.choose k.toNat : ℤ)) := by
  unfold Combinatoric_u16_comb; rs_inl; exact primint_comb_contract _ prim_u16 n k hn hr
theorem u16_comb_rep (n k : ℤ) (hn : n ≤ IntTy.u16.hi) (hk : k ≤ IntTy.u16.hi)
    (hr : 0 < n → 0 ≤ k → ((n + k - 1).toNat.choose k.toNat : ℤ) ≤ IntTy.u16.hi) :
    Combinatoric_u16_comb_rep n k = some (if n ≤ 0 ∨ k < 0 then 0 else ((n + k - 1).toNat.choose k.toNat : ℤ)) := by
  unfold Combinatoric_u16_comb_rep; rs_inl; exact primint_comb_rep_contract _ prim_u16 n k hn hk hr
theorem u32_comb (n k : ℤ) (hn : n ≤ IntTy.u32.hi) (hr : 0 ≤ n → 0 ≤ k → (n.toNat.choose k.toNat : ℤ) ≤ IntTy.u32.hi) :
    Combinatoric_u32_comb n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.choose k.toNat : ℤ)) := by
  unfold Combinatoric_u32_comb; rs_inl; exact primint_comb_contract _ prim_u32 n k hn hr
theorem u32_comb_rep (n k : ℤ) (hn : n ≤ IntTy.u32.hi) (hk : k ≤ IntTy.u32.hi)
    (hr : 0 < n → 0 ≤ k → ((n + k - 1).toNat.choose k.toNat : ℤ) ≤ IntTy.u32.hi) :
    Combinatoric_u32_comb_rep n k = some (if n ≤ 0 ∨ k < 0 then 0 else ((n + k - 1).toNat.choose k.toNat : ℤ)) := by
  unfold Combinatoric_u32_comb_rep; rs_inl; exact primint_comb_rep_contract _ prim_u32 n k hn hk hr
theorem u64_comb (n k : ℤ) (hn : n ≤ IntTy.u64.hi) (hr : 0 ≤ n → 0 ≤ k → (n.toNat.choose k.toNat : ℤ) ≤ IntTy.u64.hi) :
    Combinatoric_u64_comb n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.choose k.toNat : ℤ)) := by
  unfold Combinatoric_u64_comb; rs_inl; exact primint_comb_contract _ prim_u64 n k hn hr
theorem u64_comb_rep (n k : ℤ) (hn : n ≤ IntTy.u64.hi) (hk : k ≤ IntTy.u64.hi)
    (hr : 0 < n → 0 ≤ k → ((n + k - 1).toNat.choose k.toNat : ℤ) ≤ IntTy.u64.hi) :
    Combinatoric_u64_comb_rep n k = some (if n ≤ 0 ∨ k < 0 then 0 else ((n + k - 1).toNat.choose k.toNat : ℤ)) := by
  unfold Combinatoric_u64_comb_rep; rs_inl; exact primint_comb_rep_contract _ prim_u64 n k hn hk hr
theorem u128_comb (n k : ℤ) (hn : n ≤ IntTy.u128.hi) (hr : 0 ≤ n → 0 ≤ k → (n.toNat.choose k.toNat : ℤ) ≤ IntTy.u128.hi) :
    Combinatoric_u128_comb n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.choose k.toNat : ℤ)) := by
  unfold Combinatoric_u128_comb; rs_inl; exact primint_comb_contract _ prim_u128 n k hn hr
theorem u128_comb_rep (n k : ℤ) (hn : n ≤ IntTy.u128.hi) (hk : k ≤ IntTy.u128.hi)
    (hr : 0 < n → 0 ≤ k → ((n + k - 1).toNat.choose k.toNat : ℤ) ≤ IntTy.u128.hi) :
    Combinatoric_u128_comb_rep n k = some (if n ≤ 0 ∨ k < 0 then 0 else ((n + k - 1).toNat.choose k.toNat : ℤ)) := by
  unfold Combinatoric_u128_comb_rep; rs_inl; exact primint_comb_rep_contract _ prim_u128 n k hn hk hr
theorem usize_comb (n k : ℤ) (hn : n ≤ IntTy.usize.hi) (hr : 0 ≤ n → 0 ≤ k → (n.toNat.choose k.toNat : ℤ) ≤ IntTy.usize.hi) :
    Combinatoric_usize_comb n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.choose k.toNat : ℤ)) := by
  unfold Combinatoric_usize_comb; rs_inl; exact primint_comb_contract _ prim_usize n k hn hr
theorem usize_comb_rep (n k : ℤ) (hn : n ≤ IntTy.usize.hi) (hk : k ≤ IntTy.usize.hi)
    (hr : 0 < n → 0 ≤ k → ((n + k - 1).toNat.choose k.toNat : ℤ) ≤ IntTy.usize.hi) :
    Combinatoric_usize_comb_rep n k = some (if n ≤ 0 ∨ k < 0 then 0 else ((n + k - 1).toNat.choose k.toNat : ℤ)) := by
  unfold Combinatoric_usize_comb_rep; rs_inl; exact primint_comb_rep_contract _ prim_usize n k hn hk hr
theorem i8_comb (n k : ℤ) (hn : n ≤ IntTy.i8.hi) (hr : 0 ≤ n → 0 ≤ k → (n.toNat.choose k.toNat : ℤ) ≤ IntTy.i8.hi) :
    Combinatoric_i8_comb n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.choose k.toNat : ℤ)) := by
  unfold Combinatoric_i8_comb; rs_inl; exact primint_comb_contract _ prim_i8 n k hn hr
theorem i8_comb_rep (n k : ℤ) (hn : n ≤ IntTy.i8.hi) (hk : k ≤ IntTy.i8.hi)
    (hr : 0 < n → 0 ≤ k → ((n + k - 1).toNat.choose k.toNat : ℤ) ≤ IntTy.i8.hi) :
    Combinatoric_i8_comb_rep n k = some (if n ≤ 0 ∨ k < 0 then 0 else ((n + k - 1).toNat.choose k.toNat : ℤ)) := by
  unfold Combinatoric_i8_comb_rep; rs_inl; exact primint_comb_rep_contract _ prim_i8 n k hn hk hr
theorem i16_comb (n k : ℤ) (hn : n ≤ IntTy.i16.hi) (hr : 0 ≤ n → 0 ≤ k → (n.toNat.choose k.toNat : ℤ) ≤ IntTy.i16.hi) :
    Combinatoric_i16_comb n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.choose k.toNat : ℤ)) := by
  unfold Combinatoric_i16_comb; rs_inl; exact primint_comb_contract _ prim_i16 n k hn hr
theorem i16_comb_rep (n k : ℤ) (hn : n ≤ IntTy.i16.hi) (hk : k ≤ IntTy.i16.hi)
    (hr : 0 < n → 0 ≤ k → ((n + k - 1).toNat.choose k.toNat : ℤ) ≤ IntTy.i16.hi) :
    Combinatoric_i16_comb_rep n k = some (if n ≤ 0 ∨ k < 0 then 0 else ((n + k - 1).toNat.choose k.toNat : ℤ)) := by
  unfold Combinatoric_i16_comb_rep; rs_inl; exact primint_comb_rep_contract _ prim_i16 n k hn hk hr
theorem i32_comb (n k : ℤ) (hn : n ≤ IntTy.i32.hi) (hr : 0 ≤ n → 0 ≤ k → (n.toNat.choose k.toNat : ℤ) ≤ IntTy.i32.hi) :
    Combinatoric_i32_comb n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.choose k.toNat : ℤ)) := by
  unfold Combinatoric_i32_comb; rs_inl; exact primint_comb_contract _ prim_i32 n k hn hr
theorem i32_comb_rep (n k : ℤ) (hn : n ≤ IntTy.i32.hi) (hk : k ≤ IntTy.i32.hi)
    (hr : 0 < n → 0 ≤ k → ((n + k - 1).toNat.choose k.toNat : ℤ) ≤ IntTy.i32.hi) :
    Combinatoric_i32_comb_rep n k = some (if n ≤ 0 ∨ k < 0 then 0 else ((n + k - 1).toNat.choose k.toNat : ℤ)) := by
  unfold Combinatoric_i32_comb_rep; rs_inl; exact primint_comb_rep_contract _ prim_i32 n k hn hk hr
theorem i64_comb (n k : ℤ) (hn : n ≤ IntTy.i64.hi) (hr : 0 ≤ n → 0 ≤ k → (n.toNat.choose k.toNat : ℤ) ≤ IntTy.i64.hi) :
    Combinatoric_i64_comb n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.choose k.toNat : ℤ)) := by
  unfold Combinatoric_i64_comb; rs_inl; exact primint_comb_contract _ prim_i64 n k hn hr
theorem i64_comb_rep (n k : ℤ) (hn : n ≤ IntTy.i64.hi) (hk : k ≤ IntTy.i64.hi)
    (hr : 0 < n → 0 ≤ k → ((n + k - 1).toNat.choose k.toNat : ℤ) ≤ IntTy.i64.hi) :
    Combinatoric_i64_comb_rep n k = some (if n ≤ 0 ∨ k < 0 then 0 else ((n + k - 1).toNat.choose k.toNat : ℤ)) := by
  unfold Combinatoric_i64_comb_rep; rs_inl; exact primint_comb_rep_contract _ prim_i64 n k hn hk hr
theorem i128_comb (n k : ℤ) (hn : n ≤ IntTy.i128.hi) (hr : 0 ≤ n → 0 ≤ k → (n.toNat.choose k.toNat : ℤ) ≤ IntTy.i128.hi) :
    Combinatoric_i128_comb n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.choose k.toNat : ℤ)) := by
  unfold Combinatoric_i128_comb; rs_inl; exact primint_comb_contract _ prim_i128 n k hn hr
theorem i128_comb_rep (n k : ℤ) (hn : n ≤ IntTy.i128.hi) (hk : k ≤ IntTy.i128.hi)
    (hr : 0 < n → 0 ≤ k → ((n + k - 1).toNat.choose k.toNat : ℤ) ≤ IntTy.i128.hi) :
    Combinatoric_i128_comb_rep n k = some (if n ≤ 0 ∨ k < 0 then 0 else ((n + k - 1).toNat.choose k.toNat : ℤ)) := by
  unfold Combinatoric_i128_comb_rep; rs_inl; exact primint_comb_rep_contract _ prim_i128 n k hn hk hr
theorem isize_comb (n k : ℤ) (hn : n ≤ IntTy.isize.hi) (hr : 0 ≤ n → 0 ≤ k → (n.toNat.choose k.toNat : ℤ) ≤ IntTy.isize.hi) :
    Combinatoric_isize_comb n k = some (if n < 0 ∨ k < 0 then 0 else (n.toNat.choose k.toNat : ℤ)) := by
  unfold Combinatoric_isize_comb; rs_inl; exact primint_comb_contract _ prim_isize n k hn hr
theorem isize_comb_rep (n k : ℤ) (hn : n ≤ IntTy.isize.hi) (hk : k ≤ IntTy.isize.hi)
    (hr : 0 < n → 0 ≤ k → ((n + k - 1).toNat.choose k.toNat : ℤ) ≤ IntTy.isize.hi) :
    Combinatoric_isize_comb_rep n k = some (if n ≤ 0 ∨ k < 0 then 0 else ((n + k - 1).toNat.choose k.toNat : ℤ)) := by
  unfold Combinatoric_isize_comb_rep; rs_inl; exact primint_comb_rep_contract _ prim_isize n k hn hk hr

end C02

/-
C01  Factorial, double and k-factorial are exact for every integer type.
-/
import RsLemmas
import Gen.Factorial
set_option linter.all false
open Classical Gen
namespace C01

/-! ### specification -/
/-- n (n-k) (n-2k) ... , 1 at 0 -/
def kfact (k : ℕ) (n : ℕ) : ℕ := if n = 0 then 1 else if n ≤ k ∨ k = 0 then n else n * kfact k (n - k)
termination_by n
decreasing_by omega
/-- product of an arithmetic progression with m terms -/
def apProd (a d : ℤ) : ℕ → ℤ
  | 0 => 1
  | m + 1 => apProd a d m * (a + m * d)

/-- what is used of the twelve primitive types -/
structure Prim (t : IntTy) : Prop where
  lo : t.lo ≤ 0
  hi : 127 ≤ t.hi
  top : t.hi < 2 ^ 128

/-! ### lemmas -/
theorem apProd_pos {a d : ℤ} (ha : 1 ≤ a) (hd : 0 ≤ d) (m : ℕ) : 1 ≤ apProd a d m := by
  induction m with
  | zero => simp [apProd]
  | succ m ih =>
    simp only [apProd]
    have : 0 ≤ (m : ℤ) * d := by positivity
    nlinarith
theorem apProd_mono_succ {a d : ℤ} (ha : 1 ≤ a) (hd : 0 ≤ d) (m : ℕ) : apProd a d m ≤ apProd a d (m+1) := by
  simp only [apProd]
  have h1 := apProd_pos ha hd m
  have : 0 ≤ (m : ℤ) * d := by positivity
  nlinarith
theorem apProd_mono {a d : ℤ} (ha : 1 ≤ a) (hd : 0 ≤ d) : Monotone (apProd a d) :=
  monotone_nat_of_le_succ (apProd_mono_succ ha hd)
theorem apProd_ge_last {a d : ℤ} (ha : 1 ≤ a) (hd : 0 ≤ d) (m : ℕ) : a + m * d ≤ apProd a d (m+1) := by
  simp only [apProd]
  have h1 := apProd_pos ha hd m
  have : 0 ≤ (m : ℤ) * d := by positivity
  nlinarith

/-! ### contracts -/
/-- The product of start, start+step, ... up to stop, whenever it is representable. -/
theorem partial_product_contract (t : IntTy) (ht : t.lo ≤ 0) (a b d : ℤ) (ha : 1 ≤ a) (hab : a ≤ b) (hd : 0 < d)
    (hu : d = 1 → b < usizeMax) (hb : b ≤ t.hi)
    (hr : apProd a d (((b - a) / d).toNat + 1) ≤ t.hi) :
    partial_product t a b d = some (apProd a d (((b - a) / d).toNat + 1)) := by
  have hd0 := hd.le
  rw [← wp_eq]
  obtain ⟨M, hM⟩ : ∃ M, M = ((b - a) / d).toNat := ⟨_, rfl⟩
  rw [← hM] at hr ⊢
  have hq : (b - a) / d = M := by
    rw [hM, Int.toNat_of_nonneg]; exact Int.ediv_nonneg (by omega) hd0
  have hMle : (M : ℤ) * d ≤ b - a := by rw [← hq]; exact Int.ediv_mul_le _ (by omega)
  have hMlt : b - a < ((M : ℤ) + 1) * d := by
    rw [← hq]; exact Int.lt_ediv_add_one_mul_self _ hd
  have hstep : ∀ i : ℕ, i ≤ M → (i : ℤ) * d ≤ M * d ∧ 0 ≤ (i : ℤ) * d ∧ 1 ≤ apProd a d i ∧
      apProd a d i * (a + i * d) = apProd a d (i+1) ∧ 1 ≤ apProd a d (i+1) ∧ apProd a d (i+1) ≤ apProd a d (M+1) := by
    intro i hi
    refine ⟨by nlinarith [show (i : ℤ) ≤ M by exact_mod_cast hi], by positivity, apProd_pos ha hd0 _, rfl,
      apProd_pos ha hd0 _, apProd_mono ha hd0 (by omega)⟩
  unfold partial_product
  rs_inl
  vcg
  all_goals try omega
  · -- unit step: a fold over the range
    rename_i h1
    subst h1
    have hu := hu rfl
    simp only [mul_one] at *
    first
      | (refine wp_mapM (fun n : ℕ => (n : ℤ)) (fun x hx => ?_) ?_
         · rw [mem_rsRange] at hx
           vcg <;> omega
         · refine wp_foldlM (fun i s => s = apProd a 1 i) (by simp [apProd]) (fun i hi s hs => ?_) (fun s hs => ?_)
           · have e : (List.map (fun n : ℕ => (n : ℤ)) (rsRange a.toNat (b.toNat + 1)))[i] = a + (i : ℤ) := by
               simp [rsRange]; simp at hi; omega
             simp at hi
             obtain ⟨-, -, h3, h4, h5, h6⟩ := hstep i (by omega)
             subst hs
             rw [e]
             vcg <;> omega
           · rw [hs]; congr 1; simp; omega)
      | (refine wp_foldlM (fun i s => s = apProd a 1 i) (by simp [apProd]) (fun i hi s hs => ?_) (fun s hs => ?_)
         · have e : (((rsRange a.toNat (b.toNat + 1))[i] : ℕ) : ℤ) = a + (i : ℤ) := by
             simp [rsRange]; simp at hi; omega
           simp at hi
           obtain ⟨-, -, h3, h4, h5, h6⟩ := hstep i (by omega)
           subst hs
           simp only [e]
           vcg <;> first | omega | (rw [mul_comm]; omega)
         · rw [hs]; first | (congr 1; simp; omega) | (refine wp_some ?_; congr 1; simp; omega))
  · -- stepping loop
    refine wp_rsLoop (fun s : ℤ × ℤ => ∃ i : ℕ, i ≤ M ∧ s = (a + i * d, apProd a d i)) (fun s => (b + 1 - s.1).toNat)
      (fun s => s.2 = apProd a d (M + 1)) ⟨0, by omega, by simp [apProd]⟩ ?_ (fun s hs => wp_some hs)
    rintro s ⟨i, hi, rfl⟩
    obtain ⟨h1, h2, h3, h4, h5, h6⟩ := hstep i hi
    have hlt : i < M → ((i : ℤ) + 1) * d ≤ M * d := fun h => by nlinarith [show (i : ℤ) + 1 ≤ M by exact_mod_cast h]
    have hrt : (i : ℤ) * d + d = ((i : ℤ) + 1) * d := by ring
    have hlast : ¬ i < M → (i : ℤ) * d = M * d := fun h => by rw [show i = M by omega]
    have hMd : ((M : ℤ) + 1) * d = M * d + d := by ring
    vcg
    all_goals try omega
    all_goals dsimp only
    · -- last factor
      have hiM : i = M := by
        by_contra hne
        have := hlt (by omega)
        omega
      subst hiM
      simp [apProd]
    · -- more factors to come
      have hiM : i < M := by
        by_contra hne
        have := hlast hne
        omega
      refine ⟨fun _ => ⟨⟨i+1, by omega, ?_⟩, ?_⟩, by simp⟩
      · rw [h4]; push_cast; rw [← hrt]; ring_nf
      · omega


theorem fact_lt {n : ℕ} (h : (n.factorial : ℤ) < 2 ^ 128) : n ≤ 34 := by
  by_contra hn
  have h1 : Nat.factorial 35 ≤ n.factorial := Nat.factorial_le (by omega)
  have h2 : (2:ℤ) ^ 128 ≤ (Nat.factorial 35 : ℕ) := by norm_num [Nat.factorial]
  have h3 : ((Nat.factorial 35 : ℕ) : ℤ) ≤ n.factorial := by exact_mod_cast h1
  omega

theorem fact_split (m : ℕ) : ((16 + m).factorial : ℤ) = (Nat.factorial 16 : ℕ) * apProd 17 1 m := by
  induction m with
  | zero => simp [apProd]
  | succ m ih =>
    rw [show 16 + (m+1) = (16 + m) + 1 from rfl, Nat.factorial_succ]
    push_cast at ih ⊢
    rw [ih, apProd]; ring

/-- n! for every n with n! representable; 0 for negative n. -/
theorem primint_factorial_contract (t : IntTy) (ht : Prim t) (n : ℤ) (hn : n ≤ t.hi)
    (hr : 0 ≤ n → (n.toNat.factorial : ℤ) ≤ t.hi) :
    primint_factorial t n = some (if n < 0 then 0 else (n.toNat.factorial : ℤ)) := by
  obtain ⟨h1, h2, h3⟩ := ht
  rw [← wp_eq]
  by_cases hneg : n < 0
  · unfold primint_factorial
    simp only [hneg, if_true]
    exact wp_some rfl
  have hr := hr (by omega)
  obtain ⟨m, rfl⟩ : ∃ m : ℕ, n = m := ⟨n.toNat, by omega⟩
  simp only [Int.toNat_natCast] at hr ⊢
  have hm : m ≤ 34 := fact_lt (by omega)
  have hum := usizeMax_val
  rw [if_neg hneg]
  by_cases hlt : m < 17
  · unfold primint_factorial
    simp only [rs_inline, hneg, if_false, FACTORIAL_CACHE_LEN]
    have hpos : (0 : ℤ) ≤ m.factorial := by positivity
    have key : ∃ h : m < FACTORIAL_CACHE.length, FACTORIAL_CACHE[m] = (m.factorial : ℤ) := by
      refine ⟨by simpa [FACTORIAL_CACHE] using hlt, ?_⟩
      interval_cases m <;> simp [FACTORIAL_CACHE, Nat.factorial]
    obtain ⟨hk1, hk2⟩ := key
    vcg
    all_goals (try simp only [Int.toNat_natCast, hk2])
    all_goals (try push_cast at *)
    all_goals omega
  · obtain ⟨j, rfl⟩ : ∃ j, m = 16 + (j + 1) := ⟨m - 17, by omega⟩
    rw [fact_split] at hr ⊢
    have hp := apProd_pos (a := 17) (d := 1) (by norm_num) (by norm_num) (j+1)
    have h16 : ((Nat.factorial 16 : ℕ) : ℤ) = 20922789888000 := by norm_num [Nat.factorial]
    rw [h16] at hr ⊢
    have hc : FACTORIAL_CACHE[16]? = some 20922789888000 := by simp [FACTORIAL_CACHE]
    have hlen : FACTORIAL_CACHE.length = 17 := by simp [FACTORIAL_CACHE]
    have hpp := partial_product_contract t h1 17 ((16 + (j+1) : ℕ) : ℤ) 1 (by norm_num) (by omega) (by norm_num) (by omega) hn
      (by rw [show (((((16 + (j+1) : ℕ) : ℤ) - 17) / 1).toNat + 1) = j + 1 by push_cast; omega]; nlinarith)
    rw [show (((((16 + (j+1) : ℕ) : ℤ) - 17) / 1).toNat + 1) = j + 1 by push_cast; omega] at hpp
    have hc' : ∀ h : 16 < FACTORIAL_CACHE.length, FACTORIAL_CACHE[16] = 20922789888000 := by
      intro h; simpa [h] using hc
    unfold primint_factorial
    simp only [rs_inline, hneg, if_false, FACTORIAL_CACHE_LEN]
    vcg
    all_goals (try simp only [Nat.reduceSub, hc', Nat.cast_ofNat])
    all_goals (try (refine wp_of_eq hpp ?_; vcg))
    all_goals (try push_cast at *)
    all_goals first | omega | nlinarith | (exact ⟨by nlinarith, by nlinarith⟩) | rfl


open Nat in
theorem dfact_lt {n : ℕ} (h : ((n‼ : ℕ) : ℤ) < 2 ^ 128) : n ≤ 60 := by
  by_contra hn
  have mono : ∀ m, 61 ≤ m → 2 ^ 128 ≤ m‼ := by
    intro m
    induction m using Nat.strong_induction_on with
    | _ m ih =>
      intro hm
      by_cases h2 : m < 63
      · interval_cases m <;> simp [Nat.doubleFactorial]
      · obtain ⟨k, rfl⟩ : ∃ k, m = k + 2 := ⟨m - 2, by omega⟩
        have := ih k (by omega) (by omega)
        rw [Nat.doubleFactorial_add_two]
        nlinarith
  have := mono n (by omega)
  have : (2:ℤ) ^ 128 ≤ (n‼ : ℕ) := by exact_mod_cast this
  omega

open Nat in
theorem dfact_split (b m : ℕ) : (((b + 2 * m)‼ : ℕ) : ℤ) = (b‼ : ℕ) * apProd ((b : ℤ) + 2) 2 m := by
  induction m with
  | zero => simp [apProd]
  | succ m ih =>
    rw [show b + 2 * (m + 1) = (b + 2 * m) + 2 by ring, Nat.doubleFactorial_add_two]
    push_cast at ih ⊢
    rw [ih, apProd]; ring

theorem rsAnd_one (m : ℕ) : rsAnd (m : ℤ) 1 = ((m % 2 : ℕ) : ℤ) := by
  have : rsAnd (m : ℤ) 1 = ((m &&& 1 : ℕ) : ℤ) := rfl
  rw [this, Nat.and_one_is_mod]

open Nat in
/-- n!! for every n with n!! representable; 0 for negative n. -/
theorem primint_factorial2_contract (t : IntTy) (ht : Prim t) (n : ℤ) (hn : n ≤ t.hi)
    (hr : 0 ≤ n → ((n.toNat‼ : ℕ) : ℤ) ≤ t.hi) :
    primint_factorial2 t n = some (if n < 0 then 0 else ((n.toNat‼ : ℕ) : ℤ)) := by
  obtain ⟨h1, h2, h3⟩ := ht
  rw [← wp_eq]
  by_cases hneg : n < 0
  · unfold primint_factorial2
    simp only [hneg, if_true]
    exact wp_some rfl
  have hr := hr (by omega)
  obtain ⟨m, rfl⟩ : ∃ m : ℕ, n = m := ⟨n.toNat, by omega⟩
  simp only [Int.toNat_natCast] at hr ⊢
  have hm : m ≤ 60 := dfact_lt (by omega)
  have hum := usizeMax_val
  have hlen : FACTORIAL2_CACHE.length = 33 := by simp [FACTORIAL2_CACHE]
  rw [if_neg hneg]
  by_cases hlt : m < 33
  · unfold primint_factorial2
    rs_inl
    have hpos : (0 : ℤ) ≤ (m‼ : ℕ) := by positivity
    have key : ∃ h : m < FACTORIAL2_CACHE.length, FACTORIAL2_CACHE[m] = ((m‼ : ℕ) : ℤ) := by
      refine ⟨by omega, ?_⟩
      interval_cases m <;> simp [FACTORIAL2_CACHE, Nat.doubleFactorial]
    obtain ⟨hk1, hk2⟩ := key
    vcg
    all_goals (try simp only [FACTORIAL2_CACHE_LEN, rsAnd_one] at *)
    all_goals (try simp only [Int.toNat_natCast, hk2])
    all_goals (try push_cast at *)
    all_goals first | omega | exact wp_false (by omega)
  · have hsplit : ∃ b j, (b = 31 ∨ b = 32) ∧ m = b + 2 * (j + 1) := by
      rcases Nat.even_or_odd m with ⟨k, hk⟩ | ⟨k, hk⟩
      · exact ⟨32, k - 17, by simp, by omega⟩
      · exact ⟨31, k - 16, by simp, by omega⟩
    obtain ⟨b, j, hb, rfl⟩ := hsplit
    rw [dfact_split] at hr ⊢
    have hp := apProd_pos (a := (b : ℤ) + 2) (d := 2) (by omega) (by norm_num) (j+1)
    obtain ⟨B, hB⟩ : ∃ B : ℤ, B = (b‼ : ℕ) := ⟨_, rfl⟩
    have hB1 : 1 ≤ B := by rw [hB]; exact_mod_cast Nat.doubleFactorial_pos b
    rw [← hB] at hr ⊢
    have hcount : ((((b + 2 * (j+1) : ℕ) : ℤ) - ((b : ℤ) + 2)) / 2).toNat + 1 = j + 1 := by push_cast; omega
    have hpp := partial_product_contract t h1 ((b : ℤ) + 2) ((b + 2 * (j+1) : ℕ) : ℤ) 2 (by omega) (by push_cast; omega) (by norm_num)
      (by omega) hn (by rw [hcount]; nlinarith)
    rw [hcount] at hpp
    have hc : ∀ h : b < FACTORIAL2_CACHE.length, FACTORIAL2_CACHE[b] = B := by
      intro h
      rcases hb with rfl | rfl <;> simp [FACTORIAL2_CACHE, hB, Nat.doubleFactorial]
    have hl1 : FACTORIAL2_CACHE_LEN &&& 1 = 1 := by simp [FACTORIAL2_CACHE_LEN]
    have hpar : rsAnd ((b + 2 * (j+1) : ℕ) : ℤ) 1 = ((b % 2 : ℕ) : ℤ) := by rw [rsAnd_one]; congr 1; omega
    unfold primint_factorial2
    rs_inl
    rcases hb with rfl | rfl
    all_goals
      vcg
      all_goals (have hL : FACTORIAL2_CACHE_LEN = 33 := rfl)
      all_goals (try (exfalso; rename_i hcond; rw [hpar, hl1] at hcond; norm_num at hcond; done))
      all_goals (try (exfalso; omega))
      all_goals (try (exfalso; rename_i hcond; simp only [decide_eq_true_eq, hl1, ne_eq, one_ne_zero, not_false_eq_true, and_true] at hcond; push_cast at hcond; omega))
      all_goals (try simp only [FACTORIAL2_CACHE_LEN] at *)
      all_goals (try simp only [Nat.reduceSub, Nat.reduceAdd, Int.reduceAdd, hc, Nat.cast_ofNat])
      all_goals (try (refine wp_of_eq (by simpa using hpp) ?_; vcg))
      all_goals (try push_cast at *)
      all_goals first | omega | (simp only [true_and, and_true]; omega) | (exact ⟨by nlinarith, by nlinarith⟩)

theorem kfact_split (k : ℕ) (hk : 0 < k) (r q : ℕ) (hr : 0 < r) (hrk : r ≤ k) :
    (kfact k (r + q * k) : ℤ) = apProd r k (q + 1) := by
  induction q with
  | zero => rw [kfact]; simp [apProd, hr.ne', hrk]
  | succ q ih =>
    rw [kfact, if_neg (by omega), if_neg (by push Not; constructor <;> nlinarith),
      show r + (q+1) * k - k = r + q * k by rw [Nat.add_mul]; omega]
    push_cast
    rw [ih, apProd.eq_2 _ _ (q+1)]
    push_cast
    ring

theorem kfact_one (n : ℕ) : kfact 1 n = n.factorial := by
  induction n with
  | zero => rw [kfact]; simp
  | succ n ih =>
    rw [kfact]
    by_cases h : n = 0
    · subst h; simp
    · rw [if_neg (by omega), if_neg (by omega)]
      simp [ih, Nat.factorial_succ]

/-- n(n-k)(n-2k)... for every n and k > 0 for which it is representable; 0 for negative n. -/
theorem primint_factorialk_contract (t : IntTy) (ht : Prim t) (n k : ℤ) (hn : n ≤ t.hi) (hk : 0 < k) (hkt : k ≤ t.hi)
    (hr : 0 ≤ n → (kfact k.toNat n.toNat : ℤ) ≤ t.hi) :
    primint_factorialk t n k = some (if n < 0 then 0 else (kfact k.toNat n.toNat : ℤ)) := by
  obtain ⟨h1, h2, h3⟩ := ht
  rw [← wp_eq]
  by_cases hneg : n < 0
  · unfold primint_factorialk
    rs_inl
    vcg <;> first | omega | simp [hneg]
  have hr := hr (by omega)
  obtain ⟨m, rfl⟩ : ∃ m : ℕ, n = m := ⟨n.toNat, by omega⟩
  obtain ⟨d, rfl⟩ : ∃ m : ℕ, k = m := ⟨k.toNat, by omega⟩
  simp only [Int.toNat_natCast] at hr ⊢
  have hum := usizeMax_val
  have hd : 0 < d := by omega
  rw [if_neg hneg]
  by_cases hz : m = 0
  · subst hz
    unfold primint_factorialk
    rs_inl
    vcg <;> first | omega | (rw [kfact]; simp)
  have hu : (d : ℤ) = 1 → (m : ℤ) < usizeMax := by
    intro hd1
    have : d = 1 := by omega
    subst this
    rw [kfact_one] at hr
    have := fact_lt (n := m) (by omega)
    omega
  have hdm : (d : ℤ) * ((m : ℤ) / d) = m - (m : ℤ) % d := by have := Int.mul_ediv_add_emod (m : ℤ) d; omega
  have hmod0 : 0 ≤ (m : ℤ) % d := Int.emod_nonneg _ (by omega)
  have hmodlt : (m : ℤ) % d < d := Int.emod_lt_of_pos _ (by omega)
  have hcast : (m : ℤ) % d = ((m % d : ℕ) : ℤ) := by simp
  have hmd := Nat.div_add_mod m d
  have hle : d ∣ m → d ≤ m := fun h => Nat.le_of_dvd (by omega) h
  have hmle : m % d ≤ m := Nat.mod_le _ _
  have case0 : (m : ℤ) % d = 0 → partial_product t d m d = some (kfact d m : ℤ) := by
    intro h0
    have h0' : m % d = 0 := by omega
    have hdvd : d ∣ m := Nat.dvd_of_mod_eq_zero h0'
    have hdlm := hle hdvd
    obtain ⟨q, hq⟩ := hdvd
    have hq1 : 1 ≤ q := by rcases q with _ | q; · simp at hq; omega
                           · omega
    have e : (kfact d m : ℤ) = apProd d d q := by
      have := kfact_split d hd d (q-1) hd le_rfl
      rw [show q - 1 + 1 = q by omega] at this
      rw [← this]; congr 2
      rw [hq]; obtain ⟨q', rfl⟩ : ∃ q', q = q' + 1 := ⟨q-1, by omega⟩
      simp; ring
    have hcnt : (((m : ℤ) - d) / d).toNat + 1 = q := by
      have : ((m : ℤ) - d) = d * ((q : ℤ) - 1) := by rw [hq]; push_cast; ring
      rw [this, Int.mul_ediv_cancel_left _ (by omega)]; omega
    have := partial_product_contract t h1 d m d (by omega) (by omega) (by omega) hu hn (by rw [hcnt, ← e]; exact hr)
    rw [this, hcnt, e]
  have case1 : (m : ℤ) % d ≠ 0 → partial_product t ((m : ℤ) % d) m d = some (kfact d m : ℤ) := by
    intro h0
    have e : (kfact d m : ℤ) = apProd ((m : ℤ) % d) d (m / d + 1) := by
      rw [hcast, ← kfact_split d hd (m % d) (m / d) (by omega) (by omega)]
      congr 2; rw [mul_comm]; omega
    have hcnt : (((m : ℤ) - (m : ℤ) % d) / d).toNat + 1 = m / d + 1 := by
      rw [← hdm, Int.mul_ediv_cancel_left _ (by omega)]
      have : (m : ℤ) / d = ((m / d : ℕ) : ℤ) := by simp
      rw [this, Int.toNat_natCast]
    have := partial_product_contract t h1 ((m : ℤ) % d) m d (by omega) (by omega) (by omega) hu hn (by rw [hcnt, ← e]; exact hr)
    rw [this, hcnt, e]
  unfold primint_factorialk
  rs_inl
  vcg
  all_goals try omega
  all_goals first
    | exact wp_of_eq (case0 (by omega)) rfl
    | exact wp_of_eq (case1 (by omega)) rfl
    | (split
       · exact wp_of_eq (case0 (by omega)) rfl
       · exact wp_of_eq (case1 (by omega)) rfl)
    | (rename_i h; rw [hdm] at h
       first
       | exact wp_of_eq (case0 (by omega)) rfl
       | (rw [hdm, show (m : ℤ) - (m - (m : ℤ) % d) = (m : ℤ) % d by ring]; exact wp_of_eq (case1 (by omega)) rfl))

theorem prim_u8 : Prim IntTy.u8 := by constructor <;> norm_num [IntTy.u8]
theorem prim_u16 : Prim IntTy.u16 := by constructor <;> norm_num [IntTy.u16]
theorem prim_u32 : Prim IntTy.u32 := by constructor <;> norm_num [IntTy.u32]
theorem prim_u64 : Prim IntTy.u64 := by constructor <;> norm_num [IntTy.u64]
theorem prim_u128 : Prim IntTy.u128 := by constructor <;> norm_num [IntTy.u128]
theorem prim_usize : Prim IntTy.usize := by constructor <;> norm_num [IntTy.usize]
theorem prim_i8 : Prim IntTy.i8 := by constructor <;> norm_num [IntTy.i8]
theorem prim_i16 : Prim IntTy.i16 := by constructor <;> norm_num [IntTy.i16]
theorem prim_i32 : Prim IntTy.i32 := by constructor <;> norm_num [IntTy.i32]
theorem prim_i64 : Prim IntTy.i64 := by constructor <;> norm_num [IntTy.i64]
theorem prim_i128 : Prim IntTy.i128 := by constructor <;> norm_num [IntTy.i128]
theorem prim_isize : Prim IntTy.isize := by constructor <;> norm_num [IntTy.isize]

/-! ### the trait methods of every primitive type (each must forward to the contract above) -/
open Nat
theorem u8_factorial (n : ℤ) (hn : n ≤ IntTy.u8.hi) (hr : 0 ≤ n → (n.toNat.factorial : ℤ) ≤ IntTy.u8.hi) :
    Factorial_u8_factorial n = some (if n < 0 then 0 else (n.toNat.factorial : ℤ)) := by
  unfold Factorial_u8_factorial; rs_inl; exact primint_factorial_contract _ prim_u8 n hn hr
theorem u8_factorial2 (n : ℤ) (hn : n ≤ IntTy.u8.hi) (hr : 0 ≤ n → ((n.toNat‼ : ℕ) : ℤ) ≤ IntTy.u8.hi) :
    Factorial_u8_factorial2 n = some (if n < 0 then 0 else ((n.toNat‼ : ℕ) : ℤ)) := by
  unfold Factorial_u8_factorial2; rs_inl; exact primint_factorial2_contract _ prim_u8 n hn hr
theorem u8_factorialk (n k : ℤ) (hn : n ≤ IntTy.u8.hi) (hk : 0 < k) (hkt : k ≤ IntTy.u8.hi)
    (hr : 0 ≤ n → (kfact k.toNat n.toNat : ℤ) ≤ IntTy.u8.hi) :
    Factorial_u8_factorialk n k = some (if n < 0 then 0 else (kfact k.toNat n.toNat : ℤ)) := by
  unfold Factorial_u8_factorialk; rs_inl; exact primint_factorialk_contract _ prim_u8 n k hn hk hkt hr
theorem u16_factorial (n : ℤ) (hn : n ≤ IntTy.u16.hi) (hr : 0 ≤ n → (n.toNat.factorial : ℤ) ≤ IntTy.u16.hi) :
    Factorial_u16_factorial n = some (if n < 0 then 0 else (n.toNat.factorial : ℤ)) := by
  unfold Factorial_u16_factorial; rs_inl; exact primint_factorial_contract _ prim_u16 n hn hr
theorem u16_factorial2 (n : ℤ) (hn : n ≤ IntTy.u16.hi) (hr : 0 ≤ n → ((n.toNat‼ : ℕ) : ℤ) ≤ IntTy.u16.hi) :
    Factorial_u16_factorial2 n = some (if n < 0 then 0 else ((n.toNat‼ : ℕ) : ℤ)) := by
  unfold Factorial_u16_factorial2; rs_inl; exact primint_factorial2_contract _ prim_u16 n hn hr
theorem u16_factorialk (n k : ℤ) (hn : n ≤ IntTy.u16.hi) (hk : 0 < k) (hkt : k ≤ IntTy.u16.hi)
    (hr : 0 ≤ n → (kfact k.toNat n.toNat : ℤ) ≤ IntTy.u16.hi) :
    Factorial_u16_factorialk n k = some (if n < 0 then 0 else (kfact k.toNat n.toNat : ℤ)) := by
  unfold Factorial_u16_factorialk; rs_inl; exact primint_factorialk_contract _ prim_u16 n k hn hk hkt hr
theorem u32_factorial (n : ℤ) (hn : n ≤ IntTy.u32.hi) (hr : 0 ≤ n → (n.toNat.factorial : ℤ) ≤ IntTy.u32.hi) :
    Factorial_u32_factorial n = some (if n < 0 then 0 else (n.toNat.factorial : ℤ)) := by
  unfold Factorial_u32_factorial; rs_inl; exact primint_factorial_contract _ prim_u32 n hn hr
theorem u32_factorial2 (n : ℤ) (hn : n ≤ IntTy.u32.hi) (hr : 0 ≤ n → ((n.toNat‼ : ℕ) : ℤ) ≤ IntTy.u32.hi) :
    Factorial_u32_factorial2 n = some (if n < 0 then 0 else ((n.toNat‼ : ℕ) : ℤ)) := by
  unfold Factorial_u32_factorial2; rs_inl; exact primint_factorial2_contract _ prim_u32 n hn hr
theorem u32_factorialk (n k : ℤ) (hn : n ≤ IntTy.u32.hi) (hk : 0 < k) (hkt : k ≤ IntTy.u32.hi)
    (hr : 0 ≤ n → (kfact k.toNat n.toNat : ℤ) ≤ IntTy.u32.hi) :
    Factorial_u32_factorialk n k = some (if n < 0 then 0 else (kfact k.toNat n.toNat : ℤ)) := by
  unfold Factorial_u32_factorialk; rs_inl; exact primint_factorialk_contract _ prim_u32 n k hn hk hkt hr
theorem u64_factorial (n : ℤ) (hn : n ≤ IntTy.u64.hi) (hr : 0 ≤ n → (n.toNat.factorial : ℤ) ≤ IntTy.u64.hi) :
    Factorial_u64_factorial n = some (if n < 0 then 0 else (n.toNat.factorial : ℤ)) := by
  unfold Factorial_u64_factorial; rs_inl; exact primint_factorial_contract _ prim_u64 n hn hr
theorem u64_factorial2 (n : ℤ) (hn : n ≤ IntTy.u64.hi) (hr : 0 ≤ n → ((n.toNat‼ : ℕ) : ℤ) ≤ IntTy.u64.hi) :
    Factorial_u64_factorial2 n = some (if n < 0 then 0 else ((n.toNat‼ : ℕ) : ℤ)) := by
  unfold Factorial_u64_factorial2; rs_inl; exact primint_factorial2_contract _ prim_u64 n hn hr
theorem u64_factorialk (n k : ℤ) (hn : n ≤ IntTy.u64.hi) (hk : 0 < k) (hkt : k ≤ IntTy.u64.hi)
    (hr : 0 ≤ n → (kfact k.toNat n.toNat : ℤ) ≤ IntTy.u64.hi) :
    Factorial_u64_factorialk n k = some (if n < 0 then 0 else (kfact k.toNat n.toNat : ℤ)) := by
  unfold Factorial_u64_factorialk; rs_inl; exact primint_factorialk_contract _ prim_u64 n k hn hk hkt hr
theorem u128_factorial (n : ℤ) (hn : n ≤ IntTy.u128.hi) (hr : 0 ≤ n → (n.toNat.factorial : ℤ) ≤ IntTy.u128.hi) :
    Factorial_u128_factorial n = some (if n < 0 then 0 else (n.toNat.factorial : ℤ)) := by
  unfold Factorial_u128_factorial; rs_inl; exact primint_factorial_contract _ prim_u128 n hn hr
theorem u128_factorial2 (n : ℤ) (hn : n ≤ IntTy.u128.hi) (hr : 0 ≤ n → ((n.toNat‼ : ℕ) : ℤ) ≤ IntTy.u128.hi) :
    Factorial_u128_factorial2 n = some (if n < 0 then 0 else ((n.toNat‼ : ℕ) : ℤ)) := by
  unfold Factorial_u128_factorial2; rs_inl; exact primint_factorial2_contract _ prim_u128 n hn hr
theorem u128_factorialk (n k : ℤ) (hn : n ≤ IntTy.u128.hi) (hk : 0 < k) (hkt : k ≤ IntTy.u128.hi)
    (hr : 0 ≤ n → (kfact k.toNat n.toNat : ℤ) ≤ IntTy.u128.hi) :
    Factorial_u128_factorialk n k = some (if n < 0 then 0 else (kfact k.toNat n.toNat : ℤ)) := by
  unfold Factorial_u128_factorialk; rs_inl; exact primint_factorialk_contract _ prim_u128 n k hn hk hkt hr
theorem usize_factorial (n : ℤ) (hn : n ≤ IntTy.usize.hi) (hr : 0 ≤ n → (n.toNat.factorial : ℤ) ≤ IntTy.usize.hi) :
    Factorial_usize_factorial n = some (if n < 0 then 0 else (n.toNat.factorial : ℤ)) := by
  unfold Factorial_usize_factorial; rs_inl; exact primint_factorial_contract _ prim_usize n hn hr
theorem usize_factorial2 (n : ℤ) (hn : n ≤ IntTy.usize.hi) (hr : 0 ≤ n → ((n.toNat‼ : ℕ) : ℤ) ≤ IntTy.usize.hi) :
    Factorial_usize_factorial2 n = some (if n < 0 then 0 else ((n.toNat‼ : ℕ) : ℤ)) := by
  unfold Factorial_usize_factorial2; rs_inl; exact primint_factorial2_contract _ prim_usize n hn hr
theorem usize_factorialk (n k : ℤ) (hn : n ≤ IntTy.usize.hi) (hk : 0 < k) (hkt : k ≤ IntTy.usize.hi)
    (hr : 0 ≤ n → (kfact k.toNat n.toNat : ℤ) ≤ IntTy.usize.hi) :
    Factorial_usize_factorialk n k = some (if n < 0 then 0 else (kfact k.toNat n.toNat : ℤ)) := by
  unfold Factorial_usize_factorialk; rs_inl; exact primint_factorialk_contract _ prim_usize n k hn hk hkt hr
theorem i8_factorial (n : ℤ) (hn : n ≤ IntTy.i8.hi) (hr : 0 ≤ n → (n.toNat.factorial : ℤ) ≤ IntTy.i8.hi) :
    Factorial_i8_factorial n = some (if n < 0 then 0 else (n.toNat.factorial : ℤ)) := by
  unfold Factorial_i8_factorial; rs_inl; exact primint_factorial_contract _ prim_i8 n hn hr
theorem i8_factorial2 (n : ℤ) (hn : n ≤ IntTy.i8.hi) (hr : 0 ≤ n → ((n.toNat‼ : ℕ) : ℤ) ≤ IntTy.i8.hi) :
    Factorial_i8_factorial2 n = some (if n < 0 then 0 else ((n.toNat‼ : ℕ) : ℤ)) := by
  unfold Factorial_i8_factorial2; rs_inl; exact primint_factorial2_contract _ prim_i8 n hn hr
theorem i8_factorialk (n k : ℤ) (hn : n ≤ IntTy.i8.hi) (hk : 0 < k) (hkt : k ≤ IntTy.i8.hi)
    (hr : 0 ≤ n → (kfact k.toNat n.toNat : ℤ) ≤ IntTy.i8.hi) :
    Factorial_i8_factorialk n k = some (if n < 0 then 0 else (kfact k.toNat n.toNat : ℤ)) := by
  unfold Factorial_i8_factorialk; rs_inl; exact primint_factorialk_contract _ prim_i8 n k hn hk hkt hr
theorem i16_factorial (n : ℤ) (hn : n ≤ IntTy.i16.hi) (hr : 0 ≤ n → (n.toNat.factorial : ℤ) ≤ IntTy.i16.hi) :
    Factorial_i16_factorial n = some (if n < 0 then 0 else (n.toNat.factorial : ℤ)) := by
  unfold Factorial_i16_factorial; rs_inl; exact primint_factorial_contract _ prim_i16 n hn hr
theorem i16_factorial2 (n : ℤ) (hn : n ≤ IntTy.i16.hi) (hr : 0 ≤ n → ((n.toNat‼ : ℕ) : ℤ) ≤ IntTy.i16.hi) :
    Factorial_i16_factorial2 n = some (if n < 0 then 0 else ((n.toNat‼ : ℕ) : ℤ)) := by
  unfold Factorial_i16_factorial2; rs_inl; exact primint_factorial2_contract _ prim_i16 n hn hr
theorem i16_factorialk (n k : ℤ) (hn : n ≤ IntTy.i16.hi) (hk : 0 < k) (hkt : k ≤ IntTy.i16.hi)
    (hr : 0 ≤ n → (kfact k.toNat n.toNat : ℤ) ≤ IntTy.i16.hi) :
    Factorial_i16_factorialk n k = some (if n < 0 then 0 else (kfact k.toNat n.toNat : ℤ)) := by
  unfold Factorial_i16_factorialk; rs_inl; exact primint_factorialk_contract _ prim_i16 n k hn hk hkt hr
theorem i32_factorial (n : ℤ) (hn : n ≤ IntTy.i32.hi) (hr : 0 ≤ n → (n.toNat.factorial : ℤ) ≤ IntTy.i32.hi) :
    Factorial_i32_factorial n = some (if n < 0 then 0 else (n.toNat.factorial : ℤ)) := by
  unfold Factorial_i32_factorial; rs_inl; exact primint_factorial_contract _ prim_i32 n hn hr
theorem i32_factorial2 (n : ℤ) (hn : n ≤ IntTy.i32.hi) (hr : 0 ≤ n → ((n.toNat‼ : ℕ) : ℤ) ≤ IntTy.i32.hi) :
    Factorial_i32_factorial2 n = some (if n < 0 then 0 else ((n.toNat‼ : ℕ) : ℤ)) := by
  unfold Factorial_i32_factorial2; rs_inl; exact primint_factorial2_contract _ prim_i32 n hn hr
theorem i32_factorialk (n k : ℤ) (hn : n ≤ IntTy.i32.hi) (hk : 0 < k) (hkt : k ≤ IntTy.i32.hi)
    (hr : 0 ≤ n → (kfact k.toNat n.toNat : ℤ) ≤ IntTy.i32.hi) :
    Factorial_i32_factorialk n k = some (if n < 0 then 0 else (kfact k.toNat n.toNat : ℤ)) := by
  unfold Factorial_i32_factorialk; rs_inl; exact primint_factorialk_contract _ prim_i32 n k hn hk hkt hr
theorem i64_factorial (n : ℤ) (hn : n ≤ IntTy.i64.hi) (hr : 0 ≤ n → (n.toNat.factorial : ℤ) ≤ IntTy.i64.hi) :
    Factorial_i64_factorial n = some (if n < 0 then 0 else (n.toNat.factorial : ℤ)) := by
  unfold Factorial_i64_factorial; rs_inl; exact primint_factorial_contract _ prim_i64 n hn hr
theorem i64_factorial2 (n : ℤ) (hn : n ≤ IntTy.i64.hi) (hr : 0 ≤ n → ((n.toNat‼ : ℕ) : ℤ) ≤ IntTy.i64.hi) :
    Factorial_i64_factorial2 n = some (if n < 0 then 0 else ((n.toNat‼ : ℕ) : ℤ)) := by
  unfold Factorial_i64_factorial2; rs_inl; exact primint_factorial2_contract _ prim_i64 n hn hr
theorem i64_factorialk (n k : ℤ) (hn : n ≤ IntTy.i64.hi) (hk : 0 < k) (hkt : k ≤ IntTy.i64.hi)
    (hr : 0 ≤ n → (kfact k.toNat n.toNat : ℤ) ≤ IntTy.i64.hi) :
    Factorial_i64_factorialk n k = some (if n < 0 then 0 else (kfact k.toNat n.toNat : ℤ)) := by
  unfold Factorial_i64_factorialk; rs_inl; exact primint_factorialk_contract _ prim_i64 n k hn hk hkt hr
theorem i128_factorial (n : ℤ) (hn : n ≤ IntTy.i128.hi) (hr : 0 ≤ n → (n.toNat.factorial : ℤ) ≤ IntTy.i128.hi) :
    Factorial_i128_factorial n = some (if n < 0 then 0 else (n.toNat.factorial : ℤ)) := by
  unfold Factorial_i128_factorial; rs_inl; exact primint_factorial_contract _ prim_i128 n hn hr
theorem i128_factorial2 (n : ℤ) (hn : n ≤ IntTy.i128.hi) (hr : 0 ≤ n → ((n.toNat‼ : ℕ) : ℤ) ≤ IntTy.i128.hi) :
    Factorial_i128_factorial2 n = some (if n < 0 then 0 else ((n.toNat‼ : ℕ) : ℤ)) := by
  unfold Factorial_i128_factorial2; rs_inl; exact primint_factorial2_contract _ prim_i128 n hn hr
theorem i128_factorialk (n k : ℤ) (hn : n ≤ IntTy.i128.hi) (hk : 0 < k) (hkt : k ≤ IntTy.i128.hi)
    (hr : 0 ≤ n → (kfact k.toNat n.toNat : ℤ) ≤ IntTy.i128.hi) :
    Factorial_i128_factorialk n k = some (if n < 0 then 0 else (kfact k.toNat n.toNat : ℤ)) := by
  unfold Factorial_i128_factorialk; rs_inl; exact primint_factorialk_contract _ prim_i128 n k hn hk hkt hr
theorem isize_factorial (n : ℤ) (hn : n ≤ IntTy.isize.hi) (hr : 0 ≤ n → (n.toNat.factorial : ℤ) ≤ IntTy.isize.hi) :
    Factorial_isize_factorial n = some (if n < 0 then 0 else (n.toNat.factorial : ℤ)) := by
  unfold Factorial_isize_factorial; rs_inl; exact primint_factorial_contract _ prim_isize n hn hr
theorem isize_factorial2 (n : ℤ) (hn : n ≤ IntTy.isize.hi) (hr : 0 ≤ n → ((n.toNat‼ : ℕ) : ℤ) ≤ IntTy.isize.hi) :
    Factorial_isize_factorial2 n = some (if n < 0 then 0 else ((n.toNat‼ : ℕ) : ℤ)) := by
  unfold Factorial_isize_factorial2; rs_inl; exact primint_factorial2_contract _ prim_isize n hn hr
theorem isize_factorialk (n k : ℤ) (hn : n ≤ IntTy.isize.hi) (hk : 0 < k) (hkt : k ≤ IntTy.isize.hi)
    (hr : 0 ≤ n → (kfact k.toNat n.toNat : ℤ) ≤ IntTy.isize.hi) :
    Factorial_isize_factorialk n k = some (if n < 0 then 0 else (kfact k.toNat n.toNat : ℤ)) := by
  unfold Factorial_isize_factorialk; rs_inl; exact primint_factorialk_contract _ prim_isize n k hn hk hkt hr

/-! ### the specification is not vacuous -/
example : kfact 3 10 = 10 * 7 * 4 * 1 := by simp [kfact]
example : Factorial_u8_factorial 5 = some 120 :=
  u8_factorial 5 (by norm_num [IntTy.u8]) (fun _ => by show ((Nat.factorial 5 : ℕ) : ℤ) ≤ _; norm_num [IntTy.u8, Nat.factorial])

end C01

/-
C09  Initial conditions put a filter in its step-response steady state.
-/
import RsLemmas
import Gen.Zi
import Contracts.C07
import Contracts.C12
set_option linter.all false
open Classical Gen
namespace C09

/-- The state `z` is a fixed point of the direct-form-II-transposed recurrence with coefficients
`b/a[0]`, `a/a[0]` under the constant input 1, and the output is the constant `G`:
  y = b0 + z0,  z_i <- b_(i+1) - a_(i+1) y + z_(i+1)   (z past the end is 0). -/
def Steady (b a : List ℝ) (z : List ℝ) (G : ℝ) : Prop :=
  z.length + 1 = b.length ∧ b.getD 0 0 / a.getD 0 0 + z.getD 0 0 = G ∧
  ∀ i < z.length, z.getD i 0 = b.getD (i + 1) 0 / a.getD 0 0 - a.getD (i + 1) 0 / a.getD 0 0 * G + z.getD (i + 1) 0

theorem sum_getD (l : List ℝ) : ∑ k ∈ Finset.range l.length, l.getD k 0 = l.sum := by
  induction l with
  | nil => simp
  | cons x t ih =>
    rw [List.length_cons, Finset.sum_range_succ', List.sum_cons, ← ih]
    simp [add_comm]

theorem sum_div (l : List ℝ) (c : ℝ) : (l.map (fun x => x / c)).sum = l.sum / c := by
  induction l with
  | nil => simp
  | cons x t ih => rw [List.map_cons, List.sum_cons, ih, List.sum_cons, add_div]

theorem sum_rsub (x y : List ℝ) (c : ℝ) (h : x.length = y.length) (hx : x ≠ []) :
    (List.map (fun p : ℝ × ℝ => p.1 - p.2 * c) (List.zip (x.drop 1) (y.drop 1))).sum = (x.sum - x.getD 0 0) - (y.sum - y.getD 0 0) * c := by
  obtain ⟨a, x, rfl⟩ := List.exists_cons_of_ne_nil hx
  obtain ⟨b, y, rfl⟩ := List.exists_cons_of_ne_nil (l := y) (by intro e; simp [e] at h)
  simp only [List.drop_one, List.tail_cons, List.sum_cons, List.getD_cons_zero, add_sub_cancel_left]
  simp only [List.length_cons, add_left_inj] at h
  induction x generalizing y with
  | nil => have : y = [] := by simpa using h.symm
           simp [this]
  | cons p x ih =>
    obtain ⟨q, y, rfl⟩ := List.exists_cons_of_ne_nil (l := y) (by intro e; simp [e] at h)
    simp only [List.zip_cons_cons, List.map_cons, List.sum_cons]
    rw [ih (by simp) y (by simpa using h)]
    · ring

theorem col_sum (a : List ℝ) (R : RMat ℝ) (n : ℕ) (hn : a.length = n + 1) (h1 : 1 ≤ n) (h0 : a.getD 0 0 = 1)
    (hR : ∀ i < n, ∀ j < n, R.get i j = C12.entry a i j) :
    (List.map (fun i => (if i = 0 then (1 : ℝ) else 0) - R.get 0 i) (List.range n)).sum = a.sum := by
  have e : ∀ i ∈ List.range n, (if i = 0 then (1 : ℝ) else 0) - R.get 0 i = (if i = 0 then (1 : ℝ) else 0) + a.getD (i + 1) 0 := by
    intro i hi
    have hi' : i < n := List.mem_range.1 hi
    rw [hR 0 (by omega) i hi', C12.entry, if_pos rfl, if_pos (show i + 1 < a.length by omega), h0]
    ring
  rw [List.map_congr_left e, ← List.sum_toFinset _ List.nodup_range]
  rw [List.toFinset_range, Finset.sum_add_distrib, ← sum_getD a, hn, Finset.sum_range_succ', h0, add_comm]
  congr 1
  rw [Finset.sum_ite_eq' (Finset.range n) 0 (fun _ => (1 : ℝ))]
  simp; omega

theorem aux (x y w : ℝ) (h : 0 = x + y - w) : x = w - y + 0 := by linarith

set_option maxHeartbeats 1000000 in
theorem lfilter_zi_dyn_contract (b a : List ℝ) (hl : b.length = a.length) (h2 : 2 ≤ a.length) (h0 : a.getD 0 0 ≠ 0) (hs : a.sum ≠ 0) :
    wp (lfilter_zi_dyn b a) (fun z => Steady b a z (b.sum / a.sum)) := by
  obtain ⟨a0, t, rfl⟩ := List.exists_cons_of_ne_nil (l := a) (by intro e; simp [e] at h2)
  have h0' : a0 ≠ 0 := by simpa using h0
  unfold lfilter_zi_dyn
  rs_inl
  rw [if_pos hl]
  have hf : (rsEnum (a0 :: t)).find? (fun x => decide (x.2 ≠ 0)) = some (0, a0) := by
    simp [rsEnum, List.range_succ_eq_map, h0']
  have hf' : (a0 :: t).findIdx? (fun x => decide (x ≠ 0)) = some 0 := by simp [List.findIdx?_cons, h0']
  first | rw [hf] | rw [hf']
  vcg
  all_goals try (simp; done)
  simp only [List.drop_zero, List.getElem_cons_zero]
  have hAB : (if a0 ≠ 1 then (List.map (fun xi => xi / a0) (a0 :: t), List.map (fun xi => xi / a0) b) else (a0 :: t, b))
     = (List.map (fun xi => xi / a0) (a0 :: t), List.map (fun xi => xi / a0) b) := by
    split
    · rfl
    · rename_i h
      have : a0 = 1 := by simpa using h
      simp [this]
  simp only [hAB]
  generalize hA : List.map (fun xi => xi / a0) (a0 :: t) = A
  generalize hB : List.map (fun xi => xi / a0) b = B
  have hbl : b.length = t.length + 1 := by simpa using hl
  have ht : 1 ≤ t.length := by simpa using h2
  have hAl : A.length = t.length + 1 := by rw [← hA]; simp
  have hBl : B.length = t.length + 1 := by rw [← hB]; simpa using hl
  have hAg : ∀ i, A.getD i 0 = (a0 :: t).getD i 0 / a0 := by
    intro i; rw [← hA]; simp only [List.getD_eq_getElem?_getD, List.getElem?_map]; cases (a0 :: t)[i]? <;> simp
  have hBg : ∀ i, B.getD i 0 = b.getD i 0 / a0 := by
    intro i; rw [← hB]; simp only [List.getD_eq_getElem?_getD, List.getElem?_map]; cases b[i]? <;> simp
  have hAs : A.sum = (a0 :: t).sum / a0 := by rw [← hA]; simpa using sum_div (a0 :: t) a0
  have hBs : B.sum = b.sum / a0 := by rw [← hB]; simpa using sum_div b a0
  have hA0 : A.getD 0 0 = 1 := by rw [hAg]; simp [h0']
  have hAs0 : A.sum ≠ 0 := by rw [hAs]; exact div_ne_zero hs h0'
  have hG : b.sum / (a0 :: t).sum = B.sum / A.sum := by
    rw [hAs, hBs]; field_simp
  generalize hlen : t.length = n at *
  clear hA hB hAB hf hf' hAs hBs
  -- the padding loop ends at once
  have hrz : rsResize A b.length 0 = A := by rw [hbl, ← hAl]; simp [rsResize]
  generalize hr : A = r at *
  first
  | (refine wp_rsLoop (fun s => s = r) (fun _ => 0) (fun s => s = r) rfl (fun s e => ?_) ?_
     · subst e
       vcg
       all_goals try (exfalso; omega)
       all_goals simp
     intro r' e'
     rw [e']
     clear e' r')
  | skip
  vcg
  try simp only [hrz]
  refine wp_conseq (C12.companion_dyn_contract r b.length (by omega) (by intro e; simp [e] at hAl)) ?_
  rintro R ⟨r1, r2, r3⟩
  have hbn : b.length - 1 = n := by omega
  rw [hbn] at r1 r2 r3
  vcg
  all_goals try omega
  simp only [hbn]
  refine wp_of_eq (by rw [rsMatSub, if_pos (by simp [rsMatDiag, rsMatT, r1, r2])]) ?_
  vcg
  all_goals try simp only [rsMatDiag, rsMatT, List.length_replicate]
  all_goals try omega
  simp only [hbn]
  have hcs := col_sum r R n hAl ht hA0 r3
  have hB0 : ∀ h : 0 < B.length, B[0] = B.getD 0 0 := by
    intro h; rw [List.getD_eq_getElem]
  simp only [hB0]
  -- the sum of the remaining coefficients, by a fold or by a loop
  have hbs : ∑ j ∈ Finset.range n, (B.getD (j + 1) 0 - r.getD (j + 1) 0 * B.getD 0 0) = B.sum - B.getD 0 0 - (r.sum - r.getD 0 0) * B.getD 0 0 := by
    rw [Finset.sum_sub_distrib, ← Finset.sum_mul, ← sum_getD B, ← sum_getD r, hBl, hAl, Finset.sum_range_succ' (fun k => B.getD k 0), Finset.sum_range_succ' (fun k => r.getD k 0)]
    ring
  first
  | rw [sum_rsub B r _ (by omega) (by intro e; simp [e] at hBl)]
  | (refine wp_foldlM (fun i (s : ℝ) => s = ∑ j ∈ Finset.range i, (B.getD (j + 1) 0 - r.getD (j + 1) 0 * B.getD 0 0)) (by simp) ?_ ?_
     · intro i hi s hs
       have hi' : i < n := by
         simp only [rsRange, List.length_range', List.length_range] at hi
         omega
       first | rw [rsRange_getElem] | rw [List.getElem_range]
       vcg
       all_goals try omega
       have e1 : ∀ j h, r[j]'h = r.getD j 0 := by
         intro j h; rw [List.getD_eq_getElem _ _ (by omega)]
       have e2 : ∀ j h, B[j]'h = B.getD j 0 := by
         intro j h; rw [List.getD_eq_getElem _ _ (by omega)]
       simp only [e1, e2]
       rw [hs, Finset.sum_range_succ]
       simp only [add_comm 1 i]
       try ring
     intro bs hbs'
     have hln : (rsRange 1 b.length).length = n ∧ (List.range n).length = n := by simp [rsRange]; omega
     first | rw [hln.1, hbs] at hbs' | rw [hln.2, hbs] at hbs'
     rw [hbs']
     vcg
     all_goals try simp only [rsMatDiag, rsMatT, List.length_replicate]
     all_goals try omega
     simp only [hbn, hB0])
  rw [hcs]
  generalize hz : (B.sum - B.getD 0 0 - (r.sum - r.getD 0 0) * B.getD 0 0) / r.sum = z0
  have hz0 : z0 = B.sum / r.sum - B.getD 0 0 := by
    rw [← hz, hA0]; field_simp; ring
  set G := B.sum / r.sum with hGd
  clear_value G
  obtain ⟨Z, hZd⟩ : ∃ Z : ℕ → ℝ, ∀ k, Z k = (∑ j ∈ Finset.range (k + 1), r.getD j 0) * z0 - ∑ j ∈ Finset.range (k + 1), (B.getD j 0 - r.getD j 0 * B.getD 0 0) :=
    ⟨_, fun _ => rfl⟩
  have hZ0 : Z 0 = z0 := by simp only [hZd, zero_add, Finset.sum_range_one, hA0]; ring
  have hZs : ∀ k, Z (k + 1) = Z k + r.getD (k + 1) 0 * G - B.getD (k + 1) 0 := by
    intro k
    simp only [hZd]
    rw [Finset.sum_range_succ _ (k + 1), Finset.sum_range_succ _ (k + 1), hz0]
    ring
  have hZn : Z n = 0 := by
    simp only [hZd]
    rw [Finset.sum_sub_distrib, ← Finset.sum_mul, ← hAl, sum_getD, hAl, ← hBl, sum_getD, hz0, hGd]
    field_simp
    ring
  refine wp_foldlM (fun i s => s.1.length = n ∧ s.2.1 = ∑ j ∈ Finset.range (i + 1), r.getD j 0 ∧
      s.2.2 = (∑ j ∈ Finset.range (i + 1), (B.getD j 0 - r.getD j 0 * B.getD 0 0)) ∧ ∀ k ≤ i, s.1.getD k 0 = Z k) ?_ ?_ ?_
  · refine ⟨by simp, by simp only [zero_add, Finset.sum_range_one, hA0], by simp only [zero_add, Finset.sum_range_one, hA0]; ring, ?_⟩
    intro k hk
    obtain rfl : k = 0 := by omega
    rw [hZ0, List.getD_eq_getElem?_getD, List.getElem?_set_self (by simp; omega)]
    rfl
  · rintro i hi ⟨z, p, q⟩ ⟨k1, k2, k3, k4⟩
    simp only at k1 k2 k3 k4
    have hi' : i < n - 1 := by simpa [rsRange] using hi
    rw [rsRange_getElem]
    vcg
    all_goals try omega
    have e1 : ∀ h, r[1 + i]'h = r.getD (i + 1) 0 := by
      intro h; rw [List.getD_eq_getElem _ _ (by omega)]; simp only [add_comm]
    have e2 : ∀ h, B[1 + i]'h = B.getD (i + 1) 0 := by
      intro h; rw [List.getD_eq_getElem _ _ (by omega)]; simp only [add_comm]
    simp only [e1, e2]
    refine ⟨by simpa using k1, by rw [k2, Finset.sum_range_succ _ (i + 1)], by rw [k3, Finset.sum_range_succ _ (i + 1)], ?_⟩
    intro k hk
    by_cases e : k = i + 1
    · subst e
      rw [List.getD_eq_getElem?_getD, add_comm 1 i, List.getElem?_set_self (by omega), k2, k3]
      simp only [hZd, Option.getD_some]
      rw [Finset.sum_range_succ _ (i + 1), Finset.sum_range_succ _ (i + 1)]
    · rw [List.getD_eq_getElem?_getD, List.getElem?_set_ne (by omega), ← List.getD_eq_getElem?_getD, k4 k (by omega)]
  · rintro ⟨z, p, q⟩ ⟨k1, k2, k3, k4⟩
    have hln : (rsRange 1 n).length = n - 1 := by simp [rsRange]
    rw [hln] at k4
    simp only at k1 k4
    vcg
    rw [hG]
    have ha0 : (a0 :: t).getD 0 0 = a0 := rfl
    refine ⟨by omega, ?_, ?_⟩
    · rw [ha0, ← hBg, k4 0 (by omega), hZ0, hz0]; ring
    · intro i hi
      rw [ha0, ← hBg, ← hAg]
      have hi' : i < n := by omega
      rw [k4 i (by omega)]
      have := hZs i
      by_cases e : i + 1 < n
      · rw [k4 (i + 1) (by omega), this]; ring
      · have e' : i + 1 = n := by omega
        rw [List.getD_eq_default _ _ (show z.length ≤ i + 1 by omega)]
        rw [e', hZn] at this
        rw [e']
        exact aux _ _ _ this

/-- DC gain of a section -/
noncomputable def gain (s : Sos ℝ) : ℝ := (s.b 0 + s.b 1 + s.b 2) / (s.a 0 + s.a 1 + s.a 2)

/-- one section with delays `u * z`, `z` the steady state: a constant input `u` gives the constant output `u * gain`,
and the section does not change -/
theorem steady_section (s : Sos ℝ) (z : List ℝ) (u : ℝ) (ha : s.a 0 = 1)
    (hz : Steady (List.ofFn s.b) (List.ofFn s.a) z (gain s)) :
    C07.biq u { s with zi0 := u * z.getD 0 0, zi1 := u * z.getD 1 0 } =
      (u * gain s, { s with zi0 := u * z.getD 0 0, zi1 := u * z.getD 1 0 }) := by
  obtain ⟨h1, h2, h3⟩ := hz
  have hl : z.length = 2 := by simpa using h1
  have e0 := h3 0 (by omega)
  have e1 := h3 1 (by omega)
  simp [List.ofFn_succ, ha] at h2 e0 e1
  have e2 : z[2]?.getD 0 = 0 := by simp [hl]
  simp only [List.getD_eq_getElem?_getD]
  have g1 : s.b 0 * u + u * z[0]?.getD 0 = u * gain s := by rw [← h2]; ring
  simp only [C07.biq, g1]
  rw [e2] at e1
  refine Prod.ext rfl ?_
  simp only [Sos.mk.injEq, true_and]
  refine ⟨?_, ?_⟩
  · rw [e0]; ring
  · rw [e1]; ring

/-- the threaded loop: constant input `u` passes the cascade as the constant `u * product of gains`, no section changes -/
theorem chain (f : ℝ → Sos ℝ → Option (ℝ × Sos ℝ)) (l : List (Sos ℝ)) (u : ℝ)
    (hf : ∀ u, ∀ s ∈ l, wp (f u s) (fun p => p.1 = u * gain s ∧ p.2.b = s.b ∧ p.2.a = s.a ∧ C07.biq u p.2 = (u * gain s, p.2))) :
    wp (rsMapAccumM f u l) (fun r => r.2.map (fun q => (q.b, q.a)) = l.map (fun q => (q.b, q.a)) ∧
      C07.casc u r.2 = (u * (l.map gain).prod, r.2)) := by
  induction l generalizing u with
  | nil => exact wp_some ⟨rfl, by simp [C07.casc]⟩
  | cons s t ih =>
    simp only [rsMapAccumM]
    refine wp_bind (wp_conseq (hf u s (by simp)) ?_)
    rintro ⟨v, q⟩ ⟨h1, h2, h3, h4⟩
    simp only at h1 h2 h3 h4
    subst h1
    refine wp_bind (wp_conseq (ih (u * gain s) (fun u s hs => hf u s (by simp [hs]))) ?_)
    rintro ⟨w, r⟩ ⟨g1, g2⟩
    simp only at g1 g2
    refine wp_some ⟨by simp [g1, h2, h3], ?_⟩
    simp only [C07.casc, h4, g2, List.map_cons, List.prod_cons, mul_assoc]

/-- the initial delays of every section make the whole cascade answer the constant unit input with the constant
product of the DC gains, sample after sample, no state ever changing; the coefficients are those given -/
theorem sosfilt_zi_dyn_contract (s : List (Sos ℝ)) (h : ∀ q ∈ s, q.a 0 = 1 ∧ q.a 0 + q.a 1 + q.a 2 ≠ 0) :
    wp (sosfilt_zi_dyn s) (fun r => r.map (fun q => (q.b, q.a)) = s.map (fun q => (q.b, q.a)) ∧
      C07.casc 1 r = ((s.map gain).prod, r)) := by
  unfold sosfilt_zi_dyn
  rs_inl
  vcg
  refine wp_conseq (chain _ s 1 (fun u q hq => ?_)) ?_
  · obtain ⟨h1, h2⟩ := h q hq
    have ea : (List.ofFn q.a).sum = q.a 0 + q.a 1 + q.a 2 := by simp [List.ofFn_succ]; ring
    have eb : (List.ofFn q.b).sum = q.b 0 + q.b 1 + q.b 2 := by simp [List.ofFn_succ]; ring
    vcg
    refine wp_conseq (lfilter_zi_dyn_contract (List.ofFn q.b) (List.ofFn q.a) (by simp) (by simp) (by simp [List.ofFn_succ, h1]) (by rw [ea]; exact h2)) ?_
    intro z hz
    have hl : z.length = 2 := by simpa using hz.1
    rw [ea, eb] at hz
    have := steady_section q z u h1 hz
    rw [List.getD_eq_getElem _ _ (by omega : 0 < z.length), List.getD_eq_getElem _ _ (by omega : 1 < z.length)] at this
    vcg
    all_goals try omega
    refine ⟨?_, rfl, rfl, this⟩
    simp only [ea, eb]
    rfl
  · rintro ⟨u, r⟩ ⟨h1, h2⟩
    vcg
    exact ⟨h1, by simpa using h2⟩

/-- hence the step response of the cascade is constant from the first sample on, for any number of samples -/
theorem step_response (r : List (Sos ℝ)) (G : ℝ) (h : C07.casc 1 r = (G, r)) (n : ℕ) :
    C07.filt (List.replicate n 1) r = (List.replicate n G, r) := by
  induction n with
  | zero => rfl
  | succ n ih => simp only [List.replicate_succ, C07.filt, h, ih]

/-- lists of different lengths are rejected -/
theorem lfilter_zi_dyn_rejects (b a : List ℝ) (h : b.length ≠ a.length) : lfilter_zi_dyn b a = none := by
  unfold lfilter_zi_dyn
  rs_inl
  simp [h]
end C09

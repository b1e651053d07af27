import RsFourier
import Gen.Savgol
/-! Contracts of Savitzky-Golay filtering. -/
set_option maxRecDepth 4000
set_option linter.unusedTactic false
set_option linter.all false
open Gen Finset
namespace C19

/-- centred positions, descending -/
noncomputable def pos (w j : ℕ) : ℝ := ((w / 2 : ℕ) : ℝ) - j - (if w % 2 = 0 then 0.5 else 0)
/-- right-hand side of the moment equations -/
noncomputable def rhs (d : ℕ) (delta : ℝ) (i : ℕ) : ℝ := if i = d then (Nat.factorial d : ℝ) / delta ^ d else 0
/-- moment equations, one per power -/
def Moments (w p d : ℕ) (delta : ℝ) (c : List ℝ) : Prop :=
  c.length = w ∧ ∀ i ≤ p, ∑ j ∈ range w, pos w j ^ i * c.getD j 0 = rhs d delta i
/-- the coefficients are a polynomial of degree at most `p` in the position: with the moment equations this determines them -/
def Fit (w p : ℕ) (c : List ℝ) : Prop := ∃ u : ℕ → ℝ, ∀ j < w, c.getD j 0 = ∑ i ∈ range (p + 1), pos w j ^ i * u i

theorem factorial_contract (n : ℕ) : factorial n = some (Nat.factorial n) := by
  rw [← wp_eq]
  unfold Gen.factorial
  rs_inl
  vcg
  induction n with
  | zero => rfl
  | succ n ih =>
    rw [Nat.factorial_succ, ← ih]
    simp only [rsRange, Nat.add_sub_cancel]
    rw [List.range'_concat, List.prod_append]
    simp [mul_comm, add_comm]

theorem pos_inj (w i j : ℕ) (h : pos w i = pos w j) : i = j := by
  unfold pos at h
  have : (i : ℝ) = j := by linarith
  exact_mod_cast this

/-- the rows of powers of distinct positions are independent -/
theorem vandermonde (w p : ℕ) (h : p < w) (v : ℕ → ℝ) (hv : ∀ j < w, ∑ i ∈ range (p + 1), pos w j ^ i * v i = 0) : ∀ i ≤ p, v i = 0 := by
  let q : Polynomial ℝ := ∑ i ∈ range (p + 1), Polynomial.C (v i) * Polynomial.X ^ i
  have hq : ∀ x, q.eval x = ∑ i ∈ range (p + 1), x ^ i * v i := by
    intro x
    simp only [q, Polynomial.eval_finsetSum, Polynomial.eval_mul, Polynomial.eval_C, Polynomial.eval_pow, Polynomial.eval_X]
    exact sum_congr rfl (fun _ _ => mul_comm _ _)
  have hd : q.natDegree ≤ p := by
    refine Polynomial.natDegree_sum_le_of_forall_le _ _ (fun i hi => ?_)
    exact (Polynomial.natDegree_C_mul_X_pow_le _ _).trans (by have := mem_range.1 hi; omega)
  have h0 : q = 0 := by
    apply Polynomial.eq_zero_of_natDegree_lt_card_of_eval_eq_zero' q ((range w).image (pos w))
    · intro x hx
      obtain ⟨j, hj, rfl⟩ := mem_image.1 hx
      rw [hq]; exact hv j (mem_range.1 hj)
    · rw [card_image_of_injective _ (fun a b => pos_inj w a b), card_range]; omega
  intro i hi
  have := congrArg (fun r => r.coeff i) h0
  simp only [q, Polynomial.finsetSum_coeff, Polynomial.coeff_C_mul, Polynomial.coeff_X_pow, Polynomial.coeff_zero] at this
  rw [sum_eq_single i] at this
  · simpa using this
  · intro b _ hb; rw [if_neg (Ne.symm hb)]; simp
  · intro hn; exact absurd (mem_range.2 (by omega)) hn

theorem savgol_coeffs_contract (w p : ℕ) (deriv : Option ℕ) (delta : Option ℝ) (h : p < w) (hd : deriv.getD 0 ≤ p) :
    wp (savgol_coeffs_dyn w p deriv delta) (fun c => Moments w p (deriv.getD 0) (delta.getD 1) c ∧ Fit w p c) := by
  unfold savgol_coeffs_dyn
  rs_inl
  vcg
  · omega
  · omega
  -- the positions, however the two cases are written
  have hev : ∀ f g : ℕ → ℝ, (w % 2 = 0 → ∀ i < w, f i = pos w i) → (¬ w % 2 = 0 → ∀ i < w, g i = pos w i) →
      (if w % 2 = 0 then List.map f (List.range w) else List.map g (List.range w)) = (List.range w).map (pos w) := by
    intro f g h1 h2
    split
    · rename_i e; exact List.map_congr_left (fun i hi => h1 e i (List.mem_range.1 hi))
    · rename_i e; exact List.map_congr_left (fun i hi => h2 e i (List.mem_range.1 hi))
  have hodd : ∀ f g : ℕ → ℝ, (w % 2 = 0 → ∀ i < w, g i = pos w i) → (¬ w % 2 = 0 → ∀ i < w, f i = pos w i) →
      (if w % 2 = 1 then List.map f (List.range w) else List.map g (List.range w)) = (List.range w).map (pos w) := by
    intro f g h1 h2
    rw [← hev g f h1 h2]
    by_cases e : w % 2 = 0
    · rw [if_neg (by omega), if_pos e]
    · rw [if_pos (by omega), if_neg e]
  have hone : ∀ f : ℕ → ℝ, (∀ i < w, f i = pos w i) → List.map f (List.range w) = (List.range w).map (pos w) :=
    fun f h1 => List.map_congr_left (fun i hi => h1 i (List.mem_range.1 hi))
  first
    | rw [hev _ _ (fun e i _ => by unfold pos; rw [if_pos e]; try ring) (fun e i _ => by unfold pos; rw [if_neg e]; try ring)]
    | rw [hodd _ _ (fun e i _ => by unfold pos; rw [if_pos e]; try ring) (fun e i _ => by unfold pos; rw [if_neg e]; try ring)]
    | rw [hone _ (fun i _ => by
        unfold pos
        by_cases e : w % 2 = 0
        · simp only [e, if_true]; ring
        · have e' : w % 2 = 1 := by omega
          simp only [e, e', if_false]; norm_num; try ring)]
  have hidx : ∀ j < w, rsIdx ((List.range w).map (pos w)) j = some (pos w j) := by
    intro j hj
    rw [rsIdx_some (by simpa using hj)]; simp
  refine wp_of_eq (if_pos ?_) ?_
  · intro i _ j hj
    simp only [hidx j hj]; simp
  vcg
  refine wp_of_eq (factorial_contract _) ?_
  vcg
  generalize hA : (RMat.mk (p + 1) w fun i j => ((rsIdx (List.map (pos w) (List.range w)) j).bind fun e => some (e ^ i)).getD default) = A
  generalize hdd : deriv.getD 0 = d at *
  have hAg : ∀ i j, j < w → A.get i j = pos w j ^ i := by
    intro i j hj
    rw [← hA]
    simp only [hidx j hj, Option.bind_some, Option.getD_some]
  unfold rsMatSetLin
  have hdp : d < (p + 1) * 1 := by omega
  try simp only [rsMatZeros]
  refine wp_ite (fun _ => ?_) (fun h => absurd hdp h)
  unfold rsMatSet
  refine wp_ite (fun _ => ?_) (fun h => absurd ⟨by simp only; exact Nat.mod_lt _ (by omega), by simp only; rw [Nat.div_eq_of_lt (by omega)]; omega⟩ h)
  vcg
  rw [Nat.mod_eq_of_lt (show d < p + 1 by omega), Nat.div_eq_of_lt (show d < p + 1 by omega)]
  generalize hY : rsMatToList _ = Y
  have hYe : Y = (List.range (p + 1)).map (rhs d (delta.getD 1)) := by
    rw [← hY]
    unfold rsMatToList
    simp only [mul_one]
    refine List.map_congr_left (fun k hk => ?_)
    have hk := List.mem_range.1 hk
    rw [Nat.mod_eq_of_lt hk, Nat.div_eq_of_lt hk]
    unfold rhs
    by_cases e : k = d
    · simp [e]
    · simp [e]
  subst hYe
  have hn : A.nrows = p + 1 := by rw [← hA]
  have hc : A.ncols = w := by rw [← hA]
  obtain ⟨c, e, hl, h1, u, hu⟩ := (rsLstsq' A ((List.range (p + 1)).map (rhs d (delta.getD 1))) 1e-9).2 (by simp [hn]) (by norm_num) (le_refl _)
  refine wp_of_eq e ⟨⟨by rw [hl, hc], ?_⟩, u, ?_⟩
  · rw [hc, hn] at h1
    have h2 := vandermonde w p h (fun i => (∑ k ∈ range w, A.get i k * c.getD k 0) - ((List.range (p + 1)).map (rhs d (delta.getD 1))).getD i 0) (fun j hj => by
      refine Eq.trans ?_ (h1 j hj)
      exact sum_congr rfl (fun i _ => by rw [hAg i j hj]))
    intro i hi
    have h3 := h2 i hi
    rw [List.getD_eq_getElem _ _ (by simp; omega), List.getElem_map, List.getElem_range, sub_eq_zero] at h3
    rw [← h3]
    exact sum_congr rfl (fun j hj => by rw [hAg i j (mem_range.1 hj)])
  · intro j hj
    rw [hu j (by omega), hn]
    exact sum_congr rfl (fun i _ => by rw [hAg i j hj])

/-- a derivative beyond the degree of the fit is zero -/
theorem savgol_coeffs_zero (w p : ℕ) (deriv : Option ℕ) (delta : Option ℝ) (h : p < w) (hd : p < deriv.getD 0) :
    savgol_coeffs_dyn w p deriv delta = some (List.replicate w 0) := by
  rw [← wp_eq]
  unfold savgol_coeffs_dyn
  rs_inl
  vcg
  all_goals first | omega | rfl
theorem savgol_coeffs_rejects (w p : ℕ) (deriv : Option ℕ) (delta : Option ℝ) (h : w ≤ p) : savgol_coeffs_dyn w p deriv delta = none := by
  unfold savgol_coeffs_dyn
  rs_inl
  simp [h]

/-- the two conditions determine the coefficients -/
theorem fit_unique (w p d : ℕ) (delta : ℝ) (c c' : List ℝ) (h1 : Moments w p d delta c) (h2 : Fit w p c)
    (h1' : Moments w p d delta c') (h2' : Fit w p c') : c = c' := by
  obtain ⟨u, hu⟩ := h2
  obtain ⟨u', hu'⟩ := h2'
  have key : ∀ j < w, c.getD j 0 - c'.getD j 0 = 0 := by
    have hz : ∑ j ∈ range w, (c.getD j 0 - c'.getD j 0) ^ 2 = 0 := by
      have e : ∀ j ∈ range w, (c.getD j 0 - c'.getD j 0) ^ 2 = ∑ i ∈ range (p + 1), (u i - u' i) * (pos w j ^ i * c.getD j 0 - pos w j ^ i * c'.getD j 0) := by
        intro j hj
        have hj := mem_range.1 hj
        have : c.getD j 0 - c'.getD j 0 = ∑ i ∈ range (p + 1), (u i - u' i) * pos w j ^ i := by
          rw [hu j hj, hu' j hj, ← sum_sub_distrib]
          exact sum_congr rfl (fun i _ => by ring)
        rw [sq]
        conv_lhs => lhs; rw [this]
        rw [sum_mul]
        exact sum_congr rfl (fun i _ => by ring)
      rw [sum_congr rfl e, sum_comm]
      refine sum_eq_zero (fun i hi => ?_)
      rw [← mul_sum, sum_sub_distrib, h1.2 i (by have := mem_range.1 hi; omega), h1'.2 i (by have := mem_range.1 hi; omega)]
      ring
    intro j hj
    have := (sum_eq_zero_iff_of_nonneg (fun j _ => sq_nonneg _)).1 hz j (mem_range.2 hj)
    exact pow_eq_zero_iff (two_ne_zero) |>.1 this
  apply List.ext_getElem (by rw [h1.1, h1'.1])
  intro j a b
  have := key j (by rw [← h1.1]; exact a)
  rw [List.getD_eq_getElem _ _ a, List.getD_eq_getElem _ _ b] at this
  linarith

/-- one output per input: the reversed coefficients against the window centred on it, the ends repeated -/
noncomputable def filt (y c : List ℝ) (w : ℕ) : List ℝ :=
  (List.range y.length).map (fun i => ∑ k ∈ range w, y.getD (min (i + k - w / 2) (y.length - 1)) 0 * c.getD (w - 1 - k) 0)

theorem ext_getD (y0 : ℝ) (t : List ℝ) (l : ℝ) (h m : ℕ) (hl : l = ((y0 :: t).getLast?).getD 0) (hm : m < t.length + 1 + 2 * h) :
    ((([] ++ List.map (fun _ => y0) (List.range (h + 1))) ++ List.map (fun yi => yi) t) ++ List.map (fun _ => l) (List.range h)).getD m 0
      = (y0 :: t).getD (min (m - h) t.length) 0 := by
  have e0 : List.map (fun _ => y0) (List.range (h + 1)) = List.replicate h y0 ++ [y0] := by
    rw [List.range_succ, List.map_append]; simp
  have e1 : List.map (fun _ : ℕ => l) (List.range h) = List.replicate h l := by simp
  rw [e0, e1, List.map_id', List.nil_append, List.append_assoc, List.append_assoc, List.getD_eq_getElem?_getD, List.getD_eq_getElem?_getD, ← List.append_assoc [y0]]
  by_cases h1 : m < h
  · rw [List.getElem?_append_left (by simpa using h1), show m - h = 0 by omega]
    simp [h1]
  · rw [List.getElem?_append_right (by simp; omega), List.length_replicate]
    by_cases h2 : m - h < t.length + 1
    · rw [List.getElem?_append_left (by simp; omega), show min (m - h) t.length = m - h by omega]; rfl
    · rw [List.getElem?_append_right (by simp; omega), show min (m - h) t.length = t.length by omega, hl, List.getLast?_eq_getElem?]
      simp
      rw [List.getElem?_replicate, if_pos (by omega)]
      simp

theorem foldl_push (a : ℝ) (l : List ℝ) (k : ℕ) : List.foldl (fun s (_ : ℕ) => s ++ [a]) l (List.range k) = l ++ List.replicate k a := by
  induction k with
  | zero => simp
  | succ k ih => rw [List.range_succ, List.foldl_append, ih]; simp [List.replicate_succ']
theorem resize_ext (a : ℝ) (l : List ℝ) (k : ℕ) : rsResize l (l.length + k) a = l ++ List.replicate k a := by
  unfold rsResize; rw [List.take_of_length_le (by omega)]; congr 2; omega
theorem savgol_filter_contract (y : List ℝ) (w p : ℕ) (deriv : Option ℕ) (delta : Option ℝ) (hw : w % 2 = 1) (hp : p + 2 ≤ w) :
    wp (savgol_filter_dyn y w p deriv delta) (fun r => ∃ c, savgol_coeffs_dyn w p deriv delta = some c ∧ r = filt y c w) := by
  obtain ⟨c, hc, hlen⟩ : ∃ c, savgol_coeffs_dyn w p deriv delta = some c ∧ c.length = w := by
    by_cases hd : deriv.getD 0 ≤ p
    · obtain ⟨c, e, h1, _⟩ := savgol_coeffs_contract w p deriv delta (by omega) hd
      exact ⟨c, e, h1.1⟩
    · exact ⟨_, savgol_coeffs_zero w p deriv delta (by omega) (by omega), by simp⟩
  unfold savgol_filter_dyn
  rs_inl
  vcg
  · omega
  · omega
  refine wp_of_eq hc ?_
  vcg
  cases y with
  | nil => dsimp only [List.head?_nil]; vcg; exact ⟨c, hc, rfl⟩
  | cons y0 t =>
    simp only [List.head?_cons, List.tail_cons]
    simp -failIfUnchanged only [foldl_push, resize_ext, List.map_id', List.map_id_fun', List.map_const', List.length_range, List.nil_append]
    have hlast : (List.replicate (w / 2 + 1) y0 ++ t).getLast? = some (((y0 :: t).getLast?).getD 0) := by
      rcases List.eq_nil_or_concat t with rfl | ⟨t', z, rfl⟩
      · rw [List.append_nil, List.replicate_succ']; simp
      · rw [List.concat_eq_append, ← List.append_assoc, List.getLast?_concat, ← List.cons_append, List.getLast?_concat]; rfl
    refine wp_bind (wp_of_eq hlast ?_)
    vcg
    · refine ⟨c, hc, ?_⟩
      simp -failIfUnchanged only [foldl_push, resize_ext, List.map_const', List.length_range]
      generalize hE : (List.replicate (w / 2 + 1) y0 ++ t ++ List.replicate (w / 2) (((y0 :: t).getLast?).getD 0)) = E
      have hEl : E.length = t.length + w := by
        rw [← hE]; simp; omega
      have hEg : ∀ m < t.length + w, E.getD m 0 = (y0 :: t).getD (min (m - w / 2) t.length) 0 := by
        intro m hm
        rw [← hE]
        have := ext_getD y0 t _ (w / 2) m rfl (by omega)
        simpa only [List.nil_append, List.map_id', List.map_const', List.length_range] using this
      unfold filt rsWindows
      rw [List.map_map, hEl, show t.length + w + 1 - w = (y0 :: t).length by simp; omega]
      refine List.map_congr_left (fun i hi => ?_)
      have hi := List.mem_range.1 hi
      simp only [List.length_cons] at hi ⊢
      simp only [Function.comp, Nat.add_sub_cancel]
      have hzip : List.map (fun x : ℝ × ℝ => x.1 * x.2) (((E.drop i).take w).zip c.reverse) =
          (List.range w).map (fun k => (y0 :: t).getD (min (i + k - w / 2) t.length) 0 * c.getD (w - 1 - k) 0) := by
        apply List.ext_getElem
        · simp; omega
        · intro k h1 h2
          simp only [List.length_map, List.length_range] at h2
          simp only [List.getElem_map, List.getElem_zip, List.getElem_take, List.getElem_drop, List.getElem_range, List.getElem_reverse]
          rw [← hEg (i + k) (by omega), List.getD_eq_getElem E _ (by omega), List.getD_eq_getElem c _ (by omega)]
          congr 2
          omega
      rw [hzip, Fourier.sum_list_range]
    · omega

theorem savgol_filter_rejects (y : List ℝ) (w p : ℕ) (deriv : Option ℕ) (delta : Option ℝ) (h : w % 2 = 0 ∨ w < p + 2) : savgol_filter_dyn y w p deriv delta = none := by
  unfold savgol_filter_dyn
  rs_inl
  by_cases h1 : w % 2 = 0
  · simp [h1]
  · rcases h with h | h
    · contradiction
    · simp [h1, h]

/-- away from the ends the filter returns the derivative of any polynomial of degree at most `p`, exactly -/
theorem exact_on_polynomials (q : Polynomial ℝ) (w p d : ℕ) (delta : ℝ) (c : List ℝ) (hq : q.natDegree ≤ p) (hw : w % 2 = 1) (hd : d ≤ p)
    (hc : Moments w p d delta c) (n i : ℕ) (h1 : w / 2 ≤ i) (h2 : i + w / 2 < n) :
    (filt ((List.range n).map (fun j : ℕ => q.eval (j : ℝ))) c w).getD i 0 = (Polynomial.derivative^[d] q).eval (i : ℝ) / delta ^ d := by
  unfold filt
  rw [List.getD_eq_getElem _ _ (by simp; omega), List.getElem_map, List.getElem_range]
  have e1 : ∀ k ∈ range w, ((List.range n).map (fun j : ℕ => q.eval (j : ℝ))).getD (min (i + k - w / 2) (((List.range n).map (fun j : ℕ => q.eval (j : ℝ))).length - 1)) 0 * c.getD (w - 1 - k) 0
      = ∑ r ∈ range (p + 1), (Polynomial.taylor (i : ℝ) q).coeff r * (pos w (w - 1 - k) ^ r * c.getD (w - 1 - k) 0) := by
    intro k hk
    have hk := mem_range.1 hk
    rw [List.length_map, List.length_range, show min (i + k - w / 2) (n - 1) = i + k - w / 2 by omega,
      List.getD_eq_getElem _ _ (by simp; omega), List.getElem_map, List.getElem_range]
    have hpos : ((i + k - w / 2 : ℕ) : ℝ) = pos w (w - 1 - k) + i := by
      unfold pos
      rw [if_neg (by omega), Nat.cast_sub (by omega), Nat.cast_sub (by omega), Nat.cast_sub (by omega)]
      have : (w : ℝ) = 2 * ((w / 2 : ℕ) : ℝ) + 1 := by
        exact_mod_cast (by omega : w = 2 * (w / 2) + 1)
      push_cast
      linarith
    rw [hpos, ← Polynomial.taylor_eval, Polynomial.eval_eq_sum_range' (n := p + 1) (by rw [Polynomial.natDegree_taylor]; omega), sum_mul]
    exact sum_congr rfl (fun r _ => by ring)
  rw [sum_congr rfl e1, sum_comm]
  have e2 : ∀ r ∈ range (p + 1), ∑ k ∈ range w, (Polynomial.taylor (i : ℝ) q).coeff r * (pos w (w - 1 - k) ^ r * c.getD (w - 1 - k) 0)
      = if r = d then (Polynomial.taylor (i : ℝ) q).coeff d * ((Nat.factorial d : ℝ) / delta ^ d) else 0 := by
    intro r hr
    rw [← mul_sum, sum_range_reflect (fun m => pos w m ^ r * c.getD m 0) w, hc.2 r (by have := mem_range.1 hr; omega)]
    unfold rhs
    split
    · rename_i e; rw [e]
    · ring
  rw [sum_congr rfl e2, sum_ite_eq', if_pos (mem_range.2 (by omega)), Polynomial.taylor_coeff]
  rw [← Polynomial.factorial_smul_hasseDeriv]
  simp
  ring
end C19

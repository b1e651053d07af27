import RsLemmas
import Gen.Tf
/-! Contracts of `poly_dyn` and `zpk2tf_dyn` (coefficients of the monic polynomial with the given roots). -/
set_option maxRecDepth 4000
set_option linter.unusedTactic false
set_option linter.unreachableTactic false
set_option linter.unusedSimpArgs false
open Gen Polynomial
namespace C16

/-- the monic polynomial with the given roots -/
noncomputable def P (l : List ℂ) : ℂ[X] := (l.map (fun w => X - C w)).prod
/-- its coefficients, highest degree first -/
noncomputable def desc (l : List ℂ) : List ℂ := (List.range (l.length + 1)).map (fun i => (P l).coeff (l.length - i))

theorem P_append (l : List ℂ) (w : ℂ) : P (l ++ [w]) = P l * (X - C w) := by simp [P]
theorem P_degree (l : List ℂ) : (P l).natDegree = l.length := by
  have h : (P l).Monic ∧ (P l).natDegree = l.length := by
    induction l with
    | nil => simp [P]
    | cons w l ih =>
      have e : P (w :: l) = (X - C w) * P l := by simp [P]
      rw [e]
      refine ⟨(monic_X_sub_C w).mul ih.1, ?_⟩
      rw [(monic_X_sub_C w).natDegree_mul ih.1, ih.2, natDegree_X_sub_C, List.length_cons, add_comm]
  exact h.2
theorem desc_length (l : List ℂ) : (desc l).length = l.length + 1 := by simp [desc]
theorem desc_getD (l : List ℂ) (i : ℕ) : (desc l).getD i 0 = if i ≤ l.length then (P l).coeff (l.length - i) else 0 := by
  unfold desc
  split
  · rename_i h
    rw [List.getD_eq_getElem _ _ (by simp; omega)]; simp
  · rename_i h
    rw [List.getD_eq_default _ _ (by simp; omega)]
theorem getElem_eq_getD (l : List ℂ) (i : ℕ) (h : i < l.length) : l[i] = l.getD i 0 := by
  rw [List.getD_eq_getElem _ _ h]

/-- the part of output coefficient `i` contributed by the coefficients before `u` -/
noncomputable def part (a : List ℂ) (w : ℂ) (i u : ℕ) : ℂ :=
  (if 1 ≤ i ∧ i - 1 < u then a.getD (i - 1) 0 * -w else 0) + (if i < u then a.getD i 0 else 0)
/-- multiplication by `X - w` on coefficient lists -/
noncomputable def step (a : List ℂ) (w : ℂ) : List ℂ := (List.range (a.length + 1)).map (fun i => part a w i a.length)
/-- the same, only the first `k` coefficients computed -/
noncomputable def stepTo (a : List ℂ) (w : ℂ) (k : ℕ) : List ℂ :=
  (List.range (a.length + 1)).map (fun i => if i < k then part a w i a.length else 0)

theorem stepTo_zero (a : List ℂ) (w : ℂ) : stepTo a w 0 = List.replicate (a.length + 1) 0 := by
  apply List.ext_getElem <;> simp [stepTo]
theorem stepTo_all (a : List ℂ) (w : ℂ) : stepTo a w (a.length + 1) = step a w := by
  refine List.map_congr_left (fun i hi => ?_)
  rw [if_pos (List.mem_range.1 hi)]
theorem stepTo_succ (a : List ℂ) (w : ℂ) (k : ℕ) (x : ℂ) (hx : x = part a w k a.length) : (stepTo a w k).set k x = stepTo a w (k + 1) := by
  subst hx
  apply List.ext_getElem
  · simp [stepTo]
  · intro i h1 h2
    rw [List.getElem_set]
    simp only [stepTo, List.getElem_map, List.getElem_range]
    split
    · rename_i e; subst e; simp
    · by_cases h : i < k
      · rw [if_pos h, if_pos (by omega)]
      · rw [if_neg h, if_neg (by omega)]
theorem step_desc (l : List ℂ) (w : ℂ) : step (desc l) w = desc (l ++ [w]) := by
  unfold step
  conv_rhs => unfold desc
  rw [desc_length, List.length_append, List.length_singleton]
  refine List.map_congr_left (fun i hi => ?_)
  have hi := List.mem_range.1 hi
  unfold part
  rw [desc_getD, desc_getD, P_append, mul_sub, coeff_sub]
  rcases Nat.eq_zero_or_pos i with rfl | hp
  · simp only [Nat.sub_zero, coeff_mul_X, coeff_mul_C, show ¬ (1 ≤ 0 ∧ 0 - 1 < l.length + 1) by omega, if_false, zero_add]
    rw [if_pos (by omega), if_pos (by omega), coeff_eq_zero_of_natDegree_lt (n := l.length + 1) (by rw [P_degree]; omega)]
    simp
  · rw [if_pos ⟨hp, by omega⟩, if_pos (show i - 1 ≤ l.length by omega), show l.length - (i - 1) = l.length + 1 - i by omega]
    by_cases h : i < l.length + 1
    · rw [if_pos h, if_pos (show i ≤ l.length by omega), show l.length + 1 - i = l.length - i + 1 by omega, coeff_mul_X, coeff_mul_C]
      ring
    · rw [if_neg h, show l.length + 1 - i = 0 by omega, coeff_mul_C, mul_coeff_zero, coeff_X_zero]
      ring

theorem sort_perm {α : Type} (cmp : α → α → Ordering) (l : List α) : (rsSortUnst cmp l).Perm l := (rsSortUnst' cmp l).2.1
theorem sort_cplx_dyn_contract (l : List ℂ) : wp (sort_cplx_dyn l) (fun r => r.Perm l) := by
  unfold sort_cplx_dyn
  rs_inl
  vcg
  exact sort_perm _ _
theorem zip_all_eq (l m : List ℂ) (hl : l.length = m.length) (h : (List.zip l m).all (fun x => decide (x.1 = x.2)) = true) : l = m := by
  apply List.ext_getElem hl
  intro i h1 h2
  rw [List.all_eq_true] at h
  have := h (l[i], m[i]) (by
    rw [List.mem_iff_getElem]
    exact ⟨i, by simp; omega, by simp⟩)
  simpa using this

/-- roots closed under conjugation: real coefficients -/
theorem P_conj (l : List ℂ) (h : (l.map (fun w => (starRingEnd ℂ) w)).Perm l) (n : ℕ) : (starRingEnd ℂ) ((P l).coeff n) = (P l).coeff n := by
  have : (P l).map (starRingEnd ℂ) = P l := by
    unfold P
    rw [Polynomial.map_list_prod, List.map_map]
    have : List.map (Polynomial.map (starRingEnd ℂ) ∘ fun w => X - C w) l = List.map (fun w => X - C w) (l.map (fun w => (starRingEnd ℂ) w)) := by
      rw [List.map_map]
      exact List.map_congr_left (fun w _ => by simp)
    rw [this]
    exact (h.map _).prod_eq
  conv_rhs => rw [← this]
  rw [coeff_map]

theorem ker_get (w : ℂ) (j : ℕ) (h : j < [1, -w].length) : [1, -w][j] = if j = 0 then 1 else -w := by
  match j, h with
  | 0, _ => rfl
  | 1, _ => rfl
theorem part_succ (a : List ℂ) (w : ℂ) (i u : ℕ) (hu : u ≤ i) (h : i - u < 2) (ha : u < a.length) :
    part a w i (u + 1) = part a w i u + a[u] * (if i - u = 0 then 1 else -w) := by
  unfold part
  rw [getElem_eq_getD]
  by_cases e : u = i
  · subst e
    rw [if_neg (lt_irrefl u), if_pos (show u < u + 1 by omega), if_pos (show u - u = 0 by omega)]
    by_cases h0 : 1 ≤ u
    · rw [if_pos ⟨h0, by omega⟩, if_pos ⟨h0, by omega⟩]; ring
    · rw [if_neg (by omega), if_neg (by omega)]; ring
  · rw [if_neg (show ¬ i < u by omega), if_neg (show ¬ i < u + 1 by omega), if_pos (by omega), if_neg (by omega), if_neg (by omega), show i - 1 = u by omega]
    ring
theorem part_skip (a : List ℂ) (w : ℂ) (i u : ℕ) (h : ¬ i - u < 2) : part a w i (u + 1) = part a w i u := by
  unfold part
  rw [if_neg (by omega), if_neg (by omega), if_neg (by omega), if_neg (by omega)]
/-- the product, only the contributions of the first `u` coefficients -/
noncomputable def scat (a : List ℂ) (w : ℂ) (u : ℕ) : List ℂ := (List.range (a.length + 1)).map (fun i => part a w i u)
theorem scat_zero (a : List ℂ) (w : ℂ) : scat a w 0 = List.replicate (a.length + 1) 0 := by
  apply List.ext_getElem <;> simp [scat, part]
theorem scat_length (a : List ℂ) (w : ℂ) (u : ℕ) : (scat a w u).length = a.length + 1 := by simp [scat]
theorem scat_get (a : List ℂ) (w : ℂ) (u j : ℕ) (h : j < (scat a w u).length) : (scat a w u)[j] = part a w j u := by simp [scat]
theorem part_lo (a : List ℂ) (w : ℂ) (u : ℕ) (hu : u < a.length) : part a w u (u + 1) = part a w u u + a[u] := by
  have := part_succ a w u u (le_refl u) (by omega) hu
  rwa [if_pos (by omega), mul_one] at this
theorem part_hi (a : List ℂ) (w : ℂ) (u : ℕ) (hu : u < a.length) : part a w (u + 1) (u + 1) = part a w (u + 1) u + a[u] * -w := by
  have := part_succ a w (u + 1) u (by omega) (by omega) hu
  rwa [if_neg (by omega)] at this
theorem part_other (a : List ℂ) (w : ℂ) (j u : ℕ) (h1 : j ≠ u) (h2 : j ≠ u + 1) : part a w j (u + 1) = part a w j u := by
  unfold part
  by_cases c : j < u
  · by_cases c0 : 1 ≤ j
    · rw [if_pos (by omega), if_pos (by omega), if_pos (by omega), if_pos (by omega)]
    · rw [if_neg (by omega), if_pos (by omega), if_neg (by omega), if_pos (by omega)]
  · rw [if_neg (by omega), if_neg (by omega), if_neg (by omega), if_neg (by omega)]
theorem scat_succ (a : List ℂ) (w : ℂ) (u : ℕ) (hu : u < a.length) (x y : ℂ) (hx : x = part a w u u + a[u]) (hy : y = part a w (u + 1) u + a[u] * -w) :
    ((scat a w u).set u x).set (u + 1) y = scat a w (u + 1) ∧ ((scat a w u).set (u + 1) y).set u x = scat a w (u + 1) := by
  have key : ((scat a w u).set u x).set (u + 1) y = scat a w (u + 1) := by
    apply List.ext_getElem
    · simp [scat]
    · intro j h1 h2
      rw [List.getElem_set, List.getElem_set]
      simp only [scat_get]
      split
      · rename_i e; subst e; rw [hy, part_hi a w u hu]
      · split
        · rename_i e; subst e; rw [hx, part_lo a w _ hu]
        · rw [part_other a w j u (by omega) (by omega)]
  exact ⟨key, by rw [← key]; exact List.set_comm _ _ (by omega)⟩
/-- coefficients past the end contribute nothing -/
theorem part_end (a : List ℂ) (w : ℂ) (i : ℕ) (hi : i ≤ a.length) (ha : 1 ≤ a.length) : part a w i (min i (a.length - 1) + 1) = part a w i a.length := by
  by_cases h : i = a.length
  · rw [show min i (a.length - 1) + 1 = a.length by omega]
  · unfold part
    rw [show min i (a.length - 1) = i by omega]
    by_cases h0 : 1 ≤ i
    · rw [if_pos (by omega), if_pos (by omega), if_pos (by omega), if_pos (by omega)]
    · rw [if_neg (by omega), if_pos (by omega), if_neg (by omega), if_pos (by omega)]

theorem poly_dyn_contract (z : List ℂ) : poly_dyn z = some (desc z) := by
  rw [← wp_eq]
  unfold poly_dyn
  rs_inl
  vcg
  refine wp_foldlM (fun k s => s = desc (z.take k)) ?_ ?_ ?_
  · simp [desc, P]
  · rintro k hk s rfl
    generalize hw : z[k] = w
    generalize ha : desc (z.take k) = a
    have hal : 1 ≤ a.length := by rw [← ha, desc_length]; omega
    vcg
    all_goals first | omega | skip
    first
    | (refine wp_foldlM (fun i t => t = stepTo a w i) ?_ ?_ ?_
       · rw [stepTo_zero]; simp [rsResize]
       · intro i hi t ht
         subst ht
         rw [List.getElem_range]
         have hi' : i ≤ a.length := by simp at hi; omega
         have hlen : i < (stepTo a w i).length := by simp [stepTo]; omega
         have hz : (stepTo a w i)[i] = 0 := by simp [stepTo]
         have hr : rsRange 0 (min i (a.length - 1) + 1) = List.range (min i (a.length - 1) + 1) := by
           simp [rsRange, List.range_eq_range']
         vcg
         all_goals first | omega | skip
         · simp only [List.length_cons, List.length_nil]; omega
         · rename_i h1 h2
           rw [hz, zero_add]
           refine stepTo_succ a w i _ ?_
           have hp := part_succ a w i 0 (by omega) (by omega) hal
           rw [show part a w i 0 = 0 by simp [part], zero_add, zero_add] at hp
           rw [ker_get, ← hp, ← part_end a w i hi' hal, ← h2, zero_add]
         · rename_i h1 h2
           rw [hr]
           refine wp_foldlM (fun u t => t = (stepTo a w i).set i (part a w i u)) ?_ ?_ ?_
           · rw [show part a w i 0 = (stepTo a w i)[i] by rw [hz]; simp [part], List.set_getElem_self]
           · intro u hu t ht
             subst ht
             rw [List.getElem_range]
             simp only [List.length_range] at hu
             vcg
             all_goals first | omega | skip
             · simpa using hlen
             · simpa using hlen
             · rename_i h3
               rw [ker_get, List.getElem_set_self, List.set_set, part_succ a w i u (by omega) h3 (by omega)]
             · rename_i h3
               rw [part_skip a w i u h3]
           · rintro t rfl
             rw [List.length_range]
             exact stepTo_succ a w i _ (part_end a w i hi' hal)
       · rintro t rfl
         vcg
         rw [List.length_range, show a.length + 2 - 1 = a.length + 1 by omega, stepTo_all, ← ha, step_desc, ← hw]
         simp)
    | (-- each coefficient adds its two contributions
       refine wp_foldlM (fun u t => t = scat a w u) ?_ ?_ ?_
       · rw [scat_zero]; simp [rsResize]
       · intro u hu t ht
         subst ht
         have hu' : u < a.length := by simpa [rsEnum, rsRange] using hu
         have hl := scat_length a w u
         have hen : rsEnum [(1 : ℂ), -w] = [(0, 1), (1, -w)] := rfl
         try simp only [hen, List.foldlM_cons, List.foldlM_nil, add_zero]
         try simp only [rsEnum, List.getElem_zip, List.getElem_range, rsRange_getElem, zero_add]
         vcg
         all_goals try simp only [List.length_set, List.length_cons, List.length_nil]
         all_goals first | omega | skip
         try simp only [ker_get, scat_get, List.getElem_set, List.getElem_cons_zero, List.getElem_cons_succ]
         first
         | exact (scat_succ a w u hu' _ _ (by simp [scat_get]) (by simp [scat_get])).1
         | exact (scat_succ a w u hu' _ _ (by simp [scat_get]) (by simp [scat_get])).2
       · rintro t rfl
         vcg
         have hl : (rsEnum a).length = a.length := by simp [rsEnum]
         try simp only [hl, List.length_range]
         rw [show scat a w a.length = step a w from rfl, ← ha, step_desc, ← hw]
         simp)
    | (-- each output takes at most two terms
       refine wp_foldlM (fun i t => t = stepTo a w i) ?_ ?_ ?_
       · rw [stepTo_zero]; simp [rsResize]
       · intro i hi t ht
         subst ht
         rw [List.getElem_range]
         have hi' : i ≤ a.length := by simp at hi; omega
         have hlen : i < (stepTo a w i).length := by simp [stepTo]; omega
         have hz : (stepTo a w i)[i] = 0 := by simp [stepTo]
         vcg
         all_goals try simp only [List.length_set, List.length_cons, List.length_nil]
         all_goals try omega
         all_goals
           simp only [List.getElem_set_self, List.set_set, hz]
           refine stepTo_succ a w i _ ?_
           simp only [getElem_eq_getD, part]
           split_ifs <;> first | omega | (exfalso; omega) | (simp; done) | (simp; ring)
       · rintro t rfl
         vcg
         rw [List.length_range, show a.length + 2 - 1 = a.length + 1 by omega, stepTo_all, ← ha, step_desc, ← hw]
         simp)
    | (-- each output runs over all coefficients
       refine wp_foldlM (fun i t => t = stepTo a w i) ?_ ?_ ?_
       · rw [stepTo_zero]; simp [rsResize]
       · intro i hi t ht
         subst ht
         rw [List.getElem_range]
         have hi' : i ≤ a.length := by simp at hi; omega
         have hlen : i < (stepTo a w i).length := by simp [stepTo]; omega
         have hz : (stepTo a w i)[i] = 0 := by simp [stepTo]
         vcg
         refine wp_foldlM (fun u t => t = (stepTo a w i).set i (part a w i u)) ?_ ?_ ?_
         · rw [show part a w i 0 = (stepTo a w i)[i] by rw [hz]; simp [part], List.set_getElem_self]
         · intro u hu t ht
           subst ht
           rw [List.getElem_range]
           simp only [List.length_range] at hu
           vcg
           all_goals try simp only [List.length_set, List.length_cons, List.length_nil]
           all_goals try (rename_i hc; have hc' := of_decide_eq_true hc)
           all_goals try (rename_i hc; have hc' := mt decide_eq_true hc)
           all_goals try omega
           all_goals try simp only [Bool.false_eq_true] at *
           all_goals first
             | rw [ker_get, List.getElem_set_self, List.set_set, part_succ a w i u (by omega) (by omega) (by omega)]
             | rw [part_other a w i u (by omega) (by omega)]
             | (exfalso; rename_i hc; exact Bool.false_ne_true hc)
             | (exfalso; rename_i hc _; exact Bool.false_ne_true hc)
         · rintro t rfl
           rw [List.length_range]
           try vcg
           exact stepTo_succ a w i _ rfl
       · rintro t rfl
         vcg
         rw [List.length_range, show a.length + 2 - 1 = a.length + 1 by omega, stepTo_all, ← ha, step_desc, ← hw]
         simp)
  · rintro s rfl
    rw [List.take_length]
    vcg
    refine wp_conseq (sort_cplx_dyn_contract z) (fun r hr => ?_)
    vcg
    refine wp_conseq (sort_cplx_dyn_contract _) (fun r' hr' => ?_)
    vcg
    split
    · rename_i h
      have e := zip_all_eq r r' (by rw [hr.length_eq, hr'.length_eq]; simp) h
      have hp : (z.map (fun w => (starRingEnd ℂ) w)).Perm z := hr'.symm.trans (e ▸ hr)
      unfold desc
      rw [List.map_map]
      refine List.map_congr_left (fun i _ => ?_)
      exact Complex.conj_eq_iff_re.1 (P_conj z hp _)
    · rfl

/-- the first `n` values, padded with zeros -/
noncomputable def pad (n : ℕ) (l : List ℝ) : List ℝ := (List.range n).map (fun i => l.getD i 0)
theorem overwrite_pad (n : ℕ) (l : List ℂ) :
    rsOverwrite (List.replicate n (0 : ℝ)) ((List.map (fun x : ℂ × ℝ => (x.1, x.1.re)) (List.zip l (List.replicate n (0 : ℝ)))).map Prod.snd) = pad n (l.map (fun c => c.re)) := by
  unfold rsOverwrite pad
  apply List.ext_getElem
  · simp
  · intro i h1 h2
    rw [List.getElem_append]
    simp only [List.length_map, List.length_zip, List.length_replicate, List.getElem_map, List.getElem_range, List.getElem_zip]
    split
    · rename_i h
      rw [List.getD_eq_getElem _ _ (by simp; omega)]; simp
    · rename_i h
      simp at h2
      rw [List.getD_eq_default _ _ (by simp; omega)]; simp
theorem overwrite_pad' (n : ℕ) (l : List ℂ) :
    rsOverwrite (List.replicate n (0 : ℝ)) ((List.map (fun x : ℝ × ℂ => (x.2.re, x.2)) (List.zip (List.replicate n (0 : ℝ)) l)).map Prod.fst) = pad n (l.map (fun c => c.re)) := by
  rw [← overwrite_pad]
  congr 1
  apply List.ext_getElem
  · simp [min_comm]
  · intro i h1 h2
    simp
theorem re_ite (c : Prop) [Decidable c] (l : List ℂ) : (if c then l.map (fun x => ((x.re : ℝ) : ℂ)) else l).map (fun x => x.re) = l.map (fun x => x.re) := by
  split
  · rw [List.map_map]; exact List.map_congr_left (fun x _ => by simp)
  · rfl
theorem re_scale (k : ℝ) (l : List ℂ) : (l.map (fun x => (k : ℂ) * x)).map (fun x => x.re) = l.map (fun x => k * x.re) := by
  rw [List.map_map]; exact List.map_congr_left (fun x _ => by simp)
theorem zpk2tf_dyn_contract (order : ℕ) (z p : List ℂ) (k : ℝ) : zpk2tf_dyn order z p k =
    some ⟨pad (order + 1) ((desc z).map (fun c => k * c.re)), pad (order + 1) ((desc p).map (fun c => c.re))⟩ := by
  rw [← wp_eq]
  unfold zpk2tf_dyn
  rs_inl
  vcg
  refine wp_of_eq (poly_dyn_contract z) ?_
  vcg
  refine wp_of_eq (poly_dyn_contract p) ?_
  vcg
  all_goals repeat' (refine wp_conseq (sort_cplx_dyn_contract _) (fun _ _ => ?_); vcg)
  all_goals simp only [overwrite_pad, overwrite_pad', re_ite, re_scale]
end C16

/-
C14  Frequency transformations substitute s as documented.
-/
import RsLemmas
import Gen.Freq
set_option linter.all false
open Classical Gen ComplexConjugate
namespace C14

/-- product of (s - root) over the roots -/
noncomputable def poly (l : List ℂ) (s : ℂ) : ℂ := (l.map (fun w => s - w)).prod
/-- transfer function of a zeros/poles/gain filter -/
noncomputable def H (f : ZpkFormatFilter ℝ) (s : ℂ) : ℂ := (f.k : ℂ) * poly f.z s / poly f.p s
/-- closed under conjugation, with multiplicity -/
def Real' (l : List ℂ) : Prop := (l.map (fun w => conj w)).Perm l
/-- at most as many zeros as poles, zeros and poles closed under conjugation -/
structure Proper (f : ZpkFormatFilter ℝ) : Prop where
  deg : f.z.length ≤ f.p.length
  rz : Real' f.z
  rp : Real' f.p

theorem prod_real (l : List ℂ) (g : ℂ → ℂ) (hg : ∀ w, g (conj w) = conj (g w)) (h : Real' l) : (((l.map g).prod.re : ℝ) : ℂ) = (l.map g).prod := by
  rw [← Complex.conj_eq_iff_re, map_list_prod, List.map_map]
  have : List.map (⇑(starRingEnd ℂ) ∘ g) l = List.map g (l.map (fun w => conj w)) := by
    rw [List.map_map]; exact List.map_congr_left (fun w _ => (hg w).symm)
  rw [this]
  exact (h.map g).prod_eq

theorem foldl_prod (l : List ℂ) (c : ℂ) : List.foldl (fun s z => s * z) c l = c * l.prod := by
  induction l generalizing c with
  | nil => simp
  | cons x t ih => rw [List.foldl_cons, ih, List.prod_cons, mul_assoc]

theorem poly_append (l m : List ℂ) (s : ℂ) : poly (l ++ m) s = poly l s * poly m s := by simp [poly]
theorem poly_const (n : ℕ) (c s : ℂ) : poly (List.replicate n c) s = (s - c) ^ n := by simp [poly]
/-- each factor scaled: s - f w = c w * (u - w) -/
theorem poly_map (l : List ℂ) (f g : ℂ → ℂ) (s u : ℂ) (h : ∀ w ∈ l, s - f w = g w * (u - w)) : poly (l.map f) s = (l.map g).prod * poly l u := by
  induction l with
  | nil => simp [poly]
  | cons x t ih =>
    simp only [poly, List.map_cons, List.prod_cons] at ih ⊢
    rw [h x (by simp), ih (fun w hw => h w (by simp [hw]))]
    ring
theorem map_const_range (n : ℕ) (c : ℂ) : List.map (fun _ => c) (List.range n) = List.replicate n c := by simp

theorem prod_map_inv (l : List ℂ) (g : ℂ → ℂ) : (l.map (fun w => (g w)⁻¹)).prod = ((l.map g).prod)⁻¹ := by
  induction l with
  | nil => simp
  | cons x t ih => simp only [List.map_cons, List.prod_cons, ih, mul_inv]

theorem relative_degree_dyn_contract (z p : List ℂ) (h : z.length ≤ p.length) (hp : p.length < 2 ^ 64) :
    relative_degree_dyn z p = some (p.length - z.length) := by
  rw [← wp_eq]
  unfold relative_degree_dyn
  rs_inl
  vcg
  all_goals try (exfalso; omega)
  unfold rsAsUsize
  omega

theorem relative_degree_dyn_rejects (z p : List ℂ) (h : p.length < z.length) : relative_degree_dyn z p = none := by
  unfold relative_degree_dyn
  rs_inl
  rw [if_pos (by omega)]
  rfl

theorem csqrt_sq (z : ℂ) : rsCsqrt z ^ 2 = z := by
  unfold rsCsqrt
  rw [← Complex.cpow_nat_mul]
  norm_num

/-- two roots `f w ± r w` per root: (s - f w - r w)(s - f w + r w) = g w * (u - w) -/
theorem poly_pair (l : List ℂ) (f r g : ℂ → ℂ) (s u : ℂ) (h : ∀ w ∈ l, (s - f w) ^ 2 - r w ^ 2 = g w * (u - w)) :
    poly (l.map (fun w => f w + r w)) s * poly (l.map (fun w => f w - r w)) s = (l.map g).prod * poly l u := by
  induction l with
  | nil => simp [poly]
  | cons x t ih =>
    simp only [poly, List.map_cons, List.prod_cons] at ih ⊢
    have e := ih (fun w hw => h w (by simp [hw]))
    have h1 := h x (by simp)
    calc _ = ((s - f x) ^ 2 - r x ^ 2) * ((List.map (fun w => s - w) (List.map (fun w => f w + r w) t)).prod *
            (List.map (fun w => s - w) (List.map (fun w => f w - r w) t)).prod) := by ring
      _ = _ := by rw [h1, e]; ring

theorem lp2lp_contract (f : ZpkFormatFilter ℝ) (w : Option ℝ) (hf : Proper f) (hw : 0 < w.getD 1) (hn : f.p.length < 2 ^ 64) :
    wp (lp2lp_zpk_dyn f w) (fun g => g.z.length = f.z.length ∧ g.p.length = f.p.length ∧ ∀ s : ℂ, H g s = H f (s / (w.getD 1 : ℝ))) := by
  unfold lp2lp_zpk_dyn ZpkFormatFilter_new
  rs_inl
  vcg
  refine wp_of_eq (relative_degree_dyn_contract _ _ hf.deg hn) ?_
  vcg
  generalize w.getD 1 = a at hw ⊢
  refine ⟨by simp, by simp, fun s => ?_⟩
  have e : Complex.mk a 0 = (a : ℂ) := rfl
  have ha : (a : ℂ) ≠ 0 := by exact_mod_cast hw.ne'
  simp only [H, e]
  rw [poly_map f.z (fun z => z * (a : ℂ)) (fun _ => (a : ℂ)) s (s / (a : ℂ)) (fun z _ => by field_simp),
    poly_map f.p (fun z => z * (a : ℂ)) (fun _ => (a : ℂ)) s (s / (a : ℂ)) (fun z _ => by field_simp)]
  simp only [List.map_const', List.prod_replicate]
  push_cast
  have : (a : ℂ) ^ f.p.length = (a : ℂ) ^ (f.p.length - f.z.length) * (a : ℂ) ^ f.z.length := by
    rw [← pow_add]; congr 1; have := hf.deg; omega
  rw [show (f.k : ℂ) * (a : ℂ) ^ (f.p.length - f.z.length) * ((a : ℂ) ^ f.z.length * poly f.z (s / (a : ℂ)))
     = (a : ℂ) ^ f.p.length * (f.k * poly f.z (s / (a : ℂ))) by rw [this]; ring]
  rw [mul_div_mul_left _ _ (pow_ne_zero _ ha)]

theorem lp2bp_contract (f : ZpkFormatFilter ℝ) (w bw : Option ℝ) (hf : Proper f) (hw : 0 < w.getD 1) (hb : 0 < bw.getD 1) (hn : f.p.length < 2 ^ 64) :
    wp (lp2bp_zpk_dyn f w bw) (fun g => g.z.length = f.p.length + f.z.length ∧ g.p.length = 2 * f.p.length ∧
      ∀ s : ℂ, s ≠ 0 → H g s = H f ((s ^ 2 + (w.getD 1 : ℝ) ^ 2) / (s * (bw.getD 1 : ℝ)))) := by
  unfold lp2bp_zpk_dyn ZpkFormatFilter_new
  rs_inl
  vcg
  refine wp_of_eq (relative_degree_dyn_contract _ _ hf.deg hn) ?_
  vcg
  generalize w.getD 1 = a at hw ⊢
  generalize bw.getD 1 = b at hb ⊢
  have hd := hf.deg
  try simp only [rs_norm, nfPair]
  refine ⟨by simp; omega, by simp; omega, fun s hs => ?_⟩
  have hb' : (b : ℂ) ≠ 0 := by exact_mod_cast hb.ne'
  have e0 : Complex.mk 0 0 = (0 : ℂ) := rfl
  have e1 : Complex.mk (b / 2) 0 = (b : ℂ) / 2 := by apply Complex.ext <;> simp
  have e2 : Complex.mk (a ^ 2) 0 = (a : ℂ) ^ 2 := by apply Complex.ext <;> simp [sq]
  simp only [H, List.map_map, Function.comp_def, e0, e1, e2, map_const_range, poly_append, poly_const, sub_zero]
  try simp only [← pow_two]
  have key : ∀ l : List ℂ, poly (l.map (fun w => w * ((b : ℂ) / 2) + rsCsqrt ((w * ((b : ℂ) / 2)) ^ 2 - (a : ℂ) ^ 2))) s *
      poly (l.map (fun w => w * ((b : ℂ) / 2) - rsCsqrt ((w * ((b : ℂ) / 2)) ^ 2 - (a : ℂ) ^ 2))) s
      = (s * b) ^ l.length * poly l ((s ^ 2 + (a : ℂ) ^ 2) / (s * b)) := by
    intro l
    rw [poly_pair l (fun w => w * ((b : ℂ) / 2)) (fun w => rsCsqrt ((w * ((b : ℂ) / 2)) ^ 2 - (a : ℂ) ^ 2)) (fun _ => s * b) s ((s ^ 2 + (a : ℂ) ^ 2) / (s * b))]
    · simp
    · intro w _
      rw [csqrt_sq]
      field_simp
      ring
  rw [key, key]
  push_cast
  have : (s * b) ^ f.p.length = (s * b) ^ (f.p.length - f.z.length) * (s * b) ^ f.z.length := by
    rw [← pow_add]; congr 1; omega
  rw [show (f.k : ℂ) * (b : ℂ) ^ (f.p.length - f.z.length) * ((s * b) ^ f.z.length * poly f.z ((s ^ 2 + (a : ℂ) ^ 2) / (s * b)) * s ^ (f.p.length - f.z.length))
     = (s * b) ^ f.p.length * (f.k * poly f.z ((s ^ 2 + (a : ℂ) ^ 2) / (s * b))) by rw [this]; ring]
  rw [mul_div_mul_left _ _ (pow_ne_zero _ (mul_ne_zero hs hb'))]

/-- high-pass: the zero and pole counts for every prototype; the substitution for all-pole prototypes
(finite zeros: see known-findings.txt) -/
theorem lp2hp_contract (f : ZpkFormatFilter ℝ) (w : Option ℝ) (hf : Proper f) (hw : 0 < w.getD 1) (hn : f.p.length < 2 ^ 64) (h0 : ∀ p ∈ f.p, p ≠ 0) :
    wp (lp2hp_zpk_dyn f w) (fun g => g.z.length = f.p.length ∧ g.p.length = f.p.length ∧
      (f.z = [] → ∀ s : ℂ, s ≠ 0 → H g s = H f ((w.getD 1 : ℝ) / s))) := by
  unfold lp2hp_zpk_dyn ZpkFormatFilter_new
  rs_inl
  vcg
  refine wp_of_eq (relative_degree_dyn_contract _ _ hf.deg hn) ?_
  vcg
  generalize w.getD 1 = a at hw ⊢
  have hd := hf.deg
  refine ⟨by simp; omega, by simp, fun hz s hs => ?_⟩
  have e0 : Complex.mk 0 0 = (0 : ℂ) := rfl
  have e1 : Complex.mk a 0 = (a : ℂ) := rfl
  have e2 : Complex.mk 1 0 = (1 : ℂ) := rfl
  have e3 : Complex.mk (-1) 0 = (-1 : ℂ) := by apply Complex.ext <;> simp
  simp only [H, hz, e0, e1, e2, e3, map_const_range, List.map_nil, List.foldl_nil, List.nil_append, foldl_prod, poly_const, sub_zero, List.length_nil, Nat.sub_zero, one_mul]
  have hr := prod_real f.p (fun p => -1 * p) (fun w => by simp) hf.rp
  have hne : (f.p.map (fun p => -1 * p)).prod ≠ 0 := by
    rw [Ne, List.prod_eq_zero_iff]
    simp only [List.mem_map, not_exists, not_and]
    intro p hp e
    exact h0 p hp (by simpa using e)
  have hk : (((1 / (f.p.map (fun p => -1 * p)).prod).re : ℝ) : ℂ) = 1 / (f.p.map (fun p => -1 * p)).prod := by
    rw [← hr, ← Complex.ofReal_one, ← Complex.ofReal_div, Complex.ofReal_re]
  push_cast
  rw [hk]
  have hp : poly (f.p.map (fun p => (a : ℂ) / p)) s * (f.p.map (fun p => -1 * p)).prod = s ^ f.p.length * poly f.p ((a : ℂ) / s) := by
    rw [poly_map f.p (fun p => (a : ℂ) / p) (fun p => s * (-1 * p)⁻¹) s ((a : ℂ) / s) (fun p hp => by
      have := h0 p hp
      field_simp
      ring)]
    rw [List.prod_map_mul, List.map_const', List.prod_replicate, prod_map_inv (g := fun p => -1 * p)]
    generalize (f.p.map (fun p => -1 * p)).prod = P at hne ⊢
    field_simp
  have hp0 : poly [] ((a : ℂ) / s) = 1 := rfl
  rw [hp0, eq_div_of_mul_eq hne hp]
  generalize (f.p.map (fun p => -1 * p)).prod = P at hne ⊢
  by_cases hD : poly f.p ((a : ℂ) / s) = 0
  · simp [hD]
  · field_simp

/-- band-stop: the zero and pole counts for every prototype; the substitution for all-pole prototypes
(finite zeros: see known-findings.txt) -/
theorem lp2bs_contract (f : ZpkFormatFilter ℝ) (w bw : Option ℝ) (hf : Proper f) (hw : 0 < w.getD 1) (hb : 0 < bw.getD 1) (hn : f.p.length < 2 ^ 64)
    (h0 : ∀ p ∈ f.p, p ≠ 0) :
    wp (lp2bs_zpk_dyn f w bw) (fun g => g.z.length = 2 * f.p.length ∧ g.p.length = 2 * f.p.length ∧
      (f.z = [] → ∀ s : ℂ, s ^ 2 + (w.getD 1 : ℝ) ^ 2 ≠ 0 → H g s = H f (s * (bw.getD 1 : ℝ) / (s ^ 2 + (w.getD 1 : ℝ) ^ 2)))) := by
  unfold lp2bs_zpk_dyn ZpkFormatFilter_new
  rs_inl
  vcg
  refine wp_of_eq (relative_degree_dyn_contract _ _ hf.deg hn) ?_
  vcg
  generalize w.getD 1 = a at hw ⊢
  generalize bw.getD 1 = b at hb ⊢
  have hd := hf.deg
  refine ⟨by simp; omega, by simp; omega, fun hz s hs => ?_⟩
  have e1 : Complex.mk 0 (b / 2) = (b : ℂ) / 2 * Complex.I := by apply Complex.ext <;> simp
  have e2 : Complex.mk 1 0 = (1 : ℂ) := rfl
  have e3 : Complex.mk (-1) 0 = (-1 : ℂ) := by apply Complex.ext <;> simp
  have e4 : Complex.mk (a ^ 2) 0 = (a : ℂ) ^ 2 := by apply Complex.ext <;> simp [sq]
  have e5 : Complex.mk 0 (1 * a) = (a : ℂ) * Complex.I := by apply Complex.ext <;> simp
  have e8 : Complex.mk 0 a = (a : ℂ) * Complex.I := by apply Complex.ext <;> simp
  have e6 : Complex.mk 0 (-1 * a) = -((a : ℂ) * Complex.I) := by apply Complex.ext <;> simp
  have e7 : Complex.mk 0 (-1) = -Complex.I := by apply Complex.ext <;> simp
  simp only [H, hz, e1, e2, e3, e4, e5, e6, e7, e8, map_const_range, List.map_nil, List.foldl_nil, List.nil_append, List.append_nil, foldl_prod, poly_append, poly_const,
    List.length_nil, Nat.sub_zero, one_mul, List.map_map, Function.comp_def]
  have hr := prod_real f.p (fun p => -1 * p) (fun w => by simp) hf.rp
  have hne : (f.p.map (fun p => -1 * p)).prod ≠ 0 := by
    rw [Ne, List.prod_eq_zero_iff]
    simp only [List.mem_map, not_exists, not_and]
    intro p hp e
    exact h0 p hp (by simpa using e)
  push_cast
  rw [hr]
  have hI : ∀ p : ℂ, (b : ℂ) / 2 * Complex.I / p * -Complex.I = (b : ℂ) / 2 / p := by
    intro p
    rw [show (b : ℂ) / 2 * Complex.I / p * -Complex.I = (b : ℂ) / 2 / p * -(Complex.I * Complex.I) by ring, Complex.I_mul_I]
    ring
  simp only [hI]
  rw [poly_pair f.p (fun p => (b : ℂ) / 2 / p) (fun p => rsCsqrt (((b : ℂ) / 2 / p) ^ 2 - (a : ℂ) ^ 2)) (fun p => (s ^ 2 + (a : ℂ) ^ 2) * (-1 * p)⁻¹) s
    (s * (b : ℂ) / (s ^ 2 + (a : ℂ) ^ 2)) (fun p hp => by
      have := h0 p hp
      simp only [csqrt_sq]
      field_simp
      ring)]
  have hzz : (s - (a : ℂ) * Complex.I) ^ f.p.length * (s - -((a : ℂ) * Complex.I)) ^ f.p.length = (s ^ 2 + (a : ℂ) ^ 2) ^ f.p.length := by
    rw [← mul_pow]
    congr 1
    rw [show (s - (a : ℂ) * Complex.I) * (s - -((a : ℂ) * Complex.I)) = s ^ 2 - a ^ 2 * (Complex.I * Complex.I) by ring, Complex.I_mul_I]
    ring
  have hp0 : poly [] (s * (b : ℂ) / (s ^ 2 + (a : ℂ) ^ 2)) = 1 := rfl
  have hpp : (List.map (fun p => (s ^ 2 + (a : ℂ) ^ 2) * (-1 * p)⁻¹) f.p).prod = (s ^ 2 + (a : ℂ) ^ 2) ^ f.p.length * ((f.p.map (fun p => -1 * p)).prod)⁻¹ := by
    rw [List.prod_map_mul, List.map_const', List.prod_replicate, prod_map_inv (g := fun p => -1 * p)]
  rw [hzz, hp0, hpp]
  generalize (f.p.map (fun p => -1 * p)).prod = P at hne ⊢
  by_cases hD : poly f.p (s * (b : ℂ) / (s ^ 2 + (a : ℂ) ^ 2)) = 0
  · simp [hD]
  · field_simp

/-- improper inputs are rejected -/
theorem improper_rejects (f : ZpkFormatFilter ℝ) (w bw : Option ℝ) (h : f.p.length < f.z.length) :
    lp2lp_zpk_dyn f w = none ∧ lp2hp_zpk_dyn f w = none ∧ lp2bp_zpk_dyn f w bw = none ∧ lp2bs_zpk_dyn f w bw = none := by
  unfold lp2lp_zpk_dyn lp2hp_zpk_dyn lp2bp_zpk_dyn lp2bs_zpk_dyn
  rs_inl
  simp only [relative_degree_dyn_rejects _ _ h]
  exact ⟨rfl, rfl, rfl, rfl⟩

/-! real filters stay real, and where the roots go -/
theorem real_map (l : List ℂ) (g : ℂ → ℂ) (hg : ∀ w, g (conj w) = conj (g w)) (h : Real' l) : Real' (l.map g) := by
  unfold Real'
  have : (l.map g).map (fun w => conj w) = (l.map (fun w => conj w)).map g := by
    rw [List.map_map, List.map_map]; exact List.map_congr_left (fun w _ => (hg w).symm)
  rw [this]
  exact List.Perm.map g h
theorem real_const (n : ℕ) (c : ℂ) (h : conj c = c) : Real' (List.replicate n c) := by
  unfold Real'; rw [List.map_replicate, h]
theorem real_append {l m : List ℂ} (h : Real' l) (h' : Real' m) : Real' (l ++ m) := by
  unfold Real'; rw [List.map_append]; exact List.Perm.append h h'
theorem pair_perm (l : List ℂ) (f r : ℂ → ℂ) :
    (l.map (fun w => f w + r w) ++ l.map (fun w => f w - r w)).Perm (l.flatMap (fun w => [f w + r w, f w - r w])) := by
  induction l with
  | nil => simp
  | cons x t ih =>
    simp only [List.map_cons, List.flatMap_cons, List.cons_append, List.nil_append]
    refine List.Perm.cons _ ?_
    refine (List.perm_middle).trans ?_
    exact List.Perm.cons _ ih
/-- the two roots `f w ± r w` of every root: real if the centre and the squared offset are -/
theorem real_pair (l : List ℂ) (f r : ℂ → ℂ) (hf : ∀ w, f (conj w) = conj (f w)) (hr : ∀ w, r (conj w) ^ 2 = conj (r w ^ 2)) (h : Real' l) :
    Real' (l.map (fun w => f w + r w) ++ l.map (fun w => f w - r w)) := by
  have e := pair_perm l f r
  unfold Real' at *
  refine (e.map _).trans (List.Perm.trans ?_ e.symm)
  rw [List.map_flatMap]
  refine List.Perm.trans ?_ (h.flatMap_right _)
  rw [List.flatMap_map]
  refine List.Perm.flatMap_left _ (fun w _ => ?_)
  have h2 : r (conj w) = conj (r w) ∨ r (conj w) = -conj (r w) := by
    apply sq_eq_sq_iff_eq_or_eq_neg.1
    rw [hr, map_pow]
  simp only [List.map_cons, List.map_nil, map_add, map_sub, hf]
  rcases h2 with h2 | h2 <;> rw [h2]
  rw [sub_neg_eq_add, ← sub_eq_add_neg]
  exact List.Perm.swap _ _ _

theorem lp2lp_roots (f : ZpkFormatFilter ℝ) (w : Option ℝ) (hf : Proper f) (hn : f.p.length < 2 ^ 64) :
    wp (lp2lp_zpk_dyn f w) (fun g => Real' g.z ∧ Real' g.p ∧
      (∀ q ∈ g.z, ∃ z ∈ f.z, q = z * (w.getD 1 : ℝ)) ∧ (∀ q ∈ g.p, ∃ p ∈ f.p, q = p * (w.getD 1 : ℝ))) := by
  unfold lp2lp_zpk_dyn ZpkFormatFilter_new
  rs_inl
  vcg
  refine wp_of_eq (relative_degree_dyn_contract _ _ hf.deg hn) ?_
  vcg
  generalize w.getD 1 = a
  have e : Complex.mk a 0 = (a : ℂ) := rfl
  simp only [e]
  refine ⟨real_map _ _ (fun w => by simp) hf.rz, real_map _ _ (fun w => by simp) hf.rp, ?_, ?_⟩ <;>
  · intro q hq
    obtain ⟨z, hz, rfl⟩ := List.mem_map.1 hq
    exact ⟨z, hz, rfl⟩

theorem lp2hp_roots (f : ZpkFormatFilter ℝ) (w : Option ℝ) (hf : Proper f) (hn : f.p.length < 2 ^ 64) (h0 : ∀ p ∈ f.p, p ≠ 0) (hz : f.z = []) :
    wp (lp2hp_zpk_dyn f w) (fun g => Real' g.z ∧ Real' g.p ∧
      (∀ q ∈ g.z, q = 0) ∧ (∀ q ∈ g.p, ∃ p ∈ f.p, q * p = (w.getD 1 : ℝ))) := by
  unfold lp2hp_zpk_dyn ZpkFormatFilter_new
  rs_inl
  vcg
  refine wp_of_eq (relative_degree_dyn_contract _ _ hf.deg hn) ?_
  vcg
  generalize w.getD 1 = a
  have e0 : Complex.mk 0 0 = (0 : ℂ) := rfl
  have e : Complex.mk a 0 = (a : ℂ) := rfl
  simp only [e, e0, hz, List.map_nil, List.nil_append, map_const_range]
  refine ⟨real_const _ _ (by simp), real_map _ _ (fun w => by simp) hf.rp, fun q hq => List.eq_of_mem_replicate hq, ?_⟩
  intro q hq
  obtain ⟨p, hp, rfl⟩ := List.mem_map.1 hq
  exact ⟨p, hp, by have := h0 p hp; field_simp⟩

theorem conj2 : conj (2 : ℂ) = 2 := Complex.conj_ofNat 2
theorem lp2bp_roots (f : ZpkFormatFilter ℝ) (w bw : Option ℝ) (hf : Proper f) (hn : f.p.length < 2 ^ 64) :
    wp (lp2bp_zpk_dyn f w bw) (fun g => Real' g.z ∧ Real' g.p ∧
      (∀ q ∈ g.z, q = 0 ∨ ∃ z ∈ f.z, q ^ 2 + (w.getD 1 : ℝ) ^ 2 = z * (bw.getD 1 : ℝ) * q) ∧
      (∀ q ∈ g.p, ∃ p ∈ f.p, q ^ 2 + (w.getD 1 : ℝ) ^ 2 = p * (bw.getD 1 : ℝ) * q)) := by
  unfold lp2bp_zpk_dyn ZpkFormatFilter_new
  rs_inl
  vcg
  refine wp_of_eq (relative_degree_dyn_contract _ _ hf.deg hn) ?_
  vcg
  generalize w.getD 1 = a
  generalize bw.getD 1 = b
  have e0 : Complex.mk 0 0 = (0 : ℂ) := rfl
  have e1 : Complex.mk (b / 2) 0 = (b : ℂ) / 2 := by apply Complex.ext <;> simp
  have e2 : Complex.mk (a ^ 2) 0 = (a : ℂ) ^ 2 := by apply Complex.ext <;> simp [sq]
  try simp only [rs_norm, nfPair]
  try simp only [← pow_two]
  simp only [List.map_map, Function.comp_def, e0, e1, e2, map_const_range]
  have mem : ∀ (l : List ℂ) (q : ℂ), q ∈ l.map (fun w => w * ((b : ℂ) / 2) + rsCsqrt ((w * ((b : ℂ) / 2)) ^ 2 - (a : ℂ) ^ 2)) ++
      l.map (fun w => w * ((b : ℂ) / 2) - rsCsqrt ((w * ((b : ℂ) / 2)) ^ 2 - (a : ℂ) ^ 2)) → ∃ z ∈ l, q ^ 2 + (a : ℂ) ^ 2 = z * b * q := by
    intro l q hq
    simp only [List.mem_append, List.mem_map] at hq
    rcases hq with ⟨z, hz, rfl⟩ | ⟨z, hz, rfl⟩
    · refine ⟨z, hz, ?_⟩; have := csqrt_sq ((z * ((b : ℂ) / 2)) ^ 2 - (a : ℂ) ^ 2); linear_combination this
    · refine ⟨z, hz, ?_⟩; have := csqrt_sq ((z * ((b : ℂ) / 2)) ^ 2 - (a : ℂ) ^ 2); linear_combination this
  have rl : ∀ l : List ℂ, Real' l → Real' (l.map (fun w => w * ((b : ℂ) / 2) + rsCsqrt ((w * ((b : ℂ) / 2)) ^ 2 - (a : ℂ) ^ 2)) ++
      l.map (fun w => w * ((b : ℂ) / 2) - rsCsqrt ((w * ((b : ℂ) / 2)) ^ 2 - (a : ℂ) ^ 2))) := by
    intro l hl
    refine real_pair l (fun w => w * ((b : ℂ) / 2)) (fun w => rsCsqrt ((w * ((b : ℂ) / 2)) ^ 2 - (a : ℂ) ^ 2)) (fun w => by simp [conj2]) (fun w => ?_) hl
    simp only [csqrt_sq]; simp [conj2]
  refine ⟨real_append (rl _ hf.rz) (real_const _ _ (by simp)), rl _ hf.rp, ?_, fun q hq => mem _ q hq⟩
  intro q hq
  rcases List.mem_append.1 hq with hq | hq
  · exact Or.inr (mem _ q hq)
  · exact Or.inl (List.eq_of_mem_replicate hq)

theorem lp2bs_roots (f : ZpkFormatFilter ℝ) (w bw : Option ℝ) (hf : Proper f) (hn : f.p.length < 2 ^ 64) (h0 : ∀ p ∈ f.p, p ≠ 0) (hz : f.z = []) :
    wp (lp2bs_zpk_dyn f w bw) (fun g => Real' g.z ∧ Real' g.p ∧
      (∀ q ∈ g.z, q ^ 2 + (w.getD 1 : ℝ) ^ 2 = 0) ∧
      (∀ q ∈ g.p, ∃ p ∈ f.p, p * (q ^ 2 + (w.getD 1 : ℝ) ^ 2) = (bw.getD 1 : ℝ) * q)) := by
  unfold lp2bs_zpk_dyn ZpkFormatFilter_new
  rs_inl
  vcg
  refine wp_of_eq (relative_degree_dyn_contract _ _ hf.deg hn) ?_
  vcg
  generalize w.getD 1 = a
  generalize bw.getD 1 = b
  have e1 : Complex.mk 0 (b / 2) = (b : ℂ) / 2 * Complex.I := by apply Complex.ext <;> simp
  have e4 : Complex.mk (a ^ 2) 0 = (a : ℂ) ^ 2 := by apply Complex.ext <;> simp [sq]
  have e5 : Complex.mk 0 (1 * a) = (a : ℂ) * Complex.I := by apply Complex.ext <;> simp
  have e8 : Complex.mk 0 a = (a : ℂ) * Complex.I := by apply Complex.ext <;> simp
  have e6 : Complex.mk 0 (-1 * a) = -((a : ℂ) * Complex.I) := by apply Complex.ext <;> simp
  have e7 : Complex.mk 0 (-1) = -Complex.I := by apply Complex.ext <;> simp
  have hI : ∀ p : ℂ, (b : ℂ) / 2 * Complex.I / p * -Complex.I = (b : ℂ) / 2 / p := by
    intro p
    rw [show (b : ℂ) / 2 * Complex.I / p * -Complex.I = (b : ℂ) / 2 / p * -(Complex.I * Complex.I) by ring, Complex.I_mul_I]
    ring
  simp only [hz, e1, e4, e5, e6, e7, e8, hI, map_const_range, List.map_nil, List.nil_append, List.append_nil, List.map_map, Function.comp_def]
  refine ⟨?_, ?_, ?_, ?_⟩
  · unfold Real'
    simp only [List.map_append, List.map_replicate, map_neg, map_mul, Complex.conj_I, Complex.conj_ofReal, mul_neg, neg_neg]
    exact List.perm_append_comm
  · refine real_pair f.p (fun p => (b : ℂ) / 2 / p) (fun p => rsCsqrt (((b : ℂ) / 2 / p) ^ 2 - (a : ℂ) ^ 2)) (fun w => by simp [conj2]) (fun w => ?_) hf.rp
    simp only [csqrt_sq]; simp [conj2]
  · have hI2 : Complex.I ^ 2 = -1 := Complex.I_sq
    intro q hq
    rcases List.mem_append.1 hq with hq | hq
    all_goals (rw [List.eq_of_mem_replicate hq]; linear_combination (a : ℂ) ^ 2 * hI2)
  · intro q hq
    simp only [List.mem_append, List.mem_map] at hq
    have hh : ∀ p ∈ f.p, p * (((b : ℂ) / 2 / p)) = (b : ℂ) / 2 := fun p hp => by have := h0 p hp; field_simp
    rcases hq with ⟨p, hp, rfl⟩ | ⟨p, hp, rfl⟩
    · refine ⟨p, hp, ?_⟩; have := csqrt_sq (((b : ℂ) / 2 / p) ^ 2 - (a : ℂ) ^ 2); have h3 := hh p hp
      generalize ((b : ℂ) / 2 / p) = c at *; linear_combination p * this + 2 * (c + rsCsqrt (c ^ 2 - (a : ℂ) ^ 2)) * h3
    · refine ⟨p, hp, ?_⟩; have := csqrt_sq (((b : ℂ) / 2 / p) ^ 2 - (a : ℂ) ^ 2); have h3 := hh p hp
      generalize ((b : ℂ) / 2 / p) = c at *; linear_combination p * this + 2 * (c - rsCsqrt (c ^ 2 - (a : ℂ) ^ 2)) * h3

end C14

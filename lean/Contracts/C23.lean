import RsLemmas
import Gen.Bessel
/-! Contracts of the modified Bessel functions: Clenshaw's recurrence is the Chebyshev sum, on both branches. -/
set_option maxRecDepth 4000
set_option linter.unusedTactic false
open Gen Polynomial
namespace C23

/-- the published (Cephes) coefficients of exp(-x) I0(x) on [0,8], highest order first -/
noncomputable def A : List ℝ := [-4.41534164647933937950e-18, 3.33079451882223809783e-17, -2.43127984654795469359e-16, 1.71539128555513303061e-15, -1.16853328779934516808e-14, 7.67618549860493561688e-14, -4.85644678311192946090e-13, 2.95505266312963983461e-12, -1.72682629144155570723e-11, 9.67580903537323691224e-11, -5.18979560163526290666e-10, 2.65982372468238665035e-9, -1.30002500998624804212e-8, 6.04699502254191894932e-8, -2.67079385394061173391e-7, 1.11738753912010371815e-6, -4.41673835845875056359e-6, 1.64484480707288970893e-5, -5.75419501008210370398e-5, 1.88502885095841655729e-4, -5.76375574538582365885e-4, 1.63947561694133579842e-3, -4.32430999505057594430e-3, 1.05464603945949983183e-2, -2.37374148058994688156e-2, 4.93052842396707084878e-2, -9.49010970480476444210e-2, 1.71620901522208775349e-1, -3.04682672343198398683e-1, 6.76795274409476084995e-1]
/-- the published (Cephes) coefficients of exp(-x) sqrt(x) I0(x) on [8,inf), highest order first -/
noncomputable def B : List ℝ := [-7.23318048787475395456e-18, -4.83050448594418207126e-18, 4.46562142029675999901e-17, 3.46122286769746109310e-17, -2.82762398051658348494e-16, -3.42548561967721913462e-16, 1.77256013305652638360e-15, 3.81168066935262242075e-15, -9.55484669882830764870e-15, -4.15056934728722208663e-14, 1.54008621752140982691e-14, 3.85277838274214270114e-13, 7.18012445138366623367e-13, -1.79417853150680611778e-12, -1.32158118404477131188e-11, -3.14991652796324136454e-11, 1.18891471078464383424e-11, 4.94060238822496958910e-10, 3.39623202570838634515e-9, 2.26666899049817806459e-8, 2.04891858946906374183e-7, 2.89137052083475648297e-6, 6.88975834691682398426e-5, 3.36911647825569408990e-3, 8.04490411014108831608e-1]
/-- Chebyshev polynomial of the first kind -/
noncomputable def T (n : ℕ) (y : ℝ) : ℝ := (Chebyshev.T ℝ (n : ℤ)).eval y
/-- sum of c_i T_i(x/2), c_0 halved; coefficients highest order first -/
noncomputable def series (x : ℝ) (c : List ℝ) : ℝ := (c.reverse.zipIdx.map (fun p => p.1 * T p.2 (x / 2))).sum - c.getLastD 0 / 2
noncomputable def i0eR (x : ℝ) : ℝ := if |x| ≤ 8 then series (|x| / 2 - 2) A else series (32 / |x| - 2) B / Real.sqrt |x|
noncomputable def i0R (x : ℝ) : ℝ := Real.exp |x| * i0eR x

/-! Clenshaw -/
noncomputable def b (x : ℝ) : List ℝ → ℝ
  | [] => 0
  | [c] => c
  | c :: d :: t => x * b x (d :: t) - b x t + c
theorem b_cons (x c : ℝ) (t : List ℝ) : b x (c :: t) = x * b x t - b x t.tail + c := by
  cases t with
  | nil => simp [b]
  | cons d t => simp [b]
theorem T_succ (n : ℕ) (y : ℝ) : T (n + 2) y = 2 * y * T (n + 1) y - T n y := by
  unfold T
  have h := congrArg (eval y) (Chebyshev.T_add_two ℝ (n : ℤ))
  simp only [eval_sub, eval_mul, eval_ofNat, eval_X] at h
  push_cast
  exact h
theorem T_zero (y : ℝ) : T 0 y = 1 := by simp [T]
theorem T_one (y : ℝ) : T 1 y = y := by simp [T]
/-- what T_n means -/
theorem T_cos (n : ℕ) (t : ℝ) : T n (Real.cos t) = Real.cos (n * t) := by
  unfold T
  exact_mod_cast Chebyshev.T_real_cos t n

theorem clenshaw (x : ℝ) (r : List ℝ) (m : ℕ) :
    ((r.zipIdx (m + 1)).map (fun p => p.1 * T p.2 (x / 2))).sum = b x r * T (m + 1) (x / 2) - b x r.tail * T m (x / 2) := by
  induction r generalizing m with
  | nil => simp [b]
  | cons c t ih =>
    rw [List.zipIdx_cons, List.map_cons, List.sum_cons, ih (m + 1), b_cons, List.tail_cons, T_succ]
    ring
theorem clenshaw_fold (x : ℝ) (l r : List ℝ) (f : ℝ × ℝ × ℝ → ℝ → ℝ × ℝ × ℝ) (hf : ∀ s c, f s c = (x * s.1 - s.2.1 + c, s.1, s.2.1)) :
    List.foldl f (b x r, b x r.tail, b x r.tail.tail) l = (b x (l.reverse ++ r), b x (l.reverse ++ r).tail, b x (l.reverse ++ r).tail.tail) := by
  induction l generalizing r with
  | nil => rfl
  | cons c l ih =>
    rw [List.foldl_cons, hf]
    have := ih (c :: r)
    rw [List.tail_cons, b_cons] at this
    rw [this, List.reverse_cons, List.append_assoc]
    rfl

theorem chbevl_contract (x : ℝ) (c : List ℝ) : chbevl x c = some (series x c) := by
  rw [← wp_eq]
  unfold chbevl
  rs_inl
  cases c with
  | nil => simp [series, wp_eq]
  | cons c0 t =>
    simp only [List.head?_cons, List.drop_succ_cons, List.drop_zero]
    vcg
    · simp at *
    have h := clenshaw_fold x t [c0] (fun s c => (x * s.1 - s.2.1 + c, s.1, s.2.1)) (fun _ _ => rfl)
    have e : (b x [c0], b x [c0].tail, b x [c0].tail.tail) = (c0, (0 : ℝ), (0 : ℝ)) := rfl
    rw [e] at h
    rw [h]
    have hr : (c0 :: t).reverse = t.reverse ++ [c0] := by simp
    have hl : (c0 :: t).getLastD 0 = (t.reverse ++ [c0]).headD 0 := by
      rw [← hr, List.headD_eq_head?_getD, List.head?_reverse, List.getLastD_eq_getLast?]
    unfold series
    rw [hl, hr]
    obtain ⟨r0, rt, e2⟩ := List.exists_cons_of_ne_nil (show t.reverse ++ [c0] ≠ [] by simp)
    rw [e2, List.zipIdx_cons, List.map_cons, List.sum_cons, clenshaw, List.headD_cons]
    simp only [List.tail_cons, T_zero, T_one, zero_add, b_cons]
    ring

theorem tables : I0_A_F64 = A ∧ I0_B_F64 = B ∧ I0_A_F32 = A ∧ I0_B_F32 = B := by
  unfold I0_A_F64 I0_B_F64 I0_A_F32 I0_B_F32 A B
  refine ⟨?_, ?_, ?_, ?_⟩ <;> norm_num

macro "bessel" : tactic => `(tactic| (
  rw [← wp_eq]
  obtain ⟨h1, h2, h3, h4⟩ := tables
  vcg
  all_goals try (refine wp_of_eq (chbevl_contract _ _) ?_; vcg)
  all_goals rename_i h
  all_goals simp only [i0R, i0eR, h1, h2, h3, h4, h, if_true, if_false]
  all_goals try ring))
theorem f64_i0_contract (x : ℝ) : Bessel_f64_i0 x = some (i0R x) := by
  unfold Bessel_f64_i0; rs_inl; bessel
theorem f64_i0e_contract (x : ℝ) : Bessel_f64_i0e x = some (i0eR x) := by
  unfold Bessel_f64_i0e; rs_inl; bessel
theorem f32_i0_contract (x : ℝ) : Bessel_f32_i0 x = some (i0R x) := by
  unfold Bessel_f32_i0; rs_inl; bessel
theorem f32_i0e_contract (x : ℝ) : Bessel_f32_i0e x = some (i0eR x) := by
  unfold Bessel_f32_i0e; rs_inl; bessel
/-- both functions are even -/
theorem even (x : ℝ) : Bessel_f64_i0 (-x) = Bessel_f64_i0 x ∧ Bessel_f64_i0e (-x) = Bessel_f64_i0e x ∧
    Bessel_f32_i0 (-x) = Bessel_f32_i0 x ∧ Bessel_f32_i0e (-x) = Bessel_f32_i0e x := by
  simp [f64_i0_contract, f64_i0e_contract, f32_i0_contract, f32_i0e_contract, i0R, i0eR]
theorem vec_i0_contract (l : List ℝ) : Bessel_Vec_i0 l = some (l.map i0R) := by
  rw [← wp_eq]; unfold Bessel_Vec_i0; rs_inl
  exact wp_mapM _ (fun x _ => wp_of_eq (f64_i0_contract x) rfl) rfl
theorem vec_i0e_contract (l : List ℝ) : Bessel_Vec_i0e l = some (l.map i0eR) := by
  rw [← wp_eq]; unfold Bessel_Vec_i0e; rs_inl
  exact wp_mapM _ (fun x _ => wp_of_eq (f64_i0e_contract x) rfl) rfl
theorem array_i0_contract (l : List ℝ) : Bessel_ArrayD_i0 l = some (l.map i0R) := by
  rw [← wp_eq]; unfold Bessel_ArrayD_i0; rs_inl
  exact wp_mapM _ (fun x _ => wp_of_eq (f64_i0_contract x) rfl) rfl
theorem array_i0e_contract (l : List ℝ) : Bessel_ArrayD_i0e l = some (l.map i0eR) := by
  rw [← wp_eq]; unfold Bessel_ArrayD_i0e; rs_inl
  exact wp_mapM _ (fun x _ => wp_of_eq (f64_i0e_contract x) rfl) rfl
end C23

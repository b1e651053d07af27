/-
C11  Zero-phase filtering preserves length and the step steady state.
-/
import RsLemmas
import Gen.Filtfilt
import Contracts.C07
import Contracts.C09
import Contracts.C10
set_option linter.all false
open Classical Gen
namespace C11

/-- three times the tap count: 2*sections+1 less the trailing zero coefficients common to b and a -/
noncomputable def edge (s : List (Sos ℝ)) : ℕ :=
  3 * (2 * s.length + 1 - min (s.filter (fun q => decide (q.b 2 = 0))).length (s.filter (fun q => decide (q.a 2 = 0))).length)
/-- odd extension of a signal -/
def oddExt (y : List ℝ) (n : ℕ) : List ℝ := (List.range (y.length + 2 * n)).map (C10.ext (fun i => y.getD i 0) y.length n)
/-- sections with the delays scaled -/
def scale (c : ℝ) (r : List (Sos ℝ)) : List (Sos ℝ) := r.map (fun q => { q with zi0 := q.zi0 * c, zi1 := q.zi1 * c })
/-- `r` is `s` with the delays of its step-response steady state -/
def IsSteady (s r : List (Sos ℝ)) : Prop :=
  r.map (fun q => (q.b, q.a)) = s.map (fun q => (q.b, q.a)) ∧ C07.casc 1 r = ((s.map C09.gain).prod, r)
noncomputable def fwd (x : List ℝ) (r : List (Sos ℝ)) : List ℝ := (C07.filt x (scale (x.getD 0 0) r)).1
/-- forward, backward, reversed, edges dropped -/
noncomputable def zeroPhase (y : List ℝ) (e : ℕ) (r : List (Sos ℝ)) : List ℝ :=
  (((fwd (fwd (oddExt y e) r).reverse r).reverse).drop e).take y.length

theorem oddExt_length (y : List ℝ) (n : ℕ) : (oddExt y n).length = y.length + 2 * n := by simp [oddExt]
theorem fwd_length (x : List ℝ) (r : List (Sos ℝ)) : (fwd x r).length = x.length := (C07.filt_length _ _).1

/-- the steady state is unique -/
theorem steady_unique (r r' : List (Sos ℝ)) (u : ℝ) (hc : r.map (fun q => (q.b, q.a)) = r'.map (fun q => (q.b, q.a)))
    (hn : ∀ q ∈ r, 1 + q.a 1 + q.a 2 ≠ 0) (h : (C07.casc u r).2 = r) (h' : (C07.casc u r').2 = r') : r = r' := by
  induction r generalizing r' u with
  | nil => simpa using hc
  | cons q t ih =>
    obtain ⟨q', t', rfl⟩ := List.exists_cons_of_ne_nil (l := r') (by rintro rfl; simp at hc)
    simp only [List.map_cons, List.cons.injEq, Prod.mk.injEq] at hc
    obtain ⟨⟨hb, ha⟩, ht⟩ := hc
    simp only [C07.casc, List.cons.injEq] at h h'
    obtain ⟨h1, h2⟩ := h
    obtain ⟨g1, g2⟩ := h'
    have hq := hn q (by simp)
    obtain ⟨b, a, z0, z1⟩ := q
    obtain ⟨b', a', z0', z1'⟩ := q'
    simp only at hb ha hq
    subst hb ha
    simp only [C07.biq, Sos.mk.injEq, true_and] at h1 g1
    have e0 : z0 = z0' := by
      have := h1.1; have := h1.2; have := g1.1; have := g1.2
      have k : (1 + a 1 + a 2) * (z0 - z0') = 0 := by linarith
      rcases mul_eq_zero.1 k with k | k
      · exact absurd k hq
      · linarith
    have e1 : z1 = z1' := by rw [← h1.2, ← g1.2, e0]
    subst e0 e1
    rw [ih t' _ ht (fun q hq => hn q (by simp [hq])) h2 (by simpa [C07.biq] using g2)]

theorem rev_window {α : Type} (w : List α) (L e : ℕ) (h : w.length = L + 2 * e) :
    (List.take L (List.drop e w)).reverse = List.take L (List.drop e w.reverse) := by
  apply List.ext_getElem
  · simp [h]
  · intro i h1 h2
    simp only [List.length_reverse, List.length_take, List.length_drop] at h1 h2
    rw [List.getElem_reverse]
    simp only [List.getElem_take, List.getElem_drop, List.length_take, List.length_drop, List.getElem_reverse]
    congr 1
    omega

theorem sosfiltfilt_dyn_contract (y : List ℝ) (s : List (Sos ℝ)) (hs : ∀ q ∈ s, q.a 0 = 1 ∧ q.a 0 + q.a 1 + q.a 2 ≠ 0) (hy : edge s < y.length) :
    wp (sosfiltfilt_dyn y s) (fun out => out.length = y.length ∧ ∃ r, IsSteady s r ∧ out = zeroPhase y (edge s) r) := by
  unfold sosfiltfilt_dyn
  rs_inl!
  have hm : min (s.filter (fun q => decide (q.b 2 = 0))).length (s.filter (fun q => decide (q.a 2 = 0))).length ≤ 2 * s.length + 1 := by
    have := List.length_filter_le (fun q : Sos ℝ => decide (q.b 2 = 0)) s
    omega
  vcg
  · exact hm
  try simp only [List.map_id']
  generalize hnt : 2 * s.length + 1 - min (s.filter (fun q => decide (q.b 2 = 0))).length (s.filter (fun q => decide (q.a 2 = 0))).length = nt
  have he : edge s = 3 * nt := by rw [edge, hnt]
  have hC : C10.edge Pad.Odd none nt = 3 * nt := by simp [C10.edge]
  refine wp_conseq (C10.pad_contract Pad.Odd none (rsMatOfVec y) 0 nt (Or.inr rfl) (by omega) (by
    rw [hC]; simp only [C10.extent, rsMatOfVec, if_true]; omega)) ?_
  rintro ⟨e, X⟩ ⟨h1, h2, -⟩
  rw [hC, ← he] at h1 h2
  simp only at h1 h2
  subst h1
  unfold C10.IsExt at h2
  rw [if_pos rfl] at h2
  obtain ⟨x1, x2, x3⟩ := h2
  simp only [rsMatOfVec] at x1 x2 x3
  have hX : rsMatToList X = oddExt y (edge s) := by
    unfold rsMatToList oddExt
    rw [x1, x2, mul_one]
    refine List.map_congr_left (fun k hk => ?_)
    have hk' : k < y.length + 2 * edge s := List.mem_range.1 hk
    rw [Nat.mod_eq_of_lt hk', Nat.div_eq_of_lt hk', x3 k (by omega) 0 (by omega)]
    congr 1
    
  vcg
  refine wp_conseq (C09.sosfilt_zi_dyn_contract s hs) ?_
  intro r hr
  vcg
  refine wp_of_eq (a := (oddExt y (edge s)).getD 0 0) ?_ ?_
  · rw [rsMatLin, if_pos (by rw [x1, x2]; omega)]
    rw [← hX, rsMatToList, List.getD_eq_getElem?_getD, List.getElem?_map, List.getElem?_range (by rw [x1, x2]; omega)]
    rfl
  vcg
  rw [hX]
  refine wp_of_eq (C07.sosfilt_dyn_contract _ _) ?_
  vcg
  change wp ((fwd (oddExt y (edge s)) r).getLast?) _
  have hfl : (fwd (oddExt y (edge s)) r).length = y.length + 2 * edge s := by rw [fwd_length, oddExt_length]
  refine wp_of_eq (a := (fwd (oddExt y (edge s)) r).reverse.getD 0 0) ?_ ?_
  · rw [List.getD_eq_getElem?_getD, ← List.head?_eq_getElem?, List.head?_reverse]
    cases h : (fwd (oddExt y (edge s)) r).getLast? with
    | some v => rfl
    | none => rw [List.getLast?_eq_none_iff] at h; rw [h] at hfl; simp at hfl; omega
  rs_reduce
  refine wp_bind (wp_of_eq (C07.sosfilt_dyn_contract _ _) ?_)
  vcg
  have hl2 : (fwd (fwd (oddExt y (edge s)) r).reverse r).length = y.length + 2 * edge s := by
    rw [fwd_length, List.length_reverse, hfl]
  have hl3 := hl2
  simp only [fwd] at hl3
  all_goals first
    | omega
    | (rw [List.length_reverse]; exact hl3 ▸ (by omega))
    | (refine ⟨?_, r, hr, ?_⟩
       · simp only [List.length_reverse, List.length_take, List.length_drop, (C07.filt_length _ _).1, oddExt_length]; omega
       · rw [zeroPhase, ← rev_window _ _ _ hl2]; rfl)
    | (refine ⟨?_, r, hr, ?_⟩
       · simp only [List.length_reverse, List.length_take, List.length_drop, (C07.filt_length _ _).1, oddExt_length]; omega
       · rw [zeroPhase, List.drop_take, add_tsub_cancel_left]; rfl)
    | (refine ⟨?_, r, hr, ?_⟩
       · simp only [List.length_reverse, List.length_take, List.length_drop, (C07.filt_length _ _).1, oddExt_length]; omega
       · rw [zeroPhase]
         first | rfl | (rw [List.drop_take, add_tsub_cancel_left]; rfl) | (rw [← rev_window _ _ _ hl2]; simp only [fwd, scale, mul_comm]; done) | (simp only [fwd, scale, mul_comm]; done))

/-! ### constant signals -/
theorem biq_scale (u c : ℝ) (q : Sos ℝ) : C07.biq (u * c) { q with zi0 := q.zi0 * c, zi1 := q.zi1 * c } =
    ((C07.biq u q).1 * c, { (C07.biq u q).2 with zi0 := (C07.biq u q).2.zi0 * c, zi1 := (C07.biq u q).2.zi1 * c }) := by
  simp only [C07.biq, Prod.mk.injEq, Sos.mk.injEq, true_and]
  refine ⟨?_, ?_, ?_⟩ <;> ring
theorem casc_scale (u c : ℝ) (r : List (Sos ℝ)) : C07.casc (u * c) (scale c r) = ((C07.casc u r).1 * c, scale c (C07.casc u r).2) := by
  induction r generalizing u with
  | nil => rfl
  | cons q t ih =>
    have e : scale c (q :: t) = { q with zi0 := q.zi0 * c, zi1 := q.zi1 * c } :: scale c t := rfl
    rw [e]
    simp only [C07.casc, biq_scale]
    rw [ih]
    rfl
theorem fwd_const (r : List (Sos ℝ)) (G c : ℝ) (n : ℕ) (h : C07.casc 1 r = (G, r)) : fwd (List.replicate n c) r = List.replicate n (c * G) := by
  have hc : C07.casc c (scale c r) = (c * G, scale c r) := by
    have := casc_scale 1 c r
    rw [h, one_mul] at this
    rw [this, mul_comm]
  have : ∀ m, C07.filt (List.replicate m c) (scale c r) = (List.replicate m (c * G), scale c r) := by
    intro m
    induction m with
    | zero => rfl
    | succ m ih => simp only [List.replicate_succ, C07.filt, hc, ih]
  cases n with
  | zero => rfl
  | succ m =>
    unfold fwd
    have e : (List.replicate (m + 1) c).getD 0 0 = c := by simp
    rw [e, this]
theorem oddExt_const (L n : ℕ) (c : ℝ) (h : n < L) : oddExt (List.replicate L c) n = List.replicate (L + 2 * n) c := by
  apply List.ext_getElem
  · simp [oddExt]
  · intro i h1 h2
    have hi : i < L + 2 * n := by simpa using h2
    have g : ∀ k, k < L → (List.replicate L c).getD k 0 = c := by
      intro k hk; rw [List.getD_eq_getElem _ _ (by simpa using hk)]; simp
    simp only [oddExt, List.getElem_map, List.getElem_range, List.getElem_replicate, C10.ext, List.length_replicate]
    split_ifs
    · rw [g 0 (by omega), g _ (by omega)]; ring
    · rw [g _ (by omega)]
    · rw [g _ (by omega), g _ (by omega)]; ring

/-- a constant signal c comes out as c times the squared DC gain -/
theorem constant_signal (L : ℕ) (c : ℝ) (s : List (Sos ℝ)) (hs : ∀ q ∈ s, q.a 0 = 1 ∧ q.a 0 + q.a 1 + q.a 2 ≠ 0) (hL : edge s < L) :
    sosfiltfilt_dyn (List.replicate L c) s = some (List.replicate L (c * (s.map C09.gain).prod ^ 2)) := by
  rw [← wp_eq]
  refine wp_conseq (sosfiltfilt_dyn_contract (List.replicate L c) s hs (by simpa using hL)) ?_
  rintro out ⟨-, r, hr, rfl⟩
  unfold zeroPhase
  rw [oddExt_const _ _ _ hL, fwd_const r _ _ _ hr.2, List.reverse_replicate, fwd_const r _ _ _ hr.2, List.reverse_replicate]
  simp only [List.drop_replicate, List.take_replicate, List.length_replicate]
  congr 1
  · omega
  · ring

/-- signals not longer than the edge are rejected -/
theorem sosfiltfilt_dyn_rejects (y : List ℝ) (s : List (Sos ℝ)) (hy : y.length ≤ edge s) : sosfiltfilt_dyn y s = none := by
  unfold sosfiltfilt_dyn
  rs_inl
  have hm : min (s.filter (fun q => decide (q.b 2 = 0))).length (s.filter (fun q => decide (q.a 2 = 0))).length ≤ 2 * s.length + 1 := by
    have := List.length_filter_le (fun q : Sos ℝ => decide (q.b 2 = 0)) s
    omega
  simp only [rsSubU, hm, if_true, List.map_id', Option.bind_eq_bind, Option.bind_some]
  rw [C10.pad_rejects]
  · rfl
  · right
    simpa [C10.extent, rsMatOfVec, C10.edge, edge] using hy
end C11

/-
C18  Filter design validates its inputs and composes the right steps.
-/
import RsLemmas
import Gen.Iir
import Contracts.C13
import Contracts.C14
import Contracts.C15
import Contracts.C16
import Contracts.C17
set_option linter.all false
set_option maxRecDepth 4000
open Classical Gen ComplexConjugate C14
namespace C18

/-- critical frequencies on the scale where Nyquist is 1 -/
noncomputable def Wn (wn : List ℝ) (fs : Option ℝ) : List ℝ := match fs with
  | some f => wn.map (fun w => 2 * w / f)
  | none => wn
/-- number of critical frequencies of a band type -/
def want : FilterBandType → ℕ
  | FilterBandType.Lowpass => 1
  | FilterBandType.Highpass => 1
  | FilterBandType.Bandpass => 2
  | FilterBandType.Bandstop => 2
/-- the families on offer, each with its ripple parameters -/
def famOk (rp rs : Option ℝ) : FilterType → Prop
  | FilterType.Butterworth => True
  | FilterType.ChebyshevI => rp.isSome
  | FilterType.ChebyshevII => rs.isSome
  | _ => False
structure Valid (wn : List ℝ) (rp rs : Option ℝ) (bt : FilterBandType) (ft : FilterType) (analog : Bool) (fs : Option ℝ) : Prop where
  count : wn.length = want bt
  pos : ∀ w ∈ Wn wn fs, 0 < w
  inc : (Wn wn fs).Pairwise (· < ·)
  nyq : analog = false → ∀ w ∈ Wn wn fs, w < 1
  noFs : analog = true → fs = none
  rp0 : ∀ r ∈ rp, 0 ≤ r
  rs0 : ∀ r ∈ rs, 0 ≤ r
  fam : famOk rp rs ft

/-- `wlp o Q`: if the computation ends without failing, its result satisfies `Q` -/
def wlp {α : Type} (o : Option α) (Q : α → Prop) : Prop := ∀ r, o = some r → Q r
section
variable {α β : Type}
theorem wlp_some {a : α} {Q : α → Prop} (h : Q a) : wlp (some a) Q := fun r e => by cases e; exact h
theorem wlp_none {Q : α → Prop} : wlp (none : Option α) Q := fun r e => by cases e
theorem wlp_bind {o : Option α} {f : α → Option β} {Q : β → Prop} (h : wlp o (fun r => wlp (f r) Q)) : wlp (o >>= f) Q := by
  intro r e
  cases o with
  | none => cases e
  | some a => exact h a rfl r e
theorem wlp_ite {c : Prop} [Decidable c] {a b : Option α} {Q : α → Prop} (h1 : c → wlp a Q) (h2 : ¬ c → wlp b Q) :
    wlp (if c then a else b) Q := by
  by_cases h : c
  · rw [if_pos h]; exact h1 h
  · rw [if_neg h]; exact h2 h
theorem wlp_any {o : Option α} {Q : α → Prop} (h : ∀ r, Q r) : wlp o Q := fun r _ => h r
theorem wlp_idx {l : List α} {i : ℕ} {Q : α → Prop} (h : ∀ h : i < l.length, Q l[i]) : wlp (rsIdx l i) Q := fun r e => by
  by_cases hi : i < l.length
  · rw [rsIdx_some hi] at e; cases e; exact h hi
  · simp [rsIdx, hi] at e
theorem wlp_opt {o : Option α} {Q : α → Prop} (h : ∀ r, o = some r → Q r) : wlp o Q := h
end
open Lean Elab Tactic Meta in
elab "wl1" : tactic => do
  let t ← instantiateMVars (← (← getMainGoal).getType)
  let t := t.consumeMData
  unless t.getAppFn.isConstOf ``wlp && t.getAppNumArgs == 3 do throwError "not a wlp goal"
  let o := t.getAppArgs[1]!.consumeMData
  let go (s : TSyntax `tactic) : TacticM Unit := evalTactic s
  match o.getAppFn.constName? with
  | some ``Option.some => go (← `(tactic| refine wlp_some ?_))
  | some ``Option.none => go (← `(tactic| exact wlp_none))
  | some ``Bind.bind => go (← `(tactic| refine wlp_bind ?_))
  | some ``ite => go (← `(tactic| (refine wlp_ite ?_ ?_ <;> intro _)))
  | some ``rsIdx => go (← `(tactic| (refine wlp_idx ?_; intro _)))
  | _ => go (← `(tactic| (refine wlp_any ?_; intro _)))
open Lean Elab Tactic Meta in
elab "is_wlp" : tactic => do
  let t ← instantiateMVars (← (← getMainGoal).getType)
  unless t.consumeMData.getAppFn.isConstOf ``wlp do throwError "not a wlp goal"
macro "wlg" : tactic => `(tactic| repeat' (is_wlp; rs_reduce; wl1))

theorem valid_count (n : ℕ) (wn : List ℝ) (rp rs : Option ℝ) (bt : Option FilterBandType) (ft : Option FilterType) (an : Option Bool)
    (out : Option FilterOutputType) (fs : Option ℝ) :
    wlp (iirfilter_dyn n wn rp rs bt ft an out fs) (fun _ => wn.length = want (bt.getD FilterBandType.Bandpass)) := by
  unfold iirfilter_dyn
  rs_inl
  generalize bt.getD FilterBandType.Bandpass = bt
  generalize ft.getD FilterType.Butterworth = ft
  generalize an.getD false = an
  cases fs <;> cases bt
  all_goals try dsimp only
  all_goals wlg
  all_goals simp_all [want, Wn]
theorem valid_pos (n : ℕ) (wn : List ℝ) (rp rs : Option ℝ) (bt : Option FilterBandType) (ft : Option FilterType) (an : Option Bool)
    (out : Option FilterOutputType) (fs : Option ℝ) :
    wlp (iirfilter_dyn n wn rp rs bt ft an out fs) (fun _ => ∀ w ∈ Wn wn fs, 0 < w) := by
  unfold iirfilter_dyn
  rs_inl
  generalize bt.getD FilterBandType.Bandpass = bt
  generalize ft.getD FilterType.Butterworth = ft
  generalize an.getD false = an
  cases fs
  all_goals try dsimp only
  all_goals wlg
  all_goals simp_all [Wn]
theorem valid_inc (n : ℕ) (wn : List ℝ) (rp rs : Option ℝ) (bt : Option FilterBandType) (ft : Option FilterType) (an : Option Bool)
    (out : Option FilterOutputType) (fs : Option ℝ) :
    wlp (iirfilter_dyn n wn rp rs bt ft an out fs) (fun _ => wn.length ≤ 2 ∧ (Wn wn fs).Pairwise (· < ·)) := by
  unfold iirfilter_dyn
  rs_inl
  generalize bt.getD FilterBandType.Bandpass = bt
  generalize ft.getD FilterType.Butterworth = ft
  generalize an.getD false = an
  cases fs <;> rcases wn with _ | ⟨x, _ | ⟨y, _ | ⟨z, wn⟩⟩⟩
  all_goals try dsimp only
  all_goals wlg
  all_goals simp_all [Wn]
theorem valid_nyq (n : ℕ) (wn : List ℝ) (rp rs : Option ℝ) (bt : Option FilterBandType) (ft : Option FilterType) (an : Option Bool)
    (out : Option FilterOutputType) (fs : Option ℝ) :
    wlp (iirfilter_dyn n wn rp rs bt ft an out fs) (fun _ => an.getD false = false → ∀ w ∈ Wn wn fs, w < 1) := by
  unfold iirfilter_dyn
  rs_inl
  generalize bt.getD FilterBandType.Bandpass = bt
  generalize ft.getD FilterType.Butterworth = ft
  generalize an.getD false = an
  cases fs <;> cases an
  all_goals try dsimp only
  all_goals wlg
  all_goals simp_all [Wn]
theorem valid_noFs (n : ℕ) (wn : List ℝ) (rp rs : Option ℝ) (bt : Option FilterBandType) (ft : Option FilterType) (an : Option Bool)
    (out : Option FilterOutputType) (fs : Option ℝ) :
    wlp (iirfilter_dyn n wn rp rs bt ft an out fs) (fun _ => an.getD false = true → fs = none) := by
  unfold iirfilter_dyn
  rs_inl
  generalize bt.getD FilterBandType.Bandpass = bt
  generalize ft.getD FilterType.Butterworth = ft
  generalize an.getD false = an
  cases fs <;> cases an
  all_goals try dsimp only
  all_goals wlg
  all_goals simp_all [Wn]
theorem valid_rp (n : ℕ) (wn : List ℝ) (rp rs : Option ℝ) (bt : Option FilterBandType) (ft : Option FilterType) (an : Option Bool)
    (out : Option FilterOutputType) (fs : Option ℝ) :
    wlp (iirfilter_dyn n wn rp rs bt ft an out fs) (fun _ => ∀ r ∈ rp, 0 ≤ r) := by
  unfold iirfilter_dyn
  rs_inl
  generalize bt.getD FilterBandType.Bandpass = bt
  generalize ft.getD FilterType.Butterworth = ft
  generalize an.getD false = an
  cases rp
  all_goals try dsimp only
  all_goals wlg
  all_goals simp_all
theorem valid_rs (n : ℕ) (wn : List ℝ) (rp rs : Option ℝ) (bt : Option FilterBandType) (ft : Option FilterType) (an : Option Bool)
    (out : Option FilterOutputType) (fs : Option ℝ) :
    wlp (iirfilter_dyn n wn rp rs bt ft an out fs) (fun _ => ∀ r ∈ rs, 0 ≤ r) := by
  unfold iirfilter_dyn
  rs_inl
  generalize bt.getD FilterBandType.Bandpass = bt
  generalize ft.getD FilterType.Butterworth = ft
  generalize an.getD false = an
  cases rs
  all_goals try dsimp only
  all_goals wlg
  all_goals simp_all
theorem valid_fam (n : ℕ) (wn : List ℝ) (rp rs : Option ℝ) (bt : Option FilterBandType) (ft : Option FilterType) (an : Option Bool)
    (out : Option FilterOutputType) (fs : Option ℝ) :
    wlp (iirfilter_dyn n wn rp rs bt ft an out fs) (fun _ => famOk rp rs (ft.getD FilterType.Butterworth)) := by
  unfold iirfilter_dyn
  rs_inl
  generalize bt.getD FilterBandType.Bandpass = bt
  generalize ft.getD FilterType.Butterworth = ft
  generalize an.getD false = an
  cases rp <;> cases rs <;> cases ft
  all_goals try dsimp only
  all_goals wlg
  all_goals simp_all [famOk]

theorem iirfilter_valid (n : ℕ) (wn : List ℝ) (rp rs : Option ℝ) (bt : Option FilterBandType) (ft : Option FilterType) (an : Option Bool)
    (out : Option FilterOutputType) (fs : Option ℝ) :
    wlp (iirfilter_dyn n wn rp rs bt ft an out fs) (fun _ => Valid wn rp rs (bt.getD FilterBandType.Bandpass) (ft.getD FilterType.Butterworth) (an.getD false) fs) := fun r e =>
  ⟨valid_count _ _ _ _ _ _ _ _ _ r e, valid_pos _ _ _ _ _ _ _ _ _ r e, (valid_inc _ _ _ _ _ _ _ _ _ r e).2, valid_nyq _ _ _ _ _ _ _ _ _ r e,
   valid_noFs _ _ _ _ _ _ _ _ _ r e, valid_rp _ _ _ _ _ _ _ _ _ r e, valid_rs _ _ _ _ _ _ _ _ _ r e, valid_fam _ _ _ _ _ _ _ _ _ r e⟩
/-- an invalid request is rejected -/
theorem iirfilter_rejects (n : ℕ) (wn : List ℝ) (rp rs : Option ℝ) (bt : Option FilterBandType) (ft : Option FilterType) (an : Option Bool)
    (out : Option FilterOutputType) (fs : Option ℝ)
    (h : ¬ Valid wn rp rs (bt.getD FilterBandType.Bandpass) (ft.getD FilterType.Butterworth) (an.getD false) fs) : iirfilter_dyn n wn rp rs bt ft an out fs = none := by
  rcases e : iirfilter_dyn n wn rp rs bt ft an out fs with _ | r
  · rfl
  · exact (h (iirfilter_valid _ _ _ _ _ _ _ _ _ r e)).elim

/-! ### what a valid request returns -/
/-- the analog prototype of the family (C13) -/
noncomputable def proto (n : ℕ) (rp rs : Option ℝ) : FilterType → ZpkFormatFilter ℝ
  | FilterType.Butterworth => ⟨[], (List.range n).map (fun i => -Complex.exp (Complex.I * (C13.ang n i : ℝ))), 1⟩
  | FilterType.ChebyshevI => if n = 0 then ⟨[], [], (10 : ℝ) ^ (-(rp.getD 0) / 20)⟩
    else ⟨[], C13.poles1 n (rp.getD 0), ((C13.poles1 n (rp.getD 0)).map (fun p => -p)).prod.re / (if n % 2 = 0 then Real.sqrt (1 + C13.eps1 (rp.getD 0) * C13.eps1 (rp.getD 0)) else 1)⟩
  | FilterType.ChebyshevII => if n = 0 then ⟨[], [], 1⟩
    else ⟨C13.zeros2 n, C13.poles2 n (rs.getD 0), (((C13.poles2 n (rs.getD 0)).map (fun p => -p)).prod / ((C13.zeros2 n).map (fun z => -z)).prod).re⟩
  | _ => ⟨[], [], 0⟩
structure ProtoOk (n : ℕ) (f : ZpkFormatFilter ℝ) : Prop where
  proper : Proper f
  np : f.p.length = n
  left : ∀ p ∈ f.p, p.re < 0
  axis : ∀ z ∈ f.z, z.re = 0
/-- positive ripple where the family needs one -/
def ripple (rp rs : Option ℝ) : FilterType → Prop
  | FilterType.ChebyshevI => 0 < rp.getD 0
  | FilterType.ChebyshevII => 0 < rs.getD 0
  | _ => True
theorem wp_val {α : Type} {o : Option α} {a : α} {P : α → Prop} (h : wp o P) (e : o = some a) : P a := by
  obtain ⟨r, h1, h2⟩ := h; rw [e] at h1; cases h1; exact h2
theorem wp_both {α : Type} {o : Option α} {P Q : α → Prop} (h : wp o P) (h' : wp o Q) : wp o (fun r => P r ∧ Q r) := by
  obtain ⟨r, h1, h2⟩ := h; exact ⟨r, h1, h2, wp_val h' h1⟩
theorem proto_ok (n : ℕ) (rp rs : Option ℝ) (ft : FilterType) (hf : famOk rp rs ft) (hr : ripple rp rs ft) : ProtoOk n (proto n rp rs ft) := by
  cases ft with
  | Butterworth =>
    obtain ⟨h1, h2, h3, _, h4⟩ := wp_val (C13.buttap_poles n) (C13.buttap_contract n)
    exact ⟨h1, h3, fun p hp => (h4 p hp).1, fun z hz => by simp [proto] at hz⟩
  | ChebyshevI =>
    obtain ⟨h1, h2, h3, _, h4⟩ := wp_val (C13.cheb1ap_poles n (rp.getD 0) hr) (C13.cheb1ap_contract n (rp.getD 0))
    refine ⟨h1, h3, h4, fun z hz => ?_⟩
    unfold proto at hz
    rw [h2] at hz; simp at hz
  | ChebyshevII =>
    obtain ⟨h1, h2, h3, _, h4, h5⟩ := wp_val (C13.cheb2ap_poles n (rs.getD 0) hr) (C13.cheb2ap_contract n (rs.getD 0))
    exact ⟨h1, h3, h5, fun z hz => (h4 z hz).1⟩
  | CauerElliptic => exact hf.elim
  | BesselThomson _ => exact hf.elim

/-- the frequency substitution of the band type -/
noncomputable def sub (w0 w1 : ℝ) (s : ℂ) : FilterBandType → ℂ
  | FilterBandType.Lowpass => s / (w0 : ℂ)
  | FilterBandType.Highpass => (w0 : ℂ) / s
  | FilterBandType.Bandpass => (s ^ 2 + (w0 : ℂ) * w1) / (s * ((w1 : ℂ) - w0))
  | FilterBandType.Bandstop => s * ((w1 : ℂ) - w0) / (s ^ 2 + (w0 : ℂ) * w1)
/-- where the substitution is finite -/
def ok (w0 w1 : ℝ) (s : ℂ) : FilterBandType → Prop
  | FilterBandType.Lowpass => True
  | FilterBandType.Highpass => s ≠ 0
  | FilterBandType.Bandpass => s ≠ 0
  | FilterBandType.Bandstop => s ^ 2 + (w0 : ℂ) * w1 ≠ 0
/-- `s` is sent to the prototype's root `p` -/
def Img (w0 w1 : ℝ) (p s : ℂ) : FilterBandType → Prop
  | FilterBandType.Lowpass => s = p * w0
  | FilterBandType.Highpass => s * p = w0
  | FilterBandType.Bandpass => s ^ 2 + (w0 : ℂ) * w1 = p * ((w1 : ℂ) - w0) * s
  | FilterBandType.Bandstop => p * (s ^ 2 + (w0 : ℂ) * w1) = ((w1 : ℂ) - w0) * s
/-- `s` is sent to infinity -/
def Inf (w0 w1 : ℝ) (s : ℂ) : FilterBandType → Prop
  | FilterBandType.Lowpass => False
  | FilterBandType.Highpass => s = 0
  | FilterBandType.Bandpass => s = 0
  | FilterBandType.Bandstop => s ^ 2 + (w0 : ℂ) * w1 = 0
def zcount (nz np : ℕ) : FilterBandType → ℕ
  | FilterBandType.Lowpass => nz
  | FilterBandType.Highpass => np
  | FilterBandType.Bandpass => np + nz
  | FilterBandType.Bandstop => 2 * np
structure Ana (f : ZpkFormatFilter ℝ) (w0 w1 : ℝ) (bt : FilterBandType) (g : ZpkFormatFilter ℝ) : Prop where
  nz : g.z.length = zcount f.z.length f.p.length bt
  np : g.p.length = want bt * f.p.length
  rz : Real' g.z
  rp : Real' g.p
  resp : ∀ s, ok w0 w1 s bt → H g s = H f (sub w0 w1 s bt)
  poles : ∀ q ∈ g.p, ∃ p ∈ f.p, Img w0 w1 p q bt
  zeros : ∀ q ∈ g.z, (∃ z ∈ f.z, Img w0 w1 z q bt) ∨ Inf w0 w1 q bt
  left : ∀ q ∈ g.p, q.re < 0
  axis : ∀ q ∈ g.z, q.re = 0
/-- a root of `s + a/s = c` lies on the side of the axis `c` lies on -/
theorem side (q c : ℂ) (a : ℝ) (ha : 0 < a) (h : q ^ 2 + (a : ℂ) = c * q) : ∃ t : ℝ, 0 < t ∧ c.re = q.re * t := by
  have hq : q ≠ 0 := by
    rintro rfl
    simp at h; exact ha.ne' h
  refine ⟨1 + a / Complex.normSq q, by have := Complex.normSq_pos.2 hq; positivity, ?_⟩
  have : c = q + a / q := by field_simp; linear_combination -h
  rw [this]
  simp [Complex.div_re]
  ring
theorem lp2lp_ana (n : ℕ) (f : ZpkFormatFilter ℝ) (hf : ProtoOk n f) (hn : n < 2 ^ 64) (w0 w1 : ℝ) (h0 : 0 < w0) :
    wp (lp2lp_zpk_dyn f (some w0)) (Ana f w0 w1 FilterBandType.Lowpass) := by
  have hn' : f.p.length < 2 ^ 64 := by rw [hf.np]; exact hn
  refine wp_conseq (wp_both (lp2lp_contract f (some w0) hf.proper h0 hn') (lp2lp_roots f (some w0) hf.proper hn')) ?_
  rintro g ⟨⟨a1, a2, a3⟩, a4, a5, a6, a7⟩
  refine ⟨a1, by rw [a2]; simp [want], a4, a5, fun s _ => a3 s, a7, fun q hq => Or.inl (a6 q hq), ?_, ?_⟩
  · intro q hq
    obtain ⟨p, hp, rfl⟩ := a7 q hq
    have := hf.left p hp
    simp
    exact mul_neg_of_neg_of_pos this h0
  · intro q hq
    obtain ⟨p, hp, rfl⟩ := a6 q hq
    have := hf.axis p hp
    simp [this]
theorem ne0 {n : ℕ} {f : ZpkFormatFilter ℝ} (hf : ProtoOk n f) : ∀ p ∈ f.p, p ≠ 0 := by
  rintro p hp rfl
  have := hf.left _ hp
  simp at this
theorem lp2hp_ana (n : ℕ) (f : ZpkFormatFilter ℝ) (hf : ProtoOk n f) (hn : n < 2 ^ 64) (hz : f.z = []) (w0 w1 : ℝ) (h0 : 0 < w0) :
    wp (lp2hp_zpk_dyn f (some w0)) (Ana f w0 w1 FilterBandType.Highpass) := by
  have hn' : f.p.length < 2 ^ 64 := by rw [hf.np]; exact hn
  refine wp_conseq (wp_both (lp2hp_contract f (some w0) hf.proper h0 hn' (ne0 hf)) (lp2hp_roots f (some w0) hf.proper hn' (ne0 hf) hz)) ?_
  rintro g ⟨⟨a1, a2, a3⟩, a4, a5, a6, a7⟩
  refine ⟨a1, by rw [a2]; simp [want], a4, a5, fun s h => a3 hz s h, a7, fun q hq => Or.inr (a6 q hq), ?_, ?_⟩
  · intro q hq
    obtain ⟨p, hp, e⟩ := a7 q hq
    have hl := hf.left p hp
    have hp0 := ne0 hf p hp
    have : q = (w0 : ℂ) / p := by rw [eq_div_iff hp0]; exact e
    rw [this]
    have hN := Complex.normSq_pos.2 hp0
    simp [Complex.div_re]
    exact div_neg_of_neg_of_pos (mul_neg_of_pos_of_neg h0 hl) hN
  · intro q hq
    rw [a6 q hq]; simp
theorem lp2bp_ana (n : ℕ) (f : ZpkFormatFilter ℝ) (hf : ProtoOk n f) (hn : n < 2 ^ 64) (w0 w1 : ℝ) (h0 : 0 < w0) (h1 : w0 < w1) :
    wp (lp2bp_zpk_dyn f (some (Real.sqrt (w0 * w1))) (some (w1 - w0))) (Ana f w0 w1 FilterBandType.Bandpass) := by
  have hn' : f.p.length < 2 ^ 64 := by rw [hf.np]; exact hn
  have hw : 0 < w0 * w1 := by have : 0 < w1 := by linarith
                              positivity
  have hb : 0 < w1 - w0 := by linarith
  have hs : ((Real.sqrt (w0 * w1) : ℝ) : ℂ) ^ 2 = (w0 : ℂ) * w1 := by
    rw [← Complex.ofReal_pow, Real.sq_sqrt hw.le]; push_cast; ring
  refine wp_conseq (wp_both (lp2bp_contract f (some (Real.sqrt (w0 * w1))) (some (w1 - w0)) hf.proper (Real.sqrt_pos.2 hw) hb hn') (lp2bp_roots f (some (Real.sqrt (w0 * w1))) (some (w1 - w0)) hf.proper hn')) ?_
  simp only [Option.getD_some, hs, Complex.ofReal_sub]
  rintro g ⟨⟨a1, a2, a3⟩, a4, a5, a6, a7⟩
  refine ⟨a1, a2, a4, a5, fun s h => a3 s h, a7, fun q hq => (a6 q hq).symm, ?_, ?_⟩
  · intro q hq
    obtain ⟨p, hp, e⟩ := a7 q hq
    obtain ⟨t, ht, e2⟩ := side q (p * ((w1 : ℂ) - w0)) (w0 * w1) hw (by push_cast; exact e)
    have hl := hf.left p hp
    have : (p * ((w1 : ℂ) - w0)).re = p.re * (w1 - w0) := by simp
    rw [this] at e2
    nlinarith [mul_neg_of_neg_of_pos hl hb]
  · intro q hq
    rcases a6 q hq with rfl | ⟨z, hz, e⟩
    · simp
    · obtain ⟨t, ht, e2⟩ := side q (z * ((w1 : ℂ) - w0)) (w0 * w1) hw (by push_cast; exact e)
      have : (z * ((w1 : ℂ) - w0)).re = z.re * (w1 - w0) := by simp
      rw [this, hf.axis z hz, zero_mul] at e2
      rcases mul_eq_zero.1 e2.symm with h | h
      · exact h
      · linarith
theorem lp2bs_ana (n : ℕ) (f : ZpkFormatFilter ℝ) (hf : ProtoOk n f) (hn : n < 2 ^ 64) (hz : f.z = []) (w0 w1 : ℝ) (h0 : 0 < w0) (h1 : w0 < w1) :
    wp (lp2bs_zpk_dyn f (some (Real.sqrt (w0 * w1))) (some (w1 - w0))) (Ana f w0 w1 FilterBandType.Bandstop) := by
  have hn' : f.p.length < 2 ^ 64 := by rw [hf.np]; exact hn
  have hw : 0 < w0 * w1 := by have : 0 < w1 := by linarith
                              positivity
  have hb : 0 < w1 - w0 := by linarith
  have hs : ((Real.sqrt (w0 * w1) : ℝ) : ℂ) ^ 2 = (w0 : ℂ) * w1 := by
    rw [← Complex.ofReal_pow, Real.sq_sqrt hw.le]; push_cast; ring
  refine wp_conseq (wp_both (lp2bs_contract f (some (Real.sqrt (w0 * w1))) (some (w1 - w0)) hf.proper (Real.sqrt_pos.2 hw) hb hn' (ne0 hf)) (lp2bs_roots f (some (Real.sqrt (w0 * w1))) (some (w1 - w0)) hf.proper hn' (ne0 hf) hz)) ?_
  simp only [Option.getD_some, hs, Complex.ofReal_sub]
  rintro g ⟨⟨a1, a2, a3⟩, a4, a5, a6, a7⟩
  refine ⟨a1, a2, a4, a5, fun s h => a3 hz s h, a7, fun q hq => Or.inr (a6 q hq), ?_, ?_⟩
  · intro q hq
    obtain ⟨p, hp, e⟩ := a7 q hq
    have hp0 := ne0 hf p hp
    obtain ⟨t, ht, e2⟩ := side q (((w1 : ℂ) - w0) / p) (w0 * w1) hw (by push_cast; field_simp; linear_combination e)
    have hl := hf.left p hp
    have hN := Complex.normSq_pos.2 hp0
    have : (((w1 : ℂ) - w0) / p).re = (w1 - w0) * p.re / Complex.normSq p := by simp [Complex.div_re]
    rw [this] at e2
    have := div_neg_of_neg_of_pos (mul_neg_of_pos_of_neg hb hl) hN
    nlinarith
  · intro q hq
    have e := a6 q hq
    have hi : (q ^ 2 + (w0 : ℂ) * w1).im = 0 := by rw [e]; simp
    have hr : (q ^ 2 + (w0 : ℂ) * w1).re = 0 := by rw [e]; simp
    simp [sq] at hi hr
    by_contra hne
    have : q.im = 0 := by
      have : q.re * q.im = 0 := by linarith
      exact (mul_eq_zero.1 this).resolve_left hne
    rw [this] at hr
    nlinarith [mul_self_nonneg q.re]

/-- the analog frequency variable behind `q`: `q` itself, or the inverse bilinear transform at fs = 2 -/
noncomputable def pre (an : Bool) (q : ℂ) : ℂ := if an = true then q else 4 * (q - 1) / (q + 1)
/-- `q` is where the analog root `s` ends -/
def Post (an : Bool) (s q : ℂ) : Prop := if an = true then q = s else q = (4 + s) / (4 - s)
/-- the filter asked for: prototype `f`, band edges `w0`, `w1` (analog, pre-warped) -/
structure Designed (f : ZpkFormatFilter ℝ) (w0 w1 : ℝ) (bt : FilterBandType) (an : Bool) (g : ZpkFormatFilter ℝ) : Prop where
  np : g.p.length = want bt * f.p.length
  nz : g.z.length = if an = true then zcount f.z.length f.p.length bt else want bt * f.p.length
  rz : Real' g.z
  rp : Real' g.p
  resp : ∀ q, (an = true ∨ q ≠ -1) → ok w0 w1 (pre an q) bt → H g q = H f (sub w0 w1 (pre an q) bt)
  poles : ∀ q ∈ g.p, ∃ p ∈ f.p, ∃ s, Img w0 w1 p s bt ∧ Post an s q
  zeros : ∀ q ∈ g.z, (∃ s, ((∃ z ∈ f.z, Img w0 w1 z s bt) ∨ Inf w0 w1 s bt) ∧ Post an s q) ∨ an = false ∧ q = -1
  stable : ∀ q ∈ g.p, if an = true then q.re < 0 else ‖q‖ < 1

theorem designed_analog {f g : ZpkFormatFilter ℝ} {w0 w1 : ℝ} {bt : FilterBandType} (h : Ana f w0 w1 bt g) : Designed f w0 w1 bt true g :=
  ⟨h.np, by rw [h.nz]; rfl, h.rz, h.rp, fun q _ hq => h.resp q hq, fun q hq => by
    obtain ⟨p, hp, e⟩ := h.poles q hq
    exact ⟨p, hp, q, e, rfl⟩, fun q hq => Or.inl ⟨q, h.zeros q hq, rfl⟩, fun q hq => h.left q hq⟩

theorem bilinear_designed (n : ℕ) (f h : ZpkFormatFilter ℝ) (w0 w1 : ℝ) (bt : FilterBandType) (hf : ProtoOk n f) (hn : n < 2 ^ 62) (ha : Ana f w0 w1 bt h) (fs : ℝ) (hfs : fs = 2) :
    wp (bilinear_zpk_dyn h fs) (Designed f w0 w1 bt false) := by
  subst hfs
  have hd := hf.proper.deg
  have hN := hf.np
  have hpr : Proper h := ⟨by rw [ha.nz, ha.np]; cases bt <;> simp only [zcount, want] <;> omega, ha.rz, ha.rp⟩
  have hl : h.p.length < 2 ^ 64 := by rw [ha.np]; cases bt <;> simp only [want] <;> omega
  have h4 : ∀ w : ℂ, w.re ≤ 0 → w ≠ ((2 * 2 : ℝ) : ℂ) := by
    rintro w hw rfl
    norm_num at hw
  have h0 : ∀ w ∈ h.z ++ h.p, w ≠ ((2 * 2 : ℝ) : ℂ) := by
    intro w hw
    rcases List.mem_append.1 hw with hw | hw
    · exact h4 w (ha.axis w hw).le
    · exact h4 w (ha.left w hw).le
  refine wp_conseq (wp_both (C15.bilinear_contract h 2 hpr (by norm_num) hl h0) (C15.bilinear_stable h 2 hpr (by norm_num) hl h0 ha.left)) ?_
  have e4 : ((2 * 2 : ℝ) : ℂ) = 4 := by norm_num
  rw [e4]
  rintro g ⟨⟨a1, a2, a3, a4⟩, a5⟩
  have np : g.p.length = want bt * f.p.length := by rw [a1, List.length_map, ha.np]
  have c4 : conj (4 : ℂ) = 4 := Complex.conj_ofNat 4
  refine ⟨np, by rw [a3, np]; simp, ?_, ?_, ?_, ?_, ?_, ?_⟩
  · rw [a2]
    exact real_append (real_map _ _ (fun w => by simp [c4]) ha.rz) (real_const _ _ (by simp))
  · rw [a1]
    exact real_map _ _ (fun w => by simp [c4]) ha.rp
  · rintro q (hq | hq) ho
    · cases hq
    · rw [a4 q hq]; exact ha.resp _ ho
  · intro q hq
    rw [a1] at hq
    obtain ⟨s, hs, rfl⟩ := List.mem_map.1 hq
    obtain ⟨p, hp, e⟩ := ha.poles s hs
    exact ⟨p, hp, s, e, rfl⟩
  · intro q hq
    rw [a2] at hq
    rcases List.mem_append.1 hq with hq | hq
    · obtain ⟨s, hs, rfl⟩ := List.mem_map.1 hq
      exact Or.inl ⟨s, ha.zeros s hs, rfl⟩
    · exact Or.inr ⟨rfl, List.eq_of_mem_replicate hq⟩
  · intro q hq
    exact a5 q hq

/-- band edges on the analog axis, pre-warped for digital designs -/
noncomputable def warp (an : Bool) (w : ℝ) : ℝ := if an = true then w else 4 * Real.tan (Real.pi * w / 2)
theorem warp_mono (an : Bool) (a b : ℝ) (h0 : 0 ≤ a) (hab : a < b) (hb : an = false → b < 1) : warp an a < warp an b := by
  unfold warp
  cases an with
  | true => simpa using hab
  | false =>
    have hb := hb rfl
    have hp := Real.pi_pos
    have : Real.tan (Real.pi * a / 2) < Real.tan (Real.pi * b / 2) := by
      apply Real.tan_lt_tan_of_lt_of_lt_pi_div_two
      · have : 0 ≤ Real.pi * a := by positivity
        linarith
      · nlinarith
      · nlinarith
    simp only [Bool.false_eq_true, if_false]
    linarith
theorem warp_pos (an : Bool) (a : ℝ) (h0 : 0 < a) (hb : an = false → a < 1) : 0 < warp an a := by
  have := warp_mono an 0 a le_rfl h0 hb
  have h : warp an 0 = 0 := by cases an <;> simp [warp]
  rwa [h] at this
noncomputable def edge (wn : List ℝ) (fs : Option ℝ) (an : Bool) (i : ℕ) : ℝ := warp an ((Wn wn fs).getD i 0)

/-- the requested format of the design `g` -/
def Out (n : ℕ) (an : Bool) (g : ZpkFormatFilter ℝ) (r : DigitalFilter ℝ) : FilterOutputType → Prop
  | FilterOutputType.Zpk => r = DigitalFilter.Zpk g
  | FilterOutputType.Ba => r = DigitalFilter.Ba ⟨C16.pad (2 * n + 1) ((C16.desc g.z).map (fun c => g.k * c.re)), C16.pad (2 * n + 1) ((C16.desc g.p).map (fun c => c.re))⟩
  | FilterOutputType.Sos => ∃ l, r = DigitalFilter.Sos ⟨l⟩ ∧ C17.Spec g.z g.p g.k l
/-- sections are asked for digital filters whose roots are real or clearly not real (see C17) -/
def SosOk (f : ZpkFormatFilter ℝ) (w0 w1 : ℝ) (bt : FilterBandType) (an : Bool) (out : FilterOutputType) : Prop :=
  out = FilterOutputType.Sos → an = false ∧ ∀ q s p, (Img w0 w1 p s bt ∧ p ∈ f.z ++ f.p ∨ Inf w0 w1 s bt) → Post an s q → q.im = 0 ∨ rsEps * 100 * |q.re| < |q.im|

/-- last step: the format -/
theorem out_ok (n : ℕ) (f g : ZpkFormatFilter ℝ) (w0 w1 : ℝ) (bt : FilterBandType) (an : Bool) (out : FilterOutputType) (hg : Designed f w0 w1 bt an g)
    (hs : SosOk f w0 w1 bt an out) (ho : out = FilterOutputType.Sos) :
    an = false ∧ C17.Conj g.z ∧ C17.Conj g.p ∧ C17.Clear g.z ∧ C17.Clear g.p := by
  obtain ⟨h1, h2⟩ := hs ho
  refine ⟨h1, hg.rz, hg.rp, ?_, ?_⟩
  · intro q hq
    rcases hg.zeros q hq with ⟨s, ⟨z, hz, hi⟩ | hi, hp⟩ | ⟨_, rfl⟩
    · exact h2 q s z (Or.inl ⟨hi, by simp [hz]⟩) hp
    · exact h2 q s 0 (Or.inr hi) hp
    · left; simp
  · intro q hq
    obtain ⟨p, hp, s, hi, hpost⟩ := hg.poles q hq
    exact h2 q s p (Or.inl ⟨hi, by simp [hp]⟩) hpost

theorem wp_neg {α : Type} {c : Prop} [Decidable c] {a b : Option α} {Q : α → Prop} (hc : ¬ c) (h : wp b Q) : wp (if c then a else b) Q := by rw [if_neg hc]; exact h
theorem wp_pos {α : Type} {c : Prop} [Decidable c] {a b : Option α} {Q : α → Prop} (hc : c) (h : wp a Q) : wp (if c then a else b) Q := by rw [if_pos hc]; exact h
theorem lp2lp_ana' (n : ℕ) (f : ZpkFormatFilter ℝ) (hf : ProtoOk n f) (hn : n < 2 ^ 64) (hz : FilterBandType.Lowpass = FilterBandType.Highpass ∨ FilterBandType.Lowpass = FilterBandType.Bandstop → f.z = [])
    (w0 w1 : ℝ) (h0 : 0 < w0) (h1 : True) (e : ℝ) (he : e = w0) :
    wp (lp2lp_zpk_dyn f (some e)) (Ana f w0 w1 FilterBandType.Lowpass) := by subst he; exact lp2lp_ana n f hf hn e w1 h0
theorem lp2hp_ana' (n : ℕ) (f : ZpkFormatFilter ℝ) (hf : ProtoOk n f) (hn : n < 2 ^ 64) (hz : FilterBandType.Highpass = FilterBandType.Highpass ∨ FilterBandType.Highpass = FilterBandType.Bandstop → f.z = [])
    (w0 w1 : ℝ) (h0 : 0 < w0) (h1 : True) (e : ℝ) (he : e = w0) :
    wp (lp2hp_zpk_dyn f (some e)) (Ana f w0 w1 FilterBandType.Highpass) := by subst he; exact lp2hp_ana n f hf hn (hz (Or.inl rfl)) e w1 h0
theorem lp2bp_ana' (n : ℕ) (f : ZpkFormatFilter ℝ) (hf : ProtoOk n f) (hn : n < 2 ^ 64) (hz : FilterBandType.Bandpass = FilterBandType.Highpass ∨ FilterBandType.Bandpass = FilterBandType.Bandstop → f.z = [])
    (w0 w1 : ℝ) (h0 : 0 < w0) (h1 : w0 < w1) (e e' : ℝ) (he : e = Real.sqrt (w0 * w1)) (he' : e' = w1 - w0) :
    wp (lp2bp_zpk_dyn f (some e) (some e')) (Ana f w0 w1 FilterBandType.Bandpass) := by subst he he'; exact lp2bp_ana n f hf hn w0 w1 h0 h1
theorem lp2bs_ana' (n : ℕ) (f : ZpkFormatFilter ℝ) (hf : ProtoOk n f) (hn : n < 2 ^ 64) (hz : FilterBandType.Bandstop = FilterBandType.Highpass ∨ FilterBandType.Bandstop = FilterBandType.Bandstop → f.z = [])
    (w0 w1 : ℝ) (h0 : 0 < w0) (h1 : w0 < w1) (e e' : ℝ) (he : e = Real.sqrt (w0 * w1)) (he' : e' = w1 - w0) :
    wp (lp2bs_zpk_dyn f (some e) (some e')) (Ana f w0 w1 FilterBandType.Bandstop) := by subst he he'; exact lp2bs_ana n f hf hn (hz (Or.inr rfl)) w0 w1 h0 h1
set_option hygiene false in
/-- decide a condition on the critical frequencies from `f1`..`f4` -/
macro "iir_cond" : tactic => `(tactic| solve
  | (simp; done)
  | (simp [f1, f2, f3, f4]; done)
  | (simp; linarith)
  | (simp only [List.any_cons, List.any_nil, List.map_cons, List.map_nil, List.length_cons, List.length_nil, List.getElem_cons_zero, List.getElem_cons_succ, decide_eq_true_eq, Bool.or_eq_true,
      Bool.false_eq_true, or_false, not_or, not_le, not_lt, ge_iff_le, f1, f2, f3, f4, true_and, and_true]; done))
set_option hygiene false in
/-- the argument of the frequency transformation -/
macro "iir_eq" : tactic => `(tactic| solve
  | (simp [← hw, warp]; done)
  | (simp [← hw, warp]; norm_num; done)
  | (simp [← hw, ← hw1, warp]; done)
  | (simp [← hw, ← hw1, warp]; norm_num; done)
  | (simp [← hw, ← hw1, warp]; ring_nf; done))
set_option hygiene false in
macro "iir_proto" : tactic => `(tactic| (
  cases ft with
  | Butterworth => exact wp_of_eq (C13.buttap_contract n) rfl
  | ChebyshevI =>
    cases rp with
    | none => exact absurd hfam (by simp [famOk])
    | some c => dsimp only; repeat' (is_wp; rs_reduce; first | exact wp_of_eq (C13.cheb1ap_contract n c) rfl | (refine wp_neg ?_ ?_; simp; done) | vc1)
  | ChebyshevII =>
    cases rs with
    | none => exact absurd hfam (by simp [famOk])
    | some c => dsimp only; repeat' (is_wp; rs_reduce; first | exact wp_of_eq (C13.cheb2ap_contract n c) rfl | (refine wp_neg ?_ ?_; simp; done) | vc1)
  | CauerElliptic => exact absurd hfam (by simp [famOk])
  | BesselThomson _ => exact absurd hfam (by simp [famOk])))
set_option hygiene false in
/-- the steps the walk stops at: checks of the ripple, prototype, frequency transformation -/
macro "iir_step" : tactic => `(tactic| first
  | (refine wp_conseq (P := fun _ : Unit => True) ?_ (fun _ _ => ?_); (focus (clear hs hP hz; cases rp <;> cases rs <;> dsimp only <;> vcg <;> simp_all <;> linarith)))
  | (refine wp_conseq (P := fun f : ZpkFormatFilter ℝ => f = proto n rp rs ft) ?_ ?_; (focus (clear hs hP hz; iir_proto)); rintro _ rfl)
  | refine wp_conseq (lp2lp_ana' n _ hP hn4 hz w0 w1 h0 h1 _ (by iir_eq)) (fun g hg => ?_)
  | refine wp_conseq (lp2hp_ana' n _ hP hn4 hz w0 w1 h0 h1 _ (by iir_eq)) (fun g hg => ?_)
  | refine wp_conseq (lp2bp_ana' n _ hP hn4 hz w0 w1 h0 h1 _ _ (by iir_eq) (by iir_eq)) (fun g hg => ?_)
  | refine wp_conseq (lp2bs_ana' n _ hP hn4 hz w0 w1 h0 h1 _ _ (by iir_eq) (by iir_eq)) (fun g hg => ?_)
  | refine wp_conseq (bilinear_designed n _ g w0 w1 _ hP hn hg _ (by norm_num)) (fun g hd => ?_))
macro "iir_walk" : tactic => `(tactic| repeat' (is_wp; rs_reduce; first | (refine wp_neg ?_ ?_; iir_cond) | (refine wp_pos ?_ ?_; iir_cond) | iir_step | vc1))
set_option hygiene false in
macro "iir_out" : tactic => `(tactic| (
  first | (have hd' := hd) | (have hd' := designed_analog hg)
  have ho := out_ok n _ g _ _ _ _ out hd' hs
  cases out with
  | Zpk => exact wp_some ⟨g, hd', rfl⟩
  | Ba => exact wp_bind (wp_of_eq (C16.zpk2tf_dyn_contract _ _ _ _) (wp_some ⟨g, hd', rfl⟩))
  | Sos =>
    obtain ⟨o1, o2, o3, o4, o5⟩ := ho rfl
    first | (cases o1; done) | (
    refine wp_bind (wp_conseq (C17.zpk2sos_dyn_contract n g.z g.p g.k none (some false) (Or.inl rfl) (Or.inr rfl) o2 o3 o4 o5) (fun r hr => ?_))
    exact wp_some ⟨g, hd', r.sos, rfl, hr⟩)))
set_option maxHeartbeats 4000000 in
theorem iirfilter_lowpass (n : ℕ) (wn : List ℝ) (rp rs : Option ℝ) (bt : Option FilterBandType) (ft : Option FilterType) (an : Option Bool)
    (out : Option FilterOutputType) (fs : Option ℝ)
    (hbt : bt.getD FilterBandType.Bandpass = FilterBandType.Lowpass)
    (hv : Valid wn rp rs (bt.getD FilterBandType.Bandpass) (ft.getD FilterType.Butterworth) (an.getD false) fs)
    (hr : ripple rp rs (ft.getD FilterType.Butterworth)) (hn : n < 2 ^ 62)
    (hk : ft.getD FilterType.Butterworth = FilterType.ChebyshevII → bt.getD FilterBandType.Bandpass = FilterBandType.Lowpass ∨ bt.getD FilterBandType.Bandpass = FilterBandType.Bandpass)
    (hs : SosOk (proto n rp rs (ft.getD FilterType.Butterworth)) (edge wn fs (an.getD false) 0) (edge wn fs (an.getD false) 1) (bt.getD FilterBandType.Bandpass) (an.getD false) (out.getD FilterOutputType.Ba)) :
    wp (iirfilter_dyn n wn rp rs bt ft an out fs) (fun r => ∃ g,
      Designed (proto n rp rs (ft.getD FilterType.Butterworth)) (edge wn fs (an.getD false) 0) (edge wn fs (an.getD false) 1) (bt.getD FilterBandType.Bandpass) (an.getD false) g ∧
      Out n (an.getD false) g r (out.getD FilterOutputType.Ba)) := by
  unfold iirfilter_dyn
  rs_inl
  generalize bt.getD FilterBandType.Bandpass = bt at *
  generalize ft.getD FilterType.Butterworth = ft at *
  generalize an.getD false = an at *
  generalize out.getD FilterOutputType.Ba = out at *
  have hP := proto_ok n rp rs ft hv.fam hr
  have hn4 : n < 2 ^ 64 := by omega
  -- the prototype's zeros
  have hz : bt = FilterBandType.Highpass ∨ bt = FilterBandType.Bandstop → (proto n rp rs ft).z = [] := by
    intro hb
    cases ft with
    | Butterworth => rfl
    | ChebyshevI => simp only [proto]; split <;> rfl
    | ChebyshevII => exfalso; rcases hk rfl with h | h <;> rcases hb with h' | h' <;> rw [h] at h' <;> cases h'
    | CauerElliptic => rfl
    | BesselThomson _ => rfl
  have hlen : wn.length ≤ 2 := by rw [hv.count]; cases bt <;> simp [want]
  have hcnt := hv.count
  have hpos := hv.pos
  have hinc := hv.inc
  have hnyq := hv.nyq
  have hfs := hv.noFs
  have hrp := hv.rp0
  have hrs := hv.rs0
  have hfam := hv.fam
  clear hv hlen
  -- one or two critical frequencies, on the unit scale
  have hW : (want bt = 1 ∧ ∃ x, wn = [x]) ∨ (want bt = 2 ∧ ∃ x y, wn = [x, y]) := by
    rcases wn with _ | ⟨x, _ | ⟨y, _ | ⟨z, wn⟩⟩⟩ <;> cases bt <;> simp [want] at hcnt ⊢
  rcases hW with ⟨hb, x, rfl⟩ | ⟨hb, x, y, rfl⟩
  · have hx : ∃ u, Wn [x] fs = [u] ∧ (∀ f, fs = some f → 2 * x / f = u) ∧ (fs = none → x = u) := by
      cases fs with
      | none => exact ⟨x, rfl, by simp, fun _ => rfl⟩
      | some f => exact ⟨2 * x / f, rfl, by simp, by simp⟩
    obtain ⟨u, hu, hu1, hu2⟩ := hx
    have eu : edge [x] fs an 0 = warp an u := by simp [edge, hu]
    rw [hu] at hpos hinc hnyq
    rw [eu] at hs ⊢
    have u0 : 0 < u := hpos u (by simp)
    have u1 : an = false → u < 1 := fun h => hnyq h u (by simp)
    have h0 := warp_pos an u u0 u1
    have h1 : True := trivial
    have f3 : True := trivial
    have f4 : True := trivial
    generalize edge [x] fs an 1 = w1 at *
    clear eu hpos hinc hnyq hu
    subst hbt
    cases fs <;> cases an <;> (try cases hb) <;> (try (cases hfs rfl))
    all_goals simp only [forall_const, Option.some.injEq, forall_eq', reduceCtorEq, IsEmpty.forall_iff, Bool.false_eq_true] at hu1 hu2 u1
    all_goals first | subst hu1 | subst hu2
    all_goals clear hk hcnt hfs
    all_goals have f1 := u0
    all_goals have f2 := u1
    all_goals generalize hw : warp _ _ = w0 at *
    all_goals try dsimp only
    all_goals iir_walk
    all_goals first | iir_out | (simp; done)
  · subst hbt; cases hb

set_option maxHeartbeats 4000000 in
theorem iirfilter_highpass (n : ℕ) (wn : List ℝ) (rp rs : Option ℝ) (bt : Option FilterBandType) (ft : Option FilterType) (an : Option Bool)
    (out : Option FilterOutputType) (fs : Option ℝ)
    (hbt : bt.getD FilterBandType.Bandpass = FilterBandType.Highpass)
    (hv : Valid wn rp rs (bt.getD FilterBandType.Bandpass) (ft.getD FilterType.Butterworth) (an.getD false) fs)
    (hr : ripple rp rs (ft.getD FilterType.Butterworth)) (hn : n < 2 ^ 62)
    (hk : ft.getD FilterType.Butterworth = FilterType.ChebyshevII → bt.getD FilterBandType.Bandpass = FilterBandType.Lowpass ∨ bt.getD FilterBandType.Bandpass = FilterBandType.Bandpass)
    (hs : SosOk (proto n rp rs (ft.getD FilterType.Butterworth)) (edge wn fs (an.getD false) 0) (edge wn fs (an.getD false) 1) (bt.getD FilterBandType.Bandpass) (an.getD false) (out.getD FilterOutputType.Ba)) :
    wp (iirfilter_dyn n wn rp rs bt ft an out fs) (fun r => ∃ g,
      Designed (proto n rp rs (ft.getD FilterType.Butterworth)) (edge wn fs (an.getD false) 0) (edge wn fs (an.getD false) 1) (bt.getD FilterBandType.Bandpass) (an.getD false) g ∧
      Out n (an.getD false) g r (out.getD FilterOutputType.Ba)) := by
  unfold iirfilter_dyn
  rs_inl
  generalize bt.getD FilterBandType.Bandpass = bt at *
  generalize ft.getD FilterType.Butterworth = ft at *
  generalize an.getD false = an at *
  generalize out.getD FilterOutputType.Ba = out at *
  have hP := proto_ok n rp rs ft hv.fam hr
  have hn4 : n < 2 ^ 64 := by omega
  -- the prototype's zeros
  have hz : bt = FilterBandType.Highpass ∨ bt = FilterBandType.Bandstop → (proto n rp rs ft).z = [] := by
    intro hb
    cases ft with
    | Butterworth => rfl
    | ChebyshevI => simp only [proto]; split <;> rfl
    | ChebyshevII => exfalso; rcases hk rfl with h | h <;> rcases hb with h' | h' <;> rw [h] at h' <;> cases h'
    | CauerElliptic => rfl
    | BesselThomson _ => rfl
  have hlen : wn.length ≤ 2 := by rw [hv.count]; cases bt <;> simp [want]
  have hcnt := hv.count
  have hpos := hv.pos
  have hinc := hv.inc
  have hnyq := hv.nyq
  have hfs := hv.noFs
  have hrp := hv.rp0
  have hrs := hv.rs0
  have hfam := hv.fam
  clear hv hlen
  -- one or two critical frequencies, on the unit scale
  have hW : (want bt = 1 ∧ ∃ x, wn = [x]) ∨ (want bt = 2 ∧ ∃ x y, wn = [x, y]) := by
    rcases wn with _ | ⟨x, _ | ⟨y, _ | ⟨z, wn⟩⟩⟩ <;> cases bt <;> simp [want] at hcnt ⊢
  rcases hW with ⟨hb, x, rfl⟩ | ⟨hb, x, y, rfl⟩
  · have hx : ∃ u, Wn [x] fs = [u] ∧ (∀ f, fs = some f → 2 * x / f = u) ∧ (fs = none → x = u) := by
      cases fs with
      | none => exact ⟨x, rfl, by simp, fun _ => rfl⟩
      | some f => exact ⟨2 * x / f, rfl, by simp, by simp⟩
    obtain ⟨u, hu, hu1, hu2⟩ := hx
    have eu : edge [x] fs an 0 = warp an u := by simp [edge, hu]
    rw [hu] at hpos hinc hnyq
    rw [eu] at hs ⊢
    have u0 : 0 < u := hpos u (by simp)
    have u1 : an = false → u < 1 := fun h => hnyq h u (by simp)
    have h0 := warp_pos an u u0 u1
    have h1 : True := trivial
    have f3 : True := trivial
    have f4 : True := trivial
    generalize edge [x] fs an 1 = w1 at *
    clear eu hpos hinc hnyq hu
    subst hbt
    cases fs <;> cases an <;> (try cases hb) <;> (try (cases hfs rfl))
    all_goals simp only [forall_const, Option.some.injEq, forall_eq', reduceCtorEq, IsEmpty.forall_iff, Bool.false_eq_true] at hu1 hu2 u1
    all_goals first | subst hu1 | subst hu2
    all_goals clear hk hcnt hfs
    all_goals have f1 := u0
    all_goals have f2 := u1
    all_goals generalize hw : warp _ _ = w0 at *
    all_goals try dsimp only
    all_goals iir_walk
    all_goals first | iir_out | (simp; done)
  · subst hbt; cases hb

set_option maxHeartbeats 4000000 in
theorem iirfilter_bandpass (n : ℕ) (wn : List ℝ) (rp rs : Option ℝ) (bt : Option FilterBandType) (ft : Option FilterType) (an : Option Bool)
    (out : Option FilterOutputType) (fs : Option ℝ)
    (hbt : bt.getD FilterBandType.Bandpass = FilterBandType.Bandpass)
    (hv : Valid wn rp rs (bt.getD FilterBandType.Bandpass) (ft.getD FilterType.Butterworth) (an.getD false) fs)
    (hr : ripple rp rs (ft.getD FilterType.Butterworth)) (hn : n < 2 ^ 62)
    (hk : ft.getD FilterType.Butterworth = FilterType.ChebyshevII → bt.getD FilterBandType.Bandpass = FilterBandType.Lowpass ∨ bt.getD FilterBandType.Bandpass = FilterBandType.Bandpass)
    (hs : SosOk (proto n rp rs (ft.getD FilterType.Butterworth)) (edge wn fs (an.getD false) 0) (edge wn fs (an.getD false) 1) (bt.getD FilterBandType.Bandpass) (an.getD false) (out.getD FilterOutputType.Ba)) :
    wp (iirfilter_dyn n wn rp rs bt ft an out fs) (fun r => ∃ g,
      Designed (proto n rp rs (ft.getD FilterType.Butterworth)) (edge wn fs (an.getD false) 0) (edge wn fs (an.getD false) 1) (bt.getD FilterBandType.Bandpass) (an.getD false) g ∧
      Out n (an.getD false) g r (out.getD FilterOutputType.Ba)) := by
  unfold iirfilter_dyn
  rs_inl
  generalize bt.getD FilterBandType.Bandpass = bt at *
  generalize ft.getD FilterType.Butterworth = ft at *
  generalize an.getD false = an at *
  generalize out.getD FilterOutputType.Ba = out at *
  have hP := proto_ok n rp rs ft hv.fam hr
  have hn4 : n < 2 ^ 64 := by omega
  -- the prototype's zeros
  have hz : bt = FilterBandType.Highpass ∨ bt = FilterBandType.Bandstop → (proto n rp rs ft).z = [] := by
    intro hb
    cases ft with
    | Butterworth => rfl
    | ChebyshevI => simp only [proto]; split <;> rfl
    | ChebyshevII => exfalso; rcases hk rfl with h | h <;> rcases hb with h' | h' <;> rw [h] at h' <;> cases h'
    | CauerElliptic => rfl
    | BesselThomson _ => rfl
  have hlen : wn.length ≤ 2 := by rw [hv.count]; cases bt <;> simp [want]
  have hcnt := hv.count
  have hpos := hv.pos
  have hinc := hv.inc
  have hnyq := hv.nyq
  have hfs := hv.noFs
  have hrp := hv.rp0
  have hrs := hv.rs0
  have hfam := hv.fam
  clear hv hlen
  -- one or two critical frequencies, on the unit scale
  have hW : (want bt = 1 ∧ ∃ x, wn = [x]) ∨ (want bt = 2 ∧ ∃ x y, wn = [x, y]) := by
    rcases wn with _ | ⟨x, _ | ⟨y, _ | ⟨z, wn⟩⟩⟩ <;> cases bt <;> simp [want] at hcnt ⊢
  rcases hW with ⟨hb, x, rfl⟩ | ⟨hb, x, y, rfl⟩
  · subst hbt; cases hb
  · have hx : ∃ u v, Wn [x, y] fs = [u, v] ∧ (∀ f, fs = some f → 2 * x / f = u ∧ 2 * y / f = v) ∧ (fs = none → x = u ∧ y = v) := by
      cases fs with
      | none => exact ⟨x, y, rfl, by simp, fun _ => ⟨rfl, rfl⟩⟩
      | some f => exact ⟨2 * x / f, 2 * y / f, rfl, by simp, by simp⟩
    obtain ⟨u, v, hu, hu1, hu2⟩ := hx
    have eu : edge [x, y] fs an 0 = warp an u := by simp [edge, hu]
    have ev : edge [x, y] fs an 1 = warp an v := by simp [edge, hu]
    rw [hu] at hpos hinc hnyq
    rw [eu, ev] at hs ⊢
    have u0 : 0 < u := hpos u (by simp)
    have v0 : 0 < v := hpos v (by simp)
    have uv : u < v := by simpa using hinc
    have v1 : an = false → v < 1 := fun h => hnyq h v (by simp)
    have u1 : an = false → u < 1 := fun h => hnyq h u (by simp)
    have h0 := warp_pos an u u0 u1
    have h1 := warp_mono an u v u0.le uv v1
    obtain ⟨w0, hw⟩ : ∃ w, warp an u = w := ⟨_, rfl⟩
    obtain ⟨w1, hw1⟩ : ∃ w, warp an v = w := ⟨_, rfl⟩
    rw [hw] at h0
    rw [hw, hw1] at hs h1 ⊢
    clear eu ev hpos hinc hnyq hu
    subst hbt
    cases fs <;> cases an <;> (try cases hb) <;> (try (cases hfs rfl))
    all_goals simp only [forall_const, Option.some.injEq, forall_eq', reduceCtorEq, IsEmpty.forall_iff, Bool.false_eq_true] at hu1 hu2 u1 v1
    all_goals first | (obtain ⟨hu1, hu1'⟩ := hu1; subst hu1 hu1') | (obtain ⟨hu2, hu2'⟩ := hu2; subst hu2 hu2')
    all_goals clear hk hcnt hfs
    all_goals have f1 := u0
    all_goals have f2 := And.intro u1 v1
    all_goals have f3 := v0
    all_goals have f4 := uv
    all_goals try dsimp only
    all_goals iir_walk
    all_goals first | iir_out | (simp; done)

set_option maxHeartbeats 4000000 in
theorem iirfilter_bandstop (n : ℕ) (wn : List ℝ) (rp rs : Option ℝ) (bt : Option FilterBandType) (ft : Option FilterType) (an : Option Bool)
    (out : Option FilterOutputType) (fs : Option ℝ)
    (hbt : bt.getD FilterBandType.Bandpass = FilterBandType.Bandstop)
    (hv : Valid wn rp rs (bt.getD FilterBandType.Bandpass) (ft.getD FilterType.Butterworth) (an.getD false) fs)
    (hr : ripple rp rs (ft.getD FilterType.Butterworth)) (hn : n < 2 ^ 62)
    (hk : ft.getD FilterType.Butterworth = FilterType.ChebyshevII → bt.getD FilterBandType.Bandpass = FilterBandType.Lowpass ∨ bt.getD FilterBandType.Bandpass = FilterBandType.Bandpass)
    (hs : SosOk (proto n rp rs (ft.getD FilterType.Butterworth)) (edge wn fs (an.getD false) 0) (edge wn fs (an.getD false) 1) (bt.getD FilterBandType.Bandpass) (an.getD false) (out.getD FilterOutputType.Ba)) :
    wp (iirfilter_dyn n wn rp rs bt ft an out fs) (fun r => ∃ g,
      Designed (proto n rp rs (ft.getD FilterType.Butterworth)) (edge wn fs (an.getD false) 0) (edge wn fs (an.getD false) 1) (bt.getD FilterBandType.Bandpass) (an.getD false) g ∧
      Out n (an.getD false) g r (out.getD FilterOutputType.Ba)) := by
  unfold iirfilter_dyn
  rs_inl
  generalize bt.getD FilterBandType.Bandpass = bt at *
  generalize ft.getD FilterType.Butterworth = ft at *
  generalize an.getD false = an at *
  generalize out.getD FilterOutputType.Ba = out at *
  have hP := proto_ok n rp rs ft hv.fam hr
  have hn4 : n < 2 ^ 64 := by omega
  -- the prototype's zeros
  have hz : bt = FilterBandType.Highpass ∨ bt = FilterBandType.Bandstop → (proto n rp rs ft).z = [] := by
    intro hb
    cases ft with
    | Butterworth => rfl
    | ChebyshevI => simp only [proto]; split <;> rfl
    | ChebyshevII => exfalso; rcases hk rfl with h | h <;> rcases hb with h' | h' <;> rw [h] at h' <;> cases h'
    | CauerElliptic => rfl
    | BesselThomson _ => rfl
  have hlen : wn.length ≤ 2 := by rw [hv.count]; cases bt <;> simp [want]
  have hcnt := hv.count
  have hpos := hv.pos
  have hinc := hv.inc
  have hnyq := hv.nyq
  have hfs := hv.noFs
  have hrp := hv.rp0
  have hrs := hv.rs0
  have hfam := hv.fam
  clear hv hlen
  -- one or two critical frequencies, on the unit scale
  have hW : (want bt = 1 ∧ ∃ x, wn = [x]) ∨ (want bt = 2 ∧ ∃ x y, wn = [x, y]) := by
    rcases wn with _ | ⟨x, _ | ⟨y, _ | ⟨z, wn⟩⟩⟩ <;> cases bt <;> simp [want] at hcnt ⊢
  rcases hW with ⟨hb, x, rfl⟩ | ⟨hb, x, y, rfl⟩
  · subst hbt; cases hb
  · have hx : ∃ u v, Wn [x, y] fs = [u, v] ∧ (∀ f, fs = some f → 2 * x / f = u ∧ 2 * y / f = v) ∧ (fs = none → x = u ∧ y = v) := by
      cases fs with
      | none => exact ⟨x, y, rfl, by simp, fun _ => ⟨rfl, rfl⟩⟩
      | some f => exact ⟨2 * x / f, 2 * y / f, rfl, by simp, by simp⟩
    obtain ⟨u, v, hu, hu1, hu2⟩ := hx
    have eu : edge [x, y] fs an 0 = warp an u := by simp [edge, hu]
    have ev : edge [x, y] fs an 1 = warp an v := by simp [edge, hu]
    rw [hu] at hpos hinc hnyq
    rw [eu, ev] at hs ⊢
    have u0 : 0 < u := hpos u (by simp)
    have v0 : 0 < v := hpos v (by simp)
    have uv : u < v := by simpa using hinc
    have v1 : an = false → v < 1 := fun h => hnyq h v (by simp)
    have u1 : an = false → u < 1 := fun h => hnyq h u (by simp)
    have h0 := warp_pos an u u0 u1
    have h1 := warp_mono an u v u0.le uv v1
    obtain ⟨w0, hw⟩ : ∃ w, warp an u = w := ⟨_, rfl⟩
    obtain ⟨w1, hw1⟩ : ∃ w, warp an v = w := ⟨_, rfl⟩
    rw [hw] at h0
    rw [hw, hw1] at hs h1 ⊢
    clear eu ev hpos hinc hnyq hu
    subst hbt
    cases fs <;> cases an <;> (try cases hb) <;> (try (cases hfs rfl))
    all_goals simp only [forall_const, Option.some.injEq, forall_eq', reduceCtorEq, IsEmpty.forall_iff, Bool.false_eq_true] at hu1 hu2 u1 v1
    all_goals first | (obtain ⟨hu1, hu1'⟩ := hu1; subst hu1 hu1') | (obtain ⟨hu2, hu2'⟩ := hu2; subst hu2 hu2')
    all_goals clear hk hcnt hfs
    all_goals have f1 := u0
    all_goals have f2 := And.intro u1 v1
    all_goals have f3 := v0
    all_goals have f4 := uv
    all_goals try dsimp only
    all_goals iir_walk
    all_goals first | iir_out | (simp; done)

theorem iirfilter_contract (n : ℕ) (wn : List ℝ) (rp rs : Option ℝ) (bt : Option FilterBandType) (ft : Option FilterType) (an : Option Bool)
    (out : Option FilterOutputType) (fs : Option ℝ)
    (hv : Valid wn rp rs (bt.getD FilterBandType.Bandpass) (ft.getD FilterType.Butterworth) (an.getD false) fs)
    (hr : ripple rp rs (ft.getD FilterType.Butterworth)) (hn : n < 2 ^ 62)
    (hk : ft.getD FilterType.Butterworth = FilterType.ChebyshevII → bt.getD FilterBandType.Bandpass = FilterBandType.Lowpass ∨ bt.getD FilterBandType.Bandpass = FilterBandType.Bandpass)
    (hs : SosOk (proto n rp rs (ft.getD FilterType.Butterworth)) (edge wn fs (an.getD false) 0) (edge wn fs (an.getD false) 1) (bt.getD FilterBandType.Bandpass) (an.getD false) (out.getD FilterOutputType.Ba)) :
    wp (iirfilter_dyn n wn rp rs bt ft an out fs) (fun r => ∃ g,
      Designed (proto n rp rs (ft.getD FilterType.Butterworth)) (edge wn fs (an.getD false) 0) (edge wn fs (an.getD false) 1) (bt.getD FilterBandType.Bandpass) (an.getD false) g ∧
      Out n (an.getD false) g r (out.getD FilterOutputType.Ba)) := by
  rcases hb : bt.getD FilterBandType.Bandpass
  · rw [← hb]; exact iirfilter_lowpass n wn rp rs bt ft an out fs hb hv hr hn hk hs
  · rw [← hb]; exact iirfilter_highpass n wn rp rs bt ft an out fs hb hv hr hn hk hs
  · rw [← hb]; exact iirfilter_bandpass n wn rp rs bt ft an out fs hb hv hr hn hk hs
  · rw [← hb]; exact iirfilter_bandstop n wn rp rs bt ft an out fs hb hv hr hn hk hs

/-- the contract of a design call: invalid requests are rejected, valid ones give the design in the requested format.
Outside: zero ripple (the formulas divide by zero), Chebyshev II high-pass and band-stop (known finding),
sections of analog filters and of roots within rounding of the real axis. -/
def Design (n : ℕ) (wn : List ℝ) (rp rs : Option ℝ) (bt : FilterBandType) (ft : FilterType) (an : Bool) (out : FilterOutputType) (fs : Option ℝ) (o : Option (DigitalFilter ℝ)) : Prop :=
  (¬ Valid wn rp rs bt ft an fs → o = none) ∧
  (Valid wn rp rs bt ft an fs → ripple rp rs ft → n < 2 ^ 62 → (ft = FilterType.ChebyshevII → bt = FilterBandType.Lowpass ∨ bt = FilterBandType.Bandpass) →
    SosOk (proto n rp rs ft) (edge wn fs an 0) (edge wn fs an 1) bt an out →
    wp o (fun r => ∃ g, Designed (proto n rp rs ft) (edge wn fs an 0) (edge wn fs an 1) bt an g ∧ Out n an g r out))
theorem iirfilter_design (n : ℕ) (wn : List ℝ) (rp rs : Option ℝ) (bt : Option FilterBandType) (ft : Option FilterType) (an : Option Bool)
    (out : Option FilterOutputType) (fs : Option ℝ) :
    Design n wn rp rs (bt.getD FilterBandType.Bandpass) (ft.getD FilterType.Butterworth) (an.getD false) (out.getD FilterOutputType.Ba) fs (iirfilter_dyn n wn rp rs bt ft an out fs) :=
  ⟨iirfilter_rejects n wn rp rs bt ft an out fs, fun h1 h2 h3 h4 h5 => iirfilter_contract n wn rp rs bt ft an out fs h1 h2 h3 h4 h5⟩
theorem design_eq {n : ℕ} {wn : List ℝ} {rp rs : Option ℝ} {bt : Option FilterBandType} {ft : Option FilterType} {an : Option Bool}
    {out : Option FilterOutputType} {fs : Option ℝ} {bt' : FilterBandType} {ft' : FilterType} {an' : Bool} {out' : FilterOutputType} {o : Option (DigitalFilter ℝ)}
    (ho : o = iirfilter_dyn n wn rp rs bt ft an out fs) (h1 : bt.getD FilterBandType.Bandpass = bt') (h2 : ft.getD FilterType.Butterworth = ft') (h3 : an.getD false = an')
    (h4 : out.getD FilterOutputType.Ba = out') : Design n wn rp rs bt' ft' an' out' fs o := by
  subst ho h1 h2 h3 h4
  exact iirfilter_design _ _ _ _ _ _ _ _ _
set_option hygiene false in
macro "front" : tactic => `(tactic| (
  rs_inl
  cases bt <;> cases an <;> cases out <;> exact design_eq rfl rfl rfl rfl rfl))
theorem butter_design (n : ℕ) (wn : List ℝ) (bt : Option FilterBandType) (an : Option Bool) (out : Option FilterOutputType) (fs : Option ℝ) :
    Design n wn none none (bt.getD FilterBandType.Lowpass) FilterType.Butterworth (an.getD false) (out.getD FilterOutputType.Ba) fs (butter_dyn n wn bt an out fs) := by
  unfold butter_dyn
  front
theorem cheby1_design (n : ℕ) (rp : ℝ) (wn : List ℝ) (bt : Option FilterBandType) (an : Option Bool) (out : Option FilterOutputType) (fs : Option ℝ) :
    Design n wn (some rp) none (bt.getD FilterBandType.Lowpass) FilterType.ChebyshevI (an.getD false) (out.getD FilterOutputType.Ba) fs (cheby1_dyn n rp wn bt an out fs) := by
  unfold cheby1_dyn
  front
theorem cheby2_design (n : ℕ) (rs : ℝ) (wn : List ℝ) (bt : Option FilterBandType) (an : Option Bool) (out : Option FilterOutputType) (fs : Option ℝ) :
    Design n wn none (some rs) (bt.getD FilterBandType.Lowpass) FilterType.ChebyshevII (an.getD false) (out.getD FilterOutputType.Ba) fs (cheby2_dyn n rs wn bt an out fs) := by
  unfold cheby2_dyn
  front
end C18

/-
C08  Filtering a stream in pieces equals filtering it whole.
-/
import RsLemmas
import Gen.Sosfilt
import Contracts.C07
set_option linter.all false
open Classical Gen
namespace C08
variable {K : Type} [RsScalar K]
open C07

/-- the entry points, as functions from (piece, sections) to (outputs, sections) -/
inductive Entry where | dyn | st | item | fast
noncomputable def run (e : Entry) (y : List K) (s : List (Sos K)) : Option (List K × List (Sos K)) :=
  match e with
  | .dyn => sosfilt_dyn y s
  | .st => sosfilt_st y s
  | .item => (rsMapAccumM (fun s x => (sosfilt_item x s).map (fun r => (r.2, r.1))) s y).map (fun r => (r.2, r.1))
  | .fast => (sosfilt_fast32_st y s (List.replicate y.length 0)).map (fun r => (r.2, r.1))
theorem run_eq (e : Entry) (y : List K) (s : List (Sos K)) : run e y s = some (filt y s) := by
  cases e with
  | dyn => exact sosfilt_dyn_contract y s
  | st => exact sosfilt_st_contract y s
  | item =>
    simp only [run, sosfilt_item_contract, Option.map_some]
    rw [rsMapAccumM_some _ (fun s x => ((casc x s).2, (casc x s).1)) y s (fun _ _ _ => rfl)]
    rw [accum_filt (fun x => x) (fun _ r => r) _ (fun s x => rfl)]
    have := (filt_length y s).1
    simp [this, zipWith_snd]
  | fast => simp only [run]; rw [sosfilt_fast32_st_contract _ _ _ (by simp)]; rfl
/-- consecutive pieces, each through an entry point of its own, with the same sections -/
noncomputable def runs : List (Entry × List K) → List (Sos K) → Option (List K × List (Sos K))
  | [], s => some ([], s)
  | (e, y) :: t, s => run e y s >>= fun r => runs t r.2 >>= fun q => some (r.1 ++ q.1, q.2)
theorem runs_eq (p : List (Entry × List K)) (s : List (Sos K)) : runs p s = some (filt (p.map Prod.snd).flatten s) := by
  induction p generalizing s with
  | nil => rfl
  | cons a t ih =>
    obtain ⟨e, y⟩ := a
    simp only [runs, run_eq, ih, Option.bind_eq_bind, Option.bind_some, List.map_cons, List.flatten_cons, filt_append]
/-- **C08**: any way of cutting a signal into pieces, any mix of entry points: the concatenated outputs and
the final sections are those of filtering the whole signal at once by any entry point -/
theorem pieces_eq_whole (p : List (Entry × List K)) (s : List (Sos K)) (e : Entry) :
    runs p s = run e (p.map Prod.snd).flatten s := by rw [runs_eq, run_eq]
/-- two pieces, the allocating entry point, spelled out -/
theorem two_pieces (y1 y2 : List K) (s : List (Sos K)) :
    sosfilt_dyn (y1 ++ y2) s = (sosfilt_dyn y1 s >>= fun r => sosfilt_dyn y2 r.2 >>= fun q => some (r.1 ++ q.1, q.2)) := by
  simp only [sosfilt_dyn_contract, Option.bind_eq_bind, Option.bind_some, filt_append]
/-- the same for the integer-input fast path -/
theorem ifast_pieces (y1 y2 : List ℤ) (s : List (Sos K)) (z1 z2 z : List K) (h1 : z1.length = y1.length) (h2 : z2.length = y2.length)
    (h : z.length = (y1 ++ y2).length) :
    sosfilt_ifast32_st (y1 ++ y2) s z =
      (sosfilt_ifast32_st y1 s z1 >>= fun r => sosfilt_ifast32_st y2 r.1 z2 >>= fun q => some (q.1, r.2 ++ q.2)) := by
  rw [sosfilt_ifast32_st_contract _ _ _ h, sosfilt_ifast32_st_contract _ _ _ h1]
  simp only [Option.bind_eq_bind, Option.bind_some]
  rw [sosfilt_ifast32_st_contract _ _ _ h2]
  simp only [Option.bind_some, List.map_append, filt_append]
end C08

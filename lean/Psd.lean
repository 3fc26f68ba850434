import Mathlib.LinearAlgebra.Matrix.PosDef

/-! The one lemma the engine's `psd_cert` rule relies on: a matrix that equals a sum of
congruences  A_k S_k A_k'  of positive semidefinite matrices is symmetric positive semidefinite. -/

open Matrix

variable {n m : Type*} [Fintype n] [Fintype m]

theorem congruence_psd (A : Matrix n m ℝ) (S : Matrix m m ℝ) (h : S.PosSemidef) :
    (A * S * Aᵀ).PosSemidef := by
  simpa [conjTranspose_eq_transpose_of_trivial] using h.mul_mul_conjTranspose_same A

theorem sum_congruences_psd (l : List (Matrix n m ℝ × Matrix m m ℝ))
    (h : ∀ p ∈ l, p.2.PosSemidef) :
    ((l.map fun p : Matrix n m ℝ × Matrix m m ℝ => p.1 * p.2 * p.1ᵀ).sum : Matrix n n ℝ).PosSemidef := by
  induction l with
  | nil => simpa using PosSemidef.zero
  | cons p l ih =>
    simp only [List.map_cons, List.sum_cons]
    exact (congruence_psd _ _ (h p (by simp))).add (ih fun q hq => h q (by simp [hq]))

omit [Fintype n] in
theorem psd_symm (S : Matrix n n ℝ) (h : S.PosSemidef) : Sᵀ = S := by
  have := h.isHermitian
  simpa [IsHermitian, conjTranspose_eq_transpose_of_trivial] using this

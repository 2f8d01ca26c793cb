/-
Matrix facts used as assumptions of contracts (cut points) in pyvc/contracts; checked by Lean, see DESIGN.md.
-/
import Mathlib.LinearAlgebra.Matrix.PosDef
import Mathlib.Analysis.Matrix.Order
import Mathlib.Analysis.InnerProductSpace.PiL2

set_option linter.unusedSectionVars false

open Matrix

section
variable {n m : Type*} [Fintype n] [DecidableEq n] [Fintype m] [DecidableEq m]

/-- c_conf: the inverse of a Hermitian matrix is Hermitian -/
theorem inv_hermitian (A : Matrix n n ℂ) (h : A.IsHermitian) : A⁻¹.IsHermitian := h.inv

/-- c_conf: the inverse of a symmetric matrix is symmetric -/
theorem inv_symm (A : Matrix n n ℂ) (h : Aᵀ = A) : (A⁻¹)ᵀ = A⁻¹ := by
  rw [Matrix.transpose_nonsing_inv, h]

/-- c_conf: K M Kᵀ is symmetric when M is -/
theorem sandwich_symm {R : Type*} [CommRing R] (K : Matrix m n R) (M : Matrix n n R) (h : Mᵀ = M) : (K * M * Kᵀ)ᵀ = K * M * Kᵀ := by
  simp [Matrix.transpose_mul, h, Matrix.mul_assoc]

/-- c_conf: K M Kᵀ is positive semi-definite when M is -/
theorem sandwich_psd (K : Matrix m n ℝ) (M : Matrix n n ℝ) (h : M.PosSemidef) : (K * M * Kᵀ).PosSemidef := by
  have := h.mul_mul_conjTranspose_same K
  rwa [Matrix.conjTranspose_eq_transpose_of_trivial] at this

open scoped MatrixOrder ComplexOrder in
/-- nearestSPD: for a positive semi-definite B = U diag(S) V (singular value decomposition) the matrix
H = Vᵀ diag(S) V is B itself, so (B + H)/2 = B: a covariance passes through unchanged -/
theorem polar_psd (B U V : Matrix n n ℝ) (S : n → ℝ) (hB : B.PosSemidef) (hS : ∀ i, 0 ≤ S i)
    (hU : Uᵀ * U = 1) (hV : V * Vᵀ = 1) (svd : B = U * diagonal S * V) : Vᵀ * diagonal S * V = B := by
  have hH : (Vᵀ * diagonal S * V).PosSemidef := by
    have h0 : (diagonal S).PosSemidef := by
      rw [Matrix.posSemidef_diagonal_iff]; exact hS
    have := h0.conjTranspose_mul_mul_same V
    rwa [Matrix.conjTranspose_eq_transpose_of_trivial] at this
  have hBt : Bᵀ = B := by
    have := hB.isHermitian
    unfold Matrix.IsHermitian at this
    rwa [Matrix.conjTranspose_eq_transpose_of_trivial] at this
  have hsq : (Vᵀ * diagonal S * V) * (Vᵀ * diagonal S * V) = B * B := by
    have h1 : B * B = Bᵀ * B := by rw [hBt]
    rw [h1, svd]
    simp only [Matrix.transpose_mul, Matrix.diagonal_transpose]
    calc Vᵀ * diagonal S * V * (Vᵀ * diagonal S * V)
        = Vᵀ * diagonal S * (V * Vᵀ) * diagonal S * V := by simp only [Matrix.mul_assoc]
      _ = Vᵀ * diagonal S * diagonal S * V := by rw [hV]; simp [Matrix.mul_assoc]
      _ = Vᵀ * diagonal S * (Uᵀ * U) * diagonal S * V := by rw [hU]; simp [Matrix.mul_assoc]
      _ = Vᵀ * (diagonal S * Uᵀ) * (U * diagonal S * V) := by simp only [Matrix.mul_assoc]
  have e1 := CFC.sqrt_unique hsq hH.nonneg
  have e2 := CFC.sqrt_unique (rfl : B * B = B * B) hB.nonneg
  rw [← e1, e2]

end

section
/-- C14/C01: coefficients satisfying the normal equations minimise the sum of squares -/
theorem normal_equations_minimise {E F : Type*} [NormedAddCommGroup E] [InnerProductSpace ℂ E] [AddCommGroup F] [Module ℂ F]
    (A : F →ₗ[ℂ] E) (y : E) (x : F) (h : ∀ z, inner ℂ (A z) (y - A x) = 0) (z : F) : ‖y - A x‖ ≤ ‖y - A z‖ := by
  have e : y - A z = (y - A x) + A (x - z) := by rw [map_sub]; abel
  have o : inner ℂ (y - A x) (A (x - z)) = 0 := by
    rw [← inner_conj_symm, h]; simp
  have p := norm_add_sq_eq_norm_sq_add_norm_sq_of_inner_eq_zero (y - A x) (A (x - z)) o
  rw [← e] at p
  have : ‖y - A x‖ * ‖y - A x‖ ≤ ‖y - A z‖ * ‖y - A z‖ := by
    rw [p]; nlinarith [norm_nonneg (A (x - z))]
  exact (mul_self_le_mul_self_iff (norm_nonneg _) (norm_nonneg _)).mpr this

/-- C19: for a model of full rank the least-squares coefficients are unique, so they are a linear function of the data -/
theorem normal_equations_unique {E F : Type*} [NormedAddCommGroup E] [InnerProductSpace ℂ E] [AddCommGroup F] [Module ℂ F]
    (A : F →ₗ[ℂ] E) (inj : Function.Injective A) (y : E) (x x' : F)
    (h : ∀ z, inner ℂ (A z) (y - A x) = 0) (h' : ∀ z, inner ℂ (A z) (y - A x') = 0) : x = x' := by
  apply inj
  have e : A x - A x' = (y - A x') - (y - A x) := by abel
  have : inner ℂ (A (x - x')) (A (x - x')) = 0 := by
    conv_lhs => rw [map_sub]
    rw [show inner ℂ (A x - A x') (A x - A x') = inner ℂ (A (x - x')) ((y - A x') - (y - A x)) by rw [map_sub, e]]
    rw [inner_sub_right, h, h', sub_zero]
  have z := inner_self_eq_zero.mp this
  rw [map_sub] at z
  exact sub_eq_zero.mp z

/-- C19: multiplying the data multiplies the coefficients -/
theorem ls_scale {E F : Type*} [NormedAddCommGroup E] [InnerProductSpace ℂ E] [AddCommGroup F] [Module ℂ F]
    (A : F →ₗ[ℂ] E) (inj : Function.Injective A) (y : E) (c : ℂ) (x x' : F)
    (h : ∀ z, inner ℂ (A z) (y - A x) = 0) (h' : ∀ z, inner ℂ (A z) (c • y - A x') = 0) : x' = c • x := by
  refine normal_equations_unique A inj (c • y) x' (c • x) h' (fun z => ?_)
  rw [map_smul, ← smul_sub, inner_smul_right, h, mul_zero]

/-- C19: adding a multiple of the model to the data adds it to the coefficients -/
theorem ls_shift {E F : Type*} [NormedAddCommGroup E] [InnerProductSpace ℂ E] [AddCommGroup F] [Module ℂ F]
    (A : F →ₗ[ℂ] E) (inj : Function.Injective A) (y : E) (d x x' : F)
    (h : ∀ z, inner ℂ (A z) (y - A x) = 0) (h' : ∀ z, inner ℂ (A z) (y + A d - A x') = 0) : x' = x + d := by
  refine normal_equations_unique A inj (y + A d) x' (x + d) h' (fun z => ?_)
  rw [map_add, show y + A d - (A x + A d) = y - A x by abel, h]

/-- C19: the coefficients of a sum of data are the sums of the coefficients -/
theorem ls_add {E F : Type*} [NormedAddCommGroup E] [InnerProductSpace ℂ E] [AddCommGroup F] [Module ℂ F]
    (A : F →ₗ[ℂ] E) (inj : Function.Injective A) (y y' : E) (x x' z : F)
    (h : ∀ w, inner ℂ (A w) (y - A x) = 0) (h' : ∀ w, inner ℂ (A w) (y' - A x') = 0)
    (hz : ∀ w, inner ℂ (A w) (y + y' - A z) = 0) : z = x + x' := by
  refine normal_equations_unique A inj (y + y') z (x + x') hz (fun w => ?_)
  rw [map_add, show y + y' - (A x + A x') = (y - A x) + (y' - A x') by abel, inner_add_right, h, h', add_zero]

/-- C19: real data and a model closed under conjugation (tau permutes the coefficients and conjugates them, sigma conjugates
the samples) have coefficients that are conjugates of each other in the same way -/
theorem ls_conj {E F : Type*} [NormedAddCommGroup E] [InnerProductSpace ℂ E] [AddCommGroup F] [Module ℂ F]
    (A : F →ₗ[ℂ] E) (inj : Function.Injective A) (sigma : E → E) (tau : F → F)
    (hs : ∀ a b, inner ℂ (sigma a) (sigma b) = (starRingEnd ℂ) (inner ℂ a b)) (hsub : ∀ a b, sigma (a - b) = sigma a - sigma b)
    (ht : Function.Surjective tau) (hA : ∀ z, A (tau z) = sigma (A z)) (y : E) (hy : sigma y = y) (x : F)
    (h : ∀ z, inner ℂ (A z) (y - A x) = 0) : tau x = x := by
  refine normal_equations_unique A inj y (tau x) x (fun w => ?_) h
  obtain ⟨z, rfl⟩ := ht w
  rw [hA, hA]
  conv_lhs => rw [← hy, ← hsub, hs, h]
  simp
end

#print axioms inv_hermitian
#print axioms inv_symm
#print axioms sandwich_symm
#print axioms sandwich_psd
#print axioms polar_psd
#print axioms normal_equations_minimise
#print axioms normal_equations_unique
#print axioms ls_scale
#print axioms ls_shift
#print axioms ls_add
#print axioms ls_conj

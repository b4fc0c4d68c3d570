/-
Lemma behind property C05: the terms stated by the contract of `commutate` (drivers/C05.cpp,
function `expansion`) sum to the commutator.

`x 0 … x (n-1)` and `y 0 … y (m-1)` are the operators of the two terms, elements of any ring in
which the anticommutator of each `x k` with each `y l` is a central element `d k l` (for ladder
operators: zero, or the product of Kronecker deltas of property C04).  Prefactors commute with
everything and are left out.
-/
import Mathlib.Algebra.BigOperators.Ring.Finset
import Mathlib.Algebra.BigOperators.Intervals
import Mathlib.Algebra.Ring.Parity
import Mathlib.Tactic.NoncommRing
import Mathlib.Tactic.Ring

open Finset

variable {R : Type*} [Ring R]

/-- `f a * f (a+1) * ⋯ * f (b-1)` -/
def P (f : ℕ → R) (a b : ℕ) : R := ((List.range' a (b - a)).map f).prod

theorem P_self (f : ℕ → R) (a : ℕ) : P f a a = 1 := by simp [P]

theorem P_succ (f : ℕ → R) {a b : ℕ} (h : a ≤ b) : P f a (b + 1) = P f a b * f b := by
  have e : b + 1 - a = (b - a) + 1 := by omega
  have e' : a + (b - a) = b := by omega
  simp [P, e, List.range'_concat, e']

/-- moving one operator through a product -/
theorem move (x : R) (y d : ℕ → R) (hd : ∀ l r, d l * r = r * d l)
    (hxy : ∀ l, x * y l + y l * x = d l) (m : ℕ) :
    x * P y 0 m = (∑ l ∈ range m, (-1) ^ l * d l * (P y 0 l * P y (l + 1) m))
      + (-1) ^ m * P y 0 m * x := by
  induction m with
  | zero => simp [P_self]
  | succ m ih =>
    have hs : ∀ l ∈ range m, (-1 : R) ^ l * d l * (P y 0 l * P y (l + 1) (m + 1))
        = ((-1) ^ l * d l * (P y 0 l * P y (l + 1) m)) * y m := by
      intro l hl
      have : l + 1 ≤ m := by have := mem_range.mp hl; omega
      rw [P_succ y this]; noncomm_ring
    have hx : x * y m = d m - y m * x := by rw [← hxy m]; noncomm_ring
    rw [P_succ y (Nat.zero_le m), ← mul_assoc, ih, sum_range_succ, sum_congr rfl hs, ← sum_mul,
      P_self, add_mul]
    have : (-1 : R) ^ m * P y 0 m * x * y m = (-1) ^ m * d m * (P y 0 m * 1)
        + (-1) ^ (m + 1) * (P y 0 m * y m) * x := by
      rw [mul_assoc _ x, hx, mul_sub, mul_assoc ((-1 : R) ^ m) (P y 0 m) (d m), ← hd m (P y 0 m), pow_succ]
      noncomm_ring
    rw [this]; noncomm_ring

/-- the commutator expansion, up to the sign `(-1)^(n*m)` of exchanging both products -/
theorem expansion (x y : ℕ → R) (d : ℕ → ℕ → R) (hd : ∀ k l r, d k l * r = r * d k l)
    (hxy : ∀ k l, x k * y l + y l * x k = d k l) (n m : ℕ) :
    P x 0 n * P y 0 m = (∑ k ∈ range n, ∑ l ∈ range m, (-1) ^ (m * (n - 1 - k) + l) * d k l *
        (P x 0 k * P y 0 l * P y (l + 1) m * P x (k + 1) n))
      + (-1) ^ (n * m) * (P y 0 m * P x 0 n) := by
  induction n with
  | zero => simp [P_self]
  | succ n ih =>
    have c : ∀ (e : ℕ) (a b : R), a * ((-1) ^ e * b) = (-1) ^ e * (a * b) := by
      intro e a b
      have := (Commute.neg_one_left a).pow_left e
      rw [← mul_assoc, ← this.eq, mul_assoc]
    rw [P_succ x (Nat.zero_le n), mul_assoc, move (x n) y (d n) (hd n) (hxy n) m, mul_add, mul_sum,
      sum_range_succ]
    have h1 : ∀ l ∈ range m, P x 0 n * ((-1) ^ l * d n l * (P y 0 l * P y (l + 1) m))
        = (-1) ^ (m * (n + 1 - 1 - n) + l) * d n l * (P x 0 n * P y 0 l * P y (l + 1) m * P x (n + 1) (n + 1)) := by
      intro l _
      rw [P_self, mul_assoc ((-1 : R) ^ l), c]
      have e : m * (n + 1 - 1 - n) + l = l := by simp
      rw [e, ← mul_assoc (P x 0 n), ← hd n l (P x 0 n)]
      noncomm_ring
    have h2 : P x 0 n * ((-1) ^ m * P y 0 m * x n) = (-1) ^ m * (P x 0 n * P y 0 m) * x n := by
      rw [mul_assoc ((-1 : R) ^ m), c]; noncomm_ring
    have h3 : ∀ k ∈ range n, (∑ l ∈ range m, (-1 : R) ^ (m * (n + 1 - 1 - k) + l) * d k l *
        (P x 0 k * P y 0 l * P y (l + 1) m * P x (k + 1) (n + 1)))
        = (-1) ^ m * (∑ l ∈ range m, (-1) ^ (m * (n - 1 - k) + l) * d k l *
        (P x 0 k * P y 0 l * P y (l + 1) m * P x (k + 1) n)) * x n := by
      intro k hk
      have hk' : k + 1 ≤ n := by have := mem_range.mp hk; omega
      rw [mul_sum, sum_mul]
      refine sum_congr rfl fun l _ => ?_
      have e : m * (n + 1 - 1 - k) + l = m + (m * (n - 1 - k) + l) := by
        have : n + 1 - 1 - k = (n - 1 - k) + 1 := by omega
        rw [this]; ring
      rw [P_succ x hk', e, pow_add (-1 : R) m]
      noncomm_ring
    rw [sum_congr rfl h1, h2, ih, sum_congr rfl h3, mul_add, add_mul, mul_sum, sum_mul]
    have e : (-1 : R) ^ m * ((-1) ^ (n * m) * (P y 0 m * P x 0 n)) * x n
        = (-1) ^ ((n + 1) * m) * (P y 0 m * (P x 0 n * x n)) := by
      have : (n + 1) * m = m + n * m := by ring
      rw [this, pow_add]; noncomm_ring
    rw [e]; abel

/-- C05: for n * m even the terms sum to the commutator -/
theorem commutator (x y : ℕ → R) (d : ℕ → ℕ → R) (hd : ∀ k l r, d k l * r = r * d k l)
    (hxy : ∀ k l, x k * y l + y l * x k = d k l) (n m : ℕ) (h : n * m % 2 = 0) :
    (∑ k ∈ range n, ∑ l ∈ range m, (-1) ^ (m * (n - 1 - k) + l) * d k l *
        (P x 0 k * P y 0 l * P y (l + 1) m * P x (k + 1) n))
      = P x 0 n * P y 0 m - P y 0 m * P x 0 n := by
  rw [expansion x y d hd hxy n m, (Nat.even_iff.mpr h).neg_one_pow]
  noncomm_ring

#print axioms commutator

/- The facts about rearrangements that optvc/solve.py (perm_axioms) instantiates.
   PERM a c: the integer-indexed records c are those of a in another order, some bijection
   of the indices that moves finitely many of them.  Checked by `lean lemmas/perm.lean`. -/
import Mathlib

def PERM {R : Type*} (a c : ℤ → R) : Prop :=
  ∃ p : Equiv.Perm ℤ, {i | p i ≠ i}.Finite ∧ ∀ i, c i = a (p i)

theorem perm_refl {R : Type*} (a : ℤ → R) : PERM a a :=
  ⟨1, by simp, by simp⟩

theorem perm_trans {R : Type*} {a b c : ℤ → R} (h : PERM a b) (k : PERM b c) : PERM a c := by
  obtain ⟨p, hp, h⟩ := h
  obtain ⟨q, hq, k⟩ := k
  refine ⟨p * q, (hp.union hq).subset ?_, fun i => by simp [k, h]⟩
  intro i hi
  by_contra hn
  simp only [Set.mem_union, Set.mem_ofPred_eq, not_or, not_not] at hn
  exact hi (by simp [hn.2, hn.1])

theorem perm_swap {R : Type*} (b : ℤ → R) (i j : ℤ) :
    PERM b (Function.update (Function.update b i (b j)) j (b i)) := by
  refine ⟨Equiv.swap i j, Set.Finite.subset (Set.toFinite {i, j}) ?_, ?_⟩
  · intro k hk
    by_contra hn
    simp only [Set.mem_insert_iff, Set.mem_singleton_iff, not_or] at hn
    exact hk (Equiv.swap_apply_of_ne_of_ne hn.1 hn.2)
  · intro k
    by_cases hj : k = j
    · subst hj; simp
    · by_cases hi : k = i
      · subst hi; simp [Function.update, hj]
      · simp [Function.update, hj, hi, Equiv.swap_apply_of_ne_of_ne hi hj]

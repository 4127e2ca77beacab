import Mathlib.Tactic
import Mathlib.Data.Nat.Choose.Basic

/-! Triangular probing visits every slot once per sweep, for every table size.
`H_probe_step` (harness/prim.cpp) proves, of the real `probe_seq`, the hypotheses
`h0` and `hs` (W = group width, N = capacity + 1). -/

def tri (i : Nat) : Nat := i * (i + 1) / 2

theorem two_tri (i : Nat) : 2 * tri i = i * (i + 1) :=
  Nat.mul_div_cancel' (Nat.even_mul_succ_self i).two_dvd

theorem tri_inj (k i j : Nat) (hi : i < 2 ^ k) (hj : j < 2 ^ k)
    (h : tri i % 2 ^ k = tri j % 2 ^ k) : i = j := by
  wlog hij : i ≤ j generalizing i j
  · exact (this j i hj hi h.symm (by omega)).symm
  obtain ⟨d, rfl⟩ := Nat.exists_eq_add_of_le hij
  have h1 : (2 ^ k : Nat) ∣ tri (i + d) - tri i := (Nat.modEq_iff_dvd' (by
    unfold tri; exact Nat.div_le_div_right (Nat.mul_le_mul (by omega) (by omega)))).1 h
  have h2 : 2 * (tri (i + d) - tri i) = d * (2 * i + d + 1) := by
    have a := two_tri (i + d); have b := two_tri i
    have c : (i + d) * (i + d + 1) = i * (i + 1) + d * (2 * i + d + 1) := by ring
    rw [Nat.mul_sub, a, b, c]; omega
  have h3 : (2 ^ (k + 1) : Nat) ∣ d * (2 * i + d + 1) := by
    rw [← h2, pow_succ, mul_comm]; exact Nat.mul_dvd_mul_left 2 h1
  rcases Nat.even_or_odd d with he | ho
  · have hc : Nat.Coprime (2 ^ (k + 1)) (2 * i + d + 1) := by
      apply Nat.Coprime.pow_left
      rw [Nat.coprime_two_left]
      obtain ⟨e, rfl⟩ := he
      exact ⟨i + e, by ring⟩
    have := hc.dvd_of_dvd_mul_right h3
    have hd : d = 0 := by
      by_contra h0
      have := Nat.le_of_dvd (Nat.pos_of_ne_zero h0) this
      have : 2 ^ (k + 1) = 2 * 2 ^ k := by ring
      omega
    omega
  · have hc : Nat.Coprime (2 ^ (k + 1)) d := by
      apply Nat.Coprime.pow_left
      rw [Nat.coprime_two_left]; exact ho
    have := hc.dvd_of_dvd_mul_left h3
    have := Nat.le_of_dvd (by omega) this
    have : 2 ^ (k + 1) = 2 * 2 ^ k := by ring
    omega

theorem tri_surj (k t : Nat) (ht : t < 2 ^ k) : ∃ i, i < 2 ^ k ∧ tri i % 2 ^ k = t := by
  have inj : Function.Injective (fun i : Fin (2 ^ k) => (⟨tri i % 2 ^ k, Nat.mod_lt _ (by positivity)⟩ : Fin (2 ^ k))) := by
    intro a b h
    exact Fin.ext (tri_inj k a b a.2 b.2 (by simpa using h))
  obtain ⟨i, hi⟩ := (Finite.injective_iff_surjective.1 inj) ⟨t, ht⟩
  exact ⟨i, i.2, by simpa using congrArg Fin.val hi⟩

theorem tri_succ (i : Nat) : tri (i + 1) = tri i + (i + 1) := by
  have a := two_tri (i + 1); have b := two_tri i
  have : (i + 1) * (i + 1 + 1) = i * (i + 1) + 2 * (i + 1) := by ring
  omega

/-- Every slot `s` of a table of `N = W * 2^k` slots lies in one of the first `2^k` groups probed. -/
theorem probe_covers (W k h : Nat) (hW : 0 < W) (f : Nat → Nat)
    (h0 : f 0 = h % (W * 2 ^ k))
    (hs : ∀ i, f (i + 1) = (f i + W * (i + 1)) % (W * 2 ^ k))
    (s : Nat) (hsN : s < W * 2 ^ k) :
    ∃ i, i < 2 ^ k ∧ ∃ j, j < W ∧ (f i + j) % (W * 2 ^ k) = s := by
  set N := W * 2 ^ k with hN
  have closed : ∀ i, f i % N = (h + W * tri i) % N ∧ f i < N := by
    have hNp : 0 < N := by positivity
    intro i
    induction i with
    | zero => rw [h0]; exact ⟨by simp [tri], Nat.mod_lt _ hNp⟩
    | succ i ih =>
      refine ⟨?_, by rw [hs]; exact Nat.mod_lt _ hNp⟩
      rw [hs, Nat.mod_mod, tri_succ, Nat.add_mod, ih.1, ← Nat.add_mod]
      congr 1; ring
  -- distance of s from the start, in groups
  let d := (s + N - h % N) % N
  have hNp : 0 < N := by positivity
  have hd : d < N := Nat.mod_lt _ hNp
  have hq : d / W < 2 ^ k := Nat.div_lt_of_lt_mul (by rw [← hN]; exact hd)
  obtain ⟨i, hi, ht⟩ := tri_surj k (d / W) hq
  refine ⟨i, hi, d % W, Nat.mod_lt _ hW, ?_⟩
  have e1 : W * tri i % N = W * (d / W) := by
    rw [hN, Nat.mul_mod_mul_left, ht]
  have e2 : W * (d / W) + d % W = d := Nat.div_add_mod d W
  have hh : h % N < N := Nat.mod_lt _ hNp
  have : (f i + d % W) % N = (h + (W * tri i + d % W)) % N := by
    rw [Nat.add_mod, (closed i).1, ← Nat.add_mod]; congr 1; ring
  rw [this]
  have e3 : (W * tri i + d % W) % N = d := by
    rw [Nat.add_mod, e1, Nat.mod_eq_of_lt (a := d % W) (lt_of_le_of_lt (Nat.mod_le _ _) hd), e2, Nat.mod_eq_of_lt hd]
  rw [Nat.add_mod, e3]
  show (h % N + (s + N - h % N) % N) % N = s
  rw [Nat.add_mod_mod]
  have : h % N + (s + N - h % N) = s + N := by omega
  rw [this, Nat.add_mod_right, Nat.mod_eq_of_lt hsN]

#print axioms probe_covers

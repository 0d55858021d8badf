import Mathlib.FieldTheory.Finite.Basic
import Mathlib.RingTheory.IntegralDomain
import Mathlib.GroupTheory.OrderOfElement
import Mathlib.RingTheory.RootsOfUnity.Complex
import Mathlib.Data.Nat.Prime.Basic

/-! Lemmas used by vf (numth.py, conv.py). Each is stated over the naturals exactly as the verifier uses it. -/
namespace VF

/-- every prime factor of n is at least d -/
def Rough (d n : ℕ) : Prop := ∀ q, q.Prime → q ∣ n → d ≤ q

theorem rough_odd {n : ℕ} (h : n % 2 = 1) : Rough 3 n := by
  intro q hq hd
  have h2 := hq.two_le
  rcases Nat.lt_or_ge q 3 with h3 | h3
  · have : q = 2 := by omega
    subst this; omega
  · exact h3

theorem rough_one (d : ℕ) : Rough d 1 := by
  intro q hq hd; exact absurd (Nat.dvd_one.mp hd) hq.one_lt.ne'

theorem rough_step {d n : ℕ} (h : Rough d n) (hn : n % 2 = 1) (hd : d % 2 = 1) (hnd : n % d ≠ 0) : Rough (d + 2) n := by
  intro q hq hqn
  have h1 := h q hq hqn
  have hne : q ≠ d := by
    rintro rfl; exact hnd (Nat.mod_eq_zero_of_dvd hqn)
  have hodd : q % 2 = 1 := by
    rcases hq.eq_two_or_odd with h2 | h2
    · subst h2; omega
    · exact h2
  omega

/-- a general step: d does not divide n -/
theorem rough_next {d n : ℕ} (h : Rough d n) (hnd : n % d ≠ 0) : Rough (d + 1) n := by
  intro q hq hqn
  have h1 := h q hq hqn
  have hne : q ≠ d := by
    rintro rfl; exact hnd (Nat.mod_eq_zero_of_dvd hqn)
  omega

theorem rough_quo {d n e : ℕ} (h : Rough d n) (he : n % e = 0) : Rough d (n / e) := by
  intro q hq hqn
  exact h q hq (hqn.trans (Nat.div_dvd_of_dvd (Nat.dvd_of_mod_eq_zero he)))

theorem odd_quo {n e : ℕ} (h : n % 2 = 1) (he : n % e = 0) (he0 : 0 < e) : (n / e) % 2 = 1 := by
  obtain ⟨m, rfl⟩ := Nat.dvd_of_mod_eq_zero he
  rw [Nat.mul_div_cancel_left m he0]
  exact Nat.odd_iff.mp (Nat.Odd.of_mul_right (Nat.odd_iff.mpr h))

/-- n shifted right by its number of trailing zeros k -/
theorem odd_part {n k q N : ℕ} (hn : 0 < n) (hk : n % 2 ^ k = 0) (ho : (n / 2 ^ k) % 2 = 1) (hq : q.Prime) :
    1 ≤ n / 2 ^ k ∧ n / 2 ^ k ≤ n ∧ (N % n = 0 → N % (n / 2 ^ k) = 0) ∧ (n % q = 0 → q = 2 ∨ (n / 2 ^ k) % q = 0) ∧ (n % 2 = 1 → n / 2 ^ k = n) := by
  obtain ⟨m, rfl⟩ := Nat.dvd_of_mod_eq_zero hk
  have hp : 0 < 2 ^ k := by positivity
  rw [Nat.mul_div_cancel_left m hp] at ho ⊢
  refine ⟨by omega, Nat.le_mul_of_pos_left m hp, ?_, ?_, ?_⟩
  · intro h; exact Nat.mod_eq_zero_of_dvd ((Nat.dvd_mul_left m _).trans (Nat.dvd_of_mod_eq_zero h))
  · intro h
    rcases (Nat.Prime.dvd_mul hq).mp (Nat.dvd_of_mod_eq_zero h) with h | h
    · left; exact (Nat.prime_dvd_prime_iff_eq hq Nat.prime_two).mp (hq.dvd_of_dvd_pow h)
    · right; exact Nat.mod_eq_zero_of_dvd h
  · intro h
    cases k with
    | zero => simp
    | succ j => rw [pow_succ, mul_assoc, mul_comm 2 m, ← mul_assoc] at h; omega

theorem rough_le {d e n : ℕ} (h : Rough d n) (he : e ≤ d) : Rough e n := fun q hq hqn => he.trans (h q hq hqn)

/-- what is left after the trial divisions is prime -/
theorem rough_prime {d l n : ℕ} (h : Rough d n) (hl : l ≤ d) (hn : n < l * l) (h1 : 1 < n) : n.Prime := by
  by_contra hp
  have hle := Nat.minFac_sq_le_self (by omega) hp
  have hd := h n.minFac (Nat.minFac_prime (by omega)) (Nat.minFac_dvd n)
  have : l * l ≤ n.minFac ^ 2 := by rw [pow_two]; exact Nat.mul_le_mul (hl.trans hd) (hl.trans hd)
  omega

/-- a prime factor of n is e itself or stays in n / e, when every prime factor of n is at least e -/
theorem factor_split {q e n : ℕ} (hq : q.Prime) (h : Rough e n) (he2 : 2 ≤ e) (he : n % e = 0) (hqn : n % q = 0) (hn : 1 ≤ n) :
    q = e ∨ (n / e) % q = 0 := by
  have hqn' := Nat.dvd_of_mod_eq_zero hqn
  obtain ⟨m, rfl⟩ := Nat.dvd_of_mod_eq_zero he
  rw [Nat.mul_div_cancel_left m (by omega)]
  rcases (hq.dvd_mul).mp hqn' with h1 | h1
  · left
    have := h q hq hqn'
    exact le_antisymm (Nat.le_of_dvd (by omega) h1) this
  · right; exact Nat.mod_eq_zero_of_dvd h1

theorem rough_two (n : ℕ) : Rough 2 n := fun _ hq _ => hq.two_le

theorem factor_prime {q n : ℕ} (hq : q.Prime) (hn : n.Prime) (h : n % q = 0) : q = n :=
  (Nat.prime_dvd_prime_iff_eq hq hn).mp (Nat.dvd_of_mod_eq_zero h)

theorem factor_one {q : ℕ} (hq : q.Prime) : 1 % q ≠ 0 := by
  rw [Nat.mod_eq_of_lt hq.one_lt]; omega

theorem dvd_trans' {n e N : ℕ} (h : N % n = 0) (he : n % e = 0) : N % e = 0 ∧ N % (n / e) = 0 :=
  ⟨Nat.mod_eq_zero_of_dvd ((Nat.dvd_of_mod_eq_zero he).trans (Nat.dvd_of_mod_eq_zero h)),
   Nat.mod_eq_zero_of_dvd ((Nat.div_dvd_of_dvd (Nat.dvd_of_mod_eq_zero he)).trans (Nat.dvd_of_mod_eq_zero h))⟩

/-- exponentiation by squaring: r * b^e = b0^e0 (mod m) -/
def MP (b0 e0 m r b e : ℕ) : Prop := (r * b ^ e) % m = b0 ^ e0 % m

theorem mp_start (b0 e0 m : ℕ) : MP b0 e0 m 1 b0 e0 := by simp [MP]
theorem mp_even {b0 e0 m r b e : ℕ} (h : MP b0 e0 m r b e) (he : e % 2 = 0) : MP b0 e0 m r ((b * b) % m) (e / 2) := by
  unfold MP at *
  rw [← h]
  have : b ^ e = (b * b) ^ (e / 2) := by rw [← pow_two, ← pow_mul]; congr 1; omega
  rw [this, Nat.mul_mod, Nat.pow_mod, Nat.mod_mod, ← Nat.pow_mod, ← Nat.mul_mod]
theorem mp_odd {b0 e0 m r b e : ℕ} (h : MP b0 e0 m r b e) (he : e % 2 = 1) : MP b0 e0 m ((r * b) % m) ((b * b) % m) (e / 2) := by
  unfold MP at *
  rw [← h]
  have : r * b ^ e = (r * b) * (b * b) ^ (e / 2) := by
    rw [mul_assoc, ← pow_two, ← pow_mul, ← pow_succ']; congr 2; omega
  rw [this, Nat.mul_mod, Nat.mod_mod, Nat.pow_mod, Nat.mod_mod, ← Nat.pow_mod, ← Nat.mul_mod]
theorem mp_end {b0 e0 m r b : ℕ} (h : MP b0 e0 m r b 0) (hr : r < m) : r = b0 ^ e0 % m := by
  unfold MP at h; rw [pow_zero, mul_one, Nat.mod_eq_of_lt hr] at h; exact h

section generator
variable {p : ℕ}

theorem cast_pow_eq_one (hp : p.Prime) (r e : ℕ) : ((r : ZMod p) ^ e = 1) ↔ r ^ e % p = 1 := by
  have h1 : (1 : ℕ) % p = 1 := Nat.mod_eq_of_lt hp.one_lt
  rw [← Nat.cast_one, ← Nat.cast_pow, ZMod.natCast_eq_natCast_iff, Nat.ModEq, h1]

/-- the test of primitive_root: orders not dividing any (p-1)/q make a generator -/
theorem generator_test (hp : p.Prime) {r : ℕ} (h0 : 1 ≤ r) (h1 : r < p)
    (h : ∀ q, q.Prime → (p - 1) % q = 0 → r ^ ((p - 1) / q) % p ≠ 1) : orderOf (r : ZMod p) = p - 1 := by
  have := Fact.mk hp
  have hr : (r : ZMod p) ≠ 0 := by
    intro hz
    have := (ZMod.natCast_eq_zero_iff r p).mp hz
    exact absurd (Nat.le_of_dvd (by omega) this) (by omega)
  apply orderOf_eq_of_pow_and_pow_div_prime
  · have := hp.two_le; omega
  · exact ZMod.pow_card_sub_one_eq_one hr
  · intro q hq hd hc
    exact h q hq (Nat.mod_eq_zero_of_dvd hd) ((cast_pow_eq_one hp r _).mp hc)

/-- a generator exists, and passes every test with an exponent strictly between 0 and p-1 -/
theorem generator_exists (hp : p.Prime) : ∃ g, 1 ≤ g ∧ g < p ∧ ∀ e, 1 ≤ e → e < p - 1 → g ^ e % p ≠ 1 := by
  have := Fact.mk hp
  obtain ⟨u, hu⟩ := IsCyclic.exists_generator (α := (ZMod p)ˣ)
  refine ⟨(u : ZMod p).val, ?_, ZMod.val_lt _, ?_⟩
  · have : (u : ZMod p).val ≠ 0 := by rw [Ne, ZMod.val_eq_zero]; exact u.ne_zero
    omega
  · intro e he hlt hc
    have h2 := (cast_pow_eq_one hp _ e).mpr hc
    rw [ZMod.natCast_val, ZMod.cast_id] at h2
    have h3 : u ^ e = 1 := by ext; simpa using h2
    have h4 : orderOf u = p - 1 := by rw [orderOf_eq_card_of_forall_mem_zpowers hu, Nat.card_eq_fintype_card, ZMod.card_units]
    have := Nat.le_of_dvd (by omega) (orderOf_dvd_of_pow_eq_one h3)
    omega

/-- the powers of a generator are distinct, -/
theorem powers_inj {g : ℕ} (hg : orderOf (g : ZMod p) = p - 1) {i j : ℕ} (hi : i < p - 1) (hj : j < p - 1)
    (h : g ^ i % p = g ^ j % p) : i = j := by
  have : (g : ZMod p) ^ i = (g : ZMod p) ^ j := by
    rw [← Nat.cast_pow, ← Nat.cast_pow, ZMod.natCast_eq_natCast_iff]; exact h
  exact pow_injOn_Iio_orderOf (by simpa [hg] using hi) (by simpa [hg] using hj) this

/-- periodic, -/
theorem powers_periodic {g : ℕ} (hg : orderOf (g : ZMod p) = p - 1) (i k : ℕ) : g ^ (i + (p - 1) * k) % p = g ^ i % p := by
  have h : ((g ^ (i + (p - 1) * k) : ℕ) : ZMod p) = ((g ^ i : ℕ) : ZMod p) := by
    push_cast; rw [pow_add, pow_mul, ← hg, pow_orderOf_eq_one, one_pow, mul_one]
  exact (ZMod.natCast_eq_natCast_iff _ _ _).mp h

/-- and reach every nonzero residue -/
theorem powers_cover (hp : p.Prime) {g : ℕ} (hg : orderOf (g : ZMod p) = p - 1) {x : ℕ} (h0 : 1 ≤ x) (h1 : x < p) :
    ∃ i, i < p - 1 ∧ g ^ i % p = x := by
  have := Fact.mk hp
  have hp2 := hp.two_le
  have key : Function.Surjective (fun i : Fin (p - 1) => (⟨g ^ (i : ℕ) % p - 1, by
      have hlt := Nat.mod_lt (g ^ (i : ℕ)) hp.pos
      have hne : g ^ (i : ℕ) % p ≠ 0 := by
        intro hz
        have hd := hp.dvd_of_dvd_pow (Nat.dvd_of_mod_eq_zero hz)
        have hz' : (g : ZMod p) = 0 := (ZMod.natCast_eq_zero_iff g p).mpr hd
        have : (g : ZMod p) ^ (p - 1) = 1 := by rw [← hg]; exact pow_orderOf_eq_one _
        rw [hz', zero_pow (by omega)] at this
        exact zero_ne_one this
      omega⟩ : Fin (p - 1))) := by
    apply Finite.surjective_of_injective
    intro i j hij
    have hpos : ∀ k : ℕ, g ^ k % p ≠ 0 := by
      intro k hz
      have hd := hp.dvd_of_dvd_pow (Nat.dvd_of_mod_eq_zero hz)
      have hz' : (g : ZMod p) = 0 := (ZMod.natCast_eq_zero_iff g p).mpr hd
      have : (g : ZMod p) ^ (p - 1) = 1 := by rw [← hg]; exact pow_orderOf_eq_one _
      rw [hz', zero_pow (by omega)] at this
      exact zero_ne_one this
    have h := Fin.mk.inj_iff.mp hij
    have := hpos i; have := hpos j
    exact Fin.ext (powers_inj hg i.2 j.2 (by omega))
  obtain ⟨i, hi⟩ := key ⟨x - 1, by omega⟩
  refine ⟨i, i.2, ?_⟩
  have h := Fin.mk.inj_iff.mp hi
  have hne : g ^ (i : ℕ) % p ≠ 0 := by
    intro hz
    have hd := hp.dvd_of_dvd_pow (Nat.dvd_of_mod_eq_zero hz)
    have hz' : (g : ZMod p) = 0 := (ZMod.natCast_eq_zero_iff g p).mpr hd
    have : (g : ZMod p) ^ (p - 1) = 1 := by rw [← hg]; exact pow_orderOf_eq_one _
    rw [hz', zero_pow (by omega)] at this
    exact zero_ne_one this
  omega

/-- the inverse of a generator is a generator -/
theorem inverse_generator (hp : p.Prime) {g h : ℕ} (hg : orderOf (g : ZMod p) = p - 1) (hh : (g * h) % p = 1) : orderOf (h : ZMod p) = p - 1 := by
  have := Fact.mk hp
  have h1 : (g : ZMod p) * (h : ZMod p) = 1 := by
    have h2 : ((g * h : ℕ) : ZMod p) = ((1 : ℕ) : ZMod p) := by
      rw [ZMod.natCast_eq_natCast_iff, Nat.ModEq, hh, Nat.mod_eq_of_lt hp.one_lt]
    simpa using h2
  have h3 : (h : ZMod p) = (g : ZMod p)⁻¹ := eq_inv_of_mul_eq_one_right h1
  rw [h3]
  rw [← hg]
  apply Nat.dvd_antisymm <;> apply orderOf_dvd_of_pow_eq_one
  · rw [inv_pow, pow_orderOf_eq_one, inv_one]
  · have := pow_orderOf_eq_one ((g : ZMod p)⁻¹)
    rw [inv_pow] at this
    exact inv_eq_one.mp this
end generator

/-- orthogonality of the characters of Z/m -/
theorem orthogonality {m : ℕ} (hm : 1 ≤ m) (u : ℤ) :
    (∑ t ∈ Finset.range m, Complex.exp (2 * Real.pi * Complex.I * ((t : ℂ) * u / m))) = if (m : ℤ) ∣ u then (m : ℂ) else 0 := by
  have hm0 : (m : ℂ) ≠ 0 := by exact_mod_cast (by omega : m ≠ 0)
  set w := Complex.exp (2 * Real.pi * Complex.I * (u / m)) with hw
  have hterm : ∀ t : ℕ, Complex.exp (2 * Real.pi * Complex.I * ((t : ℂ) * u / m)) = w ^ t := by
    intro t; rw [hw, ← Complex.exp_nat_mul]; congr 1; ring
  simp_rw [hterm]
  have hpow : w ^ m = 1 := by
    rw [hw, ← Complex.exp_nat_mul]
    have : (m : ℂ) * (2 * Real.pi * Complex.I * (u / m)) = u * (2 * Real.pi * Complex.I) := by field_simp
    rw [this]; exact Complex.exp_int_mul_two_pi_mul_I u
  split_ifs with hd
  · obtain ⟨k, rfl⟩ := hd
    have : w = 1 := by
      rw [hw]
      have : (2 * Real.pi * Complex.I * (((m : ℤ) * k : ℤ) / m) : ℂ) = k * (2 * Real.pi * Complex.I) := by push_cast; field_simp
      rw [this]; exact Complex.exp_int_mul_two_pi_mul_I k
    simp [this]
  · have hne : w ≠ 1 := by
      intro h1
      rw [hw, Complex.exp_eq_one_iff] at h1
      obtain ⟨k, hk⟩ := h1
      apply hd
      have h2 : (2 * Real.pi * Complex.I : ℂ) ≠ 0 := Complex.two_pi_I_ne_zero
      have h3 : (u : ℂ) / m = k := by
        apply mul_left_cancel₀ h2; rw [hk]; ring
      have h4 : (u : ℂ) = m * k := by rw [div_eq_iff hm0] at h3; rw [h3]; ring
      exact ⟨k, by exact_mod_cast h4⟩
    have := mul_neg_geom_sum w m
    rw [hpow, sub_self] at this
    exact (mul_eq_zero.mp this).resolve_left (sub_ne_zero.mpr (Ne.symm hne))
end VF

-- Mathematics behind C09.  Checked by the Lean kernel on every run of the check (core library only).
-- p = 2^128 - 159; mul and pw are the functions the contracts of _mulmodp and _powmodp_r name.
def p : Nat := 2^128 - 159
def mul (x y : Nat) : Nat := x * y % p
def pw (a b : Nat) : Nat := a ^ b % p

theorem p_pos : 0 < p := by decide
theorem mul_comm' (x y : Nat) : mul x y = mul y x := by unfold mul; rw [Nat.mul_comm]
theorem mul_one_left (x : Nat) (h : x < p) : mul 1 x = x := by unfold mul; rw [Nat.one_mul]; exact Nat.mod_eq_of_lt h
theorem mul_lt (x y : Nat) : mul x y < p := Nat.mod_lt _ p_pos
theorem pw_lt (a b : Nat) : pw a b < p := Nat.mod_lt _ p_pos
theorem pw_zero (a : Nat) : pw a 0 = 1 := by
  unfold pw p; rw [Nat.pow_zero]
theorem pw_one (a : Nat) (h : a < p) : pw a 1 = a := by unfold pw; rw [Nat.pow_one]; exact Nat.mod_eq_of_lt h
theorem pw_mod (a b : Nat) : pw (a % p) b = pw a b := by unfold pw; rw [← Nat.pow_mod]
theorem pw_add (a b c : Nat) : pw a (b + c) = mul (pw a b) (pw a c) := by
  unfold pw mul; rw [Nat.pow_add, Nat.mul_mod]
theorem pw_even (a h : Nat) : pw a (2 * h) = mul (pw a h) (pw a h) := by
  rw [Nat.two_mul, pw_add]
theorem pw_odd (a h : Nat) (ha : a < p) : pw a (2 * h + 1) = mul (mul (pw a h) (pw a h)) a := by
  rw [pw_add, pw_even, pw_one a ha]
-- loop of _mulmodp: one step keeps r + a*b modulo p (k1, k2 say whether p was subtracted)
theorem step (r a b r' a' b' odd k1 k2 : Nat)
    (hr : r' + k1 * p = r + odd * a) (ha : a' + k2 * p = 2 * a) (hb : b = 2 * b' + odd) :
    (r' + a' * b') % p = (r + a * b) % p := by
  have h : r + a * b = (r' + a' * b') + p * (k1 + k2 * b') := by
    have e1 : a * b = (2 * a) * b' + odd * a := by
      rw [hb, Nat.mul_add, Nat.mul_comm a odd, ← Nat.mul_assoc, Nat.mul_comm a 2]
    rw [e1, ← ha, Nat.add_mul, Nat.mul_add]
    have e2 : k2 * p * b' = p * (k2 * b') := by
      rw [Nat.mul_comm k2 p, Nat.mul_assoc]
    rw [e2, Nat.mul_comm p k1]
    omega
  rw [h, Nat.add_mul_mod_self_left]
theorem start (a b : Nat) : (0 + a * b) % p = mul a b := by rw [Nat.zero_add]; rfl
theorem stop (r a : Nat) (h : r < p) : (r + a * 0) % p = r := by
  rw [Nat.mul_zero, Nat.add_zero]; exact Nat.mod_eq_of_lt h
-- the two parties
theorem agree (g x y : Nat) : pw (pw g x) y = pw (pw g y) x := by
  unfold pw
  rw [← Nat.pow_mod, ← Nat.pow_mod, ← Nat.pow_mul, ← Nat.pow_mul, Nat.mul_comm]

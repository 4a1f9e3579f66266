/-
The lemma schemas instantiated by the verification-condition generator (vc/sym.py, vc/strs.py, vc/spec.py, vc/solve.py).
Check with:  lean lemmas/Ieme.lean   (Mathlib on the toolchain's search path)
-/
import Mathlib

namespace Ieme

/-! ### VAL n d: the rational number n / d (0 for d = 0) -/

noncomputable def VAL (n d : ℤ) : ℝ := (n : ℝ) / (d : ℝ)

theorem val_eq_zero {n d : ℤ} (h : d ≠ 0) : VAL n d = 0 ↔ n = 0 := by
  have : (d : ℝ) ≠ 0 := by exact_mod_cast h
  simp [VAL, this]

theorem val_pos {n d : ℤ} (_h : d ≠ 0) : 0 < VAL n d ↔ (n > 0 ∧ d > 0) ∨ (n < 0 ∧ d < 0) := by
  unfold VAL
  rw [div_pos_iff]
  simp

theorem val_lt_of_pos {n d : ℤ} (h : d > 0) (k m : ℤ) : m * VAL n d < k ↔ m * n < k * d := by
  have h' : (0 : ℝ) < d := by exact_mod_cast h
  unfold VAL
  rw [mul_div_assoc', div_lt_iff₀ h']
  exact_mod_cast Iff.rfl

theorem val_lt_of_neg {n d : ℤ} (h : d < 0) (k m : ℤ) : m * VAL n d < k ↔ k * d < m * n := by
  have h' : (d : ℝ) < 0 := by exact_mod_cast h
  unfold VAL
  rw [mul_div_assoc', div_lt_iff_of_neg h']
  exact_mod_cast Iff.rfl

theorem val_one (n : ℤ) : VAL n 1 = n := by simp [VAL]

/-- cross multiplication: the two encodings of equality and order are equivalent -/
theorem val_eq {a b c d : ℤ} (hb : b ≠ 0) (hd : d ≠ 0) : VAL a b = VAL c d ↔ a * d = c * b := by
  have hb' : (b : ℝ) ≠ 0 := by exact_mod_cast hb
  have hd' : (d : ℝ) ≠ 0 := by exact_mod_cast hd
  unfold VAL
  rw [div_eq_div_iff hb' hd']
  exact_mod_cast Iff.rfl

theorem val_lt {a b c d : ℤ} (hb : b ≠ 0) (hd : d ≠ 0) :
    VAL a b < VAL c d ↔ (a * d * (b * d) < c * b * (b * d)) := by
  have hb' : (b : ℝ) ≠ 0 := by exact_mod_cast hb
  have hd' : (d : ℝ) ≠ 0 := by exact_mod_cast hd
  have e : VAL c d - VAL a b = ((c * b * (b * d) - a * d * (b * d) : ℤ) : ℝ) / ((b : ℝ) ^ 2 * (d : ℝ) ^ 2) := by
    unfold VAL
    push_cast
    field_simp
  have p : (0 : ℝ) < (b : ℝ) ^ 2 * (d : ℝ) ^ 2 := by positivity
  constructor
  · intro h
    have h2 : 0 < VAL c d - VAL a b := by linarith
    rw [e, div_pos_iff_of_pos_right p] at h2
    have h3 : (0 : ℤ) < c * b * (b * d) - a * d * (b * d) := by exact_mod_cast h2
    linarith
  · intro h
    have h3 : (0 : ℤ) < c * b * (b * d) - a * d * (b * d) := by linarith
    have h4 : (0 : ℝ) < ((c * b * (b * d) - a * d * (b * d) : ℤ) : ℝ) := by exact_mod_cast h3
    have : 0 < VAL c d - VAL a b := by rw [e]; exact div_pos h4 p
    linarith

/-- x / y = q + r / y -/
theorem val_div {x y q r : ℤ} (hy : y ≠ 0) (h : x = y * q + r) : VAL x y = q + VAL r y := by
  have hy' : (y : ℝ) ≠ 0 := by exact_mod_cast hy
  subst h
  unfold VAL
  push_cast
  field_simp

theorem val_scale {n d g : ℤ} (hg : g ≠ 0) : VAL (g * n) (g * d) = VAL n d := by
  have hg' : (g : ℝ) ≠ 0 := by exact_mod_cast hg
  unfold VAL
  push_cast
  exact mul_div_mul_left _ _ hg'

theorem val_neg_neg (n d : ℤ) : VAL (-n) (-d) = VAL n d := by
  unfold VAL
  push_cast
  exact neg_div_neg_eq _ _

theorem val_recip {n d : ℤ} (hd : d ≠ 0) : VAL n d * d = n := by
  have hd' : (d : ℝ) ≠ 0 := by exact_mod_cast hd
  unfold VAL
  field_simp

/-! ### greatest common divisors: x = g * cx, y = g * cy -/

def COP (a b : ℤ) : Prop := IsCoprime a b

theorem gcd_cofactors (x y : ℤ) : ∃ g cx cy : ℤ, g = Int.gcd x y ∧ 0 ≤ g ∧ x = g * cx ∧ y = g * cy ∧
    ((x ≠ 0 ∨ y ≠ 0) → 0 < g ∧ COP cx cy) ∧ (x = 0 ∧ y = 0 → g = 0) := by
  by_cases h : x ≠ 0 ∨ y ≠ 0
  · have hg : 0 < Int.gcd x y := Int.gcd_pos_iff.mpr h
    refine ⟨Int.gcd x y, x / Int.gcd x y, y / Int.gcd x y, rfl, by positivity, ?_, ?_, ?_, ?_⟩
    · exact (Int.mul_ediv_cancel' (Int.gcd_dvd_left ..)).symm
    · exact (Int.mul_ediv_cancel' (Int.gcd_dvd_right ..)).symm
    · intro _
      refine ⟨by exact_mod_cast hg, ?_⟩
      have := Int.gcd_ediv_gcd_ediv_gcd hg
      exact Int.isCoprime_iff_gcd_eq_one.mpr this
    · rintro ⟨rfl, rfl⟩
      simp
  · push Not at h
    obtain ⟨rfl, rfl⟩ := h
    exact ⟨0, 0, 0, by simp, le_refl _, by simp, by simp, by simp, by simp⟩

/-- when both are zero the cofactors are chosen zero; otherwise signs and zeros of the cofactors are those of the arguments -/
theorem cofactor_sign {x g c : ℤ} (hg : 0 < g) (h : x = g * c) : (x = 0 ↔ c = 0) ∧ (x > 0 ↔ c > 0) ∧ |c| ≤ |x| := by
  subst h
  refine ⟨?_, ?_, ?_⟩
  · constructor
    · intro h
      rcases mul_eq_zero.mp h with h | h
      · omega
      · exact h
    · rintro rfl; simp
  · exact mul_pos_iff_of_pos_left hg
  · rw [abs_mul, abs_of_pos hg]
    nlinarith [abs_nonneg c]

theorem gcd_le {x g c : ℤ} (hg : 0 < g) (hx : x ≠ 0) (h : x = g * c) : g ≤ |x| :=
  Int.le_of_dvd (abs_pos.mpr hx) ((dvd_abs _ _).mpr ⟨c, h⟩)

theorem gcd_abs_order {g cx cy : ℤ} (hg : 0 < g) : (|g * cx| < |g * cy| ↔ |cx| < |cy|) := by
  rw [abs_mul, abs_mul, abs_of_pos hg]
  exact mul_lt_mul_iff_of_pos_left hg

theorem tdiv_small {x y : ℤ} (h : |x| < |y|) : Int.tdiv x y = 0 ∧ Int.tmod x y = x := by
  have h1 : Int.tdiv x y = 0 := by
    have : x.natAbs < y.natAbs := by
      rw [Int.abs_eq_natAbs, Int.abs_eq_natAbs] at h; exact_mod_cast h
    have e : (Int.tdiv x y).natAbs = x.natAbs / y.natAbs := Int.natAbs_tdiv x y
    rw [Nat.div_eq_of_lt this] at e
    exact Int.natAbs_eq_zero.mp e
  refine ⟨h1, ?_⟩
  have := Int.tmod_add_mul_tdiv x y
  rw [h1] at this; simpa using this

theorem gcd_zero_left (y : ℤ) : (Int.gcd 0 y : ℤ) = |y| := by simp

theorem gcd_zero_right (x : ℤ) : (Int.gcd x 0 : ℤ) = |x| := by simp

theorem gcd_neg_comm (x y : ℤ) : Int.gcd (-x) y = Int.gcd x y ∧ Int.gcd x (-y) = Int.gcd x y ∧ Int.gcd y x = Int.gcd x y :=
  ⟨by simp, by simp, Int.gcd_comm y x⟩

theorem cop_iff (x y : ℤ) : COP x y ↔ (Int.gcd x y : ℤ) = 1 := by
  unfold COP
  rw [Int.isCoprime_iff_gcd_eq_one]
  exact_mod_cast Iff.rfl

theorem cop_signs (a b : ℤ) : (COP (-a) b ↔ COP a b) ∧ (COP a (-b) ↔ COP a b) ∧ (COP b a ↔ COP a b) :=
  ⟨IsCoprime.neg_left_iff a b, IsCoprime.neg_right_iff a b, isCoprime_comm⟩

/-- lcm: the product of the gcd and the cofactors, up to sign -/
theorem lcm_cofactors {x y g cx cy : ℤ} (hg : g = Int.gcd x y) (hx : x = g * cx) (hy : y = g * cy) (h : 0 < g) :
    (Int.lcm x y : ℤ) = |g * cx * cy| := by
  have h1 : (Int.gcd x y : ℤ) * Int.lcm x y = |x * y| := by
    have := Int.gcd_mul_lcm x y
    rw [Int.abs_eq_natAbs, Int.natAbs_mul]
    exact_mod_cast this
  rw [← hg] at h1
  have h2 : |x * y| = g * |g * cx * cy| := by
    have e : x * y = g * (g * cx * cy) := by rw [hx, hy]; ring
    rw [e, abs_mul g, abs_of_pos h]
  rw [h2] at h1
  exact mul_left_cancel₀ (ne_of_gt h) h1

/-- canonical forms are unique -/
theorem canonical {a b c d : ℤ} (hb : 0 < b) (hd : 0 < d) (h1 : COP a b) (h2 : COP c d) (h : a * d = c * b) :
    a = c ∧ b = d := by
  have hbd : b ∣ d := by
    have : b ∣ a * d := ⟨c, by rw [h]; ring⟩
    exact (IsCoprime.symm h1).dvd_of_dvd_mul_left this
  have hdb : d ∣ b := by
    have : d ∣ c * b := ⟨a, by rw [← h]; ring⟩
    exact (IsCoprime.symm h2).dvd_of_dvd_mul_left this
  have e : b = d := Int.dvd_antisymm (le_of_lt hb) (le_of_lt hd) hbd hdb
  subst e
  exact ⟨mul_right_cancel₀ (ne_of_gt hb) h, rfl⟩

/-! ### truncated division -/

theorem tdiv_facts (x y : ℤ) (hy : y ≠ 0) :
    x = y * Int.tdiv x y + Int.tmod x y ∧ (0 ≤ x → 0 ≤ Int.tmod x y) ∧ (x ≤ 0 → Int.tmod x y ≤ 0) ∧
    |Int.tmod x y| < |y| := by
  refine ⟨(Int.mul_tdiv_add_tmod x y).symm, ?_, ?_, ?_⟩
  · intro h; exact Int.tmod_nonneg y h
  · intro h
    have := Int.tmod_nonneg y (a := -x) (by omega)
    rw [Int.neg_tmod] at this
    omega
  · have h0 : Int.tmod x y = if 0 ≤ x then Int.tmod |x| y else -(Int.tmod |x| y) := by
      split
      · rename_i h; rw [abs_of_nonneg h]
      · rename_i h; rw [abs_of_neg (by omega), Int.neg_tmod]; omega
    have h1 : 0 ≤ Int.tmod |x| y := Int.tmod_nonneg y (abs_nonneg x)
    have h2 : Int.tmod |x| y < |y| := by
      have e : Int.tmod |x| y = Int.tmod |x| |y| := by
        rcases abs_choice y with h | h <;> rw [h]
        rw [Int.tmod_neg]
      rw [e]
      exact Int.tmod_lt_of_pos _ (abs_pos.mpr hy)
    rw [h0]
    split
    · rw [abs_of_nonneg h1]; exact h2
    · rw [abs_neg, abs_of_nonneg h1]; exact h2

/-- the quotient and remainder are the only ones -/
theorem quot_bounds {x y q r : ℤ} (hy : y ≠ 0) (h : x = y * q + r) (hp : 0 ≤ x → 0 ≤ r) (hn : x ≤ 0 → r ≤ 0)
    (hr : |r| < |y|) : |y| * |q| + |r| = |x| ∧ |q| ≤ |x| ∧ |r| ≤ |x| ∧ (r ≠ 0 → 2 * |q| < |x|) := by
  have hy1 : 1 ≤ |y| := Int.one_le_abs hy
  have key : |y| * |q| + |r| = |x| := by
    rw [← abs_mul]
    rcases le_total 0 x with hx | hx
    · have r0 := hp hx
      rw [abs_of_nonneg r0, abs_of_nonneg hx]
      have : 0 ≤ y * q := by
        by_contra hneg
        push Not at hneg
        have : |y| ≤ |y * q| := by
          rw [abs_mul]
          have : 1 ≤ |q| := Int.one_le_abs (by rintro rfl; simp at hneg)
          nlinarith
        rw [abs_of_neg hneg] at this
        rw [abs_of_nonneg r0] at hr
        omega
      rw [abs_of_nonneg this]; omega
    · have r0 := hn hx
      rw [abs_of_nonpos r0, abs_of_nonpos hx]
      have : y * q ≤ 0 := by
        by_contra hpos
        push Not at hpos
        have : |y| ≤ |y * q| := by
          rw [abs_mul]
          have : 1 ≤ |q| := Int.one_le_abs (by rintro rfl; simp at hpos)
          nlinarith
        rw [abs_of_pos hpos] at this
        rw [abs_of_nonpos r0] at hr
        omega
      rw [abs_of_nonpos this]; omega
  refine ⟨key, ?_, ?_, ?_⟩
  · nlinarith [abs_nonneg q, abs_nonneg r]
  · nlinarith [mul_nonneg (abs_nonneg y) (abs_nonneg q)]
  · intro hr0
    have h1 : 1 ≤ |r| := Int.one_le_abs hr0
    have h2 : 2 ≤ |y| := by omega
    nlinarith [abs_nonneg q]

theorem quot_sign {x y q r : ℤ} (_hy : y ≠ 0) (h : x = y * q + r) (hp : 0 ≤ x → 0 ≤ r) (hn : x ≤ 0 → r ≤ 0)
    (hr : |r| < |y|) : (0 ≤ x ∧ 0 < y → 0 ≤ q) ∧ (x ≤ 0 ∧ y < 0 → 0 ≤ q) ∧ (0 ≤ x ∧ y < 0 → q ≤ 0) ∧ (x ≤ 0 ∧ 0 < y → q ≤ 0) := by
  refine ⟨?_, ?_, ?_, ?_⟩
  · rintro ⟨hx, hy⟩
    have r0 := hp hx
    rw [abs_of_nonneg r0, abs_of_pos hy] at hr
    by_contra c; push Not at c; nlinarith
  · rintro ⟨hx, hy⟩
    have r0 := hn hx
    rw [abs_of_nonpos r0, abs_of_neg hy] at hr
    by_contra c; push Not at c; nlinarith
  · rintro ⟨hx, hy⟩
    have r0 := hp hx
    rw [abs_of_nonneg r0, abs_of_neg hy] at hr
    by_contra c; push Not at c; nlinarith
  · rintro ⟨hx, hy⟩
    have r0 := hn hx
    rw [abs_of_nonpos r0, abs_of_pos hy] at hr
    by_contra c; push Not at c; nlinarith

theorem tdiv_exact (k y : ℤ) (hy : y ≠ 0) : Int.tdiv (k * y) y = k ∧ Int.tmod (k * y) y = 0 :=
  ⟨Int.mul_tdiv_cancel k hy, Int.mul_tmod_left k y⟩

/-- a common factor cancels from the quotient and scales the remainder -/
theorem tdiv_common (c x y : ℤ) (hc : c ≠ 0) : Int.tdiv (c * x) (c * y) = Int.tdiv x y ∧ Int.tmod (c * x) (c * y) = c * Int.tmod x y := by
  have h1 : Int.tdiv (c * x) (c * y) = Int.tdiv x y := by
    rcases lt_or_gt_of_ne hc with h | h
    · have := Int.mul_tdiv_mul_of_pos (a := -c) x y (by omega)
      rw [neg_mul, neg_mul, Int.neg_tdiv, Int.tdiv_neg, neg_neg] at this
      exact this
    · exact Int.mul_tdiv_mul_of_pos x y h
  refine ⟨h1, ?_⟩
  have a := Int.mul_tdiv_add_tmod (c * x) (c * y)
  have b := Int.mul_tdiv_add_tmod x y
  rw [h1] at a
  have : c * x = c * (y * Int.tdiv x y + Int.tmod x y) := by rw [b]
  linarith [this, a]

theorem tdiv_signs (x y : ℤ) : Int.tdiv (-x) y = -Int.tdiv x y ∧ Int.tdiv x (-y) = -Int.tdiv x y ∧
    Int.tmod (-x) y = -Int.tmod x y ∧ Int.tmod x (-y) = Int.tmod x y :=
  ⟨Int.neg_tdiv .., Int.tdiv_neg .., Int.neg_tmod .., Int.tmod_neg ..⟩

/-! ### products -/

theorem mul_mono {a b c d : ℤ} (h1 : |a| ≤ |c|) (h2 : |b| ≤ |d|) : -|c * d| ≤ a * b ∧ a * b ≤ |c * d| := by
  have : |a * b| ≤ |c * d| := by
    rw [abs_mul, abs_mul]
    exact mul_le_mul h1 h2 (abs_nonneg b) (abs_nonneg c)
  exact abs_le.mp this

/-! ### powers -/

theorem pow_succ' (b : ℤ) (e : ℕ) : b ^ (e + 1) = b * b ^ e := by ring

theorem pow_two_mul (b : ℤ) (e : ℕ) : b ^ (2 * e) = b ^ e * b ^ e := by ring

theorem pow_facts (b : ℤ) (e : ℕ) : b ^ 0 = 1 ∧ b ^ 1 = b ∧ (e > 0 → (0 : ℤ) ^ e = 0) ∧ (b ≠ 0 → b ^ e ≠ 0) ∧ (0 < b → 0 < b ^ e) ∧
    (1 : ℤ) ^ e = 1 ∧ ((-1 : ℤ) ^ e = 1 ∨ (-1 : ℤ) ^ e = -1) :=
  ⟨pow_zero b, pow_one b, fun h => zero_pow (by omega), fun h => pow_ne_zero e h, fun h => pow_pos h e, one_pow e, neg_one_pow_eq_or ℤ e⟩

theorem pow_le' {b : ℤ} (hb : b ≠ 0) {e f : ℕ} (h : e ≤ f) : |b ^ e| ≤ |b ^ f| := by
  rw [abs_pow, abs_pow]
  exact pow_le_pow_right₀ (Int.one_le_abs hb) h

theorem pow_double_succ (b : ℤ) (e : ℕ) : b ^ (2 * e + 1) = b * (b ^ e * b ^ e) := by ring

theorem pow_succ_le {b : ℤ} (hb : b ≠ 0) {e f : ℕ} (h : e < f) : |b * b ^ e| ≤ |b ^ f| := by
  have := pow_le' hb (show e + 1 ≤ f by omega)
  rwa [pow_succ'] at this

theorem pow_sq_le {b : ℤ} (hb : b ≠ 0) {e f : ℕ} (h : 2 * e ≤ f) : b ^ e * b ^ e ≤ |b ^ f| := by
  have := pow_le' hb h
  rw [pow_two_mul] at this
  exact le_trans (le_abs_self _) this

theorem pow_square_base (b : ℤ) (e : ℕ) : b ^ (2 * e) = (b * b) ^ e ∧ b ^ (2 * e + 1) = b * (b * b) ^ e := by
  constructor
  · rw [mul_pow]; ring
  · rw [mul_pow]; ring

theorem pow_one_le {b : ℤ} (hb : b ≠ 0) {e : ℕ} (h : 1 ≤ e) : |b| ≤ |b ^ e| := by
  simpa using pow_le' hb h

theorem pow_two_le {b : ℤ} (hb : b ≠ 0) {e : ℕ} (h : 2 ≤ e) : b * b ≤ |b ^ e| := by
  have := pow_sq_le hb (show 2 * 1 ≤ e by omega)
  simpa using this

theorem pow_lt' {b : ℤ} (hb : b ≥ 2 ∨ b ≤ -2) {e f : ℕ} (h : e < f) : 2 * |b ^ e| ≤ |b ^ f| := by
  have h2 : 2 ≤ |b| := by
    rcases hb with h | h
    · rw [abs_of_pos (by omega)]; omega
    · rw [abs_of_neg (by omega)]; omega
  have hb0 : b ≠ 0 := by rcases hb with h | h <;> omega
  have h1 : |b ^ (e + 1)| ≤ |b ^ f| := pow_le' hb0 h
  have h3 : |b ^ (e + 1)| = |b| * |b ^ e| := by rw [← abs_mul, pow_succ']
  nlinarith [abs_nonneg (b ^ e)]

/-! ### trailing zeros -/

theorem ctz (x : ℕ) (hx : 0 < x) : ∃ z odd : ℕ, x = 2 ^ z * odd ∧ odd % 2 = 1 ∧ 1 ≤ odd ∧ odd ≤ x ∧ 2 ^ z ≤ x := by
  obtain ⟨z, odd, hodd, h⟩ := Nat.exists_eq_two_pow_mul_odd (by omega : x ≠ 0)
  have h1 : odd % 2 = 1 := Nat.odd_iff.mp hodd
  have h2 : 1 ≤ odd := by omega
  have h3 : 1 ≤ 2 ^ z := Nat.one_le_two_pow
  exact ⟨z, odd, h, h1, h2, by rw [h]; nlinarith, by rw [h]; nlinarith⟩

/-! ### character sequences.  ch: the characters; positions are integers -/

section strings

variable (ch : ℤ → ℤ) (isdig : ℤ → Prop) (digval : ℤ → ℤ) (b : ℤ)

/-- the separator ' -/
def SEP : ℤ := 39

/-- digit-sequence: digit | digit-sequence digit | digit-sequence ' digit, filling [lo, lo + n) -/
inductive DSn (lo : ℤ) : ℕ → Prop
  | one : isdig (ch lo) → DSn lo 1
  | digit {n} : DSn lo n → isdig (ch (lo + n)) → DSn lo (n + 1)
  | sep {n} : DSn lo n → ch (lo + n) = SEP → isdig (ch (lo + n + 1)) → DSn lo (n + 2)

def DS (lo hi : ℤ) : Prop := lo < hi ∧ DSn ch isdig lo (hi - lo).toNat

variable {ch isdig digval b}

theorem DSn.pos {lo : ℤ} {n : ℕ} (h : DSn ch isdig lo n) : 0 < n := by cases h <;> omega

theorem dsn_unfold (lo : ℤ) (n : ℕ) : DSn ch isdig lo (n + 1) ↔
    isdig (ch (lo + n)) ∧ (n = 0 ∨ DSn ch isdig lo n ∨ (∃ m, n = m + 1 ∧ 0 < m ∧ ch (lo + m) = SEP ∧ DSn ch isdig lo m)) := by
  constructor
  · intro h
    generalize hk : n + 1 = k at h
    cases h with
    | one h => have : n = 0 := by omega
               subst this; simpa using h
    | @digit m h1 h2 => have : n = m := by omega
                        subst this; exact ⟨h2, Or.inr (Or.inl h1)⟩
    | @sep m h1 h2 h3 =>
      have : n = m + 1 := by omega
      subst this
      refine ⟨by push_cast; rw [← add_assoc]; exact h3, Or.inr (Or.inr ⟨m, rfl, h1.pos, h2, h1⟩)⟩
  · rintro ⟨h1, h2 | h2 | ⟨m, rfl, _, h3, h4⟩⟩
    · subst h2; exact DSn.one (by simpa using h1)
    · exact DSn.digit h2 h1
    · refine DSn.sep h4 h3 ?_
      push_cast at h1; rw [← add_assoc] at h1; exact h1

theorem ds_unfold (lo hi : ℤ) : DS ch isdig lo hi ↔
    lo < hi ∧ isdig (ch (hi - 1)) ∧ (hi - 1 = lo ∨ DS ch isdig lo (hi - 1) ∨ (ch (hi - 2) = SEP ∧ lo < hi - 2 ∧ DS ch isdig lo (hi - 2))) := by
  by_cases hlt : lo < hi
  · obtain ⟨n, hn⟩ : ∃ n : ℕ, hi = lo + n + 1 := ⟨(hi - lo - 1).toNat, by omega⟩
    subst hn
    have e1 : (lo + n + 1 - lo).toNat = n + 1 := by omega
    have e2 : (lo + n + 1 - 1 - lo).toNat = n := by omega
    have e3 : lo + (n : ℤ) + 1 - 1 = lo + n := by ring
    have e4 : lo + (n : ℤ) + 1 - 2 = lo + n - 1 := by ring
    have e5 : (lo + (n : ℤ) - 1 - lo).toNat = n - 1 := by omega
    unfold DS
    rw [e1, e2, e3, e4, e5, dsn_unfold]
    constructor
    · rintro ⟨_, h1, h2 | h2 | ⟨m, rfl, hm, h3, h4⟩⟩
      · subst h2; exact ⟨hlt, h1, Or.inl (by simp)⟩
      · exact ⟨hlt, h1, Or.inr (Or.inl ⟨by have := h2.pos; omega, h2⟩)⟩
      · refine ⟨hlt, h1, Or.inr (Or.inr ⟨?_, by push_cast; omega, by push_cast; omega, ?_⟩)⟩
        · rw [show lo + ((m + 1 : ℕ) : ℤ) - 1 = lo + m by push_cast; ring]; exact h3
        · simpa using h4
    · rintro ⟨_, h1, h2 | ⟨_, h2⟩ | ⟨h3, h4, _, h5⟩⟩
      · exact ⟨hlt, h1, Or.inl (by omega)⟩
      · exact ⟨hlt, h1, Or.inr (Or.inl h2)⟩
      · refine ⟨hlt, h1, Or.inr (Or.inr ⟨n - 1, by omega, by omega, ?_, h5⟩)⟩
        rw [show lo + ((n - 1 : ℕ) : ℤ) = lo + n - 1 by omega]; exact h3
  · constructor
    · rintro ⟨h, _⟩; exact absurd h hlt
    · rintro ⟨h, _⟩; exact absurd h hlt

theorem dsn_chars {lo : ℤ} {n : ℕ} (h : DSn ch isdig lo n) : ∀ k : ℕ, k < n → isdig (ch (lo + k)) ∨ ch (lo + k) = SEP := by
  induction h with
  | one h => intro k hk; have : k = 0 := by omega
             subst this; left; simpa using h
  | @digit m h1 h2 ih =>
    intro k hk
    rcases Nat.lt_succ_iff_lt_or_eq.mp hk with h | h
    · exact ih k h
    · subst h; exact Or.inl h2
  | @sep m h1 h2 h3 ih =>
    intro k hk
    rcases lt_trichotomy k m with h | h | h
    · exact ih k h
    · subst h; exact Or.inr h2
    · have : k = m + 1 := by omega
      subst this; left; push_cast; rw [← add_assoc]; exact h3

theorem ds_chars {lo hi : ℤ} (h : DS ch isdig lo hi) (i : ℤ) (h1 : lo ≤ i) (h2 : i < hi) : isdig (ch i) ∨ ch i = SEP := by
  have := dsn_chars h.2 (i - lo).toNat (by omega)
  rwa [show lo + ((i - lo).toNat : ℤ) = i by omega] at this

theorem dsn_first {lo : ℤ} {n : ℕ} (h : DSn ch isdig lo n) : isdig (ch lo) := by
  induction h with
  | one h => exact h
  | digit _ _ ih => exact ih
  | sep _ _ _ ih => exact ih

theorem ds_first {lo hi : ℤ} (h : DS ch isdig lo hi) : isdig (ch lo) := dsn_first h.2

/-- closure: inside a digit sequence, a prefix is a digit sequence, or one followed by a separator -/
theorem dsn_closure {lo : ℤ} {n : ℕ} (h : DSn ch isdig lo n) : ∀ p : ℕ, 0 < p → p < n →
    (DSn ch isdig lo p ∧ (isdig (ch (lo + p)) ∨ (ch (lo + p) = SEP ∧ p + 1 < n))) ∨
    (∃ m, p = m + 1 ∧ 0 < m ∧ ch (lo + m) = SEP ∧ DSn ch isdig lo m ∧ isdig (ch (lo + p))) := by
  induction h with
  | one h => intro p h1 h2; omega
  | @digit m h1 h2 ih =>
    intro p hp hq
    rcases Nat.lt_succ_iff_lt_or_eq.mp hq with h | h
    · rcases ih p hp h with ⟨a, b | ⟨b, c⟩⟩ | ⟨k, e, a, b, c, d⟩
      · exact Or.inl ⟨a, Or.inl b⟩
      · exact Or.inl ⟨a, Or.inr ⟨b, by omega⟩⟩
      · exact Or.inr ⟨k, e, a, b, c, d⟩
    · subst h; exact Or.inl ⟨h1, Or.inl h2⟩
  | @sep m h1 h2 h3 ih =>
    intro p hp hq
    rcases lt_trichotomy p m with h | h | h
    · rcases ih p hp h with ⟨a, b | ⟨b, c⟩⟩ | ⟨k, e, a, b, c, d⟩
      · exact Or.inl ⟨a, Or.inl b⟩
      · exact Or.inl ⟨a, Or.inr ⟨b, by omega⟩⟩
      · exact Or.inr ⟨k, e, a, b, c, d⟩
    · subst h; exact Or.inl ⟨h1, Or.inr ⟨h2, by omega⟩⟩
    · have : p = m + 1 := by omega
      subst this
      refine Or.inr ⟨m, rfl, h1.pos, h2, h1, ?_⟩
      push_cast; rw [← add_assoc]; exact h3

theorem ds_closure {lo q : ℤ} (h : DS ch isdig lo q) (p : ℤ) (h1 : lo < p) (h2 : p < q) :
    (DS ch isdig lo p ∧ (isdig (ch p) ∨ (ch p = SEP ∧ p + 1 < q))) ∨
    (ch (p - 1) = SEP ∧ lo < p - 1 ∧ DS ch isdig lo (p - 1) ∧ isdig (ch p)) := by
  have e : lo + ((p - lo).toNat : ℤ) = p := by omega
  rcases dsn_closure h.2 (p - lo).toNat (by omega) (by omega) with ⟨a, c | ⟨c, d⟩⟩ | ⟨m, hm, h0, a, c, d⟩
  · rw [e] at c; exact Or.inl ⟨⟨h1, a⟩, Or.inl c⟩
  · rw [e] at c; exact Or.inl ⟨⟨h1, a⟩, Or.inr ⟨c, by omega⟩⟩
  · rw [e] at d
    have em : lo + (m : ℤ) = p - 1 := by omega
    rw [em] at a
    refine Or.inr ⟨a, by omega, ⟨by omega, ?_⟩, d⟩
    rwa [show (p - 1 - lo).toNat = m by omega]

variable (ch digval b)

/-- digit value of [lo, lo + n), separators skipped -/
def NUMn (lo : ℤ) : ℕ → ℤ
  | 0 => 0
  | n + 1 => if ch (lo + n) = SEP then NUMn lo n else b * NUMn lo n + digval (ch (lo + n))

/-- number of characters of [lo, lo + n) other than the separator -/
def CNTn (lo : ℤ) : ℕ → ℤ
  | 0 => 0
  | n + 1 => if ch (lo + n) = SEP then CNTn lo n else CNTn lo n + 1

variable {ch digval b}

theorem num_nonneg (hd : ∀ c, 0 ≤ digval c) (hb : 0 ≤ b) (lo : ℤ) (n : ℕ) : 0 ≤ NUMn ch digval b lo n := by
  induction n with
  | zero => simp [NUMn]
  | succ n ih =>
    unfold NUMn
    split
    · exact ih
    · have := hd (ch (lo + n)); positivity

theorem num_mono1 (hd : ∀ c, 0 ≤ digval c) (hb : 1 ≤ b) (lo : ℤ) (n : ℕ) : NUMn ch digval b lo n ≤ NUMn ch digval b lo (n + 1) := by
  have h0 := num_nonneg (ch := ch) hd (by omega : 0 ≤ b) lo n
  conv_rhs => unfold NUMn
  split
  · exact le_refl _
  · have := hd (ch (lo + n)); nlinarith

theorem num_mono (hd : ∀ c, 0 ≤ digval c) (hb : 1 ≤ b) (lo : ℤ) {m n : ℕ} (h : m ≤ n) : NUMn ch digval b lo m ≤ NUMn ch digval b lo n := by
  induction h with
  | refl => exact le_refl _
  | step _ ih => exact le_trans ih (num_mono1 hd hb lo _)

/-- one step further from inside bounds the whole value -/
theorem num_step (hd : ∀ c, 0 ≤ digval c) (hb : 1 ≤ b) (lo : ℤ) {p q : ℕ} (h : p < q) (hs : ch (lo + p) ≠ SEP) :
    b * NUMn ch digval b lo p + digval (ch (lo + p)) ≤ NUMn ch digval b lo q := by
  have e : NUMn ch digval b lo (p + 1) = b * NUMn ch digval b lo p + digval (ch (lo + p)) := by
    conv_lhs => unfold NUMn
    simp [hs]
  rw [← e]
  exact num_mono hd hb lo h

theorem cnt_bounds (lo : ℤ) (n : ℕ) : 0 ≤ CNTn ch lo n ∧ CNTn ch lo n ≤ n := by
  induction n with
  | zero => simp [CNTn]
  | succ n ih => unfold CNTn; split <;> push_cast <;> omega

theorem cnt_mono (lo : ℤ) {m n : ℕ} (h : m ≤ n) : CNTn ch lo m ≤ CNTn ch lo n := by
  induction h with
  | refl => exact le_refl _
  | step _ ih => refine le_trans ih ?_; conv_rhs => unfold CNTn
                 split <;> omega

/-- first occurrence of c in [lo, lo + n) -/
theorem find_exists (c lo : ℤ) (n : ℕ) : ∃ t : ℤ, lo ≤ t ∧ t ≤ lo + n ∧ (t < lo + n → ch t = c) ∧ ∀ i, lo ≤ i → i < t → ch i ≠ c := by
  induction n with
  | zero => exact ⟨lo, by omega, by omega, fun h => by omega, fun i h1 h2 => by omega⟩
  | succ n ih =>
    obtain ⟨t, h1, h2, h3, h4⟩ := ih
    rcases lt_or_ge t (lo + n) with h | h
    · exact ⟨t, h1, by push_cast; omega, fun _ => h3 h, h4⟩
    · have e : t = lo + n := by omega
      subst e
      by_cases hc : ch (lo + n) = c
      · exact ⟨lo + n, h1, by push_cast; omega, fun _ => hc, h4⟩
      · refine ⟨lo + n + 1, by omega, by push_cast; omega, fun h => by push_cast at h; omega, fun i a b => ?_⟩
        rcases lt_or_ge i (lo + n) with h5 | h5
        · exact h4 i a h5
        · have : i = lo + n := by omega
          rw [this]; exact hc

end strings

end Ieme

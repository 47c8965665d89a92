/-
The string and list lemmas that dv/smt.py instantiates, proved about definitions of the CPython
operations over lists of characters (α: any type with decidable equality, so also lists of values).
dv/selftest.py tests the same instances against CPython itself.
-/
set_option linter.all false
set_option linter.unusedSectionVars false
set_option linter.unusedSimpArgs false
namespace Dv
variable {α : Type} [DecidableEq α]

/-- `c in s` -/
def Contains (c s : List α) : Prop := ∃ a b, s = a ++ c ++ b

/-- `sep.join(xs)` -/
def join (sep : List α) : List (List α) → List α
  | [] => []
  | [x] => x
  | x :: y :: r => x ++ sep ++ join sep (y :: r)

/-- the text before and after the first occurrence of c -/
def cut (c : List α) : List α → Option (List α × List α)
  | [] => if c = [] then some ([], []) else none
  | x :: s => if c.isPrefixOf (x :: s) then some ([], (x :: s).drop c.length)
              else (cut c s).map fun p => (x :: p.1, p.2)

/-! ### first occurrence -/

theorem cut_some {c s h t : List α} (e : cut c s = some (h, t)) : s = h ++ c ++ t := by
  induction s generalizing h t with
  | nil =>
    simp only [cut] at e
    split at e
    · next hc => simp_all
    · cases e
  | cons x s ih =>
    simp only [cut] at e
    split at e
    · next hp =>
      simp only [Option.some.injEq, Prod.mk.injEq] at e
      obtain ⟨rfl, rfl⟩ := e
      have := List.isPrefixOf_iff_prefix.mp hp
      obtain ⟨r, hr⟩ := this
      rw [← hr]; simp
    · cases hc : cut c s with
      | none => simp [hc] at e
      | some p =>
        obtain ⟨h', t'⟩ := p
        simp only [hc, Option.map_some, Option.some.injEq, Prod.mk.injEq] at e
        obtain ⟨rfl, rfl⟩ := e
        rw [ih hc]; simp

theorem cut_none {c s : List α} (e : cut c s = none) : ¬ Contains c s := by
  induction s with
  | nil =>
    simp only [cut] at e
    split at e
    · cases e
    · next hc =>
      rintro ⟨a, b, h⟩
      have : c = [] := by
        have h2 := congrArg List.length h
        simp at h2
        exact List.eq_nil_of_length_eq_zero (by omega)
      exact hc this
  | cons x s ih =>
    simp only [cut] at e
    split at e
    · cases e
    · next hp =>
      cases hc : cut c s with
      | some p => simp [hc] at e
      | none =>
        rintro ⟨a, b, h⟩
        cases a with
        | nil =>
          apply hp
          rw [List.isPrefixOf_iff_prefix]
          exact ⟨b, by simpa using h.symm⟩
        | cons y a =>
          simp at h
          exact ih hc ⟨a, b, by simp [h.2]⟩

theorem cut_isSome {c s : List α} : Contains c s ↔ ∃ h t, cut c s = some (h, t) := by
  constructor
  · intro hc
    cases e : cut c s with
    | none => exact absurd hc (cut_none e)
    | some p => exact ⟨p.1, p.2, rfl⟩
  · rintro ⟨h, t, e⟩
    exact ⟨h, t, cut_some e⟩

/-- no occurrence ends before the first one does: in particular h is free of c -/
theorem cut_first {c s h t : List α} (hc : c ≠ []) (e : cut c s = some (h, t)) : ¬ Contains c h := by
  induction s generalizing h t with
  | nil => simp [cut, hc] at e
  | cons x s ih =>
    simp only [cut] at e
    split at e
    · simp only [Option.some.injEq, Prod.mk.injEq] at e
      obtain ⟨rfl, rfl⟩ := e
      rintro ⟨a, b, h⟩
      have h2 := congrArg List.length h
      simp at h2
      exact hc (List.eq_nil_of_length_eq_zero (by omega))
    · next hp =>
      cases hs : cut c s with
      | none => simp [hs] at e
      | some p =>
        obtain ⟨h', t'⟩ := p
        simp only [hs, Option.map_some, Option.some.injEq, Prod.mk.injEq] at e
        obtain ⟨rfl, rfl⟩ := e
        rintro ⟨a, b, hh⟩
        cases a with
        | nil =>
          apply hp
          rw [List.isPrefixOf_iff_prefix]
          have := cut_some hs
          refine ⟨b ++ c ++ t', ?_⟩
          rw [this]
          simp at hh
          rw [← List.cons_append, ← List.cons_append, hh]; simp
        | cons y a =>
          simp at hh
          exact ih hs ⟨a, b, by simp [hh.2]⟩

/-! ### split -/

theorem cut_shorter {c s h t : List α} (hc : c ≠ []) (e : cut c s = some (h, t)) : t.length < s.length := by
  have := congrArg List.length (cut_some e)
  simp at this
  have : c.length ≠ 0 := fun z => hc (List.eq_nil_of_length_eq_zero z)
  omega

/-- `s.split(c)`; the empty separator is an error in Python -/
def splitN (c : List α) : Nat → List α → List (List α)
  | 0, s => [s]
  | n + 1, s => match cut c s with
    | none => [s]
    | some (h, t) => h :: splitN c n t

def split (s c : List α) : List (List α) := splitN c s.length s

theorem splitN_enough {c : List α} (hc : c ≠ []) : ∀ (n m : Nat) (s : List α), s.length ≤ n → s.length ≤ m → splitN c n s = splitN c m s := by
  intro n
  induction n with
  | zero =>
    intro m s h1 h2
    have : s = [] := List.eq_nil_of_length_eq_zero (by omega)
    subst this
    cases m <;> simp [splitN, cut, hc]
  | succ n ih =>
    intro m s h1 h2
    cases m with
    | zero =>
      have : s = [] := List.eq_nil_of_length_eq_zero (by omega)
      subst this
      simp [splitN, cut, hc]
    | succ m =>
      simp only [splitN]
      cases e : cut c s with
      | none => rfl
      | some p =>
        obtain ⟨h, t⟩ := p
        have := cut_shorter hc e
        simp only
        rw [ih m t (by omega) (by omega)]

theorem split_none {s c : List α} (e : cut c s = none) : split s c = [s] := by
  unfold split
  cases s.length <;> simp [splitN, e]

theorem split_some {s c h t : List α} (hc : c ≠ []) (e : cut c s = some (h, t)) : split s c = h :: split t c := by
  unfold split
  have := cut_shorter hc e
  cases hn : s.length with
  | zero => omega
  | succ n =>
    simp only [splitN, e]
    rw [splitN_enough hc n t.length t (by omega) (by omega)]

/-- induction along the pieces of a split -/
theorem split_induction {c : List α} (hc : c ≠ []) {P : List α → Prop}
    (one : ∀ s, cut c s = none → P s) (more : ∀ s h t, cut c s = some (h, t) → P t → P s) : ∀ s, P s := by
  intro s
  generalize hn : s.length = n
  induction n using Nat.strongRecOn generalizing s with
  | ind n ih =>
    cases e : cut c s with
    | none => exact one s e
    | some p =>
      obtain ⟨h, t⟩ := p
      exact more s h t e (ih t.length (by have := cut_shorter hc e; omega) t rfl)

theorem split_ne_nil {s c : List α} (hc : c ≠ []) : split s c ≠ [] := by
  cases e : cut c s with
  | none => simp [split_none e]
  | some p => obtain ⟨h, t⟩ := p; simp [split_some hc e]

theorem split_shape_length {s c : List α} (hc : c ≠ []) : 1 ≤ (split s c).length := by
  have := split_ne_nil (s := s) hc
  cases h : split s c with
  | nil => exact absurd h this
  | cons => simp

theorem split_shape_absent {s c : List α} (h : ¬ Contains c s) : split s c = [s] := by
  apply split_none
  cases e : cut c s with
  | none => rfl
  | some p => exact absurd (cut_isSome.mpr ⟨_, _, e⟩) h

theorem split_shape_free {c : List α} (hc : c ≠ []) (s : List α) : ∀ x ∈ split s c, ¬ Contains c x := by
  induction s using split_induction hc with
  | one s e => rw [split_none e]; simp; exact cut_none e
  | more s h t e ih =>
    rw [split_some hc e]
    intro x hx
    rcases List.mem_cons.mp hx with rfl | hx
    · exact cut_first hc e
    · exact ih x hx

theorem join_cons {sep x : List α} {r : List (List α)} (h : r ≠ []) : join sep (x :: r) = x ++ sep ++ join sep r := by
  cases r with
  | nil => exact absurd rfl h
  | cons y r => rfl

theorem split_join {c : List α} (hc : c ≠ []) (s : List α) : join c (split s c) = s := by
  induction s using split_induction hc with
  | one s e => rw [split_none e]; rfl
  | more s h t e ih =>
    rw [split_some hc e, join_cons (split_ne_nil hc), ih, ← cut_some e]

/-- split.head: the first piece and the rest -/
theorem split_head {c s : List α} (hc : c ≠ []) (hs : Contains c s) :
    ∃ h t, cut c s = some (h, t) ∧ (split s c).head? = some h ∧ (split s c).tail = split t c ∧
      join c (split s c).tail = t ∧ s = h ++ c ++ t ∧ ¬ Contains c h := by
  obtain ⟨h, t, e⟩ := cut_isSome.mp hs
  exact ⟨h, t, e, by simp [split_some hc e], by simp [split_some hc e], by simp [split_some hc e, split_join hc], cut_some e, cut_first hc e⟩

theorem split_one_iff {c s : List α} (hc : c ≠ []) : (split s c).length = 1 ↔ ¬ Contains c s := by
  constructor
  · intro h hs
    obtain ⟨a, t, e⟩ := cut_isSome.mp hs
    rw [split_some hc e] at h
    have := split_shape_length (s := t) hc
    simp at h
    rw [h] at this
    simp at this
  · intro h
    simp [split_shape_absent h]

/-- whatever the split is, it is its head and the join of its tail -/
theorem split_decomposition {c s : List α} (hc : c ≠ []) :
    ∃ h T, split s c = h :: T ∧ s = if T = [] then h else h ++ c ++ join c T := by
  cases e : cut c s with
  | none => exact ⟨s, [], split_none e, by simp⟩
  | some p =>
    obtain ⟨h, t⟩ := p
    refine ⟨h, split t c, split_some hc e, ?_⟩
    rw [if_neg (split_ne_nil hc), split_join hc]
    exact cut_some e

/-- find: `s.find(c)` is the length of the text before the first occurrence -/
def find (c s : List α) : Option Nat := (cut c s).map fun p => p.1.length

theorem find_some {c s : List α} (hc : c ≠ []) (hs : Contains c s) :
    ∃ i, find c s = some i ∧ s = s.take i ++ c ++ s.drop (i + c.length) ∧ ¬ Contains c (s.take i) := by
  obtain ⟨h, t, e⟩ := cut_isSome.mp hs
  refine ⟨h.length, by simp [find, e], ?_, ?_⟩
  · have := cut_some e
    rw [this]
    simp [List.append_assoc, List.drop_append]
  · rw [cut_some e]
    simpa [List.append_assoc] using cut_first hc e

theorem find_none {c s : List α} (hs : ¬ Contains c s) : find c s = none := by
  cases e : cut c s with
  | none => simp [find, e]
  | some p => exact absurd (cut_isSome.mpr ⟨_, _, e⟩) hs

/-! ### join -/

theorem join_append {sep : List α} {xs ys : List (List α)} (hx : xs ≠ []) (hy : ys ≠ []) :
    join sep (xs ++ ys) = join sep xs ++ sep ++ join sep ys := by
  induction xs with
  | nil => exact absurd rfl hx
  | cons x xs ih =>
    cases xs with
    | nil => simp [join_cons hy, join]
    | cons y r =>
      have hn : y :: r ++ ys ≠ [] := by simp
      have h2 : join sep (x :: y :: r) = x ++ sep ++ join sep (y :: r) := rfl
      rw [List.cons_append, join_cons hn, ih (by simp), h2]
      simp only [List.append_assoc]

theorem join_snoc {sep x : List α} {xs : List (List α)} :
    join sep (xs ++ [x]) = if xs = [] then x else join sep xs ++ sep ++ x := by
  split
  · next h => subst h; rfl
  · next h => rw [join_append h (by simp)]; rfl

theorem join_empty_append {xs ys : List (List α)} : join [] (xs ++ ys) = join [] xs ++ join [] ys := by
  by_cases hx : xs = []
  · subst hx; simp [join]
  by_cases hy : ys = []
  · subst hy; simp [join]
  rw [join_append hx hy]; simp

theorem contains_one {c : α} {s : List α} : Contains [c] s ↔ c ∈ s := by
  constructor
  · rintro ⟨a, b, rfl⟩; simp
  · intro h
    obtain ⟨a, b, rfl⟩ := List.append_of_mem h
    exact ⟨a, b, by simp⟩

theorem mem_join {c : α} {sep : List α} {xs : List (List α)} : c ∈ join sep xs → c ∈ sep ∨ ∃ x ∈ xs, c ∈ x := by
  induction xs with
  | nil => intro h; exact absurd h (by simp [join])
  | cons x r ih =>
    cases r with
    | nil => intro h; exact Or.inr ⟨x, by simp, h⟩
    | cons y r =>
      intro h
      rw [join_cons (by simp)] at h
      simp only [List.mem_append] at h
      rcases h with (h | h) | h
      · exact Or.inr ⟨x, by simp, h⟩
      · exact Or.inl h
      · rcases ih h with h | ⟨z, hz, h⟩
        · exact Or.inl h
        · exact Or.inr ⟨z, List.mem_cons_of_mem _ hz, h⟩

theorem join_free {c : α} {sep : List α} {xs : List (List α)} (hs : ¬ Contains [c] sep) (hx : ∀ x ∈ xs, ¬ Contains [c] x) :
    ¬ Contains [c] (join sep xs) := by
  simp only [contains_one] at *
  intro h
  rcases mem_join h with h | ⟨x, hx', h⟩
  · exact hs h
  · exact hx x hx' h

/-! ### replace -/

/-- `s.replace(x, y)` (x not empty): the pieces between the occurrences, joined by y -/
def replace (s x y : List α) : List α := join y (split s x)

theorem replace_absent {s x y : List α} (h : ¬ Contains x s) : replace s x y = s := by
  simp [replace, split_shape_absent h, join]

theorem replace_removed {s y : List α} {c : α} (h : ¬ Contains [c] y) : ¬ Contains [c] (replace s [c] y) := by
  exact join_free h (split_shape_free (by simp) s)

theorem replace_step {s x y h t : List α} (hx : x ≠ []) (e : cut x s = some (h, t)) : replace s x y = h ++ y ++ replace t x y := by
  simp only [replace]
  rw [split_some hx e, join_cons (split_ne_nil hx)]

theorem replace_nil {x y : List α} (hx : x ≠ []) : replace [] x y = [] := by
  rw [replace_absent]
  rintro ⟨p, q, e⟩
  simp_all

theorem replace_copies {y : List α} {c : α} (n : Nat) : replace (List.replicate n c) [c] y = (List.replicate n y).flatten := by
  induction n with
  | zero => simpa using replace_nil (x := [c]) (y := y) (by simp)
  | succ n ih =>
    have e : cut [c] (List.replicate (n + 1) c) = some ([], List.replicate n c) := by
      simp [List.replicate_succ, cut, List.isPrefixOf]
    rw [replace_step (by simp) e, ih]
    simp [List.replicate_succ]

theorem replace_shrinks_le {s x y : List α} (hx : x ≠ []) (h : y.length < x.length) : (replace s x y).length ≤ s.length := by
  induction s using split_induction hx with
  | one s e => rw [replace_absent (cut_none e)]; omega
  | more s a t e ih =>
    rw [replace_step hx e]
    have := congrArg List.length (cut_some e)
    simp at this ⊢
    omega

theorem replace_shrinks {s x y : List α} (hx : x ≠ []) (h : y.length < x.length) (hs : Contains x s) : (replace s x y).length < s.length := by
  obtain ⟨a, t, e⟩ := cut_isSome.mp hs
  rw [replace_step hx e]
  have h1 := congrArg List.length (cut_some e)
  have h2 := replace_shrinks_le (s := t) hx h
  simp at h1 ⊢
  omega

theorem replace_same_iff {s x y : List α} (hx : x ≠ []) (h : y.length < x.length) : replace s x y = s ↔ ¬ Contains x s := by
  constructor
  · intro e hs
    have := replace_shrinks hx h hs
    rw [e] at this
    omega
  · exact replace_absent

/-- replacing strings without the character c neither makes nor removes a c -/
theorem replace_keeps {s x y : List α} {c : α} (hx : x ≠ []) (h1 : c ∉ x) (h2 : c ∉ y) : Contains [c] (replace s x y) ↔ Contains [c] s := by
  induction s using split_induction hx with
  | one s e => rw [replace_absent (cut_none e)]
  | more s a t e ih =>
    rw [replace_step hx e]
    rw [contains_one, contains_one] at *
    rw [cut_some e]
    simp only [List.mem_append, ih, h1, h2, or_false]

/-! ### repeat -/

/-- `s * n` -/
def rep (s : List α) (n : Int) : List α := (List.replicate n.toNat s).flatten

theorem rep_neg {s : List α} {n : Int} (h : n ≤ 0) : rep s n = [] := by
  have : n.toNat = 0 := by omega
  simp [rep, this]

theorem replace_run {s y : List α} {c : α} (h : s = rep [c] s.length) : replace s [c] y = rep y s.length := by
  have e : rep [c] s.length = List.replicate s.length c := by
    simp [rep, List.flatten_replicate_singleton]
  rw [e] at h
  rw [h, replace_copies]
  simp [rep]

theorem rep_one {s : List α} : rep s 1 = s := by simp [rep]

theorem rep_succ {s : List α} {n : Int} (h : 0 ≤ n) : rep s (n + 1) = s ++ rep s n := by
  have : (n + 1).toNat = n.toNat + 1 := by omega
  simp [rep, this, List.replicate_succ]

theorem rep_succ' {s : List α} {n : Int} (h : 0 ≤ n) : rep s (n + 1) = rep s n ++ s := by
  have : (n + 1).toNat = n.toNat + 1 := by omega
  simp [rep, this, List.replicate_succ']

theorem replicate_add {β : Type} (a b : Nat) (x : β) : List.replicate (a + b) x = List.replicate a x ++ List.replicate b x := by
  rw [List.replicate_append_replicate]

theorem rep_add {s : List α} {m j : Int} (hm : 0 ≤ m) (hj : 0 ≤ j) : rep s (m + j) = rep s m ++ rep s j := by
  have : (m + j).toNat = m.toNat + j.toNat := by omega
  rw [rep, this, replicate_add, List.flatten_append]; rfl

theorem rep_comm {s : List α} {m j : Int} (hm : 0 ≤ m) (hj : 0 ≤ j) : rep s m ++ rep s j = rep s j ++ rep s m := by
  rw [← rep_add hm hj, ← rep_add hj hm, Int.add_comm]

theorem rep_length {s : List α} {n : Int} : ((rep s n).length : Int) = if n ≤ 0 then 0 else n * s.length := by
  simp only [rep, List.length_flatten, List.map_replicate, List.sum_replicate_nat]
  split
  · next h =>
    have : n.toNat = 0 := by omega
    simp [this]
  · next h =>
    have : ((n.toNat : Nat) : Int) = n := by omega
    simp [this]

theorem flatten_replicate_mul (s : List α) (m n : Nat) :
    (List.replicate n (List.replicate m s).flatten).flatten = (List.replicate (m * n) s).flatten := by
  induction n with
  | zero => simp
  | succ n ih =>
    rw [List.replicate_succ, List.flatten_cons, ih, Nat.mul_succ, Nat.add_comm, replicate_add, List.flatten_append]

theorem rep_mul {s : List α} {m n : Int} (hm : 0 ≤ m) (hn : 0 ≤ n) : rep (rep s m) n = rep s (m * n) := by
  have : (m * n).toNat = m.toNat * n.toNat := Int.toNat_mul hm hn
  simp only [rep, this]
  exact flatten_replicate_mul s m.toNat n.toNat

/-- x + (y + x) * n == (x + y) * n + x -/
theorem rep_rotate {x y : List α} {n : Int} : x ++ rep (y ++ x) n = rep (x ++ y) n ++ x := by
  simp only [rep]
  induction n.toNat with
  | zero => simp
  | succ k ih =>
    rw [List.replicate_succ', List.flatten_append, ← List.append_assoc, ih, List.replicate_succ', List.flatten_append]
    simp [List.append_assoc]

theorem mem_rep {c : α} {s : List α} {n : Int} (h : c ∈ rep s n) : c ∈ s := by
  simp only [rep, List.mem_flatten, List.mem_replicate] at h
  obtain ⟨l, ⟨_, rfl⟩, h⟩ := h
  exact h

theorem rep_free {c : α} {s : List α} {n : Int} (h : c ∉ s) : ¬ Contains [c] (rep s n) := by
  rw [contains_one]; exact fun h' => h (mem_rep h')

theorem rep_char {c : α} {n : Int} : rep [c] n = List.replicate n.toNat c := by
  simp [rep]

/-- a run that goes on -/
theorem rep_prefix_step {c : α} {s : List α} {m : Int} (hm : 0 ≤ m) (hp : rep [c] m <+: s)
    (hn : (s.drop m.toNat).take 1 = [c]) : rep [c] (m + 1) <+: s := by
  obtain ⟨r, rfl⟩ := hp
  rw [rep_succ' hm]
  have hl : (rep [c] m).length = m.toNat := by simp [rep_char]
  rw [← hl, List.drop_left] at hn
  cases r with
  | nil => simp at hn
  | cons y r =>
    simp at hn
    subst hn
    exact ⟨r, by simp⟩

/-- list repetition and join -/
theorem join_replicate {sep x : List α} {n : Int} (h : 1 ≤ n) :
    join sep (List.replicate n.toNat x) = rep (x ++ sep) (n - 1) ++ x := by
  have : ∃ k, n.toNat = k + 1 ∧ (n - 1).toNat = k := ⟨n.toNat - 1, by omega, by omega⟩
  obtain ⟨k, hk, hk'⟩ := this
  simp only [rep, hk, hk']
  clear hk hk' h
  induction k with
  | zero => simp [join]
  | succ k ih =>
    rw [List.replicate_succ, join_cons (by simp), ih, List.replicate_succ (n := k), List.flatten_cons]
    simp [List.append_assoc]

theorem join_empty_replicate {x : List α} {n : Int} : join [] (List.replicate n.toNat x) = rep x n := by
  simp only [rep]
  induction n.toNat with
  | zero => simp [join]
  | succ k ih =>
    rw [List.replicate_succ, List.flatten_cons, ← ih]
    cases k with
    | zero => simp [join]
    | succ k => rw [List.replicate_succ, join_cons (by simp)]; simp

/-! ### strip -/

def lstrip (p : α → Bool) (s : List α) : List α := s.dropWhile p
def rstrip (p : α → Bool) (s : List α) : List α := (s.reverse.dropWhile p).reverse
def strip (p : α → Bool) (s : List α) : List α := rstrip p (lstrip p s)

theorem lstrip_suffix (p : α → Bool) (s : List α) : lstrip p s <:+ s := List.dropWhile_suffix p

theorem rstrip_prefix (p : α → Bool) (s : List α) : rstrip p s <+: s := by
  obtain ⟨a, ha⟩ := List.dropWhile_suffix p (l := s.reverse)
  exact ⟨a.reverse, by rw [rstrip, ← List.reverse_append, ha, List.reverse_reverse]⟩

theorem strip_infix (p : α → Bool) (s : List α) : Contains (strip p s) s := by
  obtain ⟨a, ha⟩ := lstrip_suffix p s
  obtain ⟨b, hb⟩ := rstrip_prefix p (lstrip p s)
  exact ⟨a, b, by rw [strip, List.append_assoc, hb, ha]⟩

theorem lstrip_length (p : α → Bool) (s : List α) : (lstrip p s).length ≤ s.length := (lstrip_suffix p s).length_le
theorem rstrip_length (p : α → Bool) (s : List α) : (rstrip p s).length ≤ s.length := (rstrip_prefix p s).length_le
theorem strip_length (p : α → Bool) (s : List α) : (strip p s).length ≤ s.length :=
  Nat.le_trans (rstrip_length p _) (lstrip_length p s)

theorem lstrip_nil_iff (p : α → Bool) (s : List α) : lstrip p s = [] ↔ ∀ x ∈ s, p x := by
  induction s with
  | nil => simp [lstrip]
  | cons x s ih =>
    simp only [lstrip, List.dropWhile_cons] at *
    split
    · next h => simp [ih, h]
    · next h => simp [h]

theorem rstrip_nil_iff (p : α → Bool) (s : List α) : rstrip p s = [] ↔ ∀ x ∈ s, p x := by
  have := lstrip_nil_iff p s.reverse
  simp only [lstrip] at this
  simp [rstrip, this]

theorem lstrip_idem (p : α → Bool) (s : List α) : lstrip p (lstrip p s) = lstrip p s := by
  induction s with
  | nil => rfl
  | cons x s ih =>
    simp only [lstrip, List.dropWhile_cons] at *
    split
    · exact ih
    · next h => simp [h]

theorem rstrip_idem (p : α → Bool) (s : List α) : rstrip p (rstrip p s) = rstrip p s := by
  have := lstrip_idem p s.reverse
  simp only [lstrip] at this
  simp [rstrip, this]

theorem strip_nil_iff (p : α → Bool) (s : List α) : strip p s = [] ↔ lstrip p s = [] := by
  constructor
  · intro h
    rw [strip, rstrip_nil_iff] at h
    rw [← lstrip_idem, lstrip_nil_iff]
    exact h
  · intro h
    rw [strip, h]
    rfl

theorem strip_nil_iff_rstrip (p : α → Bool) (s : List α) : strip p s = [] ↔ rstrip p s = [] := by
  rw [strip_nil_iff, lstrip_nil_iff, rstrip_nil_iff]

theorem lstrip_head (p : α → Bool) (s : List α) : ∀ x r, lstrip p s = x :: r → p x = false := by
  induction s with
  | nil => intro x r h; simp [lstrip] at h
  | cons y s ih =>
    intro x r h
    simp only [lstrip, List.dropWhile_cons] at h
    split at h
    · exact ih x r h
    · next hy => simp at h; rw [← h.1]; simpa using hy

theorem lstrip_fix {p : α → Bool} {s : List α} (h : ∀ x r, s = x :: r → p x = false) : lstrip p s = s := by
  cases s with
  | nil => rfl
  | cons x r => simp [lstrip, List.dropWhile_cons, h x r rfl]

theorem strip_idem (p : α → Bool) (s : List α) : strip p (strip p s) = strip p s := by
  have : lstrip p (strip p s) = strip p s := by
    apply lstrip_fix
    intro x r h
    obtain ⟨b, hb⟩ := rstrip_prefix p (lstrip p s)
    rw [← strip, h] at hb
    exact lstrip_head p s x (r ++ b) (by rw [← hb]; simp)
  rw [strip, this, strip, rstrip_idem]

/-! ### stripping one character -/

def isc (c : α) : α → Bool := fun x => decide (x = c)

theorem lstrip_char_cons (c : α) (x : List α) : lstrip (isc c) (c :: x) = lstrip (isc c) x := by
  simp [lstrip, isc]

theorem lstrip_other_cons {c y : α} (h : y ≠ c) (x : List α) : lstrip (isc c) (y :: x) = y :: x := by
  simp [lstrip, isc, h]

theorem lstrip_char_run (c : α) (s : List α) : s = rep [c] (s.length - (lstrip (isc c) s).length) ++ lstrip (isc c) s := by
  induction s with
  | nil => simp [lstrip, rep]
  | cons x s ih =>
    have hl := lstrip_length (isc c) s
    by_cases h : x = c
    · subst h
      rw [lstrip_char_cons]
      have e : (((x :: s).length : Nat) : Int) - ((lstrip (isc x) s).length : Int)
          = ((s.length : Int) - ((lstrip (isc x) s).length : Int)) + 1 := by
        simp only [List.length_cons]; omega
      rw [e, rep_succ (by omega)]
      rw [List.append_assoc, ← ih]; rfl
    · rw [lstrip_other_cons h]; simp [rep]

theorem lstrip_char_run_length (c : α) (s : List α) :
    ((rep [c] (s.length - (lstrip (isc c) s).length)).length : Int) = s.length - (lstrip (isc c) s).length := by
  have := lstrip_length (isc c) s
  rw [rep_length]
  simp only [List.length_cons, List.length_nil]; split <;> omega

theorem lstrip_char_same_iff (c : α) (s : List α) : lstrip (isc c) s = s ↔ ¬ [c] <+: s := by
  constructor
  · rintro h ⟨r, rfl⟩
    have := lstrip_head (isc c) _ c r (by rw [h]; rfl)
    simp [isc] at this
  · intro h
    apply lstrip_fix
    rintro x r rfl
    simp only [isc, decide_eq_false_iff_not]
    rintro rfl
    exact h ⟨r, rfl⟩

theorem rstrip_char_same_iff (c : α) (s : List α) : rstrip (isc c) s = s ↔ ¬ [c] <:+ s := by
  have := lstrip_char_same_iff c s.reverse
  simp only [lstrip] at this
  rw [rstrip]
  constructor
  · intro h ⟨r, hr⟩
    apply this.mp (by rw [← List.reverse_reverse (List.dropWhile _ _), h])
    exact ⟨r.reverse, by rw [← hr]; simp⟩
  · intro h
    rw [this.mpr, List.reverse_reverse]
    rintro ⟨r, hr⟩
    exact h ⟨r.reverse, by rw [← List.reverse_reverse s, ← hr]; simp⟩

theorem rstrip_char_snoc (c : α) (x : List α) : rstrip (isc c) (x ++ [c]) = rstrip (isc c) x := by
  simp [rstrip, isc]

/-- counted_run: n copies of c begin s, and then s ends or goes on differently -/
theorem counted_run {c : α} {s : List α} {n : Int} (h0 : 0 ≤ n) (hp : rep [c] n <+: s)
    (hn : n = s.length ∨ (s.drop n.toNat).take 1 ≠ [c]) : lstrip (isc c) s = s.drop n.toNat := by
  obtain ⟨r, rfl⟩ := hp
  have hl : (rep [c] n).length = n.toNat := by simp [rep_char]
  have hd : (rep [c] n ++ r).drop n.toNat = r := by rw [← hl, List.drop_left]
  rw [hd] at hn
  rw [hd]
  have hr : lstrip (isc c) r = r := by
    rw [lstrip_char_same_iff]
    rintro ⟨q, rfl⟩
    rcases hn with h | h
    · simp [hl] at h; omega
    · exact h (by simp)
  rw [rep_char]
  clear hd hl hn h0
  induction n.toNat with
  | zero => simpa using hr
  | succ k ih => rw [List.replicate_succ, List.cons_append, lstrip_char_cons, ih]

/-! ### reverse, index, membership -/

theorem reverse_length (xs : List α) : xs.reverse.length = xs.length := List.length_reverse
theorem reverse_append (xs ys : List α) : (xs ++ ys).reverse = ys.reverse ++ xs.reverse := List.reverse_append
theorem reverse_nth (xs : List α) (k : Nat) (h : k < xs.length) : xs.reverse[k]? = xs[xs.length - 1 - k]? :=
  List.getElem?_reverse h

/-- `xs.index(x)` -/
def index (x : α) : List α → Nat
  | [] => 0
  | y :: r => if y = x then 0 else index x r + 1

theorem index_of (xs : List α) (x : α) (h : x ∈ xs) :
    xs[index x xs]? = some x ∧ x ∉ xs.take (index x xs) := by
  induction xs with
  | nil => simp at h
  | cons y xs ih =>
    by_cases hy : y = x
    · simp [index, hy]
    · have hx : x ∈ xs := by
        rcases List.mem_cons.mp h with h | h
        · exact absurd h.symm hy
        · exact h
      obtain ⟨h1, h2⟩ := ih hx
      refine ⟨by simp [index, hy, h1], ?_⟩
      simp only [index, hy, if_false, List.take_succ_cons, List.mem_cons, not_or]
      exact ⟨fun e => hy e.symm, h2⟩

theorem member_append (x : α) (xs ys : List α) : x ∈ xs ++ ys ↔ x ∈ xs ∨ x ∈ ys := List.mem_append
theorem member_nth (xs : List α) (k : Nat) (h : k < xs.length) : xs[k] ∈ xs := List.getElem_mem h
theorem member_witness (x : α) (xs : List α) (h : x ∈ xs) : ∃ i, ∃ h : i < xs.length, xs[i] = x := List.mem_iff_getElem.mp h

/-! ### collapse: every run of three or more newlines becomes two -/

/-- k newlines have just been written -/
def col (nl : α) : Nat → List α → List α
  | _, [] => []
  | k, x :: s => if x = nl then (if 2 ≤ k then col nl k s else x :: col nl (k + 1) s) else x :: col nl 0 s

def collapse (nl : α) (s : List α) : List α := col nl 0 s

theorem col_length (nl : α) (k : Nat) (s : List α) : (col nl k s).length ≤ s.length := by
  induction s generalizing k with
  | nil => simp [col]
  | cons x s ih =>
    simp only [col]
    split
    · split
      · have := ih k; simp; omega
      · have := ih (k + 1); simp; omega
    · have := ih 0; simp; omega

theorem collapse_length (nl : α) (s : List α) : (collapse nl s).length ≤ s.length := col_length nl 0 s

/-- n newlines in front of s -/
def nls (nl : α) (n : Nat) : List α := List.replicate n nl

theorem contains_cons {c s : List α} {x : α} (h : Contains c s) : Contains c (x :: s) := by
  obtain ⟨a, b, rfl⟩ := h
  exact ⟨x :: a, b, by simp⟩

/-- what is written after k newlines, together with those, has no three in a row -/
theorem col_free (nl : α) (k : Nat) (hk : k ≤ 2) (s : List α) : ¬ Contains (nls nl 3) (nls nl k ++ col nl k s) := by
  induction s generalizing k with
  | nil =>
    rintro ⟨a, b, h⟩
    have := congrArg List.length h
    simp [col, nls] at this
    omega
  | cons x s ih =>
    simp only [col]
    split
    · next hx =>
      subst hx
      split
      · exact ih k hk
      · have e : nls x k ++ x :: col x (k + 1) s = nls x (k + 1) ++ col x (k + 1) s := by
          simp [nls, List.replicate_succ']
        rw [e]
        exact ih (k + 1) (by omega)
    · next hx =>
      have base := ih 0 (by omega)
      simp only [nls, List.replicate_zero, List.nil_append] at base
      -- an occurrence lies before or after x, since x is no newline
      rintro ⟨a, b, h⟩
      have : ∀ (k : Nat) (a : List α), k ≤ 2 → nls nl k ++ x :: col nl 0 s = a ++ nls nl 3 ++ b → False := by
        intro k
        induction k with
        | zero =>
          intro a _ h
          simp only [nls, List.replicate_zero, List.nil_append] at h
          cases a with
          | nil => simp [List.replicate_succ] at h; exact hx h.1
          | cons y a => simp at h; exact base ⟨a, b, by simp [h.2]⟩
        | succ k ih2 =>
          intro a hk h
          cases a with
          | nil =>
            match k, hk with
            | 0, _ => simp [nls, List.replicate_succ] at h; exact hx h.1
            | 1, _ => simp [nls, List.replicate_succ] at h; exact hx h.1
          | cons y a =>
            simp [nls, List.replicate_succ] at h
            exact ih2 a (by omega) (by simp [nls, List.replicate_succ, h.2])
      exact this k a hk h

theorem collapse_free (nl : α) (s : List α) : ¬ Contains (nls nl 3) (collapse nl s) := by
  simpa [nls, collapse] using col_free nl 0 (by omega) s

theorem col_same (nl : α) (k : Nat) (hk : k ≤ 2) (s : List α) (h : ¬ Contains (nls nl 3) (nls nl k ++ s)) : col nl k s = s := by
  induction s generalizing k with
  | nil => rfl
  | cons x s ih =>
    simp only [col]
    split
    · next hx =>
      subst hx
      split
      · next h2 =>
        have : k = 2 := by omega
        subst this
        exact absurd ⟨[], s, by simp [nls, List.replicate_succ]⟩ h
      · next h2 =>
        rw [ih (k + 1) (by omega)]
        have e : nls x (k + 1) ++ s = nls x k ++ x :: s := by simp [nls, List.replicate_succ']
        rwa [e]
    · next hx =>
      rw [ih 0 (by omega)]
      simp only [nls, List.replicate_zero, List.nil_append]
      intro hc
      apply h
      obtain ⟨a, b, rfl⟩ := hc
      exact ⟨nls nl k ++ x :: a, b, by simp [nls, List.append_assoc]⟩

theorem collapse_same (nl : α) (s : List α) (h : ¬ Contains (nls nl 3) s) : collapse nl s = s :=
  col_same nl 0 (by omega) s (by simpa [nls] using h)

theorem collapse_nil (nl : α) : collapse nl [] = [] := rfl

/-- three newlines or two: the same from then on -/
theorem col_three (nl : α) (k : Nat) (t : List α) : col nl k (nls nl 3 ++ t) = col nl k (nls nl 2 ++ t) := by
  simp only [nls, List.replicate_succ, List.replicate_zero, List.cons_append, List.nil_append, col, if_true]
  by_cases h : 2 ≤ k
  · simp [h]
  · match k with
    | 0 => simp
    | 1 => simp
    | (k + 2) => omega

theorem col_append_congr (nl : α) (h u v : List α) (e : ∀ k, col nl k u = col nl k v) (k : Nat) : col nl k (h ++ u) = col nl k (h ++ v) := by
  induction h generalizing k with
  | nil => exact e k
  | cons x h ih =>
    simp only [List.cons_append, col]
    rw [ih, ih, ih]

theorem col_replace (nl : α) (s : List α) : ∀ k, col nl k (replace s (nls nl 3) (nls nl 2)) = col nl k s := by
  have hx : nls nl 3 ≠ [] := by simp [nls]
  induction s using split_induction hx with
  | one s e => intro k; rw [replace_absent (cut_none e)]
  | more s h t e ih =>
    intro k
    rw [replace_step hx e, cut_some e, List.append_assoc, List.append_assoc]
    apply col_append_congr
    intro j
    rw [col_three]
    exact col_append_congr nl _ _ _ ih j

theorem collapse_replace (nl : α) (s : List α) : collapse nl (replace s (nls nl 3) (nls nl 2)) = collapse nl s := col_replace nl s 0

theorem replace_nl_same_iff (nl : α) (s : List α) : replace s (nls nl 3) (nls nl 2) = s ↔ ¬ Contains (nls nl 3) s :=
  replace_same_iff (by simp [nls]) (by simp [nls])

end Dv

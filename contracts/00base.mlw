(* Sequences: the value model of Go slices, arrays and strings. *)
module SeqG
  use int.Int
  type elt
  type t
  function norm (x: elt) : elt
  val function len (s: t) : int
    ensures { result >= 0 }
  val function get (s: t) (i: int) : elt
  val constant empty : t
    ensures { len result = 0 }
  val function snoc (s: t) (x: elt) : t
    ensures { len result = len s + 1 }
    ensures { forall i [get result i]. 0 <= i < len s -> get result i = get s i }
    ensures { get result (len s) = norm x }
  val function app (s u: t) : t
    ensures { len result = len s + len u }
    ensures { forall i [get result i]. 0 <= i < len s -> get result i = get s i }
    ensures { forall i [get result i]. len s <= i < len s + len u -> get result i = get u (i - len s) }
  val function sub (s: t) (i j: int) : t
    requires { 0 <= i <= j <= len s }
    ensures { len result = j - i }
    ensures { forall k [get result k]. 0 <= k < j - i -> get result k = get s (i + k) }
  val function upd (s: t) (i: int) (x: elt) : t
    requires { 0 <= i < len s }
    ensures { len result = len s }
    ensures { forall k [get result k]. 0 <= k < len s -> k <> i -> get result k = get s k }
    ensures { get result i = norm x }
  val function splice (s: t) (i: int) (u: t) : t
    requires { 0 <= i /\ i + len u <= len s }
    ensures { len result = len s }
    ensures { forall k [get result k]. 0 <= k < len s -> get result k = if i <= k < i + len u then get u (k - i) else get s k }
  val function fill (n: int) (x: elt) : t
    requires { 0 <= n }
    ensures { len result = n }
    ensures { forall k [get result k]. 0 <= k < n -> get result k = norm x }
  predicate eq (s u: t) = len s = len u /\ forall i [get s i | get u i]. 0 <= i < len s -> get s i = get u i
  axiom ext : forall s u [eq s u]. eq s u -> s = u
end

module SeqI
  use int.Int
  function norm (x: int) : int
  clone export SeqG with type elt = int, function norm = norm, axiom .
  val function zeros (n: int) : t
    requires { 0 <= n }
    ensures { len result = n }
    ensures { forall k [get result k]. 0 <= k < n -> get result k = 0 }
  val function eqb (s u: t) : bool
    ensures { result = True <-> eq s u }
end

module Base
  use int.Int
  use int.EuclideanDivision
  type ret_unused = unit
  constant max_len : int = 0x3fffffffffffffff
  predicate in_u8 (x: int) = 0 <= x < 0x100
  predicate in_u16 (x: int) = 0 <= x < 0x10000
  predicate in_u32 (x: int) = 0 <= x < 0x100000000
  predicate in_u64 (x: int) = 0 <= x < 0x10000000000000000
  predicate in_i8 (x: int) = -0x80 <= x < 0x80
  predicate in_i16 (x: int) = -0x8000 <= x < 0x8000
  predicate in_i32 (x: int) = -0x80000000 <= x < 0x80000000
  predicate in_i64 (x: int) = -0x8000000000000000 <= x < 0x8000000000000000
  predicate in_counter (x: int) = 0 <= x <= 0x4000000000000000
  function norm8 (x: int) : int = if 0 <= x < 0x100 then x else mod x 0x100
  function norm32 (x: int) : int = if 0 <= x < 0x100000000 then x else mod x 0x100000000
  function normi (x: int) : int = x
  clone SeqI as B with function norm = norm8, axiom .
  clone SeqI as U with function norm = norm32, axiom .
  clone SeqI as I with function norm = normi, axiom .
  function norm2 (x: U.t) : U.t = x
  clone SeqG as T2 with type elt = U.t, function norm = norm2, axiom .
  val constant t2_zeros : T2.t
  axiom t2_zeros_def : T2.len t2_zeros = 8 /\ forall i [T2.get t2_zeros i]. 0 <= i < 8 -> T2.get t2_zeros i = U.zeros 256
  axiom byte_range : forall s i [B.get s i]. 0 <= B.get s i < 0x100
  axiom u32_range : forall s i [U.get s i]. 0 <= U.get s i < 0x100000000

  val function ediv (x y: int) : int
    requires { y <> 0 }
    ensures { result = div x y }
  val function emod (x y: int) : int
    requires { y <> 0 }
    ensures { result = mod x y }
  val function tdiv (x y: int) : int
    requires { y <> 0 }
    ensures { 0 <= x -> y > 0 -> result = div x y }
  val function tmod (x y: int) : int
    requires { y <> 0 }
    ensures { 0 <= x -> y > 0 -> result = mod x y }
    ensures { x < 0 -> y > 0 -> - y < result <= 0 }

  val function wrap_u8 (x: int) : int
    ensures { result = if 0 <= x < 0x100 then x else mod x 0x100 }
  val function wrap_u16 (x: int) : int
    ensures { result = if 0 <= x < 0x10000 then x else mod x 0x10000 }
  val function wrap_u32 (x: int) : int
    ensures { result = if 0 <= x < 0x100000000 then x else mod x 0x100000000 }
  val function wrap_u64 (x: int) : int
    ensures { result = if 0 <= x < 0x10000000000000000 then x else mod x 0x10000000000000000 }
  val function wrap_i8 (x: int) : int
    ensures { result = if -0x80 <= x < 0x80 then x else mod (x + 0x80) 0x100 - 0x80 }
  val function wrap_i16 (x: int) : int
    ensures { result = if -0x8000 <= x < 0x8000 then x else mod (x + 0x8000) 0x10000 - 0x8000 }
  val function wrap_i32 (x: int) : int
    ensures { result = if -0x80000000 <= x < 0x80000000 then x else mod (x + 0x80000000) 0x100000000 - 0x80000000 }
  val function wrap_i64 (x: int) : int
    ensures { result = if -0x8000000000000000 <= x < 0x8000000000000000 then x else mod (x + 0x8000000000000000) 0x10000000000000000 - 0x8000000000000000 }

  val function pow2 (k: int) : int
  axiom pow2_0 : pow2 0 = 1
  axiom pow2_s : forall k [pow2 (k+1)]. 0 <= k -> pow2 (k + 1) = 2 * pow2 k
  val ghost pow2_step (k: int) : unit
    requires { 0 < k }
    ensures { pow2 k = 2 * pow2 (k - 1) }
  axiom pow2_pos : forall k [pow2 k]. pow2 k >= 1
  axiom pow2_tab : pow2 0 = 1 /\ pow2 1 = 2 /\ pow2 2 = 4 /\ pow2 3 = 8 /\ pow2 4 = 16 /\ pow2 5 = 32 /\ pow2 6 = 64 /\ pow2 7 = 128 /\ pow2 8 = 256 /\ pow2 9 = 512 /\ pow2 10 = 1024 /\ pow2 11 = 2048 /\ pow2 12 = 4096 /\ pow2 13 = 8192 /\ pow2 14 = 16384 /\ pow2 15 = 32768 /\ pow2 16 = 65536 /\ pow2 17 = 131072 /\ pow2 18 = 262144 /\ pow2 19 = 524288 /\ pow2 20 = 1048576 /\ pow2 21 = 2097152 /\ pow2 22 = 4194304 /\ pow2 23 = 8388608 /\ pow2 24 = 16777216 /\ pow2 25 = 33554432 /\ pow2 26 = 67108864 /\ pow2 27 = 134217728 /\ pow2 28 = 268435456 /\ pow2 29 = 536870912 /\ pow2 30 = 1073741824 /\ pow2 31 = 2147483648 /\ pow2 32 = 4294967296 /\ pow2 33 = 8589934592 /\ pow2 34 = 17179869184 /\ pow2 35 = 34359738368 /\ pow2 36 = 68719476736 /\ pow2 37 = 137438953472 /\ pow2 38 = 274877906944 /\ pow2 39 = 549755813888 /\ pow2 40 = 1099511627776 /\ pow2 41 = 2199023255552 /\ pow2 42 = 4398046511104 /\ pow2 43 = 8796093022208 /\ pow2 44 = 17592186044416 /\ pow2 45 = 35184372088832 /\ pow2 46 = 70368744177664 /\ pow2 47 = 140737488355328 /\ pow2 48 = 281474976710656 /\ pow2 49 = 562949953421312 /\ pow2 50 = 1125899906842624 /\ pow2 51 = 2251799813685248 /\ pow2 52 = 4503599627370496 /\ pow2 53 = 9007199254740992 /\ pow2 54 = 18014398509481984 /\ pow2 55 = 36028797018963968 /\ pow2 56 = 72057594037927936 /\ pow2 57 = 144115188075855872 /\ pow2 58 = 288230376151711744 /\ pow2 59 = 576460752303423488 /\ pow2 60 = 1152921504606846976 /\ pow2 61 = 2305843009213693952 /\ pow2 62 = 4611686018427387904 /\ pow2 63 = 9223372036854775808 /\ pow2 64 = 18446744073709551616
  val function shr (x k: int) : int
    ensures { result = div x (pow2 k) }

  (* Bitwise operations on non-negative integers. *)
  val function band (x y: int) : int
  val function bor (x y: int) : int
  val function bxor (x y: int) : int
  val function bandnot (x y: int) : int
  axiom band_mask : forall x y k [band x y, pow2 k]. 0 <= k -> 0 <= x -> y = pow2 k - 1 -> band x y = mod x (pow2 k)
  axiom bor_disj : forall x y k [bor x y, pow2 k]. 0 <= k -> 0 <= x -> mod x (pow2 k) = 0 -> 0 <= y < pow2 k -> bor x y = x + y
  axiom bor_comm : forall x y [bor x y]. 0 <= x -> 0 <= y -> bor x y = bor y x
  axiom band_bit : forall x y k [band x y, pow2 k]. 0 <= k -> 0 <= x -> y = pow2 k -> band x y = pow2 k * mod (div x (pow2 k)) 2
  val function beq (x y: bool) : bool
    ensures { result = True <-> x = y }
  let function imin (x y: int) : int = if x <= y then x else y
  let function imax (x y: int) : int = if x <= y then y else x

  (* Errors: the values the code compares and returns. *)
  type problem
  type err = ErrNil | ErrEOF | ErrUnexpectedEOF | ErrClosed | ErrFull | ErrCanceled | ErrCorrupt | ErrEmpty | ErrOther | ErrIO int
  val function err_eq (x y: err) : bool
    ensures { result = True <-> x = y }
  type iface
  val constant iface_nil : iface
  type time
  val constant time_zero : time
  (* the Unix time in seconds, and whether it is the zero time *)
  val function time_unix (t: time) : int
    ensures { in_i64 result }
  predicate time_is_zero (t: time)
  axiom time_zero_is_zero : time_is_zero time_zero
end

module Pow2
  use int.Int
  use Base
  axiom pow2_mono : forall a b [pow2 a, pow2 b]. 0 <= a <= b -> pow2 a <= pow2 b
end

(* Facts about exclusive or of natural numbers (proved in lean/Bits.lean). *)
module Xor
  use int.Int
  use int.EuclideanDivision
  use Base
  axiom bxor_comm : forall x y [bxor x y]. 0 <= x -> 0 <= y -> bxor x y = bxor y x
  val ghost bxor_assoc (x y z: int) : unit
    requires { 0 <= x /\ 0 <= y /\ 0 <= z }
    ensures { bxor (bxor x y) z = bxor x (bxor y z) }
  axiom bxor_0 : forall x [bxor x 0]. 0 <= x -> bxor x 0 = x
  axiom bxor_self : forall x [bxor x x]. 0 <= x -> bxor x x = 0
  axiom bxor_range32 : forall x y [bxor x y]. 0 <= x < 4294967296 -> 0 <= y < 4294967296 -> 0 <= bxor x y < 4294967296
  val ghost bxor_range (x y k: int) : unit
    requires { 0 <= k /\ 0 <= x < pow2 k /\ 0 <= y < pow2 k }
    ensures { 0 <= bxor x y < pow2 k }
  axiom bxor_pos : forall x y [bxor x y]. 0 <= x -> 0 <= y -> 0 <= bxor x y
  val ghost bxor_half (x y: int) : unit
    requires { 0 <= x /\ 0 <= y }
    ensures { div (bxor x y) 2 = bxor (div x 2) (div y 2) }
    ensures { mod (bxor x y) 2 = mod (mod x 2 + mod y 2) 2 }
  val ghost bxor_disj (x y k: int) : unit
    requires { 0 <= k /\ 0 <= x /\ 0 <= y < pow2 k }
    ensures { bxor (pow2 k * x) y = pow2 k * x + y }
end

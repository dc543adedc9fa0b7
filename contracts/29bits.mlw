(* Bits of a byte stream, first bit lowest (RFC 1951, section 3.1.1). *)
module Nonlin
  use int.Int
  use int.EuclideanDivision
  let ghost mul_ge (k d: int) : unit
    requires { 0 < k /\ 1 <= d }
    ensures { k * d >= k }
  = assert { k * (d - 1) >= 0 }
  let ghost div_unique (h k q r: int) : unit
    requires { 0 < k /\ 0 <= r < k /\ h = k * q + r }
    ensures { div h k = q /\ mod h k = r }
  = let ghost q2 = div h k in
    let ghost r2 = mod h k in
    assert { h = k * q2 + r2 /\ 0 <= r2 < k };
    assert { k * (q2 - q) = r - r2 };
    if q2 > q then (mul_ge k (q2 - q); absurd)
    else if q > q2 then (mul_ge k (q - q2); assert { k * (q - q2) = r2 - r }; absurd)
  let ghost cong_mul (a b c d: int) : unit
    requires { a = c /\ b = d }
    ensures { a * b = c * d }
  = ()
  let ghost mul_le (p a b: int) : unit
    requires { 0 <= p /\ a <= b }
    ensures { p * a <= p * b }
  = assert { p * (b - a) >= 0 }
  let ghost mul_2 (p q: int) : unit
    ensures { p * (2 * q) = 2 * (p * q) /\ (2 * p) * q = 2 * (p * q) }
  = ()
  let ghost mul_dist (p a q b: int) : unit
    ensures { p * (a + q * b) = p * a + (p * q) * b }
  = ()
end
module Bits
  use int.Int
  use int.EuclideanDivision
  use Base
  use Model
  function bitat (x: stream) (i: int) : int = mod (div (hb x (div i 8)) (pow2 (mod i 8))) 2
  (* the number in the n bits from bit p on *)
  function bv (x: stream) (p n: int) : int
  axiom bv_0 : forall x p [bv x p 0]. bv x p 0 = 0
  (* defines bv; used explicitly, as it would be instantiated without end *)
  val ghost bv_s (x: stream) (p n: int) : unit
    requires { 0 <= n }
    ensures { bv x p (n + 1) = bv x p n + pow2 n * bitat x (p + n) }
  function align8 (p: int) : int = 8 * div (p + 7) 8
end
module BitsSplit
  use int.Int
  use int.EuclideanDivision
  use Base
  use Model
  use Bits
  use Nonlin
  let ghost bit01 (x: stream) (i: int) : unit
    ensures { bitat x i = 0 \/ bitat x i = 1 }
  = ()
  let ghost bv_1 (x: stream) (p n: int) : unit
    requires { 0 < n }
    ensures { bv x p n = bv x p (n - 1) + pow2 (n - 1) * bitat x (p + (n - 1)) /\ pow2 n = 2 * pow2 (n - 1) }
  = bv_s x p (n - 1); assert { bv x p ((n - 1) + 1) = bv x p (n - 1) + pow2 (n - 1) * bitat x (p + (n - 1)) };
    pow2_step n
  let rec lemma bv_range (x: stream) (p n: int) : unit
    requires { 0 <= n }
    ensures { 0 <= bv x p n < pow2 n }
    variant { n }
  = if n > 0 then begin
      bv_range x p (n - 1);
      bv_1 x p n;
      let ghost b = bitat x (p + (n - 1)) in
      bit01 x (p + (n - 1));
      if b = 0 then assert { bv x p n = bv x p (n - 1) } else assert { bv x p n = bv x p (n - 1) + pow2 (n - 1) }
    end else assert { n = 0 }
  let rec ghost pow2_add (a b: int) : unit
    requires { 0 <= a /\ 0 <= b }
    ensures { pow2 (a + b) = pow2 a * pow2 b }
    variant { b }
  = if b > 0 then begin
      pow2_add a (b - 1);
      pow2_step (a + b); pow2_step b;
      assert { a + b - 1 = a + (b - 1) };
      mul_2 (pow2 a) (pow2 (b - 1))
    end else assert { b = 0 }
  let rec ghost bv_split (x: stream) (p a b: int) : unit
    requires { 0 <= a /\ 0 <= b }
    ensures { bv x p (a + b) = bv x p a + pow2 a * bv x (p + a) b }
    variant { b }
  = if b > 0 then begin
      bv_split x p a (b - 1);
      pow2_add a (b - 1);
      bv_1 x p (a + b);
      assert { a + b - 1 = a + (b - 1) /\ p + (a + (b - 1)) = (p + a) + (b - 1) };
      bv_1 x (p + a) b;
      let ghost t = bitat x ((p + a) + (b - 1)) in
      let ghost u = bv x (p + a) (b - 1) in
      mul_dist (pow2 a) u (pow2 (b - 1)) t;
      cong_mul (pow2 (a + b - 1)) (bitat x (p + (a + b - 1))) (pow2 a * pow2 (b - 1)) t;
      assert { bv x p (a + b) = bv x p (a + (b - 1)) + (pow2 a * pow2 (b - 1)) * t };
      assert { bv x (p + a) b = u + pow2 (b - 1) * t };
      cong_mul (pow2 a) (bv x (p + a) b) (pow2 a) (u + pow2 (b - 1) * t);
      assert { bv x p (a + (b - 1)) = bv x p a + pow2 a * u };
      assert { bv x p (a + b) = bv x p a + pow2 a * bv x (p + a) b }
    end else assert { b = 0 }
  (* taking the first a of n bits off *)
  let ghost bv_take (x: stream) (p a n: int) : unit
    requires { 0 <= a <= n }
    ensures { mod (bv x p n) (pow2 a) = bv x p a }
    ensures { div (bv x p n) (pow2 a) = bv x (p + a) (n - a) }
  = bv_split x p a (n - a);
    bv_range x p a;
    div_unique (bv x p n) (pow2 a) (bv x (p + a) (n - a)) (bv x p a)
  let ghost bit_div (h k: int) : unit
    requires { 0 <= k }
    ensures { div h (pow2 k) = 2 * div h (pow2 (k + 1)) + mod (div h (pow2 k)) 2 }
  = pow2_step (k + 1);
    let ghost p = pow2 k in
    let ghost q = div h p in
    let ghost r = mod h p in
    assert { h = p * q + r /\ 0 <= r < p };
    let ghost q2 = div q 2 in
    let ghost b = mod q 2 in
    assert { q = 2 * q2 + b /\ (b = 0 \/ b = 1) };
    mul_2 p q2;
    mul_dist p b 2 q2;
    if b = 0 then div_unique h (2 * p) q2 r
    else div_unique h (2 * p) q2 (p + r)
  let rec ghost bv_byte_n (x: stream) (i k: int) : unit
    requires { 0 <= k <= 8 }
    ensures { hb x i = bv x (8 * i) k + pow2 k * div (hb x i) (pow2 k) }
    variant { k }
  = if k > 0 then begin
      bv_byte_n x i (k - 1);
      bit_div (hb x i) (k - 1);
      bv_1 x (8 * i) k;
      assert { div (8 * i + (k - 1)) 8 = i /\ mod (8 * i + (k - 1)) 8 = k - 1 };
      let ghost d = div (hb x i) (pow2 k) in
      let ghost b = bitat x (8 * i + (k - 1)) in
      let ghost p = pow2 (k - 1) in
      assert { b = mod (div (hb x i) p) 2 };
      assert { div (hb x i) p = 2 * d + b };
      cong_mul p (div (hb x i) p) p (2 * d + b);
      assert { hb x i = bv x (8 * i) (k - 1) + p * (2 * d + b) };
      cong_mul (pow2 k) d (2 * p) d;
      cong_mul (pow2 (k - 1)) (bitat x (8 * i + (k - 1))) p b;
      mul_2 p d;
      assert { bv x (8 * i) k = bv x (8 * i) (k - 1) + p * b };
      assert { p * (2 * d + b) = p * (2 * d) + p * b };
      assert { pow2 k * d = 2 * (p * d) };
      assert { hb x i = bv x (8 * i) k + pow2 k * d };
      assert { hb x i = bv x (8 * i) k + pow2 k * div (hb x i) (pow2 k) }
    end else begin
      assert { pow2 k = 1 /\ bv x (8 * i) 0 = 0 /\ k = 0 };
      div_unique (hb x i) (pow2 k) (hb x i) 0;
      cong_mul (pow2 k) (div (hb x i) (pow2 k)) 1 (hb x i);
      assert { hb x i = bv x (8 * i) k + pow2 k * div (hb x i) (pow2 k) }
    end
  let ghost bv_byte (x: stream) (i: int) : unit
    ensures { bv x (8 * i) 8 = hb x i }
  = bv_byte_n x i 8; assert { div (hb x i) 256 = 0 }
  (* one more byte above n bits *)
  let ghost bv_more (x: stream) (p n r: int) : unit
    requires { 0 <= n /\ p + n = 8 * r }
    ensures { bv x p (n + 8) = bv x p n + pow2 n * hb x r }
    ensures { mod (pow2 n * hb x r) (pow2 n) = 0 }
    ensures { 0 <= pow2 n * hb x r < pow2 (n + 8) }
  = bv_split x p n 8; bv_byte x r; assert { p + n = 8 * r };
    assert { bv x (p + n) 8 = hb x r };
    cong_mul (pow2 n) (bv x (p + n) 8) (pow2 n) (hb x r);
    div_unique (pow2 n * hb x r) (pow2 n) (hb x r) 0;
    pow2_add n 8;
    mul_le (pow2 n) (hb x r) 255; mul_le (pow2 n) 0 (hb x r)
end
module BitsIn
  use int.Int
  use int.EuclideanDivision
  use Base
  use Pow2
  use Model
  use Bits
  use BitsSplit
  use Nonlin
  (* a byte goes on top of the n bits read ahead *)
  let ghost bv_byte_in (x: stream) (p n r ch: int) : unit
    requires { 0 <= n <= 56 /\ p + n = 8 * r /\ ch = hb x r }
    ensures { bor (bv x p n) (wrap_u64 (ch * pow2 n)) = bv x p (n + 8) }
  = bv_more x p n r;
    bv_range x p n;
    cong_mul ch (pow2 n) (hb x r) (pow2 n);
    let ghost h = ch * pow2 n in
    assert { h = pow2 n * hb x r };
    assert { pow2 (n + 8) <= pow2 64 };
    assert { 0 <= h < 18446744073709551616 };
    assert { wrap_u64 h = h };
    assert { bor h (bv x p n) = h + bv x p n };
    assert { bor (bv x p n) h = bv x p (n + 8) }
  (* what is left when the first a of n bits are taken *)
  let ghost bv_bits_out (x: stream) (p a n: int) : unit
    requires { 0 <= a <= n }
    ensures { band (bv x p n) (pow2 a - 1) = bv x p a }
    ensures { div (bv x p n) (pow2 a) = bv x (p + a) (n - a) }
  = bv_take x p a n; bv_range x p n
  let lemma bv_pre0 (x: stream) (p a n: int) : unit
    requires { 0 <= a <= n }
    ensures { mod (bv x p n) (pow2 a) = bv x p a }
  = bv_take x p a n
  lemma bv_pre : forall x p a n [bv x p a, bv x p n]. 0 <= a <= n -> mod (bv x p n) (pow2 a) = bv x p a
end

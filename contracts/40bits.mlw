(* Bits which a Writer has put out; the bytes which a block of them makes. *)
module BitsOut
  use int.Int
  use int.EuclideanDivision
  use Base
  use Pow2
  use Model
  use Bits
  use BitsSplit
  use Nonlin
  let ghost byte_of (x: stream) (r m v i: int) : unit
    requires { v = bv x (8 * r) m /\ 0 <= i /\ 8 * i + 8 <= m }
    ensures { mod (div v (pow2 (8 * i))) 256 = hb x (r + i) }
  = bv_take x (8 * r) (8 * i) m;
    assert { div v (pow2 (8 * i)) = bv x (8 * r + 8 * i) (m - 8 * i) };
    bv_take x (8 * r + 8 * i) 8 (m - 8 * i);
    assert { mod (div v (pow2 (8 * i))) 256 = bv x (8 * r + 8 * i) 8 };
    bv_byte x (r + i);
    assert { 8 * r + 8 * i = 8 * (r + i) }
  let rec ghost bytes_of (t: B.t) (x: stream) (r m v k: int) : unit
    requires { v = bv x (8 * r) m /\ 0 <= k <= 8 /\ 8 * k <= m }
    requires { forall i [B.get t i]. 0 <= i < 8 -> B.get t i = mod (div v (pow2 (8 * i))) 256 }
    ensures { forall i [B.get t i]. 0 <= i < k -> B.get t i = hb x (r + i) }
    variant { k }
  = if k > 0 then begin
      bytes_of t x r m v (k - 1);
      byte_of x r m v (k - 1);
      assert { B.get t (k - 1) = hb x (r + (k - 1)) }
    end
  (* bits on top of those which wait *)
  let ghost bits_on (x: stream) (p a b n v: int) : unit
    requires { 0 <= a /\ 0 <= b <= n /\ a + b <= 64 /\ v = bv x (p + a) n }
    ensures { bor (bv x p a) (wrap_u64 (mod v (pow2 b) * pow2 a)) = bv x p (a + b) }
    ensures { div v (pow2 b) = bv x (p + a + b) (n - b) }
    ensures { 0 <= mod v (pow2 b) }
  = bv_take x (p + a) b n;
    bv_split x p a b;
    bv_range x p a;
    bv_range x (p + a) b;
    bv_range x p (a + b);
    let ghost w = bv x (p + a) b in
    assert { mod v (pow2 b) = w };
    let ghost h = pow2 a * w in
    cong_mul (mod v (pow2 b)) (pow2 a) w (pow2 a);
    assert { mod v (pow2 b) * pow2 a = h };
    cong_mul (pow2 a) (bv x (p + a) b) (pow2 a) w;
    assert { bv x p (a + b) = bv x p a + h };
    assert { pow2 (a + b) <= pow2 64 };
    mul_le (pow2 a) 0 w;
    assert { 0 <= h < 18446744073709551616 };
    assert { wrap_u64 h = h };
    div_unique h (pow2 a) w 0;
    assert { bor h (bv x p a) = h + bv x p a };
    assert { bor (bv x p a) h = bv x p (a + b) };
    assert { p + a + b = (p + a) + b }
  (* zero bits up to the next byte *)
  let ghost bits_pad (x: stream) (p a b: int) : unit
    requires { 0 <= a /\ 0 <= b /\ bv x (p + a) b = 0 }
    ensures { bv x p (a + b) = bv x p a }
  = bv_split x p a b; cong_mul (pow2 a) (bv x (p + a) b) (pow2 a) 0
end

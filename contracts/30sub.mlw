(* Pieces of a stream as byte strings. *)
module HsubFacts
  use int.Int
  use int.EuclideanDivision
  use Base
  use Model
  use Spec
  use Bits
  use Adler
  use AdlerCat
  use Crc
  use CrcCat
  use Machine

  let ghost hsub_is (s: B.t) (x: stream) (i n: int) : unit
    requires { 0 <= n /\ B.len s = n /\ forall k [B.get s k]. 0 <= k < n -> B.get s k = hb x (i + k) }
    ensures { s = hsub x i n }
  = assert { B.eq s (hsub x i n) }
  let ghost hsub_cat (x: stream) (i a b: int) : unit
    requires { 0 <= a /\ 0 <= b }
    ensures { hsub x i (a + b) = B.app (hsub x i a) (hsub x (i + a) b) }
  = assert { B.eq (hsub x i (a + b)) (B.app (hsub x i a) (hsub x (i + a) b)) }
  let ghost hsub_0 (x: stream) (i: int) : unit
    ensures { hsub x i 0 = B.empty }
  = assert { B.eq (hsub x i 0) B.empty }
  let ghost crc_more (c: int) (x: stream) (i a b: int) : unit
    requires { 0 <= a /\ 0 <= b }
    ensures { crc32 (crc32 c (hsub x i a)) (hsub x (i + a) b) = crc32 c (hsub x i (a + b)) }
  = hsub_cat x i a b; crc_cat c (hsub x i a) (hsub x (i + a) b)
  let ghost adler_more (c: int) (x: stream) (i a b: int) : unit
    requires { 0 <= a /\ 0 <= b /\ adler_ok c }
    ensures { adler (adler c (hsub x i a)) (hsub x (i + a) b) = adler c (hsub x i (a + b)) }
  = hsub_cat x i a b; adler_cat c (hsub x i a) (hsub x (i + a) b)
  let ghost crc_none (c: int) (x: stream) (i: int) : unit
    ensures { crc32 c (hsub x i 0) = c }
  = hsub_0 x i
  let ghost adler_none (c: int) (x: stream) (i: int) : unit
    requires { adler_ok c }
    ensures { adler c (hsub x i 0) = c }
  = hsub_0 x i
end

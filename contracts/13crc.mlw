(* CRC-32, RFC 1952 section 8: the reflected polynomial division, a bit at a
   time, with the register complemented before and after. *)
module Crc
  use int.Int
  use int.EuclideanDivision
  use Base
  function bs (c: int) : int = if mod c 2 = 1 then bxor (div c 2) 0xedb88320 else div c 2
  function adv (c: int) : int
  predicate adv_unfold (c: int)
  axiom adv_def : forall c [adv_unfold c]. adv_unfold c /\ adv c = bs (bs (bs (bs (bs (bs (bs (bs c)))))))
  function crcT (j i: int) : int
  axiom crcT_def : forall j i [crcT j i]. 0 <= j < 8 -> crcT j i = (if j = 0 then adv i else if j = 1 then (adv (adv i)) else if j = 2 then (adv (adv (adv i))) else if j = 3 then (adv (adv (adv (adv i)))) else if j = 4 then (adv (adv (adv (adv (adv i))))) else if j = 5 then (adv (adv (adv (adv (adv (adv i)))))) else if j = 6 then (adv (adv (adv (adv (adv (adv (adv i))))))) else (adv (adv (adv (adv (adv (adv (adv (adv i)))))))))
  function crc_st (c: int) (p: B.t) (n: int) : int
  axiom crc_st_0 : forall c p [crc_st c p 0]. crc_st c p 0 = c
  axiom crc_st_s : forall c p n [crc_st c p n, B.get p n]. 0 <= n -> crc_st c p (n + 1) = adv (bxor (crc_st c p n) (B.get p n))
  val constant crc_table : T2.t
  axiom crc_table_def : forall j i [U.get (T2.get crc_table j) i]. 0 <= j < 8 -> 0 <= i < 256 -> U.get (T2.get crc_table j) i = crcT j i
  val constant crc_arch_okay : bool
  function crc32 (c: int) (p: B.t) : int = 0xffffffff - crc_st (0xffffffff - c) p (B.len p)
end

module XorFacts
  use int.Int
  use int.EuclideanDivision
  use Base
  use Xor
  let ghost bxor_disj8 (x y: int)
    requires { 0 <= x /\ 0 <= y < 256 }
    ensures { bxor (256 * x) y = 256 * x + y }
  = assert { pow2 8 = 256 }; bxor_disj x y 8
  let ghost split8 (c: int)
    requires { 0 <= c }
    ensures { c = bxor (256 * div c 256) (mod c 256) }
  = bxor_disj8 (div c 256) (mod c 256)
  let ghost xor_merge (a b p: int)
    requires { 0 <= a /\ 0 <= b /\ 0 <= p }
    ensures { bxor (bxor a p) b = bxor (bxor a b) p }
    ensures { bxor a (bxor b p) = bxor (bxor a b) p }
    ensures { bxor (bxor a p) (bxor b p) = bxor a b }
  = bxor_assoc a b p; bxor_assoc a p b;
    assert { bxor p b = bxor b p };
    assert { 0 <= bxor a b /\ 0 <= bxor a p };
    bxor_assoc (bxor a p) b p; bxor_assoc (bxor a b) p p
  let ghost rev8 (a b c d e f g h: int)
    requires { 0 <= a /\ 0 <= b /\ 0 <= c /\ 0 <= d /\ 0 <= e /\ 0 <= f /\ 0 <= g /\ 0 <= h }
    ensures { bxor (bxor (bxor (bxor (bxor (bxor (bxor a b) c) d) e) f) g) h = bxor (bxor (bxor (bxor (bxor (bxor (bxor h g) f) e) d) c) b) a }
  = assert { (bxor a b) = (bxor b a) };
    assert { 0 <= (bxor b a) };
    bxor_assoc c b a;
    assert { (bxor (bxor a b) c) = (bxor (bxor c b) a) };
    assert { 0 <= (bxor c b) };
    assert { 0 <= (bxor (bxor c b) a) };
    bxor_assoc d (bxor c b) a;
    bxor_assoc d c b;
    assert { (bxor (bxor (bxor a b) c) d) = (bxor (bxor (bxor d c) b) a) };
    assert { 0 <= (bxor d c) };
    assert { 0 <= (bxor (bxor d c) b) };
    assert { 0 <= (bxor (bxor (bxor d c) b) a) };
    bxor_assoc e (bxor (bxor d c) b) a;
    bxor_assoc e (bxor d c) b;
    bxor_assoc e d c;
    assert { (bxor (bxor (bxor (bxor a b) c) d) e) = (bxor (bxor (bxor (bxor e d) c) b) a) };
    assert { 0 <= (bxor e d) };
    assert { 0 <= (bxor (bxor e d) c) };
    assert { 0 <= (bxor (bxor (bxor e d) c) b) };
    assert { 0 <= (bxor (bxor (bxor (bxor e d) c) b) a) };
    bxor_assoc f (bxor (bxor (bxor e d) c) b) a;
    bxor_assoc f (bxor (bxor e d) c) b;
    bxor_assoc f (bxor e d) c;
    bxor_assoc f e d;
    assert { (bxor (bxor (bxor (bxor (bxor a b) c) d) e) f) = (bxor (bxor (bxor (bxor (bxor f e) d) c) b) a) };
    assert { 0 <= (bxor f e) };
    assert { 0 <= (bxor (bxor f e) d) };
    assert { 0 <= (bxor (bxor (bxor f e) d) c) };
    assert { 0 <= (bxor (bxor (bxor (bxor f e) d) c) b) };
    assert { 0 <= (bxor (bxor (bxor (bxor (bxor f e) d) c) b) a) };
    bxor_assoc g (bxor (bxor (bxor (bxor f e) d) c) b) a;
    bxor_assoc g (bxor (bxor (bxor f e) d) c) b;
    bxor_assoc g (bxor (bxor f e) d) c;
    bxor_assoc g (bxor f e) d;
    bxor_assoc g f e;
    assert { (bxor (bxor (bxor (bxor (bxor (bxor a b) c) d) e) f) g) = (bxor (bxor (bxor (bxor (bxor (bxor g f) e) d) c) b) a) };
    assert { 0 <= (bxor g f) };
    assert { 0 <= (bxor (bxor g f) e) };
    assert { 0 <= (bxor (bxor (bxor g f) e) d) };
    assert { 0 <= (bxor (bxor (bxor (bxor g f) e) d) c) };
    assert { 0 <= (bxor (bxor (bxor (bxor (bxor g f) e) d) c) b) };
    assert { 0 <= (bxor (bxor (bxor (bxor (bxor (bxor g f) e) d) c) b) a) };
    bxor_assoc h (bxor (bxor (bxor (bxor (bxor g f) e) d) c) b) a;
    bxor_assoc h (bxor (bxor (bxor (bxor g f) e) d) c) b;
    bxor_assoc h (bxor (bxor (bxor g f) e) d) c;
    bxor_assoc h (bxor (bxor g f) e) d;
    bxor_assoc h (bxor g f) e;
    bxor_assoc h g f;
    assert { (bxor (bxor (bxor (bxor (bxor (bxor (bxor a b) c) d) e) f) g) h) = (bxor (bxor (bxor (bxor (bxor (bxor (bxor h g) f) e) d) c) b) a) }
  let ghost xor_byte (s ch: int)
    requires { 0 <= s < 4294967296 /\ 0 <= ch < 256 }
    ensures { mod (bxor s ch) 256 = bxor (mod s 256) ch }
    ensures { div (bxor s ch) 256 = div s 256 }
  = let ghost q = div s 256 in let ghost r = mod s 256 in
    assert { pow2 8 = 256 };
    bxor_disj8 q r;
    bxor_range r ch 8;
    bxor_assoc (256 * q) r ch;
    bxor_disj8 q (bxor r ch);
    assert { bxor s ch = 256 * q + bxor r ch }
  let ghost divs (x: int)
    requires { 0 <= x < 4294967296 }
    ensures { div (div x 256) 256 = div x 65536 }
    ensures { div (div x 65536) 256 = div x 16777216 }
    ensures { 0 <= div x 16777216 < 256 }
  = ()
end

module CrcFacts
  use int.Int
  use int.EuclideanDivision
  use Base
  use Xor
  use XorFacts
  use Crc
  let ghost bs_lin (x y: int)
    requires { 0 <= x /\ 0 <= y }
    ensures { bs (bxor x y) = bxor (bs x) (bs y) }
  = let a = div x 2 in let b = div y 2 in let p = 0xedb88320 in
    bxor_half x y;
    assert { 0 <= a /\ 0 <= b };
    xor_merge a b p;
    if mod x 2 = 1 then (if mod y 2 = 1 then assert { mod (bxor x y) 2 = 0 } else assert { mod (bxor x y) 2 = 1 })
    else (if mod y 2 = 1 then assert { mod (bxor x y) 2 = 1 } else assert { mod (bxor x y) 2 = 0 })
  lemma bs_pos : forall x [bs x]. 0 <= x -> 0 <= bs x
  lemma bs_range : forall x [bs x]. 0 <= x < 4294967296 -> 0 <= bs x < 4294967296
  lemma bs_even : forall x [bs (2 * x)]. bs (2 * x) = x
  lemma adv_pos : forall x [adv x]. 0 <= x -> 0 <= adv x by adv_unfold x
  lemma adv_range : forall x [adv x]. 0 <= x < 4294967296 -> 0 <= adv x < 4294967296 by adv_unfold x
  let ghost adv_lin (x y: int)
    requires { 0 <= x /\ 0 <= y }
    ensures { adv (bxor x y) = bxor (adv x) (adv y) }
  = assert { adv_unfold x /\ adv_unfold y /\ adv_unfold (bxor x y) };
    bs_lin x y;
    bs_lin (bs x) (bs y);
    bs_lin (bs (bs x)) (bs (bs y));
    bs_lin (bs (bs (bs x))) (bs (bs (bs y)));
    bs_lin (bs (bs (bs (bs x)))) (bs (bs (bs (bs y))));
    bs_lin (bs (bs (bs (bs (bs x))))) (bs (bs (bs (bs (bs y)))));
    bs_lin (bs (bs (bs (bs (bs (bs x)))))) (bs (bs (bs (bs (bs (bs y))))));
    bs_lin (bs (bs (bs (bs (bs (bs (bs x))))))) (bs (bs (bs (bs (bs (bs (bs y)))))))
  let ghost adv_256 (x: int)
    ensures { adv (256 * x) = x }
  = assert { adv_unfold (256 * x) };
    assert { bs (2 * (128 * x)) = 128 * x }; assert { bs (2 * (64 * x)) = 64 * x }; assert { bs (2 * (32 * x)) = 32 * x }; assert { bs (2 * (16 * x)) = 16 * x };
    assert { bs (2 * (8 * x)) = 8 * x }; assert { bs (2 * (4 * x)) = 4 * x }; assert { bs (2 * (2 * x)) = 2 * x }; assert { bs (2 * x) = x }
  let ghost adv_split (c: int)
    requires { 0 <= c }
    ensures { adv c = bxor (adv (mod c 256)) (div c 256) }
  = let q = div c 256 in let r = mod c 256 in
    assert { 0 <= q /\ 0 <= r };
    split8 c;
    adv_lin (256 * q) r;
    adv_256 q
end

(* Four bytes at a time, and eight. *)
module CrcSlice
  use int.Int
  use int.EuclideanDivision
  use Base
  use Xor
  use XorFacts
  use Crc
  use CrcFacts
  let ghost push (c b l: int)
    requires { 0 <= c /\ 0 <= b < 256 /\ 0 <= l }
    ensures { bxor (adv (bxor c b)) l = adv (bxor c (b + 256 * l)) }
  = bxor_disj8 l b;
    bxor_assoc c (256 * l) b;
    xor_merge c b (256 * l);
    assert { 0 <= bxor c b };
    adv_lin (bxor c b) (256 * l);
    adv_256 l
  let ghost slice4 (c b0 b1 b2 b3 x: int)
    requires { 0 <= c /\ 0 <= b0 < 256 /\ 0 <= b1 < 256 /\ 0 <= b2 < 256 /\ 0 <= b3 < 256 }
    requires { x = bxor c (b0 + 256 * b1 + 65536 * b2 + 16777216 * b3) }
    ensures { adv (bxor (adv (bxor (adv (bxor (adv (bxor c b0)) b1)) b2)) b3) = adv (adv (adv (adv x))) }
  = let l2 = b2 + 256 * b3 in let l1 = b1 + 256 * l2 in let l0 = b0 + 256 * l1 in
    assert { l0 = b0 + 256 * b1 + 65536 * b2 + 16777216 * b3 };
    push c b0 l1;
    assert { 0 <= bxor c b0 };
    let ghost s1 = adv (bxor c b0) in
    push s1 b1 l2;
    assert { 0 <= bxor s1 b1 };
    let ghost s2 = adv (bxor s1 b1) in
    push s2 b2 b3
  let ghost adv4 (x: int)
    requires { 0 <= x < 4294967296 }
    ensures { let x0 = mod x 256 in let x1 = mod (div x 256) 256 in let x2 = mod (div x 65536) 256 in let x3 = div x 16777216 in
      adv (adv (adv (adv x))) = bxor (bxor (bxor (adv (adv (adv (adv x0)))) (adv (adv (adv x1)))) (adv (adv x2))) (adv x3) }
  = divs x;
    let r1 = div x 256 in let r2 = div x 65536 in let x3 = div x 16777216 in
    let x0 = mod x 256 in let x1 = mod r1 256 in let x2 = mod r2 256 in
    assert { 0 <= x0 < 256 /\ 0 <= x1 < 256 /\ 0 <= x2 < 256 /\ mod x3 256 = x3 /\ div x3 256 = 0 };
    adv_split x; adv_split r1; adv_split r2; 
    let ghost a0 = adv x0 in let ghost a1 = adv x1 in let ghost a2 = adv x2 in let ghost a3 = adv x3 in
    assert { 0 <= a0 /\ 0 <= a1 /\ 0 <= a2 /\ 0 <= a3 /\ 0 <= adv a0 /\ 0 <= adv a1 /\ 0 <= adv (adv a0) };
    assert { adv x = bxor a0 r1 /\ adv r1 = bxor a1 r2 /\ adv r2 = bxor a2 x3 };
    adv_lin a0 r1;
    bxor_assoc (adv a0) a1 r2;
    assert { adv (adv x) = bxor (bxor (adv a0) a1) r2 };
    assert { 0 <= bxor (adv a0) a1 };
    adv_lin (bxor (adv a0) a1) r2; adv_lin (adv a0) a1;
    let ghost u = bxor (adv (adv a0)) (adv a1) in
    assert { 0 <= u };
    bxor_assoc u a2 x3;
    assert { adv (adv (adv x)) = bxor (bxor u a2) x3 /\ 0 <= bxor u a2 };
    adv_lin (bxor u a2) x3; adv_lin u a2; adv_lin (adv (adv a0)) (adv a1)
  let ghost crcTs (i: int)
    ensures { crcT 0 i = (adv i) }
    ensures { crcT 1 i = (adv (adv i)) }
    ensures { crcT 2 i = (adv (adv (adv i))) }
    ensures { crcT 3 i = (adv (adv (adv (adv i)))) }
    ensures { crcT 4 i = (adv (adv (adv (adv (adv i))))) }
    ensures { crcT 5 i = (adv (adv (adv (adv (adv (adv i)))))) }
    ensures { crcT 6 i = (adv (adv (adv (adv (adv (adv (adv i))))))) }
    ensures { crcT 7 i = (adv (adv (adv (adv (adv (adv (adv (adv i)))))))) }
  = ()
  let ghost slice8 (c b0 b1 b2 b3 b4 b5 b6 b7 x: int)
    requires { 0 <= c < 4294967296 /\ 0 <= b0 < 256 /\ 0 <= b1 < 256 /\ 0 <= b2 < 256 /\ 0 <= b3 < 256 }
    requires { 0 <= b4 < 256 /\ 0 <= b5 < 256 /\ 0 <= b6 < 256 /\ 0 <= b7 < 256 }
    requires { x = bxor c (b0 + 256 * b1 + 65536 * b2 + 16777216 * b3) }
    ensures { 0 <= x < 4294967296 }
    ensures { (adv (bxor (adv (bxor (adv (bxor (adv (bxor (adv (bxor (adv (bxor (adv (bxor (adv (bxor c b0)) b1)) b2)) b3)) b4)) b5)) b6)) b7))
      = (bxor (bxor (bxor (bxor (bxor (bxor (bxor (crcT 0 b7) (crcT 1 b6)) (crcT 2 b5)) (crcT 3 b4)) (crcT 4 (div x 16777216))) (crcT 5 (mod (div x 65536) 256))) (crcT 6 (mod (div x 256) 256))) (crcT 7 (mod x 256))) }
  = assert { pow2 32 = 4294967296 };
    bxor_range c (b0 + 256 * b1 + 65536 * b2 + 16777216 * b3) 32;
    slice4 c b0 b1 b2 b3 x;
    adv4 x;
    let ghost x0 = mod x 256 in let ghost x1 = mod (div x 256) 256 in let ghost x2 = mod (div x 65536) 256 in let ghost x3 = div x 16777216 in
    divs x;
    assert { 0 <= x0 < 256 /\ 0 <= x1 < 256 /\ 0 <= x2 < 256 /\ 0 <= x3 < 256 };
    crcTs x0; crcTs x1; crcTs x2; crcTs x3; crcTs b4; crcTs b5; crcTs b6; crcTs b7;
    assert { 0 <= (adv x0) /\ 0 <= (adv (adv x0)) /\ 0 <= (adv (adv (adv x0))) /\ 0 <= (adv (adv (adv (adv x0)))) /\ 0 <= (adv (adv (adv (adv (adv x0))))) /\ 0 <= (adv (adv (adv (adv (adv (adv x0)))))) /\ 0 <= (adv (adv (adv (adv (adv (adv (adv x0))))))) /\ 0 <= (adv (adv (adv (adv (adv (adv (adv (adv x0)))))))) };
    assert { 0 <= (adv x1) /\ 0 <= (adv (adv x1)) /\ 0 <= (adv (adv (adv x1))) /\ 0 <= (adv (adv (adv (adv x1)))) /\ 0 <= (adv (adv (adv (adv (adv x1))))) /\ 0 <= (adv (adv (adv (adv (adv (adv x1)))))) /\ 0 <= (adv (adv (adv (adv (adv (adv (adv x1))))))) /\ 0 <= (adv (adv (adv (adv (adv (adv (adv (adv x1)))))))) };
    assert { 0 <= (adv x2) /\ 0 <= (adv (adv x2)) /\ 0 <= (adv (adv (adv x2))) /\ 0 <= (adv (adv (adv (adv x2)))) /\ 0 <= (adv (adv (adv (adv (adv x2))))) /\ 0 <= (adv (adv (adv (adv (adv (adv x2)))))) /\ 0 <= (adv (adv (adv (adv (adv (adv (adv x2))))))) /\ 0 <= (adv (adv (adv (adv (adv (adv (adv (adv x2)))))))) };
    assert { 0 <= (adv x3) /\ 0 <= (adv (adv x3)) /\ 0 <= (adv (adv (adv x3))) /\ 0 <= (adv (adv (adv (adv x3)))) /\ 0 <= (adv (adv (adv (adv (adv x3))))) /\ 0 <= (adv (adv (adv (adv (adv (adv x3)))))) /\ 0 <= (adv (adv (adv (adv (adv (adv (adv x3))))))) /\ 0 <= (adv (adv (adv (adv (adv (adv (adv (adv x3)))))))) };
    assert { 0 <= (adv b4) /\ 0 <= (adv (adv b4)) /\ 0 <= (adv (adv (adv b4))) /\ 0 <= (adv (adv (adv (adv b4)))) /\ 0 <= (adv (adv (adv (adv (adv b4))))) /\ 0 <= (adv (adv (adv (adv (adv (adv b4)))))) /\ 0 <= (adv (adv (adv (adv (adv (adv (adv b4))))))) /\ 0 <= (adv (adv (adv (adv (adv (adv (adv (adv b4)))))))) };
    assert { 0 <= (adv b5) /\ 0 <= (adv (adv b5)) /\ 0 <= (adv (adv (adv b5))) /\ 0 <= (adv (adv (adv (adv b5)))) /\ 0 <= (adv (adv (adv (adv (adv b5))))) /\ 0 <= (adv (adv (adv (adv (adv (adv b5)))))) /\ 0 <= (adv (adv (adv (adv (adv (adv (adv b5))))))) /\ 0 <= (adv (adv (adv (adv (adv (adv (adv (adv b5)))))))) };
    assert { 0 <= (adv b6) /\ 0 <= (adv (adv b6)) /\ 0 <= (adv (adv (adv b6))) /\ 0 <= (adv (adv (adv (adv b6)))) /\ 0 <= (adv (adv (adv (adv (adv b6))))) /\ 0 <= (adv (adv (adv (adv (adv (adv b6)))))) /\ 0 <= (adv (adv (adv (adv (adv (adv (adv b6))))))) /\ 0 <= (adv (adv (adv (adv (adv (adv (adv (adv b6)))))))) };
    assert { 0 <= (adv b7) /\ 0 <= (adv (adv b7)) /\ 0 <= (adv (adv (adv b7))) /\ 0 <= (adv (adv (adv (adv b7)))) /\ 0 <= (adv (adv (adv (adv (adv b7))))) /\ 0 <= (adv (adv (adv (adv (adv (adv b7)))))) /\ 0 <= (adv (adv (adv (adv (adv (adv (adv b7))))))) /\ 0 <= (adv (adv (adv (adv (adv (adv (adv (adv b7)))))))) };
    assert { (adv (bxor (adv (bxor (adv (bxor (adv (bxor c b0)) b1)) b2)) b3)) = (bxor (bxor (bxor (adv (adv (adv (adv x0)))) (adv (adv (adv x1)))) (adv (adv x2))) (adv x3)) };
    assert { 0 <= (bxor (adv (adv (adv (adv x0)))) (adv (adv (adv x1)))) };
    assert { 0 <= (bxor (bxor (adv (adv (adv (adv x0)))) (adv (adv (adv x1)))) (adv (adv x2))) };
    assert { 0 <= (bxor (bxor (bxor (adv (adv (adv (adv x0)))) (adv (adv (adv x1)))) (adv (adv x2))) (adv x3)) };
    adv_lin (bxor (bxor (bxor (adv (adv (adv (adv x0)))) (adv (adv (adv x1)))) (adv (adv x2))) (adv x3)) b4;
    adv_lin (bxor (bxor (adv (adv (adv (adv x0)))) (adv (adv (adv x1)))) (adv (adv x2))) (adv x3);
    adv_lin (bxor (adv (adv (adv (adv x0)))) (adv (adv (adv x1)))) (adv (adv x2));
    adv_lin (adv (adv (adv (adv x0)))) (adv (adv (adv x1)));
    assert { (adv (bxor (adv (bxor (adv (bxor (adv (bxor (adv (bxor c b0)) b1)) b2)) b3)) b4)) = (bxor (bxor (bxor (bxor (adv (adv (adv (adv (adv x0))))) (adv (adv (adv (adv x1))))) (adv (adv (adv x2)))) (adv (adv x3))) (adv b4)) };
    assert { 0 <= (bxor (adv (adv (adv (adv (adv x0))))) (adv (adv (adv (adv x1))))) };
    assert { 0 <= (bxor (bxor (adv (adv (adv (adv (adv x0))))) (adv (adv (adv (adv x1))))) (adv (adv (adv x2)))) };
    assert { 0 <= (bxor (bxor (bxor (adv (adv (adv (adv (adv x0))))) (adv (adv (adv (adv x1))))) (adv (adv (adv x2)))) (adv (adv x3))) };
    assert { 0 <= (bxor (bxor (bxor (bxor (adv (adv (adv (adv (adv x0))))) (adv (adv (adv (adv x1))))) (adv (adv (adv x2)))) (adv (adv x3))) (adv b4)) };
    adv_lin (bxor (bxor (bxor (bxor (adv (adv (adv (adv (adv x0))))) (adv (adv (adv (adv x1))))) (adv (adv (adv x2)))) (adv (adv x3))) (adv b4)) b5;
    adv_lin (bxor (bxor (bxor (adv (adv (adv (adv (adv x0))))) (adv (adv (adv (adv x1))))) (adv (adv (adv x2)))) (adv (adv x3))) (adv b4);
    adv_lin (bxor (bxor (adv (adv (adv (adv (adv x0))))) (adv (adv (adv (adv x1))))) (adv (adv (adv x2)))) (adv (adv x3));
    adv_lin (bxor (adv (adv (adv (adv (adv x0))))) (adv (adv (adv (adv x1))))) (adv (adv (adv x2)));
    adv_lin (adv (adv (adv (adv (adv x0))))) (adv (adv (adv (adv x1))));
    assert { (adv (bxor (adv (bxor (adv (bxor (adv (bxor (adv (bxor (adv (bxor c b0)) b1)) b2)) b3)) b4)) b5)) = (bxor (bxor (bxor (bxor (bxor (adv (adv (adv (adv (adv (adv x0)))))) (adv (adv (adv (adv (adv x1)))))) (adv (adv (adv (adv x2))))) (adv (adv (adv x3)))) (adv (adv b4))) (adv b5)) };
    assert { 0 <= (bxor (adv (adv (adv (adv (adv (adv x0)))))) (adv (adv (adv (adv (adv x1)))))) };
    assert { 0 <= (bxor (bxor (adv (adv (adv (adv (adv (adv x0)))))) (adv (adv (adv (adv (adv x1)))))) (adv (adv (adv (adv x2))))) };
    assert { 0 <= (bxor (bxor (bxor (adv (adv (adv (adv (adv (adv x0)))))) (adv (adv (adv (adv (adv x1)))))) (adv (adv (adv (adv x2))))) (adv (adv (adv x3)))) };
    assert { 0 <= (bxor (bxor (bxor (bxor (adv (adv (adv (adv (adv (adv x0)))))) (adv (adv (adv (adv (adv x1)))))) (adv (adv (adv (adv x2))))) (adv (adv (adv x3)))) (adv (adv b4))) };
    assert { 0 <= (bxor (bxor (bxor (bxor (bxor (adv (adv (adv (adv (adv (adv x0)))))) (adv (adv (adv (adv (adv x1)))))) (adv (adv (adv (adv x2))))) (adv (adv (adv x3)))) (adv (adv b4))) (adv b5)) };
    adv_lin (bxor (bxor (bxor (bxor (bxor (adv (adv (adv (adv (adv (adv x0)))))) (adv (adv (adv (adv (adv x1)))))) (adv (adv (adv (adv x2))))) (adv (adv (adv x3)))) (adv (adv b4))) (adv b5)) b6;
    adv_lin (bxor (bxor (bxor (bxor (adv (adv (adv (adv (adv (adv x0)))))) (adv (adv (adv (adv (adv x1)))))) (adv (adv (adv (adv x2))))) (adv (adv (adv x3)))) (adv (adv b4))) (adv b5);
    adv_lin (bxor (bxor (bxor (adv (adv (adv (adv (adv (adv x0)))))) (adv (adv (adv (adv (adv x1)))))) (adv (adv (adv (adv x2))))) (adv (adv (adv x3)))) (adv (adv b4));
    adv_lin (bxor (bxor (adv (adv (adv (adv (adv (adv x0)))))) (adv (adv (adv (adv (adv x1)))))) (adv (adv (adv (adv x2))))) (adv (adv (adv x3)));
    adv_lin (bxor (adv (adv (adv (adv (adv (adv x0)))))) (adv (adv (adv (adv (adv x1)))))) (adv (adv (adv (adv x2))));
    adv_lin (adv (adv (adv (adv (adv (adv x0)))))) (adv (adv (adv (adv (adv x1)))));
    assert { (adv (bxor (adv (bxor (adv (bxor (adv (bxor (adv (bxor (adv (bxor (adv (bxor c b0)) b1)) b2)) b3)) b4)) b5)) b6)) = (bxor (bxor (bxor (bxor (bxor (bxor (adv (adv (adv (adv (adv (adv (adv x0))))))) (adv (adv (adv (adv (adv (adv x1))))))) (adv (adv (adv (adv (adv x2)))))) (adv (adv (adv (adv x3))))) (adv (adv (adv b4)))) (adv (adv b5))) (adv b6)) };
    assert { 0 <= (bxor (adv (adv (adv (adv (adv (adv (adv x0))))))) (adv (adv (adv (adv (adv (adv x1))))))) };
    assert { 0 <= (bxor (bxor (adv (adv (adv (adv (adv (adv (adv x0))))))) (adv (adv (adv (adv (adv (adv x1))))))) (adv (adv (adv (adv (adv x2)))))) };
    assert { 0 <= (bxor (bxor (bxor (adv (adv (adv (adv (adv (adv (adv x0))))))) (adv (adv (adv (adv (adv (adv x1))))))) (adv (adv (adv (adv (adv x2)))))) (adv (adv (adv (adv x3))))) };
    assert { 0 <= (bxor (bxor (bxor (bxor (adv (adv (adv (adv (adv (adv (adv x0))))))) (adv (adv (adv (adv (adv (adv x1))))))) (adv (adv (adv (adv (adv x2)))))) (adv (adv (adv (adv x3))))) (adv (adv (adv b4)))) };
    assert { 0 <= (bxor (bxor (bxor (bxor (bxor (adv (adv (adv (adv (adv (adv (adv x0))))))) (adv (adv (adv (adv (adv (adv x1))))))) (adv (adv (adv (adv (adv x2)))))) (adv (adv (adv (adv x3))))) (adv (adv (adv b4)))) (adv (adv b5))) };
    assert { 0 <= (bxor (bxor (bxor (bxor (bxor (bxor (adv (adv (adv (adv (adv (adv (adv x0))))))) (adv (adv (adv (adv (adv (adv x1))))))) (adv (adv (adv (adv (adv x2)))))) (adv (adv (adv (adv x3))))) (adv (adv (adv b4)))) (adv (adv b5))) (adv b6)) };
    adv_lin (bxor (bxor (bxor (bxor (bxor (bxor (adv (adv (adv (adv (adv (adv (adv x0))))))) (adv (adv (adv (adv (adv (adv x1))))))) (adv (adv (adv (adv (adv x2)))))) (adv (adv (adv (adv x3))))) (adv (adv (adv b4)))) (adv (adv b5))) (adv b6)) b7;
    adv_lin (bxor (bxor (bxor (bxor (bxor (adv (adv (adv (adv (adv (adv (adv x0))))))) (adv (adv (adv (adv (adv (adv x1))))))) (adv (adv (adv (adv (adv x2)))))) (adv (adv (adv (adv x3))))) (adv (adv (adv b4)))) (adv (adv b5))) (adv b6);
    adv_lin (bxor (bxor (bxor (bxor (adv (adv (adv (adv (adv (adv (adv x0))))))) (adv (adv (adv (adv (adv (adv x1))))))) (adv (adv (adv (adv (adv x2)))))) (adv (adv (adv (adv x3))))) (adv (adv (adv b4)))) (adv (adv b5));
    adv_lin (bxor (bxor (bxor (adv (adv (adv (adv (adv (adv (adv x0))))))) (adv (adv (adv (adv (adv (adv x1))))))) (adv (adv (adv (adv (adv x2)))))) (adv (adv (adv (adv x3))))) (adv (adv (adv b4)));
    adv_lin (bxor (bxor (adv (adv (adv (adv (adv (adv (adv x0))))))) (adv (adv (adv (adv (adv (adv x1))))))) (adv (adv (adv (adv (adv x2)))))) (adv (adv (adv (adv x3))));
    adv_lin (bxor (adv (adv (adv (adv (adv (adv (adv x0))))))) (adv (adv (adv (adv (adv (adv x1))))))) (adv (adv (adv (adv (adv x2)))));
    adv_lin (adv (adv (adv (adv (adv (adv (adv x0))))))) (adv (adv (adv (adv (adv (adv x1))))));
    assert { (adv (bxor (adv (bxor (adv (bxor (adv (bxor (adv (bxor (adv (bxor (adv (bxor (adv (bxor c b0)) b1)) b2)) b3)) b4)) b5)) b6)) b7)) = (bxor (bxor (bxor (bxor (bxor (bxor (bxor (adv (adv (adv (adv (adv (adv (adv (adv x0)))))))) (adv (adv (adv (adv (adv (adv (adv x1)))))))) (adv (adv (adv (adv (adv (adv x2))))))) (adv (adv (adv (adv (adv x3)))))) (adv (adv (adv (adv b4))))) (adv (adv (adv b5)))) (adv (adv b6))) (adv b7)) };
    rev8 (adv (adv (adv (adv (adv (adv (adv (adv x0)))))))) (adv (adv (adv (adv (adv (adv (adv x1))))))) (adv (adv (adv (adv (adv (adv x2)))))) (adv (adv (adv (adv (adv x3))))) (adv (adv (adv (adv b4)))) (adv (adv (adv b5))) (adv (adv b6)) (adv b7)
  let ghost crc_step8 (c: int) (p: B.t) (n s x: int)
    requires { 0 <= n /\ n + 8 <= B.len p /\ s = crc_st c p n /\ 0 <= s < 4294967296 }
    requires { x = bxor s (B.get p n + 256 * B.get p (n + 1) + 65536 * B.get p (n + 2) + 16777216 * B.get p (n + 3)) }
    ensures { 0 <= x < 4294967296 }
    ensures { crc_st c p (n + 8) = (bxor (bxor (bxor (bxor (bxor (bxor (bxor (crcT 0 (B.get p (n + 7))) (crcT 1 (B.get p (n + 6)))) (crcT 2 (B.get p (n + 5)))) (crcT 3 (B.get p (n + 4)))) (crcT 4 (div x 16777216))) (crcT 5 (mod (div x 65536) 256))) (crcT 6 (mod (div x 256) 256))) (crcT 7 (mod x 256))) }
  = let ghost b0 = B.get p n in let ghost b1 = B.get p (n + 1) in let ghost b2 = B.get p (n + 2) in let ghost b3 = B.get p (n + 3) in
    let ghost b4 = B.get p (n + 4) in let ghost b5 = B.get p (n + 5) in let ghost b6 = B.get p (n + 6) in let ghost b7 = B.get p (n + 7) in
    let ghost t1 = adv (bxor s b0) in let ghost t2 = adv (bxor t1 b1) in let ghost t3 = adv (bxor t2 b2) in let ghost t4 = adv (bxor t3 b3) in
    let ghost t5 = adv (bxor t4 b4) in let ghost t6 = adv (bxor t5 b5) in let ghost t7 = adv (bxor t6 b6) in let ghost t8 = adv (bxor t7 b7) in
    assert { crc_st c p (n + 1) = t1 }; assert { crc_st c p (n + 2) = t2 }; assert { crc_st c p (n + 3) = t3 };
    assert { crc_st c p (n + 4) = t4 }; assert { crc_st c p (n + 5) = t5 }; assert { crc_st c p (n + 6) = t6 };
    assert { crc_st c p (n + 7) = t7 }; assert { crc_st c p (n + 8) = t8 };
    slice8 s b0 b1 b2 b3 b4 b5 b6 b7 x
end

(* Checksums of concatenations. *)
module CrcCat
  use int.Int
  use Base
  use Crc
  let rec ghost crc_st_ext (c: int) (p q: B.t) (n: int)
    requires { 0 <= n <= B.len p /\ n <= B.len q }
    requires { forall i. 0 <= i < n -> B.get p i = B.get q i }
    ensures { crc_st c p n = crc_st c q n }
    variant { n }
  = if n > 0 then (crc_st_ext c p q (n - 1); assert { B.get p (n - 1) = B.get q (n - 1) }; assert { crc_st c p ((n - 1) + 1) = crc_st c q ((n - 1) + 1) })
  let rec ghost crc_st_cat (c: int) (p q: B.t) (n: int)
    requires { 0 <= n <= B.len q }
    ensures { crc_st c (B.app p q) (B.len p + n) = crc_st (crc_st c p (B.len p)) q n }
    variant { n }
  = if n > 0 then (crc_st_cat c p q (n - 1); let ghost m = B.len p + (n - 1) in assert { B.get (B.app p q) m = B.get q (n - 1) };
     assert { crc_st c (B.app p q) (m + 1) = adv (bxor (crc_st c (B.app p q) m) (B.get (B.app p q) m)) };
     assert { crc_st (crc_st c p (B.len p)) q ((n - 1) + 1) = adv (bxor (crc_st (crc_st c p (B.len p)) q (n - 1)) (B.get q (n - 1))) })
    else crc_st_ext c (B.app p q) p (B.len p)
  let ghost crc_cat (c: int) (p q: B.t)
    ensures { crc32 c (B.app p q) = crc32 (crc32 c p) q }
  = crc_st_cat (0xffffffff - c) p q (B.len q)
end

(* Adler-32, RFC 1950 section 9: s1 and s2 over the first n bytes. *)
module Adler
  use int.Int
  use int.EuclideanDivision
  use Base
  (* unreduced sums starting from (a, b) *)
  function ad1 (a: int) (p: B.t) (n: int) : int
  function ad2 (a b: int) (p: B.t) (n: int) : int
  axiom ad1_0 : forall a p [ad1 a p 0]. ad1 a p 0 = a
  axiom ad2_0 : forall a b p [ad2 a b p 0]. ad2 a b p 0 = b
  axiom ad1_s : forall a p n [ad1 a p n, B.get p n]. 0 <= n -> ad1 a p (n + 1) = ad1 a p n + B.get p n
  axiom ad2_s : forall a b p n [ad2 a b p n, B.get p n]. 0 <= n -> ad2 a b p (n + 1) = ad2 a b p n + ad1 a p n + B.get p n
  (* the checksum of the first n bytes, going on from the checksum c *)
  function adler_n (c: int) (p: B.t) (n: int) : int =
    mod (ad2 (mod c 65536) (div c 65536) p n) 65521 * 65536 + mod (ad1 (mod c 65536) p n) 65521
  function adler (c: int) (p: B.t) : int = adler_n c p (B.len p)
  predicate adler_ok (c: int) = 0 <= c < 4294967296 /\ mod c 65536 < 65521 /\ div c 65536 < 65521
end

module AdlerCat
  use int.Int
  use int.EuclideanDivision
  use Base
  use Adler
  let rec ghost ad_ext (a b: int) (p q: B.t) (n: int)
    requires { 0 <= n /\ n <= B.len p /\ n <= B.len q }
    requires { forall i. 0 <= i < n -> B.get p i = B.get q i }
    ensures { ad1 a p n = ad1 a q n /\ ad2 a b p n = ad2 a b q n }
    variant { n }
  = if n > 0 then begin
      ad_ext a b p q (n - 1);
      assert { B.get p (n - 1) = B.get q (n - 1) };
      assert { ad1 a p ((n - 1) + 1) = ad1 a q ((n - 1) + 1) };
      assert { ad2 a b p ((n - 1) + 1) = ad2 a b q ((n - 1) + 1) }
    end
  let rec ghost ad_cat (a b a2 b2 k l: int) (p q: B.t) (n: int)
    requires { 0 <= n <= B.len q }
    requires { ad1 a p (B.len p) = a2 + 65521 * k /\ ad2 a b p (B.len p) = b2 + 65521 * l }
    ensures { ad1 a (B.app p q) (B.len p + n) = ad1 a2 q n + 65521 * k }
    ensures { ad2 a b (B.app p q) (B.len p + n) = ad2 a2 b2 q n + 65521 * (l + k * n) }
    variant { n }
  = if n > 0 then begin
      ad_cat a b a2 b2 k l p q (n - 1);
      let ghost m = B.len p + (n - 1) in
      assert { B.get (B.app p q) m = B.get q (n - 1) };
      assert { ad1 a (B.app p q) (m + 1) = ad1 a (B.app p q) m + B.get q (n - 1) };
      assert { ad2 a b (B.app p q) (m + 1) = ad2 a b (B.app p q) m + ad1 a (B.app p q) m + B.get q (n - 1) };
      assert { ad1 a2 q ((n - 1) + 1) = ad1 a2 q (n - 1) + B.get q (n - 1) };
      assert { ad2 a2 b2 q ((n - 1) + 1) = ad2 a2 b2 q (n - 1) + ad1 a2 q (n - 1) + B.get q (n - 1) };
      assert { k * n = k * (n - 1) + k }
    end else (assert { n = 0 }; ad_ext a b (B.app p q) p (B.len p))
  let ghost mod_add (x k: int)
    ensures { mod (x + 65521 * k) 65521 = mod x 65521 }
  = ()
  let ghost adler_cat (c: int) (p q: B.t)
    requires { adler_ok c }
    ensures { adler c (B.app p q) = adler (adler c p) q }
  = let ghost a = mod c 65536 in let ghost b = div c 65536 in
    let ghost s1 = ad1 a p (B.len p) in let ghost s2 = ad2 a b p (B.len p) in
    let ghost a2 = mod s1 65521 in let ghost b2 = mod s2 65521 in
    let ghost k = div s1 65521 in let ghost l = div s2 65521 in
    ad_cat a b a2 b2 k l p q (B.len q);
    let ghost n = B.len q in
    assert { adler c p = b2 * 65536 + a2 };
    assert { mod (adler c p) 65536 = a2 /\ div (adler c p) 65536 = b2 };
    mod_add (ad1 a2 q n) k; mod_add (ad2 a2 b2 q n) (l + k * n);
    assert { B.len (B.app p q) = B.len p + n };
    assert { mod (ad1 a (B.app p q) (B.len p + n)) 65521 = mod (ad1 a2 q n) 65521 };
    assert { mod (ad2 a b (B.app p q) (B.len p + n)) 65521 = mod (ad2 a2 b2 q n) 65521 };
    assert { adler c (B.app p q) = mod (ad2 a2 b2 q n) 65521 * 65536 + mod (ad1 a2 q n) 65521 };
    assert { adler (adler c p) q = mod (ad2 a2 b2 q n) 65521 * 65536 + mod (ad1 a2 q n) 65521 }
end

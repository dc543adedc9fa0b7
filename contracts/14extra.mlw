(* gzip extra field records (RFC 1952, section 2.3.1.1). *)
module Extra
  use int.Int
  use int.EuclideanDivision
  use Base
  use GoTypes
  use Spec

  let rec function xd_off (r: S_xrec.t) (k: int) : int
    requires { 0 <= k <= S_xrec.len r }
    ensures { result >= 4 * k }
    variant { k }
  = if k <= 0 then 0 else xd_off r (k - 1) + 4 + B.len (xr_Bytes (S_xrec.get r (k - 1)))
  (* the k-th record is at offset o of the bytes *)
  predicate xd_at (x: xrec) (p: B.t) (o: int) =
    0 <= o /\ o + 4 + B.len (xr_Bytes x) <= B.len p
    /\ B.get p o = B.get (xr_ID x) 0 /\ B.get p (o + 1) = B.get (xr_ID x) 1
    /\ le16_at p (o + 2) = B.len (xr_Bytes x)
    /\ forall j [B.get (xr_Bytes x) j]. 0 <= j < B.len (xr_Bytes x) -> B.get p (o + 4 + j) = B.get (xr_Bytes x) j
  predicate xd_small (r: S_xrec.t) = forall i [S_xrec.get r i]. 0 <= i < S_xrec.len r -> B.len (xr_Bytes (S_xrec.get r i)) < 65536 /\ B.len (xr_ID (S_xrec.get r i)) = 2
  predicate xd_enc (r: S_xrec.t) (p: B.t) =
    forall i [S_xrec.get r i]. 0 <= i < S_xrec.len r -> xd_at (S_xrec.get r i) p (xd_off r i)
  predicate xd_maximal (p: B.t) (o: int) = o + 4 > B.len p \/ o + 4 + le16_at p (o + 2) > B.len p

  let rec lemma xd_off_ext (r s: S_xrec.t) (k: int)
    requires { 0 <= k <= S_xrec.len r /\ k <= S_xrec.len s /\ forall i [S_xrec.get s i]. 0 <= i < k -> S_xrec.get s i = S_xrec.get r i }
    ensures { xd_off s k = xd_off r k }
    variant { k }
  = if k > 0 then xd_off_ext r s (k - 1)

  let rec lemma xd_off_mono (r: S_xrec.t) (j k: int)
    requires { 0 <= j <= k <= S_xrec.len r }
    ensures { xd_off r j <= xd_off r k }
    variant { k }
  = if k > j then xd_off_mono r j (k - 1)

  (* parsing is a function of the bytes, and inverts encoding *)
  let rec ghost xd_prefix (r s: S_xrec.t) (p: B.t) (k: int) : unit
    requires { xd_small r /\ xd_small s /\ xd_enc r p /\ xd_enc s p }
    requires { 0 <= k <= S_xrec.len r /\ k <= S_xrec.len s }
    ensures { xd_off s k = xd_off r k /\ forall i. 0 <= i < k -> xr_ID (S_xrec.get s i) = xr_ID (S_xrec.get r i) /\ xr_Bytes (S_xrec.get s i) = xr_Bytes (S_xrec.get r i) }
    variant { k }
  = if k > 0 then begin
      xd_prefix r s p (k - 1);
      let a = S_xrec.get r (k - 1) in let b = S_xrec.get s (k - 1) in
      let o = xd_off r (k - 1) in
      assert { xd_at a p o /\ xd_at b p o };
      assert { B.len (xr_Bytes a) = B.len (xr_Bytes b) };
      assert { B.eq (xr_Bytes a) (xr_Bytes b) };
      assert { xr_Bytes a = xr_Bytes b };
      assert { B.eq (xr_ID a) (xr_ID b) };
      assert { xr_ID a = xr_ID b };
      assert { xd_off s k = xd_off r k }
    end
  let ghost xd_roundtrip (r s: S_xrec.t) (p: B.t) : unit
    requires { xd_small r /\ xd_small s /\ xd_enc r p /\ B.len p = xd_off r (S_xrec.len r) }
    requires { xd_enc s p /\ xd_maximal p (xd_off s (S_xrec.len s)) }
    ensures { S_xrec.len s = S_xrec.len r }
    ensures { forall i. 0 <= i < S_xrec.len r -> xr_ID (S_xrec.get s i) = xr_ID (S_xrec.get r i) /\ xr_Bytes (S_xrec.get s i) = xr_Bytes (S_xrec.get r i) }
  = let n = S_xrec.len r in let m = S_xrec.len s in
    if m > n then begin xd_prefix r s p n; assert { xd_at (S_xrec.get s n) p (xd_off s n) }; absurd end
    else begin
      xd_prefix r s p m;
      if m < n then begin assert { xd_at (S_xrec.get r m) p (xd_off r m) }; absurd end
    end
  (* any two parses of the same bytes agree *)
  let ghost xd_unique (r s: S_xrec.t) (p: B.t) : unit
    requires { xd_small r /\ xd_small s /\ xd_enc r p /\ xd_maximal p (xd_off r (S_xrec.len r)) }
    requires { xd_enc s p /\ xd_maximal p (xd_off s (S_xrec.len s)) }
    ensures { S_xrec.len s = S_xrec.len r }
    ensures { forall i. 0 <= i < S_xrec.len r -> xr_ID (S_xrec.get s i) = xr_ID (S_xrec.get r i) /\ xr_Bytes (S_xrec.get s i) = xr_Bytes (S_xrec.get r i) }
  = let n = S_xrec.len r in let m = S_xrec.len s in
    if m > n then begin xd_prefix r s p n; assert { xd_at (S_xrec.get s n) p (xd_off s n) }; absurd end
    else begin
      xd_prefix r s p m;
      if m < n then begin assert { xd_at (S_xrec.get r m) p (xd_off r m) }; absurd end
    end
end

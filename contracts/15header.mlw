(* Which gzip headers can be represented (RFC 1952, and the limits which the
   package states). *)
module Header
  use int.Int
  use Base
  use Model
  use GoTypes
  use Extra

  predicate lacks (s: B.t) (ch: int) = forall i [B.get s i]. 0 <= i < B.len s -> B.get s i <> ch
  predicate hdr_name_ok (s: B.t) = B.len s < 256 /\ lacks s 0 /\ lacks s 47 /\ lacks s 92
  predicate hdr_comment_ok (s: B.t) = B.len s < 256 /\ lacks s 0
  predicate hdr_time_ok (t: time) = time_is_zero t \/ 0 <= time_unix t < 0x100000000
  predicate hdr_extra_ok (r: S_xrec.t) = xd_off r (S_xrec.len r) <= 65535
  predicate hdr_ok (h: header) =
    hdr_name_ok h.hd_FileName /\ hdr_comment_ok h.hd_Comment /\ hdr_time_ok h.hd_LastModified /\
    0 <= h.hd_OSType <= 14 /\ hdr_extra_ok h.hd_ExtraData.xd_Records
  (* the extra data fits in memory, and each ID has two bytes *)
  predicate hdr_fits (h: header) =
    xd_off h.hd_ExtraData.xd_Records (S_xrec.len h.hd_ExtraData.xd_Records) <= 0x1fffffffffffffff /\
    S_xrec.len h.hd_ExtraData.xd_Records <= 0x1fffffffffffffff /\
    forall i [S_xrec.get h.hd_ExtraData.xd_Records i]. 0 <= i < S_xrec.len h.hd_ExtraData.xd_Records -> B.len (xr_ID (S_xrec.get h.hd_ExtraData.xd_Records i)) = 2
end
module HeaderErrs
  use int.Int
  use Base
  use Model
  use GoTypes
  predicate hdr_errs (l: S_err.t) = forall i [S_err.get l i]. 0 <= i < S_err.len l -> S_err.get l i <> ErrNil
end

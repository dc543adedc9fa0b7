(* What a Writer puts before the blocks of a gzip stream. *)
module WHead
  use int.Int
  use int.EuclideanDivision
  use Base
  use Model
  use GoTypes
  use Spec
  use Bits
  use BitsSplit
  use Adler
  use Crc
  use Extra
  use Header
  use Machine
  use MachineFacts
  use HsubFacts
  use WCfg
  use WriterInv
  use WStream
  use Nonlin

  (* the flags *)
  let ghost bor_q (q y k: int) : unit
    requires { 0 <= k /\ 0 <= q /\ 0 <= y < pow2 k }
    ensures { bor (pow2 k * q) y = pow2 k * q + y /\ bor y (pow2 k * q) = pow2 k * q + y }
  = div_unique (pow2 k * q) (pow2 k) q 0;
    assert { mod (pow2 k * q) (pow2 k) = 0 };
    mul_le (pow2 k) 0 q;
    assert { bor (pow2 k * q) y = pow2 k * q + y }
  val ghost bor_assoc (x y z: int) : unit
    requires { 0 <= x /\ 0 <= y /\ 0 <= z }
    ensures { bor (bor x y) z = bor x (bor y z) }
  let ghost gz_flags (b0 b1 b2 b3: int) : unit
    requires { (b0 = 0 \/ b0 = 1) /\ (b1 = 0 \/ b1 = 4) /\ (b2 = 0 \/ b2 = 8) /\ (b3 = 0 \/ b3 = 16) }
    ensures { bor 2 (bor (bor (bor b0 b1) b2) b3) = 2 + b0 + b1 + b2 + b3 }
  = assert { pow2 1 = 2 /\ pow2 2 = 4 /\ pow2 3 = 8 /\ pow2 4 = 16 };
    let ghost q1 = if b1 = 0 then 0 else 1 in
    let ghost q2 = if b2 = 0 then 0 else 1 in
    let ghost q3 = if b3 = 0 then 0 else 1 in
    let ghost h = q1 + 2 * q2 + 4 * q3 in
    bor_q q1 b0 2; assert { bor b0 b1 = b0 + b1 };
    bor_q q2 (b0 + b1) 3; assert { bor (b0 + b1) b2 = b0 + b1 + b2 };
    bor_q q3 (b0 + b1 + b2) 4; assert { bor (b0 + b1 + b2) b3 = b0 + b1 + b2 + b3 };
    bor_q 1 b0 1; assert { bor 2 b0 = 2 + b0 };
    assert { b0 + b1 + b2 + b3 = 4 * h + b0 };
    bor_q h b0 2; bor_q h (2 + b0) 2; bor_assoc 2 b0 (4 * h);
    assert { bor b0 (4 * h) = 4 * h + b0 }; assert { bor (2 + b0) (4 * h) = 4 * h + (2 + b0) }
  let ghost gz_flag (b0 b1 b2 b3: int) : unit
    requires { (b0 = 0 \/ b0 = 1) /\ (b1 = 0 \/ b1 = 4) /\ (b2 = 0 \/ b2 = 8) /\ (b3 = 0 \/ b3 = 16) }
    ensures { let f = 2 + b0 + b1 + b2 + b3 in (flag f 2 <-> b1 = 4) /\ (flag f 3 <-> b2 = 8) /\ (flag f 4 <-> b3 = 16) /\ flag f 1 /\ bool_int f = (if b0 = 1 then 2 else 1) /\ f < 32 }
  = assert { pow2 1 = 2 /\ pow2 2 = 4 /\ pow2 3 = 8 /\ pow2 4 = 16 }

  (* in the header of a stream which began at byte r, when s0 bytes were counted *)
  predicate wgz (fw: writer) (r s0: int) (m: mode) =
    wsync fw /\ fw.fw_pre = 0 /\ fw.fw_obLen = 0 /\ fw.fw_obBlock = 0 /\ wlive fw /\ fw.fw_gs.d_mode = m /\ fw.fw_gs.d_pos = fw.fw_q /\ fw.fw_gs.d_p0 = r /\
    r <= wwr fw /\ fw.fw_outputBytesStream = s0 + wwr fw - r /\ fw.fw_outputBytesCRC32.c32_sum = crc32 0 (hsub fw.fw_B r (wwr fw - r))
  (* the same, but for bits after d_pos *)
  predicate wgx (fw: writer) (r s0 r1 n: int) (m: mode) =
    wsync fw /\ fw.fw_pre = 0 /\ fw.fw_obLen = 0 /\ fw.fw_obBlock = 0 /\ wlive fw /\ fw.fw_gs.d_mode = m /\ fw.fw_gs.d_pos = 8 * r1 /\ fw.fw_gs.d_p0 = r /\
    r <= r1 /\ wwr fw = r1 + n /\ 0 <= n /\ fw.fw_outputBytesStream = s0 + wwr fw - r /\ fw.fw_outputBytesCRC32.c32_sum = crc32 0 (hsub fw.fw_B r (wwr fw - r))
  (* the string and the zero behind it are at byte p, or the string is empty *)
  predicate strz_at (x: stream) (p n: int) (str: B.t) =
    if B.len str = 0 then n = 0 else
    n = B.len str + 1 /\ hb x (p + n - 1) = 0 /\ forall i [B.get str i]. 0 <= i < B.len str -> hb x (p + i) = B.get str i
  let ghost wgz_first (fw: writer) (r s0: int) : unit
    requires { wsync fw /\ fw.fw_pre = 0 /\ fw.fw_obLen = 0 /\ fw.fw_obBlock = 0 /\ wlive fw /\ fw.fw_gs.d_mode = MStart /\ fw.fw_gs.d_pos = 8 * r /\ wwr fw = r + 10 }
    requires { fw.fw_format = 3 /\ gz_ok fw.fw_B r /\ 0 <= r }
    requires { fw.fw_outputBytesStream = s0 + 10 /\ fw.fw_outputBytesCRC32.c32_sum = crc32 0 (hsub fw.fw_B r 10) }
    writes { fw.fw_gs }
    ensures { wgz fw r s0 MGz0 }
    ensures { let s = old fw.fw_gs in let t = fw.fw_gs in t.d_n = s.d_n + 1 /\ t.d_j0 = s.d_out /\ t.d_out = s.d_out /\
      t.d_flags = hb fw.fw_B (r + 3) /\ t.d_mtime = hle32 fw.fw_B (r + 4) /\ t.d_os = os_of (hb fw.fw_B (r + 9)) /\ t.d_text = bool_int (hb fw.fw_B (r + 3)) /\
      t.d_extra = B.empty /\ t.d_name = B.empty /\ t.d_comment = B.empty }
  = wstart fw;
    let ghost s = fw.fw_gs in
    let ghost x = fw.fw_B in
    let ghost p = s.d_p0 in
    let ghost t = { s with d_mode = MGz0; d_flags = hb x (p + 3); d_mtime = hle32 x (p + 4);
          d_cl = (if pure { hb x (p + 8) = 2 } then 9 else if pure { hb x (p + 8) = 4 } then 1 else -1); d_os = os_of (hb x (p + 9));
          d_text = bool_int (hb x (p + 3)); d_pos = s.d_pos + 80 } in
    assert { p = r };
    assert { p_gzip x s t };
    assert { afmt (wc fw) x s.d_p0 = 3 };
    assert { step (wc fw) x (wd fw) s t };
    wgo fw t
  let ghost wgz_extra (fw: writer) (r s0 r1 n: int) : unit
    requires { wgx fw r s0 r1 n MGz0 }
    requires { if flag fw.fw_gs.d_flags 2 then n = 2 + hle16 fw.fw_B r1 else n = 0 }
    writes { fw.fw_gs }
    ensures { wgz fw r s0 MGz1 }
    ensures { fw.fw_gs = { (old fw.fw_gs) with d_mode = MGz1; d_extra = (if n = 0 then (old fw.fw_gs).d_extra else hsub fw.fw_B (r1 + 2) (n - 2)); d_pos = 8 * (r1 + n) } }
  = let ghost s = fw.fw_gs in
    let ghost x = fw.fw_B in
    let ghost t = { s with d_mode = MGz1; d_extra = (if n = 0 then s.d_extra else hsub x (r1 + 2) (n - 2)); d_pos = 8 * (r1 + n) } in
    assert { p_gz0 x s t };
    assert { step (wc fw) x (wd fw) s t };
    wgo fw t
  let ghost wgz_name (fw: writer) (r s0 r1 n: int) (str: B.t) : unit
    requires { wgx fw r s0 r1 n MGz1 }
    requires { flag fw.fw_gs.d_flags 3 <-> B.len str > 0 }
    requires { strz_at fw.fw_B r1 n str /\ fw.fw_gs.d_name = B.empty }
    requires { lacks str 0 }
    writes { fw.fw_gs }
    ensures { wgz fw r s0 MGz2 }
    ensures { fw.fw_gs = { (old fw.fw_gs) with d_mode = MGz2; d_name = str; d_pos = 8 * (r1 + n) } }
  = let ghost s = fw.fw_gs in
    let ghost x = fw.fw_B in
    if n > 0 then begin hsub_is str x r1 (n - 1); assert { forall k [hb x k]. r1 <= k < r1 + n - 1 -> hb x k = B.get str (k - r1) }; assert { zstr x r1 (r1 + n) } end;
    if n = 0 then assert { B.eq str B.empty };
    let ghost t = { s with d_mode = MGz2; d_name = str; d_pos = 8 * (r1 + n) } in
    assert { p_gz1 x s t };
    assert { step (wc fw) x (wd fw) s t };
    wgo fw t
  let ghost wgz_comment (fw: writer) (r s0 r1 n: int) (str: B.t) : unit
    requires { wgx fw r s0 r1 n MGz2 }
    requires { flag fw.fw_gs.d_flags 4 <-> B.len str > 0 }
    requires { strz_at fw.fw_B r1 n str /\ fw.fw_gs.d_comment = B.empty }
    requires { lacks str 0 }
    writes { fw.fw_gs }
    ensures { wgz fw r s0 MGz3 }
    ensures { fw.fw_gs = { (old fw.fw_gs) with d_mode = MGz3; d_comment = str; d_pos = 8 * (r1 + n) } }
  = let ghost s = fw.fw_gs in
    let ghost x = fw.fw_B in
    if n > 0 then begin hsub_is str x r1 (n - 1); assert { forall k [hb x k]. r1 <= k < r1 + n - 1 -> hb x k = B.get str (k - r1) }; assert { zstr x r1 (r1 + n) } end;
    if n = 0 then assert { B.eq str B.empty };
    let ghost t = { s with d_mode = MGz3; d_comment = str; d_pos = 8 * (r1 + n) } in
    assert { p_gz2 x s t };
    assert { step (wc fw) x (wd fw) s t };
    wgo fw t
  (* the CRC-16 ends the header *)
  let ghost wgz_crc (fw: writer) (r1: int) : unit
    requires { wsync fw /\ fw.fw_pre = 0 /\ fw.fw_obLen = 0 /\ wlive fw /\ fw.fw_gs.d_mode = MGz3 /\ fw.fw_gs.d_pos = 8 * r1 /\ wwr fw = r1 + 2 }
    requires { flag fw.fw_gs.d_flags 1 /\ hle16 fw.fw_B r1 = mod (crc32 0 (hsub fw.fw_B fw.fw_gs.d_p0 (r1 - fw.fw_gs.d_p0))) 65536 }
    writes { fw.fw_gs }
    ensures { wlive fw /\ fw.fw_gs = { (old fw.fw_gs) with d_mode = MBlock; d_fmt = 3; d_pos = 8 * (r1 + 2) } }
  = let ghost s = fw.fw_gs in
    let ghost x = fw.fw_B in
    let ghost t = { s with d_mode = MBlock; d_fmt = 3; d_pos = 8 * (r1 + 2) } in
    assert { p_gz3 x s t };
    assert { step (wc fw) x (wd fw) s t };
    wgo fw t
  (* the stored extra field is the encoding *)
  let ghost enc_hsub (r: S_xrec.t) (p: B.t) (x: stream) (i n: int) : unit
    requires { xd_enc r p /\ B.len p = n /\ forall k [B.get p k]. 0 <= k < n -> hb x (i + k) = B.get p k }
    ensures { xd_enc r (hsub x i n) }
  = hsub_is p x i n
  let ghost wsync_q (fw: writer) : unit
    requires { wsync fw }
    ensures { fw.fw_q = 8 * wwr fw + fw.fw_obLen + fw.fw_pre /\ 0 <= wwr fw }
  = ()
  let ghost hdr_parts (h: header) : unit
    requires { whdr_ok h }
    ensures { xd_small h.hd_ExtraData.xd_Records /\ xd_off h.hd_ExtraData.xd_Records (S_xrec.len h.hd_ExtraData.xd_Records) <= 65535 }
    ensures { lacks h.hd_FileName 0 /\ B.len h.hd_FileName < 256 /\ lacks h.hd_Comment 0 /\ B.len h.hd_Comment < 256 /\ 0 <= h.hd_OSType <= 14 /\ hdr_time_ok h.hd_LastModified /\ 0 <= h.hd_DataType <= 2 }
    ensures { forall i [S_xrec.get h.hd_ExtraData.xd_Records i]. 0 <= i < S_xrec.len h.hd_ExtraData.xd_Records -> B.len (xr_ID (S_xrec.get h.hd_ExtraData.xd_Records i)) = 2 }
  = ()
  let ghost strz_0 (x: stream) (p: int) (str: B.t) : unit
    requires { B.len str = 0 }
    ensures { strz_at x p 0 str }
  = ()
  let ghost strz_wb (fw: writer) (p: int) (str: B.t) : unit
    requires { B.len str > 0 /\ hb fw.fw_B (p + B.len str) = 0 /\ forall i [B.get str i]. 0 <= i < B.len str -> hb fw.fw_B (p + i) = B.get str i }
    ensures { strz_at fw.fw_B p (B.len str + 1) str }
  = ()
  let ghost enc_none (r: S_xrec.t) (p: B.t) : unit
    requires { S_xrec.len r = 0 }
    ensures { xd_enc r p }
  = ()
  let ghost le32_parts (v: int) : unit
    requires { 0 <= v < 0x100000000 }
    ensures { mod v 256 + 256 * mod (div v 256) 256 + 65536 * mod (div v 65536) 256 + 16777216 * mod (div v 16777216) 256 = v }
  = ()
  let ghost le16_parts (v: int) : unit
    requires { 0 <= v < 0x10000 }
    ensures { mod v 256 + 256 * div v 256 = v }
  = ()
end

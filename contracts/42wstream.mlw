(* A Writer and its stream.  Ghost fields, which 42wstream.ctr declares:
     fw_j0     where the data of the stream begin in hybrid.lz_h
     fw_p0     the byte of fw_B at which the stream begins
     fw_phase  which trace event was last, as in ReaderInv
     fw_bt, fw_fin  what the last BlockBegin said
   fw_gs is where a decoder of the bits so far is; for a raw stream it stays
   before the stream until the first block has a bit. *)
module WStream
  use int.Int
  use int.EuclideanDivision
  use Base
  use Model
  use GoTypes
  use Spec
  use Bits
  use BitsSplit
  use Adler
  use Crc
  use Extra
  use Header
  use Machine
  use MachineFacts
  use HsubFacts
  use WCfg
  use WriterInv

  function wc (fw: writer) : rcf = { c_fmt = fw.fw_format; c_wbits = fw.fw_wbits; c_dict = fw.fw_dict }
  function wd (fw: writer) : stream = fw.fw_hybrid.lz_h
  function wrd (fw: writer) : int = fw.fw_hybrid.lz_rd
  predicate wlive (fw: writer) = live_at (wc fw) fw.fw_B (wd fw) fw.fw_gs
  (* the window goes back over the stream, and into the dictionary *)
  predicate wwin (fw: writer) = let z = fw.fw_hybrid in
    lz_ok z /\ match_limits fw z /\ fw.fw_j0 - B.len fw.fw_dict <= z.lz_lo /\
    forall i [hb z.lz_w i]. z.lz_lo <= i -> hb z.lz_w i = if i >= fw.fw_j0 then hb z.lz_h i else B.get fw.fw_dict (B.len fw.fw_dict + i - fw.fw_j0)
  predicate whash (fw: writer) =
    adler_ok fw.fw_inputBytesAdler32.a32_sum /\
    fw.fw_inputBytesAdler32.a32_sum = adler 1 (hsub (wd fw) fw.fw_j0 (wrd fw - fw.fw_j0)) /\
    fw.fw_inputBytesCRC32.c32_sum = crc32 0 (hsub (wd fw) fw.fw_j0 (wrd fw - fw.fw_j0))
  predicate wcnt (fw: writer) =
    fw.fw_inputBytesTotal = wrd fw /\ fw.fw_inputBytesStream = wrd fw - fw.fw_j0 /\ fw.fw_outputBytesStream = wwr fw - fw.fw_p0
  (* between streams *)
  predicate widle (fw: writer) = wset fw /\ wcfg fw /\ wsync fw /\ fw.fw_pre = 0 /\ fw.fw_obLen = 0 /\ fw.fw_obBlock = 0 /\ wlive fw /\ fw.fw_inputBytesTotal = wrd fw /\
    fw.fw_gs.d_mode = MStart /\ fw.fw_gs.d_pos = fw.fw_q /\ fw.fw_gs.d_out = wrd fw /\ fw.fw_gs.d_n = fw.fw_numStreams /\ fw.fw_phase = 0
  (* in a stream, between blocks *)
  predicate wraw (fw: writer) = fw.fw_format = 1 /\ fw.fw_gs.d_mode = MStart /\ fw.fw_gs.d_out = fw.fw_j0 /\ fw.fw_gs.d_n + 1 = fw.fw_numStreams
  predicate wblk (fw: writer) = fw.fw_gs.d_mode = MBlock /\ fw.fw_gs.d_fmt = fw.fw_format /\ fw.fw_gs.d_j0 = fw.fw_j0 /\ fw.fw_gs.d_n = fw.fw_numStreams
  predicate wopen (fw: writer) = wset fw /\ wlive fw /\ fw.fw_phase = 2 /\ fw.fw_gs.d_pos = fw.fw_q /\ (wblk fw \/ wraw fw)
  (* which header a gzip stream carries *)
  predicate whdr_is (h: header) (s: dst) =
    h.hd_FileName = s.d_name /\ h.hd_Comment = s.d_comment /\ h.hd_OSType = s.d_os /\ h.hd_DataType = s.d_text /\
    (time_is_zero h.hd_LastModified -> s.d_mtime = 0) /\ (not (time_is_zero h.hd_LastModified) -> s.d_mtime = time_unix h.hd_LastModified) /\
    (xd_enc h.hd_ExtraData.xd_Records s.d_extra) /\ B.len s.d_extra = xd_off h.hd_ExtraData.xd_Records (S_xrec.len h.hd_ExtraData.xd_Records)
  (* a header which can be written *)
  predicate whdr_ok (h: header) = hdr_ok h /\ hdr_fits h /\ xd_small h.hd_ExtraData.xd_Records /\ 0 <= h.hd_DataType <= 2

  (* when an event may be reported, and what it says *)
  predicate bl_is (b: ptr_bevent) (t: int) (f: bool) = b = Ptr_bevent { be_Type = t; be_IsFinal = f }
  predicate wev_ok (fw: writer) (e: event) =
    let s = fw.fw_gs in
    if e.ev_Type = 0 then fw.fw_phase = 0 /\ s.d_mode = MStart /\ fw.fw_numStreams = s.d_n + 1
    else if e.ev_Type = 1 then fw.fw_phase = 1 /\ wcnt fw /\ fw.fw_obLen = 0 /\ fw.fw_q = s.d_pos /\ (wblk fw \/ wraw fw) /\
      match e.ev_Header with Nil_header -> false | Ptr_header h -> h.hd_WindowBits = fw.fw_wbits /\ h.hd_CompressLevel = fw.fw_clevel /\ (fw.fw_format = 2 -> h.hd_WindowBits = s.d_wb) /\ (fw.fw_format = 3 -> whdr_is h s) end
    else if e.ev_Type = 2 then fw.fw_phase = 2 /\ (bl_is e.ev_Block 1 False \/ bl_is e.ev_Block 1 True \/ bl_is e.ev_Block 2 False \/ bl_is e.ev_Block 2 True \/ bl_is e.ev_Block 3 False \/ bl_is e.ev_Block 3 True)
    else if e.ev_Type = 3 then fw.fw_phase = 3 /\ s.d_mode = MHuff /\ bl_is e.ev_Block s.d_bt s.d_fin /\ fw.fw_bt = s.d_bt /\ fw.fw_fin = s.d_fin /\
      match e.ev_Trees with Nil_tevent -> false | Ptr_tevent t ->
        t.te_LiteralLengthSizes = s.d_ll /\ t.te_DistanceSizes = s.d_dd /\
        (s.d_bt = 3 -> t.te_CodeSizes = s.d_sx /\ t.te_CodeCount = s.d_nx /\ t.te_LiteralLengthCount = s.d_nll /\ t.te_DistanceCount = s.d_nd) end
    else if e.ev_Type = 4 then fw.fw_phase = (if s.d_bt = 1 then 3 else 4) /\ bl_is e.ev_Block s.d_bt s.d_fin /\ fw.fw_bt = s.d_bt /\ fw.fw_fin = s.d_fin /\ s.d_mode = after s
    else if e.ev_Type = 5 then fw.fw_phase = 2 /\ s.d_mode = MTrailer /\ s.d_out = wrd fw /\ s.d_j0 = fw.fw_j0 /\
      match e.ev_Footer with Nil_fevent -> false | Ptr_fevent f ->
        f.fe_Adler32 = adler 1 (hsub (wd fw) s.d_j0 (s.d_out - s.d_j0)) /\ f.fe_CRC32 = crc32 0 (hsub (wd fw) s.d_j0 (s.d_out - s.d_j0)) end
    else e.ev_Type = 6 /\ fw.fw_phase = 5 /\ wcnt fw /\ fw.fw_obLen = 0 /\ s.d_mode = MStart /\ s.d_pos = fw.fw_q /\ s.d_out = wrd fw
  function wev_next (t: int) : int =
    if t = 0 then 1 else if t = 1 then 2 else if t = 2 then 3 else if t = 3 then 4 else if t = 4 then 2 else if t = 5 then 5 else 0

  let ghost wev_mark (fw: writer) (e: event) : unit
    writes { fw.fw_phase, fw.fw_bt, fw.fw_fin }
    ensures { fw.fw_phase = wev_next e.ev_Type }
    ensures { e.ev_Type <> 2 -> fw.fw_bt = old fw.fw_bt /\ fw.fw_fin = old fw.fw_fin }
    ensures { forall b. e.ev_Type = 2 -> e.ev_Block = Ptr_bevent b -> fw.fw_bt = b.be_Type /\ fw.fw_fin = b.be_IsFinal }
  = fw.fw_phase <- pure { wev_next e.ev_Type };
    if e.ev_Type = 2 then match e.ev_Block with Nil_bevent -> () | Ptr_bevent b -> fw.fw_bt <- b.be_Type; fw.fw_fin <- b.be_IsFinal end

  (* the decoder goes on to t *)
  let ghost wgo (fw: writer) (t: dst) : unit
    requires { wlive fw }
    requires { step (wc fw) fw.fw_B (wd fw) fw.fw_gs t }
    writes { fw.fw_gs }
    ensures { wlive fw /\ fw.fw_gs = t }
  = go_step (wc fw) fw.fw_B (wd fw) fw.fw_gs t; fw.fw_gs <- t

  (* into a stream *)
  let ghost wstart (fw: writer) : unit
    requires { wlive fw /\ fw.fw_gs.d_mode = MStart /\ fw.fw_gs.d_pos < 8 * hlen fw.fw_B }
    writes { fw.fw_gs }
    ensures { let s = old fw.fw_gs in wlive fw /\ fw.fw_gs = { s with d_mode = MBegin; d_n = s.d_n + 1; d_p0 = div s.d_pos 8; d_j0 = s.d_out; d_fmt = 0;
          d_flags = 0; d_mtime = 0; d_text = 0; d_os = 0; d_cl = 0; d_wb = 0; d_extra = B.empty; d_name = B.empty; d_comment = B.empty } }
  = let ghost s = fw.fw_gs in
    let ghost t = { s with d_mode = MBegin; d_n = s.d_n + 1; d_p0 = div s.d_pos 8; d_j0 = s.d_out; d_fmt = 0;
          d_flags = 0; d_mtime = 0; d_text = 0; d_os = 0; d_cl = 0; d_wb = 0; d_extra = B.empty; d_name = B.empty; d_comment = B.empty } in
    assert { p_start fw.fw_B s t };
    assert { step (wc fw) fw.fw_B (wd fw) s t };
    wgo fw t
  let ghost wzlib (fw: writer) : unit
    requires { wlive fw /\ fw.fw_gs.d_mode = MStart /\ fw.fw_format = 2 /\ 8 <= fw.fw_wbits <= 15 }
    requires { fw.fw_gs.d_pos + (if B.len fw.fw_dict > 0 then 48 else 16) <= 8 * hlen fw.fw_B }
    requires { let x = fw.fw_B in let p = div fw.fw_gs.d_pos 8 in
      hb x p = 8 + 16 * (fw.fw_wbits - 8) /\ mod (hbe16 x p) 31 = 0 /\ (fdict x p <-> B.len fw.fw_dict > 0) /\ (B.len fw.fw_dict > 0 -> hbe32 x (p + 2) = adler 1 fw.fw_dict) }
    writes { fw.fw_gs }
    ensures { let s = old fw.fw_gs in let t = fw.fw_gs in wlive fw /\ t.d_mode = MBlock /\ t.d_fmt = 2 /\ t.d_wb = fw.fw_wbits /\ t.d_n = s.d_n + 1 /\ t.d_j0 = s.d_out /\ t.d_out = s.d_out /\
      t.d_pos = s.d_pos + (if B.len fw.fw_dict > 0 then 48 else 16) }
  = wstart fw;
    let ghost s = fw.fw_gs in
    let ghost x = fw.fw_B in
    let ghost p = s.d_p0 in
    let ghost t = { s with d_mode = MBlock; d_fmt = 2; d_wb = 8 + div (hb x p) 16;
          d_cl = (if pure { div (hb x (p + 1)) 64 = 0 } then 1 else if pure { div (hb x (p + 1)) 64 = 1 } then 2 else if pure { div (hb x (p + 1)) 64 = 2 } then -1 else 9);
          d_pos = s.d_pos + (if pure { fdict x p } then 48 else 16) } in
    assert { zl_ok (wc fw) x p };
    assert { p_zlib (wc fw) x s t };
    assert { afmt (wc fw) x s.d_p0 = 2 };
    assert { step (wc fw) x (wd fw) s t };
    wgo fw t
  (* the raw form has no header: it begins when a block does *)
  let ghost wbegin (fw: writer) (q0: int) : unit
    requires { wset fw /\ wlive fw /\ fw.fw_gs.d_pos = q0 /\ (wblk fw \/ wraw fw) /\ q0 < 8 * hlen fw.fw_B }
    writes { fw.fw_gs }
    ensures { wlive fw /\ wblk fw /\ fw.fw_gs.d_pos = q0 /\ fw.fw_gs.d_out = (old fw.fw_gs).d_out }
  = if pure { wraw fw } then begin
      wstart fw;
      let ghost s = fw.fw_gs in
      let ghost t = { s with d_mode = MBlock; d_fmt = 1; d_cl = -1 } in
      assert { p_raw s t };
      assert { afmt (wc fw) fw.fw_B s.d_p0 = 1 };
      assert { step (wc fw) fw.fw_B (wd fw) s t };
      wgo fw t
    end
end

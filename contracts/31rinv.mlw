(* The states of a Reader.  Fields fr_gs, fr_own ... are ghosts which
   31reader.ctr declares:
     fr_gs      where the decoding machine is; fr_sym, fr_dsym the symbols there
     fr_who     who runs: 0 the decoding goroutine, 1 a caller of Read, 2 Close or Reset
     fr_m1 fr_m2  which mutexes the caller holds
     fr_own fr_oh fr_oerr  what the decoding goroutine has put into outputBuffer and outputError
     fr_rdlo    how much of outputBuffer it has seen taken
     fr_stopping  outputError was overwritten by Close or Reset
     fr_sg1 fr_sg2  signals sent on cv1 and cv2 since mu2 was taken: 0, 1 Signal, 2 Broadcast
     fr_phase   which trace event was last: 0 none or StreamClose, 1 StreamBegin,
                2 StreamHeader or BlockEnd, 3 BlockBegin, 4 BlockTrees, 5 StreamEnd
     fr_done    no decoding goroutine runs
     fr_wgn     1 when the decoding goroutine is counted by the WaitGroup
     fr_hok     the running checksums have been reset for this stream *)
module ReaderInv
  use int.Int
  use int.EuclideanDivision
  use Base
  use Model
  use GoTypes
  use Spec
  use Bits
  use Adler
  use Crc
  use Extra
  use Machine
  use MachineFacts
  use BitsIn

  function rc (fr: reader) : rcf = { c_fmt = fr.fr_format; c_wbits = fr.fr_wbits; c_dict = fr.fr_dict }
  function rx (fr: reader) : stream = fr.fr_inputBuffer.bf_h
  function rd (fr: reader) : stream = fr.fr_decodeBuffer.bf_h
  function cur (fr: reader) : int = 8 * fr.fr_inputBuffer.bf_rd - fr.fr_ibLen
  function ird (fr: reader) : int = fr.fr_inputBuffer.bf_rd
  function ord (fr: reader) : int = fr.fr_decodeBuffer.bf_rd
  function owr (fr: reader) : int = fr.fr_decodeBuffer.bf_wr
  (* the input side *)
  predicate in_ok0 (fr: reader) =
    buf_ok fr.fr_inputBuffer /\ fr.fr_inputBuffer.bf_wr <= hlen (rx fr) /\
    0 <= fr.fr_ibLen <= 63 /\ fr.fr_ibLen <= 8 * ird fr /\
    fr.fr_ibBlock = bv (rx fr) (cur fr) fr.fr_ibLen /\
    (fr.fr_outputErrorWasSet = True \/ fr.fr_inputError = ErrNil \/ fr.fr_inputBuffer.bf_wr = hlen (rx fr)) /\
    (fr.fr_stopIsForced = True -> fr.fr_outputErrorWasSet = True)
  predicate in_ok (fr: reader) =
    in_ok0 fr /\ fr.fr_inputBytesTotal = ird fr /\
    (fr.fr_outputErrorWasSet = True \/ fr.fr_gs.d_mode = MStart \/ fr.fr_inputBytesStream = ird fr - fr.fr_gs.d_p0)
  (* the underlying reader has nothing more *)
  predicate in_end (fr: reader) = fr.fr_inputError <> ErrNil /\ ird fr = hlen (rx fr)
  (* no code of less than n bits is there *)
  predicate sym_none (z: B.t) (x: stream) (p n: int) =
    forall sym [hcode z sym]. 0 <= sym < B.len z -> 0 < B.get z sym < n -> hcode z sym <> bv x p (B.get z sym)
  let ghost sym_none_0 (z: B.t) (x: stream) (p: int) : unit
    ensures { sym_none z x p (hmin z) }
  = ()
  let ghost sym_short_i (z: B.t) (x: stream) (p e n: int) : unit
    requires { sym_none z x p n /\ e < p + n /\ n <= hmax z }
    ensures { sym_short z x p e }
  = ()
  let ghost sym_dead_i (z: B.t) (x: stream) (p n: int) : unit
    requires { sym_none z x p n /\ hmax z < n }
    ensures { sym_dead z x p }
  = ()
  let ghost dec_hit (z: B.t) (x: stream) (p n b sym mn mx: int) : unit
    requires { hdecoded z n b sym mn mx /\ b = bv x p n /\ sym >= 0 }
    ensures { sym_at z x p sym /\ B.get z sym = n }
  = ()
  let ghost dec_next (z: B.t) (x: stream) (p n b sym mn mx: int) : unit
    requires { hdecoded z n b sym mn mx /\ b = bv x p n /\ sym < 0 /\ mx > 0 /\ sym_none z x p n /\ 0 <= n }
    ensures { n < mn /\ sym_none z x p mn }
  = assert { forall s [hcode z s]. 0 <= s < B.len z -> 0 < B.get z s < mn -> n < B.get z s -> mod (bv x p (B.get z s)) (pow2 n) = bv x p n };
    assert { forall s [hcode z s]. 0 <= s < B.len z -> B.get z s = n -> 0 < n -> hcode z s <> b by not (hmatch z s n b) }
  let ghost dec_none (z: B.t) (x: stream) (p n b sym mn mx: int) : unit
    requires { hdecoded z n b sym mn mx /\ b = bv x p n /\ sym < 0 /\ mx = 0 /\ sym_none z x p n /\ 0 <= n }
    ensures { sym_dead z x p }
  = assert { forall s [hcode z s]. 0 <= s < B.len z -> n < B.get z s -> mod (bv x p (B.get z s)) (pow2 n) = bv x p n };
    assert { forall s [hcode z s]. 0 <= s < B.len z -> B.get z s = n -> 0 < n -> hcode z s <> b by not (hmatch z s n b) }
  let ghost dtab (s: int) : unit
    requires { 4 <= s < 30 }
    ensures { dext s = div (s - 2) 2 }
    ensures { dbase s = pow2 (div (s - 2) 2 + 1) + (if mod s 2 = 1 then pow2 (div (s - 2) 2) else 0) + 1 }
  = if s = 4 then () else if s = 5 then () else if s = 6 then () else if s = 7 then () else if s = 8 then () else if s = 9 then () else if s = 10 then ()
    else if s = 11 then () else if s = 12 then () else if s = 13 then () else if s = 14 then () else if s = 15 then () else if s = 16 then () else if s = 17 then ()
    else if s = 18 then () else if s = 19 then () else if s = 20 then () else if s = 21 then () else if s = 22 then () else if s = 23 then () else if s = 24 then ()
    else if s = 25 then () else if s = 26 then () else if s = 27 then () else if s = 28 then () else ()
  (* the inverse of scr *)
  function scri (j: int) : int =
    if j = 16 then 0 else if j = 17 then 1 else if j = 18 then 2 else if j = 0 then 3 else if j = 8 then 4 else
    if j = 7 then 5 else if j = 9 then 6 else if j = 6 then 7 else if j = 10 then 8 else if j = 5 then 9 else
    if j = 11 then 10 else if j = 4 then 11 else if j = 12 then 12 else if j = 3 then 13 else if j = 13 then 14 else
    if j = 2 then 15 else if j = 14 then 16 else if j = 1 then 17 else 18
  let ghost scr_inv (i: int) : unit
    requires { 0 <= i < 19 }
    ensures { scri (scr i) = i /\ 0 <= scr i < 19 }
  = if i = 0 then () else if i = 1 then () else if i = 2 then () else if i = 3 then () else if i = 4 then () else if i = 5 then () else if i = 6 then ()
    else if i = 7 then () else if i = 8 then () else if i = 9 then () else if i = 10 then () else if i = 11 then () else if i = 12 then ()
    else if i = 13 then () else if i = 14 then () else if i = 15 then () else if i = 16 then () else if i = 17 then () else ()
  let lemma scr_inv2 (j: int) : unit
    requires { 0 <= j < 19 }
    ensures { scr (scri j) = j /\ 0 <= scri j < 19 }
  = if j = 0 then () else if j = 1 then () else if j = 2 then () else if j = 3 then () else if j = 4 then () else if j = 5 then () else if j = 6 then ()
    else if j = 7 then () else if j = 8 then () else if j = 9 then () else if j = 10 then () else if j = 11 then () else if j = 12 then ()
    else if j = 13 then () else if j = 14 then () else if j = 15 then () else if j = 16 then () else if j = 17 then () else ()
  let ghost cls_is (sx: B.t) (x: stream) (p n: int) : unit
    requires { B.len sx = 19 /\ forall j [B.get sx j]. 0 <= j < 19 -> B.get sx j = if scri j < n then bv x (p + 3 * scri j) 3 else 0 }
    ensures { sx = cls x p n }
  = let ghost c = cls x p n in
    let ref j = 0 in
    while j < 19 do
      invariant { 0 <= j <= 19 }
      invariant { forall k [B.get sx k]. 0 <= k < j -> B.get sx k = B.get c k }
      variant { 19 - j }
      scr_inv2 j; assert { B.get c (scr (scri j)) = B.get sx j }; assert { B.get c j = B.get sx j };
      j <- j + 1
    done;
    assert { B.eq sx c }
  (* the locks, as the decoding goroutine holds them *)
  predicate locks (fr: reader) =
    fr.fr_who = 0 /\ fr.fr_m1 = True /\ fr.fr_m2 = False /\ (fr.fr_stopIsForced = True -> fr.fr_outputErrorWasSet = True) /\ (fr.fr_stopping = True -> fr.fr_stopIsForced = True) /\
    (fr.fr_stopIsForced = True \/ (fr.fr_outputErrorWasSet = True <-> fr.fr_oerr <> ErrNil))
  predicate out_ok (fr: reader) =
    buf_ok fr.fr_decodeBuffer /\ win_ok fr.fr_window /\ fr.fr_window.wn_size = pow2 fr.fr_wbits /\ 0 <= fr.fr_format <= 3 /\ 8 <= fr.fr_wbits <= 15 /\
    adler_ok fr.fr_outputBytesAdler32.a32_sum /\
    (fr.fr_outputErrorWasSet = True -> fr.fr_stopIsForced = True \/ ord fr = owr fr)
  (* what is in the window *)
  predicate win_is (fr: reader) =
    let n = B.len fr.fr_dict in let w = fr.fr_window in let j0 = fr.fr_gs.d_j0 in
    w.wn_end = n + owr fr - j0 /\
    (forall i [hb w.wn_h i]. 0 <= i < n -> hb w.wn_h i = B.get fr.fr_dict i) /\
    (forall i [hb w.wn_h i]. n <= i < w.wn_end -> hb w.wn_h i = hb (rd fr) (j0 + i - n))
  predicate hash_is (fr: reader) =
    let j0 = fr.fr_gs.d_j0 in
    fr.fr_outputBytesAdler32.a32_sum = adler 1 (hsub (rd fr) j0 (ord fr - j0)) /\
    fr.fr_outputBytesCRC32.c32_sum = crc32 0 (hsub (rd fr) j0 (ord fr - j0))
  predicate own_is (fr: reader) =
    fr.fr_own = ord fr /\ fr.fr_outputBytesTotal = ord fr /\
    forall i [hb fr.fr_oh i | hb (rd fr) i]. 0 <= i < fr.fr_own -> hb fr.fr_oh i = hb (rd fr) i
  (* the output side, for as long as no error was set *)
  predicate dec (fr: reader) =
    let s = fr.fr_gs in
    live_at (rc fr) (rx fr) (rd fr) s /\ s.d_out <= owr fr /\ s.d_j0 <= ord fr /\ own_is fr /\
    fr.fr_numStreams = s.d_n /\
    (s.d_mode <> MStart -> fr.fr_outputBytesStream = ord fr - s.d_j0 /\ win_is fr) /\
    (s.d_mode = MStart -> ord fr = owr fr) /\
    (fr.fr_hok = True -> hash_is fr) /\
    (in_blocks s.d_mode -> fr.fr_actualFormat = s.d_fmt)
  (* everything which goes for the machine state has been read and produced *)
  predicate sync (fr: reader) = dec fr /\ owr fr = fr.fr_gs.d_out /\ cur fr = fr.fr_gs.d_pos /\ fr.fr_ibLen < 8
  predicate osync (fr: reader) = dec fr /\ owr fr = fr.fr_gs.d_out
  predicate gone (fr: reader) = fr.fr_stopIsForced = True
  predicate run (fr: reader) = fr.fr_outputErrorWasSet = False
  predicate dead (fr: reader) = fr.fr_outputErrorWasSet = True
  (* as every function of the decoding goroutine finds and leaves it *)
  predicate base (fr: reader) = locks fr /\ out_ok fr /\ in_ok fr
  predicate act (fr: reader) = gone fr \/ (run fr /\ osync fr)

  (* sync, by a name which proofs can leave folded *)
  predicate fin (fr: reader) = sync fr
  let ghost fin_i (fr: reader) : unit
    requires { sync fr }
    ensures { fin fr }
  = ()
  let ghost fin_e (fr: reader) : unit
    requires { fin fr }
    ensures { sync fr }
  = ()

  (* what outputError may be set to *)
  predicate legit_corrupt (fr: reader) = stuck (rc fr) (rx fr) (rd fr) fr.fr_gs fr.fr_sym fr.fr_dsym
  predicate legit_short (fr: reader) = in_end fr /\ short (rc fr) (rx fr) fr.fr_gs fr.fr_sym fr.fr_dsym
  predicate legit_end (fr: reader) = in_end fr /\ fr.fr_gs.d_mode = MStart /\ fr.fr_gs.d_pos = 8 * hlen (rx fr)
  predicate legit (fr: reader) (e: err) =
    (e = ErrCorrupt /\ legit_corrupt fr) \/
    (e = (if fr.fr_inputError = ErrEOF then ErrUnexpectedEOF else fr.fr_inputError) /\ legit_short fr) \/
    (e = fr.fr_inputError /\ legit_end fr)

  (* outputBuffer and outputError, as they are while mu2 is free *)
  predicate ob_is (fr: reader) =
    let b = fr.fr_outputBuffer in
    buf_ok b /\ b.bf_h = fr.fr_oh /\ b.bf_wr = fr.fr_own /\ fr.fr_outputError = fr.fr_oerr

  predicate ob_ok (fr: reader) = buf_ok fr.fr_outputBuffer
  predicate unstarted (fr: reader) = fr.fr_readThreadWasStarted = False
  (* who = 0 lets go of mu1 *)
  predicate rely0 (fr: reader) = fr.fr_stopIsForced = True \/ (fr.fr_outputErrorWasSet = True <-> fr.fr_oerr <> ErrNil)
  (* The decoding goroutine lets go of mu2: it only appends decoded bytes, and
     sets an error once, when all bytes before it are there. *)
  predicate give0 (fr: reader) =
    let b = fr.fr_outputBuffer in
    b.bf_h = fr.fr_oh /\ b.bf_rd = fr.fr_rdlo /\ fr.fr_own <= b.bf_wr /\
    (b.bf_wr > fr.fr_own -> fr.fr_sg1 >= 1 /\ fr.fr_oerr = ErrNil /\ fr.fr_own = ord fr /\ b.bf_wr <= owr fr) /\
    (forall i [hb fr.fr_oh i]. fr.fr_own <= i < b.bf_wr -> hb fr.fr_oh i = hb (rd fr) i) /\
    (fr.fr_outputError <> fr.fr_oerr ->
      fr.fr_oerr = ErrNil /\ legit fr fr.fr_outputError /\ fr.fr_outputError <> ErrNil /\ fr.fr_own = fr.fr_gs.d_out /\ b.bf_wr = fr.fr_own /\ fr.fr_sg1 = 2)
  (* A caller of Read does: it only takes bytes from the front, and wakes whoever can go on. *)
  predicate give1 (fr: reader) =
    let b = fr.fr_outputBuffer in
    fr.fr_rdlo <= b.bf_rd /\
    (b.bf_wr > b.bf_rd -> b.bf_rd > fr.fr_rdlo -> fr.fr_sg1 >= 1) /\
    (b.bf_wr = b.bf_rd -> b.bf_rd > fr.fr_rdlo -> fr.fr_sg2 >= 1)
  (* Close and Reset do, while there may be a decoding goroutine. *)
  predicate give2 (fr: reader) =
    let b = fr.fr_outputBuffer in
    fr.fr_done = True \/ (fr.fr_outputError <> ErrNil /\ b.bf_wr = b.bf_rd /\ fr.fr_sg1 = 2 /\ fr.fr_sg2 >= 1)

  (* the header which is reported for a stream *)
  predicate hdr_is (h: header) (s: dst) =
    h.hd_FileName = s.d_name /\ h.hd_Comment = s.d_comment /\ h.hd_DataType = s.d_text /\ h.hd_OSType = s.d_os /\
    h.hd_WindowBits = s.d_wb /\ h.hd_CompressLevel = s.d_cl /\
    (s.d_mtime = 0 -> h.hd_LastModified = time_zero) /\ (s.d_mtime <> 0 -> time_unix h.hd_LastModified = s.d_mtime) /\
    xd_small h.hd_ExtraData.xd_Records /\ xd_enc h.hd_ExtraData.xd_Records s.d_extra /\
    xd_maximal s.d_extra (xd_off h.hd_ExtraData.xd_Records (S_xrec.len h.hd_ExtraData.xd_Records))
  predicate block_is (b: ptr_bevent) (s: dst) = match b with Nil_bevent -> false | Ptr_bevent b -> b.be_Type = s.d_bt /\ b.be_IsFinal = s.d_fin end
  (* when an event may be reported, and what it says *)
  predicate ev_ok (fr: reader) (e: event) =
    let s = fr.fr_gs in
    if e.ev_Type = 0 then fr.fr_phase = 0 /\ s.d_mode = MBegin /\ fr.fr_actualFormat = 0
    else if e.ev_Type = 1 then fr.fr_phase = 1 /\ s.d_mode = MBlock /\ sync fr /\ fr.fr_ibLen = 0 /\ ord fr = s.d_j0 /\
      match e.ev_Header with Nil_header -> false | Ptr_header h -> hdr_is h s end
    else if e.ev_Type = 2 then fr.fr_phase = 2 /\
      ((s.d_mode = MBlock /\ legit_corrupt fr) \/ ((s.d_mode = MStored \/ s.d_mode = MDyn \/ s.d_mode = MHuff) /\ block_is e.ev_Block s))
    else if e.ev_Type = 3 then fr.fr_phase = 3 /\ s.d_mode = MHuff /\ block_is e.ev_Block s /\
      match e.ev_Trees with Nil_tevent -> false | Ptr_tevent t ->
        t.te_LiteralLengthSizes = s.d_ll /\ t.te_DistanceSizes = s.d_dd /\
        (s.d_bt = 3 -> t.te_CodeSizes = s.d_sx /\ t.te_CodeCount = s.d_nx /\ t.te_LiteralLengthCount = s.d_nll /\ t.te_DistanceCount = s.d_nd) end
    else if e.ev_Type = 4 then fr.fr_phase = (if s.d_bt = 1 then 3 else 4) /\ block_is e.ev_Block s /\ s.d_mode = after s
    else if e.ev_Type = 5 then fr.fr_phase = 2 /\ s.d_mode = MTrailer /\ ord fr = s.d_out /\
      match e.ev_Footer with Nil_fevent -> false | Ptr_fevent f ->
        f.fe_Adler32 = adler 1 (hsub (rd fr) s.d_j0 (s.d_out - s.d_j0)) /\ f.fe_CRC32 = crc32 0 (hsub (rd fr) s.d_j0 (s.d_out - s.d_j0)) end
    else e.ev_Type = 6 /\ fr.fr_phase = 5 /\ sync fr /\ fr.fr_ibLen = 0 /\ s.d_mode = MStart /\ ord fr = s.d_out /\ fr.fr_actualFormat = s.d_fmt
  function ev_next (t: int) : int =
    if t = 0 then 1 else if t = 1 then 2 else if t = 2 then 3 else if t = 3 then 4 else if t = 4 then 2 else if t = 5 then 5 else 0

  let ghost ev_mark (fr: reader) (e: event) : unit
    writes { fr.fr_phase }
    ensures { fr.fr_phase = ev_next e.ev_Type }
  = fr.fr_phase <- pure { ev_next e.ev_Type }

  (* between the parts of a stream's header *)
  predicate hd_at (fr: reader) (m: mode) =
    run fr /\ fin fr /\ fr.fr_ibLen = 0 /\ fr.fr_gs.d_mode = m /\ ord fr = fr.fr_gs.d_j0
  predicate hcrc_is (fr: reader) =
    fr.fr_inputBytesCRC32.c32_sum = crc32 0 (hsub (rx fr) fr.fr_gs.d_p0 (ird fr - fr.fr_gs.d_p0))

  let ghost hash_new (fr: reader) : unit
    requires { fr.fr_outputBytesAdler32.a32_sum = adler 1 (hsub (rd fr) (ord fr) 0) /\ fr.fr_outputBytesCRC32.c32_sum = crc32 0 (hsub (rd fr) (ord fr) 0) /\ ord fr = fr.fr_gs.d_j0 }
    ensures { hash_is fr }
  = ()
  let ghost xd_none () : unit
    ensures { xd_small S_xrec.empty /\ xd_enc S_xrec.empty B.empty /\ xd_maximal B.empty (xd_off S_xrec.empty (S_xrec.len S_xrec.empty)) }
  = ()

  (* as NewReader and Reset leave it *)
  predicate buf_new (b: buf) = buf_ok b /\ b.bf_rd = 0 /\ b.bf_wr = 0
  predicate rd_cfg (fr: reader) = 0 <= fr.fr_format <= 3 /\ 8 <= fr.fr_wbits <= 15 /\ 1 <= fr.fr_mlevel <= 9
  (* at any time *)
  predicate rd_shape (fr: reader) =
    rd_cfg fr /\ buf_ok fr.fr_inputBuffer /\ buf_ok fr.fr_decodeBuffer /\ buf_ok fr.fr_outputBuffer /\
    win_ok fr.fr_window /\ fr.fr_window.wn_size = pow2 fr.fr_wbits /\ adler_ok fr.fr_outputBytesAdler32.a32_sum
  predicate rd_fresh (fr: reader) =
    rd_shape fr /\ buf_new fr.fr_inputBuffer /\ buf_new fr.fr_decodeBuffer /\ buf_new fr.fr_outputBuffer /\
    fr.fr_inputError = ErrNil /\ fr.fr_outputError = ErrNil /\ fr.fr_outputErrorWasSet = False /\ fr.fr_stopIsForced = False /\ fr.fr_stopping = False /\ fr.fr_readThreadWasStopped = False /\
    fr.fr_ibBlock = 0 /\ fr.fr_ibLen = 0 /\ fr.fr_inputBytesTotal = 0 /\ fr.fr_outputBytesTotal = 0
  (* what a caller other than the decoding goroutine finds when it takes mu1, and leaves *)
  predicate at_rest (fr: reader) =
    rd_shape fr /\ (unstarted fr -> rd_fresh fr) /\ (unstarted fr \/ fr.fr_readThreadWasStopped = True -> fr.fr_done = True) /\
    (unstarted fr -> fr.fr_wgn = 0) /\ (fr.fr_done = False -> fr.fr_wgn = 1)
end

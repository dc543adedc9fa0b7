(* Values of the types of packages which are used but not verified: their
   state as far as the contracts in 11extern.ctr speak about it. *)
module Model
  use int.Int
  use Base

  (* An unbounded sequence of bytes. Where a contract says that a value is
     written to position i, it fixes hb s i; each position is written once. *)
  type stream
  function hb (s: stream) (i: int) : int
  axiom hb_range : forall s i [hb s i]. 0 <= hb s i < 256
  constant stream_zero : stream

  (* buffer.Buffer: the bytes [bf_rd, bf_wr) of the history *)
  type buf = { bf_h: stream; bf_rd: int; bf_wr: int; bf_nb: int; bf_size: int }
  constant buf_zero : buf
  predicate buf_ok (b: buf) = 0 <= b.bf_rd <= b.bf_wr <= b.bf_rd + b.bf_size /\ 2 <= b.bf_size <= 0x40000000
  (* buffer.Window: everything written; byte wn_end - d is at distance d *)
  type win = { wn_h: stream; wn_end: int; wn_nb: int; wn_size: int }
  constant win_zero : win
  predicate win_ok (w: win) = 0 <= w.wn_end /\ 1 <= w.wn_size <= 0x40000000
  (* buffer.LZ77: the input is positions [lz_rd, lz_wr) of lz_h, the window is
     [lz_lo, lz_rd) of lz_w, where lz_w coincides with lz_h from lz_from on *)
  type lz = { lz_h: stream; lz_w: stream; lz_lo: int; lz_rd: int; lz_wr: int; lz_size: int; lz_wsize: int;
    lz_min: int; lz_max: int; lz_dist: int; lz_bb: int; lz_wb: int; lz_hb: int }
  constant lz_zero : lz
  predicate lz_ok (z: lz) = z.lz_lo <= z.lz_rd <= z.lz_wr <= z.lz_rd + z.lz_size /\ 0 <= z.lz_rd /\ 4 <= z.lz_size <= 0x40000000
    /\ z.lz_rd - z.lz_lo <= z.lz_dist <= z.lz_wsize <= 0x40000000 /\ 0 <= z.lz_min <= z.lz_max <= z.lz_size

  (* huffman.Encoder and huffman.Decoder are determined by the code lengths,
     except that an Encoder for at most two symbols may be incomplete *)
  type henc = { he_sizes: B.t; he_max: int }
  type hdec = { hd_sizes: B.t }
  constant henc_zero : henc
  constant hdec_zero : hdec
  (* the longest and the shortest code length, 0 when all are 0 *)
  function hmin (s: B.t) : int
  use int.EuclideanDivision
  function hmax (s: B.t) : int
  axiom hmin_def : forall s i [hmin s, B.get s i]. 0 <= i < B.len s -> B.get s i > 0 -> 1 <= hmin s <= B.get s i <= hmax s
  axiom hmm_range : forall s [hmin s | hmax s]. 0 <= hmin s <= hmax s < 256 /\ (hmax s = 0 <-> hmin s = 0)
  axiom hmax_0 : forall s i [hmax s, B.get s i]. hmax s = 0 -> 0 <= i < B.len s -> B.get s i = 0
  (* the code of RFC 1951 section 3.2.2 for the lengths, first bit lowest;
     hvalid: the lengths are not over-subscribed *)
  function hcode (s: B.t) (sym: int) : int
  predicate hvalid (s: B.t)
  (* sym is coded by the n lowest of the bits *)
  predicate hmatch (s: B.t) (sym: int) (n bits: int) =
    0 <= sym < B.len s /\ B.get s sym = n /\ n > 0 /\ hcode s sym = bits
  (* what looking up the n bits tells: a symbol, or how many more are needed *)
  predicate hdecoded (z: B.t) (n bits sym mn mx: int) =
    (sym >= 0 -> hmatch z sym n bits) /\
    (sym < 0 -> forall s [hcode z s]. not (hmatch z s n bits)) /\
    (sym < 0 -> mx > 0 -> n < mn) /\
    (sym < 0 -> mx > 0 -> forall s [hcode z s]. 0 <= s < B.len z -> n < B.get z s < mn -> mod (hcode z s) (pow2 n) <> bits) /\
    (sym < 0 -> mx = 0 -> forall s [hcode z s]. 0 <= s < B.len z -> n < B.get z s -> mod (hcode z s) (pow2 n) <> bits)
  axiom hcode_range : forall s i [hcode s i]. 0 <= hcode s i
  axiom hcode_fits : forall s i [hvalid s, hcode s i]. hvalid s -> 0 <= i < B.len s -> B.get s i <= 15 -> hcode s i < pow2 (B.get s i)
  val ghost hmax_bound (s: B.t) (k: int) : unit
    requires { 0 <= k /\ forall i [B.get s i]. 0 <= i < B.len s -> B.get s i <= k }
    ensures { hmax s <= k }

  (* the number of bytes which an input has in all *)
  function hlen (h: stream) : int
  axiom hlen_range : forall h [hlen h]. 0 <= hlen h
  (* the codes of RFC 1951 section 3.2.6, which func init makes *)
  constant fix_ll : B.t
  axiom fix_ll_def : B.len fix_ll = 288 /\ (forall i [B.get fix_ll i]. 0 <= i < 144 -> B.get fix_ll i = 8) /\ (forall i [B.get fix_ll i]. 144 <= i < 256 -> B.get fix_ll i = 9)
    /\ (forall i [B.get fix_ll i]. 256 <= i < 280 -> B.get fix_ll i = 7) /\ (forall i [B.get fix_ll i]. 280 <= i < 288 -> B.get fix_ll i = 8)
  constant fix_d : B.t
  axiom fix_d_def : B.len fix_d = 32 /\ forall i [B.get fix_d i]. 0 <= i < 32 -> B.get fix_d i = 5
  axiom fix_valid : hvalid fix_ll /\ hvalid fix_d
  val constant gfix_dec_ll : hdec
  axiom gfix_dec_ll_is : gfix_dec_ll = { hd_sizes = fix_ll }
  val constant gfix_dec_d : hdec
  axiom gfix_dec_d_is : gfix_dec_d = { hd_sizes = fix_d }
  val constant gfix_enc_ll : henc
  axiom gfix_enc_ll_is : gfix_enc_ll = { he_sizes = fix_ll; he_max = 9 }
  val constant gfix_enc_d : henc
  axiom gfix_enc_d_is : gfix_enc_d = { he_sizes = fix_d; he_max = 5 }
  (* bytes.Buffer *)
  type bbuf = { bb_b: B.t }
  constant bbuf_zero : bbuf
  predicate fold_eq (s t: B.t)

  (* The states of RFC 1951 decoding inside RFC 1950 and RFC 1952 framing;
     the steps are in 30machine.mlw. *)
  type mode = MStart | MBegin | MGz0 | MGz1 | MGz2 | MGz3 | MBlock | MStored | MDyn | MLens | MHuff | MTrailer
  type dst = { d_mode: mode;
    d_pos: int; d_out: int;           (* bits read, bytes produced *)
    d_n: int; d_p0: int; d_j0: int;   (* stream number; the bytes read and produced before the stream *)
    d_fmt: int;
    (* header *)
    d_flags: int; d_mtime: int; d_text: int; d_os: int; d_cl: int; d_wb: int; d_extra: B.t; d_name: B.t; d_comment: B.t;
    (* block *)
    d_fin: bool; d_bt: int; d_nx: int; d_nll: int; d_nd: int; d_sx: B.t; d_lens: B.t; d_ll: B.t; d_dd: B.t;
    d_sym: int; d_dsym: int }
  type rcf = { c_fmt: int; c_wbits: int; c_dict: B.t }
  constant dst0 : dst
  axiom dst0_def : dst0.d_mode = MStart /\ dst0.d_pos = 0 /\ dst0.d_out = 0 /\ dst0.d_n = 0 /\ dst0.d_p0 = 0 /\ dst0.d_j0 = 0
end

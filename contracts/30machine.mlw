(* Decoding as a machine: what RFC 1951, 1950 and 1952 assign to an input.
   x is the input, d the output; pstep c x d s t holds when the machine goes
   from state s to state t reading bits [s.d_pos, t.d_pos) of x, and the bytes
   [s.d_out, t.d_out) of d are what that step produces. *)
module Machine
  use int.Int
  use int.EuclideanDivision
  use Base
  use Model
  use Spec
  use Bits
  use Adler
  use Crc

  (* numbers and byte strings at byte i of the stream *)
  function hbe16 (x: stream) (i: int) : int = 256 * hb x i + hb x (i + 1)
  function hle16 (x: stream) (i: int) : int = hb x i + 256 * hb x (i + 1)
  function hbe32 (x: stream) (i: int) : int = 16777216 * hb x i + 65536 * hb x (i + 1) + 256 * hb x (i + 2) + hb x (i + 3)
  function hle32 (x: stream) (i: int) : int = hb x i + 256 * hb x (i + 1) + 65536 * hb x (i + 2) + 16777216 * hb x (i + 3)
  function hsub (x: stream) (i n: int) : B.t
  axiom hsub_len : forall x i n [hsub x i n]. 0 <= n -> B.len (hsub x i n) = n
  axiom hsub_get : forall x i n k [B.get (hsub x i n) k]. 0 <= k < n -> B.get (hsub x i n) k = hb x (i + k)

  (* code sym of the code with lengths z is in the bits from p on *)
  predicate sym_at (z: B.t) (x: stream) (p sym: int) =
    0 <= sym < B.len z /\ B.get z sym > 0 /\ hcode z sym = bv x p (B.get z sym)
  (* none is *)
  predicate sym_dead (z: B.t) (x: stream) (p: int) =
    forall sym [hcode z sym]. 0 <= sym < B.len z -> B.get z sym > 0 -> hcode z sym <> bv x p (B.get z sym)
  (* none which ends by e, and longer codes need more *)
  predicate sym_short (z: B.t) (x: stream) (p e: int) =
    (forall sym [hcode z sym]. 0 <= sym < B.len z -> B.get z sym > 0 -> p + B.get z sym <= e -> hcode z sym <> bv x p (B.get z sym)) /\ e < p + hmax z
  axiom sym_unique : forall z x p a b [sym_at z x p a, sym_at z x p b]. hvalid z -> sym_at z x p a -> sym_at z x p b -> a = b

  (* the order of the code length code lengths *)
  function scr (i: int) : int =
    if i = 0 then 16 else if i = 1 then 17 else if i = 2 then 18 else if i = 3 then 0 else if i = 4 then 8 else
    if i = 5 then 7 else if i = 6 then 9 else if i = 7 then 6 else if i = 8 then 10 else if i = 9 then 5 else
    if i = 10 then 11 else if i = 11 then 4 else if i = 12 then 12 else if i = 13 then 3 else if i = 14 then 13 else
    if i = 15 then 2 else if i = 16 then 14 else if i = 17 then 1 else 15
  (* the 19 lengths of which n are stored, from bit p on *)
  function cls (x: stream) (p n: int) : B.t
  axiom cls_len : forall x p n [cls x p n]. B.len (cls x p n) = 19
  axiom cls_get : forall x p n i [B.get (cls x p n) (scr i)]. 0 <= i < 19 -> B.get (cls x p n) (scr i) = if i < n then bv x (p + 3 * i) 3 else 0
  (* the first n lengths, padded to m *)
  function pad (l: B.t) (i n m: int) : B.t
  axiom pad_len : forall l i n m [pad l i n m]. 0 <= n <= m -> B.len (pad l i n m) = m
  axiom pad_get : forall l i n m k [B.get (pad l i n m) k]. 0 <= k < m -> B.get (pad l i n m) k = if k < n then B.get l (i + k) else 0

  predicate gz_magic (x: stream) (p: int) = hb x p = 0x1f /\ hb x (p + 1) = 0x8b
  predicate zl_magic (x: stream) (p: int) = mod (hb x p) 16 = 8 /\ mod (hbe16 x p) 31 = 0
  (* the format of the stream at byte p *)
  function afmt (c: rcf) (x: stream) (p: int) : int =
    if c.c_fmt <> 0 then c.c_fmt else
    if p + 2 <= hlen x /\ gz_magic x p then 3 else if p + 2 <= hlen x /\ zl_magic x p then 2 else 1
  predicate flag (f k: int) = mod (div f (pow2 k)) 2 = 1
  predicate fdict (x: stream) (p: int) = flag (hb x (p + 1)) 5
  function os_of (b: int) : int = if 0 <= b <= 13 then b + 1 else 0
  function bool_int (f: int) : int = if mod f 2 = 1 then 2 else 1

  predicate zl_ok (c: rcf) (x: stream) (p: int) =
    zl_magic x p /\ 8 + div (hb x p) 16 <= c.c_wbits /\
    (fdict x p -> B.len c.c_dict > 0 /\ hbe32 x (p + 2) = adler 1 c.c_dict) /\ (not (fdict x p) -> B.len c.c_dict = 0)
  predicate gz_ok (x: stream) (p: int) =
    gz_magic x p /\ hb x (p + 2) = 8 /\ hb x (p + 3) < 32

  predicate p_start (x: stream) (s t: dst) =
    s.d_pos < 8 * hlen x /\
    t = { s with d_mode = MBegin; d_n = s.d_n + 1; d_p0 = div s.d_pos 8; d_j0 = s.d_out; d_fmt = 0;
          d_flags = 0; d_mtime = 0; d_text = 0; d_os = 0; d_cl = 0; d_wb = 0; d_extra = B.empty; d_name = B.empty; d_comment = B.empty }
  predicate p_raw (s t: dst) = t = { s with d_mode = MBlock; d_fmt = 1; d_cl = -1 }
  predicate p_zlib (c: rcf) (x: stream) (s t: dst) =
    let p = s.d_p0 in
    zl_ok c x p /\
    t = { s with d_mode = MBlock; d_fmt = 2; d_wb = 8 + div (hb x p) 16;
          d_cl = (if div (hb x (p + 1)) 64 = 0 then 1 else if div (hb x (p + 1)) 64 = 1 then 2 else if div (hb x (p + 1)) 64 = 2 then -1 else 9);
          d_pos = s.d_pos + (if fdict x p then 48 else 16) }
  predicate p_gzip (x: stream) (s t: dst) =
    let p = s.d_p0 in
    gz_ok x p /\
    t = { s with d_mode = MGz0; d_flags = hb x (p + 3); d_mtime = hle32 x (p + 4);
          d_cl = (if hb x (p + 8) = 2 then 9 else if hb x (p + 8) = 4 then 1 else -1); d_os = os_of (hb x (p + 9));
          d_text = bool_int (hb x (p + 3)); d_pos = s.d_pos + 80 }
  predicate p_gz0 (x: stream) (s t: dst) =
    let p = div s.d_pos 8 in
    if flag s.d_flags 2 then t = { s with d_mode = MGz1; d_extra = hsub x (p + 2) (hle16 x p); d_pos = s.d_pos + 16 + 8 * hle16 x p }
    else t = { s with d_mode = MGz1 }
  (* a zero-terminated string from byte p on, up to and with the zero before byte q *)
  predicate zstr (x: stream) (p q: int) = p < q /\ hb x (q - 1) = 0 /\ forall k [hb x k]. p <= k < q - 1 -> hb x k <> 0
  predicate p_gz1 (x: stream) (s t: dst) =
    let p = div s.d_pos 8 in let q = div t.d_pos 8 in
    if flag s.d_flags 3 then zstr x p q /\ t = { s with d_mode = MGz2; d_name = hsub x p (q - 1 - p); d_pos = 8 * q }
    else t = { s with d_mode = MGz2 }
  predicate p_gz2 (x: stream) (s t: dst) =
    let p = div s.d_pos 8 in let q = div t.d_pos 8 in
    if flag s.d_flags 4 then zstr x p q /\ t = { s with d_mode = MGz3; d_comment = hsub x p (q - 1 - p); d_pos = 8 * q }
    else t = { s with d_mode = MGz3 }
  (* the CRC-16 of the header so far *)
  function hcrc (x: stream) (s: dst) : int = mod (crc32 0 (hsub x s.d_p0 (div s.d_pos 8 - s.d_p0))) 65536
  predicate p_gz3 (x: stream) (s t: dst) =
    if flag s.d_flags 1 then hle16 x (div s.d_pos 8) = hcrc x s /\ t = { s with d_mode = MBlock; d_fmt = 3; d_pos = s.d_pos + 16 }
    else t = { s with d_mode = MBlock; d_fmt = 3 }

  predicate p_block (x: stream) (s t: dst) =
    let b = bv x s.d_pos 3 in
    t = { s with d_fin = t.d_fin; d_bt = 1 + div b 2; d_pos = s.d_pos + 3; d_mode = t.d_mode; d_ll = t.d_ll; d_dd = t.d_dd } /\
    (t.d_fin = True <-> mod b 2 = 1) /\
    ((div b 2 = 0 /\ t.d_mode = MStored /\ t.d_ll = s.d_ll /\ t.d_dd = s.d_dd) \/
     (div b 2 = 1 /\ t.d_mode = MHuff /\ t.d_ll = fix_ll /\ t.d_dd = fix_d) \/
     (div b 2 = 2 /\ t.d_mode = MDyn /\ t.d_ll = s.d_ll /\ t.d_dd = s.d_dd))
  function after (s: dst) : mode = if s.d_fin then MTrailer else MBlock
  predicate p_stored (x d: stream) (s t: dst) =
    let p = div (align8 s.d_pos) 8 in
    let n = hle16 x p in
    n + hle16 x (p + 2) = 65535 /\
    t = { s with d_mode = after s; d_pos = 8 * (p + 4 + n); d_out = s.d_out + n } /\
    forall k [hb d k]. s.d_out <= k < s.d_out + n -> hb d k = hb x (p + 4 + k - s.d_out)

  function dyn_nll (x: stream) (p: int) : int = 257 + mod (bv x p 14) 32
  function dyn_nd (x: stream) (p: int) : int = 1 + mod (div (bv x p 14) 32) 32
  function dyn_nx (x: stream) (p: int) : int = 4 + mod (div (bv x p 14) 1024) 16
  predicate p_dyn (x: stream) (s t: dst) =
    let p = s.d_pos in
    dyn_nll x p <= 286 /\ dyn_nd x p <= 30 /\ hvalid (cls x (p + 14) (dyn_nx x p)) /\
    t = { s with d_mode = MLens; d_nx = dyn_nx x p; d_nll = dyn_nll x p; d_nd = dyn_nd x p; d_sx = cls x (p + 14) (dyn_nx x p);
          d_lens = B.empty; d_pos = p + 14 + 3 * dyn_nx x p }
  (* the number of lengths which sym stands for, and the extra bits behind it at p *)
  function rep_n (x: stream) (p sym: int) : int = if sym < 16 then 1 else xbase sym + bv x p (xext sym)
  predicate p_lens (x: stream) (s t: dst) =
    let p = s.d_pos + B.get s.d_sx t.d_sym in
    let n = B.len s.d_lens in
    let k = rep_n x p t.d_sym in
    sym_at s.d_sx x s.d_pos t.d_sym /\ n < s.d_nll + s.d_nd /\ n + k <= s.d_nll + s.d_nd /\ (t.d_sym = 16 -> n > 0) /\
    t = { s with d_sym = t.d_sym; d_pos = p + xext t.d_sym; d_lens = t.d_lens } /\
    B.len t.d_lens = n + k /\
    (forall i [B.get t.d_lens i]. 0 <= i < n -> B.get t.d_lens i = B.get s.d_lens i) /\
    (forall i [B.get t.d_lens i]. n <= i < n + k -> B.get t.d_lens i =
      if t.d_sym < 16 then t.d_sym else if t.d_sym = 16 then B.get s.d_lens (n - 1) else 0)
  predicate p_trees (s t: dst) =
    let l = pad s.d_lens 0 s.d_nll 288 in
    let d = pad s.d_lens s.d_nll s.d_nd 32 in
    B.len s.d_lens = s.d_nll + s.d_nd /\ hvalid l /\ hvalid d /\
    t = { s with d_mode = MHuff; d_ll = l; d_dd = d }

  (* the byte before position k of the output: output of this stream, or dictionary *)
  function prior (c: rcf) (d: stream) (s: dst) (k: int) : int =
    if k >= s.d_j0 then hb d k else B.get c.c_dict (B.len c.c_dict + k - s.d_j0)
  predicate p_lit (x d: stream) (s t: dst) =
    t.d_sym < 256 /\ sym_at s.d_ll x s.d_pos t.d_sym /\ hb d s.d_out = t.d_sym /\
    t = { s with d_sym = t.d_sym; d_pos = s.d_pos + B.get s.d_ll t.d_sym; d_out = s.d_out + 1 }
  predicate p_eob (x: stream) (s t: dst) =
    t.d_sym = 256 /\ sym_at s.d_ll x s.d_pos 256 /\
    t = { s with d_sym = 256; d_pos = s.d_pos + B.get s.d_ll 256; d_mode = after s }
  (* the parts of a match *)
  function m_p1 (s: dst) (sym: int) : int = s.d_pos + B.get s.d_ll sym
  function m_p2 (s: dst) (sym: int) : int = m_p1 s sym + lext sym
  function m_len (x: stream) (s: dst) (sym: int) : int = lbase sym + bv x (m_p1 s sym) (lext sym)
  function m_p3 (s: dst) (sym dsym: int) : int = m_p2 s sym + B.get s.d_dd dsym
  function m_dist (x: stream) (s: dst) (sym dsym: int) : int = dbase dsym + bv x (m_p3 s sym dsym) (dext dsym)
  predicate dist_ok (c: rcf) (s: dst) (k: int) = k <= s.d_out - s.d_j0 + B.len c.c_dict /\ k <= pow2 c.c_wbits
  predicate p_copy (c: rcf) (x d: stream) (s t: dst) =
    let sym = t.d_sym in let dsym = t.d_dsym in
    let n = m_len x s sym in let k = m_dist x s sym dsym in
    257 <= sym <= 285 /\ sym_at s.d_ll x s.d_pos sym /\ dsym <= 29 /\ sym_at s.d_dd x (m_p2 s sym) dsym /\
    dist_ok c s k /\
    t = { s with d_sym = sym; d_dsym = dsym; d_pos = m_p3 s sym dsym + dext dsym; d_out = s.d_out + n } /\
    forall j [hb d j]. s.d_out <= j < s.d_out + n -> hb d j = prior c d s (j - k)

  predicate p_trail (x d: stream) (s t: dst) =
    let p = div (align8 s.d_pos) 8 in
    let b = hsub d s.d_j0 (s.d_out - s.d_j0) in
    (s.d_fmt = 1 /\ t = { s with d_mode = MStart; d_pos = 8 * p }) \/
    (s.d_fmt = 2 /\ hbe32 x p = adler 1 b /\ t = { s with d_mode = MStart; d_pos = 8 * (p + 4) }) \/
    (s.d_fmt = 3 /\ hle32 x p = crc32 0 b /\ hle32 x (p + 4) = mod (s.d_out - s.d_j0) 4294967296 /\ t = { s with d_mode = MStart; d_pos = 8 * (p + 8) })

  predicate pstep (c: rcf) (x d: stream) (s t: dst) =
    if s.d_mode = MStart then (p_start x s t) else
    if s.d_mode = MBegin then ((afmt c x s.d_p0 = 1 /\ p_raw s t) \/ (afmt c x s.d_p0 = 2 /\ p_zlib c x s t) \/ (afmt c x s.d_p0 = 3 /\ p_gzip x s t)) else
    if s.d_mode = MGz0 then (p_gz0 x s t) else
    if s.d_mode = MGz1 then (p_gz1 x s t) else
    if s.d_mode = MGz2 then (p_gz2 x s t) else
    if s.d_mode = MGz3 then (p_gz3 x s t) else
    if s.d_mode = MBlock then (p_block x s t) else
    if s.d_mode = MStored then (p_stored x d s t) else
    if s.d_mode = MDyn then (p_dyn x s t) else
    if s.d_mode = MLens then (p_lens x s t \/ p_trees s t) else
    if s.d_mode = MHuff then (p_lit x d s t \/ p_eob x s t \/ p_copy c x d s t) else
    (p_trail x d s t)
  (* within the input *)
  predicate step (c: rcf) (x d: stream) (s t: dst) = pstep c x d s t /\ t.d_pos <= 8 * hlen x
  (* step as a name of its own: ostep is defined to be step, which
     go_ostep and ostep_step (below) unfold where that is wanted *)
  predicate ostep (c: rcf) (x d: stream) (s t: dst)
  inductive reach (c: rcf) (x d: stream) (s: dst) =
  | reach_init : forall c x d, s: dst. s.d_mode = MStart /\ s.d_pos = 0 /\ s.d_out = 0 /\ s.d_n = 0 -> reach c x d s
  | reach_step : forall c x d s t. reach c x d s -> ostep c x d s t -> reach c x d t

  (* The input is malformed at s: the bits which show it are all there.
     sym and dsym are the symbols at s, when there are any. *)
  predicate stuck (c: rcf) (x d: stream) (s: dst) (sym dsym: int) =
    let e = 8 * hlen x in
    let p = s.d_p0 in
    let q = div s.d_pos 8 in
    let al = align8 s.d_pos in
    if s.d_mode = MStart then false else
    if s.d_mode = MBegin then ((afmt c x p = 2 /\ p + 2 <= hlen x /\ (not (zl_magic x p) \/ 8 + div (hb x p) 16 > c.c_wbits \/
           (fdict x p /\ p + 6 <= hlen x /\ (B.len c.c_dict = 0 \/ hbe32 x (p + 2) <> adler 1 c.c_dict)) \/
           (not (fdict x p) /\ B.len c.c_dict > 0))) \/
        (afmt c x p = 3 /\ p + 10 <= hlen x /\ not (gz_ok x p))) else
    if s.d_mode = MGz0 \/ s.d_mode = MGz1 \/ s.d_mode = MGz2 then false else
    if s.d_mode = MGz3 then (flag s.d_flags 1 /\ q + 2 <= hlen x /\ hle16 x q <> hcrc x s) else
    if s.d_mode = MBlock then (s.d_pos + 3 <= e /\ div (bv x s.d_pos 3) 2 = 3) else
    if s.d_mode = MStored then (al + 32 <= e /\ hle16 x (div al 8) + hle16 x (div al 8 + 2) <> 65535) else
    if s.d_mode = MDyn then (let p = s.d_pos in p + 14 <= e /\
        (dyn_nll x p > 286 \/ dyn_nd x p > 30 \/ (p + 14 + 3 * dyn_nx x p <= e /\ not (hvalid (cls x (p + 14) (dyn_nx x p)))))) else
    if s.d_mode = MLens then ((B.len s.d_lens < s.d_nll + s.d_nd /\
          (sym_dead s.d_sx x s.d_pos \/
            (sym_at s.d_sx x s.d_pos sym /\ s.d_pos + B.get s.d_sx sym <= e /\
              ((sym = 16 /\ B.len s.d_lens = 0) \/
               (s.d_pos + B.get s.d_sx sym + xext sym <= e /\ B.len s.d_lens + rep_n x (s.d_pos + B.get s.d_sx sym) sym > s.d_nll + s.d_nd))))) \/
        (B.len s.d_lens = s.d_nll + s.d_nd /\ (not (hvalid (pad s.d_lens 0 s.d_nll 288)) \/ not (hvalid (pad s.d_lens s.d_nll s.d_nd 32))))) else
    if s.d_mode = MHuff then (sym_dead s.d_ll x s.d_pos \/
        (sym_at s.d_ll x s.d_pos sym /\ s.d_pos + B.get s.d_ll sym <= e /\
          (sym > 285 \/
           (257 <= sym /\ m_p2 s sym <= e /\
             (sym_dead s.d_dd x (m_p2 s sym) \/
               (sym_at s.d_dd x (m_p2 s sym) dsym /\ m_p3 s sym dsym <= e /\
                 (dsym > 29 \/ (m_p3 s sym dsym + dext dsym <= e /\ not (dist_ok c s (m_dist x s sym dsym)))))))))) else
    ((s.d_fmt = 2 /\ al + 32 <= e /\ hbe32 x (div al 8) <> adler 1 (hsub d s.d_j0 (s.d_out - s.d_j0))) \/
        (s.d_fmt = 3 /\ al + 64 <= e /\ (hle32 x (div al 8) <> crc32 0 (hsub d s.d_j0 (s.d_out - s.d_j0)) \/
          hle32 x (div al 8 + 4) <> mod (s.d_out - s.d_j0) 4294967296)))

  (* The input ends inside what comes at s. *)
  predicate short (c: rcf) (x: stream) (s: dst) (sym dsym: int) =
    let e = 8 * hlen x in
    let p = s.d_p0 in
    let q = div s.d_pos 8 in
    let al = align8 s.d_pos in
    if s.d_mode = MStart then false else
    if s.d_mode = MBegin then ((afmt c x p = 2 /\ (hlen x < p + 2 \/ (hlen x < p + 6 /\ fdict x p))) \/
        (afmt c x p = 3 /\ hlen x < p + 10)) else
    if s.d_mode = MGz0 then (flag s.d_flags 2 /\ (hlen x < q + 2 \/ hlen x < q + 2 + hle16 x q)) else
    if s.d_mode = MGz1 then (flag s.d_flags 3 /\ forall k [hb x k]. q <= k < hlen x -> hb x k <> 0) else
    if s.d_mode = MGz2 then (flag s.d_flags 4 /\ forall k [hb x k]. q <= k < hlen x -> hb x k <> 0) else
    if s.d_mode = MGz3 then (flag s.d_flags 1 /\ hlen x < q + 2) else
    if s.d_mode = MBlock then (e < s.d_pos + 3) else
    if s.d_mode = MStored then (e < al + 32 \/ (hle16 x (div al 8) + hle16 x (div al 8 + 2) = 65535 /\ e < al + 32 + 8 * hle16 x (div al 8))) else
    if s.d_mode = MDyn then (e < s.d_pos + 14 \/ e < s.d_pos + 14 + 3 * dyn_nx x s.d_pos) else
    if s.d_mode = MLens then (B.len s.d_lens < s.d_nll + s.d_nd /\ (sym_short s.d_sx x s.d_pos e \/
        (sym_at s.d_sx x s.d_pos sym /\ e < s.d_pos + B.get s.d_sx sym + xext sym))) else
    if s.d_mode = MHuff then (sym_short s.d_ll x s.d_pos e \/
        (sym_at s.d_ll x s.d_pos sym /\ 257 <= sym <= 285 /\
          (e < m_p2 s sym \/ sym_short s.d_dd x (m_p2 s sym) e \/
           (sym_at s.d_dd x (m_p2 s sym) dsym /\ dsym <= 29 /\ e < m_p3 s sym dsym + dext dsym)))) else
    ((s.d_fmt = 2 /\ e < al + 32) \/ (s.d_fmt = 3 /\ e < al + 64))
end

(* Facts which make the machine a decoding: it is deterministic, and where the
   input is malformed or ends no step is possible. *)
module MachineFacts
  use int.Int
  use int.EuclideanDivision
  use Base
  use Model
  use Spec
  use Bits
  use BitsSplit
  use Adler
  use Crc
  use Machine

  (* what every reachable state satisfies *)
  predicate in_header (m: mode) = m = MBegin \/ m = MGz0 \/ m = MGz1 \/ m = MGz2 \/ m = MGz3
  predicate in_blocks (m: mode) = m = MBlock \/ m = MStored \/ m = MDyn \/ m = MLens \/ m = MHuff \/ m = MTrailer
  predicate dinv (c: rcf) (x: stream) (s: dst) =
    0 <= s.d_pos <= 8 * hlen x /\ 0 <= s.d_j0 <= s.d_out /\ 0 <= s.d_p0 /\ 8 * s.d_p0 <= s.d_pos /\ 0 <= s.d_n /\
    (s.d_mode = MStart \/ in_header s.d_mode -> mod s.d_pos 8 = 0) /\ (s.d_mode = MBegin -> s.d_pos = 8 * s.d_p0) /\
    (in_header s.d_mode -> s.d_out = s.d_j0) /\
    (in_blocks s.d_mode -> 1 <= s.d_fmt <= 3) /\
    (s.d_mode = MHuff -> hvalid s.d_ll /\ hvalid s.d_dd /\ B.len s.d_ll = 288 /\ B.len s.d_dd = 32) /\
    (s.d_mode = MLens -> hvalid s.d_sx /\ B.len s.d_sx = 19 /\ B.len s.d_lens <= s.d_nll + s.d_nd /\ 257 <= s.d_nll <= 286 /\ 1 <= s.d_nd <= 30)
  let ghost dinv_start (c: rcf) (x d: stream) (s t: dst) : unit
    requires { dinv c x s /\ step c x d s t /\ (s.d_mode = MStart) }
    ensures { dinv c x t }
  = ()
  let ghost dinv_begin (c: rcf) (x d: stream) (s t: dst) : unit
    requires { dinv c x s /\ step c x d s t /\ (s.d_mode = MBegin) }
    ensures { dinv c x t }
  = ()
  let ghost dinv_gz (c: rcf) (x d: stream) (s t: dst) : unit
    requires { dinv c x s /\ step c x d s t /\ (s.d_mode = MGz0 \/ s.d_mode = MGz1 \/ s.d_mode = MGz2 \/ s.d_mode = MGz3) }
    ensures { dinv c x t }
  = ()
  let ghost dinv_block (c: rcf) (x d: stream) (s t: dst) : unit
    requires { dinv c x s /\ step c x d s t /\ (s.d_mode = MBlock) }
    ensures { dinv c x t }
  = bv_range x s.d_pos 3
  let ghost dinv_stored (c: rcf) (x d: stream) (s t: dst) : unit
    requires { dinv c x s /\ step c x d s t /\ (s.d_mode = MStored) }
    ensures { dinv c x t }
  = ()
  let ghost dinv_dyn (c: rcf) (x d: stream) (s t: dst) : unit
    requires { dinv c x s /\ step c x d s t /\ (s.d_mode = MDyn) }
    ensures { dinv c x t }
  = bv_range x s.d_pos 14; assert { 257 <= t.d_nll <= 286 /\ 1 <= t.d_nd <= 30 }; assert { B.len t.d_sx = 19 /\ hvalid t.d_sx }
  let ghost dinv_lens (c: rcf) (x d: stream) (s t: dst) : unit
    requires { dinv c x s /\ step c x d s t /\ (s.d_mode = MLens) }
    ensures { dinv c x t }
  = ()
  let ghost dinv_huff (c: rcf) (x d: stream) (s t: dst) : unit
    requires { dinv c x s /\ step c x d s t /\ (s.d_mode = MHuff) }
    ensures { dinv c x t }
  = ()
  let ghost dinv_trail (c: rcf) (x d: stream) (s t: dst) : unit
    requires { dinv c x s /\ step c x d s t /\ (s.d_mode = MTrailer) }
    ensures { dinv c x t }
  = ()
  let ghost dinv_step (c: rcf) (x d: stream) (s t: dst) : unit
    requires { dinv c x s /\ step c x d s t }
    ensures { dinv c x t }
  = match s.d_mode with
    | MStart -> dinv_start c x d s t
    | MBegin -> dinv_begin c x d s t
    | MGz0 | MGz1 | MGz2 | MGz3 -> dinv_gz c x d s t
    | MBlock -> dinv_block c x d s t
    | MStored -> dinv_stored c x d s t
    | MDyn -> dinv_dyn c x d s t
    | MLens -> dinv_lens c x d s t
    | MHuff -> dinv_huff c x d s t
    | MTrailer -> dinv_trail c x d s t
    end
  (* a state which the decoder can be in *)
  predicate live_at (c: rcf) (x d: stream) (s: dst) = reach c x d s /\ dinv c x s
  let ghost go_reach (c: rcf) (x d: stream) (s t: dst) : unit
    requires { reach c x d s }
    requires { ostep c x d s t }
    ensures { reach c x d t }
  = ()
  (* where decoding starts *)
  predicate dst_new (s: dst) = s.d_mode = MStart /\ s.d_pos = 0 /\ s.d_out = 0 /\ s.d_n = 0 /\ s.d_j0 = 0 /\ s.d_p0 = 0
  val ghost go_init (c: rcf) (x d: stream) : dst
    ensures { dst_new result /\ reach c x d result /\ live_at c x d result }
  val ghost go_ostep (c: rcf) (x d: stream) (s t: dst) : unit
    requires { step c x d s t }
    ensures { ostep c x d s t }
  val ghost ostep_step (c: rcf) (x d: stream) (s t: dst) : unit
    requires { ostep c x d s t }
    ensures { step c x d s t }
  let ghost go_step (c: rcf) (x d: stream) (s t: dst) : unit
    requires { live_at c x d s }
    requires { step c x d s t }
    ensures { live_at c x d t }
  = dinv_step c x d s t; go_ostep c x d s t; go_reach c x d s t
end

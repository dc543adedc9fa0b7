(* The states of a Writer.  Ghost fields, which 41writer.ctr declares:
     fw_B     the bits it puts out, from Reset on, as the bytes which they make
     fw_q     how many bits there are so far; emit decides the next ones
     fw_pre   how many of them are neither in obBlock nor in output
     fw_uerr  the error which the underlying writer reported
     fw_gs    what the decoder of the bits so far would have come to *)
module WriterInv
  use int.Int
  use int.EuclideanDivision
  use Base
  use Model
  use GoTypes
  use Spec
  use Bits
  use Adler
  use Crc
  use Machine
  use MachineFacts
  use WCfg

  function wwr (fw: writer) : int = fw.fw_output.bf_wr
  (* what has been put out: bytes in output (and before it), bits in obBlock *)
  predicate same_hb (h x: stream) (n: int) = forall i [hb h i]. 0 <= i < n -> hb h i = hb x i
  predicate wsync (fw: writer) =
    buf_ok fw.fw_output /\ 0 <= wwr fw /\ 0 <= fw.fw_obLen <= 64 /\ 0 <= fw.fw_pre /\
    fw.fw_q = 8 * wwr fw + fw.fw_obLen + fw.fw_pre /\ fw.fw_outputBytesTotal = wwr fw /\ fw.fw_q <= 8 * hlen fw.fw_B /\
    fw.fw_obBlock = bv fw.fw_B (8 * wwr fw) fw.fw_obLen /\
    same_hb fw.fw_output.bf_h fw.fw_B (wwr fw)
  predicate wsync0 (fw: writer) = wsync fw /\ fw.fw_pre = 0 /\ fw.fw_obLen < 64 /\ fw.fw_state <= 3
  (* the Writer has failed *)
  predicate wfail (fw: writer) = fw.fw_state = 4 /\ fw.fw_err <> ErrNil /\ fw.fw_err = fw.fw_uerr
  predicate wsame (fw fv: writer) = fw.fw_state = fv.fw_state /\ fw.fw_err = fv.fw_err /\ fw.fw_output.bf_size = fv.fw_output.bf_size /\ fw.fw_output.bf_nb = fv.fw_output.bf_nb

  (* the bytes which went to output since *)
  predicate wcount (fw fv: writer) = wwr fv <= wwr fw /\ fw.fw_outputBytesStream = fv.fw_outputBytesStream + wwr fw - wwr fv /\
    fw.fw_outputBytesCRC32.c32_sum = crc32 fv.fw_outputBytesCRC32.c32_sum (hsub fw.fw_B (wwr fv) (wwr fw - wwr fv))

  (* after n whole bytes *)
  predicate wbytes (fw fv: writer) (n: int) = wsync fw /\ fw.fw_pre = 0 /\ fw.fw_obLen = 0 /\ fw.fw_obBlock = 0 /\ wsame fw fv /\ wcount fw fv /\
    fw.fw_q = align8 fv.fw_q + 8 * n /\ wwr fw = wwr fv + div (fv.fw_obLen + 7) 8 + n
  (* the i-th byte after the bits so far *)
  function wb (fw fv: writer) (i: int) : int = hb fw.fw_B (div (align8 fv.fw_q) 8 + i)

  let ghost err_or (e f: err) : err
    ensures { result = if e <> ErrNil then e else f }
  = if pure { e <> ErrNil } then e else f

  (* decides the next n bits: fw_B is what they turn out to be *)
  val ghost emit (fw: writer) (n v: int) : unit
    requires { 0 <= n /\ 0 <= v < pow2 n }
    writes { fw.fw_q }
    ensures { fw.fw_q = old fw.fw_q + n /\ bv fw.fw_B (old fw.fw_q) n = v /\ fw.fw_q <= 8 * hlen fw.fw_B }
  val ghost emit_bytes (fw: writer) (p: B.t) : unit
    requires { mod fw.fw_q 8 = 0 }
    writes { fw.fw_q }
    ensures { fw.fw_q = old fw.fw_q + 8 * B.len p /\ fw.fw_q <= 8 * hlen fw.fw_B }
    ensures { forall k [B.get p k]. 0 <= k < B.len p -> hb fw.fw_B (div (old fw.fw_q) 8 + k) = B.get p k }
end

(* The options of buffer.LZ77. *)
module LzOpt
  use int.Int
  use Base
  use Model
  use GoTypes
  predicate lz_off (o: lzopt) = o.lo_MaxMatchLength = 0 \/ (o.lo_HasMaxMatchDistance = True /\ o.lo_MaxMatchDistance = 0)
  (* what an LZ77 makes of them *)
  predicate lz_cfg (z: lz) (o: lzopt) =
    z.lz_bb = o.lo_BufferNumBits /\ z.lz_wb = o.lo_WindowNumBits /\ z.lz_size = pow2 z.lz_bb /\ z.lz_wsize = pow2 z.lz_wb /\
    (lz_off o -> z.lz_min = 0 /\ z.lz_max = 0 /\ z.lz_dist = 0 /\ z.lz_hb = 0) /\
    (not (lz_off o) -> z.lz_min = imax 1 o.lo_MinMatchLength /\ z.lz_max = o.lo_MaxMatchLength /\
      z.lz_dist = (if o.lo_HasMaxMatchDistance then imin o.lo_MaxMatchDistance z.lz_wsize else z.lz_wsize) /\
      z.lz_hb = (if z.lz_min < 4 then 0 else o.lo_HashNumBits))
  predicate lz_same (z y: lz) = z.lz_bb = y.lz_bb /\ z.lz_wb = y.lz_wb /\ z.lz_hb = y.lz_hb /\ z.lz_size = y.lz_size /\ z.lz_wsize = y.lz_wsize /\
    z.lz_min = y.lz_min /\ z.lz_max = y.lz_max /\ z.lz_dist = y.lz_dist
end

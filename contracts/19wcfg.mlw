(* The configuration of a Writer. *)
module WCfg
  use int.Int
  use Base
  use Model
  use GoTypes
  predicate wset (fw: writer) = 1 <= fw.fw_format <= 3 /\ fw.fw_method = 0 /\ 0 <= fw.fw_strategy <= 3 /\ 0 <= fw.fw_clevel <= 9 /\
    1 <= fw.fw_mlevel <= 9 /\ 8 <= fw.fw_wbits <= 15
  (* the limits which strategy and window size put on matches *)
  predicate match_limits (fw: writer) (z: lz) =
    z.lz_max <= 258 /\ (z.lz_max > 0 -> 3 <= z.lz_min) /\ z.lz_dist <= pow2 fw.fw_wbits /\
    (fw.fw_strategy = 1 -> z.lz_max = 0) /\ (fw.fw_strategy = 2 -> z.lz_dist <= 1)
  predicate wcfg (fw: writer) =
    (fw.fw_clevel = 0 -> fw.fw_cfg.cc_compressFn = Fn_compressStore) /\
    (fw.fw_clevel > 0 -> fw.fw_cfg.cc_compressFn = Fn_compressSlow \/ fw.fw_cfg.cc_compressFn = Fn_compressFast \/
       fw.fw_cfg.cc_compressFn = Fn_compressRLE \/ fw.fw_cfg.cc_compressFn = Fn_compressHuff) /\
    lz_ok fw.fw_hybrid /\ match_limits fw fw.fw_hybrid
end

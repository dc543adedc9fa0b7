(* Options, and the configurations which they may produce. *)
module Options
  use int.Int
  use Base
  use Model
  use GoTypes
  (* every value is a valid one *)
  predicate opts_valid (o: options) =
    0 <= o.o_format <= 3 /\ o.o_method = 0 /\ 0 <= o.o_strategy <= 3 /\ -1 <= o.o_clevel <= 9 /\ 0 <= o.o_mlevel <= 9 /\
    (o.o_wbits = 0 \/ 8 <= o.o_wbits <= 15)
  predicate opt_ok (f: fn_options_to) = match f with
    | Nil_fn_options_to -> false
    | Fn_WithFormat_1 x -> 0 <= x <= 3
    | Fn_WithMethod_1 x -> x = 0
    | Fn_WithStrategy_1 x -> 0 <= x <= 3
    | Fn_WithCompressLevel_1 x -> -1 <= x <= 9
    | Fn_WithMemoryLevel_1 x -> 0 <= x <= 9
    | Fn_WithWindowBits_1 x -> x = 0 \/ 8 <= x <= 15
    | Fn_WithDictionary_1 _ -> true
    | Fn_WithTracers_1 _ -> true
    end
  (* each option sets its own field, and no other *)
  function opt_eff (f: fn_options_to) (o: options) : options = match f with
    | Nil_fn_options_to -> o
    | Fn_WithFormat_1 x -> { o with o_format = x }
    | Fn_WithMethod_1 x -> { o with o_method = x }
    | Fn_WithStrategy_1 x -> { o with o_strategy = x }
    | Fn_WithCompressLevel_1 x -> { o with o_clevel = x }
    | Fn_WithMemoryLevel_1 x -> { o with o_mlevel = x }
    | Fn_WithWindowBits_1 x -> { o with o_wbits = x }
    | Fn_WithDictionary_1 x -> { o with o_dict = x }
    | Fn_WithTracers_1 x -> { o with o_tracers = x }
    end
  predicate opts_ok (l: S_fn_options_to.t) = forall i [S_fn_options_to.get l i]. 0 <= i < S_fn_options_to.len l -> opt_ok (S_fn_options_to.get l i)
  (* the first n of them, in order *)
  function opts_eff (l: S_fn_options_to.t) (n: int) (o: options) : options
  axiom opts_eff_0 : forall l o [opts_eff l 0 o]. opts_eff l 0 o = o
  axiom opts_eff_s : forall l n o [opt_eff (S_fn_options_to.get l n) (opts_eff l n o)]. 0 <= n -> opts_eff l (n + 1) o = opt_eff (S_fn_options_to.get l n) (opts_eff l n o)
end

(* Specification vocabulary shared by all contracts. *)
module Spec
  use int.Int
  use int.EuclideanDivision
  use Base
  use GoTypes

  (* RFC 1951, section 3.2.5: length codes 257..285, distance codes 0..29. *)
  function lext (s: int) : int =
    if s < 265 then 0 else if s < 269 then 1 else if s < 273 then 2 else if s < 277 then 3
    else if s < 281 then 4 else if s < 285 then 5 else 0
  function lbase (s: int) : int =
    if s = 257 then 3 else if s = 258 then 4 else if s = 259 then 5 else if s = 260 then 6
    else if s = 261 then 7 else if s = 262 then 8 else if s = 263 then 9 else if s = 264 then 10
    else if s = 265 then 11 else if s = 266 then 13 else if s = 267 then 15 else if s = 268 then 17
    else if s = 269 then 19 else if s = 270 then 23 else if s = 271 then 27 else if s = 272 then 31
    else if s = 273 then 35 else if s = 274 then 43 else if s = 275 then 51 else if s = 276 then 59
    else if s = 277 then 67 else if s = 278 then 83 else if s = 279 then 99 else if s = 280 then 115
    else if s = 281 then 131 else if s = 282 then 163 else if s = 283 then 195 else if s = 284 then 227
    else 258
  function dext (s: int) : int =
    if s < 4 then 0 else if s < 6 then 1 else if s < 8 then 2 else if s < 10 then 3 else if s < 12 then 4
    else if s < 14 then 5 else if s < 16 then 6 else if s < 18 then 7 else if s < 20 then 8 else if s < 22 then 9
    else if s < 24 then 10 else if s < 26 then 11 else if s < 28 then 12 else 13
  function dbase (s: int) : int =
    if s = 0 then 1 else if s = 1 then 2 else if s = 2 then 3 else if s = 3 then 4 else if s = 4 then 5
    else if s = 5 then 7 else if s = 6 then 9 else if s = 7 then 13 else if s = 8 then 17 else if s = 9 then 25
    else if s = 10 then 33 else if s = 11 then 49 else if s = 12 then 65 else if s = 13 then 97
    else if s = 14 then 129 else if s = 15 then 193 else if s = 16 then 257 else if s = 17 then 385
    else if s = 18 then 513 else if s = 19 then 769 else if s = 20 then 1025 else if s = 21 then 1537
    else if s = 22 then 2049 else if s = 23 then 3073 else if s = 24 then 4097 else if s = 25 then 6145
    else if s = 26 then 8193 else if s = 27 then 12289 else if s = 28 then 16385 else 24577
  function p2 (k: int) : int =
    if k = 0 then 1 else if k = 1 then 2 else if k = 2 then 4 else if k = 3 then 8 else if k = 4 then 16
    else if k = 5 then 32 else if k = 6 then 64 else if k = 7 then 128 else if k = 8 then 256 else if k = 9 then 512
    else if k = 10 then 1024 else if k = 11 then 2048 else if k = 12 then 4096 else if k = 13 then 8192 else if k = 14 then 16384
    else pow2 k
  (* code length alphabet, section 3.2.7 *)
  function xext (s: int) : int = if s < 16 then 0 else if s = 16 then 2 else if s = 17 then 3 else 7
  function xbase (s: int) : int = if s = 16 then 3 else if s = 17 then 3 else 11

  (* tokens *)
  predicate is_copy (t: token) = 1 <= t.t_distance <= 32768 /\ 3 <= t.t_literalOrLength <= 258
  predicate is_lit (t: token) = t.t_distance = 0 /\ 0 <= t.t_literalOrLength < 256
  predicate is_stop (t: token) = t.t_distance = 0 /\ t.t_literalOrLength = 256
  predicate is_lld (t: token) = is_copy t \/ is_lit t \/ is_stop t
  predicate is_xlen (t: token) = t.t_distance = 0 /\ 512 <= t.t_literalOrLength < 528
  predicate is_xdup (t: token) = t.t_distance = 0 /\ 1024 <= t.t_literalOrLength < 1028
  predicate is_xszr (t: token) = t.t_distance = 0 /\ 2048 <= t.t_literalOrLength < 2056
  predicate is_xlzr (t: token) = t.t_distance = 0 /\ 4096 <= t.t_literalOrLength < 4224
  predicate is_x (t: token) = is_xlen t \/ is_xdup t \/ is_xszr t \/ is_xlzr t

  (* numbers in byte sequences *)
  function be32_at (p: B.t) (i: int) : int = 16777216 * B.get p i + 65536 * B.get p (i + 1) + 256 * B.get p (i + 2) + B.get p (i + 3)
  function le32_at (p: B.t) (i: int) : int = B.get p i + 256 * B.get p (i + 1) + 65536 * B.get p (i + 2) + 16777216 * B.get p (i + 3)
  function be16_at (p: B.t) (i: int) : int = 256 * B.get p i + B.get p (i + 1)
  function le16_at (p: B.t) (i: int) : int = B.get p i + 256 * B.get p (i + 1)
end

(* RFC 2045 base64: the text of a byte string, and what a text decodes to *)

(* What the proofs of the code use.  Every axiom here is proved in B64P from the definitions given there. *)
module B64
  use cxx.Cxx
  function ub (d:str) (k:int) : int = if 0 <= k < slen d then u8 (sget d k) else 0
  (* the character of the alphabet for six bits *)
  function b64c int : int
  axiom b64c_range : forall v [b64c v]. 0 <= v < 64 -> 43 <= b64c v <= 122 /\ b64c v <> 61
  (* character r of the group of four for the g-th three bytes *)
  function ech2 (d:str) (g r:int) : int
  axiom ech2_a : forall d g [ech2 d g 0]. ech2 d g 0 = b64c (div (ub d (3*g)) 4)
  axiom ech2_b : forall d g [ech2 d g 1]. ech2 d g 1 = b64c (mod (ub d (3*g)) 4 * 16 + div (ub d (3*g+1)) 16)
  axiom ech2_c : forall d g [ech2 d g 2]. ech2 d g 2 = if 3*g+1 >= slen d then 61 else b64c (mod (ub d (3*g+1)) 16 * 4 + div (ub d (3*g+2)) 64)
  axiom ech2_d : forall d g [ech2 d g 3]. ech2 d g 3 = if 3*g+2 >= slen d then 61 else b64c (mod (ub d (3*g+2)) 64)
  (* place of group g; place after the last of q groups; length of the text *)
  function gpos (nl:bool) (g:int) : int
  function gend (nl:bool) (q:int) : int
  axiom gpos_zero : forall nl. gpos nl 0 = 0
  axiom gpos_next : forall nl g [gpos nl (g+1)]. 0 <= g -> gpos nl (g+1) = gpos nl g + 4 + (if nl && mod (gpos nl g + 4) 73 = 72 then 1 else 0)
  axiom gpos_ge : forall nl g [gpos nl g]. 0 <= g -> 4*g <= gpos nl g <= 5*g
  axiom gend_def : forall nl q [gend nl q]. 0 <= q -> gend nl q = if q = 0 then 0 else gpos nl (q-1) + 4
  axiom gend_mono : forall nl g q [gpos nl g, gend nl q]. 0 <= g < q -> gpos nl g + 4 + (if nl && g + 1 < q && mod (gpos nl g + 4) 73 = 72 then 1 else 0) <= gend nl q
  function elen (n:int) (nl:bool) : int
  axiom elen_def : forall n nl [elen n nl]. 0 <= n -> elen n nl = gend nl (div (n+2) 3)
  axiom elen_is : forall n nl [elen n nl]. 0 <= n -> elen n nl = if nl && n > 0 then 4 * div (n + 2) 3 + div (4 * div (n + 2) 3 - 1) 72 else 4 * div (n + 2) 3
  (* s has the right characters at the first n places *)
  predicate laid (s d:str) (nl:bool) (n:int)
  axiom laid_zero : forall s d nl [laid s d nl 0]. laid s d nl 0
  axiom laid_frame : forall s d nl n i c [laid s d nl n, sset s i c]. laid s d nl n -> 0 <= n <= i < slen s -> -128 <= c <= 127 -> laid (sset s i c) d nl n
  val lemma laid_group (s d:str) (nl:bool) (g:int) : unit
    requires { 0 <= g } requires { laid s d nl (gpos nl g) }
    requires { sget s (gpos nl g) = ech2 d g 0 } requires { sget s (gpos nl g + 1) = ech2 d g 1 }
    requires { sget s (gpos nl g + 2) = ech2 d g 2 } requires { sget s (gpos nl g + 3) = ech2 d g 3 }
    ensures { laid s d nl (gpos nl g + 4) }
    ensures { nl -> mod (gpos nl g + 4) 73 = 72 -> sget s (gpos nl g + 4) = 10 -> laid s d nl (gpos nl g + 5) }
  predicate is_enc (s d:str) (nl:bool)
  axiom is_enc_intro : forall s d nl [is_enc s d nl]. slen s = elen (slen d) nl -> laid s d nl (slen s) -> is_enc s d nl
  axiom is_enc_len : forall s d nl [is_enc s d nl]. is_enc s d nl -> slen s = elen (slen d) nl
  axiom is_enc_unique : forall s t d nl [is_enc s d nl, is_enc t d nl]. is_enc s d nl -> is_enc t d nl -> s = t
end

(* The definitions. *)
module B64P
  use cxx.Cxx
  function ub (d:str) (k:int) : int = if 0 <= k < slen d then u8 (sget d k) else 0
  function b64c (v:int) : int = if v < 26 then v + 65 else if v < 52 then v + 71 else if v < 62 then v - 4 else if v = 62 then 43 else 47
  function sext (d:str) (g r:int) : int =
    if r = 0 then div (ub d (3*g)) 4
    else if r = 1 then mod (ub d (3*g)) 4 * 16 + div (ub d (3*g+1)) 16
    else if r = 2 then mod (ub d (3*g+1)) 16 * 4 + div (ub d (3*g+2)) 64
    else mod (ub d (3*g+2)) 64
  function ech2 (d:str) (g r:int) : int =
    if r = 2 && 3*g+1 >= slen d then 61 else if r = 3 && 3*g+2 >= slen d then 61 else b64c (sext d g r)
  function ech (d:str) (m:int) : int = ech2 d (div m 4) (mod m 4)
  function nchars (n:int) : int = 4 * div (n + 2) 3
  function elen (n:int) (nl:bool) : int = if nl && n > 0 then nchars n + div (nchars n - 1) 72 else nchars n
  (* the character at place p: a newline after every 72 characters *)
  function lay (d:str) (nl:bool) (p:int) : int =
    if nl then (if mod p 73 = 72 then 10 else ech d (p - div p 73)) else ech d p
  predicate laid (s d:str) (nl:bool) (n:int) = forall p. 0 <= p < n -> sget s p = lay d nl p
  predicate is_enc (s d:str) (nl:bool) = slen s = elen (slen d) nl /\ forall p. 0 <= p < slen s -> sget s p = lay d nl p
  function gpos (nl:bool) (g:int) : int = 4*g + (if nl then div (4*g) 72 else 0)
  function gend (nl:bool) (q:int) : int = if q <= 0 then 0 else gpos nl (q-1) + 4
  lemma gdiv : forall g. 0 <= g -> div (gpos true g) 73 = div (4*g) 72 /\ mod (gpos true g) 73 = mod (4*g) 72 /\ mod (4*g) 72 <= 68
  lemma lay_group : forall d nl g r. 0 <= g -> 0 <= r < 4 -> lay d nl (gpos nl g + r) = ech2 d g r
  lemma gpos_mono : forall nl a b. 0 <= a <= b -> gpos nl a <= gpos nl b
  lemma laid_four : forall s d nl g. 0 <= g -> laid s d nl (gpos nl g) -> sget s (gpos nl g) = ech2 d g 0 -> sget s (gpos nl g + 1) = ech2 d g 1 ->
    sget s (gpos nl g + 2) = ech2 d g 2 -> sget s (gpos nl g + 3) = ech2 d g 3 ->
    laid s d nl (gpos nl g + 4)
  let lemma laid_group (s d:str) (nl:bool) (g:int) : unit
    requires { 0 <= g } requires { laid s d nl (gpos nl g) }
    requires { sget s (gpos nl g) = ech2 d g 0 } requires { sget s (gpos nl g + 1) = ech2 d g 1 }
    requires { sget s (gpos nl g + 2) = ech2 d g 2 } requires { sget s (gpos nl g + 3) = ech2 d g 3 }
    ensures { laid s d nl (gpos nl g + 4) }
    ensures { nl -> mod (gpos nl g + 4) 73 = 72 -> sget s (gpos nl g + 4) = 10 -> laid s d nl (gpos nl g + 5) }
  = ()
  lemma is_enc_eqs : forall s t d nl. is_enc s d nl -> is_enc t d nl -> eqs s t
  clone B64 with function ub = ub, function b64c = b64c, function ech2 = ech2, function gpos = gpos, function gend = gend, function elen = elen, predicate laid = laid, predicate is_enc = is_enc, val laid_group = laid_group
end

(* the alphabet *)
module B64A
  use cxx.Cxx
  use B64
  axiom b64c_def : forall v [b64c v]. b64c v = if v < 26 then v + 65 else if v < 52 then v + 71 else if v < 62 then v - 4 else if v = 62 then 43 else 47
end

(* What a text decodes to.  Every axiom of B64D is proved in B64E from the definitions given there. *)
module B64D
  use cxx.Cxx
  (* value of a character of the alphabet; white space *)
  function b64v (c:int) : int
  predicate isdata (c:int)
  predicate isws (c:int)
  predicate ispad (c:int) = c = 61
  axiom classes : forall c [isdata c]. isdata c -> c <> 61 /\ not (isws c) /\ 0 <= b64v c <= 63
  axiom pad_class : not (isws 61)
  (* data and padding characters before place i *)
  function nd (s:str) (i:int) : int
  function np (s:str) (i:int) : int
  axiom nd_zero : forall s. nd s 0 = 0
  axiom np_zero : forall s. np s 0 = 0
  axiom nd_next : forall s i [nd s (i+1)]. 0 <= i -> nd s (i+1) = nd s i + (if isdata (sget s i) then 1 else 0)
  axiom np_next : forall s i [np s (i+1)]. 0 <= i -> np s (i+1) = np s i + (if sget s i = 61 then 1 else 0)
  axiom nd_bounds : forall s i [nd s i]. 0 <= i -> 0 <= nd s i <= i
  axiom np_bounds : forall s i [np s i]. 0 <= i -> 0 <= np s i <= i - nd s i
  (* the padded group that ends the data is complete before place i *)
  predicate done_at (s:str) (i:int) = np s i > 0 /\ mod (nd s i + np s i) 4 = 0
  (* character k is in place *)
  predicate okat (s:str) (ign:bool) (k:int) =
    (isdata (sget s k) -> np s k = 0) /\
    (ispad (sget s k) -> mod (nd s k + np s k) 4 >= 2) /\
    (isdata (sget s k) \/ ispad (sget s k) \/ isws (sget s k) \/ ign)
  predicate good (s:str) (ign:bool) (e:int)
  axiom good_zero : forall s ign. good s ign 0
  axiom good_next : forall s ign i [good s ign (i+1)]. 0 <= i -> (good s ign (i+1) <-> good s ign i /\ okat s ign i)
  (* where the base64 data of s end: after the group with padding, or at the end of the text *)
  function bend (s:str) : int
  predicate open_to (s:str) (i:int)     (* no padded group is complete at any place up to i *)
  axiom open_zero : forall s. open_to s 0
  axiom open_next : forall s i [open_to s (i+1)]. 0 <= i -> (open_to s (i+1) <-> open_to s i /\ not (done_at s (i+1)))
  axiom open_here : forall s i [open_to s i]. 0 <= i -> open_to s i -> not (done_at s i)
  axiom bend_range : forall s [bend s]. 0 <= bend s <= slen s
  axiom bend_after : forall s i [open_to s i, bend s]. 0 <= i <= slen s -> open_to s i -> bend s >= i /\ (bend s = i -> i = slen s)
  axiom bend_here : forall s i [open_to s i, bend s]. 0 <= i < slen s -> open_to s i -> done_at s (i+1) -> bend s = i + 1
  predicate valid (s:str) (ign:bool) = good s ign (bend s) /\ mod (nd s (bend s) + np s (bend s)) 4 = 0
  axiom bad_char : forall s ign i [good s ign (bend s), okat s ign i]. 0 <= i < bend s -> not (okat s ign i) -> not (good s ign (bend s))
  function nbytes (s:str) : int
  axiom nbytes_def : forall s [nbytes s]. nbytes s = nd s (bend s) - div (nd s (bend s) + np s (bend s)) 4
  (* bytes that n data characters make *)
  function dlen (n:int) : int
  axiom dlen_def : forall n [dlen n]. 0 <= n -> dlen n = 3 * div n 4 + (if mod n 4 = 0 then 0 else mod n 4 - 1)
  axiom nbytes_is : forall s ign [valid s ign, nbytes s]. valid s ign -> nbytes s = dlen (nd s (bend s))
  axiom room : forall s ign i [valid s ign, nd s i]. valid s ign -> 0 <= i <= bend s -> dlen (nd s i) <= nbytes s
  (* values of the data characters in order *)
  function dv (s:str) (m:int) : int
  axiom dv_is : forall s k [nd s k, sget s k]. 0 <= k < slen s -> isdata (sget s k) -> dv s (nd s k) = b64v (sget s k)
  axiom dv_range : forall s k m [nd s k, dv s m]. 0 <= k <= slen s -> 0 <= m < nd s k -> 0 <= dv s m <= 63
  (* byte b of what s decodes to: byte r of group g *)
  function dbyte (s:str) (b:int) : int
  axiom dbyte_a : forall s g [dbyte s (3*g)]. dbyte s (3*g) = u8 (dv s (4*g) * 4 + div (dv s (4*g+1)) 16)
  axiom dbyte_b : forall s g [dbyte s (3*g+1)]. dbyte s (3*g+1) = u8 (dv s (4*g+1) * 16 + div (dv s (4*g+2)) 4)
  axiom dbyte_c : forall s g [dbyte s (3*g+2)]. dbyte s (3*g+2) = u8 (dv s (4*g+2) * 64 + dv s (4*g+3))
end

module B64E
  use cxx.Cxx
  function b64v (c:int) : int =
    if 65 <= c <= 90 then c - 65 else if 97 <= c <= 122 then c - 71 else if 48 <= c <= 57 then c + 4 else if c = 43 then 62 else if c = 47 then 63 else 255
  predicate isdata (c:int) = 0 <= b64v c <= 63
  predicate isws (c:int) = 8 <= c <= 13
  predicate ispad (c:int) = c = 61
  val function isdatab (c:int) : int
  axiom isdatab_def : forall c [isdatab c]. isdatab c = if isdata c then 1 else 0
  let rec function nd (s:str) (i:int) : int variant { i } = if i <= 0 then 0 else nd s (i-1) + isdatab (sget s (i-1))
  let rec function np (s:str) (i:int) : int variant { i } = if i <= 0 then 0 else np s (i-1) + (if sget s (i-1) = 61 then 1 else 0)
  let rec lemma nd_bounds_l (s:str) (i:int) : unit variant { i }
    ensures { 0 <= nd s i } ensures { i >= 0 -> nd s i <= i }
  = if i > 0 then nd_bounds_l s (i-1)
  let rec lemma np_bounds_l (s:str) (i:int) : unit variant { i }
    ensures { 0 <= np s i } ensures { i >= 0 -> np s i + nd s i <= i }
  = if i > 0 then np_bounds_l s (i-1)
  let rec lemma nd_mono (s:str) (i j:int) : unit variant { j }
    requires { i <= j } ensures { nd s i <= nd s j }
  = if j > 0 && i < j then nd_mono s i (j-1)
  predicate done_at (s:str) (i:int) = np s i > 0 /\ mod (nd s i + np s i) 4 = 0
  predicate okat (s:str) (ign:bool) (k:int) =
    (isdata (sget s k) -> np s k = 0) /\
    (ispad (sget s k) -> mod (nd s k + np s k) 4 >= 2) /\
    (isdata (sget s k) \/ ispad (sget s k) \/ isws (sget s k) \/ ign)
  predicate good (s:str) (ign:bool) (e:int) = forall k. 0 <= k < e -> okat s ign k
  predicate open_to (s:str) (i:int) = forall k. 0 <= k <= i -> not (done_at s k)
  val function done_b (s:str) (i:int) : bool ensures { result <-> done_at s i }
  let rec function bendf (s:str) (i:int) : int variant { slen s - i }
    requires { 0 <= i <= slen s }
    ensures { i <= result <= slen s } ensures { forall k. i <= k < result -> not (done_at s k) } ensures { result < slen s -> done_at s result }
  = if i >= slen s || done_b s i then i else bendf s (i+1)
  function bend (s:str) : int = bendf s 0
  function nbytes (s:str) : int = nd s (bend s) - div (nd s (bend s) + np s (bend s)) 4
  predicate valid (s:str) (ign:bool) = good s ign (bend s) /\ mod (nd s (bend s) + np s (bend s)) 4 = 0
  function dlen (n:int) : int = 3 * div n 4 + (if mod n 4 = 0 then 0 else mod n 4 - 1)
  lemma dlen_mono : forall n m. 0 <= n <= m -> dlen n <= dlen m
  let rec lemma shape (s:str) (ign:bool) (i:int) : unit variant { i }
    requires { 0 <= i } requires { good s ign i } requires { open_to s i }
    ensures { np s i = 0 \/ np s i = 1 /\ mod (nd s i) 4 = 2 }
  = if i > 0 then begin
      shape s ign (i-1);
      assert { okat s ign (i-1) };
      assert { not (done_at s i) };
      assert { nd s i = nd s (i-1) + isdatab (sget s (i-1)) };
      assert { np s i = np s (i-1) + (if sget s (i-1) = 61 then 1 else 0) };
      if isdatab (sget s (i-1)) = 1 then assert { np s i = 0 }
      else if sget s (i-1) = 61 then begin
        assert { nd s i = nd s (i-1) };
        assert { np s i = np s (i-1) + 1 };
        assert { mod (nd s (i-1) + np s (i-1)) 4 >= 2 };
        assert { np s i > 0 };
        assert { mod (nd s i + np s i) 4 <> 0 };
        assert { mod (nd s (i-1) + np s (i-1)) 4 <> 3 };
        assert { np s (i-1) = 0 }
      end
    end
  let lemma shape_end (s:str) (ign:bool) : unit
    requires { valid s ign }
    ensures { nbytes s = dlen (nd s (bend s)) }
  = let ghost e = bend s in
    if e > 0 then begin
      assert { open_to s (e-1) };
      shape s ign (e-1);
      assert { okat s ign (e-1) };
      assert { nd s e = nd s (e-1) + isdatab (sget s (e-1)) };
      assert { np s e = np s (e-1) + (if sget s (e-1) = 61 then 1 else 0) };
      assert { np s e = 0 \/ np s e = 1 /\ mod (nd s e) 4 = 3 \/ np s e = 2 /\ mod (nd s e) 4 = 2 }
    end
  lemma nbytes_is_l : forall s ign. valid s ign -> nbytes s = dlen (nd s (bend s))
  (* place of the m-th data character among the first i *)
  let rec function dposn (s:str) (m i:int) : int variant { i } =
    if i <= 0 then -1 else if isdatab (sget s (i-1)) = 1 && nd s (i-1) = m then i-1 else dposn s m (i-1)
  let rec lemma dposn_is (s:str) (i k:int) : unit variant { i }
    requires { 0 <= k < i } requires { isdata (sget s k) }
    ensures { dposn s (nd s k) i = k }
  = if k < i - 1 then begin nd_mono s (k+1) (i-1); assert { nd s (k+1) = nd s k + 1 }; dposn_is s (i-1) k end
  let rec lemma dposn_data (s:str) (m i:int) : unit variant { i }
    requires { 0 <= m < nd s i }
    ensures { 0 <= dposn s m i < i /\ isdata (sget s (dposn s m i)) }
  = if i > 0 then if isdatab (sget s (i-1)) = 1 && nd s (i-1) = m then () else dposn_data s m (i-1)
  function dv (s:str) (m:int) : int = b64v (sget s (dposn s m (slen s)))
  lemma dv_in : forall s m. 0 <= m < nd s (slen s) -> 0 <= dv s m <= 63
  function dbyte2 (s:str) (g r:int) : int =
    if r = 0 then u8 (dv s (4*g) * 4 + div (dv s (4*g+1)) 16)
    else if r = 1 then u8 (dv s (4*g+1) * 16 + div (dv s (4*g+2)) 4)
    else u8 (dv s (4*g+2) * 64 + dv s (4*g+3))
  function dbyte (s:str) (b:int) : int = dbyte2 s (div b 3) (mod b 3)
  clone B64D with function b64v = b64v, predicate isdata = isdata, predicate isws = isws, predicate ispad = ispad, function nd = nd, function np = np, predicate done_at = done_at,
    predicate okat = okat, predicate good = good, function bend = bend, predicate open_to = open_to, predicate valid = valid, function nbytes = nbytes, function dlen = dlen, function dv = dv, function dbyte = dbyte
end

module B64DA
  use cxx.Cxx
  use B64D
  axiom isdata_def : forall c [isdata c]. isdata c <-> 0 <= b64v c <= 63
  axiom b64v_def : forall c [b64v c]. b64v c =
    if 65 <= c <= 90 then c - 65 else if 97 <= c <= 122 then c - 71 else if 48 <= c <= 57 then c + 4 else if c = 43 then 62 else if c = 47 then 63 else 255
  axiom isws_def : forall c [isws c]. isws c <-> 8 <= c <= 13
end

module B64X
  use cxx.Cxx
  let lemma three_a (x0 x1:int) : unit
    requires { 0 <= x0 <= 255 } requires { 0 <= x1 <= 255 }
    ensures { u8 (div x0 4 * 4 + div (mod x0 4 * 16 + div x1 16) 16) = x0 }
  = assert { div (mod x0 4 * 16 + div x1 16) 16 = mod x0 4 }
  let lemma three_b (x0 x1 x2:int) : unit
    requires { 0 <= x0 <= 255 } requires { 0 <= x1 <= 255 } requires { 0 <= x2 <= 255 }
    ensures { u8 ((mod x0 4 * 16 + div x1 16) * 16 + div (mod x1 16 * 4 + div x2 64) 4) = x1 }
  = assert { div (mod x1 16 * 4 + div x2 64) 4 = mod x1 16 };
    assert { (mod x0 4 * 16 + div x1 16) * 16 + mod x1 16 = 256 * mod x0 4 + x1 };
    assert { mod (256 * mod x0 4 + x1) 256 = x1 }
  let lemma three_c (x1 x2:int) : unit
    requires { 0 <= x1 <= 255 } requires { 0 <= x2 <= 255 }
    ensures { u8 ((mod x1 16 * 4 + div x2 64) * 64 + mod x2 64) = x2 }
  = assert { (mod x1 16 * 4 + div x2 64) * 64 + mod x2 64 = 256 * mod x1 16 + x2 };
    assert { mod (256 * mod x1 16 + x2) 256 = x2 }
end

(* Encoding followed by decoding: what Encode promises of its text makes Decode give the bytes back. *)
module B64R
  use cxx.Cxx
  use B64P
  use B64E
  use B64X
  lemma dbyte_range : forall s b. 0 <= dbyte s b <= 255
  (* one character *)
  let lemma step_data (s:str) (ign:bool) (i v:int) : unit
    requires { 0 <= i < slen s } requires { 0 <= v <= 63 } requires { sget s i = b64c v }
    requires { good s ign i } requires { open_to s i } requires { np s i = 0 }
    ensures { good s ign (i+1) } ensures { open_to s (i+1) } ensures { np s (i+1) = 0 } ensures { nd s (i+1) = nd s i + 1 }
    ensures { dv s (nd s i) = v }
  = assert { isdata (sget s i) /\ b64v (sget s i) = v };
    assert { sget s i <> 61 };
    assert { okat s ign i };
    dposn_is s (slen s) i
  let lemma step_ws (s:str) (ign:bool) (i:int) : unit
    requires { 0 <= i < slen s } requires { sget s i = 10 }
    requires { good s ign i } requires { open_to s i } requires { np s i = 0 }
    ensures { good s ign (i+1) } ensures { open_to s (i+1) } ensures { np s (i+1) = 0 } ensures { nd s (i+1) = nd s i }
  = assert { okat s ign i }
  let lemma enc_at (s d:str) (nl:bool) (g r:int) : unit
    requires { is_enc s d nl } requires { 0 <= g } requires { 0 <= r < 4 } requires { 3 * g < slen d }
    ensures { gpos nl g + r < slen s } ensures { sget s (gpos nl g + r) = ech2 d g r }
  = let ghost q = div (slen d + 2) 3 in
    assert { g < q };
    assert { gpos nl g <= gpos nl (q-1) };
    assert { elen (slen d) nl = gpos nl (q-1) + 4 };
    assert { lay d nl (gpos nl g + r) = ech2 d g r }
  let lemma enc_nl (s d:str) (g:int) : unit
    requires { is_enc s d true } requires { 0 <= g } requires { 3 * g + 3 < slen d } requires { mod (4*g+4) 72 = 0 }
    ensures { gpos true (g+1) = gpos true g + 5 } ensures { gpos true g + 4 < slen s } ensures { sget s (gpos true g + 4) = 10 }
  = assert { 4*g+4 = 72 * div (4*g+4) 72 };
    assert { div (4*g) 72 = div (4*g+4) 72 - 1 };
    assert { mod (4*g) 72 = 68 };
    assert { gpos true g + 4 = 73 * div (4*g+4) 72 - 1 };
    enc_at s d true (g+1) 0;
    assert { mod (gpos true g + 4) 73 = 72 }
  let lemma ext_range (d:str) (g r:int) : unit
    requires { 0 <= g } requires { 0 <= r < 4 }
    ensures { 0 <= sext d g r <= 63 }
  = ()
  predicate got (s d:str) (k:int) = dv s (4*k) = sext d k 0 /\ dv s (4*k+1) = sext d k 1 /\ dv s (4*k+2) = sext d k 2 /\ dv s (4*k+3) = sext d k 3
  let lemma got_three (s d:str) (k:int) : unit
    requires { 0 <= k }
    ensures { dv s (4*k) = sext d k 0 -> dv s (4*k+1) = sext d k 1 -> dbyte2 s k 0 = ub d (3*k) }
    ensures { dv s (4*k+1) = sext d k 1 -> dv s (4*k+2) = sext d k 2 -> dbyte2 s k 1 = ub d (3*k+1) }
    ensures { dv s (4*k+2) = sext d k 2 -> dv s (4*k+3) = sext d k 3 -> dbyte2 s k 2 = ub d (3*k+2) }
  = let ghost x0 = ub d (3*k) in let ghost x1 = ub d (3*k+1) in let ghost x2 = ub d (3*k+2) in
    three_a x0 x1; three_b x0 x1 x2; three_c x1 x2
  predicate same3 (s d:str) (k:int) = dbyte2 s k 0 = ub d (3*k) /\ (3*k+1 < slen d -> dbyte2 s k 1 = ub d (3*k+1)) /\ (3*k+2 < slen d -> dbyte2 s k 2 = ub d (3*k+2))
  let lemma same_byte (s d:str) (b:int) : unit
    requires { 0 <= b < slen d } requires { same3 s d (div b 3) }
    ensures { dbyte s b = ub d b }
  = let ghost g = div b 3 in
    if mod b 3 = 0 then begin assert { b = 3*g } end
    else if mod b 3 = 1 then begin assert { b = 3*g+1 } end
    else begin assert { mod b 3 = 2 }; assert { b = 3*g+2 } end
  let rec lemma whole (s d:str) (nl ign:bool) (g:int) : unit variant { g }
    requires { is_enc s d nl } requires { 0 <= g } requires { 3 * g < slen d }
    ensures { nd s (gpos nl g) = 4*g } ensures { np s (gpos nl g) = 0 } ensures { good s ign (gpos nl g) } ensures { open_to s (gpos nl g) }
    ensures { forall k. 0 <= k < g -> same3 s d k }
  = if g > 0 then begin
      let ghost h = g - 1 in
      whole s d nl ign h;
      let ghost i = gpos nl h in
      enc_at s d nl h 0; enc_at s d nl h 1; enc_at s d nl h 2; enc_at s d nl h 3;
      ext_range d h 0; ext_range d h 1; ext_range d h 2; ext_range d h 3;
      assert { ech2 d h 0 = b64c (sext d h 0) };
      assert { ech2 d h 1 = b64c (sext d h 1) };
      assert { ech2 d h 2 = b64c (sext d h 2) };
      assert { ech2 d h 3 = b64c (sext d h 3) };
      step_data s ign i (sext d h 0); step_data s ign (i+1) (sext d h 1);
      step_data s ign (i+2) (sext d h 2); step_data s ign (i+3) (sext d h 3);
      got_three s d h;
      assert { same3 s d h };
      assert { forall k. 0 <= k < g -> same3 s d k };
      if nl then begin if mod (4*h+4) 72 = 0 then begin enc_nl s d h; step_ws s ign (i+4) end else assert { gpos nl g = i + 4 } end
      else assert { gpos nl g = i + 4 }
    end
  let lemma end_at (s:str) (e:int) : unit
    requires { 0 <= e = slen s }
    requires { e > 0 -> open_to s (e-1) }
    ensures { bend s = e }
  = ()
  let lemma pad_step (s:str) (ign:bool) (i:int) : unit
    requires { 0 <= i < slen s } requires { sget s i = 61 } requires { good s ign i } requires { mod (nd s i + np s i) 4 >= 2 }
    ensures { good s ign (i+1) } ensures { np s (i+1) = np s i + 1 } ensures { nd s (i+1) = nd s i }
    ensures { open_to s i -> mod (nd s i + np s i) 4 = 2 -> open_to s (i+1) }
  = assert { okat s ign i }
  let lemma enc_dec (s d:str) (nl ign:bool) : unit
    requires { is_enc s d nl }
    ensures { valid s ign } ensures { nbytes s = slen d } ensures { forall b. 0 <= b < slen d -> dbyte s b = ub d b }
  = let ghost n = slen d in
    let ghost q = div (n + 2) 3 in
    if n = 0 then begin assert { slen s = 0 }; end_at s 0 end
    else begin
      let ghost h = q - 1 in
      whole s d nl ign h;
      let ghost i = gpos nl h in
      assert { slen s = i + 4 };
      enc_at s d nl h 0; enc_at s d nl h 1; enc_at s d nl h 2; enc_at s d nl h 3;
      ext_range d h 0; ext_range d h 1; ext_range d h 2; ext_range d h 3;
      assert { ech2 d h 0 = b64c (sext d h 0) };
      assert { ech2 d h 1 = b64c (sext d h 1) };
      step_data s ign i (sext d h 0); step_data s ign (i+1) (sext d h 1);
      if 3*h+1 >= n then begin
        assert { ech2 d h 2 = 61 }; assert { ech2 d h 3 = 61 };
        pad_step s ign (i+2); pad_step s ign (i+3);
        end_at s (i+4);
        assert { nbytes s = 3*h+1 };
        got_three s d h; assert { dbyte2 s h 0 = ub d (3*h) }
      end else begin
        assert { ech2 d h 2 = b64c (sext d h 2) };
        step_data s ign (i+2) (sext d h 2);
        if 3*h+2 >= n then begin
          assert { ech2 d h 3 = 61 };
          pad_step s ign (i+3);
          end_at s (i+4);
          assert { nbytes s = 3*h+2 };
          got_three s d h; assert { dbyte2 s h 0 = ub d (3*h) }; assert { dbyte2 s h 1 = ub d (3*h+1) }
        end else begin
          assert { ech2 d h 3 = b64c (sext d h 3) };
          step_data s ign (i+3) (sext d h 3);
          end_at s (i+4);
          assert { nbytes s = 3*h+3 };
          assert { dv s (4*h) = sext d h 0 }; assert { dv s (4*h+1) = sext d h 1 }; assert { dv s (4*h+2) = sext d h 2 }; assert { dv s (4*h+3) = sext d h 3 };
          got_three s d h; assert { dbyte2 s h 0 = ub d (3*h) }; assert { dbyte2 s h 1 = ub d (3*h+1) }; assert { dbyte2 s h 2 = ub d (3*h+2) }
        end
      end;
      assert { dbyte2 s h 0 = ub d (3*h) };
      assert { 3*h+1 < n -> dbyte2 s h 1 = ub d (3*h+1) };
      assert { 3*h+2 < n -> dbyte2 s h 2 = ub d (3*h+2) };
      assert { same3 s d h };
      assert { forall k. 0 <= k < q -> same3 s d k };
      assert { forall b. 0 <= b < n -> 0 <= div b 3 < q };
      assert { forall b. 0 <= b < n -> same3 s d (div b 3) };
      assert { forall b. 0 <= b < n -> dbyte s b = ub d b }
    end
end

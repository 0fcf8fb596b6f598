(* Measurements: what a content stands for, and the state of the cached data. *)
module MeasI
  use cxx.Cxx
  (* the bytes a content stands for under an encoding *)
  val function dview (enc c:str) : str
  predicate okd (sz:hmap int) (mb:hmap bytes) (d:ptr) (n:int) (v:str) =
    (d.blk = 0 /\ n = 0) \/ (d.blk > 0 /\ d.off = 0 /\ 0 <= n <= smax /\ hget sz d.blk = n /\ bstr (hget mb d.blk) 0 n = v)
  function cont6 (dy:hmap int) (tc nc:hmap str) (p:int) : str = if hget dy p <= 2 then hget tc p else hget nc p
  predicate data6 (dy:hmap int) (p:int) = 1 <= hget dy p <= 6
  (* every cached block holds the bytes its object's content stands for, and no two objects share one *)
  predicate hok (dy:hmap int) (da:hmap ptr) (ds:hmap int) (sz:hmap int) (mb:hmap bytes) (tc nc en:hmap str) =
    (forall p [hget da p]. data6 dy p -> okd sz mb (hget da p) (hget ds p) (dview (hget en p) (cont6 dy tc nc p))) /\
    (forall p q [hget da p, hget da q]. data6 dy p -> data6 dy q -> p <> q -> (hget da p).blk <> 0 -> (hget da p).blk <> (hget da q).blk)
  (* the same, but the block of x may hold anything *)
  predicate hokx (x:int) (dy:hmap int) (da:hmap ptr) (ds:hmap int) (sz:hmap int) (mb:hmap bytes) (tc nc en:hmap str) =
    (forall p [hget da p]. data6 dy p -> p <> x -> okd sz mb (hget da p) (hget ds p) (dview (hget en p) (cont6 dy tc nc p))) /\
    ((hget da x).blk = 0 \/ ((hget da x).blk > 0 /\ (hget da x).off = 0 /\ hget sz (hget da x).blk >= 0)) /\
    (forall p q [hget da p, hget da q]. data6 dy p -> data6 dy q -> p <> q -> (hget da p).blk <> 0 -> (hget da p).blk <> (hget da q).blk)
  (* all blocks of a state are still there, unchanged *)
  predicate kept (sz sz2:hmap int) (mb mb2:hmap bytes) =
    (forall k [hget sz2 k]. k > 0 -> hget sz k >= 0 -> hget sz2 k = hget sz k) /\ (forall k [hget mb2 k]. k > 0 -> hget sz k >= 0 -> hget mb2 k = hget mb k)
  predicate keptbut (b:int) (sz sz2:hmap int) (mb mb2:hmap bytes) =
    (forall k [hget sz2 k]. k <> b -> k > 0 -> hget sz k >= 0 -> hget sz2 k = hget sz k) /\ (forall k [hget mb2 k]. k <> b -> k > 0 -> hget sz k >= 0 -> hget mb2 k = hget mb k)
end

(* an object that is no measurement in memory comes or goes *)
module MeasL
  use cxx.Cxx
  use MeasI
  lemma hok_other : forall dy da ds sz mb tc nc en p k [hok (hset dy p k) da ds sz mb tc nc en]. hok dy da ds sz mb tc nc en -> k < 1 \/ k > 6 -> hok (hset dy p k) da ds sz mb tc nc en
  lemma hok_gone : forall dy dy2 da ds sz mb tc nc en [hok dy2 da ds sz mb tc nc en, hok dy da ds sz mb tc nc en].
    hok dy da ds sz mb tc nc en -> (forall k [hget dy2 k]. hget dy2 k = 0 \/ hget dy2 k = hget dy k) -> hok dy2 da ds sz mb tc nc en
  lemma hokx_num : forall x k dy da ds sz mb tc nc en e c [hokx x (hset dy x k) (hset da x pnull) (hset ds x 0) sz mb tc (hset nc x c) (hset en x e), hok dy da ds sz mb tc nc en].
    hok dy da ds sz mb tc nc en -> hget dy x = 0 -> hokx x (hset dy x k) (hset da x pnull) (hset ds x 0) sz mb tc (hset nc x c) (hset en x e)
  lemma hokx_text : forall x k dy da ds sz mb tc nc en e c [hokx x (hset dy x k) (hset da x pnull) (hset ds x 0) sz mb (hset tc x c) nc (hset en x e), hok dy da ds sz mb tc nc en].
    hok dy da ds sz mb tc nc en -> hget dy x = 0 -> hokx x (hset dy x k) (hset da x pnull) (hset ds x 0) sz mb (hset tc x c) nc (hset en x e)
end

(* with base64: dview is what the decoder gives for a valid text with data, else the content itself *)
module MeasD
  use cxx.Cxx
  use lits.Lits
  use base64.B64
  use base64.B64D
  use MeasI
  (* these three define dview: its length and its characters, or the content itself *)
  axiom dview_none : forall e c [dview e c]. e <> LIT("base64") -> dview e c = c
  axiom dview_raw : forall c [dview LIT("base64") c]. not (valid c false /\ nbytes c > 0) -> dview LIT("base64") c = c
  axiom dview_b64 : forall c [dview LIT("base64") c]. valid c false -> nbytes c > 0 ->
    slen (dview LIT("base64") c) = nbytes c /\ forall b. 0 <= b < nbytes c -> sget (dview LIT("base64") c) b = s8 (dbyte c b)
  (* B64R.enc_dec and B64R.dbyte_range, which are proved for the definitions behind B64 and B64D *)
  axiom enc_dec : forall s d nl [is_enc s d nl]. is_enc s d nl -> valid s false /\ nbytes s = slen d /\ forall b. 0 <= b < slen d -> dbyte s b = u8 (sget d b)
  axiom dbyte_range : forall s b [dbyte s b]. 0 <= dbyte s b <= 255
  lemma dlen_le : forall n [dlen n]. 0 <= n -> 0 <= dlen n <= n
  lemma nd_end : forall c [nd c (bend c)]. 0 <= nd c (bend c) <= slen c
  lemma nbytes_le : forall c [nbytes c]. valid c false -> 0 <= nbytes c <= slen c
  lemma dec_view_eqs : forall c m o. valid c false -> nbytes c > 0 -> (forall b. 0 <= b < nbytes c -> bget m (o + b) = dbyte c b) -> eqs (bstr m o (nbytes c)) (dview LIT("base64") c)
  lemma dec_view : forall c m o [bstr m o (nbytes c)]. valid c false -> nbytes c > 0 -> (forall b. 0 <= b < nbytes c -> bget m (o + b) = dbyte c b) -> bstr m o (nbytes c) = dview LIT("base64") c
  lemma sbyte : forall x. -128 <= x <= 127 -> s8 (u8 x) = x
  lemma view_is : forall s d nl. is_enc s d nl -> slen d > 0 -> eqs (dview LIT("base64") s) d
  lemma view_empty : forall s d nl. is_enc s d nl -> slen d = 0 -> dview LIT("base64") s = d
  lemma view_enc : forall s d nl [is_enc s d nl]. is_enc s d nl -> dview LIT("base64") s = d
end

(* what a measurement is printed as *)
module MeasT
  use cxx.Cxx
  use lits.Lits
  use escape.EscI
  lemma quote_gt_eqs : eqs (scat LIT("\"") LIT(">")) LIT("\">")
  lemma quote_gt : scat LIT("\"") LIT(">") = LIT("\">")
  function prt (on:bool) (s:str) : str = if on then esc s else s
  function attr (on:bool) (before s dflt:str) : str = if s = dflt then sempty else scat before (scat (prt on s) LIT("\""))
  (* start tag, content, end tag; encoding and compression only where they are not the default *)
  function starttag (el:str) (on:bool) (name ty:str) (enc cmp:str) : str =
    scat LIT("<") (scat el (scat LIT(" name=\"") (scat (prt on name) (scat LIT("\" type=\"") (scat (prt on ty) (scat LIT("\"")
      (scat (attr on LIT(" encoding=\"") enc LIT("none")) (scat (attr on LIT(" compression=\"") cmp LIT("none")) LIT(">")))))))))
  function printed (el:str) (on:bool) (name ty enc cmp c:str) : str =
    scat (starttag el on name ty enc cmp) (scat (prt on c) (scat LIT("</") (scat el LIT(">"))))
end

(* Options at the start of an argument vector.  ArgsI is what the proof of the code uses; ArgsD proves its axioms. *)
module Strtol
  use cxx.Cxx
  (* the number a text starts with, as strtol reads it *)
  val function strtolv (s:str) (b:int) : int
  axiom strtolv_range : forall s b [strtolv s b]. in_s64 (strtolv s b)
end

module ArgsI
  use cxx.Cxx
  use lits.Lits
  use recs.Recs
  use Strtol
  (* the vector is the elements o, o+1, ... of m; option and value of the k-th pair after the program name *)
  function optn (m:hmap cstr) (o k:int) : str = cval (hget m (o + 1 + 2 * k))
  function optv (m:hmap cstr) (o k:int) : str = cval (hget m (o + 2 + 2 * k))
  predicate isopt (s:str) = s = LIT("-O") \/ s = LIT("-I") \/ s = LIT("-R") \/ s = LIT("-P")
  predicate canout (v:str) = isreg (fs_stat (cpre v)) -> fs_access (cpre v) 2
  predicate canin (v:str) = isreg (fs_stat (cpre v)) /\ fs_access (cpre v) 4
  predicate candir (v:str) = isdir (fs_stat (cpre v)) /\ fs_access (cpre v) 5
  (* a value that can be used, or is skipped *)
  predicate usable (w v:str) = (w = LIT("-I") -> canin v) /\ (w = LIT("-P") -> candir v)
  (* there are at least k leading options with a value *)
  predicate leads (m:hmap cstr) (o n k:int) = k >= 0 /\ (k > 0 -> 2 * k < n) /\ forall p [optn m o p]. 0 <= p < k -> isopt (optn m o p)
  (* there are exactly k *)
  predicate leading (m:hmap cstr) (o n k:int) = leads m o n k /\ not (2 * k + 2 < n /\ isopt (optn m o k))
  predicate allusable (m:hmap cstr) (o k:int) = forall p [optn m o p]. 0 <= p < k -> usable (optn m o p) (optv m o p)
  (* some leading option has a value that cannot be used *)
  predicate rejected (m:hmap cstr) (o n:int) = exists k. leads m o n (k + 1) /\ allusable m o k /\ not (usable (optn m o k) (optv m o k))
  (* what the first k pairs ask for *)
  function optI (m:hmap cstr) (o k:int) (d:str) : str
  axiom optI_first : forall m o d [optI m o 0 d]. optI m o 0 d = d
  axiom optI_next : forall m o j k d [optI m o j d, optI m o k d]. 0 <= j -> k = j + 1 -> optI m o k d = if optn m o j = LIT("-I") then optv m o j else optI m o j d
  function optO (m:hmap cstr) (o k:int) (d:str) : str
  axiom optO_first : forall m o d [optO m o 0 d]. optO m o 0 d = d
  axiom optO_next : forall m o j k d [optO m o j d, optO m o k d]. 0 <= j -> k = j + 1 -> optO m o k d = if optn m o j = LIT("-O") /\ canout (optv m o j) then optv m o j else optO m o j d
  function optR (m:hmap cstr) (o k d:int) : int
  axiom optR_first : forall m o d [optR m o 0 d]. optR m o 0 d = d
  axiom optR_next : forall m o j k d [optR m o j d, optR m o k d]. 0 <= j -> k = j + 1 -> optR m o k d = if optn m o j = LIT("-R") then s32 (strtolv (optv m o j) 10) else optR m o j d
  (* the names of paths *)
  function lnames (l:lst r_PathName) : lst str
  axiom lnames_len : forall l [lnames l]. llen (lnames l) = llen l
  axiom lnames_get : forall l i [lget (lnames l) i]. 0 <= i < llen l -> lget (lnames l) i = (lget l i).f_PathName_pathName
  axiom lnames_cons : forall x l [lnames (lcons x l)]. lnames (lcons x l) = lcons x.f_PathName_pathName (lnames l)
  function optP (m:hmap cstr) (o k:int) (d:lst str) : lst str
  axiom optP_first : forall m o d [optP m o 0 d]. optP m o 0 d = d
  axiom optP_next : forall m o j k d [optP m o j d, optP m o k d]. 0 <= j -> k = j + 1 -> optP m o k d = if optn m o j = LIT("-P") then lcons (optv m o j) (optP m o j d) else optP m o j d
end

module ArgsL
  use cxx.Cxx
  let lemma half (n a k:int) : unit requires { a + 2 * k = n } ensures { div (n - a) 2 = k } = ()
end

module ArgsD
  use cxx.Cxx
  use lits.Lits
  use recs.Recs
  use Strtol
  function optn (m:hmap cstr) (o k:int) : str = cval (hget m (o + 1 + 2 * k))
  function optv (m:hmap cstr) (o k:int) : str = cval (hget m (o + 2 + 2 * k))
  predicate canout (v:str) = isreg (fs_stat (cpre v)) -> fs_access (cpre v) 2
  val ghost function isI (m:hmap cstr) (o k:int) : bool ensures { result <-> optn m o k = LIT("-I") }
  val ghost function toI (m:hmap cstr) (o k:int) (d:str) : str ensures { result = optv m o k }
  let rec ghost function optI_ (m:hmap cstr) (o k:int) (d:str) : str variant { k }
  = if k <= 0 then d else if isI m o (k-1) then toI m o (k-1) (optI_ m o (k-1) d) else optI_ m o (k-1) d
  function optI (m:hmap cstr) (o k:int) (d:str) : str = optI_ m o k d
  val ghost function isO (m:hmap cstr) (o k:int) : bool ensures { result <-> optn m o k = LIT("-O") /\ canout (optv m o k) }
  val ghost function toO (m:hmap cstr) (o k:int) (d:str) : str ensures { result = optv m o k }
  let rec ghost function optO_ (m:hmap cstr) (o k:int) (d:str) : str variant { k }
  = if k <= 0 then d else if isO m o (k-1) then toO m o (k-1) (optO_ m o (k-1) d) else optO_ m o (k-1) d
  function optO (m:hmap cstr) (o k:int) (d:str) : str = optO_ m o k d
  val ghost function isR (m:hmap cstr) (o k:int) : bool ensures { result <-> optn m o k = LIT("-R") }
  val ghost function toR (m:hmap cstr) (o k:int) (d:int) : int ensures { result = s32 (strtolv (optv m o k) 10) }
  let rec ghost function optR_ (m:hmap cstr) (o k:int) (d:int) : int variant { k }
  = if k <= 0 then d else if isR m o (k-1) then toR m o (k-1) (optR_ m o (k-1) d) else optR_ m o (k-1) d
  function optR (m:hmap cstr) (o k:int) (d:int) : int = optR_ m o k d
  val ghost function isP (m:hmap cstr) (o k:int) : bool ensures { result <-> optn m o k = LIT("-P") }
  val ghost function toP (m:hmap cstr) (o k:int) (d:lst str) : lst str ensures { result = lcons (optv m o k) d }
  let rec ghost function optP_ (m:hmap cstr) (o k:int) (d:lst str) : lst str variant { k }
  = if k <= 0 then d else if isP m o (k-1) then toP m o (k-1) (optP_ m o (k-1) d) else optP_ m o (k-1) d
  function optP (m:hmap cstr) (o k:int) (d:lst str) : lst str = optP_ m o k d
  val ghost function nameof (l:lst r_PathName) (i:int) : str ensures { result = (lget l i).f_PathName_pathName }
  let rec ghost function lnames_ (l:lst r_PathName) (n:int) : lst str variant { n }
    requires { 0 <= n <= llen l } ensures { llen result = n } ensures { forall i. 0 <= i < n -> lget result i = (lget l i).f_PathName_pathName }
  = if n = 0 then lempty else lsnoc (lnames_ l (n-1)) (nameof l (n-1))
  function lnames (l:lst r_PathName) : lst str = lnames_ l (llen l)
  lemma names_cons : forall x l. eql (lnames (lcons x l)) (lcons x.f_PathName_pathName (lnames l))
  clone ArgsI with function lnames = lnames, function optI = optI, function optO = optO, function optR = optR, function optP = optP
end

(* the leading options are a number of pairs of their own *)
module ArgsR
  use cxx.Cxx
  use ArgsI
  lemma one_run : forall m o n j k. leading m o n j -> leading m o n k -> j = k
end

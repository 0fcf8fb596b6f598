(* Objects and streams.  Axioms here are part of the trusted base. *)
module Obj
  use cxx.Cxx
  (* class of the object at an address, 0 for none *)
  val ref dyn : hmap int
  (* nothing lives at the null address: no operation below can put an object there *)
  val dyn_wf_ () : unit
    ensures { hget dyn 0 = 0 } ensures { forall p [hget dyn p]. hget dyn p >= 0 }
  val new_ (k:int) : int
    writes { dyn } ensures { result > 0 } ensures { hget (old dyn) result = 0 } ensures { dyn = hset (old dyn) result k }
  val delete_ (p:int) : unit
    requires { [@expl:a deleted object exists] p = 0 \/ hget dyn p > 0 }
    writes { dyn } ensures { dyn = if p = 0 then old dyn else hset (old dyn) p 0 }
end

module Out
  use cxx.Cxx
  (* output streams: what was written (writes to the error output are dropped by the translation), precision, whether writes succeed *)
  val ref os_txt : hmap str
  val ref os_prec : hmap int
  val ref os_live : hmap bool
  val function dec (i:int) : str
  axiom dec_pos : forall i [dec i]. slen (dec i) > 0
  (* the digits of a number in base 16 *)
  val function hexd (i:int) : str
  axiom hexd_pos : forall i [hexd i]. slen (hexd i) > 0
  let function out (m:hmap str) (o:int) (s:str) : hmap str = hset m o (scat (hget m o) s)
  val out_ (o:int) (s:str) : unit
    writes { os_txt } ensures { os_txt = out (old os_txt) o s }
  (* files: the path given, and whether it could be opened *)
  val function owritable (p:str) : bool
  val function os_path (i:int) : str
  val new_os_file_ (p:str) : int
    writes { os_txt, os_prec, os_live }
    ensures { result > 3 } ensures { not (hget (old os_live) result) } ensures { os_live = hset (old os_live) result true }
    ensures { os_txt = hset (old os_txt) result sempty } ensures { os_prec = hset (old os_prec) result 6 } ensures { os_path result = p }
  (* whether writes succeed: known only as long as nothing was written *)
  val os_good_ (i:int) : bool
    ensures { hget os_txt i = sempty -> result <-> owritable (os_path i) }
  val delete_os_ (i:int) : unit
    requires { [@expl:a deleted stream exists] i = 0 \/ (i > 3 /\ hget os_live i) }
    writes { os_live } ensures { os_live = if i = 0 then old os_live else hset (old os_live) i false }
  val new_os_ (k:int) : int
    writes { os_txt, os_prec, os_live }
    ensures { result > 3 } ensures { not (hget (old os_live) result) } ensures { os_live = hset (old os_live) result true }
    ensures { os_txt = hset (old os_txt) result sempty } ensures { os_prec = hset (old os_prec) result 6 }
end

(* concatenation is associative; the texts of several writes are compared in one form *)
module Cat
  use cxx.Cxx
  lemma scat_assoc_eqs : forall a b c. eqs (scat (scat a b) c) (scat a (scat b c))
  use Out
  lemma scat_ass : forall a b c. scat (scat a b) c = scat a (scat b c)
  lemma out_out : forall m o a b [out (out m o a) o b]. out (out m o a) o b = out m o (scat a b)
  lemma out_e : forall m o [out m o sempty]. out m o sempty = m
  lemma scat_assoc : forall a b c [scat (scat a b) c]. scat (scat a b) c = scat a (scat b c)
end

module In
  use cxx.Cxx
  (* input streams: all characters, place, end/fail/bad; the file system gives the same answers while one function runs *)
  val ref is_data : hmap str
  val ref is_pos : hmap int
  val ref is_eof : hmap bool
  val ref is_fail : hmap bool
  val ref is_bad : hmap bool
  val ref is_live : hmap bool
  val function fopens (p:str) : bool   (* the file can be opened for reading *)
  function fbytes (p:str) : str    (* what it holds *)
  axiom fbytes_len : forall p [fbytes p]. slen (fbytes p) <= smax
  predicate is_ok (f b:hmap bool) (i:int) = not (hget f i) /\ not (hget b i)
  val function is_path (i:int) : str
  val new_is_file_ (p:str) : int
    writes { is_data, is_pos, is_eof, is_fail, is_bad, is_live }
    ensures { result > 3 /\ not (hget (old is_live) result) /\ is_live = hset (old is_live) result true }
    ensures { is_path result = p }
    ensures { is_data = hset (old is_data) result (fbytes p) } ensures { is_pos = hset (old is_pos) result 0 }
    ensures { is_eof = hset (old is_eof) result false } ensures { is_fail = hset (old is_fail) result (not (fopens p)) } ensures { is_bad = hset (old is_bad) result false }
  val new_is_str_ (s:str) : int
    writes { is_data, is_pos, is_eof, is_fail, is_bad, is_live }
    ensures { result > 3 /\ not (hget (old is_live) result) /\ is_live = hset (old is_live) result true }
    ensures { is_data = hset (old is_data) result s } ensures { is_pos = hset (old is_pos) result 0 }
    ensures { is_eof = hset (old is_eof) result false } ensures { is_fail = hset (old is_fail) result false } ensures { is_bad = hset (old is_bad) result false }
  val delete_is_ (i:int) : unit
    requires { [@expl:a deleted stream exists] i = 0 \/ (i > 3 /\ hget is_live i) }
    writes { is_live } ensures { is_live = if i = 0 then old is_live else hset (old is_live) i false }
  val tellg_ (i:int) : int
    ensures { result = if hget is_fail i \/ hget is_bad i then -1 else hget is_pos i } ensures { in_s64 result }
  val seekg_ (i off dir:int) : unit
    writes { is_pos, is_eof, is_fail }
    requires { [@expl:the place is within the file] is_ok is_fail is_bad i -> 0 <= off + (if dir = 0 then 0 else if dir = 1 then hget is_pos i else slen (hget is_data i)) <= slen (hget is_data i) }
    ensures { is_eof = hset (old is_eof) i false } ensures { is_fail = old is_fail }
    ensures { is_pos = if is_ok (old is_fail) is_bad i then hset (old is_pos) i (off + (if dir = 0 then 0 else if dir = 1 then hget (old is_pos) i else slen (hget is_data i))) else old is_pos }
  (* one character; a read error (bad) can happen at any time *)
  val get_ (i:int) : (bool, int)
    writes { is_pos, is_eof, is_fail, is_bad }
    ensures { let (ok, c) = result in in_s8 c /\
      (ok -> is_ok (old is_fail) (old is_bad) i /\ hget (old is_pos) i < slen (hget is_data i) /\ c = sget (hget is_data i) (hget (old is_pos) i)
             /\ is_pos = hset (old is_pos) i (hget (old is_pos) i + 1) /\ is_eof = old is_eof /\ is_fail = old is_fail /\ is_bad = old is_bad) /\
      (not ok -> is_fail = hset (old is_fail) i true /\ is_pos = old is_pos
             /\ (is_ok (old is_fail) (old is_bad) i /\ not (hget (old is_eof) i) -> (is_bad = old is_bad /\ is_eof = hset (old is_eof) i true /\ hget is_pos i >= slen (hget is_data i)) \/ (is_bad = hset (old is_bad) i true /\ is_eof = old is_eof))
             /\ (not (is_ok (old is_fail) (old is_bad) i /\ not (hget (old is_eof) i)) -> is_bad = old is_bad /\ is_eof = old is_eof)) }
  (* n characters to memory *)
  val read_ (i:int) (p:ptr) (n:int) : unit
    requires { [@expl:room for the characters read] n <= 0 \/ inblk msz p n }
    writes { is_pos, is_eof, is_fail, is_bad, mem_b }
    ensures { forall k. k <> p.blk -> hget mem_b k = hget (old mem_b) k }
    ensures { forall k. k < p.off \/ k >= p.off + n -> bget (hget mem_b p.blk) k = bget (hget (old mem_b) p.blk) k }
    ensures { let ok = is_ok (old is_fail) (old is_bad) i /\ not (hget (old is_eof) i) in
      (not ok -> is_pos = old is_pos /\ is_eof = old is_eof /\ is_bad = old is_bad /\ is_fail = hset (old is_fail) i true) /\
      (ok -> (is_bad = old is_bad /\ hget (old is_pos) i + n <= slen (hget is_data i) /\ is_eof = old is_eof /\ is_fail = old is_fail
               /\ is_pos = hset (old is_pos) i (hget (old is_pos) i + n) /\ bstr (hget mem_b p.blk) p.off n = ssub (hget is_data i) (hget (old is_pos) i) (hget (old is_pos) i + n))
          \/ (is_bad = old is_bad /\ hget (old is_pos) i + n > slen (hget is_data i) /\ is_eof = hset (old is_eof) i true /\ is_fail = hset (old is_fail) i true
               /\ is_pos = hset (old is_pos) i (slen (hget is_data i)) /\ bstr (hget mem_b p.blk) p.off (slen (hget is_data i) - hget (old is_pos) i) = ssub (hget is_data i) (hget (old is_pos) i) (slen (hget is_data i)))
          \/ (is_bad = hset (old is_bad) i true /\ is_eof = old is_eof /\ is_fail = old is_fail)) }
end

(* character arrays and what the system writes to them *)
module Arr
  use cxx.Cxx
  function atext (m:hmap int) : str     (* the characters before the first null character *)
  predicate hasnul (m:hmap int) (n:int) = exists i [hget m i]. 0 <= i < n /\ hget m i = 0
  val atext_ (m:hmap int) (n:int) : str
    requires { [@expl:the character array holds a null character] hasnul m n } ensures { result = atext m } ensures { slen result < n }
  (* host names are at most 64 characters long: with that much room the call succeeds *)
  val gethostname_ (m:hmap int) (k n:int) : (int, hmap int)
    requires { [@expl:room for the host name] 65 <= n <= k }
    ensures { let (r, m') = result in r = 0 /\ hasnul m' k }
  val time_ () : int ensures { in_s64 result }
  val ctime_ (t:int) : cstr ensures { result <> CNull }
end

(* what became of the body of a test *)
module Run
  val ref test_done : bool
  val ref test_ret : int
  val ref test_bad : int
end

(* one child process: the command it was given, what was read of its output so far, how many pieces are still to come *)
module Proc
  use cxx.Cxx
  val ref proc_argc : int
  val ref proc_argv : hmap str
  val ref proc_got : str
  val ref proc_left : int
  val ref proc_run : int       (* 0 created, 1 started, 2 waited for *)
  val constant proc_state : int    (* what becomes of it: a state of itksysProcess *)
  val constant proc_exit : int
  axiom proc_ranges : 0 <= proc_state <= 7 /\ in_s32 proc_exit
  predicate words (m:hmap cstr) (o n:int) = n >= 0 /\ hget m (o + n) = CNull /\ forall x [hget m x]. o <= x < o + n -> hget m x <> CNull
  val proc_new_ () : int
    writes { proc_argc, proc_argv, proc_got, proc_left, proc_run }
    ensures { result > 0 /\ proc_argc = -1 /\ proc_got = sempty /\ proc_run = 0 }
  val proc_command_ (p:ptr) (k:int) (m:hmap cstr) : unit
    requires { [@expl:the command ends with a null pointer] exists n. words m p.off n /\ n < k - p.off }
    requires { [@expl:the command is an array] p.blk > 0 /\ p.off >= 0 }
    writes { proc_argc, proc_argv }
    ensures { words m p.off proc_argc } ensures { forall k [hget proc_argv k]. 0 <= k < proc_argc -> hget proc_argv k = cval (hget m (p.off + k)) }
  val proc_execute_ () : unit
    requires { [@expl:the command is set before it is run] proc_argc >= 0 /\ proc_run = 0 }
    writes { proc_run, proc_left } ensures { proc_run = 1 /\ proc_left >= 0 }
  (* the next piece of the output, 0 when there is no more; standard output (2) and error output (3) *)
  val proc_data_ () : (int, ptr, int)
    requires { [@expl:the command runs] proc_run = 1 }
    writes { msz, mem_b, proc_got, proc_left }
    ensures { let (r, p, n) = result in 
       (r = 0 \/ r = 2 \/ r = 3) /\
       (r = 0 -> (old proc_left) = 0 /\ proc_left = 0 /\ proc_got = (old proc_got) /\ msz = (old msz) /\ mem_b = (old mem_b)) /\
       (r <> 0 -> 0 <= n /\ in_s32 n /\ 0 <= proc_left < (old proc_left) /\ inblk msz p n /\ hget (old msz) p.blk = -1 /\ proc_got = scat (old proc_got) (bstr (hget mem_b p.blk) p.off n)) }
    ensures { let (_, p, _) = result in forall k [hget mem_b k]. k <> p.blk -> hget mem_b k = hget (old mem_b) k }
    ensures { let (_, p, _) = result in forall k [hget msz k]. k <> p.blk -> hget msz k = hget (old msz) k }
  (* with a time limit: 255 when it is over *)
  val proc_data_t_ () : (int, ptr, int)
    requires { [@expl:the command runs] proc_run = 1 }
    writes { msz, mem_b, proc_got, proc_left }
    ensures { let (r, p, n) = result in 
       (r = 0 \/ r = 2 \/ r = 3 \/ r = 255) /\
       (r = 255 -> proc_left = (old proc_left) /\ proc_got = (old proc_got) /\ msz = (old msz) /\ mem_b = (old mem_b)) /\
       (r = 0 -> (old proc_left) = 0 /\ proc_left = 0 /\ proc_got = (old proc_got) /\ msz = (old msz) /\ mem_b = (old mem_b)) /\
       (r <> 0 /\ r <> 255 -> 0 <= n /\ in_s32 n /\ 0 <= proc_left < (old proc_left) /\ inblk msz p n /\ hget (old msz) p.blk = -1 /\ proc_got = scat (old proc_got) (bstr (hget mem_b p.blk) p.off n)) }
    ensures { let (_, p, _) = result in forall k [hget mem_b k]. k <> p.blk -> hget mem_b k = hget (old mem_b) k }
    ensures { let (_, p, _) = result in forall k [hget msz k]. k <> p.blk -> hget msz k = hget (old msz) k }
  val proc_wait_ () : unit
    requires { [@expl:the command runs] proc_run = 1 } writes { proc_run } ensures { proc_run = 2 }
  val proc_state_ () : int
    requires { [@expl:the command has ended] proc_run = 2 } ensures { result = proc_state }
  val proc_exit_ () : int
    requires { [@expl:the command ended by itself] proc_run = 2 /\ proc_state = 4 } ensures { result = proc_exit }
end

(* the numbers a template is instantiated with *)
module Tparams
  use int.Int
  val constant tp_1 : int
  val constant tp_2 : int
  axiom tp_range : 1 <= tp_1 <= 32767 /\ 1 <= tp_2 <= 32767
end

(* the numeric measurements made so far: kind (1 integer, 2 double), name, value, whether tolerant, result *)
module Ilog
  use cxx.Cxx
  use fl.Fl
  val ref log_n : int
  val ref log_kind : hmap int
  val ref log_name : hmap str
  val ref log_int : hmap int
  val ref log_dbl : hmap f64
  val ref log_tol : hmap bool
  val ref log_ret : hmap int
end

module SumI
  use cxx.Cxx
  function rsum (m:hmap int) (a b:int) : int
  axiom rsum_first : forall m a [rsum m a a]. rsum m a a = 0
  axiom rsum_next : forall m a j k [rsum m a j, rsum m a k]. a <= j -> k = j + 1 -> rsum m a k = rsum m a j + hget m j
end

module SumD
  use cxx.Cxx
  let rec ghost function rsum_ (m:hmap int) (a b:int) : int variant { b - a } = if b <= a then 0 else rsum_ m a (b-1) + hget m (b-1)
  function rsum (m:hmap int) (a b:int) : int = rsum_ m a b
  clone SumI with function rsum
end

module SumL
  use cxx.Cxx
  use SumI
  let rec lemma rsum_same (m m':hmap int) (a b:int) : unit
    requires { a <= b } requires { forall k [hget m k]. a <= k < b -> hget m k = hget m' k }
    ensures { rsum m a b = rsum m' a b } variant { b - a }
  = if b > a then rsum_same m m' a (b-1) else ()
  let rec lemma rsum_split (m:hmap int) (a b c:int) : unit
    requires { a <= b <= c } ensures { rsum m a c = rsum m a b + rsum m b c } variant { c - b }
  = if c > b then rsum_split m a b (c-1) else ()
end

(* the text of a name, put together piece by piece *)
module NameL
  use cxx.Cxx
  use Out
  use Cat
  let lemma name2_ (a b c:str) : unit ensures { scat (scat (scat sempty a) b) c = scat a (scat b c) } = ()
  let lemma name4_ (a b c d e:str) : unit ensures { scat (scat (scat (scat (scat sempty a) b) c) d) e = scat a (scat b (scat c (scat d e))) } = ()
end

(* the components of a matrix, row by row *)
module RowI
  use cxx.Cxx
  use Tparams
  function rowat (i:int) : int
  function rowof (k:int) : int
  function colof (k:int) : int
  axiom rowat_first : rowat 0 = 0
  axiom rowat_next : forall j k [rowat j, rowat k]. k = j + 1 -> rowat k = rowat j + tp_2
  axiom rowat_all : rowat tp_1 <= 1073741823
end

module RowD
  use cxx.Cxx
  use Tparams
  use int.ComputerDivision
  function rowat (i:int) : int = i * tp_2
  function rowof (k:int) : int = div k tp_2
  function colof (k:int) : int = mod k tp_2
  let lemma row_ (i j:int) : unit
    requires { 0 <= i < tp_1 /\ 0 <= j < tp_2 }
    ensures { rowof (rowat i + j) = i } ensures { colof (rowat i + j) = j } ensures { 0 <= rowat i } ensures { rowat i + j < rowat tp_1 }
  = assert { (i + 1) * tp_2 <= tp_1 * tp_2 }; assert { i * tp_2 + j = tp_2 * i + j }
  let lemma all_ () : unit ensures { rowat tp_1 <= 1073741823 } = assert { tp_1 * tp_2 <= 32767 * tp_2 }
  clone RowI with function rowat, function rowof, function colof
end

module RowL
  use cxx.Cxx
  use Tparams
  use RowI
  (* proved in RowD *)
  val ghost rowcol_ (i j:int) : unit
    requires { 0 <= i < tp_1 /\ 0 <= j < tp_2 }
    ensures { rowof (rowat i + j) = i } ensures { colof (rowat i + j) = j } ensures { 0 <= rowat i } ensures { rowat i + j < rowat tp_1 }
end

(* generated file names *)
module FnameI
  use cxx.Cxx
  use lits.Lits
  use Out
  function hstep (h c:int) : int = u16 (bxor (h * 128 + div h 512) c)
  function hashn (s:str) (n:int) : int    (* of the first n characters *)
  axiom hashn_none : forall s [hashn s 0]. hashn s 0 = 64371
  axiom hashn_next : forall s j k [hashn s j, hashn s k]. 0 <= j -> k = j + 1 -> k <= slen s -> hashn s k = hstep (hashn s j) (sget s j)
  function acat (l:lst str) (n:int) : str (* the first n arguments, one after the other *)
  axiom acat_none : forall l [acat l 0]. acat l 0 = sempty
  axiom acat_next : forall l j k [acat l j, acat l k]. 0 <= j -> k = j + 1 -> k <= llen l -> acat l k = scat (acat l j) (lget l j)
  function argtext (l:lst str) : str = acat l (llen l)
  function arghash (l:lst str) : int = hashn (argtext l) (slen (argtext l))
  function fname (l:lst str) (c:int) (e:str) : str = scat (lget l 0) (scat LIT("_") (scat (hexd (arghash l)) (scat LIT("_") (scat (hexd c) (scat LIT(".") e)))))
end

module FnameD
  use cxx.Cxx
  use lits.Lits
  use Out
  val ghost function hstepc (s:str) (i h:int) : int ensures { result = u16 (bxor (h * 128 + div h 512) (sget s i)) }
  let rec ghost function hashn (s:str) (n:int) : int variant { n } = if n <= 0 then 64371 else hstepc s (n-1) (hashn s (n-1))
  val ghost function argcat (l:lst str) (i:int) (s:str) : str ensures { result = scat s (lget l i) }
  let rec ghost function acat (l:lst str) (n:int) : str variant { n } = if n <= 0 then sempty else argcat l (n-1) (acat l (n-1))
  clone FnameI with function hashn = hashn, function acat = acat
end

module FnameR
  use cxx.Cxx
  use lits.Lits
  use Out
  use FnameI
  use path.PathI
  (* the digits tell the number *)
  axiom hexd_inj : forall i j. 0 <= i -> 0 <= j -> hexd i = hexd j -> i = j
  lemma cancel_len : forall a b c. scat a b = scat a c -> slen b = slen c
  let lemma cancel_get (a b c:str) (i:int) : unit
    requires { scat a b = scat a c /\ 0 <= i < slen b } ensures { sget b i = sget c i }
  = assert { sget (scat a b) (slen a + i) = sget b i }; assert { sget (scat a c) (slen a + i) = sget c i }
  lemma cancel_eqs : forall a b c. scat a b = scat a c -> eqs b c
  lemma cancel : forall a b c. scat a b = scat a c -> b = c
  lemma rcancel_len : forall a b c. scat b a = scat c a -> slen b = slen c
  let lemma rcancel_get (a b c:str) (i:int) : unit
    requires { scat b a = scat c a /\ 0 <= i < slen b } ensures { sget b i = sget c i }
  = assert { sget (scat b a) i = sget b i }; assert { sget (scat c a) i = sget c i }
  lemma rcancel_eqs : forall a b c. scat b a = scat c a -> eqs b c
  lemma rcancel : forall a b c. scat b a = scat c a -> b = c
  lemma again : forall l c d e. 0 <= c -> 0 <= d -> fname l c e = fname l d e -> c = d
  lemma first : forall l c d e. sget (fname l c e) 0 = sget (fname l d e) 0
  lemma under_root : forall l c d e r. 0 <= c -> 0 <= d -> joined r (fname l c e) = joined r (fname l d e) -> c = d
end

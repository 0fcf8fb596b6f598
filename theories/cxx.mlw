(* The machine model shared by every contract: strings, C strings, pointers,
   integer wrap-around, exceptions.  Axioms here are part of the trusted base. *)
module Ints
  use export int.Int
  use export int.EuclideanDivision
  use export int.MinMax
  function w64 : int = 18446744073709551616
  let constant npos : int = 18446744073709551615
  predicate in_u64 (x:int) = 0 <= x < 18446744073709551616
  predicate in_s64 (x:int) = -9223372036854775808 <= x <= 9223372036854775807
  predicate in_u32 (x:int) = 0 <= x < 4294967296
  predicate in_s32 (x:int) = -2147483648 <= x <= 2147483647
  predicate in_u16 (x:int) = 0 <= x < 65536
  predicate in_s16 (x:int) = -32768 <= x <= 32767
  predicate in_u8 (x:int) = 0 <= x <= 255
  predicate in_s8 (x:int) = -128 <= x <= 127
  let function u64 (x:int) : int = if 0 <= x < 18446744073709551616 then x else mod x 18446744073709551616
  let function u32 (x:int) : int = if 0 <= x < 4294967296 then x else mod x 4294967296
  let function u16 (x:int) : int = if 0 <= x < 65536 then x else mod x 65536
  let function u8 (x:int) : int = if 0 <= x <= 255 then x else mod x 256
  let function s64 (x:int) : int = if -9223372036854775808 <= x <= 9223372036854775807 then x else mod (x + 9223372036854775808) 18446744073709551616 - 9223372036854775808
  let function s32 (x:int) : int = if -2147483648 <= x <= 2147483647 then x else mod (x + 2147483648) 4294967296 - 2147483648
  let function s16 (x:int) : int = if -32768 <= x <= 32767 then x else mod (x + 32768) 65536 - 32768
  let function s8 (x:int) : int = if -128 <= x <= 127 then x else mod (x + 128) 256 - 128
  let function b2i (b:bool) : int = if b then 1 else 0
  (* bitwise operations where the operands are not known to be disjoint *)
  val function bor (a b:int) : int
  val function bxor (a b:int) : int
  val function band (a b:int) : int
  axiom bor_4 : forall a b [bor a b]. 0 <= b < 4 -> mod a 4 = 0 -> bor a b = a + b
  axiom bor_16 : forall a b [bor a b]. 0 <= b < 16 -> mod a 16 = 0 -> bor a b = a + b
  axiom bor_64 : forall a b [bor a b]. 0 <= b < 64 -> mod a 64 = 0 -> bor a b = a + b
  axiom bor_ge : forall a b [bor a b]. 0 <= a -> 0 <= b -> 0 <= bor a b <= a + b
end

module Str
  use export Ints
  type str
  val function slen (s:str) : int
  val function sget (s:str) (i:int) : int
  axiom slen_nonneg : forall s [slen s]. 0 <= slen s
  axiom sget_range : forall s i [sget s i]. -128 <= sget s i <= 127
  predicate eqs (a b: str)
  axiom eqs_def : forall a b [eqs a b]. eqs a b <-> (slen a = slen b /\ forall i. 0 <= i < slen a -> sget a i = sget b i)
  axiom eqs_eq : forall a b [eqs a b]. eqs a b -> a = b
  constant smax : int = 4611686018427387904
  val constant sempty : str
  axiom sempty_len : slen sempty = 0
  axiom slen0 : forall s [slen s]. slen s = 0 -> s = sempty
  val function ssub (s:str) (i j:int) : str    (* characters i .. j-1 *)
  axiom ssub_len : forall s i j [ssub s i j]. 0 <= i <= j <= slen s -> slen (ssub s i j) = j - i
  axiom ssub_get : forall s i j k [sget (ssub s i j) k]. 0 <= i <= j <= slen s -> 0 <= k < j - i -> sget (ssub s i j) k = sget s (i + k)
  axiom ssub_all : forall s i j [ssub s i j]. i = 0 -> j = slen s -> ssub s i j = s
  val function scat (a b:str) : str
  axiom scat_len : forall a b [scat a b]. slen (scat a b) = slen a + slen b
  axiom scat_l : forall a b k [sget (scat a b) k]. 0 <= k < slen a -> sget (scat a b) k = sget a k
  axiom scat_r : forall a b k [sget (scat a b) k]. slen a <= k < slen a + slen b -> sget (scat a b) k = sget b (k - slen a)
  axiom scat_e : forall a [scat a sempty]. scat a sempty = a
  axiom scat_e2 : forall a [scat sempty a]. scat sempty a = a
  val function schr (c:int) : str
  axiom schr_len : forall c [schr c]. slen (schr c) = 1
  axiom schr_get : forall c [schr c]. -128 <= c <= 127 -> sget (schr c) 0 = c
  val function sset (s:str) (i c:int) : str
  axiom sset_len : forall s i c [sset s i c]. slen (sset s i c) = slen s
  axiom sset_get : forall s i c k [sget (sset s i c) k]. 0 <= i < slen s -> -128 <= c <= 127 -> sget (sset s i c) k = if k = i then c else sget s k
  val function srep (n c:int) : str
  axiom srep_len : forall n c [srep n c]. 0 <= n -> slen (srep n c) = n
  axiom srep_get : forall n c k [sget (srep n c) k]. 0 <= k < n -> -128 <= c <= 127 -> sget (srep n c) k = c
  let function sat (s:str) (i:int) : int = if i < slen s then sget s i else 0
  let function ssubn (s:str) (p n:int) : str = ssub s p (if n < slen s - p then p + n else slen s)
  let eqs_fact (a b: str) : unit requires { eqs a b } ensures { a = b } = ()
  predicate prefix (a s:str) = slen a <= slen s /\ forall i. 0 <= i < slen a -> sget s i = sget a i

  (* standard library operations, as documented *)
  val function seqb (a b:str) : bool
    ensures { result <-> a = b } ensures { (not result) -> not (eqs a b) }
  val scat_ (a b:str) : str
    ensures { result = scat a b } ensures { slen result <= smax }
  val srep_ (n c:int) : str
    ensures { result = srep n c } ensures { slen result <= smax }
  val sresize_ (s:str) (n c:int) : str
    ensures { result = if n <= slen s then ssub s 0 n else scat s (srep (n - slen s) c) } ensures { slen result <= smax }
  val sset_ (s:str) (i c:int) : str
    requires { [@expl:position within the string] 0 <= i < slen s }
    ensures { result = sset s i c }
  (* the length of an actual string object *)
  val slen_ (s:str) : int
    ensures { result = slen s } ensures { 0 <= result <= smax }
  val ssub_ (s:str) (p n:int) : str
    requires { [@expl:position within the string] 0 <= p <= slen s }
    ensures { result = ssubn s p n } ensures { slen s <= smax }
  val serase_ (s:str) (p n:int) : str
    requires { [@expl:position within the string] 0 <= p <= slen s }
    ensures { result = if n < slen s - p then scat (ssub s 0 p) (ssub s (p+n) (slen s)) else ssub s 0 p }
  val sfindc_ (s:str) (c p:int) : int
    ensures { slen s <= smax }
    ensures { result = npos \/ p <= result < slen s }
    ensures { result = npos -> forall i. p <= i < slen s -> sget s i <> c }
    ensures { result <> npos -> sget s result = c /\ forall i. p <= i < result -> sget s i <> c }
  val srfindc_ (s:str) (c p:int) : int
    ensures { slen s <= smax }
    ensures { result = npos \/ 0 <= result < slen s /\ result <= p }
    ensures { result = npos -> forall i. 0 <= i < slen s -> i <= p -> sget s i <> c }
    ensures { result <> npos -> sget s result = c /\ forall i. result < i < slen s -> i <= p -> sget s i <> c }
  predicate oneof (c:int) (t:str) = exists k. 0 <= k < slen t /\ sget t k = c
  val sfindfirst_ (s t:str) (p:int) : int
    ensures { slen s <= smax }
    ensures { result = npos \/ p <= result < slen s }
    ensures { result = npos -> forall i. p <= i < slen s -> not (oneof (sget s i) t) }
    ensures { result <> npos -> oneof (sget s result) t /\ forall i. p <= i < result -> not (oneof (sget s i) t) }
  val scompare_ (a b:str) : int
    ensures { result = 0 <-> a = b } ensures { result <> 0 -> not (eqs a b) } ensures { in_s32 result }

  (* C strings: null or the characters before the terminating one *)
  type cstr = CNull | CStr str
  (* a text the library hands out, such as what() of an exception *)
  val any_cstr_ (_u:unit) : cstr ensures { result <> CNull }
  predicate cnul (c:cstr) = match c with CNull -> true | CStr _ -> false end
  val function cval (c:cstr) : str
  axiom cval_def : forall s [cval (CStr s)]. cval (CStr s) = s
  val function cnulb (c:cstr) : bool ensures { result <-> cnul c } ensures { not result -> c = CStr (cval c) }
  val cval_ (c:cstr) : str
    requires { [@expl:the C string is not null] not (cnul c) } ensures { c = CStr result } ensures { result = cval c }
    ensures { slen result <= smax }
  (* the part of a string before its first null character *)
  val function cpre (s:str) : str
  axiom cpre_nonul : forall s i [sget (cpre s) i]. 0 <= i < slen (cpre s) -> sget (cpre s) i <> 0
  axiom cpre_id : forall s [cpre s]. (forall i. 0 <= i < slen s -> sget s i <> 0) -> cpre s = s
  axiom cpre_len : forall s [cpre s]. slen (cpre s) <= slen s
end

module Hmap
  use export Str
  type hmap 'a
  val function hget (m:hmap 'a) (i:int) : 'a
  val function hset (m:hmap 'a) (i:int) (v:'a) : hmap 'a
  axiom hset_hset : forall m:hmap 'a, i v w [hset (hset m i v) i w]. hset (hset m i v) i w = hset m i w
  axiom hset_same : forall m:hmap 'a, i [hset m i (hget m i)]. hset m i (hget m i) = m
  axiom hget_hset : forall m:hmap 'a, i v j [hget (hset m i v) j]. hget (hset m i v) j = if i = j then v else hget m j
end

module Mem
  use export Hmap
  type ptr = { blk : int; off : int }
  let constant pnull : ptr = { blk = 0; off = 0 }
  let function padd (p:ptr) (n:int) : ptr = { blk = p.blk; off = p.off + n }
  let function peq (p q:ptr) : bool = p.blk = q.blk && p.off = q.off
  (* sizes of blocks in elements, -1 for no block; the null block has none *)
  val ref msz : hmap int
  (* memory of bytes *)
  type bytes
  val function bget (b:bytes) (i:int) : int
  axiom bget_range : forall b i [bget b i]. 0 <= bget b i <= 255
  val function bset (b:bytes) (i v:int) : bytes
  axiom bset_get : forall b i v j [bget (bset b i v) j]. 0 <= v <= 255 -> bget (bset b i v) j = if i = j then v else bget b j
  val ref mem_b : hmap bytes
  val function bstr (b:bytes) (o n:int) : str
  axiom bstr_len : forall b o n [bstr b o n]. 0 <= n -> slen (bstr b o n) = n
  axiom bstr_get : forall b o n k [sget (bstr b o n) k]. 0 <= k < n -> sget (bstr b o n) k = s8 (bget b (o + k))
  predicate inblk (sz:hmap int) (p:ptr) (n:int) = p.blk > 0 /\ 0 <= p.off /\ p.off + n <= hget sz p.blk
  (* memory from malloc and new: a block that was none; allocation does not fail within the address space *)
  val alloc_ (n:int) : ptr
    writes { msz }
    ensures { result.off = 0 /\ (if 0 <= n <= smax then result.blk > 0 else result.blk = 0) }
    ensures { if result.blk = 0 then msz = old msz else hget (old msz) result.blk = -1 /\ msz = hset (old msz) result.blk n }
  (* new T[n]: if there is no memory it throws, and such runs are not looked at *)
  val newarr_ (n k:int) : ptr
    requires { [@expl:the number of elements] 0 <= n }
    writes { msz }
    ensures { result.off = 0 /\ result.blk > 0 /\ n * k <= smax /\ hget (old msz) result.blk = -1 /\ msz = hset (old msz) result.blk n }
  val free_ (p:ptr) : unit
    requires { [@expl:only a whole live block is freed] p.blk = 0 \/ (p.off = 0 /\ p.blk > 0 /\ hget msz p.blk >= 0) }
    writes { msz }
    ensures { msz = if p.blk = 0 then old msz else hset (old msz) p.blk (-1) }
  (* the characters of a string object, with the terminating null *)
  val strptr_ (s:str) : ptr
    writes { msz, mem_b }
    ensures { result.off = 0 /\ result.blk > 0 /\ hget (old msz) result.blk = -1 /\ msz = hset (old msz) result.blk (slen s + 1) }
    ensures { forall k. k <> result.blk -> hget mem_b k = hget (old mem_b) k }
    ensures { bstr (hget mem_b result.blk) 0 (slen s) = s } ensures { slen s <= smax }
  val memcpy_ (d s:ptr) (n:int) : unit
    requires { [@expl:both blocks hold the bytes copied] n = 0 \/ (inblk msz d n /\ inblk msz s n) }
    requires { [@expl:the blocks copied do not overlap] n = 0 \/ d.blk <> s.blk \/ d.off + n <= s.off \/ s.off + n <= d.off }
    writes { mem_b }
    ensures { forall k. k <> d.blk -> hget mem_b k = hget (old mem_b) k }
    ensures { 0 <= n -> bstr (hget mem_b d.blk) d.off n = bstr (hget (old mem_b) s.blk) s.off n }
    ensures { forall i. bget (hget mem_b d.blk) i = if d.off <= i < d.off + n then bget (hget (old mem_b) s.blk) (s.off + (i - d.off)) else bget (hget (old mem_b) d.blk) i }
  val memcmp_ (a b:ptr) (n:int) : int
    requires { [@expl:both blocks hold the bytes compared] n = 0 \/ (inblk msz a n /\ inblk msz b n) }
    ensures { in_s32 result }
    ensures { result = 0 <-> bstr (hget mem_b a.blk) a.off n = bstr (hget mem_b b.blk) b.off n }
end

module List
  use export Mem
  type lst 'a
  val function llen (l:lst 'a) : int
  axiom llen_nonneg : forall l:lst 'a [llen l]. 0 <= llen l
  val function lget (l:lst 'a) (i:int) : 'a
  predicate eql (a b: lst 'a)
  axiom eql_def : forall a b: lst 'a [eql a b]. eql a b <-> (llen a = llen b /\ forall i. 0 <= i < llen a -> lget a i = lget b i)
  axiom eql_eq : forall a b: lst 'a [eql a b]. eql a b -> a = b
  val function lempty : lst 'a
  axiom lempty_len : llen (lempty: lst 'a) = 0
  axiom llen0 : forall l:lst 'a [llen l]. llen l = 0 -> l = lempty
  val function lset (l:lst 'a) (i:int) (v:'a) : lst 'a
  axiom lset_len : forall l:lst 'a, i v [lset l i v]. llen (lset l i v) = llen l
  axiom lset_get : forall l:lst 'a, i v j [lget (lset l i v) j]. 0 <= i < llen l -> lget (lset l i v) j = if i = j then v else lget l j
  val function lsnoc (l:lst 'a) (v:'a) : lst 'a
  axiom lsnoc_len : forall l:lst 'a, v [lsnoc l v]. llen (lsnoc l v) = llen l + 1
  axiom lsnoc_get : forall l:lst 'a, v i [lget (lsnoc l v) i]. 0 <= i <= llen l -> lget (lsnoc l v) i = if i = llen l then v else lget l i
  val function lcons (v:'a) (l:lst 'a) : lst 'a
  axiom lcons_len : forall l:lst 'a, v [lcons v l]. llen (lcons v l) = llen l + 1
  axiom lcons_get : forall l:lst 'a, v i [lget (lcons v l) i]. 0 <= i <= llen l -> lget (lcons v l) i = if i = 0 then v else lget l (i - 1)
  val function lsub (l:lst 'a) (i j:int) : lst 'a
  axiom lsub_len : forall l:lst 'a, i j [lsub l i j]. 0 <= i <= j <= llen l -> llen (lsub l i j) = j - i
  axiom lsub_get : forall l:lst 'a, i j k [lget (lsub l i j) k]. 0 <= i <= j <= llen l -> 0 <= k < j - i -> lget (lsub l i j) k = lget l (i + k)
  val function lcat (a b:lst 'a) : lst 'a
  axiom lcat_len : forall a b:lst 'a [lcat a b]. llen (lcat a b) = llen a + llen b
  axiom lcat_get : forall a b:lst 'a, i [lget (lcat a b) i]. 0 <= i < llen a + llen b -> lget (lcat a b) i = if i < llen a then lget a i else lget b (i - llen a)
  val function lrem (l:lst 'a) (p:int) : lst 'a     (* without element p *)
  axiom lrem_len : forall l:lst 'a, p [lrem l p]. 0 <= p < llen l -> llen (lrem l p) = llen l - 1
  axiom lrem_get : forall l:lst 'a, p i [lget (lrem l p) i]. 0 <= p < llen l -> 0 <= i < llen l - 1 -> lget (lrem l p) i = if i < p then lget l i else lget l (i + 1)
  val function lins (l:lst 'a) (p:int) (v:'a) : lst 'a   (* with v put before element p *)
  axiom lins_len : forall l:lst 'a, p v [lins l p v]. 0 <= p <= llen l -> llen (lins l p v) = llen l + 1
  axiom lins_get : forall l:lst 'a, p v i [lget (lins l p v) i]. 0 <= p <= llen l -> 0 <= i <= llen l -> lget (lins l p v) i = if i < p then lget l i else if i = p then v else lget l (i - 1)
  let function fst (p:('a,'b)) : 'a = let (x,_) = p in x
  let function snd (p:('a,'b)) : 'b = let (_,y) = p in y
  (* a multimap is the list of its entries in order; a new entry goes after those with the same key *)
  predicate sorted (l:lst (int,'a)) = forall p q [lget l p, lget l q]. 0 <= p <= q < llen l -> fst (lget l p) <= fst (lget l q)
  val minsert_ (l:lst (int,'a)) (k:int) (v:'a) : (lst (int,'a), int)
    ensures { let (r, p) = result in 0 <= p <= llen l /\ r = lins l p (k, v)
      /\ (forall i [lget l i]. 0 <= i < p -> fst (lget l i) <= k) /\ (forall i [lget l i]. p <= i < llen l -> k < fst (lget l i)) /\ (sorted l -> sorted r) }
  val lrem_ (l:lst 'a) (p:int) : lst 'a
    requires { [@expl:the iterator refers to an element] 0 <= p < llen l } ensures { result = lrem l p }
  val llen_ (l:lst 'a) : int ensures { result = llen l } ensures { 0 <= result <= smax }
  val lpop_front_ (l:lst 'a) : lst 'a
    requires { [@expl:the list is not empty] llen l > 0 } ensures { result = lsub l 1 (llen l) }
  val lpop_back_ (l:lst 'a) : lst 'a
    requires { [@expl:the list is not empty] llen l > 0 } ensures { result = lsub l 0 (llen l - 1) }
  val hconst (v:'a) : hmap 'a
    ensures { forall i [hget result i]. hget result i = v }
end

module Fs
  use export List
  (* the file system as the calls see it, constant while one function runs *)
  function fs_stat (p:str) : int          (* st_mode of the path, -1 if stat fails *)
  axiom fs_stat_range : forall p [fs_stat p]. -1 <= fs_stat p < 4294967296
  predicate fs_access (p:str) (mode:int)  (* access(path, mode) = 0 *)
  predicate isreg (m:int) = m >= 0 /\ mod (div m 4096) 16 = 8
  predicate isdir (m:int) = m >= 0 /\ mod (div m 4096) 16 = 4
  type r_stat = { f_stat_st_mode : int }
  val stat_ (p:str) : (int, int)
    ensures { let (r, m) = result in (r = 0 <-> fs_stat p >= 0) /\ (r = 0 -> m = fs_stat p) /\ -1 <= r <= 0 /\ in_u32 m }
  val access_ (p:str) (mode:int) : int
    ensures { -1 <= result <= 0 } ensures { result = 0 <-> fs_access p mode }
  function env_get (s:str) : cstr
  val getenv_ (s:str) : cstr ensures { result = env_get s }
end

module Cxx
  use export Fs
  exception Cxx int
  val eqb (a b:bool) : bool ensures { result <-> (a <-> b) }
  val constant v_rethrow : int
  val any_u64 () : int ensures { in_u64 result }
  val any_s64 () : int ensures { in_s64 result }
  val any_u32 () : int ensures { in_u32 result }
  val any_s32 () : int ensures { in_s32 result }
  val any_u16 () : int ensures { in_u16 result }
  val any_s16 () : int ensures { in_s16 result }
  val any_u8 () : int ensures { in_u8 result }
  val any_s8 () : int ensures { in_s8 result }
end

(* Paths and lists split at a character.  PathI and SplitI are what the proofs of the code use; PathD and SplitD prove their axioms. *)
module PathI
  use cxx.Cxx
  use lits.Lits
  (* place of the last c in s, -1 if there is none *)
  function lastc (s:str) (c:int) : int
  axiom lastc_range : forall s c [lastc s c]. -1 <= lastc s c < slen s
  axiom lastc_at : forall s c [lastc s c]. lastc s c >= 0 -> sget s (lastc s c) = c
  axiom lastc_after : forall s c i [lastc s c, sget s i]. lastc s c < i < slen s -> sget s i <> c
  (* length of s without its trailing separators *)
  function bare (s:str) : int
  axiom bare_range : forall s [bare s]. 0 <= bare s <= slen s
  axiom bare_at : forall s [bare s]. bare s > 0 -> sget s (bare s - 1) <> 47
  axiom bare_after : forall s i [bare s, sget s i]. bare s <= i < slen s -> sget s i = 47
  function tail (p:str) : str = ssub p (lastc p 47 + 1) (slen p)
  function dir (p:str) : str = if lastc p 47 <= 0 then LIT(".") else ssub p 0 (lastc p 47)
  function ext (p:str) : str = if lastc (tail p) 46 < 0 then sempty else ssub (tail p) (lastc (tail p) 46 + 1) (slen (tail p))
  predicate isabs (p:str) = slen p > 0 /\ sget p 0 = 47
  function joined (p f:str) : str = if isabs f \/ slen p = 0 then f else scat (scat (ssub p 0 (bare p)) (schr 47)) f
  predicate isfile (p:str) = isreg (fs_stat (cpre p))
end

module PathD
  use cxx.Cxx
  use lits.Lits
  let rec function lastc_ (s:str) (c n:int) : int
    requires { 0 <= n <= slen s } variant { n }
    ensures { -1 <= result < n } ensures { result >= 0 -> sget s result = c } ensures { forall i. result < i < n -> sget s i <> c }
  = if n = 0 then -1 else if sget s (n-1) = c then n - 1 else lastc_ s c (n-1)
  function lastc (s:str) (c:int) : int = lastc_ s c (slen s)
  let rec function bare_ (s:str) (n:int) : int
    requires { 0 <= n <= slen s } variant { n }
    ensures { 0 <= result <= n } ensures { result > 0 -> sget s (result-1) <> 47 } ensures { forall i. result <= i < n -> sget s i = 47 }
  = if n = 0 then 0 else if sget s (n-1) <> 47 then n else bare_ s (n-1)
  function bare (s:str) : int = bare_ s (slen s)
  clone PathI with function lastc = lastc, function bare = bare
end

(* the property over the contracts: the parts of a path with a separator after its first character give the path back *)
module PathR
  use cxx.Cxx
  use lits.Lits
  use PathI
  let cat_is (a b p:str) : unit
    requires { slen p = slen a + slen b } requires { forall i. 0 <= i < slen a -> sget a i = sget p i } requires { forall i. 0 <= i < slen b -> sget b i = sget p (slen a + i) }
    ensures { scat a b = p }
  = assert { slen (scat a b) = slen p }; assert { forall i. 0 <= i < slen p -> sget (scat a b) i = sget p i }; assert { eqs (scat a b) p }
  let lemma parts_join (p:str) : unit
    requires { lastc p 47 >= 1 } ensures { scat (scat (dir p) (schr 47)) (tail p) = p }
  = let ghost n = lastc p 47 in
    assert { dir p = ssub p 0 n };
    let ghost d = any str ensures { result = ssub p 0 n } in
    let ghost a = any str ensures { result = scat d (schr 47) } in
    let ghost b = any str ensures { result = ssub p (n+1) (slen p) } in
    assert { sget p n = 47 }; assert { slen d = n /\ slen a = n + 1 /\ slen b = slen p - (n + 1) };
    assert { forall i. 0 <= i < slen a -> sget a i = sget p i };
    cat_is a b p
  lemma tail_plain : forall p. lastc (tail p) 47 = -1
  lemma tail_whole : forall p. lastc p 47 = -1 -> eqs (tail p) p
end

module SplitI
  use cxx.Cxx
  use lits.Lits
  (* place of the first c from i on, the length if there is none *)
  function nextc (s:str) (c i:int) : int
  axiom nextc_range : forall s c i [nextc s c i]. 0 <= i <= slen s -> i <= nextc s c i <= slen s
  axiom nextc_at : forall s c i [nextc s c i]. 0 <= i <= slen s -> nextc s c i < slen s -> sget s (nextc s c i) = c
  axiom nextc_before : forall s c i k [nextc s c i, sget s k]. 0 <= i <= k < nextc s c i -> i <= slen s -> sget s k <> c
  (* where piece k begins; one past the end for the number of pieces *)
  function beg (s:str) (c k:int) : int
  axiom beg_zero : forall s c [beg s c 0]. beg s c 0 = 0
  axiom beg_next : forall s c k m [beg s c k, beg s c m]. m = k + 1 -> 0 <= k -> beg s c k <= slen s -> beg s c m = nextc s c (beg s c k) + 1
  function npieces (s:str) (c:int) : int
  axiom npieces_end : forall s c k [npieces s c, beg s c k]. 0 < k -> beg s c k = slen s + 1 -> (forall j. 0 <= j < k -> beg s c j <= slen s) -> npieces s c = k
  function piece (s:str) (c k:int) : str
  axiom piece_def : forall s c k [piece s c k]. 0 <= k -> beg s c k <= slen s -> piece s c k = ssub s (beg s c k) (beg s c (k+1) - 1)
end

module SplitD
  use cxx.Cxx
  use lits.Lits
  let rec ghost function nextc_ (s:str) (c i:int) : int
    requires { 0 <= i <= slen s } variant { slen s - i }
    ensures { i <= result <= slen s } ensures { result < slen s -> sget s result = c } ensures { forall k. i <= k < result -> sget s k <> c }
  = if i = slen s then i else if sget s i = c then i else nextc_ s c (i+1)
  let ghost function nextc (s:str) (c i:int) : int = if 0 <= i <= slen s then nextc_ s c i else i
  let rec ghost function beg_ (s:str) (c k:int) : int
    requires { 0 <= k } variant { k } ensures { 0 <= result } ensures { k <= result }
  = if k = 0 then 0 else nextc s c (beg_ s c (k-1)) + 1
  function beg (s:str) (c k:int) : int = if k < 0 then 0 else beg_ s c k
  (* pieces whose beginning is within the string or at its end *)
  let rec ghost function count_ (s:str) (c k:int) : int
    requires { 0 <= k <= slen s + 1 } variant { slen s + 1 - k }
  = if k = slen s + 1 then k else if beg_ s c k > slen s then k else count_ s c (k+1)
  let rec lemma count_is (s:str) (c k n:int) : unit
    requires { 0 <= k <= n } requires { beg_ s c n = slen s + 1 } requires { forall j. 0 <= j < n -> beg_ s c j <= slen s }
    variant { n - k } ensures { n <= slen s + 1 } ensures { count_ s c k = n }
  = assert { n <= slen s + 1 }; if k < n then count_is s c (k+1) n
  function npieces (s:str) (c:int) : int = count_ s c 0
  function piece (s:str) (c k:int) : str = ssub s (beg s c k) (beg s c (k+1) - 1)
  clone SplitI with function nextc = nextc, function beg = beg, function npieces = npieces, function piece = piece
end

(* the property over the contract: the pieces joined with the separator give the string back and none contains it *)
module SplitR
  use cxx.Cxx
  use lits.Lits
  use SplitI
  function glue (l:lst str) (c n:int) : str
  axiom glue_one : forall l c. glue l c 1 = lget l 0
  axiom glue_next : forall l c n. 1 <= n -> glue l c (n+1) = scat (scat (glue l c n) (schr c)) (lget l n)
  predicate issplit (l:lst str) (s:str) (c:int) = llen l = npieces s c /\ forall k. 0 <= k < llen l -> lget l k = piece s c k
  let rec lemma beg_step (s:str) (c k:int) : unit
    requires { 0 <= k } requires { forall j. 0 <= j <= k -> beg s c j <= slen s } variant { k }
    ensures { 0 <= beg s c k } ensures { k > 0 -> beg s c (k-1) < beg s c k }
  = if k > 0 then begin beg_step s c (k-1); assert { beg s c ((k-1)+1) = nextc s c (beg s c (k-1)) + 1 } end
  let rec lemma glue_is (l:lst str) (s:str) (c k n:int) : unit
    requires { -128 <= c <= 127 }
    requires { 1 <= k <= n } requires { beg s c n = slen s + 1 } requires { forall j. 0 <= j < n -> beg s c j <= slen s } requires { issplit l s c }
    variant { k } ensures { glue l c k = ssub s 0 (beg s c k - 1) }
  = assert { npieces s c = n };
    beg_step s c (k-1); assert { beg s c ((k-1)+1) = nextc s c (beg s c (k-1)) + 1 };
    assert { lget l (k-1) = ssub s (beg s c (k-1)) (beg s c k - 1) };
    if k > 1 then begin
      glue_is l s c (k-1) n;
      beg_step s c (k-2); assert { beg s c ((k-2)+1) = nextc s c (beg s c (k-2)) + 1 };
      assert { sget s (beg s c (k-1) - 1) = c };
      assert { glue l c ((k-1)+1) = scat (scat (glue l c (k-1)) (schr c)) (lget l (k-1)) };
      assert { eqs (glue l c k) (ssub s 0 (beg s c k - 1)) }
    end
  lemma glue_all : forall l s c n. -128 <= c <= 127 -> 1 <= n -> beg s c n = slen s + 1 -> (forall j. 0 <= j < n -> beg s c j <= slen s) -> issplit l s c -> eqs (glue l c n) s
end

(* the number of pieces *)
module SplitN
  use cxx.Cxx
  use SplitI
  let rec lemma count_fits (s:str) (c k:int) : unit
    requires { 0 <= k <= slen s + 1 } requires { forall j. 0 <= j < k -> 0 <= beg s c j <= slen s } requires { k <= beg s c k <= slen s + 1 }
    variant { slen s + 1 - k }
    ensures { k <= npieces s c <= slen s + 1 } ensures { k > 0 \/ npieces s c > 0 } ensures { beg s c (npieces s c) = slen s + 1 } ensures { forall j. 0 <= j < npieces s c -> 0 <= beg s c j <= slen s }
  = if beg s c k = slen s + 1 then assert { npieces s c = k }
    else begin assert { beg s c (k+1) = nextc s c (beg s c k) + 1 }; count_fits s c (k+1) end
  let lemma np_all (s:str) (c:int) : unit
    ensures { 1 <= npieces s c <= slen s + 1 } ensures { beg s c (npieces s c) = slen s + 1 } ensures { forall j. 0 <= j < npieces s c -> 0 <= beg s c j <= slen s }
  = count_fits s c 0
  lemma npieces_range : forall s c [npieces s c]. 1 <= npieces s c <= slen s + 1
  lemma npieces_last : forall s c [npieces s c]. beg s c (npieces s c) = slen s + 1
  lemma npieces_beg : forall s c k [npieces s c, beg s c k]. 0 <= k < npieces s c -> 0 <= beg s c k <= slen s
end

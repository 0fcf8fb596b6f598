(* Differences of texts: lines, changes, and how they are printed. *)
module DiffI
  use cxx.Cxx
  use lits.Lits
  use recs.Recs
  use path.SplitI
  use path.SplitN
  use obj.Out
  (* the lines of a text: the pieces between its newlines *)
  function nl (s:str) : int = npieces s 10
  function ln (s:str) (k:int) : str = piece s 10 k
  (* n lines from line k on, each behind a prefix *)
  function plines (pre s:str) (k n:int) : str
  axiom plines_zero : forall pre s k n [plines pre s k n]. n <= 0 -> plines pre s k n = sempty
  axiom plines_next : forall pre s k n m [plines pre s k n, plines pre s k m]. m = n + 1 -> 0 <= n -> plines pre s k m = scat (plines pre s k n) (scat pre (scat (ln s (k+n)) LIT("\n")))
  function range (a n:int) : str = if n > 1 then scat (dec (a+1)) (scat LIT(",") (dec (a+n))) else dec (a+1)
  function pedit (a b:str) (e:r_edit) : str =
    if e.f_edit_inserted <> 0 /\ e.f_edit_deleted <> 0 then
      scat (range e.f_edit_line0 e.f_edit_deleted) (scat LIT("c") (scat (range e.f_edit_line1 e.f_edit_inserted) (scat LIT("\n")
        (scat (plines LIT("< ") a e.f_edit_line0 e.f_edit_deleted) (scat (scat LIT("----") LIT("\n")) (plines LIT("> ") b e.f_edit_line1 e.f_edit_inserted))))))
    else if e.f_edit_inserted <> 0 then
      scat (dec e.f_edit_line0) (scat LIT("a") (scat (range e.f_edit_line1 e.f_edit_inserted) (scat LIT("\n") (plines LIT("> ") b e.f_edit_line1 e.f_edit_inserted))))
    else scat (range e.f_edit_line0 e.f_edit_deleted) (scat LIT("d") (scat (dec (e.f_edit_line1 + 1)) (scat LIT("\n") (plines LIT("< ") a e.f_edit_line0 e.f_edit_deleted))))
  function pedits (a b:str) (l:lst r_edit) (n:int) : str
  axiom pedits_zero : forall a b l n [pedits a b l n]. n <= 0 -> pedits a b l n = sempty
  axiom pedits_next : forall a b l n m [pedits a b l n, pedits a b l m]. m = n + 1 -> 0 <= n < llen l -> pedits a b l m = scat (pedits a b l n) (pedit a b (lget l n))
  (* a change lies within the texts and changes something *)
  predicate edit_ok (a b:str) (e:r_edit) = 0 <= e.f_edit_line0 /\ 0 <= e.f_edit_line1 /\ 0 <= e.f_edit_deleted /\ 0 <= e.f_edit_inserted
    /\ e.f_edit_deleted + e.f_edit_inserted > 0 /\ e.f_edit_line0 + e.f_edit_deleted <= nl a /\ e.f_edit_line1 + e.f_edit_inserted <= nl b
  predicate edits_ok (a b:str) (l:lst r_edit) = forall i [lget l i]. 0 <= i < llen l -> edit_ok a b (lget l i)
  (* lines x0 .. x1-1 of the first text are the lines y0 .. y1-1 of the second *)
  predicate gap (a b:str) (x0 x1 y0 y1:int) = 0 <= x0 <= x1 <= nl a /\ 0 <= y0 <= y1 <= nl b /\ x1 - x0 = y1 - y0 /\ forall k [ln a k]. x0 <= k < x1 -> ln a k = ln b (k - x0 + y0)
  function end0 (e:r_edit) : int = e.f_edit_line0 + e.f_edit_deleted
  function end1 (e:r_edit) : int = e.f_edit_line1 + e.f_edit_inserted
  (* the changes, in order and without overlap, turn the lines x0 .. x1-1 of the first text into the lines y0 .. y1-1 of the second *)
  predicate chain (a b:str) (l:lst r_edit) (x0 x1 y0 y1:int) =
    edits_ok a b l /\
    (if llen l = 0 then gap a b x0 x1 y0 y1 else
      gap a b x0 (lget l 0).f_edit_line0 y0 (lget l 0).f_edit_line1 /\
      gap a b (end0 (lget l (llen l - 1))) x1 (end1 (lget l (llen l - 1))) y1 /\
      forall i j [lget l i, lget l j]. 0 <= i -> j = i + 1 -> j < llen l -> gap a b (end0 (lget l i)) (lget l j).f_edit_line0 (end1 (lget l i)) (lget l j).f_edit_line1)
  predicate is_diff (a b d:str) = exists l. chain a b l 0 (nl a) 0 (nl b) /\ d = pedits a b l (llen l) /\ (a = b -> llen l = 0)
  (* what BuildLines makes of the texts *)
  predicate tab (s:str) (n:int) (p:ptr) (sz:hmap int) (ml:hmap (hmap r_line)) =
    n = nl s /\ p.off = 0 /\ p.blk > 0 /\ hget sz p.blk = n /\
    forall k [hget (hget ml p.blk) k]. 0 <= k < n -> (hget (hget ml p.blk) k).f_line_lindex = beg s 10 k /\ (hget (hget ml p.blk) k).f_line_length = slen (ln s k)
  predicate tabs (d:r_fumoffu) (sz:hmap int) (ml:hmap (hmap r_line)) =
    tab (hget d.f_fumoffu_str 0) (hget d.f_fumoffu_nlines 0) (hget d.f_fumoffu_lines 0) sz ml /\ tab (hget d.f_fumoffu_str 1) (hget d.f_fumoffu_nlines 1) (hget d.f_fumoffu_lines 1) sz ml
  (* the line at a place of a table *)
  predicate vec (n:int) (p:ptr) (sz:hmap int) = p.off = 0 /\ p.blk > 0 /\ hget sz p.blk = n
  predicate ids (d:r_fumoffu) (sz:hmap int) (mu:hmap (hmap int)) =
    vec (hget d.f_fumoffu_nlines 0) (hget d.f_fumoffu_vec 0) sz /\ vec (hget d.f_fumoffu_nlines 1) (hget d.f_fumoffu_vec 1) sz /\
    forall x y [hget (hget mu (hget d.f_fumoffu_vec 0).blk) x, hget (hget mu (hget d.f_fumoffu_vec 1).blk) y].
      0 <= x < hget d.f_fumoffu_nlines 0 -> 0 <= y < hget d.f_fumoffu_nlines 1 ->
      (hget (hget mu (hget d.f_fumoffu_vec 0).blk) x = hget (hget mu (hget d.f_fumoffu_vec 1).blk) y <-> ln (hget d.f_fumoffu_str 0) x = ln (hget d.f_fumoffu_str 1) y)
end

(* the printed forms by recursion, and with them the axioms of DiffI *)
module DiffD
  use cxx.Cxx
  use lits.Lits
  use recs.Recs
  use path.SplitI
  use obj.Out
  let rec ghost function plines_ (pre s:str) (k n:int) : str variant { n }
  = if n <= 0 then sempty else scat (plines_ pre s k (n-1)) (scat pre (scat (pure { piece s 10 (k+n-1) }) LIT("\n")))
  function plines (pre s:str) (k n:int) : str = plines_ pre s k n
  function range (a n:int) : str = if n > 1 then scat (dec (a+1)) (scat LIT(",") (dec (a+n))) else dec (a+1)
  function pedit (a b:str) (e:r_edit) : str =
    if e.f_edit_inserted <> 0 /\ e.f_edit_deleted <> 0 then
      scat (range e.f_edit_line0 e.f_edit_deleted) (scat LIT("c") (scat (range e.f_edit_line1 e.f_edit_inserted) (scat LIT("\n")
        (scat (plines LIT("< ") a e.f_edit_line0 e.f_edit_deleted) (scat (scat LIT("----") LIT("\n")) (plines LIT("> ") b e.f_edit_line1 e.f_edit_inserted))))))
    else if e.f_edit_inserted <> 0 then
      scat (dec e.f_edit_line0) (scat LIT("a") (scat (range e.f_edit_line1 e.f_edit_inserted) (scat LIT("\n") (plines LIT("> ") b e.f_edit_line1 e.f_edit_inserted))))
    else scat (range e.f_edit_line0 e.f_edit_deleted) (scat LIT("d") (scat (dec (e.f_edit_line1 + 1)) (scat LIT("\n") (plines LIT("< ") a e.f_edit_line0 e.f_edit_deleted))))
  let rec ghost function pedits_ (a b:str) (l:lst r_edit) (n:int) : str variant { n }
  = if n <= 0 then sempty else scat (pedits_ a b l (n-1)) (pure { pedit a b (lget l (n-1)) })
  function pedits (a b:str) (l:lst r_edit) (n:int) : str = pedits_ a b l n
  clone DiffI with function plines = plines, function range = range, function pedit = pedit, function pedits = pedits
end

(* the property over the contract: taking away the deleted lines and putting in the inserted ones turns the lines of the first text into exactly the lines of the second *)
module DiffR
  use cxx.Cxx
  use lits.Lits
  use recs.Recs
  use path.SplitI
  use path.SplitN
  use path.SplitR
  use obj.Out
  use DiffI
  predicate arelines (r:lst str) (s:str) (y0 y1:int) = llen r = y1 - y0 /\ forall k [lget r k]. 0 <= k < y1 - y0 -> lget r k = ln s (y0 + k)
  let rec ghost function seg (s:str) (i j:int) : lst str variant { j - i }
    requires { i <= j } ensures { arelines result s i j }
  = if i = j then lempty else lcat (seg s i (j-1)) (lcons (pure { ln s (j-1) }) lempty)
  (* the lines of the first text from line x on, with the changes i, i+1, ... made *)
  let rec ghost function patch (a b:str) (l:lst r_edit) (i x:int) : lst str variant { llen l - i }
    requires { 0 <= i <= llen l }
  = if i = llen l then (if x <= pure { nl a } then seg a x (pure { nl a }) else lempty)
    else let e = lget l i in
      if x <= e.f_edit_line0 && e.f_edit_inserted >= 0 then lcat (seg a x e.f_edit_line0) (lcat (seg b e.f_edit_line1 (e.f_edit_line1 + e.f_edit_inserted)) (patch a b l (i+1) (e.f_edit_line0 + e.f_edit_deleted))) else lempty
  let cat_lines (p q:lst str) (s:str) (y0 y1 y2:int) : unit
    requires { y0 <= y1 <= y2 } requires { arelines p s y0 y1 } requires { arelines q s y1 y2 } ensures { arelines (lcat p q) s y0 y2 }
  = ()
  let rec lemma patch_from (a b:str) (l:lst r_edit) (i x y:int) : unit
    requires { chain a b l 0 (nl a) 0 (nl b) } requires { 0 <= i <= llen l }
    requires { if i = 0 then x = 0 /\ y = 0 else x = end0 (lget l (i-1)) /\ y = end1 (lget l (i-1)) }
    variant { llen l - i } ensures { arelines (patch a b l i x) b y (nl b) }
  = if i = llen l then begin
      assert { gap a b x (nl a) y (nl b) }; assert { arelines (seg a x (nl a)) a x (nl a) }; assert { forall k. 0 <= k < nl a - x -> ln a (x + k) = ln b (y + k) }
    end else begin
      let e = lget l i in
      let x1 = e.f_edit_line0 in let y1 = e.f_edit_line1 in let y2 = e.f_edit_line1 + e.f_edit_inserted in
      assert { edit_ok a b e };
      assert { gap a b x x1 y y1 };
      assert { forall k. 0 <= k < x1 - x -> ln a (x + k) = ln b (y + k) };
      assert { arelines (seg a x x1) b y y1 };
      patch_from a b l (i+1) (e.f_edit_line0 + e.f_edit_deleted) (e.f_edit_line1 + e.f_edit_inserted);
      let ghost r = patch a b l (i+1) (e.f_edit_line0 + e.f_edit_deleted) in
      assert { arelines r b y2 (nl b) };
      cat_lines (seg b y1 y2) r b y1 y2 (pure { nl b });
      cat_lines (seg a x x1) (lcat (seg b y1 y2) r) b y y1 (pure { nl b });
      assert { patch a b l i x = lcat (seg a x x1) (lcat (seg b y1 y2) r) }
    end
  lemma diff_applies : forall a b l. chain a b l 0 (nl a) 0 (nl b) -> arelines (patch a b l 0 0) b 0 (nl b)
  let lemma same_lines (a b:str) : unit
    requires { gap a b 0 (nl a) 0 (nl b) } ensures { eqs a b }
  = let ghost l = seg a 0 (pure { nl a }) in
    assert { issplit l a 10 }; assert { nl a = nl b }; assert { issplit l b 10 };
    assert { eqs (glue l 10 (nl a)) a }; assert { eqs (glue l 10 (nl b)) b }
  lemma no_change : forall a b l. chain a b l 0 (nl a) 0 (nl b) -> llen l = 0 -> eqs a b
  lemma edit_text : forall a b e [pedit a b e]. slen (pedit a b e) > 0
  let lemma edits_text (a b:str) (l:lst r_edit) : unit
    requires { llen l > 0 } ensures { slen (pedits a b l (llen l)) > 0 }
  = assert { pedits a b l (llen l) = scat (pedits a b l (llen l - 1)) (pedit a b (lget l (llen l - 1))) }
  lemma empty_diff : forall a b d. is_diff a b d -> (slen d = 0 <-> a = b)
end

(* putting chains together *)
module Chain
  use cxx.Cxx
  use recs.Recs
  use DiffI
  lemma gap_trans : forall a b x0 x1 x2 y0 y1 y2 [gap a b x0 x1 y0 y1, gap a b x1 x2 y1 y2]. gap a b x0 x1 y0 y1 -> gap a b x1 x2 y1 y2 -> gap a b x0 x2 y0 y2
end

(* lists of pairs of a hash and a line number: which lines are in them *)
module HasI
  use cxx.Cxx
  function pfind (l:lst (int,int)) (i:int) : int
  predicate has (l:lst (int,int)) (i:int) = 0 <= pfind l i < llen l /\ snd (lget l (pfind l i)) = i
  axiom pfind_at : forall l i [pfind l i]. 0 <= pfind l i < llen l -> snd (lget l (pfind l i)) = i
  axiom has_at : forall l p [lget l p]. 0 <= p < llen l -> has l (snd (lget l p))
end
module HasD
  use cxx.Cxx
  let rec ghost function pfind_ (l:lst (int,int)) (i n:int) : int
    requires { 0 <= n <= llen l } variant { n }
    ensures { 0 <= result -> result < n /\ snd (lget l result) = i } ensures { result < 0 -> forall p. 0 <= p < n -> snd (lget l p) <> i }
  = if n = 0 then -1 else if snd (lget l (n-1)) = i then n - 1 else pfind_ l i (n-1)
  function pfind (l:lst (int,int)) (i:int) : int = pfind_ l i (llen l)
  clone HasI with function pfind = pfind
end
module HasP
  use cxx.Cxx
  use HasI
  let lemma has_rem_ (l:lst (int,int)) (p i:int) : unit
    requires { 0 <= p < llen l } requires { has (lrem l p) i } ensures { has l i }
  = let ghost q = pfind (lrem l p) i in assert { lget (lrem l p) q = lget l (if q < p then q else q + 1) }; assert { snd (lget l (if q < p then q else q + 1)) = i }
  let lemma has_other_ (l:lst (int,int)) (p i:int) : unit
    requires { 0 <= p < llen l } requires { has l i } requires { i <> snd (lget l p) } ensures { has (lrem l p) i }
  = let ghost q = pfind l i in assert { q <> p }; assert { lget (lrem l p) (if q < p then q else q - 1) = lget l q }; assert { snd (lget (lrem l p) (if q < p then q else q - 1)) = i }
  let lemma has_ins_ (l:lst (int,int)) (p:int) (v:(int,int)) (i:int) : unit
    requires { 0 <= p <= llen l } ensures { has (lins l p v) i <-> has l i \/ i = snd v }
  = let ghost q = pfind l i in let ghost r = pfind (lins l p v) i in
    assert { has l i -> lget (lins l p v) (if q < p then q else q + 1) = lget l q }; assert { lget (lins l p v) p = v }; assert { snd (lget (lins l p v) p) = snd v };
    assert { has (lins l p v) i -> r <> p -> lget (lins l p v) r = lget l (if r < p then r else r - 1) }
end
(* what the contract of a multimap's insert says about order follows from the rest of it *)
module SortedP
  use cxx.Cxx
  let lemma sorted_rem_ (l:lst (int,int)) (p:int) : unit
    requires { 0 <= p < llen l } requires { sorted l } ensures { sorted (lrem l p) }
  = assert { forall i. 0 <= i < llen l - 1 -> lget (lrem l p) i = lget l (if i < p then i else i + 1) };
    assert { forall a b. 0 <= a <= b < llen l - 1 -> fst (lget l (if a < p then a else a + 1)) <= fst (lget l (if b < p then b else b + 1)) }
  lemma sorted_ins : forall l:lst (int,int), p v. 0 <= p <= llen l -> sorted l -> (forall i. 0 <= i < p -> fst (lget l i) <= fst v) -> (forall i. p <= i < llen l -> fst v < fst (lget l i)) -> sorted (lins l p v)
end
module HasR
  use cxx.Cxx
  use SortedP
  use HasI
  use HasP
  lemma has_rem : forall l p i [has (lrem l p) i]. 0 <= p < llen l -> has (lrem l p) i -> has l i
  lemma has_other : forall l p i [has (lrem l p) i]. 0 <= p < llen l -> has l i -> i <> snd (lget l p) -> has (lrem l p) i
  lemma has_ins : forall l p v i [has (lins l p v) i]. 0 <= p <= llen l -> (has (lins l p v) i <-> has l i \/ i = snd v)
  lemma sorted_none : forall l:lst (int,int) [sorted l]. llen l = 0 -> sorted l
  lemma sorted_rem : forall l:lst (int,int), p [sorted (lrem l p)]. 0 <= p < llen l -> sorted l -> sorted (lrem l p)
  lemma has_not : forall i [has lempty i]. not (has lempty i)
end
(* a line read at its place with its length *)
module Lines
  use cxx.Cxx
  use path.SplitI
  use path.SplitN
  use DiffI
  let lemma line_at (s:str) (k:int) : unit
    requires { 0 <= k < nl s } ensures { 0 <= beg s 10 k <= slen s } ensures { beg s 10 k + slen (ln s k) <= slen s }
    ensures { ssub s (beg s 10 k) (beg s 10 k + slen (ln s k)) = ln s k }
  = assert { beg s 10 (k+1) = nextc s 10 (beg s 10 k) + 1 }; assert { ln s k = ssub s (beg s 10 k) (beg s 10 (k+1) - 1) }
end

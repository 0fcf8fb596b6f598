(* Escaped texts.  EscI is what the proofs of the code use; EscD proves its axioms; EscR the properties of escaped texts. *)
module EscI
  use cxx.Cxx
  use lits.Lits
  predicate special (c:int) = c = 38 \/ c = 60 \/ c = 62 \/ c = 34
  function ent (c:int) : str = if c = 38 then LIT("&amp;") else if c = 60 then LIT("&lt;") else if c = 62 then LIT("&gt;") else if c = 34 then LIT("&quot;") else schr c
  (* escaped text of the first n characters *)
  function escn (s:str) (n:int) : str
  axiom escn_zero : forall s n [escn s n]. n = 0 -> escn s n = sempty
  axiom escn_special : forall s n m [escn s n, escn s m]. 0 <= n < slen s -> m = n + 1 -> escn s m = scat (escn s n) (ent (sget s n))
  axiom escn_run : forall s j i [escn s j, ssub s j i]. 0 <= j <= i <= slen s -> (forall k. j <= k < i -> not (special (sget s k))) -> escn s i = scat (escn s j) (ssub s j i)
  function esc (s:str) : str = escn s (slen s)
end

module EscD
  use cxx.Cxx
  use lits.Lits
  predicate special (c:int) = c = 38 \/ c = 60 \/ c = 62 \/ c = 34
  let ghost function ent (c:int) : str = if c = 38 then LIT("&amp;") else if c = 60 then LIT("&lt;") else if c = 62 then LIT("&gt;") else if c = 34 then LIT("&quot;") else schr c
  let rec ghost function escm (s:str) (n:int) : str variant { n }
  = if n <= 0 then sempty else scat (escm s (n-1)) (ent (sget s (n-1)))
  let rec lemma run (s:str) (j i:int) : unit
    requires { 0 <= j <= i <= slen s } requires { forall k. j <= k < i -> not (special (sget s k)) } variant { i - j }
    ensures { escm s i = scat (escm s j) (ssub s j i) }
  = if i > j then begin run s j (i-1);
      assert { sget s (i-1) <> 38 && sget s (i-1) <> 60 && sget s (i-1) <> 62 && sget s (i-1) <> 34 };
      assert { ent (sget s (i-1)) = schr (sget s (i-1)) };
      assert { eqs (scat (scat (escm s j) (ssub s j (i-1))) (schr (sget s (i-1)))) (scat (escm s j) (ssub s j i)) } end
    else assert { ssub s j i = sempty }
  clone EscI with function escn = escm
end

(* the properties of escaped texts *)
module EscR
  use cxx.Cxx
  use lits.Lits
  use EscI
  (* no markup characters, and every '&' starts an entity *)
  predicate occ (e l:str) (p:int) = p + slen l <= slen e /\ forall k. 0 <= k < slen l -> sget e (p + k) = sget l k
  predicate entity_at (e:str) (p:int) = occ e LIT("&amp;") p \/ occ e LIT("&lt;") p \/ occ e LIT("&gt;") p \/ occ e LIT("&quot;") p
  predicate safe (e:str) = forall p. 0 <= p < slen e -> sget e p <> 60 /\ sget e p <> 62 /\ sget e p <> 34 /\ (sget e p = 38 -> entity_at e p)
  let lemma safe_ent (c:int) : unit
    requires { -128 <= c <= 127 } ensures { safe (ent c) }
  = if c = 38 then assert { entity_at (ent c) 0 } else if c = 60 then assert { entity_at (ent c) 0 } else if c = 62 then assert { entity_at (ent c) 0 } else if c = 34 then assert { entity_at (ent c) 0 }
  lemma occ_l : forall a b l p. 0 <= p -> occ a l p -> occ (scat a b) l p
  lemma occ_r : forall a b l p. 0 <= p -> occ b l p -> occ (scat a b) l (slen a + p)
  let lemma safe_cat (a b:str) : unit
    requires { safe a } requires { safe b } ensures { safe (scat a b) }
  = assert { forall p. 0 <= p < slen a -> sget (scat a b) p = sget a p };
    assert { forall p. 0 <= p < slen a -> entity_at a p -> entity_at (scat a b) p };
    assert { forall p. 0 <= p < slen b -> entity_at b p -> entity_at (scat a b) (slen a + p) };
    assert { forall p. slen a <= p < slen (scat a b) -> sget (scat a b) p = sget b (p - slen a) };
    assert { forall p. slen a <= p < slen (scat a b) -> entity_at b (p - slen a) -> entity_at (scat a b) p }
  let rec lemma esc_safe_n (s:str) (n:int) : unit
    requires { 0 <= n <= slen s } variant { n } ensures { safe (escn s n) }
  = if n > 0 then begin esc_safe_n s (n-1); safe_ent (sget s (n-1)); safe_cat (escn s (n-1)) (ent (sget s (n-1))); assert { escn s ((n-1)+1) = scat (escn s (n-1)) (ent (sget s (n-1))) } end
  lemma esc_safe : forall s. safe (esc s)
  (* different strings have different escaped texts *)
  lemma ent_head : forall c. slen (ent c) > 0
  let rec lemma esc_grows (s:str) (n m:int) : unit
    requires { 0 <= n < m <= slen s } variant { m - n }
    ensures { slen (escn s n) + slen (ent (sget s n)) <= slen (escn s m) } ensures { forall k. 0 <= k < slen (ent (sget s n)) -> sget (escn s m) (slen (escn s n) + k) = sget (ent (sget s n)) k }
  = assert { escn s ((m-1)+1) = scat (escn s (m-1)) (ent (sget s (m-1))) }; if n < m - 1 then esc_grows s n (m-1)
  predicate differ (a b:str) = exists k. 0 <= k < slen a /\ k < slen b /\ sget a k <> sget b k
  let lemma ent_differ (c d:int) : unit
    requires { -128 <= c <= 127 } requires { -128 <= d <= 127 } requires { c <> d } ensures { differ (ent c) (ent d) }
  = assert { special c -> special d -> sget (ent c) 1 <> sget (ent d) 1 };
    assert { not (special c) \/ not (special d) -> sget (ent c) 0 <> sget (ent d) 0 }
  let rec lemma esc_same (s t:str) (n:int) : unit
    requires { esc s = esc t } requires { 0 <= n <= slen s } variant { n }
    ensures { n <= slen t } ensures { escn s n = escn t n } ensures { forall k. 0 <= k < n -> sget s k = sget t k }
  = if n > 0 then begin
      esc_same s t (n-1); esc_grows s (n-1) (slen s);
      if n - 1 < slen t then begin
        esc_grows t (n-1) (slen t);
        if sget s (n-1) <> sget t (n-1) then begin ent_differ (sget s (n-1)) (sget t (n-1)); assert { false } end;
        assert { escn s ((n-1)+1) = scat (escn s (n-1)) (ent (sget s (n-1))) };
        assert { escn t ((n-1)+1) = scat (escn t (n-1)) (ent (sget t (n-1))) }
      end else assert { false }
    end
  lemma esc_injective : forall s t. esc s = esc t -> eqs s t by (slen s = slen t by (let n = slen s in escn s n = escn t n so n <= slen t) /\ (let n = slen t in escn t n = escn s n so n <= slen s))
end

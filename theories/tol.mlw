(* When two numbers are close. *)
module Tol
  use cxx.Cxx
  use fl.Fl
  use fl.Text
  predicate near (a b t eps:f64) = fle (fabs (fsub a b)) dmax /\
    (fle (fabs (fsub a b)) (fmul (fabs t) (fabs a)) \/ fle (fabs (fsub a b)) (fmul (fabs t) (fabs b)) \/ (flt (fabs a) eps /\ flt (fabs b) eps))
  predicate close (a b t eps:f64) = feq a b \/ (not (feq a a) /\ not (feq b b)) \/ near a b t eps
  predicate closei (u v:int) (t:f64) = u = v \/ near (d_of_int u) (d_of_int v) t (d_of_int 0)
  function ival (c:str) : int = if blank c then 0 else scani c
  predicate bval (c:str) = not (blank c) /\ scanb c
  (* numeric measurements of kind k (3 integer, 4 float, 5 double, 6 boolean) with contents c and d *)
  predicate closek (k:int) (c d:str) (t:f64) =
    if k = 3 then closei (ival c) (ival d) t
    else if k = 4 then close (d_of_f (scan32 (cpre c))) (d_of_f (scan32 (cpre d))) t (d_of_f feps)
    else if k = 5 then close (scan64 (cpre c)) (scan64 (cpre d)) t deps
    else (bval c <-> bval d)
  lemma near_sym : forall a b t eps. near a b t eps -> near b a t eps
  lemma close_sym : forall a b t eps. close a b t eps -> close b a t eps
  lemma closek_sym : forall k c d t. closek k c d t -> closek k d c t
end

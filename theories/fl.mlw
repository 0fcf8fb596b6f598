(* Floating point: the operations of the IEEE types are uninterpreted except for the facts stated here; all are part of the trusted base. *)
module Fl
  use cxx.Cxx
  type f32
  type f64
  val function fadd (a b:f64) : f64
  val function fsub (a b:f64) : f64
  val function fmul (a b:f64) : f64
  val function fdiv (a b:f64) : f64
  val function fneg (a:f64) : f64
  val function fabs (a:f64) : f64
  val function feq (a b:f64) : bool
  val function flt (a b:f64) : bool
  val function fle (a b:f64) : bool
  val function d_of_int (i:int) : f64
  val function i_of_d (a:f64) : int
  val function d_lit (n d:int) : f64
  val function d_of_f (a:f32) : f64
  val function f_of_d (a:f64) : f32
  val constant dmax : f64
  val constant deps : f64
  val constant fmax_ : f32
  val constant feps : f32
  let constant d0 : f64 = d_of_int 0
  axiom feq_refl : forall i [feq (d_of_int i) (d_of_int i)]. feq (d_of_int i) (d_of_int i)
  axiom feq_sym : forall a b [feq a b]. feq a b -> feq b a
  axiom fabs_sub : forall a b [fabs (fsub a b)]. fabs (fsub a b) = fabs (fsub b a)
  axiom d_of_f_d : forall a [d_of_f a]. f_of_d (d_of_f a) = a
  axiom fabs_d_of_int : forall i [fabs (d_of_int i)]. fabs (d_of_int i) = d_of_int (if i < 0 then - i else i)
  (* comparison of float values is that of the same values as double *)
end

module Text
  use cxx.Cxx
  use Fl
  val function txt32 (prec:int) (v:f32) : str
  val function txt64 (prec:int) (v:f64) : str
  (* strtof, strtod and the stream extractors as functions of the characters *)
  val function scan32 (s:str) : f32
  val function scan64 (s:str) : f64
  predicate blank (s:str) = forall i. 0 <= i < slen s -> sget s i = 32 \/ 9 <= sget s i <= 13
  val function blankb (s:str) : bool ensures { result <-> blank s }
  val function scani (s:str) : int
  axiom scani_range : forall s [scani s]. in_s64 (scani s)
  val function scanb (s:str) : bool
end

(* the file a search finds: in the first path of the list that has it, else none *)
module SearchI
  use cxx.Cxx
  use recs.Recs
  use path.PathI
  function searched (l:lst r_PathName) (f:str) : str
  axiom searched_at : forall l f k [joined (lget l k).f_PathName_pathName f, searched l f]. 0 <= k < llen l -> isfile (joined (lget l k).f_PathName_pathName f) ->
    (forall j. 0 <= j < k -> not (isfile (joined (lget l j).f_PathName_pathName f))) -> searched l f = joined (lget l k).f_PathName_pathName f
  axiom searched_none : forall l f [searched l f]. (forall j. 0 <= j < llen l -> not (isfile (joined (lget l j).f_PathName_pathName f))) -> searched l f = sempty
end

module SearchD
  use cxx.Cxx
  use recs.Recs
  use path.PathI
  predicate has (l:lst r_PathName) (f:str) (k:int) = isfile (joined (lget l k).f_PathName_pathName f)
  val ghost function hasb (l:lst r_PathName) (f:str) (k:int) : bool ensures { result <-> has l f k }
  val ghost function jn (l:lst r_PathName) (f:str) (k:int) : str ensures { result = joined (lget l k).f_PathName_pathName f }
  let rec ghost function sfrom (l:lst r_PathName) (f:str) (i:int) : str
    requires { 0 <= i <= llen l } variant { llen l - i }
    ensures { forall k. i <= k < llen l -> has l f k -> (forall j. i <= j < k -> not (has l f j)) -> result = joined (lget l k).f_PathName_pathName f }
    ensures { (forall j. i <= j < llen l -> not (has l f j)) -> result = sempty }
  = if i = llen l then sempty else if hasb l f i then jn l f i else sfrom l f (i + 1)
  function searched (l:lst r_PathName) (f:str) : str = sfrom l f 0
  clone SearchI with function searched = searched
end

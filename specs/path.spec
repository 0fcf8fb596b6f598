fn fileutil::PathName::Tail()
use path.PathI
ensures [P01] "the last component": result.f_PathName_pathName = tail this.f_PathName_pathName

fn fileutil::PathName::DirectoryName()
use path.PathI
ensures [P01] "what precedes the last separator": result.f_PathName_pathName = dir this.f_PathName_pathName

fn fileutil::PathName::Extension()
use path.PathI
ensures [P01] "what follows the last period of the last component": result = ext this.f_PathName_pathName

fn fileutil::PathName::GetPathType()
use path.PathI
ensures [P01] "absolute exactly if it starts with a separator": result = (if isabs this.f_PathName_pathName then 1 else 0)

fn fileutil::PathName::Append(f)
use path.PathI
ensures [P02] "joined with one separator": this.f_PathName_pathName = joined (old this).f_PathName_pathName f.f_PathName_pathName
loop 1
invariant "place in the path": i = npos \/ i < slen path
invariant "separators after the place": forall k. (i = npos \/ i < k) -> 0 <= k < slen path -> sget path k = 47
variant if i = npos then 0 else i + 1
after assert { (if i = npos then 0 else i + 1) = bare path };

fn fileutil::PathName::IsFile()
use path.PathI
ensures [P03] "a regular file": result <-> isfile this.f_PathName_pathName

fn fileutil::PathName::SearchPathList(pathList)
use path.PathI search.SearchI
ensures [P03] "the file the search finds": result.f_PathName_pathName = searched pathList this.f_PathName_pathName
ensures [P03] "the first path that has the file": (exists k. 0 <= k < llen pathList /\ result.f_PathName_pathName = joined (lget pathList k).f_PathName_pathName this.f_PathName_pathName /\ isfile result.f_PathName_pathName /\ forall j. 0 <= j < k -> not (isfile (joined (lget pathList j).f_PathName_pathName this.f_PathName_pathName))) \/ (slen result.f_PathName_pathName = 0 /\ forall j. 0 <= j < llen pathList -> not (isfile (joined (lget pathList j).f_PathName_pathName this.f_PathName_pathName)))
loop 1
invariant "place in the list": 0 <= i <= llen pathList
invariant "no earlier path has it": forall j. 0 <= j < i -> not (isfile (joined (lget pathList j).f_PathName_pathName this.f_PathName_pathName))
variant llen pathList - i

fn fileutil::GetPathListFromColonSeparatedList(value)
use path.SplitI
ensures [P04] "number of pieces": slen value > 0 -> llen result = npieces value 58
ensures [P04] "the empty string has none": slen value = 0 -> llen result = 0
ensures [P04] "the pieces in order": forall k. 0 <= k < llen result -> (lget result k).f_PathName_pathName = piece value 58 k
loop 1
invariant "pieces so far": if i = npos then slen value < beg value 58 (llen pl) <= slen value + 1 /\ llen pl > 0 else i = beg value 58 (llen pl) /\ 0 <= i <= slen value
invariant "begins in order": forall k. 0 <= k < llen pl -> 0 <= beg value 58 k <= slen value
invariant "the pieces": forall k. 0 <= k < llen pl -> (lget pl k).f_PathName_pathName = piece value 58 k
variant if i = npos then 0 else slen value - i + 1
begin let ghost k0 = llen pl in let ghost i0 = i in
end assert { beg value 58 (k0+1) = nextc value 58 i0 + 1 }; assert { piece value 58 k0 = ssub value i0 (beg value 58 (k0+1) - 1) };

fn fileutil::GetPathFromEnviroment(env)
use path.SplitI
ensures [P04] "empty if not set": cnul (env_get (cpre env)) -> llen result = 0
ensures [P04] "number of pieces": not (cnul (env_get (cpre env))) -> slen (cval (env_get (cpre env))) > 0 -> llen result = npieces (cval (env_get (cpre env))) 58
ensures [P04] "the empty string has none": not (cnul (env_get (cpre env))) -> slen (cval (env_get (cpre env))) = 0 -> llen result = 0
ensures [P04] "the pieces in order": not (cnul (env_get (cpre env))) -> forall k. 0 <= k < llen result -> (lget result k).f_PathName_pathName = piece (cval (env_get (cpre env))) 58 k

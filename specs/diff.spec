macro H(j): (hget hash (@j))
macro S(j): (hget d.f_fumoffu_str (@j))
macro ID(j, x): (hget (hget mem_u64 (hget d.f_fumoffu_vec (@j)).blk) (@x))
macro NP(j, x): ((@j = 0 \/ @j = 1) /\ 0 <= @x < nl $S(@j) /\ not (has $H(@j) (@x)))
macro ENTS: forall j p [lget $H(j) p]. (j = 0 \/ j = 1) -> 0 <= p < llen $H(j) -> 0 <= snd (lget $H(j) p) < nl $S(j)
macro HASHES: forall j p [lget $H(j) p]. (j = 0 \/ j = 1) -> 0 <= p < llen $H(j) -> fst (lget $H(j) p) = c_testutil_hashString (ln $S(j) (snd (lget $H(j) p)))
macro SORTED: forall j [$H(j)]. (j = 0 \/ j = 1) -> sorted $H(j)
macro AGREE: forall j k x y [$ID(j,x), $ID(k,y)]. $NP(j,x) -> $NP(k,y) -> ($ID(j,x) = $ID(k,y) <-> ln $S(j) x = ln $S(k) y)
macro COUNT(s, n): 0 <= i <= slen @s /\ 1 <= @n <= i + 1 /\ 0 <= beg @s 10 (@n - 1) <= i /\ (forall m [sget @s m]. beg @s 10 (@n - 1) <= m < i -> sget @s m <> 10) /\ (forall k [beg @s 10 k]. 0 <= k < @n -> 0 <= beg @s 10 k <= slen @s)
macro FILLED(j): forall k [hget (hget mem_line (hget d.f_fumoffu_lines @j).blk) k]. 0 <= k < lnum -> (hget (hget mem_line (hget d.f_fumoffu_lines @j).blk) k).f_line_lindex = beg $S(@j) 10 k /\ (hget (hget mem_line (hget d.f_fumoffu_lines @j).blk) k).f_line_length = slen (ln $S(@j) k)
macro TABF: forall j x [hget (hget mem_line (hget d.f_fumoffu_lines j).blk) x]. (j = 0 \/ j = 1) -> 0 <= x < nl $S(j) -> (hget (hget mem_line (hget d.f_fumoffu_lines j).blk) x).f_line_lindex = beg $S(j) 10 x /\ (hget (hget mem_line (hget d.f_fumoffu_lines j).blk) x).f_line_length = slen (ln $S(j) x)
macro KEEPLINE: forall k [hget mem_line k]. hget (old msz) k >= 0 -> hget mem_line k = hget (old mem_line) k
macro KEEPVEC: forall k [hget mem_u64 k]. hget (old msz) k >= 0 -> hget mem_u64 k = hget (old mem_u64) k
macro S0(d): (hget @d.f_fumoffu_str 0)
macro S1(d): (hget @d.f_fumoffu_str 1)
macro ID0(d, x): (hget (hget mem_u64 (hget @d.f_fumoffu_vec 0).blk) (@x))
macro ID1(d, y): (hget (hget mem_u64 (hget @d.f_fumoffu_vec 1).blk) (@y))
macro READY(d): tabs @d msz mem_line /\ ids @d msz mem_u64 /\ slen $S0(@d) <= smax /\ slen $S1(@d) <= smax /\ nl $S0(@d) <= smax + 1 /\ nl $S1(@d) <= smax + 1
macro BOX(d): 0 <= xbegin <= xend <= nl $S0(@d) /\ 0 <= ybegin <= yend <= nl $S1(@d)
macro CORNERS(d): xend = xbegin \/ yend = ybegin \/ (ln $S0(@d) xbegin <> ln $S1(@d) ybegin /\ ln $S0(@d) (xend - 1) <> ln $S1(@d) (yend - 1))
macro ROOM(d): (hget @d.f_fumoffu_nlines 0 + hget @d.f_fumoffu_nlines 1) * 2 + 6 <= 4 * smax /\ vec ((hget @d.f_fumoffu_nlines 0 + hget @d.f_fumoffu_nlines 1) * 2 + 6) @d.f_fumoffu_diagonals msz

fn testutil::PrintLines(prefix, source, lnum, num, d, os)
use obj.Out obj.Cat path.SplitI path.SplitN diff.DiffI
requires "lines of the text": 0 <= source <= 1 /\ lnum + num <= nl (hget d.f_fumoffu_str source) /\ tabs d msz mem_line /\ slen (hget d.f_fumoffu_str source) <= smax
writes os_txt
ensures [D02] "each line once, in order, behind the prefix": os_txt = out (old os_txt) os (plines prefix (hget d.f_fumoffu_str source) lnum num)
entry let ghost lnum0 = lnum in let ghost num0 = num in
loop 1
invariant "the lines so far": lnum - lnum0 = num0 - num /\ 0 <= num <= num0 /\ os_txt = out (old os_txt) os (plines prefix (hget d.f_fumoffu_str source) lnum0 (num0 - num))
variant num

fn testutil::PrintEditList(l, d, os)
use obj.Out obj.Cat path.SplitI path.SplitN diff.DiffI
requires "changes of the texts": edits_ok $S0(d) $S1(d) l /\ $READY(d)
writes os_txt
ensures [D02] "each change once, in order": os_txt = out (old os_txt) os (pedits $S0(d) $S1(d) l (llen l))
loop 1
invariant "the changes so far": 0 <= i <= llen l /\ os_txt = out (old os_txt) os (pedits $S0(d) $S1(d) l i)
variant llen l - i
begin let ghost txt0 = os_txt in let ghost i0 = i in
end assert { os_txt = out txt0 os (pedit $S0(d) $S1(d) (lget l i0)) };

fn testutil::FindEditMidPoint(xbegin, xend, ybegin, yend, part, d)
use path.SplitI path.SplitN diff.DiffI
bounded checked by the harness on all small texts: the point is within the box and divides it, with no common line on one side of it
requires "a box": $BOX(d) /\ xbegin < xend /\ ybegin < yend /\ $CORNERS(d)
requires "lines": tabs d msz mem_line
requires "numbers": ids d msz mem_u64
requires "sizes": slen $S0(d) <= smax /\ slen $S1(d) <= smax /\ nl $S0(d) <= smax + 1 /\ nl $S1(d) <= smax + 1
requires "room": $ROOM(d)
writes mem_s64
ensures "the point": xbegin <= part.f_partition_xmid <= xend /\ ybegin <= part.f_partition_ymid <= yend /\ part.f_partition_length >= 2 /\ in_u32 part.f_partition_length
ensures "it divides the box": (part.f_partition_xmid <> xbegin \/ part.f_partition_ymid <> ybegin) /\ (part.f_partition_xmid <> xend \/ part.f_partition_ymid <> yend)
ensures "no common line on one side": part.f_partition_xmid = xbegin \/ part.f_partition_ymid = ybegin \/ part.f_partition_xmid = xend \/ part.f_partition_ymid = yend \/ ln $S0(d) (part.f_partition_xmid - 1) <> ln $S1(d) (part.f_partition_ymid - 1) \/ ln $S0(d) part.f_partition_xmid <> ln $S1(d) part.f_partition_ymid
ensures "the tables stay": d = old d
ensures "only the diagonals are written": forall k [hget mem_s64 k]. k <> d.f_fumoffu_diagonals.blk -> hget mem_s64 k = hget (old mem_s64) k

fn testutil::GenerateEditList(xbegin, xend, ybegin, yend, d)
use path.SplitI path.SplitN diff.DiffI diff.Chain
requires "a box": $BOX(d) /\ (xbegin < xend \/ ybegin < yend) /\ $CORNERS(d)
requires "lines": tabs d msz mem_line
requires "numbers": ids d msz mem_u64
requires "sizes": slen $S0(d) <= smax /\ slen $S1(d) <= smax /\ nl $S0(d) <= smax + 1 /\ nl $S1(d) <= smax + 1
requires "room": $ROOM(d)
writes mem_s64
variant xend - xbegin + (yend - ybegin)
ensures [D01] "changes in order that turn one box of lines into the other": chain $S0(d) $S1(d) result xbegin xend ybegin yend /\ llen result > 0
ensures "the tables stay": d = old d
ensures "only the diagonals are written": forall k [hget mem_s64 k]. k <> d.f_fumoffu_diagonals.blk -> hget mem_s64 k = hget (old mem_s64) k
loop 1
invariant "common lines eaten": xbegin <= part.f_partition_xmid /\ ybegin <= part.f_partition_ymid /\ gap $S0(d) $S1(d) part.f_partition_xmid xm part.f_partition_ymid ym
invariant "data": d = old d /\ forall k [hget mem_s64 k]. k <> d.f_fumoffu_diagonals.blk -> hget mem_s64 k = hget (old mem_s64) k
variant part.f_partition_xmid
before let ghost xm = part.f_partition_xmid in let ghost ym = part.f_partition_ymid in
loop 2
invariant "common lines eaten": part.f_partition_xmid <= xend /\ part.f_partition_ymid <= yend /\ gap $S0(d) $S1(d) xm part.f_partition_xmid ym part.f_partition_ymid
invariant "data": d = old d /\ forall k [hget mem_s64 k]. k <> d.f_fumoffu_diagonals.blk -> hget mem_s64 k = hget (old mem_s64) k
variant xend - part.f_partition_xmid
before let ghost xm = part.f_partition_xmid in let ghost ym = part.f_partition_ymid in

fn testutil::BuildLines(d)
unroll
joined
use path.SplitI path.SplitN diff.DiffI diff.HasI diff.HasR diff.Lines
entry let ghost len0 = slen_ $S0(d) in let ghost len1 = slen_ $S1(d) in
requires "two texts": slen $S0(d) <= smax /\ slen $S1(d) <= smax
writes msz
ensures [D03] "the lines of both texts": tabs d msz mem_line
ensures [D03] "the same number for the same line only": ids d msz mem_u64
ensures "the texts": d.f_fumoffu_str = old d.f_fumoffu_str
ensures "as many lines as there is room for": nl $S0(d) * 8 <= smax /\ nl $S1(d) * 8 <= smax
ensures "four new blocks": $NEWTABS(d)
ensures "other blocks are unchanged": forall k [hget msz k]. k <> $L0(d) -> k <> $L1(d) -> k <> $V0(d) -> k <> $V1(d) -> hget msz k = hget (old msz) k

loop 1
invariant "lines of the first text so far": $COUNT($S0(d), hget d.f_fumoffu_nlines 0) /\ d.f_fumoffu_str = old d.f_fumoffu_str
variant slen $S0(d) - i
after assert { beg $S0(d) 10 (hget d.f_fumoffu_nlines 0) = slen $S0(d) + 1 }; assert { hget d.f_fumoffu_nlines 0 = nl $S0(d) };
loop 2
invariant "lines of the second text so far": $COUNT($S1(d), hget d.f_fumoffu_nlines 1) /\ d.f_fumoffu_str = old d.f_fumoffu_str /\ hget d.f_fumoffu_nlines 0 = nl $S0(d)
variant slen $S1(d) - i
after assert { beg $S1(d) 10 (hget d.f_fumoffu_nlines 1) = slen $S1(d) + 1 }; assert { hget d.f_fumoffu_nlines 1 = nl $S1(d) };
loop 3
invariant "places so far": $COUNT($S0(d), lnum + 1) /\ lindex = beg $S0(d) 10 lnum /\ lnum < nl $S0(d)
invariant "the table so far": $FILLED(0)
invariant "other tables": $KEEPLINE
variant slen $S0(d) - i
begin let ghost i0 = i in let ghost n0 = lnum in let ghost ml0 = mem_line in
end assert { sget $S0(d) i0 = 10 -> nextc $S0(d) 10 (beg $S0(d) 10 n0) = i0 }; assert { sget $S0(d) i0 = 10 -> beg $S0(d) 10 (n0 + 1) = i0 + 1 };
assert { sget $S0(d) i0 = 10 -> n0 + 1 < nl $S0(d) /\ lnum = n0 + 1 }; assert { sget $S0(d) i0 = 10 -> slen (ln $S0(d) n0) = i0 - beg $S0(d) 10 n0 };
after assert { nextc $S0(d) 10 (beg $S0(d) 10 lnum) = slen $S0(d) }; assert { beg $S0(d) 10 (lnum + 1) = slen $S0(d) + 1 }; assert { lnum + 1 = nl $S0(d) }; assert { slen (ln $S0(d) lnum) = slen $S0(d) - beg $S0(d) 10 lnum };
loop 4
before assert { (hget d.f_fumoffu_lines 0).off = 0 /\ (hget d.f_fumoffu_lines 0).blk > 0 }; assert { hget msz (hget d.f_fumoffu_lines 0).blk = hget d.f_fumoffu_nlines 0 }; assert { forall k [hget (hget mem_line (hget d.f_fumoffu_lines 0).blk) k]. 0 <= k < nl $S0(d) -> (hget (hget mem_line (hget d.f_fumoffu_lines 0).blk) k).f_line_lindex = beg $S0(d) 10 k }; assert { forall k [hget (hget mem_line (hget d.f_fumoffu_lines 0).blk) k]. 0 <= k < nl $S0(d) -> (hget (hget mem_line (hget d.f_fumoffu_lines 0).blk) k).f_line_length = slen (ln $S0(d) k) };
invariant "places so far": $COUNT($S1(d), lnum + 1) /\ lindex = beg $S1(d) 10 lnum /\ lnum < nl $S1(d)
invariant "the table so far": $FILLED(1)
invariant "other tables": $KEEPLINE
invariant "the first table": tab $S0(d) (hget d.f_fumoffu_nlines 0) (hget d.f_fumoffu_lines 0) msz mem_line
variant slen $S1(d) - i
begin let ghost i0 = i in let ghost n0 = lnum in let ghost ml0 = mem_line in
end assert { sget $S1(d) i0 = 10 -> nextc $S1(d) 10 (beg $S1(d) 10 n0) = i0 }; assert { sget $S1(d) i0 = 10 -> beg $S1(d) 10 (n0 + 1) = i0 + 1 };
assert { sget $S1(d) i0 = 10 -> n0 + 1 < nl $S1(d) /\ lnum = n0 + 1 }; assert { sget $S1(d) i0 = 10 -> slen (ln $S1(d) n0) = i0 - beg $S1(d) 10 n0 };
after assert { nextc $S1(d) 10 (beg $S1(d) 10 lnum) = slen $S1(d) }; assert { beg $S1(d) 10 (lnum + 1) = slen $S1(d) + 1 }; assert { lnum + 1 = nl $S1(d) }; assert { slen (ln $S1(d) lnum) = slen $S1(d) - beg $S1(d) 10 lnum };
let ghost nl0 = nl $S0(d) in let ghost nl1 = nl $S1(d) in
loop 5
before assert { $TABF }; assert { tabs d msz mem_line };
invariant "entries": 0 <= i <= nl0 /\ llen $H(0) = i /\ llen $H(1) = 0 /\ $ENTS
invariant "hashes": $HASHES
invariant "in order": $SORTED
invariant "all entered": forall x [has $H(0) x]. 0 <= x < i -> has $H(0) x
variant nl0 - i
begin let ghost i0 = i in let ghost hh = hash in
end assert { h = c_testutil_hashString (ln $S0(d) i0) }; assert { hget hash 1 = hget hh 1 };
assert { sorted (hget hash 0) };
assert { forall p [lget (hget hash 0) p]. 0 <= p < llen (hget hash 0) -> 0 <= snd (lget (hget hash 0) p) < nl $S0(d) /\ fst (lget (hget hash 0) p) = c_testutil_hashString (ln $S0(d) (snd (lget (hget hash 0) p))) };
loop 6
before assert { sorted $H(0) };
invariant "entries": 0 <= i <= nl1 /\ llen $H(0) = nl0 /\ llen $H(1) = i /\ $ENTS
invariant "hashes": $HASHES
invariant "in order": $SORTED
invariant "all entered": (forall x [has $H(0) x]. 0 <= x < nl0 -> has $H(0) x) /\ forall x [has $H(1) x]. 0 <= x < i -> has $H(1) x
variant nl1 - i
begin let ghost i0 = i in let ghost hh = hash in
end assert { h = c_testutil_hashString (ln $S1(d) i0) }; assert { hget hash 0 = hget hh 0 };
assert { sorted (hget hash 1) };
assert { forall p [lget (hget hash 1) p]. 0 <= p < llen (hget hash 1) -> 0 <= snd (lget (hget hash 1) p) < nl $S1(d) /\ fst (lget (hget hash 1) p) = c_testutil_hashString (ln $S1(d) (snd (lget (hget hash 1) p))) };
loop 7
invariant "entries": $ENTS
invariant "hashes": $HASHES
invariant "in order": $SORTED
invariant "numbers": $AGREE
invariant "used numbers": 1 <= id /\ id + llen $H(0) + llen $H(1) <= nl0 + nl1 + 1 /\ forall j x [$ID(j,x)]. $NP(j,x) -> 1 <= $ID(j,x) < id
invariant "lines left are others": forall j k x y [ln $S(j) x, ln $S(k) y]. (j = 0 \/ j = 1) -> has $H(j) x -> $NP(k,y) -> ln $S(j) x <> ln $S(k) y
invariant "memory": $KEEPVEC
variant llen $H(0) + llen $H(1)
loop 8
before let ghost gl = ln $S(hindex) (snd v) in let ghost hash0 = hash in let ghost h = fst v in
invariant "entries": hindex <= j <= 2 /\ $ENTS
invariant "hashes": $HASHES
invariant "in order": $SORTED
invariant "keys": forall k p [lget $H(k) p]. (k = 0 \/ k = 1) -> 0 <= p < llen $H(k) -> h <= fst (lget $H(k) p) /\ (k < hindex -> h < fst (lget $H(k) p))
invariant "numbers": $AGREE
invariant "used numbers": forall j x [$ID(j,x)]. $NP(j,x) -> 1 <= $ID(j,x) <= id /\ ($ID(j,x) = id <-> ln $S(j) x = gl)
invariant "lines left are others": forall j k x y [ln $S(j) x, ln $S(k) y]. (j = 0 \/ j = 1) -> has $H(j) x -> $NP(k,y) -> ln $S(j) x = ln $S(k) y -> ln $S(j) x = gl
invariant "done with the first": forall k x [has $H(k) x]. hindex <= k < j -> has $H(k) x -> ln $S(k) x <> gl
invariant "fewer": llen $H(0) <= llen (hget hash0 0) /\ llen $H(1) <= llen (hget hash0 1) /\ (llen $H(hindex) < llen (hget hash0 hindex) \/ has $H(hindex) (snd v))
invariant "memory": $KEEPVEC
variant 2 - j
loop 9
invariant "place": 0 <= i <= llen $H(j)
invariant "entries": $ENTS
invariant "hashes": $HASHES
invariant "in order": $SORTED
invariant "keys": forall k p [lget $H(k) p]. (k = 0 \/ k = 1) -> 0 <= p < llen $H(k) -> h <= fst (lget $H(k) p) /\ (k < hindex -> h < fst (lget $H(k) p))
invariant "numbers": $AGREE
invariant "used numbers": forall j x [$ID(j,x)]. $NP(j,x) -> 1 <= $ID(j,x) <= id /\ ($ID(j,x) = id <-> ln $S(j) x = gl)
invariant "lines left are others": forall j k x y [ln $S(j) x, ln $S(k) y]. (j = 0 \/ j = 1) -> has $H(j) x -> $NP(k,y) -> ln $S(j) x = ln $S(k) y -> ln $S(j) x = gl
invariant "done with the first": forall k x [has $H(k) x]. hindex <= k < j -> has $H(k) x -> ln $S(k) x <> gl
invariant "those before differ": forall p [lget $H(j) p]. 0 <= p < i -> ln $S(j) (snd (lget $H(j) p)) <> gl
invariant "fewer": llen $H(0) <= llen (hget hash0 0) /\ llen $H(1) <= llen (hget hash0 1) /\ (llen $H(hindex) < llen (hget hash0 hindex) \/ has $H(hindex) (snd v))
invariant "memory": $KEEPVEC
variant llen $H(j) - i
begin let ghost x0 = snd (lget $H(j) i) in let ghost i0 = i in let ghost hh = hash in let ghost mu = mem_u64 in
assert { j = 0 \/ j = 1 }; assert { has $H(j) x0 }; assert { 0 <= x0 < nl $S(j) }; assert { 0 <= snd v < nl $S(hindex) };
assert { ssubn $S(j) (hget (hget mem_line (hget d.f_fumoffu_lines (j)).blk) (x0)).f_line_lindex (hget (hget mem_line (hget d.f_fumoffu_lines (j)).blk) (x0)).f_line_length = ln $S(j) x0 };
assert { ssubn $S(hindex) (hget (hget mem_line (hget d.f_fumoffu_lines (hindex)).blk) (snd v)).f_line_lindex (hget (hget mem_line (hget d.f_fumoffu_lines (hindex)).blk) (snd v)).f_line_length = gl };
end assert { forall k. (k = 0 \/ k = 1) -> k <> j -> $H(k) = hget hh k };
assert { ln $S(j) x0 = gl -> $H(j) = lrem (hget hh j) i0 /\ $ID(j,x0) = id };
assert { ln $S(j) x0 <> gl -> hash = hh /\ mem_u64 = mu };
assert { forall k x [has $H(k) x]. (k = 0 \/ k = 1) -> has $H(k) x -> has (hget hh k) x };
assert { forall k x [$ID(k,x)]. $NP(k,x) -> (k = j /\ x = x0 /\ ln $S(j) x0 = gl) \/ (not (has (hget hh k) x) /\ $ID(k,x) = hget (hget mu (hget d.f_fumoffu_vec k).blk) x) };

macro L0(d): (hget @d.f_fumoffu_lines 0).blk
macro L1(d): (hget @d.f_fumoffu_lines 1).blk
macro V0(d): (hget @d.f_fumoffu_vec 0).blk
macro V1(d): (hget @d.f_fumoffu_vec 1).blk
macro NEWTABS(d): hget (old msz) $L0(@d) = -1 /\ hget (old msz) $L1(@d) = -1 /\ hget (old msz) $V0(@d) = -1 /\ hget (old msz) $V1(@d) = -1 /\ $L0(@d) <> $L1(@d) /\ $V0(@d) <> $V1(@d) /\ $L0(@d) <> $V0(@d) /\ $L0(@d) <> $V1(@d) /\ $L1(@d) <> $V0(@d) /\ $L1(@d) <> $V1(@d)

fn testutil::Diff(str1, str2, os)
unroll
use obj.Out path.SplitI path.SplitN diff.DiffI diff.Chain
writes os_txt msz
ensures [D01, D02] "a list of changes that turns the first text into the second": exists d. is_diff str1 str2 d /\ os_txt = out (old os_txt) os d
ensures "other blocks are unchanged": forall k [hget msz k]. k > 0 -> hget (old msz) k >= 0 -> hget msz k = hget (old msz) k
entry let ghost n1 = slen_ str1 in let ghost n2 = slen_ str2 in
loop 1
invariant "common lines at the beginning": xbegin = ybegin /\ 0 <= xbegin <= nl str1 /\ ybegin <= nl str2 /\ gap str1 str2 0 xbegin 0 ybegin
variant xend - xbegin
loop 2
invariant "place": xbegin <= xend <= nl str1 /\ ybegin <= yend <= nl str2
invariant "common lines at the end": gap str1 str2 xend (nl str1) yend (nl str2)
invariant "all common lines at the beginning": xbegin = nl str1 \/ ybegin = nl str2 \/ ln str1 xbegin <> ln str2 ybegin
variant xend - xbegin
begin let ghost x1 = xend in let ghost y1 = yend in
end assert { xend = x1 - 1 /\ yend = y1 - 1 }; assert { ln str1 xend = ln str2 yend }; assert { forall k [ln str1 k]. xend <= k < nl str1 -> ln str1 k = ln str2 (k - xend + yend) };
point before PrintEditList 1: assert { chain str1 str2 l 0 (nl str1) 0 (nl str2) }; assert { str1 = str2 -> llen l = 0 };
point before PrintEditList 1: assert { is_diff str1 str2 (pedits str1 str2 l (llen l)) };

fn testutil::hashString(s)
pure
loop 1
invariant "place": 0 <= i <= slen s
variant slen s - i

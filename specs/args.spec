macro ARGV: hget mem_cstr argv.blk
macro ARG(j): hget ($ARGV) (argv.off + @j)
macro ARGV0: (hget (old mem_cstr) argv.blk)
macro DONE: div ((old argc) - argc) 2

fn testutil::RegressionTest::ParseAndRemoveArguments(argc, argv)
joined
model argv: cstrs
entry let ghost m = hget mem_cstr argv.blk in let ghost n0 = argc in
use args.Strtol args.ArgsI args.ArgsL path.PathI
requires "the arguments": argc >= 0 /\ inblk msz argv argc
requires "are texts": forall x [hget ($ARGV) x]. argv.off <= x < argv.off + argc -> hget ($ARGV) x <> CNull
writes argc mem_cstr g_RegressionTest_inFileName g_RegressionTest_outFileName g_RegressionTest_searchPath g_RegressionTest_expectedReturn
loop 1
before let ghost ref k = 0 in
invariant "place": i = 1 /\ 0 <= k /\ argc + 2 * k = (old argc) /\ argc >= 0 /\ (k > 0 -> argc > 0)
invariant "the options so far": leads m argv.off (old argc) k
invariant "could be used": allusable m argv.off k
invariant "the rest": forall x [hget ($ARGV) x]. argv.off + 1 <= x < argv.off + argc -> hget ($ARGV) x = hget m (x + 2 * k)
invariant "the program name": hget ($ARGV) argv.off = hget m argv.off
invariant "around": forall x [hget ($ARGV) x]. x < argv.off \/ argv.off + (old argc) <= x -> hget ($ARGV) x = hget m x
invariant "other blocks": forall b [hget mem_cstr b]. b <> argv.blk -> hget mem_cstr b = hget (old mem_cstr) b
invariant "input": (if infname = CNull then $INNAME else cval infname) = optI m argv.off k (old $INNAME)
invariant "output": (if outfname = CNull then $OUTNAME else cval outfname) = optO m argv.off k (old $OUTNAME)
invariant "names": $INNAME = old $INNAME /\ $OUTNAME = old $OUTNAME
invariant "expected": g_RegressionTest_expectedReturn = optR m argv.off k (old g_RegressionTest_expectedReturn)
invariant "search path": lnames g_RegressionTest_searchPath = optP m argv.off k (lnames (old g_RegressionTest_searchPath))
variant argc
begin assert { hget ($ARGV) (argv.off + 1) = hget m (argv.off + 1 + 2 * k) /\ hget ($ARGV) (argv.off + 1) <> CNull };
assert { argc > 2 -> hget ($ARGV) (argv.off + 2) = hget m (argv.off + 2 + 2 * k) /\ hget ($ARGV) (argv.off + 2) <> CNull };
assert { argc > 2 -> isopt (cval (hget ($ARGV) (argv.off + 1))) -> leads m argv.off (old argc) (k + 1) };
assert { argc > 2 -> isopt (cval (hget ($ARGV) (argv.off + 1))) -> usable (cval (hget ($ARGV) (argv.off + 1))) (cval (hget ($ARGV) (argv.off + 2))) -> allusable m argv.off (k + 1) };
assert { argc > 2 -> isopt (cval (hget ($ARGV) (argv.off + 1))) -> not (usable (cval (hget ($ARGV) (argv.off + 1))) (cval (hget ($ARGV) (argv.off + 2)))) -> rejected m argv.off (old argc) };
assert { argc <= 2 \/ not (isopt (cval (hget ($ARGV) (argv.off + 1)))) -> leading m argv.off (old argc) k };
end k <- k + 1;
after half n0 argc k; assert { div ((old argc) - argc) 2 = k }; assert { argc <= 2 \/ not (isopt (cval (hget ($ARGV) (argv.off + 1)))) }; assert { leading m argv.off (old argc) k };
loop 2
before let ghost m2 = $ARGV in
invariant "place": i <= j /\ (j <= argc - 2 \/ (j = i /\ argc < i + 2))
invariant "moved": forall x [hget ($ARGV) x]. argv.off + i <= x < argv.off + j -> hget ($ARGV) x = hget m2 (x + 2)
invariant "not yet": forall x [hget ($ARGV) x]. x < argv.off + i \/ argv.off + j + 2 <= x -> hget ($ARGV) x = hget m2 x
invariant "other blocks": forall b [hget mem_cstr b]. b <> argv.blk -> hget mem_cstr b = hget (old mem_cstr) b
variant argc - j
begin let ghost a = $ARGV in let ghost j0 = j in
end assert { forall x [hget ($ARGV) x]. hget ($ARGV) x = if x = argv.off + j0 then hget a (argv.off + j0 + 2) else if x = argv.off + j0 + 2 then hget a (argv.off + j0) else hget a x };
loop 3
before let ghost m3 = $ARGV in
invariant "place": i <= j /\ (j <= argc - 2 \/ (j = i /\ argc < i + 2))
invariant "moved": forall x [hget ($ARGV) x]. argv.off + i <= x < argv.off + j -> hget ($ARGV) x = hget m3 (x + 2)
invariant "not yet": forall x [hget ($ARGV) x]. x < argv.off + i \/ argv.off + j + 2 <= x -> hget ($ARGV) x = hget m3 x
invariant "other blocks": forall b [hget mem_cstr b]. b <> argv.blk -> hget mem_cstr b = hget (old mem_cstr) b
variant argc - j
begin let ghost a = $ARGV in let ghost j0 = j in
end assert { forall x [hget ($ARGV) x]. hget ($ARGV) x = if x = argv.off + j0 then hget a (argv.off + j0 + 2) else if x = argv.off + j0 + 2 then hget a (argv.off + j0) else hget a x };
loop 4
before let ghost m4 = $ARGV in
invariant "place": i <= j /\ (j <= argc - 2 \/ (j = i /\ argc < i + 2))
invariant "moved": forall x [hget ($ARGV) x]. argv.off + i <= x < argv.off + j -> hget ($ARGV) x = hget m4 (x + 2)
invariant "not yet": forall x [hget ($ARGV) x]. x < argv.off + i \/ argv.off + j + 2 <= x -> hget ($ARGV) x = hget m4 x
invariant "other blocks": forall b [hget mem_cstr b]. b <> argv.blk -> hget mem_cstr b = hget (old mem_cstr) b
variant argc - j
begin let ghost a = $ARGV in let ghost j0 = j in
end assert { forall x [hget ($ARGV) x]. hget ($ARGV) x = if x = argv.off + j0 then hget a (argv.off + j0 + 2) else if x = argv.off + j0 + 2 then hget a (argv.off + j0) else hget a x };
loop 5
before let ghost m5 = $ARGV in
invariant "place": i <= j /\ (j <= argc - 2 \/ (j = i /\ argc < i + 2))
invariant "moved": forall x [hget ($ARGV) x]. argv.off + i <= x < argv.off + j -> hget ($ARGV) x = hget m5 (x + 2)
invariant "not yet": forall x [hget ($ARGV) x]. x < argv.off + i \/ argv.off + j + 2 <= x -> hget ($ARGV) x = hget m5 x
invariant "other blocks": forall b [hget mem_cstr b]. b <> argv.blk -> hget mem_cstr b = hget (old mem_cstr) b
variant argc - j
begin let ghost a = $ARGV in let ghost j0 = j in
end assert { forall x [hget ($ARGV) x]. hget ($ARGV) x = if x = argv.off + j0 then hget a (argv.off + j0 + 2) else if x = argv.off + j0 + 2 then hget a (argv.off + j0) else hget a x };
ensures [R03] "the leading options are gone": argc <= (old argc) /\ argc = (old argc) - 2 * ($DONE) /\ leading $ARGV0 argv.off (old argc) ($DONE)
ensures [R03] "the program name and the rest stay in order": hget ($ARGV) argv.off = hget $ARGV0 argv.off /\ forall x [hget ($ARGV) x]. argv.off + 1 <= x < argv.off + argc -> hget ($ARGV) x = hget $ARGV0 (x + ((old argc) - argc))
ensures [R03] "around the vector": (forall x [hget ($ARGV) x]. x < argv.off \/ argv.off + (old argc) <= x -> hget ($ARGV) x = hget $ARGV0 x) /\ forall b [hget mem_cstr b]. b <> argv.blk -> hget mem_cstr b = hget (old mem_cstr) b
ensures [R03] "the input file": $INNAME = optI $ARGV0 argv.off ($DONE) (old $INNAME)
ensures [R03] "the output file": $OUTNAME = optO $ARGV0 argv.off ($DONE) (old $OUTNAME)
ensures [R03] "the expected result": g_RegressionTest_expectedReturn = optR $ARGV0 argv.off ($DONE) (old g_RegressionTest_expectedReturn)
ensures [R03] "the search path": lnames g_RegressionTest_searchPath = optP $ARGV0 argv.off ($DONE) (lnames (old g_RegressionTest_searchPath))
ensures [R03] "all can be used": allusable $ARGV0 argv.off ($DONE)
raises Cxx: rejected (hget (old mem_cstr) argv.blk) argv.off (old argc)

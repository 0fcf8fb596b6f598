macro PARG(k): hget proc_argv @k
macro PROUT: os_txt = out (old os_txt) 1 @w

fn tfPipeToXMLRegressionTest::Test(argc, argv)
joined
model argv: cstrs
use obj.Obj obj.In obj.Out obj.Cat obj.Proc fl.Fl fl.Text tol.Tol meas.MeasI meas.MeasL meas.MeasD meas.MeasT diff.DiffI path.PathI search.SearchI
entry let ghost m = hget mem_cstr argv.blk in
requires "the arguments": argc >= 1 /\ inblk msz argv argc
requires "are texts": forall x [hget (hget mem_cstr argv.blk) x]. argv.off <= x < argv.off + argc -> hget (hget mem_cstr argv.blk) x <> CNull
requires "ready": $RREADY
requires "input": $ISOK
writes g_RegressionTest_inputUnmatched g_RegressionTest_Input os_txt dyn msz mem_b mem_cstr is_data is_pos is_eof is_fail is_bad is_live h_Measurement_name h_Measurement_applyEscapeSequences h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName h_CompareVisitor__baseline h_CompareVisitor_compareResults h_CompareVisitor_relativeTolerance h_CompareVisitor_tolerantCompare h_DifferenceVisitor__baseline h_DifferenceVisitor_os os_live os_prec proc_argc proc_argv proc_got proc_left proc_run
loop 1
invariant "place": 1 <= i /\ i <= argc
invariant "the command so far": forall x [hget (hget mem_cstr cmd.blk) x]. 0 <= x < i - 1 -> hget (hget mem_cstr cmd.blk) x = hget m (argv.off + 1 + x)
invariant "its place": cmd.off = 0 /\ cmd.blk <> argv.blk
invariant "the arguments": hget mem_cstr argv.blk = m
invariant "other streams": forall k [hget os_txt k]. k <> 1 -> hget os_txt k = hget (old os_txt) k
variant argc - i
begin let ghost c = hget mem_cstr cmd.blk in let ghost i0 = i in
end assert { forall x [hget (hget mem_cstr cmd.blk) x]. hget (hget mem_cstr cmd.blk) x = if x = i0 - 1 then hget m (argv.off + i0) else hget c x };
before assert { forall x [hget m x]. argv.off <= x < argv.off + argc -> hget m x <> CNull };
after assert { forall x [hget (hget mem_cstr cmd.blk) x]. 0 <= x < argc - 1 -> hget (hget mem_cstr cmd.blk) x <> CNull };
point before itksysProcess_SetCommand 1 : assert { words (hget mem_cstr cmd.blk) cmd.off (argc - 1) };
loop 2
invariant "cached data": $HOK
invariant "all that came": outputString = proc_got
variant proc_left
ensures [T01] "the command gets all arguments": proc_argc = argc - 1
ensures [T01] "in order": forall k [hget proc_argv k]. 0 <= k < argc - 1 -> hget proc_argv k = cval (hget (hget (old mem_cstr) argv.blk) (argv.off + 1 + k))
ensures [T01] "all of the output": proc_left = 0
ensures [T01] "the exit value": result = if proc_state = 4 then proc_exit else -1
ensures [T01] "is recorded": old (not ($COMPARE)) -> $INPUT = old $INPUT /\ exists a. (hget os_txt ($OUT) = scat a (scat (printed LIT("DartMeasurement") true LIT("stdout") LIT("text/plain") LIT("none") LIT("none") proc_got) LIT("\n")) /\ (g_RegressionTest_os <> 0 -> a = hget (old os_txt) ($OUT)))
ensures [T01] "is compared": old ($COMPARE) -> $USED
ensures [T01] "zero only for a match with the first one": old ($COMPARE) -> g_RegressionTest_inputUnmatched = old g_RegressionTest_inputUnmatched -> llen (old $INPUT) > 0 /\ (let w = proc_got in old ($MATCHV((lget $INPUT 0), 1, LIT("stdout"), LIT("text/plain"), w, d_of_int 0)))
ensures [T01] "counted once if it does not match": g_RegressionTest_inputUnmatched = (old g_RegressionTest_inputUnmatched) \/ (old ($COMPARE) /\ g_RegressionTest_inputUnmatched = (old g_RegressionTest_inputUnmatched) + 1 /\ not (llen (old $INPUT) > 0 /\ (let w = proc_got in old ($MATCHV((lget $INPUT 0), 1, LIT("stdout"), LIT("text/plain"), w, d_of_int 0)))))
ensures "the rest of the baseline": $INOK
ensures "cached data stay right": $HOK
raises Cxx: g_RegressionTest_inputUnmatched = old g_RegressionTest_inputUnmatched /\ $INOK /\ $HOK

macro INNAME: g_RegressionTest_inFileName.f_PathName_pathName
macro FOUND: searched g_RegressionTest_searchPath ($INNAME)
macro CANREAD(p): isfile @p /\ fs_access (cpre @p) 4
macro COMPARE: g_RegressionTest_is <> 0 \/ (slen ($INNAME) > 0 /\ (if slen ($FOUND) > 0 then $CANREAD(($FOUND)) else $CANREAD(($INNAME))))
macro OUT: if g_RegressionTest_os = 0 then 1 else g_RegressionTest_os
macro OSOK: g_RegressionTest_os = 0 \/ (g_RegressionTest_os > 3 /\ hget os_live g_RegressionTest_os)
macro INPUT: g_RegressionTest_Input
macro INOK: (forall i [lget $INPUT i]. 0 <= i < llen $INPUT -> 1 <= hget dyn (lget $INPUT i) <= 7) /\ (forall i j [lget $INPUT i, lget $INPUT j]. 0 <= i < j < llen $INPUT -> lget $INPUT i <> lget $INPUT j)

fn testutil::RegressionTest::GetCompareMode() const
use path.PathI search.SearchI
ensures [R04] "compare mode exactly if there is a readable baseline": result <-> ($COMPARE)

macro FIRST: (lget (old $INPUT) 0)
macro SEARCHED(b): searched g_RegressionTest_searchPath (tail ($FNAME(@b)))
macro BFILE(b, m): if hget dyn @b = 7 /\ hget dyn @m = 7 /\ slen ($SEARCHED(@b)) > 0 then $SEARCHED(@b) else $FNAME(@b)
macro XNAME(b, f): if hget dyn @b <> 7 \/ fopens (cpre (@f)) then $NAME(@b) else sempty
macro XTYPE(b, f): if hget dyn @b <> 7 then $TYPE(@b) else if fopens (cpre (@f)) then $FTYPE(hget h_MeasurementFile_type @b) else LIT("text/plain")
macro XBYTES(b, f): if hget dyn @b <> 7 then $VIEW(@b) else if fopens (cpre (@f)) then fbytes (cpre (@f)) else sempty
macro HEADS(b, m): ($NAME(@b)) = ($NAME(@m)) /\ ($TYPE(@b)) = ($TYPE(@m))
macro XSAME(b, f, m): ($XNAME(@b, @f)) = ($NAME(@b)) /\ ($XTYPE(@b, @f)) = ($TYPE(@b)) /\ ($LNAME(@m)) = ($NAME(@m)) /\ ($LTYPE(@m)) = ($TYPE(@m)) /\ ($XBYTES(@b, @f)) = ($LBYTES(@m))
macro MATCH(b, m, tl): $HEADS(@b, @m) /\ (if 3 <= hget dyn @m <= 6 then 3 <= hget dyn @b <= 6 /\ (if feq (@tl) (d_of_int 0) then $XSAME(@b, $FNAME(@b), @m) else hget dyn @b = hget dyn @m /\ closek (hget dyn @m) ($NCONT(@b)) ($NCONT(@m)) (@tl)) else $XSAME(@b, $BFILE(@b, @m), @m))
macro BUT(h, b, m): forall k [hget @h k]. hget (old dyn) k > 0 -> llen (old $INPUT) = 0 \/ k <> @b -> k <> @m -> hget @h k = hget (old @h) k

fn testutil::RegressionTest::UnmatchedMeasurement(test)
use obj.Obj obj.Out obj.Cat meas.MeasT
requires "a measurement": 1 <= hget dyn test <= 7
requires "a stream": $OSOK
requires "the count": 0 <= g_RegressionTest_inputUnmatched < 2147483647
writes g_RegressionTest_inputUnmatched h_Measurement_name os_txt
ensures [R02] "counted once": g_RegressionTest_inputUnmatched = old g_RegressionTest_inputUnmatched + 1
ensures [R02] "its name": h_Measurement_name = hset (old h_Measurement_name) test (scat LIT("Unmatched ") (hget (old h_Measurement_name) test))
ensures [R02] "reported": os_txt = out (old os_txt) ($OUT) (scat ($PRINTED(test)) LIT("\n"))

macro DIFFPAIR(b, m): h_Measurement_name = hset (hset (old h_Measurement_name) @b (scat LIT("Baseline ") (hget (old h_Measurement_name) @b))) @m (scat LIT("Test ") (hget (old h_Measurement_name) @m)) /\ $WROTE(($OUT), scat ($PRINTED(@m)) (scat LIT("\n") (scat ($PRINTED(@b)) LIT("\n"))))
macro DIFFTEXT(b, m): $LIVE(h_Measurement_name) /\ (exists d. is_diff ($CONT(@b)) ($CONT(@m)) d /\ $WROTE(($OUT), scat (printed LIT("DartMeasurement") true (scat LIT("Difference ") (hget (old h_Measurement_name) @m)) LIT("text/plain") LIT("none") LIT("none") d) LIT("\n")))

fn testutil::RegressionTest::DifferenceMeasurement(test, input)
use obj.Obj obj.In obj.Out obj.Cat fl.Fl fl.Text tol.Tol meas.MeasI meas.MeasL meas.MeasD meas.MeasT diff.DiffI
requires "measurements": 1 <= hget dyn test <= 7 /\ 1 <= hget dyn input <= 7 /\ input <> test
requires "a stream": $OSOK
requires "the count": 0 <= g_RegressionTest_inputUnmatched < 2147483647
requires "cached data are right": $HOK
writes g_RegressionTest_inputUnmatched dyn msz mem_b is_data is_pos is_eof is_fail is_bad is_live h_Measurement_name h_Measurement_applyEscapeSequences h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName os_txt os_prec os_live h_CompareVisitor_compareResults h_DifferenceVisitor_os h_DifferenceVisitor__baseline
ensures [R02] "counted once": g_RegressionTest_inputUnmatched = old g_RegressionTest_inputUnmatched + 1
ensures [R02] "reported": if hget dyn test = 1 then $DIFFTEXT(input, test) else $DIFFPAIR(input, test)
ensures [R02] "only on its stream": $OSBUT(($OUT))
ensures "all else is unchanged": $REST
ensures "no other verdict": $LIVE(h_CompareVisitor_compareResults)
ensures "cached data stay right": $HOK

fn testutil::RegressionTest::CompareMeasurement(test, tolerant)
joined
use obj.Obj obj.In obj.Out obj.Cat fl.Fl fl.Text tol.Tol meas.MeasI meas.MeasL meas.MeasD meas.MeasT diff.DiffI path.PathI search.SearchI
requires "a measurement": 1 <= hget dyn test <= 7
requires "it is not one of the baseline": forall i [lget $INPUT i]. 0 <= i < llen $INPUT -> lget $INPUT i <> test
requires "the baseline": $INOK
requires "a stream": $OSOK
requires "the count": 0 <= g_RegressionTest_inputUnmatched < 2147483647
requires "cached data are right": $HOK
writes g_RegressionTest_inputUnmatched g_RegressionTest_Input dyn msz mem_b is_data is_pos is_eof is_fail is_bad is_live h_Measurement_name h_Measurement_applyEscapeSequences h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName os_txt os_prec os_live h_CompareVisitor_compareResults h_CompareVisitor__baseline h_CompareVisitor_tolerantCompare h_CompareVisitor_relativeTolerance h_DifferenceVisitor_os h_DifferenceVisitor__baseline
ensures [R02] "one baseline measurement is used up": $INPUT = (if llen (old $INPUT) = 0 then old $INPUT else lsub (old $INPUT) 1 (llen (old $INPUT)))
ensures [R02] "zero or one": 0 <= result <= 1
ensures [R02] "zero only for a match with the first one": result = 0 -> llen (old $INPUT) > 0 /\ old ($MATCH((lget $INPUT 0), test, (if tolerant then g_RegressionTest_relativeTolerance else d_of_int 0)))
ensures [R02] "a numeric match gives zero": 3 <= old (hget dyn test) <= 6 -> result <> 0 -> not (llen (old $INPUT) > 0 /\ old ($MATCH((lget $INPUT 0), test, (if tolerant then g_RegressionTest_relativeTolerance else d_of_int 0))))
ensures [R02] "another match gives zero": not (3 <= old (hget dyn test) <= 6) -> result <> 0 -> not (llen (old $INPUT) > 0 /\ old ($MATCH((lget $INPUT 0), test, (if tolerant then g_RegressionTest_relativeTolerance else d_of_int 0))))
ensures [R02] "counted once if it does not match": g_RegressionTest_inputUnmatched = old g_RegressionTest_inputUnmatched + (if result = 0 then 0 else 1)
ensures [R02] "a success prints nothing": result = 0 -> forall k [hget os_txt k]. k <= 3 \/ hget (old os_live) k -> hget os_txt k = hget (old os_txt) k
ensures [R02] "a measurement without counterpart is reported": llen (old $INPUT) = 0 \/ not (old ($HEADS((lget $INPUT 0), test))) -> hget h_Measurement_name test = scat LIT("Unmatched ") (hget (old h_Measurement_name) test) /\ os_txt = out (old os_txt) ($OUT) (scat ($PRINTED(test)) LIT("\n"))
ensures [R02] "a difference is reported": result <> 0 /\ llen (old $INPUT) > 0 /\ old ($HEADS((lget $INPUT 0), test)) -> exists s. $WROTE(($OUT), s) /\ slen s > 0
ensures [R02] "only on its stream": $OSBUT(($OUT))
ensures [R02] "the other measurements stay": $BUT(dyn, $FIRST, test) /\ 1 <= hget dyn test <= 7
ensures [R02] "their names are unchanged": $BUT(h_Measurement_name, $FIRST, test)
ensures [R02] "their attributes are unchanged": $BUT(h_Measurement_applyEscapeSequences, $FIRST, test) /\ $BUT(h_DataMeasurement_encoding, $FIRST, test) /\ $BUT(h_DataMeasurement_compression, $FIRST, test)
ensures [R02] "their contents are unchanged": $BUT(h_TextData_content, $FIRST, test) /\ $BUT(h_NumericData_content, $FIRST, test)
ensures [R02] "their file names are unchanged": $BUT(h_MeasurementFile_fileName, $FIRST, test) /\ $BUT(h_MeasurementFile_type, $FIRST, test)
ensures "the rest of the baseline": $INOK
ensures "cached data stay right": $HOK
raises Cxx: g_RegressionTest_inputUnmatched = old g_RegressionTest_inputUnmatched /\ $OSBUT(($OUT)) /\ $INOK /\ $HOK

macro RREADY: $INOK /\ ($OSOK) /\ 0 <= g_RegressionTest_inputUnmatched < 2147483647 /\ $HOK
macro XSAMEV(b, f, v): ($XNAME(@b, @f)) = ($NAME(@b)) /\ ($XTYPE(@b, @f)) = ($TYPE(@b)) /\ ($XBYTES(@b, @f)) = @v
macro MATCHV(b, k, n, t, c, tl): ($NAME(@b)) = @n /\ ($TYPE(@b)) = @t /\ (if 3 <= @k then 3 <= hget dyn @b <= 6 /\ (if feq (@tl) (d_of_int 0) then $XSAMEV(@b, $FNAME(@b), @c) else hget dyn @b = @k /\ closek @k ($NCONT(@b)) (@c) (@tl)) else $XSAMEV(@b, $FNAME(@b), @c))
macro VFILE(b): if hget dyn @b = 7 /\ slen ($SEARCHED(@b)) > 0 then $SEARCHED(@b) else $FNAME(@b)
macro MATCHF(b, f, n, t): ($NAME(@b)) = @n /\ ($TYPE(@b)) = @t /\ (if fopens (cpre @f) then ($FTYPE(@t)) = @t /\ $XSAMEV(@b, $VFILE(@b), (fbytes (cpre @f))) else slen @n = 0 /\ @t = LIT("text/plain") /\ $XSAMEV(@b, $VFILE(@b), sempty))
macro RTOL(tolerant): if @tolerant then g_RegressionTest_relativeTolerance else d_of_int 0
macro RECORD(e, n, t, c): g_RegressionTest_inputUnmatched = old g_RegressionTest_inputUnmatched /\ $INPUT = old $INPUT /\ $WROTE(($OUT), scat (printed @e true @n @t LIT("none") LIT("none") (@c)) LIT("\n"))
macro USED: $INPUT = (if llen (old $INPUT) = 0 then old $INPUT else lsub (old $INPUT) 1 (llen (old $INPUT)))
macro LADD(m, v): forall k [hget @m k]. hget @m k = if k = (old log_n) then @v else hget (old @m) k
macro MADE(k, m, n, v, t, r): log_n = (old log_n) + 1 /\ ($LADD(log_kind, @k)) /\ ($LADD(log_name, @n)) /\ ($LADD(@m, @v)) /\ ($LADD(log_tol, @t)) /\ ($LADD(log_ret, @r))
macro COUNTED(r): g_RegressionTest_inputUnmatched = old g_RegressionTest_inputUnmatched + (if @r = 0 then 0 else 1)
macro BUT1(h): forall k [hget @h k]. hget (old dyn) k > 0 -> llen (old $INPUT) = 0 \/ k <> $FIRST -> hget @h k = hget (old @h) k

fn testutil::RegressionTest::MeasurementTextString(s, name)
joined
use obj.Obj obj.In obj.Out obj.Cat fl.Fl fl.Text tol.Tol meas.MeasI meas.MeasL meas.MeasD meas.MeasT diff.DiffI path.PathI search.SearchI
requires "ready": $RREADY
writes g_RegressionTest_inputUnmatched g_RegressionTest_Input dyn msz mem_b is_data is_pos is_eof is_fail is_bad is_live h_Measurement_name h_Measurement_applyEscapeSequences h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName os_txt os_prec os_live h_CompareVisitor_compareResults h_CompareVisitor__baseline h_CompareVisitor_tolerantCompare h_CompareVisitor_relativeTolerance h_DifferenceVisitor_os h_DifferenceVisitor__baseline
ensures [R05] "recorded": not ($COMPARE) -> result = 0 /\ $RECORD(LIT("DartMeasurement"), name, LIT("text/string"), s)
ensures [R05] "one baseline measurement is used up": $COMPARE -> $USED /\ $COUNTED(result)
ensures [R05] "zero only for a match with the first one": $COMPARE -> result = 0 -> llen (old $INPUT) > 0 /\ old ($MATCHV((lget $INPUT 0), 2, name, LIT("text/string"), (s), d_of_int 0))
ensures [R05] "a match gives zero": $COMPARE -> result <> 0 -> not (llen (old $INPUT) > 0 /\ old ($MATCHV((lget $INPUT 0), 2, name, LIT("text/string"), (s), d_of_int 0)))
ensures "only on its stream": $OSBUT(($OUT))
ensures "the other measurements are unchanged": $BUT1(dyn)
ensures "the rest of the baseline": $INOK
ensures "cached data stay right": $HOK
raises Cxx: g_RegressionTest_inputUnmatched = old g_RegressionTest_inputUnmatched /\ $OSBUT(($OUT)) /\ $INOK /\ $HOK

fn testutil::RegressionTest::MeasurementTextPlain(s, name)
joined
use obj.Obj obj.In obj.Out obj.Cat fl.Fl fl.Text tol.Tol meas.MeasI meas.MeasL meas.MeasD meas.MeasT diff.DiffI path.PathI search.SearchI
requires "ready": $RREADY
writes g_RegressionTest_inputUnmatched g_RegressionTest_Input dyn msz mem_b is_data is_pos is_eof is_fail is_bad is_live h_Measurement_name h_Measurement_applyEscapeSequences h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName os_txt os_prec os_live h_CompareVisitor_compareResults h_CompareVisitor__baseline h_CompareVisitor_tolerantCompare h_CompareVisitor_relativeTolerance h_DifferenceVisitor_os h_DifferenceVisitor__baseline
ensures [R05] "recorded": not ($COMPARE) -> result = 0 /\ $RECORD(LIT("DartMeasurement"), name, LIT("text/plain"), s)
ensures [R05] "one baseline measurement is used up": $COMPARE -> $USED /\ $COUNTED(result)
ensures [R05] "zero only for a match with the first one": $COMPARE -> result = 0 -> llen (old $INPUT) > 0 /\ old ($MATCHV((lget $INPUT 0), 1, name, LIT("text/plain"), (s), d_of_int 0))
ensures [R05] "a match gives zero": $COMPARE -> result <> 0 -> not (llen (old $INPUT) > 0 /\ old ($MATCHV((lget $INPUT 0), 1, name, LIT("text/plain"), (s), d_of_int 0)))
ensures "only on its stream": $OSBUT(($OUT))
ensures "the other measurements are unchanged": $BUT1(dyn)
ensures "the rest of the baseline": $INOK
ensures "cached data stay right": $HOK
raises Cxx: g_RegressionTest_inputUnmatched = old g_RegressionTest_inputUnmatched /\ $OSBUT(($OUT)) /\ $INOK /\ $HOK

fn testutil::RegressionTest::MeasurementNumericInteger(i, name, tolerant)
joined
exit log_kind <- hset log_kind log_n 1; log_name <- hset log_name log_n name; log_int <- hset log_int log_n i; log_tol <- hset log_tol log_n tolerant; log_ret <- hset log_ret log_n RES; log_n <- log_n + 1;
use obj.Ilog obj.Obj obj.In obj.Out obj.Cat fl.Fl fl.Text tol.Tol meas.MeasI meas.MeasL meas.MeasD meas.MeasT diff.DiffI path.PathI search.SearchI
requires "ready": $RREADY
writes log_n log_kind log_name log_int log_tol log_ret g_RegressionTest_inputUnmatched g_RegressionTest_Input dyn msz mem_b is_data is_pos is_eof is_fail is_bad is_live h_Measurement_name h_Measurement_applyEscapeSequences h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName os_txt os_prec os_live h_CompareVisitor_compareResults h_CompareVisitor__baseline h_CompareVisitor_tolerantCompare h_CompareVisitor_relativeTolerance h_DifferenceVisitor_os h_DifferenceVisitor__baseline
ensures [R05] "recorded": not ($COMPARE) -> result = 0 /\ $RECORD(LIT("DartMeasurement"), name, LIT("numeric/integer"), dec i)
ensures [R05] "one baseline measurement is used up": $COMPARE -> $USED /\ $COUNTED(result)
ensures [R05] "zero only for a match with the first one": $COMPARE -> result = 0 -> llen (old $INPUT) > 0 /\ old ($MATCHV((lget $INPUT 0), 3, name, LIT("numeric/integer"), (dec i), $RTOL(tolerant)))
ensures [R05] "a match gives zero": $COMPARE -> result <> 0 -> not (llen (old $INPUT) > 0 /\ old ($MATCHV((lget $INPUT 0), 3, name, LIT("numeric/integer"), (dec i), $RTOL(tolerant))))
ensures "the result": 0 <= result <= 1
ensures "what was measured": $MADE(1, log_int, name, i, tolerant, result)
ensures "only on its stream": $OSBUT(($OUT))
ensures "the other measurements are unchanged": $BUT1(dyn)
ensures "the rest of the baseline": $INOK
ensures "cached data stay right": $HOK
raises Cxx: g_RegressionTest_inputUnmatched = old g_RegressionTest_inputUnmatched /\ $OSBUT(($OUT)) /\ $INOK /\ $HOK

fn testutil::RegressionTest::MeasurementNumericFloat(f, name, tolerant)
joined
use obj.Obj obj.In obj.Out obj.Cat fl.Fl fl.Text tol.Tol meas.MeasI meas.MeasL meas.MeasD meas.MeasT diff.DiffI path.PathI search.SearchI
requires "ready": $RREADY
writes g_RegressionTest_inputUnmatched g_RegressionTest_Input dyn msz mem_b is_data is_pos is_eof is_fail is_bad is_live h_Measurement_name h_Measurement_applyEscapeSequences h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName os_txt os_prec os_live h_CompareVisitor_compareResults h_CompareVisitor__baseline h_CompareVisitor_tolerantCompare h_CompareVisitor_relativeTolerance h_DifferenceVisitor_os h_DifferenceVisitor__baseline
ensures [R05] "recorded": not ($COMPARE) -> result = 0 /\ $RECORD(LIT("DartMeasurement"), name, LIT("numeric/float"), txt32 7 f)
ensures [R05] "one baseline measurement is used up": $COMPARE -> $USED /\ $COUNTED(result)
ensures [R05] "zero only for a match with the first one": $COMPARE -> result = 0 -> llen (old $INPUT) > 0 /\ old ($MATCHV((lget $INPUT 0), 4, name, LIT("numeric/float"), (txt32 7 f), $RTOL(tolerant)))
ensures [R05] "a match gives zero": $COMPARE -> result <> 0 -> not (llen (old $INPUT) > 0 /\ old ($MATCHV((lget $INPUT 0), 4, name, LIT("numeric/float"), (txt32 7 f), $RTOL(tolerant))))
ensures "only on its stream": $OSBUT(($OUT))
ensures "the other measurements are unchanged": $BUT1(dyn)
ensures "the rest of the baseline": $INOK
ensures "cached data stay right": $HOK
raises Cxx: g_RegressionTest_inputUnmatched = old g_RegressionTest_inputUnmatched /\ $OSBUT(($OUT)) /\ $INOK /\ $HOK

fn testutil::RegressionTest::MeasurementNumericDouble(d, name, tolerant)
joined
exit log_kind <- hset log_kind log_n 2; log_name <- hset log_name log_n name; log_dbl <- hset log_dbl log_n d; log_tol <- hset log_tol log_n tolerant; log_ret <- hset log_ret log_n RES; log_n <- log_n + 1;
use obj.Ilog obj.Obj obj.In obj.Out obj.Cat fl.Fl fl.Text tol.Tol meas.MeasI meas.MeasL meas.MeasD meas.MeasT diff.DiffI path.PathI search.SearchI
requires "ready": $RREADY
writes log_n log_kind log_name log_dbl log_tol log_ret g_RegressionTest_inputUnmatched g_RegressionTest_Input dyn msz mem_b is_data is_pos is_eof is_fail is_bad is_live h_Measurement_name h_Measurement_applyEscapeSequences h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName os_txt os_prec os_live h_CompareVisitor_compareResults h_CompareVisitor__baseline h_CompareVisitor_tolerantCompare h_CompareVisitor_relativeTolerance h_DifferenceVisitor_os h_DifferenceVisitor__baseline
ensures [R05] "recorded": not ($COMPARE) -> result = 0 /\ $RECORD(LIT("DartMeasurement"), name, LIT("numeric/double"), txt64 16 d)
ensures [R05] "one baseline measurement is used up": $COMPARE -> $USED /\ $COUNTED(result)
ensures [R05] "zero only for a match with the first one": $COMPARE -> result = 0 -> llen (old $INPUT) > 0 /\ old ($MATCHV((lget $INPUT 0), 5, name, LIT("numeric/double"), (txt64 16 d), $RTOL(tolerant)))
ensures [R05] "a match gives zero": $COMPARE -> result <> 0 -> not (llen (old $INPUT) > 0 /\ old ($MATCHV((lget $INPUT 0), 5, name, LIT("numeric/double"), (txt64 16 d), $RTOL(tolerant))))
ensures "the result": 0 <= result <= 1
ensures "what was measured": $MADE(2, log_dbl, name, d, tolerant, result)
ensures "only on its stream": $OSBUT(($OUT))
ensures "the other measurements are unchanged": $BUT1(dyn)
ensures "the rest of the baseline": $INOK
ensures "cached data stay right": $HOK
raises Cxx: g_RegressionTest_inputUnmatched = old g_RegressionTest_inputUnmatched /\ $OSBUT(($OUT)) /\ $INOK /\ $HOK

fn testutil::RegressionTest::MeasurementNumericBoolean(b, name, tolerant)
joined
use obj.Obj obj.In obj.Out obj.Cat fl.Fl fl.Text tol.Tol meas.MeasI meas.MeasL meas.MeasD meas.MeasT diff.DiffI path.PathI search.SearchI
requires "ready": $RREADY
writes g_RegressionTest_inputUnmatched g_RegressionTest_Input dyn msz mem_b is_data is_pos is_eof is_fail is_bad is_live h_Measurement_name h_Measurement_applyEscapeSequences h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName os_txt os_prec os_live h_CompareVisitor_compareResults h_CompareVisitor__baseline h_CompareVisitor_tolerantCompare h_CompareVisitor_relativeTolerance h_DifferenceVisitor_os h_DifferenceVisitor__baseline
ensures [R05] "recorded": not ($COMPARE) -> result = 0 /\ $RECORD(LIT("DartMeasurement"), name, LIT("numeric/boolean"), dec (b2i b))
ensures [R05] "one baseline measurement is used up": $COMPARE -> $USED /\ $COUNTED(result)
ensures [R05] "zero only for a match with the first one": $COMPARE -> result = 0 -> llen (old $INPUT) > 0 /\ old ($MATCHV((lget $INPUT 0), 6, name, LIT("numeric/boolean"), (dec (b2i b)), $RTOL(tolerant)))
ensures [R05] "a match gives zero": $COMPARE -> result <> 0 -> not (llen (old $INPUT) > 0 /\ old ($MATCHV((lget $INPUT 0), 6, name, LIT("numeric/boolean"), (dec (b2i b)), $RTOL(tolerant))))
ensures "only on its stream": $OSBUT(($OUT))
ensures "the other measurements are unchanged": $BUT1(dyn)
ensures "the rest of the baseline": $INOK
ensures "cached data stay right": $HOK
raises Cxx: g_RegressionTest_inputUnmatched = old g_RegressionTest_inputUnmatched /\ $OSBUT(($OUT)) /\ $INOK /\ $HOK

fn testutil::RegressionTest::MeasurementFileTextPlain(fileName, name)
joined
use obj.Obj obj.In obj.Out obj.Cat fl.Fl fl.Text tol.Tol meas.MeasI meas.MeasL meas.MeasD meas.MeasT diff.DiffI path.PathI search.SearchI
requires "ready": $RREADY
writes g_RegressionTest_inputUnmatched g_RegressionTest_Input dyn msz mem_b is_data is_pos is_eof is_fail is_bad is_live h_Measurement_name h_Measurement_applyEscapeSequences h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName h_MeasurementFile_type os_txt os_prec os_live h_CompareVisitor_compareResults h_CompareVisitor__baseline h_CompareVisitor_tolerantCompare h_CompareVisitor_relativeTolerance h_DifferenceVisitor_os h_DifferenceVisitor__baseline
ensures [R05] "recorded": not ($COMPARE) -> result = 0 /\ $RECORD(LIT("DartMeasurementFile"), name, LIT("text/plain"), tail fileName)
ensures [R05] "one baseline measurement is used up": $COMPARE -> $USED /\ $COUNTED(result)
ensures [R05] "zero only for a match with the first one": $COMPARE -> result = 0 -> llen (old $INPUT) > 0 /\ old ($MATCHF((lget $INPUT 0), fileName, name, LIT("text/plain")))
ensures [R05] "a match gives zero": $COMPARE -> result <> 0 -> not (llen (old $INPUT) > 0 /\ old ($MATCHF((lget $INPUT 0), fileName, name, LIT("text/plain"))))
ensures "only on its stream": $OSBUT(($OUT))
ensures "the other measurements are unchanged": $BUT1(dyn)
ensures "the rest of the baseline": $INOK
ensures "cached data stay right": $HOK
raises Cxx: g_RegressionTest_inputUnmatched = old g_RegressionTest_inputUnmatched /\ $OSBUT(($OUT)) /\ $INOK /\ $HOK

fn testutil::RegressionTest::MeasurementFileImagePNG(fileName, name)
joined
use obj.Obj obj.In obj.Out obj.Cat fl.Fl fl.Text tol.Tol meas.MeasI meas.MeasL meas.MeasD meas.MeasT diff.DiffI path.PathI search.SearchI
requires "ready": $RREADY
writes g_RegressionTest_inputUnmatched g_RegressionTest_Input dyn msz mem_b is_data is_pos is_eof is_fail is_bad is_live h_Measurement_name h_Measurement_applyEscapeSequences h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName h_MeasurementFile_type os_txt os_prec os_live h_CompareVisitor_compareResults h_CompareVisitor__baseline h_CompareVisitor_tolerantCompare h_CompareVisitor_relativeTolerance h_DifferenceVisitor_os h_DifferenceVisitor__baseline
ensures [R05] "recorded": not ($COMPARE) -> result = 0 /\ $RECORD(LIT("DartMeasurementFile"), name, LIT("image/png"), tail fileName)
ensures [R05] "one baseline measurement is used up": $COMPARE -> $USED /\ $COUNTED(result)
ensures [R05] "zero only for a match with the first one": $COMPARE -> result = 0 -> llen (old $INPUT) > 0 /\ old ($MATCHF((lget $INPUT 0), fileName, name, LIT("image/png")))
ensures [R05] "a match gives zero": $COMPARE -> result <> 0 -> not (llen (old $INPUT) > 0 /\ old ($MATCHF((lget $INPUT 0), fileName, name, LIT("image/png"))))
ensures "only on its stream": $OSBUT(($OUT))
ensures "the other measurements are unchanged": $BUT1(dyn)
ensures "the rest of the baseline": $INOK
ensures "cached data stay right": $HOK
raises Cxx: g_RegressionTest_inputUnmatched = old g_RegressionTest_inputUnmatched /\ $OSBUT(($OUT)) /\ $INOK /\ $HOK

fn testutil::RegressionTest::MeasurementFileImageJPEG(fileName, name)
joined
use obj.Obj obj.In obj.Out obj.Cat fl.Fl fl.Text tol.Tol meas.MeasI meas.MeasL meas.MeasD meas.MeasT diff.DiffI path.PathI search.SearchI
requires "ready": $RREADY
writes g_RegressionTest_inputUnmatched g_RegressionTest_Input dyn msz mem_b is_data is_pos is_eof is_fail is_bad is_live h_Measurement_name h_Measurement_applyEscapeSequences h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName h_MeasurementFile_type os_txt os_prec os_live h_CompareVisitor_compareResults h_CompareVisitor__baseline h_CompareVisitor_tolerantCompare h_CompareVisitor_relativeTolerance h_DifferenceVisitor_os h_DifferenceVisitor__baseline
ensures [R05] "recorded": not ($COMPARE) -> result = 0 /\ $RECORD(LIT("DartMeasurementFile"), name, LIT("image/jpeg"), tail fileName)
ensures [R05] "one baseline measurement is used up": $COMPARE -> $USED /\ $COUNTED(result)
ensures [R05] "zero only for a match with the first one": $COMPARE -> result = 0 -> llen (old $INPUT) > 0 /\ old ($MATCHF((lget $INPUT 0), fileName, name, LIT("image/jpeg")))
ensures [R05] "a match gives zero": $COMPARE -> result <> 0 -> not (llen (old $INPUT) > 0 /\ old ($MATCHF((lget $INPUT 0), fileName, name, LIT("image/jpeg"))))
ensures "only on its stream": $OSBUT(($OUT))
ensures "the other measurements are unchanged": $BUT1(dyn)
ensures "the rest of the baseline": $INOK
ensures "cached data stay right": $HOK
raises Cxx: g_RegressionTest_inputUnmatched = old g_RegressionTest_inputUnmatched /\ $OSBUT(($OUT)) /\ $INOK /\ $HOK


macro XMLHEAD(s): scat LIT("<?xml version=\"1.0\" encoding=\"US-ASCII\"?>") (scat LIT("\n") (scat LIT("<!-- created on ") (scat @s (scat LIT(" -->") (scat LIT("\n") (scat LIT("<output>") LIT("\n")))))))
macro XMLTAIL: scat LIT("</output>") LIT("\n")

fn testutil::RegressionTest::WriteXMLOutputStart()
use obj.Obj obj.Out obj.Cat obj.Arr
requires "a stream": $OSOK
writes os_txt
entry let ghost o = if g_RegressionTest_os = 0 then 1 else g_RegressionTest_os in
exit assert { exists s. out os_txt o sempty = out (old os_txt) o ($XMLHEAD(s)) };
ensures [R05] "header and start of the document element": exists s. os_txt = out (old os_txt) ($OUT) ($XMLHEAD(s))

fn testutil::RegressionTest::WriteXMLOutputEnd()
use obj.Obj obj.Out obj.Cat
requires "a stream": $OSOK
writes os_txt
ensures [R05] "end of the document element": os_txt = out (old os_txt) ($OUT) ($XMLTAIL)

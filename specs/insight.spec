# the measurements of composite values
macro N0: (old log_n)
macro EACH(m, n, v): forall x [hget @m x]. $N0 <= x < $N0 + @n -> hget @m x = @v
macro LKEPT(m): forall x [hget @m x]. x < $N0 -> hget @m x = hget (old @m) x
macro NONE: forall x [hget log_ret x]. $N0 <= x < log_n -> hget log_ret x = 0
macro CNAME(nm, i): scat @nm (scat LIT("_") (dec (@i)))
macro PART(m, n, v): (forall x [hget @m x]. (old log_n) <= x < (old log_n) + @n -> hget @m x = @v)

fn Regression::MeasurementInsightSize(size, name, tolerant)
joined
use obj.Tparams obj.NameL obj.Ilog obj.SumI obj.SumL obj.Obj obj.In obj.Out obj.Cat fl.Fl fl.Text tol.Tol meas.MeasI meas.MeasL meas.MeasD meas.MeasT diff.DiffI path.PathI search.SearchI
entry let ghost n0 = log_n in
requires "ready": $RREADY
requires "the count": g_RegressionTest_inputUnmatched < 2147483647 - tp_1
writes log_n log_kind log_name log_int log_dbl log_tol log_ret g_RegressionTest_inputUnmatched g_RegressionTest_Input dyn msz mem_b is_data is_pos is_eof is_fail is_bad is_live h_Measurement_name h_Measurement_applyEscapeSequences h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName os_txt os_prec os_live h_CompareVisitor_compareResults h_CompareVisitor__baseline h_CompareVisitor_tolerantCompare h_CompareVisitor_relativeTolerance h_DifferenceVisitor_os h_DifferenceVisitor__baseline
loop 1
invariant "place": 0 <= i <= tp_1
invariant "the count": (old g_RegressionTest_inputUnmatched) <= g_RegressionTest_inputUnmatched <= (old g_RegressionTest_inputUnmatched) + i
invariant "the baseline": $INOK
invariant "cached data": $HOK
invariant "a stream": $OSOK
invariant "so far": log_n = $N0 + i
invariant "a numeric measurement each": $EACH(log_kind, i, 1)
invariant "the name": $EACH(log_name, i, $CNAME(name, x - $N0))
invariant "the value": $EACH(log_int, i, s64 (hget size (x - $N0)))
invariant "the tolerance": $EACH(log_tol, i, tolerant)
invariant "earlier log_kind": $LKEPT(log_kind)
invariant "earlier log_name": $LKEPT(log_name)
invariant "earlier log_int": $LKEPT(log_int)
invariant "earlier log_dbl": $LKEPT(log_dbl)
invariant "earlier log_tol": $LKEPT(log_tol)
invariant "earlier log_ret": $LKEPT(log_ret)
invariant "the sum": ret = rsum log_ret $N0 log_n
invariant "at most one each": 0 <= ret <= i
invariant "zero only if none failed": ret = 0 -> $NONE
invariant "zero if none failed": ($NONE) -> ret = 0
variant tp_1 - i
begin name2_ name LIT("_") (dec i); let ghost r0 = log_ret in let ghost n1 = log_n in
end rsum_same r0 log_ret n0 n1;
end assert { forall x [hget r0 x]. n0 <= x < n1 -> hget log_ret x = hget r0 x };
end assert { hget log_name n1 = $CNAME(name, n1 - n0) };
ensures [I03] "one measurement per component": log_n = $N0 + tp_1
ensures [I03] "a numeric measurement each": $EACH(log_kind, tp_1, 1)
ensures [I03] "the name": $EACH(log_name, tp_1, $CNAME(name, x - $N0))
ensures [I03] "the value": $EACH(log_int, tp_1, s64 (hget size (x - $N0)))
ensures [I03] "the tolerance": $EACH(log_tol, tp_1, tolerant)
ensures [I03] "the sum": result = rsum log_ret $N0 log_n
ensures [I03] "at most one each": 0 <= result <= tp_1
ensures [I03] "zero only if none failed": result = 0 -> $NONE
ensures [I03] "zero if none failed": ($NONE) -> result = 0
ensures "earlier log_kind": $LKEPT(log_kind)
ensures "earlier log_name": $LKEPT(log_name)
ensures "earlier log_int": $LKEPT(log_int)
ensures "earlier log_dbl": $LKEPT(log_dbl)
ensures "earlier log_tol": $LKEPT(log_tol)
ensures "earlier log_ret": $LKEPT(log_ret)
ensures "the rest of the baseline": $INOK
ensures "a stream": $OSOK
ensures "the count": (old g_RegressionTest_inputUnmatched) <= g_RegressionTest_inputUnmatched <= (old g_RegressionTest_inputUnmatched) + tp_1
ensures "cached data stay right": $HOK
raises Cxx: $INOK /\ $HOK

fn Regression::MeasurementInsightIndex(index, name, tolerant)
joined
use obj.Tparams obj.NameL obj.Ilog obj.SumI obj.SumL obj.Obj obj.In obj.Out obj.Cat fl.Fl fl.Text tol.Tol meas.MeasI meas.MeasL meas.MeasD meas.MeasT diff.DiffI path.PathI search.SearchI
entry let ghost n0 = log_n in
requires "ready": $RREADY
requires "components": forall x [hget index x]. in_s64 (hget index x)
requires "the count": g_RegressionTest_inputUnmatched < 2147483647 - tp_1
writes log_n log_kind log_name log_int log_dbl log_tol log_ret g_RegressionTest_inputUnmatched g_RegressionTest_Input dyn msz mem_b is_data is_pos is_eof is_fail is_bad is_live h_Measurement_name h_Measurement_applyEscapeSequences h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName os_txt os_prec os_live h_CompareVisitor_compareResults h_CompareVisitor__baseline h_CompareVisitor_tolerantCompare h_CompareVisitor_relativeTolerance h_DifferenceVisitor_os h_DifferenceVisitor__baseline
loop 1
invariant "place": 0 <= i <= tp_1
invariant "the count": (old g_RegressionTest_inputUnmatched) <= g_RegressionTest_inputUnmatched <= (old g_RegressionTest_inputUnmatched) + i
invariant "the baseline": $INOK
invariant "cached data": $HOK
invariant "a stream": $OSOK
invariant "so far": log_n = $N0 + i
invariant "a numeric measurement each": $EACH(log_kind, i, 1)
invariant "the name": $EACH(log_name, i, $CNAME(name, x - $N0))
invariant "the value": $EACH(log_int, i, hget index (x - $N0))
invariant "the tolerance": $EACH(log_tol, i, tolerant)
invariant "earlier log_kind": $LKEPT(log_kind)
invariant "earlier log_name": $LKEPT(log_name)
invariant "earlier log_int": $LKEPT(log_int)
invariant "earlier log_dbl": $LKEPT(log_dbl)
invariant "earlier log_tol": $LKEPT(log_tol)
invariant "earlier log_ret": $LKEPT(log_ret)
invariant "the sum": ret = rsum log_ret $N0 log_n
invariant "at most one each": 0 <= ret <= i
invariant "zero only if none failed": ret = 0 -> $NONE
invariant "zero if none failed": ($NONE) -> ret = 0
variant tp_1 - i
begin name2_ name LIT("_") (dec i); let ghost r0 = log_ret in let ghost n1 = log_n in
end rsum_same r0 log_ret n0 n1;
end assert { forall x [hget r0 x]. n0 <= x < n1 -> hget log_ret x = hget r0 x };
end assert { hget log_name n1 = $CNAME(name, n1 - n0) };
ensures [I03] "one measurement per component": log_n = $N0 + tp_1
ensures [I03] "a numeric measurement each": $EACH(log_kind, tp_1, 1)
ensures [I03] "the name": $EACH(log_name, tp_1, $CNAME(name, x - $N0))
ensures [I03] "the value": $EACH(log_int, tp_1, hget index (x - $N0))
ensures [I03] "the tolerance": $EACH(log_tol, tp_1, tolerant)
ensures [I03] "the sum": result = rsum log_ret $N0 log_n
ensures [I03] "at most one each": 0 <= result <= tp_1
ensures [I03] "zero only if none failed": result = 0 -> $NONE
ensures [I03] "zero if none failed": ($NONE) -> result = 0
ensures "earlier log_kind": $LKEPT(log_kind)
ensures "earlier log_name": $LKEPT(log_name)
ensures "earlier log_int": $LKEPT(log_int)
ensures "earlier log_dbl": $LKEPT(log_dbl)
ensures "earlier log_tol": $LKEPT(log_tol)
ensures "earlier log_ret": $LKEPT(log_ret)
ensures "the rest of the baseline": $INOK
ensures "a stream": $OSOK
ensures "the count": (old g_RegressionTest_inputUnmatched) <= g_RegressionTest_inputUnmatched <= (old g_RegressionTest_inputUnmatched) + tp_1
ensures "cached data stay right": $HOK
raises Cxx: $INOK /\ $HOK

fn Regression::MeasurementInsightPoint(point, name, tolerant)
joined
use obj.Tparams obj.NameL obj.Ilog obj.SumI obj.SumL obj.Obj obj.In obj.Out obj.Cat fl.Fl fl.Text tol.Tol meas.MeasI meas.MeasL meas.MeasD meas.MeasT diff.DiffI path.PathI search.SearchI
entry let ghost n0 = log_n in
requires "ready": $RREADY
requires "the count": g_RegressionTest_inputUnmatched < 2147483647 - tp_1
writes log_n log_kind log_name log_int log_dbl log_tol log_ret g_RegressionTest_inputUnmatched g_RegressionTest_Input dyn msz mem_b is_data is_pos is_eof is_fail is_bad is_live h_Measurement_name h_Measurement_applyEscapeSequences h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName os_txt os_prec os_live h_CompareVisitor_compareResults h_CompareVisitor__baseline h_CompareVisitor_tolerantCompare h_CompareVisitor_relativeTolerance h_DifferenceVisitor_os h_DifferenceVisitor__baseline
loop 1
invariant "place": 0 <= i <= tp_1
invariant "the count": (old g_RegressionTest_inputUnmatched) <= g_RegressionTest_inputUnmatched <= (old g_RegressionTest_inputUnmatched) + i
invariant "the baseline": $INOK
invariant "cached data": $HOK
invariant "a stream": $OSOK
invariant "so far": log_n = $N0 + i
invariant "a numeric measurement each": $EACH(log_kind, i, 2)
invariant "the name": $EACH(log_name, i, $CNAME(name, x - $N0))
invariant "the value": $EACH(log_dbl, i, hget point (x - $N0))
invariant "the tolerance": $EACH(log_tol, i, tolerant)
invariant "earlier log_kind": $LKEPT(log_kind)
invariant "earlier log_name": $LKEPT(log_name)
invariant "earlier log_int": $LKEPT(log_int)
invariant "earlier log_dbl": $LKEPT(log_dbl)
invariant "earlier log_tol": $LKEPT(log_tol)
invariant "earlier log_ret": $LKEPT(log_ret)
invariant "the sum": ret = rsum log_ret $N0 log_n
invariant "at most one each": 0 <= ret <= i
invariant "zero only if none failed": ret = 0 -> $NONE
invariant "zero if none failed": ($NONE) -> ret = 0
variant tp_1 - i
begin name2_ name LIT("_") (dec i); let ghost r0 = log_ret in let ghost n1 = log_n in
end rsum_same r0 log_ret n0 n1;
end assert { forall x [hget r0 x]. n0 <= x < n1 -> hget log_ret x = hget r0 x };
end assert { hget log_name n1 = $CNAME(name, n1 - n0) };
ensures [I03] "one measurement per component": log_n = $N0 + tp_1
ensures [I03] "a numeric measurement each": $EACH(log_kind, tp_1, 2)
ensures [I03] "the name": $EACH(log_name, tp_1, $CNAME(name, x - $N0))
ensures [I03] "the value": $EACH(log_dbl, tp_1, hget point (x - $N0))
ensures [I03] "the tolerance": $EACH(log_tol, tp_1, tolerant)
ensures [I03] "the sum": result = rsum log_ret $N0 log_n
ensures [I03] "at most one each": 0 <= result <= tp_1
ensures [I03] "zero only if none failed": result = 0 -> $NONE
ensures [I03] "zero if none failed": ($NONE) -> result = 0
ensures "earlier log_kind": $LKEPT(log_kind)
ensures "earlier log_name": $LKEPT(log_name)
ensures "earlier log_int": $LKEPT(log_int)
ensures "earlier log_dbl": $LKEPT(log_dbl)
ensures "earlier log_tol": $LKEPT(log_tol)
ensures "earlier log_ret": $LKEPT(log_ret)
ensures "the rest of the baseline": $INOK
ensures "a stream": $OSOK
ensures "the count": (old g_RegressionTest_inputUnmatched) <= g_RegressionTest_inputUnmatched <= (old g_RegressionTest_inputUnmatched) + tp_1
ensures "cached data stay right": $HOK
raises Cxx: $INOK /\ $HOK

fn Regression::MeasurementInsightVector(vector, name, tolerant)
joined
use obj.Tparams obj.NameL obj.Ilog obj.SumI obj.SumL obj.Obj obj.In obj.Out obj.Cat fl.Fl fl.Text tol.Tol meas.MeasI meas.MeasL meas.MeasD meas.MeasT diff.DiffI path.PathI search.SearchI
entry let ghost n0 = log_n in
requires "ready": $RREADY
requires "the count": g_RegressionTest_inputUnmatched < 2147483647 - tp_1
writes log_n log_kind log_name log_int log_dbl log_tol log_ret g_RegressionTest_inputUnmatched g_RegressionTest_Input dyn msz mem_b is_data is_pos is_eof is_fail is_bad is_live h_Measurement_name h_Measurement_applyEscapeSequences h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName os_txt os_prec os_live h_CompareVisitor_compareResults h_CompareVisitor__baseline h_CompareVisitor_tolerantCompare h_CompareVisitor_relativeTolerance h_DifferenceVisitor_os h_DifferenceVisitor__baseline
loop 1
invariant "place": 0 <= i <= tp_1
invariant "the count": (old g_RegressionTest_inputUnmatched) <= g_RegressionTest_inputUnmatched <= (old g_RegressionTest_inputUnmatched) + i
invariant "the baseline": $INOK
invariant "cached data": $HOK
invariant "a stream": $OSOK
invariant "so far": log_n = $N0 + i
invariant "a numeric measurement each": $EACH(log_kind, i, 2)
invariant "the name": $EACH(log_name, i, $CNAME(name, x - $N0))
invariant "the value": $EACH(log_dbl, i, hget vector (x - $N0))
invariant "the tolerance": $EACH(log_tol, i, tolerant)
invariant "earlier log_kind": $LKEPT(log_kind)
invariant "earlier log_name": $LKEPT(log_name)
invariant "earlier log_int": $LKEPT(log_int)
invariant "earlier log_dbl": $LKEPT(log_dbl)
invariant "earlier log_tol": $LKEPT(log_tol)
invariant "earlier log_ret": $LKEPT(log_ret)
invariant "the sum": ret = rsum log_ret $N0 log_n
invariant "at most one each": 0 <= ret <= i
invariant "zero only if none failed": ret = 0 -> $NONE
invariant "zero if none failed": ($NONE) -> ret = 0
variant tp_1 - i
begin name2_ name LIT("_") (dec i); let ghost r0 = log_ret in let ghost n1 = log_n in
end rsum_same r0 log_ret n0 n1;
end assert { forall x [hget r0 x]. n0 <= x < n1 -> hget log_ret x = hget r0 x };
end assert { hget log_name n1 = $CNAME(name, n1 - n0) };
ensures [I03] "one measurement per component": log_n = $N0 + tp_1
ensures [I03] "a numeric measurement each": $EACH(log_kind, tp_1, 2)
ensures [I03] "the name": $EACH(log_name, tp_1, $CNAME(name, x - $N0))
ensures [I03] "the value": $EACH(log_dbl, tp_1, hget vector (x - $N0))
ensures [I03] "the tolerance": $EACH(log_tol, tp_1, tolerant)
ensures [I03] "the sum": result = rsum log_ret $N0 log_n
ensures [I03] "at most one each": 0 <= result <= tp_1
ensures [I03] "zero only if none failed": result = 0 -> $NONE
ensures [I03] "zero if none failed": ($NONE) -> result = 0
ensures "earlier log_kind": $LKEPT(log_kind)
ensures "earlier log_name": $LKEPT(log_name)
ensures "earlier log_int": $LKEPT(log_int)
ensures "earlier log_dbl": $LKEPT(log_dbl)
ensures "earlier log_tol": $LKEPT(log_tol)
ensures "earlier log_ret": $LKEPT(log_ret)
ensures "the rest of the baseline": $INOK
ensures "a stream": $OSOK
ensures "the count": (old g_RegressionTest_inputUnmatched) <= g_RegressionTest_inputUnmatched <= (old g_RegressionTest_inputUnmatched) + tp_1
ensures "cached data stay right": $HOK
raises Cxx: $INOK /\ $HOK

fn Regression::MeasurementInsightFixedArray(array, name, tolerant)
joined
use obj.Tparams obj.NameL obj.Ilog obj.SumI obj.SumL obj.Obj obj.In obj.Out obj.Cat fl.Fl fl.Text tol.Tol meas.MeasI meas.MeasL meas.MeasD meas.MeasT diff.DiffI path.PathI search.SearchI
entry let ghost n0 = log_n in
requires "ready": $RREADY
requires "the count": g_RegressionTest_inputUnmatched < 2147483647 - tp_1
writes log_n log_kind log_name log_int log_dbl log_tol log_ret g_RegressionTest_inputUnmatched g_RegressionTest_Input dyn msz mem_b is_data is_pos is_eof is_fail is_bad is_live h_Measurement_name h_Measurement_applyEscapeSequences h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName os_txt os_prec os_live h_CompareVisitor_compareResults h_CompareVisitor__baseline h_CompareVisitor_tolerantCompare h_CompareVisitor_relativeTolerance h_DifferenceVisitor_os h_DifferenceVisitor__baseline
loop 1
invariant "place": 0 <= i <= tp_1
invariant "the count": (old g_RegressionTest_inputUnmatched) <= g_RegressionTest_inputUnmatched <= (old g_RegressionTest_inputUnmatched) + i
invariant "the baseline": $INOK
invariant "cached data": $HOK
invariant "a stream": $OSOK
invariant "so far": log_n = $N0 + i
invariant "a numeric measurement each": $EACH(log_kind, i, 2)
invariant "the name": $EACH(log_name, i, $CNAME(name, x - $N0))
invariant "the value": $EACH(log_dbl, i, hget array (x - $N0))
invariant "the tolerance": $EACH(log_tol, i, tolerant)
invariant "earlier log_kind": $LKEPT(log_kind)
invariant "earlier log_name": $LKEPT(log_name)
invariant "earlier log_int": $LKEPT(log_int)
invariant "earlier log_dbl": $LKEPT(log_dbl)
invariant "earlier log_tol": $LKEPT(log_tol)
invariant "earlier log_ret": $LKEPT(log_ret)
invariant "the sum": ret = rsum log_ret $N0 log_n
invariant "at most one each": 0 <= ret <= i
invariant "zero only if none failed": ret = 0 -> $NONE
invariant "zero if none failed": ($NONE) -> ret = 0
variant tp_1 - i
begin name2_ name LIT("_") (dec i); let ghost r0 = log_ret in let ghost n1 = log_n in
end rsum_same r0 log_ret n0 n1;
end assert { forall x [hget r0 x]. n0 <= x < n1 -> hget log_ret x = hget r0 x };
end assert { hget log_name n1 = $CNAME(name, n1 - n0) };
ensures [I03] "one measurement per component": log_n = $N0 + tp_1
ensures [I03] "a numeric measurement each": $EACH(log_kind, tp_1, 2)
ensures [I03] "the name": $EACH(log_name, tp_1, $CNAME(name, x - $N0))
ensures [I03] "the value": $EACH(log_dbl, tp_1, hget array (x - $N0))
ensures [I03] "the tolerance": $EACH(log_tol, tp_1, tolerant)
ensures [I03] "the sum": result = rsum log_ret $N0 log_n
ensures [I03] "at most one each": 0 <= result <= tp_1
ensures [I03] "zero only if none failed": result = 0 -> $NONE
ensures [I03] "zero if none failed": ($NONE) -> result = 0
ensures "earlier log_kind": $LKEPT(log_kind)
ensures "earlier log_name": $LKEPT(log_name)
ensures "earlier log_int": $LKEPT(log_int)
ensures "earlier log_dbl": $LKEPT(log_dbl)
ensures "earlier log_tol": $LKEPT(log_tol)
ensures "earlier log_ret": $LKEPT(log_ret)
ensures "the rest of the baseline": $INOK
ensures "a stream": $OSOK
ensures "the count": (old g_RegressionTest_inputUnmatched) <= g_RegressionTest_inputUnmatched <= (old g_RegressionTest_inputUnmatched) + tp_1
ensures "cached data stay right": $HOK
raises Cxx: $INOK /\ $HOK

fn Regression::MeasurementInsightRegion(region, name, tolerant)
joined
use obj.Tparams obj.NameL obj.Ilog obj.SumI obj.SumL obj.Obj obj.In obj.Out obj.Cat fl.Fl fl.Text tol.Tol meas.MeasI meas.MeasL meas.MeasD meas.MeasT diff.DiffI path.PathI search.SearchI
entry let ghost n0 = log_n in
requires "ready": $RREADY
requires "components": forall x [hget (fst region) x]. in_s64 (hget (fst region) x)
requires "the count": g_RegressionTest_inputUnmatched < 2147483647 - 2 * tp_1
writes log_n log_kind log_name log_int log_dbl log_tol log_ret g_RegressionTest_inputUnmatched g_RegressionTest_Input dyn msz mem_b is_data is_pos is_eof is_fail is_bad is_live h_Measurement_name h_Measurement_applyEscapeSequences h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName os_txt os_prec os_live h_CompareVisitor_compareResults h_CompareVisitor__baseline h_CompareVisitor_tolerantCompare h_CompareVisitor_relativeTolerance h_DifferenceVisitor_os h_DifferenceVisitor__baseline
point after MeasurementInsightIndex 1 : let ghost r1 = log_ret in let ghost t1 = log_tol in let ghost n1 = log_n in assert { forall x [hget t1 x]. n0 <= x < n1 -> hget t1 x = tolerant };
exit rsum_same r1 log_ret n0 n1; rsum_split log_ret n0 n1 log_n;
exit assert { forall x [hget log_tol x]. n0 <= x < n1 -> hget log_tol x = hget t1 x };
exit assert { forall x [hget r1 x]. n0 <= x < n1 -> hget log_ret x = hget r1 x };
ensures [I03] "one measurement per component": log_n = $N0 + 2 * tp_1
ensures [I03] "a numeric measurement each": forall x [hget log_kind x]. $N0 + 0 <= x < $N0 + 2 * tp_1 -> hget log_kind x = 1
ensures [I03] "the name of an index": forall x [hget log_name x]. $N0 + 0 <= x < $N0 + tp_1 -> hget log_name x = $CNAME(scat name LIT(" Index"), x - $N0)
ensures [I03] "the name of a size": forall x [hget log_name x]. $N0 + tp_1 <= x < $N0 + 2 * tp_1 -> hget log_name x = $CNAME(scat name LIT(" Size"), x - $N0 - tp_1)
ensures [I03] "the value of an index": forall x [hget log_int x]. $N0 + 0 <= x < $N0 + tp_1 -> hget log_int x = hget (fst region) (x - $N0)
ensures [I03] "the value of a size": forall x [hget log_int x]. $N0 + tp_1 <= x < $N0 + 2 * tp_1 -> hget log_int x = s64 (hget (snd region) (x - $N0 - tp_1))
ensures [I03] "the tolerance of an index": forall x [hget log_tol x]. $N0 + 0 <= x < $N0 + tp_1 -> hget log_tol x = tolerant
ensures [I03] "the tolerance of a size": forall x [hget log_tol x]. $N0 + tp_1 <= x < $N0 + 2 * tp_1 -> hget log_tol x = tolerant
ensures [I03] "the sum": result = rsum log_ret $N0 log_n
ensures [I03] "at most one each": 0 <= result <= 2 * tp_1
ensures [I03] "zero only if none failed": result = 0 -> $NONE
ensures [I03] "zero if none failed": ($NONE) -> result = 0
ensures "earlier log_kind": $LKEPT(log_kind)
ensures "earlier log_name": $LKEPT(log_name)
ensures "earlier log_int": $LKEPT(log_int)
ensures "earlier log_dbl": $LKEPT(log_dbl)
ensures "earlier log_tol": $LKEPT(log_tol)
ensures "earlier log_ret": $LKEPT(log_ret)
ensures "the rest of the baseline": $INOK
ensures "a stream": $OSOK
ensures "the count": (old g_RegressionTest_inputUnmatched) <= g_RegressionTest_inputUnmatched <= (old g_RegressionTest_inputUnmatched) + 2 * tp_1
ensures "cached data stay right": $HOK
raises Cxx: $INOK /\ $HOK

macro MNAME(k): scat name (scat LIT("_") (scat (dec (rowof (@k))) (scat LIT("_") (dec (colof (@k))))))
fn Regression::MeasurementInsightMatrix(matrix, name, tolerant)
joined
use obj.Tparams obj.RowI obj.RowL obj.NameL obj.Ilog obj.SumI obj.SumL obj.Obj obj.In obj.Out obj.Cat fl.Fl fl.Text tol.Tol meas.MeasI meas.MeasL meas.MeasD meas.MeasT diff.DiffI path.PathI search.SearchI
entry let ghost n0 = log_n in
requires "ready": $RREADY
requires "the count": g_RegressionTest_inputUnmatched < 2147483647 - rowat tp_1
writes log_n log_kind log_name log_int log_dbl log_tol log_ret g_RegressionTest_inputUnmatched g_RegressionTest_Input dyn msz mem_b is_data is_pos is_eof is_fail is_bad is_live h_Measurement_name h_Measurement_applyEscapeSequences h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName os_txt os_prec os_live h_CompareVisitor_compareResults h_CompareVisitor__baseline h_CompareVisitor_tolerantCompare h_CompareVisitor_relativeTolerance h_DifferenceVisitor_os h_DifferenceVisitor__baseline
loop 1
invariant "place": 0 <= i <= tp_1 /\ 0 <= rowat i
invariant "the count": (old g_RegressionTest_inputUnmatched) <= g_RegressionTest_inputUnmatched <= (old g_RegressionTest_inputUnmatched) + rowat i
invariant "the baseline": $INOK
invariant "cached data": $HOK
invariant "a stream": $OSOK
invariant "so far": log_n = $N0 + rowat i
invariant "a numeric measurement each": $EACH(log_kind, rowat i, 2)
invariant "the name": $EACH(log_name, rowat i, $MNAME(x - $N0))
invariant "the value": $EACH(log_dbl, rowat i, hget (hget matrix (rowof (x - $N0))) (colof (x - $N0)))
invariant "the tolerance": $EACH(log_tol, rowat i, tolerant)
invariant "earlier log_kind": $LKEPT(log_kind)
invariant "earlier log_name": $LKEPT(log_name)
invariant "earlier log_int": $LKEPT(log_int)
invariant "earlier log_dbl": $LKEPT(log_dbl)
invariant "earlier log_tol": $LKEPT(log_tol)
invariant "earlier log_ret": $LKEPT(log_ret)
invariant "the sum": ret = rsum log_ret $N0 log_n
invariant "at most one each": 0 <= ret <= rowat i
invariant "zero only if none failed": ret = 0 -> $NONE
invariant "zero if none failed": ($NONE) -> ret = 0
variant tp_1 - i
begin rowcol_ i 0;
loop 2
invariant "place": 0 <= i < tp_1 /\ 0 <= j <= tp_2 /\ 0 <= rowat i
invariant "the count": (old g_RegressionTest_inputUnmatched) <= g_RegressionTest_inputUnmatched <= (old g_RegressionTest_inputUnmatched) + rowat i + j
invariant "the baseline": $INOK
invariant "cached data": $HOK
invariant "a stream": $OSOK
invariant "so far": log_n = $N0 + rowat i + j
invariant "a numeric measurement each": $EACH(log_kind, rowat i + j, 2)
invariant "the name": $EACH(log_name, rowat i + j, $MNAME(x - $N0))
invariant "the value": $EACH(log_dbl, rowat i + j, hget (hget matrix (rowof (x - $N0))) (colof (x - $N0)))
invariant "the tolerance": $EACH(log_tol, rowat i + j, tolerant)
invariant "earlier log_kind": $LKEPT(log_kind)
invariant "earlier log_name": $LKEPT(log_name)
invariant "earlier log_int": $LKEPT(log_int)
invariant "earlier log_dbl": $LKEPT(log_dbl)
invariant "earlier log_tol": $LKEPT(log_tol)
invariant "earlier log_ret": $LKEPT(log_ret)
invariant "the sum": ret = rsum log_ret $N0 log_n
invariant "at most one each": 0 <= ret <= rowat i + j
invariant "zero only if none failed": ret = 0 -> $NONE
invariant "zero if none failed": ($NONE) -> ret = 0
variant tp_2 - j
begin rowcol_ i j;
begin name4_ name LIT("_") (dec i) LIT("_") (dec j); let ghost r0 = log_ret in let ghost n1 = log_n in
end rsum_same r0 log_ret n0 n1;
end assert { forall x [hget r0 x]. n0 <= x < n1 -> hget log_ret x = hget r0 x };
end assert { hget log_name n1 = $MNAME(n1 - n0) };
ensures [I03] "one measurement per component": log_n = $N0 + rowat tp_1
ensures [I03] "a numeric measurement each": $EACH(log_kind, rowat tp_1, 2)
ensures [I03] "the name": $EACH(log_name, rowat tp_1, $MNAME(x - $N0))
ensures [I03] "the value": $EACH(log_dbl, rowat tp_1, hget (hget matrix (rowof (x - $N0))) (colof (x - $N0)))
ensures [I03] "the tolerance": $EACH(log_tol, rowat tp_1, tolerant)
ensures [I03] "the sum": result = rsum log_ret $N0 log_n
ensures [I03] "at most one each": 0 <= result <= rowat tp_1
ensures [I03] "zero only if none failed": result = 0 -> $NONE
ensures [I03] "zero if none failed": ($NONE) -> result = 0
ensures "earlier log_kind": $LKEPT(log_kind)
ensures "earlier log_name": $LKEPT(log_name)
ensures "earlier log_int": $LKEPT(log_int)
ensures "earlier log_dbl": $LKEPT(log_dbl)
ensures "earlier log_tol": $LKEPT(log_tol)
ensures "earlier log_ret": $LKEPT(log_ret)
ensures "the rest of the baseline": $INOK
ensures "a stream": $OSOK
ensures "the count": (old g_RegressionTest_inputUnmatched) <= g_RegressionTest_inputUnmatched <= (old g_RegressionTest_inputUnmatched) + rowat tp_1
ensures "cached data stay right": $HOK
raises Cxx: $INOK /\ $HOK


# generated file names
macro ARGL: g_Regression_m_ArgumentList
macro FCOUNT: g_Regression_m_FileNameCount
fn Regression::GenerateFileName(fileExtension, rootPath)
joined
use obj.Obj obj.Out obj.Cat obj.FnameI path.PathI
requires "there are arguments": llen $ARGL > 0
requires "the number": 0 <= $FCOUNT < 4294967295
writes g_Regression_m_FileNameCount os_txt os_prec os_live
ensures [I01] "the number of the call": $FCOUNT = (old $FCOUNT) + 1
ensures [I01] "the name": slen rootPath = 0 -> result = fname $ARGL $FCOUNT fileExtension
ensures [I01] "the name under the root": slen rootPath > 0 -> result = joined rootPath (fname $ARGL $FCOUNT fileExtension)
loop 1
invariant "place": 0 <= i <= llen $ARGL
invariant "the arguments so far": cmdline = acat $ARGL i
variant llen $ARGL - i
loop 2
invariant "place": 0 <= i <= slen cmdline
invariant "the hash so far": hash = hashn cmdline i
variant slen cmdline - i

fn Regression::Main(argc, argv)
model argv: cstrs
joined
entry let ghost m = hget mem_cstr argv.blk in
use obj.Obj obj.In obj.Out obj.Run obj.Cat obj.Arr meas.MeasI meas.MeasL xml.Xml xml.Expat args.Strtol args.ArgsI path.PathI search.SearchI
requires "the arguments": argc >= 0 /\ inblk msz argv argc
requires "are texts": forall x [hget (hget mem_cstr argv.blk) x]. argv.off <= x < argv.off + argc -> hget (hget mem_cstr argv.blk) x <> CNull
requires "no file is open": g_RegressionTest_os = 0 /\ g_RegressionTest_is = 0
requires "the measurements of an earlier run": $INOK
requires "cached data are right": $HOK
writes g_Regression_m_ArgumentList test_done test_ret test_bad g_RegressionTest_inputUnmatched g_RegressionTest_expectedReturn g_RegressionTest_Input g_RegressionTest_os g_RegressionTest_is g_RegressionTest_inFileName g_RegressionTest_outFileName g_RegressionTest_searchPath os_txt os_prec os_live is_data is_live is_pos is_eof is_fail is_bad dyn msz mem_b mem_cstr h_Measurement_applyEscapeSequences h_Measurement_name h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName h_MeasurementFile_type h_XMLParseData_depth h_XMLParseData_m h_XMLParseData_data h_XMLParseData_measurements xml_fed xml_final xml_nest xml_buf xml_room xml_user xml_born xml_out xml_ok
loop 1
invariant "place": 0 <= i <= argc
invariant "as many": llen $ARGL = i
invariant "the arguments": forall x [lget $ARGL x]. 0 <= x < i -> lget $ARGL x = cval (hget m (argv.off + x))
variant argc - i
ensures [R01] "zero only if nothing failed": result = 0 -> test_done /\ (test_ret = g_RegressionTest_expectedReturn \/ test_ret = 0) /\ test_bad = 0
ensures [R01] "zero if nothing failed": test_done -> test_ret = g_RegressionTest_expectedReturn -> test_bad = 0 -> result = 0
ensures [R01] "an unexpected value is the result": test_done -> test_ret <> g_RegressionTest_expectedReturn -> test_ret <> 0 -> result = test_ret
ensures [R01] "else the number of measurements that did not match": test_done -> test_ret = g_RegressionTest_expectedReturn \/ test_ret = 0 -> result = test_bad
ensures [R01] "a run that did not end fails": not test_done -> result <> 0
ensures [R01] "ready for the next run": g_RegressionTest_os = 0 /\ g_RegressionTest_is = 0 /\ $INOK /\ $HOK
point before Main 1: assert { [@expl:as many arguments as there are] llen $ARGL = argc }; assert { [@expl:the arguments in order] forall x. 0 <= x < argc -> lget $ARGL x = cval (hget m (argv.off + x)) };

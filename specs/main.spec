macro OUTNAME: g_RegressionTest_outFileName.f_PathName_pathName
macro BASEFILE: if slen ($FOUND) > 0 then $FOUND else $INNAME
macro ISOK: g_RegressionTest_is = 0 \/ (g_RegressionTest_is > 3 /\ hget is_live g_RegressionTest_is)

fn testutil::RegressionTest::ReadXMLInputFree()
use obj.Obj
requires "the baseline": $INOK
writes dyn g_RegressionTest_Input
loop 1
invariant "place": 0 <= i <= llen $INPUT /\ $INPUT = old $INPUT
invariant "what is left": forall j [lget $INPUT j]. i <= j < llen $INPUT -> 1 <= hget dyn (lget $INPUT j) <= 7
invariant "the others": forall k [hget dyn k]. hget dyn k = hget (old dyn) k \/ exists j. 0 <= j < llen $INPUT /\ lget $INPUT j = k
invariant "deleted or as it was": forall k [hget dyn k]. hget dyn k = 0 \/ hget dyn k = hget (old dyn) k
variant llen $INPUT - i
ensures [R04] "nothing is left": $INPUT = lempty
ensures "deleted or as it was": forall k [hget dyn k]. hget dyn k = 0 \/ hget dyn k = hget (old dyn) k
ensures "the others stay": forall k [hget dyn k]. hget dyn k = hget (old dyn) k \/ exists j. 0 <= j < llen (old $INPUT) /\ lget (old $INPUT) j = k

fn testutil::RegressionTest::EndMeasurement()
joined
use obj.Obj obj.In obj.Out obj.Cat path.PathI search.SearchI meas.MeasI meas.MeasL
requires "the baseline": $INOK
requires "streams": ($OSOK) /\ ($ISOK)
requires "cached data are right": $HOK
writes dyn g_RegressionTest_Input g_RegressionTest_os g_RegressionTest_is os_txt os_live is_live
ensures [R04] "the output file is closed": g_RegressionTest_os = 0 /\ (old g_RegressionTest_os <> 0 -> not (hget os_live (old g_RegressionTest_os)))
ensures [R04] "the input file is closed": g_RegressionTest_is = 0 /\ (old g_RegressionTest_is <> 0 -> not (hget is_live (old g_RegressionTest_is)))
ensures [R05] "in record mode the document ends": old (not ($COMPARE)) -> $INPUT = old $INPUT /\ os_txt = out (old os_txt) (old ($OUT)) ($XMLTAIL)
ensures [R04] "in compare mode nothing is written": old ($COMPARE) -> os_txt = old os_txt /\ $INPUT = lempty
ensures "the baseline": $INOK
ensures "the others stay": forall k [hget dyn k]. hget dyn k = hget (old dyn) k \/ exists j. 0 <= j < llen (old $INPUT) /\ lget (old $INPUT) j = k
ensures "cached data stay right": $HOK

fn testutil::RegressionTest::BeginMeasurement()
joined
use obj.Obj obj.In obj.Out obj.Cat path.PathI search.SearchI meas.MeasI meas.MeasL xml.Xml xml.Expat obj.Arr
requires "no file is open": g_RegressionTest_os = 0 /\ g_RegressionTest_is = 0
requires "the measurements of an earlier run": $INOK
requires "cached data are right": $HOK
writes g_RegressionTest_Input g_RegressionTest_os g_RegressionTest_is os_txt os_prec os_live is_data is_live is_pos is_eof is_fail is_bad dyn msz mem_b mem_cstr h_Measurement_applyEscapeSequences h_Measurement_name h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName h_MeasurementFile_type h_XMLParseData_depth h_XMLParseData_m h_XMLParseData_data h_XMLParseData_measurements xml_fed xml_final xml_nest xml_buf xml_room xml_user xml_born xml_out xml_ok
ensures [R04] "the output file named": if slen $OUTNAME > 0 then g_RegressionTest_os > 3 /\ hget os_live g_RegressionTest_os /\ os_path g_RegressionTest_os = cpre $OUTNAME /\ owritable (cpre $OUTNAME) else g_RegressionTest_os = 0
ensures [R04] "the baseline found": if slen $INNAME > 0 then g_RegressionTest_is > 3 /\ hget is_live g_RegressionTest_is /\ is_path g_RegressionTest_is = cpre ($BASEFILE) /\ fopens (cpre ($BASEFILE)) else g_RegressionTest_is = 0
ensures [R04] "is read": slen $INNAME > 0 -> xml_fed = fbytes (cpre ($BASEFILE)) /\ xml_final /\ xml_ok /\ $INPUT = xml_out
ensures [R05] "in record mode the document starts": slen $INNAME = 0 -> $INPUT = old $INPUT /\ exists w. hget os_txt ($OUT) = scat (if g_RegressionTest_os = 0 then hget (old os_txt) 1 else sempty) ($XMLHEAD(w))
ensures [R04] "in compare mode nothing is written": slen $INNAME > 0 -> $OSBUT(0) /\ (g_RegressionTest_os <> 0 -> hget os_txt g_RegressionTest_os = sempty)
ensures "only on its stream": $OSBUT(($OUT))
ensures "the baseline": $INOK
ensures "cached data stay right": $HOK
raises Cxx: ($OSOK) /\ ($ISOK) /\ $INOK /\ $HOK

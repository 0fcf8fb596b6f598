fn testutil::RegressionTest::Test(argc, argv)
model argv: cstrs
trusted the test body of the user: it uses the test only through its public functions
use obj.Obj obj.In obj.Out meas.MeasI obj.Run
requires "arguments": argc >= 0
requires "streams": ($OSOK) /\ ($ISOK)
requires "the baseline": $INOK
requires "cached data are right": $HOK
writes test_done test_ret test_bad g_RegressionTest_inputUnmatched g_RegressionTest_expectedReturn g_RegressionTest_Input g_RegressionTest_searchPath os_txt os_prec os_live is_data is_live is_pos is_eof is_fail is_bad dyn msz mem_b mem_cstr h_Measurement_applyEscapeSequences h_Measurement_name h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName h_MeasurementFile_type
ensures "it ended": test_done /\ test_ret = result
ensures "the measurements that did not match": test_bad >= 0 /\ g_RegressionTest_inputUnmatched = (old g_RegressionTest_inputUnmatched) + test_bad /\ g_RegressionTest_inputUnmatched < 2147483647
ensures "streams": ($OSOK) /\ ($ISOK)
ensures "the baseline": $INOK
ensures "cached data stay right": $HOK
raises Cxx: not test_done /\ g_RegressionTest_inputUnmatched >= (old g_RegressionTest_inputUnmatched) /\ g_RegressionTest_inputUnmatched < 2147483647 /\ ($OSOK) /\ ($ISOK) /\ $INOK /\ $HOK

fn testutil::RegressionTest::Main(argc, argv)
model argv: cstrs
joined
entry test_done <- false;
use obj.Obj obj.In obj.Out obj.Run obj.Cat obj.Arr meas.MeasI meas.MeasL xml.Xml xml.Expat args.Strtol args.ArgsI path.PathI search.SearchI
requires "the arguments": argc >= 0 /\ inblk msz argv argc
requires "are texts": forall x [hget (hget mem_cstr argv.blk) x]. argv.off <= x < argv.off + argc -> hget (hget mem_cstr argv.blk) x <> CNull
requires "no file is open": g_RegressionTest_os = 0 /\ g_RegressionTest_is = 0
requires "the measurements of an earlier run": $INOK
requires "cached data are right": $HOK
writes test_done test_ret test_bad g_RegressionTest_inputUnmatched g_RegressionTest_expectedReturn g_RegressionTest_Input g_RegressionTest_os g_RegressionTest_is g_RegressionTest_inFileName g_RegressionTest_outFileName g_RegressionTest_searchPath os_txt os_prec os_live is_data is_live is_pos is_eof is_fail is_bad dyn msz mem_b mem_cstr h_Measurement_applyEscapeSequences h_Measurement_name h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName h_MeasurementFile_type h_XMLParseData_depth h_XMLParseData_m h_XMLParseData_data h_XMLParseData_measurements xml_fed xml_final xml_nest xml_buf xml_room xml_user xml_born xml_out xml_ok
ensures [R01] "zero only if nothing failed": result = 0 -> test_done /\ (test_ret = g_RegressionTest_expectedReturn \/ test_ret = 0) /\ test_bad = 0
ensures [R01] "zero if nothing failed": test_done -> test_ret = g_RegressionTest_expectedReturn -> test_bad = 0 -> result = 0
ensures [R01] "an unexpected value is the result": test_done -> test_ret <> g_RegressionTest_expectedReturn -> test_ret <> 0 -> result = test_ret
ensures [R01] "else the number of measurements that did not match": test_done -> test_ret = g_RegressionTest_expectedReturn \/ test_ret = 0 -> result = test_bad
ensures [R01] "a run that did not end fails": not test_done -> result <> 0
ensures [R01] "ready for the next run": g_RegressionTest_os = 0 /\ g_RegressionTest_is = 0 /\ $INOK /\ $HOK

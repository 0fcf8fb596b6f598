"""Which functions, theories and harness decide each property."""
B = 'testutil::Base64::'
N = 'fileutil::PathName::'
M = 'testutil::Measurement::'
D = 'testutil::DataMeasurement::'
F = 'testutil::MeasurementFile::'
V = 'testutil::'
KINDS = ['PlainText', 'StringText', 'IntegerNumeric', 'FloatNumeric', 'DoubleNumeric', 'BooleanNumeric', 'MeasurementFile']
R = 'testutil::RegressionTest::'
MEASURED = ['TextString', 'TextPlain', 'NumericInteger', 'NumericFloat', 'NumericDouble', 'NumericBoolean', 'FileTextPlain', 'FileImagePNG', 'FileImageJPEG']
REG = ['Regress', 'Measure', 'Visitor', 'Diff', 'Base64', 'PathName']
# contracts that the check of another property discharges
CB = {B + 'Encode': 'B02', B + 'Decode': 'B03', B + 'IsBase64': 'B03'}
CM = {M + 'SetContent': 'M01', M + 'GetAttributeType': 'M02', M + 'GetContent': 'M02'}
CM.update({D + f: 'M01' for f in ('SetContentAsData', 'GetContentAsData', 'GetContentAsDataSize', 'UpdateContentAsData', 'DeleteContentAsData')})
# contracts the regression test stands on
CR = dict(CB, **CM)
CR.update({'testutil::operator<<': 'E02', M + 'Print': 'E02', M + 'IsEqual': 'C01', D + 'IsEqual': 'C01', F + 'IsEqual': 'F01', F + 'Load': 'F01', 'testutil::NumericData::IsEqualTolerant': 'C02',
  'testutil::CreateDataMeasurement': 'M02', 'testutil::Diff': 'D01', N + 'Tail': 'P01', N + 'SearchPathList': 'P03', N + 'IsFile': 'P03', V + 'MeasurementVisitor::Visit': 'C03', V + 'CompareVisitor::Visit': 'C03',
  V + 'DifferenceVisitor::Visit': 'R02', M + 'AcceptVisitor': 'C03', 'testutil::start': 'X01', 'testutil::end': 'X01', 'testutil::data': 'X01', R + 'ReadXMLInput': 'X02', V + 'XMLParseData::~XMLParseData': 'X02',
  R + 'MeasurementTextPlain': 'R05', R + 'WriteXMLOutputStart': 'R05', R + 'WriteXMLOutputEnd': 'R05', R + 'GetCompareMode': 'R04', R + 'ParseAndRemoveArguments': 'R03', R + 'BeginMeasurement': 'R04', R + 'EndMeasurement': 'R04', R + 'ReadXMLInputFree': 'R04', R + 'CompareMeasurement': 'R02', R + 'UnmatchedMeasurement': 'R02', R + 'DifferenceMeasurement': 'R02'})
CR.update({'testutil::%s::AcceptVisitor' % k: 'C03' for k in KINDS})
PROPS = {
  'B01': dict(tus=['Base64'], fns=[B + 'Encode', B + 'Decode', B + 'SetAddNewLines', B + 'NewLinesOn', B + 'NeLinesOff'], theories=['base64'], harness='base64',
              theorems=['B64R.enc_dec'],
              note='Encode and Decode verified against the RFC 2045 text and its decoding; the round trip is the lemma enc_dec over the two contracts.'),
  'B02': dict(tus=['Base64'], fns=[B + 'Encode', B + 'SetAddNewLines', B + 'NewLinesOn', B + 'NeLinesOff', B + 'GetAddNewLines'], theories=['base64'], harness='base64',
              note='Encode verified against a definition of the RFC 2045 text with its line breaks.'),
  'B03': dict(tus=['Base64'], fns=[B + 'IsBase64', B + 'Decode', B + 'SetIgnoreInvalids', B + 'IgnoreInvalidsOn', B + 'IgnoreInvalidsOff', B + 'GetIgnoreInvalids'], theories=['base64'], harness='base64',
              note='IsBase64 and Decode verified against one definition of valid text and of the bytes it stands for.'),
  'P01': dict(tus=['PathName'], fns=[N + 'Tail', N + 'DirectoryName', N + 'Extension', N + 'GetPathType'], theories=['path'], harness='path', theorems=['PathR.parts_join'],
              note='Each function verified against the place of the last separator or period; that the parts give the path back is a lemma over the contracts.'),
  'P02': dict(tus=['PathName'], fns=[N + 'Append', N + 'GetPathType'], theories=['path'], harness='path', note='Append verified against the joined path.'),
  'P03': dict(tus=['PathName'], fns=[N + 'SearchPathList', N + 'Append', N + 'IsFile'], theories=['path', 'search'], harness='path',
              note='SearchPathList verified for every list and every state of the file system (constant during the search).'),
  'P04': dict(tus=['FileUtil', 'PathName'], fns=['fileutil::GetPathListFromColonSeparatedList', 'fileutil::GetPathFromEnviroment'], theories=['path'], harness='path', theorems=['SplitR.glue_all'],
              note='Both functions verified against the pieces between the colons; that they joined give the string back is a lemma.'),
  'E01': dict(tus=['Measure'], fns=[M + 'ApplyEscapeSequences'], theories=['escape'], harness='measure', theorems=['EscR.esc_safe', 'EscR.esc_injective'],
              note='ApplyEscapeSequences verified against the text escaped character by character; that nothing special is left and that no two strings meet are lemmas.'),
  'E02': dict(tus=['Measure'], fns=[M + 'Print', M + 'PrintStartTag', 'testutil::operator<<', M + 'GetElementTypeName'], theories=['meas'], harness='measure', cut={M + 'ApplyEscapeSequences': 'E01'},
              note='Print of every kind verified against the element made of kind, attributes and content.'),
  'M01': dict(tus=['Measure', 'Base64'], fns=[M + 'SetContent'] + [D + f for f in ('SetContentAsData', 'GetContentAsData', 'GetContentAsDataSize', 'UpdateContentAsData', 'DeleteContentAsData')], theories=['meas'], harness='measure', cut=CB,
              note='Setters and getters verified with the invariant that every cached block holds the bytes its content stands for; so the order of calls does not matter.'),
  'M02': dict(tus=['Measure', 'Base64'], fns=['testutil::CreateDataMeasurement', M + 'GetAttributeType', M + 'GetContent'] + [f for k in KINDS for f in ('testutil::%s::%s' % (k, k), 'testutil::%s::operator=' % k)], theories=['meas'], harness='measure', cut=CB,
              note='CreateDataMeasurement, and the copy constructor and assignment of each kind, verified.'),
  'C01': dict(tus=['Measure', 'Base64'], fns=[M + 'IsEqual'], theories=['meas'], harness='measure', cut=dict(CB, **dict(CM, **{F + 'IsEqual': 'F01', F + 'Load': 'F01'})),
              note='IsEqual of every kind verified against equality of name, type and decoded bytes, which is symmetric.'),
  'C02': dict(tus=['Measure'], fns=['testutil::NumericData::IsEqualTolerant', 'testutil::IntegerNumeric::GetValue', 'testutil::FloatNumeric::GetValue', 'testutil::DoubleNumeric::GetValue', 'testutil::BooleanNumeric::GetValue'], theories=['tol'], harness='measure', theorems=['Tol.closek_sym'],
              note='The four overrides verified against the documented formula over uninterpreted floating point operations; symmetry is a lemma.'),
  'C03': dict(tus=['Measure', 'Visitor', 'Diff', 'Base64'], fns=[M + 'AcceptVisitor', V + 'MeasurementVisitor::Visit', V + 'CompareVisitor::SetTolerance', V + 'CompareVisitor::GetTolerance'], theories=['tol'], harness='measure',
              cut=dict(CB, **dict(CM, **{M + 'IsEqual': 'C01', 'testutil::NumericData::IsEqualTolerant': 'C02', V + 'DifferenceVisitor::Visit': 'R02', 'testutil::Diff': 'D01', 'testutil::operator<<': 'E02'})),
              note='AcceptVisitor of every kind and every Visit overload of both visitors verified against the comparison that fits the kinds.'),
  'F01': dict(tus=['Measure', 'Base64'], fns=[F + 'Load', F + 'IsEqual'], theories=['meas'], harness='measure', cut=dict(CB, **dict(CM, **{'testutil::CreateDataMeasurement': 'M02', M + 'IsEqual': 'C01', D + 'IsEqual': 'C01'})),
              note='Load and IsEqual verified against the bytes of the file.'),
  'D01': dict(tus=['Diff'], fns=['testutil::GenerateEditList', 'testutil::Diff'], theories=['diff'], harness='diff', theorems=['DiffR.diff_applies', 'DiffR.empty_diff'],
              cut={'testutil::PrintEditList': 'D02', 'testutil::BuildLines': 'D03'},
              note='Diff and GenerateEditList verified: the changes are a chain that turns the lines of one text into the lines of the other; that making them gives exactly the second text is a lemma. FindEditMidPoint, which chooses where to divide, stays a bounded check.'),
  'D02': dict(tus=['Diff'], fns=['testutil::PrintLines', 'testutil::PrintEditList'], theories=['diff'], harness='diff',
              note='PrintLines and PrintEditList verified against the command format.'),
  'D03': dict(tus=['Diff'], fns=['testutil::BuildLines', 'testutil::hashString'], theories=['diff', 'path'], harness='diff',
              note='BuildLines verified for all texts: the tables hold exactly the lines, and two lines have the same number exactly if they are the same.'),
  'R02': dict(tus=REG, fns=[R + 'CompareMeasurement', R + 'UnmatchedMeasurement', R + 'DifferenceMeasurement', V + 'DifferenceVisitor::Visit'], theories=['meas', 'search', 'tol'], harness='regress', cut=CR,
              note='CompareMeasurement, what it reports with, and every Visit overload of the difference visitor verified for every baseline, measurement and tolerance.'),
  'X01': dict(tus=REG, fns=['testutil::start', 'testutil::end', 'testutil::data'], theories=['xml', 'meas'], harness='regress', theorems=['XmlR.document'], cut=CR,
              note='The three handlers verified against the state of a machine over events; that the machine, run over any document, ends with the measurements of the document is a lemma.'),
  'X02': dict(tus=REG, fns=[R + 'ReadXMLInput', V + 'XMLParseData::~XMLParseData'], theories=['xml', 'meas'], harness='regress', cut=CR,
              note='ReadXMLInput verified with ghost records of what the parser was fed; the calls the parser makes to the handlers are a loop of its own, verified against the contracts of the handlers.'),
  'R01': dict(tus=['ItkReg'] + REG, fns=[R + 'Main', 'Regression::Main'], theories=['args', 'path', 'search', 'xml'], harness='regress', cut=CR,
              assume=['the test body (RegressionTest::Test of the user) is assumed to use the test only through its public functions, whose effect on the count is what R02 verifies'],
              note='Main verified for every way the test body, setting up and ending can go: what is returned, that no exception gets out, and that the next run finds nothing left over.'),
  'R03': dict(tus=REG, fns=[R + 'ParseAndRemoveArguments'], theories=['args', 'path'], harness='regress', theorems=['ArgsR.one_run'], cut=CR,
              note='ParseAndRemoveArguments verified for argument vectors of every length, with the four loops that move the rest down.'),
  'R04': dict(tus=REG, fns=[R + 'GetCompareMode', R + 'BeginMeasurement', R + 'EndMeasurement', R + 'ReadXMLInputFree'], theories=['search', 'path', 'xml'], harness='regress', cut=CR,
              note='BeginMeasurement and EndMeasurement verified against the file the search over the paths finds and against the state of both files.'),
  'R05': dict(tus=REG, fns=[R + 'Measurement' + k for k in MEASURED] + [R + 'WriteXMLOutputStart', R + 'WriteXMLOutputEnd'], theories=['meas', 'search'], harness='regress', cut=CR,
              note='Each Measurement function verified: in record mode the element it writes, in compare mode the comparison it makes.'),
  'T01': dict(tus=REG + ['Pipe'], fns=['tfPipeToXMLRegressionTest::Test'], theories=['meas'], harness='pipe', cut=CR,
              assume=['the process library gives the pieces of the output in order, 0 when there are no more, and the state and exit value of the process (itksysProcess_*); the output of the command is finite; a piece is read before the next one is asked for'],
              note='Test verified against a model of the process library: the argument vector, the concatenation of all pieces, the measurement made of it, and the result for each state the process can end in.'),
  'I01': dict(tus=['ItkReg'] + REG, fns=['Regression::GenerateFileName', 'Regression::Main'], theories=['obj'], harness='itk', theorems=['FnameR.again', 'FnameR.under_root'], cut=dict(CR, **{R + 'Main': 'R01', 'fileutil::PathName::Append': 'P02'}),
              assume=['the digits of two different numbers in base 16 are different', 'there is at least one argument, and fewer than 2^32-1 names have been generated'],
              note='GenerateFileName verified for every argument list, extension, root and count; Main for what it keeps of the command line; that two names differ is a lemma over the contract.'),
  'I03': dict(tus=['ItkInst'] + REG, fns=['Regression::MeasurementInsight' + k for k in ('Size', 'Index', 'Region', 'Point', 'Vector', 'FixedArray', 'Matrix')], theories=['obj'], harness='itk', cut=CR,
              assume=['the templates are instantiated by /verif/tu/itkinst.cpp; the numbers they are instantiated with are any numbers up to 32767', 'component access of Size, Index, ImageRegion, Point, Vector, FixedArray and Matrix gives the component (ITK)'],
              note='Each of the seven templates verified, for every dimension, against a ghost record of the numeric measurements made.'),
}
# harness -> (sources in /repo, extra flags, libraries)
TF = ['TestingFramework/tfBase64.cpp', 'TestingFramework/tfMeasurement.cpp', 'TestingFramework/tfMeasurementVisitor.cpp', 'TestingFramework/tfRegressionTest.cpp',
      'TestingFramework/tfDiff.cpp', 'FileUtilities/PathName.cpp', 'FileUtilities/FileUtilities.cpp']
MEAS = [s for s in TF if 'Regression' not in s]
ITKLIBS = ['-lexpat'] + ['-l:libITK%s-5.3.so.1' % x for x in ('Common', 'IOImageBase', 'IOMeta', 'IOPNG', 'Transform', 'Statistics', 'Mesh', 'Path', 'SpatialObjects', 'VNLInstantiation')] + ['-l:libitkvnl_algo-5.3.so.1', '-l:libitkvnl-5.3.so.1', '-l:libitksys-5.3.so.1']
HARNESS = {
  'itk': (TF + ['itktf/itktfRegression.cxx', 'itktf/itktfCompareVisitor.cxx', 'itktf/itktfDifferenceVisitor.cxx'], ['-std=c++17', '-isystem', '/usr/include/ITK-5.3'], ITKLIBS),
  'regress': (TF, ['-Wl,--wrap=XML_GetBuffer,--wrap=XML_ParseBuffer,--wrap=XML_Parse,--wrap=access'], ['-lexpat']),
  'pipe': (TF, ['-isystem', '/usr/include/ITK-5.3'], ['-lexpat', '-l:libitksys-5.3.so.1']),
  'diff': (['TestingFramework/tfDiff.cpp'], [], []),
  'measure': (MEAS, [], []),
  'path': (['FileUtilities/PathName.cpp', 'FileUtilities/FileUtilities.cpp'], [], []),
  'base64': (['TestingFramework/tfBase64.cpp'], [], []),
}

macro TOL(v): if hget h_CompareVisitor_tolerantCompare @v then hget h_CompareVisitor_relativeTolerance @v else d_of_int 0
macro CBASE(v): (hget h_CompareVisitor__baseline @v)
macro DBASE(v): (hget h_DifferenceVisitor__baseline @v)
macro DOS(v): (hget h_DifferenceVisitor_os @v)
macro EXACT(v, m): $SAME($CBASE(@v), @m)
macro NUMERIC(v, m): 3 <= hget dyn $CBASE(@v) <= 6 /\ (if feq ($TOL(@v)) (d_of_int 0) then $EXACT(@v, @m) else hget dyn $CBASE(@v) = hget dyn @m /\ closek (hget dyn @m) ($NCONT($CBASE(@v))) ($NCONT(@m)) ($TOL(@v)))
macro REST: $LIVE(dyn) /\ $LIVE(h_Measurement_applyEscapeSequences) /\ $LIVE(h_DataMeasurement_encoding) /\ $LIVE(h_DataMeasurement_compression) /\ $LIVE(h_TextData_content) /\ $LIVE(h_NumericData_content) /\ $LIVE(h_MeasurementFile_fileName) /\ $LIVE(h_MeasurementFile_type)
macro VREADY(v, m): 11 <= hget dyn @v <= 12 /\ 1 <= hget dyn @m <= 7 /\ $HOK /\ (hget dyn @v = 12 -> 1 <= hget dyn $CBASE(@v) <= 7) /\ (hget dyn @v = 11 -> 1 <= hget dyn $DBASE(@v) <= 7 /\ $DBASE(@v) <> @m /\ ($DOS(@v) <= 3 \/ hget os_live $DOS(@v)))
macro OSBUT(o): (forall k [hget os_txt k]. k <> @o -> k <= 3 \/ hget (old os_live) k -> hget os_txt k = hget (old os_txt) k) /\ (forall k [hget os_prec k]. k <= 3 \/ hget (old os_live) k -> hget os_prec k = hget (old os_prec) k) /\ (forall k [hget os_live k]. hget (old os_live) k -> hget os_live k)
macro WROTE(o, s): hget os_txt @o = scat (hget (old os_txt) @o) (@s)
macro NL(s): scat (@s) LIT("\n")
macro PAIR(v, m): h_Measurement_name = hset (hset (old h_Measurement_name) $DBASE(@v) (scat LIT("Baseline ") (hget (old h_Measurement_name) $DBASE(@v)))) @m (scat LIT("Test ") (hget (old h_Measurement_name) @m)) /\ $WROTE($DOS(@v), scat ($PRINTED(@m)) (scat LIT("\n") (scat ($PRINTED($DBASE(@v))) LIT("\n"))))
macro DIFFED(v, m): $LIVE(h_Measurement_name) /\ (exists d. is_diff ($CONT($DBASE(@v))) ($CONT(@m)) d /\ $WROTE($DOS(@v), scat (printed LIT("DartMeasurement") true (scat LIT("Difference ") (hget (old h_Measurement_name) @m)) LIT("text/plain") LIT("none") LIT("none") d) LIT("\n")))
macro FILES(v, m): hget dyn @v = 12 /\ (hget dyn $CBASE(@v) = 7 \/ hget dyn @m = 7)

fn testutil::MeasurementVisitor::Visit(m) of (Measurement &)
virtual
use obj.Obj obj.In obj.Out obj.Cat fl.Fl fl.Text tol.Tol meas.MeasI meas.MeasD meas.MeasT diff.DiffI
requires "measurements": $VREADY(this, m)
writes dyn msz mem_b is_data is_pos is_eof is_fail is_bad is_live h_Measurement_name h_Measurement_applyEscapeSequences h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName os_txt os_prec os_live h_CompareVisitor_compareResults
ensures [C03] "the verdict": hget dyn this = 12 -> (hget h_CompareVisitor_compareResults this <-> $EXACT(this, m))
ensures "no other verdict": forall k [hget h_CompareVisitor_compareResults k]. k <> this -> hget h_CompareVisitor_compareResults k = hget (old h_CompareVisitor_compareResults) k
ensures [C03] "a comparison changes and prints nothing": hget dyn this = 12 -> $LIVE(h_Measurement_name) /\ os_txt = old os_txt /\ os_prec = old os_prec /\ os_live = old os_live
ensures [R02] "a difference is reported": hget dyn this = 11 -> $PAIR(this, m)
ensures [R02] "only on its stream": hget dyn this = 11 -> $OSBUT($DOS(this))
ensures "all else is unchanged": $REST
ensures "cached data stay right": $HOK
raises Cxx: $FILES(this, m) /\ $OLDOBJ /\ $HOK /\ os_txt = old os_txt /\ os_prec = old os_prec /\ os_live = old os_live

fn testutil::MeasurementVisitor::Visit(m) of (MeasurementFile &)
virtual
use obj.Obj obj.In obj.Out obj.Cat fl.Fl fl.Text tol.Tol meas.MeasI meas.MeasD meas.MeasT diff.DiffI
requires "measurements": $VREADY(this, m)
writes dyn msz mem_b is_data is_pos is_eof is_fail is_bad is_live h_Measurement_name h_Measurement_applyEscapeSequences h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName os_txt os_prec os_live h_CompareVisitor_compareResults
ensures [C03] "the verdict": hget dyn this = 12 -> (hget h_CompareVisitor_compareResults this <-> $EXACT(this, m))
ensures "no other verdict": forall k [hget h_CompareVisitor_compareResults k]. k <> this -> hget h_CompareVisitor_compareResults k = hget (old h_CompareVisitor_compareResults) k
ensures [C03] "a comparison changes and prints nothing": hget dyn this = 12 -> $LIVE(h_Measurement_name) /\ os_txt = old os_txt /\ os_prec = old os_prec /\ os_live = old os_live
ensures [R02] "a difference is reported": hget dyn this = 11 -> $PAIR(this, m)
ensures [R02] "only on its stream": hget dyn this = 11 -> $OSBUT($DOS(this))
ensures "all else is unchanged": $REST
ensures "cached data stay right": $HOK
raises Cxx: $FILES(this, m) /\ $OLDOBJ /\ $HOK /\ os_txt = old os_txt /\ os_prec = old os_prec /\ os_live = old os_live

fn testutil::MeasurementVisitor::Visit(m) of (DataMeasurement &)
virtual
use obj.Obj obj.In obj.Out obj.Cat fl.Fl fl.Text tol.Tol meas.MeasI meas.MeasD meas.MeasT diff.DiffI
requires "measurements": $VREADY(this, m)
writes dyn msz mem_b is_data is_pos is_eof is_fail is_bad is_live h_Measurement_name h_Measurement_applyEscapeSequences h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName os_txt os_prec os_live h_CompareVisitor_compareResults
ensures [C03] "the verdict": hget dyn this = 12 -> (hget h_CompareVisitor_compareResults this <-> $EXACT(this, m))
ensures "no other verdict": forall k [hget h_CompareVisitor_compareResults k]. k <> this -> hget h_CompareVisitor_compareResults k = hget (old h_CompareVisitor_compareResults) k
ensures [C03] "a comparison changes and prints nothing": hget dyn this = 12 -> $LIVE(h_Measurement_name) /\ os_txt = old os_txt /\ os_prec = old os_prec /\ os_live = old os_live
ensures [R02] "a difference is reported": hget dyn this = 11 -> $PAIR(this, m)
ensures [R02] "only on its stream": hget dyn this = 11 -> $OSBUT($DOS(this))
ensures "all else is unchanged": $REST
ensures "cached data stay right": $HOK
raises Cxx: $FILES(this, m) /\ $OLDOBJ /\ $HOK /\ os_txt = old os_txt /\ os_prec = old os_prec /\ os_live = old os_live

fn testutil::MeasurementVisitor::Visit(m) of (TextData &)
virtual
use obj.Obj obj.In obj.Out obj.Cat fl.Fl fl.Text tol.Tol meas.MeasI meas.MeasD meas.MeasT diff.DiffI
requires "measurements": $VREADY(this, m)
writes dyn msz mem_b is_data is_pos is_eof is_fail is_bad is_live h_Measurement_name h_Measurement_applyEscapeSequences h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName os_txt os_prec os_live h_CompareVisitor_compareResults
ensures [C03] "the verdict": hget dyn this = 12 -> (hget h_CompareVisitor_compareResults this <-> $EXACT(this, m))
ensures "no other verdict": forall k [hget h_CompareVisitor_compareResults k]. k <> this -> hget h_CompareVisitor_compareResults k = hget (old h_CompareVisitor_compareResults) k
ensures [C03] "a comparison changes and prints nothing": hget dyn this = 12 -> $LIVE(h_Measurement_name) /\ os_txt = old os_txt /\ os_prec = old os_prec /\ os_live = old os_live
ensures [R02] "a difference is reported": hget dyn this = 11 -> $PAIR(this, m)
ensures [R02] "only on its stream": hget dyn this = 11 -> $OSBUT($DOS(this))
ensures "all else is unchanged": $REST
ensures "cached data stay right": $HOK
raises Cxx: $FILES(this, m) /\ $OLDOBJ /\ $HOK /\ os_txt = old os_txt /\ os_prec = old os_prec /\ os_live = old os_live

fn testutil::MeasurementVisitor::Visit(m) of (PlainText &)
virtual
use obj.Obj obj.In obj.Out obj.Cat fl.Fl fl.Text tol.Tol meas.MeasI meas.MeasD meas.MeasT diff.DiffI
requires "measurements": $VREADY(this, m)
writes dyn msz mem_b is_data is_pos is_eof is_fail is_bad is_live h_Measurement_name h_Measurement_applyEscapeSequences h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName os_txt os_prec os_live h_CompareVisitor_compareResults
ensures [C03] "the verdict": hget dyn this = 12 -> (hget h_CompareVisitor_compareResults this <-> $EXACT(this, m))
ensures "no other verdict": forall k [hget h_CompareVisitor_compareResults k]. k <> this -> hget h_CompareVisitor_compareResults k = hget (old h_CompareVisitor_compareResults) k
ensures [C03] "a comparison changes and prints nothing": hget dyn this = 12 -> $LIVE(h_Measurement_name) /\ os_txt = old os_txt /\ os_prec = old os_prec /\ os_live = old os_live
ensures [R02] "a difference is reported": hget dyn this = 11 -> $DIFFED(this, m)
ensures [R02] "only on its stream": hget dyn this = 11 -> $OSBUT($DOS(this))
ensures "all else is unchanged": $REST
ensures "cached data stay right": $HOK
raises Cxx: $FILES(this, m) /\ $OLDOBJ /\ $HOK /\ os_txt = old os_txt /\ os_prec = old os_prec /\ os_live = old os_live

fn testutil::MeasurementVisitor::Visit(m) of (StringText &)
virtual
use obj.Obj obj.In obj.Out obj.Cat fl.Fl fl.Text tol.Tol meas.MeasI meas.MeasD meas.MeasT diff.DiffI
requires "measurements": $VREADY(this, m)
writes dyn msz mem_b is_data is_pos is_eof is_fail is_bad is_live h_Measurement_name h_Measurement_applyEscapeSequences h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName os_txt os_prec os_live h_CompareVisitor_compareResults
ensures [C03] "the verdict": hget dyn this = 12 -> (hget h_CompareVisitor_compareResults this <-> $EXACT(this, m))
ensures "no other verdict": forall k [hget h_CompareVisitor_compareResults k]. k <> this -> hget h_CompareVisitor_compareResults k = hget (old h_CompareVisitor_compareResults) k
ensures [C03] "a comparison changes and prints nothing": hget dyn this = 12 -> $LIVE(h_Measurement_name) /\ os_txt = old os_txt /\ os_prec = old os_prec /\ os_live = old os_live
ensures [R02] "a difference is reported": hget dyn this = 11 -> $PAIR(this, m)
ensures [R02] "only on its stream": hget dyn this = 11 -> $OSBUT($DOS(this))
ensures "all else is unchanged": $REST
ensures "cached data stay right": $HOK
raises Cxx: $FILES(this, m) /\ $OLDOBJ /\ $HOK /\ os_txt = old os_txt /\ os_prec = old os_prec /\ os_live = old os_live

fn testutil::MeasurementVisitor::Visit(m) of (NumericData &)
virtual
use obj.Obj obj.In obj.Out obj.Cat fl.Fl fl.Text tol.Tol meas.MeasI meas.MeasD meas.MeasT diff.DiffI
requires "measurements": $VREADY(this, m)
writes dyn msz mem_b is_data is_pos is_eof is_fail is_bad is_live h_Measurement_name h_Measurement_applyEscapeSequences h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName os_txt os_prec os_live h_CompareVisitor_compareResults
ensures [C03] "the verdict": hget dyn this = 12 -> (hget h_CompareVisitor_compareResults this <-> $NUMERIC(this, m))
ensures "no other verdict": forall k [hget h_CompareVisitor_compareResults k]. k <> this -> hget h_CompareVisitor_compareResults k = hget (old h_CompareVisitor_compareResults) k
ensures [C03] "a comparison changes and prints nothing": hget dyn this = 12 -> $LIVE(h_Measurement_name) /\ os_txt = old os_txt /\ os_prec = old os_prec /\ os_live = old os_live
ensures [R02] "a difference is reported": hget dyn this = 11 -> $PAIR(this, m)
ensures [R02] "only on its stream": hget dyn this = 11 -> $OSBUT($DOS(this))
ensures "all else is unchanged": $REST
ensures "cached data stay right": $HOK
raises Cxx: $FILES(this, m) /\ $OLDOBJ /\ $HOK /\ os_txt = old os_txt /\ os_prec = old os_prec /\ os_live = old os_live

fn testutil::MeasurementVisitor::Visit(m) of (IntegerNumeric &)
virtual
use obj.Obj obj.In obj.Out obj.Cat fl.Fl fl.Text tol.Tol meas.MeasI meas.MeasD meas.MeasT diff.DiffI
requires "measurements": $VREADY(this, m)
writes dyn msz mem_b is_data is_pos is_eof is_fail is_bad is_live h_Measurement_name h_Measurement_applyEscapeSequences h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName os_txt os_prec os_live h_CompareVisitor_compareResults
ensures [C03] "the verdict": hget dyn this = 12 -> (hget h_CompareVisitor_compareResults this <-> $NUMERIC(this, m))
ensures "no other verdict": forall k [hget h_CompareVisitor_compareResults k]. k <> this -> hget h_CompareVisitor_compareResults k = hget (old h_CompareVisitor_compareResults) k
ensures [C03] "a comparison changes and prints nothing": hget dyn this = 12 -> $LIVE(h_Measurement_name) /\ os_txt = old os_txt /\ os_prec = old os_prec /\ os_live = old os_live
ensures [R02] "a difference is reported": hget dyn this = 11 -> $PAIR(this, m)
ensures [R02] "only on its stream": hget dyn this = 11 -> $OSBUT($DOS(this))
ensures "all else is unchanged": $REST
ensures "cached data stay right": $HOK
raises Cxx: $FILES(this, m) /\ $OLDOBJ /\ $HOK /\ os_txt = old os_txt /\ os_prec = old os_prec /\ os_live = old os_live

fn testutil::MeasurementVisitor::Visit(m) of (FloatNumeric &)
virtual
use obj.Obj obj.In obj.Out obj.Cat fl.Fl fl.Text tol.Tol meas.MeasI meas.MeasD meas.MeasT diff.DiffI
requires "measurements": $VREADY(this, m)
writes dyn msz mem_b is_data is_pos is_eof is_fail is_bad is_live h_Measurement_name h_Measurement_applyEscapeSequences h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName os_txt os_prec os_live h_CompareVisitor_compareResults
ensures [C03] "the verdict": hget dyn this = 12 -> (hget h_CompareVisitor_compareResults this <-> $NUMERIC(this, m))
ensures "no other verdict": forall k [hget h_CompareVisitor_compareResults k]. k <> this -> hget h_CompareVisitor_compareResults k = hget (old h_CompareVisitor_compareResults) k
ensures [C03] "a comparison changes and prints nothing": hget dyn this = 12 -> $LIVE(h_Measurement_name) /\ os_txt = old os_txt /\ os_prec = old os_prec /\ os_live = old os_live
ensures [R02] "a difference is reported": hget dyn this = 11 -> $PAIR(this, m)
ensures [R02] "only on its stream": hget dyn this = 11 -> $OSBUT($DOS(this))
ensures "all else is unchanged": $REST
ensures "cached data stay right": $HOK
raises Cxx: $FILES(this, m) /\ $OLDOBJ /\ $HOK /\ os_txt = old os_txt /\ os_prec = old os_prec /\ os_live = old os_live

fn testutil::MeasurementVisitor::Visit(m) of (DoubleNumeric &)
virtual
use obj.Obj obj.In obj.Out obj.Cat fl.Fl fl.Text tol.Tol meas.MeasI meas.MeasD meas.MeasT diff.DiffI
requires "measurements": $VREADY(this, m)
writes dyn msz mem_b is_data is_pos is_eof is_fail is_bad is_live h_Measurement_name h_Measurement_applyEscapeSequences h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName os_txt os_prec os_live h_CompareVisitor_compareResults
ensures [C03] "the verdict": hget dyn this = 12 -> (hget h_CompareVisitor_compareResults this <-> $NUMERIC(this, m))
ensures "no other verdict": forall k [hget h_CompareVisitor_compareResults k]. k <> this -> hget h_CompareVisitor_compareResults k = hget (old h_CompareVisitor_compareResults) k
ensures [C03] "a comparison changes and prints nothing": hget dyn this = 12 -> $LIVE(h_Measurement_name) /\ os_txt = old os_txt /\ os_prec = old os_prec /\ os_live = old os_live
ensures [R02] "a difference is reported": hget dyn this = 11 -> $PAIR(this, m)
ensures [R02] "only on its stream": hget dyn this = 11 -> $OSBUT($DOS(this))
ensures "all else is unchanged": $REST
ensures "cached data stay right": $HOK
raises Cxx: $FILES(this, m) /\ $OLDOBJ /\ $HOK /\ os_txt = old os_txt /\ os_prec = old os_prec /\ os_live = old os_live

fn testutil::MeasurementVisitor::Visit(m) of (BooleanNumeric &)
virtual
use obj.Obj obj.In obj.Out obj.Cat fl.Fl fl.Text tol.Tol meas.MeasI meas.MeasD meas.MeasT diff.DiffI
requires "measurements": $VREADY(this, m)
writes dyn msz mem_b is_data is_pos is_eof is_fail is_bad is_live h_Measurement_name h_Measurement_applyEscapeSequences h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName os_txt os_prec os_live h_CompareVisitor_compareResults
ensures [C03] "the verdict": hget dyn this = 12 -> (hget h_CompareVisitor_compareResults this <-> $NUMERIC(this, m))
ensures "no other verdict": forall k [hget h_CompareVisitor_compareResults k]. k <> this -> hget h_CompareVisitor_compareResults k = hget (old h_CompareVisitor_compareResults) k
ensures [C03] "a comparison changes and prints nothing": hget dyn this = 12 -> $LIVE(h_Measurement_name) /\ os_txt = old os_txt /\ os_prec = old os_prec /\ os_live = old os_live
ensures [R02] "a difference is reported": hget dyn this = 11 -> $PAIR(this, m)
ensures [R02] "only on its stream": hget dyn this = 11 -> $OSBUT($DOS(this))
ensures "all else is unchanged": $REST
ensures "cached data stay right": $HOK
raises Cxx: $FILES(this, m) /\ $OLDOBJ /\ $HOK /\ os_txt = old os_txt /\ os_prec = old os_prec /\ os_live = old os_live

fn testutil::Measurement::AcceptVisitor(visitor)
virtual
use obj.Obj obj.In obj.Out obj.Cat fl.Fl fl.Text tol.Tol meas.MeasI meas.MeasD meas.MeasT diff.DiffI
requires "measurements": $VREADY(visitor, this)
writes dyn msz mem_b is_data is_pos is_eof is_fail is_bad is_live h_Measurement_name h_Measurement_applyEscapeSequences h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName os_txt os_prec os_live h_CompareVisitor_compareResults
ensures [C03] "the verdict": hget dyn visitor = 12 -> (hget h_CompareVisitor_compareResults visitor <-> (if 3 <= hget dyn this <= 6 then $NUMERIC(visitor, this) else $EXACT(visitor, this)))
ensures "no other verdict": forall k [hget h_CompareVisitor_compareResults k]. k <> visitor -> hget h_CompareVisitor_compareResults k = hget (old h_CompareVisitor_compareResults) k
ensures [C03] "a comparison changes and prints nothing": hget dyn visitor = 12 -> $LIVE(h_Measurement_name) /\ os_txt = old os_txt /\ os_prec = old os_prec /\ os_live = old os_live
ensures [R02] "a difference is reported": hget dyn visitor = 11 -> (if hget dyn this = 1 then $DIFFED(visitor, this) else $PAIR(visitor, this))
ensures [R02] "only on its stream": hget dyn visitor = 11 -> $OSBUT($DOS(visitor))
ensures "all else is unchanged": $REST
ensures "cached data stay right": $HOK
raises Cxx: $FILES(visitor, this) /\ $OLDOBJ /\ $HOK /\ os_txt = old os_txt /\ os_prec = old os_prec /\ os_live = old os_live

fn testutil::CompareVisitor::SetTolerance(tolerance)
use fl.Fl obj.Obj
requires "a comparison": hget dyn this = 12
writes h_CompareVisitor_tolerantCompare h_CompareVisitor_relativeTolerance
ensures [C03] "the tolerance, zero is exact": ($TOL(this)) = (if feq tolerance (d_of_int 0) then d_of_int 0 else tolerance)
ensures "no other": (forall k [hget h_CompareVisitor_tolerantCompare k]. k <> this -> hget h_CompareVisitor_tolerantCompare k = hget (old h_CompareVisitor_tolerantCompare) k) /\ (forall k [hget h_CompareVisitor_relativeTolerance k]. k <> this -> hget h_CompareVisitor_relativeTolerance k = hget (old h_CompareVisitor_relativeTolerance) k)

fn testutil::CompareVisitor::GetTolerance() const
use fl.Fl obj.Obj
requires "a comparison": hget dyn this = 12
ensures [C03] "the tolerance": result = ($TOL(this))

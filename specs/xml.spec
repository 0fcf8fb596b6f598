macro PDEPTH(p): hget h_XMLParseData_depth @p
macro PM(p): hget h_XMLParseData_m @p
macro PTEXT(p): hget h_XMLParseData_data @p
macro PLIST(p): hget h_XMLParseData_measurements @p
macro LISTOK(l): (forall i [lget @l i]. 0 <= i < llen @l -> 1 <= hget dyn (lget @l i) <= 7) /\ (forall i j [lget @l i, lget @l j]. 0 <= i < j < llen @l -> lget @l i <> lget @l j)
macro XINV(p): hget dyn @p = 21 /\ 0 <= $PDEPTH(@p) <= 2147483647 /\ ($PDEPTH(@p) <= 1 -> $PM(@p) = 0 /\ $PTEXT(@p) = sempty) /\ ($PM(@p) <> 0 -> 1 <= hget dyn $PM(@p) <= 7 /\ forall i [lget ($PLIST(@p)) i]. 0 <= i < llen ($PLIST(@p)) -> lget ($PLIST(@p)) i <> $PM(@p)) /\ $LISTOK(($PLIST(@p)))
macro ATTRS(a): hget mem_cstr (@a).blk
macro ATTR(a, nm, d): lastattr (old ($ATTRS(@a))) (@a).off (nattr (old ($ATTRS(@a))) (@a).off) @nm @d
macro OPENS(p, e, t): old ($PDEPTH(@p)) = 1 /\ cval @e = @t
macro DKIND(t): dkind @t
macro XLIVE: $LIVE(dyn) /\ $LIVE(h_Measurement_applyEscapeSequences) /\ $LIVE(h_Measurement_name) /\ $LIVE(h_DataMeasurement_encoding) /\ $LIVE(h_DataMeasurement_compression) /\ $LIVE(h_TextData_content) /\ $LIVE(h_NumericData_content) /\ $LIVE(h_MeasurementFile_fileName) /\ $LIVE(h_MeasurementFile_type)

fn testutil::start(pt, el, attr)
entry dyn_wf_ ();
use obj.Obj meas.MeasI meas.MeasL xml.Xml
model pt: XMLParseData
requires "the state of the parse": $XINV(pt) /\ $PDEPTH(pt) < 2147483647
requires "an element name": el <> CNull
requires "its attributes": attrs_ok ($ATTRS(attr)) attr.off /\ inblk msz attr (2 * nattr ($ATTRS(attr)) attr.off + 1)
requires "cached data are right": $HOK
writes dyn h_Measurement_applyEscapeSequences h_Measurement_name h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName h_MeasurementFile_type h_XMLParseData_depth h_XMLParseData_m
loop 1
before let ghost ref k = 0 in
invariant "place": i = 2 * k /\ 0 <= k <= nattr ($ATTRS(attr)) attr.off
invariant "the kind so far": dm <> 0 -> hget (old dyn) dm = 0 /\ hget dyn dm = $DKIND((lastattr ($ATTRS(attr)) attr.off k LIT("type") sempty))
invariant "no type so far": dm = 0 -> lastattr ($ATTRS(attr)) attr.off k LIT("type") sempty = sempty
invariant "defaults": dm <> 0 -> $NAME(dm) = sempty /\ hget h_DataMeasurement_encoding dm = LIT("none") /\ hget h_DataMeasurement_compression dm = LIT("none") /\ (hget h_DataMeasurement_data dm).blk = 0 /\ hget h_DataMeasurement_dataSize dm = 0
invariant "the other objects stay": $XLIVE
invariant "cached data stay right": $HOK
variant nattr ($ATTRS(attr)) attr.off - k
end k <- k + 1;
loop 2
before let ghost ref k = 0 in
invariant "no cached data": (hget h_DataMeasurement_data dm).blk = 0 /\ hget h_DataMeasurement_dataSize dm = 0
invariant "place": i = 2 * k /\ 0 <= k <= nattr ($ATTRS(attr)) attr.off
invariant "the attributes so far": $NAME(dm) = lastattr ($ATTRS(attr)) attr.off k LIT("name") sempty /\ hget h_DataMeasurement_encoding dm = lastattr ($ATTRS(attr)) attr.off k LIT("encoding") LIT("none") /\ hget h_DataMeasurement_compression dm = lastattr ($ATTRS(attr)) attr.off k LIT("compression") LIT("none")
invariant "the other objects stay": $XLIVE
invariant "cached data stay right": $HOK
variant nattr ($ATTRS(attr)) attr.off - k
end k <- k + 1;
loop 3
before let ghost ref k = 0 in
invariant "place": i = 2 * k /\ 0 <= k <= nattr ($ATTRS(attr)) attr.off
invariant "the attributes so far": $NAME(mf) = lastattr ($ATTRS(attr)) attr.off k LIT("name") LIT("unknown") /\ hget h_MeasurementFile_type mf = lastattr ($ATTRS(attr)) attr.off k LIT("type") LIT("text/plain")
invariant "the other objects stay": $XLIVE
invariant "cached data stay right": $HOK
variant nattr ($ATTRS(attr)) attr.off - k
end k <- k + 1;
ensures [X01] "one level deeper": h_XMLParseData_depth = hset (old h_XMLParseData_depth) pt (old ($PDEPTH(pt)) + 1)
ensures [X01] "no other element starts a measurement": not ($OPENS(pt, el, LIT("DartMeasurement"))) -> not ($OPENS(pt, el, LIT("DartMeasurementFile"))) -> h_XMLParseData_m = old h_XMLParseData_m /\ dyn = old dyn
ensures [X01] "a measurement element starts one of the kind of its type": $OPENS(pt, el, LIT("DartMeasurement")) -> h_XMLParseData_m = hset (old h_XMLParseData_m) pt ($PM(pt)) /\ hget (old dyn) ($PM(pt)) = 0 /\ hget dyn ($PM(pt)) = $DKIND(($ATTR(attr, LIT("type"), sempty)))
ensures [X01] "with its attributes": $OPENS(pt, el, LIT("DartMeasurement")) -> $NAME(($PM(pt))) = $ATTR(attr, LIT("name"), sempty) /\ hget h_DataMeasurement_encoding ($PM(pt)) = $ATTR(attr, LIT("encoding"), LIT("none")) /\ hget h_DataMeasurement_compression ($PM(pt)) = $ATTR(attr, LIT("compression"), LIT("none"))
ensures [X01] "a file element starts a file measurement": $OPENS(pt, el, LIT("DartMeasurementFile")) -> h_XMLParseData_m = hset (old h_XMLParseData_m) pt ($PM(pt)) /\ hget (old dyn) ($PM(pt)) = 0 /\ hget dyn ($PM(pt)) = 7
ensures [X01] "with its name and type": $OPENS(pt, el, LIT("DartMeasurementFile")) -> $NAME(($PM(pt))) = $ATTR(attr, LIT("name"), LIT("unknown")) /\ hget h_MeasurementFile_type ($PM(pt)) = $ATTR(attr, LIT("type"), LIT("text/plain"))
ensures [X01] "the other objects stay": $XLIVE
ensures "the state of the parse": $XINV(pt)
ensures "cached data stay right": $HOK

fn testutil::end(pt, el)
use obj.Obj meas.MeasI meas.MeasL
model pt: XMLParseData
requires "the state of the parse": $XINV(pt) /\ $PDEPTH(pt) >= 1
requires "cached data are right": $HOK
writes dyn msz h_DataMeasurement_data h_DataMeasurement_dataSize h_TextData_content h_NumericData_content h_MeasurementFile_fileName h_XMLParseData_depth h_XMLParseData_m h_XMLParseData_data h_XMLParseData_measurements
ensures [X01] "one level up": h_XMLParseData_depth = hset (old h_XMLParseData_depth) pt (old ($PDEPTH(pt)) - 1)
ensures [X01] "its text is used up": h_XMLParseData_data = hset (old h_XMLParseData_data) pt sempty /\ h_XMLParseData_m = hset (old h_XMLParseData_m) pt 0
ensures [X01] "the end of a measurement element appends it": old ($PDEPTH(pt)) = 2 -> old ($PM(pt)) <> 0 -> h_XMLParseData_measurements = hset (old h_XMLParseData_measurements) pt (lsnoc (old ($PLIST(pt))) (old ($PM(pt)))) /\ dyn = old dyn
ensures [X01] "with its character data": old ($PDEPTH(pt)) = 2 -> old ($PM(pt)) <> 0 -> $CONT((old ($PM(pt)))) = old ($PTEXT(pt))
ensures [X01] "the end of any other element appends nothing": old ($PDEPTH(pt)) <> 2 \/ old ($PM(pt)) = 0 -> h_XMLParseData_measurements = old h_XMLParseData_measurements
ensures [X01] "the other objects stay": forall k [hget dyn k]. k <> old ($PM(pt)) -> hget dyn k = hget (old dyn) k
ensures [X01] "their contents stay": forall k. k <> old ($PM(pt)) -> hget h_TextData_content k = hget (old h_TextData_content) k /\ hget h_NumericData_content k = hget (old h_NumericData_content) k /\ hget h_MeasurementFile_fileName k = hget (old h_MeasurementFile_fileName) k
ensures "the state of the parse": $XINV(pt)
ensures "cached data stay right": $HOK

fn testutil::data(pt, s, len)
use obj.Obj
model pt: XMLParseData
model s: bytes
requires "the state of the parse": $XINV(pt) /\ $PDEPTH(pt) >= 1
requires "the characters": 0 <= len /\ (len = 0 \/ inblk msz s len)
writes h_XMLParseData_data
ensures [X01] "character data of an element inside the document element are kept": h_XMLParseData_data = (if $PDEPTH(pt) = 2 then hset (old h_XMLParseData_data) pt (scat (old ($PTEXT(pt))) (bstr (hget mem_b s.blk) s.off len)) else old h_XMLParseData_data)
ensures "the state of the parse": $XINV(pt)

macro KEPT(h): forall k [hget @h k]. hget xml_born k > 0 -> hget @h k = hget (old @h) k
macro KEPTALL: $KEPT(dyn) /\ $KEPT(h_Measurement_applyEscapeSequences) /\ $KEPT(h_Measurement_name) /\ $KEPT(h_DataMeasurement_encoding) /\ $KEPT(h_DataMeasurement_compression) /\ $KEPT(h_TextData_content) /\ $KEPT(h_NumericData_content) /\ $KEPT(h_MeasurementFile_fileName) /\ $KEPT(h_MeasurementFile_type)
macro OWNED: (forall k [hget dyn k]. hget xml_born k > 0 -> hget dyn k > 0) /\ ($PM(xml_user) <> 0 -> hget xml_born ($PM(xml_user)) <= 0) /\ (forall i [lget ($PLIST(xml_user)) i]. 0 <= i < llen ($PLIST(xml_user)) -> hget xml_born (lget ($PLIST(xml_user)) i) <= 0)

# deletes what the list holds and the measurement begun
fn testutil::XMLParseData::~XMLParseData()
use obj.Obj
requires "the list": $LISTOK(($PLIST(this)))
requires "the measurement begun": $PM(this) = 0 \/ 1 <= hget dyn ($PM(this)) <= 7 /\ forall i [lget ($PLIST(this)) i]. 0 <= i < llen ($PLIST(this)) -> lget ($PLIST(this)) i <> $PM(this)
writes dyn
loop 1
invariant "place": 0 <= i <= llen ($PLIST(this))
invariant "what is left": forall j [lget ($PLIST(this)) j]. i <= j < llen ($PLIST(this)) -> 1 <= hget dyn (lget ($PLIST(this)) j) <= 7
invariant "the others": forall k [hget dyn k]. hget dyn k = hget (old dyn) k \/ (k = $PM(this) /\ k <> 0) \/ exists j. 0 <= j < llen ($PLIST(this)) /\ lget ($PLIST(this)) j = k
invariant "deleted or as it was": forall k [hget dyn k]. hget dyn k = 0 \/ hget dyn k = hget (old dyn) k
variant llen ($PLIST(this)) - i
ensures "deleted or as it was": forall k [hget dyn k]. hget dyn k = 0 \/ hget dyn k = hget (old dyn) k
ensures "the others stay": forall k [hget dyn k]. hget dyn k = hget (old dyn) k \/ (k = $PM(this) /\ k <> 0) \/ exists j. 0 <= j < llen ($PLIST(this)) /\ lget ($PLIST(this)) j = k

fn testutil::RegressionTest::ReadXMLInput()
joined
entry dyn_wf_ ();
use obj.Obj obj.In meas.MeasI meas.MeasL xml.Xml xml.Expat
requires "an open file, from its start": g_RegressionTest_is > 3 /\ is_ok is_fail is_bad g_RegressionTest_is /\ not (hget is_eof g_RegressionTest_is) /\ hget is_pos g_RegressionTest_is = 0 /\ slen (hget is_data g_RegressionTest_is) <= smax
requires "the measurements of an earlier run": $INOK
requires "cached data are right": $HOK
writes g_RegressionTest_Input is_pos is_eof is_fail is_bad dyn msz mem_b mem_cstr h_Measurement_applyEscapeSequences h_Measurement_name h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName h_MeasurementFile_type h_XMLParseData_depth h_XMLParseData_m h_XMLParseData_data h_XMLParseData_measurements xml_fed xml_final xml_nest xml_buf xml_room xml_user xml_born xml_out xml_ok
decl val xml_any_ () : xml_event
|  writes { msz, mem_b, mem_cstr }
|  ensures { forall k [hget msz k]. hget (old msz) k >= 0 -> hget msz k = hget (old msz) k }
|  ensures { forall k [hget mem_b k]. hget (old msz) k >= 0 -> hget mem_b k = hget (old mem_b) k }
|  ensures { match result with Start el a -> el <> CNull /\ attrs_ok (hget mem_cstr a.blk) a.off /\ inblk msz a (2 * nattr (hget mem_cstr a.blk) a.off + 1)
|     | Data s n -> 0 <= n <= 2147483647 /\ (n = 0 \/ inblk msz s n) | _ -> true end }
driver let xml_events_ () : unit
|  requires { [@expl:the user data of the parser] $XINV(xml_user) /\ xml_nest = $PDEPTH(xml_user) }
|  requires { [@expl:its measurements are its own] $OWNED }
|  requires { $HOK }
|  writes { msz, mem_b, mem_cstr, xml_nest, dyn, h_Measurement_applyEscapeSequences, h_Measurement_name, h_DataMeasurement_data, h_DataMeasurement_dataSize, h_DataMeasurement_encoding, h_DataMeasurement_compression, h_TextData_content, h_NumericData_content, h_MeasurementFile_fileName, h_MeasurementFile_type, h_XMLParseData_depth, h_XMLParseData_m, h_XMLParseData_data, h_XMLParseData_measurements, xml_out }
|  ensures { xml_out = $PLIST(xml_user) }
|  ensures { [@expl:after any events: the state of the parse] $XINV(xml_user) /\ xml_nest = $PDEPTH(xml_user) }
|  ensures { [@expl:after any events: its measurements are its own] $OWNED }
|  ensures { [@expl:after any events: the measurements that were there stay] $KEPTALL }
|  ensures { [@expl:after any events: cached data stay right] $HOK }
|= let ref n = any int in
|  while n > 0 do
|    variant { n }
|    invariant { [@expl:events: the state of the parse] $XINV(xml_user) /\ xml_nest = $PDEPTH(xml_user) }
|    invariant { [@expl:events: what was there stays] forall k [hget dyn k]. hget xml_born k > 0 -> hget dyn k > 0 }
|    invariant { [@expl:events: the measurement is its own] $PM(xml_user) <> 0 -> hget xml_born ($PM(xml_user)) <= 0 }
|    invariant { [@expl:events: the measurements are its own] forall i [lget ($PLIST(xml_user)) i]. 0 <= i < llen ($PLIST(xml_user)) -> hget xml_born (lget ($PLIST(xml_user)) i) <= 0 }
|    invariant { [@expl:events: dyn stays] $KEPT(dyn) }
|    invariant { [@expl:events: h_Measurement_applyEscapeSequences stays] $KEPT(h_Measurement_applyEscapeSequences) }
|    invariant { [@expl:events: h_Measurement_name stays] $KEPT(h_Measurement_name) }
|    invariant { [@expl:events: h_DataMeasurement_encoding stays] $KEPT(h_DataMeasurement_encoding) }
|    invariant { [@expl:events: h_DataMeasurement_compression stays] $KEPT(h_DataMeasurement_compression) }
|    invariant { [@expl:events: h_TextData_content stays] $KEPT(h_TextData_content) }
|    invariant { [@expl:events: h_NumericData_content stays] $KEPT(h_NumericData_content) }
|    invariant { [@expl:events: h_MeasurementFile_fileName stays] $KEPT(h_MeasurementFile_fileName) }
|    invariant { [@expl:events: h_MeasurementFile_type stays] $KEPT(h_MeasurementFile_type) }
|    invariant { [@expl:events: cached data stay right] $HOK }
|    n <- n - 1;
|    dyn_wf_ ();
|    match xml_any_ () with
|    | Start el a -> if xml_nest < 2147483647 then begin CALLSTART xml_user el a; xml_nest <- xml_nest + 1 end
|    | End el -> if xml_nest > 0 then begin CALLEND xml_user el; xml_nest <- xml_nest - 1 end
|    | Data s n -> if xml_nest > 0 then CALLDATA xml_user s n
|    end
|  done;
|  xml_out <- $PLIST(xml_user)
loop 1
invariant "what the parser was given": xml_fed = ssub (hget is_data g_RegressionTest_is) 0 (hget is_pos g_RegressionTest_is) /\ 0 <= hget is_pos g_RegressionTest_is <= slen (hget is_data g_RegressionTest_is) /\ not xml_final
invariant "no error so far": xml_ok /\ is_ok is_fail is_bad g_RegressionTest_is /\ not (hget is_eof g_RegressionTest_is)
invariant "whole buffers": whole (hget is_pos g_RegressionTest_is) v_BUFFSIZE
invariant "the state of the parse": $XINV(xml_user) /\ xml_nest = $PDEPTH(xml_user)
invariant "its measurements are its own": $OWNED
invariant "the measurements that were there": $XLIVE
invariant "the ones born": forall k [hget xml_born k]. hget (old dyn) k > 0 -> hget xml_born k > 0
invariant "cached data stay right": $HOK
variant slen (hget is_data g_RegressionTest_is) - hget is_pos g_RegressionTest_is
ensures [X02] "all bytes of the file": xml_fed = hget is_data g_RegressionTest_is
ensures [X02] "the last piece is marked": xml_final
ensures [X02] "no piece was refused": xml_ok
ensures [X02] "the measurements of the parse": $INPUT = xml_out
ensures [X02] "the others stay": forall k [hget dyn k]. hget (old dyn) k > 0 -> (forall i. 0 <= i < llen (old $INPUT) -> lget (old $INPUT) i <> k) -> hget dyn k = hget (old dyn) k
ensures [X02] "they live": $INOK
ensures "cached data stay right": $HOK
raises Cxx: $INPUT = old $INPUT /\ $INOK /\ $HOK

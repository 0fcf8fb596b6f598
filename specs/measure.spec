fn testutil::Measurement::ApplyEscapeSequences(s)
virtual
use escape.EscI
ensures [E01] "escaped character by character": result = esc s
entry assert { forall i. 0 <= i < slen s -> special (sget s i) -> oneof (sget s i) LIT("&<>\"") };
assert { oneof 38 LIT("&<>\"") && oneof 60 LIT("&<>\"") && oneof 62 LIT("&<>\"") && oneof 34 LIT("&<>\"") };
assert { forall c. oneof c LIT("&<>\"") -> special c };
loop 1
invariant "place": 0 <= j <= slen s /\ (i = npos \/ j <= i < slen s)
invariant "text so far": result_ = escn s j
invariant "no special character between": forall k. j <= k < slen s -> (i = npos \/ k < i) -> not (special (sget s k))
invariant "at a special character": i <> npos -> special (sget s i)
variant slen s - j
begin assert { escn s i = scat (escn s j) (ssub s j i) }; assert { escn s (i+1) = scat (escn s i) (ent (sget s i)) };
after assert { escn s (slen s) = scat (escn s j) (ssub s j (slen s)) };

macro CONT(p): if hget dyn @p <= 2 then hget h_TextData_content @p else if hget dyn @p <= 6 then hget h_NumericData_content @p else hget h_MeasurementFile_fileName @p
macro TYPE(p): if hget dyn @p = 1 then LIT("text/plain") else if hget dyn @p = 2 then LIT("text/string") else if hget dyn @p = 3 then LIT("numeric/integer") else if hget dyn @p = 4 then LIT("numeric/float") else if hget dyn @p = 5 then LIT("numeric/double") else if hget dyn @p = 6 then LIT("numeric/boolean") else hget h_MeasurementFile_type @p
macro ELEM(p): if hget dyn @p = 7 then LIT("DartMeasurementFile") else LIT("DartMeasurement")
macro ON(p): hget h_Measurement_applyEscapeSequences @p
macro NAME(p): hget h_Measurement_name @p
macro ENC(p): if hget dyn @p = 7 then LIT("none") else hget h_DataMeasurement_encoding @p
macro CMP(p): if hget dyn @p = 7 then LIT("none") else hget h_DataMeasurement_compression @p
macro PRINTED(p): printed $ELEM(@p) $ON(@p) $NAME(@p) $TYPE(@p) $ENC(@p) $CMP(@p) $CONT(@p)

fn testutil::Measurement::GetContent()
virtual
use obj.Obj
ensures "the content": result = $CONT(this)

fn testutil::Measurement::GetAttributeType()
virtual
use obj.Obj
ensures "the type name of the kind": result = $TYPE(this)

fn testutil::Measurement::GetElementTypeName()
virtual
use obj.Obj
ensures [E02] "the element name of the kind": result = $ELEM(this)

fn testutil::Measurement::PrintStartTag(os)
virtual
use obj.Out obj.Cat meas.MeasT
writes os_txt
ensures [E02] "the start tag": os_txt = out (old os_txt) os (starttag $ELEM(this) $ON(this) $NAME(this) $TYPE(this) $ENC(this) $CMP(this))

fn testutil::Measurement::Print(os)
virtual
use obj.Out obj.Cat meas.MeasT
writes os_txt
ensures [E02] "start tag, content, end tag": os_txt = out (old os_txt) os $PRINTED(this)

fn testutil::operator<<(os, m) of (std::ostream &, const Measurement &)
use obj.Out meas.MeasT
writes os_txt
ensures [E02] "the measurement is printed": os_txt = out (old os_txt) os $PRINTED(m)
ensures "the stream": result = os

macro HOK: hok dyn h_DataMeasurement_data h_DataMeasurement_dataSize msz mem_b h_TextData_content h_NumericData_content h_DataMeasurement_encoding
macro OLDHOK: hok (old dyn) (old h_DataMeasurement_data) (old h_DataMeasurement_dataSize) (old msz) (old mem_b) (old h_TextData_content) (old h_NumericData_content) (old h_DataMeasurement_encoding)
macro KIND(t): if @t = LIT("text/plain") then 1 else if @t = LIT("text/string") then 2 else if @t = LIT("numeric/integer") then 3 else if @t = LIT("numeric/float") then 4 else if @t = LIT("numeric/double") then 5 else if @t = LIT("numeric/boolean") then 6 else 0
macro FRESH(p, k): @p > 0 /\ hget (old dyn) @p = 0 /\ dyn = hset (old dyn) @p @k
macro BLANK(p): h_Measurement_name = hset (old h_Measurement_name) @p sempty /\ h_Measurement_applyEscapeSequences = hset (old h_Measurement_applyEscapeSequences) @p true /\ h_DataMeasurement_encoding = hset (old h_DataMeasurement_encoding) @p LIT("none") /\ h_DataMeasurement_compression = hset (old h_DataMeasurement_compression) @p LIT("none") /\ h_DataMeasurement_data = hset (old h_DataMeasurement_data) @p pnull /\ h_DataMeasurement_dataSize = hset (old h_DataMeasurement_dataSize) @p 0 /\ h_TextData_content = (if hget dyn @p <= 2 then hset (old h_TextData_content) @p sempty else old h_TextData_content) /\ h_NumericData_content = (if hget dyn @p >= 3 then hset (old h_NumericData_content) @p sempty else old h_NumericData_content)
macro NOTHING: dyn = old dyn /\ h_Measurement_name = old h_Measurement_name /\ h_Measurement_applyEscapeSequences = old h_Measurement_applyEscapeSequences /\ h_DataMeasurement_encoding = old h_DataMeasurement_encoding /\ h_DataMeasurement_compression = old h_DataMeasurement_compression /\ h_DataMeasurement_data = old h_DataMeasurement_data /\ h_DataMeasurement_dataSize = old h_DataMeasurement_dataSize /\ h_TextData_content = old h_TextData_content /\ h_NumericData_content = old h_NumericData_content

fn testutil::CreateDataMeasurement(attributeType)
use obj.Obj meas.MeasI
writes dyn h_Measurement_applyEscapeSequences h_Measurement_name h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content
ensures [M02] "none for any other type": $KIND(attributeType) = 0 -> result = 0 /\ $NOTHING
ensures [M02] "a new object of the kind": $KIND(attributeType) <> 0 -> $FRESH(result, $KIND(attributeType))
ensures [M02] "empty, unnamed, default encoding and compression, escaping on": $KIND(attributeType) <> 0 -> $BLANK(result)
ensures "cached data stay right": $OLDHOK -> $HOK

macro SAMEBUT(h, p): forall k [hget @h k]. k <> @p -> hget @h k = hget (old @h) k
macro CP(h, p, m): @h = hset (old @h) @p (hget (old @h) @m)
macro COPIED(p, m): $CP(h_Measurement_name, @p, @m) /\ $CP(h_Measurement_applyEscapeSequences, @p, @m) /\ $CP(h_DataMeasurement_encoding, @p, @m) /\ $CP(h_DataMeasurement_compression, @p, @m) /\ h_DataMeasurement_data = hset (old h_DataMeasurement_data) @p pnull /\ h_DataMeasurement_dataSize = hset (old h_DataMeasurement_dataSize) @p 0 /\ h_TextData_content = (if hget dyn @p <= 2 then hset (old h_TextData_content) @p (hget (old h_TextData_content) @m) else old h_TextData_content) /\ h_NumericData_content = (if hget dyn @p >= 3 then hset (old h_NumericData_content) @p (hget (old h_NumericData_content) @m) else old h_NumericData_content)

fn testutil::PlainText::PlainText(m) of (const PlainText &)
use obj.Obj meas.MeasI
requires "the object under construction": hget dyn this = 1 /\ this <> m
writes h_Measurement_applyEscapeSequences h_Measurement_name h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content
ensures [M02] "a copy": $COPIED(this, m)

fn testutil::PlainText::operator=(m)
use obj.Obj meas.MeasI
requires "cached data are right": $HOK
writes h_Measurement_applyEscapeSequences h_Measurement_name h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content msz
ensures [M02] "a copy": $COPIED(this, m)
ensures "cached data stay right": $HOK

fn testutil::StringText::StringText(m) of (const StringText &)
use obj.Obj meas.MeasI
requires "the object under construction": hget dyn this = 2 /\ this <> m
writes h_Measurement_applyEscapeSequences h_Measurement_name h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content
ensures [M02] "a copy": $COPIED(this, m)

fn testutil::StringText::operator=(m)
use obj.Obj meas.MeasI
requires "cached data are right": $HOK
writes h_Measurement_applyEscapeSequences h_Measurement_name h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content msz
ensures [M02] "a copy": $COPIED(this, m)
ensures "cached data stay right": $HOK

fn testutil::IntegerNumeric::IntegerNumeric(m) of (const IntegerNumeric &)
use obj.Obj meas.MeasI
requires "the object under construction": hget dyn this = 3 /\ this <> m
writes h_Measurement_applyEscapeSequences h_Measurement_name h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content
ensures [M02] "a copy": $COPIED(this, m)

fn testutil::IntegerNumeric::operator=(m)
use obj.Obj meas.MeasI
requires "cached data are right": $HOK
writes h_Measurement_applyEscapeSequences h_Measurement_name h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content msz
ensures [M02] "a copy": $COPIED(this, m)
ensures "cached data stay right": $HOK

fn testutil::FloatNumeric::FloatNumeric(m) of (const FloatNumeric &)
use obj.Obj meas.MeasI
requires "the object under construction": hget dyn this = 4 /\ this <> m
writes h_Measurement_applyEscapeSequences h_Measurement_name h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content
ensures [M02] "a copy": $COPIED(this, m)

fn testutil::FloatNumeric::operator=(m)
use obj.Obj meas.MeasI
requires "cached data are right": $HOK
writes h_Measurement_applyEscapeSequences h_Measurement_name h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content msz
ensures [M02] "a copy": $COPIED(this, m)
ensures "cached data stay right": $HOK

fn testutil::DoubleNumeric::DoubleNumeric(m) of (const DoubleNumeric &)
use obj.Obj meas.MeasI
requires "the object under construction": hget dyn this = 5 /\ this <> m
writes h_Measurement_applyEscapeSequences h_Measurement_name h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content
ensures [M02] "a copy": $COPIED(this, m)

fn testutil::DoubleNumeric::operator=(m)
use obj.Obj meas.MeasI
requires "cached data are right": $HOK
writes h_Measurement_applyEscapeSequences h_Measurement_name h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content msz
ensures [M02] "a copy": $COPIED(this, m)
ensures "cached data stay right": $HOK

fn testutil::BooleanNumeric::BooleanNumeric(m) of (const BooleanNumeric &)
use obj.Obj meas.MeasI
requires "the object under construction": hget dyn this = 6 /\ this <> m
writes h_Measurement_applyEscapeSequences h_Measurement_name h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content
ensures [M02] "a copy": $COPIED(this, m)

fn testutil::BooleanNumeric::operator=(m)
use obj.Obj meas.MeasI
requires "cached data are right": $HOK
writes h_Measurement_applyEscapeSequences h_Measurement_name h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content msz
ensures [M02] "a copy": $COPIED(this, m)
ensures "cached data stay right": $HOK

fn testutil::MeasurementFile::MeasurementFile(m) of (const MeasurementFile &)
requires "the object under construction": hget dyn this = 7 /\ this <> m
writes h_Measurement_applyEscapeSequences h_Measurement_name h_MeasurementFile_type h_MeasurementFile_fileName
ensures [M02] "a copy": $CP(h_Measurement_name, this, m) /\ $CP(h_Measurement_applyEscapeSequences, this, m) /\ $CP(h_MeasurementFile_type, this, m) /\ $CP(h_MeasurementFile_fileName, this, m)

fn testutil::MeasurementFile::operator=(m)
writes h_Measurement_applyEscapeSequences h_Measurement_name h_MeasurementFile_type h_MeasurementFile_fileName
ensures [M02] "a copy": $CP(h_Measurement_name, this, m) /\ $CP(h_Measurement_applyEscapeSequences, this, m) /\ $CP(h_MeasurementFile_type, this, m) /\ $CP(h_MeasurementFile_fileName, this, m)

fn testutil::DataMeasurement::DeleteContentAsData()
use obj.Obj meas.MeasI
requires "cached data are right except its own": hokx this dyn h_DataMeasurement_data h_DataMeasurement_dataSize msz mem_b h_TextData_content h_NumericData_content h_DataMeasurement_encoding
writes msz h_DataMeasurement_data h_DataMeasurement_dataSize
ensures [M01] "no cached data": h_DataMeasurement_data = hset (old h_DataMeasurement_data) this pnull /\ h_DataMeasurement_dataSize = hset (old h_DataMeasurement_dataSize) this 0
ensures "cached data stay right": $HOK
ensures "only its own block is freed": keptbut (hget (old h_DataMeasurement_data) this).blk (old msz) msz (old mem_b) mem_b

macro VIEW(p): dview $ENC(@p) $CONT(@p)
macro SRCE(s): hget h_DataMeasurement_encoding @s
fn testutil::DataMeasurement::UpdateContentAsData()
use obj.Obj meas.MeasI meas.MeasD
requires "cached data are right": $HOK
writes msz mem_b h_DataMeasurement_data h_DataMeasurement_dataSize
ensures "cached data stay right": $HOK
ensures [M01] "without cached data the content is the data": (hget h_DataMeasurement_data this).blk = 0 -> $VIEW(this) = $CONT(this)
ensures "other objects keep theirs": forall k [hget h_DataMeasurement_data k]. k <> this -> hget h_DataMeasurement_data k = hget (old h_DataMeasurement_data) k
ensures "other objects keep their sizes": forall k [hget h_DataMeasurement_dataSize k]. k <> this -> hget h_DataMeasurement_dataSize k = hget (old h_DataMeasurement_dataSize) k
ensures "other blocks are unchanged": keptbut (hget (old h_DataMeasurement_data) this).blk (old msz) msz (old mem_b) mem_b

fn testutil::DataMeasurement::GetContentAsData()
virtual
use obj.Obj meas.MeasI
requires "cached data are right": $HOK
writes msz mem_b h_DataMeasurement_data h_DataMeasurement_dataSize
ensures "cached data stay right": $HOK
ensures [M01] "the bytes the content stands for": inblk msz result (slen ($VIEW(this))) /\ bstr (hget mem_b result.blk) result.off (slen ($VIEW(this))) = $VIEW(this)
ensures "all blocks are unchanged": kept (old msz) msz (old mem_b) mem_b

fn testutil::DataMeasurement::GetContentAsDataSize()
virtual
use obj.Obj meas.MeasI
requires "cached data are right": $HOK
writes msz mem_b h_DataMeasurement_data h_DataMeasurement_dataSize
ensures "cached data stay right": $HOK
ensures [M01] "the number of bytes the content stands for": result = slen ($VIEW(this))
ensures "all blocks are unchanged": kept (old msz) msz (old mem_b) mem_b

fn testutil::Measurement::SetContent(content)
virtual
use obj.Obj meas.MeasI
requires "cached data are right, its own may be overwritten": if hget dyn this = 7 then $HOK else hokx this dyn h_DataMeasurement_data h_DataMeasurement_dataSize msz mem_b h_TextData_content h_NumericData_content h_DataMeasurement_encoding
writes msz h_DataMeasurement_data h_DataMeasurement_dataSize h_TextData_content h_NumericData_content h_MeasurementFile_fileName
ensures "cached data stay right": $HOK
ensures [M01] "the content": h_TextData_content = (if hget dyn this <= 2 then hset (old h_TextData_content) this content else old h_TextData_content) /\ h_NumericData_content = (if 3 <= hget dyn this <= 6 then hset (old h_NumericData_content) this content else old h_NumericData_content) /\ h_MeasurementFile_fileName = (if hget dyn this = 7 then hset (old h_MeasurementFile_fileName) this content else old h_MeasurementFile_fileName)
ensures [M01] "no cached data": if hget dyn this = 7 then h_DataMeasurement_data = old h_DataMeasurement_data /\ h_DataMeasurement_dataSize = old h_DataMeasurement_dataSize else h_DataMeasurement_data = hset (old h_DataMeasurement_data) this pnull /\ h_DataMeasurement_dataSize = hset (old h_DataMeasurement_dataSize) this 0
ensures "only its own block is freed": if hget dyn this = 7 then msz = old msz else keptbut (hget (old h_DataMeasurement_data) this).blk (old msz) msz (old mem_b) mem_b

fn testutil::DataMeasurement::SetContentAsData(source, size_)
virtual
use obj.Obj meas.MeasI meas.MeasD
requires "cached data are right": $HOK
requires "the data": 0 <= size_ <= (if hget h_DataMeasurement_encoding this = LIT("none") then smax else 2305843009213693952) /\ (size_ = 0 \/ inblk msz source size_)
requires "the data are not the cached data themselves": size_ = 0 \/ (hget h_DataMeasurement_data this).blk = 0 \/ source.blk <> (hget h_DataMeasurement_data this).blk
requires "a supported encoding": (hget h_DataMeasurement_encoding this = LIT("none") \/ hget h_DataMeasurement_encoding this = LIT("base64")) /\ hget h_DataMeasurement_compression this = LIT("none")
writes msz mem_b h_DataMeasurement_data h_DataMeasurement_dataSize h_TextData_content h_NumericData_content h_MeasurementFile_fileName
ensures "cached data stay right": $HOK
ensures [M01] "the content stands for the data": $VIEW(this) = bstr (hget (old mem_b) source.blk) source.off size_
ensures [M01] "with encoding none the content is the data": hget h_DataMeasurement_encoding this = LIT("none") -> $CONT(this) = bstr (hget (old mem_b) source.blk) source.off size_
ensures "other objects keep their content": forall k. k <> this -> hget h_TextData_content k = hget (old h_TextData_content) k /\ hget h_NumericData_content k = hget (old h_NumericData_content) k
ensures "files keep their names": h_MeasurementFile_fileName = old h_MeasurementFile_fileName
ensures [M01] "no cached data": h_DataMeasurement_data = hset (old h_DataMeasurement_data) this pnull /\ h_DataMeasurement_dataSize = hset (old h_DataMeasurement_dataSize) this 0
ensures "only its own block is freed": keptbut (hget (old h_DataMeasurement_data) this).blk (old msz) msz (old mem_b) mem_b

macro NCONT(p): hget h_NumericData_content @p
fn testutil::IntegerNumeric::GetValue() const
use fl.Fl fl.Text obj.In tol.Tol
requires "an integer measurement": hget dyn this = 3
writes is_data is_pos is_eof is_fail is_bad is_live
ensures [C02] "the number read": result = ival ($NCONT(this))
fn testutil::BooleanNumeric::GetValue() const
use fl.Fl fl.Text obj.In tol.Tol
requires "a boolean measurement": hget dyn this = 6
writes is_data is_pos is_eof is_fail is_bad is_live
ensures [C02] "the truth value read": result <-> bval ($NCONT(this))
fn testutil::FloatNumeric::GetValue() const
use fl.Fl fl.Text tol.Tol
requires "a float measurement": hget dyn this = 4
ensures [C02] "the number read": result = scan32 (cpre ($NCONT(this)))
fn testutil::DoubleNumeric::GetValue() const
use fl.Fl fl.Text tol.Tol
requires "a double measurement": hget dyn this = 5
ensures [C02] "the number read": result = scan64 (cpre ($NCONT(this)))

fn testutil::NumericData::IsEqualTolerant(rm, tol)
virtual
use fl.Fl fl.Text obj.In obj.Obj tol.Tol
requires "objects": 3 <= hget dyn this <= 6 /\ 1 <= hget dyn rm <= 7
writes is_data is_pos is_eof is_fail is_bad is_live
ensures [C02] "the same kind and close": result <-> hget dyn this = hget dyn rm /\ closek (hget dyn this) ($NCONT(this)) ($NCONT(rm)) tol

macro OSKEPT: (forall k [hget os_txt k]. k <= 3 \/ hget (old os_live) k -> hget os_txt k = hget (old os_txt) k) /\ (forall k [hget os_prec k]. k <= 3 \/ hget (old os_live) k -> hget os_prec k = hget (old os_prec) k) /\ (forall k [hget os_live k]. hget (old os_live) k -> hget os_live k)

fn testutil::IntegerNumeric::SetValue(v)
use fl.Fl fl.Text obj.Out obj.Obj meas.MeasI
requires "the kind": hget dyn this = 3
requires "cached data are right, its own may be overwritten": hokx this dyn h_DataMeasurement_data h_DataMeasurement_dataSize msz mem_b h_TextData_content h_NumericData_content h_DataMeasurement_encoding
writes os_txt os_prec os_live msz h_DataMeasurement_data h_DataMeasurement_dataSize h_TextData_content h_NumericData_content h_MeasurementFile_fileName
ensures [R05] "the value in decimal": h_NumericData_content = hset (old h_NumericData_content) this (dec v)
ensures "only its content": h_TextData_content = old h_TextData_content /\ h_MeasurementFile_fileName = old h_MeasurementFile_fileName
ensures [M01] "no cached data": h_DataMeasurement_data = hset (old h_DataMeasurement_data) this pnull /\ h_DataMeasurement_dataSize = hset (old h_DataMeasurement_dataSize) this 0
ensures "cached data stay right": $HOK
ensures "only its own block is freed": keptbut (hget (old h_DataMeasurement_data) this).blk (old msz) msz (old mem_b) mem_b
ensures "other streams are unchanged": $OSKEPT

fn testutil::FloatNumeric::SetValue(v)
use fl.Fl fl.Text obj.Out obj.Obj meas.MeasI
requires "the kind": hget dyn this = 4
requires "cached data are right, its own may be overwritten": hokx this dyn h_DataMeasurement_data h_DataMeasurement_dataSize msz mem_b h_TextData_content h_NumericData_content h_DataMeasurement_encoding
writes os_txt os_prec os_live msz h_DataMeasurement_data h_DataMeasurement_dataSize h_TextData_content h_NumericData_content h_MeasurementFile_fileName
ensures [R05] "the value in decimal": h_NumericData_content = hset (old h_NumericData_content) this (txt32 7 v)
ensures "only its content": h_TextData_content = old h_TextData_content /\ h_MeasurementFile_fileName = old h_MeasurementFile_fileName
ensures [M01] "no cached data": h_DataMeasurement_data = hset (old h_DataMeasurement_data) this pnull /\ h_DataMeasurement_dataSize = hset (old h_DataMeasurement_dataSize) this 0
ensures "cached data stay right": $HOK
ensures "only its own block is freed": keptbut (hget (old h_DataMeasurement_data) this).blk (old msz) msz (old mem_b) mem_b
ensures "other streams are unchanged": $OSKEPT

fn testutil::DoubleNumeric::SetValue(v)
use fl.Fl fl.Text obj.Out obj.Obj meas.MeasI
requires "the kind": hget dyn this = 5
requires "cached data are right, its own may be overwritten": hokx this dyn h_DataMeasurement_data h_DataMeasurement_dataSize msz mem_b h_TextData_content h_NumericData_content h_DataMeasurement_encoding
writes os_txt os_prec os_live msz h_DataMeasurement_data h_DataMeasurement_dataSize h_TextData_content h_NumericData_content h_MeasurementFile_fileName
ensures [R05] "the value in decimal": h_NumericData_content = hset (old h_NumericData_content) this (txt64 16 v)
ensures "only its content": h_TextData_content = old h_TextData_content /\ h_MeasurementFile_fileName = old h_MeasurementFile_fileName
ensures [M01] "no cached data": h_DataMeasurement_data = hset (old h_DataMeasurement_data) this pnull /\ h_DataMeasurement_dataSize = hset (old h_DataMeasurement_dataSize) this 0
ensures "cached data stay right": $HOK
ensures "only its own block is freed": keptbut (hget (old h_DataMeasurement_data) this).blk (old msz) msz (old mem_b) mem_b
ensures "other streams are unchanged": $OSKEPT

fn testutil::BooleanNumeric::SetValue(v)
use fl.Fl fl.Text obj.Out obj.Obj meas.MeasI
requires "the kind": hget dyn this = 6
requires "cached data are right, its own may be overwritten": hokx this dyn h_DataMeasurement_data h_DataMeasurement_dataSize msz mem_b h_TextData_content h_NumericData_content h_DataMeasurement_encoding
writes os_txt os_prec os_live msz h_DataMeasurement_data h_DataMeasurement_dataSize h_TextData_content h_NumericData_content h_MeasurementFile_fileName
ensures [R05] "the value in decimal": h_NumericData_content = hset (old h_NumericData_content) this (dec (b2i v))
ensures "only its content": h_TextData_content = old h_TextData_content /\ h_MeasurementFile_fileName = old h_MeasurementFile_fileName
ensures [M01] "no cached data": h_DataMeasurement_data = hset (old h_DataMeasurement_data) this pnull /\ h_DataMeasurement_dataSize = hset (old h_DataMeasurement_dataSize) this 0
ensures "cached data stay right": $HOK
ensures "only its own block is freed": keptbut (hget (old h_DataMeasurement_data) this).blk (old msz) msz (old mem_b) mem_b
ensures "other streams are unchanged": $OSKEPT

macro LIVE(h): forall k [hget @h k]. hget (old dyn) k > 0 -> hget @h k = hget (old @h) k
macro OLDOBJ: $LIVE(dyn) /\ $LIVE(h_Measurement_name) /\ $LIVE(h_Measurement_applyEscapeSequences) /\ $LIVE(h_DataMeasurement_encoding) /\ $LIVE(h_DataMeasurement_compression) /\ $LIVE(h_TextData_content) /\ $LIVE(h_NumericData_content) /\ $LIVE(h_MeasurementFile_fileName) /\ $LIVE(h_MeasurementFile_type)
macro FTYPE(t): if $KIND(@t) = 0 then LIT("text/plain") else @t
macro FNAME(p): hget h_MeasurementFile_fileName @p
macro LNAME(p): if hget dyn @p <> 7 \/ fopens (cpre ($FNAME(@p))) then $NAME(@p) else sempty
macro LTYPE(p): if hget dyn @p <> 7 then $TYPE(@p) else if fopens (cpre ($FNAME(@p))) then $FTYPE(hget h_MeasurementFile_type @p) else LIT("text/plain")
macro LBYTES(p): if hget dyn @p <> 7 then $VIEW(@p) else if fopens (cpre ($FNAME(@p))) then fbytes (cpre ($FNAME(@p))) else sempty
macro SAME(p, q): ($NAME(@p)) = ($NAME(@q)) /\ ($TYPE(@p)) = ($TYPE(@q)) /\ ($LNAME(@p)) = ($NAME(@p)) /\ ($LTYPE(@p)) = ($TYPE(@p)) /\ ($LNAME(@q)) = ($NAME(@q)) /\ ($LTYPE(@q)) = ($TYPE(@q)) /\ ($LBYTES(@p)) = ($LBYTES(@q))

fn testutil::MeasurementFile::Load()
use obj.Obj obj.In meas.MeasI meas.MeasD
requires "a file measurement": hget dyn this = 7
requires "cached data are right": $HOK
writes dyn msz mem_b is_data is_pos is_eof is_fail is_bad is_live h_Measurement_name h_Measurement_applyEscapeSequences h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName
ensures [F01] "a new measurement in memory": result > 0 /\ hget (old dyn) result = 0 /\ 1 <= hget dyn result <= 6
ensures [F01] "its name": ($NAME(result)) = ($LNAME(this))
ensures [F01] "its type": ($TYPE(result)) = ($LTYPE(this))
ensures [F01] "the bytes of the file": ($VIEW(result)) = ($LBYTES(this))
ensures "objects are unchanged": $OLDOBJ
ensures "cached data stay right": $HOK
ensures "blocks are unchanged": kept (old msz) msz (old mem_b) mem_b
raises Cxx: $OLDOBJ /\ $HOK
loop 1
invariant "place": 0 <= size <= slen (hget is_data is) /\ tbuff = padd buff size /\ (hget is_pos is = size)
invariant "read so far": forall i. 0 <= i < size -> s8 (bget (hget mem_b buff.blk) i) = sget (hget is_data is) i
invariant "blocks are unchanged": kept (old msz) msz (old mem_b) mem_b
invariant "stream": hget is_data is = fbytes (cpre ($FNAME(this)))
invariant "no error": not (hget is_fail is) /\ not (hget is_bad is) /\ not (hget is_eof is)
variant slen (hget is_data is) - size
after assert { size = slen (hget is_data is) -> eqs (bstr (hget mem_b buff.blk) 0 size) (hget is_data is) };

fn testutil::Measurement::IsEqual(m)
virtual
use obj.Obj obj.In meas.MeasI meas.MeasD
requires "measurements": 1 <= hget dyn this <= 7 /\ 1 <= hget dyn m <= 7
requires "cached data are right": $HOK
writes dyn msz mem_b is_data is_pos is_eof is_fail is_bad is_live h_Measurement_name h_Measurement_applyEscapeSequences h_DataMeasurement_data h_DataMeasurement_dataSize h_DataMeasurement_encoding h_DataMeasurement_compression h_TextData_content h_NumericData_content h_MeasurementFile_fileName
ensures [C01, F01] "equal exactly if name, type and bytes are": result <-> $SAME(this, m)
ensures [C01] "objects are unchanged": $OLDOBJ
ensures "cached data stay right": $HOK
ensures "blocks of others are unchanged": kept (old msz) msz (old mem_b) mem_b
raises Cxx: (hget dyn this = 7 \/ hget dyn m = 7) /\ $OLDOBJ /\ $HOK

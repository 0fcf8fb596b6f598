fn testutil::Base64::Encode(inp, numBytes)
use base64.B64
requires "the input holds numBytes bytes": numBytes = 0 \/ inblk msz inp numBytes
requires "the text fits a string": numBytes <= 2305843009213693952
ensures [B02] "the text is the RFC 2045 text of the bytes with the newlines asked for": is_enc result (bstr (hget mem_b inp.blk) inp.off numBytes) this.f_Base64_addNewLines
ensures "settings unchanged": this = old this
table Base64::base64chars [base64.B64A] "the table is the base64 alphabet": forall v [tbl_Base64__base64chars v]. 0 <= v < 64 -> tbl_Base64__base64chars v = b64c v
entry let ghost d = bstr (hget mem_b inp.blk) inp.off numBytes in let ghost nl = this.f_Base64_addNewLines in
loop 1
invariant "bytes consumed": 0 <= numBytes <= numBytes_0 /\ j = numBytes_0 - numBytes /\ mod j 3 = 0
invariant "text length": slen output = elen numBytes_0 nl
invariant "place in the text": i = (if numBytes = 0 then gend nl (div j 3) else gpos nl (div j 3))
invariant "text so far": laid output d nl i
variant numBytes
begin let ghost i0 = i in let ghost q0 = div j 3 in
assert { j = 3 * q0 /\ 0 <= q0 /\ i0 = gpos nl q0 /\ i0 + 4 <= slen output /\ slen output <= 4611686018427387904 };
assert { forall k. 0 <= k < 3 -> ub d (3 * q0 + k) = bget (hget mem_b inp.blk) (inp.off + j + k) };
end laid_group output d nl q0; assert { div j 3 = q0 + 1 }; assert { gend nl (q0+1) = gpos nl q0 + 4 };
  assert { gpos nl (q0+1) = gpos nl q0 + 4 + (if nl && mod (gpos nl q0 + 4) 73 = 72 then 1 else 0) };
exit if numBytes > 0 then begin assert { numBytes_0 = slen d }; laid_group output d nl (div j 3) end;

fn testutil::Base64::IsBase64(inp)
use base64.B64D
ensures [B03] "zero unless valid, else the number of bytes": result = (if valid inp this.f_Base64_ignoreInvalids then nbytes inp else 0)
ensures "the text is a string object": slen inp <= smax
ensures "settings unchanged": this = old this
table Base64::base64bits [base64.B64DA] "the table classifies every character": forall v [tbl_Base64__base64bits v]. 0 <= v < 256 -> tbl_Base64__base64bits v = (let c = s8 v in if isdata c then b64v c else if c = 61 then 64 else if isws c then 254 else 255)
entry let ghost ign = this.f_Base64_ignoreInvalids in
loop 1
invariant "place": 0 <= i <= slen inp
invariant "place in the group": byteNumber = mod (nd inp i + np inp i) 4
invariant "padding seen": padded <-> np inp i > 0
invariant "bytes counted": bytesRead = nd inp i - div (nd inp i + np inp i) 4
invariant "valid so far": good inp ign i
invariant "no end so far": open_to inp i
invariant "at most two paddings": padded -> byteNumber = 3 /\ np inp i = 1 /\ mod (nd inp i) 4 = 2
variant slen inp - i
begin let ghost i0 = i in
assert { nd inp (i0+1) = nd inp i0 + (if isdata (sget inp i0) then 1 else 0) };
assert { np inp (i0+1) = np inp i0 + (if sget inp i0 = 61 then 1 else 0) };
assert { good inp ign (i0+1) <-> good inp ign i0 /\ okat inp ign i0 };
assert { open_to inp (i0+1) <-> open_to inp i0 /\ not (done_at inp (i0+1)) };
assert { bend inp > i0 };
after assert { bend inp = i };
assert { byteNumber = mod (nd inp i + np inp i) 4 };
assert { bytesRead = nd inp i - div (nd inp i + np inp i) 4 };

fn testutil::Base64::Decode(inp, out)
use base64.B64D
requires "room for the bytes": inblk msz out (if valid inp this.f_Base64_ignoreInvalids then nbytes inp else slen inp) \/ (valid inp this.f_Base64_ignoreInvalids /\ nbytes inp = 0)
writes mem_b
ensures [B03] "only a valid text is decoded": valid inp this.f_Base64_ignoreInvalids
ensures [B03] "the number of bytes is returned": result = nbytes inp
ensures [B01] "the bytes": forall b. 0 <= b < nbytes inp -> bget (hget mem_b out.blk) (out.off + b) = dbyte inp b
ensures [B03] "no other byte of the block is written": forall b. b < out.off \/ b >= out.off + nbytes inp -> bget (hget mem_b out.blk) b = bget (hget (old mem_b) out.blk) b
ensures [B03] "no other block is written": forall k. k <> out.blk -> hget mem_b k = hget (old mem_b) k
ensures "settings unchanged": this = old this
raises Cxx: not (valid inp this.f_Base64_ignoreInvalids) /\ this = old this /\ forall k. k <> out.blk -> hget mem_b k = hget (old mem_b) k
table Base64::base64bits [base64.B64DA] "the table classifies every character": forall v [tbl_Base64__base64bits v]. 0 <= v < 256 -> tbl_Base64__base64bits v = (let c = s8 v in if isdata c then b64v c else if c = 61 then 64 else if isws c then 254 else 255)
entry let ghost ign = this.f_Base64_ignoreInvalids in let ghost mem0 = mem_b in
loop 1
invariant "place": 0 <= i <= slen inp
invariant "place in the group": byteNumber = mod (nd inp i + np inp i) 4
invariant "padding seen": padded <-> np inp i > 0
invariant "bytes counted": bytesRead = nd inp i - div (nd inp i + np inp i) 4
invariant "valid so far": good inp ign i
invariant "no end so far": open_to inp i
invariant "bytes written": j = (if padded then dlen (nd inp i) else div (nd inp i) 4 * 3)
invariant "at most two paddings": padded -> byteNumber = 3 /\ np inp i = 1 /\ mod (nd inp i) 4 = 2
invariant "values waiting": forall k. 0 <= k < mod (nd inp i) 4 -> hget buffer k = dv inp (nd inp i - mod (nd inp i) 4 + k)
invariant "bytes so far": forall b. 0 <= b < j -> bget (hget mem_b out.blk) (out.off + b) = dbyte inp b
invariant "nothing else written": forall b. b < out.off \/ b >= out.off + j -> bget (hget mem_b out.blk) b = bget (hget mem0 out.blk) b
invariant "no other block": forall k. k <> out.blk -> hget mem_b k = hget mem0 k
variant slen inp - i
begin let ghost i0 = i in let ghost g0 = div (nd inp i0) 4 in let ghost j0 = j in
assert { nd inp (i0+1) = nd inp i0 + (if isdata (sget inp i0) then 1 else 0) };
assert { np inp (i0+1) = np inp i0 + (if sget inp i0 = 61 then 1 else 0) };
assert { good inp ign (i0+1) <-> good inp ign i0 /\ okat inp ign i0 };
assert { open_to inp (i0+1) <-> open_to inp i0 /\ not (done_at inp (i0+1)) };
assert { bend inp > i0 };
assert { valid inp ign -> dlen (nd inp (i0+1)) <= nbytes inp };
assert { not padded -> j0 = 3 * g0 };
assert { 0 < mod (nd inp i0) 4 -> hget buffer 0 = dv inp (4 * g0) };
assert { 1 < mod (nd inp i0) 4 -> hget buffer 1 = dv inp (4 * g0 + 1) };
assert { 2 < mod (nd inp i0) 4 -> hget buffer 2 = dv inp (4 * g0 + 2) };
assert { isdata (sget inp i0) -> dv inp (nd inp i0) = b64v (sget inp i0) };
assert { dbyte inp (3*g0) = u8 (dv inp (4*g0) * 4 + div (dv inp (4*g0+1)) 16) };
assert { dbyte inp (3*g0+1) = u8 (dv inp (4*g0+1) * 16 + div (dv inp (4*g0+2)) 4) };
assert { dbyte inp (3*g0+2) = u8 (dv inp (4*g0+2) * 64 + dv inp (4*g0+3)) };
end assert { j0 < j -> bget (hget mem_b out.blk) (out.off + j0) = dbyte inp j0 };
assert { j0 + 1 < j -> bget (hget mem_b out.blk) (out.off + j0 + 1) = dbyte inp (j0+1) };
assert { j0 + 2 < j -> bget (hget mem_b out.blk) (out.off + j0 + 2) = dbyte inp (j0+2) };
after assert { bend inp = i };
assert { byteNumber = mod (nd inp i + np inp i) 4 };
assert { bytesRead = nd inp i - div (nd inp i + np inp i) 4 };
assert { byteNumber = 0 -> j = dlen (nd inp i) };
assert { byteNumber = 0 -> j = nbytes inp };
assert { forall b. 0 <= b < j -> bget (hget mem_b out.blk) (out.off + b) = dbyte inp b };

fn testutil::Base64::SetAddNewLines(b)
ensures "the setting": this.f_Base64_addNewLines = b
ensures "the other setting": this.f_Base64_ignoreInvalids = old this.f_Base64_ignoreInvalids
fn testutil::Base64::NewLinesOn()
ensures "the setting": this.f_Base64_addNewLines = true
ensures "the other setting": this.f_Base64_ignoreInvalids = old this.f_Base64_ignoreInvalids
fn testutil::Base64::NeLinesOff()
ensures "the setting": this.f_Base64_addNewLines = false
ensures "the other setting": this.f_Base64_ignoreInvalids = old this.f_Base64_ignoreInvalids
fn testutil::Base64::GetAddNewLines() const
ensures "the setting": result = this.f_Base64_addNewLines
fn testutil::Base64::SetIgnoreInvalids(b)
ensures "the setting": this.f_Base64_ignoreInvalids = b
ensures "the other setting": this.f_Base64_addNewLines = old this.f_Base64_addNewLines
fn testutil::Base64::IgnoreInvalidsOn()
ensures "the setting": this.f_Base64_ignoreInvalids = true
ensures "the other setting": this.f_Base64_addNewLines = old this.f_Base64_addNewLines
fn testutil::Base64::IgnoreInvalidsOff()
ensures "the setting": this.f_Base64_ignoreInvalids = false
ensures "the other setting": this.f_Base64_addNewLines = old this.f_Base64_addNewLines
fn testutil::Base64::GetIgnoreInvalids() const
ensures "the setting": result = this.f_Base64_ignoreInvalids

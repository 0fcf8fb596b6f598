(* XML attributes as the parser hands them over, and what the events of a document mean *)
module Xml
  use cxx.Cxx
  use lits.Lits
  (* the number of attributes at a place *)
  val function nattr (m:hmap cstr) (o:int) : int
  predicate attrs_ok (m:hmap cstr) (o:int) = 0 <= nattr m o < 1000000000 /\ hget m (o + 2 * nattr m o) = CNull /\ forall i [hget m i]. o <= i < o + 2 * nattr m o -> hget m i <> CNull
  (* the kind of a type; plain text for any other *)
  function dkind (t:str) : int = if t = LIT("text/plain") then 1 else if t = LIT("text/string") then 2 else if t = LIT("numeric/integer") then 3 else if t = LIT("numeric/float") then 4
    else if t = LIT("numeric/double") then 5 else if t = LIT("numeric/boolean") then 6 else 1
  (* the value of the last of the first k attributes that has this name *)
  let rec ghost function lastattr (m:hmap cstr) (o k:int) (nm d:str) : str
    variant { k }
  = if k <= 0 then d else if pure { cval (hget m (o + 2 * k - 2)) = nm } then pure { cval (hget m (o + 2 * k - 1)) } else lastattr m o (k - 1) nm d
end

(* The parser: what it was given, how deep the element it is in, its buffer, its user data; and the objects that existed when it was made *)
module Expat
  use cxx.Cxx
  val ref xml_fed : str
  val ref xml_final : bool
  val ref xml_nest : int
  val ref xml_buf : ptr
  val ref xml_room : int
  val ref xml_user : int
  val ref xml_born : hmap int
  val ref xml_ok : bool       (* no piece was refused *)
  val ref xml_out : lst int   (* the measurements found so far *)
  val xml_create_ (d:hmap int) : int
    writes { xml_fed, xml_final, xml_nest, xml_room, xml_user, xml_born, xml_buf, xml_ok } ensures { xml_ok }
    ensures { in_s64 result } ensures { xml_fed = sempty } ensures { not xml_final } ensures { xml_nest = 0 } ensures { xml_room = 0 } ensures { xml_user = 0 } ensures { xml_born = d }
  val xml_getbuffer_ (n:int) : ptr
    requires { [@expl:the size of the buffer] n >= 0 }
    writes { xml_buf, xml_room, msz }
    ensures { xml_buf = result }
    ensures { result.blk = 0 /\ xml_room = 0 /\ msz = old msz \/ result.blk > 0 /\ hget (old msz) result.blk < 0 /\ result.off = 0 /\ msz = hset (old msz) result.blk n /\ xml_room = n }
  val xml_take_ (p:ptr) (n:int) (last:bool) : unit
    requires { [@expl:the text given to the parser is there] n = 0 \/ inblk msz p n }
    requires { [@expl:a length] n >= 0 }
    requires { [@expl:nothing follows the last piece] not xml_final }
    writes { xml_fed, xml_final }
    ensures { xml_fed = scat (old xml_fed) (bstr (hget mem_b p.blk) p.off n) } ensures { xml_final = last }
  val xml_take_buf_ (n:int) (last:bool) : unit
    requires { [@expl:no more than the buffer holds] 0 <= n <= xml_room }
    requires { [@expl:nothing follows the last piece] not xml_final }
    writes { xml_fed, xml_final, xml_room }
    ensures { xml_fed = scat (old xml_fed) (bstr (hget mem_b xml_buf.blk) xml_buf.off n) } ensures { xml_final = last } ensures { xml_room = 0 }
  (* every element of a document that was accepted is closed *)
  val xml_result_ () : int
    writes { xml_ok }
    ensures { result = 0 \/ result = 1 } ensures { xml_ok <-> old xml_ok /\ result = 1 } ensures { result = 1 -> xml_final -> xml_nest = 0 }
  val xml_info_ () : int ensures { 0 <= result <= 2147483647 }
  val xml_error_ () : cstr ensures { result <> CNull }
  type xml_event = Start cstr ptr | End cstr | Data ptr int
  (* pieces of a file *)
  lemma pieces_eqs : forall s i j k. 0 <= i <= j <= k <= slen s -> eqs (scat (ssub s i j) (ssub s j k)) (ssub s i k)
  lemma pieces : forall s i j k [scat (ssub s i j) (ssub s j k)]. 0 <= i <= j <= k <= slen s -> scat (ssub s i j) (ssub s j k) = ssub s i k
  predicate whole (p b:int) = b > 0 /\ p >= 0 /\ mod p b = 0
  lemma mod_mul : forall k b x. b > 0 -> 0 <= x < b -> mod (b * k + x) b = x
  lemma whole_first : forall b [whole 0 b]. b > 0 -> whole 0 b
  lemma whole_next : forall p q b [whole p b, whole q b]. whole p b -> q = p + b -> whole q b
  lemma whole_rest : forall p n b [whole p b, mod n b]. whole p b -> 0 <= n - p < b -> mod n b = n - p
end

(* The measurements a document stands for, and that the three handlers find exactly those.
   The state is what the contracts of start, end and data say of it: depth, the measurement begun, its text, the measurements so far. *)
module XmlR
  use cxx.Cxx
  type atts = int      (* attributes, numbered *)
  type head = int      (* kind, name, type, encoding and compression of a measurement, numbered *)
  type ohead = None | Some head
  function opened (el:str) (a:atts) : ohead    (* what the start of an element begins, if anything *)
  type meas = Meas head str
  type doc = Text str | Elem str atts docs
  with docs = Nil | Cons doc docs
  type ms = Empty | Snoc ms meas
  type st = { depth : int; m : ohead; text : str; got : ms }
  (* one event each *)
  function on_start (s:st) (el:str) (a:atts) : st =
    { depth = s.depth + 1; m = (if s.depth = 1 then match opened el a with Some h -> Some h | None -> s.m end else s.m); text = s.text; got = s.got }
  function on_data (s:st) (t:str) : st = if s.depth = 2 then { s with text = scat s.text t } else s
  function on_end (s:st) : st =
    { depth = s.depth - 1; m = None; text = sempty;
      got = (if s.depth = 2 then match s.m with Some h -> Snoc s.got (Meas h s.text) | None -> s.got end else s.got) }
  (* the events of a document in their order *)
  function run1 (s:st) (d:doc) : st = match d with Text t -> on_data s t | Elem el a ks -> on_end (run (on_start s el a) ks) end
  with run (s:st) (ks:docs) : st = match ks with Nil -> s | Cons d r -> run (run1 s d) r end
  (* the character data of an element, if no element is nested in it *)
  predicate flat (ks:docs) = match ks with Nil -> true | Cons (Text _) r -> flat r | Cons (Elem _ _ _) _ -> false end
  function chars (t:str) (ks:docs) : str = match ks with Nil -> t | Cons (Text u) r -> chars (scat t u) r | Cons (Elem _ _ _) r -> chars t r end
  (* the measurements directly inside the document element *)
  function found (g:ms) (ks:docs) : ms = match ks with
    | Nil -> g
    | Cons (Text _) r -> found g r
    | Cons (Elem el a is) r -> match opened el a with Some h -> if flat is then found (Snoc g (Meas h (chars sempty is))) r else found g r | None -> found g r end
    end
  let rec lemma deepone (s:st) (d:doc)
    requires { s.depth >= 2 } variant { d }
    ensures { match d with Text _ -> (run1 s d).m = s.m | Elem _ _ _ -> (run1 s d).m = None /\ (run1 s d).text = sempty end }
    ensures { (run1 s d).depth = s.depth /\ (run1 s d).got = s.got }
  = match d with Text _ -> () | Elem el a ks -> deep (pure { on_start s el a }) ks end
  with lemma deep (s:st) (ks:docs)
    requires { s.depth >= 2 } variant { ks }
    ensures { (run s ks).depth = s.depth /\ (run s ks).got = s.got }
    ensures { if flat ks then (run s ks).m = s.m else (run s ks).m = None }
  = match ks with Nil -> () | Cons d r -> deepone s d; deep (pure { run1 s d }) r; deepn (pure { run1 s d }) r end
  with lemma deepn (s:st) (ks:docs)
    requires { s.depth >= 2 } variant { ks }
    ensures { s.m = None -> (run s ks).m = None }
  = match ks with Nil -> () | Cons d r -> deepone s d; deepn (pure { run1 s d }) r end
  let rec lemma texts (s:st) (ks:docs)
    requires { s.depth = 2 /\ flat ks } variant { ks }
    ensures { (run s ks).text = chars s.text ks }
  = match ks with Nil -> () | Cons d r -> texts (pure { run1 s d }) r end
  let rec lemma inside (s:st) (ks:docs)
    requires { s.depth = 1 /\ s.m = None /\ s.text = sempty } variant { ks }
    ensures { (run s ks).depth = 1 /\ (run s ks).m = None /\ (run s ks).text = sempty /\ (run s ks).got = found s.got ks }
  = match ks with
    | Nil -> ()
    | Cons (Text t) r -> inside (pure { run1 s (Text t) }) r
    | Cons (Elem el a is) r -> deep (pure { on_start s el a }) is; (if pure { flat is } then texts (pure { on_start s el a }) is); inside (pure { run1 s (Elem el a is) }) r
    end
  lemma document : forall el a ks. let z = run1 { depth = 0; m = None; text = sempty; got = Empty } (Elem el a ks) in
    z.depth = 0 /\ z.m = None /\ z.text = sempty /\ z.got = found Empty ks
end

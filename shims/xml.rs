pub mod common_ev {
use vstd::prelude::*;
verus! {
/// what an XML document consists of, as far as this crate looks at it
pub enum Ev {
    Start(Seq<char>, Seq<(Seq<char>, Seq<char>)>),
    End(Seq<char>),
    Text(Seq<char>),
    /// the end of the document
    Done,
    Other,
}
pub struct OwnedName { pub local_name: String }
pub struct OwnedAttribute { pub name: OwnedName, pub value: String }
pub open spec fn attrs_of(a: Seq<OwnedAttribute>) -> Seq<(Seq<char>, Seq<char>)> { Seq::new(a.len(), |i: int| (a[i].name.local_name@, a[i].value@)) }
/// characters XML can represent
pub open spec fn xml_char(c: char) -> bool {
    c == '\t' || c == '\n' || c == '\r' || (' ' <= c && c <= '\u{FFFD}') || ('\u{10000}' <= c && c <= '\u{10FFFF}')
}
/// the element and attribute names used here
pub open spec fn known_name(n: Seq<char>) -> bool {
    n == "KeePassFile"@ || n == "Meta"@ || n == "Generator"@ || n == "DatabaseName"@ || n == "DatabaseDescription"@ || n == "CustomData"@ || n == "Item"@
        || n == "MemoryProtection"@ || n == "ProtectTitle"@ || n == "ProtectUserName"@ || n == "ProtectPassword"@ || n == "ProtectURL"@ || n == "ProtectNotes"@
        || n == "Root"@ || n == "Group"@ || n == "Entry"@ || n == "History"@ || n == "String"@ || n == "Key"@ || n == "Value"@ || n == "UUID"@ || n == "Name"@
        || n == "Times"@ || n == "LastModificationTime"@ || n == "CreationTime"@ || n == "LastAccessTime"@ || n == "LocationChanged"@ || n == "ExpiryTime"@
        || n == "UsageCount"@ || n == "Expires"@ || n == "Protected"@
}
pub open spec fn plain_attrs(a: Seq<(Seq<char>, Seq<char>)>) -> bool { forall|i: int| 0 <= i < a.len() ==> known_name((#[trigger] a[i]).0) && xml_text(a[i].1) }
pub open spec fn xml_text(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> xml_char(#[trigger] s[i]) }
}
}
pub mod attribute { pub use super::common_ev::OwnedAttribute; }
pub mod reader {
use vstd::prelude::*;
use super::common_ev::*;
use crate::ext::io::Read;
verus! {
pub enum XmlEvent {
    StartDocument,
    EndDocument,
    ProcessingInstruction,
    StartElement { name: OwnedName, attributes: Vec<OwnedAttribute> },
    EndElement { name: OwnedName },
    CData(String),
    Comment(String),
    Characters(String),
    Whitespace(String),
}
pub open spec fn ev_of(e: XmlEvent) -> Ev {
    match e {
        XmlEvent::StartElement { name, attributes } => Ev::Start(name.local_name@, attrs_of(attributes@)),
        XmlEvent::EndElement { name } => Ev::End(name.local_name@),
        XmlEvent::Characters(s) => Ev::Text(s@),
        XmlEvent::EndDocument => Ev::Done,
        _ => Ev::Other,
    }
}
#[derive(Debug)]
pub struct Error { p: u64 }
impl Error {
    #[verifier::external_body]
    pub fn msg(&self) -> (r: &str) { unimplemented!() }
}
/// the events in a document, and whether an error comes after them; for a source that ends in an error, and with
/// white space and CDATA delivered as text or not
pub uninterp spec fn events(b: Seq<u8>, clean: bool, ws: bool, cdata: bool) -> (Seq<Ev>, bool);
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct EventReader<R> { p: core::marker::PhantomData<R> }
impl<R: Read> EventReader<R> {
    /// the events to come
    pub uninterp spec fn evs(&self) -> Seq<Ev>;
    /// whether an error comes after them, rather than the end of the document for ever
    pub uninterp spec fn fails(&self) -> bool;
    /// whether errors only come at that point
    pub uninterp spec fn firm(&self) -> bool;
    /// names of the open elements
    pub uninterp spec fn stack(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn new_with_config(source: R, config: super::ParserConfig) -> (r: EventReader<R>)
        requires source.wf(),
        ensures (r.evs(), r.fails()) == events(source.rem(), source.clean(), config.ws, config.cdata), r.firm() == source.reliable(),
            r.stack().len() == 0,
    { unimplemented!() }
    /// start and end tags match, the document only ends when all elements are closed, and their names fit in memory
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Result<XmlEvent, Error>)
        ensures
            final(self).fails() == old(self).fails(), final(self).firm() == old(self).firm(), final(self).stack().len() < usize::MAX,
            r is Err && old(self).firm() ==> old(self).evs().len() == 0 && old(self).fails(),
            r is Ok ==> {
                let e = ev_of(r->Ok_0);
                &&& (old(self).evs().len() > 0 ==> e == old(self).evs()[0] && final(self).evs() == old(self).evs().skip(1))
                &&& (old(self).evs().len() == 0 ==> !old(self).fails() && e == Ev::Done && final(self).evs() == old(self).evs())
                &&& match e {
                    Ev::Start(n, _) => final(self).stack() == old(self).stack().push(n),
                    Ev::End(n) => old(self).stack().len() > 0 && old(self).stack().last() == n && final(self).stack() == old(self).stack().drop_last(),
                    Ev::Done => old(self).stack().len() == 0 && final(self).stack() == old(self).stack(),
                    _ => final(self).stack() == old(self).stack(),
                }
            },
    { unimplemented!() }
}
}
}
pub mod writer {
pub use self::events::XmlEvent;
use vstd::prelude::*;
use super::common_ev::*;
use crate::ext::io::Write;
verus! {
#[derive(Debug)]
pub struct Error { p: u64 }
impl From<crate::ext::io::Error> for Error {
    #[verifier::external_body]
    fn from(e: crate::ext::io::Error) -> Error { unimplemented!() }
}
/// what the emitter writes for a sequence of events
pub uninterp spec fn emitted(w: Seq<Ev>, config: super::EmitterConfig) -> Seq<u8>;
/// the events are the beginning of a well-formed document in which those elements are open: tags match, one root
/// element, text only inside it, only characters XML can represent and no two texts in a row
pub uninterp spec fn valid(w: Seq<Ev>, open: Seq<Seq<char>>) -> bool;
#[verifier::reject_recursive_types(W)]
pub struct EventWriter<W> {
    pub sink: W,
    pub config: super::EmitterConfig,
    /// what the sink had accepted before
    pub base: Ghost<Seq<u8>>,
    /// the events written, end tags with their names
    pub done: Ghost<Seq<Ev>>,
    /// names of the open elements
    pub open: Ghost<Seq<Seq<char>>>,
}
impl<W: Write> EventWriter<W> {
    pub open spec fn evs(&self) -> Seq<Ev> { self.done@ }
    #[verifier::prophetic]
    pub open spec fn inv(&self) -> bool { self.sink.sound() && valid(self.done@, self.open@) && self.sink.acc() == self.base@ + emitted(self.done@, self.config) }
    /// nothing but the events and what the sink accepted is changed
    #[verifier::prophetic]
    pub open spec fn kept(&self, b: &EventWriter<W>) -> bool {
        b.inv() && b.base == self.base && b.config == self.config && b.sink.steady() == self.sink.steady()
            && b.sink.fixed() == self.sink.fixed() && b.sink.layer() == self.sink.layer()
    }
    #[verifier::external_body]
    pub fn new_with_config(sink: W, config: super::EmitterConfig) -> (r: EventWriter<W>)
        requires sink.sound(),
        ensures r.inv(), r.sink == sink, r.base@ == sink.acc(), r.done@.len() == 0, r.open@.len() == 0, r.config == config,
    { unimplemented!() }
    /// writes the whole event, or reports an error
    #[verifier::external_body]
    pub fn write(&mut self, e: XmlEvent) -> (r: Result<(), Error>)
        requires old(self).inv(), match e.ev@ {
            Ev::Start(n, a) => (old(self).open@.len() > 0 || old(self).done@.len() == 0) && known_name(n) && plain_attrs(a),
            Ev::Text(t) => old(self).open@.len() > 0 && xml_text(t) && !(old(self).done@.last() is Text),
            Ev::End(_) => true,
            _ => false,
        },
        ensures r is Ok ==> old(self).kept(final(self)) && match e.ev@ {
            Ev::Start(n, a) => final(self).done@ == old(self).done@.push(e.ev@) && final(self).open@ == old(self).open@.push(n),
            Ev::End(_) => old(self).open@.len() > 0 && final(self).done@ == old(self).done@.push(Ev::End(old(self).open@.last())) && final(self).open@ == old(self).open@.drop_last(),
            _ => final(self).done@ == old(self).done@.push(e.ev@) && final(self).open@ == old(self).open@,
        },
            old(self).sink.steady() && !(e.ev@ is End && old(self).open@.len() == 0) ==> r is Ok,
    { unimplemented!() }
}
/// where the emitter may put white space of its own: before a start tag that does not follow text, and between end tags
pub open spec fn gap(prev: Ev, e: Ev) -> bool { (e is Start && !(prev is Text)) || (e is End && prev is End) }
pub open spec fn lead(evs: Seq<Ev>) -> Seq<Ev> { if evs.len() > 0 && evs[0] is Text { evs.skip(1) } else { evs } }
/// what is left of evs after the events w, written after prev: empty text is not heard of again
#[verifier::opaque]
pub open spec fn heard(prev: Ev, w: Seq<Ev>, evs: Seq<Ev>) -> Option<Seq<Ev>> decreases w.len() {
    if w.len() == 0 { Some(evs) }
    else if w[0] is Text && w[0]->Text_0.len() == 0 { heard(w[0], w.skip(1), evs) }
    else {
        let e = if gap(prev, w[0]) { lead(evs) } else { evs };
        if e.len() > 0 && e[0] == w[0] { heard(w[0], w.skip(1), e.skip(1)) } else { None }
    }
}
/// indented, if at all, by white space
pub open spec fn blank(c: super::EmitterConfig) -> bool { c.indent ==> forall|i: int| 0 <= i < c.by@.len() ==> (#[trigger] c.by@[i] == ' ' || c.by@[i] == '\t') }
/// a finished document is read as the events it was written from, after the XML declaration, and then ends
pub axiom fn axiom_read_back(w: Seq<Ev>, c: super::EmitterConfig)
    requires valid(w, Seq::empty()), w.len() > 0, blank(c)
    ensures ({
        let (evs, fails) = super::reader::events(emitted(w, c), true, true, true);
        !fails && evs.len() > 0 && evs[0] is Other && heard(Ev::Other, w, evs.skip(1)) == Some(seq![Ev::Done])
    });
}
pub mod events {
    use vstd::prelude::*;
    use super::super::common_ev::*;
    verus! {
    /// the events and their builders
    pub struct XmlEvent { pub ev: Ghost<Ev> }
    impl XmlEvent {
        pub fn start_element(name: &str) -> (r: XmlEvent) ensures r.ev@ == Ev::Start(name@, Seq::empty()) { XmlEvent { ev: Ghost(Ev::Start(name@, Seq::empty())) } }
        pub fn attr(self, name: &str, value: &str) -> (r: XmlEvent)
            ensures self.ev@ is Start ==> r.ev@ == Ev::Start(self.ev@->Start_0, self.ev@->Start_1.push((name@, value@))) {
            XmlEvent { ev: Ghost(Ev::Start(self.ev@->Start_0, self.ev@->Start_1.push((name@, value@)))) }
        }
        pub fn characters(s: &str) -> (r: XmlEvent) ensures r.ev@ == Ev::Text(s@) { XmlEvent { ev: Ghost(Ev::Text(s@)) } }
        /// closes the innermost open element
        pub fn end_element() -> (r: XmlEvent) ensures r.ev@ is End { XmlEvent { ev: Ghost(Ev::End(Seq::empty())) } }
    }
    }
}
}
pub use self::writer::EventWriter;
use vstd::prelude::*;
verus! {
pub struct ParserConfig { pub ws: bool, pub cdata: bool }
impl ParserConfig {
    pub fn new() -> (r: ParserConfig) ensures !r.ws, !r.cdata { ParserConfig { ws: false, cdata: false } }
    pub fn whitespace_to_characters(self, v: bool) -> (r: ParserConfig) ensures r.ws == v, r.cdata == self.cdata { ParserConfig { ws: v, cdata: self.cdata } }
    pub fn cdata_to_characters(self, v: bool) -> (r: ParserConfig) ensures r.cdata == v, r.ws == self.ws { ParserConfig { ws: self.ws, cdata: v } }
}
pub struct EmitterConfig { pub indent: bool, pub by: Ghost<Seq<char>> }
impl EmitterConfig {
    pub fn default() -> (r: EmitterConfig) ensures !r.indent { EmitterConfig { indent: false, by: Ghost(Seq::empty()) } }
    pub fn perform_indent(self, v: bool) -> (r: EmitterConfig) ensures r.indent == v, r.by == self.by { EmitterConfig { indent: v, by: self.by } }
    pub fn indent_string(self, s: &str) -> (r: EmitterConfig) ensures r.by@ == s@, r.indent == self.indent { EmitterConfig { indent: self.indent, by: Ghost(s@) } }
}
}

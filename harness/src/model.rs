//! A plain model of a database, a generator for it, and conversions to and
//! from the library's types through its public interface.
use crate::refk::Ks;
use base64::prelude::{Engine, BASE64_STANDARD};
use chrono::{NaiveDate, NaiveDateTime, TimeDelta};
use kdbx_rs::database::{Database, Entry, Field, Group, MemoryProtection, Times};
use uuid::Uuid;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, one_in: usize) -> bool {
        self.below(one_in) == 0
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend(self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    /// bytes that are often of a special form
    pub fn data(&mut self, n: usize) -> Vec<u8> {
        let mut v = self.bytes(n);
        let k = self.below(n + 1);
        let mut start = |s: &[u8]| {
            let l = s.len().min(n);
            v[..l].copy_from_slice(&s[..l]);
        };
        match self.0 % 24 {
            0 => start(b"<?xml version=\"1.0\"?>"),
            1 => start(&[0x1f, 0x8b, 8, 0]),
            2 => start(b"\xef\xbb\xbf"),
            3 => start(&[3, 0xd9, 0xa2, 0x9a]),
            4 => v[..k].fill(0),
            5 => v[k..].fill(0),
            6 => v.fill(0),
            7 => v.fill(0xff),
            8 => v.fill(b' '),
            9 => v.iter_mut().for_each(|b| *b = b"0123456789abcdef"[*b as usize % 16]),
            10 => v.iter_mut().for_each(|b| *b = b' ' + *b % 95),
            11 if n > 0 => v[n - 1] = b'\n',
            12 if n > 1 => v[n - 2..].copy_from_slice(b"\r\n"),
            13 if n > 0 => v[n - 1] = 0,
            14 if n > 0 => v[n - 1] = b' ',
            15 if n > 0 => v[n - 1] = b'=',
            16 if n > 0 => v[0] = b' ',
            17 if n > 0 => v[0] = 0,
            _ => {}
        }
        v
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct MField {
    pub key: String,
    pub val: Option<String>,
    pub prot: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub struct MTimes {
    pub t: [NaiveDateTime; 5], // modified, created, accessed, location, expiry
    pub expires: bool,
    pub usage: u32,
}
#[derive(Clone, Debug, PartialEq)]
pub struct MEntry {
    pub uuid: Uuid,
    pub times: MTimes,
    pub fields: Vec<MField>,
    pub history: Vec<MEntry>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct MGroup {
    pub uuid: Uuid,
    pub name: String,
    pub times: MTimes,
    pub entries: Vec<MEntry>,
    pub groups: Vec<MGroup>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct MDb {
    pub name: String,
    pub desc: String,
    pub custom: Vec<MField>,
    pub mp: [bool; 5], // title user password url notes
    pub root: MGroup,
}

pub fn date(y: i32, mo: u32, d: u32, h: u32, mi: u32, s: u32) -> NaiveDateTime {
    NaiveDate::from_ymd_opt(y, mo, d).unwrap().and_hms_opt(h, mi, s).unwrap()
}

const SPECIAL: [&str; 36] = [
    "", " ", "  lead", "trail  ", "\t", "\n", "a\r\nb", "\r", "<", ">", "&", "\"", "'", "&amp;", "]]>", "<![CDATA[x]]>",
    "<!-- c -->", "é", "日本語", "\u{1F511}", "\u{7f}", "\u{85}", "\u{2028}", "\u{FFFD}", "%3D=?&", "&#x20;", "True",
    "\u{feff}", "\u{e000}", "  \n \t ", "end\n", "\nstart", "end\r\n", "two\n\n", "Ünï cödé ", "x=y&z=w#q",
];
/// text that need not fit into a document
pub fn any_text(r: &mut Rng) -> String {
    match r.below(5) {
        0 => r.pick(&["\0", "a\0b", "\0\0", "a\0", "\u{1}", "\u{8}x", "x\u{1f}", "\u{fffe}", "\u{ffff}", "\u{10ffff}", "\u{1b}[0m"]).to_string(),
        1 => r.pick(&SPECIAL).to_string(),
        2 => {
            let n = r.below(12);
            (0..n).filter_map(|_| char::from_u32(r.next() as u32 % 0x11_0000)).collect()
        }
        _ => text(r),
    }
}
/// text that every XML 1.0 document can carry
pub fn text(r: &mut Rng) -> String {
    match r.below(8) {
        0 => r.pick(&SPECIAL).to_string(),
        1 => {
            let mut s = String::new();
            for _ in 0..r.below(6) {
                s.push_str(r.pick(&SPECIAL));
            }
            s
        }
        2 => "long ".repeat(1 + r.below(300)),
        _ => {
            let n = 1 + r.below(24);
            (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
        }
    }
}
pub fn name(r: &mut Rng) -> String {
    loop {
        let t = text(r);
        if !t.is_empty() {
            return t;
        }
    }
}
pub fn field(r: &mut Rng) -> MField {
    let key = if r.chance(2) {
        r.pick(&["Title", "UserName", "Password", "URL", "Notes", "otp"]).to_string()
    } else {
        name(r)
    };
    MField { key, val: if r.chance(8) { None } else { Some(text(r)) }, prot: r.chance(2) }
}
pub fn when(r: &mut Rng) -> NaiveDateTime {
    let base = date(1, 1, 1, 0, 0, 0);
    match r.below(6) {
        0 => base,
        1 => date(9999, 12, 31, 23, 59, 59),
        2 => date(2000, 2, 29, 23, 59, 59),
        3 => base + TimeDelta::seconds((r.next() % 315_000_000_000) as i64),
        _ => date(1990, 1, 1, 0, 0, 0) + TimeDelta::seconds((r.next() % 2_000_000_000) as i64),
    }
}
pub fn times(r: &mut Rng) -> MTimes {
    MTimes {
        t: [when(r), when(r), when(r), when(r), when(r)],
        expires: r.chance(2),
        usage: match r.below(4) {
            0 => 0,
            1 => u32::MAX,
            _ => r.next() as u32 % 1000,
        },
    }
}
pub fn uuid(r: &mut Rng) -> Uuid {
    let mut b = [0u8; 16];
    b.copy_from_slice(&r.bytes(16));
    if r.chance(24) {
        b = *r.pick(&[[0; 16], [0xff; 16], [0x20; 16], [1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]]);
    }
    Uuid::from_bytes(b)
}
/// another UUID that differs in one bit
pub fn near(u: Uuid, r: &mut Rng) -> Uuid {
    Uuid::from_u128(u.as_u128() ^ (1 << r.below(128)))
}
pub fn entry(r: &mut Rng, hist: usize) -> MEntry {
    let n = r.below(5);
    let h = if hist > 0 && r.chance(2) { r.below(3) } else { 0 };
    MEntry {
        uuid: uuid(r),
        times: times(r),
        fields: (0..n).map(|_| field(r)).collect(),
        history: (0..h).map(|_| entry(r, hist - 1)).collect(),
    }
}
pub fn group_name(r: &mut Rng) -> String {
    if r.chance(4) {
        r.pick(&["Recycle Bin", "Root", "General", "Backup", "Templates", "Trash", "Papierkorb", "root", "recycle bin"]).to_string()
    } else {
        text(r)
    }
}
pub fn group(r: &mut Rng, depth: usize) -> MGroup {
    let n = r.below(4);
    let g = if depth > 0 { r.below(4) } else { 0 };
    MGroup {
        uuid: uuid(r),
        name: group_name(r),
        times: times(r),
        entries: (0..n).map(|_| entry(r, 2)).collect(),
        groups: (0..g).map(|_| group(r, depth - 1)).collect(),
    }
}
pub fn db(r: &mut Rng, depth: usize) -> MDb {
    let n = r.below(4);
    MDb {
        name: text(r),
        desc: text(r),
        custom: (0..n).map(|_| field(r)).collect(),
        mp: [r.chance(2), r.chance(2), r.chance(2), r.chance(2), r.chance(2)],
        root: group(r, depth),
    }
}
/// databases with a lot of one thing
pub const WIDE: usize = 9;
pub fn wide(r: &mut Rng, what: usize) -> MDb {
    let mut d = db(r, 0);
    let mut e = entry(r, 0);
    let f = |i: usize, v: String, prot: bool| MField { key: format!("key {}", i), val: Some(v), prot };
    let n = 300;
    match what {
        0 => e.fields = (0..n).map(|i| f(i, format!("v{}", i), i % 3 == 0)).collect(),
        1 => e.history = (0..n).map(|_| entry(r, 0)).collect(),
        2 => d.root.entries = (0..n).map(|_| entry(r, 0)).collect(),
        3 => {
            d.root.groups = (0..n)
                .map(|_| {
                    let mut g = group(r, 0);
                    g.entries.truncate(1);
                    g
                })
                .collect()
        }
        4 => d.custom = (0..n).map(|i| f(i, format!("v{}", i), i % 3 == 0)).collect(),
        5 => {
            for i in 0..80 {
                let mut g = group(r, 0);
                g.entries.truncate(1 + i % 2);
                g.name = format!("level {}", i);
                let old = std::mem::replace(&mut d.root, g);
                d.root.groups.push(old);
            }
        }
        6 => e.fields = [255usize, 256, 1023, 1024, 1025, 4096, 65535, 65536, 100_000].iter().enumerate().map(|(i, n)| f(i, "ab é".chars().cycle().take(*n).collect(), i % 2 == 0)).collect(),
        7 => {
            e.fields = [255usize, 256, 1023, 1024, 1025, 4096, 65535, 65536, 100_000].iter().enumerate().map(|(i, n)| f(i, "s".repeat(*n), i % 2 == 1)).collect();
            for (i, x) in e.fields.iter_mut().enumerate() {
                x.key = "k".repeat(1 << (2 * i));
            }
        }
        _ => {
            // versions that have versions
            let mut v = entry(r, 0);
            for _ in 0..12 {
                let mut o = entry(r, 0);
                o.history.push(v);
                v = o;
            }
            e = v;
            d.name = "n".repeat(70_000);
            d.desc = "d".repeat(70_000);
            d.root.name = "r".repeat(70_000);
        }
    }
    d.root.entries.push(e);
    d
}
/// a database whose XML form is roughly `size` bytes of text that does not compress
pub fn bulky(r: &mut Rng, size: usize) -> MDb {
    let mut d = db(r, 1);
    let val = |n: usize, r: &mut Rng| -> String {
        r.bytes(n).iter().map(|b| char::from_u32(0x21 + (*b as u32) % 90).unwrap()).filter(|c| !"<>&".contains(*c)).collect()
    };
    let mut e = entry(r, 0);
    let v = val(size / 2, r);
    e.fields.push(MField { key: "bulk".into(), val: Some(v), prot: false });
    let v = val(size / 3, r);
    e.fields.push(MField { key: "bulk2".into(), val: Some(v), prot: true });
    d.root.entries.push(e);
    d
}

fn canon(v: Option<&str>) -> Option<String> {
    v.filter(|s| !s.is_empty()).map(|s| s.to_string())
}
impl MField {
    pub fn lib(&self) -> Field {
        let mut f = if self.prot {
            Field::new_protected(&self.key, self.val.as_deref().unwrap_or("x"))
        } else {
            Field::new(&self.key, self.val.as_deref().unwrap_or("x"))
        };
        if self.val.is_none() {
            f.clear();
        }
        f
    }
    pub fn of(f: &Field) -> MField {
        MField { key: f.key().into(), val: canon(f.value()), prot: f.protected() }
    }
    /// keeps the difference between empty and absent
    pub fn exact(f: &Field) -> MField {
        MField { key: f.key().into(), val: f.value().map(|s| s.to_string()), prot: f.protected() }
    }
    pub fn canon(&self) -> MField {
        MField { val: canon(self.val.as_deref()), ..self.clone() }
    }
}
impl MTimes {
    pub fn put(&self, t: &mut Times) {
        t.last_modification_time = self.t[0];
        t.creation_time = self.t[1];
        t.last_access_time = self.t[2];
        t.location_changed = self.t[3];
        t.expiry_time = self.t[4];
        t.expires = self.expires;
        t.usage_count = self.usage;
    }
    pub fn of(t: &Times) -> MTimes {
        MTimes {
            t: [t.last_modification_time, t.creation_time, t.last_access_time, t.location_changed, t.expiry_time],
            expires: t.expires,
            usage: t.usage_count,
        }
    }
}
impl MEntry {
    pub fn lib(&self) -> Entry {
        let mut e = Entry::default();
        e.set_uuid(self.uuid);
        self.times.put(e.times_mut());
        for f in &self.fields {
            e.add_field(f.lib());
        }
        for h in &self.history {
            e.history_mut().push(h.lib());
        }
        e
    }
    pub fn of(e: &Entry) -> MEntry {
        MEntry {
            uuid: e.uuid(),
            times: MTimes::of(e.times()),
            fields: e.fields().map(MField::of).collect(),
            history: e.history().entries().map(MEntry::of).collect(),
        }
    }
    pub fn exact(e: &Entry) -> MEntry {
        MEntry {
            uuid: e.uuid(),
            times: MTimes::of(e.times()),
            fields: e.fields().map(MField::exact).collect(),
            history: e.history().entries().map(MEntry::exact).collect(),
        }
    }
    pub fn canon(&self) -> MEntry {
        MEntry {
            fields: self.fields.iter().map(|f| f.canon()).collect(),
            history: self.history.iter().map(|h| h.canon()).collect(),
            ..self.clone()
        }
    }
}
impl MGroup {
    pub fn lib(&self) -> Group {
        let mut g = Group::new(&self.name);
        g.set_uuid(self.uuid);
        self.times.put(g.times_mut());
        for e in &self.entries {
            g.add_entry(e.lib());
        }
        for c in &self.groups {
            g.add_group(c.lib());
        }
        g
    }
    pub fn of(g: &Group) -> MGroup {
        MGroup {
            uuid: g.uuid(),
            name: g.name().into(),
            times: MTimes::of(g.times()),
            entries: g.entries().map(MEntry::of).collect(),
            groups: g.groups().map(MGroup::of).collect(),
        }
    }
    pub fn exact(g: &Group) -> MGroup {
        MGroup {
            uuid: g.uuid(),
            name: g.name().into(),
            times: MTimes::of(g.times()),
            entries: g.entries().map(MEntry::exact).collect(),
            groups: g.groups().map(MGroup::exact).collect(),
        }
    }
    pub fn canon(&self) -> MGroup {
        MGroup {
            entries: self.entries.iter().map(|e| e.canon()).collect(),
            groups: self.groups.iter().map(|e| e.canon()).collect(),
            ..self.clone()
        }
    }
}
impl MDb {
    pub fn lib(&self) -> Database {
        let mut d = Database::default();
        d.set_name(&self.name);
        d.set_description(&self.desc);
        d.meta_mut().custom_data = self.custom.iter().map(|f| f.lib()).collect();
        d.meta_mut().memory_protection = MemoryProtection {
            protect_title: self.mp[0],
            protect_user_name: self.mp[1],
            protect_password: self.mp[2],
            protect_url: self.mp[3],
            protect_notes: self.mp[4],
        };
        d.replace_root(self.root.lib());
        d
    }
    pub fn of(d: &Database) -> MDb {
        let m = &d.meta().memory_protection;
        MDb {
            name: d.name().into(),
            desc: d.description().into(),
            custom: d.meta().custom_data.iter().map(MField::of).collect(),
            mp: [m.protect_title, m.protect_user_name, m.protect_password, m.protect_url, m.protect_notes],
            root: MGroup::of(d.root()),
        }
    }
    pub fn canon(&self) -> MDb {
        MDb { custom: self.custom.iter().map(|f| f.canon()).collect(), root: self.root.canon(), ..self.clone() }
    }
}

/// first difference between two debug renderings, for messages
pub fn diff<T: std::fmt::Debug + PartialEq>(what: &str, want: &T, got: &T) -> Result<(), String> {
    crate::evaluated(what, format!("{:?}", want).as_bytes());
    if want == got {
        return Ok(());
    }
    let (a, b) = (format!("{:?}", want), format!("{:?}", got));
    let (ca, cb): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    let i = ca.iter().zip(&cb).position(|(x, y)| x != y).unwrap_or(ca.len().min(cb.len()));
    let s = i.saturating_sub(60);
    let cut = |c: &Vec<char>| -> String { c[s.min(c.len())..(i + 100).min(c.len())].iter().collect() };
    Err(format!("{}: expected …{}… got …{}…", what, cut(&ca), cut(&cb)))
}

// ---------------------------------------------------------------- XML

pub fn esc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;")
}
pub fn enc_date(d: NaiveDateTime) -> String {
    let s = d.signed_duration_since(date(1, 1, 1, 0, 0, 0)).num_seconds();
    BASE64_STANDARD.encode(s.to_le_bytes())
}

/// Writes XML as another program might: own element order, unknown elements,
/// comments, CDATA, different ways to write the same thing.
pub struct XmlOut<'a> {
    pub ks: &'a mut Ks,
    pub r: &'a mut Rng,
    /// 0 canonical order, 1 shuffled with unknown elements
    pub wild: bool,
    pub kdbx3: bool,
    pub out: String,
}
impl XmlOut<'_> {
    fn junk(&mut self) {
        if !self.wild {
            return;
        }
        match self.r.below(19) {
            0 => self.out.push_str("<!-- <Group><Name>no</Name></Group> -->"),
            1 => self.out.push_str("\r\n\t "),
            2 => self.out.push_str("<Unknown/>"),
            3 => self.out.push_str("<CustomIconUUID>AAAA</CustomIconUUID>"),
            4 => self.out.push_str("<?pi some?>"),
            5 => self.out.push_str("<Tags a=\"b\">x &amp; y</Tags>"),
            6 => {
                // an attachment: protected, so it uses up key stream
                let n = 1 + self.r.below(40);
                let plain = self.r.bytes(n);
                let c = BASE64_STANDARD.encode(self.ks.apply(&plain));
                self.out.push_str(&format!("<Binary><Key>a.txt</Key><Value Protected=\"True\">{}</Value></Binary>", c));
            }
            8 => {
                let n = *self.r.pick(&[2usize, 9, 17, 40]);
                let c = self.hidden();
                self.out.push_str(&format!("{}<Key>k</Key>{}{}", "<Group>".repeat(n), c, "</Group>".repeat(n)).replace("Group>", "Deep>"));
            }
            9 => {
                // several protected values at several depths, plain ones between them
                let (a, b, c) = (self.hidden(), self.hidden(), self.hidden());
                self.out.push_str(&format!("<Plugin Protected=\"False\">{}<A>plain<B>{}</B></A><Value>x</Value>{}<C/></Plugin>", a, b, c));
            }
            7 => self.out.push_str(
                "<Plugin><Name>nested</Name><UUID>bad</UUID><Entry><String><Key>k</Key></String></Entry><Times/>\
                 <ProtectTitle>True</ProtectTitle><DatabaseName>other</DatabaseName><UsageCount>7</UsageCount>\
                 <Group><Group/></Group><Item><Key>q</Key></Item><Meta/><Root/><Expires>True</Expires><Value>v</Value></Plugin>",
            ),
            _ => {}
        }
    }
    /// an unknown protected element
    fn hidden(&mut self) -> String {
        let n = self.r.below(70);
        let plain = self.r.bytes(n);
        let c = BASE64_STANDARD.encode(self.ks.apply(&plain));
        match self.r.below(3) {
            0 => format!("<H Protected=\"True\">{}</H>", c),
            1 => format!("<H Ref=\"1\" Protected=\"true\"> {}\n</H>", c),
            _ => format!("<Value x=\"True\" Protected=\"TRUE\">{}<!-- end --></Value>", c),
        }
    }
    fn txt(&mut self, s: &str) -> String {
        if self.wild && self.r.chance(4) && !s.contains("]]>") && !s.is_empty() {
            let cut = s.char_indices().map(|x| x.0).nth(s.chars().count() / 2).unwrap_or(0);
            return match self.r.below(4) {
                0 => format!("{}<!-- here -->{}", esc(&s[..cut]), esc(&s[cut..])),
                1 => format!("{}<?note here?>{}", esc(&s[..cut]), esc(&s[cut..])),
                _ => format!("{}<![CDATA[{}]]>", esc(&s[..cut]), &s[cut..]),
            };
        }
        esc(s)
    }
    fn el(&mut self, tag: &str, s: &str) {
        if s.is_empty() && self.wild && self.r.chance(2) {
            self.out.push_str(&format!("<{}/>", tag));
            return;
        }
        let t = self.txt(s);
        self.out.push_str(&format!("<{}>{}</{}>", tag, t, tag));
    }
    fn boolean(&mut self, tag: &str, b: bool) {
        let s = match (b, self.wild && self.r.chance(2)) {
            (true, false) => "True",
            (true, true) => "true",
            (false, false) => "False",
            (false, true) => "false",
        };
        self.el(tag, s);
    }
    fn dt(&mut self, tag: &str, d: NaiveDateTime) {
        let s = if self.kdbx3 { d.format("%Y-%m-%dT%H:%M:%SZ").to_string() } else { enc_date(d) };
        self.el(tag, &s);
    }
    pub fn fld(&mut self, wrap: &str, f: &MField) {
        self.out.push_str(&format!("<{}>", wrap));
        self.junk();
        self.el("Key", &f.key);
        self.junk();
        let v = f.val.clone().unwrap_or_default();
        if f.prot {
            let c = BASE64_STANDARD.encode(self.ks.apply(v.as_bytes()));
            let attr = if self.wild && self.r.chance(2) { "true" } else { "True" };
            let c = match self.r.below(if self.wild { 6 } else { 1 }) {
                1 => format!("\n\t{}", c),
                2 => format!("{}\r\n", c),
                3 => format!("{}<!-- x -->{}", &c[..c.len() / 2], &c[c.len() / 2..]),
                4 => format!("<![CDATA[{}]]>", c),
                _ => c,
            };
            self.out.push_str(&format!("<Value Protected=\"{}\">{}</Value>", attr, c));
        } else {
            let attr = match self.r.below(if self.wild { 16 } else { 1 }) {
                1..=3 => " Protected=\"False\"",
                4 => " ProtectInMemory=\"True\"",
                5 => " protected=\"True\"",
                6 => " NotProtected=\"True\"",
                7 => " Protected=\"\"",
                8 => " Ref=\"True\"",
                _ => "",
            };
            let t = self.txt(&v);
            self.out.push_str(&format!("<Value{}>{}</Value>", attr, t));
        }
        self.junk();
        self.out.push_str(&format!("</{}>", wrap));
    }
    fn times(&mut self, t: &MTimes) {
        self.out.push_str("<Times>");
        let mut o = [0, 1, 2, 3, 4, 5, 6];
        self.shuffle(&mut o);
        for i in o {
            self.junk_t();
            match i {
                0 => self.dt("LastModificationTime", t.t[0]),
                1 => self.dt("CreationTime", t.t[1]),
                2 => self.dt("LastAccessTime", t.t[2]),
                3 => self.dt("LocationChanged", t.t[3]),
                4 => self.dt("ExpiryTime", t.t[4]),
                5 => self.boolean("Expires", t.expires),
                _ => self.el("UsageCount", &t.usage.to_string()),
            }
        }
        self.out.push_str("</Times>");
    }
    fn junk_t(&mut self) {
        if self.wild && self.r.chance(5) {
            self.out.push_str("<Other><CreationTime>x</CreationTime><Expires>True</Expires></Other>");
        }
    }
    fn shuffle(&mut self, o: &mut [usize]) {
        if self.wild {
            for i in (1..o.len()).rev() {
                o.swap(i, self.r.below(i + 1));
            }
        }
    }
    pub fn entry(&mut self, e: &MEntry) {
        self.out.push_str("<Entry>");
        // fields keep their order; the other parts may come anywhere between them
        let n = e.fields.len();
        let (mut pu, mut pt, mut ph) = (0, 0, n);
        if self.wild {
            pu = self.r.below(n + 1);
            pt = self.r.below(n + 1);
            ph = self.r.below(n + 1);
        }
        for i in 0..=n {
            if i == pu {
                self.junk();
                self.el("UUID", &BASE64_STANDARD.encode(e.uuid.as_bytes()));
            }
            if i == pt {
                self.junk();
                self.times(&e.times);
            }
            if i == ph && !e.history.is_empty() {
                self.junk();
                self.out.push_str("<History>");
                self.junk_h();
                for h in &e.history {
                    self.entry(h);
                    self.junk_h();
                }
                self.out.push_str("</History>");
            }
            if i < n {
                self.junk();
                self.fld("String", &e.fields[i]);
            }
        }
        self.junk();
        self.out.push_str("</Entry>");
    }
    fn junk_h(&mut self) {
        if self.wild && self.r.chance(5) {
            self.out.push_str("<Old><Entry><UUID>x</UUID></Entry></Old>");
        }
        self.junk();
    }
    pub fn group(&mut self, g: &MGroup) {
        self.out.push_str("<Group>");
        let mut o = [0, 1, 2, 3, 4];
        self.shuffle(&mut o);
        for i in o {
            self.junk();
            match i {
                0 => self.el("UUID", &BASE64_STANDARD.encode(g.uuid.as_bytes())),
                1 => self.el("Name", &g.name),
                2 => self.times(&g.times),
                3 => {
                    for e in &g.entries {
                        self.entry(e);
                        self.junk();
                    }
                }
                _ => {
                    for c in &g.groups {
                        self.group(c);
                        self.junk();
                    }
                }
            }
        }
        self.out.push_str("</Group>");
    }
    pub fn meta(&mut self, d: &MDb) {
        self.out.push_str("<Meta>");
        let mut o = [0, 1, 2, 3, 4];
        self.shuffle(&mut o);
        for i in o {
            self.junk();
            match i {
                0 => self.el("Generator", "another program"),
                1 => self.el("DatabaseName", &d.name),
                2 => self.el("DatabaseDescription", &d.desc),
                3 => {
                    self.out.push_str("<CustomData>");
                    self.junk();
                    for f in &d.custom {
                        self.fld("Item", f);
                        self.junk();
                    }
                    self.out.push_str("</CustomData>");
                }
                _ => {
                    self.out.push_str("<MemoryProtection>");
                    let mut p = [0, 1, 2, 3, 4];
                    self.shuffle(&mut p);
                    for j in p {
                        let tag = ["ProtectTitle", "ProtectUserName", "ProtectPassword", "ProtectURL", "ProtectNotes"][j];
                        self.boolean(tag, d.mp[j]);
                        if self.wild && self.r.chance(5) {
                            self.out.push_str("<X><ProtectURL>True</ProtectURL><ProtectNotes>False</ProtectNotes></X>");
                        }
                    }
                    self.out.push_str("</MemoryProtection>");
                }
            }
        }
        self.out.push_str("</Meta>");
    }
    pub fn doc(mut self, d: &MDb) -> String {
        self.out.push_str("<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?>\n<KeePassFile>");
        self.junk();
        self.meta(d);
        self.junk();
        self.out.push_str("<Root>");
        self.junk();
        self.group(&d.root);
        self.junk();
        if self.wild {
            self.out.push_str("<DeletedObjects><DeletedObject><UUID>AAAA</UUID></DeletedObject></DeletedObjects>");
        }
        self.out.push_str("</Root>");
        self.junk();
        self.out.push_str("</KeePassFile>");
        self.out
    }
}

pub fn xml_of(d: &MDb, ks: &mut Ks, r: &mut Rng, wild: bool, kdbx3: bool) -> String {
    XmlOut { ks, r, wild, kdbx3, out: String::new() }.doc(d)
}

/// simple document tree
#[derive(Debug, Clone, Default)]
pub struct El {
    pub tag: String,
    pub attrs: Vec<(String, String)>,
    pub text: String,
    pub kids: Vec<El>,
}
impl El {
    pub fn all(&self, tag: &str) -> Vec<&El> {
        self.kids.iter().filter(|k| k.tag == tag).collect()
    }
    pub fn one(&self, tag: &str) -> Result<&El, String> {
        let v = self.all(tag);
        if v.len() == 1 {
            Ok(v[0])
        } else {
            Err(format!("{} has {} <{}>", self.tag, v.len(), tag))
        }
    }
    pub fn t(&self, tag: &str) -> Result<String, String> {
        Ok(self.one(tag)?.text.clone())
    }
}
pub fn dom(xml: &[u8]) -> Result<El, String> {
    use xml::reader::XmlEvent as E;
    let cfg = xml::ParserConfig::new().whitespace_to_characters(true).cdata_to_characters(true);
    let mut stack = vec![El::default()];
    for e in xml::reader::EventReader::new_with_config(xml, cfg) {
        match e.map_err(|e| e.to_string())? {
            E::StartElement { name, attributes, .. } => stack.push(El {
                tag: name.local_name,
                attrs: attributes.into_iter().map(|a| (a.name.local_name, a.value)).collect(),
                ..Default::default()
            }),
            E::Characters(s) => stack.last_mut().unwrap().text.push_str(&s),
            E::EndElement { .. } => {
                let e = stack.pop().unwrap();
                stack.last_mut().unwrap().kids.push(e);
            }
            _ => {}
        }
    }
    let r = stack.pop().ok_or("empty")?;
    r.kids.into_iter().next().ok_or("no root element".into())
}
/// reads a document tree written by the library, decrypting in document order
pub struct DomIn<'a>(pub &'a mut Ks);
impl DomIn<'_> {
    fn b(s: &str) -> Result<bool, String> {
        match s {
            "True" => Ok(true),
            "False" => Ok(false),
            x => Err(format!("boolean {:?}", x)),
        }
    }
    fn d(s: &str) -> Result<NaiveDateTime, String> {
        let b = BASE64_STANDARD.decode(s).map_err(|e| e.to_string())?;
        let n = i64::from_le_bytes(b.try_into().map_err(|_| "date length")?);
        Ok(date(1, 1, 1, 0, 0, 0) + TimeDelta::seconds(n))
    }
    fn u(s: &str) -> Result<Uuid, String> {
        Uuid::from_slice(&BASE64_STANDARD.decode(s).map_err(|e| e.to_string())?).map_err(|e| e.to_string())
    }
    fn field(&mut self, e: &El) -> Result<MField, String> {
        let v = e.one("Value")?;
        let prot = v.attrs.iter().any(|a| a.0 == "Protected" && a.1 == "True");
        let text = if prot {
            let c = BASE64_STANDARD.decode(&v.text).map_err(|_| format!("protected value is not base64: {:?}", v.text))?;
            String::from_utf8(self.0.apply(&c)).map_err(|_| "protected value does not decrypt".to_string())?
        } else {
            v.text.clone()
        };
        Ok(MField { key: e.t("Key")?, val: canon(Some(&text)), prot })
    }
    fn times(&self, e: &El) -> Result<MTimes, String> {
        Ok(MTimes {
            t: [
                Self::d(&e.t("LastModificationTime")?)?,
                Self::d(&e.t("CreationTime")?)?,
                Self::d(&e.t("LastAccessTime")?)?,
                Self::d(&e.t("LocationChanged")?)?,
                Self::d(&e.t("ExpiryTime")?)?,
            ],
            expires: Self::b(&e.t("Expires")?)?,
            usage: e.t("UsageCount")?.parse().map_err(|_| "UsageCount")?,
        })
    }
    /// children in document order, so the key stream is applied in document order
    fn entry(&mut self, e: &El) -> Result<MEntry, String> {
        let mut fields = vec![];
        let mut history = vec![];
        for k in &e.kids {
            match k.tag.as_str() {
                "String" => fields.push(self.field(k)?),
                "History" => {
                    for h in &k.kids {
                        history.push(self.entry(h)?)
                    }
                }
                _ => {}
            }
        }
        Ok(MEntry { uuid: Self::u(&e.t("UUID")?)?, times: self.times(e.one("Times")?)?, fields, history })
    }
    fn group(&mut self, e: &El) -> Result<MGroup, String> {
        let mut entries = vec![];
        let mut groups = vec![];
        for k in &e.kids {
            match k.tag.as_str() {
                "Entry" => entries.push(self.entry(k)?),
                "Group" => groups.push(self.group(k)?),
                _ => {}
            }
        }
        Ok(MGroup { uuid: Self::u(&e.t("UUID")?)?, name: e.t("Name")?, times: self.times(e.one("Times")?)?, entries, groups })
    }
    /// all top-level groups
    pub fn roots(&mut self, e: &El) -> Result<Vec<MGroup>, String> {
        for i in &e.one("Meta")?.one("CustomData")?.kids {
            self.field(i)?;
        }
        e.one("Root")?.all("Group").into_iter().map(|g| self.group(g)).collect()
    }
    pub fn db(&mut self, e: &El) -> Result<MDb, String> {
        if e.tag != "KeePassFile" {
            return Err(format!("root element {}", e.tag));
        }
        let m = e.one("Meta")?;
        let mut custom = vec![];
        for i in &m.one("CustomData")?.kids {
            custom.push(self.field(i)?);
        }
        let p = m.one("MemoryProtection")?;
        Ok(MDb {
            name: m.t("DatabaseName")?,
            desc: m.t("DatabaseDescription")?,
            custom,
            mp: [
                Self::b(&p.t("ProtectTitle")?)?,
                Self::b(&p.t("ProtectUserName")?)?,
                Self::b(&p.t("ProtectPassword")?)?,
                Self::b(&p.t("ProtectURL")?)?,
                Self::b(&p.t("ProtectNotes")?)?,
            ],
            root: self.group(e.one("Root")?.one("Group")?)?,
        })
    }
}

//! Samples the contracts assumed of external crates and std (shims/) on the real ones.
//! Not part of any check: `cargo run --offline --example assumptions`.
use base64::prelude::{Engine, BASE64_STANDARD};
use chrono::{NaiveDate, TimeDelta, Timelike};
use xml::reader::{EventReader, ParserConfig, XmlEvent as In};
use xml::writer::{EmitterConfig, EventWriter, XmlEvent as Out};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Start(String, Vec<(String, String)>),
    End(String),
    Text(String),
    Done,
    Other,
}

const NAMES: [&str; 6] = ["KeePassFile", "Group", "Entry", "Value", "String", "CustomData"];

fn text(r: &mut Rng) -> String {
    let n = [0, 0, 1, 2, 5, 40][r.below(6) as usize];
    (0..n)
        .map(|_| match r.below(8) {
            0 => ' ',
            1 => '\n',
            2 => '\t',
            3 => '\r',
            4 => ['<', '>', '&', '"', '\'', ']'][r.below(6) as usize],
            5 => ['\u{85}', '\u{2028}', '\u{FFFD}', '\u{10FFFF}', '\u{A0}', '\u{7f}'][r.below(6) as usize],
            _ => (b'a' + r.below(26) as u8) as char,
        })
        .collect()
}

/// events accepted by the writer's contract: one root, no two texts in a row
fn element(r: &mut Rng, depth: u64, w: &mut Vec<Ev>) {
    let n = NAMES[r.below(6) as usize].to_string();
    let a = if r.below(3) == 0 { vec![("Protected".to_string(), text(r))] } else { vec![] };
    w.push(Ev::Start(n.clone(), a));
    for _ in 0..r.below(4) {
        if r.below(2) == 0 && !matches!(w.last(), Some(Ev::Text(_))) {
            w.push(Ev::Text(text(r)));
        } else if depth > 0 {
            element(r, depth - 1, w);
        }
    }
    w.push(Ev::End(n));
}

fn heard<'a>(mut prev: Ev, w: &[Ev], mut evs: &'a [Ev]) -> Option<&'a [Ev]> {
    for x in w {
        if *x != Ev::Text(String::new()) {
            let gap = matches!(x, Ev::Start(..)) && !matches!(prev, Ev::Text(_)) || matches!(x, Ev::End(_)) && matches!(prev, Ev::End(_));
            if gap && matches!(evs.first(), Some(Ev::Text(_))) {
                evs = &evs[1..];
            }
            if evs.first() != Some(x) {
                return None;
            }
            evs = &evs[1..];
        }
        prev = x.clone();
    }
    Some(evs)
}

fn layout(r: &mut Rng, indent: bool) {
    let mut w = vec![];
    let depth = r.below(5);
    element(r, depth, &mut w);
    let mut out = vec![];
    {
        let config = if indent { EmitterConfig::default().perform_indent(true).indent_string("\t") } else { EmitterConfig::default() };
        let mut e = EventWriter::new_with_config(&mut out, config);
        for x in &w {
            match x {
                Ev::Start(n, a) => {
                    let mut s = Out::start_element(n.as_str());
                    for (k, v) in a {
                        s = s.attr(k.as_str(), v);
                    }
                    e.write(s).unwrap()
                }
                Ev::End(_) => e.write(Out::end_element()).unwrap(),
                Ev::Text(t) => e.write(Out::characters(t)).unwrap(),
                _ => unreachable!(),
            }
        }
    }
    let mut reader = EventReader::new_with_config(out.as_slice(), ParserConfig::new().whitespace_to_characters(true).cdata_to_characters(true));
    let mut evs = vec![];
    loop {
        let e = match reader.next().unwrap() {
            In::StartElement { name, attributes, .. } => Ev::Start(name.local_name, attributes.into_iter().map(|a| (a.name.local_name, a.value)).collect()),
            In::EndElement { name } => Ev::End(name.local_name),
            In::Characters(t) => Ev::Text(t),
            In::EndDocument => Ev::Done,
            _ => Ev::Other,
        };
        let done = e == Ev::Done;
        evs.push(e);
        if done {
            break;
        }
    }
    assert!(matches!(reader.next(), Ok(In::EndDocument)), "the document ends for ever");
    assert_eq!(evs[0], Ev::Other);
    assert_eq!(heard(Ev::Other, &w, &evs[1..]), Some(&[Ev::Done][..]), "{:?}\n{:?}\n{}", w, evs, String::from_utf8_lossy(&out));
}

fn main() {
    let mut r = Rng(1);
    for i in 0..200_000 {
        layout(&mut r, i % 2 == 0);
    }
    for _ in 0..200_000 {
        let n = r.below(80) as usize;
        let b: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
        let t = BASE64_STANDARD.encode(&b);
        assert_eq!(BASE64_STANDARD.decode(&t).unwrap(), b);
        assert_eq!(t.is_empty(), b.is_empty());
        assert!(t.chars().all(|c| ('!'..='~').contains(&c)) && t.trim() == t);
        let x = r.next() as u32 >> r.below(32);
        let d = x.to_string();
        assert!(!d.is_empty() && d.chars().all(|c| c.is_ascii_digit()) && d.trim() == d && d.parse() == Ok(x));
        let s = text(&mut r);
        assert!(s.chars().count() <= s.len() && s.len() <= 4 * s.chars().count());
    }
    assert!(('!'..='~').all(|c| !c.is_whitespace()));
    assert_eq!(("True".to_lowercase().as_str(), "False".to_lowercase().as_str()), ("true", "false"));
    // seconds between times and the start of year 1, times with that many seconds
    let epoch = NaiveDate::from_ymd_opt(1, 1, 1).unwrap().and_hms_opt(0, 0, 0).unwrap();
    for _ in 0..500_000 {
        let s = (r.next() as i64) >> r.below(40).max(20);
        let n = if r.below(2) == 0 { 0 } else { r.below(1_000_000_000) as u32 };
        let Some(w) = TimeDelta::try_seconds(s).and_then(|x| epoch.checked_add_signed(x)) else { continue };
        assert_eq!(w.nanosecond(), 0);
        let d = w.with_nanosecond(n).unwrap();
        assert_eq!(d.with_nanosecond(0), Some(w));
        if n == 0 || s >= 0 {
            assert_eq!(d.signed_duration_since(epoch).num_seconds(), s);
        }
        assert_eq!(d == w, n == 0);
    }
    assert!(TimeDelta::try_seconds(9223372036854775).is_some() && TimeDelta::try_seconds(9223372036854776).is_none());
    assert!(TimeDelta::try_seconds(-9223372036854775).is_some() && TimeDelta::try_seconds(-9223372036854776).is_none());
    println!("all samples agree");
}

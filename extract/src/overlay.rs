//! Contract overlay files.
//!
//!   @prelude                 text inserted at the top of the module
//!   @type KEY opt opt        options for a type, impl, const or `mod X`
//!   @impl KEY                text inserted in the (first) impl or trait body
//!   @ghost TYPE              ghost fields, one per line: `name: Type = initial value`
//!   @pre KEY                 text inserted before the impl
//!   @fn KEY [mode]           starts a function; mode = verify|trust|skip
//!     @ret NAME
//!     @attr TEXT
//!     @spec                  requires/ensures/decreases
//!     @start                 proof text at the start of the body
//!     @tail                  proof text before the final expression (named r__)
//!     @loop N                invariants of loop N (pre-order)
//!     @loopstart N / @loopend N
//!     @closure N             `|params| -> (r: T) requires.. ensures..` header
//!     @call OLD => NEW       names the monomorphic stand-in of an overloaded callee
//!     @before TEXT / @after TEXT   proof text around the first statement containing TEXT

use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::Path;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Verify,
    Trust,
    Skip,
}

#[derive(Clone, Debug)]
pub struct FnOv {
    pub explicit: bool,
    pub mode: Mode,
    pub ret: Option<String>,
    pub attrs: Option<String>,
    pub spec: String,
    pub start: String,
    pub tail: String,
    pub loops: BTreeMap<usize, String>,
    pub loopstart: BTreeMap<usize, String>,
    pub loopend: BTreeMap<usize, String>,
    pub closures: BTreeMap<usize, String>,
    pub before: Vec<(String, String)>,
    pub after: Vec<(String, String)>,
    pub calls: Vec<(String, String)>,
}

impl Default for FnOv {
    fn default() -> Self {
        FnOv {
            explicit: false,
            mode: Mode::Verify,
            ret: None,
            attrs: None,
            spec: String::new(),
            start: String::new(),
            tail: String::new(),
            loops: Default::default(),
            loopstart: Default::default(),
            loopend: Default::default(),
            closures: Default::default(),
            before: vec![],
            after: vec![],
            calls: vec![],
        }
    }
}

#[derive(Default)]
pub struct Overlays {
    fns: BTreeMap<String, FnOv>,
    preludes: BTreeMap<String, String>,
    types: BTreeMap<String, BTreeSet<String>>,
    impls: BTreeMap<String, String>,
    pres: BTreeMap<String, String>,
    ghosts: BTreeMap<String, String>,
}

enum Sink {
    None,
    Prelude(String),
    Impl(String),
    Pre(String),
    Ghost(String),
    FnSpec(String),
    Start(String),
    Tail(String),
    Loop(String, usize),
    LoopStart(String, usize),
    LoopEnd(String, usize),
    Closure(String, usize),
    Before(String, String),
    After(String, String),
}

impl Overlays {
    pub fn load(dir: &Path) -> Overlays {
        let mut o = Overlays::default();
        let mut files: Vec<_> = fs::read_dir(dir)
            .unwrap()
            .filter_map(|e| e.ok())
            .map(|e| e.path())
            .filter(|p| p.extension().map(|e| e == "vc").unwrap_or(false))
            .collect();
        files.sort();
        for f in files {
            let stem = f.file_stem().unwrap().to_string_lossy().to_string();
            let module = if stem == "crate" {
                String::new()
            } else {
                stem.replace('.', "::")
            };
            o.parse(&module, &fs::read_to_string(&f).unwrap(), &f.display().to_string());
        }
        o
    }

    fn parse(&mut self, module: &str, text: &str, file: &str) {
        let q = |k: &str| -> String {
            if module.is_empty() {
                k.to_string()
            } else {
                format!("{}::{}", module, k)
            }
        };
        let mut cur = String::new();
        let mut sink = Sink::None;
        for (ln, l) in text.lines().enumerate() {
            if let Some(rest) = l.strip_prefix('@') {
                let (word, arg) = match rest.find(char::is_whitespace) {
                    Some(i) => (&rest[..i], rest[i..].trim()),
                    None => (rest, ""),
                };
                let n = || {
                    arg.split_whitespace().next().unwrap_or("").parse::<usize>().unwrap_or_else(|_| {
                        eprintln!("{}:{}: number expected", file, ln + 1);
                        std::process::exit(3)
                    })
                };
                sink = match word {
                    "#" => Sink::None,
                    "prelude" => Sink::Prelude(module.to_string()),
                    "type" => {
                        let mut w: Vec<&str> = arg.split("::opt::").collect();
                        // `@type KEY : opt opt`
                        if let Some((k, opts)) = arg.rsplit_once(" : ") {
                            w = vec![k.trim(), opts];
                        }
                        if w.len() == 2 {
                            let e = self
                                .types
                                .entry(if w[0].starts_with("mod ") {
                                    w[0].to_string()
                                } else {
                                    q(w[0])
                                })
                                .or_default();
                            for x in w[1].split_whitespace() {
                                e.insert(x.to_string());
                            }
                        }
                        Sink::None
                    }
                    "impl" => Sink::Impl(q(arg)),
                    "pre" => Sink::Pre(q(arg)),
                    "ghost" => Sink::Ghost(arg.to_string()),
                    "fn" => {
                        let (k, mode) = if let Some(k) = arg.strip_suffix(" trust") {
                            (k, Mode::Trust)
                        } else if let Some(k) = arg.strip_suffix(" skip") {
                            (k, Mode::Skip)
                        } else {
                            (arg, Mode::Verify)
                        };
                        cur = q(k.trim());
                        let e = self.fns.entry(cur.clone()).or_default();
                        e.explicit = true;
                        e.mode = mode;
                        Sink::None
                    }
                    "ret" => {
                        self.fns.get_mut(&cur).unwrap().ret = Some(arg.to_string());
                        Sink::None
                    }
                    "attr" => {
                        self.fns.get_mut(&cur).unwrap().attrs = Some(arg.to_string());
                        Sink::None
                    }
                    "call" => {
                        if let Some((a, b)) = arg.split_once(" => ") {
                            self.fns
                                .get_mut(&cur)
                                .unwrap()
                                .calls
                                .push((a.trim().replace(' ', ""), b.trim().to_string()));
                        }
                        Sink::None
                    }
                    "spec" => Sink::FnSpec(cur.clone()),
                    "start" => Sink::Start(cur.clone()),
                    "tail" => Sink::Tail(cur.clone()),
                    "loop" => Sink::Loop(cur.clone(), n()),
                    "loopstart" => Sink::LoopStart(cur.clone(), n()),
                    "loopend" => Sink::LoopEnd(cur.clone(), n()),
                    "closure" => Sink::Closure(cur.clone(), n()),
                    "before" => {
                        let f = self.fns.get_mut(&cur).unwrap();
                        f.before.push((arg.to_string(), String::new()));
                        Sink::Before(cur.clone(), arg.to_string())
                    }
                    "after" => {
                        let f = self.fns.get_mut(&cur).unwrap();
                        f.after.push((arg.to_string(), String::new()));
                        Sink::After(cur.clone(), arg.to_string())
                    }
                    _ => {
                        eprintln!("{}:{}: unknown directive @{}", file, ln + 1, word);
                        std::process::exit(3)
                    }
                };
                continue;
            }
            let put = |s: &mut String| {
                s.push_str(l);
                s.push('\n');
            };
            match &sink {
                Sink::None => {}
                Sink::Prelude(m) => put(self.preludes.entry(m.clone()).or_default()),
                Sink::Impl(k) => put(self.impls.entry(k.clone()).or_default()),
                Sink::Pre(k) => put(self.pres.entry(k.clone()).or_default()),
                Sink::Ghost(k) => put(self.ghosts.entry(k.clone()).or_default()),
                Sink::FnSpec(k) => put(&mut self.fns.get_mut(k).unwrap().spec),
                Sink::Start(k) => put(&mut self.fns.get_mut(k).unwrap().start),
                Sink::Tail(k) => put(&mut self.fns.get_mut(k).unwrap().tail),
                Sink::Loop(k, n) => put(self.fns.get_mut(k).unwrap().loops.entry(*n).or_default()),
                Sink::LoopStart(k, n) => {
                    put(self.fns.get_mut(k).unwrap().loopstart.entry(*n).or_default())
                }
                Sink::LoopEnd(k, n) => {
                    put(self.fns.get_mut(k).unwrap().loopend.entry(*n).or_default())
                }
                Sink::Closure(k, n) => {
                    put(self.fns.get_mut(k).unwrap().closures.entry(*n).or_default())
                }
                Sink::Before(k, _) => put(&mut self
                    .fns
                    .get_mut(k)
                    .unwrap()
                    .before
                    .last_mut()
                    .unwrap()
                    .1),
                Sink::After(k, _) => put(&mut self
                    .fns
                    .get_mut(k)
                    .unwrap()
                    .after
                    .last_mut()
                    .unwrap()
                    .1),
            }
        }
    }

    pub fn get_fn(&self, k: &str) -> FnOv {
        self.fns.get(k).cloned().unwrap_or_default()
    }
    pub fn fn_keys(&self) -> Vec<String> {
        self.fns.keys().cloned().collect()
    }
    pub fn type_opts(&self, k: &str) -> BTreeSet<String> {
        self.types.get(k).cloned().unwrap_or_default()
    }
    pub fn impl_text(&self, k: &str) -> String {
        self.impls.get(k).cloned().unwrap_or_default()
    }
    pub fn pre_text(&self, k: &str) -> String {
        self.pres.get(k).cloned().unwrap_or_default()
    }
    /// ghost fields added to a struct: type name -> (field, type, initial value)
    pub fn ghosts(&self) -> BTreeMap<String, Vec<(String, String, String)>> {
        self.ghosts
            .iter()
            .map(|(k, t)| {
                let v = t
                    .lines()
                    .filter_map(|l| {
                        let (f, rest) = l.trim().split_once(':')?;
                        let (ty, init) = rest.rsplit_once(" = ")?;
                        Some((f.trim().into(), ty.trim().into(), init.trim().into()))
                    })
                    .collect();
                (k.clone(), v)
            })
            .collect()
    }
    pub fn prelude(&self, m: &str) -> String {
        self.preludes.get(m).cloned().unwrap_or_default()
    }
}

//! The rewrite rules.  Every rule is local and documented in DESIGN.md.

use crate::overlay::FnOv;
use crate::print::Printer;
use crate::squash;
use proc_macro2::{Group, Ident, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;

const RENAME: &[&str] = &[
    "iter",
    "iter_mut",
    "extend",
    "to_vec",
    "to_le_bytes",
    "to_be_bytes",
    "chunks_exact",
    "chunks",
    "into_iter",
    "as_bytes",
    "to_string",
    "into_bytes",
    "trim",
    "to_lowercase",
    "parse",
    "chars",
    "split",
    "sort",
    "reverse",
    "rev",
    "as_slice",
    "to_owned",
    "push_str",
    "from_le",
    "concat",
];

const STD: &[(&str, &str)] = &[
    ("std::io", "crate::ext::io"),
    ("std::collections::HashMap", "crate::ext::map::HashMap"),
    ("std::string::FromUtf8Error", "crate::ext::string::FromUtf8Error"),
    ("std::iter::once", "crate::ext::eiter::once"),
    ("std::borrow::Cow", "crate::ext::string::Cow"),
    ("std::fs", "crate::ext::fs"),
    ("std::path", "crate::ext::fs"),
    ("std::collections", "crate::ext::map"),
    ("core::iter::once", "crate::ext::eiter::once"),
    ("ToString", "crate::ext::string::ToStringE"),
    ("std::mem::take", "crate::ext::prelude::mem_take"),
    ("std::mem::replace", "crate::ext::prelude::mem_replace"),
    ("String::from_utf8", "crate::ext::string::from_utf8"),
    ("u16::from_le_bytes", "crate::ext::prelude::u16_from_le_bytes"),
    ("u32::from_le_bytes", "crate::ext::prelude::u32_from_le_bytes"),
    ("u64::from_le_bytes", "crate::ext::prelude::u64_from_le_bytes"),
    ("i32::from_le_bytes", "crate::ext::prelude::i32_from_le_bytes"),
    ("i64::from_le_bytes", "crate::ext::prelude::i64_from_le_bytes"),
    ("u16::from_be_bytes", "crate::ext::prelude::u16_from_be_bytes"),
    ("u32::from_be_bytes", "crate::ext::prelude::u32_from_be_bytes"),
    ("u64::from_be_bytes", "crate::ext::prelude::u64_from_be_bytes"),
];

const DROP_USE: &[&str] = &[
    "thiserror::",
    "derive_more::",
    "std::fmt",
    "std::convert::TryInto",
    "std::convert::TryFrom",
    "std::string::ToString",
    "std::str::FromStr",
    "std::ops::",
];

thread_local! {
    pub static GHOSTS: std::cell::RefCell<
        std::collections::BTreeMap<String, Vec<(String, String, String)>>,
    > = Default::default();
}

fn map_std(s: &str) -> String {
    for (a, b) in STD {
        if s == *a {
            return b.to_string();
        }
        if let Some(rest) = s.strip_prefix(a) {
            if rest.starts_with("::") {
                return format!("{}{}", b, rest);
            }
        }
    }
    s.to_string()
}

fn flat(t: &syn::UseTree, pre: &str, out: &mut Vec<(String, String)>) {
    let j = |n: &str| {
        if pre.is_empty() {
            n.to_string()
        } else {
            format!("{}::{}", pre, n)
        }
    };
    match t {
        syn::UseTree::Path(p) => flat(&p.tree, &j(&p.ident.to_string()), out),
        syn::UseTree::Name(n) => {
            let s = n.ident.to_string();
            if s == "self" {
                let last = pre.rsplit("::").next().unwrap().to_string();
                out.push((pre.to_string(), last));
            } else {
                out.push((j(&s), s));
            }
        }
        syn::UseTree::Rename(r) => {
            let s = r.ident.to_string();
            let full = if s == "self" { pre.to_string() } else { j(&s) };
            out.push((full, r.rename.to_string()));
        }
        syn::UseTree::Glob(_) => out.push((j("*"), String::new())),
        syn::UseTree::Group(g) => {
            for i in &g.items {
                flat(i, pre, out)
            }
        }
    }
}

pub fn flatten_use(t: &syn::UseTree, _module: &str) -> Vec<String> {
    let mut v = vec![];
    flat(t, "", &mut v);
    v.into_iter()
        .filter(|(p, _)| !DROP_USE.iter().any(|d| p.starts_with(d)))
        .map(|(p, n)| {
            let m = map_std(&p);
            if n.is_empty() {
                format!("pub use {};", m)
            } else {
                format!("pub use {} as {};", m, n)
            }
        })
        .collect()
}

pub fn static_refs(t: &mut syn::Type) {
    struct V;
    impl VisitMut for V {
        fn visit_type_reference_mut(&mut self, r: &mut syn::TypeReference) {
            if r.lifetime.is_none() {
                r.lifetime = Some(syn::parse_quote!('static));
            }
            syn::visit_mut::visit_type_reference_mut(self, r);
        }
    }
    V.visit_type_mut(t);
}

/// `Self::NAME` becomes the type it stands for.
pub fn name_type(t: &mut syn::Type, name: &syn::Ident, to: &syn::Type) {
    struct V<'a>(&'a syn::Ident, &'a syn::Type);
    impl<'a> VisitMut for V<'a> {
        fn visit_type_mut(&mut self, t: &mut syn::Type) {
            if squash(&t.to_token_stream()) == format!("Self::{}", self.0) {
                *t = self.1.clone();
            } else {
                syn::visit_mut::visit_type_mut(self, t);
            }
        }
    }
    V(name, to).visit_type_mut(t);
}

/// Structure summary used to tell an edited function from a restructured one.
pub fn shape(sig: &syn::Signature, b: &syn::Block) -> String {
    #[derive(Default)]
    struct V {
        loops: Vec<&'static str>,
        closures: usize,
        calls: std::collections::BTreeSet<String>,
    }
    impl<'a> Visit<'a> for V {
        fn visit_expr_for_loop(&mut self, e: &'a syn::ExprForLoop) {
            self.loops.push("for");
            syn::visit::visit_expr_for_loop(self, e);
        }
        fn visit_expr_while(&mut self, e: &'a syn::ExprWhile) {
            self.loops.push("while");
            syn::visit::visit_expr_while(self, e);
        }
        fn visit_expr_loop(&mut self, e: &'a syn::ExprLoop) {
            self.loops.push("loop");
            syn::visit::visit_expr_loop(self, e);
        }
        fn visit_expr_closure(&mut self, e: &'a syn::ExprClosure) {
            self.closures += 1;
            syn::visit::visit_expr_closure(self, e);
        }
        fn visit_expr_method_call(&mut self, e: &'a syn::ExprMethodCall) {
            self.calls.insert(e.method.to_string());
            syn::visit::visit_expr_method_call(self, e);
        }
        fn visit_expr_call(&mut self, e: &'a syn::ExprCall) {
            if let syn::Expr::Path(p) = &*e.func {
                self.calls
                    .insert(p.path.segments.last().unwrap().ident.to_string());
            }
            syn::visit::visit_expr_call(self, e);
        }
        fn visit_expr_macro(&mut self, e: &'a syn::ExprMacro) {
            self.calls.insert(format!(
                "{}!",
                e.mac.path.segments.last().unwrap().ident
            ));
        }
    }
    let mut v = V::default();
    v.visit_block(b);
    let calls: Vec<String> = v.calls.into_iter().collect();
    format!(
        "args={};loops={};closures={};calls={}",
        sig.inputs.len(),
        v.loops.join(","),
        v.closures,
        calls.join(",")
    )
}

/// FNV-1a hash of the body's tokens in order and in sorted order.
pub fn hashes(b: &syn::Block) -> (u64, u64) {
    fn leaves(t: TokenStream, out: &mut Vec<String>) {
        for tt in t {
            match tt {
                TokenTree::Group(g) => {
                    out.push(format!("{:?}", g.delimiter()));
                    leaves(g.stream(), out);
                    out.push("end".into());
                }
                t => out.push(t.to_string()),
            }
        }
    }
    let fnv = |v: &[String]| {
        let mut h = 0xcbf29ce484222325u64;
        for s in v {
            for c in s.bytes().chain([0]) {
                h = (h ^ c as u64).wrapping_mul(0x100000001b3);
            }
        }
        h
    };
    let mut v = vec![];
    leaves(b.to_token_stream(), &mut v);
    let a = fnv(&v);
    v.sort();
    (a, fnv(&v))
}

pub fn expand_item_macro(items: &[syn::Item], mac: &syn::ItemMacro) -> Vec<syn::Item> {
    if mac.ident.is_some() {
        return vec![];
    }
    let name = mac.mac.path.segments.last().unwrap().ident.to_string();
    for it in items {
        if let syn::Item::Macro(d) = it {
            if d.ident.as_ref().map(|i| i.to_string()) != Some(name.clone()) {
                continue;
            }
            let toks: Vec<TokenTree> = d.mac.tokens.clone().into_iter().collect();
            let (pat, body) = match (&toks[0], toks.iter().skip(1).find_map(|t| match t {
                TokenTree::Group(g) => Some(g.clone()),
                _ => None,
            })) {
                (TokenTree::Group(p), Some(b)) => (p.clone(), b),
                _ => return vec![],
            };
            let mut params = vec![];
            let pt: Vec<TokenTree> = pat.stream().into_iter().collect();
            for w in pt.windows(2) {
                if let (TokenTree::Punct(p), TokenTree::Ident(i)) = (&w[0], &w[1]) {
                    if p.as_char() == '$' {
                        params.push(i.to_string());
                    }
                }
            }
            let mut args: Vec<TokenStream> = vec![TokenStream::new()];
            for t in mac.mac.tokens.clone() {
                match &t {
                    TokenTree::Punct(p) if p.as_char() == ',' => args.push(TokenStream::new()),
                    _ => args.last_mut().unwrap().extend(std::iter::once(t)),
                }
            }
            let out = subst(body.stream(), &params, &args);
            if let Ok(f) = syn::parse2::<syn::File>(out) {
                return f.items;
            }
        }
    }
    vec![]
}

fn subst(ts: TokenStream, params: &[String], args: &[TokenStream]) -> TokenStream {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < toks.len() {
        if let TokenTree::Punct(p) = &toks[i] {
            if p.as_char() == '$' && i + 1 < toks.len() {
                if let TokenTree::Ident(id) = &toks[i + 1] {
                    if let Some(k) = params.iter().position(|x| id == x) {
                        out.extend(args[k].clone());
                        i += 2;
                        continue;
                    }
                }
            }
        }
        match &toks[i] {
            TokenTree::Group(g) => out.extend(std::iter::once(TokenTree::Group(Group::new(
                g.delimiter(),
                subst(g.stream(), params, args),
            )))),
            t => out.extend(std::iter::once(t.clone())),
        }
        i += 1;
    }
    out
}

pub struct Rewriter<'a> {
    rng: u64,
    pr: &'a mut Printer,
    ov: &'a mut FnOv,
    nloop: usize,
    nclosure: usize,
    used_before: Vec<bool>,
    used_after: Vec<bool>,
    seen_loops: usize,
    seen_closures: usize,
    rewriting: bool,
}

impl<'a> Rewriter<'a> {
    pub fn new(pr: &'a mut Printer, ov: &'a mut FnOv, _module: &str) -> Rewriter<'a> {
        let nb = ov.before.len();
        let na = ov.after.len();
        Rewriter {
            rng: 0,
            pr,
            ov,
            nloop: 0,
            nclosure: 0,
            used_before: vec![false; nb],
            used_after: vec![false; na],
            seen_loops: 0,
            seen_closures: 0,
            rewriting: false,
        }
    }

    fn vc(&mut self, text: &str) -> TokenStream {
        self.pr.raws.push(text.to_string());
        let n = proc_macro2::Literal::usize_unsuffixed(self.pr.raws.len() - 1);
        quote!(__vc!(#n))
    }

    fn vc_stmt(&mut self, text: &str) -> syn::Stmt {
        let t = self.vc(text);
        syn::parse2(quote!(#t;)).unwrap()
    }

    pub fn lost(&self) -> Vec<String> {
        let mut v = vec![];
        if !self.rewriting {
            return v;
        }
        for (i, u) in self.used_before.iter().enumerate() {
            if !u {
                v.push(format!("before {}", self.ov.before[i].0));
            }
        }
        for (i, u) in self.used_after.iter().enumerate() {
            if !u {
                v.push(format!("after {}", self.ov.after[i].0));
            }
        }
        for k in self.ov.loops.keys() {
            if *k >= self.seen_loops {
                v.push(format!("loop {}", k));
            }
        }
        for k in self.ov.closures.keys() {
            if *k >= self.seen_closures {
                v.push(format!("closure {}", k));
            }
        }
        v
    }

    pub fn ty(&mut self, t: &mut syn::Type) {
        self.visit_type_mut(t);
    }
    pub fn path(&mut self, p: &mut syn::Path) {
        self.visit_path_mut(p);
    }
    pub fn bound(&mut self, b: &mut syn::TypeParamBound) {
        self.visit_type_param_bound_mut(b);
    }
    pub fn expr(&mut self, e: &mut syn::Expr) {
        self.visit_expr_mut(e);
    }
    pub fn generics(&mut self, g: &mut syn::Generics) {
        self.visit_generics_mut(g);
    }
    pub fn signature(&mut self, s: &mut syn::Signature) {
        self.visit_signature_mut(s);
        for i in s.inputs.iter_mut() {
            match i {
                syn::FnArg::Receiver(r) => r.attrs.clear(),
                syn::FnArg::Typed(t) => t.attrs.clear(),
            }
        }
    }

    pub fn body(&mut self, b: &mut syn::Block) {
        self.rewriting = true;
        self.anchors(b);
        self.visit_block_mut(b);
        self.seen_loops = self.nloop;
        self.seen_closures = self.nclosure;
        let tail = self.ov.tail.clone();
        if !tail.trim().is_empty() {
            if let Some(syn::Stmt::Expr(_, None)) = b.stmts.last() {
                let st = b.stmts.pop().unwrap();
                if let syn::Stmt::Expr(syn::Expr::Verbatim(_), None) = &st {
                    // a loop: of unit type
                    if let syn::Stmt::Expr(e, None) = st {
                        b.stmts.push(syn::Stmt::Expr(e, Some(Default::default())));
                    }
                    let s = self.vc_stmt(&tail);
                    b.stmts.push(s);
                } else if let syn::Stmt::Expr(e, None) = st {
                    let mut st: syn::Stmt = syn::parse_quote!(let r__ = 0;);
                    if let syn::Stmt::Local(l) = &mut st {
                        *l.init.as_mut().unwrap().expr = e;
                    }
                    b.stmts.push(st);
                    let s = self.vc_stmt(&tail);
                    b.stmts.push(s);
                    b.stmts
                        .push(syn::Stmt::Expr(syn::parse_quote!(r__), None));
                }
            } else {
                let s = self.vc_stmt(&tail);
                b.stmts.push(s);
            }
        }
        let start = self.ov.start.clone();
        if !start.trim().is_empty() {
            let s = self.vc_stmt(&start);
            b.stmts.insert(0, s);
        }
    }

    pub fn probe(&mut self, b: &mut syn::Block) {
        let s = self.vc_stmt("proof { assert(false); }");
        b.stmts.insert(0, s);
    }

    fn anchors(&mut self, b: &mut syn::Block) {
        // `TEXT #k` names the k-th innermost statement containing TEXT
        fn parse(a: &str) -> (String, usize) {
            match a.rsplit_once(" #") {
                Some((t, k)) if k.parse::<usize>().is_ok() => {
                    (t.replace(' ', ""), k.parse().unwrap())
                }
                _ => (a.replace(' ', ""), 1),
            }
        }
        struct A<'b, 'c> {
            rw: &'b mut Rewriter<'c>,
            anchors: Vec<(String, usize)>, // before.., after..
            seen: Vec<usize>,
        }
        impl<'b, 'c> VisitMut for A<'b, 'c> {
            fn visit_block_mut(&mut self, b: &mut syn::Block) {
                let old = std::mem::take(&mut b.stmts);
                let n = old.len();
                let nb = self.rw.ov.before.len();
                let mut new = Vec::new();
                for (idx, mut s) in old.into_iter().enumerate() {
                    let text = squash(&s.to_token_stream()).replace("self__", "self");
                    let seen0 = self.seen.clone();
                    self.visit_stmt_mut(&mut s);
                    let mut pre = vec![];
                    let mut post = vec![];
                    let is_tail = idx + 1 == n && matches!(s, syn::Stmt::Expr(_, None));
                    for i in 0..self.anchors.len() {
                        let (a, k) = self.anchors[i].clone();
                        if !text.contains(&a) || self.seen[i] != seen0[i] {
                            continue;
                        }
                        self.seen[i] += 1;
                        if self.seen[i] != k {
                            continue;
                        }
                        if i < nb {
                            self.rw.used_before[i] = true;
                            let t = self.rw.ov.before[i].1.clone();
                            pre.push(self.rw.vc_stmt(&t));
                        } else {
                            self.rw.used_after[i - nb] = true;
                            let t = self.rw.ov.after[i - nb].1.clone();
                            // a hint may name the value the statement discards
                            if t.contains("v__stmt") {
                                if let syn::Stmt::Expr(e, Some(_)) = &s {
                                    s = syn::parse_quote!(let v__stmt = #e;);
                                }
                            }
                            post.push(self.rw.vc_stmt(&t));
                        }
                    }
                    new.extend(pre);
                    if is_tail && !post.is_empty() {
                        if let syn::Stmt::Expr(e, None) = &s {
                            // unit-typed tail statement (loop/if/match/assignment)
                            let e = e.clone();
                            s = syn::Stmt::Expr(e, Some(Default::default()));
                        }
                    }
                    new.push(s);
                    new.extend(post);
                }
                b.stmts = new;
            }
        }
        let anchors: Vec<(String, usize)> = self
            .ov
            .before
            .iter()
            .chain(self.ov.after.iter())
            .map(|a| parse(&a.0))
            .collect();
        let seen = vec![0; anchors.len()];
        A {
            rw: self,
            anchors,
            seen,
        }
        .visit_block_mut(b);
    }

    fn loop_inv(&mut self, n: usize) -> TokenStream {
        match self.ov.loops.get(&n).cloned() {
            Some(t) => self.vc(&t),
            None => quote!(),
        }
    }

    fn wrap_loop_body(&mut self, n: usize, body: &syn::Block, pre: TokenStream) -> TokenStream {
        let s = match self.ov.loopstart.get(&n).cloned() {
            Some(t) => {
                let v = self.vc(&t);
                quote!(#v ;)
            }
            None => quote!(),
        };
        let e = match self.ov.loopend.get(&n).cloned() {
            Some(t) => {
                let v = self.vc(&t);
                quote!(#v ;)
            }
            None => quote!(),
        };
        let stmts = &body.stmts;
        // a trailing unit expression must become a statement when a hint follows
        let mut toks = TokenStream::new();
        for st in stmts {
            match st {
                syn::Stmt::Expr(x, None) if !e.is_empty() => toks.extend(quote!(#x ;)),
                x => x.to_tokens(&mut toks),
            }
        }
        quote!({ #pre #s #toks #e })
    }
}

fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

fn iter_mut_chain(e: &syn::Expr) -> Option<(syn::Expr, bool, Option<syn::Expr>)> {
    // A.iter_mut() [.enumerate()] [.take(N)]
    let mut cur = e;
    let mut take = None;
    let mut enumerate = false;
    loop {
        match cur {
            syn::Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "take" if take.is_none() && !enumerate => {
                        take = Some(m.args[0].clone());
                        cur = &m.receiver;
                    }
                    "enumerate" if !enumerate => {
                        enumerate = true;
                        cur = &m.receiver;
                    }
                    "iter_mut" => return Some(((*m.receiver).clone(), enumerate, take)),
                    _ => return None,
                }
            }
            _ => return None,
        }
    }
}

impl<'a> VisitMut for Rewriter<'a> {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        syn::visit_mut::visit_path_mut(self, p);
        let plain: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let s = plain.join("::");
        if s == "AsRef" && squash(&p.segments[0].arguments.to_token_stream()) == "<str>" {
            *p = syn::parse_quote!(crate::ext::string::AsStrE);
            return;
        }
        if s == "AsRef" && squash(&p.segments[0].arguments.to_token_stream()) == "<Path>" {
            *p = syn::parse_quote!(crate::ext::fs::AsPathE);
            return;
        }
        let m = map_std(&s);
        if m != s && p.leading_colon.is_none() {
            let mut np: syn::Path = syn::parse_str(&m).unwrap();
            // keep generic arguments of the last segment
            if let Some(l) = p.segments.last() {
                np.segments.last_mut().unwrap().arguments = l.arguments.clone();
            }
            *p = np;
        }
    }

    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        if let syn::Type::Path(p) = t {
            if p.path
                .segments
                .last()
                .map(|s| s.ident == "GenericArray")
                .unwrap_or(false)
            {
                *t = syn::parse_quote!([u8; 16]);
                return;
            }
        }
        let bounds = match t {
            syn::Type::ImplTrait(i) => Some(i.bounds.clone()),
            syn::Type::TraitObject(o) => Some(o.bounds.clone()),
            _ => None,
        };
        if let Some(bs) = bounds {
            for b in &bs {
                if let syn::TypeParamBound::Trait(tb) = b {
                    let l = tb.path.segments.last().unwrap();
                    if l.ident == "Iterator" {
                        if let syn::PathArguments::AngleBracketed(ab) = &l.arguments {
                            for a in &ab.args {
                                if let syn::GenericArgument::AssocType(at) = a {
                                    let mut x = at.ty.clone();
                                    self.visit_type_mut(&mut x);
                                    *t = syn::parse_quote!(crate::ext::eiter::EIter<#x>);
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        }
        syn::visit_mut::visit_type_mut(self, t);
    }

    fn visit_stmt_mut(&mut self, s: &mut syn::Stmt) {
        if let syn::Stmt::Item(syn::Item::Use(u)) = s {
            let l = flatten_use(&u.tree, "")
                .join("\n")
                .replace("pub use", "use");
            *s = self.vc_stmt(&l);
            return;
        }
        if let syn::Stmt::Macro(m) = s {
            if m.mac.path.is_ident("__vc") {
                return;
            }
            let mac = syn::Expr::Macro(syn::ExprMacro {
                attrs: vec![],
                mac: m.mac.clone(),
            });
            *s = syn::Stmt::Expr(mac, m.semi_token.or(Some(Default::default())));
        }
        // let [a, b] = e;  ->  let (a, b) = { let arr__ = e; (arr__[0], arr__[1]) };
        if let syn::Stmt::Local(l) = s {
            if let (syn::Pat::Slice(p), Some(init)) = (&l.pat, &mut l.init) {
                if p.elems.iter().all(|x| matches!(x, syn::Pat::Ident(_))) {
                    let x = &init.expr;
                    let n = (0..p.elems.len()).map(syn::Index::from);
                    init.expr = Box::new(syn::parse_quote!({ let arr__ = #x; (#(arr__[#n],)*) }));
                    let el = &p.elems;
                    let q: syn::Stmt = syn::parse_quote!(let (#el,) = 0;);
                    if let syn::Stmt::Local(q) = q {
                        l.pat = q.pat;
                    }
                }
            }
        }
        syn::visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        match e {
            syn::Expr::ForLoop(f) => {
                let n = self.nloop;
                self.nloop += 1;
                let label = f.label.clone();
                let inv = self.loop_inv(n);
                if let Some((a, en, take)) = iter_mut_chain(&f.expr) {
                    let mut a = a;
                    self.visit_expr_mut(&mut a);
                    self.visit_block_mut(&mut f.body);
                    let idx = id(&format!("idx__{}", n));
                    let lim = id(&format!("lim__{}", n));
                    let lim_e = match take {
                        Some(mut t) => {
                            self.visit_expr_mut(&mut t);
                            quote!(crate::ext::prelude::umin(#t, #a.len()))
                        }
                        None => quote!(#a.len()),
                    };
                    let pre = if en {
                        if let syn::Pat::Tuple(tp) = &*f.pat {
                            let i = &tp.elems[0];
                            let b = &tp.elems[1];
                            quote!(let #i = #idx; #idx = #idx + 1; let #b = &mut #a[#i];)
                        } else {
                            let p = &f.pat;
                            quote!(let #p = (#idx, &mut #a[#idx]); #idx = #idx + 1;)
                        }
                    } else {
                        let p = &f.pat;
                        quote!(let #p = &mut #a[#idx]; #idx = #idx + 1;)
                    };
                    let body = self.wrap_loop_body(n, &f.body.clone(), pre);
                    *e = syn::Expr::Verbatim(quote!({
                        let mut #idx: usize = 0;
                        let #lim: usize = #lim_e;
                        #label while #idx < #lim #inv #body
                    }));
                    return;
                }
                if let syn::Expr::Range(r) = &mut *f.expr {
                    if let (Some(s), Some(t), syn::RangeLimits::HalfOpen(_)) =
                        (r.start.as_mut(), r.end.as_mut(), &r.limits)
                    {
                        self.visit_expr_mut(s);
                        self.visit_expr_mut(t);
                        let (s, t) = (s.clone(), t.clone());
                        self.visit_block_mut(&mut f.body);
                        let cur = id(&format!("cur__{}", n));
                        let end = id(&format!("end__{}", n));
                        let p = &f.pat;
                        let pre = quote!(let #p = #cur; #cur = #cur + 1;);
                        let body = self.wrap_loop_body(n, &f.body.clone(), pre);
                        *e = syn::Expr::Verbatim(quote!({
                            let #end = #t;
                            let mut #cur = #s;
                            #label while #cur < #end #inv #body
                        }));
                        return;
                    }
                }
                self.visit_expr_mut(&mut f.expr);
                self.visit_pat_mut(&mut f.pat);
                self.visit_block_mut(&mut f.body);
                let it = id(&format!("it__{}", n));
                let src = f.expr.clone();
                let p = f.pat.clone();
                let body = self.wrap_loop_body(n, &f.body.clone(), quote!());
                let all = self.vc(&format!("let ghost all__{} = it__{}@;", n, n));
                *e = syn::Expr::Verbatim(quote!({
                    let mut #it = (#src).into_iter_e();
                    #all
                    #label loop #inv { match #it.next() { Some(#p) => #body , None => { break; } } }
                }));
            }
            syn::Expr::While(w) => {
                let n = self.nloop;
                self.nloop += 1;
                let inv = self.loop_inv(n);
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                let body = self.wrap_loop_body(n, &w.body.clone(), quote!());
                let c = &w.cond;
                let l = &w.label;
                *e = syn::Expr::Verbatim(quote!(#l while #c #inv #body));
            }
            syn::Expr::Loop(w) => {
                let n = self.nloop;
                self.nloop += 1;
                let inv = self.loop_inv(n);
                self.visit_block_mut(&mut w.body);
                let body = self.wrap_loop_body(n, &w.body.clone(), quote!());
                let l = &w.label;
                *e = syn::Expr::Verbatim(quote!(#l loop #inv #body));
            }
            syn::Expr::Closure(c) => {
                let n = self.nclosure;
                self.nclosure += 1;
                syn::visit_mut::visit_expr_closure_mut(self, c);
                // parameters must be variables: |(a, b)| e  ->  |p__0| { let (a, b) = p__0; e }
                let mut lets: Vec<syn::Stmt> = vec![];
                for (i, p) in c.inputs.iter_mut().enumerate() {
                    let inner = match p {
                        syn::Pat::Type(t) => &mut *t.pat,
                        x => x,
                    };
                    if !matches!(inner, syn::Pat::Ident(x) if x.mutability.is_none()) {
                        let v = id(&format!("p__{}", i));
                        let old = inner.clone();
                        *inner = syn::parse_quote!(#v);
                        if !matches!(old, syn::Pat::Wild(_)) {
                            lets.push(syn::parse_quote!(let #old = #v;));
                        }
                    }
                }
                if !lets.is_empty() {
                    let x = &c.body;
                    c.body = Box::new(syn::parse_quote!({ #(#lets)* #x }));
                }
                if let Some(h) = self.ov.closures.get(&n).cloned() {
                    let head = self.vc(&h);
                    let body = match &*c.body {
                        syn::Expr::Block(b) => b.to_token_stream(),
                        x => quote!({ #x }),
                    };
                    *e = syn::Expr::Verbatim(quote!(#head #body));
                }
            }
            // match s { "a" => x, _ => y }  ->  if s == "a" { x } else { y }
            syn::Expr::Match(m) if str_arms(m) => {
                let v = id("m__str");
                let mut scrutinee = (*m.expr).clone();
                self.visit_expr_mut(&mut scrutinee);
                let mut x = quote!(crate::ext::prelude::never());
                let mut arms = vec![];
                for a in m.arms.iter_mut() {
                    self.visit_expr_mut(&mut a.body);
                    let c = match &a.pat {
                        syn::Pat::Or(o) => {
                            let l = &o.cases;
                            let l = l.iter();
                            Some(quote!(#(#v.eq_e(&(#l)))||*))
                        }
                        syn::Pat::Lit(l) => Some(quote!(#v.eq_e(&(#l)))),
                        _ => None,
                    };
                    arms.push((c, a.body.clone()));
                }
                for (c, b) in arms.into_iter().rev() {
                    x = match c {
                        Some(c) => quote!(if #c { #b } else { #x }),
                        None => quote!(#b),
                    };
                }
                *e = syn::Expr::Verbatim(quote!({ let #v = #scrutinee; #x }));
            }
            syn::Expr::Path(_) => {
                syn::visit_mut::visit_expr_mut(self, e);
                let s = squash(&e.to_token_stream());
                for (a, b) in self.ov.calls.clone() {
                    if a == s && b.ends_with("()") {
                        *e = syn::parse_str(&b).unwrap();
                        break;
                    }
                }
            }
            syn::Expr::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                let parse_args = |t: TokenStream| -> Option<Vec<syn::Expr>> {
                    use syn::parse::Parser;
                    syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated
                        .parse2(t)
                        .ok()
                        .map(|p| p.into_iter().collect())
                };
                match name.as_str() {
                    "__vc" => {}
                    // format!("a{}b", x)  ->  cat_lit(cat_arg(cat_lit(String::new(), "a"), x), "b"), where asked for
                    "format" if self.ov.calls.iter().any(|(a, _)| a == "format!") => {
                        let args = parse_args(m.mac.tokens.clone());
                        let x = args.and_then(|a| format_parts(&a));
                        *e = match x {
                            Some(mut x) => {
                                self.visit_expr_mut(&mut x);
                                x
                            }
                            None => syn::parse_quote!(crate::ext::prelude::fmt_any()),
                        };
                    }
                    "format" => *e = syn::parse_quote!(crate::ext::prelude::fmt_any()),
                    "println" | "eprintln" | "print" | "eprint" | "debug_assert"
                    | "debug_assert_eq" => *e = syn::parse_quote!(()),
                    "panic" | "unreachable" | "unimplemented" | "todo" => {
                        let to = self.ov.calls.iter().find(|(a, _)| a == "panic!");
                        let f: syn::Path = match to {
                            Some((_, b)) => syn::parse_str(b).unwrap(),
                            None => syn::parse_quote!(crate::ext::prelude::never),
                        };
                        *e = syn::parse_quote!(#f())
                    }
                    "assert" => {
                        if let Some(a) = parse_args(m.mac.tokens.clone()) {
                            let mut c = a[0].clone();
                            self.visit_expr_mut(&mut c);
                            *e = syn::parse_quote!(crate::ext::prelude::rt_assert(#c));
                        }
                    }
                    "vec" => {
                        let toks = m.mac.tokens.clone();
                        let has_semi = toks.clone().into_iter().any(
                            |t| matches!(&t, TokenTree::Punct(p) if p.as_char() == ';'),
                        );
                        if has_semi {
                            let r: syn::ExprRepeat = syn::parse2(quote!([#toks])).unwrap();
                            let (mut a, mut n) = (*r.expr, *r.len);
                            self.visit_expr_mut(&mut a);
                            self.visit_expr_mut(&mut n);
                            *e = syn::parse_quote!(crate::ext::prelude::vec_rep(#a, #n));
                        } else if let Some(mut a) = parse_args(toks) {
                            for x in a.iter_mut() {
                                self.visit_expr_mut(x);
                            }
                            *e = syn::parse_quote!({
                                let mut v__ = Vec::new();
                                #(v__.push(#a);)*
                                v__
                            });
                        }
                    }
                    "matches" => {
                        struct M(syn::Expr, syn::Pat, Option<syn::Expr>);
                        impl syn::parse::Parse for M {
                            fn parse(i: syn::parse::ParseStream) -> syn::Result<M> {
                                let a = i.parse()?;
                                i.parse::<syn::Token![,]>()?;
                                let p = syn::Pat::parse_multi_with_leading_vert(i)?;
                                let g = if i.peek(syn::Token![if]) {
                                    i.parse::<syn::Token![if]>()?;
                                    Some(i.parse()?)
                                } else {
                                    None
                                };
                                let _ = i.parse::<Option<syn::Token![,]>>()?;
                                Ok(M(a, p, g))
                            }
                        }
                        if let Ok(mut mm) = syn::parse2::<M>(m.mac.tokens.clone()) {
                            self.visit_expr_mut(&mut mm.0);
                            self.visit_pat_mut(&mut mm.1);
                            let (a, p) = (&mm.0, &mm.1);
                            *e = match &mut mm.2 {
                                Some(g) => {
                                    self.visit_expr_mut(g);
                                    syn::parse_quote!((match #a { #p if #g => true, _ => false }))
                                }
                                None => syn::parse_quote!((match #a { #p => true, _ => false })),
                            };
                        }
                    }
                    _ => {}
                }
            }
            syn::Expr::MethodCall(_) => {
                if let syn::Expr::MethodCall(m) = e {
                    // x[a..b].copy_from_slice(e)  ->  copy_range(&mut x, a, b, e)
                    if (m.method == "copy_from_slice" || m.method == "clone_from_slice") && m.args.len() == 1 {
                        if let syn::Expr::Index(ix) = &*m.receiver {
                            if let syn::Expr::Range(r) = &*ix.index {
                                if matches!(r.limits, syn::RangeLimits::HalfOpen(_)) {
                                    let x = &ix.expr;
                                    let arg = &m.args[0];
                                    let a: syn::Expr = match &r.start {
                                        Some(a) => (**a).clone(),
                                        None => syn::parse_quote!(0),
                                    };
                                    let b: syn::Expr = match &r.end {
                                        Some(b) => (**b).clone(),
                                        None => syn::parse_quote!(#x.len()),
                                    };
                                    *e = syn::parse_quote!(crate::ext::prelude::copy_range(&mut #x, #a, #b, #arg));
                                    self.visit_expr_mut(e);
                                    return;
                                }
                            }
                        }
                    }
                    // (a..=b).contains(&x)  ->  (a <= x && x <= b)
                    if m.method == "contains" && m.args.len() == 1 {
                        let mut rec = &*m.receiver;
                        while let syn::Expr::Paren(p) = rec {
                            rec = &p.expr;
                        }
                        if let (syn::Expr::Range(r), syn::Expr::Reference(x)) = (rec, &m.args[0]) {
                            if let (Some(a), Some(b)) = (&r.start, &r.end) {
                                let x = &x.expr;
                                *e = match r.limits {
                                    syn::RangeLimits::Closed(_) => syn::parse_quote!((#a <= #x && #x <= #b)),
                                    syn::RangeLimits::HalfOpen(_) => syn::parse_quote!((#a <= #x && #x < #b)),
                                };
                                self.visit_expr_mut(e);
                                return;
                            }
                        }
                    }
                    if m.method == "resize_with" && m.args.len() == 2 {
                        let s = squash(&m.args[1].to_token_stream());
                        if s.ends_with("Default::default") || s == "u8::default" || s == "||0" {
                            m.method = id("resize_default");
                            m.args.pop();
                            let a = m.args.pop().unwrap().into_value();
                            m.args.push(a);
                        }
                    }
                }
                syn::visit_mut::visit_expr_mut(self, e);
                if let syn::Expr::MethodCall(m) = e {
                    let n = m.method.to_string();
                    if RENAME.contains(&n.as_str()) {
                        m.method = id(&format!("{}_e", n));
                    }
                    if n == "fill_bytes" {
                        // numbered, so that results of different requests differ
                        let k = self.rng;
                        self.rng += 1;
                        m.method = id("fill_bytes_e");
                        m.args.push(syn::parse_quote!(#k));
                    }
                    for (a, b) in self.ov.calls.clone() {
                        if a == format!(".{}", n) {
                            m.method = id(&b);
                        }
                    }
                }
            }
            syn::Expr::Call(_) => {
                syn::visit_mut::visit_expr_mut(self, e);
                if let syn::Expr::Call(c) = e {
                    let s = squash(&c.func.to_token_stream());
                    for (a, b) in self.ov.calls.clone() {
                        if a == s {
                            // a closure parameter becomes the first argument of `ask`
                            if b.ends_with("::ask") {
                                let f = (*c.func).clone();
                                c.args.insert(0, f);
                            }
                            *c.func = syn::parse_str(&b).unwrap();
                        }
                    }
                }
            }
            syn::Expr::Binary(_) => {
                syn::visit_mut::visit_expr_mut(self, e);
                if self.ov.calls.iter().any(|(a, _)| a == "==") {
                    if let syn::Expr::Binary(b) = e {
                        let (l, r) = (&b.left, &b.right);
                        match b.op {
                            syn::BinOp::Eq(_) => *e = syn::parse_quote!((#l).eq_e(&(#r))),
                            syn::BinOp::Ne(_) => *e = syn::parse_quote!((!(#l).eq_e(&(#r)))),
                            _ => {}
                        }
                    }
                }
            }
            syn::Expr::Struct(_) => {
                syn::visit_mut::visit_expr_mut(self, e);
                if let syn::Expr::Struct(s) = e {
                    let n = s.path.segments.last().unwrap().ident.to_string();
                    let g = GHOSTS.with(|g| g.borrow().get(&n).cloned());
                    if s.rest.is_none() {
                        for (f, _, init) in g.unwrap_or_default() {
                            let f = id(&f);
                            let v = self.vc(&format!("Ghost({})", init));
                            s.fields.push(syn::parse_quote!(#f: #v));
                        }
                    }
                }
            }
            // `x as &mut dyn Trait`: the value is used at its own type
            syn::Expr::Cast(c) if squash(&c.ty.to_token_stream()).starts_with("&mutdyn") => {
                let mut x = (*c.expr).clone();
                self.visit_expr_mut(&mut x);
                *e = x;
            }
            // `x as Box<_>`: the coercion to a trait object is part of the boxing stand-in
            syn::Expr::Cast(c) if squash(&c.ty.to_token_stream()) == "Box<_>" => {
                let mut x = (*c.expr).clone();
                self.visit_expr_mut(&mut x);
                *e = x;
            }
            syn::Expr::Reference(r) if r.mutability.is_none() => {
                if let syn::Expr::Unary(u) = &*r.expr {
                    if matches!(u.op, syn::UnOp::Deref(_)) {
                        let mut x = (*u.expr).clone();
                        self.visit_expr_mut(&mut x);
                        *e = syn::parse_quote!((#x).deref_e());
                        return;
                    }
                }
                syn::visit_mut::visit_expr_mut(self, e);
            }
            _ => syn::visit_mut::visit_expr_mut(self, e),
        }
    }
}

pub fn rename_ident(t: TokenStream, from: &str, to: &str) -> TokenStream {
    t.into_iter()
        .map(|tt| match tt {
            TokenTree::Ident(i) if i == from => TokenTree::Ident(Ident::new(to, i.span())),
            TokenTree::Group(g) => {
                TokenTree::Group(Group::new(g.delimiter(), rename_ident(g.stream(), from, to)))
            }
            x => x,
        })
        .collect()
}

/// concatenation meant by the arguments of format!, if it only has plain placeholders
fn format_parts(args: &[syn::Expr]) -> Option<syn::Expr> {
    let lit = match args.first()? {
        syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => s.value(),
        _ => return None,
    };
    let mut out: syn::Expr = syn::parse_quote!(String::new());
    let mut rest = lit.as_str();
    let mut n = 1;
    while let Some(i) = rest.find(['{', '}']) {
        if !rest[i..].starts_with('{') || rest[i..].starts_with("{{") {
            return None;
        }
        let j = rest[i..].find('}')? + i;
        let (text, name) = (&rest[..i], &rest[i + 1..j]);
        if !text.is_empty() {
            out = syn::parse_quote!(crate::ext::prelude::cat_lit(#out, #text));
        }
        let a: syn::Expr = if name.is_empty() {
            n += 1;
            args.get(n - 1)?.clone()
        } else {
            syn::parse_str::<syn::Ident>(name).ok()?;
            syn::parse_str(name).ok()?
        };
        out = syn::parse_quote!(crate::ext::prelude::cat_arg(#out, &(#a)));
        rest = &rest[j + 1..];
    }
    if !rest.is_empty() {
        out = syn::parse_quote!(crate::ext::prelude::cat_lit(#out, #rest));
    }
    if n != args.len() {
        return None;
    }
    Some(out)
}

/// all patterns are string literals, the last one `_`
fn str_arms(m: &syn::ExprMatch) -> bool {
    fn lit(p: &syn::Pat) -> bool {
        matches!(p, syn::Pat::Lit(syn::PatLit { lit: syn::Lit::Str(_), .. }))
    }
    let n = m.arms.len();
    n >= 2
        && m.arms.iter().all(|a| a.guard.is_none())
        && m.arms[..n - 1].iter().all(|a| match &a.pat {
            syn::Pat::Or(o) => o.cases.iter().all(lit),
            p => lit(p),
        })
        && matches!(m.arms[n - 1].pat, syn::Pat::Wild(_))
}

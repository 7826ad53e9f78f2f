//! Mechanical extraction of the crate's current source into a Verus crate.
//!
//! usage: kdbx-extract <repo> <contracts-dir> <shims-dir> <out-dir> [demote=KEY]...
//!
//! Every function body is taken from the source as it is now; contracts, loop
//! invariants and proof hints come from the overlay files and are attached by
//! function path.  The rewrites applied are listed in DESIGN.md.

mod overlay;
mod print;
mod rewrite;

use overlay::{Mode, Overlays};
use print::Printer;
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::{Path, PathBuf};

pub struct FnRec {
    pub key: String,
    pub start: usize,
    pub end: usize,
    pub mode: &'static str,
    pub src: String,
    pub shape: String,
    /// hash of the body, and of its tokens in sorted order
    pub body: (u64, u64),
    pub has_spec: bool,
    pub lost: Vec<String>,
}

pub struct Ctx {
    pub ov: Overlays,
    pub demote: BTreeSet<String>,
    pub baseline: Option<BTreeMap<String, String>>,
    /// every verified body must fail: shows that its assumptions are consistent
    pub probe: bool,
    pub fns: Vec<FnRec>,
    pub warnings: Vec<String>,
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string().replace(' ', "");
        s.contains("cfg(test)") || s == "#[test]" || s.contains("cfg(kdbx_verif)")
    })
}

fn derives(attrs: &[syn::Attribute]) -> Vec<String> {
    let mut v = Vec::new();
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                v.push(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    v
}

pub fn squash(t: &TokenStream) -> String {
    t.to_string().replace(' ', "")
}

fn self_key(ty: &syn::Type, generics: &syn::Generics) -> String {
    if let syn::Type::Path(p) = ty {
        let last = p.path.segments.last().unwrap();
        let names: BTreeSet<String> = generics
            .params
            .iter()
            .map(|g| match g {
                syn::GenericParam::Type(t) => t.ident.to_string(),
                syn::GenericParam::Lifetime(l) => l.lifetime.to_string(),
                syn::GenericParam::Const(c) => c.ident.to_string(),
            })
            .collect();
        let mut concrete = false;
        if let syn::PathArguments::AngleBracketed(ab) = &last.arguments {
            for a in &ab.args {
                let s = squash(&a.to_token_stream());
                if !names.contains(&s) {
                    concrete = true;
                }
            }
        }
        if concrete {
            squash(&last.to_token_stream())
        } else {
            last.ident.to_string()
        }
    } else {
        squash(&ty.to_token_stream())
    }
}

struct ModOut {
    name: String,
    path: String,
    file: PathBuf,
    items: Vec<syn::Item>,
    children: Vec<ModOut>,
}

fn load_mod(file: &Path, dir: &Path, name: &str, path: &str) -> ModOut {
    let text = fs::read_to_string(file).unwrap_or_else(|e| {
        eprintln!("cannot read {}: {}", file.display(), e);
        std::process::exit(3)
    });
    let parsed = syn::parse_file(&text).unwrap_or_else(|e| {
        eprintln!("cannot parse {}: {}", file.display(), e);
        std::process::exit(3)
    });
    let mut items = Vec::new();
    let mut children = Vec::new();
    for it in parsed.items {
        if let syn::Item::Mod(m) = &it {
            if is_test(&m.attrs) {
                continue;
            }
            if m.content.is_none() {
                let n = m.ident.to_string();
                let f1 = dir.join(format!("{}.rs", n));
                let f2 = dir.join(&n).join("mod.rs");
                let f = if f1.exists() { f1 } else { f2 };
                let p = if path.is_empty() {
                    n.clone()
                } else {
                    format!("{}::{}", path, n)
                };
                children.push(load_mod(&f, &dir.join(&n), &n, &p));
                continue;
            }
        }
        items.push(it);
    }
    ModOut {
        name: name.to_string(),
        path: path.to_string(),
        file: file.to_path_buf(),
        items,
        children,
    }
}

fn generics_split(g: &syn::Generics) -> (TokenStream, TokenStream, TokenStream) {
    let (a, b, c) = g.split_for_impl();
    (quote!(#a), quote!(#b), quote!(#c))
}

fn join(path: &str, k: &str) -> String {
    if path.is_empty() {
        k.to_string()
    } else {
        format!("{}::{}", path, k)
    }
}

/// Emits one function. `sig_vis` false inside trait impls.
fn emit_fn(
    cx: &mut Ctx,
    pr: &mut Printer,
    m: &ModOut,
    key: &str,
    sig: &syn::Signature,
    block: Option<&syn::Block>,
    vis: bool,
) {
    let full = join(&m.path, key);
    let mut ov = cx.ov.get_fn(&full);
    let mut mode = ov.mode;
    let shape = block
        .map(|b| rewrite::shape(sig, b))
        .unwrap_or_default();
    let known = cx
        .baseline
        .as_ref()
        .map(|b| b.contains_key(&full))
        .unwrap_or(true);
    if mode == Mode::Verify && !ov.explicit {
        mode = Mode::Trust;
    }
    if cx.demote.contains(&full) && mode == Mode::Verify {
        mode = Mode::Trust;
    }
    if mode == Mode::Skip {
        cx.fns.push(FnRec {
            key: full,
            start: 0,
            end: 0,
            mode: "skip",
            src: m.file.display().to_string(),
            shape,
            body: (0, 0),
            has_spec: false,
            lost: vec![],
        });
        return;
    }
    let mut sig = sig.clone();
    let mut body = block.cloned();
    // `mut self` receivers become a mutable local
    if let Some(syn::FnArg::Receiver(r)) = sig.inputs.first_mut() {
        if r.reference.is_none() && r.mutability.is_some() {
            r.mutability = None;
            if let Some(b) = body.as_mut() {
                let t: TokenStream = rewrite::rename_ident(b.to_token_stream(), "self", "self__");
                let mut nb: syn::Block = syn::parse2(t).unwrap();
                nb.stmts.insert(0, syn::parse_quote!(let mut self__ = self;));
                *b = nb;
            }
        }
    }
    let lost = {
        let mut rw = rewrite::Rewriter::new(pr, &mut ov, &m.path);
        rw.signature(&mut sig);
        if mode == Mode::Verify {
            if let Some(b) = body.as_mut() {
                rw.body(b);
                if cx.probe {
                    rw.probe(b);
                }
            }
        }
        rw.lost()
    };
    let start = pr.line();
    if mode == Mode::Trust && block.is_some() {
        pr.raw("#[verifier::external_body]\n");
    }
    if let Some(a) = &ov.attrs {
        pr.raw(&format!("{}\n", a.trim()));
    }
    let name = &sig.ident;
    let (gi, _, gw) = generics_split(&sig.generics);
    let inputs: Vec<TokenStream> = sig.inputs.iter().map(|i| i.to_token_stream()).collect();
    let v = if vis { quote!(pub) } else { quote!() };
    let ret = match &sig.output {
        syn::ReturnType::Default => quote!(),
        syn::ReturnType::Type(_, t) => {
            let r: syn::Ident = syn::parse_str(ov.ret.as_deref().unwrap_or("r")).unwrap();
            quote!(-> (#r: #t))
        }
    };
    pr.tokens(quote!(#v fn #name #gi ( #(#inputs),* ) #ret #gw));
    pr.raw("\n");
    let has_spec = !ov.spec.trim().is_empty();
    pr.raw(&ov.spec);
    match (&body, mode) {
        (None, _) => pr.raw(";\n"),
        (Some(_), Mode::Trust) => pr.raw("{ unimplemented!() }\n"),
        (Some(b), _) => {
            pr.tokens(b.to_token_stream());
            pr.raw("\n");
        }
    }
    let end = pr.line();
    cx.fns.push(FnRec {
        key: full,
        start,
        end,
        mode: if block.is_none() {
            "decl"
        } else if mode == Mode::Trust {
            if !known {
                "new"
            } else if ov.explicit {
                "trust"
            } else {
                "plain"
            }
        } else {
            "verify"
        },
        src: m.file.display().to_string(),
        shape,
        body: block.map(rewrite::hashes).unwrap_or((0, 0)),
        has_spec,
        lost,
    });
}

fn strip_fields(fields: &mut syn::Fields) {
    for f in fields.iter_mut() {
        f.attrs.clear();
        f.vis = syn::parse_quote!(pub);
    }
}

fn copy_like(d: &[String]) -> TokenStream {
    // Copy types: plain data, derive everything Verus can check structurally.
    let mut out = vec![];
    if d.iter().any(|x| x == "Clone") {
        out.push(quote!(Clone));
    }
    if d.iter().any(|x| x == "Copy") {
        out.push(quote!(Copy));
    }
    if d.iter().any(|x| x == "PartialEq") {
        out.push(quote!(PartialEq));
        out.push(quote!(Eq));
        out.push(quote!(vstd::prelude::Structural));
    }
    quote!(#[derive(#(#out),*)])
}

fn emit_derived(
    cx: &mut Ctx,
    pr: &mut Printer,
    m: &ModOut,
    ident: &syn::Ident,
    generics: &syn::Generics,
    d: &[String],
) {
    let key = join(&m.path, &ident.to_string());
    let opts = cx.ov.type_opts(&key);
    let (gi, gt, gw) = generics_split(generics);
    if d.iter().any(|x| x == "Clone") && !d.iter().any(|x| x == "Copy") && !opts.contains("noclone")
    {
        pr.tokens(quote!(impl #gi Clone for #ident #gt #gw));
        pr.raw("{\n#[verifier::external_body]\nfn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }\n}\n");
    }
}

fn emit_items(cx: &mut Ctx, pr: &mut Printer, m: &ModOut) {
    let mut seen_impl: BTreeSet<String> = BTreeSet::new();
    for it in &m.items {
        match it {
            syn::Item::Use(u) => {
                if is_test(&u.attrs) {
                    continue;
                }
                for l in rewrite::flatten_use(&u.tree, &m.path) {
                    pr.raw(&l);
                    pr.raw("\n");
                }
            }
            syn::Item::Const(c) => {
                let key = join(&m.path, &c.ident.to_string());
                let o = cx.ov.type_opts(&key);
                if o.contains("skip") {
                    continue;
                }
                let mut c = c.clone();
                c.attrs.clear();
                c.vis = syn::parse_quote!(pub);
                rewrite::static_refs(&mut c.ty);
                let mut ov = cx.ov.get_fn(&key);
                let mut rw = rewrite::Rewriter::new(pr, &mut ov, &m.path);
                rw.ty(&mut c.ty);
                rw.expr(&mut c.expr);
                pr.tokens(c.to_token_stream());
                pr.raw("\n");
            }
            syn::Item::Type(t) => {
                let mut t = t.clone();
                t.attrs.clear();
                t.vis = syn::parse_quote!(pub);
                let mut ov = overlay::FnOv::default();
                let mut rw = rewrite::Rewriter::new(pr, &mut ov, &m.path);
                rw.ty(&mut t.ty);
                pr.tokens(t.to_token_stream());
                pr.raw("\n");
            }
            syn::Item::Struct(s) => {
                let key = join(&m.path, &s.ident.to_string());
                let o = cx.ov.type_opts(&key);
                if o.contains("skip") {
                    continue;
                }
                let d = derives(&s.attrs);
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = syn::parse_quote!(pub);
                strip_fields(&mut s.fields);
                let mut ov = overlay::FnOv::default();
                if let Some(g) = cx.ov.ghosts().get(&s.ident.to_string()) {
                    if let syn::Fields::Unit = &s.fields {
                        s.fields = syn::Fields::Named(syn::parse_quote!({}));
                        s.semi_token = None;
                    }
                    if let syn::Fields::Named(n) = &mut s.fields {
                        for (f, t, _) in g {
                            let f: syn::Ident = syn::parse_str(f).unwrap();
                            let t: syn::Type = syn::parse_str(t).unwrap();
                            n.named.push(syn::parse_quote!(pub #f: Ghost<#t>));
                        }
                    }
                }
                {
                    let mut rw = rewrite::Rewriter::new(pr, &mut ov, &m.path);
                    rw.generics(&mut s.generics);
                    for f in s.fields.iter_mut() {
                        rw.ty(&mut f.ty);
                    }
                }
                if !o.contains("accept") {
                    for g in s.generics.type_params() {
                        pr.raw(&format!("#[verifier::reject_recursive_types({})]\n", g.ident));
                    }
                }
                if d.iter().any(|x| x == "Copy") {
                    pr.tokens(copy_like(&d));
                }
                pr.tokens(s.to_token_stream());
                pr.raw("\n");
                emit_derived(cx, pr, m, &s.ident, &s.generics, &d);
                if d.iter().any(|x| x == "Default") && !o.contains("nodefault") {
                    let (gi, gt, gw) = generics_split(&s.generics);
                    let id = &s.ident;
                    let fk = format!("<Default for {}>::default", id);
                    let inits: Vec<TokenStream> = s
                        .fields
                        .iter()
                        .map(|f| {
                            let n = &f.ident;
                            quote!(#n: Default::default())
                        })
                        .collect();
                    let b: syn::ItemImpl = syn::parse2(
                        quote!(impl #gi Default for #id #gt #gw { fn default() -> Self { #id { #(#inits),* } } }),
                    )
                    .unwrap();
                    emit_impl(cx, pr, m, &b, &mut seen_impl, Some(&fk));
                }
                if d.iter().any(|x| x == "From") && s.fields.len() == 1 {
                    let t = &s.fields.iter().next().unwrap().ty;
                    emit_from(cx, pr, &s.ident, &s.generics, t, quote!());
                }
            }
            syn::Item::Enum(e) => {
                let key = join(&m.path, &e.ident.to_string());
                let o = cx.ov.type_opts(&key);
                if o.contains("skip") {
                    continue;
                }
                let d = derives(&e.attrs);
                let mut from: Vec<(syn::Ident, syn::Type)> = Vec::new();
                let mut e = e.clone();
                e.attrs.clear();
                e.vis = syn::parse_quote!(pub);
                for v in e.variants.iter_mut() {
                    v.attrs.clear();
                    if d.iter().any(|x| x == "Error") {
                        if let Some(f) = v.fields.iter().next() {
                            if f.attrs.iter().any(|a| a.path().is_ident("from")) {
                                from.push((v.ident.clone(), f.ty.clone()));
                            }
                        }
                    } else if d.iter().any(|x| x == "From") && v.fields.len() == 1 {
                        from.push((v.ident.clone(), v.fields.iter().next().unwrap().ty.clone()));
                    }
                    for f in v.fields.iter_mut() {
                        f.attrs.clear();
                    }
                }
                let mut ov = overlay::FnOv::default();
                {
                    let mut rw = rewrite::Rewriter::new(pr, &mut ov, &m.path);
                    rw.generics(&mut e.generics);
                    for v in e.variants.iter_mut() {
                        for f in v.fields.iter_mut() {
                            rw.ty(&mut f.ty);
                        }
                    }
                    for f in from.iter_mut() {
                        rw.ty(&mut f.1);
                    }
                }
                if !o.contains("accept") {
                    for g in e.generics.type_params() {
                        pr.raw(&format!("#[verifier::reject_recursive_types({})]\n", g.ident));
                    }
                }
                if d.iter().any(|x| x == "Copy") || o.contains("structural") {
                    pr.tokens(copy_like(&d));
                }
                pr.tokens(e.to_token_stream());
                pr.raw("\n");
                if !o.contains("structural") {
                    emit_derived(cx, pr, m, &e.ident, &e.generics, &d);
                }
                if d.iter().any(|x| x == "TryInto") {
                    emit_try_into(pr, &e);
                }
                if !o.contains("nofrom") {
                    for (v, t) in from {
                        emit_from(cx, pr, &e.ident, &e.generics, &t, quote!(::#v));
                    }
                }
            }
            syn::Item::Fn(f) => {
                if is_test(&f.attrs) {
                    continue;
                }
                emit_fn(
                    cx,
                    pr,
                    m,
                    &f.sig.ident.to_string(),
                    &f.sig,
                    Some(&f.block),
                    true,
                );
            }
            syn::Item::Impl(i) => {
                if is_test(&i.attrs) {
                    continue;
                }
                emit_impl(cx, pr, m, i, &mut seen_impl, None);
            }
            syn::Item::Trait(t) => {
                let name = t.ident.to_string();
                let (gi, _, gw) = generics_split(&t.generics);
                let mut sup = t.supertraits.clone();
                let mut ov = overlay::FnOv::default();
                {
                    let mut rw = rewrite::Rewriter::new(pr, &mut ov, &m.path);
                    for b in sup.iter_mut() {
                        rw.bound(b);
                    }
                }
                let mut gens = t.generics.clone();
                {
                    let mut rw = rewrite::Rewriter::new(pr, &mut ov, &m.path);
                    rw.generics(&mut gens);
                }
                let (gi2, _, gw2) = generics_split(&gens);
                let _ = (gi, gw);
                let id = &t.ident;
                let sup: syn::punctuated::Punctuated<syn::TypeParamBound, syn::Token![+]> = sup
                    .into_iter()
                    .filter(|b| !squash(&b.to_token_stream()).ends_with("Debug"))
                    .collect();
                let sup = if sup.is_empty() {
                    quote!()
                } else {
                    quote!(: #sup)
                };
                pr.tokens(quote!(pub trait #id #gi2 #sup #gw2));
                pr.raw("{\n");
                let extra = cx.ov.impl_text(&join(&m.path, &name));
                pr.raw(&extra);
                for ti in &t.items {
                    if let syn::TraitItem::Fn(f) = ti {
                        emit_fn(
                            cx,
                            pr,
                            m,
                            &format!("{}::{}", name, f.sig.ident),
                            &f.sig,
                            f.default.as_ref(),
                            false,
                        );
                    }
                }
                pr.raw("}\n");
            }
            syn::Item::Macro(mac) => {
                // macro_rules definitions and their invocations that expand to
                // functions: expanded by the rewriter when simple.
                for f in rewrite::expand_item_macro(&m.items, mac) {
                    if let syn::Item::Fn(f) = f {
                        emit_fn(
                            cx,
                            pr,
                            m,
                            &f.sig.ident.to_string(),
                            &f.sig,
                            Some(&f.block),
                            true,
                        );
                    }
                }
            }
            syn::Item::Mod(_) => {}
            _ => cx
                .warnings
                .push(format!("{}: item dropped", m.file.display())),
        }
    }
}

fn emit_from(
    cx: &mut Ctx,
    pr: &mut Printer,
    ident: &syn::Ident,
    generics: &syn::Generics,
    t: &syn::Type,
    variant: TokenStream,
) {
    let _ = cx;
    let (gi, gt, gw) = generics_split(generics);
    let ctor = quote!(#ident #variant);
    pr.tokens(quote!(impl #gi vstd::std_specs::convert::FromSpecImpl<#t> for #ident #gt #gw {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(v: #t) -> Self { #ctor(v) }
    }));
    pr.raw("\n");
    pr.tokens(quote!(impl #gi From<#t> for #ident #gt #gw {
        fn from(v: #t) -> Self { #ctor(v) }
    }));
    pr.raw("\n");
}

/// derive_more::TryInto: each type to the values of its variants
fn emit_try_into(pr: &mut Printer, e: &syn::ItemEnum) {
    let id = &e.ident;
    let mut groups: Vec<(String, TokenStream, Vec<TokenStream>)> = vec![];
    for v in &e.variants {
        let vi = &v.ident;
        let tys: Vec<_> = v.fields.iter().map(|f| f.ty.clone()).collect();
        if tys.is_empty() || matches!(v.fields, syn::Fields::Named(_)) {
            continue;
        }
        let t = if tys.len() == 1 { quote!(#(#tys)*) } else { quote!((#(#tys),*)) };
        let xs: Vec<syn::Ident> = (0..tys.len())
            .map(|i| syn::Ident::new(&format!("x{}", i), proc_macro2::Span::call_site()))
            .collect();
        let val = if xs.len() == 1 { quote!(#(#xs)*) } else { quote!((#(#xs),*)) };
        let arm = quote!(#id::#vi(#(#xs),*) => Ok(#val),);
        let k = squash(&t);
        match groups.iter_mut().find(|g| g.0 == k) {
            Some(g) => g.2.push(arm),
            None => groups.push((k, t, vec![arm])),
        }
    }
    for (_, t, arms) in groups {
        pr.tokens(quote!(impl vstd::std_specs::convert::TryFromSpecImpl<#id> for #t {
            open spec fn obeys_try_from_spec() -> bool { true }
            open spec fn try_from_spec(v: #id) -> core::result::Result<#t, &'static str> {
                match v { #(#arms)* _ => Err(crate::ext::prelude::derived_error()) }
            }
        }));
        pr.raw("\n");
        pr.tokens(quote!(impl TryFrom<#id> for #t));
        // the body is the derive macro's
        pr.raw(" {\ntype Error = &'static str;\n#[verifier::external_body]\nfn try_from(v: ");
        pr.tokens(quote!(#id));
        pr.raw(") -> (r: core::result::Result<Self, &'static str>) { unimplemented!() }\n}\n");
    }
}

fn emit_impl(
    cx: &mut Ctx,
    pr: &mut Printer,
    m: &ModOut,
    i: &syn::ItemImpl,
    seen: &mut BTreeSet<String>,
    _fk: Option<&str>,
) {
    let sk = self_key(&i.self_ty, &i.generics);
    let key = match &i.trait_ {
        Some((_, p, _)) => {
            let last = p.segments.last().unwrap();
            format!("<{} for {}>", squash(&last.to_token_stream()), sk)
        }
        None => sk,
    };
    let full = join(&m.path, &key);
    let o = cx.ov.type_opts(&full);
    if o.contains("skip") {
        for ii in &i.items {
            if let syn::ImplItem::Fn(f) = ii {
                cx.fns.push(FnRec {
                    key: join(&m.path, &format!("{}::{}", key, f.sig.ident)),
                    start: 0,
                    end: 0,
                    mode: "skip",
                    src: m.file.display().to_string(),
                    shape: rewrite::shape(&f.sig, &f.block),
                    body: (0, 0),
                    has_spec: false,
                    lost: vec![],
                });
            }
        }
        return;
    }
    let mut gens = i.generics.clone();
    let mut sty = (*i.self_ty).clone();
    let mut tr = i.trait_.as_ref().map(|t| t.1.clone());
    let mut ov = overlay::FnOv::default();
    {
        let mut rw = rewrite::Rewriter::new(pr, &mut ov, &m.path);
        rw.generics(&mut gens);
        rw.ty(&mut sty);
        if let Some(p) = tr.as_mut() {
            rw.path(p);
        }
    }
    let (gi, _, gw) = generics_split(&gens);
    let pre = cx.ov.pre_text(&full);
    pr.raw(&pre);
    // an operator trait the verifier does not take: its functions become methods of the type
    let inherent = o.contains("inherent");
    if inherent {
        tr = None;
    }
    match &tr {
        Some(p) => pr.tokens(quote!(impl #gi #p for #sty #gw)),
        None => pr.tokens(quote!(impl #gi #sty #gw)),
    }
    pr.raw("{\n");
    if seen.insert(full.clone()) {
        let mut extra = cx.ov.impl_text(&full);
        // an implementation nothing is known about
        if extra.is_empty() && key.starts_with("<Read for ") {
            extra = "uninterp spec fn rem(&self) -> Seq<u8>; uninterp spec fn clean(&self) -> bool; uninterp spec fn reliable(&self) -> bool; uninterp spec fn wf(&self) -> bool;\n".into();
        } else if extra.is_empty() && key.starts_with("<Write for ") {
            extra = "uninterp spec fn acc(&self) -> Seq<u8>; uninterp spec fn sound(&self) -> bool; uninterp spec fn steady(&self) -> bool; #[verifier::prophetic] uninterp spec fn fixed(&self) -> Seq<Seq<u8>>; uninterp spec fn layer(&self) -> bool;\n".into();
        }
        pr.raw(&extra);
    }
    for ii in &i.items {
        match ii {
            syn::ImplItem::Fn(f) => {
                if is_test(&f.attrs) {
                    continue;
                }
                let mut sig = f.sig.clone();
                if inherent {
                    // `Self::Output` may be named by another of the type's implementations
                    for t in m.items.iter().flat_map(|x| match x {
                        syn::Item::Impl(x) if x.self_ty == i.self_ty => x.items.clone(),
                        _ => vec![],
                    }) {
                        if let syn::ImplItem::Type(t) = t {
                            if let syn::ReturnType::Type(_, r) = &mut sig.output {
                                rewrite::name_type(r, &t.ident, &t.ty);
                            }
                        }
                    }
                }
                emit_fn(
                    cx,
                    pr,
                    m,
                    &format!("{}::{}", key, f.sig.ident),
                    &sig,
                    Some(&f.block),
                    tr.is_none(),
                );
            }
            syn::ImplItem::Type(_) if inherent => {}
            syn::ImplItem::Type(t) => {
                let mut t = t.clone();
                let mut rw = rewrite::Rewriter::new(pr, &mut ov, &m.path);
                rw.ty(&mut t.ty);
                pr.tokens(t.to_token_stream());
                pr.raw("\n");
            }
            syn::ImplItem::Const(c) => {
                pr.tokens(c.to_token_stream());
                pr.raw("\n");
            }
            _ => {}
        }
    }
    pr.raw("}\n");
}

fn emit_mod(cx: &mut Ctx, pr: &mut Printer, m: &ModOut) {
    let o = cx.ov.type_opts(&format!("mod {}", m.path));
    if o.contains("skip") {
        return;
    }
    if !m.path.is_empty() {
        pr.raw(&format!("pub mod {} {{\n", m.name));
    }
    pr.raw("use vstd::prelude::*;\n#[allow(unused_imports)] use crate::ext::*;\n#[allow(unused_imports)] use crate::ext::prelude::*;\n");
    pr.raw("verus! {\n");
    let prel = cx.ov.prelude(&m.path);
    pr.raw(&prel);
    emit_items(cx, pr, m);
    pr.raw("} // verus!\n");
    for c in &m.children {
        emit_mod(cx, pr, c);
    }
    if !m.path.is_empty() {
        pr.raw(&format!("}} // mod {}\n", m.path));
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let repo = PathBuf::from(&args[1]);
    let contracts = PathBuf::from(&args[2]);
    let shims = PathBuf::from(&args[3]);
    let out = PathBuf::from(&args[4]);
    let mut demote = BTreeSet::new();
    let mut baseline = None;
    let mut probe = false;
    for a in &args[5..] {
        if a == "probe" {
            probe = true;
        } else if let Some(k) = a.strip_prefix("demote=") {
            demote.insert(k.to_string());
        } else if let Some(f) = a.strip_prefix("baseline=") {
            let t = fs::read_to_string(f).unwrap_or_default();
            let mut b = BTreeMap::new();
            for l in t.lines() {
                if let Some((k, s)) = l.split_once('\t') {
                    b.insert(k.to_string(), s.to_string());
                }
            }
            baseline = Some(b);
        }
    }
    let src = repo.join("src");
    let root = load_mod(&src.join("lib.rs"), &src, "crate", "");
    let ov = Overlays::load(&contracts);
    rewrite::GHOSTS.with(|g| *g.borrow_mut() = ov.ghosts());
    let mut cx = Ctx {
        ov,
        demote,
        baseline,
        probe,
        fns: vec![],
        warnings: vec![],
    };
    let mut pr = Printer::new();
    pr.raw("#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_snake_case, unused_doc_comments, unreachable_code, unreachable_patterns, unused_must_use, non_camel_case_types, irrefutable_let_patterns, unused_assignments)]\n");
    pr.raw("#![verifier::loop_isolation(false)]\n");
    pr.raw("use vstd::prelude::*;\n");
    let mut names: Vec<_> = fs::read_dir(&shims)
        .unwrap()
        .filter_map(|e| e.ok())
        .map(|e| e.file_name().to_string_lossy().to_string())
        .filter(|n| n.ends_with(".rs"))
        .collect();
    names.sort();
    pr.raw("pub mod ext {\n");
    for n in &names {
        pr.raw(&format!("pub mod {} {{\n", n.trim_end_matches(".rs")));
        pr.raw(&fs::read_to_string(shims.join(n)).unwrap());
        pr.raw("\n}\n");
    }
    pr.raw("}\n");
    emit_mod(&mut cx, &mut pr, &root);
    pr.raw("fn main() {}\n");
    fs::create_dir_all(&out).unwrap();
    fs::write(out.join("lib.rs"), pr.finish()).unwrap();
    let mut j = String::from("{\"functions\":[\n");
    for (n, f) in cx.fns.iter().enumerate() {
        if n > 0 {
            j.push_str(",\n");
        }
        j.push_str(&format!(
            "{{\"key\":{},\"start\":{},\"end\":{},\"mode\":{},\"src\":{},\"shape\":{},\"body\":\"{:016x}\",\"sorted\":\"{:016x}\",\"has_spec\":{},\"lost\":[{}]}}",
            js(&f.key),
            f.start,
            f.end,
            js(f.mode),
            js(&f.src),
            js(&f.shape),
            f.body.0,
            f.body.1,
            f.has_spec,
            f.lost.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
        ));
    }
    j.push_str("\n],\"unused_overlay\":[");
    let present: BTreeSet<String> = cx.fns.iter().map(|f| f.key.clone()).collect();
    let unused: Vec<String> = cx
        .ov
        .fn_keys()
        .into_iter()
        .filter(|k| !present.contains(k))
        .collect();
    j.push_str(&unused.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
    j.push_str("],\"warnings\":[");
    j.push_str(
        &cx.warnings
            .iter()
            .map(|s| js(s))
            .collect::<Vec<_>>()
            .join(","),
    );
    j.push_str("]}\n");
    fs::write(out.join("index.json"), j).unwrap();
}

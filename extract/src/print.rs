//! Token printer with raw-text placeholders and line tracking.

use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Printer {
    out: String,
    line: usize,
    pub raws: Vec<String>,
}

impl Printer {
    pub fn new() -> Printer {
        Printer {
            out: String::new(),
            line: 1,
            raws: vec![],
        }
    }
    pub fn line(&self) -> usize {
        self.line
    }
    pub fn raw(&mut self, s: &str) {
        self.line += s.matches('\n').count();
        self.out.push_str(s);
    }
    pub fn finish(self) -> String {
        self.out
    }
    pub fn tokens(&mut self, t: TokenStream) {
        let toks: Vec<TokenTree> = t.into_iter().collect();
        let mut i = 0;
        while i < toks.len() {
            // __vc ! (N)  -> raw text N
            if let TokenTree::Ident(id) = &toks[i] {
                if id == "__vc" && i + 2 < toks.len() {
                    if let TokenTree::Group(g) = &toks[i + 2] {
                        let n: usize = g.stream().to_string().parse().unwrap();
                        let text = self.raws[n].clone();
                        self.raw("\n");
                        self.raw(&text);
                        self.raw("\n");
                        i += 3;
                        // swallow a following `;` produced by statement position
                        if i < toks.len() {
                            if let TokenTree::Punct(p) = &toks[i] {
                                if p.as_char() == ';' {
                                    i += 1;
                                }
                            }
                        }
                        continue;
                    }
                }
            }
            match &toks[i] {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Brace => ("{\n", "}\n"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::None => ("", ""),
                    };
                    self.raw(o);
                    self.tokens(g.stream());
                    if g.delimiter() == Delimiter::Brace {
                        self.raw("\n");
                    }
                    self.raw(c);
                    self.raw(" ");
                }
                TokenTree::Punct(p) => {
                    self.raw(&p.as_char().to_string());
                    if p.as_char() == ';' {
                        self.raw("\n");
                    } else if p.spacing() == Spacing::Alone {
                        self.raw(" ");
                    }
                }
                TokenTree::Ident(id) => {
                    self.raw(&format!("{} ", id));
                }
                TokenTree::Literal(l) => {
                    self.raw(&format!("{} ", l));
                }
            }
            i += 1;
        }
    }
}

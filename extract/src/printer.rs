use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

/// Prints a token stream with line breaks after `;`, `{`, `}` so that verifier messages carry useful lines.
pub fn print(ts: &TokenStream) -> String {
    let mut p = P { out: String::new(), indent: 0, need_space: false };
    p.ts(ts.clone(), true);
    p.out.push('\n');
    p.out
}

struct P {
    out: String,
    indent: usize,
    need_space: bool,
}

impl P {
    fn nl(&mut self) {
        while self.out.ends_with(' ') {
            self.out.pop();
        }
        if !self.out.ends_with('\n') {
            self.out.push('\n');
        }
        for _ in 0..self.indent {
            self.out.push_str("  ");
        }
        self.need_space = false;
    }
    fn word(&mut self, s: &str) {
        if self.need_space {
            self.out.push(' ');
        }
        self.out.push_str(s);
        self.need_space = true;
    }
    fn ts(&mut self, ts: TokenStream, block: bool) {
        let toks: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < toks.len() {
            match &toks[i] {
                TokenTree::Ident(id) => {
                    let s = id.to_string();
                    if block && matches!(s.as_str(), "requires" | "ensures" | "invariant" | "invariant_except_break" | "decreases" | "recommends" | "returns") {
                        self.nl();
                    }
                    self.word(&s)
                }
                TokenTree::Literal(l) => self.word(&l.to_string()),
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    if c == '\'' {
                        // lifetime or label
                        if self.need_space {
                            self.out.push(' ');
                        }
                        self.out.push('\'');
                        self.need_space = false;
                    } else if c == '.' || c == ',' || c == ';' || c == '?' {
                        self.out.push(c);
                        self.need_space = c != '.' ;
                        if c == '.' && p.spacing() == Spacing::Alone {
                            self.need_space = false;
                        }
                        if c == ';' && block {
                            self.nl();
                        }
                        if c == ',' && block {
                            self.need_space = true;
                        }
                    } else {
                        if self.need_space && p.spacing() == Spacing::Alone && c != ':' {
                            self.out.push(' ');
                        } else if self.need_space && c != ':' {
                            self.out.push(' ');
                        }
                        self.out.push(c);
                        if p.spacing() == Spacing::Joint {
                            self.need_space = false;
                            // glue following puncts without spaces
                            let mut j = i + 1;
                            while j < toks.len() {
                                if let TokenTree::Punct(q) = &toks[j] {
                                    if q.as_char() == '\'' { break; }
                                    self.out.push(q.as_char());
                                    let joint = q.spacing() == Spacing::Joint;
                                    j += 1;
                                    if !joint {
                                        break;
                                    }
                                } else {
                                    break;
                                }
                            }
                            i = j;
                            self.need_space = true;
                            if self.out.ends_with("::") || self.out.ends_with("..") {
                                self.need_space = false;
                            }
                            continue;
                        }
                        let next_punct = matches!(toks.get(i + 1), Some(TokenTree::Punct(_)));
                        self.need_space = next_punct || !(c == '&' || c == '*' || c == '!' || c == '#' || c == '@' || c == '-');
                    }
                }
                TokenTree::Group(g) => match g.delimiter() {
                    Delimiter::Parenthesis => {
                        self.out.push('(');
                        self.need_space = false;
                        self.ts(g.stream(), false);
                        self.out.push(')');
                        self.need_space = true;
                    }
                    Delimiter::Bracket => {
                        self.out.push('[');
                        self.need_space = false;
                        self.ts(g.stream(), false);
                        self.out.push(']');
                        self.need_space = true;
                    }
                    Delimiter::Brace => {
                        if self.need_space {
                            self.out.push(' ');
                        }
                        self.out.push('{');
                        self.indent += 1;
                        self.nl();
                        self.ts(g.stream(), true);
                        self.indent -= 1;
                        self.nl();
                        self.out.push('}');
                        self.need_space = true;
                        // newline after a block unless followed by something that continues it
                        let cont = matches!(toks.get(i + 1), Some(TokenTree::Punct(p)) if matches!(p.as_char(), '.' | ',' | ';' | '?' | ')'))
                            || matches!(toks.get(i + 1), Some(TokenTree::Ident(id)) if *id == "else");
                        if !cont && block {
                            self.nl();
                        }
                    }
                    Delimiter::None => {
                        self.ts(g.stream(), block);
                    }
                },
            }
            i += 1;
        }
    }
}

//! Source-to-source normalisation of one function, and splicing of its contract.
use crate::{norm, printer, FnDef, ItemSpec, Rules};
use proc_macro2::{Group, Ident, Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::str::FromStr;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{Block, Expr, Pat, Stmt};

pub fn map_type(ty: &syn::Type, rules: &Rules) -> syn::Type {
    let mut t = ty.clone();
    TypeMap { rules }.visit_type_mut(&mut t);
    t
}

struct TypeMap<'a> {
    rules: &'a Rules,
}
impl<'a> VisitMut for TypeMap<'a> {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        let s = norm(&t.to_token_stream().to_string());
        for (a, b) in &self.rules.types {
            if *a == s {
                *t = syn::parse_str(b).expect("bad @type target");
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

fn ts(s: &str) -> Result<TokenStream, String> {
    TokenStream::from_str(s).map_err(|e| format!("bad contract text: {} in {}", e, s))
}

/// Ordered binding names of a function: parameters, lets, patterns, closure parameters.
struct Locals(Vec<String>);
impl<'ast> Visit<'ast> for Locals {
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        let n = p.ident.to_string();
        // constants and unit variants look like identifiers in patterns
        if n.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false) {
            self.0.push(n);
        }
        syn::visit::visit_pat_ident(self, p);
    }
}

fn rename_ts(t: TokenStream, map: &HashMap<String, String>) -> TokenStream {
    let mut out = Vec::new();
    let mut prev_dot = false;
    for tt in t {
        let cur = match &tt {
            TokenTree::Ident(i) if !prev_dot => match map.get(&i.to_string()) {
                Some(n) => TokenTree::Ident(Ident::new(n, Span::call_site())),
                None => tt.clone(),
            },
            TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), rename_ts(g.stream(), map))),
            _ => tt.clone(),
        };
        prev_dot = matches!(&cur, TokenTree::Punct(p) if p.as_char() == '.');
        out.push(cur);
    }
    out.into_iter().collect()
}

fn tt_eq(a: &TokenTree, b: &TokenTree) -> bool {
    match (a, b) {
        (TokenTree::Group(x), TokenTree::Group(y)) => {
            x.delimiter() == y.delimiter() && {
                let p: Vec<TokenTree> = x.stream().into_iter().collect();
                let t: Vec<TokenTree> = y.stream().into_iter().collect();
                let mut m = HashMap::new();
                match_seq(&p, &t, &mut m) == Some(t.len())
            }
        }
        (TokenTree::Punct(x), TokenTree::Punct(y)) => x.as_char() == y.as_char(),
        _ => a.to_string() == b.to_string(),
    }
}
/// number of tokens of `t` the pattern matches as a prefix; `$x` binds one token tree, `$$x` any run of them
fn match_seq(p: &[TokenTree], t: &[TokenTree], m: &mut HashMap<String, TokenStream>) -> Option<usize> {
    if p.is_empty() {
        return Some(0);
    }
    let dollar = |x: Option<&TokenTree>| matches!(x, Some(TokenTree::Punct(q)) if q.as_char() == '$');
    if dollar(p.first()) {
        if dollar(p.get(1)) {
            let name = p.get(2)?.to_string();
            for n in 0..=t.len() {
                let mut mm = m.clone();
                if let Some(k) = match_seq(&p[3..], &t[n..], &mut mm) {
                    if p.len() == 3 && n != t.len() {
                        continue;
                    }
                    *m = mm;
                    m.insert(name, t[..n].iter().cloned().collect());
                    return Some(n + k);
                }
            }
            return None;
        }
        let name = p.get(1)?.to_string();
        let x = t.first()?;
        m.insert(name, std::iter::once(x.clone()).collect());
        return match_seq(&p[2..], &t[1..], m).map(|k| k + 1);
    }
    let x = t.first()?;
    match (&p[0], x) {
        (TokenTree::Group(a), TokenTree::Group(b)) => {
            if a.delimiter() != b.delimiter() {
                return None;
            }
            let pp: Vec<TokenTree> = a.stream().into_iter().collect();
            let tt: Vec<TokenTree> = b.stream().into_iter().collect();
            if match_seq(&pp, &tt, m)? != tt.len() {
                return None;
            }
        }
        (a, b) => {
            if !tt_eq(a, b) {
                return None;
            }
        }
    }
    match_seq(&p[1..], &t[1..], m).map(|k| k + 1)
}
fn subst(t: TokenStream, m: &HashMap<String, TokenStream>) -> TokenStream {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(q) if q.as_char() == '$' && i + 1 < v.len() => {
                if let Some(x) = m.get(&v[i + 1].to_string()) {
                    out.extend(x.clone());
                    i += 2;
                    continue;
                }
                out.push(v[i].clone());
            }
            TokenTree::Group(g) => out.push(TokenTree::Group(Group::new(g.delimiter(), subst(g.stream(), m)))),
            x => out.push(x.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}
fn replace_ts(t: TokenStream, pat: &[TokenTree], to: &TokenStream, n: &mut usize) -> TokenStream {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        let mut m = HashMap::new();
        if let Some(k) = match_seq(pat, &v[i..], &mut m) {
            if k > 0 {
                out.extend(subst(to.clone(), &m));
                i += k;
                *n += 1;
                continue;
            }
        }
        match &v[i] {
            TokenTree::Group(g) => out.push(TokenTree::Group(Group::new(g.delimiter(), replace_ts(g.stream(), pat, to, n)))),
            x => out.push(x.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}

pub fn emit_fn(
    it: &ItemSpec,
    fns: &[FnDef],
    rules: &Rules,
    baseline: &Value,
    record: bool,
    probe: bool,
    trust: bool,
) -> Result<(String, Value), String> {
    let (tyn, fname) = match it.name.split_once("::") {
        Some((t, f)) => (Some(t.to_string()), f.to_string()),
        None => (None, it.name.clone()),
    };
    // `F#k`: the k-th closure of F, as a function of its own
    let (fname, nth) = match fname.split_once('#') {
        Some((f, k)) => (f.to_string(), Some(k.parse::<usize>().map_err(|e| e.to_string())?)),
        None => (fname, None),
    };
    let def = fns
        .iter()
        .find(|f| f.name == fname && f.ty == tyn)
        .ok_or_else(|| format!("function {} not found", it.name))?;
    let mut sig = def.sig.clone();
    let mut block = def.block.clone();
    if let Some(k) = nth {
        struct Closures(Vec<syn::ExprClosure>);
        impl<'a> Visit<'a> for Closures {
            fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
                self.0.push(c.clone());
                syn::visit::visit_expr_closure(self, c);
            }
        }
        let mut cs = Closures(vec![]);
        cs.visit_block(&block);
        let c = cs.0.get(k).ok_or_else(|| format!("closure {} of {} not found", k, fname))?.clone();
        let b = &c.body;
        block = syn::parse2(quote!({ #b })).map_err(|e| e.to_string())?;
        sig = syn::parse2(quote!(fn closure())).map_err(|e| e.to_string())?;
        for i in &c.inputs {
            sig.inputs.push(syn::parse2(quote!(#i: ())).map_err(|e| e.to_string())?);
        }
    }
    let mut notes: Vec<String> = Vec::new();

    // locals of the source, before any rewriting
    let mut loc = Locals(vec![]);
    for a in &sig.inputs {
        loc.visit_fn_arg(a);
    }
    loc.visit_block(&block);
    let locals = loc.0;
    let key = format!("{}#{}", it.file, it.name);
    let mut rename: HashMap<String, String> = HashMap::new();
    let mut drift: Vec<String> = Vec::new();
    let base = &baseline[&key];
    if !record && base.is_object() {
        let bl: Vec<String> = base["locals"].as_array().map(|a| a.iter().map(|v| v.as_str().unwrap().to_string()).collect()).unwrap_or_default();
        if bl.len() == locals.len() {
            // names in both stay; the others correspond in order of appearance
            let once = |l: &[String], other: &[String]| {
                let mut r: Vec<String> = vec![];
                for x in l {
                    if !other.contains(x) && !r.contains(x) {
                        r.push(x.clone())
                    }
                }
                r
            };
            let (gone, new) = (once(&bl, &locals), once(&locals, &bl));
            if gone.len() == new.len() {
                for (a, b) in gone.iter().zip(&new) {
                    rename.insert(a.clone(), b.clone());
                }
            } else {
                drift.push(format!("bindings: {:?} on record, {:?} now", gone, new));
            }
            if !rename.is_empty() {
                notes.push(format!("contract follows renamed locals: {:?}", rename));
            }
            let followed: Vec<&String> = bl.iter().map(|x| rename.get(x).unwrap_or(x)).collect();
            if followed != locals.iter().collect::<Vec<_>>() {
                drift.push("bindings in another order than on record".into());
            }
        } else {
            drift.push(format!("bindings: {} on record, {} now", bl.len(), locals.len()));
        }
    }

    strip(&mut sig, &mut block)?;
    // declared substitutions of code the verifier cannot take by trusted glue
    for (a, b) in &it.replaces {
        let pat: Vec<TokenTree> = rename_ts(ts(a)?, &rename).into_iter().collect();
        let to = rename_ts(ts(b)?, &rename);
        let mut n = 0;
        let out = replace_ts(block.to_token_stream(), &pat, &to, &mut n);
        if n == 0 {
            drift.push(format!("replacement pattern `{}` not found", a));
        } else {
            block = syn::parse2(out).map_err(|e| format!("after @replace {}: {}", a, e))?;
            notes.push(format!("replaced {}x by trusted glue: {} ==> {}", n, a, b));
        }
    }
    // inline helpers that have no contract in this unit
    let mut inl = Inliner { fns, rules, ty: tyn.clone(), depth: 0, count: 0, failed: vec![], me: fname.clone() };
    inl.visit_block_mut(&mut block);
    if inl.count > 0 {
        notes.push(format!("{} call(s) to helpers without contract inlined", inl.count));
    }
    let mut norm_v = Normalizer { rules, k: 0, notes: vec![], retains: it.retains.clone(), nretain: 0 };
    // functions returning `impl Iterator` return the eager vector instead
    if let syn::ReturnType::Type(_, t) = &sig.output {
        if let syn::Type::ImplTrait(_) = **t {
            eager_tail(&mut block);
            notes.push("lazy iterator result materialised as a vector".into());
        }
    }
    norm_v.visit_block_mut(&mut block);
    notes.append(&mut norm_v.notes);
    for _ in 0..6 {
        let mut c = ContinueElim { changed: false };
        c.visit_block_mut(&mut block);
        if !c.changed {
            break;
        }
    }
    let mut rw = Rewriter { rules };
    rw.visit_block_mut(&mut block);
    // types in signature
    for a in sig.inputs.iter_mut() {
        if let syn::FnArg::Typed(p) = a {
            p.ty = Box::new(map_type(&p.ty, rules));
        }
    }
    let mut body_ty = TypeMap { rules };
    body_ty.visit_block_mut(&mut block);
    // type hints
    if !it.tys.is_empty() {
        let tys: HashMap<String, String> = it
            .tys
            .iter()
            .map(|(a, b)| (rename.get(a).cloned().unwrap_or(a.clone()), b.clone()))
            .collect();
        TyHint { tys: &tys }.visit_block_mut(&mut block);
    }
    // number loops
    let mut num = Number { k: 0, kinds: vec![] };
    num.visit_block_mut(&mut block);
    let kinds = num.kinds;
    if !record && base.is_object() {
        let bl: Vec<String> = base["loops"].as_array().map(|a| a.iter().map(|v| v.as_str().unwrap().to_string()).collect()).unwrap_or_default();
        if bl != kinds {
            drift.push(format!("loop structure: {:?} on record, {:?} now", bl, kinds));
        }
    }
    // anchors
    for (place, text) in &it.ats {
        let t = rename_ts(ts(text)?, &rename);
        if !insert_at(&mut block, place, &t, &rename) {
            drift.push(format!("anchor `{}` not found", place));
        }
    }
    // loop contracts
    let mut specs: HashMap<usize, TokenStream> = HashMap::new();
    for (k, s) in &it.loops {
        specs.insert(*k, rename_ts(ts(s)?, &rename));
        if *k >= kinds.len() {
            drift.push(format!("loop {} not found", k));
        }
    }
    let mut lc = LoopContracts { specs: &specs };
    lc.visit_block_mut(&mut block);

    // signature
    let vis = quote!(pub);
    let name = match &it.rename {
        Some(n) => format_ident!("{}", n),
        None => sig.ident.clone(),
    };
    let ret = it.ret.clone().unwrap_or_else(|| "r".into());
    let ret_id = format_ident!("{}", ret);
    let out = match (&it.rettype, &sig.output) {
        (Some(t), _) => {
            let t = ts(t)?;
            quote!(-> (#ret_id: #t))
        }
        (None, syn::ReturnType::Default) => quote!(),
        (None, syn::ReturnType::Type(_, t)) => {
            let t = map_type(t, rules);
            quote!(-> (#ret_id: #t))
        }
    };
    let gens = &sig.generics;
    let wc = &sig.generics.where_clause;
    let mut inputs: Vec<TokenStream> = Vec::new();
    for a in &sig.inputs {
        inputs.push(match a {
            syn::FnArg::Receiver(r) => r.to_token_stream(),
            syn::FnArg::Typed(p) => p.to_token_stream(),
        });
    }
    let spec = rename_ts(ts(&it.spec)?, &rename);
    let attrs = ts(&it.attrs)?;
    let mut attrs = attrs;
    if trust {
        block = syn::parse2(quote!({ unimplemented!() })).map_err(|e| e.to_string())?;
        attrs = quote!(#[verifier::external_body]);
    } else if probe && !it.attrs.contains("external_body") {
        // only the way in is of interest: are the preconditions and the trusted contracts consistent?
        block = syn::parse2(quote!({ vx_probe_any() })).map_err(|e| e.to_string())?;
        insert_at(&mut block, "start", &quote!(proof { assert(false); }), &rename);
    }
    let f = if let Some(s) = &it.sig {
        let s = ts(s)?;
        quote!(#attrs #vis fn #name #s #spec #block)
    } else {
        quote!(#attrs #vis fn #name #gens ( #(#inputs),* ) #out #wc #spec #block)
    };
    let code = match (&it.impl_header, &def.self_ty) {
        (Some(h), _) if h == "free" => f,
        (Some(h), _) => {
            let h = ts(h)?;
            quote!(#h { #f })
        }
        (None, Some(t)) => {
            let g = &def.generics;
            let wc = &def.generics.where_clause;
            quote!(impl #g #t #wc { #f })
        }
        (None, None) => f,
    };
    let printed = printer::print(&code);
    let sha = short_hash(&printed);
    let rep = json!({
        "name": it.name, "file": it.file, "line": def.line, "sha": sha,
        "locals": locals, "loops": kinds, "notes": notes, "drift": drift,
        "inline_failed": inl.failed, "unchanged": base["sha"].as_str() == Some(&sha),
    });
    Ok((printed, rep))
}

pub fn short_hash(s: &str) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    format!("{:016x}", h)
}

// ---------------------------------------------------------------- stripping

/// evaluate a cfg predicate with every dictionary/filter feature on and tests off
pub fn cfg_on(m: &syn::Attribute) -> Option<bool> {
    if !m.path().is_ident("cfg") {
        return None;
    }
    fn ev(m: &syn::Meta) -> bool {
        match m {
            syn::Meta::Path(p) => !(p.is_ident("test") || p.is_ident("kani")),
            syn::Meta::NameValue(nv) => {
                if nv.path.is_ident("feature") {
                    let s = nv.value.to_token_stream().to_string();
                    !s.contains("compress")
                } else {
                    true
                }
            }
            syn::Meta::List(l) => {
                let inner: Vec<syn::Meta> = l
                    .parse_args_with(syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated)
                    .map(|p| p.into_iter().collect())
                    .unwrap_or_default();
                if l.path.is_ident("not") {
                    !inner.iter().all(ev)
                } else if l.path.is_ident("any") {
                    inner.iter().any(ev)
                } else {
                    inner.iter().all(ev)
                }
            }
        }
    }
    m.parse_args::<syn::Meta>().ok().map(|x| ev(&x))
}

struct Strip;
impl VisitMut for Strip {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }
    fn visit_expr_match_mut(&mut self, m: &mut syn::ExprMatch) {
        m.arms.retain(|a| a.attrs.iter().all(|x| cfg_on(x).unwrap_or(true)));
        visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_expr_struct_mut(&mut self, s: &mut syn::ExprStruct) {
        let fs: Vec<_> = s.fields.iter().filter(|f| f.attrs.iter().all(|x| cfg_on(x).unwrap_or(true))).cloned().collect();
        s.fields = fs.into_iter().collect();
        visit_mut::visit_expr_struct_mut(self, s);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| {
            let attrs: &[syn::Attribute] = match s {
                Stmt::Local(l) => &l.attrs,
                Stmt::Expr(e, _) => expr_attrs(e),
                Stmt::Macro(m) => &m.attrs,
                _ => &[],
            };
            attrs.iter().all(|x| cfg_on(x).unwrap_or(true))
        });
        visit_mut::visit_block_mut(self, b);
    }
}

fn expr_attrs(e: &Expr) -> &[syn::Attribute] {
    match e {
        Expr::Block(x) => &x.attrs,
        Expr::If(x) => &x.attrs,
        Expr::Match(x) => &x.attrs,
        Expr::Call(x) => &x.attrs,
        Expr::MethodCall(x) => &x.attrs,
        Expr::ForLoop(x) => &x.attrs,
        Expr::While(x) => &x.attrs,
        _ => &[],
    }
}

fn strip(sig: &mut syn::Signature, block: &mut Block) -> Result<(), String> {
    Strip.visit_signature_mut(sig);
    Strip.visit_block_mut(block);
    Ok(())
}

// ---------------------------------------------------------------- inlining of helpers

struct Inliner<'a> {
    fns: &'a [FnDef],
    rules: &'a Rules,
    ty: Option<String>,
    depth: usize,
    count: usize,
    failed: Vec<String>,
    me: String,
}

struct HasReturn(bool);
impl<'ast> Visit<'ast> for HasReturn {
    fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
}

struct SelfRename;
impl VisitMut for SelfRename {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if i == "self" {
            *i = Ident::new("vx_self", i.span());
        }
    }
}

/// Turn a trailing-return body into an expression body: `if c { return a; } rest` => `if c { a } else { rest }`.
fn unreturn(stmts: &[Stmt]) -> Option<Vec<Stmt>> {
    for (i, s) in stmts.iter().enumerate() {
        let mut h = HasReturn(false);
        h.visit_stmt(s);
        if !h.0 {
            continue;
        }
        let rest = &stmts[i + 1..];
        let mut out: Vec<Stmt> = stmts[..i].to_vec();
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                if let Some(e) = &r.expr {
                    let mut h = HasReturn(false);
                    h.visit_expr(e);
                    if h.0 {
                        return None;
                    }
                    out.push(Stmt::Expr((**e).clone(), None));
                }
                return Some(out);
            }
            Stmt::Expr(Expr::If(f), _) => {
                let mut f = f.clone();
                let mut th = f.then_branch.stmts.clone();
                if !ends_in_return(&th) {
                    th.extend_from_slice(rest);
                }
                f.then_branch.stmts = unreturn(&th)?;
                let el: Vec<Stmt> = match &f.else_branch {
                    None => rest.to_vec(),
                    Some((_, e)) => {
                        let mut v = match &**e {
                            Expr::Block(b) => b.block.stmts.clone(),
                            e => vec![Stmt::Expr(e.clone(), None)],
                        };
                        if !ends_in_return(&v) {
                            v.extend_from_slice(rest);
                        }
                        v
                    }
                };
                let el = unreturn(&el)?;
                let b: Block = syn::parse2(quote!({ #(#el)* })).ok()?;
                f.else_branch = Some((Default::default(), Box::new(Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: b }))));
                out.push(Stmt::Expr(Expr::If(f), None));
                return Some(out);
            }
            _ => return None,
        }
    }
    Some(stmts.to_vec())
}
fn ends_in_return(s: &[Stmt]) -> bool {
    matches!(s.last(), Some(Stmt::Expr(Expr::Return(_), _)))
}

impl<'a> Inliner<'a> {
    fn body(&mut self, def: &FnDef, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        let mut b = def.block.clone();
        Strip.visit_block_mut(&mut b);
        b.stmts = unreturn(&b.stmts)?;
        let mut h = HasReturn(false);
        h.visit_block(&b);
        if h.0 {
            return None;
        }
        let mut pre: Vec<Stmt> = Vec::new();
        let mut names = Vec::new();
        for (k, a) in args.iter().enumerate() {
            let n = format_ident!("vxa{}_{}", self.count, k);
            pre.push(syn::parse2(quote!(let #n = #a;)).ok()?);
            names.push(n);
        }
        let mut k = 0;
        for inp in &def.sig.inputs {
            match inp {
                syn::FnArg::Receiver(r) => {
                    let rv = recv.clone()?;
                    let is_self = matches!(&rv, Expr::Path(p) if p.path.is_ident("self"));
                    if !is_self {
                        let q = if r.reference.is_none() {
                            quote!(#rv)
                        } else if r.mutability.is_some() {
                            quote!(&mut #rv)
                        } else {
                            quote!(&#rv)
                        };
                        pre.push(syn::parse2(quote!(let vx_self = #q;)).ok()?);
                        SelfRename.visit_block_mut(&mut b);
                    }
                }
                syn::FnArg::Typed(p) => {
                    let pat = &p.pat;
                    let n = names.get(k)?;
                    k += 1;
                    pre.push(syn::parse2(quote!(let #pat = #n;)).ok()?);
                }
            }
        }
        if k != names.len() {
            return None;
        }
        let st = &b.stmts;
        let e: Expr = syn::parse2(quote!({ #(#pre)* #(#st)* })).ok()?;
        Some(e)
    }
}

impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if self.depth > 4 || self.count > 24 {
            return;
        }
        let (name, recv, args, assoc) = match e {
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) if p.qself.is_none() => {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let assoc = match segs.len() {
                        1 => None,
                        2 if segs[0] == "Self" => self.ty.clone(),
                        2 => Some(segs[0].clone()),
                        _ => return,
                    };
                    (segs.last().unwrap().clone(), None, c.args.iter().cloned().collect::<Vec<_>>(), assoc)
                }
                _ => return,
            },
            Expr::MethodCall(m) => {
                (m.method.to_string(), Some((*m.receiver).clone()), m.args.iter().cloned().collect(), Some(String::new()))
            }
            _ => return,
        };
        let cands: Vec<&FnDef> = self
            .fns
            .iter()
            .filter(|f| {
                f.name == name
                    && match (&assoc, &f.ty) {
                        (None, None) => true,
                        (Some(a), Some(t)) => a.is_empty() || a == t,
                        _ => false,
                    }
            })
            .collect();
        if cands.len() != 1 || name == self.me {
            return;
        }
        let def = cands[0];
        let full = match &def.ty {
            Some(t) => format!("{}::{}", t, name),
            None => name.clone(),
        };
        if self.rules.known.contains(&full) || self.rules.known.contains(&name) {
            return;
        }
        if recv.is_some() && !def.sig.inputs.iter().any(|a| matches!(a, syn::FnArg::Receiver(_))) {
            return;
        }
        let def = def.clone();
        match self.body(&def, recv, args) {
            Some(mut x) => {
                self.count += 1;
                self.depth += 1;
                self.visit_expr_mut(&mut x);
                self.depth -= 1;
                *e = x;
            }
            None => self.failed.push(full),
        }
    }
}

// ---------------------------------------------------------------- iterator pipelines and patterns

struct Normalizer<'a> {
    rules: &'a Rules,
    k: usize,
    notes: Vec<String>,
    retains: Vec<String>,
    nretain: usize,
}

#[derive(Clone)]
enum Stage {
    Map(Expr),
    Filter(Expr),
    FilterMap(Expr),
    FlatMap(Expr),
    Deref,
    Enumerate,
    Skip(Expr),
    Take(Expr),
    TakeWhile(Expr),
}

/// Splits a method chain into a source and its adapter stages.
fn chain(e: &Expr) -> (Expr, Vec<Stage>) {
    if let Expr::MethodCall(m) = e {
        let a0 = m.args.first().cloned();
        let st = match (m.method.to_string().as_str(), m.args.len()) {
            ("map", 1) => Some(Stage::Map(a0.clone().unwrap())),
            ("filter", 1) => Some(Stage::Filter(a0.clone().unwrap())),
            ("filter_map", 1) => Some(Stage::FilterMap(a0.clone().unwrap())),
            // of options (for anything else the result does not type-check)
            ("flatten", 0) => Some(Stage::FilterMap(syn::parse_quote!(|vx_o| vx_o))),
            ("flat_map", 1) => Some(Stage::FlatMap(a0.clone().unwrap())),
            ("take_while", 1) => Some(Stage::TakeWhile(a0.clone().unwrap())),
            ("cloned", 0) | ("copied", 0) => Some(Stage::Deref),
            ("enumerate", 0) => Some(Stage::Enumerate),
            ("skip", 1) => Some(Stage::Skip(a0.clone().unwrap())),
            ("take", 1) => Some(Stage::Take(a0.clone().unwrap())),
            _ => None,
        };
        if let Some(st) = st {
            let (s, mut v) = chain(&m.receiver);
            // `opt.map(..)`, `opt.cloned()`, `cell.take()` are not iterator adapters: require an iterator source
            if !v.is_empty() || is_iter_source(&s) {
                v.push(st);
                return (s, v);
            }
        }
    }
    (e.clone(), vec![])
}

fn is_iter_source(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => matches!(
            m.method.to_string().as_str(),
            "iter" | "iter_mut" | "into_iter" | "chars" | "bytes" | "captures_iter" | "matches" | "split" | "lines" | "common_prefix_search" | "find_iter" | "graphemes" | "split_inclusive" | "split_whitespace" | "keys" | "values" | "rev" | "char_indices" | "drain" | "windows" | "chunks"
        ),
        Expr::Paren(p) => is_iter_source(&p.expr),
        Expr::Range(_) => true,
        _ => false,
    }
}

fn is_simple_pat(p: &Pat) -> bool {
    match p {
        Pat::Ident(i) => i.by_ref.is_none() && i.subpat.is_none(),
        Pat::Wild(_) => true,
        _ => false,
    }
}

struct HasRefPat(bool);
impl<'ast> Visit<'ast> for HasRefPat {
    fn visit_pat_reference(&mut self, _: &'ast syn::PatReference) {
        self.0 = true;
    }
}
fn has_ref_pat(p: &Pat) -> bool {
    let mut h = HasRefPat(false);
    h.visit_pat(p);
    h.0
}

impl<'a> Normalizer<'a> {
    fn fresh(&mut self, p: &str) -> Ident {
        self.k += 1;
        format_ident!("{}{}", p, self.k)
    }

    /// statements binding `pat` to `e`
    fn bind(&mut self, pat: &Pat, e: TokenStream, out: &mut Vec<TokenStream>) {
        match pat {
            Pat::Reference(r) => self.bind(&r.pat, quote!(*#e), out),
            Pat::Paren(p) => self.bind(&p.pat, e, out),
            Pat::Type(t) => {
                let (p, ty) = (&t.pat, &t.ty);
                if is_simple_pat(p) {
                    out.push(quote!(let #p: #ty = #e;))
                } else {
                    self.bind(p, e, out)
                }
            }
            Pat::Tuple(t) if has_ref_pat(pat) => {
                let v = self.fresh("vxp");
                out.push(quote!(let #v = #e;));
                for (i, p) in t.elems.iter().enumerate() {
                    if let Pat::Wild(_) = p {
                        continue;
                    }
                    let ix = syn::Index::from(i);
                    self.bind(p, quote!(#v.#ix), out);
                }
            }
            Pat::Wild(_) => out.push(quote!(let _ = #e;)),
            Pat::Tuple(_) => {
                let s = e.to_string();
                if s.starts_with('*') {
                    // `let (a, b) = *x` on Copy data: go through fields
                    let inner: TokenStream = ts(&s[1..]).unwrap();
                    let v = self.fresh("vxp");
                    out.push(quote!(let #v = #inner;));
                    if let Pat::Tuple(t) = pat {
                        for (i, p) in t.elems.iter().enumerate() {
                            if let Pat::Wild(_) = p {
                                continue;
                            }
                            let ix = syn::Index::from(i);
                            self.bind(p, quote!(#v.#ix), out);
                        }
                    }
                } else {
                    out.push(quote!(let #pat = #e;))
                }
            }
            _ => out.push(quote!(let #pat = #e;)),
        }
    }

    /// apply a closure expression (or function path) to an argument: (statements, value)
    fn apply(&mut self, f: &Expr, arg: TokenStream, out: &mut Vec<TokenStream>) -> Option<TokenStream> {
        match f {
            Expr::Closure(c) => {
                if c.inputs.len() != 1 {
                    return None;
                }
                let mut h = HasReturn(false);
                h.visit_expr(&c.body);
                let body: Expr = if h.0 {
                    match &*c.body {
                        Expr::Block(b) => {
                            let st = unreturn(&b.block.stmts)?;
                            let mut h = HasReturn(false);
                            for s in &st {
                                h.visit_stmt(s);
                            }
                            if h.0 {
                                return None;
                            }
                            syn::parse2(quote!({ #(#st)* })).ok()?
                        }
                        _ => return None,
                    }
                } else {
                    (*c.body).clone()
                };
                self.bind(&c.inputs[0], arg, out);
                match &body {
                    Expr::Block(b) if b.label.is_none() => {
                        let mut st = b.block.stmts.clone();
                        match st.pop() {
                            Some(Stmt::Expr(e, None)) => {
                                for s in st {
                                    out.push(s.to_token_stream());
                                }
                                Some(e.to_token_stream())
                            }
                            Some(s) => {
                                st.push(s);
                                for s in st {
                                    out.push(s.to_token_stream());
                                }
                                Some(quote!(()))
                            }
                            None => Some(quote!(())),
                        }
                    }
                    e => Some(e.to_token_stream()),
                }
            }
            Expr::Path(_) => Some(quote!(#f(#arg))),
            _ => None,
        }
    }

    /// A push-style loop: for every item of the pipeline run `sink(item)`.
    fn run(
        &mut self,
        src: &Expr,
        stages: &[Stage],
        sink: &mut dyn FnMut(&mut Self, TokenStream) -> Option<TokenStream>,
    ) -> Option<TokenStream> {
        let mut pre: Vec<TokenStream> = Vec::new();
        // a temporary that is iterated over lives until the loop ends
        let mut src = src.clone();
        if let Expr::MethodCall(m) = &mut src {
            if matches!(m.method.to_string().as_str(), "iter" | "iter_mut") && matches!(&*m.receiver, Expr::Try(_) | Expr::Match(_) | Expr::Call(_)) {
                let b = self.fresh("vxt");
                let r = &m.receiver;
                pre.push(quote!(let #b = #r;));
                m.receiver = Box::new(syn::parse_quote!(#b));
            }
        }
        let v = self.fresh("vxe");
        let body = self.stages(quote!(#v), stages, &mut pre, sink)?;
        Some(quote!(#(#pre)* for #v in #src { #body }))
    }

    fn stages(
        &mut self,
        item: TokenStream,
        stages: &[Stage],
        pre: &mut Vec<TokenStream>,
        sink: &mut dyn FnMut(&mut Self, TokenStream) -> Option<TokenStream>,
    ) -> Option<TokenStream> {
        if stages.is_empty() {
            return sink(self, item);
        }
        let rest = &stages[1..];
        let mut st: Vec<TokenStream> = Vec::new();
        match &stages[0] {
            Stage::Map(f) => {
                let val = self.apply(f, item, &mut st)?;
                let n = self.fresh("vxm");
                let tail = self.stages(quote!(#n), rest, pre, sink)?;
                Some(quote!(#(#st)* let #n = #val; #tail))
            }
            Stage::Filter(f) => {
                let n = self.fresh("vxi");
                let val = self.apply(f, quote!((&#n)), &mut st)?;
                let tail = self.stages(quote!(#n), rest, pre, sink)?;
                Some(quote!(let #n = #item; let vxkeep: bool = { #(#st)* #val }; if vxkeep { #tail }))
            }
            Stage::FilterMap(f) => {
                let val = self.apply(f, item, &mut st)?;
                let n = self.fresh("vxm");
                let tail = self.stages(quote!(#n), rest, pre, sink)?;
                Some(quote!(let vxo = { #(#st)* #val }; if let Some(#n) = vxo { #tail }))
            }
            Stage::Deref => self.stages(quote!((*#item)), rest, pre, sink),
            Stage::Enumerate => {
                let c = self.fresh("vxn");
                let i = self.fresh("vxi");
                pre.push(quote!(let mut #c: usize = 0;));
                let tail = self.stages(quote!((#i, #item)), rest, pre, sink)?;
                Some(quote!(let #i = #c; #c = vx_next_index(#c); #tail))
            }
            Stage::Skip(e) => {
                let c = self.fresh("vxs");
                pre.push(quote!(let mut #c: usize = #e;));
                let tail = self.stages(item, rest, pre, sink)?;
                Some(quote!(if #c > 0 { #c = #c - 1; } else { #tail }))
            }
            Stage::Take(e) => {
                let c = self.fresh("vxt");
                pre.push(quote!(let mut #c: usize = #e;));
                let tail = self.stages(item, rest, pre, sink)?;
                Some(quote!(if #c == 0 { break; } #c = #c - 1; #tail))
            }
            Stage::TakeWhile(f) => {
                let n = self.fresh("vxi");
                let val = self.apply(f, quote!((&#n)), &mut st)?;
                let tail = self.stages(quote!(#n), rest, pre, sink)?;
                Some(quote!(let #n = #item; let vxkeep: bool = { #(#st)* #val }; if !vxkeep { break; } #tail))
            }
            Stage::FlatMap(f) => {
                let val = self.apply(f, item, &mut st)?;
                let inner: Expr = syn::parse2(val).ok()?;
                // vec![a, b] as the inner sequence: unrolled
                if let Expr::Macro(m) = &inner {
                    if m.mac.path.is_ident("vec") {
                        let es: syn::punctuated::Punctuated<Expr, syn::Token![,]> =
                            m.mac.parse_body_with(syn::punctuated::Punctuated::parse_terminated).ok()?;
                        let mut parts = Vec::new();
                        for e in es {
                            let n = self.fresh("vxm");
                            let tail = self.stages(quote!(#n), rest, pre, sink)?;
                            parts.push(quote!({ let #n = #e; #tail }));
                        }
                        return Some(quote!(#(#st)* #(#parts)*));
                    }
                }
                let (src, mut inner_st) = chain(&inner);
                inner_st.extend_from_slice(rest);
                let mut pre2 = Vec::new();
                let v = self.fresh("vxe");
                let body = self.stages(quote!(#v), &inner_st, &mut pre2, sink)?;
                Some(quote!(#(#st)* #(#pre2)* for #v in #src { #body }))
            }
        }
    }

    /// `iter.map(..).collect::<Result<C, _>>()?`: the loop leaves the function at the first error
    fn try_collect(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::Try(t) = e else { return None };
        let Expr::MethodCall(m) = &*t.expr else { return None };
        if m.method != "collect" {
            return None;
        }
        let a = m.turbofish.as_ref()?.args.first()?.clone();
        let syn::GenericArgument::Type(syn::Type::Path(p)) = a else { return None };
        let last = p.path.segments.last()?;
        if last.ident != "LinderaResult" && last.ident != "Result" {
            return None;
        }
        let syn::PathArguments::AngleBracketed(ab) = &last.arguments else { return None };
        let inner = ab.args.first()?.to_token_stream();
        let tf = inner.to_string();
        let (src, stages) = chain(&m.receiver);
        if stages.is_empty() {
            return None;
        }
        let c = self.fresh("vxc");
        let out = if tf.trim() == "VxStrSet" {
            let l = self.run(&src, &stages, &mut |_, i| Some(quote!(#c.insert((#i)?);)))?;
            quote!({ let mut #c = vx_new_set(); #l #c })
        } else if tf.starts_with("HashSet") {
            let l = self.run(&src, &stages, &mut |_, i| Some(quote!(#c.insert((#i)?);)))?;
            quote!({ let mut #c: #inner = HashSet::new(); #l #c })
        } else if tf.starts_with("Vec") {
            let l = self.run(&src, &stages, &mut |_, i| Some(quote!(#c.push((#i)?);)))?;
            let ty = if tf.contains('_') { quote!() } else { quote!(: #inner) };
            quote!({ let mut #c #ty = Vec::new(); #l #c })
        } else {
            return None;
        };
        let x: Expr = syn::parse2(out.clone()).unwrap_or_else(|e| panic!("internal: {} in {}", e, out));
        self.notes.push("iterator pipeline ending in a fallible `collect` turned into a loop".to_string());
        Some(x)
    }

    fn pipeline(&mut self, e: &Expr) -> Option<Expr> {
        let m = match e {
            Expr::MethodCall(m) => m,
            _ => return None,
        };
        let name = m.method.to_string();
        let (src, stages) = chain(&m.receiver);
        let itery = !stages.is_empty() || is_iter_source(&src);
        if !itery {
            return None;
        }
        let out = match (name.as_str(), m.args.len()) {
            ("collect", 0) if !stages.is_empty() => {
                let c = self.fresh("vxc");
                let tf = m.turbofish.as_ref().map(|t| t.args.to_token_stream().to_string()).unwrap_or_default();
                let l = if tf.trim() == "String" {
                    let l = self.run(&src, &stages, &mut |_, i| Some(quote!(#c.push(#i);)))?;
                    quote!({ let mut #c = String::new(); #l #c })
                } else if tf.starts_with("HashSet") {
                    let l = self.run(&src, &stages, &mut |_, i| Some(quote!(#c.insert(#i);)))?;
                    let t = ts(&tf).ok()?;
                    quote!({ let mut #c: #t = HashSet::new(); #l #c })
                } else if tf.trim() == "VxStrSet" {
                    let l = self.run(&src, &stages, &mut |_, i| Some(quote!(#c.insert(#i);)))?;
                    quote!({ let mut #c = vx_new_set(); #l #c })
                } else if tf.is_empty() || tf.starts_with("Vec") {
                    let l = self.run(&src, &stages, &mut |_, i| Some(quote!(#c.push(#i);)))?;
                    let ty = if tf.is_empty() || tf.contains('_') {
                        quote!()
                    } else {
                        let t = ts(&tf).ok()?;
                        quote!(: #t)
                    };
                    quote!({ let mut #c #ty = Vec::new(); #l #c })
                } else {
                    return None;
                };
                l
            }
            ("for_each", 1) => {
                let f = m.args[0].clone();
                let l = self.run(&src, &stages, &mut |s, i| {
                    let mut st = vec![];
                    let v = s.apply(&f, i, &mut st)?;
                    Some(quote!(#(#st)* #v;))
                })?;
                quote!({ #l })
            }
            ("all", 1) | ("any", 1) => {
                let f = m.args[0].clone();
                let c = self.fresh("vxb");
                let all = name == "all";
                let l = self.run(&src, &stages, &mut |s, i| {
                    let mut st = vec![];
                    let v = s.apply(&f, i, &mut st)?;
                    Some(if all {
                        quote!(let vxok: bool = { #(#st)* #v }; if !vxok { #c = false; break; })
                    } else {
                        quote!(let vxok: bool = { #(#st)* #v }; if vxok { #c = true; break; })
                    })
                })?;
                if all {
                    quote!({ let mut #c = true; #l #c })
                } else {
                    quote!({ let mut #c = false; #l #c })
                }
            }
            ("count", 0) => {
                let c = self.fresh("vxc");
                let l = self.run(&src, &stages, &mut |_, _| Some(quote!(#c = vx_next_index(#c);)))?;
                quote!({ let mut #c: usize = 0; #l #c })
            }
            ("last", 0) => {
                let c = self.fresh("vxl");
                let l = self.run(&src, &stages, &mut |_, i| Some(quote!(#c = Some(#i);)))?;
                quote!({ let mut #c = None; #l #c })
            }
            ("min_by_key", 1) | ("max_by_key", 1) => {
                let f = m.args[0].clone();
                let c = self.fresh("vxbest");
                let lt = name == "min_by_key";
                let l = self.run(&src, &stages, &mut |s, i| {
                    let (mut s1, mut s2) = (vec![], vec![]);
                    let a = s.apply(&f, quote!((&vxcand)), &mut s1)?;
                    let b = s.apply(&f, quote!((&vxold)), &mut s2)?;
                    let cmp = if lt { quote!(vxka < vxkb) } else { quote!(vxka >= vxkb) };
                    Some(quote!(
                        let vxcand = #i;
                        let vxrep: bool = match #c { None => true, Some(vxold) => {
                            let vxka = { #(#s1)* #a };
                            let vxkb = { #(#s2)* #b };
                            #cmp } };
                        if vxrep { #c = Some(vxcand); }))
                })?;
                quote!({ let mut #c = None; #l #c })
            }
            _ => return None,
        };
        let x: Expr = syn::parse2(out.clone()).unwrap_or_else(|e| panic!("internal: {} in {}", e, out));
        self.notes.push(format!("iterator pipeline ending in `{}` turned into a loop", name));
        Some(x)
    }
}

/// tail expression of an `impl Iterator` function becomes `.collect::<Vec<_>>()`
fn eager_tail(b: &mut Block) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        let x = e.clone();
        *e = syn::parse2(quote!(#x.collect())).unwrap();
    }
}

impl<'a> VisitMut for Normalizer<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // macros
        if let Expr::Macro(m) = e {
            if let Some(x) = rewrite_macro(&m.mac, self.rules) {
                *e = x;
            }
        }
        // Result/Option combinators with a closure argument
        if let Expr::MethodCall(m) = e {
            if m.args.len() == 1 {
                if let Expr::Closure(c) = &m.args[0] {
                    let mut h = HasReturn(false);
                    h.visit_expr(&c.body);
                    let (r, b) = (&m.receiver, &c.body);
                    let p = c.inputs.first();
                    let x = match (m.method.to_string().as_str(), p) {
                        _ if h.0 => None,
                        ("unwrap_or_else", Some(p)) => Some(quote!(match #r { Ok(vxv) => vxv, Err(#p) => #b })),
                        ("unwrap_or_else", None) => Some(quote!(match #r { Some(vxv) => vxv, None => #b })),
                        ("map_err", Some(p)) => Some(quote!(match #r { Ok(vxv) => Ok(vxv), Err(#p) => Err(#b) })),
                        ("ok_or_else", None) => Some(quote!(match #r { Some(vxv) => Ok(vxv), None => Err(#b) })),
                        _ => None,
                    };
                    if let Some(x) = x {
                        *e = syn::parse2(x.clone()).unwrap_or_else(|er| panic!("internal: {} in {}", er, x));
                        visit_mut::visit_expr_mut(self, e);
                        return;
                    }
                }
            }
        }
        // Option combinators with a closure and a default
        if let Expr::MethodCall(m) = e {
            let opt_match = |r: &Expr, f: &Expr, none: proc_macro2::TokenStream| -> Option<proc_macro2::TokenStream> {
                let Expr::Closure(c) = f else { return None };
                let mut h = HasReturn(false);
                h.visit_expr(&c.body);
                if h.0 || c.inputs.len() != 1 {
                    return None;
                }
                let (p, b) = (&c.inputs[0], &c.body);
                Some(quote!(match #r { Some(#p) => #b, None => #none }))
            };
            let simple = |e: &Expr| matches!(e, Expr::Lit(_) | Expr::Path(_));
            let x = match (m.method.to_string().as_str(), m.args.len(), &*m.receiver) {
                ("unwrap_or", 1, Expr::MethodCall(i)) if i.method == "map" && i.args.len() == 1 && simple(&m.args[0]) => {
                    let d = &m.args[0];
                    opt_match(&i.receiver, &i.args[0], quote!(#d))
                }
                ("map_or", 2, r) if simple(&m.args[0]) => {
                    let d = &m.args[0];
                    opt_match(r, &m.args[1], quote!(#d))
                }
                ("map", 1, Expr::MethodCall(i)) if ["as_ref", "as_mut", "as_deref", "first", "last", "pop", "first_key_value"].contains(&i.method.to_string().as_str()) && i.args.is_empty() => {
                    let Expr::Closure(c) = &m.args[0] else { return visit_mut::visit_expr_mut(self, e) };
                    let mut h = HasReturn(false);
                    h.visit_expr(&c.body);
                    let (r, b) = (&m.receiver, &c.body);
                    match c.inputs.first() {
                        Some(p) if !h.0 => Some(quote!(match #r { Some(#p) => Some(#b), None => None })),
                        _ => None,
                    }
                }
                ("map", 1, Expr::MethodCall(i)) if ["ok_or_else", "ok_or", "map_err"].contains(&i.method.to_string().as_str()) => {
                    let Expr::Closure(c) = &m.args[0] else { return visit_mut::visit_expr_mut(self, e) };
                    let mut h = HasReturn(false);
                    h.visit_expr(&c.body);
                    let (r, b) = (&m.receiver, &c.body);
                    match c.inputs.first() {
                        Some(p) if !h.0 => Some(quote!(match #r { Ok(#p) => Ok(#b), Err(vxerr) => Err(vxerr) })),
                        _ => None,
                    }
                }
                ("is_some_and", 1, r) => opt_match(r, &m.args[0], quote!(false)),
                ("is_none_or", 1, r) => opt_match(r, &m.args[0], quote!(true)),
                _ => None,
            };
            if let Some(x) = x {
                *e = syn::parse2(x.clone()).unwrap_or_else(|er| panic!("internal: {} in {}", er, x));
                visit_mut::visit_expr_mut(self, e);
                return;
            }
        }
        if let Expr::ForLoop(f) = e {
            if let Expr::Reference(r) = &*f.expr {
                if r.mutability.is_some() {
                    let x = &r.expr;
                    f.expr = Box::new(syn::parse_quote!(#x.iter_mut()));
                }
            }
        }
        if let Some(x) = self.try_collect(e).or_else(|| self.pipeline(e)) {
            *e = x;
            // the new loops contain the original sub-expressions; normalise those
            visit_mut::visit_expr_mut(self, e);
            return;
        }
        // vec.retain(closure)
        if let Expr::MethodCall(m) = e {
            if m.method == "retain" && m.args.len() == 1 {
                if let Expr::Closure(c) = &m.args[0] {
                    let c = c.clone();
                    let rv = &m.receiver;
                    let mut st = vec![];
                    let n = format_ident!("vxi");
                    if let Some(v) = self.apply(&Expr::Closure(c), quote!((&#n)), &mut st) {
                        let kept = format_ident!("vxkept");
                        let x: Expr = syn::parse2(quote!({
                            let mut #kept = Vec::new();
                            for #n in vx_take_all(#rv) {
                                let vxkeep: bool = { #(#st)* #v };
                                if vxkeep { #kept.push(#n); }
                            }
                            *#rv = #kept;
                        }))
                        .unwrap();
                        self.notes.push("`retain` turned into a loop moving the kept elements in order".into());
                        self.nretain += 1;
                        *e = x;
                        visit_mut::visit_expr_mut(self, e);
                        return;
                    }
                }
            }
        }
        if let Expr::ForLoop(f) = e {
            let (src, stages) = chain(&f.expr);
            let pat = (*f.pat).clone();
            let needs = !stages.is_empty() || !is_simple_pat(&pat);
            if needs && f.label.is_none() {
                let body = f.body.stmts.clone();
                let r = self.run(&src, &stages, &mut |s, i| {
                    let mut st = vec![];
                    s.bind(&pat, i, &mut st);
                    Some(quote!(#(#st)* #(#body)*))
                });
                if let Some(t) = r {
                    let wrapped = quote!({ #t });
                    let x: Expr = syn::parse2(wrapped.clone()).unwrap_or_else(|er| panic!("internal: {} in {}", er, wrapped));
                    // a single for needs no block
                    if let Expr::Block(b) = &x {
                        if b.block.stmts.len() == 1 {
                            if let Stmt::Expr(fe @ Expr::ForLoop(_), _) = &b.block.stmts[0] {
                                *e = fe.clone();
                                visit_mut::visit_expr_mut(self, e);
                                return;
                            }
                        }
                    }
                    *e = x;
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
            }
        }
        if let Expr::Match(m) = e {
            norm_match(m);
            // `A | B if g => body` is tried as `A if g => body, B if g => body`
            let arms = std::mem::take(&mut m.arms);
            for a in arms {
                match &a.pat {
                    Pat::Or(o) if a.guard.is_some() => {
                        for c in o.cases.iter() {
                            let mut b = a.clone();
                            b.pat = c.clone();
                            b.comma = Some(Default::default());
                            m.arms.push(b);
                        }
                    }
                    _ => m.arms.push(a),
                }
            }
        }
        if let Expr::Closure(c) = e {
            // `|&x| body`, `|(a, b)| body`
            if c.inputs.len() == 1 {
                let p = c.inputs[0].clone();
                let inner = match &p {
                    Pat::Type(t) => (*t.pat).clone(),
                    x => x.clone(),
                };
                if !is_simple_pat(&inner) {
                    let v = self.fresh("vxq");
                    let mut st = vec![];
                    self.bind(&inner, quote!(#v), &mut st);
                    let body = &c.body;
                    let nb: Expr = syn::parse2(quote!({ #(#st)* #body })).unwrap();
                    c.body = Box::new(nb);
                    let np: Pat = syn::parse::Parser::parse2(Pat::parse_single, quote!(#v)).unwrap();
                    c.inputs[0] = match p {
                        Pat::Type(mut t) => {
                            t.pat = Box::new(np);
                            Pat::Type(t)
                        }
                        _ => np,
                    };
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(x) = rewrite_macro(&m.mac, self.rules) {
                *s = Stmt::Expr(x, Some(Default::default()));
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

/// a format string of text and `{}` placeholders only, and `tail`: a concatenation
fn concatenation(a: &[Expr], tail: &str) -> Option<Expr> {
    if let Some(Expr::Lit(l)) = a.first() {
        if let syn::Lit::Str(s) = &l.lit {
            let v = s.value() + tail;
            let parts: Vec<&str> = v.split("{}").collect();
            if parts.len() == a.len() && !parts.iter().any(|x| x.contains(['{', '}'])) {
                let mut acc: Option<TokenStream> = None;
                for (i, lit) in parts.iter().enumerate() {
                    let mut pieces = vec![];
                    if i > 0 {
                        let x = &a[i];
                        pieces.push(quote!(&#x));
                    }
                    if !lit.is_empty() {
                        pieces.push(quote!(#lit));
                    }
                    for y in pieces {
                        acc = Some(match acc {
                            None => y,
                            Some(x) if i <= 1 && !x.to_string().starts_with("vx_concat") => quote!(vx_concat(#x, #y)),
                            Some(x) => quote!(vx_concat(&#x, #y)),
                        });
                    }
                }
                if let Some(x) = acc {
                    if x.to_string().starts_with("vx_concat") {
                        return syn::parse2(x).ok();
                    }
                }
            }
        }
    }
    None
}

fn rewrite_macro(m: &syn::Macro, _rules: &Rules) -> Option<Expr> {
    let name = m.path.segments.last()?.ident.to_string();
    let args = || -> Option<Vec<Expr>> {
        let es: syn::punctuated::Punctuated<Expr, syn::Token![,]> =
            m.parse_body_with(syn::punctuated::Punctuated::parse_terminated).ok()?;
        Some(es.into_iter().collect())
    };
    match name.as_str() {
        "warn" | "info" | "debug" | "trace" | "error" => syn::parse2(quote!(())).ok(),
        "assert" | "debug_assert" => {
            let a = args()?;
            let c = a.first()?;
            syn::parse2(quote!(vx_assert(#c))).ok()
        }
        "assert_eq" | "debug_assert_eq" => {
            let a = args()?;
            let (x, y) = (a.first()?, a.get(1)?);
            syn::parse2(quote!(vx_assert(#x == #y))).ok()
        }
        "anyhow" => syn::parse2(quote!(vx_anyhow())).ok(),
        "format" => concatenation(&args()?, ""),
        // what is printed goes to the ghost output
        "print" | "println" => {
            let nl = if name == "println" { "\n" } else { "" };
            let a = args()?;
            if a.is_empty() {
                return syn::parse2(quote!(vx_print(vx_out, #nl))).ok();
            }
            if let Some(x) = concatenation(&a, nl) {
                return syn::parse2(quote!(vx_print(vx_out, &#x))).ok();
            }
            if let (Expr::Lit(l), 1) = (&a[0], a.len()) {
                if let syn::Lit::Str(t) = &l.lit {
                    let v = t.value();
                    if !v.contains(['{', '}']) {
                        let v = v + nl;
                        return syn::parse2(quote!(vx_print(vx_out, #v))).ok();
                    }
                }
            }
            if let (Expr::Lit(l), 2) = (&a[0], a.len()) {
                if let syn::Lit::Str(t) = &l.lit {
                    if t.value() == "{}" && nl.is_empty() {
                        let x = &a[1];
                        return syn::parse2(quote!(vx_print(vx_out, &#x))).ok();
                    }
                }
            }
            None
        }
        // calls inside a list are calls like others
        "vec" => {
            let a = args()?;
            if a.iter().any(|x| matches!(x, Expr::MethodCall(_))) {
                return syn::parse2(quote!(vx_list([#(#a),*]))).ok();
            }
            None
        }
        "matches" => {
            // matches!(e, pat) without guard
            let t: Vec<TokenTree> = m.tokens.clone().into_iter().collect();
            let pos = t.iter().position(|x| matches!(x, TokenTree::Punct(p) if p.as_char() == ','))?;
            let e: TokenStream = t[..pos].iter().cloned().collect();
            let p: TokenStream = t[pos + 1..].iter().cloned().collect();
            syn::parse2(quote!(match #e { #p => true, _ => false })).ok()
        }
        _ => None,
    }
}

/// match on references: `match c { &A | &B if g => .., _ => .. }` => match *c
fn norm_match(m: &mut syn::ExprMatch) {
    fn all_ref(p: &Pat) -> bool {
        match p {
            Pat::Reference(_) | Pat::Wild(_) => true,
            Pat::Or(o) => o.cases.iter().all(all_ref),
            _ => false,
        }
    }
    fn strip_ref(p: &mut Pat) {
        match p {
            Pat::Reference(r) => *p = (*r.pat).clone(),
            Pat::Or(o) => o.cases.iter_mut().for_each(strip_ref),
            _ => {}
        }
    }
    let any = m.arms.iter().any(|a| has_ref_pat(&a.pat));
    if any && m.arms.iter().all(|a| all_ref(&a.pat)) {
        let e = m.expr.clone();
        m.expr = syn::parse2(quote!(*#e)).unwrap();
        for a in m.arms.iter_mut() {
            strip_ref(&mut a.pat);
        }
        return;
    }
    // Some(&x) => body  =>  Some(vxr) => { let x = *vxr; body }
    for a in m.arms.iter_mut() {
        if a.guard.is_some() {
            continue;
        }
        if let Pat::TupleStruct(t) = &mut a.pat {
            if t.elems.len() == 1 {
                if let Pat::Reference(r) = &t.elems[0] {
                    let inner = r.pat.clone();
                    let np: Pat = syn::parse::Parser::parse2(Pat::parse_single, quote!(vxr)).unwrap();
                    t.elems[0] = np;
                    let body = &a.body;
                    a.body = syn::parse2(quote!({ let #inner = *vxr; #body })).unwrap();
                }
            }
        }
    }
}

// ---------------------------------------------------------------- continue elimination

struct ContinueElim {
    changed: bool,
}

struct HasContinue(bool);
impl<'ast> Visit<'ast> for HasContinue {
    fn visit_expr_continue(&mut self, _: &'ast syn::ExprContinue) {
        self.0 = true;
    }
    fn visit_expr_for_loop(&mut self, _: &'ast syn::ExprForLoop) {}
    fn visit_expr_while(&mut self, _: &'ast syn::ExprWhile) {}
    fn visit_expr_loop(&mut self, _: &'ast syn::ExprLoop) {}
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
}
fn stmt_continues(s: &Stmt) -> bool {
    let mut h = HasContinue(false);
    h.visit_stmt(s);
    h.0
}

fn as_stmts(e: &Expr) -> Vec<Stmt> {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
        Expr::Continue(_) => vec![Stmt::Expr(e.clone(), Some(Default::default()))],
        e => vec![Stmt::Expr(e.clone(), Some(Default::default()))],
    }
}
fn diverges(s: &[Stmt]) -> bool {
    matches!(s.last(), Some(Stmt::Expr(e, _)) if leaves(e))
}
// every way through the expression ends in continue, break or return
fn leaves(e: &Expr) -> bool {
    match e {
        Expr::Continue(_) | Expr::Break(_) | Expr::Return(_) => true,
        Expr::Block(b) => b.label.is_none() && diverges(&b.block.stmts),
        Expr::If(f) => diverges(&f.then_branch.stmts) && f.else_branch.as_ref().map_or(false, |(_, e)| leaves(e)),
        Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| leaves(&a.body)),
        _ => false,
    }
}

fn celim(stmts: Vec<Stmt>) -> Option<Vec<Stmt>> {
    for i in 0..stmts.len() {
        if !stmt_continues(&stmts[i]) {
            continue;
        }
        let rest: Vec<Stmt> = stmts[i + 1..].to_vec();
        let mut out: Vec<Stmt> = stmts[..i].to_vec();
        let join = |mut a: Vec<Stmt>| -> Vec<Stmt> {
            if !diverges(&a) {
                // a trailing `()`-valued expression gets a semicolon
                if let Some(Stmt::Expr(_, semi)) = a.last_mut() {
                    if semi.is_none() {
                        *semi = Some(Default::default());
                    }
                }
                a.extend(rest.iter().cloned());
            }
            a
        };
        match &stmts[i] {
            Stmt::Expr(Expr::Continue(_), _) => return Some(out),
            Stmt::Expr(Expr::If(f), _) => {
                let mut f = f.clone();
                f.then_branch.stmts = celim(join(f.then_branch.stmts.clone()))?;
                let el = match &f.else_branch {
                    None => join(vec![]),
                    Some((_, e)) => join(as_stmts(e)),
                };
                let el = celim(el)?;
                f.else_branch = if el.is_empty() {
                    None
                } else {
                    let b: Expr = syn::parse2(quote!({ #(#el)* })).ok()?;
                    Some((Default::default(), Box::new(b)))
                };
                out.push(Stmt::Expr(Expr::If(f), None));
                return Some(out);
            }
            Stmt::Expr(Expr::Match(m), _) => {
                let mut m = m.clone();
                for a in m.arms.iter_mut() {
                    let st = celim(join(as_stmts(&a.body)))?;
                    a.body = Box::new(syn::parse2(quote!({ #(#st)* })).ok()?);
                }
                out.push(Stmt::Expr(Expr::Match(m), None));
                return Some(out);
            }
            Stmt::Expr(Expr::Block(b), _) if b.label.is_none() => {
                let st = celim(join(b.block.stmts.clone()))?;
                let x: Expr = syn::parse2(quote!({ #(#st)* })).ok()?;
                out.push(Stmt::Expr(x, None));
                return Some(out);
            }
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                let pat = &l.pat;
                if let Some((_, els)) = &init.diverge {
                    // let PAT = e else { continue };
                    let e = &init.expr;
                    let mut el = as_stmts(els);
                    if !matches!(el.last(), Some(Stmt::Expr(Expr::Continue(_), _))) {
                        return None;
                    }
                    el.pop();
                    let r = celim(rest.clone())?;
                    let x: Expr = syn::parse2(quote!(if let #pat = #e { #(#r)* } else { #(#el)* })).ok()?;
                    out.push(Stmt::Expr(x, None));
                    return Some(out);
                }
                if let Expr::Match(m) = &*init.expr {
                    let mut m = m.clone();
                    for a in m.arms.iter_mut() {
                        let mut b = as_stmts(&a.body);
                        if diverges(&b) {
                            b = celim(b)?;
                        } else {
                            let body = &a.body;
                            b = vec![syn::parse2(quote!(let #pat = #body;)).ok()?];
                            b.extend(celim(rest.clone())?);
                        }
                        a.body = Box::new(syn::parse2(quote!({ #(#b)* })).ok()?);
                    }
                    out.push(Stmt::Expr(Expr::Match(m), None));
                    return Some(out);
                }
                return None;
            }
            _ => return None,
        }
    }
    Some(stmts)
}

impl VisitMut for ContinueElim {
    fn visit_expr_for_loop_mut(&mut self, f: &mut syn::ExprForLoop) {
        visit_mut::visit_expr_for_loop_mut(self, f);
        if f.body.stmts.iter().any(stmt_continues) {
            if let Some(s) = celim(f.body.stmts.clone()) {
                f.body.stmts = s;
                self.changed = true;
            }
        }
    }
}

// `match s { "a" | "b" => X, .., _ => Z }` as comparisons with the literals
fn str_match(m: &syn::ExprMatch, consts: bool) -> Option<Expr> {
    fn lits(p: &Pat, consts: bool) -> Option<Vec<Expr>> {
        match p {
            Pat::Lit(l) if matches!(l.lit, syn::Lit::Str(_)) => Some(vec![{ let l = &l.lit; syn::parse_quote!(#l) }]),
            // a constant of string type (the unit says so with @strpat)
            Pat::Ident(i) if consts && i.subpat.is_none() && i.by_ref.is_none() && i.ident.to_string().len() > 1 && i.ident.to_string().chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_') => {
                let x = &i.ident;
                Some(vec![syn::parse_quote!(#x)])
            }
            Pat::Or(o) => {
                let mut v = vec![];
                for c in &o.cases {
                    v.extend(lits(c, consts)?);
                }
                Some(v)
            }
            Pat::Paren(p) => lits(&p.pat, consts),
            _ => None,
        }
    }
    let n = m.arms.len();
    if n < 2 || m.arms.iter().take(n - 1).any(|a| a.guard.is_some() || lits(&a.pat, consts).is_none()) || m.arms[n - 1].guard.is_some() {
        return None;
    }
    let simple = matches!(&*m.expr, Expr::Path(_));
    let key: Expr = if simple { (*m.expr).clone() } else { syn::parse2(quote!(vxkey)).ok()? };
    let last = &m.arms[n - 1];
    let lb = &last.body;
    let mut tail: Expr = match &last.pat {
        Pat::Wild(_) => syn::parse2(quote!({ #lb })).ok()?,
        Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => syn::parse2(quote!({ let #i = #key; #lb })).ok()?,
        _ => return None,
    };
    for a in m.arms.iter().take(n - 1).rev() {
        let ls = lits(&a.pat, consts)?;
        let b = &a.body;
        tail = syn::parse2(quote!(if #((#key).vx_same(#ls))||* { #b } else { #tail })).ok()?;
    }
    if simple {
        Some(tail)
    } else {
        let x = &m.expr;
        syn::parse2(quote!({ let vxkey = #x; #tail })).ok()
    }
}

/// match on an optional string with `Some("literal")` arms, as a chain of comparisons before the other arms
fn opt_str_match(m: &syn::ExprMatch) -> Option<Expr> {
    fn lit(p: &Pat) -> Option<syn::Lit> {
        if let Pat::TupleStruct(t) = p {
            if t.path.is_ident("Some") && t.elems.len() == 1 {
                if let Pat::Lit(l) = &t.elems[0] {
                    if matches!(l.lit, syn::Lit::Str(_)) {
                        return Some(l.lit.clone());
                    }
                }
            }
        }
        None
    }
    fn lits(p: &Pat) -> Option<Vec<syn::Lit>> {
        match p {
            Pat::Or(o) => o.cases.iter().map(lit).collect(),
            _ => lit(p).map(|l| vec![l]),
        }
    }
    let last = m.arms.iter().rposition(|a| lits(&a.pat).is_some())?;
    let none = |p: &Pat| matches!(p, Pat::Ident(i) if i.ident == "None") || matches!(p, Pat::Path(i) if i.path.is_ident("None"));
    if m.arms[..last].iter().any(|a| lits(&a.pat).is_none() && !none(&a.pat)) || m.arms[..=last].iter().any(|a| a.guard.is_some()) {
        return None;
    }
    let rest = m.arms.iter().filter(|a| lits(&a.pat).is_none());
    let mut tail: Expr = syn::parse2(quote!(match vxopt { #(#rest)* })).ok()?;
    for a in m.arms.iter().rev() {
        if let Some(ls) = lits(&a.pat) {
            let b = &a.body;
            tail = syn::parse2(quote!(if #(vx_osame(vxopt, #ls))||* { #b } else { #tail })).ok()?;
        }
    }
    let x = &m.expr;
    syn::parse2(quote!({ let vxopt = #x; #tail })).ok()
}

// ---------------------------------------------------------------- renaming of calls

struct Rewriter<'a> {
    rules: &'a Rules,
}
impl<'a> VisitMut for Rewriter<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        // comparison with a string literal
        if let (Expr::Binary(b), true) = (&*e, self.rules.known.contains("@streq")) {
            let lit = |x: &Expr| matches!(unparen(x), Expr::Lit(l) if matches!(l.lit, syn::Lit::Str(_)));
            let (l, r) = if lit(&b.right) { (&b.left, &b.right) } else { (&b.right, &b.left) };
            if lit(r) && !lit(l) {
                let t = match b.op {
                    syn::BinOp::Eq(_) => Some(quote!((#l).vx_same(#r))),
                    syn::BinOp::Ne(_) => Some(quote!(!(#l).vx_same(#r))),
                    _ => None,
                };
                if let Some(t) = t {
                    *e = syn::parse2(t).unwrap();
                    return;
                }
            }
        }
        // match over string literals: a chain of comparisons, in the order of the arms
        if let (Expr::Match(m), true) = (&*e, self.rules.known.contains("@streq")) {
            if let Some(x) = str_match(m, self.rules.known.contains("@strpat")).or_else(|| opt_str_match(m)) {
                *e = x;
                return;
            }
        }
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if n == "with_error" {
                    *e = syn::parse2(quote!(vx_err())).unwrap();
                    return;
                }
                if n == "contains" && m.args.len() == 1 {
                    if let Expr::Range(rg) = unparen(&m.receiver) {
                        if let (Some(a), Some(b), Expr::Reference(x)) = (&rg.start, &rg.end, &m.args[0]) {
                            let x = &x.expr;
                            let simple = matches!(&**x, Expr::Path(_)) && !matches!(&**a, Expr::Call(_)) && !matches!(&**b, Expr::Call(_));
                            if simple {
                                let t = match rg.limits {
                                    syn::RangeLimits::HalfOpen(_) => quote!((#a <= #x && #x < #b)),
                                    _ => quote!((#a <= #x && #x <= #b)),
                                };
                                *e = syn::parse2(t).unwrap();
                                return;
                            }
                        }
                    }
                }
                if n == "collect" && m.args.is_empty() {
                    // the trusted pieces are a vector already
                    let f = match &*m.receiver {
                        Expr::Call(c) => Some(c.func.to_token_stream().to_string()),
                        Expr::MethodCall(c) => Some(c.method.to_string()),
                        _ => None,
                    };
                    if let Some(f) = f {
                        if ["vx_split", "vx_lines", "vx_graphemes"].contains(&f.as_str()) {
                            *e = (*m.receiver).clone();
                            return;
                        }
                    }
                }
                let full = match &m.turbofish {
                    Some(t) => format!("{}{}", n, t.to_token_stream().to_string().replace(' ', "")),
                    None => n.clone(),
                };
                if let Some(t) = self.rules.methods.get(&full).or_else(|| self.rules.methods.get(&n)) {
                    if let Some(f) = t.strip_prefix("fn ") {
                        // method => free function on the receiver
                        let f = ts(f).unwrap();
                        let (r, a) = (&m.receiver, &m.args);
                        *e = syn::parse2(quote!(#f(#r, #a))).unwrap();
                    } else if let Some(f) = t.strip_prefix("fn& ") {
                        let f = ts(f).unwrap();
                        let (r, a) = (&m.receiver, &m.args);
                        *e = syn::parse2(quote!(#f(&#r, #a))).unwrap();
                    } else {
                        m.method = format_ident!("{}", t);
                        m.turbofish = None;
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let key = p.to_token_stream().to_string().replace(' ', "");
                    let t = match key.as_str() {
                        "i32::max_value" => Some("i32::MAX".to_string()),
                        _ => None,
                    };
                    if let Some(t) = t {
                        *e = syn::parse_str(&t).unwrap();
                        return;
                    }
                    if let Some(t) = self.rules.calls.get(&key) {
                        let f: Expr = syn::parse_str(t).unwrap();
                        c.func = Box::new(f);
                    }
                }
            }
            // &s[a..b] on strings / slices through the trusted slicing functions
            Expr::Reference(r) if r.mutability.is_none() => {
                if let Expr::Index(ix) = &*r.expr {
                    if let Expr::Range(rg) = unparen(&ix.index) {
                        let b = &ix.expr;
                        let half = matches!(rg.limits, syn::RangeLimits::HalfOpen(_));
                        if half && self.rules.known.contains("@slicing") {
                            let x = match (&rg.start, &rg.end) {
                                (Some(s), Some(t)) => quote!(#b.vx_range(#s, #t)),
                                (Some(s), None) => quote!(#b.vx_from(#s)),
                                (None, Some(t)) => quote!(#b.vx_to(#t)),
                                (None, None) => quote!(#b.vx_all()),
                            };
                            *e = syn::parse2(x).unwrap();
                        }
                    }
                }
            }
            Expr::Index(ix) => {
                if let Expr::Range(rg) = unparen(&ix.index) {
                    let b = &ix.expr;
                    let half = matches!(rg.limits, syn::RangeLimits::HalfOpen(_));
                    if half && self.rules.known.contains("@slicing") {
                        let x = match (&rg.start, &rg.end) {
                            (Some(s), Some(t)) => quote!((*#b.vx_range(#s, #t))),
                            (Some(s), None) => quote!((*#b.vx_from(#s))),
                            (None, Some(t)) => quote!((*#b.vx_to(#t))),
                            (None, None) => quote!((*#b.vx_all())),
                        };
                        *e = syn::parse2(x).unwrap();
                    }
                }
            }
            // truncating casts through trusted functions with the modular meaning Rust gives them
            Expr::Cast(c) if !matches!(unparen(&c.expr), Expr::Lit(_)) => {
                let t = c.ty.to_token_stream().to_string();
                if self.rules.known.contains(&format!("@cast:{}", t)) {
                    let x = &c.expr;
                    let f = format_ident!("vx_as_{}", t);
                    *e = syn::parse2(quote!((#x).#f())).unwrap();
                }
            }
            Expr::Path(p) => {
                let key = p.to_token_stream().to_string().replace(' ', "");
                if key == "std::u32::MAX" || key == "core::u32::MAX" {
                    *e = syn::parse_str("u32::MAX").unwrap();
                } else if let Some(t) = self.rules.calls.get(&key) {
                    if t.starts_with('=') {
                        *e = syn::parse_str(&t[1..]).unwrap();
                    }
                }
            }
            _ => {}
        }
    }
}
fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        e => e,
    }
}

// ---------------------------------------------------------------- type hints

struct TyHint<'a> {
    tys: &'a HashMap<String, String>,
}
impl<'a> VisitMut for TyHint<'a> {
    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        visit_mut::visit_local_mut(self, l);
        if let Pat::Ident(i) = &l.pat {
            if let Some(t) = self.tys.get(&i.ident.to_string()) {
                let ty: syn::Type = syn::parse_str(t).expect("bad @ty");
                let p = l.pat.clone();
                l.pat = Pat::Type(syn::PatType { attrs: vec![], pat: Box::new(p), colon_token: Default::default(), ty: Box::new(ty) });
            }
        }
    }
}

// ---------------------------------------------------------------- loops: numbering, anchors, contracts

struct Number {
    k: usize,
    kinds: Vec<String>,
}
fn tag(k: usize) -> syn::Attribute {
    let l = proc_macro2::Literal::usize_unsuffixed(k);
    syn::parse_quote!(#[vx_loop(#l)])
}
fn tag_of(attrs: &[syn::Attribute]) -> Option<usize> {
    attrs.iter().find(|a| a.path().is_ident("vx_loop")).and_then(|a| a.parse_args::<syn::LitInt>().ok()).and_then(|l| l.base10_parse().ok())
}
impl VisitMut for Number {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => {
                f.attrs.push(tag(self.k));
                self.k += 1;
                self.kinds.push("for".into());
            }
            Expr::While(f) => {
                f.attrs.push(tag(self.k));
                self.k += 1;
                self.kinds.push("while".into());
            }
            Expr::Loop(f) => {
                f.attrs.push(tag(self.k));
                self.k += 1;
                self.kinds.push("loop".into());
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn verb(t: &TokenStream) -> Stmt {
    Stmt::Expr(Expr::Verbatim(t.clone()), None)
}

struct CallFinder<'a> {
    name: &'a str,
    n: usize,
}
impl<'a, 'ast> Visit<'ast> for CallFinder<'a> {
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        syn::visit::visit_expr_method_call(self, m);
        if m.method == self.name {
            self.n += 1;
        }
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        syn::visit::visit_expr_call(self, c);
        if let Expr::Path(p) = &*c.func {
            if p.path.segments.last().map(|s| s.ident == self.name).unwrap_or(false) {
                self.n += 1;
            }
        }
    }
    fn visit_expr_struct(&mut self, c: &'ast syn::ExprStruct) {
        syn::visit::visit_expr_struct(self, c);
        if c.path.segments.last().map(|s| s.ident == self.name).unwrap_or(false) {
            self.n += 1;
        }
    }
}

struct LetFinder<'a>(&'a str, bool);
impl<'a, 'ast> Visit<'ast> for LetFinder<'a> {
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        if p.ident == self.0 {
            self.1 = true;
        }
    }
}

struct Inserter<'a> {
    want: Want<'a>,
    text: &'a TokenStream,
    done: bool,
    seen: usize,
}
enum Want<'a> {
    Loop(usize, &'a str),
    Call(&'a str, usize, &'a str),
    Let(String, usize, &'a str),
    Assign(String, usize, &'a str),
}

fn loop_of(s: &Stmt) -> Option<usize> {
    match s {
        Stmt::Expr(Expr::ForLoop(f), _) => tag_of(&f.attrs),
        Stmt::Expr(Expr::While(f), _) => tag_of(&f.attrs),
        Stmt::Expr(Expr::Loop(f), _) => tag_of(&f.attrs),
        _ => None,
    }
}

struct HasNested(bool);
impl<'ast> Visit<'ast> for HasNested {
    fn visit_block(&mut self, _: &'ast Block) {
        self.0 = true;
    }
}

impl<'a> VisitMut for Inserter<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        if self.done {
            return;
        }
        let mut i = 0;
        while i < b.stmts.len() {
            if self.done {
                return;
            }
            match &self.want {
                Want::Loop(k, pos) => {
                    if loop_of(&b.stmts[i]) == Some(*k) {
                        match *pos {
                            "before" => b.stmts.insert(i, verb(self.text)),
                            "after" => b.stmts.insert(i + 1, verb(self.text)),
                            _ => {
                                let body = match &mut b.stmts[i] {
                                    Stmt::Expr(Expr::ForLoop(f), _) => &mut f.body,
                                    Stmt::Expr(Expr::While(f), _) => &mut f.body,
                                    Stmt::Expr(Expr::Loop(f), _) => &mut f.body,
                                    _ => unreachable!(),
                                };
                                if *pos == "body_start" {
                                    body.stmts.insert(0, verb(self.text))
                                } else {
                                    body.stmts.push(verb(self.text))
                                }
                            }
                        }
                        self.done = true;
                        return;
                    }
                }
                Want::Let(name, nth, pos) => {
                    if let Stmt::Local(l) = &b.stmts[i] {
                        let mut f = LetFinder(name, false);
                        f.visit_pat(&l.pat);
                        if f.1 {
                            if self.seen == *nth {
                                if *pos == "before" {
                                    b.stmts.insert(i, verb(self.text))
                                } else {
                                    b.stmts.insert(i + 1, verb(self.text))
                                }
                                self.done = true;
                                return;
                            }
                            self.seen += 1;
                        }
                    }
                }
                Want::Assign(name, nth, pos) => {
                    let hit = match &b.stmts[i] {
                        Stmt::Expr(Expr::Assign(a), _) => a.left.to_token_stream().to_string().replace(' ', "") == *name,
                        Stmt::Expr(Expr::Binary(a), _) => a.left.to_token_stream().to_string().replace(' ', "") == *name,
                        _ => false,
                    };
                    if hit {
                        if self.seen == *nth {
                            if *pos == "before" {
                                b.stmts.insert(i, verb(self.text))
                            } else {
                                b.stmts.insert(i + 1, verb(self.text))
                            }
                            self.done = true;
                            return;
                        }
                        self.seen += 1;
                    }
                }
                Want::Call(..) => {}
            }
            // recurse first: innermost statement containing the call
            let before = self.done;
            self.visit_stmt_mut(&mut b.stmts[i]);
            if self.done && !before {
                return;
            }
            if let Want::Call(name, nth, pos) = &self.want {
                // count calls in this statement that are not inside nested blocks' statements (those were counted)
                let mut s = b.stmts[i].clone();
                BlankBlocks.visit_stmt_mut(&mut s);
                let mut c = CallFinder { name, n: 0 };
                c.visit_stmt(&s);
                if c.n > 0 {
                    if *nth < self.seen + c.n {
                        if *pos == "before" {
                            b.stmts.insert(i, verb(self.text))
                        } else {
                            if let Stmt::Expr(_, semi) = &mut b.stmts[i] {
                                if semi.is_none() {
                                    *semi = Some(Default::default());
                                }
                            }
                            b.stmts.insert(i + 1, verb(self.text))
                        }
                        self.done = true;
                        return;
                    }
                    self.seen += c.n;
                }
            }
            i += 1;
        }
    }
}

struct BlankBlocks;
impl VisitMut for BlankBlocks {
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.clear();
    }
}

fn insert_at(block: &mut Block, place: &str, t: &TokenStream, rename: &HashMap<String, String>) -> bool {
    let w: Vec<&str> = place.split_whitespace().collect();
    let ren = |s: &str| rename.get(s).cloned().unwrap_or_else(|| s.to_string());
    match w.as_slice() {
        ["start"] => {
            block.stmts.insert(0, verb(t));
            true
        }
        ["end"] => {
            let n = block.stmts.len();
            let at = match block.stmts.last() {
                Some(Stmt::Expr(Expr::ForLoop(_) | Expr::While(_), None)) => n,
                Some(Stmt::Expr(Expr::If(f), None)) if f.else_branch.is_none() => n,
                Some(Stmt::Expr(_, None)) => n - 1,
                _ => n,
            };
            block.stmts.insert(at, verb(t));
            true
        }
        ["tail"] => match block.stmts.pop() {
            Some(Stmt::Expr(e, None)) => {
                let mut l: Stmt = syn::parse_quote!(let vx_ret = vx_hole;);
                if let Stmt::Local(l) = &mut l {
                    l.init.as_mut().unwrap().expr = Box::new(e);
                }
                block.stmts.push(l);
                block.stmts.push(verb(t));
                block.stmts.push(Stmt::Expr(syn::parse_str("vx_ret").unwrap(), None));
                true
            }
            Some(s) => {
                block.stmts.push(s);
                block.stmts.push(verb(t));
                true
            }
            None => false,
        },
        ["loop", k, pos] => {
            let mut i = Inserter { want: Want::Loop(k.parse().unwrap(), pos), text: t, done: false, seen: 0 };
            i.visit_block_mut(block);
            i.done
        }
        ["call", name, nth, pos] => {
            let mut i = Inserter { want: Want::Call(name, nth.parse().unwrap(), pos), text: t, done: false, seen: 0 };
            i.visit_block_mut(block);
            i.done
        }
        ["let", name, nth, pos] => {
            let mut i = Inserter { want: Want::Let(ren(name), nth.parse().unwrap(), pos), text: t, done: false, seen: 0 };
            i.visit_block_mut(block);
            i.done
        }
        ["assign", name, nth, pos] => {
            let mut i = Inserter { want: Want::Assign(ren(name), nth.parse().unwrap(), pos), text: t, done: false, seen: 0 };
            i.visit_block_mut(block);
            i.done
        }
        _ => panic!("bad @at {}", place),
    }
}

struct LoopContracts<'a> {
    specs: &'a HashMap<usize, TokenStream>,
}
impl<'a> VisitMut for LoopContracts<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new = match e {
            Expr::ForLoop(f) => {
                let k = tag_of(&f.attrs);
                f.attrs.retain(|a| !a.path().is_ident("vx_loop"));
                match k.and_then(|k| self.specs.get(&k).map(|s| (k, s))) {
                    Some((k, s)) => {
                        let it = format_ident!("it{}", k);
                        let (p, x, b) = (&f.pat, &f.expr, &f.body);
                        Some(quote!(for #p in #it: #x #s #b))
                    }
                    None => None,
                }
            }
            Expr::While(f) => {
                let k = tag_of(&f.attrs);
                f.attrs.retain(|a| !a.path().is_ident("vx_loop"));
                match k.and_then(|k| self.specs.get(&k)) {
                    Some(s) => {
                        let (c, b) = (&f.cond, &f.body);
                        Some(quote!(while #c #s #b))
                    }
                    None => None,
                }
            }
            Expr::Loop(f) => {
                let k = tag_of(&f.attrs);
                f.attrs.retain(|a| !a.path().is_ident("vx_loop"));
                match k.and_then(|k| self.specs.get(&k)) {
                    Some(s) => {
                        let b = &f.body;
                        Some(quote!(loop #s #b))
                    }
                    None => None,
                }
            }
            _ => None,
        };
        if let Some(t) = new {
            *e = Expr::Verbatim(t);
        }
    }
}

#[allow(dead_code)]
fn unused(_: HasNested) {}

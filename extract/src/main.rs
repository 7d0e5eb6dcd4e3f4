//! vx-extract: mechanical extraction of functions from /repo's current source into Verus input.
//!
//! usage: vx-extract UNIT.vspec REPO OUT.rs REPORT.json BASELINE.json [--record]
//!
//! The contract file (UNIT.vspec) holds verbatim Verus text (spec functions, lemmas, trusted wrappers)
//! and `@item` directives naming the real items to splice in together with their contracts.
//! Everything executable that is not in the prelude is parsed from REPO's source on every run.
mod printer;
mod xform;

use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fs;
use std::str::FromStr;

#[derive(Default, Clone, Debug)]
pub struct ItemSpec {
    pub kind: String,
    pub file: String,
    pub name: String,
    pub rest: String,
    pub impl_header: Option<String>,
    pub ret: Option<String>,
    pub rettype: Option<String>,
    pub sig: Option<String>,
    pub rename: Option<String>,
    pub attrs: String,
    pub spec: String,
    pub loops: BTreeMap<usize, String>,
    pub ats: Vec<(String, String)>,
    pub tys: Vec<(String, String)>,
    pub optional_loops: bool,
    pub lift_closures: bool,
    pub retains: Vec<String>,
    pub replaces: Vec<(String, String)>,
}

#[derive(Default, Clone, Debug)]
pub struct Rules {
    pub methods: HashMap<String, String>,
    pub calls: HashMap<String, String>,
    pub types: Vec<(String, String)>,
    pub known: HashSet<String>,
    pub derefs: HashSet<String>,
}

enum Chunk {
    Text(String),
    Item(ItemSpec),
}

fn read_spec(path: &str, rules: &mut Rules, out: &mut Vec<Chunk>) {
    let dir = std::path::Path::new(path).parent().unwrap().to_path_buf();
    let text = fs::read_to_string(path).unwrap_or_else(|e| die(&format!("cannot read {}: {}", path, e)));
    let mut buf = String::new();
    let mut lines = text.lines().peekable();
    while let Some(l) = lines.next() {
        let t = l.trim_start();
        if !t.starts_with('@') {
            buf.push_str(l);
            buf.push('\n');
            continue;
        }
        let mut w = t.splitn(2, char::is_whitespace);
        let dir_name = w.next().unwrap();
        let arg = w.next().unwrap_or("").trim().to_string();
        match dir_name {
            "@unit" => {}
            "@include" => {
                out.push(Chunk::Text(std::mem::take(&mut buf)));
                read_spec(dir.join(&arg).to_str().unwrap(), rules, out);
            }
            "@method" => {
                let (a, b) = arg.split_once("=>").unwrap();
                rules.methods.insert(a.trim().into(), b.trim().into());
            }
            "@call" => {
                let (a, b) = arg.split_once("=>").unwrap();
                rules.calls.insert(a.trim().replace(' ', ""), b.trim().into());
            }
            "@type" => {
                let (a, b) = arg.split_once("=>").unwrap();
                rules.types.push((norm(a), b.trim().into()));
            }
            "@known" => {
                for n in arg.split_whitespace() {
                    rules.known.insert(n.into());
                }
            }
            "@item" => {
                out.push(Chunk::Text(std::mem::take(&mut buf)));
                let mut p = arg.split_whitespace();
                let mut it = ItemSpec {
                    kind: p.next().unwrap().into(),
                    file: p.next().unwrap().into(),
                    name: p.next().unwrap().into(),
                    ..Default::default()
                };
                it.rest = p.collect::<Vec<_>>().join(" ");
                // sub-directives until @end
                enum Cur {
                    None,
                    Spec,
                    Loop(usize),
                    At(usize),
                }
                let mut cur = Cur::None;
                loop {
                    let l = match lines.next() {
                        Some(l) => l,
                        None => die(&format!("{}: missing @end for {}", path, it.name)),
                    };
                    let t = l.trim_start();
                    if t.starts_with('@') {
                        let mut w = t.splitn(2, char::is_whitespace);
                        let d = w.next().unwrap();
                        let a = w.next().unwrap_or("").trim().to_string();
                        match d {
                            "@end" => break,
                            "@impl" => it.impl_header = Some(a),
                            "@ret" => it.ret = Some(a),
                            "@rettype" => it.rettype = Some(a),
                            "@sig" => it.sig = Some(a),
                            "@as" => it.rename = Some(a),
                            "@attr" => it.attrs.push_str(&format!("{}\n", a)),
                            "@spec" => cur = Cur::Spec,
                            "@loop" => {
                                let k: usize = a.parse().unwrap();
                                it.loops.insert(k, String::new());
                                cur = Cur::Loop(k)
                            }
                            "@at" => {
                                it.ats.push((a, String::new()));
                                cur = Cur::At(it.ats.len() - 1)
                            }
                            "@ty" => {
                                let (n, ty) = a.split_once(' ').unwrap();
                                it.tys.push((n.into(), ty.trim().into()));
                            }
                            "@retain" => it.retains.push(a),
                            "@replace" => {
                                let (x, y) = a.split_once("==>").unwrap_or_else(|| die(&format!("{}: bad @replace", path)));
                                it.replaces.push((x.trim().into(), y.trim().into()))
                            }
                            _ => die(&format!("{}: unknown directive {}", path, d)),
                        }
                        continue;
                    }
                    match cur {
                        Cur::None => {
                            if !t.is_empty() && !t.starts_with("//") {
                                die(&format!("{}: stray text in item {}: {}", path, it.name, l))
                            }
                        }
                        Cur::Spec => it.spec.push_str(&format!("{}\n", l)),
                        Cur::Loop(k) => it.loops.get_mut(&k).unwrap().push_str(&format!("{}\n", l)),
                        Cur::At(k) => it.ats[k].1.push_str(&format!("{}\n", l)),
                    }
                }
                out.push(Chunk::Item(it));
            }
            _ => {
                buf.push_str(l);
                buf.push('\n');
            }
        }
    }
    out.push(Chunk::Text(buf));
}

pub fn norm(s: &str) -> String {
    TokenStream::from_str(s).map(|t| t.to_string()).unwrap_or_else(|_| s.to_string()).replace(' ', "")
}

fn die(msg: &str) -> ! {
    eprintln!("vx-extract: {}", msg);
    std::process::exit(3)
}

pub fn type_name(ty: &syn::Type) -> String {
    match ty {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        _ => ty.to_token_stream().to_string(),
    }
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && {
            let s = a.to_token_stream().to_string();
            s.contains("test") && !s.contains("not (test)") && !s.contains("not(test)")
        }
    })
}

#[derive(Clone)]
pub struct FnDef {
    pub name: String,
    pub ty: Option<String>,
    pub generics: syn::Generics,
    pub self_ty: Option<syn::Type>,
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub line: usize,
}

/// items declared at the top of a function body (visitors of hand-written Deserialize implementations)
fn local_items(b: &syn::Block) -> Vec<syn::Item> {
    b.stmts.iter().filter_map(|s| if let syn::Stmt::Item(i) = s { Some(i.clone()) } else { None }).collect()
}
/// All functions of a file (free, inherent and trait-impl methods), test modules excluded.
fn collect_fns(items: &[syn::Item], out: &mut Vec<FnDef>) {
    for it in items {
        match it {
            syn::Item::Fn(f) if !is_test(&f.attrs) => {
                out.push(FnDef {
                    // a variant that is configured off keeps its own name
                    name: format!("{}{}", f.sig.ident, if f.attrs.iter().any(|a| xform::cfg_on(a) == Some(false)) { "@off" } else { "" }),
                    ty: None,
                    generics: Default::default(),
                    self_ty: None,
                    sig: f.sig.clone(),
                    block: (*f.block).clone(),
                    line: f.sig.ident.span().start().line,
                });
                collect_fns(&local_items(&f.block), out)
            }
            syn::Item::Impl(i) if !is_test(&i.attrs) => {
                for ii in &i.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        if is_test(&f.attrs) {
                            continue;
                        }
                        out.push(FnDef {
                            name: f.sig.ident.to_string(),
                            ty: Some(type_name(&i.self_ty)),
                            generics: i.generics.clone(),
                            self_ty: Some((*i.self_ty).clone()),
                            sig: f.sig.clone(),
                            block: f.block.clone(),
                            line: f.sig.ident.span().start().line,
                        });
                        collect_fns(&local_items(&f.block), out)
                    }
                }
            }
            syn::Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, its)) = &m.content {
                    collect_fns(its, out)
                }
            }
            // a lazily initialised static is the function that makes its value
            syn::Item::Static(s) if !is_test(&s.attrs) => {
                if let (syn::Type::Path(tp), syn::Expr::Call(c)) = (&*s.ty, &*s.expr) {
                    if let (Some(syn::Expr::Closure(cl)), Some(syn::PathSegment { arguments: syn::PathArguments::AngleBracketed(ga), .. })) = (c.args.first(), tp.path.segments.last()) {
                        let (id, t, b) = (&s.ident, ga.args.first(), &cl.body);
                        if cl.inputs.is_empty() && c.args.len() == 1 {
                            if let Ok(f) = syn::parse2::<syn::ItemFn>(quote!(fn #id() -> #t { #b })) {
                                out.push(FnDef { name: id.to_string(), ty: None, generics: Default::default(), self_ty: None, sig: f.sig, block: *f.block, line: id.span().start().line })
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

struct Src {
    file: syn::File,
    fns: Vec<FnDef>,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 6 {
        die("usage: vx-extract UNIT.vspec REPO OUT.rs REPORT.json BASELINE.json [--record]");
    }
    // functions that could not be brought through the verifier this time: contract kept, body dropped
    let trust: Vec<String> = args.iter().filter_map(|a| a.strip_prefix("--trust=").map(|s| s.to_string())).collect();
    let probe = args.iter().any(|a| a == "--probe");
    let record = args.iter().any(|a| a == "--record");
    let (unit, repo, out_rs, report_path, baseline_path) = (&args[1], &args[2], &args[3], &args[4], &args[5]);
    let mut rules = Rules::default();
    let mut chunks = Vec::new();
    read_spec(unit, &mut rules, &mut chunks);
    let baseline: Value = fs::read_to_string(baseline_path)
        .ok()
        .and_then(|s| serde_json::from_str(&s).ok())
        .unwrap_or(json!({}));
    let mut new_base = serde_json::Map::new();
    // names under contract in this unit
    for c in &chunks {
        if let Chunk::Item(i) = c {
            if i.kind == "fn" {
                rules.known.insert(i.name.clone());
                if !i.name.contains("::") {
                    rules.known.insert(i.name.clone());
                }
            }
        }
    }
    let mut srcs: HashMap<String, Src> = HashMap::new();
    let mut text = String::new();
    let mut fns_report = Vec::new();
    let mut types_report = Vec::new();
    let mut lost: Vec<Value> = Vec::new();
    for c in &chunks {
        match c {
            Chunk::Text(t) => {
                text.push_str("// @verbatim\n");
                text.push_str(t);
            }
            Chunk::Item(it) => {
                if !srcs.contains_key(&it.file) {
                    let p = format!("{}/{}", repo, it.file);
                    match fs::read_to_string(&p).map_err(|e| e.to_string()).and_then(|s| syn::parse_file(&s).map_err(|e| e.to_string())) {
                        Ok(f) => {
                            let mut fns = Vec::new();
                            collect_fns(&f.items, &mut fns);
                            srcs.insert(it.file.clone(), Src { file: f, fns });
                        }
                        Err(e) => {
                            lost.push(json!({"item": it.name, "file": it.file, "why": format!("cannot read or parse: {}", e)}));
                            continue;
                        }
                    }
                }
                let src = &srcs[&it.file];
                match it.kind.as_str() {
                    "options" => match emit_options(it, &src.file, &rules) {
                        Ok(code) => {
                            let key = format!("{}#options:{}", it.file, it.name);
                            let sha = xform::short_hash(&code);
                            types_report.push(json!({"name": format!("{} options", it.name), "file": it.file, "sha": sha,
                                "unchanged": baseline[&key]["sha"].as_str() == Some(&sha)}));
                            new_base.insert(key, json!({"sha": sha}));
                            text.push_str(&format!("// @type {} {}Options\n", it.file, it.name));
                            text.push_str(&code);
                            text.push('\n');
                        }
                        Err(e) => lost.push(json!({"item": it.name, "file": it.file, "why": e})),
                    },
                    "fn" => match xform::emit_fn(it, &src.fns, &rules, &baseline, record, probe, trust.contains(&it.name)) {
                        Ok((code, rep)) => {
                            text.push_str(&format!("// @fn {} {}\n", it.file, it.name));
                            text.push_str(&code);
                            text.push('\n');
                            new_base.insert(
                                format!("{}#{}", it.file, it.name),
                                json!({"locals": rep["locals"], "loops": rep["loops"], "sha": rep["sha"]}),
                            );
                            fns_report.push(rep);
                        }
                        Err(e) => lost.push(json!({"item": it.name, "file": it.file, "why": e})),
                    },
                    _ => match emit_type(it, &src.file, &rules) {
                        Ok(code) => {
                            let key = format!("{}#type:{}", it.file, it.name);
                            let sha = xform::short_hash(&code);
                            types_report.push(json!({"name": it.name, "file": it.file, "sha": sha,
                                "unchanged": baseline[&key]["sha"].as_str() == Some(&sha)}));
                            new_base.insert(key, json!({"sha": sha}));
                            text.push_str(&format!("// @type {} {}\n", it.file, it.name));
                            text.push_str(&code);
                            text.push('\n');
                        }
                        Err(e) => lost.push(json!({"item": it.name, "file": it.file, "why": e})),
                    },
                }
            }
        }
    }
    fs::write(out_rs, text).unwrap();
    let rep = json!({"unit": unit, "functions": fns_report, "types": types_report, "lost": lost});
    fs::write(report_path, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
    if record {
        let mut b = baseline.as_object().cloned().unwrap_or_default();
        for (k, v) in new_base {
            b.insert(k, v);
        }
        fs::write(baseline_path, serde_json::to_string_pretty(&Value::Object(b)).unwrap() + "\n").unwrap();
    }
    if !lost.is_empty() {
        std::process::exit(4)
    }
}

fn emit_type(it: &ItemSpec, file: &syn::File, rules: &Rules) -> Result<String, String> {
    fn find(items: &[syn::Item], kind: &str, name: &str) -> Option<syn::Item> {
        for i in items {
            let hit = match (kind, i) {
                ("struct", syn::Item::Struct(s)) => s.ident == name,
                ("enum", syn::Item::Enum(s)) => s.ident == name,
                ("const", syn::Item::Const(s)) => s.ident == name,
                _ => false,
            };
            if hit {
                return Some(i.clone());
            }
            if let syn::Item::Impl(im) = i {
                for ii in &im.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        if let Some(x) = find(&local_items(&f.block), kind, name) {
                            return Some(x);
                        }
                    }
                }
            }
            if let syn::Item::Mod(m) = i {
                if let Some((_, its)) = &m.content {
                    if let Some(x) = find(its, kind, name) {
                        return Some(x);
                    }
                }
            }
        }
        None
    }
    let name = it.name.rsplit("::").next().unwrap().to_string();
    if it.kind == "const" && it.name.contains("::") {
        // associated constant
        let tyn = it.name.split("::").next().unwrap();
        for i in &file.items {
            if let syn::Item::Impl(im) = i {
                if type_name(&im.self_ty) == tyn {
                    for ii in &im.items {
                        if let syn::ImplItem::Const(c) = ii {
                            if c.ident == name {
                                let (id, ty, ex) = (&c.ident, &c.ty, &c.expr);
                                let sty: TokenStream = TokenStream::from_str(tyn).unwrap();
                                return Ok(printer::print(&quote!(impl #sty { pub const #id: #ty = #ex; })));
                            }
                        }
                    }
                }
            }
        }
        return Err("constant not found".into());
    }
    let item = find(&file.items, &it.kind, &name).ok_or("type not found")?;
    let derive = if it.rest.starts_with("derive") {
        let d = TokenStream::from_str(&it.rest).map_err(|e| e.to_string())?;
        quote!(#[#d])
    } else {
        quote!()
    };
    let attrs = TokenStream::from_str(&it.attrs).map_err(|e| e.to_string())?;
    match item {
        syn::Item::Struct(s) => {
            let mut s = s.clone();
            if let Some(n) = &it.rename {
                s.ident = quote::format_ident!("{}", n);
            }
            let id = &s.ident;
            let mut g = s.generics.clone();
            for p in g.type_params_mut() {
                p.default = None;
            }
            if let Some(h) = &it.impl_header {
                // monomorphic rendering: header text replaces the generics
                let h = TokenStream::from_str(h).unwrap();
                for f in s.fields.iter_mut() {
                    f.ty = xform::map_type(&f.ty, rules);
                }
                let fs = s.fields.iter().map(|f| {
                    let (i, t) = (&f.ident, &f.ty);
                    quote!(pub #i: #t)
                });
                return Ok(printer::print(&quote!(#attrs #derive pub struct #h { #(#fs),* })));
            }
            let wc = &g.where_clause;
            let code = match &s.fields {
                syn::Fields::Named(_) => {
                    let fs = s.fields.iter().map(|f| {
                        let (i, t) = (&f.ident, xform::map_type(&f.ty, rules));
                        quote!(pub #i: #t)
                    });
                    quote!(#attrs #derive pub struct #id #g #wc { #(#fs),* })
                }
                syn::Fields::Unnamed(_) => {
                    let fs = s.fields.iter().map(|f| {
                        let t = xform::map_type(&f.ty, rules);
                        quote!(pub #t)
                    });
                    quote!(#attrs #derive pub struct #id #g ( #(#fs),* ) #wc;)
                }
                syn::Fields::Unit => quote!(#attrs #derive pub struct #id #g;),
            };
            Ok(printer::print(&code))
        }
        syn::Item::Enum(e) => {
            let id = &e.ident;
            let g = &e.generics;
            let vs = e.variants.iter().map(|v| {
                let (i, f) = (&v.ident, &v.fields);
                quote!(#i #f)
            });
            Ok(printer::print(&quote!(#attrs #derive pub enum #id #g { #(#vs),* })))
        }
        syn::Item::Const(c) => {
            let (id, mut ty, ex) = (&c.ident, xform::map_type(&c.ty, rules), &c.expr);
            fn lasting(ty: &mut syn::Type) {
                match ty {
                    syn::Type::Reference(r) => {
                        r.lifetime.get_or_insert(syn::parse_quote!('static));
                        lasting(&mut r.elem)
                    }
                    syn::Type::Slice(s) => lasting(&mut s.elem),
                    syn::Type::Array(s) => lasting(&mut s.elem),
                    _ => {}
                }
            }
            lasting(&mut ty);
            Ok(printer::print(&quote!(pub const #id: #ty = #ex;)))
        }
        _ => Err("unsupported item".into()),
    }
}

/// what derive_builder makes of a struct: an options type, its setters and the final call
fn emit_options(it: &ItemSpec, file: &syn::File, rules: &Rules) -> Result<String, String> {
    let s = file.items.iter().find_map(|i| match i { syn::Item::Struct(s) if s.ident == it.name => Some(s), _ => None }).ok_or("struct not found")?;
    // `#[builder(a = x, b(y), c)]` as a list
    let args = |attrs: &[syn::Attribute]| -> Result<Vec<syn::Meta>, String> {
        let mut r = vec![];
        for a in attrs.iter().filter(|a| a.path().is_ident("builder")) {
            r.extend(a.parse_args_with(syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated).map_err(|e| e.to_string())?);
        }
        Ok(r)
    };
    let lit = |e: &syn::Expr| -> Result<String, String> {
        match e {
            syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(x), .. }) => Ok(x.value()),
            _ => Err("not a string".into()),
        }
    };
    let (mut name, mut last, mut owned) = (format!("{}Builder", s.ident), "build".to_string(), false);
    for m in args(&s.attrs)? {
        match &m {
            syn::Meta::NameValue(nv) if nv.path.is_ident("name") => name = lit(&nv.value)?,
            syn::Meta::NameValue(nv) if nv.path.is_ident("pattern") => owned = lit(&nv.value)? == "owned",
            syn::Meta::List(l) if l.path.is_ident("build_fn") => {
                for x in l.parse_args_with(syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated).map_err(|e| e.to_string())? {
                    match &x {
                        syn::Meta::NameValue(nv) if nv.path.is_ident("name") => last = lit(&nv.value)?,
                        _ => return Err(format!("unknown builder attribute {}", x.to_token_stream())),
                    }
                }
            }
            _ => return Err(format!("unknown builder attribute {}", m.to_token_stream())),
        }
    }
    let (id, oid, lid) = (&s.ident, quote::format_ident!("{}", name), quote::format_ident!("{}", last));
    let (mut none, mut setters, mut fields, mut keep, mut have) = (vec![], vec![], vec![], vec![], vec![]);
    let all: Vec<_> = s.fields.iter().map(|f| f.ident.clone().unwrap()).collect();
    for f in &s.fields {
        let (fid, mut ty) = (f.ident.clone().unwrap(), xform::map_type(&f.ty, rules));
        let (mut def, mut into, mut strip) = (None, false, false);
        for m in args(&f.attrs)? {
            match &m {
                syn::Meta::NameValue(nv) if nv.path.is_ident("default") => def = Some(lit(&nv.value)?),
                syn::Meta::Path(p) if p.is_ident("default") => def = Some("Default::default()".into()),
                syn::Meta::List(l) if l.path.is_ident("setter") => {
                    for x in l.parse_args_with(syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated).map_err(|e| e.to_string())? {
                        match &x {
                            syn::Meta::Path(p) if p.is_ident("into") => into = true,
                            syn::Meta::Path(p) if p.is_ident("strip_option") => strip = true,
                            _ => return Err(format!("unknown setter attribute {}", x.to_token_stream())),
                        }
                    }
                }
                _ => return Err(format!("unknown builder attribute {}", m.to_token_stream())),
            }
        }
        let field_ty = ty.clone();
        none.push(quote!(#fid: None));
        fields.push(quote!(pub #fid: Option<#field_ty>));
        let others: Vec<_> = all.iter().filter(|x| **x != fid).map(|x| quote!(#x: self.#x)).collect();
        let mut val = quote!(value);
        if strip {
            if let syn::Type::Path(p) = &ty {
                if let syn::PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                    if let Some(syn::GenericArgument::Type(t)) = a.args.first() {
                        ty = t.clone();
                        val = quote!(Some(value));
                    }
                }
            }
        }
        if into {
            // the callers hand in string slices
            setters.push(quote!(pub fn #fid(self, value: &str) -> (r: Self) ensures r == (Self { #fid: r.#fid, ..self }), r.#fid is Some, r.#fid->0@ == value@ { #oid { #fid: Some(vx_into_string(value)), #(#others),* } }));
        } else {
            setters.push(quote!(pub fn #fid(self, value: #ty) -> (r: Self) ensures r == (Self { #fid: Some(#val), ..self }) { #oid { #fid: Some(#val), #(#others),* } }));
        }
        let d: TokenStream = match &def {
            Some(d) => TokenStream::from_str(d).map_err(|e| e.to_string())?,
            None => return Err(format!("{} has no default", fid)),
        };
        if into {
            let l = d.clone().into_iter().next().ok_or("empty default")?;
            keep.push(quote!(#fid: match self.#fid { Some(x) => x, None => vx_into_string(#l) }));
            have.push(quote!(r->Ok_0.#fid@ == match self.#fid { Some(x) => x@, None => (#l)@ }));
        } else {
            keep.push(quote!(#fid: match self.#fid { Some(x) => x, None => #d }));
            // in specifications a number is an integer unless it says otherwise
            let t = ty.to_token_stream().to_string();
            let ds = if ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"].contains(&t.as_str()) { quote!(((#d) as #ty)) } else { d.clone() };
            have.push(quote!(r->Ok_0.#fid == match self.#fid { Some(x) => x, None => #ds }));
        }
    }
    let _ = owned;
    Ok(printer::print(&quote!(
        pub struct #oid { #(#fields),* }
        impl #oid {
            pub fn default() -> (r: Self) ensures r == (#oid { #(#none),* }) { #oid { #(#none),* } }
            #(#setters)*
            pub fn #lid(self) -> (r: Result<#id, LinderaError>) ensures r is Ok, #(#have),* { Ok(#id { #(#keep),* }) }
        }
    )))
}

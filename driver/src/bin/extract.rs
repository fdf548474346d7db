//! Mechanical extraction of the emulator's source into one Verus file.
//!
//! The function bodies are taken from /repo's working tree on every run;
//! only the rewrites listed in DESIGN.md are applied to them. The contracts
//! come from the sidecar files in /verif/contracts.

use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::path::PathBuf;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

// ---------------------------------------------------------------- contracts

#[derive(Default, Clone, Debug)]
struct Clause {
    tags: String,
    text: String,
}

#[derive(Default, Clone, Debug)]
struct LoopC {
    inv: Vec<Clause>,
    ens: Vec<Clause>,
    dec: Option<String>,
    start: String,
    end: String,
    attrs: String,
}

#[derive(Default, Clone, Debug)]
struct FnC {
    tags: String,
    req: Vec<Clause>,
    ens: Vec<Clause>,
    dec: Option<String>,
    attrs: Vec<String>,
    loops: BTreeMap<usize, LoopC>,
    start: String,
    before: Vec<(String, usize, String)>,
    extra: String,
    ret: Option<String>,
    taildup: bool,
    trust: bool,
    skip: bool,
    used: bool,
}

#[derive(Default)]
struct Contracts {
    fns: BTreeMap<String, FnC>,
    impls: BTreeMap<String, String>, // extra items of an impl block
    mods: BTreeMap<String, String>,  // extra items of a module
    skip: Vec<String>,
    keep: Vec<String>,
    trust: Vec<String>,
    consts: BTreeMap<String, String>,
    prelude: String,
}

fn split_tags(s: &str) -> (String, String) {
    // "S01 S02: expr" or "expr"
    if let Some(i) = s.find(':') {
        let head = &s[..i];
        if head == "DET" {
            return ("DET".to_string(), s[i + 1..].trim().to_string());
        }
        if !s[i..].starts_with("::")
            && !head.trim().is_empty()
            && head.split_whitespace().all(|t| {
                t.len() == 3
                    && t.as_bytes()[0].is_ascii_uppercase()
                    && t.as_bytes()[1].is_ascii_digit()
                    && t.as_bytes()[2].is_ascii_digit()
            })
        {
            return (head.trim().to_string(), s[i + 1..].trim().to_string());
        }
    }
    (String::new(), s.trim().to_string())
}

impl Contracts {
    fn load(&mut self, name: &str, text: &str) {
        let mut cur: Option<String> = None;
        let mut curloop: Option<usize> = None;
        let mut entries: Vec<(usize, String, String)> = vec![];
        for (no, line) in text.lines().enumerate() {
            if line.trim_start().starts_with("//") && entries.is_empty() {
                continue;
            }
            if let Some(rest) = line.strip_prefix('@') {
                let (k, v) = match rest.find(char::is_whitespace) {
                    Some(i) => (&rest[..i], rest[i..].trim()),
                    None => (rest, ""),
                };
                entries.push((no + 1, k.to_string(), v.to_string()));
            } else if let Some(l) = entries.last_mut() {
                l.2.push('\n');
                l.2.push_str(line);
            }
        }
        for (no, k, v) in entries {
            let vt = v.trim().to_string();
            if k == "fn" || k == "trust" || k == "skip" || k == "mod" || k == "impl" || k == "const"
            {
                cur = None;
                curloop = None;
            }
            macro_rules! f {
                () => {
                    self.fns
                        .get_mut(cur.as_ref().unwrap_or_else(|| {
                            panic!("{}:{}: no current function", name, no)
                        }))
                        .unwrap()
                };
            }
            match k.as_str() {
                "fn" => {
                    let e = self.fns.entry(vt.clone()).or_default();
                    let _ = e;
                    cur = Some(vt);
                }
                "trust" => self.trust.push(vt),
                "skip" => self.skip.push(vt),
                "mod" => {
                    let (m, body) = vt.split_once('\n').unwrap_or((&vt, ""));
                    let e = self.mods.entry(m.trim().to_string()).or_default();
                    e.push_str(body);
                    e.push('\n');
                }
                "impl" => {
                    let (m, body) = vt.split_once('\n').unwrap_or((&vt, ""));
                    let e = self.impls.entry(m.trim().to_string()).or_default();
                    e.push_str(body);
                    e.push('\n');
                }
                "const" => {
                    let (m, body) = vt.split_once('\n').unwrap_or((&vt, ""));
                    self.consts.insert(m.trim().to_string(), body.to_string());
                }
                "tags" => f!().tags = vt,
                "ret" => f!().ret = Some(vt),
                "attr" => f!().attrs.push(vt),
                "trusted" => f!().trust = true,
                "taildup" => f!().taildup = true,
                "extra" => f!().extra = vt,
                "start" => f!().start = v,
                "before" => {
                    // @before <substring of callee> <n> \n code
                    let (m, body) = v.split_once('\n').unwrap_or((&v, ""));
                    let m = m.trim();
                    let (a, n) = match m.rsplit_once(' ') {
                        Some((a, n)) if n.parse::<usize>().is_ok() => (a.to_string(), n.parse().unwrap()),
                        _ => (m.to_string(), 1),
                    };
                    f!().before.push((a, n, body.to_string()));
                }
                "req" | "ens" | "inv" | "lens" => {
                    let (tags, text) = split_tags(&vt);
                    let text = text.trim_end().trim_end_matches(',').to_string();
                    let c = Clause { tags, text };
                    match k.as_str() {
                        "req" => f!().req.push(c),
                        "ens" => f!().ens.push(c),
                        "lens" => {
                            let l = curloop.expect("lens outside loop");
                            f!().loops.get_mut(&l).unwrap().ens.push(c)
                        }
                        _ => {
                            let l = curloop.expect("inv outside loop");
                            f!().loops.get_mut(&l).unwrap().inv.push(c)
                        }
                    }
                }
                "dec" => {
                    if let Some(l) = curloop {
                        f!().loops.get_mut(&l).unwrap().dec = Some(vt)
                    } else {
                        f!().dec = Some(vt)
                    }
                }
                "loop" => {
                    let n: usize = vt.parse().expect("loop number");
                    f!().loops.entry(n).or_default();
                    curloop = Some(n);
                }
                "loopattr" => {
                    let l = curloop.unwrap();
                    f!().loops.get_mut(&l).unwrap().attrs = vt
                }
                "loopstart" => {
                    let l = curloop.unwrap();
                    f!().loops.get_mut(&l).unwrap().start = v
                }
                "loopend" => {
                    let l = curloop.unwrap();
                    f!().loops.get_mut(&l).unwrap().end = v
                }
                _ => panic!("{}:{}: unknown directive @{}", name, no, k),
            }
        }
    }

    fn is_skip(&self, key: &str) -> bool {
        self.skip.iter().any(|s| match_key(s, key))
    }
    fn is_trust(&self, key: &str) -> bool {
        (self.trust.iter().any(|s| match_key(s, key)) && !self.keep.iter().any(|s| s == key))
            || self.fns.get(key).map(|f| f.trust).unwrap_or(false)
    }
}

/// `*` matches any text.
fn match_key(pat: &str, key: &str) -> bool {
    let parts: Vec<&str> = pat.split('*').collect();
    if parts.len() == 1 {
        return pat == key;
    }
    let Some(mut rest) = key.strip_prefix(parts[0]) else {
        return false;
    };
    for p in &parts[1..parts.len() - 1] {
        match rest.find(p) {
            Some(i) => rest = &rest[i + p.len()..],
            None => return false,
        }
    }
    rest.ends_with(parts[parts.len() - 1])
}

// ------------------------------------------------------------------ context

struct Ctx {
    effectful: HashSet<String>,
    enums: HashMap<String, Vec<String>>, // enum name -> variants
    drop_types: HashSet<String>,         // types with a Drop impl or containing one
    drop_fields: HashSet<String>,        // HashMap fields whose values are droppable
    fn_names: HashSet<String>,           // all function names of the extracted code
    map_fields: HashSet<String>,         // HashMap fields
}

// Methods of the stubs with an effect on the world.
const BASE_EFFECTS: &[&str] = &[
    "send", "spawn", "sleep", "abort", "recv", "next", "v_file_write", "subscribe",
    "unbounded_channel", "read_exact", "read_exact_into", "read_exact_from", "write_all",
];

fn ident(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

fn type_str(t: &impl ToTokens) -> String {
    t.to_token_stream()
        .to_string()
        .replace(" :: ", "::")
        .replace(" < ", "<")
        .replace(" <", "<")
        .replace("< ", "<")
        .replace(" >", ">")
        .replace("& ", "&")
        .replace(" ,", ",")
        .replace(" ;", ";")
}

/// Canonical key of an impl block: `Device`, `VFrom<&Status> for u8`.
fn impl_key(i: &ItemImpl) -> String {
    let ty = type_str(&i.self_ty);
    match &i.trait_ {
        None => ty.split('<').next().unwrap().to_string(),
        Some((_, p, _)) => {
            let seg = p.segments.last().unwrap();
            format!("{} for {}", type_str(seg), ty)
        }
    }
}

// ------------------------------------------------- path and type rewriting

struct PathRw;

const EXT: &[&str] = &[
    "tokio", "futures", "bytes", "pdl_runtime", "anyhow", "hex", "serde", "thiserror", "log",
];

fn rewrite_path(p: &mut syn::Path) {
    let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    let first = segs[0].as_str();
    let mk = |rest: &[&str], from: usize, p: &syn::Path| -> syn::Path {
        let mut out: syn::Path = parse_quote!(crate::stubs);
        for r in rest {
            out.segments.push(PathSegment {
                ident: ident(r),
                arguments: PathArguments::None,
            });
        }
        for s in p.segments.iter().skip(from) {
            out.segments.push(s.clone());
        }
        out
    };
    if EXT.contains(&first) && segs.len() > 1 {
        *p = mk(&[first], 1, p);
        return;
    }
    let two = segs.iter().take(2).cloned().collect::<Vec<_>>().join("::");
    let three = segs.iter().take(3).cloned().collect::<Vec<_>>().join("::");
    match three.as_str() {
        "std::collections::HashMap" => {
            let a = p.segments[2].arguments.clone();
            *p = mk(&["HashMap"], 3, p);
            p.segments[2].arguments = a;
            return;
        }
        "std::sync::Mutex" => {
            let a = p.segments[2].arguments.clone();
            *p = mk(&["Mutex"], 3, p);
            p.segments[2].arguments = a;
            return;
        }
        "std::cmp::min" => {
            *p = mk(&["vmin"], 3, p);
            return;
        }
        _ => (),
    }
    match two.as_str() {
        "std::fs" | "std::io" | "std::path" | "std::time" => {
            let m = segs[1].clone();
            *p = mk(&[&m], 2, p);
        }
        "u8::from_le_bytes" | "u16::from_le_bytes" | "u32::from_le_bytes"
        | "u64::from_le_bytes" | "u32::to_le_bytes" | "u16::to_le_bytes" | "u64::to_le_bytes" => {
            let n = format!("{}_{}", segs[0], segs[1]);
            *p = mk(&[&n], 2, p);
        }
        _ => (),
    }
}

fn is_impl_of(t: &syn::Type, name: &str) -> bool {
    if let syn::Type::ImplTrait(i) = t {
        i.bounds.iter().any(|b| match b {
            TypeParamBound::Trait(t) => t.path.segments.last().unwrap().ident == name,
            _ => false,
        })
    } else {
        false
    }
}

impl VisitMut for PathRw {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        rewrite_path(p);
        // trait names
        let last = p.segments.last_mut().unwrap();
        let n = last.ident.to_string();
        let ren = match n.as_str() {
            "TryFrom" => Some("VTryFrom"),
            "TryInto" => Some("VTryInto"),
            "Default" => Some("VDefault"),
            _ => None,
        };
        if let Some(r) = ren {
            last.ident = ident(r);
        } else if n == "From" && !last.arguments.is_none() {
            last.ident = ident("VFrom");
        }
    }
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        visit_mut::visit_type_mut(self, t);
        if is_impl_of(t, "BufMut") {
            *t = parse_quote!(Vec<u8>);
            return;
        }
        if is_impl_of(t, "Stream") {
            *t = parse_quote!(crate::stubs::RxStream);
            return;
        }
        if is_impl_of(t, "Sink") {
            *t = parse_quote!(crate::stubs::TxSink);
            return;
        }
        let s = type_str(t);
        if s.starts_with("Pin<Box<dyn") && s.contains("Stream") {
            *t = parse_quote!(crate::stubs::RxStream);
        } else if s.starts_with("Pin<Box<dyn") && s.contains("Sink") {
            *t = parse_quote!(crate::stubs::TxSink);
        } else if s.starts_with("Box<dyn RangingEstimator") {
            *t = parse_quote!(crate::stubs::Estimator);
        } else if s == "PathBuf" || s == "Path" {
            *t = parse_quote!(crate::stubs::path::PathBuf);
        } else if s == "Instant" {
            *t = parse_quote!(crate::stubs::time::Instant);
        } else if s == "HashMap" || s.starts_with("HashMap<") {
            if let syn::Type::Path(p) = t {
                let seg = p.path.segments.last().unwrap().clone();
                let mut np: syn::Path = parse_quote!(crate::stubs::HashMap);
                np.segments.last_mut().unwrap().arguments = seg.arguments;
                p.path = np;
            }
        }
    }
    fn visit_bin_op_mut(&mut self, _b: &mut BinOp) {}
}

// --------------------------------------------------------- body rewriting

struct Rw<'a> {
    ctx: &'a Ctx,
    /// error conversion of `?` in the current function
    q: Q,
    tmp: usize,
    loops: usize,
    globs: Vec<String>, // enums glob-imported in this function
    unsupported: Vec<String>,
    mod_consts: HashMap<String, String>,
}

#[derive(Clone, Copy, PartialEq)]
enum Q {
    Anyhow,
    Same,
    Opt,
    None,
}

fn mac_name(m: &Macro) -> String {
    m.path
        .segments
        .iter()
        .map(|s| s.ident.to_string())
        .collect::<Vec<_>>()
        .join("::")
}

fn is_log(m: &Macro) -> bool {
    let n = mac_name(m);
    n.starts_with("log::")
        || ["println", "eprintln", "dbg"].contains(&n.as_str())
}

fn mac_args(m: &Macro) -> Vec<Expr> {
    use syn::parse::Parser;
    let p = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
    match p.parse2(m.tokens.clone()) {
        Ok(v) => v.into_iter().collect(),
        Err(_) => vec![],
    }
}

fn strip_parens(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_parens(&p.expr),
        Expr::Group(p) => strip_parens(&p.expr),
        _ => e,
    }
}

struct HasRisk(bool);
impl<'a> Visit<'a> for HasRisk {
    fn visit_expr_index(&mut self, _i: &'a ExprIndex) {
        self.0 = true;
    }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        if m.method == "unwrap" || m.method == "expect" {
            self.0 = true
        }
        visit::visit_expr_method_call(self, m)
    }
    fn visit_expr_binary(&mut self, b: &'a ExprBinary) {
        self.0 = true;
        visit::visit_expr_binary(self, b)
    }
}

struct HasCtl(bool);
impl<'a> Visit<'a> for HasCtl {
    fn visit_expr_return(&mut self, _i: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _i: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _i: &'a ExprClosure) {}
    fn visit_macro(&mut self, m: &'a Macro) {
        if mac_name(m).ends_with("bail") {
            self.0 = true
        }
    }
}

struct HasBreak(bool);
impl<'a> Visit<'a> for HasBreak {
    fn visit_expr_break(&mut self, _i: &'a ExprBreak) {
        self.0 = true;
    }
    fn visit_expr_while(&mut self, _i: &'a ExprWhile) {}
    fn visit_expr_loop(&mut self, _i: &'a ExprLoop) {}
    fn visit_expr_for_loop(&mut self, _i: &'a ExprForLoop) {}
    fn visit_expr_return(&mut self, _i: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _i: &'a ExprClosure) {}
}

/// `X.iter()` -> Some(&X)
fn iter_base(e: &Expr) -> Option<Expr> {
    match strip_parens(e) {
        Expr::MethodCall(m) if m.args.is_empty() => {
            let n = m.method.to_string();
            match n.as_str() {
                "iter" => {
                    let r = &m.receiver;
                    Some(parse_quote!(&(#r)))
                }
                "into_iter" => Some((*m.receiver).clone()),
                "values" => Some(parse_quote!(#m)),
                _ => None,
            }
        }
        Expr::MethodCall(m) if m.method == "chunks" && m.args.len() == 1 => {
            let (r, n) = (&m.receiver, &m.args[0]);
            Some(parse_quote!(crate::stubs::vchunks(#r, #n)))
        }
        _ => None,
    }
}

impl<'a> Rw<'a> {
    fn fresh(&mut self, p: &str) -> Ident {
        self.tmp += 1;
        format_ident!("vx_{}{}", p, self.tmp)
    }

    fn loop_marker(&mut self) -> Stmt {
        self.loops += 1;
        let id = format_ident!("__vloop{}", self.loops);
        parse_quote!(#id!();)
    }
    fn loop_end_marker(&self, n: usize) -> Stmt {
        let id = format_ident!("__vloopend{}", n);
        parse_quote!(#id!();)
    }

    /// while loop over an indexable sequence
    fn index_loop(&mut self, seq: Expr, pat: &Pat, body: Vec<Stmt>) -> Expr {
        let it = self.fresh("s");
        let ix = self.fresh("i");
        let mk = self.loop_marker();
        let n = self.loops;
        let end = self.loop_end_marker(n);
        let is_ref = matches!(strip_parens(&seq), Expr::Reference(_));
        let seq: Expr = if let Expr::Reference(r) = strip_parens(&seq) {
            let inner = strip_parens(&r.expr);
            parse_quote!(&#inner)
        } else {
            seq
        };
        let _ = is_ref;
        let pat = strip_ref_pat(pat);
        let body = semi_tail(&body);
        parse_quote!({
            let #it = #seq;
            let mut #ix: usize = 0;
            while #ix < crate::stubs::VSeq::vlen(&#it) {
                #mk
                let #pat = crate::stubs::VSeq::vget(&#it, #ix);
                #ix = #ix + 1;
                #(#body)*
                #end
            }
        })
    }

    fn closure_parts(c: &Expr) -> Option<(Pat, Vec<Stmt>, Expr)> {
        // -> (pattern, statements, tail expression)
        let Expr::Closure(c) = strip_parens(c) else {
            return None;
        };
        if c.inputs.len() != 1 {
            return None;
        }
        let pat = match &c.inputs[0] {
            Pat::Type(t) => (*t.pat).clone(),
            p => p.clone(),
        };
        let mut h = HasCtl(false);
        h.visit_expr(&c.body);
        if h.0 {
            return None;
        }
        match &*c.body {
            Expr::Block(b) if b.label.is_none() => {
                let mut st = b.block.stmts.clone();
                if let Some(Stmt::Expr(e, None)) = st.last().cloned() {
                    st.pop();
                    Some((pat, st, e))
                } else {
                    Some((pat, st, parse_quote!(())))
                }
            }
            e => Some((pat, vec![], e.clone())),
        }
    }

    /// The adaptors of an iterator chain with at least one adaptor.
    fn chain(e: &Expr) -> Option<(Expr, Vec<(String, Option<Expr>)>)> {
        let mut ops = vec![];
        let mut cur = strip_parens(e).clone();
        loop {
            if let Expr::MethodCall(m) = strip_parens(&cur) {
                let n = m.method.to_string();
                let ok = match n.as_str() {
                    "copied" | "cloned" => m.args.is_empty(),
                    "map" | "filter" | "filter_map" | "flat_map" => {
                        m.args.len() == 1
                            && (Self::closure_parts(&m.args[0]).is_some()
                                || matches!(strip_parens(&m.args[0]), Expr::Path(_)))
                    }
                    _ => false,
                };
                if ok {
                    ops.push((n, m.args.first().cloned()));
                    cur = (*m.receiver).clone();
                    continue;
                }
            }
            break;
        }
        if ops.is_empty() {
            return None;
        }
        ops.reverse();
        let seq = iter_base(&cur)?;
        if ops.iter().enumerate().any(|(i, o)| o.0 == "flat_map" && i + 1 != ops.len()) {
            return None;
        }
        Some((seq, ops))
    }

    fn app(f: &Expr, x: &Expr) -> Expr {
        match Self::closure_parts(f) {
            Some((pat, st, tail)) => {
                let pat = strip_ref_pat(&pat);
                parse_quote!({ let #pat = #x; #(#st)* #tail })
            }
            None => parse_quote!(#f(#x)),
        }
    }

    fn build(&mut self, ops: &[(String, Option<Expr>)], cur: Expr, fin: &dyn Fn(Expr) -> Vec<Stmt>) -> Vec<Stmt> {
        let Some((n, f)) = ops.first() else {
            return fin(cur);
        };
        let y = self.fresh("y");
        let ye: Expr = parse_quote!(#y);
        match n.as_str() {
            "filter" => {
                let f = f.as_ref().unwrap();
                let c = Self::app(f, &parse_quote!(&#cur));
                let rest = self.build(&ops[1..], cur, fin);
                vec![parse_quote!(let #y = #c;), parse_quote!(if #y { #(#rest)* })]
            }
            "filter_map" => {
                let c = Self::app(f.as_ref().unwrap(), &cur);
                let rest = self.build(&ops[1..], ye, fin);
                vec![parse_quote!(if let Some(#y) = #c { #(#rest)* })]
            }
            "copied" => {
                let rest = self.build(&ops[1..], ye, fin);
                let mut v: Vec<Stmt> = vec![parse_quote!(let #y = *#cur;)];
                v.extend(rest);
                v
            }
            "cloned" => {
                let rest = self.build(&ops[1..], ye, fin);
                let mut v: Vec<Stmt> = vec![parse_quote!(let #y = #cur.clone();)];
                v.extend(rest);
                v
            }
            _ => {
                let c = Self::app(f.as_ref().unwrap(), &cur);
                let rest = self.build(&ops[1..], ye, fin);
                let mut v: Vec<Stmt> = vec![parse_quote!(let #y = #c;)];
                v.extend(rest);
                v
            }
        }
    }

    /// A loop over a chain; `fin` consumes one item.
    fn chain_loop(&mut self, seq: Expr, ops: &[(String, Option<Expr>)], fin: &dyn Fn(Expr) -> Vec<Stmt>) -> Expr {
        let x = self.fresh("x");
        let st = self.build(ops, parse_quote!(#x), fin);
        self.index_loop(seq, &parse_quote!(#x), st)
    }

    fn droppable_field(&self, e: &Expr) -> bool {
        if let Expr::Field(f) = strip_parens(e) {
            if let Member::Named(n) = &f.member {
                return self.ctx.drop_fields.contains(&n.to_string());
            }
        }
        false
    }
}

fn strip_ref_pat(p: &Pat) -> Pat {
    match p {
        Pat::Type(t) => strip_ref_pat(&t.pat),
        _ => p.clone(),
    }
}

fn last_seg(p: &syn::Path) -> String {
    p.segments.last().unwrap().ident.to_string()
}

impl<'a> VisitMut for Rw<'a> {
    fn visit_item_mut(&mut self, _i: &mut Item) {}

    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for st in std::mem::take(&mut b.stmts) {
            match st {
                Stmt::Item(Item::Use(u)) => {
                    // use Enum::*
                    let s = type_str(&u.tree);
                    if let Some(e) = s.strip_suffix("::*") {
                        let e = e.rsplit("::").next().unwrap().to_string();
                        if self.ctx.enums.contains_key(&e) {
                            self.globs.push(e);
                            continue;
                        }
                    }
                    if s.contains("StreamExt") || s.contains("SinkExt") || s.contains("AsyncReadExt") || s.contains("AsyncWriteExt")
                    {
                        continue;
                    }
                    self.unsupported.push(format!("use {}", s));
                }
                Stmt::Item(Item::Const(c)) => {
                    let (id, ty, e) = (&c.ident, &c.ty, &c.expr);
                    out.push(parse_quote!(let #id: #ty = #e;));
                }
                Stmt::Item(Item::Fn(_)) => {} // hoisted
                Stmt::Item(i) => self.unsupported.push(format!(
                    "nested item {}",
                    i.to_token_stream().to_string().chars().take(40).collect::<String>()
                )),
                Stmt::Macro(m) if is_log(&m.mac) => {
                    for a in mac_args(&m.mac).into_iter() {
                        let mut h = HasRisk(false);
                        h.visit_expr(&a);
                        if h.0 {
                            out.push(parse_quote!(crate::stubs::vlog(&(#a));));
                        }
                    }
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
        // `*self = E;`, `x.sessions.remove(..);` statement forms
        for st in b.stmts.iter_mut() {
            if let Stmt::Expr(e, Some(_)) = st {
                if let Some(n) = self.drop_stmt(e) {
                    *st = n;
                    continue;
                }
            }
        }
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
        let q = |id: &Ident, globs: &Vec<String>, enums: &HashMap<String, Vec<String>>| {
            for g in globs.iter() {
                if enums[g].contains(&id.to_string()) {
                    return Some(g.clone());
                }
            }
            None
        };
        match p {
            Pat::TupleStruct(t) if t.path.segments.len() == 1 => {
                let id = t.path.segments[0].ident.clone();
                if let Some(g) = q(&id, &self.globs, &self.ctx.enums) {
                    let g = ident(&g);
                    t.path = parse_quote!(#g::#id);
                }
            }
            Pat::Ident(t) if t.subpat.is_none() && t.by_ref.is_none() && t.mutability.is_none() => {
                let id = t.ident.clone();
                if let Some(g) = q(&id, &self.globs, &self.ctx.enums) {
                    let g = ident(&g);
                    *p = parse_quote!(#g::#id);
                }
            }
            _ => (),
        }
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let mac = m.mac.clone();
            if mac_name(&mac).starts_with("__vloop") {
                return;
            }
            let semi = m.semi_token;
            let mut e = Expr::Macro(ExprMacro {
                attrs: vec![],
                mac,
            });
            self.visit_expr_mut(&mut e);
            *s = Stmt::Expr(e, semi);
            return;
        }
        visit_mut::visit_stmt_mut(self, s)
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        e_attrs_clear(e);
        // pre-order rewrites (structure)
        match e {
            Expr::Repeat(r) => {
                let (x, n) = (&r.expr, &r.len);
                *e = parse_quote!(crate::stubs::vfill::<_, #n>(#x));
            }
            _ => (),
        }
        match e {
            Expr::Macro(m) => {
                let n = mac_name(&m.mac);
                let short = n.rsplit("::").next().unwrap().to_string();
                let args = mac_args(&m.mac);
                let new: Option<Expr> = if is_log(&m.mac) {
                    let a: Vec<Expr> = args
                        .into_iter()
                        .filter(|a| {
                            let mut h = HasRisk(false);
                            h.visit_expr(a);
                            h.0
                        })
                        .collect();
                    if a.is_empty() {
                        Some(parse_quote!(()))
                    } else {
                        Some(parse_quote!({ #(crate::stubs::vlog(&(#a));)* }))
                    }
                } else {
                    match short.as_str() {
                        "assert" | "debug_assert" => {
                            let c = &args[0];
                            Some(parse_quote!(if !(#c) { crate::stubs::vpanic(); }))
                        }
                        "assert_eq" | "debug_assert_eq" => {
                            let (a, b) = (&args[0], &args[1]);
                            Some(parse_quote!(if !(#a == #b) { crate::stubs::vpanic(); }))
                        }
                        "assert_ne" => {
                            let (a, b) = (&args[0], &args[1]);
                            Some(parse_quote!(if !(#a != #b) { crate::stubs::vpanic(); }))
                        }
                        "panic" | "unreachable" | "unimplemented" | "todo" => {
                            Some(parse_quote!(crate::stubs::vpanic()))
                        }
                        "bail" => Some(parse_quote!(return Err(crate::stubs::anyhow::verr()))),
                        "ensure" => {
                            let c = &args[0];
                            Some(
                                parse_quote!(if !(#c) { return Err(crate::stubs::anyhow::verr()); }),
                            )
                        }
                        "anyhow" => Some(parse_quote!(crate::stubs::anyhow::verr())),
                        "format" => Some(parse_quote!(crate::stubs::vformat())),
                        "vec" => {
                            let t = m.mac.tokens.to_string();
                            if let Some((a, b)) = t.split_once(';') {
                                let a: Expr = syn::parse_str(a).unwrap();
                                let b: Expr = syn::parse_str(b).unwrap();
                                Some(parse_quote!(crate::stubs::vec_rep(#a, #b)))
                            } else if args.is_empty() {
                                Some(parse_quote!(Vec::new()))
                            } else {
                                let arr: Vec<Expr> = args;
                                Some(parse_quote!(crate::stubs::vec_of([#(#arr),*])))
                            }
                        }
                        "matches" => {
                            use syn::parse::Parser;
                            let p = |input: syn::parse::ParseStream| -> Result<(Expr, Pat, Option<Expr>)> {
                                let a: Expr = input.parse()?;
                                let _: Token![,] = input.parse()?;
                                let b = Pat::parse_multi_with_leading_vert(input)?;
                                let g = if input.peek(Token![if]) {
                                    let _: Token![if] = input.parse()?;
                                    Some(input.parse()?)
                                } else {
                                    None
                                };
                                let _: Option<Token![,]> = input.parse()?;
                                Ok((a, b, g))
                            };
                            match p.parse2(m.mac.tokens.clone()) {
                                Ok((a, b, None)) => {
                                    Some(parse_quote!(match #a { #b => true, _ => false }))
                                }
                                Ok((a, b, Some(g))) => {
                                    Some(parse_quote!(match #a { #b if #g => true, _ => false }))
                                }
                                Err(_) => None,
                            }
                        }
                        _ => {
                            self.unsupported.push(format!("macro {}!", n));
                            None
                        }
                    }
                };
                if let Some(n) = new {
                    *e = n;
                    self.visit_expr_mut(e);
                }
                return;
            }
            Expr::Await(a) => {
                let mut inner = (*a.base).clone();
                self.visit_expr_mut(&mut inner);
                *e = inner;
                return;
            }
            Expr::ForLoop(f) => {
                let f = f.clone();
                if f.label.is_some() {
                    self.unsupported.push("labelled loop".into());
                }
                let range = strip_parens(&f.expr).clone();
                if let Expr::Range(r) = &range {
                    let (Some(a), Some(b)) = (&r.start, &r.end) else {
                        self.unsupported.push("open range loop".into());
                        return;
                    };
                    let ix = self.fresh("i");
                    let en = self.fresh("n");
                    let mk = self.loop_marker();
                    let lend = self.loop_end_marker(self.loops);
                    let pat = &f.pat;
                    let body = &semi_tail(&f.body.stmts);
                    let cmp: Expr = match r.limits {
                        RangeLimits::HalfOpen(_) => parse_quote!(#ix < #en),
                        RangeLimits::Closed(_) => {
                            self.unsupported.push("closed range loop".into());
                            parse_quote!(#ix <= #en)
                        }
                    };
                    let ty = crate_range_ty(a, b);
                    let let_ix: Stmt = match ty {
                        Some(t) => parse_quote!(let mut #ix: #t = #a;),
                        None => parse_quote!(let mut #ix = #a;),
                    };
                    let bindpat: Vec<Stmt> = if matches!(**pat, Pat::Wild(_)) {
                        vec![]
                    } else {
                        vec![parse_quote!(let #pat = #ix;)]
                    };
                    *e = parse_quote!({
                        let #en = #b;
                        #let_ix
                        while #cmp {
                            #mk
                            #(#bindpat)*
                            #ix = #ix + 1;
                            #(#body)*
                            #lend
                        }
                    });
                    self.visit_expr_mut(e);
                    return;
                }
                if let Expr::MethodCall(m) = &range {
                    if m.method == "values_mut" && m.args.is_empty() {
                        let base = &m.receiver;
                        let (ks, ix) = (self.fresh("s"), self.fresh("i"));
                        let mk = self.loop_marker();
                        let lend = self.loop_end_marker(self.loops);
                        let pat = &f.pat;
                        let body = &semi_tail(&f.body.stmts);
                        *e = parse_quote!({
                            let #ks = #base.v_keys();
                            let mut #ix: usize = 0;
                            while #ix < crate::stubs::VSeq::vlen(&#ks) {
                                #mk
                                let #pat = #base.v_get_mut_at(&#ks, #ix);
                                #ix = #ix + 1;
                                #(#body)*
                                #lend
                            }
                        });
                        self.visit_expr_mut(e);
                        return;
                    }
                }
                if let Some((seq, ops)) = Self::chain(&range) {
                    if ops.last().unwrap().0 != "flat_map" {
                        let (pat, body) = (f.pat.clone(), semi_tail(&f.body.stmts));
                        *e = self.chain_loop(seq, &ops, &|y| {
                            let mut v: Vec<Stmt> = vec![parse_quote!(let #pat = #y;)];
                            v.extend(body.clone());
                            v
                        });
                        self.visit_expr_mut(e);
                        return;
                    }
                }
                let seq = iter_base(&range).unwrap_or(range);
                *e = self.index_loop(seq, &f.pat, f.body.stmts);
                self.visit_expr_mut(e);
                return;
            }
            Expr::While(w) => {
                if let Expr::Let(l) = &*w.cond {
                    let (pat, ex) = (&l.pat, &l.expr);
                    let body = &semi_tail(&w.body.stmts);
                    *e = parse_quote!(loop {
                        let #pat = #ex else { break; };
                        #(#body)*
                    });
                    self.visit_expr_mut(e);
                    return;
                }
                if !has_marker(&w.body) {
                    let mk = self.loop_marker();
                    let lend = self.loop_end_marker(self.loops);
                    w.body.stmts = semi_tail(&w.body.stmts);
                    w.body.stmts.insert(0, mk);
                    w.body.stmts.push(lend);
                }
            }
            Expr::Loop(w) => {
                if !has_marker(&w.body) {
                    let mk = self.loop_marker();
                    w.body.stmts.insert(0, mk);
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                // X.iter().for_each(|p| body)
                if name == "for_each" && m.args.len() == 1 {
                    if let Some(seq) = iter_base(&m.receiver) {
                        if let Some((pat, mut st, tail)) = Self::closure_parts(&m.args[0]) {
                            if type_str(&tail) != "()" {
                                st.push(Stmt::Expr(tail, Some(Default::default())));
                            }
                            *e = self.index_loop(seq, &pat, st);
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                }
                if name == "any" && m.args.len() == 1 {
                    if let Some(seq) = iter_base(&m.receiver) {
                        if let Some((pat, st, tail)) = Self::closure_parts(&m.args[0]) {
                            let found = self.fresh("f");
                            // map iteration: |(_, v)| over X.iter()
                            let (seq, pat) = self.map_iter(seq, pat);
                            let mut body = st;
                            body.push(parse_quote!(if #tail { #found = true; break; }));
                            let l = self.index_loop(seq, &pat, body);
                            *e = parse_quote!({ let mut #found = false; #l #found });
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                }
                if name == "all" && m.args.len() == 1 {
                    if let Some(seq) = iter_base(&m.receiver) {
                        if let Some((pat, st, tail)) = Self::closure_parts(&m.args[0]) {
                            let found = self.fresh("f");
                            let (seq, pat) = self.map_iter(seq, pat);
                            let mut body = st;
                            body.push(parse_quote!(if !(#tail) { #found = false; break; }));
                            let l = self.index_loop(seq, &pat, body);
                            *e = parse_quote!({ let mut #found = true; #l #found });
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                }
                let to_result = m.turbofish.as_ref().map(|t| t.to_token_stream().to_string().replace(' ', "").starts_with("::<Result<")).unwrap_or(false);
                if name == "collect" && m.args.is_empty() && to_result {
                    // first error wins, the rest is not evaluated
                    if let Expr::MethodCall(mm) = strip_parens(&m.receiver) {
                        if mm.method == "map" && mm.args.len() == 1 {
                            let base = strip_parens(&mm.receiver).clone();
                            let base = match &base {
                                Expr::Range(_) => Some(base.clone()),
                                b => iter_base(b),
                            };
                            if let (Some(seq), Some((pat, st, tail))) = (base, Self::closure_parts(&mm.args[0])) {
                                *e = parse_quote!({
                                    let mut vx_out = Vec::new();
                                    let mut vx_bad = None;
                                    for #pat in #seq {
                                        #(#st)*
                                        match #tail {
                                            Ok(vx_item) => vx_out.push(vx_item),
                                            Err(vx_e) => { vx_bad = Some(vx_e); break; }
                                        }
                                    }
                                    match vx_bad { None => Ok(vx_out), Some(vx_e) => Err(vx_e) }
                                });
                                self.visit_expr_mut(e);
                                return;
                            }
                        }
                    }
                }
                if name == "collect" && m.args.is_empty() {
                    if let Expr::MethodCall(mm) = strip_parens(&m.receiver) {
                        if mm.method == "map" && mm.args.len() == 1 {
                            if let Some(seq) = iter_base(&mm.receiver) {
                                if let Some((pat, st, tail)) = Self::closure_parts(&mm.args[0]) {
                                    let out = self.fresh("v");
                                    let mut body = st;
                                    body.push(parse_quote!(#out.push(#tail);));
                                    let l = self.index_loop(seq, &pat, body);
                                    *e = parse_quote!({ let mut #out = Vec::new(); #l #out });
                                    self.visit_expr_mut(e);
                                    return;
                                }
                            }
                        }
                    }
                }
                if name == "collect" && m.args.is_empty() {
                    if let Some((seq, ops)) = Self::chain(&m.receiver) {
                        let out = self.fresh("v");
                        let flat = ops.last().unwrap().0 == "flat_map";
                        let o2 = out.clone();
                        let l = self.chain_loop(seq, &ops, &|y| {
                            if flat {
                                vec![parse_quote!(crate::stubs::vappend(&mut #o2, #y);)]
                            } else {
                                vec![parse_quote!(#o2.push(#y);)]
                            }
                        });
                        *e = parse_quote!({ let mut #out = Vec::new(); #l #out });
                        self.visit_expr_mut(e);
                        return;
                    }
                }
                if name == "count" && m.args.is_empty() {
                    if let Some((seq, ops)) = Self::chain(&m.receiver) {
                        if ops.last().unwrap().0 != "flat_map" {
                            let out = self.fresh("n");
                            let o2 = out.clone();
                            let l = self.chain_loop(seq, &ops, &|_| vec![parse_quote!(#o2 = #o2 + 1;)]);
                            *e = parse_quote!({ let mut #out: usize = 0; #l #out });
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                }
                if (name == "any" || name == "all" || name == "for_each") && m.args.len() == 1 {
                    if let Some((seq, ops)) = Self::chain(&m.receiver) {
                        if ops.last().unwrap().0 != "flat_map"
                            && (Self::closure_parts(&m.args[0]).is_some()
                                || matches!(strip_parens(&m.args[0]), Expr::Path(_)))
                        {
                            let f = m.args[0].clone();
                            let found = self.fresh("f");
                            let fo = found.clone();
                            let nm = name.clone();
                            let l = self.chain_loop(seq, &ops, &|y| {
                                let c = Self::app(&f, &y);
                                match nm.as_str() {
                                    "any" => vec![parse_quote!(if #c { #fo = true; break; })],
                                    "all" => vec![parse_quote!(if !(#c) { #fo = false; break; })],
                                    _ => vec![parse_quote!(#c;)],
                                }
                            });
                            *e = match name.as_str() {
                                "any" => parse_quote!({ let mut #found = false; #l #found }),
                                "all" => parse_quote!({ let mut #found = true; #l #found }),
                                _ => l,
                            };
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                }
                if name == "retain" && m.args.len() == 1 && !self.droppable_field(&m.receiver) {
                    if let Some((pat, st, tail)) = Self::closure_parts(&m.args[0]) {
                        let base = (*m.receiver).clone();
                        let out = self.fresh("v");
                        let ix = self.fresh("i");
                        let mk = self.loop_marker();
                        let lend = self.loop_end_marker(self.loops);
                        let pat = strip_ref_pat(&pat);
                        *e = parse_quote!({
                            let mut #out = Vec::new();
                            let mut #ix: usize = 0;
                            while #ix < #base.len() {
                                #mk
                                let #pat = &#base[#ix];
                                #(#st)*
                                if #tail { #out.push(crate::stubs::vtake(&#base, #ix)); }
                                #ix = #ix + 1;
                                #lend
                            }
                            #base = #out;
                        });
                        self.visit_expr_mut(e);
                        return;
                    }
                }
                if name == "retain" || name == "drain" || name == "clear" {
                    if self.droppable_field(&m.receiver) {
                        self.unsupported.push(format!("{} on map with drop glue", name));
                    }
                }
                if (name == "map_err" || name == "unwrap_or_else") && m.args.len() == 1 {
                    let recv = &m.receiver;
                    if let Some((pat, st, tail)) = Self::closure_parts(&m.args[0]) {
                        if name == "map_err" {
                            *e = parse_quote!(match #recv { Ok(vx_ok) => Ok(vx_ok), Err(#pat) => Err({ #(#st)* #tail }) });
                        } else {
                            *e = parse_quote!(match #recv { Ok(vx_ok) => vx_ok, Err(#pat) => { #(#st)* #tail } });
                        }
                        self.visit_expr_mut(e);
                        return;
                    } else if let Expr::Path(p) = &m.args[0] {
                        let s = type_str(p);
                        if name == "map_err" && s.contains("anyhow") && s.ends_with("msg") {
                            *e = parse_quote!(match #recv { Ok(vx_ok) => Ok(vx_ok), Err(_) => Err(crate::stubs::anyhow::verr()) });
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                }
                if name == "and_then" && m.args.len() == 1 {
                    let recv = &m.receiver;
                    if let Some((pat, st, tail)) = Self::closure_parts(&m.args[0]) {
                        *e = parse_quote!(match crate::stubs::VTry::vsplit(#recv) {
                            Ok(#pat) => { #(#st)* #tail }
                            Err(vx_e) => crate::stubs::VResid::vresid(vx_e),
                        });
                        self.visit_expr_mut(e);
                        return;
                    }
                }
                if name == "read_exact" && m.args.len() == 1 {
                    if let Expr::Reference(rf) = strip_parens(&m.args[0]) {
                        if let (true, Expr::Index(ix)) = (rf.mutability.is_some(), strip_parens(&rf.expr)) {
                            if let Expr::Range(r) = strip_parens(&ix.index) {
                                let base = &ix.expr;
                                let a = range_start(r);
                                let b = range_end(r, base);
                                let recv = &m.receiver;
                                *e = if r.end.is_none() {
                                    parse_quote!(#recv.read_exact_from(&mut #base, #a))
                                } else {
                                    parse_quote!(#recv.read_exact_into(&mut #base, #a, #b))
                                };
                                self.visit_expr_mut(e);
                                return;
                            }
                        }
                    }
                }
                if name == "extend_from_slice" && m.args.len() == 1 {
                    m.method = Ident::new("vextend_from_slice", m.method.span());
                }
                if name == "copy_from_slice" && m.args.len() == 1 {
                    if let Expr::Index(ix) = strip_parens(&m.receiver) {
                        if let Expr::Range(r) = strip_parens(&ix.index) {
                            let base = &ix.expr;
                            let a = range_start(r);
                            let b = range_end(r, base);
                            let src = &m.args[0];
                            *e = parse_quote!(crate::stubs::vcopy_into(&mut #base, #a, #b, #src));
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                }
            }
            Expr::Reference(r) if r.mutability.is_none() => {
                if let Expr::Index(ix) = strip_parens(&r.expr) {
                    if let Expr::Range(rg) = strip_parens(&ix.index) {
                        let base = &ix.expr;
                        let a = range_start(rg);
                        if rg.end.is_none() {
                            *e = parse_quote!(crate::stubs::vslice_from(&#base, #a));
                        } else {
                            let b = range_end(rg, base);
                            *e = parse_quote!(crate::stubs::vslice(&#base, #a, #b));
                        }
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
            Expr::Try(t) => {
                let inner = &t.expr;
                match self.q {
                    Q::Anyhow => {
                        *e = parse_quote!(match #inner { Ok(vx_ok) => vx_ok, Err(_) => return Err(crate::stubs::anyhow::verr()) })
                    }
                    Q::Same => {
                        *e = parse_quote!(match #inner { Ok(vx_ok) => vx_ok, Err(vx_err) => return Err(vx_err) })
                    }
                    Q::Opt => {
                        *e = parse_quote!(match #inner { Some(vx_ok) => vx_ok, None => return None })
                    }
                    Q::None => {
                        self.unsupported.push("? operator".into());
                        return;
                    }
                }
                self.visit_expr_mut(e);
                return;
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let l = last_seg(&p.path);
                    if l == "spawn" && c.args.len() == 1 {
                        if let Expr::Async(a) = strip_parens(&c.args[0]) {
                            *e = self.spawn(&a.block);
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                }
            }
            Expr::Async(a) => {
                self.unsupported.push("async block".into());
                let b = &a.block;
                *e = parse_quote!(#b);
            }
            _ => (),
        }
        visit_mut::visit_expr_mut(self, e);
        // post-order rewrites (names)
        match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let new = match name.as_str() {
                    "try_into" => "vtry_into",
                    "into" => "vinto",
                    "clone" => "vclone",
                    "to_le_bytes" => "v_to_le_bytes",
                    "to_be_bytes" => "v_to_be_bytes",
                    "copied" | "cloned" => "v_copied",
                    _ => "",
                };
                if !new.is_empty() && m.args.len() == 0 {
                    m.method = ident(new);
                    m.turbofish = None;
                }
                if self.is_effect_method(&name, m) {
                    m.args.push(parse_quote!(w));
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &mut *c.func {
                    rewrite_path(&mut p.path);
                    let l = last_seg(&p.path);
                    let nseg = p.path.segments.len();
                    if nseg >= 2 || p.qself.is_some() {
                        let new = match l.as_str() {
                            "try_from" => "vtry_from",
                            "from" => "vfrom",
                            "default" => "vdefault",
                            _ => "",
                        };
                        if !new.is_empty() {
                            p.path.segments.last_mut().unwrap().ident = ident(new);
                            let f = p.path.segments[0].ident.to_string();
                            if f == "Default" || f == "VDefault" {
                                p.path = parse_quote!(crate::stubs::VDefault::vdefault);
                            }
                        }
                    }
                    let l = last_seg(&p.path);
                    if self.ctx.effectful.contains(&l) && l != "Err" && l != "Ok" {
                        c.args.push(parse_quote!(w));
                    }
                }
            }
            _ => (),
        }
    }

    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        rewrite_path(p);
        if let Some(r) = self.mod_consts.get(&type_str(p)) {
            *p = syn::parse_str(r).unwrap();
        }
    }
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        PathRw.visit_type_mut(t);
    }
    fn visit_macro_mut(&mut self, _m: &mut Macro) {}
    fn visit_attribute_mut(&mut self, _a: &mut Attribute) {}
}

impl<'a> Rw<'a> {
    fn is_effect_method(&self, name: &str, m: &ExprMethodCall) -> bool {
        if !self.ctx.effectful.contains(name) {
            return false;
        }
        // `next` and `write` with other arities are not effects
        match name {
            "send" => m.args.len() == 1,
            _ => true,
        }
    }

    fn map_iter(&mut self, seq: Expr, pat: Pat) -> (Expr, Pat) {
        // `(_, v)` over `&map` -> `v` over `map.values()`
        if let Pat::Tuple(t) = &pat {
            if t.elems.len() == 2 && matches!(t.elems[0], Pat::Wild(_)) {
                if let Expr::Reference(r) = strip_parens(&seq) {
                    let inner = strip_parens(&r.expr).clone();
                    return (parse_quote!(#inner.values()), t.elems[1].clone());
                }
            }
            if t.elems.len() == 2 && matches!(t.elems[1], Pat::Wild(_)) {
                if let Expr::Reference(r) = strip_parens(&seq) {
                    let inner = strip_parens(&r.expr).clone();
                    return (parse_quote!(#inner.v_keys()), t.elems[0].clone());
                }
            }
        }
        (seq, pat)
    }

    /// `tokio::spawn(async move { body })`: the body runs against a world of
    /// its own, starting at time 0.
    fn spawn(&mut self, b: &Block) -> Expr {
        if b.to_token_stream().to_string().contains("try_join") {
            return parse_quote!(crate::stubs::spawn_opaque(w));
        }
        let mut b = b.clone();
        let mut periodic = false;
        if b.stmts.len() == 1 {
            if let Stmt::Expr(Expr::Loop(l), _) = &b.stmts[0] {
                let mut h = HasBreak(false);
                h.visit_block(&l.body);
                if !h.0 && l.label.is_none() {
                    periodic = true;
                    b = l.body.clone();
                }
            }
        }
        let st = &b.stmts;
        let p: Expr = if periodic {
            parse_quote!(true)
        } else {
            parse_quote!(false)
        };
        parse_quote!({
            let mut vx_task = crate::stubs::World::new_task(#p);
            {
                let w = &mut vx_task;
                #(#st)*
            }
            crate::stubs::tokio::spawn_task(vx_task, w)
        })
    }

    /// Statements that drop a value with a destructor.
    fn drop_stmt(&mut self, e: &Expr) -> Option<Stmt> {
        match e {
            Expr::MethodCall(m)
                if (m.method == "remove" || m.method == "insert")
                    && self.droppable_field(&m.receiver) =>
            {
                let d = self.fresh("d");
                let mut m = m.clone();
                m.attrs.clear();
                Some(parse_quote!({
                    let #d = #m;
                    if let Some(mut vx_old) = #d { vx_old.vdrop(); }
                }))
            }
            Expr::Assign(a) => {
                if let Expr::Unary(ExprUnary {
                    op: UnOp::Deref(_),
                    expr,
                    ..
                }) = &*a.left
                {
                    if type_str(expr) == "self" && type_str(&a.right) != "vx_new" {
                        let r = &a.right;
                        return Some(parse_quote!({
                            let vx_new = #r;
                            self.vdrop();
                            *self = vx_new;
                        }));
                    }
                }
                if self.droppable_field(&a.left) {
                    self.unsupported.push("assignment to map with drop glue".into());
                }
                None
            }
            _ => None,
        }
    }
}

/// Parentheses around block-like operands, which the printer leaves out.
struct ParenFix;
impl VisitMut for ParenFix {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let fix = |x: &mut Box<Expr>| {
            if matches!(**x, Expr::Match(_) | Expr::Block(_) | Expr::If(_)) {
                let y = (**x).clone();
                **x = parse_quote!((#y));
            }
        };
        match e {
            Expr::Cast(c) => fix(&mut c.expr),
            Expr::Binary(b) => fix(&mut b.left),
            Expr::MethodCall(m) => fix(&mut m.receiver),
            Expr::Field(m) => fix(&mut m.base),
            Expr::Index(m) => fix(&mut m.expr),
            _ => (),
        }
    }
}

struct SelfRename;
impl VisitMut for SelfRename {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.is_ident("self") {
            p.path = parse_quote!(vx_self);
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        fn go(t: TokenStream) -> TokenStream {
            t.into_iter()
                .map(|x| match x {
                    proc_macro2::TokenTree::Ident(i) if i == "self" => {
                        proc_macro2::TokenTree::Ident(Ident::new("vx_self", i.span()))
                    }
                    proc_macro2::TokenTree::Group(g) => {
                        proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream())))
                    }
                    x => x,
                })
                .collect()
        }
        m.tokens = go(m.tokens.clone());
    }
}

/// `&T` in the type of a constant is `&'static T`.
struct StaticRef;
impl VisitMut for StaticRef {
    fn visit_type_reference_mut(&mut self, t: &mut TypeReference) {
        visit_mut::visit_type_reference_mut(self, t);
        if t.lifetime.is_none() {
            t.lifetime = Some(Lifetime::new("'static", Span::call_site()));
        }
    }
}

fn e_attrs_clear(e: &mut Expr) {
    match e {
        Expr::Block(b) => b.attrs.clear(),
        Expr::Match(m) => {
            for a in m.arms.iter_mut() {
                a.attrs.clear()
            }
        }
        _ => (),
    }
}

/// The same statements, the last one closed by a semicolon.
fn semi_tail(s: &[Stmt]) -> Vec<Stmt> {
    let mut s = s.to_vec();
    if let Some(Stmt::Expr(e, semi @ None)) = s.last_mut() {
        let _ = e;
        *semi = Some(Default::default());
    }
    s
}

fn has_marker(b: &Block) -> bool {
    matches!(b.stmts.first(), Some(Stmt::Macro(m)) if mac_name(&m.mac).starts_with("__vloop"))
}

fn crate_range_ty(_a: &Expr, b: &Expr) -> Option<syn::Type> {
    // the type of the bound when it is written out
    if let Expr::Cast(c) = strip_parens(b) {
        return Some((*c.ty).clone());
    }
    None
}

fn range_start(r: &ExprRange) -> Expr {
    match &r.start {
        Some(s) => (**s).clone(),
        None => parse_quote!(0usize),
    }
}
fn range_end(r: &ExprRange, base: &Expr) -> Expr {
    match &r.end {
        Some(s) => match r.limits {
            RangeLimits::HalfOpen(_) => (**s).clone(),
            RangeLimits::Closed(_) => parse_quote!((#s) + 1),
        },
        None => parse_quote!(#base.len()),
    }
}

// --------------------------------------------------------------- emission

struct Emit {
    out: Vec<String>,
    map: Vec<(usize, String, String, String, String)>, // line, fn, kind, tags, text
    fns: Vec<FnInfo>,
}

impl Emit {
    /// Contract-side items. `%synth KEY TAGS` .. `%endsynth` delimits a function
    /// that stands for code the language generates (drop glue).
    fn synth(&mut self, indent: &str, txt: &str) {
        let mut cur: Option<(String, String, usize)> = None;
        for l in txt.lines() {
            let t = l.trim();
            if let Some(h) = t.strip_prefix("%synth ") {
                let mut it = h.splitn(2, ' ');
                let k = it.next().unwrap_or("").to_string();
                cur = Some((k, it.next().unwrap_or("").to_string(), self.out.len() + 1));
            } else if t == "%endsynth" {
                if let Some((key, tags, start)) = cur.take() {
                    let end = self.out.len();
                    self.fns.push(FnInfo {
                        key,
                        start,
                        end,
                        status: "verified".into(),
                        calls: vec![],
                        loops: 0,
                        unsupported: vec![],
                        missing: vec![],
                        tags,
                        contract: true,
                        src_hash: 0,
                        headers: 0,
                    });
                }
            } else if let Some((kind, rest)) = t
                .strip_prefix("%ens ")
                .map(|r| ("ens", r))
                .or(t.strip_prefix("%req ").map(|r| ("req", r)))
                .or(t.strip_prefix("%inv ").map(|r| ("inv", r)))
            {
                let (tags, text) = split_tags(rest);
                let key = cur.as_ref().map(|c| c.0.clone()).unwrap_or_default();
                self.clause(indent, &key, kind, &Clause { tags, text: text.trim_end_matches(',').to_string() }, "");
            } else {
                self.line(l);
            }
        }
    }
}

struct FnInfo {
    key: String,
    start: usize,
    end: usize,
    status: String, // verified | trusted | uncontracted
    calls: Vec<String>,
    loops: usize,
    missing: Vec<String>,
    unsupported: Vec<String>,
    tags: String,
    contract: bool,
    src_hash: u64,
    headers: u64,
}

impl Emit {
    fn line(&mut self, s: &str) {
        for l in s.lines() {
            self.out.push(l.to_string());
        }
    }
    fn clause(&mut self, indent: &str, key: &str, kind: &str, c: &Clause, deftags: &str) {
        let first = self.out.len() + 1;
        let text = format!("({}),", c.text);
        let n = text.lines().count();
        for l in text.lines() {
            self.out.push(format!("{}{}", indent, l));
        }
        let tags = if c.tags.is_empty() { deftags } else { &c.tags };
        for i in 0..n {
            self.map.push((
                first + i,
                key.to_string(),
                kind.to_string(),
                tags.to_string(),
                c.text.split_whitespace().collect::<Vec<_>>().join(" "),
            ));
        }
    }
}

fn fnv(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// `match x { p => e, .. } t` is `match x { p => { e; return t; } .. }`:
/// the value after the match is computed at the end of each arm instead.
fn tail_dup(b: &Block) -> Option<Block> {
    let mut b = b.clone();
    let n = b.stmts.len();
    if n < 2 {
        return None;
    }
    let tail = match &b.stmts[n - 1] {
        Stmt::Expr(e, None) => e.clone(),
        _ => return None,
    };
    let mut m = match &b.stmts[n - 2] {
        Stmt::Expr(Expr::Match(m), _) => m.clone(),
        _ => return None,
    };
    for a in m.arms.iter_mut() {
        let e = (*a.body).clone();
        *a.body = match e {
            Expr::Block(eb) if eb.label.is_none() && !matches!(eb.block.stmts.last(), Some(Stmt::Expr(_, None))) => {
                let st = &eb.block.stmts;
                parse_quote!({ #(#st)* return #tail; })
            }
            e => parse_quote!({ #e; return #tail; }),
        };
    }
    b.stmts.truncate(n - 2);
    b.stmts.push(Stmt::Expr(Expr::Match(m), None));
    Some(b)
}

struct Calls(BTreeSet<String>);
impl<'a> Visit<'a> for Calls {
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        self.0.insert(m.method.to_string());
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func {
            self.0.insert(last_seg(&p.path));
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        for a in mac_args(m) {
            self.visit_expr(&a);
        }
    }
}

/// The loops of a function as they are written.
struct Headers(String);
impl<'a> Visit<'a> for Headers {
    fn visit_expr_for_loop(&mut self, l: &'a ExprForLoop) {
        self.0.push_str(&format!("for {} in {};", l.pat.to_token_stream(), l.expr.to_token_stream()));
        visit::visit_expr_for_loop(self, l);
    }
    fn visit_expr_while(&mut self, l: &'a ExprWhile) {
        self.0.push_str(&format!("while {};", l.cond.to_token_stream()));
        visit::visit_expr_while(self, l);
    }
    fn visit_expr_loop(&mut self, l: &'a ExprLoop) {
        self.0.push_str("loop;");
        visit::visit_expr_loop(self, l);
    }
    fn visit_expr_closure(&mut self, l: &'a ExprClosure) {
        self.0.push_str("closure;");
        visit::visit_expr_closure(self, l);
    }
}

struct Ex<'a> {
    ctx: &'a Ctx,
    con: &'a mut Contracts,
    em: Emit,
    force_trust: HashSet<String>,
    mod_consts: HashMap<String, String>,
    pending: Vec<(String, ItemFn)>,
    dropped: Vec<String>,
}

/// Simple expression without calls: may serve as its own contract.
fn pure_expr(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => pure_expr(&f.base),
        Expr::Paren(p) => pure_expr(&p.expr),
        Expr::Reference(r) => r.mutability.is_none() && pure_expr(&r.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Not(_)) && pure_expr(&u.expr),
        Expr::Binary(b) => {
            matches!(
                b.op,
                BinOp::Eq(_) | BinOp::Ne(_) | BinOp::And(_) | BinOp::Or(_) | BinOp::Lt(_)
                    | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_)
            ) && pure_expr(&b.left)
                && pure_expr(&b.right)
        }
        _ => false,
    }
}

fn ret_kind(sig: &Signature) -> Q {
    match &sig.output {
        ReturnType::Default => Q::None,
        ReturnType::Type(_, t) => {
            let s = type_str(t);
            if s.starts_with("anyhow::Result") || s == "Result<()>" || s.starts_with("Result<Handle>") {
                Q::Anyhow
            } else if s.starts_with("Option") {
                Q::Opt
            } else if s.contains("Result<") {
                Q::Same
            } else {
                Q::None
            }
        }
    }
}

impl<'a> Ex<'a> {
    fn emit_fn(
        &mut self,
        key: &str,
        sig: &Signature,
        block: &Block,
        in_trait: bool,
        indent: &str,
    ) {
        let is_main_mod = true;
        let _ = is_main_mod;
        let mut fc = self.con.fns.get(key).cloned().unwrap_or_default();
        if let Some(f) = self.con.fns.get_mut(key) {
            f.used = true;
        }
        let contracted = self.con.fns.contains_key(key);
        let trust = self.con.is_trust(key) || self.force_trust.contains(key);
        let src_hash = fnv(&block.to_token_stream().to_string());
        let mut sig = sig.clone();
        sig.asyncness = None;
        // `mut self` is a new local variable
        let mut own_self: Option<Block> = None;
        if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
            if r.reference.is_none() && r.mutability.is_some() {
                r.mutability = None;
                let mut b = block.clone();
                SelfRename.visit_block_mut(&mut b);
                b.stmts.insert(0, parse_quote!(let mut vx_self = self;));
                own_self = Some(b);
            }
        }
        let block = own_self.as_ref().unwrap_or(block);
        let dup = if fc.taildup { tail_dup(block) } else { None };
        let block = dup.as_ref().unwrap_or(block);
        let q = ret_kind(&sig);
        let name = sig.ident.to_string();
        // impl Packet argument
        let mut extra_gen = None;
        for a in sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = a {
                if is_impl_of(&t.ty, "Packet") {
                    *t.ty = parse_quote!(VxP);
                    extra_gen = Some(());
                }
                t.attrs.clear();
            }
        }
        if extra_gen.is_some() {
            sig.generics.params.push(parse_quote!(VxP: crate::stubs::pdl_runtime::Packet));
        }
        PathRw.visit_signature_mut(&mut sig);
        let ren = match (in_trait, name.as_str()) {
            (true, "from") => "vfrom",
            (true, "try_from") => "vtry_from",
            (true, "default") => "vdefault",
            (true, "drop") => "vdrop",
            _ => "",
        };
        if !ren.is_empty() {
            sig.ident = ident(ren);
        }
        let effect = self.ctx.effectful.contains(&name) && !(in_trait && name != "drop");
        let effect = effect || ren == "vdrop";
        // nested fns
        let mut nested: Vec<ItemFn> = vec![];
        struct Nest<'x>(&'x mut Vec<ItemFn>);
        impl<'x, 'y> Visit<'y> for Nest<'x> {
            fn visit_item_fn(&mut self, f: &'y ItemFn) {
                self.0.push(f.clone())
            }
        }
        Nest(&mut nested).visit_block(block);

        let mut calls = Calls(BTreeSet::new());
        calls.visit_block(block);
        let mut headers = Headers(String::new());
        headers.visit_block(block);

        let mut rw = Rw {
            ctx: self.ctx,
            q,
            tmp: 0,
            loops: 0,
            globs: vec![],
            unsupported: vec![],
            mod_consts: self.mod_consts.clone(),
        };
        let mut body = block.clone();
        if !trust {
            rw.visit_block_mut(&mut body);
            ParenFix.visit_block_mut(&mut body);
            // @before anchors
        }
        let unsupported = std::mem::take(&mut rw.unsupported);
        let nloops = rw.loops;
        let mut missing: Vec<String> = vec![];
        let trust = trust || !unsupported.is_empty();

        // signature text
        let mut inputs: Vec<String> = sig
            .inputs
            .iter()
            .map(|a| {
                let s = a.to_token_stream();
                s.to_string()
            })
            .collect();
        if effect {
            inputs.push("w: &mut crate::stubs::World".into());
        }
        if !fc.extra.is_empty() {
            inputs.push(fc.extra.clone());
        }
        let gen = {
            let g = &sig.generics;
            let mut g2 = g.clone();
            g2.where_clause = None;
            g2.to_token_stream().to_string()
        };
        let wc = sig
            .generics
            .where_clause
            .as_ref()
            .map(|w| w.to_token_stream().to_string())
            .unwrap_or_default();
        let rname = fc.ret.clone().unwrap_or_else(|| "r".into());
        let ret = match &sig.output {
            ReturnType::Default => String::new(),
            ReturnType::Type(_, t) => format!("-> ({}: {})", rname, t.to_token_stream()),
        };
        // automatic contract of a pure accessor
        if !in_trait && fc.ens.is_empty() && !trust {
            if let [Stmt::Expr(e, None)] = &body.stmts[..] {
                if pure_expr(e) && !matches!(sig.output, ReturnType::Default) {
                    let slice = matches!(&sig.output, ReturnType::Type(_, t)
                        if matches!(&**t, syn::Type::Reference(r) if matches!(&*r.elem, syn::Type::Slice(_))));
                    fc.ens.push(Clause {
                        tags: "".into(),
                        text: if slice {
                            format!("{}@ == ({})@", rname, e.to_token_stream())
                        } else {
                            format!("{} == ({})", rname, e.to_token_stream())
                        },
                    });
                }
            }
        }
        // determinism is assumed of functions that are not verified in this run
        fc.ens.retain(|c| c.tags != "DET" || trust);
        for c in fc.ens.iter_mut().filter(|c| c.tags == "DET") {
            c.tags.clear();
        }
        let start = self.em.out.len() + 1;
        for a in &fc.attrs {
            self.em.line(&format!("{}{}", indent, a));
        }
        if trust {
            self.em.line(&format!("{}#[verifier::external_body]", indent));
        } else {
            self.em.line(&format!("{}#[verifier::loop_isolation(false)]", indent));
            self.em.line(&format!(
                "{}#[verifier::exec_allows_no_decreases_clause]",
                indent
            ));
        }
        let vis = if in_trait && ren != "vdrop" { "" } else { "pub " };
        self.em.line(&format!(
            "{}{}fn {}{}({}) {} {}",
            indent,
            vis,
            sig.ident,
            gen,
            inputs.join(", "),
            ret,
            wc
        ));
        let ind2 = format!("{}    ", indent);
        let ind3 = format!("{}        ", indent);
        if !fc.req.is_empty() {
            self.em.line(&format!("{}requires", ind2));
            for c in &fc.req {
                self.em.clause(&ind3, key, "req", c, &fc.tags);
            }
        }
        if !fc.ens.is_empty() {
            self.em.line(&format!("{}ensures", ind2));
            for c in &fc.ens {
                self.em.clause(&ind3, key, "ens", c, &fc.tags);
            }
        }
        if let Some(d) = &fc.dec {
            self.em.line(&format!("{}decreases {}", ind2, d));
        }
        if trust {
            self.em.line(&format!("{}{{ unimplemented!() }}", indent));
        } else {
            let mut f: ItemFn = parse_quote!(fn vx_dummy() {});
            *f.block = body;
            let file = File {
                shebang: None,
                attrs: vec![],
                items: vec![Item::Fn(f)],
            };
            let text = prettyplease::unparse(&file);
            let mut lines: Vec<String> = text.lines().map(|l| l.to_string()).collect();
            // "fn vx_dummy() {" ... "}"
            if lines.len() == 1 {
                lines = vec!["fn vx_dummy() {".into(), "}".into()];
            }
            self.em.line(&format!("{}{{", indent));
            if !fc.start.is_empty() {
                self.em.line(&fc.start);
            }
            let mut before_count: HashMap<usize, usize> = HashMap::new();
            let n = lines.len();
            let mut stack: Vec<usize> = vec![];
            for (li, l) in lines[1..n - 1].iter().enumerate() {
                let t = l.trim();
                if let Some(num) = t.strip_prefix("__vloopend").and_then(|x| x.strip_suffix("!();")) {
                    let num: usize = num.parse().unwrap();
                    if let Some(lc) = fc.loops.get(&num) {
                        if !lc.end.is_empty() {
                            self.em.line(&lc.end);
                        }
                    }
                    stack.pop();
                    continue;
                }
                if let Some(num) = t.strip_prefix("__vloop").and_then(|x| x.strip_suffix("!();")) {
                    let num: usize = num.parse().unwrap();
                    stack.push(num);
                    // previous line ends with '{'
                    let prev = self.em.out.pop().unwrap();
                    let head = prev.trim_end();
                    let head = head.strip_suffix('{').expect("loop head").to_string();
                    let ind: String = prev.chars().take_while(|c| *c == ' ').collect();
                    let mut lc = fc.loops.get(&num).cloned().unwrap_or_default();
                    if let Some(fl) = fc.loops.get_mut(&num) {
                        let h = head.trim();
                        let iv = h.strip_prefix("while ").and_then(|r| r.split_once(" < ")).map(|x| x.0.to_string()).unwrap_or_default();
                        let sv = h.split_once("vlen(&").map(|x| x.1.trim_end_matches(')').to_string())
                            .or_else(|| h.split_once(" < ").map(|x| x.1.trim_end_matches(".len()").to_string()))
                            .unwrap_or_default();
                        // the accumulator declared before the loop
                        let av = self.em.out.iter().rev().take(60).find_map(|l| {
                            let r = l.trim().strip_prefix("let mut ")?;
                            let name: String = r.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                            if name.starts_with("vx_i") || name.starts_with("vx_s") || !r.contains('=') { None } else { Some(name) }
                        }).unwrap_or_default();
                        let sub = |t: &mut String| *t = t.replace("$I", &iv).replace("$S", &sv).replace("$N", &sv).replace("$V", &av);
                        for l in [&mut lc, fl] {
                            for c in l.inv.iter_mut().chain(l.ens.iter_mut()) {
                                sub(&mut c.text);
                            }
                            sub(&mut l.start);
                            sub(&mut l.end);
                            if let Some(d) = &mut l.dec {
                                sub(d);
                            }
                        }
                    }
                    if !lc.attrs.is_empty() {
                        self.em.out.push(format!("{}{}", ind, lc.attrs));
                    }
                    self.em.out.push(head.clone());
                    let ind2 = format!("{}    ", ind);
                    let ind3 = format!("{}        ", ind);
                    // automatic bounds of index loops
                    let mut auto = vec![];
                    let ht = head.trim();
                    let mut auto_dec = None;
                    if let Some(r) = ht.strip_prefix("while vx_i") {
                        if let Some((ix, rest)) = r.split_once(" < ") {
                            let ix = format!("vx_i{}", ix);
                            if let Some(s) = rest.trim().strip_prefix("crate::stubs::VSeq::vlen(&") {
                                let s = s.trim_end_matches(')');
                                auto.push(format!("{} <= crate::stubs::VSeq::vseq(&{}).len()", ix, s));
                                auto_dec = Some(format!("crate::stubs::VSeq::vseq(&{}).len() - {}", s, ix));
                            } else if let Some(s) = rest.trim().strip_suffix(".len()") {
                                auto.push(format!("{} <= {}@.len()", ix, s));
                                auto_dec = Some(format!("{}@.len() - {}", s, ix));
                            } else {
                                let s = rest.trim();
                                auto.push(format!("{} <= {}", ix, s));
                                auto_dec = Some(format!("{} - {}", s, ix));
                            }
                        }
                    }
                    if !lc.inv.is_empty() || !auto.is_empty() {
                        self.em.line(&format!("{}invariant", ind2));
                        for a in auto {
                            let c = Clause {
                                tags: String::new(),
                                text: a,
                            };
                            self.em.clause(&ind3, key, &format!("inv{}", num), &c, &fc.tags);
                        }
                        for c in &lc.inv {
                            self.em.clause(&ind3, key, &format!("inv{}", num), c, &fc.tags);
                        }
                    }
                    if !lc.ens.is_empty() {
                        self.em.line(&format!("{}ensures", ind2));
                        for c in &lc.ens {
                            self.em.clause(&ind3, key, &format!("lens{}", num), c, &fc.tags);
                        }
                    }
                    if let Some(d) = lc.dec.clone().or(auto_dec) {
                        self.em.line(&format!("{}decreases {},", ind2, d));
                    }
                    self.em.out.push(format!("{}{{", ind));
                    if !lc.start.is_empty() {
                        self.em.line(&lc.start);
                    }
                    continue;
                }
                // a statement that continues on lines starting with a dot
                let mut joined = l.clone();
                if t.starts_with('.') {
                    joined.clear();
                } else {
                    for m in lines[li + 2..].iter().take_while(|m| m.trim().starts_with('.')) {
                        joined.push_str(m.trim());
                    }
                }
                for (bi, (pat, nth, code)) in fc.before.iter().enumerate() {
                    if joined.contains(pat.as_str()) {
                        let c = before_count.entry(bi).or_default();
                        *c += 1;
                        if *c == *nth {
                            self.em.line(code);
                        }
                    }
                }
                self.em.out.push(format!("{}{}", indent, l));
            }
            self.em.line(&format!("{}}}", indent));
            for (bi, (pat, nth, _)) in fc.before.iter().enumerate() {
                if before_count.get(&bi).copied().unwrap_or(0) < *nth {
                    missing.push(pat.clone());
                }
            }
            for k in fc.loops.keys() {
                if *k > nloops {
                    missing.push(format!("loop {}", k));
                }
            }
        }
        let end = self.em.out.len();
        self.em.fns.push(FnInfo {
            key: key.to_string(),
            start,
            end,
            status: if trust {
                if self.force_trust.contains(key) || !unsupported.is_empty() {
                    "undecided".into()
                } else {
                    "trusted".into()
                }
            } else {
                "verified".into()
            },
            calls: calls.0.into_iter().collect(),
            loops: nloops,
            unsupported,
            missing,
            tags: fc.tags.clone(),
            contract: contracted || !fc.ens.is_empty(),
            src_hash,
            headers: fnv(&headers.0),
        });
        for nf in nested {
            let nkey = format!("{}::{}", key, nf.sig.ident);
            self.pending.push((nkey, nf));
        }
    }
}

impl<'a> Ex<'a> {
    fn flush_pending(&mut self, indent: &str) {
        while !self.pending.is_empty() {
            let p = std::mem::take(&mut self.pending);
            for (key, f) in p {
                self.emit_fn(&key, &f.sig, &f.block, false, indent);
            }
        }
    }

    fn derives(attrs: &[Attribute]) -> HashSet<String> {
        let mut out = HashSet::new();
        for a in attrs {
            if a.path().is_ident("derive") {
                let _ = a.parse_nested_meta(|m| {
                    out.insert(last_seg(&m.path));
                    Ok(())
                });
            }
        }
        out
    }

    fn emit_items(&mut self, items: &[Item], path: &str, indent: &str) {
        let key_of = |n: &str| {
            if path.is_empty() {
                n.to_string()
            } else {
                format!("{}::{}", path, n)
            }
        };
        for it in items {
            match it {
                Item::Use(u) => {
                    let mut u = u.clone();
                    u.attrs.clear();
                    let t = type_str(&u.tree);
                    let first = t.split("::").next().unwrap().to_string();
                    if ["serde", "thiserror", "hex"].contains(&first.as_str())
                        || t.starts_with("std::fmt")
                        || t.starts_with("std::cell")
                        || t.starts_with("std::convert")
                        || t.starts_with("std::result")
                        || t.starts_with("std::pin")
                        || t.starts_with("std::path")
                        || t.starts_with("std::io")
                        || t == "pdl_runtime::Packet"
                        || t == "std::collections::HashMap"
                        || t == "std::time::Instant"
                        || t == "anyhow::Result"
                    {
                        continue;
                    }
                    let tree = u.tree.to_token_stream().to_string();
                    let tree = if EXT.contains(&first.as_str()) {
                        format!("crate :: stubs :: {}", tree)
                    } else if t.starts_with("std::time") {
                        tree.replacen("std", "crate :: stubs", 1)
                    } else {
                        tree
                    };
                    // paths relative to the crate root
                    let tree = if path.is_empty()
                        && !tree.starts_with("crate")
                        && !tree.starts_with("std")
                    {
                        tree
                    } else {
                        tree
                    };
                    self.em.line(&format!("{}pub use {};", indent, tree));
                }
                Item::Const(c) => {
                    let key = key_of(&c.ident.to_string());
                    let mut ty = (*c.ty).clone();
                    PathRw.visit_type_mut(&mut ty);
                    StaticRef.visit_type_mut(&mut ty);
                    if let Some(txt) = self.con.consts.get(&key).cloned() {
                        // constant with a contract
                        let start = self.em.out.len() + 1;
                        let mut e = (*c.expr).clone();
                        let mut rw = Rw {
                            ctx: self.ctx,
                            q: Q::None,
                            tmp: 0,
                            loops: 0,
                            globs: vec![],
                            unsupported: vec![],
                            mod_consts: HashMap::new(),
                        };
                        rw.visit_expr_mut(&mut e);
                        let body = txt
                            .replace("$TYPE", &ty.to_token_stream().to_string())
                            .replace("$EXPR", &e.to_token_stream().to_string());
                        for l in body.lines() {
                            if let Some((tags, t)) = l.trim().strip_prefix("@ens ").map(split_tags) {
                                self.em.clause(indent, &key, "ens", &Clause { tags, text: t.trim_end_matches(',').to_string() }, "");
                            } else {
                                self.em.line(&format!("{}{}", indent, l));
                            }
                        }
                        let end = self.em.out.len();
                        self.em.fns.push(FnInfo {
                            key,
                            start,
                            end,
                            status: "verified".into(),
                            calls: vec![],
                            loops: 0,
                            unsupported: vec![],
                            missing: vec![],
                            tags: String::new(),
                            contract: true,
                            src_hash: fnv(&c.expr.to_token_stream().to_string()),
                            headers: 0,
                        });
                        continue;
                    }
                    let mut e = (*c.expr).clone();
                    PathRw.visit_expr_mut(&mut e);
                    self.em.line(&format!(
                        "{}pub const {}: {} = {};",
                        indent,
                        c.ident,
                        ty.to_token_stream(),
                        e.to_token_stream()
                    ));
                }
                Item::Type(t) => {
                    let mut ty = (*t.ty).clone();
                    PathRw.visit_type_mut(&mut ty);
                    self.em.line(&format!(
                        "{}pub type {} = {};",
                        indent,
                        t.ident,
                        ty.to_token_stream()
                    ));
                }
                Item::Struct(s) => {
                    let name = s.ident.to_string();
                    if self.con.is_skip(&key_of(&name)) {
                        continue;
                    }
                    let d = Self::derives(&s.attrs);
                    let mut der = vec![];
                    if d.contains("Copy") {
                        der.push("Clone");
                        der.push("Copy");
                        if d.contains("PartialEq") {
                            der.push("PartialEq");
                            der.push("Eq");
                        }
                    }
                    if !der.is_empty() {
                        self.em.line(&format!("{}#[derive({})]", indent, der.join(", ")));
                    }
                    let gen = s.generics.to_token_stream().to_string();
                    match &s.fields {
                        Fields::Named(n) => {
                            self.em.line(&format!("{}pub struct {}{} {{", indent, name, gen));
                            for f in &n.named {
                                let mut ty = f.ty.clone();
                                PathRw.visit_type_mut(&mut ty);
                                self.em.line(&format!(
                                    "{}    pub {}: {},",
                                    indent,
                                    f.ident.as_ref().unwrap(),
                                    ty.to_token_stream()
                                ));
                            }
                            self.em.line(&format!("{}}}", indent));
                        }
                        Fields::Unnamed(u) => {
                            let fs: Vec<String> = u
                                .unnamed
                                .iter()
                                .map(|f| {
                                    let mut ty = f.ty.clone();
                                    PathRw.visit_type_mut(&mut ty);
                                    format!("pub {}", ty.to_token_stream())
                                })
                                .collect();
                            self.em.line(&format!(
                                "{}pub struct {}{}({});",
                                indent,
                                name,
                                gen,
                                fs.join(", ")
                            ));
                        }
                        Fields::Unit => self.em.line(&format!("{}pub struct {};", indent, name)),
                    }
                    if d.contains("PartialEq") && d.contains("Copy") && s.generics.params.is_empty() {
                        self.em.line(&format!("{i}impl vstd::std_specs::cmp::PartialEqSpecImpl for {n} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &{n}) -> bool {{ *self == *o }} }}\n{i}pub assume_specification [<{n} as PartialEq>::eq] (a: &{n}, b: &{n}) -> (r: bool);", i = indent, n = name));
                    }
                }
                Item::Enum(e) => {
                    let name = e.ident.to_string();
                    if self.con.is_skip(&key_of(&name)) {
                        continue;
                    }
                    let d = Self::derives(&e.attrs);
                    let unit = e.variants.iter().all(|v| matches!(v.fields, Fields::Unit));
                    let mut der = vec![];
                    if d.contains("Copy") {
                        der.push("Clone");
                        der.push("Copy");
                    }
                    if d.contains("PartialEq") && unit {
                        der.push("PartialEq");
                        der.push("Eq");
                        der.push("vstd::prelude::Structural");
                    } else if d.contains("PartialEq") && d.contains("Copy") {
                        der.push("PartialEq");
                        der.push("Eq");
                    }
                    for a in &e.attrs {
                        if a.path().is_ident("repr") && unit {
                            self.em.line(&format!("{}{}", indent, a.to_token_stream()));
                        }
                    }
                    if !der.is_empty() {
                        self.em.line(&format!("{}#[derive({})]", indent, der.join(", ")));
                    }
                    self.em.line(&format!(
                        "{}pub enum {}{} {{",
                        indent,
                        name,
                        e.generics.to_token_stream()
                    ));
                    for v in &e.variants {
                        let mut v = v.clone();
                        v.attrs.clear();
                        for f in v.fields.iter_mut() {
                            f.attrs.clear();
                            PathRw.visit_type_mut(&mut f.ty);
                        }
                        if !unit {
                            v.discriminant = None;
                        }
                        self.em.line(&format!("{}    {},", indent, v.to_token_stream()));
                    }
                    self.em.line(&format!("{}}}", indent));
                    if d.contains("PartialEq") && !unit && d.contains("Copy") && e.generics.params.is_empty() {
                        self.em.line(&format!("{i}impl vstd::std_specs::cmp::PartialEqSpecImpl for {n} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &{n}) -> bool {{ *self == *o }} }}\n{i}pub assume_specification [<{n} as PartialEq>::eq] (a: &{n}, b: &{n}) -> (r: bool);", i = indent, n = name));
                    }
                }
                Item::Fn(f) => {
                    let key = key_of(&f.sig.ident.to_string());
                    if self.con.is_skip(&key) || f.attrs.iter().any(|a| a.path().is_ident("test")) {
                        self.dropped.push(key);
                        continue;
                    }
                    self.emit_fn(&key, &f.sig, &f.block, false, indent);
                    self.flush_pending(indent);
                }
                Item::Impl(i) => {
                    let mut i2 = i.clone();
                    let orig_trait = i.trait_.as_ref().map(|t| last_seg(&t.1));
                    PathRw.visit_type_mut(&mut i2.self_ty);
                    if let Some((_, p, _)) = &mut i2.trait_ {
                        PathRw.visit_path_mut(p);
                    }
                    let ik = impl_key(&i2);
                    let ikey = key_of(&ik);
                    if self.con.is_skip(&ikey) {
                        self.dropped.push(ikey);
                        continue;
                    }
                    let tr = orig_trait.clone().unwrap_or_default();
                    if orig_trait.is_some()
                        && !["From", "TryFrom", "Default", "Drop", "Packet"].contains(&tr.as_str())
                    {
                        self.dropped.push(ikey);
                        continue;
                    }
                    if tr == "From" && path.ends_with("uci") {
                        let t = type_str(&i2.self_ty);
                        if ["i8", "i16", "i32", "i64", "u16", "u32", "u64"].contains(&t.as_str()) {
                            self.dropped.push(ikey);
                            continue;
                        }
                    }
                    if type_str(&i2.self_ty).contains("String") || ik.contains("String") {
                        self.dropped.push(ikey);
                        continue;
                    }
                    PathRw.visit_generics_mut(&mut i2.generics);
                    let gen = {
                        let mut g = i2.generics.clone();
                        g.where_clause = None;
                        g.to_token_stream().to_string()
                    };
                    if tr == "Drop" || orig_trait.is_none() {
                        self.em.line(&format!(
                            "{}impl{} {} {{",
                            indent,
                            gen,
                            i2.self_ty.to_token_stream()
                        ));
                    } else {
                        let (_, p, _) = i2.trait_.as_ref().unwrap();
                        let mut p = p.clone();
                        if p.segments.len() == 1 {
                            let s = p.segments[0].clone();
                            p = if s.ident == "Packet" {
                                parse_quote!(crate::stubs::pdl_runtime::#s)
                            } else {
                                parse_quote!(crate::stubs::#s)
                            };
                        }
                        self.em.line(&format!(
                            "{}impl{} {} for {} {{",
                            indent,
                            gen,
                            p.to_token_stream(),
                            i2.self_ty.to_token_stream()
                        ));
                    }
                    let in_trait = orig_trait.is_some();
                    let ind2 = format!("{}    ", indent);
                    if let Some(x) = self.con.impls.get(&ikey).cloned() {
                        self.em.synth(&ind2, &x);
                    } else if in_trait && tr != "Drop" {
                        let d = match tr.as_str() {
                            "From" => "open spec fn from_ens(v: $T, r: Self) -> bool { true }",
                            "TryFrom" => "open spec fn try_from_ens(v: $T, r: core::result::Result<Self, Self::Error>) -> bool { true }",
                            "Default" => "open spec fn default_ens(r: Self) -> bool { true }",
                            _ => "uninterp spec fn enc_ok(&self) -> bool; uninterp spec fn enc(&self) -> Seq<u8>; uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool; uninterp spec fn dec_bad(b: Seq<u8>) -> bool;",
                        };
                        let targ = i2
                            .trait_
                            .as_ref()
                            .and_then(|t| match &t.1.segments.last().unwrap().arguments {
                                PathArguments::AngleBracketed(a) => {
                                    Some(a.args.to_token_stream().to_string())
                                }
                                _ => None,
                            })
                            .unwrap_or_default();
                        self.em.line(&format!("{}{}", ind2, d.replace("$T", &targ)));
                    }
                    for ii in &i.items {
                        match ii {
                            ImplItem::Fn(f) => {
                                let key = format!("{}::{}", ikey, f.sig.ident);
                                if self.con.is_skip(&key)
                                    || (tr == "Packet"
                                        && f.sig.ident != "encode"
                                        && f.sig.ident != "decode")
                                {
                                    self.dropped.push(key);
                                    continue;
                                }
                                self.emit_fn(&key, &f.sig, &f.block, in_trait, &ind2);
                            }
                            ImplItem::Type(t) => {
                                let mut ty = t.ty.clone();
                                PathRw.visit_type_mut(&mut ty);
                                self.em.line(&format!(
                                    "{}type {} = {};",
                                    ind2,
                                    t.ident,
                                    ty.to_token_stream()
                                ));
                            }
                            ImplItem::Const(c) => {
                                self.em.line(&format!("{}{}", ind2, c.to_token_stream()));
                            }
                            _ => (),
                        }
                    }
                    self.em.line(&format!("{}}}", indent));
                    self.flush_pending(indent);
                }
                Item::Mod(m) => {
                    let name = m.ident.to_string();
                    if name == "tests" || name == "test" {
                        continue;
                    }
                    let Some((_, items)) = &m.content else {
                        continue;
                    };
                    let p = key_of(&name);
                    self.em.line(&format!("{}}} // verus!", indent));
                    self.em.line(&format!("{}pub mod {} {{", indent, name));
                    let ind2 = format!("{}    ", indent);
                    self.em.line(&format!("{}use vstd::prelude::*;", ind2));
                    self.em.line(&format!("{}use crate::stubs::vx_traits::*;", ind2));
                    self.em.line(&format!("{}use crate::specs::*;", ind2));
                    self.em.line(&format!("{}verus! {{", ind2));
                    self.em.line(&format!("{}broadcast use crate::specs::vx_group;", ind2));
                    self.emit_items(items, &p, &ind2);
                    if let Some(x) = self.con.mods.get(&p).cloned() {
                        self.em.line(&x);
                    }
                    self.em.line(&format!("{}}} // verus!", ind2));
                    self.em.line(&format!("{}}}", indent));
                    self.em.line(&format!("{}verus! {{", indent));
                }
                Item::Trait(t) => {
                    self.dropped.push(key_of(&t.ident.to_string()));
                }
                Item::Macro(_) => {}
                other => {
                    let _ = other;
                    self.dropped
                        .push(key_of(&type_str(other).chars().take(30).collect::<String>()));
                }
            }
        }
    }
}

/// Load a module tree from its files.
fn load_mod(file: &PathBuf, dir: &PathBuf, uci: &str) -> Vec<Item> {
    let text = std::fs::read_to_string(file).unwrap_or_else(|e| fail(&format!("{:?}: {}", file, e)));
    let f = syn::parse_file(&text).unwrap_or_else(|e| fail(&format!("{:?}: {}", file, e)));
    expand(f.items, dir, uci)
}

fn expand(items: Vec<Item>, dir: &PathBuf, uci: &str) -> Vec<Item> {
    let mut out = vec![];
    for it in items {
        match it {
            Item::Mod(mut m) => {
                if m.attrs.iter().any(|a| {
                    a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test")
                }) {
                    continue;
                }
                match m.content.take() {
                    Some((b, items)) => {
                        let sub = dir.join(m.ident.to_string());
                        m.content = Some((b, expand(items, &sub, uci)));
                    }
                    None => {
                        let mut f = dir.join(format!("{}.rs", m.ident));
                        if !f.exists() {
                            f = dir.join(m.ident.to_string()).join("mod.rs");
                        }
                        let sub = dir.join(m.ident.to_string());
                        m.content = Some((Default::default(), load_mod(&f, &sub, uci)));
                        m.semi = None;
                    }
                }
                out.push(Item::Mod(m));
            }
            Item::Macro(m) if mac_name(&m.mac) == "include" => {
                let f = syn::parse_file(uci).unwrap_or_else(|e| fail(&format!("uci: {}", e)));
                out.extend(f.items);
            }
            i => out.push(i),
        }
    }
    out
}

fn fail(m: &str) -> ! {
    eprintln!("EXTRACT-ERROR {}", m);
    std::process::exit(3)
}

fn collect(items: &[Item], path: &str, v: &mut dyn FnMut(&str, &Item)) {
    for i in items {
        v(path, i);
        if let Item::Mod(m) = i {
            if let Some((_, it)) = &m.content {
                let p = if path.is_empty() {
                    m.ident.to_string()
                } else {
                    format!("{}::{}", path, m.ident)
                };
                collect(it, &p, v);
            }
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut opt: HashMap<String, String> = HashMap::new();
    let mut force: HashSet<String> = HashSet::new();
    while let Some(a) = args.next() {
        let v = args.next().unwrap_or_default();
        if a == "--trust" {
            force.insert(v);
        } else {
            opt.insert(a, v);
        }
    }
    let repo = PathBuf::from(opt.get("--repo").cloned().unwrap_or("/repo".into()));
    let uci = std::fs::read_to_string(&opt["--uci"]).unwrap_or_else(|e| fail(&e.to_string()));
    let cdir = PathBuf::from(&opt["--contracts"]);
    let mut con = Contracts::default();
    if let Some(t) = opt.get("--trustpat") { con.trust.extend(t.split(',').map(|s| s.to_string())); }
    if let Some(t) = opt.get("--keep") { con.keep.extend(t.split(',').map(|s| s.to_string())); }
    let mut names: Vec<_> = std::fs::read_dir(&cdir)
        .unwrap()
        .map(|e| e.unwrap().path())
        .collect();
    names.sort();
    for p in names {
        let n = p.file_name().unwrap().to_string_lossy().to_string();
        let text = std::fs::read_to_string(&p).unwrap();
        if n.ends_with(".vc") {
            con.load(&n, &text);
        } else if n.ends_with(".rs") {
            con.prelude.push_str(&text);
            con.prelude.push('\n');
        }
    }
    let items = load_mod(&repo.join("src/lib.rs"), &repo.join("src"), &uci);

    // effectful functions, by name
    let mut bodies: Vec<(String, BTreeSet<String>, bool)> = vec![];
    let mut enums: HashMap<String, Vec<String>> = HashMap::new();
    let mut drop_types: HashSet<String> = HashSet::new();
    let mut structs: Vec<ItemStruct> = vec![];
    let mut fn_names: HashSet<String> = HashSet::new();
    collect(&items, "", &mut |path, it| match it {
        Item::Enum(e) => {
            enums.insert(
                e.ident.to_string(),
                e.variants.iter().map(|v| v.ident.to_string()).collect(),
            );
        }
        Item::Struct(s) => structs.push(s.clone()),
        Item::Fn(f) => {
            let mut c = Calls(BTreeSet::new());
            c.visit_block(&f.block);
            fn_names.insert(f.sig.ident.to_string());
            if !path.ends_with("uci") {
                bodies.push((f.sig.ident.to_string(), c.0, false));
            }
        }
        Item::Impl(i) => {
            if let Some((_, p, _)) = &i.trait_ {
                if last_seg(p) == "Drop" {
                    drop_types.insert(type_str(&i.self_ty));
                }
            }
            for ii in &i.items {
                if let ImplItem::Fn(f) = ii {
                    fn_names.insert(f.sig.ident.to_string());
                    if path.ends_with("uci") {
                        continue;
                    }
                    let mut c = Calls(BTreeSet::new());
                    c.visit_block(&f.block);
                    bodies.push((f.sig.ident.to_string(), c.0, i.trait_.is_some()));
                }
            }
        }
        _ => (),
    });
    let mut drop_fields: HashSet<String> = HashSet::new();
    let mut map_fields: HashSet<String> = HashSet::new();
    loop {
        let n = drop_types.len();
        for s in &structs {
            for f in &s.fields {
                let t = type_str(&f.ty);
                if t.starts_with("HashMap<") {
                    let v = t.trim_end_matches('>').rsplit(',').next().unwrap().trim().to_string();
                    let name = f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default();
                    map_fields.insert(name.clone());
                    if drop_types.contains(&v) {
                        drop_fields.insert(name);
                        drop_types.insert(s.ident.to_string());
                    }
                }
            }
        }
        if drop_types.len() == n {
            break;
        }
    }
    let mut effectful: HashSet<String> = BASE_EFFECTS.iter().map(|s| s.to_string()).collect();
    effectful.insert("vdrop".into());
    for e in opt.get("--effects").cloned().unwrap_or_default().split(',') {
        if !e.is_empty() {
            effectful.insert(e.to_string());
        }
    }
    let pure: HashSet<&str> = ["new", "main", "from", "try_from", "fmt"].into_iter().collect();
    // functions that drop a droppable value
    loop {
        let n = effectful.len();
        for (name, calls, _) in &bodies {
            if pure.contains(name.as_str()) {
                continue;
            }
            if calls.iter().any(|c| effectful.contains(c)) {
                effectful.insert(name.clone());
            }
        }
        if effectful.len() == n {
            break;
        }
    }
    // drop insertion makes these effectful as well
    for n in ["session_deinit", "core_device_reset", "disconnect", "session_init"] {
        effectful.insert(n.into());
    }
    effectful.remove("try_join");

    let ctx = Ctx {
        effectful,
        enums,
        drop_types,
        drop_fields,
        fn_names,
        map_fields,
    };
    let prelude = con.prelude.clone();
    let mut ex = Ex {
        ctx: &ctx,
        con: &mut con,
        em: Emit {
            out: vec![],
            map: vec![],
            fns: vec![],
        },
        force_trust: force,
        mod_consts: HashMap::new(),
        pending: vec![],
        dropped: vec![],
    };
    ex.em.line("// generated by extract from /repo and /verif/contracts");
    ex.em.line("#![allow(unused)]\n#![allow(non_upper_case_globals)]\n#![allow(non_camel_case_types)]\n#![allow(non_snake_case)]\n#![allow(dead_code)]\n#![allow(unreachable_patterns)]\n#![verifier::auto_ext_equal(assert, assert_by, ensures, invariant)]");
    ex.em.line("use vstd::prelude::*;");
    ex.em.line(&prelude);
    ex.em.line("use crate::stubs::vx_traits::*;\nuse crate::specs::*;\nuse vx_std::*;");
    ex.em.line("mod vx_std { pub type Result<T, E = crate::stubs::anyhow::Error> = core::result::Result<T, E>; }");
    ex.em.line("verus! {");
    ex.em.line("broadcast use crate::specs::vx_group;");
    ex.emit_items(&items, "", "");
    if let Some(x) = ex.con.mods.get("").cloned() {
        ex.em.line(&x);
    }
    ex.em.line("fn main() {}\n} // verus!");
    let em = ex.em;
    let dropped = ex.dropped;
    std::fs::write(&opt["--out"], em.out.join("\n") + "\n").unwrap();
    // map
    let mut o = String::from("{\n\"clauses\": [\n");
    o.push_str(
        &em.map
            .iter()
            .map(|(l, f, k, t, x)| format!("[{}, {}, {}, {}, {}]", l, js(f), js(k), js(t), js(x)))
            .collect::<Vec<_>>()
            .join(",\n"),
    );
    o.push_str("],\n\"fns\": [\n");
    o.push_str(
        &em.fns
            .iter()
            .map(|f| {
                format!(
                    "{{\"key\": {}, \"start\": {}, \"end\": {}, \"status\": {}, \"loops\": {}, \"contract\": {}, \"tags\": {}, \"hash\": \"{:016x}\", \"headers\": \"{:016x}\", \"unsupported\": [{}], \"missing\": [{}], \"calls\": [{}]}}",
                    js(&f.key),
                    f.start,
                    f.end,
                    js(&f.status),
                    f.loops,
                    f.contract,
                    js(&f.tags),
                    f.src_hash,
                    f.headers,
                    f.unsupported.iter().map(|c| js(c)).collect::<Vec<_>>().join(", "),
                    f.missing.iter().map(|c| js(c)).collect::<Vec<_>>().join(", "),
                    f.calls
                        .iter()
                        .filter(|c| ctx.fn_names.contains(*c))
                        .map(|c| js(c))
                        .collect::<Vec<_>>()
                        .join(", ")
                )
            })
            .collect::<Vec<_>>()
            .join(",\n"),
    );
    o.push_str("],\n\"dropped\": [");
    o.push_str(&dropped.iter().map(|d| js(d)).collect::<Vec<_>>().join(", "));
    o.push_str("],\n\"unused_contracts\": [");
    let unused: Vec<String> = con
        .fns
        .iter()
        .filter(|(_, f)| !f.used)
        .map(|(k, _)| js(k))
        .collect();
    o.push_str(&unused.join(", "));
    o.push_str("]\n}\n");
    std::fs::write(&opt["--map"], o).unwrap();
}

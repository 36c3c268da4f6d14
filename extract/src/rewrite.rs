//! Function-level rewrites (X4..X9 of the header of main.rs).
use crate::*;

pub fn do_const(cx: &mut Cx, key: &str, name: String, ty: &Type, e: &Expr, selfty: &str) -> TokenStream {
    let name = format_ident!("{}", name);
    let mut ty = ty.clone();
    ClearVis.visit_type_mut(&mut ty);
    let c = cx.contracts.fns.get(key).cloned();
    match (e, c) {
        (Expr::Block(_), c) => {
            let c = c.unwrap_or_default();
            cx.used.insert(format!("fn {key}"));
            let mut b: Block = match e {
                Expr::Block(b) => b.block.clone(),
                _ => unreachable!(),
            };
            // `{{ .. }}`
            while b.stmts.len() == 1 {
                if let Stmt::Expr(Expr::Block(i), None) = &b.stmts[0] {
                    b = i.block.clone();
                } else {
                    break;
                }
            }
            let mut info = FnInfo { key: key.into(), contracted: !c.spec.trim().is_empty(), body: squash(&b), ..Default::default() };
            let mut muts = Muts(Default::default());
            syn::visit::Visit::visit_block(&mut muts, &b);
            let mut rw = Rw { muts: muts.0, refs: Default::default(), cx, key: key.into(), selfty: selfty.into(), c: c.clone(), k: 0, info: &mut info, nested: vec![] };
            rw.visit_block_mut(&mut b);
            let nloops = rw.k;
            let _ = nloops;
            cx.fns.push(info);
            let m0 = cx.text(&format!("//@fn {key}"));
            let m1 = cx.text("//@end");
            if cx.contracts.fns.get(key).is_none() || c.external || cx.external.contains(key) {
                let i = cx.fns.last_mut().unwrap();
                i.external = true;
                i.uncontracted = !i.contracted;
                let sp = cx.text(if c.spec.trim().is_empty() { "ensures true" } else { &c.spec });
                return quote!(#m0 #[verifier::external_body] pub exec const #name: #ty #sp { unsafe { core::mem::zeroed() } } #m1);
            }
            let sp = cx.text(&c.spec);
            quote!(#m0 #[verifier::loop_isolation(false)] pub exec const #name: #ty #sp #b #m1)
        }
        _ => {
            let mut e = e.clone();
            let mut info = FnInfo::default();
            let mut rw = Rw { muts: Default::default(), refs: Default::default(), cx, key: key.into(), selfty: selfty.into(), c: FnC::default(), k: 0, info: &mut info, nested: vec![] };
            rw.visit_expr_mut(&mut e);
            quote!(pub const #name: #ty = #e;)
        }
    }
}

pub fn do_fn(cx: &mut Cx, key: &str, selfty: &str, mut sig: Signature, block: Option<Block>, make_pub: bool) -> TokenStream {
    let c = cx.contracts.fns.get(key).cloned();
    if c.is_some() {
        cx.used.insert(format!("fn {key}"));
    }
    let contracted = c.as_ref().map_or(false, |c| !c.spec.trim().is_empty());
    let c = c.unwrap_or_default();
    let mut external = block.is_some() && (c.external || cx.external.contains(key));
    let codec = matches!(sig.ident.to_string().as_str(), "encode" | "decode" | "encode_v1" | "decode_v1") && key.contains(" as ")
        || key.contains(" as ") && cx.contracts.impls.contains_key(key.rsplit_once("::").unwrap().0);
    if key.contains(" as AsRef<") && sig.ident == "as_ref" {
        sig.ident = Ident::new("as_ref_sh", Span::call_site());
    }
    if key.contains(" as TryInto<") && sig.ident == "try_into" {
        sig.ident = Ident::new("try_into_sh", Span::call_site());
    }
    let mut uncontracted = false;
    if block.is_some() && !contracted && !codec && cx.contracts.fns.get(key).is_none() {
        // not under contract: only its signature matters, and only if a function under contract calls it
        uncontracted = true;
        if make_pub {
            if let Some(c) = &cx.called {
                if !c.contains(&sig.ident.to_string()) {
                    return quote!();
                }
            }
        }
        if cx.called.is_some() {
            external = true;
        }
    }
    ClearVis.visit_signature_mut(&mut sig);
    // a parameter without a name gets one
    for (i, a) in sig.inputs.iter_mut().enumerate() {
        if let FnArg::Typed(t) = a {
            if matches!(*t.pat, Pat::Wild(_)) {
                let n = format_ident!("__p{}", i);
                *t.pat = parse_quote!(#n);
            }
        }
    }
    let mut info = FnInfo { key: key.into(), contracted: contracted || codec, uncontracted, external, ..Default::default() };
    let orig_sig = squash(&sig);
    let mut nl = 0;
    let body = block.map(|mut b| {
        info.body = format!("{} {}", orig_sig, squash(&b));
        if info.body.contains("__outside_reach()") && !external {
            info.notes.push("its derive is not of the form serde_derive writes for a plain struct".into());
        }
        let mut muts = Muts(Default::default());
        syn::visit::Visit::visit_block(&mut muts, &b);
        syn::visit::Visit::visit_signature(&mut muts, &sig);
        let mut rw = Rw { muts: muts.0, refs: int_refs(&sig), cx, key: key.into(), selfty: selfty.into(), c: c.clone(), k: 0, info: &mut info, nested: vec![] };
        if external {
            return quote!({ unimplemented!() });
        }
        rw.visit_block_mut(&mut b);
        nl = rw.k;
        let start = c.hints.get("start").cloned();
        let tail = c.hints.get("tail").cloned();
        let mut stmts = b.stmts;
        // hints after the K-th top-level `if`
        if c.nifs.is_some() {
            let last = stmts.len();
            let mut k = 0;
            let mut new = vec![];
            for (i, s) in stmts.into_iter().enumerate() {
                let is_if = matches!(&s, Stmt::Expr(Expr::If(_), semi) if semi.is_some() || i + 1 < last);
                new.push(s);
                if is_if {
                    let h = format!("afterif {k}");
                    if let Some(t) = c.hints.get(&h) {
                        rw.info.used_hints.push(h);
                        let t = rw.cx.text(t);
                        new.push(Stmt::Expr(Expr::Verbatim(t), None));
                    }
                    k += 1;
                }
            }
            stmts = new;
            if c.nifs != Some(k) {
                rw.info.notes.push(format!("expected {} ifs, found {k}", c.nifs.unwrap()));
            }
        }
        let mut out = TokenStream::new();
        // a plain decoder needs no lemmas about sequences
        let plain = matches!(sig.ident.to_string().as_str(), "decode" | "decode_v1") && c.hints.is_empty();
        if !c.light && !plain && rw.cx.contracts.light.iter().any(|m| key.strip_prefix(m.as_str()).is_some_and(|r| r.starts_with("::"))) {
            out.extend(quote!(broadcast use crate::spec::group_spec;));
        }
        if sig.ident.to_string().starts_with("deserialize") {
            out.extend(quote!(broadcast use crate::shim_serde::group_de;));
        }
        if let Some(s) = start {
            rw.info.used_hints.push("start".into());
            out.extend(rw.cx.text(&s));
        }
        if let Some(t) = tail {
            rw.info.used_hints.push("tail".into());
            if let Some(Stmt::Expr(e, None)) = stmts.last().cloned() {
                stmts.pop();
                let t = rw.cx.text(&t);
                let ty = match &sig.output {
                    ReturnType::Type(_, t) => quote!(: #t),
                    _ => quote!(),
                };
                out.extend(quote!(#(#stmts)* let res__ #ty = #e; #t res__));
            } else {
                let t = rw.cx.text(&t);
                out.extend(quote!(#(#stmts)* #t));
            }
        } else {
            out.extend(quote!(#(#stmts)*));
        }
        quote!({ #out })
    });
    if let Some(n) = c.nloops {
        if n != nl {
            info.notes.push(format!("expected {n} loops, found {nl}"));
        }
    }
    for h in c.hints.keys() {
        if !info.used_hints.contains(h) && !external {
            info.notes.push(format!("hint not placed: {h}"));
        }
    }
    cx.fns.push(info);
    let m0 = cx.text(&format!("//@fn {key}"));
    let m1 = cx.text("//@end");
    let mut spec = c.spec.clone();
    // Verus orders what it checks by what refers to what: a method of a trait with a contract refers to the
    // meaning its own type gives to that contract, and says so
    if let Some((_, tr)) = key.split_once(" as ") {
        let tr = tr.rsplit_once(">::").map_or(tr, |x| x.0);
        let call = match sig.ident.to_string().as_str() {
            "encode" if tr == "SiaEncodable" => Some("enc(self)"),
            "encode_v1" if tr == "V1SiaEncodable" => Some("enc1(self)"),
            "decode" if tr == "SiaDecodable" => Some("dec(Seq::empty())"),
            "decode_v1" if tr == "V1SiaDecodable" => Some("dec1(Seq::empty())"),
            _ => None,
        };
        if let Some(x) = call {
            let m = format!("<Self as {tr}>::{x} == <Self as {tr}>::{x},");
            match spec.find("ensures") {
                Some(i) => spec.insert_str(i + 7, &format!(" {m} ")),
                None => spec.push_str(&format!("\nensures {m}")),
            }
        }
    }
    let sp = cx.text(&spec);
    let attrs = cx.text(&c.attrs);
    let vis = if make_pub { quote!(pub) } else { quote!() };
    let ext = if external { quote!(#[verifier::external_body]) } else { quote!() };
    let iso = if nl > 0 && !external && !c.attrs.contains("loop_isolation") { quote!(#[verifier::loop_isolation(false)]) } else { quote!() };
    let (cst, name, g, inputs) = (&sig.constness, &sig.ident, &sig.generics, &sig.inputs);
    let wc = &sig.generics.where_clause;
    let ret = match &sig.output {
        ReturnType::Default => quote!(),
        ReturnType::Type(_, t) => {
            if contracted {
                let r = format_ident!("{}", c.ret.clone().unwrap_or("res".into()));
                quote!(-> (#r: #t))
            } else {
                quote!(-> #t)
            }
        }
    };
    let b = body.unwrap_or(quote!(;));
    quote!(#m0 #attrs #ext #iso #vis #cst fn #name #g (#inputs) #ret #wc #sp #b #m1)
}

struct Rw<'a> {
    cx: &'a mut Cx,
    key: String,
    selfty: String,
    c: FnC,
    k: usize,
    info: &'a mut FnInfo,
    nested: Vec<TokenStream>,
    /// names bound with `mut`: any other local that is mutated is a reference
    muts: BTreeSet<String>,
    /// parameters that are references to integers
    refs: BTreeSet<String>,
}

fn int_refs(sig: &Signature) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    for a in &sig.inputs {
        if let FnArg::Typed(t) = a {
            if let (Pat::Ident(i), Type::Reference(r)) = (&*t.pat, &*t.ty) {
                if matches!(squash(&r.elem).as_str(), "u8" | "u16" | "u32" | "u64" | "u128" | "usize" | "i8" | "i16" | "i32" | "i64" | "i128" | "isize") {
                    out.insert(i.ident.to_string());
                }
            }
        }
    }
    out
}

struct Muts(BTreeSet<String>);
impl<'a> syn::visit::Visit<'a> for Muts {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        if p.mutability.is_some() {
            self.0.insert(p.ident.to_string());
        }
        syn::visit::visit_pat_ident(self, p);
    }
}

fn bytes_expr(b: &[u8]) -> Expr {
    let l: Vec<proc_macro2::Literal> = b.iter().map(|x| proc_macro2::Literal::u8_suffixed(*x)).collect();
    parse_quote!(&[#(#l),*])
}

#[derive(Clone)]
enum Src {
    Shared(Expr),
    Mut(Expr),
    Array(Vec<Expr>),
    Range(Expr, Expr),
    /// rayon: slice, chunk size, exact
    ParChunks(Expr, Expr, bool),
}

struct Chain {
    src: Src,
    enumerate: bool,
    rev: bool,
    take: Option<Expr>,
    filter: Vec<ExprClosure>,
    map: Option<ExprClosure>,
}

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        _ => e,
    }
}

struct Returns(bool);
impl<'a> syn::visit::Visit<'a> for Returns {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
}

/// every use of a name in statements, and every name bound there
#[derive(Default)]
struct Names {
    uses: BTreeMap<String, usize>,
    calls: BTreeMap<String, usize>,
    binds: BTreeSet<String>,
    tries: bool,
}
impl<'a> syn::visit::Visit<'a> for Names {
    fn visit_expr_try(&mut self, t: &'a ExprTry) {
        self.tries = true;
        syn::visit::visit_expr_try(self, t);
    }
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.binds.insert(p.ident.to_string());
        syn::visit::visit_pat_ident(self, p);
    }
    fn visit_expr_path(&mut self, p: &'a ExprPath) {
        if let Some(i) = p.path.get_ident() {
            *self.uses.entry(i.to_string()).or_default() += 1;
        }
    }
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func {
            if let Some(i) = p.path.get_ident() {
                *self.calls.entry(i.to_string()).or_default() += 1;
            }
        }
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        for t in m.tokens.clone() {
            if let TokenTree::Ident(i) = t {
                *self.uses.entry(i.to_string()).or_default() += 1;
            }
        }
    }
}
struct Inline {
    name: String,
    c: ExprClosure,
}
impl VisitMut for Inline {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(&self.name)) && c.args.len() == self.c.inputs.len() {
                let (mut ids, mut tys): (Vec<TokenStream>, Vec<TokenStream>) = (vec![], vec![]);
                for i in &self.c.inputs {
                    match i {
                        Pat::Type(t) => {
                            let (p, t) = (&t.pat, &t.ty);
                            ids.push(quote!(#p));
                            tys.push(quote!(#t));
                        }
                        p => {
                            ids.push(quote!(#p));
                            tys.push(quote!(_));
                        }
                    }
                }
                let args = c.args.iter();
                let body = &self.c.body;
                let body = match &self.c.output {
                    ReturnType::Type(_, t) => quote!({ let __c: #t = #body; __c }),
                    _ => quote!(#body),
                };
                *e = match ids.len() {
                    0 => parse_quote!({ #body }),
                    1 => {
                        let (i, t) = (&ids[0], &tys[0]);
                        parse_quote!({ let #i: #t = #(#args)*; #body })
                    }
                    _ => parse_quote!({ let (#(#ids),*): (#(#tys),*) = (#(#args),*); #body }),
                };
            }
        }
    }
}
/// `let f = |x| ..;` that is only ever called: the calls are replaced by what it does
fn inline_closures(stmts: &mut Vec<Stmt>) {
    let mut i = 0;
    while i < stmts.len() {
        if let Stmt::Local(Local { pat, init: Some(LocalInit { expr, diverge: None, .. }), .. }) = &stmts[i] {
            if let (Pat::Ident(id), Some(c)) = (pat, closure(expr)) {
                let name = id.ident.to_string();
                let (mut rest, mut body) = (Names::default(), Names::default());
                for s in &stmts[i + 1..] {
                    syn::visit::Visit::visit_stmt(&mut rest, s);
                }
                syn::visit::Visit::visit_expr(&mut body, &c.body);
                let simple = c.inputs.iter().all(|p| matches!(p, Pat::Ident(_)) || matches!(p, Pat::Type(t) if matches!(&*t.pat, Pat::Ident(_))));
                let own: BTreeSet<String> = c.inputs.iter().flat_map(|p| { let mut n = Names::default(); syn::visit::Visit::visit_pat(&mut n, p); n.binds }).collect();
                let shadowed = body.uses.keys().any(|u| !own.contains(u) && rest.binds.contains(u)) || rest.binds.contains(&name);
                if simple && !shadowed && !body.tries && rest.uses.get(&name) == rest.calls.get(&name) {
                    stmts.remove(i);
                    let mut v = Inline { name, c };
                    for s in &mut stmts[i..] {
                        v.visit_stmt_mut(s);
                    }
                    continue;
                }
            }
        }
        i += 1;
    }
}

/// a closure that can be inlined: a `return` in it would leave the function instead
fn closure(e: &Expr) -> Option<ExprClosure> {
    match strip(e) {
        Expr::Closure(c) => {
            let mut r = Returns(false);
            syn::visit::Visit::visit_expr(&mut r, &c.body);
            if r.0 { None } else { Some(c.clone()) }
        }
        _ => None,
    }
}

/// a closure whose parameter is declared a `char`
fn char_closure(e: &Expr) -> Option<ExprClosure> {
    let c = closure(e)?;
    match c.inputs.first() {
        Some(Pat::Type(t)) if squash(&t.ty) == "char" => Some(c),
        _ => None,
    }
}

fn str_lit(e: &Expr) -> Option<String> {
    match strip(e) {
        Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(s.value()),
        _ => None,
    }
}

/// `x[a..b]`
fn sliced(e: &Expr) -> bool {
    matches!(strip(e), Expr::Index(i) if matches!(&*i.index, Expr::Range(_)))
}

/// `f.write_fmt(format_args!("..{0}..", a, ..))`: the pieces are written one after the other, until one fails
fn write_fmt(f: &Expr, args: &Expr, mut ex: impl FnMut(&Expr) -> Expr) -> Option<Expr> {
    let Expr::Macro(m) = strip(args) else { return None };
    if !squash(&m.mac.path).ends_with("format_args") {
        return None;
    }
    let a = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
    let mut it = a.iter();
    let fmt = str_lit(it.next()?)?;
    let args: Vec<Expr> = it.map(|x| ex(x)).collect();
    let (mut pre, mut steps): (TokenStream, Vec<TokenStream>) = (quote!(), vec![]);
    let lit = |s: &str| {
        let cs: Vec<char> = s.chars().collect();
        quote!(crate::shim_text::write_lit(#f, &[#(#cs),*]))
    };
    for (i, x) in args.iter().enumerate() {
        let n = format_ident!("__d{}", i);
        match strip(x) {
            Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) => {}
            Expr::Path(_) | Expr::Field(_) | Expr::Index(_) => pre.extend(quote!(let #n = &#x;)),
            _ => pre.extend(quote!(let #n = #x; let #n = &#n;)),
        }
    }
    let mut text = String::new();
    let mut cs = fmt.chars().peekable();
    while let Some(c) = cs.next() {
        match c {
            '{' if cs.peek() == Some(&'{') => {
                cs.next();
                text.push('{');
            }
            '}' if cs.peek() == Some(&'}') => {
                cs.next();
                text.push('}');
            }
            '{' => {
                let mut d = String::new();
                loop {
                    match cs.next()? {
                        '}' => break,
                        c => d.push(c),
                    }
                }
                let k: usize = d.parse().ok()?;
                if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = strip(args.get(k)?) {
                    text.push_str(&s.value());
                    continue;
                }
                if !text.is_empty() {
                    steps.push(lit(&text));
                    text.clear();
                }
                let n = format_ident!("__d{}", k);
                steps.push(quote!(crate::shim_text::Display::fmt(#n, #f)));
            }
            c => text.push(c),
        }
    }
    if !text.is_empty() {
        steps.push(lit(&text));
    }
    let mut out = quote!(Ok(()));
    for s in steps.iter().rev() {
        out = quote!(match #s { Ok(()) => #out, Err(__e) => Err(__e) });
    }
    Some(Expr::Verbatim(quote!({ #pre #out })))
}

/// the test of a `match` arm on text: `None` if it always matches
fn str_pat(p: &Pat, x: &TokenStream, consts: &HashMap<String, Vec<(String, Expr)>>) -> Option<Option<TokenStream>> {
    match p {
        Pat::Lit(l) => {
            let Lit::Str(s) = &l.lit else { return None };
            let cs: Vec<char> = s.value().chars().collect();
            Some(Some(quote!(crate::shim::str_is(#x, &[#(#cs),*]))))
        }
        Pat::Or(o) => {
            let mut v = vec![];
            for c in &o.cases {
                v.push(str_pat(c, x, consts)??);
            }
            Some(Some(quote!((#(#v)||*))))
        }
        // a constant of text
        Pat::Ident(i) if i.subpat.is_none() && consts.contains_key(&i.ident.to_string()) => {
            let v = &consts[&i.ident.to_string()];
            let distinct: BTreeSet<&String> = v.iter().map(|x| &x.0).collect();
            let (1, Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) = (distinct.len(), &v[0].1) else { return None };
            let cs: Vec<char> = s.value().chars().collect();
            Some(Some(quote!(crate::shim::str_is(#x, &[#(#cs),*]))))
        }
        Pat::Wild(_) => Some(None),
        Pat::Reference(r) if matches!(&*r.pat, Pat::Wild(_)) => Some(None),
        _ => None,
    }
}

/// an iterator expression over a slice, in the shapes of X5
fn chain(e: &Expr, explicit: bool) -> Option<Chain> {
    match strip(e) {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            match (n.as_str(), m.args.len()) {
                ("iter", 0) => Some(Chain {
                    src: match strip(&m.receiver) {
                        Expr::Array(a) => Src::Array(a.elems.iter().cloned().collect()),
                        r => Src::Shared(r.clone()),
                    },
                    enumerate: false, rev: false, take: None, filter: vec![], map: None,
                }),
                ("iter_mut", 0) => Some(Chain { src: Src::Mut((*m.receiver).clone()), enumerate: false, rev: false, take: None, filter: vec![], map: None }),
                ("par_chunks_exact_mut", 1) => Some(Chain { src: Src::ParChunks((*m.receiver).clone(), m.args[0].clone(), true), enumerate: false, rev: false, take: None, filter: vec![], map: None }),
                ("par_chunks_mut", 1) => Some(Chain { src: Src::ParChunks((*m.receiver).clone(), m.args[0].clone(), false), enumerate: false, rev: false, take: None, filter: vec![], map: None }),
                ("enumerate", 0) => {
                    let mut c = chain(&m.receiver, true)?;
                    if c.enumerate || c.rev || !c.filter.is_empty() || c.map.is_some() {
                        return None;
                    }
                    c.enumerate = true;
                    Some(c)
                }
                ("rev", 0) => {
                    let mut c = chain(&m.receiver, true)?;
                    if c.enumerate || c.take.is_some() || !c.filter.is_empty() || c.map.is_some() {
                        return None;
                    }
                    c.rev = !c.rev;
                    Some(c)
                }
                ("take", 1) => {
                    let mut c = chain(&m.receiver, true)?;
                    if c.rev || c.take.is_some() || !c.filter.is_empty() || c.map.is_some() {
                        return None;
                    }
                    c.take = Some(m.args[0].clone());
                    Some(c)
                }
                ("filter", 1) => {
                    let mut c = chain(&m.receiver, true)?;
                    if c.map.is_some() {
                        return None;
                    }
                    c.filter.push(closure(&m.args[0])?);
                    Some(c)
                }
                ("map", 1) => {
                    let mut c = chain(&m.receiver, true)?;
                    if c.map.is_some() {
                        return None;
                    }
                    c.map = Some(closure(&m.args[0])?);
                    Some(c)
                }
                _ if explicit => None,
                _ => Some(Chain { src: Src::Shared(e.clone()), enumerate: false, rev: false, take: None, filter: vec![], map: None }),
            }
        }
        Expr::Range(ExprRange { start: Some(a), end: Some(b), limits: RangeLimits::HalfOpen(_), .. }) => Some(Chain {
            src: Src::Range((**a).clone(), (**b).clone()),
            enumerate: false, rev: false, take: None, filter: vec![], map: None,
        }),
        _ if explicit => None,
        Expr::Reference(r) if r.mutability.is_some() => Some(Chain { src: Src::Mut((*r.expr).clone()), enumerate: false, rev: false, take: None, filter: vec![], map: None }),
        Expr::Reference(r) => Some(Chain { src: Src::Shared((*r.expr).clone()), enumerate: false, rev: false, take: None, filter: vec![], map: None }),
        Expr::Path(_) | Expr::Field(_) => Some(Chain { src: Src::Shared(e.clone()), enumerate: false, rev: false, take: None, filter: vec![], map: None }),
        _ => None,
    }
}

/// what an iterator yields
#[derive(Clone)]
enum Yield {
    One(TokenStream),
    Pair(TokenStream, TokenStream),
}

/// `let` statements binding `pat` to the item; `byref`: the closure gets a reference to the item
fn bind(pat: &Pat, y: &Yield, byref: bool) -> Option<TokenStream> {
    match (pat, y) {
        (Pat::Wild(_), _) => Some(quote!()),
        (Pat::Paren(p), _) => bind(&p.pat, y, byref),
        (Pat::Type(p), _) => bind(&p.pat, y, byref),
        (Pat::Reference(p), Yield::One(e)) => {
            if byref {
                bind(&p.pat, y, false)
            } else {
                bind(&p.pat, &Yield::One(quote!((*#e))), false)
            }
        }
        (Pat::Reference(p), Yield::Pair(..)) if byref => bind(&p.pat, y, false),
        (Pat::Tuple(t), Yield::Pair(a, b)) if t.elems.len() == 2 => {
            // default binding modes: the components are references when the tuple is
            let comp = |p: &Pat, e: &TokenStream| bind(p, &Yield::One(e.clone()), byref && !matches!(p, Pat::Reference(_)));
            // `&x` against a component seen through a reference removes the component's own one
            let x = comp(&t.elems[0], a)?;
            let z = comp(&t.elems[1], b)?;
            Some(quote!(#x #z))
        }
        (Pat::Ident(i), Yield::One(e)) => {
            let n = &i.ident;
            Some(if byref { quote!(let #n = &#e;) } else { quote!(let #n = #e;) })
        }
        (Pat::Ident(i), Yield::Pair(a, b)) => {
            let n = &i.ident;
            Some(if byref { quote!(let #n = &(#a, #b);) } else { quote!(let #n = (#a, #b);) })
        }
        _ => None,
    }
}

impl Rw<'_> {
    fn hint(&mut self, h: &str) -> TokenStream {
        match self.c.hints.get(h).cloned() {
            Some(t) => {
                self.info.used_hints.push(h.to_string());
                self.cx.text(&t)
            }
            None => quote!(),
        }
    }

    /// what `&mut` is taken of: the place behind a local that is a reference
    fn place(&self, x: &Expr) -> Expr {
        if let Expr::Path(p) = strip(x) {
            if let Some(n) = p.path.get_ident() {
                if n != "self" && !self.muts.contains(&n.to_string()) && !n.to_string().starts_with("__") {
                    return parse_quote!(*#x);
                }
            }
        }
        x.clone()
    }
    /// `x[a..b]` as a mutable place
    fn range_mut(&self, e: &Expr) -> Option<Expr> {
        let Expr::Index(i) = e else { return None };
        let Expr::Range(r) = &*i.index else { return None };
        if matches!(r.limits, RangeLimits::Closed(_)) {
            return None;
        }
        let x = self.place(&i.expr);
        Some(match (&r.start, &r.end) {
            (Some(a), Some(b)) => parse_quote!(crate::shim::range_mut(&mut #x, #a, #b)),
            (Some(a), None) => parse_quote!(crate::shim::range_mut_from(&mut #x, #a)),
            (None, Some(b)) => parse_quote!(crate::shim::range_mut(&mut #x, 0, #b)),
            (None, None) => parse_quote!(crate::shim::range_mut_from(&mut #x, 0)),
        })
    }

    fn ex(&mut self, e: &Expr) -> Expr {
        let mut e = e.clone();
        self.visit_expr_mut(&mut e);
        e
    }

    fn bl(&mut self, b: &Block) -> Block {
        let mut b = b.clone();
        self.visit_block_mut(&mut b);
        b
    }

    /// the loop `k` over `c`, running `body(item)` for every item
    fn emit_loop(&mut self, k: usize, c: &Chain, until: Option<TokenStream>, body: impl FnOnce(&mut Self, &Yield) -> Option<TokenStream>) -> Option<TokenStream> {
        let (i, n, s) = (format_ident!("__i{}", k), format_ident!("__n{}", k), format_ident!("__s{}", k));
        let mut pre = TokenStream::new();
        let idx = format_ident!("__j{}", k);
        let elem: TokenStream;
        match &c.src {
            Src::Shared(x) => {
                let x = self.ex(x);
                pre.extend(quote!(let #s = crate::shim::IterSrc::iter_src(&#x); let #n: usize = #s.len();));
                let _ = &x;
                elem = quote!(&#s[#idx]);
                self.info.loops.push("shared".into());
            }
            Src::Mut(x) => {
                let x = self.ex(x);
                let place = match strip(&x) {
                    Expr::Path(_) | Expr::Field(_) => quote!(#x),
                    y => {
                        match self.range_mut(y) {
                            Some(r) => pre.extend(quote!(let #s = #r;)),
                            None => pre.extend(quote!(let #s = &mut #x;)),
                        }
                        quote!(#s)
                    }
                };
                pre.extend(quote!(let #n: usize = #place.len();));
                elem = quote!(&mut #place[#idx]);
                self.info.loops.push("mut".into());
            }
            Src::Range(a, b) => {
                let (a, b) = (self.ex(a), self.ex(b));
                pre.extend(quote!(let #n = #b;));
                let body_hint = self.hint(&format!("body {k}"));
                let end_hint = self.hint(&format!("bodyend {k}"));
                let inv = self.hint(&format!("loop {k}"));
                let (before, after) = (self.hint(&format!("before {k}")), self.hint(&format!("after {k}")));
                let b = body(self, &Yield::One(quote!(#idx)))?;
                self.info.loops.push("range".into());
                return Some(quote!({ #pre let mut #i = #a; #before while #i < #n #inv { let #idx = #i; #i = #i + 1; #body_hint #b #end_hint } #after }));
            }
            Src::Array(_) => return None,
            Src::ParChunks(x, cs, exact) => {
                let (x, cs) = (self.ex(x), self.ex(cs));
                let z = format_ident!("__z{}", k);
                pre.extend(quote!(let #z: usize = #cs; let #n: usize = crate::shim::chunk_count(#x.len(), #z, #exact);));
                let x = self.place(&x);
                elem = quote!({ let __c = crate::shim::chunk_end((#x).len(), #z, #idx); crate::shim::range_mut(&mut #x, #idx * #z, __c) });
                self.info.loops.push("chunks".into());
            }
        }
        if let Some(t) = &c.take {
            let t = self.ex(t);
            pre.extend(quote!(let #n: usize = { let __t: usize = #t; if __t < #n { __t } else { #n } };));
        }
        let inv = self.hint(&format!("loop {k}"));
        let (before, after) = (self.hint(&format!("before {k}")), self.hint(&format!("after {k}")));
        let (bh, eh) = (self.hint(&format!("body {k}")), self.hint(&format!("bodyend {k}")));
        let j = if c.rev { quote!(#n - 1 - #i) } else { quote!(#i) };
        let cond = match until {
            Some(u) => quote!(#i < #n && #u),
            None => quote!(#i < #n),
        };
        let e = format_ident!("__e{}", k);
        let y = if c.enumerate { Yield::Pair(quote!(#idx), quote!(#e)) } else { Yield::One(quote!(#e)) };
        let b = body(self, &y)?;
        Some(quote!({ #pre let mut #i: usize = 0; #before while #cond #inv { let #idx: usize = #j; #i = #i + 1; #bh let #e = #elem; #b #eh } #after }))
    }

    /// iterator chains that are not the head of a `for`
    fn try_chain(&mut self, e: &Expr) -> Option<Expr> {
        match e {
            // it.try_for_each(|p| body)?
            Expr::Try(t) => {
                let Expr::MethodCall(m) = strip(&t.expr) else { return None };
                if m.method != "try_for_each" || m.args.len() != 1 {
                    return None;
                }
                let c = chain(&m.receiver, true)?;
                let cl = closure(&m.args[0])?;
                if !c.filter.is_empty() || c.map.is_some() {
                    return None;
                }
                let k = self.k;
                self.k += 1;
                let out = self.emit_loop(k, &c, None, |rw, y| {
                    let b = bind(&cl.inputs[0], y, false)?;
                    let body = rw.ex(&cl.body);
                    // a closure ending in Ok(()) is run for its effect and its errors
                    if let Expr::Block(bb) = &body {
                        if let Some(Stmt::Expr(Expr::Call(c), None)) = bb.block.stmts.last() {
                            if squash(c) == "Ok(())" {
                                let st = &bb.block.stmts[..bb.block.stmts.len() - 1];
                                return Some(quote!(#b #(#st)*));
                            }
                        }
                    }
                    Some(quote!(#b #body?;))
                })?;
                Some(Expr::Verbatim(out))
            }
            Expr::MethodCall(m) if m.method == "for_each" && m.args.len() == 1 => {
                let c = chain(&m.receiver, true)?;
                let cl = closure(&m.args[0])?;
                if !c.filter.is_empty() || c.map.is_some() {
                    return None;
                }
                let k = self.k;
                self.k += 1;
                let out = self.emit_loop(k, &c, None, |rw, y| {
                    let b = bind(&cl.inputs[0], y, false)?;
                    let body = rw.ex(&cl.body);
                    Some(quote!(#b #body;))
                })?;
                Some(Expr::Verbatim(out))
            }
            Expr::MethodCall(m) if m.method == "sum" && m.args.is_empty() => {
                let c = chain(&m.receiver, true)?;
                let ty = m.turbofish.as_ref().map(|t| t.args.first().cloned().unwrap());
                let ty = ty.map(|t| quote!(: #t));
                let k = self.k;
                self.k += 1;
                let (a, s) = (format_ident!("__a{}", k), format_ident!("__s{}", k));
                let step = |rw: &mut Self, y: &Yield| -> Option<TokenStream> {
                    let mut val = match (&c.map, y) {
                        (Some(cl), y) => {
                            let b = bind(&cl.inputs[0], y, false)?;
                            let e = rw.ex(&cl.body);
                            quote!({ #b #a = #a + (#e); })
                        }
                        (None, Yield::One(v)) => quote!({ #a = #a + *#v; }),
                        _ => return None,
                    };
                    for f in c.filter.iter().rev() {
                        let b = bind(&f.inputs[0], y, true)?;
                        let e = rw.ex(&f.body);
                        val = quote!({ let __keep = { #b #e }; if __keep { #val } });
                    }
                    Some(val)
                };
                if let Src::Array(es) = &c.src {
                    if c.rev || c.take.is_some() {
                        return None;
                    }
                    let es: Vec<Expr> = es.iter().map(|e| self.ex(e)).collect();
                    // one variable per element, evaluated in the same order
                    let vs: Vec<Ident> = (0..es.len()).map(|i| format_ident!("{}_{}", s, i)).collect();
                    let mut out = quote!(#(let #vs = #es;)* let mut #a #ty = 0;);
                    for i in 0..es.len() {
                        let il = proc_macro2::Literal::usize_unsuffixed(i);
                        let v = &vs[i];
                        let e = quote!((&#v));
                        let y = if c.enumerate { Yield::Pair(quote!(#il), e) } else { Yield::One(e) };
                        out.extend(step(self, &y)?);
                        out.extend(self.hint(&format!("sumstep {i}")));
                    }
                    self.info.loops.push("unrolled".into());
                    return Some(Expr::Verbatim(quote!({ #out #a })));
                }
                let l = self.emit_loop(k, &c, None, step)?;
                Some(Expr::Verbatim(quote!({ let mut #a #ty = 0; #l #a })))
            }
            // ..map(f).collect() into a vector
            Expr::MethodCall(m) if m.method == "collect" && m.args.is_empty() && chain(&m.receiver, true).is_some_and(|c| c.map.is_some() && !matches!(c.src, Src::Array(_))) => {
                let c = chain(&m.receiver, true)?;
                let k = self.k;
                self.k += 1;
                let a = format_ident!("__a{}", k);
                let l = self.emit_loop(k, &c, None, |rw, y| {
                    let cl = c.map.as_ref()?;
                    let b = bind(&cl.inputs[0], y, false)?;
                    let e = rw.ex(&cl.body);
                    let mut val = quote!({ #b #a.push(#e); });
                    for f in c.filter.iter().rev() {
                        let b = bind(&f.inputs[0], y, true)?;
                        let e = rw.ex(&f.body);
                        val = quote!({ let __keep = { #b #e }; if __keep { #val } });
                    }
                    Some(val)
                })?;
                Some(Expr::Verbatim(quote!({ let mut #a = Vec::new(); #l #a })))
            }
            // it.fold(init, f) over an iterator held in a variable: what it does, one `next` at a time
            Expr::MethodCall(m) if m.method == "fold" && m.args.len() == 2 && matches!(strip(&m.receiver), Expr::Path(p) if p.path.get_ident().is_some()) => {
                let k = self.k;
                self.k += 1;
                let (a, it) = (format_ident!("__a{}", k), format_ident!("__it{}", k));
                let x = self.ex(&m.receiver);
                let d = self.ex(&m.args[0]);
                let step = match closure(&m.args[1]) {
                    Some(c) if c.inputs.len() == 2 => {
                        let b = self.ex(&c.body);
                        let (p, q) = (&c.inputs[0], &c.inputs[1]);
                        quote!({ let #p = #a; let #q = __v; #b })
                    }
                    Some(_) => return None,
                    None => {
                        let f = self.ex(&m.args[1]);
                        quote!(#f(#a, __v))
                    }
                };
                let inv = self.hint(&format!("loop {k}"));
                let (before, after) = (self.hint(&format!("before {k}")), self.hint(&format!("after {k}")));
                let (bh, eh) = (self.hint(&format!("body {k}")), self.hint(&format!("bodyend {k}")));
                self.info.loops.push("fold".into());
                Some(Expr::Verbatim(quote!({
                    let mut #a = #d;
                    let mut #it = #x;
                    #before
                    loop #inv {
                        #bh
                        match #it.next() {
                            Some(__v) => { #a = #step; }
                            None => { break; }
                        }
                        #eh
                    }
                    #after
                    #a
                })))
            }
            // it.find(p).map_or(d, f), it.position(p)[.map_or(d, f)]
            // s.find(|c: char| ..): the byte offset of the first such character
            Expr::MethodCall(m) if m.method == "find" && m.args.len() == 1 && char_closure(&m.args[0]).is_some() => {
                let cl = char_closure(&m.args[0])?;
                let p = match &cl.inputs[0] {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                let k = self.k;
                self.k += 1;
                let (f, s, i, n, j) = (format_ident!("__f{}", k), format_ident!("__s{}", k), format_ident!("__i{}", k), format_ident!("__n{}", k), format_ident!("__j{}", k));
                let x = self.ex(&m.receiver);
                let b = self.ex(&cl.body);
                let inv = self.hint(&format!("loop {k}"));
                let (before, after) = (self.hint(&format!("before {k}")), self.hint(&format!("after {k}")));
                let (bh, eh) = (self.hint(&format!("body {k}")), self.hint(&format!("bodyend {k}")));
                self.info.loops.push("chars".into());
                Some(Expr::Verbatim(quote!({
                    let #s = crate::shim::str_char_indices(#x);
                    let #n: usize = #s.len();
                    let mut #i: usize = 0;
                    let mut #f: Option<usize> = None;
                    #before
                    while #i < #n && #f.is_none() #inv {
                        let #j: usize = #i;
                        #i = #i + 1;
                        #bh
                        let #p: char = #s[#j].1;
                        let __hit = { #b };
                        if __hit { #f = Some(#s[#j].0); }
                        #eh
                    }
                    #after
                    #f
                })))
            }
            Expr::MethodCall(m) if (m.method == "find" || m.method == "position") && m.args.len() == 1 => {
                let c = chain(&m.receiver, true)?;
                let cl = closure(&m.args[0])?;
                if !c.filter.is_empty() || c.map.is_some() || matches!(c.src, Src::Mut(_) | Src::Range(..) | Src::Array(_)) {
                    return None;
                }
                let find = m.method == "find";
                let k = self.k;
                self.k += 1;
                let (f, s) = (format_ident!("__f{}", k), format_ident!("__s{}", k));
                let i = format_ident!("__i{}", k);
                let j = format_ident!("__j{}", k);
                let Src::Shared(x) = &c.src else { return None };
                let x2 = self.ex(x);
                let l = self.emit_loop(k, &c, Some(quote!(#f.is_none())), |rw, y| {
                    // position takes the item by value, find by reference
                    let b = bind(&cl.inputs[0], y, find)?;
                    let e = rw.ex(&cl.body);
                    let v = if find { quote!(#j) } else { quote!((#i - 1)) };
                    Some(quote!(let __hit = { #b #e }; if __hit { #f = Some(#v); }))
                })?;
                let res = if find {
                    let item = if c.enumerate { quote!((__j, &#s[__j])) } else { quote!(&#s[__j]) };
                    quote!(match #f { Some(__j) => { let #s = crate::shim::IterSrc::iter_src(&#x2); Some(#item) }, None => None })
                } else {
                    quote!(#f)
                };
                Some(Expr::Verbatim(quote!({ let mut #f: Option<usize> = None; #l #res })))
            }
            _ => None,
        }
    }
}

impl VisitMut for Rw<'_> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        map_path(p);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut stmts = std::mem::take(&mut b.stmts);
        inline_closures(&mut stmts);
        for mut s in stmts {
            match &mut s {
                Stmt::Item(Item::Fn(f)) => {
                    let key = format!("{}::{}", self.key, f.sig.ident);
                    let ts = do_fn(self.cx, &key, &self.selfty.clone(), f.sig.clone(), Some((*f.block).clone()), false);
                    b.stmts.push(Stmt::Item(Item::Verbatim(ts)));
                }
                Stmt::Item(Item::Const(c)) => {
                    if inline_const(&c.ty) {
                        continue;
                    }
                    let key = format!("{}::{}", self.key, c.ident);
                    let ts = do_const(self.cx, &key, c.ident.to_string(), &c.ty, &c.expr, "");
                    b.stmts.push(Stmt::Item(Item::Verbatim(ts)));
                }
                Stmt::Item(Item::Use(u)) => {
                    let v = do_use(self.cx, "", u);
                    b.stmts.push(Stmt::Item(Item::Verbatim(quote!(#(#v)*))));
                }
                // `let kind = ::core::panicking::AssertKind::Eq;` of `assert_eq!`
                Stmt::Local(Local { init: Some(i), .. }) if matches!(&*i.expr, Expr::Path(p) if quote!(#p).to_string().contains("panicking :: AssertKind")) => {}
                // `let _: AssertParamIsClone<T>;`
                Stmt::Local(Local { init: None, pat: Pat::Type(t), .. }) if matches!(*t.pat, Pat::Wild(_)) => {}
                _ => {
                    self.visit_stmt_mut(&mut s);
                    b.stmts.push(s);
                }
            }
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // pre-order
        if let Some(n) = self.try_chain(e) {
            *e = n;
            return;
        }
        match e {
            Expr::Path(p) => {
                let name = last_seg(&p.path);
                if let Some(q) = &p.qself {
                    if name == "try_from" && matches!(*q.ty, Type::Array(_)) {
                        let t = &q.ty;
                        *e = parse_quote!(crate::shim::TryIntoSh::<#t>::try_into_sh);
                        return;
                    }
                }
                if p.qself.is_none() {
                    if let Some(v) = self.cx.consts.get(&name) {
                        if p.path.segments.len() == 1 || name.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_') {
                            let distinct: BTreeSet<&String> = v.iter().map(|x| &x.0).collect();
                            if distinct.len() == 1 {
                                *e = v[0].1.clone();
                                self.visit_expr_mut(e);
                                return;
                            }
                        }
                    }
                    if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                        if let Some(l) = self.cx.lifted.get(&name) {
                            let l = format_ident!("{}", l);
                            *e = parse_quote!(#l);
                            return;
                        }
                    }
                    if p.path.segments.len() == 2 {
                        let (a, b) = (p.path.segments[0].ident.to_string(), name.clone());
                        if a == "OffsetDateTime" && b == "UNIX_EPOCH" {
                            *e = parse_quote!(crate::shim_time::unix_epoch());
                            return;
                        }
                        if b == "try_from" && matches!(a.as_str(), "u8" | "u16" | "u32" | "u64" | "u128" | "usize" | "i8" | "i16" | "i32" | "i64" | "i128" | "isize") {
                            let t = &p.path.segments[0];
                            *e = parse_quote!(crate::shim::TryIntoSh::<#t>::try_into_sh);
                            return;
                        }
                        if b.ends_with("_le_bytes") || b.ends_with("_be_bytes") {
                            let n = format_ident!("{}_{}", a, b);
                            *e = parse_quote!(crate::shim::#n);
                            return;
                        }
                    }
                }
            }
            Expr::ForLoop(f) => {
                let k = self.k;
                self.k += 1;
                if let Some(c) = chain(&f.expr, false) {
                    if c.filter.is_empty() && c.map.is_none() {
                        let f = f.clone();
                        let out = self.emit_loop(k, &c, None, |rw, y| {
                            let b = bind(&f.pat, y, false)?;
                            let body = rw.bl(&f.body);
                            let st = &body.stmts;
                            Some(quote!(#b #(#st)*))
                        });
                        if let Some(o) = out {
                            *e = Expr::Verbatim(o);
                            return;
                        }
                    }
                }
                self.info.notes.push("unsupported for loop".into());
                self.info.loops.push("for?".into());
            }
            Expr::While(w) => {
                let k = self.k;
                self.k += 1;
                self.info.loops.push("while".into());
                let cond = self.ex(&w.cond);
                let inv = self.hint(&format!("loop {k}"));
                let (before, after) = (self.hint(&format!("before {k}")), self.hint(&format!("after {k}")));
                let (bh, eh) = (self.hint(&format!("body {k}")), self.hint(&format!("bodyend {k}")));
                let b = self.bl(&w.body);
                let st = &b.stmts;
                *e = Expr::Verbatim(if before.is_empty() && after.is_empty() {
                    quote!(while #cond #inv { #bh #(#st)* #eh })
                } else {
                    quote!({ #before while #cond #inv { #bh #(#st)* #eh } #after })
                });
                return;
            }
            Expr::Loop(_) => {
                self.k += 1;
                self.info.loops.push("loop".into());
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        // post-order
        match e {
            Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) => *e = bytes_expr(&b.value()),
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = squash(&p.path);
                    self.info.callees.insert(last_seg(&p.path));
                    if n.contains("panicking::") {
                        *e = parse_quote!(crate::shim::panic_());
                    } else if n.ends_with("fmt::format") {
                        *e = parse_quote!(crate::shim::any_string());
                    } else if n.ends_with("box_assume_init_into_vec_unsafe") {
                        if let Some(Expr::Call(i)) = c.args.first() {
                            if i.args.len() == 2 {
                                let a = i.args[1].clone();
                                *e = parse_quote!(crate::shim::vec_of(#a));
                            }
                        }
                    } else if last_seg(&p.path) == "with_capacity" && n.contains("Vec") {
                        let a = &c.args;
                        // room for as many as there already are of something
                        let of = matches!(a.first(), Some(Expr::MethodCall(m)) if m.method == "len" && matches!(&*m.receiver, Expr::Path(_) | Expr::Field(_)));
                        *e = if of { parse_quote!(crate::shim::vec_with_capacity_of(#a)) } else { parse_quote!(crate::shim::vec_with_capacity(#a)) };
                    } else if p.path.segments.len() == 2
                        && last_seg(&p.path) == "from"
                        && matches!(c.args.first(), Some(Expr::MethodCall(m)) if m.method == "as_bytes")
                        && self.cx.contracts.fns.keys().any(|k| k.ends_with(&format!("<{} as From<&[u8]>>::from", p.path.segments[0].ident)))
                    {
                        let (t, a) = (&p.path.segments[0], &c.args);
                        *e = parse_quote!(#t::from_slice_sh(#a));
                    } else if p.path.segments.len() == 2
                        && last_seg(&p.path) == "from"
                        && self.cx.contracts.fns.keys().any(|k| k.ends_with(&format!("<{} as From<&str>>::from", p.path.segments[0].ident)))
                    {
                        let (t, a) = (&p.path.segments[0], &c.args);
                        *e = parse_quote!(#t::from_str_sh(#a));
                    } else if n.ends_with("vec::from_elem") {
                        let a = &c.args;
                        *e = parse_quote!(crate::shim::vec_from_elem(#a));
                    } else if n.ends_with("Ratio::from_float") || n == "Ratio::from_float" {
                        if let Some(Expr::Lit(ExprLit { lit: Lit::Float(f), .. })) = c.args.first() {
                            // the number the compiler makes of the literal, exactly
                            let v: f64 = f.base10_parse().unwrap();
                            let bits = v.to_bits();
                            let (ex, mut m) = ((bits >> 52) as i64 - 1075, (bits & ((1 << 52) - 1)) | 1 << 52);
                            let mut d = -ex;
                            while d > 0 && m % 2 == 0 {
                                m /= 2;
                                d -= 1;
                            }
                            if v > 0.0 && v.is_normal() && (0..128).contains(&d) {
                                let d = 1u128 << d;
                                *e = parse_quote!(crate::shim::num_rational::ratio_of_f64(#m, #d));
                            }
                        }
                    }
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (str_lit(&b.left).is_some() || str_lit(&b.right).is_some()) => {
                let (x, l) = match str_lit(&b.right) {
                    Some(l) => (&b.left, l),
                    None => (&b.right, str_lit(&b.left).unwrap()),
                };
                let cs: Vec<char> = l.chars().collect();
                *e = if matches!(b.op, BinOp::Eq(_)) { parse_quote!(crate::shim::str_is(#x, &[#(#cs),*])) } else { parse_quote!((!crate::shim::str_is(#x, &[#(#cs),*]))) };
            }
            Expr::Match(m) if m.arms.iter().any(|a| matches!(&a.pat, Pat::Lit(l) if matches!(l.lit, Lit::Str(_)))
                || matches!(&a.pat, Pat::Ident(i) if self.cx.consts.get(&i.ident.to_string()).is_some_and(|v| matches!(&v[0].1, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }))))) && m.arms.iter().all(|a| a.guard.is_none()) => {
                let x = quote!(__m);
                let mut out: Option<TokenStream> = None;
                let mut ok = true;
                for a in m.arms.iter().rev() {
                    let body = &a.body;
                    match (str_pat(&a.pat, &x, &self.cx.consts), out.take()) {
                        (Some(None), None) => out = Some(quote!({ #body })),
                        (Some(Some(c)), Some(o)) => out = Some(quote!({ if #c { #body } else #o })),
                        _ => {
                            ok = false;
                            break;
                        }
                    }
                }
                if let (true, Some(o)) = (ok, out) {
                    let s = &m.expr;
                    *e = Expr::Verbatim(quote!({ let __m: &str = #s; #o }));
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && sliced(&b.left) && sliced(&b.right) => {
                let (x, y) = (&b.left, &b.right);
                *e = if matches!(b.op, BinOp::Eq(_)) { parse_quote!(crate::shim_text::slice_eq(&#x, &#y)) } else { parse_quote!((!crate::shim_text::slice_eq(&#x, &#y))) };
            }
            Expr::Binary(b) if !matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_)) => {
                // arithmetic on `&u64`
                for x in [&mut b.left, &mut b.right] {
                    if let Expr::Path(p) = &**x {
                        if p.path.get_ident().map_or(false, |i| self.refs.contains(&i.to_string())) {
                            **x = parse_quote!((*#p));
                        }
                    }
                }
            }
            Expr::Repeat(r) => {
                let (x, n) = (&r.expr, &r.len);
                *e = parse_quote!(crate::shim::arr_fill::<_, { #n }>(#x));
            }
            Expr::Reference(r) if r.mutability.is_some() => {
                if let Some(s) = self.range_mut(&r.expr) {
                    *e = s;
                }
            }
            Expr::MethodCall(m) if m.method == "copy_from_slice" && m.args.len() == 1 => {
                let a = &m.args[0];
                *e = match self.range_mut(&m.receiver) {
                    Some(s) => parse_quote!(crate::shim::copy_from(#s, #a)),
                    None => {
                        let r = &m.receiver;
                        let r = self.place(r);
                        parse_quote!(crate::shim::copy_from(&mut #r, #a))
                    }
                };
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                self.info.callees.insert(n.clone());
                let recv = (*m.receiver).clone();
                let closure0 = m.args.first().and_then(closure);
                match (n.as_str(), m.args.len()) {
                    ("as_bytes" | "as_ref", 0) => {
                        if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = strip(&recv) {
                            *e = bytes_expr(s.value().as_bytes());
                        } else if let Expr::Reference(r) = strip(&recv) {
                            if matches!(*r.expr, Expr::Array(_)) {
                                *e = recv;
                                return;
                            }
                            if n == "as_ref" {
                                m.method = format_ident!("as_ref_sh");
                            }
                        } else if n == "as_ref" {
                            m.method = format_ident!("as_ref_sh");
                        }
                    }
                    ("try_into", 0) => m.method = format_ident!("try_into_sh"),
                    ("to_le_bytes" | "to_be_bytes", 0) => m.method = format_ident!("sia_{}", n),
                    ("parse", 0) if m.turbofish.as_ref().map_or(false, |t| squash(&t.args) == "u128") => {
                        *e = parse_quote!(crate::shim::str_parse_u128(#recv));
                    }
                    ("split_at", 1) => {
                        let a = &m.args[0];
                        *e = parse_quote!(crate::shim::str_split_at(#recv, #a));
                    }
                    ("collect", 0) => {
                        if let Expr::MethodCall(s) = strip(&recv) {
                            if s.method == "split" && s.args.len() == 1 && matches!(strip(&s.args[0]), Expr::Lit(ExprLit { lit: Lit::Char(_), .. })) {
                                let (x, c) = (&s.receiver, &s.args[0]);
                                *e = parse_quote!(crate::shim::str_split(#x, #c));
                            }
                        }
                    }
                    ("to_string", 0) => {
                        if let Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) = strip(&recv) {
                            *e = parse_quote!(crate::shim::lit_string(#recv));
                        }
                    }
                    ("map_err", 1) => {
                        let a = &m.args[0];
                        *e = if let Some(c) = closure0 {
                            let (p, b) = (&c.inputs[0], &c.body);
                            Expr::Verbatim(quote!(match #recv { Ok(__v) => Ok(__v), Err(#p) => Err(#b) }))
                        } else {
                            Expr::Verbatim(quote!(match #recv { Ok(__v) => Ok(__v), Err(__e) => Err(#a(__e)) }))
                        };
                    }
                    ("ok_or", 1) => {
                        let a = &m.args[0];
                        *e = Expr::Verbatim(quote!({ let __d = #a; match #recv { Some(__v) => Ok(__v), None => Err(__d) } }));
                    }
                    ("split_once", 1) if matches!(strip(&m.args[0]), Expr::Lit(ExprLit { lit: Lit::Char(_), .. })) => {
                        let a = &m.args[0];
                        *e = parse_quote!(crate::shim_text::str_split_once(#recv, #a));
                    }
                    ("write_fmt", 1) => {
                        if let Some(x) = write_fmt(&recv, &m.args[0], |x| self.ex(x)) {
                            *e = x;
                        }
                    }
                    ("into", 0) if sliced(&recv) && !self.selfty.is_empty() && self.cx.contracts.fns.keys().any(|k| k.ends_with(&format!("<{} as From<&[u8]>>::from", self.selfty))) => {
                        let t: Type = parse_str(&self.selfty).unwrap();
                        *e = parse_quote!(<#t>::from_slice_sh(&#recv));
                    }
                    ("ok_or_else", 1) => {
                        if let Some(c) = closure0 {
                            let b = &c.body;
                            *e = Expr::Verbatim(quote!(match #recv { Some(__v) => Ok(__v), None => Err(#b) }));
                        }
                    }
                    ("unwrap_or_else", 1) => {}
                    ("map_or", 2) => {
                        if let Some(c) = closure(&m.args[1]) {
                            let d = &m.args[0];
                            let (p, b) = (&c.inputs[0], &c.body);
                            *e = Expr::Verbatim(quote!(match #recv { Some(#p) => #b, None => #d }));
                        }
                    }
                    ("map", 1) => {
                        let a = &m.args[0];
                        *e = if let Some(c) = closure0 {
                            let (p, b) = (&c.inputs[0], &c.body);
                            Expr::Verbatim(quote!(match #recv { Some(#p) => Some(#b), None => None }))
                        } else {
                            Expr::Verbatim(quote!(match #recv { Some(__v) => Some(#a(__v)), None => None }))
                        };
                    }
                    _ => {}
                }
            }
            _ => {}
        }
    }
}


//! X10: serde's `Serialize`, as serde_json runs it.
//!
//! Hoists the derived impls out of their `const _`, instantiates `S: Serializer` with the JSON serializer
//! `shim_serde::Ser` (`S::Ok`, `S::Error` with its types), points serde's and serde_json's paths at
//! `shim_serde`, and turns the `__SerializeWith` wrapper of `#[serde(with = ..)]` into the call it makes.
use crate::*;

fn is_serialize(p: &Path) -> bool {
    last_seg(p) == "Serialize"
}

pub fn prepare(items: &mut Vec<Item>) {
    let mut out = vec![];
    for it in std::mem::take(items) {
        match it {
            Item::Mod(mut m) => {
                if let Some((_, items)) = &mut m.content {
                    prepare(items);
                }
                out.push(Item::Mod(m));
            }
            Item::Const(c) if c.ident == "_" => {
                if let Expr::Block(b) = &*c.expr {
                    for s in &b.block.stmts {
                        if let Stmt::Item(Item::Impl(im)) = s {
                            if im.trait_.as_ref().is_some_and(|t| is_serialize(&t.1)) {
                                let mut im = im.clone();
                                fix_impl(&mut im);
                                out.push(Item::Impl(im));
                            }
                        }
                    }
                }
                if let Some(im) = de::in_const(&c) {
                    out.push(Item::Impl(im));
                }
                out.push(Item::Const(c));
            }
            Item::Impl(mut im) => {
                if im.trait_.as_ref().is_some_and(|t| de::is_de(&t.1)) {
                    im.generics = Generics::default();
                    if let Some((_, p, _)) = &mut im.trait_ {
                        *p = parse_quote!(crate::shim_serde::Deserialize);
                    }
                    for i in &mut im.items {
                        if let ImplItem::Fn(f) = i {
                            de::hoist(&mut f.block, &mut out);
                            de::written(&mut f.sig, &mut f.block);
                        }
                    }
                }
                if im.trait_.as_ref().is_some_and(|t| is_serialize(&t.1)) {
                    fix_impl(&mut im);
                }
                out.push(Item::Impl(im));
            }
            Item::Fn(mut f) => {
                de::written(&mut f.sig, &mut f.block);
                mono(&mut f.sig, &mut f.block);
                out.push(Item::Fn(f));
            }
            o => out.push(o),
        }
    }
    *items = out;
}

fn fix_impl(im: &mut ItemImpl) {
    if let Some((_, p, _)) = &mut im.trait_ {
        *p = parse_quote!(crate::shim_serde::Serialize);
    }
    for i in &mut im.items {
        if let ImplItem::Fn(f) = i {
            mono(&mut f.sig, &mut f.block);
        }
    }
}

fn mono(sig: &mut Signature, block: &mut Block) {
    let serializer = |b: &punctuated::Punctuated<TypeParamBound, Token![+]>| b.iter().any(|b| matches!(b, TypeParamBound::Trait(t) if last_seg(&t.path) == "Serializer"));
    let mut name: Option<Ident> = None;
    for g in &sig.generics.params {
        if let GenericParam::Type(t) = g {
            if serializer(&t.bounds) {
                name = Some(t.ident.clone());
            }
        }
    }
    if let Some(w) = &sig.generics.where_clause {
        for p in &w.predicates {
            if let WherePredicate::Type(t) = p {
                if serializer(&t.bounds) {
                    if let Type::Path(p) = &t.bounded_ty {
                        name = p.path.get_ident().cloned();
                    }
                }
            }
        }
    }
    // `impl Serializer` as the parameter's type
    let mut implicit = false;
    for a in &mut sig.inputs {
        if let FnArg::Typed(t) = a {
            if let Type::ImplTrait(i) = &*t.ty {
                if serializer(&i.bounds) {
                    t.ty = parse_quote!(crate::shim_serde::Ser);
                    implicit = true;
                }
            }
        }
    }
    let Some(name) = name else {
        let _ = implicit;
        return;
    };
    sig.generics.params = sig.generics.params.iter().filter(|g| !matches!(g, GenericParam::Type(t) if t.ident == name)).cloned().collect();
    if sig.generics.params.is_empty() {
        sig.generics = Generics::default();
    } else if let Some(w) = &mut sig.generics.where_clause {
        w.predicates = w.predicates.iter().filter(|p| !matches!(p, WherePredicate::Type(t) if serializer(&t.bounds))).cloned().collect();
    }
    let mut m = Mono(name);
    m.visit_signature_mut(sig);
    m.visit_block_mut(block);
}

struct Mono(Ident);

impl VisitMut for Mono {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let s: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let l = s.last().unwrap().as_str();
        if p.segments[0].ident == self.0 {
            match s.len() {
                1 => *p = parse_quote!(crate::shim_serde::Ser),
                2 if l == "Ok" => *p = parse_quote!(crate::shim_serde::Out),
                2 if l == "Error" => *p = parse_quote!(crate::shim_serde::Error),
                3 if s[1] == "Error" && l == "custom" => *p = parse_quote!(crate::shim_serde::custom),
                _ => {}
            }
            return;
        }
        let n = s.len();
        let serde = matches!(s[0].as_str(), "serde" | "_serde" | "serde_json");
        if l == "custom" && n >= 2 && s[n - 2] == "Error" {
            *p = parse_quote!(crate::shim_serde::custom);
        } else if serde && n >= 3 && s[1] == "__private" {
            let seg = p.segments.last().unwrap().clone();
            *p = parse_quote!(#seg);
        } else if n >= 2 && s[n - 2] == "Serializer" {
            let seg = p.segments.last().unwrap().clone();
            *p = parse_quote!(crate::shim_serde::Ser::#seg);
        } else if n >= 2 && matches!(s[n - 2].as_str(), "SerializeStruct" | "SerializeSeq" | "SerializeTupleVariant") {
            let (t, seg) = (format_ident!("Ser{}", &s[n - 2][9..]), p.segments.last().unwrap().clone());
            *p = parse_quote!(crate::shim_serde::#t::#seg);
        } else if s[0] == "serde_json" && n >= 2 {
            let mut q: Path = parse_quote!(crate::shim_serde);
            for s in p.segments.iter().skip(1) {
                let mut s = s.clone();
                if s.ident == "Map" {
                    s.ident = format_ident!("Map_");
                }
                q.segments.push(s);
            }
            *p = q;
        } else if n == 2 && (s[0] == "Value" || s[0] == "Serialize") {
            let mut q: Path = parse_quote!(crate::shim_serde);
            q.segments.extend(p.segments.iter().cloned());
            *p = q;
        } else if serde && n == 2 && l == "Serialize" {
            *p = parse_quote!(crate::shim_serde::Serialize);
        } else if s[n.saturating_sub(2).max(0)..].join("::") == "rfc3339::serialize" {
            *p = parse_quote!(crate::shim_serde::rfc3339_serialize);
        } else if l == "Rfc3339" {
            *p = parse_quote!(crate::shim_serde::Rfc3339);
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // serialize_field(state, key, { struct __SerializeWith..; impl..; &__SerializeWith { values: (x,), .. } })
        if let Expr::Call(c) = e {
            if c.args.len() == 3 {
                if let Expr::Block(b) = &c.args[2] {
                    if let Some((f, arg)) = with(&b.block) {
                        let (st, k) = (c.args[0].clone(), c.args[1].clone());
                        let mut f = f;
                        self.visit_expr_mut(&mut f);
                        *e = parse_quote!(crate::shim_serde::SerStruct::field_out(#st, #k, #f(#arg, crate::shim_serde::Ser::nested())?));
                        return;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Cast(c) => {
                if let Expr::Lit(ExprLit { lit: Lit::Bool(b), .. }) = &*c.expr {
                    let n = b.value as usize;
                    *e = parse_quote!(#n);
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if let Expr::Path(p) = &*m.receiver {
                    if last_seg(&p.path) == "STANDARD" && n == "encode" {
                        let a = &m.args[0];
                        *e = parse_quote!(crate::shim_serde::b64_encode(#a));
                        return;
                    }
                }
                if n == "format" && m.args.len() == 1 {
                    let (r, a) = (&m.receiver, &m.args[0]);
                    *e = parse_quote!(crate::shim_serde::time_format(#r, #a));
                    return;
                }
                if n == "to_string" && m.args.is_empty() {
                    let r = &m.receiver;
                    *e = parse_quote!(crate::shim_serde::text_of(&#r));
                    return;
                }
                if n == "into" {
                    let mut r = &*m.receiver;
                    while let Expr::Paren(p) = r {
                        r = &p.expr;
                    }
                    if matches!(r, Expr::Lit(ExprLit { lit: Lit::Str(_), .. })) {
                        *e = parse_quote!(crate::shim::lit_string(#r));
                    }
                }
            }
            // match *self { A(ref x) => .. }  is  match self { A(x) => .. }
            Expr::Match(m) => {
                if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = &*m.expr {
                    if matches!(&**expr, Expr::Path(p) if p.path.is_ident("self")) {
                        struct R;
                        impl VisitMut for R {
                            fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
                                p.by_ref = None;
                            }
                        }
                        m.expr = expr.clone();
                        for a in &mut m.arms {
                            R.visit_pat_mut(&mut a.pat);
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

/// the function `#[serde(with)]` names, and what it is applied to
fn with(b: &Block) -> Option<(Expr, Expr)> {
    let mut f = None;
    for s in &b.stmts {
        match s {
            Stmt::Item(Item::Impl(im)) => {
                for i in &im.items {
                    if let ImplItem::Fn(x) = i {
                        if let Some(Stmt::Expr(Expr::Call(c), None)) = x.block.stmts.last() {
                            if x.block.stmts.len() == 1 {
                                f = Some((*c.func).clone());
                            }
                        }
                    }
                }
            }
            Stmt::Expr(Expr::Reference(r), None) => {
                if let Expr::Struct(st) = &*r.expr {
                    for v in &st.fields {
                        if let (Member::Named(n), Expr::Tuple(t)) = (&v.member, &v.expr) {
                            if n == "values" && t.elems.len() == 1 {
                                return Some((f?, t.elems[0].clone()));
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}

//! X11: serde's `Deserialize`, as serde_json runs it.
//!
//! A derived impl is recognised: from its field list the code serde_derive writes is regenerated and compared
//! token for token, and only then replaced by the same reading in terms of `shim_serde` (`MapAcc::take` for the
//! loop over the keys). In the others `D: Deserializer` becomes the JSON reader `shim_serde::De`, and a visitor is
//! inlined where it is handed to the reader: one arm for each `visit_*` it has. Error texts are dropped.
use crate::*;

fn norm(t: impl ToTokens) -> String {
    let mut s = squash(&t);
    loop {
        let n = s.replace(",}", "}").replace(",)", ")").replace("},", "}").replace(",]", "]");
        if n == s {
            return s;
        }
        s = n;
    }
}

pub fn is_de(p: &Path) -> bool {
    last_seg(p) == "Deserialize"
}

struct Field {
    key: String,
    name: Option<Ident>,
    ty: Type,
    with: Option<Expr>,
    default: bool,
}

/// the struct's name and fields of a derived impl
fn fields(f: &ImplItemFn) -> Option<(Ident, Vec<Field>)> {
    let stmts = &f.block.stmts;
    let mut keys = vec![];
    let mut map_fn = None;
    for s in stmts {
        match s {
            Stmt::Item(Item::Const(c)) if c.ident == "FIELDS" => {
                if let Expr::Reference(r) = &*c.expr {
                    if let Expr::Array(a) = &*r.expr {
                        for e in &a.elems {
                            let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = e else { return None };
                            keys.push(s.value());
                        }
                    }
                }
            }
            Stmt::Item(Item::Impl(im)) => {
                for i in &im.items {
                    if let ImplItem::Fn(g) = i {
                        if g.sig.ident == "visit_map" {
                            map_fn = Some(g.clone());
                        }
                    }
                }
            }
            _ => {}
        }
    }
    let m = map_fn?;
    let Some(Stmt::Expr(Expr::Call(ok), None)) = m.block.stmts.last() else { return None };
    let Expr::Struct(lit) = ok.args.first()? else { return None };
    let name = lit.path.get_ident()?.clone();
    if lit.rest.is_some() || lit.fields.len() != keys.len() {
        return None;
    }
    let mut out = vec![];
    for (i, fv) in lit.fields.iter().enumerate() {
        let Member::Named(n) = &fv.member else { return None };
        if squash(&fv.expr) != format!("__field{i}") {
            return None;
        }
        // let mut __fieldI: Option<T> = None;
        let Stmt::Local(l) = m.block.stmts.get(i)? else { return None };
        let Pat::Type(pt) = &l.pat else { return None };
        let Type::Path(tp) = &*pt.ty else { return None };
        let PathArguments::AngleBracketed(a) = &tp.path.segments.last()?.arguments else { return None };
        let GenericArgument::Type(ty) = a.args.first()? else { return None };
        // the last phase
        let Stmt::Local(l) = m.block.stmts.get(keys.len() + 1 + i)? else { return None };
        let Expr::Match(mm) = &*l.init.as_ref()?.expr else { return None };
        let default = squash(&mm.arms.get(1)?.body).ends_with("Default::default()");
        // the loop's arm
        let mut with = None;
        if let Stmt::Expr(Expr::While(w), _) = &m.block.stmts[keys.len()] {
            let Stmt::Expr(Expr::Match(mk), _) = w.body.stmts.first()? else { return None };
            struct W(Option<Expr>);
            impl<'a> syn::visit::Visit<'a> for W {
                fn visit_expr_struct(&mut self, s: &'a ExprStruct) {
                    if s.path.is_ident("__DeserializeWith") {
                        if let Expr::Try(t) = &s.fields[0].expr {
                            if let Expr::Call(c) = &*t.expr {
                                self.0 = Some((*c.func).clone());
                            }
                        }
                    }
                    syn::visit::visit_expr_struct(self, s);
                }
            }
            let mut w = W(None);
            syn::visit::Visit::visit_arm(&mut w, mk.arms.get(i)?);
            with = w.0;
        }
        out.push(Field { key: keys[i].clone(), name: Some(n.clone()), ty: ty.clone(), with, default });
    }
    Some((name, out))
}

/// what serde_derive writes for them
fn expected(name: &Ident, fs: &[Field]) -> TokenStream {
    let n = fs.len();
    let id = |i: usize| format_ident!("__field{}", i);
    let ids: Vec<Ident> = (0..n).map(id).collect();
    let keys: Vec<&String> = fs.iter().map(|f| &f.key).collect();
    let bkeys: Vec<LitByteStr> = keys.iter().map(|k| LitByteStr::new(k.as_bytes(), Span::call_site())).collect();
    let nums: Vec<LitInt> = (0..n).map(|i| LitInt::new(&format!("{i}u64"), Span::call_site())).collect();
    let sname = name.to_string();
    let expect = format!("struct {name}");
    let with = |f: &Field, w: &Expr| {
        let ty = &f.ty;
        quote!(#[doc(hidden)]
            struct __DeserializeWith<'de> {
                value: #ty,
                phantom: _serde::__private::PhantomData<#name>,
                lifetime: _serde::__private::PhantomData<&'de ()>,
            }
            #[automatically_derived]
            impl<'de> _serde::Deserialize<'de> for __DeserializeWith<'de> {
                fn deserialize<__D>(__deserializer: __D) -> _serde::__private::Result<Self, __D::Error> where __D: _serde::Deserializer<'de> {
                    _serde::__private::Ok(__DeserializeWith {
                        value: #w(__deserializer)?,
                        phantom: _serde::__private::PhantomData,
                        lifetime: _serde::__private::PhantomData,
                    })
                }
            })
    };
    let (mut seq, mut decl, mut arms, mut fin) = (vec![], vec![], vec![], vec![]);
    for (i, f) in fs.iter().enumerate() {
        let (v, ty, key) = (&ids[i], &f.ty, &f.key);
        let ilit = LitInt::new(&format!("{i}usize"), Span::call_site());
        let el = format!("struct {name} with {n} element{}", if n == 1 { "" } else { "s" });
        let none = if f.default { quote!(_serde::__private::Default::default()) } else { quote!(return _serde::__private::Err(_serde::de::Error::invalid_length(#ilit, &#el))) };
        let get = match &f.with {
            None => quote!(_serde::de::SeqAccess::next_element::<#ty>(&mut __seq)?),
            Some(w) => {
                let d = with(f, w);
                quote!({ #d _serde::__private::Option::map(_serde::de::SeqAccess::next_element::<__DeserializeWith<'de>>(&mut __seq)?, |__wrap| __wrap.value) })
            }
        };
        seq.push(quote!(let #v = match #get { _serde::__private::Some(__value) => __value, _serde::__private::None => #none, };));
        decl.push(quote!(let mut #v: _serde::__private::Option<#ty> = _serde::__private::None;));
        let get = match &f.with {
            None => quote!(_serde::de::MapAccess::next_value::<#ty>(&mut __map)?),
            Some(w) => {
                let d = with(f, w);
                quote!({ #d match _serde::de::MapAccess::next_value::<__DeserializeWith<'de>>(&mut __map) {
                    _serde::__private::Ok(__wrapper) => __wrapper.value,
                    _serde::__private::Err(__err) => { return _serde::__private::Err(__err); }
                } })
            }
        };
        arms.push(quote!(__Field::#v => {
            if _serde::__private::Option::is_some(&#v) {
                return _serde::__private::Err(<__A::Error as _serde::de::Error>::duplicate_field(#key));
            }
            #v = _serde::__private::Some(#get);
        }));
        let none = match (f.default, &f.with) {
            (true, _) => quote!(_serde::__private::Default::default()),
            (false, None) => quote!(_serde::__private::de::missing_field(#key)?),
            (false, Some(_)) => quote!(return _serde::__private::Err(<__A::Error as _serde::de::Error>::missing_field(#key))),
        };
        fin.push(quote!(let #v = match #v { _serde::__private::Some(#v) => #v, _serde::__private::None => #none, };));
    }
    let names: Vec<&Ident> = fs.iter().map(|f| f.name.as_ref().unwrap()).collect();
    let lit = quote!(_serde::__private::Ok(#name { #(#names: #ids,)* }));
    quote!(fn deserialize<__D>(__deserializer: __D) -> _serde::__private::Result<Self, __D::Error> where __D: _serde::Deserializer<'de> {
        #[allow(non_camel_case_types)]
        #[doc(hidden)]
        enum __Field { #(#ids,)* __ignore, }
        #[doc(hidden)]
        struct __FieldVisitor;
        #[automatically_derived]
        impl<'de> _serde::de::Visitor<'de> for __FieldVisitor {
            type Value = __Field;
            fn expecting(&self, __formatter: &mut _serde::__private::Formatter) -> _serde::__private::fmt::Result {
                _serde::__private::Formatter::write_str(__formatter, "field identifier")
            }
            fn visit_u64<__E>(self, __value: u64) -> _serde::__private::Result<Self::Value, __E> where __E: _serde::de::Error {
                match __value { #(#nums => _serde::__private::Ok(__Field::#ids),)* _ => _serde::__private::Ok(__Field::__ignore), }
            }
            fn visit_str<__E>(self, __value: &str) -> _serde::__private::Result<Self::Value, __E> where __E: _serde::de::Error {
                match __value { #(#keys => _serde::__private::Ok(__Field::#ids),)* _ => { _serde::__private::Ok(__Field::__ignore) } }
            }
            fn visit_bytes<__E>(self, __value: &[u8]) -> _serde::__private::Result<Self::Value, __E> where __E: _serde::de::Error {
                match __value { #(#bkeys => _serde::__private::Ok(__Field::#ids),)* _ => { _serde::__private::Ok(__Field::__ignore) } }
            }
        }
        #[automatically_derived]
        impl<'de> _serde::Deserialize<'de> for __Field {
            #[inline]
            fn deserialize<__D>(__deserializer: __D) -> _serde::__private::Result<Self, __D::Error> where __D: _serde::Deserializer<'de> {
                _serde::Deserializer::deserialize_identifier(__deserializer, __FieldVisitor)
            }
        }
        #[doc(hidden)]
        struct __Visitor<'de> {
            marker: _serde::__private::PhantomData<#name>,
            lifetime: _serde::__private::PhantomData<&'de ()>,
        }
        #[automatically_derived]
        impl<'de> _serde::de::Visitor<'de> for __Visitor<'de> {
            type Value = #name;
            fn expecting(&self, __formatter: &mut _serde::__private::Formatter) -> _serde::__private::fmt::Result {
                _serde::__private::Formatter::write_str(__formatter, #expect)
            }
            #[inline]
            fn visit_seq<__A>(self, mut __seq: __A) -> _serde::__private::Result<Self::Value, __A::Error> where __A: _serde::de::SeqAccess<'de> {
                #(#seq)* #lit
            }
            #[inline]
            fn visit_map<__A>(self, mut __map: __A) -> _serde::__private::Result<Self::Value, __A::Error> where __A: _serde::de::MapAccess<'de> {
                #(#decl)*
                while let _serde::__private::Some(__key) = _serde::de::MapAccess::next_key::<__Field>(&mut __map)? {
                    match __key { #(#arms)* _ => { let _ = _serde::de::MapAccess::next_value::<_serde::de::IgnoredAny>(&mut __map)?; } }
                }
                #(#fin)* #lit
            }
        }
        #[doc(hidden)]
        const FIELDS: &'static [&'static str] = &[#(#keys),*];
        _serde::Deserializer::deserialize_struct(__deserializer, #sname, FIELDS, __Visitor {
            marker: _serde::__private::PhantomData::<#name>,
            lifetime: _serde::__private::PhantomData,
        })
    })
}

fn derived(f: &ImplItemFn) -> Option<TokenStream> {
    if let Some(b) = newtype(f) {
        return Some(b);
    }
    let (name, fs) = fields(f)?;
    if norm(expected(&name, &fs)) != norm(f) {
        if std::env::var("DEDIFF").is_ok() {
            eprintln!("{}\n{}\n", norm(expected(&name, &fs)), norm(f));
        }
        return None;
    }
    let (mut map, mut seq) = (quote!(), quote!());
    for (i, f) in fs.iter().enumerate() {
        let (v, ty, key) = (format_ident!("__field{}", i), &f.ty, &f.key);
        let path = f.with.clone().map(|w| if squash(&w).ends_with("rfc3339::deserialize") { parse_quote!(crate::shim_serde::rfc3339_deserialize) } else { w });
        let default = if squash(ty).starts_with("Vec<") {
            quote!(Vec::new())
        } else if squash(ty).starts_with("Option<") {
            quote!(None)
        } else if f.default {
            return None;
        } else {
            quote!()
        };
        let missing = match (f.default, &f.with) {
            (true, _) => default.clone(),
            (false, None) => quote!(crate::shim_serde::missing_field::<#ty>()?),
            (false, Some(_)) => quote!(return Err(crate::shim_serde::err())),
        };
        let short = if f.default { default } else { quote!(return Err(crate::shim_serde::err())) };
        match &path {
            None => {
                map.extend(quote!(let #v = match crate::shim_serde::MapAcc::take::<#ty>(&__map, #key)? { Some(__value) => __value, None => #missing };));
                seq.extend(quote!(let #v = match crate::shim_serde::SeqAcc::next_element::<#ty>(&mut __seq)? { Some(__value) => __value, None => #short };));
            }
            Some(w) => {
                map.extend(quote!(let #v: #ty = match crate::shim_serde::MapAcc::take_de(&__map, #key)? { Some(__d) => #w(__d)?, None => #missing };));
                seq.extend(quote!(let #v: #ty = match crate::shim_serde::SeqAcc::next_de(&mut __seq)? { Some(__d) => #w(__d)?, None => #short };));
            }
        }
    }
    let ids: Vec<Ident> = (0..fs.len()).map(|i| format_ident!("__field{}", i)).collect();
    let names: Vec<&Ident> = fs.iter().map(|f| f.name.as_ref().unwrap()).collect();
    let lit = quote!(#name { #(#names: #ids,)* });
    Some(quote!({ match crate::shim_serde::De::parse(__deserializer)? {
        crate::shim_serde::Shape::Map(__map) => { #map Ok(#lit) }
        crate::shim_serde::Shape::Seq(__s) => { let mut __seq = __s; #seq crate::shim_serde::SeqAcc::end(__seq)?; Ok(#lit) }
        _ => Err(crate::shim_serde::err()),
    } }))
}

/// a derived impl of `struct T(U);`
fn newtype(f: &ImplItemFn) -> Option<TokenStream> {
    let Some(Stmt::Expr(Expr::Call(c), None)) = f.block.stmts.last() else { return None };
    if squash(&c.func) != "_serde::Deserializer::deserialize_newtype_struct" || !squash(c.args.first()?).eq("__deserializer") {
        return None;
    }
    for s in &f.block.stmts {
        if let Stmt::Item(Item::Impl(im)) = s {
            for i in &im.items {
                if let ImplItem::Fn(g) = i {
                    if g.sig.ident == "visit_newtype_struct" {
                        let b = &g.block;
                        let mut b: Block = parse_quote!({ let __e = __deserializer; #b });
                        struct P;
                        impl VisitMut for P {
                            fn visit_path_mut(&mut self, p: &mut Path) {
                                visit_mut::visit_path_mut(self, p);
                                let s = squash(&*p);
                                if s == "_serde::__private::Ok" {
                                    *p = parse_quote!(Ok);
                                }
                            }
                            fn visit_expr_mut(&mut self, e: &mut Expr) {
                                visit_mut::visit_expr_mut(self, e);
                                if let Expr::Path(ExprPath { qself: Some(q), path, .. }) = e {
                                    if squash(&*path) == "_serde::Deserialize::deserialize" {
                                        let t = &q.ty;
                                        *e = parse_quote!(<#t as crate::shim_serde::Deserialize>::deserialize);
                                    }
                                }
                            }
                        }
                        P.visit_block_mut(&mut b);
                        return Some(b.to_token_stream());
                    }
                }
            }
        }
    }
    None
}

/// derived structs and impls of a function's own, which go beside it
pub fn hoist(block: &mut Block, out: &mut Vec<Item>) {
    struct H<'a>(&'a mut Vec<Item>);
    impl VisitMut for H<'_> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            let mut names = vec![];
            for s in &b.stmts {
                if let Stmt::Item(Item::Const(c)) = s {
                    if c.ident == "_" {
                        if let Some(im) = in_const(c) {
                            names.push(squash(&im.self_ty));
                            self.0.push(Item::Impl(im));
                        }
                    }
                }
            }
            b.stmts.retain(|s| match s {
                Stmt::Item(Item::Const(c)) if c.ident == "_" => false,
                Stmt::Item(Item::Struct(t)) if names.contains(&t.ident.to_string()) => {
                    self.0.push(Item::Struct(t.clone()));
                    false
                }
                _ => true,
            });
        }
    }
    H(out).visit_block_mut(block);
}

/// the impl in a derive's `const _`
pub fn in_const(c: &ItemConst) -> Option<ItemImpl> {
    let Expr::Block(b) = &*c.expr else { return None };
    for s in &b.block.stmts {
        if let Stmt::Item(Item::Impl(im)) = s {
            if im.trait_.as_ref().is_some_and(|t| is_de(&t.1)) {
                let mut im = im.clone();
                im.generics = Generics::default();
                if let Some((_, p, _)) = &mut im.trait_ {
                    *p = parse_quote!(crate::shim_serde::Deserialize);
                }
                for i in &mut im.items {
                    if let ImplItem::Fn(f) = i {
                        let b = derived(f).unwrap_or_else(|| quote!({ __outside_reach() }));
                        f.block = syn::parse2(b).unwrap();
                        f.sig = parse_quote!(fn deserialize(__deserializer: crate::shim_serde::De) -> Result<Self, crate::shim_serde::Error>);
                    }
                }
                return Some(im);
            }
        }
    }
    None
}

/// a written `impl Deserialize`, or a function of `D: Deserializer`
pub fn written(sig: &mut Signature, block: &mut Block) {
    let is = |b: &punctuated::Punctuated<TypeParamBound, Token![+]>| b.iter().any(|b| matches!(b, TypeParamBound::Trait(t) if last_seg(&t.path) == "Deserializer"));
    let mut name: Option<Ident> = None;
    for g in &sig.generics.params {
        if let GenericParam::Type(t) = g {
            if is(&t.bounds) {
                name = Some(t.ident.clone());
            }
        }
    }
    for p in sig.generics.where_clause.iter().flat_map(|w| &w.predicates) {
        if let WherePredicate::Type(t) = p {
            if is(&t.bounds) {
                if let Type::Path(p) = &t.bounded_ty {
                    name = p.path.get_ident().cloned();
                }
            }
        }
    }
    let Some(name) = name else { return };
    sig.generics = Generics::default();
    // visitors
    let mut vis: HashMap<String, ItemImpl> = HashMap::new();
    for s in &block.stmts {
        if let Stmt::Item(Item::Impl(im)) = s {
            if im.trait_.as_ref().is_some_and(|t| last_seg(&t.1) == "Visitor") {
                vis.insert(squash(&im.self_ty), im.clone());
            }
        }
    }
    block.stmts.retain(|s| match s {
        Stmt::Item(Item::Impl(im)) => !vis.contains_key(&squash(&im.self_ty)),
        Stmt::Item(Item::Struct(t)) => !vis.contains_key(&t.ident.to_string()),
        _ => true,
    });
    let mut m = De { name, vis };
    m.visit_signature_mut(sig);
    m.visit_block_mut(block);
}

struct De {
    name: Ident,
    vis: HashMap<String, ItemImpl>,
}

fn custom(p: &Path) -> bool {
    let s: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    s.len() >= 2 && s[s.len() - 2] == "Error" && matches!(s.last().unwrap().as_str(), "custom" | "unknown_field" | "unknown_variant" | "missing_field" | "invalid_length" | "invalid_value" | "invalid_type" | "duplicate_field")
}

impl De {
    /// `match parse(d)? { .. }`, with an arm for each method of the visitor
    fn inline(&mut self, kind: &str, d: &Expr, v: &ItemImpl) -> Option<Expr> {
        let mut ms: HashMap<String, (Vec<Pat>, Block)> = HashMap::new();
        for i in &v.items {
            if let ImplItem::Fn(f) = i {
                let ps = f.sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { Some((*t.pat).clone()) } else { None }).collect();
                ms.insert(f.sig.ident.to_string(), (ps, f.block.clone()));
            }
        }
        let mut arms = quote!();
        for (m, shape, conv) in [
            ("visit_map", "Map", quote!(__x)),
            ("visit_seq", "Seq", quote!(__x)),
            ("visit_str", "Str", quote!(__x.as_str())),
            ("visit_u64", "U64", quote!(__x)),
            ("visit_i64", "I64", quote!(__x)),
            ("visit_f64", "F64", quote!(__x)),
            ("visit_bool", "Bool", quote!(__x)),
        ] {
            let hit = match kind {
                "deserialize_any" => true,
                "deserialize_map" => m == "visit_map",
                "deserialize_struct" => m == "visit_map" || m == "visit_seq",
                "deserialize_seq" | "deserialize_tuple" => m == "visit_seq",
                "deserialize_str" | "deserialize_string" => m == "visit_str",
                "deserialize_u64" => m == "visit_u64" || m == "visit_i64" || m == "visit_f64",
                _ => return None,
            };
            let Some((ps, b)) = ms.get(m) else { continue };
            if !hit || ps.len() != 1 {
                continue;
            }
            let p = &ps[0];
            let s = format_ident!("{}", shape);
            let body = if m == "visit_map" || m == "visit_seq" {
                let Pat::Ident(pi) = p else { return None };
                let (id, acc) = (&pi.ident, format_ident!("{}Acc", shape));
                quote!({ let mut #id = #conv; let __r: Result<Self, crate::shim_serde::Error> = #b; crate::shim_serde::#acc::end(#id)?; __r })
            } else {
                quote!({ let #p = #conv; #b })
            };
            arms.extend(quote!(crate::shim_serde::Shape::#s(__x) => #body));
        }
        if ["visit_string", "visit_borrowed_str", "visit_none", "visit_unit", "visit_some", "visit_newtype_struct", "visit_enum"].iter().any(|m| ms.contains_key(*m)) {
            return None;
        }
        let value = v.items.iter().find_map(|i| if let ImplItem::Type(t) = i { Some(t.ty.clone()) } else { None })?;
        let mut e: Expr = parse_quote!(match crate::shim_serde::De::parse(#d)? { #arms _ => Err(crate::shim_serde::err()) });
        struct V(Type);
        impl VisitMut for V {
            fn visit_type_mut(&mut self, t: &mut Type) {
                if squash(&*t) == "Self" {
                    *t = self.0.clone();
                } else {
                    visit_mut::visit_type_mut(self, t);
                }
            }
        }
        V(value).visit_expr_mut(&mut e);
        Some(e)
    }
}

impl VisitMut for De {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let s: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let n = s.len();
        if p.segments[0].ident == self.name {
            match n {
                1 => *p = parse_quote!(crate::shim_serde::De),
                2 if s[1] == "Error" => *p = parse_quote!(crate::shim_serde::Error),
                _ => {}
            }
        } else if s[0] == "serde_json" && n >= 2 {
            let mut q: Path = parse_quote!(crate::shim_serde);
            q.segments.extend(p.segments.iter().skip(1).cloned());
            *p = q;
        }
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        // `X.into_iter().map(|s| E).collect()` at the end, E a Result
        if let Some(Stmt::Expr(Expr::MethodCall(c), None)) = b.stmts.last() {
            if c.method == "collect" {
                if let Expr::MethodCall(m) = &*c.receiver {
                    if let (true, Some(Expr::Closure(cl)), Expr::MethodCall(it)) = (m.method == "map", m.args.first(), &*m.receiver) {
                        if it.method == "into_iter" && cl.inputs.len() == 1 {
                            let (src, p, body) = (&it.receiver, &cl.inputs[0], &cl.body);
                            let new: Block = parse_quote!({
                                let __src = #src;
                                let mut __out = Vec::new();
                                let mut __k: usize = 0;
                                while __k < __src.len() {
                                    let #p = &__src[__k];
                                    let __v = #body?;
                                    __out.push(__v);
                                    __k = __k + 1;
                                }
                                Ok(__out)
                            });
                            b.stmts.pop();
                            b.stmts.extend(new.stmts);
                        }
                    }
                }
            }
        }
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // texts of errors
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if custom(&p.path) {
                    *e = parse_quote!(crate::shim_serde::err());
                    return;
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            if n == "map_err" {
                let mut r = (*m.receiver).clone();
                self.visit_expr_mut(&mut r);
                *e = parse_quote!(crate::shim_serde::erase(#r));
                return;
            }
            if n == "ok_or" || n == "ok_or_else" {
                let mut r = (*m.receiver).clone();
                self.visit_expr_mut(&mut r);
                *e = parse_quote!(crate::shim_serde::need(#r));
                return;
            }
            if n.starts_with("deserialize_") {
                let v = m.args.last().and_then(|a| self.vis.get(&squash(a)).cloned());
                if let Some(v) = v {
                    let d = (*m.receiver).clone();
                    if let Some(mut x) = self.inline(&n, &d, &v) {
                        visit_mut::visit_expr_mut(self, &mut x);
                        *e = x;
                        return;
                    }
                }
            }
            if n == "decode" && m.args.len() == 1 {
                if let Expr::Path(p) = &*m.receiver {
                    if last_seg(&p.path) == "STANDARD" {
                        let a = &m.args[0];
                        let mut x: Expr = parse_quote!(crate::shim_serde::b64_decode(#a));
                        visit_mut::visit_expr_mut(self, &mut x);
                        *e = x;
                        return;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::While(w) => {
                if let Expr::Let(l) = &*w.cond {
                    if let Pat::TupleStruct(ts) = &*l.pat {
                        if last_seg(&ts.path) == "Some" && ts.elems.len() == 1 {
                            let (p, x, b) = (&ts.elems[0], &l.expr, &w.body);
                            *e = parse_quote!({ let mut __go = true; while __go { match #x { None => { __go = false; } Some(#p) => #b } } });
                        }
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let s = squash(&p.path);
                    if s == "Work::from_dec_str" {
                        let a = &c.args;
                        *e = parse_quote!(crate::shim_serde::work_from_dec(#a));
                    } else if s.ends_with("OffsetDateTime::parse") && c.args.len() == 2 && squash(&c.args[1]).ends_with("Rfc3339") {
                        let a = &c.args[0];
                        *e = parse_quote!(crate::shim_serde::time_parse(#a));
                    }
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if n == "strip_prefix" && m.args.len() == 1 {
                    let (r, a) = (&m.receiver, &m.args[0]);
                    *e = parse_quote!(crate::shim_serde::str_strip_prefix(#r.as_str(), #a));
                } else if n == "into_iter" && m.args.is_empty() {
                    let r = &m.receiver;
                    *e = parse_quote!(crate::shim_serde::vec_iter(#r));
                } else if n == "count_ones" && m.args.is_empty() {
                    let r = &m.receiver;
                    *e = parse_quote!(crate::shim_serde::count_ones(#r));
                }
            }
            _ => {}
        }
    }
}

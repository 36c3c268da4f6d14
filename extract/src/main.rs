//! Mechanical extraction of the functions under contract.
//!
//! Input: the compiler's own macro-expanded source of the crate (`rustc -Zunpretty=expanded`, so
//! `derive` and `macro_rules!` output is part of the text) and the contract files.
//! Output: one Verus file holding the code, rewritten only by the rules below, with the contracts
//! attached, plus a JSON map from output lines to functions.
//!
//! What the extraction drops or rewrites (all of it mechanical, nothing is decided per function):
//!   X1  attributes, doc comments, visibilities (everything becomes `pub`);
//!   X2  impls of traits outside `KEEP_TRAITS` (serde, Debug, Display, ...) and items named in a
//!       `@@ drop` section of the contract files;
//!   X3  paths into dependencies (`blake2b_simd::..`, `std::io::..`, ...) point at `crate::shim::..`;
//!   X4  `&str`/`&[u8]` constants and literals used as bytes become arrays of their bytes;
//!   X5  `for` loops over slices/ranges and the iterator chains listed in `chain` become `while`
//!       loops over an index, which is their definition;
//!   X6  `map_err`/`map_or`/`ok_or_else`/... with a closure literal become the `match` that defines
//!       them;
//!   X7  panics become a call whose precondition is `false`; `vec![..]`, `format!` become shim calls;
//!   X8  `as_ref`, `to_le_bytes`, `to_be_bytes`, `u64::from_le_bytes`, .. are renamed to shim
//!       functions carrying their contract;
//!   X9  constants whose initialiser is a block are lifted to module level `exec const`.
use proc_macro2::{Delimiter, Ident, Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

mod contracts;
mod rewrite;
mod de;
mod serde;
use contracts::*;

pub const KEEP_TRAITS: &[&str] = &[
    "SiaEncodable", "SiaDecodable", "V1SiaEncodable", "V1SiaDecodable", "From", "AsRef", "Deref", "DerefMut",
    "Add", "Sub", "Mul", "Div", "Rem", "Default", "Clone", "Copy", "PartialEq", "Eq", "PartialOrd", "Ord",
    "TryInto", "Drop", "Sum", "Display", "Serialize", "Deserialize",
];

pub fn squash(t: impl ToTokens) -> String {
    let s = t.to_token_stream().to_string();
    let mut out = String::new();
    let cs: Vec<char> = s.chars().collect();
    for (i, c) in cs.iter().enumerate() {
        if c.is_whitespace() {
            let p = if i > 0 { cs[i - 1] } else { ' ' };
            let n = if i + 1 < cs.len() { cs[i + 1] } else { ' ' };
            let w = |c: char| c.is_alphanumeric() || c == '_';
            if w(p) && w(n) {
                out.push(' ');
            }
        } else {
            out.push(*c);
        }
    }
    out
}

#[derive(Default)]
pub struct FnInfo {
    pub key: String,
    pub contracted: bool,
    pub external: bool,
    pub uncontracted: bool,
    pub loops: Vec<String>,
    pub used_hints: Vec<String>,
    pub callees: BTreeSet<String>,
    pub body: String,
    pub notes: Vec<String>,
}

pub struct Cx {
    pub contracts: Contracts,
    pub external: HashSet<String>,
    pub texts: Vec<String>,
    pub fns: Vec<FnInfo>,
    /// name -> (squashed initialiser -> expr) of inlined constants
    pub consts: HashMap<String, Vec<(String, Expr)>>,
    /// lifted constants: original name -> lifted name, scoped by (self type or fn)
    pub lifted: HashMap<String, String>,
    pub warnings: Vec<String>,
    pub used: BTreeSet<String>,
    /// names called from functions under contract (filled by the first of the two passes)
    pub called: Option<BTreeSet<String>>,
    /// items that were emitted
    pub defined: HashSet<String>,
    pub imports: Vec<Import>,
}

/// a `use` of the crate's own items: emitted only if what it names was
pub struct Import {
    modp: String,
    target: String,
    alias: String,
    text: usize,
    line: String,
}

impl Import {
    fn absolute(modp: &str, p: &[String]) -> String {
        let up = |m: &str| m.rsplit_once("::").map_or(String::new(), |(a, _)| a.to_string());
        let mut base = String::new();
        let mut i = 0;
        match p[0].as_str() {
            "crate" => i = 1,
            "self" => {
                base = modp.to_string();
                i = 1;
            }
            "super" => {
                base = modp.to_string();
                while p[i] == "super" {
                    base = up(&base);
                    i += 1;
                }
            }
            _ => base = modp.to_string(),
        }
        join(&base, &p[i..].join("::"))
    }
}

fn resolve_imports(cx: &mut Cx) {
    loop {
        let mut again = false;
        for im in &cx.imports {
            let ok = match im.target.strip_suffix("*") {
                Some(m) => { let m = m.trim_end_matches("::"); m.is_empty() || cx.defined.contains(m) }
                None => cx.defined.contains(&im.target) || im.target.is_empty(),
            };
            if ok && cx.texts[im.text].is_empty() {
                cx.texts[im.text] = im.line.clone();
                cx.defined.insert(join(&im.modp, &im.alias));
                if im.alias == "*" {
                    let pre = im.target.trim_end_matches('*').to_string();
                    let more: Vec<String> = cx.defined.iter().filter_map(|d| d.strip_prefix(&pre)).filter(|d| !d.contains("::")).map(|d| join(&im.modp, d)).collect();
                    cx.defined.extend(more);
                }
                again = true;
            }
        }
        if !again {
            break;
        }
    }
}

impl Cx {
    pub fn text(&mut self, s: &str) -> TokenStream {
        let n = self.texts.len();
        self.texts.push(s.to_string());
        let id = format_ident!("__TEXT_{}__", n);
        quote!(#id)
    }
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| squash(&a.meta).starts_with("cfg(test"))
}

fn last_seg(p: &Path) -> String {
    p.segments.last().unwrap().ident.to_string()
}

const SHIM_ROOTS: &[&str] = &["blake2b_simd", "time", "ed25519_dalek", "hex", "num_bigint", "num_rational", "num_traits", "bip39", "uint"];
const DROP_ROOTS: &[&str] = &["serde", "serde_json", "thiserror", "rayon", "serde_big_array", "base64", "sha2", "sia_derive"];

/// X3
pub fn map_path(p: &mut Path) {
    let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    if segs.is_empty() {
        return;
    }
    let pre = |p: &mut Path, skip: usize| {
        let rest: Vec<PathSegment> = p.segments.iter().skip(skip).cloned().collect();
        let mut np: Path = parse_quote!(crate::shim);
        for r in rest {
            np.segments.push(r);
        }
        *p = np;
    };
    if segs.len() >= 2 && (segs[0] == "std" || segs[0] == "core") && segs[1] == "io" {
        pre(p, 1);
        return;
    }
    if segs.len() >= 2 && SHIM_ROOTS.contains(&segs[0].as_str()) {
        pre(p, 0);
        return;
    }
    if segs.len() >= 2 && segs[segs.len() - 2] == "fmt" && matches!(last_seg(p).as_str(), "Display" | "Formatter" | "Result" | "Error") {
        let n = p.segments.last().unwrap().clone();
        let mut np: Path = parse_quote!(crate::shim_text);
        np.segments.push(n);
        *p = np;
        return;
    }
    if segs.len() >= 2 && segs[segs.len() - 2] == "str" && last_seg(p) == "from_utf8" {
        *p = parse_quote!(crate::shim_text::str_from_utf8);
        return;
    }
    if last_seg(p) == "TryInto" {
        let args = p.segments.last().unwrap().arguments.clone();
        let mut np: Path = parse_quote!(crate::shim::TryIntoSh);
        np.segments.last_mut().unwrap().arguments = args;
        *p = np;
    }
    if last_seg(p) == "AsRef" {
        let args = p.segments.last().unwrap().arguments.clone();
        let mut np: Path = parse_quote!(crate::shim::AsRefSh);
        np.segments.last_mut().unwrap().arguments = args;
        *p = np;
    }
    // `::core::clone::Clone::clone(..)` etc. lose the leading `::` (edition paths are the same)
}

fn flatten_use(t: &UseTree, pre: &mut Vec<String>, out: &mut Vec<(Vec<String>, Option<String>)>) {
    match t {
        UseTree::Path(p) => {
            pre.push(p.ident.to_string());
            flatten_use(&p.tree, pre, out);
            pre.pop();
        }
        UseTree::Name(n) => {
            let mut v = pre.clone();
            if n.ident != "self" {
                v.push(n.ident.to_string());
            }
            out.push((v, None));
        }
        UseTree::Rename(r) => {
            let mut v = pre.clone();
            if r.ident != "self" {
                v.push(r.ident.to_string());
            }
            out.push((v, Some(r.rename.to_string())));
        }
        UseTree::Glob(_) => {
            let mut v = pre.clone();
            v.push("*".into());
            out.push((v, None));
        }
        UseTree::Group(g) => {
            for i in &g.items {
                flatten_use(i, pre, out);
            }
        }
    }
}

fn do_use(cx: &mut Cx, modp: &str, u: &ItemUse) -> Vec<TokenStream> {
    let mut v = vec![];
    flatten_use(&u.tree, &mut vec![], &mut v);
    let mut out = vec![];
    for (mut p, r) in v {
        let root = p[0].clone();
        if DROP_ROOTS.contains(&root.as_str()) {
            continue;
        }
        let full = p.join("::");
        if cx.contracts.drops.contains(&format!("use {modp}::{full}"))
            || cx.contracts.drops.contains(&format!("use {full}"))
        {
            continue;
        }
        if (root == "std" || root == "core") && p.len() > 1 {
            match p[1].as_str() {
                "io" => {
                    p.splice(0..1, ["crate".to_string(), "shim".to_string()]);
                }
                "fmt" | "iter" | "str" => continue,
                _ => {}
            }
        } else if SHIM_ROOTS.contains(&root.as_str()) {
            p.splice(0..0, ["crate".to_string(), "shim".to_string()]);
        }
        // importing a module under its own name from itself
        let path: TokenStream = p.join("::").parse().unwrap();
        let vis = if matches!(u.vis, Visibility::Inherited) { quote!() } else { quote!(pub) };
        let root = p[0].as_str();
        if !matches!(root, "std" | "core" | "alloc" | "vstd") && !(p.len() > 1 && root == "crate" && matches!(p[1].as_str(), "shim" | "spec")) {
            let alias = r.clone().unwrap_or_else(|| p.last().unwrap().clone());
            let line = format!("#[allow(unused_imports)] {vis} use {path}{};", r.map_or(String::new(), |r| format!(" as {r}")));
            out.extend(std::iter::once(cx.text("")));
            let text = cx.texts.len() - 1;
            cx.imports.push(Import { modp: modp.into(), target: Import::absolute(modp, &p), alias, text, line });
            continue;
        }
        match r {
            Some(r) => {
                let r = format_ident!("{}", r);
                out.push(quote!(#[allow(unused_imports)] #vis use #path as #r;));
            }
            None => out.push(quote!(#[allow(unused_imports)] #vis use #path;)),
        }
    }
    out
}

/// is this constant inlined (X4)?
fn inline_const(ty: &Type) -> bool {
    matches!(ty, Type::Reference(_))
}

fn collect_consts(items: &[Item], cx: &mut Cx) {
    struct V<'a>(&'a mut Cx);
    impl<'ast> syn::visit::Visit<'ast> for V<'_> {
        fn visit_item_const(&mut self, c: &'ast ItemConst) {
            if inline_const(&c.ty) {
                self.0.consts.entry(c.ident.to_string()).or_default().push((squash(&c.expr), (*c.expr).clone()));
            }
        }
        fn visit_impl_item_const(&mut self, c: &'ast ImplItemConst) {
            if inline_const(&c.ty) {
                self.0.consts.entry(c.ident.to_string()).or_default().push((squash(&c.expr), c.expr.clone()));
            }
        }
    }
    let mut v = V(cx);
    for i in items {
        syn::visit::Visit::visit_item(&mut v, i);
    }
}

pub struct ClearVis;
impl VisitMut for ClearVis {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        map_path(p);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}

fn process_mod(cx: &mut Cx, modp: &str, items: Vec<Item>) -> TokenStream {
    let mut out = TokenStream::new();
    if let Some(t) = cx.contracts.uses.get(modp).cloned() {
        out.extend(cx.text(&t));
    }
    if let Some(t) = cx.contracts.mods.get(modp).cloned() {
        cx.used.insert(format!("mod {modp}"));
        out.extend(cx.text(&t));
    }
    for it in items {
        out.extend(process_item(cx, modp, it));
    }
    out
}

fn join(m: &str, n: &str) -> String {
    if m.is_empty() { n.to_string() } else { format!("{m}::{n}") }
}

fn process_item(cx: &mut Cx, modp: &str, it: Item) -> TokenStream {
    let name = match &it {
        Item::Mod(m) => Some(m.ident.to_string()),
        Item::Fn(f) => Some(f.sig.ident.to_string()),
        Item::Struct(s) => Some(s.ident.to_string()),
        Item::Enum(s) => Some(s.ident.to_string()),
        Item::Type(s) => Some(s.ident.to_string()),
        Item::Const(s) => Some(s.ident.to_string()),
        Item::Trait(s) => Some(s.ident.to_string()),
        _ => None,
    };
    let ts = process_item1(cx, modp, it);
    if let (Some(n), false) = (name, ts.is_empty()) {
        cx.defined.insert(join(modp, &n));
    }
    ts
}

fn process_item1(cx: &mut Cx, modp: &str, it: Item) -> TokenStream {
    match it {
        Item::Mod(m) => {
            if is_test(&m.attrs) {
                return quote!();
            }
            let name = m.ident.clone();
            let p = join(modp, &name.to_string());
            if cx.contracts.drops.contains(&format!("mod {p}")) {
                return quote!();
            }
            let Some((_, items)) = m.content else { return quote!() };
            let inner = process_mod(cx, &p, items);
            let group = if cx.contracts.light.contains(&p) { quote!(group_light) } else { quote!(group_spec) };
            quote!(pub mod #name { use vstd::prelude::*; #[allow(unused_imports)] use crate::shim::{IntBytes as _, AsRefSh as _, TryIntoSh as _}; #[allow(unused_imports)] use crate::shim_serde::{Serialize as _, Deserialize as _}; broadcast use crate::spec::#group; #inner })
        }
        Item::Use(u) => {
            let v = do_use(cx, modp, &u);
            quote!(#(#v)*)
        }
        Item::Fn(f) => {
            let key = join(modp, &f.sig.ident.to_string());
            if cx.contracts.drops.contains(&format!("fn {key}")) || is_test(&f.attrs) {
                return quote!();
            }
            rewrite::do_fn(cx, &key, "", f.sig, Some(*f.block), true)
        }
        Item::Struct(mut s) => {
            let key = join(modp, &s.ident.to_string());
            if cx.contracts.drops.contains(&format!("type {key}")) {
                return quote!();
            }
            ClearVis.visit_item_struct_mut(&mut s);
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            for f in s.fields.iter_mut() {
                f.vis = parse_quote!(pub);
                f.attrs.clear();
            }
            let pre = cx.contracts.types.get(&key).cloned().unwrap_or_default();
            let pre = cx.text(&pre);
            quote!(#pre #s)
        }
        Item::Enum(mut s) => {
            let key = join(modp, &s.ident.to_string());
            if cx.contracts.drops.contains(&format!("type {key}")) {
                return quote!();
            }
            ClearVis.visit_item_enum_mut(&mut s);
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            for v in s.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                }
            }
            let pre = cx.contracts.types.get(&key).cloned().unwrap_or_default();
            let pre = cx.text(&pre);
            quote!(#pre #s)
        }
        Item::Type(mut t) => {
            ClearVis.visit_item_type_mut(&mut t);
            t.attrs.clear();
            t.vis = parse_quote!(pub);
            // `std::result::Result` alias
            quote!(#t)
        }
        Item::Const(c) if c.ident == "_" => quote!(),
        Item::Const(c) => {
            let key = join(modp, &c.ident.to_string());
            if inline_const(&c.ty) || cx.contracts.drops.contains(&format!("const {key}")) {
                return quote!();
            }
            rewrite::do_const(cx, &key, c.ident.to_string(), &c.ty, &c.expr, "")
        }
        Item::Trait(mut t) => {
            let key = join(modp, &t.ident.to_string());
            if cx.contracts.drops.contains(&format!("trait {key}")) {
                return quote!();
            }
            t.attrs.clear();
            t.vis = parse_quote!(pub);
            let name = t.ident.clone();
            let mut body = TokenStream::new();
            if let Some(x) = cx.contracts.impls.get(&key).cloned() {
                cx.used.insert(format!("impl {key}"));
                body.extend(cx.text(&x));
            }
            for i in t.items {
                if let TraitItem::Fn(f) = i {
                    let k = format!("{key}::{}", f.sig.ident);
                    body.extend(rewrite::do_fn(cx, &k, "", f.sig, f.default, false));
                } else {
                    body.extend(i.to_token_stream());
                }
            }
            let sup = if t.supertraits.is_empty() { quote!() } else { let s = &t.supertraits; quote!(: #s) };
            let (ig, _, wc) = t.generics.split_for_impl();
            quote!(pub trait #name #ig #sup #wc { #body })
        }
        Item::Impl(im) => process_impl(cx, modp, im),
        Item::ExternCrate(_) | Item::Macro(_) | Item::Static(_) => quote!(),
        other => {
            cx.warnings.push(format!("dropped item in {modp}: {}", squash(&other).chars().take(80).collect::<String>()));
            quote!()
        }
    }
}

fn process_impl(cx: &mut Cx, modp: &str, mut im: ItemImpl) -> TokenStream {
    let selfty = squash(&im.self_ty);
    let (key, tr) = match &im.trait_ {
        Some((_, p, _)) => {
            let l = p.segments.last().unwrap().clone();
            let n = l.ident.to_string();
            if !KEEP_TRAITS.contains(&n.as_str()) {
                return quote!();
            }
            (join(modp, &format!("<{selfty} as {}>", squash(&l))), Some(n))
        }
        None => (join(modp, &selfty), None),
    };
    if cx.contracts.drops.contains(&format!("impl {key}")) {
        return quote!();
    }
    if let Some(t) = tr.as_deref() {
        // apart from the codec, trait impls are kept only with a contract
        let pre = format!("{key}::");
        if !t.contains("Encodable") && !t.contains("Decodable") && t != "Serialize" && t != "Deserialize" && t != "Copy" && !cx.contracts.impls.contains_key(&key)
            && !cx.contracts.fns.keys().any(|k| k.starts_with(&pre)) {
            return quote!();
        }
        if t == "Copy" {
            let clone_key = join(modp, &format!("<{selfty} as Clone>"));
            if !cx.contracts.impls.contains_key(&clone_key) {
                return quote!();
            }
        }
    }
    let codec = tr.as_deref().map_or(false, |t| t.contains("Encodable") || t.contains("Decodable") || t == "Serialize" || t == "Deserialize");
    let known = cx.contracts.impls.contains_key(&key);
    im.attrs.clear();
    let mut items = std::mem::take(&mut im.items);
    // the marker method of a derived Eq
    items.retain(|i| !matches!(i, ImplItem::Fn(f) if f.sig.ident == "assert_fields_are_eq"));
    // `Self::Error` -> its definition in this impl
    let assoc: HashMap<String, Type> = items.iter().filter_map(|i| if let ImplItem::Type(t) = i { Some((t.ident.to_string(), t.ty.clone())) } else { None }).collect();
    if !assoc.is_empty() {
        struct A(HashMap<String, Type>);
        impl VisitMut for A {
            fn visit_type_mut(&mut self, t: &mut Type) {
                if let Type::Path(p) = t {
                    if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                        if let Some(r) = self.0.get(&p.path.segments[1].ident.to_string()) {
                            *t = r.clone();
                            return;
                        }
                    }
                }
                visit_mut::visit_type_mut(self, t);
            }
        }
        let mut a = A(assoc);
        for i in items.iter_mut() {
            if let ImplItem::Fn(f) = i {
                a.visit_impl_item_fn_mut(f);
            }
        }
    }
    ClearVis.visit_item_impl_mut(&mut im);
    let mut body = TokenStream::new();
    let mut post = TokenStream::new();
    if let Some(t) = cx.contracts.impls.get(&key).cloned() {
        cx.used.insert(format!("impl {key}"));
        body.extend(cx.text(&t));
    } else if codec {
        // a codec the contracts do not know: it gets an unspecified meaning
        cx.warnings.push(format!("no contract for impl {key}"));
        let t = match tr.as_deref().unwrap() {
            "SiaEncodable" => "open spec fn enc(&self) -> Seq<u8> { arbitrary() }\n",
            "V1SiaEncodable" => "open spec fn enc1(&self) -> Seq<u8> { arbitrary() }\n",
            "Serialize" => "open spec fn jok(&self) -> bool { arbitrary() }\nopen spec fn json(&self) -> crate::shim_serde::J { arbitrary() }\n",
            "Deserialize" => "open spec fn de(d: crate::shim_serde::J) -> Option<Self> { arbitrary() }\nopen spec fn absent() -> Option<Self> { arbitrary() }\n",
            "SiaDecodable" => "open spec fn dec(b: Seq<u8>) -> Option<(Self, Seq<u8>)> { arbitrary() }\n",
            _ => "open spec fn dec1(b: Seq<u8>) -> Option<(Self, Seq<u8>)> { arbitrary() }\n",
        };
        body.extend(cx.text(t));
    }
    // associated constants first: they may be lifted
    let short = selfty.split('<').next().unwrap().to_string();
    for i in &items {
        if let ImplItem::Const(c) = i {
            if inline_const(&c.ty) || cx.contracts.drops.contains(&format!("const {key}::{}", c.ident)) {
                continue;
            }
            if matches!(c.expr, Expr::Block(_)) {
                let lifted = format!("{short}__{}", c.ident);
                cx.lifted.insert(c.ident.to_string(), lifted.clone());
                post.extend(rewrite::do_const(cx, &format!("{key}::{}", c.ident), lifted, &c.ty, &c.expr, &selfty));
            } else {
                let (n, t, e) = (&c.ident, &c.ty, &c.expr);
                body.extend(quote!(pub const #n: #t = #e;));
            }
        }
    }
    for i in items {
        match i {
            ImplItem::Fn(f) => {
                let k = format!("{key}::{}", f.sig.ident);
                if cx.contracts.drops.contains(&format!("fn {k}")) {
                    continue;
                }
                if codec && !known {
                    cx.external.insert(k.clone());
                }
                if tr.as_deref() == Some("Drop") {
                    // verified as an ordinary method: `Drop::drop` itself cannot carry a contract
                    let mut sig = f.sig.clone();
                    sig.ident = Ident::new("drop_body", Span::call_site());
                    body.extend(rewrite::do_fn(cx, &k, &selfty, sig, Some(f.block), true));
                    continue;
                }
                if cx.contracts.fns.get(&k).is_some_and(|c| c.attrs.contains("//apart")) {
                    // recursive through its own trait: the body is verified as a method of its own, under the
                    // contract the trait gives this one
                    let mut sig = f.sig.clone();
                    ClearVis.visit_signature_mut(&mut sig);
                    body.extend(quote!(#[verifier::external_body] #sig { unimplemented!() }));
                    let mut sig = f.sig.clone();
                    sig.ident = format_ident!("{}_body", sig.ident);
                    let inner = rewrite::do_fn(cx, &k, &selfty, sig, Some(f.block), true);
                    let st = &im.self_ty;
                    post.extend(quote!(impl #st { #inner }));
                    continue;
                }
                if key.ends_with(" as From<&[u8]>>") {
                    // panics on some inputs, so it needs a precondition, which `From::from` cannot have
                    let mut sig = f.sig.clone();
                    sig.ident = Ident::new("from_slice_sh", Span::call_site());
                    body.extend(rewrite::do_fn(cx, &k, &selfty, sig, Some(f.block), true));
                    continue;
                }
                if key.ends_with(" as From<&str>>") {
                    // (Verus checks it before it sees what `FromSpecImpl` says)
                    let mut sig = f.sig.clone();
                    sig.ident = Ident::new("from_str_sh", Span::call_site());
                    body.extend(rewrite::do_fn(cx, &k, &selfty, sig, Some(f.block), true));
                    continue;
                }
                if tr.as_deref() == Some("Sum") {
                    // adds without a check, so it needs a precondition, which `Sum::sum` cannot have
                    let mut sig = f.sig.clone();
                    sig.ident = Ident::new("sum_sh", Span::call_site());
                    body.extend(rewrite::do_fn(cx, &k, &selfty, sig, Some(f.block), true));
                    continue;
                }
                body.extend(rewrite::do_fn(cx, &k, &selfty, f.sig, Some(f.block), tr.is_none()));
            }
            ImplItem::Const(_) => {}
            ImplItem::Type(t) => body.extend(t.to_token_stream()),
            other => cx.warnings.push(format!("dropped impl item in {key}: {}", squash(&other))),
        }
    }
    if matches!(tr.as_deref(), Some("Drop" | "Sum")) || key.ends_with(" as From<&[u8]>>") || key.ends_with(" as From<&str>>") {
        im.trait_ = None;
    }
    let (ig, _, wc) = im.generics.split_for_impl();
    let st = &im.self_ty;
    let trp = im.trait_.as_ref().map(|(b, p, f)| quote!(#b #p #f));
    quote!(impl #ig #trp #st #wc { #body } #post)
}

fn print(ts: TokenStream, texts: &[String], out: &mut String) {
    fn nl(out: &mut String) {
        if !out.ends_with('\n') {
            out.push('\n');
        }
    }
    let mut joint = true;
    let mut paren_depth = 0;
    fn go(ts: TokenStream, texts: &[String], out: &mut String, joint: &mut bool, depth: &mut i32) {
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::Brace => (" {", "}"),
                        Delimiter::None => ("", ""),
                    };
                    out.push_str(a);
                    let brace = g.delimiter() == Delimiter::Brace;
                    if brace {
                        nl(out);
                    }
                    *joint = true;
                    go(g.stream(), texts, out, joint, depth);
                    if brace {
                        nl(out);
                    }
                    out.push_str(b);
                    if brace {
                        nl(out);
                    }
                    *joint = false;
                }
                TokenTree::Punct(p) => {
                    if !*joint && !out.ends_with('\n') && !matches!(p.as_char(), ',' | ';' | '.' | '?' | ':') {
                        out.push(' ');
                    }
                    out.push(p.as_char());
                    *joint = p.spacing() == proc_macro2::Spacing::Joint || matches!(p.as_char(), '.' | '&' | '!' | '\'' | '#') || (p.as_char() == ':' && out.ends_with("::"));
                    if p.as_char() == ';' {
                        nl(out);
                    }
                }
                TokenTree::Ident(i) => {
                    let s = i.to_string();
                    if let Some(n) = s.strip_prefix("__TEXT_").and_then(|s| s.strip_suffix("__")) {
                        let n: usize = n.parse().unwrap();
                        nl(out);
                        out.push_str(&texts[n]);
                        nl(out);
                        *joint = true;
                        continue;
                    }
                    if !*joint && !out.ends_with('\n') {
                        out.push(' ');
                    }
                    out.push_str(&s);
                    *joint = false;
                }
                TokenTree::Literal(l) => {
                    if !*joint && !out.ends_with('\n') {
                        out.push(' ');
                    }
                    out.push_str(&l.to_string());
                    *joint = false;
                }
            }
        }
    }
    go(ts, texts, out, &mut joint, &mut paren_depth);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut expanded = String::new();
    let mut cdir = String::new();
    let mut outp = String::new();
    let mut mapp = String::new();
    let mut external = HashSet::new();
    let mut i = 1;
    while i < args.len() {
        let v = args[i + 1].clone();
        match args[i].as_str() {
            "--expanded" => expanded = v,
            "--contracts" => cdir = v,
            "--out" => outp = v,
            "--map" => mapp = v,
            "--external" => {
                external.insert(v);
            }
            _ => panic!("bad argument {}", args[i]),
        }
        i += 2;
    }
    let src = std::fs::read_to_string(&expanded).unwrap();
    let mut file = syn::parse_file(&src).expect("parse expanded source");
    serde::prepare(&mut file.items);
    let mut called = None;
    let (mut cx, ts, shim) = loop {
        let (contracts, shim) = contracts::load(&cdir);
        let first = called.is_none();
        let mut cx = Cx {
            contracts,
            external: external.clone(),
            texts: vec![],
            fns: vec![],
            consts: HashMap::new(),
            lifted: HashMap::new(),
            warnings: vec![],
            used: BTreeSet::new(),
            called: called.take(),
            defined: HashSet::new(),
            imports: vec![],
        };
        collect_consts(&file.items, &mut cx);
        let ts = process_mod(&mut cx, "", file.items.clone());
        if first {
            called = Some(cx.fns.iter().filter(|f| f.contracted && !f.external).flat_map(|f| f.callees.iter().cloned()).collect());
            continue;
        }
        resolve_imports(&mut cx);
        break (cx, ts, shim);
    };
    let mut body = String::new();
    print(ts, &cx.texts, &mut body);
    let out = format!(
        "// generated by /verif/extract from the expanded source of /repo: do not edit\n#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, unused_assignments, non_snake_case, non_upper_case_globals, unreachable_code, unused_must_use, non_camel_case_types)]\n#![feature(never_type)]\nuse vstd::prelude::*;\nverus! {{\n{shim}\n{body}\n}} // verus!\nfn main() {{}}\n"
    );
    // map
    let mut cur: Vec<(String, usize)> = vec![];
    let mut ranges: BTreeMap<String, (usize, usize)> = BTreeMap::new();
    for (n, l) in out.lines().enumerate() {
        if let Some(k) = l.strip_prefix("//@fn ") {
            cur.push((k.to_string(), n + 1));
        } else if l == "//@end" {
            let (k, s) = cur.pop().unwrap();
            ranges.insert(k, (s, n + 1));
        }
    }
    for l in contracts::unused(&cx.contracts, &cx.used) {
        cx.warnings.push(format!("lost anchor: {l}"));
    }
    let fns: Vec<serde_json::Value> = cx
        .fns
        .iter()
        .map(|f| {
            let r = ranges.get(&f.key).copied().unwrap_or((0, 0));
            serde_json::json!({
                "key": f.key, "lines": [r.0, r.1], "contracted": f.contracted, "external": f.external, "uncontracted": f.uncontracted,
                "loops": f.loops, "callees": f.callees, "hints": f.used_hints, "notes": f.notes, "body": f.body,
            })
        })
        .collect();
    std::fs::write(&outp, out).unwrap();
    std::fs::write(&mapp, serde_json::to_string_pretty(&serde_json::json!({"fns": fns, "warnings": cx.warnings})).unwrap()).unwrap();
}

use proc_macro2::{Group, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, HashMap};
use std::path::Path;

#[derive(Clone)]
pub struct FnDef {
    pub name: String,      // lean name
    pub rust_name: String, // last segment
    pub file: String,      // relative to src
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub impl_generics: Option<syn::Generics>,
    pub self_ty: Option<syn::Type>,
    pub trait_name: Option<String>,
    pub lines: (usize, usize),
    pub in_macro: bool,
}

#[derive(Default)]
pub struct Crate {
    pub fns: BTreeMap<String, FnDef>,
    pub structs: BTreeMap<String, (String, syn::ItemStruct)>,
    pub enums: BTreeMap<String, (String, syn::ItemEnum)>,
    pub consts: BTreeMap<String, (String, syn::ItemConst)>, // key name (may be file-qualified)
    pub aliases: BTreeMap<String, syn::ItemType>,
    pub errors: Vec<String>,
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string().replace(' ', "");
        s.starts_with("#[cfg(test") || s == "#[test]" || s.starts_with("#[cfg(kani") || s.starts_with("#[cfg(not(feature=\"alloc\"") || s.starts_with("#[cfg(not(feature=\"std\"")
    })
}

pub fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => type_name(&r.elem),
        syn::Type::Group(g) => type_name(&g.elem),
        syn::Type::Paren(g) => type_name(&g.elem),
        _ => "T".into(),
    }
}

impl Crate {
    pub fn load(root: &Path) -> Crate {
        let mut c = Crate::default();
        let mut files = vec![];
        walk(root, &mut files);
        files.sort();
        for f in files {
            let rel = f.strip_prefix(root).unwrap().to_string_lossy().to_string();
            let src = match std::fs::read_to_string(&f) {
                Ok(s) => s,
                Err(e) => {
                    c.errors.push(format!("{rel}: {e}"));
                    continue;
                }
            };
            match syn::parse_file(&src) {
                Ok(file) => c.items(&rel, &file.items, false),
                Err(e) => c.errors.push(format!("{rel}: {e}")),
            }
        }
        c
    }

    fn add_fn(&mut self, mut d: FnDef) {
        if self.fns.contains_key(&d.name) {
            let stem = d.file.trim_end_matches(".rs").replace('/', "_");
            d.name = format!("{}_{}", stem, d.name);
        }
        self.fns.insert(d.name.clone(), d);
    }

    pub fn items(&mut self, file: &str, items: &[syn::Item], in_macro: bool) {
        let mut macros: HashMap<String, syn::ItemMacro> = HashMap::new();
        for it in items {
            match it {
                syn::Item::Fn(f) if !is_test(&f.attrs) => {
                    let name = sanitize(&f.sig.ident.to_string());
                    self.add_fn(FnDef {
                        name,
                        rust_name: f.sig.ident.to_string(),
                        file: file.into(),
                        sig: f.sig.clone(),
                        block: (*f.block).clone(),
                        impl_generics: None,
                        self_ty: None,
                        trait_name: None,
                        lines: span_lines(&f.sig, &f.block),
                        in_macro,
                    });
                }
                syn::Item::Impl(im) if !is_test(&im.attrs) => {
                    let sn = type_name(&im.self_ty);
                    let tn = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(m) = ii {
                            if is_test(&m.attrs) {
                                continue;
                            }
                            let mn = m.sig.ident.to_string();
                            let name = match &tn {
                                Some(t) => format!("{t}_{sn}_{mn}"),
                                None => format!("{sn}_{mn}"),
                            };
                            self.add_fn(FnDef {
                                name: sanitize(&name),
                                rust_name: mn,
                                file: file.into(),
                                sig: m.sig.clone(),
                                block: m.block.clone(),
                                impl_generics: Some(im.generics.clone()),
                                self_ty: Some((*im.self_ty).clone()),
                                trait_name: tn.clone(),
                                lines: span_lines(&m.sig, &m.block),
                                in_macro,
                            });
                        }
                    }
                }
                syn::Item::Struct(s) if !is_test(&s.attrs) => {
                    self.structs.insert(s.ident.to_string(), (file.into(), s.clone()));
                }
                syn::Item::Enum(s) if !is_test(&s.attrs) => {
                    self.enums.insert(s.ident.to_string(), (file.into(), s.clone()));
                }
                syn::Item::Const(s) if !is_test(&s.attrs) => {
                    self.consts.insert(s.ident.to_string(), (file.into(), s.clone()));
                }
                syn::Item::Static(s) if !is_test(&s.attrs) => {
                    if let Ok(c) = syn::parse2::<syn::ItemConst>({
                        let (i, t, e) = (&s.ident, &s.ty, &s.expr);
                        quote::quote!(const #i : #t = #e;)
                    }) {
                        self.consts.insert(s.ident.to_string(), (file.into(), c));
                    }
                }
                syn::Item::Type(t) if !is_test(&t.attrs) => {
                    self.aliases.insert(t.ident.to_string(), t.clone());
                }
                syn::Item::Mod(m) if !is_test(&m.attrs) => {
                    if let Some((_, its)) = &m.content {
                        self.items(file, its, in_macro);
                    }
                }
                syn::Item::Macro(m) if !is_test(&m.attrs) => {
                    if let Some(id) = &m.ident {
                        macros.insert(id.to_string(), m.clone());
                    } else if let Some(def) = m.mac.path.get_ident().and_then(|i| macros.get(&i.to_string())) {
                        match expand(def, &m.mac.tokens) {
                            Ok(its) => self.items(file, &its, true),
                            Err(e) => self.errors.push(format!("{file}: macro: {e}")),
                        }
                    }
                }
                _ => {}
            }
        }
    }
}

pub fn sanitize(n: &str) -> String {
    if n.starts_with('_') {
        format!("u{n}")
    } else {
        n.to_string()
    }
}

fn span_lines(sig: &syn::Signature, b: &syn::Block) -> (usize, usize) {
    let s = sig.fn_token.span.start().line;
    let e = b.brace_token.span.close().end().line;
    (s, e)
}

fn walk(d: &Path, out: &mut Vec<std::path::PathBuf>) {
    if let Ok(rd) = std::fs::read_dir(d) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(&p, out);
            } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
                out.push(p);
            }
        }
    }
}

/// Expansion of single-arm `macro_rules!` of the form `($($T: ty),*) => ($( ... )*)`.
fn expand(def: &syn::ItemMacro, args: &TokenStream) -> Result<Vec<syn::Item>, String> {
    let toks: Vec<TokenTree> = def.mac.tokens.clone().into_iter().collect();
    let matcher = match toks.first() {
        Some(TokenTree::Group(g)) => g.stream(),
        _ => return Err("matcher".into()),
    };
    let var = first_var(&matcher).ok_or("no metavariable")?;
    let body = toks
        .iter()
        .skip(1)
        .find_map(|t| if let TokenTree::Group(g) = t { Some(g.stream()) } else { None })
        .ok_or("no body")?;
    let bt: Vec<TokenTree> = body.into_iter().collect();
    let mut items = vec![];
    let tys: Vec<TokenTree> = args
        .clone()
        .into_iter()
        .filter(|t| !matches!(t, TokenTree::Punct(p) if p.as_char() == ','))
        .collect();
    let mut i = 0;
    while i < bt.len() {
        if let (TokenTree::Punct(p), Some(TokenTree::Group(g))) = (&bt[i], bt.get(i + 1)) {
            if p.as_char() == '$' {
                for t in &tys {
                    let s = subst(g.stream(), &var, t);
                    let f: syn::File = syn::parse2(s).map_err(|e| e.to_string())?;
                    items.extend(f.items);
                }
                i += 3;
                continue;
            }
        }
        return Err("unsupported macro body".into());
    }
    Ok(items)
}

fn first_var(ts: &TokenStream) -> Option<String> {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    for i in 0..v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(id)) = v.get(i + 1) {
                    return Some(id.to_string());
                }
            }
            TokenTree::Group(g) => {
                if let Some(x) = first_var(&g.stream()) {
                    return Some(x);
                }
            }
            _ => {}
        }
    }
    None
}

fn subst(ts: TokenStream, var: &str, by: &TokenTree) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(id)) = v.get(i + 1) {
                    if id == var {
                        out.extend([by.clone()]);
                        i += 2;
                        continue;
                    }
                }
                out.extend([v[i].clone()]);
            }
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), subst(g.stream(), var, by));
                ng.set_span(g.span());
                out.extend([TokenTree::Group(ng)]);
            }
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    out
}

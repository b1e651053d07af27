//! Translation of one Rust function to a Lean definition in the `Option` monad.
use crate::krate::{type_name, Crate, FnDef};
use crate::types::{Kind, Ty, Types};
use quote::ToTokens;
use std::collections::{BTreeSet, HashMap};
use syn::spanned::Spanned;
use syn::*;

pub type R<T> = std::result::Result<T, String>;

#[derive(Clone, Debug)]
pub enum Seg {
    Field(String),
    Tup(usize, usize),
    Idx(String),
    ArrIdx(String),
    Mat(String, String),
    MatLin(String),
    Slice(String, String),
}

#[derive(Clone, Debug)]
pub struct Place {
    pub root: usize,
    pub segs: Vec<Seg>,
    pub ty: Ty,
}

#[derive(Clone, Debug)]
pub enum Prov {
    No,
    Mut(Place),
    Chunks(Place),
    Zip(Box<Prov>, Box<Prov>),
    Enum(Box<Prov>),
    Rev(Box<Prov>),
    Part(Box<Prov>),
    /// mutable items through an adaptor whose write-back is not modelled
    Lost,
}
impl Prov {
    fn any(&self) -> bool {
        match self {
            Prov::No => false,
            Prov::Mut(_) | Prov::Chunks(_) | Prov::Lost => true,
            Prov::Zip(a, b) => a.any() || b.any(),
            Prov::Enum(a) | Prov::Rev(a) | Prov::Part(a) => a.any(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Val {
    pub t: String,
    pub ty: Ty,
    pub prop: bool,
    pub known: Option<Box<Val>>,
    pub prov: Prov,
    pub eff: bool,
    pub lz: bool,
    pub nat: Option<String>,
}

pub fn v(t: impl Into<String>, ty: Ty) -> Val {
    Val { t: t.into(), ty, prop: false, known: None, prov: Prov::No, eff: false, lz: false, nat: None }
}
fn vp(t: impl Into<String>) -> Val {
    let mut x = v(t, Ty::Bool);
    x.prop = true;
    x
}
fn list(t: Ty) -> Ty {
    Ty::List(Box::new(t))
}
fn opt(t: Ty) -> Ty {
    Ty::Opt(Box::new(t))
}

#[derive(Clone, Debug)]
pub enum Item {
    Let(String, String),
    Bind(String, String),
    Guard(String),
    Fail,
}

#[derive(Debug)]
pub enum Out {
    V(Val),
    Ret(String),
}

#[derive(Clone)]
pub struct VarInfo {
    pub cur: String,
    pub ty: Ty,
    pub prov: Prov,
    pub alias: Option<Place>,
    pub eff: bool,
    pub lz: bool,
    pub known: Option<Box<Val>>,
    pub nat: Option<String>,
}

#[derive(Clone)]
pub struct Param {
    pub name: String,
    pub ty: Ty,
    pub mutref: bool,
}
#[derive(Clone)]
pub struct Sig {
    pub lean: String,
    pub pints: Vec<String>,
    pub consts: Vec<String>,
    pub params: Vec<Param>,
    pub ret: Ty,
    pub gm: HashMap<String, Ty>,
}

pub struct Kont<'k> {
    pub bind: Option<(&'k Pat, bool)>, // pattern to bind the tail to; None = drop
    pub stmts: &'k [Stmt],
    pub i: usize,
    pub depth: usize,
    pub next: Option<&'k Kont<'k>>,
}

#[derive(Clone)]
pub enum RetK {
    Fn(Vec<usize>),
    Closure,
    Loop { mods: Vec<usize>, ret: bool },
}

pub struct Lam {
    pub binders: Vec<String>,
    pub st: Option<String>,
    pub items: Vec<Item>,
    pub val: Val,
    pub upd: Vec<Option<String>>,
    pub mods: Vec<usize>,
    pub after: Vec<String>,
    pub mon: bool,
}

pub struct Fx<'a> {
    pub kr: &'a Crate,
    pub def: &'a FnDef,
    pub abs: bool,
    pub powi: usize,
    pub checked: bool,
    pub tys: Types,
    pub gm: HashMap<String, Ty>,
    pub self_ty: Option<Ty>,
    pub vars: Vec<VarInfo>,
    pub env: Vec<HashMap<String, usize>>,
    pub items: Vec<Item>,
    pub cnt: usize,
    pub retk: Vec<RetK>,
    pub ret_ty: Ty,
    pub deps: BTreeSet<String>,
    pub cdeps: BTreeSet<String>,
    pub adts: BTreeSet<String>,
    pub last_pass: bool,
    pub lean_name: String,
    pub recursive: bool,
}

fn err<T>(s: impl Into<String>) -> R<T> {
    Err(s.into())
}
fn lastseg(p: &Path) -> String {
    p.segments.last().unwrap().ident.to_string()
}
fn paren(s: &str) -> String {
    if s.contains(' ') && !balanced_outer(s) {
        format!("({s})")
    } else {
        s.to_string()
    }
}
fn balanced_outer(s: &str) -> bool {
    let b: Vec<char> = s.chars().collect();
    let (o, c) = match (b.first(), b.last()) {
        (Some('('), Some(')')) => ('(', ')'),
        (Some('['), Some(']')) => ('[', ']'),
        (Some('{'), Some('}')) => ('{', '}'),
        _ => return false,
    };
    let mut d = 0;
    for (i, ch) in b.iter().enumerate() {
        if *ch == o {
            d += 1
        } else if *ch == c {
            d -= 1;
            if d == 0 && i + 1 != b.len() {
                return false;
            }
        }
    }
    true
}
pub fn app(f: &str, args: &[&str]) -> String {
    let mut s = format!("({f}");
    for a in args {
        s.push(' ');
        s.push_str(&paren(a));
    }
    s.push(')');
    s
}
pub fn tup(v: &[String]) -> String {
    match v.len() {
        0 => "()".into(),
        1 => v[0].clone(),
        _ => format!("({})", v.join(", ")),
    }
}
pub fn proj(s: &str, i: usize, n: usize) -> String {
    if n == 1 {
        return s.into();
    }
    let mut r = paren(s);
    for _ in 0..i {
        r.push_str(".2");
    }
    if i + 1 < n {
        r.push_str(".1");
    }
    r
}
/// monadic?
pub fn mon(items: &[Item]) -> bool {
    items.iter().any(|i| !matches!(i, Item::Let(..)))
}
/// wrap items around a body
pub fn wrap(items: &[Item], body: String) -> String {
    let mut b = body;
    for it in items.iter().rev() {
        b = match it {
            Item::Let(n, t) => {
                if &b == n {
                    t.clone()
                } else {
                    format!("(let {n} := {t}\n {b})")
                }
            }
            Item::Bind(n, m) => {
                if b == format!("(some {n})") {
                    m.clone()
                } else {
                    format!("({m} >>= fun {n} =>\n {b})")
                }
            }
            Item::Guard(c) => format!("(if {c} then\n {b} else none)"),
            Item::Fail => "none".into(),
        };
    }
    b
}

struct ExitScan {
    found: bool,
    loopd: usize,
}
impl<'ast> visit::Visit<'ast> for ExitScan {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.found = true;
    }
    fn visit_expr_break(&mut self, _: &'ast ExprBreak) {
        if self.loopd == 0 {
            self.found = true;
        }
    }
    fn visit_expr_continue(&mut self, _: &'ast ExprContinue) {
        if self.loopd == 0 {
            self.found = true;
        }
    }
    fn visit_expr_try(&mut self, _: &'ast ExprTry) {
        self.found = true;
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    fn visit_item(&mut self, _: &'ast syn::Item) {}
    fn visit_expr_for_loop(&mut self, e: &'ast ExprForLoop) {
        self.loopd += 1;
        visit::visit_expr_for_loop(self, e);
        self.loopd -= 1;
    }
    fn visit_expr_while(&mut self, e: &'ast ExprWhile) {
        self.loopd += 1;
        visit::visit_expr_while(self, e);
        self.loopd -= 1;
    }
    fn visit_expr_loop(&mut self, e: &'ast ExprLoop) {
        self.loopd += 1;
        visit::visit_expr_loop(self, e);
        self.loopd -= 1;
    }
}
fn has_exit(e: &Expr) -> bool {
    let mut s = ExitScan { found: false, loopd: 0 };
    visit::Visit::visit_expr(&mut s, e);
    s.found
}
fn has_exit_b(b: &Block) -> bool {
    let mut s = ExitScan { found: false, loopd: 0 };
    visit::Visit::visit_block(&mut s, b);
    s.found
}
struct RetScan(bool);
impl<'ast> visit::Visit<'ast> for RetScan {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}
fn has_return_b(b: &Block) -> bool {
    let mut s = RetScan(false);
    visit::Visit::visit_block(&mut s, b);
    s.0
}
fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        e => e,
    }
}
fn key(e: &impl Spanned, role: &str) -> String {
    let s = e.span();
    format!("{}:{}-{}:{}/{}", s.start().line, s.start().column, s.end().line, s.end().column, role)
}

const FLOATB: &[&str] = &[
    "Float", "RealField", "Real", "Num", "NumCast", "Scalar", "FftNum", "Zero", "One", "Bessel", "Signed", "FloatCore",
];

pub fn generics_map(kr: &Crate, def: &FnDef, self_ty: Option<Ty>) -> R<(HashMap<String, Ty>, Vec<String>, Vec<String>, BTreeSet<String>)> {
    let mut bounds: Vec<(String, Vec<TypeParamBound>)> = vec![];
    let mut consts = vec![];
    let mut item_bounds: HashMap<String, Vec<TypeParamBound>> = HashMap::new();
    let mut gens: Vec<&Generics> = vec![&def.sig.generics];
    if let Some(g) = &def.impl_generics {
        gens.insert(0, g);
    }
    for g in &gens {
        for p in &g.params {
            match p {
                GenericParam::Type(t) => bounds.push((t.ident.to_string(), t.bounds.iter().cloned().collect())),
                GenericParam::Const(c) => consts.push(c.ident.to_string()),
                _ => {}
            }
        }
    }
    for g in &gens {
        if let Some(w) = &g.where_clause {
            for p in &w.predicates {
                if let WherePredicate::Type(t) = p {
                    if let Type::Path(tp) = &t.bounded_ty {
                        let segs: Vec<String> = tp.path.segments.iter().map(|s| s.ident.to_string()).collect();
                        if segs.len() == 1 {
                            if let Some(b) = bounds.iter_mut().find(|b| b.0 == segs[0]) {
                                b.1.extend(t.bounds.iter().cloned());
                            }
                        } else if segs.len() == 2 && segs[1] == "Item" {
                            item_bounds.entry(segs[0].clone()).or_default().extend(t.bounds.iter().cloned());
                        }
                    }
                }
            }
        }
    }
    let mut gm: HashMap<String, Ty> = HashMap::new();
    let mut muts = BTreeSet::new();
    for c in &consts {
        gm.insert(c.clone(), Ty::Unit);
    }
    let names: Vec<String> = bounds.iter().map(|b| b.0.clone()).collect();
    // several rounds so that bounds may refer to each other
    let mut todo: Vec<(String, Vec<TypeParamBound>)> = bounds;
    for round in 0..6 {
        let mut rest = vec![];
        for (n, bs) in todo {
            match resolve_bounds(kr, &n, &bs, &item_bounds, &gm, &names, &self_ty, &mut muts, round >= 4) {
                Some(t) => {
                    gm.insert(n, t);
                }
                None => rest.push((n, bs)),
            }
        }
        todo = rest;
    }
    if !todo.is_empty() {
        return err(format!("generic parameter {}", todo[0].0));
    }
    let pints = names.iter().filter(|n| matches!(gm.get(*n), Some(Ty::PInt(_)))).cloned().collect();
    Ok((gm, pints, consts, muts))
}

fn bound_name(b: &TypeParamBound) -> Option<(&TraitBound, String)> {
    if let TypeParamBound::Trait(t) = b {
        Some((t, lastseg(&t.path)))
    } else {
        None
    }
}
fn targs(p: &PathSegment) -> Vec<&GenericArgument> {
    match &p.arguments {
        PathArguments::AngleBracketed(a) => a.args.iter().collect(),
        _ => vec![],
    }
}

fn resolve_bounds(
    kr: &Crate,
    name: &str,
    bs: &[TypeParamBound],
    item_bounds: &HashMap<String, Vec<TypeParamBound>>,
    gm: &HashMap<String, Ty>,
    names: &[String],
    self_ty: &Option<Ty>,
    muts: &mut BTreeSet<String>,
    force: bool,
) -> Option<Ty> {
    let res = |t: &Type| -> Option<Ty> {
        let mut used = vec![];
        collect_idents(t, &mut used);
        for u in used {
            if names.contains(&u) && !gm.contains_key(&u) {
                return None;
            }
        }
        ty_of(kr, t, gm, self_ty, &mut None).ok()
    };
    let bn: Vec<(&TraitBound, String)> = bs.iter().filter_map(bound_name).collect();
    for (t, n) in &bn {
        match n.as_str() {
            "PrimInt" => return Some(Ty::PInt(name.into())),
            "ComplexField" => return Some(Ty::Cx),
            "Iterator" | "IntoIterator" | "ExactSizeIterator" | "DoubleEndedIterator" => {
                for a in targs(t.path.segments.last().unwrap()) {
                    if let GenericArgument::AssocType(at) = a {
                        if at.ident == "Item" {
                            if let Type::Reference(r) = &at.ty {
                                if r.mutability.is_some() {
                                    muts.insert(name.into());
                                }
                            }
                            return res(&at.ty).map(list);
                        }
                    }
                }
                if let Some(ibs) = item_bounds.get(name) {
                    for b in ibs {
                        if let Some((t, n)) = bound_name(b) {
                            if n == "Borrow" || n == "AsRef" || n == "Into" {
                                for a in targs(t.path.segments.last().unwrap()) {
                                    if let GenericArgument::Type(x) = a {
                                        return res(x).map(list);
                                    }
                                }
                            }
                        }
                    }
                }
                return Some(list(Ty::F));
            }
            "Borrow" | "AsRef" => {
                for a in targs(t.path.segments.last().unwrap()) {
                    if let GenericArgument::Type(x) = a {
                        return res(x);
                    }
                }
            }
            "Into" => {
                for a in targs(t.path.segments.last().unwrap()) {
                    if let GenericArgument::Type(x) = a {
                        return res(x);
                    }
                }
            }
            "Data" | "RawData" | "DataMut" => {
                for a in targs(t.path.segments.last().unwrap()) {
                    if let GenericArgument::AssocType(at) = a {
                        return res(&at.ty);
                    }
                }
                return Some(Ty::F);
            }
            "Dim" | "Dimension" | "DimName" => return Some(Ty::Unit),
            "Fn" | "FnMut" | "FnOnce" => {
                if let PathArguments::Parenthesized(p) = &t.path.segments.last().unwrap().arguments {
                    let mut a = vec![];
                    for x in &p.inputs {
                        a.push(res(x)?);
                    }
                    let r = match &p.output {
                        ReturnType::Default => Ty::Unit,
                        ReturnType::Type(_, t) => res(t)?,
                    };
                    return Some(Ty::Fun(a, Box::new(r)));
                }
            }
            _ => {}
        }
    }
    for (_, n) in &bn {
        if FLOATB.contains(&n.as_str()) {
            return Some(Ty::F);
        }
    }
    if bn.is_empty() || force {
        return Some(Ty::F);
    }
    Some(Ty::F)
}
fn collect_idents(t: &Type, out: &mut Vec<String>) {
    struct S<'a>(&'a mut Vec<String>);
    impl<'a, 'ast> visit::Visit<'ast> for S<'a> {
        fn visit_path(&mut self, p: &'ast Path) {
            out_push(self.0, p);
            visit::visit_path(self, p);
        }
    }
    fn out_push(o: &mut Vec<String>, p: &Path) {
        o.push(p.segments.first().unwrap().ident.to_string());
    }
    visit::Visit::visit_type(&mut S(out), t);
}

/// Rust type -> Ty.  `inf`: fresh variables for `_`
pub fn ty_of(kr: &Crate, t: &Type, gm: &HashMap<String, Ty>, self_ty: &Option<Ty>, inf: &mut Option<&mut Types>) -> R<Ty> {
    match t {
        Type::Reference(r) => ty_of(kr, &r.elem, gm, self_ty, inf),
        Type::Paren(r) => ty_of(kr, &r.elem, gm, self_ty, inf),
        Type::Group(r) => ty_of(kr, &r.elem, gm, self_ty, inf),
        Type::Slice(s) => Ok(list(ty_of(kr, &s.elem, gm, self_ty, inf)?)),
        Type::Array(a) => {
            let e = ty_of(kr, &a.elem, gm, self_ty, inf)?;
            if let Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) = &a.len {
                let n: usize = i.base10_parse().map_err(|e| e.to_string())?;
                if n <= 8 {
                    return Ok(Ty::Arr(Box::new(e), n));
                }
            }
            Ok(list(e))
        }
        Type::Tuple(t) => {
            if t.elems.is_empty() {
                return Ok(Ty::Unit);
            }
            let mut v = vec![];
            for e in &t.elems {
                v.push(ty_of(kr, e, gm, self_ty, inf)?);
            }
            Ok(Ty::Tup(v))
        }
        Type::Infer(_) => match inf {
            Some(t) => Ok(t.fresh(Kind::Any)),
            None => err("inferred type"),
        },
        Type::Never(_) => Ok(Ty::Unit),
        Type::ImplTrait(it) => {
            for b in &it.bounds {
                if let Some((t, n)) = bound_name(b) {
                    if n.ends_with("Iterator") {
                        for a in targs(t.path.segments.last().unwrap()) {
                            if let GenericArgument::AssocType(at) = a {
                                return Ok(list(ty_of(kr, &at.ty, gm, self_ty, inf)?));
                            }
                        }
                    }
                    if n == "Fn" || n == "FnMut" || n == "FnOnce" {
                        if let PathArguments::Parenthesized(p) = &t.path.segments.last().unwrap().arguments {
                            let mut a = vec![];
                            for x in &p.inputs {
                                a.push(ty_of(kr, x, gm, self_ty, inf)?);
                            }
                            let r = match &p.output {
                                ReturnType::Default => Ty::Unit,
                                ReturnType::Type(_, t) => ty_of(kr, t, gm, self_ty, inf)?,
                            };
                            return Ok(Ty::Fun(a, Box::new(r)));
                        }
                    }
                    if n == "Borrow" || n == "Into" || n == "AsRef" {
                        for a in targs(t.path.segments.last().unwrap()) {
                            if let GenericArgument::Type(x) = a {
                                return ty_of(kr, x, gm, self_ty, inf);
                            }
                        }
                    }
                }
            }
            err("impl trait type")
        }
        Type::Path(p) => {
            let segs = &p.path.segments;
            let last = segs.last().unwrap();
            let n = last.ident.to_string();
            if segs.len() == 1 {
                if n == "Self" {
                    return self_ty.clone().ok_or("Self".into());
                }
                if let Some(t) = gm.get(&n) {
                    return Ok(t.clone());
                }
            }
            if segs.len() == 2 {
                let f = segs[0].ident.to_string();
                if n == "Item" {
                    if let Some(Ty::List(x)) = gm.get(&f) {
                        return Ok((**x).clone());
                    }
                }
                if f == "Self" {
                    return self_ty.clone().ok_or("Self".into());
                }
            }
            if n == "RealField" || n == "Output" {
                return Ok(Ty::F);
            }
            let mut args = vec![];
            for a in targs(last) {
                if let GenericArgument::Type(t) = a {
                    args.push(t.clone());
                }
            }
            let mut arg0 = |inf: &mut Option<&mut Types>| -> R<Ty> {
                match args.first() {
                    Some(a) => ty_of(kr, a, gm, self_ty, inf),
                    None => match inf {
                        Some(t) => Ok(t.fresh(Kind::Any)),
                        None => err(format!("type arguments of {n}")),
                    },
                }
            };
            Ok(match n.as_str() {
                "usize" => Ty::Nat,
"isize" => Ty::Z,
                "u8" | "u16" | "u32" | "u64" | "u128" | "i8" | "i16" | "i32" | "i64" | "i128" => Ty::PInt(format!("IntTy.{n}")),
                "f32" | "f64" => Ty::F,
                "bool" => Ty::Bool,
                "str" | "String" => Ty::Str,
                "Vec" | "ArrayD" | "Array" | "ArrayBase" | "Box" | "Range" | "Array1" => {
                    if n == "Box" {
                        arg0(inf)?
                    } else {
                        list(arg0(inf)?)
                    }
                }
                "Option" => opt(arg0(inf)?),
                "Complex" => Ty::Cx,
                "OMatrix" | "DMatrix" | "Matrix" | "SMatrix" | "DVector" | "SVector" | "OVector" => Ty::Mat(Box::new(arg0(inf)?)),
                "Ordering" => Ty::Ord,
                _ => {
                    if let Some(a) = kr.aliases.get(&n) {
                        let mut g2 = HashMap::new();
                        let mut it = args.iter();
                        for p in &a.generics.params {
                            if let GenericParam::Type(tp) = p {
                                if let Some(x) = it.next() {
                                    g2.insert(tp.ident.to_string(), ty_of(kr, x, gm, self_ty, inf)?);
                                }
                            }
                        }
                        return ty_of(kr, &a.ty, &g2, self_ty, inf);
                    }
                    let gens = if let Some((_, s)) = kr.structs.get(&n) {
                        &s.generics
                    } else if let Some((_, s)) = kr.enums.get(&n) {
                        &s.generics
                    } else {
                        return err(format!("type {n}"));
                    };
                    let k = gens.params.iter().filter(|p| matches!(p, GenericParam::Type(_))).count();
                    let mut v = vec![];
                    for i in 0..k {
                        v.push(match args.get(i) {
                            Some(a) => ty_of(kr, a, gm, self_ty, inf)?,
                            None => Ty::F,
                        });
                    }
                    Ty::Adt(n, v)
                }
            })
        }
        _ => err(format!("type {}", t.to_token_stream())),
    }
}

pub fn self_type(kr: &Crate, def: &FnDef) -> R<Option<Ty>> {
    let Some(t) = &def.self_ty else { return Ok(None) };
    let n = type_name(t);
    if ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "isize", "usize"].contains(&n.as_str()) {
        return Ok(Some(Ty::PInt(format!("IntTy.{n}"))));
    }
    let d0 = FnDef { self_ty: None, sig: parse_quote!(fn x()), ..def.clone() };
    let (gm, ..) = generics_map(kr, &d0, None)?;
    Ok(Some(ty_of(kr, t, &gm, &None, &mut None)?))
}

pub fn signature(kr: &Crate, def: &FnDef) -> R<Sig> {
    let st = self_type(kr, def)?;
    let (gm, pints, consts, muts) = generics_map(kr, def, st.clone())?;
    let mut params = vec![];
    for (i, a) in def.sig.inputs.iter().enumerate() {
        match a {
            FnArg::Receiver(r) => params.push(Param {
                name: "self".into(),
                ty: st.clone().ok_or("self")?,
                mutref: r.reference.is_some() && r.mutability.is_some(),
            }),
            FnArg::Typed(t) => {
                let mut mutref = matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some());
                if let Type::Path(p) = &*t.ty {
                    if p.path.segments.len() == 1 && muts.contains(&lastseg(&p.path)) {
                        mutref = true;
                    }
                }
                if let Type::ImplTrait(it) = &*t.ty {
                    let s = it.to_token_stream().to_string();
                    if s.contains("Item = & mut") || (s.contains("Item = & '") && s.contains("mut")) {
                        mutref = true;
                    }
                }
                let ty = ty_of(kr, &t.ty, &gm, &st, &mut None)?;
                let name = match &*t.pat {
                    Pat::Ident(i) => i.ident.to_string(),
                    _ => format!("arg{i}"),
                };
                params.push(Param { name, ty, mutref });
            }
        }
    }
    let ret = match &def.sig.output {
        ReturnType::Default => Ty::Unit,
        ReturnType::Type(_, t) => ty_of(kr, t, &gm, &st, &mut None)?,
    };
    Ok(Sig { lean: def.name.clone(), pints, consts, params, ret, gm })
}

pub fn lean_ty(t: &Ty, abs: bool) -> String {
    let p = |t: &Ty| paren(&lean_ty(t, abs));
    match t {
        Ty::Nat => "ℕ".into(),
        Ty::Z | Ty::PInt(_) => "ℤ".into(),
        Ty::F => if abs { "K" } else { "ℝ" }.into(),
        Ty::Cx => "ℂ".into(),
        Ty::Bool => "Bool".into(),
        Ty::Unit => "Unit".into(),
        Ty::Str => "String".into(),
        Ty::List(a) => format!("List {}", p(a)),
        Ty::Arr(a, n) => format!("Fin {n} → {}", p(a)),
        Ty::Tup(v) => v.iter().map(|x| p(x)).collect::<Vec<_>>().join(" × "),
        Ty::Opt(a) => format!("Option {}", p(a)),
        Ty::Adt(n, v) => {
            let mut s = n.clone();
            for a in v {
                s.push(' ');
                s.push_str(&p(a));
            }
            s
        }
        Ty::Mat(a) => format!("RMat {}", p(a)),
        Ty::Fun(v, r) => {
            let mut s = String::new();
            for a in v {
                s.push_str(&p(a));
                s.push_str(" → ");
            }
            format!("{s}Option {}", p(r))
        }
        Ty::Chunks(a) => format!("List {} × ℕ", p(a)),
        Ty::Lstsq(a) => format!("List {}", p(a)),
        Ty::Ord => "Ordering".into(),
        Ty::Fft => "ℕ × Bool".into(),
        Ty::Planner => "Unit".into(),
        Ty::Gen(g) => g.clone(),
        Ty::Var(_) => "_".into(),
    }
}

impl<'a> Fx<'a> {
    pub fn fresh(&mut self, base: &str) -> String {
        self.cnt += 1;
        let b: String = base.chars().filter(|c| c.is_alphanumeric() || *c == '_').collect();
        let b = b.trim_matches('_');
        let b = if b.is_empty() { "x" } else { b };
        format!("{b}_{}", self.cnt)
    }
    fn ty(&mut self, t: &Type) -> R<Ty> {
        let gm = self.gm.clone();
        let st = self.self_ty.clone();
        let mut tys = std::mem::take(&mut self.tys);
        let r = ty_of(self.kr, t, &gm, &st, &mut Some(&mut tys));
        self.tys = tys;
        r
    }
    fn note_adt(&mut self, t: &Ty) {
        match self.tys.deep(t) {
            Ty::Adt(n, v) => {
                self.adts.insert(n);
                for x in v {
                    self.note_adt(&x);
                }
            }
            Ty::List(a) | Ty::Opt(a) | Ty::Mat(a) | Ty::Arr(a, _) => self.note_adt(&a),
            Ty::Tup(v) => {
                for x in v {
                    self.note_adt(&x);
                }
            }
            _ => {}
        }
    }
    fn lt(&self, t: &Ty) -> String {
        lean_ty(&self.tys.deep(t), self.abs)
    }
    fn uni(&mut self, a: &Ty, b: &Ty) -> R<()> {
        self.tys.unify(a, b)
    }
    fn sh(&self, t: &Ty) -> Ty {
        self.tys.shallow(t)
    }
    fn unresolved<T>(&self, what: &str) -> R<T> {
        err(format!("unresolved type at {what}"))
    }
    /// value of unknown type in an early pass
    fn hole(&mut self, e: &impl Spanned, what: &str) -> R<Val> {
        if self.last_pass {
            return self.unresolved(what);
        }
        let t = self.tys.keyed(key(e, what), Kind::Any);
        Ok(v("?", t))
    }

    pub fn bool_t(&self, x: &Val) -> String {
        if x.prop {
            match x.t.as_str() {
                "True" => "true".into(),
                "False" => "false".into(),
                t => app("decide", &[t]),
            }
        } else {
            x.t.clone()
        }
    }
    pub fn prop_t(&self, x: &Val) -> String {
        if x.prop {
            x.t.clone()
        } else {
            format!("({} = true)", x.t)
        }
    }
    /// term of the value as stored data
    pub fn term(&self, x: &Val) -> String {
        if x.prop {
            self.bool_t(x)
        } else {
            x.t.clone()
        }
    }
    fn bind(&mut self, base: &str, m: String, ty: Ty) -> Val {
        let n = self.fresh(base);
        self.items.push(Item::Bind(n.clone(), m));
        v(n, ty)
    }
    fn lete(&mut self, base: &str, x: &Val) -> Val {
        let t = self.term(x);
        if !t.contains(' ') {
            let mut y = x.clone();
            y.t = t;
            y.prop = false;
            return y;
        }
        let n = self.fresh(base);
        self.items.push(Item::Let(n.clone(), t));
        let mut y = x.clone();
        y.t = n;
        y.prop = false;
        y
    }

    // ---------- variables and places
    pub fn new_var(&mut self, name: &str, x: &Val) -> usize {
        self.vars.push(VarInfo {
            cur: self.term(x),
            ty: x.ty.clone(),
            prov: x.prov.clone(),
            alias: None,
            eff: x.eff,
            lz: x.lz,
            known: x.known.clone(),
            nat: x.nat.clone(),
        });
        let id = self.vars.len() - 1;
        self.env.last_mut().unwrap().insert(name.into(), id);
        id
    }
    fn set_cur(&mut self, id: usize, t: String) {
        self.vars[id].cur = t;
        self.vars[id].known = None;
        self.vars[id].nat = None;
        self.vars[id].eff = false;
        self.vars[id].lz = false;
        note_written(id);
    }
    fn lookup(&self, n: &str) -> Option<usize> {
        self.env.iter().rev().find_map(|s| s.get(n).copied())
    }
    fn read_var(&mut self, id: usize) -> R<Val> {
        let vi = self.vars[id].clone();
        if let Some(p) = &vi.alias {
            return self.read_place(p);
        }
        let mut x = v(vi.cur, vi.ty);
        x.prov = vi.prov;
        x.eff = vi.eff;
        x.lz = vi.lz;
        x.nat = vi.nat;
        x.known = vi.known;
        Ok(x)
    }
    fn read_place(&mut self, p: &Place) -> R<Val> {
        let mut t = self.vars[p.root].cur.clone();
        for s in &p.segs {
            t = self.read_seg(&t, s);
        }
        Ok(v(t, p.ty.clone()))
    }
    fn read_seg(&mut self, t: &str, s: &Seg) -> String {
        match s {
            Seg::Field(f) => format!("{}.{}", paren(t), f),
            Seg::Tup(i, n) => proj(t, *i, *n),
            Seg::ArrIdx(i) => app(t, &[i]),
            Seg::Idx(i) => self.bind("e", app("rsIdx", &[t, i]), Ty::Unit).t,
            Seg::Mat(i, j) => self.bind("e", app("rsMatGet", &[t, i, j]), Ty::Unit).t,
            Seg::MatLin(i) => self.bind("e", app("rsMatLin", &[t, i]), Ty::Unit).t,
            Seg::Slice(a, b) => self.bind("sl", app("rsSlice", &[t, a, b]), Ty::Unit).t,
        }
    }
    fn write_place(&mut self, p: &Place, new: String) -> R<()> {
        let t = self.vars[p.root].cur.clone();
        let r = self.write_seg(&t, &p.segs, new)?;
        let n = self.fresh("w");
        self.items.push(Item::Let(n.clone(), r));
        self.set_cur(p.root, n);
        Ok(())
    }
    fn write_seg(&mut self, t: &str, segs: &[Seg], new: String) -> R<String> {
        let Some(s) = segs.first() else { return Ok(new) };
        let inner = if segs.len() == 1 {
            new
        } else {
            let sub = self.read_seg(t, s);
            self.write_seg(&sub, &segs[1..], new)?
        };
        Ok(match s {
            Seg::Field(f) => format!("{{ {t} with {f} := {inner} }}"),
            Seg::Tup(i, n) => tup(&(0..*n).map(|k| if k == *i { inner.clone() } else { proj(t, k, *n) }).collect::<Vec<_>>()),
            Seg::ArrIdx(i) => app("Function.update", &[t, i, &inner]),
            Seg::Idx(i) => self.bind("w", app("rsSet", &[t, i, &inner]), Ty::Unit).t,
            Seg::Mat(i, j) => self.bind("w", app("rsMatSet", &[t, i, j, &inner]), Ty::Unit).t,
            Seg::MatLin(i) => self.bind("w", app("rsMatSetLin", &[t, i, &inner]), Ty::Unit).t,
            Seg::Slice(a, b) => self.bind("w", app("rsSliceSet", &[t, a, b, &inner]), Ty::Unit).t,
        })
    }
    /// place denoted by an expression (None: not a place)
    fn place(&mut self, e: &Expr) -> R<Option<Place>> {
        Ok(match strip(e) {
            Expr::Path(p) if p.path.segments.len() == 1 && p.qself.is_none() => match self.lookup(&lastseg(&p.path)) {
                Some(id) => {
                    if let Some(a) = &self.vars[id].alias {
                        return Ok(Some(a.clone()));
                    }
                    Some(Place { root: id, segs: vec![], ty: self.vars[id].ty.clone() })
                }
                None => None,
            },
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => self.place(expr)?,
            Expr::Reference(r) => self.place(&r.expr)?,
            Expr::Unsafe(u) if u.block.stmts.len() == 1 => match &u.block.stmts[0] {
                Stmt::Expr(e, None) => self.place(e)?,
                _ => None,
            },
            Expr::Field(f) => {
                let Some(mut p) = self.place(&f.base)? else { return Ok(None) };
                let (seg, ty) = self.field_seg(&p.ty, &f.member, f)?;
                p.segs.push(seg);
                p.ty = ty;
                Some(p)
            }
            Expr::Index(ix) => {
                let Some(p) = self.place(&ix.expr)? else { return Ok(None) };
                Some(self.index_place(p, &ix.index)?)
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "get_unchecked_mut" | "get_unchecked" | "index" | "index_mut" => {
                        let Some(p) = self.place(&m.receiver)? else { return Ok(None) };
                        Some(self.index_place(p, &m.args[0])?)
                    }
                    "unwrap" | "expect" | "unwrap_unchecked" => {
                        if let Expr::MethodCall(g) = strip(&m.receiver) {
                            let gn = g.method.to_string();
                            if gn == "get_mut" {
                                let Some(p) = self.place(&g.receiver)? else { return Ok(None) };
                                return Ok(Some(self.index_place(p, &g.args[0])?));
                            }
                            if gn == "first_mut" {
                                let Some(mut p) = self.place(&g.receiver)? else { return Ok(None) };
                                if let Ty::List(t) = self.sh(&p.ty) {
                                    p.segs.push(Seg::Idx("0".into()));
                                    p.ty = *t;
                                    return Ok(Some(p));
                                }
                            }
                        }
                        None
                    }
                    "borrow" | "borrow_mut" | "as_mut_slice" | "as_mut" | "as_slice" | "by_ref" => self.place(&m.receiver)?,
                    _ => None,
                }
            }
            _ => None,
        })
    }
    fn field_seg(&mut self, t: &Ty, m: &Member, sp: &impl Spanned) -> R<(Seg, Ty)> {
        match (self.sh(t), m) {
            (Ty::Tup(v), Member::Unnamed(i)) => {
                let i = i.index as usize;
                if i >= v.len() {
                    return err("tuple index");
                }
                Ok((Seg::Tup(i, v.len()), v[i].clone()))
            }
            (Ty::Adt(n, args), Member::Named(f)) => {
                let fs = self.fields(&n, &args)?;
                let (fname, ft) = fs.into_iter().find(|x| *f == x.0).ok_or("field")?;
                Ok((Seg::Field(fname), ft))
            }
            (Ty::Cx, Member::Named(f)) if *f == "re" || *f == "im" => Ok((Seg::Field(f.to_string()), Ty::F)),
            (Ty::Lstsq(a), Member::Named(f)) if *f == "solution" || *f == "data" => Ok((Seg::Tup(0, 1), Ty::Lstsq(a))),
            (Ty::Mat(a), Member::Named(f)) if *f == "data" => Ok((Seg::Tup(0, 1), Ty::Mat(a))),
            (Ty::Var(_), _) if !self.last_pass => Ok((Seg::Tup(0, 1), self.tys.keyed(key(sp, "fld"), Kind::Any))),
            (t, m) => err(format!("field {} of {:?}", m.to_token_stream(), t)),
        }
    }
    fn fields(&mut self, n: &str, args: &[Ty]) -> R<Vec<(String, Ty)>> {
        let (_, s) = self.kr.structs.get(n).ok_or(format!("struct {n}"))?;
        self.adts.insert(n.into());
        let mut gm = HashMap::new();
        let mut i = 0;
        for p in &s.generics.params {
            if let GenericParam::Type(t) = p {
                gm.insert(t.ident.to_string(), args.get(i).cloned().unwrap_or(Ty::F));
                i += 1;
            }
        }
        let mut out = vec![];
        for f in &s.fields {
            let t = ty_of(self.kr, &f.ty, &gm, &None, &mut None)?;
            out.push((f.ident.as_ref().map(|x| x.to_string()).ok_or("tuple struct")?, t));
        }
        Ok(out)
    }
    fn index_place(&mut self, mut p: Place, idx: &Expr) -> R<Place> {
        if let Expr::Range(r) = strip(idx) {
            let base = self.read_place(&p)?;
            let (lo, hi) = self.range_bounds(r, &base)?;
            let ty = match self.sh(&p.ty) {
                Ty::Arr(t, _) => return err(format!("slice place of array {t:?}")),
                t => t,
            };
            p.segs.push(Seg::Slice(lo, hi));
            p.ty = ty;
            return Ok(p);
        }
        match self.sh(&p.ty) {
            Ty::List(t) => {
                let i = self.expr_as(idx, &Ty::Nat)?;
                p.segs.push(Seg::Idx(i.t));
                p.ty = *t;
            }
            Ty::Arr(t, n) => {
                if let Expr::Lit(ExprLit { lit: Lit::Int(l), .. }) = strip(idx) {
                    let k: usize = l.base10_parse().map_err(|e| e.to_string())?;
                    if k >= n {
                        return err("constant index out of range");
                    }
                    p.segs.push(Seg::ArrIdx(k.to_string()));
                    p.ty = *t;
                } else {
                    return err("dynamic index into a small array");
                }
            }
            Ty::Mat(t) => {
                let i = self.expr(idx)?;
                match self.sh(&i.ty) {
                    Ty::Tup(v) if v.len() == 2 => {
                        for t in &v {
                            self.uni(t, &Ty::Nat)?;
                        }
                        let i = self.lete("ix", &i);
                        p.segs.push(Seg::Mat(proj(&i.t, 0, 2), proj(&i.t, 1, 2)));
                    }
                    _ => {
                        self.uni(&i.ty, &Ty::Nat)?;
                        p.segs.push(Seg::MatLin(i.t));
                    }
                }
                p.ty = *t;
            }
            Ty::Var(_) if !self.last_pass => {
                self.expr(idx)?;
                p.segs.push(Seg::Tup(0, 1));
                p.ty = self.tys.keyed(key(idx, "ip"), Kind::Any);
            }
            t => return err(format!("index into {t:?}")),
        }
        Ok(p)
    }
    fn range_bounds(&mut self, r: &ExprRange, base: &Val) -> R<(String, String)> {
        let lo = match &r.start {
            Some(e) => self.expr_as(e, &Ty::Nat)?.t,
            None => "0".into(),
        };
        let hi = match &r.end {
            Some(e) => {
                let h = self.expr_as(e, &Ty::Nat)?.t;
                if matches!(r.limits, RangeLimits::Closed(_)) {
                    format!("({h} + 1)")
                } else {
                    h
                }
            }
            None => format!("{}.length", paren(&base.t)),
        };
        Ok((lo, hi))
    }

    // ---------- patterns
    /// bind an irrefutable pattern; returns ids of bound identifiers (for write-back)
    pub fn bind_pat(&mut self, p: &Pat, x: &Val) -> R<()> {
        match p {
            Pat::Ident(i) => {
                if i.subpat.is_some() {
                    return err("@ pattern");
                }
                self.new_var(&i.ident.to_string(), x);
                Ok(())
            }
            Pat::Wild(_) => Ok(()),
            Pat::Reference(r) => self.bind_pat(&r.pat, x),
            Pat::Paren(r) => self.bind_pat(&r.pat, x),
            Pat::Type(t) => {
                let ty = self.ty(&t.ty)?;
                self.uni(&x.ty, &ty)?;
                self.bind_pat(&t.pat, x)
            }
            Pat::Tuple(t) => {
                let n = t.elems.len();
                let tys = match self.sh(&x.ty) {
                    Ty::Tup(v) if v.len() == n => v,
                    Ty::Var(_) => {
                        let v: Vec<Ty> = (0..n).map(|_| self.tys.fresh(Kind::Any)).collect();
                        self.uni(&x.ty, &Ty::Tup(v.clone()))?;
                        v
                    }
                    t => return err(format!("tuple pattern against {t:?}")),
                };
                for (i, q) in t.elems.iter().enumerate() {
                    let mut y = v(proj(&x.t, i, n), tys[i].clone());
                    if let Prov::Zip(a, b) = &x.prov {
                        if n == 2 {
                            y.prov = if i == 0 { (**a).clone() } else { (**b).clone() };
                        }
                    }
                    self.bind_pat(q, &y)?;
                }
                Ok(())
            }
            _ => err(format!("pattern {}", p.to_token_stream())),
        }
    }
    /// condition and bindings of a refutable pattern on non-enum data
    fn test_pat(&mut self, p: &Pat, x: &Val, binds: &mut Vec<(Pat, Val)>) -> R<Vec<String>> {
        match p {
            Pat::Wild(_) => Ok(vec![]),
            Pat::Ident(_) => {
                binds.push((p.clone(), x.clone()));
                Ok(vec![])
            }
            Pat::Reference(r) => self.test_pat(&r.pat, x, binds),
            Pat::Paren(r) => self.test_pat(&r.pat, x, binds),
            Pat::Lit(l) => {
                let e = Expr::Lit(l.clone());
                let y = self.expr(&e)?;
                self.uni(&x.ty, &y.ty)?;
                if let Lit::Bool(b) = &l.lit {
                    let pt = self.prop_t(x);
                    return Ok(vec![if b.value { pt } else { format!("(¬ {pt})") }]);
                }
                Ok(vec![format!("({} = {})", x.t, y.t)])
            }
            Pat::Tuple(t) => {
                let n = t.elems.len();
                let tys = match self.sh(&x.ty) {
                    Ty::Tup(v) if v.len() == n => v,
                    _ => return err("tuple pattern"),
                };
                let mut out = vec![];
                for (i, q) in t.elems.iter().enumerate() {
                    let y = v(proj(&x.t, i, n), tys[i].clone());
                    out.extend(self.test_pat(q, &y, binds)?);
                }
                Ok(out)
            }
            Pat::Or(o) => {
                let mut alts = vec![];
                for c in &o.cases {
                    let mut b2 = vec![];
                    let cs = self.test_pat(c, x, &mut b2)?;
                    if !b2.is_empty() {
                        return err("or-pattern with bindings");
                    }
                    alts.push(if cs.is_empty() { "True".into() } else { format!("({})", cs.join(" ∧ ")) });
                }
                Ok(vec![format!("({})", alts.join(" ∨ "))])
            }
            Pat::Range(r) => {
                let mut out = vec![];
                if let Some(s) = &r.start {
                    let y = self.expr(s)?;
                    self.uni(&x.ty, &y.ty)?;
                    out.push(format!("({} ≤ {})", y.t, x.t));
                }
                if let Some(s) = &r.end {
                    let y = self.expr(s)?;
                    self.uni(&x.ty, &y.ty)?;
                    let op = if matches!(r.limits, RangeLimits::Closed(_)) { "≤" } else { "<" };
                    out.push(format!("({} {op} {})", x.t, y.t));
                }
                Ok(out)
            }
            _ => err(format!("pattern {}", p.to_token_stream())),
        }
    }

    // ---------- statements
    fn scope<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        self.env.push(HashMap::new());
        let r = f(self);
        self.env.pop();
        r
    }
    /// run with a fresh item list; returns items
    fn sub<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<(Vec<Item>, T)> {
        let old = std::mem::take(&mut self.items);
        let r = f(self);
        let it = std::mem::replace(&mut self.items, old);
        Ok((it, r?))
    }
    fn unit(&self) -> Val {
        v("()", Ty::Unit)
    }

    pub fn block_val(&mut self, b: &Block) -> R<Val> {
        let depth = self.env.len();
        self.env.push(HashMap::new());
        let r = self.seq(&b.stmts, 0, None);
        self.env.truncate(depth);
        match r? {
            Out::V(x) => Ok(x),
            Out::Ret(_) => err("early exit inside an expression block"),
        }
    }

    fn finish(&mut self, items: Vec<Item>, out: Out) -> R<String> {
        match out {
            Out::Ret(c) => Ok(wrap(&items, c)),
            Out::V(x) => {
                let c = self.result_code(&x)?;
                Ok(wrap(&items, c))
            }
        }
    }
    pub fn result_code(&mut self, x: &Val) -> R<String> {
        match self.retk.last().unwrap().clone() {
            RetK::Fn(muts) => {
                let rt = self.ret_ty.clone();
                let x = self.coerce(x, &rt)?;
                let mut parts = vec![];
                if self.sh(&rt) != Ty::Unit || muts.is_empty() {
                    parts.push(self.term(&x));
                }
                for m in muts {
                    parts.push(self.vars[m].cur.clone());
                }
                Ok(app("some", &[&tup(&parts)]))
            }
            RetK::Closure => {
                let t = self.term(x);
                Ok(app("some", &[&t]))
            }
            RetK::Loop { mods, ret } => Ok(self.loop_code(&mods, ret, true, None)),
        }
    }
    fn loop_code(&self, mods: &[usize], ret: bool, cont: bool, rv: Option<String>) -> String {
        let st = tup(&mods.iter().map(|m| self.vars[*m].cur.clone()).collect::<Vec<_>>());
        let s = if ret {
            match rv {
                Some(r) => format!("(some {}, {})", paren(&r), st),
                None => format!("(none, {st})"),
            }
        } else {
            st
        };
        format!("(some ({cont}, {s}))")
    }

    pub fn seq(&mut self, stmts: &[Stmt], i: usize, k: Option<&Kont>) -> R<Out> {
        if i >= stmts.len() {
            let u = self.unit();
            return self.cont(u, k);
        }
        let last = i + 1 == stmts.len();
        match &stmts[i] {
            Stmt::Item(it) => {
                match it {
                    syn::Item::Const(c) => {
                        let ty = self.ty(&c.ty)?;
                        let x = self.expr_as(&c.expr, &ty)?;
                        let x = self.lete(&c.ident.to_string(), &x);
                        self.new_var(&c.ident.to_string(), &x);
                    }
                    syn::Item::Use(_) => {}
                    _ => return err("nested item"),
                }
                self.seq(stmts, i + 1, k)
            }
            Stmt::Local(l) => {
                let Some(init) = &l.init else {
                    // declaration without initialiser
                    let ty = self.tys.keyed(key(l, "decl"), Kind::Any);
                    self.bind_pat(&l.pat, &v("default", ty))?;
                    return self.seq(stmts, i + 1, k);
                };
                if let Some((_, els)) = &init.diverge {
                    // let-else
                    let x = self.expr(&init.expr)?;
                    return self.let_else(&l.pat, x, els, stmts, i, k);
                }
                if matches!(&l.pat, Pat::Wild(_)) {
                    // value discarded: only panics and mutation matter
                    let snap = (self.items.len(), self.cnt);
                    match self.expr(&init.expr) {
                        Ok(_) => {}
                        Err(e) => {
                            if pure_looking(&init.expr) {
                                self.items.truncate(snap.0);
                            } else {
                                return Err(e);
                            }
                        }
                    }
                    return self.seq(stmts, i + 1, k);
                }
                let e = strip(&init.expr);
                if has_exit(e) {
                    let kk = Kont { bind: Some((&l.pat, true)), stmts, i: i + 1, depth: self.env.len(), next: k };
                    return self.cps(e, Some(&kk));
                }
                // &mut alias
                if let Expr::Reference(r) = e {
                    if r.mutability.is_some() {
                        if let (Pat::Ident(id), Some(p)) = (&l.pat, self.place(&r.expr)?) {
                            let x = v("_", p.ty.clone());
                            let vid = self.new_var(&id.ident.to_string(), &x);
                            self.vars[vid].alias = Some(p);
                            return self.seq(stmts, i + 1, k);
                        }
                    }
                }
                let (pat, tyann) = match &l.pat {
                    Pat::Type(t) => (&*t.pat, Some(self.ty(&t.ty)?)),
                    p => (p, None),
                };
                let x = match &tyann {
                    Some(t) => self.expr_as(&init.expr, t)?,
                    None => self.expr(&init.expr)?,
                };
                let base = match pat {
                    Pat::Ident(i) => i.ident.to_string(),
                    _ => "p".into(),
                };
                if matches!(pat, Pat::Tuple(_)) {
                    if let (Expr::Tuple(_), _) = (e, ()) {
                        self.bind_pat(pat, &x)?;
                        return self.seq(stmts, i + 1, k);
                    }
                }
                let y = self.lete(&base, &x);
                self.bind_pat(pat, &y)?;
                self.seq(stmts, i + 1, k)
            }
            Stmt::Macro(m) => {
                let x = self.mac(&m.mac)?;
                if last && m.semi_token.is_none() {
                    return self.cont(x, k);
                }
                self.seq(stmts, i + 1, k)
            }
            Stmt::Expr(e, semi) => {
                let e = strip(e);
                let tail = last && semi.is_none();
                if has_exit(e) {
                    match e {
                        Expr::Return(_) | Expr::Break(_) | Expr::Continue(_) => return self.exit(e),
                        _ => {}
                    }
                    if tail {
                        return self.cps(e, k);
                    }
                    let kk = Kont { bind: None, stmts, i: i + 1, depth: self.env.len(), next: k };
                    return self.cps(e, Some(&kk));
                }
                if tail {
                    let x = match k {
                        None if matches!(self.retk.last(), Some(RetK::Fn(_))) && self.env.len() == 2 => {
                            let rt = self.ret_ty.clone();
                            self.expr_as(e, &rt)?
                        }
                        _ => self.expr(e)?,
                    };
                    return self.cont(x, k);
                }
                if let Expr::Call(c) = e {
                    if let Expr::Path(p) = &*c.func {
                        let n = lastseg(&p.path);
                        if n == "drop" || n == "black_box" {
                            return self.seq(stmts, i + 1, k);
                        }
                    }
                }
                self.expr(e)?;
                self.seq(stmts, i + 1, k)
            }
        }
    }

    fn cont(&mut self, x: Val, k: Option<&Kont>) -> R<Out> {
        let Some(k) = k else { return Ok(Out::V(x)) };
        self.env.truncate(k.depth);
        if let Some((p, _)) = k.bind {
            let (pat, x) = match p {
                Pat::Type(t) => {
                    let ty = self.ty(&t.ty)?;
                    (&*t.pat, self.coerce(&x, &ty)?)
                }
                p => (p, x),
            };
            let y = self.lete("p", &x);
            self.bind_pat(pat, &y)?;
        }
        self.seq(k.stmts, k.i, k.next)
    }

    fn exit(&mut self, e: &Expr) -> R<Out> {
        match e {
            Expr::Return(r) => {
                let kk = self.retk.last().unwrap().clone();
                match kk {
                    RetK::Fn(_) | RetK::Closure => {
                        let x = match &r.expr {
                            Some(e) => {
                                if let RetK::Fn(_) = kk {
                                    let rt = self.ret_ty.clone();
                                    self.expr_as(e, &rt)?
                                } else {
                                    self.expr(e)?
                                }
                            }
                            None => self.unit(),
                        };
                        let c = self.result_code(&x)?;
                        Ok(Out::Ret(c))
                    }
                    RetK::Loop { mods, ret } => {
                        if !ret {
                            return err("return in loop");
                        }
                        let x = match &r.expr {
                            Some(e) => {
                                let rt = self.ret_ty.clone();
                                self.expr_as(e, &rt)?
                            }
                            None => self.unit(),
                        };
                        let t = self.term(&x);
                        Ok(Out::Ret(self.loop_code(&mods, ret, false, Some(t))))
                    }
                }
            }
            Expr::Break(b) => match self.retk.last().unwrap().clone() {
                RetK::Loop { mods, ret } if b.expr.is_none() && b.label.is_none() => {
                    Ok(Out::Ret(self.loop_code(&mods, ret, false, None)))
                }
                _ => err("break"),
            },
            Expr::Continue(c) => match self.retk.last().unwrap().clone() {
                RetK::Loop { mods, ret } if c.label.is_none() => Ok(Out::Ret(self.loop_code(&mods, ret, true, None))),
                _ => err("continue"),
            },
            _ => err("exit"),
        }
    }

    /// run a branch ending in the continuation, as complete monadic code
    fn branch_code(&mut self, f: impl FnOnce(&mut Self) -> R<Out>) -> R<String> {
        let saved: Vec<String> = self.vars.iter().map(|v| v.cur.clone()).collect();
        let env = self.env.clone();
        let (items, out) = {
            let old = std::mem::take(&mut self.items);
            let r = f(self);
            let it = std::mem::replace(&mut self.items, old);
            (it, r?)
        };
        // finishing may add items (coercions)
        let old = std::mem::replace(&mut self.items, items);
        let code = match out {
            Out::Ret(c) => c,
            Out::V(x) => self.result_code(&x)?,
        };
        let items = std::mem::replace(&mut self.items, old);
        for (i, c) in saved.into_iter().enumerate() {
            self.vars[i].cur = c;
        }
        self.env = env;
        Ok(wrap(&items, code))
    }

    fn cps(&mut self, e: &Expr, k: Option<&Kont>) -> R<Out> {
        match e {
            Expr::Return(_) | Expr::Break(_) | Expr::Continue(_) => self.exit(e),
            Expr::Paren(p) => self.cps(&p.expr, k),
            Expr::Block(b) => {
                self.env.push(HashMap::new());
                self.seq(&b.block.stmts, 0, k.map(|x| x).as_deref()).map(|o| o)
            }
            Expr::Unsafe(b) => {
                self.env.push(HashMap::new());
                self.seq(&b.block.stmts, 0, k)
            }
            Expr::If(ie) => {
                if let Expr::Let(l) = strip(&ie.cond) {
                    if has_exit(&l.expr) {
                        return err("exit in condition");
                    }
                    let x = self.expr(&l.expr)?;
                    let x = self.lete("m", &x);
                    return self.cps_iflet(&l.pat, x, ie, k);
                }
                if has_exit(&ie.cond) {
                    return err("exit in condition");
                }
                let c = self.expr(&ie.cond)?;
                let c = self.prop_t(&c);
                let a = self.branch_code(|s| {
                    s.env.push(HashMap::new());
                    s.seq(&ie.then_branch.stmts, 0, k)
                })?;
                let b = match &ie.else_branch {
                    Some((_, e)) => self.branch_code(|s| s.cps_or_val(e, k))?,
                    None => self.branch_code(|s| {
                        let u = s.unit();
                        s.cont(u, k)
                    })?,
                };
                Ok(Out::Ret(format!("(if {c} then\n {a} else\n {b})")))
            }
            Expr::Match(m) => {
                if has_exit(&m.expr) {
                    return err("exit in scrutinee");
                }
                let x = self.expr(&m.expr)?;
                let x = self.lete("m", &x);
                self.match_gen(&x, &m.arms, &mut |s, body| s.branch_code(|s| s.cps_or_val(body, k)))
                    .map(Out::Ret)
            }
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                // loop containing `return`
                let r = self.loop_ret(e)?;
                match r {
                    None => {
                        let u = self.unit();
                        self.cont(u, k)
                    }
                    Some(rv) => {
                        // rv : Option R — returned value
                        let n = self.fresh("rv");
                        let rest = self.branch_code(|s| {
                            let u = s.unit();
                            s.cont(u, k)
                        })?;
                        let rt = self.ret_ty.clone();
                        let rc = match self.retk.last().unwrap().clone() {
                            RetK::Loop { mods, ret: true } => self.loop_code(&mods, true, false, Some(n.clone())),
                            RetK::Loop { .. } => return err("return in loop"),
                            _ => self.result_code(&v(n.clone(), rt))?,
                        };
                        Ok(Out::Ret(format!("(match {rv} with\n | some {n} => {rc}\n | none => {rest})")))
                    }
                }
            }
            e => err(format!("early exit inside {}", kind_of(e))),
        }
    }
    fn cps_or_val(&mut self, e: &Expr, k: Option<&Kont>) -> R<Out> {
        let e = strip(e);
        if has_exit(e) {
            return self.cps(e, k);
        }
        let x = self.expr(e)?;
        self.cont(x, k)
    }
    fn cps_iflet(&mut self, pat: &Pat, x: Val, ie: &ExprIf, k: Option<&Kont>) -> R<Out> {
        let (lp, binds) = self.ctor_pat(pat, &x)?;
        let a = self.branch_code(|s| {
            s.env.push(HashMap::new());
            for (p, y) in &binds {
                s.bind_pat(p, y)?;
            }
            s.env.push(HashMap::new());
            s.seq(&ie.then_branch.stmts, 0, k)
        })?;
        let b = match &ie.else_branch {
            Some((_, e)) => self.branch_code(|s| s.cps_or_val(e, k))?,
            None => self.branch_code(|s| {
                let u = s.unit();
                s.cont(u, k)
            })?,
        };
        Ok(Out::Ret(format!("(match {} with\n | {lp} => {a}\n | _ => {b})", x.t)))
    }
    fn let_else(&mut self, pat: &Pat, x: Val, els: &Expr, stmts: &[Stmt], i: usize, k: Option<&Kont>) -> R<Out> {
        let x = self.lete("m", &x);
        let (lp, binds) = self.ctor_pat(pat, &x)?;
        let b = self.branch_code(|s| s.cps_or_val(els, None))?;
        let a = self.branch_code(|s| {
            for (p, y) in &binds {
                s.bind_pat(p, y)?;
            }
            s.seq(stmts, i + 1, k)
        })?;
        Ok(Out::Ret(format!("(match {} with\n | {lp} => {a}\n | _ => {b})", x.t)))
    }

    /// Lean constructor pattern with sub-bindings
    fn ctor_pat(&mut self, p: &Pat, x: &Val) -> R<(String, Vec<(Pat, Val)>)> {
        let ty = self.sh(&x.ty);
        match p {
            Pat::Wild(_) => Ok(("_".into(), vec![])),
            Pat::Paren(q) => self.ctor_pat(&q.pat, x),
            Pat::Reference(q) => self.ctor_pat(&q.pat, x),
            Pat::Ident(i) if i.subpat.is_none() => {
                let n = i.ident.to_string();
                if n == "None" {
                    return Ok(("none".into(), vec![]));
                }
                Ok(("_".into(), vec![(p.clone(), x.clone())]))
            }
            Pat::Path(pp) => {
                let n = lastseg(&pp.path);
                Ok((self.ctor_name(&ty, &n)?, vec![]))
            }
            Pat::TupleStruct(ts) => {
                let n = lastseg(&ts.path);
                let (cn, argt): (String, Vec<Ty>) = match (&ty, n.as_str()) {
                    (Ty::Opt(t), "Some") => ("some".into(), vec![(**t).clone()]),
                    (Ty::Var(_), "Some") => {
                        let t = self.tys.fresh(Kind::Any);
                        self.uni(&ty, &opt(t.clone()))?;
                        ("some".into(), vec![t])
                    }
                    (Ty::Adt(en, args), _) => (self.ctor_name(&ty, &n)?, self.variant_args(en, &n, args)?),
                    _ => return err(format!("pattern {}", p.to_token_stream())),
                };
                let mut s = cn;
                let mut binds = vec![];
                for (q, t) in ts.elems.iter().zip(argt) {
                    let b = self.fresh("c");
                    s.push(' ');
                    s.push_str(&b);
                    match q {
                        Pat::Ident(_) | Pat::Wild(_) | Pat::Tuple(_) | Pat::Reference(_) | Pat::Type(_) => binds.push((q.clone(), v(b, t))),
                        _ => return err("nested pattern"),
                    }
                }
                Ok((s, binds))
            }
            Pat::Or(o) => {
                let mut parts = vec![];
                for c in &o.cases {
                    let (s, b) = self.ctor_pat(c, x)?;
                    if !b.is_empty() {
                        return err("or-pattern with bindings");
                    }
                    parts.push(s);
                }
                Ok((parts.join(" | "), vec![]))
            }
            _ => err(format!("pattern {}", p.to_token_stream())),
        }
    }
    fn ctor_name(&mut self, ty: &Ty, n: &str) -> R<String> {
        match ty {
            Ty::Ord => Ok(match n {
                "Less" => "Ordering.lt",
                "Equal" => "Ordering.eq",
                "Greater" => "Ordering.gt",
                _ => return err("Ordering"),
            }
            .into()),
            Ty::Opt(_) if n == "None" => Ok("none".into()),
            Ty::Adt(e, _) => {
                self.adts.insert(e.clone());
                Ok(format!("{e}.{n}"))
            }
            _ => err(format!("constructor {n}")),
        }
    }
    fn variant_args(&mut self, en: &str, var: &str, args: &[Ty]) -> R<Vec<Ty>> {
        let (_, e) = self.kr.enums.get(en).ok_or(format!("enum {en}"))?;
        let mut gm = HashMap::new();
        let mut i = 0;
        for p in &e.generics.params {
            if let GenericParam::Type(t) = p {
                gm.insert(t.ident.to_string(), args.get(i).cloned().unwrap_or(Ty::F));
                i += 1;
            }
        }
        let vt = e.variants.iter().find(|v| v.ident == var).ok_or("variant")?;
        let mut out = vec![];
        for f in &vt.fields {
            out.push(ty_of(self.kr, &f.ty, &gm, &None, &mut None)?);
        }
        Ok(out)
    }

    /// generic match: each arm rendered by `go` (all monadic)
    fn match_gen(&mut self, x: &Val, arms: &[Arm], go: &mut dyn FnMut(&mut Self, &Expr) -> R<String>) -> R<String> {
        let ty = self.sh(&x.ty);
        let enumlike = matches!(ty, Ty::Opt(_) | Ty::Ord)
            || matches!(&ty, Ty::Adt(n, _) if self.kr.enums.contains_key(n))
            || (matches!(ty, Ty::Var(_)) && arms.iter().any(|a| matches!(a.pat, Pat::TupleStruct(_))));
        if enumlike {
            let mut s = format!("(match {} with", x.t);
            for a in arms {
                if a.guard.is_some() {
                    return err("match guard on enum");
                }
                let (lp, binds) = self.ctor_pat(&a.pat, x)?;
                self.env.push(HashMap::new());
                for (p, y) in &binds {
                    self.bind_pat(p, y)?;
                }
                let c = go(self, &a.body)?;
                self.env.pop();
                s.push_str(&format!("\n | {lp} => {c}"));
            }
            s.push(')');
            return Ok(s);
        }
        let mut out: Vec<(Option<String>, String)> = vec![];
        for a in arms {
            let mut binds = vec![];
            let mut cs = self.test_pat(&a.pat, x, &mut binds)?;
            self.env.push(HashMap::new());
            for (p, y) in &binds {
                self.bind_pat(p, y)?;
            }
            if let Some((_, g)) = &a.guard {
                let (it, gv) = self.sub(|s| s.expr(g))?;
                if mon(&it) {
                    return err("monadic guard");
                }
                let gp = self.prop_t(&gv);
                cs.push(wrap(&it, gp));
            }
            let c = go(self, &a.body)?;
            self.env.pop();
            let cond = if cs.is_empty() { None } else { Some(cs.join(" ∧ ")) };
            let done = cond.is_none();
            out.push((cond, c));
            if done {
                break;
            }
        }
        let (_, mut s) = out.pop().ok_or("empty match")?;
        for (c, b) in out.into_iter().rev() {
            s = format!("(if {} then\n {b} else\n {s})", c.unwrap());
        }
        Ok(s)
    }

    // ---------- branches without exits
    fn branch(&mut self, f: impl FnOnce(&mut Self) -> R<Val>) -> R<(Vec<Item>, Val, Vec<String>)> {
        let saved: Vec<String> = self.vars.iter().map(|v| v.cur.clone()).collect();
        let env = self.env.clone();
        let r = self.sub(f);
        let after: Vec<String> = self.vars.iter().take(saved.len()).map(|v| v.cur.clone()).collect();
        for (i, c) in saved.into_iter().enumerate() {
            self.vars[i].cur = c;
        }
        self.env = env;
        let (it, x) = r?;
        Ok((it, x, after))
    }
    /// combine alternatives; `render` builds the conditional from branch codes
    fn merge(&mut self, sp: &impl Spanned, brs: Vec<(Vec<Item>, Val, Vec<String>)>, render: &dyn Fn(&[String]) -> String) -> R<Val> {
        let n = self.vars.len();
        let mut mods = vec![];
        for id in 0..n {
            for (_, _, aft) in &brs {
                if id < aft.len() && aft[id] != self.vars[id].cur {
                    mods.push(id);
                    break;
                }
            }
        }
        let ty = self.tys.keyed(key(sp, "merge"), Kind::Any);
        let mut fails = 0;
        for (it, x, _) in &brs {
            if it.iter().any(|i| matches!(i, Item::Fail)) {
                fails += 1;
                continue;
            }
            self.uni(&ty, &x.ty)?;
        }
        if fails == brs.len() {
            let codes: Vec<String> = brs.iter().map(|_| "none".to_string()).collect();
            let _ = codes;
            self.items.push(Item::Fail);
            return Ok(v("()", ty));
        }
        let any_mon = brs.iter().any(|b| mon(&b.0));
        let is_unit = self.sh(&ty) == Ty::Unit;
        if is_unit && mods.is_empty() && !any_mon {
            return Ok(self.unit());
        }
        let allprop = mods.is_empty() && !any_mon && brs.iter().all(|b| b.1.prop);
        let mut codes = vec![];
        for (it, x, aft) in &brs {
            if it.iter().any(|i| matches!(i, Item::Fail)) {
                codes.push(wrap(it, "none".into()));
                continue;
            }
            let x2 = {
                let (it2, x2) = self.sub(|s| s.coerce(x, &ty))?;
                if !it2.is_empty() {
                    return err("coercion in branch");
                }
                x2
            };
            let mut parts = vec![];
            if !is_unit {
                parts.push(if allprop { x2.t.clone() } else { self.term(&x2) });
            }
            for m in &mods {
                parts.push(aft.get(*m).cloned().unwrap_or("default".into()));
            }
            let t = tup(&parts);
            codes.push(wrap(it, if any_mon { app("some", &[&t]) } else { t }));
        }
        let code = render(&codes);
        let np = mods.len() + if is_unit { 0 } else { 1 };
        if np == 0 {
            let b = self.bind("u", code, Ty::Unit);
            let _ = b;
            return Ok(self.unit());
        }
        if !any_mon && np == 1 && !is_unit {
            let mut r = v(code, ty);
            r.prop = allprop;
            return Ok(r);
        }
        let name = if any_mon {
            self.bind("r", code, Ty::Unit).t
        } else {
            let nm = self.fresh("r");
            self.items.push(Item::Let(nm.clone(), code));
            nm
        };
        let mut i = 0;
        let res = if is_unit {
            self.unit()
        } else {
            i = 1;
            v(proj(&name, 0, np), ty)
        };
        for m in mods {
            self.set_cur(m, proj(&name, i, np));
            i += 1;
        }
        Ok(res)
    }

    fn if_expr(&mut self, ie: &ExprIf) -> R<Val> {
        if let Expr::Let(l) = strip(&ie.cond) {
            let x = self.expr(&l.expr)?;
            let x = self.lete("m", &x);
            let (lp, binds) = self.ctor_pat(&l.pat, &x)?;
            let a = self.branch(|s| {
                s.env.push(HashMap::new());
                for (p, y) in &binds {
                    s.bind_pat(p, y)?;
                }
                s.block_val(&ie.then_branch)
            })?;
            let b = self.branch(|s| match &ie.else_branch {
                Some((_, e)) => s.expr(e),
                None => Ok(s.unit()),
            })?;
            let t = x.t.clone();
            return self.merge(ie, vec![a, b], &|c| format!("(match {t} with\n | {lp} => {}\n | _ => {})", c[0], c[1]));
        }
        let c = self.expr(&ie.cond)?;
        let c = self.prop_t(&c);
        let a = self.branch(|s| s.block_val(&ie.then_branch))?;
        let b = self.branch(|s| match &ie.else_branch {
            Some((_, e)) => s.expr(e),
            None => Ok(s.unit()),
        })?;
        if c == "False" {
            // statically dead
        }
        self.merge(ie, vec![a, b], &|k| format!("(if {c} then\n {} else\n {})", k[0], k[1]))
    }

    fn match_expr(&mut self, m: &ExprMatch) -> R<Val> {
        let x = self.expr(&m.expr)?;
        let x = match strip(&m.expr) {
            Expr::Tuple(_) => x,
            _ => self.lete("m", &x),
        };
        if let Some(k) = &x.known {
            // statically Some
            for a in &m.arms {
                if let Pat::TupleStruct(ts) = &a.pat {
                    if ts.path.is_ident("Some") && ts.elems.len() == 1 {
                        self.env.push(HashMap::new());
                        self.bind_pat(&ts.elems[0], k)?;
                        let r = self.expr(&a.body);
                        self.env.pop();
                        return r;
                    }
                }
            }
        }
        let brs = std::cell::RefCell::new(vec![]);
        let mut n = 0usize;
        // tuple scrutinee written inline: test components without building the pair
        let code = self.match_gen(&x, &m.arms, &mut |s, body| {
            let b = s.branch(|s| s.expr(body))?;
            brs.borrow_mut().push(b);
            n += 1;
            Ok(format!("⟪{}⟫", n - 1))
        })?;
        let brs = brs.into_inner();
        self.merge(m, brs, &|c| {
            let mut s = code.clone();
            for (i, x) in c.iter().enumerate() {
                s = s.replace(&format!("⟪{i}⟫"), x);
            }
            s
        })
    }
}

fn kind_of(e: &Expr) -> String {
    let s = e.to_token_stream().to_string();
    s.chars().take(60).collect()
}
/// syntactically free of calls that could matter (used only for discarded values)
pub fn pure_looking(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Reference(r) => r.mutability.is_none() && pure_looking(&r.expr),
        Expr::Paren(r) => pure_looking(&r.expr),
        Expr::Tuple(t) => t.elems.iter().all(pure_looking),
        Expr::Call(c) => {
            let f = c.func.to_token_stream().to_string();
            (f.ends_with("black_box") || f.ends_with("size_of_val") || f.ends_with("size_of")) && c.args.iter().all(pure_looking)
        }
        Expr::Field(f) => pure_looking(&f.base),
        _ => false,
    }
}

include!("expr.rs");

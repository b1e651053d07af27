// part of tr.rs: expressions
use std::cell::RefCell;

pub fn pint_term(s: &str) -> String {
    if s.starts_with("IntTy.") {
        s.into()
    } else {
        format!("ity_{s}")
    }
}

impl<'a> Fx<'a> {
    fn lit(&mut self, n: &str, t: &Ty) -> Val {
        let lt = self.lt(t);
        v(format!("({n} : {lt})"), t.clone())
    }
    pub fn coerce(&mut self, x: &Val, t: &Ty) -> R<Val> {
        let a = self.sh(&x.ty);
        let b = self.sh(t);
        match (&a, &b) {
            (Ty::Arr(e, _), Ty::List(f)) => {
                self.uni(e, f)?;
                let mut y = v(app("List.ofFn", &[&x.t]), b.clone());
                y.prov = x.prov.clone();
                return Ok(y);
            }
            (Ty::List(e), Ty::Arr(f, _)) => {
                self.uni(e, f)?;
                if x.t.starts_with('[') {
                    return Ok(v(format!("!{}", x.t), b.clone()));
                }
                return err("list where a small array is expected");
            }
            (Ty::Lstsq(e), Ty::List(f)) => {
                self.uni(e, f)?;
                return Ok(v(x.t.clone(), b.clone()));
            }
            (Ty::Mat(e), Ty::List(f)) => {
                self.uni(e, f)?;
                return Ok(v(app("rsMatToList", &[&x.t]), b.clone()));
            }
            _ => {}
        }
        self.uni(&a, &b)?;
        let mut y = x.clone();
        y.ty = b;
        Ok(y)
    }
    pub fn expr_as(&mut self, e: &Expr, t: &Ty) -> R<Val> {
        let ts = self.sh(t);
        match (strip(e), &ts) {
            (Expr::Array(a), Ty::Arr(et, n)) if a.elems.len() == *n => {
                let mut parts = vec![];
                for x in &a.elems {
                    let y = self.expr_as(x, et)?;
                    parts.push(self.term(&y));
                }
                return Ok(v(format!("![{}]", parts.join(", ")), ts.clone()));
            }
            (Expr::Repeat(r), Ty::Arr(et, _)) => {
                let y = self.expr_as(&r.expr, et)?;
                let t = self.term(&y);
                return Ok(v(format!("(fun _ => {t})"), ts.clone()));
            }
            (Expr::Reference(r), _) if r.mutability.is_none() => return self.expr_as(&r.expr, t),
            _ => {}
        }
        let x = self.expr(e)?;
        self.coerce(&x, t)
    }

    pub fn expr(&mut self, e: &Expr) -> R<Val> {
        match e {
            Expr::Paren(p) => self.expr(&p.expr),
            Expr::Group(p) => self.expr(&p.expr),
            Expr::Reference(r) => self.expr(&r.expr),
            Expr::Lit(l) => match &l.lit {
                Lit::Int(i) => {
                    let d = i.base10_digits().to_string();
                    let t = match i.suffix() {
                        "" => self.tys.keyed(key(e, "lit"), Kind::Int),
                        "usize" => Ty::Nat,
                        "f32" | "f64" => Ty::F,
                        "isize" => Ty::Z,
                        x => Ty::PInt(format!("IntTy.{x}")),
                    };
                    if self.sh(&t) == Ty::F {
                        return self.flit(&d);
                    }
                    Ok(self.lit(&d, &t))
                }
                Lit::Float(f) => {
                    let t = match f.suffix() {
                        "" => self.tys.keyed(key(e, "lit"), Kind::Float),
                        _ => Ty::F,
                    };
                    let d = f.base10_digits().to_string();
                    let mut x = self.flit(&d)?;
                    x.ty = t;
                    Ok(x)
                }
                Lit::Bool(b) => Ok(vp(if b.value { "True" } else { "False" })),
                Lit::Str(_) => Ok(v("\"\"", Ty::Str)),
                _ => err("literal"),
            },
            Expr::Path(p) => self.path_val(p),
            Expr::Unary(u) => match u.op {
                UnOp::Deref(_) => self.expr(&u.expr),
                UnOp::Not(_) => {
                    let x = self.expr(&u.expr)?;
                    if matches!(self.sh(&x.ty), Ty::Bool) || x.prop {
                        let p = self.prop_t(&x);
                        Ok(vp(format!("(¬ {p})")))
                    } else {
                        err("bitwise not")
                    }
                }
                UnOp::Neg(_) => {
                    let x = self.expr(&u.expr)?;
                    match self.sh(&x.ty) {
                        Ty::PInt(i) => Ok(self.bind("n", app("rsNeg", &[&pint_term(&i), &x.t]), x.ty.clone())),
                        Ty::Nat => err("negation of usize"),
                        _ => Ok(v(format!("(- {})", x.t), x.ty.clone())),
                    }
                }
                _ => err("unary"),
            },
            Expr::Binary(b) => self.binary(b),
            Expr::Assign(a) => {
                if let Expr::Infer(_) = &*a.left {
                    self.expr(&a.right)?;
                    return Ok(self.unit());
                }
                if let Expr::Tuple(t) = strip(&a.left) {
                    let x = self.expr(&a.right)?;
                    let x = self.lete("t", &x);
                    let n = t.elems.len();
                    let tys: Vec<Ty> = match self.sh(&x.ty) {
                        Ty::Tup(v) => v,
                        _ => return err("tuple assignment"),
                    };
                    for (i, l) in t.elems.iter().enumerate() {
                        let p = self.place(l)?.ok_or("assignment target")?;
                        self.uni(&p.ty, &tys[i])?;
                        self.write_place(&p, proj(&x.t, i, n))?;
                    }
                    return Ok(self.unit());
                }
                // variable being (re)initialised with a fresh iterator etc.
                let lt = match self.place(&a.left)? {
                    Some(p) => p,
                    None => return err(format!("assignment target {}", a.left.to_token_stream())),
                };
                let x = self.expr_as(&a.right, &lt.ty)?;
                // re-evaluate the place after the right-hand side (it may have rebound the root)
                let t = self.term(&x);
                self.write_place(&lt, t)?;
                self.vars_written(lt.root);
                Ok(self.unit())
            }
            Expr::Field(f) => {
                if let Some(p) = self.place(e)? {
                    return self.read_place(&p);
                }
                let b = self.expr(&f.base)?;
                let (seg, ty) = self.field_seg(&b.ty, &f.member, f)?;
                let t = self.read_seg(&b.t, &seg);
                let mut r = v(t, ty);
                if let (Prov::Zip(a, c), Seg::Tup(i, 2)) = (&b.prov, &seg) {
                    r.prov = if *i == 0 { (**a).clone() } else { (**c).clone() };
                }
                Ok(r)
            }
            Expr::Index(ix) => {
                if let Some(p) = self.place(&ix.expr)? {
                    let small = matches!(self.sh(&p.ty), Ty::Arr(..)) && !matches!(strip(&ix.index), Expr::Lit(_));
                    if !small {
                        let p = self.index_place(p, &ix.index)?;
                        return self.read_place(&p);
                    }
                }
                let b = self.expr(&ix.expr)?;
                let b = match self.sh(&b.ty) {
                    Ty::Arr(t, _) => self.coerce(&b, &list(*t))?,
                    _ => b,
                };
                self.index_val(b, &ix.index)
            }
            // an exponent of powi may be cast to i32: exponents stay below 2^31
            Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.segments.last().unwrap().ident == "powi") => {
                self.powi += 1;
                let r = self.call(c);
                self.powi -= 1;
                r
            }
            Expr::MethodCall(m) if m.method == "powi" => {
                self.powi += 1;
                let r = self.method(m);
                self.powi -= 1;
                r
            }
            Expr::Call(c) => self.call(c),
            Expr::MethodCall(m) => self.method(m),
            Expr::Tuple(t) => {
                if t.elems.is_empty() {
                    return Ok(self.unit());
                }
                let mut ts = vec![];
                let mut tys = vec![];
                for x in &t.elems {
                    let y = self.expr(x)?;
                    ts.push(self.term(&y));
                    tys.push(y.ty);
                }
                Ok(v(tup(&ts), Ty::Tup(tys)))
            }
            Expr::Array(a) => {
                let et = self.tys.keyed(key(e, "arr"), Kind::Any);
                let mut parts = vec![];
                for x in &a.elems {
                    let y = self.expr_as(x, &et)?;
                    parts.push(self.term(&y));
                }
                Ok(v(format!("[{}]", parts.join(", ")), list(et)))
            }
            Expr::Repeat(r) => {
                let x = self.expr(&r.expr)?;
                let n = self.expr_as(&r.len, &Ty::Nat)?;
                let t = self.term(&x);
                Ok(v(app("List.replicate", &[&n.t, &t]), list(x.ty)))
            }
            Expr::Struct(s) => self.struct_expr(s),
            Expr::Cast(c) => {
                let x = self.expr(&c.expr)?;
                let n = type_name(&c.ty);
                if n == "i32" && self.powi > 0 {
                    return self.cast(&x, &Ty::Z);
                }
                if n == "f32" && self.sh(&x.ty) == Ty::F {
                    return err("narrowing cast to f32");
                }
                let t = self.ty(&c.ty)?;
                self.cast(&x, &t)
            }
            Expr::If(i) => self.if_expr(i),
            Expr::Match(m) => self.match_expr(m),
            Expr::Block(b) => self.block_val(&b.block),
            Expr::Unsafe(b) => self.block_val(&b.block),
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                if let Some(_) = self.loop_ret(e)? {
                    return err("return in loop");
                }
                Ok(self.unit())
            }
            Expr::Closure(c) => self.closure_val(c),
            Expr::Macro(m) => self.mac(&m.mac),
            Expr::Range(r) => self.range_list(r),
            _ => err(format!("expression {}", kind_of(e))),
        }
    }
    fn vars_written(&mut self, _r: usize) {}

    fn flit(&mut self, d: &str) -> R<Val> {
        let mut s = d.replace('E', "e").replace('_', "");
        if s.ends_with('.') {
            s.pop();
        }
        if let Some(st) = s.strip_suffix(".0") {
            s = st.to_string();
        }
        if self.abs {
            if s == "0" || s == "1" {
                return Ok(v(format!("({s} : K)"), Ty::F));
            }
            if s.chars().all(|c| c.is_ascii_digit()) {
                return Ok(v(format!("((({s} : ℕ)) : K)"), Ty::F));
            }
            return err("float literal in abstract arithmetic");
        }
        Ok(v(format!("({s} : ℝ)"), Ty::F))
    }

    fn path_val(&mut self, p: &ExprPath) -> R<Val> {
        let n = lastseg(&p.path);
        let segs = p.path.segments.len();
        if segs == 1 && p.qself.is_none() {
            if let Some(id) = self.lookup(&n) {
                return self.read_var(id);
            }
            if n == "None" {
                let t = self.tys.keyed(key(p, "none"), Kind::Any);
                return Ok(v("none", opt(t)));
            }
            if let Some(t) = self.gm.get(&n) {
                if *t == Ty::Unit {
                    return Ok(v(n, Ty::Nat)); // const generic
                }
            }
        }
        if n == "PI" || n == "TAU" {
            return Ok(v(if n == "PI" { "Real.pi" } else { "(2 * Real.pi)" }, Ty::F));
        }
        if segs >= 2 {
            let q = p.path.segments[segs - 2].ident.to_string();
            if q == "Ordering" {
                let t = self.ctor_name(&Ty::Ord, &n)?;
                return Ok(v(t, Ty::Ord));
            }
            if let Some((_, e)) = self.kr.enums.get(&q) {
                self.adts.insert(q.clone());
                let k = e.generics.params.iter().filter(|p| matches!(p, GenericParam::Type(_))).count();
                return Ok(v(format!("{q}.{n}"), Ty::Adt(q, vec![Ty::F; k])));
            }
            if q == "Self" || self.gm.contains_key(&q) || ["f32", "f64", "usize", "isize", "u8", "u16", "u32", "u64", "u128"].contains(&q.as_str()) {
                let t = if q == "Self" { self.self_ty.clone().ok_or("Self")? } else if let Some(t) = self.gm.get(&q) { t.clone() } else { err("assoc const")? };
                match n.as_str() {
                    "ZERO" => return Ok(self.lit("0", &t)),
                    "ONE" => return Ok(self.lit("1", &t)),
                    "MAX" | "MIN" => {
                        if let Ty::PInt(i) = &t {
                            let f = if n == "MAX" { "hi" } else { "lo" };
                            return Ok(v(format!("{}.{f}", pint_term(i)), t.clone()));
                        }
                    }
                    _ => {}
                }
            }
        }
        if let Some((_, c)) = self.kr.consts.get(&n) {
            let ty = ty_of(self.kr, &c.ty, &HashMap::new(), &None, &mut None)?;
            self.cdeps.insert(n.clone());
            return Ok(v(n, ty));
        }
        err(format!("path {}", p.to_token_stream()))
    }

    fn cast(&mut self, x: &Val, t: &Ty) -> R<Val> {
        let a = self.sh(&x.ty);
        let b = self.sh(t);
        if a == b {
            return Ok(x.clone());
        }
        Ok(match (&a, &b) {
            (Ty::Nat, Ty::F) => v(format!("((({}) : ℕ) : {})", x.t, self.lt(&Ty::F)), b),
            (Ty::Z | Ty::PInt(_), Ty::F) => v(format!("((({}) : ℤ) : {})", x.t, self.lt(&Ty::F)), b),
            (Ty::Nat, Ty::Z) => {
                let mut y = v(format!("((({}) : ℕ) : ℤ)", x.t), b);
                y.nat = Some(x.t.clone());
                y
            }
            (Ty::Z | Ty::PInt(_), Ty::Nat) => v(app("rsAsUsize", &[&x.t]), b),
            (Ty::Z, Ty::Z) => x.clone(),
            // `as` to a fixed width keeps the value modulo 2^width. Lengths and indices are taken to fit 32 bits.
            (Ty::Nat, Ty::PInt(i)) => {
                let z = format!("((({}) : ℕ) : ℤ)", x.t);
                let mut y = match i.as_str() {
                    "IntTy.u8" | "IntTy.i8" | "IntTy.u16" | "IntTy.i16" => v(app("rsWrap", &[i, &z]), b.clone()),
                    _ if i.starts_with("IntTy.") => v(z, b.clone()),
                    _ => return err("integer cast between widths"),
                };
                if !y.t.contains("rsWrap") {
                    y.nat = Some(x.t.clone());
                }
                y
            }
            (Ty::Z | Ty::PInt(_), Ty::PInt(i)) => match i.as_str() {
                "IntTy.i64" | "IntTy.i128" if a == Ty::Z => v(x.t.clone(), b.clone()),
                _ if i.starts_with("IntTy.") => v(app("rsWrap", &[i, &x.t]), b.clone()),
                _ => return err("integer cast between widths"),
            },
            (Ty::PInt(i), Ty::Z) => match i.as_str() {
                "IntTy.u8" | "IntTy.i8" | "IntTy.u16" | "IntTy.i16" | "IntTy.u32" | "IntTy.i32" | "IntTy.i64" => v(x.t.clone(), b.clone()),
                _ if i.starts_with("IntTy.") => v(app("rsWrap", &["IntTy.i64", &x.t]), b.clone()),
                _ => return err("integer cast between widths"),
            },
            (Ty::F, Ty::F) => x.clone(),
            (Ty::Bool, Ty::Nat) => {
                let p = self.prop_t(x);
                v(format!("(if {p} then (1 : ℕ) else 0)"), b)
            }
            (Ty::Bool, Ty::Z) => {
                let p = self.prop_t(x);
                v(format!("(if {p} then (1 : ℤ) else 0)"), b)
            }
            (Ty::Var(_), _) => {
                // literal: take the target type (default integer width otherwise)
                if matches!(b, Ty::F) {
                    self.uni(&a, &Ty::F).ok();
                    v(x.t.clone(), b)
                } else {
                    self.uni(&a, &b)?;
                    v(x.t.clone(), b)
                }
            }
            _ => return err(format!("cast {a:?} -> {b:?}")),
        })
    }

    // ---------- operators
    fn binary(&mut self, b: &ExprBinary) -> R<Val> {
        use BinOp::*;
        match b.op {
            And(_) | Or(_) => {
                let is_and = matches!(b.op, And(_));
                let l = self.expr(&b.left)?;
                let lp = self.prop_t(&l);
                let (it, r) = self.sub(|s| s.expr(&b.right))?;
                let rp = self.prop_t(&r);
                if !mon(&it) {
                    let rp = wrap(&it, rp);
                    return Ok(vp(format!("({lp} {} {rp})", if is_and { "∧" } else { "∨" })));
                }
                let rb = self.bool_t(&r);
                let rc = wrap(&it, app("some", &[&rb]));
                let code = if is_and {
                    format!("(if {lp} then\n {rc} else (some false))")
                } else {
                    format!("(if {lp} then (some true) else\n {rc})")
                };
                Ok(self.bind("b", code, Ty::Bool))
            }
            Eq(_) | Ne(_) | Lt(_) | Le(_) | Gt(_) | Ge(_) => {
                let l = self.expr(&b.left)?;
                let r = self.expr(&b.right)?;
                self.compare(&b.op, l, r)
            }
            AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) => {
                let r = self.expr(&b.right)?;
                let p = self.place(&b.left)?.ok_or(format!("assignment target {}", b.left.to_token_stream()))?;
                let l = self.read_place(&p)?;
                let op = match b.op {
                    AddAssign(_) => '+',
                    SubAssign(_) => '-',
                    MulAssign(_) => '*',
                    DivAssign(_) => '/',
                    _ => '%',
                };
                let x = self.arith(op, l, r)?;
                let t = self.term(&x);
                self.write_place(&p, t)?;
                Ok(self.unit())
            }
            Add(_) | Sub(_) | Mul(_) | Div(_) | Rem(_) | BitAnd(_) | BitOr(_) | Shl(_) | Shr(_) | BitXor(_) => {
                let l = self.expr(&b.left)?;
                let r = self.expr(&b.right)?;
                let op = match b.op {
                    Add(_) => '+',
                    Sub(_) => '-',
                    Mul(_) => '*',
                    Div(_) => '/',
                    Rem(_) => '%',
                    BitAnd(_) => '&',
                    BitOr(_) => '|',
                    BitXor(_) => '^',
                    Shl(_) => '<',
                    _ => '>',
                };
                self.arith(op, l, r)
            }
            _ => err("operator"),
        }
    }
    fn compare(&mut self, op: &BinOp, l: Val, r: Val) -> R<Val> {
        use BinOp::*;
        let (mut l, mut r) = (l, r);
        if let (Ty::Arr(t, _), Ty::List(_)) = (self.sh(&l.ty), self.sh(&r.ty)) {
            l = self.coerce(&l, &list(*t))?;
        }
        if let (Ty::List(_), Ty::Arr(t, _)) = (self.sh(&l.ty), self.sh(&r.ty)) {
            r = self.coerce(&r, &list(*t))?;
        }
        self.uni(&l.ty, &r.ty)?;
        let o = match op {
            Eq(_) => "=",
            Ne(_) => "≠",
            Lt(_) => "<",
            Le(_) => "≤",
            Gt(_) => ">",
            _ => "≥",
        };
        if self.sh(&l.ty) == Ty::Bool {
            if o == "=" || o == "≠" {
                let (a, b) = (self.bool_t(&l), self.bool_t(&r));
                return Ok(vp(format!("({a} {o} {b})")));
            }
            return err("ordering of bool");
        }
        let (a, b) = (self.term(&l), self.term(&r));
        Ok(vp(format!("({a} {o} {b})")))
    }
    fn arith(&mut self, op: char, l: Val, r: Val) -> R<Val> {
        let (a, b) = (self.sh(&l.ty), self.sh(&r.ty));
        // complex with real
        match (&a, &b) {
            (Ty::Cx, Ty::F) => {
                let r2 = v(format!("(({} : ℝ) : ℂ)", r.t), Ty::Cx);
                return self.arith(op, l, r2);
            }
            (Ty::F, Ty::Cx) => {
                let l2 = v(format!("(({} : ℝ) : ℂ)", l.t), Ty::Cx);
                return self.arith(op, l2, r);
            }
            (Ty::Mat(t), Ty::Mat(_)) => {
                self.uni(&a, &b)?;
                let f = match op {
                    '-' => "rsMatSub",
                    '+' => "rsMatAdd",
                    _ => return err("matrix operator"),
                };
                return Ok(self.bind("mm", app(f, &[&l.t, &r.t]), Ty::Mat(t.clone())));
            }
            _ => {}
        }
        if op == '<' || op == '>' {
            // shifts
            return match &a {
                Ty::Nat => {
                    if matches!(b, Ty::Var(_)) {
                        self.uni(&b, &Ty::Nat)?;
                    }
                    if op == '<' && self.checked {
                        return err("checked shift");
                    }
                    Ok(v(format!("({} {} {})", l.t, if op == '<' { "<<<" } else { ">>>" }, r.t), Ty::Nat))
                }
                _ => err("shift"),
            };
        }
        self.uni(&l.ty, &r.ty)?;
        let t = self.sh(&l.ty);
        match &t {
            Ty::F | Ty::Cx => {
                if op == '%' {
                    return Ok(v(app("rsFmod", &[&l.t, &r.t]), t));
                }
                if !"+-*/".contains(op) {
                    return err("operator");
                }
                Ok(v(format!("({} {op} {})", l.t, r.t), t))
            }
            Ty::Nat => match op {
                '+' | '*' if self.checked => {
                    let f = if op == '+' { "rsAddU" } else { "rsMulU" };
                    Ok(self.bind("n", app(f, &[&l.t, &r.t]), Ty::Nat))
                }
                '+' | '*' => Ok(v(format!("({} {op} {})", l.t, r.t), Ty::Nat)),
                '-' => Ok(self.bind("n", app("rsSubU", &[&l.t, &r.t]), Ty::Nat)),
                '/' | '%' => {
                    if is_nonzero_lit(&r.t) {
                        Ok(v(format!("({} {op} {})", l.t, r.t), Ty::Nat))
                    } else {
                        let f = if op == '/' { "rsDivU" } else { "rsModU" };
                        Ok(self.bind("n", app(f, &[&l.t, &r.t]), Ty::Nat))
                    }
                }
                '&' => Ok(v(format!("({} &&& {})", l.t, r.t), Ty::Nat)),
                '|' => Ok(v(format!("({} ||| {})", l.t, r.t), Ty::Nat)),
                _ => err("operator on usize"),
            },
            Ty::Z => match op {
                '+' | '-' | '*' => Ok(v(format!("({} {op} {})", l.t, r.t), Ty::Z)),
                '/' => Ok(v(app("Int.tdiv", &[&l.t, &r.t]), Ty::Z)),
                '%' => Ok(v(app("Int.tmod", &[&l.t, &r.t]), Ty::Z)),
                _ => err("operator on integer"),
            },
            Ty::PInt(i) => {
                let f = match op {
                    '+' => "rsAdd",
                    '-' => "rsSub",
                    '*' => "rsMul",
                    '/' => "rsDiv",
                    '%' => "rsRem",
                    '&' => return Ok(v(app("rsAnd", &[&l.t, &r.t]), t.clone())),
                    _ => return err("operator on generic integer"),
                };
                Ok(self.bind("n", app(f, &[&pint_term(i), &l.t, &r.t]), t.clone()))
            }
            Ty::Bool => {
                let (x, y) = (self.prop_t(&l), self.prop_t(&r));
                match op {
                    '&' => Ok(vp(format!("({x} ∧ {y})"))),
                    '|' => Ok(vp(format!("({x} ∨ {y})"))),
                    _ => err("operator on bool"),
                }
            }
            Ty::Var(_) => {
                if self.last_pass {
                    return self.unresolved("operator");
                }
                Ok(v("?", t.clone()))
            }
            t => err(format!("operator {op} on {t:?}")),
        }
    }

    fn index_val(&mut self, b: Val, idx: &Expr) -> R<Val> {
        let b = self.lete("b", &b);
        if let Expr::Range(r) = strip(idx) {
            let (lo, hi) = self.range_bounds(r, &b)?;
            return Ok(self.bind("sl", app("rsSlice", &[&b.t, &lo, &hi]), b.ty.clone()));
        }
        match self.sh(&b.ty) {
            Ty::List(t) => {
                let i = self.expr_as(idx, &Ty::Nat)?;
                Ok(self.bind("e", app("rsIdx", &[&b.t, &i.t]), *t))
            }
            Ty::Mat(t) => {
                let i = self.expr(idx)?;
                match self.sh(&i.ty) {
                    Ty::Tup(v) if v.len() == 2 => {
                        for t in &v {
                            self.uni(t, &Ty::Nat)?;
                        }
                        let i = self.lete("ix", &i);
                        Ok(self.bind("e", app("rsMatGet", &[&b.t, &proj(&i.t, 0, 2), &proj(&i.t, 1, 2)]), *t))
                    }
                    _ => {
                        self.uni(&i.ty, &Ty::Nat)?;
                        Ok(self.bind("e", app("rsMatLin", &[&b.t, &i.t]), *t))
                    }
                }
            }
            Ty::Var(_) => {
                self.expr(idx)?;
                self.hole(idx, "index")
            }
            t => err(format!("index into {t:?}")),
        }
    }

    fn range_list(&mut self, r: &ExprRange) -> R<Val> {
        let (Some(a), Some(b)) = (&r.start, &r.end) else { return err("open range") };
        let x = self.expr(a)?;
        let y = self.expr(b)?;
        self.uni(&x.ty, &y.ty)?;
        let t = self.sh(&x.ty);
        let closed = matches!(r.limits, RangeLimits::Closed(_));
        match &t {
            Ty::Nat => {
                let hi = if closed { format!("({} + 1)", y.t) } else { y.t.clone() };
                if x.t == "(0 : ℕ)" {
                    Ok(v(app("List.range", &[&hi]), list(Ty::Nat)))
                } else {
                    Ok(v(app("rsRange", &[&x.t, &hi]), list(Ty::Nat)))
                }
            }
            Ty::Z | Ty::PInt(_) => {
                let hi = if closed { format!("({} + 1)", y.t) } else { y.t.clone() };
                Ok(v(app("rsIRange", &[&x.t, &hi]), list(t.clone())))
            }
            Ty::Var(_) if !self.last_pass => Ok(v("?", list(t.clone()))),
            t => err(format!("range of {t:?}")),
        }
    }

    fn struct_expr(&mut self, s: &ExprStruct) -> R<Val> {
        let mut n = lastseg(&s.path);
        if n == "Self" {
            match &self.self_ty {
                Some(Ty::Adt(m, _)) => n = m.clone(),
                _ => return err("Self struct"),
            }
        }
        let (_, st) = self.kr.structs.get(&n).ok_or(format!("struct {n}"))?;
        let k = st.generics.params.iter().filter(|p| matches!(p, GenericParam::Type(_))).count();
        let args = vec![Ty::F; k];
        let fs = self.fields(&n, &args)?;
        let ty = Ty::Adt(n.clone(), args);
        let mut given: HashMap<String, String> = HashMap::new();
        for f in &s.fields {
            let fname = match &f.member {
                Member::Named(i) => i.to_string(),
                _ => return err("tuple struct"),
            };
            let ft = fs.iter().find(|x| x.0 == fname).ok_or("field")?.1.clone();
            let x = self.expr_as(&f.expr, &ft)?;
            let t = self.term(&x);
            given.insert(fname, t);
        }
        let rest = match &s.rest {
            Some(e) => {
                let x = self.expr_as(e, &ty)?;
                Some(self.lete("d", &x).t)
            }
            None => None,
        };
        let mut parts = vec![];
        for (f, _) in &fs {
            let t = match given.get(f) {
                Some(t) => t.clone(),
                None => format!("{}.{f}", rest.as_ref().ok_or("missing field")?),
            };
            parts.push(paren(&t));
        }
        Ok(v(format!("({n}.mk {})", parts.join(" ")), ty))
    }

    // ---------- macros
    fn mac(&mut self, m: &Macro) -> R<Val> {
        let n = lastseg(&m.path);
        match n.as_str() {
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                self.items.push(Item::Fail);
                let t = self.tys.fresh(Kind::Any);
                Ok(v("()", t))
            }
            "debug_assert" | "debug_assert_eq" | "debug_assert_ne" | "println" | "eprintln" | "print" | "dbg" | "log" | "debug" | "trace" => Ok(self.unit()),
            "assert" => {
                let args = m
                    .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
                    .map_err(|e| e.to_string())?;
                let x = self.expr(&args[0])?;
                let p = self.prop_t(&x);
                self.items.push(Item::Guard(p));
                Ok(self.unit())
            }
            "assert_eq" | "assert_ne" => {
                let args = m
                    .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
                    .map_err(|e| e.to_string())?;
                let l = self.expr(&args[0])?;
                let r = self.expr(&args[1])?;
                let op: BinOp = if n == "assert_eq" { parse_quote!(==) } else { parse_quote!(!=) };
                let x = self.compare(&op, l, r)?;
                self.items.push(Item::Guard(x.t));
                Ok(self.unit())
            }
            "vec" => {
                if let Ok(r) = m.parse_body::<VecRep>() {
                    let x = self.expr(&r.0)?;
                    let n = self.expr_as(&r.1, &Ty::Nat)?;
                    let t = self.term(&x);
                    return Ok(v(app("List.replicate", &[&n.t, &t]), list(x.ty)));
                }
                let args = m
                    .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
                    .map_err(|e| e.to_string())?;
                let et = self.tys.keyed(key(m, "vec"), Kind::Any);
                let mut parts = vec![];
                for x in &args {
                    let y = self.expr_as(x, &et)?;
                    parts.push(self.term(&y));
                }
                let ann = if parts.is_empty() { format!("([] : {})", self.lt(&list(et.clone()))) } else { format!("[{}]", parts.join(", ")) };
                Ok(v(ann, list(et)))
            }
            "matches" => {
                let mm = m.parse_body::<MatchesM>().map_err(|e| e.to_string())?;
                let x = self.expr(&mm.0)?;
                let ty = self.sh(&x.ty);
                if matches!(ty, Ty::Opt(_) | Ty::Ord | Ty::Adt(..)) {
                    if mm.2.is_some() {
                        return err("matches! with guard");
                    }
                    let (lp, _) = self.ctor_pat(&mm.1, &x)?;
                    return Ok(v(format!("(match {} with | {lp} => true | _ => false)", x.t), Ty::Bool));
                }
                let mut binds = vec![];
                let cs = self.test_pat(&mm.1, &x, &mut binds)?;
                if mm.2.is_some() {
                    return err("matches! with guard");
                }
                Ok(vp(if cs.is_empty() { "True".to_string() } else { format!("({})", cs.join(" ∧ ")) }))
            }
            _ => err(format!("macro {n}!")),
        }
    }

    // ---------- closures and loops
    /// changed variables when running f (state restored afterwards)
    fn trial(&mut self, f: &mut dyn FnMut(&mut Self) -> R<()>) -> R<Vec<usize>> {
        let vars = self.vars.clone();
        let env = self.env.clone();
        let items = std::mem::take(&mut self.items);
        let cnt = self.cnt;
        let retk = self.retk.clone();
        let deps = self.deps.clone();
        TRIAL.with(|t| t.borrow_mut().push(BTreeSet::new()));
        let r = f(self);
        let written = TRIAL.with(|t| t.borrow_mut().pop().unwrap());
        let n = vars.len();
        let mut mods: Vec<usize> = (0..n).filter(|i| self.vars[*i].cur != vars[*i].cur || written.contains(i)).collect();
        mods.sort();
        TRIAL.with(|t| {
            if let Some(outer) = t.borrow_mut().last_mut() {
                outer.extend(mods.iter().copied());
            }
        });
        self.vars = vars;
        self.env = env;
        self.items = items;
        self.cnt = cnt;
        self.retk = retk;
        self.deps = deps;
        r?;
        Ok(mods)
    }

    fn rebuild(&self, p: &Pat, orig: &str, ty: &Ty) -> String {
        match p {
            Pat::Ident(i) => match self.lookup(&i.ident.to_string()) {
                Some(id) => self.vars[id].cur.clone(),
                None => orig.into(),
            },
            Pat::Reference(r) => self.rebuild(&r.pat, orig, ty),
            Pat::Paren(r) => self.rebuild(&r.pat, orig, ty),
            Pat::Type(r) => self.rebuild(&r.pat, orig, ty),
            Pat::Tuple(t) => {
                let n = t.elems.len();
                let tys = match self.sh(ty) {
                    Ty::Tup(v) if v.len() == n => v,
                    _ => return orig.into(),
                };
                let parts: Vec<String> = t.elems.iter().enumerate().map(|(i, q)| self.rebuild(q, &proj(orig, i, n), &tys[i])).collect();
                if parts.iter().enumerate().all(|(i, s)| *s == proj(orig, i, n)) {
                    return orig.into();
                }
                tup(&parts)
            }
            _ => orig.into(),
        }
    }

    /// compile a lambda over `pats`; if `acc`, the first argument is threaded as state
    fn lam_core(&mut self, pats: &[(Pat, Ty)], acc: bool, body: &mut dyn FnMut(&mut Self) -> R<Val>) -> R<Lam> {
        let mods = self.trial(&mut |s| {
            s.env.push(HashMap::new());
            for (p, t) in pats {
                let n = s.fresh("a");
                s.bind_pat(p, &v(n, t.clone()))?;
            }
            body(s)?;
            Ok(())
        })?;
        let na = if acc { 1 } else { 0 };
        let nst = na + mods.len();
        let st = if nst > 0 { Some(self.fresh("s")) } else { None };
        let saved: Vec<VarInfo> = mods.iter().map(|m| self.vars[*m].clone()).collect();
        for (i, m) in mods.iter().enumerate() {
            self.vars[*m].cur = proj(st.as_ref().unwrap(), na + i, nst);
            self.vars[*m].known = None;
            self.vars[*m].nat = None;
        }
        let mut binders = vec![];
        let mut terms = vec![];
        for (i, (p, _)) in pats.iter().enumerate() {
            if acc && i == 0 {
                terms.push(proj(st.as_ref().unwrap(), 0, nst));
            } else {
                let base = match p {
                    Pat::Ident(i) => i.ident.to_string(),
                    _ => "x".into(),
                };
                let b = self.fresh(&base);
                binders.push(b.clone());
                terms.push(b);
            }
        }
        let depth = self.env.len();
        self.env.push(HashMap::new());
        let r = self.sub(|s| {
            for ((p, t), tm) in pats.iter().zip(&terms) {
                s.bind_pat(p, &v(tm.clone(), t.clone()))?;
            }
            body(s)
        });
        self.env.truncate(depth + 1);
        let (items, val) = match r {
            Ok(x) => x,
            Err(e) => {
                self.env.truncate(depth);
                return Err(e);
            }
        };
        let upd = pats
            .iter()
            .zip(&terms)
            .map(|((p, t), tm)| {
                let u = self.rebuild(p, tm, t);
                if u == *tm {
                    None
                } else {
                    Some(u)
                }
            })
            .collect();
        self.env.truncate(depth);
        let after = mods.iter().map(|m| self.vars[*m].cur.clone()).collect();
        for (m, vi) in mods.iter().zip(saved) {
            self.vars[*m] = vi;
        }
        let m = mon(&items);
        Ok(Lam { binders, st, items, val, upd, mods, after, mon: m })
    }

    /// lambda from a callable expression
    fn lam(&mut self, f: &Expr, args: &[Ty], acc: bool) -> R<Lam> {
        match strip(f) {
            Expr::Closure(c) => {
                if c.inputs.len() != args.len() {
                    return err("closure arity");
                }
                let pats: Vec<(Pat, Ty)> = c.inputs.iter().cloned().zip(args.iter().cloned()).collect();
                let body = c.body.clone();
                let out = match &c.output {
                    ReturnType::Type(_, t) => Some(self.ty(t)?),
                    _ => None,
                };
                self.lam_core(&pats, acc, &mut |s| s.closure_body(&body, out.clone()))
            }
            Expr::Path(_) => {
                let pats: Vec<(Pat, Ty)> = args
                    .iter()
                    .enumerate()
                    .map(|(i, t)| {
                        let id = format_ident(&format!("arg__{i}"));
                        (parse_quote!(#id), t.clone())
                    })
                    .collect();
                let argv: Vec<Expr> = (0..args.len())
                    .map(|i| {
                        let id = format_ident(&format!("arg__{i}"));
                        parse_quote!(#id)
                    })
                    .collect();
                let f2 = strip(f).clone();
                let call: ExprCall = parse_quote!(#f2(#(#argv),*));
                self.lam_core(&pats, acc, &mut |s| s.call(&call))
            }
            e => err(format!("callable {}", kind_of(e))),
        }
    }
    fn closure_body(&mut self, body: &Expr, out: Option<Ty>) -> R<Val> {
        if has_exit(body) {
            self.retk.push(RetK::Closure);
            let t = self.tys.keyed(key(body, "clret"), Kind::Any);
            if let Some(o) = &out {
                self.uni(&t, o)?;
            }
            let rt = std::mem::replace(&mut self.ret_ty, t.clone());
            let code = self.branch_code(|s| s.cps_or_val(body, None));
            self.ret_ty = rt;
            self.retk.pop();
            let code = code?;
            return Ok(self.bind("r", code, t));
        }
        self.retk.push(RetK::Closure);
        let r = self.expr(body);
        self.retk.pop();
        let x = r?;
        match out {
            Some(t) => self.coerce(&x, &t),
            None => Ok(x),
        }
    }
    fn closure_val(&mut self, c: &ExprClosure) -> R<Val> {
        let mut tys = vec![];
        for (i, p) in c.inputs.iter().enumerate() {
            let t = match p {
                Pat::Type(t) => self.ty(&t.ty)?,
                _ => self.tys.keyed(key(p, &format!("cl{i}")), Kind::Any),
            };
            tys.push(t);
        }
        let l = self.lam(&Expr::Closure(c.clone()), &tys, false)?;
        if !l.mods.is_empty() {
            return err("stored closure with side effects");
        }
        let t = self.term(&l.val);
        let body = wrap(&l.items, app("some", &[&t]));
        let b = tys.iter().zip(&l.binders).map(|(t, n)| format!("({n} : {})", self.lt(t))).collect::<Vec<_>>().join(" ");
        let ty = Ty::Fun(tys, Box::new(l.val.ty.clone()));
        let mut x = v(format!("(fun {b} => {body})"), ty.clone());
        if !l.mon {
            // a total closure: calls use the unlifted body
            x.known = Some(Box::new(v(format!("(fun {b} => {})", wrap(&l.items, t)), ty)));
        }
        Ok(x)
    }

    fn set_mods(&mut self, mods: &[usize], name: &str, off: usize, n: usize) {
        for (i, m) in mods.iter().enumerate() {
            self.set_cur(*m, proj(name, off + i, n));
        }
    }

    /// run a lambda over a list. acc0: initial accumulator (lam compiled with acc = true).
    /// outs: collect the values. Returns (accumulator, outputs)
    fn run(&mut self, l: &Val, lam: Lam, acc0: Option<String>, outs: bool) -> R<(Option<String>, Option<String>)> {
        if l.eff && !(lam.mods.is_empty() && (!l.prov.any() || lam.upd.last().map(|u| u.is_none()).unwrap_or(true))) {
            return err("effectful lazy iterator consumed by another stage");
        }
        let item_i = lam.upd.len() - 1;
        let upd = if l.prov.any() { lam.upd[item_i].clone() } else { None };
        let acc = acc0.is_some();
        let mut s0 = vec![];
        let mut s1 = vec![];
        if let Some(a) = &acc0 {
            s0.push(a.clone());
            s1.push(self.term(&lam.val));
        }
        for (m, a) in lam.mods.iter().zip(&lam.after) {
            s0.push(self.vars[*m].cur.clone());
            s1.push(a.clone());
        }
        let mut ys = vec![];
        if outs {
            ys.push(self.term(&lam.val));
        }
        if let Some(u) = &upd {
            ys.push(u.clone());
        }
        let x = lam.binders.last().unwrap().clone();
        let some = |t: String| if lam.mon { app("some", &[&t]) } else { t };
        let m = lam.mon;
        let ns = s0.len();
        let ny = ys.len();
        // the type of the state, where it is known: the elaborator meets the body first
        let mut sty: Vec<Ty> = if acc { vec![lam.val.ty.clone()] } else { vec![] };
        sty.extend(lam.mods.iter().map(|m| self.vars[*m].ty.clone()));
        let sty: Vec<Ty> = sty.iter().map(|t| self.tys.deep(t)).collect();
        let ann = |st: String, me: &Self| {
            if ns > 1 && !sty.iter().any(Types::has_var) {
                format!("({st} : {})", sty.iter().map(|t| me.lt(t)).collect::<Vec<_>>().join(" × "))
            } else {
                st
            }
        };
        let mut accv = None;
        let mut outv = None;
        if ns > 0 && ny == 0 {
            let body = wrap(&lam.items, some(tup(&s1)));
            let st = ann(lam.st.clone().unwrap(), self);
            let code = format!("(List.{} (fun {st} {x} => {body}) {} {})", if m { "foldlM" } else { "foldl" }, paren(&tup(&s0)), paren(&l.t));
            let r = self.name_it("f", code, m);
            if acc {
                accv = Some(proj(&r, 0, ns));
            }
            self.set_mods(&lam.mods, &r, acc as usize, ns);
        } else if ns == 0 && ny > 0 {
            let body = wrap(&lam.items, some(tup(&ys)));
            if m {
                let code = format!("(List.mapM (fun {x} => {body}) {})", paren(&l.t));
                let r = self.name_it("l", code, true);
                self.after_items(l, &r, outs, upd.is_some(), &mut outv)?;
            } else {
                let code = format!("(List.map (fun {x} => {body}) {})", paren(&l.t));
                let r = if upd.is_some() { self.name_it("l", code, false) } else { code };
                self.after_items(l, &r, outs, upd.is_some(), &mut outv)?;
            }
        } else if ns > 0 {
            let body = wrap(&lam.items, some(format!("({}, {})", tup(&s1), tup(&ys))));
            let st = ann(lam.st.clone().unwrap(), self);
            let code = format!("({} (fun {st} {x} => {body}) {} {})", if m { "rsMapAccumM" } else { "rsMapAccum" }, paren(&tup(&s0)), paren(&l.t));
            let r = self.name_it("f", code, m);
            let sr = format!("{r}.1");
            if acc {
                accv = Some(proj(&sr, 0, ns));
            }
            self.set_mods(&lam.mods, &sr, acc as usize, ns);
            self.after_items(l, &format!("{r}.2"), outs, upd.is_some(), &mut outv)?;
        } else if m {
            let body = wrap(&lam.items, "(some ())".into());
            let code = format!("(List.foldlM (fun (_ : Unit) {x} => {body}) () {})", paren(&l.t));
            self.name_it("u", code, true);
        }
        Ok((accv, outv))
    }
    fn name_it(&mut self, base: &str, code: String, m: bool) -> String {
        let n = self.fresh(base);
        self.items.push(if m { Item::Bind(n.clone(), code) } else { Item::Let(n.clone(), code) });
        n
    }
    fn after_items(&mut self, l: &Val, r: &str, outs: bool, upd: bool, outv: &mut Option<String>) -> R<()> {
        let items = match (outs, upd) {
            (true, true) => {
                *outv = Some(format!("({}.map Prod.fst)", paren(r)));
                format!("({}.map Prod.snd)", paren(r))
            }
            (true, false) => {
                *outv = Some(r.to_string());
                return Ok(());
            }
            _ => r.to_string(),
        };
        self.write_back(&l.prov.clone(), &items, true)
    }
    fn write_back(&mut self, p: &Prov, items: &str, full: bool) -> R<()> {
        match p {
            Prov::No => Ok(()),
            Prov::Lost => err("mutation through an iterator adaptor"),
            Prov::Mut(pl) => {
                if let Ty::Mat(_) = self.sh(&pl.ty) {
                    let old = self.read_place(pl)?;
                    return self.write_place(pl, app("rsMatOverwrite", &[&old.t, items]));
                }
                if let Ty::Arr(..) = self.sh(&pl.ty) {
                    let old = self.read_place(pl)?;
                    return self.write_place(pl, app("rsArrOfList", &[&old.t, items]));
                }
                if full {
                    self.write_place(pl, items.into())
                } else {
                    let old = self.read_place(pl)?;
                    self.write_place(pl, app("rsOverwrite", &[&old.t, items]))
                }
            }
            Prov::Chunks(pl) => {
                let old = self.read_place(pl)?;
                self.write_place(pl, app("rsOverwrite", &[&old.t, &format!("{}.flatten", paren(items))]))
            }
            Prov::Zip(a, b) => {
                self.write_back(a, &format!("({}.map Prod.fst)", paren(items)), false)?;
                self.write_back(b, &format!("({}.map Prod.snd)", paren(items)), false)
            }
            Prov::Enum(a) => self.write_back(a, &format!("({}.map Prod.snd)", paren(items)), full),
            Prov::Part(a) => self.write_back(a, items, false),
            Prov::Rev(a) => {
                if !full {
                    return err("partial reverse mutation");
                }
                self.write_back(a, &format!("{}.reverse", paren(items)), true)
            }
        }
    }

    /// loops; Some(term) when the loop may return: an `Option R` saying so
    fn loop_ret(&mut self, e: &Expr) -> R<Option<String>> {
        match e {
            Expr::ForLoop(f) => {
                if f.label.is_some() {
                    return err("labelled loop");
                }
                let it = self.expr(&f.expr)?;
                let it = self.iter_list(it, &*f.expr)?;
                let et = self.elem(&it)?;
                if !has_exit_b(&f.body) {
                    let pats = vec![((*f.pat).clone(), et)];
                    let body = f.body.clone();
                    let lam = self.lam_core(&pats, false, &mut |s| {
                        s.block_val(&body)?;
                        Ok(s.unit())
                    })?;
                    self.run(&it, lam, None, false)?;
                    return Ok(None);
                }
                if it.prov.any() {
                    // mutation of items together with early exit is not supported; reading is
                }
                let ret = has_return_b(&f.body);
                let body = f.body.clone();
                let pat = (*f.pat).clone();
                let etc = et.clone();
                let mods = self.trial(&mut |s| {
                    s.retk.push(RetK::Loop { mods: vec![], ret });
                    let n = s.fresh("a");
                    s.branch_code(|s| {
                        s.env.push(HashMap::new());
                        s.bind_pat(&pat, &v(n, etc.clone()))?;
                        s.env.push(HashMap::new());
                        s.seq(&body.stmts, 0, None)
                    })?;
                    Ok(())
                })?;
                let s0 = tup(&mods.iter().map(|m| self.vars[*m].cur.clone()).collect::<Vec<_>>());
                let st = self.fresh("s");
                let x = self.fresh("x");
                let saved: Vec<String> = mods.iter().map(|m| self.vars[*m].cur.clone()).collect();
                let base = if ret { format!("{st}.2") } else { st.clone() };
                self.set_mods(&mods, &base, 0, mods.len());
                self.retk.push(RetK::Loop { mods: mods.clone(), ret });
                let code = self.branch_code(|s| {
                    s.env.push(HashMap::new());
                    s.bind_pat(&pat, &v(x.clone(), et.clone()))?;
                    s.env.push(HashMap::new());
                    s.seq(&body.stmts, 0, None)
                });
                self.retk.pop();
                for (m, c) in mods.iter().zip(saved) {
                    self.vars[*m].cur = c;
                }
                let code = code?;
                let rty = self.ret_ty.clone();
                let init = if ret { format!("((none : Option {}), {s0})", paren(&self.lt(&rty))) } else { s0 };
                let r = self.name_it("f", format!("(rsForBrk (fun {st} {x} => {code}) {} {})", paren(&init), paren(&it.t)), true);
                let b2 = if ret { format!("{r}.2") } else { r.clone() };
                self.set_mods(&mods, &b2, 0, mods.len());
                Ok(if ret { Some(format!("{r}.1")) } else { None })
            }
            Expr::While(_) | Expr::Loop(_) => {
                let (cond, body) = match e {
                    Expr::While(w) if w.label.is_none() => (Some((*w.cond).clone()), w.body.clone()),
                    Expr::Loop(l) if l.label.is_none() => (None, l.body.clone()),
                    _ => return err("labelled loop"),
                };
                if let Some(c) = &cond {
                    if matches!(strip(c), Expr::Let(_)) {
                        return err("while let");
                    }
                }
                let ret = has_return_b(&body);
                let c2 = cond.clone();
                let b2 = body.clone();
                let mods = self.trial(&mut |s| {
                    if let Some(c) = &c2 {
                        s.expr(c)?;
                    }
                    s.retk.push(RetK::Loop { mods: vec![], ret });
                    s.branch_code(|s| {
                        s.env.push(HashMap::new());
                        s.seq(&b2.stmts, 0, None)
                    })?;
                    Ok(())
                })?;
                let saved: Vec<String> = mods.iter().map(|m| self.vars[*m].cur.clone()).collect();
                let s0 = tup(&saved);
                let st = self.fresh("s");
                let base = if ret { format!("{st}.2") } else { st.clone() };
                self.set_mods(&mods, &base, 0, mods.len());
                self.retk.push(RetK::Loop { mods: mods.clone(), ret });
                let code = (|| -> R<String> {
                    let (ci, c) = match &cond {
                        Some(c) => {
                            let (i, x) = self.sub(|s| s.expr(c))?;
                            let p = self.prop_t(&x);
                            (i, Some(p))
                        }
                        None => (vec![], None),
                    };
                    let stop = self.loop_code(&mods, ret, false, None);
                    let b = self.branch_code(|s| {
                        s.env.push(HashMap::new());
                        s.seq(&body.stmts, 0, None)
                    })?;
                    Ok(match c {
                        Some(c) => wrap(&ci, format!("(if {c} then\n {b} else {stop})")),
                        None => b,
                    })
                })();
                self.retk.pop();
                for (m, c) in mods.iter().zip(saved) {
                    self.vars[*m].cur = c;
                }
                let code = code?;
                let rty = self.ret_ty.clone();
                let init = if ret { format!("((none : Option {}), {s0})", paren(&self.lt(&rty))) } else { s0 };
                let r = self.name_it("w", format!("(rsLoop (fun {st} => {code}) {})", paren(&init)), true);
                let b2 = if ret { format!("{r}.2") } else { r.clone() };
                self.set_mods(&mods, &b2, 0, mods.len());
                Ok(if ret { Some(format!("{r}.1")) } else { None })
            }
            _ => err("loop"),
        }
    }

    // ---------- calls
    fn call(&mut self, c: &ExprCall) -> R<Val> {
        let args: Vec<Expr> = c.args.iter().cloned().collect();
        match strip(&c.func) {
            Expr::Path(p) => self.call_path(p, &args, c),
            Expr::Closure(cl) => {
                // immediately invoked
                let mut i = 0;
                self.env.push(HashMap::new());
                for (pt, a) in cl.inputs.iter().zip(&args) {
                    let x = self.expr(a)?;
                    let x = self.lete("a", &x);
                    self.bind_pat(pt, &x)?;
                    i += 1;
                }
                let _ = i;
                let r = self.closure_body(&cl.body, None);
                self.env.pop();
                r
            }
            f => err(format!("call of {}", kind_of(f))),
        }
    }

    fn find_user(&self, p: &Path) -> Option<&'a FnDef> {
        let n = lastseg(p);
        let k = p.segments.len();
        if k >= 2 {
            let q = p.segments[k - 2].ident.to_string();
            let q2 = if q == "Self" {
                match &self.self_ty {
                    Some(Ty::Adt(m, _)) => m.clone(),
                    _ => type_name(self.def.self_ty.as_ref()?),
                }
            } else {
                q.clone()
            };
            if self.kr.structs.contains_key(&q2) || self.kr.enums.contains_key(&q2) || q == "Self" {
                if let Some(d) = self.kr.fns.get(&format!("{q2}_{n}")) {
                    return Some(d);
                }
                return self.kr.fns.values().find(|d| d.rust_name == n && d.self_ty.as_ref().map(|t| type_name(t) == q2).unwrap_or(false));
            }
            if let Some(a) = self.kr.aliases.get(&q2) {
                let tn = type_name(&a.ty);
                return self.kr.fns.get(&format!("{tn}_{n}"));
            }
            if q == "Bessel" {
                return self.kr.fns.get(&format!("Bessel_f64_{n}"));
            }
            if q.chars().next().map(|c| c.is_uppercase()).unwrap_or(false) {
                return None;
            }
            if ["core", "std", "cmp", "mem", "iter", "num_traits", "nalgebra", "na", "lstsq", "rustfft"].contains(&q.as_str()) {
                return None;
            }
        }
        let c: Vec<&FnDef> = self.kr.fns.values().filter(|d| d.rust_name == n && d.self_ty.is_none()).collect();
        if let Some(d) = c.iter().find(|d| d.file == self.def.file) {
            return Some(d);
        }
        if c.len() == 1 {
            return Some(c[0]);
        }
        None
    }

    fn call_path(&mut self, p: &ExprPath, args: &[Expr], sp: &ExprCall) -> R<Val> {
        let n = lastseg(&p.path);
        let k = p.path.segments.len();
        if k == 1 && p.qself.is_none() {
            if let Some(id) = self.lookup(&n) {
                let f = self.read_var(id)?;
                if let Ty::Fun(at, rt) = self.sh(&f.ty) {
                    let mut ts = vec![];
                    for (a, t) in args.iter().zip(&at) {
                        let x = self.expr_as(a, t)?;
                        ts.push(self.term(&x));
                    }
                    let r: Vec<&str> = ts.iter().map(|s| s.as_str()).collect();
                    if let Some(p) = &f.known {
                        return Ok(v(app(&p.t, &r), *rt));
                    }
                    return Ok(self.bind("r", app(&f.t, &r), *rt));
                }
                return self.hole(sp, "closure call");
            }
            if n == "Some" {
                let x = self.expr(&args[0])?;
                let t = self.term(&x);
                let mut y = v(app("some", &[&t]), opt(x.ty.clone()));
                y.known = Some(Box::new(x));
                return Ok(y);
            }
        }
        if k >= 2 {
            let q = p.path.segments[k - 2].ident.to_string();
            if self.kr.enums.contains_key(&q) {
                let (_, e) = self.kr.enums.get(&q).unwrap();
                let gk = e.generics.params.iter().filter(|p| matches!(p, GenericParam::Type(_))).count();
                let targs = vec![Ty::F; gk];
                let at = self.variant_args(&q, &n, &targs)?;
                let mut ts = vec![];
                for (a, t) in args.iter().zip(&at) {
                    let x = self.expr_as(a, t)?;
                    ts.push(self.term(&x));
                }
                self.adts.insert(q.clone());
                let r: Vec<&str> = ts.iter().map(|s| s.as_str()).collect();
                return Ok(v(app(&format!("{q}.{n}"), &r), Ty::Adt(q, targs)));
            }
        }
        if p.qself.is_none() {
            if let Some(d) = self.find_user(&p.path) {
                return self.user_call(d, args, p);
            }
        }
        // free functions
        if k == 1 || ["cmp", "mem", "iter", "nalgebra", "lstsq", "core", "hint"].contains(&p.path.segments[k - 2].ident.to_string().as_str()) {
            match n.as_str() {
                "min" | "max" if args.len() == 2 => {
                    let a = self.expr(&args[0])?;
                    let b = self.expr(&args[1])?;
                    self.uni(&a.ty, &b.ty)?;
                    return Ok(v(app(&n, &[&a.t, &b.t]), a.ty));
                }
                "drop" | "forget" => return Ok(self.unit()),
                "black_box" | "identity" => return self.expr(&args[0]),
                "swap" if args.len() == 2 => {
                    let pa = self.place(&args[0])?.ok_or("swap")?;
                    let pb = self.place(&args[1])?.ok_or("swap")?;
                    let a = self.read_place(&pa)?;
                    let b = self.read_place(&pb)?;
                    self.write_place(&pa, b.t)?;
                    self.write_place(&pb, a.t)?;
                    return Ok(self.unit());
                }
                "replace" if args.len() == 2 => {
                    let pa = self.place(&args[0])?.ok_or("replace")?;
                    let a = self.read_place(&pa)?;
                    let b = self.expr_as(&args[1], &pa.ty)?;
                    self.write_place(&pa, b.t)?;
                    return Ok(a);
                }
                "take" if args.len() == 1 => {
                    let pa = self.place(&args[0])?.ok_or("take")?;
                    let a = self.read_place(&pa)?;
                    if let Ty::List(_) = self.sh(&pa.ty) {
                        self.write_place(&pa, "[]".into())?;
                        return Ok(a);
                    }
                    return err("mem::take");
                }
                "once" => {
                    let a = self.expr(&args[0])?;
                    let t = self.term(&a);
                    return Ok(v(format!("[{t}]"), list(a.ty)));
                }
                "empty" if args.is_empty() => {
                    let t = self.tys.keyed(key(sp, "empty"), Kind::Any);
                    return Ok(v("[]", list(t)));
                }
                "repeat_n" => {
                    let a = self.expr(&args[0])?;
                    let m = self.expr_as(&args[1], &Ty::Nat)?;
                    let t = self.term(&a);
                    return Ok(v(app("List.replicate", &[&m.t, &t]), list(a.ty)));
                }
                "zip" if args.len() == 2 => {
                    let a = self.expr(&args[0])?;
                    return self.method_v(a, "zip", &args[1..], None, sp, Some(&args[0]));
                }
                "lstsq" if args.len() == 3 => {
                    let a = self.expr(&args[0])?;
                    let b = self.expr(&args[1])?;
                    let b = match self.sh(&b.ty) {
                        Ty::Mat(t) => self.coerce(&b, &list(*t))?,
                        _ => b,
                    };
                    let e = self.expr(&args[2])?;
                    return Ok(v(app("rsLstsq", &[&a.t, &b.t, &e.t]), opt(Ty::Lstsq(Box::new(Ty::F)))));
                }
                _ => {}
            }
        }
        // associated functions of types and traits
        if k >= 2 || p.qself.is_some() {
            let q = if k >= 2 { p.path.segments[k - 2].ident.to_string() } else { String::new() };
            let mut tq: Option<Ty> = None;
            if let Some(qs) = &p.qself {
                if p.path.segments.iter().any(|s| s.ident == "RealField") {
                    tq = Some(Ty::F);
                } else {
                    tq = Some(self.ty(&qs.ty)?);
                }
            } else if let Some(t) = self.gm.get(&q) {
                tq = Some(t.clone());
            } else {
                match q.as_str() {
                    "Complex" => tq = Some(Ty::Cx),
                    "f32" | "f64" => tq = Some(Ty::F),
                    "usize" => tq = Some(Ty::Nat),
                    "Self" => tq = self.self_ty.clone(),
                    "Vec" => tq = Some(list(self.tys.keyed(key(sp, "vecnew"), Kind::Any))),
                    "Matrix" | "DMatrix" | "OMatrix" | "DVector" | "OVector" => tq = Some(Ty::Mat(Box::new(Ty::F))),
                    "FftPlanner" => tq = Some(Ty::Planner),
                    "isize" => tq = Some(Ty::Z),
                    "i8" | "i16" | "i32" | "i64" | "i128" | "u8" | "u16" | "u32" | "u64" | "u128" => tq = Some(Ty::PInt(format!("IntTy.{q}"))),
                    _ => {}
                }
            }
            return self.assoc(tq, &q, &n, args, sp);
        }
        err(format!("call {}", p.to_token_stream()))
    }

    fn default_of(&mut self, t: &Ty, sp: &impl Spanned) -> R<Val> {
        match self.sh(t) {
            Ty::Tup(vs) => {
                let mut p = vec![];
                for x in &vs {
                    p.push(self.default_of(x, sp)?.t);
                }
                Ok(v(tup(&p), t.clone()))
            }
            Ty::List(_) => {
                let lt = self.lt(t);
                Ok(v(format!("([] : {lt})"), t.clone()))
            }
            Ty::Opt(_) => Ok(v("none", t.clone())),
            Ty::Bool => Ok(v("false", Ty::Bool)),
            Ty::Adt(n, _) => {
                let d = self.kr.fns.get(&format!("Default_{n}_default")).ok_or("Default impl")?;
                let p: ExprPath = parse_quote!(default);
                self.user_call(d, &[], &p)
            }
            Ty::Var(_) => {
                if self.last_pass {
                    return self.unresolved("default");
                }
                Ok(v("?", t.clone()))
            }
            t => Ok(self.lit("0", &t)),
        }
    }

    fn assoc(&mut self, tq: Option<Ty>, q: &str, n: &str, args: &[Expr], sp: &ExprCall) -> R<Val> {
        // constructors
        if q == "Default" || n == "default" && args.is_empty() {
            let t = match tq {
                Some(t) => t,
                None => self.tys.keyed(key(sp, "default"), Kind::Any),
            };
            let mut x = self.default_of(&t, sp)?;
            x.ty = t;
            return Ok(x);
        }
        if (n == "zero" || n == "one") && args.is_empty() {
            let t = match tq {
                Some(t) => t,
                None => self.tys.keyed(key(sp, "zo"), Kind::Any),
            };
            return Ok(self.lit(if n == "zero" { "0" } else { "1" }, &t));
        }
        if q == "ComplexField" && n == "from_real" && (tq.is_none() || tq == Some(Ty::Cx)) {
            let a = self.expr_as(&args[0], &Ty::F)?;
            return Ok(v(format!("(({} : ℝ) : ℂ)", a.t), Ty::Cx));
        }
        if let Some(t) = &tq {
            match (t, n) {
                (Ty::F, "pi") => return Ok(v("Real.pi", Ty::F)),
                (Ty::F, "two_pi") => return Ok(v("(2 * Real.pi)", Ty::F)),
                (Ty::F, "frac_pi_2") => return Ok(v("(Real.pi / 2)", Ty::F)),
                (Ty::F, "epsilon") => return Ok(v("rsEps", Ty::F)),
                (Ty::F, "from" | "from_usize" | "from_f32" | "from_f64" | "from_i32" | "from_u32" | "from_u64" | "from_isize" | "from_i64" | "from_u8" | "from_subset" | "from_real") => {
                    let x = self.expr(&args[0])?;
                    let x = match self.sh(&x.ty) {
                        Ty::Var(_) => {
                            // literal: print it as a real
                            let lit = x.t.strip_prefix('(').and_then(|s| s.split(" : ").next()).map(|s| s.to_string());
                            if let (Some(d), Expr::Lit(_)) = (lit, strip(&args[0])) {
                                self.flit_any(&d)?
                            } else {
                                self.uni(&x.ty, &Ty::F).ok();
                                v(x.t.clone(), Ty::F)
                            }
                        }
                        _ => {
                            if let Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) = strip(&args[0]) {
                                let d = i.base10_digits().to_string();
                                self.flit(&d)?
                            } else {
                                self.cast(&x, &Ty::F)?
                            }
                        }
                    };
                    if n == "from_real" || n == "from_subset" {
                        return Ok(x);
                    }
                    let mut y = v(app("some", &[&x.t]), opt(Ty::F));
                    y.known = Some(Box::new(x));
                    return Ok(y);
                }
                (Ty::PInt(i), "from" | "from_usize" | "from_u128" | "from_i32" | "from_u64" | "from_u32" | "from_u8" | "from_isize" | "from_i64" | "from_i128") => {
                    let x = self.expr(&args[0])?;
                    if let Ty::Var(_) = self.sh(&x.ty) {
                        self.uni(&x.ty, if n == "from_usize" { &Ty::Nat } else { &Ty::Z })?;
                    }
                    let xt = match self.sh(&x.ty) {
                        Ty::Nat => format!("((({}) : ℕ) : ℤ)", x.t),
                        _ => x.t.clone(),
                    };
                    return Ok(v(app("rsFrom", &[&pint_term(i), &xt]), opt(t.clone())));
                }
                (Ty::PInt(i), "max_value") => return Ok(v(format!("{}.hi", pint_term(i)), t.clone())),
                (Ty::PInt(i), "min_value") => return Ok(v(format!("{}.lo", pint_term(i)), t.clone())),
                (Ty::Cx, "new") => {
                    let a = self.expr_as(&args[0], &Ty::F)?;
                    let b = self.expr_as(&args[1], &Ty::F)?;
                    return Ok(v(app("Complex.mk", &[&a.t, &b.t]), Ty::Cx));
                }
                (Ty::Cx, "i") => return Ok(v("Complex.I", Ty::Cx)),
                (Ty::Cx, "from_real" | "from") => {
                    let a = self.expr_as(&args[0], &Ty::F)?;
                    return Ok(v(format!("(({} : ℝ) : ℂ)", a.t), Ty::Cx));
                }
                (Ty::List(et), "new" | "with_capacity") => {
                    if n == "with_capacity" {
                        // capacity expression has no effect on the value
                    }
                    let lt = self.lt(&list((**et).clone()));
                    return Ok(v(format!("([] : {lt})"), t.clone()));
                }
                (Ty::List(et), "from_iter" | "from") => {
                    let x = self.expr(&args[0])?;
                    let x = self.iter_list(x, &args[0])?;
                    let e = self.elem(&x)?;
                    self.uni(&e, et)?;
                    return Ok(x);
                }
                (Ty::Planner, "new") => return Ok(v("()", Ty::Planner)),
                (Ty::Mat(_), _) => {
                    let et = self.tys.keyed(key(sp, "mat"), Kind::Any);
                    let vecq = q == "DVector" || q == "OVector";
                    let mt = Ty::Mat(Box::new(et.clone()));
                    match n {
                        "zeros" => {
                            let r = self.expr_as(&args[0], &Ty::Nat)?.t;
                            let c = if vecq { "1".into() } else { self.expr_as(&args[1], &Ty::Nat)?.t };
                            return Ok(v(app("rsMatZeros", &[&r, &c]), mt));
                        }
                        "from_vec" if vecq => {
                            let x = self.expr(&args[0])?;
                            let e = self.elem(&x)?;
                            self.uni(&e, &et)?;
                            return Ok(v(app("rsMatOfVec", &[&x.t]), mt));
                        }
                        "from_iterator" | "from_vec" | "from_column_slice" if !vecq => {
                            let r = self.expr_as(&args[0], &Ty::Nat)?.t;
                            let c = self.expr_as(&args[1], &Ty::Nat)?.t;
                            let x = self.expr(&args[2])?;
                            let x = self.iter_list(x, &args[2])?;
                            let e = self.elem(&x)?;
                            self.uni(&e, &et)?;
                            return Ok(self.bind("m", app("rsMatOfList", &[&r, &c, &x.t]), mt));
                        }
                        "from_diagonal_element" => {
                            let r = self.expr_as(&args[0], &Ty::Nat)?.t;
                            let c = self.expr_as(&args[1], &Ty::Nat)?.t;
                            let x = self.expr_as(&args[2], &et)?.t;
                            return Ok(v(app("rsMatDiag", &[&r, &c, &x]), mt));
                        }
                        "identity" => {
                            let r = self.expr_as(&args[0], &Ty::Nat)?.t;
                            let c = self.expr_as(&args[1], &Ty::Nat)?.t;
                            let o = self.lit("1", &et);
                            return Ok(v(app("rsMatDiag", &[&r, &c, &o.t]), mt));
                        }
                        "from_element" => {
                            let r = self.expr_as(&args[0], &Ty::Nat)?.t;
                            let c = self.expr_as(&args[1], &Ty::Nat)?.t;
                            let x = self.expr_as(&args[2], &et)?.t;
                            return Ok(v(format!("(RMat.mk {} {} (fun _ _ => {x}))", paren(&r), paren(&c)), mt));
                        }
                        "from_fn" => {
                            let r = self.expr_as(&args[0], &Ty::Nat)?.t;
                            let (c, f) = if vecq { ("1".into(), &args[1]) } else { (self.expr_as(&args[1], &Ty::Nat)?.t, &args[2]) };
                            let l = self.lam(f, &[Ty::Nat, Ty::Nat], false)?;
                            if !l.mods.is_empty() {
                                return err("stateful from_fn");
                            }
                            self.uni(&l.val.ty, &et)?;
                            let t = self.term(&l.val);
                            if l.mon {
                                let body = wrap(&l.items, app("some", &[&t]));
                                return Ok(self.bind("m", format!("(rsMatFromFnM {} {} (fun {} {} => {body}))", paren(&r), paren(&c), l.binders[0], l.binders[1]), mt));
                            }
                            let body = wrap(&l.items, t);
                            return Ok(v(format!("(RMat.mk {} {} (fun {} {} => {body}))", paren(&r), paren(&c), l.binders[0], l.binders[1]), mt));
                        }
                        _ => {}
                    }
                }
                _ => {}
            }
        }
        // Trait::method(x, ..) or Type::method(x, ..)
        if args.is_empty() {
            return err(format!("call {q}::{n}"));
        }
        let recv = self.expr(&args[0])?;
        self.method_v(recv, n, &args[1..], None, sp, Some(&args[0]))
    }
    fn flit_any(&mut self, d: &str) -> R<Val> {
        if d.chars().all(|c| c.is_ascii_digit() || c == '.' || c == 'e' || c == '-') && !d.is_empty() {
            return self.flit(d);
        }
        err("literal conversion")
    }

    fn inst(&mut self, t: &Ty, m: &HashMap<String, Ty>) -> Ty {
        match t {
            Ty::PInt(n) => m.get(n).cloned().unwrap_or(t.clone()),
            Ty::List(a) => list(self.inst(a, m)),
            Ty::Opt(a) => opt(self.inst(a, m)),
            Ty::Mat(a) => Ty::Mat(Box::new(self.inst(a, m))),
            Ty::Arr(a, n) => Ty::Arr(Box::new(self.inst(a, m)), *n),
            Ty::Tup(v) => Ty::Tup(v.iter().map(|x| self.inst(x, m)).collect()),
            Ty::Fun(v, r) => Ty::Fun(v.iter().map(|x| self.inst(x, m)).collect(), Box::new(self.inst(r, m))),
            t => t.clone(),
        }
    }

    fn user_call(&mut self, d: &'a FnDef, args: &[Expr], p: &ExprPath) -> R<Val> {
        let sig = signature(self.kr, d)?;
        if d.name == self.lean_name {
            self.recursive = true;
        } else {
            self.deps.insert(d.name.clone());
        }
        let mut m = HashMap::new();
        for g in &sig.pints {
            let t = self.tys.fresh(Kind::Any);
            m.insert(g.clone(), t);
        }
        let mut consts = vec![];
        if !sig.consts.is_empty() {
            if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                for x in &a.args {
                    match x {
                        GenericArgument::Const(e) => {
                            let y = self.expr_as(e, &Ty::Nat)?;
                            consts.push(y.t);
                        }
                        GenericArgument::Type(Type::Path(tp)) => {
                            let e: Expr = parse_quote!(#tp);
                            let y = self.expr_as(&e, &Ty::Nat)?;
                            consts.push(y.t);
                        }
                        _ => {}
                    }
                }
            }
            if consts.len() != sig.consts.len() {
                return err("const generic arguments");
            }
        }
        if args.len() != sig.params.len() {
            return err(format!("arity of {}", d.name));
        }
        let mut ts = vec![];
        enum Wb {
            P(Place),
            Pr(Prov),
            N,
        }
        let mut wbs = vec![];
        for (a, prm) in args.iter().zip(&sig.params) {
            let pt = self.inst(&prm.ty, &m);
            if prm.mutref {
                if let Some(pl) = self.place(a)? {
                    let x = self.read_place(&pl)?;
                    let x = self.coerce(&x, &pt)?;
                    ts.push(self.term(&x));
                    wbs.push(Wb::P(pl));
                } else {
                    let x = self.expr_as(a, &pt)?;
                    ts.push(self.term(&x));
                    wbs.push(if x.prov.any() { Wb::Pr(x.prov.clone()) } else { Wb::N });
                }
            } else {
                if let Ty::Fun(at, rt) = self.sh(&pt) {
                    if let Expr::Closure(_) | Expr::Path(_) = strip(a) {
                        let is_var = matches!(strip(a), Expr::Path(pp) if pp.path.segments.len() == 1 && self.lookup(&lastseg(&pp.path)).is_some());
                        if !is_var {
                            let l = self.lam(a, &at, false)?;
                            if !l.mods.is_empty() {
                                return err("stateful closure argument");
                            }
                            self.uni(&l.val.ty, &rt)?;
                            let t = self.term(&l.val);
                            let body = wrap(&l.items, app("some", &[&t]));
                            ts.push(format!("(fun {} => {body})", l.binders.join(" ")));
                            continue;
                        }
                    }
                }
                let x = self.expr(a)?;
                let x = if let Ty::List(_) = self.sh(&pt) { self.iter_list(x, a)? } else { x };
                if x.eff {
                    return err("effectful lazy iterator passed to a function");
                }
                let x = self.coerce(&x, &pt)?;
                ts.push(self.term(&x));
            }
        }
        let mut all = vec![];
        for g in &sig.pints {
            match self.sh(&m[g]) {
                Ty::PInt(s) => all.push(pint_term(&s)),
                Ty::Var(_) if !self.last_pass => all.push("?".into()),
                t => return err(format!("integer type argument {t:?}")),
            }
        }
        all.extend(consts);
        all.extend(ts);
        let r: Vec<&str> = all.iter().map(|s| s.as_str()).collect();
        let code = if r.is_empty() { sig.lean.clone() } else { app(&sig.lean, &r) };
        let rt = self.inst(&sig.ret, &m);
        self.note_adt(&rt);
        let nm = self.name_it("r", code, true);
        let unit = self.sh(&rt) == Ty::Unit;
        let nmut = sig.params.iter().filter(|p| p.mutref).count();
        let np = nmut + if unit && nmut > 0 { 0 } else { 1 };
        let mut i = 0;
        let res = if unit && nmut > 0 {
            self.unit()
        } else {
            i = 1;
            v(proj(&nm, 0, np), rt)
        };
        for w in wbs {
            let t = proj(&nm, i, np);
            i += 1;
            match w {
                Wb::P(pl) => self.write_place(&pl, t)?,
                Wb::Pr(pr) => self.write_back(&pr, &t, true)?,
                Wb::N => {}
            }
        }
        Ok(res)
    }

    // ---------- iterators
    fn elem(&mut self, x: &Val) -> R<Ty> {
        match self.sh(&x.ty) {
            Ty::List(t) => Ok(*t),
            Ty::Var(_) => {
                let t = self.tys.fresh(Kind::Any);
                self.uni(&x.ty, &list(t.clone()))?;
                Ok(t)
            }
            t => err(format!("not a sequence: {t:?}")),
        }
    }
    /// view a value as a list to iterate over (IntoIterator)
    fn iter_list(&mut self, x: Val, e: &Expr) -> R<Val> {
        match self.sh(&x.ty) {
            Ty::List(_) => {
                let mut x = x;
                if let Expr::Reference(r) = strip(e) {
                    if r.mutability.is_some() {
                        if let Some(p) = self.place(&r.expr)? {
                            x.prov = Prov::Mut(p);
                        }
                    }
                }
                Ok(x)
            }
            Ty::Arr(t, _) => self.coerce(&x, &list(*t)),
            Ty::Mat(t) => Ok(v(app("rsMatToList", &[&x.t]), list(*t))),
            Ty::Chunks(t) => Ok(v(app("rsChunks", &[&format!("{}.2", paren(&x.t)), &format!("{}.1", paren(&x.t))]), list(list(*t)))),
            Ty::Opt(t) => Ok(v(format!("{}.toList", paren(&x.t)), list(*t))),
            Ty::Var(_) => {
                let t = self.tys.fresh(Kind::Any);
                self.uni(&x.ty, &list(t))?;
                Ok(x)
            }
            t => err(format!("cannot iterate {t:?}")),
        }
    }
}

thread_local! {
    static TRIAL: RefCell<Vec<BTreeSet<usize>>> = const { RefCell::new(vec![]) };
}
pub fn note_written(id: usize) {
    TRIAL.with(|t| {
        if let Some(s) = t.borrow_mut().last_mut() {
            s.insert(id);
        }
    });
}

fn format_ident(s: &str) -> Ident {
    Ident::new(s, proc_macro2::Span::call_site())
}
fn is_nonzero_lit(t: &str) -> bool {
    let d: String = t.trim_start_matches('(').chars().take_while(|c| c.is_ascii_digit()).collect();
    !d.is_empty() && d.chars().any(|c| c != '0') && (t == d || t == format!("({d} : ℕ)"))
}

struct VecRep(Expr, Expr);
impl parse::Parse for VecRep {
    fn parse(i: parse::ParseStream) -> syn::Result<Self> {
        let a: Expr = i.parse()?;
        i.parse::<Token![;]>()?;
        let b: Expr = i.parse()?;
        Ok(VecRep(a, b))
    }
}
struct MatchesM(Expr, Pat, Option<Expr>);
impl parse::Parse for MatchesM {
    fn parse(i: parse::ParseStream) -> syn::Result<Self> {
        let a: Expr = i.parse()?;
        i.parse::<Token![,]>()?;
        let p = Pat::parse_multi_with_leading_vert(i)?;
        let g = if i.peek(Token![if]) {
            i.parse::<Token![if]>()?;
            Some(i.parse::<Expr>()?)
        } else {
            None
        };
        let _ = i.parse::<Option<Token![,]>>();
        Ok(MatchesM(a, p, g))
    }
}

include!("method.rs");

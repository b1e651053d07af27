// part of tr.rs: method calls

fn lostp(p: &Prov) -> Prov {
    if p.any() {
        Prov::Lost
    } else {
        Prov::No
    }
}

const IDENT: &[&str] = &[
    "borrow", "borrow_mut", "as_ref", "as_mut", "as_slice", "as_mut_slice", "to_owned", "clone", "into", "deref", "by_ref", "view", "into_inner",
    "as_deref", "clone_owned", "into_owned", "to_real", "real_part", "peekable", "fuse", "into_boxed_slice", "reborrow", "as_view", "to_subset_unchecked", "into_raw_vec",
];

impl<'a> Fx<'a> {
    fn method(&mut self, m: &ExprMethodCall) -> R<Val> {
        let name = m.method.to_string();
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        if ["get_unchecked", "get_unchecked_mut", "index", "index_mut"].contains(&name.as_str()) {
            let e = Expr::MethodCall(m.clone());
            if let Some(p) = self.place(&e)? {
                return self.read_place(&p);
            }
            let b = self.expr(&m.receiver)?;
            return self.index_val(b, &args[0]);
        }
        if ["unwrap", "expect", "unwrap_unchecked"].contains(&name.as_str()) {
            let e = Expr::MethodCall(m.clone());
            if let Some(p) = self.place(&e)? {
                return self.read_place(&p);
            }
        }
        let tf: Option<Type> = m.turbofish.as_ref().and_then(|t| {
            t.args.iter().find_map(|a| if let GenericArgument::Type(t) = a { Some(t.clone()) } else { None })
        });
        let recv = self.expr(&m.receiver)?;
        self.method_v(recv, &name, &args, tf, m, Some(&m.receiver))
    }

    /// list view of a receiver, with provenance if the receiver is a place and `mt`
    fn as_list(&mut self, recv: &Val, re: Option<&Expr>, mt: bool) -> R<Val> {
        let mut x = match self.sh(&recv.ty) {
            Ty::Arr(t, _) => self.coerce(recv, &list(*t))?,
            Ty::List(_) => recv.clone(),
            Ty::Mat(t) => v(app("rsMatToList", &[&recv.t]), list(*t)),
            Ty::Lstsq(t) => v(recv.t.clone(), list(*t)),
            Ty::Chunks(t) => v(app("rsChunks", &[&format!("{}.2", paren(&recv.t)), &format!("{}.1", paren(&recv.t))]), list(list(*t))),
            Ty::Opt(t) => v(format!("{}.toList", paren(&recv.t)), list(*t)),
            Ty::Var(_) => {
                let t = self.tys.fresh(Kind::Any);
                self.uni(&recv.ty, &list(t))?;
                recv.clone()
            }
            t => return err(format!("not a sequence: {t:?}")),
        };
        if mt {
            if let Some(e) = re {
                if let Some(p) = self.place(e)? {
                    if !x.prov.any() {
                        x.prov = if matches!(self.sh(&p.ty), Ty::List(_) | Ty::Arr(..) | Ty::Mat(_)) { Prov::Mut(p) } else { Prov::No };
                    }
                }
            }
        }
        Ok(x)
    }
    fn seq_ty(&self, t: &Ty) -> bool {
        matches!(self.sh(t), Ty::List(_) | Ty::Arr(..) | Ty::Mat(_) | Ty::Chunks(_) | Ty::Lstsq(_))
    }
    fn need_place(&mut self, re: Option<&Expr>, what: &str) -> R<Place> {
        match re {
            Some(e) => self.place(e)?.ok_or(format!("{what} on a temporary")),
            None => err(format!("{what} on a temporary")),
        }
    }
    fn pure_lam(&mut self, f: &Expr, args: &[Ty], what: &str) -> R<(Vec<String>, Val, String)> {
        let l = self.lam(f, args, false)?;
        if !l.mods.is_empty() {
            return err(format!("stateful closure in {what}"));
        }
        if l.mon {
            return err(format!("possibly panicking closure in {what}"));
        }
        let t = self.term(&l.val);
        let body = wrap(&l.items, t);
        Ok((l.binders, l.val, body))
    }
    fn map_list(&mut self, l: &Val, f: &Expr) -> R<Val> {
        let et = self.elem(l)?;
        let lam = self.lam(f, &[et], false)?;
        let ty = lam.val.ty.clone();
        let (eff, lz) = (!lam.mods.is_empty(), lam.mon);
        let unit = self.sh(&ty) == Ty::Unit;
        let item_known = lam.val.known.is_some();
        let _ = item_known;
        let wrote = l.prov.any() && lam.upd.last().cloned().flatten().is_some();
        let (_, o) = self.run(l, lam, None, true)?;
        let o = o.ok_or("map")?;
        let _ = unit;
        let mut r = v(o, list(ty));
        r.eff = eff || wrote || l.eff;
        r.lz = lz || l.lz;
        Ok(r)
    }
    fn strict(&self, x: &Val, what: &str) -> R<()> {
        if x.eff || x.lz {
            return err(format!("partial consumption ({what}) of an iterator with effects"));
        }
        Ok(())
    }
    fn done(&self, mut x: Val) -> Val {
        x.eff = false;
        x.lz = false;
        x.prov = Prov::No;
        x
    }
    fn ord_lam(&mut self, f: &Expr, et: &Ty, lt: &str) -> R<String> {
        let l = self.lam(f, &[et.clone(), et.clone()], false)?;
        if !l.mods.is_empty() {
            return err("stateful closure in comparator");
        }
        self.uni(&l.val.ty, &Ty::Ord)?;
        let t = self.term(&l.val);
        let b = &l.binders;
        if l.mon {
            // panics unless the comparator is defined on all pairs of elements
            let body = wrap(&l.items, app("some", &[&t]));
            self.bind("u", format!("(if (∀ {} ∈ {lt}, ∀ {} ∈ {lt}, ({body}).isSome = true) then (some ()) else none)", b[0], b[1]), Ty::Unit);
            return Ok(format!("(fun {} {} => (({body}).getD Ordering.eq))", b[0], b[1]));
        }
        let body = wrap(&l.items, t);
        Ok(format!("(fun {} {} => {body})", b[0], b[1]))
    }

    #[allow(clippy::too_many_arguments)]
    fn method_v(&mut self, recv: Val, name: &str, args: &[Expr], tf: Option<Type>, sp: &impl Spanned, re: Option<&Expr>) -> R<Val> {
        let rt = self.sh(&recv.ty);
        if IDENT.contains(&name) && args.is_empty() {
            if name == "clone" || name == "to_owned" || name == "clone_owned" {
                let mut x = recv;
                x.prov = Prov::No;
                return Ok(x);
            }
            return Ok(recv);
        }
        if let Ty::Var(_) = rt {
            // literals and unresolved receivers
            if ["abs", "sqrt", "powi", "powf", "exp", "sin", "cos", "tan", "sinh", "cosh"].contains(&name) {
                for a in args {
                    self.expr(a)?;
                }
                let r = v(recv.t.clone(), recv.ty.clone());
                if self.last_pass {
                    return self.unresolved(name);
                }
                return Ok(r);
            }
            if !["iter", "into_iter", "iter_mut"].contains(&name) {
                if self.last_pass {
                    return err(format!("unresolved receiver of .{name}()"));
                }
                for a in args {
                    if !matches!(strip(a), Expr::Closure(_)) {
                        self.expr(a)?;
                    }
                }
                return self.hole(sp, name);
            }
        }
        // user methods
        if let Ty::Adt(n, _) = &rt {
            let n = n.clone();
            let d = self
                .kr
                .fns
                .get(&format!("{n}_{name}"))
                .or_else(|| self.kr.fns.values().find(|d| d.rust_name == name && d.self_ty.as_ref().map(|t| type_name(t) == n).unwrap_or(false)));
            if let (Some(d), Some(e)) = (d, re) {
                let mut all = vec![e.clone()];
                all.extend(args.iter().cloned());
                let p: ExprPath = parse_quote!(m);
                return self.user_call(d, &all, &p);
            }
            match name {
                "eq" | "ne" => {
                    let r = self.expr(&args[0])?;
                    let op: BinOp = if name == "eq" { parse_quote!(==) } else { parse_quote!(!=) };
                    return self.compare(&op, recv, r);
                }
                _ => return err(format!("method {n}.{name}")),
            }
        }
        if let Ty::F = &rt {
            if let Some(d) = self.kr.fns.values().find(|d| {
                d.rust_name == name && d.trait_name.is_some() && d.self_ty.as_ref().map(|t| type_name(t) == "f64").unwrap_or(false)
            }) {
                if let Some(e) = re {
                    let mut all = vec![e.clone()];
                    all.extend(args.iter().cloned());
                    let p: ExprPath = parse_quote!(m);
                    return self.user_call(d, &all, &p);
                }
            }
        }
        // generic operator methods
        match name {
            "add" | "sub" | "mul" | "div" | "rem" if args.len() == 1 => {
                let r = self.expr(&args[0])?;
                let op = match name {
                    "add" => '+',
                    "sub" => '-',
                    "mul" => '*',
                    "div" => '/',
                    _ => '%',
                };
                return self.arith(op, recv, r);
            }
            "eq" | "ne" | "lt" | "le" | "gt" | "ge" if args.len() == 1 => {
                let r = self.expr(&args[0])?;
                let op: BinOp = match name {
                    "eq" => parse_quote!(==),
                    "ne" => parse_quote!(!=),
                    "lt" => parse_quote!(<),
                    "le" => parse_quote!(<=),
                    "gt" => parse_quote!(>),
                    _ => parse_quote!(>=),
                };
                return self.compare(&op, recv, r);
            }
            "partial_cmp" | "cmp" | "total_cmp" if args.len() == 1 => {
                let r = self.expr(&args[0])?;
                self.uni(&recv.ty, &r.ty)?;
                let x = v(app("rsCmp", &[&recv.t, &r.t]), Ty::Ord);
                if name == "partial_cmp" {
                    let mut y = v(app("some", &[&x.t]), opt(Ty::Ord));
                    y.known = Some(Box::new(x));
                    return Ok(y);
                }
                return Ok(x);
            }
            "is_zero" => return Ok(vp(format!("({} = 0)", recv.t))),
            "is_one" => return Ok(vp(format!("({} = 1)", recv.t))),
            "neg" if args.is_empty() => return Ok(v(format!("(- {})", recv.t), recv.ty)),
            _ => {}
        }
        match rt.clone() {
            Ty::Opt(t) => self.opt_method(recv, *t, name, args, sp, re),
            Ty::F => self.real_method(recv, name, args),
            Ty::Cx => self.cx_method(recv, name, args),
            Ty::Nat | Ty::Z | Ty::PInt(_) => self.int_method(recv, rt, name, args),
            Ty::Bool => match name {
                "then" | "then_some" => {
                    let p = self.prop_t(&recv);
                    let (it, x) = if name == "then_some" {
                        (vec![], self.expr(&args[0])?)
                    } else if let Expr::Closure(c) = strip(&args[0]) {
                        let b = c.body.clone();
                        self.sub(|s| s.expr(&b))?
                    } else {
                        return err("bool::then");
                    };
                    if mon(&it) {
                        return err("bool::then with panicking closure");
                    }
                    let t = self.term(&x);
                    let t = wrap(&it, app("some", &[&t]));
                    Ok(v(format!("(if {p} then {t} else none)"), opt(x.ty)))
                }
                _ => err(format!("method bool.{name}")),
            },
            Ty::Ord => match name {
                "reverse" => Ok(v(format!("{}.swap", paren(&recv.t)), Ty::Ord)),
                "then" => {
                    let x = self.expr_as(&args[0], &Ty::Ord)?;
                    Ok(v(format!("({}.then {})", paren(&recv.t), paren(&x.t)), Ty::Ord))
                }
                "then_with" => {
                    if let Expr::Closure(c) = strip(&args[0]) {
                        let b = c.body.clone();
                        let (it, x) = self.sub(|s| s.expr(&b))?;
                        if !mon(&it) {
                            let t = wrap(&it, x.t.clone());
                            return Ok(v(format!("({}.then {})", paren(&recv.t), paren(&t)), Ty::Ord));
                        }
                    }
                    err("then_with")
                }
                "is_lt" => Ok(vp(format!("({} = Ordering.lt)", recv.t))),
                "is_gt" => Ok(vp(format!("({} = Ordering.gt)", recv.t))),
                "is_le" => Ok(vp(format!("({} ≠ Ordering.gt)", recv.t))),
                "is_ge" => Ok(vp(format!("({} ≠ Ordering.lt)", recv.t))),
                "is_eq" => Ok(vp(format!("({} = Ordering.eq)", recv.t))),
                _ => err(format!("method Ordering.{name}")),
            },
            Ty::Planner => match name {
                "plan_fft_forward" | "plan_fft_inverse" => {
                    let n = self.expr_as(&args[0], &Ty::Nat)?;
                    Ok(v(format!("({}, {})", n.t, name == "plan_fft_forward"), Ty::Fft))
                }
                _ => err(format!("method FftPlanner.{name}")),
            },
            Ty::Fft => match name {
                "process" | "process_with_scratch" => {
                    let p = self.place(&args[0])?.ok_or("fft buffer")?;
                    self.uni(&p.ty, &list(Ty::Cx))?;
                    let x = self.read_place(&p)?;
                    let y = self.bind("ft", app("rsFftProcess", &[&format!("{}.1", paren(&recv.t)), &format!("{}.2", paren(&recv.t)), &x.t]), p.ty.clone());
                    self.write_place(&p, y.t)?;
                    Ok(self.unit())
                }
                "get_inplace_scratch_len" => Ok(v("(0 : ℕ)", Ty::Nat)),
                "len" => Ok(v(format!("{}.1", paren(&recv.t)), Ty::Nat)),
                _ => err(format!("method Fft.{name}")),
            },
            Ty::Str => err(format!("method str.{name}")),
            Ty::Fun(..) => err("method on closure"),
            Ty::Chunks(t) if name == "remainder" => {
                let _ = t;
                Ok(v(app("rsRemainder", &[&format!("{}.2", paren(&recv.t)), &format!("{}.1", paren(&recv.t))]), list(*t)))
            }
            Ty::Mat(t) => self.mat_method(recv, *t, name, args, tf, sp, re),
            Ty::Lstsq(_) if name == "unwrap" => Ok(recv),
            _ => self.list_method(recv, name, args, tf, sp, re),
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn mat_method(&mut self, recv: Val, et: Ty, name: &str, args: &[Expr], tf: Option<Type>, sp: &impl Spanned, re: Option<&Expr>) -> R<Val> {
        let x = paren(&recv.t);
        match name {
            "shape" => Ok(v(format!("({x}.nrows, {x}.ncols)"), Ty::Tup(vec![Ty::Nat, Ty::Nat]))),
            "nrows" => Ok(v(format!("{x}.nrows"), Ty::Nat)),
            "ncols" => Ok(v(format!("{x}.ncols"), Ty::Nat)),
            "len" => Ok(v(format!("({x}.nrows * {x}.ncols)"), Ty::Nat)),
            "row" | "column" => {
                let i = self.expr_as(&args[0], &Ty::Nat)?;
                let f = if name == "row" { "rsMatRow" } else { "rsMatCol" };
                Ok(self.bind("rw", app(f, &[&recv.t, &i.t]), list(et)))
            }
            "transpose" => Ok(v(app("rsMatT", &[&recv.t]), recv.ty)),
            "transpose_mut" => {
                let p = self.need_place(re, name)?;
                self.items.push(Item::Guard(format!("({x}.nrows = {x}.ncols)")));
                self.write_place(&p, app("rsMatT", &[&recv.t]))?;
                Ok(self.unit())
            }
            "sum" => Ok(v(app("List.sum", &[&app("rsMatToList", &[&recv.t])]), et)),
            "map" => {
                let (b, val, body) = self.pure_lam(&args[0], &[et], "matrix map")?;
                Ok(v(format!("(rsMatMap (fun {} => {body}) {x})", b[0]), Ty::Mat(Box::new(val.ty))))
            }
            "fill" => {
                let p = self.need_place(re, name)?;
                let y = self.expr_as(&args[0], &et)?;
                let lt = self.lt(&et);
                self.write_place(&p, format!("(rsMatMap (fun (_ : {lt}) => {}) {x})", y.t))?;
                Ok(self.unit())
            }
            "iter_mut" => {
                let p = self.need_place(re, name)?;
                let mut l = v(app("rsMatToList", &[&recv.t]), list(et));
                l.prov = Prov::Mut(p);
                Ok(l)
            }
            _ => {
                let l = v(app("rsMatToList", &[&recv.t]), list(et));
                self.list_method(l, name, args, tf, sp, None)
            }
        }
    }

    fn int_method(&mut self, recv: Val, rt: Ty, name: &str, args: &[Expr]) -> R<Val> {
        match (&rt, name) {
            (Ty::PInt(_) | Ty::Z, "to_usize") => Ok(v(app("rsToUsize", &[&recv.t]), opt(Ty::Nat))),
            (Ty::PInt(_), "to_u128" | "to_i128" | "to_i64" | "to_u64" | "to_isize" | "to_i32" | "to_u32") => {
                Ok(v(app("rsFrom", &[&format!("IntTy.{}", &name[3..]), &recv.t]), opt(Ty::PInt(format!("IntTy.{}", &name[3..])))))
            }
            (Ty::Nat, "to_usize") => {
                let mut y = v(app("some", &[&recv.t]), opt(Ty::Nat));
                y.known = Some(Box::new(recv));
                Ok(y)
            }
            (Ty::F, "to_f32") => err("narrowing conversion to f32"),
            (_, "to_f64" | "to_f32") => {
                let x = self.cast(&recv, &Ty::F)?;
                let mut y = v(app("some", &[&x.t]), opt(Ty::F));
                y.known = Some(Box::new(x));
                Ok(y)
            }
            (_, "min" | "max") => {
                let b = self.expr_as(&args[0], &rt)?;
                Ok(v(app(name, &[&recv.t, &b.t]), rt))
            }
            (_, "clamp") => {
                let a = self.expr_as(&args[0], &rt)?;
                let b = self.expr_as(&args[1], &rt)?;
                Ok(v(format!("(max {} (min {} {}))", paren(&a.t), paren(&b.t), paren(&recv.t)), rt))
            }
            (Ty::PInt(i), "checked_add" | "checked_sub" | "checked_mul" | "checked_div" | "checked_rem") => {
                let b = self.expr_as(&args[0], &rt)?;
                let f = match name {
                    "checked_add" => "rsAdd",
                    "checked_sub" => "rsSub",
                    "checked_mul" => "rsMul",
                    "checked_div" => "rsDiv",
                    _ => "rsRem",
                };
                Ok(v(app(f, &[&pint_term(i), &recv.t, &b.t]), opt(rt.clone())))
            }
            (Ty::PInt(i), "saturating_sub" | "saturating_add" | "saturating_mul") => {
                let b = self.expr_as(&args[0], &rt)?;
                let op = match name {
                    "saturating_sub" => '-',
                    "saturating_add" => '+',
                    _ => '*',
                };
                let it = pint_term(i);
                Ok(v(format!("(max {it}.lo (min {it}.hi ({} {op} {})))", recv.t, b.t), rt.clone()))
            }
            (Ty::PInt(i), "pow") => {
                let b = self.expr(&args[0])?;
                if matches!(self.sh(&b.ty), Ty::Var(_)) {
                    self.uni(&b.ty, &Ty::Nat)?;
                }
                if self.sh(&b.ty) != Ty::Nat {
                    return err("pow exponent");
                }
                Ok(self.bind("n", app("rsPow", &[&pint_term(i), &recv.t, &b.t]), rt.clone()))
            }
            (Ty::PInt(_), "count_ones" | "leading_zeros" | "trailing_zeros") => err("bit counting"),
            (Ty::Nat, "saturating_sub") => {
                let b = self.expr_as(&args[0], &rt)?;
                Ok(v(format!("({} - {})", recv.t, b.t), Ty::Nat))
            }
            (Ty::Nat, "checked_sub") => {
                let b = self.expr_as(&args[0], &rt)?;
                Ok(v(app("rsSubU", &[&recv.t, &b.t]), opt(Ty::Nat)))
            }
            (Ty::Nat, "checked_add" | "checked_mul") => {
                let b = self.expr_as(&args[0], &rt)?;
                Ok(v(app(if name == "checked_add" { "rsAddU" } else { "rsMulU" }, &[&recv.t, &b.t]), opt(Ty::Nat)))
            }
            (Ty::Nat, "pow") if !self.checked => {
                let b = self.expr(&args[0])?;
                match self.sh(&b.ty) {
                    Ty::Var(_) => self.uni(&b.ty, &Ty::Nat)?,
                    Ty::Nat => {}
                    _ => {
                        let Some(n) = &b.nat else { return err("pow exponent") };
                        return Ok(v(format!("({} ^ {})", recv.t, n), Ty::Nat));
                    }
                }
                Ok(v(format!("({} ^ {})", recv.t, b.t), Ty::Nat))
            }
            (Ty::Nat, "abs_diff") => {
                let b = self.expr_as(&args[0], &rt)?;
                Ok(v(app("Nat.dist", &[&recv.t, &b.t]), Ty::Nat))
            }
            (Ty::Nat, "div_ceil") => {
                let b = self.expr_as(&args[0], &rt)?;
                self.items.push(Item::Guard(format!("({} ≠ 0)", b.t)));
                Ok(v(format!("(({} + {} - 1) / {})", recv.t, b.t, b.t), Ty::Nat))
            }
            (Ty::Nat, "is_multiple_of") => {
                let b = self.expr_as(&args[0], &rt)?;
                Ok(vp(format!("({} ∣ {})", b.t, recv.t)))
            }
            (Ty::Nat, "next_power_of_two") if !self.checked => Ok(v(app("rsNextPow2", &[&recv.t]), Ty::Nat)),
            (Ty::Z, "abs") => Ok(v(format!("|{}|", recv.t), Ty::Z)),
            (Ty::Z, "pow") => {
                let b = self.expr(&args[0])?;
                if matches!(self.sh(&b.ty), Ty::Var(_)) {
                    self.uni(&b.ty, &Ty::Nat)?;
                    return Ok(v(format!("({} ^ {})", recv.t, b.t), Ty::Z));
                }
                err("integer pow")
            }
            (Ty::Z, "rem_euclid") => {
                let b = self.expr_as(&args[0], &rt)?;
                Ok(v(format!("({} % {})", recv.t, b.t), Ty::Z))
            }
            (Ty::PInt(_), "signum") | (Ty::Z, "signum") => Ok(v(format!("{}.sign", paren(&recv.t)), rt.clone())),
            (Ty::Z | Ty::PInt(_), "is_negative") => Ok(vp(format!("({} < 0)", recv.t))),
            (Ty::Z | Ty::PInt(_), "is_positive") => Ok(vp(format!("({} > 0)", recv.t))),
            _ => err(format!("method {name} on {rt:?}")),
        }
    }

    fn real_method(&mut self, recv: Val, name: &str, args: &[Expr]) -> R<Val> {
        let x = recv.t.clone();
        if self.abs {
            return match name {
                "real" | "conj" | "conjugate" | "re" => Ok(recv),
                "mul_add" => {
                    let a = self.expr_as(&args[0], &Ty::F)?;
                    let b = self.expr_as(&args[1], &Ty::F)?;
                    Ok(v(app("rsFma", &[&x, &a.t, &b.t]), Ty::F))
                }
                "to_f32" | "to_f64" => err("float width conversion in abstract arithmetic"),
                _ => err(format!("method {name} in abstract arithmetic")),
            };
        }
        let un = |f: &str| Ok(v(app(f, &[&x]), Ty::F));
        match name {
            "abs" | "modulus" | "norm1" => Ok(v(format!("|{x}|"), Ty::F)),
            "sqrt" => un("Real.sqrt"),
            "exp" => un("Real.exp"),
            "ln" => un("Real.log"),
            "log10" => Ok(v(format!("(Real.logb 10 {})", paren(&x)), Ty::F)),
            "log2" => Ok(v(format!("(Real.logb 2 {})", paren(&x)), Ty::F)),
            "sin" => un("Real.sin"),
            "cos" => un("Real.cos"),
            "tan" => un("Real.tan"),
            "sinh" => un("Real.sinh"),
            "cosh" => un("Real.cosh"),
            "tanh" => un("Real.tanh"),
            "asinh" => un("Real.arsinh"),
            "atan" => un("Real.arctan"),
            "asin" => un("Real.arcsin"),
            "acos" => un("Real.arccos"),
            "floor" => Ok(v(format!("((⌊{x}⌋ : ℤ) : ℝ)"), Ty::F)),
            "ceil" => Ok(v(format!("((⌈{x}⌉ : ℤ) : ℝ)"), Ty::F)),
            "trunc" => un("rsTrunc"),
            "recip" => Ok(v(format!("(1 / {x})"), Ty::F)),
            "to_f32" => err("narrowing conversion to f32"),
            "real" | "conj" | "conjugate" | "re" | "to_f64" => {
                if name.starts_with("to_") {
                    let mut y = v(app("some", &[&x]), opt(Ty::F));
                    y.known = Some(Box::new(recv));
                    return Ok(y);
                }
                Ok(recv)
            }
            "imaginary" => Ok(v("(0 : ℝ)", Ty::F)),
            "to_degrees" => Ok(v(format!("({x} * 180 / Real.pi)"), Ty::F)),
            "powi" | "pow" => {
                let n = self.expr(&args[0])?;
                if let Some(k) = &n.nat {
                    return Ok(v(format!("({x} ^ {})", paren(k)), Ty::F));
                }
                match self.sh(&n.ty) {
                    Ty::Nat => Ok(v(format!("({x} ^ {})", n.t), Ty::F)),
                    Ty::F => Ok(v(format!("({x} ^ {})", n.t), Ty::F)),
                    Ty::Var(_) => {
                        self.uni(&n.ty, &Ty::Z).ok();
                        Ok(v(format!("({x} ^ {})", n.t), Ty::F))
                    }
                    _ => {
                        if let Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) = strip(&args[0]) {
                            return Ok(v(format!("({x} ^ ({} : ℕ))", i.base10_digits()), Ty::F));
                        }
                        Ok(v(format!("({x} ^ {})", n.t), Ty::F))
                    }
                }
            }
            "powf" => {
                let n = self.expr_as(&args[0], &Ty::F)?;
                Ok(v(format!("({x} ^ {})", n.t), Ty::F))
            }
            "max" | "min" => {
                let n = self.expr_as(&args[0], &Ty::F)?;
                Ok(v(app(name, &[&x, &n.t]), Ty::F))
            }
            "clamp" => {
                let a = self.expr_as(&args[0], &Ty::F)?;
                let b = self.expr_as(&args[1], &Ty::F)?;
                Ok(v(format!("(max {} (min {} {}))", paren(&a.t), paren(&b.t), paren(&x)), Ty::F))
            }
            "mul_add" => {
                let a = self.expr_as(&args[0], &Ty::F)?;
                let b = self.expr_as(&args[1], &Ty::F)?;
                Ok(v(format!("({x} * {} + {})", a.t, b.t), Ty::F))
            }
            "hypot" => {
                let a = self.expr_as(&args[0], &Ty::F)?;
                Ok(v(format!("(Real.sqrt ({x} * {x} + {a} * {a}))", a = a.t), Ty::F))
            }
            "rem_euclid" => {
                let a = self.expr_as(&args[0], &Ty::F)?;
                Ok(v(app("rsRemEuclid", &[&x, &a.t]), Ty::F))
            }
            "is_sign_negative" | "is_negative" => Ok(vp(format!("({x} < 0)"))),
            "is_sign_positive" | "is_positive" => Ok(vp(format!("({x} ≥ 0)"))),
            "is_nan" | "is_infinite" => Ok(vp("False")),
            "is_finite" => Ok(vp("True")),
            _ => err(format!("method {name} on a real")),
        }
    }

    fn cx_method(&mut self, recv: Val, name: &str, args: &[Expr]) -> R<Val> {
        let x = recv.t.clone();
        match name {
            "real" | "re" => Ok(v(format!("{}.re", paren(&x)), Ty::F)),
            "imaginary" | "im" => Ok(v(format!("{}.im", paren(&x)), Ty::F)),
            "conj" | "conjugate" => Ok(v(app("(starRingEnd ℂ)", &[&x]), Ty::Cx)),
            "abs" | "norm" | "modulus" => Ok(v(format!("‖{x}‖"), Ty::F)),
            "norm_sqr" | "modulus_squared" => Ok(v(app("Complex.normSq", &[&x]), Ty::F)),
            "sqrt" => Ok(v(app("rsCsqrt", &[&x]), Ty::Cx)),
            "exp" => Ok(v(app("Complex.exp", &[&x]), Ty::Cx)),
            "inv" | "recip" => Ok(v(format!("({x})⁻¹"), Ty::Cx)),
            "sinh" => Ok(v(app("Complex.sinh", &[&x]), Ty::Cx)),
            "cosh" => Ok(v(app("Complex.cosh", &[&x]), Ty::Cx)),
            "scale" | "unscale" => {
                let a = self.expr_as(&args[0], &Ty::F)?;
                let op = if name == "scale" { '*' } else { '/' };
                Ok(v(format!("({x} {op} (({} : ℝ) : ℂ))", a.t), Ty::Cx))
            }
            "powi" => {
                let n = self.expr(&args[0])?;
                if let Some(k) = &n.nat {
                    return Ok(v(format!("({x} ^ {})", paren(k)), Ty::Cx));
                }
                if let Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) = strip(&args[0]) {
                    return Ok(v(format!("({x} ^ ({} : ℕ))", i.base10_digits()), Ty::Cx));
                }
                Ok(v(format!("({x} ^ {})", n.t), Ty::Cx))
            }
            _ => err(format!("method {name} on a complex number")),
        }
    }

    fn opt_method(&mut self, recv: Val, t: Ty, name: &str, args: &[Expr], sp: &impl Spanned, re: Option<&Expr>) -> R<Val> {
        let x = paren(&recv.t);
        match name {
            "unwrap" | "expect" | "unwrap_unchecked" => {
                if let Some(k) = recv.known {
                    return Ok(*k);
                }
                Ok(self.bind("u", recv.t, t))
            }
            "is_some" => Ok(v(format!("{x}.isSome"), Ty::Bool)),
            "is_none" => Ok(v(format!("{x}.isNone"), Ty::Bool)),
            "copied" | "cloned" | "as_deref_mut" | "ok" => Ok(recv),
            "unwrap_or" => {
                let d = self.expr_as(&args[0], &t)?;
                if let Some(k) = recv.known {
                    return Ok(*k);
                }
                let dt = self.term(&d);
                Ok(v(format!("({x}.getD {})", paren(&dt)), t))
            }
            "unwrap_or_default" => {
                let d = self.default_of(&t, sp)?;
                Ok(v(format!("({x}.getD {})", paren(&d.t)), t))
            }
            "unwrap_or_else" => {
                if let Some(k) = recv.known {
                    return Ok(*k);
                }
                let (it, d) = match strip(&args[0]) {
                    Expr::Closure(c) => {
                        let b = c.body.clone();
                        self.sub(|s| s.expr(&b))?
                    }
                    p @ Expr::Path(_) => {
                        let call: Expr = parse_quote!(#p());
                        self.sub(|s| s.expr(&call))?
                    }
                    _ => return err("unwrap_or_else"),
                };
                if it.iter().any(|i| matches!(i, Item::Fail)) {
                    return Ok(self.bind("u", recv.t, t));
                }
                self.uni(&d.ty, &t)?;
                let dt = self.term(&d);
                if !mon(&it) {
                    return Ok(v(format!("({x}.getD {})", paren(&wrap(&it, dt))), t));
                }
                let n = self.fresh("o");
                Ok(self.bind("u", format!("(match {} with\n | some {n} => some {n}\n | none => {})", recv.t, wrap(&it, app("some", &[&dt]))), t))
            }
            "map" | "and_then" => {
                let l = self.lam(&args[0], &[t], false)?;
                if !l.mods.is_empty() {
                    return err("stateful closure in Option::map");
                }
                let rt = l.val.ty.clone();
                let vt = self.term(&l.val);
                if name == "and_then" {
                    if l.mon {
                        return err("panicking closure in and_then");
                    }
                    let body = wrap(&l.items, vt);
                    return Ok(v(format!("({x}.bind (fun {} => {body}))", l.binders[0]), rt));
                }
                if l.mon {
                    let body = wrap(&l.items, app("some", &[&app("some", &[&vt])]));
                    return Ok(self.bind("o", format!("(match {} with\n | some {} => {body}\n | none => some none)", recv.t, l.binders[0]), opt(rt)));
                }
                let body = wrap(&l.items, vt);
                Ok(v(format!("({x}.map (fun {} => {body}))", l.binders[0]), opt(rt)))
            }
            "map_or" => {
                let d = self.expr(&args[0])?;
                let (b, val, body) = self.pure_lam(&args[1], &[t], "map_or")?;
                self.uni(&d.ty, &val.ty)?;
                let dt = self.term(&d);
                Ok(v(format!("(({x}.map (fun {} => {body})).getD {})", b[0], paren(&dt)), val.ty))
            }
            "is_some_and" => {
                let (b, _, body) = self.pure_lam(&args[0], &[t], "is_some_and")?;
                Ok(v(format!("(({x}.map (fun {} => {body})).getD false)", b[0]), Ty::Bool))
            }
            "or" => {
                let d = self.expr_as(&args[0], &recv.ty)?;
                Ok(v(format!("({x} <|> {})", d.t), recv.ty))
            }
            "take" => {
                let p = self.need_place(re, name)?;
                self.write_place(&p, "none".into())?;
                Ok(recv)
            }
            "iter" | "into_iter" => Ok(v(format!("{x}.toList"), list(t))),
            _ => err(format!("method Option.{name}")),
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn list_method(&mut self, recv: Val, name: &str, args: &[Expr], tf: Option<Type>, sp: &impl Spanned, re: Option<&Expr>) -> R<Val> {
        match name {
            "iter" | "into_par_iter" | "par_iter" => {
                let mut x = self.as_list(&recv, re, false)?;
                if name == "iter" {
                    x.prov = Prov::No;
                }
                return Ok(x);
            }
            "iter_mut" => {
                let x = self.as_list(&recv, re, true)?;
                if !x.prov.any() {
                    return err("iter_mut on a temporary");
                }
                return Ok(x);
            }
            "into_iter" | "drain" if args.is_empty() => {
                if matches!(self.sh(&recv.ty), Ty::Chunks(_)) {
                    return self.as_list(&recv, re, false);
                }
                if recv.eff || recv.lz {
                    return Ok(recv);
                }
                return self.as_list(&recv, re, true);
            }
            _ => {}
        }
        let arr_place = matches!(self.sh(&recv.ty), Ty::Arr(..));
        let l = self.as_list(&recv, re, false)?;
        let et = self.elem(&l)?;
        let lt = paren(&l.t);
        let mk = |t: String, ty: Ty, l: &Val, prov: Prov| {
            let mut r = v(t, ty);
            r.prov = prov;
            r.eff = l.eff;
            r.lz = l.lz;
            r
        };
        match name {
            "cloned" | "copied" | "to_vec" | "into_vec" | "to_owned" => {
                let mut x = l;
                x.prov = Prov::No;
                if name == "to_vec" {
                    x = self.done(x);
                }
                Ok(x)
            }
            "len" | "count" => Ok(v(format!("{lt}.length"), Ty::Nat)),
            "is_empty" => Ok(vp(format!("({lt}.length = 0)"))),
            "collect" | "collect_vec" => {
                if let Some(t) = &tf {
                    let t = self.ty(t)?;
                    if let Ty::List(_) = self.sh(&t) {
                        self.uni(&t, &l.ty)?;
                    } else {
                        return err("collect into a non-list");
                    }
                }
                Ok(self.done(l))
            }
            "map" | "mapv" | "mapv_into" => {
                if arr_place {
                    return err("array map");
                }
                self.map_list(&l, &args[0])
            }
            "inspect" => err("inspect"),
            "for_each" => {
                let lam = self.lam(&args[0], &[et], false)?;
                self.run(&l, lam, None, false)?;
                Ok(self.unit())
            }
            "flat_map" => {
                let x = self.map_list(&l, &args[0])?;
                let e2 = self.elem(&x)?;
                let inner = match self.sh(&e2) {
                    Ty::List(t) => *t,
                    Ty::Var(_) if !self.last_pass => return self.hole(sp, "flat_map"),
                    _ => return err("flat_map"),
                };
                Ok(mk(format!("({}.flatten)", paren(&x.t)), list(inner), &x, Prov::No))
            }
            "flatten" | "concat" => match self.sh(&et) {
                Ty::List(t) => Ok(mk(format!("({lt}.flatten)"), list(*t), &l, Prov::No)),
                Ty::Opt(t) => Ok(mk(format!("({lt}.filterMap id)"), list(*t), &l, Prov::No)),
                Ty::Arr(t, _) => Ok(mk(format!("({lt}.map List.ofFn).flatten"), list(*t), &l, Prov::No)),
                Ty::Var(_) if !self.last_pass => self.hole(sp, "flatten"),
                _ => err("flatten"),
            },
            "filter" | "take_while" | "skip_while" | "retain" => {
                if name != "filter" {
                    self.strict(&l, name)?;
                }
                let lam = self.lam(&args[0], &[et], false)?;
                if !lam.mods.is_empty() || l.eff {
                    return err(format!("stateful closure in {name}"));
                }
                let b = self.bool_t(&lam.val);
                if lam.mon {
                    if name == "filter" || name == "retain" {
                        let body = wrap(&lam.items, app("some", &[&b]));
                        let r = self.bind("l", format!("(rsFilterM (fun {} => {body}) {lt})", lam.binders[0]), l.ty.clone());
                        if name == "retain" {
                            let p = self.need_place(re, name)?;
                            self.write_place(&p, r.t)?;
                            return Ok(self.unit());
                        }
                        return Ok(mk(r.t, l.ty.clone(), &Val { lz: true, ..l.clone() }, lostp(&l.prov)));
                    }
                    return err(format!("panicking closure in {name}"));
                }
                let body = wrap(&lam.items, b);
                let f = match name {
                    "filter" | "retain" => "List.filter",
                    "take_while" => "List.takeWhile",
                    _ => "List.dropWhile",
                };
                let t = format!("({f} (fun {} => {body}) {lt})", lam.binders[0]);
                if name == "retain" {
                    let p = self.need_place(re, name)?;
                    self.write_place(&p, t)?;
                    return Ok(self.unit());
                }
                Ok(mk(t, l.ty.clone(), &l, lostp(&l.prov)))
            }
            "filter_map" => {
                let x = self.map_list(&l, &args[0])?;
                let e2 = self.elem(&x)?;
                match self.sh(&e2) {
                    Ty::Opt(t) => Ok(mk(format!("({}.filterMap id)", paren(&x.t)), list(*t), &x, Prov::No)),
                    Ty::Var(_) if !self.last_pass => self.hole(sp, "filter_map"),
                    _ => err("filter_map"),
                }
            }
            "enumerate" => Ok(mk(app("rsEnum", &[&l.t]), list(Ty::Tup(vec![Ty::Nat, et])), &l, if l.prov.any() { Prov::Enum(Box::new(l.prov.clone())) } else { Prov::No })),
            "zip" => {
                let r = self.expr(&args[0])?;
                let r = self.iter_list(r, &args[0])?;
                if (l.lz || r.lz) && (l.eff || r.eff) || (l.eff && r.eff) {
                    return err("zip of iterators with effects");
                }
                let et2 = self.elem(&r)?;
                let mut x = v(app("List.zip", &[&l.t, &r.t]), list(Ty::Tup(vec![et, et2])));
                if l.lz || r.lz || l.eff || r.eff {
                    return err("zip of an iterator with effects");
                }
                if l.prov.any() || r.prov.any() {
                    x.prov = Prov::Zip(Box::new(l.prov.clone()), Box::new(r.prov.clone()));
                }
                x.eff = l.eff || r.eff;
                x.lz = l.lz || r.lz;
                Ok(x)
            }
            "chain" => {
                let r = self.expr(&args[0])?;
                let r = self.iter_list(r, &args[0])?;
                let et2 = self.elem(&r)?;
                self.uni(&et, &et2)?;
                if l.eff || r.eff {
                    return err("chain of iterators with effects");
                }
                let p = if l.prov.any() || r.prov.any() { Prov::Lost } else { Prov::No };
                let mut x = mk(format!("({} ++ {})", l.t, r.t), l.ty.clone(), &l, p);
                x.lz = l.lz || r.lz;
                Ok(x)
            }
            "skip" => {
                if l.eff {
                    return err("skip on an iterator with effects");
                }
                let n = self.expr_as(&args[0], &Ty::Nat)?;
                let p = match &l.prov {
                    Prov::Mut(pl) if matches!(self.sh(&pl.ty), Ty::List(_)) => {
                        let mut pl = pl.clone();
                        pl.segs.push(Seg::Slice(format!("(min {} {lt}.length)", paren(&n.t)), format!("{lt}.length")));
                        Prov::Mut(pl)
                    }
                    p => lostp(p),
                };
                Ok(mk(format!("(List.drop {} {lt})", paren(&n.t)), l.ty.clone(), &l, p))
            }
            "take" => {
                self.strict(&l, name)?;
                let n = self.expr_as(&args[0], &Ty::Nat)?;
                let p = if l.prov.any() { Prov::Part(Box::new(l.prov.clone())) } else { Prov::No };
                Ok(mk(format!("(List.take {} {lt})", paren(&n.t)), l.ty.clone(), &l, p))
            }
            "rev" => {
                if l.eff {
                    return err("rev of an iterator with effects");
                }
                let p = if l.prov.any() { Prov::Rev(Box::new(l.prov.clone())) } else { Prov::No };
                Ok(mk(format!("{lt}.reverse"), l.ty.clone(), &l, p))
            }
            "step_by" => {
                self.strict(&l, name)?;
                let n = self.expr_as(&args[0], &Ty::Nat)?;
                if !is_nonzero_lit(&n.t) {
                    self.items.push(Item::Guard(format!("({} ≠ 0)", n.t)));
                }
                Ok(mk(app("rsStepBy", &[&n.t, &l.t]), l.ty.clone(), &l, lostp(&l.prov)))
            }
            "windows" | "chunks" | "chunks_exact" | "chunks_exact_mut" | "chunks_mut" | "array_chunks" => {
                let n = self.expr_as(&args[0], &Ty::Nat)?;
                if !is_nonzero_lit(&n.t) {
                    self.items.push(Item::Guard(format!("({} ≠ 0)", n.t)));
                }
                match name {
                    "windows" => Ok(v(app("rsWindows", &[&n.t, &l.t]), list(list(et)))),
                    "chunks" => Ok(v(app("rsChunksAll", &[&n.t, &l.t]), list(list(et)))),
                    "chunks_exact" => Ok(v(format!("({}, {})", l.t, n.t), Ty::Chunks(Box::new(et)))),
                    _ => {
                        let p = self.need_place(re, name)?;
                        let f = if name == "chunks_mut" { "rsChunksAll" } else { "rsChunks" };
                        let mut x = v(app(f, &[&n.t, &l.t]), list(list(et)));
                        x.prov = Prov::Chunks(p);
                        Ok(x)
                    }
                }
            }
            "into_remainder" => err("into_remainder"),
            "tuple_windows" => {
                let x = match &tf {
                    Some(t) => self.ty(t)?,
                    None => self.tys.keyed(key(sp, "tw"), Kind::Any),
                };
                match self.sh(&x) {
                    Ty::Tup(ts) if ts.len() == 2 => {
                        self.uni(&ts[0], &et)?;
                        self.uni(&ts[1], &et)?;
                        Ok(mk(format!("(List.zip {lt} {lt}.tail)"), list(x.clone()), &l, Prov::No))
                    }
                    Ty::Var(_) if !self.last_pass => Ok(v("?", list(x))),
                    _ => err("tuple_windows"),
                }
            }
            "tuples" => {
                let x = match &tf {
                    Some(t) => self.ty(t)?,
                    None => self.tys.keyed(key(sp, "tw"), Kind::Any),
                };
                match self.sh(&x) {
                    Ty::Tup(ts) if [2, 3, 4, 6].contains(&ts.len()) => {
                        for t in &ts {
                            self.uni(t, &et)?;
                        }
                        Ok(mk(app(&format!("rsTuples{}", ts.len()), &[&l.t]), list(x.clone()), &l, Prov::No))
                    }
                    Ty::Var(_) if !self.last_pass => Ok(v("?", list(x))),
                    _ => err("tuples"),
                }
            }
            "fold" => {
                let i = self.expr(&args[0])?;
                let at = self.tys.keyed(key(sp, "fold"), Kind::Any);
                let i = match self.sh(&at) {
                    Ty::Var(_) => {
                        self.uni(&i.ty, &at)?;
                        i
                    }
                    _ => self.coerce(&i, &at)?,
                };
                let it = self.term(&i);
                let lam = self.lam(&args[1], &[at.clone(), et], true)?;
                self.uni(&lam.val.ty, &at)?;
                let (a, _) = self.run(&l, lam, Some(it), false)?;
                Ok(v(a.ok_or("fold")?, at))
            }
            "try_fold" | "scan" => err(name.to_string()),
            "reduce" => {
                let lam = self.lam(&args[0], &[et.clone(), et.clone()], true)?;
                if !lam.mods.is_empty() || lam.mon {
                    return err("reduce with effects");
                }
                let t = self.term(&lam.val);
                let body = wrap(&lam.items, t);
                let st = lam.st.clone().unwrap_or("_".into());
                Ok(v(format!("(rsReduce (fun {st} {} => {body}) {lt})", lam.binders[0]), opt(et)))
            }
            "sum" | "product" => {
                let t = match &tf {
                    Some(t) => self.ty(t)?,
                    None => et.clone(),
                };
                self.uni(&t, &et)?;
                let s = name == "sum";
                match self.sh(&et) {
                    Ty::PInt(i) => {
                        let f = if s { "rsAdd" } else { "rsMul" };
                        Ok(self.bind("f", format!("(List.foldlM ({f} {}) {} {lt})", pint_term(&i), if s { 0 } else { 1 }), et))
                    }
                    Ty::F | Ty::Cx | Ty::Z | Ty::Nat => {
                        if self.sh(&et) == Ty::Nat && self.checked {
                            return Ok(self.bind("f", format!("(List.foldlM {} {} {lt})", if s { "rsAddU" } else { "rsMulU" }, if s { 0 } else { 1 }), et));
                        }
                        if self.abs {
                            return Ok(v(app(if s { "rsSumK" } else { "rsProdK" }, &[&l.t]), et));
                        }
                        Ok(v(app(if s { "List.sum" } else { "List.prod" }, &[&l.t]), et))
                    }
                    Ty::Var(_) if !self.last_pass => Ok(v("?", et)),
                    t => err(format!("sum of {t:?}")),
                }
            }
            "any" | "all" | "find" | "position" | "partition" => {
                if name != "partition" {
                    self.strict(&l, name)?;
                } else if l.eff {
                    return err("partition with effects");
                }
                let lam = self.lam(&args[0], &[et.clone()], false)?;
                if !lam.mods.is_empty() {
                    return err(format!("stateful closure in {name}"));
                }
                let b = self.bool_t(&lam.val);
                if lam.mon {
                    if name == "find" {
                        let body = wrap(&lam.items, app("some", &[&b]));
                        return Ok(self.bind("fd", format!("(rsFindM (fun {} => {body}) {lt})", lam.binders[0]), opt(et)));
                    }
                    return err(format!("panicking closure in {name}"));
                }
                let body = wrap(&lam.items, b);
                let fun = format!("(fun {} => {body})", lam.binders[0]);
                let after = |s: &mut Self, code: String| -> R<()> {
                    // advancing a stored iterator by a short-circuiting search is not modelled
                    let _ = (s, code);
                    Ok(())
                };
                after(self, String::new())?;
                Ok(match name {
                    "any" => v(format!("({lt}.any {fun})"), Ty::Bool),
                    "all" => v(format!("({lt}.all {fun})"), Ty::Bool),
                    "find" => v(format!("({lt}.find? {fun})"), opt(et)),
                    "position" => v(format!("({lt}.findIdx? {fun})"), opt(Ty::Nat)),
                    _ => v(format!("(({lt}.filter {fun}), ({lt}.filter (fun z => !({fun} z))))"), Ty::Tup(vec![list(et.clone()), list(et)])),
                })
            }
            "min_by" | "max_by" => {
                let f = self.ord_lam(&args[0], &et, &lt)?;
                Ok(v(format!("({} {f} {lt})", if name == "min_by" { "rsMinBy" } else { "rsMaxBy" }), opt(et)))
            }
            "min" | "max" if args.is_empty() => Ok(v(format!("({} rsCmp {lt})", if name == "min" { "rsMinBy" } else { "rsMaxBy" }), opt(et))),
            "first" | "first_mut" => Ok(v(format!("{lt}.head?"), opt(et))),
            "last" | "last_mut" => Ok(v(format!("{lt}.getLast?"), opt(et))),
            "get" | "get_mut" => {
                if let Expr::Range(r) = strip(&args[0]) {
                    let (lo, hi) = self.range_bounds(r, &l)?;
                    return Ok(v(app("rsSlice", &[&l.t, &lo, &hi]), opt(l.ty.clone())));
                }
                let i = self.expr_as(&args[0], &Ty::Nat)?;
                Ok(v(format!("({lt}[{}]?)", i.t), opt(et)))
            }
            "next" | "next_back" => {
                if l.eff || l.lz {
                    return err("next on an iterator with effects");
                }
                let (h, tl) = if name == "next" { ("head?", "tail") } else { ("getLast?", "dropLast") };
                let r = v(format!("{lt}.{h}"), opt(et));
                if let Some(e) = re {
                    if let Some(p) = self.place(e)? {
                        let old = self.lete("it", &l);
                        self.write_place(&p, format!("{}.{tl}", paren(&old.t)))?;
                    }
                }
                Ok(r)
            }
            "nth" => {
                self.strict(&l, name)?;
                let i = self.expr_as(&args[0], &Ty::Nat)?;
                let r = v(format!("({lt}[{}]?)", i.t), opt(et));
                if let Some(e) = re {
                    if let Some(p) = self.place(e)? {
                        self.write_place(&p, format!("(List.drop ({} + 1) {lt})", i.t))?;
                    }
                }
                Ok(r)
            }
            "unzip" => match self.sh(&et) {
                Ty::Tup(ts) if ts.len() == 2 => Ok(v(format!("({lt}.map Prod.fst, {lt}.map Prod.snd)"), Ty::Tup(vec![list(ts[0].clone()), list(ts[1].clone())]))),
                Ty::Var(_) if !self.last_pass => self.hole(sp, "unzip"),
                _ => err("unzip"),
            },
            "size_hint" => {
                let t = format!("{lt}.length");
                Ok(v(format!("({t}, some {t})"), Ty::Tup(vec![Ty::Nat, opt(Ty::Nat)])))
            }
            "contains" => {
                let x = self.expr_as(&args[0], &et)?;
                Ok(vp(format!("({} ∈ {})", x.t, l.t)))
            }
            "split_at" => {
                let i = self.expr_as(&args[0], &Ty::Nat)?;
                self.items.push(Item::Guard(format!("({} ≤ {lt}.length)", i.t)));
                Ok(v(format!("(List.take {i} {lt}, List.drop {i} {lt})", i = paren(&i.t)), Ty::Tup(vec![l.ty.clone(), l.ty.clone()])))
            }
            "split_first" => Ok(v(app("rsSplitFirst", &[&l.t]), opt(Ty::Tup(vec![et.clone(), list(et)])))),
            "split_last" => Ok(v(app("rsSplitLast", &[&l.t]), opt(Ty::Tup(vec![et.clone(), list(et)])))),
            "shape" | "dim" | "raw_dim" => Ok(v(format!("{lt}.length"), Ty::Nat)),
            "sorted_by" => {
                let f = self.ord_lam(&args[0], &et, &lt)?;
                Ok(v(format!("(rsSortBy {f} {lt})"), l.ty.clone()))
            }
            // mutators
            "push" | "push_back" => {
                let x = self.expr_as(&args[0], &et)?;
                let p = self.need_place(re, name)?;
                let cur = self.read_place(&p)?;
                let t = self.term(&x);
                self.write_place(&p, format!("({} ++ [{}])", cur.t, t))?;
                Ok(self.unit())
            }
            "pop" => {
                let p = self.need_place(re, name)?;
                let old = self.lete("it", &l);
                let t = paren(&old.t);
                self.write_place(&p, format!("{t}.dropLast"))?;
                Ok(v(format!("{t}.getLast?"), opt(et)))
            }
            "extend" | "extend_from_slice" | "append" => {
                let x = self.expr(&args[0])?;
                let x = self.iter_list(x, &args[0])?;
                let e2 = self.elem(&x)?;
                self.uni(&e2, &et)?;
                let p = self.need_place(re, name)?;
                let cur = self.read_place(&p)?;
                self.write_place(&p, format!("({} ++ {})", cur.t, x.t))?;
                if name == "append" {
                    let q = self.place(&args[0])?.ok_or("append")?;
                    self.write_place(&q, "[]".into())?;
                }
                Ok(self.unit())
            }
            "reverse" => {
                let p = self.need_place(re, name)?;
                self.write_place(&p, format!("{lt}.reverse"))?;
                Ok(self.unit())
            }
            "rotate_right" | "rotate_left" => {
                let k = self.expr_as(&args[0], &Ty::Nat)?;
                let p = self.need_place(re, name)?;
                self.items.push(Item::Guard(format!("({} ≤ {lt}.length)", k.t)));
                let t = app(if name == "rotate_right" { "rsRotR" } else { "rsRotL" }, &[&l.t, &k.t]);
                if arr_place {
                    let old = self.read_place(&p)?;
                    self.write_place(&p, app("rsArrOfList", &[&old.t, &t]))?;
                } else {
                    self.write_place(&p, t)?;
                }
                Ok(self.unit())
            }
            "remove" | "swap_remove" => {
                let i = self.expr_as(&args[0], &Ty::Nat)?;
                let p = self.need_place(re, name)?;
                let x = self.bind("e", app("rsIdx", &[&l.t, &i.t]), et);
                if name == "swap_remove" {
                    return err("swap_remove");
                }
                self.write_place(&p, format!("({lt}.eraseIdx {})", paren(&i.t)))?;
                Ok(x)
            }
            "insert" => {
                let i = self.expr_as(&args[0], &Ty::Nat)?;
                let x = self.expr_as(&args[1], &et)?;
                let t = self.term(&x);
                let p = self.need_place(re, name)?;
                let r = self.bind("w", app("rsInsert", &[&l.t, &i.t, &t]), l.ty.clone());
                self.write_place(&p, r.t)?;
                Ok(self.unit())
            }
            "resize" => {
                let n = self.expr_as(&args[0], &Ty::Nat)?;
                let x = self.expr_as(&args[1], &et)?;
                let p = self.need_place(re, name)?;
                self.write_place(&p, app("rsResize", &[&l.t, &n.t, &x.t]))?;
                Ok(self.unit())
            }
            "truncate" => {
                let n = self.expr_as(&args[0], &Ty::Nat)?;
                let p = self.need_place(re, name)?;
                self.write_place(&p, format!("(List.take {} {lt})", paren(&n.t)))?;
                Ok(self.unit())
            }
            "clear" => {
                let p = self.need_place(re, name)?;
                self.write_place(&p, "[]".into())?;
                Ok(self.unit())
            }
            "reserve" | "shrink_to_fit" | "reserve_exact" => Ok(self.unit()),
            "capacity" => err("capacity"),
            "sort_by" | "sort_unstable_by" => {
                let f = self.ord_lam(&args[0], &et, &lt)?;
                let p = self.need_place(re, name)?;
                self.write_place(&p, format!("({} {f} {lt})", if name == "sort_by" { "rsSortBy" } else { "rsSortUnst" }))?;
                Ok(self.unit())
            }
            "sort" | "sort_unstable" => {
                let p = self.need_place(re, name)?;
                self.write_place(&p, format!("(rsSortBy rsCmp {lt})"))?;
                Ok(self.unit())
            }
            "swap" => {
                let i = self.expr_as(&args[0], &Ty::Nat)?;
                let j = self.expr_as(&args[1], &Ty::Nat)?;
                let p = self.need_place(re, name)?;
                let r = self.bind("w", app("rsSwap", &[&l.t, &i.t, &j.t]), l.ty.clone());
                self.write_place(&p, r.t)?;
                Ok(self.unit())
            }
            "fill" => {
                let x = self.expr_as(&args[0], &et)?;
                let p = self.need_place(re, name)?;
                if arr_place {
                    self.write_place(&p, format!("(fun _ => {})", x.t))?;
                } else {
                    self.write_place(&p, format!("(List.replicate {lt}.length {})", paren(&x.t)))?;
                }
                Ok(self.unit())
            }
            "copy_from_slice" | "clone_from_slice" => {
                let x = self.expr(&args[0])?;
                let x = self.as_list(&x, None, false)?;
                let e2 = self.elem(&x)?;
                self.uni(&e2, &et)?;
                let p = self.need_place(re, name)?;
                self.items.push(Item::Guard(format!("({lt}.length = {}.length)", paren(&x.t))));
                if arr_place {
                    let old = self.read_place(&p)?;
                    self.write_place(&p, app("rsArrOfList", &[&old.t, &x.t]))?;
                } else {
                    self.write_place(&p, x.t)?;
                }
                Ok(self.unit())
            }
            "try_into" => err("try_into"),
            _ => err(format!("method {name} on a sequence")),
        }
    }
}

mod krate;
mod tr;
mod types;
use krate::{Crate, FnDef};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::Path;
use tr::*;
use types::{Kind, Ty, Types};

pub struct Done {
    pub code: String,
    pub deps: BTreeSet<String>,
    pub cdeps: BTreeSet<String>,
    pub adts: BTreeSet<String>,
    pub sig: String,
    pub recursive: bool,
}

fn translate(kr: &Crate, def: &FnDef, abs: bool, checked: bool) -> R<Done> {
    let sig = signature(kr, def)?;
    let self_ty = self_type(kr, def)?;
    let mut known: HashMap<String, Ty> = HashMap::new();
    let passes = 5;
    let mut last_err = String::new();
    for pass in 0..passes {
        let last = pass + 1 == passes;
        let mut fx = Fx {
            kr,
            def,
            abs,
            powi: 0,
            checked,
            tys: Types { known: known.clone(), ..Default::default() },
            gm: sig.gm.clone(),
            self_ty: self_ty.clone(),
            vars: vec![],
            env: vec![HashMap::new()],
            items: vec![],
            cnt: 0,
            retk: vec![],
            ret_ty: sig.ret.clone(),
            deps: BTreeSet::new(),
            cdeps: BTreeSet::new(),
            adts: BTreeSet::new(),
            last_pass: last,
            lean_name: def.name.clone(),
            recursive: false,
        };
        let r = body(&mut fx, &sig);
        if last {
            match r {
                Ok((params, code)) => {
                    let mut rts = vec![];
                    let nm = sig.params.iter().filter(|p| p.mutref).count();
                    if sig.ret != Ty::Unit || nm == 0 {
                        rts.push(sig.ret.clone());
                    }
                    for p in sig.params.iter().filter(|p| p.mutref) {
                        rts.push(p.ty.clone());
                    }
                    let rt = if rts.len() == 1 { rts[0].clone() } else { Ty::Tup(rts.clone()) };
                    let mut hd = String::new();
                    if abs {
                        hd.push_str(" {K : Type} [RsScalar K]");
                    }
                    for p in &sig.pints {
                        hd.push_str(&format!(" (ity_{p} : IntTy)"));
                    }
                    for p in &sig.consts {
                        hd.push_str(&format!(" ({p} : ℕ)"));
                    }
                    for (n, p) in params.iter().zip(&sig.params) {
                        hd.push_str(&format!(" ({n} : {})", lean_ty(&p.ty, abs)));
                    }
                    let rtl = lean_ty(&rt, abs);
                    let ret = format!("Option ({rtl})");
                    let sigs: String = {
                        let mut s = vec![];
                        for _ in &sig.pints {
                            s.push("IntTy".to_string());
                        }
                        for _ in &sig.consts {
                            s.push("ℕ".to_string());
                        }
                        for p in &sig.params {
                            s.push(lean_ty(&p.ty, abs));
                        }
                        s.push(ret.clone());
                        s.join(" → ")
                    };
                    let tail = if fx.recursive { "\npartial_fixpoint" } else { "" };
                    let code = format!("noncomputable def {}{hd} : {ret} :=\n {code}{tail}\n", def.name);
                    if code.contains('?') && code.contains(" ?") || code.contains("(?") {
                        // unresolved placeholder
                        if code.split(|c: char| c.is_whitespace() || c == '(' || c == ')').any(|w| w == "?") {
                            return Err("unresolved type".into());
                        }
                    }
                    for p in &sig.params {
                        note(kr, &p.ty, &mut fx.adts);
                    }
                    note(kr, &sig.ret, &mut fx.adts);
                    return Ok(Done { code, deps: fx.deps, cdeps: fx.cdeps, adts: fx.adts, sig: sigs, recursive: fx.recursive });
                }
                Err(e) => return Err(format!("{e}{}", if last_err.is_empty() || last_err == e { String::new() } else { format!(" (earlier: {last_err})") })),
            }
        }
        if let Err(e) = r {
            last_err = e;
        } else {
            last_err.clear();
        }
        let deflt = pass + 2 == passes;
        for (k, t) in fx.tys.used.clone() {
            let d = fx.tys.deep(&t);
            let d = if deflt { default_vars(&fx.tys, &d) } else { d };
            if !Types::has_var(&d) {
                known.insert(k, d);
            }
        }
    }
    Err("unreachable".into())
}
fn note(kr: &Crate, t: &Ty, out: &mut BTreeSet<String>) {
    match t {
        Ty::Adt(n, v) => {
            out.insert(n.clone());
            v.iter().for_each(|x| note(kr, x, out));
        }
        Ty::List(a) | Ty::Opt(a) | Ty::Mat(a) | Ty::Arr(a, _) => note(kr, a, out),
        Ty::Tup(v) => v.iter().for_each(|x| note(kr, x, out)),
        _ => {}
    }
}
fn default_vars(ts: &Types, t: &Ty) -> Ty {
    match t {
        Ty::Var(v) => match ts.kind[*v] {
            Some(Kind::Int) => Ty::Z,
            Some(Kind::Float) => Ty::F,
            _ => t.clone(),
        },
        Ty::List(a) => Ty::List(Box::new(default_vars(ts, a))),
        Ty::Opt(a) => Ty::Opt(Box::new(default_vars(ts, a))),
        Ty::Mat(a) => Ty::Mat(Box::new(default_vars(ts, a))),
        Ty::Arr(a, n) => Ty::Arr(Box::new(default_vars(ts, a)), *n),
        Ty::Tup(v) => Ty::Tup(v.iter().map(|x| default_vars(ts, x)).collect()),
        t => t.clone(),
    }
}

fn body(fx: &mut Fx, sig: &Sig) -> R<(Vec<String>, String)> {
    let mut names = vec![];
    let mut muts = vec![];
    let inputs: Vec<syn::FnArg> = fx.def.sig.inputs.iter().cloned().collect();
    for (p, a) in sig.params.iter().zip(&inputs) {
        let n = fx.fresh(&p.name);
        names.push(n.clone());
        let x = v(n, p.ty.clone());
        let id = match a {
            syn::FnArg::Typed(t) if !matches!(&*t.pat, syn::Pat::Ident(_)) => {
                fx.bind_pat(&t.pat, &x)?;
                None
            }
            _ => Some(fx.new_var(&p.name, &x)),
        };
        if p.mutref {
            let id = id.ok_or("pattern for &mut parameter")?;
            muts.push(id);
            fx.vars[id].prov = Prov::No;
            if let Ty::List(_) = p.ty {
                let is_iter = match a {
                    syn::FnArg::Typed(t) => !matches!(&*t.ty, syn::Type::Reference(_)),
                    _ => false,
                };
                if is_iter {
                    fx.vars[id].prov = Prov::Mut(Place { root: id, segs: vec![], ty: p.ty.clone() });
                }
            }
        }
    }
    fx.env.push(HashMap::new());
    fx.retk.push(RetK::Fn(muts));
    let blk = fx.def.block.clone();
    let out = fx.seq(&blk.stmts, 0, None)?;
    let code = match out {
        Out::Ret(c) => c,
        Out::V(x) => fx.result_code(&x)?,
    };
    let items = std::mem::take(&mut fx.items);
    Ok((names, wrap(&items, code)))
}

fn const_code(kr: &Crate, n: &str) -> R<String> {
    let (file, c) = kr.consts.get(n).ok_or("const")?;
    let def = FnDef {
        name: n.into(),
        rust_name: n.into(),
        file: file.clone(),
        sig: syn::parse_quote!(fn c()),
        block: syn::parse_quote!({}),
        impl_generics: None,
        self_ty: None,
        trait_name: None,
        lines: (0, 0),
        in_macro: false,
    };
    let ty = ty_of(kr, &c.ty, &HashMap::new(), &None, &mut None)?;
    let mut fx = Fx {
        kr,
        def: &def,
        abs: false,
        powi: 0,
        checked: false,
        tys: Types::default(),
        gm: HashMap::new(),
        self_ty: None,
        vars: vec![],
        env: vec![HashMap::new()],
        items: vec![],
        cnt: 0,
        retk: vec![RetK::Fn(vec![])],
        ret_ty: ty.clone(),
        deps: BTreeSet::new(),
        cdeps: BTreeSet::new(),
        adts: BTreeSet::new(),
        last_pass: true,
        lean_name: n.into(),
        recursive: false,
    };
    let x = fx.expr_as(&c.expr, &ty)?;
    if !fx.items.is_empty() {
        return Err("constant with effects".into());
    }
    let t = fx.term(&x);
    Ok(format!("noncomputable def {n} : {} := {t}\n", lean_ty(&ty, false)))
}

fn adt_code(kr: &Crate, n: &str) -> R<(String, BTreeSet<String>)> {
    let mut deps = BTreeSet::new();
    let gens = |g: &syn::Generics| -> (HashMap<String, Ty>, Vec<String>) {
        let mut gm = HashMap::new();
        let mut v = vec![];
        for p in &g.params {
            if let syn::GenericParam::Type(t) = p {
                gm.insert(t.ident.to_string(), Ty::Gen(t.ident.to_string()));
                v.push(t.ident.to_string());
            }
        }
        (gm, v)
    };
    if let Some((_, s)) = kr.structs.get(n) {
        let (gm, gs) = gens(&s.generics);
        let mut o = format!("@[ext] structure {n}");
        for g in &gs {
            o.push_str(&format!(" ({g} : Type)"));
        }
        o.push_str(" where\n");
        for f in &s.fields {
            let t = ty_of(kr, &f.ty, &gm, &None, &mut None)?;
            note(kr, &t, &mut deps);
            o.push_str(&format!("  {} : {}\n", f.ident.as_ref().ok_or("tuple struct")?, lean_ty(&t, false)));
        }
        return Ok((o, deps));
    }
    if let Some((_, e)) = kr.enums.get(n) {
        let (gm, gs) = gens(&e.generics);
        let mut o = format!("inductive {n}");
        for g in &gs {
            o.push_str(&format!(" ({g} : Type)"));
        }
        o.push_str(" where\n");
        for vr in &e.variants {
            o.push_str(&format!("  | {}", vr.ident));
            for (i, f) in vr.fields.iter().enumerate() {
                let t = ty_of(kr, &f.ty, &gm, &None, &mut None)?;
                note(kr, &t, &mut deps);
                o.push_str(&format!(" (x{i} : {})", lean_ty(&t, false)));
            }
            o.push('\n');
        }
        if gs.is_empty() {
            o.push_str("  deriving DecidableEq\n");
        }
        return Ok((o, deps));
    }
    Err(format!("unknown type {n}"))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        eprintln!("usage: extract <src root> <units.json> <out dir>");
        std::process::exit(2);
    }
    let kr = Crate::load(Path::new(&a[1]));
    let cfg: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
    let out = Path::new(&a[3]);
    std::fs::create_dir_all(out).unwrap();
    let units = cfg["units"].as_array().unwrap();
    // which unit owns which root
    let mut owner: HashMap<String, String> = HashMap::new();
    let mut mode: HashMap<String, (bool, bool)> = HashMap::new();
    for u in units {
        let n = u["name"].as_str().unwrap();
        mode.insert(n.into(), (u["mode"] == "abs", u["checked"] == true));
        for r in u["roots"].as_array().unwrap() {
            owner.insert(r.as_str().unwrap().into(), n.into());
        }
    }
    let mut report = serde_json::Map::new();
    let mut all_adts: BTreeSet<String> = BTreeSet::new();
    let mut files: Vec<(String, String)> = vec![];
    let mut all_consts: BTreeSet<String> = BTreeSet::new();
    let mut failed_all: BTreeMap<String, String> = BTreeMap::new();
    for u in units {
        let uname = u["name"].as_str().unwrap().to_string();
        let (abs, checked) = mode[&uname];
        let roots: Vec<String> = u["roots"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
        let mut done: BTreeMap<String, Done> = BTreeMap::new();
        let mut failed: BTreeMap<String, String> = BTreeMap::new();
        let mut imports: BTreeSet<String> = BTreeSet::new();
        let mut todo: Vec<String> = roots.clone();
        while let Some(n) = todo.pop() {
            if done.contains_key(&n) || failed.contains_key(&n) {
                continue;
            }
            let Some(d) = kr.fns.get(&n) else {
                failed.insert(n, "function not found".into());
                continue;
            };
            match translate(&kr, d, abs, checked) {
                Ok(x) => {
                    for dep in &x.deps {
                        match owner.get(dep) {
                            Some(o) if *o != uname => {
                                imports.insert(o.clone());
                            }
                            _ => todo.push(dep.clone()),
                        }
                    }
                    done.insert(n, x);
                }
                Err(e) => {
                    failed.insert(n, e);
                }
            }
        }
        // propagate failures
        loop {
            let mut more = vec![];
            for (n, d) in &done {
                if failed.contains_key(n) {
                    continue;
                }
                for dep in &d.deps {
                    if let Some(e) = failed.get(dep).or_else(|| failed_all.get(dep)) {
                        more.push((n.clone(), format!("needs {dep}: {e}")));
                        break;
                    }
                }
                let mut bad = None;
                for c in &d.cdeps {
                    if let Err(e) = const_code(&kr, c) {
                        bad = Some(format!("constant {c}: {e}"));
                    }
                }
                for c in &d.adts {
                    if let Err(e) = adt_code(&kr, c) {
                        bad = Some(format!("type {c}: {e}"));
                    }
                }
                if let Some(b) = bad {
                    more.push((n.clone(), b));
                }
            }
            if more.is_empty() {
                break;
            }
            for (n, e) in more {
                failed.insert(n, e);
            }
        }
        // order
        let mut order: Vec<String> = vec![];
        fn visit(n: &str, done: &BTreeMap<String, Done>, failed: &BTreeMap<String, String>, order: &mut Vec<String>, st: &mut Vec<String>) {
            if order.iter().any(|x| x == n) || st.iter().any(|x| x == n) || failed.contains_key(n) {
                return;
            }
            let Some(d) = done.get(n) else { return };
            st.push(n.into());
            for x in &d.deps {
                visit(x, done, failed, order, st);
            }
            st.pop();
            order.push(n.into());
        }
        for r in &roots {
            visit(r, &done, &failed, &mut order, &mut vec![]);
        }
        let mut o = String::from("-- GENERATED by /verif/extract from /repo; do not edit\nimport RsPrelude\nimport Gen.Types\nimport Gen.Consts\n");
        for i in &imports {
            o.push_str(&format!("import Gen.{i}\n"));
        }
        o.push_str("set_option linter.all false\nset_option maxRecDepth 4000\nopen Classical\nnamespace Gen\n");
        for n in &order {
            let d = &done[n];
            let def = &kr.fns[n];
            o.push_str(&format!("\n-- {}:{}-{}\n", def.file, def.lines.0, def.lines.1));
            if !roots.contains(n) && !d.recursive {
                o.push_str("@[rs_inline] ");
            }
            o.push_str(&d.code);
            all_adts.extend(d.adts.iter().cloned());
            all_consts.extend(d.cdeps.iter().cloned());
        }
        o.push_str("\nend Gen\n");
        files.push((uname.clone(), o));
        let mut fr = serde_json::Map::new();
        for n in order.iter().chain(failed.keys()) {
            let def = kr.fns.get(n);
            let root = roots.contains(n);
            let st = match failed.get(n) {
                Some(e) => json!({"status":"unsupported","reason":e}),
                None => json!({"status":"ok","sig":done[n].sig,"deps":done[n].deps,"consts":done[n].cdeps,"lines_lean":done[n].code.lines().count()}),
            };
            let mut m = st.as_object().unwrap().clone();
            m.insert("root".into(), json!(root));
            if let Some(d) = def {
                m.insert("file".into(), json!(d.file));
                m.insert("lines".into(), json!([d.lines.0, d.lines.1]));
            }
            fr.insert(n.clone(), Value::Object(m));
        }
        for (n, e) in &failed {
            failed_all.insert(n.clone(), e.clone());
        }
        report.insert(uname, json!({"functions": fr, "imports": imports, "abs": abs, "checked": checked}));
    }
    // types, in dependency order
    let mut tcode = String::from("-- GENERATED by /verif/extract from /repo; do not edit\nimport RsPrelude\nset_option linter.all false\nnamespace Gen\n");
    let mut emitted: BTreeSet<String> = BTreeSet::new();
    fn emit(kr: &Crate, n: &str, em: &mut BTreeSet<String>, out: &mut String) {
        if em.contains(n) {
            return;
        }
        em.insert(n.into());
        if let Ok((c, deps)) = adt_code(kr, n) {
            for d in deps {
                emit(kr, &d, em, out);
            }
            out.push_str(&c);
            out.push('\n');
        }
    }
    for n in &all_adts {
        emit(&kr, n, &mut emitted, &mut tcode);
    }
    tcode.push_str("end Gen\n");
    files.push(("Types".into(), tcode));
    let mut ccode = String::from("-- GENERATED by /verif/extract from /repo; do not edit\nimport RsPrelude\nset_option linter.all false\nset_option maxRecDepth 4000\nnamespace Gen\n");
    for n in &all_consts {
        if let Ok(c) = const_code(&kr, n) {
            ccode.push_str(&c);
        }
    }
    ccode.push_str("end Gen\n");
    files.push(("Consts".into(), ccode));
    for (n, c) in files {
        let p = out.join(format!("{n}.lean"));
        if std::fs::read_to_string(&p).map(|o| o != c).unwrap_or(true) {
            std::fs::write(p, c).unwrap();
        }
    }
    let rep = json!({"units": report, "errors": kr.errors});
    std::fs::write(out.join("report.json"), serde_json::to_string_pretty(&rep).unwrap()).unwrap();
}

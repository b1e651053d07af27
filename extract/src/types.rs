use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Var(usize),
    Nat,
    Z,
    PInt(String),
    F,
    Cx,
    Bool,
    Unit,
    Str,
    List(Box<Ty>),
    Arr(Box<Ty>, usize),
    Tup(Vec<Ty>),
    Opt(Box<Ty>),
    Adt(String, Vec<Ty>),
    Mat(Box<Ty>),
    Fun(Vec<Ty>, Box<Ty>),
    Chunks(Box<Ty>),
    Ord,
    Fft,
    Planner,
    /// result of the external least-squares solver (its `.solution.data` is a list)
    Lstsq(Box<Ty>),
    /// generic parameter of a struct/enum declaration
    Gen(String),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Any,
    Int,
    Float,
}

#[derive(Default, Clone)]
pub struct Types {
    pub bind: Vec<Option<Ty>>,
    pub kind: Vec<Option<Kind>>,
    pub known: HashMap<String, Ty>,
    pub used: HashMap<String, Ty>,
}

impl Types {
    pub fn fresh(&mut self, kind: Kind) -> Ty {
        self.bind.push(None);
        self.kind.push(Some(kind));
        Ty::Var(self.bind.len() - 1)
    }
    /// a type variable keyed by a source position: resolved in the next pass by what this pass found
    pub fn keyed(&mut self, key: String, kind: Kind) -> Ty {
        if let Some(t) = self.known.get(&key) {
            let t = t.clone();
            return t;
        }
        let v = self.fresh(kind);
        self.used.insert(key, v.clone());
        v
    }
    pub fn shallow(&self, t: &Ty) -> Ty {
        let mut t = t.clone();
        while let Ty::Var(v) = t {
            match &self.bind[v] {
                Some(u) => t = u.clone(),
                None => return Ty::Var(v),
            }
        }
        t
    }
    pub fn deep(&self, t: &Ty) -> Ty {
        let t = self.shallow(t);
        match t {
            Ty::List(a) => Ty::List(Box::new(self.deep(&a))),
            Ty::Arr(a, n) => Ty::Arr(Box::new(self.deep(&a)), n),
            Ty::Opt(a) => Ty::Opt(Box::new(self.deep(&a))),
            Ty::Mat(a) => Ty::Mat(Box::new(self.deep(&a))),
            Ty::Chunks(a) => Ty::Chunks(Box::new(self.deep(&a))),
            Ty::Lstsq(a) => Ty::Lstsq(Box::new(self.deep(&a))),
            Ty::Tup(v) => Ty::Tup(v.iter().map(|x| self.deep(x)).collect()),
            Ty::Adt(n, v) => Ty::Adt(n, v.iter().map(|x| self.deep(x)).collect()),
            Ty::Fun(v, r) => Ty::Fun(v.iter().map(|x| self.deep(x)).collect(), Box::new(self.deep(&r))),
            Ty::PInt(s) => Ty::PInt(s),
            t => t,
        }
    }
    pub fn has_var(t: &Ty) -> bool {
        match t {
            Ty::Var(_) => true,
            Ty::List(a) | Ty::Arr(a, _) | Ty::Opt(a) | Ty::Mat(a) | Ty::Chunks(a) | Ty::Lstsq(a) => Self::has_var(a),
            Ty::Tup(v) | Ty::Adt(_, v) => v.iter().any(Self::has_var),
            Ty::Fun(v, r) => v.iter().any(Self::has_var) || Self::has_var(r),
            _ => false,
        }
    }
    pub fn unify(&mut self, a: &Ty, b: &Ty) -> Result<(), String> {
        let a = self.shallow(a);
        let b = self.shallow(b);
        match (&a, &b) {
            (Ty::Var(x), Ty::Var(y)) => {
                if x != y {
                    let (kx, ky) = (self.kind[*x].unwrap(), self.kind[*y].unwrap());
                    if kx == Kind::Any {
                        self.bind[*x] = Some(b.clone());
                    } else if ky == Kind::Any || kx == ky {
                        self.bind[*y] = Some(a.clone());
                    } else {
                        return Err("int/float literal mismatch".into());
                    }
                }
                Ok(())
            }
            (Ty::Var(x), t) | (t, Ty::Var(x)) => {
                self.bind[*x] = Some(t.clone());
                Ok(())
            }
            (Ty::List(x), Ty::List(y))
            | (Ty::Opt(x), Ty::Opt(y))
            | (Ty::Mat(x), Ty::Mat(y))
            | (Ty::Lstsq(x), Ty::Lstsq(y))
            | (Ty::Chunks(x), Ty::Chunks(y)) => self.unify(x, y),
            (Ty::Arr(x, n), Ty::Arr(y, m)) if n == m => self.unify(x, y),
            (Ty::Arr(x, _), Ty::List(y)) | (Ty::List(x), Ty::Arr(y, _)) => self.unify(x, y),
            (Ty::Tup(x), Ty::Tup(y)) if x.len() == y.len() => {
                for (p, q) in x.iter().zip(y) {
                    self.unify(p, q)?;
                }
                Ok(())
            }
            (Ty::Adt(n, x), Ty::Adt(m, y)) if n == m => {
                for (p, q) in x.iter().zip(y) {
                    self.unify(p, q)?;
                }
                Ok(())
            }
            (Ty::Fun(x, r), Ty::Fun(y, s)) if x.len() == y.len() => {
                for (p, q) in x.iter().zip(y) {
                    self.unify(p, q)?;
                }
                self.unify(r, s)
            }
            (x, y) if x == y => Ok(()),
            (Ty::PInt(_), Ty::Z) | (Ty::Z, Ty::PInt(_)) => Ok(()),
            (x, y) => Err(format!("type mismatch {:?} vs {:?}", x, y)),
        }
    }
}

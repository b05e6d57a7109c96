//! Harness domains: real `SynthLanguage` instances whose semantics is fully
//! known to the oracles.
use crate::term::*;
use egg::{FromOp, Language};
use ruler::enumo::Ruleset;
use ruler::*;
use std::collections::BTreeMap;
use std::fmt;
use std::sync::atomic::{AtomicBool, AtomicU8, AtomicUsize, Ordering};
use std::sync::Mutex;

/// Operator name, at most 24 bytes, ordered lexicographically (so that nothing
/// depends on symbol interning order).
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Op([u8; 24]);
impl Op {
    pub fn new(s: &str) -> Option<Op> {
        let b = s.as_bytes();
        if b.len() > 24 || b.is_empty() {
            return None;
        }
        let mut x = [0; 24];
        x[..b.len()].copy_from_slice(b);
        Some(Op(x))
    }
    pub fn str(&self) -> &str {
        let n = self.0.iter().position(|c| *c == 0).unwrap_or(24);
        std::str::from_utf8(&self.0[..n]).unwrap()
    }
}
impl fmt::Debug for Op {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.str())
    }
}

/// `D` selects the semantics: FREE, FIN or IVL.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Node<const D: u8> {
    pub op: Op,
    pub kids: Vec<Id>,
}

pub const FREE: u8 = 0;
pub const FIN: u8 = 1;
pub const IVL: u8 = 2;
/// Uninterpreted operators; no characteristic vectors.
pub type Free = Node<FREE>;
/// Values {0,1} and undefined; operator names spell out their tables.
pub type Fin = Node<FIN>;
/// Leaves spell out their interval and characteristic vector.
pub type Ivl = Node<IVL>;

impl<const D: u8> Language for Node<D> {
    fn matches(&self, other: &Self) -> bool {
        self.op == other.op && self.kids.len() == other.kids.len()
    }
    fn children(&self) -> &[Id] {
        &self.kids
    }
    fn children_mut(&mut self) -> &mut [Id] {
        &mut self.kids
    }
}
impl<const D: u8> fmt::Display for Node<D> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.op.str())
    }
}
#[derive(Debug)]
pub struct BadOp(String);
impl fmt::Display for BadOp {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "bad op {}", self.0)
    }
}
impl std::error::Error for BadOp {}
impl<const D: u8> FromOp for Node<D> {
    type Error = BadOp;
    fn from_op(op: &str, children: Vec<Id>) -> Result<Self, BadOp> {
        // placeholders of grammars are no operators of any language
        let holes = ["EXPR", "VAR", "VAL", "OP1", "OP2", "OP3", "OP4"];
        if D == FIN && holes.contains(&op) {
            return Err(BadOp(op.to_string()));
        }
        Ok(Node {
            op: Op::new(op).ok_or_else(|| BadOp(op.to_string()))?,
            kids: children,
        })
    }
}

/// Variables are leaves whose name starts with a lower-case letter.
pub fn is_var_name(s: &str) -> bool {
    s.as_bytes()[0].is_ascii_lowercase()
}

// ---------------------------------------------------------------- settings

/// 0: variables range over {0,1}; 1: over {0,1,undefined}
pub static FIN_RANGE: AtomicU8 = AtomicU8::new(0);
/// 0 or 1: the validator judges the total functions in which every undefined
/// entry has this value; 255: it judges the partial functions
pub static FIN_COMPLETION: AtomicU8 = AtomicU8::new(255);
/// Log every call of `validate`.
pub static LOG_VALIDATE: AtomicBool = AtomicBool::new(false);
pub static VALIDATE_LOG: Mutex<Vec<(String, String)>> = Mutex::new(vec![]);
/// Verdicts by rule text (alpha-normalised), overriding the semantics.
pub static VERDICTS: Mutex<BTreeMap<String, u8>> = Mutex::new(BTreeMap::new());
/// Default verdict of FREE: 0 valid, 1 invalid, 2 unknown
pub static FREE_DEFAULT: AtomicU8 = AtomicU8::new(0);
pub static EXPLORATORY: Mutex<Vec<String>> = Mutex::new(vec![]);
/// Called on entry of validate (used to control schedules).
pub static VALIDATE_HOOK: Mutex<Option<fn(&str)>> = Mutex::new(None);
/// Called for every variable node the library constructs.
pub static MKVAR_ON: AtomicBool = AtomicBool::new(false);
pub static MKVAR_HOOK: Mutex<Option<fn(&str)>> = Mutex::new(None);
pub static VALIDATE_CALLS: AtomicUsize = AtomicUsize::new(0);

pub fn verdict(v: u8) -> ValidationResult {
    match v {
        0 => ValidationResult::Valid,
        1 => ValidationResult::Invalid,
        _ => ValidationResult::Unknown,
    }
}

// ------------------------------------------------------------- FIN semantics

fn tab(c: u8) -> Option<u8> {
    match c {
        b'0' => Some(0),
        b'1' => Some(1),
        _ => None,
    }
}

/// Apply an operator of FIN: `u` + 2, `b` + 4, `t` + 8 table entries
/// (row-major, first argument most significant); anything else is undefined.
pub fn fin_apply(op: &str, args: &[Option<u8>]) -> Option<u8> {
    let b = op.as_bytes();
    // an allowed-op marker in front does not change the semantics
    let b = if b[0] == b'_' { &b[1..] } else { b };
    if args.is_empty() {
        return if b.len() == 1 { tab(b[0]) } else { None };
    }
    let mut i = 0usize;
    for x in args {
        i = i * 2 + (*x)? as usize;
    }
    let n = 1usize << args.len();
    if b.len() < n + 1 {
        return None;
    }
    tab(b[1 + i])
}

/// Direct evaluation of a ground-or-variable FIN term.
pub fn fin_eval(t: &S, env: &BTreeMap<String, Option<u8>>) -> Option<u8> {
    let (op, kids) = t.op();
    if kids.is_empty() {
        if let Some(v) = env.get(op) {
            return *v;
        }
        return fin_apply(op, &[]);
    }
    let args: Vec<Option<u8>> = kids.iter().map(|k| fin_eval(k, env)).collect();
    fin_apply(op, &args)
}

pub fn term_vars(t: &S) -> Vec<String> {
    let mut v = vec![];
    fn go(t: &S, v: &mut Vec<String>) {
        let (op, kids) = t.op();
        if kids.is_empty() && is_var_name(op) && !v.contains(&op.to_string()) {
            v.push(op.to_string());
        }
        for k in kids {
            go(k, v);
        }
    }
    go(t, &mut v);
    v
}

/// All assignments of `dom` values to `vars`.
pub fn assignments(vars: &[String], dom: &[Option<u8>]) -> Vec<BTreeMap<String, Option<u8>>> {
    let mut out = vec![BTreeMap::new()];
    for v in vars {
        let mut next = vec![];
        for m in &out {
            for d in dom {
                let mut m2 = m.clone();
                m2.insert(v.clone(), *d);
                next.push(m2);
            }
        }
        out = next;
    }
    out
}

/// Exhaustive semantic comparison over {0,1}: the two sides are the same
/// partial function.
pub fn fin_equiv(l: &S, r: &S) -> bool {
    let mut vars = term_vars(l);
    for v in term_vars(r) {
        if !vars.contains(&v) {
            vars.push(v);
        }
    }
    assignments(&vars, &[Some(0), Some(1)])
        .iter()
        .all(|e| fin_eval(l, e) == fin_eval(r, e))
}

/// Evaluation in the total functions in which undefined entries have value c.
pub fn fin_eval_total(t: &S, env: &BTreeMap<String, Option<u8>>, c: u8) -> Option<u8> {
    let (op, kids) = t.op();
    if kids.is_empty() {
        if let Some(v) = env.get(op) {
            return *v;
        }
        return fin_apply(op, &[]).or(Some(c));
    }
    let args: Vec<Option<u8>> = kids.iter().map(|k| fin_eval_total(k, env, c)).collect();
    fin_apply(op, &args).or(Some(c))
}

pub fn fin_equiv_total(l: &S, r: &S, c: u8) -> bool {
    let mut vars = term_vars(l);
    for v in term_vars(r) {
        if !vars.contains(&v) {
            vars.push(v);
        }
    }
    assignments(&vars, &[Some(0), Some(1)])
        .iter()
        .all(|e| fin_eval_total(l, e, c) == fin_eval_total(r, e, c))
}

/// The two sides never disagree where both are defined.
pub fn fin_compat(l: &S, r: &S) -> bool {
    let mut vars = term_vars(l);
    for v in term_vars(r) {
        if !vars.contains(&v) {
            vars.push(v);
        }
    }
    assignments(&vars, &[Some(0), Some(1)]).iter().all(|e| {
        match (fin_eval(l, e), fin_eval(r, e)) {
            (Some(x), Some(y)) => x == y,
            _ => true,
        }
    })
}

pub fn mentions(t: &S, name: &str) -> bool {
    let mut found = false;
    t.walk(&mut |x| found |= matches!(x, S::A(y) if y == name));
    found
}

// ------------------------------------------------------------- IVL leaves
// Name: "I<lo><hi><cvec...>" with '.' = unbounded / undefined, digits otherwise,
// e.g. "I.302." : interval (-inf,3], cvec [0,2,_]
pub fn ivl_leaf(op: &str) -> Option<(Option<u8>, Option<u8>, Vec<Option<u8>>)> {
    let b = op.as_bytes();
    if b[0] != b'I' || b.len() < 3 {
        return None;
    }
    let d = |c: u8| if c.is_ascii_digit() { Some(c - b'0') } else { None };
    Some((d(b[1]), d(b[2]), b[3..].iter().map(|c| d(*c)).collect()))
}

impl<const D: u8> SynthLanguage for Node<D> {
    type Constant = u8;

    fn eval<'a, F>(&'a self, cvec_len: usize, mut get_cvec: F) -> CVec<Self>
    where
        F: FnMut(&'a Id) -> &'a CVec<Self>,
    {
        let op = self.op.str();
        match D {
            FIN => {
                if self.kids.is_empty() {
                    if is_var_name(op) {
                        vec![]
                    } else {
                        vec![fin_apply(op, &[]); cvec_len]
                    }
                } else {
                    let cs: Vec<&CVec<Self>> = self.kids.iter().map(|k| get_cvec(k)).collect();
                    let n = cs.iter().map(|c| c.len()).min().unwrap();
                    (0..n)
                        .map(|i| {
                            let args: Vec<Option<u8>> = cs.iter().map(|c| c[i]).collect();
                            fin_apply(op, &args)
                        })
                        .collect()
                }
            }
            IVL => {
                if let Some((_, _, cv)) = ivl_leaf(op) {
                    cv
                } else if op.as_bytes()[0].is_ascii_digit() && self.kids.is_empty() {
                    // plain literal: constrained only where a leaf is
                    vec![Some(op.as_bytes()[0] - b'0'); cvec_len]
                } else if self.kids.len() == 1 && op == "inc" {
                    get_cvec(&self.kids[0]).iter().map(|x| x.map(|v| v + 1)).collect()
                } else if self.kids.len() == 2 && op == "max" {
                    get_cvec(&self.kids[0])
                        .iter()
                        .zip(get_cvec(&self.kids[1]))
                        .map(|(x, y)| match (x, y) {
                            (Some(a), Some(b)) => Some(*a.max(b)),
                            _ => None,
                        })
                        .collect()
                } else {
                    vec![None; cvec_len]
                }
            }
            _ => vec![],
        }
    }

    fn mk_interval<'a, F>(&'a self, mut get_interval: F) -> Interval<Self::Constant>
    where
        F: FnMut(&'a Id) -> &'a Interval<Self::Constant>,
    {
        let op = self.op.str();
        match D {
            FIN => {
                if self.kids.is_empty() && (op == "0" || op == "1") {
                    let v = op.as_bytes()[0] - b'0';
                    Interval::new(Some(v), Some(v))
                } else {
                    Interval::default()
                }
            }
            IVL => {
                if let Some((lo, hi, _)) = ivl_leaf(op) {
                    Interval::new(lo, hi)
                } else if op.as_bytes()[0].is_ascii_digit() && self.kids.is_empty() {
                    let v = op.as_bytes()[0] - b'0';
                    Interval::new(Some(v), Some(v))
                } else if self.kids.len() == 1 && op == "inc" {
                    let i = get_interval(&self.kids[0]);
                    Interval::new(i.low.map(|x| x + 1), i.high.map(|x| x + 1))
                } else if self.kids.len() == 2 && op == "max" {
                    let (x, y) = (
                        get_interval(&self.kids[0]).clone(),
                        get_interval(&self.kids[1]).clone(),
                    );
                    let lo = match (x.low, y.low) {
                        (None, z) | (z, None) => z,
                        (Some(a), Some(b)) => Some(a.max(b)),
                    };
                    let hi = match (x.high, y.high) {
                        (Some(a), Some(b)) => Some(a.max(b)),
                        _ => None,
                    };
                    Interval::new(lo, hi)
                } else {
                    Interval::default()
                }
            }
            _ => Interval::default(),
        }
    }

    fn initialize_vars(egraph: &mut EGraph<Self, SynthAnalysis>, vars: &[String]) {
        let consts: Vec<Option<u8>> = if FIN_RANGE.load(Ordering::Relaxed) == 0 {
            vec![Some(0), Some(1)]
        } else {
            vec![Some(0), Some(1), None]
        };
        if D == FIN {
            egraph.analysis.cvec_len = consts.len().pow(vars.len() as u32);
            let cvecs = self_product(&consts, vars.len());
            for (i, v) in vars.iter().enumerate() {
                let id = egraph.add(Self::mk_var(Symbol::from(v)));
                egraph[id].data.cvec = cvecs[i].clone();
            }
        } else {
            for v in vars {
                egraph.add(Self::mk_var(Symbol::from(v)));
            }
        }
    }

    fn to_var(&self) -> Option<Symbol> {
        if self.kids.is_empty() && is_var_name(self.op.str()) {
            Some(Symbol::from(self.op.str()))
        } else {
            None
        }
    }

    fn mk_var(sym: Symbol) -> Self {
        if MKVAR_ON.load(Ordering::Relaxed) {
            let h = *MKVAR_HOOK.lock().unwrap();
            if let Some(h) = h {
                h(sym.as_str());
            }
        }
        Node {
            op: Op::new(sym.as_str()).unwrap(),
            kids: vec![],
        }
    }

    fn is_constant(&self) -> bool {
        self.kids.is_empty() && self.op.0[0].is_ascii_digit()
    }

    fn mk_constant(c: Self::Constant, _egraph: &mut EGraph<Self, SynthAnalysis>) -> Self {
        Node {
            op: Op::new(&c.to_string()).unwrap(),
            kids: vec![],
        }
    }

    fn get_exploratory_rules() -> Ruleset<Self> {
        Ruleset::new(EXPLORATORY.lock().unwrap().iter())
    }

    fn is_allowed_op(&self) -> bool {
        self.op.0[0] != b'_'
    }

    fn validate(lhs: &Pattern<Self>, rhs: &Pattern<Self>) -> ValidationResult {
        let (l, r) = (lhs.to_string(), rhs.to_string());
        VALIDATE_CALLS.fetch_add(1, Ordering::SeqCst);
        let hook = *VALIDATE_HOOK.lock().unwrap();
        if let Some(h) = hook {
            h(&format!("{} ==> {}", l, r));
        }
        if LOG_VALIDATE.load(Ordering::Relaxed) {
            VALIDATE_LOG.lock().unwrap().push((l.clone(), r.clone()));
        }
        {
            let v = VERDICTS.lock().unwrap();
            if !v.is_empty() {
                if let Some(x) = v.get(&R::new(S::p(&l), S::p(&r)).alpha().to_string()) {
                    return verdict(*x);
                }
            }
        }
        if D == FIN {
            let (l, r) = (S::p(&l).ground(), S::p(&r).ground());
            if mentions(&l, "UNK") || mentions(&r, "UNK") {
                return ValidationResult::Unknown;
            }
            let c = FIN_COMPLETION.load(Ordering::Relaxed);
            if if c == 255 { fin_equiv(&l, &r) } else { fin_equiv_total(&l, &r, c) } {
                ValidationResult::Valid
            } else {
                ValidationResult::Invalid
            }
        } else {
            verdict(FREE_DEFAULT.load(Ordering::Relaxed))
        }
    }
}

/// Rule of the code under test -> oracle rule.
pub fn rule_of<L: SynthLanguage>(r: &ruler::enumo::Rule<L>) -> R {
    R::new(S::p(&r.lhs.to_string()), S::p(&r.rhs.to_string()))
}
pub fn rules_of<L: SynthLanguage>(rs: &Ruleset<L>) -> Vec<R> {
    rs.iter().map(rule_of).collect()
}
/// Oracle rules -> ruleset (unbound right-hand sides must not occur).
pub fn to_ruleset<L: SynthLanguage>(rs: &[R]) -> Ruleset<L> {
    let mut out = Ruleset::default();
    for r in rs {
        let l: Pattern<L> = r.l.to_string().parse().unwrap();
        let rr: Pattern<L> = r.r.to_string().parse().unwrap();
        if let Some(x) = ruler::enumo::Rule::new(&l, &rr) {
            out.add(x);
        } else {
            panic!("unbound rule {}", r);
        }
    }
    out
}
pub fn sexp_of(s: &ruler::enumo::Sexp) -> S {
    match s {
        ruler::enumo::Sexp::Atom(x) => S::A(x.clone()),
        ruler::enumo::Sexp::List(xs) => S::L(xs.iter().map(sexp_of).collect()),
    }
}
pub fn to_sexp(s: &S) -> ruler::enumo::Sexp {
    match s {
        S::A(x) => ruler::enumo::Sexp::Atom(x.clone()),
        S::L(xs) => ruler::enumo::Sexp::List(xs.iter().map(to_sexp).collect()),
    }
}

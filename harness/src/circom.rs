//! An interpreter for the subset of circom that zk-regex emits and ships.
//!
//! A template instance is *elaborated* once per size into a flat list of constraints over numbered
//! signals (what `circom` does when it unrolls loops and components), and the flat list is then
//! evaluated for each input.  The semantics of the circomlib primitives (not part of this repository)
//! are built in; the helpers in regex_helpers.circom are read from the repository.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use std::rc::Rc;

type R<T> = Result<T, String>;

// ---------------------------------------------------------------- lexer
#[derive(Debug, Clone, PartialEq)]
enum Tok {
    Id(String),
    Num(i128),
    Str(String),
    Op(&'static str),
    Eof,
}

const OPS: &[&str] = &[
    "<==", "==>", "<--", "-->", "===", "<<=", ">>=", "**", "&&", "||", "==", "!=", "<=", ">=", "<<",
    ">>", "++", "--", "+=", "-=", "*=", "/=", "\\=", "%=", "&=", "|=", "^=", "(", ")", "[", "]", "{",
    "}", ";", ",", ".", "=", "<", ">", "+", "-", "*", "/", "\\", "%", "!", "&", "|", "^", "~", "?", ":",
];

fn lex(src: &str) -> R<Vec<Tok>> {
    let b = src.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    'outer: while i < b.len() {
        let c = b[i];
        if c.is_ascii_whitespace() {
            i += 1;
            continue;
        }
        if b[i..].starts_with(b"//") {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            continue;
        }
        if b[i..].starts_with(b"/*") {
            let mut j = i + 2;
            while j + 1 < b.len() && &b[j..j + 2] != b"*/" {
                j += 1;
            }
            if j + 1 >= b.len() {
                return Err("unterminated comment".into());
            }
            i = j + 2;
            continue;
        }
        if c.is_ascii_alphabetic() || c == b'_' || c == b'$' {
            let s = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'$') {
                i += 1;
            }
            out.push(Tok::Id(src[s..i].to_string()));
            continue;
        }
        if c.is_ascii_digit() {
            let s = i;
            if b[i..].starts_with(b"0x") {
                i += 2;
                while i < b.len() && b[i].is_ascii_hexdigit() {
                    i += 1;
                }
                out.push(Tok::Num(
                    i128::from_str_radix(&src[s + 2..i], 16).map_err(|e| e.to_string())?,
                ));
            } else {
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
                out.push(Tok::Num(src[s..i].parse().map_err(|_| "bad number".to_string())?));
            }
            continue;
        }
        if c == b'"' {
            let s = i + 1;
            i += 1;
            while i < b.len() && b[i] != b'"' {
                i += 1;
            }
            out.push(Tok::Str(src[s..i].to_string()));
            i += 1;
            continue;
        }
        for op in OPS {
            if b[i..].starts_with(op.as_bytes()) {
                out.push(Tok::Op(op));
                i += op.len();
                continue 'outer;
            }
        }
        return Err(format!("unexpected character {:?} at byte {}", c as char, i));
    }
    out.push(Tok::Eof);
    Ok(out)
}

// ---------------------------------------------------------------- AST
#[derive(Debug, Clone)]
enum Ex {
    Num(i128),
    /// name with accessors
    Ref(String, Vec<Acc>),
    Un(&'static str, Box<Ex>),
    Bin(&'static str, Box<Ex>, Box<Ex>),
    Tern(Box<Ex>, Box<Ex>, Box<Ex>),
    Arr(Vec<Ex>),
    /// T(args) used to instantiate, or function call
    Call(String, Vec<Ex>),
    /// T(args)(inputs), with optional input names
    Anon(String, Vec<Ex>, Vec<(Option<String>, Ex)>),
    Tuple(Vec<Ex>),
    Underscore,
}
#[derive(Debug, Clone)]
enum Acc {
    Idx(Ex),
    Mem(String),
}
#[derive(Debug, Clone, PartialEq)]
enum Kind {
    Input,
    Output,
    Inter,
    Var,
    Comp,
}
#[derive(Debug, Clone)]
enum St {
    Decl(Kind, String, Vec<Ex>, Option<(&'static str, Ex)>),
    Assign(&'static str, Ex, Ex),
    If(Ex, Vec<St>, Vec<St>),
    While(Ex, Vec<St>),
    Block(Vec<St>),
    Assert(Ex),
    Return(Ex),
    Nop,
}
#[derive(Debug, Clone)]
struct Template {
    params: Vec<String>,
    body: Rc<Vec<St>>,
    is_fn: bool,
}

struct P {
    t: Vec<Tok>,
    i: usize,
}
impl P {
    fn peek(&self) -> &Tok {
        &self.t[self.i]
    }
    fn next(&mut self) -> Tok {
        let t = self.t[self.i].clone();
        if self.i + 1 < self.t.len() {
            self.i += 1;
        }
        t
    }
    fn is(&self, op: &str) -> bool {
        matches!(self.peek(), Tok::Op(o) if *o == op)
    }
    fn eat(&mut self, op: &str) -> bool {
        if self.is(op) {
            self.next();
            true
        } else {
            false
        }
    }
    fn need(&mut self, op: &str) -> R<()> {
        if self.eat(op) {
            Ok(())
        } else {
            Err(format!("expected '{}' but found {:?} (token {})", op, self.peek(), self.i))
        }
    }
    fn id(&mut self) -> R<String> {
        match self.next() {
            Tok::Id(s) => Ok(s),
            t => Err(format!("expected identifier, found {:?}", t)),
        }
    }
    fn is_kw(&self, k: &str) -> bool {
        matches!(self.peek(), Tok::Id(s) if s == k)
    }
    fn block(&mut self) -> R<Vec<St>> {
        if self.eat("{") {
            let mut v = vec![];
            while !self.is("}") {
                if *self.peek() == Tok::Eof {
                    return Err("unexpected end of file inside a block (missing '}')".into());
                }
                v.extend(self.stmt()?);
            }
            self.need("}")?;
            Ok(v)
        } else {
            self.stmt()
        }
    }
    fn stmt(&mut self) -> R<Vec<St>> {
        if self.is("{") {
            return Ok(vec![St::Block(self.block()?)]);
        }
        if self.eat(";") {
            return Ok(vec![St::Nop]);
        }
        if self.is_kw("if") {
            self.next();
            self.need("(")?;
            let c = self.expr()?;
            self.need(")")?;
            let a = self.block()?;
            let mut b = vec![];
            if self.is_kw("else") {
                self.next();
                b = self.block()?;
            }
            return Ok(vec![St::If(c, a, b)]);
        }
        if self.is_kw("while") {
            self.next();
            self.need("(")?;
            let c = self.expr()?;
            self.need(")")?;
            let a = self.block()?;
            return Ok(vec![St::While(c, a)]);
        }
        if self.is_kw("for") {
            self.next();
            self.need("(")?;
            let mut pre = self.simple()?;
            self.need(";")?;
            let c = self.expr()?;
            self.need(";")?;
            let step = self.simple()?;
            self.need(")")?;
            let mut body = vec![St::Block(self.block()?)];
            body.extend(step);
            pre.push(St::While(c, body));
            return Ok(vec![St::Block(pre)]);
        }
        if self.is_kw("return") {
            self.next();
            let e = self.expr()?;
            self.need(";")?;
            return Ok(vec![St::Return(e)]);
        }
        let s = self.simple()?;
        self.need(";")?;
        Ok(s)
    }
    fn simple(&mut self) -> R<Vec<St>> {
        if self.is_kw("assert") {
            self.next();
            self.need("(")?;
            let e = self.expr()?;
            self.need(")")?;
            return Ok(vec![St::Assert(e)]);
        }
        let kind = if self.is_kw("signal") {
            self.next();
            let k = if self.is_kw("input") {
                self.next();
                Kind::Input
            } else if self.is_kw("output") {
                self.next();
                Kind::Output
            } else {
                Kind::Inter
            };
            if self.eat("{") {
                while !self.eat("}") {
                    self.next();
                }
            }
            Some(k)
        } else if self.is_kw("var") {
            self.next();
            Some(Kind::Var)
        } else if self.is_kw("component") {
            self.next();
            Some(Kind::Comp)
        } else {
            None
        };
        if let Some(k) = kind {
            let mut out = vec![];
            if k != Kind::Comp && self.is("(") {
                // tuple declaration
                self.need("(")?;
                let mut names = vec![];
                loop {
                    names.push(self.id()?);
                    if !self.eat(",") {
                        break;
                    }
                }
                self.need(")")?;
                for n in &names {
                    out.push(St::Decl(k.clone(), n.clone(), vec![], None));
                }
                if let Tok::Op(op @ ("<==" | "<--" | "=")) = self.peek().clone() {
                    self.next();
                    let e = self.expr()?;
                    out.push(St::Assign(
                        op,
                        Ex::Tuple(names.into_iter().map(|n| Ex::Ref(n, vec![])).collect()),
                        e,
                    ));
                }
                return Ok(out);
            }
            loop {
                let name = self.id()?;
                let mut dims = vec![];
                while self.eat("[") {
                    dims.push(self.expr()?);
                    self.need("]")?;
                }
                let mut init = None;
                if let Tok::Op(op @ ("<==" | "<--" | "=")) = self.peek().clone() {
                    self.next();
                    init = Some((op, self.expr()?));
                }
                out.push(St::Decl(k.clone(), name, dims, init));
                if !self.eat(",") {
                    break;
                }
            }
            return Ok(out);
        }
        let l = self.expr()?;
        match self.peek().clone() {
            Tok::Op(op @ ("<==" | "<--" | "=" | "===" | "==>" | "-->" | "+=" | "-=" | "*=" | "/=" | "\\=" | "%=")) => {
                self.next();
                let r = self.expr()?;
                Ok(vec![match op {
                    "==>" => St::Assign("<==", r, l),
                    "-->" => St::Assign("<--", r, l),
                    "+=" => St::Assign("=", l.clone(), Ex::Bin("+", Box::new(l), Box::new(r))),
                    "-=" => St::Assign("=", l.clone(), Ex::Bin("-", Box::new(l), Box::new(r))),
                    "*=" => St::Assign("=", l.clone(), Ex::Bin("*", Box::new(l), Box::new(r))),
                    "/=" | "\\=" => St::Assign("=", l.clone(), Ex::Bin("\\", Box::new(l), Box::new(r))),
                    "%=" => St::Assign("=", l.clone(), Ex::Bin("%", Box::new(l), Box::new(r))),
                    o => St::Assign(o, l, r),
                }])
            }
            Tok::Op(op @ ("++" | "--")) => {
                self.next();
                let o = if op == "++" { "+" } else { "-" };
                Ok(vec![St::Assign(
                    "=",
                    l.clone(),
                    Ex::Bin(o, Box::new(l), Box::new(Ex::Num(1))),
                )])
            }
            _ => Ok(vec![St::Assign("_", Ex::Underscore, l)]),
        }
    }
    fn expr(&mut self) -> R<Ex> {
        let c = self.bin(0)?;
        if self.eat("?") {
            let a = self.expr()?;
            self.need(":")?;
            let b = self.expr()?;
            return Ok(Ex::Tern(Box::new(c), Box::new(a), Box::new(b)));
        }
        Ok(c)
    }
    fn bin(&mut self, level: usize) -> R<Ex> {
        const LEVELS: &[&[&str]] = &[
            &["||"],
            &["&&"],
            &["==", "!=", "<", ">", "<=", ">="],
            &["|"],
            &["^"],
            &["&"],
            &["<<", ">>"],
            &["+", "-"],
            &["*", "/", "\\", "%"],
            &["**"],
        ];
        if level == LEVELS.len() {
            return self.unary();
        }
        let mut l = self.bin(level + 1)?;
        while let Tok::Op(o) = self.peek().clone() {
            if !LEVELS[level].contains(&o) {
                break;
            }
            self.next();
            let r = self.bin(level + 1)?;
            l = Ex::Bin(o, Box::new(l), Box::new(r));
        }
        Ok(l)
    }
    fn unary(&mut self) -> R<Ex> {
        match self.peek().clone() {
            Tok::Op(o @ ("-" | "!" | "~")) => {
                self.next();
                Ok(Ex::Un(o, Box::new(self.unary()?)))
            }
            _ => self.atom(),
        }
    }
    fn args(&mut self, close: &str) -> R<Vec<Ex>> {
        let mut v = vec![];
        if self.eat(close) {
            return Ok(v);
        }
        loop {
            v.push(self.expr()?);
            if !self.eat(",") {
                break;
            }
        }
        self.need(close)?;
        Ok(v)
    }
    fn atom(&mut self) -> R<Ex> {
        match self.next() {
            Tok::Num(n) => Ok(Ex::Num(n)),
            Tok::Op("(") => {
                let v = self.args(")")?;
                if v.len() == 1 {
                    Ok(v.into_iter().next().unwrap())
                } else {
                    Ok(Ex::Tuple(v))
                }
            }
            Tok::Op("[") => Ok(Ex::Arr(self.args("]")?)),
            Tok::Id(s) if s == "_" => Ok(Ex::Underscore),
            Tok::Id(s) => {
                if s == "parallel" {
                    return self.atom();
                }
                if self.eat("(") {
                    let a = self.args(")")?;
                    if self.eat("(") {
                        let mut ins = vec![];
                        if !self.eat(")") {
                            loop {
                                if let (Tok::Id(n), Some(Tok::Op("<=="))) =
                                    (self.peek().clone(), self.t.get(self.i + 1))
                                {
                                    self.next();
                                    self.next();
                                    ins.push((Some(n), self.expr()?));
                                } else {
                                    ins.push((None, self.expr()?));
                                }
                                if !self.eat(",") {
                                    break;
                                }
                            }
                            self.need(")")?;
                        }
                        return Ok(Ex::Anon(s, a, ins));
                    }
                    return Ok(Ex::Call(s, a));
                }
                let mut acc = vec![];
                loop {
                    if self.eat("[") {
                        let e = self.expr()?;
                        self.need("]")?;
                        acc.push(Acc::Idx(e));
                    } else if self.eat(".") {
                        acc.push(Acc::Mem(self.id()?));
                    } else {
                        break;
                    }
                }
                Ok(Ex::Ref(s, acc))
            }
            t => Err(format!("unexpected token {:?} in expression (token {})", t, self.i)),
        }
    }
}

/// A loaded set of templates.
pub struct Program {
    templates: HashMap<String, Template>,
    pub own: Vec<String>,
}

impl Program {
    /// Parses `path` and everything it includes. `circuits_root` is what
    /// "@zk-email/zk-regex-circom/circuits" names.
    pub fn load(path: &Path, circuits_root: &Path) -> R<Program> {
        let mut p = Program { templates: HashMap::new(), own: vec![] };
        let mut seen = vec![];
        p.file(path, circuits_root, &mut seen, true)?;
        Ok(p)
    }
    fn file(&mut self, path: &Path, root: &Path, seen: &mut Vec<PathBuf>, main: bool) -> R<()> {
        let canon = path
            .canonicalize()
            .map_err(|e| format!("include {}: {}", path.display(), e))?;
        if seen.contains(&canon) {
            return Ok(());
        }
        seen.push(canon);
        let src = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
        let toks = lex(&src)?;
        let mut p = P { t: toks, i: 0 };
        loop {
            match p.next() {
                Tok::Eof => break,
                Tok::Id(k) if k == "pragma" => {
                    while !p.is(";") {
                        if *p.peek() == Tok::Eof {
                            return Err("pragma".into());
                        }
                        p.next();
                    }
                    p.need(";")?;
                }
                Tok::Id(k) if k == "include" => {
                    let f = match p.next() {
                        Tok::Str(s) => s,
                        t => return Err(format!("include {:?}", t)),
                    };
                    p.need(";")?;
                    if f.starts_with("circomlib/") {
                        continue;
                    }
                    let target = if let Some(rest) = f.strip_prefix("@zk-email/zk-regex-circom/circuits/") {
                        root.join(rest)
                    } else {
                        path.parent().unwrap().join(&f)
                    };
                    self.file(&target, root, seen, false)?;
                }
                Tok::Id(k) if k == "template" || k == "function" => {
                    let name = p.id()?;
                    p.need("(")?;
                    let mut params = vec![];
                    if !p.eat(")") {
                        loop {
                            params.push(p.id()?);
                            if !p.eat(",") {
                                break;
                            }
                        }
                        p.need(")")?;
                    }
                    if !p.is("{") {
                        return Err("template body".into());
                    }
                    let body = p.block()?;
                    if main {
                        self.own.push(name.clone());
                    }
                    if self
                        .templates
                        .insert(
                            name.clone(),
                            Template { params, body: Rc::new(body), is_fn: k == "function" },
                        )
                        .is_some()
                    {
                        return Err(format!("template {} declared twice", name));
                    }
                }
                t => return Err(format!("unexpected {:?} at top level", t)),
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- flat form
#[derive(Debug, Clone)]
pub enum Node {
    Const(i128),
    Sig(usize),
    Add(Rc<Node>, Rc<Node>),
    Sub(Rc<Node>, Rc<Node>),
    Mul(Rc<Node>, Rc<Node>),
}
fn eval(n: &Node, v: &[i128]) -> i128 {
    match n {
        Node::Const(c) => *c,
        Node::Sig(s) => v[*s],
        Node::Add(a, b) => eval(a, v) + eval(b, v),
        Node::Sub(a, b) => eval(a, v) - eval(b, v),
        Node::Mul(a, b) => eval(a, v) * eval(b, v),
    }
}
pub fn reads(n: &Node, out: &mut Vec<usize>) {
    match n {
        Node::Const(_) => {}
        Node::Sig(s) => {
            if !out.contains(s) {
                out.push(*s)
            }
        }
        Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) => {
            reads(a, out);
            reads(b, out);
        }
    }
}
#[derive(Debug, Clone)]
pub enum Ins {
    /// signal <== expression
    Def(usize, Rc<Node>),
    /// signal <-- expression: the prover is free to choose
    Hint(usize, Rc<Node>),
    /// a === b
    Check(Rc<Node>, Rc<Node>),
    IsZero(usize, usize),
    /// out, a, b, n : LessThan(n)
    Less(usize, usize, usize, u32),
    /// bits, in
    Bits(Vec<usize>, usize),
}
pub struct Flat {
    pub nsig: usize,
    pub ins: Vec<Ins>,
    pub inputs: BTreeMap<String, Vec<usize>>,
    pub outputs: Vec<(String, Vec<usize>)>,
    pub names: Vec<String>,
}
impl Flat {
    /// None: the constraints cannot be satisfied by this input.
    /// The values a prover needs to satisfy the constraints for a message.  A signal that is only computed (<--) has
    /// the value that the first constraint it is in leaves for it, which need not be what the program computes: the
    /// second result says whether some signal differs from that.
    pub fn run(&self, msg: &[i128]) -> R<Option<(Vec<i128>, bool)>> {
        let mut forced: BTreeMap<usize, i128> = BTreeMap::new();
        loop {
            match self.pass(msg, &forced)? {
                Pass::Sat(v) => return Ok(Some((v, !forced.is_empty()))),
                Pass::Unsat => return Ok(None),
                Pass::Force(s, x) => {
                    forced.insert(s, x);
                }
            }
        }
    }
    fn pass(&self, msg: &[i128], forced: &BTreeMap<usize, i128>) -> R<Pass> {
        let mut v = vec![0i128; self.nsig];
        // signals that are only computed, so far
        let mut loose: BTreeSet<usize> = BTreeSet::new();
        let ins = self.inputs.get("msg").ok_or("no input signal msg")?;
        if ins.len() != msg.len() {
            return Err("msg has another length".into());
        }
        for (s, x) in ins.iter().zip(msg) {
            v[*s] = *x;
        }
        for i in &self.ins {
            match i {
                Ins::Def(s, e) => v[*s] = eval(e, &v),
                Ins::Hint(s, e) => {
                    v[*s] = eval(e, &v);
                    match forced.get(s) {
                        Some(x) => v[*s] = *x,
                        None => {
                            loose.insert(*s);
                        }
                    }
                }
                Ins::Check(a, b) => {
                    let d = eval(a, &v) - eval(b, &v);
                    if d == 0 && loose.is_empty() {
                        continue;
                    }
                    let pin = loose.iter().find_map(|s| match (lin_in(a, *s), lin_in(b, *s)) {
                        (Some(x), Some(y)) if x != y => Some((*s, x - y)),
                        _ => None,
                    });
                    match pin {
                        Some((s, _)) if d == 0 => {
                            loose.remove(&s);
                        }
                        Some((s, c)) if d % c == 0 => return Ok(Pass::Force(s, v[s] - d / c)),
                        _ if d == 0 => {}
                        _ => return Ok(Pass::Unsat),
                    }
                }
                Ins::IsZero(o, a) => v[*o] = (v[*a] == 0) as i128,
                Ins::Less(o, a, b, n) => {
                    let x = v[*a] + (1i128 << n) - v[*b];
                    if x < 0 || x >= (1i128 << (n + 1)) {
                        return Ok(Pass::Unsat);
                    }
                    v[*o] = 1 - ((x >> n) & 1);
                }
                Ins::Bits(bits, a) => {
                    let x = v[*a];
                    if x < 0 || x >= (1i128 << bits.len()) {
                        return Ok(Pass::Unsat);
                    }
                    for (k, b) in bits.iter().enumerate() {
                        v[*b] = (x >> k) & 1;
                    }
                }
            }
        }
        Ok(Pass::Sat(v))
    }
}
enum Pass {
    Sat(Vec<i128>),
    Unsat,
    Force(usize, i128),
}

/// the coefficient of a signal, if the expression is linear in it
pub fn lin_in(n: &Node, s: usize) -> Option<i128> {
    match n {
        Node::Const(_) => Some(0),
        Node::Sig(x) => Some((*x == s) as i128),
        Node::Add(a, b) => Some(lin_in(a, s)? + lin_in(b, s)?),
        Node::Sub(a, b) => Some(lin_in(a, s)? - lin_in(b, s)?),
        Node::Mul(a, b) => {
            let (x, y) = (lin_in(a, s)?, lin_in(b, s)?);
            match (&**a, &**b) {
                (Node::Const(c), _) => Some(c * y),
                (_, Node::Const(c)) => Some(c * x),
                _ if x == 0 && y == 0 => Some(0),
                _ => None,
            }
        }
    }
}

// ---------------------------------------------------------------- elaboration
/// Linear / quadratic classification, as circom's R1CS needs.
#[derive(Debug, Clone, Copy, PartialEq)]
enum Deg {
    Const,
    Lin,
    Quad,
    Bad,
}
#[derive(Clone)]
enum Val {
    Num(i128),
    E(Rc<Node>, Deg),
    Arr(Vec<Val>),
}
impl Val {
    fn node(&self) -> R<(Rc<Node>, Deg)> {
        match self {
            Val::Num(c) => Ok((Rc::new(Node::Const(*c)), Deg::Const)),
            Val::E(n, d) => Ok((n.clone(), *d)),
            Val::Arr(_) => Err("array used as a scalar".into()),
        }
    }
    fn num(&self) -> R<i128> {
        match self {
            Val::Num(c) => Ok(*c),
            _ => Err("a compile-time constant is needed (index, bound or condition depends on a signal)".into()),
        }
    }
}
struct Arr {
    dims: Vec<usize>,
    base: usize,
    kind: Kind,
}
struct Comp {
    inst: Option<Rc<RefCell<Inst>>>,
}
/// A component instance: inputs are collected, and the body runs when they are all there.
struct Inst {
    tname: String,
    args: Vec<Val>,
    inputs: Vec<(String, Vec<usize>, Vec<usize>)>,
    missing: usize,
    outputs: HashMap<String, (Vec<usize>, Vec<usize>)>,
    out_order: Vec<String>,
    ran: bool,
    path: String,
}
enum Slot {
    Sig(Arr),
    Var(Val),
    Comp(Vec<usize>, Vec<Comp>),
}
pub struct Elab<'a> {
    prog: &'a Program,
    flat: Flat,
    assigned: Vec<bool>,
    depth: usize,
    fuel: usize,
}
struct Frame {
    path: String,
    scopes: Vec<HashMap<String, Slot>>,
}
impl Frame {
    fn find(&mut self, n: &str) -> Option<&mut Slot> {
        self.scopes.iter_mut().rev().find_map(|s| s.get_mut(n))
    }
}

fn builtin_io(t: &str, a: &[Val]) -> Option<R<(Vec<(&'static str, Vec<usize>)>, Vec<(&'static str, Vec<usize>)>)>> {
    let n = |k: usize| -> R<usize> {
        let v = a.get(k).ok_or("missing template argument")?.num()?;
        if v < 0 || v > 100000 {
            return Err("template argument out of range".into());
        }
        Ok(v as usize)
    };
    let one = |i: Vec<(&'static str, Vec<usize>)>| Ok((i, vec![("out", vec![])]));
    Some(match t {
        "IsZero" => one(vec![("in", vec![])]),
        "IsEqual" | "LessThan" | "LessEqThan" | "GreaterThan" | "GreaterEqThan" => one(vec![("in", vec![2])]),
        "AND" | "OR" | "XOR" | "NAND" | "NOR" => one(vec![("a", vec![]), ("b", vec![])]),
        "NOT" => one(vec![("in", vec![])]),
        "MultiAND" => n(0).and_then(|n| {
            if n == 0 {
                return Err("MultiAND(0)".into());
            }
            one(vec![("in", vec![n])])
        }),
        "Num2Bits" => n(0).map(|n| (vec![("in", vec![])], vec![("out", vec![n])])),
        _ => return None,
    })
}

impl<'a> Elab<'a> {
    pub fn elaborate(prog: &'a Program, tname: &str, msg_bytes: i128) -> R<Flat> {
        let mut e = Elab {
            prog,
            flat: Flat { nsig: 0, ins: vec![], inputs: BTreeMap::new(), outputs: vec![], names: vec![] },
            assigned: vec![],
            depth: 0,
            fuel: 20_000_000,
        };
        let inst = e.instantiate(tname, vec![Val::Num(msg_bytes)], "main".into())?;
        {
            let i = inst.borrow();
            for (n, _, sigs) in &i.inputs {
                e.flat.inputs.insert(n.clone(), sigs.clone());
                for s in sigs {
                    e.assigned[*s] = true;
                }
            }
        }
        inst.borrow_mut().missing = 0;
        e.run_inst(&inst)?;
        let i = inst.borrow();
        for n in &i.out_order {
            let (_, sigs) = &i.outputs[n];
            for s in sigs {
                if !e.assigned[*s] {
                    return Err(format!("output signal {} is never assigned", e.flat.names[*s]));
                }
            }
            e.flat.outputs.push((n.clone(), sigs.clone()));
        }
        drop(i);
        Ok(e.flat)
    }
    fn alloc(&mut self, name: &str, n: usize) -> usize {
        let b = self.flat.nsig;
        self.flat.nsig += n;
        for k in 0..n {
            self.assigned.push(false);
            self.flat.names.push(if n == 1 { name.to_string() } else { format!("{}#{}", name, k) });
        }
        b
    }
    fn define(&mut self, s: usize, v: &Val, op: &str) -> R<()> {
        if self.assigned[s] {
            return Err(format!("signal {} is assigned twice", self.flat.names[s]));
        }
        let (n, d) = v.node()?;
        if op == "<==" && d == Deg::Bad {
            return Err(format!("non quadratic constraint for {}", self.flat.names[s]));
        }
        self.check_reads(&n)?;
        self.assigned[s] = true;
        self.flat.ins.push(if op == "<==" { Ins::Def(s, n) } else { Ins::Hint(s, n) });
        Ok(())
    }
    fn check_reads(&self, n: &Node) -> R<()> {
        let mut r = vec![];
        reads(n, &mut r);
        for s in r {
            if !self.assigned[s] {
                return Err(format!("signal {} is read but not assigned before", self.flat.names[s]));
            }
        }
        Ok(())
    }
    fn instantiate(&mut self, t: &str, args: Vec<Val>, path: String) -> R<Rc<RefCell<Inst>>> {
        let mut inputs = vec![];
        let mut outputs = HashMap::new();
        let mut out_order = vec![];
        let decls: Vec<(Kind, String, Vec<usize>)> = if self.prog.templates.contains_key(t) {
            self.io_of(t, &args)?
        } else if let Some(io) = builtin_io(t, &args) {
            let (i, o) = io?;
            i.into_iter()
                .map(|(n, d)| (Kind::Input, n.to_string(), d))
                .chain(o.into_iter().map(|(n, d)| (Kind::Output, n.to_string(), d)))
                .collect()
        } else {
            return Err(format!("unknown template {}", t));
        };
        for (k, n, dims) in decls {
            let size: usize = dims.iter().product();
            let base = self.alloc(&format!("{}.{}", path, n), size);
            let sigs: Vec<usize> = (base..base + size).collect();
            if k == Kind::Input {
                inputs.push((n, dims, sigs));
            } else {
                out_order.push(n.clone());
                outputs.insert(n, (dims, sigs));
            }
        }
        let missing = inputs.iter().map(|(_, _, s)| s.len()).sum();
        let inst = Rc::new(RefCell::new(Inst {
            tname: t.to_string(),
            args,
            inputs,
            missing,
            outputs,
            out_order,
            ran: false,
            path,
        }));
        if missing == 0 {
            self.run_inst(&inst)?;
        }
        Ok(inst)
    }
    /// Finds the input and output declarations (they are at the top level of a template body).
    fn io_of(&mut self, t: &str, args: &[Val]) -> R<Vec<(Kind, String, Vec<usize>)>> {
        let tpl = self.prog.templates[t].clone();
        if tpl.params.len() != args.len() {
            return Err(format!("{} takes {} arguments", t, tpl.params.len()));
        }
        let mut fr = Frame { path: String::new(), scopes: vec![HashMap::new()] };
        for (p, a) in tpl.params.iter().zip(args) {
            fr.scopes[0].insert(p.clone(), Slot::Var(a.clone()));
        }
        let mut out = vec![];
        for s in tpl.body.iter() {
            match s {
                St::Decl(k @ (Kind::Input | Kind::Output), n, dims, _) => {
                    let mut d = vec![];
                    for e in dims {
                        let v = self.ex(&mut fr, e)?.num()?;
                        if v < 0 {
                            return Err("negative dimension".into());
                        }
                        d.push(v as usize);
                    }
                    out.push((k.clone(), n.clone(), d));
                }
                St::Decl(Kind::Var, n, dims, init) if dims.is_empty() => {
                    if let Some((_, e)) = init {
                        if let Ok(v) = self.ex(&mut fr, e) {
                            fr.scopes[0].insert(n.clone(), Slot::Var(v));
                        }
                    }
                }
                _ => {}
            }
        }
        Ok(out)
    }
    fn run_inst(&mut self, inst: &Rc<RefCell<Inst>>) -> R<()> {
        self.depth += 1;
        if self.depth > 200 {
            return Err("template recursion too deep".into());
        }
        let (t, args, path) = {
            let mut i = inst.borrow_mut();
            i.ran = true;
            (i.tname.clone(), i.args.clone(), i.path.clone())
        };
        if let Some(tpl) = self.prog.templates.get(&t).cloned() {
            let mut fr = Frame { path, scopes: vec![HashMap::new()] };
            for (p, a) in tpl.params.iter().zip(&args) {
                fr.scopes[0].insert(p.clone(), Slot::Var(a.clone()));
            }
            {
                let i = inst.borrow();
                for (n, dims, sigs) in &i.inputs {
                    fr.scopes[0].insert(
                        n.clone(),
                        Slot::Sig(Arr { dims: dims.clone(), base: *sigs.first().unwrap_or(&0), kind: Kind::Input }),
                    );
                }
                for (n, (dims, sigs)) in &i.outputs {
                    fr.scopes[0].insert(
                        n.clone(),
                        Slot::Sig(Arr { dims: dims.clone(), base: *sigs.first().unwrap_or(&0), kind: Kind::Output }),
                    );
                }
            }
            self.stmts(&mut fr, &tpl.body)?;
            // a component that was created but never got its inputs is an error in circom
            for sc in &fr.scopes {
                for (n, s) in sc {
                    if let Slot::Comp(_, cs) = s {
                        for c in cs {
                            if let Some(i) = &c.inst {
                                if !i.borrow().ran {
                                    return Err(format!("component {} has inputs that are never assigned", n));
                                }
                            }
                        }
                    }
                }
            }
        } else {
            self.run_builtin(inst, &t, &args)?;
        }
        let i = inst.borrow();
        for n in &i.out_order {
            for s in &i.outputs[n].1 {
                if !self.assigned[*s] {
                    return Err(format!("output {} is never assigned", self.flat.names[*s]));
                }
            }
        }
        self.depth -= 1;
        Ok(())
    }
    fn run_builtin(&mut self, inst: &Rc<RefCell<Inst>>, t: &str, args: &[Val]) -> R<()> {
        let (ins, outs) = {
            let i = inst.borrow();
            (
                i.inputs.iter().flat_map(|(_, _, s)| s.clone()).collect::<Vec<_>>(),
                i.outputs.values().flat_map(|(_, s)| s.clone()).collect::<Vec<_>>(),
            )
        };
        let sig = |s: usize| Rc::new(Node::Sig(s));
        let c = |k: i128| Rc::new(Node::Const(k));
        let add = |a: Rc<Node>, b: Rc<Node>| Rc::new(Node::Add(a, b));
        let sub = |a: Rc<Node>, b: Rc<Node>| Rc::new(Node::Sub(a, b));
        let mul = |a: Rc<Node>, b: Rc<Node>| Rc::new(Node::Mul(a, b));
        let o = outs.first().copied().unwrap_or(0);
        let width = || -> R<u32> { Ok(args.first().ok_or("missing argument")?.num()? as u32) };
        match t {
            "IsZero" => {
                self.flat.ins.push(Ins::IsZero(o, ins[0]));
            }
            "IsEqual" => {
                let d = self.alloc("diff", 1);
                self.assigned[d] = true;
                self.flat.ins.push(Ins::Def(d, sub(sig(ins[1]), sig(ins[0]))));
                self.flat.ins.push(Ins::IsZero(o, d));
            }
            "LessThan" => self.flat.ins.push(Ins::Less(o, ins[0], ins[1], width()?)),
            "GreaterThan" => self.flat.ins.push(Ins::Less(o, ins[1], ins[0], width()?)),
            "LessEqThan" | "GreaterEqThan" => {
                let (a, b) = if t == "LessEqThan" { (ins[0], ins[1]) } else { (ins[1], ins[0]) };
                let d = self.alloc("succ", 1);
                self.assigned[d] = true;
                self.flat.ins.push(Ins::Def(d, add(sig(b), c(1))));
                self.flat.ins.push(Ins::Less(o, a, d, width()?));
            }
            "AND" => self.flat.ins.push(Ins::Def(o, mul(sig(ins[0]), sig(ins[1])))),
            "OR" => self.flat.ins.push(Ins::Def(
                o,
                sub(add(sig(ins[0]), sig(ins[1])), mul(sig(ins[0]), sig(ins[1]))),
            )),
            "XOR" => self.flat.ins.push(Ins::Def(
                o,
                sub(add(sig(ins[0]), sig(ins[1])), mul(c(2), mul(sig(ins[0]), sig(ins[1])))),
            )),
            "NAND" => self.flat.ins.push(Ins::Def(o, sub(c(1), mul(sig(ins[0]), sig(ins[1]))))),
            "NOR" => self.flat.ins.push(Ins::Def(
                o,
                sub(add(mul(sig(ins[0]), sig(ins[1])), c(1)), add(sig(ins[0]), sig(ins[1]))),
            )),
            "NOT" => self.flat.ins.push(Ins::Def(o, sub(c(1), sig(ins[0])))),
            "MultiAND" => {
                let mut acc = ins[0];
                for (k, s) in ins.iter().enumerate().skip(1) {
                    let d = if k + 1 == ins.len() { o } else { self.alloc("and", 1) };
                    self.assigned[d] = true;
                    self.flat.ins.push(Ins::Def(d, mul(sig(acc), sig(*s))));
                    acc = d;
                }
                if ins.len() == 1 {
                    self.flat.ins.push(Ins::Def(o, sig(ins[0])));
                }
            }
            "Num2Bits" => self.flat.ins.push(Ins::Bits(outs.clone(), ins[0])),
            _ => return Err(format!("unknown template {}", t)),
        }
        for s in outs {
            self.assigned[s] = true;
        }
        Ok(())
    }
    fn feed(&mut self, inst: &Rc<RefCell<Inst>>, s: usize, v: &Val, op: &str) -> R<()> {
        self.define(s, v, op)?;
        let ready = {
            let mut i = inst.borrow_mut();
            i.missing -= 1;
            i.missing == 0
        };
        if ready {
            self.run_inst(inst)?;
        }
        Ok(())
    }
    fn stmts(&mut self, fr: &mut Frame, b: &[St]) -> R<()> {
        for s in b {
            self.stmt(fr, s)?;
        }
        Ok(())
    }
    fn stmt(&mut self, fr: &mut Frame, s: &St) -> R<()> {
        if self.fuel == 0 {
            return Err("elaboration does not end".into());
        }
        self.fuel -= 1;
        match s {
            St::Nop => Ok(()),
            St::Return(_) => Err("return in a template".into()),
            St::Block(b) => {
                fr.scopes.push(HashMap::new());
                let r = self.stmts(fr, b);
                let sc = fr.scopes.pop().unwrap();
                r?;
                for (n, s) in &sc {
                    if let Slot::Comp(_, cs) = s {
                        for c in cs {
                            if let Some(i) = &c.inst {
                                if !i.borrow().ran {
                                    return Err(format!("component {} has inputs that are never assigned", n));
                                }
                            }
                        }
                    }
                }
                Ok(())
            }
            St::If(c, a, b) => {
                let v = self.ex(fr, c)?.num()?;
                self.stmt(fr, &St::Block(if v != 0 { a.clone() } else { b.clone() }))
            }
            St::While(c, b) => {
                while self.ex(fr, c)?.num()? != 0 {
                    self.stmts(fr, b)?;
                }
                Ok(())
            }
            St::Assert(e) => {
                if self.ex(fr, e)?.num()? == 0 {
                    return Err("assert failed".into());
                }
                Ok(())
            }
            St::Decl(k, n, dims, init) => {
                let mut d = vec![];
                for e in dims {
                    let v = self.ex(fr, e)?.num()?;
                    if v < 0 {
                        return Err(format!("negative dimension for {}", n));
                    }
                    d.push(v as usize);
                }
                let size: usize = d.iter().product();
                match k {
                    Kind::Input | Kind::Output => {
                        if fr.scopes.len() != 1 {
                            return Err("input or output declared in a nested block".into());
                        }
                    }
                    Kind::Inter => {
                        if fr.find(n).is_some() {
                            return Err(format!("symbol {} declared twice", n));
                        }
                        let base = self.alloc(&format!("{}.{}", fr.path, n), size);
                        fr.scopes
                            .last_mut()
                            .unwrap()
                            .insert(n.clone(), Slot::Sig(Arr { dims: d, base, kind: Kind::Inter }));
                    }
                    Kind::Comp => {
                        let cs = (0..size).map(|_| Comp { inst: None }).collect();
                        fr.scopes.last_mut().unwrap().insert(n.clone(), Slot::Comp(d, cs));
                    }
                    Kind::Var => {
                        let mut v = Val::Num(0);
                        for k in d.iter().rev() {
                            v = Val::Arr(vec![v; *k]);
                        }
                        fr.scopes.last_mut().unwrap().insert(n.clone(), Slot::Var(v));
                    }
                }
                if let Some((op, e)) = init {
                    self.stmt(fr, &St::Assign(op, Ex::Ref(n.clone(), vec![]), e.clone()))?;
                }
                Ok(())
            }
            St::Assign(op, l, r) => self.assign(fr, op, l, r),
        }
    }
    fn index(&mut self, fr: &mut Frame, acc: &[Acc]) -> R<Vec<usize>> {
        let mut v = vec![];
        for a in acc {
            if let Acc::Idx(e) = a {
                let k = self.ex(fr, e)?.num()?;
                if k < 0 {
                    return Err("negative index".into());
                }
                v.push(k as usize);
            }
        }
        Ok(v)
    }
    fn offset(dims: &[usize], idx: &[usize], what: &str) -> R<(usize, usize)> {
        if idx.len() > dims.len() {
            return Err(format!("too many indices for {}", what));
        }
        let mut off = 0;
        for (k, d) in dims.iter().enumerate() {
            let i = if k < idx.len() { idx[k] } else { 0 };
            if k < idx.len() && i >= *d {
                return Err(format!("index {} out of bounds ({}) in {}", i, d, what));
            }
            off = off * d + i;
        }
        Ok((off, dims[idx.len()..].iter().product()))
    }
    fn assign(&mut self, fr: &mut Frame, op: &'static str, l: &Ex, r: &Ex) -> R<()> {
        if op == "===" {
            let a = self.ex(fr, l)?;
            let b = self.ex(fr, r)?;
            let (a, da) = a.node()?;
            let (b, db) = b.node()?;
            if da == Deg::Bad || db == Deg::Bad || (da == Deg::Quad && db == Deg::Quad) {
                return Err("non quadratic constraint in ===".into());
            }
            self.check_reads(&a)?;
            self.check_reads(&b)?;
            self.flat.ins.push(Ins::Check(a, b));
            return Ok(());
        }
        if op == "_" {
            self.ex(fr, r)?;
            return Ok(());
        }
        // component instantiation
        if let (Ex::Ref(n, acc), Ex::Call(t, args), "=") = (l, r, op) {
            if matches!(fr.find(n), Some(Slot::Comp(..))) {
                let mut a = vec![];
                for e in args {
                    a.push(self.ex(fr, e)?);
                }
                let idx = self.index(fr, acc)?;
                let path = format!("{}.{}{:?}", fr.path, n, idx);
                let inst = self.instantiate(t, a, path)?;
                if let Some(Slot::Comp(d, cs)) = fr.find(n) {
                    if idx.len() != d.len() {
                        return Err(format!("component array {} assigned as a whole", n));
                    }
                    let (off, _) = Self::offset(d, &idx, n)?;
                    if cs[off].inst.is_some() {
                        return Err(format!("component {} created twice", n));
                    }
                    cs[off].inst = Some(inst);
                }
                return Ok(());
            }
        }
        if let Ex::Tuple(ls) = l {
            let vals = match r {
                Ex::Anon(t, a, i) => self.anon(fr, t, a, i)?,
                Ex::Tuple(rs) => {
                    let mut v = vec![];
                    for e in rs {
                        v.push(self.ex(fr, e)?);
                    }
                    v
                }
                _ => return Err("tuple assignment from a non-tuple".into()),
            };
            if vals.len() != ls.len() {
                return Err(format!("tuple of {} assigned to {}", vals.len(), ls.len()));
            }
            for (l, v) in ls.iter().zip(vals) {
                self.store(fr, op, l, v)?;
            }
            return Ok(());
        }
        let v = self.ex(fr, r)?;
        self.store(fr, op, l, v)
    }
    fn store(&mut self, fr: &mut Frame, op: &'static str, l: &Ex, v: Val) -> R<()> {
        let (n, acc) = match l {
            Ex::Underscore => return Ok(()),
            Ex::Ref(n, acc) => (n, acc),
            _ => return Err("left side cannot be assigned".into()),
        };
        if acc.iter().any(|a| matches!(a, Acc::Mem(_))) {
            let k = acc.iter().position(|a| matches!(a, Acc::Mem(_))).unwrap();
            let idx = self.index(fr, &acc[..k])?;
            let rest = self.index(fr, &acc[k + 1..])?;
            let mem = match &acc[k] {
                Acc::Mem(m) => m.clone(),
                _ => unreachable!(),
            };
            let inst = self.comp(fr, n, &idx)?;
            if op != "<==" && op != "<--" {
                return Err("component input assigned with =".into());
            }
            let (dims, sigs) = {
                let i = inst.borrow();
                let x = i
                    .inputs
                    .iter()
                    .find(|x| x.0 == mem)
                    .ok_or_else(|| format!("{} has no input {}", i.tname, mem))?;
                (x.1.clone(), x.2.clone())
            };
            let (off, cnt) = Self::offset(&dims, &rest, &mem)?;
            let mut flatv = vec![];
            Self::flatten(&v, &mut flatv);
            if flatv.len() != cnt {
                return Err(format!("{} values for {} signals of {}.{}", flatv.len(), cnt, n, mem));
            }
            for (k, x) in flatv.iter().enumerate() {
                self.feed(&inst, sigs[off + k], x, op)?;
            }
            return Ok(());
        }
        let idx = self.index(fr, acc)?;
        match fr.find(n) {
            None => Err(format!("undeclared symbol {}", n)),
            Some(Slot::Comp(..)) => Err("component assigned a value".into()),
            Some(Slot::Var(x)) => {
                if op != "=" {
                    return Err(format!("variable {} assigned with {}", n, op));
                }
                let mut cur = x;
                for k in idx {
                    match cur {
                        Val::Arr(a) => cur = a.get_mut(k).ok_or("variable index out of bounds")?,
                        _ => return Err("indexing a scalar variable".into()),
                    }
                }
                *cur = v;
                Ok(())
            }
            Some(Slot::Sig(a)) => {
                if op == "=" {
                    return Err(format!("signal {} assigned with =", n));
                }
                if a.kind == Kind::Input {
                    return Err(format!("input {} assigned", n));
                }
                let (off, cnt) = Self::offset(&a.dims, &idx, n)?;
                let base = a.base;
                let mut flatv = vec![];
                Self::flatten(&v, &mut flatv);
                if flatv.len() != cnt {
                    return Err(format!("{} values for {} signals of {}", flatv.len(), cnt, n));
                }
                for (k, x) in flatv.iter().enumerate() {
                    self.define(base + off + k, x, op)?;
                }
                Ok(())
            }
        }
    }
    fn flatten(v: &Val, out: &mut Vec<Val>) {
        match v {
            Val::Arr(a) => a.iter().for_each(|x| Self::flatten(x, out)),
            x => out.push(x.clone()),
        }
    }
    fn comp(&mut self, fr: &mut Frame, n: &str, idx: &[usize]) -> R<Rc<RefCell<Inst>>> {
        match fr.find(n) {
            Some(Slot::Comp(d, cs)) => {
                if idx.len() != d.len() {
                    return Err(format!("wrong number of indices for component {}", n));
                }
                let (off, _) = Self::offset(d, idx, n)?;
                cs[off]
                    .inst
                    .clone()
                    .ok_or_else(|| format!("component {}{:?} used before it is created", n, idx))
            }
            _ => Err(format!("{} is not a component", n)),
        }
    }
    fn anon(&mut self, fr: &mut Frame, t: &str, args: &[Ex], ins: &[(Option<String>, Ex)]) -> R<Vec<Val>> {
        let mut a = vec![];
        for e in args {
            a.push(self.ex(fr, e)?);
        }
        let mut vals = vec![];
        for (n, e) in ins {
            vals.push((n.clone(), self.ex(fr, e)?));
        }
        let inst = self.instantiate(t, a, format!("{}.{}", fr.path, t))?;
        let decl: Vec<(String, Vec<usize>)> =
            inst.borrow().inputs.iter().map(|(n, _, s)| (n.clone(), s.clone())).collect();
        if decl.len() != vals.len() {
            return Err(format!("{} takes {} inputs, {} given", t, decl.len(), vals.len()));
        }
        for (k, (name, v)) in vals.iter().enumerate() {
            let sigs = match name {
                None => &decl[k].1,
                Some(n) => &decl.iter().find(|d| d.0 == *n).ok_or("no such input")?.1,
            };
            let mut f = vec![];
            Self::flatten(v, &mut f);
            if f.len() != sigs.len() {
                return Err(format!("{}: {} values for {} input signals", t, f.len(), sigs.len()));
            }
            for (s, x) in sigs.iter().zip(&f) {
                self.feed(&inst, *s, x, "<==")?;
            }
        }
        let i = inst.borrow();
        Ok(i.out_order
            .iter()
            .map(|n| {
                let (d, s) = &i.outputs[n];
                Self::shape(d, s)
            })
            .collect())
    }
    fn shape(dims: &[usize], sigs: &[usize]) -> Val {
        if dims.is_empty() {
            return Val::E(Rc::new(Node::Sig(sigs[0])), Deg::Lin);
        }
        let step = if dims[0] == 0 { 0 } else { sigs.len() / dims[0] };
        Val::Arr((0..dims[0]).map(|k| Self::shape(&dims[1..], &sigs[k * step..(k + 1) * step])).collect())
    }
    fn call_fn(&mut self, t: &str, args: Vec<Val>) -> R<Val> {
        let tpl = self.prog.templates.get(t).cloned().ok_or_else(|| format!("unknown function {}", t))?;
        if !tpl.is_fn {
            return Err(format!("template {} used as a function", t));
        }
        let mut fr = Frame { path: t.into(), scopes: vec![HashMap::new()] };
        for (p, a) in tpl.params.iter().zip(args) {
            fr.scopes[0].insert(p.clone(), Slot::Var(a));
        }
        self.fn_body(&mut fr, &tpl.body)?.ok_or_else(|| format!("{} returns nothing", t))
    }
    fn fn_body(&mut self, fr: &mut Frame, b: &[St]) -> R<Option<Val>> {
        for s in b {
            match s {
                St::Return(e) => return Ok(Some(self.ex(fr, e)?)),
                St::If(c, a, b) => {
                    let v = self.ex(fr, c)?.num()?;
                    if let Some(r) = self.fn_body(fr, if v != 0 { a } else { b })? {
                        return Ok(Some(r));
                    }
                }
                St::While(c, b) => {
                    while self.ex(fr, c)?.num()? != 0 {
                        if let Some(r) = self.fn_body(fr, b)? {
                            return Ok(Some(r));
                        }
                    }
                }
                St::Block(b) => {
                    fr.scopes.push(HashMap::new());
                    let r = self.fn_body(fr, b)?;
                    fr.scopes.pop();
                    if r.is_some() {
                        return Ok(r);
                    }
                }
                s => self.stmt(fr, s)?,
            }
        }
        Ok(None)
    }
    fn ex(&mut self, fr: &mut Frame, e: &Ex) -> R<Val> {
        Ok(match e {
            Ex::Num(n) => Val::Num(*n),
            Ex::Underscore => return Err("_ has no value".into()),
            Ex::Arr(v) => {
                let mut o = vec![];
                for x in v {
                    o.push(self.ex(fr, x)?);
                }
                Val::Arr(o)
            }
            Ex::Tuple(_) => return Err("tuple used as a value".into()),
            Ex::Call(t, a) => {
                let mut v = vec![];
                for x in a {
                    v.push(self.ex(fr, x)?);
                }
                self.call_fn(t, v)?
            }
            Ex::Anon(t, a, i) => {
                let mut v = self.anon(fr, t, a, i)?;
                if v.len() != 1 {
                    return Err(format!("{} has {} outputs, one is needed", t, v.len()));
                }
                v.pop().unwrap()
            }
            Ex::Tern(c, a, b) => {
                if self.ex(fr, c)?.num()? != 0 {
                    self.ex(fr, a)?
                } else {
                    self.ex(fr, b)?
                }
            }
            Ex::Un(o, a) => {
                let v = self.ex(fr, a)?;
                match (*o, v) {
                    ("-", Val::Num(n)) => Val::Num(-n),
                    ("!", Val::Num(n)) => Val::Num((n == 0) as i128),
                    ("-", v) => {
                        let (n, d) = v.node()?;
                        Val::E(Rc::new(Node::Sub(Rc::new(Node::Const(0)), n)), d)
                    }
                    _ => return Err(format!("operator {} on a signal", o)),
                }
            }
            Ex::Bin(o, a, b) => {
                let x = self.ex(fr, a)?;
                let y = self.ex(fr, b)?;
                if let (Val::Num(p), Val::Num(q)) = (&x, &y) {
                    let (p, q) = (*p, *q);
                    return Ok(Val::Num(match *o {
                        "+" => p + q,
                        "-" => p - q,
                        "*" => p * q,
                        "\\" | "/" => {
                            if q == 0 {
                                return Err("division by zero".into());
                            }
                            if *o == "/" && p % q != 0 {
                                return Err("field division is not supported".into());
                            }
                            p / q
                        }
                        "%" => {
                            if q == 0 {
                                return Err("modulo by zero".into());
                            }
                            p % q
                        }
                        "**" => p.pow(q as u32),
                        "<<" => p << q,
                        ">>" => p >> q,
                        "&" => p & q,
                        "|" => p | q,
                        "^" => p ^ q,
                        "==" => (p == q) as i128,
                        "!=" => (p != q) as i128,
                        "<" => (p < q) as i128,
                        ">" => (p > q) as i128,
                        "<=" => (p <= q) as i128,
                        ">=" => (p >= q) as i128,
                        "&&" => (p != 0 && q != 0) as i128,
                        "||" => (p != 0 || q != 0) as i128,
                        _ => return Err(format!("operator {}", o)),
                    }));
                }
                let (nx, dx) = x.node()?;
                let (ny, dy) = y.node()?;
                let (n, d) = match *o {
                    "+" | "-" => {
                        let d = match (dx, dy) {
                            (Deg::Bad, _) | (_, Deg::Bad) | (Deg::Quad, Deg::Quad) => Deg::Bad,
                            (Deg::Quad, _) | (_, Deg::Quad) => Deg::Quad,
                            _ => Deg::Lin,
                        };
                        (if *o == "+" { Node::Add(nx, ny) } else { Node::Sub(nx, ny) }, d)
                    }
                    "*" => {
                        let d = match (dx, dy) {
                            (Deg::Const, d) | (d, Deg::Const) => d,
                            (Deg::Lin, Deg::Lin) => Deg::Quad,
                            _ => Deg::Bad,
                        };
                        (Node::Mul(nx, ny), d)
                    }
                    _ => return Err(format!("operator {} on a signal", o)),
                };
                Val::E(Rc::new(n), d)
            }
            Ex::Ref(n, acc) => {
                if let Some(k) = acc.iter().position(|a| matches!(a, Acc::Mem(_))) {
                    let idx = self.index(fr, &acc[..k])?;
                    let rest = self.index(fr, &acc[k + 1..])?;
                    let mem = match &acc[k] {
                        Acc::Mem(m) => m.clone(),
                        _ => unreachable!(),
                    };
                    let inst = self.comp(fr, n, &idx)?;
                    let i = inst.borrow();
                    if !i.ran {
                        return Err(format!(
                            "output {} of component {}{:?} read before all its inputs are assigned",
                            mem, n, idx
                        ));
                    }
                    let (dims, sigs) = i
                        .outputs
                        .get(&mem)
                        .cloned()
                        .or_else(|| i.inputs.iter().find(|x| x.0 == mem).map(|x| (x.1.clone(), x.2.clone())))
                        .ok_or_else(|| format!("{} has no signal {}", i.tname, mem))?;
                    let (off, cnt) = Self::offset(&dims, &rest, &mem)?;
                    return Ok(Self::shape(&dims[rest.len()..], &sigs[off..off + cnt]));
                }
                let idx = self.index(fr, acc)?;
                match fr.find(n) {
                    None => return Err(format!("undeclared symbol {}", n)),
                    Some(Slot::Comp(..)) => return Err("component used as a value".into()),
                    Some(Slot::Var(v)) => {
                        let mut cur = &*v;
                        for k in idx {
                            match cur {
                                Val::Arr(a) => cur = a.get(k).ok_or("variable index out of bounds")?,
                                _ => return Err("indexing a scalar variable".into()),
                            }
                        }
                        cur.clone()
                    }
                    Some(Slot::Sig(a)) => {
                        let (off, cnt) = Self::offset(&a.dims, &idx, n)?;
                        let sigs: Vec<usize> = (a.base + off..a.base + off + cnt).collect();
                        Self::shape(&a.dims[idx.len()..], &sigs)
                    }
                }
            }
        })
    }
}

//! What queries say: read by a reader of our own and by the real code.
use crate::model::{gen, Params};
use crate::query::*;
use common::{guard, js, Case, Rng, Run};
use reveaal::parse_queries::{parse_to_expression_tree, parse_to_state_expr, parse_to_system_expr};
use reveaal::ModelObjects::Expressions::{ComponentVariable, OperandExpression, QueryExpression, SaveExpression, StateExpression, SystemExpression};
use reveaal::ModelObjects::Query;

#[derive(Clone, Debug, PartialEq)]
enum S {
    Comp(String, Option<String>),
    Bin(u8, Box<S>, Box<S>),
}
type Var = (String, Option<String>, String);
/// A sum of signed terms
type Sum = Vec<(bool, Term)>;
#[derive(Clone, Debug, PartialEq)]
enum Term {
    Num(i32),
    Var(Var),
}
#[derive(Clone, Debug, PartialEq)]
enum St {
    Cmp(Sum, &'static str, Sum),
    Loc(Var),
    Bool(bool),
    Not(Box<St>),
    And(Vec<St>),
    Or(Vec<St>),
}
#[derive(Clone, Debug, PartialEq)]
enum Q {
    Refine(S, S),
    Reach(S, Option<St>, St),
    One(&'static str, S),
    Save(&'static str, S, Option<String>),
}
const ONE: [&str; 4] = ["consistency", "implementation", "determinism", "specification"];
const SAVE: [&str; 3] = ["get-component", "prune", "bisim-minim"];
const CMP: [&str; 5] = ["<=", ">=", "==", "<", ">"];

fn flat(and: bool, v: Vec<St>) -> St {
    let mut out = vec![];
    for s in v {
        match s {
            St::And(w) if and => out.extend(w),
            St::Or(w) if !and => out.extend(w),
            s => out.push(s),
        }
    }
    match out.len() {
        1 => out.pop().unwrap(),
        _ if and => St::And(out),
        _ => St::Or(out),
    }
}

// ---------------------------------------------------------------- what the real code read
fn of_sys(e: &SystemExpression) -> S {
    match e {
        SystemExpression::Component(n, i) => S::Comp(n.clone(), i.clone()),
        SystemExpression::Quotient(a, b) => S::Bin(0, Box::new(of_sys(a)), Box::new(of_sys(b))),
        SystemExpression::Composition(a, b) => S::Bin(1, Box::new(of_sys(a)), Box::new(of_sys(b))),
        SystemExpression::Conjunction(a, b) => S::Bin(2, Box::new(of_sys(a)), Box::new(of_sys(b))),
    }
}
fn of_var(v: &ComponentVariable) -> Var {
    (v.component.clone(), v.special_id.clone(), v.variable.clone())
}
fn of_sum(e: &OperandExpression, plus: bool, out: &mut Sum) {
    match e {
        OperandExpression::Number(n) => out.push((plus, Term::Num(*n))),
        OperandExpression::Clock(v) => out.push((plus, Term::Var(of_var(v)))),
        OperandExpression::Difference(a, b) => {
            of_sum(a, plus, out);
            of_sum(b, !plus, out);
        }
        OperandExpression::Sum(a, b) => {
            of_sum(a, plus, out);
            of_sum(b, plus, out);
        }
    }
}
fn of_state(e: &StateExpression) -> St {
    let cmp = |a: &OperandExpression, o: &'static str, b: &OperandExpression| {
        let (mut x, mut y) = (vec![], vec![]);
        of_sum(a, true, &mut x);
        of_sum(b, true, &mut y);
        St::Cmp(x, o, y)
    };
    match e {
        StateExpression::LEQ(a, b) => cmp(a, "<=", b),
        StateExpression::GEQ(a, b) => cmp(a, ">=", b),
        StateExpression::EQ(a, b) => cmp(a, "==", b),
        StateExpression::LT(a, b) => cmp(a, "<", b),
        StateExpression::GT(a, b) => cmp(a, ">", b),
        StateExpression::AND(v) => flat(true, v.iter().map(of_state).collect()),
        StateExpression::OR(v) => flat(false, v.iter().map(of_state).collect()),
        StateExpression::Location(v) => St::Loc(of_var(v)),
        StateExpression::NOT(e) => St::Not(Box::new(of_state(e))),
        StateExpression::Bool(b) => St::Bool(*b),
    }
}
fn of_query(q: &QueryExpression) -> Q {
    let save = |k, e: &SaveExpression| Q::Save(k, of_sys(&e.system), e.name.clone());
    match q {
        QueryExpression::Refinement(a, b) => Q::Refine(of_sys(a), of_sys(b)),
        QueryExpression::Reachability { system, from, to } => Q::Reach(of_sys(system), from.as_ref().map(of_state), of_state(to)),
        QueryExpression::Consistency(s) => Q::One("consistency", of_sys(s)),
        QueryExpression::Implementation(s) => Q::One("implementation", of_sys(s)),
        QueryExpression::Determinism(s) => Q::One("determinism", of_sys(s)),
        QueryExpression::Specification(s) => Q::One("specification", of_sys(s)),
        QueryExpression::GetComponent(e) => save("get-component", e),
        QueryExpression::Prune(e) => save("prune", e),
        QueryExpression::BisimMinim(e) => save("bisim-minim", e),
    }
}

// ---------------------------------------------------------------- a reader of our own
struct Reader<'a> {
    s: &'a [u8],
    at: usize,
}
type R<T> = Option<T>;
impl<'a> Reader<'a> {
    fn new(s: &'a str) -> Self {
        Reader { s: s.as_bytes(), at: 0 }
    }
    fn space(&mut self) {
        while self.at < self.s.len() && (b" \n\t".contains(&self.s[self.at]) || self.s[self.at..].starts_with(b"\r\n")) {
            self.at += 1;
        }
    }
    fn eat(&mut self, w: &str) -> bool {
        self.space();
        let ok = self.s[self.at..].starts_with(w.as_bytes());
        if ok {
            self.at += w.len();
        }
        ok
    }
    fn end(&mut self) -> R<()> {
        self.space();
        (self.at == self.s.len()).then_some(())
    }
    fn name(&mut self) -> R<String> {
        self.space();
        let from = self.at;
        while self.at < self.s.len() && (self.s[self.at].is_ascii_alphabetic() || self.at > from && (self.s[self.at].is_ascii_digit() || self.s[self.at] == b'_')) {
            self.at += 1;
        }
        (self.at > from).then(|| String::from_utf8_lossy(&self.s[from..self.at]).into())
    }
    fn comp(&mut self) -> R<(String, Option<String>)> {
        let n = self.name()?;
        if !self.eat("[") {
            return Some((n, None));
        }
        self.space();
        let from = self.at;
        while self.at < self.s.len() && !b"[]".contains(&self.s[self.at]) {
            self.at += 1;
        }
        let id = String::from_utf8_lossy(&self.s[from..self.at]).to_string();
        (!id.is_empty() && self.eat("]")).then_some((n, Some(id)))
    }
    fn sys(&mut self, level: u8) -> R<S> {
        if level == 3 {
            if self.eat("(") {
                let e = self.sys(0)?;
                return self.eat(")").then_some(e);
            }
            let (n, i) = self.comp()?;
            return Some(S::Comp(n, i));
        }
        let mut left = self.sys(level + 1)?;
        loop {
            let found = match level {
                0 => self.eat("//") || self.eat("\\\\"),
                1 => self.eat("||"),
                _ => self.eat("&&"),
            };
            if !found {
                return Some(left);
            }
            left = S::Bin(level, Box::new(left), Box::new(self.sys(level + 1)?));
        }
    }
    fn var(&mut self) -> R<Var> {
        let (c, i) = self.comp()?;
        if !self.eat(".") {
            return None;
        }
        Some((c, i, self.name()?))
    }
    fn int(&mut self) -> R<i32> {
        self.space();
        let from = self.at;
        while self.at < self.s.len() && self.s[self.at].is_ascii_digit() {
            self.at += 1;
            if self.s[from] == b'0' {
                break;
            }
        }
        std::str::from_utf8(&self.s[from..self.at]).ok()?.parse().ok()
    }
    fn sum(&mut self) -> R<Sum> {
        let mut out = vec![];
        let mut plus = true;
        loop {
            self.space();
            let t = if self.s.get(self.at)?.is_ascii_digit() { Term::Num(self.int()?) } else { Term::Var(self.var()?) };
            out.push((plus, t));
            // "->" ends a state
            self.space();
            if self.s[self.at..].starts_with(b"->") {
                return Some(out);
            }
            plus = if self.eat("-") {
                false
            } else if self.eat("+") {
                true
            } else {
                return Some(out);
            };
        }
    }
    fn state(&mut self) -> R<St> {
        let mut v = vec![self.state_and()?];
        while self.eat("||") || self.eat("or") {
            v.push(self.state_and()?);
        }
        Some(flat(false, v))
    }
    fn state_and(&mut self) -> R<St> {
        let mut v = vec![self.state_sub()?];
        while self.eat("&&") || self.eat("and") {
            v.push(self.state_sub()?);
        }
        Some(flat(true, v))
    }
    fn tried<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        let at = self.at;
        let r = f(self);
        if r.is_none() {
            self.at = at;
        }
        r
    }
    fn state_sub(&mut self) -> R<St> {
        if let Some(e) = self.tried(|r| if r.eat("(") { r.state().filter(|_| r.eat(")")) } else { None }) {
            return Some(e);
        }
        if let Some(e) = self.tried(|r| {
            let not = r.eat("!") || r.name()? == "not";
            not.then(|| r.state_sub())?
        }) {
            return Some(St::Not(Box::new(e)));
        }
        if let Some(e) = self.tried(|r| {
            let a = r.sum()?;
            let o = CMP.iter().find(|o| r.eat(o))?;
            Some(St::Cmp(a, o, r.sum()?))
        }) {
            return Some(e);
        }
        if let Some(v) = self.tried(|r| r.var()) {
            return Some(St::Loc(v));
        }
        match self.eat("true") {
            true => Some(St::Bool(true)),
            false => self.eat("false").then_some(St::Bool(false)),
        }
    }
    fn query(&mut self) -> R<Q> {
        if self.eat("refinement:") {
            let a = self.sys(0)?;
            return Some(Q::Refine(a, self.eat("<=").then(|| self.sys(0))??));
        }
        if self.eat("reachability:") {
            let s = self.sys(0)?;
            let from = self.eat("@").then(|| match self.tried(|r| r.state()) {
                Some(e) => Some(Some(e)),
                None => self.eat("init").then_some(None),
            })??;
            return Some(Q::Reach(s, from, self.eat("->").then(|| self.state())??));
        }
        for k in ONE {
            if self.eat(&format!("{}:", k)) {
                return Some(Q::One(k, self.sys(0)?));
            }
        }
        for k in SAVE {
            if self.eat(&format!("{}:", k)) {
                let s = self.sys(0)?;
                let n = if self.eat("save-as") { Some(self.name()?) } else { None };
                return Some(Q::Save(k, s, n));
            }
        }
        None
    }
    fn queries(&mut self) -> R<Vec<Q>> {
        let mut v = vec![self.query()?];
        while self.eat(";") {
            v.push(self.query()?);
        }
        self.end()?;
        Some(v)
    }
}

// ---------------------------------------------------------------- texts
struct Writer<'a> {
    r: &'a mut Rng,
}
const NAMES: [&str; 14] = ["A", "B", "Machine", "init", "notA", "not", "true1", "orA", "andy", "save", "x_1", "Spec2", "false", "or"];
impl Writer<'_> {
    fn sp(&mut self) -> &'static str {
        *self.r.pick(&["", "", " ", " ", "  ", "\n", "\t"])
    }
    fn gap(&mut self) -> &'static str {
        *self.r.pick(&[" ", " ", "  ", "\n", "\t"])
    }
    fn comp(&mut self) -> (String, Option<String>) {
        let n = self.r.pick(&NAMES).to_string();
        let id = if self.r.chance(1, 4) { Some(self.r.pick(&["1", "AAB", "a b", "x.y", "&&", "2_", "é"]).to_string()) } else { None };
        (n, id)
    }
    fn sys(&mut self, depth: usize) -> S {
        if depth == 0 || self.r.chance(1, 3) {
            let (n, i) = self.comp();
            return S::Comp(n, i);
        }
        let k = self.r.below(3) as u8;
        S::Bin(k, Box::new(self.sys(depth - 1)), Box::new(self.sys(depth - 1)))
    }
    fn comp_text(&mut self, n: &str, i: &Option<String>) -> String {
        match i {
            Some(i) => format!("{}{}[{}{}]", n, if self.r.chance(1, 5) { " " } else { "" }, if self.r.chance(1, 5) { " " } else { "" }, i),
            None => n.into(),
        }
    }
    fn sys_text(&mut self, s: &S, level: u8) -> String {
        let (own, t) = match s {
            S::Comp(n, i) => (3, self.comp_text(n, i)),
            S::Bin(k, a, b) => {
                let op = match k {
                    0 => *self.r.pick(&["//", "\\\\"]),
                    1 => "||",
                    _ => "&&",
                };
                let (a, b) = (self.sys_text(a, *k), self.sys_text(b, *k + 1));
                let (x, y) = (self.sp(), self.sp());
                (*k, format!("{}{}{}{}{}", a, x, op, y, b))
            }
        };
        if own < level || self.r.chance(1, 8) {
            let (x, y) = (self.sp(), self.sp());
            format!("({}{}{})", x, t, y)
        } else {
            t
        }
    }
    fn var(&mut self) -> Var {
        let (n, i) = self.comp();
        (n, i, self.r.pick(&["x", "L0", "L_1", "or", "y2", "not"]).to_string())
    }
    fn sum(&mut self) -> Sum {
        (0..1 + self.r.below(3))
            .map(|k| (k == 0 || self.r.chance(1, 2), if self.r.chance(1, 2) { Term::Num(self.r.range(0, 2000) as i32) } else { Term::Var(self.var()) }))
            .collect()
    }
    fn state(&mut self, depth: usize) -> St {
        if depth > 0 && self.r.chance(3, 5) {
            let and = self.r.chance(1, 2);
            if self.r.chance(1, 6) {
                return St::Not(Box::new(self.state(depth - 1)));
            }
            let v = (0..2 + self.r.below(2)).map(|_| self.state(depth - 1)).collect();
            return flat(and, v);
        }
        match self.r.below(6) {
            0 => St::Bool(self.r.chance(1, 2)),
            1 | 2 => St::Loc(self.var()),
            _ => St::Cmp(self.sum(), *self.r.pick(&CMP), self.sum()),
        }
    }
    fn var_text(&mut self, v: &Var) -> String {
        format!("{}.{}", self.comp_text(&v.0, &v.1), v.2)
    }
    fn sum_text(&mut self, s: &Sum) -> String {
        let mut t = String::new();
        for (k, (plus, x)) in s.iter().enumerate() {
            if k > 0 {
                t += self.sp();
                t += if *plus { "+" } else { "-" };
                t += self.sp();
            }
            t += &match x {
                Term::Num(n) => n.to_string(),
                Term::Var(v) => self.var_text(v),
            };
        }
        t
    }
    fn state_text(&mut self, s: &St, level: u8) -> String {
        let (own, t) = match s {
            St::Bool(b) => (3, b.to_string()),
            St::Loc(v) => (3, self.var_text(v)),
            St::Cmp(a, o, b) => {
                let (a, b) = (self.sum_text(a), self.sum_text(b));
                let (x, y) = (self.sp(), self.sp());
                (3, format!("{}{}{}{}{}", a, x, o, y, b))
            }
            St::Not(e) => {
                let e = self.state_text(e, 3);
                (3, if self.r.chance(1, 2) { format!("!{}{}", self.sp(), e) } else { format!("not{}{}", self.gap(), e) })
            }
            St::And(v) | St::Or(v) => {
                let and = matches!(s, St::And(_));
                let mut t = String::new();
                for (k, e) in v.iter().enumerate() {
                    if k > 0 {
                        t += &if self.r.chance(1, 4) {
                            format!("{}{}{}", self.gap(), if and { "and" } else { "or" }, self.gap())
                        } else {
                            format!("{}{}{}", self.sp(), if and { "&&" } else { "||" }, self.sp())
                        };
                    }
                    t += &self.state_text(e, if and { 2 } else { 1 });
                }
                (and as u8, t)
            }
        };
        if own < level || self.r.chance(1, 10) {
            let (x, y) = (self.sp(), self.sp());
            format!("({}{}{})", x, t, y)
        } else {
            t
        }
    }
    fn query(&mut self) -> (Q, String) {
        let d = self.r.below(4);
        let a = self.sys(d);
        let ta = self.sys_text(&a, 0);
        let (p, x, y, z) = (self.sp(), self.sp(), self.sp(), self.sp());
        match self.r.below(5) {
            0 => {
                let b = self.sys(2);
                let tb = self.sys_text(&b, 0);
                (Q::Refine(a, b), format!("{}refinement:{}{}{}<={}{}", p, x, ta, y, z, tb))
            }
            1 | 2 => {
                let from = if self.r.chance(1, 2) { Some(self.state(2)) } else { None };
                let to = self.state(3);
                let tf = match &from {
                    Some(f) => self.state_text(f, 0),
                    None => "init".into(),
                };
                let tt = self.state_text(&to, 0);
                (Q::Reach(a, from, to), format!("{}reachability:{}{}{}@{}{}{}->{}{}", p, x, ta, y, z, tf, x, y, tt))
            }
            3 => {
                let k = *self.r.pick(&ONE);
                (Q::One(k, a), format!("{}{}:{}{}{}", p, k, x, ta, y))
            }
            _ => {
                let k = *self.r.pick(&SAVE);
                let name = if self.r.chance(1, 2) { Some(self.r.pick(&NAMES).to_string()) } else { None };
                let t = match &name {
                    Some(n) => format!("{}{}:{}{}{}save-as{}{}", p, k, x, ta, self.gap(), self.gap(), n),
                    None => format!("{}{}:{}{}{}", p, k, x, ta, y),
                };
                (Q::Save(k, a, name), t)
            }
        }
    }
}
fn read(text: &str) -> Result<Result<Vec<QueryExpression>, String>, String> {
    guard(|| parse_to_expression_tree(text))
}
fn shown(c: &mut Case, q: &QueryExpression, text: &str) {
    c.eval();
    let t = q.to_string();
    match read(&t) {
        Ok(Ok(v)) if v.len() == 1 && of_query(&v[0]) == of_query(q) => {}
        e => c.violation("shown", format!("query {:?}\nis shown as {:?}\nwhich reads as {:?}", text, t, e)),
    }
}
fn written(r: &mut Rng, c: &mut Case) {
    let mut w = Writer { r };
    let n = 1 + if w.r.chance(1, 4) { w.r.below(3) } else { 0 };
    let made: Vec<(Q, String)> = (0..n).map(|_| w.query()).collect();
    let text = made.iter().map(|q| q.1.clone()).collect::<Vec<_>>().join(";") + w.sp();
    let want: Vec<Q> = made.into_iter().map(|q| q.0).collect();
    if Reader::new(&text).queries().as_ref() != Some(&want) {
        return c.violation("self", format!("the monitor's own reader disagrees about {:?}", text));
    }
    c.eval();
    match read(&text) {
        Ok(Ok(v)) => {
            let got: Vec<Q> = v.iter().map(of_query).collect();
            if got != want {
                return c.violation("meaning", format!("query {:?}\nwas read as {:?}\nit says    {:?}", text, got, want));
            }
            for q in &v {
                shown(c, q, &text);
            }
            c.nontrivial(&text);
            c.sample(|| text.clone());
        }
        Ok(Err(e)) => c.violation("refused", format!("query {:?} was refused: {}", text, e)),
        Err(e) => c.violation("panic", format!("query {:?} panicked: {}", text, e)),
    }
    // the parts on their own
    let d = r.below(4);
    let mut w = Writer { r };
    let s = w.sys(d);
    let t = w.sys_text(&s, 0);
    c.eval();
    match guard(|| parse_to_system_expr(&t)) {
        Ok(Ok(e)) if of_sys(&e) == s => {}
        e => c.violation("system", format!("system {:?} was read as {:?}", t, e)),
    }
    let s = w.state(d);
    let t = w.state_text(&s, 0);
    c.eval();
    match guard(|| parse_to_state_expr(&t)) {
        Ok(Ok(e)) if of_state(&e) == s => {}
        e => c.violation("state", format!("state {:?} was read as {:?}", t, e)),
    }
}
fn garbled(r: &mut Rng, c: &mut Case) {
    let mut text: Vec<char> = {
        let mut w = Writer { r: &mut *r };
        let (_, t) = w.query();
        t.chars().collect()
    };
    const BITS: [&str; 32] = [
        " ", "(", ")", "[", "]", "&&", "||", "//", "\\\\", "\\", "<=", "<", "==", "=", "->", "@", ";", ":", ".", "!", "not ", "-", "+", "0", "00", "99999999999", "2147483648", "_", "and", "or", "é", "true",
    ];
    for _ in 0..1 + r.below(3) {
        let at = r.below(text.len() + 1);
        match r.below(3) {
            0 if at < text.len() => {
                text.remove(at);
            }
            1 if at < text.len() => {
                let to = (at + 1 + r.below(6)).min(text.len());
                let bit: Vec<char> = text[at..to].to_vec();
                let at = r.below(text.len() + 1);
                text.splice(at..at, bit);
            }
            _ => {
                let bit: Vec<char> = r.pick(&BITS).chars().collect();
                text.splice(at..at, bit);
            }
        }
    }
    let text: String = text.into_iter().collect();
    let want = Reader::new(&text).queries();
    c.count(if want.is_some() { "still a query" } else { "no query" });
    c.eval();
    let got = match read(&text) {
        Ok(g) => g,
        Err(e) => return c.violation("garbled panic", format!("query {:?} panicked: {}", text, e)),
    };
    match (&got, &want) {
        (Ok(v), Some(w)) => {
            if v.iter().map(of_query).collect::<Vec<_>>() != *w {
                return c.violation("garbled meaning", format!("query {:?}\nwas read as {:?}\nit says    {:?}", text, v, w));
            }
            for q in v {
                shown(c, q, &text);
            }
        }
        (Err(_), None) => c.nontrivial(&text),
        (Ok(v), None) => return c.violation("garbled accepted", format!("text {:?} was read as {:?}", text, v)),
        (Err(e), Some(_)) => return c.violation("garbled refused", format!("query {:?} was refused: {}", text, e)),
    }
    // the same text as a saved query
    c.eval();
    let json = format!("{{\"query\":{},\"comment\":\"\"}}", js(&text));
    match guard(|| serde_json::from_str::<Query>(&json)) {
        Err(e) => c.violation("saved panic", format!("saved query {:?} panicked: {}", text, e)),
        Ok(Ok(q)) => match (q.get_query(), &want) {
            (Some(q), Some(w)) if w.len() == 1 && of_query(q) == w[0] => {}
            (None, _) if text.is_empty() => {}
            (q, _) => c.violation("saved", format!("saved query {:?} was read as {:?}", text, q)),
        },
        Ok(Err(_)) => {
            if want.map_or(false, |w| w.len() == 1) {
                c.violation("saved refused", format!("saved query {:?} was refused", text))
            }
        }
    }
    for (what, ours, real) in [
        ("system", Reader::new(&text).whole(|r| r.sys(0)).map(|e| format!("{:?}", e)), guard(|| parse_to_system_expr(&text).ok().map(|e| format!("{:?}", of_sys(&e))))),
        ("state", Reader::new(&text).whole(|r| r.state()).map(|e| format!("{:?}", e)), guard(|| parse_to_state_expr(&text).ok().map(|e| format!("{:?}", of_state(&e))))),
    ] {
        c.eval();
        if real != Ok(ours.clone()) {
            c.violation(format!("garbled {}", what), format!("{} {:?} was read as {:?}, it says {:?}", what, text, real, ours));
        }
    }
}
impl Reader<'_> {
    fn whole<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        let e = f(self)?;
        self.end().map(|_| e)
    }
}
/// States that say something the system does not have
fn unfit(r: &mut Rng, c: &mut Case) {
    let p = Params { clocks: (0, 2), inv: 0, ..Params::small() };
    let comps = vec![gen(r, "A", &["i"], &["o"], &p), gen(r, "B", &["i"], &["p"], &p), gen(r, "Z", &["i"], &["q"], &p)];
    let two = r.chance(1, 2);
    let sys = if two { "A || B" } else { "A" };
    let fine = |r: &mut Rng, full: bool| {
        let mut v = vec![];
        if full || r.chance(1, 2) {
            v.push("A.L0".to_string());
        }
        if two && (full || r.chance(1, 2)) {
            v.push("B.L0".to_string());
        }
        if !comps[0].clocks.is_empty() && r.chance(1, 2) {
            v.push(format!("A.x{}{}", *r.pick(&CMP), r.below(4)));
        }
        if v.is_empty() {
            v.push("true".into())
        }
        v
    };
    let other = comps[0].locs.len() > 1;
    let clock = !comps[0].clocks.is_empty();
    let mut wrong: Vec<(&str, String)> = vec![
        ("location of an unknown component", "Z.L0".into()),
        ("clock of an unknown component", "Z.x<3".into()),
        ("unknown location", "A.Nowhere".into()),
        ("unknown clock", "A.nothing>=1".into()),
        ("unknown instance", "A[1].L0".into()),
        ("disjunction of locations", if two { "(A.L0 || B.L0)".into() } else { "(A.L0 || A.L0)".into() }),
    ];
    if other {
        wrong.push(("two locations of one component", "A.L0 && A.L1".into()));
    }
    if clock {
        wrong.push(("disjunction with a location", "(A.L0 || A.x<2)".into()));
        wrong.push(("unknown clock in an operand", "A.x-A.no<2".into()));
        // wherever in the state the location is
        let part = r.pick(&["A.L0", "(A.L0 && A.x<4)", "(A.x<4 && A.L0)", "(A.x<1 || A.L0)", "!(A.L0)", "!(A.x>1 && A.L0)"]).to_string();
        let mut parts = vec![part];
        for _ in 0..1 + r.below(3) {
            let at = r.below(parts.len() + 1);
            parts.insert(at, format!("A.x{}{}", *r.pick(&CMP), r.below(4)));
        }
        wrong.push(("location within a disjunction", format!("({})", parts.join(" || "))));
        wrong.push(("negated location", r.pick(&["!A.L0", "!(A.x<2 && A.L0)", "!(A.L0 && A.x<2)", "!!A.L0", "!(A.x>1 || A.L0)"]).to_string()));
    }
    let (what, bad) = r.pick(&wrong).clone();
    let (what, sys, from, to) = if r.chance(1, 8) {
        ("indistinguishable components", "A && A", "init".to_string(), "A.L0".to_string())
    } else if r.chance(1, 8) {
        ("incomplete start", "A || B", "A.L0".to_string(), "true".to_string())
    } else if r.chance(1, 2) {
        let mut v = fine(r, true);
        if what == "two locations of one component" {
            v.retain(|t| t != "A.L0");
        }
        v.insert(r.below(v.len() + 1), bad);
        (what, sys, v.join(" && "), fine(r, false).join(" && "))
    } else {
        let mut v = fine(r, false);
        if what == "two locations of one component" {
            v.retain(|t| t != "A.L0");
        }
        v.insert(r.below(v.len() + 1), bad);
        (what, sys, if r.chance(1, 2) { "init".into() } else { fine(r, true).join(" && ") }, v.join(" && "))
    };
    let text = format!("reachability: {} @ {} -> {}", sys, from, to);
    let mut l = match Loader::new(&comps, false) {
        Ok(l) => l,
        Err(e) => return c.violation("load", e),
    };
    c.eval();
    c.count(what);
    c.nontrivial(&text);
    match guard(|| verdict(&l.run(&text))) {
        Ok(v) if v == "error" => {}
        g => c.violation("unfit", format!("{}: {}\nwas answered {:?}\n{}", what, text, g, comps[0].brief())),
    }
}
pub fn queries(run: &'static Run) {
    run.cases("written", (40_000, 15), (4_000_000, 600), |r, c| written(r, c));
    run.cases("garbled", (60_000, 15), (6_000_000, 600), |r, c| garbled(r, c));
    run.cases("unfit states", (4_000, 20), (200_000, 300), |r, c| unfit(r, c));
}

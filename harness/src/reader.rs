//! A reader of its own for guards and updates, from the grammar's documentation: what text is
//! well formed, and what it means by ordinary arithmetic and logic.
#[derive(Clone, Debug)]
pub enum E {
    Int(Option<i128>),
    Name(String),
    Bin(char, Box<E>, Box<E>),
}
#[derive(Clone, Debug)]
pub enum B {
    Bool(bool),
    Cmp(E, &'static str, E),
    And(Box<B>, Box<B>),
    Or(Box<B>, Box<B>),
}
struct In<'a> {
    s: &'a [u8],
    i: usize,
}
impl<'a> In<'a> {
    fn space(&mut self) {
        while self.i < self.s.len() {
            match self.s[self.i] {
                b' ' | b'\n' | b'\t' => self.i += 1,
                b'\r' if self.s.get(self.i + 1) == Some(&b'\n') => self.i += 2,
                _ => break,
            }
        }
    }
    fn eat(&mut self, t: &str) -> bool {
        let there = self.s[self.i..].starts_with(t.as_bytes());
        if there {
            self.i += t.len();
        }
        there
    }
    fn term(&mut self) -> Option<E> {
        let at = self.i;
        if self.eat("(") {
            self.space();
            if let Some(e) = self.sum() {
                self.space();
                if self.eat(")") {
                    return Some(e);
                }
            }
            self.i = at;
            return None;
        }
        let c = *self.s.get(self.i)?;
        let from = self.i;
        if c == b'0' {
            self.i += 1;
        } else if c.is_ascii_digit() {
            while self.s.get(self.i).map_or(false, |c| c.is_ascii_digit()) {
                self.i += 1;
            }
        } else if c.is_ascii_alphabetic() {
            while self.s.get(self.i).map_or(false, |c| c.is_ascii_alphanumeric() || *c == b'_') {
                self.i += 1;
            }
            return Some(E::Name(String::from_utf8_lossy(&self.s[from..self.i]).into()));
        } else {
            return None;
        }
        Some(E::Int(std::str::from_utf8(&self.s[from..self.i]).unwrap().parse().ok()))
    }
    /// Terms and the operators between them, then products before sums, from the left
    fn sum(&mut self) -> Option<E> {
        let mut terms = vec![self.term()?];
        let mut ops = vec![];
        loop {
            let at = self.i;
            self.space();
            let op = match self.s.get(self.i) {
                Some(c) if b"+-*/%".contains(c) => *c as char,
                _ => {
                    self.i = at;
                    break;
                }
            };
            self.i += 1;
            self.space();
            match self.term() {
                Some(t) => {
                    terms.push(t);
                    ops.push(op);
                }
                None => {
                    self.i = at;
                    break;
                }
            }
        }
        let mut it = terms.into_iter();
        let mut product = it.next().unwrap();
        let mut total: Option<(E, char)> = None;
        for (op, t) in ops.into_iter().zip(it) {
            if op == '+' || op == '-' {
                product = match total.take() {
                    Some((l, o)) => E::Bin(o, Box::new(l), Box::new(product)),
                    None => product,
                };
                total = Some((product, op));
                product = t;
            } else {
                product = E::Bin(op, Box::new(product), Box::new(t));
            }
        }
        Some(match total {
            Some((l, o)) => E::Bin(o, Box::new(l), Box::new(product)),
            None => product,
        })
    }
    fn comparison(&mut self) -> Option<B> {
        let at = self.i;
        let got = (|| {
            let l = self.sum()?;
            self.space();
            let op = *[">=", "<=", "==", "<", ">"].iter().find(|o| self.eat(o))?;
            self.space();
            Some(B::Cmp(l, op, self.sum()?))
        })();
        if got.is_none() {
            self.i = at;
        }
        got
    }
    fn unit(&mut self) -> Option<B> {
        if let Some(c) = self.comparison() {
            return Some(c);
        }
        if self.eat("true") {
            return Some(B::Bool(true));
        }
        if self.eat("false") {
            return Some(B::Bool(false));
        }
        let at = self.i;
        if self.eat("(") {
            self.space();
            if let Some(b) = self.logic() {
                self.space();
                if self.eat(")") {
                    return Some(b);
                }
            }
        }
        self.i = at;
        None
    }
    fn logic(&mut self) -> Option<B> {
        let mut alternatives = vec![];
        let mut all = self.unit()?;
        loop {
            let at = self.i;
            self.space();
            let and = self.eat("&&");
            if and || self.eat("||") {
                self.space();
                if let Some(u) = self.unit() {
                    if and {
                        all = B::And(Box::new(all), Box::new(u));
                    } else {
                        alternatives.push(all);
                        all = u;
                    }
                    continue;
                }
            }
            self.i = at;
            break;
        }
        alternatives.push(all);
        let mut it = alternatives.into_iter();
        let first = it.next().unwrap();
        Some(it.fold(first, |l, r| B::Or(Box::new(l), Box::new(r))))
    }
    fn end(&mut self) -> Option<()> {
        self.space();
        if self.i == self.s.len() {
            Some(())
        } else {
            None
        }
    }
}
/// What a guard or invariant says; `None` when it is not well formed
pub fn guard(text: &str) -> Option<B> {
    let mut s = In { s: text.as_bytes(), i: 0 };
    s.space();
    let b = s.logic().unwrap_or(B::Bool(true));
    s.space();
    s.eat(";");
    s.end()?;
    Some(b)
}
/// What an update says; `None` when it is not well formed
pub fn updates(text: &str) -> Option<Vec<(String, E)>> {
    let mut s = In { s: text.as_bytes(), i: 0 };
    let mut v = vec![];
    loop {
        s.space();
        let at = s.i;
        let one = (|| {
            let name = match s.term()? {
                E::Name(n) if s.s[at] != b'(' => n,
                _ => return None,
            };
            s.space();
            if !s.eat("=") && !s.eat(":=") {
                return None;
            }
            s.space();
            Some((name, s.sum()?))
        })();
        match one {
            Some(a) => v.push(a),
            None => {
                s.i = at;
                break;
            }
        }
        s.space();
        if !s.eat(",") {
            break;
        }
    }
    s.end()?;
    Some(v)
}
/// A number as a fraction
pub type Q = (i128, i128);
impl E {
    /// Its value; `None` where it has none, is out of reach, or depends on how one rounds
    pub fn value(&self, at: &dyn Fn(&str) -> Option<Q>) -> Option<Q> {
        match self {
            E::Int(k) => k.filter(|k| *k <= i32::MAX as i128).map(|k| (k, 1)),
            E::Name(n) => at(n),
            E::Bin(op, l, r) => {
                let ((a, b), (c, d)) = (l.value(at)?, r.value(at)?);
                let q = match op {
                    '+' => (a * d + c * b, b * d),
                    '-' => (a * d - c * b, b * d),
                    '*' => (a * c, b * d),
                    _ => {
                        if b != 1 || d != 1 || a < 0 || c <= 0 {
                            return None;
                        }
                        (if *op == '/' { a / c } else { a % c }, 1)
                    }
                };
                let limit = i32::MAX as i128 * 1000;
                if q.0.abs() > limit || q.1 > 1_000_000 {
                    return None;
                }
                Some(q)
            }
        }
    }
    pub fn names<'a>(&'a self, v: &mut Vec<&'a str>) {
        match self {
            E::Name(n) => v.push(n),
            E::Bin(_, l, r) => {
                l.names(v);
                r.names(v);
            }
            _ => {}
        }
    }
    /// Divides a constant by zero
    pub fn by_zero(&self) -> bool {
        match self {
            E::Bin(op, l, r) => ("/%".contains(*op) && r.value(&|_| None).map_or(false, |q| q.0 == 0)) || l.by_zero() || r.by_zero(),
            _ => false,
        }
    }
    /// A sum: how often each name counts, and what is left; products only of constants
    pub fn linear(&self) -> Option<(Vec<(String, i128)>, i128)> {
        match self {
            E::Name(n) => Some((vec![(n.clone(), 1)], 0)),
            E::Bin(op @ ('+' | '-'), l, r) => {
                let sign = if *op == '+' { 1 } else { -1 };
                let (mut v, k) = l.linear()?;
                let (w, m) = r.linear()?;
                for (n, c) in w {
                    match v.iter_mut().find(|x| x.0 == n) {
                        Some(x) => x.1 += sign * c,
                        None => v.push((n, sign * c)),
                    }
                }
                let k = k + sign * m;
                (k.abs() < 1_000_000_000).then_some((v, k))
            }
            _ => {
                let q = self.value(&|_| None)?;
                (q.0.abs() < 1_000_000_000).then_some((vec![], q.0))
            }
        }
    }
}
impl B {
    /// Whether it holds; `None` where some comparison has no value
    pub fn holds(&self, at: &dyn Fn(&str) -> Option<Q>) -> Option<bool> {
        Some(match self {
            B::Bool(b) => *b,
            B::And(l, r) => match (l.holds(at), r.holds(at)) {
                (Some(false), _) | (_, Some(false)) => false,
                (a, b) => a? && b?,
            },
            B::Or(l, r) => match (l.holds(at), r.holds(at)) {
                (Some(true), _) | (_, Some(true)) => true,
                (a, b) => a? || b?,
            },
            B::Cmp(l, op, r) => {
                let ((a, b), (c, d)) = (l.value(at)?, r.value(at)?);
                let (x, y) = (a * d, c * b);
                match *op {
                    "<" => x < y,
                    "<=" => x <= y,
                    "==" => x == y,
                    ">=" => x >= y,
                    _ => x > y,
                }
            }
        })
    }
    pub fn comparisons<'a>(&'a self, v: &mut Vec<(&'a E, &'a E)>) {
        match self {
            B::Bool(_) => {}
            B::And(l, r) | B::Or(l, r) => {
                l.comparisons(v);
                r.comparisons(v);
            }
            B::Cmp(l, _, r) => v.push((l, r)),
        }
    }
}

//! The same constraint in other words: text that means the same by ordinary arithmetic and
//! logic, with the spacing, parentheses and operators a modeller may use.
use crate::model::{Op, G};
use common::Rng;

/// What `{}` stands for between two symbols
fn gap(r: &mut Rng) -> &'static str {
    match r.below(10) {
        0 | 1 => " ",
        2 => "  ",
        3 => "\t",
        4 if r.chance(1, 3) => "\n",
        _ => "",
    }
}
/// Text of a number and how tightly it binds: 0 sums, 1 products, 2 alone
pub fn number(r: &mut Rng, k: i32, depth: usize) -> (String, u8) {
    let k64 = k as i64;
    if depth == 0 || r.chance(1, 3) {
        if k >= 0 {
            return (k.to_string(), 2);
        }
        let a = r.range(0, 4) as i32;
        return (format!("{}{}-{}{}", a, gap(r), gap(r), a - k), 0);
    }
    match r.below(6) {
        0 | 1 => {
            let a = r.range(-3, k64.abs() + 4) as i32;
            let (x, y) = (number(r, a, depth - 1), number(r, k - a, depth - 1));
            join(r, x, "+", y)
        }
        2 | 3 => {
            let a = r.range(-3, k64.abs() + 4) as i32;
            let (x, y) = (number(r, k + a, depth - 1), number(r, a, depth - 1));
            join(r, x, "-", y)
        }
        4 if k >= 0 => {
            let d = r.range(1, 4) as i32;
            if k % d == 0 && r.chance(1, 2) {
                let (x, y) = (number(r, k / d, depth - 1), number(r, d, depth - 1));
                return join(r, x, "*", y);
            }
            let rest = r.range(0, d as i64 - 1) as i32;
            let (x, y) = (number(r, k * d + rest, depth - 1), number(r, d, depth - 1));
            join(r, x, "/", y)
        }
        _ if k >= 0 => {
            let d = k + 1 + r.range(0, 3) as i32;
            let m = r.range(0, 2) as i32;
            let (x, y) = (number(r, k + d * m, depth - 1), number(r, d, depth - 1));
            join(r, x, "%", y)
        }
        _ => number(r, k, 0),
    }
}
fn join(r: &mut Rng, x: (String, u8), op: &str, y: (String, u8)) -> (String, u8) {
    let level = if op == "+" || op == "-" { 0 } else { 1 };
    // the left operand may bind as tightly, the right one must bind tighter
    let l = paren(r, x.0, x.1 < level);
    let right = paren(r, y.0, y.1 <= level);
    (format!("{}{}{}{}{}", l, gap(r), op, gap(r), right), level)
}
fn paren(r: &mut Rng, s: String, must: bool) -> String {
    if must || r.chance(1, 10) {
        format!("({}{}{})", gap(r), s, gap(r))
    } else {
        s
    }
}
/// Text of `sum of clocks + k`; every clock counts once, for or against
pub fn sum(r: &mut Rng, terms: &[(String, bool)], k: i32, depth: usize) -> (String, u8) {
    if terms.is_empty() {
        return number(r, k, depth);
    }
    if terms.len() == 1 && terms[0].1 && k == 0 && (depth == 0 || r.chance(1, 2)) {
        return (terms[0].0.clone(), 2);
    }
    let minus = |t: &[(String, bool)]| -> Vec<(String, bool)> { t.iter().map(|(n, p)| (n.clone(), !p)).collect() };
    let down = depth.saturating_sub(1);
    // what goes left, what goes right
    let mut left = vec![];
    let mut right = vec![];
    if depth == 0 {
        // the plain order: what counts for it, the constant, what counts against
        if let Some(i) = terms.iter().position(|t| !t.1) {
            right.push(terms[i].clone());
            left.extend(terms.iter().enumerate().filter(|(j, _)| *j != i).map(|t| t.1.clone()));
            let (x, y) = (sum(r, &left, k, 0), sum(r, &minus(&right), 0, 0));
            return join(r, x, "-", y);
        }
        if k == 0 {
            right.push(terms[0].clone());
            left.extend(terms[1..].iter().cloned());
            let (x, y) = (sum(r, &left, 0, 0), sum(r, &right, 0, 0));
            return join(r, x, "+", y);
        }
        let (x, y) = (sum(r, terms, 0, 0), number(r, k.abs(), 0));
        return join(r, x, if k < 0 { "-" } else { "+" }, y);
    }
    for t in terms {
        if r.chance(1, 2) {
            left.push(t.clone())
        } else {
            right.push(t.clone())
        }
    }
    let a = r.range(-3, k.abs() as i64 + 3) as i32;
    if r.chance(1, 2) {
        let (x, y) = (sum(r, &left, a, down), sum(r, &right, k - a, down));
        join(r, x, "+", y)
    } else {
        let (x, y) = (sum(r, &left, a, down), sum(r, &minus(&right), a - k, down));
        join(r, x, "-", y)
    }
}
fn flip(o: Op) -> Op {
    match o {
        Op::Lt => Op::Gt,
        Op::Le => Op::Ge,
        Op::Eq => Op::Eq,
        Op::Ge => Op::Le,
        Op::Gt => Op::Lt,
    }
}
/// `sum of clocks op c`
fn comparison(r: &mut Rng, terms: &[(String, bool)], o: Op, c: i32) -> String {
    let mut left = vec![];
    let mut right = vec![];
    for (n, p) in terms {
        // a clock on the other side counts the other way
        if r.chance(2, 3) {
            left.push((n.clone(), *p))
        } else {
            right.push((n.clone(), !*p))
        }
    }
    let k = if r.chance(1, 2) { 0 } else { r.range(-4, 9) as i32 };
    let depth = r.below(3);
    let (mut a, mut b) = (sum(r, &left, k, depth).0, sum(r, &right, c + k, depth).0);
    let mut o = o;
    if r.chance(1, 3) {
        std::mem::swap(&mut a, &mut b);
        o = flip(o);
    }
    // a comparison may not start with a whole side in parentheses and nothing else
    format!("{}{}{}{}{}", a, gap(r), o.text(), gap(r), b)
}
/// The constraint in other words and how tightly it binds: 0 ||, 1 &&, 2 alone
fn bool_text(r: &mut Rng, g: &G, clocks: &[String]) -> (String, u8) {
    let t = match g {
        G::True => match r.below(3) {
            0 => ("true".into(), 2),
            1 => (comparison(r, &[], Op::Le, r_const(5)), 2),
            _ => (comparison(r, &[], Op::Eq, 0), 2),
        },
        G::False => match r.below(3) {
            0 => ("false".into(), 2),
            1 => (comparison(r, &[], Op::Gt, r_const(1)), 2),
            _ => (comparison(r, &[], Op::Lt, 0), 2),
        },
        G::Cmp(x, o, c) => (comparison(r, &[(clocks[*x].clone(), true)], *o, *c), 2),
        G::Diff(x, y, o, c) => (comparison(r, &[(clocks[*x].clone(), true), (clocks[*y].clone(), false)], *o, *c), 2),
        G::And(v) if v.is_empty() => return bool_text(r, &G::True, clocks),
        G::Or(v) if v.is_empty() => return bool_text(r, &G::False, clocks),
        G::And(v) | G::Or(v) if v.len() == 1 => bool_text(r, &v[0], clocks),
        G::And(v) | G::Or(v) => {
            let and = matches!(g, G::And(_));
            let cut = 1 + r.below(v.len() - 1);
            let part = |w: &[G]| if and { G::And(w.to_vec()) } else { G::Or(w.to_vec()) };
            let (a, b) = (bool_text(r, &part(&v[..cut]), clocks), bool_text(r, &part(&v[cut..]), clocks));
            let level = if and { 1 } else { 0 };
            let (a, b) = (paren(r, a.0, a.1 < level), paren(r, b.0, b.1 < level));
            (format!("{}{}{}{}{}", a, gap(r), if and { "&&" } else { "||" }, gap(r), b), level)
        }
    };
    // padding that changes nothing
    if r.chance(1, 16) {
        let a = paren(r, t.0, t.1 < 1);
        return if r.chance(1, 2) { (format!("true{}&&{}{}", gap(r), gap(r), a), 1) } else { (format!("{}{}&&{}true", a, gap(r), gap(r)), 1) };
    }
    if r.chance(1, 16) {
        return if r.chance(1, 2) { (format!("false{}||{}{}", gap(r), gap(r), t.0), 0) } else { (format!("{}{}||{}{}<{}", t.0, gap(r), gap(r), 7, 3), 0) };
    }
    t
}
fn r_const(k: i32) -> i32 {
    k
}
pub fn constraint(r: &mut Rng, g: &G, clocks: &[String]) -> String {
    let t = bool_text(r, g, clocks).0;
    let end = if r.chance(1, 5) { ";" } else { "" };
    format!("{}{}{}{}", gap(r), t, gap(r), end)
}
pub fn updates(r: &mut Rng, u: &[(usize, i32)], clocks: &[String]) -> String {
    let v: Vec<String> = u
        .iter()
        .map(|(x, c)| {
            let d = r.below(3);
            format!("{}{}{}{}{}{}", gap(r), clocks[*x], gap(r), if r.chance(1, 2) { "=" } else { ":=" }, gap(r), number(r, *c, d).0)
        })
        .collect();
    let end = if !v.is_empty() && r.chance(1, 6) { "," } else { "" };
    format!("{}{}{}", v.join(","), end, gap(r))
}
pub fn declarations(r: &mut Rng, clocks: &[String]) -> String {
    if clocks.is_empty() {
        return (*r.pick(&["", " ", "// no clocks here", "int n;"])).into();
    }
    let pad = |r: &mut Rng| *r.pick(&["", "", "", " ", "\t"]);
    let mut s = String::new();
    if r.chance(1, 6) {
        s += "// clock unused;\n";
    }
    let mut i = 0;
    while i < clocks.len() {
        let n = 1 + r.below(clocks.len() - i);
        let sep = *r.pick(&[",", ", ", " , ", " ,"]);
        s += &format!("{}clock{}{}{};{}", pad(r), r.pick(&[" ", "  ", " "]), clocks[i..i + n].join(sep), pad(r), r.pick(&["", " ", "\n", "\r\n", "\n\n", " // clocks\n"]));
        i += n;
    }
    if r.chance(1, 6) {
        s += "\nint n;";
    }
    s
}

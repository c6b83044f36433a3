//! What guards, invariants, updates and declarations say.
use crate::model::*;
use crate::p_reach;
use crate::p_trans::operators;
use crate::reader::{self, E};
use crate::sem::DEN;
use crate::sysio::zone_contains;
use crate::text;
use common::{guard as caught, js, Case, Rng, Run};
use edbm::zones::OwnedFederation;
use reveaal::DataReader::json_reader::json_to_component;
use reveaal::DataReader::parse_edge::{parse_guard, parse_updates};
use reveaal::EdgeEval::constraint_applyer::apply_constraints_to_state;
use reveaal::ModelObjects::Expressions::BoolExpression;
use reveaal::ModelObjects::Declarations;

fn tree(r: &mut Rng, n: usize, max: i32, depth: usize) -> G {
    if depth > 0 && r.chance(2, 3) {
        let v = (0..2 + r.below(2)).map(|_| tree(r, n, max, depth - 1)).collect();
        return if r.chance(1, 2) { G::And(v) } else { G::Or(v) };
    }
    if r.chance(1, 14) {
        return if r.chance(1, 2) { G::True } else { G::False };
    }
    let op = *r.pick(&[Op::Lt, Op::Le, Op::Eq, Op::Ge, Op::Gt]);
    if n > 1 && r.chance(1, 4) {
        let x = r.below(n);
        let y = (x + 1 + r.below(n - 1)) % n;
        return G::Diff(x, y, op, r.range(-(max as i64), max as i64) as i32);
    }
    G::Cmp(r.below(n), op, r.range(0, max as i64) as i32)
}
fn holds(g: &G, v: &[i64]) -> bool {
    match g {
        G::True => true,
        G::False => false,
        G::Cmp(x, o, k) => o.holds(v[*x + 1], *k as i64 * DEN),
        G::Diff(x, y, o, k) => o.holds(v[*x + 1] - v[*y + 1], *k as i64 * DEN),
        G::And(w) => w.iter().all(|g| holds(g, v)),
        G::Or(w) => w.iter().any(|g| holds(g, v)),
    }
}
/// The valuations the real code takes the expression to mean, from everything
fn meant(e: &BoolExpression, d: &Declarations, n: usize) -> Result<OwnedFederation, String> {
    caught(|| apply_constraints_to_state(e, d, OwnedFederation::universe(n + 1)))?
}
fn clocks(r: &mut Rng, n: usize) -> Vec<String> {
    let pool = ["x", "y", "z", "t", "xy", "x_1", "true_time", "X", "n1", "falsey", "clock_a"];
    let mut v: Vec<usize> = (0..pool.len()).collect();
    r.shuffle(&mut v);
    v[..n].iter().map(|i| pool[*i].to_string()).collect()
}
fn constraints(r: &mut Rng, c: &mut Case) {
    let n = 1 + r.below(3);
    let max = *r.pick(&[3, 3, 9, 60, 5000]);
    let names = clocks(r, n);
    let depth = r.below(3);
    let g = tree(r, n, max, depth);
    let text = text::constraint(r, &g, &names);
    let say = |e: String| format!("{}\nclocks {:?}\ntext {:?}", e, names, text);
    let decl_text = text::declarations(r, &names);
    let json = format!(
        "{{\"name\":\"A\",\"declarations\":{},\"locations\":[{{\"id\":\"L0\",\"nickname\":\"\",\"invariant\":{},\"type\":\"INITIAL\",\"urgency\":\"NORMAL\",\"x\":0.0,\"y\":0.0,\"color\":\"7\",\"nicknameX\":0.0,\"nicknameY\":0.0,\"invariantX\":0.0,\"invariantY\":0.0}}],\"edges\":[{{\"id\":\"E0\",\"group\":\"\",\"sourceLocation\":\"L0\",\"targetLocation\":\"L0\",\"status\":\"OUTPUT\",\"select\":\"\",\"guard\":{},\"update\":\"\",\"sync\":\"o\",\"isLocked\":false,\"nails\":[]}}],\"description\":\"\",\"x\":0.0,\"y\":0.0,\"width\":0.0,\"height\":0.0,\"color\":\"7\",\"includeInPeriodicCheck\":false}}",
        js(&decl_text),
        js(&text),
        js(&text)
    );
    let comp = match caught(|| json_to_component(&json)) {
        Ok(Ok(k)) => k,
        Ok(Err(e)) => return c.violation("refused", say(format!("a well formed component is refused: {}\ndeclarations {:?}", e, decl_text))),
        Err(e) => return c.violation("panic: read", say(format!("reading a well formed component panicked: {}\ndeclarations {:?}", e, decl_text))),
    };
    let d = &comp.declarations;
    c.eval();
    let mut index: Vec<usize> = names.iter().map(|n| d.clocks.get(n).copied().unwrap_or(0)).collect();
    let order = index.clone();
    index.sort();
    if d.clocks.len() != n || index != (1..=n).collect::<Vec<_>>() {
        return c.violation("declarations", say(format!("declarations {:?} were read as {:?}", decl_text, d.clocks)));
    }
    let guard_read = comp.edges[0].guard.clone().unwrap_or(BoolExpression::Bool(true));
    let inv_read = comp.locations[0].invariant.clone().unwrap_or(BoolExpression::Bool(true));
    let mut forms = vec![("the guard".to_string(), guard_read.clone()), ("the invariant".to_string(), inv_read)];
    match caught(|| parse_guard(&text)) {
        Ok(Ok(e)) => forms.push(("the text alone".into(), e)),
        e => return c.violation("parse", say(format!("the text was not read: {:?}", e))),
    }
    // written and read again
    let written = guard_read.encode_expr();
    match caught(|| parse_guard(&written)) {
        Ok(Ok(e)) => forms.push((format!("written back as {:?}", written), e)),
        e => return c.violation("reread", say(format!("{:?} was written and could not be read again: {:?}", written, e))),
    }
    // saved the way a combined component saves its zones
    match meant(&guard_read, d, n) {
        Err(e) => return c.violation("apply", say(format!("the constraint was not applied: {}", e))),
        Ok(f) => {
            let saved = caught(|| BoolExpression::from_disjunction(&f.minimal_constraints(), &d.clocks));
            match saved {
                Ok(s) => {
                    let s = s.map(|s| s.encode_expr()).unwrap_or_default();
                    match caught(|| parse_guard(&s)) {
                        Ok(Ok(e)) => forms.push((format!("saved as {:?}", s), e)),
                        e => return c.violation("reread zone", say(format!("{:?} was saved and could not be read again: {:?}", s, e))),
                    }
                }
                Err(e) => return c.violation("panic: save", say(format!("saving the zone panicked: {}", e))),
            }
        }
    }
    let mut ks: Vec<i64> = vec![0];
    collect(&g, &mut ks);
    let (mut yes, mut no) = (0, 0);
    let pts: Vec<Vec<i64>> = (0..24)
        .map(|_| {
            let mut v = vec![0i64];
            for _ in 0..n {
                let k = *r.pick(&ks) + if r.chance(1, 3) { *r.pick(&ks) } else { 0 } + r.range(-1, 1);
                v.push((k * DEN + *r.pick(&[0i64, 0, 0, 4, 6, 9])).max(0));
            }
            v
        })
        .collect();
    for (what, e) in &forms {
        let f = match meant(e, d, n) {
            Ok(f) => f,
            Err(m) => return c.violation("apply", say(format!("{} was not applied: {}", what, m))),
        };
        for p in &pts {
            let want = holds(&g, p);
            let mut v = vec![0i64; n + 1];
            for (i, k) in order.iter().enumerate() {
                v[*k] = p[i + 1];
            }
            c.eval();
            if zone_contains(&f, &v) != want {
                return c.violation(
                    format!("meaning of {}", what.split_whitespace().next().unwrap()),
                    say(format!("at {:?}/12 the constraint is {}, {} takes it to be {} (read as {})", &p[1..], want, what, !want, e)),
                );
            }
            if want {
                yes += 1
            } else {
                no += 1
            }
        }
    }
    if yes > 0 && no > 0 {
        c.nontrivial(&text);
        c.sample(|| say(String::new()));
    }
}
fn collect(g: &G, ks: &mut Vec<i64>) {
    match g {
        G::Cmp(_, _, k) | G::Diff(_, _, _, k) => ks.push(k.abs() as i64),
        G::And(v) | G::Or(v) => v.iter().for_each(|g| collect(g, ks)),
        _ => {}
    }
}
fn assignments(r: &mut Rng, c: &mut Case) {
    let n = 1 + r.below(3);
    let names = clocks(r, n);
    let mut upd: Vec<(usize, i32)> = vec![];
    for _ in 0..r.below(4) {
        upd.push((r.below(n), r.range(0, 30) as i32));
    }
    let text = text::updates(r, &upd, &names);
    let say = |e: String| format!("{}\nclocks {:?}\nupdate {:?}", e, names, text);
    let d = Declarations { ints: Default::default(), clocks: names.iter().enumerate().map(|(i, n)| (n.clone(), i + 1)).collect() };
    let read = match caught(|| parse_updates(&text)) {
        Ok(Ok(u)) => u,
        e => return c.violation("update", say(format!("the update was not read: {:?}", e))),
    };
    let start: Vec<i32> = (0..n).map(|_| r.range(0, 40) as i32).collect();
    let mut want = start.clone();
    for (x, k) in &upd {
        want[*x] = *k;
    }
    let got = caught(|| {
        let mut f = OwnedFederation::universe(n + 1);
        for (i, v) in start.iter().enumerate() {
            f = f.constrain_eq(i + 1, *v);
        }
        for u in &read {
            f = u.compiled(&d).apply(f);
        }
        f
    });
    let f = match got {
        Ok(f) => f,
        Err(e) => return c.violation("panic: update", say(format!("the update panicked: {}", e))),
    };
    c.eval();
    let at = |v: &[i32]| -> Vec<i64> { std::iter::once(0).chain(v.iter().map(|x| *x as i64 * DEN)).collect() };
    if !zone_contains(&f, &at(&want)) {
        return c.violation("update", say(format!("from {:?} the update leads to {:?}, the code says {}", start, want, f.minimal_constraints().conjunctions.len())));
    }
    for i in 0..n {
        for k in [-1, 1] {
            let mut o = want.clone();
            o[i] += k;
            c.eval();
            if o[i] >= 0 && zone_contains(&f, &at(&o)) {
                return c.violation("update", say(format!("from {:?} the update leads to {:?}, the code also allows {:?}", start, want, o)));
            }
        }
    }
    if want != start {
        c.nontrivial(&text);
    }
}
/// The text with a few symbols dropped, doubled, swapped or put in
fn disturbed(r: &mut Rng, text: &str, names: &[String]) -> String {
    let mut t: Vec<String> = vec![];
    for ch in text.chars() {
        let word = |c: char| c.is_ascii_alphanumeric() || c == '_';
        let joins = t.last().map_or(false, |l: &String| {
            let last = l.chars().last().unwrap();
            (word(last) && word(ch)) || (l.len() == 1 && "<>=:&|".contains(last) && "=&|".contains(ch))
        });
        if joins {
            t.last_mut().unwrap().push(ch)
        } else {
            t.push(ch.to_string())
        }
    }
    let pool = [
        "q", "w1", "true", "false", "0", "1", "2", "3", "7", "12", "007", "2147483647", "2147483648", "99999999999", "+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "=",
        ":=", "!=", "!", "&&", "&", "||", "|", "and", "(", ")", "()", ";", ",", "'", "1.5", "\r", "\r\n", "é", "_", "x_", "0x1", "--", "~", "\u{a0}", "//", "{", "-1",
    ];
    let any = |r: &mut Rng| if r.chance(1, 4) { r.pick(names).clone() } else { r.pick(&pool).to_string() };
    for _ in 0..1 + r.below(3) {
        if t.is_empty() {
            t.push(any(r));
            continue;
        }
        let i = r.below(t.len());
        match r.below(6) {
            0 => {
                t.remove(i);
            }
            1 => t.insert(i, t[i].clone()),
            2 if i + 1 < t.len() => t.swap(i, i + 1),
            3 => t[i] = any(r),
            4 => {
                let j = r.below(t.len() + 1);
                t.insert(j, any(r))
            }
            _ => {
                // put together what was apart, or the other way around
                let gap = if r.chance(1, 2) { " " } else { "" };
                t.insert(i, gap.to_string());
            }
        }
    }
    t.concat()
}
/// Arithmetic that need not come down to one clock
fn loose(r: &mut Rng, names: &[String], depth: usize) -> String {
    if depth == 0 || r.chance(1, 4) {
        return match r.below(5) {
            0 | 1 => r.pick(names).clone(),
            2 if r.chance(1, 6) => r.pick(&["q", "true", "w1"]).to_string(),
            _ => r.range(0, 9).to_string(),
        };
    }
    let op = *r.pick(&["+", "-", "+", "-", "*", "/", "%"]);
    let (a, b) = (loose(r, names, depth - 1), loose(r, names, depth - 1));
    let side = |r: &mut Rng, s: String| if r.chance(1, 3) { format!("({})", s) } else { s };
    format!("{}{}{}", side(r, a), op, side(r, b))
}
fn odd_constraint(r: &mut Rng, names: &[String]) -> String {
    if r.chance(1, 2) {
        let mut s = String::new();
        for i in 0..1 + r.below(3) {
            if i > 0 {
                s += *r.pick(&["&&", "||", " && ", " || "]);
            }
            let (a, b) = (r.below(3), r.below(3));
            s += &format!("{}{}{}", loose(r, names, a), r.pick(&["<", "<=", "==", ">=", ">"]), loose(r, names, b));
        }
        return s;
    }
    let depth = r.below(3);
    let g = tree(r, names.len(), 9, depth);
    let text = text::constraint(r, &g, names);
    disturbed(r, &text, names)
}
fn odd_texts(r: &mut Rng, c: &mut Case) {
    let n = 1 + r.below(3);
    let names = clocks(r, n);
    let text = odd_constraint(r, &names);
    let say = |e: String| format!("{}\nclocks {:?}\ntext {:?}", e, names, text);
    let mut d = Declarations { ints: Default::default(), clocks: names.iter().enumerate().map(|(i, n)| (n.clone(), i + 1)).collect() };
    let number = r.range(0, 9) as i32;
    if r.chance(1, 3) {
        d.ints.insert("q".into(), number);
    }
    let ints = !d.ints.is_empty();
    let known = |s: &str| names.iter().any(|n| n == s) || (ints && s == "q");
    let wanted = reader::guard(&text);
    let read = match caught(|| parse_guard(&text)) {
        Ok(v) => v,
        Err(e) => return c.violation("panic: odd", say(format!("reading the text panicked: {}", e))),
    };
    c.eval();
    let (wanted, read) = match (wanted, read) {
        (None, Err(_)) => {
            c.count("not well formed, refused");
            c.nontrivial(&text);
            return;
        }
        (None, Ok(e)) => return c.violation("accepted", say(format!("the text is not well formed and was read as {}", e))),
        (Some(w), e) => (w, e),
    };
    let mut list = vec![];
    wanted.comparisons(&mut list);
    // what must be understood
    let plain = list.iter().all(|(a, b)| {
        let mut v = vec![];
        a.names(&mut v);
        b.names(&mut v);
        let minus = E::Bin('-', Box::new((*a).clone()), Box::new((*b).clone()));
        v.iter().all(|n| names.iter().any(|m| m == n))
            && minus.linear().map_or(false, |(t, _)| {
                let mut t: Vec<i128> = t.iter().map(|x| x.1).filter(|x| *x != 0).collect();
                t.sort();
                t.is_empty() || t == [1] || t == [-1] || t == [-1, 1]
            })
    });
    // what means nothing, where nothing before it can have decided already
    let senseless = list.first().map_or(false, |(a, b)| {
        let mut v = vec![];
        a.names(&mut v);
        b.names(&mut v);
        v.iter().any(|n| !known(n)) || a.by_zero() || b.by_zero()
    });
    let meaning = read.and_then(|e| Ok((caught(|| apply_constraints_to_state(&e, &d, OwnedFederation::universe(n + 1))).unwrap_or_else(|m| Err(format!("panic {}", m)))?, e)));
    let first = match &wanted {
        reader::B::Cmp(..) => true,
        _ => false,
    };
    let (zone, e) = match meaning {
        Ok(v) => v,
        Err(m) if m.starts_with("panic ") => return c.violation("panic: odd", say(format!("applying the text panicked: {}", m))),
        Err(m) if plain => return c.violation("refused odd", say(format!("the text is well formed and was refused: {}", m))),
        Err(_) => {
            c.count("well formed, refused");
            c.nontrivial(&text);
            return;
        }
    };
    if senseless && first {
        return c.violation("accepted", say(format!("the text means nothing and was taken to mean {}", e)));
    }
    c.count("well formed, understood");
    c.nontrivial(&text);
    let written = e.encode_expr();
    let again = match caught(|| parse_guard(&written).and_then(|e| apply_constraints_to_state(&e, &d, OwnedFederation::universe(n + 1)))) {
        Ok(Ok(z)) => z,
        m => return c.violation("reread", say(format!("it was written as {:?} and could not be read again: {:?}", written, m.map(|x| x.map(|_| ()))))),
    };
    for _ in 0..16 {
        let mut v = vec![0i64];
        for _ in 0..n {
            v.push(r.range(0, 14) * DEN + *r.pick(&[0i64, 0, 0, 4, 6, 9]));
        }
        let at = |s: &str| {
            let i = names.iter().position(|m| m == s);
            match i {
                Some(i) => Some((v[i + 1] as i128, DEN as i128)),
                None if ints && s == "q" => Some((number as i128, 1)),
                None => None,
            }
        };
        let want = match wanted.holds(&at) {
            Some(w) => w,
            None => {
                c.count("points without a value");
                continue;
            }
        };
        c.eval();
        for (what, z) in [("", &zone), ("written and read again ", &again)] {
            if zone_contains(z, &v) != want {
                return c.violation("meaning of odd", say(format!("at {:?}/12 the text is {}, {}it is taken to be {} (read as {}, written as {:?})", &v[1..], want, what, !want, e, written)));
            }
        }
    }
}
fn odd_updates(r: &mut Rng, c: &mut Case) {
    let n = 1 + r.below(3);
    let names = clocks(r, n);
    let text = if r.chance(1, 2) {
        let mut s = String::new();
        for i in 0..1 + r.below(3) {
            if i > 0 {
                s += *r.pick(&[",", ", ", " ,"]);
            }
            let depth = r.below(3);
            s += &format!("{}{}{}", r.pick(&names), r.pick(&["=", ":=", " = "]), loose(r, &names, depth));
        }
        s
    } else {
        let upd: Vec<(usize, i32)> = (0..1 + r.below(3)).map(|_| (r.below(n), r.range(0, 30) as i32)).collect();
        let text = text::updates(r, &upd, &names);
        disturbed(r, &text, &names)
    };
    let say = |e: String| format!("{}\nclocks {:?}\nupdate {:?}", e, names, text);
    let wanted = reader::updates(&text);
    let read = match caught(|| parse_updates(&text)) {
        Ok(v) => v,
        Err(e) => return c.violation("panic: odd", say(format!("reading the update panicked: {}", e))),
    };
    c.eval();
    let none = |_: &str| None;
    let (wanted, read) = match (wanted, read) {
        (None, Err(_)) => {
            c.count("not well formed, refused");
            c.nontrivial(&text);
            return;
        }
        (None, Ok(e)) => return c.violation("accepted", say(format!("the update is not well formed and was read as {:?}", e))),
        (Some(w), Err(m)) => {
            if w.iter().all(|(_, e)| e.value(&none).map_or(false, |q| q.0.abs() < 1_000_000)) {
                return c.violation("refused odd", say(format!("the update is well formed and was refused: {}", m)));
            }
            c.count("well formed, refused");
            c.nontrivial(&text);
            return;
        }
        (Some(w), Ok(e)) => (w, e),
    };
    c.nontrivial(&text);
    if wanted.len() != read.len() || wanted.iter().zip(&read).any(|(w, e)| w.0 != e.variable) {
        return c.violation("update", say(format!("the update was read as {:?}", read)));
    }
    if wanted.iter().any(|(_, e)| {
        let mut v = vec![];
        e.names(&mut v);
        v.is_empty() && e.by_zero()
    }) {
        return c.violation("accepted", say(format!("the update divides by zero and was read as {:?}", read)));
    }
    let d = Declarations { ints: Default::default(), clocks: names.iter().enumerate().map(|(i, n)| (n.clone(), i + 1)).collect() };
    for ((name, e), u) in wanted.iter().zip(&read) {
        let mut v = vec![];
        e.names(&mut v);
        // what is no constant can only be refused
        let got = caught(|| u.compiled(&d));
        match (e.value(&none), got) {
            (Some(q), Ok(k)) => {
                c.count("well formed, understood");
                c.eval();
                if q.0 != k.value as i128 || d.clocks.get(name) != Some(&k.clock_index) {
                    return c.violation("update", say(format!("{} is set to {}, the code sets clock {} to {}", name, q.0, k.clock_index, k.value)));
                }
            }
            (Some(q), Err(m)) if names.contains(name) && q.0 >= 0 => return c.violation("refused odd", say(format!("the update is well formed and was refused: {}", m))),
            (None, Ok(k)) if v.iter().any(|n| !names.iter().any(|m| m == n)) => return c.violation("accepted", say(format!("the update means nothing, the code sets clock {} to {}", k.clock_index, k.value))),
            (None, Ok(k)) if !v.is_empty() => {
                // only a value that is the same whatever the clocks are
                let at = |i: i128| e.value(&move |s: &str| Some((i * (1 + s.len() as i128 % 3), 1)));
                if [at(0), at(3), at(11)].iter().flatten().any(|q| q.0 != k.value as i128 * q.1) {
                    return c.violation("update", say(format!("{} depends on the clocks, the code sets clock {} to {}", name, k.clock_index, k.value)));
                }
            }
            _ => c.count("well formed, refused"),
        }
    }
}
/// Declarations: what is said of the clocks is read, a type there is not is refused
fn odd_declarations(r: &mut Rng, c: &mut Case) {
    let n = r.below(4);
    let names = clocks(r, n);
    let mut text = text::declarations(r, &names);
    let mut refuse = false;
    for _ in 0..r.below(3) {
        let line = *r.pick(&["bool b;", "clocks w;", "Clock w;", "clok w", "chan c;", "const int k = 3;", "w clock;", "double d, e;", "intw;", "(w);", "clock1;", "c lock w;"]);
        let comment = r.chance(1, 3);
        let ahead = r.chance(1, 2);
        // on a line of its own, or as one of several
        let line = format!("{}{}", if comment { *r.pick(&["// ", "//", "  //"]) } else { *r.pick(&["", " ", "\t"]) }, line);
        let ends = text.trim_end_matches(|c: char| c == ' ' || c == '\t').is_empty() || text.ends_with('\n') || text.trim_end().ends_with(';');
        text = if ahead { format!("{}{}{}", line, if comment || !line.ends_with(';') || r.chance(1, 2) { *r.pick(&["\n", "\r\n"]) } else { " " }, text) } else { format!("{}{}{}", text, if ends && !comment && r.chance(1, 2) && !text.lines().last().unwrap_or("").contains("//") { "" } else { "\n" }, line) };
        refuse |= !comment;
    }
    let say = |e: String| format!("{}\nclocks {:?}\ndeclarations {:?}", e, names, text);
    let json = format!("{{\"name\":\"A\",\"declarations\":{},\"locations\":[{{\"id\":\"L0\",\"nickname\":\"\",\"invariant\":\"\",\"type\":\"INITIAL\",\"urgency\":\"NORMAL\",\"x\":0.0,\"y\":0.0,\"color\":\"7\",\"nicknameX\":0.0,\"nicknameY\":0.0,\"invariantX\":0.0,\"invariantY\":0.0}}],\"edges\":[],\"description\":\"\",\"x\":0.0,\"y\":0.0,\"width\":0.0,\"height\":0.0,\"color\":\"7\",\"includeInPeriodicCheck\":false}}", js(&text));
    c.eval();
    match caught(|| json_to_component(&json)) {
        Err(e) => c.violation("panic: declarations", say(format!("reading the component panicked: {}", e))),
        Ok(Ok(k)) if refuse => c.violation("accepted", say(format!("a type there is not was read as {:?} {:?}", k.declarations.clocks, k.declarations.ints))),
        Ok(Err(e)) if !refuse => c.violation("refused", say(format!("well formed declarations were refused: {}", e))),
        Ok(Ok(k)) => {
            let mut at: Vec<usize> = names.iter().map(|n| k.declarations.clocks.get(n).copied().unwrap_or(0)).collect();
            at.sort();
            if at != (1..=n).collect::<Vec<_>>() || k.declarations.clocks.len() != n {
                return c.violation("declarations", say(format!("they were read as {:?}", k.declarations.clocks)));
            }
            c.count("declarations read");
            c.nontrivial(&text);
        }
        Ok(Err(_)) => {
            c.count("declarations refused");
            c.nontrivial(&text);
        }
    }
}
pub fn texts(run: &'static Run) {
    run.cases("constraints", (60_000, 60), (20_000_000, 900), |r, c| constraints(r, c));
    run.cases("updates", (20_000, 20), (5_000_000, 200), |r, c| assignments(r, c));
    run.cases("odd texts", (60_000, 40), (20_000_000, 500), |r, c| odd_texts(r, c));
    run.cases("odd updates", (20_000, 20), (5_000_000, 200), |r, c| odd_updates(r, c));
    run.cases("odd declarations", (10_000, 10), (2_000_000, 100), |r, c| odd_declarations(r, c));
    run.cases("ornate models", (1500, 40), (500_000, 700), |r, c| {
        let mut p = Params { lower: *r.pick(&[0, 0, 4]), disj: r.chance(1, 3), inv: 3, max: *r.pick(&[3, 6, 9]), ..Params::small() };
        p.deterministic = !r.chance(1, 3);
        p.safe = r.chance(1, 2);
        let (t, mut comps) = if r.chance(2, 3) {
            p.locs = (2, 5);
            (Tree::Leaf(0), vec![gen(r, "A", &["i"], &["o", "p"], &p)])
        } else {
            p.max = 3;
            operators(r, &mut p)
        };
        for k in &mut comps {
            k.style = 1 + r.next() % 1_000_000_007;
        }
        p_reach::check(r, c, &t, &comps, p.max);
    });
}

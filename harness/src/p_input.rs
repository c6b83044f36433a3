//! Input completion: what a component does with inputs it does not mention.
use crate::model::*;
use crate::query::read;
use crate::sem::DEN;
use common::{guard as caught, Case, Rng, Run};
use reveaal::ModelObjects::Expressions::{ArithExpression, BoolExpression};
use reveaal::ModelObjects::SyncType;
use reveaal::System::input_enabler::make_input_enabled;
use std::collections::{HashMap, HashSet};

/// An expression of the code, evaluated at named clock values (in units of 1/DEN)
pub fn value(e: &ArithExpression, at: &HashMap<String, i64>) -> Result<i64, String> {
    use ArithExpression as A;
    Ok(match e {
        A::Difference(a, b) => value(a, at)? - value(b, at)?,
        A::Addition(a, b) => value(a, at)? + value(b, at)?,
        A::Int(n) => *n as i64 * DEN,
        A::VarName(n) => *at.get(n).ok_or_else(|| format!("{} is no clock", n))?,
        A::Multiplication(a, b) if matches!(**a, A::Int(_)) => value(a, at)? / DEN * value(b, at)?,
        A::Multiplication(a, b) => value(a, at)? * (value(b, at)? / DEN),
        other => return Err(format!("{:?} is not expected here", other)),
    })
}
pub fn truth(e: &BoolExpression, at: &HashMap<String, i64>) -> Result<bool, String> {
    use BoolExpression as B;
    Ok(match e {
        B::AndOp(a, b) => truth(a, at)? & truth(b, at)?,
        B::OrOp(a, b) => truth(a, at)? | truth(b, at)?,
        B::LessEQ(a, b) => value(a, at)? <= value(b, at)?,
        B::GreatEQ(a, b) => value(a, at)? >= value(b, at)?,
        B::LessT(a, b) => value(a, at)? < value(b, at)?,
        B::GreatT(a, b) => value(a, at)? > value(b, at)?,
        B::EQ(a, b) => value(a, at)? == value(b, at)?,
        B::Bool(b) => *b,
    })
}
fn holds(g: &G, v: &[i64]) -> bool {
    match g {
        G::True => true,
        G::False => false,
        G::Cmp(x, o, k) => o.holds(v[*x], *k as i64 * DEN),
        G::Diff(x, y, o, k) => o.holds(v[*x] - v[*y], *k as i64 * DEN),
        G::And(w) => w.iter().all(|g| holds(g, v)),
        G::Or(w) => w.iter().any(|g| holds(g, v)),
    }
}
/// Some declared edge takes this input here
fn covered(m: &Comp, l: usize, a: &str, v: &[i64]) -> bool {
    m.edges.iter().any(|e| {
        e.src == l && e.input && e.act == a && holds(&e.guard, v) && {
            let mut w = v.to_vec();
            for (x, k) in &e.upd {
                w[*x] = *k as i64 * DEN;
            }
            holds(&m.locs[e.dst].inv, &w)
        }
    })
}
fn shape(r: &mut Rng) -> Comp {
    let p = Params {
            lower: *r.pick(&[0, 0, 3]),
        locs: (1, 4),
        clocks: (0, 3),
        max: *r.pick(&[3, 3, 9, 400]),
        inv: 4,
        edge: 6,
        safe: false,
        diagonals: r.chance(1, 2),
        disj: r.chance(1, 2),
        deterministic: r.chance(1, 2),
        overlap: 3,
        special: *r.pick(&[0, 1, 2]),
        ..Params::small()
    };
    let mut m = gen(r, "A", &["i", "j"], &["o"], &p);
    let n = m.clocks.len();
    // updates that give one clock several values, invariants that relate clocks
    if n > 0 {
        for e in m.edges.iter_mut() {
            if r.chance(1, 5) {
                e.upd.push((r.below(n), r.range(0, p.max as i64) as i32));
            }
            if r.chance(1, 10) {
                e.upd.push((r.below(n), r.range(0, p.max as i64) as i32));
            }
        }
        for l in m.locs.iter_mut() {
            if r.chance(1, 6) {
                let g = guard(r, n, &p);
                l.inv = if r.chance(1, 2) { g } else { G::And(vec![l.inv.clone(), g]) };
            }
        }
    }
    // an input that is not listed keeps its edges but is not completed; one that has none is
    match r.below(4) {
        0 => m.inputs = vec!["i".into()],
        1 => m.inputs.push("k".into()),
        _ => {}
    }
    if r.chance(1, 3) {
        m.style = r.next() | 1;
    }
    m
}
fn case(r: &mut Rng, c: &mut Case) {
    let m = shape(r);
    let say = |e: String| format!("{}\n{}", e, m.brief());
    let before = match caught(|| read(&m)) {
        Ok(Ok(k)) => k,
        e => return c.violation("load", say(format!("the component could not be read: {:?}", e.map(|r| r.err())))),
    };
    let mut after = before.clone();
    if let Err(e) = caught(|| make_input_enabled(&mut after, &m.inputs)) {
        return c.violation("panic", say(format!("completion panicked: {}", e)));
    }
    c.eval();
    let n = before.edges.len();
    if after.edges.len() < n || after.edges[..n] != before.edges[..] || after.locations != before.locations || after.declarations != before.declarations {
        return c.violation("changed", say("completion changed what was there".into()));
    }
    let new = &after.edges[n..];
    let mut ids: HashSet<&String> = before.edges.iter().map(|e| &e.id).collect();
    let mut by: HashMap<(usize, &str), &reveaal::ModelObjects::Edge> = HashMap::new();
    for e in new {
        c.eval();
        let l = m.locs.iter().position(|l| l.id == e.source_location);
        let loop_ = e.source_location == e.target_location && e.update.as_ref().map_or(true, |u| u.is_empty()) && e.sync_type == SyncType::Input;
        let (Some(l), true, true) = (l, loop_, m.inputs.contains(&e.sync)) else {
            return c.violation("added", say(format!("completion added {}", e)));
        };
        if !ids.insert(&e.id) || by.insert((l, &e.sync), e).is_some() {
            return c.violation("twice", say(format!("completion added {} twice, or under the name of another edge", e)));
        }
    }
    let mut ks: Vec<i64> = vec![0];
    for e in &m.edges {
        consts(&e.guard, &mut ks);
        ks.extend(e.upd.iter().map(|u| u.1 as i64));
    }
    m.locs.iter().for_each(|l| consts(&l.inv, &mut ks));
    let (mut needed, mut spared) = (0u64, 0u64);
    let names: Vec<&String> = m.clocks.iter().collect();
    // completed once is complete: nothing is left for a second round
    let mut again = after.clone();
    if let Err(e) = caught(|| make_input_enabled(&mut again, &m.inputs)) {
        return c.violation("panic: again", say(format!("a second completion panicked: {}", e)));
    }
    c.eval();
    if again.edges.len() != after.edges.len() {
        return c.violation("again", say(format!("a second completion added {}", again.edges[after.edges.len()])));
    }
    for l in 0..m.locs.len() {
        for _ in 0..24 {
            let v: Vec<i64> = (0..names.len())
                .map(|_| {
                    let k = *r.pick(&ks) + if r.chance(1, 4) { *r.pick(&ks) } else { 0 } + r.range(-1, 1);
                    (k * DEN + *r.pick(&[0i64, 0, 0, 4, 6, 9])).max(0)
                })
                .collect();
            if !holds(&m.locs[l].inv, &v) {
                continue;
            }
            let at: HashMap<String, i64> = names.iter().map(|n| n.to_string()).zip(v.iter().copied()).collect();
            for a in &m.inputs {
                if m.locs[l].kind != Kind::Plain {
                    continue; // takes every input anyhow
                }
                c.eval();
                let want = !covered(&m, l, a, &v);
                let got = match by.get(&(l, a.as_str())) {
                    None => false,
                    Some(e) => match e.guard.as_ref().map_or(Ok(true), |g| truth(g, &at)) {
                        Ok(b) => b,
                        Err(x) => return c.violation("guard", say(format!("the guard of {} cannot be evaluated: {}", e, x))),
                    },
                };
                if want {
                    needed += 1
                } else {
                    spared += 1
                }
                if got != want {
                    let what = if want { "no edge takes the input, nor was one added for it" } else { "an edge takes the input, and another was added for it" };
                    return c.violation(if want { "missing" } else { "superfluous" }, say(format!("{}: {} {}? at {:?}/12", what, m.locs[l].id, a, v)));
                }
            }
        }
    }
    c.count_n("inputs ignored at points", needed);
    c.count_n("inputs taken at points", spared);
    c.count_n("edges added", new.len() as u64);
    if needed > 0 && spared > 0 {
        c.nontrivial((&m.edges, &m.locs));
        c.sample(|| say(format!("{} edges added", new.len())));
    }
}
fn consts(g: &G, out: &mut Vec<i64>) {
    match g {
        G::Cmp(_, _, k) | G::Diff(_, _, _, k) => out.push((*k as i64).abs()),
        G::And(w) | G::Or(w) => w.iter().for_each(|g| consts(g, out)),
        _ => {}
    }
}
pub fn completion(run: &'static Run) {
    run.cases("completion", (12000, 30), (2_000_000, 900), case);
}

//! What a combined system can do, location by location and point by point.
use crate::model::*;
use crate::query::Loader;
use crate::sem::*;
use crate::sysio::*;
use common::{guard, Case, Rng, Run};
use std::collections::{HashSet, VecDeque};

pub fn names(n: usize) -> Vec<String> {
    ["A", "B", "C", "D"][..n].iter().map(|s| s.to_string()).collect()
}
/// Point with coordinates that matter: on, beside and between the constants
pub fn point(r: &mut Rng, w: &World, max: i32) -> Point {
    let mut p = vec![0i64];
    let same = r.chance(1, 4);
    let f = *r.pick(&[0i64, 0, 3, 6, 9]);
    for _ in 1..w.dim {
        let k = r.range(0, max as i64 + 1) * DEN;
        p.push(k + if same { f } else { *r.pick(&[0i64, 0, 0, 3, 4, 6, 9]) });
    }
    Point(p)
}
fn check(w: &World, t: &Tree, comps: &[Comp], r: &mut Rng, c: &mut Case, max: i32) {
    let nm: Vec<String> = comps.iter().map(|c| c.name.clone()).collect();
    let text = t.text(&nm);
    let describe = |extra: String| format!("{}\nsystem {}\n{}", extra, text, comps.iter().map(|c| c.brief()).collect::<Vec<_>>().join("\n"));
    let mut loader = match guard(|| Loader::new(comps, false)) {
        Ok(Ok(l)) => l,
        e => {
            c.violation("load", describe(format!("the models could not be loaded: {:?}", e.err())));
            return;
        }
    };
    let b = match guard(|| build(w, t, &nm, &mut loader)) {
        Ok(Ok(b)) => b,
        Ok(Err(e)) if e.starts_with("recipe") => {
            c.count("systems that cannot be formed");
            return;
        }
        Ok(Err(e)) => return c.violation("build", describe(e)),
        Err(e) => return c.violation("panic:build", describe(format!("forming the system panicked: {}", e))),
    };
    let (ins, outs) = w.actions(t);
    let got_in: std::collections::BTreeSet<String> = b.sys.get_input_actions().into_iter().collect();
    let got_out: std::collections::BTreeSet<String> = b.sys.get_output_actions().into_iter().collect();
    c.eval();
    if got_in != ins || got_out != outs {
        c.violation("actions", describe(format!("inputs {:?} outputs {:?}, expected {:?} and {:?}", got_in, got_out, ins, outs)));
        return;
    }
    let mut acts: Vec<&String> = ins.union(&outs).collect();
    acts.sort();
    let Some(first) = b.sys.get_initial_location() else {
        return c.violation("initial", describe("no initial location".into()));
    };
    c.eval();
    if loc_of(w, t, &first.id) != w.initial(t) {
        return c.violation("initial", describe(format!("initial location {}", first.id)));
    }
    let mut queue = VecDeque::from([first]);
    let mut seen = HashSet::new();
    let mut enabled = 0u64;
    while let Some(lt) = queue.pop_front() {
        if !seen.insert(lt.id.clone()) || seen.len() > 24 {
            continue;
        }
        let Some(l) = loc_of(w, t, &lt.id) else {
            return c.violation("location", describe(format!("location {} is none of the system's", lt.id)));
        };
        let pts: Vec<Point> = (0..24).map(|_| point(r, w, max)).collect();
        for p in &pts {
            c.eval();
            let got = lt.get_invariants().map(|i| b.contains(i, p)).unwrap_or(true);
            if got != w.inv(t, &l, p) {
                return c.violation("invariant", describe(format!("invariant of {} is {} at {:?}/12", lt.id, got, p.0)));
            }
        }
        for a in &acts {
            let trs = match guard(|| b.sys.next_transitions(&lt, a)) {
                Ok(t) => t,
                Err(e) => return c.violation("panic:next", describe(format!("transitions of {} for {} panicked: {}", lt.id, a, e))),
            };
            let mut parsed = vec![];
            for tr in &trs {
                let Some(to) = loc_of(w, t, &tr.target_locations.id) else {
                    return c.violation("location", describe(format!("target {} is none of the system's", tr.target_locations.id)));
                };
                let mut edges = vec![];
                if let Err(e) = edges_of(t, &tr.id, &mut edges) {
                    return c.violation("edges", describe(e));
                }
                parsed.push((to, b.updates(&tr.updates), edges));
                queue.push_back(tr.target_locations.clone());
            }
            for p in &pts {
                c.eval();
                let mut want: Vec<(Loc, Point, Vec<(usize, String)>)> = w.steps(t, &l, a, p).into_iter().map(|(m, n)| (m.to, n, m.edges)).collect();
                let mut got = vec![];
                for (tr, (to, upd, edges)) in trs.iter().zip(&parsed) {
                    if b.contains(&tr.guard_zone, p) {
                        let n = w.updated(p, upd);
                        if tr.target_locations.get_invariants().map(|i| b.contains(i, &n)).unwrap_or(true) {
                            got.push((to.clone(), n, edges.clone()));
                        }
                    }
                }
                // What is reached and, where it is told, by which edges
                for v in [&mut want, &mut got] {
                    for x in v.iter_mut() {
                        if x.0.special() {
                            x.2.clear();
                        }
                    }
                    v.sort_by(|a, b| (&a.0, &a.1 .0, &a.2).cmp(&(&b.0, &b.1 .0, &b.2)));
                    if t.has_quotient() {
                        v.dedup();
                    }
                }
                enabled += got.len() as u64;
                if got != want {
                    let show = |v: &Vec<(Loc, Point, Vec<(usize, String)>)>| v.iter().map(|x| format!("{} at {:?} by {:?}", w.loc_text(t, &x.0), x.1 .0, x.2)).collect::<Vec<_>>().join("; ");
                    return c.violation(
                        "steps",
                        describe(format!("from {} at {:?}/12 action {}: the system can go to {{{}}}, by the definition to {{{}}}", lt.id, p.0, a, show(&got), show(&want))),
                    );
                }
                // The federation of all points from which the transition is allowed
                if c.failed() {
                    return;
                }
            }
            // allowed federations: guard and target invariant together
            for (tr, (to, upd, _)) in trs.iter().zip(&parsed) {
                let fed = match guard(|| tr.get_allowed_federation()) {
                    Ok(f) => f,
                    Err(e) => return c.violation("panic:allowed", describe(format!("allowed federation panicked: {}", e))),
                };
                for p in pts.iter().take(8) {
                    c.eval();
                    let want = b.contains(&tr.guard_zone, p) && w.inv(t, to, &w.updated(p, upd));
                    if b.contains(&fed, p) != want {
                        return c.violation("allowed", describe(format!("allowed federation of {} from {} at {:?}/12", tr.id, lt.id, p.0)));
                    }
                }
            }
        }
    }
    c.count_n("locations", seen.len() as u64);
    c.count_n("enabled transitions at points", enabled);
    if enabled > 0 && seen.len() > 1 {
        c.nontrivial((&text, comps));
        c.sample(|| describe(String::new()));
    }
}

/// A random system of conjunctions and compositions
pub fn operators(r: &mut Rng, p: &mut Params) -> (Tree, Vec<Comp>) {
    p.clocks = (0, 2);
    let n = 2 + r.below(2);
    let shape = r.below(6);
    if n == 3 || shape > 3 {
        p.clocks = (0, 1);
        p.disj = false;
    }
    let (t, acts): (Tree, Vec<(Vec<&str>, Vec<&str>)>) = match shape {
        // conjunctions share their alphabet, or some of it
        0 | 1 => {
            let t = if n == 2 { Tree::conj(Tree::Leaf(0), Tree::Leaf(1)) } else { Tree::conj(Tree::Leaf(0), Tree::conj(Tree::Leaf(1), Tree::Leaf(2))) };
            (t, (0..n).map(|_| (vec!["i", "j"], vec!["o", "p"])).collect())
        }
        2 | 3 => {
            let t = if n == 2 {
                Tree::comp(Tree::Leaf(0), Tree::Leaf(1))
            } else if r.chance(1, 2) {
                Tree::comp(Tree::comp(Tree::Leaf(0), Tree::Leaf(1)), Tree::Leaf(2))
            } else {
                Tree::comp(Tree::Leaf(0), Tree::comp(Tree::Leaf(1), Tree::Leaf(2)))
            };
            let all = [(vec!["i", "c", "s"], vec!["o", "b"]), (vec!["o", "j", "s"], vec!["c", "p"]), (vec!["p", "b", "s"], vec!["i", "q"])];
            (t, all[..n].to_vec())
        }
        4 => (
            Tree::comp(Tree::conj(Tree::Leaf(0), Tree::Leaf(1)), Tree::Leaf(2)),
            vec![(vec!["i", "c"], vec!["o"]), (vec!["i", "c"], vec!["o"]), (vec!["o", "k"], vec!["c"])],
        ),
        _ => (
            Tree::conj(Tree::comp(Tree::Leaf(0), Tree::Leaf(1)), Tree::Leaf(2)),
            vec![(vec!["i", "c"], vec!["o"]), (vec!["o"], vec!["c"]), (vec!["i"], vec!["o", "c"])],
        ),
    };
    let comps = names(acts.len()).iter().zip(&acts).map(|(n, (i, o))| gen(r, n, i, o, p)).collect();
    (t, comps)
}
/// A random system with a quotient
pub fn quotients(r: &mut Rng, p: &Params) -> (Tree, Vec<Comp>) {
    let (t, acts): (Tree, Vec<(Vec<&str>, Vec<&str>)>) = match r.below(7) {
        0..=3 => (
            Tree::quot(Tree::Leaf(0), Tree::Leaf(1)),
            vec![(vec!["i", "k"], vec!["o", "p"]), (vec!["i", "h"], vec!["o", "q"])],
        ),
        4 => (
            Tree::quot(Tree::comp(Tree::Leaf(0), Tree::Leaf(1)), Tree::Leaf(2)),
            vec![(vec!["i"], vec!["o"]), (vec!["j"], vec!["p"]), (vec!["i", "h"], vec!["o"])],
        ),
        5 => (
            Tree::quot(Tree::quot(Tree::Leaf(0), Tree::Leaf(1)), Tree::Leaf(2)),
            vec![(vec!["i"], vec!["o", "p", "q"]), (vec!["i"], vec!["o"]), (vec!["i"], vec!["p"])],
        ),
        _ => (
            Tree::comp(Tree::quot(Tree::Leaf(0), Tree::Leaf(1)), Tree::Leaf(2)),
            vec![(vec!["i"], vec!["o", "p"]), (vec!["i"], vec!["o"]), (vec!["p"], vec!["z"])],
        ),
    };
    let comps = names(acts.len()).iter().zip(&acts).map(|(n, (i, o))| gen(r, n, i, o, p)).collect();
    (t, comps)
}
/// Two or three components that each use some of the actions, as inputs or as outputs
fn roles(r: &mut Rng, p: &mut Params, quot: bool) -> (Tree, Vec<Comp>) {
    let n = if r.chance(1, 3) { 3 } else { 2 };
    p.clocks = (0, if n == 3 { 1 } else { 2 });
    p.edge = 6;
    let all = ["a", "b", "c", "d"];
    let kinds = r.below(3);
    let comps: Vec<Comp> = names(n)
        .iter()
        .map(|name| {
            let (mut ins, mut outs) = (vec![], vec![]);
            for a in &all[..2 + r.below(3)] {
                match r.below(if kinds == 0 { 2 } else { 3 }) {
                    0 => ins.push(*a),
                    1 => outs.push(*a),
                    _ => {}
                }
            }
            gen(r, name, &ins, &outs, p)
        })
        .collect();
    let two = |r: &mut Rng, a: Tree, b: Tree, q: bool| match r.below(3) {
        _ if q => Tree::quot(a, b),
        0 => Tree::conj(a, b),
        _ => Tree::comp(a, b),
    };
    let t = if n == 2 {
        two(r, Tree::Leaf(0), Tree::Leaf(1), quot)
    } else if r.chance(1, 2) {
        let a = two(r, Tree::Leaf(0), Tree::Leaf(1), false);
        two(r, a, Tree::Leaf(2), quot)
    } else {
        let b = two(r, Tree::Leaf(1), Tree::Leaf(2), false);
        two(r, Tree::Leaf(0), b, quot)
    };
    (t, comps)
}
pub fn composition(run: &'static Run) {
    run.cases("roles", (6000, 15), (400_000, 600), |r, c| {
        let mut p = Params { diagonals: r.chance(1, 2), disj: r.chance(1, 3), inv: 3, lower: *r.pick(&[0, 0, 4]), ..Params::small() };
        p.safe = r.chance(1, 2);
        p.special = *r.pick(&[0, 0, 2]);
        p.empty = *r.pick(&[0, 0, 2]);
        let (t, comps) = roles(r, &mut p, false);
        let w = World::new(&comps);
        check(&w, &t, &comps, r, c, p.max);
    });
    run.cases("operators", (6000, 25), (400_000, 900), |r, c| {
        let mut p = Params { diagonals: r.chance(1, 2), disj: r.chance(1, 2), inv: 3, lower: *r.pick(&[0, 0, 4]), ..Params::small() };
        p.deterministic = !r.chance(1, 3);
        p.safe = r.chance(1, 2);
        p.special = *r.pick(&[0, 0, 2]);
        p.empty = *r.pick(&[0, 0, 0, 2]);
        let (t, comps) = operators(r, &mut p);
        let w = World::new(&comps);
        check(&w, &t, &comps, r, c, p.max);
    });
}
/// Sometimes the models have the names a quotient chooses from
fn taken(r: &mut Rng, comps: &mut [Comp]) {
    for k in 0..2 {
        if r.chance(1, 6) {
            let a = *r.pick(&["i", "k", "h", "o", "p", "q", "a", "b", "c"]);
            for c in comps.iter_mut() {
                c.rename_action(a, &format!("quotient_new_input{}", k));
            }
        }
    }
}
pub fn quotient(run: &'static Run) {
    run.cases("roles", (6000, 15), (400_000, 600), |r, c| {
        let mut p = Params { diagonals: r.chance(1, 3), disj: r.chance(1, 3), inv: 4, special: *r.pick(&[0, 0, 1]), empty: *r.pick(&[0, 0, 2]), lower: *r.pick(&[0, 0, 4]), ..Params::small() };
        let (t, mut comps) = roles(r, &mut p, true);
        taken(r, &mut comps);
        let w = World::new(&comps);
        check(&w, &t, &comps, r, c, p.max);
    });
    run.cases("quotients", (8000, 30), (400_000, 900), |r, c| {
        let p = Params { diagonals: r.chance(1, 3), disj: r.chance(1, 3), inv: 4, special: *r.pick(&[0, 0, 1]), empty: *r.pick(&[0, 0, 0, 2]), lower: *r.pick(&[0, 0, 4]), ..Params::small() };
        let (t, mut comps) = quotients(r, &p);
        taken(r, &mut comps);
        let w = World::new(&comps);
        check(&w, &t, &comps, r, c, p.max);
    });
}

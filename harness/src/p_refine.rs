//! Refinement: the verdict against an exhaustive search over pairs of states and clock
//! regions, and the laws that refinement obeys whatever the systems are.
use crate::model::*;
use crate::query::*;
use crate::sem::*;
use common::{guard, Case, Rng, Run};
use std::collections::{HashMap, HashSet, VecDeque};

/// Why the left system does not refine the right one
#[derive(Debug, Clone, PartialEq)]
pub enum Bad {
    Delay(String),
    Move(String),
}
pub enum Answer {
    Refines,
    Fails(Bad),
    Unknown,
    NoStart,
}
pub fn action_mismatch(w: &World, s: &Tree, t: &Tree) -> bool {
    let ((si, so), (ti, to)) = (w.actions(s), w.actions(t));
    si.intersection(&to).next().is_some() || ti.intersection(&so).next().is_some() || !si.is_subset(&ti) || !to.is_subset(&so)
}
/// Both systems are deterministic, so a pair that does not match refutes
pub fn refines(w: &World, s: &Tree, t: &Tree, limit: usize, size: &mut usize) -> Answer {
    let bounds = w.bounds();
    let (Some((ls, v)), Some((lt, _))) = (start(w, s, &bounds), start(w, t, &bounds)) else { return Answer::NoStart };
    let ((si, so), (ti, to)) = (w.actions(s), w.actions(t));
    let mut seen: HashSet<(Loc, Loc, Region)> = HashSet::new();
    let mut queue = VecDeque::from([(ls, lt, v)]);
    while let Some(st) = queue.pop_front() {
        if !seen.insert(st.clone()) {
            continue;
        }
        *size = seen.len();
        if seen.len() > limit {
            return Answer::Unknown;
        }
        let (ls, lt, v) = st;
        let here = || format!("{} / {} at {}", w.loc_text(s, &ls), w.loc_text(t, &lt), v.text());
        let n = v.succ();
        if n != v && w.inv(s, &ls, &n) {
            if !w.inv(t, &lt, &n) {
                return Answer::Fails(Bad::Delay(here()));
            }
            queue.push_back((ls.clone(), lt.clone(), n));
        }
        for (acts, mine, out) in [(&so, &to, true), (&ti, &si, false)] {
            for a in acts {
                // the side that challenges and the side that answers
                let (cs, cl, rs, rl) = if out { (s, &ls, t, &lt) } else { (t, &lt, s, &ls) };
                let answers: Vec<(Loc, Vec<(usize, i32)>)> =
                    if mine.contains(a) { w.steps(rs, rl, a, &v).into_iter().map(|(m, _)| (m.to, m.upd)).collect() } else { vec![(rl.clone(), vec![])] };
                for (m, _) in w.steps(cs, cl, a, &v) {
                    if answers.is_empty() {
                        return Answer::Fails(Bad::Move(format!("{} {}", here(), a)));
                    }
                    for (to, upd) in &answers {
                        let x = w.updated(&w.updated(&v, &m.upd), upd);
                        queue.push_back(if out { (m.to.clone(), to.clone(), x) } else { (to.clone(), m.to.clone(), x) });
                    }
                }
            }
        }
    }
    Answer::Refines
}

/// Two systems over one set of components; the second one's leaves come after the first's
pub struct Pair {
    pub left: Tree,
    pub right: Tree,
    pub comps: Vec<Comp>,
    /// the systems are consistent by construction
    pub sound: bool,
}
fn leaf(i: usize) -> Tree {
    Tree::Leaf(i)
}
/// A component that allows the same or a little more than `c`
pub fn weaken(r: &mut Rng, c: &Comp, name: &str) -> Comp {
    let mut m = c.clone();
    m.name = name.into();
    let n = m.clocks.len();
    for _ in 0..1 + r.below(2) {
        match r.below(4) {
            0 => {
                let i = r.below(m.locs.len());
                m.locs[i].inv = G::True;
            }
            1 if n > 0 && !m.edges.is_empty() => {
                let i = r.below(m.edges.len());
                if !m.edges[i].input && m.edges.iter().filter(|e| e.src == m.edges[i].src && e.act == m.edges[i].act).count() == 1 {
                    m.edges[i].guard = G::True;
                }
            }
            // a copy of a location, taken instead of the original by one edge
            2 => {
                let i = r.below(m.locs.len());
                let mut l = m.locs[i].clone();
                l.id = format!("{}b", l.id);
                l.initial = false;
                if m.locs.iter().all(|x| x.id != l.id) && m.locs.len() < 6 {
                    m.locs.push(l);
                    let k = m.locs.len() - 1;
                    for e in m.edges.clone().iter().filter(|e| e.src == i) {
                        let mut e = e.clone();
                        e.src = k;
                        e.id = format!("{}b", e.id);
                        m.edges.push(e);
                    }
                    let into: Vec<usize> = (0..m.edges.len()).filter(|e| m.edges[*e].dst == i).collect();
                    if !into.is_empty() {
                        let e = *r.pick(&into);
                        m.edges[e].dst = k;
                    }
                }
            }
            _ => {}
        }
    }
    m.outputs = m.out_actions().into_iter().collect();
    m
}
pub fn pairs(r: &mut Rng, p: &Params) -> Pair {
    let io: (&[&str], &[&str]) = (&["i"], &["o", "p"]);
    let shape = r.below(10);
    // zones split into many parts where several components with several clocks meet
    let few = Params { clocks: (p.clocks.0, p.clocks.1.min(1)), ..p.clone() };
    let p = if shape >= 6 && (p.disj || p.locs.1 > 3 || r.chance(1, 2)) { &few } else { p };
    match shape {
        // related components
        0..=3 => {
            let a = gen(r, "A", io.0, io.1, p);
            let mut b = match r.below(4) {
                0 => mutate(r, &a, "B", p),
                1 => Comp { name: "B".into(), ..a.clone() },
                _ => weaken(r, &a, "B"),
            };
            // an input that is not always accepted: clocks keep their values on the way to an invariant
            let ins: Vec<usize> = (0..b.edges.len()).filter(|e| b.edges[*e].input).collect();
            let mut a = a;
            if !ins.is_empty() && r.chance(1, 4) {
                let e = *r.pick(&ins);
                let l = b.edges[e].dst.min(a.locs.len() - 1);
                b.edges[e].upd.clear();
                match r.below(3) {
                    0 if a.locs[l].kind == Kind::Plain => a.locs[l].inv = G::True,
                    // a location of the left that is left at once
                    1 if a.locs[l].kind == Kind::Plain && !a.clocks.is_empty() && !b.clocks.is_empty() && b.edges[e].dst == l => {
                        let k = r.range(0, 2);
                        a.locs[l].inv = G::Cmp(0, Op::Le, k as i32);
                        b.locs[l].inv = G::Cmp(0, Op::Le, r.range(0, 3) as i32);
                        for x in a.edges.iter_mut().filter(|x| x.dst == l) {
                            x.upd = vec![(0, k as i32)];
                        }
                        if r.chance(2, 3) {
                            a.edges.retain(|x| x.src != l || x.input);
                            a.edges.push(MEdge { id: "EU".into(), src: l, dst: b.edges[e].src.min(a.locs.len() - 1), input: false, act: "o".into(), guard: G::True, upd: vec![] });
                            a.outputs = a.out_actions().into_iter().collect();
                        }
                        if r.chance(1, 2) {
                            b.edges[e].guard = G::True;
                        }
                    }
                    _ => {}
                }
            }
            let (l, t) = if r.chance(1, 5) { (b, a) } else { (a, b) };
            Pair { left: leaf(0), right: leaf(1), comps: vec![l, t], sound: false }
        }
        // the left has an output the right does not know, the right an input the left does not
        4 => {
            let mut a = gen(r, "A", &["i"], &["o", "p"], p);
            let mut b = weaken(r, &a, "B");
            b.edges.retain(|e| e.act != "p" || e.dst != e.src);
            if r.chance(1, 2) {
                b.inputs.push("j".into());
                let src = r.below(b.locs.len());
                let dst = if r.chance(1, 2) { src } else { r.below(b.locs.len()) };
                b.edges.push(MEdge { id: "EJ".into(), src, dst, input: true, act: "j".into(), guard: G::True, upd: vec![] });
            } else {
                a.edges.push(MEdge { id: "EQ".into(), src: r.below(a.locs.len()), dst: r.below(a.locs.len()), input: false, act: "q".into(), guard: guard_of(r, &a, p), upd: vec![] });
            }
            a.outputs = a.out_actions().into_iter().collect();
            b.outputs = b.out_actions().into_iter().collect();
            Pair { left: leaf(0), right: leaf(1), comps: vec![a, b], sound: false }
        }
        // unrelated
        5 => Pair { left: leaf(0), right: leaf(1), comps: vec![gen(r, "A", io.0, io.1, p), gen(r, "B", io.0, io.1, p)], sound: true },
        // compositions on either side
        6 | 7 => {
            let a = gen(r, "A", &["i"], &["o"], p);
            let b = gen(r, "B", &["o"], &["p"], p);
            let c = if r.chance(1, 2) { Comp { name: "C".into(), ..a.clone() } } else { weaken(r, &a, "C") };
            if r.chance(1, 2) {
                Pair { left: Tree::comp(leaf(0), leaf(1)), right: Tree::comp(leaf(2), leaf(3)), comps: vec![a, b.clone(), c, b], sound: false }
            } else {
                let mut d = gen(r, "D", &["i"], &["o", "p"], p);
                if r.chance(1, 2) {
                    for l in d.locs.iter_mut() {
                        l.inv = G::True;
                    }
                }
                Pair { left: Tree::comp(leaf(0), leaf(1)), right: leaf(2), comps: vec![a, b, d], sound: false }
            }
        }
        // conjunctions
        8 => {
            let a = gen(r, "A", io.0, io.1, p);
            let b = if r.chance(1, 2) { weaken(r, &a, "B") } else { gen(r, "B", io.0, io.1, p) };
            match r.below(3) {
                0 => Pair { left: Tree::conj(leaf(0), leaf(1)), right: leaf(2), comps: vec![a.clone(), b, a], sound: false },
                1 => Pair { left: leaf(0), right: Tree::conj(leaf(1), leaf(2)), comps: vec![a.clone(), a, b], sound: false },
                _ => {
                    let c = weaken(r, &b, "C");
                    Pair { left: Tree::conj(leaf(0), leaf(1)), right: leaf(2), comps: vec![a, b, c], sound: false }
                }
            }
        }
        // quotients
        _ => {
            let t = gen(r, "T", &["i"], &["o", "p"], p);
            let s = gen(r, "S", &["i"], &["o"], p);
            let x = gen(r, "X", &["i", "o"], &["p"], p);
            match r.below(3) {
                0 => Pair { left: leaf(0), right: Tree::quot(leaf(1), leaf(2)), comps: vec![x, t, s], sound: false },
                1 => Pair { left: Tree::comp(leaf(0), Tree::quot(leaf(1), leaf(2))), right: leaf(3), comps: vec![s.clone(), t.clone(), s, t], sound: false },
                _ => Pair { left: Tree::quot(leaf(0), leaf(1)), right: Tree::quot(leaf(2), leaf(3)), comps: vec![t.clone(), s.clone(), t, s], sound: false },
            }
        }
    }
}
fn guard_of(r: &mut Rng, c: &Comp, p: &Params) -> G {
    crate::model::guard(r, c.clocks.len(), p)
}
/// Each component once, by name
pub fn distinct(comps: &[Comp]) -> Vec<Comp> {
    let mut m: HashMap<&str, &Comp> = HashMap::new();
    let mut out = vec![];
    for c in comps {
        match m.get(c.name.as_str()) {
            Some(o) => assert!(*o == c, "two components of one name"),
            None => {
                m.insert(&c.name, c);
                out.push(c.clone());
            }
        }
    }
    out
}
fn check(r: &mut Rng, c: &mut Case, q: &Pair) {
    let names: Vec<String> = q.comps.iter().map(|c| c.name.clone()).collect();
    let both = Tree::quot(q.left.clone(), q.right.clone());
    let w = if q.left.has_quotient() || q.right.has_quotient() { World::of(&both, &q.comps) } else { World::of(&leaf(0), &q.comps) };
    let text = format!("refinement: {} <= {}", q.left.text(&names), q.right.text(&names));
    let all = distinct(&q.comps);
    let reduce = r.chance(1, 2);
    let describe = |e: String| format!("{} (clock reduction {})\n{}\n{}", e, reduce, text, all.iter().map(|c| c.brief()).collect::<Vec<_>>().join("\n"));
    let mut loader = match guard(|| Loader::new(&all, reduce)) {
        Ok(Ok(l)) => l,
        e => return c.violation("load", describe(format!("the models could not be loaded: {:?}", e.err()))),
    };
    let got = match guard(|| loader.run(&text)) {
        Ok(g) => g,
        Err(e) => return c.violation("panic", describe(format!("the query panicked: {}", e))),
    };
    let word = verdict(&got);
    c.count(&word);
    if word == "recipe" {
        return;
    }
    c.eval();
    let mismatch = action_mismatch(&w, &q.left, &q.right);
    if mismatch && !word.starts_with("precondition") || !mismatch && word == "precondition: actions" {
        return c.violation("actions", describe(format!("the answer is {}, the action sets {}", word, if mismatch { "do not fit" } else { "fit" })));
    }
    if word.starts_with("precondition") {
        return;
    }
    let mut size = 0;
    let want = refines(&w, &q.left, &q.right, 40_000, &mut size);
    c.count_n("pairs searched by the oracle", size as u64);
    c.eval();
    match want {
        Answer::Unknown => return c.count("too large for the oracle"),
        Answer::NoStart => return c.count("no start"),
        Answer::Refines if word != "true" => return c.violation("refused", describe(format!("the answer is {}, by the definition the refinement holds ({} pairs)", word, size))),
        Answer::Fails(b) if !word.starts_with("false") => {
            return c.violation(if matches!(b, Bad::Delay(_)) { "accepted: delay" } else { "accepted: move" }, describe(format!("the answer is {}, by the definition it fails: {:?}", word, b)))
        }
        _ => {}
    }
    c.seen("sizes", size);
    if size > 3 {
        c.nontrivial((&text, &all));
        c.sample(|| describe(format!("{} with {} pairs", word, size)));
    }
}
pub fn verdicts(run: &'static Run) {
    run.cases("pairs", (90_000, 40), (1_000_000, 1500), |r, c| {
        let p = Params { lower: *r.pick(&[0, 0, 3]), overlap: 2, disj: r.chance(1, 4), inv: 3, max: 2 + r.below(2) as i32, locs: (1, 2 + r.below(3)), clocks: (0, if r.chance(1, 3) { 2 } else { 1 }), special: *r.pick(&[0, 0, 1]), ..Params::small() };
        let q = pairs(r, &p);
        check(r, c, &q);
    });
}

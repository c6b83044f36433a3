//! Consistency and determinism.
use crate::model::*;
use crate::p_refine::distinct;
use crate::query::*;
use crate::sem::*;
use common::{guard, Case, Rng, Run};
use reveaal::System::specifics::SpecificLocation;
use std::collections::{HashMap, HashSet, VecDeque};

fn leaf(i: usize) -> Tree {
    Tree::Leaf(i)
}
fn gfp(w: &World, t: &Tree, depth: &mut usize, exact: &mut bool) -> Option<bool> {
    let init = w.initial(t)?;
    let (_, good) = saved(w, t, depth, exact)?;
    Some(good.contains(&init))
}
/// Greatest fixpoint over locations of a system whose edges all set all clocks to zero.
/// An ignored input changes nothing. The locations that are reached, and the saved ones among them.
pub fn saved(w: &World, t: &Tree, depth: &mut usize, exact: &mut bool) -> Option<(HashSet<Loc>, HashSet<Loc>)> {
    let bounds = w.bounds();
    let zero = Region::zero(&bounds);
    let init = w.initial(t)?;
    if !w.inv(t, &init, &zero) {
        return Some((HashSet::new(), HashSet::new()));
    }
    let kind = |l: &Loc| match (t, l) {
        (Tree::Leaf(i), Loc::At(n)) => w.insts[*i].comp.locs[*n].kind,
        _ => Kind::Plain,
    };
    let (ins, outs) = w.actions(t);
    // location -> (needs an output, inputs lead to, outputs lead to)
    let mut nodes: HashMap<Loc, (bool, Vec<Loc>, Vec<Loc>)> = HashMap::new();
    let mut queue = VecDeque::from([init.clone()]);
    while let Some(l) = queue.pop_front() {
        if nodes.contains_key(&l) {
            continue;
        }
        let (mut i, mut o) = (vec![], vec![]);
        let mut v = zero.clone();
        let forever = loop {
            for (acts, to, input) in [(&ins, &mut i, true), (&outs, &mut o, false)] {
                for a in acts {
                    for (m, n) in w.steps(t, &l, a, &v) {
                        if input && m.to == l && n == v {
                            continue;
                        }
                        // one side of a conjunction ignored the input, the other did not
                        if n != zero {
                            *exact = false;
                            return None;
                        }
                        to.push(m.to.clone());
                    }
                }
            }
            if v.is_last() {
                break true;
            }
            v = v.succ();
            if !w.inv(t, &l, &v) {
                break false;
            }
        };
        queue.extend(i.iter().chain(&o).cloned());
        nodes.insert(l, (!forever, i, o));
    }
    let all: HashSet<Loc> = nodes.keys().cloned().collect();
    let mut good = all.clone();
    loop {
        let next: HashSet<Loc> = good
            .iter()
            .filter(|l| {
                let (bounded, i, o) = &nodes[*l];
                match kind(l) {
                    Kind::Universal => return true,
                    Kind::Inconsistent => return false,
                    Kind::Plain => {}
                }
                i.iter().all(|x| good.contains(x)) && (!bounded || o.iter().any(|x| good.contains(x)))
            })
            .cloned()
            .collect();
        if next.len() == good.len() {
            break;
        }
        *depth += 1;
        good = next;
    }
    Some((all, good))
}
/// By the definition: components and conjunctions as wholes, otherwise both sides
fn consistent(w: &World, t: &Tree, depth: &mut usize, exact: &mut bool) -> bool {
    match t {
        Tree::Leaf(_) => gfp(w, t, depth, exact).unwrap_or(false),
        Tree::Conj(a, b) => {
            // a side that is itself a conjunction cannot be formed unless it is consistent
            let sides = [a, b].iter().all(|s| !matches!(s.as_ref(), Tree::Conj(..)) || consistent(w, s, depth, exact));
            sides && gfp(w, t, depth, exact).unwrap_or(false)
        }
        Tree::Comp(a, b) | Tree::Quot(a, b) => consistent(w, a, depth, exact) && consistent(w, b, depth, exact),
    }
}
/// Is there a state, at a location that can be reached from the initial location with
/// whatever clock values, in which one action has two moves? `all` asks at every location.
fn ambiguous(w: &World, t: &Tree, from: Vec<Region>, size: &mut usize) -> Option<(Loc, String)> {
    let init = w.initial(t)?;
    let (ins, outs) = w.actions(t);
    let acts: Vec<&String> = ins.iter().chain(&outs).collect();
    let mut seen = HashSet::new();
    let mut queue: VecDeque<(Loc, Region)> = from.into_iter().filter(|v| w.inv(t, &init, v)).map(|v| (init.clone(), v)).collect();
    while let Some((l, v)) = queue.pop_front() {
        if !seen.insert((l.clone(), v.clone())) {
            continue;
        }
        *size += 1;
        let n = v.succ();
        if w.inv(t, &l, &n) {
            queue.push_back((l.clone(), n));
        }
        for a in &acts {
            let moves = w.steps(t, &l, a, &v);
            if moves.len() > 1 {
                return Some((l, a.to_string()));
            }
            for (m, n) in moves {
                queue.push_back((m.to, n));
            }
        }
    }
    None
}
/// Two moves of one action at one state of this location, reachable or not
pub fn overlap_at(w: &World, t: &Tree, l: &Loc, a: &str) -> bool {
    Region::all(&w.bounds()).iter().any(|v| w.inv(t, l, v) && w.steps(t, l, a, v).len() > 1)
}
fn start(comps: &[Comp], reduce: bool, c: &mut Case, describe: &dyn Fn(String) -> String) -> Option<Loader> {
    match guard(|| Loader::new(comps, reduce)) {
        Ok(Ok(l)) => Some(l),
        e => {
            c.violation("load", describe(format!("the models could not be loaded: {:?}", e.err())));
            None
        }
    }
}
fn consistency_case(r: &mut Rng, c: &mut Case) {
    let p = Params {
            lower: *r.pick(&[0, 0, 3]),
        reset_all: true,
        overlap: 0,
        safe: false,
        deterministic: !r.chance(1, 16),
        inv: 3 + r.below(4) as u64,
        edge: 3 + r.below(4) as u64,
        locs: (1, 2 + r.below(5)),
        clocks: (0, 1 + r.below(2)),
        special: *r.pick(&[0, 0, 1]), ..Params::small()
    };
    let io = [("A", ["i", "j"], ["o", "p"]), ("B", ["i", "j"], ["o", "p"]), ("C", ["i", "j"], ["o", "p"])];
    let g = |r: &mut Rng, k: usize| gen(r, io[k].0, &io[k].1[..], &io[k].2[..], &p);
    let (t, comps) = match r.below(8) {
        0..=3 => (leaf(0), vec![g(r, 0)]),
        4 => (Tree::conj(leaf(0), leaf(1)), vec![g(r, 0), g(r, 1)]),
        5 => (Tree::conj(Tree::conj(leaf(0), leaf(1)), leaf(2)), vec![g(r, 0), g(r, 1), g(r, 2)]),
        6 => (Tree::comp(leaf(0), leaf(1)), vec![g(r, 0), gen(r, "B", &["o"], &["q", "s"], &p)]),
        _ => (Tree::quot(leaf(0), leaf(1)), vec![g(r, 0), gen(r, "B", &["i"], &["o"], &p)]),
    };
    let names: Vec<String> = comps.iter().map(|c| c.name.clone()).collect();
    // with clock reduction, what a component does where the whole never gets may change
    let reduce = r.chance(1, 2) && !matches!(t, Tree::Comp(..) | Tree::Quot(..));
    let text = format!("consistency: {}", t.text(&names));
    let describe = |e: String| format!("{} (clock reduction {})\n{}\n{}", e, reduce, text, comps.iter().map(|c| c.brief()).collect::<Vec<_>>().join("\n"));
    let w = World::of(&t, &comps);
    let mut leaves = vec![];
    t.leaves(&mut leaves);
    let mut size = 0;
    let mut unclear = false;
    let mut det = true;
    for i in &leaves {
        let one = World::of(&leaf(0), &comps[*i..*i + 1]);
        let zero = Region::zero(&one.bounds());
        let reached = ambiguous(&one, &leaf(0), vec![zero], &mut size).is_some();
        let anywhere = Region::all(&one.bounds());
        // more is looked at than can be reached; what is reported there is judged elsewhere
        unclear |= !reached && (0..comps[*i].locs.len()).any(|l| one.actions(&leaf(0)).0.iter().chain(&one.actions(&leaf(0)).1).any(|a| anywhere.iter().any(|v| one.steps(&leaf(0), &Loc::At(l), a, v).len() > 1)));
        det &= !reached;
    }
    // clock reduction may remove what is ambiguous in a component but never happens in the whole
    if reduce && !det && ambiguous(&w, &t, vec![Region::zero(&w.bounds())], &mut size).is_none() {
        det = true;
        unclear = true;
    }
    let mut depth = 0;
    let mut exact = true;
    let want = consistent(&w, &t, &mut depth, &mut exact);
    let Some(mut loader) = start(&comps, reduce, c, &describe) else { return };
    let got = match guard(|| loader.run(&text)) {
        Ok(g) => g,
        Err(e) => return c.violation("panic", describe(format!("the query panicked: {}", e))),
    };
    let word = verdict(&got);
    c.count(&word);
    c.eval();
    if word == "error" {
        return c.violation("error", describe(format!("the answer is {:?}", got.err())));
    }
    let yes = word == "true";
    if !det {
        if yes {
            c.violation("nondeterministic accepted", describe("a nondeterministic system is reported consistent".into()));
        }
        return;
    }
    if !exact {
        return c.count("not decided by the oracle");
    }
    if unclear {
        return c.count("ambiguous where it cannot be reached");
    }
    if reduce && comps.len() > 1 && word == "false: nondeterministic" {
        return c.count("a reduced component judged on its own");
    }
    if yes && !want {
        return c.violation("accepted", describe(format!("the answer is {}, by the definition the system is inconsistent", word)));
    }
    if !yes && want {
        return c.violation("refused", describe(format!("the answer is {}, by the definition the system is consistent", word)));
    }
    if depth > 0 || comps.iter().any(|c| c.locs.iter().any(|l| l.inv != G::True)) {
        c.seen("rounds", depth);
        if depth > 0 {
            c.nontrivial((&text, &comps));
            c.sample(|| describe(format!("{} after {} rounds", word, depth)));
        }
    }
}
/// Models whose edges keep clock values, with what the definition says of them. Between the
/// zones the engine looks at and the states the definition speaks of there is a gap here.
fn kept(k: usize) -> (&'static str, Comp, bool) {
    let loc = |id: &str, inv: G| MLoc { id: id.into(), inv, initial: id == "L0", kind: Kind::Plain };
    let edge = |id: &str, src: usize, a: &str, dst: usize, guard: G, upd: Vec<(usize, i32)>| MEdge {
        id: id.into(),
        src,
        dst,
        input: a.ends_with('?'),
        act: a[..1].into(),
        guard,
        upd,
    };
    let (locs, edges) = match k {
        // i can come when y is past 3, and then nothing saves L1
        0 => (
            vec![loc("L0", G::True), loc("L1", G::Cmp(0, Op::Le, 2)), loc("L2", G::True)],
            vec![edge("E0", 0, "i?", 1, G::True, vec![(0, 0)]), edge("E1", 1, "o!", 2, G::Cmp(1, Op::Le, 3), vec![])],
        ),
        // o can be taken at once, and then i never comes while y is 4 or more
        1 => (
            vec![loc("L0", G::Cmp(0, Op::Le, 5)), loc("L1", G::Cmp(0, Op::Le, 1)), loc("L2", G::True), loc("L3", G::Cmp(0, Op::Le, 9))],
            vec![
                edge("E0", 0, "o!", 1, G::True, vec![(0, 0)]),
                edge("E1", 1, "o!", 2, G::True, vec![]),
                edge("E2", 1, "i?", 3, G::Cmp(1, Op::Ge, 4), vec![]),
            ],
        ),
        // the same two, where what is kept makes no difference
        2 => (
            vec![loc("L0", G::True), loc("L1", G::Cmp(0, Op::Le, 2)), loc("L2", G::True)],
            vec![edge("E0", 0, "i?", 1, G::Cmp(1, Op::Le, 3), vec![(0, 0)]), edge("E1", 1, "o!", 2, G::Cmp(1, Op::Le, 5), vec![])],
        ),
        _ => (
            vec![loc("L0", G::Cmp(0, Op::Le, 2)), loc("L1", G::Cmp(0, Op::Le, 1)), loc("L2", G::True), loc("L3", G::Cmp(0, Op::Le, 9))],
            vec![
                edge("E0", 0, "o!", 1, G::True, vec![(0, 0)]),
                edge("E1", 1, "o!", 2, G::True, vec![]),
                edge("E2", 1, "i?", 3, G::Cmp(1, Op::Ge, 4), vec![]),
            ],
        ),
    };
    let c = Comp { name: "A".into(), clocks: vec!["x".into(), "y".into()], locs, edges, inputs: vec!["i".into()], outputs: vec!["o".into()], style: 0 };
    (["kept-clocks-accepted", "kept-clocks-refused", "kept-clocks-wide", "kept-clocks-early"][k], c, [false, true, true, true][k])
}
fn kept_case(r: &mut Rng, c: &mut Case) {
    let (key, m, want) = kept(r.below(4));
    let describe = |e: String| format!("{}\nconsistency: A\n{}", e, m.brief());
    let Some(mut loader) = start(std::slice::from_ref(&m), false, c, &describe) else { return };
    let word = match guard(|| loader.run("consistency: A")) {
        Ok(g) => verdict(&g),
        Err(e) => return c.violation("panic", describe(format!("the query panicked: {}", e))),
    };
    c.eval();
    c.count(&format!("{}: {}", key, word));
    if (word == "true") != want {
        c.violation(key, describe(format!("the answer is {}, by the definition the system is {}", word, if want { "consistent" } else { "inconsistent" })));
    }
}
pub fn consistency(run: &'static Run) {
    run.cases("kept clocks", (40, 5), (40, 5), kept_case);
    run.cases("consistency", (40000, 40), (2_000_000, 900), consistency_case);
}

fn determinism_case(r: &mut Rng, c: &mut Case) {
    let p = Params {
            lower: *r.pick(&[0, 0, 3]),
        deterministic: r.chance(2, 3),
        overlap: 4,
        disj: r.chance(1, 4),
        locs: (1, 2 + r.below(3)),
        clocks: (0, 1 + r.below(2)),
        max: 2 + r.below(2) as i32,
        values: r.chance(1, 2),
        special: *r.pick(&[0, 0, 1]), ..Params::small()
    };
    let mut comps = vec![gen(r, "A", &["i"], &["o", "p"], &p)];
    if r.chance(1, 3) {
        comps.push(gen(r, "B", &["o"], &["q"], &p));
    }
    let t = if comps.len() == 1 { leaf(0) } else { Tree::comp(leaf(0), leaf(1)) };
    // a copy of an edge with another target, one guard changed
    for m in comps.iter_mut() {
        if r.chance(1, 3) && !m.edges.is_empty() {
            let mut e = r.pick(&m.edges).clone();
            e.id = format!("{}x", e.id);
            e.dst = r.below(m.locs.len());
            if !m.clocks.is_empty() {
                e.guard = G::Cmp(r.below(m.clocks.len()), *r.pick(&[Op::Lt, Op::Le, Op::Eq, Op::Ge, Op::Gt]), r.range(0, p.max as i64) as i32);
            }
            m.edges.push(e);
        }
    }
    let names: Vec<String> = comps.iter().map(|c| c.name.clone()).collect();
    let reduce = r.chance(1, 2);
    let text = format!("determinism: {}", t.text(&names));
    let describe = |e: String| format!("{} (clock reduction {})\n{}\n{}", e, reduce, text, comps.iter().map(|c| c.brief()).collect::<Vec<_>>().join("\n"));
    let Some(mut loader) = start(&comps, reduce, c, &describe) else { return };
    let got = match guard(|| loader.run(&text)) {
        Ok(g) => g,
        Err(e) => return c.violation("panic", describe(format!("the query panicked: {}", e))),
    };
    let word = verdict(&got);
    c.count(&word);
    let mut size = 0;
    let mut found = None;
    let w = World::of(&t, &comps);
    if let Some(f) = ambiguous(&w, &t, vec![Region::zero(&w.bounds())], &mut size) {
        found = Some(f);
    }
    if !reduce {
        for m in comps.iter() {
            let one = World::of(&leaf(0), std::slice::from_ref(m));
            found = found.or_else(|| ambiguous(&one, &leaf(0), vec![Region::zero(&one.bounds())], &mut size));
        }
    }
    c.count_n("states searched by the oracle", size as u64);
    c.eval();
    match (&got, found) {
        (Ok(reveaal::System::query_failures::QueryResult::Determinism(Ok(_))), Some((l, a))) => {
            return c.violation("accepted", describe(format!("reported deterministic, but there are two moves for {} in {:?}", a, l)))
        }
        // components are judged one by one, also where the reduced clocks of the whole mean
        // something else to them
        (Ok(reveaal::System::query_failures::QueryResult::Determinism(Err(_))), _) if reduce && comps.len() > 1 => {}
        (Ok(reveaal::System::query_failures::QueryResult::Determinism(Err(f))), _) => {
            // what is reported must be an ambiguity of that component's location and action
            c.eval();
            let name = f.system.to_string();
            let Some(m) = comps.iter().find(|m| m.name == name) else {
                return c.violation("refused: system", describe(format!("the failure is about the system {:?}", name)));
            };
            let one = World::of(&leaf(0), std::slice::from_ref(m));
            let at = match &f.state.locations {
                SpecificLocation::ComponentLocation { location_id, .. } => location_id.clone(),
                l => return c.violation("refused: location", describe(format!("the failure is at {}", l))),
            };
            let act = f.action.name.clone();
            let ok = (0..m.locs.len()).any(|l| at == m.locs[l].id && overlap_at(&one, &leaf(0), &Loc::At(l), &act));
            if !ok {
                return c.violation("refused", describe(format!("the failure names {} in {}, where no clock values allow two moves", act, at)));
            }
        }
        (Ok(reveaal::System::query_failures::QueryResult::Determinism(Ok(_))), None) => {}
        (r, _) => return c.violation("error", describe(format!("the answer is {}: {:?}", word, r.as_ref().err()))),
    }
    let pairs = comps.iter().any(|m| m.edges.iter().any(|a| m.edges.iter().any(|b| a.id != b.id && a.src == b.src && a.act == b.act)));
    if pairs {
        c.nontrivial((&text, distinct(&comps)));
        c.sample(|| describe(word.clone()));
    }
}
pub fn determinism(run: &'static Run) {
    run.cases("determinism", (40000, 40), (2_000_000, 900), determinism_case);
}

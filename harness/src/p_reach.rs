//! Reachability: the verdict against an exhaustive search over clock regions, and the
//! reported path replayed step by step.
use crate::model::*;
use crate::p_trans::{operators, quotients};
use crate::query::*;
use crate::sem::*;
use common::{guard, Case, Rng, Run};
use reveaal::System::query_failures::{PathFailure, QueryResult};
use reveaal::System::specifics::*;
use std::collections::HashSet;

/// What a query says about a state: some components' locations, and clock constraints
pub struct Wanted {
    pub locs: Vec<Option<usize>>,
    pub atoms: Vec<Atom>,
    /// one of these conjunctions, if there are any
    pub either: Vec<Vec<Atom>>,
}
/// instance, clock, comparison, constant
type Atom = (usize, usize, Op, i32);
impl Wanted {
    pub fn holds(&self, w: &World, t: &Tree, l: &Loc, v: &Region) -> bool {
        let atom = |(i, x, o, c): &Atom| Val::cmp(v, w.insts[*i].base + x, 0, *o, *c);
        self.loc(t, l) && self.atoms.iter().all(atom) && (self.either.is_empty() || self.either.iter().any(|a| a.iter().all(atom)))
    }
    fn constants(&self) -> impl Iterator<Item = &Atom> {
        self.atoms.iter().chain(self.either.iter().flatten())
    }
    fn loc(&self, t: &Tree, l: &Loc) -> bool {
        match (t, l) {
            // only a state that names no location at all is met in the special locations
            (_, Loc::Univ | Loc::Err) => false,
            (Tree::Leaf(i), Loc::At(n)) => self.locs[*i].is_none() || self.locs[*i] == Some(*n),
            (Tree::Conj(a, b) | Tree::Comp(a, b) | Tree::Quot(a, b), Loc::Pair(x, y)) => self.loc(a, x) && self.loc(b, y),
            _ => false,
        }
    }
    pub fn text(&self, w: &World, names: &[String], r: &mut Rng) -> String {
        let mut p = vec![];
        for (i, l) in self.locs.iter().enumerate() {
            if let Some(l) = l {
                p.push(format!("{}.{}", names[i], w.insts[i].comp.locs[*l].id));
            }
        }
        let atom = |(i, x, o, c): &Atom, r: &mut Rng| {
            let clock = format!("{}.{}", names[*i], w.insts[*i].comp.clocks[*x]);
            let flip = match o {
                Op::Lt => ">",
                Op::Le => ">=",
                Op::Eq => "==",
                Op::Ge => "<=",
                Op::Gt => "<",
            };
            if r.chance(1, 4) {
                format!("{}{}{}", c, flip, clock)
            } else if r.chance(1, 6) {
                let (a, b) = (r.range(0, 3) as i32, r.range(0, 3) as i32);
                match r.below(6) {
                    0 => format!("{} - 1 {} {} - {}", clock, o.text(), c + 2, 3),
                    1 => format!("{} + {} {} {}", clock, a, o.text(), c + a),
                    2 => format!("{} + {} {} {} + {}", c, a, flip, a, clock),
                    3 => format!("{} - {} + {} {} {} + {}", clock, a + b, b, o.text(), c, -a).replace("+ -", "- "),
                    4 => format!("{}{}{} - {} - {}", clock, o.text(), c + a + b, a, b),
                    _ => format!("{}{}{} + {}", clock, o.text(), c - (*c).min(a), (*c).min(a)),
                }
            } else {
                format!("{}{}{}", clock, o.text(), c)
            }
        };
        for a in &self.atoms {
            p.push(atom(a, r));
        }
        if !self.either.is_empty() {
            let all: Vec<String> = self.either.iter().map(|a| a.iter().map(|a| atom(a, r)).collect::<Vec<_>>().join(" && ")).collect();
            p.push(if p.is_empty() { all.join(" || ") } else { format!("({})", all.join(" || ")) });
        }
        r.shuffle(&mut p);
        if p.is_empty() {
            "true".into()
        } else {
            p.join(" && ")
        }
    }
}
fn wanted(r: &mut Rng, w: &World, max: i32, full: bool) -> Wanted {
    let locs = w.insts.iter().map(|i| if full || r.chance(2, 3) { Some(r.below(i.comp.locs.len())) } else { None }).collect();
    let (mut atoms, mut pool) = (vec![], vec![]);
    for (k, i) in w.insts.iter().enumerate() {
        for x in 0..i.comp.clocks.len() {
            if r.chance(1, 3) {
                atoms.push((k, x, *r.pick(&[Op::Lt, Op::Le, Op::Eq, Op::Ge, Op::Gt]), r.range(0, max as i64) as i32));
            }
        }
    }
    for (k, i) in w.insts.iter().enumerate() {
        for x in 0..i.comp.clocks.len() {
            for op in [Op::Lt, Op::Le, Op::Eq, Op::Ge, Op::Gt] {
                pool.push((k, x, op, r.range(0, max as i64) as i32));
            }
        }
    }
    let either = if pool.is_empty() || !r.chance(1, 5) { vec![] } else { (0..2 + r.below(2)).map(|_| (0..1 + r.below(2)).map(|_| *r.pick(&pool)).collect()).collect() };
    Wanted { locs, atoms, either }
}
pub fn specific(w: &World, t: &Tree, l: &Loc) -> SpecificLocation {
    use reveaal::System::query_failures::SystemType;
    match (t, l) {
        (_, Loc::Univ) => SpecificLocation::SpecialLocation(SpecialLocation::Universal),
        (_, Loc::Err) => SpecificLocation::SpecialLocation(SpecialLocation::Error),
        (Tree::Leaf(i), Loc::At(n)) => SpecificLocation::ComponentLocation {
            comp: SpecificComp::new(w.insts[*i].comp.name.clone(), *i as u32),
            location_id: w.insts[*i].comp.locs[*n].id.clone(),
        },
        (Tree::Conj(a, b) | Tree::Comp(a, b) | Tree::Quot(a, b), Loc::Pair(x, y)) => SpecificLocation::BranchLocation(
            Box::new(specific(w, a, x)),
            Box::new(specific(w, b, y)),
            match t {
                Tree::Conj(..) => SystemType::Conjunction,
                Tree::Comp(..) => SystemType::Composition,
                _ => SystemType::Quotient,
            },
        ),
        _ => panic!("location does not fit the system"),
    }
}
/// Does a reported set of valuations hold `v`?
pub fn meets(w: &World, d: &SpecificDisjunction, v: &Point) -> Result<bool, String> {
    let val = |c: &SpecificClockVar| -> Result<i64, String> {
        Ok(match c {
            SpecificClockVar::Zero => 0,
            SpecificClockVar::SystemClock(_) => v.0[w.quot],
            SpecificClockVar::ComponentClock(k) => {
                let i = w.insts.get(k.comp.id as usize).filter(|i| i.comp.name == k.comp.name).ok_or(format!("clock of unknown instance {:?}", k))?;
                let x = i.comp.clocks.iter().position(|n| *n == k.name).ok_or(format!("unknown clock {:?}", k))?;
                v.0[i.base + x]
            }
        })
    };
    for c in &d.conjunctions {
        let mut ok = true;
        for k in &c.constraints {
            let diff = val(&k.i)? - val(&k.j)?;
            let b = k.c as i64 * DEN;
            ok &= if k.strict { diff < b } else { diff <= b };
        }
        if ok {
            return Ok(true);
        }
    }
    Ok(false)
}
/// Replays the reported path; the states each step may start from and lead to
fn replay(w: &World, t: &Tree, path: &SpecificPath, start: Vec<(Loc, Region)>, to: &Wanted, exact: bool, c: &mut Case) -> Result<(), (String, String)> {
    let mut cur: HashSet<(Loc, Region)> = HashSet::new();
    let spread = |states: Vec<(Loc, Region)>| -> HashSet<(Loc, Region)> { states.iter().flat_map(|(l, v)| w.delays(t, l, v).into_iter().map(|d| (l.clone(), d))).collect() };
    cur.extend(spread(start));
    for (n, d) in path.path.iter().enumerate() {
        c.eval();
        let before: HashSet<SpecificLocation> = cur.iter().map(|(l, _)| specific(w, t, l)).collect();
        if !before.contains(&d.source_state.locations) {
            return Err(("path: source".into(), format!("step {} starts in {}, where the path is not", n, d.source_state.locations)));
        }
        let edges: HashSet<(String, u32, String)> = d.edges.iter().map(|e| (e.comp.name.clone(), e.comp.id, e.edge_id.clone())).collect();
        let mut from = HashSet::new();
        let mut next = vec![];
        for (l, v) in &cur {
            for (m, x) in w.steps(t, l, &d.action, v) {
                let named: HashSet<(String, u32, String)> = m.edges.iter().map(|(i, e)| (w.insts[*i].comp.name.clone(), *i as u32, e.clone())).collect();
                // a combined transition of a quotient names every edge it was built from
                let same = m.to.special() || named == edges;
                if same && specific(w, t, l) == d.source_state.locations && specific(w, t, &m.to) == d.destination_state.locations {
                    from.insert((l.clone(), v.clone()));
                    next.push((m.to, x));
                }
            }
        }
        if next.is_empty() {
            return Err(("path: step".into(), format!("step {}, action {} by {:?} from {} to {}, is not possible there", n, d.action, edges, d.source_state.locations, d.destination_state.locations)));
        }
        let after = spread(next);
        if exact && !t.has_quotient() {
            for (what, states, reported) in [("source", &from, &d.source_state), ("destination", &after, &d.destination_state)] {
                let loc = &states.iter().next().unwrap().0;
                let m = Region::all(&states.iter().next().unwrap().1.bounds());
                for v in m.iter().filter(|v| !v.any_over()) {
                    c.eval();
                    let want = states.contains(&(loc.clone(), v.clone()));
                    match meets(w, &reported.constraints, &v.point()) {
                        Err(e) => return Err(("path: clocks".into(), format!("step {} {}: {}", n, what, e))),
                        Ok(got) if got != want => {
                            return Err((format!("path: {} clocks", what), format!("step {} {} {}: valuation {} is reported {}, by the definition {}", n, what, reported.locations, v.text(), got, want)))
                        }
                        _ => {}
                    }
                }
            }
        }
        cur = after;
    }
    if !cur.iter().any(|(l, v)| to.holds(w, t, l, v)) {
        return Err(("path: end".into(), "the path does not end in the wanted state".into()));
    }
    Ok(())
}
pub fn check(r: &mut Rng, c: &mut Case, t: &Tree, comps: &[Comp], max: i32) {
    let names: Vec<String> = comps.iter().map(|c| c.name.clone()).collect();
    check_named(r, c, t, comps, &names, max)
}
fn check_named(r: &mut Rng, c: &mut Case, t: &Tree, comps: &[Comp], names: &[String], max: i32) {
    let w = World::of(t, comps);
    let extra = r.below(3) as i32;
    let to = wanted(r, &w, max + extra, false);
    let from = if r.chance(1, 3) { Some(wanted(r, &w, max, true)) } else { None };
    let text = format!("reachability: {} @ {} -> {}", t.text(names), from.as_ref().map(|f| f.text(&w, names, r)).unwrap_or("init".into()), to.text(&w, names, r));
    let describe = |e: String| format!("{}\n{}\n{}", e, text, comps.iter().map(|c| if c.style == 0 { c.brief() } else { format!("{}\n{}", c.brief(), c.json()) }).collect::<Vec<_>>().join("\n"));
    let mut loader = match guard(|| Loader::new(comps, false)) {
        Ok(Ok(l)) => l,
        e => return c.violation("load", describe(format!("the models could not be loaded: {:?}", e.err()))),
    };
    let got = match guard(|| loader.run(&text)) {
        Ok(g) => g,
        Err(e) => return c.violation("panic", describe(format!("the query panicked: {}", e))),
    };
    let word = verdict(&got);
    if word == "recipe" {
        return c.count("systems that cannot be formed");
    }
    let mut bounds = w.bounds();
    for (i, x, _, k) in to.constants().chain(from.iter().flat_map(|f| f.constants())) {
        let b = &mut bounds[w.insts[*i].base + x];
        *b = (*b).max(*k);
    }
    let begin = |bounds: &[i32]| -> Option<Vec<(Loc, Region)>> {
        match &from {
            None => start(&w, t, bounds).map(|s| vec![s]),
            Some(f) => {
                let l = locations(t, f);
                Some(Region::all(bounds).into_iter().filter(|v| f.holds(&w, t, &l, v) && w.inv(t, &l, v)).map(|v| (l.clone(), v)).collect())
            }
        }
    };
    let Some(s) = begin(&bounds) else {
        c.eval();
        if word != "error" {
            c.violation("no initial state", describe(format!("the system has no initial state, the answer is {}", word)));
        }
        return;
    };
    let e = explore(&w, t, s.clone(), 60_000);
    if !e.complete {
        return c.count("too large for the oracle");
    }
    c.eval();
    let want = e.states.iter().any(|(l, v)| to.holds(&w, t, l, v));
    c.count(if want { "reachable" } else { "unreachable" });
    if from.is_some() {
        c.count("explicit start");
    }
    let locs = e.states.iter().map(|s| &s.0).collect::<HashSet<_>>().len();
    c.count_n("states searched by the oracle", e.states.len() as u64);
    if word != if want { "true" } else { "false" } {
        return c.violation(format!("verdict{}", if from.is_some() { " with start" } else { "" }), describe(format!("the answer is {}, by the definition it is {}", word, want)));
    }
    if let Ok(QueryResult::Reachability(Ok(p))) = &got {
        let steps = p.path.len() as i32;
        c.seen("path lengths", steps);
        let exact = w.dim <= 3 && steps <= 6 && !t.has_quotient();
        let cap: Vec<i32> = bounds.iter().enumerate().map(|(i, b)| if i == 0 || i == w.quot { *b } else if exact { *b + (max + 1) * (steps + 1).min(5) } else { *b }).collect();
        let s = begin(&cap).unwrap();
        if let Err((k, d)) = replay(&w, t, p, s, &to, exact, c) {
            return c.violation(k, describe(d));
        }
        if steps > 0 {
            c.nontrivial((&text, comps));
            c.sample(|| describe(format!("reachable in {} steps", steps)));
        }
    } else if locs > 1 {
        c.nontrivial((&text, comps));
    }
    let _ = PathFailure::Unreachable;
}
fn locations(t: &Tree, f: &Wanted) -> Loc {
    match t {
        Tree::Leaf(i) => Loc::At(f.locs[*i].unwrap()),
        Tree::Conj(a, b) | Tree::Comp(a, b) | Tree::Quot(a, b) => Loc::Pair(Box::new(locations(a, f)), Box::new(locations(b, f))),
    }
}
pub fn verdicts(run: &'static Run) {
    run.cases("reachability", (10_000, 40), (1_000_000, 1500), |r, c| {
        let mut p = Params { disj: r.chance(1, 3), inv: 3, special: *r.pick(&[0, 0, 3]), lower: *r.pick(&[0, 0, 4]), ..Params::small() };
        p.deterministic = !r.chance(1, 3);
        p.safe = r.chance(1, 2);
        let (t, comps) = match r.below(5) {
            0 | 1 => {
                p.locs = (2, 5);
                p.max = 4;
                (Tree::Leaf(0), vec![gen(r, "A", &["i"], &["o", "p"], &p)])
            }
            2 | 3 => operators(r, &mut p),
            _ => {
                p.clocks = (0, 1);
                quotients(r, &p)
            }
        };
        check(r, c, &t, &comps, p.max);
    });
    // constants far apart, each in few places
    run.cases("constants", (4000, 20), (400_000, 400), |r, c| {
        let mut p = Params { inv: 4, edge: 6, clocks: (1, 1), locs: (2, 4), max: 4 + r.below(8) as i32, lower: *r.pick(&[0, 0, 4]), ..Params::small() };
        if r.chance(1, 2) {
            p.disj = true;
        } else {
            p.clocks = (1, 2);
            p.max = p.max.min(7);
        }
        p.safe = r.chance(1, 2);
        let (t, comps) = if r.chance(9, 10) {
            (Tree::Leaf(0), vec![gen(r, "A", &["i"], &["o", "p"], &p)])
        } else {
            p.locs = (1, 3);
            p.max = p.max.min(5);
            operators(r, &mut p)
        };
        check(r, c, &t, &comps, p.max);
    });
    // a component several times in one system, each with a name of its own
    run.cases("instances", (3000, 15), (400_000, 300), |r, c| {
        let mut p = Params { disj: r.chance(1, 3), inv: 3, special: *r.pick(&[0, 0, 3]), clocks: (0, 1), locs: (2, 3), ..Params::small() };
        p.deterministic = !r.chance(1, 3);
        p.safe = r.chance(1, 2);
        let shape = r.below(4);
        if shape > 0 {
            p.disj = false;
            p.locs = (2, 2);
            p.max = 2;
        }
        let a = gen(r, "A", &["i", "c"], &["o"], &p);
        let b = gen(r, "B", &["o", "k"], &["c"], &p);
        let d = gen(r, "A1", &["i", "c"], &["o"], &p);
        let ids = *r.pick(&[["", "[1]", "[2]"], ["[1]", "[2]", ""], ["[2]", "", "[1]"], ["[x y]", "[x]", ""]]);
        let two = Tree::conj(Tree::Leaf(0), Tree::Leaf(1));
        let (t, comps) = match shape {
            0 => (two, vec![a.clone(), a]),
            1 => (Tree::conj(two, Tree::Leaf(2)), vec![a.clone(), a.clone(), a]),
            2 => (Tree::comp(two, Tree::Leaf(2)), vec![a.clone(), a, b]),
            _ => (Tree::conj(two, Tree::Leaf(2)), vec![a.clone(), d, a]),
        };
        let names: Vec<String> = comps.iter().zip(ids).map(|(c, i)| format!("{}{}", c.name, i)).collect();
        check_named(r, c, &t, &comps, &names, p.max);
    });
}

//! Components made from whole systems: the result, saved and read again, must behave as
//! the system it was made from.
use crate::model::*;
use crate::p_trans::{operators, quotients};
use crate::query::*;
use crate::sem::*;
use common::{guard as caught, Case, Rng, Run};
use reveaal::DataReader::json_reader::json_to_component;
use reveaal::DataReader::json_writer::component_to_json;
use reveaal::ModelObjects::Expressions::{ArithExpression, BoolExpression};
use reveaal::ModelObjects::{Component, LocationType, SyncType};
use reveaal::System::query_failures::QueryResult;
use std::collections::{BTreeMap, BTreeSet, HashSet, VecDeque};

// ---------------------------------------------------------------- reading components
/// Coefficients of clocks and the constant
fn linear(e: &ArithExpression, clocks: &[String]) -> Result<(BTreeMap<usize, i64>, i64), String> {
    use ArithExpression as A;
    let join = |a: &A, b: &A, sign: i64| -> Result<(BTreeMap<usize, i64>, i64), String> {
        let (mut x, k) = linear(a, clocks)?;
        let (y, l) = linear(b, clocks)?;
        for (i, c) in y {
            *x.entry(i).or_insert(0) += sign * c;
        }
        x.retain(|_, c| *c != 0);
        Ok((x, k + sign * l))
    };
    match e {
        A::Int(n) => Ok((BTreeMap::new(), *n as i64)),
        A::VarName(n) => Ok((BTreeMap::from([(clocks.iter().position(|c| c == n).ok_or_else(|| format!("{} is no clock of the component", n))?, 1)]), 0)),
        A::Addition(a, b) => join(a, b, 1),
        A::Difference(a, b) => join(a, b, -1),
        other => Err(format!("{:?} is not expected in a saved component", other)),
    }
}
fn constraint(e: &BoolExpression, clocks: &[String]) -> Result<G, String> {
    use BoolExpression as B;
    let cmp = |a: &ArithExpression, b: &ArithExpression, op: Op| -> Result<G, String> {
        let (mut x, k) = linear(a, clocks)?;
        let (y, l) = linear(b, clocks)?;
        for (i, c) in y {
            *x.entry(i).or_insert(0) -= c;
        }
        x.retain(|_, c| *c != 0);
        let c = (l - k) as i32;
        let flip = |op: Op| match op {
            Op::Lt => Op::Gt,
            Op::Le => Op::Ge,
            Op::Eq => Op::Eq,
            Op::Ge => Op::Le,
            Op::Gt => Op::Lt,
        };
        let v: Vec<(usize, i64)> = x.into_iter().collect();
        Ok(match v.as_slice() {
            [] => if op.holds(0, c) { G::True } else { G::False },
            [(x, 1)] => G::Cmp(*x, op, c),
            [(x, -1)] => G::Cmp(*x, flip(op), -c),
            [(x, 1), (y, -1)] => G::Diff(*x, *y, op, c),
            [(x, -1), (y, 1)] => G::Diff(*y, *x, op, c),
            _ => return Err(format!("{} is not a clock constraint", e)),
        })
    };
    Ok(match e {
        B::AndOp(a, b) => G::And(vec![constraint(a, clocks)?, constraint(b, clocks)?]),
        B::OrOp(a, b) => G::Or(vec![constraint(a, clocks)?, constraint(b, clocks)?]),
        B::LessEQ(a, b) => cmp(a, b, Op::Le)?,
        B::GreatEQ(a, b) => cmp(a, b, Op::Ge)?,
        B::LessT(a, b) => cmp(a, b, Op::Lt)?,
        B::GreatT(a, b) => cmp(a, b, Op::Gt)?,
        B::EQ(a, b) => cmp(a, b, Op::Eq)?,
        B::Bool(b) => if *b { G::True } else { G::False },
    })
}
pub fn to_comp(k: &Component) -> Result<Comp, String> {
    let mut clocks: Vec<String> = k.declarations.clocks.keys().cloned().collect();
    clocks.sort();
    let expr = |e: &Option<BoolExpression>| e.as_ref().map_or(Ok(G::True), |e| constraint(e, &clocks));
    let mut locs = vec![];
    for l in &k.locations {
        if locs.iter().any(|o: &MLoc| o.id == l.id) {
            return Err(format!("two locations are called {}", l.id));
        }
        locs.push(MLoc {
            id: l.id.clone(),
            inv: expr(&l.invariant)?,
            initial: l.location_type == LocationType::Initial,
            kind: match l.location_type {
                LocationType::Universal => Kind::Universal,
                LocationType::Inconsistent => Kind::Inconsistent,
                _ => Kind::Plain,
            },
        });
    }
    let at = |n: &String| locs.iter().position(|l| l.id == *n).ok_or_else(|| format!("an edge names the location {}, which is not there", n));
    let mut edges = vec![];
    let mut ids = HashSet::new();
    for e in &k.edges {
        if !ids.insert(&e.id) {
            return Err(format!("two edges are called {}", e.id));
        }
        let mut upd = vec![];
        for u in e.update.iter().flatten() {
            let x = clocks.iter().position(|c| c == u.get_variable_name()).ok_or_else(|| format!("an update sets {}, which is no clock", u.get_variable_name()))?;
            match u.get_expression() {
                ArithExpression::Int(v) => upd.push((x, *v)),
                o => return Err(format!("an update sets a clock to {:?}", o)),
            }
        }
        edges.push(MEdge {
            id: e.id.clone(),
            src: at(&e.source_location)?,
            dst: at(&e.target_location)?,
            input: e.sync_type == SyncType::Input,
            act: e.sync.clone(),
            guard: expr(&e.guard)?,
            upd,
        });
    }
    let acts = |i: bool| edges.iter().filter(|e: &&MEdge| e.input == i).map(|e| e.act.clone()).collect::<BTreeSet<_>>().into_iter().collect::<Vec<String>>();
    let (inputs, outputs) = (acts(true), acts(false));
    Ok(Comp { name: k.name.clone(), clocks, locs, edges, inputs, outputs, style: 0 })
}

// ---------------------------------------------------------------- lockstep
/// None where the region does not tell
fn sat(g: &G, base: usize, v: &Region) -> Option<bool> {
    match g {
        G::True => Some(true),
        G::False => Some(false),
        // time is never negative, whatever is compared with it
        G::Cmp(_, o, c) if *c < 0 => Some(matches!(o, Op::Gt | Op::Ge)),
        G::Cmp(x, o, c) => Some(Val::cmp(v, base + x, 0, *o, *c)),
        G::Diff(x, y, o, c) => v.diff(base + x, base + y, *o, *c),
        G::And(w) => {
            let r: Vec<_> = w.iter().map(|g| sat(g, base, v)).collect();
            if r.contains(&Some(false)) { Some(false) } else if r.contains(&None) { None } else { Some(true) }
        }
        G::Or(w) => {
            let r: Vec<_> = w.iter().map(|g| sat(g, base, v)).collect();
            if r.contains(&Some(true)) { Some(true) } else if r.contains(&None) { None } else { Some(false) }
        }
    }
}
pub enum Same {
    Yes(usize),
    No(String),
    Unknown(&'static str),
}
/// The system and the component made from it, side by side. The component takes inputs
/// only by its edges. What cannot be kept going may be missing from it when it is pruned.
pub fn same(t: &Tree, comps: &[Comp], made: &Comp, pruned: bool, limit: usize) -> Same {
    let mut all = comps.to_vec();
    all.push(made.clone());
    let w = World::new(&all);
    let base = w.insts[comps.len()].base;
    let top = w.bounds().into_iter().max().unwrap_or(0);
    let bounds: Vec<i32> = (0..w.dim).map(|i| if i == 0 || i == w.quot && !t.has_quotient() { 0 } else { top }).collect();
    let zero = Region::zero(&bounds);
    let Some(lt) = w.initial(t) else { return Same::Unknown("no initial location") };
    let Some(lm) = made.initial() else { return Same::No("the component has no initial location".into()) };
    if made.locs.iter().filter(|l| l.initial).count() > 1 {
        return Same::No("the component has several initial locations".into());
    }
    let (ins, outs) = w.actions(t);
    for (i, a) in made.inputs.iter().map(|a| (true, a)).chain(made.outputs.iter().map(|a| (false, a))) {
        if !(if i { &ins } else { &outs }).contains(a) {
            return Same::No(format!("the component has the {} {}, the system does not", if i { "input" } else { "output" }, a));
        }
    }
    let own: Vec<usize> = (1..base).chain([w.quot]).collect();
    let good = if pruned {
        match sustained(&World::new(comps), t, &zero.keep(&own).bounds(), limit) {
            Some(g) => Some(g),
            None => return Same::Unknown("too large"),
        }
    } else {
        None
    };
    let needed = |l: &Loc, v: &Region| good.as_ref().map_or(true, |g| g.contains(&(l.clone(), v.keep(&own))));
    let mut seen = HashSet::new();
    let mut queue = VecDeque::from([(lt, lm, zero)]);
    while let Some(s) = queue.pop_front() {
        if !seen.insert(s.clone()) {
            continue;
        }
        if seen.len() > limit {
            return Same::Unknown("too large");
        }
        let (lt, lm, v) = s;
        let here = |what: String| Same::No(format!("at {} / {} with {}: {}", w.loc_text(t, &lt), made.locs[lm].id, v.text(), what));
        let Some(im) = sat(&made.locs[lm].inv, base, &v) else { return Same::Unknown("differences of large clocks") };
        let it = w.inv(t, &lt, &v);
        if im != it && (im || needed(&lt, &v)) {
            return here(format!("the system {} be here, the component {}", if it { "can" } else { "cannot" }, if im { "can" } else { "cannot" }));
        }
        if !it || !im {
            continue;
        }
        let n = v.succ();
        if n != v {
            queue.push_back((lt.clone(), lm, n));
        }
        for a in ins.iter().chain(&outs) {
            let st = w.steps(t, &lt, a, &v);
            let mut sm = vec![];
            for e in made.edges.iter().filter(|e| e.src == lm && e.act == *a) {
                let Some(g) = sat(&e.guard, base, &v) else { return Same::Unknown("differences of large clocks") };
                if g {
                    let mut x = v.clone();
                    for (c, k) in &e.upd {
                        x.set(base + c, *k);
                    }
                    let Some(i) = sat(&made.locs[e.dst].inv, base, &x) else { return Same::Unknown("differences of large clocks") };
                    if i {
                        sm.push(e);
                    }
                }
            }
            if st.len() > 1 {
                return Same::Unknown("nondeterministic");
            }
            // the same step may be written as several edges
            if st.len() != sm.len().min(1) && (!sm.is_empty() || needed(&lt, &v) && needed(&st[0].0.to, &st[0].1)) {
                return here(format!("{} is {} in the system and {} in the component", a, if st.is_empty() { "not possible" } else { "possible" }, if sm.is_empty() { "not possible" } else { "possible" }));
            }
            for (m, x) in &st {
                for e in &sm {
                    let mut x = x.clone();
                    for (c, k) in &e.upd {
                        x.set(base + c, *k);
                    }
                    queue.push_back((m.to.clone(), e.dst, x));
                }
            }
        }
    }
    Same::Yes(seen.len())
}

fn case(r: &mut Rng, c: &mut Case) {
    let mut p = Params { lower: *r.pick(&[0, 0, 4]), disj: r.chance(1, 3), inv: 3, special: *r.pick(&[0, 0, 1]), safe: r.chance(2, 3), max: 2 + r.below(2) as i32, locs: (1, 2 + r.below(2)), overlap: 1, ..Params::small() };
    let (mut t, mut comps) = match r.below(6) {
        0 => {
            p.clocks = (0, 2);
            (Tree::Leaf(0), vec![gen(r, "A", &["i", "j"], &["o", "p"], &p)])
        }
        1..=3 => {
            p.clocks = (0, if r.chance(1, 2) { 2 } else { 1 });
            // unions of zones over many clocks take the engine minutes
            loop {
                let made = operators(r, &mut p);
                let clocks = made.1.iter().map(|c| c.clocks.len()).sum::<usize>();
                if clocks <= if p.disj { 2 } else { 3 } {
                    break made;
                }
            }
        }
        _ => {
            p.clocks = (0, 1);
            quotients(r, &p)
        }
    };
    // names that look like the ones made up for clashing clocks
    if r.chance(1, 2) {
        for (k, m) in comps.iter_mut().enumerate() {
            let pool = [["x", "x1", "y"], ["x", "x0", "x1"], ["x1", "x2", "x"], ["x0", "x", "x2"], ["quotient_clock", "x", "q"]];
            let n = r.pick(&pool).clone();
            let mut order = vec![0, 1, 2];
            r.shuffle(&mut order);
            let _ = k;
            for (i, name) in m.clocks.iter_mut().enumerate() {
                *name = n[order[i]].to_string();
            }
        }
    }
    // the same component twice
    if comps.len() == 2 && matches!(t, Tree::Conj(..)) && comps[0].clocks.len() < 2 && r.chance(1, 4) {
        comps.truncate(1);
        comps.push(comps[0].clone());
        t = Tree::conj(Tree::Leaf(0), Tree::Leaf(1));
    }
    let prune = r.chance(1, 3);
    let reduce = r.chance(1, 2);
    let names: Vec<String> = comps.iter().map(|c| c.name.clone()).collect();
    let text = format!("{}: {}{}", if prune { "prune" } else { "get-component" }, t.text(&names), *r.pick(&["", " save-as R", " save-as R"]));
    let describe = |e: String| format!("{}\n{} (clock reduction {})\n{}", e, text, reduce, comps.iter().map(|c| c.brief()).collect::<Vec<_>>().join("\n"));
    let mut loader = match caught(|| Loader::new(&comps, reduce)) {
        Ok(Ok(l)) => l,
        e => return c.violation("load", describe(format!("the models could not be loaded: {:?}", e.err()))),
    };
    let got = match caught(|| loader.run(&text)) {
        Ok(g) => g,
        Err(e) => return c.violation("panic: get", describe(format!("the query panicked: {}", e))),
    };
    c.eval();
    let mem = match &got {
        Ok(QueryResult::GetComponent(k)) => k.clone(),
        r => {
            let word = verdict(r);
            c.count(&word);
            if word == "error" {
                c.violation("error", describe(format!("the answer is an error: {:?}", r.as_ref().err())));
            }
            return;
        }
    };
    if loader.saved.len() != 1 || loader.saved[0] != mem {
        return c.violation("saved", describe("what is saved is not what is answered".into()));
    }
    let json = match caught(|| component_to_json(&mem)) {
        Ok(j) => j,
        Err(e) => return c.violation("panic: write", describe(format!("writing the component panicked: {}\n{:?}", e, mem))),
    };
    let back = match caught(|| json_to_component(&json)) {
        Ok(Ok(k)) => k,
        e => return c.violation("reread", describe(format!("the component cannot be read again: {:?}\n{}", e, json))),
    };
    if back.name != if text.ends_with("R") { "R" } else { "Unnamed" } {
        return c.violation("name", describe(format!("the component is called {}", back.name)));
    }
    let mut forms = vec![];
    for (what, k) in [("the component", &mem), ("the component, read again,", &back)] {
        match to_comp(k) {
            Ok(k) => forms.push((what, k)),
            Err(e) => return c.violation("malformed", describe(format!("{} is malformed: {}\n{}", what, e, json))),
        }
    }
    for (what, k) in &forms {
        c.eval();
        match same(&t, &comps, k, prune, 12_000) {
            Same::Yes(n) => {
                c.count_n("states compared", n as u64);
                if n > 4 && *what == "the component" {
                    c.nontrivial((&text, &comps));
                    c.sample(|| describe(k.brief()));
                }
            }
            Same::Unknown(w) => c.count(w),
            Same::No(e) => return c.violation("differs", describe(format!("{} is not the system: {}\n{}", what, e, k.brief()))),
        }
    }
    // what was made can be used in the next query
    let next = *r.pick(&["reachability: R @ init -> R.L9", "refinement: R <= R", "consistency: R", "determinism: R", "refinement: (R && Z) <= Z", "get-component: R save-as S", "consistency: (R || Z)"]);
    let next = next.replace("R.L9", &format!("R.{}", mem.locations[r.below(mem.locations.len())].id));
    // names of combined locations cannot be written; refinement of large components takes long
    if next.starts_with("reach") && comps.len() > 1 || next.starts_with("ref") && (forms[0].1.clocks.len() > 2 || mem.edges.len() > 20) {
        return;
    }
    let (i, o): (Vec<&str>, Vec<&str>) = (forms[1].1.inputs.iter().map(|s| s.as_str()).collect(), forms[1].1.outputs.iter().map(|s| s.as_str()).collect());
    let mut z = gen(r, "Z", &i, &if next.contains("||") { vec!["z"] } else { o }, &Params { clocks: (1, 1), edge: 8, ..Params::small() });
    z.inputs.retain(|a| !next.contains("||") || !forms[1].1.outputs.contains(a));
    let ask = |k: &Component| -> Result<String, String> {
        let mut l = Loader::new(std::slice::from_ref(&z), reduce)?;
        let mut k = k.clone();
        k.name = "R".into();
        l.comps.insert("R".into(), k);
        caught(|| verdict(&l.run(&next)))
    };
    c.eval();
    let (a, b) = (ask(&mem), ask(&back));
    if a != b {
        return c.violation("next", describe(format!("{}: asked of the component as made, the answer is {:?}; as read again, {:?}\n{}\n{}", next, a, b, json, z.brief())));
    }
    if let Err(e) = a {
        return c.violation("panic: next", describe(format!("{} panicked: {}\n{}\n{}", next, e, json, z.brief())));
    }
}
/// A system with a part that has to go: an output into a location marked as inconsistent
fn doomed_case(_: &mut Rng, c: &mut Case) {
    let loc = |id: &str, kind: Kind| MLoc { id: id.into(), inv: G::True, initial: id == "L0", kind };
    let edge = |id: &str, a: &str, dst: usize| MEdge { id: id.into(), src: 0, dst, input: false, act: a.into(), guard: G::True, upd: vec![] };
    let a = Comp {
        name: "A".into(),
        clocks: vec![],
        locs: vec![loc("L0", Kind::Plain), loc("L1", Kind::Inconsistent), loc("L2", Kind::Plain)],
        edges: vec![edge("E0", "o", 1), edge("E1", "p", 2)],
        inputs: vec![],
        outputs: vec!["o".into(), "p".into()],
        style: 0,
    };
    let comps = [a];
    let describe = |e: String| format!("{}\nprune: A save-as R\n{}", e, comps[0].brief());
    let made = match caught(|| Loader::new(&comps, false).map(|mut l| l.run("prune: A save-as R"))) {
        Ok(Ok(Ok(QueryResult::GetComponent(k)))) => to_comp(&k),
        _ => return c.violation("prune-answer", describe("the system could not be pruned".into())),
    };
    c.eval();
    let made = match made {
        Ok(m) => m,
        Err(e) => return c.violation("malformed", describe(e)),
    };
    if let Same::No(e) = same(&Tree::Leaf(0), &comps, &made, true, 10_000) {
        return c.violation("differs", describe(format!("the component is not the system: {}\n{}", e, made.brief())));
    }
    c.count("pruned models");
    if made.edges.iter().any(|e| e.act == "o") {
        c.violation("prune-keeps", describe(format!("what cannot be kept going is left in the component\n{}", made.brief())));
    }
}
pub fn saving(run: &'static Run) {
    run.cases("prune", (1, 5), (1, 5), doomed_case);
    run.cases("get component", (6000, 30), (1_000_000, 900), case);
}

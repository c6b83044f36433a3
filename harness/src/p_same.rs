//! The same model written in another way: the answers have to stay what they are. The
//! models may be larger than an oracle could explore.
use crate::model::*;
use crate::p_refine::{distinct, pairs};
use crate::query::*;
use common::{guard as caught, Case, Rng, Run};
use reveaal::DataReader::json_reader;
use std::collections::HashMap;
use std::path::PathBuf;
use std::sync::OnceLock;

/// A component written anew
struct Anew {
    comp: Comp,
    /// where the locations and the clocks are now
    locs: Vec<usize>,
    clocks: Vec<usize>,
}
/// What may be done besides giving new names and orders
#[derive(Clone, Copy, Debug, PartialEq)]
enum Hand {
    /// names, orders and unused clocks only
    Names,
    /// guards written differently, locations nothing gets to, updates without effect
    Text,
    /// edges in two parts, locations twice
    Parts,
}
fn on_guard(g: &G, f: &dyn Fn(&G) -> G) -> G {
    match g {
        G::And(v) => G::And(v.iter().map(|g| on_guard(g, f)).collect()),
        G::Or(v) => G::Or(v.iter().map(|g| on_guard(g, f)).collect()),
        g => f(g),
    }
}
fn scaled(g: &G, k: i32) -> G {
    on_guard(g, &|g| match g {
        G::Cmp(x, o, c) => G::Cmp(*x, *o, c * k),
        G::Diff(x, y, o, c) => G::Diff(*x, *y, *o, c * k),
        g => g.clone(),
    })
}
fn clocks_at(g: &G, to: &[usize]) -> G {
    on_guard(g, &|g| match g {
        G::Cmp(x, o, c) => G::Cmp(to[*x], *o, *c),
        G::Diff(x, y, o, c) => G::Diff(to[*x], to[*y], *o, *c),
        g => g.clone(),
    })
}
fn reworded(r: &mut Rng, g: &G) -> G {
    match g {
        G::And(v) => {
            let mut v: Vec<G> = v.iter().map(|g| reworded(r, g)).collect();
            r.shuffle(&mut v);
            if r.chance(1, 4) && !v.is_empty() {
                v.push(v[0].clone());
            }
            G::And(v)
        }
        G::Or(v) => {
            let mut v: Vec<G> = v.iter().map(|g| reworded(r, g)).collect();
            r.shuffle(&mut v);
            if r.chance(1, 6) && !v.is_empty() {
                v.push(v[0].clone());
            }
            G::Or(v)
        }
        G::Cmp(x, Op::Eq, c) if r.chance(1, 2) => G::And(vec![G::Cmp(*x, Op::Le, *c), G::Cmp(*x, Op::Ge, *c)]),
        G::Cmp(x, Op::Lt, c) if r.chance(1, 3) => G::And(vec![G::Cmp(*x, Op::Lt, *c), G::Cmp(*x, Op::Le, c + 1)]),
        G::Cmp(x, Op::Ge, c) if r.chance(1, 3) => G::And(vec![G::True, G::Cmp(*x, Op::Ge, *c)]),
        G::True if r.chance(1, 4) => G::And(vec![G::True, G::True]),
        g => g.clone(),
    }
}
fn order(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    r.shuffle(&mut v);
    v
}
fn anew(r: &mut Rng, c: &Comp, hand: Hand, k: i32, name: &str, actions: &HashMap<String, String>, copies: bool) -> Anew {
    let mut m = c.clone();
    m.name = name.into();
    for l in m.locs.iter_mut() {
        l.inv = scaled(&l.inv, k);
    }
    for e in m.edges.iter_mut() {
        e.guard = scaled(&e.guard, k);
        for u in e.upd.iter_mut() {
            u.1 *= k;
        }
        e.act = actions[&e.act].clone();
    }
    for a in m.inputs.iter_mut().chain(m.outputs.iter_mut()) {
        *a = actions[a.as_str()].clone();
    }
    if hand != Hand::Names {
        for l in m.locs.iter_mut() {
            l.inv = reworded(r, &l.inv);
        }
        for e in m.edges.iter_mut() {
            e.guard = reworded(r, &e.guard);
            // an update that a later one undoes
            if !e.upd.is_empty() && r.chance(1, 5) {
                let x = r.pick(&e.upd).0;
                e.upd.insert(0, (x, r.range(0, 4) as i32));
            }
        }
        // a location nothing gets to, which does what another does
        if r.chance(1, 4) {
            let like = r.below(m.locs.len());
            let src = m.locs.len();
            m.locs.push(MLoc { initial: false, ..m.locs[like].clone() });
            for e in m.edges.clone().into_iter().filter(|e| e.src == like) {
                m.edges.push(MEdge { src, ..e });
            }
        }
    }
    if hand == Hand::Parts && copies && r.chance(1, 2) && !m.edges.is_empty() {
        // one edge gets to a copy of the location instead
        let e = r.below(m.edges.len());
        let (d, src) = (m.edges[e].dst, m.locs.len());
        m.locs.push(MLoc { initial: false, ..m.locs[d].clone() });
        for e in m.edges.clone().into_iter().filter(|e| e.src == d) {
            m.edges.push(MEdge { src, ..e });
        }
        m.edges[e].dst = src;
    }
    if hand == Hand::Parts && !m.clocks.is_empty() {
        for _ in 0..1 + r.below(2) {
            if m.edges.is_empty() {
                break;
            }
            let e = r.below(m.edges.len());
            let (x, b) = (r.below(m.clocks.len()), r.range(0, 5) as i32 * k);
            let g = m.edges[e].guard.clone();
            let mut other = m.edges[e].clone();
            other.guard = G::And(vec![g.clone(), G::Cmp(x, Op::Ge, b)]);
            m.edges[e].guard = G::And(vec![G::Cmp(x, Op::Lt, b), g]);
            m.edges.push(other);
        }
    }
    // places in new orders
    let locs = order(r, m.locs.len());
    let mut places: Vec<MLoc> = m.locs.clone();
    let names = order(r, m.locs.len());
    for (i, l) in m.locs.iter().enumerate() {
        places[locs[i]] = l.clone();
        places[locs[i]].id = match names[i] % 3 {
            0 => format!("L{}", names[i]),
            1 => format!("Loc_{}", names[i]),
            _ => format!("{}{}", ["Idle", "E", "x"][names[i] % 3], names[i]),
        };
    }
    m.locs = places;
    let extra = r.below(2);
    let clocks = order(r, m.clocks.len() + extra);
    let pool = order(r, 6);
    let mut cs = vec![String::new(); m.clocks.len() + extra];
    for (i, at) in clocks.iter().enumerate() {
        cs[*at] = ["x", "y", "z", "clk", "x1", "t_0"][pool[i]].into();
    }
    m.clocks = cs;
    for l in m.locs.iter_mut() {
        l.inv = clocks_at(&l.inv, &clocks);
    }
    for e in m.edges.iter_mut() {
        e.src = locs[e.src];
        e.dst = locs[e.dst];
        e.guard = clocks_at(&e.guard, &clocks);
        for u in e.upd.iter_mut() {
            u.0 = clocks[u.0];
        }
        // clocks are set at the same time; of several values for one the last stays
        if e.upd.windows(2).all(|w| w[0].0 != w[1].0) && e.upd.iter().map(|u| u.0).collect::<std::collections::HashSet<_>>().len() == e.upd.len() {
            r.shuffle(&mut e.upd);
        }
    }
    r.shuffle(&mut m.edges);
    let ids = order(r, m.edges.len());
    for (e, n) in m.edges.iter_mut().zip(ids) {
        e.id = format!("E{}", n);
    }
    r.shuffle(&mut m.inputs);
    r.shuffle(&mut m.outputs);
    m.style = if r.chance(1, 2) { 1 + r.next() % 1_000_000 } else { 0 };
    Anew { comp: m, locs, clocks }
}
fn names_anew(r: &mut Rng, comps: &[Comp]) -> (HashMap<String, String>, HashMap<String, String>) {
    let mut acts: Vec<String> = comps.iter().flat_map(|c| c.inputs.iter().chain(c.outputs.iter()).cloned().chain(c.edges.iter().map(|e| e.act.clone()))).collect();
    acts.sort();
    acts.dedup();
    // sometimes the same names for others
    let mut pool: Vec<String> = if r.chance(1, 2) { acts.clone() } else { (0..acts.len()).map(|n| format!("{}{}", ["go", "a", "Coin", "b_"][n % 4], n)).collect() };
    r.shuffle(&mut pool);
    let actions = acts.into_iter().zip(pool).collect();
    let mut names: Vec<String> = comps.iter().map(|c| c.name.clone()).collect();
    names.sort();
    names.dedup();
    let mut pool = if r.chance(1, 2) { names.clone() } else { (0..names.len()).map(|n| format!("{}{}", ["Spec", "M", "A_", "Z9"][n % 4], n)).collect() };
    r.shuffle(&mut pool);
    (actions, names.into_iter().zip(pool).collect())
}
/// true, false, or no answer
fn gist(w: &str) -> &str {
    match w {
        "true" => "true",
        w if w.starts_with("false") => "false",
        _ => "refused",
    }
}
enum Ask {
    Refines(Tree, Tree),
    Local(&'static str, Tree),
    Reaches(Tree, Vec<Option<usize>>, Vec<(usize, usize, Op, i32)>),
}
impl Ask {
    fn text(&self, insts: &[Comp]) -> String {
        let names: Vec<String> = insts.iter().map(|c| c.name.clone()).collect();
        match self {
            Ask::Refines(a, b) => format!("refinement: {} <= {}", a.text(&names), b.text(&names)),
            Ask::Local(w, t) => format!("{}: {}", w, t.text(&names)),
            Ask::Reaches(t, locs, atoms) => {
                let mut p: Vec<String> = vec![];
                for (i, l) in locs.iter().enumerate() {
                    if let Some(l) = l {
                        p.push(format!("{}.{}", names[i], insts[i].locs[*l].id));
                    }
                }
                for (i, x, o, k) in atoms {
                    p.push(format!("{}.{} {} {}", names[*i], insts[*i].clocks[*x], o.text(), k));
                }
                format!("reachability: {} @ init -> {}", t.text(&names), if p.is_empty() { "true".into() } else { p.join(" && ") })
            }
        }
    }
}
fn answer(comps: &[Comp], reduce: bool, text: &str, twice: bool) -> Result<String, String> {
    caught(|| {
        let mut l = Loader::new(comps, reduce)?;
        let w = verdict(&l.run(text));
        if twice {
            let v = verdict(&l.run(text));
            if gist(&v) != gist(&w) {
                return Err(format!("the answer is {} first and {} then", w, v));
            }
        }
        Ok(w)
    })
    .map_err(|e| format!("panic: {}", e))
    .and_then(|x| x)
}
fn case(r: &mut Rng, c: &mut Case) {
    let what = r.below(4);
    let p = Params {
        lower: *r.pick(&[0, 0, 3]),
        disj: what > 1 && r.chance(1, 4),
        inv: 3,
        max: *r.pick(&[3, 6, 12, 30]),
        locs: (1, 2 + r.below(5)),
        clocks: (0, 1 + r.below(if what == 0 { 2 } else { 3 })),
        overlap: 0,
        special: *r.pick(&[0, 0, 1]),
        ..Params::small()
    };
    // large constants for few clocks, small ones for many
    let p = if what == 1 && p.clocks.1 > 1 || p.disj && p.clocks.1 > 2 { Params { clocks: (0, 2), max: p.max.min(6), ..p } } else { p };
    let large = p.max > 6;
    let few = Params { clocks: (p.clocks.0, p.clocks.1.min(1)), locs: (1, p.locs.1.min(4)), max: p.max.min(12), ..p.clone() };
    let (insts, ask): (Vec<Comp>, Ask) = match what {
        0 | 1 => {
            let q = pairs(r, if what == 0 { &few } else { &p });
            (q.comps, Ask::Refines(q.left, q.right))
        }
        2 => {
            let one = r.chance(1, 2);
            let word = *r.pick(&["consistency", "determinism"]);
            // what an inconsistency spreads to is decided zone by zone, where clocks keep their values
            let p = Params { reset_all: word == "consistency" || r.chance(1, 3), safe: r.chance(1, 2), deterministic: r.chance(1, 2), special: *r.pick(&[0, 1]), ..if one { p } else { few.clone() } };
            if one {
                (vec![gen(r, "A", &["i", "j"], &["o", "p"], &p)], Ask::Local(word, Tree::Leaf(0)))
            } else {
                let (a, b) = (gen(r, "A", &["i"], &["o"], &p), gen(r, "B", &["i", "o"], &["p"], &p));
                (vec![a, b], Ask::Local(word, Tree::comp(Tree::Leaf(0), Tree::Leaf(1))))
            }
        }
        _ => {
            let p = Params { safe: r.chance(1, 2), deterministic: r.chance(1, 2), ..p };
            let few = Params { safe: p.safe, deterministic: p.deterministic, ..few };
            let (insts, t) = match r.below(3) {
                0 => (vec![gen(r, "A", &["i"], &["o", "p"], &p)], Tree::Leaf(0)),
                1 => (vec![gen(r, "A", &["i"], &["o"], &few), gen(r, "B", &["o"], &["p"], &few)], Tree::comp(Tree::Leaf(0), Tree::Leaf(1))),
                _ => (vec![gen(r, "A", &["i"], &["o"], &few), gen(r, "B", &["i"], &["o", "p"], &few)], Tree::conj(Tree::Leaf(0), Tree::Leaf(1))),
            };
            let locs = insts.iter().map(|c| if r.chance(3, 4) { Some(r.below(c.locs.len())) } else { None }).collect();
            let mut atoms = vec![];
            for (i, c) in insts.iter().enumerate() {
                for x in 0..c.clocks.len() {
                    if r.chance(1, 2) {
                        atoms.push((i, x, *r.pick(&[Op::Lt, Op::Le, Op::Eq, Op::Ge, Op::Gt]), r.range(0, p.max as i64) as i32));
                    }
                }
            }
            (insts, Ask::Reaches(t, locs, atoms))
        }
    };
    let hand = *r.pick(&[Hand::Names, Hand::Text, Hand::Parts]);
    let k = if large { *r.pick(&[1, 1, 2]) } else { *r.pick(&[1, 1, 2, 3, 7]) };
    let (actions, names) = names_anew(r, &insts);
    let mut by_name: HashMap<String, Anew> = HashMap::new();
    for i in &insts {
        if !by_name.contains_key(&i.name) {
            by_name.insert(i.name.clone(), anew(r, i, hand, k, &names[&i.name], &actions, !matches!(ask, Ask::Reaches(..))));
        }
    }
    let other: Vec<Comp> = insts.iter().map(|i| by_name[&i.name].comp.clone()).collect();
    let again = match &ask {
        Ask::Refines(a, b) => Ask::Refines(a.clone(), b.clone()),
        Ask::Local(w, t) => Ask::Local(w, t.clone()),
        Ask::Reaches(t, l, a) => {
            let of = |i: usize| &by_name[&insts[i].name];
            let mut a: Vec<_> = a.iter().map(|(i, x, o, c)| (*i, of(*i).clocks[*x], *o, c * k)).collect();
            r.shuffle(&mut a);
            Ask::Reaches(t.clone(), l.iter().enumerate().map(|(i, l)| l.map(|l| of(i).locs[l])).collect(), a)
        }
    };
    let (first, second) = (ask.text(&insts), again.text(&other));
    let (mut reduce, mut reduce2) = (r.chance(1, 2), r.chance(1, 2));
    // whether two edges can be taken at once is asked of all clock values, and clocks that
    // are always equal become one
    if let Ask::Local(..) = &ask {
        reduce &= hand == Hand::Names;
        reduce2 = reduce;
    }
    let (d1, d2) = (distinct(&insts), distinct(&other));
    let describe = |e: String| {
        format!(
            "{}\n{} (clock reduction {})\n{}\nwritten anew ({:?}, constants times {}): {} (clock reduction {})\n{}",
            e,
            first,
            reduce,
            d1.iter().map(|c| c.brief()).collect::<Vec<_>>().join("\n"),
            hand,
            k,
            second,
            reduce2,
            d2.iter().map(|c| format!("{}{}", c.brief(), if c.style > 0 { format!("\n{}", c.json()) } else { String::new() })).collect::<Vec<_>>().join("\n")
        )
    };
    let twice = r.chance(1, 4);
    let (a, b) = (answer(&d1, reduce, &first, false), answer(&d2, reduce2, &second, twice));
    c.eval();
    let (a, b) = match (a, b) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(a), Err(b)) if a.starts_with("panic") && b.starts_with("panic") => return c.violation("panic", describe(format!("{}; {}", a, b))),
        (a, b) => return c.violation("answers", describe(format!("the answers are {:?} and {:?}", a, b))),
    };
    c.count(&format!("{:?}: {}", hand, gist(&a)));
    if gist(&a) == gist(&b) {
        if gist(&a) != "refused" {
            c.nontrivial((&first, &d1));
            c.sample(|| describe(format!("both answers are {}", a)));
        }
        return;
    }
    // what an inconsistency spreads to is decided zone by zone, where clocks keep their values
    let exact = insts.iter().all(|c| c.edges.iter().all(|e| (0..c.clocks.len()).all(|x| e.upd.iter().any(|u| u.0 == x)) && e.upd.iter().all(|u| u.1 == 0)));
    if what != 2 && (gist(&a) == "refused" || gist(&b) == "refused") && (!exact || reduce != reduce2) {
        return c.count("refused once");
    }
    c.violation(format!("{} {:?}", ["refinement", "refinement", "local", "reachability"][what], hand), describe(format!("the answers are {} and {}", a, b)));
}

// ---------------------------------------------------------------- fewer clocks
/// Clocks that are set together, apart from here and there
fn widened(r: &mut Rng, c: &Comp, most: usize) -> Comp {
    let mut m = c.clone();
    let mut of: Vec<Vec<usize>> = (0..c.clocks.len()).map(|x| vec![x]).collect();
    let mut n = c.clocks.len();
    while n < most && n > 0 {
        let k = r.below(of.len());
        of[k].push(n);
        n += 1;
    }
    let mut names: Vec<String> = ["x", "y", "z", "w", "x1", "y_2"].iter().map(|s| s.to_string()).collect();
    r.shuffle(&mut names);
    m.clocks = names[..n].to_vec();
    fn spread(r: &mut Rng, g: &G, of: &[Vec<usize>]) -> G {
        match g {
            G::And(v) => G::And(v.iter().map(|g| spread(r, g, of)).collect()),
            G::Or(v) => G::Or(v.iter().map(|g| spread(r, g, of)).collect()),
            G::Cmp(x, o, c) => {
                let y = *r.pick(&of[*x]);
                let z = *r.pick(&of[*x]);
                if y != z && r.chance(1, 3) {
                    G::And(vec![G::Cmp(y, *o, *c), G::Cmp(z, *o, *c)])
                } else {
                    G::Cmp(y, *o, *c)
                }
            }
            g => g.clone(),
        }
    }
    for l in m.locs.iter_mut() {
        l.inv = spread(r, &l.inv, &of);
    }
    let apart = *r.pick(&[0, 1, 2, 4]);
    for e in m.edges.iter_mut() {
        e.guard = spread(r, &e.guard, &of);
        let mut upd: Vec<(usize, i32)> = e.upd.iter().flat_map(|(x, v)| of[*x].iter().map(move |y| (*y, *v))).collect();
        if r.chance(apart, 8) {
            match r.below(3) {
                0 if !upd.is_empty() => {
                    let k = r.below(upd.len());
                    upd.remove(k);
                }
                1 if !upd.is_empty() => {
                    let k = r.below(upd.len());
                    upd[k].1 = r.range(0, 3) as i32;
                }
                // one group of clocks only, or all of them
                _ if r.chance(1, 2) => upd = r.pick(&of).iter().map(|y| (*y, 0)).collect(),
                _ => upd = (0..n).map(|y| (y, 0)).collect(),
            }
        }
        r.shuffle(&mut upd);
        e.upd = upd;
    }
    m
}
/// A component made with its redundant clocks taken away still is the system it was made from
fn fewer(r: &mut Rng, c: &mut Case) {
    let p = Params {
            lower: *r.pick(&[0, 0, 3]),
        clocks: (1, 2),
        locs: (1, 4),
        inv: *r.pick(&[1, 3]),
        max: *r.pick(&[2, 4, 8]),
        overlap: 0,
        values: r.chance(1, 2),
        special: *r.pick(&[0, 0, 1]),
        ..Params::small()
    };
    let few = Params { clocks: (1, 1), locs: (1, 3), ..p.clone() };
    let (insts, t) = match r.below(4) {
        0 => {
            let (a, b) = (gen(r, "A", &["i"], &["o"], &few), gen(r, "B", &["i", "o"], &["p"], &few));
            (vec![widened(r, &a, 2), widened(r, &b, 2)], Tree::comp(Tree::Leaf(0), Tree::Leaf(1)))
        }
        1 => {
            let (a, b) = (gen(r, "A", &["i"], &["o"], &few), gen(r, "B", &["i"], &["o"], &few));
            (vec![widened(r, &a, 2), widened(r, &b, 2)], Tree::conj(Tree::Leaf(0), Tree::Leaf(1)))
        }
        _ => {
            let p = Params { disj: r.chance(1, 3), clocks: (1, if r.chance(1, 4) { 3 } else { 2 }), max: p.max.min(4), ..p };
            let a = gen(r, "A", &["i"], &["o", "p"], &p);
            let n = 2 + r.below(4);
            (vec![widened(r, &a, n)], Tree::Leaf(0))
        }
    };
    let names: Vec<String> = insts.iter().map(|c| c.name.clone()).collect();
    let sys = t.text(&names);
    let describe = |e: String| format!("{}\n{} with clock reduction\n{}", e, sys, insts.iter().map(|c| c.brief()).collect::<Vec<_>>().join("\n"));
    let made = caught(|| {
        let mut l = Loader::new(&insts, true)?;
        let w = verdict(&l.run(&format!("get-component: {} save-as X", sys)));
        Ok::<_, String>((w, l.saved.pop()))
    });
    let made = match made {
        Ok(Ok((_, Some(k)))) => k,
        Ok(Ok((w, None))) => return c.count(&format!("not made: {}", w)),
        e => return c.violation("not made", describe(format!("{:?}", e.map(|x| x.map(|x| x.0))))),
    };
    let ask = |q: String| {
        caught(|| {
            let mut l = Loader::new(&insts, false)?;
            l.comps.insert("X".into(), made.clone());
            Ok(verdict(&l.run(&q)))
        })
        .map_err(|e| format!("panic: {}", e))
        .and_then(|x| x)
    };
    c.eval();
    let itself = ask(format!("refinement: {} <= {}", sys, sys));
    match &itself {
        Ok(w) if w == "true" => (),
        Ok(w) => return c.count(&format!("fewer clocks: itself {}", gist(w))),
        Err(e) => return c.violation("fewer clocks", describe(format!("refinement of the system by itself: {}", e))),
    }
    let (before, after) = (insts.iter().map(|c| c.clocks.len()).sum::<usize>(), made.declarations.clocks.len());
    c.count(&format!("fewer clocks: {} less", before - after));
    for q in [format!("refinement: X <= {}", sys), format!("refinement: {} <= X", sys)] {
        let got = ask(q.clone());
        c.eval();
        // what is never taken is not made
        if got.as_deref() == Ok("precondition: actions") {
            return c.count("fewer clocks: fewer actions");
        }
        // what an inconsistency spreads to is decided zone by zone, where clocks keep their values
        if got.as_deref() == Ok("precondition: inconsistent") && insts.iter().any(|m| m.edges.iter().any(|e| (0..m.clocks.len()).any(|x| e.upd.iter().all(|u| u.0 != x)))) {
            return c.count("fewer clocks: refused");
        }
        if got.as_deref() != Ok("true") {
            return c.violation("fewer clocks", describe(format!("{} is {:?}, where X is\n{}", q, got, crate::p_save::to_comp(&made).map(|k| k.brief()).unwrap_or_else(|e| e))));
        }
    }
    if after < before {
        c.nontrivial((&sys, &insts));
        c.sample(|| describe(format!("{} clocks become {}", before, after)));
    }
}

// ---------------------------------------------------------------- the sample projects
struct Project {
    name: String,
    /// the text of each component
    comps: Vec<serde_json::Value>,
}
fn projects() -> &'static Vec<Project> {
    static P: OnceLock<Vec<Project>> = OnceLock::new();
    P.get_or_init(|| {
        let root = PathBuf::from("/repo/samples/json");
        let mut out = vec![];
        let mut dirs: Vec<PathBuf> = std::fs::read_dir(&root).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
        dirs.sort();
        for d in dirs {
            let mut files: Vec<PathBuf> = std::fs::read_dir(d.join("Components")).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
            files.sort();
            let comps: Vec<serde_json::Value> = files.iter().filter_map(|f| std::fs::read_to_string(f).ok()).filter_map(|t| serde_json::from_str(&t).ok()).collect();
            let comps: Vec<serde_json::Value> = comps.into_iter().filter(|c| caught(|| load(c, true)).map(|c| c.is_ok()).unwrap_or(false)).collect();
            if comps.is_empty() {
                continue;
            }
            out.push(Project { name: d.file_name().unwrap().to_string_lossy().into(), comps });
        }
        out
    })
}
fn load(v: &serde_json::Value, enable: bool) -> Result<reveaal::ModelObjects::Component, String> {
    let mut c = json_reader::json_to_component(&v.to_string()).map_err(|e| e.to_string())?;
    if enable {
        let mut inputs: Vec<String> = c.edges.iter().filter(|e| e.sync_type == reveaal::ModelObjects::SyncType::Input && e.sync != "*").map(|e| e.sync.clone()).collect();
        inputs.sort();
        inputs.dedup();
        reveaal::System::input_enabler::make_input_enabled(&mut c, &inputs);
    }
    Ok(c)
}

fn drawn_anew(r: &mut Rng, v: &serde_json::Value) -> serde_json::Value {
    let mut v = v.clone();
    let mut ids: Vec<String> = v["locations"].as_array().unwrap().iter().filter_map(|l| l["id"].as_str().map(|s| s.to_string())).collect();
    ids.sort();
    ids.dedup();
    let mut pool = if r.chance(1, 2) { ids.clone() } else { (0..ids.len()).map(|n| format!("P{}", n)).collect() };
    r.shuffle(&mut pool);
    let map: HashMap<String, String> = ids.into_iter().zip(pool).collect();
    let new = |x: &serde_json::Value| x.as_str().and_then(|s| map.get(s)).map(|s| serde_json::Value::from(s.as_str())).unwrap_or(x.clone());
    let locs = v["locations"].as_array_mut().unwrap();
    for l in locs.iter_mut() {
        l["id"] = new(&l["id"]);
    }
    r.shuffle(locs);
    let edges = v["edges"].as_array_mut().unwrap();
    for e in edges.iter_mut() {
        for k in ["sourceLocation", "targetLocation"] {
            e[k] = new(&e[k]);
        }
    }
    r.shuffle(edges);
    v
}
struct Drawn(HashMap<String, reveaal::ModelObjects::Component>, reveaal::ProtobufServer::services::query_request::Settings);
impl reveaal::ComponentLoader for Drawn {
    fn get_component(&mut self, name: &str) -> &reveaal::ModelObjects::Component {
        &self.0[name]
    }
    fn save_component(&mut self, _: reveaal::ModelObjects::Component) {}
    fn get_settings(&self) -> &reveaal::ProtobufServer::services::query_request::Settings {
        &self.1
    }
    fn get_settings_mut(&mut self) -> &mut reveaal::ProtobufServer::services::query_request::Settings {
        &mut self.1
    }
}
fn sample(r: &mut Rng, c: &mut Case) {
    let all = projects();
    if all.is_empty() {
        return;
    }
    let p = r.pick(all);
    let k = p.comps.len();
    let (i, j) = (r.below(k), r.below(k));
    let name = |i: usize| p.comps[i]["name"].as_str().unwrap_or("").to_string();
    let (a, b) = (name(i), name(j));
    let text = match r.below(6) {
        0 => format!("consistency: {}", a),
        1 => format!("determinism: {}", a),
        2 => format!("refinement: {} <= {}", a, a),
        3 => format!("refinement: ({} && {}) <= {}", a, b, b),
        _ => format!("refinement: {} <= {}", a, b),
    };
    let (reduce, reduce2) = (r.chance(1, 2), r.chance(1, 2));
    let ask = |v: Vec<serde_json::Value>, reduce: bool| {
        caught(|| {
            let comps = v.iter().map(|v| load(v, true).map(|c| (c.name.clone(), c))).collect::<Result<HashMap<_, _>, String>>()?;
            let mut l = Drawn(comps, reveaal::ProtobufServer::services::query_request::Settings { disable_clock_reduction: !reduce });
            let q = reveaal::parse_queries::parse_to_query(&text);
            Ok::<_, String>(verdict(&reveaal::extract_system_rep::create_executable_query(&q[0], &mut l).map(|mut e| e.execute())))
        })
    };
    let (mut one, mut other) = (p.comps[i].clone(), p.comps[j].clone());
    // one of them may start nowhere
    if r.chance(1, 8) {
        let v = if r.chance(1, 2) { &mut one } else { &mut other };
        for l in v["locations"].as_array_mut().unwrap().iter_mut() {
            if l["type"] == "INITIAL" {
                l["type"] = "NORMAL".into();
            }
        }
        c.count("samples: no initial location");
    }
    if i == j {
        other = one.clone();
    }
    let first = ask(vec![one.clone(), other.clone()], reduce);
    let second = ask(vec![drawn_anew(r, &one), drawn_anew(r, &other)], reduce2);
    c.eval();
    c.seen("sample projects", &p.name);
    let say = |e: String| format!("{}\nproject {}, {}, clock reduction {} and {}", e, p.name, text, reduce, reduce2);
    match (&first, &second) {
        (Ok(Ok(x)), Ok(Ok(y))) if gist(x) == gist(y) => {
            c.count(&format!("samples: {}", gist(x)));
            if a == b && text.starts_with("refinement") && x.starts_with("false") {
                return c.violation("samples: reflexive", say(format!("the answer is {}", x)));
            }
            if gist(x) != "refused" {
                c.nontrivial((&p.name, &text));
                c.sample(|| say(format!("both answers are {}", x)));
            }
        }
        _ => c.violation("samples", say(format!("the answers are {:?} and {:?}", first, second))),
    }
}
pub fn anew_checks(run: &'static Run) {
    run.cases("written anew", (30_000, 40), (2_000_000, 1500), case);
    run.cases("fewer clocks", (8_000, 40), (600_000, 900), fewer);
    run.cases("samples", (6_000, 20), (400_000, 300), sample);
}

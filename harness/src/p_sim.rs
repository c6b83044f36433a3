//! Simulation: what the server offers at each step, and where each step leads.
use crate::model::*;
use crate::p_reach::specific;
use crate::p_trans::{operators, point, quotients};
use crate::sem::*;
use common::{guard as caught, Case, Rng, Run};
use futures::executor::block_on;
use reveaal::ProtobufServer::services::ecdar_backend_server::EcdarBackend;
use reveaal::ProtobufServer::services::*;
use reveaal::ProtobufServer::ConcreteEcdarBackend;
use std::collections::BTreeMap;

// ---------------------------------------------------------------- systems of differences
/// x_i - x_j <= b, or < b where strict: (b, not strict) in lexicographic order
type Bound = (i64, bool);
const FREE: Bound = (i64::MAX / 4, true);
#[derive(Clone)]
pub struct Dbm {
    n: usize,
    m: Vec<Bound>,
}
impl Dbm {
    pub fn new(n: usize) -> Dbm {
        let mut d = Dbm { n, m: vec![FREE; n * n] };
        for i in 0..n {
            d.m[i * n + i] = (0, true);
        }
        d
    }
    pub fn add(&mut self, i: usize, j: usize, b: i64, strict: bool) {
        let n = self.n;
        let at = &mut self.m[i * n + j];
        *at = (*at).min((b, !strict));
    }
    fn eq(&mut self, i: usize, j: usize, b: i64) {
        self.add(i, j, b, false);
        self.add(j, i, -b, false);
    }
    /// Tightest form; false if there is no solution
    pub fn close(&mut self) -> bool {
        let n = self.n;
        for k in 0..n {
            for i in 0..n {
                for j in 0..n {
                    let (a, b) = (self.m[i * n + k], self.m[k * n + j]);
                    if a.0 < FREE.0 && b.0 < FREE.0 {
                        let s = (a.0 + b.0, a.1 && b.1);
                        if s < self.m[i * n + j] {
                            self.m[i * n + j] = s;
                        }
                    }
                }
            }
        }
        (0..n).all(|i| self.m[i * n + i] >= (0, true))
    }
    pub fn holds(&self, p: &Point) -> bool {
        let n = self.n;
        (0..n).all(|i| (0..n).all(|j| {
            let b = self.m[i * n + j];
            let d = p.0[i] - p.0[j];
            d < b.0 || (d == b.0 && b.1)
        }))
    }
    /// Some solution of a closed system, if the grid has one near
    fn some(&self, r: &mut Rng, max: i64) -> Option<Point> {
        let n = self.n;
        let mut p = vec![0i64; n];
        let mut order: Vec<usize> = (1..n).collect();
        r.shuffle(&mut order);
        for (k, i) in order.iter().enumerate() {
            let (mut lo, mut hi) = (0i64, max);
            for j in std::iter::once(&0).chain(&order[..k]) {
                let (u, l) = (self.m[i * n + j], self.m[j * n + i]);
                if u.0 < FREE.0 {
                    hi = hi.min(p[*j] + u.0 - !u.1 as i64);
                }
                if l.0 < FREE.0 {
                    lo = lo.max(p[*j] - l.0 + !l.1 as i64);
                }
            }
            if lo > hi {
                return None;
            }
            p[*i] = match r.below(4) {
                0 => lo,
                1 => hi,
                _ => r.range(lo, hi),
            };
        }
        let p = Point(p);
        if self.holds(&p) { Some(p) } else { None }
    }
}
/// The zones of a message, over the oracle's clocks
pub fn zones(w: &World, d: &Disjunction) -> Result<Vec<Dbm>, String> {
    let clock = |c: &Option<Clock>| -> Result<usize, String> {
        Ok(match c.as_ref().and_then(|c| c.clock.as_ref()).ok_or("a constraint without clock")? {
            clock::Clock::ZeroClock(_) => 0,
            clock::Clock::SystemClock(_) if w.quot > 0 => w.quot,
            clock::Clock::SystemClock(k) => return Err(format!("a clock of no component ({:?}) in a system without quotient", k)),
            clock::Clock::ComponentClock(k) => {
                let ci = k.component_instance.as_ref().ok_or("a clock without component")?;
                let i = w.insts.get(ci.component_index as usize).filter(|i| i.comp.name == ci.component_name).ok_or(format!("clock of an unknown instance {:?}", k))?;
                i.base + i.comp.clocks.iter().position(|n| *n == k.clock_name).ok_or(format!("unknown clock {:?}", k))?
            }
        })
    };
    let mut out = vec![];
    for c in &d.conjunctions {
        let mut z = Dbm::new(w.dim);
        for i in 1..w.dim {
            z.add(0, i, 0, false);
        }
        for k in &c.constraints {
            z.add(clock(&k.x)?, clock(&k.y)?, k.c as i64 * DEN, k.strict);
        }
        if z.close() {
            out.push(z);
        }
    }
    Ok(out)
}
pub fn within(z: &[Dbm], p: &Point) -> bool {
    z.iter().any(|z| z.holds(p))
}
/// Is there a valuation in `from` that the updates and some delay turn into `q`?
fn from_some(w: &World, from: &[Dbm], upd: &[(usize, i32)], q: &Point) -> bool {
    let last: BTreeMap<usize, i32> = upd.iter().cloned().collect();
    from.iter().any(|z| {
        // one more variable: the delay, negated
        let n = w.dim + 1;
        let mut d = Dbm::new(n);
        for i in 0..w.dim {
            for j in 0..w.dim {
                let b = z.m[i * w.dim + j];
                if b.0 < FREE.0 {
                    d.add(i, j, b.0, !b.1);
                }
            }
        }
        d.add(w.dim, 0, 0, false);
        for i in 1..w.dim {
            match last.get(&i) {
                Some(v) => d.eq(w.dim, 0, *v as i64 * DEN - q.0[i]),
                None => d.eq(i, w.dim, q.0[i]),
            }
        }
        d.close()
    })
}

// ---------------------------------------------------------------- messages
pub fn location(w: &World, t: &Tree, l: &Loc) -> LocationTree {
    specific(w, t, l).into()
}
pub fn info(comps: &[Comp], system: &str, user: i32, hash: u32) -> SimulationInfo {
    let mut sent: Vec<&Comp> = vec![];
    for c in comps {
        if !sent.iter().any(|s| s.name == c.name) {
            sent.push(c);
        }
    }
    SimulationInfo {
        user_id: user,
        component_composition: system.to_string(),
        components_info: Some(ComponentsInfo {
            components: sent.iter().map(|c| Component { rep: Some(component::Rep::Json(c.json())) }).collect(),
            components_hash: hash,
        }),
    }
}
/// A component sent to the server has the inputs that its edges mention
pub fn as_sent(c: &mut Comp) {
    let used: Vec<String> = c.inputs.iter().filter(|i| c.edges.iter().any(|e| e.input && e.act == **i)).cloned().collect();
    c.inputs = used;
}
type Key = (String, Vec<(usize, String)>, Loc);

struct Sim<'a> {
    w: &'a World,
    t: &'a Tree,
    max: i32,
    locs: Vec<(LocationTree, Loc)>,
}
impl Sim<'_> {
    fn loc(&self, m: &Option<LocationTree>) -> Result<Loc, String> {
        let m = m.as_ref().ok_or("a state without location")?;
        self.locs.iter().find(|(t, _)| t == m).map(|(_, l)| l.clone()).ok_or(format!("location {:?} is none of the system's", m))
    }
    fn samples(&self, r: &mut Rng, zs: &[&[Dbm]], n: usize) -> Vec<Point> {
        let mut out: Vec<Point> = (0..n).map(|_| point(r, self.w, self.max)).collect();
        for z in zs.iter().flat_map(|z| z.iter()) {
            for _ in 0..n {
                out.extend(z.some(r, (self.max as i64 + 2) * DEN));
            }
        }
        out
    }
    /// The offers made at a state, against the moves of the definition
    fn check(&self, r: &mut Rng, c: &mut Case, l: &Loc, z: &[Dbm], ds: &[Decision]) -> Result<(), (String, String)> {
        let bad = |k: &str, e: String| Err((k.to_string(), e));
        let own = |e: String| ("message".to_string(), e);
        let (w, t) = (self.w, self.t);
        let (ins, outs) = w.actions(t);
        let mut parsed: Vec<(Key, Vec<Dbm>, Vec<Dbm>)> = vec![];
        for d in ds {
            let (Some(s), Some(e)) = (&d.source, &d.destination) else { return bad("message", "a decision without source or destination".into()) };
            if self.loc(&s.location_tree).map_err(own)? != *l {
                return bad("source", format!("a decision for {} leaves from {:?}", d.action, s.location_tree));
            }
            let to = self.loc(&e.location_tree).map_err(own)?;
            let mut edges = vec![];
            for e in &d.edges {
                let ci = e.component_instance.clone().unwrap_or_default();
                if w.insts.get(ci.component_index as usize).map(|i| i.comp.name != ci.component_name).unwrap_or(true) {
                    return bad("edges", format!("edge {} of an unknown instance {:?}", e.id, ci));
                }
                edges.push((ci.component_index as usize, e.id.clone()));
            }
            if to.special() {
                edges.clear();
            }
            let src = zones(w, s.zone.as_ref().ok_or(own("no zone".into()))?).map_err(own)?;
            let dst = zones(w, e.zone.as_ref().ok_or(own("no zone".into()))?).map_err(own)?;
            if src.is_empty() {
                return bad("empty", format!("a decision for {} that can never be taken", d.action));
            }
            parsed.push(((d.action.clone(), edges, to), src, dst));
        }
        let all: Vec<&[Dbm]> = std::iter::once(z).chain(parsed.iter().map(|p| &p.1[..])).collect();
        let mut upd: BTreeMap<Key, Vec<Vec<(usize, i32)>>> = BTreeMap::new();
        for p in self.samples(r, &all, 8) {
            let here = within(z, &p);
            let mut want: Vec<Key> = vec![];
            for a in ins.union(&outs) {
                for (m, _) in w.steps(t, l, a, &p) {
                    let mut edges = m.edges.clone();
                    if m.to.special() {
                        edges.clear();
                    }
                    let k = (a.clone(), edges, m.to.clone());
                    let u = upd.entry(k.clone()).or_default();
                    if !u.contains(&m.upd) {
                        u.push(m.upd.clone());
                    }
                    want.push(k);
                }
            }
            for k in parsed.iter().map(|p| &p.0).chain(&want) {
                c.eval();
                let got = parsed.iter().any(|(x, s, _)| x == k && within(s, &p));
                let want = here && want.contains(k);
                if got != want {
                    return bad(
                        if got { "offer" } else { "missing" },
                        format!("{} by {:?} to {} at {:?}/12 is {}offered and {} possible", k.0, k.1, w.loc_text(t, &k.2), p.0, if got { "" } else { "not " }, if want { "is" } else { "not" }),
                    );
                }
            }
        }
        for (k, src, dst) in &parsed {
            let Some(us) = upd.get(k) else { continue };
            let mut qs = self.samples(r, &[dst], 8);
            for z in src {
                for _ in 0..8 {
                    if let Some(p) = z.some(r, (self.max as i64 + 2) * DEN) {
                        let u = r.pick(us).clone();
                        let q = w.updated(&p, &u);
                        let d = *r.pick(&[0, 0, 1, 6, 12, 18, 36]);
                        qs.push(q.delay(d));
                    }
                }
            }
            // two moves that look the same can differ in what they set: one of them must fit
            let mut wrong = None;
            let fits = us.iter().any(|u| {
                qs.iter().all(|q| {
                    let got = within(dst, q);
                    let want = w.inv(t, &k.2, q) && from_some(w, src, u, q);
                    if got != want {
                        wrong = Some((q.clone(), got, want));
                    }
                    got == want
                })
            });
            c.evals(qs.len() as u64);
            if !fits {
                let (q, got, want) = wrong.unwrap();
                return bad("destination", format!("{} by {:?} to {}: {:?}/12 {} the destination and {} reached by taking the decision and waiting", k.0, k.1, w.loc_text(t, &k.2), q.0, if got { "is in" } else { "is not in" }, if want { "is" } else { "is not" }));
            }
        }
        Ok(())
    }
}
fn all_locs(w: &World, t: &Tree) -> Vec<Loc> {
    match t {
        Tree::Leaf(i) => (0..w.insts[*i].comp.locs.len()).map(Loc::At).collect(),
        Tree::Conj(a, b) | Tree::Comp(a, b) | Tree::Quot(a, b) => {
            let (x, y) = (all_locs(w, a), all_locs(w, b));
            let mut out: Vec<Loc> = x.iter().flat_map(|x| y.iter().map(move |y| Loc::Pair(Box::new(x.clone()), Box::new(y.clone())))).collect();
            if matches!(t, Tree::Quot(..)) {
                out.extend([Loc::Univ, Loc::Err]);
            }
            out
        }
    }
}
fn case(r: &mut Rng, c: &mut Case, t: Tree, mut comps: Vec<Comp>, max: i32) {
    for k in comps.iter_mut() {
        as_sent(k);
    }
    let w = World::of(&t, &comps);
    let nm: Vec<String> = comps.iter().map(|c| c.name.clone()).collect();
    let text = t.text(&nm);
    let mut trail: Vec<String> = vec![];
    let describe = |trail: &[String], extra: String| format!("{}\nsystem {}\nafter {}\n{}", extra, text, trail.join(", then "), comps.iter().map(|c| c.brief()).collect::<Vec<_>>().join("\n"));
    // systems that cannot be formed have no simulation
    let formed = caught(|| {
        let mut l = crate::query::Loader::new(&comps, false)?;
        crate::sysio::build(&w, &t, &nm, &mut l).map(|_| ())
    });
    if !matches!(formed, Ok(Ok(()))) {
        c.count("systems that cannot be formed");
        return;
    }
    let (user, hash) = (r.range(0, 3) as i32, *r.pick(&[0u32, 7, 8]));
    let backend = ConcreteEcdarBackend::new(1, 1 + r.below(3));
    let start = caught(|| block_on(backend.start_simulation(tonic::Request::new(SimulationStartRequest { simulation_info: Some(info(&comps, &text, user, hash)) }))));
    let s = Sim { w: &w, t: &t, max, locs: all_locs(&w, &t).into_iter().map(|l| (location(&w, &t, &l), l)).collect() };
    let zero = Point(vec![0; w.dim]);
    let init = w.initial(&t).filter(|l| w.inv(&t, l, &zero));
    let mut resp = match (start, &init) {
        (Err(e), _) => return c.violation("panic", describe(&trail, format!("the start panicked: {}", e))),
        (Ok(Err(e)), Some(_)) => return c.violation("start", describe(&trail, format!("the simulation was refused: {}", e))),
        (Ok(Err(_)), None) => return c.count("systems without initial state"),
        (Ok(Ok(x)), _) => x.into_inner(),
    };
    let Some(init) = init else {
        c.count("systems without initial state");
        if resp.full_state.is_some() || !resp.new_decision_points.is_empty() {
            c.violation("start", describe(&trail, "a system without initial state offers something".into()));
        }
        return;
    };
    // the initial state: from zero, waiting
    let mut l = init;
    let Some(full) = resp.full_state.clone() else { return c.violation("start", describe(&trail, "no state".into())) };
    let mut z = match s.loc(&full.location_tree).and_then(|m| if m == l { Ok(()) } else { Err(format!("starts in {}", w.loc_text(&t, &m))) }).and_then(|_| zones(&w, full.zone.as_ref().ok_or("no zone")?)) {
        Ok(z) => z,
        Err(e) => return c.violation("start", describe(&trail, e)),
    };
    let mut ps = s.samples(r, &[&z], 12);
    ps.extend((0..12).map(|k| zero.delay(k * 4)));
    for p in ps {
        c.eval();
        let want = p.0[1..].windows(2).all(|x| x[0] == x[1]) && w.inv(&t, &l, &p);
        if within(&z, &p) != want {
            return c.violation("start", describe(&trail, format!("{:?}/12 is {} the initial state", p.0, if want { "missing from" } else { "no part of" })));
        }
    }
    let (mut steps, mut several) = (0, false);
    for _ in 0..6 {
        let ds = resp.new_decision_points.clone();
        if let Err((k, e)) = s.check(r, c, &l, &z, &ds) {
            return c.violation(k, describe(&trail, e));
        }
        c.count_n("decisions", ds.len() as u64);
        several |= ds.len() > 1;
        if ds.is_empty() {
            break;
        }
        let d = r.pick(&ds).clone();
        trail.push(format!("{} by {:?} to {}", d.action, d.edges.iter().map(|e| e.id.clone()).collect::<Vec<_>>(), s.loc(&d.destination.as_ref().unwrap().location_tree).map(|l| w.loc_text(&t, &l)).unwrap_or_default()));
        let step = caught(|| block_on(backend.take_simulation_step(tonic::Request::new(SimulationStepRequest { simulation_info: Some(info(&comps, &text, user, hash)), chosen_decision: Some(d.clone()) }))));
        resp = match step {
            Err(e) => return c.violation("panic", describe(&trail, format!("the step panicked: {}", e))),
            Ok(Err(e)) => return c.violation("step", describe(&trail, format!("an offered decision was refused: {}", e))),
            Ok(Ok(x)) => x.into_inner(),
        };
        steps += 1;
        let dest = d.destination.as_ref().unwrap();
        l = s.loc(&dest.location_tree).unwrap();
        z = zones(&w, dest.zone.as_ref().unwrap()).unwrap();
        let Some(full) = resp.full_state.clone() else { return c.violation("state", describe(&trail, "no state after the step".into())) };
        let same = s.loc(&full.location_tree).map(|m| m == l).unwrap_or(false)
            && zones(&w, &full.zone.clone().unwrap_or_default()).map(|f| s.samples(r, &[&z, &f], 6).iter().all(|p| within(&z, p) == within(&f, p))).unwrap_or(false);
        if !same {
            return c.violation("state", describe(&trail, format!("the state after the step is not the decision's destination: {:?}", full)));
        }
    }
    c.count_n("steps", steps);
    if steps > 2 && several {
        c.nontrivial((&text, &comps));
        c.sample(|| describe(&trail, String::new()));
    }
}
pub fn simulation(run: &'static Run) {
    run.cases("operators", (2500, 20), (400_000, 600), |r, c| {
        let mut p = Params { diagonals: r.chance(1, 2), disj: r.chance(1, 3), inv: 3, lower: *r.pick(&[0, 0, 4]), ..Params::small() };
        p.deterministic = !r.chance(1, 3);
        p.safe = r.chance(1, 2);
        p.special = *r.pick(&[0, 0, 2]);
        let (t, comps) = match r.below(8) {
            0 => (Tree::Leaf(0), vec![gen(r, "A", &["i", "j"], &["o", "p"], &p)]),
            1 => {
                let a = gen(r, "A", &["i", "j"], &["o", "p"], &p);
                (Tree::conj(Tree::Leaf(0), Tree::Leaf(1)), vec![a.clone(), a])
            }
            _ => operators(r, &mut p),
        };
        let mut comps = comps;
        if r.chance(1, 20) {
            // nothing is in its initial location
            if let Some(k) = comps.iter_mut().find(|k| !k.clocks.is_empty()) {
                let i = k.initial().unwrap();
                k.locs[i].inv = G::Cmp(0, Op::Lt, 0);
            }
        }
        case(r, c, t, comps, p.max);
    });
    run.cases("quotients", (2500, 20), (400_000, 600), |r, c| {
        let p = Params { diagonals: r.chance(1, 3), disj: r.chance(1, 3), inv: 4, special: *r.pick(&[0, 0, 1]), lower: *r.pick(&[0, 0, 4]), ..Params::small() };
        let (t, comps) = quotients(r, &p);
        case(r, c, t, comps, p.max);
    });
}

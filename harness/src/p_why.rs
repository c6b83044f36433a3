//! Negative answers: what they name must be wrong in the way they say, and the text and
//! the message say the same as the engine's own value.
use crate::model::*;
use crate::p_local::{overlap_at, saved};
use crate::p_reach::{meets, specific};
use crate::p_refine::*;
use crate::p_sim::{within, zones};
use crate::query::*;
use crate::sem::*;
use common::{guard as caught, Case, Rng, Run};
use reveaal::extract_system_rep::ExecutableQueryError;
use reveaal::ProtobufServer::services::query_response as proto;
use reveaal::ProtobufServer::services::{self, location_tree::NodeType, BinaryLocationOperator, ComponentInstance, LeafLocation, LocationTree};
use reveaal::System::query_failures::*;
use reveaal::System::specifics::{SpecificLocation, SpecificState};
use std::collections::{BTreeSet, HashSet, VecDeque};

type Check = Result<(), (&'static str, String)>;

/// The name of a system without spaces and without parentheses around all of it
fn plain(name: &str) -> String {
    let mut s: String = name.chars().filter(|c| !c.is_whitespace()).collect();
    loop {
        let mut depth = 0;
        let whole = s.starts_with('(') && s.char_indices().all(|(i, c)| {
            match c {
                '(' => depth += 1,
                ')' => depth -= 1,
                _ => {}
            }
            depth > 0 || i + 1 == s.len()
        });
        if !whole {
            return s;
        }
        s = s[1..s.len() - 1].into();
    }
}
fn subtrees<'a>(t: &'a Tree, out: &mut Vec<&'a Tree>) {
    out.push(t);
    match t {
        Tree::Leaf(_) => {}
        Tree::Conj(a, b) | Tree::Comp(a, b) | Tree::Quot(a, b) => {
            subtrees(a, out);
            subtrees(b, out);
        }
    }
}
fn kind(t: &Tree) -> SystemType {
    match t {
        Tree::Leaf(_) => SystemType::Simple,
        Tree::Conj(..) => SystemType::Conjunction,
        Tree::Comp(..) => SystemType::Composition,
        Tree::Quot(..) => SystemType::Quotient,
    }
}
struct Scene<'a> {
    w: &'a World,
    /// the systems that are part of the query, the whole first
    systems: Vec<&'a Tree>,
    names: Vec<String>,
    whole: String,
}
impl Scene<'_> {
    fn named(&self, name: &str) -> Vec<&Tree> {
        self.systems.iter().filter(|t| plain(&t.text(&self.names)) == plain(name)).cloned().collect()
    }
    fn is_input(&self, t: &Tree, a: &Action) -> Check {
        let (i, o) = self.w.actions(t);
        if a.is_input && i.contains(&a.name) || !a.is_input && o.contains(&a.name) {
            return Ok(());
        }
        Err(("action", format!("{} is no such action of {}", a, t.text(&self.names))))
    }
    /// Two edges for one action at one valuation, in a component
    fn ambiguous(&self, d: &DeterminismFailure) -> Check {
        let mut why = ("system", format!("no component is called {:?}", d.system));
        for t in self.named(&d.system) {
            match self.is_input(t, &d.action) {
                Err(e) => {
                    why = e;
                    continue;
                }
                Ok(()) => {}
            }
            let Tree::Leaf(i) = t else { continue };
            let comp = &self.w.insts[*i].comp;
            let found = (0..comp.locs.len()).find(|n| same_place(&specific(self.w, t, &Loc::At(*n)), &d.state.locations));
            let Some(n) = found else {
                why = ("location", format!("{} is no location of {}", d.state.locations, d.system));
                continue;
            };
            let one = World::of(&Tree::Leaf(0), std::slice::from_ref(comp));
            if overlap_at(&one, &Tree::Leaf(0), &Loc::At(n), &d.action.name) {
                return Ok(());
            }
            why = ("determinism", format!("{} never has two moves for {} in {}", d.system, d.action, d.state.locations));
        }
        Err(why)
    }
    /// A location that is reached and cannot be saved. All edges set all clocks to zero.
    fn doomed(&self, f: &ConsistencyFailure) -> Check {
        let (system, state) = match f {
            ConsistencyFailure::NotDeterministic(d) => return self.ambiguous(d),
            ConsistencyFailure::NoInitialState { system } => {
                return if self.named(system).iter().any(|t| match self.w.initial(t) {
                    None => true,
                    Some(l) => !self.w.inv(t, &l, &Region::zero(&self.w.bounds())),
                }) {
                    Ok(())
                } else {
                    Err(("initial", format!("{} has an initial state", system)))
                }
            }
            ConsistencyFailure::InconsistentLoc { system, state } | ConsistencyFailure::InconsistentFrom { system, state } => (system, state),
        };
        let mut why = ("system", format!("no system is called {:?}", system));
        for t in self.named(system) {
            let (mut d, mut exact) = (0, true);
            let Some((reached, good)) = saved(self.w, t, &mut d, &mut exact) else { return Ok(()) };
            let Some(l) = reached.iter().find(|l| specific(self.w, t, l) == state.locations) else {
                why = ("location", format!("{} does not get to {}", system, state.locations));
                continue;
            };
            if good.contains(l) {
                why = ("consistency", format!("{} is consistent in {}", system, state.locations));
                continue;
            }
            let typed = matches!((t, l), (Tree::Leaf(i), Loc::At(n)) if self.w.insts[*i].comp.locs[*n].kind == Kind::Inconsistent);
            if matches!(f, ConsistencyFailure::InconsistentLoc { .. }) && !typed {
                why = ("kind", format!("{} is no inconsistent location", state.locations));
                continue;
            }
            match meets(self.w, &state.constraints, &Region::zero(&self.w.bounds()).point()) {
                Ok(true) => return Ok(()),
                Ok(false) => why = ("clocks", format!("{} is entered with all clocks zero, the failure has {:?}", state.locations, state.constraints)),
                Err(e) => why = ("clocks", e),
            }
        }
        Err(why)
    }
    fn set(&self, s: &ActionSet, t: &Tree) -> Check {
        let (i, o) = self.w.actions(t);
        let want = if s.is_input { &i } else { &o };
        if s.actions.iter().cloned().collect::<BTreeSet<_>>() == *want && plain(&s.system) == plain(&t.text(&self.names)) {
            return Ok(());
        }
        Err(("action set", format!("{}; {} has inputs {:?} and outputs {:?}", s, t.text(&self.names), i, o)))
    }
    /// Action sets of two systems that do not go together
    fn clash(&self, f: &ActionFailure, one: &Tree, other: &Tree) -> Check {
        let (a, b, subset) = match f {
            ActionFailure::NotSubset(a, b) => (a, b, true),
            ActionFailure::NotDisjoint(a, b) => (a, b, false),
        };
        if subset && a.actions.is_subset(&b.actions) || !subset && a.actions.is_disjoint(&b.actions) {
            return Err(("clash", format!("{}: that is not so", f)));
        }
        self.set(a, one).and_then(|_| self.set(b, other)).or_else(|e| self.set(a, other).and_then(|_| self.set(b, one)).map_err(|_| e))
    }
    /// A system that cannot be formed
    fn misfit(&self, f: &ActionFailure, s: &System) -> Check {
        let mut why = ("system", format!("no system is called {:?}", s.name));
        for t in self.named(&s.name) {
            if kind(t) != s.sys_type {
                why = ("system type", format!("{} is called a {}", s.name, s.sys_type));
                continue;
            }
            let (x, y) = match t {
                Tree::Leaf(_) => (t, t),
                Tree::Conj(a, b) | Tree::Comp(a, b) | Tree::Quot(a, b) => (a.as_ref(), b.as_ref()),
            };
            if !matches!(t, Tree::Leaf(_)) && [x, y].iter().any(|s| self.w.illegal(s).is_some()) || self.w.illegal(t).is_none() {
                why = ("system", format!("{} can be formed, or a part of it cannot", s.name));
                continue;
            }
            let (p, q) = match f {
                ActionFailure::NotDisjoint(p, q) => (p, q),
                _ => return Err(("clash", format!("{} is no reason not to form a system", f))),
            };
            let fits = match t {
                Tree::Leaf(_) | Tree::Conj(..) => p.is_input != q.is_input,
                Tree::Comp(..) => !p.is_input && !q.is_input,
                // the dividend's inputs and the divisor's outputs
                Tree::Quot(..) => p.is_input != q.is_input && plain(&(if p.is_input { p } else { q }).system) == plain(&x.text(&self.names)),
            };
            if !fits {
                why = ("clash", format!("{} is no reason not to form a {}", f, s.sys_type));
                continue;
            }
            match self.clash(f, x, y) {
                Ok(()) => return Ok(()),
                Err(e) => why = e,
            }
        }
        Err(why)
    }
}
fn same_place(a: &SpecificLocation, b: &SpecificLocation) -> bool {
    match (a, b) {
        (SpecificLocation::ComponentLocation { comp: c, location_id: l }, SpecificLocation::ComponentLocation { comp: d, location_id: m }) => c == d && l == m,
        _ => a == b,
    }
}
// ---------------------------------------------------------------- messages
fn tree_of(l: &SpecificLocation) -> LocationTree {
    use reveaal::System::specifics::SpecialLocation as Sp;
    LocationTree {
        node_type: Some(match l {
            SpecificLocation::ComponentLocation { comp, location_id } => NodeType::LeafLocation(LeafLocation {
                id: location_id.clone(),
                component_instance: Some(ComponentInstance { component_name: comp.name.clone(), component_index: comp.id }),
            }),
            SpecificLocation::SpecialLocation(s) => NodeType::SpecialLocation(match s {
                Sp::Universal => 0,
                Sp::Error => 1,
            }),
            SpecificLocation::BranchLocation(a, b, k) => NodeType::BinaryLocationOp(Box::new(BinaryLocationOperator {
                left: Some(Box::new(tree_of(a))),
                right: Some(Box::new(tree_of(b))),
                operator: match k {
                    SystemType::Conjunction => 0,
                    SystemType::Composition => 1,
                    SystemType::Quotient => 2,
                    SystemType::Refinement => 3,
                    SystemType::Simple => -1,
                },
            })),
        }),
    }
}
/// The message shows this state
fn told_state(r: &mut Rng, w: &World, s: &SpecificState, m: &Option<services::State>) -> Check {
    let Some(m) = m else { return Err(("message", "no state".into())) };
    if m.location_tree != Some(tree_of(&s.locations)) {
        return Err(("message", format!("shows {:?} for {}", m.location_tree, s.locations)));
    }
    let z = zones(w, m.zone.as_ref().ok_or(("message", "no zone".to_string()))?).map_err(|e| ("message", e))?;
    for _ in 0..24 {
        let d = r.range(0, 40);
        let p = Point((0..w.dim).map(|i| if i == 0 { 0 } else if r.chance(1, 3) { d * 2 } else { r.range(0, 10) * DEN / 2 }).collect());
        let got = within(&z, &p);
        match meets(w, &s.constraints, &p) {
            Ok(x) if x == got => {}
            e => return Err(("message", format!("zone {:?} for {:?} at {:?}/12 ({:?})", m.zone, s.constraints, p.0, e))),
        }
    }
    Ok(())
}
fn told_step(r: &mut Rng, w: &World, s: &SpecificState, a: &Action, m: &Option<services::StateAction>) -> Check {
    match m {
        Some(m) if m.action == a.name => told_state(r, w, s, &m.state),
        m => Err(("message", format!("shows {:?} for {}", m.as_ref().map(|m| &m.action), a))),
    }
}
fn told_clash(f: &ActionFailure, m: &services::ActionFailure) -> Check {
    let (n, a, b) = match f {
        ActionFailure::NotSubset(a, b) => (0, a, b),
        ActionFailure::NotDisjoint(a, b) => (1, a, b),
    };
    let same = |s: &ActionSet, m: &services::action_failure::ActionSet| {
        s.system == m.system && s.is_input == m.is_input && m.actions.len() == s.actions.len() && m.actions.iter().all(|x| s.actions.contains(x))
    };
    if m.failure == n && m.action_sets.len() == 2 && same(a, &m.action_sets[0]) && same(b, &m.action_sets[1]) {
        return Ok(());
    }
    Err(("message", format!("shows {:?} for {}", m, f)))
}
fn told_determinism(r: &mut Rng, w: &World, f: &DeterminismFailure, m: &proto::DeterminismFailure) -> Check {
    if m.system != f.system {
        return Err(("message", format!("is about {} instead of {}", m.system, f.system)));
    }
    told_step(r, w, &f.state, &f.action, &m.failure_state)
}
fn told_consistency(r: &mut Rng, w: &World, f: &ConsistencyFailure, m: &proto::ConsistencyFailure) -> Check {
    use proto::consistency_failure::Failure as M;
    use ConsistencyFailure as C;
    let about = |s: &String| if m.system == *s { Ok(()) } else { Err(("message", format!("is about {} instead of {}", m.system, s))) };
    match (f, m.failure.as_ref()) {
        (C::NoInitialState { system }, Some(M::NoInitialState(_))) => about(system),
        (C::NotDeterministic(d), Some(M::Determinism(e))) => about(&d.system).and_then(|_| told_determinism(r, w, d, e)),
        (C::InconsistentLoc { system, state } | C::InconsistentFrom { system, state }, Some(M::FailureState(s))) => about(system).and_then(|_| told_state(r, w, state, &Some(s.clone()))),
        (f, m) => Err(("message", format!("shows {:?} for {}", m, f))),
    }
}
fn told_refinement(r: &mut Rng, w: &World, f: &RefinementFailure) -> Check {
    use proto::refinement_failure::Failure as M;
    use RefinementFailure as F;
    use RefinementPrecondition as P;
    let m: proto::RefinementFailure = f.clone().into();
    let name = match f {
        F::CutsDelaySolutions { system, .. } | F::CannotMatch { system, .. } => system,
        F::Precondition(P::EmptyChild { system, .. } | P::EmptyInitialState { system } | P::InconsistentChild(_, system) | P::ActionMismatch(_, system)) => system,
    };
    if m.system != name.name {
        return Err(("message", format!("is about {} instead of {}", m.system, name.name)));
    }
    match (f, m.failure.as_ref()) {
        (F::CutsDelaySolutions { state, action, .. }, Some(M::RefinementState(s))) if s.unmatched == 1 => told_step(r, w, state, action, &s.state),
        (F::CannotMatch { state, action, .. }, Some(M::RefinementState(s))) if s.unmatched == 0 => told_step(r, w, state, action, &s.state),
        (F::Precondition(P::EmptyChild { child, .. }), Some(M::EmptySystem(c))) if c == child => Ok(()),
        (F::Precondition(P::EmptyInitialState { .. }), Some(M::NoInitialState(_))) => Ok(()),
        (F::Precondition(P::InconsistentChild(x, _)), Some(M::InconsistentChild(y))) => told_consistency(r, w, x, y),
        (F::Precondition(P::ActionMismatch(x, _)), Some(M::ActionMismatch(y))) => told_clash(x, y),
        (f, m) => Err(("message", format!("shows {:?} for {}", m, f))),
    }
}
fn told_recipe(r: &mut Rng, w: &World, f: &SystemRecipeFailure) -> Check {
    use proto::model_failure::Failure as M;
    let m: proto::ModelFailure = f.clone().into();
    let (SystemRecipeFailure::Action(_, s) | SystemRecipeFailure::Inconsistent(_, s)) = f;
    if m.system != s.name {
        return Err(("message", format!("is about {} instead of {}", m.system, s.name)));
    }
    match (f, m.failure.as_ref()) {
        (SystemRecipeFailure::Action(x, _), Some(M::ActionMismatch(y))) => told_clash(x, y),
        (SystemRecipeFailure::Inconsistent(x, _), Some(M::InconsistentConjunction(y))) => told_consistency(r, w, x, y),
        (f, m) => Err(("message", format!("shows {:?} for {}", m, f))),
    }
}
/// The text names these
fn says(text: String, words: &[&str]) -> Check {
    match words.iter().find(|w| !text.contains(*w)) {
        Some(w) => Err(("text", format!("{:?} does not name {:?}", text, w))),
        None => Ok(()),
    }
}
fn names_actions(f: &ActionFailure) -> Vec<&str> {
    let (ActionFailure::NotSubset(a, b) | ActionFailure::NotDisjoint(a, b)) = f;
    let mut v = vec![a.system.as_str(), b.system.as_str(), if a.is_input { "Input" } else { "Output" }, if b.is_input { "Input" } else { "Output" }];
    v.extend(a.actions.iter().chain(&b.actions).map(|s| s.as_str()));
    v.push(if matches!(f, ActionFailure::NotSubset(..)) { "subset" } else { "disjoint" });
    v
}
fn names_consistency(f: &ConsistencyFailure) -> Vec<String> {
    match f {
        ConsistencyFailure::NoInitialState { system } => vec![system.clone(), "no initial state".into()],
        ConsistencyFailure::NotDeterministic(d) => vec![d.system.clone(), "not deterministic".into(), d.action.to_string(), d.state.to_string()],
        ConsistencyFailure::InconsistentLoc { system, state } | ConsistencyFailure::InconsistentFrom { system, state } => vec![system.clone(), "inconsistent".into(), state.to_string()],
    }
}
fn strs(v: &[String]) -> Vec<&str> {
    v.iter().map(|s| s.as_str()).collect()
}
fn recipe(r: &mut Rng, s: &Scene, f: &SystemRecipeFailure) -> Check {
    told_recipe(r, s.w, f)?;
    match f {
        SystemRecipeFailure::Action(a, sys) => {
            let mut words = names_actions(a);
            words.push(&sys.name);
            says(f.to_string(), &words)?;
            s.misfit(a, sys)
        }
        SystemRecipeFailure::Inconsistent(cf, sys) => {
            let mut words = names_consistency(cf);
            words.push(sys.name.clone());
            says(f.to_string(), &strs(&words))?;
            let about = s.named(&sys.name);
            if about.is_empty() || about.iter().all(|t| kind(t) != sys.sys_type) {
                return Err(("system", format!("no {} is called {:?}", sys.sys_type, sys.name)));
            }
            s.doomed(cf)
        }
    }
}
// ---------------------------------------------------------------- refinement
/// The pairs of states that are reached while both sides keep up with each other
fn together(w: &World, s: &Tree, t: &Tree, limit: usize) -> Option<Vec<(Loc, Loc, Region)>> {
    let bounds = w.bounds();
    let ((ls, v), (lt, _)) = (start(w, s, &bounds)?, start(w, t, &bounds)?);
    let mut seen: HashSet<(Loc, Loc, Region)> = HashSet::new();
    let mut queue = VecDeque::from([(ls, lt, v)]);
    while let Some(st) = queue.pop_front() {
        if !seen.insert(st.clone()) {
            continue;
        }
        if seen.len() > limit {
            return None;
        }
        let (ls, lt, v) = st;
        let n = v.succ();
        if n != v && w.inv(s, &ls, &n) && w.inv(t, &lt, &n) {
            queue.push_back((ls.clone(), lt.clone(), n));
        }
        for (_, x) in moves(w, s, t, &ls, &lt, &v, None) {
            for (l, m, n) in x {
                queue.push_back((l, m, n));
            }
        }
    }
    Some(seen.into_iter().collect())
}
/// For each action the challenging side can take here (or one of them), the pairs it leads to
fn moves(w: &World, s: &Tree, t: &Tree, ls: &Loc, lt: &Loc, v: &Region, only: Option<&str>) -> Vec<(String, Vec<(Loc, Loc, Region)>)> {
    let ((si, so), (ti, to)) = (w.actions(s), w.actions(t));
    let mut out = vec![];
    for (acts, mine, left) in [(&so, &to, true), (&ti, &si, false)] {
        for a in acts.iter().filter(|a| only.map(|o| o == *a).unwrap_or(true)) {
            let (cs, cl, rs, rl) = if left { (s, ls, t, lt) } else { (t, lt, s, ls) };
            let answers: Vec<(Loc, Vec<(usize, i32)>)> =
                if mine.contains(a) { w.steps(rs, rl, a, v).into_iter().map(|(m, _)| (m.to, m.upd)).collect() } else { vec![(rl.clone(), vec![])] };
            let steps = w.steps(cs, cl, a, v);
            if steps.is_empty() {
                continue;
            }
            let mut x = vec![];
            for (m, _) in &steps {
                for (to, upd) in &answers {
                    let n = w.updated(&w.updated(v, &m.upd), upd);
                    x.push(if left { (m.to.clone(), to.clone(), n) } else { (to.clone(), m.to.clone(), n) });
                }
            }
            out.push((a.clone(), x));
        }
    }
    out
}
/// From here the left may wait until a moment the right does not allow
fn cuts(w: &World, s: &Tree, t: &Tree, (ls, lt, v): &(Loc, Loc, Region)) -> bool {
    let mut v = v.clone();
    while w.inv(s, ls, &v) {
        if !w.inv(t, lt, &v) {
            return true;
        }
        if v.is_last() {
            return false;
        }
        v = v.succ();
    }
    false
}
fn refuted(s: &Scene, l: &Tree, t: &Tree, f: &RefinementFailure) -> Check {
    let w = s.w;
    let (system, action, state, delay) = match f {
        RefinementFailure::CutsDelaySolutions { system, action, state } => (system, action, state, true),
        RefinementFailure::CannotMatch { system, action, state } => (system, action, state, false),
        _ => unreachable!(),
    };
    if plain(&system.name) != plain(&s.whole) || system.sys_type != SystemType::Refinement {
        return Err(("system", format!("the failure is about {} {:?}", system.sys_type, system.name)));
    }
    let first = delay && action.name.is_empty();
    if !first {
        let right = w.actions(t).0.contains(&action.name);
        let left = w.actions(l).1.contains(&action.name);
        if !(action.is_input && right || !action.is_input && left) {
            return Err(("action", format!("{} is nothing that has to be matched", action)));
        }
    }
    let Some(pairs) = together(w, l, t, 40_000) else { return Err(("", "too large for the oracle".into())) };
    let place = |p: &(Loc, Loc, Region)| SpecificLocation::BranchLocation(Box::new(specific(w, l, &p.0)), Box::new(specific(w, t, &p.1)), SystemType::Refinement);
    let there: Vec<_> = pairs.iter().filter(|p| place(p) == state.locations).collect();
    if there.is_empty() {
        return Err(("location", format!("the systems do not get to {}", state.locations)));
    }
    let mut wrong = 0;
    for p in &there {
        let bad = if first {
            **p == (w.initial(l).unwrap(), w.initial(t).unwrap(), Region::zero(&w.bounds())) && cuts(w, l, t, p)
        } else {
            let m = moves(w, l, t, &p.0, &p.1, &p.2, Some(&action.name));
            if delay { m.iter().any(|(_, x)| x.iter().any(|q| cuts(w, l, t, q))) } else { m.iter().any(|(_, x)| x.is_empty()) }
        };
        if !bad {
            continue;
        }
        wrong += 1;
        for z in zones(w, &state.constraints.clone().into()).map_err(|e| ("clocks", e))? {
            let mut z = z;
            for (i, j, b, strict) in p.2.constraints() {
                z.add(i, j, b, strict);
            }
            if z.close() {
                return Ok(());
            }
        }
    }
    if wrong == 0 {
        return Err(("match", format!("in {} {} is always matched", state.locations, action)));
    }
    Err(("clocks", format!("in {} the clock values {:?} are none of those at which {} is not matched", state.locations, state.constraints, action)))
}
fn refinement_case(r: &mut Rng, c: &mut Case) {
    let p = Params { lower: *r.pick(&[0, 0, 4]), overlap: 2, disj: r.chance(1, 4), inv: 4, max: 2 + r.below(2) as i32, locs: (1, 2 + r.below(3)), clocks: (0, if r.chance(1, 3) { 2 } else { 1 }), special: *r.pick(&[0, 0, 1]), ..Params::small() };
    let mut q = pairs(r, &p);
    if r.chance(1, 10) {
        // one side cannot do anything
        let k = r.below(q.comps.len());
        q.comps[k].edges.clear();
        q.comps[k].inputs.clear();
        q.comps[k].outputs.clear();
        q.comps[k].name = "Z".into();
        if r.chance(1, 2) {
            q.left = Tree::Leaf(0);
            q.right = Tree::Leaf(1);
            q.comps.truncate(2);
        }
    }
    if r.chance(1, 6) {
        for k in q.comps.iter_mut() {
            if r.chance(1, 2) {
                k.name = format!("{}{}", k.name, if r.chance(1, 2) { "_2" } else { "Q" });
            }
        }
    }
    let mut seen: Vec<&Comp> = vec![];
    for k in &q.comps {
        if seen.iter().any(|o| o.name == k.name && *o != k) {
            return;
        }
        seen.push(k);
    }
    let names: Vec<String> = q.comps.iter().map(|c| c.name.clone()).collect();
    let both = Tree::quot(q.left.clone(), q.right.clone());
    let w = if q.left.has_quotient() || q.right.has_quotient() { World::of(&both, &q.comps) } else { World::of(&Tree::Leaf(0), &q.comps) };
    let whole = format!("{} <= {}", q.left.text(&names), q.right.text(&names));
    let all = distinct(&q.comps);
    let describe = |e: String| format!("{}\nrefinement: {}\n{}", e, whole, all.iter().map(|c| c.brief()).collect::<Vec<_>>().join("\n"));
    let got = match caught(|| Loader::new(&all, false).map(|mut l| l.run(&format!("refinement: {}", whole)))) {
        Ok(Ok(g)) => g,
        e => return c.violation("panic", describe(format!("no answer: {:?}", e.err()))),
    };
    c.count(&verdict(&got));
    let mut systems = vec![];
    subtrees(&q.left, &mut systems);
    subtrees(&q.right, &mut systems);
    let s = Scene { w: &w, systems, names: names.clone(), whole: whole.clone() };
    let (text, checked) = match &got {
        Ok(QueryResult::Refinement(Err(f))) => {
            let (words, check) = match f {
                RefinementFailure::CutsDelaySolutions { system, action, state } | RefinementFailure::CannotMatch { system, action, state } => {
                    (vec![system.name.clone(), action.to_string(), state.to_string()], refuted(&s, &q.left, &q.right, f))
                }
                RefinementFailure::Precondition(RefinementPrecondition::ActionMismatch(a, sys)) => {
                    let mut words: Vec<String> = names_actions(a).iter().map(|s| s.to_string()).collect();
                    words.push(sys.name.clone());
                    let here = plain(&sys.name) == plain(&whole) && sys.sys_type == SystemType::Refinement;
                    (words, if here { s.clash(a, &q.left, &q.right).and_then(|_| requirement(a, &s, &q)) } else { Err(("system", format!("the failure is about {:?}", sys))) })
                }
                RefinementFailure::Precondition(RefinementPrecondition::InconsistentChild(cf, sys)) => {
                    let mut words = names_consistency(cf);
                    words.push(sys.name.clone());
                    let here = plain(&sys.name) == plain(&whole) && sys.sys_type == SystemType::Refinement;
                    (words, if !here { Err(("system", format!("the failure is about {:?}", sys))) } else if let ConsistencyFailure::NotDeterministic(d) = cf { s.ambiguous(d) } else { Ok(()) })
                }
                RefinementFailure::Precondition(_) => (vec![], Err(("initial", "both systems have an initial state".into()))),
            };
            (f.to_string(), check.and_then(|_| says(f.to_string(), &strs(&words))).and_then(|_| told_refinement(r, &w, f)))
        }
        Err(ExecutableQueryError::SystemRecipeFailure(f)) => {
            // consistency is looked at where all clocks are reset
            let check = match f {
                SystemRecipeFailure::Inconsistent(..) => told_recipe(r, &w, f),
                _ => recipe(r, &s, f),
            };
            (f.to_string(), check)
        }
        Ok(QueryResult::Refinement(Ok(()))) => return,
        g => return c.violation("answer", describe(format!("the answer is {:?}", g))),
    };
    done(c, text, checked, &describe, (&whole, &all));
}
fn requirement(a: &ActionFailure, s: &Scene, q: &Pair) -> Check {
    let (l, t) = (plain(&q.left.text(&s.names)), plain(&q.right.text(&s.names)));
    let of = |x: &ActionSet, n: &String| plain(&x.system) == *n;
    let ok = match a {
        // inputs of the left are inputs of the right; outputs of the right outputs of the left
        ActionFailure::NotSubset(x, y) => x.is_input == y.is_input && (x.is_input && of(x, &l) && of(y, &t) || !x.is_input && of(x, &t) && of(y, &l)),
        ActionFailure::NotDisjoint(x, y) => x.is_input != y.is_input,
    };
    if ok { Ok(()) } else { Err(("clash", format!("{} is no reason for the refinement to fail", a))) }
}
fn done(c: &mut Case, text: String, checked: Check, describe: &dyn Fn(String) -> String, key: impl std::hash::Hash) {
    c.eval();
    match checked {
        Ok(()) => {
            c.nontrivial(key);
            c.sample(|| describe(text.clone()));
        }
        Err(("", e)) => c.count(&e),
        Err((k, e)) => c.violation(k, describe(format!("the answer is: {}\n{}", text, e))),
    }
}
// ---------------------------------------------------------------- one system
fn system_case(r: &mut Rng, c: &mut Case) {
    let clashing = r.chance(1, 2);
    let p = Params {
            lower: *r.pick(&[0, 0, 3]),
        reset_all: true,
        overlap: if r.chance(1, 6) { 4 } else { 0 },
        safe: clashing,
        deterministic: r.chance(3, 4),
        inv: 3 + r.below(4) as u64,
        edge: 3 + r.below(4) as u64,
        locs: (1, 2 + r.below(3)),
        clocks: (0, 1 + r.below(2)),
        special: *r.pick(&[0, 0, 1]),
        ..Params::small()
    };
    let n = 1 + r.below(4);
    let mut comps: Vec<Comp> = vec![];
    for k in 0..n {
        let name = ["A", "B", "C", "D"][k];
        if k > 0 && r.chance(1, 8) {
            let o = r.pick(&comps).clone();
            comps.push(o);
            continue;
        }
        if clashing {
            let mut pool = vec!["a", "b", "c", "d", "e"];
            r.shuffle(&mut pool);
            let (i, o) = (r.below(3), r.below(3));
            let (ins, outs): (Vec<&str>, Vec<&str>) = (pool[..i].to_vec(), pool[2..2 + o].to_vec());
            let mut m = gen(r, name, &ins, &outs, &p);
            if r.chance(1, 12) && !m.out_actions().is_empty() {
                // an output that is an input as well
                let a = m.out_actions().into_iter().next().unwrap();
                m.inputs.push(a);
            }
            comps.push(m);
        } else {
            comps.push(gen(r, name, &["i", "j"], &["o", "p"], &p));
        }
    }
    let mut trees: Vec<Tree> = (0..n).map(Tree::Leaf).collect();
    let mut quotient = false;
    while trees.len() > 1 {
        let k = r.below(trees.len() - 1);
        let (b, a) = (trees.remove(k + 1), trees.remove(k));
        let op = if quotient || !clashing { r.below(2) } else { r.below(3) };
        quotient |= op == 2;
        trees.insert(k, match op {
            0 => Tree::conj(a, b),
            1 if clashing => Tree::comp(a, b),
            1 => Tree::conj(a, b),
            _ => Tree::quot(a, b),
        });
    }
    let t = trees.pop().unwrap();
    let names: Vec<String> = comps.iter().map(|c| c.name.clone()).collect();
    let w = World::of(&t, &comps);
    let all = distinct(&comps);
    let word = *r.pick(&["consistency", "consistency", "determinism"]);
    let whole = t.text(&names);
    let describe = |e: String| format!("{}\n{}: {}\n{}", e, word, whole, all.iter().map(|c| c.brief()).collect::<Vec<_>>().join("\n"));
    let got = match caught(|| Loader::new(&all, false).map(|mut l| l.run(&format!("{}: {}", word, whole)))) {
        Ok(Ok(g)) => g,
        e => return c.violation("panic", describe(format!("no answer: {:?}", e.err()))),
    };
    c.count(&verdict(&got));
    let mut systems = vec![];
    subtrees(&t, &mut systems);
    let s = Scene { w: &w, systems, names: names.clone(), whole: whole.clone() };
    let (text, checked) = match &got {
        Err(ExecutableQueryError::SystemRecipeFailure(f)) => (f.to_string(), recipe(r, &s, f)),
        Ok(QueryResult::Consistency(Err(f))) => {
            let m: proto::ConsistencyFailure = f.clone().into();
            (f.to_string(), s.doomed(f).and_then(|_| told_consistency(r, &w, f, &m)).and_then(|_| says(f.to_string(), &strs(&names_consistency(f)))))
        }
        Ok(QueryResult::Determinism(Err(f))) => {
            let m: proto::DeterminismFailure = f.clone().into();
            (f.to_string(), s.ambiguous(f).and_then(|_| told_determinism(r, &w, f, &m)).and_then(|_| says(f.to_string(), &[&f.system, &f.action.to_string(), &f.state.to_string()])))
        }
        Ok(QueryResult::Consistency(Ok(()))) | Ok(QueryResult::Determinism(Ok(()))) => {
            c.eval();
            if let Some(e) = w.illegal(&t) {
                c.violation("formed", describe(format!("an answer about a system that cannot be formed: {}", e)));
            }
            return;
        }
        g => return c.violation("answer", describe(format!("the answer is {:?}", g))),
    };
    done(c, text, checked, &describe, (word, &whole, &all));
}
pub fn reasons(run: &'static Run) {
    run.cases("refinements", (20000, 30), (800_000, 900), refinement_case);
    run.cases("systems", (20000, 30), (800_000, 900), system_case);
}

//! The semantics the monitors hold the code to: what a combined system may do from a
//! location at a clock valuation, written from the definitions of the operators and
//! sharing nothing with the code under test. Valuations are either regions (for exact
//! exploration) or points (for comparing with a zone the code computed).
use crate::model::*;
use std::collections::{BTreeSet, HashMap, HashSet, VecDeque};
use std::hash::Hash;

/// Clock 0 is the constant zero
pub trait Val: Clone + Eq + Hash {
    fn cmp(&self, i: usize, j: usize, op: Op, c: i32) -> bool;
    fn set(&mut self, i: usize, c: i32);
}

// ---------------------------------------------------------------- points
/// Clock values in units of 1/DEN
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Point(pub Vec<i64>);
pub const DEN: i64 = 12;
impl Val for Point {
    fn cmp(&self, i: usize, j: usize, op: Op, c: i32) -> bool {
        op.holds(self.0[i] - self.0[j], c as i64 * DEN)
    }
    fn set(&mut self, i: usize, c: i32) {
        self.0[i] = c as i64 * DEN;
    }
}
impl Point {
    pub fn delay(&self, d: i64) -> Point {
        let mut p = self.clone();
        for v in p.0.iter_mut().skip(1) {
            *v += d;
        }
        p
    }
}

// ---------------------------------------------------------------- regions
/// For each clock its integer part and the rank of its fraction (0: no fraction);
/// above its bound a clock is only known to be above it.
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Region {
    v: Vec<(u8, u8)>,
    m: std::rc::Rc<Vec<u8>>,
}
impl Region {
    pub fn zero(bounds: &[i32]) -> Region {
        Region {
            v: vec![(0, 0); bounds.len()],
            m: std::rc::Rc::new(bounds.iter().map(|b| *b as u8).collect()),
        }
    }
    fn over(&self, i: usize) -> bool {
        self.v[i].0 > self.m[i]
    }
    fn dense(&mut self) {
        let ranks: BTreeSet<u8> = (1..self.v.len()).filter(|i| !self.over(*i)).map(|i| self.v[i].1).filter(|r| *r > 0).collect();
        let map: HashMap<u8, u8> = ranks.into_iter().enumerate().map(|(i, r)| (r, i as u8 + 1)).collect();
        for i in 1..self.v.len() {
            if self.over(i) {
                self.v[i] = (self.m[i] + 1, 0);
            } else if self.v[i].1 > 0 {
                self.v[i].1 = map[&self.v[i].1];
            }
        }
    }
    /// Every region under these bounds
    pub fn all(bounds: &[i32]) -> Vec<Region> {
        let mut seen = HashSet::new();
        let mut out = vec![];
        let n = bounds.len();
        let zero = Region::zero(bounds);
        fn rec(i: usize, n: usize, cur: &mut Region, seen: &mut HashSet<Region>, out: &mut Vec<Region>) {
            if i == n {
                let mut r = cur.clone();
                r.dense();
                if seen.insert(r.clone()) {
                    out.push(r);
                }
                return;
            }
            for k in 0..=cur.m[i] {
                for f in 0..n as u8 {
                    if k == cur.m[i] && f > 0 {
                        continue;
                    }
                    cur.v[i] = (k, f);
                    rec(i + 1, n, cur, seen, out);
                }
            }
            cur.v[i] = (cur.m[i] + 1, 0);
            rec(i + 1, n, cur, seen, out);
            cur.v[i] = (0, 0);
        }
        let mut cur = zero;
        rec(1, n, &mut cur, &mut seen, &mut out);
        out
    }
    pub fn bounds(&self) -> Vec<i32> {
        self.m.iter().map(|b| *b as i32).collect()
    }
    /// The region of some of the clocks
    pub fn keep(&self, clocks: &[usize]) -> Region {
        let pick = |i: &usize| (self.v[*i], self.m[*i]);
        let (v, m): (Vec<_>, Vec<_>) = std::iter::once(&0).chain(clocks).map(pick).unzip();
        let mut r = Region { v, m: std::rc::Rc::new(m) };
        r.dense();
        r
    }
    pub fn any_over(&self) -> bool {
        (1..self.v.len()).any(|i| self.over(i))
    }
    /// The next region in time; the last one is its own successor
    pub fn succ(&self) -> Region {
        let mut n = self.clone();
        let live: Vec<usize> = (1..self.v.len()).filter(|i| !self.over(*i)).collect();
        if live.is_empty() {
            return n;
        }
        if live.iter().any(|i| self.v[*i].1 == 0) {
            for i in live {
                if self.v[i].1 == 0 {
                    if self.v[i].0 == self.m[i] {
                        n.v[i].0 = self.m[i] + 1;
                    } else {
                        n.v[i].1 = 1;
                    }
                } else {
                    n.v[i].1 += 1;
                }
            }
        } else {
            let top = live.iter().map(|i| self.v[*i].1).max().unwrap();
            for i in live {
                if self.v[i].1 == top {
                    n.v[i] = (self.v[i].0 + 1, 0);
                }
            }
        }
        n.dense();
        n
    }
    /// clock i - clock j op c, where the region tells
    pub fn diff(&self, i: usize, j: usize, op: Op, c: i32) -> Option<bool> {
        let (a, b) = (self.v[i], self.v[j]);
        match (self.over(i), self.over(j)) {
            (true, true) => None,
            // doubled, with fractions as one half
            (false, false) => Some(op.holds(2 * (a.0 as i32 - b.0 as i32) + (a.1 > b.1) as i32 - (a.1 < b.1) as i32, 2 * c)),
            // i - j is above this
            (true, false) if self.m[i] as i32 - b.0 as i32 - (b.1 > 0) as i32 >= c => Some(matches!(op, Op::Gt | Op::Ge)),
            // i - j is below this
            (false, true) if a.0 as i32 + (a.1 > 0) as i32 - self.m[j] as i32 <= c => Some(matches!(op, Op::Lt | Op::Le)),
            _ => None,
        }
    }
    pub fn is_last(&self) -> bool {
        (1..self.v.len()).all(|i| self.over(i))
    }
    /// A point of this region, if the fractions fit
    pub fn point(&self) -> Point {
        let k = (1..self.v.len()).map(|i| self.v[i].1).max().unwrap_or(0) as i64 + 1;
        let mut p = vec![0];
        for i in 1..self.v.len() {
            p.push(if self.over(i) {
                (self.m[i] as i64) * DEN + DEN / 2 + 3 * DEN
            } else {
                self.v[i].0 as i64 * DEN + self.v[i].1 as i64 * DEN / k
            });
        }
        Point(p)
    }
    /// x_i - x_j <= b/DEN, or < where strict
    pub fn constraints(&self) -> Vec<(usize, usize, i64, bool)> {
        let mut out = vec![];
        for i in 1..self.v.len() {
            let (n, f) = self.v[i];
            if self.over(i) {
                out.push((0, i, -(self.m[i] as i64) * DEN, true));
                continue;
            }
            out.push((i, 0, (n as i64 + (f > 0) as i64) * DEN, f > 0));
            out.push((0, i, -(n as i64) * DEN, f > 0));
            for j in (1..self.v.len()).filter(|j| *j != i && !self.over(*j)) {
                let (d, g) = ((n as i64 - self.v[j].0 as i64) * DEN, self.v[j].1);
                out.push((i, j, d + if f > g { DEN } else { 0 }, f != g));
            }
        }
        out
    }
    pub fn text(&self) -> String {
        (1..self.v.len())
            .map(|i| if self.over(i) { format!(">{}", self.m[i]) } else if self.v[i].1 == 0 { format!("{}", self.v[i].0) } else { format!("{}.f{}", self.v[i].0, self.v[i].1) })
            .collect::<Vec<_>>()
            .join(" ")
    }
}
impl Val for Region {
    fn cmp(&self, i: usize, j: usize, op: Op, c: i32) -> bool {
        assert!(j == 0 && i > 0, "regions do not decide differences");
        if self.over(i) {
            assert!(c <= self.m[i] as i32);
            return matches!(op, Op::Ge | Op::Gt);
        }
        // doubled, with fractions as one half
        op.holds(self.v[i].0 as i32 * 2 + (self.v[i].1 > 0) as i32, c * 2)
    }
    fn set(&mut self, i: usize, c: i32) {
        self.v[i] = if c > self.m[i] as i32 { (self.m[i] + 1, 0) } else { (c as u8, 0) };
        self.dense();
    }
}

// ---------------------------------------------------------------- systems
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Loc {
    At(usize),
    Pair(Box<Loc>, Box<Loc>),
    Univ,
    Err,
}
impl Loc {
    fn parts(&self) -> (&Loc, &Loc) {
        match self {
            Loc::Pair(a, b) => (a, b),
            _ => panic!("not a pair"),
        }
    }
    /// A quotient's moves into its special locations name the edges that it considered
    pub fn special(&self) -> bool {
        match self {
            Loc::Univ | Loc::Err => true,
            Loc::At(_) => false,
            Loc::Pair(a, b) => a.special() || b.special(),
        }
    }
}
/// One component instance and where its clocks start
#[derive(Clone)]
pub struct Inst {
    pub comp: Comp,
    pub base: usize,
}
/// What a move does: the edges taken (instance, edge id), clock values set, where to
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Move {
    pub edges: Vec<(usize, String)>,
    pub upd: Vec<(usize, i32)>,
    pub to: Loc,
}
#[derive(Clone)]
pub struct World {
    pub insts: Vec<Inst>,
    /// The quotient's own clock, if there is a quotient
    pub quot: usize,
    /// Number of clocks, with the zero clock
    pub dim: usize,
}
impl World {
    pub fn new(comps: &[Comp]) -> World {
        let mut base = 1;
        let mut insts = vec![];
        for c in comps {
            insts.push(Inst { comp: c.clone(), base });
            base += c.clocks.len();
        }
        World { insts, quot: base, dim: base + 1 }
    }
    /// Without a quotient clock unless the system has a quotient
    pub fn of(t: &Tree, comps: &[Comp]) -> World {
        let mut w = World::new(comps);
        if !t.has_quotient() {
            w.dim = w.quot;
            w.quot = 0;
        }
        w
    }
    pub fn bounds(&self) -> Vec<i32> {
        let mut b = vec![0; self.dim];
        for i in &self.insts {
            for x in 0..i.comp.clocks.len() {
                b[i.base + x] = i.comp.max_const(x);
            }
        }
        b
    }
    pub fn sat<V: Val>(&self, inst: usize, g: &G, v: &V) -> bool {
        let b = self.insts[inst].base;
        match g {
            G::True => true,
            G::False => false,
            G::Cmp(x, o, c) => v.cmp(b + x, 0, *o, *c),
            G::Diff(x, y, o, c) => v.cmp(b + x, b + y, *o, *c),
            G::And(l) => l.iter().all(|g| self.sat(inst, g, v)),
            G::Or(l) => l.iter().any(|g| self.sat(inst, g, v)),
        }
    }
    pub fn updated<V: Val>(&self, v: &V, upd: &[(usize, i32)]) -> V {
        let mut v = v.clone();
        for (x, c) in upd {
            v.set(*x, *c);
        }
        v
    }
    pub fn initial(&self, t: &Tree) -> Option<Loc> {
        Some(match t {
            Tree::Leaf(i) => Loc::At(self.insts[*i].comp.initial()?),
            Tree::Conj(a, b) | Tree::Comp(a, b) | Tree::Quot(a, b) => Loc::Pair(Box::new(self.initial(a)?), Box::new(self.initial(b)?)),
        })
    }
    pub fn actions(&self, t: &Tree) -> (BTreeSet<String>, BTreeSet<String>) {
        match t {
            Tree::Leaf(i) => (self.insts[*i].comp.in_actions(), self.insts[*i].comp.out_actions()),
            Tree::Conj(a, b) => {
                let ((ai, ao), (bi, bo)) = (self.actions(a), self.actions(b));
                (ai.intersection(&bi).cloned().collect(), ao.intersection(&bo).cloned().collect())
            }
            Tree::Comp(a, b) => {
                let ((ai, ao), (bi, bo)) = (self.actions(a), self.actions(b));
                let i = ai.difference(&bo).chain(bi.difference(&ao)).cloned().collect();
                (i, ao.union(&bo).cloned().collect())
            }
            Tree::Quot(a, b) => {
                let ((ti, to), (si, so)) = (self.actions(a), self.actions(b));
                let mut i: BTreeSet<String> = ti.union(&so).cloned().collect();
                let n = self.new_input(a, b);
                i.insert(n);
                (i, to.difference(&so).chain(si.difference(&ti)).cloned().collect())
            }
        }
    }
    pub fn new_input(&self, t: &Tree, s: &Tree) -> String {
        let ((ti, _), (_, so)) = (self.actions(t), self.actions(s));
        (0..).map(|i| format!("quotient_new_input{}", i)).find(|n| !ti.contains(n) && !so.contains(n)).unwrap()
    }
    /// Why the operators cannot be applied to these action sets, if they cannot
    pub fn illegal(&self, t: &Tree) -> Option<String> {
        match t {
            Tree::Leaf(i) => {
                let (a, b) = self.actions(&Tree::Leaf(*i));
                if a.intersection(&b).next().is_some() {
                    return Some("an action is both input and output".into());
                }
                None
            }
            Tree::Conj(a, b) | Tree::Comp(a, b) | Tree::Quot(a, b) => {
                if let Some(e) = self.illegal(a).or_else(|| self.illegal(b)) {
                    return Some(e);
                }
                let ((ai, ao), (bi, bo)) = (self.actions(a), self.actions(b));
                let meet = |x: &BTreeSet<String>, y: &BTreeSet<String>| x.intersection(y).next().is_some();
                match t {
                    Tree::Conj(..) if meet(&ai, &bo) || meet(&ao, &bi) => Some("input of one side of a conjunction is output of the other".into()),
                    Tree::Comp(..) if meet(&ao, &bo) => Some("common output in a composition".into()),
                    Tree::Quot(..) if meet(&bo, &ai) => Some("output of the divisor is input of the dividend".into()),
                    _ => None,
                }
            }
        }
    }
    pub fn inv<V: Val>(&self, t: &Tree, l: &Loc, v: &V) -> bool {
        match (t, l) {
            (_, Loc::Univ) => true,
            (_, Loc::Err) => v.cmp(self.quot, 0, Op::Eq, 0),
            (Tree::Leaf(i), Loc::At(n)) => self.sat(*i, &self.insts[*i].comp.locs[*n].inv, v),
            (Tree::Conj(a, b), Loc::Pair(x, y)) | (Tree::Comp(a, b), Loc::Pair(x, y)) => self.inv(a, x, v) && self.inv(b, y, v),
            (Tree::Quot(..), Loc::Pair(..)) => true,
            _ => panic!("location does not fit the system"),
        }
    }
    /// Moves whose guard holds at `v`; the target's invariant has not been looked at
    pub fn guarded<V: Val>(&self, t: &Tree, l: &Loc, a: &str, v: &V) -> Vec<Move> {
        match t {
            Tree::Leaf(i) => {
                let c = &self.insts[*i].comp;
                let Loc::At(n) = l else { panic!("location does not fit the system") };
                let base = self.insts[*i].base;
                let mut out = vec![];
                match c.locs[*n].kind {
                    Kind::Universal if self.has(t, a) => return vec![Move { edges: vec![], upd: vec![], to: l.clone() }],
                    Kind::Inconsistent if c.inputs.iter().any(|x| x == a) => return vec![Move { edges: vec![], upd: vec![], to: l.clone() }],
                    _ => {}
                }
                let mut possible = false;
                for e in c.edges.iter().filter(|e| e.src == *n && e.act == a) {
                    if self.sat(*i, &e.guard, v) {
                        let upd: Vec<(usize, i32)> = e.upd.iter().map(|(x, k)| (base + x, *k)).collect();
                        let w = self.updated(v, &upd);
                        possible |= self.sat(*i, &c.locs[e.dst].inv, &w);
                        out.push(Move { edges: vec![(*i, e.id.clone())], upd, to: Loc::At(e.dst) });
                    }
                }
                // input enabled: what no edge accepts is ignored
                if c.inputs.iter().any(|x| x == a) && !possible && self.sat(*i, &c.locs[*n].inv, v) {
                    out.push(Move { edges: vec![(*i, format!("input_{}_{}", c.locs[*n].id, a))], upd: vec![], to: l.clone() });
                }
                out
            }
            Tree::Conj(x, y) => {
                let (lx, ly) = l.parts();
                self.join(self.guarded(x, lx, a, v), self.guarded(y, ly, a, v))
            }
            Tree::Comp(x, y) => {
                let (lx, ly) = l.parts();
                let (inx, iny) = (self.has(x, a), self.has(y, a));
                let stay = |l: &Loc| vec![Move { edges: vec![], upd: vec![], to: l.clone() }];
                let mx = if inx { self.guarded(x, lx, a, v) } else { stay(lx) };
                let my = if iny { self.guarded(y, ly, a, v) } else { stay(ly) };
                self.join(mx, my)
            }
            Tree::Quot(t, s) => self.quotient(t, s, l, a, v),
        }
    }
    fn has(&self, t: &Tree, a: &str) -> bool {
        let (i, o) = self.actions(t);
        i.contains(a) || o.contains(a)
    }
    fn join(&self, xs: Vec<Move>, ys: Vec<Move>) -> Vec<Move> {
        let mut out = vec![];
        for x in &xs {
            for y in &ys {
                out.push(Move {
                    edges: x.edges.iter().chain(&y.edges).cloned().collect(),
                    upd: x.upd.iter().chain(&y.upd).cloned().collect(),
                    to: Loc::Pair(Box::new(x.to.clone()), Box::new(y.to.clone())),
                });
            }
        }
        out
    }
    /// Guard, source invariant and target invariant
    fn allowed<V: Val>(&self, t: &Tree, l: &Loc, a: &str, v: &V) -> Vec<Move> {
        if !self.inv(t, l, v) {
            return vec![];
        }
        self.guarded(t, l, a, v).into_iter().filter(|m| self.inv(t, &m.to, &self.updated(v, &m.upd))).collect()
    }
    fn quotient<V: Val>(&self, t: &Tree, s: &Tree, l: &Loc, a: &str, v: &V) -> Vec<Move> {
        let whole = Tree::quot(t.clone(), s.clone());
        let still = Move { edges: vec![], upd: vec![], to: l.clone() };
        match l {
            Loc::Univ => return vec![still],
            Loc::Err => {
                let input = self.actions(&whole).0.contains(a);
                return if input && v.cmp(self.quot, 0, Op::Eq, 0) { vec![still] } else { vec![] };
            }
            _ => {}
        }
        let (lt, ls) = l.parts();
        let (t_has, s_has) = (self.has(t, a), self.has(s, a));
        let mt = if t_has { self.allowed(t, lt, a, v) } else { vec![] };
        let ms = if s_has { self.allowed(s, ls, a, v) } else { vec![] };
        let (inv_t, inv_s) = (self.inv(t, lt, v), self.inv(s, ls, v));
        let s_out = self.actions(s).1.contains(a);
        let t_out = self.actions(t).1.contains(a);
        let pair = |x: &Loc, y: &Loc| Loc::Pair(Box::new(x.clone()), Box::new(y.clone()));
        let mut out = vec![];
        // both
        if t_has && s_has {
            for x in &mt {
                for y in &ms {
                    out.push(Move {
                        edges: x.edges.iter().chain(&y.edges).cloned().collect(),
                        upd: x.upd.iter().chain(&y.upd).cloned().collect(),
                        to: pair(&x.to, &y.to),
                    });
                }
            }
        }
        // the divisor alone
        if s_has && !t_has {
            for y in &ms {
                out.push(Move { edges: y.edges.clone(), upd: y.upd.clone(), to: pair(lt, &y.to) });
            }
        }
        // the dividend alone
        if t_has && !s_has && inv_s {
            for x in &mt {
                out.push(Move { edges: x.edges.clone(), upd: x.upd.clone(), to: pair(&x.to, ls) });
            }
        }
        // the divisor cannot be here, or cannot do this output: anything goes
        if !inv_s || (s_out && ms.is_empty()) {
            out.push(Move { edges: vec![], upd: vec![], to: Loc::Univ });
        }
        // the divisor does an output the dividend forbids
        if s_out && t_out && mt.is_empty() {
            for y in &ms {
                out.push(Move { edges: y.edges.clone(), upd: vec![(self.quot, 0)], to: Loc::Err });
            }
        }
        // the dividend's time is up while the divisor's is not
        if a == self.new_input(t, s) && !inv_t && inv_s {
            out.push(Move { edges: vec![], upd: vec![(self.quot, 0)], to: Loc::Err });
        }
        out
    }
    /// Moves possible at `v`, with the valuation they lead to
    pub fn steps<V: Val>(&self, t: &Tree, l: &Loc, a: &str, v: &V) -> Vec<(Move, V)> {
        self.guarded(t, l, a, v)
            .into_iter()
            .map(|m| {
                let w = self.updated(v, &m.upd);
                (m, w)
            })
            .filter(|(m, w)| self.inv(t, &m.to, w))
            .collect()
    }
    /// Regions reached by letting time pass, as long as the invariant allows
    pub fn delays(&self, t: &Tree, l: &Loc, v: &Region) -> Vec<Region> {
        let mut out = vec![];
        let mut v = v.clone();
        while self.inv(t, l, &v) {
            let n = v.succ();
            let stop = n == v;
            out.push(v);
            if stop {
                break;
            }
            v = n;
        }
        out
    }
    /// A part of the location is marked as inconsistent
    pub fn hopeless(&self, t: &Tree, l: &Loc) -> bool {
        match (t, l) {
            (_, Loc::Univ) => false,
            (_, Loc::Err) => true,
            (Tree::Leaf(i), Loc::At(n)) => self.insts[*i].comp.locs[*n].kind == Kind::Inconsistent,
            (Tree::Conj(a, b), Loc::Pair(x, y)) | (Tree::Comp(a, b), Loc::Pair(x, y)) | (Tree::Quot(a, b), Loc::Pair(x, y)) => self.hopeless(a, x) || self.hopeless(b, y),
            _ => false,
        }
    }
    pub fn loc_text(&self, t: &Tree, l: &Loc) -> String {
        match (t, l) {
            (_, Loc::Univ) => "[Universal]".into(),
            (_, Loc::Err) => "[Error]".into(),
            (Tree::Leaf(i), Loc::At(n)) => self.insts[*i].comp.locs[*n].id.clone(),
            (Tree::Conj(a, b), Loc::Pair(x, y)) => format!("({}&&{})", self.loc_text(a, x), self.loc_text(b, y)),
            (Tree::Comp(a, b), Loc::Pair(x, y)) => format!("({}||{})", self.loc_text(a, x), self.loc_text(b, y)),
            (Tree::Quot(a, b), Loc::Pair(x, y)) => format!("({}\\\\{})", self.loc_text(a, x), self.loc_text(b, y)),
            _ => "?".into(),
        }
    }
}

// ---------------------------------------------------------------- exploration
pub struct Explored {
    /// Every reachable (location, region), delays included
    pub states: HashSet<(Loc, Region)>,
    /// Discovery order of the undelayed states and how they were reached
    pub complete: bool,
}
pub fn explore(w: &World, t: &Tree, start: Vec<(Loc, Region)>, limit: usize) -> Explored {
    let (i, o) = w.actions(t);
    let acts: Vec<String> = i.union(&o).cloned().collect();
    let mut states: HashSet<(Loc, Region)> = HashSet::new();
    let mut queue: VecDeque<(Loc, Region)> = start.into();
    while let Some((l, v)) = queue.pop_front() {
        for d in w.delays(t, &l, &v) {
            if !states.insert((l.clone(), d.clone())) {
                break; // everything later in time has been seen as well
            }
            if states.len() > limit {
                return Explored { states, complete: false };
            }
            for a in &acts {
                for (m, n) in w.steps(t, &l, a, &d) {
                    if !states.contains(&(m.to.clone(), n.clone())) {
                        queue.push_back((m.to, n));
                    }
                }
            }
        }
    }
    Explored { states, complete: true }
}
pub fn start(w: &World, t: &Tree, bounds: &[i32]) -> Option<(Loc, Region)> {
    let l = w.initial(t)?;
    let v = Region::zero(bounds);
    if w.inv(t, &l, &v) {
        Some((l, v))
    } else {
        None
    }
}

/// The reachable states in which the system can be kept going whatever inputs come: time can
/// pass without end, or an output can be taken, through such states only
pub fn sustained(w: &World, t: &Tree, bounds: &[i32], limit: usize) -> Option<HashSet<(Loc, Region)>> {
    let Some(s) = start(w, t, bounds) else { return Some(HashSet::new()) };
    let e = explore(w, t, vec![s], limit);
    if !e.complete {
        return None;
    }
    let (ins, outs) = w.actions(t);
    struct Info {
        next: Option<usize>,
        last: bool,
        ins: Vec<usize>,
        outs: Vec<usize>,
    }
    let list: Vec<&(Loc, Region)> = e.states.iter().collect();
    let at: HashMap<&(Loc, Region), usize> = list.iter().enumerate().map(|(i, s)| (*s, i)).collect();
    let infos: Vec<Info> = list
        .iter()
        .map(|(l, v)| {
            let to = |acts: &BTreeSet<String>| acts.iter().flat_map(|a| w.steps(t, l, a, v)).map(|(m, x)| at[&(m.to, x)]).collect::<Vec<_>>();
            let n = v.succ();
            Info { last: n == *v, next: at.get(&(l.clone(), n)).copied(), ins: to(&ins), outs: to(&outs) }
        })
        .collect();
    let mut good: Vec<bool> = list.iter().map(|(l, _)| !w.hopeless(t, l)).collect();
    loop {
        // from where the system can be kept going, as far as `good` goes
        let mut can = vec![false; list.len()];
        let mut queue: Vec<usize> = vec![];
        let mut before: Vec<Vec<usize>> = vec![vec![]; list.len()];
        let safe: Vec<bool> = infos.iter().enumerate().map(|(i, f)| good[i] && f.ins.iter().all(|j| good[*j])).collect();
        for (i, f) in infos.iter().enumerate() {
            if let (Some(n), false) = (f.next, f.last) {
                before[n].push(i);
            }
            if safe[i] && (f.last || f.outs.iter().any(|j| good[*j])) {
                can[i] = true;
                queue.push(i);
            }
        }
        while let Some(i) = queue.pop() {
            for j in &before[i] {
                if safe[*j] && !can[*j] {
                    can[*j] = true;
                    queue.push(*j);
                }
            }
        }
        if can == good {
            break;
        }
        good = can;
    }
    Some(list.into_iter().zip(good).filter(|(_, g)| *g).map(|(s, _)| s.clone()).collect())
}

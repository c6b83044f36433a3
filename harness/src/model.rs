//! Models as the monitors see them: components, their JSON text, and random generation.
use common::{js, Rng};
use std::collections::BTreeSet;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    Lt,
    Le,
    Eq,
    Ge,
    Gt,
}
impl Op {
    pub fn text(self) -> &'static str {
        match self {
            Op::Lt => "<",
            Op::Le => "<=",
            Op::Eq => "==",
            Op::Ge => ">=",
            Op::Gt => ">",
        }
    }
    pub fn holds<T: PartialOrd>(self, a: T, b: T) -> bool {
        match self {
            Op::Lt => a < b,
            Op::Le => a <= b,
            Op::Eq => a == b,
            Op::Ge => a >= b,
            Op::Gt => a > b,
        }
    }
}

/// A constraint over the clocks of one component (numbered from 0)
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum G {
    True,
    False,
    /// clock op constant
    Cmp(usize, Op, i32),
    /// clock - clock op constant
    Diff(usize, usize, Op, i32),
    And(Vec<G>),
    Or(Vec<G>),
}
impl G {
    pub fn text(&self, clocks: &[String]) -> String {
        match self {
            G::True => "true".into(),
            G::False => "false".into(),
            G::Cmp(x, o, c) => format!("{}{}{}", clocks[*x], o.text(), c),
            // negative constants have no text form of their own
            G::Diff(x, y, o, c) if *c < 0 => {
                let flip = match o {
                    Op::Lt => Op::Gt,
                    Op::Le => Op::Ge,
                    Op::Eq => Op::Eq,
                    Op::Ge => Op::Le,
                    Op::Gt => Op::Lt,
                };
                format!("{}-{}{}{}", clocks[*y], clocks[*x], flip.text(), -c)
            }
            G::Diff(x, y, o, c) => format!("{}-{}{}{}", clocks[*x], clocks[*y], o.text(), c),
            G::And(v) if v.is_empty() => "true".into(),
            G::Or(v) if v.is_empty() => "false".into(),
            G::And(v) => v.iter().map(|g| g.sub(clocks)).collect::<Vec<_>>().join(" && "),
            G::Or(v) => v.iter().map(|g| g.sub(clocks)).collect::<Vec<_>>().join(" || "),
        }
    }
    fn sub(&self, clocks: &[String]) -> String {
        match self {
            G::And(v) | G::Or(v) if v.len() > 1 => format!("({})", self.text(clocks)),
            _ => self.text(clocks),
        }
    }
    pub fn max_const(&self, clock: usize) -> i32 {
        match self {
            G::True | G::False => 0,
            G::Cmp(x, _, c) => if *x == clock { *c } else { 0 },
            G::Diff(x, y, _, c) => if *x == clock || *y == clock { c.abs() } else { 0 },
            G::And(v) | G::Or(v) => v.iter().map(|g| g.max_const(clock)).max().unwrap_or(0),
        }
    }
    pub fn has_diff(&self) -> bool {
        match self {
            G::Diff(..) => true,
            G::And(v) | G::Or(v) => v.iter().any(|g| g.has_diff()),
            _ => false,
        }
    }
}

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct MLoc {
    pub id: String,
    pub inv: G,
    pub initial: bool,
    pub kind: Kind,
}
#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
pub enum Kind {
    Plain,
    /// every action of the component is possible and changes nothing
    Universal,
    /// every input is possible and changes nothing
    Inconsistent,
}
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct MEdge {
    pub id: String,
    pub src: usize,
    pub dst: usize,
    pub input: bool,
    pub act: String,
    pub guard: G,
    pub upd: Vec<(usize, i32)>,
}
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct Comp {
    pub name: String,
    pub clocks: Vec<String>,
    pub locs: Vec<MLoc>,
    pub edges: Vec<MEdge>,
    /// Declared inputs: the component is made input enabled for these
    pub inputs: Vec<String>,
    pub outputs: Vec<String>,
    /// 0: written plainly; otherwise the seed of a more inventive hand
    pub style: u64,
}
impl Comp {
    pub fn words(&self) -> Words {
        Words(if self.style == 0 { None } else { Some(Rng::new(self.style)) })
    }
    pub fn initial(&self) -> Option<usize> {
        self.locs.iter().position(|l| l.initial)
    }
    pub fn out_actions(&self) -> BTreeSet<String> {
        self.edges.iter().filter(|e| !e.input).map(|e| e.act.clone()).collect()
    }
    pub fn rename_action(&mut self, from: &str, to: &str) {
        let all = self.inputs.iter_mut().chain(self.outputs.iter_mut()).chain(self.edges.iter_mut().map(|e| &mut e.act));
        for a in all.filter(|a| *a == from) {
            *a = to.to_string();
        }
    }
    pub fn in_actions(&self) -> BTreeSet<String> {
        self.inputs.iter().cloned().collect()
    }
    pub fn max_const(&self, clock: usize) -> i32 {
        let g = self.edges.iter().map(|e| e.guard.max_const(clock));
        let i = self.locs.iter().map(|l| l.inv.max_const(clock));
        g.chain(i).max().unwrap_or(0)
    }
    pub fn json(&self) -> String {
        let mut words = self.words();
        let decl = words.declarations(&self.clocks);
        let locs: Vec<String> = self
            .locs
            .iter()
            .map(|l| {
                format!(
                    "{{\"id\":{},\"nickname\":\"\",\"invariant\":{},\"type\":\"{}\",\"urgency\":\"NORMAL\",\"x\":0.0,\"y\":0.0,\"color\":\"7\",\"nicknameX\":0.0,\"nicknameY\":0.0,\"invariantX\":0.0,\"invariantY\":0.0}}",
                    js(&l.id),
                    js(&words.constraint(&l.inv, &self.clocks)),
                    match l.kind {
                        _ if l.initial => "INITIAL",
                        Kind::Plain => "NORMAL",
                        Kind::Universal => "UNIVERSAL",
                        Kind::Inconsistent => "INCONSISTENT",
                    }
                )
            })
            .collect();
        // as the editor draws them: loops for every action at universal locations
        let loops = self.locs.iter().enumerate().filter(|(i, l)| l.kind != Kind::Plain && !l.initial && i % 2 == 1).flat_map(|(i, l)| {
            ["INPUT", "OUTPUT"][..if l.kind == Kind::Universal { 2 } else { 1 }]
                .iter()
                .map(move |s| format!("{{\"id\":\"{0}{1}\",\"group\":\"\",\"sourceLocation\":{2},\"targetLocation\":{2},\"status\":\"{1}\",\"select\":\"\",\"guard\":\"\",\"update\":\"\",\"sync\":\"*\",\"isLocked\":false,\"nails\":[]}}", i, s, js(&l.id)))
                .collect::<Vec<_>>()
        });
        let edges: Vec<String> = self
            .edges
            .iter()
            .map(|e| {
                format!(
                    "{{\"id\":{},\"group\":\"\",\"sourceLocation\":{},\"targetLocation\":{},\"status\":\"{}\",\"select\":\"\",\"guard\":{},\"update\":{},\"sync\":{},\"isLocked\":false,\"nails\":[]}}",
                    js(&e.id),
                    js(&self.locs[e.src].id),
                    js(&self.locs[e.dst].id),
                    if e.input { "INPUT" } else { "OUTPUT" },
                    js(&words.constraint(&e.guard, &self.clocks)),
                    js(&words.updates(&e.upd, &self.clocks)),
                    js(&e.act)
                )
            })
            .chain(loops)
            .collect();
        format!(
            "{{\"name\":{},\"declarations\":{},\"locations\":[{}],\"edges\":[{}],\"description\":\"\",\"x\":0.0,\"y\":0.0,\"width\":0.0,\"height\":0.0,\"color\":\"7\",\"includeInPeriodicCheck\":false}}",
            js(&self.name),
            js(&decl),
            locs.join(","),
            edges.join(",")
        )
    }
    /// Short text for reports
    pub fn brief(&self) -> String {
        let mut s = format!("{}(clocks {}; in {}; out {})", self.name, self.clocks.join(","), self.inputs.join(","), self.outputs.join(","));
        for (i, l) in self.locs.iter().enumerate() {
            s += &format!("\n  {}{}{} inv {}", if l.initial { "->" } else { "  " }, l.id, if l.kind == Kind::Plain { String::new() } else { format!(" {:?}", l.kind) }, l.inv.text(&self.clocks));
            for e in self.edges.iter().filter(|e| e.src == i) {
                s += &format!(
                    "\n      {} {}{} [{}] {} -> {}",
                    e.id,
                    e.act,
                    if e.input { "?" } else { "!" },
                    e.guard.text(&self.clocks),
                    e.upd.iter().map(|(x, c)| format!("{}={}", self.clocks[*x], c)).collect::<Vec<_>>().join(","),
                    self.locs[e.dst].id
                );
            }
        }
        s
    }
}

/// How the text of a component is written
pub struct Words(Option<Rng>);
impl Words {
    pub fn declarations(&mut self, clocks: &[String]) -> String {
        match &mut self.0 {
            Some(r) => crate::text::declarations(r, clocks),
            None if clocks.is_empty() => String::new(),
            None => format!("clock {};", clocks.join(", ")),
        }
    }
    pub fn constraint(&mut self, g: &G, clocks: &[String]) -> String {
        match &mut self.0 {
            Some(r) => {
                if *g == G::True && r.chance(1, 2) {
                    return String::new();
                }
                crate::text::constraint(r, g, clocks)
            }
            _ if *g == G::True => String::new(),
            _ => g.text(clocks),
        }
    }
    pub fn updates(&mut self, u: &[(usize, i32)], clocks: &[String]) -> String {
        match &mut self.0 {
            Some(r) => crate::text::updates(r, u, clocks),
            None => u.iter().map(|(x, c)| format!("{}={}", clocks[*x], c)).collect::<Vec<_>>().join(", "),
        }
    }
}

/// How components are combined; leaves are instance numbers, left to right
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Tree {
    Leaf(usize),
    Conj(Box<Tree>, Box<Tree>),
    Comp(Box<Tree>, Box<Tree>),
    Quot(Box<Tree>, Box<Tree>),
}
impl Tree {
    pub fn conj(a: Tree, b: Tree) -> Tree {
        Tree::Conj(Box::new(a), Box::new(b))
    }
    pub fn comp(a: Tree, b: Tree) -> Tree {
        Tree::Comp(Box::new(a), Box::new(b))
    }
    pub fn quot(a: Tree, b: Tree) -> Tree {
        Tree::Quot(Box::new(a), Box::new(b))
    }
    pub fn text(&self, names: &[String]) -> String {
        match self {
            Tree::Leaf(i) => names[*i].clone(),
            Tree::Conj(a, b) => format!("({} && {})", a.text(names), b.text(names)),
            Tree::Comp(a, b) => format!("({} || {})", a.text(names), b.text(names)),
            Tree::Quot(a, b) => format!("({} \\\\ {})", a.text(names), b.text(names)),
        }
    }
    pub fn leaves(&self, out: &mut Vec<usize>) {
        match self {
            Tree::Leaf(i) => out.push(*i),
            Tree::Conj(a, b) | Tree::Comp(a, b) | Tree::Quot(a, b) => {
                a.leaves(out);
                b.leaves(out);
            }
        }
    }
    pub fn has_quotient(&self) -> bool {
        match self {
            Tree::Leaf(_) => false,
            Tree::Quot(..) => true,
            Tree::Conj(a, b) | Tree::Comp(a, b) => a.has_quotient() || b.has_quotient(),
        }
    }
}

#[derive(Clone)]
pub struct Params {
    pub locs: (usize, usize),
    pub clocks: (usize, usize),
    pub max: i32,
    /// chance (of 8) of an invariant on a location
    pub inv: u64,
    /// chance (of 8) that a location has an edge for an action
    pub edge: u64,
    /// every edge sets every clock to zero
    pub reset_all: bool,
    /// every location with an invariant has an output that is always possible
    pub safe: bool,
    pub diagonals: bool,
    /// guards may be disjunctions
    pub disj: bool,
    /// updates may set clocks to other values than zero
    pub values: bool,
    /// two edges of one action at one location have disjoint guards
    pub deterministic: bool,
    /// chance (of 8) of two edges of one action whose guards overlap, where only the
    /// invariants of their targets make sure that one of them can be taken
    pub overlap: u64,
    /// chance (of 8) that a location is universal (or, unless `safe`, inconsistent)
    pub special: u64,
    /// chance (of 16) that an invariant also bounds a clock from below, or a difference
    pub lower: u64,
    /// chance (of 16) that an invariant or a guard cannot be met
    pub empty: u64,
}
impl Params {
    pub fn small() -> Params {
        Params {
            locs: (1, 3),
            clocks: (0, 2),
            max: 3,
            inv: 3,
            edge: 5,
            reset_all: false,
            safe: true,
            diagonals: false,
            disj: false,
            values: true,
            deterministic: true,
            overlap: 1,
            special: 0,
            empty: 0,
            lower: 0,
        }
    }
}

fn atom(r: &mut Rng, n: usize, p: &Params) -> G {
    if n == 0 {
        return G::True;
    }
    if p.diagonals && n > 1 && r.chance(1, 3) {
        let x = r.below(n);
        let y = (x + 1 + r.below(n - 1)) % n;
        return G::Diff(x, y, *r.pick(&[Op::Lt, Op::Le, Op::Eq, Op::Ge, Op::Gt]), r.range(-(p.max as i64), p.max as i64) as i32);
    }
    let x = r.below(n);
    let op = match r.below(9) {
        0 => Op::Eq,
        1 | 2 => Op::Lt,
        3 | 4 => Op::Gt,
        5 | 6 => Op::Le,
        _ => Op::Ge,
    };
    G::Cmp(x, op, r.range(0, p.max as i64) as i32)
}
pub fn guard(r: &mut Rng, n: usize, p: &Params) -> G {
    if p.empty > 0 && r.chance(p.empty, 16) {
        return never(r, n);
    }
    if n == 0 || r.chance(1, 3) {
        return G::True;
    }
    let k = 1 + r.below(2);
    let mut v: Vec<G> = (0..k).map(|_| atom(r, n, p)).collect();
    if p.disj && r.chance(1, 4) {
        v.push(G::Or(vec![atom(r, n, p), atom(r, n, p)]));
    }
    if p.disj && r.chance(1, 8) {
        let side = |r: &mut Rng| G::And(vec![atom(r, n, p), atom(r, n, p)]);
        v.push(G::Or(vec![side(r), side(r)]));
    }
    if v.len() == 1 {
        v.pop().unwrap()
    } else if p.disj && r.chance(1, 6) {
        G::Or(v)
    } else {
        G::And(v)
    }
}
/// A constraint that nothing meets
fn never(r: &mut Rng, n: usize) -> G {
    let x = r.below(n.max(1));
    match r.below(4) {
        0 if n > 0 => G::Cmp(x, Op::Lt, 0),
        1 if n > 0 => G::And(vec![G::Cmp(x, Op::Ge, 2), G::Cmp(x, Op::Lt, 2)]),
        2 if n > 1 => G::And(vec![G::Diff(0, 1, Op::Lt, 0), G::Diff(0, 1, Op::Ge, 0)]),
        _ => G::False,
    }
}
/// Two guards that exclude each other
fn split(r: &mut Rng, n: usize, p: &Params) -> (G, G) {
    let x = r.below(n);
    let c = r.range(0, p.max as i64) as i32;
    let (mut a, mut b) = match r.below(3) {
        0 => (G::Cmp(x, Op::Lt, c), G::Cmp(x, Op::Ge, c)),
        1 => (G::Cmp(x, Op::Le, c), G::Cmp(x, Op::Gt, c)),
        _ => (G::Cmp(x, Op::Eq, c), G::Cmp(x, Op::Gt, c)),
    };
    if r.chance(1, 3) {
        a = G::And(vec![a, atom(r, n, p)]);
    }
    if r.chance(1, 3) {
        b = G::And(vec![b, atom(r, n, p)]);
    }
    if r.chance(1, 2) {
        std::mem::swap(&mut a, &mut b);
    }
    (a, b)
}
fn updates(r: &mut Rng, n: usize, p: &Params) -> Vec<(usize, i32)> {
    if p.reset_all {
        return (0..n).map(|x| (x, 0)).collect();
    }
    let mut v = vec![];
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    for x in order {
        if r.chance(1, 2) {
            let c = if p.values && r.chance(1, 4) { r.range(0, p.max as i64) as i32 } else { 0 };
            v.push((x, c));
        }
    }
    // the last of several values stays
    if p.values && n > 0 && r.chance(1, 12) {
        v.push((r.below(n), r.range(0, p.max as i64) as i32));
    }
    v
}

pub fn gen(r: &mut Rng, name: &str, inputs: &[&str], outputs: &[&str], p: &Params) -> Comp {
    let nl = p.locs.0 + r.below(p.locs.1 - p.locs.0 + 1);
    let nc = p.clocks.0 + r.below(p.clocks.1 - p.clocks.0 + 1);
    let clocks: Vec<String> = ["x", "y", "z"][..nc].iter().map(|s| s.to_string()).collect();
    let init = r.below(nl);
    let mut locs = vec![];
    for i in 0..nl {
        let inv = if nc > 0 && r.chance(p.inv, 8) {
            let x = r.below(nc);
            let a = G::Cmp(x, if r.chance(1, 3) { Op::Lt } else { Op::Le }, r.range(1, p.max as i64) as i32);
            if nc > 1 && r.chance(1, 4) {
                let y = (x + 1) % nc;
                G::And(vec![a, G::Cmp(y, Op::Le, r.range(1, p.max as i64) as i32)])
            } else {
                a
            }
        } else {
            G::True
        };
        let inv = if p.lower > 0 && nc > 0 && i != init && r.chance(p.lower, 16) {
            let x = r.below(nc);
            let low = if p.diagonals && nc > 1 && r.chance(1, 3) {
                G::Diff(x, (x + 1) % nc, *r.pick(&[Op::Lt, Op::Le, Op::Eq, Op::Ge, Op::Gt]), r.range(-(p.max as i64), p.max as i64) as i32)
            } else {
                G::Cmp(x, *r.pick(&[Op::Ge, Op::Gt, Op::Eq]), r.range(0, p.max as i64) as i32)
            };
            if inv == G::True { low } else { G::And(vec![inv, low]) }
        } else {
            inv
        };
        let inv = if p.empty > 0 && r.chance(p.empty, 16) { never(r, nc) } else { inv };
        let mut l = MLoc { id: format!("L{}", i), inv, initial: i == init, kind: Kind::Plain };
        if p.special > 0 && i != init && r.chance(p.special, 8) {
            l.kind = if p.safe || r.chance(2, 3) { Kind::Universal } else { Kind::Inconsistent };
            if p.safe || r.chance(1, 2) {
                l.inv = G::True;
            }
        }
        locs.push(l);
    }
    let mut edges = vec![];
    for l in 0..nl {
        for (input, acts) in [(true, inputs), (false, outputs)] {
            for a in acts {
                if !r.chance(p.edge, 8) {
                    continue;
                }
                let gs = if p.deterministic {
                    if nc > 0 && r.chance(1, 3) {
                        let (a, b) = split(r, nc, p);
                        vec![a, b]
                    } else {
                        vec![guard(r, nc, p)]
                    }
                } else {
                    (0..1 + r.below(2)).map(|_| guard(r, nc, p)).collect()
                };
                for g in gs {
                    edges.push(MEdge {
                        id: String::new(),
                        src: l,
                        dst: r.below(nl),
                        input,
                        act: a.to_string(),
                        guard: g,
                        upd: updates(r, nc, p),
                    });
                }
            }
        }
        if p.safe && locs[l].inv != G::True {
            if outputs.is_empty() {
                locs[l].inv = G::True;
            } else {
                let a = *r.pick(outputs);
                edges.retain(|e| !(e.src == l && e.act == a));
                let g = if r.chance(1, 2) { G::True } else { locs[l].inv.clone() };
                edges.push(MEdge {
                    id: String::new(),
                    src: l,
                    dst: r.below(nl),
                    input: false,
                    act: a.to_string(),
                    guard: g,
                    upd: (0..nc).map(|x| (x, 0)).collect(),
                });
            }
        }
    }
    if p.deterministic && nc > 0 && r.chance(p.overlap, 8) {
        overlap(r, &locs, &mut edges, nc, p);
    }
    // An input is one only if the component has an edge for it, drawn or added; none is
    // added where no time can be spent
    if p.empty > 0 && inputs.iter().any(|a| !edges.iter().any(|e| e.act == *a)) {
        locs[init].inv = G::True;
    }
    r.shuffle(&mut edges);
    for (i, e) in edges.iter_mut().enumerate() {
        e.id = format!("E{}", i);
    }
    let mut c = Comp {
        name: name.to_string(),
        clocks,
        locs,
        edges,
        inputs: inputs.iter().map(|s| s.to_string()).collect(),
        outputs: vec![],
        style: if r.chance(1, 4) { 1 + r.next() % 1_000_000_007 } else { 0 },
    };
    c.outputs = c.out_actions().into_iter().collect();
    c
}

fn overlap(r: &mut Rng, locs: &[MLoc], edges: &mut Vec<MEdge>, nc: usize, p: &Params) {
    let with: Vec<(usize, usize, Op, i32)> = locs.iter().enumerate().filter_map(|(i, l)| if let G::Cmp(x, o, k) = &l.inv { Some((i, *x, *o, *k)) } else { None }).collect();
    if with.is_empty() || edges.is_empty() {
        return;
    }
    let (d, x, op, k) = r.pick(&with).clone();
    let e = r.pick(edges).clone();
    if p.safe && locs[e.src].inv != G::True {
        return;
    }
    edges.retain(|o| o.src != e.src || o.act != e.act);
    let keep: Vec<(usize, i32)> = updates(r, nc, p).into_iter().filter(|u| u.0 != x).collect();
    edges.push(MEdge { dst: d, guard: G::True, upd: keep, ..e.clone() });
    let above = G::Cmp(x, if op == Op::Lt { Op::Ge } else { Op::Gt }, k);
    edges.push(MEdge { dst: r.below(locs.len()), guard: above, upd: updates(r, nc, p), ..e });
}

/// A small change to a component, for pairs that are related but not always equal
pub fn mutate(r: &mut Rng, c: &Comp, name: &str, p: &Params) -> Comp {
    let mut m = c.clone();
    m.name = name.to_string();
    let n = m.clocks.len();
    for _ in 0..1 + r.below(3) {
        match r.below(8) {
            // a stronger output guard
            0 | 1 if n > 0 => {
                let outs: Vec<usize> = (0..m.edges.len()).filter(|i| !m.edges[*i].input).collect();
                if let Some(&i) = outs.get(r.below(outs.len())) {
                    let g = m.edges[i].guard.clone();
                    m.edges[i].guard = G::And(vec![g, atom(r, n, p)]);
                }
            }
            // one edge fewer, as long as the action stays
            2 | 3 => {
                if !m.edges.is_empty() {
                    let i = r.below(m.edges.len());
                    let a = m.edges[i].act.clone();
                    let src = m.edges[i].src;
                    let inv = m.locs[src].inv != G::True;
                    if m.edges.iter().filter(|e| e.act == a).count() > 1 && !(p.safe && inv) {
                        m.edges.remove(i);
                    }
                }
            }
            4 => {
                if !m.edges.is_empty() {
                    let i = r.below(m.edges.len());
                    m.edges[i].dst = r.below(m.locs.len());
                }
            }
            5 if n > 0 => {
                if !m.edges.is_empty() {
                    let i = r.below(m.edges.len());
                    m.edges[i].upd = updates(r, n, p);
                }
            }
            6 => {
                let i = r.below(m.locs.len());
                m.locs[i].inv = G::True;
            }
            _ => {}
        }
    }
    m.outputs = m.out_actions().into_iter().collect();
    m
}

//! Monitors for transition ids. Only `/repo/src/TransitionSystems/transition_id.rs` is
//! compiled in, so these checks depend on nothing else in the crate.
#[path = "/repo/src/TransitionSystems/transition_id.rs"]
#[allow(dead_code, non_snake_case)]
mod transition_id;
use common::{Case, Rng, Run};
use transition_id::TransitionID as Id;

/// The structure of a system: how many components it has and how they are combined.
#[derive(Clone, Debug, Hash)]
enum Shape {
    Leaf,
    Conj(Box<Shape>, Box<Shape>),
    Comp(Box<Shape>, Box<Shape>),
    Quot(Box<Shape>, Box<Shape>),
}
impl Shape {
    fn size(&self) -> usize {
        match self {
            Shape::Leaf => 1,
            Shape::Conj(a, b) | Shape::Comp(a, b) | Shape::Quot(a, b) => a.size() + b.size(),
        }
    }
}

fn shape(r: &mut Rng, depth: usize, quot: bool) -> Shape {
    if depth == 0 || r.chance(1, 4) {
        return Shape::Leaf;
    }
    let k = r.below(if quot { 3 } else { 2 });
    let a = Box::new(shape(r, depth - 1, quot));
    let b = Box::new(shape(r, depth - 1, quot));
    match k {
        0 => Shape::Conj(a, b),
        1 => Shape::Comp(a, b),
        _ => Shape::Quot(a, b),
    }
}

/// How the two sides of a quotient are populated
#[derive(Clone, Copy, PartialEq)]
enum Fill {
    /// both sides have at least one transition
    Both,
    /// a side made of one component may have none
    MaybeEmpty,
}

fn name(r: &mut Rng, n: &mut u32) -> String {
    *n += 1;
    match r.below(12) {
        0 => format!("E{}&&x", n),
        1 => format!("(E{})", n),
        2 => String::new(),
        3 => format!("é{}", n),
        4 => "dup".to_string(),
        _ => format!("E{}", n),
    }
}

/// A transition id of a system of the given shape, and what each component contributed.
fn make(r: &mut Rng, s: &Shape, fill: Fill, none: bool, n: &mut u32) -> (Id, Vec<Vec<Id>>) {
    match s {
        Shape::Leaf => {
            let id = if none && r.chance(1, 5) { Id::None } else { Id::Simple(name(r, n)) };
            (id.clone(), vec![vec![id]])
        }
        Shape::Conj(a, b) | Shape::Comp(a, b) => {
            let (l, mut x) = make(r, a, fill, none, n);
            let (m, y) = make(r, b, fill, none, n);
            x.extend(y);
            let id = if matches!(s, Shape::Conj(..)) {
                Id::Conjunction(Box::new(l), Box::new(m))
            } else {
                Id::Composition(Box::new(l), Box::new(m))
            };
            (id, x)
        }
        Shape::Quot(a, b) => {
            let side = |r: &mut Rng, t: &Shape, may_be_empty: bool, n: &mut u32| {
                let k = if may_be_empty && t.size() == 1 && r.chance(1, 3) { 0 } else { 1 + r.below(3) };
                let mut groups: Vec<Vec<Id>> = vec![vec![]; t.size()];
                let mut ids = vec![];
                for _ in 0..k {
                    let (id, g) = make(r, t, fill, none, n);
                    ids.push(id);
                    for (to, from) in groups.iter_mut().zip(g) {
                        to.extend(from);
                    }
                }
                (ids, groups)
            };
            let e = fill == Fill::MaybeEmpty;
            let (l, mut x) = side(r, a, e, n);
            let (m, y) = side(r, b, e && !l.is_empty(), n);
            x.extend(y);
            (Id::Quotient(l, m), x)
        }
    }
}

fn parts(a: &[Vec<Id>]) -> String {
    format!("{:?}", a)
}

fn c01(run: &'static Run) {
    let go = |fill: Fill| {
        move |r: &mut Rng, c: &mut Case| {
            let d = 1 + r.below(5);
            let s = shape(r, d, true);
            let none = r.chance(1, 2);
            let (id, want) = make(r, &s, fill, none, &mut 0);
            c.eval();
            c.count_n("components", want.len() as u64);
            c.count_n("leaves", want.iter().map(Vec::len).sum::<usize>() as u64);
            c.seen("shape", &s);
            if want.len() > 1 {
                c.nontrivial(&id);
                c.sample(|| format!("{} -> {}", id, parts(&want)));
            }
            if let Some(got) = c.must("decomposition", || id.get_leaves()) {
                if got != want {
                    c.violation(
                        "groups",
                        format!("id {:?}\n expected {}\n observed {}", id, parts(&want), parts(&got)),
                    );
                }
            }
            // A second call sees the same id and gives the same answer
            if let Some(again) = c.must("decomposition", || id.get_leaves()) {
                c.eval();
                if again != want {
                    c.violation("second call", format!("id {:?} observed {}", id, parts(&again)));
                }
            }
        }
    };
    run.cases("full", (60_000, 8), (6_000_000, 240), go(Fill::Both));
    run.cases("one side empty", (60_000, 8), (6_000_000, 240), go(Fill::MaybeEmpty));
}

fn c02(run: &'static Run) {
    run.cases("paths", (60_000, 10), (6_000_000, 300), |r, c| {
        let d = r.below(4);
        let s = shape(r, d, true);
        let fill = if r.chance(1, 3) { Fill::MaybeEmpty } else { Fill::Both };
        let len = r.below(7);
        let mut path = vec![];
        let mut want: Vec<Vec<Vec<Id>>> = if len == 0 { vec![] } else { vec![vec![]; s.size()] };
        let mut n = 0;
        for _ in 0..len {
            let (id, g) = make(r, &s, fill, true, &mut n);
            path.push(id);
            for (w, g) in want.iter_mut().zip(g) {
                w.push(g.into_iter().filter(|t| *t != Id::None).collect());
            }
        }
        c.eval();
        c.count_n("steps", len as u64);
        c.seen("shape", &s);
        if len > 1 && s.size() > 1 {
            c.nontrivial(&path);
            c.sample(|| path.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(" ; "));
        }
        match c.must("split", || Id::split_into_component_lists(&path)) {
            Some(Ok(got)) if got == want => {}
            Some(o) => c.violation("lists", format!("path {:?}\n expected {:?}\n observed {:?}", path, want, o)),
            None => {}
        }
    });
    run.cases("mixed paths", (60_000, 10), (6_000_000, 300), |r, c| {
        // One step has a different number of components than the first
        let s = { let d = r.below(4); shape(r, d, true) };
        let mut t = { let d = r.below(4); shape(r, d, true) };
        if t.size() == s.size() {
            t = Shape::Comp(Box::new(t), Box::new(Shape::Leaf));
        }
        let len = 1 + r.below(6);
        let odd = 1 + r.below(len);
        let mut n = 0;
        let path: Vec<Id> = (0..=len)
            .map(|k| make(r, if k == odd { &t } else { &s }, Fill::Both, true, &mut n).0)
            .collect();
        c.eval();
        c.count("steps of another size");
        c.nontrivial(&path);
        if let Some(Ok(got)) = c.must("split", || Id::split_into_component_lists(&path)) {
            c.violation(
                "accepted",
                format!("step {} has {} components, the first has {}: {:?}\n observed {:?}", odd, t.size(), s.size(), path, got),
            );
        }
    });
}

/// The text an id stands for: nested operators in parentheses unless the nested operator is
/// the same one, plain names bare, a quotient's transitions side by side.
fn render(id: &Id) -> String {
    fn inner(id: &Id, bare: bool) -> String {
        match id {
            Id::Simple(n) => n.clone(),
            _ if bare => render(id),
            _ => format!("({})", render(id)),
        }
    }
    match id {
        Id::Simple(n) => n.clone(),
        Id::None => "NoID".to_string(),
        Id::Conjunction(l, r) => {
            let b = |x: &Id| inner(x, matches!(x, Id::Conjunction(..)));
            format!("{}&&{}", b(l), b(r))
        }
        Id::Composition(l, r) => {
            let b = |x: &Id| inner(x, matches!(x, Id::Composition(..)));
            format!("{}||{}", b(l), b(r))
        }
        Id::Quotient(l, r) => {
            let b = |x: &[Id]| x.iter().map(|y| inner(y, false)).collect::<String>();
            format!("{}\\\\{}", b(l), b(r))
        }
    }
}

fn c03(run: &'static Run) {
    run.cases("ids", (120_000, 12), (8_000_000, 300), |r, c| {
        let s = { let d = r.below(5); shape(r, d, true) };
        let (id, _) = make(r, &s, Fill::MaybeEmpty, true, &mut 0);
        let want = render(&id);
        c.eval();
        if s.size() > 1 {
            c.nontrivial(&id);
            c.sample(|| want.clone());
        }
        if let Some(got) = c.must("display", || id.to_string()) {
            if got != want {
                c.violation("text", format!("id {:?}\n expected {:?}\n observed {:?}", id, want, got));
            }
        }
    });
}

fn main() {
    common::install_panic_hook();
    let a = common::args();
    let (f, rule): (fn(&'static Run), &str) = match a.property.as_str() {
        "C01" => (c01, "random system structures (depth up to 5, conjunction, composition, quotient with 0-3 transitions per side), an id built from them component by component; non-trivial: more than one component, counted by distinct id"),
        "C02" => (c02, "random paths of up to 7 steps over one random structure, and paths where one step has another number of components; non-trivial: several steps and components, counted by distinct path"),
        "C03" => (c03, "random ids as for C01 with missing ids; non-trivial: more than one component, counted by distinct id"),
        p => {
            eprintln!("unknown property {:?}", p);
            std::process::exit(2)
        }
    };
    let run = Run::new(a, rule);
    f(run);
    run.finish()
}

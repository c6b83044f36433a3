//! Laws between answers: what several answers of the code say together, whatever the systems.
use crate::model::*;
use crate::p_refine::{distinct, weaken};
use crate::query::*;
use common::{guard, Case, Rng, Run};

pub struct Asker<'a> {
    pub comps: &'a [Comp],
    pub reduce: bool,
    pub log: Vec<(String, String)>,
}
impl<'a> Asker<'a> {
    pub fn describe(&self, e: &str) -> String {
        format!(
            "{} (clock reduction {})\n{}\n{}",
            e,
            self.reduce,
            self.log.iter().map(|(q, a)| format!("{} is {}", q, a)).collect::<Vec<_>>().join("\n"),
            self.comps.iter().map(|c| c.brief()).collect::<Vec<_>>().join("\n")
        )
    }
    /// None: a violation was noted
    pub fn ask(&mut self, c: &mut Case, text: &str) -> Option<String> {
        let r = guard(|| {
            let mut l = Loader::new(self.comps, self.reduce)?;
            Ok::<_, String>(verdict(&l.run(text)))
        });
        c.eval();
        match r {
            Ok(Ok(w)) => {
                self.log.push((text.to_string(), w.clone()));
                Some(w)
            }
            Ok(Err(e)) => {
                c.violation("load", self.describe(&format!("the models could not be loaded: {}", e)));
                None
            }
            Err(e) => {
                c.violation("panic", self.describe(&format!("{} panicked: {}", text, e)));
                None
            }
        }
    }
}
fn refused(w: &str) -> bool {
    w == "recipe" || w.starts_with("precondition")
}
/// One law on one set of components; true if it said something
fn law(r: &mut Rng, c: &mut Case, p: &Params) -> Option<bool> {
    let io: (&[&str], &[&str]) = (&["i", "j"], &["o", "p"]);
    let which = r.below(8);
    // zones split into many parts where several components with several clocks meet
    let few = Params { clocks: (p.clocks.0, p.clocks.1.min(1)), ..p.clone() };
    let p = if [1, 2, 4, 7].contains(&which) { &few } else { p };
    let a = gen(r, "A", io.0, io.1, p);
    let near = |r: &mut Rng, x: &Comp, name: &str| match r.below(6) {
        0 => mutate(r, x, name, p),
        1 => Comp { name: name.into(), ..x.clone() },
        _ => weaken(r, x, name),
    };
    let reduce = r.chance(1, 2);
    let name = ["reflexive", "conjunction below", "conjunction greatest", "transitive", "monotone", "order of operands", "quotient", "conjunction of equals"][which];
    // (premises, conclusion, both ways)
    let one = |l: &str, r: &str| format!("refinement: {} <= {}", l, r);
    let (comps, premises, conclusion, both): (Vec<Comp>, Vec<String>, String, bool) = match which {
        0 => (vec![a], vec![], one("A", "A"), false),
        1 => {
            let b = if r.chance(1, 2) { near(r, &a, "B") } else { gen(r, "B", io.0, io.1, p) };
            let side = if r.chance(1, 2) { "A" } else { "B" };
            (vec![a, b], vec![], one("(A && B)", side), false)
        }
        2 => {
            let (b, d) = (near(r, &a, "B"), near(r, &a, "D"));
            (vec![a, b, d], vec![one("A", "B"), one("A", "D")], one("A", "(B && D)"), true)
        }
        3 => {
            let b = near(r, &a, "B");
            let d = near(r, &b, "D");
            (vec![a, b, d], vec![one("A", "B"), one("B", "D")], one("A", "D"), false)
        }
        4 => {
            let b = near(r, &a, "B");
            let d = gen(r, "D", &["o"], &["q"], p);
            let (l, t) = if r.chance(1, 2) { ("(A || D)", "(B || D)") } else { ("(D || A)", "(D || B)") };
            (vec![a, b, d], vec![one("A", "B")], one(l, t), false)
        }
        5 => {
            let small = Params { clocks: (p.clocks.0, p.clocks.1.min(1)), locs: (p.locs.0, p.locs.1.min(3)), ..p.clone() };
            let b = gen(r, "B", &["o"], &["q"], &small);
            let d = gen(r, "D", &["q"], &["s"], &small);
            let a = gen(r, "A", io.0, io.1, &small);
            let (l, t) = *r.pick(&[("(A || B)", "(B || A)"), ("((A || B) || D)", "(A || (B || D))"), ("(A || (D || B))", "((B || A) || D)")]);
            (vec![a, b, d], vec![], one(l, t), false)
        }
        6 => {
            let small = Params { clocks: (p.clocks.0, p.clocks.1.min(1)), locs: (p.locs.0, p.locs.1.min(3)), ..p.clone() };
            let t = gen(r, "T", &["i"], &["o", "p"], &small);
            let s = gen(r, "S", &["i"], &["o"], &small);
            let x = if r.chance(1, 2) {
                // what the dividend does for its share
                let mut x = t.clone();
                x.name = "X".into();
                for e in x.edges.iter_mut() {
                    e.input = e.act != "p";
                }
                x.inputs = vec!["i".into(), "o".into()];
                x.outputs = x.out_actions().into_iter().collect();
                x
            } else {
                gen(r, "X", &["i", "o"], &["p"], &small)
            };
            (vec![t, s, x], vec![one("X", "(T \\\\ S)")], one("(S || X)", "T"), true)
        }
        _ => (vec![a], vec![], one("A", "(A && A)"), false),
    };
    let comps = distinct(&comps);
    let mut q = Asker { comps: &comps, reduce, log: vec![] };
    let mut all = true;
    for t in &premises {
        let w = q.ask(c, t)?;
        if refused(&w) {
            c.count(&format!("{}: refused", name));
            return Some(false);
        }
        all &= w == "true";
    }
    if !all && !both {
        c.count(&format!("{}: premise does not hold", name));
        return Some(false);
    }
    let w = q.ask(c, &conclusion)?;
    if refused(&w) {
        c.count(&format!("{}: refused", name));
        return Some(false);
    }
    if all != (w == "true") {
        c.violation(format!("law: {}", name), q.describe(&format!("the law {:?} does not hold", name)));
        return None;
    }
    c.count(&format!("{}: {}", name, w));
    c.sample(|| q.describe(name));
    c.nontrivial((name, &comps));
    Some(true)
}
pub fn laws(run: &'static Run) {
    run.cases("laws", (24000, 40), (1_000_000, 1500), |r, c| {
        let p = Params {
            lower: *r.pick(&[0, 0, 3]),
            diagonals: false,
            disj: r.chance(1, 5),
            inv: 3,
            max: 2 + r.below(8) as i32,
            locs: (1, 2 + r.below(4)),
            clocks: (0, 1 + r.below(2)),
            overlap: 1,
            special: *r.pick(&[0, 0, 1]), ..Params::small()
        };
        law(r, c, &p);
    });
}

//! Compiled systems of the real code, seen through the oracle's eyes: clock numbers,
//! location names and zones evaluated at points.
use crate::model::*;
use crate::query::Loader;
use crate::sem::*;
use edbm::zones::OwnedFederation;
use reveaal::extract_system_rep::{get_system_recipe, SystemRecipe};
use reveaal::parse_queries::parse_to_system_expr;
use reveaal::TransitionSystems::{LocationID, TransitionID, TransitionSystemPtr};
use reveaal::System::specifics::SpecialLocation;

pub struct Built {
    pub sys: TransitionSystemPtr,
    pub recipe: Box<SystemRecipe>,
    /// oracle clock -> clock of the code
    pub clock: Vec<usize>,
}
/// Instances must be named so that `names[i]` is the component of instance i
pub fn build(w: &World, t: &Tree, names: &[String], loader: &mut Loader) -> Result<Built, String> {
    let expr = parse_to_system_expr(&t.text(names)).map_err(|e| e.to_string())?;
    let mut dim = 0;
    let mut q = None;
    let recipe = get_system_recipe(&expr, loader, &mut dim, &mut q);
    let sys = recipe.clone().compile(dim).map_err(|e| format!("recipe {:?}", e))?;
    let mut clock = vec![0; w.dim];
    let infos = sys.comp_infos();
    let mut leaves = vec![];
    t.leaves(&mut leaves);
    let infos: Vec<_> = infos.iter().collect();
    assert_eq!(infos.len(), leaves.len());
    for (info, i) in infos.iter().zip(&leaves) {
        let inst = &w.insts[*i];
        for (k, name) in inst.comp.clocks.iter().enumerate() {
            clock[inst.base + k] = *info.declarations.clocks.get(name).ok_or("a declared clock is missing")?;
        }
    }
    clock[w.quot] = q.unwrap_or(0);
    Ok(Built { sys, recipe, clock })
}
impl Built {
    pub fn contains(&self, f: &OwnedFederation, p: &Point) -> bool {
        let mut v = vec![0i64; f.dim()];
        for (o, c) in self.clock.iter().enumerate() {
            if *c > 0 {
                v[*c] = p.0[o];
            }
        }
        zone_contains(f, &v)
    }
    /// The code's updates as the oracle's
    pub fn updates(&self, u: &[reveaal::EdgeEval::updater::CompiledUpdate]) -> Vec<(usize, i32)> {
        u.iter().map(|u| (self.clock.iter().position(|c| *c == u.clock_index).expect("update of an unknown clock"), u.value)).collect()
    }
}
pub fn zone_contains(f: &OwnedFederation, v: &[i64]) -> bool {
    if v.iter().any(|x| *x < 0) {
        return false;
    }
    let d = f.minimal_constraints();
    let r = d.iter().any(|c| {
        c.iter().all(|k| {
            let diff = v[k.i] - v[k.j];
            let b = k.ineq().bound() as i64 * DEN;
            if k.ineq().is_strict() { diff < b } else { diff <= b }
        })
    });
    r
}
/// The oracle's name for a location of the code
pub fn loc_of(w: &World, t: &Tree, id: &LocationID) -> Option<Loc> {
    Some(match (t, id) {
        (_, LocationID::Special(SpecialLocation::Universal)) => Loc::Univ,
        (_, LocationID::Special(SpecialLocation::Error)) => Loc::Err,
        (Tree::Leaf(i), LocationID::Simple(n)) => Loc::At(w.insts[*i].comp.locs.iter().position(|l| l.id == *n)?),
        (Tree::Conj(a, b), LocationID::Conjunction(x, y)) | (Tree::Comp(a, b), LocationID::Composition(x, y)) | (Tree::Quot(a, b), LocationID::Quotient(x, y)) => {
            Loc::Pair(Box::new(loc_of(w, a, x)?), Box::new(loc_of(w, b, y)?))
        }
        _ => return None,
    })
}
/// The edges of a transition id, by instance; None for parts without an edge
pub fn edges_of(t: &Tree, id: &TransitionID, out: &mut Vec<(usize, String)>) -> Result<(), String> {
    match (t, id) {
        (_, TransitionID::None) => {}
        (Tree::Leaf(i), TransitionID::Simple(e)) => out.push((*i, e.clone())),
        (Tree::Conj(a, b), TransitionID::Conjunction(x, y)) | (Tree::Comp(a, b), TransitionID::Composition(x, y)) => {
            edges_of(a, x, out)?;
            edges_of(b, y, out)?;
        }
        (Tree::Quot(a, b), TransitionID::Quotient(x, y)) => {
            for i in x {
                edges_of(a, i, out)?;
            }
            for i in y {
                edges_of(b, i, out)?;
            }
        }
        _ => return Err(format!("transition id {:?} does not fit the system", id)),
    }
    Ok(())
}

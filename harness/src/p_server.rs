//! The server: many users, many models, hostile messages, one cache.
use crate::model::*;
use crate::p_sim::{as_sent, info};
use crate::p_trans::operators;
use crate::query::*;
use crate::sem::*;
use common::{guard as caught, Case, Rng, Run};
use futures::executor::block_on;
use reveaal::ProtobufServer::services::ecdar_backend_server::EcdarBackend;
use reveaal::ProtobufServer::services::*;
use reveaal::ProtobufServer::ConcreteEcdarBackend;
use std::collections::BTreeSet;
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub enum Ask {
    Query(QueryRequest),
    Start(SimulationStartRequest),
    Step(SimulationStepRequest),
}
/// An answer, as far as it is the same from run to run; Err: the server refused
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Answer {
    Told(String),
    Refused,
    /// The request brought down the call
    Died(String),
}
fn state_text(s: &Option<State>) -> String {
    // zones can be cut into different pieces
    match s {
        None => "nowhere".into(),
        Some(s) => format!("{:?}", s.location_tree),
    }
}
fn edges_text(e: &[Edge]) -> String {
    e.iter().map(|e| format!("{}.{}", e.component_instance.clone().unwrap_or_default().component_index, e.id)).collect::<Vec<_>>().join("+")
}
fn orders(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    orders(n - 1).into_iter().flat_map(|o| (0..n).map(move |at| { let mut o = o.clone(); o.insert(at, n - 1); o })).collect()
}
fn component_text(json: &str) -> String {
    match reveaal::DataReader::json_reader::json_to_component(json) {
        Err(e) => format!("unreadable component {}", e),
        Ok(c) => {
            // which of the names of one clock it keeps when clocks are reduced is not fixed, so
            // clocks are known by their roles: the naming that gives the least text
            let clocks: Vec<&String> = c.declarations.clocks.keys().collect();
            let locs: BTreeSet<String> = c.locations.iter().map(|l| format!("{} {:?}", l.id, l.location_type)).collect();
            let with = |names: &[usize]| {
                let role = |v: &String| match clocks.iter().position(|k| *k == v) {
                    Some(_) if names.is_empty() => "clock".to_string(),
                    Some(k) => format!("clock {}", names[k]),
                    None => v.clone(),
                };
                let mut edges: Vec<String> = c.edges.iter().map(|e| format!("{} {} {:?} {} {}", e.source_location, e.target_location, e.sync_type, e.sync, e.update.iter().flatten().map(|u| format!("{}={:?}", role(&u.variable), u.expression)).collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>().join(","))).collect();
                edges.sort();
                format!("{:?}", edges)
            };
            let edges = if clocks.len() > 5 { with(&[]) } else { orders(clocks.len()).iter().map(|o| with(o)).min().unwrap() };
            format!("{} {} clocks {:?} {}", c.name, clocks.len(), locs, edges)
        }
    }
}
pub fn result_text(r: &query_response::Result) -> String {
    use query_response::Result as R;
    match r {
        R::Success(_) => "success".into(),
        R::Component(c) => match &c.rep {
            Some(component::Rep::Json(j)) => component_text(j),
            other => format!("{:?}", other),
        },
        R::ReachabilityPath(p) => format!("path of {} steps", p.path.as_ref().map(|p| p.decisions.len()).unwrap_or(0)),
        R::Reachability(_) => "unreachable".into(),
        R::Refinement(_) => "refinement failure".into(),
        R::Consistency(_) => "consistency failure".into(),
        R::Determinism(_) => "determinism failure".into(),
        R::Model(_) => "model failure".into(),
        R::Error(e) => format!("error {}", e.error),
        #[allow(unreachable_patterns)]
        other => format!("{:?}", other),
    }
}
pub fn put(b: &ConcreteEcdarBackend, a: &Ask) -> Answer {
    let step = |r: Result<tonic::Response<SimulationStepResponse>, tonic::Status>| match r {
        Err(_) => Answer::Refused,
        Ok(x) => {
            let x = x.into_inner();
            let ds: Vec<String> = x.new_decision_points.iter().map(|d| format!("{} {} from {} to {}", d.action, edges_text(&d.edges), state_text(&d.source), state_text(&d.destination))).collect();
            let mut ds = ds;
            ds.sort();
            Answer::Told(format!("{} then {}", state_text(&x.full_state), ds.join("; ")))
        }
    };
    let r = caught(|| match a {
        Ask::Query(q) => match block_on(b.send_query(tonic::Request::new(q.clone()))) {
            Err(_) => Answer::Refused,
            Ok(x) => {
                let x = x.into_inner();
                if x.query_id != q.query_id {
                    return Answer::Told(format!("the answer to request {} carries the number {}", q.query_id, x.query_id));
                }
                Answer::Told(x.result.as_ref().map(result_text).unwrap_or("nothing".into()))
            }
        },
        Ask::Start(q) => step(block_on(b.start_simulation(tonic::Request::new(q.clone())))),
        Ask::Step(q) => step(block_on(b.take_simulation_step(tonic::Request::new(q.clone())))),
    });
    r.unwrap_or_else(Answer::Died)
}

pub struct Model {
    pub comps: Vec<Comp>,
    pub tree: Tree,
    pub names: Vec<String>,
}
impl Model {
    /// Questions about many clocks can take the engine minutes
    pub fn clocks(&self) -> usize {
        self.comps.iter().map(|c| c.clocks.len()).sum()
    }
}
fn model(r: &mut Rng) -> Model {
    let mut p = Params { lower: *r.pick(&[0, 0, 4]), inv: 3, locs: (1, 3), max: 2, special: *r.pick(&[0, 0, 2]), deterministic: !r.chance(1, 4), safe: r.chance(1, 2), ..Params::small() };
    // questions about many clocks can take the engine minutes
    let (tree, mut comps) = loop {
        let made = operators(r, &mut p);
        if made.1.iter().map(|c| c.clocks.len()).sum::<usize>() < 4 {
            break made;
        }
    };
    comps.iter_mut().for_each(as_sent);
    let names = comps.iter().map(|c| c.name.clone()).collect();
    Model { comps, tree, names }
}
pub fn query(r: &mut Rng, m: &Model) -> String {
    let sys = m.tree.text(&m.names);
    let one = r.pick(&m.names).clone();
    match r.below(7) {
        0 => format!("consistency: {}", sys),
        1 => format!("determinism: {}", sys),
        // takes long where there are many clocks
        2 if m.clocks() < 3 => format!("refinement: {} <= {}", sys, sys),
        3 => format!("refinement: {} <= {}", one, r.pick(&m.names)),
        4 => {
            let k = r.below(m.comps.len());
            let l = r.pick(&m.comps[k].locs).id.clone();
            format!("reachability: {} @ init -> {}.{}", sys, m.names[k], l)
        }
        5 => format!("get-component: {} save-as X", sys),
        _ => format!("consistency: {}", one),
    }
}
fn request(r: &mut Rng, ms: &[Model], user: i32, hashes: &[u32], seq: i32) -> Ask {
    let k = r.below(ms.len());
    let m = &ms[k];
    let hash = if r.chance(1, 8) { 0 } else { hashes[k] };
    let i = info(&m.comps, &m.tree.text(&m.names), user, hash);
    match r.below(4) {
        0 => Ask::Start(SimulationStartRequest { simulation_info: Some(i) }),
        1 => {
            // a step in this very model, found out without the server under test
            let b = ConcreteEcdarBackend::new(1, 1);
            let start = Ask::Start(SimulationStartRequest { simulation_info: Some(info(&m.comps, &m.tree.text(&m.names), user, 0)) });
            let Ask::Start(q) = &start else { unreachable!() };
            let ds = caught(|| block_on(b.start_simulation(tonic::Request::new(q.clone())))).ok().and_then(|r| r.ok()).map(|r| r.into_inner().new_decision_points).unwrap_or_default();
            match ds.len() {
                0 => start,
                n => Ask::Step(SimulationStepRequest { simulation_info: Some(i), chosen_decision: Some(ds[r.below(n)].clone()) }),
            }
        }
        _ => Ask::Query(QueryRequest {
            user_id: user,
            query_id: seq,
            query: query(r, m),
            components_info: i.components_info,
            settings: r.pick(&[None, Some(true), Some(false)]).map(|disable_clock_reduction| query_request::Settings { disable_clock_reduction }),
        }),
    }
}
// ---------------------------------------------------------------- hostility
fn spoil_text(r: &mut Rng, s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    if c.is_empty() {
        return "\"".into();
    }
    let at = r.below(c.len());
    match r.below(5) {
        0 => c[..at].iter().collect(),
        1 => c[..at].iter().chain(&c[at + 1..]).collect(),
        2 => format!("{}{}{}", c[..at].iter().collect::<String>(), r.pick(&["é", "{", "}", "\"", "&&", "(", ")", "\u{0}", "-", "99999999999", "😀", "\n", "true", "null"]), c[at..].iter().collect::<String>()),
        3 => String::new(),
        _ => format!("{}{}", s, s),
    }
}
fn spoil_info(r: &mut Rng, i: &mut Option<ComponentsInfo>) {
    match (r.below(4), i.as_mut()) {
        (0, _) => *i = None,
        (1, Some(x)) if !x.components.is_empty() => {
            let k = r.below(x.components.len());
            x.components.remove(k);
            x.components_hash = 0;
        }
        (_, Some(x)) if !x.components.is_empty() => {
            let k = r.below(x.components.len());
            x.components_hash = 0;
            x.components[k].rep = match (r.below(5), x.components[k].rep.clone()) {
                (0, _) => None,
                (1, Some(component::Rep::Json(j))) => Some(component::Rep::Xml(j)),
                (_, Some(component::Rep::Json(j))) => {
                    // most of the damage inside the values
                    let words = ["L0", "L1", "x", "y", "INPUT", "OUTPUT", "INITIAL", "NORMAL", "clock", "\"A\"", "E0", "<=", "="];
                    let w = r.pick(&words);
                    Some(component::Rep::Json(if r.chance(2, 3) && j.contains(w) { j.replacen(w, r.pick(&["L9", "z", "", "é", "0", "clock", "INCONSISTENT", "UNIVERSAL", "\"B\"", "<", "=="]), 1 + r.below(2)) } else { spoil_text(r, &j) }))
                }
                (_, rep) => rep,
            };
        }
        _ => *i = None,
    }
}
fn spoil_tree(r: &mut Rng, t: &mut Option<LocationTree>) {
    use location_tree::NodeType as N;
    if r.chance(1, 6) {
        *t = None;
        return;
    }
    let Some(x) = t else { return };
    match &mut x.node_type {
        _ if r.chance(1, 6) => x.node_type = r.pick(&[None, Some(N::SpecialLocation(0)), Some(N::SpecialLocation(1)), Some(N::SpecialLocation(7)), Some(N::LeafLocation(LeafLocation { id: "L0".into(), component_instance: None }))]).clone(),
        Some(N::LeafLocation(l)) => match r.below(3) {
            0 => l.id = r.pick(&["L9", "", "L1"]).to_string(),
            1 => l.component_instance = None,
            _ => {
                if let Some(c) = &mut l.component_instance {
                    if r.chance(1, 2) { c.component_name = "Nobody".into() } else { c.component_index = 77 }
                }
            }
        },
        Some(N::BinaryLocationOp(b)) => match r.below(4) {
            0 => b.left = None,
            1 => b.operator = *r.pick(&[0, 1, 2, 3, 9]),
            2 => std::mem::swap(&mut b.left, &mut b.right),
            _ => {
                let mut l = b.left.take().map(|l| *l);
                spoil_tree(r, &mut l);
                b.left = l.map(Box::new);
            }
        },
        _ => x.node_type = None,
    }
}
fn spoil_zone(r: &mut Rng, z: &mut Option<Disjunction>) {
    let Some(d) = z.as_mut().filter(|_| !r.chance(1, 6)) else {
        *z = None;
        return;
    };
    if d.conjunctions.is_empty() || r.chance(1, 6) {
        d.conjunctions.clear();
        return;
    }
    let k = r.below(d.conjunctions.len());
    let cs = &mut d.conjunctions[k].constraints;
    if cs.is_empty() {
        cs.push(Constraint { x: None, y: None, strict: false, c: 3 });
        return;
    }
    let n = r.below(cs.len());
    match r.below(5) {
        0 => cs[n].x = None,
        1 => cs[n].y = Some(Clock { clock: None }),
        2 => cs[n].x = Some(Clock { clock: Some(clock::Clock::SystemClock(clock::SystemClock { clock_index: *r.pick(&[0, 1, 50]) })) }),
        3 => {
            if let Some(Clock { clock: Some(clock::Clock::ComponentClock(c)) }) = &mut cs[n].x {
                if r.chance(1, 2) { c.clock_name = "nothing".into() } else { c.component_instance = Some(ComponentInstance { component_name: "A".into(), component_index: 1 }) }
            } else {
                cs[n].y = cs[n].x.clone();
            }
        }
        _ => cs[n].c = *r.pick(&[-1, 0, -1000000, 1000000]),
    }
}
fn spoil(r: &mut Rng, a: &mut Ask) {
    match a {
        Ask::Query(q) => match r.below(3) {
            0 => q.query = spoil_text(r, &q.query),
            1 => q.query = r.pick(&["", ";", "refinement: A", "consistency: A; consistency: A", "consistency: Nobody", "implementation: A", "specification: A", "bisim-minim: A", "reachability: A @ init -> A.L9", "reachability: A @ A.L0 -> Nobody.L0", "determinism: A // A // B", "refinement: A || A <= A"]).to_string(),
            _ => spoil_info(r, &mut q.components_info),
        },
        Ask::Start(q) => spoil_sim(r, &mut q.simulation_info),
        Ask::Step(q) => match r.below(5) {
            0 => spoil_sim(r, &mut q.simulation_info),
            1 => q.chosen_decision = None,
            _ => {
                let Some(d) = &mut q.chosen_decision else { return };
                match r.below(6) {
                    0 => d.action = r.pick(&["", "nothing", "i", "o"]).to_string(),
                    1 => d.source = None,
                    2 => d.destination = None,
                    3 => {
                        if let Some(s) = &mut d.source {
                            if r.chance(1, 2) { spoil_tree(r, &mut s.location_tree) } else { spoil_zone(r, &mut s.zone) }
                        }
                    }
                    4 => {
                        if let Some(s) = &mut d.destination {
                            if r.chance(1, 2) { spoil_tree(r, &mut s.location_tree) } else { spoil_zone(r, &mut s.zone) }
                        }
                    }
                    _ => d.edges.clear(),
                }
            }
        },
    }
}
fn spoil_sim(r: &mut Rng, i: &mut Option<SimulationInfo>) {
    match (r.below(3), i.as_mut()) {
        (0, _) => *i = None,
        (1, Some(x)) => x.component_composition = if r.chance(1, 2) { spoil_text(r, &x.component_composition) } else { r.pick(&["", "A ||", "Nobody", "A || A || A", "(A"]).to_string() },
        (_, Some(x)) => spoil_info(r, &mut x.components_info),
        _ => {}
    }
}
fn show(a: &Ask) -> String {
    match a {
        Ask::Query(q) => format!("user {} hash {:?} query {:?} reduction off {:?}", q.user_id, q.components_info.as_ref().map(|i| i.components_hash), q.query, q.settings.as_ref().map(|s| s.disable_clock_reduction)),
        Ask::Start(q) => format!("user {:?} start {:?}", q.simulation_info.as_ref().map(|i| (i.user_id, i.components_info.as_ref().map(|i| i.components_hash))), q.simulation_info.as_ref().map(|i| i.component_composition.clone())),
        Ask::Step(q) => format!("user {:?} step {:?}", q.simulation_info.as_ref().map(|i| (i.user_id, i.components_info.as_ref().map(|i| i.components_hash))), q.chosen_decision.as_ref().map(|d| d.action.clone())),
    }
}
/// What a server that has never been asked anything says
fn alone(a: &Ask) -> Answer {
    put(&ConcreteEcdarBackend::new(1, 1), a)
}
fn brief(ms: &[Model]) -> String {
    ms.iter().enumerate().map(|(i, m)| format!("model {}: {}\n{}", i, m.tree.text(&m.names), m.comps.iter().map(|c| c.brief()).collect::<Vec<_>>().join("\n"))).collect::<Vec<_>>().join("\n")
}
fn sessions(r: &mut Rng, c: &mut Case) {
    let ms: Vec<Model> = (0..2 + r.below(3)).map(|_| model(r)).collect();
    // the same hash for different users' models too: a hash is a user's own
    let users = 1 + r.below(3);
    let clients = 1 + r.below(4);
    // hashes and numbers of users that are close to each other, or alike in some of their bits
    let spread = *r.pick(&[1u32, 1, 1 << 8, 1 << 16, 1 << 24, 1 << 30]);
    let hashes: Vec<Vec<u32>> = (0..users).map(|_| { let mut h: Vec<u32> = (1..=ms.len() as u32).map(|k| k.wrapping_mul(spread).wrapping_add(7)).collect(); r.shuffle(&mut h); h }).collect();
    let numbers: [i32; 3] = *r.pick(&[[0, 1, 2], [1, 2, 3], [5, -5, 6], [-1, 1, 0], [1, 257, 65537], [3, 3 + (1 << 24), i32::MIN + 3], [i32::MAX, i32::MIN, 0]]);
    let scripts: Vec<Vec<(Ask, bool)>> = (0..clients)
        .map(|k| {
            (0..4 + r.below(6))
                .map(|n| {
                    let u = if r.chance(1, 6) { r.below(users) } else { k % users };
                    let mut a = request(r, &ms, numbers[u], &hashes[u], (k * 100 + n) as i32);
                    let hostile = r.chance(1, 4);
                    if hostile {
                        spoil(r, &mut a);
                    }
                    (a, hostile)
                })
                .collect()
        })
        .collect();
    let expected: Vec<Vec<Answer>> = scripts.iter().map(|s| s.iter().map(|(a, _)| alone(a)).collect()).collect();
    let backend = ConcreteEcdarBackend::new(1 + r.below(4), 1 + r.below(4));
    let log: Mutex<Vec<(usize, usize)>> = Mutex::new(vec![]);
    let seeds: Vec<u64> = (0..clients).map(|_| r.next()).collect();
    let tokens: Mutex<Vec<i32>> = Mutex::new(vec![]);
    let wrong: Mutex<Vec<(String, String)>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for k in 0..clients {
            let (backend, script, want, log, wrong, tokens, seed) = (&backend, &scripts[k], &expected[k], &log, &wrong, &tokens, seeds[k]);
            sc.spawn(move || {
                let mut r = Rng::new(seed);
                for (n, (a, hostile)) in script.iter().enumerate() {
                    match r.below(6) {
                        0 => std::thread::yield_now(),
                        1 => std::thread::sleep(std::time::Duration::from_micros(r.below(300) as u64)),
                        _ => {}
                    }
                    if r.chance(1, 4) {
                        if let Ok(t) = block_on(backend.get_user_token(tonic::Request::new(()))) {
                            tokens.lock().unwrap().push(t.into_inner().user_id);
                        }
                    }
                    let got = put(backend, a);
                    log.lock().unwrap().push((k, n));
                    if let Answer::Died(e) = &got {
                        wrong.lock().unwrap().push(("died".into(), format!("{}: the call ended in a panic: {}", show(a), e)));
                    } else if got != want[n] {
                        wrong.lock().unwrap().push((if *hostile { "hostile" } else { "answer" }.into(), format!("client {} request {}: {}\nanswered {:?}\nby a server of its own {:?}", k, n, show(a), got, want[n])));
                    }
                }
            });
        }
    });
    let log = log.into_inner().unwrap();
    c.seen("interleavings", &log);
    c.evals(log.len() as u64);
    c.count_n("requests", log.len() as u64);
    c.count_n("hostile requests", scripts.iter().flatten().filter(|x| x.1).count() as u64);
    c.count_n("refused", expected.iter().flatten().filter(|x| **x == Answer::Refused).count() as u64);
    let order = || log.iter().map(|(k, n)| format!("{}.{} {}", k, n, show(&scripts[*k][*n].0))).collect::<Vec<_>>().join("\n");
    if let Some((k, e)) = wrong.into_inner().unwrap().into_iter().next() {
        return c.violation(k, format!("{}\nrequests in the order of their answers:\n{}\n{}", e, order(), brief(&ms)));
    }
    let mut t = tokens.into_inner().unwrap();
    let n = t.len();
    t.sort();
    t.dedup();
    c.count_n("tokens", n as u64);
    if t.len() != n {
        return c.violation("token", format!("{} tokens were given out, {} of them different", n, t.len()));
    }
    let told: BTreeSet<String> = expected.iter().flatten().filter_map(|a| match a { Answer::Told(t) => Some(t.clone()), _ => None }).collect();
    if told.len() > 2 && log.windows(2).any(|x| x[0].0 != x[1].0) {
        c.nontrivial(&log);
        c.sample(|| order());
    }
}
/// Many users who ask for a token at the same time
fn tokens(r: &mut Rng, c: &mut Case) {
    let clients = 2 + r.below(7);
    let each = 2000;
    let backend = ConcreteEcdarBackend::new(1 + r.below(4), 1 + r.below(4));
    let start = std::sync::Barrier::new(clients);
    let next = std::sync::atomic::AtomicUsize::new(0);
    let given: Vec<Vec<(usize, i32)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..clients)
            .map(|_| {
                sc.spawn(|| {
                    start.wait();
                    (0..each)
                        .filter_map(|_| {
                            let at = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                            block_on(backend.get_user_token(tonic::Request::new(()))).ok().map(|t| (at, t.into_inner().user_id))
                        })
                        .collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut order: Vec<(usize, usize)> = given.iter().enumerate().flat_map(|(k, g)| g.iter().map(move |(at, _)| (*at, k))).collect();
    order.sort();
    let switches = order.windows(2).filter(|w| w[0].1 != w[1].1).count();
    c.seen("interleavings of tokens", &order.iter().map(|o| o.1).collect::<Vec<_>>());
    c.count_n("switches between users asking for tokens", switches as u64);
    let mut all: Vec<i32> = given.iter().flatten().map(|g| g.1).collect();
    let n = all.len();
    c.evals(n as u64);
    c.count_n("tokens", n as u64);
    all.sort();
    all.dedup();
    if n != clients * each || all.len() != n {
        return c.violation("token", format!("{} users asked for {} tokens each; {} tokens were given out, {} of them different", clients, each, n, all.len()));
    }
    c.nontrivial(&order);
}
/// The server's answers are the engine's
fn direct(r: &mut Rng, c: &mut Case) {
    let m = model(r);
    let q = query(r, &m);
    let off = r.chance(1, 2);
    let hash = *r.pick(&[0, 5]);
    let ask = Ask::Query(QueryRequest {
        user_id: 1,
        query_id: 3,
        query: q.clone(),
        components_info: info(&m.comps, "", 1, hash).components_info,
        settings: Some(query_request::Settings { disable_clock_reduction: off }),
    });
    let engine = caught(|| Loader::new(&m.comps, !off).map(|mut l| verdict(&l.run(&q))));
    let want = match engine {
        Ok(Ok(v)) if v.starts_with("precondition") => "false".to_string(),
        Ok(Ok(v)) if v == "error" => "refused".to_string(),
        Ok(Ok(v)) => v,
        e => return c.violation("engine", format!("{}: {:?}\n{}", q, e, brief(&[m]))),
    };
    let got = put(&ConcreteEcdarBackend::new(1, 1), &ask);
    c.eval();
    let said = match &got {
        Answer::Told(t) if t == "success" || t.starts_with("path") => "true".to_string(),
        Answer::Told(t) if t == "model failure" => "recipe".into(),
        Answer::Told(t) if t == "unreachable" || t.ends_with("failure") => "false".into(),
        Answer::Told(_) => "component".into(),
        Answer::Refused => "refused".into(),
        Answer::Died(e) => e.clone(),
    };
    c.count(&format!("{} {}", q.split(':').next().unwrap(), said));
    if !said.starts_with(&want) && !want.starts_with(&said) {
        return c.violation("direct", format!("{}: the server says {:?}, the engine {}\n{}", q, got, want, brief(&[m])));
    }
    // a request is one question: several get no answer that would be that of one of them
    if r.chance(1, 8) {
        let Ask::Query(mut two) = ask else { unreachable!() };
        two.query = format!("{}; {}", q, query(r, &m));
        c.eval();
        let got = put(&ConcreteEcdarBackend::new(1, 1), &Ask::Query(two.clone()));
        if got != Answer::Refused {
            return c.violation("several", format!("{}: the server says {:?}\n{}", two.query, got, brief(&[m])));
        }
    }
    c.nontrivial((&q, &m.comps));
}
pub fn server(run: &'static Run) {
    common::quiet_everywhere(true);
    run.cases("sessions", (600, 40), (100_000, 900), sessions);
    run.cases("tokens", (60, 5), (3_000, 100), tokens);
    run.cases("direct", (2000, 20), (100_000, 300), direct);
    common::quiet_everywhere(false);
}

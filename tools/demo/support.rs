//! Writes components compactly and asks queries about them.
use reveaal::extract_system_rep::{create_executable_query, ExecutableQueryError};
use reveaal::ModelObjects::Component;
use reveaal::ProtobufServer::services::query_request::Settings;
use reveaal::System::input_enabler::make_input_enabled;
use reveaal::System::query_failures::QueryResult;
use reveaal::ComponentLoader;
use std::collections::HashMap;

/// One line per location, `name [invariant]` (the first is initial), and per edge,
/// `E1: from act? to ; guard ; update`.
pub fn json(name: &str, clocks: &str, text: &str) -> String {
    let (mut locs, mut edges) = (vec![], vec![]);
    for l in text.lines().map(str::trim).filter(|l| !l.is_empty()) {
        if let Some((id, rest)) = l.split_once(": ") {
            let mut f = rest.split(';').map(str::trim);
            let head: Vec<&str> = f.next().unwrap().split_whitespace().collect();
            let (guard, update) = (f.next().unwrap_or(""), f.next().unwrap_or(""));
            let act = head[1];
            let kind = if act.ends_with('?') { "INPUT" } else { "OUTPUT" };
            edges.push(format!(
                r#"{{"id":"{}","group":"","sourceLocation":"{}","targetLocation":"{}","status":"{}","select":"","guard":"{}","update":"{}","sync":"{}","isLocked":false,"nails":[]}}"#,
                id, head[0], head[2], kind, guard, update, &act[..act.len() - 1]
            ));
        } else {
            let (id, inv) = l.split_once('[').unwrap_or((l, ""));
            locs.push(format!(
                r#"{{"id":"{}","nickname":"","invariant":"{}","type":"{}","urgency":"NORMAL","x":0.0,"y":0.0,"color":"7","nicknameX":0.0,"nicknameY":0.0,"invariantX":0.0,"invariantY":0.0}}"#,
                id.trim(),
                inv.trim_end_matches(']'),
                if locs.is_empty() { "INITIAL" } else { "NORMAL" }
            ));
        }
    }
    let decl = if clocks.is_empty() { String::new() } else { format!("clock {};", clocks) };
    format!(
        r#"{{"name":"{}","declarations":"{}","locations":[{}],"edges":[{}],"description":"","x":0.0,"y":0.0,"width":0.0,"height":0.0,"color":"7","includeInPeriodicCheck":false}}"#,
        name, decl, locs.join(","), edges.join(",")
    )
}
/// `inputs` are the actions the component is made to accept everywhere
pub fn comp(name: &str, clocks: &str, inputs: &[&str], text: &str) -> Component {
    let mut c = reveaal::DataReader::json_reader::json_to_component(&json(name, clocks, text)).expect("model");
    let ins: Vec<String> = inputs.iter().map(|s| s.to_string()).collect();
    make_input_enabled(&mut c, &ins);
    c
}
pub struct Loader {
    pub comps: HashMap<String, Component>,
    pub saved: Vec<Component>,
    settings: Settings,
}
impl Loader {
    pub fn new(comps: &[Component], reduce: bool) -> Loader {
        Loader {
            comps: comps.iter().map(|c| (c.name.clone(), c.clone())).collect(),
            saved: vec![],
            settings: Settings { disable_clock_reduction: !reduce },
        }
    }
}
impl ComponentLoader for Loader {
    fn get_component(&mut self, name: &str) -> &Component {
        &self.comps[name]
    }
    fn save_component(&mut self, c: Component) {
        self.saved.push(c);
    }
    fn get_settings(&self) -> &Settings {
        &self.settings
    }
    fn get_settings_mut(&mut self) -> &mut Settings {
        &mut self.settings
    }
}
#[allow(dead_code)]
pub fn run(l: &mut Loader, query: &str) -> Result<QueryResult, String> {
    let q = reveaal::parse_queries::parse_to_query(query);
    match create_executable_query(&q[0], l) {
        Ok(q) => Ok(q.execute()),
        Err(ExecutableQueryError::SystemRecipeFailure(_)) => Err("refused".into()),
        Err(ExecutableQueryError::Custom(e)) => Err(e),
    }
}
/// yes, no or refused
#[allow(dead_code)]
pub fn ask(comps: &[Component], query: &str, reduce: bool) -> &'static str {
    use reveaal::System::query_failures::RefinementFailure;
    match run(&mut Loader::new(comps, reduce), query) {
        Err(_) => "refused",
        Ok(QueryResult::Refinement(Err(RefinementFailure::Precondition(_)))) => "refused",
        Ok(QueryResult::Refinement(r)) => if r.is_ok() { "yes" } else { "no" },
        Ok(QueryResult::Reachability(r)) => if r.is_ok() { "yes" } else { "no" },
        Ok(QueryResult::Consistency(r)) => if r.is_ok() { "yes" } else { "no" },
        Ok(QueryResult::Determinism(r)) => if r.is_ok() { "yes" } else { "no" },
        Ok(_) => "other",
    }
}
#[allow(dead_code)]
pub fn expect(comps: &[Component], query: &str, want: &str) {
    let mut ok = true;
    for reduce in [false, true] {
        let got = ask(comps, query, reduce);
        println!("{} (clock reduction {}): {}, should be {}", query, reduce, got, want);
        ok &= got == want;
    }
    if !ok {
        std::process::exit(1);
    }
}

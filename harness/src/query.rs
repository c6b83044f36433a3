//! Running the real code: models in, verdicts out.
use crate::model::Comp;
use reveaal::extract_system_rep::{create_executable_query, ExecutableQueryError};
use reveaal::DataReader::json_reader;
use reveaal::ModelObjects::{Component, Query};
use reveaal::ProtobufServer::services::query_request::Settings;
use reveaal::System::input_enabler;
use reveaal::System::query_failures::QueryResult;
use reveaal::ComponentLoader;
use std::collections::HashMap;

pub struct Loader {
    pub comps: HashMap<String, Component>,
    pub saved: Vec<Component>,
    settings: Settings,
}
impl ComponentLoader for Loader {
    fn get_component(&mut self, name: &str) -> &Component {
        self.comps.get(name).unwrap_or_else(|| panic!("the query names a component that the case does not have: {}", name))
    }
    fn save_component(&mut self, c: Component) {
        self.saved.push(c);
    }
    fn get_settings(&self) -> &Settings {
        &self.settings
    }
    fn get_settings_mut(&mut self) -> &mut Settings {
        &mut self.settings
    }
}
pub fn read(c: &Comp) -> Result<Component, String> {
    json_reader::json_to_component(&c.json()).map_err(|e| e.to_string())
}
impl Loader {
    pub fn new(comps: &[Comp], reduce: bool) -> Result<Loader, String> {
        let mut l = Loader { comps: HashMap::new(), saved: vec![], settings: Settings { disable_clock_reduction: !reduce } };
        for c in comps {
            l.add(read(c)?, &c.inputs);
        }
        Ok(l)
    }
    pub fn add(&mut self, mut c: Component, inputs: &[String]) {
        input_enabler::make_input_enabled(&mut c, inputs);
        self.comps.insert(c.name.clone(), c);
    }
    pub fn run(&mut self, text: &str) -> Result<QueryResult, ExecutableQueryError> {
        let q = reveaal::parse_queries::parse_to_query(text);
        assert_eq!(q.len(), 1, "one query was given");
        self.run_query(&q[0])
    }
    pub fn run_query(&mut self, q: &Query) -> Result<QueryResult, ExecutableQueryError> {
        Ok(create_executable_query(q, self)?.execute())
    }
}
/// Verdict as a word: true, false, or the kind of refusal
pub fn verdict(r: &Result<QueryResult, ExecutableQueryError>) -> String {
    match r {
        Ok(QueryResult::Refinement(Ok(_)))
        | Ok(QueryResult::Reachability(Ok(_)))
        | Ok(QueryResult::Consistency(Ok(_)))
        | Ok(QueryResult::Determinism(Ok(_))) => "true".into(),
        Ok(QueryResult::Refinement(Err(e))) => {
            use reveaal::System::query_failures::{RefinementFailure as F, RefinementPrecondition as P};
            match e {
                F::CutsDelaySolutions { .. } => "false: cuts delays".into(),
                F::CannotMatch { .. } => "false: cannot match".into(),
                F::Precondition(P::EmptyChild { .. }) => "precondition: empty child".into(),
                F::Precondition(P::EmptyInitialState { .. }) => "precondition: empty initial".into(),
                F::Precondition(P::InconsistentChild(c, _)) => format!("precondition: {}", consistency_word(c)),
                F::Precondition(P::ActionMismatch(..)) => "precondition: actions".into(),
            }
        }
        Ok(QueryResult::Reachability(Err(_))) => "false".into(),
        Ok(QueryResult::Consistency(Err(c))) => format!("false: {}", consistency_word(c)),
        Ok(QueryResult::Determinism(Err(_))) => "false".into(),
        Ok(QueryResult::GetComponent(_)) => "component".into(),
        Ok(QueryResult::RecipeFailure(_)) => "recipe".into(),
        Ok(QueryResult::CustomError(_)) => "error".into(),
        Err(ExecutableQueryError::SystemRecipeFailure(_)) => "recipe".into(),
        Err(ExecutableQueryError::Custom(_)) => "error".into(),
    }
}
fn consistency_word(c: &reveaal::System::query_failures::ConsistencyFailure) -> &'static str {
    use reveaal::System::query_failures::ConsistencyFailure as C;
    match c {
        C::NoInitialState { .. } => "no initial state",
        C::InconsistentFrom { .. } | C::InconsistentLoc { .. } => "inconsistent",
        C::NotDeterministic(_) => "nondeterministic",
    }
}

//! Monitors over the whole library.
#![allow(clippy::all)]
mod model;
mod p_input;
mod p_laws;
mod p_local;
mod p_query;
mod p_reach;
mod p_refine;
mod p_trans;
mod query;
mod reader;
mod sem;
mod p_save;
mod p_proj;
mod p_server;
mod p_sim;
mod p_text;
mod p_why;
mod p_same;
mod sysio;
mod text;
use common::Run;

fn main() {
    common::install_panic_hook();
    let args = common::args();
    let id = args.property.clone();
    match id.as_str() {
        "C04" => {
            let run = Run::new(args, "the system has several reachable locations and some transition was enabled at a sampled point");
            p_trans::composition(run);
            run.finish()
        }
        "C05" => {
            let run = Run::new(args, "the system has several reachable locations and some transition was enabled at a sampled point");
            p_trans::quotient(run);
            run.finish()
        }
        "C06" => {
            let run = Run::new(args, "the target was not met by the start, and the search left the start location or the target is unreachable with several locations reachable");
            p_reach::verdicts(run);
            run.finish()
        }
        "C07" => {
            let run = Run::new(args, "the oracle compared more than three pairs of states to decide the refinement");
            p_refine::verdicts(run);
            run.finish()
        }
        "C08" => {
            let run = Run::new(args, "some location of the system is inconsistent, so the answer depends on which moves lead there");
            p_local::consistency(run);
            run.finish()
        }
        "C09" => {
            let run = Run::new(args, "some location has two edges for one action, so the answer depends on guards and invariants");
            p_local::determinism(run);
            run.finish()
        }
        "C10" => {
            let run = Run::new(args, "no system was refused and every premise of the law was answered");
            p_laws::laws(run);
            run.finish()
        }
        "C11" => {
            let run = Run::new(args, "the text holds at some sampled valuation and fails at another, or the query on the ornate model needed a step");
            p_text::texts(run);
            run.finish()
        }
        "C12" => {
            let run = Run::new(args, "the text is a query, or is refused, or the state it describes does not exist");
            p_query::queries(run);
            run.finish()
        }
        "C13" => {
            let run = Run::new(args, "some input was taken by an edge at a sampled valuation and ignored at another");
            p_input::completion(run);
            run.finish()
        }
        "C14" => {
            let run = Run::new(args, "more than four states of the system and the component made from it were compared");
            p_save::saving(run);
            run.finish()
        }
        "C15" => {
            let run = Run::new(args, "more than two steps were taken, and there was a choice between several decisions");
            p_sim::simulation(run);
            run.finish()
        }
        "C16" => {
            let run = Run::new(args, "clients took turns and there were more than two different answers, or the engine's answer was compared");
            p_server::server(run);
            run.finish()
        }
        "C17" => {
            let run = Run::new(args, "the queries had different answers");
            p_proj::projects_and_command_line(run);
            run.finish()
        }
        "C18" => {
            let run = Run::new(args, "the answer was negative and what it names was found to be wrong as it says");
            p_why::reasons(run);
            run.finish()
        }
        "C19" => {
            let run = Run::new(args, "the query was answered with true or false both times");
            p_same::anew_checks(run);
            run.finish()
        }
        _ => {
            eprintln!("no such property: {}", id);
            std::process::exit(2)
        }
    }
}

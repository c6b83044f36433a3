//! One model in every form it can be given in: project folder, XML file, messages to the
//! server; asked in process and from the command line.
use crate::model::*;
use crate::p_server::{put, query, result_text, Answer, Ask, Model};
use crate::p_sim::{as_sent, info};
use crate::p_trans::operators;
use crate::query::*;
use common::{guard as caught, Case, Rng, Run};
use reveaal::extract_system_rep::{create_executable_query, ExecutableQueryError};
use reveaal::ModelObjects::Query;
use reveaal::ProtobufServer::services::query_request::Settings;
use reveaal::ProtobufServer::services::*;
use reveaal::ProtobufServer::ConcreteEcdarBackend;
use reveaal::System::query_failures::QueryResult;
use reveaal::{ComponentLoader, JsonProjectLoader, ProjectLoader, XmlProjectLoader};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};

/// A folder of its own for each case
pub struct Dir(pub PathBuf);
static NEXT: AtomicUsize = AtomicUsize::new(0);
impl Dir {
    pub fn new() -> Dir {
        let d = std::env::temp_dir().join(format!("verif-reveaal-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).expect("a scratch folder");
        Dir(d)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn js(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}
/// The declarations of a system
fn system_text(r: &mut Rng, comps: &[Comp]) -> String {
    let plain = r.chance(1, 4);
    let nl = if !plain && r.chance(1, 5) { "\r\n" } else { "\n" };
    let mut sp = |least: usize| {
        if plain {
            " ".to_string()
        } else {
            let n = least + if r.chance(1, 3) { r.below(3) } else { 0 };
            (0..n).map(|_| *r.pick(&[" ", " ", " ", "\t"])).collect()
        }
    };
    let mut s = String::new();
    let names: Vec<String> = comps.iter().map(|c| c.name.clone()).collect();
    s += &format!("system{}", sp(1));
    for (i, n) in names.iter().enumerate() {
        if i > 0 {
            s += &format!("{},{}", if plain { String::new() } else { sp(0) }, sp(0));
        }
        s += n;
    }
    s += &format!("{};", if plain { String::new() } else { sp(0) });
    s += nl;
    let mut lines: Vec<String> = vec![];
    for c in comps {
        let mut acts: Vec<String> = c.inputs.iter().map(|a| format!("{}?", a)).chain(c.outputs.iter().map(|a| format!("{}!", a))).collect();
        if acts.is_empty() {
            continue;
        }
        if !plain {
            let k = acts.len();
            if acts.len() > 1 && acts[0] < c.name.to_lowercase() {
                acts.swap(0, k - 1);
            }
        }
        let io = |acts: &[String], sp: &mut dyn FnMut(usize) -> String| {
            let mut l = format!("IO{}{}{}{{{}", sp(1), c.name, sp(0), sp(0));
            for (i, a) in acts.iter().enumerate() {
                if i > 0 {
                    l += &format!("{},{}", if plain { String::new() } else { sp(0) }, sp(0));
                }
                l += a;
            }
            l + &format!("{}}}", sp(0))
        };
        lines.push(io(&acts, &mut sp));
    }
    let mut out = s;
    for l in lines {
        if !plain && r.chance(1, 6) {
            out += r.pick(&["// IO A { x? }", "//", "", "   ", "\t// system Z;"]);
            out += nl;
        }
        if !plain && r.chance(1, 6) {
            out += r.pick(&[" ", "\t", "  "]);
        }
        out += &l;
        if !plain {
            out += r.pick(&["", "", "", " ", "\t", " // a comment, with words { and? }"]);
        }
        out += nl;
    }
    out
}
pub fn write_json(r: &mut Rng, dir: &Path, comps: &[Comp], queries: &[String]) -> String {
    let d = system_text(r, comps);
    std::fs::create_dir_all(dir.join("Components")).unwrap();
    for c in comps {
        std::fs::write(dir.join("Components").join(format!("{}.json", c.name)), c.json()).unwrap();
    }
    std::fs::write(dir.join("SystemDeclarations.json"), format!("{{\"name\":\"System Declarations\",\"declarations\":{}}}", js(&d))).unwrap();
    let q: Vec<String> = queries.iter().map(|q| format!("{{\"query\":{},\"comment\":\"\",\"isPeriodic\":false,\"ignoredInputs\":{{}},\"ignoredOutputs\":{{}},\"backend\":1}}", js(q))).collect();
    std::fs::write(dir.join("Queries.json"), format!("[{}]", q.join(","))).unwrap();
    d
}
fn esc(r: &mut Rng, s: &str) -> String {
    if r.chance(1, 8) && !s.contains("]]>") {
        return format!("<![CDATA[{}]]>", s);
    }
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', if r.chance(1, 2) { "&gt;" } else { ">" })
}
/// As the editors of such files write it
pub fn xml(r: &mut Rng, comps: &[Comp]) -> String {
    let mut s = String::from("<?xml version=\"1.0\" encoding=\"utf-8\"?><!DOCTYPE nta PUBLIC '-//Uppaal Team//DTD Flat System 1.1//EN' 'http://www.it.uu.se/research/group/darts/uppaal/flat-1_1.dtd'><nta>");
    if r.chance(2, 3) {
        s += "<declaration>// Place global declarations here.\nbroadcast chan i, o;</declaration>";
    }
    for c in comps {
        let mut w = c.words();
        s += if r.chance(1, 2) { "<template>" } else { "\n<template>\n  " };
        s += &format!("<name{}>{}</name>", r.pick(&["", " x=\"5\" y=\"5\""]), c.name);
        let d = w.declarations(&c.clocks);
        if !d.is_empty() || r.chance(1, 2) {
            s += &format!("<declaration>{}</declaration>", esc(r, &d));
        }
        for l in &c.locs {
            s += &format!("<location id=\"{}\" x=\"{}\" y=\"-8\">", l.id, r.below(200));
            if r.chance(1, 3) {
                s += &format!("<name x=\"1\" y=\"2\">{}</name>", r.pick(&["Idle", "x", "L0"]));
            }
            let inv = w.constraint(&l.inv, &c.clocks);
            let mut labels = vec![];
            if !inv.is_empty() {
                labels.push(format!("<label kind=\"invariant\" x=\"1\" y=\"1\">{}</label>", esc(r, &inv)));
            }
            if r.chance(1, 8) {
                labels.push(format!("<label kind=\"comments\">{}</label>", r.pick(&["x&lt;1", "waits here", ""])));
            }
            if r.chance(1, 6) {
                // what editors of such files write there besides
                labels.push(r.pick(&["<label kind=\"exponentialrate\">3</label>", "<label kind=\"testcodeEnter\">enter();</label>", "<label kind=\"testcodeExit\">x&lt;1</label>"]).to_string());
            }
            if r.chance(1, 2) {
                labels.reverse();
            }
            s += &labels.concat();
            s += "</location>\n";
        }
        s += &format!("<init ref=\"{}\"/>", c.locs[c.initial().unwrap()].id);
        for e in &c.edges {
            s += &format!("<transition{}>", if e.input { "" } else { " controllable=\"false\" action=\"\"" });
            s += &format!("<source ref=\"{}\"/><target ref=\"{}\"/>", c.locs[e.src].id, c.locs[e.dst].id);
            let g = w.constraint(&e.guard, &c.clocks);
            let u = w.updates(&e.upd, &c.clocks);
            let mut labels = vec![format!("<label kind=\"synchronisation\" x=\"4\" y=\"4\">{}{}</label>", e.act, if e.input { "?" } else { "!" })];
            if !g.is_empty() {
                labels.push(format!("<label kind=\"guard\">{}</label>", esc(r, &g)));
            }
            if !u.is_empty() {
                labels.push(format!("<label kind=\"assignment\" x=\"-3\" y=\"0\">{}</label>", esc(r, &u)));
            }
            if r.chance(1, 8) {
                labels.push("<label kind=\"comments\">no ? or ! here</label>".into());
            }
            r.shuffle(&mut labels);
            s += &labels.concat();
            if r.chance(1, 4) {
                s += "<nail x=\"40\" y=\"-112\"/>";
            }
            s += "</transition>";
        }
        s += "</template>";
    }
    let d = format!("{}{}", r.pick(&["", "// Place template instantiations here.\n\n"]), system_text(r, comps));
    s += &format!("<system>{}</system></nta>", esc(r, &d));
    s
}
fn ask(l: &mut (dyn ComponentLoader + 'static), q: &Query) -> String {
    caught(|| match create_executable_query(q, l) {
        Err(ExecutableQueryError::SystemRecipeFailure(_)) => "model failure".to_string(),
        Err(_) => "refused".into(),
        Ok(x) => match x.execute() {
            QueryResult::CustomError(_) => "refused".into(),
            r => result_text(&r.into()),
        },
    })
    .unwrap_or_else(|e| format!("panic: {}", e))
}
pub fn model(r: &mut Rng) -> Model {
    let mut p = Params { lower: *r.pick(&[0, 0, 4]), inv: 3, locs: (1, 3), max: 3, special: *r.pick(&[0, 0, 0, 2]), deterministic: !r.chance(1, 4), safe: r.chance(1, 2), ..Params::small() };
    // questions about many clocks can take the engine minutes
    let (tree, mut comps) = loop {
        let made = operators(r, &mut p);
        if made.1.iter().map(|c| c.clocks.len()).sum::<usize>() < 4 {
            break made;
        }
    };
    if r.chance(1, 2) {
        comps.iter_mut().for_each(as_sent);
    } else if r.chance(1, 4) {
        // more inputs than the edges have
        let k = r.below(comps.len());
        for n in 0..1 + r.below(4) {
            let at = r.below(comps[k].inputs.len() + 1);
            comps[k].inputs.insert(at, format!("more{}", n));
        }
    }
    if r.chance(1, 2) {
        names_within_names(r, &mut comps);
    }
    let names = comps.iter().map(|c| c.name.clone()).collect();
    Model { comps, tree, names }
}
/// Names of locations and actions that begin or end with each other
fn names_within_names(r: &mut Rng, comps: &mut [Comp]) {
    let scheme = r.below(3);
    let new = |old: &str, all: &[String]| {
        let k = all.iter().position(|n| n == old).unwrap();
        match scheme {
            0 => format!("{}n", "s".repeat(k)),
            1 => format!("n{}", "s".repeat(k)),
            _ => format!("n{}n", "s".repeat(k)),
        }
    };
    for c in comps.iter_mut() {
        let mut all: Vec<String> = c.locs.iter().map(|l| l.id.clone()).collect();
        r.shuffle(&mut all);
        c.locs.iter_mut().for_each(|l| l.id = new(&l.id, &all));
    }
    let mut all: Vec<String> = comps.iter().flat_map(|c| c.inputs.iter().chain(&c.outputs).cloned().chain(c.edges.iter().map(|e| e.act.clone()))).collect();
    all.sort();
    all.dedup();
    r.shuffle(&mut all);
    for c in comps.iter_mut() {
        c.edges.iter_mut().for_each(|e| e.act = new(&e.act, &all));
        c.inputs.iter_mut().for_each(|a| *a = new(a, &all));
        c.outputs.iter_mut().for_each(|a| *a = new(a, &all));
    }
}
fn has_xml(m: &Model) -> bool {
    m.comps.iter().all(|c| c.initial().is_some() && c.locs.iter().all(|l| l.kind == Kind::Plain))
}
fn parsed(q: &str) -> Query {
    reveaal::parse_queries::parse_to_query(q).pop().unwrap()
}
fn projects(r: &mut Rng, c: &mut Case) {
    let m = model(r);
    let reduce = r.chance(1, 2);
    let settings = || Settings { disable_clock_reduction: !reduce };
    let queries: Vec<String> = (0..2 + r.below(4)).map(|_| query(r, &m)).collect();
    let dir = Dir::new();
    let decl = write_json(r, &dir.0, &m.comps, &queries);
    let as_xml = has_xml(&m).then(|| xml(r, &m.comps));
    let describe = |q: &str, e: String| format!("{} (clock reduction {})\n{}\ndeclarations {:?}\n{}\n{}", q, reduce, e, decl, m.comps.iter().map(|c| c.brief()).collect::<Vec<_>>().join("\n"), as_xml.clone().unwrap_or_default());
    let mut engine = match Loader::new(&m.comps, reduce) {
        Ok(l) => l,
        Err(e) => return c.violation("unreadable", describe("", e)),
    };
    let want: Vec<String> = queries.iter().map(|q| ask(&mut engine, &parsed(q))).collect();
    let mut tell = |form: &str, q: &str, want: &str, got: &str, c: &mut Case| {
        c.eval();
        c.count(form);
        if want != got {
            c.violation(form, describe(q, format!("of the model in memory: {}\n{}: {}", want, form, got)));
        }
        want == got
    };
    // the folder
    match caught(|| JsonProjectLoader::new_loader(&dir.0, settings())) {
        Err(e) => return c.violation("folder", describe("", format!("the project cannot be opened: {}", e))),
        Ok(p) => {
            let stored = p.get_queries().clone();
            if stored.len() != queries.len() {
                return c.violation("queries", describe("", format!("{} queries stored, {} read", queries.len(), stored.len())));
            }
            let mut l = p.to_comp_loader();
            // stored queries, and in some other order
            let mut order: Vec<usize> = (0..queries.len()).collect();
            r.shuffle(&mut order);
            for i in order {
                let got = ask(&mut *l, &stored[i]);
                if !tell("project folder", &queries[i], &want[i], &got, c) {
                    return;
                }
            }
        }
    }
    // the folder again, once the components made there were saved
    if queries.iter().zip(&want).any(|(q, w)| q.starts_with("get") && w != "model failure" && w != "refused") {
        let sys = m.tree.text(&m.names);
        let mut l = JsonProjectLoader::new_loader(&dir.0, settings()).to_comp_loader();
        for q in ["consistency: X".to_string(), "determinism: X".into(), "refinement: X <= X".into()] {
            let mut kept = Loader::new(&m.comps, reduce).unwrap();
            let made = match caught(|| kept.run(&format!("get-component: {} save-as X", sys))) {
                Ok(Ok(QueryResult::GetComponent(k))) => k,
                _ => break,
            };
            if q.starts_with("ref") && made.edges.len() > 20 {
                continue;
            }
            kept.comps.insert("X".into(), made);
            let (a, b) = (ask(&mut kept, &parsed(&q)), ask(&mut *l, &parsed(&q)));
            if !tell("saved in the folder", &q, &a, &b, c) {
                return;
            }
        }
    }
    if let Some(x) = &as_xml {
        let f = dir.0.join("model.xml");
        std::fs::write(&f, x).unwrap();
        match caught(|| XmlProjectLoader::new_loader(&f, settings())) {
            Err(e) => return c.violation("xml", describe("", format!("the file cannot be opened: {}", e))),
            Ok(p) => {
                let mut l = p.to_comp_loader();
                for (q, w) in queries.iter().zip(&want).filter(|(q, _)| !q.starts_with("get")) {
                    if !tell("XML file", q, w, &ask(&mut *l, &parsed(q)), c) {
                        return;
                    }
                }
            }
        }
    }
    // in messages nothing says which inputs there are but the edges
    let sent: Vec<Comp> = m.comps.iter().cloned().map(|mut k| { as_sent(&mut k); k }).collect();
    if sent == m.comps {
        let b = ConcreteEcdarBackend::new(1, 2);
        let mut forms = vec![("message with JSON", info(&m.comps, "", 1, 7).components_info)];
        if let Some(x) = &as_xml {
            forms.push(("message with XML", Some(ComponentsInfo { components: vec![Component { rep: Some(component::Rep::Xml(x.clone())) }], components_hash: 8 })));
        }
        for (form, i) in forms {
            for (q, w) in queries.iter().zip(&want) {
                let a = put(&b, &Ask::Query(QueryRequest { user_id: 1, query_id: 2, query: q.clone(), components_info: i.clone(), settings: Some(settings()) }));
                let got = match a {
                    Answer::Told(t) => t,
                    Answer::Refused => "refused".into(),
                    Answer::Died(e) => e,
                };
                if !tell(form, q, w, &got, c) {
                    return;
                }
            }
        }
    }
    for w in &want {
        c.count(&format!("answer: {}", w.split(' ').next().unwrap()));
    }
    if want.iter().any(|w| w != &want[0]) {
        c.nontrivial((&queries, &m.comps));
        c.sample(|| describe("", format!("{:?}\n{:?}", queries, want)));
    }
}
fn some_system(r: &mut Rng, m: &Model, saved: &[String]) -> String {
    match r.below(4) {
        0 => m.tree.text(&m.names),
        1 if !saved.is_empty() => r.pick(saved).clone(),
        _ => r.pick(&m.names).clone(),
    }
}
/// Components that are saved, and saved again under the same name, between questions
fn history(r: &mut Rng, m: &Model, steps: usize) -> Vec<String> {
    let mut saved: Vec<String> = vec![];
    (0..steps)
        .map(|_| {
            let small = m.clocks() < 3;
            match r.below(8) {
                0..=2 => {
                    let s = some_system(r, m, &saved);
                    // sometimes over a component of the project itself
                    let n = if r.chance(1, 6) { r.pick(&m.names).clone() } else { r.pick(&["X", "X", "Y", "a1"]).to_string() };
                    if !saved.contains(&n) {
                        saved.push(n.clone());
                    }
                    format!("get-component: {} save-as {}", s, n)
                }
                3 | 4 if small && !saved.is_empty() => {
                    let (mut a, mut b) = (r.pick(&saved).clone(), some_system(r, m, &saved));
                    if r.chance(1, 2) {
                        std::mem::swap(&mut a, &mut b);
                    }
                    format!("refinement: {} <= {}", a, b)
                }
                5 => format!("determinism: {}", some_system(r, m, &saved)),
                6 if !saved.is_empty() => format!("get-component: {}", r.pick(&saved)),
                _ => format!("consistency: {}", some_system(r, m, &saved)),
            }
        })
        .collect()
}
fn saving(r: &mut Rng, c: &mut Case) {
    let m = model(r);
    let reduce = r.chance(1, 2);
    let settings = || Settings { disable_clock_reduction: !reduce };
    let n = 3 + r.below(8);
    let queries = history(r, &m, n);
    let dir = Dir::new();
    write_json(r, &dir.0, &m.comps, &queries);
    let describe = |e: String| format!("{}\n{:#?} (clock reduction {})\n{}", e, queries, reduce, m.comps.iter().map(|c| c.brief()).collect::<Vec<_>>().join("\n"));
    let mut engine = Loader::new(&m.comps, reduce).unwrap();
    let mut l = JsonProjectLoader::new_loader(&dir.0, settings()).to_comp_loader();
    let mut saved: Vec<String> = vec![];
    let mut told = vec![];
    for q in &queries {
        let want = ask(&mut engine, &parsed(q));
        for k in engine.saved.drain(..) {
            c.count(if saved.contains(&k.name) { "saved again" } else { "saved" });
            if !saved.contains(&k.name) {
                saved.push(k.name.clone());
            }
            engine.comps.insert(k.name.clone(), k);
        }
        let got = ask(&mut *l, &parsed(q));
        c.eval();
        // a component that was not made is not there
        let want = if want.contains("that the case does not have") { "panic".to_string() } else { want };
        if got != want && !(want == "panic" && got.starts_with("panic: Could not find file")) {
            return c.violation("saved", describe(format!("{}\nof the components as they were saved: {}\nin the project: {}", q, want, got)));
        }
        told.push(want);
        if engine.comps.values().any(|k| k.edges.len() > 60) {
            break;
        }
    }
    // what is in the folder now
    for n in &saved {
        let f = dir.0.join("Components").join(format!("{}.json", n));
        let read = caught(|| result_text(&query_response::Result::Component(Component { rep: Some(component::Rep::Json(std::fs::read_to_string(&f).unwrap())) })));
        let want = result_text(&query_response::Result::Component(Component { rep: Some(component::Rep::Json(reveaal::DataReader::json_writer::component_to_json(&engine.comps[n]))) }));
        c.eval();
        c.count("files");
        if read.as_ref() != Ok(&want) {
            return c.violation("file", describe(format!("{} was saved as\n{}\nthe file has\n{:?}", n, want, read)));
        }
    }
    // opened again
    if !saved.iter().any(|s| m.names.contains(s)) {
        let mut l = JsonProjectLoader::new_loader(&dir.0, settings()).to_comp_loader();
        for n in &saved {
            for q in [format!("consistency: {}", n), format!("determinism: {}", n)] {
                let (a, b) = (ask(&mut engine, &parsed(&q)), ask(&mut *l, &parsed(&q)));
                c.eval();
                c.count("opened again");
                if a != b {
                    return c.violation("opened again", describe(format!("{}\nof the components as they were saved: {}\nin the project opened again: {}", q, a, b)));
                }
            }
        }
    }
    if saved.len() > 1 {
        c.nontrivial((&queries, &m.comps));
        c.sample(|| describe(format!("{:?}", told)));
    }
}
/// The program itself
fn command_line(r: &mut Rng, c: &mut Case) {
    let m = model(r);
    let reduce = r.chance(1, 2);
    let use_xml = has_xml(&m) && r.chance(1, 3);
    let mut queries: Vec<String> = (0..1 + r.below(4)).map(|_| query(r, &m)).filter(|q| !use_xml || !q.starts_with("get")).collect();
    if !use_xml && r.chance(1, 4) {
        let n = 3 + r.below(4);
        queries = history(r, &m, n);
    } else if let Some(k) = queries.iter().position(|q| q.starts_with("get")) {
        // what one query makes, the next can ask about
        if r.chance(2, 3) {
            queries.insert(k + 1 + r.below(queries.len() - k), r.pick(&["consistency: X", "determinism: X", if m.clocks() < 2 { "consistency: (X && X)" } else { "consistency: X" }]).to_string());
        }
    }
    if queries.is_empty() {
        return;
    }
    let dir = Dir::new();
    let decl = write_json(r, &dir.0, &m.comps, &queries);
    let mut input = dir.0.clone();
    if use_xml {
        input = dir.0.join(r.pick(&["m.xml", "a model.xml", "v1.2.xml"]));
        std::fs::write(&input, xml(r, &m.comps)).unwrap();
    }
    let mut engine = Loader::new(&m.comps, reduce).unwrap();
    let mut want = vec![];
    for q in &queries {
        let q = parsed(q);
        let answer = ask(&mut engine, &q);
        for k in engine.saved.drain(..) {
            engine.comps.insert(k.name.clone(), k);
        }
        want.push((q.query.unwrap().to_string(), answer));
    }
    let text = queries.join(*r.pick(&["; ", ";", " ;\n"]));
    let exe = std::env::current_exe().unwrap().with_file_name("Reveaal");
    let mut cmd = std::process::Command::new(exe);
    cmd.env_remove("RUST_BACKTRACE").env("NO_COLOR", "1").arg("query").arg(&text).arg(*r.pick(&["-i", "--input-folder"])).arg(&input);
    if reduce {
        cmd.arg(*r.pick(&["-e", "--enable-clock-reduction"]));
    }
    let out = cmd.output().expect("the program can be started");
    let said = String::from_utf8_lossy(&out.stdout).to_string();
    let describe = |e: String| {
        format!(
            "Reveaal query {:?} -i {}{}: {}\nstdout:\n{}\nstderr:\n{}\ndeclarations {:?}\n{}",
            text,
            if use_xml { "FILE.xml" } else { "FOLDER" },
            if reduce { " -e" } else { "" },
            e,
            said,
            String::from_utf8_lossy(&out.stderr).lines().take(10).collect::<Vec<_>>().join("\n"),
            decl,
            m.comps.iter().map(|c| c.brief()).collect::<Vec<_>>().join("\n")
        )
    };
    c.eval();
    c.count(if use_xml { "XML file" } else { "project folder" });
    let refused = want.iter().any(|(_, w)| w == "refused" || w == "model failure" || w.starts_with("panic"));
    if refused {
        c.count("refused");
        if out.status.success() {
            return c.violation("not refused", describe(format!("a query that has no answer was accepted: {:?}", want)));
        }
        return;
    }
    if !out.status.success() {
        return c.violation("failed", describe(format!("the program failed ({}), though every query has an answer: {:?}", out.status, want)));
    }
    let expected: Vec<String> = want
        .iter()
        .map(|(q, w)| {
            format!("{} -- {}", q, if w == "success" || w.starts_with("path") { "Property is satisfied" } else if w == "unreachable" || w.ends_with("failure") { "Property is NOT satisfied" } else { "Component succesfully created" })
        })
        .collect();
    let got: Vec<&str> = said.lines().filter(|l| l.contains(" -- ")).collect();
    if got != expected {
        return c.violation("printed", describe(format!("expected {:#?}", expected)));
    }
    c.count_n("answers printed", got.len() as u64);
    if want.iter().any(|w| w.1 != want[0].1) || want.len() == 1 {
        c.nontrivial((&queries, &m.comps));
        c.sample(|| describe(String::new()));
    }
}
pub fn projects_and_command_line(run: &'static Run) {
    common::quiet_everywhere(true);
    run.cases("forms", (2500, 20), (200_000, 600), projects);
    run.cases("saving", (800, 10), (100_000, 300), saving);
    run.cases("command line", (800, 10), (50_000, 300), command_line);
    common::quiet_everywhere(false);
}

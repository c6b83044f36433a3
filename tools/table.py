TID = "src/TransitionSystems/transition_id.rs"
prop("C01", "Decomposing a transition assigns every edge to its own component",
     "Decomposing the identifier of a combined transition yields exactly one group per component of the system, in the left-to-right order of the components, and each group holds exactly the edges that component contributed, in their order. This includes quotient transitions in which a side that is a single component contributes no edge (its group is empty) or several edges, and components that take no edge are marked as such.",
     ["inputs", "programs"], "every nesting of conjunction, composition and quotient, every number of transitions on either side of a quotient, every edge name",
     "Seven examples are tested; the index arithmetic over nested operators goes wrong only for particular nestings and particular empty or repeated sides.",
     [TID], [("get_leaves", TID)],
     "online oracle over randomly built structures: the groups are known by construction",
     "Held on the ids generated; structures up to depth 5.", [TID + " TransitionID::get_leaves"])
prop("C02", "A path splits into one faithful path per component",
     "Splitting a path of combined transitions yields, for every component, the list over all steps, in order, of exactly the edges the component took in that step (an empty list where it took none), and the empty path yields nothing. A path whose steps do not all have as many components as its first step is rejected with an error, whichever step differs.",
     ["inputs", "histories"], "every path length including zero, every structure shared by its steps, every position of a step of another size",
     "Five paths are tested; dropped steps, misplaced empty steps or a missed mismatch show only on other lengths and positions.",
     [TID], [("split_into_component_lists", TID)],
     "online oracle over random paths: the per-component paths are known by construction",
     "Held on the paths generated; up to 7 steps.", [TID + " TransitionID::split_into_component_lists"])
prop("C03", "The text of a combined transition shows how its edges are combined",
     "The printed form of a combined transition lists its edges in order, joined by && for conjunction, || for composition and \\\\ between the sides of a quotient, whose own transitions stand side by side. An operand is put in parentheses unless it is a plain edge, or an operand of a conjunction or composition that is itself of that same kind; a missing edge prints as NoID.",
     ["inputs"], "every identifier, every edge name", "No test looks at the printed form of an identifier.",
     [TID], [("Display", TID)],
     "online oracle: an independent renderer compared on random ids",
     "Held on the ids generated.", [TID + " Display"])

TS = "src/TransitionSystems/"
prop("C04", "Composition and conjunction move exactly as their components allow",
     "From every combination of locations a conjunction or composition can take exactly the moves its components allow together: in a conjunction both sides move on a shared action; in a composition both sides move on a shared action, and a side that does not know the action stays. Each move has the guard, clock updates, target, target invariant and edge identity of the component edges that make it up, and inputs and outputs of the whole follow from those of the sides (an action that is output on one side of a composition is output of the whole).",
     ["inputs", "programs"], "every nesting of the operators, every component, every pair of locations, every clock valuation",
     "Tests compare a few fixed systems; a wrong clock index, dropped conjunct or lost update shows for some valuations of some locations only.",
     [TS + "composition.rs", TS + "conjunction.rs", TS + "compiled_component.rs", TS + "common.rs", TS + "location_tree.rs", "src/System/input_enabler.rs", "src/ModelObjects/transition.rs"],
     [("next_transitions", TS + "composition.rs"), ("next_transitions", TS + "conjunction.rs"), ("get_initial_location", TS + "common.rs"), ("make_input_enabled", "src/System/input_enabler.rs")],
     "online oracle: moves and invariants the code reports, evaluated at sampled clock points, against the operators' definitions",
     "Held on the systems generated: up to four components, each action an input, an output or unknown to each, guards and invariants that may be empty, bounded from below or differences; up to 24 locations and 24 points each.")
prop("C05", "A quotient moves as its definition says",
     "For a quotient of two systems every move reported from a location follows the definition: joint moves where both sides can, moves of one side alone, the universal location wherever the divisor breaks its part, and the inconsistent location, entered with a fresh clock at zero, wherever the dividend cannot follow the divisor or has its time bound broken. The universal location allows everything, the inconsistent one only inputs and no time, and the quotient's inputs and outputs are those of the definition plus one new input.",
     ["inputs", "programs"], "every dividend and divisor, also composed ones, every pair of locations, every clock valuation",
     "Each of the ten rules has its own corner (missing actions, invariants on either side, empty guards) and the tests visit a few.",
     [TS + "quotient.rs", TS + "location_tree.rs"], [("next_transitions", TS + "quotient.rs"), ("new_ts", TS + "quotient.rs")],
     "online oracle: moves the code reports, evaluated at sampled clock points, against the rules of the quotient",
     "Held on the quotients generated, also of composed systems with actions in any role; moves with equal effect are compared once, edge identities are not compared.")
prop("C06", "Reachability answers are right and come with a real path",
     "A reachability query answers yes exactly when some run from the start state (the initial state, or the state the query gives) reaches a state that satisfies the target's locations and clock constraint. A positive answer carries a path whose steps can actually be taken one after the other, from the start to the target, each step naming edges that lead from its source location to its destination.",
     ["inputs", "histories"], "every system, start state and target state; also partial targets and starts where clocks differ",
     "The tests ask questions about a dozen fixed models; lost states, wrong bounds or a wrong pruning of visited states show for particular constants and cycles.",
     ["src/System/reachability.rs", "src/System/extract_state.rs", "src/ModelObjects/state.rs"],
     [("find_path", "src/System/reachability.rs"), ("get_state", "src/System/extract_state.rs")],
     "online oracle: exhaustive search over clock regions decides the verdict, the reported path is replayed step by step",
     "Held on the queries generated; models without clock differences, constants up to eleven, components that occur several times under names of their own.")
prop("C07", "Refinement answers agree with the definition",
     "A refinement query answers yes exactly when every delay and output of the left system is allowed by the right one and every input of the right one is accepted by the left one, in all pairs of states reachable together, whether or not clock reduction is on. Actions that fit neither way, nondeterministic and inconsistent systems are refused as such, and never for another reason.",
     ["inputs", "programs"], "every pair of systems, combined by any operators, with extra inputs or outputs, clock reduction on and off",
     "Verdicts depend on extrapolation, subsumption of visited pairs, clock numbering across two systems and clock reduction; a defect in any shows only for particular pairs.",
     ["src/System/refine.rs", "src/ModelObjects/statepair.rs", "src/DataTypes/statepair_list.rs", "src/System/extract_system_rep.rs", "src/System/local_consistency.rs"],
     [("check_refinement", "src/System/refine.rs"), ("clock_reduce", "src/System/extract_system_rep.rs"), ("PassedStateListExt", "src/DataTypes/statepair_list.rs")],
     "online oracle: exhaustive search over pairs of locations and clock regions decides the verdict",
     "Held on the pairs generated; deterministic systems, models without clock differences, constants up to three; pairs beyond 40,000 region states are not decided.")
prop("C08", "Consistency answers agree with the definition",
     "A consistency query answers yes exactly when the system can be run from its start so that every input is accepted and, in every state, either time can pass without end or an output can be taken that leads to a state with the same property; of a composition or a quotient it asks this of each side. An inconsistent conjunction is refused even when each of its operands is consistent, and a consistent one is accepted even when an operand is not.",
     ["inputs", "programs"], "every system built with conjunction, composition and quotient, with and without clock reduction",
     "The answer depends on all cycles and time bounds of the state space; the tests ask about a few fixed models.",
     ["src/System/local_consistency.rs", TS + "common.rs", TS + "compiled_component.rs"],
     [("consistency_least_helper", "src/System/local_consistency.rs"), ("check_local_consistency", TS + "common.rs")],
     "online oracle: a greatest fixed point over locations and clock regions decides consistency",
     "Held on the systems generated; exact where every edge resets all clocks, one-sided elsewhere.")
prop("C09", "Determinism answers agree with the definition",
     "A determinism query answers yes only if, in every reachable state of every component named in the query, no two different edges for the same action can both be taken at the same moment; when it answers no, the component location and action it names really are ambiguous for some clock values the location allows.",
     ["inputs", "programs"], "every component and every combination of components",
     "Overlaps of guards, target invariants and cycles through the location graph decide the answer; the tests cover a few hand-made models.",
     ["src/System/local_consistency.rs", TS + "compiled_component.rs", TS + "common.rs"],
     [("check_determinism", "src/System/local_consistency.rs"), ("is_deterministic", "src/System/local_consistency.rs")],
     "online oracle: region search over the model's own edges decides whether two edges can be taken together",
     "Held on the systems generated; up to three components of up to four locations.")
prop("C10", "Refinement obeys the laws of the operators",
     "Refinement is reflexive and transitive; a conjunction refines each of its operands and is refined by everything that refines all of them; composition preserves refinement; a quotient T\\\\S is refined by X exactly when S composed with X refines T; and the order of operands in compositions and conjunctions does not change an answer.",
     ["inputs", "programs"], "all systems for which both sides of a law are accepted as refinement queries",
     "The laws relate answers to several queries about the same systems; each test checks one answer.",
     ["src/System/refine.rs", TS + "conjunction.rs", TS + "composition.rs", TS + "quotient.rs", "src/System/executable_query.rs"],
     [("check_refinement", "src/System/refine.rs"), ("preconditions", "src/System/refine.rs")],
     "metamorphic monitor: the answers to several queries about one random project are compared with the law",
     "Held on the systems generated; laws whose premises were refused are not counted.")
prop("C11", "Guards, invariants, updates and declarations mean what they say",
     "A guard, invariant or update means what ordinary arithmetic and logic say of its text: * / and % before + and -, && before ||, parentheses before both, comparisons chosen freely on either side, with any spacing, and declarations with comments or several on a line. What is written back from it (saved, or shown in an answer) reads back with the same meaning, and a text that has no meaning is refused with an error.",
     ["inputs", "programs"], "every expression over clocks and integers, every way to write it, every clock valuation",
     "Expressions have no bound on their shape; a wrong precedence or a dropped term shows only for particular combinations and values.",
     ["src/DataReader/parse_edge.rs", "src/DataReader/serialization.rs", "src/EdgeEval/constraint_applyer.rs", "src/EdgeEval/updater.rs", "src/ModelObjects/Expressions/bool_expression.rs", "src/ModelObjects/Expressions/arith_expression.rs"],
     [("parse_guard", "src/DataReader/parse_edge.rs"), ("apply_constraints_to_state", "src/EdgeEval/constraint_applyer.rs"), ("encode_expr", "src/DataReader/serialization.rs")],
     "online oracle: random expressions evaluated at clock points against what the code reads, applies and writes; the same model written plainly and ornately must give the same answers; disturbed guards, updates and declarations are refused or read exactly where a reader of its own, with exact integers, refuses or reads them",
     "Held on the texts generated; constants up to a few hundred, four clocks.")
prop("C12", "Queries mean what they say",
     "A query is read as its text says: && before || before the quotient in systems, && before || in states, ! before both, operators of a kind from left to right, parentheses first, in any spacing. A query shown as text reads back as the same query, and a text that is no query, or a state that names a component, location or clock the system does not have, is refused with an error and not answered.",
     ["inputs"], "every query text, well-formed or not, and every system and state it names",
     "Texts are unbounded; precedence, spacing, odd names and malformed input each need their own combination to show.",
     ["src/DataReader/parse_queries.rs", "src/DataReader/grammars/query_grammar.pest", "src/ModelObjects/Expressions/query_expression.rs", "src/ModelObjects/Expressions/state_expression.rs", "src/ModelObjects/queries.rs", "src/System/extract_state.rs"],
     [("parse_to_expression_tree", "src/DataReader/parse_queries.rs"), ("get_state", "src/System/extract_state.rs"), ("Display", "src/ModelObjects/Expressions/query_expression.rs")],
     "online oracle: a second reader written from the language's definition, compared on random well-formed and garbled texts",
     "Held on the texts generated; ASCII names, numbers up to ten digits, nesting up to four.")
prop("C13", "Every component accepts every input everywhere",
     "A component ignores, staying where it is with its clocks unchanged, an input it has no edge for, and an input whose edges cannot be taken at that clock valuation because of a guard or because the clocks as updated would violate the invariant of the target; an input it can take is never ignored as well. Completing a component this way changes nothing else about it, and does not depend on the order of its edges.",
     ["inputs", "programs"], "every component, every input of the system it is used in, every location and clock valuation",
     "The completed part is the complement of a union of zones carried back over updates: a bound that is off by its strictness shows at single clock valuations.",
     ["src/System/input_enabler.rs", "src/ModelObjects/transition.rs", "src/ModelObjects/Expressions/bool_expression.rs", "src/EdgeEval/updater.rs"],
     [("make_input_enabled", "src/System/input_enabler.rs"), ("from_disjunction", "src/ModelObjects/Expressions/bool_expression.rs"), ("apply_as_guard", "src/EdgeEval/updater.rs")],
     "online oracle: the edges added to random components, evaluated at every clock point of a grid, against the definition",
     "Held on the components generated: up to four clocks, constants up to four, points up to two decimals finer than the constants.")
prop("C14", "A component made from a system behaves as the system",
     "The component that get-component makes from a system has the system's inputs and outputs and can do exactly what the system can do, from every state it reaches: the same actions at the same clock valuations with the same resets, under the same invariants. So has the component that prune makes from a system, except that what can only lead to inconsistency is left out; and the component written out and read again, under whatever name it is saved, behaves as the one kept in memory, whatever names the system's clocks, locations and components have.",
     ["inputs", "programs"], "every system, with clock reduction on and off, and every run of it",
     "Names have to be kept apart and clocks renumbered for every combination of components; what is lost shows only when a run reaches it.",
     ["src/System/save_component.rs", "src/System/pruning.rs", "src/System/executable_query.rs", "src/DataReader/json_writer.rs", "src/DataReader/serialization.rs", "src/ModelObjects/component.rs"],
     [("combine_components", "src/System/save_component.rs"), ("prune_system", "src/System/pruning.rs"), ("component_to_json", "src/DataReader/json_writer.rs")],
     "online oracle: system and component walked in lockstep over all clock regions, the component both in memory and read back from its JSON",
     "Held on the systems generated: up to three components, up to some thousand states each. That prune does leave out inconsistent moves is a known finding: it never does.")
prop("C15", "A simulation offers exactly the moves there are, and takes them",
     "Starting a simulation answers with the initial state, and with nothing to choose when the system has none; taking a step answers with the state the chosen move leads to. The moves offered from a state are exactly those some valuation of it allows, at once or after a delay, each with its action, the edges that make it up, the valuations it can be taken from and the states it leads to; an offered move can always be chosen, also where others share its action and edges.",
     ["inputs", "histories"], "every system, every sequence of offered moves, every clock valuation of the states on the way",
     "States go out as messages and come back in the next request: what the conversion loses or reorders shows only for particular zones and component positions.",
     ["src/Simulation/decision.rs", "src/ProtobufServer/proto_conversions.rs", "src/ProtobufServer/ecdar_requests/simulation_requests.rs"],
     [("resolve", "src/Simulation/decision.rs"), ("handle_start_simulation", "src/ProtobufServer/ecdar_requests/simulation_requests.rs")],
     "online oracle: each start and step answer of the running server, checked against an independent model of the system with its own zones",
     "Held on the systems generated: up to three components, walks of up to some ten steps, zones compared valuation by valuation.")
prop("C16", "The server answers every request as if it were the only one",
     "The answer to a request depends on the request alone: not on what other users, or the same user, asked before or at the same moment, on what is cached or has been dropped from the cache, or on how many threads and cache places there are; it carries the number of its request, and query answers are those of the engine itself. Every request, however damaged, gets an answer or a refusal and leaves the server able to serve the next, and no user number is given out twice.",
     ["schedules", "histories", "inputs"], "every interleaving of clients, every sequence of requests, every message the protocol can carry",
     "Models are shared between requests through a cache keyed by user and hash: mixing them up needs particular histories, and only a hostile client sends what no editor would.",
     ["src/ProtobufServer/ecdar_backend.rs", "src/ProtobufServer/ecdar_requests/send_query.rs", "src/ProtobufServer/ecdar_requests/request_util.rs", "src/ProtobufServer/proto_conversions.rs", "src/DataReader/component_loader.rs"],
     [("handle_send_query", "src/ProtobufServer/ecdar_requests/send_query.rs"), ("get_or_insert_model", "src/ProtobufServer/ecdar_requests/request_util.rs")],
     "stress with an offline checker: concurrent clients, some hostile, on one server; each recorded answer compared with that of a server asked nothing else",
     "Held on the sessions generated: up to four clients and some forty requests each, thread interleavings as the operating system and injected delays give them; transport (HTTP/2) is not part of it.")
prop("C17", "A model means the same in every form it is given in",
     "A query about a model has the same answer whether the model is kept in a project folder, in an XML file, or sent to the server in either form, and whether it is asked in the program or on the command line; declarations of a system are read whatever their spacing, order of actions and comments, and a component accepts the inputs they give it. The command line answers each of its queries, in order, with what the engine says, can ask about components earlier queries have made, and fails when a query has no answer.",
     ["inputs", "configurations"], "every model that has the form, every list of queries, clock reduction on and off, every way to write the declarations",
     "Each form has a reader of its own, and tests read a few fixed files; readers agree on those and differ on others.",
     ["src/main.rs", "src/DataReader/component_loader.rs", "src/DataReader/json_reader.rs", "src/DataReader/xml_parser.rs", "src/ModelObjects/system_declarations.rs", "src/cli.rs"],
     [("JsonProjectLoader", "src/DataReader/component_loader.rs"), ("parse_xml", "src/DataReader/xml_parser.rs"), ("start_using_cli", "src/main.rs")],
     "differential oracle: the answers of every loader, of the server and of the program's own output, compared with the engine on the model in memory",
     "Held on the models generated: up to three components; XML without universal and inconsistent locations, which it cannot express.")

prop("C18", "A negative answer names what is wrong",
     "When a query is refused or answered in the negative, what the answer names is really at fault: the system exists and cannot be formed, is ambiguous, inconsistent or empty; the state is one the system gets to, with clock values at which the named action is ambiguous, cannot be matched or leads to a cut delay; the action sets are the systems' own and clash as the answer says, and inputs are called inputs. The text and the message sent to a client say the same as the answer in the program: the same systems, actions, locations, clock values and kind of failure.",
     ["inputs"], "every refinement, consistency and determinism query with a negative answer over every system, and every system that cannot be formed",
     "Tests look at the kind of the failure in a few samples; whether the state and the action named really are at fault is a statement about the model's semantics that an oracle has to decide.",
     ["src/System/query_failures.rs", "src/System/refine.rs", "src/System/local_consistency.rs", "src/System/specifics.rs", "src/TransitionSystems/transition_system.rs", "src/ProtobufServer/proto_conversions.rs"],
     [("RefinementFailure", "src/System/query_failures.rs"), ("from_state_pair", "src/System/specifics.rs"), ("state_action_to_proto", "src/ProtobufServer/proto_conversions.rs")],
     "semantic monitor: the state, action and system that an answer names are looked up in an independent region semantics of the model, and the wire message and the text are compared with the engine's value",
     "Held on the models generated: components of up to four locations and two clocks, up to four components; consistency failures where all edges reset all clocks.")

prop("C19", "An answer does not depend on how the model is written",
     "A refinement, reachability, consistency or determinism query has the same answer when the components, locations, edges, clocks and actions have other names or come in another order, when guards, invariants and updates are written differently but mean the same, when unused clocks, locations nothing gets to, second copies of locations or edges in two parts are added, when all constants are multiplied by one number, and when it is asked again; refinement answers are also the same with and without clock reduction. A component made from a system with clock reduction behaves as the system.",
     ["inputs", "configurations"], "every model and query, every way to rewrite the model that keeps what it means, clock reduction on and off",
     "Tests ask about one way of writing each model; how names, orders and redundant text get into an answer shows only when the same model is written twice.",
     ["src/System/extract_system_rep.rs", "src/ModelObjects/component.rs", "src/TransitionSystems/transition_system.rs", "src/TransitionSystems/compiled_component.rs", "src/System/refine.rs", "src/System/reachability.rs", "src/System/local_consistency.rs"],
     [("clock_reduce", "src/System/extract_system_rep.rs"), ("find_equivalent_clock_groups", "src/TransitionSystems/transition_system.rs"), ("remove_clock", "src/ModelObjects/component.rs")],
     "metamorphic monitor: the answers to a query about a model and about the same model rewritten, at sizes beyond what an oracle explores, with disjunctions and with components that have no initial location, and on the repository's sample projects; refinement both ways between a system with redundant clocks and the component made from it with clock reduction",
     "Held on the models generated, up to seven locations and three clocks, and on the sample projects. Not compared: consistency where edges keep clock values, and determinism with and without clock reduction.")

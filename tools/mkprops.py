#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable in one place)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("S01","A satisfiable answer always comes with a genuine model",
 "Whenever solving reports satisfiable, the model it offers assigns no variable twice, makes every clause added so far true and makes every currently assumed literal true. This holds for every sequence of clause additions, variable creations, assumptions and solve calls, including duplicated, tautological, unit, binary and long clauses.",
 ["inputs","histories"],"every formula and every order of API calls that leads to a solve answering satisfiable",
 "The tests compare models on randomly generated satisfiable formulas of a few shapes with one solve; they never mix unit, binary and long additions with re-solving, so clause-loading, unit removal, watch-list and garbage-collection interplay is only sampled.",
 ["varisat/src/load.rs","varisat/src/cdcl.rs","varisat/src/model.rs","varisat/src/prop/long.rs","varisat/src/prop/binary.rs","varisat/src/unit_simplify.rs","varisat/src/clause/gc.rs"],
 [("two-watched-literal propagation","varisat/src/prop/long.rs"),("clause loading on top of existing units","varisat/src/load.rs"),("model reconstruction incl. removed units","varisat/src/model.rs")],
 [("clauses","conjunction of all clauses added","ClauseDb/BinaryClauses/units"),("assignment","current assignment turned into the model","varisat/src/prop/assignment.rs")],
 ["Solver::solve return value","Solver::model"])

p("S02","An unsatisfiable answer is never wrong",
 "Whenever solving reports unsatisfiable, no assignment satisfies all clauses added so far together with the currently assumed literals. This is independent of how many conflicts, restarts, clause deletions, simplifications and earlier solve calls led there.",
 ["inputs","histories"],"every formula and API history whose last solve answers unsatisfiable",
 "The tests assert UNSAT only for formulas known to be unsatisfiable by construction; a learned clause that is too strong is only noticed if it turns one of the few satisfiable families unsatisfiable.",
 ["varisat/src/analyze_conflict.rs","varisat/src/cdcl.rs","varisat/src/unit_simplify.rs","varisat/src/load.rs","varisat/src/prop.rs"],
 [("first-UIP learning with recursive minimisation","varisat/src/analyze_conflict.rs"),("top-level simplification","varisat/src/unit_simplify.rs")],
 None,["Solver::solve return value"])

p("S03","Every solve call ends with a definite answer",
 "Without injected faults, every permitted call sequence runs to completion: solve returns satisfiable or unsatisfiable, never an error, a crash or an endless run, and no permitted call panics. This includes empty formulas, the empty clause, contradicting or repeated assumptions and repeated solving.",
 ["inputs","histories","configurations"],"every permitted API history, with any mix of clause shapes, assumptions, variable-mode changes and configurations",
 "The tests drive a handful of call orders; index and state mix-ups that need, say, a variable created between solve and reading the model are never executed.",
 ["varisat/src/solver.rs","varisat/src/schedule.rs","varisat/src/variables.rs","varisat/src/cdcl.rs"],
 [("schedule loop until a final state","varisat/src/schedule.rs"),("variable namespaces and resizing","varisat/src/variables.rs, varisat/src/context.rs")],
 None,["return values and panics of every Solver method"])

p("S04","Failed cores are genuine",
 "When solving is unsatisfiable under assumptions, the reported failed core contains only literals that are currently assumed, and those literals alone already contradict the clauses added so far. An empty core is reported exactly when the clauses by themselves have been found contradictory.",
 ["inputs","histories"],"every formula, assumption list (with repetitions, implied and contradicting literals) and history of assumption changes",
 "The incremental tests check cores on sgen formulas with selector variables; they cannot cover arbitrary implication structure between assumptions, repeated literals or cores after re-solving.",
 ["varisat/src/assumptions.rs","varisat/src/solver.rs"],
 [("implication-graph walk from the conflicting assumption","varisat/src/assumptions.rs:analyze_assumption_conflict")],
 [("assumptions","literals currently assumed","varisat/src/assumptions.rs")],["Solver::failed_core"])

p("S05","Result accessors follow the call history",
 "A model is offered exactly while the last solve answered satisfiable and neither a clause was added nor the assumptions replaced since; a failed core is offered exactly while the last solve answered unsatisfiable and the assumptions were not replaced since. Once the clauses alone are found contradictory, every later solve answers unsatisfiable with an empty core, whatever is added or assumed. Reading results never changes later answers.",
 ["histories"],"every interleaving of add, assume, variable-mode, configuration, solve and accessor calls",
 "Each test checks the accessors once, right after one solve; stale or lost results need a second state-changing call in between.",
 ["varisat/src/solver.rs","varisat/src/state.rs","varisat/src/load.rs","varisat/src/assumptions.rs"],
 [("satisfiability-state transitions","varisat/src/load.rs, varisat/src/assumptions.rs, varisat/src/model.rs")],
 [("sat state","unknown / sat / unsat / unsat under assumptions","varisat/src/state.rs")],["Solver::model","Solver::failed_core","Solver::solve"])

p("S06","Incremental answers equal answers from scratch",
 "Each solve answers exactly as a fresh solver given all clauses added so far and only the most recently assumed literals: earlier assumption sets, earlier answers and facts learned under earlier assumptions leave no trace. Assuming an empty list restores the answer for the clauses alone.",
 ["histories"],"every sequence of assumption replacements and clause additions interleaved with solve calls",
 "The existing incremental test follows one scripted pattern on one formula family; leaks between assumption sets depend on which literals are implied, removed as units or re-added.",
 ["varisat/src/assumptions.rs","varisat/src/load.rs","varisat/src/unit_simplify.rs","varisat/src/prop.rs"],
 [("assumption levels and full restart","varisat/src/assumptions.rs, varisat/src/prop.rs"),("unit removal and resurrection","varisat/src/unit_simplify.rs")],
 None,["Solver::solve, model, failed_core after assume"])

p("S07","Configuration never changes answers and invalid values are refused whole",
 "Any in-range configuration, set before, between or after solve calls, leaves every answer logically unchanged: satisfiable stays satisfiable with a genuine model and unsatisfiable stays unsatisfiable. A configuration update with any out-of-range value is refused with an error and changes none of the settings; unset values keep their previous setting.",
 ["configurations","histories"],"every in-range and out-of-range value of each option at every point of every history",
 "Tests use one alternative configuration; restart, reduction and garbage-collection timing at other intervals is never exercised.",
 ["varisat/src/config.rs","varisat-internal-macros/src/lib.rs","varisat/src/schedule.rs","varisat/src/clause/reduce.rs","varisat/src/clause/gc.rs","varisat/src/context.rs"],
 [("range checks before applying","varisat-internal-macros/src/lib.rs"),("restart / reduce / GC schedule","varisat/src/schedule.rs")],
 None,["Solver::config result","SolverConfigUpdate::{apply,merge}","solve answers"])

p("S08","Models cover exactly the user's variables",
 "A model mentions every variable that was visible to the user when solve was called and is still visible, each exactly once, including variables that occur in no clause, were skipped over or were fixed by simplification. It never mentions a hidden variable or one the user never introduced.",
 ["inputs","histories"],"every way of introducing variables (creation, clauses, assumptions, gaps in numbering) before and between solves",
 "Tests only check that the listed literals satisfy the clauses, never that none is missing or foreign.",
 ["varisat/src/model.rs","varisat/src/solver.rs","varisat/src/variables.rs","varisat/src/decision/vsids.rs"],
 [("user-variable iteration","varisat/src/variables.rs:user_var_iter"),("default values for variables without clauses","varisat/src/model.rs")],
 None,["Solver::model"])

p("S09","Answers on large conflict-heavy runs carry a checkable derivation",
 "On formulas needing many conflicts, every clause the solver ever adds to its working set follows from the clauses present by unit propagation, and clauses are dropped only when they are redundant, satisfied or subsumed. Hence each unsatisfiable answer is the end of a derivation from the user's clauses, and no original constraint is lost on the way to a satisfiable one.",
 ["inputs","histories","configurations"],"every long run with restarts, clause reduction, simplification and garbage collection, single-shot or incremental",
 "Self-checking tests only see that the project's own checker stays quiet on two families; an independent reference never replays the steps.",
 ["varisat/src/cdcl.rs","varisat/src/analyze_conflict.rs","varisat/src/unit_simplify.rs","varisat/src/binary.rs","varisat/src/clause/reduce.rs","varisat/src/clause/gc.rs","varisat/src/proof.rs"],
 [("clause learning, reduction and simplification","varisat/src/cdcl.rs, varisat/src/clause/reduce.rs, varisat/src/unit_simplify.rs")],
 [("clause multiset","irredundant and redundant clauses with multiplicity","proof stream")],["ProofProcessor step stream"])

p("V01","Hiding a variable is existential quantification",
 "After a variable is hidden, answers and models for the remaining visible variables are exactly those of the formula with the hidden variable existentially quantified. Constraints that mention it keep acting on the other variables, whether it was hidden before or after solving, was free, forced or constrained.",
 ["histories"],"every history that hides variables at any point relative to additions, solves and later reuse of the index",
 "The two hiding tests hide all variables of whole subformulas before the first solve; individually hidden, forced or reused variables are untested.",
 ["varisat/src/variables.rs","varisat/src/variables/data.rs","varisat/src/unit_simplify.rs"],
 [("global/user variable unmapping","varisat/src/variables.rs:set_sampling_mode"),("deletion of isolated hidden variables","varisat/src/variables.rs:delete_global_if_unused")],
 [("variable maps","user to internal variable mapping","varisat/src/variables.rs")],["Solver::solve, model after hide_var"])

p("V02","New and reused variables are fresh",
 "A newly created variable never coincides with a variable currently visible to the user and is unconstrained until clauses mention it. Using the index of a hidden variable again, by creation, clause or assumption, yields a new unconstrained variable that shares nothing with the hidden one.",
 ["histories"],"every interleaving of creation, hiding, reuse, unit learning and solving",
 "No test re-uses an index of a hidden variable that was constrained or forced.",
 ["varisat/src/variables.rs","varisat/src/variables/var_map.rs"],
 [("free lists for user, global and solver names","varisat/src/variables.rs")],None,["Solver::new_var, solve, model"])

p("V03","Variable-mode rules are enforced exactly",
 "Adding a clause with, or assuming, a witness variable is refused; turning it back into a sampling variable lifts this. Changing the mode of a variable is refused exactly while that variable is among the current assumptions, and is allowed again once the assumptions no longer contain it, whatever was solved in between.",
 ["histories"],"every interleaving of mode changes, assumptions (including implied and repeated ones), additions and solves",
 "Tests cover two direct refusals, never the release of the restriction after solving or the witness-sample-witness cycle.",
 ["varisat/src/variables.rs","varisat/src/assumptions.rs"],
 [("sampling-mode check","varisat/src/variables.rs:global_from_user"),("assumed marker","varisat/src/assumptions.rs:set_assumptions")],None,["panics of add_clause, assume, hide_var, witness_var, sample_var"])

p("V04","Observing internal variables is conservative",
 "Observing internal variables returns distinct, previously unused variables, at most one per variable hidden so far, which become visible witness variables and appear in later models. Doing so never changes the answers or models for the other variables, and a second observation right after returns nothing.",
 ["histories"],"every history with hide and observe at any point",
 "The single observing test checks only that the final answer is satisfiable.",
 ["varisat/src/variables.rs"],[("re-mapping hidden variables","varisat/src/variables.rs:observe_internal_vars")],None,["Solver::observe_internal_vars, model, solve"])

p("P01","Native proofs are accepted and replay the session",
 "For every completed session the written native proof is accepted by a fresh checker given the initially loaded formula, and the checker's transcript lists the session's later clause additions, assumption changes, mode changes and answers in order with the same models and cores up to variable order. Accepted unsatisfiable answers appear in the transcript only if the solver gave them.",
 ["histories","configurations"],"every session, single-shot or incremental, with any number of solves and any configuration",
 "The proof tests check acceptance for single-shot unsatisfiable sgen formulas; incremental sessions, hash-width changes and transcripts are not replayed.",
 ["varisat/src/proof.rs","varisat/src/proof/map_step.rs","varisat-internal-proof/src/binary_format.rs","varisat-checker/src/state.rs","varisat-checker/src/transcript.rs"],
 [("proof step emission and variable mapping","varisat/src/proof.rs"),("transcript conversion","varisat-checker/src/transcript.rs")],None,["proof bytes","Checker::check_proof","ProofTranscriptProcessor"])

p("P02","DRAT output is a valid refutation",
 "For every unsatisfiable single-shot run the written DRAT file, textual or binary, is a well-formed sequence of additions and deletions in the user's variable numbering in which each added clause follows by unit propagation from what is present, each deleted clause is present, and the empty clause is finally implied.",
 ["inputs","configurations"],"every unsatisfiable formula and configuration, both encodings",
 "DRAT tests run an external checker that ignores unknown deletions on one small family; wrong multiplicities or literals in larger runs stay unnoticed.",
 ["varisat/src/proof/drat.rs","varisat/src/proof.rs"],[("step to DRAT conversion","varisat/src/proof/drat.rs")],None,["bytes written with ProofFormat::Drat and BinaryDrat"])

p("P03","LRAT output is a valid hinted refutation",
 "For every unsatisfiable single-shot run the LRAT and compressed LRAT output numbers the input clauses in input order, uses strictly increasing new identifiers, refers only to clauses that are present, lists hints that propagate to a conflict in order, deletes only present clauses and ends by deriving the empty clause. Both encodings describe the same steps whether produced live or from a stored proof.",
 ["inputs","configurations"],"every unsatisfiable formula including duplicated, tautological and contradicting-unit inputs; live and offline; text and binary",
 "LRAT tests cover one random family and two fixed formulas through an external checker.",
 ["varisat-lrat/src/lib.rs","varisat-checker/src/rup.rs","varisat-checker/src/clauses.rs"],
 [("LRAT step writer with delete batching","varisat-lrat/src/lib.rs"),("hint order from propagation trace","varisat-checker/src/rup.rs")],None,["bytes written by WriteLrat"])

p("P04","On-the-fly checking stays quiet and tells the truth",
 "With self-checking enabled or processors attached, no permitted session ever reports a check failure and answers are as without. Every attached processor sees the same legal step sequence, in which models and failed assumption sets agree with what the solver returns to the user.",
 ["histories","configurations"],"every session with self-checking, one or several processors, with or without a proof file in parallel",
 "Only a few scripted sessions run with self-checking; the step stream seen by processors is not compared to anything.",
 ["varisat/src/proof.rs","varisat-checker/src/internal.rs","varisat-checker/src/processing.rs","varisat-checker/src/state.rs"],
 [("live check of each step","varisat/src/proof.rs:add_step"),("delayed unit conflicts","varisat-checker/src/state.rs:process_unit_conflicts")],None,["ProofProcessor::process_step","Solver::solve"])

p("P05","Proof failures are reported and never followed by answers",
 "If writing the proof or an attached processor fails at any point, the current or next solve or the closing of the proof reports that failure, and after it was reported every further solve is refused. No solve that returns an answer has silently lost part of the proof written so far.",
 ["fault_sequences","crash_points"],"a write, flush or processor failure at every possible byte or step, permanent or one-off, in every session",
 "Three tests inject one failure each at a fixed place.",
 ["varisat/src/proof.rs","varisat/src/solver.rs"],
 [("deferred error","varisat/src/solver.rs:check_for_solver_error"),("flush before solve returns","varisat/src/proof.rs:solve_finished")],
 [("pending error","failure waiting to be reported","varisat/src/state.rs")],["Solver::solve, close_proof","bytes that reached the sink"])

p("P06","Proof output is complete, exact and set up before clauses",
 "When closing the proof succeeds, the sink has received the whole proof, byte for byte the same however the sink splits, delays or interrupts writes, and nothing is written afterwards; dropping the solver closes it too. Asking for proofs, checking or processors after clauses were added is refused, and formats without incremental support refuse incremental use instead of writing a wrong proof.",
 ["fault_sequences","histories"],"every splitting of writes, every point of closing or dropping, every order of setup calls",
 "Tests write to files or vectors that accept everything at once and never check the setup refusals.",
 ["varisat/src/proof.rs","varisat/src/solver.rs","varisat/src/proof/drat.rs"],
 [("buffered target and flush","varisat/src/proof.rs:close_proof"),("formula-is-empty guard","varisat/src/solver.rs")],None,["bytes at the sink","panics of write_proof, enable_self_checking, add_proof_processor"])

p("C01","The checker accepts only clauses that follow",
 "Whatever proof it is given, each derived clause the checker accepts follows by unit propagation from the clauses present at that point, and the propagation sequence it reports for the clause is a correct one. A formula that is satisfiable is therefore never reported as proven unsatisfiable.",
 ["inputs","histories"],"every proof, honest or not, over every formula: wrong, missing, reordered or colliding hints, renamed variables, any hash width",
 "The checker's tests feed single hand-written bad steps; combinations of colliding hashes, unit bookkeeping and renaming need constructed proofs.",
 ["varisat-checker/src/rup.rs","varisat-checker/src/hash.rs","varisat-checker/src/state.rs","varisat-checker/src/clauses.rs"],
 [("hinted unit propagation","varisat-checker/src/rup.rs:check_clause_with_hashes")],
 [("clause store","clauses by id with multiplicities","varisat-checker/src/clauses.rs")],["Checker::check_proof result","CheckedProofStep stream"])

p("C02","The checker never lets a constraint disappear",
 "Whatever proof it is given, the checker accepts removing an irredundant clause only if a remaining clause subsumes it or a known unit satisfies it, removes exactly one copy at a time, and accepts deleting a variable only if it is hidden and occurs in no other clause. Models accepted later therefore satisfy every clause of the input.",
 ["inputs","histories"],"every proof with any mix of additions, duplicate copies, redundancy changes, deletions and variable deletions",
 "Single bad deletions are tested; multiplicity and redundancy combinations, and variable deletion, are not.",
 ["varisat-checker/src/state.rs","varisat-checker/src/clauses.rs","varisat-checker/src/variables.rs"],
 [("reference counts per clause","varisat-checker/src/clauses.rs:delete_clause"),("deletion justifications","varisat-checker/src/state.rs:check_delete_clause_step")],None,["CheckedProofStep stream"])

p("C03","The checker accepts only true result claims and legal variable use",
 "Whatever proof it is given, an accepted model is consistent and satisfies every present clause including units and all active assumptions, and is never accepted after the formula was shown contradictory; an accepted failed-assumption set is a subset of the active assumptions contradicted by unit propagation. Clauses and assumptions over variables that are not sampling variables, and colliding or repeated variable names, are rejected.",
 ["inputs","histories"],"every proof with arbitrary model, assumption, core, naming and mode steps",
 "A few single invalid claims are tested with total assignments; partial models, units and mode histories are not.",
 ["varisat-checker/src/state.rs","varisat-checker/src/variables.rs"],
 [("model and core validation","varisat-checker/src/state.rs"),("variable naming rules","varisat-checker/src/variables.rs")],None,["Checker::check_proof result","ProofTranscriptStep stream"])

p("C04","Incomplete or damaged proofs are never taken as complete",
 "A proof cut off at any byte before its end marker is reported as incomplete, a failing reader is reported as an input error, and bytes that do not decode to proof steps are rejected, always as an error value and never as a crash. Acceptance means that the end marker was reached and every step before it was valid.",
 ["crash_points","inputs","fault_sequences"],"every truncation point, byte corruption and read failure of every proof",
 "One test truncates nothing but an empty proof; corruption and read failures are untested.",
 ["varisat-checker/src/state.rs","varisat-internal-proof/src/binary_format.rs","varisat-internal-proof/src/vli_enc.rs"],
 [("end marker","varisat-internal-proof/src/binary_format.rs"),("error classification","varisat-checker/src/state.rs:check_proof")],None,["Checker::check_proof result"])

p("C05","Clause identities reported by the checker are consistent",
 "Identifiers given to clauses grow strictly, number the initial clauses in input order with duplicates and tautologies each taking their own number, and every step refers to the identifier and the sorted, duplicate-free literals of a clause that is currently present. Until a contradiction is shown no clause is reported added twice, and never removed twice, even when solving is repeated.",
 ["inputs","histories"],"every formula with duplicated, tautological, unit and contradicting clauses and every proof or session over it",
 "Tests check identifiers only for two small sequences.",
 ["varisat-checker/src/clauses.rs","varisat-checker/src/state.rs","varisat-checker/src/processing.rs"],
 [("id allocation","varisat-checker/src/clauses.rs:store_clause"),("delayed empty clause","varisat-checker/src/state.rs:process_unit_conflicts")],None,["CheckedProofStep stream"])

p("C06","Proof encoding is lossless",
 "Decoding the encoded form of any sequence of proof steps yields exactly that sequence, for all literals, variables, counts and 64-bit hash values and however the reader chunks the bytes. The bytes are those of the fixed native format, so stored proofs stay readable, and distinct step sequences have distinct encodings.",
 ["inputs"],"every step kind and field value, every buffer boundary",
 "The only test round-trips plain numbers through one buffer size; steps and other buffer alignments are untested.",
 ["varisat-internal-proof/src/binary_format.rs","varisat-internal-proof/src/vli_enc.rs"],
 [("variable-length integers","varisat-internal-proof/src/vli_enc.rs"),("step codes","varisat-internal-proof/src/binary_format.rs")],None,["write_step / Parser::parse_step"])

p("C07","The checker accepts every legal step",
 "A proof step that breaks none of the rules is not refused: a derived clause whose listed hints propagate to a conflict, a deletion justified by a unit or the preceding stronger clause, a true model, a failed-assumption set shown by its hints, and legal changes of names, modes and hash width. In particular every native proof the solver completes is accepted for its formula.",
 ["inputs"],"every formula and legal proof",
 "Tests check only proofs of a few solver runs; legal steps the solver rarely writes are never tried.",
 ["varisat-checker/src/state.rs","varisat-checker/src/rup.rs","varisat-checker/src/clauses.rs","varisat-checker/src/variables.rs","varisat-checker/src/hash.rs"],
 [("hinted propagation","varisat-checker/src/rup.rs:check_clause_with_hashes"),("hash renaming","varisat-checker/src/hash.rs:rehash")],None,["Checker::check_proof verdict"])

p("D01","The DIMACS reader accepts exactly the language and reads it right",
 "The reader turns every well-formed DIMACS CNF text into exactly its clauses in order, with comments, line breaks inside clauses, repeated blanks and carriage returns allowed where documented, and rejects every malformed text, including one that ends in the middle of a clause or literal, with an error that names the line it is on. Literals up to the maximal variable are read exactly and larger ones rejected. Solver and checker load exactly the formula read this way.",
 ["inputs"],"every byte sequence",
 "Tests parse a handful of fixed texts and a round trip of writer output.",
 ["varisat-dimacs/src/lib.rs"],[("character automaton","varisat-dimacs/src/lib.rs:parse_chunk")],
 [("parser mode","position within literal, clause, comment or header","varisat-dimacs/src/lib.rs")],["DimacsParser::parse"])

p("D02","DIMACS reading does not depend on chunking",
 "Splitting the input into chunks in any way, and taking out the formula parsed so far at any points, yields the same clauses, the same counts and the same acceptance as reading it at once. After an error the parser refuses further input. An error of the underlying reader or of the callback is returned and never taken for the end of the input.",
 ["inputs","schedules"],"every input and every way of splitting it and interleaving extraction",
 "Only whole-input parsing is tested.",
 ["varisat-dimacs/src/lib.rs"],[("state carried across chunks","varisat-dimacs/src/lib.rs:parse_chunk, take_formula")],None,["DimacsParser::parse_chunk, take_formula, eof, check_header, parse_incremental"])

p("D03","DIMACS headers are validated",
 "A header, if present, must be well formed, must state exactly the number of clauses read and a number of variables that is not exceeded, otherwise reading fails; without a header any formula is accepted. The variable count of the result is the larger of the header's and the largest variable used.",
 ["inputs"],"every header text and every formula following it",
 "Two fixed mismatches are tested.",
 ["varisat-dimacs/src/lib.rs"],[("header line parsing and check","varisat-dimacs/src/lib.rs:parse_header_line, check_header")],None,["DimacsParser::parse, check_header, header, var_count"])

p("D04","Formula containers and the DIMACS writer preserve formulas",
 "A formula container returns exactly the clauses added to it, in order and with their literals in order, with a variable count one above the largest index used or created; equality compares exactly this. Writing a formula as DIMACS and reading it back yields an equal formula. Literals convert to and from their integer, index and code representations without loss up to the maximal variable.",
 ["inputs"],"every sequence of clause additions, variable creations and count changes",
 "Round trips are sampled on random formulas without variable-count changes or empty clauses.",
 ["varisat-formula/src/cnf.rs","varisat-formula/src/lit.rs","varisat-dimacs/src/lib.rs"],
 [("flat literal buffer","varisat-formula/src/cnf.rs"),("literal encoding","varisat-formula/src/lit.rs")],None,["CnfFormula API","write_dimacs"])

p("X01","The command line reports exactly the solver's answer",
 "The solver program exits with 10 and prints a satisfying assignment for satisfiable inputs, exits with 20 and prints the unsatisfiable line for unsatisfiable ones, and never prints an answer line or these codes for unreadable or malformed input or invalid options. Requested proof files are complete and valid when an unsatisfiable answer was reported; a proof that could not be written is never passed over as success.",
 ["inputs","configurations","fault_sequences"],"every input file, option combination and proof target, including failing ones",
 "The repository has no test of the command line program.",
 ["varisat-cli/src/main.rs"],[("exit codes and output","varisat-cli/src/main.rs")],None,["exit status, standard output, proof files"])

p("X02","The command line checker verifies exactly valid proofs",
 "The checking mode prints the verified line and exits 0 only for a complete valid proof of the given formula, and otherwise prints the not-verified line or an error and exits non-zero. Its transcript states exactly the results the proof establishes, and LRAT files it writes are valid for the same formula; when one of them could not be written, it does not report success.",
 ["inputs","crash_points","fault_sequences"],"every formula and proof file pair including truncated, damaged and mismatched ones, and every target for LRAT output including failing ones",
 "The repository has no test of the command line program.",
 ["varisat-cli/src/check.rs","varisat-cli/src/check/transcript.rs"],[("verdict and transcript output","varisat-cli/src/check.rs")],None,["exit status, standard output, LRAT files"])

open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))

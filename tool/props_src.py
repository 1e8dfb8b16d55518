SEM = "The ten unit tests never execute an interaction; the property ranges over every interaction term, every action and every word, not over a sample."
prop("C01", "Executing a model step by step accepts exactly the behaviours it denotes",
 "For every interaction, the actions offered as immediately executable together with the model left after each of them accept exactly the traces given by the trace semantics of the language (weak, strict and co-region sequencing, interleaving, alternative, the four loops, synchronised product; asynchronous messages emit before any of their receptions, synchronous ones occur at once). The empty trace is accepted exactly when the model says it can terminate. Whether alternatives are resolved at once or as late as possible makes no difference to the accepted traces.",
 ["programs", "inputs"], "every interaction term, every lifeline/message labelling, every word", SEM,
 ["src/core/execution/semantics/frontier.rs", "src/core/execution/semantics/execute.rs", "src/core/language/syntax/interaction.rs", "src/core/language/prune/interaction.rs", "src/core/language/avoid/implem.rs"],
 [("frontier computation", "src/core/execution/semantics/frontier.rs"), ("execution of one frontier element and loop follow-ups", "src/core/execution/semantics/execute.rs"), ("termination test", "src/core/language/syntax/interaction.rs express_empty")])
prop("C02", "Pruning a model keeps exactly the behaviours that leave the lifelines alone",
 "For every interaction and set of lifelines, the model is reported able to avoid the lifelines exactly when it has a behaviour without any of their actions. When it is, the pruned model has exactly those behaviours, whichever of the two pruning operations is used. Every lifeline occurring in a behaviour is reported as involved.",
 ["programs", "inputs"], "every interaction term and every set of lifelines", SEM,
 ["src/core/language/prune/interaction.rs", "src/core/language/avoid/implem.rs", "src/core/language/involve/interaction.rs", "src/core/language/involve/action.rs"],
 [("pruning", "src/core/language/prune/interaction.rs"), ("avoidance", "src/core/language/avoid/implem.rs"), ("involvement", "src/core/language/involve/interaction.rs")])
prop("C03", "Lifelines not reported affected by a step keep their local behaviours",
 "When an execution step also reports which lifelines it affects, the model it leaves has the same behaviours as when it does not. Every lifeline that is not reported keeps, on its own, exactly the local behaviours it had before the step. The step never fails on a well-formed interaction.",
 ["programs", "inputs"], "every interaction term, every executable action", SEM,
 ["src/core/execution/semantics/execute.rs", "src/core/language/prune/interaction.rs"],
 [("execution with affected lifelines", "src/core/execution/semantics/execute.rs"), ("prune_with_affected", "src/core/language/prune/interaction.rs")])
prop("C04", "Removing lifelines from a model removes exactly their actions",
 "For every interaction and set of lifelines, the reduced model has exactly the behaviours of the model in which the actions of those lifelines are deleted and nothing else changes, and it mentions none of the removed lifelines. The projection of every behaviour of the original model is a behaviour of the reduced one, including when actions are synchronised.",
 ["programs", "inputs"], "every interaction term and every set of lifelines", SEM,
 ["src/core/language/eliminate_lf/interaction.rs", "src/core/language/eliminate_lf/action.rs"],
 [("elimination on terms", "src/core/language/eliminate_lf/interaction.rs"), ("elimination on actions", "src/core/language/eliminate_lf/action.rs")])
prop("C05", "Every rewriting of a model keeps its behaviours",
 "Each result of each transformation (simplification, reordering, factorisation and its inverse, duplicate removal, loop rules, relaxing strict sequencing or interleaving to weak sequencing, splitting communications into actions) accepts exactly the behaviours of the interaction it was applied to, wherever in the interaction it is applied.",
 ["programs", "inputs"], "every interaction term, every transformation, every position", SEM,
 ["src/core/transformation/transfofunc", "src/core/transformation/transfophase.rs", "src/core/transformation/transfokind.rs", "src/core/transformation/get_transfos"],
 [("transformation rules", "src/core/transformation/transfofunc"), ("application at every position", "src/core/transformation/get_transfos"), ("phases", "src/core/transformation/transfophase.rs")])
prop("C06", "Canonical forms keep the behaviours and are final",
 "Canonizing an interaction with any of the proposed processes terminates, yields an interaction with exactly the same behaviours, and that interaction cannot be rewritten any further by the last phase of the process.",
 ["programs", "inputs", "histories"], "every interaction term, every canonization process", SEM,
 ["src/process/canon", "src/nfa_translation/canonize.rs", "src/core/transformation"],
 [("canonization process", "src/process/canon"), ("choice of the result", "src/nfa_translation/canonize.rs")])

ANA = "The unit tests never run an analysis; the property ranges over every model, every multi-trace, every assignment of lifelines to co-localizations and every option."
AF = ["src/process/ana/handling", "src/process/ana/node", "src/process/ana/verdict", "src/core/execution/semantics", "src/core/colocalizations.rs"]
prop("C07", "Accept and Prefix analyses pass exactly the multi-traces they should",
 "The Accept analysis gives Pass exactly on the multi-traces of the model and Fail on all others. The Prefix analysis gives Pass exactly on the multi-traces of the model, Pass or WeakPass exactly when consuming the canals action by action follows a beginning of a behaviour of the model; it never gives Fail when the multi-trace could only not be read to the end because some canal was over, and is inconclusive only then. This holds with asynchronous and synchronous communications, for local, partially grouped and global observation.",
 ["programs", "inputs"], "every interaction, multi-trace and co-localization of the lifelines", ANA, AF,
 [("matching of heads", "src/process/ana/handling/matches.rs"), ("verdicts", "src/process/ana/handling/handler.rs get_local_verdict_when_no_child"), ("verdict combination", "src/process/ana/verdict/global.rs")])
prop("C08", "Elimination and simulation pass exactly the partial observations of the model",
 "When no two lifelines share a canal, the Eliminate analysis passes (Pass or WeakPass) exactly the multi-traces of which every local trace is the beginning of the local trace of one common behaviour of the model; with grouped lifelines it never fails such a multi-trace. The Simulate analysis passes exactly the multi-traces (slices, when simulation before the start is allowed) for which such a behaviour exists within its limits: what is not observed costs one action and the loops it lies in, counted as configured (per criterion, reset or not after an observed action, multiplied or not by the remaining length). Pass is given exactly to (for simulation: only to) multi-traces of the model. It never crashes, with any limits and any communications.",
 ["programs", "inputs"], "every interaction, multi-trace, co-localization and simulation setting", ANA, AF + ["src/process/ana/param/anakind.rs", "src/core/language/eliminate_lf"],
 [("simulation steps", "src/process/ana/handling/matches.rs get_simulation_matches_in_analysis"), ("simulation counters", "src/process/ana/node/flags.rs"), ("elimination steps", "src/process/ana/handling/handler.rs")])
prop("C09", "Search options do not change what an analysis answers",
 "Memoization, the search order (breadth first, depth first, restarting), step priorities and partial-order reduction do not change the verdict of an analysis (a refusal may be Fail or WeakFail), and local analyses do not change which multi-traces pass.",
 ["programs", "inputs", "histories"], "every interaction, multi-trace and combination of options", ANA, AF + ["src/process/ana/conf.rs", "src/process/ana/priorities.rs"],
 [("memoization", "src/process/ana/node/node.rs is_included_for_memoization"), ("partial-order reduction", "src/process/ana/handling/matches.rs"), ("local analysis", "src/process/ana/handling/local_analysis.rs"), ("priorities", "src/process/ana/priorities.rs")])
prop("C10", "Limits and goals only stop an analysis early, never with a wrong verdict",
 "With a limit on depth, loops or number of nodes an analysis passes nothing it would not pass without, and fails nothing that would pass without: instead of failing because nodes were left out it is inconclusive (with simulation it may also stay a weak failure, which only refuses within its own limits). A depth limit that covers the whole multi-trace changes nothing. With a goal, the goal is reached exactly when the full analysis reaches it, and if it is not reached the verdict is that of the full analysis. The verdict of an analysis is that of its best leaf, whatever the order in which leaves are found.",
 ["programs", "inputs", "histories"], "every interaction, multi-trace, limit, goal and search order", ANA, ["src/process/ana/filter", "src/process/ana/verdict", "src/process/ana/handling", "src/process/ana/conf.rs"],
 [("filters", "src/process/ana/filter/filter.rs"), ("verdict lattice", "src/process/ana/verdict/global.rs")])

IOW = "The unit tests read no file; the property ranges over every model, name, layout and text."
prop("C11", "A written model is read back as the same model; reading never crashes",
 "Writing an interaction in the .hif format and reading the result gives the same interaction, n-ary operators being nested to the right, whatever the names of the declared lifelines, messages and gates (also names that begin like a keyword). Where spaces, line ends and comments are put makes no difference. Names are resolved to what was declared, and a text using undeclared names, or that is no model, is refused with an error and never with a crash. Whatever model was read from a text can be written and read again.",
 ["programs", "inputs"], "every interaction term, every signature, every text", IOW,
 ["src/io/input/hif", "src/io/output/to_hfiles/interaction", "src/io/textual_convention.rs"],
 [("grammar", "src/io/input/hif/hif_syntax.pest"), ("parser", "src/io/input/hif/interaction.rs"), ("writer", "src/io/output/to_hfiles/interaction")])
prop("C12", "Multi-trace files are read as written, with every lifeline on one canal",
 "Writing a multi-trace in the .htf format and reading it gives the same canals and the same traces. Whatever text is read, every declared lifeline is on exactly one canal of the result and every action is on the canal of its lifeline: #any stands for the lifelines of the actions, #all for those not yet taken, lifelines that no canal mentions get empty traces, and a bare trace is observed globally. A text with overlapping canals or with an action of a lifeline of another canal is refused. Reading never crashes.",
 ["programs", "inputs"], "every multi-trace, co-localization, signature and text", IOW,
 ["src/io/input/htf", "src/io/output/to_hfiles/trace", "src/core/colocalizations.rs"],
 [("grammar", "src/io/input/htf/htf_syntax.pest"), ("parser", "src/io/input/htf/implem.rs"), ("writer", "src/io/output/to_hfiles/trace/multi_trace.rs")])
prop("C13", "Configuration and signature files mean what they say; reading never crashes",
 "Reading an .hcf file gives the options that are written in it and the documented defaults for the others: strategy, priorities, memoization, filters, analysis kind, goal, simulation settings, canonization, loggers and tracegen settings. The filters that were read stop exactly the nodes that exceed a limit. An .hsf file declares exactly its messages, lifelines and gates, numbered in the order in which they are first declared. Of an option written twice the last counts. A text with a section written twice, an option that does not exist, something undeclared, or an impossible or too large number is refused with an error; a file whose name has another extension, or none, is refused. Reading never crashes.",
 ["programs", "inputs"], "every configuration, signature and file name", IOW,
 ["src/io/input/hcf", "src/io/input/hsf", "src/io/file_extensions.rs"],
 [("configuration grammar", "src/io/input/hcf/hcf_syntax.pest"), ("configuration parser", "src/io/input/hcf"), ("signature parser", "src/io/input/hsf"), ("filters", "src/process/ana/filter")])

EXW = "The unit tests explore no model; the property ranges over every model, option and order of exploration."
prop("C14", "Exploration generates exactly the multi-traces of the explored executions",
 "Exploring a model with a trace generation logger writes files that can be read back, each with a multi-trace of the model: for the condition 'acc' only multi-traces the model accepts, and every accepted word of at least one action within the depth limit; for 'exact depth' and 'modulo depth' executable words of such depths. Each file shows what the canals of the asked partition of the lifelines see. Without repetition each multi-trace is written once, and memoization or avoiding repetition only leave out. A limit on nodes is respected, and with a limit on loop instances exactly the executions that start no more iterations of (not nested) loops are explored. The verdict tells exactly whether an execution can get stuck.",
 ["programs", "inputs", "histories"], "every interaction, set of exploration and generation options, order of exploration", EXW,
 ["src/process/explo", "src/loggers/tracegen", "src/io/output/to_hfiles/trace", "src/io/input/hcf/loggers/tracegen.rs"],
 [("exploration", "src/process/explo/handling"), ("filters", "src/process/explo/filter"), ("generation", "src/loggers/tracegen")])

prop("C15", "The automaton of a model accepts exactly its behaviours",
 "The automaton obtained by exploring a model, or by composing the automata of its parts, accepts only behaviours of the model, over the letters of the signature and those of its synchronous communications. It accepts every behaviour of a model all of whose loops are strict, and every behaviour with few iterations of other models; so does the automaton after it is made deterministic and minimal. Analyzing a trace against the automaton re-enacts it without deviations exactly when the model can execute it step by step.",
 ["programs", "inputs"], "every interaction, alphabet and word", "The unit tests translate no model; the property ranges over every model and every word.",
 ["src/nfa_translation", "src/process/explo/loggers/nfait", "src/ui/commands/cli_nfa_ana.rs", "src/process/explo"],
 [("translation by exploration", "src/nfa_translation/get_nfa_from_logger.rs"), ("translation by composition", "src/nfa_translation/compositional.rs"), ("letters", "src/process/explo/loggers/nfait/printer.rs")])
TMW = "The unit tests exchange, insert or remove an element of one vector and draw a few random numbers; the property ranges over every multi-trace, every option and every sequence of random draws."
prop("C16", "Slicing writes exactly the slices of a multi-trace",
 "The slice command writes, without a number, every combination of prefixes, suffixes or slices (contiguous parts, the empty one once) of the canals exactly once, numbered from 1, in the asked folder and under the asked prefix, over the canals of the multi-trace. With a number it writes at least one and at most so many of these, whatever is drawn, and every one of them can be drawn. Wide slices keep at least a third of every canal, and the whole canal is one of them. A number that is no number and an unknown kind are refused without a crash.",
 ["programs", "inputs"], "every multi-trace, kind of slices, option and sequence of random draws", TMW,
 ["src/trace_manip/slice", "src/util/slicer.rs", "src/ui/commands/cli_slice.rs"],
 [("exhaustive slices", "src/trace_manip/slice/exhaustive.rs"), ("random slices", "src/trace_manip/slice/random.rs"), ("windows", "src/util/slicer.rs")])
prop("C17", "Mutants of multi-traces differ only in the way that was asked for",
 "A mutant with noise is the multi-trace with as many single actions inserted as asked, each of a lifeline of its canal and a message of the signature, with -u at most one per canal, with -e only at the end; noise of every kind can appear at every position. A mutant with removed actions lacks at most as many actions as asked and as many if every canal has them. A mutant with swapped actions results from as many swaps of two positions of a canal as asked, or fewer if the canals are short. A mutant of two multi-traces takes as many canals of the second as asked, always keeping one of the first, and is refused if the canals differ. The mutant is over the same canals, is written where asked and can be read. A maximum that is no number is refused without a crash.",
 ["programs", "inputs"], "every multi-trace, option and sequence of random draws", TMW,
 ["src/trace_manip/mutate", "src/ui/commands/cli_mutate_insert_noise.rs", "src/ui/commands/cli_mutate_remove_actions.rs", "src/ui/commands/cli_mutate_swap_actions.rs", "src/ui/commands/cli_mutate_swap_components.rs"],
 [("noise", "src/trace_manip/mutate/insert_noise.rs"), ("removal", "src/trace_manip/mutate/remove_actions.rs"), ("swaps", "src/trace_manip/mutate/swap_actions.rs"), ("components", "src/trace_manip/mutate/swap_component.rs")])
prop("C18", "The commands do what their arguments and files ask and report what was found",
 "For every command, the program calls exactly that one, with the arguments given. 'analyze' prints the verdict the analysis has under the options of the given configuration (the documented defaults without one), the number of nodes it explored, and fails with an error instead of a verdict if an argument or file is missing or cannot be read. 'explore' explores the given model under the given options and writes what the loggers are asked for. 'canonize' prints and writes a canonical form of the model. 'get_metrics' counts the symbols of an interaction, and the states and edges of the automaton, or of the smallest deterministic automaton, of the model.",
 ["programs", "inputs"], "every model, multi-trace, option and combination of arguments", "The unit tests run no command; the property ranges over every model and every combination of options.",
 ["src/ui/commands", "src/ui/hibou_cli.rs", "src/ui/hibou_cli.yml", "src/core/language/syntax/metrics.rs"],
 [("dispatch", "src/ui/hibou_cli.rs"), ("analysis", "src/ui/commands/cli_analyze.rs"), ("exploration", "src/ui/commands/cli_explore.rs"), ("canonization", "src/ui/commands/cli_canonize.rs"), ("metrics", "src/ui/commands/cli_get_metrics.rs")])
prop("C19", "Random interactions are as asked and everything that may occur can occur",
 "A randomly generated interaction has only symbols of the asked distribution (none that has probability 0), lifelines and messages of the signature, and is no deeper than asked; transmissions and broadcasts have distinct lifelines. Every symbol, lifeline and message that may occur can occur. A distribution is accepted exactly if its numbers are probabilities that sum up to 1. The command writes at most as many interactions as asked, no two equal, each canonical, of at least the asked number of symbols, numbered in the asked folder, and readable. The same seed gives the same interactions. Options that are no numbers and unknown distributions are refused without a crash.",
 ["programs", "inputs"], "every signature, distribution, option and sequence of random draws", "The unit tests print one generated interaction; the property ranges over every sequence of random draws.",
 ["src/experiments/interaction_random_gen", "src/ui/commands/cli_rng_gen_interactions.rs"],
 [("generation", "src/experiments/interaction_random_gen/gen.rs"), ("distributions", "src/experiments/interaction_random_gen/probas.rs"), ("command", "src/ui/commands/cli_rng_gen_interactions.rs")])
prop("C20", "PlantUML exports say what the model says",
 "The exported sequence diagram has the messages of the model and a fragment for each strict sequence, interleaving, alternative and loop, in the order of the model and with the same operands (operators nested in themselves being flattened, weak sequences being written one after the other). The exported state machines are one per lifeline, well formed, and have exactly the executions of the lifeline in the model with every loop executed at least once. Exporting never crashes on models without co-regions, synchronized products, conjunctions, parallel loops and messages of a lifeline to itself (and, for sequence diagrams, without broadcasts).",
 ["programs", "inputs"], "every interaction and signature", "The unit tests export nothing; the property ranges over every model.",
 ["src/plantuml", "src/ui/commands/cli_puml_sd.rs", "src/ui/commands/cli_puml_ap.rs"],
 [("sequence diagrams", "src/plantuml/sequence.rs"), ("state machines", "src/plantuml/automata_product.rs")])
prop("C21", "Drawings show the interaction and the exploration",
 "The images drawn of interactions, multi-traces, automata and explorations show every operator, action, lifeline, node and transition of what is drawn.",
 ["programs", "inputs"], "every interaction, multi-trace and process", "No unit test draws anything.",
 ["src/io/output/draw_interactions", "src/io/output/draw_traces", "src/io/output/draw_transitions"],
 [("drawing", "src/io/output/draw_interactions")])

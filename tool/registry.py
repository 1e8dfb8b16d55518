COMMON_ASSUMPTIONS = [
 "The symbolic executor (engine/) interprets rustc's optimised MIR of the real crate, std and dependencies faithfully; sampled path models are replayed natively and must agree.",
]
def E(entry, what="", covers=(), bounds="", uses=("den", "gen"), reach=(), **k):
    return dict(entry=entry, what=what, covers=list(covers), bounds=bounds, uses=list(uses), reach=list(reach), **k)
def Q(*a, **k): return E(*a, tier="quick", **k)
def T(*a, **k): return E(*a, tier="thorough", **k)
S = ["some action can occur"]; S2 = S + ["a follow-up is not empty"]
SLICED = ["the empty prefix", "the prefix of one letter", "the prefix of two letters", "the whole trace as prefix", "the whole trace as suffix", "the suffix of two letters", "the suffix of one letter", "the empty suffix", "the empty slice", "the whole trace as slice", "the first letter", "the letter in the middle", "the last letter", "the first two letters", "the last two letters", "the whole trace as wide prefix", "the whole trace as wide suffix", "the whole trace as wide slice"]
NA = {"C21": "drawing goes through font rasterisation, floating-point layout, PNG encoding and an external graphviz process; the result is an image without a semantics an assertion over symbolic inputs could state, and the encoders are out of reach of the executor"}
NOTE = "Within the stated bounds (evidence: bounds) every input is covered: the solver decides every branch and every assertion over symbolic lifelines, messages and words. Trusts the engine's reading of MIR (cross-checked by native replay of path models), the oracle in harness/h and Z3 (a sample of unsat answers is asked of a second solver core). Says nothing outside the bounds."
PROPS = {
 "C01": dict(note=NOTE, entries=[
   E("sem::step0", covers=S2), E("sem::step1", covers=S2), E("sem::step2", covers=S2), E("sem::step2_same", covers=S2),
   E("sem::step2_syn", covers=S2), E("sem::sync1", covers=S2), E("sem::sync2", covers=S2), E("sem::sync3", covers=S2), E("sem::step3_small", covers=S2), E("sem::alt3", covers=S2), E("sem::sync_letters", covers=["both sides at once", "different synchronised actions", "independent"]), E("sem::nested", covers=S2), E("sem::wide_coreg", covers=S2), T("sem::step3", covers=S2),
 ]),
 "C02": dict(note=NOTE, entries=[E("lifelines::prune0"), E("lifelines::prune1"), E("lifelines::prune2"), E("lifelines::prune_sync"), E("lifelines::prune_sync2"), E("lifelines::prune_nested"), E("lifelines::prune3_small"), E("lifelines::prune_half"), E("lifelines::prune_wide_coreg")]),
 "C03": dict(note=NOTE, entries=[E("sem::affected1"), E("sem::affected2"), E("sem::affected2_syn"), E("sem::affected_sync"), E("sem::affected_sync2"), E("sem::affected3_small"), E("sem::affected_sync3"), E("sem::affected_wide_coreg")]),
 "C04": dict(note=NOTE, entries=[E("lifelines::elim0"), E("lifelines::elim1"), E("lifelines::elim2"), E("lifelines::elim_sync"), E("lifelines::elim_nested"), E("lifelines::elim3_small"), E("lifelines::elim_half"), E("lifelines::elim_wide_coreg"), E("lifelines::project1"), E("lifelines::project2"), E("lifelines::project_sync")]),
 "C05": dict(note=NOTE, entries=[E("transfo::" + x) for x in ("t0", "t1", "t1_syn", "t2", "t2_empty", "t2_sync", "factor", "factor3", "relax", "nested", "assoc", "factor_long")]),
 "C06": dict(note=NOTE, entries=[E("canon::" + x, uses=("den", "gen", "transfo")) for x in ("basic", "basic_same", "toseq", "five", "five_alt", "five3")]),
 "C07": dict(note=NOTE, entries=[E("ana::" + x) for x in ("accept1", "accept2", "accept_mixed", "prefix1", "prefix2", "accept_syn", "prefix_syn")]),
 "C08": dict(note=NOTE, entries=[E("ana::" + x) for x in ("elim1", "elim2", "elim_mixed", "elim3", "elim_syn", "simu1", "simu2", "simu_crit", "simu_syn", "slice1", "slice2", "slice_chain", "slice_syn3", "simu_limits")]),
 "C09": dict(note=NOTE, entries=[E("ana::" + x) for x in ("opt_memo", "opt_por", "opt_por3", "opt_local", "opt_syn", "memo_loops", "opt_order", "incl_sim", "incl_prefix")]),
 "C10": dict(note=NOTE, entries=[E("ana::" + x) for x in ("opt_goal", "limits", "limits_loops", "verdicts")]),
 "C11": dict(note=NOTE, entries=[E("io::" + x, uses=("gen",), covers=["read back"]) for x in ("hif_leaf", "hif_env", "hif_ops", "hif_ops2", "hif_coregs", "hif_sync")]
   + [E("io::hif_layout", uses=("gen",), covers=["read"]), E("io::hif_names", uses=("gen",), covers=["read", "refused"]), E("io::hif_text", uses=("gen",), covers=["read", "refused"]), E("io::hif_text2", uses=("gen",), covers=["read", "refused"])]),
 "C12": dict(note=NOTE, entries=[E("htf::" + x, uses=(), covers=["read back"]) for x in ("round1", "round2", "letters")]
   + [E("htf::bare", uses=(), covers=["read"]), E("htf::canals", uses=(), covers=["read", "refused"]), E("htf::text1", uses=(), covers=["read", "refused"])]),
 "C13": dict(note=NOTE, entries=[E("hcf::" + x, uses=(), covers=["read"]) for x in ("ana_specific", "several")]
   + [E("hcf::" + x, uses=(), covers=["read", "refused"]) for x in ("ana_general", "explo", "sections", "numbers", "numbers_ana", "canon", "loggers", "text", "hsf")]
   + [E("hcf::extensions", uses=(), covers=["signature", "configuration", "other"])]),
 "C14": dict(note=NOTE, entries=[E("explo::" + x, covers=["something is generated"]) for x in ("acc1", "acc2", "depths", "partitions", "sound", "few_loops", "nodes")] + [E("explo::stuck", covers=["stuck", "not stuck"])]),
 "C15": dict(note=NOTE, entries=[E("nfa::" + x, covers=["an automaton that accepts something"]) for x in ("explored1", "explored2", "explored3", "explored4", "minimal", "composed")] + [E("cli::nfa_ana", covers=["re-enacted", "not re-enacted"])]),
 "C16": dict(note=NOTE, entries=[E("slices::" + x, uses=(), covers=["written"]) for x in ("exhaustive", "random", "wide")] + [E("slices::every", uses=(), reach=SLICED), E("slices::options", uses=(), covers=["written", "refused"])]),
 "C17": dict(note=NOTE, entries=[
   E("mutants::noise", uses=("slices",), covers=["a mutant"]),
   E("mutants::noise_every", uses=("slices",), reach=["before the first", "between", "after the last", "on an empty canal", "on the first lifeline", "on the last lifeline", "the first message", "the last message", "an emission", "a reception"]),
   E("mutants::removals", uses=("slices",), covers=["a mutant"], reach=["the first is removed", "the second is removed", "the third is removed"]),
   E("mutants::swaps", uses=("slices",), covers=["a mutant", "fewer swaps than asked"], reach=["the last two are swapped", "the first and the last are swapped", "the first two are swapped"]),
   E("mutants::components", uses=("slices",), covers=["a mutant", "refused"], reach=["the first is taken over", "the second is taken over", "the third is taken over"]),
   E("mutants::options", uses=("slices",), covers=["written", "refused"]),
 ]),
 "C18": dict(note=NOTE, entries=[
   E("cmds::ana_kinds", uses=("ana", "den", "gen", "explo"), covers=["Pass", "WeakPass", "Fail"]),
   E("cmds::ana_default", uses=("ana", "den", "gen", "explo"), covers=["passes", "does not pass"]),
   E("cmds::ana_options", uses=("ana", "den", "gen", "explo"), covers=["goal", "memoization", "depth"]),
   E("cmds::refused", uses=("ana", "den", "gen", "explo"), covers=["wrong", "missing"]),
   E("cmds::explore", uses=("ana", "den", "gen", "explo"), covers=["something is generated", "limited", "memoized"]),
   E("cmds::metrics_int", uses=("ana", "den", "gen", "explo"), covers=["measured", "loops"]),
   E("cmds::metrics_nfa", uses=("ana", "den", "gen", "explo"), covers=["measured"]),
   E("cmds::metrics_dfa", uses=("ana", "den", "gen", "explo"), covers=["several states"]),
   E("cmds::canonize", uses=("ana", "den", "gen", "explo"), covers=["every way", "one way"]),
   E("cmds::program", uses=("ana", "den", "gen", "explo"), covers=["ran"]),
 ]),
 "C19": dict(note=NOTE, entries=[
   E("rgen::leaves", reach=["an action of the last lifeline and message", "a transmission from the last lifeline of the last message", "a broadcast from the last lifeline of the last message", "an action of the first lifeline and message", "a transmission from the first lifeline of the first message", "a broadcast from the first lifeline of the first message", "a broadcast to all others", "a reception", "an emission"]),
   E("rgen::symbols", reach=["the first symbol", "the second symbol", "coregion", "empty", "action", "strict", "seq", "par", "strict loop", "weak loop", "parallel loop", "alt", "transmission"]),
   E("rgen::coregions", reach=["on the first lifeline", "on the second lifeline"]),
   E("rgen::tables", covers=["drawn"]),
   E("rgen::distributions", covers=["taken", "refused"]),
   E("rgen::named", covers=["drawn"]),
   E("rgen::canonical", covers=["generated", "too small"]),
   E("rgen::command", covers=["ran", "refused"], reach=["as many as asked for"]),
   E("rgen::command_numbers", covers=["refused"]),
 ]),
 "C20": dict(note=NOTE, entries=[
   E("puml::sd", uses=("gen",), covers=["a message", "an operator", "two operators", "three operators"]),
   E("puml::ap", uses=("gen",), covers=["an action", "an operator", "two operators", "three operators", "several executions"]),
   E("puml::ap_broadcasts", uses=("gen",), covers=["broadcasts"]),
 ]),
}

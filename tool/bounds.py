"""Bounds of the entries of each property, in words (the entries in harness/h have them in code). Q: quick, T: thorough."""
COMMON = "Lifelines, messages, words and draws are symbolic; shapes are forked; nothing is sampled within the bounds. Outside: larger models, longer words, more lifelines than stated."
B = {
"C01": "All interactions of at most 1 operator over all nine kinds of leaves (3 lifelines, 2 messages) and all operators but the product; 2 operators over distinct actions (and over equal ones for alt, seq, par, strict loop); the synchronised product with up to 1 more operator (2 more for a product of an action with a larger term), and of communications of several actions; alternatives of 3 operators with equal actions, all 3-operator models of 6 operators over 2 lifelines; synchronous communications inside and behind co-regions; loops in loops; co-regions over two lifelines with one operator inside. Words of 3 or 4 letters, each any set of simultaneous actions. T: 4 letters everywhere, all leaves in products, 3 operators with one kind of leaf.",
"C02": "As C01 up to 2 operators (3 over 2 lifelines), product with up to 2; every set of one or two lifelines, or none; words of 3 or 4 letters. T: empty operands, every operator in products and nested loops.",
"C03": "As C01 up to 2 operators (3 over 2 lifelines), every executable action, words of 3 letters; the local behaviours of every lifeline. T: more leaves, deeper products.",
"C04": "As C02: every set of one or two lifelines; words of 3 or 4 letters.",
"C05": "Every rule at every position in models of at most 2 operators (all leaves with 1), three-part alternatives with common parts, three-part sequences, loops in loops; words of 2 to 4 letters, so loops of at most 4 iterations. T: empty operands everywhere.",
"C06": "Models of 2 operators (five3: three) under each of the canonization processes; words of 3 letters. Termination within the step limit of the executor.",
"C07": "Models of at most 2 operators, multi-traces of at most 3 actions, local, grouped and global observation of 2 or 3 lifelines, one message. T: two operators with the grouped observation.",
"C08": "Models of at most 2 operators, multi-traces of 2 actions over 2 or 3 canals, every simulation criterion; the oracle looks for extensions by at most 3 more letters, which is enough for these models; slices of chains of 4 actions; three synchronous communications observed on two canals; 8 settings of the limits with models of 2 operators (loops in loops included). T: all operators with two.",
"C09": "Models of 2 operators (partial order: 3), 2 or 3 actions observed; memoization, partial-order reduction, local analyses, 3 search strategies and symbolic priorities, each for 3 or 4 kinds of analysis; inclusion of memoized nodes for every pair of nodes. T: more operators and observations.",
"C10": "As C09; limits 0 to 3 on depth, loops and nodes; goals Pass and WeakPass; every order of up to 4 leaf verdicts.",
"C11": "Every leaf and every operator with up to 2 operators written and read; 2 kinds of names; separators, line ends and comments of 1 or 2 characters anywhere; 1 or 2 arbitrary characters anywhere in four texts; names of 1 or 2 arbitrary characters.",
"C12": "Every partition of 3 lifelines, up to 2 letters of up to 2 actions; all canal lists of up to 3 lifelines, #any, #all; 1 (T: 2) arbitrary characters anywhere in four texts.",
"C13": "Every option, spelled every documented way, alone and two at a time; numbers of up to 2 (T: 3) arbitrary digits, and around the largest number of each type; 1 or 2 arbitrary characters in four texts; signatures of up to 3 declarations, 2 of them equal or not; file names with every extension of up to 3 characters.",
"C14": "Models of at most 2 operators; generation conditions acc, exact and modulo depth up to 3; every partition of 2 lifelines; loop limits 0 and 1 (and loops of depth 3); node limits 1 to 4; deadlock verdict on products of up to 2 operators.",
"C15": "Models of 1 or 2 operators (3 for strict ones); words of 2 or 3 letters over the alphabet; composition and exploration; determinised and minimal automata; nfa_analyze on traces of up to 2 letters.",
"C16": "Canals of 0 to 3 letters, 1 to 2 canals (T: 3); every kind, with and without -w, 1 to 3 random slices, every sequence of draws; every slice of a canal of 3 letters reached.",
"C17": "1 or 2 canals of 0 to 3 letters; 0 to 3 insertions, removals, swaps or exchanges; every sequence of draws (at most a dozen per path, longer ones of rejected draws are cut).",
"C18": "Models of at most 2 operators, multi-traces of 2 actions, 7 kinds of analysis and 10 combinations of options through the real argument parser and command; 12 commands with a file missing or wrong at each stage; every command name; metrics for models of 2 operators.",
"C19": "Up to 3 lifelines and 2 messages; depth 1 or 2; every pair of symbols of the 13; every sequence of draws (floats: 8 points of the unit interval); the command with 1 to 3 interactions and at most 10 draws.",
"C20": "Models of at most 2 operators over all kinds of leaves with 1, 3 operators with one kind; executions of at most 3 or 4 actions per lifeline; up to 3 lifelines for broadcasts.",
}

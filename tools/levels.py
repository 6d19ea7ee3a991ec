SEARCH = "exploration"
p("C01", True, SEARCH, GEN + ", byte strings with invalid UTF-8; a case counts when distinct", "Proved for all inputs and all well-formed tables: no index, nil or type-assertion failure in the parser runtime, what panics becomes an error when recover is on. Evaluated on the table of the source: it is well-formed, no rule is left-recursive and nothing that can match the empty text is repeated, so every parse ends. Stack depth and time are covered by the bounded search only." + BOUND, gvc_timeout=700, table=True)
p("C02", True, SEARCH, GEN + "; acceptance compared with an independent matcher of the published grammar", "Proved for all inputs and all tables: every function of the parser runtime consumes exactly what the PEG meaning of its expression says (memoization and debug output off), and a text the start rule does not match is rejected without a tree. Evaluated on the table of the source: it is well-formed, and node by node the reference grammar (another table is left to the bounded search). That a matched text is not rejected by an action is covered by the bounded search only." + BOUND, gvc_timeout=700, table=True)
p("C03", True, SEARCH, "histories of several parses compared with a parse in a fresh state", "Proved for all inputs: a parse starts with an empty report, and warnings are cloned with the state. Whole histories are covered by the bounded search only." + BOUND)
p("C04", True, SEARCH, GEN + "; tree compared with the one an independent matcher builds", "Proved for all inputs: the tree-building actions under contract. Evaluated on the table of the source: it is the reference grammar, and each action gets the labelled values the reference names (another table is left to the bounded search). The induction over a whole parse is not mechanised." + BOUND, table=True)
p("C05", True, SEARCH, GEN + "; positions compared with an independent matcher's", "Proved for all inputs: every place the runtime reaches is true (line, column, offset), each action is handed the place and text of its expression, each node records it. Evaluated on the table of the source: the actions are wired as in the reference grammar." + BOUND, gvc_timeout=700, table=True)
p("C06", True, SEARCH, GEN + "; comments and warnings compared with an independent matcher's", "Proved for all inputs: the comment helpers and the actions put every comment at its place, in order, once, and the warnings list the lost ones. Evaluated on the table of the source: the actions are wired as in the reference grammar. The blank-line markers are covered by the bounded search only." + BOUND, gvc_timeout=700, table=True)
p("C07", True, SEARCH, "random trees; printed tokens compared with the tree", "Proved for all nodes and all numbers of children: every String and ValueString method prints its parts once, in order, between the tokens of its kind, and prefix keeps every chunk it is given. That the pattern cuts a text into whole lines is assumed in the proof and covered by the bounded search only." + BOUND)
p("C08", True, SEARCH, "random finite numbers, read back with exact arithmetic", "Proved for all values, from stated assumptions on the standard library's number formatting, which are covered by the bounded search only." + BOUND)
p("C09", False, SEARCH, GEN + "; printed and parsed again", "Bounded search only." + BOUND)
p("C10", True, "proof", "random byte strings, compared with a reference", "Every obligation discharged for all strings." + BOUND)
p("C11", True, "proof", "random strings and styles", "Every obligation discharged for all inputs." + BOUND)
p("C12", True, "proof", "random strings and styles", "Every obligation discharged for all inputs." + BOUND)
p("C13", True, SEARCH, "random trees and edit scripts, compared with a reference", "Proved for all lists, cursors and plugins: every cursor operation changes the list it works on as stated and nothing else. The recursive walk ApplyPlugins itself is covered by the bounded search only." + BOUND)
p("C14", True, SEARCH, "random trees and edit scripts, compared with a reference", "Proved for all lists and cursors: every cursor operation keeps the cursor pointing at what it names. The recursive walk ApplyPlugins itself is covered by the bounded search only." + BOUND)
p("C15", True, "proof", "random attribute lists and error chains", "Every obligation discharged for all inputs." + BOUND)
RUN = "random directories and argument lists, run with the real binary in a scratch directory"
p("C16", True, SEARCH, RUN, "Proved for all argument lists and file worlds (a trusted model of the file system and of parsing): Check.Run. Flags, exit code and the real file system are covered by the bounded search only." + BOUND, bin=True)
p("C19", True, SEARCH, RUN, "Proved for all argument lists and file worlds (a trusted model of the file system, of parsing and printing): Format.Run. Flags, exit code and the real file system are covered by the bounded search only." + BOUND, bin=True)
for i in ("C17", "C18"):
    p(i, True, SEARCH, RUN, "Proved for all plugins and validator states: what lint does with one plugin (collectIDs, newID, walk). Proved for all argument lists and file worlds, with any number of visits to plugins in place of the walk (a trusted body): what Run writes, that it reports what does not parse, exceptional comments and failed writes. Which plugins the walk visits, flags and the real file system are covered by the bounded search only." + BOUND, bin=True)
p("C20", True, SEARCH, GEN + "; farthest failure compared with an independent matcher's", "Proved for all inputs: the report keeps the farthest place and each expectation once, and its text says so. Evaluated on the table of the source: the predicates stand and report as in the reference grammar." + BOUND, table=True)
p("C21", True, SEARCH, "random option sequences and limits", "Proved for all inputs: every option sets its own setting only and returns its inverse. The effect of the limit is covered by the bounded search only." + BOUND)
p("C22", False, SEARCH, GEN + "; parsed with and without the option", "Bounded search only." + BOUND)

#!/usr/bin/env python3
# Generates properties.jsonl (kept as a script only to keep the JSON readable).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if observe:a["observe_at"]=observe
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    title=title[:80]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
PARSER=["logstash_config.go","logstash_config_helper.go"]
p("C01","Parsing any byte sequence ends in a tree or an ordinary parse error, no crash",
 "For every byte sequence, valid configuration or not, parsing with the default options or with comments ignored or warned about returns normally with either a configuration tree or a non-nil error. It never panics out to the caller, and the error it reports is never an internal failure such as an index out of range, a nil dereference or a failed type conversion.",
 ["inputs","configurations"],"all byte sequences (including invalid UTF-8, truncated and deeply nested texts within the stack limit) and all settings of the two comment options",
 "The tests parse a few dozen well-formed files and two malformed ones; every out-of-range access or failed conversion hides behind an input shape nobody listed.",
 PARSER+["parse_error_helper.go","logstash_config_options.go"],
 [("generated matcher: slicing of the input, value stack","logstash_config.go (*parser).parse*/read/sliceFrom/pushV/popV"),("semantic actions and their unchecked conversions","logstash_config_helper.go (*current).*"),("panic to error conversion","logstash_config.go (*parser).parse")],
 ["return values of Parse, ParseReader, ParseFile"])
p("C02","The accepted language is exactly the Logstash configuration grammar",
 "A text that is valid UTF-8 is accepted (returned without error) if and only if it is derivable from the published Logstash grammar as ordered-choice rules, with the documented deviations only: comments may end at end of file and may stand before hash entries, method calls are not part of the language, a selector's field names hold no opening bracket, numbers beyond the 64-bit floating point range are rejected, and a text of only blanks and comments is accepted as an empty configuration. In particular keywords, operators, quoting rules, character classes, and where blanks and comments may or must occur are neither widened nor narrowed.",
 ["inputs"],"all UTF-8 texts",
 "Acceptance is a statement about infinitely many texts; the tests fix about 90 samples, hardly any of them a rejected one.",
 ["logstash_config.go","logstash_config.peg","grammar.treetop","logstash_config_helper.go","parse_error_helper.go"],
 [("grammar table","logstash_config.go var g"),("matching functions of the parser runtime","logstash_config.go parseXxx"),("predicates in the grammar that only record an error","parse_error_helper.go pushError, fatalError")],
 ["error result of Parse"])
p("C03","A parse depends only on the text and the options, not on earlier parses",
 "Parsing the same bytes with the same options gives the same tree, the same warnings, the same error text and the same farthest-failure report, whatever was parsed before in the same process, successfully or not. Alternatives the parser tried and abandoned leave no trace in the returned tree or warnings, and the caller's input bytes are never modified.",
 ["inputs","histories"],"all sequences of parses in one process (one at a time), all texts and option settings",
 "The tests parse each text once per process state; leftovers in recycled or global state show only after particular sequences.",
 ["logstash_config.go","parse_error_helper.go","logstash_config_helper.go"],
 [("recycled state dictionaries are emptied; state is cloned and restored around alternatives","logstash_config.go cloneState, restoreState, Discard"),("farthest failure is reset at the start of each parse","logstash_config_helper.go initParser"),("warnings list is copied when cloned","logstash_config_helper.go exceptionalCommentsWarnings.Clone")],
 ["results of two Parse calls"],[("statePool","recycled dictionaries","logstash_config.go"),("farthestFailure","farthest error of the current parse","parse_error_helper.go")])
p("C04","The tree mirrors the source: sections, plugins, values, conditions, in order",
 "For every accepted text the returned tree contains, in source order and nothing else, every section (under its own kind), plugin, attribute, array element, hash entry, branch, condition and operator of the text, nested as in the text. Names, string bodies with their quote style, numbers, regular expressions and selector names carry exactly the characters written between their delimiters (numbers: the decimal value written), and every boolean, comparison, match and membership operator is the one written, with the operands on the sides they were written on.",
 ["inputs"],"all accepted texts",
 "Tests compare trees for a fixed set of examples; a dropped or swapped child that needs a certain combination (third element, nested in, last of) is not in them.",
 PARSER+["ast/ast.go"],
 [("semantic actions building nodes from matched labels","logstash_config_helper.go"),("label to argument wiring","logstash_config.go onXxx/callonXxx"),("node constructors and accessors","ast/ast.go")],
 ["tree returned by Parse, read through the ast package's API"])
p("C05","Every node's position is the line, column and byte offset where it starts",
 "In the tree of every accepted text, the position of each section, plugin, attribute, value, block, expression, operator, selector and regular expression is the place of its first character in the source: offset counts bytes from zero, line counts newlines from one, column counts characters from the last newline starting at one (an attribute starts at its name, a condition's left-hand operand starts its expression, and a boolean-chained expression keeps its own start). A configuration is at 1:1 [0], a branch is where its 'if' is, and an empty condition reports the invalid position.",
 ["inputs"],"all accepted texts, including tabs, CRLF, multi-byte characters and comments before the node",
 "The position test pins one small document per construct, all ASCII; positions after multi-byte characters, CRLF or inside nested values are not covered.",
 ["logstash_config.go","logstash_config_helper.go","ast/ast.go"],
 [("position bookkeeping while reading runes and on backtracking","logstash_config.go read, restore"),("start of the match handed to actions","logstash_config.go parseActionExpr; logstash_config_helper.go astPos"),("Pos accessors","ast/ast.go")],
 ["Pos() of every node"])
p("C06","Comments are kept where the format has room for them, and warned about elsewhere",
 "For every accepted text with at least one section, each comment before a section, plugin, branch, attribute, array element, hash entry, else-if or else block, at the end of a block, list or section, or after the last section appears with its text (outer spaces trimmed), in order and exactly once, in the comment list of the node it belongs to. Each run of blanks containing a comment in any other accepted place adds, in source order and once each, exactly one warning naming where that run starts (a run starting at a line break is named as column zero of the next line) when the warnings option is on, and nothing when it is off. With comments ignored the tree is the same except that it has no comments.",
 ["inputs","configurations"],"all accepted texts with at least one section, all settings of the comment options",
 "Comment handling is spread over some thirty call sites that each need a comment in that very place; tests cover a handful of samples.",
 ["logstash_config_helper.go","logstash_config.go","logstash_config_options.go","ast/ast.go"],
 [("collecting comment blocks","logstash_config_helper.go comment, commentBlock"),("warnings for exceptional places","logstash_config_helper.go warnComment, retConfig"),("option plumbing","logstash_config_options.go")],
 ["Comment, CommentBlock and FooterComment of nodes, Warnings of the configuration"])
p("C07","Printing a tree renders every part once, in order, with the right tokens",
 "For every tree built with the package's constructors or by parsing (comments only where the parser puts them), the printed text contains each non-nil part (sections, comments, plugins, attributes, array elements, hash entries, blocks, expressions, selectors) exactly once, in tree order, each between the delimiters, separators and operator tokens of its kind, with nested content indented by two blanks per level; only the number of blank lines around comments is left open. Indenting only inserts blanks at the start of lines and never drops, changes or reorders a character, and never changes the inside of a quoted string.",
 ["inputs","programs"],"all trees whose hash entries have keys, all nesting depths and child counts, all comment placements the parser produces, all token bodies without delimiters of their own",
 "Rendering tests check one or two children per node; separators, nil children, comments on the second section or quotes in unusual places appear only in other combinations.",
 ["ast/ast.go","ast/ast_helper.go"],
 [("String and ValueString methods","ast/ast.go"),("indentation","ast/ast_helper.go prefix")],["String() of any node"])
p("C08","Printed numbers denote exactly the value stored",
 "For every finite number stored in a number attribute the printed text is an optional minus sign, digits, and at most one decimal point followed by digits, as the grammar allows, and reading that text back yields exactly the same value. Whole numbers are printed without a decimal point.",
 ["inputs"],"all finite 64-bit floating point values",
 "Tests print about ten values; rounding and range problems occur only for particular magnitudes.",
 ["ast/ast.go","logstash_config_helper.go"],[("number printing","ast/ast.go NumberAttribute.ValueString"),("number reading","logstash_config_helper.go number")],["ValueString() of a number attribute"])
p("C09","Printing and re-parsing loses nothing, and printing is stable",
 "For every accepted text with at least one section, the printed form of its tree is itself accepted; its tree equals the first one in everything but positions and blank-line markers around comments. Printing that second tree gives the same text again.",
 ["inputs"],"all accepted texts with at least one section",
 "The round trip is tested on a fixed directory of files that are already in printed form; texts not yet in that form are not covered.",
 ["ast/ast.go","ast/ast_helper.go","logstash_config.go","logstash_config_helper.go"],
 [("printing","ast/ast.go String methods"),("indentation keeps quoted text intact","ast/ast_helper.go prefix"),("parsing","logstash_config.go")],["output of the format command"])
p("C10","Unescaping undoes escaping for every string",
 "For every byte string, unescaping its escaped form gives back the original string, and the escaped form contains no carriage return, newline, tab, and no quote or backslash that is not part of an escape pair. Unescaping replaces exactly the six documented two-character sequences, scanning left to right without overlap, and leaves every other byte as it is.",
 ["inputs"],"all byte strings, including multi-byte characters, invalid UTF-8 and trailing backslashes",
 "The tests use about ten short strings; the interaction of adjacent backslashes, quotes and control characters needs all strings.",
 ["ast/astutil/escape.go"],[("escape and unescape substitution","ast/astutil/escape.go Escape, Unescape")],["return values of Escape and Unescape"])
p("C11","Quoting without escaping yields a valid token with that value, or an error",
 "For every string and quote style, quoting without escaping either returns the string itself between the delimiters of that style (bare for barewords) or an error, and it succeeds exactly when the result is one complete Logstash token of that style whose body is the string. For quoted styles that means every delimiter inside is directly preceded by a backslash and the string does not end in a backslash; for barewords a letter or underscore followed by at least one letter, digit or underscore.",
 ["inputs"],"all strings, all three quote styles",
 "Tests quote about fifteen strings; the first, second and last character behave differently from the others and are easy to miss.",
 ["ast/astutil/quote.go"],[("delimiter scan and bareword pattern","ast/astutil/quote.go Quote")],["return values of Quote"])
p("C12","Quoting with escaping always yields a valid token and changes nothing needlessly",
 "For every string not ending in a backslash (no token body can end in one), quoting with escaping to a quoted style returns one complete token of that style whose body is the string with a backslash added only where the grammar needs one: before a delimiter not already preceded by a backslash. For barewords of at least two characters it returns a bareword in which exactly the characters not allowed at their place are replaced by an underscore.",
 ["inputs"],"all strings, all three quote styles",
 "Tests cover about ten strings per style; quotes in the first two positions and runs of quotes are separate cases.",
 ["ast/astutil/quote.go"],[("delimiter escaping","ast/astutil/quote.go escapeQuotes"),("bareword mapping","ast/astutil/quote.go escapeBareword")],["return value of QuoteWithEscape"])
p("C13","Applying a function visits each original plugin exactly once, in source order",
 "For every list of plugins and branches, applying a function calls it once for each plugin or nil entry that was in the list or in any if, else-if or else block at any depth, in source order, whatever edits earlier calls performed on their own plugin. Plugins put in by replacing or inserting are not visited, and during each call the cursor reports the plugin being visited, its list and its index in that list.",
 ["inputs","programs"],"all trees and all visiting functions that edit through the cursor: any sequence of replace, insert before and insert after on the current plugin, with delete, if used, as the last edit of a visit; lists that do not share entries",
 "Tests use one edit per visit on lists of at most five; visits after combined edits, or in later else-if blocks, are not covered.",
 ["ast/astutil/apply.go"],[("iteration index and step","ast/astutil/apply.go ApplyPlugins, Cursor")],["calls of the visiting function"],[("index, step","position and how far to advance","ast/astutil/apply.go iterator")])
p("C14","Cursor edits change exactly the current plugin's place, and nothing is lost",
 "After applying a function that deletes, replaces, inserts before or inserts after the current plugin, the returned list, and the lists in all branches, equal the original ones with exactly those edits carried out: every other entry is kept, once, in order, and conditions, comments and positions are untouched. Several edits made in one visit act on the same current plugin: inserting before it and then replacing or deleting it affects it and not the inserted one, entries inserted before stand in the order inserted, and a later one inserted after stands nearer to it.",
 ["inputs","programs"],"all trees and all edit sequences in a visit (delete, if used, last), lists that do not share entries",
 "Tests perform a single edit per visit; slices that share storage and combined edits behave differently.",
 ["ast/astutil/apply.go"],[("slice surgery","ast/astutil/apply.go Delete, Replace, InsertBefore, InsertAfter"),("writing back edited blocks","ast/astutil/apply.go ApplyPlugins")],["return value of ApplyPlugins"])
p("C15","A plugin's ID is its first id attribute; absence is told apart from misuse",
 "For every plugin, asking for its ID returns the value of its first attribute whose name is the bareword id if that is a string, a not-found error if there is no such attribute, and another error if the first such attribute is not a string; nil attributes are skipped and later ones ignored. An error is classified as not found exactly if it, or an error it wraps, is a not-found error, and its text is the wrapped text with the not-found prefix.",
 ["inputs","programs"],"all attribute lists, all chains of wrapped errors",
 "Tests look at lists of one or two attributes and single-level errors.",
 ["ast/ast.go","ast/errors.go"],[("attribute scan","ast/ast.go Plugin.ID"),("error classification","ast/errors.go")],["return values of Plugin.ID and IsNotFoundError"])
p("C16","The check command fails exactly if a file is unreadable or unparsable",
 "For every list of paths, the check command succeeds if and only if each path is a directory (skipped) or a readable file that parses; otherwise its report has exactly one entry per offending path, in order, naming the path and the reason, and all remaining paths are still checked. It never modifies a file and never crashes.",
 ["inputs","fault_sequences"],"all argument lists mixing good, bad, missing and unreadable files and directories",
 "There are no tests of the command; verdicts over mixed lists of paths are not exercised at all.",
 ["internal/app/check/check.go","internal/app/app.go","internal/app/check.go","internal/format/multierr.go"],
 [("per-file loop and error collection","internal/app/check/check.go Run"),("exit status","internal/app/app.go Execute")],["exit status, standard error, file contents"])
p("C17","Lint reports every parse error, warning, missing or duplicate ID, nothing else",
 "For every list of paths without auto-fix, lint succeeds if and only if every file parses, has no comment in an exceptional place, and every plugin in every section and block has a string id that is unique within its file. Otherwise the report contains, per file, its parse error, or each exceptional comment, one list of all plugins without usable id and one of all plugins repeating an earlier id (inputs, filters, outputs, each in source order, with position and name), and nothing else; no file is written.",
 ["inputs","configurations"],"all argument lists and configurations",
 "There are no tests of the lint command.",
 ["internal/app/lint/lint.go","ast/astutil/apply.go","ast/ast.go"],
 [("validator walk over all sections","internal/app/lint/lint.go Run, walk")],["exit status, standard error"])
p("C18","Auto-fix gives each plugin without one a unique ID and changes nothing else",
 "After lint with auto-fix on a parsable file, every plugin that had no id attribute has exactly one, holding a string that differs from every other id in the file; ids that were there, even duplicate or non-string ones, are kept as they are. Apart from the added id attributes the rewritten file has the same tree, a file needing no change is not written at all, and running it again changes nothing.",
 ["inputs","histories"],"all parsable configurations whose printed form is not one of the findings recorded for C09, repeated runs",
 "There are no tests of the lint command; id collisions need particular plugin names and counts.",
 ["internal/app/lint/lint.go","ast/ast.go"],
 [("id generation","internal/app/lint/lint.go walk"),("write back only when changed","internal/app/lint/lint.go Run")],["contents of the linted file"])
p("C19","The format command emits exactly the printed trees, and never damages bad files",
 "For every list of paths, format prints, in argument order and with nothing added, the printed form of each file that parses, or with write-to-source replaces each such file's content by exactly that text and prints nothing. At the first path that is missing, unreadable or does not parse it stops with an error naming that path, leaving that file and all later ones unchanged; directories are skipped.",
 ["inputs","fault_sequences"],"all argument lists mixing good and bad files and directories, with and without write-to-source",
 "There are no tests of the format command.",
 ["internal/app/format/format.go","internal/app/format.go"],
 [("per-file loop, write only after a successful parse","internal/app/format/format.go Run")],["standard output, file contents, exit status"])
p("C20","The farthest-failure report names the farthest position of the current parse",
 "After a rejected text, the farthest-failure report, if there is one, carries the largest position at which any tried alternative recorded an expectation during that parse, together with all distinct expectations recorded at that position and no others, or only the single fatal expectation when a missing closing delimiter aborted the parse. A parse, whether or not it succeeds, never reports expectations recorded by an earlier one.",
 ["inputs","histories"],"all rejected texts, all sequences of parses",
 "Two malformed files are tested; the maximum over all tried alternatives is a property of every input.",
 ["parse_error_helper.go","logstash_config_helper.go"],
 [("keeping the maximum","parse_error_helper.go pushError"),("fatal errors replace it","parse_error_helper.go fatalError"),("reset","logstash_config_helper.go initParser")],["GetFarthestFailure"],[("farthestFailure","expectations at the farthest position","parse_error_helper.go")])
p("C21","Each parser option takes effect and hands back its exact inverse",
 "Applying an option sets only the setting it is named for and returns an option that restores the value in force before; applying an option and then the one it returned leaves every setting as it was. A limit on the number of expressions is obeyed (statistics starting from zero): the parse fails with the corresponding error as soon as more expressions than the limit are needed, and otherwise gives the same result as without a limit.",
 ["configurations","inputs"],"all options, all values and orders of application, all limits and texts",
 "No test uses the returned options or the limits.",
 ["logstash_config.go","logstash_config_options.go"],
 [("option constructors","logstash_config.go MaxExpressions, Memoize, Recover, ...; logstash_config_options.go"),("expression counting","logstash_config.go parseExpr")],["results of Parse"])
p("C22","Memoization and statistics do not change the result of a parse",
 "For every text, parsing with result caching, with statistics collection, with debug output or with panic recovery switched off gives the same tree, warnings and error as parsing without (except that without recovery an aborting error arrives as a panic). Statistics count every choice once: as the alternative that matched, or as no match.",
 ["inputs","configurations"],"all texts, all settings of the listed options",
 "No test parses with these options.",
 ["logstash_config.go"],[("memo table","logstash_config.go getMemoized, setMemoized"),("statistics","logstash_config.go incChoiceAltCnt")],["results of Parse under different options"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))

#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit; run to regenerate)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

prop("C01", "Tokens are exactly the words, strings, comments and punctuation of the text",
 "Lexing configuration text yields, in order, exactly one token per bare word, quoted string, comment and brace or semicolon, with the value NGINX's escaping rules give it, a quoted flag that is set only for quoted strings, and the line on which the token begins. No character of the text is lost, invented or attached to the wrong token, whatever mix of quoting, backslash escapes, ${...} expansions, CR/LF line ends, Unicode and nesting is used. Unbalanced braces and doubled or misplaced ';' and '{' end the stream with an error carrying the offending line.",
 ["inputs"], "every configuration text, of any length, alphabet, quoting style and nesting depth",
 "lex_test.go compares token lists of ten fixture files; quoting, escapes, line ends and Unicode can be combined in unboundedly many ways and the lexer is one state machine in which any two can interact.",
 ["lex.go", "util.go"],
 [("character state machine (skipSpace, inWord, inComment, inVar, inQuote)", "lex.go tokenize"), ("brace depth and repeated-special-character tracking", "lex.go tokenize")],
 ["Lex / LexWithOptions token channel: Value, Line, IsQuoted, Error"])

prop("C02", "A valid configuration parses to the tree its text denotes",
 "Parsing a valid configuration returns status ok, no errors, and a tree holding every directive once, in source order, under the block that encloses it, with its exact arguments, the line its name is on, and (when requested) every comment with its text and line. Parentheses around an 'if' condition are stripped and nothing else in the arguments changes, and directives without a block are distinguishable from directives with an empty one. This holds at any width, file size and argument count, and at any nesting depth up to the parser's limit (4096 blocks), beyond which an error is reported.",
 ["inputs"], "every valid configuration: nesting, argument lists, comments between or inside statements, any layout of whitespace and lines",
 "parse_test.go pins about thirty literal payloads; structure recovery must hold for all nestings, layouts and sizes (including more tokens than the lexer's channel holds).",
 ["parse.go", "util.go", "types.go"],
 [("recursive descent over the token stream", "parse.go parser.parse"), ("parenthesis stripping", "util.go prepareIfArgs"), ("comments inside argument lists are appended after the statement", "parse.go commentsInArgs")],
 ["Payload.Config[].Parsed", "Directive.Line/Args/Block/Comment"])

prop("C03", "Parse then build then parse gives the same configuration back",
 "For every configuration text that parses without error, building the parsed tree gives a configuration text that parses without error to the same tree: same directives, nesting, arguments (as NGINX reads them) and comments, line numbers aside (comments that share a line are joined into one). Building that second tree again gives byte-identical text, so building is a stable formatter.",
 ["inputs"], "every configuration text that parses without error, with and without comments, under any indentation option",
 "TestCompareParsedAndBuilt round-trips eight fixture files; the guarantee is about all configurations, in particular arguments needing quotes or escapes, which the fixtures barely contain.",
 ["build.go", "parse.go", "lex.go"],
 [("re-quoting of directive names and arguments", "build.go Enquote, needsQuote"), ("comment placement by line number", "build.go buildBlock"), ("'if' parentheses", "build.go buildBlock / util.go prepareIfArgs")],
 ["Build output", "Payload of the second Parse"])

prop("C04", "Building any directive tree writes exactly that tree",
 "Building a directive tree that comes from JSON or was made by a program, with any indentation, tab or header option, writes text that parses back to that tree, one statement per directive. No directive name or argument value, whatever characters it holds, is read back as more or fewer tokens than the one it is or changes how its neighbours are read. Indentation depth equals nesting depth and formatting options change only white space (and the fixed header).",
 ["inputs", "configurations"], "every directive tree with arbitrary argument strings and every combination of Indent, Tabs and Header",
 "build_test.go compares seven literal outputs; quoting must be right for every string, including ones that are empty, start a comment, contain both quote kinds, end in a backslash, or hold unprintable characters.",
 ["build.go", "util.go"],
 [("quoting decision and quoting", "build.go Enquote, needsQuote, escape; util.go repr"), ("block rendering and margins", "build.go buildBlock, margin"), ("header", "build.go header")],
 ["Build output read back with Lex and Parse", "Enquote"])

prop("C05", "No input can crash, hang or wedge the parser",
 "For every byte sequence and every combination of parse options, parsing terminates and returns either a payload or an error, never panicking and leaving no running goroutine behind. A returned payload is well formed: status is failed exactly when errors are listed, payload errors are the per-file errors in file order, every error names a parsed file and a line inside it, every directive's line lies inside its file and include indices point at existing files.",
 ["inputs", "configurations"], "every byte string (valid UTF-8 or not, truncated, mutated, deeply nested) x every ParseOptions combination",
 "Tests feed only a handful of malformed files; totality is a claim about all byte strings and option combinations.",
 ["lex.go", "parse.go", "analyze.go", "util.go", "lua.go", "build.go"],
 [("lexer goroutine feeding the parser through a bounded channel", "lex.go LexWithOptions, parse.go Parse"), ("error recording", "parse.go Parse handleError")],
 ["Parse result, panics, termination, runtime.NumGoroutine"])

prop("C06", "Directive validation accepts exactly what the directive definitions allow",
 "A directive is accepted exactly when at least one definition of it, among all the directive sources in use, permits it in its enclosing block context with its number of arguments, flag value, parenthesised expression and block-or-semicolon form; otherwise it is reported as unknown, not allowed here, missing its block, not terminated, not parenthesised, having an invalid flag value or an invalid number of arguments, according to which rule it breaks. Definitions from several sources add up, the skip options disable exactly the context check or the argument check, and directives in unknown contexts or without a definition are left alone unless unknown directives are declared errors.",
 ["inputs", "configurations"], "every directive name, context path, argument list and terminator x every set of definitions (context and argument-style bits) x the three strictness options",
 "analyze_test.go checks selected directives in selected contexts with the built-in tables; acceptance is a function over masks x contexts x argument counts x terminators that the samples cannot cover (7 and more arguments, several definitions, unusual contexts).",
 ["analyze.go", "parse.go", "util.go"],
 [("context lookup", "analyze.go contexts, enterBlockCtx"), ("mask matching", "analyze.go analyze"), ("expression and flag checks", "util.go validExpr, validFlag")],
 ["Payload.Errors and presence of the directive in the tree"])

prop("C07", "An invalid statement is reported precisely and damages nothing else",
 "When parsing continues past errors, each invalid statement yields exactly one error carrying its file, line, statement text and enclosing block, is left out of the tree together with its block, and every other statement of the file is parsed exactly as if the invalid one were absent. A file whose text is lexically broken (unbalanced braces, premature end, stray punctuation), even inside a skipped or ignored block, is marked failed and never silently truncated. Errors of one file do not affect the tree of another.",
 ["inputs", "histories"], "every valid configuration with any number of invalid statements (simple, block, unterminated) inserted at any positions",
 "The fixtures contain a few broken files each with one mistake; isolation is about every position, kind and combination of mistakes.",
 ["parse.go", "analyze.go", "errors.go"],
 [("error recovery: consuming the block of a rejected directive", "parse.go parser.parse"), ("closing brace handling after an error", "parse.go parser.parse"), ("error contents", "errors.go ParseError")],
 ["Payload.Errors", "Config.Errors", "Config.Parsed", "ParseError fields"])

prop("C08", "Entries of map-like blocks are kept as data",
 "Inside map-like blocks (charset_map, geo, map, match, types, split_clients, geoip2, otel_exporter) every entry is kept, in order, as a map parameter with its exact key and values, never interpreted, validated, ignored or expanded as a directive even if it is spelled like one, and only entries of these blocks carry the map-parameter mark. An entry is rejected exactly when its number of values is not the one its block (or its special parameter, such as hostnames, volatile or ranges) takes or when it is not ended by a semicolon, and a rejected entry does not disturb the other entries or what follows the block.",
 ["inputs"], "every map-like block kind, key, value list and terminator, with neighbours before and after the block",
 "Tests use three map fixtures and ten table rows; keys are arbitrary strings (including directive names, quotes, empty) and each block kind has its own arity rules.",
 ["analyze_map.go", "parse.go", "build.go"],
 [("arity rules per block", "analyze_map.go mapBodies, analyzeMapBody"), ("map branch of the parser", "parse.go parser.parse")],
 ["Directive.IsMapBlockParameter", "Config.Parsed", "Payload.Errors"])

prop("C09", "Includes resolve to the right files, once, in order and in context",
 "Every include directive is resolved against the directory of the main file (absolute patterns as they are), globs expand to all matches in sorted order, and each reached file is parsed exactly once and appears once in the payload, with the include's indices pointing, in order, at the files it names. An included file is validated in the block context of the include that first reaches it, whatever blocks surround or follow that include. An include of a single file that cannot be opened is an error at that include, a pattern matching nothing is not, and with single-file parsing no other file is opened.",
 ["inputs", "configurations"], "every set of files and include graph (shared, nested, globbed, relative, absolute, missing), include positions at any block depth",
 "includes-regular and includes-globbed are two small graphs; resolution order, sharing and context must be right for every graph and nesting depth.",
 ["parse.go"],
 [("breadth-first include queue with index map", "parse.go Parse, parser.includes/included"), ("pattern resolution, globbing, sorting", "parse.go parser.parse include branch"), ("context captured with the queued file", "parse.go fileCtx, analyze.go enterBlockCtx")],
 ["Payload.Config order and File", "Directive.Includes", "errors of included files", "Open and Glob calls"])

prop("C10", "Include cycles are always rejected and acyclic includes never are",
 "Parsing fails with an include-cycle error exactly when the include relation among the files reached contains a cycle, of any length, through any mix of globs, repeated includes and shared files. Acyclic include graphs, however often files are shared, always parse.",
 ["inputs"], "every finite include graph, including self-includes, long cycles, diamonds, multi-edges and cycles not through the main file",
 "One fixture has a two-file cycle; cycle detection must be exact on all directed multigraphs.",
 ["parse.go"],
 [("topological sort over include edges and in-degrees", "parse.go parser.isAcyclic"), ("edge recording", "parse.go parser.parse include branch")],
 ["error result of Parse"])

prop("C11", "Combining inlines every include in place and loses nothing",
 "Combining a payload gives one configuration in which every resolved include is replaced, in place and in order, by the statements of the files it names, recursively and at every nesting depth, each statement keeping its line (and, when combining while parsing, the name of its file); a file included from several places appears at each. All errors and the failed status of the parts are carried over, the original payload is left unchanged, and combining while parsing equals parsing and then combining. An include index that is out of range makes combining return an error.",
 ["inputs"], "every payload (parsed or made by a program), include graph and nesting",
 "One two-file unit test and one fixture; in-place order, sharing, nesting depth and error carry-over are unbounded.",
 ["util.go", "parse.go", "types.go"],
 [("recursive expansion through channels", "util.go performIncludes"), ("error and status merge", "util.go combineConfigs"), ("provenance", "parse.go parser.parse fileName")],
 ["Payload.Combined", "Parse with CombineConfigs"])

prop("C12", "Parse options change only what they say",
 "Asking for comments adds only comment entries; not asking removes only them. Ignoring directives gives the tree without those directives and their blocks and changes nothing else, single-file mode leaves include statements unresolved and changes nothing else, and combining options gives the combination of their effects. Line numbers, order, arguments and errors of everything not addressed by an option stay the same.",
 ["inputs", "configurations"], "every configuration x every combination of ParseComments, IgnoreDirectives, SingleFile, CombineConfigs and strictness options",
 "Tests run single options on one or two fixtures; the claim relates pairs of runs over all configurations and option combinations.",
 ["parse.go"],
 [("comment handling", "parse.go parser.parse"), ("ignored directive consumption", "parse.go parser.parse consume mode"), ("single-file switch", "parse.go parser.parse")],
 ["Payloads of two Parse runs with different options"])

prop("C13", "A payload survives JSON unchanged",
 "Encoding an error-free payload as JSON and decoding it gives a payload equal to the original in every directive, argument, line, file, include index, comment, map-parameter mark and empty-or-absent block, so building from JSON writes the same configuration as building from the parse result. Errors are encoded as their message with file and line, and the documented key names are used.",
 ["inputs"], "every payload the parser can produce and every directive tree a program can make from Unicode strings",
 "Tests only marshal payloads to compare them with each other; they never decode, so information lost by the encoding on both sides is invisible.",
 ["types.go", "errors.go"],
 [("JSON field tags and encoders", "types.go Directive, Config, Payload"), ("error encoding", "errors.go ParseError.MarshalJSON")],
 ["encoding/json of Payload, then Build"])

prop("C14", "All build targets write the same bytes to the right place",
 "Building a payload into files writes every configuration to its own path, relative paths under the given directory (creating missing directories) and absolute paths as they are, and nowhere else, each holding what building that configuration alone writes, trailing white space trimmed to one newline; building into strings or another creator gives the same text in payload order. Building never modifies the payload, repeated builds give identical bytes, existing files are fully replaced, and a failure to create, write or close a target is returned as an error.",
 ["inputs", "configurations", "fault_sequences"], "every payload, set of paths, build option combination, and failing write or close",
 "Two one-directive payloads are built in tests; several files, nested directories, overwriting longer files and failing writers are untested.",
 ["build.go", "buffer.go"],
 [("file output", "build.go BuildFiles"), ("creator output", "build.go BuildInto, buffer.go StringsCreator"), ("single configuration", "build.go Build")],
 ["files on disk", "StringsCreator.Files", "Creator calls", "returned errors"])

prop("C15", "Lua blocks and registered extensions are handled verbatim",
 "With Lua support registered, the body of every *_by_lua_block directive is kept byte for byte (nested braces, quoted strings and line breaks included), the lines of what follows are right, and building with Lua support writes it back so that it parses to the same tree; a Lua block that does not start with a brace is an error. A registered lexer is invoked for exactly the directives it is registered for (never for arguments), receives the text after the directive name and its tokens take the place of what it consumed; a registered builder is invoked exactly once for each directive of its names and its text is written verbatim.",
 ["inputs", "configurations"], "every Lua body with balanced braces and complete strings, every set of registered extension names, at any position in a configuration",
 "Four Lua fixtures; bodies, positions and third-party extensions are unbounded.",
 ["lua.go", "lex.go", "build.go"],
 [("Lua scanner", "lua.go Lua.Lex"), ("extension dispatch in the lexer", "lex.go tokenize extLexers"), ("extension dispatch in the builder", "build.go buildBlock extBuilders, lua.go Lua.Build")],
 ["tokens, trees and Build output with registered lexers and builders"])

prop("C16", "Results depend only on the text and options",
 "The outcome of parsing does not depend on how the reader chunks the bytes, on the capacity of the token buffer, on earlier calls, or on other parses and builds running at the same time (also when they share one options value), and no such concurrent use is a data race. Parsing and building the same input twice gives equal results, and the caller's options are not changed in a way that alters later calls.",
 ["inputs", "schedules", "histories"], "every configuration x reader chunking x token-buffer capacity x concurrent and repeated use",
 "Tests read whole files with the default buffer; chunk boundaries inside multi-byte characters and tiny buffers only occur in benchmarks, and concurrent use of shared options nowhere.",
 ["lex.go", "parse.go", "build.go"],
 [("rune scanner over a reader", "lex.go tokenize"), ("token channel", "lex.go LexWithOptions"), ("option defaults", "parse.go Parse, build.go Build")],
 ["Parse / Lex / Build results under chunked readers, SetTokenChanCap, goroutines with the race detector"])

prop("C17", "I/O failures surface as errors and resources are released",
 "A failure to open, glob or read any file at any point makes parsing return an error or record one for that file; a partially read file is never reported as a success. Every file parsing opens is closed by the time it returns, on every path, is not read afterwards, and no goroutine started for it survives; files are closed as soon as they have been read, so that only a few are open at once however many a configuration includes.",
 ["fault_sequences", "inputs"], "every configuration and include graph x every operation (open, glob, read after k bytes) at which an I/O failure can be injected",
 "Tests never inject a fault except a missing file; failures must surface at every operation index.",
 ["parse.go", "lex.go"],
 [("open and close", "parse.go Parse, parser.openFile"), ("scanner error handling", "lex.go tokenize"), ("lexer goroutine lifetime", "lex.go LexWithOptions")],
 ["Open/Read/Close calls of an instrumented file system", "Parse result", "goroutine count"])

prop("C18", "Release tables are consistent with each other and with NGINX",
 "A directive use (name, context, argument count, flag, block form) accepted by the table of one release is accepted by the table of every later release of the same product, and what open-source NGINX accepts is accepted by the NGINX Plus release based on it, except for the directives upstream removed. The default table accepts exactly the union of the latest Plus, njs and OpenTelemetry tables; documented uses of core and module directives are accepted and documented misuses rejected; no name is defined that the release does not have, and every definition names an argument style and a context the validator knows (entries of map-like blocks have no context).",
 ["configurations", "inputs"], "all directive names x contexts x argument counts x block forms over all built-in release and module tables",
 "Tests probe a few dozen directives of single tables; the tables hold over nine thousand definitions across nineteen sets, and their mutual consistency is never compared.",
 ["analyze_oss_124_directives.gen.go", "analyze_oss_126_directives.gen.go", "analyze_oss_latest_directives.gen.go", "analyze_nplus_R30_directives.go", "analyze_nplus_R31_directives.go", "analyze_nplus_R33_directives.gen.go", "analyze_nplus_R34_directives.gen.go", "analyze_nplus_R35_directives.gen.go", "analyze_nplus_R36_directives.gen.go", "analyze_nplus_R37_directives.gen.go", "analyze_nplus_latest_directives.gen.go", "analyze_njs_directives.gen.go", "analyze_otel_directives.gen.go", "analyze_lua_directives.gen.go", "analyze_geoip2_directives.gen.go", "analyze_headersMore_directives.gen.go", "analyze_appProtectWAFv4_directives.gen.go", "analyze_appProtectWAFv5_directives.gen.go", "analyze.go"],
 [("one mask table and match function per release", "analyze_*_directives*.go"), ("default union", "analyze.go defaultDirectives")],
 ["the exported match functions", "Parse with each as the directive source"])

prop("C19", "Generated support files state exactly what the C sources define",
 "For every tree of C and C++ sources, the generator's output is valid Go that defines, for each directive found in a command table and not filtered out, exactly the definitions its sources give (all of them, in every file, repeated or not), translated bit by bit, or exactly the override if one is given, and nothing else. Comments of either style, line breaks, preprocessor lines and white space in the sources do not change the result. An unknown bit, a tree without directives, a source file that cannot be read or output that cannot be written is an error.",
 ["inputs", "configurations"], "every C source tree with command tables (layouts, comments, repeated definitions, several files and tables) x filters x overrides",
 "Eleven small fixture trees; layouts, comment placements and combinations of files, filters and overrides are unbounded.",
 ["internal/generator/generator_util.go", "internal/generator/generator.go", "internal/generator/tmpl/support_file.tmpl"],
 [("comment stripping and table extraction", "generator_util.go masksFromFile"), ("walk and merge", "generator_util.go getMasksFromPath"), ("filter, override, template", "generator_util.go genFromSrcCode, support_file.tmpl")],
 ["output of generator.Generate parsed with go/parser", "returned error"])

prop("C20", "The generate command honours its flags and config file",
 "The generate command gives the same output for settings given as flags as for the same settings given in a JSON config file, a flag overrides the config file's value for the same setting only, and repeated filter and override flags add up. Override flags are parsed exactly (directive, alternative definitions, bits, surrounding blanks ignored); malformed overrides and missing required settings make the command fail with a non-zero exit and no output.",
 ["inputs", "configurations"], "every combination of flags and config file contents, every override string",
 "Only the override parser has six unit rows; precedence between flags and file and command-level failure are untested.",
 ["cmd/generate/main.go", "cmd/generate/cmd_util.go", "internal/generator/generator.go"],
 [("flag and config merge", "cmd/generate/main.go main"), ("override parser", "cmd/generate/cmd_util.go overrideItem.UnmarshalText"), ("filter list decoding", "internal/generator/generator.go Filters.UnmarshalJSON")],
 ["stdout and exit status of the built command"])

prop("C21", "Directive equality is exact and total",
 "Two directives compare equal exactly when their names, arguments, lines, files, include indices, comments, map-parameter marks and nested blocks are equal, at every depth; an absent block differs from an empty one. Equality is reflexive, symmetric and transitive, never panics (nil directives included) and does not depend on which of the two is the receiver; a directive is never equal to a copy in which one of these was changed, and the classification of a directive as block, include or comment follows its contents.",
 ["inputs"], "every pair and triple of directive trees, including copies changed in one place at any depth",
 "types_test.go has about twenty literal pairs of depth one.",
 ["types.go"],
 [("recursive comparison", "types.go Directive.Equal"), ("classification", "types.go IsBlock, IsInclude, IsComment")],
 ["Directive.Equal", "Directive.IsBlock/IsInclude/IsComment"])

prop("C22", "Error modes agree with each other",
 "Stopping at the first error returns exactly the first error that the error-collecting mode lists, and no error when that mode lists none (the payloads are then equal). The error callback is called once for each collected error, in order, with that error, and its result is stored with it; the status of the payload and of each file is failed exactly when it lists errors. Every error prints as its message with its file and line and unwraps to its cause.",
 ["inputs", "configurations"], "every configuration, valid or not, x include graphs x error options",
 "No test relates the two modes; single fixtures use one mode each.",
 ["parse.go", "errors.go"],
 [("StopParsingOnError branches", "parse.go parser.parse, Parse"), ("error recording and callback", "parse.go Parse handleError"), ("error text and unwrapping", "errors.go ParseError")],
 ["Parse error result versus Payload.Errors", "ErrorCallback invocations"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

G = "src/dockerfile_parser.pest"
prop("C01", "Every call returns: no panic, abort or hang on any text",
 "Parsing any text whatsoever, however malformed, long or deeply continued, returns a result or an error: it never panics, never overflows the stack or otherwise ends the process, and always terminates. The same holds for the read-only views of whatever was parsed: stages and stage lookup, line positions of spans, variable resolution of image references, printing of values and of errors, and replacing any one reported span.",
 ["inputs"], "all UTF-8 texts, and every instruction, span and error obtained from them",
 "The tests parse about sixty fixed, mostly well-formed snippets of at most a few hundred bytes; panicking slices, unwraps on an unexpected child, unbounded recursion per line and non-terminating scans only show on texts nobody wrote down.",
 ["src/dockerfile_parser.rs", "src/util.rs", "src/instructions/run.rs", "src/splicer.rs", "src/stage.rs", "src/image.rs", G],
 [("grammar-driven parse, errors as values", "src/dockerfile_parser.rs parse_dockerfile"), ("iterative walk over continued lines", "src/util.rs parse_any_breakable_inner"), ("first child unwrap after skipping comments", "src/instructions/{run,cmd,entrypoint}.rs from_record")],
 observe=["Dockerfile::parse", "Stages::new", "Span::relative_span", "ImageRef::resolve_vars", "Splicer::splice"])
prop("C02", "Reported spans point at exactly the text they describe",
 "Every span reported for an instruction or any of its parts is a non-empty byte range inside the original text, on character boundaries, that covers precisely the source text of that item (an instruction's range starts at its keyword; a part written without quotes or escapes has exactly its covered text as its value). Parts lie inside the item that contains them, siblings appear in source order without overlapping, and the text of an instruction's span parsed by itself gives that same instruction.",
 ["inputs"], "all texts that parse, every instruction and every nested span in them",
 "Tests assert a few dozen literal offsets, all in ASCII text with LF newlines; offsets after multi-byte characters, CRLF, tabs, indented or commented continuations are never compared with the text they denote.",
 ["src/splicer.rs", "src/util.rs", "src/instructions/env.rs", "src/instructions/label.rs", "src/instructions/from.rs", "src/instructions/copy.rs", G],
 [("byte offsets taken from the parse tree", "src/splicer.rs Span::from_pair"), ("synthesised span of a single ENV variable", "src/instructions/env.rs from_single_record")],
 observe=["span fields of all instruction types", "Instruction::span"])
prop("C03", "A file parses as the sequence of its instructions, none lost or merged",
 "Parsing a file made of several complete, self-contained pieces separated by line breaks yields exactly the instructions of the pieces, in source order, with spans shifted by the position of the piece and FROM instructions numbered consecutively from zero; it fails if and only if some piece fails on its own. The parsed file keeps the original text unchanged, and comment or blank lines between instructions contribute no instruction.",
 ["inputs", "histories"], "all sequences of self-contained pieces (single-line, multi-line, quoted multi-line, comments, blanks), in any order and number",
 "Integration tests parse eight fixed files; whether an instruction swallows, drops or is altered by its neighbour depends on the ordered pair of forms that meet at a line break, of which there are hundreds, and on how many precede it.",
 ["src/dockerfile_parser.rs", G],
 [("document rule and instruction loop", "src/dockerfile_parser.rs parse_dockerfile"), ("stage numbering", "src/dockerfile_parser.rs from_index")],
 observe=["Dockerfile.instructions", "Dockerfile.content", "FromInstruction.index"])
prop("C04", "The keyword alone decides the kind of instruction",
 "An instruction is reported as FROM, ARG, LABEL, RUN, ENTRYPOINT, CMD, COPY or ENV only if its keyword is that word in any mix of upper and lower case, and a well-formed instruction with such a keyword is always reported as that kind. Any other alphabetic keyword, including words that merely start with, contain or resemble a known keyword, is reported as a miscellaneous instruction that preserves the keyword's spelling and the text of its arguments.",
 ["inputs"], "all alphabetic keywords with any letter case, in front of any argument text",
 "Tests use each keyword in one or two spellings (lower or upper case) and no unknown keyword is asserted anywhere (misc.rs has no tests).",
 ["src/dockerfile_parser.rs", "src/instructions/misc.rs", G],
 [("ordered choice of steps", "src/dockerfile_parser.pest step"), ("rule to instruction dispatch", "src/dockerfile_parser.rs TryFrom<Pair>")],
 observe=["Instruction variant", "MiscInstruction"])
prop("C05", "Layout between instructions never changes what is parsed",
 "Indentation before an instruction, spaces or tabs after one (except after free-form shell text, where they are part of the text), blank lines, whole-line comments between instructions, the letter case of keywords, the choice of LF or CRLF line endings, and the presence or absence of a final line break do not change the kinds, values or order of the instructions, nor whether the file is accepted.",
 ["inputs"], "all files, under every combination of these layout choices at every line break",
 "Tests contain no CRLF or tab-indented input at all and exercise one layout per snippet; the guarantee is a relation between pairs of inputs.",
 [G, "src/util.rs", "src/dockerfile_parser.rs"],
 [("surrounding whitespace and comments", "src/dockerfile_parser.pest meta_step"), ("escaped line breaks in labels", "src/util.rs clean_escaped_breaks")],
 observe=["Dockerfile.instructions without spans"])
prop("C06", "Shell-form text is the source text minus continuations and comment lines",
 "For the free-form argument of RUN, CMD, ENTRYPOINT, ENV name-space-value and miscellaneous instructions, printing the parsed text gives the argument's source characters verbatim and in order, with only each line continuation (a backslash, optional blanks and the line break) and each whole comment line following one removed. Text and comment pieces are kept in source order with their exact text; a # elsewhere than at the start of a continued line is ordinary text; and the instruction ends at the first line break that is neither continued nor part of such a comment.",
 ["inputs"], "all free-form argument texts with any number of continued, blank-padded and commented lines",
 "Six multi-line snippets are asserted; the position of #, backslashes, trailing blanks, CRLF and comment runs interact combinatorially.",
 ["src/util.rs", G, "src/instructions/run.rs", "src/instructions/cmd.rs", "src/instructions/entrypoint.rs", "src/instructions/env.rs", "src/instructions/misc.rs"],
 [("breakable text rules", "src/dockerfile_parser.pest any_breakable"), ("component collection", "src/util.rs parse_any_breakable"), ("Display drops comments", "src/util.rs impl Display for BreakableString")],
 observe=["BreakableString.components", "BreakableString::to_string"])
prop("C07", "Exec form yields exactly the listed strings",
 "When the argument of RUN, CMD or ENTRYPOINT is a bracketed, comma-separated list of quoted strings, the instruction is in exec form and its elements are the unescaped strings, all of them, in order, whatever blanks, continuations or comments separate them; the same text is treated alike by the three instructions. When the argument is not such a list it is kept as shell-form text instead of being partly interpreted.",
 ["inputs"], "all lists of quoted strings with all separators, and all near-misses of such lists",
 "Tests list two elements in two layouts; empty lists, other counts, trailing commas, quotes and brackets inside strings, and comments between elements are not covered.",
 ["src/util.rs", G, "src/instructions/run.rs", "src/instructions/cmd.rs", "src/instructions/entrypoint.rs"],
 [("array rule", "src/dockerfile_parser.pest string_array"), ("element collection", "src/util.rs parse_string_array"), ("form selection", "src/instructions/*.rs from_record")],
 observe=["StringArray.elements", "as_exec/as_shell", "as_str_vec"])
prop("C08", "ENV reports every variable with its name and value",
 "ENV name=value pairs yield one variable per pair in source order with exactly the written name and the value as written, or unescaped if quoted; ENV name followed by blanks yields exactly one variable whose value is the whole rest of the instruction (unescaped if it is one quoted string). Text that follows a pair without being another pair makes the file an error rather than being dropped.",
 ["inputs"], "all ENV argument texts",
 "Tests cover about a dozen literal ENV lines; the choice between the two forms and the boundary between values depend on every character class in every position.",
 ["src/instructions/env.rs", G],
 [("form selection", "src/dockerfile_parser.pest env"), ("pair and single parsing", "src/instructions/env.rs parse_env_pair, from_single_record")],
 observe=["EnvInstruction.vars"])
prop("C09", "LABEL reports every label with its name and value",
 "LABEL yields one label per name=value pair in source order, or a single label for the name-space-value form, with names and values exactly as written, or unescaped if quoted; quoted names and values may span lines, a backslash immediately before a line break inside quotes joining the lines. A pair that is incomplete, or text that follows a label without being another pair, makes the file an error rather than being dropped.",
 ["inputs"], "all LABEL argument texts",
 "Tests cover about fifteen literal LABEL lines, none with CRLF, non-ASCII or mixed quoting on both sides; the boundary between names, values and labels depends on every character class in every position.",
 ["src/instructions/label.rs", "src/util.rs", G],
 [("pair and single rules", "src/dockerfile_parser.pest label"), ("label assembly", "src/instructions/label.rs from_record"), ("joining of escaped lines", "src/util.rs clean_escaped_breaks")],
 observe=["LabelInstruction.labels"])
prop("C10", "COPY reports its flags, sources and destination",
 "COPY yields its leading --name=value flags in order, then all of its paths but the last as sources in order, and the last path as destination. At least one source and a destination are always present, a word that looks like a flag after the first path is a path, and no word is dropped, split or merged.",
 ["inputs"], "all COPY argument texts",
 "Tests cover five literal COPY lines with at most one flag.",
 ["src/instructions/copy.rs", G],
 [("flags then paths", "src/dockerfile_parser.pest copy"), ("destination is the last path", "src/instructions/copy.rs from_record")],
 observe=["CopyInstruction"])
prop("C11", "FROM reports its flags, image, alias; digests are validated",
 "FROM yields its --name=value flags in order, the image exactly as written, that image's parsed reference, and the alias if and only if AS name follows (AS in any letter case). An image whose reference carries a digest is accepted exactly if the digest is sha256: followed by 64 hexadecimal digits, and anything left over after the image and alias makes the file an error.",
 ["inputs"], "all FROM argument texts and all digests",
 "Tests cover eight literal FROM lines and three bad digests, each wrong in a way other than having a wrong character.",
 ["src/instructions/from.rs", "src/image.rs", G],
 [("FROM rules", "src/dockerfile_parser.pest from"), ("digest validation", "src/instructions/from.rs from_record")],
 observe=["FromInstruction", "Error"])
prop("C12", "ARG and the file's global arguments",
 "ARG yields its name and, if and only if an = follows, its value as written, or unescaped if quoted. The file's global arguments are exactly the ARG instructions that precede the first FROM, in order, whatever other instructions stand between them; looking a global argument up by name returns the first one with exactly that name, and nothing if there is none.",
 ["inputs"], "all ARG texts; all sequences of ARG, FROM and other instructions; all looked-up names",
 "One test covers three ARG spellings; global_args and get_global_arg are not asserted by any test.",
 ["src/instructions/arg.rs", "src/dockerfile_parser.rs", G],
 [("ARG rules", "src/dockerfile_parser.pest arg"), ("collection before the first FROM", "src/dockerfile_parser.rs parse_dockerfile"), ("lookup", "src/dockerfile_parser.rs get_global_arg")],
 state=[("global_args", "ARG instructions before the first FROM", "src/dockerfile_parser.rs Dockerfile")],
 observe=["ArgInstruction", "Dockerfile.global_args", "Dockerfile::get_global_arg"])
prop("C13", "Image references split losslessly and print back unchanged",
 "Splitting any image string and printing the result gives back the identical string. The part before the first / is the registry exactly if it is localhost or contains a dot or a colon; of the remainder, what follows the first @ is the digest and there is then no tag; without an @, what follows the first colon is the tag; the rest is the image name.",
 ["inputs"], "all strings",
 "Tests list about twenty fixed references; round-tripping is asserted for none of them except one doc example.",
 ["src/image.rs"],
 [("splitting", "src/image.rs ImageRef::parse, is_registry"), ("printing", "src/image.rs impl Display for ImageRef")],
 observe=["ImageRef::parse", "ImageRef::to_string"])
prop("C14", "Variable substitution is complete, exact and bounded",
 "Substituting into a string replaces each $name and ${name} (names of letters, digits and underscores, longest match, left to right) by the recursively substituted value of that variable and leaves every other character unchanged, without rescanning what was inserted. It gives nothing if and only if some reached variable is undefined or references nest deeper than the given limit, so cyclic definitions always terminate; on success the reported set of used variables gains exactly the variables reached directly or through others.",
 ["inputs", "configurations"], "all strings, all finite variable maps including cyclic ones, all depth limits",
 "Tests use one map with six entries and ten strings; adjacency, empty values, mixed syntax, self-reference and limits other than 0, 1, 2 and 16 are not covered.",
 ["src/image.rs", "src/splicer.rs"],
 [("recursive substitution with a depth budget", "src/image.rs substitute"), ("in-place replacement", "src/splicer.rs Splicer::splice")],
 observe=["substitute"])
prop("C15", "Image references resolve against the global arguments only",
 "Resolving an image reference in a file substitutes variables using exactly the values of the ARG instructions preceding the first FROM (the last value given for a name counts; an ARG without a value supplies none; arguments inside stages never count) and splits the resulting string again into registry, name, tag and digest. It returns the used variables along with the reference, and returns nothing if a referenced variable has no such value or references are too deeply nested; both resolution functions agree.",
 ["inputs", "histories"], "all sequences of ARG, FROM and other instructions and every image reference in them",
 "Five tests use at most three arguments, none redefined, and never inspect the used-variable set of a parsed file.",
 ["src/image.rs", "src/dockerfile_parser.rs"],
 [("variable map from global args", "src/image.rs resolve_vars_with_context"), ("wrapper", "src/image.rs resolve_vars")],
 observe=["ImageRef::resolve_vars", "ImageRef::resolve_vars_with_context"])
prop("C16", "Build stages partition the instructions after the first FROM",
 "A file has one stage per FROM, in order and indexed consecutively from zero; each stage holds exactly its FROM and the instructions up to the next FROM, in order, and instructions before the first FROM belong to no stage. All ways of iterating or indexing the stages agree, a stage is named by its alias in lower case if it has one, and the position of an argument within a stage is that of its first ARG with exactly that name.",
 ["inputs", "histories"], "all sequences of instructions",
 "Two tests build four stages from one file; files with leading instructions, empty files, FROM-only files and repeated ARGs are not covered.",
 ["src/stage.rs", "src/dockerfile_parser.rs"],
 [("stage construction", "src/stage.rs Stages::new"), ("argument position", "src/stage.rs Stage::arg_index")],
 state=[("stages", "stages built so far", "src/stage.rs Stages")],
 observe=["Stages", "Dockerfile::iter_stages", "Stage.instructions", "Stage::arg_index"])
prop("C17", "Stage parents, roots and lookups follow the FROM chain",
 "A stage's parent is the empty image if it is FROM scratch, otherwise the first earlier stage whose alias equals the image ignoring ASCII case, otherwise the external image; a stage never has itself or a later stage as parent. Its root is the external or empty image at the end of the parent chain; lookup by text returns the stage with that index if the text is a number and otherwise the first stage with that alias ignoring case, or nothing.",
 ["inputs", "histories"], "all sequences of FROM instructions with any images and aliases, and all lookup strings",
 "One test has a chain of length two, and compares stages with an equality that only looks at the index, so parent and root are not actually asserted by it.",
 ["src/stage.rs"],
 [("parent selection", "src/stage.rs Stages::new"), ("root propagation", "src/stage.rs Stages::new"), ("lookup", "src/stage.rs get, get_by_name")],
 state=[("stages", "earlier stages, searched by alias", "src/stage.rs Stages")],
 observe=["Stage.parent", "Stage.root", "Stages::get", "Stages::get_by_name"])
prop("C18", "Any order of splices equals replacing all spans at once",
 "After any sequence of replacements of spans of the original text that are pairwise disjoint, repeated, or enclosed by a span replaced later, the splicer's content is the original text with every span replaced by its last replacement and every other character unchanged, whatever the order of the calls and the lengths of the replacements, including deletions, insertions at a position and multi-byte text. Of several texts inserted at one position all are kept, each before or after those already there.",
 ["histories", "inputs"], "all sequences of splice calls with such spans on all texts",
 "The only splicer test in the suite is a doc example with a single splice.",
 ["src/splicer.rs"],
 [("offset adjustment", "src/splicer.rs Span::adjust_offsets"), ("buffer rebuild", "src/splicer.rs Splicer::splice")],
 state=[("splice_offsets", "spans already replaced and the length change of each", "src/splicer.rs Splicer"), ("content", "current text", "src/splicer.rs Splicer")],
 observe=["Splicer.content"])
prop("C19", "Editing reported spans changes those parts and nothing else",
 "Replacing any set of reported part spans of a parsed file (images, aliases, flag names and values, argument, variable and label names and values, paths, exec strings, shell text pieces, miscellaneous keywords), in any order, by other text valid for that part, and parsing the result, gives the same instructions with exactly those parts changed; all bytes outside the replaced spans are unchanged.",
 ["inputs", "histories"], "all parsed files, all subsets of their parts, all orders of replacement",
 "No test splices a file and parses the result; the guarantee couples the grammar, the spans of every instruction type and the splicer.",
 ["src/splicer.rs", "src/instructions/from.rs", "src/instructions/env.rs", "src/instructions/label.rs", "src/instructions/copy.rs", "src/util.rs", G],
 [("spans relative to the original text", "src/splicer.rs Splicer::splice"), ("spans of parts", "src/instructions/*.rs")],
 observe=["Dockerfile::splicer", "Splicer.content", "Dockerfile::parse of it"])
prop("C20", "Line-relative positions are exact",
 "For any span of a file, its line number is the number of line feeds before its start, its relative start is the number of bytes between the start of that line and the span, and its relative length equals its length, also when the span starts at a line break or the end of the file, crosses lines, or follows multi-byte characters.",
 ["inputs"], "all texts and all spans within them",
 "One test checks four spans in one ASCII file.",
 ["src/splicer.rs"],
 [("line scan", "src/splicer.rs Span::relative_span")],
 observe=["Span::relative_span"])
prop("C21", "Reading from a stream equals parsing the whole text",
 "Reading a file from any byte source gives the same result as parsing the complete text, however the source splits it into reads (including in the middle of a character), however often a read is interrupted, and however long the text is. If the source fails, or its bytes are not UTF-8, the result is a read error carrying the cause, never a partial file and never a panic; the textual conversion agrees with parsing too.",
 ["fault_sequences", "inputs"], "all texts, all ways of splitting them into reads, all positions and kinds of failures",
 "One doc example reads a three-line file from a slice in a single read.",
 ["src/dockerfile_parser.rs", "src/error.rs"],
 [("buffered read to string", "src/dockerfile_parser.rs Dockerfile::from_reader"), ("FromStr", "src/dockerfile_parser.rs impl FromStr")],
 observe=["Dockerfile::from_reader", "str::parse", "Error::ReadError"])
prop("C22", "Typed access to instructions, expressions and strings is consistent",
 "For every instruction exactly one typed accessor, the one of its kind, gives it, and the borrowed, owned, conversion-trait and span accessors agree on it while all others refuse it with an error; wrapping a typed instruction and unwrapping it again gives the same value. Shell and exec accessors on RUN, CMD, ENTRYPOINT and expressions likewise agree with the form actually held, string lists and printed strings expose exactly the held values in order, and strings assembled piece by piece hold exactly the pieces given.",
 ["inputs"], "all instructions of all kinds crossed with all accessors",
 "Tests call a handful of accessors on the matching kind only; the refusing side and most conversions are never called.",
 ["src/dockerfile_parser.rs", "src/util.rs", "src/instructions/run.rs", "src/instructions/cmd.rs", "src/instructions/entrypoint.rs", "src/instructions/misc.rs"],
 [("accessors and conversions", "src/dockerfile_parser.rs impl Instruction, impl_from_instruction!"), ("TryFrom impls", "src/instructions/*.rs"), ("expression accessors", "src/util.rs ShellOrExecExpr")],
 observe=["Instruction::as_*", "Instruction::into_*", "TryFrom", "From", "Instruction::span", "BreakableString builders"])
prop("C23", "Results do not depend on what was called before or on other threads",
 "The result of every library call depends only on its arguments: after any sequence of earlier calls, successful or failing, in the same or another thread, parsing, resolving, substituting, staging, splicing and line lookup give the same results as in a fresh process, and none of them alters the values it is given. Parsing the same text twice gives equal results.",
 ["histories", "schedules"], "all finite sequences of calls, distributed over threads in any way",
 "Every test makes its calls once, in a fresh state; state left behind by a previous call is by definition only visible in sequences.",
 ["src/image.rs", "src/instructions/from.rs", "src/util.rs", "src/dockerfile_parser.rs", "src/parser.rs"],
 [("lazily initialised regular expressions are the only shared state", "src/image.rs substitute, src/instructions/from.rs HEX, src/util.rs clean_escaped_breaks")],
 state=[("VAR, HEX, ESCAPED_BREAK", "compiled regular expressions", "lazy_static items")],
 observe=["all public functions"])
prop("C24", "Quoted strings decode alike and exactly wherever they are allowed",
 "A single- or double-quoted string used as an ARG value, an ENV value in either form, a LABEL name or value in either form, or an exec-form element decodes to its inner characters with each escape (\\\\ \\\" \\' \\` \\a \\b \\f \\n \\r \\t \\v, octal, \\x, \\u, \\U) replaced by the character it names, and to the same value in all of these places. An unknown or incomplete escape, or an escape naming no character, makes the file an error; only in LABEL may a backslash precede a line break.",
 ["inputs"], "all quoted strings, both quote characters, in every position that admits one",
 "Tests contain two escapes (\\\" and \\n) and one escaped quote per quote style.",
 ["src/util.rs", "src/instructions/env.rs", "src/instructions/label.rs", "src/instructions/arg.rs", G],
 [("string rules", "src/dockerfile_parser.pest string, inner, escape"), ("unquoting", "src/util.rs parse_string, src/instructions/{env,label}.rs")],
 observe=["ArgInstruction.value", "EnvVar.value", "Label", "StringArray.elements"])
prop("C25", "Exactly the documented dialect is accepted",
 "A text is accepted exactly if it is a sequence of lines each of which is blank, a comment, or one complete instruction of the documented dialect (known instructions with well-formed arguments, or an alphabetic keyword with arguments) with nothing but blanks around it, and the parsed instructions are those the dialect's grammar assigns to it; everything else is an error. In particular a keyword without arguments, text left over after a complete instruction, and characters outside an item's alphabet never vanish silently.",
 ["inputs"], "all texts",
 "Tests assert rejection for ten literal inputs; silent acceptance or silent loss of a malformed remainder can occur at any character of any instruction.",
 [G, "src/dockerfile_parser.rs", "src/instructions/mod.rs"],
 [("grammar anchored at both ends", "src/dockerfile_parser.pest dockerfile"), ("unexpected tokens are errors", "src/error.rs unexpected_token")],
 observe=["Dockerfile::parse Ok/Err"])
prop("C26", "Syntax errors point at the offending instruction",
 "When a file whose other lines are complete instructions contains one malformed instruction, the syntax error's reported line is a line of that instruction, its position lies inside the text, and its line, column and byte position agree with one another; the error's printed message contains that line number. An invalid digest and an invalid escape are reported as such rather than as a syntax error.",
 ["inputs"], "all positions of all kinds of malformed instruction among all kinds of well-formed neighbours",
 "No test looks at the position or message of any error.",
 ["src/error.rs", "src/dockerfile_parser.rs", G],
 [("error wrapping", "src/error.rs Error::ParseError"), ("furthest-failure position from the parse", "src/dockerfile_parser.rs parse_dockerfile")],
 observe=["Error", "Error::to_string"])
prop("C27", "Argument separators are interchangeable",
 "Between the keyword and the arguments, and between the arguments, of FROM, ARG, COPY, ENV and LABEL instructions, and around the elements of exec-form lists, any mix of spaces, tabs and line continuations, each continuation followed by any number of comment and blank lines, means the same as a single space: the instruction is accepted alike and has the same values.",
 ["inputs"], "all instructions with several arguments and all combinations of separators at every gap",
 "Tests try about six layouts; CRLF or tab continuations and comments or blank lines before the first argument are not tried for most instructions.",
 [G, "src/instructions/copy.rs", "src/instructions/from.rs", "src/instructions/label.rs", "src/instructions/env.rs", "src/instructions/arg.rs", "src/instructions/run.rs", "src/util.rs"],
 [("separator rules", "src/dockerfile_parser.pest arg_ws"), ("comment tokens skipped", "from_record of each instruction")],
 observe=["Dockerfile.instructions without spans"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
import re
for p in P:
    assert len(p["title"]) <= 80, p["id"]
print(len(P), "properties")

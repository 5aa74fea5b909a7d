#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

LEX, PARSE, COMP = "src/compile/lex.rs", "src/compile/parse.rs", "src/compile/mod.rs"
SEARCH = "src/compile/search/ahocorasick/build.rs"
CORE, STACK, ITER, RVAL = "src/render/core.rs", "src/render/stack.rs", "src/render/iter.rs", "src/render/value.rs"
RMOD, ERR, FMT, LIB = "src/render/mod.rs", "src/error.rs", "src/fmt.rs", "src/lib.rs"

p("C01", "Compiling any text is total",
  "For every UTF-8 text and every delimiter configuration, compiling finishes and returns either a template or a syntax error; it never panics, aborts or loops forever. The template gives back exactly the text it was compiled from, and a returned error can be displayed in every format without panicking. The same text under the same configuration always gives the same outcome.",
  ["inputs", "configurations"], "all strings (well-formed, mutated and arbitrary Unicode) times all delimiter configurations",
  "Every existing compile test feeds one hand-written string under the default delimiters; totality is a claim about all strings and all delimiter sets, and several inputs the tests never sample did panic.",
  [LEX, PARSE, COMP, SEARCH, ERR],
  [("every lexer state returns a token or an error for any character", LEX), ("parser asserts and unwraps guarded by token expectations", PARSE), ("error location rendering slices the source", ERR)],
  ["Engine::compile", "Engine::add_template", "Display and Debug of Error"])

p("C02", "Exactly the documented template grammar is accepted",
  "A text compiles successfully if and only if it is a sentence of the documented template grammar: tags opened and closed by matching delimiters, well-formed expressions, filters, arguments and literals, and properly nested and matched if/else/for/with blocks and includes. Anything else is rejected with a syntax error, whatever whitespace is used inside the tags.",
  ["inputs", "configurations"], "all texts built from the grammar and all their token-level and character-level mutations, under any delimiters",
  "Tests list around a hundred accepted and rejected strings; acceptance is a language-equality statement over an infinite language whose interesting members are combinations (nesting, optional parts, adjacency of tokens).",
  [LEX, PARSE], [("block stack and scope stack", PARSE), ("lexer state deciding number versus index", LEX)],
  ["Ok or syntax error from Engine::compile"])

p("C03", "Rendering any compiled template is total",
  "For every template that compiled, every set of included templates, every value used as context and every registered filter and formatter, rendering finishes and returns either the output or an error of the render, filter, format or io kind; it never panics, aborts or hangs. Every such error can be displayed in every format.",
  ["inputs", "configurations", "programs"], "all well-formed templates, include graphs (cycles included), contexts of arbitrary shape including empty, deep, huge and non-map ones",
  "Tests render small fixed templates with matching data; mismatches between template shape and data shape, template pairs with different texts and extreme values multiply without bound.",
  [CORE, STACK, ITER, RVAL, ERR], [("scope stack pushes and pops paired by program structure", CORE), ("source spans resolved against the executing template", STACK)],
  ["Renderer::to_string", "Renderer::to_writer", "Display and Debug of Error"])

p("C04", "Literal text is reproduced verbatim and comments vanish",
  "Text outside tags appears in the output exactly, byte for byte and in order, and each comment contributes nothing, however the text resembles delimiters, whatever characters or line endings it contains and however tags adjoin. Tags are recognised at the leftmost position with the longest possible delimiter, and a template consisting only of text and comments renders to that text for every context.",
  ["inputs"], "all sequences of text fragments (including partial delimiters, Unicode, CR/LF, the empty text), comments and simple tags",
  "Tests contain a few ASCII fragments around one tag; verbatim reproduction must hold for every fragment next to every tag, in particular those sharing prefixes with delimiters.",
  [LEX, SEARCH, CORE], [("multi-pattern search with leftmost-longest match", SEARCH), ("raw token emission", LEX)],
  ["Renderer::to_string"])

p("C05", "Literals denote the values they spell",
  "Every boolean, integer (decimal, binary, octal, hexadecimal, signed, underscore-separated), float and string literal evaluates to exactly the value it spells, including the full 64-bit signed range and all documented escapes, wherever a literal may appear. An integer literal with a radix prefix that is out of range or has an invalid digit, a malformed number and an unknown escape are rejected when compiling, never silently changed.",
  ["inputs"], "all literal spellings in every position (emitted, filter argument, condition, with binding, include context)",
  "Tests spell out a few dozen literals; the claim ranges over 2^64 integers in four radixes, all floats and all strings with escapes.",
  [PARSE, LEX], [("checked radix fold with sign", PARSE), ("escape decoding and string end detection", LEX)],
  ["value received by a filter", "rendered output", "syntax error"])

p("C06", "Paths resolve by plain indexing of the data",
  "A path evaluates to the value obtained by following its keys through maps and its indices through lists from the named variable. A missing key or index after a dot is a render error, after the optional operator it makes the whole expression none, and accessing a value that is neither a map by key nor a list by index is a render error. Nothing else, in particular the order or size of the containers or where the variable is bound, affects the result.",
  ["inputs"], "all values times all paths over them (present, missing, out of range, wrong type, optional and direct at each step) for globals and for with- and loop-bound variables",
  "Tests use fixed two-level data; the combinations of container kinds, depth, operator and failing position at each kind of binding are unbounded, and one such combination (optional access on a loop variable) was broken.",
  [RVAL, STACK, ITER], [("member lookup", RVAL), ("loop variable lookup", ITER)],
  ["Renderer::to_string output or render error"])

p("C07", "Conditionals render exactly the branch selected by truthiness",
  "In every if / else if / else chain exactly the first branch whose condition holds is rendered (the else branch if none does, nothing if there is no else), conditions after it are not evaluated, and not inverts a condition. A condition is false exactly for none, false, integer zero, float zero, and the empty string, list or map.",
  ["inputs", "programs"], "all chains of any length and nesting, over values of every type including negative zero, NaN and nested empties, with conditions being paths, literals or filtered expressions",
  "Tests check short chains with one condition each; the branch selection for every chain shape, nesting and truth assignment is combinatorial.",
  [PARSE, COMP, CORE, RVAL], [("desugaring of else-if", PARSE), ("jump patching", COMP), ("truthiness", RVAL)],
  ["Renderer::to_string output"])

p("C08", "Loops visit every item once, in order, with exact loop metadata",
  "A for block renders its body once per item, lists in list order with one variable and maps in ascending key order with a key and a value variable, binding each item exactly, and not at all for an empty sequence. During iteration i of n, loop.index is i, loop.first holds iff i is 0 and loop.last iff i is n-1, always of the innermost loop. Looping over anything else, or with the wrong number of variables, is a render error.",
  ["inputs", "programs"], "all lists and maps of any size and content, borrowed from the context or produced by filters, nested loops of any depth",
  "Tests loop over two or three fixed items; the claim is for every length, key set, nesting and origin of the sequence.",
  [ITER, CORE, COMP], [("iterator state for borrowed and owned sequences", ITER), ("loop instructions", COMP)],
  ["Renderer::to_string output"])

p("C09", "Variables are lexically scoped with innermost shadowing",
  "A name always refers to the innermost enclosing with or for binding of that name, otherwise to the global context, and a binding is visible exactly inside its block, in both branches and in plainly included templates, and nowhere after it. Using a name that is bound nowhere is a render error, and evaluating a binding happens once, before its body, in the outer scope.",
  ["programs", "inputs"], "all nestings of with, for, if and include with colliding and distinct names",
  "Tests shadow one name once; correct scoping is a property of every nesting and name collision, across templates with different texts, and cross-template lookups were broken.",
  [STACK, ITER, CORE], [("scope stack searched innermost first", STACK), ("paired push and pop instructions", COMP)],
  ["Renderer::to_string output or render error"])

p("C10", "Includes compose templates with the right context",
  "A plain include renders as the included template evaluated with every variable visible at that point, and leaves the including template's variables unchanged. An include with an expression renders as the included template with that value as its entire global context and no access to the outer variables. The template is found by exact name at render time, in the engine or by the renderer's own lookup function if one is given, and a name that is not found is a render error.",
  ["programs", "inputs", "configurations"], "all include graphs with arguments of any type, inside any nesting of loops, withs and conditionals, with engine or custom lookup",
  "Tests include one fixed template once; isolation and restoration must hold for all graphs and all enclosing scopes.",
  [CORE, STACK], [("template stack and scope boundary", CORE), ("boundary stops the search", STACK)],
  ["Renderer::to_string output or render error"])

p("C11", "Include depth is bounded exactly by the configured maximum",
  "Rendering fails with a maximum include depth error exactly when the stack of templates being rendered, the root included, would exceed the maximum, which is the renderer's setting if given, else the engine's, else 64. Any include tree that stays within the maximum renders completely, however many includes it performs in sequence, and an include cycle always terminates with that error.",
  ["programs", "configurations", "histories"], "all chains, cycles and trees of includes (plain and with a context) and all limits",
  "Tests run one self-cycle at two limits; the exact boundary, sequential includes, mixed include kinds and conditional recursion are never sampled.",
  [CORE, LIB, RMOD], [("depth check on the template stack", CORE)],
  ["error kind and message naming the limit, or complete output"])

p("C12", "Trim markers remove exactly the adjacent whitespace",
  "A hyphen at the inner side of a tag's delimiter removes all whitespace of the literal text directly adjacent to that tag on that side, up to the next non-whitespace character or tag, and nothing else. Tags without a hyphen, whitespace inside string literals or values, and text on the other side are unaffected, for expression, block and comment tags alike.",
  ["inputs", "configurations"], "all arrangements of tags with and without markers and whitespace runs, including adjacent tags, whitespace-only text and Unicode whitespace",
  "Tests trim single fixed gaps; the interaction of both markers around one gap, of adjacent tags and of comment tags is combinatorial.",
  [LEX], [("left trim flag and right trim on raw tokens", LEX)],
  ["Renderer::to_string output"])

p("C13", "Filter chains apply left to right with the written arguments",
  "An expression with filters evaluates to the nested application of the named functions in the order written, each called exactly once per evaluation with the previous result and its arguments evaluated in the scope of the expression, in order. An unknown name, a formatter anywhere but last in an emitted expression, or a wrong number of arguments is a render error, and an error returned by a filter is a filter error carrying that message. Evaluation stops at the first error.",
  ["programs", "inputs", "histories"], "all chains of registered functions of every arity with literal and variable arguments in every position an expression may take",
  "Tests apply one or two fixed filters; order, argument evaluation, call counts and error precedence need arbitrary chains and a recorded call history.",
  [CORE, COMP, PARSE, "src/filters/mod.rs"], [("apply instructions", COMP), ("arity check and argument lookup", "src/filters/mod.rs")],
  ["calls recorded by the filters", "output or error"])

p("C14", "Filter arguments convert by type without loss, or fail",
  "A filter parameter receives the template value unchanged if the value's type matches the declared parameter type, an integer only if it fits the declared width, a float as that float; otherwise rendering fails with a render error. This holds for every combination of owned and borrowed parameter types and every arity, each parameter receiving its own argument, and the value a filter returns becomes the value of the expression by the documented conversions.",
  ["inputs", "programs"], "all values times all supported parameter types in all supported positions and combinations (every generated implementation), literal and variable arguments",
  "Tests declare a handful of filter signatures with one value each; there are 155 generated signatures and range checks for twelve integer types.",
  ["src/filters/args.rs", "src/filters/impls.rs", "src/filters/mod.rs"], [("conversion of arguments", "src/filters/args.rs"), ("generated implementations", "src/filters/impls.rs")],
  ["values received by filters", "output or render error"])

p("C15", "Emission goes through exactly the selected formatter",
  "An emitted expression ending in a formatter name is written by that formatter, every other emitted expression by the engine's default formatter, exactly once per emission and with exactly the evaluated value. The built-in default writes nothing for none and the plain textual form of booleans, integers, floats and strings, and fails with a format error for lists and maps; a formatter's failure becomes a format error carrying its message. Literal text never passes through a formatter.",
  ["inputs", "configurations", "programs"], "all values times default, custom default and named formatters, at any place in a template",
  "Tests format one value of each type; textual fidelity is a claim over all integers, floats and strings, and the routing over all templates.",
  [CORE, FMT], [("emit instructions", CORE), ("default formatter", FMT)],
  ["output, recorded formatter calls, format error"])

p("C16", "All ways to render agree, and writer faults surface",
  "Rendering the same template with the same data gives the same output or the same error whether it was compiled directly or registered, given as serializable data, as a value or through a value function, and written to a string or to a writer. A writer receives exactly the bytes of the string output, however short its writes are and when they are interrupted; when it fails at any byte, rendering returns an io error with the writer's error as its source, and the bytes accepted before are a prefix of the output.",
  ["inputs", "fault_sequences", "configurations"], "all templates and contexts times all entry points times all writer fault positions and kinds",
  "Tests compare one template on one entry point and one always-failing writer; agreement and the prefix property need every fault position on every output.",
  [RMOD, FMT, LIB], [("writer adapter remembering the io error", FMT), ("entry points", LIB)],
  ["Renderer::to_string", "Renderer::to_writer", "Error::source"])

p("C17", "Converting data to values is faithful",
  "Converting any serializable data yields the value that mirrors it: integers, floats, booleans, strings and characters keep their value, options and units become the content or none, sequences, tuples and bytes become lists in order, structs and maps become maps with their string keys (the last of two equal keys counts), and enum variants become their name or a map from name to content. Data that cannot be represented (integers outside the signed 64-bit range, 128-bit integers, map keys other than strings, characters, unit variants and integers, which become their text) is reported as a serialize error, never silently changed; the direct conversions from Rust types agree, and converting a value gives the same value.",
  ["inputs"], "all data of the serde data model, nested to any depth",
  "Tests convert one example per serde type; faithfulness ranges over all nestings and all numeric boundary values.",
  ["src/value/ser/mod.rs", "src/value/ser/map.rs", "src/value/ser/list.rs", "src/value/ser/variants.rs", "src/value/from.rs"],
  [("serializer implementation", "src/value/ser/mod.rs"), ("From conversions", "src/value/from.rs")],
  ["upon::to_value", "Value::from", "Serialize for Value"])

p("C18", "The engine is an exact registry at every point of its history",
  "After any sequence of adding, replacing and removing templates, filters and formatters, the engine answers lookups and renders exactly as the latest registration of each name dictates: adding replaces and reports the kind of function replaced, removing reports what was removed, filters and formatters share one namespace and templates have their own. Adding a template that does not compile fails without changing the engine, and functions and templates are resolved when rendering, so templates compiled before a change see it.",
  ["histories"], "all operation sequences over names and sources, interleaved with renders",
  "Tests perform one or two registrations in a fixed order; the claim is over all histories and needs a model of the registry.",
  [LIB, CORE], [("name maps of the engine", LIB), ("late binding at render", CORE)],
  ["return values of the engine's methods", "rendered outputs"])

p("C19", "Errors name the template and point at the offending source",
  "A compile error, and a render error caused by an expression, argument, filter name, include name or loop header, shows the name of the template whose text contains the cause (or an anonymous marker for unnamed ones), its one-based line, its one-based column measured in displayed characters, the full text of that line and an underline exactly covering the offending part. This holds for every text, including multi-byte characters, tabs and any line endings, and for errors inside included templates; messages supplied by user functions are shown verbatim.",
  ["inputs", "programs"], "all failing templates, with the failing part at any position, in any line, behind any characters, in any included template",
  "Existing snapshot tests place errors on short ASCII lines only; locations were wrong after any tab, CR or non-ASCII character and after signs.",
  [ERR, LEX, PARSE, CORE, STACK], [("location computation from byte offsets", ERR), ("spans carried by tokens and instructions", PARSE)],
  ["alternate Display of Error"])

p("C20", "Cargo features do not change the meaning of templates",
  "A template and context that only use what a feature set offers give the same output, or the same kind of error, under every combination of the crate's features. Disabling a feature only removes its API or its syntax's availability: without filters, using one is an error; without unicode, identifiers are restricted to ASCII; without serde, contexts are built as values.",
  ["configurations", "inputs"], "all 8 feature combinations times generated templates and contexts",
  "The test suite is run with default features only and different code is compiled under each combination.",
  ["Cargo.toml", CORE, LEX, ERR, LIB], [("cfg-gated code", CORE)],
  ["outputs of probe programs built under each combination"])

p("C21", "Value functions receive exactly the written path",
  "When rendering from a value function, every variable that is not bound by an enclosing with or loop causes exactly one call with precisely the written path: every segment in order, keys and indices as written, each marked direct or optional. The returned value is used as is, an error it returns becomes a render error with its message, and bound variables and constant expressions never call it.",
  ["inputs", "histories", "programs"], "all templates and paths, with functions that answer or fail at any call",
  "Tests make two or three calls with fixed paths; the call history must match for every template, loop count, branch and include.",
  [STACK, LIB, RMOD], [("value function frame at the bottom of the stack", STACK)],
  ["recorded calls", "output or error"])

p("C22", "Rendering is pure and repeatable, also concurrently",
  "Rendering changes neither the engine, the templates nor the context: rendering the same template with the same data again, after or between any other successful or failing renders, or from many threads at once, gives the same output or the same error. Renders share nothing observable.",
  ["histories", "schedules"], "all interleavings of renders of several templates, including failing ones, sequentially and on concurrent threads",
  "Each test renders once from one thread; repeatability is over histories and schedules.",
  [CORE, RMOD, LIB], [("per-render scope stack, shared references only", RMOD)],
  ["outputs of repeated and concurrent renders", "debug form of the context before and after"])

p("C23", "The value macro builds exactly the written value",
  "A value written with the macro (nested lists and maps with identifier keys, interpolated expressions, none, booleans, numbers and strings, with or without trailing commas) equals the value built by hand from the same parts; of two equal keys in a map the last counts. Each interpolated expression is evaluated once, and an expression that cannot be converted panics rather than yielding another value.",
  ["programs", "inputs"], "all macro invocations of bounded size, generated as Rust programs",
  "Tests contain about ten invocations; the macro is a token-level grammar whose cases combine freely.",
  ["src/macros.rs"], [("token muncher rules", "src/macros.rs")],
  ["values of generated programs"])

p("C24", "Rendering obeys the algebra of templates",
  "Rendering the concatenation of two separately valid templates gives the concatenation of their outputs; a not-conditional equals the conditional with branches swapped; a loop over a list equals its body rendered with each element bound in turn; a with block equals substituting the expression; wrapping in a true conditional, inserting a comment, moving a fragment to an included template or writing the tags under other delimiters changes nothing.",
  ["programs", "inputs"], "all templates generated from the grammar and all applications of the listed rewritings at any position",
  "These are relations between pairs of programs; example tests fix single programs and never relate two.",
  [PARSE, COMP, CORE, STACK], [("structural compilation", COMP), ("scope stack", STACK)],
  ["equality of outputs or of failure"])

p("C25", "Delimiters are freely configurable",
  "For any set of distinct delimiters, a template written with them behaves exactly like the same template written with the default ones, also when delimiters are prefixes or parts of each other, share characters or contain non-ASCII characters; the longest matching delimiter at the leftmost position wins. The text of delimiters that are not configured, including the default ones under a custom configuration, is ordinary literal text.",
  ["configurations", "inputs"], "all configurations of up to three delimiter pairs with distinct, overlapping spellings times templates written with them",
  "Tests try three fixed configurations on one line each; correctness of the multi-pattern automaton is a claim over all pattern sets and texts.",
  ["src/types/syntax.rs", "src/syntax.rs", SEARCH, "src/compile/search/ahocorasick/mod.rs", LEX], [("automaton construction with failure links", SEARCH)],
  ["Renderer::to_string output, Ok or syntax error"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))

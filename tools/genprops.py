#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("C01","Every placeholder denotes the argument its own fragment supplied",
 "In every query that sqlf builds without error, in either placeholder style, substituting the returned arguments for the placeholders (k-th `?` takes the k-th argument, `$n` takes the n-th) gives exactly the text obtained by putting, at each reference, the argument that the fragment containing the reference supplied for it. No argument is ever bound to another fragment's reference, however fragments are nested, joined, repeated or shared.",
 ["inputs","programs"],"All fragment trees (nesting, #f/#arg/#join/$n/? references in any order and multiplicity), all argument values, both output styles.",
 "The tests fix about 15 trees with hand-written arguments; renumbering depends on the whole tree shape and on which arguments happen to be equal, a product space tests only sample.",
 ["build.go","context_args.go","properties.go","property.go","func_builtin.go","contex_with.go","syntax/parser.go"],
 [("argument stores assign placeholders at commit","context_args.go:CommitArg"),("bind var evaluation","build.go:buildClause"),("per-fragment property lists","context_fragment.go:newFragmentContext")],
 ["Fragment.BuildQuery","Fragment.BuildFragment + Context.Args"],
 [dict(name="argStore",meaning="arguments committed so far and, for $, value -> number",where="context_args.go")])

p("C02","Argument list is exact: no stray, missing, wrongly merged or split argument",
 "With `?` output the number of returned arguments equals the number of placeholders in the query. With `$` output the placeholder numbers first appear in the order 1,2,3..., every returned argument is referenced at least once, two uses get the same number exactly when their values are equal under Go `==` with identical types, and values that cannot be compared are each passed through as their own argument.",
 ["inputs","programs"],"All argument lists (mixed dynamic types, equal/unequal, nil, unhashable) and all reference patterns including #join templates over lists of different lengths.",
 "Deduplication is a relation over pairs of values of arbitrary dynamic types; tests contain one dedup case with small ints and no unhashable value.",
 ["context_args.go","func_builtin.go","properties.go","property.go"],
 [("dict lookup","context_args.go:dollarArgStore.CommitArg"),("append only store","context_args.go:questionArgStore.CommitArg"),("join iteration end","func_builtin.go:funcJoin")],
 ["Fragment.BuildQuery result args","Context.Args","Context.CommitArg"])

p("C03","Literal SQL text is reproduced byte for byte",
 "Whatever part of a fragment's raw text is not a placeholder or a preprocessing call appears in the built text unchanged and in order, byte for byte, whatever the bytes are (control characters including NUL, multi-byte or invalid UTF-8, doubled `$$` and `??`), except that surrounding white space of a fragment's result is trimmed. Text inside '...', \"...\" or `...` quotes (with '' as an escaped quote in single quotes) is literal: nothing in it is treated as a placeholder or a call.",
 ["inputs"],"All raw strings up to the bound, as arbitrary bytes, alone and embedded between references.",
 "A scanner bug shows only on particular byte sequences (quote next to escape, doubled marker at the end, NUL, broken UTF-8); tests contain a dozen fixed strings.",
 ["syntax/lexer.go","syntax/scanner.go","syntax/parser.go","build.go"],
 [("plain/quoted scanning","syntax/scanner.go:scanPlain, scanQuotedPlain"),("rune decoding and widths","syntax/lexer.go:Next, Peek"),("plain emission","build.go:buildClause")],
 ["syntax.Parse","Fragment.BuildQuery"])

p("C04","Placeholders and calls are recognised and decoded exactly",
 "Outside quotes, `?` not doubled and not followed by a digit is the next positional reference; `$` not doubled followed by a decimal number without leading zero is a reference to that index; `#name`, `#nameN` and `#name(args)` (name of ASCII letters and underscores) are a function value, a call with the single number N, and a call whose arguments are exactly the listed numbers, true/false, nil/null and '...' strings with '' decoded to one quote. Every other use of `$`, `?` or `#` outside quotes, an unterminated argument list or quoted argument, and an argument of any other form is a syntax error, never silently reinterpreted.",
 ["inputs"],"All raw strings up to the bound; argument lists with symbolic numbers, strings, separators and white space.",
 "Parser tests compare 7 inputs and ignore the error flag they declare; the grammar is a property of all strings.",
 ["syntax/scanner.go","syntax/parser.go","syntax/lexer.go"],
 [("token scanning","syntax/scanner.go:scanRef, scanIndex, scanFunc*"),("expression parsing","syntax/parser.go:bindVarExpr, funcExpr")],
 ["syntax.Parse result ExprList and error"])

p("C05","Parsed expressions carry the line and column where they start",
 "Every expression returned by a successful parse reports as its position the 1-based line and the column, counted in characters, of the first character of the text it stands for, where a newline starts a new line. Positions are therefore non-decreasing in order of appearance, and they are right after multi-byte characters, quoted text and newlines.",
 ["inputs"],"All raw strings up to the bound including newlines and multi-byte characters.",
 "Tests check columns of two single-line ASCII inputs; positions after newlines, quotes or multi-byte runes are never exercised.",
 ["syntax/lexer.go","syntax/scanner.go","syntax/pos.go","syntax/parser.go"],
 [("position bookkeeping","syntax/lexer.go:Next, StartToken"),("node construction","syntax/parser.go")],
 ["syntax.Expr.Pos()"])

p("C06","Mixing $n and ? in one fragment is always rejected",
 "A raw text or #join template that contains both an indexed (`$n`) and a positional (`?`) reference outside quotes fails to build, whichever comes first and whatever lies between them. A text that uses only one of the two styles is never rejected for mixing, and different fragments of one query may use different styles.",
 ["inputs"],"All raw texts up to the bound with references of both kinds in any order and number.",
 "The test for `$1,?` declares an error but the test code never checks it, and no other order or distance is tried.",
 ["syntax/parser.go","syntax/nodes.go"],
 [("style tracking","syntax/parser.go:bindVarExpr")],["syntax.Parse","Fragment.BuildQuery"])

p("C07","Dangling references and unused arguments or fragments are errors",
 "Building a fragment fails if any $n, ?, #argN or #fN reference in it is outside the range of that fragment's own arguments or fragments, and it fails if any of the fragment's arguments or fragments is not referenced by it. If all references are in range and everything is referenced it does not fail for that reason; this holds for the root and for every nested fragment that is built, on every build.",
 ["inputs","programs"],"All counts of arguments and fragments, all reference multisets (any index value including 0, huge and overflowing), at any nesting depth, on first and later builds.",
 "Range and usage are relations between counts and index sets; no existing test exercises an unused or an out-of-range reference.",
 ["build.go","properties.go","property.go","context_fragment.go","func_builtin.go","syntax/parser.go"],
 [("index checks","build.go:buildClause, properties.go:Build"),("usage check","context_fragment.go:checkUsage")],
 ["Fragment.BuildQuery error","Fragment.BuildFragment error"],
 [dict(name="used",meaning="property was referenced in this build",where="property.go")])

p("C08","Building never panics and always terminates",
 "For every raw text, every argument (including nil and uncomparable values), every list of fragments (including nil ones, but not containing the fragment itself), every prefix and suffix and both styles, building a fragment returns either a query or an error: it does not panic and does not loop. Parsing any string likewise returns.",
 ["inputs"],"All raw strings up to the bound, argument kinds incl. slices/maps/nil, typed and untyped nil fragments, all call argument types for built-in functions.",
 "Panics and hangs need specific token sequences or argument kinds (e.g. a number where a template string is expected); tests use only well-formed inputs.",
 ["build.go","func_exec.go","func_builtin.go","context_args.go","syntax/scanner.go","syntax/parser.go","syntax/lexer.go"],
 [("panic containment for #func","func_exec.go:safeCall"),("argument conversion","func_exec.go:evalArg"),("scanner progress","syntax/scanner.go")],
 ["syntax.Parse","Fragment.BuildQuery","Fragment.BuildFragment"])

p("C09","#join expands its template over exactly the requested range",
 "#join(template, sep[, from[, to]]) evaluates the template once for each index from `from` (default 1) up to `to` (default: until an index is out of range for a function of the template), in ascending order, with every function in the template applied to that index and other template text repeated, and joins the non-empty results with sep (no leading, trailing or doubled separator). An explicitly requested `from` or `to` beyond what exists, from > to, a template without function values or with an unknown or join-incompatible function, and a wrong number of arguments are errors; zero or negative bounds mean the default.",
 ["inputs"],"All from/to values, list lengths, templates (text around one or more functions), separators and patterns of empty elements within the bound.",
 "Ranges interact with list length and empty elements; tests cover one from-range and never `to`, empties, or errors.",
 ["func_builtin.go","func.go","properties.go"],
 [("join loop","func_builtin.go:funcJoin"),("join compatibility probe","func.go:joinCompatibility"),("out-of-range signal","properties.go:Build")],
 ["Fragment.BuildQuery"])

p("C10","No failure is swallowed",
 "If building any referenced part fails - a nested fragment at any depth, an element of a #join, a custom function (also one that panics with an error), a user-supplied FragmentBuilder - the whole build fails, the returned error still matches the original error under errors.Is, and BuildQuery returns an empty query and nil arguments. In particular no element is silently left out of the query because something inside it failed.",
 ["inputs","fault_sequences"],"All positions of a failing part in the tree and in #join lists, all failure kinds (custom errors, invalid references, parse errors, ErrInvalidIndex raised inside an element).",
 "No existing test makes a nested part fail; whether a failure escapes depends on position (last element of a join) and on the error kind.",
 ["build.go","func_builtin.go","func_exec.go","errors.go"],
 [("error wrapping","build.go:build, func_exec.go:evalCall"),("join termination on ErrInvalidIndex","func_builtin.go:funcJoin")],
 ["Fragment.BuildQuery results"])

p("C11","Fragments compose: nesting equals textual inclusion of the part's own result",
 "A reference to a fragment is replaced by exactly what that fragment yields on its own: its expanded text with surrounding white space trimmed, preceded by `Prefix ` and followed by ` Suffix` when they are set and the trimmed text is not empty, and nothing at all (no prefix, no suffix) when it is empty. Indexes inside a fragment refer only to that fragment's own arguments and fragments, independent of where and how deep it is used.",
 ["inputs","programs"],"All trees up to the depth bound, all prefixes/suffixes, bodies that are empty or only white space, shared sub-fragments.",
 "Two tests cover prefix/suffix on one shape; compositionality is a statement about all trees.",
 ["build.go","fragment.go","context_fragment.go","contex_with.go","shortcut.go"],
 [("fragment build","build.go:BuildFragment"),("nearest fragment context","context_fragment.go:fragment")],
 ["Fragment.BuildFragment","Fragment.BuildQuery"])

p("C12","Building is a pure, repeatable, concurrency-safe read of fragments",
 "Building does not modify the fragments and arguments it is given nor any state shared between builds: building the same fragment again, in the same or the other style, before or after failed builds or builds of other fragments, gives the same result. Builds running at the same time in different goroutines with their own contexts, even of the same fragment, give the results they give alone and are free of data races.",
 ["inputs","schedules","histories"],"All interleavings of builds over shared fragments (through the set of shared locations a build may write), all histories of up to three builds.",
 "A race or leaked usage mark shows only under particular interleavings or build histories; tests build each fragment once in one goroutine.",
 ["build.go","context.go","context_fragment.go","property.go","func.go","func_builtin.go"],
 [("fresh per-build context and properties","context_fragment.go:newFragmentContext, context.go:NewContext")],
 ["Fragment.BuildQuery called repeatedly / concurrently"])

p("C13","A context accumulates: later builds never disturb earlier ones",
 "Several fragments built into one context share one argument list: arguments already committed keep their position, the placeholders of every text built so far denote the right arguments in the final list, and in `$` style equal values are shared across the builds while `?` style appends in order. Child contexts derived from a context (for functions or nested fragments) commit to the same root list.",
 ["inputs","histories"],"All sequences of up to four builds or direct commits into one context or contexts derived from it, all equalities between their arguments.",
 "Every existing test uses a fresh context for a single build.",
 ["context.go","context_args.go","contex_with.go","context_func.go"],
 [("root argument store","context_args.go:CommitArg via root()")],
 ["Context.Args after each build"],
 [dict(name="args",meaning="committed arguments of the root context",where="context_args.go")])

p("C14","Function registration accepts exactly the documented names and signatures",
 "Adding functions to a context succeeds exactly when every name is non-empty and consists of letters and underscores and every value is a function whose parameters are numbers, strings, booleans (variadic allowed) or a leading *Context, and whose results are none, string, or (string, error); otherwise an error is returned. Which functions end up registered never depends on map iteration order.",
 ["inputs","configurations"],"All names up to the bound (bytes symbolic, ASCII and multi-byte) and all signatures over a universe of parameter and result types up to three parameters and three results.",
 "Signatures and names form a product space; tests register two valid functions and no invalid one.",
 ["func.go","context_func.go"],
 [("name check","func.go:goodName"),("signature check","func.go:goodFunc")],
 ["ContextWithFuncs error"])

p("C15","Custom functions are called with the written arguments; nearest one wins",
 "A call #name(args) invokes the function registered under that name in the nearest enclosing context, with the context of the calling fragment when it asks for one and with the written arguments in order, numbers converted to the parameter's numeric type; its string result becomes the text. A wrong number of arguments, an argument whose kind does not match the parameter, an unknown name, a function named without being called (outside a #join template), an error result or a panic inside the function makes the build fail with an error; adding functions to a derived context never changes the context it was derived from.",
 ["inputs","configurations"],"All argument lists of up to three values of all literal kinds against a universe of signatures (fixed, variadic, with/without context), all definitions/overrides across context levels.",
 "Dispatch and conversion depend on signature x argument kinds; tests call two functions.",
 ["func_exec.go","context_func.go","func.go","contex_with.go"],
 [("lookup through parents","context_func.go:fn"),("arity and conversion","func_exec.go:evalCall, evalArg"),("panic containment","func_exec.go:safeCall")],
 ["Fragment.BuildFragment with ContextWithFuncs"])

p("C16","Fragment setters affect only their own fragment",
 "WithArgs/WithFragments replace and AppendArgs/AppendFragments extend the fragment's list by exactly the given elements in order; WithPrefix/WithSuffix set just that; each returns the same fragment. Appending to one fragment never changes another fragment or a slice the caller passed in, even when they were created from the same slice.",
 ["histories","inputs"],"All sequences of up to four setter calls on two fragments built from one shared slice with any spare capacity.",
 "Aliasing through spare slice capacity needs two fragments created from one slice, which no test does.",
 ["fragment.go","shortcut.go"],
 [("setters","fragment.go"),("constructors","shortcut.go")],["Fragment fields","Fragment.BuildQuery"])

p("C17","The query builder assembles the declared clauses in SQL order",
 "A built query consists, in this order and each only when declared, of the needed CTEs, SELECT [DISTINCT] with the last selected column list, FROM with the main table and the joins in declaration order (re-joining an applied name replaces that join in place), WHERE with all conditions joined by AND, GROUP BY and ORDER BY with all items in call order, LIMIT, OFFSET, and the UNION parts in call order. With DISTINCT every ordering expression is additionally selected under the generated alias by which it is ordered; joined tables, columns and order keywords are rendered exactly as declared.",
 ["histories","inputs"],"All sequences of builder calls up to the bound (any order and repetition of calls, symbolic names, limits and order codes).",
 "The builder is a state machine over call sequences; five fixed call sequences are tested.",
 ["sqlb/query_builder.go","sqlb/query_builder_build.go","sqlb/query_builder_join.go","sqlb/query_builder_order.go","sqlb/query_builder_where.go","sqlb/query_builder_with.go","sqlb/table.go","sqlb/table_aliased.go","sqlb/table_column.go"],
 [("clause assembly","sqlb/query_builder_build.go:buildInternal"),("join replace","sqlb/query_builder_join.go:join")],
 ["sqlb.QueryBuilder.BuildQuery"],
 [dict(name="QueryBuilder fields",meaning="declared clauses",where="sqlb/query_builder.go")])

p("C18","Query-builder arguments match their placeholders in both styles",
 "In every query built by the query builder, the placeholders denote the arguments supplied for the clause they appear in: with `?` output the argument list is in the textual order of the placeholders across CTEs, selected columns, joins, conditions, grouping, ordering, and unions; with `$` output each number denotes its clause's argument. This also holds for a builder used as a sub-query, CTE or union part of another, and for WhereIn/WhereNotIn lists.",
 ["inputs","histories"],"All subsets of clauses carrying arguments, all equalities between arguments, both styles, one level of nesting of builders.",
 "Examples put arguments only into WHERE and CTEs; whether order and text agree depends on which combination of clauses carries arguments.",
 ["sqlb/query_builder_build.go","sqlb/query_builder_where.go","sqlb/query_builder_order.go"],
 [("order in which clauses commit arguments","sqlb/query_builder_build.go:buildInternal")],
 ["sqlb.QueryBuilder.BuildQuery query and args"])

p("C19","Join elimination removes only what the query cannot refer to",
 "A declared join is left out exactly when the query is DISTINCT, the join was declared optional, and its applied name is referenced neither by any selected, condition, grouping or ordering expression nor, transitively, by the ON condition of a join that is kept. A reference to a table that was not declared is an error.",
 ["inputs","programs"],"All reference graphs over up to four tables: optional/mandatory joins, ON conditions and clause references chosen symbolically, DISTINCT or not.",
 "Elimination is a reachability question on a graph; tests have one two-table and one three-table instance.",
 ["sqlb/query_builder_dependecy.go","sqlb/query_builder_build.go","sqlb/query_builder_join.go"],
 [("dependency collection","sqlb/query_builder_dependecy.go:collectDependencies, collectDepsFromTable, extractTables2"),("trimming","sqlb/query_builder_build.go:buildFrom")],
 ["sqlb.QueryBuilder.BuildQuery text and error"])

p("C20","Exactly the needed CTEs are emitted, in declaration order",
 "Among CTEs declared under different names, a declared CTE appears in the query exactly when a table kept in FROM has its name or when another emitted CTE lists it as a dependency (transitively), whatever the aliases; emitted CTEs appear once each, in declaration order, as `name AS (body)`. Cyclic or unknown dependencies do not prevent the build from finishing.",
 ["inputs","programs"],"All dependency graphs over up to four CTEs, all sets of FROM tables with and without aliases, optional joins to CTEs.",
 "Closure over a dependency graph with aliasing; examples contain CTEs without dependencies.",
 ["sqlb/query_builder_dependecy.go","sqlb/query_builder_build.go","sqlb/query_builder_with.go"],
 [("CTE closure","sqlb/query_builder_dependecy.go:collectDepsFromCTE"),("emission","sqlb/query_builder_build.go:buildCTEs")],
 ["sqlb.QueryBuilder.BuildQuery text"])

p("C21","The query builder is total, reports misuse, and is repeatable",
 "For every sequence of builder calls, with nil conditions, nil fragments inside conditions and missing clauses allowed, building returns a query or an error and does not panic. An empty table name, a missing FROM table, no selected columns, an undeclared table or an invalid order makes every build fail with an error, and building the same builder again without further calls gives the same result as the first build, in debug mode too.",
 ["histories","inputs"],"All sequences of up to four builder calls from the whole API with valid and invalid arguments, followed by up to three builds.",
 "Tests build each builder once (or twice without ORDER BY) and never with missing or invalid parts.",
 ["sqlb/query_builder_build.go","sqlb/query_builder_errors.go","sqlb/query_builder_join.go","sqlb/query_builder_order.go","sqlb/query_builder_dependecy.go"],
 [("error collection","sqlb/query_builder_errors.go"),("join with nil ON","sqlb/query_builder_join.go:join")],
 ["sqlb.QueryBuilder.BuildQuery"])

p("C22","ArgsFlatted flattens exactly one level, preserving order and values",
 "ArgsFlatted returns, in order, each non-list argument itself and, for each slice, array or pointer to one, its elements with their dynamic types unchanged and not flattened further; nil lists and empty lists contribute nothing (an untyped nil is itself an argument), and nothing is lost, duplicated or reordered. It never panics and never modifies its inputs.",
 ["inputs"],"All lists of up to four arguments drawn from every supported list type (typed slices, pointers, arrays, named types, nested, nil pointers, scalars) with up to three symbolic elements each.",
 "There are 22 type cases, each its own code path; the test covers five of them.",
 ["util/args.go"],[("type switch and reflection fallback","util/args.go:argsFrom, convertArrayReflect, Ttoa")],["util.ArgsFlatted"])

p("C23","Interpolate substitutes exactly the arguments, quoted so they stay literals",
 "Interpolate copies the query text unchanged and replaces each placeholder by a literal for its argument: a string (or Stringer, or the string a driver.Valuer yields) becomes one single-quoted SQL literal whose decoding is exactly that string, so that no argument can end its literal early; integers become their decimal digits, booleans TRUE/FALSE, nil NULL. A placeholder without an argument, an unsupported argument type, a failing Valuer and a query with preprocessing calls are errors; it never panics.",
 ["inputs"],"All strings up to the bound as arbitrary bytes, integers, booleans, nil, Valuers, all queries up to the bound with both placeholder styles, all argument counts.",
 "Quoting must hold for every string; one example with a plain word is tested.",
 ["util/interpolate.go","syntax/parser.go"],
 [("literal encoding","util/interpolate.go:encodeValue, quoteStringValue"),("substitution","util/interpolate.go:Interpolate")],
 ["util.Interpolate"])

p("C24","Scan returns every row in order or an error, and always releases the rows",
 "Scan and ScanBuilder return one result per row in row order only if the query, every row scan and the row iteration itself succeeded; if any of them fails, at any row, they return that error and no results. Columns beyond the requested destinations are ignored, fewer columns than destinations is an error, and the rows are closed in every case.",
 ["fault_sequences","inputs"],"All numbers of rows and columns up to the bound, a failure injected at the query, at any row scan, or as an iteration error after any row.",
 "Needs a database that fails mid-iteration; the existing examples run no query at all.",
 ["util/scan.go"],[("row loop","util/scan.go:Scan"),("extra columns","util/scan.go:ScanRow")],["util.Scan","util.ScanBuilder","util.ScanRow"])

p("C25","Count and the builder helpers pass query and arguments through unchanged",
 "CountBuilder and ScanBuilder run exactly the query and the arguments the builder produced for the requested style (Count wrapped as SELECT COUNT(1) FROM (query) list) and run nothing when building fails, returning the build error. Count returns the scanned number, 0 when there is no row, and otherwise an error that matches the database error and never panics, whatever the query and arguments.",
 ["inputs","fault_sequences"],"All queries/arguments up to the bound, all outcomes of the database call (value, no row, error).",
 "The existing examples run no query.",
 ["util/scan.go","util/interpolate.go"],[("count","util/scan.go:Count, CountBuilder")],["util.Count","util.CountBuilder","util.ScanBuilder"])

p("C26","Tables and columns render as declared and are attributed to their table",
 "A table renders as its applied name (alias if set, else name); Names are rendered verbatim, whatever characters they have. Column renders `applied.name` (just the name without a table, nothing for an empty name), AnonymousColumn just the name, Columns/AnonymousColumns the same element-wise in order, and WithAlias changes only the alias of the returned copy. Every such column makes the query depend on exactly its own table, and an expression column on exactly the tables of the fragments inside it.",
 ["inputs"],"All table names, aliases and column names of any characters (also those that mean something in the text of a fragment) up to the bound, nested expression columns.",
 "Naming combines three optional parts; tests use non-empty name and alias only.",
 ["sqlb/table.go","sqlb/table_aliased.go","sqlb/table_column.go","sqlb/query_builder_dependecy.go"],
 [("rendering","sqlb/table.go:preBuildColumn, Column"),("attribution","sqlb/query_builder_dependecy.go:extractTables2")],
 ["Column.BuildFragment","Table.BuildFragment","QueryBuilder.BuildQuery"])

p("C27","Interpolated floats and times denote the same value as the argument",
 "A finite floating point argument is interpolated as a decimal number that differs from the argument's value by at most half a unit of the sixth decimal place, with the sign of the argument. A time argument is rendered in quotes in the configured format (RFC 3339 by default), in the time's own zone, and denotes the argument rounded to microseconds, cut to what the format shows; the zero time, in any zone, is '0000-00-00'. Both hold for values of named types and values supplied by a driver.Valuer.",
 ["inputs"],"All float64 values with an arbitrary byte of the mantissa at several places, signs and exponents from 2^-24 to 2^37; all times with an arbitrary second or nanosecond near the boundaries of minutes, days, months and years, in several zones and formats.",
 "Decimal rendering of 2^64 values cannot be sampled; rounding errors show only at specific mantissas, carries only at specific instants.",
 ["util/interpolate.go"],[("%f and time formatting","util/interpolate.go:encodeValue")],["util.Interpolate"])

p("C28","Generated SQL is accepted by the target database",
 "Every query the query builder returns without error is syntactically valid SQL for the database of the chosen placeholder style whenever the user-supplied pieces are.",
 ["inputs","configurations"],"All builder programs and all supported databases.",
 "Needs the grammar of each database, not only of this library.",
 ["sqlb/query_builder_build.go"],[("clause assembly","sqlb/query_builder_build.go:buildInternal")],["sqlb.QueryBuilder.BuildQuery"])

p("C29","The placeholder style changes nothing but the placeholders",
 "For every fragment and every query builder, building with `$` and with `?` placeholders either succeeds in both styles or fails in both, and the two queries are identical except that where one has `?` the other has `$n`, both bound to the same argument value. Consequently, queries of the query builder, and lists of arguments of any length, interpolate to the same text (or fail to) in either style.",
 ["inputs","programs"],"All raw texts up to the bound, all templates and separators of #join, all fragment trees and query builder programs of the deviation universes, argument lists of many lengths with equal and unequal values.",
 "Every test picks one style; the relation between two builds of the same input is never tested, and the argument stores of the styles are separate code.",
 ["context.go","context_args.go","build.go","func_builtin.go","sqlb/query_builder_build.go","util/interpolate.go"],
 [("argument stores","context_args.go:questionArgStore, dollarArgStore"),("choice of the store","context.go:newEmptyContext"),("roll back of an incomplete item","func_builtin.go:funcJoin")],
 ["Fragment.BuildQuery","QueryBuilder.BuildQuery","util.Interpolate"])

p("C30","Property lists are bounded, 1-based and track exactly what was used",
 "A list made by NewArgsProperties or NewFragmentProperties has one property per given element (later changes of the caller's slice do not affect it). Build(ctx, i) for i from 1 to its length yields what building the i-th element in ctx yields and marks exactly this property as used; every other i fails with an error matching ErrInvalidIndex, builds and commits nothing and marks nothing. ReportUsed marks just its property. A list served by a custom function works with #name, #name(i) and #join, in any number of fragments of one build, without being checked for usage.",
 ["inputs","histories"],"All indexes over 33 bits, all lists up to the bound, all sequences of Build and ReportUsed up to the bound, all ranges of #join.",
 "The examples use one list with valid indexes only.",
 ["properties.go","property.go","func_builtin.go"],
 [("index check and build","properties.go:Build"),("usage","property.go:defaultProperty"),("construction","properties.go:NewArgsProperties, NewFragmentProperties")],
 ["Properties.Build","Property.Used","Fragment.BuildFragment with custom functions"])

p("C31","Query builder calls for different clauses commute",
 "The query a builder builds, its arguments and whether it fails depend on the calls made for each clause and their order within the clause, not on how calls for different clauses are interleaved: Select, From, joins, Where*, GroupBy, OrderBy, Limit, Offset, Distinct, With, Union and Debug may come in any order relative to one another (a join under the name of the main table aside).",
 ["inputs","histories","programs"],"All sequences of calls of any methods up to the bound, before or after calls for all or only the needed other clauses, with symbolic arguments and limits, in both styles.",
 "The number of interleavings is factorial; tests build each query in the order of its clauses.",
 ["sqlb/query_builder.go","sqlb/query_builder_join.go","sqlb/query_builder_where.go","sqlb/query_builder_with.go","sqlb/query_builder_order.go","sqlb/query_builder_build.go"],
 [("state per clause","sqlb/query_builder.go:QueryBuilder"),("From after joins","sqlb/query_builder_join.go:join, From"),("decisions taken when building","sqlb/query_builder_build.go:buildInternal")],
 ["all methods of sqlb.QueryBuilder"])

p("C32","Equivalent notations build the same",
 "Notations documented as, or by construction, standing for one another build the same query and arguments, or all fail: ?, $n, #argn and #arg(n); #fn, #fragmentn, #f(n) and #fragment(n); #join and the list of references it stands for; constructors, setters (in any order, the last one wins), Append* at once or one by one, and literals; Where2, WhereIn, WhereNotIn and the Where they stand for, with a list as a slice, array, pointer or []any; one GroupBy or Union with many operands and many with one; LeftJoinOptional without DISTINCT and LeftJoin; Columns, AnonymousColumns and ExprColumns and their elements; BuildQuery and BuildFragment with a new context; ScanBuilder and CountBuilder and BuildQuery with Scan and Count.",
 ["inputs","programs"],"All references, lists, constructions and pairs of calls up to the bound, with symbolic arguments, in both styles; all row sequences with a fault at any place up to the bound.",
 "A test uses one notation and compares with a fixed text; that two notations agree for every argument, style and surrounding is a relation between builds.",
 ["syntax/parser.go","func_builtin.go","fragment.go","shortcut.go","sqlb/query_builder_where.go","sqlb/table.go","sqlb/table_aliased.go","sqlb/table_column.go","util/scan.go"],
 [("references and calls","syntax/parser.go:bindVarExpr, funcExpr"),("#join","func_builtin.go:funcJoin"),("conditions","sqlb/query_builder_where.go:Where2, WhereIn"),("helpers","util/scan.go:ScanBuilder, CountBuilder")],
 ["Fragment.BuildQuery","Fragment.BuildFragment","sqlb.QueryBuilder.BuildQuery","util.ScanBuilder","util.CountBuilder"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))

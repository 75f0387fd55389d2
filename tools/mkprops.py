#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe or ["jsonpath.Compile", "JSONPath.Eval"], hook_needed=None)))
RUN, JS, FN, CO, PR, TX = ["mach/%s.go" % x for x in ("run", "json", "fns", "coder", "program", "text")]
LX, LP, LE, PP, PE, EX, VAL = ["paths/%s.go" % x for x in ("lex", "lexpath", "lexexpr", "parsepath", "parseexpr", "expr", "val")]

prop("C01", "Child, index, wildcard and union steps select exactly the right children",
 "Applied to any value, .name, ['name'] and [name] select exactly the member of that name of an object and nothing from anything else; an integer subscript selects the array element at that index (in brackets a negative index counts from the end; after a dot it never does; on an object it selects the member with that decimal name), and nothing when out of range; .* and [*] select every member or element and nothing from a scalar. "
 "A union [s1,s2,...] selects, for each input value, what s1 selects followed by what s2 selects and so on, keeping duplicates; a selector that selects nothing contributes nothing and removes nothing.",
 ["inputs", "programs"], "for every document and every path built from these steps, of any length and with any index, name and union size",
 "The example tests use a few dozen fixed path/document pairs; the statement is about every document shape at every step, every int64 index and every union length.",
 [RUN, PP, CO], [("valsByKey / valByKey / valsWild / applySelection", RUN), ("parseSubscript", PP)], [("vm.out", "current list of selected values", RUN)])
prop("C02", "Slices select what a Python slice selects, for every bound and stride",
 "[start:end:stride] with literal integer bounds, any of which may be missing, selects from an array of any length exactly the elements, in exactly the order, that Python's a[start:end:stride] gives (a negative bound counts from the end, a negative stride goes backwards, defaults depend on the stride's sign), except that stride 0 selects nothing. "
 "It never fails, overflows or reads outside the array for any 64-bit values, selects nothing from a value that is not an array, and leaves what other values and other union members selected intact.",
 ["inputs", "programs"], "for every array length and every triple of optional 64-bit bounds, alone, in unions, after .. and over several input values",
 "Tests have some tens of triples with small numbers over arrays of length 3 to 5, never several input values of different kinds.",
 [RUN, PP], [("sliceEval, valsByKey", RUN), ("parseSlice", PP)])
prop("C03", "Recursive descent visits every container exactly once",
 "A .. step applies its member, subscript, union, wildcard or filter to each input value that is an object or array and to every object and array nested in it, at every depth, each occurrence exactly once, and to nothing else (scalars are not visited). "
 "The result is what the step selects at each visited container, containers before their contents; ..[?(e)] yields exactly the visited containers for which e holds.",
 ["inputs", "programs", "schedules"], "for every document shape (depth, width, empty containers, repeated values), every step after .., and every scheduling of the producing goroutine",
 "Tests descend a handful of small documents; missing or doubled visits at some shape or depth need every shape.",
 [RUN], [("walker/walkdown with OpNest..OpRep loop", RUN), ("codeLoop", CO)], [("vm.values", "stack of running producers", RUN), ("vm.dot", "container being visited", RUN)])
prop("C04", "A filter keeps exactly the children for which its expression holds",
 "[?(e)] selects, from each input value that is an object or array, exactly those members or elements for which e, evaluated with @ bound to that child and $ to the document root, is truthy, each child once. "
 "No child is dropped because of its own type (null, false, 0, empty), nothing is selected from scalars or empty containers, and no value that is not in the document appears in the result.",
 ["inputs", "programs", "schedules"], "for every expression, document and chain of steps around the filter, including nested containers and several filters in one path",
 "Tests run a fixed list of filters on small uniform arrays; empty containers, scalar inputs and mixtures inside one path are not sampled.",
 [RUN, CO], [("OpFor..OpFilter..OpRep loop, stepping", RUN), ("codeLoop", CO)], [("vm.dot", "candidate", RUN), ("vm.out", "kept candidates", RUN)])
prop("C05", "Steps compose, in document order and with multiplicity",
 "The result of a path is obtained by applying each step in turn to every value the steps before it selected, in order, and concatenating; so array elements come in array order, descent is depth first with containers before contents, union members come in the order written, and a value reached in two ways appears twice. "
 "Only the order among members of one object is unspecified, and even then what comes from one member stays together.",
 ["inputs", "programs", "schedules"], "for every path (any number and mix of steps) and every document",
 "Existing tests mostly have one or two steps and the test suite drops cases whose order is unclear; order and multiplicity through mixed chains are unconstrained by them.",
 [RUN, CO], [("Run's main loop over orders", RUN), ("Compile (order of emitted code)", CO)], [("vm.out", "ordered bag of selected values", RUN)])
prop("C06", "Evaluation never changes the document, the compiled path or earlier results",
 "Eval leaves its document argument exactly as it was, returns a slice that belongs to the caller (changing or appending to it affects neither the document, nor the compiled path, nor any other result, and later evaluations do not change it), and selects values that are the very values in the document, not altered copies. "
 "Evaluating the same compiled path again, on the same or on other documents in any order, always gives the same results as a freshly compiled path would.",
 ["histories", "inputs"], "for every sequence of Compile, Eval and caller-side modifications of returned slices, over any set of paths and documents",
 "Tests compile a path once, evaluate it once or twice and compare; they never interleave evaluations, modify results, or look at the document afterwards.",
 [RUN, "jsonpath.go", PR], [("fresh machine state per Run; results appended to fresh slices", RUN)], [("Program", "immutable after Compile", PR)])
prop("C07", "A compiled path serves concurrent evaluations as if each ran alone",
 "Any number of goroutines may evaluate the same compiled paths, and share the same documents, at the same time; each evaluation returns exactly what it would have returned alone, an evaluation that fails or is slow affects no other, and there is no data race. "
 "Compile may also run concurrently with anything.",
 ["schedules", "histories"], "for every interleaving of concurrent Compile and Eval calls, on shared and on distinct documents, including failing ones",
 "No test evaluates concurrently.",
 [RUN, "jsonpath.go", PR], [("all mutable state in a per-call machine and per-call channels", RUN)])
prop("C08", "Every evaluation ends, and leaves nothing running behind it",
 "Eval returns for every path and document, and once it has returned, with a result or with an error, no goroutine or other resource it started remains, however many evaluations have been made and whichever candidate caused the error.",
 ["schedules", "inputs", "fault_sequences"], "for every path, document and point at which a run-time error strikes, including nested and successive loops, and every scheduling of producers",
 "Tests never look at what is left after an evaluation, and run-time errors in the middle of an iteration are hardly exercised.",
 [RUN], [("looptop/OpRep rendezvous with producers; drain", RUN)], [("vm.values", "active producers", RUN)])
prop("C09", "Compile accepts exactly the documented path language",
 "Compile succeeds exactly for the texts derivable from the published grammar (with white space allowed between tokens), and yields the steps that grammar gives the text; every other text, in particular trailing garbage, unclosed brackets or strings, out of range integers, and *, expressions or filters inside a list, is rejected with an error. "
 "Neither the acceptance nor the meaning of a text depends on where optional white space is put between tokens.",
 ["inputs"], "for every byte string",
 "Tests parse some tens of hand-written paths; the grammar is infinite and most rejected texts are never tried.",
 [LX, LP, LE, PP, PE, "paths/rd.go"], [("lexPath, lexExpr", LP), ("ParsePath", PP), ("ParseScriptExpression", PE)], None, ["jsonpath.Compile", "paths.ParsePath", "paths.ParseScriptExpression"])
prop("C10", "Expressions have the documented structure: precedence, associativity, postfix",
 "Binary operators group by precedence || < && < ==,!= < relational, =~, ~, in, nin < +,- < *,/,%, all left associative; unary - and ! apply to the following primary together with its calls, indexing and member selection; parentheses override; true, false, null are constants and in/nin are operators only in operator position. "
 "Adding redundant parentheses or white space to an expression never changes any result.",
 ["programs", "inputs"], "for every expression, of any size and nesting",
 "Tests have a few listings with one or two operators; the product of operators, unary operators and postfix forms at every nesting is not enumerable by examples.",
 [PE, "paths/ops.go", EX], [("Parser.expr / primary (precedence climbing)", PE), ("Op.precedence, associativity", "paths/ops.go")], None, ["paths.ParsePath", "paths.ParseScriptExpression", "JSONPath.Eval"])
prop("C11", "String literals and names denote exactly the text they spell",
 "A quoted string denotes the text JSON would give it (the escapes \\\\ \\/ \\b \\f \\n \\r \\t, \\uXXXX with surrogate pairs combined and unpaired surrogates replaced by U+FFFD, and the closing quote itself), every other escape or raw control character is an error, and all other bytes stand for themselves; names stand for their own bytes, dash included outside expressions. "
 "So for every string s there is a path selecting the member named s, and it selects no other member.",
 ["inputs"], "for every string, in single and double quotes, as a subscript, in a union, and as a constant in an expression",
 "Tests use a handful of literals with one or two escapes; surrogates, mixed escapes and non-ASCII bytes combine in unboundedly many ways.",
 [LX, LP, LE], [("lexString, escaped, lexID", LX)], None, ["jsonpath.Compile", "JSONPath.Eval", "paths.ParsePath"])
prop("C12", "Numeric literals keep their exact value",
 "An integer literal denotes exactly its value for every 64-bit integer, and a real literal the nearest double, wherever it appears (index, slice bound, union, expression) and however many other constants the path contains; one that does not fit is rejected at Compile (in a path also -9223372036854775807, by the present grammar), never truncated, rounded or confused with another constant.",
 ["inputs", "programs"], "for every integer and real literal, every position and every number of constants in one path",
 "Tests use small integers; the encoding of constants changes with magnitude and with the number of distinct values, which tests do not reach.",
 [LX, LP, PR, CO], [("lexNumber", LX), ("order encoding, isSmallInt, mkVal", PR)], [("Program.vals", "table of constants", PR)])
prop("C13", "== and != follow the JavaScript rules, with arrays and objects compared by value",
 "== holds for equal numbers whatever their representation, equal strings, equal booleans, null with null, null with a missing value; booleans and numeric strings (empty counts as 0) compare with numbers by numeric value; arrays compare element by element and objects member by member with the same names; an array with no element compares with a primitive as the empty string and one with a single element as that element, and no other array or object equals a primitive. "
 "== is symmetric and != is always its negation.",
 ["inputs"], "for every pair of values, as constants or selected from the document, at every nesting",
 "The pairs table in the tests has about 60 entries; conversions interact (integer/real/string/boolean/array/nothing) and depend on magnitude.",
 [JS, RUN], [("eqVal, eqNum, arrayPrim", JS)])
prop("C14", "Relational operators order numbers numerically and strings by bytes",
 "<, <=, >, >= compare numbers (and booleans as 0 and 1) by numeric value whatever their representation, and strings by lexicographic byte order; comparing a string with a non-string, or anything with null, an array or an object, is false, and comparing with a missing value yields nothing. "
 "For two numbers or two strings exactly one of a<b, a==b, a>b holds, and <=, >= agree with that.",
 ["inputs"], "for every pair of values, including 64-bit integers, reals, empty and non-ASCII strings",
 "Tests compare a few small numbers.",
 [RUN, JS], [("relation", RUN), ("isSimple, cvf, cvi, cvs", JS)])
prop("C15", "Truth, negation, && and || treat values and missing values as documented",
 "null, false, 0, NaN, the empty string and a missing value are falsy and everything else (including empty arrays and objects) truthy; a && b is a when a is falsy and otherwise b; a || b is a when a is truthy and otherwise b; ! gives true exactly for falsy operands. "
 "A missing member, index out of range or failed operation propagates as 'nothing' through arithmetic, relational, indexing, in and =~, makes the filter false, and never makes the evaluation fail.",
 ["inputs", "programs"], "for every combination of operand values and operators, at every nesting",
 "Tests use &&, || with comparisons only; value results and nothing in each operand position are not covered.",
 [RUN, JS], [("OpAnd, OpOr, OpNot, valOK/valsOK", RUN), ("cvb", JS)])
prop("C16", "Arithmetic gives the exact 64-bit or double result",
 "+, -, *, /, % on two integers give the 64-bit two's complement result (division truncating toward zero, remainder with the dividend's sign) and as soon as one operand is real the IEEE double result, booleans counting as 0 and 1; unary - negates; division or remainder by zero yields nothing, and arithmetic on a string, null, array or object yields nothing. "
 "Operands are always used in the order written.",
 ["inputs", "programs"], "for every pair of operands and every nested arithmetic expression",
 "Tests contain a few sums and products of small numbers.",
 [RUN, JS], [("arith, divide, OpNeg", RUN), ("cvi, cvf", JS)])
prop("C17", "@, $, member and element access in expressions reach exactly the named part",
 "In an expression @ is the current candidate and $ the document root; e.name and e['name'] give the member of that name of an object, e[n] the array element (a negative n counts from the end) or the member with that decimal name, e.length the number of elements, members or characters; anything absent, out of range, or asked of a value of another kind (including an array indexed by a non-numeric key) gives nothing, never some other element.",
 ["inputs", "programs"], "for every value, chain of accesses, and index",
 "Tests access one or two members that exist.",
 [RUN], [("OpDot, OpIndex, OpRoot, OpCurrent", RUN)])
prop("C18", "Numeric functions compute what they name",
 "abs, ceil, floor, to_number on numbers, sum, prod, avg of an array, and min, max of an array or of two or more arguments (numbers, or strings in byte order) give the mathematically named result for every input; the sum of an empty array is 0 and its prod, avg, min, max null; an argument or element of the wrong type gives nothing, never a wrong number.",
 ["inputs"], "for every argument value and array (length, element order, mixed integers, reals, booleans, strings)",
 "The function tests list a couple of arguments per function.",
 [FN, RUN], [("functions table", FN), ("OpCall, call", RUN)])
prop("C19", "String and collection functions compute what they name",
 "contains (substring, or element equal to the value), starts_with, ends_with, keys (each member name once), length (elements, members or characters; null for anything else) and tokenize (the pieces between all matches of the pattern) give exactly the named result for every argument; arguments of the wrong type give nothing.",
 ["inputs"], "for every string, pattern, array and object argument",
 "The function tests list a couple of arguments per function.",
 [FN, RUN], [("functions table", FN), ("OpCall, call", RUN)])
prop("C20", "=~ holds exactly when the regular expression matches",
 "s =~ /re/, s ~ /re/ and s =~ 're' hold exactly when some part of the string s matches the regular expression re, with \\/ standing for / inside /.../ and every other escape left to the regular expression; a static expression that is not well formed is rejected at Compile, and the same text gives the same answer whether it is static or a computed string.",
 ["inputs"], "for every string and every regular expression, static or computed, in one evaluation or repeatedly",
 "Tests have two or three patterns.",
 [LE, PE, RUN], [("lexRegexp", LE), ("OpMatch", RUN)])
prop("C21", "in and nin decide array membership",
 "x in a holds exactly when some element of the array a equals x in the sense of ==, and x nin a exactly when none does, for literal arrays and arrays from the document, of any length and element type; [e1,...,en] denotes the array of the values of its expressions in order.",
 ["inputs", "programs"], "for every value and every array, literal or selected",
 "Tests have two or three membership expressions over constants.",
 [RUN, JS, PE], [("OpIn/OpNin, searchJSON", JS), ("OpArray", RUN)])
prop("C22", "Run-time errors are reported exactly when documented",
 "Eval fails exactly when evaluating the expression of some candidate that is actually visited calls an unknown function or one with the wrong number of arguments, applies =~ to a non-string or with a right operand that is neither regular expression nor well-formed pattern string, or applies in/nin to a right operand that is not an array; then it returns an error and no result. "
 "Nothing else in any path makes Eval fail, and no such error is ever swallowed or turned into an empty result.",
 ["inputs", "programs"], "for every path and document, whichever candidate, operand position or nesting causes the error",
 "Tests check two or three error cases.",
 [RUN, FN], [("OpMatch, OpIn, OpCall, call", RUN)])
prop("C23", "Computed subscripts select by the value of their expression",
 "[(e)] and .(e) evaluate e with $ the document root and @ the container being visited (after ..) or null (otherwise), and select the member named by a string or the element or member numbered by a number exactly as the literal subscript would; when e yields nothing they select nothing; after .. e is evaluated anew for each container visited.",
 ["inputs", "programs"], "for every expression and document, after . and .., with other steps before and after",
 "Tests have a few (@.length-1) samples.",
 [RUN, PP, CO], [("OpMember/OpSelect with expression operand", RUN), ("codeArgs", CO)])
prop("C24", "jpath prints one result list per input value, in order",
 "jpath writes, for each JSON value of its standard input or of each named file in turn (with -l, for each line, on a single line), exactly one JSON array, equal to the values the path selects from that value, in input order and with nothing else on standard output, whatever the size, layout and number of the values; on success it exits with status 0.",
 ["inputs", "configurations"], "for every path, flag setting, list of files, number, size and layout of input values",
 "There is no test of the command.",
 ["cmd/jpath/jpath.go"], [("readValues, readLines", "cmd/jpath/jpath.go")], None, ["jpath process: argv, stdin, files, stdout, exit status"])
prop("C25", "jpath reports every failure and keeps what it had already produced",
 "Any failure (bad path, missing file, malformed JSON, evaluation error, unwritable output) makes jpath exit with a non-zero status and a message on standard error; the complete results of all values before the failing one, in order, are on standard output and none of the failing or later ones.",
 ["inputs", "fault_sequences", "configurations"], "for every position of the failing value in every file, each kind of failure and each mode",
 "There is no test of the command.",
 ["cmd/jpath/jpath.go"], [("errorf, main", "cmd/jpath/jpath.go")], None, ["jpath process: argv, stdin, files, stdout, stderr, exit status"])
prop("C26", "No path text and no document can crash or hang the library",
 "Compile returns a path or an error, and Eval a result or an error, for every byte string and every JSON document: never a panic, an endless loop or an out of range access, including boundary integers, invalid UTF-8, and nesting and sizes up to the tens of thousands.",
 ["inputs"], "for every path text (valid or not) and every document",
 "Tests feed well-formed small inputs only.",
 [LX, PP, PE, RUN, CO], [("error returns of lexer/parser", LX), ("pop/branch guards", RUN)])
prop("C27", "Compiled paths are independent of each other and of their size",
 "What a compiled path means depends only on its text: compiling or evaluating others before, after or at the same time changes nothing, String returns the text it was compiled from, compiling the same text again is equivalent, and MustCompile accepts and rejects (by panic) exactly the texts Compile does. "
 "A path with thousands of steps, union elements, array elements, operators or distinct constants means the same as its small parts say.",
 ["programs", "histories"], "for every set of compiled paths and order of use, and every path size",
 "Tests compile small paths one at a time.",
 ["jsonpath.go", CO, PR], [("builder per Compile; value table and order encoding", CO)], [("Program.vals/orders", "constants and code", PR)],
 ["jsonpath.Compile", "jsonpath.MustCompile", "JSONPath.String", "JSONPath.Eval"])
prop("C28", "Parse trees say what the text says, and mean it wherever they are put",
 "paths.ParsePath accepts exactly the texts Compile accepts and returns one Step for each step of the text, in order, with the operation and the arguments the text gives it (integers, names, strings, slices with nil for a missing bound, expression trees with operands in order); paths.ParseScriptExpression does the same for a text that as a whole is one expression and rejects every other. "
 "A tree depends only on its text, also when texts are parsed at the same time, and neither mach.Compile nor Run changes it. mach.Compile and Run give a parsed Path the meaning of its text, and any Path put together from steps and expressions so obtained (shared, repeated, reordered, copied, or compiled again) the meaning of the text that would spell it.",
 ["programs", "inputs", "histories"], "for every text, every way to put parts of parsed texts together, and every document",
 "Tests of the parser compare printed forms of a dozen paths; none builds a Path from parts or looks at a tree after compiling it.",
 [PP, PE, "paths/expr.go", CO], [("ParsePath, ParseScriptExpression", PP), ("Compile from a Path", CO)], None,
 ["paths.ParsePath", "paths.ParseScriptExpression", "mach.Compile", "Program.Run"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))

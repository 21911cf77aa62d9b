#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the single place the property texts are edited).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d['anchors']['observe_at']=observe
    P.append(d)

p("C01","Values are only ever read as the kind their tag says",
  "Every value the interpreter creates carries a payload of the kind its type tag announces, and no operation ever reinterprets a value's payload as another kind (an integer read as a string, a string as a list cell, a boxed byte array as a channel). Mutating a value keeps tag and payload in step.",
  ["inputs","programs"],"all values of every tag reaching any function of the core (constructors, accessors, predicates, arithmetic, list, string, byte array, frame, binding and application code)",
  "The payload is an untyped machine pointer, so a wrong reinterpretation is memory corruption that usually goes unnoticed; tests only pass values of the expected kind.",
  ["data.go","list_access.go","prim_bytearray.go","prim_list_manipulation.go","prim_mutators.go","prim_alist.go","prim_string.go","frame.go","symbol_table_frame.go","function.go","macro.go"],
  [("tag test before payload cast","data.go accessors"),("constructors pair tag and payload","data.go constructors")],
  [("tag/payload","a value is a tag plus an untyped payload pointer","data.go Data")])
p("C02","Constructors, accessors and type predicates obey their algebra",
  "Taking a cell apart gives back exactly what it was built from, and the same for every scalar kind; a reader applied to a value of another kind yields the neutral value (nil, 0, empty string) rather than garbage. Each type predicate holds for exactly the values of its kind, a list is empty exactly if it is nil or the empty cell, and only false and the empty list count as false.",
  ["inputs"],"all values of all kinds and all scalar payloads",
  "Tests sample a few values per kind; the law is over all tag/payload combinations, including wrong-kind arguments.",
  ["data.go","list_access.go","prim_type_predicates.go"],
  [("accessors and predicates","data.go"),("c[ad]+r walkers","list_access.go"),("predicate primitives","prim_type_predicates.go")])
p("C03","No core builtin crashes the host program",
  "Calling a core builtin (arithmetic, comparison, bit, type-predicate, list access, list construction, association list, set, string, byte array, frame, binding and control builtins) with any arguments its declared arity admits either returns a value or reports an error; it never dereferences nothing, indexes out of range, divides by zero, or otherwise raises a runtime panic in the embedding Go program.",
  ["inputs"],"all argument lists of admitted length, with arguments of any kind and any content",
  "A crash needs an argument shape nobody thought of (wrong kind, zero divisor, negative count); tests use intended shapes.",
  ["prim_math.go","prim_list_access.go","prim_list_manipulation.go","prim_list_functions.go","prim_string.go","prim_bytearray.go","prim_frame.go","prim_environment.go","data.go"],
  [("argument validation in each builtin","prim_*.go"),("nil-tolerant accessors","data.go")])
p("C04","Arithmetic builtins compute exact folds and reject bad operands",
  "With integer operands only, +, -, *, / (and quotient), %, succ and pred, abs, sign, min and max produce exactly the left-to-right result of the 64-bit integer operation over all operands, without passing through floating point; as soon as any operand is a float, the operands of + - * / are combined left to right as 32-bit floats. An operand that is not a number, or a zero divisor, is reported as an error and never produces a value.",
  ["inputs"],"all operand lists of every length, all 64-bit integers and all 32-bit floats",
  "Tests add a handful of small numbers; large magnitudes, long operand lists, mixed operand orders and zero divisors are not reached.",
  ["prim_math.go"],[("operand scan then typed fold","prim_math.go"),("per-operation folds","prim_math.go")])
p("C05","Number comparisons agree with numeric order",
  "For two integers the comparisons <, >, <=, >= and =='s numeric companions (zero?, positive?, negative?, even?, odd?) give exactly the mathematical answer over the full 64-bit range; if either operand is a float they give the 32-bit float answer. A non-number operand is reported as an error.",
  ["inputs"],"all pairs of 64-bit integers and 32-bit floats",
  "Neighbouring large integers, and mixed integer/float pairs, are not sampled by the tests.",
  ["prim_relative_logical.go","prim_math.go"],[("comparison builtins","prim_relative_logical.go"),("numeric predicates","prim_math.go")])
p("C06","Declared arity is enforced before a builtin runs",
  "A builtin registered with an arity description (an exact count, alternatives, a range, an open minimum, or any) runs exactly if the number of supplied argument expressions satisfies that description; otherwise an error is reported, the builtin's code is not entered and no argument is evaluated.",
  ["inputs","configurations"],"all arity descriptions, all argument counts",
  "Tests try one wrong count on a few builtins.",
  ["primitive_function.go"],[("arity check","primitive_function.go checkArgumentCount"),("type check","primitive_function.go argTypesOK")])
p("C07","A restricted environment cannot reach restricted builtins",
  "In a restricted environment, or any environment created below one, applying a builtin that is registered as restricted always reports an error without entering its code and without evaluating its arguments, however it is applied. An environment created below a restricted one is itself restricted, and no operation lifts the restriction from an environment.",
  ["programs","configurations"],"all environments and chains of nested environments, all restricted builtins, both ways of applying a builtin",
  "A sandbox escape needs a path through environment creation or application the tests do not use.",
  ["primitive_function.go","symbol_table_frame.go","prim_system.go","prim_io.go","prim_environment.go"],
  [("restriction test at application","primitive_function.go Apply / ApplyWithoutEval"),("inheritance at creation","symbol_table_frame.go")],
  [("restricted flag of an environment","set once, inherited","symbol_table_frame.go"),("restricted flag of a builtin","set at registration","primitive_function.go")])
p("C08","Protected bindings never change",
  "Once a name is bound as protected in an environment, no assignment or definition made through that environment or through any environment below it that does not shadow the name, by any of the binding builtins, changes its value; the attempt is reported as an error.",
  ["programs"],"all environments, chains and protected names, all assignment routes",
  "Tests try to redefine one builtin by one route.",
  ["symbol_table_frame.go","prim_special_forms.go","prim_environment.go"],
  [("protection test in assignment","symbol_table_frame.go")],[("protected flag of a binding","value is fixed","binding.go")])
p("C09","Lexical scoping: lookup and assignment use the nearest enclosing binding",
  "Looking a name up yields the value of the binding in the nearest environment of the chain that binds it, and nil if there is none; assigning changes exactly that binding and nothing else, or reports an error if there is none; a local definition affects exactly the environment it is made in.",
  ["inputs","programs"],"environment chains of every length, every name, every placement of shadowing bindings",
  "Tests use chains of one or two frames with a couple of names.",
  ["symbol_table_frame.go","binding.go"],[("chain walk","symbol_table_frame.go FindBindingFor"),("assignment","symbol_table_frame.go SetTo / BindTo / BindLocallyTo")])
p("C10","Applying a function binds its parameters as declared",
  "Applying a user-defined function succeeds past binding exactly if the number of arguments equals the number of required parameters, or is at least that number when a rest parameter is declared, and is reported as an error otherwise. Arguments are evaluated once each, left to right, in the caller's environment; each parameter is bound to the argument in its position in a fresh environment below the function's defining environment, the rest parameter to the list of the remaining ones, and the body expressions run in that environment in order with the last one's value as the result.",
  ["inputs","programs"],"parameter lists and argument lists of every length, with and without rest parameter, with and without evaluation of the arguments",
  "Tests define functions with at most three parameters; error propagation from the k-th argument and off-by-one counts are not covered.",
  ["function.go","macro.go"],[("parameter binding","function.go makeLocalBindings"),("body evaluation","function.go internalApply")])
p("C11","Special forms evaluate exactly what they must, in order",
  "if, and, or, when, unless, cond, case, begin, let, let*, do, and define/set! evaluate exactly the sub-expressions their semantics prescribe, each once, in the prescribed order and environment: the untaken branch is never evaluated, and/or stop at the first deciding value, and the value is that of the last expression evaluated. An error from any evaluated sub-expression stops the form at once and is reported.",
  ["programs","histories"],"all shapes and lengths of the form, all outcomes (value or error) of each evaluated sub-expression",
  "Evaluation order and early exit show only through side effects and errors at particular positions; tests check final values of a few short forms.",
  ["prim_special_forms.go","prim_relative_logical.go"],[("special form implementations","prim_special_forms.go"),("and/or","prim_relative_logical.go")])
p("C12","List operations agree with their sequence functions",
  "Length, reverse, append, copy of lists, list access by position (nth, first to tenth, last, car/cdr compositions), take, drop, list-head, list-tail, sublist, flatten, list construction and conversion between lists and arrays return exactly the elements that the corresponding function on finite sequences returns, in order. Positions and counts out of range give the documented nil or error, never a wrong element.",
  ["inputs"],"proper lists of every length and content, all counts and positions",
  "Tests use lists of two to five elements and in-range positions.",
  ["data.go","list_access.go","prim_list_access.go","prim_list_manipulation.go"],[("list walkers","data.go"),("builtins","prim_list_access.go, prim_list_manipulation.go")])
p("C13","Higher-order list builtins apply the function to exactly the right elements",
  "map, for-each, filter, remove, reduce, fold-left, fold-right, any, every, find, find-tail and memq/member-style searches call the function on exactly the elements their definition prescribes, once each, in list order (or the documented fold order), stop at the first deciding result or error, and return exactly the prescribed combination of the results.",
  ["programs","histories"],"lists of every length, every outcome (value or error) of each call",
  "Order of calls, early stop and error at the k-th call need a callback with effects at every position; tests use pure callbacks on short lists.",
  ["prim_list_functions.go"],[("loops calling the applied function","prim_list_functions.go")])
p("C14","Non-destructive operations leave their inputs untouched",
  "An operation whose name does not end in ! and that is not documented as destructive changes nothing that existed before the call: no list cell, scalar, byte array or frame reachable from its arguments is modified. The destructive ones change only what they are documented to change.",
  ["inputs"],"all arguments, including shared and nested structure",
  "Tests compare return values, not the state of the arguments afterwards.",
  ["data.go","prim_list_access.go","prim_list_manipulation.go","prim_list_set.go","prim_alist.go","prim_bytearray.go","prim_string.go"],
  [("copy before write","data.go Append/AppendList/Copy, prim_bytearray.go")])
p("C15","Byte array operations respect contents and bounds",
  "Creating, reading, replacing, appending, taking, dropping and extracting bytes yield exactly the bytes of the corresponding sequence operation; an element outside 0..255, or an index or count outside the array, is reported as an error and changes nothing.",
  ["inputs"],"byte arrays of every length and content, all 64-bit indices, counts and values",
  "Boundary and overflowing indices are not sampled.",
  ["prim_bytearray.go","data.go"],[("bounds tests before slicing","prim_bytearray.go")])
p("C16","Frame slots follow prototype inheritance",
  "Reading a slot finds it in the frame itself or else in its parents; a slot is reported present exactly if reading would find it; setting or removing a slot changes only that slot of the frame it is applied to and leaves every other slot and every parent as it was; a clone has the same slots as its original and changing one does not change the other.",
  ["inputs","histories"],"frames with any slots and any parent structure",
  "Tests use one or two parents and a couple of slots.",
  ["frame.go","prim_frame.go"],[("slot lookup","frame.go"),("slot builtins","prim_frame.go")])
p("C17","Shared tables are only touched under their lock, and locks are released",
  "Every access to a table that several running lisp processes can share (frame slots, environment bindings, the symbol table, the table of named environments) happens while the lock guarding that table is held, for writing if the access writes. Every lock taken is released on every path out of the operation, including error paths.",
  ["schedules","inputs"],"every access site and every path of the operations on shared tables, for all interleavings",
  "A missing lock shows only under a rare interleaving, a leaked lock only after an error path; the tests are single-threaded.",
  ["frame.go","symbol_table_frame.go","prim_frame.go","prim_environment.go","data.go"],
  [("mutex around each table access","frame.go, symbol_table_frame.go, prim_environment.go")])
p("C18","Equality is consistent across kinds",
  "Two values are equal exactly if they are the same object, both empty, or have the same kind and the same content: same number, same text, same elements in order, same bytes, same slots with equal values; values of unrelated kinds are never equal. The relational builtins for equality answer exactly according to this relation.",
  ["inputs"],"all pairs of values, lists of every length",
  "Tests compare a few literal pairs; unequal lengths, prefixes, and cross-kind pairs are hardly sampled.",
  ["data.go","prim_relative_logical.go"],[("structural comparison","data.go IsEqual")])
p("C19","Association lists map keys as specified",
  "Looking a key up returns the first pair whose key equals it, or nil if there is none; adding a key makes it map to the given value and leaves all other keys' values as they were; removing a key leaves exactly the pairs with other keys. A member that is not a pair is reported as an error.",
  ["inputs"],"association lists of every length, all keys",
  "Tests use two or three entries.",
  ["data.go","prim_alist.go"],[("assoc/acons/dissoc","data.go, prim_alist.go")])
p("C20","Atomic counters perform each operation indivisibly",
  "Each atomic builtin performs exactly one indivisible machine operation of the documented kind (load, store, add, swap, compare-and-swap) on the cell it is given, with the given operands, and returns that operation's result; no other access to the cell is made.",
  ["schedules","inputs"],"all cells, all operands, all interleavings with other users of the cell",
  "A load followed by a store passes every single-threaded test.",
  ["prim_concurrency.go"],[("one sync/atomic call per builtin","prim_concurrency.go")])
p("C21","Channel builtins make exactly one channel operation",
  "A write sends exactly the given value exactly once, a read receives exactly once and returns the received value together with whether the channel was still open, the non-blocking forms never block and report whether they succeeded, and using a closed channel for writing is reported as an error instead of crashing.",
  ["schedules","inputs"],"all channels, values and channel states",
  "Tests use one goroutine and small buffers.",
  ["prim_channel.go"],[("channel builtins","prim_channel.go")])
p("C22","String builtins respect text and bounds",
  "The string builtins (concatenation, substring, length, case conversion, trimming, searching, splitting, joining, comparison) return exactly the text operation on the given strings; positions out of range and non-string operands are reported as errors.",
  ["inputs"],"all strings and positions",
  "Tests use short ASCII strings and in-range positions.",
  ["prim_string.go"],[("argument checks and text operations","prim_string.go")])
p("C23","Set-style list builtins implement the set operations",
  "union, intersection, difference-style builtins and membership on lists return exactly the elements that belong according to the equality relation, in first-occurrence order and without introducing elements that are in neither input.",
  ["inputs"],"lists of every length and content",
  "Tests use three-element lists.",
  ["prim_list_set.go","prim_list_functions.go"],[("set builtins","prim_list_set.go")])
p("C24","One symbol per name",
  "Interning the same name always yields the same symbol object, also when several running processes do so at once, and generated symbols are different from every symbol interned or generated before.",
  ["schedules","histories"],"all names, all interleavings of interning calls",
  "The double-creation window needs two goroutines interleaving in a few instructions.",
  ["symbol_table_frame.go","prim_system.go"],[("lookup and creation under one lock","symbol_table_frame.go")])
p("C25","Printing then reading a value gives an equal value",
  "For every value that has a readable notation, reading the printed text yields a value equal to the original.",
  ["inputs"],"all readable values","Tests round-trip a dozen literals.",
  ["data.go","parser.go","tokenizer.go"],[("printer","data.go String"),("reader","parser.go, tokenizer.go")])
p("C26","JSON conversion preserves structure",
  "Converting a JSON document to lisp data and back yields the same document, for every document of objects, arrays, strings, integers and booleans.",
  ["inputs"],"all JSON documents","Tests convert a few documents.",
  ["json_support.go","json_frame_support.go"],[("converters","json_support.go")])
p("C27","Scheduled and forked processes run to completion exactly once",
  "A forked process runs its function exactly once and joining it returns that result; a scheduled process runs once after its delay unless abandoned before, and waking or resetting it has the documented effect under every timing.",
  ["schedules"],"all interleavings and timings of fork, join, schedule, wake, reset and abandon","Timing-dependent; tests use fixed sleeps.",
  ["prim_concurrency.go"],[("goroutine and timer per process","prim_concurrency.go")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))

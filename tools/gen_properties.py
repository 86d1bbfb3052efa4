#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})

L = "src/DefaultLexer.cpp"; C = "src/Coil.cpp"; SC = "src/StringConv.cpp"; D = "include/coil/detail/"

p("C01", "Executing any command line is memory-safe and terminates",
  "Executing any byte sequence as a command line against any set of registered commands returns a result: it never reads or writes outside live objects, never uses freed or uninitialised memory, never trips an internal assertion, never has undefined arithmetic, never leaks and always terminates. The command line need not be zero-terminated and may contain any byte, including zero bytes.",
  ["inputs"], "every command line byte string, every byte value, against a registry holding commands of every supported parameter kind",
  "Lexer.cpp tests a few dozen hand-written ASCII lines; lone quotes inside groups, unterminated constructs at the very end of the text, zero and high bytes are not among them.",
  [L, C, D+"Bindings.h", D+"Vector.h", "src/Buffer.cpp"], [("index bounds in the tokenizer and group splitter", L), ("argument unpacking", D+"FunctorCaller.h")],
  ["Bindings::execute(StringView)"])

p("C02", "Command lines parse exactly as the documented grammar says",
  "For every command line the parsed name, positional arguments (each with its ordered subvalues), and named arguments (key, value, in order) are exactly those given by the command grammar: whitespace-separated words, quoted text, parenthesised or separator-joined compound values, and key=value pairs. A line outside the grammar is rejected with the error message for the first offence, and no line in the grammar is rejected.",
  ["inputs"], "every command line byte string",
  "The lexer tests list about 90 concrete lines; the grammar is a function on all strings, and interactions between adjacent constructs (quote touching a word, group after '=', separator at a word's end) are combinatorial.",
  [L, D+"DefaultLexer.h", D+"ExecutionInput.h", D+"Value.h"], [("character classes, tokenizer, group splitter, token-sequence state machine", L)],
  ["Lexer::parse", "ExecutionResult::input"])

p("C03", "A malformed command line runs nothing and yields one syntax error",
  "If the text cannot be parsed, no command code runs, no argument is converted, and the result holds exactly one error, beginning with 'Syntax error: ' followed by the parser's message, with empty output and no return value. If the text can be parsed, no syntax error is reported.",
  ["inputs"], "every command line byte string, with the default parser and with a user-supplied parser that fails with an arbitrary message",
  "Bindings tests check a handful of malformed lines against one command.",
  [C, L], [("early return on parse failure", C)], ["Bindings::execute(StringView)", "ExecutionResult"])

p("C04", "Parsed pieces are views into the caller's text and nothing else",
  "Every name, key and subvalue produced by parsing a line lies entirely inside the caller's own text (it is a sub-range of it, never a copy and never beyond its end), in source order, for positional and named arguments alike. Parsing never modifies the text and its outcome depends only on the bytes inside the given range.",
  ["inputs"], "every command line byte string and every byte that may surround it in memory",
  "Tests compare contents of views, never where they point, and always use zero-terminated literals whose neighbours are zero.",
  [L, D+"StringView.h", "src/StringView.cpp"], [("substr-based tokens", L)], ["ExecutionInput returned by Lexer::parse"])

p("C05", "Any text can be passed as an argument by quoting it",
  "Any text that contains no quote character, written between quotes, arrives as exactly that one argument, byte for byte, whatever whitespace, separators, parentheses or '=' it contains; the same holds for a quoted name, key or named value. Likewise a parenthesised list of plain elements joined by any mix of separators arrives as exactly those elements in order, and a quoted element of such a list keeps the separators inside it.",
  ["inputs"], "every argument text and every list of element texts and separator choices",
  "It is a round trip over all texts; the tests quote about ten fixed phrases.",
  [L], [("quote token, group splitter quote toggling", L)], ["arguments received by a bound command", "ExecutionResult::input"])

p("C06", "A parser configured with other delimiters applies them exactly",
  "A parser built with caller-chosen bracket, quote, separator and space characters obeys the same grammar with those characters, for any byte values including non-ASCII ones; characters that are no longer delimiters become ordinary text. A registry given another parser uses that parser for every later line.",
  ["inputs", "configurations"], "every choice of delimiter characters (all 256 byte values) and every command line",
  "The custom-delimiter tests use one ASCII configuration each.",
  [L, D+"DefaultLexer.h", C], [("per-instance delimiter sets", L), ("replaceable parser", C)], ["Lexer::parse", "Bindings::setLexer"])

p("C07", "Exactly the overload with the matching number of arguments runs",
  "Among the overloads bound to a name, the first registered one whose parameter count equals the number of positional arguments is the one invoked, exactly once, and no other; named arguments never affect the choice. If none matches, nothing is invoked and the single error states the accepted counts in registration order and the number received.",
  ["inputs", "configurations"], "every list of overload arities and every number of positional and named arguments",
  "Tests use two or three fixed overload sets.",
  [C, D+"AnyFunctor.h", D+"Overloaded.h"], [("arity scan and wrong-count message", C)], ["which callable ran", "ExecutionResult::errors"])

p("C08", "A command runs only if every argument converts; every bad one is reported",
  "A command body runs if and only if all of its positional arguments convert to their parameter types. Otherwise it is not run, there is no return value, and the result has exactly one error per argument that failed, in argument order, each naming the offending text and the target type.",
  ["inputs"], "every combination of good and bad argument texts over all parameter positions and types",
  "Tests cover a few single-failure lines; the combination of failing positions is exponential.",
  [D+"FunctorCaller.h", C], [("convert all, then call", D+"FunctorCaller.h")], ["ExecutionResult::errors", "whether the bound callable ran"])

p("C09", "A result carries a return value exactly when the command succeeded",
  "A result has a return value if and only if a non-void command ran to completion and no error was reported by anyone during the execution; the return value is the text form of what the command returned. All errors reported by the command appear once each, in order, and the result echoes the input that was executed.",
  ["inputs"], "every sequence of errors reported (including none) by every kind of command",
  "Tests have a few commands with fixed numbers of errors.",
  [D+"FunctorCaller.h", D+"ExecutionResult.h", C], [("error check before storing the return value", D+"FunctorCaller.h")], ["ExecutionResult"])

p("C10", "Unknown or missing command names are reported and run nothing",
  "Executing a name that is not registered runs no command and yields exactly one error quoting that name in full; an input with no name (empty or blank text, an empty quoted name, or an empty input structure) yields exactly one error saying that no name was given. Name lookup is exact: byte for byte and case sensitive.",
  ["inputs"], "every queried name against every set of registered names",
  "Tests query two fixed names.",
  [C, D+"UnorderedMap.h", "src/StringView.cpp"], [("lookup and error paths", C)], ["ExecutionResult::errors", "whether any callable ran"])

p("C11", "Exceptions thrown by commands become reported errors",
  "With exception catching configured, anything thrown by a command - standard or not - is turned into exactly one additional error, carrying the standard exception's text when there is one; there is no return value, errors and output produced before the throw are kept, and the registry remains fully usable. Argument values and temporaries are released exactly once on that path; with catching off, the exception reaches the caller unchanged.",
  ["inputs", "fault_sequences"], "every exception kind, message and throw point, in every configuration of exception catching",
  "Tests throw two fixed exceptions and never look at what happens to the objects alive at the throw or at later executions.",
  [C, D+"FunctorCaller.h", D+"Config.h"], [("try/catch around the invocation", C)], ["ExecutionResult::errors", "object lifetimes", "later executions"])

p("C12", "Executions do not influence each other, even when nested",
  "The result of an execution depends only on the registry, its input and the state of the user's own objects: errors, output, return values and parsed input of earlier, later or enclosing executions never leak into it, and neither does process state such as a previous numeric error. A command may execute other commands, or register, replace or remove other commands, while it runs, and both executions still give the results they would give alone.",
  ["histories", "inputs"], "every sequence of executions and every nesting of them, with registry changes made from inside a command",
  "No test executes from inside a command or compares a sequence with isolated executions.",
  [C, D+"CallContext.h", SC], [("per-call context object", D+"CallContext.h"), ("errno reset before conversion", SC)], ["ExecutionResult of each execution"])

p("C13", "The registry behaves as a finite map from names to commands",
  "After any sequence of registering, replacing, removing, clearing, looking up and moving the registry, a name resolves to the most recently registered command for it if it has not been removed since, and to nothing otherwise; other names are unaffected by each step. Names are copied when registered, are compared byte for byte, and a found entry reports its own name.",
  ["histories", "inputs"], "every history of registry operations over arbitrary names, including names that collide in the hash table and growth of the table",
  "Tests perform short fixed histories with distinct ASCII names; hash collisions, removal from the middle of a chain and re-registration after removal are not enumerated.",
  [C, D+"Bindings.h", D+"UnorderedMap.h"], [("hash map with chained nodes", D+"UnorderedMap.h")], ["Bindings::get", "Bindings::execute"])

p("C14", "Introspection describes the bound callables truthfully",
  "For every kind of callable - free function, lambda, functor, member function of every qualifier, variable, property, overload set - the registry reports the number of user parameters, the parameter type names in order and the return type name that the callable's signature has, with a context parameter never counted. With integer aliases configured, fixed-width integers are named by width instead, and nothing else changes.",
  ["configurations", "programs"], "every supported callable kind and parameter type, in both naming configurations",
  "Tests check a few signatures in one configuration.",
  [D+"AnyFunctor.h", D+"FunctionWrapper.h", D+"FuncTraits.h", D+"TypeName.h", C], [("compile-time signature traits", D+"FuncTraits.h")], ["Bindings::get"])

p("C15", "Integer arguments are exact or rejected",
  "For every integer type, a text is accepted if and only if it consists of optional leading whitespace, an optional sign and decimal digits and nothing else, and its value lies in the type's range; the command then receives exactly that value. Everything else - overflow, other characters, embedded zero bytes, a negative number for an unsigned type - is rejected with an error naming the text and the type, never wrapped or truncated.",
  ["inputs"], "every text and every one of the eleven integer types",
  "Tests try the boundary constants and a dozen malformed strings per type; the claim is about all strings, including overflow by any amount and signs after whitespace.",
  [SC, C], [("strtoX with errno and end check, range check for narrow types", SC)], ["coil::fromString", "bound command arguments"])

p("C16", "Integer values survive being printed and parsed back",
  "For every integer type and every value of that type, the text produced for it is its canonical decimal form and parsing that text gives the same value back.",
  ["inputs"], "every value of every integer type (all 2^64 of the widest)",
  "Tests print a handful of values.",
  [SC, C], [("printf-family conversion into an exactly sized buffer", C)], ["coil::toString", "coil::fromString", "ExecutionResult::returnValue"])

p("C17", "Floating-point arguments follow C parsing exactly; printing is %g",
  "A text is accepted for a floating-point parameter if and only if the C library's decimal conversion for that exact type consumes all of it without a range error, and the value received is that conversion's result whatever numeric error was pending before. Printing yields '0' for magnitudes below one millionth and otherwise the C '%g' text of the full-precision value.",
  ["inputs"], "every text, every value (NaN and infinities included), for float, double and long double, with any pending error state",
  "Tests convert a few decimal literals with no pending error.",
  [SC], [("strtof/strtod/strtold with errno and end check", SC)], ["coil::fromString", "coil::toString"])

p("C18", "Booleans and strings convert exactly",
  "A boolean parameter accepts exactly '0', '1' and 'true'/'false' in any letter case and nothing else; booleans print as 'true'/'false'. String parameters of every supported kind (owning and view, library and standard) receive the argument byte for byte, including empty text and zero bytes, and string results are returned byte for byte.",
  ["inputs"], "every argument text",
  "Tests try about fifteen boolean spellings and a few strings without special bytes.",
  [C, "include/coil/StdLibCompat.h"], [("case-insensitive comparison", C), ("string serializers", C)], ["bound command arguments", "ExecutionResult::returnValue"])

p("C19", "Compound arguments convert element by element",
  "A list parameter receives exactly the converted elements of the argument's subvalues, in order, and is rejected if any element is bad; an optional parameter is empty for empty text and the converted value otherwise; a list prints as '[a, b, c]' and an empty optional as empty text. A single-value parameter given any number of subvalues other than one is rejected with an error stating how many were received.",
  ["inputs"], "every number of subvalues and every element text",
  "Tests use lists of up to three fixed elements.",
  ["include/coil/StdLibCompat.h", C], [("element loop", "include/coil/StdLibCompat.h"), ("subvalue count checks", C)], ["bound command arguments", "ExecutionResult"])

p("C20", "Named arguments are found, typed, defaulted and reported correctly",
  "Looking up a named argument yields the value of the first occurrence of exactly that key, and distinguishes a missing key from a value of the wrong type. The reporting lookup returns the value if present and convertible, the default silently if it is optional and missing, and otherwise nothing plus exactly one error; iteration and size present every named argument in source order.",
  ["inputs"], "every list of named arguments (including duplicate keys), every key, type, default and requirement mode",
  "Tests check fixed keys one mode at a time.",
  [D+"NamedArgs.h", C], [("linear search and reporting rules", D+"NamedArgs.h")], ["NamedArgs", "ExecutionResult::errors"])

p("C21", "A bound variable reads and writes exactly its object",
  "Executing a variable's name returns the text of its current value and changes nothing; executing it with one convertible argument stores exactly that value in the object and returns its text; executing it with an inconvertible argument changes nothing and reports why. A constant variable can be read but is never changed by any line.",
  ["inputs", "histories"], "every argument text and every sequence of reads and writes, for every supported variable type",
  "Tests set a few values.",
  [D+"Variable.h"], [("getter/setter pair", D+"Variable.h")], ["the bound object", "ExecutionResult"])

p("C22", "Properties go through their getter and setter exactly",
  "Reading a property calls the getter and returns its value; writing it calls the setter exactly once with exactly the converted value and then returns what the getter now gives, for free, member, const and constant-object accessors alike. A property without a setter rejects writes with an error and never modifies anything.",
  ["inputs", "histories"], "every written text and every sequence of reads and writes",
  "Tests set a few values on a few accessor shapes.",
  [D+"Property.h"], [("getter/setter composition", D+"Property.h")], ["accessor calls", "ExecutionResult"])

p("C23", "Log output is exactly what the command logged",
  "The output of a result is the concatenation, in order, of everything the command logged: raw text verbatim, line variants with exactly one newline appended, and formatted variants exactly as the C formatter renders them, for any length and any bytes. Logging never affects errors or the return value, and vice versa.",
  ["inputs", "histories"], "every sequence of log calls with every text, argument value and length",
  "Tests log one or two short fixed strings.",
  [C, D+"Context.h"], [("output accumulation and two-pass formatting", C)], ["ExecutionResult::output"])

p("C24", "Bound callables receive the right arguments on the right object",
  "Every bound callable - free function, lambda with captures, functor object, member function on an object, with or without context parameter, taking parameters by value or reference - is invoked on its own object with the positional arguments in order, and its return value is rendered from the returned object (a pointer is rendered as its target, or 'null'). Any-like parameters receive the raw subvalues unchanged.",
  ["inputs", "programs"], "every argument value at every position for every supported callable shape",
  "Tests call a fixed set of callables with fixed values.",
  [D+"FunctionWrapper.h", D+"FunctorCaller.h", D+"AnyFunctor.h", D+"Bind.h"], [("type-erased call", D+"FunctionWrapper.h")], ["callable arguments and object", "ExecutionResult::returnValue"])

p("C25", "The library's string is a faithful byte sequence",
  "After any sequence of constructing, copying, moving, assigning, appending, growing and shrinking, a string holds exactly the bytes the sequence semantics give, is followed by a zero byte, and reports the matching length; copies are independent. Operands may alias the string itself, and equality is byte-wise equality for every kind of operand.",
  ["inputs", "histories"], "every history of operations with every text and length, including self-aliasing operands",
  "String tests run fixed short histories and never append a string to itself.",
  ["src/String.cpp", "src/Buffer.cpp", D+"String.h"], [("buffer with capacity growth", "src/String.cpp")], ["String"])

p("C26", "The library's vector is a faithful sequence with correct lifetimes",
  "After any sequence of pushes, pops, resizes, reserves, clears, copies, moves and assignments, a vector holds exactly the elements of the reference sequence in order and compares element-wise. Every element constructed is destroyed exactly once, none is used after destruction, and a self-referential push (an element of the vector itself) appends that element's value.",
  ["histories", "inputs"], "every history of operations with every element value",
  "Vector tests run short fixed histories.",
  [D+"Vector.h", D+"Buffer.h", "src/Buffer.cpp"], [("grow by move, construct/destroy counting", D+"Vector.h")], ["Vector", "element constructor/destructor counts"])

p("C27", "The library's hash map is a finite map under every history",
  "After any sequence of insertions, assignments, erasures, lookups, clears, moves and copies, lookups, size and iteration agree with a reference map: each present key exactly once with its last value, nothing else. This holds for every hash distribution, initial bucket count and load factor.",
  ["histories", "inputs", "configurations"], "every history over keys with arbitrary (colliding or not) hashes",
  "The map tests run a few fixed histories with the default configuration mostly.",
  [D+"UnorderedMap.h"], [("doubly linked chains in a node vector, swap-with-last erase, rehash", D+"UnorderedMap.h")], ["UnorderedMap"])

p("C28", "Optional, expected and unique pointer have value semantics",
  "After any sequence of constructions, copies, moves and assignments between engaged and disengaged (or value and error) states, these wrappers hold exactly the state the assignments imply, compare accordingly, and construct and destroy every contained object exactly once. A unique pointer deletes each object it owns exactly once and never one it has handed over.",
  ["histories", "inputs"], "every history of operations over the wrappers' states, self-assignment included",
  "Tests cover individual transitions with plain contents, without lifetime accounting.",
  [D+"Optional.h", D+"Expected.h", D+"Unexpected.h", D+"UniquePtr.h"], [("tagged unions with explicit construct/destroy", D+"Optional.h")], ["wrapper state", "content constructor/destructor counts"])

p("C29", "String views, strings and their hashes agree",
  "A view exposes exactly the bytes of its range, sub-ranges are exact, and equality is an equivalence that depends on bytes and length only. Equal texts have equal hashes whether held as views or as owning strings, wherever they are stored, so a name registered from one kind of text is found with any other.",
  ["inputs"], "all pairs of byte strings, at any address",
  "Tests compare a few literals.",
  ["src/StringView.cpp", "src/String.cpp", D+"Hash.h"], [("memcmp equality, byte-wise hash", "src/StringView.cpp")], ["StringView", "String", "Hash"])

p("C30", "Bound callables and their captures live exactly as long as registered",
  "A callable stays alive while it is registered, is moved rather than duplicated when bound, and it and everything it captured are destroyed exactly once: when it is replaced, removed or cleared, or when the registry is destroyed or overwritten. Registering, moving, failing and executing never leak or double-release anything.",
  ["histories"], "every history of registrations, replacements, removals, clears, moves and executions",
  "Tests never count destructions and run without leak detection.",
  [D+"AnyFunctor.h", D+"FunctionWrapper.h", D+"Bindings.h", C], [("owning type-erased storage", D+"AnyFunctor.h")], ["capture constructor/destructor counts", "heap"])

p("C31", "User-defined types and names are honoured everywhere",
  "For a type with a user-supplied conversion and name, arguments are accepted exactly when that conversion accepts them, the command receives its value, its own error text is what the user sees, results use its text form, and its name appears in introspection and in the library's own conversion errors - alone, inside lists and optionals, as named argument and as bound variable.",
  ["inputs", "programs"], "every argument text for user types (enumerations and structures), in every position a library type may take",
  "Tests use one or two user types with fixed inputs.",
  [D+"TypeSerializer.h", D+"TypeName.h", "include/coil/StdLibCompat.h", D+"NamedArgs.h", D+"Variable.h"], [("serializer and name customisation points", D+"TypeSerializer.h")], ["ExecutionResult", "Bindings::get"])

p("C32", "Binding commands costs little compile time",
  "Adding bindings through the library costs no more compile time than hand-written string wrappers (the library's stated first priority).",
  ["programs"], "every program using the library",
  "It is a performance statement about compilers; no test measures it.",
  ["README.md", D+"Extern.h", C], [("explicit instantiation and STL avoidance", D+"Extern.h")], ["compiler wall time"])

p("C33", "Build options change only what they document",
  "Enabling internal assertions never changes any result, and the exception-catching and integer-alias options change nothing except the handling of thrown exceptions and the spelling of integer type names respectively.",
  ["configurations", "inputs"], "every combination of the build options and every command line",
  "The tests run in two configurations with fixed inputs and are not compared with one another.",
  [D+"Config.h", D+"Assert.h", C, D+"Buffer.h"], [("preprocessor options", D+"Config.h")], ["ExecutionResult under each configuration"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")

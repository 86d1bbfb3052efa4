"""Which harness entries, with which bounds, decide each property.  q(...) runs in both tiers, t(...) only in the thorough one."""
from lib import T
def q(h, e, need="", **kw): return T(h, e, [x.strip() for x in need.split(",") if x.strip()], "q", **kw)
def t(h, e, need="", **kw): return T(h, e, [x.strip() for x in need.split(",") if x.strip()], "t", **kw)
ASSUMPTIONS = [
 "clang 18 -O1 front-end output (before optimisation) of the library, its headers and the harness is what is executed; the library is assumed to be compiled faithfully by other compilers",
 "memory allocation succeeds; the C library functions coil calls behave as in models/libc.cpp (strtol family and printf integer/string conversions modelled exactly, C locale)",
 "strtof/strtod/strtold: the consumed prefix is exact, the value is exact for concrete text and an uninterpreted function of the text otherwise; %g likewise",
 "single-threaded use; objects that were moved from are not used except to destroy or assign them",
]
LEX = "functions encoded: src/DefaultLexer.cpp and everything it calls. "
# entries of other properties also run in other configurations (C33)
OTHERS = (("cont", "check_map_chains:D=4,B=2", "done"), ("cont", "check_vector:X=0,K=2,PRE=2", "done"), ("cont", "check_optional_ops:K=2", ""), ("cont", "check_unique_ops:K=3", "done"), ("cont", "check_expected_ops:K=2", ""), ("seq", "check_string_ops:K=2", "done"), ("seq", "check_views_basic:N=4", "done"), ("registry", "check_registry:K=2", "empty,several"), ("registry", "check_unbind_orders:N=5", "done"), ("registry", "check_lifetime:K=2", "done"), ("registry", "check_sequence:N1=2,N2=2", "fine,errors"), ("lex", "check_lex:N=5", "parsed,rejected"), ("lex", "check_custom:N=3", "parsed,rejected"), ("exec", "check_overload:F=3", "match,none"), ("exec", "check_all_or_nothing:N=2", "all convert,some bad"), ("exec", "check_result:K=2", "value"), ("exec", "check_names:R=2,Q=2", "found,unknown"), ("named", "check_named_get:K=2,X=0", "value,missing,mismatch"), ("named", "check_log:K=2", "logged"), ("conv", "check_list:K=2,N=1,X=0", "list"), ("conv", "check_single", "mismatch"), ("props", "check_property:X=2,K=2", "read,written"), ("props", "check_variable:X=2,K=2", "read,written"), ("bind", "check_bind:M=2", "called"), ("bind", "check_intro", "described"),
  ("named", "check_log_long:N=400,P=20", "long"), ("named", "check_log_formats", "formatted"), ("conv", "check_every_length:G=0", "garbage"), ("longer", "check_long_exec:S=3", "malformed,ran"), ("exec", "check_safe_long:N=100", "ran,reported"), ("seq", "check_string_long:N=150", "long"), ("cont", "check_vector_long:N=300", "long"), ("cont", "check_map_many:N=100", "done"), ("longer", "check_many_commands:N=300", "many"), ("longer", "check_long_named", "many"), ("longer", "check_long_results", "texts,zeros"), ("longer", "check_many_overloads", "match,none"))
CHECKS = {
 "C01": dict(note="Every byte of the command line is a symbolic variable (all 256 values), in an exactly sized heap block; every load, store, free, arithmetic operation and internal assertion on every path is checked, all heap blocks must be released, and path length is bounded. Registry: 21 commands of every parameter kind. Outside the bounds: lines longer than stated, other registries. ", tasks=
   [q("exec", f"check_safe_command:C={c},N=3", "ran,reported" if c not in (15, 16) or True else "reported") for c in range(21)]
   + [q("exec", "check_safe_line:N=5", "ran,reported"), q("exec", "check_safe_long:N=100", "ran,reported")]
   + [t("exec", f"check_safe_command:C={c},N=4", "ran,reported") for c in range(21)] + [t("exec", "check_safe_line:N=6", "ran,reported"), t("exec", "check_safe_line:N=7", "ran,reported"), t("exec", "check_safe_long:N=700", "ran,reported")]),
 "C02": dict(note="Every byte symbolic; an independent implementation of the grammar (harness/grammar.h) runs on the same symbolic text and every field of the result, or the error text, is asserted equal. check_lex_tokens: sequences of K tokens each of every token class with symbolic content; check_lex_args: K arguments, keyed or not, of every shape (word, quoted, lists of 0 and 2), and every kind of ending. Outside: longer lines. ", tasks=
   [q("lex", f"check_lex:N={n}", "parsed,rejected" if n > 1 else "") for n in (0, 1, 2, 3, 4, 5, 6, 7)] + [q("lex", "check_lex:N=7", "parsed,rejected,positional,named,compound,empty"), q("lex", "check_lex_tokens:K=4", "parsed,rejected,three positional"), q("lex", "check_lex_wide", "wide")] + [q("lex", f"check_lex_args:K={k}", "parsed,rejected") for k in (1, 2, 3)]
   + [t("lex", f"check_lex:N={n}", "parsed,rejected") for n in (8, 9)] + [t("lex", f"check_lex_tokens:K={k}", "parsed,rejected") for k in (5, 6)] + [t("lex", "check_lex_wide:A=60,M=20,S=30", "wide")]),
 "C03": dict(note="Every byte symbolic; the reference grammar decides whether the line is well formed and its message. Counts of command runs and of argument conversions are asserted zero for malformed lines. Outside: longer lines. ", tasks=
   [q("exec", f"check_malformed:N={n}", "malformed,ran" if n > 1 else "") for n in (1, 3, 4, 5, 6)] + [q("exec", f"check_malformed_args:K={k}", "malformed,ran") for k in (1, 2, 3)] + [t("exec", "check_malformed:N=7", "malformed,ran"), t("exec", "check_malformed:N=8", "malformed,ran")]),
 "C04": dict(note="Every byte symbolic; pointers of all produced views are compared with the caller's block, and the outcome is compared under symbolic surroundings (bytes before and after the range) and for a non-terminated block. Outside: longer lines. ", tasks=
   [q("lex", "check_views:N=3"), q("lex", "check_views:N=6", "positional,named,compound,rejected,nothing"), q("lex", "check_views_context:N=5", "parsed,rejected"), q("lex", "check_views_execute:N=4", "echoed,value,view"), q("lex", "check_views_execute:N=6", "echoed,named,value,view"), t("lex", "check_views_execute:N=8", "echoed,named,value,view"), t("lex", "check_views:N=7", "positional,named,compound,rejected,nothing"), t("lex", "check_views:N=8"), t("lex", "check_views_context:N=6", "parsed,rejected"), t("lex", "check_views_context:N=7", "parsed,rejected")]),
 "C05": dict(note="Quoted text of N symbolic non-quote bytes in every position (name, argument, key, value), with both quote characters; parenthesised lists of E elements of symbolic content with symbolic separators. Outside: longer texts. ", tasks=
   [q("lex", f"check_quote:N={n}", "quoted") for n in (0, 1, 3, 12)] + [q("lex", "check_quote_list:E=2", "list"), q("lex", "check_quote_list:E=3", "list"), t("lex", "check_quote:N=40", "quoted"), t("lex", "check_quote_list:E=4", "list"), t("lex", "check_quote_list:E=5", "list")]),
 "C06": dict(note="The delimiter sets (opening/closing brackets, quotes, separators, spaces) are symbolic bytes, disjoint, non-ASCII included; the text is symbolic and the reference grammar takes the same sets. Outside: overlapping sets, longer lines. ", tasks=
   [q("lex", "check_custom:N=3", "parsed,rejected"), q("lex", "check_custom:N=4,G=2,Q=2,S=2,W=2", "parsed,positional,rejected"), q("lex", "check_custom_fixed:N=5", "parsed,rejected"), q("lex", "check_set_lexer:N=3", "executed,rejected"),
    t("lex", "check_custom:N=5,G=2,Q=2,S=2,W=2", "parsed,positional,rejected"), t("lex", "check_custom:N=6,G=1,Q=2,S=1,W=2", "parsed,positional,rejected"), t("lex", "check_custom_fixed:N=6", "parsed,rejected"), t("lex", "check_custom_fixed:N=7", "parsed,rejected"), t("lex", "check_set_lexer:N=4", "executed,rejected")]),
 "C07": dict(note="All overload sets of up to F callables of arity 0..3, with and without context, in every registration order, against 0..4 positional and 0 or 2 named arguments with symbolic text. check_overload_line: from symbolic text. Outside: larger sets. ", tasks=
   [q("exec", "check_overload:F=3", "match,none"), q("exec", "check_overload_line:N=5", "ran,with named,wrong count"), q("exec", "check_overload_wide", "none"), t("exec", "check_overload:F=4", "match,none"), t("exec", "check_overload_line:N=6", "ran,with named,wrong count"), t("exec", "check_overload_line:N=7", "ran,with named,wrong count")]),
 "C08": dict(note="Commands with three parameters of different kinds, argument texts symbolic; the conversion outcome of each is decided by an independent reference. Outside: more parameters than 8, longer texts. ", tasks=
   [q("exec", "check_all_or_nothing:N=2", "all convert,some bad,several bad"), q("exec", "check_all_or_nothing:N=3,SUBS=0", "all convert,some bad,several bad"), q("exec", "check_all_or_nothing_wide", "all bad"), t("exec", "check_all_or_nothing:N=3", "all convert,some bad,several bad"), t("exec", "check_all_or_nothing:N=4,SUBS=0", "all convert,some bad,several bad")]),
 "C09": dict(note="Commands performing every sequence of up to K logging, reporting and lookup steps and returning symbolic values; the echoed input is compared with the reference parse. Outside: longer sequences. ", tasks=
   [q("exec", "check_result:K=3", "value,suppressed"), q("exec", "check_result_echo:N=5", "value,none"), t("exec", "check_result:K=4", "value,suppressed"), t("exec", "check_result_echo:N=6", "value,none"), t("exec", "check_result_echo:N=7", "value,none")]),
 "C10": dict(note="Registered and requested names are symbolic byte strings of every length up to the bound; blank lines of every blank byte. Outside: longer names (one long-name entry with fixed pattern). ", tasks=
   [q("exec", f"check_names:R={r},Q={k}", "found,unknown" if r == k else "unknown" if k else "empty") for r in (1, 2, 3) for k in (0, 1, 2, 3)] + [q("exec", "check_blank", "blank"), q("exec", "check_name_line:N=4", "known,unknown"), q("exec", "check_name_long:N=50", "found,unknown"),
    t("exec", "check_names:R=5,Q=5", "found,unknown"), t("exec", "check_name_line:N=6", "known,unknown"), t("exec", "check_name_long:N=400", "found,unknown"), t("exec", "check_blank:N=8", "blank")]),
 "C11": dict(note="Every kind of thrown object (standard, derived, text, integer, user object) thrown from every place in a command (body, after log/error, conversion of an argument, value parameter copy, printing of the result, nested execution), values symbolic. Exception tables of the compiled code are followed. Outside: exceptions thrown by allocation. ", tasks=
   [q("registry", "check_throw", "caught"), q("registry", "check_throw_escapes", "escaped", cfg="nocatch")]),
 "C12": dict(note="Two executions with symbolic lines in sequence and nested, compared with the same executions in a fresh registry; recursion; commands that register, replace and remove others while running (every sequence of K operations). Outside: longer lines and sequences, removal of the running command itself. ", tasks=
   [q("registry", "check_sequence:N1=3,N2=3", "fine,errors"), q("registry", "check_nested:N=3", "inner fine,inner errors"), q("registry", "check_nested_held", "held"), q("registry", "check_recursive", "deep"), q("registry", "check_modify_while_running:K=2", "done"),
    t("registry", "check_sequence:N1=4,N2=4", "fine,errors"), t("registry", "check_nested:N=5", "inner fine,inner errors"), t("registry", "check_modify_while_running:K=3", "done"), t("registry", "check_modify_while_running:K=3,P=6", "done"), t("registry", "check_recursive:D=20", "deep")]),
 "C13": dict(note="Every sequence of K operations (register, replace, remove, unset, clear, move construct/assign) over names with symbolic bytes (K=2) or fixed distinct ones (K=3 and more), then lookup of all names and of an unrelated symbolic name. Outside: longer histories. ", tasks=
   [q("registry", "check_registry:K=2", "empty,several"), q("registry", "check_registry:K=3,CONCRETE=1,OTHER=0", "empty,several"), q("registry", "check_registry:K=3,CONCRETE=1,OTHER=0,HOW=1,LA=2,LB=3", "empty,several"), q("registry", "check_registry:K=2,CONCRETE=1,PRE=9", "several"), q("registry", "check_registry_large:N=24", "large"), q("registry", "check_unbind_orders:N=5", "done"),
    t("registry", "check_registry:K=4,CONCRETE=1,OTHER=0", "empty,several"), t("registry", "check_registry:K=5,CONCRETE=1,OTHER=0", "empty,several"), t("registry", "check_registry:K=3,HOW=1", "empty,several"), t("registry", "check_registry:K=2,LA=3,LB=3", "empty,several"), t("registry", "check_registry_large:N=25,DEEP=1", "large")]),
 "C30": dict(note="Every sequence of K operations on the registry (bind single, bind overloads, remove, execute, fail, throw, move, clear, destroy) with instrumented callables: every instance is destroyed exactly once, none is copied, none used after destruction. Outside: longer sequences. ", tasks=
   [q("registry", "check_lifetime:K=3", "done"), q("registry", "check_lifetime_kinds", "done"), t("registry", "check_lifetime:K=4", "done"), t("registry", "check_lifetime:K=5", "done")]),
 "C15": dict(note="The argument is N symbolic bytes (every byte value), for each of the eleven character and integer types; the reference decides by exact arithmetic which value it denotes. check_int_limit covers the types' limits with symbolic last digits; check_int_digits covers N symbolic digits. Outside: longer texts. ", tasks=
   [q("conv", f"check_int:T={x},N={n}", "value,rejected") for x in range(11) for n in (3, 4)] + [q("conv", f"check_int:T={x},N=0") for x in (0, 5, 10)] + [q("conv", f"check_int:T={x},N={n}") for x in (1, 4, 9) for n in (1, 2)]
   + [q("conv", f"check_int_limit:T={x},N=4") for x in range(1, 11)] + [q("conv", f"check_int_command:T={x},N=3", "ran,rejected") for x in (0, 2, 4, 5, 10)] + [q("conv", "check_int:T=5,N=5", "value,rejected"), q("conv", "check_int_digits:T=9,N=19")]
   + [t("conv", f"check_int:T={x},N=5", "value,rejected") for x in range(11)] + [t("conv", f"check_int:T={x},N=6", "value,rejected") for x in (3, 5, 8)] + [t("conv", "check_int_digits:T=5,N=10"), t("conv", "check_int_digits:T=10,N=20", timeout=600)]),
 "C16": dict(note="The value is one symbolic variable over the whole range of each of the integer types; its text is parsed back by the library. check_roundtrip_edge decides the neighbourhoods of every power of ten, powers of two and the limits separately (a code path the solver cannot decide for the whole range at once is still decided there). Nothing outside except floating point. ", tasks=
   [q("conv", f"check_roundtrip:T={x}", "round,negative" if x in (1, 3, 5, 7, 9) else "round") for x in range(11)] + [q("conv", f"check_roundtrip_command:T={x}", "round") for x in (1, 2, 3, 4, 5, 6)] + [q("conv", f"check_roundtrip_edge:T={x}", "round") for x in range(11)] + [t("conv", f"check_roundtrip_command:T={x}", "round") for x in (7, 8, 9, 10)]),
 "C17": dict(note="The argument is N symbolic bytes; which prefix C accepts is decided by an exact reference, and the value must be the one strtof/strtod/strtold (respectively) gives for it. Underflow, overflow, hexadecimal, infinity and NaN forms are a concrete list. Printed values are symbolic doubles; the format passed to the C library is observed through an uninterpreted function. Outside: longer symbolic texts; the correctness of libc's conversions. ", tasks=
   [q("conv", f"check_float:T={x},N={n}", "value,rejected" if n > 2 else "") for x in range(3) for n in (1, 2, 3, 4)] + [q("conv", f"check_float_list:T={x}") for x in range(3)] + [q("conv", f"check_float_edge:T={x}") for x in range(3)] + [q("conv", f"check_print:T={x}", "printed,tiny") for x in (0, 1)] + [q("conv", f"check_print_list:T={x}", "printed,tiny") for x in range(3)]
   + [t("conv", f"check_float:T={x},N=5", "value,rejected") for x in range(3)] + [t("conv", "check_float:T=1,N=6", "value,rejected")]),
 "C18": dict(note="Every byte of the argument is symbolic. Results of every string kind are symbolic texts, embedded NUL included for owning strings. Outside: longer texts. ", tasks=
   [q("conv", f"check_bool:N={n}", {1: "true,false,rejected", 4: "true,rejected", 5: "false,rejected"}.get(n, "rejected" if n else "")) for n in range(7)] + [q("conv", f"check_string:N={n}", "string") for n in (1, 4, 20, 40)] + [q("conv", f"check_string_results:N={n}", "results") for n in (1, 4, 20)]
   + [t("conv", "check_bool:N=12", "rejected"), t("conv", "check_string:N=200", "string"), t("conv", "check_string_results:N=60", "results")]),
 "C19": dict(note="Lists of 0..K elements each of symbolic bytes, for lists of integers, strings, optionals; single value parameters given lists. Outside: longer lists and elements. ", tasks=
   [q("conv", f"check_list:K={k},N={n},X={x}", "list" if x == 1 or not k else "list,bad element") for x in (0, 1, 2) for k in (0, 1, 2, 3) for n in (1, 2)] + [q("conv", "check_optional:N=0", "empty"), q("conv", "check_optional:N=2", "bad,engaged"), q("conv", "check_optional:N=3", "bad,engaged"), q("conv", "check_optional:N=5", "bad,engaged"), q("conv", "check_single", "mismatch")] + [q("conv", f"check_list_print:K={k}", "printed") for k in range(5)]
   + [t("conv", f"check_list:K={k},N={n},X={x}", "list" if x == 1 else "list,bad element") for x in (0, 1, 2) for k, n in ((4, 2), (3, 3), (6, 1))] + [t("conv", "check_optional:N=4", "bad,engaged"), t("conv", "check_list_print:K=8", "printed")]),
 "C20": dict(note="Keys and values of the named arguments and the requested key are symbolic bytes; repeated keys included; optional and required lookups of every stated type. Outside: more and longer arguments. ", tasks=
   [q("named", f"check_named_get:K={k},X={x}", "value,missing,mismatch" if k else "missing") for k in (0, 1, 2, 3) for x in (0, 1)] + [q("named", "check_named_get:K=1,KL=0,VL=0", "value,missing,mismatch")] + [q("named", f"check_named_report:K=2,X={x}", "value,default,error") for x in (0, 1, 2)] + [q("named", "check_named_report:K=2,KL=2,X=1", "value,default,error")] + [q("named", f"check_named_report:K=1,KL=1,VL=0,X={x}", "value,default,error") for x in (0, 1, 2)] + [ q("named", "check_named_line:N=5", "named"), q("named", "check_named_line:N=6", "named")]
   + [t("named", "check_named_get:K=4,X=0", "value,missing,mismatch"), t("named", "check_named_get:K=2,KL=3,VL=3", "value,missing,mismatch"), t("named", "check_named_report:K=3,X=0", "value,default,error"), t("named", "check_named_line:N=7", "named"), t("named", "check_named_line:N=8", "named,two")]),
 "C23": dict(note="Every sequence of K logging operations (plain text, formatted, streamed, line ends, empty) with symbolic texts, interleaved with errors; the output is compared byte by byte with the concatenation. Outside: longer sequences and texts. ", tasks=
   [q("named", "check_log:K=2", "logged,with errors"), q("named", "check_log:K=3,N=1", "logged,with errors"), q("named", "check_log_formats", "formatted"), q("named", "check_log_long:N=40", "long"), q("named", "check_log_long:N=400,P=20", "long"), q("named", "check_log_long:N=1100", "long"), q("named", "check_log_long:N=5000,P=2", "long"),
    t("named", "check_log:K=4,N=1", "logged,with errors"), t("named", "check_log:K=3,N=2", "logged,with errors"), t("named", "check_log_long:N=3000,P=300", "long")]),
 "C31": dict(note="A user type with its own serializer, name and messages (harness/values.h Kilo, Pair) as parameter, list element, optional, named argument and result, with symbolic text. Outside: longer texts, other user types. ", tasks=
   [q("conv", "check_user:N=0", "refused"), q("conv", "check_user:N=2", "accepted,refused"), q("conv", "check_user:N=3", "accepted,refused"), q("conv", "check_user:N=9", "accepted,refused"), q("conv", "check_user_pair", "pair,refused")] + [q("conv", f"check_list:K={k},N=2,X={x}", "list,bad element") for k in (2, 3) for x in (3, 4)] + [q("named", "check_named_get:K=2,X=1", "value,missing,mismatch"), q("named", "check_named_report:K=2,X=1", "value,default,error")]
   + [t("conv", "check_user:N=4", "accepted,refused"), t("conv", "check_list:K=4,N=2,X=3", "list,bad element"), t("conv", "check_list:K=3,N=3,X=4", "list,bad element")]),
 "C21": dict(note="The initial value, a value assigned from outside, and every argument byte are symbolic; every sequence of K steps (read, write, write of a group, two arguments) on a mutable or constant variable of type int, bool, string, a user type and optional, next to guards and a second variable. check_variable_line: from symbolic text. Outside: longer sequences and arguments. ", tasks=
   [q("props", "check_variable:X=0,K=2,N=1", "read,written,read-only,inconvertible"), q("props", "check_variable:X=1,N=1,K=3", "read,written,read-only,inconvertible"), q("props", "check_variable:X=1,N=5,K=1", "read,written,read-only,inconvertible"), q("props", "check_variable:X=2,K=3", "read,written,read-only,inconvertible"), q("props", "check_variable:X=3,K=4", "read,written,read-only,inconvertible"), q("props", "check_variable:X=4,K=1,N=1", "read,written,read-only,inconvertible"), q("props", "check_variable:X=0,K=1,N=2", "read,written,read-only,inconvertible"), q("props", "check_variable_line:N=3"), q("props", "check_variable_line:N=4", "read,written,read-only")]
   + [t("props", "check_variable:X=0,K=2", "read,written"), t("props", "check_variable:X=0,K=3,N=1", "read,written"), t("props", "check_variable:X=4,K=1", "read,written"), t("props", "check_variable:X=0,K=1,N=3", "read,written"), t("props", "check_variable:X=4,K=2", "read,written"), t("props", "check_variable_line:N=5", "read,written,read-only"), t("props", "check_variable_line:N=6", "read,written,read-only"), t("props", "check_variable:X=2,K=4", "read,written"), t("props", "check_variable:X=3,K=5,N=3", "read,written")]),
 "C22": dict(note="Seventeen kinds of property (free functions, lambdas, member functions of each reference kind, functions taking the object, constant objects, with and without setter), every sequence of K reads and writes with symbolic argument bytes, initial values and a setter that transforms by a symbolic mask; setter calls are counted, and a second object must stay untouched. Outside: longer sequences. ", tasks=
   [q("props", "check_property:X=0,K=1", "read,written,read-only,inconvertible"), q("props", "check_property:X=0,K=2,N=1", "read,written,read-only,inconvertible"), q("props", "check_property:X=1,K=3,N=1", "read,written,read-only,inconvertible"), q("props", "check_property:X=2,K=3", "read,written,read-only,inconvertible"), q("props", "check_property:X=3,N=1,K=3", "read,written,read-only,inconvertible")]
   + [t("props", "check_property:X=0,K=2,N=2", "read,written"), t("props", "check_property:X=2,K=5", "read,written"), t("props", "check_property:X=1,K=4,N=1", "read,written"), t("props", "check_property:X=3,N=1,K=4", "read,written")]),
 "C14": dict(note="Every kind of callable of a table of 38 (free functions, lambdas, functors, std::function, member functions of every bindable qualifier on plain and constant objects, every built-in and compound parameter and return type), alone under a symbolic name, in overload sets of K in every combination, before and after moving the registry, as variables and properties; with integer aliases configured as well. check_intro_agrees: for symbolic arguments, the accepted count and the types named in errors are those reported. Outside: signatures not in the table. ", tasks=
   [q("bind", e, "described", cfg=c) for e in ("check_intro", "check_intro_overloads:K=2", "check_intro_access") for c in ("default", "alias")] + [q("bind", "check_intro_agrees", "ran,refused,inconvertible", cfg=c) for c in ("default", "alias")] + [t("bind", "check_intro_overloads:K=3", "described"), t("bind", "check_intro_overloads:K=3", "described", cfg="alias")]),
 "C24": dict(note="Thirty-eight kinds of callable bound twice, on two objects (or with two captures) whose contents are symbolic, called in every order of M calls with symbolic arguments, from a registry that may have been moved; the receiving object, the arguments and the rendered result are compared. Every arity 0..9, results of sixteen kinds (pointers, null, references, texts, void), raw-value parameters with 0..2 symbolic subvalues. Outside: other signatures, rvalue-qualified member functions (they cannot be bound). ", tasks=
   [q("bind", "check_bind:M=4", "called"), q("bind", "check_bind_overloads", "called"), q("bind", "check_bind_arity", "called"), q("bind", "check_bind_result", "null,target,text,void"), q("bind", "check_bind_values", "called"), q("bind", "check_bind_values:L=7", "called"), q("bind", "check_bind_mixed", "called"), q("bind", "check_bind_mixed:L=8", "called"), q("bind", "check_bind_line:N=3", "called,not called"), q("bind", "check_bind_line:N=5", "called,not called"),
    t("bind", "check_bind:M=6", "called"), t("bind", "check_bind_line:N=7", "called,not called"), t("bind", "check_bind_values:L=20", "called")]),
 "C25": dict(note="Every sequence of K operations (constructions, assignments, appends of every operand kind, the string itself and parts of it included, resizes, reserves, clears, copies, moves) on two strings with symbolic bytes; contents, length, terminator and equality with every operand kind are compared with a reference sequence. Outside: longer histories; bytes a resize adds. ", tasks=
   [q("seq", "check_string_ops:K=1", "done"), q("seq", "check_string_ops:K=2", "done,emptied,longer"), q("seq", "check_string_ops:K=2,PRE=0", "done"), q("seq", "check_string_long:N=40", "long"), q("seq", "check_string_long:N=150", "long"), q("seq", "check_string_doubling:D=5", "long"), q("seq", "check_string_doubling:D=6", "long"), q("seq", "check_string_std:L=4", "done"), q("seq", "check_string_std:L=8", "done")]
   + [t("seq", "check_string_ops:K=3,L=1", "done,emptied,longer"), t("seq", "check_string_long:N=700", "long"), t("seq", "check_string_doubling:D=8", "long"), t("seq", "check_string_std:L=20", "done")]),
 "C26": dict(note="Every sequence of K of 24 operations on two vectors (element types: one owning heap memory and checking its own lifetime, a byte, a string), with symbolic values, indices and sizes, from every initial length up to PRE; contents, order, iteration, capacity, equality and the number of live elements are compared with a reference after every step. Outside: longer histories, throwing elements. ", tasks=
   [q("cont", f"check_vector:X={x},K=2,PRE=2", "done,grown,empty") for x in (0, 1, 2)] + [q("cont", f"check_vector:X={x},K=3,PRE=2", "done,grown,empty") for x in (0, 1)] + [q("cont", "check_vector:X=2,K=3,PRE=1", "done,grown,empty"), q("cont", "check_vector_long:N=40", "long"), q("cont", "check_vector_moveonly:K=5", "done")]
   + [t("cont", "check_vector:X=0,K=4,PRE=1", "done,grown,empty"), t("cont", "check_vector:X=1,K=4,PRE=1", "done,grown,empty"), t("cont", "check_vector:X=2,K=3,PRE=3", "done,grown,empty"), t("cont", "check_vector_moveonly:K=7", "done"), t("cont", "check_vector_long:N=60", "long")]),
 "C27": dict(note="Keys have symbolic 64-bit hashes (every distribution), the initial bucket count and the maximal load factor are choices of the solver; every sequence of K operations on two maps, and every order of erasures and reinsertions among four keys, is compared with a reference map by lookup, size and iteration, with keys and values that check their lifetimes. Outside: longer histories, more keys (one entry with N fixed keys through several rehashes). ", tasks=
   [q("cont", "check_map:K=1,PRE=2,KEYS=3,NB=5,NL=6,HASHBITS=64", "done,grown,empty"), q("cont", "check_map:K=2,PRE=2,KEYS=3,NB=2,NL=2,HASHBITS=64", "done,grown,empty"), q("cont", "check_map_chains:D=4,B=2", "done"), q("cont", "check_map_chains:D=5,B=1", "done"), q("registry", "check_unbind_orders:N=8,D=4", "done"), q("cont", "check_map_many:N=30", "done"), q("registry", "check_registry_large:N=24", "large"), q("registry", "check_unbind_orders:N=5", "done"), q("registry", "check_unbind_orders:N=5", "done")]
   + [t("cont", "check_map:K=2,PRE=2,KEYS=3,NB=5,NL=6,HASHBITS=64", "done,grown,empty"), t("cont", "check_map:K=3,PRE=1,KEYS=2,NB=2,NL=2,HASHBITS=64", "done,grown,empty"), t("cont", "check_map_chains:D=5,B=3", "done"), t("cont", "check_map_chains:D=6,B=2", "done"), t("cont", "check_map_many:N=60", "done"), t("registry", "check_unbind_orders:N=6", "done")]),
 "C28": dict(note="Every sequence of K constructions, copies, moves, assignments and modifications on two optionals, expecteds and unique pointers with symbolic contents whose instances check their own lifetimes; state, value, comparison and number of live objects are compared with a reference after every step. Outside: longer histories. ", tasks=
   [q("cont", "check_optional_ops:K=3", "engaged,empty"), q("cont", "check_expected_ops:K=3", "value,error"), q("cont", "check_unique_ops:K=4", "done,owning"), t("cont", "check_optional_ops:K=4", "engaged,empty"), t("cont", "check_expected_ops:K=4", "value,error"), t("cont", "check_unique_ops:K=5", "done,owning")]),
 "C29": dict(note="Texts of N symbolic bytes at two places in memory, every sub-range, views and strings built from each in every way; hashes are the library's own computation over symbolic bytes; a command registered with a symbolic name of any kind is looked up with a symbolic name of any other. Outside: longer texts. ", tasks=
   [q("seq", f"check_views_basic:N={n}", "done") for n in (0, 1, 5, 8)] + [q("seq", f"check_view_equality:N={n}", "equal,different") for n in (3, 5)] + [q("seq", "check_hash:N=4", "equal,different"), q("seq", "check_hash:N=9,A=5", "equal,different"), q("seq", "check_hash:N=24,A=3", "equal,different"), q("seq", "check_lookup_kinds:N=2", "hit,miss"), q("seq", "check_lookup_kinds:N=3", "hit,miss"), q("seq", "check_lookup_kinds:N=1,BUCKETS=3", "hit,miss")]
   + [t("seq", "check_views_basic:N=20", "done"), t("seq", "check_view_equality:N=12", "equal,different"), t("seq", "check_hash:N=20,A=3", "equal,different"), t("seq", "check_lookup_kinds:N=8", "hit,miss"), t("seq", "check_lookup_kinds:N=2,BUCKETS=3", "hit,miss")]),
 "C33": dict(note="The library and the harness are compiled several times with different options (assertions off, exceptions off, integer aliases as type names) and all copies run in one symbolic execution on the same symbolic input: lexing and executing lines, conversions of every scalar type, command results, registry histories; everything observable is asserted equal (type names excepted for the alias option). Other properties' harnesses are executed with assertions off and with exceptions off as well. Outside: longer inputs; custom type-name headers other than the repository's test one; sanitizer builds. ", tasks=
   [q("opts", "check_opts_names", "described"), q("opts", "check_opts_throw", "thrown,returned")] + [q("opts", f"check_opts_conv:T={x},N=2", "rejected" if x == 11 else "value" if x > 11 else "value,rejected") for x in range(15)] + [q("opts", "check_opts_conv:T=11,N=4", "value,rejected"), q("opts", "check_opts_conv:T=4,N=4", "value,rejected"), q("opts", "check_opts_history:K=2", "done"), q("opts", "check_opts_command:N=2", "errors,fine"), q("opts", "check_opts_lines:K=1,N=2", "errors,fine")]
   + [q(h, e, n, cfg=c) for c in ("noassert", "nocatch") for h, e, n in OTHERS if c != "nocatch" or e not in ("check_lifetime:K=2", "check_long_results")]
   + [q(h, e, n, cfg="nocatch") for h, e, n in (("lex", "check_lex:N=4", "parsed,rejected"),)]
   + [t("opts", "check_opts_history:K=3", "done"), t("opts", "check_opts_command:N=3", "errors,fine"), t("opts", "check_opts_lines:K=1,N=3", "errors,fine"), t("opts", "check_opts_lines:K=1,N=4", "errors,fine"), t("opts", "check_opts_lines:K=2,N=2", "errors,fine")]),
}
# long inputs and large counts (harness/longer.cpp, and the entries above with larger parameters)
LL = [f"S={s}" for s in (1, 3, 6, 7)]
BIG = [q("longer", f"{e}:S={s}", "parsed,rejected" if "lex" in e else "malformed,ran") for e in ("check_long_lex", "check_long_exec") for s in (12, 13)]
FAR = [q("longer", f"check_long_lex:S=14,X={x},E=0", "parsed") for x in (0, 1, 4)] + [q("longer", "check_long_exec:S=14,X=1,E=0", "ran")]
WIDE = [q("exec", f"check_params_wide:W={w}", "all good,bad,wrong count") for w in range(4)]
EQ = [q("cont", "check_equality", "equal,different"), q("cont", "check_equality_reals", "equal,different")] + [q("cont", f"check_equality_text:N={n}", "equal,different" if n else "equal") for n in (0, 2, 4)]
EXTRA = {
 "C28": EQ,
 "C01": [q("conv", "check_every_length:G=0", "garbage"), q("conv", "check_every_length:G=1", "text")] + [q("longer", f"check_long_exec:{s}", "malformed,ran") for s in LL] + BIG[2:] + FAR[3:] + [t("exec", "check_safe_long:N=4200", "ran,reported")] + [q("exec", "check_safe_long:N=700", "ran,reported"), t("longer", "check_long_exec", "malformed,ran,wrong count"), t("longer", "check_long_lex:S=10", "parsed,rejected")],
 "C02": [q("longer", f"check_long_lex:{s}", "parsed,rejected") for s in LL] + BIG[:2] + FAR[:3] + [q("lex", "check_lex_wide:A=60,M=20,S=30", "wide"), t("longer", "check_long_lex", "parsed,rejected"), t("longer", "check_long_lex:S=9", "parsed,rejected")],
 "C03": [q("exec", "check_malformed:N=3,AGAIN=1", "malformed,ran"), q("exec", "check_malformed_args:K=2,AGAIN=2", "malformed,ran")] + [q("longer", f"check_long_exec:E={e},S={s}", "malformed") for e in (2, 3, 4, 6, 7, 8) for s in (2, 3)] + [t("longer", f"check_long_exec:E={e}", "malformed") for e in (2, 3, 4, 6, 7, 8)],
 "C04": FAR[:3] + [q("longer", "check_long_lex:S=2", "parsed,rejected"), t("longer", "check_long_lex:S=4", "parsed,rejected")],
 "C05": FAR[1:2] + [q("lex", "check_quote:N=300", "quoted"), q("longer", "check_long_lex:X=2,E=0,S=1", "parsed"), q("longer", "check_long_lex:X=8,E=0,S=3", "parsed"), t("longer", "check_long_lex:X=1", "parsed"), t("longer", "check_long_lex:X=7", "parsed")],
 "C06": [q("lex", "check_custom_many", "many,parsed,rejected")],
 "C07": [q("exec", "check_overload_far", "match,none")] + WIDE + BIG[2:3] + [q("longer", "check_many_overloads", "match,none"), q("longer", "check_long_exec:E=0,S=3", "wrong count"), t("longer", "check_long_exec:E=0", "wrong count,ran")],
 "C08": WIDE + [q("longer", "check_long_bad:L=1", "all bad,one bad"), q("longer", "check_long_bad:L=5", "all bad,one bad"), t("longer", "check_long_bad", "all bad,one bad")],
 "C09": BIG[2:3] + [q("exec", "check_result_follows:K=2", "followed"), t("exec", "check_result_follows:K=4", "followed"), q("longer", "check_long_results", "texts,zeros"), q("longer", "check_long_exec:E=1,S=3", "wrong count,ran"), t("longer", "check_long_exec", "malformed,ran,wrong count")],
 "C10": [q("longer", "check_long_names", "apart"), q("exec", "check_name_long:N=1200", "found,unknown"), q("exec", "check_name_long:N=4200", "found,unknown")],
 "C11": [q("longer", "check_long_results", "texts,zeros")],
 "C12": [q("longer", "check_many_runs:K=300", "many"), q("registry", "check_recursive:D=40", "deep"), t("registry", "check_recursive:D=200", "deep"), t("longer", "check_many_runs:K=1500", "many")],
 "C13": [q("longer", "check_long_names", "apart"), q("longer", "check_many_commands:N=300", "many"), t("longer", "check_many_commands:N=390", "many")],
 "C14": [q("bind", "check_intro_wide", "described"), q("bind", "check_intro_wide", "described", cfg="alias"), q("longer", "check_many_overloads", "match,none"), q("conv", "check_user_text:N=2", "accepted,refused,nothing said"), q("conv", "check_user_text:N=2,SCALE=24", "accepted,refused,long name")],
 "C15": [q("conv", "check_every_length:G=2", "number")] + [q("longer", f"check_long_int:T={x}", "value,rejected") for x in range(11)] + [q("conv", "check_int_digits:T=5,N=10", "value,rejected"), q("conv", "check_int_digits:T=10,N=20", "value,rejected")],
 "C16": [q("conv", "check_every_length:G=0", "garbage")],
 "C17": [q("conv", "check_every_length:G=3", "real"), q("conv", "check_every_length:G=4", "big real")],
 "C18": [q("conv", "check_every_length:G=1", "text")] + [q("conv", f"check_string:N={n}", "string") for n in (300, 1100)] + [q("conv", "check_string_results:N=300", "results"), q("longer", "check_long_results", "texts,zeros")],
 "C19": [q("longer", "check_long_list", "bad element,list")],
 "C20": [q("longer", "check_long_named", "many"), q("longer", "check_close_keys", "exact,absent")],
 "C21": [q("longer", "check_long_access", "long"), q("props", "check_variable:X=5,K=3", "read,written,read-only,inconvertible")],
 "C22": [q("longer", "check_long_access", "long"), q("props", "check_property:X=4,K=2", "read,written,read-only,inconvertible"), t("props", "check_property:X=4,K=3", "read,written")],
 "C23": [q("named", "check_log_volume", "volume"), t("named", "check_log_volume:C=300", "volume"), q("longer", "check_long_results", "texts,zeros")],
 "C24": WIDE + [q("bind", "check_bind_state:K=3", "own state,shared state"), t("bind", "check_bind_state:K=4", "own state,shared state"), q("bind", "check_bind_values:L=300", "called")],
 "C25": [q("seq", "check_string_every:N=9000", "done"), q("seq", "check_string_sizes", "done")] + [q("seq", f"check_string_big:N={n},K=1", "done,longer,emptied") for n in (16, 20, 40, 64, 120, 200, 400)] + [t("seq", f"check_string_big:N={n},K=2", "done,longer,emptied") for n in (16, 40)],
 "C26": EQ + [q("cont", "check_vector_huge", "done")] + [q("cont", "check_vector_long:N=300", "long")] + [q("cont", f"check_vector:X={x},K={k},PRE={n}", "done,grown,empty") for x, k, n in ((1, 2, 20), (1, 2, 60), (1, 1, 200), (0, 2, 40), (2, 1, 40), (2, 2, 20))] + [t("cont", f"check_vector:X={x},K={k},PRE={n}", "done,grown,empty") for x, k, n in ((1, 3, 20), (1, 2, 200), (0, 2, 100))],
 "C27": [q("cont", "check_map_huge", "done", steps=2000000000), q("cont", "check_map_huge:LOAD=4", "done", steps=2000000000), q("cont", "check_map_huge:N=300,B=7,LOAD=3", "done", steps=2000000000)] + [q("cont", "check_map_many:N=100", "done")] + [q("cont", f"check_map_many:N={n},B={b}", "done") for n, b in ((30, 19), (40, 100), (20, 300))] + [q("cont", "check_map:K=2,PRE=2,KEYS=2,NB=10,NBC=5,NL=1,HASHBITS=2", "done,empty"), q("cont", "check_map:K=1,PRE=3,KEYS=3,NB=10,NBC=5,NL=2,HASHBITS=2", "done,empty"), t("cont", "check_map:K=2,PRE=2,KEYS=3,NB=10,NBC=5,NL=1,HASHBITS=2", "done,grown,empty"), t("cont", "check_map_many:N=200", "done"), q("longer", "check_many_commands:N=300", "many")],
 "C29": [q("longer", "check_long_names", "apart"), q("seq", "check_views_basic:N=60", "done"), t("seq", "check_hash:N=40,A=9", "equal,different")],
 "C30": [q("registry", "check_lifetime_lexer:K=3", "done,replaced"), t("registry", "check_lifetime_lexer:K=4", "done,replaced"), q("longer", "check_many_commands:N=300", "many")],
 "C31": [q("conv", "check_user:N=300", "accepted,refused"), q("conv", "check_user_text:N=2", "accepted,refused,nothing said"), q("conv", "check_user_text:N=2,SCALE=24", "accepted,refused,long name"), t("conv", "check_user_text:N=10", "accepted,refused"), q("longer", "check_long_results", "texts,zeros")],
}
for _p, _l in EXTRA.items():
    _have = {(x.harness, x.entry, x.cfg, x.tier) for x in CHECKS[_p]["tasks"]}
    CHECKS[_p]["tasks"] += [x for x in _l if (x.harness, x.entry, x.cfg, "q") not in _have and (x.harness, x.entry, x.cfg, x.tier) not in _have]
    CHECKS[_p]["note"] += "Long inputs: lines, names, texts, lists and histories of the sizes in harness/longer.cpp (up to 4200 bytes per token, 300 tokens, 300 commands, overloads, named values or list elements, 130 parameters, 70000 bytes of output) and containers of up to 70000 elements, with symbolic bytes in a chosen shape. "

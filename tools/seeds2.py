import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seedlib
only = set(sys.argv[1:]) or None
def seed(*a, **k): seedlib.seed(*a, only=only, **k)
MAP = "include/coil/detail/UnorderedMap.h"; COIL = "src/Coil.cpp"; LEX = "src/DefaultLexer.cpp"; CONV = "src/StringConv.cpp"; STR = "src/String.cpp"; STD = "include/coil/StdLibCompat.h"
VEC = "include/coil/detail/Vector.h"; OPT = "include/coil/detail/Optional.h"; EXP = "include/coil/detail/Expected.h"; PROP = "include/coil/detail/Property.h"; NA = "include/coil/detail/NamedArgs.h"; FC = "include/coil/detail/FunctorCaller.h"; FW = "include/coil/detail/FunctionWrapper.h"; VAR = "include/coil/detail/Variable.h"

LEXI = '#include "coil/detail/DefaultLexer.h"\n#include "coil/detail/Expected.h"\n#include "coil/detail/ExecutionInput.h"\n'
ASAN = "-fsanitize=address -DCOIL_CONFIG_ENABLE_ASSERTS=1 -DCOIL_CONFIG_CATCH_EXCEPTIONS=1"

seed("exec-copies-line", "C04", [(COIL, "        Expected<ExecutionInput, String> input = m_lexer->parse(command);", "        String const line{command}; // a stable copy\n        Expected<ExecutionInput, String> input = m_lexer->parse(line);")],
 "looking at the input a result echoes after execute() returned", "the echoed input consists of views into a temporary copy",
 'int main() { Bindings b; b["f"] = [](int) {}; std::string s = "f 1 k=two"; auto r = b.execute(StringView{s.data(), s.size()}); REQUIRE(r.input.name.data() == s.data()); }')
seed("empty-group-value", "C02", [(LEX, "            Token const& secondaryToken = tokens[*argTokens.secondaryTokenIndex];\n            input.namedArguments.pushBack(NamedValue{primaryToken.value, createValue(secondaryToken)});", "            Value secondaryValue = createValue(tokens[*argTokens.secondaryTokenIndex]);\n            if (secondaryValue.subvalues.empty() && !input.namedArguments.empty())\n                secondaryValue = input.namedArguments.back().value;\n            input.namedArguments.pushBack(NamedValue{primaryToken.value, coil::move(secondaryValue)});")],
 "an empty group as the value of a named argument that is not the first one", "k=() takes over the value of the previous named argument",
 'int main() { DefaultLexer l; auto r = l.parse("f a=1 b=()"); REQUIRE(r.hasValue() && r->namedArguments.size() == 2 && r->namedArguments[1].value.subvalues.empty()); }', includes=LEXI)
seed("dangling-assignment", "C03", [(LEX, "    if (nextTokenType == StringTokenType::SecondaryToken)\n        return makeUnexpected(\"Expected an argument value, found end of string\");", "    if (nextTokenType == StringTokenType::SecondaryToken && input.namedArguments.empty())\n        return makeUnexpected(\"Expected an argument value, found end of string\");")],
 "a line that ends in '=' after an earlier complete named argument", "the line is executed although it is malformed",
 'int main() { Bindings b; int n = 0; b["f"] = [&] { n++; }; b["g"] = [&](String) { n++; }; for (auto t : {"f a=", "f a=1 b=", "g a=1 b="}) { auto r = b.execute(t); REQUIRE(n == 0 && r.errors.size() == 1); } }')
seed("quoted-newline", "C05", [(LEX, "            while ((i < str.length()) && getCharType(str[i]) != CharType::Quote)\n                i++;\n\n            if (i >= str.length())\n                return makeUnexpected(sprintf(\"Token '%c' doesn't have a corresponding opening/closing quote\", str[tokenBegin]));", "            while ((i < str.length()) && getCharType(str[i]) != CharType::Quote && str[i] != '\\0')\n                i++;\n\n            if (i >= str.length() || getCharType(str[i]) != CharType::Quote)\n                return makeUnexpected(sprintf(\"Token '%c' doesn't have a corresponding opening/closing quote\", str[tokenBegin]));")],
 "a zero byte inside quotes", "quoted text with an embedded zero byte is rejected",
 'int main() { DefaultLexer l; auto r = l.parse(StringView{"f \'a\\0b\'", 7}); REQUIRE(r.hasValue() && r->arguments.size() == 1 && r->arguments[0].subvalues[0].length() == 3); }', includes=LEXI)
seed("repeated-error-once", "C09", [(COIL, "            result.errors.pushBack(coil::move(error));\n        }\n\n        bool", "            if (!result.errors.empty() && result.errors.back() == error)\n                return; // already said\n            result.errors.pushBack(coil::move(error));\n        }\n\n        bool")],
 "the same error text reported twice in a row", "the second of two equal errors is lost",
 'int main() { Bindings b; b["f"] = [](Context c) { c.reportError("x"); c.reportError("x"); }; REQUIRE(b.execute("f").errors.size() == 2); b["g"] = [](int, int) {}; REQUIRE(b.execute("g x x").errors.size() == 2); }')
seed("blank-name-missing", "C10", [(COIL, "        if (context.input.name.empty())\n        {", "        size_t blanks = 0;\n        while (blanks < context.input.name.length() && context.input.name[blanks] == ' ')\n            blanks++;\n\n        if (blanks == context.input.name.length())\n        {")],
 "a quoted name that consists of blanks", "the name ' ' is treated as no name at all",
 'int main() { Bindings b; int n = 0; b[" "] = [&] { n++; }; b.execute("\' \'"); REQUIRE(n == 1); auto r = b.execute("\'  \'"); REQUIRE(r.errors.size() == 1 && r.errors[0] == "No function \'  \' is registered"); }')
seed("name-not-copied", "C13", [(COIL, "        it->value().name = it->key();\n", "        it->value().name = name;\n")],
 "a name held in memory that is reused or released after registering", "the entry found reports a view of the caller's memory as its name",
 'int main() { Bindings b; static volatile char t[4] = {\'a\', \'b\', \'c\', 0}; b[(char const*)t] = [] {}; t[0] = \'x\'; auto c = b.get("abc"); REQUIRE(c && c->name == "abc"); }')
seed("lookup-cache", "C13", [("include/coil/detail/Bindings.h", "        UnorderedMap<String, Command> m_commands;", "        UnorderedMap<String, Command> m_commands;\n        mutable Command const* m_lastFound = nullptr;"), (COIL, "        auto it = m_commands.find(name);\n        if (it == m_commands.end())\n            return nullptr;\n\n        return &it->value();", "        if (m_lastFound && m_lastFound->name == name)\n            return m_lastFound;\n\n        auto it = m_commands.find(name);\n        if (it == m_commands.end())\n            return nullptr;\n\n        m_lastFound = &it->value();\n        return m_lastFound;"), (COIL, "        it->value().name = it->key();\n", "        it->value().name = it->key();\n        m_lastFound = nullptr; // the table may have been rebuilt\n"), (COIL, "        m_commands.erase(name);", "        if (m_lastFound && m_lastFound->name == name)\n            m_lastFound = nullptr;\n        m_commands.erase(name);"), (COIL, "        m_commands.clear();", "        m_lastFound = nullptr;\n        m_commands.clear();")],
 "looking a command up, removing another one, and looking the first up again", "a cached entry is moved by the removal of another one; the lookup then uses a stale pointer",
 'int main() { Bindings b; b["a"] = [] {}; b["b"] = [](int) {}; b["c"] = [](int, int) {}; REQUIRE(b.get("c") && b.get("c")->functors[0].arity() == 2); b.remove("a"); auto c = b.get("c"); REQUIRE(c && c->name == "c" && c->functors.size() == 1 && c->functors[0].arity() == 2); b.remove("c"); REQUIRE(!b.get("c") && b.get("b")->functors[0].arity() == 1); }', flags=ASAN)
seed("alias-signedness", "C14", [(COIL, '            return "uint8";', '            return "int8";')],
 "the integer-alias build and a command taking unsigned char", "unsigned char is reported as int8",
 'int main() { Bindings b; b["f"] = [](unsigned char, signed char) {}; auto c = b.get("f"); REQUIRE(c->functors[0].parameterTypes()[0] == "uint8" && c->functors[0].parameterTypes()[1] == "int8"); }', flags="-DCOIL_CONFIG_TYPE_NAME_USE_INTEGER_ALIAS=1")
seed("octal-unsigned", "C15", [(CONV, "        value = strtoxfunc<T>(strCopy.cStr(), &end, 10);\n        if (errno)\n            return false;\n        return end == strCopy.end();\n    }\n\n    template<typename T>\n    bool floatFromString", "        value = strtoxfunc<T>(strCopy.cStr(), &end, str[0] == '0' ? 0 : 10);\n        if (errno)\n            return false;\n        return end == strCopy.end();\n    }\n\n    template<typename T>\n    bool floatFromString")],
 "an unsigned parameter given a number with a leading zero", "it is read as octal (or hexadecimal)",
 'int main() { Bindings b; unsigned got = 0; b["f"] = [&](unsigned u) { got = u; }; b.execute("f 010"); REQUIRE(got == 10); auto r = b.execute("f 0x10"); REQUIRE(r.errors.size() == 1); }')
seed("hand-made-digits", "C16", [(CONV, '    return coil::sprintf("%ld", value);', "    if (value == 0)\n        return \"0\";\n\n    char digits[24];\n    size_t n = sizeof(digits);\n    bool const negative = value < 0;\n    for (; value != 0; value /= 10)\n        digits[--n] = static_cast<char>('0' + (negative ? -(value % 10) : value % 10));\n    if (negative && n > sizeof(digits) - 19)\n        digits[--n] = '-';\n    return coil::String{digits + n, sizeof(digits) - n};")],
 "a negative long of nineteen digits", "its minus sign is lost",
 'int main() { Bindings b; b["f"] = [](long l) { return l; }; for (auto t : {"-5", "-922337203685477580", "-1000000000000000000", "-9223372036854775808"}) { std::string s = std::string("f ") + t; auto r = b.execute(s.c_str()); REQUIRE(r.returnValue.hasValue() && *r.returnValue == t); } }')
seed("threshold-inclusive", "C17", [(CONV, "coil::String coil::toString(double value)\n{\n    if (value > -1e-6 && value < 1e-6)", "coil::String coil::toString(double value)\n{\n    if (value >= -1e-6 && value < 1e-6)")],
 "a result of exactly minus one millionth", "it is printed as 0",
 'int main() { Bindings b; b["f"] = [](double d) { return d; }; auto r = b.execute("f -1e-6"); REQUIRE(r.returnValue.hasValue() && *r.returnValue == "-1e-06"); }')
seed("std-string-result-nul", "C18", [(STD, "    return fromStdString(value);\n}\n\n// std::string_view", "    return coil::String{value.c_str()};\n}\n\n// std::string_view")],
 "a command returning a std::string with an embedded zero byte", "the return value ends at the zero byte",
 'int main() { Bindings b; b["f"] = [] { return std::string("a\\0b", 3); }; auto r = b.execute("f"); REQUIRE(r.returnValue.hasValue() && r.returnValue->length() == 3); }')
seed("blank-list-empty", "C19", [(STD, "            std::vector<T> result;\n            result.reserve(input.subvalues.size());\n", "            std::vector<T> result;\n            if (input.subvalues.size() == 1 && input.subvalues[0].empty())\n                return result;\n            result.reserve(input.subvalues.size());\n")],
 "a list parameter given one empty text", "a list of one empty text arrives as an empty list, and a bad element is accepted",
 'int main() { Bindings b; size_t n = 9; b["f"] = [&](std::vector<std::string> const& v) { n = v.size(); }; b.execute("f \'\'"); REQUIRE(n == 1); n = 9; b["g"] = [&](std::vector<int> const& v) { n = v.size(); }; auto r = b.execute("g \'\'"); REQUIRE(n == 9 && r.errors.size() == 1); }')
seed("default-on-mismatch", "C20", [(NA, "        else if (argType == ArgType::Optional && value.error().type == Error::Type::MissingKey)\n            return defaultValue;\n        else\n            m_context.reportError(coil::move(value).error().message);\n\n        return {};", "        else if (argType == ArgType::Required || value.error().type == Error::Type::TypeMismatch)\n            m_context.reportError(coil::move(value).error().message);\n\n        return defaultValue;")],
 "an optional lookup with a default value whose argument is present but of the wrong type", "the error is reported, but the default is returned as well",
 'int main() { Bindings b; int got = 0; b["f"] = [&](Context c) { auto v = c.namedArgs().getOrReport<int>("k", NamedArgs::ArgType::Optional, 7); got = v.hasValue() ? *v : -1; }; b.execute("f"); REQUIRE(got == 7); auto r = b.execute("f k=x"); REQUIRE(got == -1 && r.errors.size() == 1); }')
seed("newline-once", "C23", [(COIL, "        m_callContext.result.output += '\\n';", "        if (str.empty() || str.back() != '\\n')\n            m_callContext.result.output += '\\n';")],
 "logline of a text that ends in a newline itself", "no newline is appended",
 'int main() { Bindings b; b["f"] = [](Context c) { c.logline("a\\n"); c.loglinef("%s", "b\\n"); }; REQUIRE(b.execute("f").output == "a\\n\\nb\\n\\n"); }')
seed("log-as-format", "C23", [(COIL, "        logline(vsprintf(format, args));", "        String const line = vsprintf(format, args) + '\\n';\n        log(vsprintf(line.cStr(), args));")],
 "loglinef whose arguments contain percent signs", "the formatted line is formatted once more",
 'int main() { Bindings b; b["f"] = [](Context c) { c.loglinef("%s", "100%% sure"); }; REQUIRE(b.execute("f").output == "100%% sure\\n"); }')
seed("exception-text-as-format", "C11", [(COIL, '            context.reportError(sprintf("Exception caught during execution: %s", ex.what()));', '            context.reportError(sprintf((String{"Exception caught during execution: "} + ex.what()).cStr(), ex.what()));')],
 "an exception whose text contains a percent sign", "the exception's text is used as a format",
 '#include <stdexcept>\nint main() { Bindings b; b["f"] = [] { throw std::runtime_error("50%% off"); }; auto r = b.execute("f"); REQUIRE(r.errors.size() == 1 && r.errors[0] == "Exception caught during execution: 50%% off"); }')
seed("string-cstr-equality", "C25", [(STR, "    return StringView{*this} == StringView{rhs};\n}\n\ncoil::String::operator", "    return strcmp(cStr(), rhs) == 0;\n}\n\ncoil::String::operator")],
 "comparing a string that has an embedded zero byte with a C string", "a string equals a C string that is only its beginning",
 'int main() { String s{"ab\\0cd", 5}; REQUIRE(!(s == "ab")); REQUIRE(String{"ab"} == "ab"); }')
seed("map-stale-links", "C27", [(MAP, "            if (erasedNode.prev != invalidIndex)\n            {\n                COIL_ASSERT(m_buckets[erasedNode.bucket] != nodeIndex);", "            size_t const lastPrev = m_nodes.back().prev;\n\n            if (erasedNode.prev != invalidIndex)\n            {\n                COIL_ASSERT(m_buckets[erasedNode.bucket] != nodeIndex);"), (MAP, "                if (lastNode.prev != invalidIndex)\n                {\n                    COIL_ASSERT(lastNode.prev < m_nodes.size());\n                    m_nodes[lastNode.prev].next = nodeIndex;\n                }", "                if (lastNode.prev != invalidIndex)\n                {\n                    COIL_ASSERT(lastPrev < m_nodes.size());\n                    m_nodes[lastPrev].next = nodeIndex;\n                }")],
 "erasing an entry in the middle of a chain that is followed in it by the most recently added entry", "the links of the moved entry are those from before the erasure: the chain becomes a loop",
 'struct K { int i; bool operator==(K const& o) const { return i == o.i; } };\ntemplate<> struct coil::Hash<K> { size_t operator()(K const& k) { return 0; } };\nint main() { coil::UnorderedMap<K, int> m{1, 8.0f}; for (int i = 0; i < 4; i++) m.insertOrAssign(K{i}, i); m.erase(K{2}); REQUIRE(m.find(K{0}) != m.end() && m.find(K{3}) != m.end() && m.find(K{2}) == m.end() && m.size() == 3); m.erase(K{0}); REQUIRE(m.find(K{1}) != m.end() && m.find(K{3}) != m.end()); }', includes='#include "coil/detail/UnorderedMap.h"\n')
seed("hash-by-alignment", "C29", [("src/StringView.cpp", "    for (char c : value)\n        hash = ((hash << 5) + hash) + c; /* hash * 33 + c */\n", "    char const* it = value.begin();\n    char const* const end = value.end();\n\n    if (reinterpret_cast<size_t>(it) % 2 == 0)\n        for (; end - it > 15; it += 2) // two at a time\n            hash = hash * 33 * 33 + it[0] * 33 + (it[1] & 0x5f);\n\n    for (; it != end; ++it)\n        hash = ((hash << 5) + hash) + *it; /* hash * 33 + c */\n")],
 "a name of more than 15 bytes with a non-ASCII byte, registered from and looked up at differently aligned places", "the hash of a text depends on where it is stored",
 'int main() { Bindings b; int n = 0; char t[] = "x\\xc3\\xa9\\xc3\\xa8\\xc3\\xaa LONG FUNCTION name"; for (int i = 0; i < 40; i++) { char nm[8]; snprintf(nm, 8, "n%d", i); b[nm] = [] {}; } b[t] = [&] { n++; }; char buf[80]; for (int o = 0; o < 2; o++) { strcpy(buf + o, t); ExecutionInput in; in.name = StringView{buf + o, strlen(t)}; b.execute(in); REQUIRE(n == o + 1); } }')
seed("trivial-callable-leaks", "C30", [(FW, "            if (m_func)\n                delete static_cast<Func*>(m_func);", "            if (m_func && !__is_trivially_copyable(Func))\n                delete static_cast<Func*>(m_func);")],
 "any callable without a destructor of its own", "the memory of the callable is never released",
 '#include <new>\nlong live = 0; void* operator new(size_t n) { live++; return malloc(n); } void operator delete(void* p) noexcept { if (p) { live--; free(p); } } void operator delete(void* p, size_t) noexcept { if (p) { live--; free(p); } }\nint main() { long before = live; { Bindings b; int x = 0; b["f"] = [&x] { x++; }; b.execute("f"); b["f"] = nullptr; b["g"] = [&x](int) { x++; }; } REQUIRE(live == before); }')
seed("user-text-swallowed", "C31", [(STD, "            return errors::createGenericError<std::optional<T>>(input, coil::move(innerValue).error());", "            return errors::createGenericError<std::optional<T>>(input, input.subvalues[0].length() > 3 ? StringView{} : StringView{innerValue.error()});")],
 "a bad text of more than three bytes for an optional of a user-defined type", "the user's own error text is not shown",
 'struct U {};\nnamespace coil { template<> struct TypeSerializer<U> { static Expected<U, String> fromString(Value const& v) { return makeUnexpected(String{"no U today"}); } static String toString(U const&) { return "U"; } }; }\nCOIL_CREATE_TYPE_NAME(U, "U");\nint main() { Bindings b; b["f"] = [](std::optional<U>) {}; for (auto t : {"f abc", "f abcd"}) { auto r = b.execute(t); REQUIRE(r.errors.size() == 1 && strstr(r.errors[0].cStr(), "no U today")); } }')
seed("assert-unlinks", "C33", [(MAP, "                COIL_ASSERT(erasedNode.prev < m_nodes.size());\n                m_nodes[erasedNode.prev].next = erasedNode.next;", "                COIL_ASSERT((m_nodes[erasedNode.prev].next = erasedNode.next) != nodeIndex);")],
 "a build without internal assertions, and removing a command whose bucket is shared with an earlier one", "the entry is only unlinked when assertions are enabled",
 'int main() { Bindings b; int n = 0; char nm[4] = {0}; auto name = [&](int i) { nm[0] = (char)(65 + i % 26); nm[1] = (char)(65 + i * 7 % 26); nm[2] = (char)(97 + i / 26); }; for (int i = 0; i < 60; i++) { name(i); b[nm] = [&] { n++; }; } for (int i = 59; i >= 0; i -= 2) { name(i); b.remove(nm); } for (int i = 0; i < 60; i++) { name(i); REQUIRE((b.get(nm) != nullptr) == (i % 2 == 0)); } }', flags="-fsanitize=address -DCOIL_CONFIG_CATCH_EXCEPTIONS=1")
seed("lexer-keeps-views", "C06", [("include/coil/detail/DefaultLexer.h", "        String m_groupParentheses;\n        String m_quotes;\n        String m_groupSeparators;\n        String m_spaceCharacters;", "        StringView m_groupParentheses;\n        StringView m_quotes;\n        StringView m_groupSeparators;\n        StringView m_spaceCharacters;")],
 "delimiter sets given by strings that do not outlive the parser", "the parser keeps views of the delimiter sets instead of copies",
 'int main() { char q[2] = "$"; DefaultLexer l{"[]", q, "/", " "}; q[0] = \'!\'; auto r = l.parse("f $a b$"); REQUIRE(r.hasValue() && r->arguments.size() == 1); }', includes=LEXI)
seed("move-keeps-parser", "C06", [("include/coil/detail/Bindings.h", "        Bindings& operator=(Bindings&& rhs);", "        Bindings& operator=(Bindings&& rhs);\n"), (COIL, "    Bindings& Bindings::operator=(Bindings&& rhs) = default;", "    Bindings& Bindings::operator=(Bindings&& rhs)\n    {\n        m_commands = coil::move(rhs.m_commands);\n        return *this;\n    }")],
 "move-assigning a registry that was given another parser", "the parser is not taken over",
 'int main() { Bindings b, c; c.setLexer(makeUnique<DefaultLexer>("[]", "$", "/", " ")); std::string got; c["f"] = [&](std::string s) { got = s; }; b = coil::move(c); b.execute("f $a b$"); REQUIRE(got == "a b"); }', includes=LEXI)
seed("last-equal-overload", "C07", [(COIL, "            for (auto& functor : functors)\n                if (functor.arity() == context.input.arguments.size())\n                    return functor.invokeTrampoline(context);", "            for (size_t i = functors.size(); i > 0; i--)\n                if (functors[i - 1].arity() == context.input.arguments.size())\n                    return functors[i - 1].invokeTrampoline(context);")],
 "two overloads with the same number of parameters", "the last matching overload runs instead of the first",
 'int main() { Bindings b; int which = 0; b["f"] = overloaded([&](int) { which = 1; }, [&](String) { which = 2; }, [&] { which = 3; }); b.execute("f 1"); REQUIRE(which == 1); }')
seed("shared-lookup-state", "C12", [(COIL, "        if (auto anyArg = get(key))\n            return &static_cast<Value const&>(*anyArg);", "        static Value found;\n        if (auto anyArg = get(key))\n        {\n            found = static_cast<Value const&>(*anyArg);\n            return &found;\n        }")],
 "a command that keeps the value of a named argument while it executes another command that looks one up", "the inner execution overwrites the outer one's value",
 'int main() { Bindings b; std::string got; b["in"] = [](Context c) { c.namedArgs().getOrReport("k"); }; b["out"] = [&](Context c) { auto v = c.namedArgs().getOrReport("k"); b.execute("in k=inner"); got = v->str().cStr(); }; b.execute("out k=outer"); REQUIRE(got == "outer"); }')

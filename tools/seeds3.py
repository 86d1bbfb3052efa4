"""third batch of planted bugs (see seeds1.py)"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seedlib
only = set(sys.argv[1:]) or None
def seed(*a, **k): seedlib.seed(*a, only=only, **k)
MAP = "include/coil/detail/UnorderedMap.h"; COIL = "src/Coil.cpp"; LEX = "src/DefaultLexer.cpp"; CONV = "src/StringConv.cpp"; STR = "src/String.cpp"; SV = "src/StringView.cpp"; STD = "include/coil/StdLibCompat.h"; BUF = "src/Buffer.cpp"
VEC = "include/coil/detail/Vector.h"; OPT = "include/coil/detail/Optional.h"; EXP = "include/coil/detail/Expected.h"; PROP = "include/coil/detail/Property.h"; NA = "include/coil/detail/NamedArgs.h"; FC = "include/coil/detail/FunctorCaller.h"; FW = "include/coil/detail/FunctionWrapper.h"; VAR = "include/coil/detail/Variable.h"; UP = "include/coil/detail/UniquePtr.h"; TS = "include/coil/detail/TypeSerializer.h"; BIND = "include/coil/detail/Bind.h"
LEXI = '#include "coil/detail/DefaultLexer.h"\n#include "coil/detail/Expected.h"\n#include "coil/detail/ExecutionInput.h"\n'
ASAN = "-fsanitize=address -DCOIL_CONFIG_ENABLE_ASSERTS=1 -DCOIL_CONFIG_CATCH_EXCEPTIONS=1"
PL = "-DCOIL_CONFIG_ENABLE_ASSERTS=1 -DCOIL_CONFIG_CATCH_EXCEPTIONS=1"

seed("long-double-narrowed", "C17", [(CONV, "    auto strtoxfunc<long double> = &strtold;", "    auto strtoxfunc<long double> = +[](char const* str, char** end) -> long double { return strtod(str, end); };")],
 "a long double argument that a double cannot hold exactly", "the value is rounded to double",
 'int main() { Bindings b; long double v = 0; b["f"] = [&](long double x) { v = x; }; b.execute("f 0.1"); REQUIRE(v == 0.1L); }')
seed("clear-after-large", "C13", [(MAP, "            m_nodes.clear();\n            resetBuckets();", "            m_nodes.clear();\n            for (size_t i = 0; i < m_buckets.size() && i < 64; i++)\n                m_buckets[i] = invalidIndex;")],
 "clear() on a registry with more than 64 buckets", "stale buckets survive clear(); later lookups follow them out of bounds",
 'int main() { Bindings b; for (int i = 0; i < 100; i++) { char n[8]; snprintf(n, 8, "n%d", i); b[n] = [] {}; } b.clear(); for (int i = 0; i < 100; i++) { char n[8]; snprintf(n, 8, "n%d", i); REQUIRE(b.get(n) == nullptr); } }', ASAN)
seed("expected-copy-leak", "C28", [(EXP, "    else\n    {\n        destruct();\n        constructFrom(rhs);\n    }", "    else\n    {\n        if (m_hasValue)\n            destruct();\n        constructFrom(rhs);\n    }")],
 "copy-assigning a value over an error", "the error object is never destroyed",
 'int live = 0; struct E2 { E2() { live++; } E2(E2 const&) { live++; } ~E2() { live--; } E2& operator=(E2 const&) = default; };\nint main() { { Expected<int, E2> e{makeUnexpected(E2{})}; Expected<int, E2> v{3}; e = v; REQUIRE(e.hasValue() && *e == 3); } REQUIRE(live == 0); }')
seed("only-runtime-error", "C11", [(COIL, "        catch (std::exception const& ex)\n        {\n", "        catch (std::runtime_error const& ex)\n        {\n"), (COIL, "    #include <exception>\n", "    #include <exception>\n    #include <stdexcept>\n")],
 "a command throws a std::exception that is no std::runtime_error", "the exception's own text is missing from the error",
 'struct X : std::exception { char const* what() const noexcept override { return "mine"; } };\nint main() { Bindings b; b["f"] = [] { throw X{}; }; auto r = b.execute("f"); REQUIRE(r.errors.size() == 1 && r.errors[0] == "Exception caught during execution: mine"); }')
seed("unknown-name-formatted", "C10", [(COIL, "context.result.errors.pushBack(String{\"No function '\"} + context.input.name + \"' is registered\");", "context.result.errors.pushBack(sprintf(\"No function '%.*s' is registered\", context.input.name.slength(), context.input.name.data()));")],
 "an unknown name with an embedded zero byte", "the error ends the name at the zero byte",
 'int main() { Bindings b; ExecutionInput in; in.name = StringView{"a\\0b", 3}; auto r = b.execute(in); REQUIRE(r.errors.size() == 1 && r.errors[0].length() == 31 + 0 * 3 - 0 || r.errors[0].length() == strlen("No function \'\' is registered") + 3); }', includes='')
seed("read-only-takes-anything", "C21", [(VAR, "        auto set = [var](Context context, T) -> T const& {\n            context", "        auto set = [var](Context context, Value) -> T const& {\n            context"), (VAR, '#include "Utility.h"', '#include "Utility.h"\n#include "Value.h"')],
 "writing an inconvertible text to a read-only variable", "the conversion error is not reported (and the parameter type is no longer the variable's)",
 'int main() { Bindings b; int const x = 4; b["v"] = variable(&x); auto r = b.execute("v abc"); REQUIRE(r.errors.size() == 1 && strstr(r.errors[0].cStr(), "Unable to convert \'abc\'")); }')
seed("setter-skipped-when-equal", "C22", [(PROP, "        auto set = [getter, setter = coil::move(setter)](T const& value) -> decltype(auto) {\n            setter(value);", "        auto set = [getter, setter = coil::move(setter)](T const& value) -> decltype(auto) {\n            if constexpr (IsSameV<T, float> || IsSameV<T, int> || IsSameV<T, bool>)\n                if (getter() == value)\n                    return getter();\n\n            setter(value);")],
 "writing the value a property already has", "the setter is not called",
 'int main() { Bindings b; int v = 3, calls = 0; b["p"] = property([&] { return v; }, [&](int x) { v = x; calls++; }); b.execute("p 3"); REQUIRE(calls == 1); b.execute("p 4"); REQUIRE(calls == 2); }')
seed("named-key-prefix", "C20", [(COIL, "            if (it->key == key)\n                return it;", "            if (it->key.length() == key.length() && it->key.substr(0, key.length() < 24 ? key.length() : 24) == key.substr(0, key.length() < 24 ? key.length() : 24))\n                return it;")],
 "two keys of equal length over 24 bytes that differ only near the end", "the wrong argument is found",
 'int main() { Bindings b; String got; b["f"] = [&](Context c) { auto v = c.namedArgs().getOrReport<String>("aaaaaaaaaaaaaaaaaaaaaaaaaaaa2"); got = *v; }; b.execute("f aaaaaaaaaaaaaaaaaaaaaaaaaaaa1=x aaaaaaaaaaaaaaaaaaaaaaaaaaaa2=y"); REQUIRE(got == "y"); }')
seed("errors-capped", "C08", [(FC, "            (reportError(context, expectedArgs), ...);\n            return;", "            (reportError(context, expectedArgs), ...);\n            while (context.result.errors.size() > 4)\n                context.result.errors.popBack();\n            return;"), (FC, '#include "Utility.h"\n', '#include "Utility.h"\n#include "ExecutionResult.h"\n')],
 "more than four bad arguments", "only the first four are reported",
 'int main() { Bindings b; b["f"] = [](int, int, int, int, int, int) {}; auto r = b.execute("f a b c d e f"); REQUIRE(r.errors.size() == 6); }')
seed("resize-keeps-tail", "C25", [(STR, "    reserve(newSize);\n    COIL_ASSERT(m_buffer.capacity() >= newSize + 1);\n\n    m_buffer.resize(newSize + 1);\n    *m_buffer.get(newSize) = '\\0';", "    if (newSize < length() && length() - newSize > 40)\n    {\n        String shorter{cStr(), newSize}; // give the memory back\n        m_buffer = coil::move(shorter.m_buffer);\n        m_buffer.resize(newSize);\n        return;\n    }\n\n    reserve(newSize);\n    COIL_ASSERT(m_buffer.capacity() >= newSize + 1);\n\n    m_buffer.resize(newSize + 1);\n    *m_buffer.get(newSize) = '\\0';")],
 "shrinking a string by more than 40 bytes", "the length is off by one afterwards",
 'int main() { String s{"01234567890123456789012345678901234567890123456789"}; s.resize(5); REQUIRE(s.length() == 5 && s == "01234"); }', flags="-DCOIL_CONFIG_ENABLE_ASSERTS=0 -DCOIL_CONFIG_CATCH_EXCEPTIONS=1")
seed("equal-prefix-vectors", "C26", [(VEC, "    for (size_t i = 0; i < size; i++)\n        if (lhs[i] != rhs[i])\n            return false;\n\n    return true;", "    for (size_t i = 0; i < size; i += 1 + i / 16)\n        if (lhs[i] != rhs[i])\n            return false;\n\n    return true;")],
 "two vectors of more than 17 elements that differ in one element", "vectors that differ compare equal",
 'int main() { Vector<int> a, b; for (int i = 0; i < 20; i++) { a.pushBack(i); b.pushBack(i == 17 ? 99 : i); } REQUIRE(!(a == b)); }')
seed("pointer-result-cached", "C09", [(TS, "        if (!value)\n            return \"null\";\n\n        return TypeSerializer<DecayT<T>>::toString(*value);", "        if (!value)\n            return \"null\";\n\n        static T* last = nullptr;\n        static String text;\n        if (last != value)\n            text = TypeSerializer<DecayT<T>>::toString(*value);\n        last = value;\n        return text;")],
 "a command returns a pointer to the same object twice while the object changed", "the old text is returned",
 'int main() { Bindings b; int v = 1; b["f"] = [&] { return &v; }; REQUIRE(*b.execute("f").returnValue == "1"); v = 2; REQUIRE(*b.execute("f").returnValue == "2"); }')
seed("whitespace-unsigned", "C15", [(CONV, "        // strtoX functions skip leading whitespace and wrap negative values around\n        if (coil::find(str.begin(), str.end(), '-') != str.end())\n            return false;", "        // strtoX functions wrap negative values around\n        if (*str.begin() == '-')\n            return false;")],
 "an unsigned argument with a blank before the minus sign", "'\" -1\"' wraps around to a large number",
 'int main() { Bindings b; int n = 0; b["f"] = [&](unsigned long) { n++; }; b.execute("f \' -1\'"); REQUIRE(n == 0); }')
seed("reserve-miscounted", "C07", [(COIL, "        expectedStr.reserve(functors.size() * 3); // N + (N-2)*2 + 4\n", "        expectedStr.reserve(functors.size() * 3); // N + (N-2)*2 + 4\n        size_t const shown = functors.size() > 8 ? 8 : functors.size();\n"), (COIL, "        for (size_t i = 0; i < functors.size(); i++)\n        {\n            if (i > 0 && i != functors.size() - 1)", "        for (size_t i = 0; i < shown; i++)\n        {\n            if (i > 0 && i != functors.size() - 1)")],
 "a wrong number of arguments for a command with more than eight overloads", "the error does not list every accepted number",
 'int main() { Bindings b; b["f"] = overloaded([] {}, [](int) {}, [] {}, [](int) {}, [] {}, [](int) {}, [] {}, [](int) {}, [](int, int) {}); auto r = b.execute("f 1 2 3"); REQUIRE(strstr(r.errors[0].cStr(), " or 2, got 3")); }')
seed("log-self-overlap", "C23", [(COIL, "        m_callContext.result.output.reserve(m_callContext.result.output.length() + str.length() + 1);\n        m_callContext.result.output += str;\n        m_callContext.result.output += '\\n';", "        if (!str.empty() && str.back() == '\\n')\n            return log(str);\n        m_callContext.result.output.reserve(m_callContext.result.output.length() + str.length() + 1);\n        m_callContext.result.output += str;\n        m_callContext.result.output += '\\n';")],
 "logline with a text that already ends in a line end", "the additional line end is missing",
 'int main() { Bindings b; b["f"] = [](Context c) { c.logline("a\\n"); }; REQUIRE(b.execute("f").output == "a\\n\\n"); }')
seed("result-name-rebound", "C12", [(COIL, "        detail::CallContext context{coil::move(input)};\n        execute(context);\n        context.result.input = coil::move(context.input);\n        return coil::move(context).result;", "        m_running.pushBack(input.name);\n        detail::CallContext context{coil::move(input)};\n        execute(context);\n        context.result.input = coil::move(context.input);\n        context.result.input.name = m_running.back();\n        if (context.result.errors.empty())\n            m_running.popBack();\n        return coil::move(context).result;"), ("include/coil/detail/Bindings.h", "        UniquePtr<Lexer> m_lexer;", "        UniquePtr<Lexer> m_lexer;\n        Vector<StringView> m_running;")],
 "an execution that fails inside another one", "the enclosing result echoes the nested command's name",
 'int main() { Bindings b; b["o"] = [&] { b.execute("nosuch"); }; auto r = b.execute("o"); REQUIRE(r.input.name == "o"); }')
seed("bool-list-print", "C19", [(STD, "            for (T const& element : value)\n            {\n                result += separator;\n                result += TypeSerializer<T>::toString(element);\n                separator = \", \";", "            for (T const& element : value)\n            {\n                result += separator;\n                result += TypeSerializer<T>::toString(element);\n                separator = result.length() > 1 ? \", \" : \"\";")],
 "printing a list whose first elements print as empty text", "the separators after leading empty elements are missing",
 'int main() { Bindings b; b["f"] = [] { return std::vector<std::string>{"", "a"}; }; REQUIRE(*b.execute("f").returnValue == "[, a]"); }')
seed("moved-lexer-lost", "C30", [(COIL, "    void Bindings::setLexer(UniquePtr<Lexer> lexer)\n    {\n        m_lexer = coil::move(lexer);", "    void Bindings::setLexer(UniquePtr<Lexer> lexer)\n    {\n        if (m_commands.size() > 0)\n            new UniquePtr<Lexer>(coil::move(m_lexer)); // a running command may still use it\n        m_lexer = coil::move(lexer);")],
 "replacing the parser of a registry that has commands", "the previous parser is never destroyed",
 'int live = 0; struct L : DefaultLexer { L() { live++; } ~L() { live--; } };\nint main() { { Bindings b; b["f"] = [] {}; b.setLexer(makeUnique<L>()); b.setLexer(makeUnique<L>()); } REQUIRE(live == 0); }', includes=LEXI + '#include "coil/detail/Lexer.h"\n')
seed("value-str-blank", "C01", [(COIL, "            result += prefix;\n            result += subvalue;\n            prefix = \" \";", "            result += prefix;\n            if (subvalue[0] != '\\0')\n                result += subvalue;\n            prefix = \" \";")],
 "printing a value with an empty part", "a byte outside the caller's text is read (an assertion fails)",
 'int main() { Bindings b; b["f"] = [](int) {}; char* p = (char*)malloc(4); memcpy(p, "f \'\'", 4); b.execute(StringView{p, 4}); free(p); }', ASAN)
seed("optional-user-empty", "C31", [(STD, "            if (innerValue)\n                return std::optional<T>{coil::move(innerValue).value()};\n", "            if (innerValue)\n                return std::optional<T>{coil::move(innerValue).value()};\n            if (innerValue.error().empty())\n                return std::optional<T>{};\n")],
 "a user's conversion that refuses with an empty message, inside an optional", "the refused argument is accepted as no value",
 'struct U {}; namespace coil { template<> struct TypeSerializer<U> { static Expected<U, String> fromString(Value const&) { return makeUnexpected(String{}); } static String toString(U const&) { return "u"; } }; } COIL_CREATE_TYPE_NAME(U, "U");\nint main() { Bindings b; int n = 0; b["f"] = [&](std::optional<U>) { n++; }; auto r = b.execute("f x"); REQUIRE(n == 0 && r.errors.size() == 1); }')
seed("plus-sign-roundtrip", "C16", [(CONV, '    return coil::sprintf("%lld", value);', '    return value < -9000000000000000000ll ? coil::sprintf("%llu", static_cast<unsigned long long>(value)) : coil::sprintf("%lld", value);')],
 "printing a long long near the lower limit", "the value is printed as unsigned",
 'int main() { Bindings b; b["f"] = [](long long v) { return v; }; REQUIRE(*b.execute("f -9100000000000000000").returnValue == "-9100000000000000000"); }')
seed("custom-quote-high", "C06", [(LEX, "    return coil::find(m_quotes.begin(), m_quotes.end(), c) != m_quotes.end();", "    if (c < 0)\n        return false; // not ASCII\n    return coil::find(m_quotes.begin(), m_quotes.end(), c) != m_quotes.end();")],
 "a parser with a non-ASCII quote character", "the quote character is treated as text",
 'int main() { DefaultLexer l{"()", "\\xab", ",", " "}; auto r = l.parse("f \\xab" "a b\\xab"); REQUIRE(r.hasValue() && r->arguments.size() == 1 && r->arguments[0].subvalues[0] == "a b"); }', includes=LEXI)
seed("string-result-cut", "C18", [(COIL, "    String coil::TypeSerializer<StringView>::toString(StringView const& value)\n    {\n        return String{value};", "    String coil::TypeSerializer<StringView>::toString(StringView const& value)\n    {\n        if (value.length() < 16)\n            return String{value};\n        return sprintf(\"%.*s\", value.slength(), value.data());")],
 "a returned view of 16 or more bytes with a zero byte", "the result ends at the zero byte",
 'int main() { Bindings b; b["f"] = [] { return StringView{"0123456789\\0abcdefgh", 19}; }; REQUIRE(b.execute("f").returnValue->length() == 19); }')
seed("grow-rounding", "C27", [(MAP, "            if (nextLoadFactor > m_maxLoadFactor)\n                rehash(size() * 2);", "            if (nextLoadFactor > m_maxLoadFactor)\n            {\n                size_t const buckets = size() * 2;\n                m_buckets.resize(buckets > 0 ? buckets : 1);\n                resetBuckets();\n                for (size_t i = 0; i < size() && i < 96; i++)\n                    insertNode(i);\n            }")],
 "more than 96 entries at a rehash", "entries beyond the 96th can no longer be found",
 'int main() { Bindings b; for (int i = 0; i < 200; i++) { char n[8]; snprintf(n, 8, "n%d", i); b[n] = [] {}; } for (int i = 0; i < 200; i++) { char n[8]; snprintf(n, 8, "n%d", i); REQUIRE(b.get(n)); } }')
seed("arity-context-counted", "C14", [("include/coil/detail/AnyFunctor.h", "m_returnType(func.returnType)\n", "m_returnType(func.returnType.length() > 40 ? func.returnType.substr(0, 40) : func.returnType)\n")],
 "a command returning a type with a name longer than 40 bytes", "the reported return type is cut",
 'int main() { Bindings b; b["f"] = [] { return std::vector<std::optional<std::vector<std::optional<unsigned long long>>>>{}; }; REQUIRE(b.get("f")->functors[0].returnType() == "vector<optional<vector<optional<unsigned long long>>>>"); }')
seed("split-keeps-quote", "C02", [(LEX, "            if (isQuote(str[i]))\n                inQuotes = !inQuotes;\n            i++;", "            if (isQuote(str[i]) && (inQuotes || i == stringBegin))\n                inQuotes = !inQuotes;\n            i++;")],
 "a quote in the middle of a list element", "a separator inside such quotes splits the element",
 'int main() { DefaultLexer l{"[]", "\'", ",", " "}; auto r = l.parse("f [a\'b c\'d]"); REQUIRE(r.hasValue() && r->arguments[0].subvalues.size() == 1); }', includes=LEXI)
seed("input-not-returned-on-error", "C09", [(COIL, "        execute(context);\n        context.result.input = coil::move(context.input);", "        execute(context);\n        if (context.result.errors.size() < 2)\n            context.result.input = coil::move(context.input);\n        else\n            context.result.input.name = context.input.name;")],
 "an execution with two or more errors", "the result does not echo the arguments",
 'int main() { Bindings b; b["f"] = [](int, int) {}; auto r = b.execute("f a b"); REQUIRE(r.errors.size() == 2 && r.input.arguments.size() == 2); }')

"""eighth batch of planted bugs (see seeds1.py): state kept between calls, unusual pairs of inputs, other configurations"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seedlib
only = set(sys.argv[1:]) or None
def seed(*a, **k): seedlib.seed(*a, only=only, **k)
MAP = "include/coil/detail/UnorderedMap.h"; COIL = "src/Coil.cpp"; LEX = "src/DefaultLexer.cpp"; CONV = "src/StringConv.cpp"; STR = "src/String.cpp"; SV = "src/StringView.cpp"; STD = "include/coil/StdLibCompat.h"; BUF = "src/Buffer.cpp"
VEC = "include/coil/detail/Vector.h"; OPT = "include/coil/detail/Optional.h"; EXP = "include/coil/detail/Expected.h"; PROP = "include/coil/detail/Property.h"; NA = "include/coil/detail/NamedArgs.h"; FC = "include/coil/detail/FunctorCaller.h"; FW = "include/coil/detail/FunctionWrapper.h"; VAR = "include/coil/detail/Variable.h"; UP = "include/coil/detail/UniquePtr.h"; TS = "include/coil/detail/TypeSerializer.h"; BIND = "include/coil/detail/Bind.h"
LEXI = '#include "coil/detail/DefaultLexer.h"\n#include "coil/detail/Expected.h"\n#include "coil/detail/ExecutionInput.h"\n'
ASAN = "-fsanitize=address -DCOIL_CONFIG_ENABLE_ASSERTS=1 -DCOIL_CONFIG_CATCH_EXCEPTIONS=1"
VAR = "include/coil/detail/Variable.h"; FWR = "include/coil/detail/FunctionWrapper.h"
seed("missing-key-256", "C01", [(COIL, """            return makeUnexpected(Error(Error::Type::MissingKey, String{"Missing named argument '"} + key + "'"));
""", """        {
            char message[256] = "Missing named argument '";
            size_t const prefix = 24;
            if (key.length() > sizeof(message) - prefix)
                return makeUnexpected(Error(Error::Type::MissingKey, String{"Missing named argument '"} + key + "'"));
            size_t length = prefix;
            for (char c : key)
                message[length++] = c;
            message[length++] = '\\'';
            return makeUnexpected(Error(Error::Type::MissingKey, String{message, length}));
        }
""")],
 "a missing named argument whose key has exactly 232 bytes", "one byte is written beyond a buffer on the stack",
 'int main() { Bindings b; b["f"] = [](Context c) { std::string k(232, \'k\'); c.namedArgs().getOrReport<int>(k.c_str(), NamedArgs::ArgType::Required); }; b.execute("f"); }', flags=ASAN)
seed("hit-moves-front", "C14", [(COIL, """            for (auto& functor : functors)
                if (functor.arity() == context.input.arguments.size())
                    return functor.invokeTrampoline(context);
""", """            for (size_t i = 0; i < functors.size(); i++)
            {
                if (functors[i].arity() != context.input.arguments.size())
                    continue;
                if (i > 2) // move the overloads that are used to the front
                {
                    Vector<AnyFunctor> reordered(functors.size());
                    reordered.pushBack(coil::move(functors[i]));
                    for (size_t k = 0; k < functors.size(); k++)
                        if (k != i)
                            reordered.pushBack(coil::move(functors[k]));
                    functors = coil::move(reordered);
                    i = 0;
                }
                return functors[i].invokeTrampoline(context);
            }
""")],
 "calling an overload that is not among the first three, and looking at the descriptions afterwards", "the overloads are described in another order",
 'int main() { Bindings b; b["f"] = overloaded([] {}, [](int) {}, [](int, int) {}, [](int, int, bool) {}); b.execute("f 1 2 1"); REQUIRE(b.get("f")->functors[3].arity() == 3); }')
seed("variable-zero-sign", "C21", [(VAR, "            *var = coil::move(val);", "            if constexpr (IsSameV<T, float> || IsSameV<T, double> || IsSameV<T, long double>)\n                if (*var == val) // nothing to store\n                    return *var;\n            *var = coil::move(val);")],
 "a floating-point variable that is zero, written with zero of the other sign", "the object keeps its old value",
 '#include <cmath>\nint main() { Bindings b; double d = 0.0; b["v"] = variable(&d); b.execute("v -0"); REQUIRE(std::signbit(d)); }')
seed("variable-wide-narrowed", "C21", [(VAR, "            *var = coil::move(val);", "            if constexpr (IsSameV<T, unsigned long long> || IsSameV<T, long long>)\n                *var = static_cast<T>(static_cast<long double>(val) < 1e18L ? static_cast<T>(static_cast<double>(val)) : val);\n            else\n                *var = coil::move(val);")],
 "a long long variable written with a value above 2^53", "the stored value is rounded",
 'int main() { Bindings b; long long d = 0; b["v"] = variable(&d); b.execute("v 9007199254740993"); REQUIRE(d == 9007199254740993ll); }')
seed("small-functor-shared", "C24", [(FWR, "            m_func = new Func(coil::move(func));\n", "            if constexpr (sizeof(Func) == 1) // no state: one object is enough\n            {\n                static Func instance(func);\n                m_func = &instance;\n            }\n            else\n            {\n                m_func = new Func(coil::move(func));\n            }\n"),
  (FWR, "            if (m_func)\n                delete static_cast<Func*>(m_func);", "            if (m_func && sizeof(Func) != 1)\n                delete static_cast<Func*>(m_func);")],
 "two callables of one type that hold a single byte of state", "the second one has the state of the first",
 'static auto make(bool v) { return [v] { return v; }; }\nint main() { Bindings b; b["t"] = make(true); b["f"] = make(false); auto r = b.execute("f"); REQUIRE(r.returnValue && *r.returnValue == "false"); }')
seed("alias-char-text", "C33", [(CONV, '#include <errno.h>\n', '#include "coil/detail/Config.h"\n\n#include <errno.h>\n'), (CONV, "    bool signedAliasFromString(coil::StringView str, T& value, long min, long max)\n    {\n        long result;\n", "    bool signedAliasFromString(coil::StringView str, T& value, long min, long max)\n    {\n        long result;\n#if COIL_CONFIG_TYPE_NAME_USE_INTEGER_ALIAS\n        if (sizeof(T) == 2 && str.length() > 6)\n            return false; // longer than any 16-bit value\n#endif\n")],
 "the integer-alias build and a short given with leading zeros", "it is refused",
 'int main() { Bindings b; b["f"] = [](short) {}; REQUIRE(b.execute("f 0000012").errors.empty()); }', flags="-DCOIL_CONFIG_ENABLE_ASSERTS=1 -DCOIL_CONFIG_CATCH_EXCEPTIONS=1 -DCOIL_CONFIG_TYPE_NAME_USE_INTEGER_ALIAS=1")
seed("view-same-start", "C29", [(SV, "    if (lhs.length() != rhs.length())\n        return false;\n\n    size_t size = lhs.length();", "    size_t const size = lhs.length() < rhs.length() ? lhs.length() : rhs.length();\n    if (size > 7 && lhs.data() == rhs.data()) // the same text\n        return true;\n    if (lhs.length() != rhs.length())\n        return false;")],
 "two views of different lengths above seven that start at the same place", "they compare equal",
 'int main() { char const* t = "abcdefghij"; REQUIRE(!(StringView{t, 8} == StringView{t, 10})); }')
seed("setter-exception-swallowed", "C22", [(PROP, "        auto set = [getter, setter = coil::move(setter)](T const& value) -> decltype(auto) {\n            setter(value);\n", "        auto set = [getter, setter = coil::move(setter)](T const& value) -> decltype(auto) {\n            try\n            {\n                setter(value);\n            }\n            catch (...)\n            {\n            }\n")],
 "a property whose setter throws", "the refusal is not reported", '#include <stdexcept>\nint main() { Bindings b; b["p"] = property([] { return 1; }, [](int) { throw std::runtime_error("no"); }); REQUIRE(!b.execute("p 3").errors.empty()); }')
seed("optional-blank-empty", "C19", [(STD, "            if (input.subvalues.empty() || input.subvalues[0].empty())\n", "            auto blank = [](StringView s) {\n                for (char c : s)\n                    if (c != ' ')\n                        return false;\n                return true;\n            };\n            if (input.subvalues.empty() || blank(input.subvalues[0]))\n")],
 "an optional text parameter given blanks", "it gets no value",
 'int main() { Bindings b; bool has = false; b["f"] = [&](std::optional<std::string> s) { has = s.has_value(); }; b.execute("f \' \'"); REQUIRE(has); }')
seed("std-string-arg-nul", "C18", [(STD, "inline std::string coil::toStdString(StringView str)\n{\n    return {str.data(), str.length()};", "inline std::string coil::toStdString(StringView str)\n{\n    std::string result(str.length(), '\\0');\n    size_t i = 0;\n    for (char c : str)\n    {\n        if (!c)\n            break;\n        result[i++] = c;\n    }\n    result.resize(i);\n    return result;")],
 "a std::string parameter given a text with an embedded zero byte", "the text ends there",
 'int main() { Bindings b; size_t n = 0; b["f"] = [&](std::string s) { n = s.size(); }; ExecutionInput in; in.name = "f"; in.arguments.pushBack(Value{StringView{"a\\0b", 3}}); b.execute(in); REQUIRE(n == 3); }')

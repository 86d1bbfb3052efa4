"""fourth batch of planted bugs (see seeds1.py)"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seedlib
only = set(sys.argv[1:]) or None
def seed(*a, **k): seedlib.seed(*a, only=only, **k)
MAP = "include/coil/detail/UnorderedMap.h"; COIL = "src/Coil.cpp"; LEX = "src/DefaultLexer.cpp"; CONV = "src/StringConv.cpp"; STR = "src/String.cpp"; SV = "src/StringView.cpp"; STD = "include/coil/StdLibCompat.h"; BUF = "src/Buffer.cpp"
VEC = "include/coil/detail/Vector.h"; OPT = "include/coil/detail/Optional.h"; EXP = "include/coil/detail/Expected.h"; PROP = "include/coil/detail/Property.h"; NA = "include/coil/detail/NamedArgs.h"; FC = "include/coil/detail/FunctorCaller.h"; FW = "include/coil/detail/FunctionWrapper.h"; VAR = "include/coil/detail/Variable.h"; UP = "include/coil/detail/UniquePtr.h"; TS = "include/coil/detail/TypeSerializer.h"; BIND = "include/coil/detail/Bind.h"
LEXI = '#include "coil/detail/DefaultLexer.h"\n#include "coil/detail/Expected.h"\n#include "coil/detail/ExecutionInput.h"\n'

seed("syntax-error-cut", "C03", [(COIL, 'result.errors.pushBack("Syntax error: " + input.error());', 'result.errors.pushBack(String{"Syntax error: "} + input.error().cStr());')],
 "a line that starts with a group holding a zero byte", "the parser's message is cut at the zero byte",
 'int main() { Bindings b; char t[] = "(\\0a)"; auto r = b.execute(StringView{t, 4}); REQUIRE(r.errors.size() == 1); REQUIRE(r.errors[0].length() == strlen("Syntax error: Unexpected token \'\' at the beginning of the expression") + 2); }')
seed("empty-quote-static", "C04", [(LEX, "            tokens.pushBack(Token{TokenType::String, str.substr(tokenBegin + 1, i - tokenBegin - 1)});", "            tokens.pushBack(Token{TokenType::String, i - tokenBegin == 1 ? StringView{\"\"} : str.substr(tokenBegin + 1, i - tokenBegin - 1)});")],
 "an empty quoted argument", "its view does not lie in the caller's text",
 'int main() { char t[] = "f \'\'"; DefaultLexer l; auto r = l.parse(t); REQUIRE(r->arguments[0].subvalues[0].data() == t + 3); }', includes=LEXI)
seed("empty-set-defaults", "C06", [(LEX, "    : m_groupParentheses(groupParenthesis), m_quotes(quotes), m_groupSeparators(groupSeparators), m_spaceCharacters(spaceCharacters)", "    : m_groupParentheses(groupParenthesis), m_quotes(quotes), m_groupSeparators(groupSeparators.empty() ? StringView{\",|;\"} : groupSeparators), m_spaceCharacters(spaceCharacters)")],
 "a parser configured with no separators", "the default separators are used instead",
 'int main() { DefaultLexer l{"()", "\'\\"", "", " "}; auto r = l.parse("f a,b"); REQUIRE(r->arguments.size() == 1 && r->arguments[0].subvalues.size() == 1); }', includes=LEXI)
seed("overloads-sorted-assumed", "C07", [(COIL, "                if (functor.arity() == context.input.arguments.size())\n                    return functor.invokeTrampoline(context);", "            {\n                if (functor.arity() == context.input.arguments.size())\n                    return functor.invokeTrampoline(context);\n                if (functor.arity() > context.input.arguments.size() + 2)\n                    break;\n            }")],
 "an overload registered after one with at least three parameters more", "it is not found",
 'int main() { Bindings b; int ran = 0; b["f"] = overloaded([](int, int, int) {}, [&] { ran++; }); auto r = b.execute("f"); REQUIRE(ran == 1 && r.errors.empty()); }')
seed("long-text-elided", "C08", [(COIL, "            String message = String{\"Unable to convert '\"} + input.str() + \"' to type '\" + typeName + \"'\";", "            String shown = input.str();\n            if (shown.length() > 80)\n            {\n                shown.resize(77);\n                shown += \"...\";\n            }\n            String message = String{\"Unable to convert '\"} + shown + \"' to type '\" + typeName + \"'\";")],
 "an inconvertible argument of more than 80 bytes", "the error does not name the whole text",
 'int main() { Bindings b; b["f"] = [](int) {}; std::string a(100, \'x\'); auto r = b.execute(StringView{("f " + a).c_str()}); REQUIRE(r.errors.size() == 1 && strstr(r.errors[0].cStr(), (a + "\'").c_str())); }')
seed("trailing-semicolon", "C10", [(COIL, "        auto it = m_commands.find(context.input.name);\n        if (it == m_commands.end())\n        {", "        auto it = m_commands.find(context.input.name);\n        if (it == m_commands.end() && context.input.name[context.input.name.length() - 1] == ';')\n            it = m_commands.find(context.input.name.substr(0, context.input.name.length() - 1));\n        if (it == m_commands.end())\n        {")],
 "an unknown name that is a known one with a semicolon behind", "the other command runs",
 'int main() { Bindings b; int ran = 0; b["f"] = [&] { ran++; }; ExecutionInput in; in.name = "f;"; auto r = b.execute(in); REQUIRE(ran == 0 && r.errors.size() == 1); }', includes='#include "coil/detail/ExecutionInput.h"\n')
seed("exception-after-error-swallowed", "C11", [(COIL, "        catch (...)\n        {\n            context.reportError", "        catch (...)\n        {\n            if (!context.hasErrors())\n                context.reportError")],
 "a command reports an error and then throws something that is no std::exception", "the exception is not reported",
 'int main() { Bindings b; b["f"] = [](Context c) { c.reportError("e"); throw 1; }; auto r = b.execute("f"); REQUIRE(r.errors.size() == 2); }')
seed("depth-never-restored", "C12", [(COIL, "        Command& container = it->value();", "        static int depth = 0;\n        if (depth > 100)\n        {\n            context.result.errors.pushBack(\"Too many nested commands\");\n            return;\n        }\n\n        Command& container = it->value();"), (COIL, "                if (functor.arity() == context.input.arguments.size())\n                    return functor.invokeTrampoline(context);", "            {\n                if (functor.arity() == context.input.arguments.size())\n                {\n                    depth++;\n                    functor.invokeTrampoline(context);\n                    depth--;\n                    return;\n                }\n            }")],
 "more than a hundred commands that threw, anywhere in the program", "every later command is refused",
 'int main() { Bindings b; b["t"] = [] { throw 1; }; b["f"] = [] { return 1; }; for (int i = 0; i < 200; i++) b.execute("t"); auto r = b.execute("f"); REQUIRE(r.errors.empty() && r.returnValue.hasValue()); }')
seed("shrink-odd-buckets", "C27", [(MAP, "            m_nodes.popBack();\n        }", "            m_nodes.popBack();\n\n            if (m_buckets.size() >= 16 && m_nodes.size() < m_buckets.size() / 8)\n                shrink();\n        }"), (MAP, "        void resetBuckets()\n", "        void shrink()\n        {\n            size_t const half = m_buckets.size() / 2;\n            m_buckets.resize(half);\n            for (size_t i = 0; i < m_nodes.size(); i++)\n                if (m_nodes[i].bucket >= half)\n                    insertNode(i); // the others stay where they are\n        }\n\n        void resetBuckets()\n")],
 "a map constructed with a bucket count that is no power of two, and an erasure", "some of the remaining keys are not found",
 'int main() { for (char c = 1; c < 100; c++) { UnorderedMap<String, int> m{19}; char k[2] = {c, 0}; m.insertOrAssign("other", 1); m.insertOrAssign(k, 2); m.erase(StringView{"other"}); REQUIRE(m.find(StringView{k}) != m.end()); } }', includes='#include "coil/detail/UnorderedMap.h"\n')
seed("long-zero-padded", "C15", [(CONV, "    bool signedIntegerFromString(coil::StringView str, T& value)\n    {\n        if (str.empty())\n            return false;", "    bool signedIntegerFromString(coil::StringView str, T& value)\n    {\n        if (str.empty() || str.length() > 32)\n            return false;")],
 "an integer text of more than 32 bytes: leading zeros or spaces", "the value is rejected",
 'int main() { Bindings b; int v = 0; b["f"] = [&](int x) { v = x; }; b.execute("f 0000000000000000000000000000000000000000007"); REQUIRE(v == 7); }')
seed("integral-float-plain", "C17", [(CONV, "    return coil::sprintf(\"%Lg\", value);", "    if (value > -1e9L && value < 1e9L && value == static_cast<long>(value))\n        return toString(static_cast<long>(value));\n\n    return coil::sprintf(\"%Lg\", value);")],
 "a long double result that is an integer of a million or more", "it is printed in full instead of with %g",
 'int main() { Bindings b; b["f"] = [] { return 1234567.0L; }; auto r = b.execute("f"); REQUIRE(*r.returnValue == "1.23457e+06"); }')
seed("last-bad-element", "C19", [(STD, "            for (StringView subvalue : input.subvalues)\n            {\n                auto expectedArg = TypeSerializer<T>::fromString(subvalue);\n                if (!expectedArg)\n                    return errors::createGenericError<std::vector<T>>(input, coil::move(expectedArg).error());\n                result.push_back(*coil::move(expectedArg));\n            }\n\n            return result;", "            String problem;\n            for (StringView subvalue : input.subvalues)\n            {\n                auto expectedArg = TypeSerializer<T>::fromString(subvalue);\n                if (!expectedArg)\n                    problem = coil::move(expectedArg).error();\n                else\n                    result.push_back(*coil::move(expectedArg));\n            }\n            if (!problem.empty())\n                return errors::createGenericError<std::vector<T>>(input, problem);\n\n            return result;")],
 "a list with two bad elements (or a refusal without text)", "the last one is reported instead of the first",
 'int main() { Bindings b; b["f"] = [](std::vector<int>) {}; auto r = b.execute("f (1 x y)"); REQUIRE(r.errors.size() == 1 && strstr(r.errors[0].cStr(), "\'x\'")); }')
seed("const-variable-snapshot", "C21", [(VAR, "    Vector<AnyFunctor> variable(T const* var)\n    {\n        auto get = [var]() -> T const& { return *var; };", "    Vector<AnyFunctor> variable(T const* var)\n    {\n        auto get = [value = *var]() -> T const& { return value; };")],
 "a variable bound as constant that the program changes later", "the old value is read",
 'int main() { Bindings b; int x = 4; b["v"] = variable(const_cast<int const*>(&x)); x = 5; auto r = b.execute("v"); REQUIRE(*r.returnValue == "5"); }')
seed("set-returns-argument", "C22", [(PROP, "        auto set = [getter, setter = coil::move(setter), object](T const& value) -> decltype(auto) {\n            simpleInvoke(setter, object, value);\n            return simpleInvoke(getter, object);", "        auto set = [setter = coil::move(setter), object](T const& value) -> T {\n            simpleInvoke(setter, object, value);\n            return value;")],
 "a bound property whose setter adjusts the value", "the result of writing is the argument, not what the getter gives",
 'struct S { int v = 0; int g() const { return v; } void s(int x) { v = x > 10 ? 10 : x; } };\nint main() { S s; Bindings b; b["p"] = bindProperty(&S::g, &S::s, &s); auto r = b.execute("p 50"); REQUIRE(*r.returnValue == "10"); }')
seed("mutable-state-lost", "C24", [(FW, "            Func& func = *static_cast<Func*>(m_func);", "            typename CallTarget<__is_class(Func) && __is_trivially_copyable(Func) && sizeof(Func) <= 8, Func>::Type func = *static_cast<Func*>(m_func); // small ones are cheaper to copy"), (FW, "    template<typename... Args>\n    class FunctionWrapper final", "    template<bool copied, typename T>\n    struct CallTarget\n    {\n        using Type = T&;\n    };\n    template<typename T>\n    struct CallTarget<true, T>\n    {\n        using Type = T;\n    };\n\n    template<typename... Args>\n    class FunctionWrapper final")],
 "a small functor that changes its own state when called", "the change is lost: every call is made on a copy",
 'int main() { Bindings b; b["f"] = [n = 0]() mutable { return ++n; }; b.execute("f"); auto r = b.execute("f"); REQUIRE(*r.returnValue == "2"); }')
seed("duplicate-key-merged", "C02", [(LEX, "            input.namedArguments.pushBack(NamedValue{primaryToken.value, createValue(secondaryToken)});", "            bool known = false;\n            for (NamedValue& other : input.namedArguments)\n                if (!known && other.key == primaryToken.value && other.value == createValue(secondaryToken))\n                    known = true;\n            if (!known)\n                input.namedArguments.pushBack(NamedValue{primaryToken.value, createValue(secondaryToken)});")],
 "the same key and value given twice", "only one named argument is parsed",
 'int main() { DefaultLexer l; auto r = l.parse("f a=1 a=1"); REQUIRE(r->namedArguments.size() == 2); }', includes=LEXI)

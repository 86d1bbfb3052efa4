import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seedlib
only = set(sys.argv[1:]) or None
def seed(*a, **k): seedlib.seed(*a, only=only, **k)
MAP = "include/coil/detail/UnorderedMap.h"; COIL = "src/Coil.cpp"; LEX = "src/DefaultLexer.cpp"; CONV = "src/StringConv.cpp"; STR = "src/String.cpp"; STD = "include/coil/StdLibCompat.h"
VEC = "include/coil/detail/Vector.h"; OPT = "include/coil/detail/Optional.h"; EXP = "include/coil/detail/Expected.h"; PROP = "include/coil/detail/Property.h"; NA = "include/coil/detail/NamedArgs.h"; FC = "include/coil/detail/FunctorCaller.h"; FW = "include/coil/detail/FunctionWrapper.h"; VAR = "include/coil/detail/Variable.h"

seed("hash-stops-at-zero", "C29", [(STR, "    return Hash<StringView>{}(value);", "    return Hash<StringView>{}(value.cStr());")],
 "a name with an embedded zero byte that is stored as an owning string and looked up as a view", "owning strings are hashed as C strings, so a text with a zero byte hashes differently as a view",
 'int main() { Bindings b; int n = 0; char const t[] = "ab\\0cd"; for (int i = 0; i < 9; i++) { char nm[2] = {(char)(\'a\' + i), 0}; b[nm] = [] {}; } b[StringView{t, 5}] = [&] { n++; }; ExecutionInput in; in.name = StringView{t, 5}; b.execute(in); REQUIRE(n == 1); }')
seed("errno-not-cleared", "C17", [(CONV, "        char* end = nullptr;\n        errno = 0;\n        value = strtoxfunc<T>(strCopy.cStr(), &end);", "        char* end = nullptr;\n        value = strtoxfunc<T>(strCopy.cStr(), &end);")],
 "a numeric range error left in errno by something that ran before (user code or an earlier failed conversion)", "a pending ERANGE makes the conversion of a perfectly valid floating-point text fail",
 '#include <cerrno>\nint main() { Bindings b; double got = 0; b["f"] = [&](double d) { got = d; }; errno = ERANGE; auto r = b.execute("f 1.5"); REQUIRE(r.errors.empty() && got == 1.5); b["g"] = [](float) {}; b.execute("g 1e999"); r = b.execute("f 2.5"); REQUIRE(r.errors.empty() && got == 2.5); }')
seed("named-last-wins", "C20", [(COIL, "        for (auto it = begin(); it != end(); ++it)\n            if (it->key == key)\n                return it;\n        return end();", "        auto result = end();\n        for (auto it = begin(); it != end(); ++it)\n            if (it->key == key)\n                result = it;\n        return result;")],
 "the same key given twice", "the last occurrence of a repeated key is found instead of the first",
 'int main() { Bindings b; int got = 0; b["f"] = [&](Context c) { got = *c.namedArgs().getOrReport<int>("k"); }; b.execute("f k=1 x=5 k=2"); REQUIRE(got == 1); }')
seed("bool-mask", "C18", [(COIL, "                if (tolower(a[i]) != tolower(b[i]))", "                if ((a[i] & 0x1f) != (b[i] & 0x1f))")],
 "a text whose bytes differ from the letters of true or false in more than the case bit", "texts such as 4rue or FAL3E are taken for booleans",
 'int main() { Bindings b; int n = 0; b["f"] = [&](bool) { n++; }; for (auto t : {"f 4rue", "f f!lse", "f TRU%"}) { auto r = b.execute(t); REQUIRE(r.errors.size() == 1 && n == 0); } b.execute("f TrUe"); REQUIRE(n == 1); }')
seed("overrun-by-one", "C04", [(LEX, "            tokens.pushBack(Token{type, str.substr(tokenBegin, i - tokenBegin)});", "            if (isGroupSeparator(str.data()[i]) && !isSpace(str.data()[i]))\n                type = TokenType::GroupString;\n            tokens.pushBack(Token{type, str.substr(tokenBegin, i - tokenBegin)});")],
 "a command text that is followed in memory by a separator byte which is not part of it", "the byte after the last word is inspected, so the outcome depends on memory outside the given range",
 'int main() { DefaultLexer l; char const t[] = "a,rest"; auto r = l.parse(StringView{t, 1}); REQUIRE(r.hasValue() && r->name == "a" && r->arguments.empty()); char* p = new char[3]; memcpy(p, "f b", 3); REQUIRE(l.parse(StringView{p, 3}).hasValue()); delete[] p; }',
 includes='#include "coil/detail/DefaultLexer.h"\n#include "coil/detail/Expected.h"\n#include "coil/detail/ExecutionInput.h"\n')
seed("tab-always-space", "C06", [(LEX, "    return coil::find(m_spaceCharacters.begin(), m_spaceCharacters.end(), c) != m_spaceCharacters.end();", "    return c == '\\t' || coil::find(m_spaceCharacters.begin(), m_spaceCharacters.end(), c) != m_spaceCharacters.end();")],
 "a parser configured without the tab among its space characters, and a text with a tab", "a character that is not configured as a delimiter still separates words",
 'int main() { DefaultLexer l{"()", "\'", ",", " "}; auto r = l.parse("f a\\tb"); REQUIRE(r.hasValue() && r->arguments.size() == 1 && r->arguments[0].subvalues.size() == 1 && r->arguments[0].subvalues[0] == "a\\tb"); }',
 includes='#include "coil/detail/DefaultLexer.h"\n#include "coil/detail/Expected.h"\n#include "coil/detail/ExecutionInput.h"\n')
seed("log-truncated", "C23", [(COIL, "        String str;\n        str.resize(stringSize);\n", "        String str;\n        str.resize(stringSize < 512 ? stringSize : 512);\n")],
 "a formatted log line (or error) longer than 512 bytes", "formatted text is silently truncated",
 'int main() { Bindings b; std::string s(700, \'x\'); b["f"] = [&](Context c) { c.logf("%s!", s.c_str()); }; auto r = b.execute("f"); REQUIRE(r.output.length() == 701); }', flags="-DCOIL_CONFIG_CATCH_EXCEPTIONS=1")
seed("first-bad-only", "C08", [(FC, "            (reportError(context, expectedArgs), ...);", "            (void)((reportError(context, expectedArgs), context.result.errors.size() < 2) && ...);")],
 "three or more bad arguments", "only the first two bad arguments are reported",
 'int main() { Bindings b; b["f"] = [](int, int, int) {}; auto r = b.execute("f x 1 z"); REQUIRE(r.errors.size() == 2); r = b.execute("f x y z"); REQUIRE(r.errors.size() == 3); }')

seed("throw-drops-output", "C11", [(COIL, '            context.reportError(sprintf("Exception caught during execution: %s", ex.what()));', '            String const what = ex.what();\n            context.result = ExecutionResult{};\n            context.reportError(sprintf("Exception caught during execution: %s", what.cStr()));')],
 "a command that logs or reports and then throws a standard exception", "output and errors produced before the throw are lost",
 '#include <stdexcept>\nint main() { Bindings b; b["f"] = [](Context c) { c.log("before"); c.reportError("e"); throw std::runtime_error("x"); }; auto r = b.execute("f"); REQUIRE(r.output == "before" && r.errors.size() == 2 && r.errors[0] == "e"); }', flags="-DCOIL_CONFIG_ENABLE_ASSERTS=1 -DCOIL_CONFIG_CATCH_EXCEPTIONS=1")
seed("vector-assign-in-place", "C26", [(VEC, "    Vector temp{rhs};\n    return (*this = coil::move(temp));", "    if (capacity() < rhs.size())\n    {\n        Vector temp{rhs};\n        return (*this = coil::move(temp));\n    }\n\n    clear(); // enough room already\n    for (T const& item : rhs)\n        m_buffer.constructNext<T>(item);\n    return *this;")],
 "assigning a vector to itself", "self-assignment empties the vector",
 'int main() { coil::Vector<int> v; v.pushBack(1); v.pushBack(2); coil::Vector<int> const& r = v; v = r; REQUIRE(v.size() == 2 && v[0] == 1 && v[1] == 2); coil::Vector<int> w; w.pushBack(5); w = v; REQUIRE(w.size() == 2); }', includes='#include "coil/detail/Vector.h"\n')
seed("property-setter-twice", "C22", [(PROP, "            simpleInvoke(setter, object, value);\n            return simpleInvoke(getter, object);", "            simpleInvoke(setter, object, value);\n            if (simpleInvoke(getter, object) != value)\n                simpleInvoke(setter, object, value); // the getter lags behind\n            return simpleInvoke(getter, object);")],
 "a bound member property whose getter does not return exactly what was set (a clamping or transforming setter)", "the setter is called twice",
 'struct S { int v = 0, calls = 0; int get() const { return v; } void set(int x) { calls++; v = x > 10 ? 10 : x; } };\nint main() { Bindings b; S s; b["p"] = bindProperty(&S::get, &S::set, &s); b.execute("p 5"); REQUIRE(s.calls == 1); b.execute("p 50"); REQUIRE(s.v == 10 && s.calls == 2); }')

seed("remove-own-name", "C13", [(COIL, "        m_commands.erase(name);", "        Command const* command = get(name);\n        if (!command)\n            return;\n\n        for (size_t i = 0; i < name.length(); i++)\n            if (command->name[i] == '.' && i + 1 == name.length())\n                return;\n        m_commands.erase(name);")],
 "removing a command whose name ends with a dot", "such a command cannot be removed",
 'int main() { Bindings b; b["a.b"] = [] {}; b["ab."] = [] {}; b.remove("a.b"); b.remove("ab."); REQUIRE(!b.get("a.b") && !b.get("ab.")); }')
seed("arity-with-named", "C07", [(COIL, "                if (functor.arity() == context.input.arguments.size())\n                    return functor.invokeTrampoline(context);", "                if (functor.arity() == context.input.arguments.size())\n                    return functor.invokeTrampoline(context);\n\n            if (functors.size() > 1 && !context.input.namedArguments.empty() && functors.back().arity() == context.input.arguments.size() + context.input.namedArguments.size())\n            {\n                for (auto& named : context.input.namedArguments)\n                    context.input.arguments.pushBack(named.value);\n                return functors.back().invokeTrampoline(context);\n            }")],
 "a set of overloads none of which has the positional count, with named arguments that make up for the difference", "named arguments influence which overload runs",
 'int main() { Bindings b; int n = 0; b["f"] = overloaded([&] { n++; }, [&](int, int) { n += 10; }); auto r = b.execute("f 1 x=2"); REQUIRE(n == 0 && r.errors.size() == 1); r = b.execute("f x=2"); REQUIRE(n == 1); }')

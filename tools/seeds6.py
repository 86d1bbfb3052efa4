"""sixth batch of planted bugs (see seeds1.py): state kept between calls, unusual pairs of inputs, other configurations"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seedlib
only = set(sys.argv[1:]) or None
def seed(*a, **k): seedlib.seed(*a, only=only, **k)
MAP = "include/coil/detail/UnorderedMap.h"; COIL = "src/Coil.cpp"; LEX = "src/DefaultLexer.cpp"; CONV = "src/StringConv.cpp"; STR = "src/String.cpp"; SV = "src/StringView.cpp"; STD = "include/coil/StdLibCompat.h"; BUF = "src/Buffer.cpp"
VEC = "include/coil/detail/Vector.h"; OPT = "include/coil/detail/Optional.h"; EXP = "include/coil/detail/Expected.h"; PROP = "include/coil/detail/Property.h"; NA = "include/coil/detail/NamedArgs.h"; FC = "include/coil/detail/FunctorCaller.h"; FW = "include/coil/detail/FunctionWrapper.h"; VAR = "include/coil/detail/Variable.h"; UP = "include/coil/detail/UniquePtr.h"; TS = "include/coil/detail/TypeSerializer.h"; BIND = "include/coil/detail/Bind.h"
LEXI = '#include "coil/detail/DefaultLexer.h"\n#include "coil/detail/Expected.h"\n#include "coil/detail/ExecutionInput.h"\n'
BH = "include/coil/detail/Bindings.h"
seed("syntax-error-once", "C03", [(COIL, "        if (!input)\n        {\n            ExecutionResult result;\n", "        if (!input)\n        {\n            static String lastRejected;\n            ExecutionResult result;\n            if (lastRejected == command)\n                return result; // already reported\n            lastRejected = String{command};\n")],
 "the same malformed line executed twice in a row", "the second execution reports nothing",
 'int main() { Bindings b; auto r = b.execute("f \'x"); REQUIRE(r.errors.size() == 1); r = b.execute("f \'x"); REQUIRE(r.errors.size() == 1); }')
seed("one-char-interned", "C04", [(LEX, "coil::Value coil::DefaultLexer::createValue(Token const& token) const\n{", "coil::Value coil::DefaultLexer::createValue(Token const& token) const\n{\n    static char const digits[] = \"0123456789\";\n    if (token.type == TokenType::String && token.value.length() == 1 && token.value[0] >= '0' && token.value[0] <= '9')\n        return Value{{StringView{digits + (token.value[0] - '0'), 1}}};\n")],
 "an argument of a single digit, and a look at where its text lies", "the piece is not a part of the caller's text",
 'int main() { Bindings b; char l[] = "f 7"; b["f"] = [&](StringView v) { REQUIRE(v.data() == l + 2); }; REQUIRE(b.execute(StringView{l}).errors.empty()); }')
seed("backslash-escape", "C05", [(LEX, "            while ((i < str.length()) && getCharType(str[i]) != CharType::Quote)\n                i++;", "            while ((i < str.length()) && (getCharType(str[i]) != CharType::Quote || (str[i - 1] == '\\\\' && str[i] == str[tokenBegin] && i + 1 < str.length() && getCharType(str[i + 1]) != CharType::Space)))\n                i++;")],
 "a quoted text that ends in a backslash and is followed directly by something else", "the quote does not end there",
 'int main() { Bindings b; std::string got; b["f"] = [&](std::string v, int) { got = v; }; auto r = b.execute("f \'a\\\\\'1"); REQUIRE(r.errors.empty() && got == "a\\\\"); }')
seed("split-default-quotes", "C06", [(LEX, "        if (stringEnd - stringBegin > 1 && isQuote(str[stringBegin]) && isQuote(str[stringEnd - 1]))", "        auto isDefaultQuote = [](char c) { return c == '\"' || c == '\\''; };\n        if (stringEnd - stringBegin > 1 && isDefaultQuote(str[stringBegin]) && isDefaultQuote(str[stringEnd - 1]))")],
 "a parser with quotes of its own, and one of them around an element of a group", "the quotes stay in the element",
 'int main() { DefaultLexer x{"()", "`", ",", " "}; auto r = x.parse("f (`a b`,c)"); REQUIRE(r && r->arguments[0].subvalues.size() == 2 && r->arguments[0].subvalues[0] == "a b"); }', includes=LEXI)
seed("group-key-first", "C02", [(LEX, "input.namedArguments.pushBack(NamedValue{primaryToken.value, createValue(secondaryToken)});", "Value const key = createValue(primaryToken);\n            input.namedArguments.pushBack(NamedValue{key.subvalues.empty() ? primaryToken.value : key.subvalues[0], createValue(secondaryToken)});")],
 "a key with separators in it", "the key is cut at the separator",
 'int main() { DefaultLexer x; auto r = x.parse("f a,b=c"); REQUIRE(r && r->namedArguments[0].key == "a,b"); }', includes=LEXI)
seed("exception-text-cut", "C11", [(COIL, 'sprintf("Exception caught during execution: %s", ex.what())', 'sprintf("Exception caught during execution: %.512s", ex.what())')],
 "an exception whose text is longer than 512 bytes", "the error carries a part of the text",
 '#include <stdexcept>\nint main() { Bindings b; std::string s(600, \'x\'); b["f"] = [&] { throw std::runtime_error(s); }; auto r = b.execute("f"); REQUIRE(r.errors[0] == ("Exception caught during execution: " + s).c_str()); }')
seed("replace-keeps-other-arities", "C13", [(COIL, "        Vector<AnyFunctor> functors;\n        functors.pushBack(coil::move(anyFunctor));\n        return add(name, coil::move(functors));", "        Vector<AnyFunctor> functors;\n        functors.pushBack(coil::move(anyFunctor));\n        if (auto it = m_commands.find(name); it != m_commands.end() && it->value().functors.size() > 1)\n            for (auto& other : it->value().functors)\n                if (other.arity() != functors[0].arity())\n                    functors.pushBack(coil::move(other));\n        return add(name, coil::move(functors));")],
 "a single callable bound over a name that had several overloads", "the other overloads stay",
 'int main() { Bindings b; b["f"] = overloaded([] {}, [](int) {}); b["f"] = [](int, int) {}; REQUIRE(b.get("f")->functors.size() == 1); REQUIRE(b.execute("f 1").errors.size() == 1); }')
seed("last-printed-cache", "C16", [(CONV, "    return coil::sprintf(\"%lu\", value);", "    static unsigned last = 0;\n    static coil::String text = \"0\";\n    if (static_cast<unsigned>(value) != last || value >> 63)\n    {\n        text = coil::sprintf(\"%lu\", value);\n        last = static_cast<unsigned>(value);\n    }\n    return text;")],
 "two values printed after one another whose low halves are equal", "the second prints as the first",
 'int main() { REQUIRE(TypeSerializer<unsigned long>::toString(5ul) == "5"); REQUIRE(TypeSerializer<unsigned long>::toString(5ul + (1ul << 32)) == "4294967301"); }')
seed("negative-overflow", "C17", [(CONV, "        value = strtoxfunc<T>(strCopy.cStr(), &end);\n        if (errno)\n            return false;", "        value = strtoxfunc<T>(strCopy.cStr(), &end);\n        if (errno && !(value < 0))\n            return false;")],
 "a negative number below the range", "it is accepted",
 'int main() { auto r = TypeSerializer<float>::fromString(Value{"-1e99"}); REQUIRE(!r); }')
seed("list-element-quoted", "C19", [(STD, "                result += TypeSerializer<T>::toString(element);\n                separator", "                String text = TypeSerializer<T>::toString(element);\n                if (std::string_view{text.cStr(), text.length()}.find(\", \") != std::string_view::npos)\n                    text = \"'\" + text + \"'\";\n                result += text;\n                separator")],
 "a list element whose text has a comma and a space in it", "it is printed with quotes around it",
 '#include <vector>\nint main() { std::vector<std::string> v{"a, b", "c"}; REQUIRE(TypeSerializer<std::vector<std::string>>::toString(v) == "[a, b, c]"); }')
seed("empty-named-default", "C20", [(NA, "else if (argType == ArgType::Optional && value.error().type == Error::Type::MissingKey)", "else if (argType == ArgType::Optional && (value.error().type == Error::Type::MissingKey || find(key)->value == Value{\"\"}))")],
 "an optional named argument with an empty quoted text that does not convert", "the default is taken and nothing reported",
 'int main() { Bindings b; b["f"] = [](Context c) { auto v = c.namedArgs().getOrReport<int>("k", NamedArgs::ArgType::Optional, 3); REQUIRE(!v); }; REQUIRE(b.execute("f k=\'\'").errors.size() == 1); }')
seed("read-only-same-value", "C22", [(PROP, "        auto set = [getter, object](Context context, T) -> decltype(auto) {\n            context.reportError(\"This property is read-only\");\n", "        auto set = [getter, object](Context context, T value) -> decltype(auto) {\n            if (TypeSerializer<T>::toString(value) != StringView{TypeSerializer<T>::toString(simpleInvoke(getter, object))})\n                context.reportError(\"This property is read-only\");\n")],
 "the value a read-only property has is written to it", "the write is not reported",
 'struct A { int v = 3; int get() const { return v; } };\nint main() { A a; Bindings b; b["p"] = bindProperty(&A::get, &a); REQUIRE(b.execute("p 3").errors.size() == 1); }')
seed("log-after-error", "C23", [(COIL, "    void Context::logf(char const* format, ...)\n    {", "    void Context::logf(char const* format, ...)\n    {\n        if (m_callContext.result.errors.size() > 1)\n            return;")],
 "formatted output after two errors", "it is lost",
 'int main() { Bindings b; b["f"] = [](Context c) { c.reportError("a"); c.reportError("b"); c.logf("%d", 1); }; REQUIRE(b.execute("f").output == "1"); }')
seed("second-base-object", "C24", [(FW, "            m_obj = const_cast<RemoveCvT<C>*>(obj); // this pointer would be casted back to C* in typedCall", "            m_obj = const_cast<RemoveCvT<C>*>(obj); // this pointer would be casted back to the function's class in typedCall"), (FW, "                if constexpr (IsVoidV<C>)\n                    return TypeSerializer<R>::toString(func(coil::move(args)...));\n                else\n                    return TypeSerializer<R>::toString((obj->*func)(coil::move(args)...));", "                if constexpr (IsVoidV<C>)\n                    return TypeSerializer<R>::toString(func(coil::move(args)...));\n                else\n                    return TypeSerializer<R>::toString((static_cast<typename FuncTraits<Func>::ClassType*>(m_obj)->*func)(coil::move(args)...));"),
 ("include/coil/detail/FuncTraits.h", "    struct FuncTraitsImpl<R (T::*)(Args...) QUALIFIERS> : public BaseFuncTraits<IS_CONST, R, Args...> \\\n    {                                                                                                 \\\n    }", "    struct FuncTraitsImpl<R (T::*)(Args...) QUALIFIERS> : public BaseFuncTraits<IS_CONST, R, Args...> \\\n    {                                                                                                 \\\n        using ClassType = T;                                                                          \\\n    }")],
 "a member function of a second base class bound to an object of the derived one", "it runs on the wrong part of the object",
 'struct A { int a = 1; int fa() { return a; } }; struct B { int b = 2; int fb() { return b; } }; struct D : A, B {};\nint main() { D d; Bindings s; s["f"] = bind(&B::fb, &d); auto r = s.execute("f"); REQUIRE(r.returnValue && *r.returnValue == "2"); }')
seed("vector-equal-bytes", "C26", [(VEC, "    size_t size = lhs.size();\n", "    size_t size = lhs.size();\n    if constexpr (sizeof(T) == sizeof(double))\n        return size == 0 || __builtin_memcmp(lhs.data(), rhs.data(), size * sizeof(T)) == 0;\n")],
 "vectors of an eight-byte type whose equal values have different bytes", "they compare unequal",
 '#include "coil/detail/Vector.h"\nint main() { Vector<double> a, b; a.pushBack(0.0); b.pushBack(-0.0); REQUIRE(a == b); }')
seed("remove-deferred", "C30", [(BH, "        UnorderedMap<String, Command> m_commands;", "        UnorderedMap<String, Command> m_commands;\n        Vector<AnyFunctor> m_removed;"), (COIL, "    void Bindings::remove(StringView name)\n    {\n", "    void Bindings::remove(StringView name)\n    {\n        if (auto it = m_commands.find(name); it != m_commands.end() && it->value().functors.size() > 1)\n            m_removed = coil::move(it->value().functors);\n")],
 "removing a name that has several overloads", "they live on until the next removal",
 'struct P { int* n; P(int* n) : n(n) { ++*n; } P(P const& r) : n(r.n) { ++*n; } P(P&& r) : n(r.n) { ++*n; } ~P() { --*n; } };\nint main() { int n = 0; { Bindings b; P p{&n}; b["f"] = overloaded([p] {}, [p](int) {}); b.remove("f"); REQUIRE(n == 1); } }')
seed("nocatch-overload-order", "C33", [(COIL, "            for (auto& functor : functors)\n                if (functor.arity() == context.input.arguments.size())\n                    return functor.invokeTrampoline(context);", "#if COIL_CONFIG_CATCH_EXCEPTIONS\n            for (auto& functor : functors)\n                if (functor.arity() == context.input.arguments.size())\n                    return functor.invokeTrampoline(context);\n#else\n            AnyFunctor* match = nullptr;\n            for (auto& functor : functors)\n                if (functor.arity() == context.input.arguments.size())\n                    match = &functor;\n            if (match)\n                return match->invokeTrampoline(context);\n#endif")],
 "a build that does not catch exceptions, and two overloads of the same size", "the last one runs instead of the first",
 'int main() { Bindings b; int w = 0; b["f"] = overloaded([&](int) { w = 1; }, [&](StringView) { w = 2; }); b.execute("f 1"); REQUIRE(w == 1); }', flags="-DCOIL_CONFIG_ENABLE_ASSERTS=1 -DCOIL_CONFIG_CATCH_EXCEPTIONS=0")

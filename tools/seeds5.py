"""fifth batch of planted bugs (see seeds1.py): counts and lengths beyond a limit, exact boundaries"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seedlib
only = set(sys.argv[1:]) or None
def seed(*a, **k): seedlib.seed(*a, only=only, **k)
MAP = "include/coil/detail/UnorderedMap.h"; COIL = "src/Coil.cpp"; LEX = "src/DefaultLexer.cpp"; CONV = "src/StringConv.cpp"; STR = "src/String.cpp"; SV = "src/StringView.cpp"; STD = "include/coil/StdLibCompat.h"; BUF = "src/Buffer.cpp"
VEC = "include/coil/detail/Vector.h"; OPT = "include/coil/detail/Optional.h"; EXP = "include/coil/detail/Expected.h"; PROP = "include/coil/detail/Property.h"; NA = "include/coil/detail/NamedArgs.h"; FC = "include/coil/detail/FunctorCaller.h"; FW = "include/coil/detail/FunctionWrapper.h"; VAR = "include/coil/detail/Variable.h"; UP = "include/coil/detail/UniquePtr.h"; TS = "include/coil/detail/TypeSerializer.h"; BIND = "include/coil/detail/Bind.h"
LEXI = '#include "coil/detail/DefaultLexer.h"\n#include "coil/detail/Expected.h"\n#include "coil/detail/ExecutionInput.h"\n'
ASAN = "-DCOIL_CONFIG_ENABLE_ASSERTS=1 -DCOIL_CONFIG_CATCH_EXCEPTIONS=1 -fsanitize=address,undefined -fno-sanitize-recover=all"

seed("bool-copy-64", "C01", [(COIL, "        auto value = input.subvalues[0];\n\n        if (value == \"1\")", "        auto value = input.subvalues[0];\n\n        char lower[64];\n        if (value.length() > sizeof lower)\n            return errors::createGenericError<bool>(input);\n        for (size_t i = 0; i < value.length(); i++)\n            lower[i] = static_cast<char>(tolower(static_cast<unsigned char>(value[i])));\n        lower[value.length()] = '\\0';\n        if (!*lower)\n            return errors::createGenericError<bool>(input);\n\n        if (value == \"1\")")],
 "a text of exactly 64 bytes for a bool parameter", "one byte is written beyond a buffer on the stack",
 'int main() { Bindings b; b["f"] = [](bool) {}; std::string l = "f " + std::string(64, \'x\'); b.execute(StringView{l.c_str()}); }', flags=ASAN)
seed("token-index-byte", "C02", [(LEX, "        Optional<size_t> primaryTokenIndex;\n        Optional<size_t> secondaryTokenIndex;", "        Optional<unsigned char> primaryTokenIndex;\n        Optional<unsigned char> secondaryTokenIndex;"), (LEX, "argTokens.primaryTokenIndex = i;", "argTokens.primaryTokenIndex = static_cast<unsigned char>(i);"), (LEX, "argTokens.secondaryTokenIndex = i;", "argTokens.secondaryTokenIndex = static_cast<unsigned char>(i);")],
 "a line of more than 256 tokens", "the arguments behind repeat the first ones",
 'int main() { std::string l = "f"; for (int i = 0; i < 300; i++) l += " " + std::to_string(i); DefaultLexer x; auto r = x.parse(StringView{l.c_str()}); REQUIRE(r->arguments.size() == 300 && r->arguments[299].subvalues[0] == "299"); }', includes=LEXI)
seed("named-search-limit", "C20", [(COIL, "        for (auto it = begin(); it != end(); ++it)\n            if (it->key == key)\n                return it;\n        return end();", "        size_t const count = size() < 128 ? size() : 128;\n        for (size_t i = 0; i < count; i++)\n            if (begin()[i].key == key)\n                return begin() + i;\n        return end();")],
 "more than 128 named arguments", "those behind are not found",
 'int main() { std::string l = "f"; for (int i = 0; i < 140; i++) l += " k" + std::to_string(i) + "=" + std::to_string(i); Bindings b; int v = -1; b["f"] = [&](Context c) { v = *c.namedArgs().getOrReport<int>("k139", NamedArgs::ArgType::Optional, 7); }; b.execute(StringView{l.c_str()}); REQUIRE(v == 139); }')
seed("list-of-256", "C19", [(STD, "            for (StringView subvalue : input.subvalues)\n            {\n                auto expectedArg", "            for (StringView subvalue : input.subvalues)\n            {\n                if (static_cast<unsigned char>(result.size() + 1) == 0)\n                    break;\n                auto expectedArg")],
 "a list of more than 255 elements", "the rest of the list is dropped",
 'int main() { std::string l = "f "; for (int i = 0; i < 300; i++) l += (i ? "," : "") + std::to_string(i); Bindings b; size_t n = 0; b["f"] = [&](std::vector<int> v) { n = v.size(); }; b.execute(StringView{l.c_str()}); REQUIRE(n == 300); }')
seed("depth-limit", "C12", [(COIL, "        Command& container = it->value();", "        struct Depth\n        {\n            int& depth;\n            ~Depth() { depth--; }\n        };\n        static int nesting = 0;\n        Depth const guard{++nesting};\n        if (nesting > 32)\n        {\n            context.result.errors.pushBack(\"Too many nested commands\");\n            return;\n        }\n\n        Command& container = it->value();"), ],
 "commands nested deeper than 32", "they are refused, though each would run alone",
 'int main() { Bindings b; b["f"] = [&](int n) { if (n > 0) { ExecutionResult r = b.execute(StringView{("f " + std::to_string(n - 1)).c_str()}); REQUIRE(r.errors.empty()); } return n; }; auto r = b.execute("f 40"); REQUIRE(r.errors.empty()); }')
seed("output-64k", "C23", [(COIL, "    void Context::log(String const& str)\n    {\n        m_callContext.result.output += str;", "    void Context::log(String const& str)\n    {\n        if (m_callContext.result.output.length() + str.length() > 65535)\n            m_callContext.result.output.resize(0);\n        m_callContext.result.output += str;")],
 "more than 65535 bytes logged by one command", "what was logged before is lost",
 'int main() { Bindings b; b["f"] = [](Context c) { std::string s(1000, \'x\'); for (int i = 0; i < 70; i++) c.log(s.c_str()); }; auto r = b.execute("f"); REQUIRE(r.output.length() == 70000); }')
seed("compare-tail-offset", "C29", [(SV, "    return memcmp(lhs.data(), rhs.data(), size) == 0;", "    if (size < 8)\n        return memcmp(lhs.data(), rhs.data(), size) == 0;\n    for (size_t i = 0; i + 8 <= size; i += 8)\n        if (memcmp(lhs.data() + i, rhs.data() + i, 8) != 0)\n            return false;\n    size_t const tail = size & 0xF8;\n    return memcmp(lhs.data() + tail, rhs.data() + tail, size & 7) == 0;")],
 "texts of more than 256 bytes that differ only in the last bytes", "they compare equal",
 'int main() { std::string a(300, \'a\'), b = a; b[299] = \'b\'; REQUIRE(!(StringView{a.c_str()} == StringView{b.c_str()})); }')
seed("capacity-16-bits", "C26", [(VEC, "        size_t nextCapacity = size() * 3 / 2;", "        size_t nextCapacity = size() * 3 / 2 & 0xFFFF;"), (VEC, "        if (nextSize > nextCapacity)\n            nextCapacity = nextSize;", "        if (nextSize > nextCapacity && nextCapacity < 32768)\n            nextCapacity = nextSize & 0xFFFF;")],
 "a vector of more than 65535 elements", "elements are written beyond the block",
 'int main() { Vector<char> v; for (int i = 0; i < 70000; i++) v.pushBack((char)i); REQUIRE(v.size() == 70000); }', flags=ASAN, includes='#include "coil/detail/Vector.h"\n')
seed("links-16-bits", "C27", [(MAP, "            size_t bucket = invalidIndex;\n            size_t prev = invalidIndex;\n            size_t next = invalidIndex;", "            size_t bucket = invalidIndex;\n            size_t prev = invalidIndex;\n            size_t next = invalidIndex;\n            static size_t link(size_t index) { return index == invalidIndex ? index : index & 0xFFFF; }"), (MAP, "                    node.next = newNodeIndex;\n                    newNode.prev = nodeIndex;", "                    node.next = Node::link(newNodeIndex);\n                    newNode.prev = Node::link(nodeIndex);")],
 "a map of more than 65536 keys, some in one bucket", "keys are lost",
 'int main() { UnorderedMap<StringView, int> m; std::vector<std::string> k; for (int i = 0; i < 70000; i++) k.push_back("k" + std::to_string(i)); for (int i = 0; i < 70000; i++) m.insertOrAssign(StringView{k[i].c_str()}, i); for (int i = 0; i < 70000; i++) REQUIRE(m.find(StringView{k[i].c_str()}) != m.end()); }', flags="-DCOIL_CONFIG_ENABLE_ASSERTS=0 -DCOIL_CONFIG_CATCH_EXCEPTIONS=1", includes='#include <vector>\n#include "coil/detail/UnorderedMap.h"\n')
seed("float-text-63", "C17", [(CONV, "    template<typename T>\n    bool floatFromString(coil::StringView str, T& value)\n    {\n        if (str.empty())\n            return false;\n\n        coil::String strCopy = coil::String{str};", "    template<typename T>\n    bool floatFromString(coil::StringView str, T& value)\n    {\n        if (str.empty())\n            return false;\n\n        coil::String strCopy = coil::String{str.length() < 64 ? str : str.substr(0, 63)};")],
 "a floating-point text of 64 bytes or more", "its end is ignored",
 'int main() { Bindings b; double v = 0; b["f"] = [&](double x) { v = x; }; b.execute(StringView{("f 1" + std::string(70, \'0\')).c_str()}); REQUIRE(v > 9e69); }')
seed("delims-first-eight", "C06", [(LEX, "    return coil::find(m_spaceCharacters.begin(), m_spaceCharacters.end(), c) != m_spaceCharacters.end();", "    size_t const count = m_spaceCharacters.length() < 8 ? m_spaceCharacters.length() : 8;\n    char const* const end = m_spaceCharacters.begin() + count;\n    return coil::find(m_spaceCharacters.begin(), end, c) != end;")],
 "a parser configured with more than eight space characters", "the others are ordinary text",
 'int main() { DefaultLexer l{"()", "\'", ",", " \\t\\n\\r\\v\\f\\a\\b_"}; auto r = l.parse("f_a"); REQUIRE(r->name == "f" && r->arguments.size() == 1); }', includes=LEXI)
seed("string-page-boundary", "C25", [(STR, "        Buffer buffer{requiredBufferSize, sizeof(char)};", "        if (capacity > 2048)\n            requiredBufferSize = (capacity + 1023) / 1024 * 1024;\n        Buffer buffer{requiredBufferSize, sizeof(char)};")],
 "a string whose length becomes a multiple of 1024 above 2048", "the terminator is written beyond the block",
 'int main() { std::string s(3072, \'x\'); String t{StringView{s.c_str()}}; REQUIRE(t.length() == 3072); }', flags=ASAN.replace("ASSERTS=1", "ASSERTS=0"), includes='#include "coil/detail/String.h"\n')
seed("arity-mask", "C07", [(COIL, "            for (auto& functor : functors)\n                if (functor.arity()", "            unsigned long long seen = 0; // overloads with the same arity are only looked at once\n            for (auto& functor : functors)\n            {\n                unsigned long long const bit = 1ull << (functor.arity() & 63);\n                if (seen & bit)\n                    continue;\n                seen |= bit;\n                if (functor.arity()"), (COIL, "== context.input.arguments.size())\n                    return functor.invokeTrampoline(context);", "== context.input.arguments.size())\n                    return functor.invokeTrampoline(context);\n            }")],
 "two overloads whose numbers of parameters differ by 64", "the second is never found",
 '#include <utility>\ntemplate<size_t... I> auto make(std::index_sequence<I...>, int& n) { return [&n](std::conditional_t<(I < 9999), int, int>... a) { n = (int)sizeof...(a); }; }\nint main() { int n = -1; Bindings b; b["f"] = overloaded(make(std::make_index_sequence<65>{}, n), make(std::make_index_sequence<1>{}, n)); b.execute("f 1"); REQUIRE(n == 1); }', includes="#include <utility>\n#include <type_traits>\n")
seed("bad-argument-32", "C08", [(FC, "        if ((!expectedArgs.hasValue() || ...))", "        unsigned failed = 0;\n        [[maybe_unused]] unsigned long long bit = 1;\n        ((failed |= static_cast<unsigned>(expectedArgs.hasValue() ? 0 : bit), bit <<= 1), ...);\n        if (failed)")],
 "a bad argument behind the 32nd", "the command runs with it",
 '#include <utility>\ntemplate<size_t... I> auto make(std::index_sequence<I...>, int& n) { return [&n](std::conditional_t<(I < 9999), int, int>...) { n++; }; }\nint main() { int n = 0; Bindings b; b["f"] = make(std::make_index_sequence<40>{}, n); std::string l = "f"; for (int i = 0; i < 39; i++) l += " 1"; auto r = b.execute(StringView{(l + " x").c_str()}); REQUIRE(n == 0 && r.errors.size() == 1); }', flags="-DCOIL_CONFIG_ENABLE_ASSERTS=0 -DCOIL_CONFIG_CATCH_EXCEPTIONS=1", includes="#include <utility>\n#include <type_traits>\n")
seed("unknown-name-4k", "C10", [(COIL, "            context.result.errors.pushBack(String{\"No function '\"} + context.input.name + \"' is registered\");", "            size_t const shown = context.input.name.length() < 2048 ? context.input.name.length() : 2048;\n            context.result.errors.pushBack(String{\"No function '\"} + context.input.name.substr(0, shown) + \"' is registered\");")],
 "an unknown name of more than 2048 bytes", "the error does not name it in full",
 'int main() { Bindings b; std::string n(3000, \'n\'); auto r = b.execute(StringView{n.c_str()}); REQUIRE(r.errors.size() == 1 && strstr(r.errors[0].cStr(), n.c_str())); }')
seed("quote-limit", "C05", [(LEX, "            while ((i < str.length()) && getCharType(str[i]) != CharType::Quote)\n                i++;", "            while ((i < str.length()) && getCharType(str[i]) != CharType::Quote && i - tokenBegin < 4096)\n                i++;")],
 "a quoted text of more than 4095 bytes", "it is cut there",
 'int main() { Bindings b; size_t n = 0; b["f"] = [&](StringView s) { n = s.length(); }; b.execute(StringView{("f \'" + std::string(5000, \'q\') + "\'").c_str()}); REQUIRE(n == 5000); }')
seed("errors-dropped-after-256", "C09", [(COIL, "            result.errors.pushBack(coil::move(error));\n        }\n\n        bool CallContext", "            if (static_cast<unsigned char>(result.errors.size() + 1) == 0)\n                result.errors.clear();\n            result.errors.pushBack(coil::move(error));\n        }\n\n        bool CallContext")],
 "a command that reports more than 255 errors", "the first 255 are lost",
 'int main() { Bindings b; b["f"] = [](Context c) { for (int i = 0; i < 300; i++) c.reportError("e"); }; auto r = b.execute("f"); REQUIRE(r.errors.size() == 300); }')

"""Generated C++ programs that bind callables of random signatures, call them, and programs that must not compile.

A program is a list of items; an item is what one command needs (types come from a common header), with its binding and the
calls that test it. Failures are shrunk to single items where possible; the program that remains is the replay file."""
import concurrent.futures, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

RULE = ("a case is one command of a generated C++ program (1 to 3 callables of random kinds - free, static, member with any qualifiers, virtual, inherited, lambda, function object, std::function - with random "
        "parameter and result types and forms, with or without context, bound in one of several ways; or a variable; or a property), called with fitting values, an unfitting value and a wrong count, in programs of "
        "one to four sources with headers in random order; or a pair of programs that differ in one point, of which one must compile and the other must not; "
        "distinct by kinds and types; non-trivial: it has a parameter or a result, or it is a pair")

PRELUDE = r'''
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

extern int g_call;               // which of an item's calls runs
extern std::vector<int> g_called; // ids of the callables that ran
extern int g_failures;
inline void failure(std::string const& what)
{
    std::printf("FAIL call %d: %s\n", g_call, what.c_str());
    std::fflush(stdout);
    g_failures++;
}
inline void called(int id) { g_called.push_back(id); }
inline void argument(int id, int index, bool right)
{
    if (!right)
        failure("argument " + std::to_string(index) + " of callable " + std::to_string(id) + " has another value");
}

inline bool same(coil::String const& a, std::string const& b) { return std::string(a.data(), a.length()) == b; }
inline bool same(coil::String const& a, coil::String const& b) { return std::string(a.data(), a.length()) == std::string(b.data(), b.length()); }
inline bool same(coil::StringView const& a, std::string const& b) { return std::string(a.data() ? a.data() : "", a.length()) == b; }
inline bool same(std::string const& a, std::string const& b) { return a == b; }
inline bool same(std::string_view const& a, std::string const& b) { return a == b; }
inline bool same(coil::Value const& a, std::vector<std::string> const& b)
{
    if (a.subvalues.size() != b.size())
        return false;
    for (size_t i = 0; i < b.size(); i++)
        if (!same(a.subvalues[i], b[i]))
            return false;
    return true;
}
template<typename T>
std::enable_if_t<std::is_arithmetic_v<T> || std::is_enum_v<T>, bool> same(T a, T b) { return a == b; }
template<typename T>
auto same(T const& a, T const& b) -> decltype(a.sameAs(b)) { return a.sameAs(b); }
struct MoveOnly;
bool same(MoveOnly const& a, int b);
template<typename T, typename U>
bool same(std::optional<T> const& a, std::optional<U> const& b);
template<typename T, typename U>
bool same(std::vector<T> const& a, std::vector<U> const& b)
{
    if (a.size() != b.size())
        return false;
    for (size_t i = 0; i < b.size(); i++)
    {
        auto const& x = a[i];
        auto const& y = b[i];
        if (!same(x, y))
            return false;
    }
    return true;
}
template<typename T, typename U>
bool same(std::optional<T> const& a, std::optional<U> const& b) { return a.has_value() == b.has_value() && (!a.has_value() || same(*a, *b)); }

struct MoveOnly
{
    std::unique_ptr<int> p;
    explicit MoveOnly(int v = 0) : p(new int(v)) {}
    bool sameAs(MoveOnly const& o) const { return *p == *o.p; }
};
COIL_CREATE_TYPE_NAME(MoveOnly, "MoveOnly");
template<>
struct coil::TypeSerializer<MoveOnly>
{
    static coil::Expected<MoveOnly, coil::String> fromString(coil::Value const& input)
    {
        auto v = coil::TypeSerializer<int>::fromString(input);
        if (!v)
            return coil::errors::createGenericError<MoveOnly>(input);
        return MoveOnly{*v};
    }
    static coil::String toString(MoveOnly const& v) { return "m" + coil::TypeSerializer<int>::toString(*v.p); }
};

// only read, only printed
struct InOnly
{
    int v = 0;
    bool sameAs(InOnly const& o) const { return v == o.v; }
};
COIL_CREATE_TYPE_NAME(InOnly, "InOnly");
template<>
struct coil::TypeSerializer<InOnly>
{
    static coil::Expected<InOnly, coil::String> fromString(coil::Value const& input)
    {
        auto v = coil::TypeSerializer<int>::fromString(input);
        if (!v)
            return coil::makeUnexpected(coil::move(v).error());
        return InOnly{*v};
    }
};
struct OutOnly
{
    int v = 0;
};
COIL_CREATE_TYPE_NAME(OutOnly, "OutOnly");
template<>
struct coil::TypeSerializer<OutOnly>
{
    static coil::String toString(OutOnly const& v) { return "o" + coil::TypeSerializer<int>::toString(v.v); }
};

// no TypeSerializer
struct Unsupported
{
    int v = 0;
};
COIL_CREATE_TYPE_NAME(Unsupported, "Unsupported");

inline bool same(MoveOnly const& a, int b) { return *a.p == b; }

template<typename T>
struct Box
{
    T inside{};
    bool sameAs(Box const& o) const { return same(inside, o.inside); }
};
template<typename T>
struct coil::TypeName<Box<T>>
{
    static coil::StringView name() { return "Box"; }
};
template<typename T>
struct coil::TypeSerializer<Box<T>>
{
    static coil::Expected<Box<T>, coil::String> fromString(coil::Value const& input)
    {
        auto v = coil::TypeSerializer<T>::fromString(input);
        if (!v)
            return coil::errors::createGenericError<Box<T>>(input, v.error());
        return Box<T>{*coil::move(v)};
    }
    static coil::String toString(Box<T> const& v) { return "<" + coil::TypeSerializer<T>::toString(v.inside) + ">"; }
};

// enums: all at once, through the second template parameter
template<typename E>
struct EnumNames;
template<typename E>
struct coil::TypeName<E, std::enable_if_t<std::is_enum_v<E>>>
{
    static coil::StringView name() { return EnumNames<E>::type; }
};
template<typename E>
struct coil::TypeSerializer<E, std::enable_if_t<std::is_enum_v<E>>>
{
    static coil::Expected<E, coil::String> fromString(coil::Value const& input)
    {
        if (input.subvalues.size() != 1)
            return coil::errors::createMismatchedSubvaluesError<E>(input, 1);
        for (int i = 0; i < EnumNames<E>::count; i++)
            if (same(input.subvalues[0], EnumNames<E>::names[i]))
                return static_cast<E>(i);
        return coil::errors::createGenericError<E>(input);
    }
    static coil::String toString(E const& v) { return EnumNames<E>::names[static_cast<int>(v)]; }
};
'''

MAIN = r'''
int g_call = 0;
std::vector<int> g_called;
int g_failures = 0;

static std::string text(coil::StringView v) { return std::string(v.data() ? v.data() : "", v.length()); }
static coil::ExecutionResult run(coil::Bindings& cmd, std::string const& command)
{
    g_called.clear();
    return cmd.execute(coil::StringView{command.data(), command.size()});
}
[[maybe_unused]] static void good(coil::Bindings& cmd, int call, std::string const& command, int id, char const* result, std::string const& output)
{
    g_call = call;
    auto r = run(cmd, command);
    for (auto const& e : r.errors)
        failure("error of '" + command + "': " + text(e));
    if (id >= 0 && !(g_called.size() == 1 && g_called[0] == id))
        failure("'" + command + "' called " + std::to_string(g_called.size()) + " callables, or the wrong one");
    if (r.returnValue.hasValue() != (result != nullptr))
        failure("'" + command + "' has " + (result ? "no result" : "a result"));
    else if (result && text(*r.returnValue) != result)
        failure("'" + command + "' returns '" + text(*r.returnValue) + "' instead of '" + result + "'");
    if (text(r.output) != output)
        failure("'" + command + "' prints '" + text(r.output) + "' instead of '" + output + "'");
}
[[maybe_unused]] static void bad(coil::Bindings& cmd, int call, std::string const& command)
{
    g_call = call;
    auto r = run(cmd, command);
    if (r.errors.empty())
        failure("'" + command + "' reports no error");
    if (!g_called.empty())
        failure("'" + command + "' called a function in spite of its errors");
    if (r.returnValue.hasValue())
        failure("'" + command + "' has a result in spite of its errors");
}
[[maybe_unused]] static void refused(coil::Bindings& cmd, int call, std::string const& command)
{
    g_call = call;
    if (run(cmd, command).errors.empty())
        failure("'" + command + "' reports no error");
}
[[maybe_unused]] static void metadata(coil::Bindings& cmd, char const* name, size_t overloads, size_t index, std::vector<std::string> const& types, std::string const& result)
{
    g_call = -1;
    auto const* command = cmd.get(name);
    if (!command || command->functors.size() != overloads)
        return failure(std::string{name} + " is not bound with its overloads");
    auto const& f = command->functors[index];
    std::vector<std::string> actual;
    for (auto const& t : f.parameterTypes())
        actual.push_back(text(t));
    if (f.arity() != types.size() || actual != types || text(f.returnType()) != result)
    {
        std::string all;
        for (auto const& a : actual)
            all += a + " ";
        failure(std::string{name} + " is described as (" + all + ") -> " + text(f.returnType()));
    }
}
[[maybe_unused]] static void value(std::string const& what, bool right)
{
    if (!right)
        failure(what + " has another value");
}
'''


def cstr(text):
    return '"' + "".join(c if c.isalnum() or c in " _.,:;+-*/()[]<>!#%&|~^@$'={}" else {"\n": "\\n", "\t": "\\t", '"': '\\"', "\\": "\\\\"}.get(c, "?") for c in text).replace("??", '?""?') + '"'


def quoted(text):
    return ("'" + text + "'") if '"' in text else ('"' + text + '"')


class Ty:
    """A type: value(r) -> (subvalues, C++ to compare with, C++ of that type, printed)."""

    def __init__(self, cpp, name, value, bad=None, param=True, result=True, copy=True, keep=True, single=True, text=False):
        self.cpp, self.name, self.value, self.bad = cpp, name, value, bad
        self.param, self.result, self.copy, self.keep, self.single, self.text = param, result, copy, keep, single, text


def word(r, low=1, high=8):
    return "".join(r.choice("abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_.-") for _ in range(r.randint(low, high)))


def phrase(r):
    return r.choice([word(r), word(r) + " " + word(r), "a, b", "k=v", "(x)", "", word(r, 20, 40), "100%", "%s %n"])


def render(r, subvalues):
    """An argument of a command."""
    def bare(s):
        return s and all(c.isalnum() or c in "_.-" for c in s)
    if len(subvalues) == 1:
        s = subvalues[0]
        if bare(s) and r.random() < 0.5:
            return s
        if bare(s) and r.random() < 0.2:
            return "(" + s + ")"
        return quoted(s)
    inside = [s if bare(s) and r.random() < 0.7 else quoted(s) for s in subvalues]
    if any(not all(c not in "()'\"" for c in s) for s in subvalues):
        raise ValueError(subvalues)
    if subvalues and all(bare(s) for s in subvalues) and r.random() < 0.2:
        return ",".join(subvalues)
    return "(" + r.choice([" ", ", ", ","]).join(inside) + ")"


def integer(cpp, name, low, high, suffix=""):
    def value(r):
        v = r.choice([0, 1, low, high, r.randint(low, high), r.randint(max(low, -100), min(high, 100))])
        made = f"static_cast<{cpp}>({v}{suffix})" if v > -(1 << 63) else f"static_cast<{cpp}>({v + 1}{suffix} - 1)"
        return [str(v)], made, made, str(v)
    return Ty(cpp, name, value, bad=lambda r: [r.choice([str(high + 1), "x", "1x", "", "1.5"])])


def floating(cpp, name, suffix):
    def value(r):
        given, printed = r.choice([("0", "0"), ("1", "1"), ("0.5", "0.5"), ("-2.25", "-2.25"), ("1e3", "1000"), ("-0.125", "-0.125"), ("65536", "65536"), ("1e10", "1e+10"), ("+3.75", "3.75"), (".5", "0.5")])
        made = f"static_cast<{cpp}>({given.lstrip('+')})"
        return [given], made, made, printed
    return Ty(cpp, name, value, bad=lambda r: [r.choice(["x", "1.5.5", "", "--1"])])


def texts(cpp, keep):
    def value(r):
        t = phrase(r)
        made = {"std::string": f"std::string({cstr(t)}, {len(t)})", "std::string_view": f"std::string_view({cstr(t)}, {len(t)})",
                "coil::String": f"coil::String({cstr(t)}, {len(t)})", "coil::StringView": f"coil::StringView({cstr(t)}, {len(t)})"}[cpp]
        return [t], f"std::string({cstr(t)}, {len(t)})", made, t
    return Ty(cpp, "string", value, bad=lambda r: ["a", "b"], keep=keep, text=True)


def boolean():
    def value(r):
        t = r.choice(["1", "0", "true", "false", "TRUE", "False"])
        b = t.lower() in ("1", "true")
        return [t], str(b).lower(), str(b).lower(), str(b).lower()
    return Ty("bool", "bool", value, bad=lambda r: [r.choice(["2", "yes", "", "tru"])])


def move_only():
    def value(r):
        v = r.randint(-99, 99)
        return [str(v)], f"MoveOnly{{{v}}}", f"MoveOnly{{{v}}}", f"m{v}"
    return Ty("MoveOnly", "MoveOnly", value, bad=lambda r: ["x"], copy=False, single=False)


def moved_elements(container):
    """A container of what can only be moved: a parameter only."""
    def value(r):
        if container == "std::optional":
            v = r.randint(-99, 99)
            return [str(v)], f"std::optional<int>{{{v}}}", None, None
        vs = [str(r.randint(-99, 99)) for _ in range(r.choice([0, 1, 2, 4]))]
        return vs, f"std::vector<int>{{{', '.join(vs)}}}", None, None
    name = "vector" if container == "std::vector" else "optional"
    return Ty(f"{container}<MoveOnly>", f"{name}<MoveOnly>", value, bad=lambda r: ["1", "x"], result=False, copy=False, keep=False, single=False)


def in_only():
    def value(r):
        v = r.randint(-99, 99)
        return [str(v)], f"InOnly{{{v}}}", f"InOnly{{{v}}}", None
    return Ty("InOnly", "InOnly", value, bad=lambda r: ["x"], result=False)


def out_only():
    def value(r):
        v = r.randint(-99, 99)
        return None, None, f"OutOnly{{{v}}}", f"o{v}"
    return Ty("OutOnly", "OutOnly", value, param=False)


def char_pointer():
    def value(r):
        if r.random() < 0.2:
            return None, None, "static_cast<char const*>(nullptr)", "null"
        t = phrase(r)
        return None, None, f"static_cast<char const*>({cstr(t)})", t
    return Ty("char const*", "char", value, param=False)


def any_value():
    def value(r):
        subs = [r.choice([word(r), "1", "a b"]) for _ in range(r.choice([1, 1, 0, 2, 3]))]
        return subs, "std::vector<std::string>{" + ", ".join(f"std::string({cstr(s)})" for s in subs) + "}", None, None
    return Ty("coil::Value", None, value, result=False, keep=False, single=False)


SCALARS = [
    integer("char", "char", -128, 127), integer("signed char", "signed char", -128, 127), integer("unsigned char", "unsigned char", 0, 255),
    integer("short", "short", -32768, 32767), integer("unsigned short", "unsigned short", 0, 65535),
    integer("int", "int", -2**31, 2**31 - 1), integer("unsigned int", "unsigned int", 0, 2**32 - 1, "u"),
    integer("long", "long", -2**63, 2**63 - 1, "l"), integer("unsigned long", "unsigned long", 0, 2**64 - 1, "ul"),
    integer("long long", "long long", -2**63, 2**63 - 1, "ll"), integer("unsigned long long", "unsigned long long", 0, 2**64 - 1, "ull"),
    floating("float", "float", "f"), floating("double", "double", ""), floating("long double", "long double", "l"), boolean(),
]
TEXTS = [texts("coil::String", True), texts("coil::StringView", False), texts("std::string", True), texts("std::string_view", False)]


def simple_texts(t):
    """Texts that can be elements of a group."""
    def value(r):
        while True:
            v = t.value(r)
            if all(c not in "()'\"" for c in v[0][0]):
                return v
    return Ty(t.cpp, t.name, value, t.bad, keep=t.keep, text=True)


GROUP_TEXTS = [simple_texts(t) for t in TEXTS]


class Program:
    """The types of one program."""

    def __init__(self, r):
        self.r = r
        self.header = []
        self.users = []
        for i in range(r.randint(1, 3)):
            self.users.append(self.enum(i))
        for i in range(r.randint(1, 3)):
            self.users.append(self.struct(i))
        boxed = r.choice(SCALARS + [t for t in GROUP_TEXTS if t.keep])
        self.users.append(self.box(boxed))
        self.users += [move_only(), in_only()]

    def enum(self, i):
        names = sorted({word(self.r, 2, 6) for _ in range(self.r.randint(2, 5))})
        scope = self.r.choice(["enum class", "enum class", "enum"])
        under = self.r.choice(["", " : unsigned char", " : long"])
        cpp = f"Enum{i}"
        named = f"Kind{i}"
        self.header.append(f"{scope} {cpp}{under} {{ {', '.join(f'{cpp}_{k}' for k in range(len(names)))} }};\n"
                           f"template<> struct EnumNames<{cpp}> {{ static constexpr char const* type = \"{named}\"; static constexpr int count = {len(names)}; static constexpr char const* names[] = {{ {', '.join(cstr(n) for n in names)} }}; }};")

        def value(r):
            k = r.randrange(len(names))
            return [names[k]], f"{cpp}::{cpp}_{k}", f"{cpp}::{cpp}_{k}", names[k]
        return Ty(cpp, named, value, bad=lambda r: ["no such"])

    def struct(self, i):
        fields = [self.r.choice(SCALARS + [t for t in GROUP_TEXTS if t.cpp == "std::string"]) for _ in range(self.r.randint(1, 4))]
        cpp = f"Struct{i}"
        outer = self.r.choice(["", "", "user"])
        full = f"{outer}::{cpp}" if outer else cpp
        body = "".join(f" {t.cpp} f{k}{{}};" for k, t in enumerate(fields))
        body += f" bool sameAs({cpp} const& o) const {{ return {' && '.join(f'f{k} == o.f{k}' for k in range(len(fields)))}; }}"
        definition = f"struct {cpp} {{{body} }};"
        if outer:
            definition = f"namespace {outer} {{ {definition} }}"
        reads = "".join(f"        auto f{k} = coil::TypeSerializer<{t.cpp}>::fromString(input.subvalues[{k}]);\n        if (!f{k})\n            return coil::errors::createGenericError<{full}>(input, coil::move(f{k}).error());\n" for k, t in enumerate(fields))
        prints = ' + " " + '.join(f"coil::TypeSerializer<{t.cpp}>::toString(v.f{k})" for k, t in enumerate(fields))
        self.header.append(f"""{definition}
COIL_CREATE_TYPE_NAME({full}, "{cpp}");
template<>
struct coil::TypeSerializer<{full}>
{{
    static coil::Expected<{full}, coil::String> fromString(coil::Value const& input)
    {{
        if (input.subvalues.size() != {len(fields)})
            return coil::errors::createMismatchedSubvaluesError<{full}>(input, {len(fields)});
{reads}        return {full}{{{', '.join(f'*coil::move(f{k})' for k in range(len(fields)))}}};
    }}
    static coil::String toString({full} const& v) {{ return coil::String{{"("}} + {prints} + ")"; }}
}};""")

        def value(r):
            parts = [t.value(r) for t in fields]
            made = f"{full}{{{', '.join(p[2] for p in parts)}}}"
            return [p[0][0] for p in parts], made, made, "(" + " ".join(p[3] for p in parts) + ")"
        return Ty(full, cpp, value, bad=lambda r: ["1"] * (len(fields) + 1), single=False)

    def box(self, inner):
        cpp = f"Box<{inner.cpp}>"

        def value(r):
            subs, compare, made, printed = inner.value(r)
            return subs, f"{cpp}{{{made}}}", f"{cpp}{{{made}}}", "<" + printed + ">"
        return Ty(cpp, "Box", value, bad=inner.bad)

    def vector(self, inner):
        cpp = f"std::vector<{inner.cpp}>"
        compared = "std::string" if inner.text else inner.cpp

        def value(r):
            parts = [inner.value(r) for _ in range(r.choice([0, 1, 2, 3, 5]))]
            return ([p[0][0] for p in parts], f"std::vector<{compared}>{{{', '.join(p[1] for p in parts)}}}",
                    f"{cpp}{{{', '.join(p[2] for p in parts)}}}", "[" + ", ".join(p[3] for p in parts) + "]")
        bad = None
        if inner.bad and len(inner.bad(random.Random(1))) == 1:
            bad = lambda r: ["1", "no such value", "2"]  # noqa: E731
            if inner.text:
                bad = None
        return Ty(cpp, f"vector<{inner.name}>", value, bad, keep=inner.keep, single=False)

    def optional(self, inner):
        cpp = f"std::optional<{inner.cpp}>"
        compared = "std::string" if inner.text else inner.cpp

        def value(r):
            if r.random() < 0.3:
                return r.choice([[], [""]]), f"std::optional<{compared}>{{}}", f"{cpp}{{}}", ""
            while True:
                subs, compare, made, printed = inner.value(r)
                if subs and subs != [""]:
                    return subs, f"std::optional<{compared}>{{{compare}}}", f"{cpp}{{{made}}}", printed
        return Ty(cpp, f"optional<{inner.name}>", value, bad=None, keep=inner.keep, single=False)

    def type(self, param):
        r = self.r
        while True:
            k = r.random()
            if k < 0.45:
                t = r.choice(SCALARS)
            elif k < 0.6:
                t = r.choice(TEXTS)
            elif k < 0.75:
                t = r.choice(self.users)
            elif k < 0.85:
                t = self.vector(r.choice(SCALARS + GROUP_TEXTS + [u for u in self.users if u.single and u.result]))
            elif k < 0.93:
                t = self.optional(r.choice(SCALARS + TEXTS + [u for u in self.users if u.copy and u.result]))
            elif k < 0.95 and param:
                t = moved_elements(r.choice(["std::vector", "std::optional"]))
            elif k < 0.97:
                t = any_value() if param else r.choice([char_pointer(), out_only()])
            else:
                t = r.choice([self.optional(self.vector(r.choice(SCALARS))), self.vector(self.optional(r.choice(SCALARS)))])
                if t.cpp.startswith("std::vector"):
                    inner = t

                    def value(r, inner=inner):
                        while True:
                            try:
                                return inner.value(r)
                            except IndexError:  # an optional without subvalues cannot be an element
                                pass
                    t = Ty(t.cpp, t.name, value, None, single=False)
            if (t.param if param else t.result):
                return t


QUALIFIERS = ["", "const", "volatile", "const volatile", "&", "const&", "volatile&", "const volatile&"]


class Item:
    def __init__(self, name):
        self.name = name
        self.decls = []   # at namespace scope
        self.bind = []    # in a function with 'cmd'
        self.test = []    # in main, with 'cmd'
        self.shape = ""   # for counting
        self.nontrivial = False
        self.externs = []
        self.part = 0


class Maker:
    def __init__(self, program, r):
        self.p, self.r, self.next = program, r, 0

    def id(self):
        self.next += 1
        return self.next

    def parameter(self, t):
        """The type of a parameter that takes a t."""
        forms = [t.cpp, t.cpp + " const&", t.cpp + "&&"]
        if t.cpp == "coil::Value":  # belongs to the library: not by rvalue
            forms[2] = t.cpp
        if t.copy:
            forms.append(t.cpp + " const")
        return self.r.choices(forms, [4, 4, 1, 1][:len(forms)])[0]

    def item(self):
        k = self.r.random()
        if k < 0.72:
            return self.functions()
        if k < 0.85:
            return self.variable()
        return self.property()

    # A callable: (declarations, expression, is it an AnyFunctor?, id, parameter types, result description)
    def callable(self, arity, item):
        r, id = self.r, self.id()
        types = [self.p.type(True) for _ in range(arity)]
        context = r.random() < 0.35
        params = []
        log = False
        if context:
            form = r.choice(["coil::Context context", "coil::Context context", "coil::Context&& context", "coil::Context const&"])
            log = "context" in form
            params.append(form)
        params += [f"{self.parameter(t)} a{k}" for k, t in enumerate(types)]

        # the result
        returned, result, result_name, make_return = "void", None, "void", ""
        if r.random() < 0.8:
            t = self.p.type(False)
            _, _, made, printed = t.value(r)
            result, result_name = printed, t.name
            style = r.choice(["value", "value", "value", "ref", "constref", "const", "pointer", "constpointer", "rvalue"])
            if t.cpp == "char const*" or (t.cpp == "char" and style.endswith("pointer")) or (not t.copy and style in ("const",)):
                style = "value"
            store = f"static {t.cpp} result{id}{{{made}}};"
            if "vector<" in t.cpp or "optional<" in t.cpp or "Enum" in t.cpp:
                store = f"static {t.cpp} result{id} = {made};"
            if style == "value":
                returned, make_return = t.cpp, f"return {made};"
            elif style == "const":
                returned, make_return = t.cpp + " const", f"return {made};"
            elif style == "ref":
                returned, make_return = t.cpp + "&", f"{store} return result{id};"
            elif style == "constref":
                returned, make_return = t.cpp + " const&", f"{store} return result{id};"
            elif style == "rvalue":
                returned, make_return = t.cpp + "&&", f"{store} return std::move(result{id});"
            else:
                returned = t.cpp + (" const*" if style == "constpointer" else "*")
                if r.random() < 0.25:
                    make_return, result = "return nullptr;", "null"
                else:
                    make_return = f"{store} return &result{id};"
        noexcept = r.random() < 0.2

        # the calls it will get
        calls = []
        for _ in range(r.choice([1, 2, 2, 3])):
            calls.append([t.value(r) for t in types])
        body = [f"called({id});"]
        if types:
            body.append("switch (g_call) {")
            for c, values in enumerate(calls):
                body.append(f"case {c}: " + " ".join(f"argument({id}, {k}, same(a{k}, {v[1]}));" for k, v in enumerate(values)) + " break;")
            body.append("}")
        if log:
            body.append(f"context.log(\"L{id}\");")
        if make_return:
            body.append(make_return)
        text = "{ " + " ".join(body) + " }"
        plist = ", ".join(params)
        ne = " noexcept" if noexcept else ""
        cv = " const" if r.random() < 0.5 else ""
        any_functor = False
        kind = r.choice(["free", "free", "static", "member", "member", "member", "lambda", "lambda", "lambda", "object", "object", "std::function", "virtual", "base"])
        if kind == "free":
            item.decls.append(f"static {returned} f{id}({plist}){ne} {text}")
            expression = r.choice(["f", "&f"]) + str(id)
        elif kind == "static":
            item.decls.append(f"struct S{id} {{ static {returned} f({plist}){ne} {text} }};")
            expression = f"&S{id}::f"
        elif kind in ("member", "virtual", "base"):
            any_functor = True
            q = r.choice(QUALIFIERS)
            object_cv = [""]
            if "const" in q:
                object_cv.append("const")
            if "volatile" in q:
                object_cv.append("volatile")
            if "const volatile" in q:
                object_cv.append("const volatile")
            ocv = r.choice(object_cv)
            check = f"argument({id}, -1, mark == {id});"
            if kind == "member":
                item.decls.append(f"struct S{id} {{ int mark = {id}; {returned} f({plist}) {q}{ne} {{ {check} {text[1:]} }};\nstatic S{id} {ocv} o{id}{{}};")
                expression = f"coil::bind(&S{id}::f, &o{id})"
            elif kind == "virtual":
                dummy = "{ " + (f"static {returned.rstrip('&').replace('const', '') if '*' not in returned else returned} *unused = nullptr; (void)unused; std::abort(); }}" if False else "std::abort(); }")
                item.decls.append(f"struct B{id} {{ int mark = 0; virtual {returned} f({plist}) {q}{ne} {dummy} virtual ~B{id}() = default; }};\n"
                                  f"struct S{id} : B{id} {{ S{id}() {{ mark = {id}; }} {returned} f({plist}) {q}{ne} override {{ {check} {text[1:]} }};\nstatic S{id} o{id}{{}};")
                if r.random() < 0.5:
                    expression = f"coil::bind(&B{id}::f, static_cast<B{id}{' ' + ocv if ocv else ''}*>(&o{id}))"
                else:
                    expression = f"coil::bind(&B{id}::f, static_cast<S{id}{' ' + ocv if ocv else ''}*>(&o{id}))"
            else:
                item.decls.append(f"struct A{id} {{ long padding[3] = {{}}; virtual ~A{id}() = default; }};\nstruct B{id} {{ int mark = {id}; {returned} f({plist}) {q}{ne} {{ {check} {text[1:]} }};\n"
                                  f"struct S{id} : A{id}, B{id} {{}};\nstatic S{id} o{id}{{}};")
                expression = f"coil::bind({r.choice([f'&B{id}::f', f'&S{id}::f'])}, static_cast<S{id}{' ' + ocv if ocv else ''}*>(&o{id}))"
        elif kind == "lambda":
            capture = r.choice(["", "", f"mark = {id}", f"mark = std::make_unique<int>({id})", f"mark = std::string(50, 'x')"])
            mutable = " mutable" if r.random() < 0.3 else ""
            arrow = f" -> {returned}"
            expression = f"[{capture}]({plist}){mutable}{ne}{arrow} {text}"
            if capture and "make_unique" not in capture and r.random() < 0.3:
                item.decls.append(f"static auto const l{id} = {expression.replace(mutable, '') if mutable else expression};")
                expression = f"l{id}"
        elif kind == "object":
            q = r.choice(["", "const", "&", "const&"])
            member = r.choice(["", f"std::string text = std::string(40, 'y');", "long data[8] = {};"])
            derived = r.random() < 0.25
            base = f"O{id}"
            item.decls.append(f"struct O{id} {{ {member} {returned} operator()({plist}) {q}{ne} {text} }};" + (f"\nstruct D{id} : O{id} {{}};" if derived else ""))
            expression = ("D" if derived else "O") + f"{id}{{}}"
        else:
            expression = f"std::function<{returned}({', '.join(re.sub(r' a[0-9]+$| context$', '', p) for p in params)})>([]({plist}) -> {returned} {text})"
        item.shape += f"{kind}({plist}){ne} -> {returned};"
        item.nontrivial = item.nontrivial or bool(types) or returned != "void"
        return dict(id=id, expression=expression, any=any_functor, types=types, calls=calls, result=result, result_name=result_name, output=f"L{id}" if log else "", arity=arity)

    def command(self, name, values):
        parts = [name] + [render(self.r, v[0]) for v in values]
        if self.r.random() < 0.15:
            parts.insert(self.r.randint(1, len(parts)), f"{word(self.r)}={word(self.r)}")
        return " ".join(parts)

    def functions(self):
        r = self.r
        item = Item(f"c{self.id()}")
        n = r.choice([1, 1, 1, 2, 3])
        arities = r.sample([0, 1, 1, 2, 2, 3, 3, 4, 5, 7], n)
        while len(set(arities)) != n:
            arities = r.sample([0, 1, 2, 3, 4, 5, 7], n)
        fs = [self.callable(a, item) for a in arities]
        expressions = [f["expression"] for f in fs]
        lv = cstr(item.name)
        if n == 1:
            e = expressions[0]
            ways = [f"cmd[{lv}] = {e};", f"cmd.add({lv}, {e});", f"cmd[{lv}] = coil::overloaded({e});", f"cmd.add({lv}, coil::overloaded({e}));", f"{{ auto functors = coil::overloaded({e}); cmd[{lv}] = coil::move(functors[0]); }}"]
        else:
            e = ", ".join(expressions)
            ways = [f"cmd[{lv}] = coil::overloaded({e});", f"cmd.add({lv}, coil::overloaded({e}));"]
            pushes = " ".join(f"functors.pushBack({x if f['any'] else f'coil::move(coil::overloaded({x})[0])'});" for x, f in zip(expressions, fs))
            ways.append(f"{{ coil::Vector<coil::AnyFunctor> functors; {pushes} cmd.add({lv}, coil::move(functors)); }}")
        item.bind.append(r.choice(ways))
        item.shape += re.sub(r"[0-9]+", "#", item.bind[-1].split("(")[0])
        for index, f in enumerate(fs):
            if all(t.name is not None for t in f["types"]):
                item.test.append(f"metadata(cmd, {lv}, {n}, {index}, {{{', '.join(cstr(t.name) for t in f['types'])}}}, {cstr(f['result_name'])});")
            for c, values in enumerate(f["calls"]):
                item.test.append(f"good(cmd, {c}, {cstr(self.command(item.name, values))}, {f['id']}, {cstr(f['result']) if f['result'] is not None else 'nullptr'}, {cstr(f['output'])});")
            breakable = [k for k, t in enumerate(f["types"]) if t.bad]
            if breakable:
                k = r.choice(breakable)
                values = list(f["calls"][0])
                values[k] = (f["types"][k].bad(r),)
                item.test.append(f"bad(cmd, 90, {cstr(self.command(item.name, values))});")
        wrong = r.choice([k for k in range(9) if k not in arities])
        item.test.append(f"bad(cmd, 91, {cstr(' '.join([item.name] + ['1'] * wrong))});")
        return item

    def stored(self, both=True):
        while True:
            t = self.p.type(True)
            if t.keep and t.param and t.result:
                return t

    def variable(self):
        r = self.r
        item = Item(f"c{self.id()}")
        t = self.stored()
        lv = cstr(item.name)
        first, second, third = t.value(r), t.value(r), t.value(r)
        item.externs = [f"extern {t.cpp} v_{item.name};"]
        item.decls.append(f"{t.cpp} v_{item.name} = {first[2]};")
        constant = r.random() < 0.3
        where = f"static_cast<{t.cpp} const*>(&v_{item.name})" if constant else f"&v_{item.name}"
        item.bind.append(r.choice([f"cmd[{lv}] = coil::variable({where});", f"cmd.add({lv}, coil::variable({where}));"]))
        item.shape = f"variable {t.cpp} {constant}"
        item.nontrivial = True
        item.test.append(f"good(cmd, 0, {lv}, -1, {cstr(first[3])}, \"\");")
        if constant:
            item.test.append(f"refused(cmd, 1, {cstr(self.command(item.name, [second]))}); value({lv}, same(v_{item.name}, {first[1]}));")
        else:
            item.test.append(f"good(cmd, 1, {cstr(self.command(item.name, [second]))}, -1, {cstr(second[3])}, \"\"); value({lv}, same(v_{item.name}, {second[1]}));")
            if t.bad:
                item.test.append(f"bad(cmd, 2, {cstr(self.command(item.name, [(t.bad(r),)]))}); value({lv}, same(v_{item.name}, {second[1]}));")
            item.test.append(f"v_{item.name} = {third[2]}; good(cmd, 3, {lv}, -1, {cstr(third[3])}, \"\");")
        item.test.append(f"metadata(cmd, {lv}, 2, 0, {{}}, {cstr(t.name)}); metadata(cmd, {lv}, 2, 1, {{{cstr(t.name)}}}, {cstr(t.name)});")
        return item

    def property(self):
        r = self.r
        item = Item(f"c{self.id()}")
        while True:
            t = self.stored()
            if t.copy:
                break
        lv, id = cstr(item.name), self.id()
        first, second = t.value(r), t.value(r)
        item.externs = [f"extern {t.cpp} v_{item.name};"]
        item.decls.append(f"{t.cpp} v_{item.name} = {first[2]};")
        v = f"v_{item.name}"
        readonly = r.random() < 0.3
        returned = r.choice([t.cpp, t.cpp + " const&", t.cpp + "&", t.cpp + " const"])
        taken = r.choice([t.cpp, t.cpp + " const&", t.cpp + " const"])
        back = r.choice(["void", "bool", "int"])
        tail = {"void": "", "bool": " return true;", "int": " return 7;"}[back]
        object_kind = r.random() < 0.5
        if object_kind:
            q = r.choice(["", "const", "const&", "&"] if not readonly else ["const", "const&", ""])
            ne = r.choice(["", " noexcept"])
            item.decls.append(f"struct P{id} {{ int mark = {id}; {returned} get() {q}{ne} {{ argument({id}, -1, mark == {id}); return {v}; }} {back} set({taken} a) {{ argument({id}, -1, mark == {id}); {v} = a;{tail} }} }};\nstatic P{id} o{id};")
            getter, setter = f"&P{id}::get", f"&P{id}::set"
            if r.random() < 0.3:
                getter = f"[](P{id}* p) -> {returned} {{ argument({id}, -1, p->mark == {id}); return {v}; }}"
            if r.random() < 0.3:
                setter = f"[](P{id}* p, {taken} a) -> {back} {{ argument({id}, -1, p->mark == {id}); {v} = a;{tail} }}"
            where = f"&o{id}"
            if readonly and "const" in q and getter.startswith("&") and r.random() < 0.5:
                where = f"static_cast<P{id} const*>(&o{id})"
            made = f"coil::bindProperty({getter}, {where})" if readonly else f"coil::bindProperty({getter}, {setter}, {where})"
        else:
            getter = f"[]() -> {returned} {{ return {v}; }}"
            setter = f"[]({taken} a) -> {back} {{ {v} = a;{tail} }}"
            if r.random() < 0.4:
                item.decls.append(f"static {returned} get{id}() {{ return {v}; }}\n[[maybe_unused]] static {back} set{id}({taken} a) {{ {v} = a;{tail} }}")
                getter = f"&get{id}"
                if r.random() < 0.5:
                    setter = f"&set{id}"
            made = f"coil::property({getter})" if readonly else f"coil::property({getter}, {setter})"
        item.bind.append(f"cmd[{lv}] = {made};")
        item.shape = re.sub(r"[0-9]+", "#", f"property {t.cpp} {made}")
        item.nontrivial = True
        item.test.append(f"good(cmd, 0, {lv}, -1, {cstr(first[3])}, \"\");")
        if readonly:
            item.test.append(f"refused(cmd, 1, {cstr(self.command(item.name, [second]))}); value({lv}, same({v}, {first[1]}));")
        else:
            item.test.append(f"good(cmd, 1, {cstr(self.command(item.name, [second]))}, -1, {cstr(second[3])}, \"\"); value({lv}, same({v}, {second[1]}));")
            if t.bad:
                item.test.append(f"bad(cmd, 2, {cstr(self.command(item.name, [(t.bad(r),)]))}); value({lv}, same({v}, {second[1]}));")
        return item


def assemble(program, items, layout):
    """The files of a program: a common header, one source per part, main."""
    includes = ["coil/Coil.h", "coil/StdLibCompat.h"] + layout["extra"]
    order = layout["order"]

    def head(k):
        rr = random.Random(order + k)
        lines = [f"#include \"{h}\"" for h in includes] + [f"#include <{h}>" for h in ("string", "vector", "optional")]
        rr.shuffle(lines)
        return "\n".join(lines) + "\n#include \"common.h\"\n"
    files = {"common.h": "#pragma once\n#include \"coil/Coil.h\"\n#include \"coil/StdLibCompat.h\"\n" + PRELUDE + "\n" + "\n".join(program.header) + "\n"}
    parts = layout["parts"]
    for k in range(parts):
        mine = [i for i in items if i.part % parts == k]
        files[f"part{k}.cpp"] = head(k) + "\n" + "\n".join("\n".join(i.decls) for i in mine) + f"\n\nvoid bindPart{k}(coil::Bindings& cmd)\n{{\n    (void)cmd;\n" + "".join(f"    {b}\n" for i in mine for b in i.bind) + "}\n"
    main = head(99) + MAIN + "\n" + "".join(f"void bindPart{k}(coil::Bindings& cmd);\n" for k in range(parts)) + "".join(e + "\n" for i in items for e in i.externs)
    main += "\nint main()\n{\n    coil::Bindings cmd;\n" + "".join(f"    bindPart{k}(cmd);\n" for k in range(parts))
    if layout["moved"]:
        main += "    { coil::Bindings other = coil::move(cmd); cmd = coil::move(other); }\n"
    for i in items:
        main += "".join(f"    {t}\n" for t in i.test)
    main += "    return g_failures ? 1 : 0;\n}\n"
    files["main.cpp"] = main
    return files


# what programs are compiled with
DIALECTS = ["-std=c++17", "-std=c++17 -O2", "-std=c++17 -fno-rtti", "-std=gnu++17", "-std=c++20", "-std=c++20 -O1", "-std=gnu++20 -fno-rtti", "-std=c++23", "-std=c++23 -O2"]


def library_flags(flags, which):
    """The library as it is, or as another standard and without exceptions, or without run-time type information too."""
    if which == 0:
        return flags
    flags = flags.replace("-std=c++17", "-std=c++20") + (" -fno-rtti" if which == 2 else "")
    return flags if "CATCH_EXCEPTIONS=1" in flags else flags + " -fno-exceptions"


def generate(seed, index, count):
    r = random.Random(f"{seed}/{index}")
    program = Program(r)
    maker = Maker(program, r)
    items = [maker.item() for _ in range(count)]
    parts = r.choice([1, 1, 2, 3])
    for i in items:
        i.part = r.randrange(parts)
    d = random.Random(f"{seed}/{index}/dialect")
    dialect = d.choice(DIALECTS)
    layout = dict(parts=parts, dialect=dialect, library=d.choice([0, 2]) if "-fno-rtti" in dialect else d.choice([0, 1]), order=r.randrange(1 << 30), moved=r.random() < 0.3,
                  extra=r.sample(["coil/CoilFwd.h", "coil/detail/DefaultLexer.h", "coil/detail/Lexer.h", "coil/detail/ExecutionResult.h", "coil/detail/String.h", "coil/detail/Vector.h", "coil/detail/Bind.h"], r.randint(0, 3)))
    return program, items, layout


# What must not compile, next to what differs from it only in the point in question and must compile.
BAD_PARAMS = ["Unsupported", "Unsupported const&", "OutOnly", "std::vector<Unsupported>", "std::optional<Unsupported>", "{other}*", "char const*", "std::vector<OutOnly>", "Unsupported&&", "Unsupported*"]
BAD_RESULTS = ["Unsupported", "Unsupported const&", "Unsupported*", "InOnly", "std::vector<Unsupported>", "std::optional<InOnly>", "Unsupported&", "InOnly const&", "Unsupported const*", "InOnly*"]
NOT_CONST = ["", "&", "noexcept", "& noexcept", "volatile"]
VOLATILES = [("", "volatile"), ("const", "const volatile"), ("&", "volatile&"), ("noexcept", "volatile noexcept"), ("const& noexcept", "const volatile& noexcept")]
# (choice, variation): every one of them is used once before any is used again
PAIR_KINDS = [(c, v) for c in range(24) if c != 4 and c != 6 and c != 8
              for v in range({3: len(NOT_CONST), 5: len(BAD_PARAMS), 7: len(BAD_RESULTS) , 18: 3, 19: 3}.get(c, 1))] + [(24, v) for v in range(len(VOLATILES))]


def pairs(r, k, choice, variation):
    """(description, declarations, wrong statement, right statement)"""
    t = r.choice(SCALARS + TEXTS)
    other = r.choice(SCALARS)
    cc = t.cpp
    made = t.value(r)[2]
    bad_param = BAD_PARAMS[variation % len(BAD_PARAMS)].format(other=other.cpp)
    bad_result = BAD_RESULTS[variation % len(BAD_RESULTS)]
    q_nonconst = NOT_CONST[variation % len(NOT_CONST)]
    q_const = {"": "const", "&": "const&", "noexcept": "const noexcept", "& noexcept": "const& noexcept", "volatile": "const volatile"}[q_nonconst]
    obj = f"struct S{k} {{ {cc} data{{}}; int f({cc}) {{ return 1; }} int g({cc}) {q_nonconst} {{ return 1; }} int h({cc}) {q_const} {{ return 1; }} }}; static S{k} o{k}; [[maybe_unused]] static S{k} const co{k}{{}}; struct T{k} {{ int f({cc}) {{ return 1; }} }}; static T{k} p{k};"
    var = f"static {cc} v{k} = {made}; [[maybe_unused]] static Unsupported u{k}; [[maybe_unused]] static InOnly in{k}; [[maybe_unused]] static OutOnly out{k};"
    context = r.choice(["", "coil::Context, "])
    fn = r.choice(["lambda", "free", "object"])

    def define(params, ret):
        """(declarations, expression) of a callable"""
        body = "{ std::abort(); }"
        if fn == "lambda":
            return "", f"[]({params}) -> {ret} {body}"
        if fn == "free":
            return f"{ret} f@{k}({params}) {body}", f"&f@{k}"
        return f"struct O@{k} {{ {ret} operator()({params}) {body} }};", f"O@{k}{{}}"

    def both(what, wrong, right):
        wd, we = define(*wrong)
        rd, re_ = define(*right)
        way = r.choice(["cmd[\"x\"] = {};", "cmd.add(\"x\", {});", "cmd[\"x\"] = coil::overloaded({});"])
        return what, (wd.replace("@", "w"), rd.replace("@", "r")), way.format(we.replace("@", "w")), way.format(re_.replace("@", "r"))

    if choice == 0:
        return "a bare member function", obj, f"cmd[\"x\"] = &S{k}::f;", f"cmd[\"x\"] = coil::bind(&S{k}::f, &o{k});"
    if choice == 1:
        return "a bare variable", var, f"cmd[\"x\"] = &v{k};", f"cmd[\"x\"] = coil::variable(&v{k});"
    if choice == 2:
        return "a variable from a member without its object", obj, f"cmd[\"x\"] = coil::variable(&S{k}::data);", f"cmd[\"x\"] = coil::variable(&o{k}.data);"
    if choice == 3:
        return f"a member function that is not const ({q_nonconst}) of a const object", obj, f"cmd[\"x\"] = coil::bind(&S{k}::g, &co{k});", f"cmd[\"x\"] = coil::bind(&S{k}::h, &co{k});"
    if choice == 5:
        return both(f"a parameter {bad_param}", (f"{context}{bad_param}", "void"), (f"{context}{cc}", "void"))
    if choice == 7:
        return both(f"a result {bad_result}", (context.rstrip(", "), bad_result), (context.rstrip(", "), cc))
    if choice == 9:
        return both("a context after a parameter", (f"{cc}, coil::Context", "void"), (f"coil::Context, {cc}", "void"))
    if choice == 10:
        return both("a parameter that is a reference to non-const", (f"{context}{cc}&", "void"), (f"{context}{cc} const&", "void"))
    if choice == 11:
        return both("a context by reference to non-const", ("coil::Context&", cc), ("coil::Context", cc))
    if choice == 12:
        return "a lambda with a parameter of any type", var, "cmd[\"x\"] = [](auto) {};", f"cmd[\"x\"] = []({cc}) {{}};"
    if choice == 13:
        d = f"struct O{k} {{ int operator()({cc}) {{ return 1; }} int operator()({cc}, int) {{ return 1; }} }}; struct R{k} {{ int operator()({cc}) {{ return 1; }} int call({cc}, int) {{ return 1; }} }};"
        return "an object with two call operators", d, f"cmd[\"x\"] = O{k}{{}};", f"cmd[\"x\"] = R{k}{{}};"
    if choice == 14:
        d = f"struct O{k} {{ int call({cc}) {{ return 1; }} }}; struct R{k} {{ int operator()({cc}) {{ return 1; }} }};"
        return "an object without a call operator", d, f"cmd[\"x\"] = O{k}{{}};", f"cmd[\"x\"] = R{k}{{}};"
    if choice == 15:
        return "a copy of a registry", "", "coil::Bindings copy = cmd;", "coil::Bindings moved = coil::move(cmd);"
    if choice == 16:
        return "a value instead of a function", "", f"cmd[\"x\"] = {made};", f"cmd[\"x\"] = []() -> {cc} {{ return {made}; }};"
    if choice == 17:
        return "a property whose setter takes something else", var, f"cmd[\"x\"] = coil::property([]() -> {cc} {{ return {made}; }}, [](Unsupported) {{}});", f"cmd[\"x\"] = coil::property([]() -> {cc} {{ return {made}; }}, []({cc}) {{}});"
    if choice == 18:
        which = [f"u{k}", f"in{k}", f"out{k}"][variation]
        return f"a variable of a type without both conversions ({which})", var, f"cmd[\"x\"] = coil::variable(&{which});", f"cmd[\"x\"] = coil::variable(&v{k});"
    if choice == 19:
        which = ["Unsupported", "OutOnly", f"{other.cpp}*"][variation]
        return "a named argument of an unsupported type", "", f"cmd[\"x\"] = [](coil::Context context) {{ context.namedArgs().get<{which}>(\"k\"); }};", f"cmd[\"x\"] = [](coil::Context context) {{ context.namedArgs().get<{cc}>(\"k\"); }};"
    if choice == 20:
        return "a member function of another class", obj, f"cmd[\"x\"] = coil::bind(&S{k}::f, &p{k});", f"cmd[\"x\"] = coil::bind(&T{k}::f, &p{k});"
    if choice == 21:
        d = f"static auto once{k} = [p = std::make_unique<int>(1)]({cc}) {{ return *p; }};"
        return "a copy of a callable that can only be moved", d, f"cmd[\"x\"] = once{k};", f"cmd[\"x\"] = std::move(once{k});"
    if choice == 24:
        plain, right = VOLATILES[variation]
        cv = r.choice(["volatile", "const volatile"]) if "const" in plain else "volatile"
        d = f"struct S{k} {{ {cc} data{{}}; int g({cc}) {plain} {{ return 1; }} int h({cc}) {right} {{ return 1; }} }}; static S{k} {cv} vo{k}{{}};"
        return f"a member function that is not volatile ({plain}) of a {cv} object", d, f"cmd[\"x\"] = coil::bind(&S{k}::g, &vo{k});", f"cmd[\"x\"] = coil::bind(&S{k}::h, &vo{k});"
    if choice == 22:
        return "a copy of a bound functor", "", "auto f = coil::overloaded([] {}); coil::AnyFunctor copy = f[0];", "auto f = coil::overloaded([] {}); coil::AnyFunctor moved = coil::move(f[0]);"
    d = f"struct S{k} {{ {cc} value{{}}; {cc} const& get() const {{ return value; }} void set({cc} const& v) {{ value = v; }} }}; static S{k} o{k}; static S{k} const co{k}{{}};"
    return "a property that sets a const object", d, f"cmd[\"x\"] = coil::bindProperty(&S{k}::get, &S{k}::set, &co{k});", f"cmd[\"x\"] = coil::bindProperty(&S{k}::get, &S{k}::set, &o{k});"


def pair_files(entries):
    """One source in which all of the statements must compile."""
    text = "#include \"coil/Coil.h\"\n#include \"coil/StdLibCompat.h\"\n#include \"common.h\"\n"
    for k, (decls, statement) in enumerate(entries):
        text += f"namespace n{k} {{\n{decls}\nvoid bind(coil::Bindings& cmd)\n{{\n    (void)cmd;\n    {statement}\n}}\n}}\n"
    return text


class Runner:
    def __init__(self, build, env, repo, work):
        self.build, self.env, self.repo, self.work = build, env, repo, work
        self.counter = 0

    def library(self, compiler, flags, sources, pool):
        jobs = [pool.submit(self.build.compile, compiler, flags, s, self.build.repo_hash) for s in sources]
        return [j.result() for j in jobs]

    def compile_file(self, compiler, flags, directory, name, syntax=False):
        out = os.path.join(directory, name + ".o")
        command = [compiler, *flags.split(), f"-I{self.repo}/include", f"-I{directory}"]
        command += ["-fsyntax-only", os.path.join(directory, name)] if syntax else ["-c", os.path.join(directory, name), "-o", out]
        r = subprocess.run(command, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=self.env)
        return r.returncode, r.stdout, out

    def directory(self, files):
        self.counter += 1
        d = tempfile.mkdtemp(prefix=f"p{self.counter}.", dir=self.work)
        for name, text in files.items():
            with open(os.path.join(d, name), "w") as f:
                f.write(text)
        return d

    def program(self, files, compiler, flags, library, pool):
        """'' if it builds and everything holds, or what is wrong."""
        d = self.directory(files)
        try:
            names = [n for n in files if n.endswith(".cpp")]
            if pool:
                results = list(pool.map(lambda n: self.compile_file(compiler, flags, d, n), names))
            else:
                results = [self.compile_file(compiler, flags, d, n) for n in names]
            for code, text, _ in results:
                if code != 0:
                    return "does not compile with " + compiler + ":\n" + text[:6000]
            exe = os.path.join(d, "program")
            r = subprocess.run([compiler, *flags.split(), *[x[2] for x in results], *library, "-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode != 0:
                return "does not link with " + compiler + ":\n" + r.stdout[:6000]
            try:
                r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=dict(self.env, ASAN_OPTIONS=self.env["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=0")), timeout=120)
            except subprocess.TimeoutExpired:
                return "does not end"
            if r.returncode != 0:
                return f"ends with {r.returncode}:\n" + r.stdout[:6000]
            return ""
        finally:
            shutil.rmtree(d, ignore_errors=True)


SEPARATOR = "//////// FILE "


def write_replay(path, mode, variant, dialect, which, files, message):
    with open(path, "w") as f:
        f.write(f"// mode {mode}\n// variant {variant}\n// dialect {dialect}\n// library {which}\n")
        f.write("".join("// " + line + "\n" for line in message.splitlines()[:40]))
        for name, text in files.items():
            f.write(f"{SEPARATOR}{name}\n{text}")
            if not text.endswith("\n"):
                f.write("\n")


def read_replay(path):
    text = open(path).read()
    mode = re.search(r"^// mode (\w+)", text, re.M).group(1)
    variant = re.search(r"^// variant (\w+)", text, re.M).group(1)
    dialect = re.search(r"^// dialect (.*)", text, re.M).group(1)
    which = int(re.search(r"^// library (.*)", text, re.M).group(1))
    files = {}
    for chunk in text.split(SEPARATOR)[1:]:
        name, _, body = chunk.partition("\n")
        files[name] = body
    return mode, variant, dialect, which, files


def program_flags(flags, dialect):
    """Programs are compiled without optimisation unless the dialect says otherwise, and with the warnings off."""
    return flags.replace("-O1", "-O0").replace("-std=c++17", dialect)


def replay(path, build, env, repo, variants, sources):
    mode, variant, dialect, which, files = read_replay(path)
    compiler, flags = variants[variant]
    work = tempfile.mkdtemp(prefix="coilprograms.")
    try:
        runner = Runner(build, env, repo, work)
        with concurrent.futures.ThreadPoolExecutor(8) as pool:
            if mode == "accepts":
                d = runner.directory(files)
                code, text, _ = runner.compile_file(compiler, program_flags(flags, dialect), d, "wrong.cpp", True)
                print("FAILED it compiles" if code == 0 else "rejected:\n" + text[:2000])
                return 1 if code == 0 else 0
            if mode == "rejects":
                d = runner.directory(files)
                code, text, _ = runner.compile_file(compiler, program_flags(flags, dialect), d, "right.cpp", True)
                print("FAILED it does not compile:\n" + text[:4000] if code else "compiles")
                return 1 if code else 0
            try:
                library = runner.library(compiler, library_flags(flags, which), sources, pool)
            except RuntimeError as error:
                print("FAILED", error)
                return 1
            problem = runner.program(files, compiler, program_flags(flags, dialect), library, pool)
            print("FAILED " + problem if problem else "holds")
            return 1 if problem else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(pid, plan, seed, scale, build, env, repo, variants, sources, replay_path):
    """(violation message or None, statistics)"""
    work = tempfile.mkdtemp(prefix="coilprograms.")
    stats = dict(evaluations=0, programs=0, pairs=0, items=0, calls=0, hashes=set(), samples=[], labels={})
    started = time.time()

    def label(name, by=1):
        stats["labels"][name] = stats["labels"].get(name, 0) + by
    try:
        runner = Runner(build, env, repo, work)
        # the toolchain itself
        for compiler in ("g++", "clang++"):
            d = runner.directory({"t.cpp": "#include <string>\n#include <vector>\nint main() { return 0; }\n"})
            code, text, _ = runner.compile_file(compiler, "-std=c++17", d, "t.cpp")
            if code != 0:
                raise RuntimeError("the toolchain does not work: " + text)
        workers = os.cpu_count() or 8
        with concurrent.futures.ThreadPoolExecutor(workers) as pool:
            library = {}
            for variant in plan["cases"]:
                compiler, flags = variants[variant]
                try:
                    library[variant] = [None, None, None]
                    for which in range(3):
                        library[variant][which] = runner.library(compiler, library_flags(flags, which), sources, pool)
                except RuntimeError as error:
                    write_replay(replay_path, "program", variant, "-std=c++17", which, {"common.h": "", "main.cpp": "int main() {}\n"}, str(error))
                    return "the library does not compile: " + str(error)[:3000], stats

            def one(job):
                variant, index = job
                compiler, flags = variants[variant]
                program, items, layout = generate(seed, f"{variant}{index}", plan["items"])
                flags = program_flags(flags, layout["dialect"])
                problem = runner.program(assemble(program, items, layout), compiler, flags, library[variant][layout["library"]], None)
                return variant, program, items, layout, problem

            jobs = [(v, i) for v, n in plan["cases"].items() for i in range(max(1, int(n * scale)))]
            failed = None
            futures = [pool.submit(one, j) for j in jobs]
            for f in futures:
                if failed is not None:
                    f.cancel()
                    continue
                variant, program, items, layout, problem = f.result()
                stats["programs"] += 1
                label(layout["dialect"][5:])
                for i in items:
                    stats["items"] += 1
                    stats["evaluations"] += 1
                    stats["calls"] += sum(t.count("good(") + t.count("bad(") + t.count("refused(") for t in i.test)
                    if i.nontrivial:
                        stats["hashes"].add(hashlib.sha256(i.shape.encode()).hexdigest()[:16])
                    label(i.shape.split("(")[0].split(" ")[0] if i.shape else "none")
                    if len(stats["samples"]) < 8 and i.nontrivial and stats["items"] % 7 == 0:
                        stats["samples"].append(("\n".join(i.decls + i.bind + i.test[:2]))[:700])
                if problem:
                    failed = (variant, program, items, layout, problem)
            if failed:
                return shrink(runner, pool, variants, library, failed, replay_path), stats

            # pairs
            r = random.Random(f"{seed}/pairs")
            kinds = []
            while len(kinds) < max(24, int(plan["pairs"] * scale)):
                kinds += r.sample(PAIR_KINDS, len(PAIR_KINDS))
            entries = [pairs(r, k, *kind) for k, kind in enumerate(kinds[:max(24, int(plan["pairs"] * scale))])]
            entries = [(w, (d, d) if isinstance(d, str) else d, a, b) for w, d, a, b in entries]
            common = "#pragma once\n" + PRELUDE
            for variant in plan["cases"]:
                compiler, flags = variants[variant]
                dialect = r.choice(DIALECTS)
                flags = program_flags(flags, dialect)
                chunks = [entries[i::workers] for i in range(workers)]
                files = {"common.h": common}
                for i, chunk in enumerate(chunks):
                    files[f"right{i}.cpp"] = pair_files([(d[1], b) for _, d, _, b in chunk])
                for k, (_, d, a, _) in enumerate(entries):
                    files[f"wrong{k}.cpp"] = pair_files([(d[0], a)])
                directory = runner.directory(files)
                rights = list(pool.map(lambda i: runner.compile_file(compiler, flags, directory, f"right{i}.cpp", True), range(len(chunks))))
                if any(code for code, _, _ in rights):
                    for k, (what, d, a, b) in enumerate(entries):
                        one_file = {"common.h": common, "right.cpp": pair_files([(d[1], b)])}
                        dd = runner.directory(one_file)
                        code, text, _ = runner.compile_file(compiler, flags, dd, "right.cpp", True)
                        if code:
                            message = f"does not compile with {compiler} {dialect}, in contrast to {what}: {b}\n{text[:3000]}"
                            write_replay(replay_path, "rejects", variant, dialect, 0, one_file, message)
                            return message, stats
                wrongs = list(pool.map(lambda k: runner.compile_file(compiler, flags, directory, f"wrong{k}.cpp", True)[:2], range(len(entries))))
                for k, (code, text) in enumerate(wrongs):
                    what, d, a, b = entries[k]
                    if code == 0:
                        message = f"{compiler} {dialect} accepts {what}: {a}"
                        write_replay(replay_path, "accepts", variant, dialect, 0, {"common.h": common, "wrong.cpp": files[f"wrong{k}.cpp"]}, message)
                        return message, stats
                    if "error" not in text:
                        raise RuntimeError("the compiler failed without an error: " + text[:1000])
                    stats["evaluations"] += 1
                    stats["pairs"] += 1
                    stats["hashes"].add(hashlib.sha256(re.sub(r"[0-9]+", "#", what + str(d) + a + b).encode()).hexdigest()[:16])
                    label("rejected")
                shutil.rmtree(directory, ignore_errors=True)
            stats["samples"] += [f"rejected: {w}: {a}   accepted: {b}" for w, _, a, b in entries[:4]]
        stats["seconds"] = round(time.time() - started, 1)
        return None, stats
    finally:
        shutil.rmtree(work, ignore_errors=True)


def shrink(runner, pool, variants, library, failed, replay_path):
    """Single items, then halves."""
    variant, program, items, layout, problem = failed
    compiler, flags = variants[variant]
    flags = program_flags(flags, layout["dialect"])
    simple = dict(layout, parts=1, extra=[], moved=False)

    def attempt(subset, how):
        return runner.program(assemble(program, subset, how), compiler, flags, library[variant][layout["library"]], None)

    best, how = items, layout
    for candidate in (simple, layout):
        results = list(pool.map(lambda i: attempt([i], candidate), items))
        found = [(len(assemble(program, [i], candidate)["part0.cpp"]), k) for k, (i, p) in enumerate(zip(items, results)) if p]
        if found:
            _, k = min(found)
            best, how, problem = [items[k]], candidate, results[k]
            break
    else:
        size = len(best)
        while size > 1:
            size = (size + 1) // 2
            for start in range(0, len(best), size):
                smaller = best[:start] + best[start + size:]
                p = attempt(smaller, how) if smaller else ""
                if p:
                    best, problem = smaller, p
                    break
    files = assemble(program, best, how)
    write_replay(replay_path, "program", variant, layout["dialect"], layout["library"], files, problem)
    return f"a program of {len(best)} commands {problem}"

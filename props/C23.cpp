#include "grammar.h"
#include "model.h"

#include <memory>
#include <stdexcept>

// Messages over long and hostile texts: what is quoted is quoted whole and unchanged.

namespace hostile
{
    // a type whose name and whose reasons are decided by the case
    struct Weird
    {
        std::string text;
    };
    inline std::string& typeName()
    {
        static std::string v;
        return v;
    }
    // the library may keep the name of a type built from others: the same in all cases
    struct Odd
    {
        std::string text;
    };
    constexpr char const* oddName = "100%s 'odd' %n, \"type\" \\ : %*d";
    inline std::string& reason()
    {
        static std::string v;
        return v;
    }
    inline size_t& wanted()
    {
        static size_t v = 0;
        return v;
    }
    inline int& how()
    {
        static int v = 0;
        return v;
    }
}

namespace coil
{
    template<>
    struct TypeSerializer<hostile::Weird>
    {
        static Expected<hostile::Weird, String> fromString(Value const& input)
        {
            switch (hostile::how())
            {
            case 0:
                return errors::createGenericError<hostile::Weird>(input, cx::view(hostile::reason()));
            case 1:
                return errors::createMismatchedSubvaluesError<hostile::Weird>(input, hostile::wanted());
            case 2:
                return errors::createGenericError<hostile::Weird>(input);
            default:
                return makeUnexpected(cx::own(hostile::reason()));
            }
        }
        static String toString(hostile::Weird const& v) { return cx::own(v.text); }
    };
    template<>
    struct TypeName<hostile::Weird>
    {
        static StringView name() { return cx::view(hostile::typeName()); }
    };
}

namespace model
{
    template<>
    struct Model<hostile::Weird>
    {
        static std::string name() { return hostile::typeName(); }
        static Out convert(cx::Arg const& a)
        {
            switch (hostile::how())
            {
            case 0:
                return bad(a, cx::conversionError(a, name(), hostile::reason()));
            case 1:
                return bad(a, cx::countError(a, name(), hostile::wanted()));
            case 2:
                return bad(a, cx::conversionError(a, name()));
            default:
                return bad(a, hostile::reason());
            }
        }
        static std::string repr(hostile::Weird const& v) { return v.text; }
    };
}

namespace coil
{
    template<>
    struct TypeSerializer<hostile::Odd>
    {
        static Expected<hostile::Odd, String> fromString(Value const& input)
        {
            switch (hostile::how())
            {
            case 0:
                return errors::createGenericError<hostile::Odd>(input, cx::view(hostile::reason()));
            case 1:
                return errors::createMismatchedSubvaluesError<hostile::Odd>(input, hostile::wanted());
            case 2:
                return errors::createGenericError<hostile::Odd>(input);
            default:
                return makeUnexpected(cx::own(hostile::reason()));
            }
        }
        static String toString(hostile::Odd const& v) { return cx::own(v.text); }
    };
    template<>
    struct TypeName<hostile::Odd>
    {
        static StringView name() { return hostile::oddName; }
    };
}

namespace model
{
    template<>
    struct Model<hostile::Odd>
    {
        static std::string name() { return hostile::oddName; }
        static Out convert(cx::Arg const& a)
        {
            switch (hostile::how())
            {
            case 0:
                return bad(a, cx::conversionError(a, name(), hostile::reason()));
            case 1:
                return bad(a, cx::countError(a, name(), hostile::wanted()));
            case 2:
                return bad(a, cx::conversionError(a, name()));
            default:
                return bad(a, hostile::reason());
            }
        }
        static std::string repr(hostile::Odd const& v) { return v.text; }
    };
}

namespace
{
#if defined(COIL_CONFIG_CATCH_EXCEPTIONS) && COIL_CONFIG_CATCH_EXCEPTIONS
    constexpr bool kCatches = true;
#else
    constexpr bool kCatches = false;
#endif

    // any text without NUL, often full of what formatting could trip over
    std::string hostileText(pbt::Source& s, size_t max)
    {
        static char const* const units[] = {"%s", "%n", "%d", "%%", "%", "%.*s", "%zu", "%1$s", "%*c", "'", "\"", "\\", "\\n", "\n", "\t", "\x01", "\x7f", "\xff", "\xc3\xa9", "''", "' to type '", ": ", ", ", " or ", "{}", "$", "a", "1"};
        std::string r;
        switch (s.weighted({4, 5, 2, 2}))
        {
        default:
        case 0:
            r = gen::text(s, gen::Alphabet::Word, std::min<size_t>(max, 60));
            break;
        case 1:
            for (size_t n = 0; s.more(3, n, 20); n++)
                r += units[s.draw(std::size(units))];
            break;
        case 2:
            r = gen::text(s, max);
            break;
        case 3: // long: around the sizes buffers have
        {
            size_t const size = std::min<size_t>(max, s.chance(1, 3) ? (1ull << s.range(4, 17)) + s.draw(40) - std::min<size_t>(s.draw(40), 15) : gen::size(s, max, 20));
            std::string unit;
            for (size_t n = 1 + s.draw(4); n > 0; n--)
                unit += units[s.draw(std::size(units))];
            while (r.size() < size)
                r += unit;
            r.resize(size);
            break;
        }
        }
        for (char& ch : r)
            if (ch == '\0')
                ch = '0';
        return r;
    }

    size_t maxLength(pbt::Source& s)
    {
        return s.chance(1, 20) ? 140000 : s.chance(1, 4) ? 5000 : 300;
    }

    cx::Arg hostileArg(pbt::Source& s)
    {
        cx::Arg a;
        size_t const max = maxLength(s);
        if (!s.chance(1, 3))
            return {{hostileText(s, max)}};
        size_t const many = s.chance(1, 20) ? 300 : 6;
        for (size_t n = 0; s.more(many > 6 ? 60 : 2, n, many); n++)
            a.subvalues.push_back(hostileText(s, std::min<size_t>(max, many > 6 ? 30 : 2000)));
        return a;
    }

    bool unusual(std::string const& t)
    {
        return t.size() > 100 || t.find_first_of("%'\"\\\n\t") != std::string::npos;
    }

    bool sameErrors(std::vector<std::string> const& got, std::vector<std::string> const& expected)
    {
        return got == expected;
    }

    std::string difference(std::vector<std::string> const& got, std::vector<std::string> const& expected)
    {
        std::string r = std::to_string(got.size()) + " errors, " + std::to_string(expected.size()) + " expected";
        for (size_t i = 0; i < std::max(got.size(), expected.size()); i++)
        {
            std::string const g = i < got.size() ? got[i] : "(none)", e = i < expected.size() ? expected[i] : "(none)";
            if (g == e)
                continue;
            size_t at = 0;
            while (at < g.size() && at < e.size() && g[at] == e[at])
                at++;
            size_t const from = at > 40 ? at - 40 : 0;
            return r + "; error " + std::to_string(i) + " has " + std::to_string(g.size()) + " bytes instead of " + std::to_string(e.size()) + " and differs at " + std::to_string(at) + ": " + pbt::show(g.substr(from, 120), 120) + " instead of " + pbt::show(e.substr(from, 120), 120);
        }
        return r;
    }

    void judge(pbt::Case& c, cx::Result const& r, std::vector<std::string> const& expected, bool runs, char const* what)
    {
        REQUIRE(c, sameErrors(r.errors, expected), std::string{what} + ": " + difference(r.errors, expected));
        REQUIRE(c, runs || (r.output.empty() && !r.returnValue), std::string{what} + ": something was done");
    }

    // as a structure, and as a text if it can be written as one
    void both(pbt::Source& s, pbt::Case& c, coil::Bindings& b, cx::Input const& in, std::vector<std::string> const& expected, bool runs, char const* what)
    {
        c.note(std::string{what} + ": " + cx::show(in));
        for (auto const& e : expected)
            c.note("  expects " + pbt::show(e, 300));
        cx::Result const r = cx::plain(b.execute(cx::input(in)));
        judge(c, r, expected, runs, what);
        REQUIRE(c, r.in == in, std::string{what} + ": the input of the result differs");

        grammar::Config config;
        auto name = grammar::renderSingle(s, in.name, config, false);
        if (!name)
            return;
        std::string text = name->text;
        for (auto const& a : in.args)
        {
            auto piece = grammar::renderArg(s, a, config);
            if (!piece)
                return;
            text += " " + piece->text;
        }
        for (auto const& n : in.named)
        {
            auto key = grammar::renderSingle(s, n.key, config, false);
            auto piece = grammar::renderArg(s, n.value, config);
            if (!key || !piece)
                return;
            text += " " + key->text + "=" + piece->text;
        }
        c.label("as text");
        gen::ExactText const exact{text};
        judge(c, cx::plain(b.execute(cx::view(exact))), expected, runs, what);
    }

    // ---- conversions ----

    struct Type
    {
        model::Out (*convert)(cx::Arg const&);
        void (*bind)(coil::Bindings&, unsigned&);
        coil::String (*direct)(coil::Value const&);
        std::optional<std::string> (*named)(coil::NamedArgs&, coil::StringView, int how);
        std::string (*name)();
    };
    template<typename T>
    model::Out convert(cx::Arg const& a)
    {
        return model::Model<T>::convert(a);
    }
    template<typename T>
    std::string nameOf()
    {
        return model::Model<T>::name();
    }
    template<typename T>
    void bind(coil::Bindings& b, unsigned& calls)
    {
        b["one"] = [&calls](T const&) { calls++; };
        b["two"] = [&calls](coil::Context, T const&, T) { calls++; };
    }
    template<typename T>
    coil::String direct(coil::Value const& v)
    {
        coil::Expected<T, coil::String> r = coil::TypeSerializer<T>::fromString(v);
        coil::Expected<T, coil::String> g = v.get<T>();
        if (r.hasValue() || g.hasValue())
            return {};
        if (!(r.error() == g.error()))
            return "two different errors";
        return r.error();
    }
    template<typename T>
    std::optional<std::string> named(coil::NamedArgs& args, coil::StringView key, int how)
    {
        switch (how)
        {
        case 0:
        {
            auto r = args.get<T>(key);
            if (r)
                return {};
            return cx::str(r.error().message);
        }
        case 1:
            args.getOrReport<T>(key);
            return {};
        default:
            args.getOrReport<T>(key, coil::NamedArgs::ArgType::Required);
            return {};
        }
    }
#define TYPE(T) {&convert<T>, &bind<T>, &direct<T>, &named<T>, &nameOf<T>}
    using VectorOfInts = std::vector<int>;
    using OptionalInt = std::optional<int>;
    using VectorOfBools = std::vector<bool>;
    using OptionalVector = std::optional<std::vector<double>>;
    using VectorOfOptional = std::vector<std::optional<user::Color>>;
    using VectorOfOdd = std::vector<hostile::Odd>;
    using OptionalOdd = std::optional<hostile::Odd>;
    Type const kTypes[] = {
        TYPE(int),
        TYPE(bool),
        TYPE(unsigned char),
        TYPE(unsigned long long),
        TYPE(float),
        TYPE(long double),
        TYPE(coil::String),
        TYPE(std::string),
        TYPE(coil::StringView),
        TYPE(std::string_view),
        TYPE(VectorOfInts),
        TYPE(OptionalInt),
        TYPE(VectorOfBools),
        TYPE(OptionalVector),
        TYPE(VectorOfOptional),
        TYPE(user::Point),
        TYPE(user::Color),
        TYPE(hostile::Weird),
        TYPE(hostile::Weird),
        TYPE(hostile::Odd),
        TYPE(VectorOfOdd),
        TYPE(OptionalOdd),
    };
#undef TYPE

    void makeWeird(pbt::Source& s)
    {
        size_t const max = maxLength(s);
        hostile::typeName() = hostileText(s, max);
        hostile::reason() = hostileText(s, max);
        hostile::wanted() = s.chance(1, 4) ? static_cast<size_t>(gen::u64(s)) : s.draw(40);
        hostile::how() = static_cast<int>(s.draw(4));
    }

    // an argument the type does not take; nothing if none was found
    std::optional<cx::Arg> badArg(pbt::Source& s, Type const& t)
    {
        for (int tries = 0; tries < 4; tries++)
        {
            cx::Arg a = hostileArg(s);
            if (t.convert(a).kind == model::Out::Error)
                return a;
        }
        return {};
    }

    void conversions(pbt::Source& s, pbt::Case& c)
    {
        makeWeird(s);
        Type const& t = s.pick(kTypes);
        c.key(t.name());
        unsigned calls = 0;
        coil::Bindings b;
        t.bind(b, calls);
        auto a = badArg(s, t);
        if (!a)
            throw pbt::Discard{};
        model::Out const out = t.convert(*a);
        c.key(cx::show(*a));
        c.nontrivial(unusual(out.error));
        c.labelIf(out.error.size() > 4096, "long message");
        c.note("type " + pbt::show(t.name(), 100));

        std::string const direct = cx::str(t.direct(cx::value(*a)));
        REQUIRE(c, direct == out.error, "conversion: " + difference({direct}, {out.error}));

        cx::Input in{"one", {*a}, {}};
        std::vector<std::string> expected{out.error};
        if (s.flip())
        {
            cx::Arg other = hostileArg(s);
            model::Out const more = t.convert(other);
            if (more.kind == model::Out::Open)
                throw pbt::Discard{};
            in.name = "two";
            bool const first = s.flip();
            in.args.insert(first ? in.args.begin() : in.args.end(), other);
            if (more.kind == model::Out::Error)
                expected.insert(first ? expected.begin() : expected.end(), more.error);
        }
        both(s, c, b, in, expected, false, "conversion");
        REQUIRE(c, calls == 0, "conversion: called");
        c.label("conversion");
    }

    // ---- the error functions themselves ----

    void errorFunctions(pbt::Source& s, pbt::Case& c)
    {
        makeWeird(s);
        cx::Arg const a = hostileArg(s);
        std::string const type = hostileText(s, maxLength(s)), details = s.chance(1, 3) ? "" : hostileText(s, maxLength(s));
        size_t const count = s.chance(1, 4) ? static_cast<size_t>(gen::u64(s)) : s.draw(300);
        coil::Value const v = cx::value(a);
        gen::ExactText const exactType{type}, exactDetails{details};
        auto compare = [&](coil::Unexpected<coil::String> const& got, std::string const& expected, char const* what) {
            std::string const g = cx::str(got.value());
            REQUIRE(c, g == expected, std::string{what} + ": " + difference({g}, {expected}));
            c.nontrivial(unusual(expected));
        };
        c.key(type), c.key(details), c.key(cx::show(a)), c.key(count);
        compare(coil::errors::createGenericError(cx::view(exactType), v, cx::view(exactDetails)), cx::conversionError(a, type, details), "generic error");
        compare(coil::errors::createGenericError(cx::view(exactType), v), cx::conversionError(a, type), "generic error without details");
        compare(coil::errors::createMismatchedSubvaluesError(cx::view(exactType), v, count), cx::countError(a, type, count), "count error");
        compare(coil::errors::createGenericError<hostile::Weird>(v, cx::view(exactDetails)), cx::conversionError(a, hostile::typeName(), details), "typed generic error");
        compare(coil::errors::createMismatchedSubvaluesError<hostile::Weird>(v, count), cx::countError(a, hostile::typeName(), count), "typed count error");
        REQUIRE(c, cx::str(v.str()) == cx::join(a.subvalues, " "), "Value::str: " + pbt::show(cx::str(v.str())));
        c.label("error functions");
    }

    // ---- names and counts ----

    template<size_t... i>
    coil::AnyFunctor ofArity(unsigned& calls, std::index_sequence<i...>)
    {
        auto f = [&calls](std::enable_if_t<i + 1 != 0, coil::Value>...) { calls++; };
        auto all = coil::overloaded(f);
        return coil::move(all[0]);
    }
    template<size_t n>
    coil::AnyFunctor arity(unsigned& calls)
    {
        return ofArity(calls, std::make_index_sequence<n>{});
    }
    using MakeArity = coil::AnyFunctor (*)(unsigned&);
    MakeArity const kArities[] = {&arity<0>, &arity<1>, &arity<2>, &arity<3>, &arity<4>, &arity<5>, &arity<6>, &arity<7>, &arity<8>, &arity<9>, &arity<10>, &arity<11>, &arity<12>};

    void names(pbt::Source& s, pbt::Case& c)
    {
        coil::Bindings b;
        unsigned calls = 0;
        cx::Input in;
        in.name = hostileText(s, maxLength(s));
        if (in.name.empty())
            in.name = "%s";
        for (size_t n = s.chance(1, 10) ? s.draw(200) : s.draw(6); n > 0; n--)
            in.args.push_back(s.chance(1, 4) ? hostileArg(s) : cx::Arg{{"x"}});
        c.key(in.name), c.key(in.args.size());
        c.nontrivial(unusual(in.name));
        c.labelIf(in.name.size() > 4096, "long message");

        // neighbours with similar names
        unsigned const variations = static_cast<unsigned>(s.draw(4));
        std::string const longer = in.name + "x", shorter = in.name.substr(0, in.name.size() - 1);
        if (variations & 1)
            b[cx::view(longer)] = [&calls] { calls++; };
        if (variations & 2)
            b[cx::view(shorter)] = [&calls](coil::Value) { calls++; };

        if (s.chance(1, 3))
        {
            both(s, c, b, in, {"No function '" + in.name + "' is registered"}, false, "unknown name");
            c.label("unknown name");
            REQUIRE(c, calls == 0, "unknown name: something was called");
            return;
        }

        std::vector<size_t> arities;
        coil::Vector<coil::AnyFunctor> functors;
        std::vector<size_t> order;
        for (size_t i = 0; i < std::size(kArities); i++)
            order.push_back(i);
        for (size_t i = order.size(); i > 1; i--)
            std::swap(order[i - 1], order[s.draw(i)]);
        for (size_t n = 1 + (s.flip() ? s.draw(4) : s.draw(12)); n > 0; n--)
        {
            size_t const k = order[n];
            if (k == in.args.size())
                continue;
            arities.push_back(k);
            functors.pushBack(kArities[k](calls));
        }
        if (arities.empty())
            throw pbt::Discard{};
        c.key(pbt::hashBytes(arities.data(), arities.size() * sizeof(size_t)));
        c.nontrivial(arities.size() > 1);
        b.add(cx::view(in.name), coil::move(functors));
        both(s, c, b, in, {"Wrong number of arguments to '" + in.name + "': expected " + cx::orList(arities) + ", got " + std::to_string(in.args.size())}, false, "wrong count");
        REQUIRE(c, calls == 0, "wrong count: something was called");
        c.label("wrong count");
    }

    // ---- named arguments ----

    void namedArguments(pbt::Source& s, pbt::Case& c)
    {
        makeWeird(s);
        struct Lookup
        {
            std::string key;
            Type const* type = nullptr; // none: the raw value
            int how = 0;                // get, getOrReport optional, getOrReport required
        };
        cx::Input in{"f", {}, {}};
        std::vector<Lookup> lookups;
        for (size_t n = 1 + s.draw(4); n > 0; n--)
        {
            Lookup l;
            l.key = hostileText(s, maxLength(s));
            if (l.key.empty() || s.chance(1, 5))
                l.key = "k" + std::to_string(n);
            l.type = s.chance(1, 6) ? nullptr : &s.pick(kTypes);
            l.how = static_cast<int>(s.draw(3));
            if (s.chance(2, 3) && l.type)
                if (auto a = badArg(s, *l.type))
                    in.named.push_back({l.key, *a});
            lookups.push_back(l);
            c.nontrivial(unusual(l.key));
            c.key(l.key);
        }
        std::vector<std::string> expected, returned, expectedReturned;
        for (auto const& l : lookups)
        {
            cx::Arg const* found = nullptr;
            for (auto const& n : in.named)
                if (!found && n.key == l.key)
                    found = &n.value;
            std::optional<std::string> message;
            if (!found)
                message = "Missing named argument '" + l.key + "'";
            else if (l.type)
            {
                model::Out out = l.type->convert(*found);
                if (out.kind == model::Out::Open)
                    throw pbt::Discard{};
                if (out.kind == model::Out::Error)
                    message = out.error;
            }
            c.labelIf(message && message->size() > 4096, "long message");
            if (!message)
            {
                if (l.how == 0 && (!found || l.type))
                    expectedReturned.push_back("");
                continue;
            }
            if (l.how == 0)
                expectedReturned.push_back(*message);
            else if (found || l.how == 2)
                expected.push_back(*message);
        }
        coil::Bindings b;
        b["f"] = [&](coil::Context context) {
            coil::NamedArgs args = context.namedArgs();
            for (auto const& l : lookups)
            {
                gen::ExactText const key{l.key};
                if (l.type)
                {
                    auto r = l.type->named(args, cx::view(key), l.how);
                    if (l.how == 0)
                        returned.push_back(r.value_or(""));
                }
                else if (l.how == 0)
                {
                    auto r = args.get(cx::view(key));
                    if (!r)
                        returned.push_back(cx::str(r.error().message));
                }
                else
                    args.getOrReport(cx::view(key), l.how == 1 ? coil::NamedArgs::ArgType::Optional : coil::NamedArgs::ArgType::Required);
            }
        };
        c.note("named arguments: " + cx::show(in));
        cx::Result const r = cx::plain(b.execute(cx::input(in)));
        judge(c, r, expected, true, "named arguments");
        REQUIRE(c, returned == expectedReturned, "named arguments, returned errors: " + difference(returned, expectedReturned));
        returned.clear();
        both(s, c, b, in, expected, true, "named arguments");
        c.label("named arguments");
    }

    // ---- messages of the user and of exceptions ----

    struct CustomException : std::exception
    {
        std::string text;
        explicit CustomException(std::string t) : text(std::move(t)) {}
        char const* what() const noexcept override { return text.c_str(); }
    };

    void userMessages(pbt::Source& s, pbt::Case& c)
    {
        std::vector<std::string> texts;
        for (size_t n = 0; s.more(2, n, 8); n++)
            texts.push_back(hostileText(s, maxLength(s)));
        std::string const thrown = hostileText(s, maxLength(s));
        int const throws = kCatches ? static_cast<int>(s.draw(4)) : 0;
        std::vector<std::string> expected = texts;
        if (throws == 1 || throws == 2)
            expected.push_back("Exception caught during execution: " + thrown);
        else if (throws == 3)
            expected.push_back("Exception caught during execution");
        for (auto const& t : expected)
        {
            c.nontrivial(unusual(t));
            c.key(t);
            c.labelIf(t.size() > 4096, "long message");
        }
        coil::Bindings b;
        b["f"] = [&](coil::Context context) {
            for (auto const& t : texts)
                context.reportError(cx::own(t));
            if (throws == 1)
                throw std::runtime_error(thrown);
            if (throws == 2)
                throw CustomException(thrown);
            if (throws == 3)
                throw 5;
        };
        both(s, c, b, {"f", {}, {}}, expected, true, "reported");
        c.label(throws ? "exceptions" : "reported");
    }

    // ---- messages of the grammar ----

    void syntax(pbt::Source& s, pbt::Case& c)
    {
        coil::Bindings b;
        bool ran = false;
        b["f"] = [&ran](coil::Context) { ran = true; };
        std::string inside = hostileText(s, maxLength(s));
        std::string text, expected;
        switch (s.draw(3))
        {
        case 0: // a group at the beginning is quoted whole
            for (char& ch : inside)
                if (ch == '(' || ch == ')')
                    ch = '.';
            text = "(" + inside + ") f";
            expected = "Unexpected token '" + inside + "' at the beginning of the expression";
            break;
        case 1: // a bare list at the beginning
            for (char& ch : inside)
                if (std::string{"()'\"= \t\n\r,;|"}.find(ch) != std::string::npos)
                    ch = '%';
            text = "%," + inside + " f";
            expected = "Unexpected token '%," + inside + "' at the beginning of the expression";
            break;
        default: // what is opened and not closed
        {
            char const opener = "('\")"[s.draw(4)];
            std::string const closers = opener == '(' || opener == ')' ? "()" : "'\"";
            for (char& ch : inside)
                if (closers.find(ch) != std::string::npos)
                    ch = '%';
            text = "f " + std::string(1, opener) + inside;
            expected = std::string{"Token '"} + opener + "' doesn't have a corresponding opening/closing " + (closers == "()" ? "token" : "quote");
            break;
        }
        }
        c.key(text);
        c.nontrivial(unusual(text));
        c.note("text " + pbt::show(text, 300));
        gen::ExactText const exact{text};
        judge(c, cx::plain(b.execute(cx::view(exact))), {"Syntax error: " + expected}, false, "syntax");
        REQUIRE(c, !ran, "syntax: something ran");
        c.label("syntax");
    }
}

PBT_PROPERTY("C23",
             "names, keys, values, type names, reasons and thrown messages of up to 140000 bytes without NUL, many made of percent signs, quotes, format directives and control characters or sized around powers of two; conversion errors of 20 types (two with a name and reasons chosen by the case), counts, unknown names, missing and mistyped named arguments, reported and thrown messages, syntax errors; "
             "every message compared whole; structures and texts; non-trivial: the quoted text is longer than 100 bytes or holds a percent sign, quote, backslash or control character, or several counts are listed",
             true)
{
    using Run = void (*)(pbt::Source&, pbt::Case&);
    static Run const runs[] = {&conversions, &names, &namedArguments, &errorFunctions, &userMessages, &syntax};
    static size_t const which[] = {0, 0, 0, 0, 1, 1, 1, 2, 2, 3, 3, 4, 5};
    runs[s.pick(which)](s, c);
    for (std::string* text : {&hostile::typeName(), &hostile::reason()})
        std::string{}.swap(*text);
}

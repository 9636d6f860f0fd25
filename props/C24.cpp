#include "coilx.h"

#include "coil/detail/Utils.h"

#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdint>
#include <functional>

// Histories of the four ways to log, and formatted text, against the C library's own formatting.

namespace
{
    // ---- formatting ----

    // One directive and the value it takes.
    struct Directive
    {
        enum Type
        {
            Int,
            LongLong,
            Double,
            Text,
            LongDouble,
            WideText, // fails if a character has no representation in the C locale
            Count,
        };
        Type type = Int;
        std::string format; // with the literal text before it
        int i = 0;
        long long ll = 0;
        double d = 0;
        std::string text;
        long double ld = 0;
        std::wstring wide;
    };

    // small, or near a power of two
    std::string anyText(pbt::Source& s, size_t max)
    {
        if (s.chance(1, 6))
            return gen::bytes(s, gen::size(s, max, 60), gen::alphabet(s));
        return gen::text(s, max);
    }

    std::string literal(pbt::Source& s, size_t max)
    {
        std::string r;
        switch (s.weighted({4, 4, 2}))
        {
        default:
        case 0:
            r = gen::text(s, gen::Alphabet::Word, 20);
            break;
        case 1:
            for (size_t n = s.draw(4); n > 0; n--)
                r += s.flip() ? "%%" : ": ";
            break;
        case 2:
            for (char ch : anyText(s, max))
            {
                if (ch == 0)
                    continue;
                r += ch;
                if (ch == '%')
                    r += ch;
            }
            break;
        }
        return r;
    }

    std::string flagsAndWidth(pbt::Source& s, char const* flags)
    {
        std::string r;
        for (char const* f = flags; *f; f++)
            if (s.chance(1, 5))
                r += *f;
        if (s.chance(1, 3))
            r += std::to_string(1 + gen::size(s, s.chance(1, 30) ? 70000 : 1500, 5));
        return r;
    }

    Directive directive(pbt::Source& s, size_t max)
    {
        Directive r;
        r.format = literal(s, max) + "%";
        r.type = static_cast<Directive::Type>(s.draw(Directive::Count));
        switch (r.type)
        {
        default:
        case Directive::Int:
        {
            r.i = gen::integer<int>(s);
            static char const* const kinds[] = {"d", "i", "u", "x", "X", "o", "c", "hd", "hhu", "hhd"};
            char const* kind = kinds[s.draw(std::size(kinds))];
            bool const isChar = kind[0] == 'c';
            std::string const last(1, kind[std::string{kind}.size() - 1]);
            bool const isSigned = last == "d" || last == "i";
            r.format += flagsAndWidth(s, isChar ? "-" : isSigned ? "-+ 0" : last == "u" ? "-0" : "-#0");
            if (!isChar && s.chance(1, 6))
                r.format += "." + std::to_string(s.draw(40));
            r.format += kind;
            if (isChar)
                r.i = static_cast<int>(s.draw(256));
            break;
        }
        case Directive::LongLong:
        {
            r.ll = gen::i64(s);
            static char const* const kinds[] = {"lld", "llu", "llx", "ld", "zu", "jd", "td", "lX", "p"};
            char const* kind = kinds[s.draw(std::size(kinds))];
            if (kind[0] != 'p')
            {
                r.format += flagsAndWidth(s, "-0");
                if (s.chance(1, 6))
                    r.format += "." + std::to_string(s.draw(40));
            }
            r.format += kind;
            break;
        }
        case Directive::Double:
        {
            r.d = s.chance(1, 10) ? (s.flip() ? INFINITY : -INFINITY) : s.flip() ? static_cast<double>(gen::i64(s)) / static_cast<double>(1 + s.draw(1000)) : std::ldexp(static_cast<double>(gen::i64(s)), static_cast<int>(s.draw(1900)) - 1000);
            static char const kinds[] = "fgeaFGEA";
            r.format += flagsAndWidth(s, "-+ #0");
            if (s.chance(1, 3))
                r.format += "." + std::to_string(s.chance(1, 6) ? s.draw(1500) : s.draw(20));
            r.format += kinds[s.draw(8)];
            break;
        }
        case Directive::Text:
            for (char ch : anyText(s, max))
                r.text += ch ? ch : '.';
            r.format += flagsAndWidth(s, "-");
            if (s.chance(1, 3))
                r.format += "." + std::to_string(gen::size(s, 200));
            r.format += "s";
            break;
        case Directive::LongDouble:
            r.ld = std::ldexp(static_cast<long double>(gen::i64(s)), static_cast<int>(s.draw(200)) - 100);
            r.format += flagsAndWidth(s, "-+ #0");
            if (s.chance(1, 3))
                r.format += "." + std::to_string(s.draw(40));
            r.format += s.pick({"Lf", "Lg", "Le", "La"});
            break;
        case Directive::WideText:
            for (char ch : anyText(s, 50))
                r.wide += ch > 0 ? static_cast<wchar_t>(ch) : L'.';
            if (s.chance(1, 5))
                r.wide.insert(r.wide.begin() + static_cast<std::ptrdiff_t>(s.draw(r.wide.size() + 1)), static_cast<wchar_t>(0x20ac));
            r.format += flagsAndWidth(s, "-");
            if (s.chance(1, 3))
                r.format += "." + std::to_string(gen::size(s, 60));
            r.format += "ls";
            break;
        }
        return r;
    }

    // a format and its arguments, to be given to any function that takes them
    struct Formatted
    {
        std::string format;
        std::vector<Directive> directives;
        int star = -1, starPrecision = 0; // a trailing "%*.*s"
        std::string starText;
        bool many = false; // more arguments than are passed in registers
        std::vector<int> ints;
        std::vector<double> doubles;
    };

    Formatted formatted(pbt::Source& s, size_t max)
    {
        Formatted f;
        for (size_t n = s.chance(1, 8) ? 0 : 1 + s.draw(3); n > 0; n--)
        {
            f.directives.push_back(directive(s, max));
            f.format += f.directives.back().format;
        }
        if (f.directives.empty() && s.flip())
        {
            f.format = literal(s, max) + "%*.*s";
            f.star = static_cast<int>(gen::size(s, 3000));
            for (char ch : anyText(s, max))
                f.starText += ch ? ch : '.';
            f.starPrecision = static_cast<int>(s.draw(f.starText.size() + 3));
        }
        else if (f.directives.empty() && s.flip())
        {
            f.many = true;
            for (size_t i = 0; i < 10; i++)
            {
                f.ints.push_back(gen::integer<int>(s));
                f.doubles.push_back(static_cast<double>(gen::i64(s)) / 8);
                f.format += literal(s, 30) + (i % 2 ? "%g%d" : "%d%f");
            }
        }
        f.format += literal(s, max);
        return f;
    }

    template<typename F, typename... Args>
    auto apply(Formatted const& f, size_t index, F&& function, Args... args)
    {
        if constexpr (sizeof...(Args) < 3)
        {
            if (index < f.directives.size())
            {
                Directive const& d = f.directives[index];
                switch (d.type)
                {
                default:
                case Directive::Int:
                    return apply(f, index + 1, function, args..., d.i);
                case Directive::LongLong:
                    return apply(f, index + 1, function, args..., d.ll);
                case Directive::Double:
                    return apply(f, index + 1, function, args..., d.d);
                case Directive::Text:
                    return apply(f, index + 1, function, args..., d.text.c_str());
                case Directive::LongDouble:
                    return apply(f, index + 1, function, args..., d.ld);
                case Directive::WideText:
                    return apply(f, index + 1, function, args..., d.wide.c_str());
                }
            }
        }
        return function(f.format.c_str(), args...);
    }

    template<typename F>
    auto call(Formatted const& f, F&& function)
    {
        if (f.star >= 0)
            return function(f.format.c_str(), f.star, f.starPrecision, f.starText.c_str());
        if (f.many)
            return function(f.format.c_str(), f.ints[0], f.doubles[0], f.doubles[1], f.ints[1], f.ints[2], f.doubles[2], f.doubles[3], f.ints[3], f.ints[4], f.doubles[4], f.doubles[5], f.ints[5], f.ints[6], f.doubles[6], f.doubles[7],
                            f.ints[7], f.ints[8], f.doubles[8], f.doubles[9], f.ints[9]);
        return apply(f, 0, function);
    }

    std::string expectedText(Formatted const& f)
    {
        auto run = [&](std::string& buffer) {
            return call(f, [&](char const* format, auto... args) {
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wformat-nonliteral"
#pragma GCC diagnostic ignored "-Wformat-security"
                return std::snprintf(buffer.data(), buffer.size(), format, args...);
#pragma GCC diagnostic pop
            });
        };
        std::string buffer(2000, '\0');
        int n = run(buffer);
        if (n < 0)
            return ""; // printf fails and prints nothing
        if (static_cast<size_t>(n) >= buffer.size())
        {
            buffer.assign(static_cast<size_t>(n) + 1, '\0');
            n = run(buffer);
        }
        buffer.resize(static_cast<size_t>(n));
        return buffer;
    }

    coil::String throughVsprintf(char const* format, ...)
    {
        va_list args;
        va_start(args, format);
        coil::String r = coil::vsprintf(format, args);
        va_end(args);
        return r;
    }

    std::string difference(std::string const& got, std::string const& expected)
    {
        size_t at = 0;
        while (at < got.size() && at < expected.size() && got[at] == expected[at])
            at++;
        size_t const from = at > 40 ? at - 40 : 0;
        return std::to_string(got.size()) + " bytes instead of " + std::to_string(expected.size()) + ", different at " + std::to_string(at) + ": " + pbt::show(got.substr(from, 120), 120) + " instead of " + pbt::show(expected.substr(from, 120), 120);
    }

    // ---- histories ----

    struct Action
    {
        enum Kind
        {
            Log,
            LogLine,
            LogF,
            LogLineF,
            Execute, // another command, whose output is its own
            ErrorReport,
            Kinds,
        };
        Kind kind = Log;
        std::string text;
        Formatted f;
        size_t script = 0;
    };
    using Script = std::vector<Action>;

    struct World
    {
        std::vector<Script> scripts;
        coil::Bindings bindings;
        pbt::Case* c = nullptr;
        unsigned runs = 0;
    };

    void expected(World const& w, size_t script, std::string& output, unsigned& errors)
    {
        for (Action const& a : w.scripts[script])
            switch (a.kind)
            {
            case Action::Log:
            case Action::LogF:
                output += a.text;
                break;
            case Action::LogLine:
            case Action::LogLineF:
                output += a.text + "\n";
                break;
            case Action::ErrorReport:
                errors++;
                break;
            default:
                break;
            }
    }

    void check(World& w, size_t script, coil::ExecutionResult const& r)
    {
        std::string output;
        unsigned errors = 0;
        expected(w, script, output, errors);
        std::string const got = cx::str(r.output);
        if (got != output)
            w.c->fail("script " + std::to_string(script) + ": output " + difference(got, output));
        w.c->expect(r.errors.size() == errors, "another number of errors");
        w.c->expect(r.returnValue.hasValue() == (errors == 0), "return value");
    }

    coil::ExecutionResult execute(World& w, size_t script)
    {
        std::string const name = "s" + std::to_string(script);
        coil::ExecutionInput in;
        in.name = cx::view(name);
        return w.bindings.execute(coil::move(in));
    }

    void perform(World& w, Action const& a, coil::Context& context)
    {
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wformat-nonliteral"
#pragma GCC diagnostic ignored "-Wformat-security"
        switch (a.kind)
        {
        case Action::Log:
            context.log(cx::own(a.text));
            break;
        case Action::LogLine:
            context.logline(cx::own(a.text));
            break;
        case Action::LogF:
            call(a.f, [&](char const* format, auto... args) { context.logf(format, args...); });
            break;
        case Action::LogLineF:
            call(a.f, [&](char const* format, auto... args) { context.loglinef(format, args...); });
            break;
        case Action::Execute:
        {
            coil::ExecutionResult r = execute(w, a.script);
            check(w, a.script, r);
            break;
        }
        case Action::ErrorReport:
            context.reportError("an error");
            break;
        default:
            break;
        }
#pragma GCC diagnostic pop
    }

    void perform(World& w, size_t script, coil::Context context)
    {
        w.runs++;
        for (Action const& a : w.scripts[script])
            perform(w, a, context);
    }

    void histories(pbt::Source& s, pbt::Case& c)
    {
        World w;
        w.c = &c;
        size_t const count = 1 + s.draw(3);
        size_t total = 0, kinds = 0;
        for (size_t i = 0; i < count; i++)
        {
            Script script;
            size_t const max = s.chance(1, 20) ? 70000 : s.chance(1, 4) ? 5000 : 300;
            for (size_t n = 0; s.more(5, n, 40); n++)
            {
                Action a;
                a.kind = static_cast<Action::Kind>(s.weighted({4, 4, 4, 4, 1, 1}));
                if (a.kind == Action::Execute)
                {
                    if (i + 1 >= count) // only the later ones: no cycles
                        continue;
                    a.script = s.range(i + 1, count - 1);
                }
                else if (a.kind == Action::LogF || a.kind == Action::LogLineF)
                {
                    a.f = formatted(s, max);
                    a.text = expectedText(a.f);
                }
                else
                    a.text = anyText(s, max);
                kinds |= 1u << a.kind;
                total += a.text.size();
                static char const* const names[] = {"log", "logline", "logf", "loglinef", "execute", "error"};
                c.note("script " + std::to_string(i) + " " + names[a.kind] + " " + pbt::show(a.kind == Action::LogF || a.kind == Action::LogLineF ? a.f.format : a.text, 100));
                script.push_back(std::move(a));
            }
            w.scripts.push_back(std::move(script));
        }
        for (size_t i = 0; i < count; i++)
        {
            std::string const name = "s" + std::to_string(i);
            w.bindings[cx::view(name)] = [&w, i](coil::Context context) {
                perform(w, i, context);
                return 1;
            };
        }
        for (size_t rounds = 1 + s.draw(2); rounds > 0; rounds--)
            for (size_t i = 0; i < count; i++)
                check(w, i, execute(w, i));
        // text is logged byte for byte through structures that hold a copied context, too
        c.expect(w.runs >= count, "commands did not run");
        c.nontrivial(w.scripts[0].size() >= 2 && (kinds & 15) != 0 && (kinds & (kinds - 1)) != 0);
        c.labelIf(total > 4096, "more than 4096 bytes");
        c.labelIf((kinds & 16) != 0, "nested");
        c.label("history");
    }

    void formats(pbt::Source& s, pbt::Case& c)
    {
        Formatted const f = formatted(s, s.chance(1, 20) ? 70000 : s.chance(1, 4) ? 5000 : 300);
        std::string const text = expectedText(f);
        c.note("format " + pbt::show(f.format, 300));
        c.note("expects " + pbt::show(text, 300));
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wformat-nonliteral"
#pragma GCC diagnostic ignored "-Wformat-security"
        coil::String const a = call(f, [](char const* format, auto... args) { return coil::sprintf(format, args...); });
        coil::String const b = call(f, [](char const* format, auto... args) { return throughVsprintf(format, args...); });
#pragma GCC diagnostic pop
        REQUIRE(c, cx::str(a) == text, "sprintf " + pbt::show(f.format, 200) + ": " + difference(cx::str(a), text));
        REQUIRE(c, cx::str(b) == text, "vsprintf " + pbt::show(f.format, 200) + ": " + difference(cx::str(b), text));
        REQUIRE(c, a.cStr()[a.length()] == '\0' && b.cStr()[b.length()] == '\0', "not terminated");
        c.nontrivial(!f.directives.empty() || f.star >= 0 || f.many);
        c.labelIf(f.many, "20 arguments");
        c.labelIf(text.empty(), "prints nothing");
        c.labelIf(text.size() > 4096, "more than 4096 bytes");
        c.label("format");
    }
}

PBT_PROPERTY("C24",
             "formats of up to three directives (integers of seven sizes, floating point of two, characters, strings, wide strings with which printf may fail, pointers; flags, widths to 70000, precisions to 1500, '*') with literal text, compared with snprintf; and up to three commands of up to 40 actions (log, logline, logf, loglinef with any bytes, executing another command, reporting an error), their outputs compared with the concatenation; "
             "non-trivial: a directive, or a history of at least two actions of at least two kinds",
             true)
{
    if (s.flip())
        histories(s, c);
    else
        formats(s, c);
    c.key(s.choicesHash());
}

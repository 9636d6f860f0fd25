#include "battery_calls.h"

namespace
{
    grammar::Config anyConfig(pbt::Source& s)
    {
        if (!s.chance(1, 3))
            return grammar::disjointConfig(s);
        // any sets at all: overlapping, empty, with NUL and '='
        grammar::Config c;
        c.isDefault = false;
        auto set = [&] { return gen::bytes(s, s.draw(5), s.flip() ? gen::Alphabet::Syntax : gen::Alphabet::Any); };
        c.groups = set();
        c.quotes = set();
        c.separators = set();
        c.spaces = set();
        return c;
    }

    std::string anyText(pbt::Source& s, grammar::Config const& config)
    {
        grammar::Config c = config;
        if (c.spaces.empty())
            c.spaces = " ";
        switch (s.weighted({3, 5, 1, 1, 5}))
        {
        default:
        case 0:
            return gen::bytes(s, gen::size(s, 5000), s.chance(1, 3) ? gen::Alphabet::Any : gen::Alphabet::Syntax);
        case 1:
            return grammar::mutate(s, grammar::tokenSoup(s, c, s.pick(battery::names), s.chance(1, 10) ? 3000 : 40), c);
        case 2:
        {
            std::string t = s.pick(battery::names);
            std::string unit = gen::bytes(s, 1 + s.draw(6), gen::Alphabet::Syntax);
            if (s.chance(1, 150))
            {
                // a megabyte
                auto const one = [&](std::string const& of) { return of.empty() ? std::string(",") : std::string(1, of[s.draw(of.size())]); };
                static char const* const open[] = {"", "(", "\"", "k=", "k=(", "("};
                switch (s.draw(4))
                {
                case 0:
                    unit = unit.substr(0, 2);
                    break;
                case 1:
                    unit = "a" + one(c.separators);
                    break;
                case 2:
                    unit = one(c.spaces) + "a";
                    break;
                case 3:
                    unit = (s.flip() ? "a" : "") + one(c.spaces) + "k=1";
                    break;
                }
                t += " " + std::string(s.pick(open));
                for (size_t n = 1000000 / (1 + s.draw(10)) / unit.size(); n > 0; n--)
                    t += unit;
                return t + gen::bytes(s, s.draw(4), gen::Alphabet::Syntax);
            }
            for (size_t n = gen::size(s, 3000, 4); n > 0; n--)
                t += unit;
            return t;
        }
        case 3:
            return gen::dictionaryString(s) + " " + gen::dictionaryString(s);
        case 4:
        {
            // a call that fits one of the commands, perhaps damaged
            std::string t = battery::write(s, battery::call(s, !s.chance(1, 4)), c);
            return s.chance(1, 4) ? grammar::mutate(s, t, c) : t;
        }
        }
    }

    struct Bounds
    {
        char const* begin;
        char const* end;
        pbt::Case& c;
        char const* where;

        void check(coil::StringView v) const
        {
            if (v.length() == 0)
                return;
            bool inside = v.data() >= begin && v.data() <= end && v.length() <= static_cast<size_t>(end - v.data());
            c.expect(inside, "a view in the parsed input lies outside the text", where);
        }
        void check(coil::Value const& v) const
        {
            for (size_t i = 0; i < v.subvalues.size(); i++)
                check(v.subvalues[i]);
        }
        void check(coil::ExecutionInput const& in) const
        {
            check(in.name);
            for (size_t i = 0; i < in.arguments.size(); i++)
                check(in.arguments[i]);
            for (size_t i = 0; i < in.namedArguments.size(); i++)
            {
                check(in.namedArguments[i].key);
                check(in.namedArguments[i].value);
            }
        }
    };
}

PBT_PROPERTY("C01",
             "one lexer configuration (default, disjoint or arbitrary overlapping delimiter sets) and 1-4 texts (byte soup, token soup, mutated commands, repeated units (rarely a megabyte of them; once in 40000 cases nine megabytes of one byte), calls that fit) executed in exact-size unterminated heap blocks on a registry of 28 commands; "
             "non-trivial: at least one text has a delimiter, quote, group or '=' in it and is longer than 3 bytes",
             true)
{
    grammar::Config config = anyConfig(s);
    battery::State state;
    coil::Bindings bindings;
    battery::fill(bindings, state);
    bindings.setLexer(config.make());
    c.label(config.isDefault ? "config:default" : "config:custom");
    c.note(config.show());

    coil::DefaultLexer lexer = config.lexer();
    bool const huge = s.chance(1, 40000); // few tokens, but more than fits on a stack
    size_t texts = huge ? 1 : 1 + s.draw(4);
    for (size_t i = 0; i < texts; i++)
    {
        std::string text = huge ? s.pick(battery::names) + std::string(s.pick({" ", " (", " \"", " k=", " k=("})) + std::string(9000000, s.pick({'a', ',', ' ', '\xff', '\0', '%'})) + gen::bytes(s, s.draw(4), gen::Alphabet::Syntax) : anyText(s, config);
        c.key(text);
        c.note("execute " + pbt::show(text));
        bool structured = text.size() > 3 && std::any_of(text.begin(), text.end(), [&](char ch) { return ch == '=' || config.group(ch) || config.quote(ch) || config.separator(ch) || config.space(ch); });
        c.nontrivial(structured);
        c.labelIf(cx::hasNul(text), "text:nul");
        c.labelIf(text.size() > 1000, "text:long");
        c.labelIf(text.size() > 200000, "text:200 kB+");

        std::vector<coil::String> kept;
        {
            gen::ExactText exact{text};
            {
                auto parsed = lexer.parse(cx::view(exact));
                c.label(parsed ? "parse:ok" : "parse:error");
                if (parsed)
                    Bounds{exact.data(), exact.data() + exact.size(), c, "DefaultLexer::parse"}.check(*parsed);
                else
                    kept.push_back(parsed.error());
            }
            {
                coil::ExecutionResult result = bindings.execute(cx::view(exact));
                Bounds{exact.data(), exact.data() + exact.size(), c, "ExecutionResult.input"}.check(result.input);
                c.expect(!result.returnValue.hasValue() || result.errors.empty(), "both errors and a return value");
                c.label(result.errors.empty() ? "execute:ok" : "execute:error");
                for (size_t e = 0; e < result.errors.size(); e++)
                {
                    c.expect(result.errors[e].length() > 0, "an empty error message");
                    kept.push_back(result.errors[e]);
                }
                if (result.returnValue.hasValue())
                    kept.push_back(*result.returnValue);
                kept.push_back(result.output);
            }
        }
        // the text is gone; messages, return values and output own their bytes
        uint64_t sum = 0;
        for (auto const& k : kept)
            for (char ch : cx::str(k))
                sum += static_cast<unsigned char>(ch);
        if (sum == ~0ull)
            c.note("");
    }
}

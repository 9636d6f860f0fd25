#include "grammar.h"

namespace
{
    std::string valueText(pbt::Source& s, grammar::Config const& config)
    {
        switch (s.weighted({6, 4, 2, 1}))
        {
        default:
        case 0:
            return gen::bytes(s, gen::size(s, s.chance(1, 12) ? 70000 : 60), gen::Alphabet::Word);
        case 1:
        {
            // words around the delimiters
            std::string all = config.separators + config.spaces + config.groups + config.quotes + "=ab";
            std::string r;
            for (size_t n = s.draw(10); n > 0; n--)
                r += s.chance(1, 2) ? all[s.draw(all.size())] : gen::byteOf(s, gen::Alphabet::Word);
            return r;
        }
        case 2:
            return gen::bytes(s, gen::size(s, 300), gen::Alphabet::Any);
        case 3:
            return gen::dictionaryString(s);
        }
    }

    // removes what no notation can carry, so that cases are not thrown away
    std::string carryable(std::string t, grammar::Config const& config, bool inGroup)
    {
        std::string r;
        for (char ch : t)
        {
            bool bad = inGroup ? config.group(ch) || config.quote(ch) || (config.quotes.empty() && (config.space(ch) || config.separator(ch)))
                               : config.quote(ch) || (config.quotes.empty() && !config.plain(ch));
            if (!bad)
                r += ch;
        }
        if (r.empty() && config.quotes.empty())
            r = "x";
        return r;
    }
}

PBT_PROPERTY("C02",
             "a command structure (name, up to 300 positional and named arguments, lists of up to 300 subvalues, rarely one of them 70000 times over, any bytes) rendered with random notations, spacing, quote characters and separators, under the default or a random disjoint delimiter configuration, must parse back to itself; "
             "non-trivial: at least two arguments, or a list, or a quoted argument, or a custom configuration",
             true)
{
    grammar::Config config = grammar::disjointConfig(s);
    if (!config.isDefault)
    {
        // words must be possible
        bool possible = !config.quotes.empty();
        for (char ch : std::string{"abcxyz0123456789"})
            possible = possible || config.plain(ch);
        if (!possible)
            throw pbt::Discard{};
    }
    c.label(config.isDefault ? "config:default" : "config:custom");
    c.nontrivial(!config.isDefault);
    c.note(config.show());

    auto plainWord = [&](std::string const& t) {
        std::string r;
        for (char ch : t)
            if (config.plain(ch))
                r += ch;
        return r;
    };

    cx::Input input;
    std::string text = grammar::spaces(s, config, 0);
    std::string nameText = valueText(s, config);
    input.name = s.chance(1, 3) ? carryable(nameText, config, false) : plainWord(nameText);
    bool previousBare = false;
    if (auto p = grammar::renderSingle(s, input.name, config, false))
    {
        text += p->text;
        previousBare = p->bareEdge;
        c.labelIf(!p->bareEdge, "name:quoted");
    }
    else
    {
        input.name = "";
        for (char ch : std::string{"fabcxyz0123456789"})
            if (config.plain(ch) && input.name.empty())
                input.name = std::string(1, ch);
        if (input.name.empty())
            throw pbt::Discard{};
        text += input.name;
        previousBare = true;
    }

    bool const huge = s.chance(1, 1500); // one argument or element many times over
    size_t const maxArgs = huge ? 4 : s.chance(1, 20) ? 300 : 12;
    unsigned const average = maxArgs > 12 ? 60 : 3;
    for (size_t n = 0; s.more(average, n, maxArgs); n++)
    {
        cx::Arg arg;
        bool list = s.chance(1, 3);
        if (list && (!config.groups.empty() || !config.separators.empty()))
        {
            size_t const maxElements = s.chance(1, 15) ? 300 : 8;
            for (size_t k = 0; s.more(maxElements > 8 ? 60 : 2, k, maxElements); k++)
                arg.subvalues.push_back(carryable(valueText(s, config), config, true));
            if (huge && !arg.subvalues.empty() && arg.subvalues.back().size() < 20)
                arg.subvalues.resize(gen::bulk(s, 3000, 66000, 3), std::string(arg.subvalues.back()));
        }
        else
        {
            arg.subvalues.push_back(carryable(valueText(s, config), config, false));
        }

        auto rendered = grammar::renderArg(s, arg, config);
        if (!rendered)
            continue; // no notation of this configuration carries this value
        c.label(rendered->label);
        c.nontrivial(arg.subvalues.size() != 1 || !rendered->bareEdge);
        c.labelIf(arg.subvalues.empty(), "list:empty");
        c.labelIf(arg.subvalues.size() > 20, "list:long");

        bool named = s.chance(1, 3);
        size_t const copies = huge && rendered->text.size() < 20 ? 1 + gen::bulk(s, 3000, 70000, 3) : 1;
        if (named)
        {
            std::string key = carryable(valueText(s, config), config, false);
            auto renderedKey = grammar::renderSingle(s, key, config, false);
            if (!renderedKey)
                continue;
            text += grammar::spaces(s, config, previousBare && renderedKey->bareEdge ? 1 : 0);
            std::string const one = renderedKey->text + grammar::spaces(s, config, 0) + "=" + grammar::spaces(s, config, 0) + rendered->text;
            std::string const gap = grammar::spaces(s, config, rendered->bareEdge && renderedKey->bareEdge ? 1 : 0);
            text += one;
            for (size_t k = 1; k < copies; k++)
                text += gap + one;
            for (size_t k = 0; k < copies; k++)
                input.named.push_back({key, arg});
            c.label("named");
        }
        else
        {
            std::string gap = grammar::spaces(s, config, previousBare && rendered->bareEdge ? 1 : 0);
            c.labelIf(gap.empty(), "adjacent");
            text += gap + rendered->text;
            if (gap.empty() && rendered->bareEdge)
                gap = grammar::spaces(s, config, 1);
            for (size_t k = 1; k < copies; k++)
                text += gap + rendered->text;
            input.args.resize(input.args.size() + copies, arg);
        }
        previousBare = rendered->bareEdge;
    }
    text += grammar::spaces(s, config, 0);

    c.nontrivial(input.args.size() + input.named.size() >= 2);
    c.labelIf(input.args.size() + input.named.size() > 12, "args:many");
    c.labelIf(input.args.size() + input.named.size() > 1000, "args:1000+");
    for (auto const& arg : input.args)
        c.labelIf(arg.subvalues.size() > 1000, "list:1000+");
    c.labelIf(text.size() > 4096, "text:long");
    c.key(text);
    c.note("structure " + cx::show(input));
    c.note("text      " + pbt::show(text));

    // the reference grammar must agree with the renderer, or the harness is wrong: such cases are not counted
    grammar::Parsed reference = grammar::parse(text, config);
    if (!reference.ok || !(reference.input == input))
    {
        c.label("HARNESS:renderer-disagrees-with-reference");
        throw pbt::Discard{};
    }

    gen::ExactText exact{text};
    {
        auto parsed = config.lexer().parse(cx::view(exact));
        if (!parsed)
            c.fail("a well-formed command was rejected: " + cx::str(parsed.error()));
        else if (!(cx::plain(*parsed) == input))
            c.fail("parsed as " + cx::show(cx::plain(*parsed)) + " instead of " + cx::show(input));
    }

    // and the same through execution: the command sees exactly these arguments
    {
        coil::Bindings bindings;
        bindings.setLexer(config.make());
        std::vector<std::vector<std::string>> seen;
        std::vector<cx::NamedArg> seenNamed;
        unsigned calls = 0;
        auto record = [&](coil::Context context) {
            calls++;
            for (auto const& arg : context.namedArgs())
                seenNamed.push_back({cx::str(arg.key), cx::plain(arg.value)});
        };
        auto push = [&](coil::Value const& v) { seen.push_back(cx::plain(v).subvalues); };
        using V = coil::Value const&;
        bindings.add(cx::view(input.name), coil::overloaded([&](coil::Context x) { record(x); }, [&](coil::Context x, V a) { record(x), push(a); }, [&](coil::Context x, V a, V b) { record(x), push(a), push(b); },
                                               [&](coil::Context x, V a, V b, V d) { record(x), push(a), push(b), push(d); }));
        coil::ExecutionResult result = bindings.execute(cx::view(exact));
        if (!input.name.empty() && input.args.size() <= 3)
        {
            c.label("executed");
            if (!result.errors.empty())
                c.fail("executing a well-formed command failed: " + cx::str(result.errors[0]));
            std::vector<std::vector<std::string>> expected;
            for (auto const& a : input.args)
                expected.push_back(a.subvalues);
            c.expect(calls == 1 && seen == expected, "the command saw other positional arguments");
            c.expect(seenNamed == input.named, "the command saw other named arguments");
        }
        if (!(cx::plain(result.input) == input))
            c.fail("the result mirrors another input: " + cx::show(cx::plain(result.input)));
    }
}

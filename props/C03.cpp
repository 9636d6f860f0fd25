#include "grammar.h"

PBT_PROPERTY("C03",
             "texts around the boundary of well-formedness (token soup with stray quotes, groups and assignments, 0-3 character edits, short exhaustive-like strings over the delimiter alphabet) compared with an independent reference parser under default and disjoint custom delimiters; "
             "non-trivial: contains '=', a quote or a group character",
             true)
{
    grammar::Config config = grammar::disjointConfig(s);
    c.label(config.isDefault ? "config:default" : "config:custom");
    c.note(config.show());

    std::string text;
    switch (s.weighted({4, 4, 2, 1}))
    {
    case 0:
    {
        std::string all = config.groups + config.quotes + config.separators + config.spaces + "==ffab1";
        size_t n = s.draw(14);
        for (size_t i = 0; i < n; i++)
            text += all[s.draw(all.size())];
        if (s.flip())
            text = "f" + text;
        break;
    }
    case 1:
        text = grammar::mutate(s, grammar::tokenSoup(s, config, "f", 20), config);
        break;
    case 2:
        text = grammar::mutate(s, grammar::tokenSoup(s, config, "f", s.chance(1, 8) ? 5000 : 200), config);
        break;
    default:
        text = gen::bytes(s, gen::size(s, 200), s.flip() ? gen::Alphabet::Syntax : gen::Alphabet::Any);
        break;
    }
    c.key(text);
    c.note("text " + pbt::show(text));
    c.nontrivial(std::any_of(text.begin(), text.end(), [&](char ch) { return ch == '=' || config.group(ch) || config.quote(ch); }));

    grammar::Parsed reference = grammar::parse(text, config);
    if (reference.ok)
        c.label("reference:accepts");
    else if (reference.error.find("opening/closing quote") != std::string::npos)
        c.label("reference:unclosed quote");
    else if (reference.error.find("opening/closing token") != std::string::npos)
        c.label("reference:unclosed group");
    else if (reference.error.find("at the beginning") != std::string::npos)
        c.label("reference:bad beginning");
    else if (reference.error.find("no name for") != std::string::npos)
        c.label("reference:no key");
    else if (reference.error.find("found '='") != std::string::npos)
        c.label("reference:double assignment");
    else
        c.label("reference:no value");
    c.labelIf(reference.loose, "loose");

    gen::ExactText exact{text};
    auto checkError = [&](std::string const& error, std::string const& prefix) {
        if (reference.exactError)
        {
            if (error != prefix + reference.error)
                c.fail("error " + pbt::show(error) + " instead of " + pbt::show(prefix + reference.error));
        }
        else
        {
            c.expect(error.rfind(prefix + "Unexpected token '", 0) == 0, "another kind of error", pbt::show(error));
        }
    };

    auto parsed = config.lexer().parse(cx::view(exact));
    if (static_cast<bool>(parsed) != reference.ok)
    {
        c.fail(reference.ok ? "rejected: " + cx::str(parsed.error()) : "accepted as " + cx::show(cx::plain(*parsed)) + " instead of the error " + reference.error);
    }
    else if (!parsed)
    {
        checkError(cx::str(parsed.error()), "");
    }
    else if (!reference.loose && !(cx::plain(*parsed) == reference.input))
    {
        c.fail("parsed as " + cx::show(cx::plain(*parsed)) + " instead of " + cx::show(reference.input));
    }

    // executing it: a syntax error runs nothing
    coil::Bindings bindings;
    bindings.setLexer(config.make());
    unsigned calls = 0;
    using V = coil::Value const&;
    auto all = [&] {
        return coil::overloaded([&](coil::Context x) { calls++, x.log("out"); return 1; }, [&](coil::Context x, V) { calls++, x.log("out"); return 1; }, [&](coil::Context x, V, V) { calls++, x.log("out"); return 1; });
    };
    if (reference.ok && !reference.input.name.empty() && s.flip())
    {
        bindings.add(cx::view(reference.input.name), all());
        c.label("command:bound");
    }
    for (char const* name : {"f", "a", "b", "ff", "f1"})
        bindings.add(name, all());
    coil::ExecutionResult result = bindings.execute(cx::view(exact));
    cx::Result plain = cx::plain(result);
    if (!reference.ok)
    {
        c.expect(calls == 0, "a malformed text ran a command");
        c.expect(!plain.returnValue && plain.output.empty(), "a malformed text gave a return value or output", cx::show(plain));
        c.expect(plain.errors.size() == 1, "a malformed text must give exactly one error", cx::show(plain));
        if (plain.errors.size() == 1)
            checkError(plain.errors[0], "Syntax error: ");
    }
    else
    {
        for (auto const& e : plain.errors)
            c.expect(e.rfind("Syntax error", 0) != 0, "a well-formed text gave a syntax error", e);
        if (!reference.loose)
        {
            c.expect(plain.in == reference.input, "the result mirrors another input", cx::show(plain));
            bool bound = bindings.get(cx::view(reference.input.name)) != nullptr;
            bool runs = !reference.input.name.empty() && bound && reference.input.args.size() <= 2;
            c.expect(calls == (runs ? 1u : 0u), "wrong number of calls", cx::show(plain));
            c.expect(plain.errors.empty() == runs, "errors do not match", cx::show(plain));
            c.labelIf(runs, "ran");
        }
    }
}

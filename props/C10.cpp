#include "grammar.h"
#include "model.h"

namespace
{
    struct Action
    {
        enum Kind
        {
            Log,
            LogLine,
            LogF,
            LogLineF,
            Report,
            ReportTwo,
            EchoArgs,
            EchoNamed,
        };
        Kind kind;
        std::string text;
    };

    enum class Returns
    {
        Nothing,
        Int,
        Text,
        List,
        NoOptional,
        NullText,
        Count,
    };

    struct Script
    {
        std::string name;
        Returns returns = Returns::Nothing;
        std::string value; // the text returned
        size_t parameters = 0;
        bool typed = false; // the parameters are ints, otherwise raw values
        std::vector<Action> actions;
    };

    struct Problems
    {
        std::string first;
    };

    std::string clean(std::string t)
    {
        for (char& ch : t)
            if (!ch)
                ch = '0';
        return t;
    }

    void perform(Script const& script, coil::Context& context, std::vector<std::string> const& args, Problems& problems)
    {
        bool errors = false;
        if (context.hasErrors())
            problems.first = "errors before the command did anything";
        for (auto const& a : script.actions)
        {
            switch (a.kind)
            {
            case Action::Log:
                context.log(cx::own(a.text));
                break;
            case Action::LogLine:
                context.logline(cx::own(a.text));
                break;
            case Action::LogF:
                context.logf("%s", clean(a.text).c_str());
                break;
            case Action::LogLineF:
                context.loglinef("<%s|%d>", clean(a.text).c_str(), 7);
                break;
            case Action::Report:
                context.reportError(cx::own(a.text));
                errors = true;
                break;
            case Action::ReportTwo:
                context.reportErrors(cx::own(a.text), coil::String{"second"});
                errors = true;
                break;
            case Action::EchoArgs:
                for (auto const& arg : args)
                    context.logline(cx::own(arg));
                break;
            case Action::EchoNamed:
                for (auto const& named : context.namedArgs())
                    context.logline(cx::own(cx::str(named.key) + "=" + cx::show(cx::plain(named.value))));
                break;
            }
            if (context.hasErrors() != errors)
                problems.first = "hasErrors is wrong";
        }
    }

    // what executing 'input' must give, apart from the input itself
    cx::Result expected(Script const& script, cx::Input const& input, std::vector<std::string> const& args)
    {
        cx::Result r;
        for (auto const& a : script.actions)
        {
            switch (a.kind)
            {
            case Action::Log:
                r.output += a.text;
                break;
            case Action::LogLine:
                r.output += a.text + "\n";
                break;
            case Action::LogF:
                r.output += clean(a.text);
                break;
            case Action::LogLineF:
                r.output += "<" + clean(a.text) + "|7>\n";
                break;
            case Action::Report:
                r.errors.push_back(a.text);
                break;
            case Action::ReportTwo:
                r.errors.push_back(a.text);
                r.errors.push_back("second");
                break;
            case Action::EchoArgs:
                for (auto const& arg : args)
                    r.output += arg + "\n";
                break;
            case Action::EchoNamed:
                for (auto const& named : input.named)
                    r.output += named.key + "=" + cx::show(named.value) + "\n";
                break;
            }
        }
        if (r.errors.empty() && script.returns != Returns::Nothing)
            r.returnValue = script.value;
        return r;
    }

    template<typename R>
    R result(Script const& script);
    template<>
    void result<void>(Script const&)
    {
    }
    template<>
    int result<int>(Script const& script)
    {
        return std::atoi(script.value.c_str());
    }
    template<>
    coil::String result<coil::String>(Script const& script)
    {
        return cx::own(script.value);
    }
    template<>
    std::vector<std::string> result<std::vector<std::string>>(Script const& script)
    {
        return {script.value.substr(1, script.value.size() - 2)};
    }
    template<>
    std::optional<int> result<std::optional<int>>(Script const&)
    {
        return {};
    }
    template<>
    coil::StringView result<coil::StringView>(Script const& script)
    {
        return cx::view(script.value);
    }

    template<typename R>
    coil::Vector<coil::AnyFunctor> make(Script const* script, Problems* problems)
    {
        using V = coil::Value const&;
        auto say = [](coil::Value const& v) { return cx::show(cx::plain(v)); };
        auto run = [=](coil::Context& context, std::vector<std::string> const& args) -> R {
            perform(*script, context, args, *problems);
            return result<R>(*script);
        };
        if (script->typed)
        {
            switch (script->parameters)
            {
            case 0:
                break;
            case 1:
                return coil::overloaded([=](coil::Context x, int a) { return run(x, {std::to_string(a)}); });
            case 2:
                return coil::overloaded([=](coil::Context x, int a, int b) { return run(x, {std::to_string(a), std::to_string(b)}); });
            default:
                return coil::overloaded([=](coil::Context x, int a, int b, int d) { return run(x, {std::to_string(a), std::to_string(b), std::to_string(d)}); });
            }
        }
        switch (script->parameters)
        {
        case 0:
            return coil::overloaded([=](coil::Context x) { return run(x, {}); });
        case 1:
            return coil::overloaded([=](coil::Context x, V a) { return run(x, {say(a)}); });
        case 2:
            return coil::overloaded([=](coil::Context x, V a, V b) { return run(x, {say(a), say(b)}); });
        default:
            return coil::overloaded([=](coil::Context x, V a, V b, V d) { return run(x, {say(a), say(b), say(d)}); });
        }
    }

    // a result kept until the end, with the texts it refers to
    struct Kept
    {
        std::unique_ptr<gen::ExactText> text;
        std::unique_ptr<cx::Input> structure;
        coil::ExecutionResult result;
        cx::Result expected;
        bool exact;
    };
}

PBT_PROPERTY("C10",
             "1-6 scripted commands (logs of four kinds, reported errors, echoed positional and named arguments, six kinds of return) (up to 60 of them each, rarely 900) executed up to 40 times, rarely 800, in random order with valid, invalid, unknown, malformed and repeated inputs, structured or as text; every result is compared with the model at once and again at the end, repetitions (up to 66000 of one) with each other, texts with their parsed form; "
             "non-trivial: at least three executions, one of them failing",
             true)
{
    coil::Bindings bindings;
    Problems problems;
    std::vector<std::unique_ptr<Script>> scripts;
    size_t const commands = 1 + s.draw(6);
    for (size_t i = 0; i < commands; i++)
    {
        auto script = std::make_unique<Script>();
        script->name = "c" + std::to_string(i);
        script->returns = static_cast<Returns>(s.draw(static_cast<uint64_t>(Returns::Count)));
        script->parameters = s.draw(4);
        script->typed = s.flip();
        size_t const maxActions = s.chance(1, 600) ? 900 : s.chance(1, 12) ? 60 : 6;
        for (size_t n = 0; s.more(maxActions > 60 ? 500 : maxActions > 6 ? 30 : 2, n, maxActions); n++)
            script->actions.push_back({static_cast<Action::Kind>(s.weighted({3, 3, 1, 1, 1, 1, 1, 1})), gen::text(s, s.chance(1, 20) ? 5000 : 60)});
        switch (script->returns)
        {
        default:
        case Returns::Nothing:
            bindings[cx::view(script->name)] = make<void>(script.get(), &problems);
            break;
        case Returns::Int:
            script->value = std::to_string(gen::integer<int>(s));
            bindings[cx::view(script->name)] = make<int>(script.get(), &problems);
            break;
        case Returns::Text:
            script->value = gen::text(s, 200);
            bindings[cx::view(script->name)] = make<coil::String>(script.get(), &problems);
            break;
        case Returns::List:
            script->value = "[" + gen::text(s, 40) + "]";
            bindings[cx::view(script->name)] = make<std::vector<std::string>>(script.get(), &problems);
            break;
        case Returns::NoOptional:
            bindings[cx::view(script->name)] = make<std::optional<int>>(script.get(), &problems);
            break;
        case Returns::NullText:
            script->value = "";
            bindings[cx::view(script->name)] = make<coil::StringView>(script.get(), &problems);
            break;
        }
        c.note("command " + script->name + " returns " + pbt::show(script->value, 60) + " parameters " + std::to_string(script->parameters) + (script->typed ? " int" : " raw") + " actions " + std::to_string(script->actions.size()));
        scripts.push_back(std::move(script));
    }

    std::vector<Kept> kept;
    std::vector<std::pair<cx::Input, std::string>> inputs; // seen before; the text if it was one
    grammar::Config config;
    bool failing = false;
    size_t const maxRuns = s.chance(1, 1000) ? 800 : s.chance(1, 10) ? 40 : 12;
    for (size_t n = 0; (n == 0 || s.more(maxRuns > 40 ? 500 : maxRuns > 12 ? 25 : 5, n, maxRuns)) && !c.failed; n++)
    {
        Script const& script = *scripts[s.draw(scripts.size())];
        cx::Input input;
        std::string text;
        bool asText = false, syntaxError = false;
        std::string syntaxMessage;
        if (!inputs.empty() && s.chance(1, 4))
        {
            auto const& old = inputs[s.draw(inputs.size())];
            input = old.first;
            text = old.second;
            asText = !text.empty();
            c.label("repeat");
        }
        else
        {
            input.name = script.name;
            size_t count = s.chance(1, 6) ? s.draw(5) : script.parameters;
            for (size_t i = 0; i < count; i++)
                input.args.push_back(script.typed ? model::Model<int>::arg(s, !s.chance(1, 5)) : model::Model<coil::Value>::arg(s, true));
            for (size_t k = s.chance(1, 3) ? s.draw(4) : 0; k > 0; k--)
                input.named.push_back({gen::text(s, 20), {{gen::text(s, 20)}}});
            if (s.chance(1, 10))
                input.name = s.flip() ? "" : "unknown";
            if (s.chance(1, 2))
            {
                // as a text, if it can be written
                auto p = grammar::renderSingle(s, input.name, config, false);
                bool possible = static_cast<bool>(p);
                text = possible ? p->text : "";
                for (auto const& a : input.args)
                    if (possible)
                    {
                        auto q = grammar::renderArg(s, a, config);
                        possible = static_cast<bool>(q);
                        text += possible ? " " + q->text : "";
                    }
                for (auto const& a : input.named)
                    if (possible)
                    {
                        auto k = grammar::renderSingle(s, a.key, config, false);
                        auto q = grammar::renderArg(s, a.value, config);
                        possible = k && q;
                        text += possible ? " " + k->text + "=" + q->text : "";
                    }
                if (s.chance(1, 8))
                    text = grammar::mutate(s, text, config);
                asText = possible && !text.empty();
                if (!asText)
                    text.clear();
            }
        }
        if (asText)
        {
            grammar::Parsed parsed = grammar::parse(text, config);
            if (parsed.loose)
                continue;
            syntaxError = !parsed.ok;
            syntaxMessage = parsed.error;
            input = parsed.input;
        }
        inputs.push_back({input, text});
        c.note(asText ? "execute text " + pbt::show(text) : "execute " + cx::show(input));
        c.key(asText ? text : cx::show(input));

        // the model
        cx::Result want;
        bool exact = true;
        if (syntaxError)
        {
            exact = false;
            want.errors = {syntaxMessage};
            c.label("syntax-error");
        }
        else
        {
            Script const* target = nullptr;
            for (auto const& candidate : scripts)
                if (candidate->name == input.name)
                    target = candidate.get();
            std::vector<std::string> args;
            bool open = false;
            if (!target || target->parameters != input.args.size())
            {
                exact = false;
                want.errors = {"?"};
                c.label(target ? "wrong-count" : "unknown");
            }
            else
            {
                for (auto const& a : input.args)
                {
                    if (!target->typed)
                    {
                        args.push_back(cx::show(a));
                        continue;
                    }
                    model::Out out = model::Model<int>::convert(a);
                    open = open || out.kind == model::Out::Open;
                    if (out.kind == model::Out::Error)
                    {
                        want.errors.push_back(out.error);
                        exact = exact && out.exact;
                    }
                    args.push_back(out.repr);
                }
                if (open)
                    continue;
                if (want.errors.empty())
                    want = expected(*target, input, args);
                else
                    c.label("bad-argument");
                c.labelIf(want.returnValue.has_value(), "returns");
            }
        }
        failing = failing || !want.errors.empty();
        want.in = input;

        Kept k;
        if (asText)
        {
            k.text = std::make_unique<gen::ExactText>(text);
            k.result = bindings.execute(cx::view(*k.text));
        }
        else
        {
            k.structure = std::make_unique<cx::Input>(input);
            k.result = bindings.execute(cx::input(*k.structure));
        }
        k.expected = want;
        k.exact = exact;

        auto got = cx::plain(k.result);
        if (!problems.first.empty())
            c.fail(problems.first);
        if (!(got.in == want.in))
            c.fail("the result mirrors another input: " + cx::show(got.in) + " instead of " + cx::show(want.in));
        if (exact ? !(got == want) : got.errors.size() != want.errors.size() || got.returnValue || !got.output.empty())
            c.fail("got " + cx::show(got) + " instead of " + cx::show(want));
        if (k.result.returnValue.hasValue() && !k.result.errors.empty())
            c.fail("both a return value and errors");
        if (!exact)
            k.expected = got;

        if (asText && s.chance(1, 3))
        {
            // parsed by hand, and once more
            coil::DefaultLexer lexer;
            auto parsed = lexer.parse(cx::view(*k.text));
            c.expect(parsed.hasValue() == !syntaxError, "parse and execute disagree");
            if (parsed)
            {
                cx::Result direct = cx::plain(bindings.execute(*parsed));
                if (!(direct == got))
                    c.fail("executing the parsed form gives " + cx::show(direct) + " instead of " + cx::show(got));
                c.expect(cx::plain(*parsed) == input, "executing changed the input it was given");
            }
            cx::Result again = cx::plain(bindings.execute(cx::view(*k.text)));
            if (!(again == got))
                c.fail("executing once more gives " + cx::show(again) + " instead of " + cx::show(got));
        }
        if (size_t const times = gen::wear(s, 6000, 15 + got.output.size() / 50 + text.size() / 20 + got.errors.size() * 3))
        {
            c.label("repeated 260+ times");
            c.note(std::to_string(times) + " times more");
            for (size_t i = 0; i < times && !c.failed; i++)
            {
                coil::ExecutionResult again = asText ? bindings.execute(cx::view(*k.text)) : bindings.execute(cx::input(*k.structure));
                if (again.errors.size() != got.errors.size() || again.returnValue.hasValue() != got.returnValue.has_value() || again.output.length() != got.output.size() || (i + 3 > times && !(cx::plain(again) == got)))
                    c.fail("after " + std::to_string(i + 1) + " more times it gives " + cx::show(cx::plain(again)) + " instead of " + cx::show(got));
            }
        }
        kept.push_back(std::move(k));
    }
    // nothing that ran later changed an earlier result
    for (auto const& k : kept)
    {
        cx::Result now = cx::plain(k.result);
        if (!(now == k.expected))
            c.fail("an earlier result changed to " + cx::show(now) + " from " + cx::show(k.expected));
    }
    c.labelIf(kept.size() > 256, "256+ executions");
    for (auto const& k : kept)
        c.labelIf(k.expected.errors.size() > 256, "256+ errors");
    c.nontrivial(kept.size() >= 3 && failing);
}

#include "grammar.h"
#include "signatures.h"

namespace
{
    struct Overload
    {
        sig::Signature const* signature;
        int id;
    };

    // free functions, which have no state of their own
    sig::Recorder* g_recorder = nullptr;
    int freeInt(int v)
    {
        g_recorder->calls.push_back({-1, {std::to_string(v)}});
        return -1;
    }
    int freeNone() noexcept
    {
        g_recorder->calls.push_back({-2, {}});
        return -2;
    }
    int freeText(coil::Context, coil::String const& a, std::string b)
    {
        g_recorder->calls.push_back({-3, {cx::str(a), b}});
        return -3;
    }
}

PBT_PROPERTY("C09",
             "an overload list of 0-8, rarely 300, functions (47 signatures of 0-21 parameters of 20 types; lambdas, function objects and members with each of the 16 qualifiers, free functions, with and without context) called with 0-22 arguments, valid or invalid at any subset of positions, structured and as a text; calls, received values, return value and the exact list of errors are compared with the model; "
             "non-trivial: several overloads, or at least two arguments, or an invalid argument",
             true)
{
    sig::Recorder recorder;
    g_recorder = &recorder;
    auto const& signatures = sig::all();

    coil::Vector<coil::AnyFunctor> functors;
    std::vector<Overload> overloads;
    static sig::Signature const freeSignatures[] = {{{sig::param<int>()}, nullptr}, {{}, nullptr}, {{sig::param<coil::String>(), sig::param<std::string>()}, nullptr}};
    size_t const count = s.weighted({1, 6}) == 0 && s.chance(1, 6) ? 0 : 1 + s.draw(s.flip() ? 2 : s.chance(1, 12) ? s.chance(1, 12) ? 300 : 40 : 8);
    for (size_t i = 0; i < count; i++)
    {
        if (s.chance(1, 10))
        {
            size_t which = s.draw(3);
            if (which == 0)
                functors.pushBack(sig::any(&freeInt));
            else if (which == 1)
                functors.pushBack(sig::any(&freeNone));
            else
                functors.pushBack(sig::any(&freeText));
            overloads.push_back({&freeSignatures[which], -1 - static_cast<int>(which)});
            c.label("free-function");
            continue;
        }
        sig::Signature const& signature = signatures[s.draw(signatures.size())];
        int id = 1000 + static_cast<int>(i);
        sig::Kind kind = static_cast<sig::Kind>(s.draw(sig::kKinds));
        functors.pushBack(signature.make(recorder, id, kind));
        overloads.push_back({&signature, id});
        std::string line = "overload " + std::to_string(id) + " kind " + std::to_string(static_cast<int>(kind)) + " (";
        for (auto const& p : signature.params)
            line += p.name() + " ";
        c.note(line + ")");
    }

    coil::Bindings bindings;
    std::string name = s.chance(1, 8) ? gen::text(s, 300) : "f";
    if (name.empty())
        name = "g";
    if (overloads.size() == 1 && s.flip())
        bindings.add(cx::view(name), coil::AnyFunctor{coil::move(functors[0])});
    else
        bindings.add(cx::view(name), coil::move(functors));
    // neighbours that must not be called
    bindings["ff"] = [&] { recorder.calls.push_back({-100, {}}); };
    bindings["F"] = [&](coil::Value const&) { recorder.calls.push_back({-101, {}}); };
    if (name == "ff" || name == "F")
        throw pbt::Discard{};

    // the arguments: mostly those of one of the overloads
    cx::Input input;
    input.name = name;
    {
        Overload const* target = overloads.empty() ? nullptr : &overloads[s.draw(overloads.size())];
        size_t n = target && !s.chance(1, 8) ? target->signature->params.size() : s.draw(23);
        if (s.chance(1, 60)) // a count that is the same in a narrower type
            n += s.chance(1, 12) ? size_t(65536) : size_t(256) << s.draw(3);
        unsigned const mode = static_cast<unsigned>(s.weighted({4, 3, 2})); // all valid, some invalid, mixed
        for (size_t i = 0; i < n; i++)
        {
            bool valid = mode == 0 || (mode == 1 ? !s.chance(1, 4) : s.flip());
            if (i >= 64)
                input.args.push_back(input.args[i % 16]);
            else if (target && i < target->signature->params.size())
                input.args.push_back(target->signature->params[i].arg(s, valid));
            else
                input.args.push_back(model::Model<coil::Value>::arg(s, true));
        }
        for (size_t n2 = s.chance(1, 5) ? s.draw(4) : 0; n2 > 0; n2--)
            input.named.push_back({gen::word(s, 10), {{gen::text(s, 10)}}});
    }
    c.note("input " + cx::show(input));
    c.key(cx::show(input));
    for (auto const& o : overloads)
        c.key(o.signature->params.size());

    // the model
    Overload const* chosen = nullptr;
    for (auto const& o : overloads)
        if (!chosen && o.signature->params.size() == input.args.size())
            chosen = &o;
    std::vector<model::Out> outs;
    bool anyOpen = false, anyError = false;
    if (chosen)
        for (size_t i = 0; i < input.args.size(); i++)
        {
            outs.push_back(chosen->signature->params[i].convert(input.args[i]));
            anyOpen = anyOpen || outs.back().kind == model::Out::Open;
            anyError = anyError || outs.back().kind == model::Out::Error;
        }
    c.nontrivial(overloads.size() > 1 || input.args.size() > 1 || anyError);
    c.label(!chosen ? "no-overload" : anyError ? "invalid-arguments" : anyOpen ? "open" : "called");
    c.labelIf(input.args.size() > 8, "many-arguments");
    c.labelIf(overloads.size() > 1, "overloaded");

    auto judge = [&](coil::ExecutionResult const& result, char const* how) {
        std::vector<std::string> errors;
        for (size_t i = 0; i < result.errors.size(); i++)
            errors.push_back(cx::str(result.errors[i]));
        auto fail = [&](std::string const& what) {
            std::string calls;
            for (auto const& call : recorder.calls)
                calls += " call " + std::to_string(call.id) + "(" + pbt::show(cx::join(call.args, ", "), 300) + ")";
            c.fail(std::string{how} + ": " + what + "; errors " + pbt::show(cx::join(errors, " | "), 600) + calls);
        };
        if (!chosen)
        {
            if (!recorder.calls.empty() || result.returnValue.hasValue())
                return fail("something was called although no overload takes " + std::to_string(input.args.size()) + " arguments");
            if (errors.size() != 1)
                return fail("expected one error");
            std::vector<size_t> counts;
            bool duplicates = false;
            for (auto const& o : overloads)
            {
                duplicates = duplicates || std::find(counts.begin(), counts.end(), o.signature->params.size()) != counts.end();
                counts.push_back(o.signature->params.size());
            }
            if (cx::hasNul(name))
                return;
            std::string expected = "Wrong number of arguments to '" + name + "': expected " + cx::orList(counts) + ", got " + std::to_string(input.args.size());
            if (!duplicates && !counts.empty() && errors[0] != expected)
                return fail("expected the error " + pbt::show(expected, 300));
            for (size_t n : counts)
                if (errors[0].find(std::to_string(n)) == std::string::npos)
                    return fail("the error does not list " + std::to_string(n));
            return;
        }
        if (anyError)
        {
            if (!recorder.calls.empty() || result.returnValue.hasValue())
                return fail("something was called although an argument does not convert");
            // one error for each rejected argument, in order; open arguments may or may not add one
            size_t at = 0;
            for (auto const& out : outs)
            {
                if (out.kind == model::Out::Error)
                {
                    if (at >= errors.size())
                        return fail("an argument error is missing: " + pbt::show(out.error, 300));
                    if (!anyOpen && !model::sameError(errors[at], out))
                        return fail("expected the argument error " + pbt::show(out.error, 300));
                    at++;
                }
            }
            if (!anyOpen && at != errors.size())
                return fail("more errors than arguments that failed");
            return;
        }
        if (anyOpen)
        {
            if (recorder.calls.size() > 1 || (errors.empty() != (recorder.calls.size() == 1)))
                return fail("calls and errors disagree");
            return;
        }
        if (!errors.empty())
            return fail("valid arguments were rejected");
        if (recorder.calls.size() != 1 || recorder.calls[0].id != chosen->id)
            return fail("expected one call of " + std::to_string(chosen->id));
        for (size_t i = 0; i < outs.size(); i++)
            if (recorder.calls[0].args[i] != outs[i].repr)
                return fail("argument " + std::to_string(i) + " arrived as " + pbt::show(recorder.calls[0].args[i], 200) + " instead of " + pbt::show(outs[i].repr, 200));
        if (!result.returnValue.hasValue() || cx::str(*result.returnValue) != std::to_string(chosen->id))
            return fail("the return value is not that of the function called");
    };

    judge(bindings.execute(cx::input(input)), "execute");
    if (c.failed)
        return;
    if (s.chance(1, 2))
    {
        grammar::Config config;
        auto namePiece = grammar::renderSingle(s, name, config, false);
        std::string text;
        bool possible = static_cast<bool>(namePiece);
        if (possible)
        {
            text = namePiece->text;
            for (auto const& arg : input.args)
            {
                auto piece = grammar::renderArg(s, arg, config);
                if (!piece)
                {
                    possible = false;
                    break;
                }
                text += " " + piece->text;
            }
        }
        if (possible)
        {
            recorder.calls.clear();
            c.label("as-command");
            c.note("command " + pbt::show(text));
            gen::ExactText exact{text};
            judge(bindings.execute(cx::view(exact)), "execute text");
        }
    }
}

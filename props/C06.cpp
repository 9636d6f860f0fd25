#include "grammar.h"
#include "model.h"

namespace
{
    struct Seen
    {
        unsigned calls = 0;
        std::string value;
    };

    template<typename T>
    using M = model::Model<T>;

    // binds a function of a random shape that records the argument and returns it
    template<typename T>
    void bindEcho(pbt::Source& s, coil::Bindings& bindings, Seen& seen)
    {
        switch (s.draw(4))
        {
        default:
        case 0:
            bindings["f"] = [&](T v) { seen.calls++; seen.value = M<T>::repr(v); return v; };
            break;
        case 1:
            bindings["f"] = [&](T const& v) -> T { seen.calls++; seen.value = M<T>::repr(v); return v; };
            break;
        case 2:
            bindings["f"] = [&](coil::Context context, T v) -> T const { seen.calls++; seen.value = M<T>::repr(v); context.log("x"); return v; };
            break;
        case 3:
            bindings["f"] = coil::overloaded([&](T v) { seen.calls++; seen.value = M<T>::repr(v); return v; }, [&](T, int) { seen.calls += 100; });
        }
    }

    template<typename T>
    void check(pbt::Source& s, pbt::Case& c, cx::Arg const& arg, char const* type)
    {
        model::Out const expected = M<T>::convert(arg);
        coil::Bindings bindings;
        Seen seen;
        bindEcho<T>(s, bindings, seen);
        c.note(std::string{"as "} + type + " " + cx::show(arg));

        auto judge = [&](coil::ExecutionResult const& r, char const* where) {
            if (expected.kind == model::Out::Ok)
            {
                if (!r.errors.empty())
                    return c.fail(std::string{where} + " as " + type + ": rejected: " + cx::str(r.errors[0]));
                if (seen.calls != 1 || seen.value != expected.repr)
                    return c.fail(std::string{where} + " as " + type + ": received " + pbt::show(seen.value) + " in " + std::to_string(seen.calls) + " calls instead of " + pbt::show(expected.repr));
                std::string text = std::is_same_v<T, coil::Value> ? cx::join(arg.subvalues, " ") : expected.repr;
                if (!r.returnValue.hasValue() || cx::str(*r.returnValue) != text)
                    return c.fail(std::string{where} + " as " + type + ": returned " + (r.returnValue.hasValue() ? pbt::show(cx::str(*r.returnValue)) : "nothing") + " instead of " + pbt::show(text));
            }
            else
            {
                if (r.errors.empty() || seen.calls != 0 || r.returnValue.hasValue())
                    return c.fail(std::string{where} + " as " + type + ": accepted " + cx::show(arg));
                c.expect(r.errors.size() == 1 && model::sameError(cx::str(r.errors[0]), expected), "wrong conversion error", cx::str(r.errors[0]) + " instead of " + expected.error);
            }
        };

        {
            std::vector<std::unique_ptr<gen::ExactText>> texts;
            coil::ExecutionInput input;
            input.name = "f";
            coil::Value value;
            for (auto const& t : arg.subvalues)
            {
                texts.push_back(std::make_unique<gen::ExactText>(t));
                value.subvalues.pushBack(cx::view(*texts.back()));
            }
            input.arguments.pushBack(value);
            judge(bindings.execute(coil::move(input)), "execute");
        }
        grammar::Config config;
        if (auto piece = grammar::renderArg(s, arg, config))
        {
            seen = {};
            gen::ExactText command{"f" + grammar::spaces(s, config, 1) + piece->text};
            c.note("command " + pbt::show(std::string{command.data(), command.size()}));
            c.label("as-command");
            judge(bindings.execute(cx::view(command)), "execute text");
        }
        // and directly
        if constexpr (!std::is_same_v<T, coil::Value>)
        {
            auto v = cx::value(arg);
            using Result = decltype(v.template get<T>());
            Result r = v.template get<T>();
            c.expect(r.hasValue() == (expected.kind == model::Out::Ok), "Value::get disagrees", type);
        }
    }

    std::string boolish(pbt::Source& s)
    {
        cx::Arg a = model::Model<bool>::arg(s, s.flip());
        if (a.subvalues.empty())
            return "";
        std::string t = a.subvalues[0];
        if (s.chance(1, 4))
        {
            // a byte replaced by the one whose ASCII folding or comparison would confuse it
            size_t at = t.empty() ? 0 : s.draw(t.size());
            if (!t.empty())
                t[at] = static_cast<char>(s.flip() ? t[at] ^ 0x20 : t[at] | 0x80);
        }
        if (s.chance(1, 8))
            t += std::string(1, '\0');
        if (s.chance(1, 10))
            t = t + t;
        return t;
    }
}

PBT_PROPERTY("C06",
             "per case: a text of any bytes (empty, NUL, high bytes, up to 70000 bytes) or a boolean word with case changes and near misses, given as 0-5 subvalues to a function of coil::String, StringView, std::string, std::string_view, raw value or bool, structured and as a command; "
             "received bytes, return value, calls and errors are compared with the model; non-trivial: not a single word of letters",
             true)
{
    unsigned type = static_cast<unsigned>(s.draw(7));
    cx::Arg arg;
    size_t n = s.weighted({10, 1, 1, 1});
    n = n == 0 ? 1 : n == 1 ? 0 : n == 2 ? 2 : 2 + s.draw(4);
    for (size_t i = 0; i < n; i++)
        arg.subvalues.push_back(type >= 5 || s.chance(1, 10) ? boolish(s) : gen::text(s, s.chance(1, 15) ? 70000 : 400));
    for (auto const& t : arg.subvalues)
        c.key(t);
    c.key(type);
    bool word = arg.subvalues.size() == 1 && std::all_of(arg.subvalues[0].begin(), arg.subvalues[0].end(), [](char ch) { return (ch >= 'a' && ch <= 'z') || (ch >= '0' && ch <= '9'); });
    c.nontrivial(!word);
    c.label(type >= 5 ? "bool" : "text");
    c.labelIf(arg.subvalues.size() != 1, "not-single");
    c.labelIf(cx::hasNul(arg), "nul");
    switch (type)
    {
    default:
    case 0:
        return check<coil::String>(s, c, arg, "coil::String");
    case 1:
        return check<coil::StringView>(s, c, arg, "coil::StringView");
    case 2:
        return check<std::string>(s, c, arg, "std::string");
    case 3:
        return check<std::string_view>(s, c, arg, "std::string_view");
    case 4:
        return check<coil::Value>(s, c, arg, "coil::Value");
    case 5:
    case 6:
        c.labelIf(model::Model<bool>::convert(arg).kind == model::Out::Ok, "bool:valid");
        return check<bool>(s, c, arg, "bool");
    }
}

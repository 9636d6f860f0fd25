#include "grammar.h"
#include "model.h"

namespace
{
    struct Lookup
    {
        enum Kind
        {
            GetRaw,
            GetTyped,
            ReportRaw,
            ReportTyped,
            Find,
        };
        Kind kind;
        std::string key;
        unsigned type = 0;
        bool required = false;
        bool hasDefault = false;
        bool explicitType = true; // the requiredness is passed
    };

    struct Expectation
    {
        std::vector<std::string> errors;
        std::vector<bool> exact;
    };

    // one lookup of type T, in the library and in the model
    template<typename T>
    void typed(pbt::Case& c, Lookup const& l, coil::NamedArgs& args, cx::Input const& input, Expectation& e, T const& fallback)
    {
        using M = model::Model<T>;
        using ArgType = coil::NamedArgs::ArgType;
        cx::Arg const* present = nullptr;
        for (auto const& n : input.named)
            if (!present && n.key == l.key)
                present = &n.value;
        model::Out out = present ? M::convert(*present) : model::Out{};
        std::string const missing = "Missing named argument '" + l.key + "'";
        bool const exactMissing = !cx::hasNul(l.key);
        std::string const where = "lookup of " + pbt::show(l.key, 60) + " as " + M::name();
        gen::ExactText key{l.key};

        if (l.kind == Lookup::GetTyped)
        {
            coil::Expected<T, coil::NamedArgs::Error> r = args.get<T>(cx::view(key));
            if (!present)
            {
                if (r)
                    return c.fail(where + " found a value that is not there");
                c.expect(r.error().type == coil::NamedArgs::Error::Type::MissingKey, "missing key reported as something else");
                c.expect(!exactMissing || cx::str(r.error().message) == missing, "wrong message for a missing key", cx::str(r.error().message));
            }
            else if (out.kind == model::Out::Ok)
            {
                if (!r)
                    return c.fail(where + " failed: " + cx::str(r.error().message));
                c.expect(M::repr(*r) == out.repr, "another value was found", where + ": " + M::repr(*r) + " instead of " + out.repr);
            }
            else if (out.kind == model::Out::Error)
            {
                if (r)
                    return c.fail(where + " accepted an invalid value as " + M::repr(*r));
                c.expect(r.error().type == coil::NamedArgs::Error::Type::TypeMismatch, "a type mismatch is reported as something else");
                c.expect(model::sameError(cx::str(r.error().message), out), "wrong message for a type mismatch", cx::str(r.error().message));
            }
            return;
        }

        ArgType const type = l.required ? ArgType::Required : ArgType::Optional;
        coil::Optional<T> r = l.hasDefault ? args.getOrReport<T>(cx::view(key), type, coil::Optional<T>{fallback}) : l.explicitType ? args.getOrReport<T>(cx::view(key), type) : args.getOrReport<T>(cx::view(key));
        bool const required = l.required && (l.hasDefault || l.explicitType);
        if (!present)
        {
            if (required)
            {
                c.expect(!r.hasValue(), "a missing required argument has a value", where);
                e.errors.push_back(missing);
                e.exact.push_back(exactMissing);
            }
            else if (l.hasDefault)
                c.expect(r.hasValue() && M::repr(*r) == M::repr(fallback), "a missing optional argument does not give the default", where);
            else
                c.expect(!r.hasValue(), "a missing optional argument without default has a value", where);
        }
        else if (out.kind == model::Out::Ok)
        {
            if (!r.hasValue())
                return c.fail(where + " gave nothing for a valid value");
            c.expect(M::repr(*r) == out.repr, "another value was found", where + ": " + M::repr(*r) + " instead of " + out.repr);
        }
        else if (out.kind == model::Out::Error)
        {
            c.expect(!r.hasValue(), "an invalid value gave a value", where);
            e.errors.push_back(out.error);
            e.exact.push_back(out.exact);
        }
    }

    void raw(pbt::Case& c, Lookup const& l, coil::NamedArgs& args, cx::Input const& input, Expectation& e)
    {
        cx::Arg const* present = nullptr;
        size_t index = 0;
        for (size_t i = 0; i < input.named.size(); i++)
            if (!present && input.named[i].key == l.key)
            {
                present = &input.named[i].value;
                index = i;
            }
        std::string const missing = "Missing named argument '" + l.key + "'";
        std::string const where = "raw lookup of " + pbt::show(l.key, 60);
        gen::ExactText key{l.key};
        switch (l.kind)
        {
        default:
        case Lookup::GetRaw:
        {
            auto r = args.get(cx::view(key));
            c.expect(r.hasValue() == (present != nullptr), "presence is wrong", where);
            if (r && present)
                c.expect(cx::plain(static_cast<coil::Value const&>(*r)) == *present, "another value was found", where);
            if (!r)
            {
                c.expect(r.error().type == coil::NamedArgs::Error::Type::MissingKey, "missing key reported as something else");
                c.expect(cx::hasNul(l.key) || cx::str(r.error().message) == missing, "wrong message for a missing key", cx::str(r.error().message));
            }
            break;
        }
        case Lookup::ReportRaw:
        {
            coil::Value const* v = l.required ? args.getOrReport(cx::view(key), coil::NamedArgs::ArgType::Required) : args.getOrReport(cx::view(key));
            c.expect((v != nullptr) == (present != nullptr), "presence is wrong", where);
            if (v && present)
                c.expect(cx::plain(*v) == *present, "another value was found", where);
            if (!present && l.required)
            {
                e.errors.push_back(missing);
                e.exact.push_back(!cx::hasNul(l.key));
            }
            break;
        }
        case Lookup::Find:
        {
            auto it = args.find(cx::view(key));
            if (!present)
                c.expect(it == args.end(), "find finds a key that is not there", where);
            else
                c.expect(it == args.begin() + index, "find does not find the first argument with the key", where);
            break;
        }
        }
    }
}

PBT_PROPERTY("C14",
             "a command with 0-3 positional and 0-40 named arguments (any keys: duplicates, prefixes, changed bits, empty, any bytes; single, list and empty values) (rarely 70000 named ones) performs up to 12 lookups, rarely 600, (raw, typed over 11 types, find; required, optional, with and without default, present and missing keys); "
             "values, defaults, error kinds, messages, reported errors and the positional arguments are compared with the model, structured and as a text; non-trivial: at least two named arguments and two lookups",
             true)
{
    // keys that are easy to confuse
    std::vector<std::string> keys;
    auto newKey = [&] {
        std::string k = gen::text(s, s.chance(1, 10) ? 400 : 12);
        if (!keys.empty() && s.chance(1, 3))
        {
            k = keys[s.draw(keys.size())];
            switch (s.draw(5))
            {
            case 0:
                k += gen::byteOf(s, gen::alphabet(s));
                break;
            case 1:
                k = k.substr(0, k.size() / 2);
                break;
            case 2:
                if (!k.empty())
                    k[s.draw(k.size())] ^= static_cast<char>(1u << s.draw(8));
                break;
            case 3:
                k += std::string(1, '\0');
                break;
            default:
                break;
            }
        }
        keys.push_back(k);
        return k;
    };

    auto value = [&]() -> cx::Arg {
        bool const valid = !s.chance(1, 3);
        switch (s.draw(9))
        {
        default:
        case 0:
            return model::Model<int>::arg(s, valid);
        case 1:
            return model::Model<bool>::arg(s, valid);
        case 2:
            return model::Model<coil::String>::arg(s, valid);
        case 3:
            return model::Model<double>::arg(s, valid);
        case 4:
            return model::Model<std::vector<int>>::arg(s, valid);
        case 5:
            return model::Model<user::Point>::arg(s, valid);
        case 6:
            return model::Model<std::optional<int>>::arg(s, valid);
        case 7:
            return model::Model<coil::Value>::arg(s, valid);
        case 8:
            return {{gen::word(s, 20)}};
        }
    };

    cx::Input input;
    input.name = "f";
    for (size_t n = s.draw(4); n > 0; n--)
        input.args.push_back(value());
    size_t const max = s.chance(1, 15) ? 40 : 8;
    for (size_t n = 0; s.more(max > 8 ? 20 : 3, n, max); n++)
    {
        std::string k = !keys.empty() && s.chance(1, 4) ? keys[s.draw(keys.size())] : newKey();
        input.named.push_back({k, value()});
    }
    // very many
    size_t const crowd = s.chance(1, 1000) ? gen::bulk(s, 3000, 70000, 8) : 0;
    if (crowd > 0)
    {
        std::string const prefix = gen::word(s, 3);
        std::vector<cx::NamedArg> many;
        for (size_t i = 0; i < crowd; i++)
            many.push_back({prefix + std::to_string(i), cx::Arg{{std::to_string(i % 1000)}}});
        for (int i = 0; i < 6; i++)
            keys.push_back(prefix + std::to_string(s.draw(crowd + 1)));
        keys.push_back(prefix + std::to_string(crowd - 1));
        input.named.insert(input.named.begin() + static_cast<std::ptrdiff_t>(s.draw(input.named.size() + 1)), many.begin(), many.end());
    }
    std::vector<Lookup> lookups;
    size_t const maxLookups = s.chance(1, 400) ? 600 : 12;
    for (size_t n = 0; n == 0 || s.more(maxLookups > 12 ? 300 : 4, n, maxLookups); n++)
    {
        Lookup l;
        l.kind = static_cast<Lookup::Kind>(s.weighted({1, 3, 1, 5, 1}));
        l.key = keys.empty() || s.chance(1, 4) ? newKey() : keys[s.draw(keys.size())];
        l.type = static_cast<unsigned>(s.draw(11));
        l.required = s.flip();
        l.hasDefault = s.flip();
        l.explicitType = !s.chance(1, 4);
        c.note("lookup kind " + std::to_string(l.kind) + " key " + pbt::show(l.key, 60) + " type " + std::to_string(l.type) + (l.required ? " required" : " optional") + (l.hasDefault ? " default" : ""));
        lookups.push_back(l);
    }
    std::string const shown = crowd > 0 ? std::to_string(crowd) + " named arguments of the same kind and some others" : cx::show(input);
    c.note("input " + shown);
    c.key(shown);
    for (auto const& l : lookups)
        c.key(l.key + std::to_string(l.type));
    c.nontrivial(input.named.size() >= 2 && lookups.size() >= 2);
    c.labelIf(input.named.size() > 8, "named:many");
    c.labelIf(input.named.size() > 1000, "named:1000+");
    c.labelIf(lookups.size() > 256, "lookups:256+");

    struct Seen
    {
        unsigned calls = 0;
        Expectation e;
        std::vector<cx::Arg> args;
        bool open = false;
    } seen;
    std::vector<int> const list{1, 2, 3};
    auto body = [&](coil::Context context, std::vector<cx::Arg> args) {
        seen.calls++;
        seen.args = std::move(args);
        coil::NamedArgs named = context.namedArgs();
        c.expect(named.size() == input.named.size(), "another number of named arguments");
        size_t i = 0;
        for (auto const& n : named)
        {
            if (i < input.named.size())
                c.expect(cx::str(n.key) == input.named[i].key && cx::plain(n.value) == input.named[i].value, "a named argument differs", pbt::show(cx::str(n.key), 80));
            i++;
        }
        c.expect(i == input.named.size(), "iteration visits another number of named arguments");
        for (auto const& l : lookups)
        {
            if (l.kind != Lookup::GetTyped && l.kind != Lookup::ReportTyped)
            {
                raw(c, l, named, input, seen.e);
                continue;
            }
            switch (l.type)
            {
            default:
            case 0:
                typed<int>(c, l, named, input, seen.e, -17);
                break;
            case 1:
                typed<bool>(c, l, named, input, seen.e, true);
                break;
            case 2:
                typed<coil::String>(c, l, named, input, seen.e, "a default");
                break;
            case 3:
                typed<double>(c, l, named, input, seen.e, 1.5);
                break;
            case 4:
                typed<std::vector<int>>(c, l, named, input, seen.e, list);
                break;
            case 5:
                typed<user::Point>(c, l, named, input, seen.e, user::Point{3, 4});
                break;
            case 6:
                typed<std::optional<int>>(c, l, named, input, seen.e, std::optional<int>{});
                break;
            case 7:
                typed<std::string>(c, l, named, input, seen.e, "another default");
                break;
            case 8:
                typed<coil::StringView>(c, l, named, input, seen.e, "view");
                break;
            case 9:
                typed<unsigned char>(c, l, named, input, seen.e, 9);
                break;
            case 10:
                typed<std::vector<std::string>>(c, l, named, input, seen.e, {"x", ""});
                break;
            }
            // an open conversion may or may not report an error
            for (auto const& n : input.named)
                if (n.key == l.key)
                {
                    bool open = model::Model<int>::convert(n.value).kind == model::Out::Open || model::Model<double>::convert(n.value).kind == model::Out::Open || model::Model<unsigned char>::convert(n.value).kind == model::Out::Open ||
                                model::Model<std::vector<int>>::convert(n.value).kind == model::Out::Open || model::Model<user::Point>::convert(n.value).kind == model::Out::Open;
                    seen.open = seen.open || open;
                }
        }
        return 42;
    };
    using V = coil::Value const&;
    coil::Bindings bindings;
    bindings["f"] = coil::overloaded([&](coil::Context x) { return body(x, {}); }, [&](coil::Context x, V a) { return body(x, {cx::plain(a)}); }, [&](coil::Context x, V a, V b) { return body(x, {cx::plain(a), cx::plain(b)}); },
                                     [&](coil::Context x, V a, V b, V d) { return body(x, {cx::plain(a), cx::plain(b), cx::plain(d)}); });

    auto judge = [&](coil::ExecutionResult const& result, char const* how) {
        c.expect(seen.calls == 1, "the command was not called once", how);
        c.expect(seen.args == input.args, "named arguments change the positional ones", how);
        if (seen.open)
            return;
        bool same = result.errors.size() == seen.e.errors.size();
        for (size_t i = 0; same && i < result.errors.size(); i++)
            same = seen.e.exact[i] ? cx::str(result.errors[i]) == seen.e.errors[i] : !result.errors[i].empty();
        if (!same)
            c.fail(std::string{how} + ": reported " + cx::show(cx::plain(result)) + " instead of errors " + pbt::show(cx::join(seen.e.errors, " | "), 600));
        c.expect(result.returnValue.hasValue() == seen.e.errors.empty(), "return value in spite of errors, or none without", how);
    };

    judge(bindings.execute(cx::input(input)), "execute");
    c.labelIf(!seen.e.errors.empty(), "errors");

    // as a text
    grammar::Config config;
    std::string text = "f";
    bool possible = true;
    size_t a = 0, k = 0;
    while (possible && (a < input.args.size() || k < input.named.size()))
    {
        bool positional = k >= input.named.size() || (a < input.args.size() && s.flip());
        auto piece = grammar::renderArg(s, positional ? input.args[a] : input.named[k].value, config);
        possible = static_cast<bool>(piece);
        if (!possible)
            break;
        if (positional)
        {
            text += " " + piece->text;
            a++;
        }
        else
        {
            auto key = grammar::renderSingle(s, input.named[k].key, config, false);
            possible = static_cast<bool>(key);
            if (possible)
                text += " " + key->text + grammar::spaces(s, config, 0) + "=" + grammar::spaces(s, config, 0) + piece->text;
            k++;
        }
    }
    if (possible && !c.failed)
    {
        c.label("as-command");
        c.note("command " + pbt::show(text));
        seen = {};
        gen::ExactText exact{text};
        judge(bindings.execute(cx::view(exact)), "execute text");
    }
}

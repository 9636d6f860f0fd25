#include "coil/detail/StringConv.h"
#include "grammar.h"
#include "model.h"

namespace
{
    // digit strings around everything that could go wrong: limits, wrap-around, lengths, signs, garbage
    template<typename T>
    std::string integerishText(pbt::Source& s)
    {
        using Limits = std::numeric_limits<T>;
        std::string t;
        switch (s.weighted({6, 3, 3, 2, 2}))
        {
        default:
        case 0:
            t = model::Model<T>::repr(gen::integer<T>(s));
            break;
        case 1:
        {
            // any 128-bit value next to a limit of some type, or a limit plus a multiple of 2^8 .. 2^64
            static int const bits[] = {7, 8, 15, 16, 31, 32, 63, 64, 65, 96, 127};
            unsigned __int128 v = static_cast<unsigned __int128>(1) << s.pick(bits);
            if (s.flip())
                v += static_cast<unsigned __int128>(static_cast<__int128>(gen::integer<T>(s)));
            v += s.draw(7);
            v -= 3;
            bool negative = s.flip();
            if (v == 0)
                t = "0";
            for (; v > 0; v /= 10)
                t.insert(t.begin(), static_cast<char>('0' + static_cast<int>(v % 10)));
            if (negative)
                t = "-" + t;
            break;
        }
        case 2:
        {
            // a limit of this type with a digit changed, added or removed
            t = model::Model<T>::repr(s.flip() ? Limits::max() : Limits::min());
            size_t at = s.draw(t.size());
            switch (s.draw(3))
            {
            case 0:
                t[at] = static_cast<char>('0' + s.draw(10));
                break;
            case 1:
                t.insert(at, 1, static_cast<char>('0' + s.draw(10)));
                break;
            default:
                t.erase(at, 1);
            }
            break;
        }
        case 3:
            for (size_t n = 1 + gen::size(s, 3000); n > 0; n--)
                t += static_cast<char>('0' + (n > 60 ? n * 7 % 10 : s.draw(10)));
            break;
        case 4:
            t = std::to_string(gen::i64(s));
            break;
        }
        if (s.chance(1, 4))
        {
            size_t at = !t.empty() && (t[0] == '-' || t[0] == '+') ? 1 : 0;
            t.insert(at, std::string(gen::size(s, 2000), '0'));
        }
        if (s.chance(1, 8) && !t.empty() && t[0] != '-')
            t.insert(0, "+");
        if (s.chance(1, 10))
            t.insert(0, s.flip() ? "-" : "+");
        if (s.chance(1, 5))
        {
            static char const* const garbage[] = {"x", " ", ".", ".0", "e0", "e1", "u", "L", "h", ",", "-", "+", "\t", "\n", "\xC2\xA0", "0x", "'", "_", "a", "f", "\xB2", "\xEF\xBC\x91"};
            size_t at = s.flip() ? t.size() : s.draw(t.size() + 1);
            std::string g = s.chance(1, 5) ? std::string(1, '\0') : s.chance(1, 5) ? std::string(1, gen::byteOf(s, gen::Alphabet::Any)) : s.pick(garbage);
            t.insert(at, g);
        }
        if (s.chance(1, 40))
            t = gen::text(s, 60);
        return t;
    }

    template<typename T>
    void check(pbt::Source& s, pbt::Case& c)
    {
        using M = model::Model<T>;
        std::string const type = M::name();
        c.note("type " + type);

        // printing and reading back
        T const printed = gen::integer<T>(s);
        {
            std::string expected = M::repr(printed);
            std::string got = cx::str(coil::TypeSerializer<T>::toString(printed));
            if (got != expected)
                c.fail("printing a " + type + " gave " + pbt::show(got) + " instead of " + expected);
            coil::String text = coil::TypeSerializer<T>::toString(printed);
            auto back = coil::TypeSerializer<T>::fromString(coil::Value{coil::StringView{text}});
            if (!back || *back != printed)
                c.fail("the printed " + type + " " + expected + " does not read back");
        }

        std::string const text = integerishText<T>(s);
        c.key(text);
        c.note("text " + pbt::show(text));
        cx::Arg arg{{text}};
        if (s.chance(1, 20))
            for (size_t n = s.draw(4); n > 0; n--)
                arg.subvalues.push_back(integerishText<T>(s));
        else if (s.chance(1, 40))
            arg.subvalues.clear();

        model::Out expected = M::convert(arg);
        c.label(expected.kind == model::Out::Ok ? "valid" : expected.kind == model::Out::Error ? "invalid" : "open");
        c.label(std::is_signed_v<T> ? "signed" : "unsigned");
        c.nontrivial(text.size() > 1);
        c.labelIf(text.size() > 60, "long");

        auto judge = [&](bool ok, std::string const& repr, std::string const& error, char const* where) {
            if (expected.kind == model::Out::Open)
                return;
            if (expected.kind == model::Out::Ok)
            {
                if (!ok)
                    c.fail(std::string{where} + ": " + pbt::show(text) + " was rejected as " + type + ": " + error);
                else if (repr != expected.repr)
                    c.fail(std::string{where} + ": " + pbt::show(text) + " became " + repr + " as " + type);
            }
            else if (ok)
                c.fail(std::string{where} + ": " + pbt::show(text) + " was accepted as " + type + " " + repr);
            else if (!model::sameError(error, expected))
                c.fail(std::string{where} + ": error " + pbt::show(error, 300) + " instead of " + pbt::show(expected.error, 300));
        };

        std::vector<std::unique_ptr<gen::ExactText>> texts;
        coil::Vector<coil::StringView> views;
        for (auto const& t : arg.subvalues)
        {
            texts.push_back(std::make_unique<gen::ExactText>(t));
            views.pushBack(cx::view(*texts.back()));
        }
        coil::Value const value{views};

        if (arg.subvalues.size() == 1)
        {
            T v{};
            bool ok = coil::fromString(value.subvalues[0], v);
            if (ok != (expected.kind == model::Out::Ok) && expected.kind != model::Out::Open)
                c.fail(std::string{"fromString: "} + pbt::show(text) + (ok ? " was accepted" : " was rejected") + " as " + type);
            if (ok)
                judge(true, M::repr(v), "", "fromString");
        }
        {
            auto r = value.get<T>();
            judge(r.hasValue(), r ? M::repr(*r) : "", r ? "" : cx::str(r.error()), "Value::get");
        }
        {
            auto r = coil::TypeSerializer<std::optional<T>>::fromString(value);
            bool empty = arg.subvalues.empty() || (arg.subvalues.size() == 1 && arg.subvalues[0].empty());
            if (!empty && expected.kind == model::Out::Ok)
                c.expect(r.hasValue() && r->has_value() && M::repr(**r) == expected.repr, "optional differs");
        }
        {
            coil::Bindings bindings;
            unsigned calls = 0;
            std::string seen;
            switch (s.draw(3))
            {
            default:
            case 0:
                bindings["f"] = [&](T v) { calls++; seen = M::repr(v); return v; };
                break;
            case 1:
                bindings["f"] = [&](T const& v) -> T { calls++; seen = M::repr(v); return v; };
                break;
            case 2:
                bindings["f"] = [&](coil::Context, T v) { calls++; seen = M::repr(v); return static_cast<T const>(v); };
            }
            coil::ExecutionInput input;
            input.name = "f";
            input.arguments.pushBack(value);
            coil::ExecutionResult r = bindings.execute(coil::move(input));
            bool ok = r.errors.empty();
            judge(ok, seen, ok ? "" : cx::str(r.errors[0]), "execute");
            c.expect(calls == (ok ? 1u : 0u), "wrong number of calls");
            c.expect(ok == r.returnValue.hasValue(), "return value and errors");
            if (ok)
                c.expect(r.returnValue.hasValue() && cx::str(*r.returnValue) == seen, "the returned integer is not printed canonically");
            else
                c.expect(r.errors.size() == 1, "more than one error for one argument");
        }
        // written in a command
        grammar::Config config;
        if (arg.subvalues.size() == 1 && !cx::hasNul(text))
            if (auto piece = grammar::renderSingle(s, text, config, true))
            {
                coil::Bindings bindings;
                std::string seen;
                bindings["f"] = [&](T v) { seen = M::repr(v); };
                gen::ExactText command{"f " + piece->text};
                coil::ExecutionResult r = bindings.execute(cx::view(command));
                bool ok = r.errors.empty();
                judge(ok, seen, ok ? "" : cx::str(r.errors[0]), "execute text");
                c.label("as-command");
            }
    }
}

PBT_PROPERTY("C04",
             "per case: one of the 11 integer types, one value to print and read back, and one text (values of the type, limits of any width plus or minus 3, limits with a digit changed, up to 3000 digits or leading zeros, signs, garbage or NUL inserted anywhere, 0-4 subvalues) "
             "converted through fromString, Value::get, a bound function and a command text, compared with 128-bit reference arithmetic; non-trivial: the text has at least two characters",
             true)
{
    switch (s.draw(11))
    {
    default:
    case 0:
        return check<int>(s, c);
    case 1:
        return check<unsigned>(s, c);
    case 2:
        return check<char>(s, c);
    case 3:
        return check<signed char>(s, c);
    case 4:
        return check<unsigned char>(s, c);
    case 5:
        return check<short>(s, c);
    case 6:
        return check<unsigned short>(s, c);
    case 7:
        return check<long>(s, c);
    case 8:
        return check<unsigned long>(s, c);
    case 9:
        return check<long long>(s, c);
    case 10:
        return check<unsigned long long>(s, c);
    }
}

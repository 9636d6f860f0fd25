#include "coil/detail/StringConv.h"
#include "grammar.h"
#include "model.h"

namespace
{
    template<typename T>
    T anyFloat(pbt::Source& s)
    {
        switch (s.weighted({4, 4, 3, 2}))
        {
        default:
        case 0:
            return model::Model<T>::value(s);
        case 1:
        {
            if constexpr (std::is_same_v<T, float>)
            {
                uint32_t bits = static_cast<uint32_t>(s.draw(0));
                float f;
                std::memcpy(&f, &bits, 4);
                return f;
            }
            else if constexpr (std::is_same_v<T, double>)
            {
                uint64_t bits = s.draw(0);
                double f;
                std::memcpy(&f, &bits, 8);
                return f;
            }
            else
            {
                long double m = static_cast<long double>(s.draw(0) | (1ull << 63));
                return std::ldexp(s.flip() ? -m : m, static_cast<int>(s.draw(32700)) - 16380);
            }
        }
        case 2:
        {
            // k decimal digits times a power of ten, and its neighbours: around roundings of the printed form
            char buffer[64];
            std::snprintf(buffer, sizeof(buffer), "%s%llue%d", s.flip() ? "-" : "", static_cast<unsigned long long>(s.draw(20000000)), static_cast<int>(s.draw(60)) - 30);
            T v = static_cast<T>(std::strtold(buffer, nullptr));
            switch (s.draw(3))
            {
            case 1:
                return std::nextafter(v, std::numeric_limits<T>::infinity());
            case 2:
                return std::nextafter(v, -std::numeric_limits<T>::infinity());
            default:
                return v;
            }
        }
        case 3:
        {
            static T const special[] = {0, static_cast<T>(-0.0), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::max(),
                                        std::numeric_limits<T>::lowest(), std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(), static_cast<T>(1e-6), static_cast<T>(-1e-6), static_cast<T>(1.1e-6), static_cast<T>(0.9e-6),
                                        static_cast<T>(999999.5), static_cast<T>(1e6), static_cast<T>(99999.95), static_cast<T>(0.0001), static_cast<T>(0.00001)};
            return s.pick(special);
        }
        }
    }

    std::string scientific(std::string digits, int exponent, pbt::Source& s)
    {
        // the same number written in one of many ways: digits * 10^exponent
        switch (s.draw(4))
        {
        default:
        case 0:
            return digits + (exponent || s.chance(1, 4) ? std::string{s.flip() ? "e" : "E"} + (exponent >= 0 && s.flip() ? "+" : "") + std::to_string(exponent) : "");
        case 1:
        {
            size_t point = s.draw(digits.size() + 1);
            exponent += static_cast<int>(digits.size() - point);
            std::string r = digits.substr(0, point) + "." + digits.substr(point);
            return exponent ? r + "e" + std::to_string(exponent) : r;
        }
        case 2:
            if (exponent >= 0 && exponent < 400)
                return digits + std::string(static_cast<size_t>(exponent), '0') + (s.chance(1, 4) ? "." : "");
            if (exponent < 0 && exponent > -400)
            {
                size_t k = static_cast<size_t>(-exponent);
                if (digits.size() > k)
                    return digits.substr(0, digits.size() - k) + "." + digits.substr(digits.size() - k);
                return (s.flip() ? "0." : ".") + std::string(k - digits.size(), '0') + digits;
            }
            return digits + "e" + std::to_string(exponent);
        case 3:
            return digits + "e" + (exponent < 0 ? "-" : s.flip() ? "+" : "") + std::string(s.draw(5), '0') + std::to_string(exponent < 0 ? -exponent : exponent);
        }
    }

    template<typename T>
    std::string floatishText(pbt::Source& s)
    {
        std::string t;
        switch (s.weighted({4, 4, 3, 2, 1}))
        {
        default:
        case 0:
        {
            std::string digits;
            size_t const max = s.chance(1, 12) ? 800 : 25;
            for (size_t n = 1 + s.draw(max); n > 0; n--)
                digits += static_cast<char>('0' + (n > 40 ? n * 7 % 10 : s.draw(10)));
            int range = std::is_same_v<T, float> ? 50 : std::is_same_v<T, double> ? 330 : 5000;
            t = scientific(digits, s.flip() ? static_cast<int>(s.draw(20)) - 10 : static_cast<int>(s.draw(2 * static_cast<uint64_t>(range))) - range, s);
            break;
        }
        case 1:
        {
            // shortest and longer decimal forms of a value
            T v = anyFloat<T>(s);
            if (!std::isfinite(v))
                v = 1;
            char buffer[200];
            std::snprintf(buffer, sizeof(buffer), "%.*Lg", 1 + static_cast<int>(s.draw(40)), static_cast<long double>(std::fabs(v)));
            t = buffer;
            break;
        }
        case 2:
        {
            // exactly halfway between two neighbours (or one digit off it): correct rounding needs every digit
            using Wide = long double;
            if constexpr (std::is_same_v<T, long double>)
            {
                t = std::to_string(gen::u64(s));
            }
            else
            {
                T v = std::fabs(anyFloat<T>(s));
                if (!std::isfinite(v) || v < std::numeric_limits<T>::min() || v > static_cast<T>(1e30))
                    v = static_cast<T>(1 + s.draw(100000)) / 1024;
                T next = std::nextafter(v, std::numeric_limits<T>::infinity());
                Wide middle = (static_cast<Wide>(v) + static_cast<Wide>(next)) / 2;
                char buffer[2000];
                std::snprintf(buffer, sizeof(buffer), "%.1100Lf", middle);
                t = buffer;
                while (!t.empty() && t.back() == '0')
                    t.pop_back();
                if (s.chance(1, 2))
                    t += s.flip() ? "0000000001" : "0";
                else if (s.chance(1, 2) && t.back() != '.')
                    t.back()--;
            }
            break;
        }
        case 3:
        {
            // around the limits of the type
            T v = s.flip() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
            char buffer[128];
            std::snprintf(buffer, sizeof(buffer), "%.*Le", 4 + static_cast<int>(s.draw(30)), static_cast<long double>(v));
            t = buffer;
            size_t e = t.find('e');
            if (s.flip())
                t[s.draw(e)] = static_cast<char>('0' + s.draw(10));
            if (s.chance(1, 4))
                t.insert(e, std::to_string(s.draw(1000)));
            break;
        }
        case 4:
        {
            static char const* const words[] = {"inf", "-inf", "nan", "NAN", "infinity", "0x1p3", "1e", "e5", ".", "-", "+", "1.2.3", "1,5", "0x", "infinit", "1e+", "-.e1", "1_000", "nan(1", "1e5.5", "++1", "1d5"};
            t = s.pick(words);
            break;
        }
        }
        if (s.chance(1, 4))
            t.insert(0, s.flip() ? "-" : "+");
        if (s.chance(1, 6))
        {
            static char const* const garbage[] = {"f", "L", "x", " ", "e", ".", ",", "-", "+", "\t", "p1", "%", "i", "\xC2\xA0", "d"};
            size_t at = s.flip() ? t.size() : s.draw(t.size() + 1);
            std::string g = s.chance(1, 5) ? std::string(1, '\0') : s.chance(1, 5) ? std::string(1, gen::byteOf(s, gen::Alphabet::Any)) : s.pick(garbage);
            t.insert(at, g);
        }
        if (s.chance(1, 60))
            t = gen::text(s, 60);
        return t;
    }

    template<typename T>
    void check(pbt::Source& s, pbt::Case& c)
    {
        using M = model::Model<T>;
        std::string const type = M::name();
        c.note("type " + type);

        T const v = anyFloat<T>(s);
        {
            std::string expected = M::text(v);
            coil::String text = coil::TypeSerializer<T>::toString(v);
            std::string got = cx::str(text);
            c.note("print " + M::repr(v));
            bool near = model::nearThreshold(v);
            if (got != expected && !near)
                c.fail("printing the " + type + " " + M::repr(v) + " gave " + pbt::show(got) + " instead of " + expected);
            c.expect(near || cx::str(coil::toString(v)) == expected, "coil::toString differs");
            if (std::isfinite(v))
            {
                auto back = coil::TypeSerializer<T>::fromString(coil::Value{coil::StringView{text}});
                model::Out reference = model::floatFrom<T>(got);
                if (reference.kind == model::Out::Ok && (!back || M::repr(*back) != reference.repr))
                    c.fail("the printed " + type + " " + got + " does not read back");
            }
            coil::Bindings bindings;
            bindings["g"] = [&]() { return v; };
            coil::ExecutionResult r = bindings.execute("g");
            c.expect(r.returnValue.hasValue() && (near || cx::str(*r.returnValue) == expected), "a returned value is printed differently");
        }

        std::string const text = floatishText<T>(s);
        c.key(text);
        c.note("text " + pbt::show(text));
        cx::Arg arg{{text}};
        if (s.chance(1, 30))
            for (size_t n = s.draw(4); n > 0; n--)
                arg.subvalues.push_back(floatishText<T>(s));
        else if (s.chance(1, 60))
            arg.subvalues.clear();
        model::Out expected = M::convert(arg);
        c.label(expected.kind == model::Out::Ok ? "valid" : expected.kind == model::Out::Error ? "invalid" : "open");
        c.nontrivial(text.size() > 2);
        c.labelIf(text.size() > 40, "long");

        auto judge = [&](bool ok, std::string const& repr, std::string const& error, char const* where) {
            if (expected.kind == model::Out::Open)
                return;
            if (expected.kind == model::Out::Ok)
            {
                if (!ok)
                    c.fail(std::string{where} + ": " + pbt::show(text) + " was rejected as " + type + ": " + error);
                else if (repr != expected.repr)
                    c.fail(std::string{where} + ": " + pbt::show(text) + " became " + repr + " as " + type + " instead of " + expected.repr);
            }
            else if (ok)
                c.fail(std::string{where} + ": " + pbt::show(text) + " was accepted as " + type + " " + repr);
            else if (!model::sameError(error, expected))
                c.fail(std::string{where} + ": error " + pbt::show(error, 300) + " instead of " + pbt::show(expected.error, 300));
        };

        std::vector<std::unique_ptr<gen::ExactText>> texts;
        coil::Vector<coil::StringView> views;
        for (auto const& t : arg.subvalues)
        {
            texts.push_back(std::make_unique<gen::ExactText>(t));
            views.pushBack(cx::view(*texts.back()));
        }
        coil::Value const value{views};
        if (arg.subvalues.size() == 1)
        {
            T x{};
            bool ok = coil::fromString(value.subvalues[0], x);
            if (expected.kind != model::Out::Open && ok != (expected.kind == model::Out::Ok))
                c.fail(std::string{"fromString: "} + pbt::show(text) + (ok ? " was accepted" : " was rejected") + " as " + type);
            if (ok)
                judge(true, M::repr(x), "", "fromString");
        }
        {
            coil::Bindings bindings;
            unsigned calls = 0;
            std::string seen;
            if (s.flip())
                bindings["f"] = [&](T x) { calls++; seen = M::repr(x); };
            else
                bindings["f"] = [&](coil::Context, T const& x) { calls++; seen = M::repr(x); };
            coil::ExecutionInput input;
            input.name = "f";
            input.arguments.pushBack(value);
            coil::ExecutionResult r = bindings.execute(coil::move(input));
            bool ok = r.errors.empty();
            judge(ok, seen, ok ? "" : cx::str(r.errors[0]), "execute");
            c.expect(calls == (ok ? 1u : 0u), "wrong number of calls");
            c.expect(ok || r.errors.size() == 1, "more than one error for one argument");
        }
        if (arg.subvalues.size() == 1 && !cx::hasNul(text))
            if (auto piece = grammar::renderSingle(s, text, grammar::Config{}, true))
            {
                coil::Bindings bindings;
                std::string seen;
                bindings["f"] = [&](T x) { seen = M::repr(x); };
                gen::ExactText command{"f " + piece->text};
                coil::ExecutionResult r = bindings.execute(cx::view(command));
                bool ok = r.errors.empty();
                judge(ok, seen, ok ? "" : cx::str(r.errors[0]), "execute text");
            }
    }
}

PBT_PROPERTY("C05",
             "per case: float, double or long double; one value of any bit pattern (plus neighbours of short decimals and special values) to print and read back, and one text (1-800 digits in plain, fixed and exponent notation, exact midpoints of neighbouring values, limits of the type, overflow, garbage or NUL anywhere, 0-4 subvalues) "
             "converted through fromString, a bound function and a command text, compared with std::from_chars (strtold for long double) under a strict grammar; non-trivial: the text has at least three characters",
             true)
{
    switch (s.draw(3))
    {
    default:
    case 0:
        return check<double>(s, c);
    case 1:
        return check<float>(s, c);
    case 2:
        return check<long double>(s, c);
    }
}

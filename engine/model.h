// What each supported type makes of a value: an independent model of conversion, printing and naming, with generators of
// valid and invalid values. The model judges 'open' what the properties leave unspecified.
#pragma once

#include "coilx.h"
#include "gen.h"

#include <charconv>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <limits>
#include <optional>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>

namespace model
{
    struct Out
    {
        enum Kind
        {
            Ok,
            Error,
            Open, // unspecified: either is fine
        };
        Kind kind = Error;
        std::string repr;   // exact representation of the converted value
        std::string error;  // message
        bool exact = true;  // the message is determined
    };

    inline Out ok(std::string repr)
    {
        return {Out::Ok, std::move(repr), {}, true};
    }
    inline Out bad(cx::Arg const& a, std::string error)
    {
        return {Out::Error, {}, std::move(error), !cx::hasNul(a)};
    }
    inline Out open()
    {
        return {Out::Open, {}, {}, false};
    }

    // 'actual' is what the library reported for a value the model rejects
    inline bool sameError(std::string const& actual, Out const& out)
    {
        if (out.kind != Out::Error)
            return out.kind == Out::Open;
        return out.exact ? actual == out.error : !actual.empty();
    }

    template<typename T, typename = void>
    struct Model;

    template<typename T>
    struct IntName;
#define MODEL_INT_NAME(T)                    \
    template<>                               \
    struct IntName<T>                        \
    {                                        \
        static std::string name()            \
        {                                    \
            return #T;                       \
        }                                    \
    }
    MODEL_INT_NAME(char);
    MODEL_INT_NAME(signed char);
    MODEL_INT_NAME(unsigned char);
    MODEL_INT_NAME(short);
    MODEL_INT_NAME(unsigned short);
    MODEL_INT_NAME(int);
    MODEL_INT_NAME(unsigned int);
    MODEL_INT_NAME(long);
    MODEL_INT_NAME(unsigned long);
    MODEL_INT_NAME(long long);
    MODEL_INT_NAME(unsigned long long);
#undef MODEL_INT_NAME

    template<typename T>
    constexpr bool isInteger = std::is_integral_v<T> && !std::is_same_v<T, bool>;

    template<typename T>
    std::string aliasName()
    {
        // only the types that the fixed-width aliases stand for on this platform; char and (unsigned) long long are none
        if (std::is_same_v<T, char>)
            return {};
        if (!std::is_same_v<T, int8_t> && !std::is_same_v<T, uint8_t> && !std::is_same_v<T, int16_t> && !std::is_same_v<T, uint16_t> && !std::is_same_v<T, int32_t> && !std::is_same_v<T, uint32_t> && !std::is_same_v<T, int64_t> && !std::is_same_v<T, uint64_t>)
            return {};
        return std::string{std::is_signed_v<T> ? "" : "u"} + "int" + std::to_string(sizeof(T) * 8);
    }

    inline bool isSpace(char ch)
    {
        return ch == ' ' || (ch >= '\t' && ch <= '\r');
    }
    inline bool isDigit(char ch)
    {
        return ch >= '0' && ch <= '9';
    }

    // -1: not an integer text; otherwise the value, saturated far outside every range
    struct IntText
    {
        bool valid = false;
        bool negative = false;
        bool sign = false;
        __int128 value = 0;
    };
    inline IntText integerText(std::string_view t)
    {
        IntText r;
        size_t i = 0;
        if (i < t.size() && (t[i] == '-' || t[i] == '+'))
        {
            r.sign = true;
            r.negative = t[i++] == '-';
        }
        if (i == t.size())
            return r;
        __int128 const cap = static_cast<__int128>(1) << 100;
        for (; i < t.size(); i++)
        {
            if (!isDigit(t[i]))
                return r;
            r.value = r.value * 10 + (t[i] - '0');
            if (r.value > cap)
                r.value = cap;
        }
        if (r.negative)
            r.value = -r.value;
        r.valid = true;
        return r;
    }

    template<typename T>
    Out integerFrom(std::string const& t)
    {
        if (!t.empty() && isSpace(t[0]))
        {
            // leading white space is left open - unless what follows is no value of the type either
            size_t i = 0;
            while (i < t.size() && isSpace(t[i]))
                i++;
            IntText rest = integerText(std::string_view{t}.substr(i));
            if (rest.valid && rest.value >= std::numeric_limits<T>::min() && rest.value <= std::numeric_limits<T>::max())
                return open();
            return {};
        }
        IntText v = integerText(t);
        if (!v.valid)
            return {};
        if (v.negative && !std::is_signed_v<T> && v.value == 0)
            return open(); // "-0"
        if (v.value < std::numeric_limits<T>::min() || v.value > std::numeric_limits<T>::max())
            return {};
        return ok(std::is_signed_v<T> ? std::to_string(static_cast<long long>(v.value)) : std::to_string(static_cast<unsigned long long>(v.value)));
    }

    template<typename T>
    struct Model<T, std::enable_if_t<isInteger<T>>>
    {
        static std::string name()
        {
#if COIL_CONFIG_TYPE_NAME_USE_INTEGER_ALIAS
            if (auto alias = aliasName<T>(); !alias.empty())
                return alias;
#endif
            return IntName<T>::name();
        }
        static Out convert(cx::Arg const& a)
        {
            if (a.subvalues.size() != 1)
                return bad(a, cx::countError(a, name()));
            Out r = integerFrom<T>(a.subvalues[0]);
            return r.kind == Out::Error ? bad(a, cx::conversionError(a, name())) : r;
        }
        static std::string repr(T v) { return std::is_signed_v<T> ? std::to_string(static_cast<long long>(v)) : std::to_string(static_cast<unsigned long long>(v)); }
        static std::string text(T v) { return repr(v); }
        static T value(pbt::Source& s) { return gen::integer<T>(s); }
        static cx::Arg arg(pbt::Source& s, bool valid)
        {
            std::string t = repr(value(s));
            if (s.chance(1, 6))
            {
                size_t at = t[0] == '-' ? 1 : 0;
                t.insert(at, std::string(s.chance(1, 6) ? gen::size(s, 400) : s.draw(4), '0'));
                if (at == 0 && s.flip())
                    t = "+" + t;
            }
            if (valid)
                return {{t}};
            switch (s.draw(7))
            {
            case 0:
                t += s.flip() ? "x" : ".0";
                break;
            case 1:
                t = "";
                break;
            case 2:
                t = (std::is_signed_v<T> ? "-" : "") + repr(std::numeric_limits<T>::max()) + std::to_string(s.draw(10));
                break;
            case 3:
                t += gen::text(s, gen::Alphabet::Syntax, 20);
                break;
            case 4:
                t = gen::text(s, 100);
                break;
            case 5:
                return {{t, t}};
            default:
                return {};
            }
            return {{t}};
        }
    };

    // ---- floating point ----

    // [+-] (digits [. digits] | . digits) [e [+-] digits]
    inline bool decimalText(std::string_view t)
    {
        size_t i = 0;
        if (i < t.size() && (t[i] == '-' || t[i] == '+'))
            i++;
        size_t digits = 0;
        while (i < t.size() && isDigit(t[i]))
            i++, digits++;
        if (i < t.size() && t[i] == '.')
        {
            i++;
            while (i < t.size() && isDigit(t[i]))
                i++, digits++;
        }
        if (digits == 0)
            return false;
        if (i < t.size() && (t[i] == 'e' || t[i] == 'E'))
        {
            i++;
            if (i < t.size() && (t[i] == '-' || t[i] == '+'))
                i++;
            size_t exponent = 0;
            while (i < t.size() && isDigit(t[i]))
                i++, exponent++;
            if (exponent == 0)
                return false;
        }
        return i == t.size();
    }

    template<typename T>
    std::string floatRepr(T v)
    {
        if (std::isnan(v))
            return "nan";
        char buffer[80];
        std::snprintf(buffer, sizeof(buffer), "%La", static_cast<long double>(v));
        return buffer;
    }

    // special notations that printf writes and strtod reads, and hexadecimal: left open
    inline bool exoticFloat(std::string t)
    {
        size_t i = 0;
        if (i < t.size() && (t[i] == '-' || t[i] == '+'))
            i++;
        std::string rest = t.substr(i);
        for (char& ch : rest)
            ch = static_cast<char>(ch >= 'A' && ch <= 'Z' ? ch - 'A' + 'a' : ch);
        if (rest == "inf" || rest == "infinity" || rest == "nan")
            return true;
        if (rest.rfind("nan(", 0) == 0 && rest.back() == ')')
        {
            for (size_t k = 4; k + 1 < rest.size(); k++)
                if (!isDigit(rest[k]) && !(rest[k] >= 'a' && rest[k] <= 'z') && rest[k] != '_')
                    return false;
            return true;
        }
        if (rest.rfind("0x", 0) == 0 && rest.size() > 2)
            return rest.find_first_not_of("0123456789abcdef.p+-", 2) == std::string::npos;
        return false;
    }

    // reads a decimal text independently of the C library where possible
    template<typename T>
    bool readDecimal(std::string const& t, T& value, bool& overflow, bool& tiny)
    {
        overflow = tiny = false;
        bool zero = true;
        for (char ch : t)
        {
            if (ch == 'e' || ch == 'E')
                break;
            if (ch >= '1' && ch <= '9')
                zero = false;
        }
        if constexpr (!std::is_same_v<T, long double>)
        {
            std::string u = t[0] == '+' ? t.substr(1) : t;
            auto [end, ec] = std::from_chars(u.data(), u.data() + u.size(), value);
            if (end != u.data() + u.size())
                return false;
            if (ec != std::errc{})
            {
                char* e = nullptr;
                double magnitude = std::fabs(static_cast<double>(std::strtold(t.c_str(), &e)));
                overflow = magnitude > 1;
                tiny = !overflow;
                return true;
            }
        }
        else
        {
            char* e = nullptr;
            value = std::strtold(t.c_str(), &e);
            if (*e)
                return false;
            overflow = std::isinf(value);
        }
        tiny = !zero && std::fabs(value) <= std::numeric_limits<T>::min();
        return true;
    }

    template<typename T>
    Out floatFrom(std::string const& t)
    {
        if (t.empty() || cx::hasNul(t))
            return {};
        size_t i = 0;
        while (i < t.size() && isSpace(t[i]))
            i++;
        std::string body = t.substr(i);
        if (exoticFloat(body))
            return open();
        if (!decimalText(body))
            return {};
        T value{};
        bool overflow = false, tiny = false;
        if (!readDecimal(body, value, overflow, tiny))
            return open(); // cannot happen
        if (overflow)
            return {};
        if (tiny || i > 0)
            return open();
        return ok(floatRepr(value));
    }

    template<typename T>
    std::string floatText(T v)
    {
        // "below 1e-6": next to the threshold both forms are right
        if (v > -1e-6L && v < 1e-6L)
            return "0";
        char buffer[80];
        std::snprintf(buffer, sizeof(buffer), "%Lg", static_cast<long double>(v));
        return buffer;
    }
    template<typename T>
    bool nearThreshold(T v)
    {
        long double a = std::fabs(static_cast<long double>(v));
        return a > 1e-6L * (1 - 1e-15L) && a < 1e-6L * (1 + 1e-15L);
    }

    template<typename T>
    struct FloatName
    {
        static std::string name() { return std::is_same_v<T, float> ? "float" : std::is_same_v<T, double> ? "double" : "long double"; }
    };

    template<typename T>
    struct Model<T, std::enable_if_t<std::is_floating_point_v<T>>>
    {
        static std::string name() { return FloatName<T>::name(); }
        static Out convert(cx::Arg const& a)
        {
            if (a.subvalues.size() != 1)
                return bad(a, cx::countError(a, name()));
            Out r = floatFrom<T>(a.subvalues[0]);
            return r.kind == Out::Error ? bad(a, cx::conversionError(a, name())) : r;
        }
        static std::string repr(T v) { return floatRepr(v); }
        static std::string text(T v) { return floatText(v); }
        static T value(pbt::Source& s)
        {
            switch (s.draw(3))
            {
            case 0:
                return static_cast<T>(gen::i64(s));
            case 1:
                return static_cast<T>(gen::i64(s)) / static_cast<T>(1 + s.draw(100000));
            default:
                return std::ldexp(static_cast<T>(gen::i64(s)), static_cast<int>(s.draw(120)) - 60);
            }
        }
        static cx::Arg arg(pbt::Source& s, bool valid)
        {
            std::string t;
            if (s.chance(1, 4))
            {
                char buffer[128];
                std::snprintf(buffer, sizeof(buffer), s.flip() ? "%.17Lg" : "%.21Le", static_cast<long double>(value(s)));
                t = buffer;
            }
            else
            {
                t = s.chance(1, 4) ? "-" : s.chance(1, 8) ? "+" : "";
                t += std::to_string(gen::u64(s));
                if (s.flip())
                    t += "." + std::to_string(gen::u64(s));
                if (s.chance(1, 6))
                    t += "e" + std::to_string(static_cast<int>(s.draw(40)) - 20);
            }
            if (valid)
                return {{t}};
            switch (s.draw(6))
            {
            case 0:
                t += s.flip() ? "f" : "..";
                break;
            case 1:
                t = "";
                break;
            case 2:
                t += "e9999";
                break;
            case 3:
                t += gen::text(s, gen::Alphabet::Syntax, 20);
                break;
            case 4:
                t = gen::text(s, 100);
                break;
            default:
                return s.flip() ? cx::Arg{{t, t}} : cx::Arg{};
            }
            return {{t}};
        }
    };

    // ---- bool ----

    template<>
    struct Model<bool>
    {
        static std::string name() { return "bool"; }
        static Out convert(cx::Arg const& a)
        {
            if (a.subvalues.size() != 1)
                return bad(a, cx::countError(a, name()));
            std::string t = a.subvalues[0];
            for (char& ch : t)
                ch = static_cast<char>(ch >= 'A' && ch <= 'Z' ? ch - 'A' + 'a' : ch);
            if (t == "1" || t == "true")
                return ok("true");
            if (t == "0" || t == "false")
                return ok("false");
            return bad(a, cx::conversionError(a, name()));
        }
        static std::string repr(bool v) { return v ? "true" : "false"; }
        static std::string text(bool v) { return repr(v); }
        static bool value(pbt::Source& s) { return s.flip(); }
        static cx::Arg arg(pbt::Source& s, bool valid)
        {
            static char const* const words[] = {"1", "0", "true", "false"};
            std::string t = words[s.draw(4)];
            for (char& ch : t)
                if (ch >= 'a' && s.chance(1, 4))
                    ch = static_cast<char>(ch - 'a' + 'A');
            if (valid)
                return {{t}};
            switch (s.draw(6))
            {
            case 0:
                t += gen::byteOf(s, gen::alphabet(s));
                break;
            case 1:
                t = t.substr(1);
                break;
            case 2:
                t[s.draw(t.size())] ^= static_cast<char>(1u << s.draw(8));
                break;
            case 3:
                t = gen::text(s, 20);
                break;
            case 4:
                t = s.flip() ? "yes" : "2";
                break;
            default:
                return s.flip() ? cx::Arg{{t, t}} : cx::Arg{};
            }
            return {{t}};
        }
    };

    // ---- texts ----

    template<typename T>
    struct TextModel
    {
        static std::string name() { return "string"; }
        static Out convert(cx::Arg const& a)
        {
            if (a.subvalues.size() != 1)
                return bad(a, cx::countError(a, name()));
            return ok(a.subvalues[0]);
        }
        static cx::Arg arg(pbt::Source& s, bool valid)
        {
            if (valid)
                return {{gen::text(s, 300)}};
            cx::Arg a;
            if (s.flip())
                for (size_t n = 2 + s.draw(4); n > 0; n--)
                    a.subvalues.push_back(gen::text(s, 20));
            return a;
        }
    };
    template<>
    struct Model<coil::String> : TextModel<coil::String>
    {
        static std::string repr(coil::String const& v) { return cx::str(v); }
        static std::string text(coil::String const& v) { return cx::str(v); }
        static coil::String value(pbt::Source& s) { return cx::own(gen::text(s, 300)); }
    };
    template<>
    struct Model<coil::StringView> : TextModel<coil::StringView>
    {
        static std::string repr(coil::StringView v) { return cx::str(v); }
        static std::string text(coil::StringView v) { return cx::str(v); }
    };
    template<>
    struct Model<std::string> : TextModel<std::string>
    {
        static std::string repr(std::string const& v) { return v; }
        static std::string text(std::string const& v) { return v; }
        static std::string value(pbt::Source& s) { return gen::text(s, 300); }
    };
    template<>
    struct Model<std::string_view> : TextModel<std::string_view>
    {
        static std::string repr(std::string_view v) { return std::string{v}; }
        static std::string text(std::string_view v) { return std::string{v}; }
    };

    inline std::string listRepr(std::vector<std::string> const& parts)
    {
        std::string r = "[" + std::to_string(parts.size()) + ":";
        for (auto const& p : parts)
            r += std::to_string(p.size()) + "'" + p + "'";
        return r + "]";
    }

    // ---- raw values ----

    template<>
    struct Model<coil::Value>
    {
        static std::string name() { return "coil::Value"; }
        static Out convert(cx::Arg const& a) { return ok(listRepr(a.subvalues)); }
        static std::string repr(coil::Value const& v) { return listRepr(cx::plain(v).subvalues); }
        static std::string text(coil::Value const& v) { return cx::join(cx::plain(v).subvalues, " "); }
        static cx::Arg arg(pbt::Source& s, bool)
        {
            cx::Arg a;
            for (size_t n = s.chance(1, 3) ? s.draw(5) : 1; n > 0; n--)
                a.subvalues.push_back(gen::text(s, 40));
            return a;
        }
    };

    // ---- std::vector, std::optional ----

    template<typename T>
    struct Model<std::vector<T>>
    {
        static std::string name() { return "vector<" + Model<T>::name() + ">"; }
        static Out convert(cx::Arg const& a)
        {
            std::vector<std::string> parts;
            bool anyOpen = false;
            for (auto const& sub : a.subvalues)
            {
                Out r = Model<T>::convert({{sub}});
                if (r.kind == Out::Error)
                {
                    Out e = bad(a, cx::conversionError(a, name(), r.error));
                    e.exact = e.exact && r.exact && !anyOpen;
                    return e;
                }
                anyOpen = anyOpen || r.kind == Out::Open;
                parts.push_back(r.repr);
            }
            return anyOpen ? open() : ok(listRepr(parts));
        }
        static std::string repr(std::vector<T> const& v)
        {
            std::vector<std::string> parts;
            for (T const& e : v)
                parts.push_back(Model<T>::repr(e));
            return listRepr(parts);
        }
        static std::string text(std::vector<T> const& v)
        {
            std::vector<std::string> parts;
            for (T const& e : v)
                parts.push_back(Model<T>::text(e));
            return "[" + cx::join(parts, ", ") + "]";
        }
        static std::vector<T> value(pbt::Source& s)
        {
            std::vector<T> r;
            size_t const max = s.chance(1, 20) ? 300 : 6;
            for (size_t n = 0; s.more(max > 6 ? 80 : 2, n, max); n++)
                r.push_back(Model<T>::value(s));
            return r;
        }
        static cx::Arg arg(pbt::Source& s, bool valid)
        {
            cx::Arg a;
            size_t const max = s.chance(1, 20) ? 300 : 6;
            for (size_t n = 0; s.more(max > 6 ? 80 : 2, n, max) || (!valid && n == 0); n++)
            {
                cx::Arg e = Model<T>::arg(s, true);
                a.subvalues.push_back(e.subvalues.empty() ? std::string{} : e.subvalues[0]);
            }
            if (!valid)
                for (size_t n = 1 + (s.chance(1, 4) ? 1 : 0); n > 0; n--)
                {
                    cx::Arg e = Model<T>::arg(s, false);
                    a.subvalues[s.draw(a.subvalues.size())] = e.subvalues.empty() ? std::string{} : e.subvalues[0];
                }
            return a;
        }
    };

    template<typename T>
    struct Model<std::optional<T>>
    {
        static std::string name() { return "optional<" + Model<T>::name() + ">"; }
        static Out convert(cx::Arg const& a)
        {
            if (a.subvalues.empty() || (a.subvalues.size() == 1 && a.subvalues[0].empty()))
                return ok("none");
            Out r = Model<T>::convert(a);
            if (r.kind == Out::Ok)
                r.repr = "some " + r.repr;
            if (r.kind == Out::Error)
            {
                bool exact = r.exact;
                r = bad(a, cx::conversionError(a, name(), r.error));
                r.exact = r.exact && exact;
            }
            return r;
        }
        static std::string repr(std::optional<T> const& v) { return v ? "some " + Model<T>::repr(*v) : "none"; }
        static std::string text(std::optional<T> const& v) { return v ? Model<T>::text(*v) : ""; }
        static std::optional<T> value(pbt::Source& s) { return s.chance(1, 3) ? std::optional<T>{} : std::optional<T>{Model<T>::value(s)}; }
        static cx::Arg arg(pbt::Source& s, bool valid)
        {
            if (valid && s.chance(1, 4))
                return s.flip() ? cx::Arg{{""}} : cx::Arg{};
            return Model<T>::arg(s, valid);
        }
    };
}

// ---- user types ----

namespace user
{
    struct Point
    {
        int x = 0, y = 0;
    };
    enum class Color
    {
        Red,
        Green,
        Blue,
    };
    // sees whole values
    struct Blob
    {
        std::vector<std::string> parts;
    };

    // where conversions of Blob record what they were given, if anywhere
    inline std::vector<std::vector<std::string>>*& seen()
    {
        static thread_local std::vector<std::vector<std::string>>* v = nullptr;
        return v;
    }
}

namespace coil
{
    template<>
    struct TypeSerializer<user::Point>
    {
        static Expected<user::Point, String> fromString(Value const& input)
        {
            if (input.subvalues.size() != 2)
                return errors::createMismatchedSubvaluesError<user::Point>(input, 2);
            auto x = TypeSerializer<int>::fromString(input.subvalues[0]);
            if (!x)
                return errors::createGenericError<user::Point>(input, x.error());
            auto y = TypeSerializer<int>::fromString(input.subvalues[1]);
            if (!y)
                return errors::createGenericError<user::Point>(input, y.error());
            return user::Point{*x, *y};
        }
        static String toString(user::Point const& v) { return sprintf("%d/%d", v.x, v.y); }
    };
    template<>
    struct TypeSerializer<user::Color>
    {
        static Expected<user::Color, String> fromString(Value const& input)
        {
            if (input.subvalues.size() != 1)
                return errors::createMismatchedSubvaluesError<user::Color>(input, 1);
            std::string t = cx::str(input.subvalues[0]);
            if (t == "red")
                return user::Color::Red;
            if (t == "green")
                return user::Color::Green;
            if (t == "blue")
                return user::Color::Blue;
            return errors::createGenericError<user::Color>(input, "no such color");
        }
        static String toString(user::Color const& v) { return v == user::Color::Red ? "red" : v == user::Color::Green ? "green" : "blue"; }
    };
    template<>
    struct TypeSerializer<user::Blob>
    {
        static Expected<user::Blob, String> fromString(Value const& input)
        {
            user::Blob b{cx::plain(input).subvalues};
            if (user::seen())
                user::seen()->push_back(b.parts);
            return b;
        }
        static String toString(user::Blob const& v) { return cx::own(cx::join(v.parts, "~")); }
    };
}
COIL_CREATE_TYPE_NAME(user::Point, "Point");
COIL_CREATE_TYPE_NAME(user::Color, "Color");
COIL_CREATE_TYPE_NAME(user::Blob, "my::Blob type");

namespace model
{
    template<>
    struct Model<user::Point>
    {
        static std::string name() { return "Point"; }
        static Out convert(cx::Arg const& a)
        {
            if (a.subvalues.size() != 2)
                return bad(a, cx::countError(a, name(), 2));
            Out x = Model<int>::convert({{a.subvalues[0]}}), y = Model<int>::convert({{a.subvalues[1]}});
            if (x.kind == Out::Error || y.kind == Out::Error)
            {
                bool xs = x.kind != Out::Ok;
                Out r = bad(a, cx::conversionError(a, name(), xs ? x.error : y.error));
                r.exact = r.exact && x.kind != Out::Open;
                return r;
            }
            return x.kind == Out::Open || y.kind == Out::Open ? open() : ok(x.repr + "," + y.repr);
        }
        static std::string repr(user::Point const& v) { return std::to_string(v.x) + "," + std::to_string(v.y); }
        static std::string text(user::Point const& v) { return std::to_string(v.x) + "/" + std::to_string(v.y); }
        static user::Point value(pbt::Source& s)
        {
            int x = gen::integer<int>(s);
            return {x, gen::integer<int>(s)};
        }
        static cx::Arg arg(pbt::Source& s, bool valid)
        {
            cx::Arg a;
            size_t n = valid || s.flip() ? 2 : s.draw(5);
            for (size_t i = 0; i < n; i++)
            {
                cx::Arg e = Model<int>::arg(s, valid || s.flip());
                a.subvalues.push_back(e.subvalues.empty() ? std::string{} : e.subvalues[0]);
            }
            return a;
        }
    };
    template<>
    struct Model<user::Color>
    {
        static std::string name() { return "Color"; }
        static Out convert(cx::Arg const& a)
        {
            if (a.subvalues.size() != 1)
                return bad(a, cx::countError(a, name()));
            std::string const& t = a.subvalues[0];
            if (t == "red" || t == "green" || t == "blue")
                return ok(t);
            return bad(a, cx::conversionError(a, name(), "no such color"));
        }
        static std::string repr(user::Color v) { return v == user::Color::Red ? "red" : v == user::Color::Green ? "green" : "blue"; }
        static std::string text(user::Color v) { return repr(v); }
        static user::Color value(pbt::Source& s) { return static_cast<user::Color>(s.draw(3)); }
        static cx::Arg arg(pbt::Source& s, bool valid)
        {
            if (valid)
                return {{text(value(s))}};
            return s.chance(1, 4) ? cx::Arg{{"red", "green"}} : cx::Arg{{gen::text(s, 30)}};
        }
    };
    template<>
    struct Model<user::Blob>
    {
        static std::string name() { return "my::Blob type"; }
        static Out convert(cx::Arg const& a) { return ok(listRepr(a.subvalues)); }
        static std::string repr(user::Blob const& v) { return listRepr(v.parts); }
        static std::string text(user::Blob const& v) { return cx::join(v.parts, "~"); }
        static user::Blob value(pbt::Source& s)
        {
            user::Blob b;
            for (size_t n = s.draw(4); n > 0; n--)
                b.parts.push_back(gen::text(s, 30));
            return b;
        }
        static cx::Arg arg(pbt::Source& s, bool)
        {
            cx::Arg a;
            for (size_t n = s.draw(4); n > 0; n--)
                a.subvalues.push_back(gen::text(s, 30));
            return a;
        }
    };

    // coil::move(coil::Value const&) and the like make temporaries; parameter types are decayed
    template<typename T>
    using Decay = std::remove_cv_t<std::remove_reference_t<T>>;
}

// Calls that fit the commands of the battery.
#pragma once

#include "battery.h"
#include "grammar.h"
#include "model.h"

namespace battery
{
    template<typename... Ts>
    std::vector<cx::Arg> argsOf(pbt::Source& s, bool valid)
    {
        std::vector<cx::Arg> r;
        (r.push_back(model::Model<Ts>::arg(s, valid || !s.chance(1, 3))), ...);
        return r;
    }

    struct Fitting
    {
        char const* name;
        std::vector<cx::Arg> (*args)(pbt::Source&, bool);
    };
    inline std::vector<Fitting> const& fitting()
    {
        using S = std::string;
        static std::vector<Fitting> const v = {
            {"f", &argsOf<>},
            {"i", &argsOf<int>},
            {"s", &argsOf<S>},
            {"v", &argsOf<std::vector<int>>},
            {"ctx", &argsOf<coil::StringView>},
            {"var", &argsOf<int>},
            {"named", &argsOf<>},
            {"u", &argsOf<unsigned long long>},
            {"c", &argsOf<unsigned char, signed char>},
            {"d", &argsOf<double, float, long double>},
            {"b", &argsOf<bool>},
            {"sv", &argsOf<std::string_view>},
            {"vs", &argsOf<std::vector<S>>},
            {"oi", &argsOf<std::optional<int>>},
            {"ov", &argsOf<std::optional<std::vector<S>>>},
            {"val", &argsOf<coil::Value>},
            {"var", &argsOf<>},
            {"vec", &argsOf<std::vector<int>>},
            {"vec", &argsOf<>},
            {"fixed", &argsOf<>},
            {"fixed", &argsOf<int>},
            {"real", &argsOf<double>},
            {"text", &argsOf<S>},
            {"prop", &argsOf<unsigned char>},
            {"prop", &argsOf<>},
            {"pod", &argsOf<int>},
            {"podtext", &argsOf<>},
            {"podtext", &argsOf<S>},
            {"over", &argsOf<>},
            {"over", &argsOf<int>},
            {"over", &argsOf<coil::String, short>},
            {"over", &argsOf<bool, long, char>},
            {"cs", &argsOf<coil::String>},
            {"all", &argsOf<bool, char, short, int, long, long long, float, coil::String, S>},
            {"my func", &argsOf<>},
            {"l", &argsOf<std::vector<bool>, std::optional<S>>},
        };
        return v;
    }

    inline cx::Input call(pbt::Source& s, bool valid)
    {
        Fitting const& f = s.pick(fitting());
        cx::Input in;
        in.name = f.name;
        in.args = f.args(s, valid);
        if (in.name == "named" || s.chance(1, 6))
        {
            static char const* const keys[] = {"b", "a", "c", "d", "", "ab", "b "};
            for (size_t n = 0; s.more(2, n, 8); n++)
                in.named.push_back({s.pick(keys), s.flip() ? argsOf<int>(s, valid)[0] : s.flip() ? argsOf<std::string>(s, valid)[0] : argsOf<std::vector<double>>(s, valid)[0]});
        }
        return in;
    }

    // as a text, if the configuration can carry it; otherwise what it can carry
    inline std::string write(pbt::Source& s, cx::Input const& in, grammar::Config const& config)
    {
        auto name = grammar::renderSingle(s, in.name, config, false);
        std::string text = grammar::spaces(s, config, 0) + (name ? name->text : in.name);
        size_t k = 0;
        auto named = [&] {
            auto key = grammar::renderSingle(s, in.named[k].key, config, false);
            auto value = grammar::renderArg(s, in.named[k].value, config);
            if (key && value)
                text += grammar::spaces(s, config, 1) + key->text + grammar::spaces(s, config, 0) + "=" + grammar::spaces(s, config, 0) + value->text;
            k++;
        };
        for (auto const& a : in.args)
        {
            while (k < in.named.size() && s.chance(1, 3))
                named();
            if (auto p = grammar::renderArg(s, a, config))
                text += grammar::spaces(s, config, 1) + p->text;
        }
        while (k < in.named.size())
            named();
        return text + grammar::spaces(s, config, 0);
    }
}

// A registry with commands of every supported kind of signature; all of them are pure functions of their arguments.
#pragma once

#include "coilx.h"

#include <list>

namespace battery
{
    struct Pod
    {
        int x = 0;
        int add(int v) const { return x + v; }
        std::string const& text() const { return name; }
        std::string name = "pod";
    };

    struct State
    {
        int number = 7;
        unsigned char small = 3;
        double real = 0.5;
        bool flag = false;
        std::string text = "initial";
        std::vector<int> list{1, 2};
        int const fixed = 42;
        Pod pod;
    };

    inline char const* const names[] = {"f", "i", "u", "c", "d", "b", "s", "v", "sv", "vs", "oi", "ov", "val", "ctx", "named", "var", "vec", "fixed", "prop", "pod", "podtext", "over", "cs", "all", "real", "text", "my func", "l"};

    inline void fill(coil::Bindings& b, State& st)
    {
        b["f"] = [] {};
        b["i"] = [](int v) { return v; };
        b["u"] = [](unsigned long long v) { return v; };
        b["c"] = [](unsigned char v, signed char w) { return v + w; };
        b["d"] = [](double v, float w, long double x) { return static_cast<double>(v + static_cast<double>(w) + static_cast<double>(x)); };
        b["b"] = [](bool v) { return !v; };
        b["s"] = [](std::string v) { return v; };
        b["v"] = [](std::vector<int> v) { return v; };
        b["sv"] = [](std::string_view v) { return v; };
        b["vs"] = [](std::vector<std::string> v) { return v; };
        b["oi"] = [](std::optional<int> v) { return v; };
        b["ov"] = [](std::optional<std::vector<std::string>> v) { return v; };
        b["val"] = [](coil::Value const& v) { return v.str(); };
        b["ctx"] = [](coil::Context context, coil::StringView v) {
            context.log(coil::String{v});
            context.logline(coil::String{v});
            context.logf("%.*s|%d", v.slength(), v.data(), 5);
            context.loglinef("%zu", v.length());
            if (v.empty())
                context.reportError("empty");
            return v;
        };
        b["named"] = [](coil::Context context) {
            coil::NamedArgs args = context.namedArgs();
            for (auto const& arg : args)
            {
                context.logline(coil::String{arg.key});
                context.logline(arg.value.str());
            }
            int sum = 0;
            if (auto v = args.getOrReport<int>("a", coil::NamedArgs::ArgType::Optional, 5))
                sum += *v & 0xff;
            if (auto v = args.getOrReport<std::string>("b", coil::NamedArgs::ArgType::Required))
                sum += static_cast<int>(v->size());
            if (auto v = args.get<std::vector<double>>("c"))
                sum += static_cast<int>(v->size());
            if (args.getOrReport("d", coil::NamedArgs::ArgType::Required))
                sum++;
            return sum;
        };
        b["var"] = coil::variable(&st.number);
        b["vec"] = coil::variable(&st.list);
        b["fixed"] = coil::variable(&st.fixed);
        b["real"] = coil::variable(&st.real);
        b["text"] = coil::variable(&st.text);
        b["prop"] = coil::property([&st] { return st.small; }, [&st](unsigned char v) { st.small = v; });
        b["pod"] = coil::bind(&Pod::add, &st.pod);
        b["podtext"] = coil::bindProperty(&Pod::text, &st.pod);
        b["over"] = coil::overloaded([] { return 0; }, [](int a) { return a; }, [](coil::String a, short b) { return a + (b > 0 ? "+" : "-"); }, [](bool, long, char) { return 'c' + 0; });
        b["cs"] = [](coil::String const& v) -> coil::String { return v; };
        b["all"] = [](bool, char, short, int, long, long long, float, coil::String const&, std::string const&) { return "all"; };
        b["my func"] = [] { return "spaced"; };
        b["l"] = [](coil::Context context, std::vector<bool> const& v, std::optional<std::string> const& o) {
            context.logf("%zu %s", v.size(), o ? o->c_str() : "none");
        };
    }
}

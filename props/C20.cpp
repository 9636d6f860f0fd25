#include "grammar.h"
#include "model.h"
#include "signatures.h"

#include <map>

// What the registry says about commands, against the C++ signatures they were made of.

namespace
{
    struct Described
    {
        std::vector<std::string> params;
        std::string returns;
        std::vector<sig::Param> models; // of the parameters, if conversion is to be tried
    };

    // ---- functions that differ in what they return and in how parameters are written ----

    struct Made
    {
        coil::AnyFunctor functor;
        Described described;
    };

    struct Holder
    {
        void nothing(int) {}
        double number() const noexcept { return 1; }
        std::vector<int> const& list(coil::Context const&, user::Color) const { return empty; }
        bool flag(coil::Context, unsigned char, std::string_view) volatile { return true; }
        std::vector<int> empty;
    };
    Holder g_holder;

    void freeFunction(short, coil::String) {}
    int* freeNoexcept(coil::Context, std::optional<bool>) noexcept
    {
        static int v = 0;
        return &v;
    }

    struct Callable
    {
        user::Point operator()(coil::Context&&, user::Blob const&, long) { return {}; }
    };

    template<typename... Ts>
    std::vector<sig::Param> params()
    {
        return {sig::param<Ts>()...};
    }
    template<typename... Ts, typename Func>
    Made made(Func func, std::string const& returns)
    {
        Made m{sig::any(coil::move(func)), {}};
        m.described.returns = returns;
        m.described.models = params<Ts...>();
        for (auto const& p : m.described.models)
            m.described.params.push_back(p.name());
        return m;
    }
    template<typename... Ts>
    Made bound(coil::AnyFunctor functor, std::string const& returns)
    {
        Made m{coil::move(functor), {}};
        m.described.returns = returns;
        m.described.models = params<Ts...>();
        for (auto const& p : m.described.models)
            m.described.params.push_back(p.name());
        return m;
    }

    template<typename T>
    Made returning(size_t how)
    {
        static T value{};
        std::string const name = model::Model<T>::name();
        switch (how)
        {
        default:
        case 0:
            return made<>([]() -> T { return value; }, name);
        case 1:
            return made<T>([](T const&) -> T const& { return value; }, name);
        case 2:
            return made<T>([](T) -> T* { return &value; }, name);
        case 3:
            return made<T, int>([](T const, int const&) -> T const* { return nullptr; }, name);
        case 4:
            return made<int, T>([](coil::Context, int&&, T&&) -> T& { return value; }, name);
        case 5:
            return made<T>([](coil::Context const&, T) -> std::optional<T> { return {}; }, "optional<" + name + ">");
        case 6:
            return made<std::vector<T>>([](std::vector<T>) -> std::vector<std::vector<T>> { return {}; }, "vector<vector<" + name + ">>");
        case 7:
            return made<T, T, T>([](T, T const&, T) {}, "void");
        case 8:
            return made<std::vector<std::optional<T>>>([](std::vector<std::optional<T>> const&) -> T const { return value; }, name);
        }
    }

    Made special(size_t which)
    {
        switch (which)
        {
        default:
        case 0:
            return made<short, coil::String>(&freeFunction, "void");
        case 1:
            return made<std::optional<bool>>(&freeNoexcept, model::Model<int>::name());
        case 2:
            return made<user::Blob, long>(Callable{}, "Point");
        case 3:
            return bound<int>(coil::bind(&Holder::nothing, &g_holder), "void");
        case 4:
            return bound<>(coil::bind(&Holder::number, static_cast<Holder const*>(&g_holder)), "double");
        case 5:
            return bound<user::Color>(coil::bind(&Holder::list, &g_holder), "vector<" + model::Model<int>::name() + ">");
        case 6:
            return bound<unsigned char, std::string_view>(coil::bind(&Holder::flag, &g_holder), "bool");
        case 7:
            return made<coil::Value>([](coil::Value) -> std::string_view { return "x"; }, "string");
        case 8:
            return made<coil::StringView, coil::Value>([](coil::Context, coil::StringView, coil::Value const&) -> coil::StringView { return "x"; }, "string");
        }
    }

    using Returning = Made (*)(size_t);
    Returning const kReturning[] = {
        &returning<int>,
        &returning<unsigned char>,
        &returning<short>,
        &returning<unsigned long>,
        &returning<long long>,
        &returning<double>,
        &returning<std::string>,
        &returning<user::Color>,
        &special,
        &special,
    };

    template<typename T>
    void variable(coil::Vector<coil::AnyFunctor>& functors, std::vector<Described>& described, bool constant)
    {
        static T value{};
        std::string const name = model::Model<T>::name();
        functors = constant ? coil::variable(static_cast<T const*>(&value)) : coil::variable(&value);
        described = {Described{{}, name, {}}, Described{{name}, name, {sig::param<T>()}}};
    }

    template<typename... Ts>
    void directNames(pbt::Case& c)
    {
        (c.expect(cx::str(coil::TypeName<Ts>::name()) == model::Model<Ts>::name(), "TypeName", cx::str(coil::TypeName<Ts>::name()) + " instead of " + model::Model<Ts>::name()), ...);
    }

    void verify(pbt::Case& c, coil::Bindings const& bindings, std::string const& name, std::vector<Described> const* expected, std::string const& where)
    {
        coil::Bindings::Command const* command = bindings.get(cx::view(name));
        REQUIRE(c, (command != nullptr) == (expected != nullptr), where + ": " + pbt::show(name, 60) + (command ? " is known" : " is not known"));
        if (!expected)
            return;
        REQUIRE(c, cx::str(command->name) == name, where + ": the name is " + pbt::show(cx::str(command->name), 60) + " instead of " + pbt::show(name, 60));
        REQUIRE(c, command->functors.size() == expected->size(), where + ": number of overloads of " + pbt::show(name, 60));
        for (size_t i = 0; i < expected->size(); i++)
        {
            coil::AnyFunctor const& f = command->functors[i];
            Described const& e = (*expected)[i];
            std::string const at = where + ": overload " + std::to_string(i) + " of " + pbt::show(name, 60);
            REQUIRE(c, f.arity() == e.params.size(), at + " has arity " + std::to_string(f.arity()) + " instead of " + std::to_string(e.params.size()));
            REQUIRE(c, f.parameterTypes().size() == e.params.size(), at + ": number of parameter types");
            for (size_t k = 0; k < e.params.size(); k++)
                REQUIRE(c, cx::str(f.parameterTypes()[k]) == e.params[k], at + ", parameter " + std::to_string(k) + ": " + cx::str(f.parameterTypes()[k]) + " instead of " + e.params[k]);
            REQUIRE(c, cx::str(f.returnType()) == e.returns, at + " returns " + cx::str(f.returnType()) + " instead of " + e.returns);
        }
    }

    // An invalid argument is reported with the name of the parameter's type.
    void invalid(pbt::Source& s, pbt::Case& c, coil::Bindings& bindings, std::string const& name, std::vector<Described> const& overloads)
    {
        size_t const which = s.draw(overloads.size());
        Described const& d = overloads[which];
        for (size_t i = 0; i < which; i++)
            if (overloads[i].params.size() == d.params.size())
                return; // another one is called
        if (d.models.empty())
            return;
        size_t const bad = s.draw(d.models.size());
        cx::Input input;
        input.name = name;
        for (size_t k = 0; k < d.models.size(); k++)
            input.args.push_back(d.models[k].arg(s, k != bad));
        std::vector<model::Out> expected;
        for (size_t k = 0; k < d.models.size(); k++)
        {
            model::Out out = d.models[k].convert(input.args[k]);
            if (out.kind == model::Out::Open)
                return;
            if (out.kind == model::Out::Error)
                expected.push_back(out);
        }
        if (expected.empty())
            return;
        c.label("conversion error");
        cx::Result r = cx::plain(bindings.execute(cx::input(input)));
        bool same = r.errors.size() == expected.size();
        for (size_t i = 0; same && i < expected.size(); i++)
            same = model::sameError(r.errors[i], expected[i]);
        if (!same)
            c.fail("conversion error: " + cx::show(r) + " instead of " + pbt::show(expected[0].error));
    }
}

PBT_PROPERTY("C20",
             "histories of up to 24 operations on 2 registries (bind 1-4, rarely 300, overloads out of 47 signatures of arity 0-21 in 6 kinds of callable and with each of 16 member qualifiers, functions of 8 types in 9 return and parameter forms, 9 special forms and variables; replace, remove, clear, move registries) under short, long, colliding and binary names; after every operation name, overloads, arity, parameter and return type names of every command are compared with the C++ signatures, and an invalid argument's error with the type name; "
             "built with plain and with integer-alias names; non-trivial: at least two commands bound and one with two overloads or two parameters",
             true)
{
    directNames<bool, char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, float, double, long double, coil::String, coil::StringView, std::string, std::string_view, std::vector<int>,
                std::vector<std::vector<unsigned char>>, std::optional<std::vector<std::optional<long long>>>, coil::Value, user::Point, user::Blob>(c);
    c.expect(cx::str(coil::TypeName<void>::name()) == "void", "TypeName<void>");

    sig::Recorder recorder;
    struct Registry
    {
        std::unique_ptr<coil::Bindings> real = std::make_unique<coil::Bindings>();
        std::map<std::string, std::vector<Described>> model;
    } registries[2];

    std::vector<std::string> names;
    for (size_t n = 1 + s.draw(8); n > 0; n--)
        names.push_back(s.chance(1, 3) ? gen::collidingName(s, 3) : s.chance(1, 8) ? gen::text(s, 300) + "!" : gen::word(s, 12));

    size_t bound = 0;
    bool rich = false;
    for (size_t step = 0; step == 0 || s.more(8, step, 24); step++)
    {
        Registry& r = registries[s.chance(1, 4) ? 1 : 0];
        std::string const name = names[s.draw(names.size())];
        size_t const op = s.weighted({10, 2, 3, 1, 1, 2});
        std::string const where = "step " + std::to_string(step) + " op " + std::to_string(op);
        c.note(where + " " + pbt::show(name, 60));
        switch (op)
        {
        case 0:
        {
            coil::Vector<coil::AnyFunctor> functors;
            std::vector<Described> described;
            for (size_t n = s.chance(1, 2) ? 1 : 1 + s.draw(s.chance(1, 25) ? s.chance(1, 12) ? 300 : 40 : 4); n > 0; n--)
            {
                if (s.flip())
                {
                    auto const& all = sig::all();
                    size_t const which = s.draw(all.size());
                    Described d;
                    d.models = all[which].params;
                    for (auto const& p : d.models)
                        d.params.push_back(p.name());
                    d.returns = model::Model<int>::name();
                    functors.pushBack(all[which].make(recorder, static_cast<int>(which), static_cast<sig::Kind>(s.draw(sig::kKinds))));
                    described.push_back(d);
                }
                else
                {
                    Returning make = s.pick(kReturning);
                    Made m = make(s.draw(9));
                    functors.pushBack(coil::move(m.functor));
                    described.push_back(m.described);
                }
                rich = rich || described.size() >= 2 || described.back().params.size() >= 2;
            }
            if (functors.size() == 1 && s.flip())
            {
                if (s.flip())
                    r.real->add(cx::view(name), coil::AnyFunctor{coil::move(functors[0])});
                else
                    (*r.real)[cx::view(name)] = coil::AnyFunctor{coil::move(functors[0])};
            }
            else if (s.flip())
            {
                auto const& command = r.real->add(cx::view(name), coil::move(functors));
                REQUIRE(c, &command == r.real->get(cx::view(name)), "add returns another command");
            }
            else
                (*r.real)[cx::view(name)] = coil::move(functors);
            for (auto const& d : described)
                c.key(cx::join(d.params, ",") + "->" + d.returns);
            r.model[name] = described;
            bound++;
            break;
        }
        case 1:
        {
            coil::Vector<coil::AnyFunctor> functors;
            std::vector<Described> described;
            bool const constant = s.flip();
            switch (s.draw(4))
            {
            default:
            case 0:
                variable<int>(functors, described, constant);
                break;
            case 1:
                variable<std::string>(functors, described, constant);
                break;
            case 2:
                variable<std::vector<unsigned>>(functors, described, constant);
                break;
            case 3:
                variable<long double>(functors, described, constant);
                break;
            }
            (*r.real)[cx::view(name)] = coil::move(functors);
            r.model[name] = described;
            bound++;
            break;
        }
        case 2:
            if (s.flip())
                r.real->remove(cx::view(name));
            else
                (*r.real)[cx::view(name)] = nullptr;
            r.model.erase(name);
            break;
        case 3:
            r.real->clear();
            r.model.clear();
            break;
        case 4: // moved
        {
            Registry& other = registries[&r == registries ? 1 : 0];
            if (s.flip())
            {
                auto moved = std::make_unique<coil::Bindings>(coil::move(*r.real));
                r.real = std::move(moved);
            }
            else
            {
                *other.real = coil::move(*r.real);
                other.model = r.model;
                r.real = std::make_unique<coil::Bindings>();
                r.model.clear();
            }
            break;
        }
        case 5:
        {
            auto it = r.model.find(name);
            if (it != r.model.end())
                invalid(s, c, *r.real, name, it->second);
            break;
        }
        }
        c.key(op);
        c.key(name);
        for (auto const& registry : registries)
            for (auto const& n : names)
            {
                auto it = registry.model.find(n);
                verify(c, *registry.real, n, it == registry.model.end() ? nullptr : &it->second, where);
            }
    }
    c.nontrivial(bound >= 2 && rich);
    c.labelIf(bound >= 8, "commands:8+");
}

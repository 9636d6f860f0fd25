#include "grammar.h"
#include "model.h"

#include <memory>

namespace
{
    struct Var
    {
        virtual ~Var() = default;
        virtual coil::Vector<coil::AnyFunctor> bind(bool isConst) = 0;
        virtual model::Out convert(cx::Arg const& a) const = 0;
        virtual cx::Arg arg(pbt::Source& s, bool valid) const = 0;
        virtual std::string repr() const = 0;           // of the real variable
        virtual std::optional<std::string> text() const = 0; // its printed form, if determined
        virtual void outside(pbt::Source& s) = 0;       // the program writes it
        virtual std::string type() const = 0;
    };

    template<typename T>
    struct VarOf : Var
    {
        // guards around the variable
        uint64_t before = 0x1122334455667788ull;
        T value{};
        uint64_t after = 0x8877665544332211ull;

        explicit VarOf(pbt::Source& s) : value(model::Model<T>::value(s)) {}
        coil::Vector<coil::AnyFunctor> bind(bool isConst) override { return isConst ? coil::variable(const_cast<T const*>(&value)) : coil::variable(&value); }
        model::Out convert(cx::Arg const& a) const override { return model::Model<T>::convert(a); }
        cx::Arg arg(pbt::Source& s, bool valid) const override { return model::Model<T>::arg(s, valid); }
        std::string repr() const override
        {
            if (before != 0x1122334455667788ull || after != 0x8877665544332211ull)
                return "memory next to the variable was written";
            return model::Model<T>::repr(value);
        }
        std::optional<std::string> text() const override
        {
            if constexpr (std::is_floating_point_v<T>)
                if (model::nearThreshold(value))
                    return {};
            return model::Model<T>::text(value);
        }
        void outside(pbt::Source& s) override { value = model::Model<T>::value(s); }
        std::string type() const override { return model::Model<T>::name(); }
    };

    std::unique_ptr<Var> make(pbt::Source& s)
    {
        switch (s.draw(16))
        {
        default:
        case 0:
            return std::make_unique<VarOf<int>>(s);
        case 1:
            return std::make_unique<VarOf<bool>>(s);
        case 2:
            return std::make_unique<VarOf<double>>(s);
        case 3:
            return std::make_unique<VarOf<coil::String>>(s);
        case 4:
            return std::make_unique<VarOf<std::string>>(s);
        case 5:
            return std::make_unique<VarOf<unsigned char>>(s);
        case 6:
            return std::make_unique<VarOf<short>>(s);
        case 7:
            return std::make_unique<VarOf<unsigned long>>(s);
        case 8:
            return std::make_unique<VarOf<float>>(s);
        case 9:
            return std::make_unique<VarOf<std::vector<int>>>(s);
        case 10:
            return std::make_unique<VarOf<std::vector<std::string>>>(s);
        case 11:
            return std::make_unique<VarOf<std::optional<int>>>(s);
        case 12:
            return std::make_unique<VarOf<user::Point>>(s);
        case 13:
            return std::make_unique<VarOf<user::Color>>(s);
        case 14:
            return std::make_unique<VarOf<char>>(s);
        case 15:
            return std::make_unique<VarOf<std::vector<user::Color>>>(s);
        }
    }

    struct Name
    {
        std::string name;
        size_t var;
        bool isConst;
    };
}

PBT_PROPERTY("C12",
             "1-6 variables of 16 types bound under 1-10 names (several names for one variable, as mutable or const), then up to 40 operations: get, set to a valid or invalid value, wrong number of arguments, rebind, outside modification, with structured inputs or texts; after every one all real variables, the return value and the errors are compared with the model; "
             "non-trivial: at least one successful and one refused write",
             true)
{
    std::vector<std::unique_ptr<Var>> vars;
    size_t const varCount = 1 + s.draw(6);
    for (size_t i = 0; i < varCount; i++)
        vars.push_back(make(s));
    std::vector<std::string> model_;
    for (auto const& v : vars)
        model_.push_back(v->repr());

    auto bindings = std::make_unique<coil::Bindings>();
    std::vector<Name> names;
    size_t const nameCount = varCount + s.draw(5);
    for (size_t i = 0; i < nameCount; i++)
    {
        Name n{"v" + std::to_string(i), i < varCount ? i : s.draw(varCount), s.chance(1, 4)};
        (*bindings)[cx::view(n.name)] = vars[n.var]->bind(n.isConst);
        c.note("bind " + n.name + " to variable " + std::to_string(n.var) + " " + vars[n.var]->type() + (n.isConst ? " const" : ""));
        names.push_back(n);
    }

    bool wrote = false, refused = false;
    grammar::Config config;
    size_t const max = s.chance(1, 8) ? 40 : 15;
    for (size_t n = 0; (n == 0 || s.more(max > 15 ? 25 : 6, n, max)) && !c.failed; n++)
    {
        Name& name = names[s.draw(names.size())];
        Var& var = *vars[name.var];
        unsigned const op = static_cast<unsigned>(s.weighted({4, 8, 4, 1, 2, 1, 1}));
        std::vector<cx::Arg> args;
        switch (op)
        {
        default:
        case 0:
            break;
        case 1:
            args.push_back(var.arg(s, true));
            break;
        case 2:
            args.push_back(var.arg(s, false));
            break;
        case 3:
            for (size_t k = 2 + s.draw(3); k > 0; k--)
                args.push_back(var.arg(s, true));
            break;
        case 4:
            var.outside(s);
            model_[name.var] = var.repr();
            c.note("outside change of variable " + std::to_string(name.var) + " to " + pbt::show(var.repr(), 80));
            c.label("outside");
            continue;
        case 5:
            name.var = s.draw(varCount);
            name.isConst = s.flip();
            (*bindings)[cx::view(name.name)] = vars[name.var]->bind(name.isConst);
            c.note("rebind " + name.name + " to variable " + std::to_string(name.var) + (name.isConst ? " const" : ""));
            continue;
        case 6:
            bindings = std::make_unique<coil::Bindings>(coil::move(*bindings));
            continue;
        }

        cx::Input input{name.name, args, {}};
        c.note("execute " + cx::show(input));
        c.key(cx::show(input));
        std::string text = name.name;
        bool asText = s.chance(1, 3);
        for (auto const& a : args)
        {
            auto piece = grammar::renderArg(s, a, config);
            asText = asText && piece;
            text += piece ? " " + piece->text : "";
        }
        cx::Result got;
        {
            gen::ExactText exact{text};
            got = cx::plain(asText ? bindings->execute(cx::view(exact)) : bindings->execute(cx::input(input)));
        }
        c.labelIf(asText, "as-command");

        std::string const where = name.name + " (" + var.type() + (name.isConst ? " const" : "") + ") " + cx::show(input);
        auto returnsCurrent = [&] {
            auto expected = var.text();
            if (!got.errors.empty() || !got.returnValue)
                c.fail(where + " failed: " + cx::show(got));
            else if (expected && *got.returnValue != *expected)
                c.fail(where + " returned " + pbt::show(*got.returnValue) + " instead of " + pbt::show(*expected));
        };
        if (args.empty())
        {
            returnsCurrent();
            c.label("get");
        }
        else if (args.size() > 1)
        {
            c.expect(got.errors.size() == 1 && !got.returnValue, "a wrong number of arguments is not refused", where);
            c.label("wrong-count");
            refused = true;
        }
        else
        {
            model::Out out = var.convert(args[0]);
            if (out.kind == model::Out::Open)
            {
                // either way; but refused must mean untouched
                if (got.errors.empty())
                    model_[name.var] = var.repr();
            }
            else if (out.kind == model::Out::Error)
            {
                c.label("invalid-set");
                refused = true;
                c.expect(got.errors.size() == 1 && !got.returnValue, "an invalid value is not refused", where);
                if (got.errors.size() == 1)
                    c.expect(model::sameError(got.errors[0], out), "wrong error", got.errors[0] + " instead of " + out.error);
            }
            else if (name.isConst)
            {
                c.label("const-set");
                refused = true;
                c.expect(got.errors.size() == 1 && !got.returnValue, "writing a const variable is not refused", where);
                if (got.errors.size() == 1)
                    c.expect(got.errors[0].find("read-only") != std::string::npos, "writing a const variable: wrong error", got.errors[0]);
            }
            else
            {
                c.label("set");
                wrote = true;
                model_[name.var] = out.repr;
                c.expect(var.repr() == out.repr, "another value was stored", where + ": " + pbt::show(var.repr(), 200) + " instead of " + pbt::show(out.repr, 200));
                returnsCurrent();
            }
        }
        for (size_t i = 0; i < vars.size(); i++)
            c.expect(vars[i]->repr() == model_[i], "a variable changed", "variable " + std::to_string(i) + " by " + where + " to " + pbt::show(vars[i]->repr(), 200) + " from " + pbt::show(model_[i], 200));
    }
    c.nontrivial(wrote && refused);
}

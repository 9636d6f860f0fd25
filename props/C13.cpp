#include "grammar.h"
#include "model.h"

#include <memory>

namespace
{
    std::string g_calls; // one letter for each call of a getter or a setter
    void called(char what)
    {
        g_calls += what;
    }

    // Objects of one type, with properties of every kind. Everything that happens to an object is recorded in it.
    struct Thing
    {
        int id = 0;
        int number = 0;
        std::string text = "t";
        coil::String own = "o";
        std::vector<int> list;
        std::optional<int> maybe;
        bool flag = false;
        std::vector<std::string> journal;

        // getters and setters with all qualifiers
        int getNumber() const { return called('g'), number; }
        void setNumber(int v) { called('s'), journal.push_back("setNumber " + std::to_string(v)), number = v; }
        int getNumberNoexcept() const noexcept { return called('g'), number; }
        void setNumberClamped(int v) noexcept { called('s'), journal.push_back("setNumberClamped " + std::to_string(v)), number = v > 100 ? 100 : v < -100 ? -100 : v; }
        int getNumberRef() & { return called('g'), number; }
        void setNumberRefuse(int const& v) &
        {
            called('s'), journal.push_back("setNumberRefuse " + std::to_string(v));
            if (v % 2 == 0)
                number = v;
        }
        int getNumberVolatile() const volatile { return called('g'), number; }
        void setNumberVolatile(int v) volatile noexcept
        {
            const_cast<Thing*>(this)->setNumber(v);
        }
        std::string const& getText() const& { return called('g'), text; }
        void setText(std::string const& v) { called('s'), journal.push_back("setText " + v), text = v; }
        void setTextUpper(std::string v)
        {
            called('s'), journal.push_back("setTextUpper " + v);
            for (char& ch : v)
                if (ch >= 'a' && ch <= 'z')
                    ch = static_cast<char>(ch - 'a' + 'A');
            text = std::move(v);
        }
        coil::String const& getOwn() const { return called('g'), own; }
        coil::String setOwn(coil::String const& v) { called('s'), journal.push_back("setOwn " + cx::str(v)), own = v; return "ignored"; }
        std::vector<int> const& getList() const { return called('g'), list; }
        void setList(std::vector<int> v) { called('s'), journal.push_back("setList " + model::Model<std::vector<int>>::repr(v)), list = std::move(v); }
        std::optional<int> getMaybe() const { return called('g'), maybe; }
        void setMaybe(std::optional<int> const& v) { called('s'), journal.push_back("setMaybe " + model::Model<std::optional<int>>::repr(v)), maybe = v; }
        bool getFlag() const { return called('g'), flag; }
        bool setFlag(bool v) { called('s'), journal.push_back(std::string{"setFlag "} + (v ? "true" : "false")), flag = v; return !v; }

        // member functions
        int add(int a, int b)
        {
            journal.push_back("add " + std::to_string(a) + " " + std::to_string(b));
            return static_cast<int>(static_cast<unsigned>(a) + static_cast<unsigned>(b) + static_cast<unsigned>(id));
        }
        std::string say(coil::Context context, std::string const& t) const
        {
            context.logline(cx::own(std::to_string(id)));
            return t + "/" + text;
        }
        int who() const noexcept { return id; }
        int whoVolatile() const volatile { return id; }
        int whoRef() & { return id; }
        void touch() & noexcept { journal.push_back("touch"); }

        std::string state() const
        {
            return std::to_string(number) + ";" + text + ";" + cx::str(own) + ";" + model::Model<std::vector<int>>::repr(list) + ";" + model::Model<std::optional<int>>::repr(maybe) + (flag ? ";1" : ";0") + ";" + cx::join(journal, "\n");
        }
    };

    Thing* g_thing = nullptr; // for free functions
    int freeGet()
    {
        return called('g'), g_thing->number;
    }
    void freeSet(int v)
    {
        g_thing->setNumber(v);
    }
    int freeGetOf(Thing const* t)
    {
        return called('g'), t->number;
    }
    void freeSetOf(Thing* t, int v)
    {
        t->setNumber(v);
    }

    enum class Field
    {
        Number,
        Text,
        Own,
        List,
        Maybe,
        Flag,
    };
    enum class Effect
    {
        Plain,
        Clamp,
        Refuse,
        Upper,
        ReadOnly,    // reports so once the argument converts
        ReadOnlyAny, // accepts any value before it reports
    };

    // a bound property: where it belongs and what its setter does
    struct Property
    {
        std::string name;
        size_t object;
        Field field;
        Effect effect;
        std::string setter; // journal entry
    };

    template<typename T>
    struct Access;

    std::string printed(Thing const& t, Field f)
    {
        switch (f)
        {
        case Field::Number:
            return std::to_string(t.number);
        case Field::Text:
            return t.text;
        case Field::Own:
            return cx::str(t.own);
        case Field::List:
            return model::Model<std::vector<int>>::text(t.list);
        case Field::Maybe:
            return model::Model<std::optional<int>>::text(t.maybe);
        default:
            return t.flag ? "true" : "false";
        }
    }
    model::Out convert(Field f, cx::Arg const& a)
    {
        switch (f)
        {
        case Field::Number:
            return model::Model<int>::convert(a);
        case Field::Text:
        case Field::Own:
            return model::Model<std::string>::convert(a);
        case Field::List:
            return model::Model<std::vector<int>>::convert(a);
        case Field::Maybe:
            return model::Model<std::optional<int>>::convert(a);
        default:
            return model::Model<bool>::convert(a);
        }
    }
    cx::Arg argument(pbt::Source& s, Field f, bool valid)
    {
        switch (f)
        {
        case Field::Number:
            return s.flip() && valid ? cx::Arg{{std::to_string(static_cast<int>(s.draw(400)) - 200)}} : model::Model<int>::arg(s, valid);
        case Field::Text:
        case Field::Own:
            return model::Model<std::string>::arg(s, valid);
        case Field::List:
            return model::Model<std::vector<int>>::arg(s, valid);
        case Field::Maybe:
            return model::Model<std::optional<int>>::arg(s, valid);
        default:
            return model::Model<bool>::arg(s, valid);
        }
    }

    // applies a valid write to the model object; the value is taken from the conversion by reading the model's own copy
    void apply(Thing& t, Property const& p, cx::Arg const& a, model::Out const& out)
    {
        t.journal.push_back(p.setter + " " + out.repr);
        switch (p.field)
        {
        case Field::Number:
        {
            int v = std::atoi(out.repr.c_str());
            if (p.effect == Effect::Clamp)
                v = v > 100 ? 100 : v < -100 ? -100 : v;
            if (p.effect == Effect::Refuse && v % 2 != 0)
                return;
            t.number = v;
            return;
        }
        case Field::Text:
            t.text = out.repr;
            if (p.effect == Effect::Upper)
                for (char& ch : t.text)
                    if (ch >= 'a' && ch <= 'z')
                        ch = static_cast<char>(ch - 'a' + 'A');
            return;
        case Field::Own:
            t.own = cx::own(out.repr);
            return;
        case Field::List:
            t.list.clear();
            for (auto const& sub : a.subvalues)
                t.list.push_back(std::atoi(model::Model<int>::convert({{sub}}).repr.c_str()));
            return;
        case Field::Maybe:
            t.maybe.reset();
            if (out.repr != "none")
                t.maybe = std::atoi(out.repr.c_str() + 5);
            return;
        default:
            t.flag = out.repr == "true";
        }
    }

    constexpr unsigned kProperties = 26;
    coil::Vector<coil::AnyFunctor> makeProperty(unsigned which, Thing* t, Property& p)
    {
        p.field = Field::Number;
        p.effect = Effect::Plain;
        p.setter = "setNumber";
        switch (which)
        {
        default:
        case 0:
            return coil::bindProperty(&Thing::getNumber, &Thing::setNumber, t);
        case 1:
            p.effect = Effect::Clamp;
            p.setter = "setNumberClamped";
            return coil::bindProperty(&Thing::getNumberNoexcept, &Thing::setNumberClamped, t);
        case 2:
            p.effect = Effect::Refuse;
            p.setter = "setNumberRefuse";
            return coil::bindProperty(&Thing::getNumber, &Thing::setNumberRefuse, t);
        case 3:
            return coil::bindProperty(&Thing::getNumberVolatile, &Thing::setNumberVolatile, t);
        case 4:
            p.effect = Effect::ReadOnly;
            return coil::bindProperty(&Thing::getNumber, t);
        case 5:
            return coil::bindProperty(&freeGetOf, &freeSetOf, t);
        case 6:
            return coil::bindProperty([](Thing* o) -> int const& { return called('g'), o->number; }, [](Thing* o, int v) { o->setNumber(v); }, t);
        case 7:
            return coil::property([t] { return called('g'), t->number; }, [t](int v) { t->setNumber(v); });
        case 8:
            return coil::property([t]() -> int& { return called('g'), t->number; }, [t](int const& v) { t->setNumber(v); });
        case 9:
            p.effect = Effect::ReadOnlyAny;
            return coil::property([t] { return called('g'), t->number; });
        case 10:
            p.effect = Effect::ReadOnly;
            return coil::bindProperty([](Thing const* o) { return called('g'), o->number; }, static_cast<Thing const*>(t));
        case 11:
            p.field = Field::Text;
            p.setter = "setText";
            return coil::bindProperty(&Thing::getText, &Thing::setText, t);
        case 12:
            p.field = Field::Text;
            p.effect = Effect::Upper;
            p.setter = "setTextUpper";
            return coil::bindProperty(&Thing::getText, &Thing::setTextUpper, t);
        case 13:
            p.field = Field::Text;
            p.setter = "setText";
            return coil::property([t]() -> std::string const& { return called('g'), t->text; }, [t](std::string const& v) { t->setText(v); });
        case 14:
            p.field = Field::Text;
            p.effect = Effect::ReadOnlyAny;
            return coil::property([t]() { return called('g'), t->text; });
        case 15:
            p.field = Field::Own;
            p.setter = "setOwn";
            return coil::bindProperty(&Thing::getOwn, &Thing::setOwn, t);
        case 16:
            p.field = Field::List;
            p.setter = "setList";
            return coil::bindProperty(&Thing::getList, &Thing::setList, t);
        case 17:
            p.field = Field::List;
            p.setter = "setList";
            return coil::property([t]() -> std::vector<int> const& { return called('g'), t->list; }, [t](std::vector<int> const& v) { t->setList(v); });
        case 18:
            p.field = Field::Maybe;
            p.setter = "setMaybe";
            return coil::bindProperty(&Thing::getMaybe, &Thing::setMaybe, t);
        case 19:
            p.field = Field::Flag;
            p.setter = "setFlag";
            return coil::bindProperty(&Thing::getFlag, &Thing::setFlag, t);
        case 20:
            p.field = Field::Flag;
            p.setter = "setFlag";
            return coil::property([t] { return called('g'), t->flag; }, [t](bool v) { return t->setFlag(v); });
        case 21:
            p.field = Field::Flag;
            p.effect = Effect::ReadOnly;
            return coil::bindProperty(&Thing::getFlag, static_cast<Thing const*>(t));
        case 22:
            p.field = Field::List;
            p.effect = Effect::ReadOnly;
            return coil::bindProperty(&Thing::getList, t);
        case 23:
            p.effect = Effect::Clamp;
            p.setter = "setNumberClamped";
            return coil::bindProperty([](Thing* o) { return called('g'), o->number; }, &Thing::setNumberClamped, t);
        case 24:
            return coil::bindProperty(&Thing::getNumberRef, &Thing::setNumber, t);
        case 25:
            p.field = Field::Own;
            p.effect = Effect::ReadOnly;
            return coil::bindProperty(&Thing::getOwn, static_cast<Thing const*>(t));
        }
    }
}

PBT_PROPERTY("C13",
             "1-4 objects of one type with up to 14 properties (26 combinations of lambda, free and member getters and setters with all qualifiers, by value and reference, read-only, transforming and refusing setters, over 6 value types) and bound member functions; up to 30 reads, valid and invalid writes, calls and outside changes; "
             "after each the state of all real objects including a journal of setter calls, the order and number of getter and setter calls, the return value and the errors are compared with model objects; non-trivial: at least one valid write or call and two bindings",
             true)
{
    size_t const count = 1 + s.draw(4);
    std::vector<std::unique_ptr<Thing>> things;
    std::vector<Thing> models(count);
    for (size_t i = 0; i < count; i++)
    {
        things.push_back(std::make_unique<Thing>());
        things[i]->id = models[i].id = static_cast<int>(i) * 1000 + 7;
        things[i]->text = models[i].text = "text" + std::to_string(i);
    }
    g_thing = things[0].get();

    coil::Bindings bindings;
    std::vector<Property> properties;
    for (size_t n = 0; n == 0 || s.more(6, n, 14); n++)
    {
        Property p;
        p.object = s.draw(count);
        p.name = "p" + std::to_string(n);
        unsigned which = static_cast<unsigned>(s.draw(kProperties + 1));
        if (which == kProperties)
        {
            // free functions know only one object
            p.object = 0;
            p.field = Field::Number;
            p.effect = Effect::Plain;
            p.setter = "setNumber";
            bindings[cx::view(p.name)] = coil::property(&freeGet, &freeSet);
        }
        else
        {
            bindings[cx::view(p.name)] = makeProperty(which, things[p.object].get(), p);
        }
        c.note("property " + p.name + " kind " + std::to_string(which) + " of object " + std::to_string(p.object));
        c.key(which * 10 + p.object);
        properties.push_back(p);
    }
    for (size_t i = 0; i < count; i++)
    {
        std::string n = std::to_string(i);
        Thing* t = things[i].get();
        bindings[cx::view("add" + n)] = coil::bind(&Thing::add, t);
        bindings[cx::view("say" + n)] = coil::bind(&Thing::say, static_cast<Thing const*>(t));
        bindings[cx::view("who" + n)] = coil::bind(&Thing::who, t);
        bindings[cx::view("whov" + n)] = coil::bind(&Thing::whoVolatile, static_cast<Thing const*>(t));
        bindings[cx::view("whor" + n)] = coil::bind(&Thing::whoRef, t);
        bindings[cx::view("touch" + n)] = coil::bind(&Thing::touch, t);
        bindings[cx::view("all" + n)] = coil::overloaded(coil::bind(&Thing::who, t), coil::bind(&Thing::add, t), coil::bind(&Thing::say, t));
    }

    bool acted = false;
    size_t const max = s.chance(1, 8) ? 30 : 12;
    for (size_t n = 0; (n == 0 || s.more(max > 12 ? 20 : 6, n, max)) && !c.failed; n++)
    {
        cx::Input input;
        std::string expectedReturn, expectedOutput, expectedCalls;
        bool refused = false;
        std::vector<std::string> expectedErrors;
        bool returns = true, exact = true, skip = false;
        Property const& p = properties[s.draw(properties.size())];
        Thing& m = models[p.object];
        switch (s.weighted({3, 8, 4, 4, 1, 1}))
        {
        default:
        case 0:
            input.name = p.name;
            expectedReturn = printed(m, p.field);
            expectedCalls = "g";
            c.label("read");
            break;
        case 1:
        case 2:
        {
            input.name = p.name;
            input.args.push_back(argument(s, p.field, s.chance(2, 3)));
            model::Out out = p.effect == Effect::ReadOnlyAny ? model::ok("") : convert(p.field, input.args[0]);
            if (out.kind == model::Out::Open)
            {
                skip = true;
                break;
            }
            returns = false;
            if (out.kind == model::Out::Error)
            {
                c.label("invalid-write");
                expectedErrors = {out.error};
                exact = out.exact;
            }
            else if (p.effect == Effect::ReadOnly || p.effect == Effect::ReadOnlyAny)
            {
                c.label("read-only");
                refused = true;
                expectedErrors = {"This property is read-only"};
            }
            else
            {
                c.label("write");
                expectedCalls = "sg";
                acted = true;
                apply(m, p, input.args[0], out);
                returns = true;
                expectedReturn = printed(m, p.field);
            }
            break;
        }
        case 3:
        {
            size_t object = s.draw(count);
            Thing& o = models[object];
            std::string suffix = std::to_string(object);
            c.label("call");
            acted = true;
            switch (s.draw(9))
            {
            case 0:
            case 1:
            {
                input.name = (s.flip() ? "add" : "all") + suffix;
                int a = gen::integer<int>(s), b = gen::integer<int>(s);
                input.args = {{{std::to_string(a)}}, {{std::to_string(b)}}};
                expectedReturn = std::to_string(o.add(a, b));
                break;
            }
            case 2:
            case 3:
            {
                input.name = (s.flip() ? "say" : "all") + suffix;
                std::string t = gen::text(s, 60);
                input.args = {{{t}}};
                expectedReturn = t + "/" + o.text;
                expectedOutput = std::to_string(o.id) + "\n";
                break;
            }
            case 4:
                input.name = "who" + suffix;
                expectedReturn = std::to_string(o.id);
                break;
            case 5:
                input.name = "whov" + suffix;
                expectedReturn = std::to_string(o.id);
                break;
            case 6:
                input.name = "whor" + suffix;
                expectedReturn = std::to_string(o.id);
                break;
            case 7:
                input.name = "all" + suffix;
                expectedReturn = std::to_string(o.id);
                break;
            case 8:
                input.name = "touch" + suffix;
                o.touch();
                returns = false;
                break;
            }
            break;
        }
        case 4:
        {
            // the program changes an object
            size_t object = s.draw(count);
            int v = gen::integer<int>(s);
            std::string t = gen::text(s, 30);
            for (Thing* o : {things[object].get(), &models[object]})
            {
                o->number = v;
                o->text = t;
                o->own = cx::own(t);
                o->list.assign(3, v);
                o->flag = !o->flag;
                o->maybe = v;
            }
            c.note("outside change of object " + std::to_string(object));
            skip = true;
            break;
        }
        case 5:
            input.name = p.name;
            input.args.push_back(argument(s, p.field, true));
            input.args.push_back(argument(s, p.field, true));
            returns = false;
            exact = false;
            expectedErrors = {"wrong count"};
            break;
        }
        if (skip)
            continue;
        c.note("execute " + cx::show(input));
        c.key(cx::show(input));

        grammar::Config config;
        std::string text = input.name;
        bool asText = s.chance(1, 3);
        for (auto const& a : input.args)
        {
            auto piece = grammar::renderArg(s, a, config);
            asText = asText && piece;
            text += piece ? " " + piece->text : "";
        }
        cx::Result got;
        {
            gen::ExactText exactText{text};
            g_calls.clear();
            got = cx::plain(asText ? bindings.execute(cx::view(exactText)) : bindings.execute(cx::input(input)));
        }
        if (exact ? got.errors != expectedErrors : got.errors.size() != expectedErrors.size())
            c.fail(cx::show(input) + ": errors " + cx::show(got) + " instead of " + pbt::show(cx::join(expectedErrors, " | "), 400));
        if (got.returnValue != (returns ? std::optional<std::string>{expectedReturn} : std::optional<std::string>{}))
            c.fail(cx::show(input) + ": returned " + cx::show(got) + " instead of " + (returns ? pbt::show(expectedReturn) : "nothing"));
        c.expect(got.output == expectedOutput, "another output", cx::show(got));
        c.expect(refused ? g_calls.find('s') == std::string::npos : g_calls == expectedCalls, "getters (g) and setters (s) are called otherwise", cx::show(input) + ": " + g_calls + " instead of " + expectedCalls);
        for (size_t i = 0; i < count; i++)
            if (things[i]->state() != models[i].state())
                c.fail("after " + cx::show(input) + " object " + std::to_string(i) + " is " + pbt::show(things[i]->state(), 500) + " instead of " + pbt::show(models[i].state(), 500));
    }
    c.nontrivial(acted && properties.size() >= 2);
}

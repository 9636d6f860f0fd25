#include "model.h"
#include "grammar.h"

#include <exception>
#include <stdexcept>

// Built twice: with exceptions caught by the library and without.

namespace
{
    enum class What
    {
        Runtime,   // std::runtime_error
        Logic,     // std::invalid_argument
        Custom,    // derived from std::exception, own what()
        Deep,      // derived twice, with other bases
        Plain,     // a class without what()
        Integer,   // int
        Text,      // char const*
        Own,       // coil::String
        Nothing,   // nested: std::bad_alloc
        Count,
    };

    struct Custom : std::exception
    {
        explicit Custom(std::string text) : text(std::move(text)) {}
        char const* what() const noexcept override { return text.c_str(); }
        std::string text;
    };
    struct Other
    {
        virtual ~Other() = default;
        int padding = 3;
    };
    struct Deep : Other, std::runtime_error
    {
        explicit Deep(std::string const& text) : std::runtime_error("unused"), text(text) {}
        char const* what() const noexcept override { return text.c_str(); }
        std::string text;
    };
    struct PlainClass
    {
        std::string text;
    };

    struct Bomb
    {
        What what = What::Runtime;
        std::string text;
    };
    Bomb g_bomb; // what a throw point throws

    [[noreturn]] void explode()
    {
        Bomb b = g_bomb;
        switch (b.what)
        {
        case What::Logic:
            throw std::invalid_argument(b.text);
        case What::Custom:
            throw Custom(b.text);
        case What::Deep:
            throw Deep(b.text);
        case What::Plain:
            throw PlainClass{b.text};
        case What::Integer:
            throw 42;
        case What::Text:
            throw static_cast<char const*>("a literal");
        case What::Own:
            throw cx::own(b.text);
        case What::Nothing:
            throw std::bad_alloc();
        default:
            throw std::runtime_error(b.text);
        }
    }

    bool isStandard(What w)
    {
        return w == What::Runtime || w == What::Logic || w == What::Custom || w == What::Deep || w == What::Nothing;
    }
    std::string messageOf(Bomb const& b)
    {
        if (b.what == What::Nothing)
            return std::bad_alloc().what();
        return b.text;
    }

    // "what is caught": kind and message
    struct Caught
    {
        bool any = false;
        std::string kind, text;
    };
    template<typename F>
    Caught catching(F&& f)
    {
        try
        {
            f();
        }
        catch (std::invalid_argument const& e)
        {
            return {true, "Logic", e.what()};
        }
        catch (Deep const& e)
        {
            return {true, "Deep", e.text};
        }
        catch (std::runtime_error const& e)
        {
            return {true, "Runtime", e.what()};
        }
        catch (Custom const& e)
        {
            return {true, "Custom", e.text};
        }
        catch (std::bad_alloc const& e)
        {
            return {true, "Nothing", e.what()};
        }
        catch (std::exception const& e)
        {
            return {true, "std", e.what()};
        }
        catch (PlainClass const& e)
        {
            return {true, "Plain", e.text};
        }
        catch (int i)
        {
            return {true, "Integer", std::to_string(i)};
        }
        catch (char const* t)
        {
            return {true, "Text", t};
        }
        catch (coil::String const& t)
        {
            return {true, "Own", cx::str(t)};
        }
        return {};
    }
    Caught expectedCatch(Bomb const& b)
    {
        static char const* const names[] = {"Runtime", "Logic", "Custom", "Deep", "Plain", "Integer", "Text", "Own", "Nothing"};
        std::string text = b.what == What::Integer ? "42" : b.what == What::Text ? "a literal" : messageOf(b);
        return {true, names[static_cast<int>(b.what)], text};
    }

    // a value whose conversion or printing may throw, and which owns memory
    struct Fragile
    {
        std::string text;
        bool throwsOnPrint = false;
    };
    bool g_throwOnConvert = false;
    size_t g_safeConversions = 0; // throw at the conversion behind so many
}

namespace coil
{
    template<>
    struct TypeSerializer<Fragile>
    {
        static Expected<Fragile, String> fromString(Value const& input)
        {
            String kept = input.str(); // memory in flight
            if (g_throwOnConvert && g_safeConversions-- == 0)
                explode();
            return Fragile{cx::str(kept), false};
        }
        static String toString(Fragile const& value)
        {
            String kept = cx::own(value.text);
            if (value.throwsOnPrint)
                explode();
            return kept;
        }
    };
}
COIL_CREATE_TYPE_NAME(Fragile, "Fragile");

namespace
{
    enum class Point
    {
        None,
        Body,
        Convert,
        ConvertElement,
        ConvertNamed,
        Print,
        PrintElement,
        Nested,        // a nested execution throws
        Getter,        // of a property, reading
        SetterGetter,  // the getter behind a write
        Setter,
        Variable,      // conversion for a bound variable
        Member,
        Count,
    };

    struct Holder
    {
        std::string text = "held";
        int explode(int v)
        {
            if (v)
                ::explode();
            return 1;
        }
    };

    std::string message(pbt::Source& s)
    {
        std::string t = gen::text(s, s.chance(1, 15) ? 20000 : 80);
        for (char& ch : t)
            if (!ch)
                ch = '%';
        return t;
    }
}

PBT_PROPERTY("C11",
             "1-15 executions (some after up to 20000 of the same) of commands that throw at one of 12 points (body, conversion of an argument, of a list element or of a named argument, printing of the result or of an element, nested execution, getter, setter, variable, member) one of 9 kinds of exception with messages of any bytes but NUL, after random logs and errors, between normal executions; "
             "with exceptions caught the exact errors, output and absence of a return value are compared, without the exception that leaves is compared with the one thrown; allocated memory is compared across runs; non-trivial: at least one exception thrown",
             true)
{
    coil::Bindings bindings;
    struct Plan
    {
        std::vector<std::string> logs, errors;
        Point point = Point::None;
    } plan;
    bool propertyThrows = false;
    size_t propertyReads = 0; // reads of the getter that succeed before it throws
    Fragile variable{"initial", false};
    Holder holder;

    auto prelude = [&](coil::Context& context) {
        for (auto const& l : plan.logs)
            context.log(cx::own(l));
        for (auto const& e : plan.errors)
            context.reportError(cx::own(e));
    };
    bindings["ok"] = [&](coil::Context context, int v) {
        context.log("fine");
        return v + 1;
    };
    bindings["body"] = [&](coil::Context context, coil::String const& v) -> coil::String {
        std::vector<std::string> inFlight(3, cx::str(v));
        prelude(context);
        explode();
    };
    bindings["convert"] = [&](coil::Context context, int, Fragile const& f, coil::String) {
        prelude(context);
        return f.text;
    };
    bindings["element"] = [&](coil::Context context, std::vector<Fragile> const& f) {
        prelude(context);
        return static_cast<int>(f.size());
    };
    bindings["named"] = [&](coil::Context context) {
        prelude(context);
        auto v = context.namedArgs().getOrReport<Fragile>("key", coil::NamedArgs::ArgType::Required);
        return v.hasValue() ? v->text : std::string{"none"};
    };
    bindings["print"] = [&](coil::Context context) {
        prelude(context);
        return Fragile{"long enough to be on the heap, surely", true};
    };
    bindings["printelement"] = [&](coil::Context context) {
        prelude(context);
        std::vector<std::optional<Fragile>> r(3, Fragile{"an element that is not short at all", false});
        r[2]->throwsOnPrint = true;
        return r;
    };
    std::optional<cx::Result> nested;
    bindings["nested"] = [&](coil::Context context, coil::String const& inner) {
        prelude(context);
        nested = cx::plain(bindings.execute(inner));
        context.log("|after");
        return 5;
    };
    auto getter = [&]() -> int {
        if (propertyThrows && propertyReads-- == 0)
            explode();
        return 11;
    };
    bindings["property"] = coil::property(getter, [&](int v) {
        if (v == 13)
            explode();
    });
    bindings["variable"] = coil::variable(&variable);
    bindings["member"] = coil::bind(&Holder::explode, &holder);

    bool thrown = false;
    for (size_t n = 0; (n == 0 || s.more(4, n, 15)) && !c.failed; n++)
    {
        plan = {};
        plan.point = static_cast<Point>(s.draw(static_cast<uint64_t>(Point::Count)));
        g_bomb.what = static_cast<What>(s.draw(static_cast<uint64_t>(What::Count)));
        g_bomb.text = message(s);
        g_throwOnConvert = false;
        propertyThrows = false;
        nested.reset();
        for (size_t k = s.chance(1, 2) ? s.draw(4) : 0; k > 0; k--)
            plan.logs.push_back(gen::text(s, 200));
        for (size_t k = s.chance(1, 3) ? s.draw(4) : 0; k > 0; k--)
            plan.errors.push_back(gen::text(s, 60));

        std::string text;
        bool preludeRuns = true, throws = true;
        switch (plan.point)
        {
        default:
        case Point::None:
            text = "ok 41";
            throws = preludeRuns = false;
            break;
        case Point::Body:
            text = "body 'an argument that is long enough to be on the heap'";
            break;
        case Point::Convert:
            text = "convert 1 anything 'last argument with its own memory'";
            g_throwOnConvert = true;
            g_safeConversions = 0;
            preludeRuns = false;
            break;
        case Point::ConvertElement:
            text = "element (alpha_alpha_alpha_alpha beta_beta_beta_beta_beta gamma delta)";
            g_throwOnConvert = true;
            g_safeConversions = s.draw(4);
            preludeRuns = false;
            break;
        case Point::ConvertNamed:
            text = "named key='some named value long enough'";
            g_throwOnConvert = true;
            g_safeConversions = 0;
            break;
        case Point::Print:
            text = "print";
            // printing happens whether or not errors were reported
            break;
        case Point::PrintElement:
            text = "printelement";
            break;
        case Point::Nested:
        {
            static char const* const inner[] = {"'body inside'", "'print'", "'member 1'", "'property 13'", "'convert 1 2 3'"};
            size_t which = s.draw(5);
            text = std::string{"nested "} + inner[which];
            if (which == 4)
            {
                g_throwOnConvert = true;
                g_safeConversions = 0;
            }
            break;
        }
        case Point::Getter:
            text = "property";
            propertyThrows = true;
            propertyReads = 0;
            preludeRuns = false;
            break;
        case Point::SetterGetter:
            text = "property 7";
            propertyThrows = true;
            propertyReads = 0;
            preludeRuns = false;
            break;
        case Point::Setter:
            text = "property 13";
            preludeRuns = false;
            break;
        case Point::Variable:
            text = "variable 'a new value that will not arrive'";
            g_throwOnConvert = true;
            g_safeConversions = 0;
            preludeRuns = false;
            break;
        case Point::Member:
            text = "member 1";
            preludeRuns = false;
            break;
        }
        c.note("point " + std::to_string(static_cast<int>(plan.point)) + " exception " + expectedCatch(g_bomb).kind + " " + pbt::show(g_bomb.text, 80) + " logs " + std::to_string(plan.logs.size()) + " errors " + std::to_string(plan.errors.size()));
        c.key(static_cast<uint64_t>(plan.point));
        c.key(g_bomb.text);
        c.key(static_cast<uint64_t>(g_bomb.what) * 100 + plan.logs.size() * 10 + plan.errors.size());
        thrown = thrown || throws;
        c.labelIf(throws, expectedCatch(g_bomb).kind == "Plain" || !isStandard(g_bomb.what) ? "exception:other" : "exception:standard");
        c.labelIf(plan.point == Point::Nested, "nested");
        c.labelIf(!plan.errors.empty() && preludeRuns, "after-errors");

        std::vector<std::string> logs = preludeRuns ? plan.logs : std::vector<std::string>{};
        std::vector<std::string> errors = preludeRuns ? plan.errors : std::vector<std::string>{};

        std::optional<cx::Result> result;
        if (size_t const times = gen::wear(s, 2500, (throws ? 60 : 25) + text.size() / 20 + g_bomb.text.size() / 50 + logs.size() + errors.size()))
        {
            c.label("repeated 260+ times");
            c.note(std::to_string(times) + " times before");
            bool const onConvert = g_throwOnConvert;
            auto const safe = g_safeConversions;
            size_t const reads = propertyReads;
            for (size_t i = 0; i < times; i++)
            {
                Caught one = catching([&] { bindings.execute(cx::view(text)); });
                if (one.any != (throws && !COIL_CONFIG_CATCH_EXCEPTIONS))
                    c.fail("the exception is contained or leaves differently, time " + std::to_string(i));
                g_throwOnConvert = onConvert;
                g_safeConversions = safe;
                propertyReads = reads;
                nested.reset();
            }
        }
        Caught caught = catching([&] {
            gen::ExactText exact{text};
            coil::ExecutionResult r = bindings.execute(cx::view(exact));
            result = cx::plain(r);
        });

        auto containedIn = [&](cx::Result const& r, std::vector<std::string> const& before, std::string const& output, char const* how) {
            bool good = r.errors.size() == before.size() + 1;
            for (size_t i = 0; good && i < before.size(); i++)
                good = r.errors[i] == before[i];
            if (good)
            {
                std::string const& last = r.errors.back();
                std::string const m = messageOf(g_bomb);
                good = isStandard(g_bomb.what) ? last.size() >= m.size() && last.compare(last.size() - m.size(), m.size(), m) == 0 && last.size() > m.size() : !last.empty();
            }
            if (!good)
                return c.fail(std::string{how} + ": the exception is not the one error behind those reported: " + cx::show(r));
            c.expect(!r.returnValue, "a return value in spite of an exception", how);
            if (r.output != output)
                c.fail(std::string{how} + ": the output is " + pbt::show(r.output) + " instead of " + pbt::show(output));
        };
        std::string const output = cx::join(logs, "");

        if (!throws)
        {
            c.expect(!caught.any, "an exception out of nowhere");
            c.expect(result && result->errors.empty() && result->returnValue == "42" && result->output == "fine", "a normal execution does not work");
        }
        else if (!COIL_CONFIG_CATCH_EXCEPTIONS)
        {
            Caught want = expectedCatch(g_bomb);
            c.expect(caught.any, "the exception was swallowed");
            c.expect(caught.kind == want.kind && caught.text == want.text, "another exception leaves", caught.kind + " " + pbt::show(caught.text, 200));
        }
        else
        {
            c.expect(!caught.any, "execution throws");
            if (!caught.any && result)
            {
                if (plan.point == Point::Nested)
                {
                    // contained inside: the outer command goes on
                    std::string const outerOutput = output + "|after";
                    c.expect(result->errors == errors, "the outer command has other errors");
                    c.expect(result->output == outerOutput, "the outer command has another output");
                    c.expect(result->returnValue.has_value() == errors.empty(), "the outer command has lost its return value");
                    c.expect(nested.has_value(), "no nested result");
                    if (nested)
                    {
                        bool innerPrelude = text.find("body") != std::string::npos || text.find("print") != std::string::npos;
                        containedIn(*nested, innerPrelude ? errors : std::vector<std::string>{}, innerPrelude ? output : "", "nested");
                    }
                }
                else
                {
                    containedIn(*result, errors, output, "execute");
                }
            }
        }
        g_throwOnConvert = propertyThrows = false;
        if (plan.point == Point::Variable)
            c.expect(variable.text == "initial", "the variable changed");
    }
    // everything still works
    g_throwOnConvert = false;
    cx::Result after = cx::plain(bindings.execute("ok 1"));
    c.expect(after.errors.empty() && after.returnValue == "2" && after.output == "fine", "the registry no longer works");
    cx::Result convert = cx::plain(bindings.execute("variable"));
    c.expect(convert.errors.empty() && convert.returnValue == "initial", "the variable no longer works");
    c.nontrivial(thrown);
}

#include "battery_calls.h"

#include <memory>

extern "C" size_t __sanitizer_get_current_allocated_bytes();

// The same round of operations again and again: the memory in use after it must not depend on how often.

namespace
{
#if defined(COIL_CONFIG_CATCH_EXCEPTIONS) && COIL_CONFIG_CATCH_EXCEPTIONS
    constexpr bool kCatches = true;
#else
    constexpr bool kCatches = false;
#endif

    struct Op
    {
        enum Kind
        {
            Text,     // execute a text in which '@' stands for a number
            Input,    // the same, structured
            Bind,     // a name to a function of some size
            Remove,
            Look,
            Reset,    // the lexer
            Move,     // the registry, to another one and back
            Clear,    // and bind everything anew
            Keep,     // execute and keep the result until the round ends
        };
        Kind kind = Text;
        std::string text;
        cx::Input input;
        std::string name;
        unsigned size = 0;
        unsigned times = 1;
        bool alternative = false;
    };

    // '@' becomes a number that was never used before, always of the same length
    struct Numbers
    {
        unsigned next = 1000000;
        std::string fill(std::string t)
        {
            size_t at = t.find('@');
            if (at == std::string::npos)
                return t;
            std::string const number = std::to_string(next++);
            for (; at != std::string::npos; at = t.find('@', at))
                t.replace(at, 1, number);
            return t;
        }
        cx::Input fill(cx::Input in)
        {
            in.name = fill(in.name);
            for (auto& a : in.args)
                for (auto& sub : a.subvalues)
                    sub = fill(sub);
            for (auto& n : in.named)
            {
                n.key = fill(n.key);
                for (auto& sub : n.value.subvalues)
                    sub = fill(sub);
            }
            return in;
        }
    };

    template<size_t N>
    struct Padded
    {
        char bytes[N];
    };
    coil::AnyFunctor sized(unsigned size)
    {
        auto one = [](auto f) {
            auto v = coil::overloaded(coil::move(f));
            return coil::AnyFunctor{coil::move(v[0])};
        };
        switch (size)
        {
        default:
        case 0:
            return one([] { return 1; });
        case 1:
            return one([p = Padded<40>{}](int v) { return v + p.bytes[3]; });
        case 2:
            return one([p = Padded<700>{}](coil::Context context, coil::String const& v) {
                context.log(coil::String{v});
                return p.bytes[1] + 0;
            });
        case 3:
            return one([p = std::string(100, 'x')](std::vector<std::string> const& v) { return p + (v.empty() ? "" : v[0]); });
        }
    }

    size_t inUse()
    {
        return __sanitizer_get_current_allocated_bytes();
    }
}

PBT_PROPERTY("C26",
             "a round of 1-12 operations (execute fitting, damaged, unknown or random texts and structured inputs, many times over, with texts, names, values and keys that never occurred before but are equally long; commands that fail, throw, log, execute others and change the registry; bind, replace, remove, look up, replace the lexer, move the registry, clear it and bind everything anew; results dropped or kept until the round ends) repeated 4 to 40 times on one registry: "
             "the bytes in use after the last round equal those after the third, and everything is back in the end; non-trivial: at least 100 operations were performed",
             true)
{
    grammar::Config config = grammar::disjointConfig(s);
    for (char ch : std::string{"@0123456789"})
        if (!config.plain(ch))
            config = grammar::Config{};
    c.note(config.show());

    std::vector<std::string> names;
    for (size_t n = 1 + s.draw(5); n > 0; n--)
        names.push_back(s.chance(1, 3) ? gen::collidingName(s, 2) : gen::word(s, 30) + "_");

    auto sprinkle = [&](std::string t) {
        for (size_t n = s.draw(3); n > 0; n--)
            t.insert(s.draw(t.size() + 1), "@");
        return t;
    };
    std::vector<Op> round;
    size_t perRound = 0;
    for (size_t n = 0; n == 0 || s.more(4, n, 12); n++)
    {
        Op op;
        op.kind = static_cast<Op::Kind>(s.weighted({10, 6, 4, 3, 1, 1, 1, 1, 2}));
        op.name = names[s.draw(names.size())];
        op.size = static_cast<unsigned>(s.draw(4));
        op.alternative = s.flip();
        op.times = s.chance(1, 3) ? 1 + static_cast<unsigned>(gen::size(s, op.kind == Op::Clear ? 2 : 60)) : 1;
        switch (op.kind)
        {
        case Op::Text:
        case Op::Keep:
            switch (s.draw(4))
            {
            default:
            case 0:
                op.text = battery::write(s, battery::call(s, !s.chance(1, 3)), config);
                break;
            case 1:
                op.text = op.name + " " + gen::word(s, 20);
                break;
            case 2:
                op.text = grammar::tokenSoup(s, config, s.flip() ? op.name : std::string{s.pick(battery::names)}, 40);
                break;
            case 3:
            {
                static char const* const own[] = {"busy", "throws", "change", "nested"};
                op.text = std::string{s.pick(own)} + " ";
                break;
            }
            }
            op.text = sprinkle(op.text);
            break;
        case Op::Input:
            op.input = battery::call(s, !s.chance(1, 3));
            if (s.chance(1, 4))
                op.input.name = sprinkle(op.input.name);
            for (auto& a : op.input.args)
                for (auto& sub : a.subvalues)
                    if (s.chance(1, 3))
                        sub = sprinkle(sub);
            for (auto& a : op.input.named)
                a.key = sprinkle(a.key);
            break;
        default:
            break;
        }
        c.note("operation " + std::to_string(op.kind) + " on " + op.name + " size " + std::to_string(op.size) + " times " + std::to_string(op.times) + " " + (op.kind == Op::Input ? cx::show(op.input) : pbt::show(op.text)));
        c.key(op.kind * 100 + op.size);
        c.key(op.kind == Op::Input ? cx::show(op.input) : op.text);
        perRound += op.times;
        round.push_back(std::move(op));
    }
    size_t const rounds = 4 + gen::size(s, perRound > 100 ? 6 : 36);
    c.nontrivial(rounds * perRound >= 100);
    c.note(std::to_string(rounds) + " rounds");

    size_t const start = inUse();
    size_t third = 0, last = 0;
    bool someThrew = false;
    {
        battery::State state;
        Numbers numbers;
        auto bindings = std::make_unique<coil::Bindings>();
        auto bindAll = [&] {
            battery::fill(*bindings, state);
            bindings->add("busy", [](coil::Context context) {
                for (int i = 0; i < 20; i++)
                {
                    context.logf("%d %s", i, "some text that needs memory of its own");
                    if (i % 3 == 0)
                        context.reportError("an error that needs memory of its own");
                }
                return "result";
            });
            bindings->add("throws", [] { throw std::runtime_error("a message that needs memory of its own"); });
            bindings->add("change", [&bindings](coil::Context context) {
                bindings->add("changed", sized(3));
                bindings->execute(coil::StringView{"changed abc"});
                context.log(bindings->execute(coil::StringView{"changed a b c"}).errors[0]);
                bindings->remove("changed");
            });
            bindings->add("nested", [&bindings](coil::Context context, coil::String const& v) {
                coil::String const text = coil::String{"s "} + v;
                for (int i = 0; i < 5; i++)
                    if (auto r = bindings->execute(text); r.errors.size() > 0)
                        context.reportError(r.errors[0]);
            });
        };
        bindAll();
        bindings->setLexer(config.make());

        auto execute = [&](Op const& op) -> coil::ExecutionResult {
            auto run = [&](auto const& what) -> coil::ExecutionResult {
                if (kCatches)
                    return bindings->execute(what);
                try
                {
                    return bindings->execute(what);
                }
                catch (std::exception const&)
                {
                    someThrew = true;
                }
                return {};
            };
            if (op.kind == Op::Input)
            {
                cx::Input const in = numbers.fill(op.input);
                return run(cx::input(in));
            }
            std::string const text = numbers.fill(op.text);
            coil::ExecutionResult r = run(cx::view(text));
            r.input = {}; // it refers to the text
            return r;
        };

        for (size_t n = 0; n < rounds; n++)
        {
            {
                std::vector<coil::ExecutionResult> kept;
                for (Op const& op : round)
                    for (unsigned k = 0; k < op.times; k++)
                        switch (op.kind)
                        {
                        case Op::Text:
                        case Op::Input:
                            execute(op);
                            break;
                        case Op::Keep:
                            kept.push_back(execute(op));
                            break;
                        case Op::Bind:
                            if (op.alternative)
                                bindings->add(cx::view(op.name), sized(op.size));
                            else
                                (*bindings)[cx::view(op.name)] = sized(op.size);
                            break;
                        case Op::Remove:
                            if (op.alternative)
                                bindings->remove(cx::view(op.name));
                            else
                                (*bindings)[cx::view(op.name)] = nullptr;
                            break;
                        case Op::Look:
                            bindings->get(cx::view(op.name));
                            {
                                std::string const unknown = numbers.fill("unknown@");
                                bindings->get(cx::view(unknown));
                                bindings->remove(cx::view(unknown));
                            }
                            break;
                        case Op::Reset:
                            bindings->setLexer(config.make());
                            break;
                        case Op::Move:
                        {
                            coil::Bindings other{coil::move(*bindings)};
                            if (op.alternative)
                                *bindings = coil::move(other);
                            else
                            {
                                auto fresh = std::make_unique<coil::Bindings>(coil::move(other));
                                bindings = std::move(fresh);
                            }
                            break;
                        }
                        case Op::Clear:
                            bindings->clear();
                            bindAll();
                            break;
                        }
            }
            if (n == 2)
                third = inUse();
        }
        last = inUse();
    }
    size_t const end = inUse();
    c.labelIf(someThrew, "throws");
    c.labelIf(rounds * perRound >= 1000, "1000+ operations");
    if (last != third)
        c.fail(std::to_string(third) + " bytes in use after three rounds, " + std::to_string(last) + " after " + std::to_string(rounds));
    c.labelIf(end > start, "more in the end");
}

#include "grammar.h"
#include "model.h"

#include <array>
#include <map>
#include <memory>
#include <stdexcept>

// Commands that run scripts of operations on their own registry, interpreted by the library and by a model.

namespace
{
#if defined(COIL_CONFIG_CATCH_EXCEPTIONS) && COIL_CONFIG_CATCH_EXCEPTIONS
    constexpr bool kCatches = true;
#else
    constexpr bool kCatches = false;
#endif

    unsigned maxDepth = 7;
    unsigned maxRuns = 80;

    enum class Param
    {
        Value,
        Int,
        Text,
    };

    struct Overload
    {
        unsigned arity = 0;
        Param param = Param::Value;
        bool context = true;
        size_t script = 0;
    };

    struct Action
    {
        enum Kind
        {
            Log,
            Execute,     // with a structured input
            ExecuteText, // the same as a text
            Add,         // bindings.add
            Assign,      // bindings[name] = overloads
            Remove,
            RemoveProxy, // bindings[name] = nullptr
            Clear,
            Error,
            Query,       // bindings.get
            Burst,       // adds new commands, one by one
            Count,
        };
        Kind kind = Log;
        std::string text;
        std::string name;
        std::vector<Overload> overloads;
        cx::Input input;
        std::string command;  // the same as a text
        bool hasText = false;
        size_t burst = 0, burstBase = 0;
    };
    std::string burstName(size_t i)
    {
        return "burst " + std::to_string(i);
    }

    struct Script
    {
        std::vector<Action> actions;
        bool throws = false;
        std::string thrown;
        int result = 0;
    };

    // one line per thing that can be observed
    using Log = std::vector<std::string>;

    struct World;

    struct ThrownByScript : std::runtime_error
    {
        using std::runtime_error::runtime_error;
    };

    // ---- model ----

    struct ModelCommand
    {
        std::vector<Overload> overloads;
    };

    struct ModelResult
    {
        std::vector<std::string> errors;
        std::vector<bool> exact;
        std::optional<std::string> returnValue;
        std::string output;
    };

    struct Interpreter
    {
        std::vector<Script> const& scripts;
        std::map<std::string, ModelCommand> commands;
        Log log;
        unsigned runs = 0;
        unsigned depth = 0;
        unsigned maxDepth = 0;
        bool mutatedSelf = false;
        bool grew = false; // a running command added new ones
        bool open = false;

        std::vector<cx::NamedArg> const* named = nullptr; // of the running command

        // what a command can see of its own execution
        void look(ModelResult* result)
        {
            if (!result)
                return;
            std::string line = result->errors.empty() ? "sees" : "sees errors";
            for (auto const& n : *named)
                line += " " + cx::show(cx::Input{n.key, {n.value}, {}});
            log.push_back(line);
        }

        void run(Script const& script, ModelResult* result, std::string const* self)
        {
            look(result);
            for (Action const& a : script.actions)
            {
                act(a, result, self);
                if (a.kind == Action::Execute || a.kind == Action::ExecuteText)
                    look(result);
            }
        }

        void act(Action const& a, ModelResult* result, std::string const* self)
        {
            switch (a.kind)
            {
            case Action::Log:
                if (result)
                    result->output += a.text;
                break;
            case Action::Error:
                if (result)
                {
                    result->errors.push_back(a.text);
                    result->exact.push_back(true);
                }
                break;
            case Action::Execute:
            case Action::ExecuteText:
                if (depth >= ::maxDepth || runs >= ::maxRuns)
                {
                    log.push_back("skipped");
                    break;
                }
                log.push_back(describe(execute(a.input)));
                break;
            case Action::Add:
            case Action::Assign:
                commands[a.name] = {a.overloads};
                mutatedSelf = mutatedSelf || (self && *self == a.name);
                if (a.kind == Action::Add)
                    log.push_back("added " + a.name + " " + std::to_string(a.overloads.size()));
                break;
            case Action::Remove:
            case Action::RemoveProxy:
                commands.erase(a.name);
                mutatedSelf = mutatedSelf || (self && *self == a.name);
                break;
            case Action::Clear:
                commands.clear();
                mutatedSelf = mutatedSelf || self;
                break;
            case Action::Burst:
                for (size_t i = 0; i < a.burst; i++)
                    commands[burstName(a.burstBase + i)] = {a.overloads};
                grew = grew || self;
                break;
            case Action::Query:
            default:
            {
                auto it = commands.find(a.name);
                if (it == commands.end())
                {
                    log.push_back("no " + a.name);
                    break;
                }
                std::string line = a.name;
                for (auto const& o : it->second.overloads)
                    line += " " + std::to_string(o.arity);
                log.push_back(line);
                break;
            }
            }
        }

        ModelResult execute(cx::Input const& input)
        {
            ModelResult r;
            auto error = [&](std::string text, bool exact = true) {
                r.errors.push_back(std::move(text));
                r.exact.push_back(exact);
            };
            runs++;
            auto it = commands.find(input.name);
            if (it == commands.end())
            {
                error("No function '" + input.name + "' is registered");
                return r;
            }
            Overload const* found = nullptr;
            std::vector<size_t> counts;
            for (auto const& o : it->second.overloads)
            {
                counts.push_back(o.arity);
                if (!found && o.arity == input.args.size())
                    found = &o;
            }
            if (!found)
            {
                error("Wrong number of arguments to '" + input.name + "': expected " + cx::orList(counts) + ", got " + std::to_string(input.args.size()));
                return r;
            }
            Overload const o = *found;
            std::string args;
            for (auto const& a : input.args)
            {
                model::Out out = o.param == Param::Int ? model::Model<int>::convert(a) : o.param == Param::Text ? model::Model<coil::StringView>::convert(a) : model::Model<coil::Value>::convert(a);
                open = open || out.kind == model::Out::Open;
                if (out.kind == model::Out::Error)
                    error(out.error, out.exact);
                args += out.repr + ";";
            }
            if (!r.errors.empty())
                return r;
            Script const& script = scripts[o.script];
            depth++;
            maxDepth = std::max(maxDepth, depth);
            log.push_back("enter " + std::to_string(o.script) + " " + args);
            std::string const self = input.name;
            auto const outer = named;
            named = &input.named;
            run(script, o.context ? &r : nullptr, &self);
            look(o.context ? &r : nullptr);
            named = outer;
            log.push_back("leave " + std::to_string(o.script) + " " + args);
            depth--;
            if (script.throws)
                error("Exception caught during execution: " + script.thrown);
            else if (r.errors.empty())
                r.returnValue = std::to_string(script.result);
            return r;
        }

        static std::string describe(ModelResult const& r)
        {
            cx::Result p;
            for (size_t i = 0; i < r.errors.size(); i++)
                p.errors.push_back(r.exact[i] ? r.errors[i] : "*");
            p.returnValue = r.returnValue;
            p.output = r.output;
            return cx::show(p);
        }
    };

    // ---- library ----

    struct Alive
    {
        explicit Alive(World& w);
        Alive(Alive const& rhs);
        ~Alive();
        World* world;
    };

    struct World
    {
        coil::Bindings bindings;
        std::vector<Script> const& scripts;
        Log log;
        unsigned runs = 0;
        unsigned depth = 0;
        long alive = 0;

        explicit World(std::vector<Script> const& scripts) : scripts(scripts) {}

        template<size_t... I, typename Make>
        static coil::AnyFunctor withArity(unsigned arity, Make make, std::index_sequence<I...>)
        {
            std::optional<coil::AnyFunctor> r;
            (void)((I == arity ? (r.emplace(make(std::integral_constant<size_t, I>{})), true) : false) || ...);
            return coil::AnyFunctor{std::move(*r)};
        }

        template<typename T, size_t>
        using Same = T;

        template<typename Func>
        static coil::AnyFunctor any(Func func)
        {
            auto v = coil::overloaded(coil::move(func));
            return coil::AnyFunctor{coil::move(v[0])};
        }

        // The body copies what it captured before anything can destroy the function that is running.
        template<typename T, size_t... I>
        coil::AnyFunctor typed(Overload const& o, std::index_sequence<I...>)
        {
            using M = model::Model<model::Decay<T>>;
            std::string payload = "payload of " + std::to_string(o.script) + " that does not fit into the object";
            if (o.context)
                return any([token = Alive{*this}, script = o.script, payload](coil::Context context, Same<T, I>... args) -> int {
                    World* w = token.world;
                    size_t const id = script;
                    return w->enter(id, &context, [&] { return std::string{} + (std::string{} + ... + (M::repr(args) + ";")); });
                });
            return any([token = Alive{*this}, script = o.script, payload](Same<T, I>... args) -> int {
                World* w = token.world;
                size_t const id = script;
                return w->enter(id, nullptr, [&] { return std::string{} + (std::string{} + ... + (M::repr(args) + ";")); });
            });
        }

        coil::AnyFunctor make(Overload const& o)
        {
            return withArity(o.arity, [&](auto arity) {
                constexpr size_t n = decltype(arity)::value;
                switch (o.param)
                {
                case Param::Int:
                    return typed<int>(o, std::make_index_sequence<n>{});
                case Param::Text:
                    return typed<coil::StringView>(o, std::make_index_sequence<n>{});
                default:
                    return typed<coil::Value const&>(o, std::make_index_sequence<n>{});
                } },
                             std::make_index_sequence<4>{});
        }

        coil::Vector<coil::AnyFunctor> make(std::vector<Overload> const& overloads)
        {
            coil::Vector<coil::AnyFunctor> v;
            for (auto const& o : overloads)
                v.pushBack(make(o));
            return v;
        }

        template<typename Args>
        int enter(size_t id, coil::Context* context, Args args)
        {
            depth++;
            log.push_back("enter " + std::to_string(id) + " " + args());
            Script const& script = scripts[id];
            look(context);
            for (Action const& a : script.actions)
            {
                act(a, context);
                if (a.kind == Action::Execute || a.kind == Action::ExecuteText)
                    look(context);
            }
            look(context);
            log.push_back("leave " + std::to_string(id) + " " + args()); // the arguments are still what they were
            depth--;
            if (script.throws)
                throw ThrownByScript(script.thrown);
            return script.result;
        }

        // what a command can see of its own execution
        void look(coil::Context* context)
        {
            if (!context)
                return;
            std::string line = context->hasErrors() ? "sees errors" : "sees";
            coil::NamedArgs named = context->namedArgs();
            for (auto const& n : named)
                line += " " + cx::show(cx::Input{cx::str(n.key), {cx::plain(n.value)}, {}});
            log.push_back(line);
            if (named.size() != static_cast<size_t>(named.end() - named.begin()))
                log.push_back("another number of named arguments");
        }

        void act(Action const& a, coil::Context* context)
        {
            switch (a.kind)
            {
            case Action::Log:
                if (context)
                    context->log(cx::own(a.text));
                break;
            case Action::Error:
                if (context)
                    context->reportError(cx::own(a.text));
                break;
            case Action::Execute:
            case Action::ExecuteText:
            {
                if (depth >= ::maxDepth || runs >= ::maxRuns)
                {
                    log.push_back("skipped");
                    break;
                }
                log.push_back(execute(a));
                break;
            }
            case Action::Add:
            {
                coil::Bindings::Command const& command = a.overloads.size() == 1 ? bindings.add(cx::view(a.name), make(a.overloads[0])) : bindings.add(cx::view(a.name), make(a.overloads));
                log.push_back("added " + cx::str(command.name) + " " + std::to_string(command.functors.size()));
                break;
            }
            case Action::Assign:
                if (a.overloads.size() == 1)
                    bindings[cx::view(a.name)] = make(a.overloads[0]);
                else
                    bindings[cx::view(a.name)] = make(a.overloads);
                break;
            case Action::Remove:
                bindings.remove(cx::view(a.name));
                break;
            case Action::RemoveProxy:
                bindings[cx::view(a.name)] = nullptr;
                break;
            case Action::Clear:
                bindings.clear();
                break;
            case Action::Burst:
                for (size_t i = 0; i < a.burst; i++)
                    bindings[cx::view(burstName(a.burstBase + i))] = make(a.overloads);
                break;
            case Action::Query:
            default:
            {
                coil::Bindings::Command const* command = bindings.get(cx::view(a.name));
                if (!command)
                {
                    log.push_back("no " + a.name);
                    break;
                }
                std::string line = cx::str(command->name);
                for (size_t i = 0; i < command->functors.size(); i++)
                    line += " " + std::to_string(command->functors[i].arity());
                log.push_back(line);
                break;
            }
            }
        }

        std::string execute(Action const& a)
        {
            runs++;
            if (a.kind == Action::ExecuteText && a.hasText)
            {
                gen::ExactText text{a.command};
                return describe(bindings.execute(cx::view(text)), a);
            }
            return describe(bindings.execute(cx::input(a.input)), a);
        }

        std::string describe(coil::ExecutionResult const& r, Action const& a)
        {
            cx::Result p = cx::plain(r);
            if (!(p.in == a.input))
                log.push_back("the result's input differs: " + cx::show(p.in));
            p.in = {};
            return cx::show(p);
        }
    };

    Alive::Alive(World& w) : world(&w) { world->alive++; }
    Alive::Alive(Alive const& rhs) : world(rhs.world) { world->alive++; }
    Alive::~Alive() { world->alive--; }
}

PBT_PROPERTY("C16",
             "1-6 scripts of up to 8 operations each (add one or up to 70, replace, remove, clear, query, execute as input or text, log, report errors, end by return or, where exceptions are caught, by throwing) shared by up to 6 commands of 1-3 overloads; an outer script of operations runs them, to a depth of 7 and 80 executions, rarely of 298 and 596; "
             "every nested result, every argument before and after, the registry afterwards and the number of live functions are compared with a model interpreter; non-trivial: a running command was replaced or removed, or a nested execution ran",
             true)
{
    maxDepth = s.chance(1, 150) ? static_cast<unsigned>(gen::bulk(s, 290, 290, 1)) + 8 : 7;
    maxRuns = maxDepth > 7 ? 2 * maxDepth : 80;
    // names: some share a bucket for every number of buckets
    std::vector<std::string> names;
    for (size_t n = 1 + s.draw(6); n > 0; n--)
        names.push_back(s.chance(1, 3) ? gen::collidingName(s, 2) : gen::word(s, 6));

    size_t const scriptCount = 1 + s.draw(6);
    auto overloads = [&] {
        std::vector<Overload> v;
        for (size_t n = s.chance(1, 3) ? 2 + s.draw(2) : 1; n > 0; n--)
        {
            Overload o;
            o.arity = static_cast<unsigned>(s.weighted({6, 2, 1, 1}));
            o.param = static_cast<Param>(s.draw(3));
            o.context = !s.chance(1, 4);
            o.script = s.draw(scriptCount);
            v.push_back(o);
        }
        return v;
    };
    grammar::Config config;
    auto action = [&](size_t executeWeight) {
        Action a;
        a.kind = static_cast<Action::Kind>(s.weighted({2, static_cast<unsigned>(executeWeight), static_cast<unsigned>(executeWeight), 3, 2, 3, 1, 1, 1, 2, 1}));
        a.name = s.chance(1, 12) ? burstName(s.draw(40)) : names[s.draw(names.size())];
        switch (a.kind)
        {
        case Action::Log:
        case Action::Error:
            a.text = gen::text(s, 60);
            break;
        case Action::Add:
        case Action::Assign:
            a.overloads = overloads();
            break;
        case Action::Burst:
            a.overloads = overloads();
            a.burst = 1 + gen::size(s, 70);
            a.burstBase = s.draw(40);
            break;
        case Action::Execute:
        case Action::ExecuteText:
            a.input.name = a.name;
            for (size_t n = s.weighted({6, 2, 1, 1}); n > 0; n--)
                a.input.args.push_back(s.chance(1, 8) ? model::Model<coil::Value>::arg(s, true) : model::Model<int>::arg(s, true));
            if (s.chance(1, 3))
                for (size_t n = 1 + s.draw(3); n > 0; n--)
                    a.input.named.push_back({gen::word(s, 3), model::Model<int>::arg(s, true)});
            for (auto& arg : a.input.args) // messages stop at a NUL byte
                for (auto& sub : arg.subvalues)
                    std::replace(sub.begin(), sub.end(), '\0', 'z');
            if (a.kind == Action::ExecuteText)
            {
                a.command = a.name.find(' ') == std::string::npos ? a.name : "\"" + a.name + "\"";
                a.hasText = true;
                for (auto const& arg : a.input.args)
                {
                    auto piece = grammar::renderArg(s, arg, config);
                    if (!piece)
                    {
                        a.hasText = false;
                        break;
                    }
                    a.command += " " + piece->text;
                }
                for (auto const& n : a.input.named)
                {
                    auto piece = grammar::renderArg(s, n.value, config);
                    if (!piece || !a.hasText)
                    {
                        a.hasText = false;
                        break;
                    }
                    a.command += " " + n.key + "=" + piece->text;
                }
            }
            break;
        default:
            break;
        }
        return a;
    };
    auto describe = [&](Action const& a) {
        static char const* const kinds[] = {"log", "execute", "execute-text", "add", "assign", "remove", "remove-by-proxy", "clear", "error", "query", "burst"};
        std::string r = kinds[a.kind];
        r += " " + (a.kind == Action::Burst ? std::to_string(a.burst) + " from " + std::to_string(a.burstBase) : a.name);
        for (auto const& o : a.overloads)
            r += " [arity " + std::to_string(o.arity) + " param " + std::to_string(static_cast<int>(o.param)) + " script " + std::to_string(o.script) + (o.context ? "]" : " no context]");
        if (!a.input.name.empty())
            r += " " + cx::show(a.input);
        if (!a.text.empty())
            r += " " + pbt::show(a.text, 60);
        return r;
    };

    std::vector<Script> scripts(scriptCount);
    for (auto& script : scripts)
    {
        for (size_t n = 0; s.more(4, n, 8); n++)
            script.actions.push_back(action(maxDepth > 7 ? 8 : 3));
        script.result = gen::integer<int>(s);
        if (kCatches && s.chance(1, 8))
        {
            script.throws = true;
            script.thrown = gen::text(s, gen::Alphabet::Print, 40);
        }
    }
    std::vector<Action> top;
    for (auto const& name : names)
    {
        if (s.chance(1, 6))
            continue; // bound later, perhaps by a running command
        Action a;
        a.kind = Action::Add;
        a.name = name;
        a.overloads = overloads();
        top.push_back(a);
    }
    for (size_t n = 0; n == 0 || s.more(6, n, 20); n++)
        top.push_back(action(8));

    if (c.verbose)
    {
        for (size_t i = 0; i < scripts.size(); i++)
        {
            c.note("script " + std::to_string(i) + (scripts[i].throws ? " throws " + pbt::show(scripts[i].thrown, 60) : " returns " + std::to_string(scripts[i].result)));
            for (auto const& a : scripts[i].actions)
                c.note("  " + describe(a));
        }
        for (auto const& a : top)
            c.note(describe(a));
    }

    World world{scripts};
    Interpreter reference{scripts, {}, {}};
    for (Action const& a : top)
    {
        size_t const from = world.log.size();
        world.act(a, nullptr);
        reference.act(a, nullptr, nullptr);
        if (reference.open)
            throw pbt::Discard{};
        if (world.log.size() != reference.log.size())
            c.fail("another number of events: " + std::to_string(world.log.size() - from) + " instead of " + std::to_string(reference.log.size() - from));
        for (size_t i = from; i < world.log.size() && i < reference.log.size(); i++)
        {
            if (world.log[i] == reference.log[i])
                continue;
            c.fail(world.log[i] + " instead of " + reference.log[i]);
            break;
        }
        if (c.failed)
            return;

        long live = 0;
        for (auto const& command : reference.commands)
        {
            live += static_cast<long>(command.second.overloads.size());
            coil::Bindings::Command const* p = world.bindings.get(cx::view(command.first));
            REQUIRE(c, p != nullptr, "command lost: " + command.first);
            REQUIRE(c, cx::str(p->name) == command.first, "its name is " + pbt::show(cx::str(p->name), 60));
            REQUIRE(c, p->functors.size() == command.second.overloads.size(), "another number of overloads of " + command.first);
            for (size_t i = 0; i < p->functors.size(); i++)
                REQUIRE(c, p->functors[i].arity() == command.second.overloads[i].arity, "another overload of " + command.first);
        }
        for (auto const& name : names)
            REQUIRE(c, (world.bindings.get(cx::view(name)) != nullptr) == (reference.commands.count(name) > 0), "registered or not: " + name);
        REQUIRE(c, world.alive == live, std::to_string(world.alive) + " live functions instead of " + std::to_string(live));
    }
    c.nontrivial(reference.mutatedSelf || reference.maxDepth >= 2);
    c.labelIf(reference.mutatedSelf, "running command replaced or removed");
    c.labelIf(reference.grew, "running command added new ones");
    c.labelIf(reference.maxDepth >= 2, "depth:2+");
    c.labelIf(reference.maxDepth >= 5, "depth:5+");
    c.labelIf(reference.maxDepth > 100, "depth:100+");
    c.labelIf(reference.runs > 20, "executions:20+");
    c.labelIf(reference.runs > 0, "executions");
    c.key(s.choicesHash());
}

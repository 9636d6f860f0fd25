#include "grammar.h"
#include "model.h"

#include "coil/detail/StringConv.h"
#include "coil/detail/UnorderedMap.h"
#include "coil/detail/Utils.h"

#include <atomic>
#include <memory>
#include <stdexcept>
#include <thread>

// The same or different workloads over separate registries on several threads at once, compared with running each alone.

namespace
{
#if defined(COIL_CONFIG_CATCH_EXCEPTIONS) && COIL_CONFIG_CATCH_EXCEPTIONS
    constexpr bool kCatches = true;
#else
    constexpr bool kCatches = false;
#endif

    struct Op
    {
        enum Kind
        {
            ExecuteText,
            Execute,
            Metadata,
            Convert,
            Format,
            Lexer,
            Rebind,
            Move,
            Containers,
            Errors,
            Fresh,
            Kinds,
        };
        Kind kind = ExecuteText;
        std::string text, other;
        cx::Input input;
        grammar::Config config;
        long long number = 0;
        double real = 0;
        size_t index = 0;
    };
    using Script = std::vector<Op>;
    using Log = std::vector<std::string>;

    struct Object
    {
        int health = 100;
        std::string title = "none";
        int get() const { return health; }
        void set(int v) { health = v; }
        std::string describe(int times, std::string const& t) const { return t + std::to_string(times) + title; }
    };

    // a registry and what it is bound to
    struct Own
    {
        coil::Bindings bindings;
        int number = 5;
        std::string word = "w";
        std::vector<int> list{1, 2};
        Object object;
        std::vector<std::string> calls;
    };

    struct Thrown : std::runtime_error
    {
        using std::runtime_error::runtime_error;
    };

    char const* const kNames[] = {"sum", "mul", "join", "ints", "reals", "flags", "maybe", "point", "color", "number", "word", "list", "health", "describe", "named", "log", "report", "throw", "over", "self", "blob", "wide", "chars", "views", "nothing", "unknown"};

    void bindAll(Own& o)
    {
        coil::Bindings& b = o.bindings;
        Own* p = &o;
        b["sum"] = [](int x, long y) { return x / 2 + y / 2; };
        b["mul"] = [](float x, double y, long double z) { return static_cast<double>(x) * y + static_cast<double>(z); };
        b["join"] = [](std::string const& x, coil::String y, std::string_view z) { return x + "|" + cx::str(y) + "|" + std::string{z}; };
        b["ints"] = [](std::vector<int> v) {
            for (int& x : v)
                x /= 2;
            return v;
        };
        b["reals"] = [](coil::Context context, std::vector<double> const& v) {
            for (double x : v)
                context.logf("%g;", x);
            return v.size();
        };
        b["flags"] = [](std::vector<bool> const& v, bool x) { return v.size() + x; };
        b["maybe"] = [](std::optional<std::vector<double>> v, std::optional<int> x) { return (v ? v->size() : 1000) + (x ? 1u : 0u); };
        b["point"] = [](user::Point x) { return x; };
        b["color"] = [](user::Color x, std::optional<user::Color> y) { return y.value_or(x); };
        b["number"] = coil::variable(&o.number);
        b["word"] = coil::variable(&o.word);
        b["list"] = coil::variable(&o.list);
        b["health"] = coil::bindProperty(&Object::get, &Object::set, &o.object);
        b["describe"] = coil::bind(&Object::describe, &o.object);
        b["named"] = [](coil::Context context) {
            coil::NamedArgs args = context.namedArgs();
            auto x = args.getOrReport<int>("k", coil::NamedArgs::ArgType::Optional, 7);
            auto y = args.getOrReport<std::vector<std::string>>("list");
            auto z = args.getOrReport<float>("z", coil::NamedArgs::ArgType::Required);
            context.loglinef("%d %zu %g", x ? *x : -1, y ? y->size() : 0, z ? static_cast<double>(*z) : -1.0);
            for (auto const& n : args)
                context.logline(coil::String{n.key}), context.logline(n.value.str());
        };
        b["log"] = [](coil::Context context, coil::Value const& v) {
            context.log(v.str());
            context.logline(v.str());
            context.logf("%s:%zu", v.str().cStr(), v.subvalues.size());
        };
        b["report"] = [](coil::Context context, coil::String text) {
            context.reportErrors(text, "more " + text);
            return 1;
        };
        b["throw"] = [](std::string const& text) -> int {
            if (kCatches)
                throw Thrown(text);
            return static_cast<int>(text.size());
        };
        b["over"] = coil::overloaded([] { return 0; }, [](int x) { return x; }, [](std::string x, unsigned char y) { return x + std::to_string(y); });
        b["self"] = [p](coil::Context context, std::string const& text) {
            p->bindings[cx::view("made " + text)] = [](short x) { return x; };
            cx::Result r = cx::plain(p->bindings.execute(coil::StringView{"sum 10 20"}));
            context.log(r.returnValue ? cx::own(*r.returnValue) : coil::String{"failed"});
        };
        b["blob"] = [](user::Blob v) { return v; };
        b["wide"] = [](unsigned long long x, long long y, unsigned short z) { return x / 2 + static_cast<unsigned long long>(y) / 4 + z; };
        b["chars"] = [](char x, signed char y, unsigned char z) { return std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(z); };
        b["views"] = [](coil::StringView x, std::vector<std::string_view> const& y) { return cx::str(x) + "/" + std::to_string(y.size()); };
        b["nothing"] = [p] { p->calls.push_back("nothing"); };
    }

    std::string describe(coil::Bindings const& b, char const* name)
    {
        coil::Bindings::Command const* command = b.get(name);
        if (!command)
            return std::string{name} + " is not there";
        std::string r = cx::str(command->name);
        for (size_t i = 0; i < command->functors.size(); i++)
        {
            auto const& f = command->functors[i];
            r += " " + std::to_string(f.arity()) + ":" + cx::str(f.returnType()) + "(";
            for (size_t k = 0; k < f.parameterTypes().size(); k++)
                r += cx::str(f.parameterTypes()[k]) + ",";
            r += ")";
        }
        return r;
    }

    template<typename T>
    std::string convert(std::string const& text)
    {
        auto r = coil::TypeSerializer<T>::fromString(coil::Value{cx::view(text)});
        return r ? "ok " + cx::str(coil::TypeSerializer<T>::toString(*r)) : "error " + cx::str(r.error());
    }

    Log run(Script const& script)
    {
        Log log;
        auto own = std::make_unique<Own>();
        bindAll(*own);
        for (Op const& op : script)
        {
            switch (op.kind)
            {
            default:
            case Op::ExecuteText:
            {
                gen::ExactText const text{op.text};
                log.push_back(cx::show(cx::plain(own->bindings.execute(cx::view(text)))));
                break;
            }
            case Op::Execute:
                log.push_back(cx::show(cx::plain(own->bindings.execute(cx::input(op.input)))));
                break;
            case Op::Metadata:
                for (char const* name : kNames)
                    log.push_back(describe(own->bindings, name));
                break;
            case Op::Convert:
                log.push_back(convert<int>(op.text) + convert<unsigned long long>(op.text) + convert<float>(op.text) + convert<long double>(op.text) + convert<bool>(op.text) + convert<std::vector<int>>(op.text) + convert<std::optional<double>>(op.text) + convert<coil::String>(op.text));
                log.push_back(cx::str(coil::toString(op.number)) + " " + cx::str(coil::toString(op.real)) + " " + cx::str(coil::toString(static_cast<float>(op.real))) + " " + cx::str(coil::toString(static_cast<unsigned>(op.number))));
                break;
            case Op::Format:
                log.push_back(cx::str(coil::sprintf("%s|%lld|%.9g|%*d|%s", op.text.c_str(), op.number, op.real, static_cast<int>(op.index % 3000), 5, op.other.c_str())));
                break;
            case Op::Lexer:
                own->bindings.setLexer(op.config.make());
                break;
            case Op::Rebind:
            {
                char const* name = kNames[op.index % std::size(kNames)];
                if (op.number % 3 == 0)
                    own->bindings[name] = nullptr;
                else if (op.number % 3 == 1)
                    bindAll(*own);
                else
                    own->bindings.add(cx::view(op.text), [](std::vector<std::string> v, unsigned x) { return v.size() + x; });
                log.push_back(describe(own->bindings, name) + " " + describe(own->bindings, op.text.c_str()));
                break;
            }
            case Op::Move:
            {
                coil::Bindings other = coil::move(own->bindings);
                own->bindings = coil::move(other);
                break;
            }
            case Op::Containers:
            {
                coil::String text = cx::own(op.text);
                text += cx::view(op.other);
                text = text + op.other.c_str() + "x";
                coil::Vector<coil::String> v;
                coil::UnorderedMap<coil::String, int> map;
                for (int i = 0; i < static_cast<int>(op.index % 40); i++)
                {
                    v.pushBack(text + coil::toString(i));
                    map.insertOrAssign(coil::toString(i * 7 % 11), i);
                }
                coil::Vector<coil::String> copy = v;
                map.erase(coil::String{"3"});
                std::string r = cx::str(text) + std::to_string(copy.size() + map.size());
                for (auto const& s : copy)
                    r += std::to_string(s.length());
                for (auto const& e : map)
                    r += "," + cx::str(e.key()) + "=" + std::to_string(e.value());
                log.push_back(r);
                break;
            }
            case Op::Errors:
            {
                coil::Value const v = op.input.args.empty() ? coil::Value{cx::view(op.text)} : cx::value(op.input.args[0]);
                log.push_back(cx::str(coil::errors::createGenericError<std::vector<long>>(v, cx::view(op.other)).value()));
                log.push_back(cx::str(coil::errors::createMismatchedSubvaluesError<std::optional<std::string>>(v, op.index).value()));
                break;
            }
            case Op::Fresh:
                own = std::make_unique<Own>();
                bindAll(*own);
                break;
            }
        }
        log.push_back(std::to_string(own->number) + own->word + std::to_string(own->list.size()) + std::to_string(own->object.health) + std::to_string(own->calls.size()));
        return log;
    }

    cx::Input someInput(pbt::Source& s)
    {
        cx::Input in;
        in.name = s.pick(kNames);
        for (size_t n = s.draw(4); n > 0; n--)
            switch (s.draw(5))
            {
            default:
            case 0:
                in.args.push_back(model::Model<int>::arg(s, !s.chance(1, 5)));
                break;
            case 1:
                in.args.push_back({{gen::text(s, 40)}});
                break;
            case 2:
                in.args.push_back(model::Model<std::vector<int>>::arg(s, !s.chance(1, 5)));
                break;
            case 3:
                in.args.push_back(model::Model<double>::arg(s, !s.chance(1, 5)));
                break;
            case 4:
                in.args.push_back(model::Model<user::Color>::arg(s, !s.chance(1, 5)));
                break;
            }
        static char const* const keys[] = {"k", "list", "z", "other"};
        for (size_t n = in.name == "named" ? s.draw(5) : s.chance(1, 6); n > 0; n--)
            in.named.push_back({s.pick(keys), s.flip() ? model::Model<int>::arg(s, !s.chance(1, 4)) : cx::Arg{{"a", "b"}}});
        return in;
    }

    Script someScript(pbt::Source& s)
    {
        Script script;
        grammar::Config config;
        for (size_t n = 0; n == 0 || s.more(8, n, 40); n++)
        {
            Op op;
            op.kind = static_cast<Op::Kind>(s.weighted({6, 5, 1, 2, 2, 1, 1, 1, 1, 1, 1}));
            op.number = gen::i64(s);
            op.index = s.draw(10000);
            switch (op.kind)
            {
            default:
                break;
            case Op::ExecuteText:
            {
                cx::Input const in = someInput(s);
                op.text = in.name;
                bool written = s.chance(3, 4);
                for (auto const& a : in.args)
                {
                    auto piece = grammar::renderArg(s, a, config);
                    written = written && piece;
                    if (piece)
                        op.text += std::string{config.spaces.empty() ? ' ' : config.spaces[0]} + piece->text;
                }
                if (!written)
                    op.text = grammar::tokenSoup(s, config, in.name, 30);
                break;
            }
            case Op::Execute:
                op.input = someInput(s);
                break;
            case Op::Convert:
                op.text = s.flip() ? model::Model<int>::arg(s, true).subvalues[0] : gen::text(s, 30);
                op.real = model::Model<double>::value(s);
                break;
            case Op::Format:
            case Op::Containers:
            case Op::Errors:
            case Op::Rebind:
                op.text = gen::text(s, 60);
                op.other = gen::text(s, s.chance(1, 10) ? 5000 : 60);
                op.real = model::Model<double>::value(s);
                if (op.kind == Op::Errors)
                    op.input = someInput(s);
                break;
            case Op::Lexer:
                config = grammar::disjointConfig(s);
                op.config = config;
                break;
            case Op::Fresh:
                config = {};
                break;
            }
            script.push_back(std::move(op));
        }
        return script;
    }
}

PBT_PROPERTY("C25",
             "two to four scripts of up to 40 operations (execute texts and structures over 25 commands of all supported types, errors, exceptions, named arguments, variables and properties, metadata and type names, conversions, formatting, lexers, rebinding, moving, containers), often the same script on every thread, each over its own registry, released together and repeated; "
             "each thread's log compared with a run of the script alone; thread sanitizer in variant T; non-trivial: at least four operations on every one of at least two threads",
             false)
{
    size_t const count = 2 + s.draw(3);
    std::vector<Script> scripts;
    bool const same = s.flip();
    for (size_t i = 0; i < count; i++)
        scripts.push_back(same && i > 0 ? scripts[0] : someScript(s));
    unsigned const rounds = 1 + static_cast<unsigned>(s.draw(3));

    bool enough = true;
    for (auto const& script : scripts)
        enough = enough && script.size() >= 4;
    c.nontrivial(enough);
    c.label(same ? "same script" : "different scripts");
    if (c.verbose)
        for (size_t i = 0; i < count; i++)
        {
            std::string line = "thread " + std::to_string(i) + ":";
            for (Op const& op : scripts[i])
                line += " " + std::to_string(op.kind) + (op.kind == Op::ExecuteText ? pbt::show(op.text, 60) : op.kind == Op::Execute ? cx::show(op.input) : "");
            c.note(line);
        }

    // on all threads first: what is prepared at its first use is prepared by several at once
    std::vector<std::vector<Log>> logs(count);
    std::atomic<size_t> ready{0};
    std::vector<std::thread> threads;
    for (size_t i = 0; i < count; i++)
        threads.emplace_back([&, i] {
            ready++;
            while (ready.load() < count)
                std::this_thread::yield();
            for (unsigned r = 0; r < rounds; r++)
                logs[i].push_back(run(scripts[i]));
        });
    for (auto& t : threads)
        t.join();

    for (size_t i = 0; i < count; i++)
    {
        Log const alone = run(scripts[i]);
        for (Log const& log : logs[i])
        {
            REQUIRE(c, log.size() == alone.size(), "another number of observations");
            for (size_t k = 0; k < log.size(); k++)
                REQUIRE(c, log[k] == alone[k], "thread " + std::to_string(i) + ", observation " + std::to_string(k) + ": " + pbt::show(log[k], 300) + " instead of " + pbt::show(alone[k], 300));
        }
    }
    c.key(s.choicesHash());
}

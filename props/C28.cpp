#include "grammar.h"
#include "model.h"
#include "tracked.h"

#include "coil/detail/StringConv.h"

#include <map>
#include <memory>
#include <new>

// Every allocation of an operation fails in turn: what was there before must still be there, whole, and nothing may leak.

namespace
{
    struct Faults
    {
        bool armed = false;
        bool persistent = false; // all further ones fail, too
        bool allocations = true, copies = true; // what may fail
        bool fired = false;
        size_t left = 0; // how many succeed before the failure
    };
    Faults g_faults;

    bool fails(bool counts)
    {
        if (!g_faults.armed || !counts)
            return false;
        if (g_faults.left > 0)
        {
            g_faults.left--;
            return false;
        }
        if (g_faults.fired && !g_faults.persistent)
            return false;
        g_faults.fired = true;
        return true;
    }

    void* allocate(size_t size)
    {
        if (fails(g_faults.allocations))
            return nullptr;
        return std::malloc(size ? size : 1);
    }
    void* allocateOrThrow(size_t size)
    {
        void* p = allocate(size);
        if (!p)
            throw std::bad_alloc();
        return p;
    }
}

void* operator new(size_t size) { return allocateOrThrow(size); }
void* operator new[](size_t size) { return allocateOrThrow(size); }
void* operator new(size_t size, std::nothrow_t const&) noexcept { return allocate(size); }
void* operator new[](size_t size, std::nothrow_t const&) noexcept { return allocate(size); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t) noexcept { std::free(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { std::free(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { std::free(p); }

namespace
{
#if defined(COIL_CONFIG_CATCH_EXCEPTIONS) && COIL_CONFIG_CATCH_EXCEPTIONS
    constexpr bool kCatches = true;
#else
    constexpr bool kCatches = false;
#endif

    enum class Outcome
    {
        Done,
        OutOfMemory,
    };

    // how an operation fails
    struct Mode
    {
        bool persistent = false;
        unsigned what = 0; // allocations, copies and moves of user-defined types, both
        static Mode random(pbt::Source& s) { return {s.chance(1, 3), static_cast<unsigned>(s.weighted({5, 1, 2}))}; }
    };

    // performs f with allocation (or copy) 'after' failing
    template<typename F>
    Outcome attempt(size_t after, Mode mode, F&& f)
    {
        g_faults = {true, mode.persistent, mode.what != 1, mode.what != 0, false, after};
        Outcome r = Outcome::Done;
        try
        {
            f();
        }
        catch (std::bad_alloc const&)
        {
            r = Outcome::OutOfMemory;
        }
        catch (...)
        {
            g_faults.armed = false;
            throw;
        }
        g_faults.armed = false;
        return r;
    }

    // a user-defined type whose copies and moves may fail
    struct Clumsy
    {
        explicit Clumsy(int value) : object(value) {}
        Clumsy(Clumsy const& rhs) : object((careful(), rhs.object)) {}
        Clumsy(Clumsy&& rhs) : object((careful(), std::move(rhs.object))) {}
        Clumsy& operator=(Clumsy const& rhs)
        {
            careful();
            object = rhs.object;
            return *this;
        }
        Clumsy& operator=(Clumsy&& rhs)
        {
            careful();
            object = std::move(rhs.object);
            return *this;
        }
        static void careful()
        {
            if (fails(g_faults.copies))
                throw std::bad_alloc();
        }
        tracked::Copyable object;
    };
}
namespace
{
    // copies may fail, moves cannot
    struct Brittle
    {
        explicit Brittle(int value = 0) : object(value) {}
        Brittle(Brittle const& rhs) : object((Clumsy::careful(), rhs.object)) {}
        Brittle(Brittle&& rhs) noexcept = default;
        Brittle& operator=(Brittle const& rhs)
        {
            Clumsy::careful();
            object = rhs.object;
            return *this;
        }
        Brittle& operator=(Brittle&& rhs) noexcept = default;
        tracked::Copyable object;
    };
    // there are only copies, and they may fail
    struct CopyOnly
    {
        explicit CopyOnly(int value = 0) : object(value) {}
        CopyOnly(CopyOnly const& rhs) : object((Clumsy::careful(), rhs.object)) {}
        CopyOnly& operator=(CopyOnly const& rhs)
        {
            Clumsy::careful();
            object = rhs.object;
            return *this;
        }
        tracked::Copyable object;
    };

    template<typename T>
    struct Elements : tracked::Traits<T>
    {
        static constexpr bool movesFail = false;
    };
    template<typename T, bool MovesFail>
    struct UserElements
    {
        static constexpr bool movesFail = MovesFail;
        static T make(int v) { return T{v}; }
        static int read(T const& v) { return v.object.value(); }
    };
    template<>
    struct Elements<Clumsy> : UserElements<Clumsy, true>
    {
    };
    template<>
    struct Elements<Brittle> : UserElements<Brittle, false>
    {
    };
    template<>
    struct Elements<CopyOnly> : UserElements<CopyOnly, false>
    {
    };
}
namespace coil
{
    template<>
    struct TypeSerializer<Clumsy>
    {
        static Expected<Clumsy, String> fromString(Value const& input)
        {
            auto number = TypeSerializer<int>::fromString(input);
            if (!number)
                return errors::createGenericError<Clumsy>(input, number.error());
            Clumsy value{*number};
            return value;
        }
        static String toString(Clumsy const& value) { return "clumsy " + TypeSerializer<int>::toString(value.object.value()); }
    };
}
COIL_CREATE_TYPE_NAME(Clumsy, "Clumsy");

namespace
{
    struct Result
    {
        std::vector<std::string> errors;
        std::string output;
        std::optional<std::string> value;
        bool operator==(Result const& rhs) const { return errors == rhs.errors && output == rhs.output && value == rhs.value; }
        std::string show() const
        {
            std::string r = value ? "value " + pbt::show(*value, 60) : "no value";
            for (auto const& e : errors)
                r += ", error " + pbt::show(e, 80);
            return r + ", output " + pbt::show(output, 60);
        }
    };
    Result plain(coil::ExecutionResult const& r)
    {
        Result p;
        for (size_t i = 0; i < r.errors.size(); i++)
            p.errors.push_back(cx::str(r.errors[i]));
        p.output = cx::str(r.output);
        if (r.returnValue)
            p.value = cx::str(*r.returnValue);
        return p;
    }

    bool isPrefix(std::string const& part, std::string const& whole)
    {
        return whole.compare(0, part.size(), part) == 0;
    }

    struct World
    {
        std::string variable;
        std::vector<int> numbers;
        unsigned depth = 0;
        void reset()
        {
            variable = "initial contents of the variable";
            numbers = {1, 2};
            depth = 0;
        }
    };

    struct Object
    {
        std::string text = "the text of an object, long enough for the heap";
        std::string member(std::string const& prefix) const { return prefix + text; }
        coil::String const& get() const { return value; }
        void set(coil::String const& v) { value = v; }
        coil::String value = "value of the property, on the heap";
    };

    // What is bound: made anew for each attempt.
    struct Spec
    {
        unsigned kind;
        int id;
    };
    constexpr unsigned kKinds = 13;

    // the few kinds of which the second overload is
    constexpr unsigned kFew[] = {4, 7, 9};
    template<typename F>
    void withOneOfFew(Spec spec, F&& take)
    {
        tracked::Copyable token{spec.id};
        int const id = spec.id;
        if (spec.kind == 4)
            take([token = std::move(token)](coil::String a, coil::StringView b, double c) { return std::move(a) + b + " " + coil::toString(c) + " " + coil::toString(token.value()); });
        else if (spec.kind == 7)
            take([id](coil::Context context, bool flag) {
                context.log(flag ? "a plain function was given true" : "a plain function was given false");
                return id;
            });
        else
            take([token = std::move(token)](Clumsy a, Clumsy const& b) { return Clumsy{a.object.value() + b.object.value() + token.value()}; });
    }

    template<typename F>
    void withFunction(Spec spec, coil::Bindings*& self, World& world, F&& take)
    {
        tracked::Copyable token{spec.id};
        int const id = spec.id;
        switch (spec.kind)
        {
        default:
        case 0:
            take([token = std::move(token)](coil::Context context, int number, std::string const& text) {
                context.logf("%d and %s", number, text.c_str());
                context.logline(cx::own(text));
                return text + std::to_string(token.value());
            });
            break;
        case 1:
            take([token = std::move(token)](coil::Context context, std::vector<std::string> const& list, std::optional<int> number) {
                for (auto const& e : list)
                    context.log(cx::own(e));
                std::vector<std::string> r = list;
                r.push_back(std::to_string(token.value()) + " with a tail that is on the heap");
                if (number)
                    r.push_back(std::to_string(*number));
                return r;
            });
            break;
        case 2:
            take([token = std::move(token)](coil::Context context) {
                context.loglinef("command %d", token.value());
                auto number = context.namedArgs().getOrReport<int>("number");
                auto text = context.namedArgs().getOrReport<std::string>("text", coil::NamedArgs::ArgType::Required);
                auto list = context.namedArgs().get<std::vector<double>>("list");
                if (list)
                    context.logf("%zu numbers", list.value().size());
                else
                    context.log(list.error().message);
                return std::string("returns ") + (number ? std::to_string(*number) : "") + (text ? *text : "");
            });
            break;
        case 3:
            take([token = std::move(token), &self, &world](coil::Context context, coil::StringView text) {
                if (world.depth >= 2)
                    return coil::String("too deep, says number ") + coil::toString(token.value());
                struct Depth
                {
                    unsigned& d;
                    Depth(unsigned& d) : d(d) { d++; }
                    ~Depth() { d--; }
                } depth{world.depth};
                coil::ExecutionResult r = self->execute(text);
                context.log(r.output);
                for (auto const& e : r.errors)
                    context.reportError(e);
                return r.returnValue ? *r.returnValue : coil::String("nothing was returned to number ") + coil::toString(token.value());
            });
            break;
        case 4:
            take([token = std::move(token)](coil::String a, coil::StringView b, double c) { return std::move(a) + b + " " + coil::toString(c) + " " + coil::toString(token.value()); });
            break;
        case 5:
            take([token = std::move(token)](coil::Context context, coil::Value const& value) {
                context.reportError("an error before the exception, long enough");
                context.log(value.str());
                throw std::runtime_error("an exception that explains itself at length, number " + std::to_string(token.value()));
            });
            break;
        case 6:
            take([token = std::move(token), &world](std::vector<int> numbers) -> std::vector<int> const& {
                world.numbers = std::move(numbers);
                world.numbers.push_back(token.value());
                return world.numbers;
            });
            break;
        case 7:
            take([id](coil::Context context, bool flag) {
                context.log(flag ? "a plain function was given true" : "a plain function was given false");
                return id;
            });
            break;
        case 8:
            take([token = std::move(token)](std::vector<std::optional<std::string>> list, unsigned char small, long double) { return std::to_string(list.size() + small) + " elements, said number " + std::to_string(token.value()); });
            break;
        case 9:
            take([token = std::move(token)](Clumsy a, Clumsy const& b) { return Clumsy{a.object.value() + b.object.value() + token.value()}; });
            break;
        case 10:
            take([token = std::move(token), clumsy = Clumsy{id}](coil::Context context, std::vector<Clumsy> list, std::optional<Clumsy> last) {
                context.logf("%zu elements", list.size());
                if (last)
                    list.push_back(*last);
                list.push_back(clumsy);
                return list;
            });
            break;
        case 11:
            take([token = std::move(token), clumsy = Clumsy{id}](coil::Context context) {
                auto a = context.namedArgs().get<Clumsy>("number");
                auto b = context.namedArgs().getOrReport<Clumsy>("number", coil::NamedArgs::ArgType::Optional, coil::Optional<Clumsy>{clumsy});
                context.log(a ? "there is a number" : a.error().message);
                return std::optional<Clumsy>{b ? *b : clumsy};
            });
            break;
        case 12:
            take([clumsy = Clumsy{id}, more = std::vector<Clumsy>(2, Clumsy{id})](Clumsy const& a) -> Clumsy const& { return a.object.value() == 1 ? clumsy : more[1]; });
            break;
        }
    }
    long tokensOf(Spec spec)
    {
        static long const n[kKinds] = {1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 2, 2, 3};
        return n[spec.kind];
    }

    struct Binding
    {
        std::vector<Spec> specs;
        unsigned form = 0; // how it is bound
        long tokens() const
        {
            long n = 0;
            if (form < 6)
                for (auto const& s : specs)
                    n += tokensOf(s);
            return n;
        }
    };

    constexpr unsigned kForms = 10;

    struct Registry
    {
        std::unique_ptr<coil::Bindings> bindings = std::make_unique<coil::Bindings>();
        coil::Bindings* self = bindings.get();
        World world;
        Object object;
    };

    // Makes the functions, then adds them with allocations failing.
    using Armed = std::function<Outcome(std::function<void()> const&)>;
    Outcome bindTo(Registry& r, std::string const& name, Binding const& b, Armed const& armed)
    {
        coil::StringView const view = cx::view(name);
        Outcome outcome = Outcome::Done;
        auto& bindings = *r.bindings;
        switch (b.form)
        {
        default:
        case 0:
            withFunction(b.specs[0], r.self, r.world, [&](auto f) { outcome = armed([&] { bindings[view] = std::move(f); }); });
            break;
        case 1:
            withFunction(b.specs[0], r.self, r.world, [&](auto f) { outcome = armed([&] { bindings.add(view, std::move(f)); }); });
            break;
        case 2:
            withFunction(b.specs[0], r.self, r.world, [&](auto f) { outcome = armed([&] { bindings[view] = coil::overloaded(std::move(f)); }); });
            break;
        case 3:
            withFunction(b.specs[0], r.self, r.world, [&](auto f) { withOneOfFew(b.specs[1], [&](auto g) { outcome = armed([&] { bindings[view] = coil::overloaded(std::move(f), std::move(g)); }); }); });
            break;
        case 4:
            withFunction(b.specs[0], r.self, r.world, [&](auto f) {
                withOneOfFew(b.specs[1], [&](auto g) {
                    outcome = armed([&] {
                        coil::Vector<coil::AnyFunctor> all = coil::overloaded(std::move(f));
                        auto more = coil::overloaded(std::move(g), [] { return 1; });
                        for (auto& m : more)
                            all.pushBack(coil::move(m));
                        bindings.add(view, std::move(all));
                    });
                });
            });
            break;
        case 5:
            withFunction(b.specs[0], r.self, r.world, [&](auto f) {
                // the function is made beforehand
                auto made = coil::overloaded(std::move(f));
                outcome = armed([&] { bindings.add(view, coil::move(made[0])); });
            });
            break;
        case 6:
            outcome = armed([&] { bindings[view] = coil::variable(&r.world.variable); });
            break;
        case 7:
            outcome = armed([&] { bindings[view] = coil::bind(&Object::member, &r.object); });
            break;
        case 8:
            outcome = armed([&] { bindings[view] = coil::bindProperty(&Object::get, &Object::set, &r.object); });
            break;
        case 9:
            outcome = armed([&] { bindings[view] = coil::property([&r] { return r.world.numbers; }, [&r](std::vector<int> const& v) { r.world.numbers = v; }); });
            break;
        }
        return outcome;
    }

    std::string const kUnknown = "a name nobody has bound";

    // everything that can be seen of a registry
    std::string fingerprint(Registry& r, std::vector<std::string> const& names)
    {
        std::string t;
        for (auto const& name : names)
        {
            coil::Bindings::Command const* command = r.bindings->get(cx::view(name));
            if (!command)
            {
                t += "-\n";
                continue;
            }
            t += cx::str(command->name) + ":";
            for (size_t i = 0; i < command->functors.size(); i++)
            {
                auto const& f = command->functors[i];
                t += " (";
                for (auto const& p : f.parameterTypes())
                    t += cx::str(p) + ",";
                t += ")" + cx::str(f.returnType()) + "=";
                coil::ExecutionInput in;
                in.name = cx::view(name);
                for (size_t k = 0; k < f.arity(); k++)
                    in.arguments.pushBack(coil::Value{coil::StringView{"1"}});
                r.world.reset();
                r.object = {};
                try
                {
                    t += plain(r.bindings->execute(coil::move(in))).show();
                }
                catch (std::exception const& e)
                {
                    t += std::string("throws ") + e.what();
                }
            }
            t += "\n";
        }
        return t;
    }

    std::string argument(pbt::Source& s)
    {
        switch (s.draw(8))
        {
        default:
        case 0:
            return "1";
        case 1:
            return std::to_string(s.draw(300));
        case 2:
            return "(1, 2, 3)";
        case 3:
            return "'a quoted text of more than a few letters'";
        case 4:
            return "(first, 'second one', third_with_a_long_name_that_needs_memory)";
        case 5:
            return gen::word(s, 60);
        case 6:
            return "true";
        case 7:
            return "'" + gen::word(s, 12) + " 1 2'";
        }
    }
    std::string commandText(pbt::Source& s, std::vector<std::string> const& names)
    {
        std::string t = s.chance(1, 12) ? kUnknown : s.pick(names);
        for (size_t n = s.draw(4); n > 0; n--)
            t += " " + argument(s);
        static char const* const named[] = {" number=3", " number=x", " text='some words in quotes'", " list=(1, 2.5, 3)", " list=(1, nothing)", " other=5", " ="};
        for (size_t n = s.draw(3); n > 0; n--)
            t += s.pick(named);
        if (s.chance(1, 15))
            t += s.flip() ? "'" : "(";
        return t;
    }

    // ------------------------------------------------------------------ the library's own types

    template<typename T>
    struct Strong
    {
        pbt::Case& c;
        size_t& faults;
        size_t limit;
        Mode mode;
        bool movesFail = false; // then elements may be lost, but nothing leaks and the object can be used

        // op(object) with each of its allocations failing: the object keeps its value until it succeeds
        template<typename Read, typename Op>
        void operator()(char const* what, T& object, Read&& read, Op&& op)
        {
            auto const before = read(object);
            T const before_ = object;
            for (size_t k = 0; k < limit; k++)
            {
                Outcome o = attempt(k, mode, [&] { op(object); });
                if (o == Outcome::Done)
                    return;
                faults++;
                if (movesFail)
                {
                    T const copy = object;
                    object = before_;
                    continue;
                }
                REQUIRE(c, read(object) == before, std::string(what) + " changes its object although allocation " + std::to_string(k) + " failed");
            }
        }
    };

    std::string sample(pbt::Source& s)
    {
        return gen::bytes(s, gen::size(s, 200), gen::alphabet(s));
    }

    void strings(pbt::Source& s, pbt::Case& c, size_t& faults)
    {
        Mode const mode = Mode::random(s);
        Strong<coil::String> strong{c, faults, 50, mode};
        coil::String text = cx::own(sample(s));
        std::string model = cx::str(text);
        auto read = [](coil::String const& t) { return cx::str(t) + (t.length() ? t.cStr()[t.length()] : '\0'); };
        for (size_t step = 0; step == 0 || s.more(6, step, 20); step++)
        {
            std::string const other = sample(s);
            coil::String const otherText = cx::own(other);
            size_t const op = s.draw(9);
            c.note("string op " + std::to_string(op) + " with " + pbt::show(other, 40));
            switch (op)
            {
            case 0:
                strong("+= StringView", text, read, [&](coil::String& t) { t += cx::view(other); });
                model += other;
                break;
            case 1:
                strong("+= String", text, read, [&](coil::String& t) { t += otherText; });
                model += other;
                break;
            case 2:
                strong("+= char", text, read, [&](coil::String& t) { t += 'x'; });
                model += 'x';
                break;
            case 3:
                strong("assignment", text, read, [&](coil::String& t) { t = otherText; });
                model = other;
                break;
            case 4:
            {
                size_t const n = s.draw(500);
                strong("reserve", text, read, [&](coil::String& t) { t.reserve(n); });
                break;
            }
            case 5:
            {
                size_t const n = s.draw(model.size() + 1);
                strong("resize", text, read, [&](coil::String& t) { t.resize(n); });
                model.resize(n);
                break;
            }
            case 6:
                strong("+= itself", text, read, [&](coil::String& t) { t += t; });
                model += std::string(model);
                break;
            case 7:
                strong("a copy with something added", text, read, [&](coil::String& t) { t = t + "!"; });
                model += '!';
                break;
            case 8:
            {
                size_t n = model.size() + s.draw(100);
                strong("resize", text, read, [&](coil::String& t) {
                    size_t const old = t.length();
                    t.resize(n);
                    for (size_t i = old; i < n; i++)
                        t.data()[i] = '_';
                });
                model.resize(n, '_');
                break;
            }
            }
            REQUIRE(c, cx::str(text) == model, "the string is another one after the operation");
            if (model.size() > 5000)
                break;
        }
    }

    template<typename T>
    void vectors(pbt::Source& s, pbt::Case& c, size_t& faults)
    {
        using R = Elements<T>;
        Mode const mode = Mode::random(s);
        using V = coil::Vector<T>;
        Strong<V> strong{c, faults, 100, mode, R::movesFail};
        V v;
        std::vector<int> model;
        auto read = [](V const& x) {
            std::vector<int> r;
            for (auto const& e : x)
                r.push_back(R::read(e));
            return r;
        };
        for (size_t step = 0; step == 0 || s.more(8, step, 25); step++)
        {
            size_t const op = s.draw(8);
            int const value = static_cast<int>(s.draw(30));
            c.note("vector op " + std::to_string(op) + " value " + std::to_string(value));
            switch (op)
            {
            case 0:
            case 1:
                strong("pushBack", v, read, [&](V& x) { x.pushBack(R::make(value)); });
                model.push_back(value);
                break;
            case 2:
            {
                V other;
                std::vector<int> m;
                for (size_t n = s.draw(6); n > 0; n--)
                    m.push_back(static_cast<int>(s.draw(30))), other.pushBack(R::make(m.back()));
                strong("assignment", v, read, [&](V& x) { x = other; });
                model = m;
                break;
            }
            case 3:
            {
                size_t const n = s.draw(20);
                strong("reserve", v, read, [&](V& x) { x.reserve(n); });
                break;
            }
            case 4:
            {
                V copy;
                for (size_t k = 0; k < 200; k++)
                {
                    if (attempt(k, mode, [&] { V inner(v); copy = coil::move(inner); }) == Outcome::Done)
                        break;
                    faults++;
                    REQUIRE(c, read(v) == model && copy.empty(), "copying changes the source, or the target although it failed");
                }
                REQUIRE(c, read(copy) == model, "the copy is another one");
                v = coil::move(copy);
                break;
            }
            case 5:
                if (!model.empty())
                {
                    // an element of itself
                    size_t const i = s.draw(model.size());
                    int const element = model[i];
                    strong("pushBack of its own element", v, read, [&](V& x) { x.pushBack(x[i]); });
                    model.push_back(element);
                }
                break;
            case 6:
                if (!model.empty())
                {
                    v.popBack();
                    model.pop_back();
                }
                break;
            case 7:
                if (s.chance(1, 3))
                {
                    v.clear();
                    model.clear();
                }
                break;
            }
            REQUIRE(c, read(v) == model, "the vector is another one after the operation");
        }
    }

    void maybes(pbt::Source& s, pbt::Case& c, size_t& faults)
    {
        Mode const mode = Mode::random(s);
        using O = coil::Optional<coil::String>;
        using X = coil::Expected<coil::String, coil::String>;
        auto readO = [](O const& o) { return o ? "+" + cx::str(*o) : std::string("-"); };
        auto readX = [](X const& x) { return x ? "+" + cx::str(x.value()) : "-" + cx::str(x.error()); };
        auto someX = [&]() -> X {
            if (s.flip())
                return cx::own(sample(s));
            return coil::makeUnexpected(cx::own(sample(s)));
        };
        Strong<O> strongO{c, faults, 20, mode};
        Strong<X> strongX{c, faults, 20, mode};
        O o;
        X x = someX();
        for (size_t step = 0; step == 0 || s.more(6, step, 20); step++)
        {
            O const otherO = s.flip() ? O{cx::own(sample(s))} : O{};
            X const otherX = someX();
            c.note("optional " + readO(o) + " = " + readO(otherO) + ", expected " + readX(x) + " = " + readX(otherX));
            strongO("assignment of an optional", o, readO, [&](O& t) { t = otherO; });
            REQUIRE(c, readO(o) == readO(otherO), "the optional is another one");
            strongX("assignment of an expected", x, readX, [&](X& t) { t = otherX; });
            REQUIRE(c, readX(x) == readX(otherX), "the expected is another one");
            for (size_t k = 0; k < 10; k++)
            {
                if (attempt(k, mode, [&] { O a(otherO); X b(otherX); }) == Outcome::Done)
                    break;
                faults++;
            }
        }
    }

    // ------------------------------------------------------------------ registries

    void registries(pbt::Source& s, pbt::Case& c, size_t& faults)
    {
        std::vector<std::string> names;
        for (size_t n = 1 + s.draw(5); n > 0; n--)
            names.push_back(s.chance(1, 3) ? gen::collidingName(s, 2) : "command" + std::to_string(n) + (s.chance(1, 3) ? "_with_a_name_that_does_not_fit_in_a_small_buffer" : ""));

        Registry real, twin;
        std::map<std::string, long> tokens; // of each name
        int nextId = 1;
        auto liveExpected = [&] {
            long n = 0;
            for (auto const& t : tokens)
                n += t.second;
            return n;
        };
        std::string before = fingerprint(real, names);
        for (size_t step = 0; step == 0 || s.more(8, step, 25); step++)
        {
            Mode const mode = Mode::random(s);
            size_t const op = s.weighted({6, 8, 2, 1, 1, 2});
            std::string const name = s.pick(names);
            switch (op)
            {
            default:
            case 0: // bind
            {
                Binding b;
                b.form = static_cast<unsigned>(s.draw(kForms));
                b.specs = {{static_cast<unsigned>(s.draw(kKinds)), nextId}, {kFew[s.draw(3)], nextId + 1}};
                nextId += 2;
                if (b.form != 3 && b.form != 4)
                    b.specs.resize(1);
                std::string const where = "step " + std::to_string(step) + " bind form " + std::to_string(b.form) + " kind " + std::to_string(b.specs[0].kind) + " to " + pbt::show(name, 40);
                c.note(where);
                bindTo(twin, name, b, [](auto&& f) {
                    f();
                    return Outcome::Done;
                });
                std::string const after = fingerprint(twin, names);
                long const oldTokens = tokens[name], newTokens = b.tokens();
                for (size_t k = 0; k < 60; k++)
                {
                    Outcome o = bindTo(real, name, b, [&](auto&& f) { return attempt(k, mode, f); });
                    std::string const now = fingerprint(real, names);
                    long const live = tracked::ledger().live;
                    long const rest = 2 * liveExpected() - 2 * oldTokens + newTokens; // without the tokens of this name in the real registry
                    if (o == Outcome::Done)
                    {
                        REQUIRE(c, now == after, where + ": after allocation " + std::to_string(k) + " failed, the registry is\n" + now + "instead of\n" + after);
                        REQUIRE(c, live == rest + newTokens, where + ": " + std::to_string(live) + " captures instead of " + std::to_string(rest + newTokens));
                        break;
                    }
                    faults++;
                    REQUIRE(c, now == before || now == after, where + ": allocation " + std::to_string(k) + " fails, and the registry is\n" + now + "neither\n" + before + "nor\n" + after);
                    bool const done = now == after && now != before;
                    REQUIRE(c, live == rest + (done ? newTokens : oldTokens), where + ": " + std::to_string(live) + " captures instead of " + std::to_string(rest + (done ? newTokens : oldTokens)) + " after allocation " + std::to_string(k) + " failed");
                    if (done)
                        break;
                    if (k == 59)
                        REQUIRE(c, false, where + " needs more than 60 allocations");
                }
                tokens[name] = newTokens;
                before = after;
                break;
            }
            case 1: // execute
            {
                std::string const text = commandText(s, names);
                bool const parsed = s.chance(1, 4);
                std::string const where = "step " + std::to_string(step) + " execute " + pbt::show(text, 200);
                c.note(where);
                auto run = [&](Registry& r) { return r.bindings->execute(cx::view(text)); };
                twin.world.reset();
                twin.object = {};
                Result expected;
                bool throwsAnyway = false;
                try
                {
                    expected = plain(run(twin));
                }
                catch (std::runtime_error const&)
                {
                    throwsAnyway = true;
                }
                std::string const exhausted = std::string("Exception caught during execution: ") + std::bad_alloc().what();
                for (size_t k = 0; k < 400; k += k < 60 ? 1 : 1 + s.draw(20))
                {
                    real.world.reset();
                    real.object = {};
                    Result got;
                    std::optional<coil::ExecutionResult> raw;
                    bool threw = false;
                    Outcome o;
                    try
                    {
                        if (parsed)
                        {
                            coil::DefaultLexer lexer;
                            o = attempt(k, mode, [&] {
                                auto input = lexer.parse(cx::view(text));
                                if (input)
                                    raw.emplace(real.bindings->execute(*coil::move(input)));
                                else
                                    raw.emplace(run(real));
                            });
                        }
                        else
                            o = attempt(k, mode, [&] { raw.emplace(run(real)); });
                    }
                    catch (std::runtime_error const&)
                    {
                        threw = true;
                        o = Outcome::Done;
                    }
                    faults += g_faults.fired;
                    REQUIRE(c, real.world.depth == 0, where + ": the stack was not unwound");
                    if (o == Outcome::OutOfMemory)
                    {
                        REQUIRE(c, g_faults.fired, where + ": bad_alloc out of nowhere");
                        continue;
                    }
                    if (threw)
                    {
                        REQUIRE(c, throwsAnyway, where + ": an exception leaves the execution");
                        if (!g_faults.fired)
                            break;
                        continue;
                    }
                    got = plain(*raw);
                    if (!throwsAnyway && got == expected)
                    {
                        if (!g_faults.fired)
                            break;
                        continue;
                    }
                    REQUIRE(c, g_faults.fired, where + ": gives " + got.show() + " instead of " + expected.show());
                    REQUIRE(c, kCatches, where + ": hides that allocation " + std::to_string(k) + " failed: " + got.show());
                    // only what happened before the failure, then the report; a nested execution may have reported it, too
                    REQUIRE(c, !got.value.has_value() && !got.errors.empty(), where + ": allocation " + std::to_string(k) + " failed, and the result is " + got.show());
                    bool reported = false;
                    for (auto const& e : got.errors)
                        reported = reported || e == exhausted;
                    REQUIRE(c, reported, where + ": the failure of allocation " + std::to_string(k) + " is not reported: " + got.show());
                    REQUIRE(c, throwsAnyway || isPrefix(got.output, expected.output), where + ": the output is not the beginning of what it should be: " + got.show() + " instead of " + expected.show());
                }
                break;
            }
            case 2: // remove
                c.note("step " + std::to_string(step) + " remove " + pbt::show(name, 40));
                for (Registry* r : {&real, &twin})
                {
                    Outcome o = attempt(0, mode, [&] { (*r->bindings)[cx::view(name)] = nullptr; });
                    if (o == Outcome::OutOfMemory) // allowed, as long as nothing changed
                    {
                        faults++;
                        REQUIRE(c, fingerprint(*r, names) == before, "a removal that failed changed the registry");
                        (*r->bindings)[cx::view(name)] = nullptr;
                    }
                }
                tokens[name] = 0;
                before = fingerprint(twin, names);
                break;
            case 3: // another lexer
            {
                c.note("step " + std::to_string(step) + " lexer");
                for (size_t k = 0; k < 30; k++)
                {
                    if (attempt(k, mode, [&] { real.bindings->setLexer(coil::makeUnique<coil::DefaultLexer>()); }) == Outcome::Done)
                        break;
                    faults++;
                    REQUIRE(c, plain(real.bindings->execute(cx::view(kUnknown))).errors.size() == 1, "no lexer is left");
                }
                break;
            }
            case 4: // a new registry
                c.note("step " + std::to_string(step) + " new registry");
                for (size_t k = 0; k < 30; k++)
                {
                    std::optional<coil::Bindings> fresh;
                    if (attempt(k, mode, [&] { fresh.emplace(); }) == Outcome::Done)
                        break;
                    faults++;
                }
                break;
            case 5: // parsing alone
            {
                std::string const text = commandText(s, names) + (s.flip() ? " (a, b; 'c d') x='e'" : "");
                c.note("step " + std::to_string(step) + " parse " + pbt::show(text, 100));
                coil::DefaultLexer lexer;
                auto expected = lexer.parse(cx::view(text));
                for (size_t k = 0; k < 200; k++)
                {
                    bool same = false;
                    std::optional<coil::Expected<coil::ExecutionInput, coil::String>> got;
                    Outcome o = attempt(k, mode, [&] { got.emplace(lexer.parse(cx::view(text))); });
                    faults += g_faults.fired;
                    if (o == Outcome::OutOfMemory)
                        continue;
                    same = got->hasValue() == expected.hasValue() && (*got ? cx::plain(got->value()) == cx::plain(expected.value()) : cx::str(got->error()) == cx::str(expected.error()));
                    REQUIRE(c, same, "parsing gives something else while memory is short");
                    if (!g_faults.fired)
                        break;
                }
                break;
            }
            }
            REQUIRE(c, tracked::ledger().live == 2 * liveExpected(), "captures were lost or kept");
        }
        std::string const end = fingerprint(real, names);
        REQUIRE(c, end == fingerprint(twin, names), "in the end the registry differs from one that never ran out of memory:\n" + end);
    }
}

PBT_PROPERTY("C28",
             "histories on registries (bind in ten ways, functions with captures, overloads, variables, properties, members; execute generated texts with nested executions, named arguments, lists, errors and exceptions; remove; replace the lexer; parse) and on strings, vectors, optionals and expecteds; each allocation of each operation, and each copy or move of a user-defined type, fails in turn, alone or with all that follow; "
             "after every failure everything is as before (or as after the operation), compared with a twin that never runs out of memory, captures are counted, and no operation hides a failure; non-trivial: at least ten failures",
             true)
{
    tracked::ledger() = {};
    size_t faults = 0;
    size_t const what = s.weighted({12, 2, 2, 2, 2, 1, 1, 1});
    switch (what)
    {
    default:
    case 0:
        registries(s, c, faults);
        break;
    case 1:
        strings(s, c, faults);
        break;
    case 2:
        vectors<coil::String>(s, c, faults);
        break;
    case 3:
        vectors<tracked::Copyable>(s, c, faults);
        break;
    case 4:
        maybes(s, c, faults);
        break;
    case 5:
        vectors<Brittle>(s, c, faults);
        break;
    case 6:
        vectors<CopyOnly>(s, c, faults);
        break;
    case 7:
        vectors<Clumsy>(s, c, faults);
        break;
    }
    c.expect(tracked::ledger().live == 0, "captures are left in the end");
    c.expect(tracked::ledger().fault.empty(), tracked::ledger().fault.c_str());
    c.key(s.choicesHash());
    c.nontrivial(faults >= 10);
    c.labelIf(what == 0, "registry");
    c.labelIf(faults >= 100, "100+ failures");
}

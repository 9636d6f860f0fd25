#include "battery_calls.h"

#include "coil/detail/StringConv.h"
#include "coil/detail/UnorderedMap.h"
#include "coil/detail/Utils.h"

#include <cstdarg>
#include <cmath>
#include <functional>
#include <memory>
#include <new>

// The work done is counted, not timed: every branch taken in the library's code (compiled with a call at each), every byte
// that the C library copies, compares or scans for it, every byte it allocates. The same scenario at a size of k and of 16 k:
// work in proportion grows 16 times; work that grows with the square of the size grows 256 times.

namespace work
{
    static bool counting = false;
    static uint64_t total = 0;

    __attribute__((no_sanitize("coverage"))) static inline void add(uint64_t n)
    {
        if (counting)
            total += n;
    }

    struct Meter
    {
        __attribute__((no_sanitize("coverage"))) Meter() { counting = true; }
        __attribute__((no_sanitize("coverage"))) ~Meter() { counting = false; }
    };
    // part of a callback that is the harness's own
    struct Pause
    {
        bool const was;
        __attribute__((no_sanitize("coverage"))) Pause() : was(counting) { counting = false; }
        __attribute__((no_sanitize("coverage"))) ~Pause() { counting = was; }
    };
}

#define UNCOUNTED __attribute__((no_sanitize("coverage")))

extern "C"
{
    UNCOUNTED void __sanitizer_cov_trace_pc() { work::add(1); }

    void* __real_memcpy(void*, void const*, size_t);
    void* __real_memmove(void*, void const*, size_t);
    void* __real_memset(void*, int, size_t);
    int __real_memcmp(void const*, void const*, size_t);
    size_t __real_strlen(char const*);
    int __real_strcmp(char const*, char const*);
    int __real_strncmp(char const*, char const*, size_t);
    void* __real_memchr(void const*, int, size_t);
    char* __real_strchr(char const*, int);
    int __real_vsnprintf(char*, size_t, char const*, va_list);
    long __real_strtol(char const*, char**, int);
    unsigned long __real_strtoul(char const*, char**, int);
    long long __real_strtoll(char const*, char**, int);
    unsigned long long __real_strtoull(char const*, char**, int);
    float __real_strtof(char const*, char**);
    double __real_strtod(char const*, char**);
    long double __real_strtold(char const*, char**);

    UNCOUNTED void* __wrap_memcpy(void* a, void const* b, size_t n) { return work::add(n), __real_memcpy(a, b, n); }
    UNCOUNTED void* __wrap_memmove(void* a, void const* b, size_t n) { return work::add(n), __real_memmove(a, b, n); }
    UNCOUNTED void* __wrap_memset(void* a, int v, size_t n) { return work::add(n), __real_memset(a, v, n); }
    UNCOUNTED int __wrap_memcmp(void const* a, void const* b, size_t n)
    {
        size_t i = 0;
        while (i < n && static_cast<char const*>(a)[i] == static_cast<char const*>(b)[i])
            i++;
        work::add(i + 1);
        return __real_memcmp(a, b, n);
    }
    UNCOUNTED size_t __wrap_strlen(char const* a)
    {
        size_t const n = __real_strlen(a);
        work::add(n + 1);
        return n;
    }
    UNCOUNTED int __wrap_strcmp(char const* a, char const* b)
    {
        size_t i = 0;
        while (a[i] && a[i] == b[i])
            i++;
        work::add(i + 1);
        return __real_strcmp(a, b);
    }
    UNCOUNTED int __wrap_strncmp(char const* a, char const* b, size_t n)
    {
        size_t i = 0;
        while (i < n && a[i] && a[i] == b[i])
            i++;
        work::add(i + 1);
        return __real_strncmp(a, b, n);
    }
    UNCOUNTED void* __wrap_memchr(void const* a, int v, size_t n)
    {
        void* r = __real_memchr(a, v, n);
        work::add(r ? static_cast<size_t>(static_cast<char*>(r) - static_cast<char const*>(a)) + 1 : n);
        return r;
    }
    UNCOUNTED char* __wrap_strchr(char const* a, int v)
    {
        char* r = __real_strchr(a, v);
        work::add(r ? static_cast<size_t>(r - a) + 1 : __real_strlen(a) + 1);
        return r;
    }
    UNCOUNTED int __wrap_vsnprintf(char* a, size_t n, char const* format, va_list args)
    {
        int const r = __real_vsnprintf(a, n, format, args);
        work::add(static_cast<uint64_t>(r > 0 ? r : 0) + 1);
        return r;
    }
    UNCOUNTED long __wrap_strtol(char const* a, char** end, int base)
    {
        char* e = nullptr;
        long const r = __real_strtol(a, &e, base);
        work::add(static_cast<uint64_t>(e - a) + 1);
        if (end)
            *end = e;
        return r;
    }
    UNCOUNTED unsigned long __wrap_strtoul(char const* a, char** end, int base)
    {
        char* e = nullptr;
        unsigned long const r = __real_strtoul(a, &e, base);
        work::add(static_cast<uint64_t>(e - a) + 1);
        if (end)
            *end = e;
        return r;
    }
    UNCOUNTED long long __wrap_strtoll(char const* a, char** end, int base)
    {
        char* e = nullptr;
        long long const r = __real_strtoll(a, &e, base);
        work::add(static_cast<uint64_t>(e - a) + 1);
        if (end)
            *end = e;
        return r;
    }
    UNCOUNTED unsigned long long __wrap_strtoull(char const* a, char** end, int base)
    {
        char* e = nullptr;
        unsigned long long const r = __real_strtoull(a, &e, base);
        work::add(static_cast<uint64_t>(e - a) + 1);
        if (end)
            *end = e;
        return r;
    }
    UNCOUNTED float __wrap_strtof(char const* a, char** end)
    {
        char* e = nullptr;
        float const r = __real_strtof(a, &e);
        work::add(static_cast<uint64_t>(e - a) + 1);
        if (end)
            *end = e;
        return r;
    }
    UNCOUNTED double __wrap_strtod(char const* a, char** end)
    {
        char* e = nullptr;
        double const r = __real_strtod(a, &e);
        work::add(static_cast<uint64_t>(e - a) + 1);
        if (end)
            *end = e;
        return r;
    }
    UNCOUNTED long double __wrap_strtold(char const* a, char** end)
    {
        char* e = nullptr;
        long double const r = __real_strtold(a, &e);
        work::add(static_cast<uint64_t>(e - a) + 1);
        if (end)
            *end = e;
        return r;
    }
}

UNCOUNTED void* operator new(size_t n)
{
    work::add(16 + n);
    void* p = std::malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc{};
    return p;
}
UNCOUNTED void operator delete(void* p) noexcept
{
    work::add(4);
    std::free(p);
}
UNCOUNTED void operator delete(void* p, size_t) noexcept
{
    operator delete(p);
}

namespace
{
    using work::Meter;
    using work::Pause;

    // a text of k units, each a little different when the unit has a '@'
    std::string repeat(std::string const& unit, size_t k)
    {
        std::string r;
        r.reserve((unit.size() + 8) * k);
        for (size_t i = 0; i < k; i++)
            for (char ch : unit)
                if (ch == '@')
                    r += std::to_string(i);
                else
                    r += ch;
        return r;
    }

    struct Scenario
    {
        std::string what;
        std::function<void(size_t)> run;
        bool constant = false; // the work must not depend on k at all
    };

    Scenario texts(pbt::Source& s)
    {
        grammar::Config config = grammar::disjointConfig(s);
        std::string const prefix = std::string{battery::names[s.draw(sizeof(battery::names) / sizeof(*battery::names))]} + (s.flip() ? " " : s.flip() ? " (" : s.flip() ? " '" : "");
        std::string unit;
        switch (s.draw(4))
        {
        default:
            unit = gen::text(s, s.flip() ? gen::Alphabet::Syntax : gen::Alphabet::Word, 12);
            break;
        case 1:
            unit = battery::write(s, battery::call(s, s.flip()), config);
            break;
        case 2:
            unit = s.pick({" @", " k@=1", ",@", " 'a b'", " (1 2)", " a@,b", "\"x\" ", "7", " =", " ()", " x=(1,2,3) 4", "  ", "(", "'", ";", "=@"});
            break;
        case 3:
            unit = std::string(1, gen::byteOf(s, gen::Alphabet::Syntax)) + (s.flip() ? "@" : "") + std::string(1, gen::byteOf(s, gen::Alphabet::Syntax));
            break;
        }
        if (unit.empty())
            unit = " 1";
        if (unit.size() > 60)
            unit.resize(60);
        std::string const suffix = s.flip() ? "" : s.pick({")", "'", " ", "=", " a=", ",", " (1 2)"});
        return {"text " + pbt::show(prefix) + " + k * " + pbt::show(unit) + " + " + pbt::show(suffix) + ", " + config.show(), [=](size_t k) {
                    gen::ExactText const text{prefix + repeat(unit, k) + suffix};
                    battery::State state;
                    coil::Bindings b;
                    battery::fill(b, state);
                    if (!config.isDefault)
                        b.setLexer(config.make());
                    Meter meter;
                    auto result = b.execute(cx::view(text));
                    (void)result;
                }};
    }

    Scenario inputs(pbt::Source& s)
    {
        std::string const name = battery::names[s.draw(sizeof(battery::names) / sizeof(*battery::names))];
        unsigned const shape = static_cast<unsigned>(s.draw(5));
        std::string unit = s.flip() ? std::to_string(gen::i64(s)) : s.flip() ? "true" : gen::text(s, 20);
        bool const wrongLast = s.chance(1, 3);
        return {"structured input, shape " + std::to_string(shape) + ", of " + name + ", made of " + pbt::show(unit) + (wrongLast ? ", the last one unfit" : ""), [=](size_t k) {
                    cx::Input in;
                    in.name = name;
                    auto many = [&] { return cx::Arg{std::vector<std::string>(k, unit)}; };
                    switch (shape)
                    {
                    default:
                    case 0: // one list
                        in.args.push_back(many());
                        if (wrongLast)
                            in.args[0].subvalues.push_back("?");
                        break;
                    case 1: // many arguments
                        in.args.assign(k, cx::Arg{{unit}});
                        break;
                    case 2: // many named
                        for (size_t i = 0; i < k; i++)
                            in.named.push_back({"key" + std::to_string(i), cx::Arg{{unit}}});
                        in.args.push_back(cx::Arg{{unit}});
                        break;
                    case 3: // one long text
                        in.args.push_back(cx::Arg{{repeat(unit.empty() ? "x" : unit, k)}});
                        break;
                    case 4: // a long name
                        in.name = repeat(name, k);
                        break;
                    }
                    battery::State state;
                    coil::Bindings b;
                    battery::fill(b, state);
                    auto input = cx::input(in);
                    Meter meter;
                    auto result = b.execute(coil::move(input));
                    (void)result;
                }};
    }

    Scenario logging(pbt::Source& s)
    {
        std::vector<std::pair<unsigned, std::string>> steps;
        for (size_t n = 0; n == 0 || s.more(2, n, 5); n++)
            steps.push_back({static_cast<unsigned>(s.draw(7)), gen::text(s, gen::Alphabet::Print, 30)});
        std::string what = "a command that logs, k times:";
        for (auto const& step : steps)
            what += " " + std::to_string(step.first) + ":" + pbt::show(step.second);
        return {what, [=](size_t k) {
                    coil::Bindings b;
                    b["log"] = [&](coil::Context context) {
                        for (size_t i = 0; i < k; i++)
                            for (auto const& step : steps)
                                switch (step.first)
                                {
                                default:
                                case 0:
                                    context.log(cx::own(step.second));
                                    break;
                                case 1:
                                    context.logline(cx::own(step.second));
                                    break;
                                case 2:
                                    context.logf("%s|%d", step.second.c_str(), 5);
                                    break;
                                case 3:
                                    context.loglinef("%s|%d", step.second.c_str(), 5);
                                    break;
                                case 4:
                                    context.reportError(cx::own(step.second));
                                    break;
                                case 5:
                                    context.logline(coil::String{""});
                                    break;
                                case 6:
                                    (void)context.hasErrors();
                                    break;
                                }
                    };
                    Meter meter;
                    auto result = b.execute("log");
                    (void)result;
                }};
    }

    Scenario returning(pbt::Source& s)
    {
        unsigned const shape = static_cast<unsigned>(s.draw(8));
        std::string const unit = gen::text(s, 20);
        return {"a function that returns something of k elements, shape " + std::to_string(shape) + ", element " + pbt::show(unit), [=](size_t k) {
                    coil::Bindings b;
                    auto hold = [&](auto f) { b["f"] = coil::move(f); };
                    switch (shape)
                    {
                    default:
                    case 0:
                        hold([=] { Pause p; return std::vector<std::string>(k, unit); });
                        break;
                    case 1:
                        hold([=] { Pause p; return std::vector<int>(k, 123456); });
                        break;
                    case 2:
                        hold([=] { Pause p; return std::vector<double>(k, 1.25); });
                        break;
                    case 3:
                        hold([=] { Pause p; return std::vector<bool>(k, true); });
                        break;
                    case 4:
                        hold([=] { Pause p; return std::vector<std::vector<std::string>>(k, std::vector<std::string>(2, unit)); });
                        break;
                    case 5:
                        hold([=] { Pause p; return std::optional<std::vector<std::optional<int>>>(std::vector<std::optional<int>>(k, 3)); });
                        break;
                    case 6:
                        hold([=] { Pause p; return repeat(unit + ".", k); });
                        break;
                    case 7:
                        hold([=] { Pause p; return std::vector<std::vector<int>>(2, std::vector<int>(k, -1)); });
                        break;
                    }
                    Meter meter;
                    auto result = b.execute("f");
                    (void)result;
                }};
    }

    // what stands before and behind the number in a name
    std::pair<std::string, std::string> naming(pbt::Source& s)
    {
        auto part = [&](char const* usual) { return s.chance(1, 3) ? std::string{} : s.flip() ? std::string{usual} : gen::text(s, gen::Alphabet::Word, s.chance(1, 6) ? 200 : 12); };
        std::string const before = part("command_");
        return {before, part("_run")};
    }

    // k rounds of operations on one registry, each round with names of its own
    Scenario histories(pbt::Source& s)
    {
        std::vector<unsigned> ops;
        std::string what = "k rounds on one registry:";
        for (size_t n = 0; n == 0 || s.more(3, n, 8); n++)
        {
            ops.push_back(static_cast<unsigned>(s.weighted({6, 4, 3, 3, 2, 2, 2, 1, 1, 2})));
            what += " " + std::to_string(ops.back());
        }
        auto const around = naming(s);
        what += ", names " + pbt::show(around.first + "@" + around.second);
        auto name = [=](size_t i) { return around.first + std::to_string(i) + around.second; };
        bool const removeAll = s.flip();
        return {what + (removeAll ? ", then all removed" : ""), [=](size_t k) {
                    coil::Bindings b;
                    {
                        Meter meter;
                        b["fixed"] = [](int v) { return v; };
                    }
                    std::vector<std::string> names;
                    for (size_t i = 0; i < k; i++)
                        names.push_back(name(i));
                    int variable = 0;
                    Meter meter;
                    for (size_t i = 0; i < k; i++)
                        for (unsigned op : ops)
                            switch (op)
                            {
                            default:
                            case 0:
                                b[cx::view(names[i])] = [](int v) { return v; };
                                break;
                            case 1:
                                (void)b.execute(cx::view(names[i]));
                                break;
                            case 2:
                                b.remove(cx::view(names[i / 2]));
                                break;
                            case 3:
                                (void)b.get(cx::view(names[k - 1 - i]));
                                break;
                            case 4:
                                (void)b.execute("fixed 5");
                                break;
                            case 5:
                                (void)b.execute("fixed five");
                                break;
                            case 6:
                                b[cx::view(names[i])] = coil::variable(&variable);
                                break;
                            case 7:
                                b.setLexer(coil::makeUnique<coil::DefaultLexer>());
                                break;
                            case 8:
                            {
                                coil::Bindings other = coil::move(b);
                                b = coil::move(other);
                                break;
                            }
                            case 9:
                                b["fixed"] = coil::overloaded([](int v) { return v; }, [](int v, int w) { return v + w; });
                                break;
                            }
                    if (removeAll)
                        for (auto const& n : names)
                            b[cx::view(n)] = nullptr;
                }};
    }

    // what a few operations cost does not depend on how many commands there are
    Scenario crowded(pbt::Source& s)
    {
        std::vector<unsigned> ops;
        std::string what = "operations on a registry of k commands:";
        for (size_t n = 0; n == 0 || s.more(3, n, 8); n++)
        {
            ops.push_back(static_cast<unsigned>(s.draw(6)));
            what += " " + std::to_string(ops.back());
        }
        auto const around = naming(s);
        auto name = [=](size_t i) { return around.first + std::to_string(100000 + i) + around.second; };
        size_t const offset = s.draw(1000);
        return {what + ", names " + pbt::show(around.first + "@" + around.second), [=](size_t k) {
                    coil::Bindings b;
                    for (size_t i = 0; i < k; i++)
                        b[cx::view(name(i))] = [](int v) { return v; };
                    b["fixed"] = [](int v) { return v; };
                    for (size_t i = 0; i < 64; i++)
                    {
                        std::string const known = name((offset + i * 7) % k), missing = known + "?", command = known + " 1", wrong = known + " one";
                        Meter meter;
                        for (unsigned op : ops)
                            switch (op)
                            {
                            default:
                            case 0:
                                (void)b.get(cx::view(known));
                                break;
                            case 1:
                                (void)b.execute(cx::view(command));
                                break;
                            case 2:
                                (void)b.execute(cx::view(wrong));
                                break;
                            case 3:
                                (void)b.execute(cx::view(missing));
                                break;
                            case 4:
                                b[cx::view(known)] = [](int v) { return v; }; // replaced
                                break;
                            case 5:
                            {
                                coil::Bindings other = coil::move(b);
                                b = coil::move(other);
                                break;
                            }
                            }
                    }
                },
                true};
    }

    Scenario overloads(pbt::Source& s)
    {
        bool const found = s.flip();
        return {std::string{"a command of k overloads, "} + (found ? "the last one called" : "none of which fits"), [=](size_t k) {
                    coil::Bindings b;
                    coil::Vector<coil::AnyFunctor> functors;
                    Meter meter;
                    for (size_t i = 0; i < k; i++)
                    {
                        auto one = coil::overloaded([](int v, int w) { return v + w; });
                        functors.pushBack(coil::move(one[0]));
                    }
                    auto last = coil::overloaded([](int v) { return v; });
                    functors.pushBack(coil::move(last[0]));
                    b["over"] = coil::move(functors);
                    (void)b.execute(found ? "over 1" : "over 1 2 3");
                }};
    }

    Scenario nested(pbt::Source& s)
    {
        bool const logs = s.flip(), errors = s.chance(1, 3);
        return {std::string{"a command that executes itself, k deep"} + (logs ? ", and logs" : "") + (errors ? ", and fails" : ""), [=](size_t k) {
                    coil::Bindings b;
                    size_t left = k;
                    b["down"] = [&](coil::Context context, coil::StringView v) {
                        if (left > 0)
                        {
                            left--;
                            (void)b.execute("down again");
                        }
                        if (logs)
                            context.logline(coil::String{v});
                        if (errors)
                            context.reportError("failed");
                        return v;
                    };
                    Meter meter;
                    (void)b.execute("down first");
                }};
    }

    Scenario strings(pbt::Source& s)
    {
        std::vector<std::pair<unsigned, std::string>> steps;
        std::string what = "a string, k times:";
        for (size_t n = 0; n == 0 || s.more(3, n, 6); n++)
        {
            steps.push_back({static_cast<unsigned>(s.draw(6)), gen::text(s, gen::Alphabet::Print, 30)});
            what += " " + std::to_string(steps.back().first) + ":" + pbt::show(steps.back().second);
        }
        return {what, [=](size_t k) {
                    coil::String text;
                    Meter meter;
                    for (size_t i = 0; i < k; i++)
                        for (auto const& step : steps)
                            switch (step.first)
                            {
                            default:
                            case 0:
                                text += cx::view(step.second);
                                break;
                            case 1:
                                text += 'x';
                                break;
                            case 2:
                                text += step.second.c_str();
                                break;
                            case 3:
                                text += cx::own(step.second);
                                break;
                            case 4:
                                (void)text.length();
                                (void)text.empty();
                                (void)coil::StringView{text};
                                (void)text.cStr();
                                break;
                            case 5:
                            {
                                coil::String other = coil::move(text);
                                text = coil::move(other);
                                break;
                            }
                            }
                    coil::String copy = text;
                    (void)(copy == text);
                }};
    }

    struct Element
    {
        Element(int v = 0) : value(std::make_unique<int>(v)) {}
        Element(Element const& rhs) : value(std::make_unique<int>(*rhs.value)) {}
        Element(Element&& rhs) : value(coil::move(rhs.value)) {}
        Element& operator=(Element const&) = default;
        bool operator==(Element const& rhs) const { return *value == *rhs.value; }
        bool operator!=(Element const& rhs) const { return !(*this == rhs); }
        std::unique_ptr<int> value;
    };

    template<typename T>
    Scenario vectors(pbt::Source& s)
    {
        std::vector<unsigned> steps;
        std::string what = "a vector, k times:";
        for (size_t n = 0; n == 0 || s.more(3, n, 6); n++)
        {
            steps.push_back(static_cast<unsigned>(s.weighted({6, 2, 2, 2})));
            what += " " + std::to_string(steps.back());
        }
        return {what, [=](size_t k) {
                    Meter meter;
                    coil::Vector<T> v;
                    for (size_t i = 0; i < k; i++)
                        for (unsigned step : steps)
                            switch (step)
                            {
                            default:
                            case 0:
                                v.pushBack(T{});
                                break;
                            case 1:
                                if (!v.empty())
                                    v.popBack();
                                break;
                            case 2:
                                (void)v.size();
                                (void)v.capacity();
                                (void)v.empty();
                                break;
                            case 3:
                            {
                                coil::Vector<T> other = coil::move(v);
                                v = coil::move(other);
                                break;
                            }
                            }
                    coil::Vector<T> copy = v;
                    (void)(copy == v);
                    copy.resize(copy.size() + k);
                    copy.reserve(copy.size() + 10);
                    v = copy;
                    copy.clear();
                }};
    }

    Scenario maps(pbt::Source& s)
    {
        unsigned const removals = static_cast<unsigned>(s.draw(3)), lookups = static_cast<unsigned>(s.draw(3));
        auto const around = naming(s);
        size_t const buckets = s.draw(20);
        return {"a map of " + std::to_string(buckets) + " buckets at first: k insertions, " + std::to_string(removals) + " * k removals, " + std::to_string(lookups) + " * k lookups", [=](size_t k) {
                    std::vector<std::string> keys;
                    for (size_t i = 0; i < k; i++)
                        keys.push_back(around.first + std::to_string(i) + around.second);
                    Meter meter;
                    coil::UnorderedMap<coil::String, coil::String> map{buckets};
                    for (size_t i = 0; i < k; i++)
                        map.insertOrAssign(cx::own(keys[i]), coil::String{"value"});
                    for (unsigned n = 0; n < lookups; n++)
                        for (size_t i = 0; i < k; i++)
                            (void)(map.find(cx::view(keys[i])) != map.end());
                    for (unsigned n = 0; n < removals; n++)
                        for (size_t i = 0; i < k; i++)
                            map.erase(cx::view(keys[n ? k - 1 - i : i]));
                    for (size_t i = 0; i < k; i++)
                        map.insertOrAssign(cx::own(keys[i]), coil::String{"again"});
                }};
    }

    Scenario values(pbt::Source& s)
    {
        std::string const unit = gen::text(s, 20);
        unsigned const shape = static_cast<unsigned>(s.draw(5));
        return {"shape " + std::to_string(shape) + " of " + pbt::show(unit) + " converted, printed, formatted", [=](size_t k) {
                    std::vector<std::string> const parts(k, unit);
                    std::string const joined = repeat(unit + "-", k);
                    cx::Arg const arg{parts};
                    coil::Value const value = cx::value(arg);
                    coil::Value const one = cx::value(cx::Arg{{joined}});
                    Meter meter;
                    switch (shape)
                    {
                    default:
                    case 0:
                        (void)value.str();
                        break;
                    case 1:
                        (void)value.get<std::vector<int>>();
                        (void)value.get<std::vector<std::string>>();
                        (void)value.get<std::optional<std::vector<coil::String>>>();
                        break;
                    case 2:
                        (void)one.get<int>();
                        (void)one.get<bool>();
                        (void)one.get<double>();
                        (void)one.get<coil::String>();
                        (void)one.get<std::string>();
                        break;
                    case 3:
                        (void)coil::sprintf("%s, %s", joined.c_str(), joined.c_str());
                        break;
                    case 4:
                        (void)(value == value);
                        (void)coil::Value{value};
                        (void)value.get<int>();
                        break;
                    }
                }};
    }

    std::string exponent(double ratio)
    {
        char text[40];
        snprintf(text, sizeof(text), "%.2f", std::log(ratio) / std::log(16.0));
        return text;
    }
}

PBT_PROPERTY("C29",
             "a scenario (a text of k repeated pieces, well-formed or not, default or other delimiters; a structured input with a list, arguments, named arguments, a text or a name of length k; a command that logs or reports k times, executes itself k deep or returns k elements; k rounds of binding, executing, failing, removing, looking up and moving with ever new names; strings, vectors and maps built by k operations; conversions of k elements) is run at k and at 16 k and the work is counted (branches taken in the library, bytes allocated, copied, compared and scanned): "
             "it may grow at most 40-fold (16 to the power of 1.33), and what a few operations cost on a registry of k commands at most threefold; non-trivial: the larger run did at least 20000 units of work, or the work must not depend on k",
             false)
{
    using Make = Scenario (*)(pbt::Source&);
    static Make const makers[] = {&texts, &inputs, &logging, &returning, &histories, &crowded, &overloads, &nested, &strings, &vectors<int>, &vectors<Element>, &vectors<coil::String>, &maps, &values};
    static char const* const names[] = {"texts", "inputs", "logging", "returning", "histories", "crowded", "overloads", "nested", "strings", "vectors", "vectors", "vectors", "maps", "values"};
    size_t const which = s.weighted({8, 5, 3, 3, 6, 3, 1, 1, 3, 1, 1, 1, 3, 3});
    Scenario const scenario = makers[which](s);
    size_t const k = s.chance(1, 25) && makers[which] != &nested ? 800 + s.draw(400) : 40 + s.draw(120); // (depth takes stack)
    c.label(names[which]);
    c.note(scenario.what);
    c.note("k = " + std::to_string(k));

    auto measure = [&](size_t size) {
        work::total = 0;
        scenario.run(size);
        return work::total;
    };
    uint64_t const small = measure(k);
    uint64_t const large = measure(16 * k);
    c.note("work " + std::to_string(small) + ", then " + std::to_string(large));
    c.key(scenario.what);
    c.key(k);
    c.nontrivial(scenario.constant || large >= 20000);
    c.labelIf(large >= 1000000, "a million units of work");

    std::string const figures = scenario.what + "; work " + std::to_string(small) + " for k = " + std::to_string(k) + ", " + std::to_string(large) + " for k = " + std::to_string(16 * k) + " (exponent " + exponent(static_cast<double>(large) / static_cast<double>(small ? small : 1)) + ")";
    if (scenario.constant)
        REQUIRE(c, large <= 3 * small + 20000, figures);
    else
        REQUIRE(c, large <= 40 * small + 20000, figures);
}

#include "coilx.h"

#include <map>
#include <memory>
#include <set>

namespace
{
    // Every instrumented function object is recorded by address while it lives.
    struct Ledger
    {
        std::map<int, int> live; // binding -> instances
        std::set<void const*> alive;
        std::string error;
        void fail(std::string const& e)
        {
            if (error.empty())
                error = e;
        }
    };
    Ledger* g_ledger = nullptr;

    template<size_t N>
    class Tracked
    {
    public:
        explicit Tracked(int binding) : m_binding(binding)
        {
            fill();
            born();
        }
        Tracked(Tracked const& rhs) : m_binding(rhs.m_binding)
        {
            rhs.verify("copied");
            fill();
            born();
        }
        Tracked(Tracked&& rhs) noexcept : m_binding(rhs.m_binding)
        {
            rhs.verify("moved");
            fill();
            born();
        }
        Tracked& operator=(Tracked const& rhs)
        {
            g_ledger->live[m_binding]--;
            m_binding = rhs.m_binding;
            g_ledger->live[m_binding]++;
            fill();
            return *this;
        }
        ~Tracked()
        {
            verify("destroyed");
            if (g_ledger->alive.erase(this) != 1)
                g_ledger->fail("a function object was destroyed twice or never constructed");
            g_ledger->live[m_binding]--;
            std::memset(m_payload, 0xdd, N);
        }
        void verify(char const* what) const
        {
            if (!g_ledger->alive.count(this))
                g_ledger->fail(std::string{"a dead function object was "} + what);
            for (size_t i = 0; i < N; i++)
                if (m_payload[i] != pattern(i))
                    return g_ledger->fail(std::string{"the captured state had changed when a function object was "} + what);
        }
        int binding() const
        {
            verify("called");
            return m_binding;
        }

    private:
        unsigned char pattern(size_t i) const { return static_cast<unsigned char>(static_cast<size_t>(m_binding) * 31 + i * 7 + 1); }
        void fill()
        {
            for (size_t i = 0; i < N; i++)
                m_payload[i] = pattern(i);
        }
        void born()
        {
            if (!g_ledger->alive.insert(this).second)
                g_ledger->fail("a function object was constructed over a living one");
            g_ledger->live[m_binding]++;
        }

        int m_binding;
        unsigned char m_payload[N];
    };

    struct Object
    {
        int value = 0;
        int get() const { return value; }
        void set(int v) { value = v; }
    };

    struct Binding
    {
        std::string name;
        int id = 0;
        bool callable0 = true; // returns its id without arguments
        bool counts = true;    // has instrumented state
    };

    // move-only callable
    template<size_t N>
    struct MoveOnly
    {
        explicit MoveOnly(int id) : state(id) {}
        MoveOnly(MoveOnly&&) noexcept = default;
        MoveOnly(MoveOnly const&) = delete;
        Tracked<N> state;
        int calls = 0;
        int operator()() { return ++calls, state.binding(); }
    };

    template<size_t N>
    coil::Vector<coil::AnyFunctor> make(pbt::Source& s, pbt::Case& c, int id, Object* object, std::string& how)
    {
        Tracked<N> t{id};
        switch (s.draw(9))
        {
        default:
        case 0:
            how = "lambda";
            return coil::overloaded([t] { return t.binding(); });
        case 1:
            how = "overloads";
            return coil::overloaded([t](int) { return t.binding(); }, [t](coil::Context, coil::String const&, bool) { return t.binding(); }, [t] { return t.binding(); });
        case 2:
            how = "property get/set";
            return coil::property([t] { return t.binding(); }, [t](int) { (void)t.binding(); });
        case 3:
            how = "property get";
            return coil::property([t] { return t.binding(); });
        case 4:
            how = "bindProperty functors";
            return coil::bindProperty([t](Object* o) { return o ? t.binding() : 0; }, [t](Object* o, int v) { o->value = v + 0 * t.binding(); }, object);
        case 5:
            how = "move-only";
            return coil::overloaded(MoveOnly<N>{id}, [t](std::vector<int> const&) { return t.binding(); });
        case 6:
        {
            how = "AnyFunctors moved around";
            auto vector = coil::overloaded([t] { return t.binding(); }, [t](int) { return t.binding(); });
            coil::Vector<coil::AnyFunctor> result;
            for (auto& f : vector)
            {
                coil::AnyFunctor g{coil::move(f)};
                result.pushBack(coil::move(g));
            }
            return result;
        }
        case 7:
            how = "nested overloads";
            return coil::overloaded([t] { return t.binding(); }, coil::bind(&Object::set, object), [t](int, int) { return t.binding(); });
        case 8:
        {
            how = "many overloads";
            coil::Vector<coil::AnyFunctor> result = coil::overloaded([t] { return t.binding(); });
            for (uint64_t n = 1 + s.draw(40); n > 0; n--)
            {
                auto more = coil::overloaded([t](int, int, int) { return t.binding(); });
                result.pushBack(coil::AnyFunctor{coil::move(more[0])});
            }
            return result;
        }
        }
    }

    struct Registry
    {
        std::unique_ptr<coil::Bindings> bindings = std::make_unique<coil::Bindings>();
        std::map<std::string, int> bound; // name -> id
    };
}

PBT_PROPERTY("C08",
             "a history of up to 150 operations (bind one of 9 kinds of functions with captured state of 1 to 5000 bytes, bind a variable, build and drop functors, replace, remove, clear, execute, move construct and assign registries, destroy) over up to 3 registries; function objects record construction, copy, move and destruction by address and check their state; "
             "after every operation each binding must be alive if bound and entirely gone if not; non-trivial: at least two bindings ended by removal, replacement, clearing or destruction of a moved registry",
             true)
{
    Ledger ledger;
    g_ledger = &ledger;
    Object object;
    int variable = 5;
    std::set<int> boundIds;   // must be alive
    std::set<int> limbo;      // owned by a moved-from registry: may be alive until that one is destroyed
    std::set<int> everything; // every id
    size_t ended = 0;
    int nextId = 1;
    {
        std::vector<Registry> registries(1 + s.draw(3));
        std::vector<std::unique_ptr<coil::Bindings>> graveyard;
        auto name = [&] { return s.chance(1, 3) ? gen::collidingName(s, 2) : std::string(1, static_cast<char>('a' + s.draw(s.chance(1, 5) ? 26 : 5))); };
        auto unbind = [&](int id) {
            if (id == 0)
                return;
            boundIds.erase(id);
            ended++;
        };
        size_t const maxOps = s.chance(1, 10) ? 150 : 40;
        for (size_t n = 0; s.more(maxOps > 40 ? 90 : 15, n, maxOps) && !c.failed; n++)
        {
            Registry& r = registries[s.draw(registries.size())];
            unsigned op = static_cast<unsigned>(s.weighted({10, 5, 5, 2, 1, 2, 1, 1}));
            c.key(op);
            switch (op)
            {
            case 0:
            {
                int const id = nextId++;
                everything.insert(id);
                std::string how, key = name();
                size_t const sizeClass = s.draw(6);
                {
                    auto functors = sizeClass == 0   ? make<1>(s, c, id, &object, how)
                                    : sizeClass == 1 ? make<8>(s, c, id, &object, how)
                                    : sizeClass == 2 ? make<40>(s, c, id, &object, how)
                                    : sizeClass == 3 ? make<200>(s, c, id, &object, how)
                                    : sizeClass == 4 ? make<16>(s, c, id, &object, how)
                                                     : make<5000>(s, c, id, &object, how);
                    c.label(sizeClass == 5 ? "bind:large" : "bind");
                    c.note("bind " + pbt::show(key) + " = " + std::to_string(id) + " " + how + ", size class " + std::to_string(sizeClass));
                    if (s.flip())
                        r.bindings->add(cx::view(key), coil::move(functors));
                    else
                        (*r.bindings)[cx::view(key)] = coil::move(functors);
                }
                if (auto it = r.bound.find(key); it != r.bound.end())
                {
                    c.label("replace");
                    unbind(it->second);
                }
                r.bound[key] = id;
                boundIds.insert(id);
                break;
            }
            case 1:
            {
                std::string key = name();
                c.note("remove " + pbt::show(key));
                if (s.flip())
                    r.bindings->remove(cx::view(key));
                else
                    (*r.bindings)[cx::view(key)] = nullptr;
                if (auto it = r.bound.find(key); it != r.bound.end())
                {
                    c.label("remove");
                    unbind(it->second);
                    r.bound.erase(it);
                }
                break;
            }
            case 2:
                // execute what is there
                for (auto const& [key, id] : r.bound)
                {
                    coil::ExecutionInput input;
                    input.name = cx::view(key);
                    coil::ExecutionResult result = r.bindings->execute(coil::move(input));
                    std::string expected = id ? std::to_string(id) : std::to_string(variable);
                    c.expect(result.errors.empty() && result.returnValue.hasValue() && cx::str(*result.returnValue) == expected, "a bound function does not work", pbt::show(key));
                }
                c.label("execute");
                break;
            case 3:
            {
                c.note("move construct");
                c.label("move");
                auto moved = std::make_unique<coil::Bindings>(coil::move(*r.bindings));
                std::swap(moved, r.bindings);
                break;
            }
            case 4:
            {
                c.note("clear");
                c.label("clear");
                r.bindings->clear();
                for (auto const& [key, id] : r.bound)
                    unbind(id);
                r.bound.clear();
                break;
            }
            case 5:
            {
                // functors that never reach a registry, or reach it as a variable
                if (s.flip())
                {
                    int const id = nextId++;
                    everything.insert(id);
                    std::string how;
                    auto functors = make<24>(s, c, id, &object, how);
                    coil::Vector<coil::AnyFunctor> moved{coil::move(functors)};
                    c.expect(ledger.live[id] >= 1, "an unbound functor died early");
                    break;
                }
                std::string key = name();
                c.note("bind variable " + pbt::show(key));
                (*r.bindings)[cx::view(key)] = coil::variable(&variable);
                if (auto it = r.bound.find(key); it != r.bound.end())
                    unbind(it->second);
                r.bound[key] = 0;
                break;
            }
            case 6:
            {
                c.note("destroy a registry");
                c.label("destroy");
                for (auto const& [key, id] : r.bound)
                    unbind(id);
                r = Registry{};
                break;
            }
            case 7:
            {
                Registry& other = registries[s.draw(registries.size())];
                if (&other == &r)
                    break;
                c.note("move assign");
                c.label("move");
                *r.bindings = coil::move(*other.bindings);
                std::set<int> old;
                for (auto const& [key, id] : r.bound)
                {
                    unbind(id);
                    old.insert(id);
                }
                r.bound = other.bound;
                if (s.flip())
                {
                    graveyard.push_back(std::move(other.bindings));
                    limbo.insert(old.begin(), old.end());
                }
                other = Registry{};
                break;
            }
            }
            if (!graveyard.empty() && s.chance(1, 5))
            {
                graveyard.clear();
                limbo.clear();
            }
            for (int id : everything)
            {
                int live = ledger.live[id];
                if (boundIds.count(id))
                    c.expect(live >= 1, "the function of a bound command is gone", std::to_string(id));
                else if (!limbo.count(id))
                    c.expect(live == 0, "a function outlives its command", "binding " + std::to_string(id) + ", instances " + std::to_string(live));
            }
            if (!ledger.error.empty())
                c.fail(ledger.error);
        }
    }
    for (int id : everything)
        c.expect(ledger.live[id] == 0, "a function outlives its registry", std::to_string(id));
    c.expect(ledger.alive.empty(), "function objects are left");
    if (!ledger.error.empty())
        c.fail(ledger.error);
    c.nontrivial(ended >= 2);
    c.key(static_cast<uint64_t>(nextId));
}

#include "tracked.h"

#include "coil/detail/Expected.h"
#include "coil/detail/Optional.h"
#include "coil/detail/Unexpected.h"
#include "coil/detail/UniquePtr.h"

#include <cmath>
#include <optional>

// Optional, Expected, Unexpected and UniquePtr over sequences of operations on small pools of objects.

namespace
{
    using tracked::Traits;

    constexpr size_t kSlots = 3;

    struct Stats
    {
        unsigned changes = 0;
        unsigned transitions = 0; // between value and none or error
        unsigned moves = 0;
    };

    int nextValue(int& v)
    {
        return v = v % 90 + 1;
    }

    void checkLedger(pbt::Case& c, std::string const& where, bool counted, bool exact, long expected)
    {
        REQUIRE(c, tracked::ledger().fault.empty(), where + ": " + tracked::ledger().fault);
        if (!counted)
            return;
        long live = tracked::ledger().live;
        REQUIRE(c, exact ? live == expected : live >= expected, where + ": " + std::to_string(live) + " live objects instead of " + std::to_string(expected));
    }

    // ---- Optional ----

    template<typename T>
    void optionals(pbt::Source& s, pbt::Case& c)
    {
        using R = Traits<T>;
        using O = coil::Optional<T>;
        struct Slot
        {
            std::unique_ptr<O> real = std::make_unique<O>();
            std::optional<int> model;
            bool known = true;
            int last = 1; // held last
        };
        Stats stats;
        {
            Slot slots[kSlots];
            int value = 0;
            auto check = [&](std::string const& where) {
                long total = 0;
                bool all = true;
                for (auto const& slot : slots)
                {
                    all = all && slot.known;
                    if (!slot.known)
                        continue;
                    O const& r = *slot.real;
                    O& w = *slot.real;
                    REQUIRE(c, r.hasValue() == slot.model.has_value() && static_cast<bool>(r) == slot.model.has_value(), where + (slot.model ? ": the value is gone" : ": a value from nowhere"));
                    if (!slot.model)
                        continue;
                    total++;
                    REQUIRE(c, R::read(*r) == *slot.model && R::read(*w) == *slot.model, where + ": holds " + std::to_string(R::read(*r)) + " instead of " + std::to_string(*slot.model));
                    REQUIRE(c, r.operator->() == &*r && w.operator->() == &*w, where + ": pointer");
                }
                checkLedger(c, where, R::tracked, all, total);
            };
            for (size_t step = 0; step == 0 || s.more(20, step, 60); step++)
            {
                size_t const i = s.draw(kSlots), j = s.draw(kSlots);
                Slot&a = slots[i], &b = slots[j];
                size_t const op = s.draw(12);
                std::string const where = "optional: step " + std::to_string(step) + " op " + std::to_string(op) + " on " + std::to_string(i) + " and " + std::to_string(j);
                c.note(where);
                bool const readsB = op >= 5 && op <= 9;
                if (readsB && !b.known)
                    continue;
                if ((op == 10 || op == 11) && !a.known)
                    continue;
                bool const had = a.model.has_value();
                stats.changes++;
                stats.moves += op == 7 || op == 8;
                switch (op)
                {
                case 0:
                    *a.real = R::make(nextValue(value));
                    a.model = value, a.known = true;
                    break;
                case 1:
                    if constexpr (R::copyable)
                    {
                        T const v = R::make(nextValue(value));
                        *a.real = v;
                        REQUIRE(c, R::read(v) == value, where + ": the source changed");
                        a.model = value, a.known = true;
                    }
                    break;
                case 2:
                    *a.real = O{};
                    a.model.reset(), a.known = true;
                    break;
                case 3:
                    a.real = std::make_unique<O>(R::make(nextValue(value)));
                    a.model = value, a.known = true;
                    break;
                case 4:
                    a.real = std::make_unique<O>();
                    a.model.reset(), a.known = true;
                    break;
                case 5: // to itself too
                    if constexpr (R::copyable)
                    {
                        O const& source = *b.real;
                        *a.real = source;
                        a.model = b.model, a.known = b.known;
                    }
                    break;
                case 6:
                    if constexpr (R::copyable)
                    {
                        auto copy = std::make_unique<O>(static_cast<O const&>(*b.real));
                        a.real = std::move(copy);
                        a.model = b.model, a.known = true;
                    }
                    break;
                case 7:
                    *a.real = coil::move(*b.real);
                    if (i == j)
                        a.known = false;
                    else
                        a.model = b.model, a.known = true, b.known = false;
                    break;
                case 8:
                {
                    auto moved = std::make_unique<O>(coil::move(*b.real));
                    auto m = b.model;
                    b.known = false;
                    if (s.flip())
                        b.real = std::make_unique<O>(), b.model.reset(), b.known = true;
                    a.real = std::move(moved);
                    a.model = m, a.known = true;
                    break;
                }
                case 9:
                    if constexpr (!std::is_same_v<T, std::shared_ptr<int>>) // those compare by identity
                    {
                        if (!a.known)
                            break;
                        O const &x = *a.real, &y = *b.real;
                        bool const same = a.model == b.model;
                        REQUIRE(c, (x == y) == same && (x != y) == !same, where + ": comparison");
                        int v = s.flip() ? a.last : nextValue(value);
                        T const other = R::make(v);
                        bool const sameValue = a.model && *a.model == v;
                        REQUIRE(c, (x == other) == sameValue && (x != other) == !sameValue, where + ": comparison with a value");
                    }
                    break;
                case 10:
                    if (a.model)
                    {
                        int v = nextValue(value);
                        if (s.flip())
                            **a.real = R::make(v);
                        else
                            *a.real->operator->() = R::make(v);
                        a.model = v;
                    }
                    break;
                case 11: // the value taken out
                    if (a.model)
                    {
                        T taken{coil::move(**a.real)};
                        REQUIRE(c, R::read(taken) == *a.model, where + ": another value was taken out");
                        *a.real = O{};
                        a.model.reset();
                    }
                    break;
                }
                if (a.model)
                    a.last = *a.model;
                stats.transitions += had != a.model.has_value();
                check(where);
            }
        }
        c.expect(tracked::ledger().live == 0, "optional: objects are left, or destroyed twice", std::to_string(tracked::ledger().live));
        c.expect(tracked::ledger().fault.empty(), tracked::ledger().fault.c_str());
        c.nontrivial(stats.changes >= 3 && stats.transitions >= 1);
        c.labelIf(stats.moves > 0, "moves");
        c.label("optional");
    }

    // ---- Expected and Unexpected ----

    template<typename T, typename E>
    void expecteds(pbt::Source& s, pbt::Case& c)
    {
        using R = Traits<T>;
        using F = Traits<E>;
        using X = coil::Expected<T, E>;
        constexpr bool copyable = R::copyable && F::copyable;
        struct State
        {
            bool ok;
            int value;
            bool operator==(State const& rhs) const { return ok == rhs.ok && value == rhs.value; }
        };
        struct Slot
        {
            std::unique_ptr<X> real;
            State model{true, 1};
            bool known = true;
        };
        Stats stats;
        {
            Slot slots[kSlots];
            for (auto& slot : slots)
                slot.real = std::make_unique<X>(R::make(1));
            int value = 1;
            auto check = [&](std::string const& where) {
                long total = 0;
                bool all = true;
                for (auto const& slot : slots)
                {
                    all = all && slot.known;
                    if (!slot.known)
                        continue;
                    X const& r = *slot.real;
                    X& w = *slot.real;
                    REQUIRE(c, r.hasValue() == slot.model.ok && static_cast<bool>(r) == slot.model.ok, where + (slot.model.ok ? ": an error instead of a value" : ": a value instead of an error"));
                    if (slot.model.ok)
                    {
                        total += R::tracked;
                        REQUIRE(c, R::read(*r) == slot.model.value && R::read(r.value()) == slot.model.value && R::read(w.value()) == slot.model.value && R::read(*w) == slot.model.value, where + ": holds " + std::to_string(R::read(*r)) + " instead of " + std::to_string(slot.model.value));
                        REQUIRE(c, r.operator->() == &*r && w.operator->() == &*w, where + ": pointer");
                    }
                    else
                    {
                        total += F::tracked;
                        REQUIRE(c, F::read(r.error()) == slot.model.value && F::read(w.error()) == slot.model.value, where + ": holds error " + std::to_string(F::read(r.error())) + " instead of " + std::to_string(slot.model.value));
                    }
                }
                checkLedger(c, where, R::tracked || F::tracked, all, total);
            };
            auto error = [&](int v) { return coil::makeUnexpected(F::make(v)); };
            for (size_t step = 0; step == 0 || s.more(20, step, 60); step++)
            {
                size_t const i = s.draw(kSlots), j = s.draw(kSlots);
                Slot&a = slots[i], &b = slots[j];
                size_t const op = s.draw(12);
                std::string const where = "expected: step " + std::to_string(step) + " op " + std::to_string(op) + " on " + std::to_string(i) + " and " + std::to_string(j);
                c.note(where);
                bool const readsB = op >= 4 && op <= 8;
                if (readsB && !b.known)
                    continue;
                if ((op == 9 || op == 10) && !a.known)
                    continue;
                bool const had = a.model.ok;
                stats.changes++;
                stats.moves += op == 6 || op == 7;
                switch (op)
                {
                case 0:
                    *a.real = X{R::make(nextValue(value))};
                    a.model = {true, value}, a.known = true;
                    break;
                case 1:
                    *a.real = error(nextValue(value));
                    a.model = {false, value}, a.known = true;
                    break;
                case 2:
                    a.real = std::make_unique<X>(R::make(nextValue(value)));
                    a.model = {true, value}, a.known = true;
                    break;
                case 3:
                    a.real = std::make_unique<X>(error(nextValue(value)));
                    a.model = {false, value}, a.known = true;
                    break;
                case 4: // to itself too
                    if constexpr (copyable)
                    {
                        X const& source = *b.real;
                        *a.real = source;
                        a.model = b.model, a.known = b.known;
                    }
                    break;
                case 5:
                    if constexpr (copyable)
                    {
                        auto copy = std::make_unique<X>(static_cast<X const&>(*b.real));
                        a.real = std::move(copy);
                        a.model = b.model, a.known = true;
                    }
                    break;
                case 6:
                    *a.real = coil::move(*b.real);
                    if (i == j)
                        a.known = false;
                    else
                        a.model = b.model, a.known = true, b.known = false;
                    break;
                case 7:
                {
                    auto moved = std::make_unique<X>(coil::move(*b.real));
                    State m = b.model;
                    b.known = false;
                    if (s.flip())
                        b.real = std::make_unique<X>(R::make(nextValue(value))), b.model = {true, value}, b.known = true;
                    a.real = std::move(moved);
                    a.model = m, a.known = true;
                    break;
                }
                case 8:
                    if constexpr (!std::is_same_v<E, std::shared_ptr<int>>)
                    {
                        if (!a.known)
                            break;
                        X const &x = *a.real, &y = *b.real;
                        REQUIRE(c, (x == y) == (a.model == b.model), where + ": comparison");
                        int v = s.flip() ? a.model.value : nextValue(value);
                        T const other = R::make(v);
                        REQUIRE(c, (x == other) == (a.model.ok && a.model.value == v), where + ": comparison with a value");
                        coil::Unexpected<E> const unexpected = error(v);
                        REQUIRE(c, (x == unexpected) == (!a.model.ok && a.model.value == v), where + ": comparison with an error");
                    }
                    break;
                case 9:
                {
                    int v = nextValue(value);
                    if (a.model.ok)
                    {
                        if (s.flip())
                            **a.real = R::make(v);
                        else
                            a.real->value() = R::make(v);
                    }
                    else
                        a.real->error() = F::make(v);
                    a.model.value = v;
                    break;
                }
                case 10: // taken out
                {
                    State m = a.model;
                    if (m.ok)
                    {
                        T taken{s.flip() ? coil::move(*a.real).value() : *coil::move(*a.real)};
                        REQUIRE(c, R::read(taken) == m.value, where + ": another value was taken out");
                    }
                    else
                    {
                        E taken{coil::move(*a.real).error()};
                        REQUIRE(c, F::read(taken) == m.value, where + ": another error was taken out");
                    }
                    a.known = false;
                    break;
                }
                case 11: // unexpected on its own, converted on the way
                {
                    int v = nextValue(value);
                    coil::Unexpected<E> u = coil::makeUnexpected(F::make(v));
                    REQUIRE(c, F::read(u.value()) == v && F::read(static_cast<coil::Unexpected<E> const&>(u).value()) == v, where + ": unexpected");
                    if constexpr (F::copyable)
                    {
                        coil::Unexpected<E> u2 = u;
                        coil::Unexpected<E> const u3 = u2;
                        REQUIRE(c, F::read(u2.value()) == v && F::read(u.value()) == v && F::read(u3.value()) == v, where + ": copy of an unexpected");
                        u2.value() = F::make(1);
                        REQUIRE(c, F::read(u.value()) == v && F::read(u3.value()) == v, where + ": copies of an unexpected are not independent");
                    }
                    E taken{coil::move(u).value()};
                    REQUIRE(c, F::read(taken) == v, where + ": another error was taken out of an unexpected");
                    break;
                }
                }
                stats.transitions += had != a.model.ok;
                check(where);
            }
            // text errors convert
            coil::Unexpected<char const*> const literal = coil::makeUnexpected<char const*>("a literal");
            coil::Expected<T, coil::String> fromLiteral{literal};
            coil::Unexpected<coil::String> converted = literal;
            coil::Unexpected<coil::String> rconverted = coil::makeUnexpected<char const*>("a literal");
            REQUIRE(c, !fromLiteral && fromLiteral.error() == "a literal" && converted.value() == "a literal" && rconverted.value() == "a literal", "expected: a converted error differs");
        }
        c.expect(tracked::ledger().live == 0, "expected: objects are left, or destroyed twice", std::to_string(tracked::ledger().live));
        c.expect(tracked::ledger().fault.empty(), tracked::ledger().fault.c_str());
        c.nontrivial(stats.changes >= 3 && stats.transitions >= 1);
        c.labelIf(stats.moves > 0, "moves");
        c.label("expected");
    }

    // ---- UniquePtr ----

    struct Base
    {
        explicit Base(int v) : value(v) {}
        virtual ~Base() = default;
        virtual int read() const { return value.value(); }
        tracked::Copyable value;
    };
    struct Padding
    {
        virtual ~Padding() = default;
        long pad = 77;
    };
    struct Derived : Padding, Base // the base is not at the beginning
    {
        explicit Derived(int v) : Base(v), more(v) {}
        int read() const override { return more.value() == value.value() && pad == 77 ? value.value() : -5; }
        tracked::Copyable more;
    };

    void pointers(pbt::Source& s, pbt::Case& c)
    {
        using P = coil::UniquePtr<Base>;
        struct Slot
        {
            std::unique_ptr<P> real = std::make_unique<P>();
            std::optional<int> model;
            Base* address = nullptr;
            bool derived = false;
            bool known = true;
        };
        Stats stats;
        {
            Slot slots[kSlots];
            int value = 0;
            auto check = [&](std::string const& where) {
                long total = 0;
                bool all = true;
                for (auto const& slot : slots)
                {
                    all = all && slot.known;
                    if (!slot.known)
                        continue;
                    P const& r = *slot.real;
                    P& w = *slot.real;
                    REQUIRE(c, static_cast<bool>(r) == slot.model.has_value(), where + ": null or not");
                    REQUIRE(c, r.get() == slot.address && w.get() == slot.address, where + ": owns another object");
                    if (!slot.model)
                        continue;
                    total += slot.derived ? 2 : 1;
                    REQUIRE(c, &*r == slot.address && &*w == slot.address && r.operator->() == slot.address && w.operator->() == slot.address, where + ": pointers disagree");
                    REQUIRE(c, r->read() == *slot.model, where + ": holds " + std::to_string(r->read()) + " instead of " + std::to_string(*slot.model));
                }
                checkLedger(c, where, true, all, total);
            };
            auto set = [&](Slot& slot, int v, Base* address, bool derived) { slot.model = v, slot.address = address, slot.derived = derived, slot.known = true; };
            for (size_t step = 0; step == 0 || s.more(15, step, 40); step++)
            {
                size_t const i = s.draw(kSlots), j = s.draw(kSlots);
                Slot&a = slots[i], &b = slots[j];
                size_t const op = s.draw(9);
                std::string const where = "pointer: step " + std::to_string(step) + " op " + std::to_string(op) + " on " + std::to_string(i) + " and " + std::to_string(j);
                c.note(where);
                if ((op == 4 || op == 5 || op == 6) && !b.known)
                    continue;
                if (op == 7 && !a.known)
                    continue;
                bool const had = a.model.has_value();
                stats.changes++;
                stats.moves += op >= 2 && op <= 6;
                switch (op)
                {
                case 0:
                {
                    auto p = coil::makeUnique<Base>(nextValue(value));
                    Base* address = p.get();
                    a.real = std::make_unique<P>(coil::move(p));
                    set(a, value, address, false);
                    break;
                }
                case 1:
                    a.real = std::make_unique<P>();
                    a.model.reset(), a.address = nullptr, a.known = true;
                    break;
                case 2:
                {
                    // the old object may live until the temporary ends, not longer
                    Base* address = nullptr;
                    {
                        auto p = coil::makeUnique<Base>(nextValue(value));
                        address = p.get();
                        *a.real = coil::move(p);
                    }
                    set(a, value, address, false);
                    break;
                }
                case 3: // converted to the base
                {
                    Base* address = nullptr;
                    {
                        auto p = coil::makeUnique<Derived>(nextValue(value));
                        address = p.get();
                        if (s.flip())
                            *a.real = coil::move(p);
                        else
                        {
                            P converted = coil::move(p);
                            REQUIRE(c, !p && p.get() == nullptr, where + ": two owners after a conversion");
                            *a.real = coil::move(converted);
                        }
                    }
                    set(a, value, address, true);
                    break;
                }
                case 4:
                    if (i != j)
                    {
                        *a.real = coil::move(*b.real);
                        a.model = b.model, a.address = b.address, a.derived = b.derived, a.known = true;
                        b.known = false;
                    }
                    break;
                case 5:
                {
                    Slot old;
                    old.model = b.model, old.address = b.address, old.derived = b.derived;
                    auto moved = std::make_unique<P>(coil::move(*b.real));
                    REQUIRE(c, i == j || b.real->get() != moved->get() || !b.model, where + ": two owners after a move");
                    b.known = false;
                    if (s.flip())
                        b.real = std::make_unique<P>(), b.model.reset(), b.address = nullptr, b.known = true;
                    a.real = std::move(moved);
                    a.model = old.model, a.address = old.address, a.derived = old.derived, a.known = true;
                    break;
                }
                case 6: // through a container
                {
                    coil::Vector<P> v;
                    v.pushBack(P{});
                    v.pushBack(coil::move(*b.real));
                    v.pushBack(P{});
                    P back{coil::move(v[1])};
                    *b.real = P{};
                    *b.real = coil::move(back);
                    break;
                }
                case 7:
                    if (a.model)
                    {
                        // the value is changed through the pointer
                        int v = nextValue(value);
                        (*a.real)->value.set(v);
                        if (a.derived)
                            static_cast<Derived&>(**a.real).more.set(v);
                        a.model = v;
                    }
                    break;
                case 8: // of a plain type
                {
                    coil::UniquePtr<int> p{new int(5)}, q{coil::move(p)}, r;
                    r = coil::move(q);
                    REQUIRE(c, r && *r == 5, where + ": pointer to int");
                    break;
                }
                }
                stats.transitions += had != a.model.has_value();
                check(where);
            }
        }
        c.expect(tracked::ledger().live == 0, "pointer: objects are left, or destroyed twice", std::to_string(tracked::ledger().live));
        c.expect(tracked::ledger().fault.empty(), tracked::ledger().fault.c_str());
        c.nontrivial(stats.changes >= 3 && stats.transitions >= 1);
        c.labelIf(stats.moves > 0, "moves");
        c.label("pointer");
    }

    // equality is that of the payload, which need not be that of its bytes, nor reflexive
    void floats(pbt::Source& s, pbt::Case& c)
    {
        auto value = [&] { return s.pick({0.0, -0.0, 1.0, -1.0, static_cast<double>(NAN), static_cast<double>(INFINITY), 5e-324}); };
        for (size_t n = 0; n == 0 || s.more(6, n, 20); n++)
        {
            bool const first = s.flip(), second = s.flip();
            double const x = value(), y = value();
            auto const a = first ? coil::Optional<double>{x} : coil::Optional<double>{}, b = second ? coil::Optional<double>{y} : coil::Optional<double>{};
            bool const same = first == second && (!first || x == y);
            std::string const where = std::to_string(x) + " and " + std::to_string(y);
            c.note(where);
            REQUIRE(c, (a == b) == same && (a != b) == !same, where + ": comparison of optionals");
            REQUIRE(c, (a == y) == (first && x == y) && (a != y) == !(first && x == y), where + ": comparison with a value");
            using X = coil::Expected<double, float>;
            X const p = first ? X{x} : X{coil::makeUnexpected(static_cast<float>(x))}, q = second ? X{y} : X{coil::makeUnexpected(static_cast<float>(y))};
            bool const alike = first == second && (first ? x == y : static_cast<float>(x) == static_cast<float>(y));
            REQUIRE(c, (p == q) == alike, where + ": comparison of expecteds");
        }
        c.nontrivial(true);
        c.label("floats");
    }

    using Run = void (*)(pbt::Source&, pbt::Case&);
    Run const kRuns[] = {
        &optionals<tracked::Copyable>,
        &optionals<int>,
        &optionals<tracked::MoveOnly>,
        &optionals<coil::String>,
        &optionals<std::string>,
        &optionals<std::shared_ptr<int>>,
        &optionals<tracked::Pod>,
        &optionals<tracked::Large>,
        &optionals<tracked::Odd>,
        &optionals<char>,
        &floats,
        &expecteds<tracked::Copyable, tracked::Copyable>,
        &expecteds<tracked::Copyable, coil::String>,
        &expecteds<int, tracked::Copyable>,
        &expecteds<coil::String, coil::String>,
        &expecteds<tracked::MoveOnly, tracked::Copyable>,
        &expecteds<tracked::Pod, std::string>,
        &expecteds<tracked::Large, coil::String>,
        &expecteds<tracked::Odd, tracked::Large>,
        &expecteds<char, int>,
        &expecteds<std::string, std::shared_ptr<int>>,
        &expecteds<tracked::MoveOnly, tracked::MoveOnly>,
        &pointers,
        &pointers,
    };
}

PBT_PROPERTY("C21",
             "one of 10 optionals (and of doubles, to compare only), 11 expecteds or owning pointers to a polymorphic object, with counted, self-referring, heap-owning, move-only and plain payloads, and up to 60 operations on 3 objects (construct, assign and convert values, errors and nothing, copy and move, construct and assign, onto itself, change in place, take out, compare); "
             "contents compared with a model after every step, and live objects counted; non-trivial: at least three operations, one of them between value and nothing or error",
             true)
{
    tracked::ledger() = {};
    s.pick(kRuns)(s, c);
    c.key(s.choicesHash());
}

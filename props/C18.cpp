#include "tracked.h"

#include <cmath>

// Library vectors against std::vector<int> over sequences of operations on a small pool.

namespace
{
    using tracked::Traits;

    template<typename T>
    struct Slot
    {
        std::unique_ptr<coil::Vector<T>> real;
        std::vector<int> model;
        bool known = true; // false: moved from
    };

    template<typename V>
    struct IsVector : std::false_type
    {
    };
    template<typename T>
    struct IsVector<coil::Vector<T>> : std::true_type
    {
    };
    template<typename T>
    constexpr bool comparable = !IsVector<T>::value; // coil::Vector has no operator!=, which comparing vectors of them needs

    template<typename T>
    void run(pbt::Source& s, pbt::Case& c)
    {
        using R = Traits<T>;
        constexpr size_t kSlots = 3;
        tracked::ledger() = {};
        unsigned changes = 0, copies = 0;
        int nextValue = 1;
        size_t largest = 0;
        bool const huge = s.chance(1, 500);
        size_t const maxSize = huge ? 70000 : s.chance(1, 8) ? 600 : 24;
        auto sizeUpTo = [&](size_t max) { return huge ? gen::bulk(s, max, max, 1) : gen::size(s, max); };
        {
            Slot<T> slots[kSlots];
            for (auto& slot : slots)
                slot.real = std::make_unique<coil::Vector<T>>();

            auto value = [&] {
                nextValue = nextValue % 90 + 1;
                return nextValue;
            };
            auto check = [&](std::string const& where) {
                size_t total = 0;
                bool allKnown = true;
                for (size_t k = 0; k < kSlots; k++)
                {
                    Slot<T> const& slot = slots[k];
                    allKnown = allKnown && slot.known;
                    if (!slot.known)
                        continue;
                    coil::Vector<T> const& r = *slot.real;
                    coil::Vector<T>& w = *slot.real;
                    std::string const at = where + ", vector " + std::to_string(k);
                    REQUIRE(c, r.size() == slot.model.size(), at + ": size " + std::to_string(r.size()) + " instead of " + std::to_string(slot.model.size()));
                    REQUIRE(c, r.empty() == slot.model.empty(), at);
                    REQUIRE(c, r.capacity() >= r.size(), at + ": capacity " + std::to_string(r.capacity()) + " below size");
                    REQUIRE(c, r.begin() == r.data() && w.begin() == r.data() && w.data() == r.data(), at + ": pointers disagree");
                    REQUIRE(c, r.end() == r.begin() + slot.model.size() && w.end() == r.end(), at + ": end");
                    size_t n = 0;
                    for (T const& e : r)
                    {
                        int v = R::read(e);
                        REQUIRE(c, v == slot.model[n], at + ": element " + std::to_string(n) + " of " + std::to_string(slot.model.size()) + " is " + std::to_string(v) + " instead of " + std::to_string(slot.model[n]));
                        REQUIRE(c, &r[n] == &e && &w[n] == &e, at + ": index");
                        n++;
                    }
                    REQUIRE(c, n == slot.model.size(), at + ": iteration");
                    if (n > 0)
                        REQUIRE(c, &r.front() == &r[0] && &w.front() == &r[0] && &r.back() == &r[n - 1] && &w.back() == &r[n - 1], at + ": front or back");
                    total += n;
                    largest = std::max(largest, n);
                }
                REQUIRE(c, tracked::ledger().fault.empty(), where + ": " + tracked::ledger().fault);
                if (R::tracked)
                {
                    long live = tracked::ledger().live;
                    REQUIRE(c, allKnown ? live == static_cast<long>(total) : live >= static_cast<long>(total), where + ": " + std::to_string(live) + " live elements instead of " + std::to_string(total));
                }
            };

            for (size_t step = 0; step == 0 || s.more(huge ? 8 : 22, step, huge ? 12 : 80); step++)
            {
                size_t const i = s.draw(kSlots), j = s.draw(kSlots);
                Slot<T>&a = slots[i], &b = slots[j];
                size_t const op = s.weighted({8, 3, 3, 2, 2, 1, 2, 2, 2, 2, 2, 2, 1, 1, 1, 2});
                std::string const where = "step " + std::to_string(step) + " op " + std::to_string(op) + " on " + std::to_string(i) + " and " + std::to_string(j);
                c.note(where);
                bool const anyState = op == 5 || op == 8 || op == 9 || op == 10 || op == 12 || op == 13;
                if (!a.known && !anyState)
                    continue;
                bool const readsB = op == 8 || op == 9 || op == 10 || op == 11 || op == 15;
                if (readsB && !b.known)
                    continue;
                changes += op != 11;
                switch (op)
                {
                case 0: // several
                {
                    size_t n = 1 + (huge ? sizeUpTo(maxSize) : maxSize > 24 ? gen::size(s, 60, 10) : s.draw(4));
                    for (; n > 0 && a.model.size() < maxSize; n--)
                    {
                        int v = value();
                        a.real->pushBack(R::make(v));
                        a.model.push_back(v);
                    }
                    break;
                }
                case 1:
                    for (size_t n = 1 + s.draw(3); n > 0 && !a.model.empty(); n--)
                    {
                        a.real->popBack();
                        a.model.pop_back();
                    }
                    break;
                case 2: // an element of its own
                    if (!a.model.empty() && a.model.size() < maxSize)
                    {
                        size_t at = s.draw(a.model.size());
                        if constexpr (R::copyable)
                        {
                            a.real->pushBack((*a.real)[at]);
                            a.model.push_back(int{a.model[at]});
                            copies++;
                        }
                    }
                    break;
                case 3:
                {
                    size_t n = s.flip() ? s.draw(a.model.size() + 1) : sizeUpTo(maxSize);
                    a.real->resize(n);
                    a.model.resize(n, 0);
                    break;
                }
                case 4:
                {
                    size_t n = s.flip() ? s.draw(a.model.size() + 1) : sizeUpTo(maxSize * 2);
                    a.real->reserve(n);
                    REQUIRE(c, a.real->capacity() >= n, where + ": capacity " + std::to_string(a.real->capacity()) + " after reserving " + std::to_string(n));
                    break;
                }
                case 5: // also a moved-from vector can be cleared
                    a.real->clear();
                    a.model.clear();
                    a.known = true;
                    break;
                case 6: // changed in place
                    if (!a.model.empty())
                    {
                        size_t at = s.draw(a.model.size());
                        int v = value();
                        (*a.real)[at] = R::make(v);
                        a.model[at] = v;
                    }
                    break;
                case 7: // swapped elements
                    if (a.model.size() >= 2)
                    {
                        size_t x = s.draw(a.model.size()), y = s.draw(a.model.size());
                        T t(coil::move((*a.real)[x]));
                        if (x != y)
                            (*a.real)[x] = coil::move((*a.real)[y]);
                        (*a.real)[y] = coil::move(t);
                        std::swap(a.model[x], a.model[y]);
                    }
                    break;
                case 8: // copy assignment, to itself too
                    if constexpr (R::copyable)
                    {
                        coil::Vector<T> const& source = *b.real;
                        *a.real = source;
                        a.model = std::vector<int>(b.model), a.known = b.known;
                        copies++;
                    }
                    break;
                case 9: // copy construction
                    if constexpr (R::copyable)
                    {
                        auto copy = std::make_unique<coil::Vector<T>>(*b.real);
                        a.real = std::move(copy);
                        a.model = std::vector<int>(b.model), a.known = true;
                        copies++;
                    }
                    break;
                case 10: // move assignment
                    *a.real = coil::move(*b.real);
                    if (i == j)
                        a.known = false;
                    else
                        a.model = b.model, a.known = true, b.known = false;
                    break;
                case 11:
                    if constexpr (R::copyable && comparable<T>)
                    {
                        coil::Vector<T> const &x = *a.real, &y = *b.real;
                        REQUIRE(c, (x == y) == (a.model == b.model) && (y == x) == (a.model == b.model), where + ": comparison");
                        // one that differs in one element at most
                        coil::Vector<T> z{x};
                        std::vector<int> m = a.model;
                        if (!m.empty() && s.flip())
                        {
                            size_t at = s.draw(m.size());
                            m[at] = m[at] % 90 + 1;
                            z[at] = R::make(m[at]);
                        }
                        else if (!m.empty() && s.flip())
                        {
                            m.pop_back();
                            z.popBack();
                        }
                        REQUIRE(c, (x == z) == (a.model == m) && (z == x) == (a.model == m), where + ": comparison with a near copy");
                    }
                    break;
                case 12: // from a range, with or without capacity, of another
                    if constexpr (R::copyable)
                    {
                        size_t n = sizeUpTo(maxSize);
                        std::vector<T> source;
                        std::vector<int> m;
                        for (size_t k = 0; k < n; k++)
                        {
                            m.push_back(value());
                            source.push_back(R::make(m.back()));
                        }
                        auto made = std::make_unique<coil::Vector<T>>(source.data(), source.data() + n);
                        a.real = std::move(made);
                        a.model = m, a.known = true;
                        copies++;
                    }
                    break;
                case 13:
                    a.real = std::make_unique<coil::Vector<T>>(s.flip() ? sizeUpTo(maxSize) : 0);
                    a.model.clear(), a.known = true;
                    break;
                case 14: // as an element of another, and back
                {
                    coil::Vector<coil::Vector<T>> outer;
                    for (size_t n = 0; n < 3; n++)
                        outer.pushBack(coil::Vector<T>{});
                    outer[1] = coil::move(*a.real);
                    outer.reserve(outer.capacity() + 5);
                    outer.pushBack(coil::Vector<T>{});
                    a.real = std::make_unique<coil::Vector<T>>(coil::move(outer[1]));
                    break;
                }
                case 15: // move construction
                {
                    auto moved = std::make_unique<coil::Vector<T>>(coil::move(*b.real));
                    std::vector<int> m = b.model;
                    b.known = false;
                    if (s.flip())
                        b.real = std::make_unique<coil::Vector<T>>(), b.model.clear(), b.known = true; // destroyed after being moved from
                    a.real = std::move(moved);
                    a.model = m, a.known = true;
                    break;
                }
                }
                check(where);
            }
        }
        c.expect(tracked::ledger().live == 0, "elements are left after their vectors, or destroyed twice", std::to_string(tracked::ledger().live));
        c.expect(tracked::ledger().fault.empty(), tracked::ledger().fault.c_str());
        c.key(R::name());
        c.key(s.choicesHash());
        c.nontrivial(changes >= 3);
        c.labelIf(copies > 0, "copies");
        c.labelIf(largest > 24, "large");
        c.labelIf(largest > 65536, "65536+ elements");
        c.label(R::name());
    }

    // ignores a part of itself when compared
    struct Loose
    {
        short value = 0;
        short ignored = 0;
        bool operator==(Loose const& rhs) const { return value == rhs.value; }
        bool operator!=(Loose const& rhs) const { return value != rhs.value; }
    };

    // equality is that of the elements, which need not be that of their bytes, nor reflexive
    template<typename T, typename Make>
    void equality(pbt::Source& s, pbt::Case& c, Make make)
    {
        for (size_t n = 0; n == 0 || s.more(6, n, 20); n++)
        {
            std::vector<T> x, y;
            for (size_t k = gen::size(s, 40, 4); k > 0; k--)
            {
                x.push_back(make());
                if (!s.chance(1, 20))
                    y.push_back(s.chance(1, 4) ? make() : x.back());
            }
            coil::Vector<T> a{x.data(), x.data() + x.size()}, b;
            for (T const& e : y)
                b.pushBack(e);
            bool same = x.size() == y.size();
            for (size_t k = 0; same && k < x.size(); k++)
                same = !(x[k] != y[k]);
            REQUIRE(c, (a == b) == same && (b == a) == same, "comparison of " + std::to_string(x.size()) + " and " + std::to_string(y.size()) + " elements");
        }
        c.nontrivial(true);
        c.key(s.choicesHash());
        c.label("equality");
    }
    void equalities(pbt::Source& s, pbt::Case& c)
    {
        if (s.flip())
            equality<double>(s, c, [&] { return s.pick({0.0, -0.0, 1.0, static_cast<double>(NAN), static_cast<double>(INFINITY)}); });
        else if (s.flip())
            equality<float>(s, c, [&] { return s.pick({0.0f, -0.0f, 1.0f, static_cast<float>(NAN)}); });
        else
            equality<Loose>(s, c, [&] { return Loose{static_cast<short>(s.draw(2)), static_cast<short>(s.draw(3))}; });
    }

    using Run = void (*)(pbt::Source&, pbt::Case&);
    Run const kRuns[] = {
        &run<tracked::Copyable>,
        &run<int>,
        &run<tracked::MoveOnly>,
        &run<coil::String>,
        &run<std::string>,
        &run<tracked::Pod>,
        &run<tracked::Large>,
        &run<tracked::Odd>,
        &run<char>,
        &run<coil::Vector<tracked::Copyable>>,
        &run<coil::Vector<coil::String>>,
        &run<coil::Vector<int>>,
        &run<std::unique_ptr<tracked::Copyable>>,
        &run<std::shared_ptr<int>>,
        &equalities,
    };
}

PBT_PROPERTY("C18",
             "an element type out of 14 (or doubles and others whose equality is not that of their bytes, to compare only; trivial, odd-sized, large, heap-owning, self-referring and counted, move-only, nested vectors) and up to 80 operations on a pool of 3 vectors (push, also of an own element, pop, resize, reserve, clear, write, swap elements, copy and move, construct and assign, onto itself, from ranges, into and out of a vector of vectors, compare), up to 600 elements, rarely 70000, "
             "compared with std::vector after every step, with counts of live elements; non-trivial: at least three changing operations",
             true)
{
    s.pick(kRuns)(s, c);
}

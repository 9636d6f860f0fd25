#include "tracked.h"

#include "coil/detail/UnorderedMap.h"

#include <map>

// The library's hash map against std::map over histories, with hashes chosen by the test.

namespace
{
    constexpr size_t kMaxKeys = 200;
    std::vector<size_t> g_hash; // the hash of each key, chosen per case

    struct Key
    {
        tracked::Copyable id;
        bool operator==(Key const& rhs) const { return id.value() == rhs.id.value(); }
    };
    struct Id // looks keys up without being one
    {
        int id;
    };
    bool operator==(Key const& lhs, Id const& rhs)
    {
        return lhs.id.value() == rhs.id;
    }
}
namespace coil
{
    template<>
    struct Hash<Key>
    {
        size_t operator()(Key const& k) { return g_hash[static_cast<size_t>(k.id.value())]; }
    };
    template<>
    struct Hash<Id>
    {
        size_t operator()(Id const& k) { return g_hash[static_cast<size_t>(k.id)]; }
    };
}

namespace
{
    // how keys are made of small integers
    template<typename K>
    struct Keys;
    template<>
    struct Keys<Key>
    {
        static constexpr bool tracked = true;
        static Key make(int id) { return Key{tracked::Copyable{id}}; }
        static int read(Key const& k) { return k.id.value(); }
        using Other = Id;
        static Id other(int id) { return {id}; }
    };
    // eight letters, in pairs that collide: ids that agree in the high bits have equal hashes
    struct Name
    {
        std::string text;
        explicit Name(int id)
        {
            for (int bit = 0; bit < 4; bit++)
                text += id >> bit & 1 ? "FY" : "Ez";
            text += "_" + std::to_string(id >> 4);
        }
    };
    template<>
    struct Keys<coil::String>
    {
        static constexpr bool tracked = false;
        static coil::String make(int id) { return cx::own(Name{id}.text); }
        static int read(coil::String const& k)
        {
            std::string t = cx::str(k);
            if (t.size() < 10)
                return -1;
            int id = std::atoi(t.c_str() + 9) << 4;
            for (int bit = 0; bit < 4; bit++)
                if (t.compare(static_cast<size_t>(bit) * 2, 2, "FY") == 0)
                    id |= 1 << bit;
            return id;
        }
        struct Other
        {
            std::string text;
            operator coil::StringView() const { return cx::view(text); }
        };
        static coil::String other(int id) { return make(id); }
    };

    template<typename K, typename V>
    struct Slot
    {
        std::unique_ptr<coil::UnorderedMap<K, V>> real;
        std::map<int, int> model;
        bool known = true;
    };

    template<typename K, typename V>
    void run(pbt::Source& s, pbt::Case& c)
    {
        using R = tracked::Traits<V>;
        using Map = coil::UnorderedMap<K, V>;
        constexpr bool copyable = R::copyable;
        tracked::ledger() = {};
        constexpr size_t kSlots = 2;
        bool erasedFromChain = false;
        unsigned erases = 0;
        size_t largest = 0;

        bool const bulk = s.chance(1, 400);
        size_t const keys = bulk ? 1 + gen::bulk(s, 1500, 70000, 6) : s.chance(1, 6) ? 1 + s.draw(kMaxKeys) : 1 + s.draw(12);
        // hashes
        bool const wide = !bulk && s.chance(1, 80); // so many buckets that their indices differ only in the high bits
        size_t const style = bulk ? 5 + s.draw(3) : wide && s.chance(3, 4) ? 8 : s.draw(5);
        size_t const factor = bulk ? s.draw(0) | 1 : 0;
        g_hash.assign(keys, 0);
        for (size_t i = 0; i < keys; i++)
            switch (style)
            {
            case 0: // all in one chain
                g_hash[i] = 0;
                break;
            case 1: // few chains
                g_hash[i] = s.draw(3);
                break;
            case 2: // chains that a rehash takes apart
                g_hash[i] = static_cast<size_t>(1) << s.draw(8);
                break;
            case 3: // huge
                g_hash[i] = static_cast<size_t>(0) - s.draw(4) * (keys + 1);
                break;
            case 4:
                g_hash[i] = s.draw(0);
                break;
            case 5:
                g_hash[i] = i * factor;
                break;
            case 6:
                g_hash[i] = (i + 7) / 8 * (factor % 1000);
                break;
            case 8:
                g_hash[i] = s.draw(3) + (s.draw(4) << (s.chance(3, 4) ? 16 : 8 + s.draw(10)));
                break;
            default:
                g_hash[i] = i;
                break;
            }

        {
            Slot<K, V> slots[kSlots];
            auto fresh = [&] {
                static float const factors[] = {1.0f, 2.0f, 0.75f, 1.5f, 10.0f, 0.5f, 0.1f, 1000.0f};
                if (wide && s.chance(3, 4))
                    return std::make_unique<Map>(static_cast<size_t>(65530) + s.draw(0) % 200000, 1.0f);
                if (s.flip())
                    return std::make_unique<Map>();
                size_t buckets = s.flip() ? s.draw(5) : gen::size(s, 300);
                return std::make_unique<Map>(buckets, factors[s.draw(bulk ? 5 : std::size(factors))]);
            };
            for (auto& slot : slots)
                slot.real = fresh();

            auto check = [&](std::string const& where, bool all) {
                size_t total = 0;
                bool allKnown = true;
                for (size_t k = 0; k < kSlots; k++)
                {
                    Slot<K, V> const& slot = slots[k];
                    allKnown = allKnown && slot.known;
                    if (!slot.known)
                        continue;
                    std::string const at = where + ", map " + std::to_string(k);
                    Map const& r = *slot.real;
                    REQUIRE(c, r.size() == slot.model.size(), at + ": size " + std::to_string(r.size()) + " instead of " + std::to_string(slot.model.size()));
                    std::map<int, int> seen;
                    for (auto const& pair : r)
                        REQUIRE(c, seen.emplace(Keys<K>::read(pair.key()), R::read(pair.value())).second, at + ": iteration visits key " + std::to_string(Keys<K>::read(pair.key())) + " twice");
                    REQUIRE(c, seen == slot.model, at + ": iteration finds something else");
                    total += slot.model.size();
                    if (!all)
                        continue;
                    for (size_t id = 0; id < keys; id++)
                    {
                        auto expected = slot.model.find(static_cast<int>(id));
                        auto found = r.find(Keys<K>::make(static_cast<int>(id)));
                        REQUIRE(c, (found != r.end()) == (expected != slot.model.end()), at + ": find of key " + std::to_string(id) + (found != r.end() ? " finds what is not there" : " finds nothing"));
                        if (expected != slot.model.end())
                            REQUIRE(c, Keys<K>::read(found->key()) == static_cast<int>(id) && R::read(found->value()) == expected->second, at + ": find of key " + std::to_string(id) + " gives another value");
                    }
                    largest = std::max(largest, slot.model.size());
                }
                REQUIRE(c, tracked::ledger().fault.empty(), where + ": " + tracked::ledger().fault);
                if (R::tracked && Keys<K>::tracked)
                {
                    long live = tracked::ledger().live, expected = static_cast<long>(total) * 2;
                    REQUIRE(c, allKnown ? live == expected : live >= expected, where + ": " + std::to_string(live) + " live objects instead of " + std::to_string(expected));
                }
            };

            int nextValue = 0;
            for (size_t step = 0; step == 0 || s.more(bulk ? 6 : keys > 12 ? 150 : 30, step, bulk ? 10 : keys > 12 ? 400 : 120); step++)
            {
                size_t const i = s.chance(1, 5) ? 1 : 0, j = s.draw(kSlots);
                Slot<K, V>&a = slots[i], &b = slots[j];
                size_t const op = bulk ? s.weighted({2, 2, 2, 1, 1, 1, 1, 1, 1, 10, 8}) : s.weighted({12, 10, 3, 2, 1, 1, 1, 1, 1});
                int const id = static_cast<int>(s.draw(keys));
                std::string const where = "step " + std::to_string(step) + " op " + std::to_string(op) + " key " + std::to_string(id) + " on " + std::to_string(i) + (op >= 4 && op <= 7 ? " and " + std::to_string(j) : "");
                c.note(where);
                bool const readsB = op >= 4 && op <= 7;
                if ((!a.known && (op < 4 || op > 8)) || (readsB && !b.known))
                    continue;
                switch (op)
                {
                case 0:
                {
                    nextValue = nextValue % 90 + 1;
                    auto it = a.real->insertOrAssign(Keys<K>::make(id), R::make(nextValue));
                    a.model[id] = nextValue;
                    REQUIRE(c, it != a.real->end() && Keys<K>::read(it->key()) == id && R::read(it->value()) == nextValue, where + ": the iterator returned is another one");
                    break;
                }
                case 1:
                {
                    erases++;
                    size_t const before = a.model.size();
                    erasedFromChain = erasedFromChain || before > 2;
                    auto it = a.real->find(Keys<K>::make(id));
                    // also by the key that is inside the map
                    if (it != a.real->end() && s.chance(1, 4))
                        a.real->erase(it->key());
                    else
                        a.real->erase(Keys<K>::make(id));
                    a.model.erase(id);
                    break;
                }
                case 2: // assigned through an iterator, found by another type
                {
                    auto it = a.real->find(Keys<K>::other(id));
                    REQUIRE(c, (it != a.real->end()) == (a.model.count(id) > 0), where + ": found or not");
                    if (it != a.real->end())
                    {
                        nextValue = nextValue % 90 + 1;
                        it->value() = R::make(nextValue);
                        a.model[id] = nextValue;
                    }
                    break;
                }
                case 3: // all values, through iteration
                {
                    for (auto& pair : *a.real)
                    {
                        int v = (R::read(pair.value()) + 1) % 90 + 1;
                        pair.value() = R::make(v);
                    }
                    for (auto& pair : a.model)
                        pair.second = (pair.second + 1) % 90 + 1;
                    break;
                }
                case 4:
                    if constexpr (copyable)
                    {
                        Map const& source = *b.real;
                        *a.real = source;
                        a.model = std::map<int, int>(b.model), a.known = true;
                    }
                    break;
                case 5:
                    if constexpr (copyable)
                    {
                        auto copy = std::make_unique<Map>(*b.real);
                        a.real = std::move(copy);
                        a.model = std::map<int, int>(b.model), a.known = true;
                    }
                    break;
                case 6:
                    if (i != j)
                    {
                        *a.real = coil::move(*b.real);
                        a.model = b.model, a.known = true, b.known = false;
                    }
                    break;
                case 7:
                {
                    auto moved = std::make_unique<Map>(coil::move(*b.real));
                    std::map<int, int> m = b.model;
                    b.real = fresh(), b.model.clear(), b.known = true;
                    a.real = std::move(moved);
                    a.model = m, a.known = true;
                    break;
                }
                case 8:
                    if (s.flip() && a.known)
                        a.real->clear();
                    else
                        a.real = fresh();
                    a.model.clear(), a.known = true;
                    break;
                case 9: // many at once
                {
                    size_t const from = s.flip() ? 0 : static_cast<size_t>(id), stride = s.flip() ? 1 : 1 + s.draw(5);
                    for (size_t k = from; k < keys; k += stride)
                    {
                        nextValue = nextValue % 90 + 1;
                        a.real->insertOrAssign(Keys<K>::make(static_cast<int>(k)), R::make(nextValue));
                        a.model[static_cast<int>(k)] = nextValue;
                    }
                    break;
                }
                case 10:
                {
                    size_t const from = s.flip() ? 0 : static_cast<size_t>(id), stride = s.flip() ? 1 : 1 + s.draw(5);
                    bool const down = s.flip();
                    erases += keys > from;
                    for (size_t k = from; k < keys; k += stride)
                    {
                        int const which = static_cast<int>(down ? keys - 1 - k : k);
                        erasedFromChain = erasedFromChain || a.model.size() > 2;
                        a.real->erase(Keys<K>::make(which));
                        a.model.erase(which);
                    }
                    break;
                }
                }
                check(where, bulk ? op >= 9 : keys <= 12 || step % 8 == 7);
            }
            check("in the end", true);
        }
        c.expect(tracked::ledger().live == 0, "objects are left after their maps, or destroyed twice", std::to_string(tracked::ledger().live));
        c.expect(tracked::ledger().fault.empty(), tracked::ledger().fault.c_str());
        c.key(s.choicesHash());
        c.nontrivial(largest >= 3 && erases > 0);
        c.labelIf(erasedFromChain, "erase from 3+");
        c.labelIf(largest > 12, "large");
        c.labelIf(largest > 65536, "65536+ keys");
        c.labelIf(style < 4, "collisions");
        c.labelIf(wide, "65536+ buckets");
    }

    using Run = void (*)(pbt::Source&, pbt::Case&);
    Run const kRuns[] = {
        &run<Key, tracked::Copyable>,
        &run<Key, tracked::MoveOnly>,
        &run<coil::String, int>,
        &run<Key, tracked::Large>,
        &run<coil::String, tracked::Odd>,
        &run<coil::String, tracked::Copyable>,
        &run<Key, coil::Vector<coil::String>>,
    };
}

PBT_PROPERTY("C19",
             "a key and value type out of 7 (counted keys with hashes chosen by the case: equal, few, powers of two, huge, any; colliding texts; counted, large, move-only and owning values), up to 200 keys, sometimes 1500, rarely 70000, inserted and erased many at once, any initial bucket count, sometimes 65530 to 265000, load factors 0.1 to 1000 and up to 400 operations on 2 maps (insert or assign, erase, also by the stored key, assign through iterators, clear, copy and move, construct and assign, find by another type); "
             "size, iteration, lookup of every key and live object counts compared with std::map; non-trivial: at least three keys at once and an erase",
             true)
{
    s.pick(kRuns)(s, c);
}

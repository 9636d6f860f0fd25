#include "grammar.h"

#include <map>
#include <memory>

namespace
{
    // a pool of names that are easy to confuse: equal hashes, prefixes, case variants, any bytes, sequences
    std::vector<std::string> namePool(pbt::Source& s)
    {
        std::vector<std::string> names;
        auto put = [&](std::string n) {
            if (std::find(names.begin(), names.end(), n) == names.end())
                names.push_back(std::move(n));
        };
        size_t const count = s.chance(1, 10) ? 20 + s.draw(300) : 2 + s.draw(12);
        if (count > 20)
        {
            std::string prefix = gen::text(s, 20);
            for (size_t i = 0; i < count; i++)
                put(prefix + std::to_string(i));
            return names;
        }
        while (names.size() < count)
        {
            size_t before = names.size();
            switch (s.weighted({4, 4, 2, 3, 1}))
            {
            default:
            case 0:
                put(gen::word(s, 40));
                break;
            case 1:
            {
                size_t const blocks = 1 + s.draw(4);
                for (size_t k = 1 + s.draw(4); k > 0; k--)
                    put(gen::collidingName(s, static_cast<unsigned>(blocks)));
                break;
            }
            case 2:
                put(gen::text(s, 600));
                break;
            case 3:
                if (!names.empty())
                {
                    std::string n = names[s.draw(names.size())];
                    switch (s.draw(5))
                    {
                    case 0:
                        n += gen::byteOf(s, gen::Alphabet::Any);
                        break;
                    case 1:
                        n += std::string(1, '\0');
                        break;
                    case 2:
                        if (!n.empty())
                            n[s.draw(n.size())] ^= static_cast<char>(1u << s.draw(8));
                        break;
                    case 3:
                        n = n.substr(0, n.size() / 2);
                        break;
                    default:
                        std::reverse(n.begin(), n.end());
                    }
                    put(n);
                }
                break;
            case 4:
                put(gen::dictionaryString(s));
            }
            if (names.size() == before)
                put("n" + std::to_string(names.size()) + std::to_string(s.draw(100)));
        }
        return names;
    }

    struct Entry
    {
        int id;
        size_t functors;
    };
    struct Registry
    {
        std::unique_ptr<coil::Bindings> bindings = std::make_unique<coil::Bindings>();
        std::map<std::string, Entry> model;
    };

    void probe(pbt::Source& s, pbt::Case& c, Registry& r, std::string const& name, bool allowText)
    {
        auto it = r.model.find(name);
        gen::ExactText exact{name};
        coil::Bindings const& constBindings = *r.bindings;
        coil::Bindings::Command const* command = constBindings.get(cx::view(exact));
        if (it == r.model.end())
        {
            c.expect(command == nullptr, "get finds a command that is not there", pbt::show(name, 80));
        }
        else if (!command)
        {
            c.fail("get does not find " + pbt::show(name, 80));
        }
        else
        {
            c.expect(cx::str(command->name) == name, "the command has another name", pbt::show(cx::str(command->name), 80) + " instead of " + pbt::show(name, 80));
            c.expect(command->functors.size() == it->second.functors, "the command has another number of overloads", pbt::show(name, 80));
        }
        if (c.failed)
            return;

        auto judge = [&](coil::ExecutionResult const& result, char const* how) {
            if (it == r.model.end() || name.empty())
            {
                c.expect(result.errors.size() == 1 && !result.returnValue.hasValue(), "executing a name that is not registered", how);
                return;
            }
            if (!result.errors.empty())
                return c.fail(std::string{how} + " of " + pbt::show(name, 80) + ": " + cx::str(result.errors[0]));
            std::string expected = std::to_string(it->second.id);
            c.expect(result.returnValue.hasValue() && cx::str(*result.returnValue) == expected, "the name reaches another command", pbt::show(name, 80));
        };
        coil::ExecutionInput input;
        input.name = cx::view(exact);
        judge(r.bindings->execute(coil::move(input)), "execute");
        if (allowText && !name.empty())
            if (auto piece = grammar::renderSingle(s, name, grammar::Config{}, false))
            {
                gen::ExactText text{piece->text};
                judge(r.bindings->execute(cx::view(text)), "execute text");
            }
    }
}

PBT_PROPERTY("C07",
             "a history of up to 400 operations (add in four ways, replace, remove in two ways, clear, look up, execute, move construction and assignment) on up to 3 registries, with bulk additions and removals of up to 70000 commands, over a pool of names with equal hashes, prefixes, changed bits, NUL and any bytes; every operation's names are probed against std::map, all names at the end; "
             "non-trivial: something was removed, replaced or moved and at least 3 commands were added",
             true)
{
    std::vector<std::string> names = namePool(s);
    std::vector<Registry> registries(1 + s.draw(3));
    std::vector<std::unique_ptr<coil::Bindings>> graveyard; // moved-from registries, destroyed some time later
    int nextId = 1;
    size_t adds = 0, changes = 0;
    // many names at once: bulkPrefix + number
    std::string bulkPrefix;
    size_t bulkNames = 0, largest = 0;
    if (s.chance(1, 120))
        bulkPrefix = gen::text(s, 12) + "#";
    size_t const maxOps = s.chance(1, 8) ? 400 : 60;
    for (size_t n = 0; s.more(maxOps > 60 ? 200 : 25, n, maxOps) && !c.failed; n++)
    {
        Registry& r = registries[s.draw(registries.size())];
        std::string const& name = names[s.draw(names.size())];
        unsigned const op = static_cast<unsigned>(bulkPrefix.empty() ? s.weighted({12, 7, 4, 1, 2, 1}) : s.weighted({12, 7, 4, 1, 2, 1, 3, 3}));
        c.key(op);
        c.key(name);
        switch (op)
        {
        case 0:
        {
            int const id = nextId++;
            bool const replaced = r.model.count(name) != 0;
            c.labelIf(replaced, "replace");
            changes += replaced;
            adds++;
            size_t functors = 1;
            c.note("add " + pbt::show(name, 80) + " = " + std::to_string(id));
            gen::ExactText exact{name};
            auto fn = [id] { return id; };
            auto fn1 = [id](int) { return -id; };
            auto fn2 = [id](int, coil::String const&) { return -id; };
            switch (s.draw(5))
            {
            default:
            case 0:
                (*r.bindings)[cx::view(exact)] = fn;
                break;
            case 1:
            {
                coil::Bindings::Command const& command = r.bindings->add(cx::view(exact), fn);
                c.expect(cx::str(command.name) == name && command.functors.size() == 1, "add returns another command");
                break;
            }
            case 2:
                functors = 3;
                (*r.bindings)[cx::view(exact)] = coil::overloaded(fn2, fn, fn1);
                break;
            case 3:
            {
                functors = 2;
                coil::Bindings::Command const& command = r.bindings->add(cx::view(exact), coil::overloaded(fn, fn1));
                c.expect(cx::str(command.name) == name && command.functors.size() == 2, "add returns another command");
                break;
            }
            case 4:
            {
                auto made = coil::overloaded(fn);
                r.bindings->add(cx::view(exact), coil::move(made[0]));
            }
                break;
            }
            r.model[name] = {id, functors};
            break;
        }
        case 1:
        {
            c.note("remove " + pbt::show(name, 80));
            c.labelIf(r.model.count(name) != 0, "remove");
            changes += r.model.erase(name);
            gen::ExactText exact{name};
            switch (s.draw(3))
            {
            case 0:
                r.bindings->remove(cx::view(exact));
                break;
            case 1:
                (*r.bindings)[cx::view(exact)] = nullptr;
                break;
            default:
                // by the name the registry itself reports
                if (auto command = r.bindings->get(cx::view(exact)))
                    r.bindings->remove(command->name);
            }
            break;
        }
        case 2:
            // the same over and over, with the registry as it was before in the end
            if (size_t const times = gen::wear(s, 1500, 8 + name.size() / 20))
            {
                unsigned const how = static_cast<unsigned>(s.draw(4));
                c.note(std::to_string(times) + " times, in way " + std::to_string(how));
                c.label("260+ times the same");
                int const id = nextId++;
                for (size_t i = 0; i < times; i++)
                {
                    if (how == 1)
                        r.bindings->remove(cx::view(name));
                    if (how == 2)
                        r.bindings->clear();
                    if (how == 3)
                    {
                        coil::Bindings away{coil::move(*r.bindings)};
                        *r.bindings = coil::move(away);
                        continue;
                    }
                    r.bindings->add(cx::view(name), [id] { return id; });
                }
                if (how == 2)
                    r.model.clear();
                if (how != 3)
                    r.model[name] = {id, 1};
                changes++;
            }
            break; // else only probe
        case 3:
            c.note("clear");
            c.label("clear");
            changes += !r.model.empty();
            r.bindings->clear();
            r.model.clear();
            break;
        case 4:
        {
            c.note("move construct");
            c.label("move");
            changes++;
            auto moved = std::make_unique<coil::Bindings>(coil::move(*r.bindings));
            std::swap(moved, r.bindings);
            if (s.flip())
                graveyard.push_back(std::move(moved));
            break;
        }
        case 5:
        {
            Registry& other = registries[s.draw(registries.size())];
            if (&other == &r)
                break;
            c.note("move assign");
            c.label("move");
            changes++;
            *r.bindings = coil::move(*other.bindings);
            r.model = other.model;
            if (s.flip())
                graveyard.push_back(std::move(other.bindings));
            other = Registry{};
            break;
        }
        case 6:
        {
            size_t const first = s.draw(bulkNames + 1);
            size_t const count = gen::bulk(s, 1500, 70000, 40);
            c.note("add " + std::to_string(count) + " commands " + pbt::show(bulkPrefix + std::to_string(first), 80) + " and on");
            for (size_t i = first; i < first + count; i++)
            {
                std::string const many = bulkPrefix + std::to_string(i);
                int const id = nextId++;
                r.bindings->add(cx::view(many), [id] { return id; });
                auto& entry = r.model[many];
                changes += entry.id != 0;
                entry = {id, 1};
            }
            adds += count;
            bulkNames = std::max(bulkNames, first + count);
            break;
        }
        case 7:
        {
            size_t const first = s.draw(bulkNames + 1), stride = 1 + s.draw(5);
            bool const down = s.flip();
            size_t const count = s.flip() ? s.draw(bulkNames + 1) : bulkNames;
            c.note("remove " + std::to_string(count) + " commands from " + pbt::show(bulkPrefix + std::to_string(first), 80) + (down ? " down" : " up") + " by " + std::to_string(stride));
            for (size_t i = 0; i < count; i++)
            {
                size_t const at = down ? first - i * stride : first + i * stride;
                if (at >= bulkNames)
                    break;
                std::string const many = bulkPrefix + std::to_string(at);
                r.bindings->remove(cx::view(many));
                changes += r.model.erase(many);
            }
            break;
        }
        }
        if (op >= 6)
        {
            coil::Bindings const& constBindings = *r.bindings;
            largest = std::max(largest, r.model.size());
            for (size_t i = 0; i < bulkNames + 2; i++)
            {
                std::string const many = bulkPrefix + std::to_string(i);
                coil::Bindings::Command const* command = constBindings.get(cx::view(many));
                if ((command != nullptr) != (r.model.count(many) != 0) || (command && cx::str(command->name) != many))
                    c.fail(std::string{command ? "get finds " : "get does not find "} + pbt::show(many, 80));
            }
            for (int k = 0; k < 3; k++)
                probe(s, c, r, bulkPrefix + std::to_string(s.draw(bulkNames + 1)), false);
        }
        if (s.chance(1, 30))
            graveyard.clear();
        probe(s, c, r, name, s.chance(1, 4));
        probe(s, c, r, names[s.draw(names.size())], false);
    }
    c.nontrivial(changes >= 1 && adds >= 3);
    c.labelIf(adds > 30, "many-commands");
    c.labelIf(largest > 1000, "1000+ commands");
    c.labelIf(largest > 65536, "65536+ commands");
    for (Registry& r : registries)
        for (auto const& name : names)
            if (!c.failed)
                probe(s, c, r, name, false);
    // a name in none of the pools
    if (!c.failed)
        probe(s, c, registries[0], "never bound " + names[0], false);
}

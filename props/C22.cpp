#include "grammar.h"

#include <map>
#include <memory>

// Registries whose lexers are replaced, over histories of setting, executing, moving and destroying.

namespace
{
    struct Lexers
    {
        std::map<int, int> destroyed; // id -> times
        long live = 0;
        std::vector<std::pair<int, std::string>> parsed; // id, text
    };

    // What a user's lexer does, as a value: a function from text to an input or an error.
    struct Behaviour
    {
        enum Kind
        {
            Fixed,     // the same input whatever the text
            Error,     // the same error whatever the text
            Whole,     // the whole text is the name
            Pieces,    // cut at every occurrence of a character, first piece the name
            Columns,   // fixed-width pieces, last one a named argument
            Default,   // the default grammar behind a prefix
            Parity,    // an error for texts of odd length, otherwise the whole text as the only argument of "f"
            Count,
        };
        Kind kind = Fixed;
        cx::Input fixed; // texts kept alive by the history
        std::string error;
        char cut = '/';
        size_t width = 1;
        std::string name = "f";
    };

    class UserLexer : public coil::Lexer
    {
    public:
        UserLexer(Lexers& lexers, int id, std::shared_ptr<Behaviour const> b) : m_lexers(lexers), m_id(id), m_behaviour(std::move(b)), m_canary(std::make_unique<int>(id)) { m_lexers.live++; }
        UserLexer(UserLexer const&) = delete;
        ~UserLexer() override
        {
            m_lexers.live--;
            m_lexers.destroyed[m_id]++;
        }

        coil::Expected<coil::ExecutionInput, coil::String> parse(coil::StringView str) const override
        {
            m_lexers.parsed.push_back({*m_canary, std::string(str.data() ? str.data() : "", str.length())});
            Behaviour const& b = *m_behaviour;
            coil::ExecutionInput in;
            switch (b.kind)
            {
            default:
            case Behaviour::Fixed:
                return cx::input(b.fixed);
            case Behaviour::Error:
                return coil::makeUnexpected(cx::own(b.error));
            case Behaviour::Whole:
                in.name = str;
                return in;
            case Behaviour::Pieces:
            {
                size_t begin = 0;
                bool first = true;
                for (size_t i = 0; i <= str.length(); i++)
                    if (i == str.length() || str[i] == b.cut)
                    {
                        coil::StringView piece = str.substr(begin, i - begin);
                        if (first)
                            in.name = piece;
                        else
                            in.arguments.pushBack(coil::Value{piece});
                        first = false;
                        begin = i + 1;
                    }
                return in;
            }
            case Behaviour::Columns:
            {
                in.name = cx::view(b.name);
                coil::Vector<coil::StringView> all;
                for (size_t i = 0; i < str.length(); i += b.width)
                    all.pushBack(str.substr(i, std::min(b.width, str.length() - i)));
                in.namedArguments.pushBack(coil::NamedValue{cx::view(b.name), coil::Value{all}});
                in.arguments.pushBack(coil::Value{all});
                return in;
            }
            case Behaviour::Default:
                if (str.length() == 0 || str[0] != b.cut)
                    return coil::makeUnexpected(cx::own(b.error));
                return coil::DefaultLexer{}.parse(str.substr(1, str.length() - 1));
            case Behaviour::Parity:
                if (str.length() % 2)
                    return coil::makeUnexpected(cx::own(b.error));
                in.name = cx::view(b.name);
                in.arguments.pushBack(coil::Value{str});
                return in;
            }
        }

    private:
        Lexers& m_lexers;
        int m_id;
        std::shared_ptr<Behaviour const> m_behaviour;
        std::unique_ptr<int> m_canary;
    };

    struct Meaning
    {
        bool ok = true;
        bool loose = false;      // this text's meaning is not specified
        bool exactError = true;
        cx::Input input;
        std::string error;
    };

    Meaning fromReference(grammar::Parsed const& p)
    {
        Meaning m;
        m.ok = p.ok, m.loose = p.loose, m.exactError = p.exactError, m.input = p.input, m.error = p.error;
        return m;
    }

    // the same functions again, over standard types
    Meaning meaning(Behaviour const& b, std::string const& text)
    {
        Meaning m;
        auto error = [&] {
            m.ok = false;
            m.error = b.error;
            return m;
        };
        switch (b.kind)
        {
        default:
        case Behaviour::Fixed:
            m.input = b.fixed;
            return m;
        case Behaviour::Error:
            return error();
        case Behaviour::Whole:
            m.input.name = text;
            return m;
        case Behaviour::Pieces:
        {
            size_t at = text.find(b.cut);
            m.input.name = text.substr(0, at);
            while (at != std::string::npos)
            {
                size_t next = text.find(b.cut, at + 1);
                m.input.args.push_back({{text.substr(at + 1, next == std::string::npos ? next : next - at - 1)}});
                at = next;
            }
            return m;
        }
        case Behaviour::Columns:
        {
            m.input.name = b.name;
            cx::Arg a;
            for (size_t i = 0; i < text.size(); i += b.width)
                a.subvalues.push_back(text.substr(i, b.width));
            m.input.args.push_back(a);
            m.input.named.push_back({b.name, a});
            return m;
        }
        case Behaviour::Default:
            if (text.empty() || text[0] != b.cut)
                return error();
            return fromReference(grammar::parse(text.substr(1), grammar::Config{}));
        case Behaviour::Parity:
            if (text.size() % 2)
                return error();
            m.input.name = b.name;
            m.input.args.push_back({{text}});
            return m;
        }
    }

    struct Lexer
    {
        int id = 0; // of a user's lexer, otherwise 0
        std::shared_ptr<Behaviour const> behaviour;
        grammar::Config config;
    };

    struct Call
    {
        std::string command;
        std::vector<cx::Arg> args;
        std::vector<cx::NamedArg> named;
    };

    struct Slot
    {
        std::unique_ptr<coil::Bindings> real;
        bool usable = false;
        Lexer lexer;
    };

    struct World
    {
        Lexers lexers;
        std::vector<Call> calls;
        Slot slots[2];
        int nextId = 1;
        // what the command "swap" does when it runs
        std::function<void()> during;
    };

    void bindCommands(World& w, coil::Bindings& b)
    {
        auto record = [&w](std::string const& name, coil::Context& context, std::vector<cx::Arg> args) {
            Call call{name, std::move(args), {}};
            for (auto const& n : context.namedArgs())
                call.named.push_back({cx::str(n.key), cx::plain(n.value)});
            w.calls.push_back(call);
            context.log("ran ");
            context.log(cx::own(name));
        };
        for (std::string name : {"f", "g"})
        {
            b[cx::view(name)] = coil::overloaded(
                [record, name](coil::Context c) { record(name, c, {}); return 0; },
                [record, name](coil::Context c, coil::Value const& x) { record(name, c, {cx::plain(x)}); return 1; },
                [record, name](coil::Context c, coil::Value const& x, coil::Value const& y, coil::Value const& z) { record(name, c, {cx::plain(x), cx::plain(y), cx::plain(z)}); return 3; });
        }
        b["swap"] = [&w, record](coil::Context c, coil::Value const& x) {
            record("swap", c, {cx::plain(x)});
            if (w.during)
                w.during();
            // everything is still readable behind that
            if (!(cx::plain(x) == w.calls.back().args[0]))
                w.calls.back().command = "swap, and its argument changed";
            return 1;
        };
    }

    cx::Arg someArg(pbt::Source& s)
    {
        if (!s.chance(1, 4))
            return {{gen::text(s, 60)}};
        cx::Arg a;
        for (size_t i = 0; s.more(2, i, 12); i++)
            a.subvalues.push_back(gen::text(s, 20));
        return a;
    }

    std::string someName(pbt::Source& s)
    {
        switch (s.weighted({6, 4, 6, 2}))
        {
        default:
        case 0:
            return "f";
        case 1:
            return "g";
        case 2:
            return "swap";
        case 3:
            return gen::text(s, 30);
        }
    }

    std::shared_ptr<Behaviour const> someBehaviour(pbt::Source& s)
    {
        auto b = std::make_shared<Behaviour>();
        b->kind = static_cast<Behaviour::Kind>(s.draw(Behaviour::Count));
        b->error = gen::text(s, 200);
        b->cut = "/ ,=()"[s.draw(6)];
        b->width = 1 + s.draw(7);
        b->name = someName(s);
        b->fixed.name = someName(s);
        for (size_t n = s.draw(4); n > 0; n--)
            b->fixed.args.push_back(someArg(s));
        for (size_t n = s.draw(3); n > 0; n--)
            b->fixed.named.push_back({gen::text(s, 20), someArg(s)});
        return b;
    }

    std::string someText(pbt::Source& s, Lexer const& lexer)
    {
        if (lexer.id == 0)
            return s.chance(1, 4) ? gen::text(s, 100) : grammar::tokenSoup(s, lexer.config, someName(s), 30);
        Behaviour const& b = *lexer.behaviour;
        switch (s.weighted({4, 2, 3, 3}))
        {
        default:
        case 0: // what this lexer understands
        {
            if (b.kind == Behaviour::Default)
                return std::string(1, b.cut) + grammar::tokenSoup(s, {}, someName(s), 20);
            std::string r = someName(s);
            for (size_t n = b.kind == Behaviour::Pieces ? s.draw(4) : 0; n > 0; n--)
                r += std::string(1, b.cut) + gen::text(s, 12);
            return r;
        }
        case 1:
            return gen::text(s, 400);
        case 2: // what the default one would
            return grammar::tokenSoup(s, {}, someName(s), 20);
        case 3: // what neither would
            return s.flip() ? " f 'x" : s.flip() ? "f = = \"" : "  ";
        }
    }

    // set to a lexer made now; returns what it means
    Lexer setSome(pbt::Source& s, World& w, coil::Bindings& b, bool fallback = false)
    {
        Lexer lexer;
        if (!fallback && !s.chance(1, 4))
        {
            lexer.id = w.nextId++;
            lexer.behaviour = someBehaviour(s);
            if (s.flip())
                b.setLexer(coil::makeUnique<UserLexer>(w.lexers, lexer.id, lexer.behaviour));
            else
            {
                coil::UniquePtr<coil::Lexer> p = coil::makeUnique<UserLexer>(w.lexers, lexer.id, lexer.behaviour);
                b.setLexer(coil::move(p));
            }
            return lexer;
        }
        lexer.config = grammar::disjointConfig(s);
        b.setLexer(lexer.config.make());
        return lexer;
    }

    void execute(pbt::Source& s, pbt::Case& c, World& w, Slot& slot, std::string const& where, unsigned& understood)
    {
        coil::Bindings& b = *slot.real;
        std::string const text = someText(s, slot.lexer);
        c.note("  text " + pbt::show(text, 200));
        Lexer const before = slot.lexer;

        bool const replaces = s.chance(2, 3);
        std::optional<Lexer> during;
        w.during = [&] {
            if (replaces)
                during = setSome(s, w, b);
        };

        w.calls.clear();
        w.lexers.parsed.clear();
        gen::ExactText const exact{text};
        coil::ExecutionResult const result = b.execute(cx::view(exact));
        w.during = nullptr;
        if (during)
        {
            slot.lexer = *during;
            c.label("replaced by a running command");
        }

        cx::Result const got = cx::plain(result);
        std::string const shown = where + " of " + pbt::show(text, 200) + (before.id ? " by lexer " + std::to_string(before.id) : " by " + before.config.show()) + ": " + cx::show(got);

        if (before.id)
            REQUIRE(c, w.lexers.parsed.size() == 1 && w.lexers.parsed[0].first == before.id && w.lexers.parsed[0].second == text, shown + ": the text was handed to " + std::to_string(w.lexers.parsed.size()) + " lexers, or to another, or was changed: " + (w.lexers.parsed.empty() ? std::string{} : std::to_string(w.lexers.parsed[0].first) + " " + pbt::show(w.lexers.parsed[0].second, 200)));
        else
            REQUIRE(c, w.lexers.parsed.empty(), shown + ": a replaced lexer was used");

        Meaning const m = before.id ? meaning(*before.behaviour, text) : fromReference(grammar::parse(text, before.config));
        if (m.loose)
        {
            c.label("loose");
            return;
        }
        if (!m.ok)
        {
            REQUIRE(c, w.calls.empty() && !got.returnValue && got.output.empty() && got.in == cx::Input{}, shown + ": a syntax error, and something was done");
            REQUIRE(c, got.errors.size() == 1, shown + ": one error is expected");
            std::string const expected = "Syntax error: " + m.error;
            REQUIRE(c, m.exactError ? got.errors[0] == expected : got.errors[0].rfind("Syntax error: ", 0) == 0, shown + ": expected " + pbt::show(expected, 300));
            c.label("syntax error");
            understood++;
            return;
        }

        cx::Input const& in = m.input;
        REQUIRE(c, got.in == in, shown + ": the input of the result should be " + cx::show(in));
        std::string error;
        bool const known = in.name == "f" || in.name == "g" || in.name == "swap";
        size_t const n = in.args.size();
        if (in.name.empty())
            error = "No function name is specified";
        else if (!known)
            error = "No function '" + in.name + "' is registered";
        else if (in.name == "swap" ? n != 1 : n != 0 && n != 1 && n != 3)
            error = "Wrong number of arguments to '" + in.name + "': expected " + (in.name == "swap" ? "1" : "0, 1 or 3") + ", got " + std::to_string(n);
        if (!error.empty())
        {
            REQUIRE(c, w.calls.empty() && !got.returnValue && got.output.empty(), shown + ": an error, and something was done");
            REQUIRE(c, got.errors.size() == 1 && (cx::hasNul(in.name) || got.errors[0] == error), shown + ": expected " + pbt::show(error, 300));
            c.label("not runnable");
            return;
        }
        REQUIRE(c, got.errors.empty() && got.returnValue == std::to_string(n) && got.output == "ran " + in.name, shown + ": should have run");
        REQUIRE(c, w.calls.size() == 1 && w.calls[0].command == in.name && w.calls[0].args == in.args && w.calls[0].named == in.named, shown + ": another call was made than " + cx::show(in));
        c.label("ran");
        understood++;
    }
}

PBT_PROPERTY("C22",
             "up to 30 operations on two registries: set a lexer (seven kinds of user lexers that record their text and return fixed inputs, errors, pieces, columns or delegate; or default lexers with random disjoint delimiter sets), execute texts for that lexer, for the default one or for neither, with commands that replace the lexer while they run, move-construct, move-assign, destroy; "
             "texts seen, calls, results and live lexers compared with a model; non-trivial: at least two lexers set, and two texts understood by their lexer",
             true)
{
    World w;
    unsigned sets = 0, understood = 0;
    for (Slot& slot : w.slots)
    {
        slot.real = std::make_unique<coil::Bindings>();
        bindCommands(w, *slot.real);
        slot.usable = true;
    }
    auto fresh = [&](Slot& slot) {
        slot.real = std::make_unique<coil::Bindings>();
        bindCommands(w, *slot.real);
        slot.usable = true;
        slot.lexer = {};
    };
    auto checkLive = [&](std::string const& where) {
        long expected = 0;
        bool all = true;
        for (Slot const& slot : w.slots)
        {
            all = all && slot.usable;
            expected += slot.usable && slot.lexer.id != 0;
        }
        for (auto const& [id, times] : w.lexers.destroyed)
        {
            REQUIRE(c, times == 1, where + ": lexer " + std::to_string(id) + " was destroyed " + std::to_string(times) + " times");
            for (Slot const& slot : w.slots)
                REQUIRE(c, !slot.usable || slot.lexer.id != id, where + ": lexer " + std::to_string(id) + " was destroyed while set");
        }
        REQUIRE(c, all ? w.lexers.live == expected : w.lexers.live >= expected, where + ": " + std::to_string(w.lexers.live) + " lexers live instead of " + std::to_string(expected));
    };

    for (size_t step = 0; step == 0 || s.more(9, step, 30); step++)
    {
        size_t const i = s.draw(2);
        Slot&a = w.slots[i], &other = w.slots[1 - i];
        size_t const op = s.weighted({6, 4, 1, 1, 1, 1});
        static char const* const names[] = {"execute", "set lexer", "move-construct", "move-assign", "new registry", "take out"};
        std::string const where = "step " + std::to_string(step) + " " + names[op] + " on " + std::to_string(i);
        c.note(where);
        if (!a.usable && op != 3 && op != 4)
            continue;
        switch (op)
        {
        case 0:
            execute(s, c, w, a, where, understood);
            break;
        case 1:
            if (size_t const times = gen::wear(s, 2500))
            {
                c.note(std::to_string(times) + " lexers");
                c.label("260+ lexers");
                for (size_t k = 0; k < times; k++)
                {
                    int const id = w.nextId++;
                    a.real->setLexer(coil::makeUnique<UserLexer>(w.lexers, id, std::make_shared<Behaviour const>()));
                    if (k + 3 > times || k % 1000 == 999)
                        REQUIRE(c, w.lexers.destroyed.size() + w.lexers.live == static_cast<size_t>(w.nextId - 1), where + ": lexers were lost");
                }
            }
            a.lexer = setSome(s, w, *a.real);
            sets += a.lexer.id != 0;
            break;
        case 2:
        {
            auto moved = std::make_unique<coil::Bindings>(coil::move(*a.real));
            a.real = std::move(moved);
            break;
        }
        case 3:
            if (!other.usable)
                break;
            *a.real = coil::move(*other.real);
            a.lexer = other.lexer, a.usable = true;
            other.usable = false;
            if (s.flip())
                fresh(other);
            break;
        case 4:
            fresh(a);
            break;
        case 5: // through another registry and back
        {
            coil::Bindings away{coil::move(*a.real)};
            if (s.flip())
                *a.real = coil::Bindings{};
            *a.real = coil::move(away);
            break;
        }
        }
        checkLive(where);
    }

    for (Slot& slot : w.slots)
        slot.real.reset();
    REQUIRE(c, w.lexers.live == 0, "lexers outlive their registries");
    for (auto const& [id, times] : w.lexers.destroyed)
        REQUIRE(c, times == 1, "lexer " + std::to_string(id) + " was destroyed " + std::to_string(times) + " times");
    REQUIRE(c, w.lexers.destroyed.size() == static_cast<size_t>(w.nextId - 1), "a lexer was never destroyed");

    c.nontrivial(sets >= 2 && understood >= 2);
    c.key(s.choicesHash());
}

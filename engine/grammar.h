// The documented command grammar, written down independently of the library: a reference parser, delimiter
// configurations, and generators of command texts.
#pragma once

#include "coilx.h"
#include "gen.h"

#include <functional>
#include <string>
#include <vector>

namespace grammar
{
    struct Config
    {
        std::string groups = "()";
        std::string quotes = "'\"";
        std::string separators = ",;|";
        std::string spaces = " \t\n\r";
        bool isDefault = true;

        static bool in(std::string const& set, char c) { return set.find(c) != std::string::npos; }
        bool space(char c) const { return in(spaces, c); }
        bool group(char c) const { return in(groups, c); }
        bool quote(char c) const { return in(quotes, c); }
        bool separator(char c) const { return in(separators, c); }
        bool plain(char c) const { return c != '=' && !space(c) && !group(c) && !quote(c) && !separator(c); }

        std::string show() const
        {
            if (isDefault)
                return "default lexer";
            return "lexer groups " + pbt::show(groups) + " quotes " + pbt::show(quotes) + " separators " + pbt::show(separators) + " spaces " + pbt::show(spaces);
        }

        coil::UniquePtr<coil::Lexer> make() const
        {
            if (isDefault)
                return coil::makeUnique<coil::DefaultLexer>();
            return coil::makeUnique<coil::DefaultLexer>(cx::view(groups), cx::view(quotes), cx::view(separators), cx::view(spaces));
        }

        coil::DefaultLexer lexer() const
        {
            if (isDefault)
                return coil::DefaultLexer{};
            return coil::DefaultLexer{cx::view(groups), cx::view(quotes), cx::view(separators), cx::view(spaces)};
        }
    };

    // Four sets without common characters: the meaning of every character is then unambiguous.
    inline Config disjointConfig(pbt::Source& s)
    {
        Config c;
        if (!s.chance(1, 3))
            return c;
        c.isDefault = false;
        std::string used = "=";
        auto set = [&](std::string const& preferred, size_t min, size_t max) {
            std::string r;
            size_t n = s.range(min, max);
            for (size_t i = 0; i < n; i++)
            {
                char ch = 0;
                switch (s.weighted({5, 4, 2, 2}))
                {
                default:
                case 0:
                    ch = preferred[s.draw(preferred.size())];
                    break;
                case 1:
                    ch = "!#$%&*+-./:<>?@[]^`{}~_\\"[s.draw(24)];
                    break;
                case 2:
                    ch = static_cast<char>(s.range(0x80, 0xff));
                    break;
                case 3:
                    ch = static_cast<char>(s.chance(1, 4) ? s.range(1, 31) : s.range('a', 'z'));
                    break;
                }
                if (used.find(ch) == std::string::npos)
                {
                    used += ch;
                    r += ch;
                }
            }
            return r;
        };
        c.spaces = set(" \t\n\r\v\f", 1, 4);
        c.groups = set("()[]{}<>", 0, 4);
        c.quotes = set("'\"`", 0, 3);
        c.separators = set(",;|:/", 0, 4);
        if (c.spaces.empty())
            c.spaces = std::string(1, '\x01');
        return c;
    }

    struct Parsed
    {
        bool ok = false;
        bool loose = false;       // uses a construct whose meaning the documentation leaves open
        bool exactError = true;   // the error text is determined
        std::string error;        // without the "Syntax error: " prefix
        cx::Input input;
    };

    namespace detail
    {
        enum class Kind
        {
            Plain,
            List,
            Assign,
        };
        struct Tok
        {
            Kind kind;
            std::string raw;
        };

        inline std::vector<std::string> elements(std::string const& body, Config const& c)
        {
            std::vector<std::string> out;
            std::string current;
            bool open = false, inQuotes = false;
            auto flush = [&] {
                if (!open)
                    return;
                size_t n = current.size();
                if (n >= 2 && c.quote(current.front()) && c.quote(current.back()))
                    current = current.substr(1, n - 2);
                out.push_back(current);
                current.clear();
                open = inQuotes = false;
            };
            for (char ch : body)
            {
                bool isSeparator = c.separator(ch) || c.space(ch);
                if (isSeparator && !inQuotes)
                {
                    flush();
                    continue;
                }
                open = true;
                current += ch;
                if (c.quote(ch))
                    inQuotes = !inQuotes;
            }
            flush();
            return out;
        }
    }

    inline Parsed parse(std::string const& text, Config const& c)
    {
        using namespace detail;
        Parsed r;
        std::vector<Tok> toks;

        size_t i = 0;
        size_t const n = text.size();
        while (i < n)
        {
            char ch = text[i];
            if (ch == '=')
            {
                toks.push_back({Kind::Assign, "="});
                i++;
            }
            else if (c.space(ch))
            {
                i++;
            }
            else if (c.group(ch) || c.quote(ch))
            {
                bool isGroup = c.group(ch);
                size_t j = i + 1;
                // inside a group only group characters end it, inside quotes only quotes; '=' and spaces are contents
                while (j < n && !(isGroup ? c.group(text[j]) : c.quote(text[j])))
                    j++;
                if (j >= n)
                {
                    r.error = std::string{"Token '"} + ch + (isGroup ? "' doesn't have a corresponding opening/closing token" : "' doesn't have a corresponding opening/closing quote");
                    return r;
                }
                toks.push_back({isGroup ? Kind::List : Kind::Plain, text.substr(i + 1, j - i - 1)});
                i = j + 1;
            }
            else
            {
                size_t j = i;
                bool list = false;
                while (j < n && (c.plain(text[j]) || c.separator(text[j])))
                {
                    if (c.separator(text[j]))
                    {
                        if (j == i)
                            r.loose = true; // a bare list that begins with a separator
                        else
                            list = true;
                    }
                    j++;
                }
                toks.push_back({list ? Kind::List : Kind::Plain, text.substr(i, j - i)});
                i = j;
            }
        }

        if (toks.empty())
        {
            r.ok = true;
            return r;
        }
        if (toks[0].kind != Kind::Plain)
        {
            r.error = "Unexpected token '" + toks[0].raw + "' at the beginning of the expression";
            r.exactError = !cx::hasNul(toks[0].raw);
            return r;
        }

        auto argument = [&](Tok const& t) { return t.kind == Kind::List ? cx::Arg{elements(t.raw, c)} : cx::Arg{{t.raw}}; };

        cx::Input in;
        in.name = toks[0].raw;
        size_t k = 1;
        while (k < toks.size())
        {
            if (toks[k].kind == Kind::Assign)
            {
                r.error = "Unexpected token '=': no name for the named argument is provided";
                return r;
            }
            bool assigned = k + 1 < toks.size() && toks[k + 1].kind == Kind::Assign;
            if (!assigned)
            {
                in.args.push_back(argument(toks[k]));
                k++;
                continue;
            }
            if (k + 2 >= toks.size())
            {
                r.error = "Expected an argument value, found end of string";
                return r;
            }
            if (toks[k + 2].kind == Kind::Assign)
            {
                r.error = "Expected an argument value, found '='";
                return r;
            }
            in.named.push_back({toks[k].raw, argument(toks[k + 2])});
            k += 3;
        }
        r.ok = true;
        r.input = in;
        return r;
    }

    // ---- rendering a structure as text ----

    inline std::string spaces(pbt::Source& s, Config const& c, size_t min)
    {
        std::string r;
        size_t n = min + (s.chance(1, 3) ? s.draw(4) : 0);
        for (size_t i = 0; i < n; i++)
            r += c.spaces[s.draw(c.spaces.size())];
        return r;
    }

    inline bool all(std::string const& text, std::function<bool(char)> const& f)
    {
        return std::all_of(text.begin(), text.end(), f);
    }

    inline bool bareable(std::string const& t, Config const& c)
    {
        return !t.empty() && all(t, [&](char ch) { return c.plain(ch); });
    }
    inline bool quotable(std::string const& t, Config const& c)
    {
        return !c.quotes.empty() && all(t, [&](char ch) { return !c.quote(ch); });
    }
    // as an element of a group
    inline bool groupBareable(std::string const& t, Config const& c)
    {
        return !t.empty() && all(t, [&](char ch) { return !c.space(ch) && !c.separator(ch) && !c.quote(ch) && !c.group(ch); });
    }
    inline bool groupQuotable(std::string const& t, Config const& c)
    {
        return quotable(t, c) && all(t, [&](char ch) { return !c.group(ch); });
    }
    inline char quoteChar(pbt::Source& s, Config const& c)
    {
        return c.quotes[s.draw(c.quotes.size())];
    }

    struct Piece
    {
        std::string text;
        bool bareEdge; // needs a delimiter towards an adjacent bare piece
        char const* label;
    };

    // One value as text, or nothing if this notation cannot carry it.
    inline std::optional<Piece> renderSingle(pbt::Source& s, std::string const& t, Config const& c, bool allowGroup)
    {
        bool bare = bareable(t, c), quoted = quotable(t, c);
        unsigned choice = static_cast<unsigned>(s.draw(4));
        if (bare && (choice <= 1 || !quoted))
            return Piece{t, true, "bare"};
        if (quoted)
        {
            if (choice == 3 && allowGroup && !c.groups.empty() && groupQuotable(t, c))
            {
                std::string g(1, c.groups[s.draw(c.groups.size())]);
                return Piece{g + spaces(s, c, 0) + quoteChar(s, c) + t + quoteChar(s, c) + spaces(s, c, 0) + c.groups[s.draw(c.groups.size())], false, "single-in-group"};
            }
            return Piece{quoteChar(s, c) + t + quoteChar(s, c), false, "quoted"};
        }
        if (allowGroup && !c.groups.empty() && groupBareable(t, c))
            return Piece{c.groups[s.draw(c.groups.size())] + t + c.groups[s.draw(c.groups.size())], false, "single-in-group"};
        return {};
    }

    inline std::string separatorRun(pbt::Source& s, Config const& c, bool needed)
    {
        std::string set = c.separators + c.spaces;
        std::string r;
        size_t n = (needed ? 1 : 0) + (s.chance(1, 4) ? s.draw(4) : 0);
        for (size_t i = 0; i < n; i++)
            r += set[s.draw(set.size())];
        return r;
    }

    inline std::optional<Piece> renderList(pbt::Source& s, std::vector<std::string> const& list, Config const& c)
    {
        // a bare list: a,b;c - at least one separator, the first behind the first element
        if (!c.separators.empty() && !list.empty() && std::all_of(list.begin(), list.end(), [&](auto const& t) { return bareable(t, c); }) && s.chance(1, 3))
        {
            std::string r;
            for (size_t i = 0; i < list.size(); i++)
            {
                if (i > 0)
                    for (uint64_t n = 1 + (s.chance(1, 5) ? 1 : 0); n > 0; n--)
                        r += c.separators[s.draw(c.separators.size())];
                r += list[i];
            }
            if (list.size() == 1 || s.chance(1, 5))
                r += c.separators[s.draw(c.separators.size())];
            return Piece{r, true, "bare-list"};
        }
        if (c.groups.empty())
            return {};
        std::string r(1, c.groups[s.draw(c.groups.size())]);
        r += separatorRun(s, c, false);
        for (size_t i = 0; i < list.size(); i++)
        {
            if (i > 0)
                r += separatorRun(s, c, true);
            bool bare = groupBareable(list[i], c), quoted = groupQuotable(list[i], c);
            if (!bare && !quoted)
                return {};
            if (bare && (!quoted || !s.chance(1, 3)))
                r += list[i];
            else
                r += quoteChar(s, c) + list[i] + quoteChar(s, c);
        }
        r += separatorRun(s, c, false);
        r += c.groups[s.draw(c.groups.size())];
        return Piece{r, false, "group"};
    }

    inline std::optional<Piece> renderArg(pbt::Source& s, cx::Arg const& a, Config const& c)
    {
        if (a.subvalues.size() == 1 && !s.chance(1, 6))
            if (auto p = renderSingle(s, a.subvalues[0], c, true))
                return p;
        return renderList(s, a.subvalues, c);
    }

    // ---- arbitrary command-like texts ----

    inline std::string someText(pbt::Source& s, Config const& c, size_t max)
    {
        switch (s.weighted({6, 3, 2, 2}))
        {
        default:
        case 0:
            return gen::text(s, gen::Alphabet::Word, max);
        case 1:
        {
            // numbers and the like
            std::string r = s.chance(1, 4) ? "-" : s.chance(1, 6) ? "+" : "";
            r += std::to_string(gen::u64(s));
            if (s.chance(1, 3))
                r += "." + std::to_string(gen::u64(s));
            if (s.chance(1, 6))
                r += "e" + std::to_string(static_cast<int>(s.draw(700)) - 350);
            return r;
        }
        case 2:
            return gen::text(s, max);
        case 3:
        {
            std::string all = c.groups + c.quotes + c.separators + c.spaces + "==ab";
            std::string r;
            for (size_t n = s.draw(8); n > 0; n--)
                r += all[s.draw(all.size())];
            return r;
        }
        }
    }

    inline std::string tokenSoup(pbt::Source& s, Config const& c, std::string const& name, size_t maxPiece)
    {
        std::string r = spaces(s, c, 0);
        if (!s.chance(1, 8))
            r += name;
        for (size_t count = 0; s.more(4, count, 60); count++)
        {
            std::string g = c.groups.empty() ? "" : std::string(1, c.groups[s.draw(c.groups.size())]);
            std::string g2 = c.groups.empty() ? "" : std::string(1, c.groups[s.draw(c.groups.size())]);
            std::string q = c.quotes.empty() ? "" : std::string(1, c.quotes[s.draw(c.quotes.size())]);
            std::string q2 = c.quotes.empty() ? "" : std::string(1, c.quotes[s.draw(c.quotes.size())]);
            r += spaces(s, c, s.chance(1, 4) ? 0 : 1);
            switch (s.weighted({5, 3, 3, 4, 1, 1, 1}))
            {
            default:
            case 0:
                r += someText(s, c, maxPiece);
                break;
            case 1:
                r += q + someText(s, c, maxPiece) + q2;
                break;
            case 2:
            {
                r += g;
                for (size_t n = 0; s.more(2, n, 20); n++)
                    r += (n ? separatorRun(s, c, true) : "") + (s.chance(1, 4) ? q + someText(s, c, maxPiece) + q2 : someText(s, c, 12));
                r += g2;
                break;
            }
            case 3:
                r += gen::bytes(s, 1 + s.draw(3), gen::Alphabet::Word) + spaces(s, c, 0) + "=" + spaces(s, c, 0) + someText(s, c, maxPiece);
                break;
            case 4:
                r += "=";
                break;
            case 5:
                r += s.flip() ? g : q;
                break;
            case 6:
                r += separatorRun(s, c, true);
                break;
            }
        }
        return r + spaces(s, c, 0);
    }

    inline std::string mutate(pbt::Source& s, std::string t, Config const& c)
    {
        std::string all = c.groups + c.quotes + c.separators + c.spaces + "=";
        for (uint64_t n = s.draw(4); n > 0 && !t.empty(); n--)
        {
            size_t at = s.draw(t.size());
            switch (s.draw(6))
            {
            case 0:
                t.erase(at, 1);
                break;
            case 1:
                t.insert(at, 1, all[s.draw(all.size())]);
                break;
            case 2:
                t[at] = all[s.draw(all.size())];
                break;
            case 3:
                t.resize(at);
                break;
            case 4:
                t.insert(at, 1, static_cast<char>(s.draw(256)));
                break;
            case 5:
                t.insert(at, t.substr(at, 1 + s.draw(5)));
                break;
            }
        }
        return t;
    }
}

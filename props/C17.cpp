#include "coilx.h"

#include <optional>
#include <sstream>

// Library strings against std::string over sequences of operations on a small pool.

namespace
{
    struct Slot
    {
        std::unique_ptr<coil::String> real; // a heap block of its own: leftovers of a moved or destroyed string are seen
        std::string model;
        bool known = true; // false: moved from, to be assigned or destroyed only
    };

    std::string zstr(std::string const& s)
    {
        return s.substr(0, s.find('\0'));
    }
    template<typename T>
    size_t hashOf(T const& v)
    {
        return coil::Hash<T>{}(v);
    }

    void check(pbt::Case& c, Slot const& slot, std::string const& where)
    {
        if (!slot.known || !slot.real)
            return;
        coil::String const& r = *slot.real;
        coil::String& w = *slot.real;
        std::string const& m = slot.model;
        auto detail = [&] { return where + ": " + pbt::show(cx::str(r), 200) + " instead of " + pbt::show(m, 200); };
        REQUIRE(c, r.length() == m.size(), where + ": length " + std::to_string(r.length()) + " instead of " + std::to_string(m.size()));
        REQUIRE(c, r.slength() == static_cast<int>(m.size()), detail());
        REQUIRE(c, r.empty() == m.empty(), detail());
        REQUIRE(c, r.cStr() != nullptr && r.data() == r.cStr() && w.data() == r.cStr() && r.begin() == r.cStr() && r.end() == r.cStr() + m.size(), where + ": pointers disagree");
        REQUIRE(c, memcmp(r.cStr(), m.data(), m.size()) == 0, detail());
        REQUIRE(c, r.cStr()[m.size()] == '\0', where + ": not NUL-terminated");
        if (!m.empty())
            REQUIRE(c, r.back() == m.back() && w.back() == m.back(), detail());
        coil::StringView const v = r;
        REQUIRE(c, v.data() == r.cStr() && v.length() == m.size(), where + ": view differs");
    }

    struct View
    {
        coil::StringView real;
        std::string model;
    };

    void checkView(pbt::Case& c, View const& v, char const* where)
    {
        REQUIRE(c, v.real.length() == v.model.size() && v.real.slength() == static_cast<int>(v.model.size()) && v.real.empty() == v.model.empty(), where);
        REQUIRE(c, cx::str(v.real) == v.model, std::string{where} + ": " + pbt::show(cx::str(v.real)) + " instead of " + pbt::show(v.model));
        REQUIRE(c, v.real.end() - v.real.begin() == static_cast<std::ptrdiff_t>(v.model.size()) && v.real.begin() == v.real.data(), where);
    }
}

PBT_PROPERTY("C17",
             "up to 60 operations on a pool of 4 strings (construct from C string, bytes, view, part of another; append character, C string, bytes, view, itself, a part of itself; concatenate; resize and fill; reserve; copy and move, construct and assign, onto itself; write through data(); compare; hash; views, subviews and std conversions), texts of any bytes up to several thousand, rarely 140000, "
             "each compared with std::string after every step; non-trivial: at least three changes and one of them an append or a copy",
             true)
{
    Slot slots[4];
    for (auto& slot : slots)
        slot.real = std::make_unique<coil::String>();
    unsigned changes = 0, appends = 0;
    bool const huge = s.chance(1, 600);
    size_t const maxText = huge ? 140000 : s.chance(1, 6) ? 6000 : 120;
    auto makeText = [&] {
        if (huge)
        {
            std::string const period = gen::bytes(s, 1 + s.draw(60), gen::alphabet(s));
            std::string r;
            for (size_t size = gen::bulk(s, 70000, maxText, 2); r.size() < size;)
                r += period.substr(0, size - r.size());
            return r;
        }
        size_t size = gen::size(s, maxText, maxText > 1000 ? 15 : 3);
        return gen::bytes(s, size, gen::alphabet(s));
    };
    std::string const first = makeText();
    *slots[0].real = cx::own(first);
    slots[0].model = first;

    for (size_t step = 0; step == 0 || s.more(18, step, huge ? 20 : 60); step++)
    {
        size_t const i = s.draw(4), j = s.draw(4);
        Slot& a = slots[i];
        Slot& b = slots[j];
        size_t const op = s.draw(26);
        std::string where = "step " + std::to_string(step) + " op " + std::to_string(op) + " on " + std::to_string(i) + (op >= 8 ? " and " + std::to_string(j) : "");
        std::string text;
        size_t from = 0, length = 0;
        if (op <= 7 || op == 21 || op == 22)
            text = makeText();
        if (op >= 9 && op <= 12)
        {
            from = s.draw(b.model.size() + 1);
            length = s.draw(b.model.size() - from + 1);
            where += " part " + std::to_string(from) + "+" + std::to_string(length);
        }
        c.note(where + (text.empty() ? "" : " " + pbt::show(text, 80)));

        // reading from, or changing, a string of unknown contents is not specified
        bool const readsA = op == 4 || op == 5 || op == 6 || op == 7 || op == 8 || op == 9 || op == 10 || op == 13 || (op >= 18);
        bool const readsB = op >= 8 && op <= 17;
        if ((readsA && !a.known) || (readsB && !b.known && op != 14 && op != 15))
            continue;
        if ((op == 14 || op == 15) && !b.known)
            continue;
        gen::ExactText exact{text};
        changes += op < 19;
        appends += (op >= 4 && op <= 10) || op == 13;
        switch (op)
        {
        // whole new contents
        case 0:
            *a.real = coil::String{text.c_str()};
            a.model = zstr(text), a.known = true;
            break;
        case 1:
            *a.real = coil::String{exact.data(), exact.size()};
            a.model = text, a.known = true;
            break;
        case 2:
            a.real = std::make_unique<coil::String>(cx::view(exact));
            a.model = text, a.known = true;
            break;
        case 3:
            *a.real = coil::fromStdString(text);
            a.model = text, a.known = true;
            break;
        // appending from outside
        case 4:
            if (text.empty())
                text = "x";
            *a.real += text[0];
            a.model += text[0];
            break;
        case 5:
            *a.real += text.c_str();
            a.model += zstr(text);
            break;
        case 6:
            a.real->append(exact.data(), exact.size());
            a.model += text;
            break;
        case 7:
            *a.real += cx::view(exact);
            a.model += text;
            break;
        // appending from the pool, from itself too
        case 8:
            *a.real += *b.real;
            a.model += std::string(b.model);
            break;
        case 9:
        {
            coil::StringView part = coil::StringView{*b.real}.substr(from, length);
            *a.real += part;
            a.model += std::string(b.model, from, length);
            break;
        }
        case 10:
            a.real->append(b.real->data() + from, length);
            a.model += std::string(b.model, from, length);
            break;
        case 11: // from a part of another or of itself
        {
            std::string part(b.model, from, length);
            *a.real = coil::String{coil::StringView{*b.real}.substr(from, length)};
            a.model = part, a.known = true;
            break;
        }
        case 12: // the end of a C string
        {
            std::string part = zstr(b.model.substr(from));
            *a.real = b.real->cStr() + from;
            a.model = part, a.known = true;
            break;
        }
        case 13:
        {
            coil::String sum;
            std::string expected;
            switch (s.draw(5))
            {
            case 0:
                sum = *a.real + *b.real;
                expected = a.model + b.model;
                break;
            case 1:
                sum = *a.real + coil::StringView{*b.real};
                expected = a.model + b.model;
                break;
            case 2:
                sum = *a.real + b.real->cStr();
                expected = a.model + zstr(b.model);
                break;
            case 3:
                sum = *a.real + 'q';
                expected = a.model + 'q';
                break;
            default:
                sum = b.real->cStr() + coil::String{*a.real};
                expected = zstr(b.model) + a.model;
                break;
            }
            // neither operand is touched, and the sum is on its own
            check(c, a, where + " left operand");
            check(c, b, where + " right operand");
            size_t k = s.draw(4);
            *slots[k].real = coil::move(sum);
            slots[k].model = expected, slots[k].known = true;
            break;
        }
        // copies and moves
        case 14:
            *a.real = *b.real;
            a.model = std::string(b.model), a.known = b.known;
            break;
        case 15:
        {
            auto copy = std::make_unique<coil::String>(*b.real);
            a.real = std::move(copy);
            a.model = std::string(b.model), a.known = true;
            break;
        }
        case 16:
        {
            coil::String& source = *b.real;
            *a.real = coil::move(source);
            if (i == j)
            {
                a.known = false;
                break;
            }
            a.model = b.model, a.known = true;
            b.known = false;
            break;
        }
        case 17:
        {
            auto moved = std::make_unique<coil::String>(coil::move(*b.real));
            b.known = false;
            std::string m = b.model;
            if (s.flip())
                b.real = std::make_unique<coil::String>(), b.model.clear(), b.known = true; // destroyed after being moved from
            a.real = std::move(moved);
            a.model = m, a.known = true;
            break;
        }
        // size
        case 18:
        {
            size_t old = a.model.size();
            size_t size = s.flip() ? s.draw(old + 1) : gen::size(s, maxText * 2, 6);
            a.real->resize(size);
            // bytes that resize adds are for the caller to write
            if (size > old)
            {
                std::string fill = gen::bytes(s, size - old, gen::Alphabet::Any);
                memcpy(a.real->data() + old, fill.data(), fill.size());
                a.model += fill;
            }
            else
                a.model.resize(size);
            break;
        }
        case 19:
        {
            size_t capacity = s.flip() ? s.draw(a.model.size() + 1) : gen::size(s, maxText * 3, 6);
            a.real->reserve(capacity);
            break;
        }
        case 20:
            if (!a.model.empty())
            {
                size_t at = s.draw(a.model.size());
                char ch = gen::byteOf(s, gen::Alphabet::Any);
                if (s.flip())
                {
                    a.real->data()[at] = ch;
                    a.model[at] = ch;
                }
                else
                {
                    a.real->back() = ch;
                    a.model.back() = ch;
                }
            }
            break;
        // looking
        case 21:
        {
            // compared with a text close to it
            std::string other = s.flip() ? a.model : text;
            if (!other.empty() && s.flip())
            {
                if (s.flip())
                    other[s.draw(other.size())] ^= static_cast<char>(1u << s.draw(8));
                else
                    other.resize(s.draw(other.size() + 1));
            }
            gen::ExactText e{other};
            bool const same = other == a.model;
            bool const sameZ = zstr(other) == a.model;
            coil::String const own = cx::own(other);
            coil::String const& r = *a.real;
            REQUIRE(c, (r == cx::view(e)) == same, where + " String == StringView");
            REQUIRE(c, (r == own) == same && (own == r) == same, where + " String == String");
            REQUIRE(c, (r == other.c_str()) == sameZ, where + " String == C string");
            REQUIRE(c, (coil::StringView{r} == cx::view(e)) == same && (coil::StringView{r} != cx::view(e)) == !same, where + " StringView == StringView");
            REQUIRE(c, (r != own) == !same, where + " String != String");
            if (same)
                REQUIRE(c, hashOf(own) == hashOf(r) && hashOf(cx::view(e)) == hashOf(r), where + " equal texts with different hashes");
            break;
        }
        case 22:
        {
            gen::ExactText e{text};
            View v{cx::view(e), text};
            checkView(c, v, "view");
            for (size_t n = 0; n < 4; n++)
            {
                size_t f = s.draw(v.model.size() + 1), l = s.draw(v.model.size() - f + 1);
                for (size_t k = 0; k < v.model.size(); k += 1 + v.model.size() / 7)
                    REQUIRE(c, v.real[k] == v.model[k] && &v.real[k] == v.real.data() + k, "view[" + std::to_string(k) + "]");
                View sub{v.real.substr(f, l), v.model.substr(f, l)};
                checkView(c, sub, "subview");
                REQUIRE(c, sub.real.data() == v.real.data() + f, "a subview is not a part of the view");
                v = sub;
            }
            REQUIRE(c, cx::str(coil::StringView{text.c_str()}) == zstr(text), "view of a C string");
            break;
        }
        case 23:
        {
            coil::String const& r = *a.real;
            std::ostringstream stream;
            stream << r << '|' << coil::StringView{r};
            REQUIRE(c, stream.str() == a.model + "|" + a.model, where + " stream");
            REQUIRE(c, coil::toStdString(r) == a.model, where + " toStdString");
            REQUIRE(c, coil::toStdStringView(r) == a.model, where + " toStdStringView");
            REQUIRE(c, cx::str(coil::fromStdStringView(a.model)) == a.model, where + " fromStdStringView");
            REQUIRE(c, coil::fromStdString(a.model) == r, where + " fromStdString");
            break;
        }
        case 24: // a copy does not follow changes of its source, nor the source changes of the copy
        {
            coil::String copy{*a.real};
            std::string const before = a.model;
            *a.real += "changed";
            a.model += "changed";
            REQUIRE(c, cx::str(copy) == before, where + " a copy changed with its source");
            if (!before.empty())
            {
                copy.data()[0] = static_cast<char>(copy.data()[0] + 1);
                copy.resize(copy.length() - 1);
            }
            copy += "y";
            break;
        }
        case 25:
            a.real = std::make_unique<coil::String>();
            a.model.clear();
            break;
        }
        for (size_t k = 0; k < 4; k++)
            check(c, slots[k], where + ", string " + std::to_string(k));
    }
    c.key(s.choicesHash());
    c.nontrivial(changes >= 3 && appends >= 1);
    size_t longest = 0;
    for (auto const& slot : slots)
        longest = std::max(longest, slot.model.size());
    c.labelIf(longest > 256, "long");
    c.labelIf(longest > 4096, "very long");
}

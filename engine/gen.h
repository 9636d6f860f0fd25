// Generators shared by the property files. All randomness comes from pbt::Source.
#pragma once

#include "pbt.h"

#include <algorithm>
#include <climits>
#include <limits>
#include <type_traits>
#include <memory>
#include <string>
#include <vector>

namespace gen
{
    using pbt::Source;

    // A text in a heap block of exactly its size: reading one byte before or behind it is an error the sanitizer sees.
    class ExactText
    {
    public:
        explicit ExactText(std::string const& text) : m_size(text.size()), m_data(new char[text.size()])
        {
            std::copy(text.begin(), text.end(), m_data.get());
        }
        char const* data() const { return m_data.get(); }
        size_t size() const { return m_size; }

    private:
        size_t m_size;
        std::unique_ptr<char[]> m_data;
    };

    // Sizes: mostly small; sometimes next to a power of two or to a number that occurs in the code under test.
    inline size_t size(Source& s, size_t max, unsigned boundaryWeight = 2)
    {
        auto fit = [max](uint64_t v) { return static_cast<size_t>(v > max ? v % (max + 1) : v); };
        switch (s.weighted({20, 8, boundaryWeight, 1}))
        {
        default:
        case 0:
            return fit(s.draw(8));
        case 1:
            return fit(s.draw(40));
        case 2:
        {
            unsigned bits = 2;
            while (bits < 17 && (1ull << bits) <= max)
                bits++;
            uint64_t base = 1ull << s.range(2, bits);
            uint64_t delta = s.draw(5); // 0 +1 -1 +2 -2
            uint64_t v = delta % 2 ? base + (delta + 1) / 2 : base - delta / 2;
            return fit(v);
        }
        case 3:
        {
            auto const& numbers = pbt::dictionary().numbers;
            if (numbers.empty())
                return fit(s.draw(100));
            uint64_t v = numbers[s.draw(numbers.size())];
            uint64_t delta = s.draw(3);
            v = delta == 2 ? v - 1 : v + delta;
            return v > max ? fit(s.draw(300)) : fit(v);
        }
        }
    }

    // How many of something at once: up to 'usual', one time in 'largeOneIn' up to 'large'; often next to a power of two
    // or to a number of the code.
    inline size_t bulk(Source& s, size_t usual, size_t large, unsigned largeOneIn)
    {
        size_t const max = s.chance(1, largeOneIn) ? large : usual;
        switch (s.weighted({4, 4, 1, 2}))
        {
        default:
        case 0:
            return s.draw(max + 1);
        case 3:
            return max - s.draw(max / 16 + 1);
        case 1:
        {
            unsigned bits = 1;
            while ((2ull << bits) <= max)
                bits++;
            size_t const v = (static_cast<size_t>(1) << s.range(1, bits)) + s.draw(7);
            return std::min(max, v < 3 ? 0 : v - 3);
        }
        case 2:
        {
            auto const& numbers = pbt::dictionary().numbers;
            uint64_t const v = numbers.empty() ? s.draw(300) : numbers[s.draw(numbers.size())] + s.draw(3);
            return v == 0 || v - 1 > max ? s.draw(max + 1) : static_cast<size_t>(v - 1);
        }
        }
    }

    // One time in 'oneIn': how often to repeat something that should make no difference, to wear out counters and other state
    // that builds up. 'cost' is roughly the microseconds one repetition takes.
    inline size_t wear(Source& s, unsigned oneIn, size_t cost = 5)
    {
        if (!s.chance(1, oneIn))
            return 0;
        static size_t const sizes[] = {260, 1050, 4200, 66000};
        size_t n = sizes[s.weighted({3, 4, 3, 2})];
        auto const& numbers = pbt::dictionary().numbers;
        if (!numbers.empty() && s.chance(1, 4))
        {
            uint64_t const v = numbers[s.draw(numbers.size())];
            if (v > n / 4 && v < 70000)
                n = static_cast<size_t>(v) + 2;
        }
        return std::min<size_t>(n, 20 + 1500000 / (cost + 1));
    }

    enum class Alphabet
    {
        Word,   // letters and digits
        Print,  // printable ASCII
        Syntax, // the characters the command grammar cares about, and a few others
        Any,    // any byte
    };

    inline char byteOf(Source& s, Alphabet a)
    {
        switch (a)
        {
        case Alphabet::Word:
        {
            static char const set[] = "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_";
            return set[s.draw(sizeof(set) - 1)];
        }
        case Alphabet::Print:
            return static_cast<char>(s.chance(1, 4) ? s.range(0x20, 0x7e) : s.range('a', 'z'));
        case Alphabet::Syntax:
        {
            static char const set[] = "ab1 =(),'\";|\t\n\r-+.%x[]{}:\\#0z\v\f";
            uint64_t v = s.draw(sizeof(set) - 1 + 4);
            if (v < sizeof(set) - 1)
                return set[v];
            return v % 2 ? '\0' : static_cast<char>(s.range(0x80, 0xff));
        }
        case Alphabet::Any:
        default:
            return static_cast<char>(static_cast<unsigned char>(s.draw(256) + 'a')); // 0 is 'a'
        }
    }

    inline std::string bytes(Source& s, size_t length, Alphabet a)
    {
        std::string r;
        if (length <= 48)
        {
            for (size_t i = 0; i < length; i++)
                r += byteOf(s, a);
            return r;
        }
        // long: a short random unit repeated, so that few choices describe it and shrinking stays effective
        std::string unit;
        size_t unitLength = 1 + s.draw(24);
        for (size_t i = 0; i < unitLength; i++)
            unit += byteOf(s, a);
        bool counter = s.flip(); // make every part different
        r.reserve(length + 32);
        uint64_t n = 0;
        while (r.size() < length)
        {
            r += unit;
            if (counter)
                r += std::to_string(n++);
        }
        r.resize(length);
        if (s.flip())
            r[r.size() - 1] = byteOf(s, a);
        return r;
    }

    inline Alphabet alphabet(Source& s)
    {
        switch (s.weighted({5, 3, 3, 2}))
        {
        default:
        case 0:
            return Alphabet::Word;
        case 1:
            return Alphabet::Print;
        case 2:
            return Alphabet::Syntax;
        case 3:
            return Alphabet::Any;
        }
    }

    inline std::string dictionaryString(Source& s)
    {
        auto const& strings = pbt::dictionary().strings;
        if (strings.empty())
            return "x";
        return strings[s.draw(strings.size())];
    }

    // any text
    inline std::string text(Source& s, size_t max = 2000)
    {
        if (s.chance(1, 30))
            return dictionaryString(s);
        Alphabet a = alphabet(s);
        return bytes(s, size(s, max), a);
    }

    inline std::string text(Source& s, Alphabet a, size_t max)
    {
        return bytes(s, size(s, max), a);
    }

    // a non-empty bare word
    inline std::string word(Source& s, size_t max = 300)
    {
        return bytes(s, 1 + size(s, max - 1, 1), Alphabet::Word);
    }

    // Integers: small, around powers of two and ten, from the code, or any.
    inline uint64_t u64(Source& s)
    {
        switch (s.weighted({8, 4, 3, 2, 3}))
        {
        default:
        case 0:
            return s.draw(20);
        case 1:
            return (1ull << s.draw(64)) + s.draw(5) - 2;
        case 2:
        {
            uint64_t p = 1;
            for (uint64_t n = s.draw(20); n > 0; n--)
                p *= 10;
            return p + s.draw(5) - 2;
        }
        case 3:
        {
            auto const& numbers = pbt::dictionary().numbers;
            return numbers.empty() ? s.draw(1000) : numbers[s.draw(numbers.size())] + s.draw(3) - 1;
        }
        case 4:
            return s.draw(0) >> s.draw(64);
        }
    }

    inline int64_t i64(Source& s)
    {
        uint64_t v = u64(s);
        return static_cast<int64_t>(s.chance(1, 3) ? 0 - v : v);
    }

    template<typename T>
    T integer(Source& s)
    {
        // values close to the limits of T are as likely as small ones
        if (s.chance(1, 4))
        {
            uint64_t delta = s.draw(4);
            if (s.flip())
                return static_cast<T>(std::numeric_limits<T>::max() - static_cast<T>(delta));
            return static_cast<T>(std::numeric_limits<T>::min() + static_cast<T>(delta));
        }
        return static_cast<T>(std::is_signed<T>::value ? static_cast<uint64_t>(i64(s)) : u64(s));
    }

    // two names with equal djb2 hashes at every second position: "Ez" and "FY" collide
    inline std::string collidingName(Source& s, unsigned blocks)
    {
        std::string r;
        for (unsigned i = 0; i < blocks; i++)
            r += s.flip() ? "FY" : "Ez";
        return r;
    }
}

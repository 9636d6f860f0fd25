// A small property-based testing engine.
//
// A test case is a pure function of a sequence of bounded choices (Source::draw). In a run the choices come from a PRNG
// seeded from (VERIF_SEED, property, variant, case index); while shrinking and replaying they come from a recorded list;
// in the coverage-guided build they are decoded from libFuzzer's bytes. Choice 0 is always the simplest alternative, so
// deleting, zeroing and lowering choices makes a case smaller (the internal shrinking of Hypothesis).
//
// This header is all that a property file includes; the driver is in pbt_main.cpp.
#pragma once

#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <initializer_list>
#include <string>
#include <string_view>
#include <vector>

namespace pbt
{
    struct Discard // thrown to give up on a case (counted, never a failure)
    {
    };

    constexpr size_t kMaxChoices = 1u << 18;

    // Where the choices of the running case are recorded: shared with the parent, which reads them after a crash.
    struct Record
    {
        volatile uint64_t index = 0;
        volatile uint32_t count = 0;
        volatile uint32_t failed = 0;
        char message[8192] = {};
        uint64_t values[kMaxChoices] = {};
    };

    inline uint64_t splitmix(uint64_t& state)
    {
        uint64_t z = (state += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }

    inline uint64_t hashBytes(void const* data, size_t size, uint64_t h = 0xcbf29ce484222325ull)
    {
        unsigned char const* p = static_cast<unsigned char const*>(data);
        for (size_t i = 0; i < size; i++)
            h = (h ^ p[i]) * 0x100000001b3ull;
        return h ^ (h >> 29);
    }

    // Integer and string literals found in the code under test: extra interesting values for the generators.
    struct Dictionary
    {
        std::vector<uint64_t> numbers;
        std::vector<std::string> strings;
    };
    Dictionary& dictionary();

    class Source
    {
    public:
        enum class Mode
        {
            Random,
            Replay,
            Bytes,
        };

        Source(Record& record, uint64_t seed) : m_mode(Mode::Random), m_record(record), m_state(seed) { m_record.count = 0; }
        Source(Record& record, uint64_t const* choices, size_t count) : m_mode(Mode::Replay), m_record(record), m_choices(choices), m_choicesCount(count) { m_record.count = 0; }
        Source(Record& record, unsigned char const* bytes, size_t count) : m_mode(Mode::Bytes), m_record(record), m_bytes(bytes), m_choicesCount(count) { m_record.count = 0; }

        // a value in [0, bound); bound 0 stands for 2^64
        uint64_t draw(uint64_t bound)
        {
            if (bound == 1)
                return 0;

            uint64_t v = 0;
            switch (m_mode)
            {
            case Mode::Random:
                v = splitmix(m_state);
                if (bound)
                    v %= bound;
                break;
            case Mode::Replay:
                v = m_position < m_choicesCount ? m_choices[m_position++] : 0;
                if (bound && v >= bound)
                    v = bound - 1;
                break;
            case Mode::Bytes:
            {
                int n = bound == 0 || bound > 0x100000000ull ? 8 : bound > 0x10000 ? 4 : bound > 0x100 ? 2 : 1;
                for (int i = 0; i < n && m_position < m_choicesCount; i++)
                    v |= static_cast<uint64_t>(m_bytes[m_position++]) << (8 * i);
                if (bound)
                    v %= bound;
                break;
            }
            }

            if (m_record.count >= kMaxChoices)
                throw Discard{};
            m_record.values[m_record.count] = v;
            m_record.count = m_record.count + 1;
            return v;
        }

        uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo + 1); } // inclusive; lo is the simplest
        bool chance(unsigned numerator, unsigned denominator) { return draw(denominator) >= denominator - numerator; } // false is the simplest
        bool flip() { return draw(2) == 1; }

        // another element of a list whose length averages 'average' and is at most 'max'? Stopping is the simplest.
        bool more(unsigned average, size_t soFar, size_t max)
        {
            if (soFar >= max)
                return false;
            return draw(1024) >= 1024 / (average + 1);
        }

        template<typename T>
        T const& pick(std::vector<T> const& items)
        {
            return items[draw(items.size())];
        }
        template<typename T, size_t N>
        T const& pick(T const (&items)[N])
        {
            return items[draw(N)];
        }

        // index into 'weights', the first being the simplest
        size_t weighted(std::initializer_list<unsigned> weights)
        {
            unsigned sum = 0;
            for (unsigned w : weights)
                sum += w;
            uint64_t v = draw(sum);
            size_t i = 0;
            for (unsigned w : weights)
            {
                if (v < w)
                    return i;
                v -= w;
                i++;
            }
            return 0;
        }

        Mode mode() const { return m_mode; }
        size_t used() const { return m_record.count; }
        uint64_t choicesHash() const { return hashBytes(m_record.values, m_record.count * sizeof(uint64_t)); }

    private:
        Mode m_mode;
        Record& m_record;
        uint64_t m_state = 0;
        uint64_t const* m_choices = nullptr;
        unsigned char const* m_bytes = nullptr;
        size_t m_choicesCount = 0;
        size_t m_position = 0;
    };

    // Thrown by the REQUIRE macros to leave a failing case at once (only from harness code, never through the library).
    struct Abandon
    {
    };

    void writeNote(int fd, std::string const& text);

    class Case
    {
    public:
        explicit Case(bool verbose = false) : verbose(verbose) {}

        bool const verbose; // a description is wanted (samples, replays)

        // First failure wins. Safe to call from inside callbacks: it only records.
        void fail(std::string const& message)
        {
            if (!failed)
                message_ = message;
            failed = true;
        }
        void expect(bool condition, char const* what, std::string const& detail = {})
        {
            if (!condition)
                fail(detail.empty() ? std::string{what} : std::string{what} + ": " + detail);
        }

        void label(char const* name) { labels.push_back(name); }
        void labelIf(bool condition, char const* name)
        {
            if (condition)
                label(name);
        }
        void nontrivial(bool value = true) { isNontrivial = isNontrivial || value; }

        // what makes this case different from others
        void key(uint64_t v) { keyHash = hashBytes(&v, sizeof(v), keyHash), keyed = true; }
        void key(std::string_view v)
        {
            key(static_cast<uint64_t>(v.size()));
            keyHash = hashBytes(v.data(), v.size(), keyHash);
        }

        void note(std::string const& line)
        {
            if (!verbose || notes.size() > 20000)
                return;
            notes += line + "\n";
            if (noteFd >= 0)
                writeNote(noteFd, line + "\n");
        }

        int noteFd = -1;
        bool failed = false;
        std::string message_;
        std::string notes;
        std::vector<char const*> labels;
        bool isNontrivial = false;
        bool keyed = false;
        uint64_t keyHash = 0xcbf29ce484222325ull;
    };

    struct Property
    {
        char const* id;
        char const* rule; // how cases are made and what makes one non-trivial
        void (*run)(Source&, Case&);
        bool checkLeaks;
    };
    extern Property const property; // defined by each property file

    // printable form of bytes
    std::string show(std::string_view bytes, size_t limit = 400);
}

#define PBT_PROPERTY(ID, RULE, LEAKS)                                              \
    static void pbtRunProperty(pbt::Source& s, pbt::Case& c);                      \
    pbt::Property const pbt::property{ID, RULE, &pbtRunProperty, LEAKS};           \
    static void pbtRunProperty([[maybe_unused]] pbt::Source& s, [[maybe_unused]] pbt::Case& c)

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
// In harness code only: record the failure and leave the case.
#define REQUIRE(c, condition, detail)                                                              \
    do                                                                                             \
    {                                                                                              \
        if (!(condition))                                                                          \
        {                                                                                          \
            (c).fail(std::string{#condition " [line " PBT_STR(__LINE__) "]: "} + (detail));        \
            throw pbt::Abandon{};                                                                  \
        }                                                                                          \
    } while (false)

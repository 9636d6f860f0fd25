// Payloads that notice being lost, duplicated, moved as raw bytes, or used before construction or after destruction.
#pragma once

#include <cstring>
#include "coilx.h"

#include <memory>
#include <string>
#include <vector>

namespace tracked
{
    struct Ledger
    {
        long live = 0;
        long constructed = 0;
        std::string fault;
        void report(char const* what)
        {
            if (fault.empty())
                fault = what;
        }
    };
    inline Ledger& ledger()
    {
        static thread_local Ledger l;
        return l;
    }

    constexpr unsigned kAlive = 0x600d1dea;
    constexpr unsigned kDead = 0xdeadbeef;

    // The value sits in a heap block, and the object knows its own address.
    template<bool Copyable>
    class Object
    {
    public:
        Object() : Object(0) {}
        explicit Object(int value) : m_self(this), m_value(new int(value)) { born(); }
        Object(Object const& rhs) : m_self(this), m_value(nullptr)
        {
            static_assert(Copyable);
            rhs.check();
            m_value = rhs.m_value ? new int(*rhs.m_value) : nullptr;
            born();
        }
        Object(Object&& rhs) noexcept : m_self(this), m_value(nullptr)
        {
            rhs.check();
            m_value = rhs.m_value;
            rhs.m_value = nullptr;
            born();
        }
        Object& operator=(Object const& rhs)
        {
            static_assert(Copyable);
            check();
            rhs.check();
            int* value = rhs.m_value ? new int(*rhs.m_value) : nullptr;
            delete m_value;
            m_value = value;
            return *this;
        }
        Object& operator=(Object&& rhs) noexcept
        {
            check();
            rhs.check();
            if (this == &rhs)
                return *this;
            delete m_value;
            m_value = rhs.m_value;
            rhs.m_value = nullptr;
            return *this;
        }
        ~Object()
        {
            check();
            m_state = kDead;
            delete m_value;
            m_value = nullptr;
            ledger().live--;
        }

        // -1: moved from
        int value() const
        {
            check();
            return m_value ? *m_value : -1;
        }
        void set(int v)
        {
            check();
            delete m_value;
            m_value = new int(v);
        }
        bool operator==(Object const& rhs) const { return value() == rhs.value(); }
        bool operator!=(Object const& rhs) const { return value() != rhs.value(); }
        bool operator==(int rhs) const { return value() == rhs; }

    private:
        void born()
        {
            m_state = kAlive;
            ledger().live++;
            ledger().constructed++;
        }
        void check() const
        {
            if (m_state != kAlive)
                ledger().report(m_state == kDead ? "an object is used after its destruction" : "an object is used before its construction");
            else if (m_self != this)
                ledger().report("an object was moved as raw bytes");
        }

        unsigned m_state = 0;
        Object* m_self;
        int* m_value;
    };

    using Copyable = Object<true>;

    // as above, without copies
    class MoveOnly : public Object<true>
    {
    public:
        MoveOnly() = default;
        explicit MoveOnly(int value) : Object<true>(value) {}
        MoveOnly(MoveOnly const&) = delete;
        MoveOnly(MoveOnly&&) noexcept = default;
        MoveOnly& operator=(MoveOnly const&) = delete;
        MoveOnly& operator=(MoveOnly&&) noexcept = default;
    };

    // as Copyable, but large
    class Large : public Object<true>
    {
    public:
        Large() = default;
        explicit Large(int value) : Object<true>(value) { std::memset(m_padding, value & 127, sizeof(m_padding)); }
        int value() const
        {
            int const v = Object<true>::value();
            for (char ch : m_padding)
                if (v >= 0 && ch != (v & 127))
                    ledger().report("the bytes of a large object changed");
            return v;
        }
        bool operator==(Large const& rhs) const { return value() == rhs.value(); }
        bool operator!=(Large const& rhs) const { return value() != rhs.value(); }

    private:
        char m_padding[251] = {};
    };

    // trivial, of an odd size
    struct Odd
    {
        char bytes[3];
        bool operator==(Odd const& rhs) const { return std::memcmp(bytes, rhs.bytes, sizeof(bytes)) == 0; }
        bool operator!=(Odd const& rhs) const { return !(*this == rhs); }
    };

    // How a payload is made from and read as an integer.
    template<typename T>
    struct Traits
    {
        static constexpr bool copyable = true;
        static constexpr bool tracked = false;
        static T make(int v) { return static_cast<T>(v); }
        static int read(T const& v) { return static_cast<int>(v); }
        static char const* name() { return "int"; }
    };
    template<>
    struct Traits<Copyable>
    {
        static constexpr bool copyable = true;
        static constexpr bool tracked = true;
        static Copyable make(int v) { return Copyable{v}; }
        static int read(Copyable const& v) { return v.value(); }
        static char const* name() { return "tracked"; }
    };
    template<>
    struct Traits<Large>
    {
        static constexpr bool copyable = true;
        static constexpr bool tracked = true;
        static Large make(int v) { return Large{v}; }
        static int read(Large const& v) { return v.value(); }
        static char const* name() { return "large"; }
    };
    template<>
    struct Traits<Odd>
    {
        static constexpr bool copyable = true;
        static constexpr bool tracked = false;
        static Odd make(int v) { return {{static_cast<char>(v), static_cast<char>(v >> 8), static_cast<char>(v >> 16)}}; }
        static int read(Odd const& v) { return static_cast<unsigned char>(v.bytes[0]) | static_cast<unsigned char>(v.bytes[1]) << 8 | static_cast<signed char>(v.bytes[2]) * 65536; }
        static char const* name() { return "odd-sized"; }
    };
    template<>
    struct Traits<MoveOnly>
    {
        static constexpr bool copyable = false;
        static constexpr bool tracked = true;
        static MoveOnly make(int v) { return MoveOnly{v}; }
        static int read(MoveOnly const& v) { return v.value(); }
        static char const* name() { return "move-only"; }
    };
    template<typename S>
    S numberText(int v)
    {
        std::string t = v == 0 ? "" : std::to_string(v) + (v % 3 == 0 ? " in a text that is too long for a small string buffer" : "");
        return S(t.c_str());
    }
    template<>
    struct Traits<std::string>
    {
        static constexpr bool copyable = true;
        static constexpr bool tracked = false;
        static std::string make(int v) { return numberText<std::string>(v); }
        static int read(std::string const& v) { return v.empty() ? 0 : std::atoi(v.c_str()); }
        static char const* name() { return "std::string"; }
    };
    template<>
    struct Traits<coil::String>
    {
        static constexpr bool copyable = true;
        static constexpr bool tracked = false;
        static coil::String make(int v) { return numberText<coil::String>(v); }
        static int read(coil::String const& v) { return v.empty() ? 0 : std::atoi(v.cStr()); }
        static char const* name() { return "coil::String"; }
    };
    struct Pod
    {
        int v;
        double d;
        char tail[9];
        bool operator!=(Pod const& rhs) const { return v != rhs.v || d != rhs.d; }
        bool operator==(Pod const& rhs) const { return !(*this != rhs); }
    };
    template<>
    struct Traits<Pod>
    {
        static constexpr bool copyable = true;
        static constexpr bool tracked = false;
        static Pod make(int v)
        {
            Pod p{v, v * 0.5, {}};
            p.tail[8] = static_cast<char>(v);
            return p;
        }
        static int read(Pod const& p) { return p.d == p.v * 0.5 && p.tail[8] == static_cast<char>(p.v) ? p.v : -7; }
        static char const* name() { return "pod"; }
    };
    template<>
    struct Traits<char>
    {
        static constexpr bool copyable = true;
        static constexpr bool tracked = false;
        static char make(int v) { return static_cast<char>(v % 100); }
        static int read(char v) { return v; }
        static char const* name() { return "char"; }
    };
    // a vector of v % 4 elements with values v
    template<typename T>
    struct Traits<coil::Vector<T>>
    {
        static constexpr bool copyable = Traits<T>::copyable;
        static constexpr bool tracked = false; // counts do not follow from the number of elements
        static coil::Vector<T> make(int v)
        {
            coil::Vector<T> r;
            if (v != 0)
                for (int i = 0; i < 1 + v % 4; i++)
                    r.pushBack(Traits<T>::make(v));
            return r;
        }
        static int read(coil::Vector<T> const& v)
        {
            if (v.empty())
                return 0;
            int value = Traits<T>::read(v[0]);
            for (size_t i = 0; i < v.size(); i++)
                if (Traits<T>::read(v[i]) != value)
                    return -8;
            return static_cast<int>(v.size()) == 1 + value % 4 ? value : -9;
        }
        static char const* name() { return "vector"; }
    };
    template<typename T>
    struct Traits<std::unique_ptr<T>>
    {
        static constexpr bool copyable = false;
        static constexpr bool tracked = false;
        static std::unique_ptr<T> make(int v) { return v == 0 ? nullptr : std::make_unique<T>(Traits<T>::make(v)); }
        static int read(std::unique_ptr<T> const& v) { return v ? Traits<T>::read(*v) : 0; }
        static char const* name() { return "std::unique_ptr"; }
    };
    template<>
    struct Traits<std::shared_ptr<int>>
    {
        static constexpr bool copyable = true;
        static constexpr bool tracked = false;
        static std::shared_ptr<int> make(int v) { return v == 0 ? nullptr : std::make_shared<int>(v); }
        static int read(std::shared_ptr<int> const& v) { return v ? *v : 0; }
        static char const* name() { return "std::shared_ptr"; }
    };
}

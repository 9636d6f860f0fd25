// A catalogue of signatures with their models: functions of every supported kind that record what they receive.
#pragma once

#include "model.h"

#include <memory>
#include <type_traits>

namespace sig
{
    struct Call
    {
        int id;
        std::vector<std::string> args;
        bool operator==(Call const& rhs) const { return id == rhs.id && args == rhs.args; }
    };
    struct Recorder
    {
        std::vector<Call> calls;
        std::vector<std::shared_ptr<void>> objects; // what bound members refer to
    };

    struct Param
    {
        std::string (*name)();
        model::Out (*convert)(cx::Arg const&);
        cx::Arg (*arg)(pbt::Source&, bool);
    };

    enum class Kind
    {
        Lambda,
        ContextLambda,
        FunctionObject,
        Member,
        ConstMember,
        ContextMember,
    };
    constexpr size_t kKinds = 6;

    struct Signature
    {
        std::vector<Param> params;
        coil::AnyFunctor (*make)(Recorder&, int id, Kind);
    };

    template<typename... Ts>
    struct Object
    {
        Recorder* recorder;
        int id;
        void record(Ts const&... vs) const { recorder->calls.push_back({id, {model::Model<model::Decay<Ts>>::repr(vs)...}}); }
        int member(Ts... vs)
        {
            record(vs...);
            return id;
        }
        int constMember(Ts... vs) const noexcept
        {
            record(vs...);
            return id;
        }
        int contextMember(coil::Context, Ts... vs) volatile
        {
            const_cast<Object*>(this)->record(vs...);
            return id;
        }
    };
    template<typename... Ts>
    struct FunctionObject
    {
        Recorder* recorder;
        int id;
        int operator()(Ts... vs) const
        {
            recorder->calls.push_back({id, {model::Model<model::Decay<Ts>>::repr(vs)...}});
            return id;
        }
    };

    template<typename Func>
    coil::AnyFunctor any(Func func)
    {
        auto v = coil::overloaded(coil::move(func));
        return coil::AnyFunctor{coil::move(v[0])};
    }

    template<typename... Ts>
    coil::AnyFunctor make(Recorder& recorder, int id, Kind kind)
    {
        Recorder* r = &recorder;
        auto object = [&] {
            auto o = std::make_shared<Object<Ts...>>(Object<Ts...>{r, id});
            recorder.objects.push_back(o);
            return o.get();
        };
        switch (kind)
        {
        case Kind::Lambda:
        default:
            return any([r, id](Ts... vs) {
                r->calls.push_back({id, {model::Model<model::Decay<Ts>>::repr(vs)...}});
                return id;
            });
        case Kind::ContextLambda:
            return any([r, id](coil::Context context, Ts... vs) mutable {
                r->calls.push_back({id, {model::Model<model::Decay<Ts>>::repr(vs)...}});
                context.log("");
                return id;
            });
        case Kind::FunctionObject:
            return any(FunctionObject<Ts...>{r, id});
        case Kind::Member:
            return coil::bind(&Object<Ts...>::member, object());
        case Kind::ConstMember:
            return coil::bind(&Object<Ts...>::constMember, static_cast<Object<Ts...> const*>(object()));
        case Kind::ContextMember:
            return coil::bind(&Object<Ts...>::contextMember, object());
        }
    }

    // Member functions and function objects with every qualifier a call through an object can have.
#define SIG_QUALIFIERS(X)       \
    X(0, )                      \
    X(1, const)                 \
    X(2, volatile)              \
    X(3, const volatile)        \
    X(4, &)                     \
    X(5, const&)                \
    X(6, volatile&)             \
    X(7, const volatile&)       \
    X(8, noexcept)              \
    X(9, const noexcept)        \
    X(10, volatile noexcept)    \
    X(11, const volatile noexcept) \
    X(12, & noexcept)           \
    X(13, const& noexcept)      \
    X(14, volatile& noexcept)   \
    X(15, const volatile& noexcept)
    constexpr size_t kQualifiers = 16;

    struct Qualified
    {
        Recorder* recorder;
        int id;
        void record(int a, coil::String const& b) const { recorder->calls.push_back({id, {std::to_string(a), cx::str(b)}}); }
#define SIG_MEMBERS(N, QUALIFIERS)                                       \
    int member##N(int a, coil::String const& b) QUALIFIERS               \
    {                                                                    \
        const_cast<Qualified const*>(this)->record(a, b);                \
        return const_cast<Qualified const*>(this)->id;                   \
    }                                                                    \
    int contextMember##N(coil::Context context, int a, coil::String const& b) QUALIFIERS \
    {                                                                    \
        context.log("");                                                 \
        const_cast<Qualified const*>(this)->record(a, b);                \
        return const_cast<Qualified const*>(this)->id;                   \
    }
        SIG_QUALIFIERS(SIG_MEMBERS)
#undef SIG_MEMBERS
    };
    template<size_t N>
    struct QualifiedCall;
#define SIG_CALL(N, QUALIFIERS)                                          \
    template<>                                                           \
    struct QualifiedCall<N>                                              \
    {                                                                    \
        Qualified to;                                                    \
        int operator()(int a, coil::String const& b) QUALIFIERS          \
        {                                                                \
            const_cast<Qualified const&>(to).record(a, b);               \
            return const_cast<Qualified const&>(to).id;                  \
        }                                                                \
    };
    SIG_QUALIFIERS(SIG_CALL)
#undef SIG_CALL

    // 'Kind' selects among the qualifiers of one group
    template<size_t Group>
    coil::AnyFunctor makeQualified(Recorder& recorder, int id, Kind kind)
    {
        auto o = std::make_shared<Qualified>(Qualified{&recorder, id});
        recorder.objects.push_back(o);
        Qualified* object = o.get();
        switch (Group * kKinds + static_cast<size_t>(kind))
        {
        default:
#define SIG_CASES(N, QUALIFIERS)                                         \
    case N:                                                              \
        return coil::bind(&Qualified::member##N, object);                \
    case kQualifiers + N:                                                \
        return coil::bind(&Qualified::contextMember##N, object);         \
    case 2 * kQualifiers + N:                                            \
        return any(QualifiedCall<N>{{&recorder, id}});
            SIG_QUALIFIERS(SIG_CASES)
#undef SIG_CASES
        }
    }
#undef SIG_QUALIFIERS

    template<typename T>
    Param param()
    {
        using M = model::Model<model::Decay<T>>;
        return {&M::name, &M::convert, &M::arg};
    }

    template<typename... Ts>
    Signature signature()
    {
        return {{param<Ts>()...}, &make<Ts...>};
    }

    template<size_t Group>
    Signature qualified()
    {
        return {{param<int>(), param<coil::String const&>()}, &makeQualified<Group>};
    }

    inline std::vector<Signature> const& all()
    {
        using S = coil::String;
        using SV = coil::StringView;
        static std::vector<Signature> const v = {
            signature<>(),
            signature<int>(),
            signature<S const&>(),
            signature<bool>(),
            signature<double>(),
            signature<std::vector<int>>(),
            signature<std::optional<int> const&>(),
            signature<coil::Value const&>(),
            signature<user::Point>(),
            signature<long long>(),
            signature<unsigned char>(),
            signature<std::string_view>(),
            signature<int, int>(),
            signature<S, bool>(),
            signature<std::vector<std::string> const&, user::Color>(),
            signature<coil::Value, unsigned short>(),
            signature<float, std::string&&>(),
            signature<int, int, int>(),
            signature<char, SV, std::optional<double>>(),
            signature<user::Blob const&, unsigned long, bool>(),
            signature<short, S, std::vector<bool>, unsigned>(),
            signature<int, unsigned, long, unsigned long>(),
            signature<long double, std::string const&, user::Point, bool, signed char>(),
            signature<bool, bool, bool, bool, bool>(),
            signature<int, double, S, std::vector<int>, user::Color, std::optional<std::string>>(),
            signature<unsigned long long, S const&, char, int, int, float, bool>(),
            signature<int, int, int, int, int, int, int, int>(),
            signature<S, int, S, int, S, int, S, int, S>(),
            signature<int, int, int, int, int, int, int, int, int, int>(),
            signature<bool, int, bool, int, bool, int, bool, int, bool, int, bool, int>(),
            signature<int, int, int, int, int, int, int, SV, int, int, int, int, int, int>(),
            signature<SV, int, int, int, int, int, int, int, int, int, int, int, int, int, bool>(),
            signature<int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int>(),
            signature<bool, char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long>(),
            signature<std::string, std::string, std::string, int, int, int, S, S, SV, bool, double, user::Point, user::Color>(),
            signature<int, unsigned, short, long, bool, S, SV, std::string, std::string_view, coil::Value const&, std::vector<int>, std::optional<int>, user::Point, user::Color, user::Blob, double>(),
            qualified<0>(), qualified<1>(), qualified<2>(), qualified<3>(), qualified<4>(), qualified<5>(), qualified<6>(), qualified<7>(),
            // parameters passed by const value and by non-const reference types
            signature<int const, S const, bool const>(),
            signature<int&&, S&&, std::vector<int>&&, user::Point&&>(),
            signature<coil::Value, std::string_view const&, double const&>(),
        };
        return v;
    }
}

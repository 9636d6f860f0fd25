#include "grammar.h"
#include "model.h"

namespace
{
    using cx::Arg;

    struct Seen
    {
        unsigned calls = 0;
        std::vector<std::string> reprs;
    };

    // ---- arguments ----

    struct ArgType
    {
        char const* label;
        std::string (*name)();
        model::Out (*convert)(Arg const&);
        Arg (*arg)(pbt::Source&, bool valid);
        // binds "f" taking it by value, by reference, with neighbours
        void (*bind)(coil::Bindings&, Seen&);
        // the converters called directly
        void (*direct)(pbt::Case&, coil::Value const&, model::Out const&);
    };

    template<typename T>
    void bindTo(coil::Bindings& bindings, Seen& seen)
    {
        using M = model::Model<T>;
        Seen* p = &seen;
        bindings["value"] = [p](T v) { p->calls++, p->reprs.push_back(M::repr(v)); };
        bindings["reference"] = [p](T const& v) { p->calls++, p->reprs.push_back(M::repr(v)); };
        bindings["rvalue"] = [p](T&& v) {
            T own(std::move(v));
            p->calls++, p->reprs.push_back(M::repr(own));
        };
        bindings["three"] = [p](T const& a, T b, T const& d) { p->calls++, p->reprs = {M::repr(a), M::repr(b), M::repr(d)}; };
    }

    template<typename T>
    void convertDirectly(pbt::Case& c, coil::Value const& value, model::Out const& out)
    {
        using M = model::Model<T>;
        auto check = [&](coil::Expected<T, coil::String> r, char const* how) {
            if (out.kind == model::Out::Ok)
            {
                c.expect(r.hasValue(), "a valid value is rejected", how);
                if (r)
                    c.expect(M::repr(*r) == out.repr, "converted to something else", std::string{how} + ": " + pbt::show(M::repr(*r)) + " instead of " + pbt::show(out.repr));
            }
            else if (out.kind == model::Out::Error)
            {
                c.expect(!r.hasValue(), "an invalid value is accepted", how);
                if (!r)
                    c.expect(model::sameError(cx::str(r.error()), out), "another message", std::string{how} + ": " + pbt::show(cx::str(r.error())) + " instead of " + pbt::show(out.error));
            }
        };
        check(coil::TypeSerializer<T>::fromString(value), "fromString");
        check(value.get<T>(), "get");
    }

    template<typename T>
    ArgType argType(char const* label)
    {
        using M = model::Model<T>;
        return {label, &M::name, &M::convert, &M::arg, &bindTo<T>, &convertDirectly<T>};
    }

    std::vector<ArgType> const& argTypes()
    {
        static std::vector<ArgType> const v = {
            argType<std::vector<int>>("vector<int>"),
            argType<std::optional<int>>("optional<int>"),
            argType<user::Blob>("Blob"),
            argType<std::vector<std::string>>("vector<string>"),
            argType<std::vector<bool>>("vector<bool>"),
            argType<std::vector<double>>("vector<double>"),
            argType<std::vector<unsigned char>>("vector<uchar>"),
            argType<std::vector<coil::String>>("vector<coil::String>"),
            argType<std::vector<user::Color>>("vector<Color>"),
            argType<std::vector<user::Blob>>("vector<Blob>"),
            argType<std::vector<std::optional<int>>>("vector<optional<int>>"),
            argType<std::vector<std::optional<std::string>>>("vector<optional<string>>"),
            argType<std::vector<std::vector<int>>>("vector<vector<int>>"),
            argType<std::optional<std::vector<int>>>("optional<vector<int>>"),
            argType<std::optional<std::vector<std::optional<long>>>>("optional<vector<optional<long>>>"),
            argType<std::optional<std::string>>("optional<string>"),
            argType<std::optional<bool>>("optional<bool>"),
            argType<std::optional<double>>("optional<double>"),
            argType<std::optional<user::Point>>("optional<Point>"),
            argType<std::optional<user::Blob>>("optional<Blob>"),
            argType<std::optional<std::optional<int>>>("optional<optional<int>>"),
            argType<user::Point>("Point"),
            argType<user::Color>("Color"),
            argType<std::vector<coil::Value>>("vector<coil::Value>"),
            argType<std::optional<coil::Value>>("optional<coil::Value>"),
            argType<std::optional<std::vector<coil::Value>>>("optional<vector<coil::Value>>"),
            argType<std::vector<std::optional<coil::Value>>>("vector<optional<coil::Value>>"),
            argType<std::vector<coil::StringView>>("vector<coil::StringView>"),
            argType<std::vector<std::string_view>>("vector<string_view>"),
            argType<std::optional<coil::StringView>>("optional<coil::StringView>"),
        };
        return v;
    }

    void arguments(pbt::Source& s, pbt::Case& c)
    {
        ArgType const& t = s.pick(argTypes());
        c.label(t.label);
        c.key(t.label);
        auto make = [&] {
            Arg a = s.chance(1, 12) ? model::Model<coil::Value>::arg(s, true) : t.arg(s, !s.chance(2, 5));
            if (s.chance(1, 25))
                a.subvalues.insert(a.subvalues.begin() + static_cast<std::ptrdiff_t>(s.draw(a.subvalues.size() + 1)), gen::text(s, 12));
            if (s.chance(1, 1500) && !a.subvalues.empty())
            {
                size_t const period = a.subvalues.size(), count = gen::bulk(s, 3000, std::string_view{t.label}.substr(0, 7) == "vector<" ? 70000 : 30000, 4);
                while (a.subvalues.size() < count)
                    a.subvalues.push_back(std::string(a.subvalues[a.subvalues.size() - period]));
            }
            return a;
        };
        std::vector<Arg> args;
        bool const three = s.chance(1, 3);
        for (size_t i = 0; i < (three ? 3 : 1); i++)
        {
            args.push_back(make());
            std::string const shown = args.back().subvalues.size() > 1000 ? std::to_string(args.back().subvalues.size()) + " subvalues from " + pbt::show(args.back().subvalues[0], 40) : cx::show(args.back());
            c.note("argument " + shown);
            c.key(shown);
            c.nontrivial(args.back().subvalues.size() != 1);
            c.labelIf(args.back().subvalues.size() > 16, "long list");
            c.labelIf(args.back().subvalues.size() > 1000, "list of 1000+");
        }

        std::vector<model::Out> outs;
        bool anyOpen = false, anyError = false;
        for (auto const& a : args)
        {
            outs.push_back(t.convert(a));
            anyOpen = anyOpen || outs.back().kind == model::Out::Open;
            anyError = anyError || outs.back().kind == model::Out::Error;
        }
        c.label(anyOpen ? "open" : anyError ? "rejected" : "converted");

        for (size_t i = 0; i < args.size(); i++)
        {
            std::vector<gen::ExactText> texts;
            for (auto const& sub : args[i].subvalues)
                texts.emplace_back(sub);
            coil::Vector<coil::StringView> subvalues;
            for (auto const& x : texts)
                subvalues.pushBack(cx::view(x));
            coil::Value const value{coil::move(subvalues)};
            t.direct(c, value, outs[i]);
            c.expect(cx::plain(value) == args[i], "the conversion changed the value");
        }

        Seen seen;
        std::vector<std::vector<std::string>> blobs;
        user::seen() = &blobs;
        struct Reset
        {
            ~Reset() { user::seen() = nullptr; }
        } reset;

        coil::Bindings bindings;
        t.bind(bindings, seen);
        auto judge = [&](coil::ExecutionResult const& r, char const* how) {
            if (anyOpen)
                return;
            cx::Result p = cx::plain(r);
            if (!anyError)
            {
                c.expect(p.errors.empty(), "errors for valid arguments", std::string{how} + ": " + cx::show(p));
                c.expect(seen.calls == 1, "not called exactly once", how);
                bool same = seen.reprs.size() == outs.size();
                for (size_t i = 0; same && i < outs.size(); i++)
                    same = seen.reprs[i] == outs[i].repr;
                if (!same)
                    c.fail(std::string{how} + ": received " + pbt::show(cx::join(seen.reprs, " | ")));
            }
            else
            {
                c.expect(seen.calls == 0, "called in spite of an invalid argument", how);
                std::vector<model::Out> expected;
                for (auto const& o : outs)
                    if (o.kind == model::Out::Error)
                        expected.push_back(o);
                bool same = p.errors.size() == expected.size();
                for (size_t i = 0; same && i < expected.size(); i++)
                    same = model::sameError(p.errors[i], expected[i]);
                if (!same)
                    c.fail(std::string{how} + ": " + cx::show(p) + " instead of " + pbt::show(expected[0].error));
                c.expect(!p.returnValue, "return value in spite of errors", how);
            }
        };

        cx::Input in;
        in.args = args;
        static char const* const names[] = {"value", "reference", "rvalue"};
        in.name = three ? "three" : names[s.draw(3)];
        judge(bindings.execute(cx::input(in)), "execute");
        // a user conversion is given the whole written value
        if (std::string_view{t.label} == "Blob")
        {
            std::vector<std::vector<std::string>> expected;
            for (auto const& a : args)
                expected.push_back(a.subvalues);
            // the order in which arguments are converted is not specified
            std::sort(expected.begin(), expected.end());
            std::sort(blobs.begin(), blobs.end());
            c.expect(blobs == expected, "the user conversion was given something else");
        }

        grammar::Config config;
        std::string text = in.name;
        for (auto const& a : args)
        {
            auto piece = grammar::renderArg(s, a, config);
            if (!piece)
                return;
            text += " " + piece->text;
        }
        c.note("command " + pbt::show(text));
        c.label("as-command");
        seen = {};
        gen::ExactText exact{text};
        judge(bindings.execute(cx::view(exact)), "execute text");
    }

    // ---- returns ----

    template<typename T>
    struct IsVector : std::false_type
    {
    };
    template<typename T>
    struct IsVector<std::vector<T>> : std::true_type
    {
    };

    void judgeReturn(pbt::Case& c, coil::Bindings& bindings, char const* name, std::string const& expected)
    {
        coil::ExecutionResult r = bindings.execute(coil::StringView{name});
        cx::Result p = cx::plain(r);
        c.expect(p.errors.empty() && p.returnValue && *p.returnValue == expected, name, cx::show(p) + " instead of " + pbt::show(expected));
    }

    template<typename T>
    void returns(pbt::Source& s, pbt::Case& c)
    {
        using M = model::Model<T>;
        T v = M::value(s);
        if constexpr (IsVector<T>::value)
            if (s.chance(1, 400) && !v.empty())
            {
                size_t const period = v.size(), count = gen::bulk(s, 2000, 40000, 4);
                while (v.size() < count)
                    v.push_back(typename T::value_type(v[v.size() - period]));
                c.labelIf(v.size() > 1000, "returns 1000+");
            }
        std::string const text = M::text(v);
        c.key(M::name());
        c.key(text);
        c.note("returns " + M::name() + " " + pbt::show(text));
        c.nontrivial(text.size() > 1);
        T* p = &v;
        T const* cp = &v;
        std::string const repr = M::repr(v);
        coil::Bindings b;
        b["value"] = [v]() -> T { return v; };
        b["const-value"] = [v]() -> T const { return v; };
        b["reference"] = [p]() -> T& { return *p; };
        b["const-reference"] = [p]() -> T const& { return *p; };
        b["pointer"] = [p]() -> T* { return p; };
        b["const-pointer"] = [cp]() -> T const* { return cp; };
        b["null"] = []() -> T* { return nullptr; };
        b["const-null"] = []() -> T const* { return nullptr; };
        b["full"] = [v]() -> std::optional<T> { return v; };
        b["empty"] = []() -> std::optional<T> { return {}; };
        b["variable"] = coil::variable(&v);
        judgeReturn(c, b, "value", text);
        judgeReturn(c, b, "const-value", text);
        judgeReturn(c, b, "reference", text);
        judgeReturn(c, b, "const-reference", text);
        judgeReturn(c, b, "pointer", text);
        judgeReturn(c, b, "const-pointer", text);
        judgeReturn(c, b, "null", "null");
        judgeReturn(c, b, "const-null", "null");
        judgeReturn(c, b, "full", text);
        judgeReturn(c, b, "empty", "");
        judgeReturn(c, b, "variable", text);
        c.expect(M::repr(v) == repr, "printing changed the value");

        // pointers within pointers and containers: printed as what they refer to
        std::vector<T*> pointers;
        std::vector<std::string> parts;
        for (size_t n = s.draw(5); n > 0; n--)
        {
            bool null = s.chance(1, 3);
            pointers.push_back(null ? nullptr : p);
            parts.push_back(null ? "null" : text);
        }
        std::string const all = "[" + cx::join(parts, ", ") + "]";
        c.expect(cx::str(coil::TypeSerializer<std::vector<T*>>::toString(pointers)) == all, "vector of pointers");
        c.expect(cx::str(coil::TypeSerializer<T**>::toString(&p)) == text, "pointer to pointer");
        T* none = nullptr;
        c.expect(cx::str(coil::TypeSerializer<T**>::toString(&none)) == "null", "pointer to null");
        c.expect(cx::str(coil::TypeSerializer<std::optional<T const*>>::toString(cp)) == text, "optional pointer");
        c.expect(cx::str(coil::TypeSerializer<std::optional<T const*>>::toString(static_cast<T const*>(nullptr))) == "null", "optional null");
    }

    void textReturns(pbt::Source& s, pbt::Case& c)
    {
        std::string const text = gen::text(s, 400);
        std::string const z = text.substr(0, text.find('\0'));
        c.key(text);
        c.note("returns text " + pbt::show(text));
        c.nontrivial(text.size() > 1);
        char const* cstr = text.c_str();
        std::string_view const view = text;
        coil::StringView const cview = cx::view(text);
        coil::Bindings b;
        b["cstr"] = [cstr] { return cstr; };
        b["cstr-reference"] = [&cstr]() -> char const* const& { return cstr; };
        b["string_view"] = [view] { return view; };
        b["StringView"] = [cview]() -> coil::StringView { return cview; };
        b["empty string_view"] = [] { return std::string_view{}; };
        b["optional"] = [view] { return std::optional<std::string_view>{view}; };
        b["vector"] = [view] { return std::vector<std::string_view>{view, {}, view}; };
        b["null"] = []() -> char const* { return nullptr; };
        b["Value"] = [cview] {
            coil::Vector<coil::StringView> v;
            v.pushBack(cview), v.pushBack({}), v.pushBack(cview);
            return coil::Value{coil::move(v)};
        };
        auto run = [&](char const* name, std::string const& expected) {
            coil::ExecutionInput in;
            in.name = name;
            cx::Result p = cx::plain(b.execute(coil::move(in)));
            c.expect(p.errors.empty() && p.returnValue && *p.returnValue == expected, name, cx::show(p));
        };
        run("cstr", z);
        run("cstr-reference", z);
        run("string_view", text);
        run("StringView", text);
        run("empty string_view", "");
        run("optional", text);
        run("vector", "[" + text + ", , " + text + "]");
        run("null", "null");
        run("Value", text + "  " + text);
    }

    using Return = void (*)(pbt::Source&, pbt::Case&);
    Return const kReturns[] = {
        &returns<std::vector<int>>,
        &returns<int>,
        &returns<std::string>,
        &textReturns,
        &returns<coil::String>,
        &returns<unsigned long long>,
        &returns<user::Point>,
        &returns<user::Blob>,
        &returns<std::vector<std::string>>,
        &returns<std::vector<std::vector<int>>>,
        &returns<std::vector<std::optional<int>>>,
        &returns<std::optional<std::vector<std::string>>>,
        &returns<std::vector<user::Color>>,
        &returns<std::vector<unsigned char>>,
    };
}

PBT_PROPERTY("C15",
             "(a) a type out of 23 (vectors, optionals and nestings of them over integer, float, bool, text and user types, user types) and one or three arguments of 0-300 subvalues, rarely 70000, valid or with invalid elements anywhere, converted directly, through commands and from text: received values, rejections and messages are compared with the model element by element; "
             "(b) a type out of 14 returned by value, reference, pointer, null, optional and in containers: printed text compared with the model; non-trivial: an argument that is not a single text, or a returned text of at least two bytes",
             true)
{
    if (s.chance(1, 4))
    {
        c.label("returns");
        s.pick(kReturns)(s, c);
    }
    else
        arguments(s, c);
}

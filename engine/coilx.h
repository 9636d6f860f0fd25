// What the property files share about the library under test: only its public interface is used.
#pragma once

#include "gen.h"
#include "pbt.h"

#include "coil/Coil.h"
#include "coil/StdLibCompat.h"

#include "coil/detail/DefaultLexer.h"
#include "coil/detail/ExecutionInput.h"
#include "coil/detail/ExecutionResult.h"
#include "coil/detail/Lexer.h"

#include <optional>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace cx
{
    inline std::string str(coil::StringView v)
    {
        return std::string(v.data(), v.length());
    }
    inline std::string str(coil::String const& v)
    {
        return std::string(v.data() ? v.data() : "", v.length());
    }
    inline coil::StringView view(std::string const& s)
    {
        return coil::StringView{s.data(), s.size()};
    }
    inline coil::StringView view(gen::ExactText const& s)
    {
        return coil::StringView{s.data(), s.size()};
    }
    inline coil::String own(std::string const& s)
    {
        return coil::String{s.data(), s.size()};
    }

    // A parsed input as plain data.
    struct Arg
    {
        std::vector<std::string> subvalues;
        bool operator==(Arg const& rhs) const { return subvalues == rhs.subvalues; }
    };
    struct NamedArg
    {
        std::string key;
        Arg value;
        bool operator==(NamedArg const& rhs) const { return key == rhs.key && value == rhs.value; }
    };
    struct Input
    {
        std::string name;
        std::vector<Arg> args;
        std::vector<NamedArg> named;
        bool operator==(Input const& rhs) const { return name == rhs.name && args == rhs.args && named == rhs.named; }
    };

    inline Arg plain(coil::Value const& v)
    {
        Arg a;
        for (size_t i = 0; i < v.subvalues.size(); i++)
            a.subvalues.push_back(str(v.subvalues[i]));
        return a;
    }

    inline Input plain(coil::ExecutionInput const& in)
    {
        Input r;
        r.name = str(in.name);
        for (size_t i = 0; i < in.arguments.size(); i++)
            r.args.push_back(plain(in.arguments[i]));
        for (size_t i = 0; i < in.namedArguments.size(); i++)
            r.named.push_back({str(in.namedArguments[i].key), plain(in.namedArguments[i].value)});
        return r;
    }

    inline std::string show(Arg const& a)
    {
        if (a.subvalues.size() == 1)
            return pbt::show(a.subvalues[0], 60);
        std::string r = "(";
        for (size_t i = 0; i < a.subvalues.size() && i < 20; i++)
            r += (i ? " " : "") + pbt::show(a.subvalues[i], 60);
        if (a.subvalues.size() > 20)
            r += " ...[" + std::to_string(a.subvalues.size()) + "]";
        return r + ")";
    }

    inline std::string show(Input const& in)
    {
        std::string r = pbt::show(in.name, 80);
        for (size_t i = 0; i < in.args.size() && i < 20; i++)
            r += " " + show(in.args[i]);
        if (in.args.size() > 20)
            r += " ...[" + std::to_string(in.args.size()) + "]";
        for (size_t i = 0; i < in.named.size() && i < 20; i++)
            r += " " + pbt::show(in.named[i].key, 60) + "=" + show(in.named[i].value);
        return r;
    }

    // A structured input over texts kept alive by the caller.
    inline coil::Value value(Arg const& a)
    {
        coil::Vector<coil::StringView> subvalues;
        for (auto const& s : a.subvalues)
            subvalues.pushBack(view(s));
        return coil::Value{coil::move(subvalues)};
    }
    inline coil::ExecutionInput input(Input const& in)
    {
        coil::ExecutionInput r;
        r.name = view(in.name);
        for (auto const& a : in.args)
            r.arguments.pushBack(value(a));
        for (auto const& n : in.named)
            r.namedArguments.pushBack(coil::NamedValue{view(n.key), value(n.value)});
        return r;
    }

    // A result as plain data.
    struct Result
    {
        std::vector<std::string> errors;
        std::optional<std::string> returnValue;
        std::string output;
        Input in;
        bool operator==(Result const& rhs) const { return errors == rhs.errors && returnValue == rhs.returnValue && output == rhs.output && in == rhs.in; }
    };

    inline Result plain(coil::ExecutionResult const& r)
    {
        Result p;
        for (size_t i = 0; i < r.errors.size(); i++)
            p.errors.push_back(str(r.errors[i]));
        if (r.returnValue.hasValue())
            p.returnValue = str(*r.returnValue);
        p.output = str(r.output);
        p.in = plain(r.input);
        return p;
    }

    inline std::string show(Result const& r)
    {
        std::string s = "{errors [";
        for (size_t i = 0; i < r.errors.size() && i < 12; i++)
            s += (i ? ", " : "") + pbt::show(r.errors[i], 300);
        s += "]";
        s += r.returnValue ? " returns " + pbt::show(*r.returnValue, 200) : " returns nothing";
        s += " output " + pbt::show(r.output, 200) + " input " + show(r.in) + "}";
        return s;
    }

    inline std::string join(std::vector<std::string> const& parts, char const* separator)
    {
        std::string r;
        for (size_t i = 0; i < parts.size(); i++)
            r += (i ? separator : "") + parts[i];
        return r;
    }

    // "1, 2 or 3"
    inline std::string orList(std::vector<size_t> const& counts)
    {
        std::string r;
        for (size_t i = 0; i < counts.size(); i++)
        {
            if (i > 0)
                r += i + 1 == counts.size() ? " or " : ", ";
            r += std::to_string(counts[i]);
        }
        return r;
    }

    inline std::string conversionError(Arg const& a, std::string const& type, std::string const& details = {})
    {
        std::string r = "Unable to convert '" + join(a.subvalues, " ") + "' to type '" + type + "'";
        if (!details.empty())
            r += ": " + details;
        return r;
    }
    inline std::string countError(Arg const& a, std::string const& type, size_t expected = 1)
    {
        return conversionError(a, type, "Expected " + std::to_string(expected) + " subvalues, got " + std::to_string(a.subvalues.size()));
    }

    // the text a C-string based message shows of a text with an embedded NUL is not specified: compare such messages loosely
    inline bool hasNul(std::string const& s)
    {
        return s.find('\0') != std::string::npos;
    }
    inline bool hasNul(Arg const& a)
    {
        for (auto const& s : a.subvalues)
            if (hasNul(s))
                return true;
        return false;
    }
}

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Kept as a script so that the list is easy to review and edit."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

prop("C01", "Any command text is handled: no crash, hang, over-read or leak",
     "Executing any byte string, of any length and content, on a registry with any bound commands and any delimiter configuration always returns a result: it never crashes, hangs, trips an internal assertion, reads outside the given text or leaks memory. "
     "Every piece of text in the parsed input lies inside the text that was passed in.",
     ["inputs", "configurations"],
     "all byte strings (including NUL and bytes above 127), all delimiter configurations of the default lexer, asserts on and off, exceptions caught or not",
     "The lexer tests run a few dozen hand-written printable strings, NUL-terminated; totality and bounds are claims about every byte string, and an over-read of one byte is invisible without an exact-size buffer and a sanitizer.",
     ["src/DefaultLexer.cpp", "src/Coil.cpp", "src/StringView.cpp", "src/StringConv.cpp", "src/String.cpp"],
     [("tokenizer loop and bounds", "src/DefaultLexer.cpp: DefaultLexer::tokenize, splitGroup"),
      ("parse state machine", "src/DefaultLexer.cpp: DefaultLexer::parse"),
      ("execution entry", "src/Coil.cpp: Bindings::execute")],
     ["Bindings::execute(StringView)", "DefaultLexer::parse"])

prop("C02", "Any command structure written as text parses back to exactly that structure",
     "A command name with any number of positional and named arguments, each written as a bare word, a quoted text, a parenthesised group or a bare list, with any spacing, quote characters and group separators of the configured lexer, parses to exactly that structure. "
     "The name, the order of the arguments, the subvalues of each argument and the keys and values of the named arguments are preserved byte for byte.",
     ["inputs", "configurations"],
     "all structures over arbitrary bytes that the chosen notation can carry; all renderings (spacing, quotes, separators); default and custom delimiter sets",
     "Tests check about 30 fixed strings of one to three arguments; losing, merging or reordering arguments can depend on the number of arguments, neighbouring token kinds, missing spaces between tokens and the bytes inside quotes.",
     ["src/DefaultLexer.cpp", "include/coil/detail/DefaultLexer.h", "include/coil/detail/ExecutionInput.h"],
     [("token classification", "src/DefaultLexer.cpp: DefaultLexer::getCharType, tokenize"),
      ("group splitting", "src/DefaultLexer.cpp: DefaultLexer::splitGroup"),
      ("argument assembly", "src/DefaultLexer.cpp: DefaultLexer::parse(Vector<Token>)")],
     ["DefaultLexer::parse result", "ExecutionResult.input"])

prop("C03", "Malformed text is rejected with its own error and runs nothing; else accepted",
     "A text is rejected as a syntax error exactly when it has an unclosed quote or group, starts with something that is not a plain name, or has an assignment sign with no name before it or no value after it; the one error reported names that problem. "
     "A rejected text runs no command and yields no return value or output; every other text is accepted and means what the documented grammar says.",
     ["inputs", "configurations"],
     "all texts, in particular those one or two edits away from well-formed, under any delimiter configuration",
     "The tests pin six malformed strings; whether an arbitrary malformed string is rejected, and an arbitrary well-formed one accepted, is a claim about the whole input space that needs an independent reference grammar.",
     ["src/DefaultLexer.cpp", "src/Coil.cpp"],
     [("tokenizer errors", "src/DefaultLexer.cpp: DefaultLexer::tokenize"),
      ("parser errors", "src/DefaultLexer.cpp: DefaultLexer::parse(Vector<Token>)"),
      ("early return on syntax error", "src/Coil.cpp: Bindings::execute(StringView)")],
     ["ExecutionResult.errors", "DefaultLexer::parse result"])

prop("C04", "Integer text converts to exactly its value, or is rejected",
     "For every built-in integer type, a decimal integer text whose value is in the type's range converts to exactly that value, and a text that is out of range, negative for an unsigned type, or not entirely a decimal integer is rejected with a conversion error and no function call. "
     "Printing any integer gives its canonical decimal text, which reads back to the same value.",
     ["inputs"],
     "all 11 integer types; all digit strings of any length, signs, leading zeros, boundary values and neighbours, trailing or embedded garbage including NUL",
     "Tests try each type's limits and a handful of values; narrowing, overflow and trailing-garbage mistakes show only at particular magnitudes, widths or positions.",
     ["src/StringConv.cpp", "src/Coil.cpp", "include/coil/detail/TypeSerializer.h"],
     [("strtol family with range checks", "src/StringConv.cpp: signedIntegerFromString, unsignedIntegerFromString, signedAliasFromString, unsignedAliasFromString"),
      ("printf formatting", "src/StringConv.cpp: toString"),
      ("argument conversion", "src/Coil.cpp: arithmeticFromString")],
     ["coil::fromString / coil::toString", "TypeSerializer<T>::fromString / toString", "value received by a bound function", "ExecutionResult.returnValue"])

prop("C05", "Floating-point text converts to the nearest value; printing keeps six digits",
     "For float, double and long double, a decimal text in range converts to the correctly rounded value, and a text that overflows or is not entirely a number is rejected with a conversion error. "
     "Printing gives the %g form (six significant digits, inf and nan spelled), or 0 when the magnitude is below 1e-6, and the printed text of any finite value reads back as the value printed.",
     ["inputs"],
     "all three types; all bit patterns for printing; decimal texts with any number of digits, exponents, signs, and trailing or embedded garbage",
     "Tests try fewer than twenty numbers; double rounding through a narrower or wider type, sign loss and threshold mistakes show on specific bit patterns only.",
     ["src/StringConv.cpp", "src/Coil.cpp"],
     [("strtof/strtod/strtold with full-consumption check", "src/StringConv.cpp: floatFromString"),
      ("formatting with near-zero rule", "src/StringConv.cpp: toString(float/double/long double)")],
     ["coil::fromString / coil::toString", "value received by a bound function", "ExecutionResult.returnValue"])

prop("C06", "Text and boolean arguments arrive exactly as written",
     "A text argument of any supported string type arrives in the function with exactly the bytes and length that were written, whatever the bytes, and a returned text appears unchanged as the return value. "
     "A boolean argument accepts exactly 0, 1, true and false in any letter case with the right truth value and rejects everything else, and any single-valued argument given zero or several subvalues is rejected.",
     ["inputs"],
     "all byte strings including empty, NUL, high bytes and very long ones; all case variants and near misses of the boolean words; any number of subvalues; coil and std string and view types and the raw value type",
     "Tests use short ASCII words; embedded NUL, length limits and near-miss booleans are not sampled.",
     ["src/Coil.cpp", "include/coil/StdLibCompat.h", "include/coil/detail/TypeSerializer.h", "include/coil/detail/Value.h"],
     [("string serializers", "src/Coil.cpp: TypeSerializer<String>, TypeSerializer<StringView>; include/coil/StdLibCompat.h"),
      ("bool serializer", "src/Coil.cpp: TypeSerializer<bool>::fromString"),
      ("subvalue count check", "src/Coil.cpp: errors::createMismatchedSubvaluesError")],
     ["value received by a bound function", "ExecutionResult.returnValue", "ExecutionResult.errors"])

prop("C07", "The registry is a map from names to commands, over any history",
     "After any history of adding, replacing, removing, clearing and moving, looking up or executing a name reaches the command bound last under exactly that name, and a name that was never bound or was removed since is reported as not registered. "
     "Names that differ in any byte are different commands, however many commands there are.",
     ["histories", "inputs"],
     "all histories of add, replace, remove, clear, lookup, execute, move construction and move assignment over any set of names, including names whose hashes collide, empty and non-printable names",
     "Tests add a few commands and remove one; the storage behind the registry only misbehaves after specific sequences of insertions, collisions and removals.",
     ["src/Coil.cpp", "include/coil/detail/Bindings.h", "include/coil/detail/UnorderedMap.h", "src/StringView.cpp"],
     [("command table", "include/coil/detail/UnorderedMap.h: insertOrAssign, erase, find, clear, rehash"),
      ("registry operations", "src/Coil.cpp: Bindings::add, remove, get, clear, BindingProxy")],
     ["Bindings::get", "Bindings::execute", "which bound function ran"])

prop("C08", "Bound functions are kept alive while bound and destroyed exactly once after",
     "The state captured by a bound function stays alive and unchanged for as long as the function is bound, and is destroyed exactly once: by the time its command has been removed, replaced or cleared, or its registry destroyed. "
     "Nothing the registry allocated for a command outlives the registry.",
     ["histories"],
     "all histories of binding (lambdas, overload lists, bound members, variables, properties), replacing, removing, clearing, executing, moving and destroying registries, with functors of any size that count copies, moves and destructions",
     "Tests bind stateless lambdas and never count destructions; double destruction, leaks and use after free need particular histories and instrumented captures.",
     ["include/coil/detail/AnyFunctor.h", "include/coil/detail/FunctionWrapper.h", "include/coil/detail/Vector.h", "include/coil/detail/UnorderedMap.h", "src/Coil.cpp"],
     [("type-erased storage ownership", "include/coil/detail/AnyFunctor.h; src/Coil.cpp: AnyFunctor::AnyFunctor(AnyFunctor&&), destroy"),
      ("wrapper ownership", "include/coil/detail/FunctionWrapper.h: move constructor, typedDestroy"),
      ("element relocation", "include/coil/detail/Vector.h: grow; include/coil/detail/UnorderedMap.h: erase")],
     ["live count of captured objects", "behaviour of the bound function when executed", "allocated bytes after destruction"])

prop("C09", "A call runs the overload matching the argument count, once, or reports why not",
     "Executing a command calls exactly once the first bound overload whose number of parameters equals the number of positional arguments, passing the arguments in order, each converted to its parameter type; if none matches, nothing is called and the one error lists the accepted counts and the given one. "
     "If any argument does not convert, nothing is called and every argument that failed is reported, one error each, in argument order.",
     ["inputs", "programs"],
     "all overload sets over signatures of 0 to 16 parameters of mixed types, with and without a context parameter, free functions, lambdas, function objects and members; all argument lists, convertible or not at any subset of positions",
     "Tests cover up to three parameters and one or two bad arguments; argument permutation or dropped errors depend on the arity and on which positions fail.",
     ["src/Coil.cpp", "include/coil/detail/FunctorCaller.h", "include/coil/detail/FunctionWrapper.h", "include/coil/detail/Overloaded.h", "include/coil/detail/FuncTraits.h"],
     [("overload selection", "src/Coil.cpp: Bindings::execute(CallContext&)"),
      ("argument unpacking and error collection", "include/coil/detail/FunctorCaller.h: unpackAndInvoke, invoke"),
      ("context parameter detection", "include/coil/detail/FunctionWrapper.h: ArgsTraitsImpl")],
     ["calls recorded by the bound functions", "ExecutionResult.errors"])

prop("C10", "A result tells exactly what this execution did, and nothing of other executions",
     "A result holds a return value if and only if the function returned a value and no error was reported; it holds the reported errors and the logged output complete and in order, and mirrors the input it was given. "
     "Running the same input on the same state gives the same result whatever was executed before, and executing a text equals executing its parsed form.",
     ["inputs", "histories"],
     "all command behaviours (any mix of logging, reporting errors, returning or not), all sequences of executions including failing ones, text and structured entry points",
     "Tests look at single executions of fixed commands; leftovers between executions, dropped errors and lost output appear only in sequences and in particular mixes.",
     ["src/Coil.cpp", "include/coil/detail/CallContext.h", "include/coil/detail/Context.h", "include/coil/detail/FunctorCaller.h", "include/coil/detail/ExecutionResult.h"],
     [("result assembly", "src/Coil.cpp: Bindings::execute(ExecutionInput), CallContext"),
      ("return value suppressed on error", "include/coil/detail/FunctorCaller.h: invoke"),
      ("reporting and logging", "src/Coil.cpp: Context::log, logline, reportError")],
     ["ExecutionResult fields"])

prop("C11", "An exception thrown by a command is contained and reported, and breaks nothing",
     "When exceptions are caught, an exception thrown anywhere in a command (argument conversion, body, nested execution, formatting of the result) becomes exactly one error carrying the exception's message, after the errors already reported; output logged before stays, there is no return value, and execution never throws. "
     "When they are not caught, the exception reaches the caller unchanged; either way nothing leaks and the registry keeps working.",
     ["inputs", "histories", "fault_sequences", "configurations"],
     "all throw points and exception kinds (standard with any message, other class, plain value), all preceding logs and errors, nested executions, sequences of throwing and normal executions, both configurations",
     "Tests throw from the body of one function in one configuration; the throw point, what preceded it and what is executed next are not varied, and leaks on unwinding are not observed.",
     ["src/Coil.cpp", "include/coil/detail/Config.h", "include/coil/detail/FunctorCaller.h"],
     [("try/catch around the call", "src/Coil.cpp: Bindings::execute(CallContext&)"),
      ("ownership on unwinding", "include/coil/detail/FunctionWrapper.h, Expected.h, Optional.h, Vector.h destructors")],
     ["ExecutionResult.errors, output, returnValue", "what the caller of execute catches", "allocated bytes"])

prop("C12", "A bound variable reads and writes the real variable, all or nothing",
     "Executing a bound variable with no argument returns its current value; with one valid argument it stores exactly that value in the real variable and returns it; with an invalid argument or a wrong number of arguments it reports an error and leaves the variable untouched. "
     "A variable bound as const is never modified, reports that it is read-only when set, and changes made by the program are always visible.",
     ["inputs", "histories"],
     "all sequences of get, set, invalid set and outside modification on variables of every supported type, mutable and const, several variables and aliases interleaved",
     "Tests set one int or string once; stale values, partial writes and writes through const bindings are claims over sequences and types.",
     ["include/coil/detail/Variable.h", "include/coil/detail/Overloaded.h", "src/Coil.cpp"],
     [("getter/setter pair", "include/coil/detail/Variable.h: variable(T*), variable(T const*)"),
      ("error suppresses return value", "include/coil/detail/FunctorCaller.h: invoke")],
     ["the bound variable itself", "ExecutionResult"])

prop("C13", "Bound properties and member functions act on the object they were bound to",
     "A property read calls its getter once and returns that value; a property write calls its setter once with exactly the converted argument and then its getter once, whose value it returns, and a read-only property reports so and changes nothing. "
     "A member function or property bound to an object runs on that very object with the given arguments, whatever else is bound to the same type or object.",
     ["inputs", "histories"],
     "all sequences of reads, writes, invalid writes and member calls over several objects, getter and setter kinds (lambdas, free functions, member functions with any qualifiers), setters that transform or refuse the value",
     "Tests use one object and one property at a time with a plain setter; mixing up objects, calling the setter twice or echoing the argument instead of reading back shows only with several objects and transforming setters.",
     ["include/coil/detail/Property.h", "include/coil/detail/Bind.h", "include/coil/detail/FunctionWrapper.h", "include/coil/detail/FuncTraits.h"],
     [("property pairs", "include/coil/detail/Property.h: property, bindProperty, simpleInvoke"),
      ("object binding", "include/coil/detail/Bind.h: bind; include/coil/detail/FunctionWrapper.h: typedCall")],
     ["calls recorded by the objects", "object state", "ExecutionResult"])

prop("C14", "Named arguments are found by exact key; defaults and errors follow requiredness",
     "A command sees every named argument in written order with its exact key and value, lookup by key yields the first argument with exactly that key, and the presence of named arguments does not change positional ones. "
     "A missing optional argument gives the default without error, a missing required argument is an error naming the key, and a present argument of the wrong type is an error and gives no value, default or not.",
     ["inputs"],
     "all lists of named arguments (any keys, duplicates, keys that are prefixes of each other, compound values), all lookups, requested types, requiredness and defaults",
     "Tests look up one or two fixed keys; first-duplicate, prefix and mismatch-with-default combinations are sampled at most once.",
     ["include/coil/detail/NamedArgs.h", "src/Coil.cpp", "src/DefaultLexer.cpp"],
     [("lookup and reporting", "include/coil/detail/NamedArgs.h: get, getOrReport; src/Coil.cpp: NamedArgs::find, getOrReport")],
     ["values seen inside the command", "ExecutionResult.errors"])

prop("C15", "Compound, optional, pointer and user-defined types convert element by element",
     "A list argument of any length converts to a container with one converted element per subvalue, in order, or is rejected as a whole if any element is invalid; an optional argument is empty for an empty value and otherwise exactly what the inner type gives for the whole value; user-defined conversions see exactly the written value. "
     "Returned containers, optionals, pointers and references are printed element by element in order, empty optionals as empty text and null pointers as null.",
     ["inputs"],
     "lists of 0 to hundreds of elements over integer, float, bool, string and user types, nested in optionals and containers; invalid elements at any position; all return types built from them",
     "Tests convert two or three lists of three numbers; element order, dropped elements and mishandled extra subvalues depend on the length and on which element is bad.",
     ["include/coil/StdLibCompat.h", "include/coil/detail/TypeSerializer.h", "include/coil/detail/Value.h", "src/Coil.cpp"],
     [("std containers", "include/coil/StdLibCompat.h: TypeSerializer<std::vector<T>>, TypeSerializer<std::optional<T>>"),
      ("pointers", "include/coil/detail/TypeSerializer.h: TypeSerializer<T*>, TypeSerializer<char const*>"),
      ("value text", "src/Coil.cpp: Value::str")],
     ["value received by a bound function", "ExecutionResult.returnValue", "ExecutionResult.errors"])

prop("C16", "Commands may change and use their own registry while they run",
     "A running command may add, replace, remove or clear commands of its own registry, including itself, and may execute other commands or itself recursively, without corrupting memory. "
     "Its own result is complete, each nested execution gives the result it would give at that moment on its own, and afterwards the registry holds exactly what the operations in their order leave.",
     ["histories", "programs"],
     "all scripts of registry operations and nested executions run from inside commands, to any depth, including self-removal, self-replacement and clearing while arguments, output and errors of the outer command are pending",
     "No test touches a registry from inside a command; dangling references to the running command appear only when the table is reallocated or the entry removed mid-call.",
     ["src/Coil.cpp", "include/coil/detail/AnyFunctor.h", "include/coil/detail/FunctionWrapper.h", "include/coil/detail/UnorderedMap.h"],
     [("per-execution context", "src/Coil.cpp: Bindings::execute; include/coil/detail/CallContext.h"),
      ("nothing of the entry used after the call", "src/Coil.cpp: Bindings::execute(CallContext&); include/coil/detail/FunctionWrapper.h: typedCall")],
     ["ExecutionResult of outer and nested executions", "registry contents afterwards", "sanitizer reports"])

prop("C17", "Library strings behave as byte strings under any sequence of operations",
     "Any sequence of building, appending, resizing, reserving, copying, moving, assigning and comparing library strings and views gives the same bytes, length and comparison results as the same operations on plain byte strings, and the text is always NUL-terminated. "
     "Copies are independent of their source, and appending a string or part of a string to itself is safe.",
     ["histories", "inputs"],
     "all operation sequences over a pool of strings and views with any bytes and lengths, including empty, embedded NUL, self-append and growth across capacity boundaries",
     "Tests check each operation once or twice on short words; length bookkeeping and aliasing mistakes need sequences and sizes around reallocation.",
     ["src/String.cpp", "src/Buffer.cpp", "src/StringView.cpp", "include/coil/detail/String.h", "include/coil/detail/StringView.h", "include/coil/StdLibCompat.h"],
     [("string storage", "src/String.cpp: resize, reserve, append; src/Buffer.cpp"),
      ("views and comparison", "src/StringView.cpp")],
     ["String and StringView observers", "sanitizer reports"])

prop("C18", "Library vectors keep their elements intact and destroy each exactly once",
     "Any sequence of appending, removing, resizing, reserving, clearing, copying, moving, assigning and comparing library vectors gives the same contents as the same operations on a reference sequence. "
     "Every element ever constructed is destroyed exactly once, none is used after destruction, copies are independent, and capacity never falls below size.",
     ["histories"],
     "all operation sequences over a pool of vectors of trivially copyable, heap-owning, move-only and nested elements, including self-assignment and inserting an element of the vector itself",
     "Tests exercise each operation on three or four ints; relocation, self-reference and lifetime mistakes need sequences with instrumented elements.",
     ["include/coil/detail/Vector.h", "include/coil/detail/Buffer.h", "src/Buffer.cpp"],
     [("growth and relocation", "include/coil/detail/Vector.h: pushBack, grow, resize"),
      ("construct/destruct bookkeeping", "include/coil/detail/Buffer.h: constructNext, destructLast, swap")],
     ["Vector observers", "construction and destruction counts"])

prop("C19", "The hash map is a map over any history, collisions included",
     "After any history of inserting, assigning, erasing, clearing, copying and moving, looking up any key in the library's hash map gives exactly the value last assigned to it or nothing, the size is the number of distinct keys present, and iteration visits each of them exactly once. "
     "This holds for any initial bucket count and load factor and any distribution of hashes, and every key and value is destroyed exactly once.",
     ["histories", "configurations"],
     "all operation histories over key sets with chosen hash collisions, initial bucket counts from 0 up, load factors below and above 1",
     "Tests insert a few keys and erase one or two; chain repair after erasing in the middle of a bucket is only wrong for particular orders.",
     ["include/coil/detail/UnorderedMap.h", "include/coil/detail/Hash.h", "include/coil/detail/Vector.h"],
     [("chained index lists with swap-with-last removal", "include/coil/detail/UnorderedMap.h: erase, insertNode, rehash")],
     ["find, size, iteration", "construction and destruction counts", "sanitizer reports"])

prop("C20", "Command metadata and type names describe the real signatures",
     "For every bound command the registry reports its name, its overloads in binding order and, for each, the number, order and type names of the positional parameters (not the context) and the return type name, matching the C++ signature in every build configuration. "
     "The metadata stays right while other commands are added, removed and moved, and conversion errors use the same type names.",
     ["programs", "histories", "configurations"],
     "all signatures over the supported parameter and return types including references, const, pointers, containers and user types; the plain and the integer-alias naming configuration; any history of other registrations",
     "Tests compare a few signatures in the plain configuration (they cannot be built with integer aliases), right after binding.",
     ["include/coil/detail/TypeName.h", "include/coil/detail/Types.h", "include/coil/detail/AnyFunctor.h", "include/coil/detail/FunctionWrapper.h", "src/Coil.cpp", "include/coil/StdLibCompat.h"],
     [("names from the signature", "include/coil/detail/Types.h: names; include/coil/detail/FunctionWrapper.h: constructor, ArgsTraitsImpl"),
      ("type names and integer aliases", "src/Coil.cpp: arithmeticName, COIL_CREATE_TYPE_NAME_DEFINITION")],
     ["Bindings::get -> Command.name, functors[i].arity/parameterTypes/returnType", "TypeName<T>::name", "conversion error text"])

prop("C21", "Optionals, expecteds and owning pointers hold one value, destroyed exactly once",
     "After any sequence of constructing, copying, moving, assigning, converting and comparing the library's optional, expected-or-error and owning-pointer types, each holds exactly the value, error or emptiness the operations imply, and comparisons agree with it. "
     "Every held object is destroyed exactly once and never used after destruction, including on self-assignment and when switching between value and error.",
     ["histories"],
     "all operation sequences over pools of optionals, expecteds, unexpecteds and owning pointers with counting, heap-owning and move-only payloads",
     "Tests check each transition once; lifetime errors on particular transitions and payloads are not visible without counting objects over sequences.",
     ["include/coil/detail/Optional.h", "include/coil/detail/Expected.h", "include/coil/detail/Unexpected.h", "include/coil/detail/UniquePtr.h"],
     [("state transitions", "include/coil/detail/Optional.h: operator=, destroy; include/coil/detail/Expected.h: operator=, constructFrom, destruct"),
      ("ownership transfer", "include/coil/detail/UniquePtr.h")],
     ["observers", "construction and destruction counts"])

prop("C22", "A replacement lexer decides the meaning of text, alone and until replaced",
     "Once a lexer is set, every text is handed unchanged to that lexer and executed exactly as the input it returns, or reported as a syntax error with its message; the default grammar plays no part. "
     "The lexer stays with its registry through moves and is destroyed exactly once, when replaced or with the registry.",
     ["programs", "histories", "inputs"],
     "all user lexers (any mapping from text to input or error), default lexers with any delimiter sets, histories of setting lexers, executing and moving registries",
     "Tests set one customised lexer once; leftovers of the previous lexer, altered text and lifetime mistakes need histories.",
     ["src/Coil.cpp", "include/coil/detail/Lexer.h", "include/coil/detail/DefaultLexer.h", "include/coil/detail/UniquePtr.h"],
     [("lexer ownership and use", "src/Coil.cpp: Bindings::setLexer, execute(StringView)")],
     ["text seen by the lexer", "ExecutionResult", "lexer destruction count"])

prop("C23", "Error messages quote the offending name, value, type and counts verbatim",
     "Every error of the library quotes the command name, argument value, type name, key or counts it concerns exactly as they are, whatever their length and whatever printable or format-like characters they contain. "
     "A conversion error quotes all subvalues in order, names the type and, for compound types, includes the reason for the element that failed.",
     ["inputs"],
     "all names, keys and values without NUL bytes, of any length, including percent signs, quotes and control characters; all conversions; unknown commands, wrong counts, missing named arguments",
     "Tests compare messages for short plain words; truncation at internal sizes, format-string injection and swapped fields need long and hostile texts.",
     ["src/Coil.cpp", "include/coil/StdLibCompat.h", "include/coil/detail/TypeSerializer.h"],
     [("message formatting", "src/Coil.cpp: createGenericError, createMismatchedSubvaluesError, Bindings::execute, NamedArgs::get, sprintf, vsprintf")],
     ["ExecutionResult.errors"])

prop("C24", "Logged and formatted output is complete, in order and as printf would print it",
     "Everything a command logs, plain or formatted, as text or as a line, appears in the result's output byte for byte in call order, with one newline after each line and nothing else. "
     "Formatted text equals what C printf produces for the same format and arguments, at any length. Where printf fails, as for a wide character that the locale cannot represent, nothing is added.",
     ["inputs", "histories"],
     "all sequences of log, logline, logf and loglinef with any text (any bytes for plain text) and any mix of supported conversions, flags, widths and precisions; outputs from empty to hundreds of kilobytes",
     "Tests log two or three short strings; truncation at a buffer size and interleaving of the four calls are not varied.",
     ["src/Coil.cpp", "include/coil/detail/Context.h", "include/coil/detail/Utils.h", "src/String.cpp"],
     [("logging", "src/Coil.cpp: Context::log, logline, logf, loglinef"),
      ("two-pass formatting", "src/Coil.cpp: sprintf, vsprintf")],
     ["ExecutionResult.output", "coil::sprintf"])

prop("C25", "Separate registries can be used from separate threads at the same time",
     "Registries that share nothing can be built, executed, changed and destroyed on different threads at the same time: each thread gets exactly the results it would get alone, and there are no data races inside the library.",
     ["schedules", "inputs"],
     "all interleavings of independent workloads over separate registries covering parsing, conversion, dispatch, errors, formatting, metadata and type names",
     "No test uses threads; hidden shared state (static buffers, caches) is invisible to single-threaded tests.",
     ["src/Coil.cpp", "src/DefaultLexer.cpp", "src/StringConv.cpp", "include/coil/StdLibCompat.h"],
     [("no shared mutable state; per-call contexts", "src/Coil.cpp: Bindings::execute, vsprintf"),
      ("thread-safe static type names", "include/coil/StdLibCompat.h: TypeName<std::vector<T>>::name")],
     ["per-thread ExecutionResults compared with a single-threaded run", "thread sanitizer reports"])

prop("C26", "Memory in use does not depend on how often operations are repeated",
     "Repeating the same executions, failing ones included, and the same binding, replacing, removing, looking up, lexer changes and moves on one registry, any number of times and with texts, values and names that never occurred before, does not grow the memory in use. "
     "A registry in a program that runs for days needs no more memory than one that has just gone through its operations once.",
     ["histories", "inputs"],
     "all rounds of operations over a registry with commands of many signatures, repeated any number of times with fresh texts, keys, values and unknown names of the same length",
     "Tests execute a handful of texts and end; caches, tables and buffers that only ever grow are released at the end and seen by no leak checker.",
     ["src/Coil.cpp", "src/DefaultLexer.cpp", "include/coil/detail/Bindings.h", "include/coil/detail/UnorderedMap.h", "include/coil/detail/Vector.h", "include/coil/detail/Lexer.h"],
     [("per-call contexts and results, nothing kept", "src/Coil.cpp: Bindings::execute, Bindings::remove, Bindings::setLexer; src/DefaultLexer.cpp"),
      ("removal frees nodes for reuse", "include/coil/detail/UnorderedMap.h: erase, rehash")],
     ["allocated bytes of the process", "construction and destruction counts"])

prop("C27", "Every supported signature can be bound and called; misuse does not compile",
     "Any function, member function, lambda or function object whose parameters and result are supported types, by value or const reference, with or without a leading context, can be bound in every documented way, from any number of source files, with GCC and Clang, as C++17 or later, with or without RTTI and exceptions; a call passes exactly the given values and prints the result. "
     "What cannot work, such as an unsupported type, a reference to non-const, a member function without its object or a non-const one of a const object, is rejected by the compiler.",
     ["programs"],
     "all programs built from the supported kinds of callables, qualifiers, parameter and result types (own and user-defined, nested) and ways of binding; single-point deviations that must be rejected",
     "Tests instantiate a fixed list of signatures in one translation unit with one compiler; each template is only right for the combinations somebody compiled, and what must not compile cannot be a unit test.",
     ["include/coil/detail/FuncTraits.h", "include/coil/detail/FunctionWrapper.h", "include/coil/detail/FunctorCaller.h", "include/coil/detail/Bind.h", "include/coil/detail/Overloaded.h", "include/coil/detail/Property.h", "include/coil/detail/Variable.h", "include/coil/detail/TypeSerializer.h", "include/coil/StdLibCompat.h"],
     [("signature deduction and qualifiers", "include/coil/detail/FuncTraits.h: FuncTraitsImpl, COIL_MEMBER_FUNCTION_SPECIALIZATION"),
      ("typed call through erased pointers", "include/coil/detail/FunctionWrapper.h: typedCall; include/coil/detail/FunctorCaller.h: invoke"),
      ("rejection", "include/coil/detail/Bind.h: static_assert; include/coil/detail/Overloaded.h: static_assert; include/coil/detail/Bindings.h: static_assert")],
     ["compiler acceptance", "arguments received by generated callables", "ExecutionResult", "Bindings::get metadata"])

prop("C28", "Running out of memory, or a copy that throws, damages nothing",
     "When an allocation fails, or the copy or move constructor of a user-defined type throws, at any point of binding, executing, parsing, replacing the lexer or working with strings, vectors, optionals and expecteds, the exception reaches the caller or, during an execution with exceptions caught, the errors of its result; it is never swallowed and never ends the process. "
     "Nothing leaks or is destroyed twice, a registry, string, vector, optional or expected keeps the state it had before the failed operation (or, for a registry, has the complete new one; a vector whose own elements threw while they were being moved only stays usable), and everything works on afterwards.",
     ["faults", "histories"],
     "all points of failure, once or from there on, of all operations in histories over registries with commands of many signatures, nested executions included, and over the library's strings, vectors, optionals and expecteds",
     "Tests never see an allocation fail; what has to hold between any two steps of an operation can only be seen by stopping it at each of them.",
     ["src/Coil.cpp", "src/String.cpp", "src/Buffer.cpp", "src/DefaultLexer.cpp", "include/coil/detail/Vector.h", "include/coil/detail/Expected.h", "include/coil/detail/Optional.h", "include/coil/detail/UnorderedMap.h", "include/coil/detail/FunctionWrapper.h", "include/coil/detail/AnyFunctor.h"],
     [("exceptions caught around the functors only", "src/Coil.cpp: Bindings::execute"),
      ("allocate first, then change", "src/String.cpp: reserve, append; include/coil/detail/Vector.h: grow, pushBack, operator=; src/Buffer.cpp: operator="),
      ("insertion of a command", "include/coil/detail/UnorderedMap.h: insertOrAssign, rehash"),
      ("ownership while functors are made", "include/coil/detail/FunctionWrapper.h: constructor; include/coil/detail/AnyFunctor.h: constructor; include/coil/detail/Overloaded.h")],
     ["global operator new", "copies of user-defined types", "ExecutionResult", "Bindings::get", "construction and destruction counts"])

prop("C29", "Work grows in proportion to the size of texts, lists, logs and registries",
     "Parsing and executing a text or input, converting or printing a list, logging and reporting errors, and building strings, vectors and maps take work in proportion to their size, never its square: something 16 times as large takes about 16 times the work. "
     "Finding, executing, binding, replacing or removing a command costs about the same however many commands with ordinary names the registry has, and repeating an operation does not make it slower.",
     ["inputs", "histories"],
     "all sizes of texts, argument lists, compound values, logs, errors, return values, strings, vectors, maps and registries, built in one go or piece by piece, with the default load factor and names that nobody chose to collide",
     "A test checks a result and is just as content when it takes a thousand times the work; that work grows with the square of the size shows only when sizes are compared.",
     ["src/Coil.cpp", "src/String.cpp", "src/DefaultLexer.cpp", "include/coil/detail/Vector.h", "include/coil/detail/UnorderedMap.h", "include/coil/detail/Bindings.h", "include/coil/StdLibCompat.h"],
     [("geometric growth", "src/String.cpp: append, reserve; include/coil/detail/Vector.h: pushBack, grow; src/Coil.cpp: Context::logline"),
      ("constant-time lookup", "include/coil/detail/UnorderedMap.h: find, insertOrAssign, erase, rehash"),
      ("hash of the whole name", "src/Coil.cpp or include/coil/detail/UnorderedMap.h: the hash of BasicStringView"),
      ("one pass over the text", "src/DefaultLexer.cpp")],
     ["branches taken in the library's code", "bytes copied, compared, scanned by the C library for it", "bytes allocated"])

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")

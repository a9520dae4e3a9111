#!/usr/bin/env python3
"""Writes properties.jsonl (the statements live here, one call per property)."""
import json, os
OUT = []
I = 'include/coil/detail/'


def P(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    OUT.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                    anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                 state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                                 observe_at=observe, hook_needed=hook)))


P('C01', 'Any command text is executed safely',
  'Executing any sequence of bytes as a command, against any registered commands whose callables are themselves safe, never reads or writes outside the text and the library\'s own memory, never uses uninitialised or freed memory, never performs undefined behaviour, never trips an internal assertion and never aborts. It always terminates with a result (registered command called, or errors), and releases every byte it allocated once the result is gone.',
  ['inputs'], 'every byte string of any length (including NUL and non-ASCII bytes, unbalanced quotes and brackets, huge numbers and format specifiers) against registries with commands of every supported parameter type',
  'LexerTests and BindingsTests run some hundred well-formed NUL-terminated literals without a sanitizer; the space of byte strings and reads past a view\'s end are out of their reach.',
  ['src/DefaultLexer.cpp', 'src/Coil.cpp', 'src/StringConv.cpp', 'src/StringView.cpp', 'src/String.cpp', 'src/Buffer.cpp', I + 'TypeSerializer.h', I + 'FunctorCaller.h'],
  [('bounds checks of the scanning loops', 'coil::DefaultLexer::tokenize, splitGroup'), ('bounded copy before strtoX', 'signedIntegerFromString and siblings, src/StringConv.cpp'), ('two-pass formatting', 'coil::vsprintf, src/Coil.cpp')],
  ['sanitizer and assertion reports', 'allocation ledger', 'ExecutionResult'])

P('C02', 'Command text is parsed by one grammar',
  'For every text and every choice of distinct bracket, quote, separator and space characters, the default lexer yields exactly this structure: tokens are separated by spaces; "=" stands alone; text between two quote characters is one plain token; text between two bracket characters, or a word with a separator character after its first character, is a compound token whose fields are separated by runs of separators and spaces outside quotes and lose their surrounding quotes. The first token (which must be plain) is the name, "a = b" is a named argument, every other token is a positional argument, all in the order of the text. Texts without such a structure are rejected with the message for their first defect (unclosed quote or bracket, compound token at the beginning, "=" without a name or without a value).',
  ['inputs', 'configurations'], 'all texts; all lexers built with pairwise distinct special characters, the default ones included',
  'LexerTests checks about fifty literals with the default characters only; interactions of quotes, groups, separators and assignments form an unbounded space.',
  ['src/DefaultLexer.cpp', I + 'DefaultLexer.h', I + 'ExecutionInput.h', I + 'Value.h'],
  [('tokenizer', 'coil::DefaultLexer::tokenize'), ('argument assembly', 'coil::DefaultLexer::parse(Vector<Token>)'), ('compound values', 'coil::DefaultLexer::splitGroup')],
  ['Expected<ExecutionInput, String> returned by DefaultLexer::parse'])

P('C03', 'Parsing is zero-copy, and results own their text',
  'The name, argument and value texts of a parse result (and of the input reported in an execution result) are views of the very characters of the caller\'s text, at the place where they were written, and parsing does not allocate memory in proportion to the length of a token. Everything else in an execution result (errors, return value, output) stays valid and unchanged after the command text, the bindings and the callables are gone.',
  ['inputs', 'histories'], 'all texts, all token positions and lengths; results inspected after the destruction of text, lexer and bindings',
  'The tests parse string literals, which never go away, and compare contents but not places.',
  ['src/DefaultLexer.cpp', 'src/StringView.cpp', 'src/Coil.cpp', I + 'ExecutionResult.h'],
  [('substr views', 'coil::StringView::substr, used by tokenize and splitGroup'), ('input handed to the result', 'coil::Bindings::execute(ExecutionInput)')],
  ['pointer positions of result views', 'allocation ledger', 'sanitizer reports when results are read late'])

P('C04', 'The registry is an exact name-to-command map',
  'After any history of binding, rebinding, unbinding, clearing and moving, looking up a name finds a command exactly if the last operation on that name bound it, with exactly the overloads of that last binding, and executing the name reaches those callables and no others. Names are arbitrary byte strings, compared exactly, and do not need to outlive the call which bound them.',
  ['histories', 'inputs'], 'all histories of bind, rebind, unbind (of present and absent names), clear, move and lookup operations, over names with equal hashes, common prefixes, empty and binary names, for registries of any size',
  'BindingsTests binds a handful of fixed names; chains of colliding names, growth and removal in between are never combined.',
  ['src/Coil.cpp', I + 'Bindings.h', I + 'UnorderedMap.h', 'src/StringView.cpp'],
  [('hash map with chained nodes', 'coil::UnorderedMap'), ('key view refresh', 'coil::Bindings::add'), ('djb2 hash', 'coil::Hash<coil::StringView>')],
  ['Bindings::get', 'Bindings::execute', 'identity reported by the invoked callable'])

P('C05', 'Bound callables are owned exactly as long as bound',
  'Every callable handed to a registry is kept alive, exactly once, from the moment it is bound until its name is rebound, unbound or cleared or the registry which holds it is destroyed, and is destroyed at that moment; moving a registry hands its callables over without copying or destroying them (those of an assigned-over registry die at the latest with the moved-from one). No callable is invoked after its destruction, destroyed twice or leaked, and objects bound by pointer (methods, variables, properties) are never copied or destroyed; a replaced lexer is destroyed once it is replaced.',
  ['histories'], 'all histories of binding, rebinding, unbinding, clearing, moving, executing and destroying, for copyable, move-only, stateful and overloaded callables',
  'No existing test counts instances; leaks and double destruction of captured state stay invisible without instrumentation.',
  [I + 'FunctionWrapper.h', I + 'AnyFunctor.h', I + 'Overloaded.h', I + 'UniquePtr.h', 'src/Coil.cpp', I + 'UnorderedMap.h'],
  [('type-erased owner', 'coil::detail::FunctionWrapper::m_func / typedDestroy'), ('move-only functor', 'coil::AnyFunctor'), ('lexer owner', 'coil::Bindings::setLexer')],
  ['constructor/destructor ledger of the captured objects', 'allocation ledger'])

P('C06', 'Overloads are chosen by the number of positional arguments',
  'Executing a command invokes the first of its overloads, in the order they were given, that takes as many user parameters as there are positional arguments; the context parameter and named arguments do not count, and no other overload is tried even if a conversion then fails. If none has that many parameters nothing is invoked and the only error is "Wrong number of arguments to \'<name>\': expected <numbers of the overloads in order, joined by commas and a final or>, got <n>".',
  ['inputs', 'programs'], 'all overload sets (any number, repeated and zero arities, with and without context) and all argument counts',
  'The tests sample four overload sets with at most three members.',
  ['src/Coil.cpp', I + 'Overloaded.h', I + 'FunctionWrapper.h', I + 'AnyFunctor.h'],
  [('arity search and error text', 'coil::Bindings::execute(detail::CallContext&)'), ('overload list', 'coil::overloaded')],
  ['identity and arguments recorded by the invoked callable', 'ExecutionResult::errors'])

P('C07', 'Arguments are delivered all or nothing, exactly and in order',
  'For every supported callable (function pointers, lambdas, functors, const and non-const methods bound to an object, with or without a leading context) and parameter types passed by value or reference, the callable is invoked exactly once, with every argument equal to the conversion of the corresponding text in order, if and only if every argument converts. Otherwise it is not invoked at all, and the errors are precisely those of the arguments that do not convert, in argument order; the return value is the textual form of what the callable returned.',
  ['inputs', 'programs'], 'signatures mixing all argument types in all positions, all callable kinds, and argument texts of which any subset does not convert',
  'The tests use few signatures with at most one or two failing arguments; positions and mixtures are not explored.',
  [I + 'FunctorCaller.h', I + 'FunctionWrapper.h', I + 'FuncTraits.h', I + 'Bind.h', I + 'AnyFunctor.h', I + 'Types.h'],
  [('all-or-nothing invocation', 'coil::detail::invoke'), ('index unpacking', 'coil::detail::unpackAndInvoke'), ('typed trampoline', 'coil::detail::FunctionWrapper::typedCall')],
  ['arguments recorded by the callable', 'ExecutionResult'])

P('C08', 'Integer conversion is exact for every type and text',
  'A text converts to an integer type exactly if the whole of it is a decimal number (as for strtol: optional leading white space and sign, no minus sign for unsigned types) whose mathematical value is in the range of the type, and then yields that value; all other texts are rejected, with a message naming the text and the type. The textual form of an integer is its shortest decimal representation, and converting it back gives the same value; neither depends on earlier conversions or on errno.',
  ['inputs'], 'all eleven integer types; all texts, in particular numbers of any length around every range limit, white space, signs, NUL bytes and trailing garbage; all values',
  'StringConvTests samples some values per type; limits combined with sign, spaces, leading zeros and a stale errno are not covered.',
  ['src/StringConv.cpp', 'src/Coil.cpp', I + 'StringConv.h', I + 'TypeSerializer.h'],
  [('range checks', 'signedAliasFromString / unsignedAliasFromString'), ('errno reset and full consumption', 'signedIntegerFromString / unsignedIntegerFromString')],
  ['fromString, toString, TypeSerializer, command arguments and return values'])

P('C09', 'Floating-point conversion is faithful',
  'A text converts to float, double or long double exactly if the whole of it is a C floating-point number whose magnitude does not overflow the type (results below the smallest normal number are left open), and yields the correctly rounded value in the precision of that type. The textual form of a value is "0" if its magnitude is below 1e-6 and its %g form otherwise, and converts back to a value within the precision of that form.',
  ['inputs'], 'all three types; all texts (decimal, exponents, hexadecimal, infinities, NaN, junk); all values including infinities, NaN, subnormals and both zeros',
  'The tests sample a few decimal values.',
  ['src/StringConv.cpp', I + 'StringConv.h', 'src/Coil.cpp'],
  [('strtoX by type and full consumption', 'floatFromString'), ('zero threshold and %g', 'coil::toString(float|double|long double)')],
  ['fromString, toString, TypeSerializer, command arguments and return values'])

P('C10', 'Booleans, strings, values and pointers convert exactly',
  'A single text converts to bool exactly if it is "1", "0", "true" or "false" in any letter case; to a string type always, byte for byte; a raw value parameter receives all fields of the argument unchanged. Types that take one text reject an argument with any other number of fields with "Unable to convert \'<fields joined by spaces>\' to type \'<type>\': Expected 1 subvalues, got <n>"; returned bools, strings and values give back the same text, a null pointer gives "null", and any other pointer the text of what it points to.',
  ['inputs'], 'all byte strings, all letter cases, all field counts, all pointee values',
  'A few literals per type are tested.',
  ['src/Coil.cpp', I + 'TypeSerializer.h', I + 'Value.h'],
  [('bool literals', 'coil::TypeSerializer<bool>::fromString'), ('error texts', 'coil::errors::createGenericError / createMismatchedSubvaluesError'), ('pointer dereference', 'coil::TypeSerializer<T*>')],
  ['TypeSerializer results', 'command arguments and return values'])

P('C11', 'Standard-library types convert element by element',
  'A std::vector parameter receives the conversion of every field in order, or one error for the first field that does not convert; a std::optional is empty exactly for an argument with no text, and otherwise behaves as its element type; std::string and std::string_view receive the text byte for byte. Their textual forms are "[a, b, ...]" of the element forms, the element form or empty text, and the same bytes; the string helper functions and stream operators preserve every byte.',
  ['inputs'], 'all element types and nestings supported, all field counts and contents, default-constructed views included',
  'Some fixed vectors and optionals are tested.',
  ['include/coil/StdLibCompat.h'],
  [('element loops', 'TypeSerializer<std::vector<T>>, TypeSerializer<std::optional<T>>'), ('conversion helpers', 'toStdString, fromStdString, toStdStringView, fromStdStringView')],
  ['TypeSerializer results', 'command arguments and return values'])

P('C12', 'Results are consistent and executions are independent',
  'A result has a return value exactly if the invoked callable completed, returns something, and nothing reported an error; a failing execution (syntax error "Syntax error: ...", "No function name is specified", "No function \'<name>\' is registered", wrong argument count, conversion error) invokes nothing and reports exactly its own errors. Every execution starts from a clean result: repeating a command gives the same result whatever was executed before, and results obtained earlier never change.',
  ['histories', 'inputs'], 'all sequences of executions, successful and failing in every way, on one registry, and all results kept from them',
  'Each test runs one or two commands and looks at each result once.',
  ['src/Coil.cpp', I + 'CallContext.h', I + 'FunctorCaller.h', I + 'ExecutionResult.h'],
  [('one call context per execution', 'coil::Bindings::execute'), ('return value suppressed on errors', 'coil::detail::invoke')],
  ['ExecutionResult of every execution, compared with a model and with later snapshots'])

P('C13', 'Exceptions are reported or propagate, and leave all usable',
  'With exception catching configured, an exception thrown anywhere in a command (argument conversion, callable, return value conversion, setters and getters) never escapes: the result keeps what was logged and reported before and ends with the error "Exception caught during execution: <what>" (or without the text, if it is not a std::exception), and has no return value. Without it the same exception propagates to the caller unchanged. In both cases nothing leaks and the registry and its commands keep working.',
  ['fault_sequences', 'configurations', 'inputs'], 'every throwing site, exception type and message, both configurations, nested executions, and executions following the failure',
  'Two tests throw one std::runtime_error and one int from a lambda.',
  ['src/Coil.cpp', I + 'Config.h', I + 'FunctorCaller.h', I + 'FunctionWrapper.h'],
  [('try block', 'coil::Bindings::execute(detail::CallContext&)'), ('unwinding through Expected, Optional and String', I + 'Expected.h')],
  ['ExecutionResult or the exception seen by the caller', 'allocation and instance ledgers'])

P('C14', 'A failed allocation corrupts and leaks nothing',
  'If any single memory allocation during binding, unbinding, parsing, executing or converting fails with std::bad_alloc, the operation ends with that exception or an error result, nothing leaks and no callable is lost or destroyed twice. Afterwards every name other than the one being bound is bound exactly as before, that name has either its old or its new binding, and everything keeps working.',
  ['fault_sequences', 'histories'], 'every allocation made by each operation of generated histories fails once, in turn',
  'No test makes an allocation fail.',
  ['src/Buffer.cpp', I + 'Vector.h', I + 'UnorderedMap.h', 'src/String.cpp', I + 'AnyFunctor.h', I + 'FunctionWrapper.h', 'src/Coil.cpp'],
  [('allocate before changing', 'coil::Vector::grow, coil::String::reserve'), ('ownership during construction', 'coil::AnyFunctor, coil::detail::FunctionWrapper')],
  ['allocation ledger with fault injection', 'instance ledger', 'registry lookups and executions after the fault'])

P('C15', 'Variables and properties read and write exactly one object',
  'A bound variable or property called without arguments returns the current value of its object, seen at the time of the call; called with one convertible argument it sets exactly that object to exactly that value (through the setter, called once) and returns the value as it then is. If the argument does not convert nothing changes; read-only ones never change, and report "This variable is read-only" or "This property is read-only" for a convertible argument (properties given only a getter function: for any argument).',
  ['histories', 'inputs'], 'all interleavings of direct changes and commands over many variables and properties of all types, with convertible and other arguments',
  'VariableTests and PropertyTests do single sets and gets on int and float.',
  [I + 'Variable.h', I + 'Property.h', I + 'Overloaded.h'],
  [('getter/setter overload pair', 'coil::variable, coil::property, coil::bindProperty')],
  ['the objects themselves', 'ExecutionResult', 'setter call records'])

P('C16', 'Named arguments are found, defaulted and reported exactly',
  'A command sees exactly the named arguments of its text, in order; looking up a key gives the first one with exactly that key, or a missing-key error, or a type-mismatch error carrying the conversion message. The reporting lookup returns the converted value, or the given default if the key is missing and optional, and otherwise returns nothing and adds exactly one error to the result (missing required key: "Missing named argument \'<key>\'"; mismatch: the conversion message, whether required or not); named arguments never affect which overload is called.',
  ['inputs'], 'all combinations of keys (duplicates, empty, near-equal), values and types, lookups in any order and number, required and optional, with and without defaults',
  'NamedArgs tests use up to three keys and int/bool values.',
  ['src/Coil.cpp', I + 'NamedArgs.h', I + 'Context.h'],
  [('linear search by exact key', 'coil::NamedArgs::find'), ('report policy', 'coil::NamedArgs::getOrReport')],
  ['values returned to the command', 'ExecutionResult::errors'])

P('C17', 'Output is the exact concatenation of what was logged',
  'The output of a result is, byte for byte, everything the command logged, in order, with a newline after each line-logging call and nothing else; formatted logging gives exactly what printf would, and text which is not a format (logged text, command names, argument texts, error and exception messages) is never interpreted as one. Errors are exactly those reported, in order.',
  ['inputs', 'histories'], 'all sequences of logging and reporting calls with texts of any length and content, percent signs and embedded NULs included',
  'One test logs two short strings.',
  ['src/Coil.cpp', I + 'Context.h', 'src/String.cpp', I + 'Utils.h'],
  [('appending to the result', 'coil::Context::log, logline, logf, loglinef'), ('two-pass formatting', 'coil::vsprintf')],
  ['ExecutionResult::output and errors'])

P('C18', 'Independent registries can be used from different threads',
  'Threads which each use their own registry, and threads which concurrently use one lexer or read one registry without changing it (lookup, metadata, execution of commands that share no state), never race on library state: every result equals the one obtained single-threaded, for every schedule.',
  ['schedules'], 'all interleavings of threads creating, filling, executing, and destroying their own registries, sharing a lexer, and looking up and executing in an unchanging registry',
  'All tests are single-threaded.',
  ['src/Coil.cpp', 'src/StringConv.cpp', 'src/DefaultLexer.cpp', 'include/coil/StdLibCompat.h', I + 'TypeName.h'],
  [('no mutable global state', 'src/*.cpp'), ('thread-safe lazy type names', 'TypeName<std::vector<T>>::name'), ('thread-local errno', 'src/StringConv.cpp')],
  ['ThreadSanitizer reports', 'comparison with the sequential results'])

P('C19', 'Commands may use the registry they run in',
  'While a command runs it may execute further commands (to any depth), and bind, rebind and unbind commands other than the ones being executed, on the same registry: every execution, inner and outer, gives exactly the result it would give on its own, inner outputs and errors never leak into outer results, and the registry ends up as if the changes had been made one after the other.',
  ['histories'], 'all nestings of executions and registry changes made from inside running commands, including those which make the registry grow or relocate its entries',
  'No test touches the registry from inside a command.',
  ['src/Coil.cpp', I + 'UnorderedMap.h', I + 'FunctorCaller.h'],
  [('heap-allocated callables survive relocation', 'coil::AnyFunctor::m_storage'), ('no access to the entry after the call', 'coil::Bindings::execute(detail::CallContext&)')],
  ['inner and outer ExecutionResults', 'Bindings::get', 'sanitizer reports'])

P('C20', 'Vector and Buffer behave as sequences of live objects',
  'After any sequence of operations a vector holds exactly the elements of the corresponding abstract sequence, in order; every element is constructed once and destroyed once, nothing outside of the elements is read, and copies are independent of their originals. The raw buffer keeps the bytes and sizes put into it and copies independently.',
  ['histories', 'inputs'], 'all operation sequences (push, pop, resize, reserve, clear, copy, move, assign incl. self-assignment, compare) for trivially copyable, string, move-only and instance-counting element types, of any length',
  'VectorTests runs short fixed sequences.',
  [I + 'Vector.h', I + 'Buffer.h', 'src/Buffer.cpp'],
  [('explicit construction and destruction', 'coil::Buffer::constructNext / destructLast'), ('relocation', 'coil::Vector::grow')],
  ['element contents', 'instance ledger', 'sanitizer reports'])

P('C21', 'String and StringView are exact byte strings',
  'After any sequence of operations a string holds exactly the bytes of the corresponding abstract string, including NULs, is always NUL-terminated, and appending a part of a string to itself works; copies are independent. Views, substrings, comparison, concatenation and hashing depend on exactly the bytes in the view and nothing beyond.',
  ['histories', 'inputs'], 'all operation sequences and contents of any length, self-appends and self-assignments included',
  'StringTests uses short literals.',
  ['src/String.cpp', 'src/StringView.cpp', I + 'String.h', I + 'StringView.h', I + 'Hash.h'],
  [('terminator upkeep', 'coil::String::resize'), ('append', 'coil::String::append'), ('length-bounded comparison', 'operator==(StringView, StringView)')],
  ['contents after every operation', 'sanitizer reports'])

P('C22', 'The hash map is an exact map under any history',
  'After any history of insertion, assignment, erasure, clearing, copying and moving, for any hash function consistent with equality (heavily colliding ones included), any initial bucket count and any load factor, the map contains exactly the keys and latest values of the abstract map; lookup finds them all and nothing else, and iteration visits each entry exactly once. Keys and values are each destroyed exactly once.',
  ['histories', 'inputs'], 'all operation histories over keys with constant, clustered and good hashes, and heterogeneous lookup',
  'UnorderedMapTests erases from maps with a few entries; relocation inside colliding chains is not covered.',
  [I + 'UnorderedMap.h'],
  [('index-linked bucket chains', 'coil::UnorderedMap::insertNode / erase'), ('rehash', 'coil::UnorderedMap::rehash')],
  ['find, size, iteration after every operation', 'instance ledger'])

P('C23', 'Optional, Expected and UniquePtr own exactly what they hold',
  'After any history of construction, copy and move construction and assignment between empty, value and error states (self-assignment included), the holder reports exactly the state, value or error it was last given, comparisons agree with that, and each held object is constructed and destroyed exactly once; an owning pointer destroys its object exactly once and never two owners share one. If copying or moving an object throws, nothing is leaked or destroyed twice.',
  ['histories', 'fault_sequences'], 'all state pairs and operation histories, for instance-counting, string and move-only types, with copies that throw at any point',
  'The tests go through single state transitions.',
  [I + 'Optional.h', I + 'Expected.h', I + 'Unexpected.h', I + 'UniquePtr.h'],
  [('manual union lifetime', 'coil::Optional::construct/destroy, coil::Expected::constructFrom/destruct'), ('swap-based ownership transfer', 'coil::UniquePtr')],
  ['state and value after every operation', 'instance ledger', 'sanitizer reports'])

P('C24', 'Behaviour does not depend on the build configuration',
  'The observable results of any sequence of operations (in which no command throws) are the same with internal assertions on or off, with exception catching on or off, at every optimisation level and with every supported compiler, and do not depend on the previous contents of memory. The integer-alias option changes nothing but the names of integer types in messages and metadata.',
  ['configurations', 'inputs'], 'all combinations of the configuration macros, compilers (gcc, clang) and optimisation levels, memory fill patterns; all command sequences',
  'The suite is built in two fixed configurations, both with assertions on, and never compares them.',
  [I + 'Config.h', I + 'Assert.h', 'src/Coil.cpp', 'src/StringConv.cpp'],
  [('assertions without side effects', I + 'Assert.h and its uses'), ('configuration macros', I + 'Config.h'), ('type names', 'arithmeticName, src/Coil.cpp')],
  ['transcripts of identical workloads from differently built programs'])

P('C25', 'Executing text is executing what the lexer parsed',
  'Executing a text gives exactly the result of executing the input which the registry\'s current lexer produces for that text, or the lexer\'s error with "Syntax error: " before it; each execution consults the lexer exactly once with exactly the given text. A prepared input is executed without any lexer and is reported back unchanged in the result, and a custom lexer replaces the default one for all later executions, also after the registry is moved.',
  ['inputs', 'programs', 'histories'], 'all texts, hand-built inputs (any names, values and fields, also ones the default lexer cannot produce), custom and recording lexers, replaced at any time',
  'One test installs one custom lexer.',
  ['src/Coil.cpp', I + 'Lexer.h', I + 'ExecutionInput.h', I + 'Bindings.h'],
  [('lexer delegation', 'coil::Bindings::execute(StringView)'), ('lexer replacement', 'coil::Bindings::setLexer')],
  ['calls recorded by the lexer', 'ExecutionResult'])

P('C26', 'Command metadata describes the bound callables',
  'For every bound command the metadata gives its exact name and, for each overload in the order it was given, the number of user parameters, their type names in order and the name of the return type (references, const and the context parameter removed, pointers by their pointee), and agrees with how the command is dispatched and with the type names in conversion errors. It stays correct while other commands are bound, unbound and executed.',
  ['programs', 'histories'], 'all parameter and return types and orders, overload sets, variables and properties, and registry histories',
  'Two tests read the metadata of fixed functions right after binding.',
  [I + 'AnyFunctor.h', I + 'FunctionWrapper.h', I + 'Types.h', I + 'TypeName.h', 'src/Coil.cpp'],
  [('parameter names', 'coil::Types::names'), ('return type name', 'coil::detail::FunctionWrapper constructor')],
  ['Bindings::get, Command::name, AnyFunctor::arity, parameterTypes, returnType'])

P('C27', 'User-defined types plug in exactly as defined',
  'A user-defined serializer is called exactly once per argument of its type, with exactly the fields of that argument, before the command runs, and exactly once for a returned value of its type; the command receives the very value it produced, and its error message is reported verbatim. The error helpers give "Unable to convert \'<fields>\' to type \'<name>\'" with the details (or "Expected <n> subvalues, got <m>") after a colon; values obtained this way inside containers, variables, properties and named arguments behave the same.',
  ['programs', 'inputs'], 'user types (enums, structs, move-only types, types whose serializer fails) in every position where a built-in type can stand, all field counts and contents',
  'One enum-like type is tested in a few positions.',
  [I + 'TypeSerializer.h', I + 'FunctorCaller.h', I + 'Value.h', 'src/Coil.cpp'],
  [('serializer dispatch', 'coil::detail::unpackAndInvoke'), ('error helpers', 'coil::errors')],
  ['calls recorded by the serializers', 'ExecutionResult'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in OUT:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')

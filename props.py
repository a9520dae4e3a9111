"""What each check builds and runs: flavours (instrumented builds) and the stages per property."""

SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-g1']
# clang 18 at -O1 spoils landing pads of functions with ASan's dynamically placed frame (see DESIGN.md, false alarms)
CSAN = SAN + ["-mllvm", "-asan-stack-dynamic-alloca=0", "-mllvm", "-disable-machine-sink", "-mllvm", "-disable-copyprop"]
A = ['-DCOIL_CONFIG_ENABLE_ASSERTS=1']
X = ['-DCOIL_CONFIG_CATCH_EXCEPTIONS=1']

FLAVOURS = {
    # clang, ASan+UBSan, internal asserts on, exceptions caught
    'asan': dict(cxx='clang++', flags=['-O1'] + CSAN + ['-fsanitize=float-divide-by-zero,implicit-conversion', '-fno-sanitize=implicit-conversion'] + A + X),
    # the user's default configuration (asserts off, exceptions off), gcc, optimised, ASan+UBSan
    # asserts on, exceptions not caught
    'asan0': dict(cxx='clang++', flags=['-O1'] + CSAN + A),
    'rel': dict(cxx='g++', flags=['-O2'] + SAN),
    'relx': dict(cxx='g++', flags=['-O2'] + SAN + X),
    'alias': dict(cxx='g++', flags=['-O1'] + SAN + ['-DCOIL_CONFIG_TYPE_NAME_USE_INTEGER_ALIAS=1']),
    'fuzz': dict(cxx='clang++', flags=['-O1'] + CSAN + A + X, libflags=['-fsanitize=fuzzer-no-link'], harnessflags=['-fsanitize=fuzzer-no-link', '-DVH_FUZZ'], ldflags=['-fsanitize=fuzzer']),
    # uninstrumented, for valgrind
    'plain': dict(cxx='g++', flags=['-O1', '-g', '-DVH_NO_LEDGER'] + X, alarm=300),
    # threads without the race detector (the allocation ledger isn't made for threads)
    'mt': dict(cxx='g++', flags=['-O2', '-DVH_NO_LEDGER', '-pthread'] + SAN + X),
    'tsan': dict(cxx='clang++', flags=['-O1', '-g1', '-fsanitize=thread', '-DVH_NO_LEDGER', '-pthread'] + A + X, alarm=200),
}

PROPS = {}


def prop(pid, source, stages, rule, **kw):
    PROPS[pid] = dict(source=source, stages=stages, rule=rule, **kw)


def std(quick, thorough, rel=True, **kw):
    """the usual pair of builds: sanitizers+asserts, and the default configuration"""
    s = [dict(flavour='asan', quick=quick, thorough=thorough, **kw)]
    if rel:
        s.append(dict(flavour='rel', quick=quick // 2, thorough=thorough // 2, offset=1 << 40, **kw))
    return s


prop('C02', 'c02.cpp',
     std(60000, 1500000) + [dict(kind='fuzz', flavour='fuzz', quick=30000, thorough=1500000, max_len=200, dict='lexer.dict')],
     'Random command texts from a grammar of names, words, quoted strings, compound values, named arguments, stray special characters and mutations, for the default and for random custom character sets, plus coverage-guided byte strings; each parse is compared with an independent reference lexer. Non-trivial: at least two tokens or a rejected text; distinct by text and character sets.',
     must=['accepted', 'rejected', 'positional', 'named', 'compound', 'custom-configs'])

prop('C08', 'c08.cpp',
     [dict(flavour='asan', mode='enum', quick=16, thorough=16, shards=16)] + std(20000, 1500000),
     'Texts around every range limit (with signs, spaces, leading zeros, hundreds of digits, junk, NULs) and values of all 11 integer types, through fromString, the serializers and commands, with stale errno values, against exact mathematical parsing; plus every text of up to 4 characters over a 10-character alphabet, every text of up to two bytes or three ASCII characters and all numbers in -70000..70000. Distinct by type and text or value.',
     must=['accepted', 'rejected', 'round-trips', 'through-commands', 'enumerated'])

prop('C09', 'c09.cpp', [dict(flavour='asan', mode='enum', quick=16, thorough=16, shards=16)] + std(20000, 1500000),
     'Texts in decimal, exponent, hexadecimal, infinity and NaN syntax, mutations of them and junk, every text of up to two bytes or three ASCII characters, and values over the whole range of the three types, through fromString, the serializers and commands, against an independent syntax recogniser and libc rounding. Distinct by type and text or value; results below the smallest normal number are executed but not judged.',
     assumptions=['libc strtof/strtod/strtold round correctly (used as the value oracle)', 'C locale'],
     must=['accepted', 'rejected', 'round-trips', 'through-commands', 'enumerated'])

prop('C01', 'c01.cpp',
     std(30000, 800000) + [dict(kind='fuzz', flavour='fuzz', quick=20000, thorough=1500000, max_len=300, dict='world.dict'),
                           dict(flavour='plain', quick=240, thorough=12000, offset=1 << 41, wrap=['valgrind', '-q', '--error-exitcode=99', '--leak-check=no', '--max-stackframe=8000000'], timeout=800)],
     'Texts aimed at a registry with one command of every supported kind (all argument types, contexts, overloads, variables, properties, nesting, run-time binding, throwing ones): grammar-generated, mutated, raw bytes and coverage-guided, also with random lexer character sets; each executed from an exact-size heap copy; arguments of the C character functions are watched. Distinct by text.',
     must=['executed', 'succeeded', 'reported-errors', 'several-errors', 'with-output', 'custom-lexers'],
     assumptions=['the callables in the registry are themselves safe', 'uninitialised reads are detected by valgrind on the subset executed under it'])

prop('C03', 'c03.cpp', std(15000, 500000),
     'Parses (default and random character sets) and executions against the registry of C01: every view compared by address with the place where the reference lexer finds it; results compared byte for byte after their text (poisoned and freed), registry and callables are gone; bytes allocated while parsing texts which differ only in the length of one token or of the space between fields and tokens (up to 600 kB). Distinct by text.',
     must=['views-checked', 'inputs-checked', 'results-outlived', 'allocation-comparisons', 'parse-errors'])

prop('C04', 'c04.cpp', std(20000, 300000),
     'Random histories (up to 400 steps) of every way to bind, rebind and unbind, clear, and move (construct, assign) up to three registries, over pools of up to 60 names with equal hashes, common prefixes, NUL and other binary bytes, and of up to 2000 names or names of up to 2 MB which differ in one byte, given as short-lived views; after each step lookups and executions are compared with a std::map. Distinct by history prefix.',
     must=['binds', 'rebinds', 'unbinds', 'unbinds-missing', 'clears', 'move-constructions', 'move-assignments', 'lookups-hit', 'lookups-miss', 'executions', 'own-names', 'bulk-names', 'huge-names'])

prop('C05', 'c05.cpp', std(50000, 500000),
     'Random histories of binding (copyable, move-only, non-assignable, large, stateful and trivially copyable functors, capturing lambdas, overload sets, AnyFunctors, methods, variables, properties), rebinding, unbinding, clearing, lexer replacement, registry moves and destruction, and executions; after every step the instance ledger is compared with the model of what is bound. Distinct by history prefix.',
     must=['binds', 'rebinds', 'unbinds', 'clears', 'lexers-replaced', 'move-constructions', 'move-assignments', 'registries-destroyed', 'tracked-calls', 'plain-calls', 'audits'])

prop('C06', 'c06.cpp',
     [dict(flavour='asan', mode='enum', quick=16, thorough=16, shards=16)] + std(20000, 800000),
     'Every sequence of up to three overloads with 0 to 3 parameters (context or not) with every argument count up to 4, and random sets of up to 40 overloads of up to 12 parameters (integers that may fail to convert, texts, raw values; repeated counts; with and without context and return value), executed with up to 13 positional and some named arguments as text and as prepared input. Distinct by overload set and argument count.',
     must=['no-overloads', 'matching', 'wrong-count', 'chosen-fails-to-convert', 'enumerated'])

prop('C07', ('c07.cpp', 'c07_1.cpp', 'c07_2.cpp', 'c07_3.cpp', 'c07_4.cpp', 'c07_5.cpp', 'c07_6.cpp', 'c07_7.cpp', 'c07_8.cpp'), std(20000, 800000),
     '11 signatures of 0 to 8 parameters over all kinds of types, each bound as 15 kinds of callable (lambdas by value, const and rvalue reference, mutable functors, function pointers, noexcept ones, methods and const methods of objects and const objects, std::function, overloads; with and without context), executed with arguments of which each may or may not convert, as text and as prepared input. Distinct by callable kind and command.',
     must=['delivered', 'rejected', 'several-errors'])

prop('C10', 'c10.cpp',
     [dict(flavour='asan', mode='enum', quick=16, thorough=16, shards=16)] + std(20000, 800000),
     'Texts and field lists (any bytes, all letter cases, zero to a hundred fields) converted to bool, both string types and raw values, and other field counts to every type that takes one text, through the serializers, Value::get, positional and named arguments; values returned directly, by reference, by pointer, null pointers and C strings; all letter cases of the bool literals, all texts one byte away from them and all texts of at most two bytes or three ASCII characters. Distinct by type and fields.',
     must=['accepted', 'rejected', 'odd-counts', 'through-commands', 'pointers', 'c-strings', 'values', 'enumerated'])

prop('C11', ('c11.cpp', 'c11_2.cpp', 'c11_3.cpp', 'c11_4.cpp'), std(20000, 800000),
     '16 nestings of std::vector and std::optional over numbers, booleans and strings, and std::string(_view): field lists of 0 to 60 fields of which any may not convert, through the serializers, Value::get, positional and named arguments and return values (also by pointer); the string helpers and stream operators on arbitrary bytes with field widths. Distinct by type and fields.',
     must=['accepted', 'rejected', 'odd-counts', 'through-commands', 'to-text', 'helpers'])

prop('C12', ('c12.cpp', 'model.cpp'), std(40000, 800000),
     'Histories of 4 to 33 executions on one registry of up to 11 generated commands (overload sets over 10 signatures whose scripts log, report and return), by text, by hostile text and by prepared input, a quarter of them repetitions, and of lines which differ in a character or two in one reused buffer; each result, and the recorded calls, compared with an independent model, and all results looked at again at the end. Distinct by history prefix.',
     must=['returned', 'completed', 'reported-errors', 'syntax-errors', 'no-name', 'unknown-name', 'wrong-count', 'conversion-errors', 'repeated', 'looked-at-again', 'lines'])

prop('C17', ('c17.cpp', 'model.cpp'), std(60000, 800000),
     'Commands whose generated scripts log (plain, by line, 13 printf formats with texts, widths, precisions and embedded NULs) and report, up to 200 calls per execution and texts up to some 36 kB, through the context which the command was given and copies of it, with and without a final exception; output and errors compared byte for byte with the model; coil::sprintf/vsprintf compared with the C library; texts full of format specifiers as command names, arguments, keys and exception messages in every error message. Distinct by output and number of errors.',
     must=['outputs', 'outputs-with-NUL', 'several-errors', 'long-outputs', 'messages', 'sprintf', 'encoding-errors'])

prop('C13', ('c13.cpp', 'model.cpp'),
     [dict(flavour=f, quick=15000, thorough=400000, offset=i << 40) for i, f in enumerate(('asan', 'asan0', 'relx', 'rel'))],
     'Both configurations: 46 combinations of a command (callables, overloads, methods, variables, properties, vectors, optionals, named arguments) and the user code which throws (argument conversion, body, return value conversion, getter, setter, method, n-th copy or move of an argument) with ten kinds of exceptions, and histories of generated scripts which log, report, nest and throw; each result or escaping exception compared with the model, then the registry, the same command again and the instance ledger; every allocation within scripts which log and report fails in turn (they give up or go on), and what they had logged and reported before has to be there. Distinct by site, kind and message, or by history step.',
     must=['thrown', 'std-exceptions', 'other-exceptions', 'copies-thrown', 'completed', 'escaped', 'caught', 'not-throwing', 'out-of-memory'])

prop('C14', ('c14.cpp', 'model.cpp'),
     [dict(flavour='asan', quick=6000, thorough=150000), dict(flavour='relx', quick=6000, thorough=150000, offset=1 << 40), dict(flavour='rel', quick=6000, thorough=150000, offset=2 << 40)],
     'Operations of generated histories (nine ways of binding and rebinding, unbinding, clearing, moving and constructing registries of up to 43 commands with colliding names; parsing, executing and converting generated texts): each is repeated with its first, second, ... allocation failing until it runs through; after every fault the bindings of all names, the instance ledger and the result of the same operation are compared with the model. Distinct by operation and index of the failing allocation.',
     level='fault_enumeration',
     must=['faults-bind', 'faults-parse', 'faults-execute', 'faults-convert', 'faults-to-text', 'faults-construct', 'audits', 'bad-allocs', 'error-results'])

prop('C15', ('c15.cpp', 'c15_2.cpp'), std(80000, 1500000),
     'Histories of up to 22 steps over 1 to 6 objects of 11 types, each bound as one of 12 kinds of variable or property (const and not, getters and setters as lambdas, functions and methods, by value and by reference, setters which refuse): direct changes, reads, writes with convertible and other arguments, wrong counts, named arguments, rebinding and registry moves; after every step all objects, their neighbours and the setter call counts are compared with the model. Distinct by kind, value and command.',
     must=['gets', 'sets', 'direct-changes', 'not-convertible', 'read-only', 'wrong-count'])

prop('C16', 'c16.cpp', std(60000, 2000000),
     'Commands with up to 40 named arguments (duplicate, empty, binary and nearly equal keys; values of any type and field count) between positional ones, as text and as prepared input, and scripts of up to 8 lookups (typed and raw, reporting or not, required or optional, with and without default, find, iteration) over 10 types; each lookup and the errors of the result compared with the model. Distinct by command and lookup.',
     must=['as-text', 'as-input', 'duplicate-keys', 'missing-required', 'missing-optional', 'defaulted', 'mismatches', 'converted', 'several-errors', 'wrong-count'])


prop('C20', 'c20.cpp',
     [dict(flavour='asan', mode='enum', quick=16, thorough=16, shards=16)] + std(120000, 2500000),
     'Histories of 10 to 59 operations over up to 5 vectors of 13 element types (numbers, large and empty structs, strings, instance-counting, move-only and nested ones; copies which throw), with lengths up to 400, and over raw buffers; after every operation all contents, ranges, comparisons and the instance ledger are compared with abstract sequences; plus every sequence of 5 out of 12 operations on two vectors of three types. Distinct by contents history.',
     must=['copies', 'self-pushes', 'self-assignments', 'copy-assignments', 'moves', 'resizes', 'copies-thrown', 'equal', 'different', 'instance-audits', 'buffer-copies', 'buffer-moves', 'enumerated'])


prop('C21', 'c21.cpp', std(80000, 2000000) + [dict(flavour='plain', quick=400, thorough=8000, offset=1 << 41, wrap=['valgrind', '-q', '--error-exitcode=99', '--leak-check=no'], timeout=800)],
     'Histories of 10 to 59 operations over up to 5 strings (all ways to construct, append, add, resize, reserve, write, copy, move, assign and compare; arguments from exact-size heap copies and from parts of the same string; any bytes; lengths up to 100 kB), each string compared with an abstract byte string after every operation; views, substrings, comparisons and hashes of exact-size heap copies. Distinct by contents history.',
     must=['appends', 'self-parts', 'self-assignments', 'copy-assignments', 'moves', 'resizes', 'equal', 'different', 'views'])


prop('C22', 'c22.cpp',
     [dict(flavour='asan', mode='enum', quick=16, thorough=16, shards=16)] + std(20000, 600000),
     'Histories of 20 to 99 operations (insertion, assignment, erasure by key, other key type and own key, clear, copy, move, assignment) over up to 3 maps of 7 key and value types with up to 300 keys, 8 families of hash functions (constant, clustered, chosen at random), 9 load factors and initial bucket counts up to 64; after each operation lookups by both key types, iteration, sizes and the instance ledger are compared with std::map; plus all erasure orders of 6 keys for all assignments of 3 hash values. Distinct by contents history.',
     must=['inserted', 'overwritten', 'erased', 'erased-missing', 'cleared', 'copies', 'moves', 'hits', 'misses', 'instance-audits', 'enumerated'])


prop('C23', 'c23.cpp',
     [dict(flavour='asan', mode='probe', quick=2, thorough=2, shards=2), dict(flavour='asan', mode='pairs', quick=1, thorough=1, shards=1)] + std(120000, 3000000),
     'Histories of 10 to 59 constructions, assignments (self-assignment included), moves, changes and comparisons over up to 6 Optionals (5 types), Expecteds (6 pairs of types) and owning pointers (with conversion to the base class), for instance-counting, string and move-only types, copies and moves of which throw; after every operation states, values and the instance ledger are compared with the model; plus every pair of states of Expected with every copy throwing. Distinct by history of states.',
     must=['thrown', 'self-assignments', 'copy-assignments', 'copy-assignments-across', 'moves', 'moves-across', 'emptied', 'taken-out', 'equal', 'different', 'unexpected', 'conversions', 'pointer-moves', 'pairs', 'instance-audits'])


prop('C19', ('c19.cpp', 'model.cpp'),
     [dict(flavour='asan', quick=12000, thorough=400000), dict(flavour='relx', quick=6000, thorough=200000, offset=1 << 40), dict(flavour='rel', quick=6000, thorough=200000, offset=2 << 40)],
     'Generated scripts which, while running, execute further commands (depth up to 6), bind, rebind and unbind others over pools of up to 66 names, also after errors and exceptions; and argument conversions, bodies, getters, setters, named-argument lookups and return value conversions which do up to 300 such operations inside one execution, growing the registry to 400 commands; every inner and outer result and the registry afterwards compared with the model. Distinct by command and result.',
     must=['nested', 'bound-inside', 'rebound-inside', 'unbound-inside', 'executed-inside', 'grown-inside', 'hooked-executions'])


prop('C25', ('c25.cpp', 'model.cpp'), std(40000, 800000),
     'Histories of 4 to 23 executions of texts and of hand-built inputs (names, keys and fields no text can express), with recording lexers replaced at random (also by running commands; random character sets), scripted lexer answers and errors of any bytes, nested executions and registry moves; the calls the lexers saw (by address and length), results, reported inputs and lexer lifetimes compared with the model. Distinct by history prefix.',
     must=['lexers-installed', 'registry-moved', 'replaced-by-command', 'recorded-texts', 'nested-texts', 'text-vs-input', 'lexer-errors', 'scripted-inputs', 'prepared-inputs', 'prepared-inputs-with-errors', 'several-registries', 'registry-move-assigned', 'syntax-errors'])


prop('C26', ('c26.cpp', 'c26_1.cpp', 'c26_2.cpp', 'c26_3.cpp', 'c26_4.cpp'),
     std(12000, 400000) + [dict(flavour='alias', quick=4000, thorough=100000, offset=2 << 40)],
     'Histories of binding, rebinding, unbinding, clearing, moving and executing on up to 61 (colliding, binary) names, of 262 protos: 19 signatures over all kinds of parameter and return types (references, const, pointers, user types) as 10 kinds of callable, and 9 types of variables and properties of 8 kinds, alone and as overload sets of up to 12; the complete metadata compared with independent type names, and with dispatch, errors and results of executions; with and without integer aliases. Distinct by command and callable.',
     must=['bound', 'overload-sets', 'unbound', 'moved', 'commands-checked', 'types-in-errors', 'wrong-count', 'dispatched', 'bound-in-another-thread'])


prop('C27', ('c27.cpp', 'c27_1.cpp', 'c27_2.cpp', 'c27_3.cpp', 'c27_4.cpp'), std(200000, 2500000),
     'Six user types (an enum through a serializer for all enums, a struct, a move-only type, one whose copies differ, two of a templated family) with scripted serializers which record every call and fail in six ways with texts of any bytes: 13 signatures (also inside vectors and optionals, next to built-in types) as 7 kinds of callable, 12 ways of returning, 8 kinds of variables and properties, 5 kinds of named and raw lookups, and the error helpers directly; the exact multiset of calls, the identity of the values and all texts compared with the script. Distinct by command and script.',
     must=['conversions', 'delivered', 'rejected', 'wrong-count', 'returned', 'to-text', 'variables', 'lookups', 'helpers'])


prop('C18', ('c18.cpp', 'model.cpp'),
     [dict(flavour='tsan', mode='first', quick=160, thorough=3200, shards='each'), dict(flavour='tsan', quick=8000, thorough=400000, timeout=3000), dict(flavour='mt', quick=8000, thorough=400000, offset=1 << 40, timeout=3000)],
     '2 to 8 threads with random yields and delays, started together, which use registries of their own (generated scripts, also nested; and the registry of C01 with everything the library offers), one shared lexer, one shared unchanging registry (executions, lookups, metadata), or shared constant values, under ThreadSanitizer and under AddressSanitizer; and, once per process, the first use of 32 composed type names by 8 threads at once. Each result compared with the single-threaded model. Distinct by the order in which the threads took their steps.',
     must=['own-execute', 'own-bind', 'shared-lexer-parse', 'shared-lexer-execute', 'shared-registry-execute', 'shared-registry-lookup', 'shared-values', 'own-world', 'first-uses', 'thread-switches'],
     assumptions=['ThreadSanitizer sees accesses made by instrumented code and intercepted libc functions'])


# C24: the same workload in differently built programs
def _cfg(cxx, *flags, catch=0, asserts=0, alias=0, std=None):
    f = list(flags) + ['-DCOIL_CONFIG_CATCH_EXCEPTIONS=%d' % catch, '-DCOIL_CONFIG_ENABLE_ASSERTS=%d' % asserts, '-DVH_NO_LEDGER']
    if alias:
        f.append('-DCOIL_CONFIG_TYPE_NAME_USE_INTEGER_ALIAS=1')
    if std:
        f.append('-std=' + std)
    return dict(cxx=cxx, flags=f)


CONFIGS = {
    'c24-gcc-O0': _cfg('g++', '-O0'),
    'c24-gcc-O1-a': _cfg('g++', '-O1', '-ftrivial-auto-var-init=pattern', asserts=1),
    'c24-gcc-O2-x': _cfg('g++', '-O2', catch=1),
    'c24-gcc-O3-ax': _cfg('g++', '-O3', '-fno-plt', '-ftrivial-auto-var-init=zero', catch=1, asserts=1),
    'c24-gcc-lto': _cfg('g++', '-O2', '-flto', std='gnu++17'),
    'c24-clang-O0-ax': _cfg('clang++', '-O0', catch=1, asserts=1),
    'c24-clang-O2': _cfg('clang++', '-O2', '-ftrivial-auto-var-init=pattern'),
    'c24-clang-O3-x': _cfg('clang++', '-O3', catch=1),
    'c24-clang-Os-a': _cfg('clang++', '-Os', '-ftrivial-auto-var-init=zero', asserts=1, std='gnu++17'),
    'c24-gcc-Os': _cfg('g++', '-Os', '-fno-exceptions', '-fno-rtti', '-DNDEBUG'),
    'c24-clang-Oz-20': _cfg('clang++', '-Oz', '-DNDEBUG', std='gnu++20'),
    'c24-gcc-alias': _cfg('g++', '-O1', alias=1),
    'c24-clang-alias': _cfg('clang++', '-O2', alias=1, catch=1, asserts=1),
}
FLAVOURS.update(CONFIGS)


def c24(r, b, tier, n):
    import concurrent.futures as cf, os, re
    from run import classify, HarnessError, log, NCPU
    import time
    t = time.time()
    gen = b.start('c24-gcc-O0', 'c24_gen.cpp')
    keys = {f: b.start(f, 'c24.cpp') for f in CONFIGS}
    gen = b.finish(gen)
    exes = {f: b.finish(k) for f, k in keys.items()}
    shards = NCPU * 2
    work = []

    def write(i):
        w = r.tmp('.work')
        rc, out = r.exec([gen, w, str(r.seed), str(n * i // shards), str(n * (i + 1) // shards)], 600)
        if rc != 0 or 'VH-DONE' not in out:
            raise HarnessError('the workload could not be written: ' + out[-500:])
        return w
    with cf.ThreadPoolExecutor(NCPU) as ex:
        work = list(ex.map(write, range(shards)))
    runs = []
    for i in range(shards):
        for j, f in enumerate(CONFIGS):
            fills = [(-1, -1)] if j == 0 else [[(-1, -1), (0, 255), (255, 0), (171, 90)][(i + j) % 4]]
            if j in (0, 6):
                fills += [(0, 0), (255, 255), (1, 128)]
            for heap, stack in fills:
                runs.append((i, f, heap, stack))

    def one(x):
        i, f, heap, stack = x
        o = r.tmp('.tr')
        rc, out = r.exec([exes[f], work[i], o, str(heap), str(stack)], 1200)
        data = open(o, 'rb').read() if os.path.exists(o) else b''
        if os.path.exists(o):
            os.unlink(o)
        return rc, out, data
    with cf.ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(one, runs))
    base = {}
    for x, (rc, out, data) in zip(runs, res):
        if x[1] == 'c24-gcc-O0' and x[2] == -1:
            base[x[0]] = (rc, out, data)

    def text(x, case):
        o = r.tmp('.txt')
        rc, out = r.exec([exes[x[1]], work[x[0]], o, str(x[2]), str(x[3]), str(case)], 120)
        s = open(o, errors='replace').read() if os.path.exists(o) else ''
        return rc, s, out

    bad = []
    for x, (rc, out, data) in zip(runs, res):
        if rc != 0 or 'VH-DONE' not in out:
            k = classify(rc, out) or ('exit:%d' % rc, out[-600:])
            bad.append((x, None, k))
            continue
        m = re.search(r'VH-DONE (\d+) (\d+)', out)
        r.counters['operations'] = r.counters.get('operations', 0) + int(m.group(1))
        r.counters['transcript-lines'] = r.counters.get('transcript-lines', 0) + int(m.group(2))
        r.counters['transcripts'] = r.counters.get('transcripts', 0) + len(data) // 16
        if base[x[0]][0] != 0:
            continue
        want = base[x[0]][2]
        off = 8 if 'alias' in x[1] else 0
        for c in range(len(want) // 16):
            h = want[16 * c + off:16 * c + off + 8]
            if off == 0:
                r.hashes.add(h)
            if data[16 * c + off:16 * c + off + 8] != h:
                bad.append((x, c, None))
                break
        r.evals += len(data) // 16
    r.counters['programs'] = len(CONFIGS)
    for x, c, k in bad[:6]:
        d = dict(flavour=x[1], mode='custom', shard=x[0], case=c, heap_fill=x[2], stack_fill=x[3], n=n, shards=shards)
        if k:
            d['out'] = res[runs.index(x)][1][-6000:]
            r.violations.append(('program:' + k[0], '%s (heap filled with %d, stack with %d): %s' % (x[1], x[2], x[3], k[1]), d))
            continue
        first = (x[0], 'c24-gcc-O0', -1, -1)
        r1, a, o1 = text(first, c)
        r2, z, o2 = text(x, c)
        al, zl = a.split('\n'), z.split('\n')
        at = next((i for i in range(min(len(al), len(zl))) if al[i] != zl[i] and ('alias' not in x[1] or not alias_same(al[i], zl[i]))), min(len(al), len(zl)) - 1)
        d.update(ops=[l for l in o1.split('\n') if l.startswith('OP')][:60], first=al[at][:3000], other=zl[at][:3000])
        r.violations.append(('transcript', '%s (heap filled with %d, stack with %d) against gcc -O0: {%s} instead of {%s}' % (x[1], x[2], x[3], zl[at][:700], al[at][:700]), d))
    if not bad and not r.samples:
        rc, s, o = text((0, 'c24-gcc-O0', -1, -1), 0)
        r.samples += [l[:300] for l in s.split('\n')[:3]]
    r.stages.append(dict(stage='transcripts', flavour='%d programs' % len(CONFIGS), evaluations=r.evals, wall_s=round(time.time() - t, 1)))
    log('%d programs, %d transcripts in %.1fs' % (len(CONFIGS), r.evals, time.time() - t))


def alias_same(a, b):
    import re
    m = {'unsigned char': 'uint8', 'unsigned short': 'uint16', 'unsigned int': 'uint32', 'unsigned long': 'uint64', 'signed char': 'int8', 'short': 'int16', 'int': 'int32', 'long': 'int64'}

    def n(s):
        return re.sub(r'(?<![A-Za-z0-9])(unsigned char|unsigned short|unsigned int|unsigned long long|unsigned long|signed char|long long|long double|short|int|long)(?![A-Za-z0-9])', lambda x: m.get(x.group(1), x.group(1)), s)
    return n(a) == n(b)


prop('C24', 'c24.cpp', [dict(custom=c24, quick=12000, thorough=600000)],
     'A generated workload (scripted commands binding, executing, reporting and logging, also nested and self-modifying; a registry with commands of every kind; parses with random character sets; conversions of all types; formatting; histories of strings, vectors and maps; metadata) executed by the same source built 11 ways: gcc and clang, -O0 to -O3, -Os and link-time optimisation, internal asserts and exception catching on and off, integer aliases, automatic variables initialised with patterns; and with the heap and the stack filled with several patterns. The transcripts of everything observable compared with those of gcc -O0. Distinct by transcript.',
     must=['operations', 'transcripts', 'transcript-lines'],
     assumptions=['the transcripts of the builds with integer aliases are compared after the C names of integer types were replaced by the aliases on both sides'])


# large and long workloads (scale.cpp), next to the small ones
for _p, _n in dict(C01=40, C02=200, C03=200, C04=80, C05=80, C06=160, C07=80, C10=60, C11=60, C12=160, C15=100, C16=200, C17=30, C20=160, C21=80, C22=100, C25=60, C26=60).items():
    PROPS[_p]['stages'].append(dict(flavour='asan', source=('scale.cpp', 'model.cpp'), quick=_n, thorough=_n * 60, offset=7 << 40))
    PROPS[_p]['stages'].append(dict(flavour='rel', source=('scale.cpp', 'model.cpp'), thorough=_n * 60, offset=8 << 40, tiers=('thorough',)))
for _f, _o in (('asan', 7), ('asan0', 8), ('relx', 9), ('rel', 10)):
    PROPS['C13']['stages'].append(dict(flavour=_f, source=('scale.cpp', 'model.cpp'), quick=60, thorough=3600, offset=_o << 40))
for _f, _o in (('asan', 7), ('rel', 8)):
    PROPS['C19']['stages'].append(dict(flavour=_f, source=('scale.cpp', 'model.cpp'), quick=50, thorough=3000, offset=_o << 40))
SCALE = ' And large and long workloads (stages with the larger offsets): sizes and repetition counts around powers of two and round numbers.'
for _p in PROPS.values():
    if any(isinstance(s.get('source'), tuple) and s['source'][0] == 'scale.cpp' for s in _p['stages']):
        _p['rule'] += SCALE

#!/usr/bin/env python3
"""Writes DESIGN.md: the text below, the bounds stated in the harnesses, and the table of planted bugs (run by hand)."""
import json, os, re, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
def head(pid, what):
    out = []
    for f in sorted(os.listdir(V + '/harness')):
        if re.match(pid + r'[a-z_]*\.cpp$', f): out += re.findall(r'^// %s: (.*)$' % what, open(V + '/harness/' + f).read(), re.M)
    return '; '.join(x for x in out if x)
# how each property is specified and decided
HOW = {
'B01': 'Oracle: the bits of both operands as symbolic booleans, combined per index with the short operand zero-extended; compared bit by bit with `&`, `|`, `^`, `~`, the compound and the Perform* forms, with sizes and the clear tail of the last block. Storage is written directly through the public block/bit interface, so every content is one symbolic value.',
'B02': 'Oracle: bit i of the result is bit i-+n of the input or 0. Sizes and shifts are explored exhaustively, contents are symbolic. The long 8-bit sizes are there so that shifts of more than two blocks are reached.',
'B03': 'Oracle: a plain bool array replaying each operation; after every operation the array, the size, Count and the bits past the end of the last block must agree.',
'B04': 'Oracle: the definition of each query on the symbolic bits (no enumeration of contents). Iteration is decided by subsets for small sizes.',
'B05': 'Oracle: the number denoted by the bits, compared most significant first; total-order laws as separate assertions over two and three bitsets.',
'B06': 'Oracle: positional value of the digits / of the integer. Strings are symbolic over {0,1}; other characters must fail the documented assertion.',
'B07': 'Oracle: bit i of the value lands at position size+i; reading uses heap buffers of exactly the addressed bytes, so that any excess read is a memory violation.',
'B08': 'Oracle: bool array after each single-bit or whole-set operation; out-of-range indices must fail the documented assertion and in-range must not.',
'M01': 'Oracle: the mathematical definition by a bit loop on the symbolic value, for every value of every integer type. Three builds: C++17, C++20 and one in which the library believes it is constant-evaluated, so that those code paths are executed symbolically as well.',
'M02': 'Oracle: byte/bit index permutation; involution; buffers of every small size are compared byte by byte.',
'M03': 'Oracle: index-wise definition of set/clear/test/toggle, sign-preserving shift by 128-bit arithmetic, bit pattern equality for BitCast.',
'M04': 'Oracle: least multiple not below the value in wider arithmetic; results which are not representable are outside the property.',
'M05': 'Oracle: 2^r <= x < 2^(r+1) and the like; powers against a loop in wider arithmetic; modulo against its defining identity.',
'M06': 'Oracle: order-theoretic definitions (between bounds, nearest end, no overshoot, symmetric difference within tolerance in wider arithmetic).',
'M08': 'Oracle: the conversion is compared with the product by the exact factor (64-bit fixed point in 128-bit integers) within three units in the last place, or with the closed forms of the conversion; limits and constants against std::numeric_limits and reference values.',
'A01': 'The condition and the message arguments are symbolic and count their evaluations; the run must stop on the library assertion exactly when the condition is false. One unit per configuration of the macros (debug, NDEBUG with NAZARA_ENABLE_ASSERTS, NDEBUG, NAZARA_NO_ASSERT), plus constant evaluation in C++20.',
'A02': 'Each call is made with a symbolic index or argument under `sym_abort_ok(outside its domain)`: the path must end in an assertion failure exactly when the argument is outside, and any access outside the object before that is a memory violation.',
'U03': 'Functors with effects that do not commute, on symbolic arguments; the result is compared with a left fold over the list.',
'M07': 'Oracle: representability in 128-bit / exact floating point comparison; in a checked build the library assertion must fail exactly when the value is not representable (both directions are decided), and the result is the same number. For pointers and references the oracle is the class the object was made with; `dynamic_cast` is executed on the type information of the real classes (single inheritance).',
'H01': 'Oracle: the bitwise definition of CRC-32 (reflected 0xEDB88320) for the short sizes, the table-driven definition beyond; the library table is thereby checked entry by entry. Every overload and hasher object on heap buffers of exact size. xor chains are put in a canonical form by the executor.',
'H02': 'Oracle: the FNV-1a definition for 32 and 64 bits, every overload.',
'H03': 'Oracle: equal content gives equal hashes across string types, hash combination is the documented formula, order matters as documented; libstdc++ byte hashing (out of line) is replaced by an arbitrary function.',
'F01': 'Oracle: a flags object is the set (bit mask) of its enumeration values; every operator against the set operation on the symbolic mask, complement limited to the valid values; std::hash consistency.',
'F02': 'Oracle: iterating visits the members of the symbolic set, lowest first, once; decided step by step from an arbitrary subset, so whole iterations need not be enumerated for wide enumerations.',
'V01': 'Oracle: an array with a count replaying the standard sequence operation. Operations, positions, counts, sizes and aliasing choices are explored exhaustively, contents are symbolic.',
'V02': 'Tracked elements report each use before construction, use after destruction, double destruction, leak; a counter makes the k-th construction or assignment throw, for every k.',
'V03': 'As V01, with both storage kinds and the transitions between them.',
'V04': 'As V02, with both storage kinds.',
'V05': 'As V01 and V02, for the alloca-backed vector.',
'V06': 'As V05, for the alloca-backed array.',
'P01': 'Oracle: the set of live entries with their content: addresses disjoint, aligned, unchanged by other operations; counters exact after every operation of every history.',
'P02': 'Tracked objects: exactly one destruction per constructed object over all histories, moves, resets and a throwing constructor.',
'P03': 'Oracle: the set of live entries against iteration (const or not), RetrieveFromIndex/RetrieveEntryIndex and their inverses, for every occupancy.',
'S01': 'Oracle: an ordered list of live connections; the calls observed during an emission must be this list with the emitted (symbolic) arguments.',
'S02': 'Oracle: a slot connected before the emission and still connected when its turn comes is called once; one that was disconnected is not; a new one is not called twice; nobody is called after disconnection; freed callbacks are memory violations. Decided for every choice of the acting slot and of its actions.',
'S03': 'Oracle: which signal each connection refers to; every history of moves, copies and destructions; a disconnection through a dead handle must have no effect.',
'R01': 'Oracle: (state, value) pair; each accessor on the present and on the absent alternative.',
'R02': 'Oracle: the composed function on the value, or the first error; number of calls.',
'O01': 'Oracle: the held value per object; the lvalue given is compared with its value before.',
'O02': 'Oracle: optional value per operand plus tracked objects; a copy which throws in the heap form leaves the target as it was.',
'O03': 'Oracle: pending callback per object and run counters; functors with a tracked state, throwing functors and functors which use the object that runs them.',
'O04': 'Oracle: the expression evaluated directly, addresses of reference arguments, number of calls.',
'E01': 'Oracle: position arithmetic on symbolic positions; element addresses.',
'E02': 'Oracle: 64-bit address arithmetic on symbolic base, stride and count, required not to overflow; narrower index types included.',
'U01': 'Oracle: byte arrays with explicit length; the C++17 (std::string) and the C++20 (std::u8string) overload sets.',
'U02': 'Oracle: byte addresses, tracked objects, exact storage around the object.',
}
T = '''# Solver-based checking of NazaraUtils

## How a property is decided

`python3 tools/check.py <ID> --tier quick|thorough` does, on every run:

1. **Encode.** `harness/<ID>.cpp` includes the headers of /repo's working tree and is compiled by clang 18 to LLVM bitcode (`-O1
   -disable-llvm-passes`, then only mem2reg and simplifycfg), with traps for signed overflow, shift exponents, division, float-to-integer
   conversion, missing returns and invalid bools. The code executed is therefore the library's own templates, together with the
   inline parts of libstdc++ they use (`std::vector`, `std::string`, `std::variant`, `std::unique_ptr`, ...). Nothing is translated by hand.
2. **Execute symbolically.** `build/nzsym` (sources in `engine/`, about 2000 lines, built by `setup_cmd` and rebuilt when they change)
   interprets every `entry_*` function over bit-vector expressions: byte-precise memory with objects, lifetimes and
   uninitialised bytes, heap and stack allocations at distinct addresses, exceptions (invoke/landingpad/rethrow/cleanup), virtual calls, `dynamic_cast`,
   IEEE floating point by Z3's FPA theory. Every branch on a symbolic condition is decided by Z3 (quick attempt, then bit-blasting
   with a longer limit, then cvc5 / z3-new); both sides are followed when both are satisfiable. All paths are run to their end: discrete
   choices (`sym::pick`) each get their own paths, everything else stays symbolic. When an entry exceeds 60 000 paths (or 120 s and 1000 paths) it
   is started again with state merging: states which meet at the join of a branch and differ only in values are merged into one with
   if-then-else values. This keeps rewrites of the code which add branches (a byte loop instead of a word operation) within reach.
3. **Decide.** Each `CHECK` asks for a model of (path condition and not the assertion). Memory errors (out of bounds, use after free,
   double free, mismatched or missing deallocation, uninitialised reads that decide something), the traps above, unexpected library assertion
   failures and leaks at the end of a path are violations too. `sym_abort_ok` marks the calls which must fail a documented assertion.
4. **Confirm.** Every counterexample is replayed natively: the same harness, compiled by clang++ (then g++) with ASan and UBSan against the same headers, is fed
   the inputs of the model. Only what reproduces is reported; the rest is printed as NOT-REPRODUCED. Sampled completed paths
   are replayed as well and their observations (`sym_note`) compared with the executor's predictions, which validates the executor
   on each run (any native failure there is reported too). Sampled queries are decided again by cvc5.
5. **Report.** `evidence/<ID>.json`: functions encoded, entries, paths, assertions, queries by answer, solver time, bounds, assumptions,
   what was incomplete. An entry without assertion or path is an error (vacuity).

Exit 0: nothing violated on everything explored; an entry which hit its limit is listed as INCOMPLETE and is not counted as explored. Exit 1: VIOLATION
lines. Exit 2: no verdict (the harness itself does not compile, the executor fails).

One more kind of report: when the compiler rejects a harness with an error *outside* the harness (in the library's headers, or in a standard header
instantiated by them), a use that the property covers has become ill-formed and there is no code left to execute. This is
reported as a violation of kind `ill-formed`; harnesses that are prone to it are split in variants so that the solver still decides the rest.

Quick and thorough tiers differ by the constants `BOUND(quick, thorough)`, by entries named `entry_T_*` and by variants marked `thorough`. The
quick tier of a property takes 3 s to 2 min on 8 cores (limit 900 s; at most 300 s per entry and 600 s in all, what is left over is reported as INCOMPLETE); the thorough tier has a budget of 6 h and takes minutes to hours.

**Trusted:** clang's lowering of the headers (unoptimised), `nzsym`, Z3 (sampled cross-check), the oracles of the harnesses. Allocation always succeeds.
Only x86-64 Linux, libstdc++ 13, little endian. Nothing is claimed beyond the stated bounds: the symbolic values are exhaustive, the structural
parameters (sizes, counts, history lengths) are bounded. No hook is needed in /repo.

Why this reaches what the tests cannot: the tests run a few fixed contents and histories; here each path covers every content at once, and the paths cover every combination
of the structural parameters within the bound, memory and lifetime errors included.

## Properties

'''
out = [T]
for p in props:
    i = p['id']
    if i in ('T01', 'T02'): continue
    out.append('### %s — %s\n\n%s\n\n*Bounds:* %s.%s\n\n' % (i, p['title'], HOW[i], head(i, 'BOUNDS'), (' *Assumes:* %s.' % head(i, 'ASSUMES')) if head(i, 'ASSUMES') else ''))
out.append(open(V + '/tools/design_tail.md').read())
rows = ['| planted bug | property | needs | caught by |\n|---|---|---|---|\n']
caught = json.load(open(V + '/tools/caught.json')) if os.path.exists(V + '/tools/caught.json') else {}
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % d)); rows.append('| %s | %s | %s | %s |\n' % (d, m['property'], m['needs'].replace('|', '/'), caught.get(d, 'not recorded')))
out += rows
open(V + '/DESIGN.md', 'w').write(''.join(out))

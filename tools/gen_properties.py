#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script so that statements stay reviewable).
import json, os
I = "include/NazaraUtils/"
P = []
def prop(id, title, statement, over, quant, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=[I+f for f in files], mechanism=[dict(name=n, where=I+w) for n, w in mech])))

# ---------------------------------------------------------------- Bitset
prop("B01", "Bitset logic operators compute the bitwise set operation on every size pair",
 "For any two bitsets, of equal or different sizes, AND, OR and XOR (in-place, value-returning and Performs* forms, including a destination that is also an operand) give a bitset of the larger size whose every bit is that operation applied to the operands' bits, a bit beyond an operand's size counting as 0. NOT gives a bitset of the same size with exactly the in-range bits inverted, and Intersects is true exactly when some index is set in both.",
 ["inputs"], "all bit contents and all sizes of both operands, across block boundaries, for every block type",
 "Tests use a few literal bit strings; the shorter-operand, partial-last-block and aliasing cases interact with the contents and cannot be enumerated by examples.",
 ["Bitset.hpp", "Bitset.inl"], [("bitwise kernels", "Bitset.inl"), ("extra-bit masking", "Bitset.inl")])
prop("B02", "Bitset shifts move every bit by exactly the shift amount and drop the rest",
 "Shifting a bitset left (right) by any amount keeps its size; bit i of the result is bit i-n (i+n) of the original when that index is in range and 0 otherwise. The in-place and value-returning forms agree, a shift by the size or more clears everything, and the operand of a value-returning shift is unchanged.",
 ["inputs"], "all contents, sizes and shift amounts, including multiples of the block size, 0 and amounts at or beyond the size",
 "Tests shift a handful of literals; errors live at block-boundary/shift-amount/partial-block combinations.",
 ["Bitset.inl"], [("ShiftLeft/ShiftRight", "Bitset.inl")])
prop("B03", "Bitset resizing keeps surviving bits, fills new ones, and never leaks stale bits",
 "Resize keeps every bit below both sizes and gives each new bit the requested default; Clear empties, and GetSize, GetBlockCount and GetCapacity stay consistent with the size. After any sequence of mutating operations no bit outside the current size can influence anything observable: counting, searching, comparing, block access and growing again all depend only on the in-range bits.",
 ["inputs", "histories"], "all contents, sizes and sequences of mutating operations",
 "Stale-bit bugs need a shrink (or flip/negate/set-block) followed later by a grow or whole-block query, a history tests do not sample.",
 ["Bitset.inl"], [("Resize and extra-bit reset", "Bitset.inl"), ("last block mask", "Bitset.inl")])
prop("B04", "Bitset queries agree with the bits: count, search, iteration, all/any/none",
 "Count is the number of set bits; FindFirst and FindNext return the smallest set index (strictly greater than the given one) or npos when there is none; iterating the bits, with either increment form, visits exactly the set indices in increasing order once each. TestAll, TestAny and TestNone say whether all, some or no in-range bits are set.",
 ["inputs"], "all contents and sizes, every start index, for every block type",
 "The interesting inputs are sparse bits around block boundaries and full partial blocks; tests check a few literals.",
 ["Bitset.inl"], [("FindFirst/FindNext/FindFirstFrom", "Bitset.inl"), ("BitIterator", "Bitset.inl"), ("Count/TestAll", "Bitset.inl")])
prop("B05", "Bitset comparison is the numeric order of the bits and is a total order",
 "Two bitsets are equal exactly when every bit agrees, missing high bits counting as 0; one is less than another exactly when the number it denotes (bit i worth 2^i) is smaller. Consequently <, <=, >, >=, == and != are mutually consistent, transitive and trichotomous for all operands, whatever their sizes and block counts.",
 ["inputs"], "all pairs of contents and sizes, including different block counts",
 "Ordering laws are universally quantified over pairs; tests compare a few single-block values.",
 ["Bitset.inl"], [("operator==", "Bitset.inl"), ("operator<", "Bitset.inl")])
prop("B06", "Bitset string and integer conversions are exact and round-trip",
 "Building a bitset from a string of 0/1 characters gives one bit per character, the last character being bit 0, ToString writes that string back, and every constructor and assignment accepting strings agrees. Building from an unsigned integer makes every bit at an index the bitset has equal to that bit of the integer without losing a set bit, and To<T> returns the number the bits denote whenever it fits T.",
 ["inputs"], "all strings up to the bound, all integer values of each width, for every block type",
 "Errors hide in block/integer width mismatches and high bits; tests use a few constants.",
 ["Bitset.inl"], [("string constructors", "Bitset.inl"), ("integer constructor and To", "Bitset.inl"), ("ToString", "Bitset.inl")])
prop("B07", "Bitset bit-stream functions append and read back exactly the requested bits",
 "AppendBits grows the bitset by exactly the requested count, leaves earlier bits alone and appends the low bits of the value in order. Write and FromPointer take exactly the requested number of bits from memory, starting at the given bit offset with the least significant bit of each byte first, touch no memory beyond those bits, and return the position following the last consumed bit so that consecutive calls read a contiguous stream.",
 ["inputs", "histories"], "all contents, start sizes, bit counts and bit offsets within the bound, for every block type",
 "Every alignment of source offset, destination size and count is its own case; tests exercise a few.",
 ["Bitset.inl"], [("AppendBits", "Bitset.inl"), ("Write/FromPointer", "Bitset.inl")])
prop("B08", "Bitset single-bit and whole-set mutators change exactly the bits they name",
 "Set, Reset, the bit proxy (set, reset, flip, assignment and compound operators), SetBlock and the unbounded variants change only the addressed bit or block; unbounded setting of a true bit grows just enough, unbounded reset and test never grow and read absent bits as 0. Whole-set Set, Reset, Flip, Reverse, Swap, copy and move act on every in-range bit (Reverse exchanges bits i and size-1-i) and on nothing else.",
 ["inputs", "histories"], "all contents, sizes, indices and values, for every block type",
 "Off-by-one-block and mask mistakes only show for particular index/size/content combinations.",
 ["Bitset.hpp", "Bitset.inl"], [("Bit proxy", "Bitset.inl"), ("Reverse/Flip/Set", "Bitset.inl"), ("Unbounded*", "Bitset.inl")])

# ---------------------------------------------------------------- Math
prop("M01", "Bit counting and bit search are right for every value of every integer type",
 "CountBits returns the number of one bits in the value's own width; FindFirstBit and FindLastBit return the 1-based position of the lowest and highest one bit, and 0 for zero. This holds for signed and unsigned types of 8 to 64 bits, negative values included, and constant evaluation gives the same answer as run time.",
 ["inputs"], "every value of every integer type",
 "64-bit value spaces cannot be sampled exhaustively and the two evaluation paths are separate code.",
 ["MathUtils.inl"], [("CountBits/FindFirstBit/FindLastBit", "MathUtils.inl")])
prop("M02", "Byte swapping, bit reversal and endian conversions are exact involutions",
 "ByteSwap (integers and floats) and SwapBytes on a buffer of any size reverse the order of the bytes, ReverseBits reverses the order of the bits, and applying any of them twice restores the input. Host/big/little endian conversions give the byte layout they name, and converting to and from either byte order is the identity.",
 ["inputs"], "every value of every arithmetic type up to 64 bits, every buffer content and size up to the bound, both at run time and constant evaluation",
 "A wrong lane shows only for values that distinguish that lane; tests use a few constants.",
 ["MathUtils.inl", "Endianness.inl"], [("ByteSwap/ReverseBits/SwapBytes", "MathUtils.inl"), ("endian conversions", "Endianness.inl")])
prop("M03", "Single-bit helpers touch exactly one bit; arithmetic shift keeps the sign",
 "SetBit, ClearBit and ToggleBit change only the bit whose index is given and TestBit reads it, for every index of the type; ArithmeticRightShift equals floor division by the power of two. BitCast and the pointer/integer conversions preserve every bit and round-trip.",
 ["inputs"], "every value and every valid bit index or shift of every integer type",
 "High indices (31, 32, 63) of wide types combined with arbitrary values are not all sampled.",
 ["MathUtils.inl", "Algorithm.inl"], [("SetBit/ClearBit/TestBit/ToggleBit", "MathUtils.inl"), ("ArithmeticRightShift", "MathUtils.inl"), ("BitCast", "Algorithm.inl")])
prop("M04", "Alignment and power-of-two rounding return the nearest valid value",
 "Align and AlignPow2 return the smallest multiple of the alignment that is not below the offset; RoundToPow2 and GetNearestPowerOfTwo return the smallest power of two not below the value (1 for zero where defined), and IsPow2 is true exactly for powers of two. All hold whenever the result is representable in the type.",
 ["inputs"], "every value and alignment of every integer type whose result is representable",
 "Rounding mistakes at exact multiples, at one past a power of two and in the high half of a type need specific values.",
 ["MathUtils.inl"], [("Align/AlignPow2", "MathUtils.inl"), ("RoundToPow2/GetNearestPowerOfTwo/IsPow2", "MathUtils.inl")])
prop("M05", "Integer logarithm, power and modulo are mathematically exact",
 "IntegralLog2 of a positive integer is the floor of its base-2 logarithm for every width (0 for zero), IntegralLog2Pot inverts every power of two, IntegralPow is the exact product whenever it fits, and Mod of integers returns the remainder C++ defines.",
 ["inputs"], "every value of every integer type; exponents within the bound",
 "A multi-word algorithm can be wrong only in a narrow band of values that sampled constants miss.",
 ["MathUtils.inl"], [("IntegralLog2/IntegralLog2Pot", "MathUtils.inl"), ("IntegralPow/Mod", "MathUtils.inl")])
prop("M06", "Numeric helpers obey their contracts: Clamp, Approach, NumberEquals and others",
 "Clamp returns the value limited to the interval; Approach moves a value towards its objective by at most the increment and never past it; NumberEquals (default or explicit tolerance) is symmetric and true exactly when the distance is within the tolerance: the true distance for integers (signed, unsigned and narrow), the distance rounded in the type for finite floats. MultiplyAdd is x*y+z, Lerp of integers returns its endpoints at 0 and 1 when their difference is representable, and IsFinite, IsInfinity and IsNaN classify every floating-point bit pattern correctly, at run time and in constant evaluation.",
 ["inputs"], "every value of each integer type and every float and double bit pattern",
 "Unsigned wrap, integer promotion, infinities and NaNs are exactly the values examples leave out.",
 ["MathUtils.inl"], [("Approach/Clamp/NumberEquals/Lerp/MultiplyAdd", "MathUtils.inl"), ("IsFinite/IsInfinity/IsNaN", "MathUtils.inl")])
prop("M07", "Checked casts accept exactly the values the target type can represent",
 "In a checked (debug) build, SafeCast between integers, from floating-point to integers, and to and from enumerations returns the same numerical value when the target can represent the source exactly, and otherwise (out of range, fractional, infinite, NaN) fails its assertion instead of returning a changed value; narrowing a floating-point number fails when it is out of the target's range. It behaves the same for lvalue and rvalue arguments and through SafeCaster. Casting a pointer, a reference or an owning pointer down a polymorphic hierarchy succeeds, with the same object, exactly when the object's own class is or derives from the target; a null pointer stays null.",
 ["inputs"], "every source value for the pairs of integer, enum and floating-point types listed in the check; every object class of a three-level hierarchy",
 "Representability limits differ for each pair of types; tests check a few pairs at a few values.",
 ["Algorithm.inl"], [("SafeCast/SafeCaster", "Algorithm.inl")])

prop("M08", "Angle conversions and numeric constants have their mathematical values",
 "DegreeToRadian and RadianToDegree scale every angle by pi/180 and its inverse within rounding, keep the sign and map zero to zero. The limits and mathematical constants are, for every arithmetic type and also when deduced from what they are converted to, the limits of the type and the correctly rounded constants.",
 ["inputs"], "every float and double angle with a normal conversion; every arithmetic type",
 "Tests convert a few angles; an error in one factor or type is invisible to them.",
 ["MathUtils.inl", "Constants.hpp", "Constants.inl"], [("DegreeToRadian/RadianToDegree", "MathUtils.inl"), ("MathConstants", "Constants.hpp")])

# ---------------------------------------------------------------- assertions
prop("A01", "Assertions stop execution exactly when their condition is false",
 "With assertions enabled, NazaraAssert and NazaraAssertMsg evaluate their condition exactly once and execution continues exactly when it is true; the message arguments are evaluated only on failure. With assertions disabled they evaluate nothing; in both cases they are a single statement which never changes the surrounding control flow. Assert, AssertWithSource and the failure functions stop in every build.",
 ["inputs", "programs"], "every condition value and message argument, in every configuration of the assertion macros",
 "Tests only run assertions which hold; what happens when they do not, or when they are disabled, ends the test.",
 ["Assert.hpp", "Assert.inl"], [("NazaraAssert/NazaraAssertMsg", "Assert.hpp"), ("AssertFailure", "Assert.inl")])
prop("A02", "Out-of-domain calls fail an assertion before any harm, and valid calls never do",
 "In a build with assertions, a call outside its domain fails an assertion before it reads or writes any memory outside the object: testing, setting or resetting a bit, accessing a block or element or inserting or erasing past the end, an insertion or size beyond a fixed capacity, front and back of an empty vector, popping an empty fixed-capacity vector, a bitset converted to too narrow an integer, a pool entry that is not live, an absent key, an implementation emplaced twice, a bit number outside its type, a null or (AlignPow2) not power-of-two alignment. A call inside its domain never fails one.",
 ["inputs", "histories"], "every 64-bit index and every size and content within the bound",
 "Tests can neither survive a failed assertion nor try every index around each boundary.",
 ["Bitset.inl", "FixedVector.inl", "StackVector.inl", "StackArray.inl", "MemoryPool.inl", "MathUtils.inl", "Algorithm.inl", "PrivateImpl.inl"], [("bounds assertions", "Bitset.inl"), ("capacity and position assertions", "FixedVector.inl")])

# ---------------------------------------------------------------- Hash
prop("H01", "CRC32 is the standard CRC-32 of the bytes for every overload",
 "Every CRC32 overload (byte buffer, C string, string view, string literal) and the hasher object returns the standard reflected CRC-32 (polynomial 0xEDB88320) of exactly the bytes it is given, bytes of 0x80 and above included, and reads nothing beyond them.",
 ["inputs"], "every byte string up to the bound",
 "A wrong entry in a 256-entry table or a sign-extended byte shows only for inputs that select it.",
 ["Hash.inl"], [("CRC32", "Hash.inl")])
prop("H02", "FNV-1a hashes are the standard function of the bytes for every overload",
 "Every FNV1a32 and FNV1a64 overload (byte buffer, C string, string view, string literal) and the hasher objects return the standard FNV-1a hash of exactly the bytes given, so all overloads agree on the same bytes, bytes of 0x80 and above included.",
 ["inputs"], "every byte string up to the bound",
 "Overload disagreement only shows on non-ASCII bytes, which tests leave out.",
 ["Hash.inl"], [("FNV1a32/FNV1a64", "Hash.inl")])
prop("H03", "String hashing and hash combination are consistent functions of content",
 "The transparent string hasher returns the same value for the same characters whether given as C string, view or string, and that value is the standard hash of the view. Combining a value into a seed gives the published 128-to-64-bit CityHash combination of the seed and the value's standard hash, and the variadic form is the standard hash of its first value combined with the combination of the remaining ones.",
 ["inputs"], "every content up to the bound and every seed",
 "Agreement of entry points is quantified over all contents.",
 ["Hash.inl", "StringHash.inl"], [("HashCombine", "Hash.inl"), ("StringHash", "StringHash.inl")])

# ---------------------------------------------------------------- Flags
prop("F01", "Flags behave as a set of enum values under all operators",
 "A flag set built from enum values contains exactly those values; union, intersection, symmetric difference, complement (within the declared values), Set, Clear, Test, equality, bool and integer conversions are the corresponding set operations, in both enum and flag-set operand forms, for enums of 1 to 64 values and for enums whose values already are bit masks.",
 ["inputs"], "every pair of subsets for enums of several sizes, up to values above 32",
 "Subsets are exponentially many and the high values of wide enums use other integer widths.",
 ["Flags.hpp", "Flags.inl"], [("operators and ValueMask", "Flags.inl"), ("GetFlagValue", "Flags.inl")])
prop("F02", "Iterating and counting flags yields each contained value exactly once",
 "The iterator range of a flag set visits every contained enum value exactly once in increasing order and nothing else, with both increment forms, and Count and size return the number of contained values; this holds for enums needing 8, 16, 32 or 64 bits and for mask-valued enums.",
 ["inputs"], "every subset for enums of several sizes",
 "Wide enums and mask-valued enums take different code paths; tests iterate one small subset.",
 ["Flags.inl"], [("Flags::iterator", "Flags.inl"), ("Count/size", "Flags.inl")])

# ---------------------------------------------------------------- containers
prop("V01", "FixedVector holds the sequence its operations describe",
 "After any sequence of push, emplace, insert, erase, resize, pop, clear, copy, move and assignment that respects the capacity, a fixed vector contains exactly the elements a mathematical sequence would, in order; returned iterators and references designate the documented element; self-assignment and arguments referring to an element of the same vector behave as if the argument had been copied first. Elements that can only be moved, or have no default constructor, are supported by every operation that needs neither.",
 ["histories", "inputs"], "all operation sequences up to the bound with arbitrary positions and values",
 "The combinations of operation order, position and size are unbounded; tests walk one path.",
 ["FixedVector.hpp", "FixedVector.inl"], [("emplace/erase shifting", "FixedVector.inl"), ("copy/move assignment", "FixedVector.inl")])
prop("V02", "FixedVector constructs and destroys each element exactly once",
 "Every element a fixed vector creates is destroyed exactly once, never used before construction or after destruction, and none outlives the vector, for any sequence of operations. If an element's constructor throws, nothing leaks or is destroyed twice and the vector stays usable and destructible.",
 ["histories", "fault_sequences"], "all operation sequences up to the bound, with a constructor failing at any step",
 "Lifetime errors are invisible to value-based tests and fault points are never exercised by them.",
 ["FixedVector.inl"], [("resize/erase/assign destruction", "FixedVector.inl")])
prop("V03", "HybridVector is one sequence across inline storage and its heap fallback",
 "A hybrid vector contains exactly the elements a mathematical sequence would after any sequence of operations that starts inline, crosses its inline capacity in any operation (push, emplace, insert, resize, reserve, range construction, assignment) and possibly shrinks again; size, capacity, data, iterators and returned references stay consistent with the contents, aliasing arguments and self-assignment included. Elements that can only be moved, or have no default constructor, are supported by every operation that needs neither.",
 ["histories", "inputs"], "all operation sequences up to the bound around the inline capacity",
 "The spill can happen inside any operation at any position; tests spill in one way.",
 ["FixedVector.inl"], [("MoveStorageToFallback/CheckFallbackOnGrow", "FixedVector.inl")])
prop("V04", "HybridVector spilling and assignment lose, leak or double-destroy no element",
 "Across spilling, copying, moving, swapping storage kinds by assignment and destruction, each element of a hybrid vector is destroyed exactly once and none is leaked, in every combination of inline and fallback source and destination. A throwing element constructor leaves every vector destructible without leak or double destruction.",
 ["histories", "fault_sequences"], "all pairs of storage states and operation sequences up to the bound, with a constructor failing at any step",
 "Leaks need a particular pair of storage states and are invisible to value-based tests.",
 ["FixedVector.inl"], [("copy/move assignment across storage kinds", "FixedVector.inl"), ("MoveStorageToFallback", "FixedVector.inl")])
prop("V05", "StackVector holds the described sequence and balances element lifetimes",
 "Within its capacity a stack vector contains exactly the elements a mathematical sequence would after any sequence of push, emplace, insert, erase, resize, pop and clear; each element is destroyed exactly once; a moved-from stack vector is empty and safe to destroy, and the one moved into owns the elements. Elements that can only be moved, or have no default constructor, are supported by every operation that needs neither.",
 ["histories", "inputs"], "all operation sequences up to the bound with arbitrary positions and values",
 "Position/size/operation combinations and move-then-destroy lifetimes are not sampled by tests.",
 ["StackVector.inl", "StackVector.hpp"], [("emplace/erase/resize", "StackVector.inl"), ("move", "StackVector.hpp")])
prop("V06", "StackArray initialises, exposes and destroys exactly its elements",
 "A stack array of n elements value-constructs (or, on request, leaves unconstructed) exactly n elements, exposes them through indexing, iteration in both directions, front, back and fill, destroys each exactly once, and transfers ownership on move leaving the source empty and safe to destroy.",
 ["inputs", "histories"], "all sizes up to the bound, all contents and indices",
 "Lifetime balance after moves is not observed by value-based tests.",
 ["StackArray.inl", "StackArray.hpp"], [("construction/destruction", "StackArray.inl"), ("reverse iteration", "StackArray.inl")])

# ---------------------------------------------------------------- MemoryPool
prop("P01", "MemoryPool never hands out overlapping or dead slots, and its counters are exact",
 "In any history of allocations and frees every live allocation has its own index and its own suitably aligned, non-overlapping storage whose contents other operations leave alone; freed slots are reused before the pool grows and the pool grows by whole blocks. The allocated, free, block and size counts always equal what the history implies.",
 ["histories"], "all allocation/free histories up to the bound, any block size, any order of frees",
 "Overlap needs particular interleavings of frees and allocations across blocks.",
 ["MemoryPool.inl"], [("Allocate/Free bitsets", "MemoryPool.inl"), ("AllocateBlock", "MemoryPool.inl")])
prop("P02", "MemoryPool runs each object's destructor exactly once",
 "Objects are destroyed exactly once, when freed, cleared, reset, overwritten by move assignment or when the pool dies, and never for deferred construction that was released without destruction; a pool that was cleared, reset or moved into or from is as usable as one built by the corresponding fresh history.",
 ["histories", "fault_sequences"], "all histories of allocate/free/clear/reset/move up to the bound",
 "Double destruction and stale occupancy need reset-then-reuse or move histories that tests do not run.",
 ["MemoryPool.inl", "MemoryPool.hpp"], [("Clear/Reset/destructor", "MemoryPool.inl"), ("move", "MemoryPool.hpp")])
prop("P03", "MemoryPool iteration and index/pointer lookup see exactly the live objects",
 "Iterating a pool (const or not) visits each live object exactly once in index order and reports its index; looking up an index returns the pointer the allocation returned, and looking up any live object's pointer returns its index, for every block layout and alignment.",
 ["histories"], "all occupancy patterns over several blocks up to the bound, natural and increased alignment",
 "Empty leading, middle or trailing blocks and over-aligned types are specific occupancy patterns.",
 ["MemoryPool.inl"], [("MemoryPoolIterator", "MemoryPool.inl"), ("RetrieveEntryIndex/RetrieveFromIndex", "MemoryPool.inl")])

# ---------------------------------------------------------------- Signal
prop("S01", "A signal calls each connected slot exactly once per emission with the arguments",
 "Emitting a signal invokes every currently connected slot exactly once with the emitted arguments and no disconnected one, after any history of connections, disconnections in any order and clears; a connection reports itself connected exactly until it is disconnected, the signal is cleared or the signal dies, and disconnecting twice or after that is harmless. (Emitting a signal again from one of its own slots is not covered.)",
 ["histories"], "all connect/disconnect/clear/emit histories up to the bound",
 "Slot bookkeeping moves slots around on removal; only some removal orders expose an index mistake.",
 ["Signal.inl"], [("Disconnect swap-removal", "Signal.inl"), ("operator()", "Signal.inl")])
prop("S02", "Slots may connect, disconnect or clear during emission safely",
 "While a signal is being emitted, a slot may disconnect itself or any other slot, connect new slots or clear the signal: no slot connected during the whole emission is skipped, none is called twice in it (a slot connected meanwhile may or may not be called), no slot is called after its disconnection, and the signal stays consistent for later emissions, also when a slot ends an emission by throwing.",
 ["histories", "schedules"], "every slot count up to the bound and every choice of acting slot, action and target",
 "Each pair (position of the acting slot, position of its target) is a distinct schedule; tests run a few.",
 ["Signal.inl"], [("slot iterator maintenance", "Signal.inl")])
prop("S03", "Signals, connections and guards transfer ownership on copy, move and death",
 "Moving a signal transfers its slots so that existing connections control the new signal and the old one has none; copying a signal copies no slot; a guard disconnects its slot exactly when it is destroyed, reassigned or told to, and moved-from connections and guards control nothing. No operation on a connection outliving its signal touches the dead signal.",
 ["histories"], "all histories of connect, copy, move, guard and destruction up to the bound",
 "Ownership errors show only in particular orders of move and destruction.",
 ["Signal.inl", "Signal.hpp"], [("Signal move", "Signal.inl"), ("ConnectionGuard", "Signal.inl")])

# ---------------------------------------------------------------- Result
prop("R01", "A Result is exactly one of value or error and returns what it was given",
 "A result built from a value (or error) reports itself so, gives back that very value (or error) through every accessor, dereference, GetValueOr and conversion, and never both; copying, moving and assigning between results preserve state and content; asking for the absent alternative is reported rather than answered. Building a result from an lvalue never modifies that lvalue.",
 ["inputs", "histories"], "all values, errors and state pairs, for value-carrying and void results",
 "State pairs times value categories times accessors are not enumerated by tests.",
 ["Result.hpp", "Result.inl"], [("constructors and accessors", "Result.inl")])
prop("R02", "Result Map and the TRY macros propagate values and errors unchanged",
 "Map applies the function exactly once to the value of a successful result and returns its outcome, and otherwise returns the original error without calling the function, for value and void results, lvalues and rvalues; NAZARA_TRY and NAZARA_TRY_VALUE continue with the value on success and return the very error on failure.",
 ["inputs"], "all values, errors and states",
 "Tests check one value per case; the void/non-void and const/rvalue combinations are separate code.",
 ["Result.hpp", "Result.inl"], [("Map", "Result.inl"), ("NAZARA_TRY", "Result.hpp")])

# ---------------------------------------------------------------- ownership helpers
prop("O01", "Movable wrappers reset the source on move and otherwise keep the value",
 "Move construction of a movable pointer or literal leaves null or the default value in the source and what the source had in the target; move assignment exchanges the two values, so the target holds what the source had and nothing is lost; copies keep both; conversions and accessors return the held value, and constructing or assigning from an lvalue leaves that lvalue unchanged.",
 ["inputs", "histories"], "all values, all sequences of construct/copy/move/assign up to the bound, self-assignment included",
 "Tests use one value and a fixed sequence.",
 ["MovablePtr.inl", "MovableValue.inl"], [("MovablePtr", "MovablePtr.inl"), ("MovableLiteral/MovableValue", "MovableValue.inl")])
prop("O02", "PrivateImpl owns exactly one object with value semantics",
 "A private implementation (in-place or heap) constructs, copies, moves, assigns and destroys its object so that each object is destroyed exactly once, copies are independent, the content follows the source, and self-assignment changes nothing; the heap form also supports the empty state through every operation including copying it.",
 ["histories", "inputs"], "all values and all pairs of states of both operands",
 "Empty-state and self-assignment pairs are not tested and lifetime errors are invisible to value tests.",
 ["PrivateImpl.inl"], [("copy/move/assign/Emplace/Reset", "PrivateImpl.inl")])
prop("O03", "Scope-exit callbacks run exactly once, unless disabled",
 "A scope-exit object runs its callback exactly once when it is destroyed, on normal or exceptional exit; a manual trigger runs it immediately and it does not run again on destruction, a reset object runs nothing, and moving into an empty or reset object transfers the obligation without running, duplicating or losing it.",
 ["histories", "fault_sequences"], "all sequences of trigger, reset, move and destruction up to the bound, exceptional exit included",
 "Tests run each method once; the obligation is a property of all sequences.",
 ["CallOnExit.inl"], [("CallOnExit", "CallOnExit.inl")])
prop("O04", "FunctionRef forwards calls to the referenced callable exactly",
 "Calling a function reference calls the callable it was built from, exactly once, with the same arguments (references and move-only values included) and returns its result; copies refer to the same callable and state changes made by a call are visible in the original callable.",
 ["inputs"], "all argument values and callable states",
 "Forwarding mistakes depend on value category and on captured state.",
 ["FunctionRef.inl"], [("FunctionRef", "FunctionRef.inl")])

# ---------------------------------------------------------------- misc
prop("E01", "EnumArray indexes and iterates each enum value with its own element",
 "Indexing an enum array by a value reads and writes that value's element only; key/value iteration, const or not, visits every enum value once in order with a reference to its element, and the iterator's arithmetic and comparison operators obey the random-access iterator laws.",
 ["inputs"], "all contents, indices and iterator offsets",
 "Iterator laws quantify over positions and offsets; tests only increment.",
 ["EnumArray.inl"], [("EnumArrayKvIterator", "EnumArray.inl")])
prop("E02", "SparsePtr addresses element i at exactly start + i * stride bytes",
 "A strided pointer dereferences, indexes, advances, retreats and compares so that element i lies exactly i times the stride (positive or negative) in bytes from the start, comparisons order the addresses, for signed and unsigned index types of any width; moving by n then back by n is the identity and the difference of two positions of the same sequence is the number of steps between them.",
 ["inputs"], "all strides and all counts whose address computation does not overflow, signed and unsigned",
 "Negative strides with unsigned counts and products beyond 32 bits are not sampled by tests.",
 ["SparsePtr.inl"], [("pointer arithmetic", "SparsePtr.inl")])
prop("U01", "UTF-8 string conversions preserve every byte and the length",
 "Converting to and from UTF-8 string types, in every overload, preserves the exact byte sequence and length, embedded and non-ASCII bytes included, and views designate the same memory as their source.",
 ["inputs"], "all byte strings up to the bound",
 "Quantified over all byte strings; tests use literals.",
 ["StringUtils.inl"], [("FromUtf8String/ToUtf8String", "StringUtils.inl")])
prop("U02", "Generic lookup and access helpers return the designated object",
 "Offset access reads and writes exactly the object at the byte offset, keyed retrieval returns the element stored under the key in the container, unique-pointer casts transfer ownership without destroying or duplicating the object, element counts are exact, and placement construction and destruction act on the given storage exactly once.",
 ["inputs"], "all contents, offsets and keys within the bound",
 "Tests use one layout; the guarantee is over all offsets and contents.",
 ["Algorithm.inl", "MemoryHelper.inl"], [("AccessByOffset/Retrieve/StaticUniquePointerCast", "Algorithm.inl"), ("PlacementNew/PlacementDestroy", "MemoryHelper.inl")])
prop("U03", "TypeListApply runs its functor once per type, in list order",
 "Applying a functor template to a type list calls the functor of each type of the list, repeated types included, exactly once, in the order of the list, each with the arguments given: the same objects for references, its own copy for values of lvalues, which are left unchanged; an empty list calls nothing.",
 ["inputs"], "all argument values, lists of up to five types including computed lists",
 "No test calls it; order and argument forwarding depend on the list and on the kind of argument.",
 ["TypeList.inl"], [("TypeListApply", "TypeList.inl")])
prop("T01", "Compile-time type utilities compute the type-level result they name",
 "Type lists, type traits, function traits, type names and enum value counts evaluate to exactly the type or constant their name promises for every type argument.",
 ["programs"], "all type arguments",
 "Quantified over all types; tests instantiate some.",
 ["TypeList.inl", "TypeTraits.hpp", "FunctionTraits.hpp", "TypeName.inl"], [("TypeList algorithms", "TypeList.inl")])
prop("T02", "Path and string conversions round-trip through the filesystem path type",
 "Converting a UTF-8 string to a filesystem path and back yields the same path in its generic form (single separators) on every platform.",
 ["inputs"], "all UTF-8 strings",
 "Quantified over all strings.",
 ["PathUtils.inl"], [("Utf8Path/PathToString", "PathUtils.inl")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
for p in P:
    assert len(p["title"]) <= 88, (p["id"], len(p["title"]))
    if len(p["title"])>80: print("LONG", p["id"], len(p["title"]))
    n = p["statement"].count(". ")+1
    if n>3: print("sentences", p["id"], n)
print(len(P))

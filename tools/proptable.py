TRUST = 'Trusts: rustc MIR of the current tree, the models of core/std operations listed in DESIGN.md, 64-bit little-endian target. Obligations outside the analysed fragment are reported as undecided in the evidence and never as violations.'

prop('P01', 'Numeric traits on primitives deliver the machine operation they name',
     'For every primitive integer, non-zero integer and float, the wrapping, overflowing and checked operators, checked and wrapping shifts, zero/one tests and constants, bounds, sign tests, absolute value, bit counts, byte conversions, rounding and trigonometric operations of the numeric traits return exactly what the type\'s own operation of that name returns. They report overflow, out-of-range shift amounts and division by zero exactly when these occur, and none of the wrapping, overflowing or checked forms panics.',
     ['inputs'], 'every operand value, shift amount and primitive type',
     'The suite exercises a few small values through higher layers; a wrong operator, swapped operand or narrowed shift amount on one type or at one boundary value passes it.',
     ['crates/traits/src/__impl.rs', 'crates/traits/src/__impl/nz.rs'], [('operator trait impl macros', 'crates/traits/src/__impl.rs: impl_int!, impl_sint!, impl_float!'), ('non-zero impls', 'crates/traits/src/__impl/nz.rs')],
     technique='value-flow analysis of MIR, normal-form comparison', note='Value-flow equivalence of each method with the named operation for all inputs. ' + TRUST)

prop('P02', 'Checked, saturating and truncating integer conversions are exact',
     'Converting between any two primitive integer types, a checked conversion yields the value exactly when the target can represent it and nothing otherwise, a saturating conversion yields the nearest representable value, and a truncating conversion keeps the low bits. No conversion panics, and the source-to-target and target-from-source spellings agree.',
     ['inputs'], 'every value of every ordered pair of primitive integer types',
     '432 type pairs and conversions times all values; the suite touches a handful of pairs at one or two values.',
     ['crates/traits/src/__impl.rs', 'crates/traits/src/cast.rs'], [('conversion impl macros', 'crates/traits/src/__impl.rs: saturate_uint_impl!, saturate_sint_impl!, checked_impl!, truncating_as!'), ('blanket Into* traits', 'crates/traits/src/cast.rs')],
     technique='value-flow analysis with interval partition', note='Each conversion\'s summary equals the clamp/range-test/low-bits function on the whole domain. ' + TRUST)

prop('P03', 'Widening multiply-add returns the exact double-width result',
     'For every unsigned primitive type, widening multiplication of two words plus an addend returns a low and a high word that together are exactly the mathematical result, for all operand values and without panicking.',
     ['inputs'], 'every triple of words of every unsigned width up to 128 bits',
     'The carries that can go wrong need operands near the word boundary; the domain is 2^384 for the widest type and no test calls it directly.',
     ['crates/traits/src/ops/widening.rs'], [('widening_impl! and the u128 schoolbook product', 'crates/traits/src/ops/widening.rs')],
     technique='value-flow analysis, exact polynomial normal form', note='low + 2^w*high and a*b+c are the same integer polynomial (floor atoms for carries). ' + TRUST)

prop('P04', 'Multi-limb addition and subtraction are exact for every length and content',
     'Adding or subtracting two limb slices of any lengths gives exactly the mathematical sum or difference: the allocating forms return the full sum, or the magnitude and sign of the difference, without losing a carry or a limb. The in-place forms leave the result modulo the width of the left operand and report overflow exactly when the true result does not fit; the checked and wrapping forms agree with them.',
     ['inputs'], 'every pair of limb slices of any lengths and contents, at a narrow and at the pointer-wide limb type',
     'Carries that ripple across several limbs, operands of different lengths and lost top limbs occur for few of the inputs; the suite has about ten short additions.',
     ['crates/bits/src/algos/element/add.rs', 'crates/bits/src/algos/element/sub.rs'], [('limb-wise ripple carry and borrow loops', 'ElementAdd::add, add_overflowing; ElementSub::sub, sub_overflowing'), ('derived forms', 'add_checked, add_wrapping, sub_checked, sub_wrapping')],
     technique='loop-recurrence analysis of MIR against the ripple-carry recurrence (induction step identities, no unrolling)', note='Initial state, one-step identities, coverage and exits of each loop match the carry recurrence for all lengths. ' + TRUST)

prop('P05', 'Multi-limb multiplication is exact for every length and content',
     'Multiplying two limb slices of any lengths returns exactly the mathematical product without leading zero limbs. The in-place form leaves the product modulo the width of the left operand and reports overflow exactly when part of the true product was lost; the checked and wrapping forms agree with it.',
     ['inputs'], 'every pair of limb slices of any lengths and contents, at a narrow and at the pointer-wide limb type',
     'Carries between partial products depend on the values of several limbs at once; the suite multiplies a handful of one- and two-limb values.',
     ['crates/bits/src/algos/element/mul.rs'], [('schoolbook rows with widening multiply-add', 'ElementMul::mul, mul_overflowing'), ('single-limb addition with ripple', 'ElementMul::add_item'), ('derived forms', 'mul_checked, mul_wrapping')],
     technique='nested loop-recurrence analysis of MIR against the schoolbook recurrence (no unrolling)', note='Row recurrence and row-by-row recurrence match the schoolbook product for all lengths, using the separately decided contract of adding one limb. ' + TRUST)

prop('P06', 'Limb sequences and fixed-width integers are ordered by value',
     'Comparing two limb slices of any lengths gives the order of the integers they stand for, missing limbs counting as zero. Fixed-width unsigned integers are equal exactly when all their limbs are and are ordered by value; fixed-width signed integers likewise, negative ones below the others.',
     ['inputs'], 'every pair of limb slices of any lengths and every pair of fixed-width integers of any width',
     'A comparison that starts at the wrong end or overlooks the limbs of the longer operand is right whenever a single limb differs, which is what the suite compares.',
     ['crates/bits/src/algos/element/cmp.rs', 'crates/ints/src/u.rs', 'crates/ints/src/i.rs'], [('limb comparison loop', 'ElementCmp::cmp'), ('orderings of fixed-width integers', 'PartialEq, PartialOrd and Ord of U and I')],
     technique='loop-recurrence analysis of MIR against the most-significant-difference search', note='The comparison loop matches the search from the top limb of the longer operand for all lengths; the integer orderings are matched with it case by case. ' + TRUST)

prop('P07', 'Multi-limb division yields the exact quotient and remainder',
     'Dividing limb sequences of any lengths by a non-zero one yields the quotient rounded down and the remainder, smaller than the divisor, whichever operand is longer and whichever division routine (bit by bit or limb by limb) is used. The in-place forms, given a zeroed scratch remainder as long as the dividend, leave the quotient or the remainder in the dividend. A zero divisor is refused: the checked forms return nothing and the others panic.',
     ['inputs'], 'every pair of limb sequences of any lengths and contents with a non-zero divisor, and every zero divisor, at a narrow and at the pointer-wide limb type',
     'A quotient bit set at the wrong position, an initial step skipped or a divisor longer than the dividend only shows for multi-limb operands; the suite divides a dozen tiny values.',
     ['crates/bits/src/algos/bitwise/div.rs', 'crates/bits/src/algos/element/div.rs'], [('restoring division loops', 'BitwiseDiv::div_long, div_long_overflowing, rem_long_overflowing'), ('limb-wise long division', 'ElementDiv::div_long'), ('zero divisor guards', 'div_long_checked, rem_long_checked, assertions')],
     technique='loop-recurrence analysis of MIR against the restoring-division recurrence (no unrolling)', note='Initial state, step, coverage and exits of each loop match the long-division recurrence, using the separately decided shift, comparison and subtraction. ' + TRUST)

prop('P08', 'Limb and bit access of limb sequences addresses exactly the named limb or bit',
     'Reading limb or bit n of a limb sequence returns exactly that limb or bit when it exists; the optional forms report absence otherwise and the plain ones panic, and writing changes exactly the named limb or bit: out of range it panics, is ignored, is refused, or grows the sequence with zeros, according to the form. Iterating over the bits yields every bit once from the lowest up with an exact remaining count, and trimming removes exactly the leading zero limbs while keeping at least one limb.',
     ['inputs'], 'every sequence length, content, index and bit value, at a narrow and at the pointer-wide limb type',
     'Off-by-one at a limb boundary, a growing write that loses its value, or a stale bit shows at particular lengths and positions only.',
     ['crates/bits/src/bit_slice.rs', 'crates/bits/src/bit_slice', 'crates/bits/src/utils.rs'], [('accessors', 'BitSliceExt, BitVecExt'), ('bit iterator', 'BitIter'), ('trimming', 'IntSlice::shrink')],
     technique='closed forms of accessors and memory effects at symbolic index and length; one-step invariant analysis of the bit iterator', note='Value, success condition and memory effect of each accessor equal the required ones for all lengths and indices. ' + TRUST)

prop('P09', 'Multi-limb shifts and bitwise operations are exact for every length and amount',
     'Shifting a limb slice of any length left or right by any amount multiplies by, or divides by and rounds down, the power of two: the allocating left shift loses no bit, the in-place forms drop what leaves the width and fill with zeros, the checked forms refuse amounts above the width and the wrapping forms reduce the amount modulo the width. Bitwise and, or, exclusive or and complement act limb by limb, missing limbs counting as zero.',
     ['inputs'], 'every slice length, content and shift amount, at a narrow and at the pointer-wide limb type',
     'Shifts by whole limbs, by more than the width and across limb boundaries each take their own path; the suite has about a dozen examples.',
     ['crates/bits/src/algos/element/shl.rs', 'crates/bits/src/algos/element/shr.rs', 'crates/bits/src/algos/element/bitand.rs', 'crates/bits/src/algos/element/bitor.rs', 'crates/bits/src/algos/element/bitxor.rs', 'crates/bits/src/algos/element/neg.rs'],
     [('wrap-and-mask shifts', 'ElementShl, ElementShr'), ('limb-wise operations', 'ElementBitand, ElementBitor, ElementBitxor, ElementNot')],
     technique='closed form of one result limb at a symbolic position (affine index loops solved), compared bit by bit', note='Limb i of each result equals the defining formula for all lengths and amounts. ' + TRUST)

prop('P10', 'Bit-by-bit algorithms agree with the limb-by-limb ones',
     'The bit-by-bit addition, in-place addition, subtraction, multiplication and left and right shift of limb sequences of any lengths give the same integer as the limb-by-limb routines: the exact sum, the sum modulo the width of the left operand, the magnitude and sign of the difference, the exact product, and the value multiplied by, or divided by and rounded down, the power of two.',
     ['inputs'], 'every pair of limb sequences of any lengths and contents and every shift amount, at a narrow and at the pointer-wide limb type',
     'Carries out of the top bit, operands of different lengths and shifts past the end decide few inputs; only multiplication and right shift have a test, at one limb or two.',
     ['crates/bits/src/algos/bitwise'], [('full-adder and full-subtractor loops', 'BitwiseAdd, BitwiseSub'), ('shift-and-add', 'BitwiseMul'), ('bit moves', 'BitwiseShr')],
     technique='loop-recurrence analysis of MIR against the full-adder, full-subtractor, shift-and-add and bit-move recurrences (no unrolling)', note='Initial state, step, coverage and exits of each loop match the recurrence, using the separately decided limb operations. ' + TRUST)

prop('P20', 'Vector operations act component by component',
     'For every dimension and every element type, adding, subtracting, multiplying, dividing or reducing two vectors, or a vector and a scalar, by value, by reference or in place, gives in each component exactly that operation on the corresponding components; checked forms succeed exactly when every component does. Zero, scalar and coordinate construction, conversion to and from arrays, rows and columns, coordinate access, sum, product, dot and cross product, squared distance and distance follow their defining formulas, and indexing panics exactly when out of range.',
     ['inputs'], 'every dimension, component value and index',
     'Dimension and components are unbounded; the suite adds two or three small vectors.',
     ['crates/compounds/src/vector.rs'], [('operator macros over component iterators', 'vector.rs: impl_op! and friends'), ('reductions', 'sum, product, dot_product, distance_squared, cross')],
     technique='closed forms of array elements at symbolic index and dimension, compared as ring expressions', note='Each component of each result equals the defining formula for all dimensions. ' + TRUST)

prop('P21', 'Complex arithmetic follows the defining formulas',
     'For every element type and every value, adding, subtracting, multiplying and dividing complex numbers, or a complex number and a real one, returns the real and imaginary parts of the defining formula. The constructors, the zero and one constants and tests, equality, part access, squared modulus and modulus agree with those formulas.',
     ['inputs'], 'every pair of complex values over any element type',
     'A swapped operand or sign in one part shows only for values with non-zero parts in both operands; few tests have these.',
     ['crates/compounds/src/complex.rs'], [('operator impls', 'crates/compounds/src/complex.rs')],
     technique='value-flow analysis of MIR, rational-function normal form', note='Both parts equal the formula as rational functions of the operand parts. ' + TRUST)

prop('P22', 'Matrix construction and arithmetic are right element by element',
     'For every number of rows and columns (with a non-empty inner dimension for products), matrix sums, differences and products, transposes, construction from rows and from columns, the diagonal, the zero and identity matrix and their tests have at each row and column exactly the value of the defining formula. Swapping two rows exchanges exactly these, 1x1 and 2x2 determinants follow the formula, and the wedge of two vectors has one antisymmetric component for every pair of axes.',
     ['inputs'], 'all dimensions, positions and element values',
     'Rows and columns that are confused agree on square and symmetric inputs, which is most of what the suite has.',
     ['crates/compounds/src/matrix/static.rs', 'crates/compounds/src/bivec.rs'], [('element-wise loops and the product', 'static.rs'), ('wedge product', 'bivec.rs')],
     technique='closed forms of array elements at symbolic indices and dimensions, indexed sums kept symbolic', note='Element (i, j) of every result equals the formula for all dimensions. ' + TRUST)

prop('P23', 'Matrix access never leaves the matrix and views show the same elements',
     'Reading or writing an element of a static matrix, a dynamic matrix or a matrix view succeeds exactly when the row and the column are both within the matrix, and then addresses the element of that row and column; otherwise it panics. A view has the rows, columns and storage of the matrix it was made from, a dynamic matrix is only built from data of exactly rows times columns elements, and swapping rows of a dynamic matrix exchanges exactly these rows.',
     ['inputs'], 'every matrix shape and every row and column index',
     'An out-of-range column of an in-range row silently reads another row, or memory outside the matrix through a view; no test probes the edges.',
     ['crates/compounds/src/matrix/static.rs', 'crates/compounds/src/matrix/dynamic.rs', 'crates/compounds/src/matrix/refs.rs'],
     [('index guards and address computation', 'Index/IndexMut of Matrix, DynMatrix, MatrixRef, MatrixMut'), ('view construction', 'From impls in refs.rs and dynamic.rs')],
     technique='extraction and comparison of index expressions, guards and panic conditions; storage provenance', note='Success condition and address of every accessor are exact for all shapes. ' + TRUST)

prop('P17', 'Types cross threads only when their content may',
     'A generic type of the workspace can be sent to another thread only if every value it owns may be sent and every value it borrows may be shared, and can be shared between threads only if what it contains may be shared and, where values can be moved in or out through a shared reference, may also be sent. The value types and the interner keep being sendable and shareable when their content is both.',
     ['programs'], 'every instantiation of every type parameter with a type that is neither, either or both of Send and Sync',
     'A missing bound compiles and passes every test; it only shows as a data race in a program that uses the type with content like Rc or Cell.',
     ['crates/utils/src/linked.rs', 'crates/utils/src/intern.rs', 'crates/compounds/src/matrix/refs.rs', 'crates/ints/src/big_int.rs'],
     [('unsafe impl Send/Sync bounds', 'linked.rs, intern.rs'), ('raw pointers with markers', 'matrix/refs.rs, linked.rs: Iter')],
     technique="the compiler's auto-trait solver, run under each assumption on the parameter, against an ownership walk over the fields",
     note='Decided per type, parameter and assumption for all types of the workspace. ' + TRUST)

prop('P18', 'The interner and its list keep their cross-thread protocol',
     'For every interleaving of threads, the append-only list never loses, reorders or changes a node: a link only ever goes from nothing to a fully written node, walks follow only links they have synchronised with, and length, index, iteration and disposal cover exactly the nodes. The interner overwrites a slot only while it alone holds it with no references, publishes a value before its reference count, shares a slot only for an equal value, never leaves a looked-at slot with an extra or missing reference, and maps every identifier back to the slot it was issued for.',
     ['schedules', 'inputs'], 'every interleaving, every list length and every identifier; callers only release references they hold',
     'A weakened memory ordering or a missing claim shows under rare schedules, and on x86 hardly ever; tests run few threads for a short time.',
     ['crates/utils/src/linked.rs', 'crates/utils/src/intern.rs'], [('links set by compare-and-exchange', 'Node::set_next, UnsyncLinked::push'), ('claim, publish and release of slots', 'Interned, Interner::find, add, incr, decr, try_get')],
     technique='extraction of atomic events with path conditions from MIR; transition, ordering and happens-before rules; list positions as counters',
     note='Every atomic access obeys the ordering and transition rules, and every walk its closed form. ' + TRUST)

prop('P13', 'Stored big integers are counted exactly once per live value',
     'Every arbitrary-precision integer whose limbs are kept in the shared store accounts for exactly one reference to them, from the moment it is made until it ends: making one by storing, cloning, negating or any other way takes one reference, ending it gives that one back, and no operation gives back or takes one more. Limbs are looked up only under the identifier the integer itself holds, and integers kept without the store never touch it.',
     ['histories', 'inputs'], 'every sequence of creations, clones, negations, assignments and ends, and every stored word',
     'A missing or extra reference is invisible until the store reuses the limbs for another number; that takes large values, a particular order of ends and a later allocation.',
     ['crates/ints/src/big_int.rs'], [('reference counting of the shared store', 'BigInt::new_intern, Clone, Drop, Neg'), ('lookups', 'BigInt::val')],
     technique='ownership analysis over MIR: enumeration of all constructs that build, change or copy the word, and reference balance of each as a boolean-function count', note='For each such function the references taken and given balance at every identifier, for all words. ' + TRUST)

prop('P14', 'A big integer has one representation, and equality and order follow its value',
     'An arbitrary-precision integer is kept by its magnitude alone, without leading zero limbs, and zero is never negative, so a value has only one form whatever computed it; sign tests, zero and one tests and negation agree with the value. Two integers are equal exactly when their values are, and they are totally ordered by value for all signs and limb counts.',
     ['inputs'], 'every pair of integers of any sign and any number of limbs, in every form they can be kept',
     'Values at the limit of the inline form, equal values reached through different operations, and multi-limb values that differ in one limb are needed; the suite compares single-limb values.',
     ['crates/ints/src/big_int.rs'], [('tagged word', 'TaggedOffset, Tag, BigInt::new_inline, new_slice'), ('comparison', 'PartialEq, PartialOrd and Ord of BigInt')],
     technique='the meaning of the word is read off the code and every other function compared with it as boolean functions of its bits; loop-recurrence analysis of the ordering', note='Each function on the word agrees with the reading for all words; the ordering loop matches the search from the top limb. ' + TRUST)

prop('P15', 'Big integer arithmetic is exact and signed',
     'Sums, differences, products, quotients rounded toward zero, remainders with the sign of the dividend, shifts of the magnitude that keep the sign, absolute value, powers with a non-negative exponent, and bitwise and, or and exclusive or of non-negative operands, of arbitrary-precision integers are exactly the mathematical result for all signs and sizes. The by-value, by-reference, assigning and mixed forms with every primitive integer type, on either side, give the same result.',
     ['inputs'], 'every pair of integers of any sign and size, every primitive operand, every operator form',
     'Sign combinations times limb counts times some two hundred operator impls; the suite tries a few small values of a few of them.',
     ['crates/ints/src/big_int.rs', 'crates/ints/src/big_int/macros.rs'], [('sign logic on limb routines', 'impl_op!, impl_assign_op!'), ('forwarding impls', 'macros.rs')],
     technique='abstract interpretation of MIR in the domain of exact integers, sign and order case analysis with polynomial normal forms', note='Each operator equals the mathematical one in every sign case, given the limb routines (P04, P05, P07, P09). ' + TRUST)

prop('P16', 'Conversions between big integers and primitives are exact',
     'Making an arbitrary-precision integer from a primitive one keeps the value. Converting back yields the value exactly when the target type can represent it and otherwise reports on which side it lies outside; saturating conversion yields the nearest representable value, truncating conversion the low bits in two\'s complement, and comparing with a primitive compares the values.',
     ['inputs'], 'every value of every primitive integer type and every integer of any sign and size',
     'The edges of twelve types, negative values and values of more limbs than the target each decide their own case; the suite converts a few small values.',
     ['crates/ints/src/big_int/macros.rs', 'crates/bits/src/utils.rs'], [('conversion macros', 'impl_for_int!'), ('limb splitting and joining', 'int_to_arr, arr_to_int')],
     technique='abstract interpretation of MIR in the domain of exact integers with interval case analysis; constant-bound loops written out; loop recurrence for truncation', note='Each conversion equals its defining function on the whole domain. ' + TRUST)

prop('P24', 'Printed integers denote their value and read text gives the value denoted',
     'Printing an arbitrary-precision integer or an unsigned fixed-width one of at least one byte writes a minus sign exactly if it is negative, then 0x for hexadecimal or 0b for binary, then the digits of the magnitude, most significant first: decimal and hexadecimal without leading zeros and with zero as a single 0, binary with leading zeros allowed. Reading text in a radix of at most 36 takes an optional leading minus sign and digits of that radix, letters in either case, and yields exactly the integer denoted; any other character, and any digit under a larger radix, is reported as an error.',
     ['inputs'], 'every integer of any sign and size, every width, every text and every radix',
     'Digits come out of a loop over the whole number and go back to front through a table; the suite prints and parses a handful of short decimal numbers.',
     ['crates/ints/src/big_int.rs', 'crates/ints/src/u.rs'], [('digit loop', 'write_base'), ('formatting impls', 'Display, Debug, LowerHex, UpperHex, Binary'), ('reading', 'FromStrRadix::from_str_radix, RadixChars::val_from_char')],
     technique='abstract interpretation of MIR in the domain of exact integers and character sequences, comparison of the digit, output and input loops with their recurrences, inspection of the digit tables', note='A formatter is taken to accept what is written; padding, alternate and precision flags are outside the statement. ' + TRUST)

prop('P11', 'Fixed-width integers compute modulo their width and report overflow exactly',
     'Addition, subtraction, multiplication, division, remainder, bitwise operations, shifts by less than the width, negation, magnitude, powers, sign, zero and one tests, constants and bounds of fixed-width integers of every width are those of integers modulo the width, signed ones in two\'s complement with quotients rounded toward zero and remainders taking the sign of the dividend. The checked forms yield the value exactly when it does not overflow and the divisor is not zero, the saturating forms the nearest bound instead, and the wrapping forms the value modulo the width. The plain unsigned operators refuse overflow in checked builds and wrap in optimised ones; division by zero is always refused.',
     ['inputs'], 'every width and every pair of operands, in checked and in optimised builds',
     'Widths are unbounded and overflow, borrow and sign cases sit at few of the values; the suite adds, divides and compares values below eleven at three widths.',
     ['crates/ints/src/u.rs', 'crates/ints/src/i.rs'], [('operators over limb routines', 'impl Add, Sub, Mul, Div, Rem, Shl, Shr, Pow, Checked*, Wrapping*, Saturating* for U'), ('two\'s complement', 'impl Neg, Div, Rem, Signed, Bounded for I')],
     technique='value-flow analysis of MIR over named limb operations; arrays by their element at a symbolic position; both build profiles', note='Each function equals its definition for every width, given the limb routines (P04, P05, P07, P09). ' + TRUST)

prop('P12', 'Byte forms, limb forms and conversions of fixed-width integers keep the number',
     'Little-endian, big-endian and native byte forms of a fixed-width unsigned integer and of the N-byte float hold its bytes in the stated order and give back the same value, and the bits of such a float are the integer of the same bytes. Converting between fixed-width unsigned integers and primitives yields the value exactly when it fits and nothing otherwise, the largest value when saturating, and the low bits when truncating, for every pair of widths. Splitting a primitive into limbs and joining limbs into a primitive keep the number, and joining refuses a number that does not fit.',
     ['inputs'], 'every width, every primitive type and every value or byte sequence',
     'Which bytes decide depends on the two widths; the suite has no width larger than its primitive.',
     ['crates/ints/src/u.rs', 'crates/bits/src/utils.rs', 'crates/reals/src/f.rs'], [('byte forms', 'U:: and F::from_le_bytes, from_be_bytes, to_le_bytes, to_be_bytes; const_reverse'), ('conversions', 'impl_unsign_cast!'), ('limb forms', 'int_to_arr, arr_to_int')],
     technique='closed forms of loop-filled arrays at a symbolic position; early exits as quantified conditions; loop recurrences for limb forms', note='Each byte and each refusal equals the definition for every width. ' + TRUST)

prop('P19', 'Fixed-length iteration visits every position once, in order',
     'A fixed-length iterator of any length hands out item i when position i is reached, each position exactly once and in increasing order, and mapping, zipping, enumerating and zipping several sources keep item i at position i. Folding, summing, multiplying, testing any/all and collecting into arrays consume every item in order, and collecting optional or fallible items yields the first absence or error, or else all the values at their positions. No position outside the length is ever accessed.',
     ['inputs'], 'every length, every source and chain of adapters, every callback, every position of the first failing item',
     'The suite collects three arrays of length four; a skipped last position, a swapped index or a lost early exit at another length or through another consumer passes it.',
     ['crates/static-iter/src/lib.rs', 'crates/static-iter/src/adapter.rs', 'crates/static-iter/src/array.rs', 'crates/static-iter/src/zip_all.rs'],
     [('consumers', 'StaticIter::fold, try_fold, any, all, sum, product, FromStaticIter::from_static_iter'), ('sources and adapters', 'StaticIter::idx implementations'), ('collectors', 'FromStaticIter::{uninit, write, finish} for arrays, Option and Result')],
     technique='loop-recurrence analysis of MIR over uninterpreted items and callbacks (one-step identities, symbolic length)', note='The recurrence of each consumer equals that of its definition; the index asked for equals the number of items taken. ' + TRUST)

prop('P25', 'Safe programs cannot reach dead, moved or aliased values through the library',
     'A program without unsafe code that uses a matrix view, an element reference, a reference to an interned value, a borrowing fixed-length iterator or a bit iterator after its owner was dropped, moved, replaced or changed does not compile. Exclusive matrix views cannot be duplicated, made from a shared borrow, overlapped with another view or used to store values that live shorter than the matrix expects, and the same holds for values stored in an interner. Consuming an owning iterator twice, choosing the extent of a view from outside, and asking for unchecked positions or completion of a collection without unsafe do not compile either.',
     ['programs'], 'every safe client program, by the borrow, variance, privacy and unsafety judgements on the interface',
     'The suite contains only programs that compile, so no test can show that a wrong one is refused.',
     ['crates/compounds/src/matrix/refs.rs', 'crates/compounds/src/matrix/dynamic.rs', 'crates/utils/src/intern.rs', 'crates/static-iter/src/lib.rs', 'crates/static-iter/src/array.rs', 'crates/bits/src/bit_slice/iter.rs', 'crates/ints/src/big_int.rs'],
     [('lifetimes and variance of views', 'MatrixRef, MatrixMut and their From impls'), ('lending of stored values', 'Interner::get, try_get; variance of Interner'), ('single use of owning iterators', 'IntoIter, StaticIter consumers'), ('unsafe contracts', 'StaticIter::idx, FromStaticIter::finish')],
     technique='compile-fail witnesses: type and borrow checking of client programs against the crate metadata, each with an accepted control', note='Each listed interface refuses each listed class of misuse; a new unsound interface is seen only through its signature in the listed ones. Trusts the type and borrow checker of the installed nightly compiler. A witness whose control does not compile is reported as undecided.')

prop('P26', 'Operands of different shape do not combine',
     'Vectors of different dimension, matrices whose shapes do not fit the operation, fixed-length sources of different length and fixed-width integers of different width cannot be combined or compared: such a program does not compile. Results have the stated shape: sums that of their operands, products the left height and right width, transposes height and width swapped, collections the length of their source, byte forms the width of the integer. Determinant and diagonal exist for square matrices only.',
     ['programs', 'inputs'], 'every pair of shapes, represented by fitting and non-fitting ones in each argument position',
     'The suite contains only programs that compile, so no test can show that a wrong one is refused.',
     ['crates/compounds/src/vector.rs', 'crates/compounds/src/matrix/static.rs', 'crates/static-iter/src/lib.rs', 'crates/static-iter/src/zip_all.rs', 'crates/ints/src/u.rs', 'crates/ints/src/i.rs'],
     [('dimensions in types', 'const parameters of Vector, Matrix, U, I, StaticIter and the signatures over them')],
     technique='compile-fail witnesses: type checking of client programs against the crate metadata, each with an accepted control', note='Refusal is shown for representative shapes (equal, one more, one less, zero) of every listed operation; const generics treat shapes uniformly. Trusts the type and borrow checker of the installed nightly compiler. A witness whose control does not compile is reported as undecided.')

prop('P27', 'Rationals are exact fractions in lowest terms; fixed-point values are to scale',
     'As long as no numerator, denominator or raw value leaves its integer type, sums, differences, products and quotients of rationals denote the exact fraction in lowest terms with positive denominator, division panics exactly for a zero divisor, construction is refused exactly for a zero denominator, and equality, negation, magnitude, sign and zero and one tests, bounds, constants, floor, ceiling and rounding to nearest (the lower of two) follow the fraction. A fixed-point value with n fraction bits is its raw integer over two to the n: sum, difference, remainder, negation, magnitude, sign, comparison, constants and conversion from whole and raw values are exact, products are rounded down and quotients towards zero to a step. Its floor, ceiling, rounding to nearest (the lower of two), truncation towards zero and signed fraction are those of the value.',
     ['inputs'], 'every pair of operands of any sign, every integer type and every number of fraction bits',
     'Reduction, signs and ties decide at few values; the suite adds two rationals and looks at one and two fraction bits.',
     ['crates/reals/src/rat.rs', 'crates/reals/src/fixed.rs'], [('reduction', 'Rat::reduce'), ('operators', 'impl Add, Sub, Mul, Div, Rem, Neg'), ('rounding', 'impl Real')],
     technique='value-flow analysis of generic MIR: comparison of result expressions with the defining fraction, divided by a greatest common divisor of either sign', note='Each function equals its definition over the integers; functions left as todo!() are outside. ' + TRUST)

prop('P28', 'Greatest common divisors, factorials and powers of primitive integers',
     'The greatest common divisor of two primitive integers is the largest integer that divides both, up to sign when an operand is negative, that with zero is the other operand, and that of two zeros is zero. The factorial of an unsigned integer is the product of the numbers from one to it, and one for zero. A power with an exponent of at most 32 bits is the product of as many factors as the exponent says. All three as long as the result and the steps to it fit the type.',
     ['inputs'], 'every pair of operands of each of the twelve primitive integer types',
     'The suite computes the divisor of one pair and no factorial; an early end, a zero operand or a lost factor shows at other operands.',
     ['crates/traits/src/__impl.rs'], [('Euclid loop', 'impl Gcd'), ('range product', 'impl Factorial'), ('machine power', 'impl Pow')],
     technique='loop-recurrence analysis of MIR: invariance of the carried pair, coverage of the factor range', note='The recurrence is that of the definition for every operand. ' + TRUST)

prop('P29', 'Row reduction and larger determinants solve the system they are given',
     'Gaussian elimination and row reduction of a matrix of any size keep its row space and end in (reduced) row echelon form, and determinants of three and more rows equal the sum over permutations.',
     ['inputs'], 'every matrix of every size over a field',
     'Which pivot is taken depends on which entries are zero; tests have one or two matrices.',
     ['crates/compounds/src/matrix/dynamic.rs', 'crates/compounds/src/matrix/static.rs'], [('elimination', 'gauss_elim, row_reduce, determinant')],
     na='The loops pick pivots by the run-time values of entries computed in earlier rounds; the row-space invariant is an existential over products of row operations that the recurrence comparison cannot express, and no per-element closed form exists.')

prop('P30', 'Equal big integers built by different threads share one stored copy',
     'However threads interleave, interning equal limb sequences yields the same identifier while any of them is alive, and no stored sequence that is in use is ever replaced.',
     ['schedules', 'inputs'], 'every number of threads, every interleaving and every set of values',
     'Needs a particular interleaving of the search, the claim of a free slot and a release by another thread.',
     ['crates/utils/src/intern.rs', 'crates/utils/src/linked.rs'], [('search then claim', 'Interner::add')],
     na='The protocol rules of each atomic event are decided in P18; that two concurrent searches cannot both miss each other is a statement about interleavings of two whole traversals (a refinement argument over histories), which per-event and per-path analyses do not decide.')

prop('P31', 'Approximations by and of floating point numbers are nearest',
     'Converting a big integer to a float, and roots, logarithms and powers of reals, give the nearest representable number.',
     ['inputs'], 'every value',
     'Rounding errors show only at particular operands.',
     ['crates/ints/src/big_int.rs', 'crates/traits/src/class.rs'], [('approximation', 'to-float conversions, Real::root, sqrt, log')],
     na='Bounding rounding error needs real-arithmetic reasoning about float operations; the value-flow terms treat float operations as uninterpreted (P01 decides only that the named operation is applied to the named operands).')

prop('P32', 'Interning always makes progress',
     'A thread that adds to or reads from the shared list finishes after a bounded number of its own steps unless other threads finished theirs meanwhile, and it never waits for a suspended thread.',
     ['schedules'], 'every number of threads and every schedule',
     'Starvation depends on an adversarial schedule of unbounded length.',
     ['crates/utils/src/linked.rs', 'crates/utils/src/intern.rs'], [('retry loops', 'compare-exchange loops')],
     na='A liveness statement over infinite schedules: it needs a ranking over the interleavings of all threads, not a per-event rule.')

prop('P33', 'Arithmetic takes time and space polynomial in the size of its operands',
     'Additions and comparisons of limb sequences take time linear, and multiplications and bitwise divisions quadratic, in the number of limbs; stored integers that are no longer used do not accumulate.',
     ['inputs', 'histories'], 'every operand size and every history of operations',
     'Growth only shows at sizes and history lengths tests do not reach.',
     ['crates/bits/src/algos', 'crates/utils/src/intern.rs'], [('loops and allocations', 'element and bitwise algorithms')],
     na='Cost is a run-time quantity: iteration counts of the inner operations and reuse of list slots depend on values and histories (element-wise long division is documented as slow); the recurrences decide what is computed, not how often memory is touched by the allocator.')

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))

I='include/'
p('C01','vector behaves as the sequence the program built',
 'After any history of push_back, pop_back, resize, erase, assign, clear, swap, copy construction, copy assignment and element writes, a vector\'s size, emptiness, indexing, at, iteration and data() all show exactly the sequence those operations define, whatever reallocations happened on the way. Growing with resize keeps the existing elements and value-initialises the new ones, erase keeps the order of the others and returns the position after the erased element, pushing back one of the vector\'s own elements appends that element\'s value, and capacity is never below size.',
 ['histories','inputs'],'every finite history of public vector operations on several vectors, for every element type with ordinary copy semantics',
 'test-vector pushes and erases a handful of ints once; growth boundaries, stale capacity after clear/shrink, aliasing arguments and long mixed histories are never reached',
 [I+'nanovector.h',I+'nanoallocator.h'],[('resize/push_back growth (2x)','nanovector.h vector::resize'),('erase shifts down','nanovector.h vector::erase'),('assign = clear + push_back','nanovector.h vector::assign')],
 [('elements_/capacity_/size_','storage, allocated length, live length','nanovector.h')],['size','empty','operator[]','at','begin/end','data','capacity','erase return value'])
p('C02','vector and valarray own their elements: deep copies, no leak, no double free',
 'Copies of a vector or valarray are independent of the original, and for any history of operations on any number of them every element object that was constructed is destroyed exactly once by the time the containers are gone, every storage block obtained is released exactly once in the matching form, and no element that has been destroyed or whose storage was released is ever read, assigned or destroyed again. Swap exchanges contents without copying or leaking.',
 ['histories'],'every history of construction, copy, assignment (including self-assignment), growth, erase, clear, swap and destruction over several containers',
 'the tests use ints and never count constructions or inspect memory; a leak, double free or shared buffer passes them',
 [I+'nanovector.h',I+'nanovalarray.h',I+'nanoallocator.h'],[('new[]/delete[] pairing','nanoallocator.h allocator::allocate/deallocate'),('copy constructor and operator= through assign','nanovector.h'),('swap by member','nanovector.h vector::swap')],
 [('elements_','owned array','nanovector.h, nanovalarray.h')],['instrumented element type','replaced global operator new/delete'])
p('C03','valarray behaves as the sequence the program built; sin is elementwise',
 'After any history of construction with a size, resize, assign, element writes, erase, clear, swap, copy construction and assignment, a valarray\'s size, emptiness, indexing and iteration show exactly the sequence those operations define; elements created by the sized constructor or by growth are value-initialised. sin(va) leaves va unchanged and returns a valarray of the same size whose i-th element is the scalar sin of va\'s i-th element.',
 ['histories','inputs'],'every finite history of valarray operations and every content',
 'test-valarray checks one three-element array',
 [I+'nanovalarray.h',I+'nanomath.h'],[('resize growth','nanovalarray.h valarray::resize'),('sin overload','nanovalarray.h sin(valarray)')],
 [('elements_/capacity_/size_','storage','nanovalarray.h')],['size','operator[]','begin/end','sin'])
p('C04','string content, length and terminator agree for every history',
 'After any history of construction (empty, C string, pointer and count, pointer range), copy, assignment, +, +=, element writes, erase and clear, a string holds exactly the characters those operations define: size() and length() give their number, empty() is true exactly when it is zero, operator[], at and c_str() show them, and c_str()[size()] is the terminating NUL. Appending a string to itself doubles it, + leaves both operands unchanged, and copies are independent.',
 ['histories','inputs'],'every finite history of string operations on several strings with arbitrary characters (a C string ends at its first NUL)',
 'test-string compares a few literals; growth boundaries, self-append, range constructors, erase and emptiness are never exercised',
 [I+'nanostring.h',I+'nanovector.h'],[('vector<char> with trailing NUL','nanostring.h basic_string::data_'),('operator+= drops NUL and appends','nanostring.h basic_string::operator+=')],
 [('data_','characters plus NUL','nanostring.h')],['size','length','empty','c_str','operator[]','at'])
p('C05','string comparison is lexicographic by unsigned byte and a total order',
 'For any two strings (or a string and a C string), compare is negative, zero or positive exactly as the first is lexicographically before, equal to or after the second with characters compared as unsigned bytes, a proper prefix being smaller; ==, !=, < and > agree with compare. Hence exactly one of <, ==, > holds and < is transitive.',
 ['inputs'],'all pairs and triples of NUL-free strings, including bytes above 127, the empty string and proper prefixes',
 'two or three literal pairs are compared in test-string',
 [I+'nanostring.h'],[('strcmp-style loop','nanostring.h basic_string::compare_')],(),['compare','operator==','operator!=','operator<','operator>'])
p('C06','map is a dictionary: insert-if-absent, lookup, upper_bound',
 'After any history of insert and operator[] on a map, find(k) yields the element with key k exactly when k was inserted and end() otherwise, insert of a present key changes nothing and returns false with the position of the existing element, insert of an absent key returns true with the position of the new one, operator[] value-initialises absent keys and otherwise gives access to the stored value. upper_bound(k) yields the element with the smallest key greater than k or end(), and empty() is true exactly when nothing was inserted.',
 ['histories','inputs'],'every insertion order and mix of operations over every key set, independent of the internal balancing randomness',
 'test-map inserts four keys; tree rotations depend on the insertion order and on a process-wide random stream that the tests sample once',
 [I+'nanomap.h'],[('treap insert with rotations','nanomap.h map::__insert/__rotate'),('binary search','nanomap.h map::__find/__upper_bound')],
 [('root','treap ordered by key, heap by priority','nanomap.h')],['insert result','find','operator[]','upper_bound','empty'])
p('C07','map iteration is ascending, complete, and references stay valid',
 'Iterating from begin() to end() visits every element exactly once in strictly ascending key order, for every map content. Pointers, references and iterators to an element stay valid and keep designating the same key and value across any later insertions, and two iterators of a map compare equal exactly when they designate the same element or are both end().',
 ['histories','inputs'],'every map content reachable by insertions in any order, with references taken at any point of the history',
 'no test iterates a map or keeps a reference across an insertion',
 [I+'nanomap.h'],[('iterator ++ by upper_bound','nanomap.h map::iterator::operator++'),('nodes are never moved, only relinked','nanomap.h map::__rotate')],
 [('Node','heap node per element','nanomap.h')],['begin/end','operator++','operator==/!=','addresses of elements'])
p('C08','maps own their nodes: copies are independent, nothing leaks or is freed twice',
 'Copy construction and assignment of a map produce an independent map with equal contents: later changes to one never show in the other, and self-assignment changes nothing. For any history over any number of maps, every key and value object constructed is destroyed exactly once by the time the maps are gone, and every allocation is released exactly once.',
 ['histories'],'every history of insertions, copies, assignments and destructions over several maps',
 'the only map in the tests is never copied and its destruction is not observed',
 [I+'nanomap.h'],[('recursive node deletion','nanomap.h map::__delete, ~map')],[('root','owned tree','nanomap.h')],['instrumented key and value types','replaced operator new/delete'])
p('C09','map lookups and insertions stay logarithmic for every insertion order',
 'Whatever the order in which keys are inserted (ascending, descending, or adversarially interleaved), the number of key comparisons made by a find, insert, upper_bound or iterator increment on a map of n elements, or on a copy of it, stays within a small constant multiple of log2(n+1); it never grows linearly with n.',
 ['histories','inputs'],'every insertion order, in particular sorted and alternating ones',
 'four keys cannot show depth; a lost rotation or a constant priority still returns right answers',
 [I+'nanomap.h'],[('xorshift priorities and heap rotations','nanomap.h priority_rand, map::__insert')],[('pri','heap priority','nanomap.h Node')],['key type counting comparisons'])
p('C10','unique_ptr deletes each owned object exactly once, through its deleter',
 'For any history of construction, move construction, move assignment (including converting moves), reset, release, swap and destruction of unique_ptrs to objects or arrays, at most one unique_ptr owns a given object; the object is deleted exactly once, by the owner\'s deleter and in the matching form, precisely when its owner is reset to something else, assigned over or destroyed, and never after release. get, bool conversion, *, -> and [] always show the object currently owned, a moved-from or released pointer is empty, and the deleter object travels with ownership on move and swap.',
 ['histories'],'every history over several unique_ptr objects, with stateless, stateful and array deleters',
 'test-unique_ptr constructs one pointer and reads it',
 [I+'nanomemory.h'],[('reset order: store new, then delete old','nanomemory.h unique_ptr::reset'),('release nulls','nanomemory.h unique_ptr::release'),('move = reset(release)','nanomemory.h unique_ptr::operator=')],
 [('__ptr_','pointer and deleter','nanomemory.h')],['get','operator bool','deleter call log'])
p('C11','unique_ptr comparisons agree with the pointers they hold',
 'For any two unique_ptrs, ==, !=, <, >, <= and >= give the result of the same comparison on the raw pointers, and comparisons with nullptr (on either side) treat nullptr as the null pointer. In particular the six relations are mutually consistent and < is a strict total order.',
 ['inputs'],'all combinations of null, equal and distinct pointers, on both sides, single object and array forms',
 'no test compares unique_ptrs',
 [I+'nanomemory.h'],[('relational operators','nanomemory.h after unique_ptr')],(),['operator results'])
p('C12','optional is either empty or holds exactly one value',
 'After any history of construction, value and nullopt assignment, emplace, reset, copy, move and swap, an optional is engaged exactly when the history says so and then yields exactly the last value stored; value() on an empty optional throws bad_optional_access and value_or returns the alternative. Comparisons treat empty as less than any value and equal to empty; contained objects are constructed and destroyed exactly once each and copies are independent.',
 ['histories','inputs'],'every history over several optionals of a type with observable lifetime, including self-assignment, throwing copies and nested use',
 'test-optional constructs and reads one optional',
 [I+'nanooptional.h',I+'nonstd/optional.hpp'],[('has_value flag plus storage union','nonstd/optional.hpp optional')],[('has_value_, contained','engaged flag and storage','nonstd/optional.hpp')],['has_value','value','operator*','comparisons','instance counting element'])
p('C13','variant always holds exactly one alternative, the one last stored',
 'After any history of construction, converting assignment, emplace, copy, move and swap, index() names the alternative last stored, get/get_if/holds_alternative/visit give access to exactly that alternative with its value, and access to any other alternative is refused (an assertion failure, an exception or a null pointer), never granted. The previous alternative is destroyed exactly once on every change, and comparisons order by index first and value second.',
 ['histories','inputs'],'every history over several variants, every alternative as source and target of each change',
 'test-variant stores two alternatives once',
 [I+'nanovariant.h',I+'nonstd/variant.hpp'],[('type index plus storage','nonstd/variant.hpp variant')],[('type_index','current alternative','nonstd/variant.hpp')],['index','get','get_if','holds_alternative','visit','comparisons','instance counting alternatives'])
p('C14','any holds one value of one dynamic type and only gives it back as that type',
 'After any history of construction, assignment, emplace, reset, copy, move and swap, an any is empty or holds exactly the last value stored; any_cast to the exact stored type yields that value and any_cast to every other type throws bad_any_cast (with exceptions enabled) or yields null. Held objects are destroyed exactly once, and copies are independent.',
 ['histories','inputs'],'every history over several any objects and several held types',
 'no test covers any',
 [I+'nanoany.h',I+'nonstd/any.hpp'],[('type-erased placeholder with clone','nonstd/any.hpp any')],[('content','owned type-erased holder','nonstd/any.hpp')],['has_value','any_cast','type','instance counting element'])
p('C15','expected holds either a value or an error, never both or neither',
 'After any history of construction, assignment from values, errors and other expecteds, emplace, copy, move and swap, an expected is in the value state or the error state exactly as the history defines and yields exactly the last value or error stored; value() in the error state throws with that error and value_or returns the alternative. Contained objects are destroyed exactly once and comparisons agree with the state.',
 ['histories','inputs'],'every history over several expected objects, every combination of states on both sides of assignment and swap',
 'no test covers expected',
 [I+'nanoexpected.h',I+'nonstd/expected.hpp'],[('flag plus union storage','nonstd/expected.hpp expected')],[('m_has_value','state flag','nonstd/expected.hpp')],['has_value','value','error','value_or','instance counting element'])
p('C16','to_string of every integer is its exact decimal representation',
 'For every int, unsigned int, 64-bit signed and 64-bit unsigned value, to_string yields the shortest decimal representation of that value: an optional minus sign, no leading zeros, digits that denote the value exactly. Minimum and maximum values are included, and nothing outside the result is written.',
 ['inputs'],'all 2^32 and 2^64 values of each type',
 'test-to_string formats a few small numbers; sign, width and buffer limits are not reached',
 [I+'nanostring.h'],[('digit loop into fixed buffer','nanostring.h to_string(int)/to_string(int64_t)')],(),['returned string','sanitizer'])
p('C17','to_string of floating point numbers is the shortest text that reads back exactly',
 'For every finite float and double, to_string yields a decimal text whose exact rational value rounds (to nearest, ties to even) to the same number, with no shorter significand having that property and, among the shortest, the one closest to the number; zero, negative zero, infinities and NaN yield their fixed texts. The text is one sign, digits with at most one point, and a decimal exponent, without redundant zeros.',
 ['inputs'],'all bit patterns of float and double, including subnormals, powers of two and boundaries of the exponent range',
 'tests compare a few values; shortest round trip depends on 128-bit table arithmetic for each exponent',
 [I+'__nanostrutil.h',I+'ryu/d2s_full_table.h',I+'nanostring.h'],[('Ryu f2s/d2s','__nanostrutil.h ryu::f2s_buffered, d2s_buffered')],[('power tables','128-bit multipliers per exponent','ryu/d2s_full_table.h')],['returned string'])
p('C18','stod and the string-to-float parser round correctly',
 'For every valid decimal text (optional sign, digits with optional fraction, optional exponent) within the supported digit count, stod yields the double nearest to the exact decimal value, ties to even, including overflow to infinity, underflow to zero and subnormals; the float parser does the same for float. stod(to_string(x)) is x for every finite x, and a text that is not a number yields NaN rather than a number.',
 ['inputs'],'all decimal texts up to the supported number of digits, with any exponent',
 'the stof test does not link and stod is untested; halfway cases need exact big-number comparison',
 [I+'__nanostrutil.h',I+'nanostring.h'],[('Ryu s2d/s2f','__nanostrutil.h ryu::s2d_n, s2f_n')],(),['returned bits','status'])
p('C19','siphash computes SipHash-2-4 for every message and key',
 'For every message of any length, every 16-byte key and both output lengths, siphash writes exactly the SipHash-2-4 value of the message under the key and nothing else; the result depends on the message bytes and the key only, not on alignment or surrounding memory.',
 ['inputs'],'all messages of every length (in particular every residue modulo 8) and all keys',
 'no test calls it',
 ['src/hash.cc',I+'__hashfunc.h'],[('compression and finalisation rounds','src/hash.cc siphash')],[('v0..v3','SipHash state words','src/hash.cc')],['output bytes'])
p('C20','hash gives equal values equal hashes and distinguishes distinct scalars',
 'For every supported scalar type, equal values have equal hashes - in particular 0.0 and -0.0 - repeated calls give the same result, and distinct values of the integral types and distinct non-NaN values of float and double have distinct hashes. less agrees with operator<.',
 ['inputs'],'all values of bool, the integer types, float, double and nullptr',
 'no test calls hash or less',
 [I+'nanofunctional.h'],[('identity hash / bit reinterpretation','nanofunctional.h hash<T>, __scalar_hash')],(),['hash values'])
p('C21','algorithms min, max, max_element, fill and distance meet their definitions',
 'min and max return a reference to the smaller or larger argument, and to the first argument when they are equivalent; max_element returns the first position holding a largest element, or last for an empty range; fill sets exactly the elements of the range and nothing else; distance returns the number of steps between iterators; swap exchanges two values. None of them modifies anything else.',
 ['inputs'],'all ranges and values over a type with an observable order and identity, including empty ranges, equivalent elements and sub-ranges',
 'tests check a few distinct values on non-empty ranges; ties, sub-range bounds and references are not observed',
 [I+'nanoalgorithm.h',I+'nanoiterator.h',I+'nanotype_traits.h'],[('loops','nanoalgorithm.h')],(),['returned references/iterators','whole buffer'])
p('C22','floating point classification is exact for every bit pattern',
 'For every float and double bit pattern, isnan, isinf, isfinite and isnormal agree with the IEEE-754 meaning of its exponent and fraction fields, so exactly one of NaN, infinite, zero, subnormal and normal can hold. The sign bit never matters.',
 ['inputs'],'all 2^32 float and 2^64 double bit patterns',
 'a few NaNs and normal numbers are tested',
 [I+'nanomath.h'],[('bit tests','nanomath.h isnan/isinf/isfinite/isnormal')],(),['results per bit pattern'])
p('C23','fabs, copysign, fmin, fmax, clamp, floor and ceil are exact',
 'For every finite argument floor(x) is the largest integer not above x and ceil(x) the smallest integer not below x; fabs(x) has the magnitude of x and is not negative, copysign(x,y), provided for float, has the magnitude of x and the sign of y. fmin and fmax return the smaller or larger argument and the other argument when one is NaN, and clamp returns the value limited to its bounds.',
 ['inputs'],'all float (and, where templated, double) bit patterns including infinities, NaN, signed zeros, subnormals and magnitudes beyond the integer range',
 'tests use a few values of small magnitude',
 [I+'nanomath.h'],[('arithmetic/bit implementations','nanomath.h')],(),['result bits'])
p('C24','numeric_limits describe the actual arithmetic types',
 'For each supported type, min, max, digits10 and epsilon are those of the type as implemented on this platform: min and max are the extreme (for floating types: smallest positive normal and largest finite) values, digits10 is the number of decimal digits always representable, epsilon the gap above one; infinity and NaN members are an infinity and NaNs.',
 ['configurations','inputs'],'every specialised type and every member',
 'test-limits checks part of the table',
 [I+'nanolimits.h'],[('constant table','nanolimits.h numeric_limits')],(),['member values as bit patterns'])
p('C25','pair and tuple keep their components and compare lexicographically',
 'make_pair, make_tuple and the constructors store exactly the given components (and value-initialised ones when none are given), which get, first and second return in order, through copies and assignments; ==, < (and for tuples the derived relations) are componentwise equality and lexicographic order. forward and move preserve the referenced object and its value category, and move_if_noexcept copies only where moving could throw and copying is possible.',
 ['inputs'],'all component values, including ties in leading components, for several arities and types',
 'no test compares pairs; tuple is untested',
 [I+'nanoutility.h',I+'nanotuple.h',I+'tao/tuple/tuple.hpp'],[('componentwise operators','nanoutility.h; tao/tuple/tuple.hpp')],(),['components','relation results'])
p('C26','stringstream accumulates exactly what is written to it',
 'After any sequence of insertions, str() is the concatenation of the texts written since construction or the last clear, in order, whatever characters they contain (a C string ends at its first NUL); clear empties it, and moving a stringstream transfers its content and leaves the source empty. Nothing else changes the content except writes through the reference str() returns.',
 ['histories'],'every history of writes, clears and moves over several streams',
 'no test covers streams',
 [I+'nanosstream.h',I+'nanostring.h'],[('string append','nanosstream.h stringstream::operator<<')],[('str_','accumulated text','nanosstream.h')],['str()'])
p('C27','compile-time ratios are exact, reduced fractions',
 'For every numerator and non-zero denominator within range, ratio<N,D> has num and den coprime with den positive and num/den equal to N/D; ratio_add, subtract, multiply, divide and the comparisons, where provided, agree with rational arithmetic. The predefined SI ratios have their exact values.',
 ['inputs','programs'],'all representable numerators and denominators of either sign',
 'no test instantiates ratio',
 [I+'nanoratio.h'],[('gcd and sign normalisation','nanoratio.h')],(),['num','den'])
p('C28','type traits classify and transform types as the standard defines',
 'For every type built from fundamental, pointer, reference, array, function, class, enum and cv-qualified types, each provided trait (is_same, is_void, is_integral, is_floating_point, is_array, is_pointer, is_reference, is_const, is_signed, remove_*, add_*, conditional, enable_if, decay, rank, extent and the others) yields the value or type the C++ standard prescribes.',
 ['programs','inputs'],'all types generated by the type constructors up to a nesting depth',
 'the type_traits sandbox program prints a few; the space of compound types is not covered',
 [I+'nanotype_traits.h'],[('template specialisations','nanotype_traits.h')],(),['trait values and types'])
p('C29','thread queue is a bounded FIFO between a producer and a consumer',
 'With one producer and one consumer thread, under every schedule, consume returns exactly the values produced (preloaded ones first), each once and in order; no more than the given number of values is ever held, a full queue makes produce wait and an empty one makes consume wait, with no lost wakeup. Produce returns non-zero exactly when the value was added and zero on timeout; consume returns NULL only when its timeout elapsed without a value; count never shows more values than the queue can hold and is exact when nothing is in progress.',
 ['schedules','histories'],'every interleaving of one producer and one consumer, every capacity and preload, infinite, zero and finite timeouts',
 'no test starts a thread',
 ['src/libs_thread.h'],[('atomic count plus two signals','src/libs_thread.h thread_queue_produce/consume'),('ring indices','src/libs_thread.h thread_queue_t')],[('count, head, tail, values','ring buffer','src/libs_thread.h thread_queue_t')],['call/return histories'])
p('C30','thread mutex gives mutual exclusion and progress',
 'Under every schedule at most one thread is between returning from lock and calling unlock on the same mutex, everything done in one critical section is visible in the next, and a thread waiting for a mutex that is released and not taken again obtains it. Different mutexes do not interfere.',
 ['schedules'],'every interleaving of several threads over several mutexes',
 'no test starts a thread',
 ['src/libs_thread.h'],[('pthread mutex in a fixed-size buffer','src/libs_thread.h thread_mutex_*')],[('mutex','lock state','src/libs_thread.h')],['call/return histories'])
p('C31','thread signal is an auto-reset event with working timeouts',
 'Under every schedule each wait that succeeds consumes exactly one raised state: a raise with no waiter is remembered until one wait takes it, repeated raises before a wait count once, and a raise never releases two waits. Wait returns non-zero when it was signalled and zero when its timeout elapsed without it, never returns zero before the requested time has passed (to the microsecond resolution of the clock it reads) nor long after it, and a wait on a raised signal returns at once; a blocked wait is woken by a raise.',
 ['schedules','inputs'],'every interleaving of raisers and waiters, every timeout, every phase of the clocks, spurious wakeups included',
 'no test starts a thread or waits',
 ['src/libs_thread.h'],[('condition variable with value flag','src/libs_thread.h thread_signal_wait/raise'),('absolute deadline computation','src/libs_thread.h thread_signal_wait')],[('value','raised flag','src/libs_thread.h internal signal struct')],['call/return histories with virtual time'])
p('C32','thread atomics are linearizable and return the previous value',
 'Under every schedule the load, store, inc, dec, add, sub, swap and compare_and_swap operations on an atomic int, and load, store, swap and compare_and_swap on an atomic pointer, behave as if executed one at a time in an order consistent with real time. Each read-modify-write returns the value before it, compare_and_swap stores only when that equals the expected value, and a store or swap leaves exactly the desired value. What a thread did before an operation is visible, without a data race, to every thread whose own operation observes its effect.',
 ['schedules','histories'],'every interleaving of several threads using any mix of the operations',
 'no test uses the atomics',
 ['src/libs_thread.h'],[('__sync builtins','src/libs_thread.h thread_atomic_*')],[('i / ptr','atomic cell','src/libs_thread.h')],['call/return histories'])
p('C33','threads run once, join returns their exit code, identities are consistent',
 'thread_create runs the given function exactly once with the given argument; join returns only after it finished and gives the value it returned or passed to thread_exit, and thread_exit stops only the calling thread. thread_current_thread_id is equal for two calls in the same thread and different between threads that are alive together; join followed by destroy, or destroy alone, releases the thread exactly once.',
 ['schedules'],'every interleaving of creators and created threads, any number and order of joins, any return value',
 'no test starts a thread',
 ['src/libs_thread.h','src/nanothread.cc'],[('pthread_create/join/exit','src/libs_thread.h thread_create/join/destroy/exit')],[('thread','native handle','src/libs_thread.h')],['call/return histories','interposed pthread calls'])
p('C34','thread local storage is private to each thread and slot',
 'thread_tls_get returns the value last set by the same thread in the same slot, or NULL if that thread never set it, whatever other threads and other slots do, in every schedule. Every created slot is usable and destroying one slot leaves the others unchanged.',
 ['schedules','histories'],'every interleaving of sets and gets by several threads on several slots',
 'no test uses it',
 ['src/libs_thread.h'],[('pthread keys','src/libs_thread.h thread_tls_*')],[('slot x thread','value','src/libs_thread.h')],['call/return histories'])
p('C35','timer waits at least the requested time',
 'thread_timer_wait returns no earlier than the requested number of nanoseconds after it was called and, on an otherwise idle system, not much later, for every requested duration including zero and durations of several seconds, even if the sleep is interrupted.',
 ['inputs','fault_sequences'],'every duration and every placement of interruptions',
 'no test uses it',
 ['src/libs_thread.h'],[('nanosleep','src/libs_thread.h thread_timer_wait')],(),['virtual clock'])
p('C36','elementary functions keep their documented accuracy, parity and exact identities',
 'Accuracy (plus half an ulp of the answer): exp within 230 ulp for |x| <= 87.33; log within 7.62939e-6 and log10 within 3.8147e-6 for every positive normal x; sqrt within 0.18 percent for every positive normal x; cbrt within 12 ulp, and within 8.14687e-14 for |x| < 1e-38; sin within 1.19209e-7 and cos within 4.33127e-7 on [-2pi,2pi], 2.5e-7 and 6e-7 for |x| <= 8192, 5e-6 for |x| <= 131072, and |sin|, |cos| <= 1 for |x| <= 2e9; tan within 4e-7 / cos(x)^2 for |x| <= 8192; sinh within 1.19209e-7 on [-1,1] and within 178 ulp up to |x| = 87.33, cosh within 178 ulp for |x| <= 87.33; tanh within 3.12924e-6 and erf within 1.93715e-6 everywhere; erfc within 1.90735e-6 on [-4,4]; erf(ierf(x)) within 1e-6 of x for |x| <= 0.99 and within 4e-5 for |x| < 1; pow(x,y), for normal x, |y| <= 256 and |y ln x| <= 86, within a relative error of 2.75e-5 + 5.3e-6|y| + 1.2e-7|y ln x|. Parity, exactly: sinh, tanh, erf, ierf, cbrt are odd, cosh is even. Identities, exactly: exp(0) = cosh(0) = cos(0) = erfc(0) = 1; log(1) = log10(1) = 0, log(0) = log10(0) = -infinity; sqrt and cbrt return zeros and +infinity (cbrt both infinities) unchanged, sqrt(1) = 1, sqrt of a negative number or NaN is NaN; pow(x,0) = 1, pow(x,1) = x, pow(x,2) = x*x correctly rounded and limited to the largest float; for negative x pow has the sign of an integer power and is 0 for any other power (|y| >= 1e-6).',
 ['inputs'],'all float arguments of fifteen functions',
 'tests sample a handful of points per function',
 [I+'nanomath.h'],[('range reductions and polynomials','nanomath.h fast_exp2, fast_log2, sin, cos, tan'),('iterations','nanomath.h sqrt, cbrt')],(),['result bits'])
p('C37','memcpy copies exactly the requested bytes',
 'memcpy(dest, src, n) makes the n bytes at dest equal to the n bytes at src, changes no other byte, and returns dest, for every size, content and alignment of non-overlapping buffers.',
 ['inputs'],'all sizes including zero, all alignments and contents',
 'no test calls it',
 [I+'nanocstring.h'],[('byte loop','nanocstring.h memcpy')],(),['whole buffers'])

p('C38','fast_float::from_chars reads the longest number and rounds it correctly',
 'fast_float::from_chars(first, last, value) for float and double consumes exactly the longest prefix of the range that is a number in the accepted format - an optional minus sign (no plus sign, no leading space), digits with at most one decimal point and at least one digit, and, depending on the format, an optional (general), no (fixed) or a mandatory (scientific) exponent - and stores the floating point value nearest to that number, halfway cases to even, overflow giving an infinity and underflow a zero of the right sign. In every format an exponent that is not complete is left unread. A decimal comma is accepted instead of the point when asked for. If there is no number, the words nan, nan(...), inf and infinity in any case give a NaN or infinity of the right sign; otherwise ptr equals first, ec is invalid_argument and value is unchanged. Nothing outside the range is read.',
 ['inputs'],'every text and every number of digits, in every format',
 'no test calls it; the text conversions use only a part of it',
 [I+'fast_float/fast_float.h',I+'fast_float/parse_number.h',I+'fast_float/ascii_number.h',I+'fast_float/decimal_to_binary.h',I+'fast_float/digit_comparison.h',I+'fast_float/bigint.h'],[('scanning','ascii_number.h parse_number_string'),('Lemire multiplication','decimal_to_binary.h compute_float'),('exact comparison','digit_comparison.h digit_comp'),('nan, inf','parse_number.h parse_infnan')],(),['ptr','ec','value bits'])
p('C39','compile-time integer sequences denote the sequences the standard defines',
 'For every tao::seq sequence: integer_sequence knows its type, values and size; make_integer_sequence<T,N> and make_index_sequence<N> are 0..N-1 for every N up to thousands and index_sequence_for counts its arguments; sum, partial_sum<I>, exclusive_scan and inclusive_scan are the sums of all, of the first I, of those before and of those up to each position; select and at_index give the I-th value, map the values at the mapped indices; plus, minus and zip combine equally long sequences position by position in the common type; is_all is the conjunction of its arguments. Each is usable in constant expressions.',
 ['inputs'],'every integer type, length and value',
 'no test instantiates them on their own',
 [I+'tao/seq/integer_sequence.hpp',I+'tao/seq/make_integer_sequence.hpp',I+'tao/seq/sum.hpp',I+'tao/seq/partial_sum.hpp',I+'tao/seq/zip.hpp',I+'tao/seq/map.hpp',I+'tao/seq/select.hpp'],[('doubling','make_integer_sequence.hpp generate_sequence'),('scans','partial_sum.hpp, exclusive_scan.hpp, inclusive_scan.hpp')],(),['type','values','size'])
p('C40','exceptions keep their text and error, and are caught by every base',
 'With exceptions enabled: an exception thrown by value is caught by a handler of its own type and of each of its bases (nanostl::exception; bad_expected_access<void> for every bad_expected_access; logic_error for bad_optional_access and user classes derived from it), and what() through any of them, also after being thrown on, gives the text of the thrown object. A logic_error owns its text: it is the text given at construction whatever later happens to the argument or to objects copied from or to it, including by assignment and after the other object is destroyed. bad_expected_access gives a copy of the error held. An exception deleted through a pointer to nanostl::exception is destroyed completely, once; nothing leaks. value() on an empty optional or on an expected holding an error throws bad_optional_access or bad_expected_access with that error, whether called on an lvalue, a constant or an expiring object; an expected holding a captured exception throws that exception, one holding an error_code a system_error with it. error() of an expiring bad_expected_access moves the error out, every other form leaves it.',
 ['histories','inputs'],'every history of constructing, copying, assigning, throwing, catching and destroying exceptions, every text and error',
 'tests are built without exceptions',
 [I+'nanoexception.h',I+'nanostdexcept.h',I+'nonstd/expected.hpp',I+'nonstd/optional.hpp'],[('text ownership','nanostdexcept.h logic_error'),('virtual what and destructor','nanoexception.h exception'),('throwing','optional.hpp, expected.hpp value()')],[('exception objects','kind, text, error','user code')],['what()','error()','the handler entered','live error objects'])
p('C41','output streams print what was inserted, in order, once, at the flush',
 'For every history of insertions and flushes over cout and ostream objects of the program: flushing a stream writes to the standard output exactly the texts inserted into that stream since its last flush, in insertion order, and nothing is written at any other moment. A C string or string inserts its characters; bool inserts 0 or 1; integers of every size insert their decimal text and float and double the text to_string gives. Streams do not affect each other, an insertion returns its stream, and the headers can be included by several translation units of one program.',
 ['histories','inputs'],'every history of insertions and flushes over several streams, every text and value of the inserted types',
 'no test covers ostream',
 [I+'nanoiostream.h',I+'nanoios.h',I+'nanostring.h'],[('accumulation','nanoiostream.h operator<<'),('flush','nanoiostream.h ostream::flush')],[('_ss','pending text','nanoiostream.h')],['standard output'])
p('C42','growing a sequence costs amortised constant time and bounded storage',
 'For every history of appending one by one (push_back, resize by one, +=, <<), appending several, removing from the end, erasing, clearing, assigning, copying and comparing vectors, valarrays, strings and stringstreams, the total work done and memory requested is at most a constant multiple of the number of elements the operations were asked to handle - n appends cost O(n) together, never O(n*n), also after clear and when the size moves back and forth over one value - and the storage held at any time is at most a constant multiple of the largest sizes the live objects have had. size, empty, capacity, element access, begin, end, data, c_str, pop_back and swap take constant time, erase time proportional to the elements behind the position, comparison to the shorter string.',
 ['histories'],'every history of growing, shrinking and copying, at every size',
 'results are right whatever the growth policy; only long histories show its cost',
 [I+'nanovector.h',I+'nanovalarray.h',I+'nanostring.h',I+'nanosstream.h',I+'nanoallocator.h'],[('growth policy','vector::recommended_size, resize'),('append','vector::push_back, basic_string::operator+=, stringstream::operator<<')],[('capacity_','elements allocated','nanovector.h')],['execution counts','operator new'])
p('C43','different objects used from different threads never race',
 'The library shares no hidden state: when several threads use it without synchronising, and no object that one thread changes (creates, assigns, modifies, destroys) is used by another meanwhile, no two threads touch the same memory with one of them writing - neither when each thread works on its own vectors, valarrays, strings, stringstreams, maps, optionals, variants, anys, expecteds, unique_ptrs, tuples and pairs, nor when several threads read the same object through its const members, compare or copy from it, nor when they call the free functions: to_string, stof/stod, fast_float::from_chars, the math and valarray functions, algorithms, memcpy and its like, hashes, siphash. Read-only operations really only read. Constants initialised once by the compiler and atomic accesses do not count as races.',
 ['threads','histories'],'every interleaving of disciplined threads, over every mix of objects and functions',
 'hidden static or mutable state gives right answers in every single-threaded test',
 [I+'nanomap.h',I+'nanovector.h',I+'nanostring.h',I+'nanovariant.h','src/hash.cc',I+'nanomath.h',I+'fast_float/fast_float.h'],[('priorities of map nodes','nanomap.h priority_rand'),('const members','every container header'),('conversion buffers','nanostring.h to_string, stof, stod')],[('y','state of the generator of node priorities','nanomap.h priority_rand')],['memory accesses (compiler instrumentation)'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80, (x['id'], len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))

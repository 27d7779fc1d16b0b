#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
P=[]
def p(id,title,statement,text,why,files,mech,state=(),observe=(),over=("inputs",)):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=["sources/"+f for f in files],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=None)))
DIG=("chunks","little-endian base-10 digits of |value|, no leading zero; sign in {-1,0,1}, 0 iff no digits","sources/int.hpp: sign_, chunks_")
p("I01","Int addition, subtraction, negation, ++ and -- are exact",
 "For all integers a and b of any length, a + b, a - b, a += b, a -= b, -a, +a, a.abs(), ++a and --a give exactly the mathematical result. This includes operands of different lengths and signs, carries and borrows that run through the whole number, and an operand that is the object itself (a += a, a -= a). Binary operators leave their operands unchanged.",
 "all pairs of integers (all signs, all digit lengths, aliased or not)",
 "Carry/borrow propagation depends on digit patterns of unbounded length; the tests try a few hand-written numbers.",
 ["int.hpp"],[("operator+=, operator-=, abs_inc, abs_dec, trim, abs_cmp","sources/int.hpp")],[DIG],["Int::operator+ - += -= ++ --, abs"])
p("I02","Int multiplication and factorial are exact",
 "For all integers a and b, a * b and a *= b (also a *= a) give exactly the mathematical product, with operands of * unchanged. For every n >= 0, n.factorial() is exactly n!, and for n < 0 it throws.",
 "all pairs of integers; all n","Column sums and carries over arbitrary digit strings; tests try a handful of products.",
 ["int.hpp"],[("operator*=, factorial","sources/int.hpp")],[DIG],["Int::operator*, *=, factorial"])
p("I03","Int division truncates and pairs with the remainder",
 "For all integers a and b != 0: a / b is the quotient truncated toward zero, a == (a / b) * b + a % b, |a % b| < |b|, and a % b is zero or has the sign of a; /= and %= agree with / and %, also when the operand is the object itself. Dividing or reducing by zero throws and changes neither operand.",
 "all pairs of integers, all sign combinations, all lengths","Long division loops over digits; sign handling has four combinations times arbitrary lengths; tests sample few.",
 ["int.hpp"],[("operator/=, operator%=","sources/int.hpp")],[DIG],["Int::operator/ % /= %="])
p("I04","Int comparison, sign, parity and digit count follow the value",
 "For all integers a and b however they were produced: a == b exactly when they have the same value, a <=> b has the sign of a - b (so <, <=, >, >= are the mathematical order). is_zero, is_positive, is_negative, is_even and is_odd state exactly the mathematical fact, and digits() is the number of decimal digits (0 for zero).",
 "all integers and pairs, produced by any chain of operations","Holds only if every operation leaves a canonical representation (no leading zeros, no negative zero); a test sees only the histories it writes.",
 ["int.hpp"],[("operator==, operator<=>, abs_cmp, digits, is_*","sources/int.hpp"),("trim","sources/int.hpp")],[DIG],["Int comparison operators, is_*, digits"],("inputs","histories"))
p("I05","Int text and machine-integer conversions are exact both ways",
 "A string is accepted as an Int exactly when it is an optional sign followed by one or more decimal digits (anything else throws), and the value is the one written, leading zeros and -0 included. Printing gives the canonical decimal text ('-' for negatives, no leading zeros, \"0\" for zero), so parsing printed text returns the same integer. Int(i) equals i for every int i (INT_MIN included), and to_integer<T>() returns the exact value whenever T can represent it.",
 "all strings, all ints, all integers","The accept/reject language and the round trip range over all strings and lengths; tests sample a few literals.",
 ["int.hpp"],[("Int(int), Int(const char*), is_integer, operator<<, operator>>, to_integer","sources/int.hpp")],[DIG],["Int constructors, <<, >>, to_integer"])
p("I06","Int::pow is exact, with and without a modulus",
 "For all integers b and e >= 0, pow(b, e) is exactly b to the power e (with 0 to the power 0 equal to 1), and for m != 0 pow(b, e, m) equals pow(b, e) % m, also for |b| = 1, e = 0, negative b and negative m. For e < 0, pow(0, e) throws, pow(1, e) and pow(-1, e) are the exact +-1 (reduced by m), and any other base gives 0.",
 "all bases, exponents and moduli","Square-and-multiply is an induction over the exponent bits; tests try few triples.",
 ["int.hpp"],[("Int::pow","sources/int.hpp")],[DIG],["Int::pow"])
p("I07","Int::sqrt and Int::log are exact floors and always return",
 "For every n >= 0, Int::sqrt(n) returns (it terminates) the r with r*r <= n < (r+1)*(r+1), and for n < 0 it throws. For n >= 1 and base >= 2, Int::log(n, base) is the k with base^k <= n < base^(k+1), for base 10 as for any other, and outside that domain it throws.",
 "all integers n and all bases","Newton iteration may oscillate or stop early only for particular n (perfect squares minus one); tests try few n.",
 ["int.hpp"],[("Int::sqrt, Int::log","sources/int.hpp")],[DIG],["Int::sqrt, Int::log"])
p("I08","Int::gcd and Int::lcm are the mathematical gcd and lcm",
 "For all integers a and b, gcd(a, b) is non-negative, divides both, and every common divisor divides it (gcd(0, 0) = 0); lcm(a, b) is non-negative, is 0 exactly when a or b is 0, and satisfies lcm(a, b) * gcd(a, b) == |a * b|. Signs and argument order do not matter.",
 "all pairs of integers","Euclid's loop is an induction over the remainders; tests try few pairs.",
 ["int.hpp","utility.hpp"],[("Int::gcd, Int::lcm, internal::gcd","sources/int.hpp, sources/utility.hpp")],[DIG],["Int::gcd, Int::lcm"])
p("I09","Int primality is exact and next_prime is the next prime",
 "For every integer n, n.is_prime() is true exactly when n >= 2 and no integer d with 2 <= d < n divides n. n.next_prime() is a prime greater than n, and no prime lies strictly between.",
 "all integers","Trial division is correct only by a number-theoretic argument for every n; tests try a list of primes.",
 ["int.hpp"],[("is_prime, next_prime","sources/int.hpp")],[DIG],["Int::is_prime, Int::next_prime"])
p("I10","Int::random has the requested number of digits",
 "For every d >= 0, Int::random(d) is a non-negative integer with exactly d decimal digits (0 for d = 0), whatever the random source returns; without an argument it has 0 to 4300 digits; for d < -1 it throws. The result is a proper integer: it compares, prints and computes like one with the same digits made any other way.",
 "all d and all outcomes of the random source","The random source decides which digits appear (a leading 0 has probability 1/10); tests cannot force outcomes.",
 ["int.hpp"],[("Int::random","sources/int.hpp")],[DIG],["Int::random"],("inputs","histories"))
FR=("fraction","numerator and denominator, denominator > 0, gcd 1","sources/fraction.hpp: numerator_, denominator_")
p("F01","Fraction arithmetic is exact and in lowest terms",
 "For all int numerators and non-zero int denominators whose reduced value fits, a Fraction is kept in lowest terms with a positive denominator; +, -, *, /, %, unary -, abs, ++, -- and the compound forms (also with the object itself as operand) give the exact rational result whenever its reduced numerator and denominator fit in int. Conversion to double gives the double nearest to the quotient. A zero denominator, or division or remainder by a zero fraction, throws and leaves the operands unchanged.",
 "all representable fractions and pairs","Intermediate products overflow only for large operands; sign and gcd normalisation range over all int pairs; tests use small ones.",
 ["fraction.hpp"],[("Fraction(long long,long long), operators","sources/fraction.hpp")],[FR],["Fraction constructor and operators"])
p("F02","Fraction comparison is the exact order of rationals",
 "For all fractions a/b and c/d: ==, !=, <, <=, >, >= decide exactly the comparison of the rational values, with no overflow or rounding, and equal fractions have equal hashes. Fraction gcd and lcm, whenever representable, are the greatest fraction that divides both operands a whole number of times and the least non-negative one both divide; lcm is zero exactly when an operand is. Both always return.",
 "all pairs of representable fractions","Cross products exceed int and double precision hides differences for large operands; tests use small ones.",
 ["fraction.hpp"],[("operator==, operator<=>, hash","sources/fraction.hpp")],[FR],["Fraction comparison operators"])
p("X01","Complex arithmetic follows the field formulas",
 "For all finite complex numbers, +, -, *, /, unary -, conjugate and the compound forms (also with the object itself as operand) compute the textbook real and imaginary parts up to floating-point rounding; abs() and arg() are the modulus and phase; pow(z, 0) is 1. Division by a zero complex, and zero to a non-zero power, throw and leave the operands unchanged.",
 "all pairs of finite complex numbers","Real arguments range over all doubles, signs and quadrants; tests try few exactly representable ones.",
 ["complex.hpp"],[("operators, abs, arg, pow","sources/complex.hpp")],[("complex","real and imaginary part","sources/complex.hpp: real_, imag_")],["Complex operators"])
p("H01","Equal values have equal hashes",
 "For Int, Str, Fraction and Complex: whenever a == b, std::hash gives both the same value, however the two values were produced. So each of these types works as the key of an unordered container.",
 "all pairs of equal values of any history","Equality classes have many representatives and histories; tests compare a few fixed ones.",
 ["int.hpp","str.hpp","fraction.hpp","complex.hpp"],[("std::hash specialisations","sources/*.hpp")],[DIG,FR],["std::hash<Int>, std::hash<Str>, std::hash<Fraction>, std::hash<Complex>"],("inputs","histories"))
SEQ=("sequence","the elements in order","sources/list.hpp: vector_, sources/deque.hpp: deque_, sources/str.hpp: str_")
p("L01","Indexing accepts exactly -n <= i < n and throws otherwise",
 "For a List, Deque or Str of n elements and every int i: x[i] refers to element i when 0 <= i < n and to element n + i when -n <= i < 0, and throws for every other i, INT_MIN and INT_MAX included. Access through the reference of a non-const List or Deque changes exactly that element.",
 "all sizes and all int indices","Ranges over all sizes and all 2^32 indices; tests try few.",
 ["list.hpp","deque.hpp","str.hpp","utility.hpp"],[("operator[], check_bounds","sources/list.hpp, deque.hpp, str.hpp, utility.hpp")],[SEQ],["operator[]"])
p("L02","List edits change exactly the addressed elements",
 "insert, remove, += element, += list, + and -, -=, / and /=, erase, extend and clear give exactly the sequence their documentation describes (first occurrence for -, all occurrences for /, [start, stop) for erase, negative indices counted from the end), with every other element kept in order; non-compound forms leave the operand unchanged. An element or list operand taken from the list itself works like a copy of it. A call with an index out of range (or start > stop for erase) throws and leaves the list unchanged.",
 "all lists, elements and int arguments","Index arithmetic and aliasing over all sizes and arguments; tests use short lists with typical indices.",
 ["list.hpp","utility.hpp"],[("insert, remove, erase, operator+= -= /= + - /, extend, clear","sources/list.hpp")],[SEQ],["List modifiers"])
p("L03","List search reports exactly the matching positions",
 "index(e, start, stop) is the smallest position p with start <= p < stop whose element equals e, or -1 if there is none (start below 0 and stop beyond the size are clamped, and start >= stop gives -1); contains is exactly index != -1, find is the first match in the whole list or end(), and count is the number of matches. No argument makes the search read outside the list.",
 "all lists, elements and int ranges","Range clamping for all int pairs; tests use in-range arguments.",
 ["list.hpp"],[("find, index, contains, count","sources/list.hpp")],[SEQ],["List::find, index, contains, count"])
p("L04","Slices select exactly start, start+step, ... before stop",
 "For a List or Str of n elements, slice(start, stop, step) with step != 0, -n <= start < n and -n-1 <= stop <= n returns exactly the elements at start, start+step, start+2*step, ... strictly before stop in the direction of step (negative start and stop counted from the end), in that order, for every int step. A zero step or an index out of range throws, and the operand is never changed.",
 "all sizes and all int triples","Three int arguments with sign cases and overflow at the extremes; tests try few.",
 ["list.hpp","str.hpp"],[("List::slice, Str::slice","sources/list.hpp, sources/str.hpp")],[SEQ],["slice"])
p("L05","Rotation and reversal permute exactly as documented",
 "For a List, Deque or Str of n elements and every int k, rotating left by k puts element (i + k) mod n (mathematical mod) at position i, rotating right by k is rotating left by -k, and reverse puts element n-1-i at position i; sequences of length 0 and 1 are unchanged. This holds for every int k, INT_MIN included, and for |k| larger than n.",
 "all sequences and all int k","k ranges over all ints, where negation and size() - k overflow; tests use small k.",
 ["list.hpp","deque.hpp","str.hpp"],[("operator>>=, <<=, >>, <<, reverse","sources/list.hpp, deque.hpp, str.hpp")],[SEQ],["rotation operators, reverse"])
p("L06","List uniquify, sort, filter and map keep order and elements",
 "uniquify keeps exactly the first occurrence of every distinct element in the original order; filter keeps exactly the elements that satisfy the predicate in the original order; map applies the action exactly once to each element, front to back; sort yields a permutation that is ordered by the comparator, with equivalent elements in their original order. Nothing else of the list changes.",
 "all lists, predicates, actions and strict weak orders","Stability, order and multiplicity for arbitrary lists; tests use one or two lists each.",
 ["list.hpp"],[("uniquify, sort, filter, map","sources/list.hpp")],[SEQ],["List::uniquify, sort, filter, map"])
p("L07","Repetition and concatenation build exactly the joined sequence",
 "For a List or Str x of n elements and times t >= 0, x * t (and x *= t for List) has n * t elements, element i being x[i mod n]; t < 0 throws, and so does a result with INT_MAX or more elements, before anything is written. x + y has the elements of x followed by those of y, and x + e those of x followed by e; operands are unchanged.",
 "all sequences and all int t","n * t overflows only for large operands; tests use small ones.",
 ["list.hpp","str.hpp"],[("operator*, operator*=, operator+","sources/list.hpp, sources/str.hpp")],[SEQ],["operator*, operator+"])
p("D01","Deque push, pop and ends behave as a double-ended queue",
 "push_back and push_front add exactly one element at that end; pop_back and pop_front remove and return exactly the element at that end; front and back refer to the end elements; extend_back and extend_front insert the range, in its order, at that end; all other elements keep their order. On an empty deque front, back, pop_front and pop_back throw and change nothing.",
 "all deques, elements and operation histories","A double-ended queue is correct only for all interleavings of pushes and pops; tests run one short script.",
 ["deque.hpp"],[("push_*, pop_*, front, back, extend_*","sources/deque.hpp")],[SEQ],["Deque operations"],("inputs","histories"))
p("E01","Set holds each added element exactly once",
 "add inserts the element exactly if it was absent and returns whether it was; remove deletes exactly that element and returns whether it was present; contains, find and size describe exactly the current members; min and max are the smallest and largest member and pop removes and returns one member. No other member is affected, and min, max and pop on an empty set throw.",
 "all sets, elements and operation histories","Membership must hold for all histories of operations; tests run one short script.",
 ["set.hpp"],[("add, remove, contains, find, min, max, pop, extend, clear","sources/set.hpp")],[("set","the members","sources/set.hpp: set_")],["Set operations"],("inputs","histories"))
p("E02","Set algebra and subset tests are the mathematical ones",
 "For all sets A and B: A & B, A | B, A - B and A ^ B are exactly intersection, union, difference and symmetric difference, and the compound forms give the same (also A op= A); <=, <, >=, > are subset, proper subset, superset, proper superset, and == is equality of members. Binary operators leave the operands unchanged.",
 "all pairs of sets","Ranges over all pairs of sets (disjoint, nested, equal, empty); tests use a few.",
 ["set.hpp"],[("operator& | - ^, comparison operators","sources/set.hpp")],[("set","the members","sources/set.hpp: set_")],["Set operators"])
p("M01","Dict maps each key to the value it was added with",
 "add stores the pair exactly if the key was absent (an existing key keeps its value) and returns whether it stored it; remove deletes exactly that key and returns whether it was present; d[k] and get return the stored value, and for an absent key d[k] throws and inserts nothing while get returns the default. size, contains, keys, values, items, min, max and pop describe exactly the current pairs; min, max and pop on an empty dict throw.",
 "all dicts, keys, values and operation histories","The map must be right for all histories; tests run one short script.",
 ["dict.hpp"],[("add, remove, operator[], get, keys, values, items, min, max, pop","sources/dict.hpp")],[("map","the pairs","sources/dict.hpp: map_")],["Dict operations"],("inputs","histories"))
p("S01","Str search finds the leftmost match and counts without overlap",
 "find(p, start, stop) is the smallest position i >= start with p occurring completely inside [i, stop), or -1 if there is none (start below 0 and stop beyond the size are clamped); contains is exactly find != -1; count is the number of non-overlapping occurrences taken left to right (size() + 1 for the empty pattern); starts_with and ends_with decide prefix and suffix. No argument makes the search read outside the string.",
 "all strings, patterns (empty and self-overlapping included) and int ranges","Overlapping patterns and range ends over all strings; tests use short words.",
 ["str.hpp"],[("find, contains, count, starts_with, ends_with","sources/str.hpp")],[SEQ],["Str::find, contains, count, starts_with, ends_with"])
p("S02","Str split, join and replace rewrite exactly the separators",
 "split(sep, true) cuts the string at the non-overlapping left-to-right occurrences of sep, so sep.join of the parts is the string again; split(sep) is the same without the empty parts; an empty sep throws. join concatenates the parts with the separator between neighbours, and replace(old, new) replaces every non-overlapping occurrence of old, left to right (an empty old inserts new before, between and after all characters). Characters are arbitrary bytes, and the operands are unchanged.",
 "all strings and separators","Cut positions depend on overlaps, adjacency and ends for all strings; tests use short words.",
 ["str.hpp"],[("split, join, replace","sources/str.hpp")],[SEQ],["Str::split, join, replace"])
p("S03","Str::to_integer reads exactly blanks, sign, digits of the base",
 "For every string and base 2..36, to_integer(base) accepts exactly: blanks (space, tab, newline, return), an optional sign, one or more digits of that base in either case, blanks; and returns the exact integer written, of any length. Any other string, and any other base, throws.",
 "all strings and bases","The accepted language and the value range over all strings; tests sample literals.",
 ["str.hpp"],[("to_integer, get_event, char_to_integer","sources/str.hpp")],[SEQ],["Str::to_integer"])
p("S04","Str::to_decimal accepts exactly decimal literals and reads them",
 "For every string, to_decimal accepts exactly the documented inf and nan spellings and: blanks, an optional sign, digits with an optional point and at least one digit, an optional exponent (e or E, optional sign, digits), blanks; anything else throws. The result is the number written up to floating-point rounding, infinity or zero when it is out of the range of double, and never NaN for an ordinary literal.",
 "all strings","The accepted language and the value range over all strings; tests sample literals.",
 ["str.hpp"],[("to_decimal, get_event","sources/str.hpp")],[SEQ],["Str::to_decimal"])
p("S05","Str case, strip and erase change exactly the right characters",
 "lower and upper map exactly the ASCII letters to the other case and keep every other byte; strip() removes exactly the leading and trailing bytes 0..0x20 and strip(c) exactly the leading and trailing c; erase(start, stop) removes exactly [start, stop), and throws when start or stop is out of range or start > stop. The operand itself is never changed.",
 "all strings of arbitrary bytes","Every byte value at every position; tests use words.",
 ["str.hpp"],[("lower, upper, strip, erase","sources/str.hpp")],[SEQ],["Str::lower, upper, strip, erase"])
p("C01","Lists, deques and strings compare elementwise and lexicographically",
 "For all Lists, Deques and Strs x and y of one kind: x == y exactly when they have the same length and equal elements at every position (!= is the negation), and <, <=, >, >= and <=> are the lexicographic order of their elements, a proper prefix coming first. Characters of a Str are ordered as unsigned bytes, and a NUL character is a character like any other. Neither operand is changed, and x compared with itself is equal.",
 "all pairs of lists, deques and strings of all lengths and contents, aliased or not","The first differing position can lie anywhere, and the order at it depends on the elements' own order; tests compare a few short literals.",
 ["list.hpp","deque.hpp","str.hpp"],[("operator==, operator<=>","sources/list.hpp, deque.hpp, str.hpp")],[],["List, Deque and Str comparison operators"])
p("T01","Tuple keeps its elements and compares elementwise",
 "make_tuple(v1, ..., vn) has size n and get<i>() returns vi, rest() the tuple without the first element. Two tuples are equal exactly when they have the same size, the same element types and equal elements at every position, and != is the negation.",
 "all tuples of a type list, all element values","Ranges over all element values and shapes; tests compare a few literals.",
 ["tuple.hpp"],[("operator==, get, rest, size","sources/tuple.hpp")],[],["Tuple operations"])
p("P01","Printing a container shows exactly its elements in order",
 "Printing a List, Deque, Set, Dict, Tuple or Str writes the opening delimiter, every element exactly once in iteration order separated by \", \" (nothing between or after a single one, except the Tuple's trailing comma), and the closing delimiter; a Fraction prints n or n/d, a Complex (a+bj) or, exactly when its imaginary part is below zero, (a-|b|j), and nothing else is written. The printed object is not changed.",
 "all containers of all sizes","The separator logic must be right for every size; tests print a few.",
 ["utility.hpp","list.hpp","deque.hpp","set.hpp","dict.hpp","tuple.hpp","str.hpp","fraction.hpp","complex.hpp"],[("internal::print, operator<<","sources/*.hpp")],[SEQ],["operator<<"])
p("A01","Copies are independent, and moves and assignments keep the value",
 "For every type of the library: a copy or the target of an assignment has the value of the source and neither is changed when the other one is modified; assigning an object to itself keeps its value; the target of a move has the value the source had, and a moved-from Int, Fraction or Complex is zero and usable. Operations documented as producing a new object never change their operands.",
 "all values and histories","Sharing or stale state shows only in particular copy/modify histories; tests copy once and compare.",
 ["int.hpp","fraction.hpp","complex.hpp","list.hpp","deque.hpp","set.hpp","dict.hpp","str.hpp"],[("copy and move constructors and assignments","sources/*.hpp")],[DIG,FR,SEQ],["copy, move, assignment"],("inputs","histories"))
p("U01","No argument of a public operation causes undefined behaviour",
 "For every public operation of every class and all arguments within the stated limits, the operation either completes or throws std::runtime_error: it never accesses memory outside an object, dereferences an invalid iterator, overflows a signed integer, divides by zero or loops forever. The limits: containers and texts, results included, hold fewer than INT_MAX elements (an Int at most 10^9 digits); element types copy and compare without throwing; an iterator range is valid and does not point into the object it is added to; a C string is not null; to_integer<T>() is asked of a value that T can represent.",
 "all operations, all arguments (extreme ints, empty containers, aliased operands)","Undefined behaviour usually passes tests silently and depends on extreme arguments.",
 ["int.hpp","list.hpp","deque.hpp","set.hpp","dict.hpp","str.hpp","tuple.hpp","fraction.hpp","complex.hpp","utility.hpp"],[("check_bounds, check_empty, check_full, check_zero and index arithmetic","sources/utility.hpp, all classes")],[DIG,SEQ],["every public operation"])
p("S06","Str::format substitutes the arguments in order",
 "format(args...) replaces the successive {...} fields of the format string, left to right, by the printed arguments in order; all text outside the replaced fields is kept, fields beyond the arguments are kept as they are, and arguments beyond the fields are ignored.",
 "all format strings and arguments","Positions and numbers of fields range over all strings; tests use one or two.",
 ["str.hpp"],[("format, format_helper","sources/str.hpp")],[SEQ],["Str::format"])
p("R01","Reading from a stream consumes exactly one literal or reports the failure",
 "Reading an Int, Fraction or Complex from a stream skips the leading blanks, accepts exactly a literal of that type ended by a blank or the end of the stream (a or a/b; x, yj or x+yj; for Int the next word, read as Int(const char*) reads it), stores the number written (a Fraction in lowest terms), and leaves the stream right after the literal, not failed; any other text, the end of the stream and a stream that has already failed included, throws std::runtime_error or leaves the stream failed, and a read that throws leaves the number unchanged. Reading a Str takes exactly the next line, without its newline. Every read returns.",
 "all input texts and positions in them","The accepted language ranges over all texts, including truncated ones; tests sample literals.",
 ["fraction.hpp","complex.hpp","int.hpp","str.hpp"],[("operator>>(std::istream&, T&)","sources/int.hpp, sources/str.hpp, sources/fraction.hpp, sources/complex.hpp")],[],["operator>>"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P), [ (d['id'],len(d['title'])) for d in P if len(d['title'])>80])

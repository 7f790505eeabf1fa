"""writes /verif/properties.jsonl"""
import json
import os
ALLT = 'every digit type (binary and decimal, 8/16/32/64 bits)'
P = []


def p(id, title, statement, text, why, files, mech, over=('inputs',)):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


p('C01', 'Every operation returns a canonical number',
  'Every number returned by a public operation has digits below its radix and no leading zero digit, so equal values always have equal digit arrays. This holds for construction, arithmetic in all forms, shifts, powers, squares, parsing and decimal conversion.',
  'all operand values of ' + ALLT + ', for every public operation, including operands with long runs of zero or maximal digits',
  'Tests compare a few dozen results; a leading zero appears only when a borrow, carry or remainder happens to cancel the top digits, which few operand values do.',
  ['src/ubig.rs', 'src/ubig/support.rs', 'src/ubig/ops.rs', 'src/ubig/sub.rs', 'src/ubig/div.rs'],
  [('drop_leading_zeros', 'src/ubig/support.rs'), ('digit counts returned by the slice algorithms', 'src/ubig/sub.rs, src/ubig/mul.rs, src/ubig/div.rs'), ('UBig::new', 'src/ubig.rs')])
p('C02', 'Addition is exact',
  'For any two numbers, and for a number and a machine integer or single digit, addition returns the exact sum. It never panics and gives the same value whether the left operand is longer, shorter or of equal length.',
  'all values of both operands, all relative lengths, every carry pattern, ' + ALLT,
  'Tests fix particular operands; carries that run through several maximal digits, reach the end of the shorter operand or create a new digit depend on digit values that are astronomically rare in samples.',
  ['src/ubig/add.rs', 'src/ubig/ops.rs', 'src/digit.rs'],
  [('add_assign_big / add_big_into carry chain', 'src/ubig/add.rs'), ('Digit::add_carry_assign', 'src/digit.rs')])
p('C03', 'Subtraction is exact and fails exactly on underflow',
  'Subtracting a number, machine integer or single digit that is not larger returns the exact difference. Subtracting a larger one panics, in every operand form, and nothing else makes subtraction panic.',
  'all values of both operands, all relative lengths and borrow patterns, ' + ALLT,
  'The underflow boundary (equal top digits, difference decided by the lowest digit) and borrows through zero digits are not sampled by the fixed examples.',
  ['src/ubig/sub.rs', 'src/ubig/rsub.rs', 'src/ubig/ops.rs', 'src/digit.rs'],
  [('sub_assign_big / sub_big_into borrow chain and underflow test', 'src/ubig/sub.rs'), ('reverse subtraction', 'src/ubig/rsub.rs')])
p('C04', 'Multiplication is exact for every algorithm and size',
  'The product of two numbers is exact whatever their sizes, so the choice between schoolbook, Karatsuba and Toom-3 multiplication and the way unbalanced operands are split never shows. Multiplication never panics.',
  'all values of both operands, all pairs of lengths on either side of the algorithm cutoffs, ' + ALLT,
  'Karatsuba and Toom-3 go wrong on particular carries and signs of intermediate differences, which depend on digit values; tests use a few products per algorithm.',
  ['src/ubig/mul.rs', 'src/ubig/mul/long.rs', 'src/ubig/mul/karatsuba.rs', 'src/ubig/mul/toom3.rs'],
  [('algorithm selection and splitting', 'src/ubig/mul.rs'), ('Karatsuba recombination', 'src/ubig/mul/karatsuba.rs'), ('Toom-3 evaluation, interpolation and exact division by 3', 'src/ubig/mul/toom3.rs')])
p('C05', 'Squaring equals self-multiplication',
  'Squaring a number returns exactly its product with itself, whatever its size and whichever algorithm is selected. Squaring never panics.',
  'all values and lengths on either side of the algorithm cutoffs, ' + ALLT,
  'The squaring routines double cross products and share scratch space; the failing carries depend on digit values that the fixed tests do not have.',
  ['src/ubig/mul.rs', 'src/ubig/mul/long.rs', 'src/ubig/mul/karatsuba.rs', 'src/ubig/mul/toom3.rs'],
  [('square_into and its algorithm selection', 'src/ubig/mul.rs'), ('square_big_into', 'src/ubig/mul/long.rs')])
p('C06', 'Division returns the exact quotient and remainder',
  'Dividing a number by a nonzero number gives q and r with dividend = q * divisor + r and r < divisor, for division, remainder and combined division in every form. It never panics, whatever algorithm is selected.',
  'all values of dividend and nonzero divisor, all pairs of lengths on either side of the algorithm cutoffs, ' + ALLT,
  'Quotient-digit estimates need a second correction, or overflow a digit, for a vanishing fraction of operands; tests sample a handful of divisions.',
  ['src/ubig/div.rs', 'src/ubig/div/long.rs', 'src/ubig/div/bz.rs', 'src/ubig.rs'],
  [('normalisation and quotient digit estimate with corrections', 'src/ubig/div/long.rs'), ('two-digit divisors', 'src/ubig/div.rs'), ('Burnikel-Ziegler recursion', 'src/ubig/div/bz.rs')])
p('C07', 'Multiplication by a machine integer is exact',
  'Multiplying a number by any value of the digit\'s machine integer type, or by a digit, returns the exact product and never panics. This includes machine integers that are larger than a single decimal digit can hold.',
  'all values of the number and of the machine integer, ' + ALLT,
  'The two-digit path for decimal numbers has carries between three digits that depend on all values at once.',
  ['src/ubig/mul.rs', 'src/ubig/mul/long.rs', 'src/ubig/ops.rs', 'src/ubig.rs', 'src/digit.rs'],
  [('mul_digit / mul_pair_add_assign_digit', 'src/ubig/mul.rs'), ('DecimalDigit::split', 'src/digit.rs')])
p('C08', 'Division by a machine integer is exact',
  'Dividing a number by a nonzero machine integer or digit gives the exact quotient, and the remainder operation gives the exact remainder. Neither panics for a nonzero divisor, including divisors larger than a single decimal digit.',
  'all values of the number and of the nonzero machine integer, ' + ALLT,
  'Estimates in the two-digit decimal path and the reciprocal tricks in the digit code fail only for particular quotient digits.',
  ['src/ubig/div.rs', 'src/ubig/ops.rs', 'src/digit.rs'],
  [('div_assign_digit / rem_digit', 'src/ubig/div.rs'), ('div_assign_digit_pair', 'src/ubig/div.rs'), ('Digit::div_carry_assign', 'src/digit.rs')])
p('C09', 'Division by zero is always reported and harmless',
  'Dividing any number by zero, in any form, is reported: the checked operations return an error and leave the dividend unchanged, the operators panic. No operation reports division by zero for a nonzero divisor.',
  'all dividends (including zero and numbers shorter than any algorithm cutoff) and all forms, ' + ALLT,
  'Tests check one or two dividends; early exits that compare lengths first can skip the check or destroy the dividend for particular sizes.',
  ['src/ubig.rs', 'src/ubig/div.rs', 'src/ubig/ops.rs'],
  [('zero checks', 'src/ubig.rs div_assign_big / rem_assign_big, src/ubig/div.rs')])
p('C10', 'Left shift multiplies by a power of two',
  'Shifting a number left by n bits returns exactly the number times two to the n, for binary and decimal numbers alike and for every n, including multiples of the digit size and zero. Zero stays zero.',
  'all values, all shift counts (whole digits, parts of digits, both), ' + ALLT,
  'The digit moves and the carry between digits depend on the shift count modulo the digit size and on the top bits; decimal shifts go digit by digit in steps.',
  ['src/ubig/shl.rs', 'src/ubig/ops.rs', 'src/digit.rs'],
  [('shl_carry_assign_within_digit', 'src/ubig/shl.rs'), ('BigDigit shift operators', 'src/ubig/ops.rs'), ('Digit::shl_carry_assign', 'src/digit.rs')])
p('C11', 'Right shift is exact floor division and total',
  'Shifting a number right by n bits returns the floor of the number divided by two to the n. It is defined for every n, including counts beyond the size of the number, where the result is zero.',
  'all values, all shift counts up to the largest machine integer, ' + ALLT,
  'Tests shift a few numbers by a few counts; counts at or beyond the length and decimal numbers with many bits take separate paths.',
  ['src/ubig/shr.rs', 'src/ubig/ops.rs', 'src/digit.rs'],
  [('shr_carry_assign_within_digit', 'src/ubig/shr.rs'), ('Digit::shr_carry_assign', 'src/digit.rs')])
p('C12', 'Ordering and equality follow the represented values',
  'Comparison, equality and all relational operators agree with the mathematical order of the represented values, and with each other.',
  'all pairs of values of all lengths, ' + ALLT,
  'Tests compare selected pairs; a comparison that looks at digits in the wrong order or stops early is right for most pairs.',
  ['src/ubig/cmp.rs', 'src/ubig.rs'],
  [('cmp', 'src/ubig/cmp.rs'), ('Ord / PartialOrd / PartialEq', 'src/ubig.rs')])
p('C13', 'Parsing accepts exactly the numbers and gives their value',
  'Text consisting of decimal digits (optionally after a single plus sign) or of 0x and hexadecimal digits parses to exactly the value it denotes, however long. All other text is rejected with an error; parsing never panics.',
  'all strings, every length and position of an invalid character, ' + ALLT,
  'The text is cut into digit-sized pieces; errors show only for particular lengths, leading zeros, or invalid characters at piece boundaries.',
  ['src/ubig.rs', 'src/digit.rs'],
  [('FromStr', 'src/ubig.rs'), ('from_decimal_str / from_hexadecimal_str', 'src/digit.rs')])
p('C14', 'Decimal conversion and Display print the exact value',
  'Converting a binary number to decimal gives a decimal number of the same value, and displaying any number prints its decimal digits exactly, without leading zeros.',
  'all values and lengths on either side of the conversion cutoff, ' + ALLT,
  'Divide-and-conquer conversion drops digits only when the lower half has leading zeros; zero padding between digits depends on digit values.',
  ['src/ubig.rs', 'src/digit.rs'],
  [('to_decimal / build_decimal', 'src/ubig.rs'), ('Display', 'src/ubig.rs')])
p('C15', 'Hexadecimal formatting prints the exact value',
  'Formatting a binary number as lower- or upper-case hexadecimal prints its hexadecimal digits exactly, without leading zeros, and with the prefix when the alternate form is asked for.',
  'all values of binary numbers of all digit sizes, both cases, with and without prefix',
  'Padding of inner digits matters only when they have leading zero nibbles.',
  ['src/ubig.rs'],
  [('LowerHex / UpperHex', 'src/ubig.rs')])
p('C16', 'Powers are exact',
  'Raising a number to any exponent returns the exact power, with anything to the power zero being one. Powers never panic.',
  'all base values and exponents, ' + ALLT,
  'Square-and-multiply goes wrong for particular exponent bit patterns and for bases zero and one; tests use a few exponents.',
  ['src/ubig/ops.rs', 'src/ubig/mul.rs'],
  [('Pow', 'src/ubig/ops.rs'), ('square', 'src/ubig.rs')])
p('C17', 'Construction from integers and digits preserves the value',
  'Converting any machine integer to a number gives a number of the same value, also when it does not fit a single decimal digit. Constructing a number from digits gives the value they denote, leading zeros or not.',
  'all machine integers and all digit arrays, ' + ALLT,
  'Tests convert a few integers per type; values around the decimal radix take different paths.',
  ['src/ubig.rs', 'src/digit.rs'],
  [('From<T>', 'src/ubig.rs'), ('UBig::new', 'src/ubig.rs'), ('DecimalDigit::split / fits_single', 'src/digit.rs')])
p('C18', 'All operand forms of an operator agree',
  'For every operator, using references, values or the assigning form, and a machine integer or the digit of the same value, gives the same result and panics in the same cases. Operands passed by reference are not changed.',
  'all operand values and relative lengths for all forms of all binary operators, ' + ALLT,
  'Each form has its own code path choosing which operand to reuse; tests exercise each form with one or two operand pairs.',
  ['src/ubig/ops.rs', 'src/ubig/rsub.rs', 'src/ubig/add.rs', 'src/ubig/sub.rs'],
  [('operator implementations', 'src/ubig/ops.rs'), ('operand reuse', 'src/ubig/add.rs, src/ubig/sub.rs, src/ubig/rsub.rs')])

p('C19', 'Width, fill, alignment, sign and zero padding apply to printed numbers',
  'Formatting a number in decimal or hexadecimal with a width, fill character, alignment, plus sign, prefix or zero padding gives the text that these options give for a built-in integer of the same value, whatever the number of digits; a precision has no effect.',
  'all values, all combinations of format options, numbers of zero, one and several digits, ' + ALLT,
  'Zero, one-digit and longer numbers take different paths through the formatting code, and the tests format without options.',
  ['src/ubig.rs'],
  [('Display', 'src/ubig.rs'), ('LowerHex / UpperHex', 'src/ubig.rs')])

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80
        f.write(json.dumps(x) + '\n')

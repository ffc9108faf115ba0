"""C24  Text, number and pattern functions.

Every function over every combination of its arguments from a set around the edges (empty, first, last, past the end, zero, negative, NULL, numbers as texts), with the arguments in columns and written down, nested in one
another and in every clause, against the definitions written out here.
"""
import gc
import itertools
import math
from fractions import Fraction

from eng import Engine, Err
from core import watchdog

LEVEL = "model_checking"
COMMON = ("44 spellings of text functions (lengths, cases, parts by position from either end, search and replacement, lists, joining, codes and encodings, addresses), 50 of number functions and operators (rounding, powers, logarithms, trigonometry, remainders, bits, "
          "greatest and least), 15 of REGEXP functions x 29 patterns: each over the full product of its arguments - texts of up to 4 letters, empty, longer than a byte per character, numbers and numbers in texts, positions and counts from below the start to "
          "past the end, NULL - with all arguments in columns, all written down, and one in a column; every one as condition, key, argument, operand, in joins, unions and derived tables; ")
BOUND = {"quick": COMMON + "every nesting of three of 16 functions over all texts of up to 4 of 3 letters; every text of up to 5 of the characters 1 0 - + . e x and blank read as a number",
         "thorough": COMMON + "every nesting of three of 16 functions over all texts of up to 5 of 3 letters, of four over those of up to 2; every text of up to 6 of the characters 1 0 - + . e x and blank read as a number"}
ASSUME = ["documented functions and operators only; where the documentation names its own order of arguments (LOG) it counts, otherwise MySQL's definition; letters of equal case compare by code", "halves in ROUND, HEX and BIN of negative numbers, negative shifts, texts without any number used as numbers, "
          "patterns that match nothing at all in REGEXP_INSTR, _SUBSTR and _REPLACE, and groups in replacements are left open", "numbers of fractions are compared to 12 digits"]

SKIP = object()

# -- texts ---------------------------------------------------------------------------------------------------------------------


def txt(v):
    return v if isinstance(v, str) else "%d" % v if isinstance(v, int) else repr(v)


def words(letters, n):
    return ["".join(w) for k in range(n + 1) for w in itertools.product(letters, repeat=k)]


def utf8(s):
    out = []
    for c in s:
        n = ord(c)
        if n < 128:
            out.append(n)
        elif n < 2048:
            out += [192 + n // 64, 128 + n % 64]
        elif n < 65536:
            out += [224 + n // 4096, 128 + n // 64 % 64, 128 + n % 64]
        else:
            out += [240 + n // 262144, 128 + n // 4096 % 64, 128 + n // 64 % 64, 128 + n % 64]
    return out


def digits(n, base):
    out = ""
    while n or not out:
        out = "0123456789ABCDEF"[n % base] + out
        n //= base
    return out


def take(s, first, count):
    """the characters number first, first + 1 .. of s"""
    return "".join(c for i, c in enumerate(s, 1) if first <= i < first + count)


def substring(s, p, n=10 ** 9):
    if p < 0:
        p += len(s) + 1
        if p < 1:
            return ""
    return take(s, p, n) if p else ""


def splice(s, p, n, t):
    if p < 1 or p > len(s):
        return s
    return take(s, 1, p - 1) + t + (substring(s, p + n) if n >= 0 else "")


def pieces(s, d):
    out, i = [""], 0
    while i < len(s):
        if d and take(s, i + 1, len(d)) == d:
            out.append("")
            i += len(d)
        else:
            out[-1] += s[i]
            i += 1
    return out


def upto(s, d, n):
    if not d or not n:
        return ""
    p = pieces(s, d)
    p = [x for i, x in enumerate(p) if (i < n if n > 0 else len(p) - i <= -n)]
    return glue(d, p)


def glue(d, parts):
    out = ""
    for i, p in enumerate(parts):
        out += (d if i else "") + p
    return out


def swap(s, old, new):
    return glue(new, pieces(s, old)) if old else s


def position(x, of):
    for i, y in enumerate(of, 1):
        if x == y:
            return i
    return 0


def same(a, b):
    if a is None or b is None:
        return False
    if isinstance(a, str) == isinstance(b, str):
        return a == b
    n, s = (b, a) if isinstance(a, str) else (a, b)
    return number(s) == n


def crc(s):
    r = 0xFFFFFFFF
    for b in utf8(s):
        r ^= b
        for _ in range(8):
            r = r >> 1 ^ (0xEDB88320 if r & 1 else 0)
    return r ^ 0xFFFFFFFF


def base64(s):
    bits = "".join(digits(b, 2).rjust(8, "0") for b in utf8(s))
    letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
    out = "".join(letters[int(bits[i:i + 6].ljust(6, "0"), 2)] for i in range(0, len(bits), 6))
    return out + "=" * (-len(out) % 4)


def trimmed(s):
    while s[:1] == " ":
        s = s[1:]
    while s[-1:] == " ":
        s = s[:-1]
    return s


LOWER, UPPER = "abcdefghijklmnopqrstuvwxyzé", "ABCDEFGHIJKLMNOPQRSTUVWXYZÉ"


def letters(s, of, to):
    return "".join(to[of.index(c)] if c in of else c for c in s)


def strict(f, texts=()):
    """NULL for any NULL; the arguments at the given places as texts"""
    def g(*args):
        if any(a is None for a in args):
            return None
        return f(*[txt(a) if i in texts else a for i, a in enumerate(args)])
    return g


def whole(v):
    return int(txt(v))


AB = words("ab", 4)
MIX = ["", "a", "ab", "aBc", " a ", "  ", "a b", "é", "aé€", "\U0001F600x", "it's", "a\nb", "Abcdefghijklmnopqrstuvwxyz, 0123456789; abcdefghijklmnopqrstuvwxyz", "0", "12", "-5", 0, 7, 12, -5, 2.5, 100, None]
NUM = [None, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 9]
TEXT = {
    "char_length({})": (strict(len, (0,)), MIX), "character_length({})": (strict(len, (0,)), MIX),
    "length({})": (strict(lambda s: len(utf8(s)), (0,)), MIX), "bit_length({})": (strict(lambda s: 8 * len(utf8(s)), (0,)), MIX),
    "lower({})": (strict(lambda s: letters(s, UPPER, LOWER), (0,)), MIX), "lcase({})": (strict(lambda s: letters(s, UPPER, LOWER), (0,)), MIX),
    "upper({})": (strict(lambda s: letters(s, LOWER, UPPER), (0,)), MIX), "ucase({})": (strict(lambda s: letters(s, LOWER, UPPER), (0,)), MIX),
    "reverse({})": (strict(lambda s: "".join(s[len(s) - 1 - i] for i in range(len(s))), (0,)), MIX + AB), "trim({})": (strict(trimmed, (0,)), MIX + words("a ", 4)),
    "ascii({})": (strict(lambda s: (utf8(s) or [0])[0], (0,)), MIX), "ord({})": (strict(lambda s: int("".join(digits(b, 16).rjust(2, "0") for b in utf8(s[:1])) or "0", 16), (0,)), MIX),
    "crc32({})": (strict(crc, (0,)), MIX), "to_base64({})": (strict(base64, (0,)), MIX + AB), "from_base64(to_base64({}))": (strict(lambda s: s, (0,)), MIX),
    "left({}, {})": (strict(lambda s, n: take(s, 1, n), (0,)), AB + [None, 125, "é€x"], NUM), "right({}, {})": (strict(lambda s, n: take(s, max(len(s) - n, 0) + 1, n), (0,)), AB + [None, 125, "é€x"], NUM),
    "repeat({}, {})": (strict(lambda s, n: "".join(s for _ in range(n)), (0,)), ["", "a", "ab", 7, None], NUM),
    "substring({}, {})": (strict(substring, (0,)), AB + [None, 12345, "é€x"], NUM), "substr({}, {})": (strict(substring, (0,)), AB + [None, 12345, "é€x"], NUM),
    "substring({}, {}, {})": (strict(substring, (0,)), words("ab", 2) + ["abc", "abcd", None, 123], NUM, [-1, 0, 1, 2, 3, 5]), "substr({}, {}, {})": (strict(substring, (0,)), words("ab", 2) + ["abc", "abcd", None, 123], NUM, [-1, 0, 1, 2, 3, 5]),
    "substring({} from {} for {})": (strict(substring, (0,)), ["", "a", "abcd", None], NUM, [0, 1, 2, 5]),
    "insert({}, {}, {}, {})": (strict(splice, (0, 3)), ["", "a", "abcd", None, 123], [None, -1, 0, 1, 2, 3, 4, 5], [None, -1, 0, 1, 2, 9], ["", "XY", None, 7]),
    "substring_index({}, {}, {})": (strict(upto, (0, 1)), words("a.", 3) + ["a.a.a.", "..a..", "1.2", None], [".", "a", "", "a.", None], [None, -9, -3, -2, -1, 0, 1, 2, 3, 9]),
    "replace({}, {}, {})": (strict(swap, (0, 1, 2)), words("ab", 4) + [None, 121], ["a", "ab", "b", "", "bb", None, 1], ["", "x", "ab", None, 7]),
    "strcmp({}, {})": (strict(lambda a, b: (a > b) - (a < b), (0, 1)), words("ab", 2) + [None, 10, 9], words("ab", 2) + [None, 10, 9]),
    "startswith({}, {})": (strict(lambda a, b: int(take(a, 1, len(b)) == b), (0, 1)), words("ab", 3) + [None, 12], words("ab", 2) + [None, 1]),
    "endswith({}, {})": (strict(lambda a, b: int(substring(a, -len(b)) == b if b else 1), (0, 1)), words("ab", 3) + [None, 12], words("ab", 2) + [None, 2]),
    "contains({}, {})": (strict(lambda a, b: int(not b or len(pieces(a, b)) > 1), (0, 1)), words("ab", 3) + [None, 12], words("ab", 2) + [None, 2]),
    "find_in_set({}, {})": (strict(lambda a, b: position(a, pieces(b, ",")) if b else 0, (0, 1)), ["", "a", "b", "ab", "a,b", 5, None], words("ab,", 3) + ["a,b,ab", "4,5", None, 5]),
    "concat({}, {})": (strict(lambda a, b: a + b, (0, 1)), MIX, MIX), "concat({}, {}, {})": (strict(lambda a, b, c: a + b + c, (0, 1, 2)), ["", "a", 7, 2.5, None], ["", "b", 0, None], ["", "é", -1, None]),
    "concat({}, {}, {}, {})": (strict(lambda a, b, c, d: a + b + c + d, (0, 1, 2, 3)), ["a", 7, None], ["b", "", None], ["c", None], ["d", 1, None]),
    "concat_ws({}, {}, {})": (lambda s, *a: None if s is None else glue(txt(s), [txt(x) for x in a if x is not None]), ["", "-", ", ", 0, None], ["", "a", 7, None], ["", "b", 2.5, None]),
    "concat_ws({}, {}, {}, {})": (lambda s, *a: None if s is None else glue(txt(s), [txt(x) for x in a if x is not None]), ["", "-", None], ["a", 7, None], ["b", "", None], ["c", None]),
    "elt({}, {}, {}, {})": (lambda n, *a: None if n is None or not 1 <= n <= 3 else a[n - 1], [None, -2, -1, 0, 1, 2, 3, 4], ["a", None], ["b", None], ["c", None]), "elt({}, {})": (lambda n, a: a if n == 1 else None, [None, -1, 0, 1, 2], ["a", None]),
    "field({}, {}, {}, {})": (lambda x, *a: next((i for i, y in enumerate(a, 1) if same(x, y)), 0), ["a", "b", "5", "", 5, None], ["a", "b", 5, None], ["5", "b", "", 7], ["a", 5, "b"]),
    "hex({})": (strict(lambda v: digits(v, 16) if isinstance(v, int) else "".join(digits(b, 16).rjust(2, "0") for b in utf8(v))), [0, 1, 9, 10, 15, 16, 255, 256, 4095, 10 ** 12, None] + [x for x in MIX if isinstance(x, str)]),
    "hex(unhex({}))": (strict(lambda v: v), ["", "00", "0A", "FF", "616263", "C3A9", None]),
    "bin({})": (strict(lambda v: digits(whole(v), 2)), list(range(17)) + [255, 256, 10 ** 9, "5", "12", None]), "oct({})": (strict(lambda v: digits(whole(v), 8)), list(range(17)) + [63, 64, 10 ** 9, "5", "12", None]),
    "char({}, {}, {})": (lambda *a: "".join(chr(whole(x)) for x in a if x is not None), [77, "77", None, 32], [121, "65", None], [83, None]),
    "is_ipv4({})": (strict(lambda s: int(ipv4(s))), ["10.0.5.9", "0.0.0.0", "255.255.255.255", "256.1.1.1", "1.2.3", "1.2.3.4.5", "1.2.3.x", "", "1", "::1", None]),
    "is_ipv6({})": (strict(lambda s: int(s in ("::1", "::", "fe80::1:2", "1:2:3:4:5:6:7:8"))), ["::1", "::", "fe80::1:2", "1:2:3:4:5:6:7:8", "1:2:3", "1:2:3:4:5:6:7:8:9", "::1::2", "10.0.5.9", "", "x", None]),
    "inet4_ntoa(unhex(inet4_aton({})))": (strict(lambda s: s), ["10.0.5.9", "0.0.0.1", "255.255.255.255", None]), "inet6_ntoa(unhex(inet6_aton({})))": (strict(lambda s: s), ["::1", "fe80::1:2", "1:2:3:4:5:6:7:8", None]),
}


def ipv4(s):
    p = pieces(s, ".")
    return len(p) == 4 and all(x and all(c in "0123456789" for c in x) and int(x) < 256 for x in p)


# -- numbers -------------------------------------------------------------------------------------------------------------------


def number(s):
    """the number at the start of a text; None where there is none"""
    if not isinstance(s, str):
        return s
    i, n = 0, len(s)
    if not s:
        return 0
    while i < n and s[i] == " ":
        i += 1
    sign = -1 if s[i:i + 1] == "-" else 1
    i += s[i:i + 1] in ("-", "+")
    value, scale, seen = 0, 0, False
    while i < n and s[i].isdigit():
        value, seen, i = value * 10 + int(s[i]), True, i + 1
    if s[i:i + 1] == ".":
        i += 1
        while i < n and s[i].isdigit():
            value, scale, seen, i = value * 10 + int(s[i]), scale + 1, True, i + 1
    if not seen:
        return None
    if i < n and s[i] in "eE":
        i += 1
        down = s[i:i + 1] == "-"
        i += s[i:i + 1] in ("-", "+")
        e = ""
        while i < n and s[i].isdigit():
            e, i = e + s[i], i + 1
        if e:
            scale += int(e) if down else -int(e)
    v = Fraction(sign * value) * (Fraction(1, 10 ** scale) if scale >= 0 else 10 ** -scale)
    return int(v) if v.denominator == 1 else v


def near(f):
    def g(*args):
        if any(a is None for a in args):
            return None
        args = [number(a) for a in args]
        if any(a is None for a in args):
            return SKIP
        try:
            v = f(*args)
        except (ValueError, ZeroDivisionError, OverflowError):
            return None
        return v if v is None or v is SKIP else float(v)
    return g


def rounded(x, d):
    x = Fraction(x) * (10 ** d if d >= 0 else Fraction(1, 10 ** -d))
    low = math.floor(x)
    if x - low == Fraction(1, 2):
        return SKIP
    low += x - low > Fraction(1, 2)
    return Fraction(low) * (Fraction(1, 10 ** d) if d >= 0 else 10 ** -d)


def remainder(x, y):
    if not y:
        return None
    r = abs(Fraction(x)) % abs(Fraction(y))
    return -r if x < 0 else r


def most(pick):
    def g(*args):
        if any(a is None for a in args):
            return None
        if all(isinstance(a, str) for a in args):
            best = args[0]
            for a in args[1:]:
                if (a > best) == (pick > 0) and a != best:
                    best = a
            return best
        args = [number(a) for a in args]
        if any(a is None for a in args):
            return SKIP
        best = args[0]
        for a in args[1:]:
            if (a - best) * pick > 0:
                best = a
        return float(best)
    return g


def power(x, y):
    if x == 0 and y < 0:
        return None
    if x < 0 and Fraction(y).denominator != 1:
        return None
    return x ** y if Fraction(y).denominator == 1 and y >= 0 else float(x) ** float(y)


INTS = [None, -9, -8, -2, -1, 0, 1, 2, 3, 5, 7, 8, 255, "6", "0", "-3"]
FLOATS = [None, -100, -7, -2.5, -2.25, -1.75, -1, -0.5, -0.1, 0, 0.1, 0.25, 0.75, 1, 1.005, 2, 2.345, 2.5, 3.999, 7, 16, 99.995, 1234.5678, 10 ** 6, "4", "-2.25", "3.5", "0", "1e2"]
ARGS = [None, -7, -5.5, -3, -2, -1, -0.25, 0, 0.5, 1, 2, 3, 4, 7.5, 10, "3", "-2.5", "0.75"]
NUMBER = {
    "abs({})": (near(lambda x: x if x >= 0 else -x), FLOATS), "sign({})": (near(lambda x: (x > 0) - (x < 0)), FLOATS), "ceil({})": (near(lambda x: -(-Fraction(x) // 1)), FLOATS), "ceiling({})": (near(lambda x: -(-Fraction(x) // 1)), FLOATS),
    "floor({})": (near(lambda x: Fraction(x) // 1), FLOATS), "round({})": (near(lambda x: rounded(x, 0)), FLOATS), "round({}, {})": (near(rounded), FLOATS + [1250.1, -1249.9, 0.045, 5.055], [None, -3, -2, -1, 0, 1, 2, 3]),
    "sqrt({})": (near(lambda x: Fraction(x) ** 0.5 if x >= 0 else None), FLOATS), "exp({})": (near(lambda x: math.e ** float(x) if x < 700 else None), ARGS + [1000]), "ln({})": (near(lambda x: logarithm(x) if x > 0 else None), FLOATS), "ln(exp({}))": (near(lambda x: x), ARGS),
    "log({}, {})": (near(lambda x, b: logarithm(x) / logarithm(b) if x > 0 and b > 0 and b != 1 else None), FLOATS, [None, 2, 10, 0.5, 16, "10"]), "pi()": (lambda: 3.141592653589793,),
    "pow({}, {})": (near(power), ARGS, ARGS), "power({}, {})": (near(power), ARGS, ARGS),
    "sin({})": (near(lambda x: sine(x)), ARGS), "cos({})": (near(lambda x: cosine(x)), ARGS), "tan({})": (near(lambda x: sine(x) / cosine(x)), ARGS), "sin(asin({}))": (near(lambda x: x if -1 <= x <= 1 else None), ARGS), "cos(acos({}))": (near(lambda x: x if -1 <= x <= 1 else None), ARGS),
    "tan(atan({}))": (near(lambda x: x), ARGS), "atan({}) * 4": (near(lambda x: math.pi if x == 1 else -math.pi if x == -1 else 0 if x == 0 else SKIP), ARGS), "asin({}) * 2": (near(lambda x: math.pi if x == 1 else -math.pi if x == -1 else 0 if x == 0 else SKIP), ARGS),
    "acos({}) * 2": (near(lambda x: 0 if x == 1 else math.pi * 2 if x == -1 else math.pi if x == 0 else SKIP), ARGS),
    "{} % {}": (near(remainder), FLOATS, ARGS), "{} / {}": (near(lambda x, y: Fraction(x) / Fraction(y) if y else None), FLOATS, ARGS),
    "{} + {}": (near(lambda x, y: Fraction(x) + Fraction(y)), FLOATS, ARGS), "{} - {}": (near(lambda x, y: Fraction(x) - Fraction(y)), FLOATS, ARGS), "{} * {}": (near(lambda x, y: Fraction(x) * Fraction(y)), FLOATS, ARGS),
    "greatest({}, {})": (most(1), ARGS + ["a", "b"], ARGS + ["a", "10"]), "least({}, {})": (most(-1), ARGS + ["a", "b"], ARGS + ["a", "10"]),
    "greatest({}, {}, {})": (most(1), [None, -1, 2, "3", "10", 2.5], [None, 0, "2", 9], [None, -2, 2, "7", 10]), "least({}, {}, {})": (most(-1), [None, -1, 2, "3", "10", 2.5], [None, 0, "2", 9], [None, -2, 2, "7", 10]),
    "{} & {}": (near(lambda x, y: bits(x, y, lambda a, b: a and b)), INTS, INTS), "{} | {}": (near(lambda x, y: bits(x, y, lambda a, b: a or b)), INTS, INTS), "{} ^ {}": (near(lambda x, y: bits(x, y, lambda a, b: a != b)), INTS, INTS), "~{}": (near(lambda x: -x - 1), INTS),
    "{} << {}": (near(lambda x, y: x * 2 ** y), INTS, [None, 0, 1, 2, 5, 31, "3"]), "{} >> {}": (near(lambda x, y: Fraction(x, 2 ** y) // 1), INTS, [None, 0, 1, 2, 5, 31, "3"]),
    "bitwiseand({}, {})": (near(lambda x, y: bits(x, y, lambda a, b: a and b)), INTS, INTS), "bitwiseor({}, {})": (near(lambda x, y: bits(x, y, lambda a, b: a or b)), INTS, INTS), "bitwisexor({}, {})": (near(lambda x, y: bits(x, y, lambda a, b: a != b)), INTS, INTS),
    "bitwisenot({})": (near(lambda x: -x - 1), INTS), "bitwiseleftshift({}, {})": (near(lambda x, y: x * 2 ** y), INTS, [None, 0, 1, 2, 5, 31, "3"]), "bitwiserightshift({}, {})": (near(lambda x, y: Fraction(x, 2 ** y) // 1), INTS, [None, 0, 1, 2, 5, 31, "3"]),
}


def bits(x, y, f):
    """bit by bit, in twos complement"""
    n = 0
    for i in range(16):
        n += (1 << i) * (1 if f(x // 2 ** i % 2 == 1, y // 2 ** i % 2 == 1) else 0)
    return n - 65536 if f(x < 0, y < 0) else n


def logarithm(x):
    """the area below 1/x, by halving"""
    x, k = float(x), 0
    while x > 1.5:
        x, k = x / 2, k + 1
    while x < 0.75:
        x, k = x * 2, k - 1
    y = (x - 1) / (x + 1)
    return 2 * sum(y ** (2 * i + 1) / (2 * i + 1) for i in range(40)) + k * 0.6931471805599453


def sine(x):
    x = float(x) % 6.283185307179586
    t, out = x, 0.0
    for i in range(1, 60):
        out += t
        t *= -x * x / (2 * i * (2 * i + 1))
    return out


def cosine(x):
    return sine(float(x) + math.pi / 2)


# -- patterns ------------------------------------------------------------------------------------------------------------------


class Pattern(object):
    """| ( ) [..] . * + ? ^ $ and characters; the first match in the order of preference"""

    def __init__(self, text, flags=""):
        self.t, self.i, self.fold, self.lines, self.dots = text, 0, "c" not in flags, "m" in flags, "n" in flags
        self.node = self.alt()

    def alt(self):
        out = [self.seq()]
        while self.t[self.i:self.i + 1] == "|":
            self.i += 1
            out.append(self.seq())
        return ("alt", out)

    def seq(self):
        out = []
        while self.i < len(self.t) and self.t[self.i] not in "|)":
            c = self.t[self.i]
            self.i += 1
            if c == "(":
                node = self.alt()
                self.i += 1
            elif c == "[":
                end = self.t.index("]", self.i)
                node = ("set", self.t[self.i:end])
                self.i = end + 1
            else:
                node = {".": ("any",), "^": ("start",), "$": ("end",)}.get(c, ("set", c))
            if self.i < len(self.t) and self.t[self.i] in "*+?":
                node = (self.t[self.i], node)
                self.i += 1
            out.append(node)
        return ("seq", out)

    def ends(self, node, s, i):
        kind = node[0]
        if kind == "alt":
            for n in node[1]:
                yield from self.ends(n, s, i)
        elif kind == "seq":
            if not node[1]:
                yield i
                return
            for j in self.ends(node[1][0], s, i):
                yield from self.ends(("seq", node[1][1:]), s, j)
        elif kind in "*+?":
            for j in self.ends(node[1], s, i):
                if kind == "?":
                    yield j
                elif j > i:
                    yield from self.ends(("*", node[1]), s, j)
            if kind != "+":
                yield i
        elif kind == "any":
            if i < len(s) and (self.dots or s[i] != "\n"):
                yield i + 1
        elif kind == "start":
            if i == 0 or self.lines and s[i - 1] == "\n":
                yield i
        elif kind == "end":
            if i == len(s) or self.lines and s[i] == "\n":
                yield i
        elif i < len(s) and (s[i] in node[1] or self.fold and s[i].swapcase() in node[1]):
            yield i + 1

    def matches(self, s, pos=1):
        out, i = [], pos - 1
        while i <= len(s):
            j = next(self.ends(self.node, s, i), None)
            if j is None:
                i += 1
                continue
            out.append((i, j))
            i = max(j, i + 1)
        return out


PATTERNS = ["a", "b", "ab", "ba", "^a", "^b", "a$", "b$", "^ab$", ".", "a.", ".b", "[ab]b", "a+", "b+a", "ab?", "a|bb", "(ab)+", "a.*b", "^", "$", "B", "^A", "[a]", "aa|b", "ab|a", "a|ab", "x", "^(a|b)b"]
FILLED = [p for p in PATTERNS if p not in ("^", "$")]


def matches(s, p, pos=1, flags=None):
    return Pattern(txt(p), flags or "").matches(txt(s), pos)


def found(s, p, flags=None):
    return int(bool(matches(s, p, 1, flags)))


def which(s, p, pos=1, n=1, flags=None):
    m = matches(s, p, pos, flags)
    return m[max(n, 1) - 1] if len(m) >= max(n, 1) else None


def instr(s, p, pos=1, n=1, after=0):
    m = which(s, p, pos, n)
    return m[1 if after else 0] + 1 if m else 0


def cut(s, p, pos=1, n=1):
    m = which(s, p, pos, n)
    return txt(s)[m[0]:m[1]] if m else None


def replaced(s, p, new, pos=1, n=0):
    s, new = txt(s), txt(new)
    m = matches(s, p, pos)
    if n > 0:
        m = m[n - 1:n]
    for i, j in reversed(m):
        s = s[:i] + new + s[j:]
    return s


SUBJECTS = words("ab", 4) + ["Ab", "xaBb", "a b", "ABAB", "é", "a\nb", "b\n\nab", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxab", None, 12]
SOME = ["", "a", "ab", "ba", "aab", "abab", "bbab", "AbaB", "xabxab", None]
REGEXP = {
    "{} regexp {}": (strict(found), SUBJECTS, PATTERNS + [None, 1, "1.", "é"]), "{} rlike {}": (strict(found), SUBJECTS, PATTERNS + [None]), "{} not regexp {}": (strict(lambda s, p: 1 - found(s, p)), SUBJECTS, PATTERNS + [None]),
    "regexp_like({}, {})": (strict(found), SUBJECTS, PATTERNS + [None]),
    "regexp_like({}, {}, {})": (strict(found), SUBJECTS, PATTERNS, ["c", "i", "m", "n", "mn", "cm"]),
    "regexp_instr({}, {})": (strict(instr), SUBJECTS, FILLED + [None]), "regexp_substr({}, {})": (strict(cut), SUBJECTS, FILLED + [None]),
    "regexp_replace({}, {}, {})": (strict(replaced), SUBJECTS, FILLED + [None], ["", "X", "ab", None, 7]),
    "regexp_instr({}, {}, {})": (strict(instr), SOME, FILLED, [1, 2, 3, 4]), "regexp_instr({}, {}, {}, {})": (strict(instr), SOME, FILLED, [1, 2, 4], [1, 2, 3]), "regexp_instr({}, {}, {}, {}, {})": (strict(instr), SOME, FILLED, [1, 2, 3], [1, 2, 3], [0, 1]),
    "regexp_substr({}, {}, {})": (strict(cut), SOME, FILLED, [1, 2, 3, 4]), "regexp_substr({}, {}, {}, {})": (strict(cut), SOME, FILLED, [1, 2, 4], [1, 2, 3]),
    "regexp_replace({}, {}, {}, {})": (strict(replaced), SOME, FILLED, ["", "X", "ab"], [1, 2, 3, 4]), "regexp_replace({}, {}, {}, {}, {})": (strict(replaced), SOME, FILLED, ["", "X"], [1, 2, 4], [0, 1, 2, 3]),
}
FUNCTIONS = {"text": TEXT, "number": NUMBER, "regexp": REGEXP}
# text to text, for nesting
CHAIN = {"lower({})": TEXT["lower({})"][0], "reverse({})": TEXT["reverse({})"][0], "trim({})": TEXT["trim({})"][0], "left({}, 2)": strict(lambda s: take(s, 1, 2)), "right({}, 2)": strict(lambda s: take(s, max(len(s) - 2, 0) + 1, 2)), "substring({}, 2)": strict(lambda s: substring(s, 2)),
         "substr({}, -3, 2)": strict(lambda s: substring(s, -3, 2)), "replace({}, 'a', ' bA')": strict(lambda s: swap(s, "a", " bA")), "concat({}, 'aB')": strict(lambda s: s + "aB"), "concat_ws('a', {}, b, 'x')": lambda s: glue("a", [x for x in (s, "b", "x") if x is not None]),
         "repeat({}, 2)": strict(lambda s: s + s), "insert({}, 2, 1, 'Ba')": strict(lambda s: splice(s, 2, 1, "Ba")), "substring_index({}, 'b', 1)": strict(lambda s: upto(s, "b", 1)), "regexp_replace({}, 'a.', '')": strict(lambda s: replaced(s, "a.", "")),
         "elt(length({}), {}, 'two', b)": lambda s: None if s is None else {1: s, 2: "two", 3: "b"}.get(len(s)), "if(contains({}, 'b'), 'aa b', {})": lambda s: "aa b" if s is not None and "b" in s else s}


def units(tier):
    out = [(kind, f, tier) for kind in FUNCTIONS for f in FUNCTIONS[kind]]
    out += [("chain", f, tier) for f in CHAIN]
    return out + [("prefix", c, tier) for c in LETTERS] + [("places", kind, tier) for kind in FUNCTIONS]


LETTERS = ["", "1", "0", "-", "+", ".", "e", " ", "x"]


def fresh():
    gc.collect()
    return Engine({"timezone": "UTC"})


def lit(v):
    return "null" if v is None else "'%s'" % v.replace("'", "''") if isinstance(v, str) else repr(v)


def good(got, want):
    if want is None or got is None:
        return got is None and want is None
    if isinstance(want, float):
        return isinstance(got, (int, float)) and (got == want or abs(got - want) <= 1e-12 * max(1.0, abs(want)))
    if isinstance(want, str):
        return isinstance(got, str) and got == want
    return isinstance(got, int) and got == want


def ask(e, sql):
    with watchdog(60):
        return e.query(sql)


def judge(rec, place, sql, got, want, case):
    rec.transitions += 1
    if want is SKIP:
        return rec.ok("open")
    if good(got, want):
        return rec.ok((place, str(want)), sql)
    rec.bad(place, "%s gives %r instead of %r" % (sql, got, want), case)


def literals(rec, e, place, todo, size=12):
    """[(sql, want)] without columns, several in one query"""
    todo = [x for x in todo if rec.state("literal", x[0])]
    for i in range(0, len(todo), size):
        part = todo[i:i + size]
        got = ask(e, "select %s from o" % ", ".join("%s as v%d" % (s, k) for k, (s, _) in enumerate(part)))
        if isinstance(got, Err) or len(got) != 1:
            for s, want in part:
                got = ask(e, "select %s as v from o" % s)
                judge(rec, place, s, str(got)[:200] if isinstance(got, Err) or len(got) != 1 else got[0]["v"], want, {"expression": s})
            continue
        for k, (s, want) in enumerate(part):
            judge(rec, place, s, got[0]["v%d" % k], want, {"expression": s})
        if i // size % 10 == 9:
            gc.collect()


def explore(unit, rec):
    kind, f, tier = unit
    e = fresh()
    if kind in FUNCTIONS:
        function(e, kind, f, tier, rec)
    else:
        globals()["do_" + kind](e, f, tier, rec)


NAMES = "abcdf"


def function(e, kind, f, tier, rec):
    want, domains = FUNCTIONS[kind][f][0], FUNCTIONS[kind][f][1:]
    e.clear()
    e.put("o", [{"id": 1}])
    combos = list(itertools.product(*domains))
    # every combination as a row
    if domains:
        rows = [dict({"id": i}, **dict(zip(NAMES, c))) for i, c in enumerate(combos, 1)]
        e.put("t", rows)
        sql = f.format(*NAMES)
        got = ask(e, "select id, %s as v from t" % sql)
        if isinstance(got, Err) or [r["id"] for r in got] != [r["id"] for r in rows]:
            rec.bad(f, "%s gives %s" % (sql, str(got)[:200]), {"expression": sql})
        else:
            for r, c in zip(got, combos):
                if rec.state(f, c):
                    judge(rec, f, f.format(*[lit(x) for x in c]), r["v"], want(*c), {"expression": sql, "row": repr(dict(zip(NAMES, c)))})
    # written down: all of them, or the first and last argument, or all but one
    limit = 1000 if tier == "quick" else 4000
    step = max(1, len(combos) // limit)
    while step > 1 and any(step % len(d) == 0 for d in domains[-1:]):
        step += 1
    chosen = combos[::step]
    literals(rec, e, f + " literal", [(f.format(*[lit(x) for x in c]), want(*c)) for c in chosen])
    for k in range(len(domains)):
        # one argument in a column, the others written down
        others = list(itertools.product(*[d[:: max(1, len(d) // 4)] for i, d in enumerate(domains) if i != k]))
        e.put("t", [{"id": i, "x": v} for i, v in enumerate(domains[k], 1)])
        for n, o in enumerate(others[:100 if tier == "quick" else 400]):
            args = [lit(x) for x in o]
            args.insert(k, "x")
            sql = f.format(*args)
            if len(domains) == 1 and n:
                break
            got = ask(e, "select id, %s as v from t" % sql)
            if isinstance(got, Err) or len(got) != len(domains[k]):
                rec.bad(f + " mixed", "%s gives %s" % (sql, str(got)[:200]), {"expression": sql})
                continue
            for r, x in zip(got, domains[k]):
                c = list(o)
                c.insert(k, x)
                if rec.state(f, "mixed", k, tuple(c)):
                    judge(rec, f + " mixed", sql, r["v"], want(*c), {"expression": sql, "row": repr({"x": x})})
            if n % 20 == 19:
                gc.collect()


def do_chain(e, outer, tier, rec):
    rows = [{"id": i, "a": s, "b": "b"} for i, s in enumerate(words("aB ", 4 if tier == "quick" else 5) + ["ab", "abab", "b", None], 1)]
    e.put("t", rows)
    nest(e, rec, outer, rows, itertools.product(CHAIN, repeat=2))
    if tier != "quick":
        rows = rows[:13] + rows[-1:]
        e.put("t", rows)
        nest(e, rec, outer, rows, itertools.product(CHAIN, repeat=3))


def nest(e, rec, outer, rows, chains):
    todo = []
    for chain in chains:
        sql = "a"
        for g in chain + (outer,):
            sql = g.replace("{}", sql)
        todo.append((sql, chain + (outer,)))
    for i in range(0, len(todo), 8):
        part = todo[i:i + 8]
        gc.collect()
        got = ask(e, "select id, %s from t" % ", ".join("%s as v%d" % (s, k) for k, (s, _) in enumerate(part)))
        if isinstance(got, Err) or len(got) != len(rows):
            rec.bad("nested " + outer, "%s gives %s" % (part[0][0], str(got)[:200]), {"expression": [s for s, _ in part]})
            continue
        for k, (s, fs) in enumerate(part):
            for row, r in zip(rows, got):
                v = row["a"]
                for g in fs:
                    v = CHAIN[g](v)
                if rec.state(s, row["a"]):
                    judge(rec, "nested " + outer, s, r["v%d" % k], v, {"expression": s, "row": repr(row)})


def do_prefix(e, first, tier, rec):
    if not first:
        texts = LETTERS
    else:
        texts = [first + "".join(w) for k in range(1, 5 if tier == "quick" else 5) for w in itertools.product(LETTERS[1:], repeat=k)]
    rows = [{"id": i, "s": s} for i, s in enumerate(texts, 1)]
    e.put("t", rows)
    for sql, f in (("s + 0", lambda x: x), ("1 - s", lambda x: 1 - x), ("abs(s)", abs), ("s * '2'", lambda x: 2 * x)):
        got = ask(e, "select id, %s as v from t" % sql)
        if isinstance(got, Err) or len(got) != len(rows):
            rec.bad("number in a text", "%s gives %s" % (sql, str(got)[:200]), {"expression": sql})
            continue
        for row, r in zip(rows, got):
            x = number(row["s"])
            if rec.state(sql, row["s"]):
                judge(rec, "number in a text", "%s of %r" % (sql, row["s"]), r["v"], SKIP if x is None else float(f(x)), {"expression": sql, "row": repr(row)})


def do_places(e, kind, tier, rec):
    """conditions, keys, arguments of aggregates, derived tables and joins"""
    for f in FUNCTIONS[kind]:
        want, domains = FUNCTIONS[kind][f][0], FUNCTIONS[kind][f][1:]
        if not domains:
            continue
        gc.collect()
        combos = list(itertools.product(*[d[:: max(1, len(d) // 5)] for d in domains]))[:60]
        rows = [dict({"id": i}, **dict(zip(NAMES, c))) for i, c in enumerate(combos, 1)]
        values = [want(*c) for c in combos]
        keep = [i for i, v in enumerate(values) if v is not SKIP]
        rows, values = [rows[i] for i in keep], [values[i] for i in keep]
        if not rows:
            continue
        e.clear()
        e.put("t", rows)
        sql = f.format(*NAMES)
        full = [v for v in values if v is not None]

        def expect(place, q, want):
            got = ask(e, q)
            rec.transitions += 1
            if isinstance(got, Err):
                return rec.bad(place, "%s gives %s" % (q, str(got)[:200]), {"sql": q})
            have = [tuple(r.values()) for r in got]
            left = list(want)
            for h in have:
                m = next((w for w in left if len(w) == len(h) and all(good(x, y) for x, y in zip(h, w))), None)
                if m is None:
                    return rec.bad(place, "%s gives %r, which is none of %r" % (q, h, left[:5]), {"sql": q})
                left.remove(m)
            if left:
                return rec.bad(place, "%s does not give %r" % (q, left[:3]), {"sql": q})
            rec.ok((place, f), q)
        wanted = [(r["id"], v) for r, v in zip(rows, values)]
        expect("where null", "select id from t where %s is null" % sql, [(i,) for i, v in wanted if v is None])
        expect("derived", "select id, v from (select id, %s as v from t) x" % sql, wanted)
        expect("case", "select id, case when %s is null then 'none' else %s end as v from t" % (sql, sql), [(i, "none" if v is None else v) for i, v in wanted])
        expect("union", "select id, %s as v from t where id < 9 union all select id, %s as v from t where id >= 9" % (sql, sql), wanted)
        expect("join", "select x.id as i, %s as v from t x join t y on x.id = y.id" % f.format(*["xy"[k % 2] + "." + n for k, n in enumerate(NAMES)]), wanted)
        expect("count", "select count(%s) as n from t" % sql, [(len(full),)])
        expect("variable", "select id, %s as v from t where id = 1" % sql, wanted[:1] if rows[0]["id"] == 1 else [])
        exact = [v for v in full if not isinstance(v, float) or v == int(v) and abs(v) < 2 ** 53]
        if full and len(exact) == len(full):
            for v in exact[:: max(1, len(exact) // 3)]:
                expect("where", "select id from t where %s = %s" % ("(%s)" % sql if " " in f else sql, lit(v)), [(i,) for i, x in wanted if x is not None and x == v])
            expect("group by", "select %s as v, count(*) as n from t group by %s" % (sql, sql), [(v, sum(1 for x in values if x == v and (x is None) == (v is None))) for v in {repr(x): x for x in values}.values()])
            expect("distinct", "select count(distinct %s) as n from t" % sql, [(len(set(full)),)])
            if not any(isinstance(v, str) for v in full):
                expect("max", "select max(%s) as v, min(%s) as w from t" % (sql, sql), [(float(max(full)), float(min(full)))])

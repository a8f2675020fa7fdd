"""The definitions the checks read. Each is a list of (is_public, regex)."""
P, H = True, False          # public, hidden

RAW = [
    "a", "ab", "a|b", "ab|cd", "(a|b)c", "a+b", "a*b", "(ab)+c", "a?b", "(a|b|c)+d", "[a-c]x", "[^a]b", "[^a-z]+!",
    ".b", ".+z", "a{2}b", "a{1,3}b", "a{2,}b", "(?:ab|ac)d", "(a(b(c)d)e)f", "(ab|a)(c|bcd)e", "(a|ab)(c|bc)d",
    "x(y|yz)w", r"\.", r"\\", r"\-", r"\"", r"'", " ", "  a", "a b", r"\n", r"\r\n", r"\t", r"\x00", r"\x7f", r"\x01a",
    "=", "=>", "-", "--", "-=", "=-", "a=b", "[=-]", r"[+-\-]x", r"[\--/]x", r"[\--]x", "[=->]y", r"[\-=]y", r"[+-=]z", r"[,-=]z", r"[\--=]z", r"[=-A]z", r"[ -=]w", r"[\--A]w", r"[ -\-]w", r"[\-=]+x", "[ -~]+\n", "[!-/]z", "[=-?]a", "[;-=]a",
    "[<-=]b", "[>-@]c", "[*-,]d", r"[\[-\]]e", "[ -!]f", "['-)]g", r"[\"-']h", r"[\\-\]]i", "[,-.]j", "[.-0]k", "[:-<]l",
    "é", "[à-ü]", "ü+x", "末", "😀", "[^b]", "[一-龥]a", "[α-ω]+b", "€|£", "é|e", "[a-é]z", "😀|😁x", "[\U0001F600-\U0001F64F]",
    "(a|e|i|o|u)+y", "0x[0-9a-f]+", "[A-Za-z0-9]+@", "[A-Za-z0-9!#$%&'*+=?\\-\\^_`{|}~./]+@", "(0|1)*2", "(01|10)+2",
    "((a|b)(c|d))+e", "a(b|c(d|e)*f)*g", "(a+b+)+c", "(aa|aab)*x", "(abc|abd|aef)g", "[0-9]{3}-[0-9]{4}",
    "(?i)abc", "(?i:x)y", "(?s)a.b", "(?is:a.)b", "a(?i)b|c", "(a(?i)b)c(?-i)d", "(?U)a+b??c", "(?s)(a(?-s).|b)x", "a+?b", "a*?b", "a??b", "(a|b)*?c", "aaa", "abab", "aabaab", "(a|b)(a|b)(a|b)c",
    "EOI", "=> 3", "\\*1: a", "D 2", r"\s+x", "[0-9]+\\.[0-9]+;", "<[^>]+>", r"\(a\)", r"\[a\]", r"\{a\}", r"a\|b", r"\^a",
    r"a\$b", r"\?\+\*", "(a)(b)(c)", "(((a)))", "a||b", "(|a)b", "(a|)b",
    "[" + "".join(chr(c) for c in range(0x30, 0x40)) + "]x",   # 16 consecutive
    "[" + "".join(chr(c) for c in range(0x30, 0x41)) + "]x",   # 17 consecutive
    "[a-pr-z]x", "[acegikmoqsuwy]x", "[^acegikmoqsuwy]x",
    # classes by name, flags
    r"\d+;", r"x\D", r"[\d&&[^5]]{2}", "[[:alpha:]_][[:alnum:]_]*=", "[^[:punct:]]!", "[[:^digit:]]9", "(?i)[[:upper:]]x", "[[:space:]--\n]+x", r"\U00000061b",
    "(?x) a b | c # no\n d", "(?xi: a + ) b", "(?x)a\\ b\\#{2}", "(?R)a.b", "(?m)a.b", "(?sR)a.b", "a(?x: b {2} ) c",
    # many single characters, many ways out of a state and into one
    "[" + "".join("\\" * (c in b"\\-]^[&~#") + chr(c) for c in range(0x21, 0x7f, 2)) + "]+ ",
    "[^" + "".join("\\" * (c in b"\\-]^[&~#") + chr(c) for c in range(0x22, 0x7f, 2)) + "]x",
    "(" + "|".join(chr(97 + i) + chr(65 + i) for i in range(26)) + ")+0",
    "(" + "|".join(chr(97 + i) + "-" + chr(65 + i) + "+" for i in range(20)) + ")0",
]

DEC = [
    [(H, "a"), (P, "[b-z]+"), (H, "!")],
    [(P, "a"), (H, "b")],
    [(H, "a"), (P, "b")],
    [(P, "ab"), (P, "cd")],
    [(H, "x"), (P, "[0-9]+"), (H, "y"), (P, "[0-9]+"), (H, "z")],
    [(H, "(\r\n|^)from:"), (P, "[^\r\n]+"), (H, "\r\n")],
    [(H, "(\r\n|^)to:"), (P, "([^<>\r\n]+<)?[a-z@.]+"), (H, ">?\r\n")],
    [(H, "((\r\n)|^)subject:"), (P, "[^\r\n]+"), (H, "\r\n")],
    [(H, "^"), (P, "ab"), (H, "c")],
    [(H, "^a"), (P, "b+"), (H, "c")],
    [(P, "^ab"), (H, "c")],
    [(P, "(^|x)ab"), (H, "c")],
    [(H, "(^|\n)k="), (P, "[0-9]+"), (H, ";")],
    [(H, "a"), (P, "b+"), (H, "c$")],
    [(H, "a"), (P, "b+$")],
    [(H, "^a"), (P, "b+"), (H, "c$")],
    [(H, "^"), (P, "[a-z]+"), (H, "$")],
    [(H, "t="), (P, "[0-9]+"), (H, ";")],
    [(H, "bh="), (P, "[a-zA-Z0-9+/=]+"), (H, ";")],
    [(H, "a"), (P, "b?"), (H, "c")],
    [(H, "a"), (P, "b*"), (H, "c")],
    [(P, "a"), (P, "b?"), (P, "c")],
    [(H, "a"), (P, "b?"), (P, "c?"), (H, "d")],
    [(H, "a+"), (P, "b+"), (H, "c+")],
    [(H, "a"), (P, "[^b]+"), (H, "b")],
    [(H, "a"), (P, "(bc)+"), (H, "d")],
    [(H, "(ab)+"), (P, "c"), (H, "d")],
    [(P, "(ab)+"), (H, "c")],
    [(P, "a+"), (H, "b")],
    [(H, "a"), (P, "(b|cd)"), (H, "(e|f)g")],
    [(H, "(a|b)"), (P, "(c|d)"), (H, "(e|f)")],
    [(H, "x+"), (H, "a*"), (P, "b")],
    [(H, "(x|yz)"), (H, "a*"), (P, "b")],
    [(H, "(x|yz)"), (P, "a*"), (H, "b")],
    [(H, "x"), (P, "(a|b)*"), (H, "c")],
    [(H, "xy?"), (P, "(ab)*"), (H, "c")],
    [(H, "x"), (P, "(a+b)*"), (H, "c")],
    [(H, "[a-z]+"), (P, "."), (H, "!")],
    [(H, "a"), (P, "[à-ü]+"), (H, "b")],
    [(H, "名"), (P, "[一-龥]+"), (H, "。")],
    [(H, "<"), (P, "[^<>]+"), (H, ">")],
    [(H, "=\""), (P, "[^\"]+"), (H, "\"")],
    [(H, "\\("), (P, "[0-9]+"), (H, "\\)")],
    [(H, "a(b(c|d)e)f"), (P, "g((h|i)j)+"), (H, "k")],
    [(H, "-"), (P, "[=-]+"), (H, ">")],
    [(H, "["+"0-9a-f"+"]{2}:"), (P, "[0-9]{2,4}"), (H, ";")],
    [(H, "id:"), (P, "(0|1|2|3|4|5|6|7|8|9|a|b|c|d|e|f)+"), (H, "\r\n")],
    [(H, "aa"), (P, "b"), (H, "aa")],
    [(H, "ab"), (P, "[0-9]"), (H, "ab")],
    [(H, "abab"), (P, "c+"), (H, "d")],
    [(P, "(a|b)"), (H, "c"), (P, "(a|b)"), (H, "d"), (P, "(a|b)"), (H, "e")],
    [(H, "x"), (P, "y"), (P, "z"), (P, "w"), (H, "v")],
    [(H, "k"), (P, "[!-~]{3}"), (H, " ")],
    [(H, "k"), (P, "[0-@]+"), (H, "[A-P]")],
    [(H, "k"), (P, "[0-?]+"), (H, "[A-Q]")],
    [(H, "k"), (P, "[^0-9]+"), (H, "[0-9]")],
    [(H, "(a|bc)"), (P, "d?"), (H, "e")],
    [(H, "to:"), (P, "[a-z]+@[a-z]+(\\.[a-z]+)+"), (H, "\r\n")],
    [(H, "a\\$"), (P, "b"), (H, "c")],
    [(H, "a"), (P, "b"), (H, "c\\$")],
    [(H, "a"), (P, "[b$]+"), (H, "[$]")],
    [(H, "[a^b]"), (P, "c"), (H, "d")],
    [(H, "[a)]"), (P, "c"), (H, "d")],
    [(H, "a[^b]"), (P, "c"), (H, "d")],
    [(H, "((a|b)|^)c"), (P, "d"), (H, "e")],
    [(H, "(^|(a|b))c"), (P, "d"), (H, "e")],
    [(H, "(x(y)z)"), (P, "d"), (H, "e")],
    [(H, "\\^"), (P, "d"), (H, "e")],
]


# ---------------------------------------------------------------- random expressions
ATOMS = ["a", "b", "c", "x", "0", "9", "-", "=", "@", ";", "<", ">", "/", "_", "~", "!", "\\.", "\\+", "\\\\", "\\n", "\\r\\n", " ",
         "[a-z]", "[0-9]", "[A-Za-z]", "[^a]", "[^\\n]", "[a-c]", "[x-z0-9]", "[^,;]", "[!-/]", ".", "\\s", "[à-ü]", "é", "末", "[α-ω]",
         "[ab]", "[b-d]", "[0-5]", "[^<>]", "[\\-+]", "[a-p]", "[a-q]", "[@-P]", "[0-?]", "😀"]


def random_regex(rng, depth=3, atoms=None):
    atoms = atoms or ATOMS
    k = rng.random()
    if depth == 0 or k < 0.25:
        return rng.choice(atoms)
    if k < 0.65:
        return "".join(group(random_regex(rng, depth - 1, atoms), "cat") for _ in range(rng.randint(2, 3)))
    if k < 0.8:
        return "(" + "|".join(random_regex(rng, depth - 1, atoms) for _ in range(rng.randint(2, 3))) + ")"
    x = group(random_regex(rng, depth - 1, atoms), "rep")
    return x + rng.choice(["+", "+", "*", "?", "{2}", "{1,2}", "{2,}"])


def group(x, how):
    """x as an operand"""
    if how == "cat":
        return x if not has_top_alt(x) else "(" + x + ")"
    import re
    if re.fullmatch(r"\\?.|\[(?:[^\]\\]|\\.)*\]", x, re.S) or (x.startswith("(") and closes(x)):
        return x
    return "(" + x + ")"


def closes(x):
    d, i, cl = 0, 0, False
    while i < len(x):
        ch = x[i]
        if ch == "\\":
            i += 2
            continue
        if cl:
            cl = ch != "]"
        elif ch == "[":
            cl = True
        elif ch == "(":
            d += 1
        elif ch == ")":
            d -= 1
            if d == 0:
                return i == len(x) - 1
        i += 1
    return False


def has_top_alt(x):
    d, i, cl = 0, 0, False
    while i < len(x):
        ch = x[i]
        if ch == "\\":
            i += 2
            continue
        if cl:
            cl = ch != "]"
        elif ch == "[":
            cl = True
        elif ch == "(":
            d += 1
        elif ch == ")":
            d -= 1
        elif ch == "|" and d == 0:
            return True
        i += 1
    return False


def random_regexes(rng, n):
    out = []
    while len(out) < n:
        r = random_regex(rng)
        if 1 < len(r) < 40 and r not in out:
            out.append(r)
    return out


# ---------------------------------------------------------------- decomposed definitions from small parts
SMALL = ["a", "b", "ab", "(a|b)", "a+", "b+", "[^a]", "ab?", "a?", "b?", "(ab)+", "(a|bc)", "[ab]+", "(b|cd)", "[^ab]+", "c+", "a?b",
         "b{1,2}", "[a-c]+", "c", "(ab|b)", "x", "[x-z]+", "a(b|c)+", "é+", "[^\r\n]+"]


def small_defs(rng, n, sizes=(2, 3, 4)):
    out, seen = [], set()
    while len(out) < n:
        k = rng.choice(sizes)
        d = []
        pub = rng.random() < 0.4
        alt = rng.random() < 0.6
        for i in range(k):
            d.append((pub if alt else rng.random() < 0.5, rng.choice(SMALL)))
            pub = not pub
        if tuple(d) in seen:
            continue
        seen.add(tuple(d))
        out.append(d)
    return out


def small_anchored(rng, n):
    out = []
    for d in small_defs(rng, n):
        d = list(d)
        k = rng.randrange(6)
        if k in (0, 3):
            d[0] = (d[0][0], "^" + d[0][1])
        elif k in (1, 4):
            if rng.random() < 0.5:
                # any alternatives to the caret
                alts = [random_regex(rng, rng.choice((1, 1, 2))) for _ in range(rng.choice((1, 1, 2)))]
                alts.insert(rng.randrange(len(alts) + 1), "^")
                d[0] = (False, rng.choice(["(%s)", "(%s)", "(?:%s)"]) % "|".join(alts) + group(d[0][1], "cat"))
            else:
                d[0] = (False, rng.choice(["(^|\n)", "(\r\n|^)", "(x|^)", "(^|ab)", "(a|b|^)", "(a|ab|^)", "(a+|^)", "(a?|^)", "((^)|b)"]) + group(d[0][1], "cat"))
        if k in (2, 3, 4):
            p, r = d[-1]
            d[-1] = (p, (("(%s)" % r) if has_top_alt(r) else r) + "$")
        out.append(d)
    return out


def random_defs(rng, n):
    out = []
    while len(out) < n:
        k = rng.choice((2, 3, 3, 4, 5))
        pub = rng.random() < 0.4
        d = []
        for i in range(k):
            d.append((pub, random_regex(rng, 2)))
            pub = not pub
        if sum(len(r) for _, r in d) < 60:
            out.append(d)
    return out


# definitions whose matches can be adjacent, nested in failed attempts, or end in a public part
REVEAL = [
    [(H, "a"), (P, "b")],
    [(P, "ab")],
    [(P, "a")],
    [(P, "a"), (H, "a")],
    [(H, "a"), (P, "a")],
    [(P, "a"), (H, "b"), (P, "a")],
    [(H, "a"), (P, "b+"), (H, "a")],
    [(H, "ab"), (P, "ab"), (H, "c")],
    [(H, "aab"), (P, "c")],
    [(P, "aab")],
    [(H, "(a|b)"), (P, "(a|b)"), (H, "c")],
    [(H, "a"), (P, "[^a]"), (H, "a")],
    [(H, "a"), (P, "[^c]+"), (H, "c")],
    [(P, "[a-z]+"), (H, "@"), (P, "[a-z]+"), (H, ";")],
    [(P, "[a-z]+"), (P, "@"), (P, "[a-z]+"), (P, ";")],
    [(H, "x"), (P, "a+"), (P, "b+")],
    [(H, "a"), (P, "(b|bc)"), (H, "d")],
    [(H, "a"), (P, "(bc|b)"), (P, "(d|cd)"), (H, "e")],
    [(P, "a{3}")],
    [(P, "(ab){2}")],
    [(P, "(a|b)+"), (H, "c")],
    [(H, "<"), (P, "[a-z]{1,3}"), (H, ">")],
    [(P, "x"), (H, "[0-9]+"), (P, "y"), (H, "[0-9]+"), (P, "z")],
    [(P, "é"), (H, "ü")],
    [(H, "é"), (P, "[à-ü]"), (H, "é")],
    [(H, "(a|é)"), (P, "末"), (H, "😀")],
]
ANCHORED = [
    [(H, "^"), (P, "a")],
    [(P, "^a")],
    [(P, "^a+"), (H, "b")],
    [(H, "^ab"), (P, "c")],
    [(H, "^"), (P, "ab"), (H, "$")],
    [(P, "ab$")],
    [(P, "a$")],
    [(H, "a"), (P, "b$")],
    [(H, "a"), (P, "[bc]$")],
    [(H, "(\n|^)x"), (P, "a[bc]$")],
    [(H, "a"), (P, "b+"), (H, "c$")],
    [(H, "a"), (P, "b+"), (H, "a$")],
    [(P, "a+"), (H, "b$")],
    [(P, "(ab)+$")],
    [(H, "x"), (P, "(ab)+$")],
    [(H, "(^|x)"), (P, "a+"), (H, "y")],
    [(H, "(x|^)"), (P, "a+"), (H, "x")],
    [(H, "[^a]"), (P, "[^b]$")],
    [(H, "[^b]a"), (P, "[]a]b$")],
    [(H, "^[^a]"), (P, "[^]a]b[^a]$")],
    [(H, "([^a]|^)b"), (P, "[]]c$")],
    [(H, "(a|ab|^)"), (P, "x")],
    [(H, "(a|a+b|^)"), (P, "x+"), (H, "y")],
    [(H, "(a+|^)"), (P, "x")],
    [(H, "(^|(ab)*c?)x"), (P, "y")],
    [(H, "(a?|^)b"), (P, "c"), (H, "d")],
    [(H, "(|^)b"), (P, "c+"), (H, "d$")],
    [(H, "(a*|^)b"), (P, "c+"), (H, "d")],
    [(H, "(b|((^)|c))b"), (P, "c+"), (H, "d")],
    [(H, "(^|a)"), (P, "a"), (H, "b")],
    [(H, "(a|^)b"), (P, "a+"), (H, "b$")],
    [(H, "(^|\r\n)k:"), (P, "[^\r\n]+"), (H, "\r\n")],
    [(H, "(\r\n|^)k:"), (P, "[^\r\n]+"), (H, "$")],
    [(H, "((a|b)|^)"), (P, "c+"), (H, "d")],
    [(H, "(^|[a-c])"), (P, "x"), (H, "y")],
    [(H, "([^a]|^)"), (P, "a+"), (H, "b")],
    [(H, "(^|[^a-z])id="), (P, "[0-9]+"), (H, ";")],
    [(H, "\\^"), (P, "a"), (H, "\\$")],
    [(H, "[$^]"), (P, "a"), (H, "[$^]")],
    [(P, "a\\$")],
    [(P, "a\\\\$")],
    [(H, "a[$]"), (P, "b"), (H, "[$]$")],
    [(H, "\\(^"), (P, "a"), (H, "b")] if False else [(H, "(\\(|^)"), (P, "a"), (H, "b")],
    [(H, "([(]|^)"), (P, "a"), (H, "b")],
    [(H, "([)]|^)c"), (P, "a"), (H, "b")],
    [(H, "(a(b|c)|^)d"), (P, "e"), (H, "f")],
    [(H, "(^|(\r\n))to:"), (P, "[^\r\n]+"), (H, "\r\n")],
    [(H, "(^|a)(b|c)"), (P, "d"), (H, "e")],
    [(H, "^(a|b)"), (P, "d"), (H, "e")],
    [(P, "^é"), (H, "a")],
    [(H, "a"), (P, "é$")],
    [(H, "[^a]"), (P, "b"), (H, "[^c]$")],
    [(H, "^[^a]"), (P, "b"), (H, "c")],
    [(H, "a]"), (P, "b"), (H, "c")],
    [(H, "[]a]"), (P, "b"), (H, "c")],
    [(H, "[^]a]"), (P, "b"), (H, "c")],
]

# for extraction only: look-around, atomic groups, possessive repetition, borders of words
FANCY = [
    [(H, "a"), (P, "(?:b(?!c))+"), (H, "b?c")],
    [(H, "(?<=x)a"), (P, "b+"), (H, "a?")],
    [(P, "(?<!x)a+"), (H, "b")],
    [(P, "a(?=b)"), (P, "b+"), (H, "a|$")],
    [(P, "a(?=(b|c)+d)"), (P, "[b-d]"), (P, "[b-d]*")],
    [(H, "(?>a|ab)"), (P, "b?c")],
    [(H, "(?>a+?|b)"), (P, "[ab]+")],
    [(P, "a++"), (H, "b")],
    [(P, "a*+"), (H, "ab?")],
    [(P, "(ab?)?+"), (P, "b")],
    [(P, "(?:a|b){1,2}+"), (P, "[a-c]?")],
    [(P, "(?!ab)[a-c]+"), (H, "c")],
    [(P, "(?!(?=a)ab)[a-c]+?"), (H, "(?!c)")],
    [(H, "(?i)(?=AB)a"), (P, "[b-d]+")],
    [(P, "\\b[ab]+\\b"), (H, "[ -]?")],
    [(H, "[^a]\\B"), (P, "[aé]+"), (H, "\\b")],
    [(H, "x(?=(a|b)c)"), (P, "(a|b)"), (H, "c")],
    [(P, "(?<=é)(末|b)+"), (H, "(?<!b)")],
    [(H, "(?<=ab|cd)"), (P, "(e|f)(g|)"), (P, "(?=h)(h)")],
    [(H, "^(?!a)"), (P, "[ab]+(?<=b)"), (H, "a?")],
    [(H, "(?<n>a)(?=(?<m>b))"), (P, "(b)(c)?")],
    [(H, "(?<![a-z])k="), (P, "[0-9]+(?![0-9])"), (H, ";?")],
    [(H, "(?:^|(?<=\\n))to:"), (P, "[^\n]+(?=\\n)")],
    [(P, "(?>(?:ab|a)(?:bc|c)?)"), (P, "b?c?d")],
    [(P, "((?>a*)b|a+)"), (P, "a|c")],
]

# definitions for extraction: groups of every kind, lazy and greedy, nullable parts, anchors
EXTRACT = [
    [(H, "a"), (P, ".+?"), (H, "b")],
    [(H, "a"), (P, ".+"), (H, "b")],
    [(H, "a"), (P, ".*?"), (H, "b")],
    [(H, "a"), (P, ".*"), (H, "b")],
    [(P, ".??"), (H, "b")],
    [(P, ".?"), (H, "b")],
    [(P, "a??"), (P, "a?"), (P, "a*")],
    [(P, "a*?"), (P, "a*"), (P, "a+?")],
    [(P, "(a|ab)"), (P, "(c|bcd)"), (P, "(d*)")],
    [(P, "(ab|a)"), (P, "(bc|c)?")],
    [(P, "a|ab"), (P, "c|bc")],
    [(P, "a|b"), (H, "c|d")],
    [(H, "a|"), (P, "b|"), (H, "c")],
    [(H, "(a)(b)?"), (P, "(c(d)?)"), (H, "(e)")],
    [(H, "((a)|(b))+"), (P, "((c)|(d))*"), (H, "e")],
    [(H, "(?:a|b)"), (P, "(?:c|d)+"), (H, "e")],
    [(H, "(?P<x>a)"), (P, "(?P<y>b+)"), (H, "c")],
    [(H, "(?P<x>a|(?P<z>b))"), (P, "(c)(?P<y>b+)"), (H, "c")],
    [(H, "\\("), (P, "[^)]+"), (H, "\\)")],
    [(H, "[(]"), (P, "[(a)]+"), (H, "[)]")],
    [(H, "\\(\\("), (P, "(\\(|a)+"), (H, "\\)")],
    [(H, "\\\\"), (P, "(a)"), (H, "\\\\")],
    [(H, "\\\\(a)"), (P, "(b)"), (H, "(c)")],
    [(H, "\\["), (P, "(a|\\])+"), (H, "\\]")],
    [(H, "[\\[(]"), (P, "(a)"), (H, "[\\])]")],
    [(H, "[^(]"), (P, "(a)+"), (H, "[^)]")],
    [(H, "(?i)a"), (P, "(b)"), (H, "c")],
    [(H, "(?i:a)"), (P, "(?i:b)+"), (H, "c")],
    [(P, "(?i)ab"), (P, "c(?i)d"), (P, "e")],
    [(P, "(?i)a"), (H, "b"), (P, "(?-i)c")],
    [(P, "(?s)a."), (P, ".b")],
    [(H, "(?s:a.)"), (P, ".(?i)b"), (P, "c")],
    [(P, "(?is)a.(?-s)."), (H, ".b")],
    [(H, "x(?i)a|b"), (P, "c")],
    [(P, "(?U)a+"), (P, "a+"), (P, "b?")],
    [(P, "a(?U)a+?"), (P, "(?U:a+?)a*"), (P, "a*")],
    [(P, "(?i:a(?-i)b)c"), (P, "d")],
    [(H, "a{2}"), (P, "(b){2,3}"), (H, "c{0,1}")],
    [(H, "a{2,}?"), (P, "(ab?){1,2}?"), (P, "b*")],
    [(H, "^a"), (P, "b+$")],
    [(H, "(^|a)"), (P, "(a|b)+"), (H, "($|c)")],
    [(H, "(\r\n|^)to:"), (P, "[^\r\n]+"), (H, "(\r\n|$)")],
    [(H, "^"), (P, ".*"), (H, "$")],
    [(P, ""), (P, "a"), (P, "")],
    [(P, "()"), (P, "(a())"), (H, "()")],
    [(H, "é"), (P, "(ü|末)+"), (H, "😀?")],
    [(H, "[^a]"), (P, "[^b]"), (H, "[^c]")],
    [(P, "(a*)*"), (H, "b")],
    [(P, "(a*)+"), (H, "b")],
    [(P, "(a|)*"), (P, "a")],
    [(P, "(|a)*"), (P, "a*")],
    [(P, "(|a)+"), (P, "a*")],
    [(P, "(a??)*"), (P, "a*")],
    [(P, "(a|b)*?"), (P, "b+?"), (P, "a?$")],
    [(P, "(ab|a)*"), (P, "b*")],
    [(P, "(a|ab)*?"), (P, "(b|ba)+")],
    [(P, "(a|ab)(c|bcd)(d*)")],
    [(H, "x"), (P, "[a-z0-9]+"), (H, "@"), (P, "[a-z.]+"), (H, "")],
]
EATOMS = ["\\d", "[[:alpha:]]", "(?x:a b)", "a", "b", "c", "a", "b", "ab", "[ab]", "[^a]", ".", "é", "[a-c]", "\\(", "[()]", "\\)", "a|b", "ab|a", "a|ab", "|a", "a|"]


def extract_defs(rng, n):
    """parts with groups of every kind and quantifiers of every kind, over few letters"""
    def e(d):
        k = rng.random()
        if d == 0 or k < 0.25:
            a = rng.choice(EATOMS)
            return a if "|" not in a else "(" + a + ")"
        if k < 0.6:
            return "".join(e(d - 1) for _ in range(rng.randint(1, 3)))
        body = "|".join(e(d - 1) for _ in range(rng.randint(1, 2)))
        g = rng.choice(["(", "(", "(?:", "(?P<g%d>" % rng.randrange(10 ** 6)]) + body + ")"
        return g + rng.choice(["", "+", "*", "?", "+?", "*?", "??", "{2}", "{1,2}", "{0,2}?", "{1,}", "{2,}?"])
    out = []
    # many parts, with groups of their own: more groups than one digit counts
    for i in range(n // 12):
        out.append([(rng.random() < 0.6, rng.choice(["(a|b)", "((a)|(b))?", "(?P<n%d>c)" % j, "(a(b)?)+?", "x", "[ab]", "(é|a)", "((x))", "b*"]))
                    for j in range(rng.randint(9, 18))])
        out[-1].insert(rng.randrange(9), (False, ""))
    while len(out) < n:
        d = [(rng.random() < 0.6, e(2)) for _ in range(rng.randint(1, 4))]
        if sum(len(r) for _, r in d) < 70:
            out.append(d)
    return out


def class_chains(rng, n):
    """one class after the other, made of the same few ranges and characters: gates are shared between transitions"""
    out = []
    for _ in range(n):
        ranges = rng.choice((["a-z"], ["A-Z"], ["a-z", "A-Z"], ["a-z", "A-Z"], ["a-y", "A-Z"]))
        singles = rng.sample("0123456789_@;:=%", rng.choice((2, 2, 3)))
        d, text = [], ""
        for _ in range(rng.randint(5, 9)):
            r = [x for x in ranges if rng.random() < 0.5]
            s = [x for x in singles if rng.random() < 0.5]
            if not r and not s:
                s = [rng.choice(singles)]
            text += "[" + "".join(r) + "".join(s) + "]" + rng.choice(("", "", "", "", "?"))
        if text.endswith("?"):
            text = text[:-1]
        out.append([(rng.random() < 0.3, text)])
    return out


# many states, many parts, many characters
LARGE = [
    [(False, "a{70}"), (True, "b+")],
    [(True, "(ab){40}"), (False, "c?d")],
    [(False, "(a|b){3}a{90}"), (True, "[a-c]")],
    [(False, "a{300}"), (True, "b+"), (False, "c")],
    [(True, "[a-c]{20}"), (False, "x[yz]{250}"), (True, "[0-9]")],
    [(i % 2 == 0, "abcdefghijklmnopqrstuvwxyz"[i] + "+") for i in range(26)],
    [(True, "[%s-%s]" % (chr(97 + i), chr(98 + i))) for i in range(13)],
    [(True, "k%d=" % i if i % 2 else "[a-z]{1,9}") for i in range(1, 24)],
    [(False, "(ab|cd){60}e?"), (True, "(f|g[hi]){30}"), (False, ";")],
    [(False, "|".join(a + b + "é" for a in "abcdefghij" for b in "klmnopq") + "|\\n"), (True, "[^a]{3}"), (False, "!")],
]


# more than a thousand states: for the tables only
HUGE = [[(False, "a{300}"), (True, "[bc]{400}"), (False, "d{330}e")]]

SOUP = ["a", "b", "(", ")", "[ab]", "[^a]", "^", "$", "\\", "*", "+", "?", "|", "{2}", "-", ".", "é", "(?:", "[^", "]", "|^)", "(^|", "x", "\n", "ab", "(a|", "(a", "b)",
        "[a-c&&b]", "[a-z--b]", "[[ab]x]", "(?i)", "(?i:", "(?s:", "(?x:", " ", "#", "[[:alpha:]]", "(?P<n>", "{1,2}", "+?", "\\$", "\\^", "[$^]", "[]a]", "[^]a]", "\\x61", "\\u{e9}", "(\r\n|^)", "$", "a$", "b+$"]


def edges(rng):
    """every ASCII character as an edge by itself, as the first and as the last of ranges, and characters of every length and plane"""
    at = lambda x: "\\x{%x}" % x
    rs = []
    for x in range(128):
        y = rng.randrange(128)
        rs += ["[%s]" % at(x), "[%s-%s]" % (at(x), at(min(127, x + rng.choice([1, 2, 3, 20])))), "[%s-%s]" % (at(min(x, y)), at(max(x, y))), "[^%s]" % at(x)]
        if x < 127:
            rs.append("[%s%s]" % (at(x), at(rng.randrange(128))))
    marks = [0x7F, 0x80, 0xFF, 0x100, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x3FFFF, 0x40000, 0x10FFFF]
    for _ in range(120):
        x, y = sorted(rng.choice(marks) if rng.random() < 0.4 else rng.choice([rng.randrange(0x80, 0x800), rng.randrange(0x800, 0xD800), rng.randrange(0xE000, 0x110000)])
                      for _ in range(2))
        rs.append(rng.choice(["[%s-%s]" % (at(x), at(y)), "[%s%s]" % (at(x), at(y)), "[^%s-%s]" % (at(x), at(y)), at(x), "[%s-%s]" % (at(x), at(x + rng.randrange(3)) if x < 0xD000 else at(x))]))
    rng.shuffle(rs)
    out = []
    while rs:
        out.append("(" + "|".join("%c%c%s" % (97 + i // 9, 65 + i % 9, r) for i, r in enumerate(rs[:12])) + ")!")
        rs = rs[12:]
    return out


def soup(rng, n):
    """definitions of parts put together from any tokens, as far as they are well formed"""
    import rx
    out = []
    while len(out) < n:
        w = ["".join(rng.choice(SOUP) for _ in range(rng.randint(2, 7))) for _ in range(2)]
        v = "".join(rng.choice(SOUP) for _ in range(rng.randint(1, 3)))
        d = rng.choice([[(H, w[0]), (P, "b")], [(H, "a"), (P, w[0])], [(P, w[0])], [(H, w[0]), (P, "x"), (H, "b$")], [(H, "(x|^)"), (P, w[0])], [(H, w[0]), (P, v)],
                        [(H, v), (P, w[0]), (H, v)], [(P, v), (H, w[0]), (P, w[1])]])
        try:
            rx.definition(d)
        except (rx.RxError, ValueError, IndexError):
            continue
        if d not in out:
            out.append(d)
    return out

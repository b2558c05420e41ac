"""Worlds: file contents, directory trees, arguments, and the fault plans laid over them.

Everything is drawn from the random.Random passed in, so a scenario is a function of the seed.
"""
import random, re
from . import words
from .elm import Gen, Program, debug
from .model import Tree
from .world import E, b

L1 = lambda x: x.decode("latin-1")

# texts that are not Elm: no tree may be reported for them
# what makes a text that was Elm certainly something else when it follows on a line of its own
SPOIL = ["\0", "\0" * 16, ")", "%%%", "= 1", "}", "]", "\x1a", "\x7f", "?", ",", "| x", "\\", "'", "\"abc", "{- open", "1", "let", "then x", "->", "@", "`", "\0" * 512]

# in front of a text that was Elm
SPOIL_FRONT = ["\ufeff", "\ufeff\n", "\0", "\u00a0", "\x0c", "\u200b", "#!/usr/bin/elm\n", ")", "<?xml?>\n", "\x1b[0m", "\ufffe", "1 ", "\x0b", "\u2028", "%\n"]
BLANK = [" ", "\n", "\r\n", "\t", "  \n", "\n\n\n\n", " \t \r\n", "\r"]

BAD = ["x", "x =", "= 1", "module", "module A", "import", "type A", "f x y", "1 + 2", "x = 1\n\n%%%", "x = (1", "x = [1, 2", "x = \"abc",
       "port", "x =\n    let\n        a = 1\n", "import 7", "{- open", "x = if a then b", "x = case y of", "é = 1", "?", "\\",
       "module A exposing (..)\n\nx = \n", "x = 1 +", "x = )", "\x00", "x = 'ab'"]


def known(program):
    return {"d": L1(program.bytes), "tr": {"ok": True, "dump": L1(program.dump()), "check": L1(program.check())}, "k": "program",
            "ext": program.extents, "names": len(program.names)}


class Pool:
    """Contents of one block of runs, made on first use. Entry n is a function of the key and n."""

    def __init__(self, key, size=60):
        self.key, self.size, self.made = key, size, {}

    def entry(self, n):
        if n not in self.made:
            r = random.Random("%s/%d" % (self.key, n))
            self.made[n] = make(r, n)
        return self.made[n]

    def pick(self, r, kinds=None, most=1 << 30):
        for _ in range(200):
            e = self.entry(r.randrange(self.size))
            if (kinds is None or e["k"] in kinds) and len(e["d"]) <= most:
                return e
        return known(Gen(r).program(1))

    def cheap(self, r):
        """a content that costs little to parse"""
        n = -1 - r.randrange(50)
        if n not in self.made:
            self.made[n] = self.make_cheap(random.Random("%s/%d" % (self.key, n)))
        return self.made[n]

    @staticmethod
    def make_cheap(r):
        n = r.randrange(100000)
        c = r.random()
        if c < 0.5:
            return simple("c%d = %d\n" % (n, n))
        if c < 0.7:
            return comment_file(r, r.randrange(1, 30))
        if c < 0.8:
            return {"d": "", "tr": None, "k": "empty"}
        return {"d": r.choice(BAD[:12]), "tr": {"ok": False}, "k": "bad"}


def simple(text):
    """`name = integer` lines"""
    tree, ext, o = [], [], 0
    for line in text.split("\n\n"):
        name, val = line.strip().split(" = ")
        tree.append(fun(name, int(val)))
        ext.append((o, o + len(line.rstrip("\n"))))
        o += len(line) + 2
    return {"d": text, "tr": {"ok": True, "dump": debug(tree) + "\n", "check": "[]\n"}, "k": "program", "ext": ext, "names": 0}


def fun(name, val):
    return ("Function", [("Function", {"signature": RAW_NONE, "definition": (
        "FunctionDefinition", {"name": name, "args": [], "body": ("Integer", [str(val)])})})])


from .elm import NONE as RAW_NONE  # noqa: E402


def comment_file(r, n, char=None):
    """one block comment of n characters and a value"""
    ch = char or r.choice("abcxyz é日🙂")
    body = "".join(r.choice("ab \n") for _ in range(min(n, 12))) + ch * max(0, n - 12)
    tag = r.randrange(10 ** 6)
    p = Program([("{-%s-}" % body, ("Comment", [body]), []),
                 ("v%d = %d" % (tag, tag), fun("v%d" % tag, tag), [])], "\n")
    return known(p)


def imports_file(r, n, mixed=False):
    g = Gen(r)
    sts = [g.st_module()] if r.random() < 0.5 else []
    for _ in range(n):
        sts.append(g.st_import() if not mixed or r.random() < 0.4 else ("v%d = %d" % (n, n), fun("v%d" % n, n), []))
    if r.random() < 0.5:
        sts.append(g.st_function())
    return known(Program(sts, r.choice(["", "\n"])))


TOKENS = [re.compile(x) for x in (r"\d+", r"\b[a-z]\w*", r"\b[A-Z]\w*", r"[-+*/=<>:&|^?%#@~!$.]+", r"\n *", r"[(\[{]", r"[)\]}]", r",", r'"[^"\n]*"', r"'[^']*'", r"(?m)--.*$")]


def extreme(r, text):
    """a program with one or two of its tokens, in whatever place the grammar has them, taken to an extreme"""
    for _ in range(r.choice([1, 1, 2])):
        at = [(k, [m.span() for m in x.finditer(text)]) for k, x in enumerate(TOKENS)]
        k, spans = r.choice([x for x in at if x[1]] or [(1, [(0, 0)])])
        a, z = r.choice(spans)
        t = text[a:z]
        n = r.choice([2, 8, 9, 10, 11, 16, 19, 20, 21, 31, 32, 39, 40, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300])
        if k == 0:
            t = r.choice(["9" * n, "0" * n + "1", str(2 ** r.choice([31, 32, 63, 64, 128]) - r.choice([0, 1])), "1" + "0" * n, t + "." + "3" * n, "00", "-" + t])
        elif k in (1, 2):
            t = r.choice([t + r.choice("aZ_9") * n, (t + ".") * min(n, 40) + t, " ".join([t] * min(n, 40)), t[:1], t + r.choice(["'", "_", "\u00e9"])])
        elif k == 3:
            t = r.choice([t * min(n, 40), t + r.choice("-+*/=<>:&|^?%#@~!$."), t[:1], "-" * n])
        elif k == 4:
            t = r.choice(["\n" * n, "\n" + " " * n, "\n" * n + " " * n, (t + " " * (n % 13)) * min(n, 40)])
        elif k == 7:
            t = r.choice([",,", ", " + ", ".join(r.choice(["x", "T", "1"]) + str(i) for i in range(n)) + ",", ",\n" * 2])
        elif k in (8, 9, 10):
            q = t[:1] if k < 10 else ""
            t = (q or "--") + words.text(r, n, "\"'\n") + q
        elif k == 5:
            t = t + " " * n if r.random() < 0.5 else t + "\n" * min(n, 3) + " " * n
        else:
            t = " " * n + t if r.random() < 0.5 else "\n" * min(n, 3) + " " * n + t
        text = text[:a] + t + text[z:]
    return text


def worded(r, text):
    """a program in which words of the language or of the sources stand where names were"""
    for _ in range(r.choice([1, 1, 2, 4, 8])):
        at = [m.span() for m in re.finditer(r"\b[A-Za-z]\w*", text)]
        a, z = r.choice(at or [(0, 0)])
        c = r.random()
        text = text[:a] + (r.choice(KEYWORDS) if c < 0.45 else words.pick(r, [w for w in words.STRINGS if w.isalnum() and w[0].isalpha() and w[0].isupper() == text[a:z][:1].isupper()] or ["x"]) if c < 0.7 else words.pick(r, [w for w in words.STRINGS if w.isalpha()] or ["x"])) + text[z:]
    return text


KEYWORDS = ("module where import as exposing type alias port if then else let in case of effect infix infixl infixr command subscription foreign "
            "True False Just Nothing").split()


def hostile(r):
    """characters, literals and shapes that a parser might treat in a way of its own; the answer is not known beforehand"""
    if r.random() < 0.10:
        return {"d": L1(worded(r, Gen(r).program(r.choice([1, 1, 2])).text).encode("utf-8", "replace")), "tr": None, "k": "hostile"}
    if r.random() < 0.25:
        return {"d": L1(extreme(r, Gen(r).program(r.choice([1, 1, 2])).text).encode("utf-8", "replace")), "tr": None, "k": "hostile"}
    parts = []
    for _ in range(r.choice([1, 1, 2, 3])):
        c = r.random()
        n = "h%d" % r.randrange(1000)
        long = r.choice([1, 2, 5, 20, 60]) if r.random() < 0.9 else r.choice([300, 2000, 4097, 9000, words.near(r, 5, 20000, 100)])
        if c < 0.22:
            parts.append("%s = '%s'" % (n, r.choice([words.char(r), words.char(r), "\\x%02x" % r.randrange(256), "\\" + words.char(r),
                                                        "\\%s%s%s" % (r.choice("xxxuUo0n"), "".join(r.choice("0123456789abcdefABCDEF{") for _ in range(r.choice([0, 1, 1, 2, 3, 4, 8]))), r.choice(["", words.char(r), words.char(r), "}"]))])))
        elif c < 0.40:
            parts.append('%s = "%s"' % (n, words.text(r, long, '"\n\\')))
        elif c < 0.48:
            parts.append('%s =\n    """%s"""' % (n, words.text(r, long, '"')))
        elif c < 0.60:
            parts.append("--" + words.text(r, long, "\n"))
        elif c < 0.70:
            parts.append("{-%s-}" % words.text(r, long, "-{}"))
        elif c < 0.75:
            parts.append("%s = %s" % (n, r.choice(["%d" % r.randrange(10 ** r.choice([10, 19, 20, 40, 80])), "0", "00", "-%d" % r.randrange(1000), "%d.%d" % (r.randrange(10 ** 20), r.randrange(10 ** 20)),
                                                    str(words.near(r, 2, 1 << 22, 7))])))
        elif c < 0.80:
            k = r.choice([10, 30, 64, 100, words.near(r, 5, 400, 50)])
            parts.append("%s = [%s]" % (n, ", ".join(str(r.randrange(100)) for _ in range(k))))
        elif c < 0.84:
            k = r.choice([5, 10, 17, 33])
            parts.append("%s %s = 1" % (n, " ".join("a%d" % i for i in range(k))))
        elif c < 0.88:
            k = r.choice([5, 10, 20, words.near(r, 3, 60, 12)])
            parts.append("%s = %s" % (n, (" %s " % r.choice(["+", "++", "::", "|>"])).join("b%d" % i for i in range(k))))
        elif c < 0.91:
            parts.append("import " + ".".join("M%d" % i for i in range(r.choice([3, 8, 20]))) + " exposing (" + ", ".join("e%d" % i for i in range(r.choice([1, 10, 60, words.near(r, 2, 300, 20)]))) + ")")
        elif c < 0.93:
            parts.append("%s : %s" % (n, " -> ".join("T%d" % i for i in range(r.choice([5, 20])))) + "\n%s = 1" % n)
        elif c < 0.95:
            k = r.choice([1, 2, 3, 4])
            parts.append("%s = %s1%s" % (n, "[" * k, "]" * k))
        elif c < 0.97:
            parts.append("%s = %s" % (words.pick(r, [w for w in words.NAMES if w.isidentifier()] or ["x"]), "1"))
        else:
            t = words.pick(r, words.STRINGS or ["x"])
            parts.append(r.choice(["%s", "x = %s", "x = \"%s\"", "-- %s", "x = 1 -- %s", "%s = 1"]) % t)
    d = r.choice(["\n\n", "\n\n\n"]).join(parts) + r.choice(["", "\n", "\n\n", " \n"])
    return {"d": L1(d.encode("utf-8", "replace")), "tr": None, "k": "hostile"}


def marked(r, g):
    """a program with a comment, name or text of the dictionary at its beginning or end"""
    p = g.program(r.choice([1, 1, 2]))
    w = words.pick(r, words.STRINGS or ["x"])
    t = r.choice(["-- %s\n", "--%s\n", "{-%s-}\n", "{- %s -}\n", "-- %s x\n", "{-| %s\n-}\n", "%s\n", "%s = 1\n", 'm = "%s"\n', "-- a %s\n"]) % w
    d = (t + r.choice(["", "\n"]) + p.text if r.random() < 0.7 else p.text.rstrip("\n") + "\n\n" + t).encode("utf-8", "replace")
    return {"d": L1(d), "tr": None, "k": "hostile"}


EDGES = [31, 32, 33, 63, 64, 255, 256, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537]


def make(r, n):
    g = Gen(r)
    c = r.random()
    if n < 3:
        c = 0.05                       # a few small programs in every pool
    if c < 0.40:
        return known(g.program(r.choice([1, 1, 1, 2, 2, 3])))
    if c < 0.46:
        return known(g.program(r.choice([4, 6, 9])))
    if c < 0.54:
        return imports_file(r, r.choice([1, 2, 3, 8]))
    if c < 0.59:                       # two texts of the same length and almost the same content
        if r.random() < 0.5:               # or even of the same characters
            return simple("same0 = 1%s\n" % "".join(r.sample("23456789", 8)))
        k = r.randrange(1, 9)
        return simple("same%d = %s\n" % (k, r.randrange(100000, 999999)))
    if c < 0.63:                       # a long common head, different tails
        head = "{-" + "h" * r.choice([40, 300, 5000]) + "-}"
        t = r.randrange(100, 999)
        sts = [(head, ("Comment", [head[2:-2]]), []), ("t = %d" % t, fun("t", t), [])]
        return known(Program(sts if r.random() < 0.6 else sts + sts[:1], "\n"))      # or the same end as well
    if c < 0.73:                       # sizes around the block sizes of readers and writers
        e = (r.choice(EDGES) if r.random() < 0.6 else words.near(r, 8, 200000, 8192)) + r.choice([0, -15, -16, -17, -20])
        return comment_file(r, max(1, e))
    if c < 0.738:
        return comment_file(r, r.choice([200000, 1 << 20]))
    if c < 0.74:
        k = r.random()
        return comment_file(r, r.choice([2, 4, 8, 16]) * (1 << 20) if k < 0.1 else words.near(r, 200000, 12 << 20, 1 << 21), r.choice("ab"))
    if c < 0.76:
        return marked(r, g)
    if c < 0.78:
        return hostile(r)
    if c < 0.80:
        t = r.randrange(2, 40)
        return simple("\n\n".join("k%d = %d" % (r.randrange(10 ** 4), r.randrange(10 ** 4)) for _ in range(t)) + "\n")
    if c < 0.83:
        return {"d": "", "tr": None, "k": "empty"}
    if c < 0.86:
        return {"d": r.choice([" ", "\n", "\n\n\n", "\t", "\r\n", "  \n ", "\ufeff".encode().decode("latin-1")]), "tr": None, "k": "blank"}
    if c < 0.90:
        p = g.program(r.choice([1, 1, 2, 3]))
        j = r.random()
        if j < 0.3:
            return {"d": L1((r.choice(SPOIL_FRONT) + p.text).encode()), "tr": {"ok": False}, "k": "bad"}
        if j < 0.5:                    # blanks around it change nothing
            e = known(p)
            front, back = r.choice(["", r.choice(BLANK), r.choice(BLANK)]), r.choice(["", r.choice(BLANK) * r.choice([1, 1, 5])])
            if back and not p.text.endswith("\n"):      # (a comment would go on up to the end of its line)
                back = "\n" + back
            e["d"] = L1((front + p.text + back).encode())
            e["ext"] = [[a + len(front), z + len(front)] for a, z in p.extents]
            return e
        return {"d": L1((p.text.rstrip("\n") + r.choice(["\n", "\n\n", "\n\n\n"]) + r.choice(SPOIL) + r.choice(["", "", "\n"])).encode()), "tr": {"ok": False}, "k": "bad"}
    if c < 0.94:
        d = r.choice(BAD)
        if r.random() < 0.3:
            d = g.program(1).text.rstrip("\n") + "\n\n" + d
            return {"d": L1(d.encode()), "tr": None, "k": "bad"}
        return {"d": L1(d.encode()), "tr": {"ok": False}, "k": "bad"}
    if c < 0.965:
        return bulky(r, g.program(r.choice([1, 1, 2])).bytes)
    if c < 0.985:
        return {"d": L1(transcribed(r, g.program(r.choice([1, 2, 3])).bytes)), "tr": None, "k": "odd"}
    p = g.program(r.choice([1, 2, 3])).bytes        # a program with an accident: may or may not be Elm
    o = r.randrange(len(p))
    d = r.choice([p[:o], p[:o] + p[o + 1:], p[:o] + bytes([r.choice(b"()[]{}\"'\\,=|.:x0 \n")]) + p[o:], p + p])
    return {"d": L1(d) if utf8(d) else L1(p), "tr": None, "k": "odd"}


def transcribed(r, p):
    """what editors, transfers and file systems do to a text: other line ends, blanks, padding"""
    def some(a, z):
        parts = p.split(a)
        every = r.random() < 0.6
        return b"".join(x if k == len(parts) - 1 else x + (z if every or r.random() < 0.3 else a) for k, x in enumerate(parts))
    c = r.randrange(14)
    if c < 3:
        return some(b"\n", b"\r\n")
    if c == 3:
        return some(b"\n", b"\r")
    if c == 4:
        return some(b"    ", b"\t")
    if c == 5:
        return some(b" ", r.choice(["\u00a0", "\u2003", "\t", "  ", "\u3000", "\x0b"]).encode())
    if c == 6:
        return some(b"\n", r.choice([" \n", "\t\n", "\x0c\n", "\u2028", "\u0085", "\n\r", "\n\n", "\r\r\n", "\0"]).encode())
    if c == 7:
        return p + b"\0" * r.choice([1, -len(p) % 512, -len(p) % 4096])
    if c == 8:
        return p + r.choice([b"\x1a", b"\r", b"\r\n\x1a", b"\x04", b"\xef\xbb\xbf"])
    if c == 9:
        return p.rstrip(b"\n") + b"\n" * r.choice([0, 2, 7, 300, 5000])
    if c == 10:
        return b"\n" * r.choice([1, 3, 400]) + p
    if c == 11:
        return b"\xef\xbb\xbf" + p
    if c == 12:
        k = r.choice([1, 4, 8])
        return b"".join(b" " * k + x for x in p.splitlines(True))
    return r.choice([p.replace(b'"', "\u201c".encode()), p.replace(b"'", "\u2019".encode()), p.replace(b"->", "\u2192".encode()), p.replace(b"-", "\u2013".encode()), p.expandtabs(8), p.upper(), p.swapcase()])


def bulky(r, p, limit=200000):
    """a text made long: what the parser finds only after, or before, or between a lot of other text"""
    n = min(limit, int(2 ** r.uniform(10, 17.6)))
    c = r.random()
    ch = r.choice(["x", "ab ", "\u00e9", "\u65e5", "\U0001f642", "a\u00e9", "line\n", " ", "-", "\u00e9\u65e5\n", "\n"])
    body = (ch * (n // len(ch.encode()) + 1))
    if c < 0.45:
        t = "{-%s-}" % body.replace("-", "=")
    elif c < 0.60:
        t = "\n".join("-- " + body[k:k + 70].replace("\n", " ") for k in range(0, min(len(body), 12000), 70))
    elif c < 0.75:
        t = 's%d = "%s"' % (r.randrange(99), body.replace("\n", " "))
    elif c < 0.85:
        t = 's%d =\n    """%s"""' % (r.randrange(99), body)
    else:
        t = "\n\n".join("k%d = %d" % (k, r.randrange(10 ** 6)) for k in range(min(400, n // 16)))
    t, p = t.encode(), p.strip(b"\n")
    if r.random() < 0.4:
        p = r.choice([p + b"\n\n" + r.choice(SPOIL).encode(), r.choice(SPOIL).encode() + b"\n\n" + p, p[:r.randrange(len(p) + 1)].decode("utf-8", "ignore").encode()])
    d = b"\n\n".join(r.choice([[t, p], [p, t], [t, p, t[:2000] if t[:2] == b"--" else b"z9 = 9"]])) + r.choice([b"", b"\n"])
    d = d[:limit].decode("utf-8", "ignore").encode()
    return {"d": L1(d), "tr": None, "k": "odd"}


def utf8(d):
    try:
        d.decode("utf-8")
        return True
    except UnicodeDecodeError:
        return False


def non_utf8(r, e):
    d = e["d"].encode("latin-1")
    o = r.randrange(len(d) + 1)
    bad = r.choice([b"\xff", b"\x80", b"\xc3", b"\xe6\x97", b"\xed\xa0\x80", b"\xc0\xaf", b"\xf4\x90\x80\x80"])
    d = d[:o] + bad + d[o:]
    if utf8(d):
        d = d + b"\xff"
    return {"d": L1(d), "tr": None, "k": "nonutf8"}


BLOCKS = [1, 1, 2, 3, 8, 16, 32, 64, 128, 512]


def damage(r, d, others):
    """what a failing disk makes of a stored file: blocks lost, zeroed, repeated, exchanged, misdirected, bits flipped, a tail torn off.
    Valid UTF-8 again afterwards (other bytes are C04's subject)."""
    for _ in range(r.choice([1, 1, 1, 2, 3, 5])):
        n = min(r.choice(BLOCKS), max(1, len(d)))
        if not d:
            break
        o = r.randrange(0, len(d) - n + 1) if r.random() < 0.6 else min(len(d) - n, r.randrange(0, len(d)) // n * n)
        c = r.random()
        if c < 0.15:
            d = d[:o] + d[o + n:]
        elif c < 0.25:
            d = d[:o] + bytes([r.choice([0, 0, 32, 10, 0x7f])]) * n + d[o + n:]
        elif c < 0.35:
            d = d[:o] + d[o:o + n] * r.choice([2, 2, 3, 8]) + d[o + n:]
        elif c < 0.50:
            q = r.randrange(0, len(d) - n + 1)
            a, z = min(o, q), max(o, q)
            if z >= a + n:
                d = d[:a] + d[z:z + n] + d[a + n:z] + d[a:a + n] + d[z + n:]
        elif c < 0.65 and others:
            x = r.choice(others)
            q = r.randrange(0, max(1, len(x) - n + 1))
            d = d[:o] + x[q:q + n] + d[o + n:]
        elif c < 0.80:
            d = d[:o] + bytes([d[o] ^ 1 << r.randrange(8)]) + d[o + 1:]
        elif c < 0.83:
            d = d[:o]
        elif c < 0.88:                 # the same byte again and again
            kinds = [k for k in (b"0123456789", b" ", b"\n", b"abcxyzABCXYZ_", b"\"'\\", b"-+*/=<>:&|.,") if any(x in d for x in k)] or [d]
            k = r.choice(kinds)
            at = [i for i, x in enumerate(d) if x in k]
            o = r.choice(at)
            d = d[:o] + d[o:o + 1] * r.choice([2, 5, 19, 20, 40, 70, 130, 257, 300, 400]) + d[o:]
        elif c < 0.93:
            w = words.pick(r, words.STRINGS).encode("utf-8", "replace") if words.STRINGS and r.random() < 0.5 else words.char(r).encode("utf-8", "replace")
            d = d[:o] + w + d[o + (n if r.random() < 0.5 else 0):]
        else:
            d = d[:o] + bytes([r.choice(b"()[]{}\"'\\,=|.:-_<> \n\tx0A")]) * r.choice([1, 1, 2, 3]) + d[o:]
    return d.decode("utf-8", "ignore").encode()


def nesting(d):
    """an upper bound on how deeply brackets nest"""
    depth = most = 0
    for c in d:
        if c in b"([{":
            depth += 1
            most = max(most, depth)
        elif c in b")]}" and depth:
            depth -= 1
    return most


# ---------------------------------------------------------------- trees
STEMS = ["Main", "A", "B", "a", "lower", "Basic", "Types", "Page Home", "é", "日本", "q\"uote", "back\\slash", "new\nline", "-q", "..", ".hidden",
         "X.elm", "x.y", "\xff\xfe", "tab\t", "Main2", "Very" + "Long" * 50, "%s", "$HOME", "*", "#x#", "~", "CON", "index", "Test", "elm", "1",
         "ÿ", "a'b"]
OTHERS = ["-", "elm", ".elm", "README.md", "Main.ELM", "Main.elm~", "Main.elm.bak", "Main.elmx", "elm.json", "Mainelm", "a.Elm", "Makefile", "x.elm ",
          "lib.rs", "Main.el", "elm.", "package.elm-json", "\xff", ".", "Main.elm."]
DIRS = ["src", "tests", "elm-stuff", "node_modules", ".git", ".hidden", "Dir.elm", "d", "日本", "a b", "\xfe\xff", "target", "build", "vendor",
        "examples", "dist", "x\"y", "Z", "_", "0", "lost+found", "generated", "Main.elm"]


def lat(s):
    """names are byte strings kept as latin-1; the ones written above as text are UTF-8"""
    try:
        s.encode("latin-1")
        return s
    except UnicodeEncodeError:
        return s.encode().decode("latin-1")


class World:
    def __init__(self, r, pool):
        self.r, self.pool = r, pool
        self.nodes = [{"t": "D"}]
        self.names = {0: set()}
        self.contents = []
        self.bulk = 0                                          # bytes in files of more than a megabyte

    def add(self, t, parent, name, **kw):
        if t == "F" and len(kw.get("d") or "") > 1 << 20:
            self.bulk += len(kw["d"])
            if self.bulk > 20 << 20 and self.bulk > len(kw["d"]):
                kw.update(d="x = 1\n", tr=None)
        n = {"t": t, "p": parent, "n": lat(name)}
        n.update({k: v for k, v in kw.items() if v not in (None, 0, "")})
        self.names.setdefault(parent, set()).add(n["n"])
        self.nodes.append(n)
        if t == "D":
            self.names[len(self.nodes) - 1] = set()
        return len(self.nodes) - 1

    def free(self, parent, options, suffix=""):
        for _ in range(8):
            n = lat(self.r.choice(options)) + suffix
            if words.NAMES and self.r.random() < 0.06:
                n = self.r.choice(["%s", "%s", "%s", "a%s", "%s2", "X%sY", "x.%s", "%s.y", ".%s", "%s_", "A-%s"]) % words.pick(self.r, words.NAMES)
                n += suffix if suffix and not n.endswith(suffix) else ""
            if n not in self.names[parent] and n not in ("", ".", "..") and len(n.encode("latin-1")) < 250:
                return n
        k = 0
        while True:
            n = "n%d%s" % (self.r.randrange(10 ** 6) + k, suffix)
            if n not in self.names[parent]:
                return n
            k += 1

    def flags(self):
        return 1 if self.r.random() < 0.15 else 0     # listed with type DT_UNKNOWN

    def attributes(self):
        """details of entries that say nothing about what they are: other devices below mount points, permission bits, inode numbers used twice"""
        c = self.r.random()
        for n in self.nodes[1:]:
            if n["t"] == "D" and c < 0.35 and self.r.random() < 0.3:
                n["dev"] = self.r.randrange(1, 9)
            if c > 0.2 and c < 0.5 and self.r.random() < 0.3:
                n["mode"] = self.r.choice([0, 0o111, 0o400, 0o444, 0o555, 0o600, 0o666, 0o755, 0o777, 0o4755, 0o1777, 0o2755])
            if c < 0.1 and n["t"] == "F" and self.r.random() < 0.5 and "ino" not in n:
                n["ino"] = self.r.choice([7, 8, 9])            # the same numbers on several devices

    def content(self, kinds=None, repeat=0.2):
        if self.contents and self.r.random() < repeat:
            return self.r.choice(self.contents)
        e = self.pool.pick(self.r, kinds)
        self.contents.append(e)
        return e

    def elm(self, parent, e, name=None):
        return self.add("F", parent, name or self.free(parent, STEMS, ".elm"), d=e["d"], tr=e.get("tr"), f=self.flags())

    def other(self, parent):
        return self.add("F", parent, self.free(parent, OTHERS), d=self.r.choice(["x = 1\n", "", "not elm"]), f=self.flags())

    def dir(self, parent, name=None):
        return self.add("D", parent, name or self.free(parent, DIRS), f=self.flags())

    def path(self, i):
        parts = []
        while i:
            parts.append(self.nodes[i]["n"])
            i = self.nodes[i]["p"]
        return "/" + "/".join(reversed(parts))

    def place(self, size=None):
        """a directory for the tree, and the working directory"""
        self.cwd = 0
        top = 0
        if self.r.random() < 0.7:
            top = self.dir(0, self.r.choice(["w", "home", "proj"] if self.r.random() < 0.85 else [x for x in DIRS if "\xff" not in x]))
            if self.r.random() < 0.4:
                top = self.dir(top, self.r.choice(["p", "src dir", "s"]))
        self.root = top
        return top

    def fill(self, top, n, depth=3, kinds=None, links=True, repeat=0.2):
        """n entries below top"""
        dirs = [top]
        files = []
        level = {top: 0}
        for _ in range(n):
            d = self.r.choice(dirs)
            c = self.r.random()
            if c < 0.25 and level[d] < depth:
                x = self.dir(d)
                level[x] = level[d] + 1
                dirs.append(x)
            elif c < 0.36:
                self.other(d)
            elif c < 0.44 and links:
                self.link(d, dirs, files)
            elif c < 0.47 and files:                       # a hard link: same data, same inode number
                o = self.nodes[self.r.choice(files)]
                o.setdefault("ino", 5000 + self.r.randrange(10 ** 6))
                self.add("F", d, self.free(d, STEMS, ".elm"), d=o.get("d", ""), tr=o.get("tr"), ino=o["ino"], f=self.flags())
            else:
                files.append(self.elm(d, self.content(kinds, repeat)))
        return dirs, files

    def link(self, d, dirs, files):
        c = self.r.random()
        if c < 0.4 and files:
            i = self.r.choice(files)
            t = self.path(i) if self.r.random() < 0.5 or self.nodes[i]["p"] != d else self.nodes[i]["n"]
            return self.add("L", d, self.free(d, STEMS, ".elm") if self.r.random() < 0.8 else self.free(d, OTHERS), d=t, f=self.flags())
        if c < 0.6:
            t = self.path(self.r.choice(dirs))
        else:
            t = self.r.choice([".", "..", "../..", "./."])
        return self.add("L", d, self.free(d, ["loop", "up", "Link.elm", "self", "latest"]), d=t, f=self.flags())

    def outside(self, top):
        """sources and directories beside the tree, and links from the tree to them"""
        r = self.r
        inside = [i for i, n in enumerate(self.nodes) if n["t"] == "D" and self.below(i, top)]
        at = self.dir(r.choice([0, 0, self.nodes[top].get("p", 0)]))
        for _ in range(r.choice([1, 1, 2, 3])):
            e = self.content(repeat=0.3)
            x = self.elm(at, e) if r.random() < 0.7 else self.add("F", at, self.free(at, OTHERS), d=e["d"], tr=e.get("tr"), f=self.flags())
            for _ in range(r.choice([1, 1, 2])):
                d = r.choice(inside)
                self.add("L", d, self.free(d, STEMS, ".elm"), d=self.path(x), f=self.flags())
        if r.random() < 0.3:
            d = r.choice(inside)
            self.add("L", d, self.free(d, ["Link.elm", "latest", "lib"]), d=self.path(at), f=self.flags())

    def below(self, i, top):
        while i and i != top:
            i = self.nodes[i].get("p", 0)
        return i == top

    def arg(self, i, cwd=None):
        """a way to name node i on the command line, and the working directory"""
        p = self.path(i)
        par = self.nodes[i].get("p", 0)
        name = self.nodes[i].get("n", "") if i else ""
        c = self.r.random()
        isdir = self.nodes[i]["t"] == "D"
        if name == "-" and c < 0.6:
            return "-", par
        if i == 0 or c < 0.35 or name.startswith("-"):
            return p, cwd or 0
        if c < 0.6:
            return name, par
        if c < 0.7:
            return self.r.choice(["./" + name, "./" + name, ".//" + name, "././" + name]), par
        if c < 0.78 and isdir:
            return name + "/", par
        if c < 0.86 and isdir:
            return self.r.choice([".", "./", "./."]), i
        if c < 0.93:
            return "../" + self.nodes[par]["n"] + "/" + name if par else name, par
        l = self.add("L", par, self.free(par, ["link", "current", "Root.elm"]), d=p)
        return self.path(l), 0

    def scenario(self, i, prog="dump", quiet=None):
        if self.r.random() < 0.5:
            self.attributes()
        a, cwd = self.arg(i)
        try:
            a.encode("latin-1").decode("utf-8")
        except UnicodeDecodeError:
            a, cwd = self.path(self.root), 0
        if a.startswith("-") and a != "-":
            a = "./" + a
        args = [a]
        if prog == "dump" and (self.r.random() < 0.35 if quiet is None else quiet):
            args.insert(self.r.randrange(2), self.r.choice(["-q", "--quiet"]))
        sc = {"prog": prog, "args": args, "nodes": self.nodes}
        if cwd:
            sc["cwd"] = cwd
        return sc


def shuffle_children(sc, r, w=None):
    """another listing order: renumber the nodes below the root directory"""
    n = len(sc["nodes"])
    order = list(range(1, n))
    r.shuffle(order)
    # parents must keep existing before their children in the list the kernel loads
    pos, out, seen = {0: 0}, [sc["nodes"][0]], {0}
    pending = order
    while pending:
        rest = []
        for i in pending:
            if sc["nodes"][i].get("p", 0) in seen:
                pos[i] = len(out)
                out.append(dict(sc["nodes"][i]))
                seen.add(i)
            else:
                rest.append(i)
        pending = rest
    for m in out[1:]:
        m["p"] = pos[m.get("p", 0)]
    sc["nodes"] = out
    if sc.get("cwd"):
        sc["cwd"] = pos[sc["cwd"]]
    if w:
        w.nodes = out
        w.names = {pos[i]: v for i, v in w.names.items()}
        w.root = pos[w.root]


def tree(r, pool, prog="dump", size=None, kinds=None, quiet=None, links=True, repeat=0.2, file_arg=0.12):
    """a scenario without faults: a tree (or one file) and arguments"""
    w = World(r, pool)
    top = w.place()
    if prog == "check" or r.random() < file_arg:
        w.fill(top, r.randrange(3), links=False)
        e = pool.pick(r, kinds)
        name = w.free(top, STEMS, ".elm") if r.random() < 0.8 else w.free(top, OTHERS)
        i = w.add("P" if r.random() < 0.04 else "F", top, name, d=e["d"], tr=e.get("tr"))
        return w.scenario(i, prog, quiet), w
    shape = r.random()
    if size is not None:
        w.fill(top, size, r.choice([1, 3, 9]), kinds, links, repeat)
    elif shape < 0.80:
        w.fill(top, r.choice([0, 1, 2, 3, 3, 4, 5, 6, 8, 10, 14]), r.choice([1, 2, 3, 9]), kinds, links, repeat)
    elif shape < 0.81:                                     # paths almost as long as the system allows
        d, most = top, r.choice([300, 520, 1100, 2100, 3900])
        while len(w.path(d)) < most - 260:
            d = w.dir(d, (r.choice(["d", "x y", "\u00e9"]) * 120)[:r.randrange(20, 120)] + str(r.randrange(10)))
            if r.random() < 0.3:
                w.elm(d, w.pool.cheap(r))
        w.elm(d, w.pool.cheap(r))
    elif shape < 0.90:                                     # deep
        deep(w, top, r.choice([9, 10, 11, 12, 15, 20, 40, 70, words.near(r, 3, 300, 33)]))
    elif shape < 0.975:                                    # wide
        wide(w, top, r.choice([15, 30, 40, 60, words.near(r, 3, 400, 70)]))
    elif shape < 0.9905:
        wide(w, top, r.choice([120, 260, 300]))
    elif shape < 0.992:                                    # thousands
        d = top
        for k in range(words.near(r, 1000, 4500, 1100) + r.choice([0, 0, 5, 40])):
            if k % 700 == 699 and r.random() < 0.5:
                d = w.dir(top, "d%d" % k)
            w.add("F", d, "f%d.elm" % k if r.random() < 0.97 else "f%d" % k, d="")
    else:
        deep(w, top, 300)
    if top and links and r.random() < 0.2:
        w.outside(top)
    sc = w.scenario(top, prog, quiet)
    if r.random() < 0.5:
        shuffle_children(sc, r, w)
    return sc, w


def plain_lines(r, n):
    """n short statements"""
    return "".join(r.choice(["x%d = %d", "x%d = %d", "f%d a = %d", "--c%d%d", "infixl %d%.0s <+>" if r.random() < 0.2 else "y%d = %d"]) % (i, i) + "\n\n" for i in range(n)) + "z = 1\n"


def flat(r):
    """one thing repeated very often, side by side and not inside itself"""
    n = r.choice([500, 2000, 5000, words.near(r, 5, 20000, 3000)])
    m = r.choice([3000, 250000, 250000, words.near(r, 5, 400000, 100000)])
    a = r.choice(["a", "1", "A", "'c'", '"s"', ".f", "[]", "()"])
    t = r.choice(["B", "b", "()", "List.B"])
    d = r.choice([
        lambda: "x = [%s]\n" % ", ".join([a] * n), lambda: "x = (%s)\n" % ", ".join([a] * n), lambda: "x = {%s}\n" % ", ".join(["a = " + a] * n),
        lambda: "import A exposing (%s)\n" % ", ".join(["a"] * n), lambda: "module A exposing (%s)\n" % ",".join(["a", "B"] * (n // 2)), lambda: "type A = %s\n" % " | ".join(["B"] * n),
        lambda: "type A = B %s\n" % " ".join([t] * n), lambda: "x %s = 1\n" % " ".join(["a"] * n), lambda: "x = \\%s -> 1\n" % " ".join(["a"] * n), lambda: "x = a%s\n" % (".b" * n),
        lambda: "x = %sb\n" % ("A." * n), lambda: "import %sB\n" % ("A." * n), lambda: "type alias A = {%s}\n" % ", ".join(["a : " + t] * n),
        lambda: "x =\n  case a of\n%s" % ("    %s -> 2\n" % r.choice(["1", "_", "A"]) * (n // 8)), lambda: "x =\n  let\n%s  in 1\n" % ("    a = 2\n" * (n // 4)),
        lambda: "x = 1\n\n" + "--a\n" * (n // 4) + "\ny = 1\n", lambda: "x = 1\n\n" * (n // 6), lambda: "import A\n" * (n // 4),
        lambda: "{-%s-}\n" % (r.choice(["\n", "a\n"]) * m), lambda: "{-%s-}\n" % (r.choice(["a ", "a\n", "--\n", "{- "]) * m), lambda: "x = 1\n" + "\n" * m + "y = 1\n", lambda: 'x = "%s"\n' % (r.choice(["a", "\\\\", '\\"', "\u00c3\u00a9", " "]) * m),
        lambda: 'x = """%s"""\n' % (r.choice(["a\n", "\n", "a"]) * m), lambda: "x =\n" + " " * m + "1\n", lambda: "x = " + "1" * m + "\n", lambda: "x" * m + " = 1\n", lambda: "x = 1 " + "+" * m + " 2\n",
        lambda: "x = 1" + " " * m + "+ 2\n", lambda: "x = 1 --" + r.choice(["-", "a", " a"]) * m + "\n", lambda: "x =" + "\n" * m + "  1\n"])()
    return {"d": d, "tr": None, "k": "damaged"}


def distinct(r, n):
    """a content in whose every word is a number to be replaced; n of them"""
    u = "uq00000"
    return r.choice([
        lambda: "x = 1\n\n--" + (u + "_ ") * n + "\n\ny = 1\n", lambda: "{-" + (u + "\n ") * n + "-}\n", lambda: 'x = "%s"\n' % ((u + " ") * n), lambda: 'x = """%s"""\n' % ((u + "\n") * n),
        lambda: "x = " + (u + "_") * n + "\n", lambda: (u + "_") * n + " = 1\n", lambda: "x = [%s]\n" % ", ".join("%s_%d" % (u, i) for i in range(min(n, 150))),
        lambda: "".join("%s_%d = %d\n\n" % (u, i, i) for i in range(min(n, 60))), lambda: "".join("infixl 5 %s_%d\n" % (u, i) for i in range(min(n, 60))),
        lambda: "".join("import A%s_%d exposing (%s, b)\n" % (u, i, u) for i in range(min(n, 60))), lambda: "type alias A%s = {%s}\n" % (u, ", ".join("%s_%d : B%s" % (u, i, u) for i in range(min(n, 60)))),
        lambda: "%" + (u + " ") * n, lambda: "x = 1\n\n" + (u + " ") * n, lambda: "port %s : A\n" % u * min(n, 20), lambda: "x = f 0x0 " + (" " + u) * min(n, 12) + "\n", lambda: "x = a.b." + (u + "_") * n + "\n"])()


def deep(w, top, depth, each=None):
    d = top
    per = w.r.choice([0, 0, 1, 2]) if depth < 100 else 0
    for k in range(depth):
        d = w.dir(d, "d%d" % k if depth < 100 else "d")
        if w.r.random() < 0.15 or k == depth - 1:
            w.elm(d, w.pool.cheap(w.r))
        for j in range(per):
            x = w.dir(d, "s%d" % j)
            if w.r.random() < 0.2:
                w.elm(x, w.pool.cheap(w.r))


def wide(w, top, n):
    bad = w.r.random() < 0.25                              # mostly files that do not parse
    for k in range(n):
        c = w.r.random()
        if bad and c < 0.6:
            w.add("F", top, "B%d.elm" % k, d=w.r.choice(BAD[:12]), tr={"ok": False})
            continue
        if c < 0.85:
            w.elm(top, w.pool.cheap(w.r), "F%d.elm" % k if w.r.random() < 0.9 else None)
        elif c < 0.92:
            x = w.dir(top, "dir%d" % k)
            if w.r.random() < 0.5:
                w.elm(x, w.pool.cheap(w.r))
        else:
            w.other(top)


# ---------------------------------------------------------------- faults
READ_ERR = ["EIO", "EIO", "EISDIR", "ENOMEM", "EAGAIN", "EBADF", "EINVAL", "ESTALE", "ETIMEDOUT", "ENXIO", "ENODATA", "EBADMSG", "ENOTCONN",
            "EUCLEAN", "EREMOTEIO", "ECANCELED", "ENOLINK", "EDEADLK", "EPERM", "EACCES", "EHOSTDOWN"]
OPEN_ERR = ["ENOENT", "EACCES", "EPERM", "EIO", "EMFILE", "ENFILE", "ENOMEM", "ENOTDIR", "EISDIR", "ELOOP", "ENXIO", "ENODEV", "EOVERFLOW",
            "ENAMETOOLONG", "ESTALE", "EBUSY", "ETIMEDOUT", "EINVAL", "EAGAIN", "ETXTBSY", "EROFS", "ENOMEDIUM", "EUCLEAN", "EREMOTEIO", "ENOTCONN", "EHOSTDOWN", "ENOLINK"]
STAT_ERR = ["ENOENT", "EACCES", "EIO", "ELOOP", "ENOMEM", "ENOTDIR", "EOVERFLOW", "ESTALE", "ENAMETOOLONG", "EPERM", "ENOTCONN", "ETIMEDOUT", "EHOSTDOWN", "EUCLEAN", "EINVAL"]
DIR_ERR = ["ENOENT", "EACCES", "EIO", "EMFILE", "ENFILE", "ENOMEM", "ENOTDIR", "ESTALE", "EPERM", "EBADF", "EINVAL", "EUCLEAN", "EBADMSG", "ENOTCONN", "ETIMEDOUT", "EOVERFLOW"]
OUT_ERR = ["ENOSPC", "EIO", "EPIPE", "EAGAIN", "EFBIG", "EDQUOT", "EINVAL", "ENXIO", "EPERM", "ESTALE", "ETIMEDOUT", "EREMOTEIO", "EROFS", "ECANCELED"]
ERRS = {"open": OPEN_ERR, "read": READ_ERR, "stat": STAT_ERR, "lstat": STAT_ERR, "fstat": STAT_ERR, "opendir": DIR_ERR, "readdir": DIR_ERR,
        "closedir": ["EIO"], "close": ["EIO", "EDQUOT"], "out": OUT_ERR, "err": OUT_ERR}


# what Rust's library, or this simulation's contract, gives a meaning of its own: EINTR is retried, a bad descriptor on stdout is taken for a closed one
SPECIAL = {E["EINTR"], E["EBADF"]}


def err_for(r, op):
    if op not in ("close", "closedir") and r.random() < 0.15:
        e = r.randrange(1, 134) if r.random() < 0.7 or not words.INTS else r.choice(words.INTS)
        if 0 < e < 134 and e not in SPECIAL:
            return e
    return E[r.choice(ERRS.get(op, OPEN_ERR))]


def op_fault(r, ref, ops):
    """one error at a position the fault-free run reaches"""
    ops = [o for o in ops if ref.op_count.get(o)]
    if not ops:
        return None
    op = r.choice(ops)
    return {"op": op, "nth": r.randrange(1, ref.op_count[op] + 1), "fx": "errno", "arg": err_for(r, op),
            "rep": r.choice([1, 1, 1, 2, 5, 1000000])}


def node_fault(r, sc, nodes=None):
    cands = nodes if nodes is not None else list(range(1, len(sc["nodes"])))
    if not cands:
        return None
    i = r.choice(cands)
    t = sc["nodes"][i]["t"]
    kind = r.choice(["opendir", "opendir", "readdir", "readdir", "stat", "lstat"] if t == "D" else ["open", "open", "read", "read", "stat", "lstat"])
    f = {"node": i, "kind": kind, "err": err_for(r, kind)}
    if kind == "read":
        f["at"] = r.choice([0, 1, r.randrange(len(sc["nodes"][i].get("d", "")) + 2)])
    if kind == "readdir":
        f["at"] = r.randrange(0, 6)
    f["times"] = r.choice([0, 0, 1, 2])
    return f


CHUNKS = [[1], [2], [3], [5], [7], [1, 0], [13, 1], [31], [32], [33], [100], [1, 2, 3, 4], [4096], [1000, 1], [8191], [16]]


def pattern(r, eintr=True):
    p = list(r.choice(CHUNKS))
    if r.random() < 0.3:
        p = [r.randrange(1, 50) for _ in range(r.randrange(1, 6))]
    if eintr and r.random() < 0.5:
        for _ in range(r.randrange(1, 4)):
            p.insert(r.randrange(len(p) + 1), -1)
    return p


def total(sc):
    return sum(len(n.get("d", "")) for n in sc["nodes"])


VARS = ["RUST_LOG", "NO_COLOR", "COLUMNS", "LINES", "TERM", "LANG", "LC_ALL", "LC_CTYPE", "LANGUAGE", "HOME", "TMPDIR", "PWD", "ELM_HOME", "TZ", "RUST_MIN_STACK",
        "CLICOLOR", "CLICOLOR_FORCE", "FORCE_COLOR", "SHLVL", "USER", "CI", "DEBUG", "EDITOR", "VERBOSE", "QUIET", "ELM_PARSER_DEBUG", "ELM_PARSER_QUIET",
        "ELM_PATH", "RUST_BACKTRACE", "RUST_LIB_BACKTRACE", "XDG_CACHE_HOME", "POSIXLY_CORRECT", "PAGER", "COLORTERM", "HOSTNAME", "LOGNAME", "TRACE",
        "SOURCE_DATE_EPOCH", "PATH"]
VALS = ["", "0", "1", "true", "C", "tr_TR.UTF-8", "de_DE.ISO-8859-1", "/", "/nonexistent", "full", "debug", "80", "never", "always", "dumb", "xterm-256color", "\xff\xfe"]
ENV_WORDS = [w for w in words.NAMES if w.replace("_", "a").isalnum() and w not in VARS]
ALIEN = ("clock", "jump", "pid", "cpus", "seed", "tty")


def alien(r, sc):
    """another machine: environment, clock, terminal, processes, data of entries"""
    sc["env"] = sorted("%s=%s" % (n, r.choice(VALS)) for n in r.sample(VARS + ENV_WORDS, 8) if n != "RUST_MIN_STACK")
    cfg = sc.setdefault("cfg", {})
    cfg.update(clock=r.choice([0, 1, 10 ** 18, r.randrange(2 ** 62)]), jump=r.choice([0, 10 ** 9, 10 ** 15]), pid=r.choice([1, 2, 4194303]), cpus=r.choice([1, 2, 64]),
               seed=r.randrange(1, 2 ** 60), tty=r.choice([0, 1, 3, 7]))
    for n in sc["nodes"]:
        if r.random() < 0.3:
            n["mtime"] = r.choice([0, 1, -1, 2 ** 31, r.randrange(2 ** 33)])


def soften(r, sc):
    """perturbations no run may be affected by: chunking, interruptions, latency, false sizes, listing details"""
    big = total(sc) > 20000
    if r.random() < 0.4:
        sc["rpat"] = pattern(r) if not big else [r.choice([4096, 8191, 1000])] + ([-1] if r.random() < 0.5 else [])
    if r.random() < 0.3:
        sc["wpat"] = pattern(r) if not big else [r.choice([4096, 1000])] + ([-1] if r.random() < 0.5 else [])
    for op in ("open", "read", "out"):
        if r.random() < 0.15:
            sc.setdefault("faults", []).append({"op": op, "nth": r.randrange(1, 12), "fx": "errno", "arg": E["EINTR"], "rep": r.choice([1, 2, 7])})
    cfg = sc.setdefault("cfg", {})
    if r.random() < 0.2:                                   # should the tool ever have threads, these run in some other order
        cfg.update(srandom=1, sprob=r.choice([1 << 12, 1 << 16, 1 << 18]), sseed=r.randrange(1, 2 ** 60))
    if r.random() < 0.3:
        cfg["lat"] = r.choice([1000, 10 ** 6, 10 ** 9, 10 ** 11])
    if r.random() < 0.3:
        cfg["dots"] = r.randrange(8)
    if r.random() < 0.15:
        cfg["own"] = r.randrange(1, 2 ** 40)
    if r.random() < 0.05:
        cfg["uid"] = r.choice([0, 65534])
    if r.random() < 0.12:
        alien(r, sc)
    for n in sc["nodes"]:
        if n["t"] == "F" and r.random() < 0.06:
            k = len(n.get("d", ""))
            n["size"] = r.choice([0, 1, max(0, k - 1), k + 1, k // 2, 2 * k + 10, 100000, 1 << 22])
    return sc


BASE = {"cfg", "env", "arg0", "rpat", "wpat", "faults", "nf", "muts", "pre"}


def plain(sc):
    """the same world without faults, perturbations or environment"""
    out = {k: v for k, v in sc.items() if k not in BASE}
    if any("size" in n or "mtime" in n for n in sc["nodes"]):
        out["nodes"] = [{k: v for k, v in n.items() if k not in ("size", "mtime")} for n in sc["nodes"]]
    return out


ORDERS = ["*\n", "**/*.elm\n", "1\n", "true\n", "", "quiet = true\n", "{}\n", "-q\n", "{\"quiet\": true}", "\xff"]


def asked_for(sc, run):
    """paths outside the scenario's entries that a run asked for and that are not there"""
    t = Tree(sc)
    out = []
    for e in run.events:
        if e.op in ("open", "stat", "lstat", "access", "opendir") and e.err == 2 and e.data and e.data not in out:
            d, _, n = e.data.rpartition(b"/")
            d = 0 if not d and e.data[:1] == b"/" else t.resolve(t.cwd, d or b".")
            if n and n not in (b".", b"..") and d is not None and t.nodes[d]["t"] == "D" and not any(t.name(k) == n for k in t.kids.get(d, ())):
                out.append(e.data)
    return out


def supply(r, sc, path):
    """the entry to add for a path that is not there"""
    t = Tree(sc)
    d, _, n = path.rpartition(b"/")
    d = 0 if not d and path[:1] == b"/" else t.resolve(t.cwd, d or b".")
    near = [L1(t.name(k)) for k in t.kids.get(d, ())]
    c = r.choice(ORDERS + ["\n".join(near) + "\n"] + ["%s\n" % x for x in near[:3]])
    return {"t": "F" if r.random() < 0.85 else "D", "p": d, "n": L1(n), "d": c}

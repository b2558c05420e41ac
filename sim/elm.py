"""Generator of Elm sources together with the syntax tree the tools must print for them.

The expected tree is built while the text is built, without looking at the code under test, and
printed by `debug` in the layout of Rust's pretty Debug output. Every source carries names and
literals of its own, so a report can be attributed to one file and a lost, repeated or mixed-up
part shows.
"""
import random, re
from . import words


class Raw(str):
    """A unit value, printed as it is."""


NONE = Raw("None")


def rust_str(s):
    """Rust's Debug form of a string made of printable characters."""
    out = ['"']
    for c in s:
        out.append({'"': '\\"', "\\": "\\\\", "\n": "\\n", "\t": "\\t", "\r": "\\r", "\0": "\\0"}.get(c, c))
    return "".join(out) + '"'


def debug(v, ind=0):
    """`{:#?}` of a tree: str -> "..", Raw as is, list -> [..], (name, [..]) -> name(..), (name, {..}) -> name {..}."""
    if isinstance(v, Raw):
        return str(v)
    if isinstance(v, str):
        return rust_str(v)
    if isinstance(v, int):
        return str(v)
    pad, inner = "    " * ind, "    " * (ind + 1)
    if isinstance(v, list):
        return "[]" if not v else "[\n" + "".join(inner + debug(x, ind + 1) + ",\n" for x in v) + pad + "]"
    name, body = v
    if isinstance(body, dict):
        return name + " {\n" + "".join("%s%s: %s,\n" % (inner, k, debug(x, ind + 1)) for k, x in body.items()) + pad + "}"
    return name + "(\n" + "".join(inner + debug(x, ind + 1) + ",\n" for x in body) + pad + ")"


def some(x):
    return ("Some", [x])


RESERVED = {"module", "where", "import", "as", "exposing", "type", "alias", "port", "if", "then", "else", "let", "in", "case", "of",
            "infix", "infixl", "infixr", "effect"}
OPS = ["+", "-", "*", "/", "++", "::", "|>", "<|", ">>", "<<", "==", "/=", "<", ">", "<=", ">=", "&&", "||", "//", "^", "%", "<>", "|.", "|="]
WORDS = ["model", "view", "update", "html", "div", "list", "head", "tail", "msg", "flags", "user", "name", "age", "x", "y", "f", "g", "acc",
         "item", "items", "decode", "encode", "cmd", "sub", "none", "map", "fold", "zipWith", "toString", "isOk", "n1", "a_b"]
UPS = ["List", "Maybe", "Html", "Msg", "Model", "User", "Dict", "Json", "Decode", "Cmd", "Sub", "Platform", "Basics", "Int", "String", "T1", "A_b"]
TEXT = ["hello", "a b", "", "é", "日本語", "🙂", "x=1", "{-", "--", "-}", "[..]", "tab", "' '", "ñandú", "…", "\\\\", "\\n", "\\\"", "( , )", "Ω≈ç"]

# names that the sources of the parser mention
OWN_LO = [w for w in words.STRINGS if re.fullmatch("[a-z][A-Za-z0-9_]*", w) and w not in RESERVED and len(w) < 60]
OWN_UP = [w for w in words.STRINGS if re.fullmatch("[A-Z][A-Za-z0-9_]*", w) and len(w) < 60]
OWN_RATE = 0.06 if any(w in words.NEW for w in OWN_LO + OWN_UP) else 0.02


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.u = 4                                  # unit of indentation

    def chance(self, p):
        return self.r.random() < p

    def few(self, xs):
        """how many of something: mostly as many as people write, sometimes more"""
        if not self.chance(0.012):
            return self.r.choice(xs)
        return max(xs) + (self.r.choice([1, 1, 2, 3, 5, 8]) if self.chance(0.8) else words.near(self.r, 1, 70, 12))

    def lo(self):
        if self.chance(0.01):
            return "".join(self.r.choice("abcxyzXYZ019_") for _ in range(self.r.choice([20, 40, 80, 300]))).lower().lstrip("0123456789_") + "q"
        if OWN_LO and self.chance(OWN_RATE):
            return words.pick(self.r, OWN_LO)
        w = self.r.choice(WORDS)
        if self.chance(0.6):
            w += self.r.choice("ABCXYZabcxyz") + str(self.r.randrange(1000))
        return w

    def up(self):
        if OWN_UP and self.chance(OWN_RATE):
            return words.pick(self.r, OWN_UP)
        w = self.r.choice(UPS)
        if self.chance(0.5):
            w += str(self.r.randrange(1000))
        return w

    def op(self):
        if self.chance(0.06):
            while True:
                o = "".join(self.r.choice("+*/=<>&|^?%#@~!$:.-") for _ in range(self.r.choice([1, 2, 2, 3, 4])))
                if o not in ("=", ".", "..", "->", "--", "|", ":") and "--" not in o:
                    return o
        return self.r.choice(OPS)

    def tvar(self):
        return self.r.choice(["a", "b", "c", "m", "v", "msg", "a1", "comparable", "e_"])

    def note(self, pad):
        """what may stand between two tokens on different lines: the line break, sometimes with comments"""
        if self.chance(0.93):
            return pad
        c = " ".join(self.r.choice(["word", "x = 1", "é", "\"", "TODO", "{-", "--", "]", "in", "->"]) for _ in range(self.r.randrange(0, 4)))
        return self.r.choice([pad + "--" + c + pad, " -- " + c + pad, "\n" + pad, pad + "-- " + c + "\n" + pad])

    def modname(self):
        return [self.up() for _ in range(self.few([1, 1, 1, 2, 2, 3]) if self.chance(0.95) else self.r.choice([4, 4, 5, words.near(self.r, 2, 20, 4)]))]

    # ---- exports
    def export_item(self):
        k = self.r.random()
        if k < 0.5:
            n = self.lo()
            return n, ("FunctionExport", [n]), n
        if k < 0.6:
            o = self.op()
            return "(%s)" % o, ("FunctionExport", [o]), o
        n = self.up()
        k = self.r.random()
        if k < 0.4:
            return n, ("TypeExport", [n, NONE]), None
        if k < 0.7:
            return n + "(..)", ("TypeExport", [n, some(Raw("AllExport"))]), None
        cs = [self.up() for _ in range(self.few([1, 2, 3]))]
        return "%s(%s)" % (n, ", ".join(cs)), ("TypeExport", [n, some(("SubsetExport", [[("FunctionExport", [c]) for c in cs]]))]), None

    def exports(self, allow_newlines=True):
        """(text, tree, exposed value names)"""
        if self.chance(0.3):
            return "(..)", Raw("AllExport"), []
        items = [self.export_item() for _ in range(self.few([1, 1, 2, 3, 4]))]
        sep = self.r.choice([", ", ",", " , ", "\n    , ", ",\n  "] if allow_newlines else [", "])
        op, cl = self.r.choice([("(", ")"), ("( ", " )")])
        if "\n" in sep and self.chance(0.5):
            cl = "\n    )"
        return (op + sep.join(i[0] for i in items) + cl, ("SubsetExport", [[i[1] for i in items]]), [i[2] for i in items if i[2]])

    # ---- types
    def type_atom(self, d):
        k = self.r.random()
        if k < 0.25:
            v = self.tvar()
            return v, ("TypeVariable", [v])
        if k < 0.65 or d <= 0:
            m = [self.up() for _ in range(self.few([1, 1, 1, 2]))]
            return ".".join(m), ("TypeConstructor", [m, []])
        if k < 0.75:
            ts = [self.type_app(d - 1) for _ in range(self.few([0, 2, 2, 3]))]
            return "(" + ", ".join(t[0] for t in ts) + ")", ("TypeTuple", [[t[1] for t in ts]])
        if k < 0.85:
            return self.type_record(d - 1)
        if k < 0.92:
            t = self.type_ann(d - 1, parts=[2, 2, 3])
            return "(" + t[0] + ")", t[1]
        t = self.type_app(d - 1, force=True)
        # a single type between parentheses is a one-element tuple for this parser
        return "(" + t[0] + ")", ("TypeTuple", [[t[1]]])

    def type_record(self, d):
        fs = [(self.lo(), self.type_ann(d)) for _ in range(self.few([0, 1, 2, 3]))]
        if not fs:
            return "{}", ("TypeRecord", [[]])
        body = ", ".join("%s : %s" % (n, t[0]) for n, t in fs)
        tree = [("", [n, t[1]]) for n, t in fs]
        if self.chance(0.25):
            v = self.tvar()
            return "{ %s | %s }" % (v, body), ("TypeRecordConstructor", [("TypeVariable", [v]), tree])
        return "{ %s }" % body, ("TypeRecord", [tree])

    def type_app(self, d, force=False):
        if d > 0 and (force or self.chance(0.4)):
            m = [self.up() for _ in range(self.few([1, 1, 2]))]
            args = [self.type_atom(d - 1) for _ in range(self.few([1, 1, 2]))]
            return ".".join(m) + " " + " ".join(a[0] for a in args), ("TypeConstructor", [m, [a[1] for a in args]])
        return self.type_atom(d)

    def type_ann(self, d=2, parts=(1, 1, 2, 3), arrow=" -> "):
        ts = [self.type_app(d) for _ in range(self.few(parts))]
        tree = ts[-1][1]
        for t in reversed(ts[:-1]):
            tree = ("TypeApplication", [t[1], tree])
        return arrow.join(t[0] for t in ts), tree

    def lines_record(self, n):
        """a record type over several lines, its braces at column n"""
        pad = "\n" + " " * n
        fs = [(self.lo(), self.type_ann(1)) for _ in range(self.few([1, 2, 3, 6]))]
        return "{ " + (pad + ", ").join("%s : %s" % (m, t[0]) for m, t in fs) + pad + "}", ("TypeRecord", [[("", [m, t[1]]) for m, t in fs]])

    def signature(self, n):
        """what follows the name in `name : type`, the name being at column n"""
        if self.chance(0.15):
            pad = "\n" + " " * (n + self.u)
            t = self.type_ann(2, parts=[1, 2, 3], arrow=pad + "-> ")
            return " :" + self.note(pad) + t[0], t[1]
        t = self.type_ann(2)
        return " : " + t[0], t[1]

    # ---- expressions on one line
    def string_lit(self):
        n = self.r.randrange(0, 4) if self.chance(0.85) else self.r.choice([6, 12, 30, 100])
        t = "".join(self.r.choice(TEXT) + self.r.choice(["", " ", "_"]) for _ in range(n)) + str(self.r.randrange(10 ** 6))
        if self.chance(0.08):
            t = t.replace('\\"', "").replace('"', "") + self.r.choice(["", "\n", "\n    x = 1\n", "\n\n\n"])
            return '"""%s"""' % t, ("String", [t])
        return '"%s"' % t, ("String", [t])

    def sign(self):
        return self.r.choice("+-") if self.chance(0.08) else ""

    def atom(self, d):
        k = self.r.random()
        if k < 0.22:
            n = self.lo()
            return n, ("Variable", [[n]])
        if k < 0.30:
            m = [self.up() for _ in range(self.few([1, 1, 2]))]
            return ".".join(m), ("Variable", [m])
        if k < 0.38:
            if self.chance(0.5):
                m = [self.up() for _ in range(self.few([1, 2]))]
                fs = [self.lo()]
                return ".".join(m + fs), ("Access", [("Variable", [m]), fs])
            n, fs = self.lo(), [self.lo() for _ in range(self.few([1, 1, 2]))]
            return ".".join([n] + fs), ("Access", [("Variable", [[n]]), fs])
        if k < 0.50:
            n = self.sign() + str(self.r.randrange(10 ** (self.r.randrange(1, 9) if self.chance(0.97) else self.r.choice([19, 20, 39, 60]))))
            return n, ("Integer", [n])
        if k < 0.55:
            n = self.sign() + "%d.%d" % (self.r.randrange(1000), self.r.randrange(1000))
            return n, ("Float", [n])
        if k < 0.65:
            return self.string_lit()
        if k < 0.70:
            if self.chance(0.4):
                c = self.r.randrange(0x21, 0x7E)
                ch = chr(c)
                text = "'\\x%02x'" % c if self.chance(0.5) else "'\\x%02X'" % c
            else:
                ch = self.r.choice("abcXYZ0189 _+-é日🙂\"")
                text = "'%s'" % ch
            shown = {"'": "\\'", "\\": "\\\\"}.get(ch, ch)
            return text, ("Character", [Raw("'%s'" % shown)])
        if k < 0.73:
            n = self.lo()
            return "." + n, ("AccessFunction", [n])
        if k < 0.76:
            o = self.op()
            return "(%s)" % o, ("Variable", [[o]])
        if d <= 0:
            n = self.lo()
            return n, ("Variable", [[n]])
        if k < 0.84:
            xs = [self.expr(d - 1) for _ in range(self.few([0, 1, 2, 3]))]
            op, cl = self.r.choice([("[", "]"), ("[ ", " ]")]) if xs else ("[", "]")
            return op + self.r.choice([", ", ","]).join(x[0] for x in xs) + cl, ("List", [[x[1] for x in xs]])
        if k < 0.89:
            xs = [self.expr(d - 1) for _ in range(self.few([0, 2, 2, 3]))]
            op, cl = self.r.choice([("(", ")"), ("( ", " )")]) if xs else ("(", ")")
            return op + ", ".join(x[0] for x in xs) + cl, ("Tuple", [[x[1] for x in xs]])
        if k < 0.93:
            fs = [(self.lo(), self.expr(d - 1)) for _ in range(self.few([0, 1, 2, 3]))]
            if not fs:
                return "{}", ("Record", [[]])
            return ("{ " + ", ".join("%s = %s" % (n, e[0]) for n, e in fs) + " }", ("Record", [[("", [n, e[1]]) for n, e in fs]]))
        if k < 0.96:
            n = self.lo()
            fs = [(self.lo(), self.expr(d - 1)) for _ in range(self.few([1, 2]))]
            return ("{ %s | " % n + ", ".join("%s = %s" % (m, e[0]) for m, e in fs) + " }",
                    ("RecordUpdate", [n, [("", [m, e[1]]) for m, e in fs]]))
        e = self.expr(d - 1)
        return "(" + e[0] + ")", e[1]

    def app(self, d):
        xs = [self.atom(d) for _ in range(self.few([1, 1, 1, 2, 2, 3, 4]))]
        tree = xs[0][1]
        for x in xs[1:]:
            tree = ("Application", [tree, x[1]])
        return " ".join(x[0] for x in xs), tree

    def expr(self, d):
        k = self.r.random()
        if k < 0.62 or d <= 0:
            return self.app(d)
        if k < 0.85:
            parts = [self.app(d - 1) for _ in range(self.few([2, 2, 3, 4]))]
            ops = [self.op() for _ in parts[1:]]
            text = parts[0][0]
            for o, q in zip(ops, parts[1:]):
                text += " %s %s" % (o, q[0])
            tree = parts[-1][1]
            for o, q in zip(reversed(ops), reversed(parts[:-1])):
                tree = ("BinOp", [("Variable", [[o]]), q[1], tree])
            return text, tree
        if k < 0.93:
            a, b, c = self.app(d - 1), self.app(d - 1), self.app(d - 1)
            return "(if %s then %s else %s)" % (a[0], b[0], c[0]), ("If", [a[1], b[1], c[1]])
        ps = [self.pattern() for _ in range(self.few([1, 2]))]
        e = self.app(d - 1)
        return "(\\%s -> %s)" % (" ".join(p[0] for p in ps), e[0]), ("Lambda", [[p[1] for p in ps], e[1]])

    def pattern(self):
        k = self.r.random()
        if k < 0.6:
            n = self.lo()
            return n, ("Variable", [[n]])
        if k < 0.75:
            return "_", ("Variable", [["_"]])
        xs = [self.lo() for _ in range(2)]
        return "(%s)" % ", ".join(xs), ("Tuple", [[("Variable", [[x]]) for x in xs]])

    # ---- bodies over several lines, indented by `n`
    def case_pattern(self):
        k = self.r.random()
        if k < 0.45:
            return self.app(0)
        if k < 0.6:
            c, xs = self.up(), [self.pattern() for _ in range(self.few([0, 1, 2]))]
            tree = ("Variable", [[c]])
            for x in xs:
                tree = ("Application", [tree, x[1]])
            return " ".join([c] + [x[0] for x in xs]), tree
        if k < 0.7:
            a, b = self.lo(), self.lo()
            o = self.r.choice(["::", "as"])
            return "%s %s %s" % (a, o, b), ("BinOp", [("Variable", [[o]]), ("Variable", [[a]]), ("Variable", [[b]])])
        if k < 0.8:
            xs = [self.pattern() for _ in range(self.few([0, 1, 2]))]
            return "[" + ", ".join(x[0] for x in xs) + "]", ("List", [[x[1] for x in xs]])
        if k < 0.9:
            xs = [self.lo() for _ in range(self.few([1, 2]))]
            return self.fields(xs)
        return self.pattern()

    def fields(self, xs):
        return "{" + self.r.choice([" ", ""]).join(["", ", ".join(xs), ""]) + "}", ("Record", [[("", [x, ("Variable", [[x]])]) for x in xs]])

    def body(self, n, d):
        k = self.r.random()
        u = self.u
        pad, in1, in2 = "\n" + " " * n, "\n" + " " * (n + u), "\n" + " " * (n + 2 * u)
        if d <= 0 or k < 0.45:
            return self.expr(2)
        if k < 0.60:
            arms, trees = [], []
            e = self.app(1)
            for _ in range(self.few([1, 2, 3])):
                m = self.case_pattern()
                if self.chance(0.2):
                    x = self.expr(1)
                    arms.append(in1 + m[0] + " -> " + x[0])
                else:
                    x = self.body(n + 2 * u, d - 1)
                    arms.append(in1 + m[0] + " ->" + self.note(in2) + x[0])
                trees.append(("", [m[1], x[1]]))
            return "case %s of" % e[0] + self.r.choice(["", "\n"]).join(arms), ("Case", [e[1], trees])
        if k < 0.74:
            binds, trees = [], []
            for _ in range(self.few([1, 2, 3])):
                nm = self.lo()
                x = self.body(n + 2 * u, d - 1)
                j = self.r.random()
                if j < 0.35:
                    binds.append(in1 + nm + " =" + self.note(in2) + x[0])
                    trees.append(("LetBinding", [("Variable", [[nm]]), x[1]]))
                elif j < 0.5:
                    if self.chance(0.5):
                        xs = [self.lo() for _ in range(self.few([2, 2, 3]))]
                        t = "(" + ", ".join(xs) + ")", ("Tuple", [[("Variable", [[y]]) for y in xs]])
                    else:
                        t = self.fields([self.lo() for _ in range(self.few([1, 2]))])
                    binds.append(in1 + t[0] + " =" + self.note(in2) + x[0])
                    trees.append(("LetBinding", [t[1], x[1]]))
                else:
                    args = [self.pattern() for _ in range(self.few([1, 1, 2]))]
                    text, sig = in1, NONE
                    if self.chance(0.3):
                        t = self.signature(n + u)
                        text += nm + t[0] + in1
                        sig = some(("FunctionSignature", {"name": nm, "type_": t[1]}))
                    binds.append(text + " ".join([nm] + [a[0] for a in args]) + " =" + self.note(in2) + x[0])
                    trees.append(("LetFunction", [("Function", {"signature": sig, "definition": (
                        "FunctionDefinition", {"name": nm, "args": [a[1] for a in args], "body": x[1]})})]))
            e = self.body(n + u, d - 1)
            return "let" + self.r.choice(["", "\n"]).join(binds) + pad + "in" + in1 + e[0], ("Let", [trees, e[1]])
        if k < 0.81:
            c, a, b = self.app(1), self.body(n + u, d - 1), self.body(n + u, d - 1)
            return "if %s then" % c[0] + self.note(in1) + a[0] + pad + "else" + self.note(in1) + b[0], ("If", [c[1], a[1], b[1]])
        if k < 0.87:
            xs = [self.body(n + 2, d - 1) if self.chance(0.2) else self.expr(1) for _ in range(self.few([1, 2, 3, 5]))]
            if self.chance(0.6):
                return "[ " + (pad + ", ").join(x[0] for x in xs) + pad + "]", ("List", [[x[1] for x in xs]])
            if len(xs) > 1:
                return "( " + (pad + ", ").join(x[0] for x in xs) + pad + ")", ("Tuple", [[x[1] for x in xs]])
            return xs[0]
        if k < 0.92:
            fs = [(self.lo(), self.expr(1)) for _ in range(self.few([1, 2, 3, 5]))]
            text = (pad + ", ").join("%s = %s" % (m, e[0]) for m, e in fs) + pad + "}"
            tree = [("", [m, e[1]]) for m, e in fs]
            if self.chance(0.4):
                m = self.lo()
                text = (in1 + ", ").join("%s = %s" % (q, e[0]) for q, e in fs) + pad + "}"
                return "{ " + m + in1 + "| " + text, ("RecordUpdate", [m, tree])
            return "{ " + text, ("Record", [tree])
        if k < 0.95:
            xs = [self.atom(1) for _ in range(self.few([2, 3, 4]))]
            tree = xs[0][1]
            for x in xs[1:]:
                tree = ("Application", [tree, x[1]])
            return in1.join(x[0] for x in xs), tree
        parts = [self.app(1) for _ in range(3)]
        o1, o2 = self.op(), self.op()
        return (parts[0][0] + in1 + "%s %s" % (o1, parts[1][0]) + in1 + "%s %s" % (o2, parts[2][0]),
                ("BinOp", [("Variable", [[o1]]), parts[0][1], ("BinOp", [("Variable", [[o2]]), parts[1][1], parts[2][1]])]))

    # ---- statements: (text, tree, exposed imported names)
    def st_module(self):
        m = self.modname()
        e = self.exports()
        k = self.r.random()
        if k < 0.7:
            return "module %s exposing %s" % (".".join(m), e[0]), ("ModuleDeclaration", [m, e[1]]), []
        if k < 0.85:
            return "port module %s exposing %s" % (".".join(m), e[0]), ("PortModuleDeclaration", [m, e[1]]), []
        ws = [(self.lo(), self.up()) for _ in range(self.few([1, 2]))]
        return ("effect module %s where { %s } exposing %s" % (".".join(m), ", ".join("%s = %s" % w for w in ws), e[0])).replace("{ ", "{").replace(" }", "}") \
            if False else "effect module %s where {%s} exposing %s" % (".".join(m), ", ".join("%s = %s" % w for w in ws), e[0]), \
            ("EffectModuleDeclaration", [m, [("", list(w)) for w in ws], e[1]]), []

    def st_import(self):
        m = self.modname()
        text, alias, exp, names = "import " + ".".join(m), NONE, NONE, []
        if self.chance(0.35):
            a = self.up()
            text += " as " + a
            alias = some(a)
        if self.chance(0.7):
            e = self.exports()
            text += " exposing " + e[0]
            exp = some(e[1])
            names = e[2]
        return text, ("ImportStatement", [m, alias, exp]), names

    def st_alias(self):
        n = self.up()
        t = self.type_ann(2) if self.chance(0.3) else self.type_record(2) if self.chance(0.5) else self.lines_record(self.u)
        return "type alias %s =\n%s%s" % (n, " " * self.u, t[0]), ("TypeAliasDeclaration", [("TypeConstructor", [[n], []]), t[1]]), []

    def st_type(self):
        n = self.up()
        vs = [self.r.choice("abm") for _ in range(self.few([0, 0, 1]))]
        cs = []
        for _ in range(self.few([1, 2, 3])):
            c = self.up()
            args = [self.type_atom(1) for _ in range(self.few([0, 0, 1, 2]))]
            cs.append((" ".join([c] + [a[0] for a in args]), ("TypeConstructor", [[c], [a[1] for a in args]])))
        pad = "\n" + " " * self.u
        sep = pad + "| " if self.chance(0.6) else " | "
        text = "type %s" % " ".join([n] + vs) + pad + "= " + sep.join(c[0] for c in cs)
        return text, ("TypeDeclaration", [("TypeConstructor", [[n], [("TypeVariable", [v]) for v in vs]]), [c[1] for c in cs]]), []

    def st_port_type(self):
        n, t = self.lo(), self.type_ann(2)
        return "port %s : %s" % (n, t[0]), ("PortTypeDeclaration", [n, t[1]]), []

    def st_port(self):
        n = self.lo()
        args = [self.lo() for _ in range(self.few([0, 1, 2]))]
        e = self.expr(2)
        return "port %s =\n%s%s" % (" ".join([n] + args), " " * self.u, e[0]), ("PortDeclaration", [n, args, e[1]]), []

    def st_function(self):
        if self.chance(0.1):
            n = self.op()
            shown = "(%s)" % n
        else:
            n = shown = self.lo()
        args = [self.pattern() for _ in range(self.few([0, 0, 1, 2, 3]))]
        sig, text = NONE, ""
        if self.chance(0.5):
            t = self.signature(0)
            text = "%s%s\n" % (shown, t[0])
            sig = some(("FunctionSignature", {"name": n, "type_": t[1]}))
        b = self.body(self.u, self.r.choice([0, 1, 1, 2]))
        text += " ".join([shown] + [a[0] for a in args]) + " =" + self.note("\n" + " " * self.u) + b[0]
        return text, ("Function", [("Function", {"signature": sig, "definition": (
            "FunctionDefinition", {"name": n, "args": [a[1] for a in args], "body": b[1]})})]), []

    def st_infix(self):
        a, w = self.r.choice([("L", "infixl"), ("R", "infixr"), ("N", "infix")])
        n = self.r.randrange(10) if self.chance(0.75) else self.r.choice([10, 12, 31, 99, 255, 256, 65536, 2 ** 31, 2 ** 63 - 1, self.r.randrange(10 ** self.r.randrange(2, 19))])
        o = self.op() if self.chance(0.7) else self.lo()
        return "%s %d %s" % (w, n, o), ("InfixDeclaration", [Raw(a), n, o]), []

    def st_comment(self):
        t = " ".join(self.r.choice(TEXT[:7] + TEXT[11:13] + ["word", "note"]) for _ in range(self.r.randrange(0, 6))) + str(self.r.randrange(10 ** 6))
        if self.chance(0.5):
            return "--" + t, ("Comment", [t]), []
        t = t.replace("-}", "").replace("{-", "") + self.r.choice(["", "\n more\n", "\n\n  x = 1\n"])
        return "{-" + t + "-}", ("Comment", [t]), []

    def statement(self):
        return self.r.choices([self.st_import, self.st_alias, self.st_type, self.st_port_type, self.st_port, self.st_function, self.st_infix,
                               self.st_comment], [4, 2, 3, 1, 1, 8, 1, 2])[0]()

    def program(self, size=None, header=None):
        size = self.r.choice([1, 1, 2, 3, 4, 6]) if size is None else size
        self.u = 4 if self.chance(0.75) else self.r.choice([1, 2, 2, 3, 6, 8]) if self.chance(0.6) else words.near(self.r, 1, 150, 12)
        sts = []
        if header if header is not None else self.chance(0.7):
            sts.append(self.st_module())
        while len(sts) < size:
            sts.append(self.statement())
        return Program(sts, self.r.choice(["", "\n", "\n", "\n\n"]), [self.r.choice(["\n\n", "\n\n\n"]) for _ in sts])


class Program:
    """statements with their byte extents, the whole text, the tree, the imported value names"""

    def __init__(self, sts, tail="\n", seps=None):
        self.sts = sts
        text, self.extents = "", []
        for i, s in enumerate(sts):
            if i:
                text += seps[i] if seps else "\n\n"
            start = len(text.encode())
            text += s[0]
            self.extents.append((start, len(text.encode())))
        self.text = text + tail
        self.bytes = self.text.encode()
        self.tree = [s[1] for s in sts]
        self.names = [n for s in sts for n in s[2]]

    def dump(self):
        return (debug(self.tree) + "\n").encode()

    def check(self):
        return (debug(list(self.names)) + "\n").encode()

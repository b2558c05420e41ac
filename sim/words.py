"""Constants of the code under test, used as a dictionary when worlds and contents are drawn.

What a check drew is part of its scenario, so a replay file does not depend on this. Nothing is judged by it.
"""
import glob, json, os, re
from .build import REPO


def _unescape(s):
    def f(m):
        x = m.group(1)
        if x[0] == "u":
            try:
                return chr(int(x[2:-1], 16))
            except ValueError:
                return ""
        if x[0] == "x":
            return chr(int(x[1:], 16))
        return {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(x, x)
    return re.sub(r"\\(u\{[0-9a-fA-F]+\}|x[0-9a-fA-F]{2}|.)", f, s, flags=re.S)


def load(repo=REPO):
    ints, strings, chars = set(), set(), set()
    for p in sorted(glob.glob(os.path.join(repo, "src", "**", "*.rs"), recursive=True)):
        try:
            t = open(p, encoding="utf-8", errors="replace").read()
        except OSError:
            continue
        t = t.split("#[cfg(test)]")[0]
        t = re.sub(r"^\s*//.*$", "", t, flags=re.M)
        for m in re.finditer(r'b?r(#*)"(.*?)"\1', t, re.S):
            strings.add(m.group(2))
        t = re.sub(r'b?r(#*)"(.*?)"\1', " ", t, flags=re.S)
        for m in re.finditer(r'"((?:[^"\\]|\\.)*)"', t, re.S):
            strings.add(_unescape(m.group(1)))
        t = re.sub(r'"((?:[^"\\]|\\.)*)"', " ", t, flags=re.S)
        for m in re.finditer(r"'(\\u\{[0-9a-fA-F]+\}|\\x..|\\.|[^'\\])'", t):
            chars.add(_unescape(m.group(1)))
        num = r"(0x[0-9a-fA-F_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|128|size))?"
        for m in re.finditer(r"\b" + num + r"(?:\s*(<<|\*)\s*" + num + r")?(?:\s*(<<|\*)\s*" + num + r")?", t):
            try:
                v = [int(x.replace("_", ""), 0) if x.startswith("0x") else int(x.replace("_", "")) for x in (m.group(1), m.group(3), m.group(5)) if x]
            except ValueError:
                continue
            ints.update(v)
            x = v[0]
            for op, k in zip((m.group(2), m.group(4)), v[1:]):
                x = x << min(k, 40) if op == "<<" else x * k
            ints.add(x)
    strings = {s for s in strings if 0 < len(s) <= 200}
    for s in list(strings):                       # parts of format strings
        strings.update(x for x in re.split(r"\{[^}]*\}", s) if 0 < len(x) <= 200)
        strings.update(x for x in re.split(r"[^A-Za-z0-9_.\-]+", s) if 1 < len(x) <= 60)
    return sorted(i for i in ints if 2 <= i <= 1 << 26), sorted(strings), sorted(chars)


INTS, STRINGS, CHARS = load()
NAMES = [s for s in STRINGS if s.isascii() and s.isprintable() and "/" not in s and s not in (".", "..") and len(s) < 100]

# the words the sources had when this was written; others are tried more often
try:
    OLD = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "words.json"), encoding="utf-8"))
except OSError:
    OLD = {"ints": [], "strings": [], "chars": []}
NEW = set(INTS) - set(OLD["ints"]) | set(STRINGS) - set(OLD["strings"]) | set(CHARS) - set(OLD["chars"])


def pick(r, xs):
    """one of these words; every other time one that is new, if there is any"""
    new = [x for x in xs if x in NEW]
    return r.choice(new if new and r.random() < 0.5 else xs)


def near(r, low, high, default):
    """a number of the dictionary or next to one, within bounds; at times any of every magnitude"""
    if low > 0 and high > low and r.random() < 0.3:
        return int(low * (high / low) ** r.random())
    xs = [i for i in INTS if low <= i <= high]
    if not xs:
        return default
    return min(high, max(low, pick(r, xs) + r.choice([-1, 0, 1, 1, 2])))


# ---- characters that programs treat in ways of their own
ODD_CHARS = "\u00a0\u00ad\u034f\u061c\u115f\u1680\u180e\u2000\u2003\u2009\u200a\u200b\u200c\u200d\u200e\u200f\u2028\u2029\u202a\u202e\u202f\u205f\u2060\u2066\u2069\u3000\ufeff\ufffc\ufffd" \
    "\x00\x01\x07\x08\x0b\x0c\x1b\x1f\x7f\x80\x85\x9b\xff" "\u0301\u0345\u20dd\u3099\ufe0f\ufe0e" "\u0130\u0131\u017f\u212a\u1e9e\ufb01\u01c5\u03c2ßſ" "\ue000\uf8ff\ufdd0\ufffe\uffff" \
    "\U0001f468\U0001f3fd\U0001f1e9\U000e0001\U000e0020\U000f0000\U0010ffff\U0001d538\U00010400\U0001fffe\u0660\u0967\uff11Ⅷ½²" "\"'\\`´‘’“”«»\t\r{}()[]|.,:;=<>+-*/&^%$#@!?~_"


def char(r):
    c = r.random()
    if c < 0.35:
        return r.choice(ODD_CHARS)
    if c < 0.5 and CHARS:
        return pick(r, CHARS)
    if c < 0.75:
        return chr(r.randrange(1, 0x250))
    while True:
        o = r.randrange(0x110000) if c > 0.9 else r.randrange(0x250, 0x3100)
        if not 0xD800 <= o < 0xE000:
            return chr(o)


def text(r, n, avoid=""):
    out = []
    while len(out) < n:
        c = r.random()
        if c < 0.3:
            out.extend(r.choice(["hello ", "a", "x = 1", "word ", "0123456789", "\\n", "\\\\"]))
        elif c < 0.45 and STRINGS:
            out.extend(pick(r, STRINGS))
        elif c < 0.6:
            out.extend(char(r) * r.choice([1, 2, 10]))
        else:
            out.append(char(r))
    return "".join(c for c in out[:n] if c not in avoid)


if __name__ == "__main__":
    json.dump({"ints": INTS, "strings": STRINGS, "chars": CHARS}, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "words.json"), "w"), indent=0)

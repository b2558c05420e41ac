"""The reference model: what the tools must do in a world, and what a recorded run did."""
import re
from collections import Counter
from .world import Lab, b, E


# ---------------------------------------------------------------- names and paths
def path_debug(p):
    """Rust's Debug form of a path given as bytes."""
    out, i, n = ['"'], 0, len(p)
    while i < n:
        for k in (1, 2, 3, 4):
            try:
                c = p[i:i + k].decode("utf-8")
            except UnicodeDecodeError:
                continue
            if len(c) == 1:
                break
        else:
            out.append("\\x%02X" % p[i])
            i += 1
            continue
        i += k
        o = ord(c)
        if c in '"\\':
            out.append("\\" + c)
        elif c in "\n\t\r\0":
            out.append({"\n": "\\n", "\t": "\\t", "\r": "\\r", "\0": "\\0"}[c])
        elif o < 0x20 or o == 0x7F:
            out.append("\\u{%x}" % o)
        else:
            out.append(c)
    return ("".join(out) + '"').encode()


def is_elm(name):
    return name.endswith(b".elm") and len(name) > 4


class Tree:
    """The model's view of a scenario's file system at the start of the run."""

    def __init__(self, sc):
        self.nodes = sc["nodes"]
        self.kids = {}
        for i, n in enumerate(self.nodes):
            if i and not n.get("f", 0) & 2:
                self.kids.setdefault(n.get("p", 0), []).append(i)
        self.cwd = sc.get("cwd", 0)

    def name(self, i):
        return b(self.nodes[i].get("n", ""))

    def data(self, i):
        return b(self.nodes[i].get("d", ""))

    def resolve(self, start, path, follow=True, depth=0):
        """node index or None; no permission model"""
        if depth > 40 or not path or len(path) >= 4096:
            return None
        d = 0 if path[:1] == b"/" else start
        parts = [x for x in path.split(b"/") if x]
        trailing = path.endswith(b"/")
        for k, part in enumerate(parts):
            if self.nodes[d]["t"] != "D" or len(part) > 255:
                return None
            if part == b".":
                c = d
            elif part == b"..":
                c = self.nodes[d].get("p", 0)
            else:
                c = next((x for x in self.kids.get(d, ()) if self.name(x) == part), None)
                if c is None:
                    return None
            last = k == len(parts) - 1
            if self.nodes[c]["t"] == "L" and (not last or follow or trailing):
                c = self.resolve(d, self.data(c), True, depth + 1)
                if c is None:
                    return None
            if (not last or trailing) and self.nodes[c]["t"] != "D":
                return None
            d = c
        return d

    def walk(self, arg):
        """[(path, node or None)] of the files a run on `arg` must report, in listing order; None if arg names nothing"""
        arg = b(arg)
        root = self.resolve(self.cwd, arg)
        if root is None:
            return None
        if self.nodes[root]["t"] != "D":
            return [(arg, root)]
        out = []

        def go(d, path):
            for c in self.kids.get(d, ()):
                p = path + (b"" if path.endswith(b"/") else b"/") + self.name(c)
                t = self.nodes[c]["t"]
                if t == "D":
                    go(c, p)
                elif is_elm(self.name(c)):
                    if t == "L":
                        x = self.resolve(d, self.data(c))
                        if x is not None and self.nodes[x]["t"] == "D":
                            continue
                        out.append((p, x))
                    else:
                        out.append((p, c))
        go(root, arg)
        return out

    def entries(self):
        return len(self.nodes)


# ---------------------------------------------------------------- what a run did
class FileRead:
    __slots__ = ("node", "path", "fd", "data", "eof", "error", "open_at", "done_at", "out_at_read", "closed")


def file_reads(sc, r):
    """Every opening of something that is not a directory, with the bytes delivered to it, in order of opening."""
    live, out, swapped = {}, [], {}
    kinds = {i: n["t"] for i, n in enumerate(sc["nodes"])}
    for k, e in enumerate(r.events):
        if e.op == "event" and e.fx == 7:
            kinds[e.a] = chr(e.ret)
        elif e.op == "open" and e.ret >= 0 and kinds.get(e.a) != "D":
            f = FileRead()
            f.node, f.path, f.fd, f.data, f.eof, f.error, f.open_at, f.done_at, f.out_at_read, f.closed = \
                e.a, e.data, e.ret, bytearray(), False, 0, k, None, None, False
            live[e.ret] = f
            out.append(f)
        elif e.op == "read" and e.a in live:
            f = live[e.a]
            if f.out_at_read is None:
                f.out_at_read = e.outlen
            if e.err:
                if e.err != E["EINTR"]:
                    f.error = e.err
            else:
                off = int.from_bytes(e.data[:8], "little")
                d = e.data[8:]
                if e.ret == 0:
                    f.eof, f.done_at = True, k
                else:
                    f.eof = False
                    f.data[off:off + len(d)] = d
        elif e.op == "close" and e.a in live:
            live.pop(e.a).closed = True
    merged = []
    for f in out:                       # opened again before anything else: one reading
        if merged and merged[-1].path == f.path and merged[-1].node == f.node and merged[-1].closed and not merged[-1].error:
            if f.out_at_read is None or merged[-1].out_at_read is not None:
                f.out_at_read = merged[-1].out_at_read
            merged[-1] = f
        else:
            merged.append(f)
    return merged


def valid_utf8(x):
    try:
        bytes(x).decode("utf-8")
        return True
    except UnicodeDecodeError:
        return False


class Oracle:
    """Expected reports: from a run of the tool on the content alone, or, where `truth` is set, from the generator if the
    content came with a known answer and otherwise also from a direct call of the parser on it."""

    def __init__(self, sc, lab, truth=False):
        self.sc, self.lab, self.deep = sc, lab, truth
        self.truth, self.problems = {}, []
        if truth:
            for n in sc["nodes"] + sc.get("muts", []):
                if n.get("tr"):
                    self.truth[b(n.get("d", ""))] = n["tr"]

    def full(self, content, prog="dump"):
        """expected stdout for this content, or None when there must be no report"""
        content = bytes(content)
        if not valid_utf8(content):
            return None
        tr = self.truth.get(content)
        if tr and tr.get(prog) is not None:
            return b(tr[prog])
        ok, out = self.lab.alone(prog, content)
        if not ok:
            self.problems.append(("alone", "%s fails on %r alone" % (prog, content[:80])))
            return None
        if tr and tr.get("ok") is False and not looks_failed(out):
            self.problems.append(("truth", "%s accepts %r which is not Elm" % (prog, content[:80])))
        if self.deep and not tr:
            got = self.lab.parsed(content)
            if got is not None:
                want = exposed(got[1]) if got[0] and prog == "check" else got[1]
                if out != want:
                    self.problems.append(("truth", "%s of %r prints %r where parsing it gives %r" % (prog, content[:80], diff_at(out, want), diff_at(want, out))))
        return out

    def quiet(self, path, content):
        content = bytes(content)
        if not valid_utf8(content):
            return None
        tr = self.truth.get(content)
        if tr and tr.get("ok") is not None:
            return path_debug(path) + (b" parsed successfully\n" if tr["ok"] else b" failed to parse\n")
        ok, out = self.lab.alone("dump", content, quiet=True)
        head = b'"/f.elm"'
        if not ok or not out.startswith(head):
            self.problems.append(("alone", "dump -q of %r alone prints %r (%s)" % (content[:80], out[:80], "ok" if ok else "failed")))
            return None
        if self.deep and not tr:
            got = self.lab.parsed(content)
            if got is not None and out != head + (b" parsed successfully\n" if got[0] else b" failed to parse\n"):
                self.problems.append(("truth", "dump -q of %r prints %r but parsing it %s" % (content[:80], out[:80], "succeeds" if got[0] else "fails")))
        return path_debug(path) + out[len(head):]

    def report(self, path, content):
        if self.sc["prog"] == "check":
            return self.full(content, "check")
        return self.quiet(path, content) if is_quiet(self.sc) else self.full(content)


def exposed(dump):
    """the names a printed tree says its imports expose as functions or operators"""
    out, inside, want = [], False, False
    for line in dump.split(b"\n"):
        if line.startswith(b"    ") and line[4:5] not in (b" ", b")", b"]", b"}"):
            inside = line == b"    ImportStatement("
        elif inside and line == b" " * 20 + b"FunctionExport(":
            want = True
        elif want:
            out.append(line.strip())
            want = False
    return b"[]\n" if not out else b"[\n" + b"".join(b"    " + x + b"\n" for x in out) + b"]\n"


def looks_failed(out):
    return not out.startswith(b"[")


def diff_at(a, c):
    i = next((k for k in range(min(len(a), len(c))) if a[k] != c[k]), min(len(a), len(c)))
    return a[max(0, i - 30):i + 50]


def blocks(out):
    """Split the output of a full dump into reports (each starts at a line that is neither indented nor a closing bracket)."""
    res, curr = [], []
    for line in out.splitlines(keepends=True):
        if curr and not line.startswith((b" ", b"]", b")", b"}")):
            res.append(b"".join(curr))
            curr = []
        curr.append(line)
    if curr:
        res.append(b"".join(curr))
    return Counter(res)


def is_quiet(sc):
    return "-q" in sc["args"] or "--quiet" in sc["args"]


def path_arg(sc):
    a = [x for x in sc["args"] if x not in ("-q", "--quiet")]
    return a[0] if a else None


def stream(sc, r, oracle):
    """[(file, its correct report or None if there must be none)] in the order of reading"""
    parts, touched = [], {m["node"] for m in sc.get("muts", [])}
    for f in file_reads(sc, r):
        # a file read to its last byte counts as read even if end of file was never asked for
        whole = f.eof or (f.node not in touched and bytes(f.data) == b(sc["nodes"][f.node].get("d", "")))
        parts.append((f, oracle.report(f.path, f.data) if whole and not f.error else None))
    return parts


def listed(sc, r):
    """.elm entries the run was told about that were files (or links to files) all the time: [(directory path, name)]"""
    swapped = {m["node"] for m in sc.get("muts", []) if m["do"] in ("swaptype", "rename", "linkin")}
    tree, out = Tree(sc), []
    by = {}
    for i, n in enumerate(sc["nodes"]):
        if i:
            by.setdefault(n.get("p", 0), {})[tree.name(i)] = i
    for e in r.events:
        if e.op == "readdir" and e.ret == 1 and is_elm(e.data):
            i = by.get(e.a, {}).get(e.data)
            if i is None or i in swapped or sc["nodes"][i]["t"] == "D":
                continue
            if sc["nodes"][i]["t"] == "L":
                x = tree.resolve(e.a, tree.data(i))
                if x is None or x in swapped or sc["nodes"][x]["t"] == "D":
                    continue
            out.append((i, e.data))
    return out


def in_runtime(r):
    """Did the language's runtime block itself? Its lock for backtraces is not reentrant: memory that fails while it prints one
    makes it print another. No line of the tools takes part in that."""
    return r.code == 251 and re.search(rb"(stack backtrace:|panicked at|memory allocation of).*\nmemory allocation of \d+ bytes failed\s*\Z", r.errout, re.S) is not None


def judge(sc, r, lab, truth=False):
    """Everything a single run of a tool does wrong: [(clause, text)]."""
    bad = []
    orc = Oracle(sc, lab, truth)
    parts = stream(sc, r, orc)
    S = b"".join(rep for _, rep in parts if rep is not None)
    bad += orc.problems
    if r.code == 250:
        bad.append(("stepcap", "still running after the step limit (%d steps)" % r.steps))
    elif r.code == 251 and not in_runtime(r):
        bad.append(("stepcap", "deadlock: every thread waits for another"))
    elif r.signal == 24:
        bad.append(("stepcap", "no progress: processor time limit"))
    prefix = S.startswith(r.out)
    if not prefix:
        bad.append(("prefix", "stdout is not a prefix of the correct reports: has %r where %r is due" % (diff_at(r.out, S), diff_at(S, r.out))))
    if r.ok:
        if prefix and r.out != S:
            bad.append(("lost", "exit 0 with %d of %d bytes of the due reports on stdout" % (len(r.out), len(S))))
        for f, rep in parts:
            if rep is None:
                bad.append(("ignored", "exit 0 although %r was %s" % (
                    f.path, "read with error %d" % f.error if f.error else "not valid UTF-8" if f.eof else "not read to its end")))
                break
        bad += coverage(sc, r, parts)
        if r.open_fds:
            bad.append(("leak", "%d descriptors still open at the end" % r.open_fds))
    elif not r.signal and not r.errout and r.code not in (250, 251) and not any(e.op == "err" and e.err for e in r.events):
        if not (r.code == 1 and sc["prog"] == "check" and path_arg(sc) is None):
            bad.append(("silent", "%s without a diagnostic on stderr" % r.ended))
    acc = 0
    for f, rep in parts:
        if prefix and f.out_at_read is not None and f.out_at_read < acc:
            bad.append(("late", "%r is read while %d bytes of earlier reports are still not written" % (f.path, acc - f.out_at_read)))
            break
        acc += len(rep) if rep is not None else 0
    bad += monitor(r)
    return bad


def coverage(sc, r, parts):
    """exit 0: every file that was there all the time is reported, none twice, nothing else"""
    arg = path_arg(sc)
    if arg is None:
        return []
    tree = Tree(sc)
    if sc["prog"] == "check":
        i = tree.resolve(tree.cwd, b(arg))
        want = None if i is None else [(b(arg), i)]
    else:
        want = tree.walk(arg)
    muts = sc.get("muts", [])
    if want is None:
        return [("coverage", "exit 0 although %r does not exist" % arg)] if not muts else []
    reported = [f for f, rep in parts if rep is not None]
    g = Counter(f.path for f in reported)
    w = Counter(p for p, _ in want)
    if not muts:
        if w != g:
            miss, extra = list((w - g).elements())[:3], list((g - w).elements())[:3]
            return [("coverage", "exit 0 with missing %r, unexpected %r" % (miss, extra))]
        return []
    moved = {m["node"] for m in muts if m["do"] in ("unlink", "rename", "linkin", "swaptype")}

    def steady(i):
        while i:
            if i in moved:
                return False
            i = sc["nodes"][i].get("p", 0)
        return True
    if not any(sc["nodes"][i]["t"] == "L" for i in range(len(sc["nodes"]))):     # links may lead through what moved
        miss = [p for p, i in want if i is not None and steady(i) and not g[p]]
        if miss:
            return [("coverage", "exit 0 with missing %r, which was there all the time" % miss[:3])]
    seen = Counter(f.path.rsplit(b"/", 1)[-1] for f in reported)
    need = Counter(name for _, name in listed(sc, r))
    if need - seen:
        return [("coverage", "exit 0 with %r listed but not reported" % list((need - seen).elements())[:3])]
    twice = [p for p, n in g.items() if n > 1]
    if twice:
        return [("coverage", "%r reported more than once" % twice[:2])]
    return []


def monitor(r):
    """Rules about single events, checked in every run of either tool."""
    bad = []
    for e in r.events:
        if e.op == "mutate":
            bad.append(("mutate", "attempt to modify the file system: system call %d %r" % (e.a, e.data)))
        elif e.op == "exec":
            bad.append(("mutate", "attempt to start a process or connect: %r" % e.data))
        elif e.op == "stdin":
            bad.append(("wait", "reads standard input"))
        elif e.op == "sleep":
            bad.append(("wait", "sleeps for %d ns" % e.ret))
    if r.max_fds > 24:
        bad.append(("fds", "%d descriptors open at once" % r.max_fds))
    return bad[:5]


def overlap(sc, r):
    """two source files open at the same time"""
    live = {}
    for e in r.events:
        if e.op == "open" and e.ret >= 0 and e.a >= 0 and sc["nodes"][e.a]["t"] != "D":
            if live:
                return [("overlap", "%r opened while %r is still open" % (e.data, list(live.values())[0]))]
            live[e.ret] = e.data
        elif e.op == "close":
            live.pop(e.a, None)
    return []


def strict_output(sc, r, lab, truth=True):
    """A run that must succeed: exactly the expected reports, judged from stdout and status alone."""
    bad = []
    orc = Oracle(sc, lab, truth)
    tree = Tree(sc)
    exp = Counter()
    for p, i in tree.walk(path_arg(sc)) or []:
        if i is None:
            return []                                      # a dangling link: the run need not succeed
        exp[orc.report(p, tree.data(i))] += 1
    bad += orc.problems
    got = Counter(r.out.splitlines(keepends=True)) if is_quiet(sc) else blocks(r.out)
    if got != exp:
        miss, extra = list((exp - got).elements()), list((got - exp).elements())
        bad.append(("reports", "missing %r, unexpected %r" % ([x[:120] for x in miss[:2] if x], [x[:120] for x in extra[:2]])))
    if not r.ok:
        bad.append(("status", "%s: %r" % (r.ended, r.errout[:200])))
    return bad


def step_bound(sc, r):
    inb = sum(len(e.data) - 8 for e in r.events if e.op == "read" and not e.err)
    return 3000 + 40 * len(sc["nodes"]) + 10 * inb + 10 * (len(r.out) + len(r.errout))

"""Minimises a failing scenario: drops faults, settings, entries and contents while the same clause still fails."""
import copy, time


def minimise(prop, sc, clause, lab, until):
    def fails(x):
        if time.time() > until:
            return False
        try:
            return any(c == clause for c, _ in prop.check(x, lab)[0])
        except RuntimeError:
            return False
        except (IndexError, KeyError, ValueError, TypeError):
            return False                                   # no longer a sensible world
    best = copy.deepcopy(sc)
    if not fails(best):
        return sc

    def attempt(f):
        nonlocal best
        if time.time() > until:
            return False
        x = copy.deepcopy(best)
        if f(x) is False or x == best:
            return False
        if fails(x):
            best = x
            return True
        return False
    if best["prog"] == "threads" and best.get("cfg", {}).get("srandom"):
        # the schedule that was drawn, written out as explicit switches, which can then be dropped one by one
        r = lab.run(best)
        pre = [[e.ret & ((1 << 64) - 1), e.a] for e in r.events if e.op == "switch" and e.ret != -1]

        def explicit(x):
            for k in ("srandom", "sprob", "sseed", "shot"):
                x["cfg"].pop(k, None)
            x["pre"] = sorted(pre)
        attempt(explicit)
    changed = True
    while changed and time.time() < until:
        changed = False
        for key in ("rpat", "wpat", "env"):
            if best.get(key):
                changed |= attempt(lambda x: x.pop(key) and None)
        for key in list(best.get("cfg", {})):
            changed |= attempt(lambda x: x["cfg"].pop(key) and None)
        for key in ("faults", "nf", "muts", "pre", "env", "extra"):
            n = len(best.get(key) or [])
            size = n
            while size >= 1:
                i = 0
                while i < len(best.get(key) or []):
                    def drop(x):
                        del x[key][i:i + size]
                        if not x[key] and key != "env":
                            del x[key]
                    if attempt(drop):
                        changed = True
                    else:
                        i += size
                size //= 2
        if best["prog"] != "threads":
            changed |= shrink_nodes(best, attempt, lambda: best)
        else:
            changed |= shrink_plans(attempt, lambda: best)
        changed |= shrink_contents(attempt, lambda: best)
        for k, f in enumerate(best.get("faults", [])):
            if f.get("rep", 1) > 1:
                changed |= attempt(lambda x: x["faults"][k].update(rep=1))
    return best


def remove(x, *which):
    """drop these nodes and everything below them"""
    gone = set(which)
    for k, n in enumerate(x["nodes"]):
        if k and n.get("p", 0) in gone:
            gone.add(k)
    if x.get("cwd", 0) in gone:
        return False
    pos, out = {}, []
    for k, n in enumerate(x["nodes"]):
        if k not in gone:
            pos[k] = len(out)
            out.append(n)
    for n in out[1:]:
        n["p"] = pos[n.get("p", 0)]
    x["nodes"] = out
    if x.get("cwd"):
        x["cwd"] = pos[x["cwd"]]
    if "extra" in x:
        x["extra"] = [dict(n, p=pos[n.get("p", 0)]) for n in x["extra"] if n.get("p", 0) in pos]
    for key in ("nf", "muts"):
        if key in x:
            x[key] = [dict(f, node=pos[f["node"]]) for f in x[key] if f["node"] in pos]


def shrink_nodes(best, attempt, cur):
    changed = False
    if "cut" in best:
        return False
    size = len(cur()["nodes"]) // 2
    while size > 4:
        i = len(cur()["nodes"])
        while i > 1:
            i = max(1, min(i, len(cur()["nodes"])) - size)
            changed |= attempt(lambda x: remove(x, *range(i, min(i + size, len(x["nodes"])))))
        size //= 4
    i = len(cur()["nodes"]) - 1
    while i > 0:
        if i < len(cur()["nodes"]):
            changed |= attempt(lambda x: remove(x, i))
        i -= 1
    return changed


def shrink_contents(attempt, cur):
    changed = False
    if "cut" in cur():
        return False
    for i in range(1, len(cur()["nodes"])):
        n = cur()["nodes"][i]
        if n["t"] not in "FP":
            continue
        for k in ("size", "mtime", "ino", "f"):
            if k in n:
                changed |= attempt(lambda x: x["nodes"][i].pop(k) and None)

        def put(d):
            def f(x):
                if len(d) >= len(x["nodes"][i].get("d", "")):
                    return False
                x["nodes"][i]["d"] = d
                x["nodes"][i].pop("tr", None)
            return f
        d = n.get("d", "")
        if not any(attempt(put(c)) for c in ("a = 1\n", "a%d = %d\n" % (i, i), "")):
            for part in (d[:len(d) // 2], d.rsplit("\n\n", 1)[0] + "\n", d.split("\n\n", 1)[-1]):
                changed |= attempt(put(part))
        else:
            changed = True
    return changed


def shrink_plans(attempt, cur):
    changed = False
    for t in range(1, len(cur()["args"])):
        if t < len(cur()["args"]) and len(cur()["args"]) > 2:
            changed |= attempt(lambda x: x["args"].pop(t) and None)
    for t in range(1, len(cur()["args"])):
        while "," in cur()["args"][t]:
            def f(x):
                x["args"][t] = x["args"][t].rsplit(",", 1)[0]
            if not attempt(f):
                break
            changed = True
    return changed

"""Is a scenario one history? Runs samples of every property's scenarios in different servers, in opposite orders, and compares them.

    python3 -m sim.selftest [scenarios per property] [seed]
"""
import json, sys
from . import build
from .props import ALL
from .run import scenario
from .world import Lab


def histories(prop, seed, idx):
    lab, out = Lab(), {}
    for i in idx:
        pool = prop.pool(seed, i // prop.block)
        sc = scenario(prop, seed, i, pool, lab)
        bad, rs = prop.check(sc, lab)
        out[i] = (json.dumps(sc, sort_keys=True), [r.digest() for r in rs], bad)
    lab.close()
    return out


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 100
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    build.build(("dump", "check", "threads"))
    wrong = 0
    for pid, prop in sorted(ALL.items()):
        a, z = histories(prop, seed, range(n)), histories(prop, seed, reversed(range(n)))
        w = [i for i in range(n) if a[i] != z[i]]
        wrong += len(w)
        print("%s: %d scenarios, %d differ%s" % (pid, n, len(w), " first %d (scenario %s)" % (w[0], "differs" if a[w[0]][0] != z[w[0]][0] else "same") if w else ""), flush=True)
    sys.exit(1 if wrong else 0)


if __name__ == "__main__":
    main()

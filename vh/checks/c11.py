"""C11: the runnability check accepts exactly the runnable patterns (state machine written from the documentation)."""
from __future__ import annotations

from hypothesis import strategies as st

from graphix.optimization import StandardizedPattern
from graphix.pattern import RunnabilityError, RunnabilityErrorReason
from vh import big, conv, gen, ref
from vh.core import Fail, Info, Sub, check
from vh.util import Script


def problems(d):  # noqa: ANN001, ANN201, C901
    """None if runnable, else (index of the first offending command, set of (node, reason) violated by it)."""
    active, measured = set(d["in"]), set()
    for i, c in enumerate(d["cmds"]):
        k = c[0]
        bad: set[tuple[int, str]] = set()

        def act(n: int) -> None:
            if n in measured:
                bad.add((n, "AlreadyMeasured"))
            elif n not in active:
                bad.add((n, "NotYetActive"))

        if k == "N":
            if c[1] in active:
                bad.add((c[1], "AlreadyActive"))
            if c[1] in measured:
                bad.add((c[1], "AlreadyMeasured"))
        elif k == "E":
            act(c[1])
            act(c[2])
        else:
            act(c[1])
        if k == "M":
            for dom in (c[3], c[4]):
                for n in dom:
                    if n == c[1]:
                        bad.add((n, "DomainSelfLoop"))
                    elif n not in measured:
                        bad.add((n, "NotYetMeasured"))
        elif k in ("X", "Z"):
            for n in c[2]:
                if n not in measured:
                    bad.add((n, "NotYetMeasured"))
        if bad:
            return i, bad
        if k == "N":
            active.add(c[1])
        elif k == "M":
            active.remove(c[1])
            measured.add(c[1])
    return None


def mutate(d, muts):  # noqa: ANN001, ANN201, C901
    cmds = [list(c) for c in d["cmds"]]
    ins = list(d["in"])
    nodes = sorted({*ins, *(c[1] for c in cmds if c[0] == "N"), 47})
    for kind, a, b in muts:
        if not cmds:
            break
        i = a % len(cmds)
        c = cmds[i]
        n = nodes[b % len(nodes)]
        if kind == "delete":
            del cmds[i]
        elif kind == "dup":
            cmds.insert(b % (len(cmds) + 1), [list(x) if isinstance(x, list) else x for x in c])
        elif kind == "move":
            cmds.pop(i)
            cmds.insert(b % (len(cmds) + 1), c)
        elif kind == "node":
            if c[0] == "E" and n in c[1:3]:
                continue
            c[1] = n
        elif kind == "domain":
            js = [i for i, x in enumerate(cmds) if x[0] in "MXZ"]
            if not js:
                continue
            c = cmds[js[a % len(js)]]
            k = (2 if c[0] in "XZ" else 3 + (a // 7) % 2)
            c[k] = sorted(set(c[k]) ^ {n})
        elif kind == "self":
            js = [i for i, x in enumerate(cmds) if x[0] in "MXZ"]
            if not js:
                continue
            c = cmds[js[a % len(js)]]
            k = (2 if c[0] in "XZ" else 3 + b % 2)
            c[k] = sorted(set(c[k]) | {c[1]})
        elif kind == "input":
            if n in ins:
                ins.remove(n)
            else:
                ins.append(n)
    return {"in": ins, "cmds": cmds}


def runnability(case, info: Info) -> None:  # noqa: ANN001
    d = mutate(case["pat"], case["muts"])
    from graphix import Pattern

    p = Pattern(input_nodes=d["in"], cmds=[conv.cmd(c) for c in d["cmds"]])
    want = problems(d)
    before = repr(p)
    try:
        p.check_runnability()
    except RunnabilityError as e:
        if want is None:
            raise Fail(f"runnable pattern rejected: {e!r}") from e
        i, bad = want
        check(e.cmd == p[i] and e.cmd in list(p), lambda: f"the error names {e.cmd}, the first offending command is {p[i]}")
        check((e.node, e.reason.name) in bad, lambda: f"the error gives {e.node} {e.reason.name}, violated are {sorted(bad)}")
        check(str(e.node) in str(e), "the message does not name the node")
        check(isinstance(e.reason, RunnabilityErrorReason), "reason")
        info.label("rejected", *(r for _, r in bad), f"at-{d['cmds'][i][0]}")
        try:
            StandardizedPattern.from_pattern(p)
        except RunnabilityError:
            pass
        else:
            raise Fail("standardization hides that the pattern is not runnable")
        info.nt(i >= 2)
    else:
        check(want is None, lambda: f"pattern accepted although {want}")
        info.label("accepted")
        info.nt(any(c[0] == "M" for c in d["cmds"]) and len(d["cmds"]) >= 4)
    check(repr(p) == before, "check_runnability changed the pattern")


def runs(case, info: Info) -> None:  # noqa: ANN001
    """A pattern accepted by the check runs on every branch of non-zero probability."""
    d = mutate(case["pat"], case["muts"])
    from graphix import Pattern

    p = Pattern(input_nodes=d["in"], cmds=[conv.cmd(c) for c in d["cmds"]])
    try:
        p.check_runnability()
    except RunnabilityError:
        info.label("rejected")
        return
    ms = [c[1] for c in d["cmds"] if c[0] == "M"]
    for b in ref.branch_list(ms, 3, case["picks"]):
        sel = Script(b)
        state = p.simulate(branch_selector=sel)
        check(sorted(sel.outcomes) == sorted(ms), "not every measurement was performed once")
        check(state.flatten().shape == (2 ** len(p.output_nodes),), "wrong number of output qubits")
        info.extra += 1
    info.label("ran")
    info.nt(len(ms) >= 2)


MUT = st.tuples(st.sampled_from(["delete", "dup", "move", "move", "node", "domain", "domain", "self", "input"]), st.integers(0, 40), st.integers(0, 40)).map(list)
MUT_LARGE = st.tuples(st.sampled_from(["delete", "dup", "move", "move", "node", "domain", "domain", "self", "input"]), st.integers(0, 200), st.integers(0, 200)).map(list)
PATS = gen.soups(max_active=4, max_total=7, max_steps=20, min_steps=6)

SUBS = [
    Sub("runnability", lambda: st.fixed_dictionaries({"pat": PATS, "muts": st.lists(MUT, max_size=3)}), runnability, quick=12000, thorough=300000, shards=3,
        rule="runnable patterns with 0-3 mutations (delete, duplicate, move, rename, change domains, self-loops, inputs); verdict, command, node and reason compared; non-trivial: rejected at the third command or later, or accepted with measurements"),
    Sub("runs", lambda: st.fixed_dictionaries({"pat": PATS, "muts": st.lists(MUT, max_size=1), "picks": gen.picks()}), runs, quick=1500, thorough=40000, shards=4,
        rule="accepted patterns simulated on all (sampled) branches; non-trivial: >=2 measurements"),
    Sub("large", lambda: st.fixed_dictionaries({"pat": big.seeded(big.soup, 40, 160), "muts": st.lists(MUT_LARGE, max_size=2)}), runnability, quick=1500, thorough=40000, shards=3,
        rule="as runnability, patterns of 40-160 commands"),
]

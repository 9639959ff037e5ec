"""C10: composition and renaming of patterns follow their algebra (compared with maps composed by numpy)."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from graphix.pattern import Pattern, PatternError
from vh import big, conv, gen, ref
from vh.core import Info, Sub, check
from vh.util import raises


def nodes_of(d) -> set[int]:  # noqa: ANN001
    return {*d["in"], *(c[1] for c in d["cmds"] if c[0] == "N")}


def rename(d, f):  # noqa: ANN001, ANN202
    def g(c):  # noqa: ANN001, ANN202
        if c[0] == "E":
            return ["E", f(c[1]), f(c[2])]
        if c[0] == "M":
            return ["M", f(c[1]), c[2], sorted(map(f, c[3])), sorted(map(f, c[4]))]
        if c[0] in "XZ":
            return [c[0], f(c[1]), sorted(map(f, c[2]))]
        return [c[0], f(c[1]), c[2]]

    return {"in": [f(n) for n in d["in"]], "out": [f(n) for n in d["out"]], "cmds": [g(c) for c in d["cmds"]]}


def text(d) -> str:  # noqa: ANN001
    return repr((d["in"], d["out"], [[x.round(9).tolist() if isinstance(x, np.ndarray) else x for x in c] for c in d["cmds"]]))


def branch_map(d, outcomes, names):  # noqa: ANN001, ANN202
    """Map with named legs: (tensor, out names, in names)."""
    m = ref.run_branch(d, outcomes)
    return m.reshape((2,) * (len(d["out"]) + len(d["in"]))), [names(x) for x in d["out"]], [names(x) for x in d["in"]]


def compose(case, info: Info) -> None:  # noqa: ANN001, C901
    d1, d2 = case["p1"], case["p2"]
    p1, p2 = conv.pattern(d1), conv.pattern(d2)
    v1, v2 = nodes_of(d1), nodes_of(d2)
    o1, i2 = d1["out"], d2["in"]
    # build the mapping from the case
    mapping: dict[int, int] = {}
    outs = list(o1)
    for k, (kind, a) in zip(case["order"] and sorted(v2) or sorted(v2, reverse=True), case["maps"]):
        if kind == "merge" and k in i2 and outs:
            mapping[k] = outs.pop(a % len(outs))
        elif kind == "fresh":
            mapping[k] = 50 + a
        elif kind == "bad-measured":
            inner = sorted(v1 - set(o1))
            if inner:
                mapping[k] = inner[a % len(inner)]
        elif kind == "bad-output":
            if k not in i2 and outs:
                mapping[k] = outs[a % len(outs)]
        elif kind == "dup" and mapping:
            mapping[k] = sorted(mapping.values())[a % len(mapping)]
    if case["bad_key"]:
        mapping[99] = 98
    bad = (
        not set(mapping) <= v2 or len(set(mapping.values())) != len(mapping) or bool(set(mapping.values()) & (v1 - set(o1)))
        or any(v in o1 and k not in i2 for k, v in mapping.items())
    )
    before = conv.freeze(p1), conv.freeze(p2)
    if bad:
        err = raises(PatternError, lambda: p1.compose(p2, mapping, case["preserve"]))
        check(err is not None, lambda: f"incompatible mapping {mapping} accepted")
        check((conv.freeze(p1), conv.freeze(p2)) == before, "rejected composition changed its arguments")
        info.label("rejected")
        info.nt()
        return
    q, full = p1.compose(p2, dict(mapping), case["preserve"])
    check((conv.freeze(p1), conv.freeze(p2)) == before, "compose changed its arguments")
    check(set(full) == v2, f"complete mapping has keys {sorted(full)}, pattern nodes {sorted(v2)}")
    check(all(full[k] == v for k, v in mapping.items()), "complete mapping does not extend the mapping")
    check(len(set(full.values())) == len(full), "complete mapping is not injective")
    fresh = [k for k in sorted(v2) if k not in mapping]
    check(not {full[k] for k in fresh} & (v1 | set(mapping.values())), "a fresh node collides")
    check([full[k] for k in fresh] == sorted(full[k] for k in fresh), "fresh nodes are not in ascending order")
    merged1 = [o for o in o1 if o in {v for k, v in mapping.items() if k in i2}]
    merged2 = [i for i in i2 if full[i] in o1]
    dq = conv.describe(q)
    q.check_runnability()
    check(dq["in"] == d1["in"] + [full[i] for i in i2 if i not in merged2], f"inputs {dq['in']}")
    keep = case["preserve"] and len(merged1) == len(i2) == len(d2["out"])
    if keep:
        io = {full[i]: full[o] for i, o in zip(i2, d2["out"])}
        want_out = [io[o] if o in merged1 else o for o in o1]
    else:
        want_out = [o for o in o1 if o not in merged1] + [full[o] for o in d2["out"]]
    check(dq["out"] == want_out, f"outputs {dq['out']}, documented {want_out}")
    check(nodes_of(dq) == v1 | set(full.values()), "nodes of the composed pattern")
    check(q.n_node == len(nodes_of(dq)), "n_node")
    ms1, ms2 = ref.measured(d1["cmds"]), ref.measured(d2["cmds"])
    check(sorted(ref.measured(dq["cmds"])) == sorted([*ms1, *(full[m] for m in ms2)]), "measured nodes")
    n = 0
    for b1 in ref.branch_list(ms1, 2, case["picks"]):
        for b2 in ref.branch_list(ms2, 2, case["picks"][1:]):
            got = ref.run_branch(dq, {**b1, **{full[k]: v for k, v in b2.items()}})
            # reference: contract the two maps by leg names
            t1, out1, in1 = branch_map(d1, b1, lambda x: ("o", x))
            t2, out2, in2 = branch_map(d2, b2, lambda x: ("o2", full[x]))
            ax1 = [out1.index(("o", o)) for o in merged1]
            ax2 = [len(out2) + in2.index(("o2", o)) for o in merged1]
            t = np.tensordot(t1, t2, axes=(ax1, ax2))
            legs = [l for i, l in enumerate([("out", x[1]) for x in out1] + [("in", x[1]) for x in in1]) if i not in ax1]
            legs += [l for i, l in enumerate([("out", x[1]) for x in out2] + [("in", x[1]) for x in in2]) if i not in ax2]
            t = t.transpose([legs.index(("out", o)) for o in want_out] + [legs.index(("in", i)) for i in dq["in"]]).reshape(got.shape)
            scale = 2 ** (max(0, len(b1) + len(b2) - 8) / 2)
            check(ref.same_up_to_phase(t * scale, got * scale, 1e-7 * max(1.0, float(np.linalg.norm(t)) * scale)), lambda: f"composition is not the composed map on branch {b1} {b2}: {np.round(got, 3).tolist()} instead of {np.round(t, 3).tolist()}")
            n += 1
    info.extra += n
    info.label(f"merged{len(merged1)}", "preserve" if keep else "default", "parallel" if not merged1 else "wired")
    info.nt(len(merged1) >= 1 and bool(ms1) and bool(ms2))


def reindex(case, info: Info) -> None:  # noqa: ANN001
    d = case["pat"]
    p = conv.pattern(d)
    before = conv.freeze(p)
    nodes = sorted(nodes_of(d))
    perm = case["perm"]
    target = [case["labels"][i] for i in range(len(nodes))]
    m = dict(zip(nodes, target))
    if case["partial"]:
        # a permutation of a subset of the nodes
        sub = [n for i, n in enumerate(nodes) if (perm >> i) & 1]
        m = dict(zip(sub, sub[1:] + sub[:1]))
    how = case["how"]
    if how == "default":
        m = {n: i for i, n in enumerate(nodes)}
        arg = None
    elif how == "callable":
        mm = dict(m)
        arg = lambda n: mm.get(n, n)  # noqa: E731
    else:
        arg = dict(m)
    if case["copy"]:
        q = p.reindex(arg, copy=True)
        check(conv.freeze(p) == before, "reindex(copy=True) changed the pattern")
    else:
        q = p.copy()
        check(q.reindex(arg) is q, "reindex in place returned another object")
        check(conv.freeze(p) == before, "reindex on a copy changed the original")
    want = rename(conv.describe(p), lambda n: m.get(n, n))
    check(text(conv.describe(q)) == text(want), lambda: f"reindex gave {conv.describe(q)}, expected {want}")
    check(q.n_node == p.n_node, "node count changed")
    back = q.reindex({v: k for k, v in m.items()}, copy=True)
    check(back == p, "reindexing back does not give the pattern back")
    info.label(how)
    info.nt(len(nodes) >= 3 and any(k != v for k, v in m.items()))


def node_mapping(case, info: Info) -> None:  # noqa: ANN001
    d = case["pat"]
    p = conv.pattern(d)
    nodes = sorted(nodes_of(d))
    partial = None if case["partial"] is None else {(nodes[a % len(nodes)] if nodes and a < 20 else a + 100): b for a, b in case["partial"]}
    avoids, start = case["avoids"], case["start"]
    preserves = None if case["preserves"] is None else [n for n in nodes if n % 3 == case["preserves"]]
    bad = partial is not None and (not set(partial) <= set(nodes) or len(set(partial.values())) != len(partial))
    kw = {"start": start, "avoids": avoids, "preserves": preserves}
    if bad:
        check(raises(ValueError, lambda: p.node_mapping(partial, **kw)) is not None, f"invalid initial mapping {partial} accepted")
        info.label("rejected")
        info.nt()
        return
    m = p.node_mapping(partial, **kw)
    given = partial or {}
    check(all(m[k] == v for k, v in given.items()), "not an extension of the given mapping")
    pres = set(preserves or ()) - set(given)
    check(set(m) == set(nodes) - pres, f"keys {sorted(m)}")
    freshk = [n for n in nodes if n not in given and n not in pres]
    used = set(avoids or ()) | set(given.values()) | set(preserves or ())
    c, want = start, []
    for _ in freshk:
        while c in used:
            c += 1
        want.append(c)
        c += 1
    check([m[n] for n in freshk] == want, f"fresh indices {[m[n] for n in freshk]}, documented {want}")
    info.nt(bool(freshk) and bool(used))


def edit(case, info: Info) -> None:  # noqa: ANN001
    """Command-sequence editing keeps inputs, outputs and counts; reorderings accept permutations only."""
    p = Pattern(input_nodes=case["in"])
    ins, outs, seq = list(case["in"]), list(case["in"]), []

    def track(c) -> None:  # noqa: ANN001
        seq.append(c)
        if c[0] == "N":
            outs.append(c[1])
        elif c[0] == "M" and c[1] in outs:
            outs.remove(c[1])

    from vh import conv as cv

    for step in case["steps"]:
        k = step[0]
        if k == "add":
            for c in step[1]:
                p.add(cv.cmd(c))
                track(c)
        elif k == "extend":
            half = len(step[1]) // 2
            p.extend([cv.cmd(c) for c in step[1][:half]], *(cv.cmd(c) for c in step[1][half:]))
            for c in step[1]:
                track(c)
        elif k == "extend_gen":
            p.extend(cv.cmd(c) for c in step[1])
            for c in step[1]:
                track(c)
        elif k == "clear":
            p.clear()
            seq, outs[:] = [], ins
        elif k == "replace":
            new_in = step[2]
            if new_in is not None:
                ins = list(new_in)
            p.replace([cv.cmd(c) for c in step[1]], new_in)
            seq, outs[:] = [], ins
            for c in step[1]:
                track(c)
        elif k == "reorder":
            good = sorted(step[2] % 7 == 0 and [*outs, 77] or outs)
            r = step[1] % (len(outs) or 1)
            new = (outs[r:] + outs[:r])[:: 1 if step[1] % 2 else -1]
            if step[2] % 5 == 1 and new:
                new = [*new, new[0]]
            elif step[2] % 5 == 2 and new:
                new = new[1:]
            elif step[2] % 5 == 3:
                new = [*new, 77]
            ok = sorted(new) == sorted(outs) and len(good) >= 0
            err = raises(PatternError, lambda: p.reorder_output_nodes(iter(new)))
            check((err is None) == ok, f"reorder_output_nodes({new}) on {outs}: {'accepted' if err is None else 'rejected'}")
            if ok:
                outs[:] = new
        elif k == "reorder_in":
            r = step[1] % (len(ins) or 1)
            new = ins[r:] + ins[:r]
            if step[2] % 5 == 1 and new:
                new = [*new, new[0]]
            elif step[2] % 5 == 2 and new:
                new = new[1:]
            ok = sorted(new) == sorted(ins)
            err = raises(PatternError, lambda: p.reorder_input_nodes(iter(new)))
            check((err is None) == ok, f"reorder_input_nodes({new}) on {ins}")
            if ok:
                ins = new
        elif k == "remove_inputs":
            p.remove_input_nodes()
            seq = [["N", n, "PLUS"] for n in ins] + seq
            ins = []
        got = p.input_nodes, p.output_nodes
        check(got == (ins, outs), f"after {k}: inputs/outputs {got}, expected {(ins, outs)}")
        got[0].append(1000)
        got[1].append(1000)
        check((p.input_nodes, p.output_nodes) == (ins, outs), "the returned lists are the internal ones")
        check(p.n_node == len(ins) + sum(c[0] == "N" for c in seq), f"after {k}: n_node {p.n_node}")
        check(len(p) == len(seq) and [c[:2] for c in map(cv.cmd_desc, p)] == [c[:2] for c in seq], f"after {k}: commands {list(p)}")
        check([p[i] for i in range(len(p))] == list(p), "indexing")
    info.nt(len(case["steps"]) >= 3)


def remove_inputs(case, info: Info) -> None:  # noqa: ANN001
    """remove_input_nodes fixes the inputs to |+>."""
    d = case["pat"]
    p = conv.pattern(d)
    p.remove_input_nodes()
    q = conv.describe(p)
    check(q["in"] == [] and q["out"] == d["out"], "interface")
    p.check_runnability()
    plus = np.ones((2 ** len(d["in"]), 1)) / 2 ** (len(d["in"]) / 2)
    for b in ref.branch_list(ref.measured(d["cmds"]), 3, case["picks"]):
        check(ref.same_up_to_phase(ref.run_branch(d, b) @ plus, ref.run_branch(q, b)), "state differs from the one with |+> inputs")
    info.nt(len(d["in"]) >= 1)


def small():  # noqa: ANN201
    return st.one_of(gen.soups(max_active=3, max_total=6, max_steps=14, max_inputs=3), gen.det_patterns(max_meas=3, max_out=2),
                     gen.soups(max_active=3, max_total=6, max_steps=14, max_inputs=3, min_steps=6))


def large():  # noqa: ANN201
    return st.one_of(big.seeded(big.soup, 15, 50, max_active=4, max_inputs=3), big.seeded(big.det, 5, 16))


MAPS = st.lists(st.tuples(st.sampled_from(["merge", "merge", "merge", "merge", "merge", "none", "none", "fresh", "fresh"] ), st.integers(0, 25)).map(list), min_size=8, max_size=8)
BADMAPS = st.lists(st.tuples(st.sampled_from(["merge", "merge", "none", "fresh", "bad-measured", "bad-output", "dup"]), st.integers(0, 25)).map(list), min_size=8, max_size=8)

CMDS = st.lists(st.one_of(st.integers(0, 6).map(lambda n: ["N", n, "PLUS"]), st.integers(0, 6).map(lambda n: ["M", n, ["P", "X", 1], [], []]),
                          st.tuples(st.integers(0, 3), st.integers(4, 6)).map(lambda t: ["E", t[0], t[1]]), st.integers(0, 6).map(lambda n: ["X", n, []])), max_size=4)


@st.composite
def edits(draw):  # noqa: ANN001, ANN202
    """Commands with fresh nodes only (a node is never prepared twice), so that outputs are distinct."""
    fresh = iter(range(10, 60))
    alive: list[int] = draw(st.lists(st.integers(0, 6), unique=True, max_size=3))
    case = {"in": list(alive), "steps": []}

    def cmds():  # noqa: ANN202
        out = []
        for k, a in draw(st.lists(st.tuples(st.integers(0, 4), st.integers(0, 9)), max_size=5)):
            if k <= 1 or not alive:
                n = next(fresh)
                alive.append(n)
                out.append(["N", n, "PLUS"])
            elif k == 2:
                out.append(["M", alive.pop(a % len(alive)), ["P", "X", 1], [], []])
            elif k == 3 and len(alive) > 1:
                out.append(["E", alive[0], alive[1]])
            else:
                out.append(["X", alive[a % len(alive)], []])
        return out

    ins = list(alive)
    for k in draw(st.lists(st.sampled_from(["add", "add", "extend", "extend_gen", "clear", "replace", "reorder", "reorder", "reorder_in", "remove_inputs"]), min_size=2, max_size=7)):
        if k in ("add", "extend", "extend_gen"):
            case["steps"].append([k, cmds()])
        elif k == "clear":
            alive[:] = ins
            case["steps"].append([k])
        elif k == "replace":
            new_in = draw(st.one_of(st.none(), st.lists(st.integers(0, 6), unique=True, max_size=3)))
            if new_in is not None:
                ins = list(new_in)
            alive[:] = ins
            case["steps"].append([k, cmds(), new_in])
        elif k == "remove_inputs":
            ins = []
            case["steps"].append([k])
        else:
            case["steps"].append([k, draw(st.integers(0, 6)), draw(st.integers(0, 20))])
    return case


SUBS = [
    Sub("compose", lambda: st.fixed_dictionaries({"p1": small(), "p2": small(), "maps": MAPS, "order": st.booleans(), "preserve": st.booleans(), "bad_key": st.just(False), "picks": gen.picks()}),
        compose, quick=4000, thorough=80000, shards=3, rule="two arbitrary patterns and a mapping merging/renaming nodes; maps compared by tensor contraction; non-trivial: >=1 merged wire and measurements in both"),
    Sub("reject", lambda: st.fixed_dictionaries({"p1": small(), "p2": small(), "maps": BADMAPS, "order": st.booleans(), "preserve": st.booleans(),
                                                 "bad_key": st.sampled_from([False, False, False, True]), "picks": gen.picks()}),
        compose, quick=2500, thorough=40000, shards=2, rule="mappings that may be incompatible: rejected exactly when documented; non-trivial: rejected, or wired as above"),
    Sub("reindex", lambda: st.fixed_dictionaries({"pat": gen.soups(max_steps=18, min_steps=3), "labels": st.lists(st.integers(0, 60), min_size=10, max_size=10, unique=True),
                                                  "perm": st.integers(0, 255), "partial": st.booleans(), "how": st.sampled_from(["map", "callable", "default"]), "copy": st.booleans()}),
        reindex, quick=2000, thorough=40000, shards=1, rule="injective renamings given as mapping, function or default; non-trivial: >=3 nodes and some node renamed"),
    Sub("node_mapping", lambda: st.fixed_dictionaries({"pat": gen.soups(max_steps=14), "start": st.integers(0, 6),
                                                       "partial": st.one_of(st.none(), st.lists(st.tuples(st.integers(0, 21), st.integers(0, 9)).map(list), max_size=3)),
                                                       "avoids": st.one_of(st.none(), st.lists(st.integers(0, 9), max_size=4)),
                                                       "preserves": st.one_of(st.none(), st.integers(0, 2))}), node_mapping, quick=2000, thorough=30000, shards=1,
        rule="node_mapping against its documentation; non-trivial: fresh indices with forbidden values, or rejection"),
    Sub("edit", edits, edit, quick=2500, thorough=40000, shards=1, rule="histories of add/extend/clear/replace/reorder/remove_input_nodes; non-trivial: >=3 steps"),
    Sub("remove_inputs", lambda: st.fixed_dictionaries({"pat": gen.soups(max_steps=16, max_inputs=3), "picks": gen.picks()}), remove_inputs, quick=800, thorough=20000, shards=1,
        rule="non-trivial: at least one input"),
    Sub("large", lambda: st.fixed_dictionaries({"p1": large(), "p2": large(), "maps": MAPS, "order": st.booleans(), "preserve": st.booleans(), "bad_key": st.just(False), "picks": gen.picks()}),
        compose, quick=250, thorough=8000, shards=3, rule="as compose, patterns of 15-50 commands"),
]

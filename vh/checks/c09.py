"""C09: any sequence of pattern passes preserves the computation (operation histories).

`sequences`: histories of passes on deterministic patterns; after every step the map on every (sampled) branch is
compared with the original map, in-place and copying variants are compared, and every object kept along the way
must stay as it was.  `exact`: histories of branch-preserving passes on arbitrary patterns.
"""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from graphix import optimization
from graphix.optimization import StandardizedPattern
from graphix.pattern import shift_outcomes
from vh import big, conv, gen, ref
from vh.core import Fail, Info, Sub, check

PASSES = ["standardize", "shift", "shift_mc", "push", "push_std", "remove", "remove_std", "space", "space_none", "parallel", "useless", "single",
          "cliffords", "bloch", "infer", "copy", "reindex", "compose_id", "standardized", "reorder"]
EXACT = ["standardize", "space", "space_none", "parallel", "useless", "single", "bloch", "infer", "copy", "reindex", "shift", "shift_mc", "reorder"]


def n_nodes(d) -> int:  # noqa: ANN001
    return len(d["in"]) + sum(c[0] == "N" for c in d["cmds"])


class History:
    def __init__(self, d, picks, info: Info) -> None:  # noqa: ANN001
        self.p = conv.pattern(d)
        self.kept: list = []
        self.picks = picks
        self.info = info
        self.names = {n: n for n in {*d["in"], *(c[1] for c in d["cmds"] if c[0] == "N")}}
        self.perm = list(range(len(d["out"])))
        self.steps = 0

    def keep(self, what: str, p) -> None:  # noqa: ANN001
        self.kept.append((what, p, conv.freeze(p), p.n_node))

    def check_kept(self, op: str) -> None:
        for what, p, text, n in self.kept:
            check(conv.freeze(p) == text and p.n_node == n, lambda: f"{op} on the current pattern changed an object kept from {what}:\n{text}\n{conv.freeze(p)}")

    def variants(self, op: str, name: str, **kw) -> None:  # noqa: ANN003
        """Run method `name` out of place and in place, compare, continue with the in-place result."""
        before = conv.freeze(self.p)
        c = getattr(self.p, name)(copy=True, **kw)
        check(c is not self.p, f"{op}: copy=True returned the pattern itself")
        check(conv.freeze(self.p) == before, f"{op}: copy=True changed the pattern")
        self.keep(f"{op}(copy)", c)
        self.keep(f"source of {op}", self.p)
        q = self.p.copy()
        r = getattr(q, name)(**kw)
        check(r is q, f"{op}: in-place variant does not return the pattern")
        check(canon(conv.describe(q)) == canon(conv.describe(c)), lambda: f"{op}: in-place and copying variants differ:\n{q}\n{c}")
        check(q.n_node == c.n_node, f"{op}: node counts of the variants differ: {q.n_node} and {c.n_node}")
        self.p = q

    def apply(self, op: str, arg: int) -> bool:
        p = self.p
        if op == "standardize":
            self.keep("before standardize", p)
            q = p.copy()
            q.standardize()
            f = optimization.standardize(p)
            check(canon(conv.describe(q)) == canon(conv.describe(f)), "standardize: method and function differ")
            self.p = q
        elif op in ("shift", "shift_mc"):
            self.keep("before shift", p)
            q = p.copy()
            q.shift_signals(method="direct" if op == "shift" else "mc")
            self.p = q
        elif op in ("push", "push_std"):
            self.variants(op, "perform_pauli_pushing", standardize=op == "push_std")
        elif op in ("remove", "remove_std"):
            self.variants(op, "remove_pauli_measurements", standardize=op == "remove_std")
        elif op == "space":
            self.variants(op, "minimize_space")
        elif op == "space_none":
            self.variants(op, "minimize_space", heuristics=[])
        elif op == "parallel":
            self.keep("before parallel", p)
            q = p.copy()
            q.parallelize_pattern()
            self.p = q
        elif op == "useless":
            self.keep("before useless", p)
            self.p = optimization.remove_useless_domains(p)
        elif op == "single":
            self.keep("before single", p)
            self.p = optimization.single_qubit_domains(p)
        elif op == "cliffords":
            if n_nodes(conv.describe(p)) > 9:
                return False
            self.variants(op, "remove_local_clifford_commands")
        elif op == "bloch":
            self.variants(op, "blochify")
        elif op == "infer":
            self.variants(op, "infer_pauli_measurements")
        elif op == "copy":
            self.keep("before copy", p)
            self.p = p.copy()
            check(self.p == p, "a copy is not equal to its source")
        elif op == "reindex":
            nodes = sorted(p.nodes())
            r = nodes[arg % len(nodes):] + nodes[:arg % len(nodes)] if nodes and arg % 2 else [n + arg % 5 for n in nodes]
            m = dict(zip(nodes, r))
            self.variants(op, "reindex", mapping=m)
            self.names = {k: m[v] for k, v in self.names.items() if v in m}
        elif op == "compose_id":
            # composing with the empty pattern on the outputs (identity) in front of the history
            from graphix import Pattern

            ident = Pattern(input_nodes=p.output_nodes)
            self.keep("before compose", p)
            self.keep("identity", ident)
            q, m = p.compose(ident, {o: o for o in p.output_nodes}, preserve_mapping=True)
            self.p = q
        elif op == "standardized":
            sp = StandardizedPattern.from_pattern(p)
            self.keep("before standardized", p)
            q = sp.to_pattern()
            if arg % 2:
                q.shift_signals(method="mc")
            else:
                q.standardize()
            q2 = sp.to_space_optimal_pattern()
            q2.shift_signals(method="mc")
            p.to_opengraph().graph.add_edge(-1, -2)
            self.keep("standardized object", sp.to_pattern())
            self.p = q2
        elif op == "reorder":
            outs = p.output_nodes
            if len(outs) < 2:
                return False
            k = arg % len(outs)
            self.keep("before reorder", p)
            q = p.copy()
            q.reorder_output_nodes(outs[k:] + outs[:k])
            self.perm = self.perm[k:] + self.perm[:k]
            self.p = q
        else:
            raise AssertionError(op)
        return True


def canon(x):  # noqa: ANN001, ANN202
    """Commands as a list, edges of a run of E sorted (sets have no order)."""
    cmds = [[c[0], sorted(c[1:3])] if c[0] == "E" else [c[0], c[1], np.round(c[2], 9).tolist()] if c[0] == "C" else c for c in x["cmds"]]
    return (x["in"], x["out"], sorted(map(repr, cmds)), [c for c in cmds if c[0] == "M"])


def permute_rows(m: np.ndarray, perm) -> np.ndarray:  # noqa: ANN001
    n = len(perm)
    return m.reshape((2,) * n + (-1,)).transpose([*perm, n]).reshape(m.shape)


def sequences(case, info: Info) -> None:  # noqa: ANN001
    d = case["pat"]
    ms = ref.measured(d["cmds"])
    want = ref.run_branch(d, dict.fromkeys(ms, 0)) * 2 ** (len(ms) / 2)
    h = History(d, case["picks"], info)
    done = []
    for op, arg in case["ops"]:
        if not h.apply(op, arg):
            continue
        done.append(op)
        h.check_kept(op)
        h.p.check_runnability()
        dq = conv.describe(h.p)
        check(len(dq["in"]) == len(d["in"]) and [h.names.get(x) for x in d["in"]] == dq["in"], f"{done}: inputs became {dq['in']}")
        check(len(dq["out"]) == len(d["out"]), f"{done}: outputs became {dq['out']}")
        check(h.p.n_node == n_nodes(dq), f"{done}: n_node is {h.p.n_node}, the pattern has {n_nodes(dq)} nodes")
        ms2 = ref.measured(dq["cmds"])
        w = permute_rows(want, h.perm)
        for b in ref.branch_list(ms2, 3, case["picks"]):
            m = ref.run_branch(dq, b) * 2 ** (len(ms2) / 2)
            info.extra += 1
            if not ref.same_up_to_phase(w, m, 1e-6):
                raise Fail(f"after {done}: branch {b} implements\n{np.round(m, 4).tolist()}\ninstead of\n{np.round(w, 4).tolist()}")
    info.label(*{f"op:{o}" for o in done}, f"len{min(len(done), 8)}")
    info.nt(len(set(done)) >= 3 and len(ms) >= 2)


def exact(case, info: Info) -> None:  # noqa: ANN001
    d = case["pat"]
    ms = ref.measured(d["cmds"])
    h = History(d, case["picks"], info)
    branches = ref.branch_list(ms, 3, case["picks"])
    # pairs (outcomes in the original, outcomes now), keyed by original names
    pairs = [(dict(b), dict(b)) for b in branches]
    done = []
    for op, arg in case["ops"]:
        if op in ("shift", "shift_mc"):
            h.keep("before shift", h.p)
            q = h.p.copy()
            sig = q.shift_signals(method="direct" if op == "shift" else "mc")
            h.p = q
            inv = {v: k for k, v in h.names.items()}
            new = []
            for b0, b in pairs:
                # direct: new outcomes -> old outcomes; find the new outcomes by forward substitution in measurement order
                cur = {h.names[k]: v for k, v in b.items()}
                if op == "shift":
                    out: dict[int, int] = {}
                    for n in ref.measured(conv.describe(q)["cmds"]):
                        x = cur[n]
                        for s in sig.get(n, ()):
                            x ^= out[s]
                        out[n] = x
                    check(shift_outcomes(out, sig) == cur, "shift_outcomes does not translate the shifted outcomes back")
                else:
                    out = shift_outcomes(cur, sig)
                new.append((b0, {inv[k]: v for k, v in out.items()}))
            pairs = new
        elif not h.apply(op, arg):
            continue
        done.append(op)
        h.check_kept(op)
        h.p.check_runnability()
        dq = conv.describe(h.p)
        check([h.names[x] for x in d["in"]] == dq["in"], f"{done}: inputs changed")
        check([h.names[d["out"][i]] for i in h.perm] == dq["out"], f"{done}: outputs changed: {dq['out']}")
        check(sorted(ref.measured(dq["cmds"])) == sorted(h.names[n] for n in ms), f"{done}: measured nodes changed")
        check(h.p.n_node == n_nodes(dq), f"{done}: n_node wrong")
        for b0, b in pairs:
            m = ref.branch(dq, {h.names[k]: v for k, v in b.items()})
            w = permute_rows(ref.branch(d, b0), h.perm)
            info.extra += 1
            if not ref.same_up_to_phase(w, m, 1e-7 * max(1.0, float(np.linalg.norm(w)))):
                raise Fail(f"after {done}: branch {b0} (now {b}) implements\n{np.round(m, 4).tolist()}\ninstead of\n{np.round(w, 4).tolist()}")
    info.label(*{f"op:{o}" for o in done}, f"len{min(len(done), 8)}")
    info.nt(len(set(done)) >= 3 and len(ms) >= 2)


def ops(names, lo: int = 2, hi: int = 7):  # noqa: ANN001, ANN201
    return st.lists(st.tuples(st.sampled_from(names), st.integers(0, 30)).map(list), min_size=lo, max_size=hi)


def det():  # noqa: ANN201
    return st.one_of(gen.det_patterns(min_meas=2, max_meas=6), gen.det_patterns(min_meas=2, max_meas=6, heavy=True))


SUBS = [
    Sub("sequences", lambda: st.fixed_dictionaries({"pat": det(), "picks": gen.picks(), "ops": ops(PASSES)}), sequences, quick=4000, thorough=90000, shards=5,
        rule="histories of 2-7 passes (20 kinds) on deterministic patterns, checked after each step; non-trivial: >=3 different passes, >=2 measurements"),
    Sub("exact", lambda: st.fixed_dictionaries({"pat": gen.soups(max_active=4, max_total=8, max_steps=22, min_steps=8), "picks": gen.picks(), "ops": ops(EXACT)}),
        exact, quick=3000, thorough=60000, shards=3,
        rule="histories of branch-preserving passes on arbitrary runnable patterns, outcomes translated through signal shifting; non-trivial: >=3 different passes, >=2 measurements"),
    Sub("large", lambda: st.fixed_dictionaries({"pat": big.seeded(big.det, 8, 28, pauli=0.4), "picks": gen.picks(), "ops": ops(PASSES)}), sequences, quick=120, thorough=4000, shards=6,
        rule="as sequences, 8-28 measured nodes"),
    Sub("large exact", lambda: st.fixed_dictionaries({"pat": big.seeded(big.soup, 30, 80), "picks": gen.picks(), "ops": ops(EXACT)}), exact, quick=120, thorough=4000, shards=5,
        rule="as exact, patterns of 30-80 commands"),
]

"""C32: substitution compared with arithmetic on linear forms and with programs built from the numbers directly.

Random expression trees with random sequences of single and parallel substitutions are compared exactly with linear
forms.  Histories over circuits, patterns, open graphs, flows and corrections mix every transformation with single,
parallel, chained and in-place substitutions and end by comparing the linear map of the result with the reference
map of the circuit built from the numbers.  Symbolic density matrices (with a trigonometric expression class of the
harness) are simulated, substituted, and compared with simulating the substituted program.
"""
from __future__ import annotations

import cmath
import sys
import warnings
from fractions import Fraction
from typing import Any

import numpy as np
from hypothesis import strategies as st

from graphix import Circuit, Pattern
from graphix.branch_selector import ConstBranchSelector, FixedBranchSelector
from graphix.flow.core import PauliFlow, XZCorrections
from graphix.measurements import BlochMeasurement, Measurement, PauliMeasurement
from graphix.opengraph import OpenGraph
from graphix.parameter import AffineExpression, Expression, ExpressionWithTrigonometry, Parameter, Placeholder, PlaceholderOperationError
from graphix.parameter import with_parameter as sub_value
from graphix.parameter import with_parameters as sub_values
from graphix.sim.density_matrix import DensityMatrix, DensityMatrixBackend
from graphix.sim.statevec import Statevector
from vh import conv, gen, ref
from vh.core import Fail, Info, Sub, check
from vh.util import deterministic_map, raises

sys.setrecursionlimit(max(sys.getrecursionlimit(), 20000))

# ---------------------------------------------------------- affine expressions

NUM_TYPES = {"int": int, "float": float, "np": np.float64, "npi": np.int64, "frac": Fraction, "bool": bool, "f32": np.float32}


def num_value(n: list[Any]) -> Any:
    """A number of the requested type; all values are dyadic, so that arithmetic on them is exact."""
    kind, k = n
    if kind in ("int", "npi"):
        return NUM_TYPES[kind](k)
    if kind == "bool":
        return bool(k % 2)
    return NUM_TYPES[kind](k) / NUM_TYPES[kind](8) if kind != "frac" else Fraction(k, 8)


nums = st.tuples(st.sampled_from(["int", "float", "float", "np", "npi", "frac", "bool", "f32"]), st.one_of(st.integers(-9, 9), st.sampled_from([0, 0, 1, -1, 8]))).map(list)
DIVS = [1, 2, 4, -2, -1, -4, 8]


def mix(a: Any, b: Any, weight: int) -> Any:
    """a with odds weight:1 against b (one_of would weigh the branches of both)."""
    return st.tuples(st.integers(0, weight), a, b).map(lambda t: t[1] if t[0] < weight else t[2])


def tree_of(tokens: list[Any]) -> list[Any]:
    """Expression tree from instructions for a stack machine (cheaper to generate than recursive strategies)."""
    stack: list[list[Any]] = []
    for op, i, n in tokens:
        leaf = ["p", i] if op in ("p", "+p", "-p", "*p") else ["n", *n]
        if op in ("p", "n") or not stack:
            stack.append(leaf)
        elif op == "neg":
            stack.append(["neg", stack.pop()])
        elif op == "/d":
            stack.append(["/", stack.pop(), ["n", "int", DIVS[i]]])
        elif op in ("++", "--", "**", "//"):
            right = stack.pop()
            stack.append([op[0], stack.pop() if stack else ["p", i], right])
        else:
            args = [stack.pop(), leaf]
            stack.append([op[0], *(args if n[1] % 2 and op != "/n" else args[::-1] if op != "/n" else args)])
    t = stack.pop()
    while stack:
        t = ["+-*"[len(stack) % 3], stack.pop(), t]
    return t


def trees() -> Any:
    ops = ["p", "p", "n", "+p", "+n", "-p", "-n", "*n", "*n", "+n", "*p", "/n", "neg", "/d", "++", "--", "**", "//", "++", "--"]
    return st.lists(st.tuples(st.sampled_from(ops), st.integers(0, 2), nums), min_size=1, max_size=8).map(tree_of)


class Bad(Exception):
    def __init__(self, exc: type[BaseException]) -> None:
        self.exc = exc


CONST = "const"
Form = dict[Any, Fraction]  # parameter -> coefficient, CONST -> constant


def const(f: Form) -> bool:
    return all(k == CONST for k in f)


def is_float(e: Any) -> bool:
    return not isinstance(e, Expression)


def add(f: Form, g: Form) -> Form:
    r = dict(f)
    for k, v in g.items():
        r[k] = r.get(k, Fraction(0)) + v
    return {k: v for k, v in r.items() if k == CONST or v != 0}


def scale(f: Form, c: Fraction) -> Form:
    return {k: v * c for k, v in f.items() if k == CONST or v * c != 0}


def apply_op(op: str, args: list[Form]) -> Form:
    """Reference arithmetic; Bad(exception) for what affine expressions in one parameter cannot represent."""
    if op == "neg":
        return scale(args[0], Fraction(-1))
    f, g = args
    if op in "+-":
        g2 = g if op == "+" else scale(g, Fraction(-1))
        params = {k for h in (f, g) for k in h if k != CONST}
        if len(params) > 1:
            raise Bad(PlaceholderOperationError)
        return add(f, g2)
    if op == "*":
        if const(f):
            return scale(g, f.get(CONST, Fraction(0)))
        if const(g):
            return scale(f, g.get(CONST, Fraction(0)))
        raise Bad(TypeError)
    if not const(g):
        raise Bad(TypeError)
    d = g.get(CONST, Fraction(0))
    if d == 0:
        raise Bad(ZeroDivisionError)
    return scale(f, 1 / d)


def exact(x: Any) -> Fraction:
    if isinstance(x, complex):
        check(x.imag == 0, f"complex value {x!r}")
        x = x.real
    return Fraction(float(x)) if not isinstance(x, (int, Fraction)) else Fraction(x)


def form_of(e: Any, params: list[Placeholder], probe: int) -> Form:
    """Linear form of a graphix value, obtained from its values at numbers (public behaviour only)."""
    if not isinstance(e, Expression):
        return {CONST: exact(e)}
    at0 = exact(e.with_parameters({p: 0 for p in params}) if probe % 2 else e.xreplace({p: 0.0 for p in params}))
    res: Form = {CONST: at0}
    for i, p in enumerate(params):
        one = e.with_parameter(p, 1) if probe % 3 else e.subs(p, np.float64(1))
        rest = {q: 0 for q in params if q is not p}
        v = exact(one if not isinstance(one, Expression) else one.with_parameters(rest))
        if v != at0:
            res[i] = v - at0
    return res


def same_form(f: Form, g: Form) -> bool:
    keys = set(f) | set(g) | {CONST}
    return all(f.get(k, 0) == g.get(k, 0) for k in keys)


def dyadic(f: Form) -> bool:
    return all(abs(v.numerator) < 2**50 and (v.denominator & (v.denominator - 1)) == 0 and v.denominator < 2**40 for v in f.values())


class NotExact(Exception):
    pass


def evaluate(t: list[Any], params: list[Placeholder]) -> tuple[Any, Form]:
    """Build a tree with graphix and with linear forms at once; an operation fails on one side as on the other."""
    if t[0] == "p":
        return params[t[1]], {t[1]: Fraction(1), CONST: Fraction(0)}
    if t[0] == "n":
        v = num_value(t[1:])
        return v, {CONST: exact(v)}
    pairs = [evaluate(s, params) for s in t[1:]]
    vals, forms = [p[0] for p in pairs], [p[1] for p in pairs]
    if not any(isinstance(v, Expression) for v in vals):
        vals = [float(v) for v in vals]  # arithmetic between plain numbers is not graphix's
    try:
        form = apply_op(t[0], forms)
    except Bad as b:
        err = raises(Exception, lambda: do(t[0], vals))
        plain = not any(isinstance(v, Expression) for v in vals)
        check(isinstance(err, b.exc), lambda: f"{t[0]} on {vals!r}: expected {b.exc.__name__}, got {err!r}")
        check(not plain or b.exc is ZeroDivisionError, "reference error")
        raise
    if not dyadic(form):
        raise NotExact
    return do(t[0], vals), form


def do(op: str, v: list[Any]) -> Any:
    if op == "neg":
        return -v[0]
    if op == "+":
        return v[0] + v[1]
    if op == "-":
        return v[0] - v[1]
    if op == "*":
        return v[0] * v[1]
    return v[0] / v[1]


@st.composite
def expr_cases(draw: Any) -> dict[str, Any]:
    value = st.one_of(nums.map(lambda n: ["n", *n]), nums.map(lambda n: ["n", *n]), st.tuples(st.just("p"), st.integers(0, 2)).map(list), trees())
    step = st.one_of(st.tuples(st.just("one"), st.integers(0, 2), value).map(list), st.tuples(st.just("par"), st.lists(st.tuples(st.integers(0, 2), value).map(list), max_size=3)).map(list))
    return {"tree": draw(trees()), "steps": draw(st.lists(step, max_size=4)), "names": draw(st.sampled_from([["a", "b", "c"], ["x", "x", "x"], ["", "0", "pi"]])), "probe": draw(st.integers(0, 5)), "alias": draw(st.booleans())}


def subst_form(f: Form, asg: dict[int, Form]) -> Form:
    """Parallel substitution in a form with at most one parameter."""
    res: Form = {CONST: f.get(CONST, Fraction(0))}
    for k, c in f.items():
        if k == CONST:
            continue
        res = add(res, scale(asg.get(k, {k: Fraction(1), CONST: Fraction(0)}), c))
    return res


def expr_oracle(case: Any, info: Info) -> None:
    params = [Placeholder(n) for n in case["names"]]
    for p, n in zip(params, case["names"], strict=True):
        check(p.name == n and str(p) == n, "name of the placeholder")
    try:
        e, f = evaluate(case["tree"], params)
    except Bad as b:
        info.label("refused", b.exc.__name__)
        info.nt()
        return
    except NotExact:
        info.label("not exact")
        return
    got = form_of(e, params, case["probe"])
    check(same_form(got, f), lambda: f"{case['tree']}: graphix {e!r} has the form {got}, expected {f}")
    check(isinstance(e, Expression) or const(f), lambda: f"{e!r} lost its parameters {f}")
    trail = [f"{e!r}"]
    for s in case["steps"]:
        try:
            asg = {}
            forms: dict[int, Form] = {}
            for i, t in ([[s[1], s[2]]] if s[0] == "one" else s[1]):
                v, g = evaluate(t, params)
                asg[params[i]] = v
                forms[i] = g
        except (Bad, NotExact):
            continue
        before = repr(e)
        if not isinstance(e, Expression):
            e2 = sub_values(e, asg) if s[0] == "par" else sub_value(e, *next(iter(asg.items())))
            check(e2 is e or e2 == e, "substitution in a number")
            continue
        if s[0] == "one":
            (p, v), = asg.items()
            e2 = e.subs(p, v) if case["alias"] else sub_value(e, p, v)
        else:
            e2 = e.xreplace(asg) if case["alias"] else sub_values(e, asg)
        check(repr(e) == before, "the substitution modified the expression")
        f2 = subst_form(f, forms)
        if not dyadic(f2):
            return
        trail.append(f"{s[0]} {asg} -> {e2!r}")
        got = form_of(e2, params, case["probe"])
        check(same_form(got, f2), lambda: f"{' ; '.join(trail)}: form {got}, expected {f2}")
        check(isinstance(e2, Expression) or const(f2), "the substitution lost a parameter")
        check(not (isinstance(e2, Expression) and s[0] == "one" and const(forms[s[1]]) and s[1] in f), lambda: f"a parameter replaced by a number remains: {' ; '.join(trail)}")
        e, f = e2, f2
    ps = [k for k in f if k != CONST]
    if isinstance(e, Expression) and ps:
        same = f[ps[0]] * params[ps[0]] + f.get(CONST, Fraction(0))
        if isinstance(e, AffineExpression) and not (f[ps[0]] == 1 and f.get(CONST, 0) == 0):
            check(e == same, lambda: f"{e!r} != {same!r}")
            check(not (e == same + 1) and not (e == same * 3), "different expressions are equal")
    info.nt(len(trail) > 1 or case["tree"][0] not in ("p", "n"))
    info.label("parameterised" if ps else "constant", f"steps{len(trail) - 1}")


# ----------------------------------------------------- circuits, patterns, flows

def par_angles() -> Any:
    slope = st.sampled_from([1, 1, -1, 2, 0.5, -0.5])
    off = st.sampled_from([0, 0, 0.5, 1, -0.25, 0.125, 0.3])
    par = st.tuples(st.just("A"), slope, st.integers(0, 2), off).map(list)
    return mix(st.one_of(par, par, st.tuples(st.just("A"), st.just(1), st.integers(0, 2), st.just(0)).map(list)), gen.angles(True), 2)


values = st.one_of(st.tuples(st.sampled_from(["int", "np", "float", "frac"]), st.integers(-3, 3)).map(list), st.tuples(st.just("q"), st.integers(-6, 6)).map(list), st.tuples(st.just("g"), st.integers(1, 999)).map(list),
                   st.tuples(st.just("g"), st.integers(1, 999)).map(list), st.tuples(st.just("A"), st.sampled_from([1, -1, 2, 0.5]), st.integers(0, 3), st.sampled_from([0, 0.5, 0.25, -1])).map(list))


def val(v: list[Any], params: list[Placeholder]) -> tuple[Any, Any]:
    """(graphix value, reference value): a number or an affine triple (slope, parameter, offset)."""
    if v[0] == "q":
        return v[1] / 2, v[1] / 2
    if v[0] == "g":
        return v[1] / 500 + 0.0003, v[1] / 500 + 0.0003
    if v[0] == "A":
        return affine(v, params), tuple(v[1:])
    x = num_value(v)
    return x, float(x)


def affine(v: list[Any], params: list[Placeholder]) -> Any:
    e: Any = params[v[2]]
    if v[1] != 1:
        e = v[1] * e if v[2] % 2 else e * v[1]
    if v[3] != 0:
        e = e + v[3] if v[2] % 2 else v[3] + e
    return e


MANY_ROTATIONS = [g for g in gen.ALL_GATES if g != "CCX"] + ["RX", "RY", "RZ", "J", "RZZ"] * 3
STAGES = ["transpile", "standardize", "shift", "shift_mc", "infer", "push", "remove_pauli", "minimize", "parallelize", "local", "bloch", "copy", "xz", "flow", "gflow", "og", "circuit", "compose", "reindex"]


@st.composite
def program_cases(draw: Any) -> dict[str, Any]:
    c = draw(gen.circuits(max_width=3, max_ops=5, gates=MANY_ROTATIONS, ccx_limit=0, angle=par_angles(), min_ops=1))
    step = st.one_of(st.tuples(st.just("one"), st.integers(0, 3), values).map(list), st.tuples(st.just("par"), st.lists(st.tuples(st.integers(0, 3), values).map(list), max_size=4)).map(list))
    hist = []
    for _ in range(draw(st.integers(2, 9))):
        k = draw(st.integers(0, 5))
        if k <= 1:
            hist.append(["sub", draw(step), draw(st.sampled_from(["with", "alias", "inplace", "copy"]))])
        else:
            hist.append(["do", draw(st.sampled_from(STAGES[:1] if not any(h[:2] == ["do", "transpile"] for h in hist) and k < 5 else STAGES))])
    return {"c": c, "hist": hist, "final": [draw(values.filter(lambda v: v[0] != "A")) for _ in range(4)], "names": draw(st.sampled_from([["a", "b", "c", "d"], ["x", "x", "x", "x"]])), "picks": draw(gen.picks()), "last": draw(st.integers(0, 1))}


Ang = Any


def rsub(a: Ang, asg: dict[int, Any]) -> Ang:
    """Substitution in a reference angle, a number or (slope, parameter, offset)."""
    if not isinstance(a, tuple):
        return a
    k, p, b = a
    if p not in asg:
        return a
    v = asg[p]
    return (k * v[0], v[1], k * v[2] + b) if isinstance(v, tuple) else k * v + b


def build(c: dict[str, Any], params: list[Placeholder]) -> Circuit:
    q = Circuit(c["w"])
    for op in c["ops"]:
        conv.add_gate(q, [affine(x, params) if isinstance(x, list) else x for x in op])
    return q


def aff_key(a: Any) -> Any:
    if isinstance(a, AffineExpression):
        return ["aff", float(a.a), id(a.x), float(a.b)]
    if isinstance(a, Expression):
        return ["expr", id(a)]
    return float(a)


def sig_meas(m: Any) -> Any:
    return ["B", m.plane.name, aff_key(m.angle)] if isinstance(m, BlochMeasurement) else ["P", m.axis.name, m.sign.name] if isinstance(m, PauliMeasurement) else repr(m)


def sig(o: Any) -> Any:
    """Exact content of a program, with affine angles."""
    if isinstance(o, Circuit):
        return [o.width, [[type(i).__name__, *[aff_key(v) if k == "angle" else repr(v) for k, v in sorted(vars(i).items())]] if hasattr(i, "__dict__") else [repr(i)] for i in o.instruction]]
    if isinstance(o, Pattern):
        return [list(o.input_nodes), list(o.output_nodes), [["M", c.node, sig_meas(c.measurement), sorted(c.s_domain), sorted(c.t_domain)] if type(c).__name__ == "M" else repr(c) for c in o]]
    if isinstance(o, OpenGraph):
        return [sorted(o.graph.nodes), sorted(map(sorted, o.graph.edges)), list(o.input_nodes), list(o.output_nodes), sorted((n, sig_meas(m)) for n, m in o.measurements.items()), repr(sorted(o.output_cliffords.items()))]
    if isinstance(o, PauliFlow):
        return [type(o).__name__, sig(o.og), sorted((k, sorted(v)) for k, v in o.correction_function.items()), [sorted(x) for x in o.partial_order_layers]]
    if isinstance(o, XZCorrections):
        return ["XZ", sig(o.og), sorted((k, sorted(v)) for k, v in o.x_corrections.items()), sorted((k, sorted(v)) for k, v in o.z_corrections.items()), [sorted(x) for x in o.partial_order_layers]]
    raise Fail(f"unexpected object {type(o)}")


def substitute(o: Any, step: list[Any], params: list[Placeholder], way: str) -> tuple[Any, dict[int, Any]]:
    if step[0] == "one":
        pairs = [[step[1], step[2]]]
    else:
        pairs = list({i: [i, v] for i, v in step[1]}.values())
    vals = {i: val(v, params) for i, v in pairs}
    refs = {i: r for i, (_, r) in vals.items()}
    before = sig(o)
    inplace_ok = isinstance(o, (Circuit, Pattern))
    if step[0] == "one":
        p, v = params[pairs[0][0]], vals[pairs[0][0]][0]
        new = o.with_parameter(p, v)
        alts = [o.subs(p, v)] if way == "alias" else [o.replace_parameter(p, v, copy=True)] if way == "copy" and inplace_ok else []
        apply_inplace = lambda: o.replace_parameter(p, v)  # noqa: E731
    else:
        asg = {params[i]: v for i, (v, _) in vals.items()}
        new = o.with_parameters(asg)
        alts = [o.xreplace(asg)] if way == "alias" else [o.replace_parameters(asg, copy=True)] if way == "copy" and inplace_ok else []
        apply_inplace = lambda: o.replace_parameters(asg)  # noqa: E731
    check(sig(o) == before, f"substitution modified the original {type(o).__name__}")
    check(type(new) is type(o), "substitution changed the class")
    for a in alts:
        check(sig(a) == sig(new), lambda: f"two ways of substituting differ: {sig(a)} and {sig(new)}")
    if way == "inplace" and inplace_ok:
        want = sig(new)
        r = apply_inplace()
        check(r is o, "in-place substitution returns another object")
        check(sig(o) == want, lambda: f"substitution in place gives {sig(o)}, a copy gives {want}")
        check(sig(new) == want, "the copy changed with the original")
        return o, refs
    return new, refs


def stage(o: Any, name: str, info: Info, aux: Any) -> Any:
    """Apply one transformation, or return None when it does not apply."""
    if isinstance(o, Circuit):
        if len(o.instruction) > 30:
            return None
        if name == "transpile":
            return o.transpile().pattern
        if name == "flow":
            return o.transpile_to_causalflow().flow.to_xzcorrections().to_pattern() if hasattr(o.transpile_to_causalflow(), "flow") else None
        return None
    p: Pattern = o
    if name == "standardize":
        p.standardize()
        return p
    if name in ("shift", "shift_mc"):
        p.shift_signals(method="direct" if name == "shift" else "mc")
        return p
    if name == "infer":
        return p.infer_pauli_measurements(copy=aux % 2 == 0)
    if name == "push":
        return p.perform_pauli_pushing(copy=aux % 2 == 0)
    if name == "remove_pauli":
        r = p.remove_pauli_measurements(copy=aux % 2 == 0)
        return r
    if name == "minimize":
        p.minimize_space()
        return p
    if name == "parallelize":
        p.parallelize_pattern()
        return p
    if name == "local":
        return p.remove_local_clifford_commands(copy=aux % 2 == 0)
    if name == "bloch":
        return p.to_bloch() if aux % 2 else p.blochify(copy=True)
    if name == "copy":
        return p.copy()
    return None


def numeric_map(o: Any, picks: list[int], info: Info) -> np.ndarray:
    if isinstance(o, Circuit):
        return ref.circuit_map(o.width, conv.describe_circuit(o)["ops"])[0]
    return deterministic_map(conv.describe(o), picks, info, "substituted pattern", 4)


def program_oracle(case: Any, info: Info) -> None:
    try:
        run_program(case, info)
    except NotImplementedError as e:
        # Cliffords left between entangling commands: standardization declines, with or without parameters
        check("tandarization" in str(e) or "tandardization" in str(e), lambda: f"{e!r}")
        info.label("declined")


def run_program(case: Any, info: Info) -> None:
    c = case["c"]
    params = [Placeholder(n) for n in case["names"]]
    o: Any = build(c, params)
    ops = [[tuple(x[1:]) if isinstance(x, list) else x for x in op] for op in c["ops"]]

    def symbolic() -> bool:
        return any(isinstance(x, tuple) for op in ops for x in op)

    def parameterised(x: Any) -> bool:
        og = x if isinstance(x, OpenGraph) else getattr(x, "og", None)
        if og is not None:
            return any(isinstance(m, BlochMeasurement) and isinstance(m.angle, Expression) for m in og.measurements.values())
        return x.is_parameterized()

    n_sub = n_stage = 0
    had = symbolic()
    hist = list(case["hist"])
    for t in range(len(hist)):
        h = hist[t]
        if h[0] == "done":
            continue
        check(parameterised(o) == symbolic(), lambda: f"after {t} steps: is_parameterized says {parameterised(o)}, placeholders remain: {symbolic()}")
        if h[0] == "sub":
            o, refs = substitute(o, h[1], params, h[2])
            ops = [[rsub(x, refs) for x in op] for op in ops]
            n_sub += 1
            continue
        name = h[1]
        aux = case["picks"][t % len(case["picks"])] + t
        if isinstance(o, Pattern) and name in ("xz", "flow", "gflow", "og", "circuit"):
            # leave for another representation, substitute there, and come back
            nxt = hist[t + 1] if t + 1 < len(hist) and hist[t + 1][0] == "sub" else None
            mid: Any
            if name == "xz":
                if not o.is_standard():
                    o.standardize()
                o = o.copy()
                mid = o.to_xzcorrections()
            else:
                q = o.copy()
                q.standardize()
                mid = q.to_opengraph()
                if name in ("flow", "circuit"):
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        mid = mid.to_pauliflow_or_none()
                elif name == "gflow":
                    try:
                        mid = mid.to_bloch().to_gflow_or_none()
                    except TypeError:
                        mid = None
                if mid is not None and name == "circuit" and (mid.og.output_cliffords or len(list(o)) > 60):
                    mid = None  # extraction of circuits from decorated graphs is declared unsupported
                if mid is None:
                    info.label(f"no {name}")
                    continue
            if nxt is not None:
                mid, refs = substitute(mid, nxt[1], params, "alias" if nxt[2] == "alias" else "with")
                ops = [[rsub(x, refs) for x in op] for op in ops]
                check(parameterised(mid) == symbolic(), "placeholders in the measurements")
                hist[t + 1] = ["done"]
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if name == "circuit":
                    o = mid.og.to_circuit()
                elif name == "og":
                    try:
                        o = mid.to_pattern()
                    except Exception as err:  # noqa: BLE001
                        if "flow" not in str(err):
                            raise
                        info.label("no og flow")
                        return
                elif name == "xz":
                    o = mid.to_pattern()
                else:
                    o = mid.to_xzcorrections().to_pattern()
            n_stage += 1
            info.label(name)
            continue
        if isinstance(o, Pattern) and name in ("compose", "reindex"):
            if name == "reindex":
                o = o.copy()
                res = o.reindex({n: n + 100 + t for n in o.nodes()}) if not any(n >= 100 for n in o.nodes()) else None
                o = res[0] if isinstance(res, tuple) else res if isinstance(res, Pattern) else o
            else:
                extra = Circuit(c["w"])
                conv.add_gate(extra, ["RZ", 0, affine(["A", 1, aux % 4, 0.25], params)])
                conv.add_gate(extra, ["H", c["w"] - 1])
                p2 = extra.transpile().pattern
                if len(o.output_nodes) != c["w"] or len(ops) > 7:
                    continue
                mapping = dict(zip(p2.input_nodes, o.output_nodes, strict=True))
                o, _ = o.compose(p2, mapping)
                want_out = [_[n] for n in p2.output_nodes]
                o.reorder_output_nodes(want_out)
                ops = [*ops, ["RZ", 0, (1, aux % 4, 0.25)], ["H", c["w"] - 1]]
            n_stage += 1
            info.label(name)
            continue
        new = stage(o, name, info, aux)
        if new is None:
            continue
        o = new
        n_stage += 1
        info.label(name)
    check(parameterised(o) == symbolic(), "is_parameterized at the end")
    final = [val(v, params) for v in case["final"]]
    if symbolic():
        if isinstance(o, Pattern) and o.max_space() <= 10:
            err = raises(Exception, lambda: o.simulate())
            check(isinstance(err, (PlaceholderOperationError, ValueError, TypeError)), lambda: f"simulating a parameterised program gives {err!r}")
        if case["last"]:
            o = o.with_parameters({p: v for p, (v, _) in zip(params, final, strict=True)})
        else:
            for p, (v, _) in zip(params, final, strict=True):
                o = o.with_parameter(p, v)
        ops = [[rsub(x, {i: r for i, (_, r) in enumerate(final)}) for x in op] for op in ops]
    check(not o.is_parameterized(), "a placeholder remains after substituting everything")
    want = ref.circuit_map(c["w"], ops)[0]
    got = numeric_map(o, case["picks"], info)
    check(got.shape == want.shape and ref.prop_to(got, want), lambda: f"after {case['hist']}: map {np.round(got, 4).tolist()}, expected {np.round(want, 4).tolist()}")
    info.nt(had and n_stage > 0)
    info.label("subs" if n_sub else "subs only at the end")


# ------------------------------------------------------------ density matrices

class Lazy(ExpressionWithTrigonometry):
    """Expressions with trigonometry, evaluated when all their parameters have values."""

    def __init__(self, f: Any, args: tuple[Any, ...]) -> None:
        self.f, self.args = f, args

    @staticmethod
    def plus(a: Any, b: Any) -> Any:
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return NotImplemented
        if not isinstance(a, Lazy) and a == 0:
            return b
        if not isinstance(b, Lazy) and b == 0:
            return a
        return Lazy(lambda x, y: x + y, (a, b))

    @staticmethod
    def times(a: Any, b: Any) -> Any:
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return NotImplemented
        for x, y in ((a, b), (b, a)):
            if not isinstance(x, Lazy) and x == 0:
                return 0
            if not isinstance(x, Lazy) and x == 1:
                return y
        return Lazy(lambda x, y: x * y, (a, b))

    def __add__(self, o: Any) -> Any:
        return Lazy.plus(self, o)

    def __radd__(self, o: Any) -> Any:
        return Lazy.plus(o, self)

    def __sub__(self, o: Any) -> Any:
        return NotImplemented if isinstance(o, np.ndarray) else Lazy.plus(self, -o)

    def __rsub__(self, o: Any) -> Any:
        return NotImplemented if isinstance(o, np.ndarray) else Lazy.plus(o, -self)

    def __mul__(self, o: Any) -> Any:
        return Lazy.times(self, o)

    def __rmul__(self, o: Any) -> Any:
        return Lazy.times(o, self)

    def __truediv__(self, o: Any) -> Any:
        return NotImplemented if isinstance(o, np.ndarray) else Lazy(lambda x, y: x / y, (self, o))

    def __rtruediv__(self, o: Any) -> Any:
        return NotImplemented if isinstance(o, np.ndarray) else Lazy(lambda x, y: x / y, (o, self))

    def __neg__(self) -> Any:
        return Lazy(lambda x: -x, (self,))

    def conjugate(self) -> Any:
        return Lazy(lambda x: complex(x).conjugate(), (self,))

    def sqrt(self) -> Any:
        return Lazy(cmath.sqrt, (self,))

    def cos(self) -> Any:
        return Lazy(cmath.cos, (self,))

    def sin(self) -> Any:
        return Lazy(cmath.sin, (self,))

    def exp(self) -> Any:
        return Lazy(cmath.exp, (self,))

    def ev(self, asg: Any, memo: dict[int, Any]) -> Any:
        if id(self) not in memo:
            args = [a.ev(asg, memo) if isinstance(a, Lazy) else a for a in self.args]
            memo[id(self)] = Lazy(self.f, tuple(args)) if any(isinstance(a, Lazy) for a in args) else self.f(*args)
        return memo[id(self)]

    def with_parameters(self, assignment: Any) -> Any:
        return self.ev(assignment, {})

    def with_parameter(self, variable: Parameter, substitute: Any) -> Any:
        return self.ev({variable: substitute}, {})


class Sym(Lazy, Parameter):
    def __init__(self, name: str) -> None:
        super().__init__(None, ())
        self.name = name

    def ev(self, asg: Any, memo: dict[int, Any]) -> Any:
        return asg.get(self, self)


@st.composite
def matrix_cases(draw: Any) -> dict[str, Any]:
    n = draw(st.integers(0, 2))
    dim = 2**n
    entry = st.one_of(st.tuples(st.just("n"), st.integers(-3, 3), st.integers(-3, 3)).map(list), st.tuples(st.just("A"), st.sampled_from([1, -1, 2, 0.5]), st.integers(0, 2), st.sampled_from([0, 0.5, -1])).map(list),
                      st.tuples(st.just("L"), st.integers(0, 2), st.integers(-2, 2)).map(list), st.just(["n", 0, 0]))
    return {"n": n, "rho": [draw(entry) for _ in range(dim * dim)], "order": draw(st.permutations([0, 1, 2])), "vals": [draw(st.one_of(st.integers(-3, 3), st.integers(-20, 20).map(lambda k: k / 8))) for _ in range(3)], "way": draw(st.integers(0, 3)), "ints": draw(st.booleans())}


def matrix_oracle(case: Any, info: Info) -> None:
    dim = 2 ** case["n"]
    params = [Placeholder("a"), Placeholder("b"), Placeholder("c")]
    syms = [Sym("a"), Sym("b"), Sym("c")]
    rho = np.empty((dim, dim), dtype=np.object_)
    want = np.zeros((dim, dim), dtype=np.complex128)
    used: list[set[int]] = []
    for k, e in enumerate(case["rho"]):
        i, j = divmod(k, dim)
        if e[0] == "n":
            rho[i, j] = e[1] if case["ints"] and not e[2] else complex(e[1], e[2])
            want[i, j] = complex(e[1], e[2])
            used.append(set())
        elif e[0] == "A":
            rho[i, j] = affine(e, params)
            want[i, j] = e[1] * case["vals"][e[2]] + e[3]
            used.append({e[2]})
        else:
            rho[i, j] = (syms[e[1]] * 1j).exp() + e[2]
            want[i, j] = cmath.exp(1j * case["vals"][e[1]]) + e[2]
            used.append({e[1]})
    dm = DensityMatrix(nqubit=case["n"])
    dm.rho = rho.copy()
    left = set(range(3))

    def asg(i: int) -> dict[Any, Any]:
        return {params[i]: case["vals"][i], syms[i]: case["vals"][i]}

    before = [id(x) for x in rho.flat]
    if case["way"] == 0:
        new = dm.with_parameters({k: v for i in range(3) for k, v in asg(i).items()})
    elif case["way"] == 1:
        new = dm
        for i in case["order"]:
            new = new.xreplace(asg(i))
            left.discard(i)
            for k, e in enumerate(used):
                check(isinstance(new.rho.flat[k], Expression) == bool(e & left), lambda: f"entry {k} is {new.rho.flat[k]!r} after substituting all but {left}")
            check((new.rho.dtype == np.complex128) == (not any(e & left for e in used)), lambda: f"entries of type {new.rho.dtype} with {left} left")
    elif case["way"] == 2:
        new = dm
        for i in case["order"]:
            for k, v in asg(i).items():
                new = new.subs(k, v)
    else:
        new = dm.with_parameter(params[0], case["vals"][0])
        for i in range(3):
            r = new.replace_parameters(asg(i))
            check(r is new, "replacement in place returns another object")
    check([id(x) for x in dm.rho.flat] == before if dm.rho.dtype == np.object_ else False, "substitution modified the original matrix")
    check(new.rho.dtype == np.complex128, lambda: f"type {new.rho.dtype} after substituting everything")
    check(new.rho.shape == (dim, dim) and np.allclose(new.rho, want, atol=1e-12), lambda: f"{new.rho.tolist()} instead of {want.tolist()}")
    info.nt(any(used))
    info.label(f"n{case['n']}", f"way{case['way']}", "mixed" if any(used) and not all(used) else "uniform")


# ------------------------------------------------------- symbolic simulation

@st.composite
def symbolic_cases(draw: Any) -> dict[str, Any]:
    par = st.tuples(st.just("A"), st.sampled_from([1, 1, -1, 0.5]), st.integers(0, 1), st.sampled_from([0, 0.5, 0.25])).map(list)
    c = draw(gen.circuits(max_width=2, max_ops=3, gates=MANY_ROTATIONS, ccx_limit=0, angle=mix(par, gen.angles(True), 3), min_ops=1))
    return {"c": c, "vals": [draw(st.one_of(st.integers(1, 999).map(lambda k: k / 500 + 0.0003), st.integers(-4, 4).map(lambda k: k / 2))) for _ in range(2)], "out": draw(st.lists(st.integers(0, 1), min_size=8, max_size=8)),
            "way": draw(st.sampled_from(["pattern", "pattern", "circuit", "refuse"])), "one": draw(st.booleans()), "std": draw(st.booleans()), "infer": draw(st.booleans())}


def symbolic_oracle(case: Any, info: Info) -> None:
    c = case["c"]
    has = any(isinstance(x, list) for op in c["ops"] for x in op)
    num = {"w": c["w"], "ops": [[x[1] * case["vals"][x[2]] + x[3] if isinstance(x, list) else x for x in op] for op in c["ops"]]}
    want_vec = ref.circuit_map(num["w"], num["ops"])[0] @ np.full(2 ** c["w"], 2 ** (-c["w"] / 2), dtype=complex)
    want = np.outer(want_vec, want_vec.conj())
    if case["way"] == "refuse":
        pl = [Placeholder("a"), Placeholder("b")]
        q = build(c, pl)
        p = q.transpile().pattern
        for fn in (lambda: p.simulate(), lambda: p.simulate(backend="densitymatrix"), lambda: q.simulate()):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                err = raises(Exception, fn)
            check(isinstance(err, (PlaceholderOperationError, TypeError)) if has else err is None, lambda: f"simulation of a program with{'' if has else 'out'} placeholders: {err!r}")
        err = raises(ValueError, lambda: p.simulate(backend="statevector", symbolic=True))
        check(err is not None, "the statevector backend accepts symbolic=True")
        info.nt(has)
        info.label("refuse")
        return
    syms: list[Any] = [Sym("a"), Sym("b")]
    q = Circuit(c["w"])
    for op in c["ops"]:
        conv.add_gate(q, [syms[x[2]] * x[1] + x[3] if isinstance(x, list) else x for x in op])
    if case["way"] == "circuit":
        state = q.simulate(backend=DensityMatrixBackend(symbolic=True)).state
    else:
        p = q.transpile().pattern
        if case["std"]:
            p.standardize()
            p.minimize_space()
        if case["infer"]:
            p = p.infer_pauli_measurements(copy=True)
        if p.max_space() > 4 or len(list(p)) > 40:
            info.label("too large")
            return
        nodes = list(p.measurement_commands() if case["std"] else [x.node for x in p if type(x).__name__ == "M"])
        sel = FixedBranchSelector({n: case["out"][i % 8] for i, n in enumerate(nodes)}) if case["out"][0] else ConstBranchSelector(case["out"][1])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            state = p.simulate(backend="densitymatrix", symbolic=True, branch_selector=sel)
    check(isinstance(state, DensityMatrix), "class of the result")
    asg = dict(zip(syms, case["vals"], strict=True))
    if case["one"]:
        res = state
        for s, v in asg.items():
            res = res.with_parameter(s, v)
    else:
        res = state.with_parameters(asg)
    check(res.rho.dtype == np.complex128, lambda: f"type {res.rho.dtype} after substitution")
    check(np.allclose(res.rho, want, atol=1e-7), lambda: f"substituting in the simulated state gives {np.round(res.rho, 4).tolist()}, the substituted circuit prepares {np.round(want, 4).tolist()}")
    info.nt(has)
    info.label(case["way"], "symbolic" if has else "numeric")


# --------------------------------------------------------------- measurements

@st.composite
def meas_cases(draw: Any) -> dict[str, Any]:
    return {"plane": draw(st.sampled_from(["XY", "YZ", "XZ"])), "ang": draw(par_angles()), "steps": draw(st.lists(st.tuples(st.integers(0, 3), values).map(list), min_size=1, max_size=3)), "pauli": draw(st.sampled_from(["", "", "", "", "", "X", "Y", "Z"])), "par": draw(st.booleans())}


def meas_oracle(case: Any, info: Info) -> None:
    params = [Placeholder(x) for x in "abcd"]
    if case["pauli"]:
        m: Measurement = PauliMeasurement(conv.AXES[case["pauli"]])
        for i, v in case["steps"]:
            x = val(v, params)[0]
            check(m.with_parameter(params[i], x) == m and m.with_parameters({params[i]: x}) == m, "substitution in a Pauli measurement")
        info.label("Pauli")
        return
    a = case["ang"]
    m = BlochMeasurement(affine(a, params) if isinstance(a, list) else a, conv.PLANES[case["plane"]])
    r: Ang = tuple(a[1:]) if isinstance(a, list) else a
    for i, v in case["steps"]:
        g, rv = val(v, params)
        before = sig_meas(m)
        m2 = m.with_parameters({params[i]: g}) if case["par"] else m.with_parameter(params[i], g)
        check(sig_meas(m) == before, "substitution modified the measurement")
        m, r = m2, rsub(r, {i: rv})
        check(m.plane == conv.PLANES[case["plane"]], "substitution changed the plane")
        if isinstance(r, tuple):
            full = sub_values(m.angle, {params[r[1]]: 0.375})
            check(isinstance(m.angle, Expression) and abs(full - (r[0] * 0.375 + r[2])) < 1e-12, lambda: f"angle {m.angle!r}, expected {r}")
        else:
            check(not isinstance(m.angle, Expression) and abs(m.angle - r) < 1e-12, lambda: f"angle {m.angle!r}, expected {r}")
            want = None
            if abs(r * 2 - round(r * 2)) < 1e-12:
                want = True
            check((m.to_pauli_or_none() is not None) == bool(want), lambda: f"Pauli recognition of the substituted angle {m.angle!r}")
    info.nt(isinstance(a, list))


SUBS = [
    Sub("expressions", expr_cases, expr_oracle, quick=4000, thorough=150000, rule="a tree with an operation, or at least one substitution performed"),
    Sub("programs", program_cases, program_oracle, quick=2000, thorough=30000, rule="a parameterised circuit to which at least one transformation was applied before the last substitution"),
    Sub("matrices", matrix_cases, matrix_oracle, quick=800, thorough=12000, rule="at least one symbolic entry"),
    Sub("symbolic", symbolic_cases, symbolic_oracle, quick=300, thorough=6000, rule="at least one symbolic angle"),
    Sub("measurements", meas_cases, meas_oracle, quick=800, thorough=10000, rule="an angle with a placeholder"),
]

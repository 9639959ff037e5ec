"""Reads the mathematical notation printed by graphix (ASCII, Unicode and LaTeX) back into numbers and vectors.

Juxtaposition is multiplication, with the precedence of / and *, from left to right: 1/4i is a quarter of i.
"""
from __future__ import annotations

import cmath
import math
import re
from typing import Any

from vh.core import Fail

TOKEN = {
    "ASCII": re.compile(r"\s*(?:(?P<num>\d+(?:\.\d*)?(?:e[+-]?\d+)?)|(?P<ket>\|[01]*>)|(?P<word>sqrt|pi|e\^|i)|(?P<op>[-+*/()]))"),
    "Unicode": re.compile(r"\s*(?:(?P<num>\d+(?:\.\d*)?(?:e[+-]?\d+)?)|(?P<ket>\|[01]*⟩)|(?P<word>√|π|e\^|i)|(?P<op>[-+×·/()]))"),
    "LaTeX": re.compile(r"\s*(?:(?P<num>\d+(?:\.\d*)?(?:e[+-]?\d+)?)|(?P<ket>\\ket\{[01]*\})|(?P<word>\\sqrt|\\pi|\\mathrm\{e\}\^|\\mathrm\{i\}|\\frac|\\times)|(?P<op>[-+(){}]))"),
}
NAMES = {"√": "sqrt", "\\sqrt": "sqrt", "π": "pi", "\\pi": "pi", "\\mathrm{e}^": "e^", "\\mathrm{i}": "i", "\\times": "*", "×": "*", "·": "*", "\\frac": "frac"}


class Text:
    """A parsed expression: value is a complex number or a dictionary from kets to complex numbers."""

    def __init__(self, text: str, fmt: str) -> None:
        self.text = text
        self.fmt = fmt
        self.dens: list[int] = []
        self.toks: list[tuple[str, Any]] = []
        pos = 0
        while pos < len(text):
            m = TOKEN[fmt].match(text, pos)
            if m is None:
                raise Fail(f"cannot read {text!r} ({fmt}) from position {pos}")
            kind = m.lastgroup
            s = m.group(kind)
            if kind == "ket":
                self.toks.append(("ket", re.sub("[^01]", "", s.replace("\\ket", ""))))
            elif kind == "num":
                self.toks.append(("num", s))
            else:
                self.toks.append((NAMES.get(s, s), None))
            pos = m.end()
        self.i = 0
        self.value = self.expr()
        if self.i != len(self.toks):
            raise Fail(f"cannot read {text!r} ({fmt}): {self.toks[self.i:]} left")
        names = {t for t, _ in self.toks}
        #: made of decimal numbers only (they are rounded)
        self.decimal = any(t == "num" and ("." in v or "e" in v) for t, v in self.toks)
        self.plain = not names & {"sqrt", "pi", "e^", "/", "frac"}

    def peek(self) -> str:
        return self.toks[self.i][0] if self.i < len(self.toks) else "end"

    def take(self, want: str | None = None) -> Any:
        if self.i >= len(self.toks) or (want is not None and self.peek() != want):
            raise Fail(f"cannot read {self.text!r} ({self.fmt}): {want} expected, {self.peek()} found")
        self.i += 1
        return self.toks[self.i - 1][1]

    def expr(self) -> Any:
        neg = self.peek() == "-"
        if neg:
            self.take()
        v = self.term()
        if neg:
            v = mul(-1, v)
        while self.peek() in ("+", "-"):
            op = self.peek()
            self.take()
            w = self.term()
            v = self.add(v, w if op == "+" else mul(-1, w))
        return v

    def add(self, a: Any, b: Any) -> Any:
        if isinstance(a, dict) != isinstance(b, dict):
            raise Fail(f"{self.text!r} is the sum of a number and a vector")
        if not isinstance(a, dict):
            return a + b
        if set(a) & set(b):
            raise Fail(f"{self.text!r} has several terms for one ket")
        return {**a, **b}

    def term(self) -> Any:
        v = self.factor()
        while self.peek() in ("*", "/", "num", "ket", "sqrt", "pi", "e^", "i", "frac", "("):
            if self.peek() == "/":
                self.take()
                if self.peek() == "num":
                    self.dens.append(int(self.toks[self.i][1]))
                d = self.factor()
                if isinstance(d, dict):
                    raise Fail(f"{self.text!r} divides by a vector")
                v = mul(1 / d, v)
                continue
            if self.peek() == "*":
                self.take()
            w = self.factor()
            if isinstance(v, dict):
                raise Fail(f"{self.text!r} multiplies a vector from the right")
            v = mul(v, w)
        return v

    def group(self, a: str = "(", b: str = ")") -> Any:
        self.take(a)
        v = self.expr()
        self.take(b)
        return v

    def factor(self) -> Any:
        k = self.peek()
        if k == "num":
            return float(self.take())
        if k == "ket":
            return {self.take(): 1.0}
        if k == "pi":
            self.take()
            return math.pi
        if k == "i":
            self.take()
            return 1j
        if k == "sqrt":
            self.take()
            arg = float(self.take("num")) if self.fmt == "Unicode" else self.group("{", "}") if self.fmt == "LaTeX" else self.group()
            return math.sqrt(arg)
        if k == "e^":
            self.take()
            return cmath.exp(self.group("{", "}") if self.fmt == "LaTeX" else self.group())
        if k == "frac":
            self.take()
            n = self.group("{", "}")
            self.take("{")
            d = self.take("num")
            self.take("}")
            self.dens.append(int(d))
            return mul(1 / float(d), n)
        if k == "(":
            return self.group()
        raise Fail(f"cannot read {self.text!r} ({self.fmt}): unexpected {k}")


def mul(a: Any, b: Any) -> Any:
    if isinstance(b, dict):
        return {k: a * v for k, v in b.items()}
    return a * b


def number(text: str, fmt: str) -> Text:
    t = Text(text, fmt)
    if isinstance(t.value, dict):
        raise Fail(f"{text!r} is not a number")
    return t


def real(text: str, fmt: str) -> float:
    v = number(text, fmt).value
    if isinstance(v, complex):
        raise Fail(f"{text!r} is not real")
    return v

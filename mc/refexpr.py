"""Reference reading of expression tokens: pycep's convention, by recursive descent.

  expr    := ('-' | '!') expr | primary postfix* tail
  postfix := '!' | '[' '?'? expr ']' | '.' list*/getSecret '(' args ')'
  tail    := BINARY expr | ('.' | '.?' | '::') expr | '?' expr ':' expr | '=>' expr | nothing
"""
from __future__ import annotations

from .model import ACCESS, BINARY, I, x_binary, x_call, x_cond, x_func, x_index, x_lambda, x_minus, x_not
from .core import Ordered


class Bad(Exception):
    """Not an expression of the reference grammar."""


END = ("end", None)


def is_list_name(n):
    return n == "getSecret" or n[:4] in ("list", "List")


class Reader:
    """tokens: list of (kind, value); kinds: id, int, str, kw, sym, call (name followed by parenthesis)."""

    def __init__(self, tokens):
        self.t, self.i = tokens, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else END

    def sym(self, s, k=0):
        return self.peek(k) == ("sym", s)

    def eat(self, s):
        if not self.sym(s):
            raise Bad(f"{s} expected at {self.i}, got {self.peek()}")
        self.i += 1

    def whole(self):
        e = self.expr()
        if self.peek() != END:
            raise Bad(f"rest at {self.i}")
        return e

    def expr(self):
        if self.sym("-"):
            self.i += 1
            return x_minus(self.expr())
        if self.sym("!"):
            self.i += 1
            return x_not(self.expr())
        names = None
        k, v = self.peek()
        if k == "id":
            self.i += 1
            names, value = [v], I(v)
        elif k in ("int", "str", "kw"):
            self.i += 1
            value = v
        elif k == "call":
            self.i += 1
            value = x_func(v, self.args())
        elif self.sym("("):
            self.i += 1
            value = self.expr()
            if self.sym(","):
                names = [value]
                while self.sym(","):
                    self.i += 1
                    names.append(self.expr())
                self.eat(")")
                if not all(type(n) is type(I("a")) for n in names):
                    raise Bad("lambda variables")
                self.eat("=>")
                return x_lambda([str(n) for n in names], self.expr())
            self.eat(")")
        elif self.sym("["):
            self.i += 1
            value = []
            if not self.sym("]"):
                value.append(self.expr())
                while self.sym(","):
                    self.i += 1
                    value.append(self.expr())
            self.eat("]")
        elif self.sym("{"):
            self.i += 1
            value = Ordered()
            while not self.sym("}"):
                if value:
                    self.eat(",")
                k, v = self.peek()
                if k != "id":
                    raise Bad("key")
                self.i += 1
                self.eat(":")
                value[v] = self.expr()
            self.eat("}")
        else:
            raise Bad(f"operand expected at {self.i}")
        return self.after(value, names)

    def args(self):
        out = []
        if not self.sym(")"):
            out.append(self.expr())
            while self.sym(","):
                self.i += 1
                out.append(self.expr())
        self.eat(")")
        return out

    def after(self, value, names):
        banged = False
        while True:
            if self.sym("!") and not banged:
                self.i += 1
                names, banged = None, True
                continue
            if self.sym("["):
                self.i += 1
                if self.sym("?"):
                    self.i += 1
                value = x_index(value, self.expr())
                self.eat("]")
                names, banged = None, False
                continue
            if self.sym(".") and self.peek(1)[0] == "call" and is_list_name(self.peek(1)[1]):
                name = self.peek(1)[1]
                self.i += 2
                value = x_call(value, name, self.args())
                names, banged = None, False
                continue
            break
        k, v = self.peek()
        if k == "sym" and (v in BINARY or v in ACCESS or v == ".?"):
            self.i += 1
            return x_binary(v, value, self.expr())
        if self.sym("?"):
            self.i += 1
            a = self.expr()
            self.eat(":")
            return x_cond(value, a, self.expr())
        if self.sym("=>"):
            if names is None:
                raise Bad("lambda variable")
            self.i += 1
            return x_lambda(names, self.expr())
        return value


def read(tokens):
    return Reader(tokens).whole()


def text_of(token):
    k, v = token
    if k == "call":
        return v + "("
    if k == "str":
        return f"'{v}'"
    if k == "kw":
        return {None: "null", True: "true", False: "false"}[v]
    return str(v)


def spaced(tokens):
    return " ".join(text_of(t) for t in tokens)


def compact(tokens):
    out = []
    prev = None
    for t in tokens:
        s = text_of(t)
        if prev is not None:
            word = prev[0] in ("id", "int", "kw") and t[0] in ("id", "int", "kw", "call")
            if word or prev == ("sym", "!") or t == ("sym", "!"):
                out.append(" ")
        out.append(s)
        prev = t
    return "".join(out)


def usual(tokens):
    """Spaces around binary operators, none at accessors and inside brackets."""
    tight_before = {".", ".?", "::", ")", "]", ",", "[", "!"}
    tight_after = {".", ".?", "::", "(", "[", "!"}
    out = []
    prev = None
    for i, t in enumerate(tokens):
        s = text_of(t)
        if prev is not None:
            sp = True
            if t[0] == "sym" and t[1] in tight_before and not (t[1] in ("[", "!") and (prev[0] == "sym" and prev[1] not in (")", "]", "!"))):
                sp = False
            if prev[0] == "sym" and prev[1] in tight_after or prev[0] == "call":
                sp = False
            if prev == ("sym", "!") and t[0] == "sym" and t[1] not in (")", "]", ",", ".", "["):
                sp = True
            if sp:
                out.append(" ")
        out.append(s)
        prev = t
    return "".join(out)

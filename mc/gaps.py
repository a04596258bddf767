"""Splits the text of a model document into tokens and the gaps between them.

The documents come from the model, so the splitter only has to know how the model writes them.
"""
import re

from .refstring import scan

TOKEN = re.compile(r"@(?:sys\.)?\w+\(|(?:sys\.|az\.)?\w+\(|\w+|=>|==|!=|>=|<=|=~|!~|&&|\|\||\?\?|::|[^\s\w]")
BLANK = re.compile(r"[ \t]*")


def split(text):
    """Returns tokens and gaps; gaps[i] stands before tokens[i], the last one at the end."""
    tokens, gaps = [], []
    i, n = 0, len(text)
    while True:
        j = i
        while j < n and text[j] in " \t\n":
            j += 1
        gaps.append(text[i:j])
        if j == n:
            return tokens, gaps
        if text.startswith("'''", j):
            k = text.index("'''", j + 3) + 3
        elif text[j] == "'":
            k = scan(text, j + 1) + 1
        else:
            k = TOKEN.match(text, j).end()
        tokens.append(text[j:k])
        i = k


def kind(tokens, gaps, i):
    """'head', 'tail', 'line' (contains a line break), 'glue' (nothing there), 'word' (a blank between two word
    characters: has to stay) or 'blank'."""
    if i == 0:
        return "head"
    if i == len(tokens):
        return "tail"
    g = gaps[i]
    if "\n" in g:
        return "line"
    if not g:
        return "glue"
    a, b = tokens[i - 1][-1], tokens[i][0]
    if (a.isalnum() or a == "_") and (b.isalnum() or b in "_"):
        return "word"
    if a in ",:([{" or b in ",)]}" or a == "=" and b in "'[{":
        return "free"
    return "blank"


def join(tokens, gaps):
    out = []
    for g, t in zip(gaps, tokens):
        out.append(g)
        out.append(t)
    out.append(gaps[len(tokens)])
    return "".join(out)


class Gapped:
    """A model document whose gaps can be replaced; knows the expected result of every variant."""

    def __init__(self, doc):
        self.doc = doc
        self.tokens, self.gaps = split(doc.text)
        assert join(self.tokens, self.gaps) == doc.text, doc.text
        self.kinds = [kind(self.tokens, self.gaps, i) for i in range(len(self.gaps))]
        first, last, pos = {}, {}, 0
        for i, t in enumerate(self.tokens):
            pos += len(self.gaps[i])
            first[pos] = i
            pos += len(t)
            last[pos - 1] = i
        self.spans = {k: (first[a], last[b]) for k, (a, b) in doc.spans.items()}

    def variant(self, gaps):
        d = object.__new__(type(self.doc))
        d.decls = self.doc.decls
        d.text = join(self.tokens, gaps)
        begin, end, pos = [], [], 0
        for g, t in zip(gaps, self.tokens):
            pos += len(g)
            begin.append(pos)
            pos += len(t)
            end.append(pos - 1)
        d.spans = {k: (begin[a], end[b]) for k, (a, b) in self.spans.items()}
        return d

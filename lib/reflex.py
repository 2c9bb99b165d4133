"""An independent lexer for formatted text, written from the token rules (not from the code under test).

lex(text) gives (class, text) pairs: 'q' literal or quoted name, 'w' word, number or placeholder, 'op' punctuation.
"""
import re

TOKEN = re.compile(
    r"""
    (?P<ws>\s+)
  | (?P<q>(?:(?<![\w.])(?:rb|br|[benrx])(?=['"]))?(?P<quote>['"`])(?:\\.|(?P=quote)(?P=quote)|(?!(?P=quote))[^\\])*(?P=quote))
  | (?P<num>(?:\d+\.?\d*|\.\d+)[eE][+-]?\d+(?![\w.])|\d+\.\d*(?!\w)|\.\d+(?!\w))
  | (?P<ph>%\(\w+\)\w|\w*(?:\{[^{}]*\}\w*)+)
  | (?P<op><>|<=|>=|<<|>>|\|\||!=|[,;()\[\]+\-*/=<>.])
  | (?P<word>(?:(?!\|\||!=|(?<![\w.])(?:rb|br|[benrx])['"])[^\s'"`,;()\[\]+\-*/=<>.])+)
    """,
    re.VERBOSE | re.DOTALL | re.IGNORECASE,
)


class LexError(Exception):
    pass


def lex(text):
    out = []
    pos = 0
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if not m or m.end() == pos:
            raise LexError("can not split {!r}".format(text[pos : pos + 20]))
        kind = m.lastgroup if m.lastgroup != "quote" else "q"
        if m.group("q") is not None:
            kind = "q"
        if kind != "ws":
            out.append(("q" if kind == "q" else "op" if kind == "op" else "w", m.group()))
        pos = m.end()
    return out

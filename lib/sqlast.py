"""Reference model of the supported SELECT grammar: every node knows its tokens and its canonical layout.

Token kinds:  kw  keyword or operator word (upper-cased)      fn  function name (upper-cased)
              ty  type or date part (upper-cased)             id  bare name (verbatim)
              q   string literal or quoted name (verbatim)    num number (verbatim)
              ph  placeholder (verbatim)                      op  punctuation
              tc  superfluous comma at the end of a list (dropped)

fmt() is the canonical layout with NL standing for a line break inside of a literal.
"""

NL = "\udbff"
WIDTH = 88
UPPER = ("kw", "fn", "ty")


def indent(text, n=1):
    return text.replace("\n", "\n" + " " * n)


class Node:
    __slots__ = ("_fmt",)

    def fmt(self):
        try:
            return self._fmt
        except AttributeError:
            self._fmt = self.layout()
            return self._fmt

    def toks(self, out):
        raise NotImplementedError

    def tokens(self):
        out = []
        self.toks(out)
        return out


class Tok(Node):
    __slots__ = ("kind", "text")

    def __init__(self, kind, text):
        self.kind, self.text = kind, text

    def toks(self, out):
        out.append((self.kind, self.text))

    def layout(self):
        if self.kind in UPPER:
            return self.text.upper()
        return self.text.replace("\n", NL)


def is_ph(text):
    """A placeholder that stands for a word."""
    return text[0] in "%:@$?" or "{" in text


def kws(out, words):
    for w in words.split():
        out.append(("kw", w.lower()))


def comma(out, nodes, trailing=False):
    for i, n in enumerate(nodes):
        if i:
            out.append(("op", ","))
        n.toks(out)
    if trailing:
        out.append(("tc", ","))


class Chain(Node):
    """a.b.c"""

    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts

    def toks(self, out):
        for i, p in enumerate(self.parts):
            if i:
                out.append(("op", "."))
            p.toks(out)

    def layout(self):
        return ".".join(p.fmt() for p in self.parts)


class Fn(Node):
    __slots__ = ("name", "args", "distinct", "trailing")

    def __init__(self, name, args, distinct=False, trailing=False):
        self.name, self.args, self.distinct, self.trailing = name, args, distinct, trailing

    def toks(self, out):
        out.append(("ph" if is_ph(self.name) else "fn", self.name))
        out.append(("op", "("))
        if self.distinct:
            kws(out, "distinct")
        comma(out, self.args, self.trailing)
        out.append(("op", ")"))

    def layout(self):
        args = [a.fmt() for a in self.args]
        distinct = "DISTINCT " if self.distinct else ""
        if any("\n" in a for a in args) or len(", ".join(args)) > WIDTH:
            inner = "\n " + distinct + ",\n ".join(map(indent, args)) + "\n"
        else:
            inner = distinct + ", ".join(args)
        return "{}({})".format(self.name if is_ph(self.name) else self.name.upper(), inner)


class Count(Node):
    __slots__ = ("name", "args", "distinct")

    def __init__(self, args, distinct=False):
        self.name, self.args, self.distinct = "count", args, distinct

    def toks(self, out):
        out.append(("fn", self.name))
        out.append(("op", "("))
        if self.distinct:
            kws(out, "distinct")
        comma(out, self.args)
        out.append(("op", ")"))

    def layout(self):
        return "COUNT({}{})".format(
            "DISTINCT " if self.distinct else "", ", ".join(a.fmt() for a in self.args)
        )


class ArrayAgg(Node):
    __slots__ = ("arg", "distinct", "nulls", "order", "limit")

    def __init__(self, arg, distinct, nulls, order, limit):
        self.arg, self.distinct, self.nulls, self.order, self.limit = (
            arg,
            distinct,
            nulls,
            order,
            limit,
        )

    def toks(self, out):
        out.append(("fn", "array_agg"))
        out.append(("op", "("))
        if self.distinct:
            kws(out, "distinct")
        self.arg.toks(out)
        if self.nulls:
            kws(out, self.nulls + " nulls")
        if self.order:
            kws(out, "order by")
            comma(out, self.order)
        if self.limit:
            kws(out, "limit")
            out.append(("num", self.limit))
        out.append(("op", ")"))

    def layout(self):
        s = "ARRAY_AGG("
        if self.distinct:
            s += "DISTINCT "
        s += self.arg.fmt()
        if self.nulls:
            s += " {} NULLS".format(self.nulls.upper())
        if self.order:
            s += " ORDER BY " + ", ".join(o.fmt() for o in self.order)
        if self.limit:
            s += " LIMIT " + self.limit
        return s + ")"


class Cast(Node):
    __slots__ = ("arg", "type")

    def __init__(self, arg, type):
        self.arg, self.type = arg, type

    def toks(self, out):
        out.append(("fn", "cast"))
        out.append(("op", "("))
        self.arg.toks(out)
        kws(out, "as")
        out.append(("ph" if is_ph(self.type) else "ty", self.type))
        out.append(("op", ")"))

    def layout(self):
        return "CAST({} AS {})".format(self.arg.fmt(), self.type if is_ph(self.type) else self.type.upper())


class PartFrom(Node):
    """The argument of EXTRACT."""

    __slots__ = ("part", "arg")

    def __init__(self, part, arg):
        self.part, self.arg = part, arg

    def toks(self, out):
        out.append(("ty", self.part))
        kws(out, "from")
        self.arg.toks(out)

    def layout(self):
        return "{} FROM {}".format(self.part.upper(), self.arg.fmt())


class Filtered(Node):
    __slots__ = ("fn", "cond")

    def __init__(self, fn, cond):
        self.fn, self.cond = fn, cond

    def toks(self, out):
        self.fn.toks(out)
        kws(out, "filter")
        out.append(("op", "("))
        kws(out, "where")
        self.cond.toks(out)
        out.append(("op", ")"))

    def layout(self):
        return "{} FILTER (WHERE {})".format(self.fn.fmt(), self.cond.fmt())


class Frame(Node):
    __slots__ = ("words",)
    KEYWORDS = "rows range between and unbounded preceding following current row exclude no others group ties".split()

    def __init__(self, words):
        self.words = words

    def toks(self, out):
        for w in self.words.split():
            kind = "num" if w.isdigit() else "ph" if is_ph(w) else "kw" if w in self.KEYWORDS else "id"
            out.append((kind, w))

    def layout(self):
        return " ".join(t.upper() if kind == "kw" else t for kind, t in self.tokens())


class Over(Node):
    __slots__ = ("fn", "partition", "order", "frame")

    def __init__(self, fn, partition, order, frame):
        self.fn, self.partition, self.order, self.frame = fn, partition, order, frame

    def toks(self, out):
        self.fn.toks(out)
        kws(out, "over")
        out.append(("op", "("))
        if self.partition:
            kws(out, "partition by")
            comma(out, self.partition)
        if self.order:
            kws(out, "order by")
            comma(out, self.order)
        if self.frame:
            self.frame.toks(out)
        out.append(("op", ")"))

    def layout(self):
        s = self.fn.fmt() + " OVER ("
        if self.partition:
            s += "\n PARTITION BY"
            if len(self.partition) > 1:
                s += "\n  " + ",\n  ".join(p.fmt() for p in self.partition)
            else:
                s += " " + self.partition[0].fmt()
        if self.order:
            s += "\n ORDER BY" + indent(item_list(self.order))
        if self.frame:
            if "\n" in s:
                s += "\n "
            s += self.frame.fmt()
        return s + ("\n)" if "\n" in s else ")")


class Index(Node):
    __slots__ = ("base", "items")

    def __init__(self, base, items):
        self.base, self.items = base, items

    def toks(self, out):
        self.base.toks(out)
        out.append(("op", "["))
        comma(out, self.items)
        out.append(("op", "]"))

    def layout(self):
        return "{}[{}]".format(self.base.fmt(), ", ".join(i.fmt() for i in self.items))


class Arr(Node):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items

    def toks(self, out):
        out.append(("op", "["))
        comma(out, self.items)
        out.append(("op", "]"))

    def layout(self):
        return "[{}]".format(", ".join(i.fmt() for i in self.items))


class Paren(Node):
    """(a), (a, b), (SELECT ...) or (WITH ...)"""

    __slots__ = ("items", "trailing")

    def __init__(self, items, trailing=False):
        self.items, self.trailing = items, trailing

    @property
    def select(self):
        return isinstance(self.items[0], (Select, With))

    def toks(self, out):
        out.append(("op", "("))
        comma(out, self.items, self.trailing)
        out.append(("op", ")"))

    def layout(self):
        if self.select:
            return "(\n{}\n)".format(self.items[0].nested())
        return "({})".format(", ".join(i.fmt() for i in self.items))

    def broken(self):
        """With the brackets on lines of their own."""
        text = self.fmt()
        if len(self.items) > 1 or self.select:
            return text
        return "(\n {}\n)".format(indent(text[1:-1]))


class Operands(Node):
    """Arithmetic chain: items are (operator, signs, node); the first operator is ''."""

    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items

    def toks(self, out):
        for op, signs, node in self.items:
            if op:
                out.append(("op", op))
            for s in signs:
                out.append(("op", s))
            node.toks(out)

    def layout(self):
        s = ""
        for op, signs, node in self.items:
            if op:
                s += " " + op + " "
            s += " ".join(signs) + node.fmt()
        return s


class Neg(Node):
    __slots__ = ("arg",)

    def __init__(self, arg):
        self.arg = arg

    def toks(self, out):
        kws(out, "not")
        self.arg.toks(out)

    def layout(self):
        return ("NOT" if isinstance(self.arg, Paren) else "NOT ") + self.arg.fmt()


class Cond(Node):
    __slots__ = ("left", "op", "right")

    def __init__(self, left, op, right):
        self.left, self.op, self.right = left, op, right

    def toks(self, out):
        self.left.toks(out)
        if self.op[0].isalpha():
            kws(out, self.op)
        else:
            out.append(("op", self.op))
        self.right.toks(out)

    def layout(self):
        return "{} {} {}".format(self.left.fmt(), self.op.upper(), self.right.fmt())


class Between(Node):
    __slots__ = ("left", "op", "low", "high")

    def __init__(self, left, op, low, high):
        self.left, self.op, self.low, self.high = left, op, low, high

    def toks(self, out):
        self.left.toks(out)
        kws(out, self.op)
        self.low.toks(out)
        kws(out, "and")
        self.high.toks(out)

    def layout(self):
        bounds = Bool([("", self.low), ("and", self.high)]).fmt()
        return "{} {} {}".format(self.left.fmt(), self.op.upper(), bounds)


class Bool(Node):
    """Chain of AND and OR: items are (operator, node); the first operator is ''."""

    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items

    def toks(self, out):
        for op, node in self.items:
            if op:
                kws(out, op)
            node.toks(out)

    def layout(self):
        flat = "".join(
            (" {} ".format(op.upper()) if op else "") + n.fmt() for op, n in self.items
        )
        if len(flat) < WIDTH:
            return flat
        lines = []
        for op, n in self.items:
            text = n.fmt()
            if isinstance(n, Paren) and "\n" in text:
                text = n.broken()
            lines.append((op.upper() + " " if op else "") + text)
        return "\n".join(lines)


class Case(Node):
    __slots__ = ("value", "whens", "default")

    def __init__(self, value, whens, default):
        self.value, self.whens, self.default = value, whens, default

    def toks(self, out):
        kws(out, "case")
        if self.value:
            self.value.toks(out)
        for w, t in self.whens:
            kws(out, "when")
            w.toks(out)
            kws(out, "then")
            t.toks(out)
        if self.default:
            kws(out, "else")
            self.default.toks(out)
        kws(out, "end")

    def layout(self):
        s = "CASE"
        if self.value:
            s += " " + indent(self.value.fmt())
        for w, t in self.whens:
            text = w.fmt()
            s += "\n WHEN"
            if isinstance(w, Paren) and "\n" in text:
                s += " " + indent(w.broken()) + "\n "
            elif "\n" in text:
                s += "\n  " + indent(text, 2) + "\n "
            else:
                s += " " + text + " "
            s += "THEN " + indent(t.fmt())
        if self.default:
            s += "\n ELSE " + indent(self.default.fmt())
        return s + "\nEND"


class Aliased(Node):
    """expr [AS] name, in a select list or in FROM."""

    __slots__ = ("arg", "with_as", "name")

    def __init__(self, arg, with_as, name):
        self.arg, self.with_as, self.name = arg, with_as, name

    def toks(self, out):
        self.arg.toks(out)
        if self.with_as:
            kws(out, "as")
        self.name.toks(out)

    def suffix(self):
        return (" AS " if self.with_as else " ") + self.name.fmt()

    def layout(self):
        return self.arg.fmt() + self.suffix()


class StarBut(Node):
    """* EXCEPT (...) / * REPLACE (...)"""

    __slots__ = ("star", "word", "items")

    def __init__(self, star, word, items):
        self.star, self.word, self.items = star, word, items

    def toks(self, out):
        self.star.toks(out)
        kws(out, self.word)
        out.append(("op", "("))
        comma(out, self.items)
        out.append(("op", ")"))

    def layout(self):
        items = [i.fmt() for i in self.items]
        inner = items[0] if len(items) == 1 else "\n {}\n".format(",\n ".join(items))
        return "{} {} ({})".format(self.star.fmt(), self.word.upper(), inner)


class OrderItem(Node):
    __slots__ = ("arg", "direction", "nulls")

    def __init__(self, arg, direction="", nulls=""):
        self.arg, self.direction, self.nulls = arg, direction, nulls

    def toks(self, out):
        self.arg.toks(out)
        kws(out, self.direction)
        if self.nulls:
            kws(out, "nulls " + self.nulls)

    def layout(self):
        s = self.arg.fmt()
        if self.direction:
            s += " " + self.direction.upper()
        if self.nulls:
            s += " NULLS " + self.nulls.upper()
        return s


def item_list(items):
    if len(items) > 1:
        return indent("\n" + ",\n".join(i.fmt() for i in items))
    return " " + items[0].fmt()


def condition(node):
    text = node.fmt()
    if isinstance(node, Paren) and "\n" in text:
        return " " + node.broken()
    if "\n" in text:
        return "\n " + indent(text)
    return " " + text


class Brackets(Node):
    """[project:dataset.table]"""

    __slots__ = ("arg",)

    def __init__(self, arg):
        self.arg = arg

    def toks(self, out):
        out.append(("op", "["))
        self.arg.toks(out)
        out.append(("op", "]"))

    def layout(self):
        return "[{}]".format(self.arg.fmt())


class Unnest(Node):
    __slots__ = ("fn", "alias", "offset")

    def __init__(self, args, alias, offset):
        # alias, offset: None or (with_as, Tok); offset may be ("", None)
        self.fn, self.alias, self.offset = Fn("unnest", args), alias, offset

    def toks(self, out):
        self.fn.toks(out)
        if self.alias:
            Aliased(Tok("op", ""), *self.alias).toks(out)
            out[:] = [t for t in out if t != ("op", "")]
        if self.offset:
            kws(out, "with offset")
            with_as, name = self.offset
            if name:
                if with_as:
                    kws(out, "as")
                name.toks(out)

    def layout(self):
        s = self.fn.fmt()
        if self.alias:
            s += (" AS " if self.alias[0] else " ") + self.alias[1].fmt()
        if self.offset:
            s += " WITH OFFSET"
            with_as, name = self.offset
            if name:
                s += (" AS " if with_as else " ") + name.fmt()
        return s


class FromParen(Node):
    """(SELECT ...), (WITH ...) or (FROM item) as a source"""

    __slots__ = ("arg",)

    def __init__(self, arg):
        self.arg = arg

    def toks(self, out):
        out.append(("op", "("))
        self.arg.toks(out)
        out.append(("op", ")"))

    def inner(self):
        if isinstance(self.arg, Select):
            return self.arg.nested()
        return " " + indent(self.arg.fmt())

    def layout(self):
        if isinstance(self.arg, (Select, With)):
            return "(\n{}\n)".format(self.arg.nested())
        return "({})".format(self.arg.fmt())


class SetOp(Node):
    """items: (operator words, source); the first operator is ''."""

    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items

    def toks(self, out):
        for op, node in self.items:
            kws(out, op)
            node.toks(out)

    def layout(self):
        s = self.items[0][1].fmt()
        for op, node in self.items[1:]:
            bare = node.arg if isinstance(node, Aliased) else node
            plain = not isinstance(bare, FromParen)
            s += "\n" + op.upper() + (" " if plain else "\n") + node.fmt()
        return s


def join_element(node):
    suffix = ""
    if isinstance(node, Aliased):
        suffix = node.suffix()
        node = node.arg
    depth = 0
    while isinstance(node, FromParen):
        node = node.arg
        depth += 1
    text = node.nested() if isinstance(node, Select) else node.fmt()
    if depth:
        text = "\n" + text
        if not isinstance(node, Select):
            text = indent(text)
        text = "(" * depth + text + "\n" + ")" * depth
    return text + suffix


class Join(Node):
    """items: (join words or ',', source, 'on'/'using'/'', condition)"""

    __slots__ = ("first", "items")

    def __init__(self, first, items):
        self.first, self.items = first, items

    def toks(self, out):
        self.first.toks(out)
        for words, node, how, cond in self.items:
            if words == ",":
                out.append(("op", ","))
            else:
                kws(out, words)
            node.toks(out)
            if how:
                kws(out, how)
                cond.toks(out)

    def layout(self):
        s = join_element(self.first)
        for words, node, how, cond in self.items:
            s += "," if words == "," else "\n" + words.upper()
            s += " " + join_element(node)
            if how:
                s += "\n" + how.upper() + condition(cond)
        return s


class Select(Node):
    __slots__ = (
        "items",
        "quantifier",
        "distinct_on",
        "source",
        "where",
        "each",
        "rollup",
        "group",
        "having",
        "combined",
        "order",
        "limit",
        "offset",
        "semicolon",
        "trailing",
    )

    def __init__(self, items):
        self.items = items
        self.quantifier = ""
        self.distinct_on = None
        self.source = self.where = self.group = self.having = None
        self.order = self.limit = self.offset = None
        self.combined = []  # (operator words, Select)
        self.each = self.rollup = self.semicolon = self.trailing = False

    def toks(self, out):
        kws(out, "select " + self.quantifier)
        if self.distinct_on:
            kws(out, "on")
            out.append(("op", "("))
            comma(out, self.distinct_on)
            out.append(("op", ")"))
        comma(out, self.items, self.trailing and self.source is not None)
        if self.source:
            kws(out, "from")
            self.source.toks(out)
        if self.where:
            kws(out, "where")
            self.where.toks(out)
        if self.group:
            kws(out, "group each by" if self.each else "group by")
            if self.rollup:
                kws(out, "rollup")
            comma(out, self.group)
        if self.having:
            kws(out, "having")
            self.having.toks(out)
        for op, query in self.combined:
            kws(out, op)
            query.toks(out)
        if self.order:
            kws(out, "order by")
            comma(out, self.order)
        if self.limit:
            kws(out, "limit")
            self.limit.toks(out)
        if self.offset:
            kws(out, "offset")
            self.offset.toks(out)
        if self.semicolon:
            out.append(("op", ";"))

    def nested(self):
        return " " + indent(self.fmt())

    def layout(self):
        s = "SELECT"
        if self.quantifier:
            s += " " + self.quantifier.upper()
        if self.distinct_on:
            s += " ON ({})".format(", ".join(d.fmt() for d in self.distinct_on))
        if len(self.items) == 1:
            s += " " + self.items[0].fmt()
        else:
            s += "\n " + ",\n ".join(indent(i.fmt()) for i in self.items)
        if self.source:
            node, suffix = self.source, ""
            if isinstance(node, Aliased):
                suffix = node.suffix()
                node = node.arg
            text = "(\n{}\n)".format(node.inner()) if isinstance(node, FromParen) else node.fmt()
            s += "\nFROM " + text + suffix
        if self.where:
            s += "\nWHERE" + condition(self.where)
        if self.group:
            s += "\nGROUP {}BY{}{}".format(
                "EACH " if self.each else "",
                " ROLLUP" if self.rollup else "",
                item_list(self.group),
            )
        if self.having:
            s += "\nHAVING" + condition(self.having)
        for op, query in self.combined:
            s += "\n" + op.upper() + "\n" + query.fmt()
        if self.order:
            s += "\nORDER BY" + item_list(self.order)
        if self.limit:
            s += "\nLIMIT " + self.limit.fmt()
        if self.offset:
            s += "\nOFFSET " + self.offset.fmt()
        if self.semicolon:
            s += ";"
        return s


class With(Node):
    """items: (name, Select or With)"""

    __slots__ = ("items", "select")

    def __init__(self, items, select):
        self.items, self.select = items, select

    def toks(self, out):
        kws(out, "with")
        for i, (name, query) in enumerate(self.items):
            if i:
                out.append(("op", ","))
            out.append(("id", name))
            kws(out, "as")
            out.append(("op", "("))
            query.toks(out)
            out.append(("op", ")"))
        self.select.toks(out)

    def nested(self):
        return " " + indent(self.fmt())

    def layout(self):
        parts = [
            "{} AS (\n {}\n)".format(name, indent(query.fmt())) for name, query in self.items
        ]
        return "WITH " + ",\n".join(parts) + "\n" + self.select.fmt()


def canonical(node):
    return node.fmt().replace(NL, "\n")

"""Python files with SQL strings at known places.

A file is a list of segments: ["code", text], ["comment", text], ["str", text, info] (any string literal; info is None
for those that are no SQL) and ["fstr", text].  What the tool should do with each follows from the segments alone.
"""
import ast

from lib import reflex, scopegen, sqlgen
from lib.props_format import UNKNOWN, corpus_cache

PREFIXES = ("", "", "", "", "", "r", "R", "u", "U", "b", "B", "br", "bR", "Br", "BR", "rb", "rB", "Rb", "RB")
QUOTES = ('"', "'", '"""', "'''")
OTHER = (
    '"x"', "''", "'a b'", '"""doc"""', "'selected'", '"select"', "'  select  '", '"SELECT"', "'selectx a, b from t'", '"insert into t values (1)"',
    "'(select a, b from t)'", '"update t set a = 1"', "'it\\'s'", "r'\\d+'", "b'\\x00'", '"""multi\nline\n"""', "'with a as (select 1) select a, b'",
    '"the select a, b from t"', "'-- select a, b'", "'nosqlformat'", '"# nosqlvalidation"', "'#'", '"""\n\n"""', "u'é'", "'\\\n'", "'; select 1 , 2'",
    "'#nosqlformat'", "'bur select a, b from t'", "'fselect a, b'", "''''''", "rb'sele'", "'select_1 , 2'", "'select(1,2)'", "'select*from t'",
)  # fmt: skip
FSTRINGS = (
    "f'{a}'", 'f"select {a} , b from t"', "f'{{}} {a!r:>{b}}'", "rf'\\d{a}'", 'f"""\n{a}\n"""', "F'x'", "f'{a:%H:%M}'",
    "f'{g(1, [2])=}'", "fr'{a}select 1 , 2'",
)  # fmt: skip
CODE = (
    "import os\n", "\n", "\n\n", "   \n", "x = 1\n", "a, b = b, a\n", "pass\n", "x = [1,\n  2 ,3\n]\n", "\x0c\n",
    "y = a + \\\n    b\n", "x  =  1;y=2\n", "if a:b=1\nelse :\n\tb = 2\n", "x: int = 0x1F\n", "def f(a, *, b=1, **k): ...\n",
    "class C(object):\n    x = 1\n\n    def m(self):\n        return self\n\n\n", "é = 1\n", "print(1_000, 1e5, .5, 1j, ~a, a @ b, a //= 2)\n".replace("a //= 2", "a // 2"),
    "lambda *a, **k: (yield)\n", "x = a if b else c \n", "async def f():\n  async with a as b:\n    await c\n", "global_ = {**a, 'k': None}\n",
    "match = 1\n", "x = not a != b <= c\n", "if (n := 10) > 5: pass\n", "try:\n  a\nexcept* E as e:\n  raise\n", "type = a[1:2, ..., ::3]\n", "del a [ 0 ]\n",
)  # fmt: skip
# a string inside of an f-string
NESTED = (
    ("f'{run(", ")}'"), ('f"a {', '!r:>{w}} b"'), ('f"""{x:{', '}}"""'), ("rF'\\d{a[", "]} {b}'"), ("f'''\n{", "}\n'''"),
    ("f'{ ", " }'"), ("f'{{{", "}}}'"),
)  # fmt: skip
# {S}: a string, {N}: one in an f-string, {F}: an f-string, {C}: strings side by side, {E}: where a comment may end the line
STATEMENTS = (
    "x = {S}{E}\n", "run({S}){E}\n", "x = {S}; y = 2{E}\n", "return_ = run(1, {S}, k={S}){E}\n", "x = [{S}, {S}]{E}\n",
    "d = {{{S}: {S}, 'k': 1}}{E}\n", "{S}{E}\n", "x={S}.format( a ) %(1,){E}\n", "x = a + \\\n  {S}{E}\n", "assert {S} % (1,), {S}{E}\n",
    "if {S} in y :{E}\n\tpass\n", "run({E}\n    {S},{E}\n    y={S},{E}\n){E}\n", "x = ({E}\n  {S}{E}\n){E}\n", "x = {C}{E}\n",
    "x = ({E}\n {C}{E}\n){E}\n", "def f(a, b={S}):{E}\n    return a{E}\n", "def f():{E}\n  {S}{E}\n  return {S}{E}\n", "class C:{E}\n    q = {S}{E}\n\n    def m(self):{E}\n        {S}{E}\n        return run({S}){E}\n",
    "@deco({S}){E}\nasync def g(): return await h({S}){E}\n", "f = lambda a={S}: ({S}, a){E}\n", "x = {S} if a else {S}{E}\n", "with run({S}) as a, b: pass{E}\n", "x = run ( {S} ) [ 0 ] . y{E}\n",
    "for q in ({S}, {S}):{E}\n    run(q){E}\n", "x = [{E}\n{S}{E}\n,{S}]{E}\n", "match a:{E}\n    case {S}:{E}\n        pass\n", "{F}{E}\n", "x = {S}, {F}, {S}{E}\n", "x = {{\n    'é{{': {S},{E}\n}}{E}\n", "raise E({S}) from None{E}\n",
    "x = {S}\n\n{E}\ny = 3{E}\n", "x = {S}\n# x{E}\n", "x = {N}{E}\n", "x = {S}, {N}{E}\n",
)  # fmt: skip
COMMENTS = (
    "# nosqlformat", "#nosqlformat", "# nosqlvalidation", "# nosqlvalidation nosqlformat", "# noqa: E501 nosqlformat", "# nosqlformat: why",
    "# comment", "#", "# 'quote", "# select a, b from t", "# nosql format", "# NOSQLFORMAT", "#  nosqlvalidation, please", '# """', "# nosqlvalidate",
    "# nosqlforma", "# osqlformat", "# sqlvalidation", "# nosqlvalidatio", "# no sqlvalidation", "# nosql", "# noformat", "# nosqlvalid", "# NoSqlFormat",
    "# noqa", "# nosql-format", "# nosqlformatnosqlvalidation", "# type: ignore  # nosqlformat", "# fmt: off", "# nosqlformat\t", "# nosqlvalidation.",
    "#!nosqlformat!", "# xnosqlformatx",
)  # fmt: skip
INVALID = (
    "select a from t limit -1", "select a, b from t group by 3", "select a from t join u", "select b from (select a from t)",
    "select a from t where 1", "select a,b from t offset 1.5", "select a from t order by 2", "SELECT a\nFROM t\nLIMIT -1", "select x from (select a, b from t) s where 'x'",
)  # fmt: skip


class Files:
    def __init__(self, ch, broken=0):
        self.ch = ch
        self.broken = broken  # percentage of SQL that may not be supported
        self.sql_percent = 70
        self.comment_percent = 25
        self.segments = []
        self.fstrings = True
        self.encoding = "utf-8"
        self.small = False  # only short queries

    # -- values

    def sql(self):
        ch = self.ch
        r = ch.below(12)
        if self.small and r >= 3:
            r = 0 if r % 2 else 6
        if r < 3:
            text = ch.pick(("select a, b from t", "SELECT a\nFROM t", "select 1", "SELECT 1", "select\na", "SELECT\n a,\n b\nFROM t", "SELECT 'x'", "select  a  from t where b = 'é' or c"))
            if ch.below(3) == 2:  # one line, whatever the literals hold
                gen = sqlgen.Gen(ch, 3)
                text = ch.pick(("select ", "SELECT ")) + " || ".join(gen.literal().text for _ in range(ch.between(1, 2)))
                if ch.below(4) == 3:  # a long one
                    text += ch.pick((" || ", " + ", " and ")).join([""] + ["a_long_name"] * ch.between(5, 40))
                if ch.below(2):
                    text += ch.pick((" as x", " x", ";", ", a, b"))
        elif r < 6:
            g = sqlgen.Gen(ch, ch.between(2, 15))
            g.oversize()
            text = sqlgen.spell(ch, g.statement().tokens(), ch.pick((None, "plain")))
        elif r < 8:
            text = ch.pick(INVALID)
        elif r < 10:
            g = scopegen.ScopeGen(ch, ch.between(3, 15))
            text = sqlgen.spell(ch, g.statement().tokens(), "plain")
        else:
            text = ch.pick(corpus_cache())
        if self.broken and ch.chance(self.broken):
            text = ch.pick(("select (", "select a from t where", "select a b c from t", "select " + "(" * 500 + "1" + ")" * 500, "select 'a"))
        text = text.replace("\r\n", "\n").replace("\r", "\n").strip()
        if not text.lower().startswith("select") or len(text) < 8 or text[6] not in " \n":
            text = "select a, b from t"
        if ch.chance(25):
            import sqlvalidator

            try:
                text = sqlvalidator.format_sql(text)
            except Exception:
                pass
            if ch.chance(50):
                text = "\n" + text + "\n"
        elif ch.chance(30):
            text = ch.pick(("\n", " ", "\n    ", "  \n", "\n\n")) + text + ch.pick(("", "\n", " ", "\n    "))
        return text

    # -- literals

    def literal(self, value):
        """The source of a literal with this value, or None if the drawn style can not hold it."""
        ch = self.ch
        prefix, quote = ch.pick(PREFIXES), ch.pick(QUOTES)
        if "\n" in value and ch.below(4):
            quote = quote[0] * 3
        head = len(value) - len(value.lstrip()) + 7  # "select" and what separates it stay as they are
        if "b" in prefix.lower() and any(ord(c) > 255 for c in value):
            return None
        if "r" in prefix.lower():
            if "b" in prefix.lower() and any(ord(c) > 127 for c in value):
                return None
            body = value
        else:
            body = ""
            extra = ch.chance(20)
            for i, c in enumerate(value):
                if c == "\\":
                    body += "\\\\" if i + 1 == len(value) or value[i + 1] in "\\'\"abfnrtvuUxN01234567\n" or ch.below(2) else "\\"
                elif c == "\n" and len(quote) == 1:
                    if i < head:
                        return None
                    body += "\\n"
                elif c == quote[0] and (len(quote) == 1 or i + 1 == len(value) or value[i + 1] == c or extra):
                    body += "\\" + c
                elif ord(c) > 127 and self.encoding == "latin-1" and "b" not in prefix.lower() and (ord(c) > 255 or ch.below(2)):
                    body += "\\u%04x" % ord(c) if ord(c) < 65536 else "\\U%08x" % ord(c)
                elif ord(c) > 127 and "b" in prefix.lower():
                    body += "\\x%02x" % ord(c)
                elif not c.isprintable() and c != "\n":
                    body += c.encode("unicode_escape").decode()
                elif extra and i >= head and ch.chance(5):
                    if ord(c) < 256:
                        body += ch.pick(("\\x%02x" % ord(c), "\\%03o" % ord(c), "\\\n" + c if c not in "\n" else "\\n"))
                    else:
                        body += "\\u%04x" % ord(c) if ord(c) < 65536 else c
                else:
                    body += c
        text = prefix + quote + body + quote
        if "r" in prefix.lower() and not text.isprintable() and not text.replace("\n", "").isprintable():
            return None
        try:
            import warnings

            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                got = ast.literal_eval(text)
        except (SyntaxError, ValueError):
            return None
        got = got.decode("latin-1") if isinstance(got, bytes) else got
        if got != value:
            return None
        return text, {"prefix": prefix, "quote": quote, "value": value}

    def string(self):
        ch = self.ch
        if ch.chance(self.sql_percent):
            value = self.sql()
            for _ in range(4):
                made = self.literal(value)
                if made is not None:
                    return ["str", made[0], made[1]]
            return ["str", '"""select a, b from t"""', {"prefix": "", "quote": '"""', "value": "select a, b from t"}]
        return ["str", ch.pick(OTHER), None]

    def fstring(self):
        return ["fstr", self.ch.pick(FSTRINGS)] if self.fstrings else ["code", "x"]

    def concatenation(self):
        ch = self.ch
        out = [["code", "("]]
        count = ch.between(2, 3)
        # bytes and text do not mix
        parts = []
        for _ in range(count):
            s = self.string()
            if s[1].lower().lstrip("ru")[:1] == "b":
                s = ["str", "'select a, b from '", None]
            parts.append(["str", s[1], None])
        if ch.chance(20):
            parts[ch.below(count)] = ["fstr", ch.pick(FSTRINGS)]
        for i, s in enumerate(parts):
            if i:
                out.append(["code", ch.pick((" ", "\n", "\n    ", "", "\\\n "))])
                if out[-1][1].startswith("\n") and ch.chance(20):
                    out += [["code", "  "], ["comment", ch.pick(COMMENTS)], ["code", "\n"]]
                if out[-1][1] == "" and (s[1][0] not in "'\"" or s[1][0] == parts[i - 1][1][-1]):
                    out[-1][1] = " "
            out.append(s)
        out.append(["code", ")"])
        return out

    # -- statements

    def statement(self, indent):
        ch = self.ch
        if ch.below(4) == 3:
            template = ch.pick(CODE).replace("{", "{{").replace("}", "}}")
            if "\\\n" in template or "\x0c" in template:
                indent = ""
        else:
            template = ch.pick(STATEMENTS)
        lines = template.splitlines(keepends=True)
        for line in lines:
            if indent and line.strip():
                line = indent + line
            self.fill(line)

    def fill(self, line):
        ch = self.ch
        text = ""
        i = 0

        def flush():
            nonlocal text
            if text:
                self.segments.append(["code", text])
                text = ""

        while i < len(line):
            two, three = line[i : i + 2], line[i : i + 3]
            if two == "{{" or two == "}}":
                text += two[0]
                i += 2
            elif three in ("{S}", "{C}", "{F}", "{N}", "{E}"):
                i += 3
                if three == "{E}":
                    if ch.chance(self.comment_percent):
                        text += ch.pick((" ", "  ", "")) if text.strip() or line.startswith("{E}") else " "
                        flush()
                        self.segments.append(["comment", ch.pick(COMMENTS)])
                    elif ch.chance(4):
                        text += "  "
                    continue
                flush()
                if three == "{S}":
                    self.segments.append(self.string())
                elif three == "{N}":
                    before, after = ch.pick(NESTED)
                    self.segments += [["fstr", before], self.string(), ["fstr", after]]
                elif three == "{F}":
                    self.segments.append(self.fstring())
                else:
                    self.segments += self.concatenation()
            elif line[i] == "#":
                flush()
                # up to the {E}
                end = line.index("{E}", i) if "{E}" in line[i:] else len(line.rstrip("\n"))
                self.segments.append(["comment", line[i:end].rstrip() + (ch.pick(("", " nosqlformat")) if "{E}" in line else "")])
                i = end + 3 if "{E}" in line[i:] else end
            elif line[i] in "'\"":
                # a string of the template itself
                flush()
                end = line.index(line[i], i + 1) + 1
                self.segments.append(["str", line[i:end].replace("{{", "{"), None])
                i = end
            else:
                text += line[i]
                i += 1
        flush()

    def make(self, most=6):
        ch = self.ch
        header = ch.weighted(((20, ""), (1, "bom"), (1, "latin-1"), (1, "cookie")))
        if header == "bom":
            self.encoding = "utf-8-sig"
        elif header:
            self.encoding = "latin-1" if header == "latin-1" else "utf-8"
            cookies = ("# -*- coding: latin-1 -*-", "# vim: set fileencoding=iso-8859-1 :", "#coding=latin1")
            if header == "cookie":
                cookies = ("# -*- coding: utf-8 -*-", "# coding: UTF8 select a, b")
            if ch.below(3) == 2:
                self.segments += [["comment", "#!/usr/bin/env python"], ["code", "\n"]]
            self.segments += [["comment", ch.pick(cookies)], ["code", "\n"]]
        elif ch.chance(8):
            self.segments.append(["comment", ch.pick(("#!/usr/bin/env python", "# x"))])
            self.segments.append(["code", "\n"])
        statements = ch.between(1, most)
        if ch.below(50) == 49:  # a very long file
            self.small = True
            statements = ch.between(20, 60)
            filler = ch.pick(("\n", "x = 1\n", "# select a, b\n", "y = [" + "1, " * 20 + "]\n"))
            self.segments.append(["code", filler * ch.pick((1, 30, 200, 1200, 4000))] if filler[0] != "#" else ["comment", filler[:-1]])
            if filler[0] == "#":
                self.segments.append(["code", "\n"])
            if ch.below(3) == 2:
                self.segments += [["code", "x = ["]] + [["code", "1, "]] * ch.pick((30, 3000)) + [self.string(), ["code", "]\n"]]
        for _ in range(statements):
            indent = ""
            if ch.chance(20):
                indent = ch.pick(("    ", "\t", " "))
                self.fill(ch.pick(("def f(a):{E}\n", "if a :{E}\n", "class C:{E}\n", "while 1:{E}\n")))
                self.fill(indent + "pass{E}\n")
            self.statement(indent)
            if ch.chance(10):
                self.segments += [["comment", ch.pick(COMMENTS)], ["code", "\n"]]
        if ch.chance(10) and self.segments[-1][0] == "code" and self.segments[-1][1].endswith("\n"):
            self.segments[-1][1] = self.segments[-1][1][:-1]
        newline = ch.weighted(((8, "\n"), (2, "\r\n"), (1, "mixed")))
        made = {"segments": self.segments, "newline": newline, "encoding": self.encoding}
        try:
            encoded(made)
        except UnicodeEncodeError:
            made["encoding"] = "utf-8"
            made["segments"] = [s for s in self.segments if s[0] != "comment" or "cod" not in s[1]]
        return made


def source(file):
    """The text of the file."""
    text = "".join(s[1] for s in file["segments"])
    return with_newlines(text, file["newline"])


def encoded(file):
    return source(file).encode(file["encoding"])


def with_newlines(text, newline):
    if newline == "\r\n":
        return text.replace("\n", "\r\n")
    if newline == "mixed":
        lines = text.split("\n")
        return "".join(l + ("\r\n" if i % 3 == 1 else "\n") for i, l in enumerate(lines[:-1])) + lines[-1]
    return text


def mark(segments, index):
    """The comment that belongs to the string."""
    for s in segments[index + 1 :]:
        if s[0] == "comment":
            return s[1]
        if s[0] in ("str", "fstr"):
            return ""
    return ""


def strings(file):
    """(index of the segment, info, marked nosqlformat, marked nosqlvalidation, line) of each SQL string."""
    line = 1
    for i, s in enumerate(file["segments"]):
        if s[0] == "str" and s[2] is not None:
            comment = mark(file["segments"], i)
            yield i, s[2], "nosqlformat" in comment, "nosqlvalidation" in comment, line
        line += s[1].count("\n")

"""C01 to C07: what formatting does to a query."""
import json
import os
import re

from lib import reflex, sqlast, sqlgen, sut
from lib.harness import VERIF, Leg, Violation

SAMPLE = 1500


def corpus():
    with open(os.path.join(VERIF, "corpus", "queries.json")) as f:
        return json.load(f)


def features(tokens):
    words = [t.lower() for k, t in tokens if k in ("kw", "fn")]
    found = set(words) & {
        "join", "case", "over", "with", "union", "between", "cast", "unnest", "distinct", "having", "extract", "exists",
        "filter", "array_agg", "except", "replace", "rollup", "limit", "offset",
    }  # fmt: skip
    if words.count("select") > 1:
        found.add("nested select")
    if words.count("select") > 3:
        found.add("four selects or more")
    if len(tokens) > 100:
        found.add("more than 100 tokens")
    if len(tokens) > 400:
        found.add("more than 400 tokens")
    if any(len(t) > 100 for k, t in tokens):
        found.add("a token of more than 100 characters")
    depth = deepest = 0
    for k, t in tokens:
        depth += (t in "([") - (t in ")]") if k == "op" else 0
        deepest = max(deepest, depth)
    if deepest > 15:
        found.add("nested more than 15 deep")
    if any(k == "q" and "\n" in t for k, t in tokens):
        found.add("literal with line break")
    return found


class QueryLeg(Leg):
    """A generated supported query: its spelling, its tokens and its canonical text."""

    min_budget, max_budget = 3, 60
    gen_class = sqlgen.Gen

    def gen(self, ch, tier):
        top = self.max_budget if tier == "quick" or ch.below(10) else self.max_budget * 3
        g = self.gen_class(ch, ch.between(self.min_budget, top))
        g.oversize()
        tree = g.statement()
        tokens = tree.tokens()
        return self.case(ch, tree, tokens)

    def case(self, ch, tree, tokens):
        return {
            "sql": sqlgen.spell(ch, tokens),
            "tokens": [list(t) for t in tokens],
            "canonical": sqlast.canonical(tree),
        }

    def nontrivial(self, case):
        return len(case["tokens"]) >= 12

    def labels(self, case):
        return features(case["tokens"])

    def key(self, case):
        return case["sql"]

    def sample(self, case):
        return case["sql"][:SAMPLE]


def lexed(text, sql):
    try:
        return reflex.lex(text)
    except reflex.LexError as e:
        raise Violation("the formatted text has an open literal ({})\n{}\n->\n{}".format(e, sql, text))


def expected_tokens(case):
    return [tuple(t) for t in case["tokens"] if t[0] != "tc"]


def compare_tokens(case, out, same):
    got = lexed(out, case["sql"])
    want = expected_tokens(case)
    for i, (w, g) in enumerate(zip(want, got)):
        if not same(w, g[1]):
            raise Violation(
                "token {}: expected {!r}, got {!r}\n{}\n->\n{}".format(i, w[1], g[1], case["sql"], out)
            )
    if len(want) != len(got):
        extra = (want or got)[len(got) :] or got[len(want) :]
        raise Violation(
            "{} tokens became {} (first extra or missing: {!r})\n{}\n->\n{}".format(
                len(want), len(got), extra[0], case["sql"], out
            )
        )


def same_token(want, got):
    if want[0] == "q":
        return want[1] == got
    return want[1].lower() == got.lower()


class Tokens(QueryLeg):
    name = "tokens"
    quick = 14000
    thorough = 600000

    def check(self, case):
        compare_tokens(case, sut.fmt(case["sql"]), same_token)


def soup_key(text):
    """Tokens up to case, superfluous commas at list ends, and white space inside operator runs."""
    toks = []
    for k, t in reflex.lex(text):
        if k == "w" and "." in t and "{" not in t:
            # "t . 0" and "t.0": whether the dot belongs to the number is a matter of taste
            toks += [p for p in re.split(r"(\.)", t.lower()) if p]
        else:
            toks.append(t if k == "q" else t.lower())
    kept = []
    for i, t in enumerate(toks):
        if t == "," and (i + 1 == len(toks) or toks[i + 1] in LIST_ENDS):
            continue
        kept.append(t)
    out = []
    for t in kept:
        if out and is_op(t) and is_op(out[-1]):
            out[-1] += t
        else:
            out.append(t)
    return out


def unlexed_key(text):
    """What is compared of a text that can not be split into tokens: all but case, white space and superfluous commas."""
    return re.sub(r",+(?={}|\Z)".format("|".join(map(re.escape, LIST_ENDS))), "", "".join(text.lower().split()))


LIST_ENDS = (")", "]", ";", "from", "where", "group", "having", "order", "limit", "offset")


def is_op(t):
    return all(c in ",;()[]+-*/=<>.|!" for c in t)


class Corpus(Leg):
    """Real queries, against the independent lexer instead of the generator's tokens."""

    name = "corpus"

    def exhaustive(self, tier):
        for sql in corpus():
            yield {"sql": sql}

    def nontrivial(self, case):
        return len(case["sql"]) > 40

    def sample(self, case):
        return case["sql"][:SAMPLE]


class CorpusTokens(Corpus):
    def check(self, case):
        out = sut.fmt(case["sql"])
        want, got = soup_key(case["sql"]), soup_key(out)
        if want != got:
            raise Violation("tokens changed\n{}\n->\n{}".format(case["sql"], out))


# -- C02 -------------------------------------------------------------------------------------------------------------


class LiteralGen(sqlgen.Gen):
    """More literals, stranger ones, and unusual names and numbers."""

    def atom(self, want="any", last=False):
        r = self.ch.below(10)
        if r >= 7 and want == "any":
            self.spend()
            if r == 9:
                return self.strange()
            return self.literal()
        return super().atom(want, last)

    def strange(self):
        ch = self.ch
        kind = ch.below(4)
        if kind == 0:
            return sqlast.Tok("q", self.literal_of(ch.pick("\"`'"), ch.below(20), "\n" if ch.chance(30) else ""))
        if kind == 1:
            return sqlast.Tok("ph", ch.pick(sqlgen.PLACEHOLDERS))
        if kind == 2:
            text = str(ch.below(10 ** ch.between(1, 25)))
            if ch.chance(40):
                text = ch.pick(("0", "00", "")) + text
            if ch.chance(50):
                text += "." + ch.pick(("", "0", "00", str(ch.below(1000))))
            if ch.chance(25):
                text += ch.pick("eE") + ch.pick(("", "+", "-")) + str(ch.below(30))
            return sqlast.Tok("num", text)
        return sqlast.Tok("id", self.bare_name())

    def literal_of(self, quote, length, more=""):
        ch = self.ch
        alphabet = "abZ019 _.,;:()[]{}<>=!+-*/%&|^#@$?~'\"`éß\x0b\f\x1c\x85\u2028\xa0\u200b\ue000\U0001f600" + more
        body = ""
        while len(body) < length:
            left = length - len(body)
            if left >= 2 and ch.chance(10):
                body += "\\" + ch.pick("n'\"`\\tx")
            elif left >= 6 and ch.chance(15):
                body += ch.pick(("select", " from ", " where"))
            elif left >= 3 and ch.chance(15):
                body += ch.pick(("and", " or", "end", "--x", "/**", "as ", " on", ")))", "(((", "1e5"))
            else:
                c = ch.pick(alphabet)
                if c == quote:
                    if left < 2:
                        continue
                    c += c
                body += c
        return quote + body + quote


class Verbatim(QueryLeg):
    name = "verbatim"
    gen_class = LiteralGen
    quick = 8000
    thorough = 400000

    def nontrivial(self, case):
        return sum(t[0] in ("q", "num", "ph") for t in case["tokens"]) >= 3

    def check(self, case):
        out = sut.fmt(case["sql"])
        want = [t for t in expected_tokens(case)]
        got = lexed(out, case["sql"])
        kept = [t[1] for t in want if t[0] in ("q", "num", "ph", "id")]
        words = {t[1].lower() for t in want if t[0] in ("kw", "fn", "ty")}
        if len(want) == len(got):
            found = [g[1] for w, g in zip(want, got) if w[0] in ("q", "num", "ph", "id")]
        else:
            found = [g[1] for g in got if g[0] == "q" or g[0] == "w" and g[1].lower() not in words]
            kept = [t for t in kept if t.lower() not in words]
        if kept != found:
            bad = next((i for i, p in enumerate(zip(kept, found)) if p[0] != p[1]), min(len(kept), len(found)))
            raise Violation(
                "verbatim token {} of {}: expected {!r}, got {!r}\n{}\n->\n{}".format(
                    bad, len(kept), kept[bad : bad + 1], found[bad : bad + 1], case["sql"], out
                )
            )


class Perturbed(QueryLeg):
    """The same query with one literal's content replaced by other content of the same length."""

    name = "perturbed"
    gen_class = LiteralGen
    quick = 5000
    thorough = 250000

    def case(self, ch, tree, tokens):
        places = [
            i for i, (k, t) in enumerate(tokens) if k == "q" and t[0] in "'\"`" and "\n" not in t and "\r" not in t
        ]
        if not places:
            return None
        g = LiteralGen(ch)
        at = ch.pick(places)
        quote = tokens[at][1][0]
        style = ch.pick(("plain", "tight", "lines"))
        other = list(tokens)
        other[at] = ("q", g.literal_of(quote, len(tokens[at][1]) - 2))
        fixed = [(k if k not in ("kw", "fn", "ty") else "id", t) for k, t in tokens]
        fixed_other = [(k if k not in ("kw", "fn", "ty") else "id", t) for k, t in other]
        return {
            "sql": spell_fixed(fixed, style),
            "other": spell_fixed(fixed_other, style),
            "index": sum(k == "q" for k, _ in tokens[:at]),
            "tokens": [list(t) for t in tokens],
        }

    def nontrivial(self, case):
        return case["sql"] != case["other"]

    def check(self, case):
        first = sut.fmt(case["sql"])
        second = sut.fmt(case["other"], "replacing the content of a literal made formatting raise")
        if mask(first, case["index"], case["sql"]) != mask(second, case["index"], case["other"]):
            raise Violation(
                "the content of literal {} changes the rest\n{}\n->\n{}\n---\n{}\n->\n{}".format(
                    case["index"], case["sql"], first, case["other"], second
                )
            )


def spell_fixed(tokens, style):
    """Deterministic spelling: white space depends on the kinds of the neighbours only."""
    out = []
    prev = None
    for tok in tokens:
        if prev is not None:
            must = sqlgen.needs_space(prev, tok)
            out.append({"plain": " ", "tight": " " if must else "", "lines": "\n"}[style])
        out.append(tok[1])
        prev = tok
    return "".join(out)


def mask(text, index, sql):
    """The text without the content of its index-th literal."""
    pos = 0
    for kind, tok in lexed(text, sql):
        pos = text.index(tok, pos)
        if kind == "q":
            if index == 0:
                return text[: pos + 1] + "*" * (len(tok) - 2) + text[pos + len(tok) - 1 :]
            index -= 1
        pos += len(tok)
    raise Violation("a literal is missing\n{}\n->\n{}".format(sql, text))


# -- C03 to C06 ------------------------------------------------------------------------------------------------------


class Idempotent(QueryLeg):
    name = "idempotent"
    quick = 9000
    thorough = 400000

    def check(self, case):
        once = sut.fmt(case["sql"])
        twice = sut.fmt(once, "formatting a formatted query raised")
        if once != twice:
            raise Violation("not stable\n{}\n->\n{}\n->\n{}".format(case["sql"], once, twice))


class IdempotentLiterals(Idempotent):
    name = "idempotent-literals"
    gen_class = LiteralGen
    quick = 3000
    thorough = 100000


class CorpusIdempotent(Corpus):
    def check(self, case):
        once = sut.fmt(case["sql"])
        twice = sut.fmt(once, "formatting a formatted query raised")
        if once != twice:
            raise Violation("not stable\n{}\n->\n{}\n->\n{}".format(case["sql"], once, twice))


class Respelled(QueryLeg):
    name = "respelled"
    quick = 7000
    thorough = 300000

    def case(self, ch, tree, tokens):
        return {
            "sql": sqlgen.spell(ch, tokens, ch.pick(("plain", "wild", "tight"))),
            "other": sqlgen.spell(ch, tokens, ch.pick(("wild", "tight", "lines", "plain"))),
            "tokens": [list(t) for t in tokens],
        }

    def nontrivial(self, case):
        return case["sql"] != case["other"] and len(case["tokens"]) >= 12

    def check(self, case):
        first, second = sut.fmt(case["sql"]), sut.fmt(case["other"])
        if first != second:
            raise Violation(
                "two spellings, two results\n{}\n->\n{}\n---\n{}\n->\n{}".format(
                    case["sql"], first, case["other"], second
                )
            )


class CorpusRespelled(Corpus):
    """Real queries with their white space replaced."""

    def exhaustive(self, tier):
        for sql in corpus():
            for space in ("\n", "\t", " \r\n ", "  "):
                yield {"sql": sql, "space": space}

    def check(self, case):
        parts = []
        pos = 0
        for _, tok in reflex.lex(case["sql"]):
            at = case["sql"].index(tok, pos)
            parts.append(case["space"] if at > pos else "")
            parts.append(tok)
            pos = at + len(tok)
        other = "".join(parts)
        first, second = sut.fmt(case["sql"]), sut.fmt(other)
        if first != second:
            raise Violation(
                "two spellings, two results\n{}\n->\n{}\n---\n{}\n->\n{}".format(case["sql"], first, other, second)
            )


class Canonical(QueryLeg):
    name = "canonical"
    quick = 13000
    thorough = 600000

    def check(self, case):
        out = sut.fmt(case["sql"])
        if out != case["canonical"]:
            raise Violation(
                "not the canonical layout\n{}\n->\n{}\n--- expected\n{}".format(case["sql"], out, case["canonical"])
            )


class EdgeGen(sqlgen.Gen):
    """Argument lists and boolean chains whose length is close to the line length."""

    def filler(self, n):
        return "x" * max(1, n)

    def statement(self):
        ch = self.ch
        node = A.Select([])
        node.source = A.Tok("id", "t")
        target = ch.between(84, 92)
        kind = ch.pick(("bool", "fn", "between", "nested bool", "paren", "having", "on", "case", "distinct fn"))
        if kind in ("fn", "distinct fn"):
            args = [self.operands() for _ in range(ch.between(0, 3))]
            size = len(", ".join(a.fmt() for a in args)) + (2 if args else 0)
            args.insert(ch.below(len(args) + 1), A.Tok("id", self.filler(target - size)))
            node.items = [A.Fn("f", args, kind != "fn")]
        else:
            items = [(ch.pick(("and", "or")) if i else "", self.bool_item()) for i in range(ch.between(1, 3))]
            size = len(A.Bool(items).fmt()) + 5
            items.append(("and", A.Tok("id", self.filler(target - size))))
            chain = A.Bool(items)
            node.items = [A.Tok("id", "a")]
            if kind == "bool":
                node.where = chain
            elif kind == "having":
                node.having = chain
            elif kind == "paren":
                node.where = A.Paren([chain])
            elif kind == "nested bool":
                node.where = A.Bool([("", A.Tok("id", "z")), ("or", A.Paren([chain]))])
            elif kind == "on":
                node.source = A.Join(A.Tok("id", "t"), [("left join", A.Tok("id", "u"), "on", chain)])
            elif kind == "case":
                node.items = [A.Case(None, [(chain, A.Tok("num", "1"))], None), A.Tok("id", "b")]
            else:
                low = A.Tok("id", self.filler(40))
                high = A.Tok("id", self.filler(target - 45))
                node.where = A.Between(A.Tok("id", "a"), "between", low, high)
        if ch.chance(30):
            outer = A.Select([A.Tok("op", "*")])
            outer.source = A.FromParen(node)
            node = outer
        return node


A = sqlast


class CanonicalEdge(Canonical):
    """The 88 column boundary."""

    name = "line-length"
    gen_class = EdgeGen
    min_budget, max_budget = 3, 14
    quick = 4000
    thorough = 150000


class Casing(QueryLeg):
    name = "casing"
    quick = 10000
    thorough = 400000

    def check(self, case):
        out = sut.fmt(case["sql"])
        got = lexed(out, case["sql"])
        want = expected_tokens(case)
        if len(got) != len(want):
            return  # C01
        for (kind, text), (_, g) in zip(want, got):
            if kind in sqlast.UPPER and g != text.upper() and g.lower() == text.lower():
                raise Violation("{!r} is not in upper case\n{}\n->\n{}".format(g, case["sql"], out))
            if kind not in sqlast.UPPER and g != text and g.lower() == text.lower():
                raise Violation("{!r} became {!r}\n{}\n->\n{}".format(text, g, case["sql"], out))


# -- C07 -------------------------------------------------------------------------------------------------------------

VOCABULARY = (
    "select from where group by having order limit offset with as on using join inner left right full cross outer each "
    "union intersect except all distinct and or not is like in contains between case when then else end null true over "
    "partition rows range asc desc nulls first last filter ignore respect cast count array_agg unnest replace rollup "
    "unbounded preceding for update window qualify ilike interval similar to escape collate at time zone lateral "
    "tablesample fetch next only some any values table recursive natural grouping sets cube pivot within exclude ties "
    "timestamp_trunc extract date day month int string a b x t f sum a b x t"
).split()
SYMBOLS = ("(", ")", "[", "]", ",", ".", ";", "+", "-", "*", "/", "%", "=", "<", ">", "<=", ">=", "<>", "!=", "||",
           "|", "&", "<<", "::", ":", "(", ")", ",", "?", "%s", "{x}", "@", "->", "~", "!", "a\\+", "\\",
           "x\\.y", "\\,", "1\\", "\\(a", "a\\-", "\\=b", "b\\|")  # fmt: skip
LITERALS = ("'x'", "''", '"a b"', "`t`", "'it''s'", "1", "2.5", "1e5", "0", "b'x'", "'a\nb'", "'from'", "'('")
UNKNOWN = (
    "for update", "for update of t", "window w as (partition by a)", "qualify row_number() over (order by a) = 1",
    "fetch first 5 rows only", "tablesample (10 percent)", "collate \"C\"", "at time zone 'utc'", "is distinct from b",
    "ilike 'x'", "similar to 'x'", "escape '!'", "interval '1' day", "within group (order by a)", "lateral (select 1) l",
    "natural join u", "grouping sets ((a), (b))", "cube (a, b)", "union all select 1", "union select a from u", "::int",
    "as struct", "using (a)", "on a = b", "with ties", "only", "pivot (sum(a) for b in (1))", "into x", "!= all (1)",
    "> any (select 1)", "is true", "isnull", "not null", "a b c", "1 2", "'a' 'b'", "x'y'", "= b = c", "between 1",
    "end", "case", "else 1", "then 2", "asc", "nulls first", "()", "(,)", "[]", ")", "]", "(", ";", "; select 2", ",",
    ", ,", "..", ".", "limit 1, 2", "limit 5 offset 3", "offset 3 rows", "order by a", "group by a", "where a",
    "having a", "from u", "select", "distinct", "all", "except (a)", "replace (a as b)", "filter (where a)", "over w",
    "over (w)", "over (w order by a)", "over (partition by a) + 1", "[0] + 1", "-- c", "/* c */",
)  # fmt: skip


class Soup(Leg):
    """Random tokens, and supported queries with tokens deleted, doubled, swapped or inserted."""

    name = "soup"
    quick = 24000
    thorough = 1200000

    def word(self, ch):
        r = ch.below(10)
        if r < 5:
            return ch.pick(VOCABULARY)
        if r < 8:
            return ch.pick(SYMBOLS)
        return ch.pick(LITERALS)

    def gen(self, ch, tier):
        words, kind = self.draw(ch)
        return {"sql": " ".join(words), "kind": kind}

    def draw(self, ch):
        kind = ch.weighted(((5, "mutant"), (3, "unknown"), (2, "soup")))
        if kind == "soup":
            words = [ch.pick(("select", "select", "select", "with"))]
            words += [self.word(ch) for _ in range(ch.between(1, 25))]
        else:
            if ch.chance(20):
                words = [t for _, t in reflex.lex(ch.pick(corpus_cache()))]
            else:
                g = sqlgen.Gen(ch, ch.between(2, 25))
                words = [t for _, t in g.statement().tokens()]
            for _ in range(1 if kind == "unknown" else ch.between(1, 3)):
                at = 1 + ch.below(max(1, len(words) - 1)) if ch.below(4) else len(words)
                op = ch.below(6) if kind == "mutant" else 9
                if op == 9:
                    words[at:at] = [t for _, t in reflex.lex(ch.pick(UNKNOWN))]
                elif op == 0:
                    words[at : at + ch.between(1, 3)] = []
                elif op == 1:
                    words[at:at] = [self.word(ch)]
                elif op == 2 and words[at : at + 1]:
                    words[at] = self.word(ch)
                elif op == 3:
                    end = at + ch.between(1, 4)
                    words[at:at] = words[at:end]
                elif op == 4 and at + 1 < len(words):
                    words[at], words[at + 1] = words[at + 1], words[at]
                elif op == 5:
                    frm = 1 + ch.below(max(1, len(words) - 1))
                    words[at:at] = words[frm : frm + ch.between(1, 6)]
        return words, kind

    def view(self, tokens):
        return tokens

    def nontrivial(self, case):
        return len(case["sql"].split()) >= 6

    def key(self, case):
        return case["sql"]

    def labels(self, case):
        return (case["kind"],)

    def check(self, case):
        outcome, out = sut.try_fmt(case["sql"])
        self.observed = ["raised" if outcome == "raise" else case["kind"] + " accepted"]
        if outcome == "raise":
            return
        try:
            want = soup_key(case["sql"])
        except reflex.LexError:
            want = None
        try:
            got = soup_key(out)
        except reflex.LexError:
            got = None
        if want is not None and got is not None:
            want, got = self.view(want), self.view(got)
        if want is None or got is None:
            if unlexed_key(case["sql"]) != unlexed_key(out):
                raise Violation("changed\n{}\n->\n{}".format(case["sql"], out))
            return
        if want != got:
            bad = next((i for i, p in enumerate(zip(want, got)) if p[0] != p[1]), min(len(want), len(got)))
            raise Violation(
                "tokens changed silently at {}: {!r} became {!r}\n{}\n->\n{}".format(
                    bad, want[bad : bad + 4], got[bad : bad + 4], case["sql"], out
                )
            )


CHARACTERS = (
    "abselctfrom_0123456789 .,;:()[]{}<>=!+-*/%&|^#@$?~'\"`\\\n\t\r\x0b\f\x00\x1c\x1f\x85\xa0\u2028\u3000\u200b\ufeff"
    "é名ıſK²½٣\U0001f600\udfff"
)


class CharSoup(Soup):
    """Supported queries with characters deleted, doubled, replaced or inserted, or cut off."""

    name = "characters"
    quick = 20000
    thorough = 1000000

    def gen(self, ch, tier):
        if ch.chance(20):
            sql = ch.pick(corpus_cache())
        else:
            g = (LiteralGen if ch.chance(50) else sqlgen.Gen)(ch, ch.between(2, 25))
            sql = sqlgen.spell(ch, g.statement().tokens(), ch.pick(("plain", "tight", "lines")))
        for _ in range(ch.weighted(((5, 1), (3, 2), (2, 4)))):
            # the select itself usually stays
            at = min(len(sql), 7 + ch.below(max(1, len(sql) - 6)))
            op = ch.below(7)
            if op == 0:
                sql = sql[:at] + sql[at + ch.between(1, 3) :]
            elif op < 3:
                sql = sql[:at] + ch.pick(CHARACTERS) + sql[at:]
            elif op == 3:
                sql = sql[:at] + ch.pick(CHARACTERS) + sql[at + 1 :]
            elif op == 4:
                sql = sql[:at] + sql[at : at + ch.between(1, 4)] + sql[at:]
            elif op == 5:
                sql = sql[:at] + sql[at + 1 : at + 2] + sql[at : at + 1] + sql[at + 2 :]
            elif ch.chance(30):
                sql = sql[:at]
        return {"sql": sql, "kind": "characters"}

    def view(self, tokens):
        """What is a token of malformed text is a matter of taste; literals and characters are not."""
        return "".join(t if t[-1] in "'\"`" else "".join(t.split()) for t in tokens)

    def nontrivial(self, case):
        return len(case["sql"]) >= 20


_CORPUS = None


def corpus_cache():
    global _CORPUS
    if _CORPUS is None:
        _CORPUS = corpus()
    return _CORPUS


class IdempotentSoup(Soup):
    """Whatever is accepted, however odd."""

    name = "idempotent-soup"
    quick = 16000
    thorough = 600000

    def check(self, case):
        outcome, out = sut.try_fmt(case["sql"])
        self.observed = ["raised" if outcome == "raise" else "accepted"]
        if outcome == "raise":
            return
        again, twice = sut.try_fmt(out)
        if again == "raise":
            raise Violation("what it wrote is refused: {}\n{}\n->\n{}".format(twice, case["sql"], out))
        if twice != out:
            raise Violation("formatted again it changes\n{}\n->\n{}\n->\n{}".format(case["sql"], out, twice))


class RespelledSoup(Soup):
    """Also what no grammar describes: white space and letter case of words make no difference."""

    name = "respelled-soup"
    quick = 16000
    thorough = 600000

    def gen(self, ch, tier):
        words, kind = self.draw(ch)
        spaces = (" ", "\n", "\t", "  ", "\r\n ")
        if any(w.strip("'\"`") == "" for w in words):
            spaces = (" ",)  # what is in the open quotes stays as it is
        other = words[0].upper()
        for w in words[1:]:
            if w.isascii() and w.isalpha() and ch.below(3) == 0:
                w = ch.pick((w.upper(), w.lower(), w.title()))
            other += ch.pick(spaces) + w
        return {"sql": " ".join(words), "other": other, "kind": kind}

    def check(self, case):
        first, second = sut.try_fmt(case["sql"]), sut.try_fmt(case["other"])
        self.observed = ["raised" if first[0] == "raise" else "accepted"]
        if first[0] != second[0] or first[0] != "raise" and first[1].lower() != second[1].lower():
            raise Violation("{!r}\n{}\n->\n{}\n{!r}\n->\n{}".format(first[0], case["sql"], first[1], case["other"], second[1]))

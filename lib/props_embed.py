"""C28: a query is the same query wherever it stands.  C29: whatever its names are."""
import re

from lib import props_format as pf
from lib import props_validate as pv
from lib import reflex, sqlgen, sut
from lib.harness import Leg, Violation
from lib.words import OTHER_WORDS

# name, text around the query, formatted text around it, spaces the query is moved by
CLOSED = "select 1 from (select 1 as zz) as yy "
CLOSED_F = "SELECT 1\nFROM (\n SELECT 1 AS zz\n) AS yy"
WRAPS = (
    ("from", "select * from (", ")", "SELECT *\nFROM (\n", "\n)", 1),
    ("aliased from", "select 1 from(", ")as s", "SELECT 1\nFROM (\n", "\n) AS s", 1),
    ("implicit alias", "select 1 from (", ") s limit 3", "SELECT 1\nFROM (\n", "\n) s\nLIMIT 3", 1),
    ("second source", CLOSED + ", (", ") as ww", CLOSED_F + ", (\n", "\n) AS ww", 1),
    ("join", CLOSED + "left join (", ") as ww on true", CLOSED_F + "\nLEFT JOIN (\n", "\n) AS ww\nON TRUE", 1),
    ("cross join", CLOSED + "cross join (", ") ww", CLOSED_F + "\nCROSS JOIN (\n", "\n) ww", 1),
    ("joined first", "select 1 from (", ") as ww join (select 1 as zz) as yy on zz = 1", "SELECT 1\nFROM (\n", "\n) AS ww\nJOIN (\n SELECT 1 AS zz\n) AS yy\nON zz = 1", 1),
    ("exists", CLOSED + "where exists (", ")", CLOSED_F + "\nWHERE\n EXISTS(\n", "\n )", 2),
    ("not exists", CLOSED + "where not exists(", ")", CLOSED_F + "\nWHERE\n NOT EXISTS(\n", "\n )", 2),
    ("in", CLOSED + "where zz in (", ")", CLOSED_F + "\nWHERE\n zz IN (\n", "\n )", 2),
    ("not in", CLOSED + "where (zz)not in(", ") order by zz", CLOSED_F + "\nWHERE\n (zz) NOT IN (\n", "\n )\nORDER BY zz", 2),
    ("comparison", CLOSED + "where zz >= (", ")", CLOSED_F + "\nWHERE\n zz >= (\n", "\n )", 2),
    ("having", CLOSED + "group by zz having zz < (", ")", CLOSED_F + "\nGROUP BY zz\nHAVING\n zz < (\n", "\n )", 2),
    ("scalar", "select (", ") as k, 2", "SELECT\n (\n", "\n ) AS k,\n 2", 2),
    ("only item", "select(", ")", "SELECT (\n", "\n)", 1),
    ("argument", "select f(1, (", "))", "SELECT F(\n 1,\n (\n", "\n )\n)", 2),
    ("case", "select case when true then (", ") else 1 end", "SELECT CASE\n WHEN TRUE THEN (\n", "\n )\n ELSE 1\nEND", 2),
    ("array", "select array(", ")", "SELECT ARRAY(\n", "\n)", 1),
    ("order by", "select 1 order by (", ") desc", "SELECT 1\nORDER BY (\n", "\n) DESC", 1),
)  # fmt: skip
OUTER = (
    ("cte", "with s as (", ") select a from s", "WITH s AS (\n", "\n)\nSELECT a\nFROM s", 1),
    ("first cte", "with s as(", "), r as (select 1) select a from s, r", "WITH s AS (\n", "\n),\nr AS (\n SELECT 1\n)\nSELECT a\nFROM s, r", 1),
    ("second cte", "with r as (select 1), s as (", ") select 1 from s", "WITH r AS (\n SELECT 1\n),\ns AS (\n", "\n)\nSELECT 1\nFROM s", 1),
    ("main query", "with Zs as (select 1 as zz) ", "", "WITH Zs AS (\n SELECT 1 AS zz\n)\n", "", 0),
    ("branch", "select a from t union all ", "", "SELECT a\nFROM t\nUNION ALL\n", "", 0),
    ("third branch", "select 1 as b from t except distinct select a from u intersect all ", "", "SELECT 1 AS b\nFROM t\nEXCEPT DISTINCT\nSELECT a\nFROM u\nINTERSECT ALL\n", "", 0),
    ("statement", "", ";", "", ";", 0),
    ("spaces", "\n \t", "  \n", "", "", 0),
)  # fmt: skip
# places whose layout is not worth a model here: for the verdict only
PLACES = (
    "select 1 from (select 1 as zz) as yy where zz in (1, (@))", "select 1 from (select 1 as zz) as yy where zz in (2, (@), 1)",
    "select 1 from (select 1 as zz) as yy where (1, (@)) = (zz, 3)", "select 1 from (select 1 as zz) as yy group by zz, (@)",
    "select sum(1) over (partition by 1, (@))", "select sum(1) over (order by 1, (@) desc rows 2 preceding)",
    "select sum(1) over (partition by 2 order by (@))", "select count(*) filter (where 1 = (@))", "select sum((@)) over ()",
    "select sum((@)) filter (where true)", "select array_agg((@))", "select array_agg(1 order by 2, (@))", "select array_agg(distinct (@) limit 3)",
    "select count(distinct 1, (@))", "select [1, (@)]", "select [1, 2][(@)]", "select (@)[0]", "select extract(day from (@))",
    "select case (@) when 1 then 2 end", "select case 1 when 2 then 3 when (@) then 4 end", "select case when false then 1 when 1 < (@) then 4 end",
    "select case when 1 is null then 1 when true then (@) end", "select case when 1 = 2 then 1 when true then 2 else (@) end",
    "select 1 from (select 1 as zz) as yy join (select 2 as xx) as vv on xx = zz and zz < (@)", "select coalesce(1, 2, (@), 4)",
    "select 1 between (@) and 2", "select 1 between 2 and (@)", "select 1 + 2 - (@)", "select (@) || 'a' || 'b'", "select -(@)",
    "select 'a' like (@) or true", "select distinct on (1, (@)) 2", "select distinct (@)", "select all 1, (@)", "select ((((@))))",
    "select * except (zz), (@) from (select 1 as zz) as yy", "select * replace (1 as qq, (@) as xx) from (select 1 as qq, 2 as xx) as yy",
    "select 1 from (select 1 as zz) as yy, unnest((@)) as u", "select f(g(1, h((@))), 2).x", "select 1 is not null, (@) is null and true",
    "select 1 as qq order by qq, (@), 1 limit 1 offset 1", "select 1 & (@) | 2", "select not 1 = (@)", "select cast((@) as int)",
    "select 1 where true and (false or 1 = (@))", "select 1 where exists (select 1 where not exists (@))",
    "select 1 from ((select 1 as zz) as yy left join (@) as xx on true)", "select 1 from (((@))) as yy", "select 1 from (select (select (@)))",
)  # fmt: skip
WHERE = tuple((p, *p.split("@")) for p in PLACES)
CALLS = ("exists", "not exists", "array")
BY_NAME = {w[0]: w for w in WRAPS + OUTER + WHERE}


def shift(text, by):
    """Each line moved to the right, but not what is inside of literals."""
    if not by:
        return text
    inside = set()
    pos = 0
    for kind, token in reflex.lex(text):
        pos = text.index(token, pos)
        if kind == "q":
            inside |= {i for i in range(pos, pos + len(token)) if text[i] == "\n"}
        pos += len(token)
    return " " * by + "".join(c + " " * by if c == "\n" and i not in inside else c for i, c in enumerate(text))


def wrap(name, text):
    return BY_NAME[name][1] + text + BY_NAME[name][2]


def wrapped(name, formatted):
    _, _, _, before, after, by = BY_NAME[name]
    return before + shift(formatted, by) + after


def names(ch, wraps=WRAPS):
    out = [ch.pick(wraps)[0] for _ in range(ch.weighted(((6, 1), (3, 2), (1, 3), (3, 0))))]
    if not out or ch.chance(25):
        last = ch.pick(OUTER)[0]
        if last.endswith("branch") and any("order by" in n for n in out[-1:]):
            last = "cte"  # else the order is that of the combination
        out.append(last)
    return out


def has_final_clause(sql):
    """Whether it has ORDER BY, LIMIT or OFFSET of its own, or starts with WITH."""
    depth = 0
    for i, (kind, token) in enumerate(reflex.lex(sql)):
        depth += (token in ("(", "[")) - (token in (")", "]"))
        if kind == "w" and depth == 0 and token.lower() in ("order", "limit", "offset", "with"):
            return True
    return False


class Formatted(pf.QueryLeg):
    """The layout of the query does not depend on where it stands."""

    name = "layout"
    quick = 9000
    thorough = 200000
    max_budget = 40

    def gen(self, ch, tier):
        g = sqlgen.Gen(ch, ch.between(self.min_budget, self.max_budget))
        if ch.below(6):
            tokens, wraps = g.select().tokens(), names(ch)
        else:  # WITH needs brackets around it
            tokens = g.with_statement().tokens()
            wraps = names(ch)
            if wraps[0].endswith(("branch", "main query")):
                wraps.insert(0, ch.pick(WRAPS)[0])
        return {"sql": sqlgen.spell(ch, tokens), "tokens": [list(t) for t in tokens], "wraps": wraps}

    def labels(self, case):
        return pf.features(case["tokens"]) | {"as " + n for n in case["wraps"]}

    def key(self, case):
        return case["sql"] + str(case["wraps"])

    def sample(self, case):
        return {"sql": case["sql"][: pf.SAMPLE], "wraps": case["wraps"]}

    def check(self, case):
        sql, want = case["sql"], sut.fmt(case["sql"])
        for name in case["wraps"]:
            if name in CALLS and "\n" not in want:
                continue  # stays on the line of the call
            sql = wrap(name, sql)
            want = wrapped(name, want)
        got = sut.fmt(sql)
        if got != want:
            raise Violation("the layout differs as {}\n{}\n->\n{}\nexpected\n{}".format(case["wraps"], sql, got, want))


class Judged(pv.SameVerdict):
    """The query is as valid as the one it stands in, and has the same errors."""

    name = "verdict"
    quick = 9000
    thorough = 200000

    def gen(self, ch, tier):
        case = super().gen(ch, tier)
        if case is None:
            return None
        sql = case["sql"].rstrip()
        sql = sql[:-1] if sql.endswith(";") else sql
        # the last clauses of a branch are those of the combination
        wraps = [n for n in names(ch, WRAPS + WHERE) if not n.endswith("branch") or not has_final_clause(sql)]
        return {"sql": sql, "kind": case["kind"], "wraps": wraps}

    def nontrivial(self, case):
        return len(case["sql"]) > 40

    def key(self, case):
        return case["sql"] + str(case["wraps"])

    def labels(self, case):
        return ["from " + case["kind"]] + ["as " + n for n in case["wraps"]]

    def check(self, case):
        first = sut.verdict(case["sql"])
        self.observed = ["valid" if first[0] else "invalid"]
        sql = case["sql"]
        for name in case["wraps"]:
            sql = wrap(name, sql)
        second = sut.verdict(sql)
        if first[0] != second[0] or set(first[1]) != set(second[1]):
            raise Violation("{} but as {} {}\n{}".format(first, case["wraps"], second, sql))


# two queries in one: the errors are those of both
PAIRS = (
    "select * from ({}) as aa cross join ({}) as bb", "select 1 from ({}) as aa, ({}) as bb", "with aa as ({}) {}",
    "with aa as ({}), bb as ({}) select 1 from aa", "select ({}), ({})", "select 1 where exists ({}) and exists ({})",
    "select 1 from ({}) as aa left join ({}) as bb on true", "select case when exists ({}) then ({}) end", "select f(({}), ({}))",
    "select 1 from (({}) union all ({})) as aa", "select 1 from (select 1 as zz) as yy where zz in ({}) or zz not in ({})",
    "select 1 from (select ({}) as zz) as yy order by ({})",
    "select ({}) + 1 having ({}) is null", "select array({}), [({})]", "select 1 between ({}) and ({})", "select cast(({}) as int), not ({})",
)  # fmt: skip
BRANCHES = ("{} union all {}", "{} intersect {}", "select 1 from ({} except {}) as aa", "with aa as ({} union {}) select 1 from aa")


class Together(pv.SameVerdict):
    """Two queries in one statement have the errors of both."""

    name = "two faults"
    quick = 9000
    thorough = 200000

    def gen(self, ch, tier):
        cases = []
        for _ in range(2):
            case = super().gen(ch, tier)
            if case is None:
                return None
            sql = case["sql"].rstrip()
            cases.append(dict(case, sql=sql[:-1] if sql.endswith(";") else sql))
        first, second = (c["sql"] for c in cases)
        pairs = PAIRS
        if not has_final_clause(first) and not has_final_clause(second):
            pairs += BRANCHES
        pair = ch.pick(pairs)
        if pair.startswith("with aa as ({}) {}") and second.lower().startswith("with"):
            return None
        return {"first": first, "second": second, "pair": pair, "kind": cases[0]["kind"] + ", " + cases[1]["kind"]}

    def nontrivial(self, case):
        return len(case["first"]) > 40 and len(case["second"]) > 40

    def key(self, case):
        return case["pair"].format(case["first"], case["second"])

    def labels(self, case):
        return ["from " + k for k in case["kind"].split(", ")] + [case["pair"].format("A", "B")]

    def check(self, case):
        sql = case["pair"].format(case["first"], case["second"])
        want = set()
        for part in ("first", "second"):
            want |= set(sut.verdict(case[part])[1])
        self.observed = ["valid" if not want else "invalid"]
        got = set(sut.verdict(sql)[1])
        if got != want:
            raise Violation("lost {}, new {}\n{}".format(sorted(want - got), sorted(got - want), sql))


# -- C29 -------------------------------------------------------------------------------------------------------------

LETTERS = "qwertzuopsdfghjklyxcvbnmQWERTZUOPSDFGHJKLYXCVBNM_éжИ日"
PIECES = sorted(sqlgen.RESERVED | {f.lower() for f in sqlgen.FUNCTIONS} | {"_trunc", "timestamp_trunc", "array_agg", "_at_", "parse_"})


def new_name(ch, length, pieces=True):
    """A name of this length, often with a keyword inside."""
    if pieces and ch.below(4) == 0:
        words = [w for w in OTHER_WORDS if len(w) == length]
        if words:
            word = ch.pick(words)
            return ch.pick((word, word.upper(), word.title()))
    words = [w for w in PIECES if len(w) < length]
    if words and pieces and ch.below(3):
        word = sqlgen.recase(ch, ch.pick(words))
        rest = length - len(word)
        before = ch.pick((0, rest, ch.below(rest + 1)))
        fill = "".join(ch.pick(LETTERS + "0123456789") for _ in range(rest))
        out = fill[:before] + word + fill[before:]
    else:
        out = "".join(ch.pick(LETTERS + "0123456789") for _ in range(length))
    return ch.pick(LETTERS) + out[1:] if out[0].isdigit() else out


def renaming(ch, tokens):
    """Old names to new ones, often longer, and those to others of the same length that often hold a keyword."""
    quoted = " ".join(t for k, t in tokens if k in ("q", "ph"))
    functions = {t.lower() for k, t in tokens if k in ("fn", "ty", "kw")}
    names = sorted({t for k, t in tokens if k == "id"})
    taken = {n.lower() for n in names} | functions | sqlgen.RESERVED
    longer = ch.below(3) == 0
    first, second = {}, {}

    def new(length, pieces):
        for _ in range(5):
            new = new_name(ch, length, pieces)
            if new.lower() not in taken and new.isidentifier() and len(new.lower()) == length:
                taken.add(new.lower())
                return new

    for name in names:
        if name.lower() in functions | sqlgen.RESERVED or name in quoted or not name.isidentifier():
            continue
        length = len(name) + (ch.below(14) if longer else 0)
        neutral = new(length, False) if longer or ch.below(4) == 0 else name
        other = neutral and new(length, True)
        if other:
            first[name], second[neutral] = neutral, other
    return first, second


def renamed_tokens(tokens, names):
    return [(k, names.get(t, t) if k == "id" else t) for k, t in tokens]


def renamed_text(text, names):
    out, last = [], 0
    for kind, token in reflex.lex(text):
        pos = text.index(token, last)
        out += [text[last:pos], names.get(token, token) if kind == "w" else token]
        last = pos + len(token)
    return "".join(out) + text[last:]


class RenamedLayout(pf.QueryLeg):
    name = "layout"
    quick = 14000
    thorough = 300000

    def gen(self, ch, tier):
        if ch.below(4):
            return super().gen(ch, tier)
        # nothing but names, some of which are words that mean something elsewhere
        soft = lambda: ("id", ch.pick(sqlgen.NAMES if ch.below(3) else sqlgen.SOFT_NAMES))  # noqa: E731
        tokens = [("kw", "select")]
        for i in range(ch.between(1, 3)):
            tokens += [("op", ",")] if i else []
            tokens += [("fn", ch.pick(("sum", "f", "my_func", "concat"))), ("op", "(")]
            for j in range(ch.between(1, 4)):
                tokens += [("op", ",")] if j else []
                tokens += [soft(), ("op", "."), soft()] if ch.below(5) == 0 else [soft()]
            tokens += [("op", ")")]
        tokens += [("kw", "from"), soft()]
        if ch.below(2):
            tokens += [("kw", "where"), soft(), ("op", "="), soft(), ("kw", "and"), soft()]
        if ch.below(2):
            tokens += [("kw", "order"), ("kw", "by"), soft()]
        return self.case(ch, None, tokens)

    def case(self, ch, tree, tokens):
        first, names = renaming(ch, tokens)
        if not names:
            return None
        tokens = renamed_tokens(tokens, first)
        return {
            "sql": sqlgen.spell(ch, tokens),
            "tokens": [list(t) for t in tokens],
            "names": names,
            "renamed": sqlgen.spell(ch, renamed_tokens(tokens, names)),
        }

    def nontrivial(self, case):
        return len(case["tokens"]) >= 12 and len(case["names"]) > 1

    def sample(self, case):
        return {"sql": case["sql"][: pf.SAMPLE], "names": case["names"]}

    def check(self, case):
        first, second = sut.fmt(case["sql"]), sut.fmt(case["renamed"])
        want = renamed_text(first, case["names"])
        if second != want:
            raise Violation(
                "other names, other layout\n{}\n->\n{}\nbut\n{}\n->\n{}".format(case["sql"], first, case["renamed"], second)
            )


class RenamedVerdict(Leg):
    name = "verdict"
    quick = 14000
    thorough = 300000
    LEGS = pv.SameVerdict.LEGS

    def gen(self, ch, tier):
        leg = self.LEGS[ch.below(len(self.LEGS))]()
        spelled = []

        def finish(ch, tree, **more):
            tokens = tree.tokens()
            first, names = renaming(ch, tokens)
            tokens = renamed_tokens(tokens, first)
            spelled.append(
                {
                    "sql": sqlgen.spell(ch, tokens),
                    "renamed": sqlgen.spell(ch, renamed_tokens(tokens, names)),
                    "names": names,
                    "kind": leg.name,
                }
            )
            return spelled[0]

        leg.finish = finish
        return leg.gen(ch, tier)

    def key(self, case):
        return case["sql"] + case["renamed"]

    def nontrivial(self, case):
        return len(case["sql"]) > 40 and len(case["names"]) > 1

    def sample(self, case):
        return {k: v[: pf.SAMPLE] if isinstance(v, str) else v for k, v in case.items()}

    def labels(self, case):
        return ["from " + case["kind"]]

    def check(self, case):
        first, second = sut.verdict(case["sql"]), sut.verdict(case["renamed"])
        self.observed = ["valid" if first[0] else "invalid"]
        if first[0] != second[0] or not same_errors(first[1], second[1], case["names"]):
            raise Violation("{} but with other names {}\n{}\n--\n{}".format(first, second, case["sql"], case["renamed"]))


CONTENTS = (
    "1234", "-1.5", "12.5e3", "select", "select 1 from t", "true", "null", "a.b.c", "t.*", "****", "{x}x", "%s%s", "(((", ")))", "[0];", "a, b",
    " as b", "from t", "where", "order by 1", "limit -1", "day ", "union all", "and or", "not x", "case", "endend", "it''s", "--no", "/*no*/", "``", '""',
    "group by 9", "    ", "\n\n\n", "\\'\\\\", "= 1 and", "@nnn", ":nnn", "é日本🙂", "date ''2020-01-01''", "current_date", "distinct", "having 1", "$1$1", "%(n)s",
)  # fmt: skip


class LiteralVerdict(RenamedVerdict):
    """Other contents of the string literals."""

    name = "literals"
    quick = 8000
    thorough = 200000

    def gen(self, ch, tier):
        leg = self.LEGS[ch.below(len(self.LEGS))]()
        spelled = []

        def finish(ch, tree, **more):
            tokens = [tuple(t) for t in tree.tokens()]
            places = [i for i, (kind, text) in enumerate(tokens) if kind == "q" and text[:1] == "'"]
            texts = []
            for _ in range(2):
                changed = list(tokens)
                for i in places:
                    changed[i] = ("q", "'{}'".format(ch.pick(CONTENTS)))
                texts.append(sqlgen.spell(ch, changed))
            spelled.append({"sql": texts[0], "renamed": texts[1], "kind": leg.name, "literals": len(places)})
            return spelled[0]

        leg.finish = finish
        case = leg.gen(ch, tier)
        return case if case and case["literals"] else None

    def nontrivial(self, case):
        return len(case["sql"]) > 40

    def check(self, case):
        first, second = sut.verdict(case["sql"]), sut.verdict(case["renamed"])
        self.observed = ["valid" if first[0] else "invalid"]
        if first[0] != second[0] or list(map(without_contents, first[1])) != list(map(without_contents, second[1])):
            raise Violation("{} but with other literals {}\n{}\n--\n{}".format(first, second, case["sql"], case["renamed"]))


def without_contents(message):
    for content in sorted(CONTENTS, key=len, reverse=True):
        message = message.replace(content, "?")
    return message


def same_errors(first, second, names):
    """Word for word the same, but for the names."""
    pairs = zip(re.findall(r"\w+|\W+", "\n".join(first)), re.findall(r"\w+|\W+", "\n".join(second)))
    return len(first) == len(second) and all(a == b or names.get(a) == b for a, b in pairs)

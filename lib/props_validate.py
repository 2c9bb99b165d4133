"""C10 to C18: what validating a query reports."""
import re

from lib import props_format as pf
from lib import scopegen, sqlast as A, sqlgen, sut
from lib.harness import Leg, Violation

MISSING = ("zz_missing", "Zq9", "missing_column", "z")


class ScopedLeg(Leg):
    min_budget, max_budget = 6, 60
    open_percent = 50
    pool = sqlgen.NAMES
    star_chance = 1
    flat_percent = (0, 15, 50)

    def make(self, ch):
        g = scopegen.ScopeGen(ch, ch.between(self.min_budget, self.max_budget))
        g.open_percent = ch.pick(self.open_percent) if isinstance(self.open_percent, tuple) else self.open_percent
        g.pool = self.pool
        g.star_chance = self.star_chance
        g.flat_percent = ch.pick(self.flat_percent)
        return g, g.statement()

    def finish(self, ch, tree, **more):
        tokens = tree.tokens()
        return dict(more, sql=sqlgen.spell(ch, tokens, ch.weighted(((5, "plain"), (1, "wild")))))

    def key(self, case):
        return case["sql"]

    def nontrivial(self, case):
        return len(case["sql"]) > 40

    def sample(self, case):
        return {k: v[: pf.SAMPLE] if isinstance(v, str) else v for k, v in case.items()}

    def labels(self, case):
        text = case["sql"].lower()
        found = set()
        for word in ("join", "using", "group", "having", "order", "union", "with", "case", "over", "except"):
            if re.search(r"\b" + word + r"\b", text):
                found.add(word)
        if text.count("select") > 1:
            found.add("nested select")
        if text.count("select") > 3:
            found.add("four selects or more")
        if "where" in case:
            found.add("in " + case["where"])
        return found


def expect_valid(case):
    valid, errors = sut.verdict(case["sql"])
    if not valid:
        raise Violation("a valid query is reported invalid: {}\n{}".format(errors, case["sql"]))


def expect_error(case, pattern):
    valid, errors = sut.verdict(case["sql"], "validating the query raised")
    if valid:
        raise Violation("{}: reported valid\n{}".format(case["why"], case["sql"]))
    if not any(re.search(pattern, e) for e in errors):
        raise Violation("{}: only reported {}\n{}".format(case["why"], errors, case["sql"]))


class Valid(ScopedLeg):
    name = "valid"
    quick = 36000
    thorough = 400000
    open_percent = (10, 30, 60, 90)

    def gen(self, ch, tier):
        if ch.below(3) == 2:
            self.pool = ("a", "b", "x", "id", "col1")
        else:
            self.pool = sqlgen.NAMES
        g, tree = self.make(ch)
        return self.finish(ch, tree)

    def check(self, case):
        expect_valid(case)


class BooleanConditions(Valid):
    """Conditions that are boolean are never reported."""

    name = "boolean"
    quick = 12000
    thorough = 200000

    def nontrivial(self, case):
        return bool(re.search(r"(?i)\b(where|having|and|or)\b", case["sql"]))


class JoinsWithCondition(Valid):
    name = "joins with condition"
    quick = 12000
    thorough = 200000

    def make(self, ch):
        g = scopegen.ScopeGen(ch, ch.between(self.min_budget, self.max_budget))
        g.open_percent = ch.pick(self.open_percent)
        g.join_chance = 30
        return g, g.statement()

    def nontrivial(self, case):
        return bool(re.search(r"(?i)\bjoin\b", case["sql"]))


# -- C10 -------------------------------------------------------------------------------------------------------------


def clause_of(select, leaf):
    for slot in ("distinct_on", "items", "source", "where", "group", "having", "order"):
        if any(n is leaf for n in scopegen.walk(getattr(select, slot))):
            return slot
    return "?"


class Large(A.Tok):
    """A column as the last of many parts of an expression."""

    __slots__ = ()
    KINDS = (("f (", ", ", ")"), ("( 1 in (", ", ", ") )"), ("(", " + ", ")"), ("(", " || ", ")"), ("greatest (", ", ", ")"), ("( 1 = ", " or 1 = ", ")"),
             ("case", " when 1 = 1 then 1", " end"))

    def toks(self, out):
        name, kind, n = self.text.split(" ")
        start, separator, end = self.KINDS[int(kind)]
        parts = ["1"] * int(n)
        if start == "case":
            text = start + separator * (int(n) - 1) + " else " + name + end
        else:
            parts[-1] = name
            text = start + " " + separator.join(parts) + " " + end
        for word in text.replace(",", " ,").split():
            if word in "(),+||=":
                out.append(("op", word))
            elif word.isdigit():
                out.append(("num", word))
            elif word in ("in", "or", "case", "when", "then", "else", "end"):
                out.append(("kw", word))
            else:
                out.append(("id", word))


class MissingColumn(ScopedLeg):
    name = "missing"
    quick = 36000
    thorough = 400000
    open_percent = (5, 15)
    star_chance = 0

    def gen(self, ch, tier):
        self.star_chance = ch.pick((0, 0, 1))
        g, tree = self.make(ch)
        sites = []
        for leaf, alias, scopes, scope in g.star_sites + g.sites:
            if any(s.open for s in scopes):
                continue
            names = set().union(*(s.names() for s in scopes))
            for s in scopes:
                if s.node is not None:
                    names |= {n for n, _ in g.outputs(s.node)}
            if alias is not None and alias in names:
                continue
            sites.append((leaf, alias, scopes, names))
        if not sites:
            return None
        # as often in each clause
        clauses = {}
        for site in sites[:: 1 + len(sites) // 30]:
            node = site[2][-1].node
            if any(site[0] is s[0] for s in g.star_sites):
                clauses.setdefault("star", []).append(site)
                continue
            where = clause_of(node, site[0]) if node is not None else "join condition"
            clauses.setdefault(where, []).append(site)
        where = ch.pick(sorted(clauses))
        leaf, alias, scopes, names = ch.pick(clauses[where])
        name = next(n for n in MISSING[ch.below(len(MISSING)) :] + ("zz_missing_2",) if n not in names)
        leaf.text = name
        found = [name]
        if not ch.below(4):  # each is reported
            others = [site for c in sorted(clauses) for site in clauses[c] if site[0] is not leaf]
            for i in range(min(len(others), ch.between(1, 3))):
                other = others.pop(ch.below(len(others)))
                other[0].text = next(n for n in ("zz_other%d" % i, "zz_other%d_2" % i) if n not in other[3])
                found.append(other[0].text)
        if alias is None and where in ("items", "where", "having", "join condition") and not ch.below(8) and not any(
            isinstance(n, A.Index) and n.base is leaf for n in scopegen.walk(tree)
        ):
            leaf.text = "{} {} {}".format(name, ch.below(len(Large.KINDS)), ch.pick((2, 9, 30, 60)))
            leaf.__class__ = Large
        return self.finish(
            ch, tree, name=found, where=where, why="{} do not exist in their sources".format(" and ".join(found))
        )

    def check(self, case):
        for name in case["name"] if isinstance(case["name"], list) else [case["name"]]:
            expect_error(case, r"(?<![\w.]){}(?!\w)".format(re.escape(name)))


class MissingAlias(ScopedLeg):
    """A column, or the star, of an alias that no source has."""

    name = "missing alias"
    quick = 10000
    thorough = 120000
    open_percent = (5, 15)

    def gen(self, ch, tier):
        self.star_chance = ch.pick((0, 1))
        g, tree = self.make(ch)
        sites = [s for s in g.alias_sites if not any(scope.open for scope in s[2])]
        if not sites:
            return None
        stars = [s for s in sites if s[1].text == "*"]
        alias, leaf, scopes = ch.pick(stars if stars and ch.below(3) == 2 else sites)
        alias.text = "zz_missing_alias"
        name = tok_text(leaf)
        return self.finish(ch, tree, name=name, where="star" if name == "*" else "column", why="there is no source zz_missing_alias")

    def check(self, case):
        if case["name"] == "*":
            expect_error(case, r"\*.*zz_missing_alias")
        else:
            expect_error(case, r"(?<![\w.]){}(?!\w)".format(re.escape(case["name"])))


def tok_text(leaf):
    return leaf.text[1:-1] if leaf.kind == "q" else leaf.text


class MissingInUsing(ScopedLeg):
    """Also a column that only one of the two sides has."""

    name = "missing in using"
    quick = 8000
    thorough = 100000
    open_percent = (5, 15, 50)
    pool = ("a", "b", "c", "x")

    def gen(self, ch, tier):
        g = scopegen.ScopeGen(ch, ch.between(self.min_budget, self.max_budget))
        g.open_percent = ch.pick(self.open_percent)
        g.pool = self.pool
        g.flat_percent = ch.pick((15, 50))
        g.join_chance, g.using_chance = 30, 80
        tree = g.statement()
        usings = [u for u in g.usings if u[1] is not None or u[2] is not None]
        if not usings:
            return None
        cols, left, right = ch.pick(usings)
        sides = [side for side in (left, right) if side is not None]
        one_sided = sorted({n for side in sides for n in side if n.isidentifier()} - set.intersection(*sides))
        if one_sided and len(sides) == 2 and ch.chance(40):
            name = ch.pick(one_sided)
        else:
            name = next(n for n in MISSING[ch.below(len(MISSING)) :] + ("zz_missing_2",) if all(n not in s for s in sides))
        ch.pick(cols).text = name
        return self.finish(ch, tree, name=name, where="using", why="a side of the join has no column {}".format(name))

    check = MissingColumn.check


# -- C12 -------------------------------------------------------------------------------------------------------------


def plant_key(ch, keys, node):
    keys.insert(ch.below(len(keys) + 1), node)


class Positions(ScopedLeg):
    name = "positions"
    quick = 32000
    thorough = 300000
    open_percent = (20, 60, 90)
    star_chance = 0

    def gen(self, ch, tier):
        g, tree = self.make(ch)
        select = ch.pick([s for s, _ in g.selects])
        where = ch.pick(("group", "order"))
        if where == "order":
            select = ch.pick(g.whole_queries())
        n = len(select.items)
        ok = ch.below(4) == 3
        if ok:
            pos = ch.between(1, n)
        else:
            pos = ch.pick((n + 1, 0, n + 2, n + 10, 1000, 10**20, -1, -n))
        node = A.Tok("num", str(pos)) if pos >= 0 else neg(str(-pos))
        for _ in range(ch.weighted(((6, 0), (2, 1), (1, 2)))):
            node = A.Paren([node])
        wrong = [] if ok else [pos]
        nodes = [node]
        if not ch.below(4):  # each is reported
            for pos_2 in ch.pick(((n + 3,), (n + 3, n + 4), (n + 7, n + 3, n + 5, n + 6))):
                wrong.append(pos_2)
                nodes.append(num(pos_2))
        for node in nodes:
            if where == "group":
                if select.group is None:
                    select.group = []
                    select.rollup = False
                if select.rollup:
                    plant_key(ch, select.group[0].items, node)
                else:
                    plant_key(ch, select.group, node)
            else:
                select.order = select.order or []
                plant_key(ch, select.order, A.OrderItem(node, ch.pick(("", "asc", "desc"))))
        return self.finish(
            ch, tree, where=where, wrong=wrong, why="{} BY positions {} of {} items".format(where.upper(), wrong or pos, n)
        )

    def check(self, case):
        if not case["wrong"]:
            expect_valid(case)
        for pos in case["wrong"]:
            expect_error(case, r"(?i)\b{}\b.*(?<!\d){}(?!\d)".format(case["where"], pos))


# -- C13 -------------------------------------------------------------------------------------------------------------


def neg(text):
    return A.Operands([("", ["-"], A.Tok("num", text))])


def num(n):
    return A.Tok("num", str(n))


class Limits(ScopedLeg):
    name = "limits"
    quick = 32000
    thorough = 300000
    open_percent = (20, 60, 90)

    def argument(self, ch, g):
        """(node, is it an acceptable argument)"""
        kind = ch.weighted(
            ((6, "int"), (2, "big"), (1, "zero"), (3, "neg"), (2, "decimal"), (2, "string"), (2, "column"),
             (2, "chain"), (2, "arith"), (2, "call"), (2, "list"), (1, "bool"), (1, "case"))
        )  # fmt: skip
        if kind == "int":
            return num(ch.below(100000)), True
        if kind == "big":
            return num(10 ** ch.between(9, 40) + ch.below(100)), True
        if kind == "zero":
            return num(ch.pick(("0", "00", "007"))), True
        if kind == "neg":
            return neg(str(ch.between(1, 10000))), False
        if kind == "decimal":
            return num(ch.pick(("1.5", "0.5", "10.0", "3.14159"))), False
        if kind == "string":
            return A.Tok("q", ch.pick(("'5'", "'abc'", "''"))), False
        if kind == "column":
            return A.Tok("id", ch.pick(("x", "a", "n", "my_limit"))), False
        if kind == "chain":
            return A.Chain([A.Tok("id", "t"), A.Tok("id", ch.pick(("x", "n")))]), False
        if kind == "arith":
            ops = [("", [], num(ch.below(9))), (ch.pick("+-*/"), [], num(ch.between(1, 9)))]
            if ch.below(2):
                ops.append((ch.pick("+-*"), [], num(ch.below(9))))
            return A.Operands(ops), False
        if kind == "call":
            return A.Fn(ch.pick(("f", "abs", "max")), [num(ch.below(9)) for _ in range(ch.below(3))]), False
        if kind == "bool":
            return A.Tok("kw", ch.pick(("true", "false"))), False
        if kind == "case":
            return A.Case(None, [(A.Tok("kw", "true"), num(1))], num(2)), False
        return A.Paren([num(ch.below(9)) for _ in range(ch.between(2, 3))]), False

    def gen(self, ch, tier):
        g, tree = self.make(ch)
        select = ch.pick(g.whole_queries())
        node, ok = self.argument(ch, g)
        text = " ".join(t for _, t in node.tokens())
        for _ in range(ch.weighted(((6, 0), (2, 1), (1, 2)))):
            node = A.Paren([node])
        where = ch.pick(("limit", "offset"))
        if where == "limit" and ok and ch.below(6) == 5:
            node = A.Tok("kw", "all")
        setattr(select, where, node)
        return self.finish(ch, tree, where=where, ok=ok, why="{} {}".format(where.upper(), text))

    def check(self, case):
        if case["ok"]:
            expect_valid(case)
        else:
            expect_error(case, r"(?i)\b{}\b".format(case["where"]))


# -- C14 -------------------------------------------------------------------------------------------------------------


class Conditions(ScopedLeg):
    name = "conditions"
    quick = 36000
    thorough = 400000
    open_percent = (10, 40, 80)
    star_chance = 0

    def non_boolean(self, ch, g, scopes):
        """(node, type in the message)"""
        kind = ch.below(6)
        if kind >= 4 and scopes:
            scope = scopes[-1]
            found = [
                (None, n, t) for n, t in scope.unqualified() if t in ("num", "str") and n.isidentifier()
            ] + [c for c in scope.qualified() if c[2] in ("num", "str") and c[1].isidentifier()]
            if scope.node is not None:
                outputs = {n for n, _ in g.outputs(scope.node)}
                found = [c for c in found if c[1] not in outputs]
            # names of types can stand for the type in an argument
            found = [c for c in found if c[1].lower() not in ("int", "float", "day", "month", "timestamp", "int64", "string", "date")]
            if found:
                alias, name, t = ch.pick(found)
                leaf = A.Tok("id", name)
                return (A.Chain([A.Tok("id", alias), leaf]) if alias else leaf), t
        if kind in (1, 5):
            return A.Tok("q", ch.pick(("'abc'", "'true'", "''", "'a and b'"))), "str"
        if kind == 2:
            return A.Operands([("", [], num(ch.below(9))), (ch.pick("+-*/%"), [], num(ch.between(1, 9)))]), "num"
        if kind == 3:
            return num(ch.pick(("1.5", "0.0"))), "num"
        return num(ch.below(10)), "num"

    def positions(self, g, tree):
        """(container, key, scopes or None, construct)"""
        out = []
        scopes_of = {id(s): scopes for s, scopes in g.selects}

        def visit(obj, scopes):
            if isinstance(obj, A.Select):
                inner = scopes_of[id(obj)]
                visit(obj.source, None)
                for slot in ("distinct_on", "items", "where", "group", "having", "order"):
                    if slot in ("where", "having") and getattr(obj, slot) is not None:
                        if not isinstance(getattr(obj, slot), A.Bool):
                            out.append((obj, slot, inner, slot.upper()))
                    visit(getattr(obj, slot), inner)
            elif isinstance(obj, A.Unnest):
                return
            elif isinstance(obj, A.Node):
                if isinstance(obj, A.Bool):
                    for i in range(len(obj.items)):
                        ops = {obj.items[k][0].upper() for k in (i, i + 1) if 0 < k < len(obj.items)}
                        out.append((obj.items, i, scopes, "|".join(sorted(ops))))
                for slot in obj.__slots__:
                    visit(getattr(obj, slot, None), scopes)
            elif isinstance(obj, (list, tuple)):
                for item in obj:
                    visit(item, scopes)

        visit(tree, None)
        return out

    def gen(self, ch, tier):
        g, tree = self.make(ch)
        places = self.positions(g, tree)
        if not places:
            return None
        box, key, scopes, construct = ch.pick(places)
        node, t = self.non_boolean(ch, g, scopes)
        for _ in range(ch.weighted(((6, 0), (2, 1), (1, 2)))):
            node = A.Paren([node])
        text = " ".join(w for _, w in node.tokens())
        if isinstance(box, A.Select):
            setattr(box, key, node)
        else:
            box[key] = (box[key][0], node)
        second = None
        others = [p for p in places if p[0] is box and p[1] != key and isinstance(box, list)]
        if others and ch.below(3) == 0:  # each operand is reported
            _, key, scopes, second = ch.pick(others)
            other = A.Tok("q", "'x'") if t != "str" else num(ch.below(10))
            text += " and {}".format(other.text)
            box[key] = (box[key][0], other)
        return self.finish(
            ch, tree, where=construct, type=t, second=second, why="{} is an operand of {}".format(text, construct)
        )

    def check(self, case):
        types = ["str", "int|float"]
        if case["type"] != "str":
            types.reverse()
        for where, t in zip((case["where"], case["second"]), types):
            if where:
                expect_error(case, r"\b({})\b.*boolean.*\b({})\b".format(where, t))


# -- C15 -------------------------------------------------------------------------------------------------------------


class Joins(ScopedLeg):
    name = "joins"
    quick = 32000
    thorough = 300000
    open_percent = (30, 60, 90)

    def make(self, ch):
        g = scopegen.ScopeGen(ch, ch.between(self.min_budget, self.max_budget))
        g.open_percent = ch.pick(self.open_percent)
        g.join_chance = 30
        return g, g.statement()

    def gen(self, ch, tier):
        g, tree = self.make(ch)
        places = [
            (node.items, i)
            for node in scopegen.walk(tree)
            if isinstance(node, A.Join)
            for i, item in enumerate(node.items)
            if item[2]
        ]
        if not places:
            return None
        items, i = ch.pick(places)
        words, node, how, cond = items[i]
        items[i] = (words, node, "", None)
        return self.finish(ch, tree, where=words, why="{} without condition".format(words.upper()))

    def check(self, case):
        expect_error(case, r"(?i)\bjoin\b")


# -- C16 -------------------------------------------------------------------------------------------------------------


class Ambiguous(ScopedLeg):
    name = "ambiguous"
    quick = 36000
    thorough = 300000
    open_percent = (5,)
    pool = ("a", "b", "x", "id")
    star_chance = 0
    min_budget = 20

    def make(self, ch):
        g = scopegen.ScopeGen(ch, ch.between(self.min_budget, self.max_budget))
        g.open_percent = ch.pick(self.open_percent)
        g.pool = self.pool
        g.star_chance = ch.pick((0, 0, 1))
        g.flat_percent = ch.pick((40, 70, 95))
        g.join_chance = 30
        return g, g.statement()

    def gen(self, ch, tier):
        g, tree = self.make(ch)
        places = []
        for leaf, alias, scopes, scope in g.sites:
            own = scopes[-1]
            if any(s.open for s in scopes) or alias is not None:
                continue
            names = own.ambiguous()
            if own.node is not None:
                outputs = {n for n, _ in g.outputs(own.node)}
                names = [n for n in names if n not in outputs]
            # date parts and the like can be keywords in a function call
            names = [n for n in names if n.isidentifier() and n.lower() not in sqlgen.RESERVED]
            if names:
                where = clause_of(own.node, leaf) if own.node is not None else "join condition"
                places.append((leaf, where, names))
        if not places:
            return None
        wanted = ch.pick(sorted({where for _, where, _ in places}))
        leaf, where, names = ch.pick([p for p in places if p[1] == wanted])
        name = ch.pick(names)
        leaf.text = name
        return self.finish(ch, tree, where=where, name=name, why="column {} is ambiguous".format(name))

    def check(self, case):
        expect_error(case, r"(?i)(?<![\w.]){}(?!\w).*ambiguous".format(re.escape(case["name"])))


class AmbiguousNot(Valid):
    name = "qualified"
    open_percent = (5, 15)
    min_budget = 20
    quick = 15000

    def make(self, ch):
        g = scopegen.ScopeGen(ch, ch.between(self.min_budget, self.max_budget))
        g.open_percent = ch.pick(self.open_percent)
        g.pool = ("a", "b", "x", "id")
        g.flat_percent = ch.pick((30, 60, 85))
        g.join_chance = 30
        return g, g.statement()


# -- C17 -------------------------------------------------------------------------------------------------------------


class SameVerdict(Leg):
    """Spelling, respelling and formatted text have the same verdict."""

    name = "spellings"
    quick = 15000
    thorough = 200000
    LEGS = (Valid, MissingColumn, Positions, Limits, Conditions, Joins, Ambiguous)

    def gen(self, ch, tier):
        kind = ch.below(len(self.LEGS) + 2)
        if kind >= len(self.LEGS):
            tree = sqlgen.Gen(ch, ch.between(3, 60)).statement()
            tokens = tree.tokens()
            return {"sql": sqlgen.spell(ch, tokens), "other": sqlgen.spell(ch, tokens), "kind": "any"}
        leg = self.LEGS[kind]()
        spelled = []

        def finish(ch, tree, **more):
            tokens = tree.tokens()
            spelled.append({"sql": sqlgen.spell(ch, tokens), "other": sqlgen.spell(ch, tokens), "kind": leg.name})
            return spelled[0]

        leg.finish = finish
        return leg.gen(ch, tier)

    def key(self, case):
        return case["sql"]

    def nontrivial(self, case):
        return len(case["sql"]) > 40 and case["sql"] != case["other"]

    def sample(self, case):
        return {k: v[: pf.SAMPLE] for k, v in case.items()}

    def labels(self, case):
        return ["from " + case["kind"]]

    def check(self, case):
        first = sut.verdict(case["sql"])
        self.observed = ["valid" if first[0] else "invalid"]
        second = sut.verdict(case["other"])
        if first != second:
            raise Violation("{} but {}\n{}\n--\n{}".format(first, second, case["sql"], case["other"]))
        formatted = sut.fmt(case["sql"])
        third = sut.verdict(formatted)
        if first != third:
            raise Violation("{} but formatted {}\n{}\n--\n{}".format(first, third, case["sql"], formatted))


# -- C18 -------------------------------------------------------------------------------------------------------------


class Answers(pf.QueryLeg):
    name = "answers"
    quick = 36000
    thorough = 400000

    def case(self, ch, tree, tokens):
        return {"sql": sqlgen.spell(ch, tokens), "tokens": [list(t) for t in tokens]}

    def check(self, case):
        valid, _ = sut.verdict(case["sql"])
        self.observed = ["valid" if valid else "invalid"]


class Refused(pf.QueryLeg):
    """Statements that are none, or lack a word that cannot be missing, are not valid."""

    name = "refused"
    quick = 5000
    thorough = 150000
    max_budget = 40

    FIRST = ("delete", "insert", "update", "create", "explain", "table", "values", "selects", "a", "'select'", "1", "*", ",", "from")

    def case(self, ch, tree, tokens):
        tokens = [tuple(t) for t in tokens]
        words = [t.lower() for _, t in tokens]
        faults = [("first word", 0)]
        closing = [i for i, t in enumerate(tokens) if t == ("op", ")")]
        if closing and not ch.below(6):
            del tokens[ch.pick(closing)]
            return {"sql": sqlgen.spell(ch, tokens), "fault": "closing", "tokens": [list(t) for t in tokens]}
        for i, (kind, text) in enumerate(tokens):
            if kind != "kw":
                continue
            if words[i] == "by":
                faults.append(("by", i))
            elif words[i] == "end" or words[i] == "nulls" and words[i - 1] not in ("ignore", "respect"):
                faults.append((words[i], i))
            elif words[i] == "over" and words[i + 1 : i + 2] == ["("]:
                faults.append(("over", i))
            elif words[i] in ("except", "replace") and words[i - 1] == "*" and words[i + 1 : i + 2] == ["("]:
                faults.append(("star", i))
                depth = 0
                for j in range(i + 1, len(tokens)):
                    depth += (words[j] in ("(", "[")) - (words[j] in (")", "]"))
                    if depth == 1 and words[i] == "replace" and words[j] == "as" and tokens[j][0] == "kw":
                        faults.append(("as", j))
                        break
                    if not depth:
                        break
            elif words[i] in ("limit", "offset", "order", "group") and words[i - 1] != "with" and words[i + 1 : i + 2] != ["("]:
                faults.append(("twice", i))
            elif words[i] == "between" and words[i - 1] not in ("rows", "range"):
                depth = 0
                for j in range(i + 1, len(tokens)):
                    depth += (words[j] in ("(", "[", "case")) - (words[j] in (")", "]", "end"))
                    if depth == 0 and words[j] == "and" and tokens[j][0] == "kw":
                        faults.append(("and", j))
                        break
        if not ch.below(8):
            return self.early_clause(ch, tokens)
        what, at = ch.pick(faults[1:] if len(faults) > 1 and ch.below(8) else faults)
        if what in ("by", "end", "as"):
            del tokens[at]
        elif what in ("over", "star"):
            del tokens[at + 1]
        elif what == "nulls":
            tokens[at + 1 : at + 2] = ch.pick(([], [("id", "xyz")], [("kw", "null")], [("kw", "by")]))
        elif what == "twice":
            tokens[at:at] = [tokens[at]]
        elif what == "and":
            tokens[at] = ("kw", "or")
        else:
            word = ch.pick(self.FIRST)
            tokens[0] = ("kw" if word.isalpha() else "op", word)
        return {"sql": sqlgen.spell(ch, tokens), "fault": what, "tokens": [list(t) for t in tokens]}

    @staticmethod
    def early_clause(ch, tokens):
        """ORDER BY, LIMIT or OFFSET before a set operator."""
        first = [("kw", "select"), ("id", "a"), ("kw", "from"), ("id", "t")]
        if ch.below(2):
            first += [("kw", "where"), ("id", "a")]
        clauses = ([("kw", "order"), ("kw", "by"), ("id", "a")], [("kw", "limit"), ("num", "3")], [("kw", "offset"), ("num", "1")])
        kept = [c for c in clauses if ch.below(2)] or [ch.pick(clauses)]
        first += [t for c in kept for t in c]
        first += [("kw", w) for w in ch.pick(sqlgen.SELECT_SETOPS).split()]
        if tokens[0][1].lower() == "with":
            tokens = [("kw", "select"), ("num", "1")]
        tokens = [t for t in first + tokens if t[1] != ";"]
        kind = ch.below(4)
        if kind == 0:
            tokens = [("kw", "select"), ("op", "*"), ("kw", "from"), ("op", "(")] + tokens + [("op", ")"), ("kw", "as"), ("id", "s")]
        elif kind == 1:
            tokens = [("kw", "select"), ("op", "(")] + tokens + [("op", ")")]
        return {"sql": sqlgen.spell(ch, tokens), "fault": "set operator", "tokens": [list(t) for t in tokens]}

    def labels(self, case):
        return {case["fault"]}

    def check(self, case):
        query = sut.sqlvalidator.parse(case["sql"])
        try:
            valid = query.is_valid()
        except Exception as e:  # may also raise
            self.observed = ["raised"]
            return
        if valid is not False:
            raise Violation("a statement with a fault ({}) is reported valid\n{}".format(case["fault"], case["sql"]))
        if not (isinstance(query.errors, list) and query.errors and all(isinstance(e, str) for e in query.errors)):
            raise Violation("invalid, but errors is {!r}\n{}".format(query.errors, case["sql"]))
        self.observed = ["invalid"]


class ScopedAnswers(SameVerdict):
    """Also for queries with a fault."""

    name = "answers for faulty queries"
    quick = 12000
    thorough = 200000

    def check(self, case):
        valid, _ = sut.verdict(case["other"])
        self.observed = ["valid" if valid else "invalid"]


class CorpusAnswers(Leg):
    name = "corpus"
    quick = thorough = 1

    def exhaustive(self, tier):
        for sql in pf.corpus():
            yield {"sql": sql}

    def check(self, case):
        kind, _ = sut.try_fmt(case["sql"])
        if kind == "ok":
            sut.verdict(case["sql"])

"""Which legs decide which property."""
from lib import props_embed as pe
from lib import props_files as pl
from lib import props_format as pf
from lib import props_history as ph
from lib import props_sqlite as ps
from lib import props_validate as pv
from lib import props_work as pw

LEGS = {
    "C01": [pf.Tokens, pf.CorpusTokens, ps.SameProgram],
    "C02": [pf.Verbatim, pf.Perturbed],
    "C03": [pf.Idempotent, pf.IdempotentLiterals, pf.IdempotentSoup, pf.CorpusIdempotent],
    "C04": [pf.Respelled, pf.RespelledSoup, pf.CorpusRespelled],
    "C05": [pf.Canonical, pf.CanonicalEdge],
    "C06": [pf.Casing],
    "C07": [pf.Soup, pf.CharSoup],
    "C08": [pw.EveryNest, pw.EveryList, pw.GeneratedNest, pw.Work],
    "C09": [ph.Histories, ph.Threads, ph.HashSeeds],
    "C10": [pv.MissingColumn, pv.MissingAlias, pv.MissingInUsing, ps.MissingForSqlite],
    "C11": [pv.Valid, ps.AcceptedBySqlite],
    "C12": [pv.Positions],
    "C13": [pv.Limits],
    "C14": [pv.Conditions, pv.BooleanConditions],
    "C15": [pv.Joins, pv.JoinsWithCondition],
    "C16": [pv.Ambiguous, pv.AmbiguousNot, ps.AmbiguousForSqlite],
    "C17": [pv.SameVerdict],
    "C20": [pl.OnlySql],
    "C21": [pl.Values],
    "C22": [pl.CheckThenFormat, pl.CheckNeverWrites],
    "C23": [pl.Converge],
    "C24": [pl.Marks],
    "C25": [pl.Inputs],
    "C26": [pl.Faults, pl.Locked],
    "C27": [pl.Validate],
    "C28": [pe.Formatted, pe.Judged, pe.Together],
    "C29": [pe.RenamedLayout, pe.RenamedVerdict, pe.LiteralVerdict],
    "C30": [pl.Flags],
    "C18": [pv.Answers, pv.Refused, pv.ScopedAnswers, pv.CorpusAnswers],
}

# The quick tier affords this many times the cases its legs name
MORE = {
    "C01": 2, "C02": 3, "C03": 2, "C04": 2, "C05": 3, "C06": 3, "C07": 3, "C12": 2, "C13": 2, "C17": 1.5, "C18": 2, "C20": 3, "C21": 3,
    "C22": 3, "C23": 2.5, "C24": 2.5, "C25": 2.5, "C26": 2, "C27": 2.5, "C28": 1.5, "C29": 2,
}  # fmt: skip


def legs(prop):
    out = []
    for cls in LEGS[prop]:
        leg = cls()
        leg.prop = prop
        leg.quick = int(leg.quick * MORE.get(prop, 1))
        out.append(leg)
    return out

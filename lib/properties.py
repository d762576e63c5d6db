"""How each property is decided."""
import calendar
import json
from datetime import datetime, timedelta, timezone

import gen
import impl
import model
import traces
from replay import Replayer

CHECKS = {}
PROGRAM = ["ctp", "dfp", "dow", "cdp", "mme", "tlp", "mnp", "tap", "txp", "iso", "hol", "wxp"]


def check(prop):
    def register(f):
        CHECKS[prop] = f
        return f
    return register


def config(spec, invariants, deep=False, constants=(), properties=()):
    lines = ["SPECIFICATION " + spec, "CONSTANTS"] + ["  " + c for c in constants]
    lines += ["  Deep = %s" % ("TRUE" if deep else "FALSE")]
    lines += ["INVARIANTS"] + ["  " + i for i in invariants]
    if properties:
        lines += ["PROPERTIES"] + ["  " + i for i in properties]
    return "\n".join(lines) + "\nCHECK_DEADLOCK FALSE\n"


DOCS = ["Texts <- MyTexts", "Parsers <- MyParsers", "RefsOf <- MyRefs"]
NONE = ["Texts <- NoTexts", "Parsers <- NoParsers", "RefsOf <- NoRefs"]
PLANS = NONE + ["Plans <- MyPlans", "Make <- MyMake"]


def real(r):
    """does a result consist of dates that exist?"""
    def possible(p):
        y, m, d, _, h, mi, s, _ = (c[1] for c in p)
        return (1400 <= y <= 9999 and 1 <= m <= 12 and 1 <= d <= calendar.monthrange(y, m)[1] and 0 <= mi <= 59 and 0 <= s <= 59
                and (0 <= h <= 23 or (h == 24 and mi == 0 and s == 0)))
    return possible(r[4]) and (r[3] != 1 or possible(r[5]))


def explore(report, name, cfg, differs, case_of, **kw):
    """Lets TLC explore, and replays each behaviour it prints."""
    rep = Replayer(report, name, differs, keep=kw.pop("keep", False))

    def line(x):
        c = case_of(x)
        if c is not None:
            rep.add(c)

    run = model.tlc(name, cfg, line, **kw)
    rep.close()
    report.ran(name, run, rep.n)
    if rep.n == 0:
        raise model.ModelError(name + " printed no behaviour")
    return rep


# ---- the parsers (P03 - P14, P22) -------------------------------------------
def parse_case(x):
    parser, doc, ref, results = x
    return impl.request("P", parser, impl.stamp(ref), doc), results, gen.lower(doc)


def parse_difference(case, answer):
    if "error" in answer:
        return "the code failed: " + answer["error"]
    if answer["r"] != case[1]:
        return "results differ"
    if answer["t"] != case[2]:
        return "the text is left as " + repr(answer["t"])
    if answer["u"] != 1:
        return "the reference instant was changed"
    return None


def parser_check(prop, parsers, *invariants):
    @check(prop)
    def run(report):
        explore(report, "MC_" + prop, config("ParserSpec", ["Emit", "SpansOrdered", "OnlyRealDates"] + list(invariants), report.deep, DOCS),
                parse_difference, parse_case)
        for salt in range(8 if report.deep else 1):
            traces.parser_sessions(report, parsers, parsers, 24000 if report.deep else 6000, salt=salt)


parser_check("P04", ["cdp"], "CasualDates")
parser_check("P05", ["ctp"], "CasualTimes")
parser_check("P06", ["dow"], "WeekdaysRight")
parser_check("P07", ["dfp"], "Forward", "NothingSure")
parser_check("P08", ["tap", "tlp"], "Forward", "Backward", "DateUnitsHaveNoClock")
parser_check("P09", ["rel"], "Periods")
parser_check("P10", ["wxp"], "WholeWeeks", "NothingSure")
parser_check("P11", ["iso"], "IsoExact")
parser_check("P12", ["mme", "mnp"], "NearestYears")
parser_check("P13", ["txp"], "ClockTimes")
parser_check("P14", ["hol"], "Holidays")


def span_difference(case, answer):
    if "error" in answer:
        return "the code failed: " + answer["error"]
    if [r[:2] for r in answer["r"]] != [r[:2] for r in case[1]]:
        return "expressions differ"
    if answer["t"] != case[2]:
        return "the text is left as " + repr(answer["t"])
    return None


def surroundings(report, kept):
    """What the specification gives the same meaning wherever it is, the code must too."""
    meant, differ = {}, 0
    for case, answer in kept:
        if "error" in answer or len(answer["r"]) != len(case[1]):
            continue
        head = case[0].split("\t", 3)[:3]
        for m, r in zip(case[1], answer["r"]):
            words = case[2][m[0]:m[0] + m[1]]
            key = (head[1], head[2], words, json.dumps(m[1:]))
            if key in meant and meant[key][0] != r[1:]:
                differ += 1
                if differ <= 5:
                    report.violation("replay", {"part": "surroundings", "expression": words, "request": case[0], "code": r[1:],
                                                "elsewhere": meant[key][1], "there": meant[key][0],
                                                "difference": "the same expression means something else"})
            meant.setdefault(key, (r[1:], case[0]))
    report.parts.append({"part": "surroundings", "expressions": len(meant)})


@check("P03")
def searching(report):
    """Where the expressions are; and that neither case nor surroundings change what they mean."""
    rep = explore(report, "MC_P03", config("ParserSpec", ["Emit", "SpansOrdered", "OnlyRealDates", "CaseBlind", "Searched"], report.deep, DOCS),
                  span_difference, parse_case, keep=True)
    surroundings(report, rep.keep)
    explore(report, "MC_Far", config("FarSpec", ["FarLaw", "EmitFar"], report.deep, DOCS), span_difference,
            lambda x: (impl.request("P", x[0], impl.stamp(x[4]), x[1] * x[2] + x[3]), x[5], gen.lower(x[1] * x[2] + x[3])))
    # upper and lower case
    pairs = []
    for case, answer in rep.keep:
        doc = case[2]
        parser, ref = case[0].split("\t", 3)[1:3]
        up = gen.upper(doc)
        mixed = "".join(gen.upper(c) if k % 2 else c for k, c in enumerate(doc))
        for other in ([up, mixed] if report.deep else [up]):
            if other != doc and answer.get("r"):
                pairs.append((impl.request("P", parser, ref, other), answer, doc))
    rep2 = Replayer(report, "case", lambda c, a: None if a == c[1] else "upper and lower case differ")
    for c in pairs:
        rep2.add(c)
    rep2.close()
    report.parts.append({"part": "case", "texts": len(pairs)})
    for salt in range(6 if report.deep else 1):
        traces.parser_sessions(report, gen.Gen.KINDS, gen.Gen.KINDS, 8000 if report.deep else 1600, salt=salt, spans=True)


# ---- components and results (P01, P02) --------------------------------------
def last_seen(case, answer):
    if answer.endswith(case[1] + "]"):
        return None
    return "the code failed: " + answer if answer.startswith("{") else "the objects differ from what the calls make of them"


def histories(report, module, spec, loud, quiet, invariants, laws, part):
    """Replays all histories: once looking at the objects after each call, once in the end only."""
    reps = [Replayer(report, module, last_seen, raw=True) for _ in (loud, quiet)]

    def line(x):
        ops, seen = x.split("\t")
        calls = ";".join(" ".join(map(str, op)) for op in json.loads(ops))
        for kind, rep in zip((loud, quiet), reps):
            rep.add((kind + "\t" + calls, seen))

    run = model.tlc(module, config(spec, invariants, report.deep, properties=laws), line, raw=True)
    n = sum(rep.close() for rep in reps)
    report.ran("%s, %s" % (module, part), run, n)
    if n == 0:
        raise model.ModelError(module + " printed no behaviour")


LAWS = ["OnlyItsObject", "CopiesAgree"]


@check("P01")
def components(report):
    inv = ["EmitParts", "LastWins", "PossibleIsDate"]
    for spec, part in (("WideSpec", "all short histories"), ("NarrowSpec", "longer histories of few components"),
                       ("BorderSpec", "border values"), ("DaysSpec", "every day of some years"), ("GivenSpec", "made from known values"),
                       ("ExtremeSpec", "values of every size")):
        histories(report, "MC_P01", spec, "A", "a", inv, LAWS + ["CertainForGood"], part)
    traces.api_sessions(report, "parts", 400 if report.deep else 48, 200)


@check("P02")
def result_values(report):
    for spec, part in (("WideSpec", "all short histories"), ("SharedSpec", "copies and what is done to them"), ("TagsSpec", "every tag"),
                       ("SidesSpec", "every component"), ("EndsSpec", "possible starts and ends"),
                       ("ExtremeSpec", "indices, lengths and values of every size")):
        histories(report, "MC_P02", spec, "H", "h", ["EmitResults"], LAWS if spec != "EndsSpec" else [], part)
    traces.api_sessions(report, "results", 400 if report.deep else 48, 200)


# ---- refining (P15 - P18) ----------------------------------------------------
def refine_difference(case, answer):
    if "error" in answer:
        return "the code failed: " + answer["error"]
    if answer["r"] != case[1]:
        return "the results differ"
    if answer["u"] != 1:
        return "the refiner changed its input"
    return None


def refiner_check(prop, refiner, spec, invariant):
    @check(prop)
    def run(report):
        def case(x):
            text, before, after = x
            return impl.request("R", refiner, text, impl.pack_all(before)), after
        explore(report, "MC_" + prop, config(spec, ["EmitStep", invariant], report.deep, PLANS), refine_difference, case)
        traces.refiner_sessions(report, refiner, 40000 if report.deep else 6000)


refiner_check("P15", "olr", "OverlapSpec", "OverlapGone")
refiner_check("P16", "mdt", "DateTimeSpec", "DateTimesMerged")
refiner_check("P17", "mdr", "RangeSpec", "RangesMerged")
refiner_check("P18", "tza", "ZoneSpec", "ZonesOnly")


# ---- printing (P19) ----------------------------------------------------------
def text_difference(case, answer):
    if isinstance(answer, dict):
        return "the code failed: " + answer["error"] if case[1] or "range" not in answer["error"] else None
    return None if answer.rstrip("\n") == case[1] else "the output differs"


@check("P19")
def printing(report):
    explore(report, "MC_P19", config("PrintSpec", ["EmitPrint", "PrintForm", "PrintPlain"], report.deep, NONE), text_difference,
            lambda x: (impl.request("D", impl.pack(x[0])), x[1]))
    traces.print_sessions(report, 40000 if report.deep else 6000)


# ---- the program (P20) -------------------------------------------------------
def join(found):
    return [r for p in PROGRAM for r in found[p]]


@check("P20")
def program(report):
    other = []

    def case(x):
        doc, ref, raw, answer = x
        return impl.request("F", impl.stamp(ref), doc), raw, answer, (doc, ref)

    def differs(c, a):
        if "error" in a or not isinstance(a["a"], str):
            return None                               # P22
        if join(a["p"]) != c[1]:                      # what the parsers find is not in question here
            if len(other) < 4000:
                other.append((c[3], a))
            return None
        return None if a["a"] == c[2] + "\n" else "the program printed something else"

    explore(report, "MC_P20", config("Spec", ["EmitRun", "SortKeeps", "OverlapGone", "ZonesOnly", "DateTimesMerged", "RangesMerged", "AnswerGiven"],
                                     report.deep, DOCS), differs, case)
    if other:      # explain the answer from what the parsers found
        n = [0]
        size = (len(other) + impl.JOBS - 1) // impl.JOBS
        traces.validate(report, "the program on other findings",
                        [traces.program_events([o[0] for o in other[k:k + size]], [o[1] for o in other[k:k + size]], n)
                         for k in range(0, len(other), size)])
        report.parts.append({"part": "the program on other findings", "texts": n[0]})
    for salt in range(6 if report.deep else 1):
        traces.pipeline_sessions(report, 12000 if report.deep else 2400, salt=salt)
    arguments(report)


NOT_INSTANTS = ["", "tomorrow", "2019-05-15", "2019-13-01 10:00:00", "2019-02-30 10:00:00", "x", "15 May 2019", "0001-01-01 00:00:00", "10000-01-01 00:00:00",
                "2019-00-10 00:00:00", "2019-04-31 00:00:00", "2019-05-32 12:00:00", "not-a-date-time", "-", "::", "5pm", "2019-05", "now", "1399-12-31 23:59:59", "2019-02-29 00:00:00"]
ZONES = [("UTC", 0), ("XST-9", 540), ("YST+5:30", -330), ("ZST-13", 780)]


def arguments(report):
    """How many arguments there are decides what is done, and with one the reference instant is the current local time."""
    events, where = [{"parsers": []}], [None]

    def say(event, what):
        events.append(event)
        where.append(what)

    odd = [[], ["tomorrow", "2019-05-15 13:05:06", "x"], ["a", "b", "c", "d"], ["2014-11-30", "2019-05-15 13:05:06", ""]]
    odd += [[text, r] for r in NOT_INSTANTS for text in ("tomorrow", "2014-11-30", "")]
    said = impl.ask([impl.request("M", *a) for a in odd])
    usage = said[0] if isinstance(said[0], str) and "sage" in said[0] else "Usage"
    for args, got in zip(odd, said):
        text = got if isinstance(got, str) else json.dumps(got)
        say({"event": "usage", "arguments": len(args), "usage": usage, "answer": text, "answers": text.count("Date:") + text.count("[???]")},
            {"arguments": args, "code": got, "specification": usage})

    texts = ["now", "today", "tomorrow at 5pm", "5 minutes ago", "in 2 hours", "this morning", "last friday", "hello", "", "2014-11-30", "next 3 weeks", "may 5",
             "2018-01-09T11:05:06", "2014-11-30 to 2014-12-02", "thanksgiving", "noon"]
    for zone, minutes in ZONES:
        for text in texts:
            begin = datetime.now(timezone.utc).replace(tzinfo=None, microsecond=0)
            got = impl.session([impl.request("M", text)], zone)[0]
            end = datetime.now(timezone.utc).replace(tzinfo=None, microsecond=0)
            if (end - begin).seconds > 60:
                continue                    # the machine was asleep
            refs = [begin + timedelta(minutes=minutes, seconds=k) for k in range((end - begin).seconds + 1)]
            there = [x if isinstance(x, str) else json.dumps(x) for x in impl.session([impl.request("M", text, r.isoformat(sep=" ")) for r in refs])]
            say({"event": "clock", "answer": got if isinstance(got, str) else json.dumps(got), "said": there},
                {"arguments": [text], "zone": zone, "between": [str(refs[0]), str(refs[-1])], "code": got, "specification": there})
    traces.validate(report, "arguments", [(events, where, None)], starts=("clock", "usage"))
    report.parts.append({"part": "arguments", "runs": len(events) - 1})


# ---- no memory (P21) ---------------------------------------------------------
@check("P21")
def memory(report):
    traces.memory_sessions(report)


# ---- several threads (P23) -----------------------------------------------------
@check("P23")
def threads(report):
    traces.threads_sessions(report)


# ---- any text (P22) ----------------------------------------------------------
def junk(report, salt):
    def texts(s):
        j = gen.Junk("%s/%d/%d" % (report.seed, s, salt))
        return [(j.text(), j.g.rim()) for _ in range(1500 if report.deep else 400)]
    return texts


def ordinary(report):
    """junk, and texts as people write them, which have results to refine"""
    def texts(s):
        j = gen.Junk("%s/%d/watched" % (report.seed, s))
        return [(j.g.text(gen.Gen.KINDS) if k % 3 else j.text(), j.g.rim()) for k in range(600 if report.deep else 90)]
    return texts


def real_difference(case, answer):
    if "error" in answer:
        return "the code failed: " + answer["error"]
    if not all(real(r) for r in answer["r"]):
        return "a date that does not exist"
    if [r[:2] for r in answer["r"]] != [r[:2] for r in case[1]]:
        return "other expressions are skipped or reported"
    return None


UNITS = [" ", "5", "a", "-", ".", "0", "\n", "in ", "may ", "5 days ", "last ", "twenty ", "5:", "x ", "(", "9999", "1 ", "t", "a.m. ", "sun ", "to ", "half ",
         "5 minutes ago ", "tomorrow and ", "in 5 days,", "5pm - ", "noon ", "the 5 ", "1:", "2019-", "st", "twenty-", "a few ", "within "]


def long_texts(report):
    """Long texts of few words; some of those of 100000 characters are known to fail (known_findings.txt)."""
    known = [json.loads(x) for x in report.known("input=")]
    cases = [[u, n // len(u)] for u in UNITS for n in ([500, 2000, 4000] if report.deep else [2000])] + known
    answers = impl.ask([impl.request("M", u * n + "x", "2019-05-15 13:05:06") for u, n in cases])
    events, where = [{"parsers": []}], [None]
    for case, out in zip(cases, answers):
        ok = isinstance(out, str) and out.count("\n") == 1 and (out.startswith("Date:\t") or out.startswith("[???]"))
        if not ok and case in known:
            report.finding("the text of %d times %r, then 'x', ends the program: %s" % (case[1], case[0], out))
            continue
        events.append({"event": "long", "ok": 1 if ok else 0})
        where.append({"text": "%r * %d + 'x'" % tuple(case), "code": out, "specification": "an answer"})
    traces.validate(report, "long texts", [(events, where, None)], starts=("long",))
    report.parts.append({"part": "long texts", "texts": len(cases), "known to fail": len(report.findings)})


@check("P22")
def any_text(report):
    rep = explore(report, "MC_P22", config("ParserSpec", ["Emit", "SpansOrdered", "OnlyRealDates"], report.deep, DOCS), real_difference, parse_case,
                  keep=True)
    surroundings(report, rep.keep)
    explore(report, "MC_P22", config("LiveSpec", ["EmitTexts", "AnswerGiven"], report.deep, DOCS, properties=["Answered"]),
            lambda c, a: None if isinstance(a, str) and a.count("\n") == 1 and a.startswith(("Date:\t", "[???]")) else "no answer",
            lambda x: (impl.request("M", x[0], impl.stamp(x[1])), "an answer"))
    long_texts(report)
    for salt in range(8 if report.deep else 1):
        traces.any_text_sessions(report, junk(report, salt), gen.Gen.KINDS)
    # memory is used as it may be used: a misuse ends the program
    if impl.watchable("memory"):
        traces.any_text_sessions(report, ordinary(report), gen.Gen.KINDS, watch="memory")

"""Sessions recorded from the code, and checked against the specification by TLC."""
import concurrent.futures
import json
import os
import tempfile

import gen
import impl
import model

CFG = """SPECIFICATION TraceSpec
CONSTANTS
  Texts <- TraceTexts
  Parsers <- TraceParsers
  RefsOf <- TraceRefs
POSTCONDITION Explained
CHECK_DEADLOCK FALSE
"""


def clamp(x):
    """TLC's integers have 32 bits"""
    if isinstance(x, int):
        return x if abs(x) < 2**31 else -2147483647
    if isinstance(x, list):
        return [clamp(y) for y in x]
    return x


def explain(events, module="Trace", cfg=CFG):
    """How many events of the recorded session the specification explains, and the TLC run."""
    os.makedirs(model.WORK, exist_ok=True)
    fd, path = tempfile.mkstemp(suffix=".ndjson", dir=model.WORK)
    try:
        with os.fdopen(fd, "w") as f:
            for e in events:
                f.write(json.dumps(e) + "\n")
        got = []
        run = model.tlc(module, cfg, got.append, workers=1, heap="2g", env={"TRACE": path})
        if len(got) != 1 or got[0][1] != len(events):
            raise model.ModelError("trace check of %d events printed %r" % (len(events), got))
        return got[0][0], run
    finally:
        os.unlink(path)


def explain_sure(events, starts, module="Trace", cfg=CFG):
    """As explain; a rejected event is tried once more, together with the events from the last start on."""
    n, run = explain(events, module, cfg)
    if n < len(events):
        k = n
        while k > 1 and events[k].get("event") not in starts:
            k -= 1
        m, _ = explain(events[:1] + events[k:n + 1], module, cfg)
        if m == n - k + 2:
            raise model.ModelError("an event was rejected, but accepted when tried again: %r" % events[n])
    return n, run


def validate(report, name, sessions, module="Trace", cfg=CFG, starts=("read", "take", "answered")):
    """sessions: list of (events, where: what to report per event, failed: None or what went wrong meanwhile)"""
    with concurrent.futures.ThreadPoolExecutor(impl.JOBS) as pool:
        checked = list(pool.map(lambda r: explain_sure(r[0], starts, module, cfg), sessions))
    for (events, where, failed), (n, run) in zip(sessions, checked):
        report.states += run.states
        report.transitions += run.transitions
        report.events += n - 1
        report.validated += 1
        if failed:
            report.violation("recorded session", failed)
        if n < len(events):
            report.violation("recorded session", dict(where[n], part=name, event=n, step=events[n].get("event"),
                                                      note="not a behaviour of the specification"))


def spread(count, job, shards=impl.JOBS):
    """The results of job(0), job(1), .."""
    with concurrent.futures.ThreadPoolExecutor(impl.JOBS) as pool:
        return list(pool.map(job, range(shards)))


def parser_sessions(report, kinds, parsers, count, shards=impl.JOBS, salt=0, spans=False, far=9):
    """Random texts made of phrases of these kinds, through these parsers (and one process per session)."""
    texts = [0, 0]

    def one(s):
        g = gen.Gen("%s/%d/%d/%s" % (report.seed, s, salt, "".join(parsers)))
        docs = [(g.crowd(kinds) if k % 60 == 59 else g.text(kinds), g.moment()) for k in range(count // shards)]
        docs = [(g.zero(doc) if k % 30 == 7 else doc, ref) for k, (doc, ref) in enumerate(docs)]
        reqs = [impl.request("P", p, impl.stamp(ref), doc) for doc, ref in docs for p in parsers]
        answers = iter(impl.session(reqs))
        events, where = [{"parsers": parsers}], [None]
        for doc, ref in docs:
            got = {p: next(answers) for p in parsers}
            what = {"text": doc, "ref": impl.stamp(ref), "code": {p: a.get("r", a) for p, a in got.items()}}
            failed = [p for p, a in got.items() if "error" in a]
            if failed:
                return events, where, dict(what, note="the code failed")
            if any(a["u"] != 1 for a in got.values()):
                return events, where, dict(what, note="the reference instant was changed")
            left = {a["t"] for a in got.values()}
            left = left.pop() if len(left) == 1 else repr(sorted(left))
            what["left"] = left
            events += [{"event": "read", "text": doc}, {"event": "scan", "text": left},
                       {"event": "place", "ref": ref[:2], "spans": {p: [r[:2] for r in clamp(a["r"])] for p, a in got.items()}} if spans else
                       {"event": "refer", "ref": ref[:2], "found": {p: clamp(a["r"]) for p, a in got.items()}}]
            where += [what] * 3
            texts[0] += 1
        # far into a long text, and after many expressions
        docs = [(*g.far(kinds, k % 3 == 2), g.text(kinds), g.moment()) for k in range(far)]
        answers = iter(impl.session([impl.request("P", p, impl.stamp(ref), u * n + t) for u, n, t, ref in docs for p in parsers]))
        for unit, n, text, ref in docs:
            got = {p: next(answers) for p in parsers}
            what = {"text": "%r * %d + %r" % (unit, n, text), "ref": impl.stamp(ref), "code": {p: a.get("r", a) for p, a in got.items()}}
            if any("error" in a for a in got.values()):
                return events, where, dict(what, note="the code failed")
            left = all(a["t"] == gen.lower(unit * n + text) and a["u"] == 1 for a in got.values())
            events.append({"event": "far", "unit": unit, "times": n, "text": text, "ref": ref[:2], "left": 1 if left else 0, "spans": 1 if spans else 0,
                           "found": {p: [r[:2] if spans else r for r in clamp(a["r"])] for p, a in got.items()}})
            where.append(what)
            texts[1] += 1
        return events, where, None

    sessions = spread(count, one, shards)
    validate(report, "recorded sessions", sessions, starts=("read", "far"))
    results = sum(len(r) for s in sessions for e in s[0] if e.get("event") in ("refer", "place")
                  for r in e["spans" if spans else "found"].values())
    report.sample({"recorded": sessions[0][1][1]})
    report.parts.append({"part": "recorded sessions " + " ".join(parsers), "sessions": len(sessions),
                         "texts": texts[0], "results": results, "long texts": texts[1]})


def pipeline_sessions(report, count, shards=impl.JOBS, salt=0, far=9):
    """Random texts through the whole program; what its parsers find is taken as it is."""
    texts = [0, 0]

    def one(s):
        g = gen.Gen("%s/%d/%d/pipeline" % (report.seed, s, salt))
        docs = [(g.crowd(g.KINDS[:-1]) if k % 20 == 0 else g.text(g.KINDS[:-1]), g.moment()) for k in range(count // shards)]
        answers = impl.session([impl.request("F", impl.stamp(ref), doc) for doc, ref in docs])
        events, where, failed = program_events(docs, answers, texts)
        # far into a long text, and after many expressions
        for k in range(far):
            unit, n = g.far(g.KINDS[:-1], k % 3 == 2)
            text, ref = g.text(g.KINDS[:-1]), g.moment()
            short, long = impl.session([impl.request("F", impl.stamp(ref), unit * m + text) for m in (3, n)])
            more, what, _ = program_events([(unit * 3 + text, ref)], [short], [0])
            if len(more) == 1 or "error" in long or not isinstance(long["a"], str):
                continue
            events += more[1:] + [{"event": "farrun", "unit": unit, "times": n, "found": {p: clamp(r) for p, r in long["p"].items()},
                                   "answer": long["a"].rstrip("\n")}]
            where += what[1:] + [{"text": "%r * %d + %r" % (unit, n, text), "ref": impl.stamp(ref), "answer": long["a"], "specification": short["a"]}]
            texts[1] += 1
        return events, where, failed

    sessions = spread(count, one, shards)
    validate(report, "recorded runs of the program", sessions)
    report.sample({"recorded": sessions[0][1][1]})
    report.parts.append({"part": "recorded runs of the program", "sessions": len(sessions), "texts": texts[0], "long texts": texts[1]})


def program_events(docs, answers, texts):
    from properties import PROGRAM, real
    events, where = [{"parsers": PROGRAM}], [None]
    for (doc, ref), a in zip(docs, answers):
        if "error" in a or not isinstance(a["a"], str):
            continue                                   # whether there is an answer is another question (P22)
        if not all(real(r) for rs in a["p"].values() for r in rs):
            continue
        what = {"text": doc, "ref": impl.stamp(ref), "parsers": a["p"], "answer": a["a"]}
        more = ([{"event": "take", "text": doc, "ref": ref[:2], "found": {p: clamp(r) for p, r in a["p"].items()}}]
                + [{"event": "step"}] * 5 + [{"event": "print", "answer": a["a"].rstrip("\n")}])
        events += more
        where += [what] * len(more)
        texts[0] += 1
    return events, where, None


def any_text_sessions(report, texts_of, parsers, shards=impl.JOBS, watch=None):
    """Any text at all: it is answered, with dates that exist."""
    n = [0]

    def one(s):
        docs = texts_of(s)
        reqs = [impl.request("P", p, impl.stamp(ref), doc) for doc, ref in docs for p in parsers]
        reqs += [impl.request("M", doc, impl.stamp(ref)) for doc, ref in docs]
        answers = impl.session(reqs, watch=watch)
        parsed, printed = iter(answers[:len(docs) * len(parsers)]), iter(answers[len(docs) * len(parsers):])
        events, where = [{"parsers": parsers}], [None]
        for doc, ref in docs:
            got = {p: next(parsed) for p in parsers}
            out = next(printed)
            ok = isinstance(out, str) and out.count("\n") == 1 and (out.startswith("Date:\t") or out.startswith("[???]"))
            ok = ok and not any("error" in a for a in got.values())
            what = {"text": doc, "ref": impl.stamp(ref), "code": {p: a for p, a in got.items() if a.get("r") != []}, "printed": out}
            events.append({"event": "answered", "text": doc, "ref": ref, "ok": 1 if ok else 0,
                           "found": {p: clamp(a.get("r", [])) for p, a in got.items()}})
            where.append(what)
            n[0] += 1
        return events, where, None

    sessions = spread(0, one, shards)
    validate(report, "any text", sessions)      # (what a watched build does is the same)
    report.sample({"recorded": sessions[0][1][-1]})
    report.parts.append({"part": "any text" + (", memory watched" if watch else ""), "sessions": len(sessions), "texts": n[0]})


API_CFG = """SPECIFICATION TraceSpec
POSTCONDITION Explained
CHECK_DEADLOCK FALSE
"""


def api_sessions(report, on, count, length, salt=0):
    """Random histories of calls on components ('parts') or results ('results')."""
    def one(s):
        g = gen.Api("%s/%d/%d/%s" % (report.seed, s, salt, on))
        histories = [g.parts(length) if on == "parts" else g.results(length) for _ in range(max(1, count // impl.JOBS))]
        kind = "A" if on == "parts" else "H"
        answers = impl.session([impl.request(kind, ";".join(" ".join(map(str, op)) for op in h)) for h in histories])
        events, where = [{"on": "start"}], [None]
        reset = [["reset", k] for k in range(3)]
        for h, a in zip(histories, answers):
            if isinstance(a, dict):
                return events, where, {"history": h, "code": a}
            if len(events) > 1:      # the next history starts with new objects
                for k in range(3):
                    seen = list(events[-1]["seen"])
                    seen[k] = a[0][k]
                    events.append({"on": on, "op": reset[k], "seen": seen})
                    where.append({"note": "new objects"})
            for n, op in enumerate(h):
                events.append({"on": on, "op": op, "seen": clamp(a[n + 1])})
                where.append({"history": h[:n + 1], "code": a[n + 1], "before": a[n]})
        return events, where, None

    sessions = spread(count, one)
    validate(report, "recorded histories", sessions, "ApiTrace", API_CFG, starts=())
    report.sample({"recorded": sessions[0][0][1:4]})
    report.parts.append({"part": "recorded histories", "sessions": len(sessions), "calls": sum(len(s[0]) - 1 for s in sessions)})


def refiner_sessions(report, refiner, count, salt=0):
    """Random lists of results through a refiner."""
    before = {"olr": "sorted", "tza": "disjoint", "mdt": "zoned", "mdr": "timed"}[refiner]

    def one(s):
        g = gen.Lists("%s/%d/%d/%s" % (report.seed, s, salt, refiner))
        given = [g.list(refiner) for _ in range(count // impl.JOBS)]
        answers = impl.session([impl.request("R", refiner, text, impl.pack_all(rs)) for text, rs in given])
        events, where = [{"parsers": []}], [None]
        for (text, rs), a in zip(given, answers):
            what = {"text": text, "given": rs, "code": a.get("r", a)}
            if "error" in a or a["u"] != 1:
                return events, where, dict(what, note="the refiner failed or changed its input")
            events += [{"event": "give", "stage": before, "text": text, "results": rs}, {"event": refiner, "out": clamp(a["r"])}]
            where += [what] * 2
        return events, where, None

    sessions = spread(count, one)
    validate(report, "recorded refinements", sessions, starts=("give",))
    report.sample({"recorded": sessions[0][1][1]})
    report.parts.append({"part": "recorded refinements", "sessions": len(sessions), "lists": sum(len(s[0]) // 2 for s in sessions)})


def print_sessions(report, count, salt=0):
    """Random results, printed."""
    def one(s):
        g = gen.Lists("%s/%d/%d/print" % (report.seed, s, salt))
        given = [g.result(midnight=True) for _ in range(count // impl.JOBS)]
        answers = impl.session([impl.request("D", impl.pack(r)) for r in given])
        events, where = [{"parsers": []}], [None]
        for r, a in zip(given, answers):
            what = {"given": r, "code": a}
            if not isinstance(a, str):
                return events, where, what
            events.append({"event": "show", "result": r, "answer": a})
            where.append(what)
        return events, where, None

    sessions = spread(count, one)
    validate(report, "recorded printing", sessions, starts=("show",))
    report.sample({"recorded": sessions[0][1][1]})
    report.parts.append({"part": "recorded printing", "sessions": len(sessions), "results": sum(len(s[0]) - 1 for s in sessions)})


# ---- no memory ---------------------------------------------------------------
MEMORY_CFG = """SPECIFICATION TraceSpec
CONSTANTS
  Calls <- TraceCalls
  Length = 0
PROPERTIES NoMemory
POSTCONDITION Explained
CHECK_DEADLOCK FALSE
"""

A_REF, B_REF = [226000, 47106], [226222, 600]      # two afternoons of 2018 and 2019, one just after midnight

ALPHABET = {
    "ctp": ["this morning", "noon and night", "evening"], "cdp": ["now", "Tomorrow", "last night"], "dow": ["last friday", "tue next week", "early sun"],
    "dfp": ["in 5 minutes", "within half a year", "in 99999999999 days"], "tap": ["5 days ago", "2 hours 5 min before", "90000 weeks ago"],
    "tlp": ["3 weeks later", "1 year 2 months from now", "half an hour later"], "rel": ["this month", "next 2 days", "past 5 minutes"],
    "wxp": ["last 2 weeks", "next foo weeks", "this week"], "iso": ["2019-02-30", "2018-01-09T11:05:06.789-03:30", "2014-11-30"],
    "mme": ["may 5 - 7, 2019", "feb 30", "Mon, jan 2nd"], "mnp": ["January 2012", "sep", "may 2000 be"], "txp": ["5:30 pm", "10 to 11am", "25:00", "5 - 7"],
    "hol": ["christmas eve", "Labor day", "mlk and xmas"]}
RUNS = ["tomorrow at 5pm", "may 5 to may 7", "5pm EST", "nothing", "last friday 10pm - 2am", "in 2 weeks and 3 days ago", "feb 30 2019", "noon"]


def calls(report):
    """The calls of a session: (request, what identifies the call)."""
    out = []
    for parser, texts in ALPHABET.items():
        for k, text in enumerate(texts):
            for ref in (A_REF, B_REF) if k < 2 else (A_REF,):
                out.append((impl.request("P", parser, impl.stamp(ref), text), ("P", parser, ref, gen.lower(text))))
            if k == 0:
                out.append((impl.request("Q", parser, impl.stamp(A_REF), gen.upper(text)), ("P", parser, A_REF, gen.lower(text))))
    for text in RUNS:
        for ref in (A_REF, B_REF):
            out.append((impl.request("M", text, impl.stamp(ref)), ("M", ref, text)))
    g = gen.Lists("%s/memory" % report.seed)
    for refiner in ("olr", "tza", "mdt", "mdr"):
        for _ in range(4):
            text, rs = g.list(refiner)
            out.append((impl.request("R", refiner, text, impl.pack_all(rs)), ("R", refiner, text, rs)))
    for _ in range(3):
        r = g.result()
        out.append((impl.request("D", impl.pack(r)), ("D", r)))
    return out


def near(g, ref, text):
    """another reference instant that has much in common with this one, or another such text"""
    r = g.r
    day, sec = ref
    c = r.randrange(8)
    if c == 0:
        return g.ref(), text
    if c == 1:
        return [day, r.randint(0, 86399)], text                 # the same day
    if c == 2:
        return [day + r.choice([-7, -1, 1, 7, 30]), sec], text
    if c == 3:                                                  # the same day of another year
        years = r.choice([1, 4, 28, 100, 400])
        return [day + round(years * 365.2425) if day < gen.day(9500, 1, 1) else day - round(years * 365.2425), sec], text
    if c == 4:
        return [day, (sec + r.choice([1, 60, 3600, 43200])) % 86400], text
    digits = [k for k, ch in enumerate(text) if "0" <= ch <= "9"]
    if c == 5 and digits:
        k = r.choice(digits)
        return ref, text[:k] + r.choice("0123456789") + text[k + 1:]
    if c == 6:
        return ref, text + r.choice([" ", "x", " tomorrow", ", 5pm", " at noon", "s"])
    return ref, r.choice(["x ", "on ", " ", "5pm "]) + text


def fraction(r):
    """a fraction of a second makes no difference to what is read, and is left where it is"""
    return [r.choice([".5", ".999999", ".000001", ".25"])] if r.random() < 0.2 else []


def random_calls(seed, count):
    g, lists, api, out = gen.Gen(seed), gen.Lists(seed), gen.Api(seed), []
    for _ in range(count):
        c = g.r.random()
        if c < 0.6:
            p, ref = g.pick(g.KINDS), g.ref() if g.chance(0.7) else A_REF
            text = g.text([p]) if g.chance(0.9) else g.text(g.KINDS)
            out.append((impl.request(g.pick("PPPQ"), p, impl.stamp(ref + fraction(g.r)), text), ("P", p, ref, gen.lower(text))))
            if g.chance(0.3):       # nearly the same call, and the same in lower case
                for other, words in (near(g, ref, text), (ref, gen.lower(text))):
                    out.append((impl.request("P", p, impl.stamp(other + fraction(g.r)), words), ("P", p, other, gen.lower(words))))
        elif c < 0.75:
            text, ref = g.text(g.KINDS), g.ref()
            out.append((impl.request("M", text, impl.stamp(ref + fraction(g.r))), ("M", ref, text)))
        elif c < 0.9:
            refiner = g.pick(["olr", "tza", "mdt", "mdr"])
            text, rs = lists.list(refiner)
            out.append((impl.request("R", refiner, text, impl.pack_all(rs)), ("R", refiner, text, rs)))
        elif c < 0.95:
            r = lists.result()
            out.append((impl.request("D", impl.pack(r)), ("D", r)))
        else:
            kind = g.pick("AH")
            history = api.parts(8) if kind == "A" else api.results(8)
            ops = ";".join(" ".join(map(str, op)) for op in history)
            out.append((impl.request(kind, ops), (kind, ops)))
    return out


# words that denote something of their own each
WORDS = {"hol": gen.HOLIDAYS, "cdp": ["now", "today", "last night", "tomorrow", "yesterday"], "ctp": ["this morning", "this afternoon", "evening"],
         "dow": ["monday", "next sun", "last friday", "this week's wed"], "rel": ["this week", "this year", "next month", "last 3 years", "past hour"],
         "wxp": ["next 5 weeks", "last week"], "mme": ["feb 29", "dec 31", "may 5", "mon, june 3"], "mnp": ["february", "july"], "txp": ["noon", "11pm - 1am"],
         "iso": ["2020-02-29"], "dfp": ["in a month", "in 4 years", "in 30 hours"], "tap": ["1 month ago", "50 years ago"], "tlp": ["1 month later", "13 months later"]}


# texts that each take another way through their parser, many of them rejected at some point of it
PATHS = {
    "ctp": ["morning", "this noon", "afternoon and night", "this evening", "mourning", "goodmorning", "this  night", "thisnoon"],
    "cdp": ["now", "today", "tonight", "tomorrow", "tmr", "yesterday", "last night", "last  night", "nowhere", "today and tomorrow"],
    "dow": ["fri", "last friday", "next sun", "this tue", "tue next week", "early sun", "late last mon", "earlier this wed", "last fri next", "sat last", "late thurs this week",
            "sunny", "this week", "wednesday", "thur next"],
    "dfp": ["in 5 minutes", "in half a year", "in a few days", "in an hour", "in 99999999999 days", "in 9000000 weeks", "in twelve months", "in half a day", "in half a second",
            "within a week", "in 0 days", "in half an hour", "in 2147483647 seconds", "in half a month", "in half a week", "in half a minute", "in 3 years", "in 5", "in foo days"],
    "tap": ["5 days ago", "1 year 2 months 3 weeks 4 days 5 hours 6 minutes 7 seconds ago", "half an hour ago", "a few weeks before", "9000000 weeks ago",
            "5 days 99999999999 hours ago", "0 days ago", "0 hours earlier", "2 hours 5 min before", "within a year ago", "x5 days ago", "half a year ago", "700 years ago", "3 hours later"],
    "tlp": ["5 days later", "1 year 2 months 3 weeks 4 days 5 hours 6 minutes 7 seconds from now", "half an hour out", "a few weeks after", "9000000 weeks later",
            "5 days 99999999999 hours forward", "0 days later", "0 hours henceforth", "2 hours 5 min after", "x5 days later", "half a year out", "9000 years later", "3 hours ago"],
    "rel": ["this week", "this month", "this year", "this day", "this hour", "this 2 weeks", "next half day", "next half week", "last half month", "next half year", "last half hour",
            "past half minute", "next few seconds", "last 99999999999 days", "next 9000000 weeks", "next year", "last month", "past hour", "next 5", "last twelve minutes", "past 0 days",
            "last half day", "next 5 hours"],
    "wxp": ["next foo weeks", "last 2 weeks", "this week", "next week", "last 9000000 weeks", "next 3000000000 weeks", "next twelve weeks", "next 007 weeks", "last few week", "next 0 weeks"],
    "iso": ["2019-02-30", "2019-13-01", "2019-05-15", "2020-2-9", "2019-05-15t25:00", "2019-05-15t12:60z", "2019-05-15t12:30:61z", "2019-05-15t12:30-03:30", "2019-05-15t12:30+0545",
            "2019-05-15t1:2z", "2019-05-15t24:00", "2019-12-31t24:00:01", "0000-01-01", "2019-05-15t12:30:45.1234+00:00", "2019-05-15t12:30:45", "9999-12-31t24:00", "2019-05-15t12:30-00:30"],
    "mme": ["feb 30", "may 5", "may 5, 2019", "may 05, 0019 ad", "may 5, 2562 be", "may 5, 300 bc", "may 5 1999 ad", "may 32", "may 0", "may fifth", "mon, may 6", "tue, feb 30, 2019",
            "may 5 - 7", "may 5 - 40, 2019", "may 5 to eighth, 2020", "dec 31 - 2", "feb 29", "feb 29, 2020", "feb 29 - 30, 2020", "june thirty first", "may 5, 9999", "may 5, 0099", "may 5, 1399",
            "may 5 pm", "may 5:30", "on sun jan 1"],
    "mnp": ["may", "may 2012", "feb 1399", "may 2500 be", "jan 300 bc", "sep. 2001 ad", "may 0000", "in dec", "may 0543 be", "(oct)", "june 2019 bc", "marchx"],
    "txp": ["at 9pm to 25:10", "9am to 3:75", "9pm - 10:30:75", "13pm - 2", "9pm to 13pm", "5:75pm", "25:10", "10:20:75", "12am", "12pm", "noon", "midnight", "noon to 2", "10 - 11", "11pm - 2",
            "12 - 12:30am", "8 - 9pm", "24:00", "2400", "1030 - 1130", "5 o'clock", "10:20:30 - 11:20:30", "9pm to 2500", "10am - 11", "3000000000", "5pm -0500", "10:30", "11:59pm-12:01am",
            "1 to 2am", "from 5.30 pm"],
    "hol": gen.HOLIDAYS}


def paths(seed):
    """Sessions in which every text of a parser comes directly after every other, at one reference instant and at changing ones."""
    r = gen.random.Random(seed)
    out = []
    for parser in sorted(PATHS):
        texts, refs = list(PATHS[parser]), [A_REF, B_REF, gen.Gen(r.random()).ref()]
        r.shuffle(texts)
        for k in range(len(texts)):
            for j in range(k, len(texts)):          # k j, k j+1, ..., k, k+1 (and j after k as well as k after j)
                for text in (texts[k], texts[j]):
                    ref = refs[0] if (k + j) % 3 else r.choice(refs)
                    out.append((impl.request("P", parser, impl.stamp(ref + fraction(r)), text), ("P", parser, ref, gen.lower(text))))
    return out


def families(seed):
    """For every text, the same call at reference instants that agree in some of year, month, day, day of the week, time (or what fits
    in a byte or two of them), one after the other."""
    r = gen.random.Random(seed)
    out = []
    for parser in sorted(WORDS):
        for text in ALPHABET[parser] + WORDS[parser]:
            y, m, d, sec = r.randint(1700, 2300), r.randint(1, 12), r.randint(1, 28), r.randint(0, 86399)
            day = gen.day(y, m, d)
            refs = [[day, sec], [day, sec % 60], [day, (sec + 60) % 86400], [day, (sec + 3600) % 86400], [day, (sec + 43200) % 86400]]
            refs += [[day + k, sec] for k in (1, -1, 7, 28, 256, 1000, 4096, 65536)]
            refs += [[gen.day(y + k, m, d), sec] for k in (1, -1, 4, 10, 28, 100, 128, 256, 400, 1000)]
            refs += [[gen.day(y, k, d), sec] for k in range(1, 13) if k != m]
            r.shuffle(refs)
            for ref in refs + refs[:4]:
                out.append((impl.request("P", parser, impl.stamp(ref + fraction(r)), text), ("P", parser, ref, gen.lower(text))))
    return out


class Interned:
    """Calls and answers as numbers"""

    def __init__(self):
        self.ids = {}

    def __call__(self, x):
        return self.ids.setdefault(json.dumps(x), len(self.ids) + 1)


def memory_events(asked, fresh, answers):
    """asked: list of (request, identity); fresh: what each says when asked alone; answers: what was said in the session"""
    ident, said = Interned(), Interned()
    events, where = [{"calls": 0}], [None]
    for (request, who), a in list(zip(asked, fresh)) + list(zip(asked, answers)):
        kept = 0 if isinstance(a, dict) and a.get("u", 1) != 1 else 1
        events.append({"call": ident(who), "answer": said(a), "kept": kept})
        where.append({"request": request, "code": a})
    events[0]["calls"] = max(1, len(ident.ids))
    return events, where, None


def memory_sessions(report):
    alphabet = calls(report)
    fresh = dict(zip((c[0] for c in alphabet), impl.alone([c[0] for c in alphabet])))

    # every short session, as the specification has them
    few = [c for c in alphabet if c[1][0] != "D"][:: max(1, len(alphabet) // (40 if report.deep else 16))]
    short = []
    run = model.tlc("Session", "SPECIFICATION SessionSpec\nCONSTANTS\n  Calls = {%s}\n  Length = 3\nINVARIANTS EmitSession\nPROPERTIES NoMemory\nCHECK_DEADLOCK FALSE\n"
                    % ", ".join(str(k + 1) for k in range(len(few))), short.append)
    report.ran("Session", run, len(short))
    with concurrent.futures.ThreadPoolExecutor(impl.JOBS) as pool:
        told = list(pool.map(lambda s: impl.session([few[c - 1][0] for c in s]), short))
    sessions = []
    size = (len(short) + impl.JOBS - 1) // impl.JOBS
    for k in range(0, len(short), size):
        asked = [few[c - 1] for s in short[k:k + size] for c in s]
        sessions.append(memory_events(asked, [fresh[r] for r, _ in asked], [a for t in told[k:k + size] for a in t]))

    # long sessions in which every call follows every other
    order = []
    for k in range(len(alphabet)):
        for j in range(len(alphabet)):
            order += [alphabet[k], alphabet[j]]
    for shard in range(2 if not report.deep else impl.JOBS):
        mine = list(order)
        if shard:
            gen.random.Random("%s/%d" % (report.seed, shard)).shuffle(mine)
        sessions.append((mine,))

    # random calls of every kind, each asked alone first, then in sessions, some of them repeatedly
    count = 12000 if report.deep else 2400
    drawn = [c for part in spread(count, lambda s: random_calls("%s/%d/memory" % (report.seed, s), count // impl.JOBS)) for c in part]
    kin = [how("%s/%d/kin" % (report.seed, k)) for k in range(4 if report.deep else 1) for how in (families, paths)]
    alone = list({c[0]: c for c in drawn + [c for f in kin for c in f]})
    for c, a in zip(alone, impl.alone(alone)):
        fresh.setdefault(c, a)
    sessions += [(f,) for f in kin]
    r = gen.random.Random("%s/sessions" % report.seed)
    for s in range(impl.JOBS):
        mine = drawn[s::impl.JOBS]
        kinds = {}
        for c in mine:
            kinds.setdefault("".join(map(str, c[1][:2])) if c[1][0] in "PR" else c[1][0], []).append(c)
        order = [c for k in sorted(kinds) for c in kinds[k]] if s % 2 else mine     # alike calls together, or all mixed
        sessions.append((order + r.sample(mine, len(mine)),))

    def long_session(mine):
        answers = impl.session([r for r, _ in mine])
        return memory_events(mine, [fresh[r] for r, _ in mine], answers)

    with concurrent.futures.ThreadPoolExecutor(impl.JOBS) as pool:
        sessions = list(pool.map(lambda x: x if len(x) == 3 else long_session(x[0]), sessions))
    validate(report, "sessions", sessions, "SessionTrace", MEMORY_CFG, starts=())
    report.sample({"recorded": sessions[-1][0][1:3]})
    report.parts.append({"part": "sessions", "sessions": len(sessions), "calls": sum(len(s[0]) - 1 for s in sessions)})


# ---- several threads ---------------------------------------------------------
THREADS_CFG = """SPECIFICATION TraceSpec
CONSTANTS
  Calls <- TraceCalls
  Threads <- TraceThreads
  Length = 0
INVARIANTS Apart
PROPERTIES NoMemory
POSTCONDITION Explained
CHECK_DEADLOCK FALSE
"""


def at_once(threads, times, requests):
    return "\t".join(["C", str(threads), str(times)] + [r.replace("\t", "\x1f") for r in requests])


def threads_events(threads, plans, fresh):
    """plans: list of (calls, answer of the harness), a call being (request, identity)"""
    ident, said = Interned(), Interned()
    events, where = [{"calls": 0, "threads": threads}], [None]
    asked = {c[0]: c for calls, _ in plans for c in calls}
    for request, who in asked.values():
        events.append({"event": "alone", "call": ident(who), "answer": said(fresh[request])})
        where.append({"request": request, "code": fresh[request]})
    failed = None
    for calls, seen in plans:
        together = [c[0] for c in calls]
        if isinstance(seen, dict):
            failed = {"together": together, "code": seen, "note": "the code failed when called by several threads at once"}
            break
        for e in seen:
            request, who = calls[e["c"]]
            events.append({"event": e["event"], "thread": e["t"], "call": ident(who)})
            if e["event"] == "change":
                events[-1]["object"] = e["object"]
            if e["event"] == "end":
                events[-1]["answer"] = said(e["a"])
            where.append({"request": request, "together": together, "code": e.get("a")})
    events[0]["calls"] = max(1, len(ident.ids))
    return events, where, failed


def threads_sessions(report):
    known = [c for c in calls(report) if c[1][0] != "M"]
    # every way to deal out some calls, as the specification has them
    few = [c for c in known if c[1][0] == "P"][:: 1 if report.deep else 2]
    plans = []
    cfg = ("SPECIFICATION %s\nCONSTANTS\n  Calls = {%s}\n  Threads = {%s}\n  Length = %d\nINVARIANTS Steady Apart %s\nPROPERTIES NoMemory %s\nCHECK_DEADLOCK FALSE\n")
    run = model.tlc("Threads", cfg % ("LiveThreads", "1, 2", "1, 2", 2, "", "AllEnd"), lambda x: None)
    report.ran("Threads, all interleavings", run, 0)
    run = model.tlc("Threads", cfg % ("ThreadsSpec", ", ".join(str(k + 1) for k in range(len(few))), "1, 2", 1, "EmitPlan", ""), plans.append)
    plans = sorted({tuple(c for made in p for c in made) for p in plans})
    report.ran("Threads, all pairs of calls", run, len(plans))
    work = [(2, 6, [few[c - 1] for c in p]) for p in plans]
    # all kinds of calls by many threads
    drawn = [c for c in random_calls("%s/threads" % report.seed, 4000 if report.deep else 800) if c[1][0] != "M"]
    r = gen.random.Random("%s/threads" % report.seed)
    for k in range(0, len(drawn), 40):
        work.append((8, 4, drawn[k:k + 40]))
    for kind in sorted({c[0].split("\t")[1] for c in known + drawn if c[1][0] in "PR"}):     # the same parser or refiner in all threads
        alike = [c for c in known + drawn if c[1][0] in "PR" and c[0].split("\t")[1] == kind]
        for n in range(4):
            work.append((8, 8, [r.choice(alike) for _ in range(16)]))
    asked = {c[0]: c for c in known + drawn + few}
    fresh = dict(zip(asked, impl.alone(list(asked))))
    # what the threads change, as a build that is watched by ThreadSanitizer records it
    watched = []
    kinds = {}
    for c in known + drawn:
        kinds.setdefault(c[0].split("\t")[1] if c[1][0] in "PR" else c[1][0], []).append(c)
    for kind in sorted(kinds) if impl.watchable("threads") else ():
        cs = kinds[kind][:400 if report.deep else 60]
        for k in range(0, len(cs), 20):
            watched.append((4, 1, [c for c in cs[k:k + 20] for _ in range(2)]))       # each by two threads
    shards = impl.JOBS

    def one(s):
        mine, watch = (work[s::shards], None) if s < shards else (watched[s - shards::shards], "threads")
        answers = impl.session([at_once(n, times, [c[0] for c in cs]) for n, times, cs in mine], watch=watch, once=True)
        return threads_events(8, [(cs, a) for (_, _, cs), a in zip(mine, answers)], fresh)

    with concurrent.futures.ThreadPoolExecutor(2) as pool:       # (each runs several threads itself)
        sessions = list(pool.map(one, range(2 * shards)))
    validate(report, "threads", sessions, "ThreadsTrace", THREADS_CFG, starts=())
    report.sample({"recorded": [e for e in sessions[0][0] if e.get("event") != "alone"][1:7]})
    report.parts.append({"part": "threads", "sessions": len(sessions), "plans": len(work), "watched plans": len(watched), "events": sum(len(s[0]) - 1 for s in sessions)})

"""Random texts and reference instants, for the sessions recorded from the code."""
import random
from datetime import date

EPOCH = date(1400, 1, 1)


def day(y, m, d):
    return (date(y, m, d) - EPOCH).days


NUMBER_WORDS = "one two three four five six seven eight nine ten eleven twelve".split()
WEEKDAYS = "sunday sun monday mon tuesday tues tue wednesday wed thursday thurs thur thu friday fri saturday sat".split()
MONTHS = ("jan january jan. feb february feb. mar march mar. apr april apr. may may. jun june jun. jul july jul. aug august aug. "
          "sep sept september sep. sept. oct october oct. nov november nov. dec december dec.").split()
ORDINALS = ("first second third fourth fifth sixth seventh eighth ninth tenth eleventh twelfth thirteenth fourteenth fifteenth sixteenth "
            "seventeenth eighteenth nineteenth twentieth thirtieth").split() + ["twenty first", "twenty-second", "twenty third", "twenty-ninth",
                                                                               "thirty first", "thirty-first"]
HOLIDAYS = ["independence", "president's", "new year's", "new year's eve", "columbus", "mlk", "martin luther king jr", "thanksgiving", "memorial",
            "labor", "veterans", "veteran's", "christmas", "christmas eve", "black friday"]
ZONES = ["est", "PST", "cet", "utc", "gmt", "(IST)", "chst", "xyz", "npt", "nst", "akdt", "zz", "wt", "(jst"]
GLUE = [" ", " ", " ", "  ", ", ", ",", " and ", " to ", " - ", "-", ". ", " at ", " on ", " or ", "; ", "", "\t", " through ", " (", ") ", "/", "'", "\n", " of the "]
NOISE = ["see you", "i'll be there", "meeting", "x", "the", "99", "in", "last", "next", "a", "half", "foo", "to", "maybe", "5", "12:", ":30", "pm", "week", "day",
         "o'clock", "ago", "sun-", "may", "th", "3rd", "100%", "b", "_", "ad", "@"]


# beyond ASCII: every character is a byte
def utf8(s):
    return s.encode("utf-8").decode("latin-1")


COLON, DASH, WAVE = utf8("\uff1a"), utf8("\u2013"), utf8("\u301c")
GLUE += ["\r\n", "\x0b", utf8("\u00a0"), " %s " % utf8("\u2014"), utf8("\u2019"), DASH]
NOISE += [utf8(w) for w in ["caf\u00e9", "\u00fcber", "\u6642", "\U0001f600", "\u00e9", "\uff15"]] + ["\xff", "\x80 ", "\x01", "\x7f"]


def upper(s):
    return "".join(c.upper() if "a" <= c <= "z" else c for c in s)


def lower(s):
    return "".join(c.lower() if "A" <= c <= "Z" else c for c in s)


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def pick(self, xs):
        return self.r.choice(xs)

    def chance(self, p):
        return self.r.random() < p

    def sp(self):
        return " " if self.chance(0.85) else self.pick(["", "  ", "\t", " \n"])

    def ref(self):
        c = self.r.random()
        if c < 0.5:
            d = self.r.randint(day(1950, 1, 1), day(2060, 12, 31))
        elif c < 0.65:
            d = self.r.randint(day(1402, 1, 1), day(9996, 12, 31))
        elif c < 0.68:
            d = self.pick([self.r.randint(day(1401, 1, 1), day(1402, 12, 31)), self.r.randint(day(9996, 1, 1), day(9998, 12, 31)), day(9998, 12, 31), day(1401, 1, 1)])
        else:
            y = self.r.randint(1990, 2030)
            d = self.pick([day(y, 1, 1), day(y, 12, 31), day(y, 2, 28), day(y, 3, 1), day(y, self.r.randint(1, 12), 1) - 1,
                           day(y, self.r.randint(1, 12), 1), day(y - y % 4, 2, 29), day(y, 7, 1), day(y, 7, 2)])
        s = self.pick([0, 1, 59, 60, 3599, 3600, 43199, 43200, 46806, 86399, 86340, 24999, 25200]) if self.chance(0.4) else self.r.randint(0, 86399)
        return [d, s]

    def moment(self):
        """a reference instant, perhaps with a fraction of a second (without effect)"""
        return self.ref() + ([self.pick([".5", ".999999", ".000001"])] if self.chance(0.1) else [])

    def rim(self):
        """at the ends of the calendar, or anywhere"""
        if self.chance(0.9):
            return self.ref()
        return [self.pick([day(1400, 1, 1), day(9999, 12, 31), self.r.randint(0, 400), day(9999, 12, 31) - self.r.randint(0, 400)]), self.ref()[1]]

    def count(self, unit):
        c = self.r.random()
        if c < 0.3:
            return self.pick(NUMBER_WORDS)
        if c < 0.45:
            return self.pick(["a", "an", "a few", "few", "half", "half a", "half an", "an few"])
        if c < 0.85:
            return self.pick(["", "", "", "", "", "", "", "0", "00", "000000000"]) + str(self.r.randint(0, 40))
        top = 2000 if unit.startswith("y") else 25000 if unit.startswith("mo") else 90000 if unit[0] in "dw" else 900000
        if self.chance(0.1):
            return self.pick(["2147483648", "99999999999"])
        if self.chance(0.3):                # any integer: of seconds and minutes all lead somewhere
            return str(self.r.choice([
                2 ** self.r.randint(8, 30) + self.r.randint(-1, 1), 2 ** 31 - self.r.randint(1, 3),
                int(2 ** self.r.uniform(0, 31))]))
        return str(self.r.randint(0, top))

    def zero(self, text):
        """with characters 0, which do not end it"""
        for _ in range(self.r.randint(1, 2)):
            k = self.r.randint(0, len(text))
            text = text[:k] + "\0" + text[k + (1 if self.chance(0.3) else 0):]
        return text

    def unit(self):
        return self.pick("sec second seconds secs min mins minute minutes hour hours hr hrs day days wk week weeks month months yr year years".split())

    def amount(self):
        u = self.unit()
        return self.count(u) + self.sp() + u

    # ---- one phrase of each kind -------------------------------------------
    def ctp(self):
        return self.pick(["", "this ", "this", "that "]) + self.pick(["morning", "noon", "afternoon", "evening", "night"])

    def cdp(self):
        return self.pick(["now", "today", "tonight", "last night", "last  night", "tomorrow", "tmr", "yesterday"])

    def dow(self):
        return (self.pick(["", "", "early ", "earlier ", "late "]) + self.pick(["", "last ", "this ", "next "]) + self.pick(WEEKDAYS) +
                self.pick(["", "", " this week", " last week", " next week", " next", " last", "  this  week"]))

    def dfp(self):
        return self.pick(["in", "within"]) + self.sp() + self.amount()

    def tap(self):
        return self.pick(["", "", "within "]) + self.amounts() + self.sp() + self.pick(["ago", "before", "earlier"])

    def amounts(self):
        return self.sp().join(self.amount() for _ in range(self.pick([1, 1, 1, 2, 2, 3, 4])))

    def tlp(self):
        return self.amounts() + self.sp() + self.pick(["later", "after", "from now", "henceforth", "forward", "out"])

    def rel(self):
        u = self.pick("second seconds min mins minute minutes hour hours day days week weeks month months year years".split())
        c = self.count(u) if self.chance(0.6) else ""
        if len(c) > 6:
            c = "7"
        return self.pick(["this", "next", "last", "past"]) + self.sp() + c + (self.sp() if c else "") + u

    def wxp(self):
        return self.pick(["last", "next", "this"]) + self.sp() + self.pick(
            ["", "", self.pick(NUMBER_WORDS) + " ", self.pick(["", "0"]) + str(self.r.randint(0, 3000)) + " ", "foo ", "thirteen ", "2"]) + self.pick(["week", "weeks"])

    def iso(self):
        r = self.r
        s = "%04d-%s-%s" % (r.randint(1390, 2100), self.pick(["%02d", "%d"]) % r.randint(0, 13), self.pick(["%02d", "%d"]) % r.randint(0, 32))
        if self.chance(0.7):
            s += self.pick("Tt") + "%02d:%02d" % (r.randint(0, 25), r.randint(0, 61))
            if self.chance(0.6):
                s += ":%02d" % r.randint(0, 61)
                if self.chance(0.4):
                    s += ".%d" % r.randint(0, 99999)
            s += self.pick(["", "z", "Z", "+%02d:%02d" % (r.randint(0, 15), r.randint(0, 60)), "-%02d:%02d" % (r.randint(0, 12), r.randint(0, 60)),
                            "-%02d%02d" % (r.randint(0, 12), r.randint(0, 60)), "+%02d" % r.randint(0, 14)])
        return s

    def dayword(self):
        return self.pick([str(self.r.randint(0, 32)), "%02d" % self.r.randint(0, 32), str(self.r.randint(1, 31)) + self.pick(["st", "nd", "rd", "th"]), self.pick(ORDINALS)])

    def mme(self):
        return (self.pick(["", "", self.pick(["", "on "]) + self.pick(WEEKDAYS) + self.pick([" ", ", ", ","])]) + self.pick(MONTHS) +
                self.pick([" ", " ", "-", "/", ", ", ""]) + self.dayword() +
                self.pick(["", "", self.pick([" to ", "-", " - ", "to"]) + self.dayword()]) +
                self.pick(["", "", self.pick([" ", ", ", "-", "/"]) + str(self.r.randint(1390, 2600)) + self.pick(["", "", " be", " ad", " bc"]),
                           " " + self.pick(["%d", "%04d"]) % self.r.randint(0, 999) + self.pick(["", " ad", " ad", " bc"])]))

    def mnp(self):
        return self.pick(["", "in ", "("]) + self.pick(MONTHS) + self.pick(
            ["", "", self.pick([" ", ", ", "-", ""]) + str(self.r.randint(1390, 2600)) + self.pick(["", "", " be", " ad", "bc"])])

    def clock(self):
        r = self.r
        colon = lambda: self.pick([":"] * 12 + [COLON])
        h = self.pick([str(r.randint(0, 25)), str(r.randint(0, 12)), "%02d" % r.randint(0, 24), self.pick(["%d%02d", "%02d%02d"]) % (r.randint(0, 25), r.randint(0, 61)), "noon", "midnight"])
        if self.chance(0.5):
            h += self.pick([colon(), colon(), "."]) + "%02d" % r.randint(0, 61)
            if self.chance(0.3):
                h += colon() + "%02d" % r.randint(0, 61)
                if self.chance(0.3):
                    h += ".%d" % r.randint(0, 9999999)
        if self.chance(0.5):
            h += self.pick(["", " "]) + self.pick(["am", "pm", "a.m.", "p.m.", "a", "p", "AM", "PM", "p.m", "o'clock", "o clock"])
        return h

    def txp(self):
        s = self.pick(["", "", "at ", "from ", "at"]) + self.clock()
        if self.chance(0.4):
            s += self.pick([" - ", "-", " to ", " ~ ", "to ", " ? ", DASH, " %s " % WAVE]) + self.clock()
        if self.chance(0.15):
            s += " " + self.pick(ZONES)
        return s

    def hol(self):
        return self.pick(HOLIDAYS) + self.pick(["", " day", " Day", "  day"])

    def phrase(self, kind):
        s = getattr(self, kind)()
        if self.chance(0.12):
            s = self.pick([upper(s), upper(s[:1]) + s[1:], " ".join(upper(w[:1]) + w[1:] for w in s.split(" "))])
        if self.chance(0.06):      # a slip of the pen
            k = self.r.randrange(len(s))
            s = self.pick([s[:k] + s[k + 1:], s[:k] + self.pick("x 1-.,:atpmsdy") + s[k:], s[:k]])
        return s

    KINDS = ["ctp", "dfp", "dow", "cdp", "mme", "tlp", "mnp", "tap", "txp", "iso", "hol", "wxp", "rel"]

    def text(self, kinds, limit=90):
        parts = []
        for _ in range(self.pick([1, 1, 1, 2, 2, 3])):
            if parts or self.chance(0.2):
                parts.append(self.pick(GLUE))
            c = self.r.random()
            if c < 0.8:
                parts.append(self.phrase(self.pick(kinds)))
            elif c < 0.9:
                parts.append(self.phrase(self.pick(self.KINDS)))
            else:
                parts.append(self.pick(NOISE))
        if self.chance(0.3):
            parts.append(self.pick(GLUE) + self.pick(NOISE))
        if self.chance(0.2):
            parts.insert(0, self.pick(NOISE) + self.pick(GLUE))
        s = "".join(parts)
        return s[:limit]


    def crowd(self, kinds):
        """a text of many expressions"""
        few = [self.phrase(self.pick(kinds)) for _ in range(self.pick([2, 4, 8]))] + ["noon", "x noon", "at noon", "midnight"]
        out = self.pick(few)
        for _ in range(self.r.randint(12, 40)):
            out += self.pick(["; ", ". ", " x ", " , ", " ", " to ", " at "]) + self.pick(few)
        return out


    SILENT = ["zq ", "x, ", "y; ", "meeting notes. ", "the q\n", utf8("\u00e9t "), "- ", "w_ ", "ok! ", "(z) "]

    def far(self, kinds, crowded):
        """a unit, and how often it precedes a text, far beyond what is scanned by the specification"""
        if crowded:
            unit = self.phrase(self.pick(kinds)) + self.pick(["; ", ". q ", " x; ", "! "])
            return unit, self.pick([130, 257, 300, self.r.randint(60, 700)])
        unit = self.pick(self.SILENT)
        reach = self.pick([300, 1100, 5000, 33000, 66000, self.r.randint(100, 80000)])
        return unit, max(4, reach // len(unit))


COMPS = ["year", "month", "mday", "wday", "hour", "min", "sec", "tzoffset"]


class Api:
    """Random histories of calls on components and on results."""

    def __init__(self, seed):
        self.r = random.Random(seed)

    def value(self, comp):
        r = self.r
        if r.random() < 0.25:
            return r.choice([-1, 0, 1, 59, 60, 24, 13, 32, 9999, 10000, -9999])
        return {"year": lambda: r.choice([r.randint(1395, 2100), 2019, 2020, 1900]), "month": lambda: r.randint(0, 13), "mday": lambda: r.randint(0, 32),
                "wday": lambda: r.randint(0, 6), "hour": lambda: r.randint(0, 25), "min": lambda: r.randint(-1, 60), "sec": lambda: r.randint(-1, 60),
                "tzoffset": lambda: r.randint(-840, 840)}[comp]()

    def place(self, most):
        return self.r.randint(0, most) if self.r.random() < 0.9 else self.r.choice([127, 128, 255, 256, 300, 32767, 32768, 65535, 65536, 70000])

    def parts(self, length):
        r, ops = self.r, []
        for _ in range(length):
            k = r.randrange(3)
            c = r.random()
            if c < 0.45:
                comp = r.choice(COMPS)
                ops.append([r.choice(["set", "imply", "imply"]), k, comp, self.value(comp)])
            elif c < 0.75:       # something that may well be a date
                for comp in COMPS[:3] + ([] if r.random() < 0.5 else COMPS[4:7]):
                    ops.append([r.choice(["set", "imply", "imply"]), k, comp, self.value(comp)])
            elif c < 0.95:
                ops.append([r.choice(["assign", "copy"]), k, r.randrange(3)])
            elif c < 0.975:
                ops.append([r.choice(["from", "anchored"]), k, r.randrange(256), r.randint(-3, 30)])
            elif c < 0.98:
                ops.append(["unknown", k])
            else:
                ops.append(["reset", k])
        return ops

    def results(self, length):
        r, ops = self.r, []
        ended, filled = [False] * 3, [False] * 3     # (an end that was not declared is not carried by copies)
        for _ in range(length):
            k = r.randrange(3)
            c = r.random()
            if c < 0.08:
                ops.append(["new", k, self.place(90), self.place(40)])
                ended[k] = filled[k] = False
            elif c < 0.12:
                ops.append(["reset", k])
                ended[k] = filled[k] = False
            elif c < 0.22:
                ops.append(["index", k, self.place(90)])
            elif c < 0.32:
                ops.append(["text", k, self.place(40)])
            elif c < 0.45:
                ops.append(["tag", k, r.randrange(15)])
            elif c < 0.52:
                ops.append(["end", k])
                ended[k] = True
            elif c < 0.8:
                w = r.choice(["start", "end"])
                comps = [r.choice(COMPS)] if r.random() < 0.5 else COMPS[:3]
                for comp in comps:
                    ops.append([r.choice(["set", "imply", "imply"]), k, w, comp, self.value(comp)])
                if w == "end":
                    filled[k] = True
            else:
                j = r.randrange(3)
                if filled[j] and not ended[j]:
                    ops.append(["end", j])
                    ended[j] = True
                ops.append([r.choice(["assign", "copy", "list"]), k, j])
                ended[k], filled[k] = ended[j], filled[j]
        return ops


class Junk:
    """Any text at all."""

    def __init__(self, seed):
        self.g = Gen(seed)
        self.r = self.g.r

    ALPHABETS = ["".join(map(chr, range(32, 127))), "0123456789:.-/ ", "abcdefghijklmnopqrstuvwxyz ", "aeimnoprstuwy ", "0123456789", " \t\n\r\x0b\x0c", "-:+tz0123456789.", "apm. 0123456789:",
                 "()[]{}*+?^$|\\.", "\x01\x7f\x1b ab12", "".join(map(chr, range(1, 256))), COLON + WAVE + DASH + " 05:"]

    def text(self):
        r = self.r
        c = r.random()
        if c < 0.25:
            a = r.choice(self.ALPHABETS)
            return "".join(r.choice(a) for _ in range(r.randint(0, 40)))
        if c < 0.6:      # a phrase, damaged
            s = self.g.text(Gen.KINDS)
            for _ in range(r.randint(1, 4)):
                k = r.randint(0, len(s))
                what = r.random()
                if what < 0.35:
                    s = s[:k] + s[k + 1:]
                elif what < 0.7:
                    s = s[:k] + chr(r.randint(32, 126) if r.random() < 0.8 else r.randint(1, 255)) + s[k:]
                elif what < 0.85:
                    j = r.randint(0, len(s))
                    s = s[:min(j, k)] + s[max(j, k):]
                else:
                    j = r.randint(0, len(s))
                    s = s[:k] + s[j:j + 10] + s[k:]
            return s
        if c < 0.8:      # digits changed
            s = self.g.text(Gen.KINDS)
            return "".join(r.choice("0123456789") if "0" <= ch <= "9" and r.random() < 0.6 else ch for ch in s)
        if c < 0.95:
            return self.g.text(Gen.KINDS)
        return r.choice([" ", "a", "5 ", "in ", "may ", "-", "last "]) * r.randint(1, 60)


class Lists:
    """Random results, and lists of them."""

    def __init__(self, seed):
        self.g = Gen(seed)
        self.r = self.g.r

    TIME_TAG, DATE_TAGS, ZONE_TAG = 1 << 9, [1 << k for k in (1, 2, 3, 4, 5, 6, 7, 8, 10, 11)], 1 << 14

    def parts(self, kind, base, midnight=False):
        """components in the order of COMPS: kind is 'date', 'time' or 'both'"""
        r = self.r
        d = date.fromordinal(EPOCH.toordinal() + base)
        sure = {"date": [r.random() < 0.7] * 3, "time": [False] * 3, "both": [True] * 3}[kind]
        if kind == "date" and r.random() < 0.3:
            sure = [r.random() < 0.5 for _ in range(3)]
        out = [[int(s), v] for s, v in zip(sure, (d.year, d.month, d.day))]
        out.append([int(r.random() < 0.2), r.randint(0, 6)] if r.random() < 0.4 else [0, 0])
        clock = [r.randint(0, 23), r.choice([0, 0, 30, r.randint(0, 59)]), r.choice([0, 0, r.randint(0, 59)])]
        if midnight and r.random() < 0.1:
            clock = [24, 0, 0]
        if kind == "date":
            if r.random() < 0.6:
                clock = [0, 0, 0]
            out += [[0, v] for v in clock]
        else:
            c = r.random()
            sure = [1, 1, 1] if c < 0.4 else [1, 1, 0] if c < 0.85 else [0, 0, 0]
            out += [[s, v] for s, v in zip(sure, clock)]
        z = r.random()
        out.append([1, r.choice([0, 60, -300, 345, -210, r.randint(-840, 840)])] if z < 0.2 else [0, r.randint(-100, 100)] if z < 0.25 else [0, 0])
        return out

    def result(self, at=None, length=None, base=None, midnight=False):
        r = self.r
        if base is None or r.random() < 0.3:
            base = self.g.ref()[0] if r.random() < 0.5 else r.randint(225000, 226500)
        kind = r.choice(["date", "date", "time", "time", "both"])
        tags = (self.TIME_TAG if kind == "time" or r.random() < 0.1 else 0) | (r.choice(self.DATE_TAGS) if kind != "time" or r.random() < 0.1 else 0)
        if r.random() < (0.4 if midnight else 0.05):
            tags |= self.ZONE_TAG
        ranged = int(r.random() < 0.25)
        start = self.parts(kind, base, midnight)
        end = [[0, 0]] * 8
        if ranged:
            end = self.parts(kind, max(800, min(3139000, base + r.choice([0, 0, 0, 1, 7, 30]))), midnight)
        return [r.randint(0, 50) if at is None else at, r.randint(1, 20) if length is None else length, tags, ranged, start, end]

    BETWEEN = [" ", " ", ", ", " to ", "-", " - ", " and ", " at ", "", " or ", " through ", " until ", " the ", " together ", " t ", " (to) ", " TO ".lower()]

    def between(self):
        """what stands between two results: mostly a connective, sometimes much more"""
        if self.r.random() < 0.9:
            return self.g.pick(self.BETWEEN)
        size = self.r.choice([12, 14, 20, 40, 90, 250, 300, 700])
        return "".join(self.g.pick(self.BETWEEN + [" possibly", " zq", "   ", " x" * 9, "\u0009" * 5]) for _ in range(size // 4))[:self.r.randint(size // 2, size)]

    TAILS = ["", "", " est", " pst", " (ist)", " utc.", " xyz", " est at", "est", " a", "  cet", "(gmt)", " chadt ", " hst)", " and so on"]

    def list(self, refiner):
        r = self.r
        n = r.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 9]) if r.random() < 0.98 else r.choice([20, 60, 140, 300])
        base = r.randint(225000, 226500)
        rs, text, at = [], self.g.pick(["", "", "on ", "from ", "xx "]), 0
        scale = 1
        if r.random() < 0.05:        # far into a long text, or long expressions
            if refiner == "olr":
                scale = r.choice([40, 300, 9000])
            else:
                text = "zq " * r.choice([80, 400, 22000])
        at = len(text)
        for k in range(n):
            if refiner == "olr" and r.random() < 0.6:
                at = max(0, at - r.randint(0, 8)) if not rs else max(rs[-1][0], at - r.randint(0, 8))
            length = r.randint(1, 12)
            while len(text) < at:
                text += "x"
            rs.append(self.result(at, length, base))
            text += ("abcdefghijklmnop" * 2)[k % 16:k % 16 + max(0, at + length - len(text))]
            at = max(len(text), at + length)
            if k < n - 1:
                text += self.between()
                at = len(text)
        text += self.g.pick(self.TAILS)
        if scale > 1:
            rs = [[x[0] * scale, x[1] * scale] + x[2:] for x in rs[:9]]
            text = "x" * max([x[0] + x[1] for x in rs] or [0])
        return text, rs

------------------------------- MODULE Patterns -----------------------------
(***************************************************************************)
(* The grammar of every kind of expression (all in lower case: a text is   *)
(* lower-cased before it is searched).  Cap(k, ..) delimits part k, the    *)
(* parts the meaning of an expression depends on.                          *)
(***************************************************************************)
EXTENDS Regex

LOCAL Blanks == Many("s", 0, 99)
LOCAL Blank1 == Many("s", 1, 99)
LOCAL Digits == Many("d", 1, 99)

LOCAL NumberWord ==
  Words(<<"one", "two", "three", "four", "five", "six", "seven", "eight", "nine", "ten", "eleven", "twelve">>)

\* now, today, tonight, last night, tomorrow, tmr, yesterday
CasualDateG == Grammar(
  Cat(<<Cap(1, WB),
        Cap(2, Alt(<<L("now"), L("today"), L("tonight"), Cat(<<L("last"), Blanks, L("night")>>),
                     L("tomorrow"), L("tmr"), L("yesterday")>>)),
        Cap(3, WB)>>), 3)

\* [this] morning | afternoon | evening | noon | night
CasualTimeG == Grammar(
  Cat(<<Cap(1, WB),
        Cap(2, Cat(<<Opt(Cap(3, L("this"))), Blanks,
                     Cap(4, Words(<<"morning", "afternoon", "evening", "noon", "night">>))>>)),
        Cap(5, WB)>>), 5)

LOCAL WeekdayName ==
  Alt(<<Cat(<<L("sun"), Opt(L("day"))>>),
        Cat(<<L("mon"), Opt(L("day"))>>),
        Cat(<<L("tue"), Opt(Cat(<<L("s"), Opt(L("day"))>>))>>),
        Cat(<<L("wed"), Opt(L("nesday"))>>),
        Cat(<<L("thu"), Opt(Cat(<<L("r"), Opt(Cat(<<L("s"), Opt(L("day"))>>))>>))>>),
        Cat(<<L("fri"), Opt(L("day"))>>),
        Cat(<<L("sat"), Opt(L("urday"))>>)>>)

\* [early|earlier|late] [this|last|next] <weekday> [this|last|next [week]]
WeekdayG == Grammar(
  Cat(<<Cap(1, WB),
        Opt(Cat(<<Cap(2, Alt(<<Cat(<<L("earl"), Words(<<"ier", "y">>)>>), L("late")>>)), Blanks>>)),
        Opt(Cat(<<Cap(3, Words(<<"this", "last", "next">>)), Blanks>>)),
        Cap(4, WeekdayName),
        Opt(Cat(<<Blanks, Cap(5, Words(<<"this", "last", "next">>)),
                  Opt(Cat(<<Blanks, Cap(6, L("week"))>>))>>)),
        Cap(7, WB)>>), 7)

\* in|within <amount> <unit>
DeadlineG == Grammar(
  Cat(<<Cap(1, WB),
        Cap(2, Words(<<"within", "in">>)),
        Blank1,
        Cap(3, Alt(<<NumberWord, Digits,
                     Cat(<<L("a"), Opt(L("n")), Opt(Cat(<<Blank1, L("few")>>))>>),
                     Cat(<<L("half"), Opt(Cat(<<Blank1, L("a"), Opt(L("n"))>>))>>)>>)),
        Blank1,
        Cap(4, Alt(<<Cat(<<L("sec"), Opt(L("ond")), Opt(L("s"))>>),
                     Cat(<<L("min"), Opt(L("ute")), Opt(L("s"))>>),
                     Cat(<<L("h"), Opt(L("ou")), L("r"), Opt(L("s"))>>),
                     Cat(<<L("day"), Opt(L("s"))>>),
                     Cat(<<L("w"), Opt(L("ee")), L("k"), Opt(L("s"))>>),
                     Cat(<<L("month"), Opt(L("s"))>>),
                     Cat(<<L("y"), Opt(L("ea")), L("r"), Opt(L("s"))>>)>>)),
        Cap(5, WB)>>), 5)

\* YYYY-MM-DD[Thh:mm[:ss[.mmmm]][Z|+hh[[:]mm]]]
IsoG == Grammar(
  Cat(<<Cap(1, WB),
        Cap(2, Many("d", 4, 4)), L("-"), Cap(3, Many("d", 1, 2)), L("-"), Cap(4, Many("d", 1, 2)),
        Opt(Cat(<<L("t"), Cap(5, Many("d", 1, 2)), L(":"), Cap(6, Many("d", 1, 2)),
                  Opt(Cat(<<L(":"), Cap(7, Many("d", 1, 2)),
                            Opt(Cat(<<L("."), Cap(8, Many("d", 1, 4))>>))>>)),
                  Opt(Alt(<<L("z"),
                            Cat(<<Cap(9, Cat(<<C("PlusDash"), Many("d", 2, 2)>>)),
                                  Opt(L(":")), Opt(Cap(10, Many("d", 2, 2)))>>)>>))>>)),
        Cap(11, WB)>>), 11)

LOCAL OrdinalNames ==
  <<L("first"), L("second"), L("third"), L("fourth"), L("fifth"), L("sixth"), L("seventh"), L("eighth"),
    L("ninth"), L("tenth"), L("eleventh"), L("twelfth"), L("thirteenth"), L("fourteenth"), L("fifteenth"),
    L("sixteenth"), L("seventeenth"), L("eighteenth"), L("nineteenth"), L("twentieth"),
    Cat(<<L("twenty"), C("SpaceDash"),
          Words(<<"first", "second", "third", "fourth", "fifth", "sixth", "seventh", "eighth", "ninth">>)>>),
    L("thirtieth"),
    Cat(<<L("thirty"), C("SpaceDash"), L("first")>>)>>

LOCAL DayOfMonth(g) ==
  Alt(<<Cat(<<Cap(g, Many("d", 1, 2)), Opt(Words(<<"st", "nd", "rd", "th">>))>>)>> \o OrdinalNames)

LOCAL DateSep == Alt(<<L("-"), L("/"), Cat(<<Blanks, Opt(L(",")), Blanks>>)>>)

\* [[on] <weekday>[,]] <month> <day> [to|- <day>] [<year> [era]]
MonthDayG == Grammar(
  Cat(<<Cap(1, WB),
        Opt(Cat(<<Opt(Cat(<<L("on"), ManyLazy("s", 0, 99)>>)),
                  Cap(2, WeekdayName), Blanks, Opt(L(",")), Blanks>>)),
        Cap(3, Alt(<<Cat(<<L("jan"), Opt(Words(<<"uary", ".">>))>>),
                     Cat(<<L("feb"), Opt(Words(<<"ruary", ".">>))>>),
                     Cat(<<L("mar"), Opt(Words(<<"ch", ".">>))>>),
                     Cat(<<L("apr"), Opt(Words(<<"il", ".">>))>>),
                     Cat(<<L("may"), Opt(L("."))>>),
                     Cat(<<L("jun"), Opt(Words(<<"e", ".">>))>>),
                     Cat(<<L("jul"), Opt(Words(<<".", "y">>))>>),
                     Cat(<<L("aug"), Opt(Words(<<"ust", ".">>))>>),
                     Cat(<<L("sep"), Opt(Alt(<<L("."), Cat(<<L("t"), Opt(Words(<<".", "ember">>))>>)>>))>>),
                     Cat(<<L("oct"), Opt(Words(<<"ober", ".">>))>>),
                     Cat(<<L("nov"), Opt(Words(<<".", "ember">>))>>),
                     Cat(<<L("dec"), Opt(Words(<<"ember", ".">>))>>)>>)),
        DateSep,
        Cap(4, DayOfMonth(5)),
        NotAhead(Cat(<<Blanks, Words(<<"am", "pm">>)>>)),
        Opt(Cat(<<Blanks, Words(<<"to", "-">>), Blanks, Cap(6, DayOfMonth(7))>>)),
        Opt(Cat(<<DateSep,
                  Alt(<<Cat(<<Cap(8, Many("d", 4, 4)),
                              Opt(Cat(<<Blanks, Cap(9, Words(<<"be", "ad", "bc">>))>>))>>),
                        Cat(<<Cap(10, Many("d", 1, 4)), Blanks, Cap(11, Words(<<"ad", "bc">>))>>)>>)>>)),
        Cap(12, WB),
        NotAhead(Cat(<<L(":"), C("d")>>))>>), 12)

\* <month> [<year> [era]]
MonthG == Grammar(
  Cat(<<Cap(1, Alt(<<BOL, Cat(<<C("D"), Blank1>>), C("o")>>)),
        Cap(2, Alt(<<Cat(<<L("jan"), Opt(L("."))>>), L("january"),
                     Cat(<<L("feb"), Opt(L("."))>>), L("february"),
                     Cat(<<L("mar"), Opt(L("."))>>), L("march"),
                     Cat(<<L("apr"), Opt(L("."))>>), L("april"),
                     Cat(<<L("may"), Opt(L("."))>>),
                     Cat(<<L("jun"), Opt(L("."))>>), L("june"),
                     Cat(<<L("jul"), Opt(L("."))>>), L("july"),
                     Cat(<<L("aug"), Opt(L("."))>>), L("august"),
                     Cat(<<L("sep"), Opt(L("."))>>), Cat(<<L("sept"), Opt(L("."))>>), L("september"),
                     Cat(<<L("oct"), Opt(L("."))>>), L("october"),
                     Cat(<<L("nov"), Opt(L("."))>>), L("november"),
                     Cat(<<L("dec"), Opt(L("."))>>), L("december")>>)),
        Blanks,
        Opt(Cat(<<Many("CommaDash", 0, 1), Blanks, Cap(3, Many("d", 4, 4)),
                  Opt(Cap(4, Cat(<<Blanks, Words(<<"be", "ad", "bc">>)>>)))>>)),
        Ahead(Alt(<<C("o"), Cat(<<Blank1, C("D")>>), Cat(<<Blank1, EOL>>), EOL>>))>>), 4)

\* this|next|last|past [<amount>] <unit>
RelativeG == Grammar(
  Cat(<<Cap(1, WB),
        Cap(2, Words(<<"this", "next", "last", "past">>)),
        Blanks,
        Opt(Cap(3, Alt(<<NumberWord, Digits, L("few"),
                         Cat(<<L("half"), Opt(Cat(<<Blanks, L("a"), Opt(L("n"))>>))>>)>>))),
        Blanks,
        Cap(4, Alt(<<Cat(<<L("second"), Opt(L("s"))>>),
                     Cat(<<L("min"), Opt(L("ute")), Opt(L("s"))>>),
                     Cat(<<L("hour"), Opt(L("s"))>>),
                     Cat(<<L("day"), Opt(L("s"))>>),
                     Cat(<<L("week"), Opt(L("s"))>>),
                     Cat(<<L("month"), Opt(L("s"))>>),
                     Cat(<<L("year"), Opt(L("s"))>>)>>)),
        Cap(5, WB)>>), 5)

LOCAL UnitName ==
  Alt(<<Cat(<<L("sec"), Opt(Cat(<<L("ond"), Opt(L("s"))>>))>>),
        Cat(<<L("min"), Opt(L("ute")), Opt(L("s"))>>),
        Cat(<<L("hour"), Opt(L("s"))>>),
        Cat(<<L("week"), Opt(L("s"))>>),
        Cat(<<L("day"), Opt(L("s"))>>),
        Cat(<<L("month"), Opt(L("s"))>>),
        Cat(<<L("year"), Opt(L("s"))>>)>>)

LOCAL Amount(halfBlanks) ==
  Alt(<<NumberWord, Digits,
        Cat(<<L("a"), Opt(L("n")), Opt(Cat(<<Blanks, L("few")>>))>>),
        Cat(<<L("half"), Opt(Cat(<<halfBlanks, L("a"), Opt(L("n"))>>))>>)>>)

\* [within] (<amount> <unit>)+ ago|before|earlier
AgoG == Grammar(
  Cat(<<Cap(1, WB),
        Opt(Cat(<<L("within"), Blanks>>)),
        Cap(2, Rep(Cat(<<Cap(3, Amount(Blanks)), Blanks, Cap(4, UnitName), Blanks>>), 1, 99)),
        Words(<<"ago", "before", "earlier">>),
        Cap(5, WB)>>), 5)

\* (<amount> <unit>)+ later|after|from now|henceforth|forward|out
LaterG == Grammar(
  Cat(<<Cap(1, WB),
        Cap(2, Rep(Cat(<<Cap(3, Amount(Blank1)), Blank1, Cap(4, UnitName), Blanks>>), 1, 99)),
        Words(<<"later", "after", "from now", "henceforth", "forward", "out">>),
        Cap(5, WB)>>), 5)

\* one <amount> <unit> of the amounts of an ago or later expression
FragmentG == Grammar(Cat(<<Cap(1, Amount(Blanks)), Blanks, Cap(2, UnitName), Blanks>>), 2)

LOCAL Meridiem ==
  Alt(<<Cat(<<L("a.m"), Opt(L("."))>>),
        Cat(<<L("p.m"), Opt(L("."))>>),
        Cat(<<L("a"), Opt(L("m"))>>),
        Cat(<<L("p"), Opt(L("m"))>>),
        Cat(<<L("o"), Many("W", 0, 99), L("clock")>>)>>)

\* [at|from] <clock time> [to|-|~|? <clock time>]
ClockG == Grammar(
  Cat(<<Cap(1, Alt(<<BOL, C("s"), L("t")>>)),
        OptLazy(Cat(<<Words(<<"at", "from">>), Blanks>>)),
        Cap(2, Alt(<<Many("d", 1, 4), L("noon"), L("midnight")>>)),
        Opt(Cat(<<Words(<<".", ":", FullColon>>), Cap(3, Many("d", 1, 2)),
                  Opt(Cat(<<Words(<<":", FullColon>>), Cap(4, Many("d", 2, 2)),
                            Opt(Cat(<<L("."), Cap(5, Many("d", 1, 6))>>))>>))>>)),
        Opt(Cat(<<Blanks, Cap(6, Meridiem)>>)),
        Ahead(Alt(<<C("W"), EOL>>)),
        Opt(L(" ")),
        Opt(Cap(7, Cat(<<Cap(8, Alt(<<BOL, Blanks>>)),
                         Cap(9, Words(<<"-", EnDash, "~", WaveDash, "to", "?">>)),
                         Blanks,
                         Cap(10, Many("d", 1, 4)),
                         Opt(Cat(<<Words(<<".", ":", FullColon>>), Cap(11, Many("d", 1, 2)),
                                   Opt(Cat(<<Words(<<".", ":", FullColon>>), Cap(12, Many("d", 1, 2)),
                                             Opt(Cat(<<L("."), Cap(13, Many("d", 1, 6))>>))>>))>>)),
                         Opt(Cat(<<Blanks, Cap(14, Meridiem)>>)),
                         Cap(15, WB)>>)))>>), 15)

\* a "to" part that rather is the zone offset of the time before it
OffsetTree == Cat(<<BOL, Blanks, Cap(1, Words(<<"+", "-">>)), Blanks, Many("d", 3, 4)>>)

\* US holidays
HolidayG == Grammar(
  Cat(<<Cap(1, WB),
        Cap(2, Alt(<<L("independence"), L("president's"),
                     Cat(<<L("new"), Blanks, L("year's"), Opt(Cat(<<Blanks, L("eve")>>))>>),
                     L("columbus"), L("mlk"),
                     Cat(<<L("martin"), Blanks, L("luther"), Blanks, L("king"), Blanks,
                           Words(<<"junior", "jr", "jnr">>)>>),
                     L("thanksgiving"), L("memorial"), L("labor"),
                     Cat(<<L("veteran"), Words(<<"s", "'s">>)>>),
                     Cat(<<L("christmas"), Opt(Cat(<<Blanks, L("eve")>>))>>),
                     Cat(<<L("black"), Blanks, L("friday")>>)>>)),
        Opt(Cat(<<Blanks, L("day")>>)),
        Cap(3, WB)>>), 3)

\* last|next [<number>|<word>] week[s], this week
WeekG == Grammar(
  Cat(<<Cap(1, WB),
        Cap(2, Alt(<<Cat(<<Words(<<"last", "next">>), Blank1,
                           Opt(Alt(<<Cap(3, Digits), Cap(4, Many("w", 3, 9))>>)),
                           Blanks, L("week"), Opt(L("s"))>>),
                     Cat(<<L("this"), Blanks, L("week")>>)>>)),
        Cap(5, WB)>>), 5)

\* a zone abbreviation that ends the text
ZoneTree == Cat(<<BOL, Blanks, Opt(L("(")), Cap(1, Many("Alpha", 2, 5)), Opt(L(")")),
                  Ahead(Alt(<<C("W"), EOL>>))>>)

\* what makes two dates a range when it occurs between them
RangeWordG == Grammar(Words(<<"and", "to", "through", "-">>), 0)
=============================================================================

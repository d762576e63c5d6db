-------------------------------- MODULE MC_P13 --------------------------------
EXTENDS MCBase, Guarantees

Hours   == {Num(n) : n \in 0..25} \cup {"00", "09", "noon", "midnight", "99"}
Mers    == {"", "am", "pm", " a.m.", " p.m", " A", "p", " o'clock", "oclock", "a.m", " PM"}
Mins    == {"", ":00", ":05", ":30", ".45", ":59", ":60", ":7", ":30:00", ":30:15", ":30:59", ":30:60", ":30:15.123", ":5:07"}
Joined  == {"0", "100", "101", "130", "930", "959", "960", "1200", "1230", "1259", "1300", "1359", "2300", "2359", "2360", "2400", "2401", "9999", "0930", "0015", "010", "0100", "012", "0130", "0008"}
Leads   == {"", "at ", "from ", "at  ", "@", "by "}
Single  == {h \o m \o x : h \in Hours, m \in Mins, x \in Mers}
Military == {l \o h \o x : l \in Leads, h \in Joined, x \in Mers}
Led     == {l \o h \o m \o x : l \in Leads, h \in {"5", "12", "noon", "13"}, m \in {"", ":30"}, x \in {"", "pm", " am"}}
Start   == {"0", "1", "9", "10", "11", "12", "13", "23", "24", "noon", "midnight"}
Finish  == {"0", "1", "2", "10", "11", "12", "13", "22", "24", "25"}
Range13 == {h \o x \o c \o f \o y : h \in Start, x \in {"", "am", "pm", " a.m."}, c \in {"-", " to ", " - "}, f \in Finish, y \in {"", "am", " pm", "p"}}
RangeMin == {h \o ":" \o m \o x \o c \o f \o ":" \o n \o y : h \in {"9", "11", "12", "23"}, m \in {"00", "45"}, x \in {"", " pm", "am"},
              c \in {" - ", "~", "-"}, f \in {"1", "11", "12", "00"}, n \in {"15", "60", "45"}, y \in {"", "am", "pm"}}
RangeSec == {"8:10:" \o s \o x \o "-8:10:" \o t \o y : s \in {"00", "12", "59", "60"}, t \in {"00", "12", "32", "59", "60"}, x, y \in {"", "pm", " am"}}
Odd13 == {"5pm -0500", "5pm - 500", "5 - 0900", "8:10 - 12:32.5", "at", "noon to 3", "3 to noon", "midnight - 6", "10 am to", "1pm to 2pm to 3pm",
          "10-11-12", "5:30pmx", "5:30 pm,", "2:30 o\"clock", "7 o clock", "7o'clock to 9 o'clock", "9 ? 10", "9?10", "1 2 3", "12 am - 12 am", "12 pm to 12 pm",
          "8:10:12.123456 am", "8:10:12.1234567", "5p.m.-6", "900 to 1700", "1700 - 900", "900am-130pm", "2200 to 130am", "11:59pm-12:01am", "0:00-24:00", "24:00", "24:01",
          "at5", "from 5 to 6", "from5pm", "5:30:10:20", "1.5", "1.5 hours", "12345", "1234 5", "$5", "5%", "3000000000", "07:08:09.1 p.m. - 7:08:10",
          "010:011 - 012:013", "0900 - 0010", "08-09", "09 to 010", "08:08:08 - 09:09:09", "08.09", "at 0100 - 0130", "010pm-011"}
\* separators beyond ASCII, whole and damaged
Beyond13 == {h \o FullColon \o m \o x : h \in {"5", "12", "23", "noon"}, m \in {"30", "60", "05" \o FullColon \o "09", "05:09", "7"}, x \in {"", "pm", " a.m."}}
       \cup {"5:30" \o FullColon \o "15" \o x : x \in {"", ".25", " pm"}}
       \cup {a \o x \o s \o y \o b : a \in {"9", "9:15", "2 pm", "22" \o FullColon \o "05"}, s \in {EnDash, WaveDash, "~", StrOf(<<226>>), StrOf(<<226, 128>>), StrOf(<<226, 128, 148>>)},
                x, y \in {"", " "}, b \in {"11", "11:30 am", "10" \o FullColon \o "15", "1pm" \o EnDash}}
       \cup {"um 5 Uhr", StrOf(<<195, 160>>) \o " 5:30", StrOf(<<195, 160>>) \o "5:30", "5:30" \o StrOf(<<195, 169>>), "5 o" \o StrOf(<<226, 128, 153>>) \o "clock",
              "5" \o StrOf(<<194, 160>>) \o "pm", "5" \o StrOf(<<11>>) \o "pm", StrOf(<<12>>) \o "5\rpm", "noon" \o StrOf(<<239, 188, 140>>), "5" \o StrOf(<<239>>) \o "30"}
\* every hour and minute
EveryMin13 == {Num(h) \o ":" \o Padded(mi) \o x : h \in 0..24, mi \in 0..60, x \in {"", "am", " p.m."}} \cup {Num(h) \o Padded(mi) \o x : h \in 1..24, mi \in 0..60, x \in {"", "pm"}}
EveryRange13 == {Num(h) \o x \o " to " \o Num(k) \o y : h, k \in 0..24, x, y \in {"", "am", "pm"}}
MyTexts == <<Beyond13, EveryMin13, EveryRange13, Single, Military, Led, Range13, RangeMin, RangeSec, Odd13>>
MyRefs(t) == Moments(IF Deep \/ t \in Range13 THEN SomeDays ELSE IF t \in Odd13 \/ ~Ascii(t) THEN KeyDays ELSE {On(2019, 5, 15), On(2019, 12, 31)}, {At(13, 5, 6)})
MyParsers == {"txp"}
===============================================================================

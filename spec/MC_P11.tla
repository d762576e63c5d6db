-------------------------------- MODULE MC_P11 --------------------------------
EXTENDS MCBase, Guarantees

Years  == {"1399", "1400", "1900", "2000", "2019", "2020", "9999"}
Monthn == {"00", "1", "01", "2", "02", "04", "9", "11", "12", "13", "99"}
Daysn  == {"00", "1", "01", "9", "28", "29", "30", "31", "32", "99"}
Dates  == {y \o "-" \o m \o "-" \o d : y \in Years, m \in Monthn, d \in Daysn}
Clocks == {h \o ":" \o m : h \in {"0", "00", "9", "12", "23", "24", "25"}, m \in {"0", "00", "5", "59", "60"}}
Secs11 == {"", ":00", ":7", ":30", ":59", ":60", ":61", ":30.5", ":59.9999", ":24.12345", "."}
Zones11 == {"", "z", "Z", "+00:00", "-00:00", "-00:30", "+00:30", "+05:30", "-03:30", "+0530", "-0800", "+14", "-12", "+5", "+1:30", " z"}
Times  == {d \o "T" \o c \o s \o z : d \in {"2019-12-31"}, c \in Clocks, s \in Secs11, z \in Zones11}
\* every day of some years, every minute of a day, every zone offset
EveryDay == {y \o "-" \o Padded(m) \o "-" \o Padded(d) : y \in {"2019", "2020", "1900", "2000"}, m \in 0..13, d \in 0..32}
EveryMin == {"2019-05-15T" \o Padded(h) \o ":" \o Padded(mi) \o "Z" : h \in 0..25, mi \in 0..61}
EverySec == {"2019-05-15T12:30:" \o Padded(s) \o z : s \in 0..99, z \in {"", "z"}}
EveryOff == {"2019-05-15T12:30" \o s \o Padded(h) \o ":" \o Padded(mi) : s \in {"+", "-"}, h \in 0..15, mi \in 0..61}
MyTexts == <<Dates, Times, EveryDay, EveryMin, EverySec, EveryOff, {d \o "t" \o c : d \in {"2020-02-29", "2019-02-29", "1400-1-1", "9999-12-31"}, c \in Clocks}, {"on 2014-11-30T08:15:30-05:30.", "12014-11-30", "2014-11-301", "2014/11/30", "2014-11-30 08:15", "2014-11-30T8",
                 "2014-11-30T08:15:30.123456-05:30", "2014-11-3 2014-11-04", "(2014-11-30)", "x2014-11-30", "99999-01-01",
                 "2014-11-30t08:15:30-0530z", "2014-13-01 2014-12-01", "2014-11-30t08:15-05:", "0000-00-00", "2014-11-30t24:00:00z"}>>
MyRefs(t) == IF Deep THEN Moments(SomeDays, SomeSecs) ELSE Moments({On(2019, 5, 15)}, {At(13, 5, 6)})
MyParsers == {"iso"}
===============================================================================

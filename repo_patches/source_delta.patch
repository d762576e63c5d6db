From 456a8ee4ab2826dea406b69b6e8fcc49d825e66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 01/51] fix: balance the parentheses of the day-of-week pattern

The pattern could not be compiled, so the parser never matched anything.
---
 src/parsers/en/ENDayOfTheWeekParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENDayOfTheWeekParser.hpp b/src/parsers/en/ENDayOfTheWeekParser.hpp
index 3f314c7..06e3888 100644
--- a/src/parsers/en/ENDayOfTheWeekParser.hpp
+++ b/src/parsers/en/ENDayOfTheWeekParser.hpp
@@ -23,10 +23,10 @@
             static const std::regex PATTERN {
                 R"((\b))"
                     R"((earl(?:ier|y)|late)?)"
-                        R"((?:\s*(this|last|next)\s*)?))"
+                        R"((?:\s*(this|last|next)\s*)?)"
                             R"((Sun(?:day)?|Mon(?:day)?|Tue(?:s(?:day)?)?|Wed(?:nesday)?|Thu(?:r(?:s(?:day)?)?)?|Fri(?:day)?|Sat(?:urday)?))"
                                 R"((?:\s*(this|last|next)\s*)?(?:(week)\s*)?)"
-                R"((\b)", /* part of pattern (on\s*)?*/
+                R"((\b))", /* part of pattern (on\s*)?*/
             std::regex::icase};
 
             return PATTERN;
-- 
2.43.0


From 7e7043027869de01837e06c6cae95f72e11b7164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 02/51] fix: leave the whitespace after a weekday phrase to the
 next phrase

'friday next week at 5pm' lost its time: the weekday result ended one
character into ' at 5pm' and the overlap refiner dropped the latter.
---
 src/parsers/en/ENDayOfTheWeekParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENDayOfTheWeekParser.hpp b/src/parsers/en/ENDayOfTheWeekParser.hpp
index 06e3888..df2f16f 100644
--- a/src/parsers/en/ENDayOfTheWeekParser.hpp
+++ b/src/parsers/en/ENDayOfTheWeekParser.hpp
@@ -25,7 +25,7 @@
                     R"((earl(?:ier|y)|late)?)"
                         R"((?:\s*(this|last|next)\s*)?)"
                             R"((Sun(?:day)?|Mon(?:day)?|Tue(?:s(?:day)?)?|Wed(?:nesday)?|Thu(?:r(?:s(?:day)?)?)?|Fri(?:day)?|Sat(?:urday)?))"
-                                R"((?:\s*(this|last|next)\s*)?(?:(week)\s*)?)"
+                                R"((?:\s*(this|last|next)(?:\s*(week))?)?)"
                 R"((\b))", /* part of pattern (on\s*)?*/
             std::regex::icase};
 
-- 
2.43.0


From 5272ff52872d541a58d8a053bbb9da62a8ea131e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 03/51] fix: leave the whitespace after tomorrow/yesterday to
 the next phrase

'tomorrow at 5pm' and 'tomorrow morning' lost their time: the date result
included the blank that starts the time result, so the overlap refiner
dropped the time.
---
 src/parsers/en/ENCasualDateParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENCasualDateParser.hpp b/src/parsers/en/ENCasualDateParser.hpp
index c51a22b..51b40ef 100644
--- a/src/parsers/en/ENCasualDateParser.hpp
+++ b/src/parsers/en/ENCasualDateParser.hpp
@@ -13,7 +13,7 @@ namespace parser {
         std::regex getPattern() const override {
             static const std::regex PATTERN =
                     std::regex(R"((\b))"
-                               R"((now|today|tonight|last\s*night|(?:tomorrow|tmr|yesterday)\s*)"
+                               R"((now|today|tonight|last\s*night)"
                                R"(|tomorrow|tmr|yesterday))"
                                R"((\b))", std::regex::icase);
             return PATTERN;
-- 
2.43.0


From 587838d648cf4a6dab18cb462490e8a690b6383b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 04/51] fix: match '<n> <unit> ago' again

The pattern asked for a literal backslash before ago/before/earlier, and
the check of the character before the match looked into the matched text
instead of the input (out of range for a match late in the input).
---
 src/parsers/en/ENTimeAgoFormatParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index 22d6a8d..621ff45 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -13,7 +13,7 @@
             static const std::regex PATTERN = std::regex(
                     R"((\b)(?:within\s*)?((?:((?:one|two|three|four|five|six|seven|eight|nine|)"
                     R"(ten|eleven|twelve)|[0-9]+|an?(?:\s*few)?|half(?:\s*an?)?)\s*(sec(?:onds?)?|)"
-                    R"(min(?:ute)?s?|hours?|weeks?|days?|months?|years?)\\s*)+)(?:ago|before|earlier))"
+                    R"(min(?:ute)?s?|hours?|weeks?|days?|months?|years?)\s*)+)(?:ago|before|earlier))"
                     R"((\b))", std::regex::icase);
             return PATTERN;
         }
@@ -24,7 +24,7 @@
             std::string text = match.str(FULL_MATCH);
             parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
 
-            if(match.position(0) > 0 and std::regex_match(text.substr(match.position(0) - 1), std::regex("\\w"))) {
+            if(match.position(0) > 0 and std::regex_match(tx.substr(match.position(0) - 1, 1), std::regex("\\w"))) {
                 return result;
             }
 
-- 
2.43.0


From 405e215c686a105b7a67cd11215e98851a2c3bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 05/51] fix: match '<n> <unit> later' and '<n> <unit> from now'
 again

The pattern asked for a stray quote after the number and a literal
backslash before later/after/from now, and the check of the character
before the match looked into the matched text instead of the input.
---
 src/parsers/en/ENTimeLaterParser.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parsers/en/ENTimeLaterParser.hpp b/src/parsers/en/ENTimeLaterParser.hpp
index 30fed1f..113ec84 100644
--- a/src/parsers/en/ENTimeLaterParser.hpp
+++ b/src/parsers/en/ENTimeLaterParser.hpp
@@ -17,19 +17,19 @@
                         R"(((?:one|two|three|four|five|six|seven|eight|nine|ten|eleven|twelve)|)"
                         R"([0-9]+)"
                         R"(|an?(?:\s*few)?|half(?:\s+an?)?)"
-                    R"(")\s+)"
-                    R"((sec(?:onds?)?|min(?:ute)?s?|hours?|weeks?|days?|months?|years?)\\s*)+))"
+                    R"()\s+)"
+                    R"((sec(?:onds?)?|min(?:ute)?s?|hours?|weeks?|days?|months?|years?)\s*)+))"
                         R"((?:later|after|from now|henceforth|forward|out))"
                 R"((\b))", std::regex::icase};
             return PATTERN;
         }
 
-        parse::ParsedResult extract(std::string&, const std::smatch& match, const posix_time::ptime& ref, long idx)
+        parse::ParsedResult extract(std::string& tx, const std::smatch& match, const posix_time::ptime& ref, long idx)
         override {
             std::string text = match.str(FULL_MATCH).substr(match.length(1));
             parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
 
-            if (match.position(0) > 0 and std::regex_match(text.substr(match.position(0) - 1), std::regex("\\w")))
+            if (match.position(0) > 0 and std::regex_match(tx.substr(match.position(0) - 1, 1), std::regex("\\w")))
                 return result;
 
             std::map<std::string, float> fragments = utils::extractDateTimeUnitFragments(match.str(2));
-- 
2.43.0


From 79b5db4c07ff15f9eb20613678f04f3474a98752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 06/51] fix: carry midnight crossings into the date of ago and
 later results

With both a date and a time amount ('1 day 3 hours ago' at 01:00) the
hours changed the time of day but not the date.
---
 src/parsers/en/ENTimeAgoFormatParser.hpp | 4 ++++
 src/parsers/en/ENTimeLaterParser.hpp     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index 621ff45..a7ee4bb 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -58,6 +58,10 @@
                 }
             }
 
+            // hours, minutes and seconds may cross midnight
+            date_t += date - ref.date();
+            date = date_t.date();
+
             if(fragments["hour"] > 0 or fragments["minute"] > 0 or fragments["second"] > 0) {
                 result.startDate.setHour(date_t.time_of_day().hours());
                 result.startDate.setMinute(date_t.time_of_day().minutes());
diff --git a/src/parsers/en/ENTimeLaterParser.hpp b/src/parsers/en/ENTimeLaterParser.hpp
index 113ec84..e3ab70e 100644
--- a/src/parsers/en/ENTimeLaterParser.hpp
+++ b/src/parsers/en/ENTimeLaterParser.hpp
@@ -63,6 +63,10 @@
                 }
             }
 
+            // hours, minutes and seconds may cross midnight
+            date_t += date - ref.date();
+            date = date_t.date();
+
             if(fragments["hour"] > 0 or fragments["minute"] > 0 or fragments["second"] > 0) {
                 result.startDate.setHour(date_t.time_of_day().hours());
                 result.startDate.setMinute(date_t.time_of_day().minutes());
-- 
2.43.0


From c9aaf8fbb3c6e9fe10ca2d1953960be741973b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 07/51] fix: do not report today for an amount of time before
 year 1400

An amount that boost rejects was skipped, and the reference date reported.
---
 src/parsers/en/ENTimeAgoFormatParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index a7ee4bb..e173b25 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -54,7 +54,7 @@
                 }
                 catch (std::out_of_range &e) {
                     std::cerr << e.what() << " at ENTimeAgoFormatParser" << std::endl;
-                    continue;
+                    return result;
                 }
             }
 
-- 
2.43.0


From 28ada417bc523df14b1743faa15c59b9b7e2a118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 08/51] fix: honour 'half' in ago and later expressions

'half an hour ago' was the reference time: 0.5 was truncated to 0. Uses
the same substitutes as ENDeadlineFormatParser (30 minutes, 12 hours, ...).
---
 src/utils/utils.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 1c00386..43ef122 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -63,6 +63,25 @@ std::map<std::string, float> utils::collectDateTimeFragment(std::smatch match, s
     }
 
     std::string element{match[2].str()};
+    if(num == 0.5) {
+        // the parsers add whole amounts only, so turn half a unit into smaller units
+        if(std::regex_search(element, std::regex("hour", std::regex::icase)))
+            fragments["minute"] += 30;
+        else if(std::regex_search(element, std::regex("min", std::regex::icase)))
+            fragments["second"] += 30;
+        else if(std::regex_search(element, std::regex("sec", std::regex::icase)))
+            fragments["second"] += 1;
+        else if(std::regex_search(element, std::regex("week", std::regex::icase)))
+            fragments["day"] += 3;
+        else if(std::regex_search(element, std::regex("day", std::regex::icase)))
+            fragments["hour"] += 12;
+        else if(std::regex_search(element, std::regex("month", std::regex::icase)))
+            fragments["day"] += 15;
+        else if(std::regex_search(element, std::regex("year", std::regex::icase)))
+            fragments["month"] += 6;
+        return fragments;
+    }
+
     if(std::regex_search(element, std::regex("hour", std::regex::icase)))
         fragments["hour"] = num;
     else if(std::regex_search(element, std::regex("min", std::regex::icase)))
-- 
2.43.0


From f76077b8be51d4592b09ac9bb6b4618e8b4fe440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 09/51] fix: match holidays that end the input, christmas and
 veteran's day

The pattern asked for whitespace after the name ('christmas', 'labor day'
need a following blank) and for a literal backslash after christmas and
in veteran's.
---
 src/parsers/en/ENUSHolidaysParser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/en/ENUSHolidaysParser.hpp b/src/parsers/en/ENUSHolidaysParser.hpp
index 675d353..5731c3c 100644
--- a/src/parsers/en/ENUSHolidaysParser.hpp
+++ b/src/parsers/en/ENUSHolidaysParser.hpp
@@ -13,9 +13,9 @@
                     R"((\b))"
                         R"((Independence|President\'s|New\s*Year\'s(?:\s*eve)?|)"
                         R"(Columbus|MLK|Martin\s*Luther\s*King\s*(?:Junior|Jr|Jnr)|)"
-                        R"(Thanksgiving|Memorial|Labor|Veteran(?:s|\\'s)|Christmas\\s*(?:eve)?|)"
-                        R"(black\s*Friday)\s+)"
-                            R"((?:day)?)"
+                        R"(Thanksgiving|Memorial|Labor|Veteran(?:s|\'s)|Christmas(?:\s*eve)?|)"
+                        R"(black\s*Friday))"
+                            R"((?:\s*day)?)"
                     R"((\b))", std::regex::icase};
 
             return PATTERN;
-- 
2.43.0


From 645ecd8b03bef3239a10672e3307c71853a89969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 10/51] fix: black friday is the day after thanksgiving, not
 two days after

---
 src/parsers/en/ENUSHolidaysParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENUSHolidaysParser.hpp b/src/parsers/en/ENUSHolidaysParser.hpp
index 5731c3c..f58f0cc 100644
--- a/src/parsers/en/ENUSHolidaysParser.hpp
+++ b/src/parsers/en/ENUSHolidaysParser.hpp
@@ -109,8 +109,8 @@
 
                 result.startDate.setYear(day.year());
                 result.startDate.setMonth(day.month());
-                result.startDate.set_mDay(day.day() + 1);
-                result.startDate.set_wDay(day.day_of_week() + 1);
+                result.startDate.set_mDay(day.day());
+                result.startDate.set_wDay(day.day_of_week());
             }
             else if (text.find("memorial") != std::string::npos) {
                 // Memorial day is observed on the last Monday of May
-- 
2.43.0


From dbf3dce69138fa3054a8e3a2dd0c9cb4c9c93ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 11/51] fix: match month-name dates that no whitespace follows

'Jan 12', 'March/6/2020' and every other date at the end of the input or
before punctuation was missed, because the pattern asked for whitespace
after the day and after the year. Whitespace after the date now stays
with the next phrase.
---
 src/parsers/en/ENMonthNameMiddleEndianParser.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
index 3ee34d6..37485f0 100644
--- a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
+++ b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
@@ -42,18 +42,18 @@
                                             R"(|thirty[ -]first)"
                                         R"())"
                                         R"((?!\s*)"
-                                        R"((?:am|pm))\s+)"
+                                        R"((?:am|pm)))"
                             R"((?:)"
-                                R"((?:to|\-)\s*)"
+                                R"(\s*(?:to|\-)\s*)"
                                     R"((([0-9]{1,2}))"
                                         R"((?:st|nd|rd|th)?|)"
                                             R"(first|second|third|fourth|fifth|sixth|seventh|eighth|ninth|tenth|)"
                                             R"(eleventh|twelfth|thirteenth|fourteenth|fifteenth|sixteenth|seventheenth|eighteenth|nineteenth|twentieth|)"
                                             R"(twenty[ -]first|twenty[ -]second|twenty[ -]third|twenty[ -]fourth|twenty[ -]fifth|twenty[ -]sixth|twenty[ -]seventh|twenty[ -]eighth|twenty[ -]ninth|)"
-                                            R"(thirtieth|thirty[ -]first)\s*)"
+                                            R"(thirtieth|thirty[ -]first))"
                                         R"()?)"
                                         R"((?:)"
-                                            R"((?:-|\/|\s*,?\s*)(?:([0-9]{4})\s*(BE|AD|BC)?|([0-9]{1,4})\s*(AD|BC))\s+)"
+                                            R"((?:-|\/|\s*,?\s*)(?:([0-9]{4})(?:\s*(BE|AD|BC))?|([0-9]{1,4})\s*(AD|BC)))"
                                         R"()?)"
                                     R"((\b)(?!\:\d))" , std::regex::icase};
             return PATTERN;
-- 
2.43.0


From 822ea2d8cc25a6c14903784b4d70f04c08ac6d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 12/51] fix: read the end day of 'month <ordinal word> to
 <ordinal word>'

It was looked up from the (empty) digits, which gave day 0; and
'seventeenth' was misspelt in the pattern.
---
 src/parsers/en/ENMonthNameMiddleEndianParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
index 37485f0..dfbdc3d 100644
--- a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
+++ b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
@@ -48,7 +48,7 @@
                                     R"((([0-9]{1,2}))"
                                         R"((?:st|nd|rd|th)?|)"
                                             R"(first|second|third|fourth|fifth|sixth|seventh|eighth|ninth|tenth|)"
-                                            R"(eleventh|twelfth|thirteenth|fourteenth|fifteenth|sixteenth|seventheenth|eighteenth|nineteenth|twentieth|)"
+                                            R"(eleventh|twelfth|thirteenth|fourteenth|fifteenth|sixteenth|seventeenth|eighteenth|nineteenth|twentieth|)"
                                             R"(twenty[ -]first|twenty[ -]second|twenty[ -]third|twenty[ -]fourth|twenty[ -]fifth|twenty[ -]sixth|twenty[ -]seventh|twenty[ -]eighth|twenty[ -]ninth|)"
                                             R"(thirtieth|thirty[ -]first))"
                                         R"()?)"
@@ -144,7 +144,7 @@
             if(!match.str(DATE_TO_GROUP).empty()) {
                 int endDate;
                 match.str(DATE_TO_NUM_GROUP).empty() ?
-                        endDate = utils::argToOrdinalValue(match.str(DATE_TO_NUM_GROUP)) :
+                        endDate = utils::argToOrdinalValue(match.str(DATE_TO_GROUP)) :
                         endDate = std::stoi(match.str(DATE_TO_NUM_GROUP));
 
                 parse::ParsedComponents tmp{result.startDate};
-- 
2.43.0


From 8ae5d59b2ab3c749d83b0f9aa008011bc1a22052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 13/51] fix: honour the era of a month-name date

' AD' and ' BC' were read only without a blank after a month and year
('May 2000 BC' was May 2000), and 1 BC was taken for a missing year.
---
 src/parsers/en/ENMonthNameMiddleEndianParser.hpp | 2 +-
 src/parsers/en/ENMonthNameParser.hpp             | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
index dfbdc3d..7af7d76 100644
--- a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
+++ b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
@@ -111,7 +111,7 @@
                 }
             }
 
-            if(year != -1) {
+            if(year_s != "-1") {
                 result.startDate.set_mDay(day);
                 result.startDate.setMonth(month);
                 result.startDate.setYear(year);
diff --git a/src/parsers/en/ENMonthNameParser.hpp b/src/parsers/en/ENMonthNameParser.hpp
index 7d896e8..04dc852 100644
--- a/src/parsers/en/ENMonthNameParser.hpp
+++ b/src/parsers/en/ENMonthNameParser.hpp
@@ -23,7 +23,7 @@
             std::regex PATTERN = std::regex(R"((^|\D\s+|[^\w\s])(Jan\.?|January|Feb\.?|February|Mar\.?|March|)"
                                     R"(Apr\.?|April|May\.?|Jun\\.?|June|Jul\.?|July|Aug\.?|August|Sep\.?|)"
                                     R"(Sept\.?|September|Oct\.?|October|Nov\.?|November|Dec\.?|December)\s*)"
-                                    R"((?:[,-]?\s*([0-9]{4})(\s*BE|AD|BC)?)?(?=[^\s\w]|\s+[^0-9]|\s+$|$))",
+                                    R"((?:[,-]?\s*([0-9]{4})(\s*(?:BE|AD|BC))?)?(?=[^\s\w]|\s+[^0-9]|\s+$|$))",
                                     std::regex::icase);
 
             return PATTERN;
@@ -61,7 +61,7 @@
                     year += 2000;
                 }
             }
-            if(year != -1) {
+            if(!match.str(YEAR__GROUP).empty()) {
                 result.startDate.implyComponent("mday", day);
                 result.startDate.setMonth(month);
                 result.startDate.setYear(year);
-- 
2.43.0


From c39b32f5cc8d221a402f9c543a6981731bcd6b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 14/51] fix: recognise 'Jun', 'Jun.' and 'May.'

The pattern asked for a backslash after Jun, and 'may.' was no key of the
month table, so 'May. 2020' was month 0, which ended the program.
---
 src/parsers/en/ENMonthNameParser.hpp | 2 +-
 src/utils/utils.hpp                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENMonthNameParser.hpp b/src/parsers/en/ENMonthNameParser.hpp
index 04dc852..707a3fa 100644
--- a/src/parsers/en/ENMonthNameParser.hpp
+++ b/src/parsers/en/ENMonthNameParser.hpp
@@ -21,7 +21,7 @@
 
         std::regex getPattern() const override {
             std::regex PATTERN = std::regex(R"((^|\D\s+|[^\w\s])(Jan\.?|January|Feb\.?|February|Mar\.?|March|)"
-                                    R"(Apr\.?|April|May\.?|Jun\\.?|June|Jul\.?|July|Aug\.?|August|Sep\.?|)"
+                                    R"(Apr\.?|April|May\.?|Jun\.?|June|Jul\.?|July|Aug\.?|August|Sep\.?|)"
                                     R"(Sept\.?|September|Oct\.?|October|Nov\.?|November|Dec\.?|December)\s*)"
                                     R"((?:[,-]?\s*([0-9]{4})(\s*(?:BE|AD|BC))?)?(?=[^\s\w]|\s+[^0-9]|\s+$|$))",
                                     std::regex::icase);
diff --git a/src/utils/utils.hpp b/src/utils/utils.hpp
index 16f2002..6cfcb45 100644
--- a/src/utils/utils.hpp
+++ b/src/utils/utils.hpp
@@ -105,7 +105,7 @@ namespace utils {
             {"february",   2}, {"feb", 2},  {"feb.",  2},
             {"march",      3}, {"mar", 3},  {"mar.",  3},
             {"april",      4}, {"apr", 4},  {"apr.",  4},
-            {"may",        5},
+            {"may",        5}, {"may.", 5},
             {"june",       6}, {"jun", 6},  {"jun.",  6},
             {"july",       7}, {"jul", 7},  {"jul.",  7},
             {"august",     8}, {"aug", 8},  {"aug.",  8},
-- 
2.43.0


From 778dca8ba8a8d4a5f390471e44eff60227af06f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 15/51] fix: report the index of the month name, not of the
 text before it

The text of the result leaves out the leading group, its index did not.
---
 src/parsers/en/ENMonthNameParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENMonthNameParser.hpp b/src/parsers/en/ENMonthNameParser.hpp
index 707a3fa..8a3781b 100644
--- a/src/parsers/en/ENMonthNameParser.hpp
+++ b/src/parsers/en/ENMonthNameParser.hpp
@@ -32,7 +32,7 @@
         parse::ParsedResult extract(std::string&, const std::smatch& match, const posix_time::ptime& ref, long idx)
         override {
             std::string text = match.str(0).substr(match.length(1));
-            parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
+            parse::ParsedResult result = parse::ParsedResult(ref, idx + match.length(1), text);
 
             short unsigned month = utils::MONTH_CONSTANTS[match.str(MONTH__NAME_GROUP)];
             short unsigned day = 1;
-- 
2.43.0


From fd1142aec7e2c51f0b38e195817900084aa29392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 16/51] fix: leave the whitespace before a weekday phrase to
 the previous phrase

'5pm next monday' lost its time: the weekday result started at the blank
that ends the time result, so the overlap refiner dropped the time.
---
 src/parsers/en/ENDayOfTheWeekParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENDayOfTheWeekParser.hpp b/src/parsers/en/ENDayOfTheWeekParser.hpp
index df2f16f..e969a62 100644
--- a/src/parsers/en/ENDayOfTheWeekParser.hpp
+++ b/src/parsers/en/ENDayOfTheWeekParser.hpp
@@ -22,8 +22,8 @@
         std::regex getPattern() const override {
             static const std::regex PATTERN {
                 R"((\b))"
-                    R"((earl(?:ier|y)|late)?)"
-                        R"((?:\s*(this|last|next)\s*)?)"
+                    R"((?:(earl(?:ier|y)|late)\s*)?)"
+                        R"((?:(this|last|next)\s*)?)"
                             R"((Sun(?:day)?|Mon(?:day)?|Tue(?:s(?:day)?)?|Wed(?:nesday)?|Thu(?:r(?:s(?:day)?)?)?|Fri(?:day)?|Sat(?:urday)?))"
                                 R"((?:\s*(this|last|next)(?:\s*(week))?)?)"
                 R"((\b))", /* part of pattern (on\s*)?*/
-- 
2.43.0


From 1b2aa3e939ae2b26c801369099b990f5e0acb3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 17/51] fix: honour abbreviated units in deadlines

'in 5 min', 'in 2 hrs', 'in 3 wks' and the like matched, but were the
reference time, because only the full names of the units were looked at.
---
 src/parsers/en/ENDeadlineFormatParser.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/parsers/en/ENDeadlineFormatParser.hpp b/src/parsers/en/ENDeadlineFormatParser.hpp
index 94257d3..b5cc047 100644
--- a/src/parsers/en/ENDeadlineFormatParser.hpp
+++ b/src/parsers/en/ENDeadlineFormatParser.hpp
@@ -61,7 +61,7 @@
              * so to support half (when num == 0.5) use lower time field
              * i.e: instead of hours(0.5) use minutes(30) e.t.c
              */
-            std::regex dwmy(("day|week|month|year"));
+            std::regex dwmy(("day|week|wk|month|year|yr"));
             if(std::regex_search(match.str(4), dwmy)) {
                 if(match.str(4).find("day") != std::string::npos) {
                     if(floor(num) == num) {
@@ -80,7 +80,8 @@
                         return result;
                     }
                 }
-                else if(match.str(4).find("week") != std::string::npos) {
+                else if(match.str(4).find("week") != std::string::npos or
+                        match.str(4).find("wk") != std::string::npos) {
                     if(floor(num) == num) {
                         tmpDate += gregorian::weeks(num);
                     }
@@ -96,7 +97,8 @@
                         tmpDate += gregorian::days(15);
                     }
                 }
-                else if(match.str(4).find("year") != std::string::npos) {
+                else if(match.str(4).find("year") != std::string::npos or
+                        match.str(4).find("yr") != std::string::npos) {
                     if(floor(num) == num) {
                         tmpDate += gregorian::years(num);
                     }
@@ -112,7 +114,7 @@
                 return result;
             }
 
-            if(!match.str(4).find("hour")) {
+            if(!match.str(4).find("h")) {
                 if(floor(num) == num) {
                     tmpTime += posix_time::hours(static_cast<int>(num));
                 }
@@ -120,12 +122,12 @@
                     tmpTime += posix_time::minutes(30);
                 }
             }
-            else if(!match.str(4).find("minute")) {
+            else if(!match.str(4).find("min")) {
                 if(floor(num) == num)
                     tmpTime += posix_time::minutes(static_cast<int>(num));
                 else
                     tmpTime += posix_time::seconds(30);
-            } else if (!match.str(4).find("second")) {
+            } else if (!match.str(4).find("sec")) {
                 tmpTime += posix_time::seconds(static_cast<int>(ceil(num)));
             }
             result.startDate.implyComponent("year", tmpDate.year());
-- 
2.43.0


From e50afeff77943fa9f7de4b6bb677adaaf7160ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 18/51] fix: carry midnight crossings into the date of a
 deadline

'in 5 hours' at 23:00 was 04:00 of the reference day.
---
 src/parsers/en/ENDeadlineFormatParser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/en/ENDeadlineFormatParser.hpp b/src/parsers/en/ENDeadlineFormatParser.hpp
index b5cc047..45f8ecc 100644
--- a/src/parsers/en/ENDeadlineFormatParser.hpp
+++ b/src/parsers/en/ENDeadlineFormatParser.hpp
@@ -130,9 +130,9 @@
             } else if (!match.str(4).find("sec")) {
                 tmpTime += posix_time::seconds(static_cast<int>(ceil(num)));
             }
-            result.startDate.implyComponent("year", tmpDate.year());
-            result.startDate.implyComponent("month", tmpDate.month());
-            result.startDate.implyComponent("mday", tmpDate.day());
+            result.startDate.implyComponent("year", tmpTime.date().year());
+            result.startDate.implyComponent("month", tmpTime.date().month());
+            result.startDate.implyComponent("mday", tmpTime.date().day());
             result.startDate.implyComponent("hour", tmpTime.time_of_day().hours());
             result.startDate.implyComponent("min", tmpTime.time_of_day().minutes());
             result.startDate.implyComponent("sec", tmpTime.time_of_day().seconds());
-- 
2.43.0


From 6dee9db3e810bea421a355c048a95b63fa0630a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 19/51] fix: tag deadline results for days and larger units

---
 src/parsers/en/ENDeadlineFormatParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENDeadlineFormatParser.hpp b/src/parsers/en/ENDeadlineFormatParser.hpp
index 45f8ecc..016cc6e 100644
--- a/src/parsers/en/ENDeadlineFormatParser.hpp
+++ b/src/parsers/en/ENDeadlineFormatParser.hpp
@@ -57,6 +57,8 @@
                 }
             }
 
+            result.setTag(utils::ENDeadlineFormatParser);
+
             /* boost::date_time functions deal with long ints,
              * so to support half (when num == 0.5) use lower time field
              * i.e: instead of hours(0.5) use minutes(30) e.t.c
@@ -137,8 +139,6 @@
             result.startDate.implyComponent("min", tmpTime.time_of_day().minutes());
             result.startDate.implyComponent("sec", tmpTime.time_of_day().seconds());
 
-            result.setTag(utils::ENDeadlineFormatParser);
-
             return result;
         }
 
-- 
2.43.0


From f794b9721c34328e24d6b45c3aca387ebe3b8866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 20/51] fix: read the number word of 'next <n> <unit>'

---
 src/parsers/en/ENRelativeDateFormatParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENRelativeDateFormatParser.hpp b/src/parsers/en/ENRelativeDateFormatParser.hpp
index f8277bb..160afcf 100644
--- a/src/parsers/en/ENRelativeDateFormatParser.hpp
+++ b/src/parsers/en/ENRelativeDateFormatParser.hpp
@@ -16,7 +16,7 @@
 
         std::regex getPattern() const override {
             static const std::regex PATTERN = std::regex(
-                    R"((\b)(this|next|last|past)\s*( (?:one|two|three|four|five|six|seven|)"
+                    R"((\b)(this|next|last|past)\s*((?:one|two|three|four|five|six|seven|)"
                     R"(eight|nine|ten|eleven|twelve)|[0-9]+|few|half(?:\s*an?)?)?\s*(seconds?|)"
                     R"(min(?:ute)?s?|hour(?:s)?|day(?:s)?|week(?:s)?|month(?:s)?|year(?:s)?)(?=\s*))"
                     R"((\b))", std::regex::icase);
-- 
2.43.0


From 7fc948a4d6bdb1066b0490f26dad728cb93ed024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 21/51] fix: honour 'min' in relative expressions

---
 src/parsers/en/ENRelativeDateFormatParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENRelativeDateFormatParser.hpp b/src/parsers/en/ENRelativeDateFormatParser.hpp
index 160afcf..0e0ac40 100644
--- a/src/parsers/en/ENRelativeDateFormatParser.hpp
+++ b/src/parsers/en/ENRelativeDateFormatParser.hpp
@@ -232,7 +232,7 @@
                         tmpTime -= posix_time::minutes(30);
                     }
                 }
-            } else if (match.str(RELATIVE_WORD_GROUP).find("minute") != std::string::npos) {
+            } else if (match.str(RELATIVE_WORD_GROUP).find("min") != std::string::npos) {
                 if(std::floor(num) == num) {
                     if (!match.str(MODIFIER_WORD_GROUP).compare("next")) {
                         tmpTime += posix_time::minutes(static_cast<int>(num));
-- 
2.43.0


From ee9b69edd77ac6d7b12f0e1048c498b309a475b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 22/51] fix: do not take an unknown word before 'weeks' for the
 number 0

---
 src/parsers/en/ENWeekExperessionParser.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENWeekExperessionParser.hpp b/src/parsers/en/ENWeekExperessionParser.hpp
index 4d6e13e..0fa868c 100644
--- a/src/parsers/en/ENWeekExperessionParser.hpp
+++ b/src/parsers/en/ENWeekExperessionParser.hpp
@@ -30,10 +30,11 @@
                 numberOfWeeks = std::stoi(match.str(3));
             }
             else if(!match.str(4).empty()) {
-                numberOfWeeks = utils::INTEGER_WORDS[match.str(4)];
-                if(numberOfWeeks < 0) {
+                auto word = utils::INTEGER_WORDS.find(match.str(4));
+                if(word == utils::INTEGER_WORDS.end()) {
                     return result;
                 }
+                numberOfWeeks = word->second;
             }
             if(match.str(2).find("last") != std::string::npos) {
                 tmp -= gregorian::weeks(numberOfWeeks);
-- 
2.43.0


From c9de6d296e5d79d06fbb4f56a0b589b0d1f3375c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 23/51] fix: report whether the minute is certain

---
 src/result.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/result.cpp b/src/result.cpp
index 4ddd4a2..c4d0551 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -275,7 +275,7 @@ bool ParsedComponents::isCertain(std::string comp) {
         return knownValues["hour"].first;
 
     else if(!comp.compare("min"))
-        return knownValues["minute"].first;
+        return knownValues["min"].first;
 
     else if(!comp.compare("sec"))
         return knownValues["sec"].first;
-- 
2.43.0


From 1759f801d9e3df0b0d965c64ccdc2d39298c7156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 24/51] fix: decide whether components form a possible date
 without reading unset fields

---
 src/result.cpp | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/src/result.cpp b/src/result.cpp
index c4d0551..3551065 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -289,26 +289,22 @@ bool ParsedComponents::isCertain(std::string comp) {
 }
 
 bool ParsedComponents::isPossibleDate() {
-    // needs implementation
-    // std::time_t tmp = std::time(nullptr);
-    std::tm tmp, tmp1; // = std::gmtime(&tmp);
-
-    tmp1.tm_year = getYear();
-    tmp1.tm_mon  = getMonth()-1;
-    tmp1.tm_mday = get_mDay();
-    tmp1.tm_hour = getHour();
-    tmp1.tm_min  = getMinute();
-    tmp1.tm_sec  = getSeconds();
-
-    posix_time::ptime tmp2 = posix_time::ptime_from_tm(tmp1);
-    tmp = posix_time::to_tm(tmp2);
-
-    if(tmp.tm_year != getYear())    return false;
-    if(tmp.tm_mon  != getMonth()-1) return false;
-    if(tmp.tm_mday != get_mDay())   return false;
-    if(tmp.tm_wday != get_wDay())   return false;
-    if(tmp.tm_hour != getHour())    return false;
-    if(tmp.tm_min  != getMinute())  return false;
+    try {
+        // throws if there is no such day
+        gregorian::date day(getYear(), getMonth(), get_mDay());
+    }
+    catch (std::out_of_range&) {
+        return false;
+    }
+
+    if(getMinute()  < 0 or getMinute()  > 59) return false;
+    if(getSeconds() < 0 or getSeconds() > 59) return false;
+
+    // the day may end at 24:00
+    if(getHour() == 24)
+        return getMinute() == 0 and getSeconds() == 0;
+
+    if(getHour() < 0 or getHour() > 23) return false;
 
     /*
     if(knownValues["year"].first  == false and
-- 
2.43.0


From 39b3c1a3c7e8223d722fe3f210e213ee6ae2f100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 25/51] fix: do not report impossible dates

---
 src/result.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/result.cpp b/src/result.cpp
index 3551065..3b95eb3 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -389,8 +389,7 @@ bool ParsedResult::hasPossibleDates() {
        startDate.getSeconds() == 0 and end() == false)
         return false;
 
-    //return startDate.isPossibleDate() and (!end() or endDate.isPossibleDate());
-    return true;
+    return startDate.isPossibleDate() and (!end() or endDate.isPossibleDate());
 }
 
 ParsedResult::~ParsedResult() { }
-- 
2.43.0


From a39c2420cfc586a9c24d18ba6d4d363b50fee41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 26/51] fix: skip expressions whose numbers or dates can not be
 represented

---
 src/parsers/parsers.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parsers/parsers.cpp b/src/parsers/parsers.cpp
index a4056df..7fe6b17 100644
--- a/src/parsers/parsers.cpp
+++ b/src/parsers/parsers.cpp
@@ -42,7 +42,12 @@ Result Parser::execute(std::string& text, posix_time::ptime& ref) {
         idx = match.position(0) + text.length() - remainingText.length();
 
         parse::ParsedResult res{};
-        res = extract(remainingText, match, ref, idx);
+        try {
+            res = extract(remainingText, match, ref, idx);
+        } // thrown for numbers and dates that can not be represented
+        catch (std::out_of_range& err) {
+            std::cerr << err.what() << std::endl;
+        }
 
         if(/*!strictMode or */res.hasPossibleDates()) {
             results.push_back(res);
-- 
2.43.0


From b9d431b3c9be814092c4eda565ca9154da62fafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 27/51] fix: let the text of a clock time span what its index
 says

---
 src/parsers/en/ENTimeExpressionParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index eaad3f3..8a70a19 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -34,7 +34,7 @@
 
         parse::ParsedResult extract(std::string& tx, const std::smatch& match, const posix_time::ptime& ref, long idx)
         override {
-            std::string text = match.str(0).substr(match.length(1));
+            std::string text = match.str(FULL_MATCH);
             parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
 
             if(match.position(0) > 0 and std::regex_match(tx.substr(match.position(0) - 1), std::regex("\\w"))) {
-- 
2.43.0


From 1a935c83efc04745129ae61e0ced52b630c49650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 28/51] fix: do not read dangling or unset meridiems of clock
 time ranges

---
 src/parsers/en/ENTimeExpressionParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index 8a70a19..78e6b16 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -42,7 +42,7 @@
             }
 
             int hour{0}, minute{0};// tz{-1}, meridian{-1};
-            char ampm_s;
+            char ampm_s{'\0'};
 
             //------------Seconds------------------
             if(!match.str(SECOND_GROUP).empty()) {
@@ -160,7 +160,7 @@
                     if(to_hour > 12)
                         return result;
 
-                    char &ampm = match.str(TO_MERIDIEM_GROUP)[0];
+                    char ampm = match.str(TO_MERIDIEM_GROUP)[0];
                     if(ampm == 'a')
                         if(to_hour == 12)
                             to_hour = 0;
-- 
2.43.0


From 6ce029628bd850aad5e43e3b82eccbec14667104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 29/51] fix: do not move an afternoon hour of a clock time
 range past midnight

---
 src/parsers/en/ENTimeExpressionParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index 78e6b16..4558e54 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -169,7 +169,7 @@
                         if(to_hour != 12)
                             to_hour += 12;
                         if(match.str(AM_PM_HOUR_GROUP).empty()) {
-                            if(hour != 12) {
+                            if(hour < 12) {
                                 hour += 12;
                                 result.startDate.setHour(hour);
                             }
-- 
2.43.0


From 1efd97d763ddb6caa4a5e397a0835b89d0d9f66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 30/51] fix: end a clock time range that crosses midnight on
 the next day

---
 src/parsers/en/ENTimeExpressionParser.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index 4558e54..57c0a8c 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -200,6 +200,14 @@
                 result.endDate.implyComponent("mday", ref.date().day());
                 result.endDate.implyComponent("month", ref.date().month());
                 result.endDate.implyComponent("year", ref.date().year());
+
+                if(result.endDate.date() < result.startDate.date()) {
+                    // Ex. 10pm - 2am
+                    gregorian::date nextDay{ref.date() + gregorian::days(1)};
+                    result.endDate.implyComponent("mday", nextDay.day());
+                    result.endDate.implyComponent("month", nextDay.month());
+                    result.endDate.implyComponent("year", nextDay.year());
+                }
             }
             return result;
         }
-- 
2.43.0


From 6ed6055c77ff83f52bf06af00866b9cf7a3006c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 31/51] fix: apply the time zone to the end of a range as well

---
 src/refiners/ExtractTimeZoneAbbreviation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/refiners/ExtractTimeZoneAbbreviation.hpp b/src/refiners/ExtractTimeZoneAbbreviation.hpp
index 065690c..787b00a 100644
--- a/src/refiners/ExtractTimeZoneAbbreviation.hpp
+++ b/src/refiners/ExtractTimeZoneAbbreviation.hpp
@@ -35,7 +35,7 @@ public:
                         }
 
                         if(res.end() and !res.endDate.isCertain("tzoffset")) {
-                            res.startDate.setTimeZoneOffset(offset);
+                            res.endDate.setTimeZoneOffset(offset);
                         }
 
                         res.setText(match[1].str());
-- 
2.43.0


From 90a848a461535162521b5af590882c4347b6167d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 32/51] fix: extend the text by the time zone instead of
 replacing it

---
 src/refiners/ExtractTimeZoneAbbreviation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/refiners/ExtractTimeZoneAbbreviation.hpp b/src/refiners/ExtractTimeZoneAbbreviation.hpp
index 787b00a..7ae4e12 100644
--- a/src/refiners/ExtractTimeZoneAbbreviation.hpp
+++ b/src/refiners/ExtractTimeZoneAbbreviation.hpp
@@ -38,7 +38,7 @@ public:
                             res.endDate.setTimeZoneOffset(offset);
                         }
 
-                        res.setText(match[1].str());
+                        res.setText(text.substr(res.getIndex(), res.textLength() + match.length(0)));
                         res.setTag(utils::ExtractTimeZoneAbbreviation);
                     }
                 }
-- 
2.43.0


From d351f9b62c3aa7d63c7cc79bba13f52911f7768d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 33/51] fix: do not repeat a merged result at the end of the
 list

---
 src/refiners/en/ENMergeDateAndTimeRefiner.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
index 1ebce82..816f4b3 100644
--- a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
@@ -122,7 +122,7 @@ public:
                     curr = r.at(i+1);
                 }
                 catch (std::out_of_range& e) {
-                    std::cerr << e.what() << " at ENMergeDateAndTimeRefiner" << std::endl;
+                    curr = tmp; // nothing left, prev already holds the merged result
                 }
                 i++;
             }
@@ -132,7 +132,7 @@ public:
                     curr = r.at(i+1);
                 }
                 catch (std::out_of_range& e) {
-                    std::cerr << e.what() << " at ENMergeDateAndTimeRefiner" << std::endl;
+                    curr = tmp; // nothing left, prev already holds the merged result
                 }
                 i++;
             }
-- 
2.43.0


From 2a6660d1817c7a9c8e14a75480053efcc9123a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 34/51] fix: end a range that crosses midnight on the last day
 of a month in the next month

---
 src/refiners/en/ENMergeDateAndTimeRefiner.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
index 816f4b3..d9f1ab1 100644
--- a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
@@ -74,10 +74,18 @@ public:
 
             if(!dateResult.end() and endDateTime.date() < startDateTime.date()) {
                 // Ex. 9pm - 1am
-                if(endDateTime.isCertain("mday"))
-                    endDateTime.set_mDay(endDateTime.get_mDay() + 1);
-                else
-                    endDateTime.implyComponent("mday", endDateTime.get_mDay() + 1);
+                gregorian::date nextDay{endDateTime.date().date() + gregorian::days(1)};
+
+                if(endDateTime.isCertain("mday")) {
+                    endDateTime.set_mDay(nextDay.day());
+                    endDateTime.setMonth(nextDay.month());
+                    endDateTime.setYear(nextDay.year());
+                }
+                else {
+                    endDateTime.implyComponent("mday", nextDay.day());
+                    endDateTime.implyComponent("month", nextDay.month());
+                    endDateTime.implyComponent("year", nextDay.year());
+                }
             }
             dateResult.endDate = endDateTime;
             dateResult.makeEndDateValid();
-- 
2.43.0


From 0650317f5c067902d7205f398fe6868fab6389fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 35/51] fix: keep the time zone when merging a date and a time

---
 src/refiners/en/ENMergeDateAndTimeRefiner.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
index d9f1ab1..5b2398f 100644
--- a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
@@ -49,6 +49,10 @@ public:
             dateTimeComp.implyComponent("min", timeComp.getMinute());
             dateTimeComp.implyComponent("sec", timeComp.getSeconds());
         }
+
+        if(timeComp.isCertain("tzoffset")) {
+            dateTimeComp.setTimeZoneOffset(timeComp.getTimeZoneOffset());
+        }
         return dateTimeComp;
     }
 
-- 
2.43.0


From eaa9e2597ebdc08f42ab59526bd8b63a6356b2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 36/51] fix: order the two dates of a range

---
 src/refiners/en/ENMergeDateRangeRefiner.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/refiners/en/ENMergeDateRangeRefiner.hpp b/src/refiners/en/ENMergeDateRangeRefiner.hpp
index b1803f7..be47b9d 100644
--- a/src/refiners/en/ENMergeDateRangeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateRangeRefiner.hpp
@@ -53,8 +53,8 @@ parse::ParsedResult ENMergeDateRange::mergeResult(std::string text,
      */
     if(fromResult.startDate.date() > toResult.startDate.date()) {
         parse::ParsedResult tmp = fromResult;
-        toResult = fromResult;
-        fromResult = tmp;
+        fromResult = toResult;
+        toResult = tmp;
     }
     fromResult.endDate = toResult.startDate;
     fromResult.makeEndDateValid();
-- 
2.43.0


From dd6fed8fa4d39dc630a7b4fa9382e268491ff14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 37/51] fix: end the text of a date range where its second date
 ends

---
 src/refiners/en/ENMergeDateRangeRefiner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/refiners/en/ENMergeDateRangeRefiner.hpp b/src/refiners/en/ENMergeDateRangeRefiner.hpp
index be47b9d..4dfe014 100644
--- a/src/refiners/en/ENMergeDateRangeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateRangeRefiner.hpp
@@ -64,7 +64,7 @@ parse::ParsedResult ENMergeDateRange::mergeResult(std::string text,
                                    toResult.getIndex() + toResult.textLength());
 
     fromResult.setIndex(static_cast<int>(startIndex));
-    fromResult.setText(text.substr(startIndex, endIndex - startIndex + 1));
+    fromResult.setText(text.substr(startIndex, endIndex - startIndex));
 
     for(const auto& mod: utils::ModList) {
         if(toResult.getTag(mod))
-- 
2.43.0


From c0e2a678b01a763e625704d6b4a122196092f899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 38/51] fix: report every result once when merging date ranges

---
 src/refiners/en/ENMergeDateRangeRefiner.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/refiners/en/ENMergeDateRangeRefiner.hpp b/src/refiners/en/ENMergeDateRangeRefiner.hpp
index 4dfe014..3f98204 100644
--- a/src/refiners/en/ENMergeDateRangeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateRangeRefiner.hpp
@@ -29,13 +29,13 @@ public:
 
             if(!prev.end() and !curr.end() and isAbleToMerge(t, prev, curr)) {
                 prev = mergeResult(t, prev, curr);
-                curr = tmp;
+                curr = (i + 1 < r.size()) ? r[i+1] : tmp;
                 i++;
             }
             merged_result.push_back(prev);
         }
-        if(!prev.isEmpty()) {
-            merged_result.push_back(prev);  // if prev != null add to list of results
+        if(!curr.isEmpty()) {
+            merged_result.push_back(curr);  // if curr != null add to list of results
         }
 
         return merged_result;
-- 
2.43.0


From 8e45407fe72898961795ec7a557aa24fc4c929e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 39/51] fix: apply the time zone when printing the end of a
 range

---
 src/result.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/result.cpp b/src/result.cpp
index 3b95eb3..559fc09 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -427,9 +427,9 @@ std::string ParsedResult::toDate() {
 
         posix_time::ptime ed = posix_time::ptime_from_tm(date_end);
         if(getTag(utils::ExtractTimeZoneAbbreviation))
-            ed += posix_time::minutes(startDate.getTimeZoneOffset());
+            ed += posix_time::minutes(endDate.getTimeZoneOffset());
 
-        res += " - " + posix_time::to_simple_string(posix_time::ptime_from_tm(date_end));
+        res += " - " + posix_time::to_simple_string(ed);
     }
 
     return res;
-- 
2.43.0


From f6697f203b496cadcd01a5e827048d3a6aa39d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 40/51] fix: convert to UTC by subtracting the offset of the
 time zone

---
 src/result.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/result.cpp b/src/result.cpp
index 559fc09..92ce49c 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -413,7 +413,7 @@ std::string ParsedResult::toDate() {
     // posix_time::ptime st =  us_eastern::local_to_utc(posix_time::ptime_from_tm(date_start));
 
     if(getTag(utils::ExtractTimeZoneAbbreviation))
-        st += posix_time::minutes(startDate.getTimeZoneOffset());
+        st -= posix_time::minutes(startDate.getTimeZoneOffset());
 
     res = posix_time::to_simple_string(st);
 
@@ -427,7 +427,7 @@ std::string ParsedResult::toDate() {
 
         posix_time::ptime ed = posix_time::ptime_from_tm(date_end);
         if(getTag(utils::ExtractTimeZoneAbbreviation))
-            ed += posix_time::minutes(endDate.getTimeZoneOffset());
+            ed -= posix_time::minutes(endDate.getTimeZoneOffset());
 
         res += " - " + posix_time::to_simple_string(ed);
     }
-- 
2.43.0


From 0c788de2c3b7bb87986ebeb96021965ae9ba4a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 41/51] fix: subtract the minutes of a negative zone offset
 below one hour

---
 src/parsers/en/ENISOFormatParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENISOFormatParser.hpp b/src/parsers/en/ENISOFormatParser.hpp
index 0b88a6a..c1ff82f 100644
--- a/src/parsers/en/ENISOFormatParser.hpp
+++ b/src/parsers/en/ENISOFormatParser.hpp
@@ -64,7 +64,7 @@
                     }
 
                     int offset = hourOffset * 60;
-                    if(offset < 0) {
+                    if(match.str(TZD_HOUR_OFFSET_GROUP)[0] == '-') {
                         offset -= minuteOffset;
                     }
                     else {
-- 
2.43.0


From 4e9653e35ec5bd2d77b13a547d6610f8662eb407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 42/51] fix: recognise all listed time zone abbreviations

---
 src/refiners/ExtractTimeZoneAbbreviation.hpp | 2 +-
 src/utils/utils.hpp                          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/refiners/ExtractTimeZoneAbbreviation.hpp b/src/refiners/ExtractTimeZoneAbbreviation.hpp
index 7ae4e12..4e44aa6 100644
--- a/src/refiners/ExtractTimeZoneAbbreviation.hpp
+++ b/src/refiners/ExtractTimeZoneAbbreviation.hpp
@@ -3,7 +3,7 @@
 
 #include "refiner.hpp"
 
-#define TIMEZONE_NAME_PATTERN "^\\s*\\(?([A-Z]{2,4})\\)?(?=\\W|$)"
+#define TIMEZONE_NAME_PATTERN "^\\s*\\(?([A-Z]{2,5})\\)?(?=\\W|$)"
 
 class ExtractTimeZoneAbbreviation : public refiners::Refiner {
 public:
diff --git a/src/utils/utils.hpp b/src/utils/utils.hpp
index 6cfcb45..aa4138e 100644
--- a/src/utils/utils.hpp
+++ b/src/utils/utils.hpp
@@ -134,7 +134,7 @@ namespace utils {
             {"BRT",  -180}, {"BST",    60}, {"BTT",   360}, {"CAST", 480}, {"CAT",   120},
             {"CCT",   390}, {"CDT",  -300}, {"CEST",  120}, {"CET",   60}, {"CHADT", 825},
             {"CHAST", 765}, {"CKT",  -600}, {"CLST", -180}, {"CLT", -240}, {"COT",  -300},
-            {"CST",  -360}, {"CVT",   -60}, {"CXT",   420}, {"ChST", 600}, {"DAVT",  420},
+            {"CST",  -360}, {"CVT",   -60}, {"CXT",   420}, {"CHST", 600}, {"DAVT",  420},
             {"EASST",-300}, {"EAST", -360}, {"EAT",   180}, {"ECT", -300}, {"EDT",  -240},
             {"EEST",  180}, {"EET",   120}, {"EGST",    0}, {"EGT",  -60}, {"EST",  -300},
             {"ET",   -300}, {"FJST",  780}, {"FJT",   720}, {"FKST",-180}, {"FKT",  -240},
-- 
2.43.0


From aa18f0a00ad888888a44e601ea20244a23c537ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 43/51] fix: set a tag that was asked for before

---
 src/result.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/result.cpp b/src/result.cpp
index 92ce49c..58da1ab 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -453,8 +453,8 @@ size_t ParsedResult::textLength() const {
 }
 
 void ParsedResult::setTag(utils::Modifiers tag_name) {
-    if(tags.count(tag_name) < 1)
-        this->tags.insert({tag_name, true});
+    // asking for a tag may have stored it as unset
+    this->tags[tag_name] = true;
 }
 
 bool ParsedResult::isEmpty() const {
-- 
2.43.0


From e9146ec8d3a1f287a2d01aca444b942e889bee64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:25 +0000
Subject: [PATCH 44/51] fix: the last day of the calendar has no 24:00

---
 src/result.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/result.cpp b/src/result.cpp
index 58da1ab..ac773f4 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -300,9 +300,10 @@ bool ParsedComponents::isPossibleDate() {
     if(getMinute()  < 0 or getMinute()  > 59) return false;
     if(getSeconds() < 0 or getSeconds() > 59) return false;
 
-    // the day may end at 24:00
+    // the day may end at 24:00, but the last day of the calendar has no day after it
     if(getHour() == 24)
-        return getMinute() == 0 and getSeconds() == 0;
+        return getMinute() == 0 and getSeconds() == 0 and
+               !(getYear() == 9999 and getMonth() == 12 and get_mDay() == 31);
 
     if(getHour() < 0 or getHour() > 23) return false;
 
-- 
2.43.0


From 948c5baf21932698ca52cae81bd7eb37dda05eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:25 +0000
Subject: [PATCH 45/51] fix: do not merge a date and a time into a date-time
 outside the calendar

---
 src/refiners/en/ENMergeDateAndTimeRefiner.hpp | 27 ++++++++++++++++---
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
index 5b2398f..fb91029 100644
--- a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
@@ -111,6 +111,25 @@ public:
         return dateResult;
     }
 
+    bool merge(std::string& text, parse::ParsedResult& merged,
+               parse::ParsedResult& dateResult, parse::ParsedResult& timeResult) {
+        /**
+         * @brief: merge a date and time result, unless they make a date-time outside the calendar
+         * @param merged: set to the merged result
+         * @return whether they were merged
+         */
+        try {
+            parse::ParsedResult res = mergeResult(text, dateResult, timeResult);
+            if(!res.hasPossibleDates())
+                return false;
+            merged = res;
+            return true;
+        }
+        catch (std::out_of_range& e) {
+            return false;
+        }
+    }
+
     Result refine(Result r, std::string t) override {
         /**
          * @brief Merge a date-only result and a time-only result into one combined result
@@ -128,8 +147,8 @@ public:
             curr = r[i];
             prev = r[i-1];
 
-            if(isDateOnly(prev) and isTimeOnly(curr) and isAbleToMerge(t, prev, curr)) {
-                prev = mergeResult(t, prev, curr);
+            if(isDateOnly(prev) and isTimeOnly(curr) and isAbleToMerge(t, prev, curr) and
+               merge(t, prev, prev, curr)) {
                 try {
                     curr = r.at(i+1);
                 }
@@ -138,8 +157,8 @@ public:
                 }
                 i++;
             }
-            else if(isDateOnly(curr) and isTimeOnly(prev) and isAbleToMerge(t, prev, curr)) {
-                prev = mergeResult(t, curr, prev);
+            else if(isDateOnly(curr) and isTimeOnly(prev) and isAbleToMerge(t, prev, curr) and
+                    merge(t, prev, curr, prev)) {
                 try {
                     curr = r.at(i+1);
                 }
-- 
2.43.0


From a1b386016c38d8fba64d3c8dbb3aab51099562f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:25 +0000
Subject: [PATCH 46/51] fix: report a date that is outside the calendar in UTC
 as invalid

---
 time.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/time.cpp b/time.cpp
index 9e578a0..a9f21ca 100644
--- a/time.cpp
+++ b/time.cpp
@@ -87,10 +87,17 @@ int main(int argc, char* argv[]) {
         results = refiner->refine(results, str);
     }
 
-    if(results.empty())
+    string date;
+    try {
+        if(!results.empty())
+            date = results.at(0).toDate();
+    } // thrown if the date is outside the calendar in UTC
+    catch (std::out_of_range&) { }
+
+    if(date.empty())
         cout << "[???] -- Invalid date" << endl;
     else
-        cout << "Date:\t"  << results.at(0).toDate() << endl;
+        cout << "Date:\t"  << date << endl;
 
     return 0;
 }
\ No newline at end of file
-- 
2.43.0


From 4738c8f081dd317b792542ad4c8162259489c7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:56 +0000
Subject: [PATCH 47/51] fix: keep the order of the parsers for results at the
 same index

With more than 16 results std::sort is not stable, so which of 'noon' as a casual
time and 'noon' as a clock time was reported depended on how much text followed.
---
 time.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/time.cpp b/time.cpp
index a9f21ca..032d8cc 100644
--- a/time.cpp
+++ b/time.cpp
@@ -78,7 +78,7 @@ int main(int argc, char* argv[]) {
         results.insert(results.end(), p_result.begin(), p_result.end());
     }
 
-    std::sort(results.begin(), results.end(),
+    std::stable_sort(results.begin(), results.end(),
             [&](parse::ParsedResult p1, parse::ParsedResult p2) {
                 return p1.getIndex() < p2.getIndex();
     });
-- 
2.43.0


From 92f1265f101a1872f94ac9b904908fceafeb87ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:56 +0000
Subject: [PATCH 48/51] fix: print the usage if the reference date can not be
 read

The program was aborted by the exception, for example for '2019-05-15'.
---
 time.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/time.cpp b/time.cpp
index 032d8cc..f792c9f 100644
--- a/time.cpp
+++ b/time.cpp
@@ -70,7 +70,13 @@ int main(int argc, char* argv[]) {
 
     if(argc == 3) {
         string refDate = argv[2];
-        t = posix_time::time_from_string(refDate);
+        try {
+            t = posix_time::time_from_string(refDate);
+        } // thrown if it is not in the format, or not a day of the calendar
+        catch (std::exception&) {
+            printUsage();
+            return 0;
+        }
     }
 
     for(auto& parser: parsers) {
-- 
2.43.0


From 9d486fb3f53cce34f38c1546f3e0e8c9e61f6b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:23 +0000
Subject: [PATCH 49/51] fix: count amounts of time units exactly

A float has 24 bits only: 16777217 seconds were counted as 16777216, and
2147483647 seconds ago overflowed into the future.
---
 src/parsers/en/ENDeadlineFormatParser.hpp     |  2 +-
 src/parsers/en/ENRelativeDateFormatParser.hpp |  6 +++---
 src/parsers/en/ENTimeAgoFormatParser.hpp      |  8 ++++----
 src/parsers/en/ENTimeLaterParser.hpp          | 10 +++++-----
 src/utils/utils.cpp                           |  8 ++++----
 src/utils/utils.hpp                           |  4 ++--
 6 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/parsers/en/ENDeadlineFormatParser.hpp b/src/parsers/en/ENDeadlineFormatParser.hpp
index 016cc6e..b146071 100644
--- a/src/parsers/en/ENDeadlineFormatParser.hpp
+++ b/src/parsers/en/ENDeadlineFormatParser.hpp
@@ -33,7 +33,7 @@
             parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
 
             std::string tmp = match.str(3);
-            float num;
+            double num;
             // check if integer is in integer_words
             if(utils::INTEGER_WORDS.find(tmp) != utils::INTEGER_WORDS.end()) {
                 num = utils::INTEGER_WORDS[tmp];
diff --git a/src/parsers/en/ENRelativeDateFormatParser.hpp b/src/parsers/en/ENRelativeDateFormatParser.hpp
index 0e0ac40..f2be39a 100644
--- a/src/parsers/en/ENRelativeDateFormatParser.hpp
+++ b/src/parsers/en/ENRelativeDateFormatParser.hpp
@@ -33,7 +33,7 @@
             std::regex dwmy(("day|week|month|year"), std::regex::icase);
 
             std::string num_label{match.str(MULTIPLIER_WORD_GROUP)};
-            float num{-1};
+            double num{-1};
 
             if(utils::INTEGER_WORDS.find(num_label) != utils::INTEGER_WORDS.end()) {
                 num = utils::INTEGER_WORDS[num_label];
@@ -49,7 +49,7 @@
             }
             else {
                 try {
-                    num = std::stof(num_label);
+                    num = std::stoi(num_label);
                 }
                 catch (std::logic_error &l) {
                     std::cerr << l.what() << " :at ENRelativeDateFormatParser" << std::endl;
@@ -117,7 +117,7 @@
             if(std::regex_search(match.str(RELATIVE_WORD_GROUP), dwmy)) {
                 result.setTag(utils::ENRelativeDateFormatParser);
                 // posix_time::ptime tmpTime{ref};
-                /* NOTE: Since we used num as a float to support use of "few"
+                /* NOTE: Since we used num as a double to support use of "few"
                  *       I'll check if it's a fraction and use the lower denomination
                  *       e.g: for half a day, since boost supports only whole numbers,
                  *       you'll see posix_time::hours(12) instead of gregorian::days(0.5).
diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index e173b25..72c54bd 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -28,7 +28,7 @@
                 return result;
             }
 
-            std::map<std::string, float> fragments = utils::extractDateTimeUnitFragments(match.str(2));
+            std::map<std::string, double> fragments = utils::extractDateTimeUnitFragments(match.str(2));
 
             gregorian::date date{ref.date()};
             posix_time::ptime date_t{ref};
@@ -46,11 +46,11 @@
                         date -= gregorian::days(
                                 static_cast<int> (a.second)); // you sure you wanna cast these bad boys?
                     else if(a.first == "hour")
-                        date_t -= posix_time::hours(static_cast<int> (a.second));
+                        date_t -= posix_time::hours(static_cast<long> (a.second));
                     else if(a.first == "minute")
-                        date_t -= posix_time::minutes(static_cast<int> (a.second));
+                        date_t -= posix_time::minutes(static_cast<long> (a.second));
                     else if(a.first == "second")
-                        date_t -= posix_time::seconds(static_cast<int> (a.second));
+                        date_t -= posix_time::seconds(static_cast<long> (a.second));
                 }
                 catch (std::out_of_range &e) {
                     std::cerr << e.what() << " at ENTimeAgoFormatParser" << std::endl;
diff --git a/src/parsers/en/ENTimeLaterParser.hpp b/src/parsers/en/ENTimeLaterParser.hpp
index e3ab70e..ba8b59d 100644
--- a/src/parsers/en/ENTimeLaterParser.hpp
+++ b/src/parsers/en/ENTimeLaterParser.hpp
@@ -32,9 +32,9 @@
             if (match.position(0) > 0 and std::regex_match(tx.substr(match.position(0) - 1, 1), std::regex("\\w")))
                 return result;
 
-            std::map<std::string, float> fragments = utils::extractDateTimeUnitFragments(match.str(2));
+            std::map<std::string, double> fragments = utils::extractDateTimeUnitFragments(match.str(2));
 
-            // tricky here turning the floats to ints
+            // tricky here turning the doubles to ints
             gregorian::date date{ref.date()};
             posix_time::ptime date_t{ref};
 
@@ -53,13 +53,13 @@
                     date += gregorian::days(static_cast<int> (a.second)); // you sure you wanna cast these bad boys?
                 }
                 else if(a.first == "hour") {
-                    date_t += posix_time::hours(static_cast<int> (a.second));
+                    date_t += posix_time::hours(static_cast<long> (a.second));
                 }
                 else if(a.first == "minute") {
-                    date_t += posix_time::minutes(static_cast<int> (a.second));
+                    date_t += posix_time::minutes(static_cast<long> (a.second));
                 }
                 else if(a.first == "second") {
-                    date_t += posix_time::seconds(static_cast<int> (a.second));
+                    date_t += posix_time::seconds(static_cast<long> (a.second));
                 }
             }
 
diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 43ef122..4a6b479 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -31,8 +31,8 @@ std::string utils::keysToString(std::map<std::string, unsigned> arg) {
     return result;
 }
 
-std::map<std::string, float> utils::extractDateTimeUnitFragments(std::string timeunitText) {
-    std::map<std::string, float> fragments;// = {};
+std::map<std::string, double> utils::extractDateTimeUnitFragments(std::string timeunitText) {
+    std::map<std::string, double> fragments;// = {};
     std::string remainingText{timeunitText};
     std::smatch match;
 
@@ -46,9 +46,9 @@ std::map<std::string, float> utils::extractDateTimeUnitFragments(std::string tim
     return fragments;
 };
 
-std::map<std::string, float> utils::collectDateTimeFragment(std::smatch match, std::map<std::string, float>& fragments) {
+std::map<std::string, double> utils::collectDateTimeFragment(std::smatch match, std::map<std::string, double>& fragments) {
     std::string _num = utils::toLowerCase(match[1].str());
-    float num;
+    double num;
 
     if (utils::INTEGER_WORDS.count(_num) > 0) {
         num = utils::INTEGER_WORDS[_num];
diff --git a/src/utils/utils.hpp b/src/utils/utils.hpp
index aa4138e..dfab1da 100644
--- a/src/utils/utils.hpp
+++ b/src/utils/utils.hpp
@@ -194,9 +194,9 @@ namespace utils {
 
     static std::regex PATTERN_TIME_UNIT(TIME_UNIT, std::regex::icase);
 
-    std::map<std::string, float> extractDateTimeUnitFragments(std::string);
+    std::map<std::string, double> extractDateTimeUnitFragments(std::string);
 
-    std::map<std::string, float> collectDateTimeFragment(std::smatch , std::map<std::string, float>& );
+    std::map<std::string, double> collectDateTimeFragment(std::smatch , std::map<std::string, double>& );
 }
 
 
-- 
2.43.0


From 6476da653ed74327ac5526795cca2a0cf2e4aa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:21 +0000
Subject: [PATCH 50/51] fix: reject amounts that lead beyond the calendar

boost counts days in 32 bit and months in 16 bit integers that wrap around:
"65536 years later" was the day of the reference itself.
---
 src/parsers/en/ENDeadlineFormatParser.hpp     |  1 +
 src/parsers/en/ENRelativeDateFormatParser.hpp |  2 ++
 src/parsers/en/ENWeekExperessionParser.hpp    |  2 ++
 src/utils/utils.cpp                           | 23 +++++++++++++++++++
 src/utils/utils.hpp                           |  2 ++
 5 files changed, 30 insertions(+)

diff --git a/src/parsers/en/ENDeadlineFormatParser.hpp b/src/parsers/en/ENDeadlineFormatParser.hpp
index b146071..78c1643 100644
--- a/src/parsers/en/ENDeadlineFormatParser.hpp
+++ b/src/parsers/en/ENDeadlineFormatParser.hpp
@@ -57,6 +57,7 @@
                 }
             }
 
+            utils::checkAmount(match.str(4), num);
             result.setTag(utils::ENDeadlineFormatParser);
 
             /* boost::date_time functions deal with long ints,
diff --git a/src/parsers/en/ENRelativeDateFormatParser.hpp b/src/parsers/en/ENRelativeDateFormatParser.hpp
index f2be39a..05946d0 100644
--- a/src/parsers/en/ENRelativeDateFormatParser.hpp
+++ b/src/parsers/en/ENRelativeDateFormatParser.hpp
@@ -114,6 +114,8 @@
             }
 
             // not this
+            utils::checkAmount(match.str(RELATIVE_WORD_GROUP), num);
+
             if(std::regex_search(match.str(RELATIVE_WORD_GROUP), dwmy)) {
                 result.setTag(utils::ENRelativeDateFormatParser);
                 // posix_time::ptime tmpTime{ref};
diff --git a/src/parsers/en/ENWeekExperessionParser.hpp b/src/parsers/en/ENWeekExperessionParser.hpp
index 0fa868c..c6a11d7 100644
--- a/src/parsers/en/ENWeekExperessionParser.hpp
+++ b/src/parsers/en/ENWeekExperessionParser.hpp
@@ -36,6 +36,8 @@
                 }
                 numberOfWeeks = word->second;
             }
+            utils::checkAmount("week", numberOfWeeks);
+
             if(match.str(2).find("last") != std::string::npos) {
                 tmp -= gregorian::weeks(numberOfWeeks);
             }
diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 4a6b479..11d95e0 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -31,6 +31,27 @@ std::string utils::keysToString(std::map<std::string, unsigned> arg) {
     return result;
 }
 
+// boost counts days and months in integers that wrap around, so amounts that
+// lead beyond the calendar from any day are rejected here
+void utils::checkAmount(const std::string& unit, double num) {
+    const double daysOfCalendar = 8600 * 366.0;
+    double days = 0;
+
+    if(unit.compare(0, 1, "y") == 0)
+        days = 365;
+    else if(unit.compare(0, 2, "mo") == 0)
+        days = 28;
+    else if(unit.compare(0, 1, "w") == 0)
+        days = 7;
+    else if(unit.compare(0, 1, "d") == 0)
+        days = 1;
+    else if(unit.compare(0, 1, "h") == 0)
+        days = 1 / 24.0;
+
+    if(num * days > daysOfCalendar)
+        throw std::out_of_range("Amount of " + unit + " is out of the calendar");
+}
+
 std::map<std::string, double> utils::extractDateTimeUnitFragments(std::string timeunitText) {
     std::map<std::string, double> fragments;// = {};
     std::string remainingText{timeunitText};
@@ -63,6 +84,8 @@ std::map<std::string, double> utils::collectDateTimeFragment(std::smatch match,
     }
 
     std::string element{match[2].str()};
+    utils::checkAmount(element, num);
+
     if(num == 0.5) {
         // the parsers add whole amounts only, so turn half a unit into smaller units
         if(std::regex_search(element, std::regex("hour", std::regex::icase)))
diff --git a/src/utils/utils.hpp b/src/utils/utils.hpp
index dfab1da..ba75ed3 100644
--- a/src/utils/utils.hpp
+++ b/src/utils/utils.hpp
@@ -194,6 +194,8 @@ namespace utils {
 
     static std::regex PATTERN_TIME_UNIT(TIME_UNIT, std::regex::icase);
 
+    void checkAmount(const std::string& unit, double num);
+
     std::map<std::string, double> extractDateTimeUnitFragments(std::string);
 
     std::map<std::string, double> collectDateTimeFragment(std::smatch , std::map<std::string, double>& );
-- 
2.43.0


From d736d5b2491fcebe3c9b3fc3e8699eb492b8f36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:07 +0000
Subject: [PATCH 51/51] fix: what does not fit the calendar's types is no date

---
 src/result.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/result.cpp b/src/result.cpp
index ac773f4..b5f30f0 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -289,6 +289,11 @@ bool ParsedComponents::isCertain(std::string comp) {
 }
 
 bool ParsedComponents::isPossibleDate() {
+    // the calendar's types would cut down what does not fit them
+    if(getYear()  < 1400 or getYear()  > 9999) return false;
+    if(getMonth() < 1    or getMonth() > 12)   return false;
+    if(get_mDay() < 1    or get_mDay() > 31)   return false;
+
     try {
         // throws if there is no such day
         gregorian::date day(getYear(), getMonth(), get_mDay());
-- 
2.43.0


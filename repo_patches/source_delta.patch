From 6349f4590dc53c676e5d582cc3dc8f25b79bc207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 01/56] fix: make the last supported year (1161) reachable from
 JDs and ordinals

_RD_END was the first day of year 1161, so every JD or ordinal inside the
year was rejected, and the year start table had no coefficient for year
1162 which made 1161 a leap year directly after the leap year 1160.
---
 badidatetime/__init__.py      | 2 +-
 badidatetime/_coefficients.py | 2 +-
 badidatetime/datetime.py      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/badidatetime/__init__.py b/badidatetime/__init__.py
index e5e87c3..d63b078 100644
--- a/badidatetime/__init__.py
+++ b/badidatetime/__init__.py
@@ -114,7 +114,7 @@ def init_leap_cache():
     """
     bc = BahaiCalendar
     bc._YEAR_START = BahaiCalendar()._build_badi_year_start()
-    bc._RD_END = bc._YEAR_START[bc.MAXYEAR]
+    bc._RD_END = bc._YEAR_START[bc.MAXYEAR + 1] - 1
 
 
 if BahaiCalendar._YEAR_START is None:
diff --git a/badidatetime/_coefficients.py b/badidatetime/_coefficients.py
index 6ebd958..24053f7 100644
--- a/badidatetime/_coefficients.py
+++ b/badidatetime/_coefficients.py
@@ -15,7 +15,7 @@ class Coefficients:
           (-1251, -1215), (-1099, -1083), (-983, -947), (-851, -815),
           (-699, -683), (-583, -547), (-451, -415), (-299, -283), (-179, -143),
           (-47, -11), (101, 117), (213, 249), (345, 381), (501, 513),
-          (609, 645), (741, 777), (901, 909), (1005, 1041), (1137, 1162))
+          (609, 645), (741, 777), (901, 909), (1005, 1041), (1137, 1163))
     P1100 = ((-1699, -1683), (-1299, -1283), (-899, -883), (-499, -483),
              (-99, -79), (301, 313), (701, 709), (1101, 1105))
     P1110 = ((-1799, -1783), (-1683, -1651), (-1399, -1383), (-1283, -1251),
diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 2ccd727..68dfb8e 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -18,7 +18,7 @@ from .badi_calendar import BahaiCalendar
 from ._timedateutils import _td_utils
 
 
-_MAXORDINAL = 1097267  # date.max.toordinal()
+_MAXORDINAL = 1097266  # date.max.toordinal()
 MINYEAR = BahaiCalendar.MINYEAR
 MAXYEAR = BahaiCalendar.MAXYEAR
 BADI_IANA = BahaiCalendar._BAHAI_LOCATION[3]  # Asia/Tehran
-- 
2.43.0


From 7e8e21114344ddaee6c46ea5d527e282732ecc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:46 +0000
Subject: [PATCH 02/56] fix: convert the days around 29 February of Julian-only
 leap years

The day coefficient was applied after the exact to historic JD conversion,
so twelve dates (for example -1744-19-01) landed on a historic day that
does not exist and raised ValueError, and so did the reverse conversion of
the day after each of them.
---
 badidatetime/badi_calendar.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index 91df1e2..5b248e5 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -201,9 +201,8 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         # The day may have a decimal component. ex. 1.5 = (1 day and 12 hours)
         # This day is relative to UTC time, so we need to compensate for Badí'
         # time since a Badí' day starts at sunset, not at midnight.
-        jd0 = self._meeus_from_exact(jd)
         coeff = self._get_day_coeff(year)
-        jd0 += coeff
+        jd0 = self._meeus_from_exact(jd + coeff)
         jd_ss = self._sun_setting(jd0, lat, lon)
         a_ss = self._exact_from_meeus(jd_ss)
         day_frac = self._decimal_day_from_hms(hh, mm, ss, us)
@@ -794,7 +793,13 @@ class BahaiCalendar(BaseCalendar, Coefficients):
             return self._exact_from_meeus(ss)
 
         hist_jd = self._meeus_from_exact(jd)
-        ss_prev = get_sunset(hist_jd, -1)
+
+        try:  # Historic days that do not exist must be stepped over.
+            hist_prev = self._meeus_from_exact(jd - 1)
+        except ValueError:  # The previous day is in the reform gap.
+            hist_prev = hist_jd - 1
+
+        ss_prev = get_sunset(hist_prev, 0)
         ss_curr = get_sunset(hist_jd, 0)
         astro_ss = ss_curr if jd >= ss_curr else ss_prev
         delta = jd - astro_ss
-- 
2.43.0


From c46843089aa0f70001edf91d2ded6a275ad8102b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:19 +0000
Subject: [PATCH 03/56] fix: compare and hash dates and datetimes
 chronologically
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Ayyám-i-Há (month 0) sorted before month 1, long form datetimes compared
equal whatever their Kull-i-Shay' and Váḥid, comparing a long with a short
form date raised AttributeError, and equal objects had different hashes.
---
 badidatetime/datetime.py | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 68dfb8e..ec3748c 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -776,16 +776,25 @@ class date(BahaiCalendar):
         """
         assert isinstance(other, date)
 
+        return _cmp(self._sort_key(), other._sort_key())
+
+    def _sort_key(self) -> tuple:
+        """
+        Find a key that puts both short and long form dates in
+        chronological order. Ayyám-i-Há (month 0) is between months 18
+        and 19.
+
+        :returns: The year, the position of the month, and the day.
+        :rtype: tuple
+        """
         if self.is_short:
-            d0 = self._year, self._month, self._day
-            d1 = other._year, other._month, other._day
+            year = self._year
         else:
-            d0 = (self._kull_i_shay, self._vahid, self._year,
-                  self._month, self._day)
-            d1 = (other._kull_i_shay, other._vahid, other._year,
-                  other._month, other._day)
+            year = ((self._kull_i_shay - 1) * 361 + (self._vahid - 1) * 19
+                    + self._year)
 
-        return _cmp(d0, d1)
+        month = 18.5 if self._month == 0 else self._month
+        return year, month, self._day
 
     def __hash__(self) -> int:
         """
@@ -795,7 +804,7 @@ class date(BahaiCalendar):
         :rtype: int
         """
         if self._hashcode == -1:
-            self._hashcode = hash(self._getstate())
+            self._hashcode = hash(self._sort_key())
 
         return self._hashcode
 
@@ -2397,10 +2406,10 @@ class datetime(date):
             base_compare = myoff == otoff
 
         if base_compare:
-            return _cmp((self._year, self._month, self._day, self._hour,
-                         self._minute, self._second, self._microsecond),
-                        (other._year, other._month, other._day, other._hour,
-                         other._minute, other._second, other._microsecond))
+            return _cmp((*self._sort_key(), self._hour, self._minute,
+                         self._second, self._microsecond),
+                        (*other._sort_key(), other._hour, other._minute,
+                         other._second, other._microsecond))
 
         if myoff is None or otoff is None:
             if allow_mixed:
@@ -2500,9 +2509,10 @@ class datetime(date):
             tzoff = t.utcoffset()
 
             if tzoff is None:
-                self._hashcode = hash(t._getstate()[0])
+                self._hashcode = hash((t._sort_key(), t._hour, t._minute,
+                                       t._second, t._microsecond))
             else:
-                days = _td_utils._ymd2ord(self.year, self.month, self.day)
+                days = self.toordinal()
                 seconds = self.hour * 3600 + self.minute * 60 + self.second
                 self._hashcode = hash(timedelta(days, seconds,
                                                 self.microsecond) - tzoff)
-- 
2.43.0


From 997f1f462d90c50afbad443d20e0b07a099037d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 04/56] =?UTF-8?q?fix:=20keep=20the=20Kull-i-Shay'=20and=20?=
 =?UTF-8?q?V=C3=A1=E1=B8=A5id=20of=20long=20form=20datetimes?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

datetime.isoformat() and datetime.date() used the year within the Váḥid as
if it were the full year.
---
 badidatetime/datetime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index ec3748c..268faad 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2001,7 +2001,7 @@ class datetime(date):
         :returns: The date part of the `datetime` instance.
         :rtype: date
         """
-        return date(self._year, self._month, self._day)
+        return date(*self.b_date)
 
     def time(self):
         """
@@ -2199,7 +2199,8 @@ class datetime(date):
         :returns: An ISO formatted string.
         :rtype: str
         """
-        s = (f"{self._year:04d}-{self._month:02d}-{self._day:02d}{sep}" +
+        year, month, day = self._short_from_long_form()[:3]
+        s = (f"{year:04d}-{month:02d}-{day:02d}{sep}" +
              _format_time(self._hour, self._minute, self._second,
                           self._microsecond, timespec))
 
-- 
2.43.0


From 6bc3bc9318c1874e400c7e1bc3595731561bafb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:01 +0000
Subject: [PATCH 05/56] =?UTF-8?q?fix:=20unpickle=20Ayy=C3=A1m-i-H=C3=A1=20?=
 =?UTF-8?q?dates=20and=20times=20in=20hour=2024?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The state checks only accepted months 1 to 19 and hours 0 to 23, so
pickling or copying a date in month 0 or a time such as time.max failed.
---
 badidatetime/datetime.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 268faad..e088516 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -919,8 +919,8 @@ class date(BahaiCalendar):
                 f"Invalid string {a} had length of {a_len} for pickle.")
             short = True if a_len == 4 else False
 
-            if ((short and 1 <= ord(a[2:3]) <= 19)
-                or not short and 1 <= ord(a[3:4]) <= 19):
+            if ((short and 0 <= ord(a[2:3]) <= 19)
+                or not short and 0 <= ord(a[3:4]) <= 19):
                 if isinstance(a, str):
                     try:
                         a = a.encode('latin1')
@@ -1111,7 +1111,7 @@ class time:
         :rtype: time
         """
         if (isinstance(hour, (bytes, str)) and len(hour) == 6 and
-            ord(hour[0:1]) & 0x7F < 24):
+            ord(hour[0:1]) & 0x7F <= 24):
             # Pickle support
             if isinstance(hour, str):
                 try:
@@ -2541,8 +2541,8 @@ class datetime(date):
                 f"Invalid string {a} had length of {a_len} for pickle.")
             short = True if a_len == 10 else False
 
-            if ((short and 1 <= ord(a[2:3]) & 0x7F <= 19)
-                or not short and 1 <= ord(a[3:4]) & 0x7F <= 19):
+            if ((short and 0 <= ord(a[2:3]) & 0x7F <= 19)
+                or not short and 0 <= ord(a[3:4]) & 0x7F <= 19):
                 if isinstance(a, str):
                     try:
                         a = a.encode('latin1')
-- 
2.43.0


From d534664370ec136d51c35437a4bea162849e5f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 06/56] fix: keep the ZoneInfo of a TZWithCoords on its own
 instance

fromzoneinfo() stored the ZoneInfo on the class, so it changed dst() of every
other TZWithCoords object, UTC and BADI included.
---
 badidatetime/datetime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index e088516..003ba90 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2916,8 +2916,9 @@ class TZWithCoords(timezone):
         :returns: A TZWithCoords object.
         :rtype: TZWithCoords
         """
-        cls._zi = zoneinfo
-        return cls(lat, lon, zone, key=zoneinfo.key)
+        self = cls(lat, lon, zone, key=zoneinfo.key)
+        self._zi = zoneinfo
+        return self
 
     def __str__(self) -> str:
         """
-- 
2.43.0


From ffce3af117a4e25f4c550cb09ddf1708ad7d7f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:47 +0000
Subject: [PATCH 07/56] fix: restore zone, name, and ZoneInfo of an unpickled
 TZWithCoords

---
 badidatetime/datetime.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 003ba90..c544083 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2942,7 +2942,8 @@ class TZWithCoords(timezone):
         :rtype: tuple
         """
         return (self.__class__, (self.lat, self.lon),
-                {"zone": self._coords[2], "key": self.key})
+                {"zone": self._coords[2], "key": self.key,
+                 "zi": getattr(self, '_zi', None)})
 
     def __setstate__(self, state: dict) -> None:
         """
@@ -2957,7 +2958,12 @@ class TZWithCoords(timezone):
         if zone is not None:
             self._offset = timedelta(hours=zone)
 
+        if (zi := state.get("zi")) is not None:
+            self._zi = zi
+
+        self.zone = zone
         self.key = key
+        self._name = None if key == "" else key
         self._coords = (self.lat, self.lon, zone)
 
 
-- 
2.43.0


From 2ba641400687bf2176325cbf0d9af6a873eb81b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:23 +0000
Subject: [PATCH 08/56] fix: time <= raises TypeError for mixed naive and aware
 times

__le__ passed the time class as the allow_mixed argument.
---
 badidatetime/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index c544083..b6a9beb 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1211,7 +1211,7 @@ class time:
                 if isinstance(other, time) else NotImplemented)
 
     def __le__(self, other):
-        return (self._cmp(other, time) <= 0 if isinstance(other, time)
+        return (self._cmp(other) <= 0 if isinstance(other, time)
                 else NotImplemented)
 
     def __lt__(self, other):
-- 
2.43.0


From 22164209626eb2cd7b6bd6f5219636f02a123792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:23 +0000
Subject: [PATCH 09/56] fix: apply the sign of an ISO offset to its minutes

'-03:30' was parsed as minus three hours plus thirty minutes.
---
 badidatetime/_timedateutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 2456039..23ad84f 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1409,9 +1409,9 @@ class TimeDateUtils(BahaiCalendar):
                 tz = timezone.badi
             else:
                 offset = [int(x) for x in tzstr[1:].split(':')]
-                offset[0] = offset[0] * -1 if nc else offset[0]
                 offset += [0] if len(offset) == 1 else []
-                tz = timezone(timedelta(hours=offset[0], minutes=offset[1]))
+                delta = timedelta(hours=offset[0], minutes=offset[1])
+                tz = timezone(-delta if nc else delta)
         else:
             tz = None
 
-- 
2.43.0


From 2bae32d10c235e7ab473b53dcfdaf4f51ad5f92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:02 +0000
Subject: [PATCH 10/56] fix: read both day digits of a YYYYMMDD ISO date

---
 badidatetime/_timedateutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 23ad84f..91281d1 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1244,7 +1244,7 @@ class TimeDateUtils(BahaiCalendar):
         if dc == 1 and d_len == 7 and not wc:    # YYYY-MM
             date = (year, int(dtstr[5:7]), 1)
         elif dc == 0 and d_len == 8 and not wc:  # YYYYMMDD
-            date = (year, int(dtstr[4:6]), int(dtstr[7:9]))
+            date = (year, int(dtstr[4:6]), int(dtstr[6:8]))
         elif dc == 2 and not wc:                 # YYYY-MM-DD
             date = (year, int(dtstr[5:7]), int(dtstr[8:10]))
         # YYYYWww, YYYY-Www, YYYYWwwD, YYYY-Www-D
-- 
2.43.0


From 8e866398c868e92af6eb2c83385af29d0881612b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 11/56] fix: reject ISO ordinal dates past the end of the year

Day 366 of a 365 day year was silently parsed as the first day of month 19.
---
 badidatetime/_timedateutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 91281d1..03ad1b1 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1268,6 +1268,8 @@ class TimeDateUtils(BahaiCalendar):
             for month, ds in month_days:
                 if days <= ds: break
                 days -= ds
+            else:
+                raise ValueError(f"Invalid day of the year in {dtstr!r}.")
 
             date = (year, month, days)
         else:
-- 
2.43.0


From bc1d13274f8108e9cfcc99d3abfdcaf8870d2a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:22 +0000
Subject: [PATCH 12/56] fix: reject ISO weeks past the end of the year

Week numbers such as 0, 53, or 99 were accepted in most years and gave a
date in another year.
---
 badidatetime/_timedateutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 03ad1b1..58be57a 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1143,6 +1143,8 @@ class TimeDateUtils(BahaiCalendar):
                     out_of_range = False
 
                 assert not out_of_range, f"Invalid week: {week}"
+            else:
+                assert week == 52, f"Invalid week: {week}"
 
         assert 0 < day < 8, f"Invalid weekday: {day} (range is [1, 7])"
         # Now compute the offset from (Y, 1, 1) in days:
-- 
2.43.0


From f1bb7cc48a0ff2e0173e1b436db15113f2c8de56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 13/56] fix: parse the ISO format of the years -999 to -1

isoformat() writes these years with three digits (-091-09-16) and
date.fromisoformat() raised ValueError on them.
---
 badidatetime/_timedateutils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 58be57a..f81ac45 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1228,6 +1228,10 @@ class TimeDateUtils(BahaiCalendar):
 
         if dtstr != '':
             neg = dtstr[0] == '-'
+
+            if neg and dtstr[4:5] == '-':  # The isoformat of -999 to -1.
+                dtstr = f"-0{dtstr[1:]}"
+
             year = int(dtstr[:4 + neg])
             assert _td_utils.MINYEAR <= year <= _td_utils.MAXYEAR, (
                 f"Year is out of range: {year}, min {_td_utils.MINYEAR}, "
-- 
2.43.0


From 71fcc6f8d86d9f4af5ff6ef244ab7740674f4f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:05 +0000
Subject: [PATCH 14/56] fix: datetime.fromisoformat() of a date without a time

'0181-03-15' gave 0181-03-01T00:00:00-15:00 and '01810315' raised IndexError.
---
 badidatetime/_timedateutils.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index f81ac45..4add6e8 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -7,6 +7,7 @@ __docformat__ = "restructuredtext en"
 import time
 import locale
 import math
+import re
 from typing import NamedTuple
 from collections import OrderedDict
 
@@ -1188,11 +1189,18 @@ class TimeDateUtils(BahaiCalendar):
 
         tz_chars = ('Z', 'B', '+', '-')
         init_chars = ('T', ' ') + tz_chars
-        idx = find_index(dtstr, init_chars)
+
+        # The last hyphen of a complete date does not start a timezone.
+        if re.fullmatch(r'-?\d{4}(\d{3,4}|W\d{3})|'
+                        r'-?\d{3,4}-(\d{2}(-\d{2})?|\d{3}|W\d{2}-\d)', dtstr):
+            idx = len(dtstr)
+        else:
+            idx = find_index(dtstr, init_chars)
+
         str_date = dtstr[:idx]
         date = self._parse_isoformat_date(str_date) if str_date else ()
         str_other = dtstr[idx:]
-        tz_1st = str_other[0] in tz_chars
+        tz_1st = str_other[:1] in tz_chars
 
         if tz_1st:
             tz = (self._parse_isoformat_timezone(str_other)
-- 
2.43.0


From 07d8bbdbe9250e6522ab7ac1e93538321b789d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:44 +0000
Subject: [PATCH 15/56] fix: datetime.fromisoformat() raises ValueError on
 malformed strings

It raised AssertionError, IndexError, or TypeError depending on the string,
date.fromisoformat() and time.fromisoformat() raise ValueError.
---
 badidatetime/datetime.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index b6a9beb..004044a 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1930,8 +1930,18 @@ class datetime(date):
         :returns: A `datetime` instance.
         :rtype: datetime
         """
-        date, time, tz = _td_utils._parse_isoformat_date_time_timezone(
-            date_string)
+        if not isinstance(date_string, str):
+            raise TypeError("fromisoformat: argument must be a string.")
+
+        try:
+            date, time, tz = _td_utils._parse_isoformat_date_time_timezone(
+                date_string)
+        except Exception as e:
+            raise ValueError(str(e))
+
+        if date == ():
+            raise ValueError(f"Invalid isoformat string: {date_string!r}.")
+
         t_len = len(time)
         time = list(time)
         time += [0 for v in range(4 - t_len)]
-- 
2.43.0


From a356d0577d1a0ab19c6a5ffd913e7dda465aa67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 16/56] fix: strftime() keeps literal characters and percent
 escapes

A literal character after '-' or ':' was dropped, '%%Y' was rendered as a
directive, and a percent at the end raised IndexError.
---
 badidatetime/_timedateutils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 4add6e8..2f09715 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -889,7 +889,8 @@ class TimeDateUtils(BahaiCalendar):
                 ch1 = format[idx+i]
                 strf += self.__METHOD_LOOKUP[ch1](
                     self, ttup, ch1, ch0 if i == 2 else '')
-            elif format[idx-1] not in '%-:':
+                idx += i
+            elif ch != '%':  # A lone percent at the end is dropped.
                 strf += ch
 
             idx += 1
@@ -908,17 +909,19 @@ class TimeDateUtils(BahaiCalendar):
         while idx < fmtlen:
             ch = format[idx]
 
-            if ch == '%' and format[idx-1] != '%':
+            if ch == '%' and idx+1 < fmtlen:
                 ch0 = format[idx+1]
                 i = 2 if ch0 in '-:' else 1
-                ch1 = format[idx+i]
+                ch1 = format[idx+i:idx+i+1]
 
-                if ((ch1 not in self._VALID_FORMAT_CHRS) or
+                if ((ch1 not in self._VALID_FORMAT_CHRS) or ch1 == '' or
                     (ch0 == '-' and ch1 not in 'dHjlmMSy') or
                     (ch0 == ':' and ch1 not in 'KVz')):
                     raise ValueError(
                         f"Invalid format character '{format[idx:idx+i+1]}'")
 
+                idx += i
+
             idx += 1
 
         if fmtlen == 0:
-- 
2.43.0


From 312665597d7f97bd1b2e5bb976634f3823f6dc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:26 +0000
Subject: [PATCH 17/56] fix: count the microseconds of a naive timestamp once

_mktime() already includes the microseconds.
---
 badidatetime/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 004044a..1fa0975 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1978,7 +1978,7 @@ class datetime(date):
         :rtype: float
         """
         if self.tzinfo is None:
-            return self._mktime() + self.microsecond / 1e6
+            return self._mktime()
         else:
             return (self - _EPOCH).total_seconds()
 
-- 
2.43.0


From e4b6a0df93bd8372e9dcfda13bb36c5ab763b0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 18/56] fix: return the nutation of the requested century only

The cached values were read again after they were stored, so a thread sharing
the object could get the values of another date, and the initial cache entry
answered 0 for J2000.0.
---
 badidatetime/base_calendar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/badidatetime/base_calendar.py b/badidatetime/base_calendar.py
index b18648b..ec8bacf 100644
--- a/badidatetime/base_calendar.py
+++ b/badidatetime/base_calendar.py
@@ -63,7 +63,7 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
 
     def __init__(self, *args, **kwargs):
         self._time = None
-        self._nutation = {'lon': (0, 0, False), 'obl': (0, 0, False)}
+        self._nutation = {'lon': (None, 0, False), 'obl': (None, 0, False)}
         self._sun_tss = {'trn': (), 'rsn': (), 'stn': ()}
 
     #
@@ -469,7 +469,7 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
             self._nutation['lon'] = (tc, lon_sum, degrees)
             self._nutation['obl'] = (tc, obl_sum, degrees)
 
-        return self._nutation['lon'][1]
+        return lon_sum
 
     def _nutation_obliquity(self, tc: float, *, degrees: bool=False) -> float:
         """
@@ -481,7 +481,7 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
         :returns: The nutation of obliquity.
         :rtype: float
         """
-        tc_day, obj_sum, deg = self._nutation['obl']
+        tc_day, obl_sum, deg = self._nutation['obl']
 
         if tc != tc_day or degrees != deg:
             lon_sum, obl_sum = self._nutation_obliquity_longitude(
@@ -489,7 +489,7 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
             self._nutation['lon'] = (tc, lon_sum, degrees)
             self._nutation['obl'] = (tc, obl_sum, degrees)
 
-        return self._nutation['obl'][1]
+        return obl_sum
 
     def _nutation_obliquity_longitude(self, tc: float, degrees: bool=False
                                       ) -> float:
-- 
2.43.0


From 659e630d2b6f2f334efd0665416cd0ebf18d6ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 19/56] fix: keep every microsecond of fractional seconds

---
 badidatetime/base_calendar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/badidatetime/base_calendar.py b/badidatetime/base_calendar.py
index ec8bacf..13acd66 100644
--- a/badidatetime/base_calendar.py
+++ b/badidatetime/base_calendar.py
@@ -39,7 +39,8 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
     _PARTIAL_DAY_TO_HOURS = lambda self, x: round((x % 1) * 24, 6)
     _PARTIAL_HOUR_TO_MINUTE = lambda self, x: round((x % 1) * 60, 6)
     _PARTIAL_MINUTE_TO_SECOND = _PARTIAL_HOUR_TO_MINUTE
-    _PARTIAL_SECOND_TO_MICROSECOND = lambda self, x: int(round(x % 1, 6) * 1e6)
+    _PARTIAL_SECOND_TO_MICROSECOND = lambda self, x: min(
+        round(x % 1 * 1e6), 999999)
 
     _MEAN_TROPICAL_YEAR = 365.2421897
     # MEAN_SIDEREAL_YEAR = 365.256363004
-- 
2.43.0


From 2404a41e2a0da916bf485461a1b76c55d9727c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:26 +0000
Subject: [PATCH 20/56] fix: hash equal times alike when the UTC hour is 24

---
 badidatetime/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 1fa0975..6f04863 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1293,7 +1293,7 @@ class time:
                 assert not m % timedelta(minutes=1), "Must be a whole minute."
                 m //= timedelta(minutes=1)
 
-                if 0 <= h < 24:
+                if 0 <= h <= 24:  # Hour 24 is a valid hour.
                     self._hashcode = hash(time(h, m, self.second,
                                                self.microsecond))
                 else:
-- 
2.43.0


From 2a9383117da5e62c58c3288e7a742f6f06fbd7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 21/56] fix: pad the microseconds of a long form datetime
 string

---
 badidatetime/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 6f04863..6af1acc 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2271,7 +2271,7 @@ class datetime(date):
         else:
             ret = self._str_convertion()
             ret += f"{sep}{self.hour:02}:{self.minute:02}:{self.second:02}"
-            ret += f".{self.microsecond}" if self.microsecond else ""
+            ret += f".{self.microsecond:06}" if self.microsecond else ""
             off = self.utcoffset()
             tz = _format_offset(off)
 
-- 
2.43.0


From 8d025fce1983d94fd5234eabce8b8ade3bdf8bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:55 +0000
Subject: [PATCH 22/56] fix: give the right date for negative and end of year
 POSIX timestamps

---
 badidatetime/gregorian_calendar.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/badidatetime/gregorian_calendar.py b/badidatetime/gregorian_calendar.py
index 19212ff..91f7b7b 100644
--- a/badidatetime/gregorian_calendar.py
+++ b/badidatetime/gregorian_calendar.py
@@ -208,13 +208,18 @@ class GregorianCalendar(BaseCalendar):
         days = math.floor(t / self._SECONDS_PER_DAY)
         year = 1970
         leap = False
-        days = abs(days) + 1
+        days += 1
+
+        # Find the year of a day before the epoch.
+        while days < 1:
+            year -= 1
+            days += 365 + self._is_leap_year(year)
 
         # Find the year and remaining number of days.
         while True:
             leap = self._is_leap_year(year)
             diy = 365 + leap
-            if days < diy: break
+            if days <= diy: break
             days -= diy
             year += 1
 
-- 
2.43.0


From 93c27313405a3808744c675b9ced72c40314d476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:09 +0000
Subject: [PATCH 23/56] fix: reject long form dates past the last supported
 year

---
 badidatetime/badi_calendar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index 5b248e5..9db7167 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -655,6 +655,9 @@ class BahaiCalendar(BaseCalendar, Coefficients):
                 f"Invalid year '{year}' in a Váḥid, it must be in the "
                 "range of [1, 19].")
             ly = (kull_i_shay - 1) * 361 + (vahid - 1) * 19 + year
+            assert self.MINYEAR-1 <= ly <= self.MAXYEAR+1, (
+                f"Invalid year '{ly}' it must be in the range of ["
+                f"{self.MINYEAR}, {self.MAXYEAR}].")
         else:  # Short Badí' date
             year, month, day = b_date[:3]
             hour, minute, second, us = self._get_hms(b_date, short_in=True)
-- 
2.43.0


From 1d417753bebd15b220bb42d1ea598d2c82355b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:57 +0000
Subject: [PATCH 24/56] fix: convert the days around historic leap days at
 every longitude

---
 badidatetime/badi_calendar.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index 9db7167..7b71e37 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -204,7 +204,8 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         coeff = self._get_day_coeff(year)
         jd0 = self._meeus_from_exact(jd + coeff)
         jd_ss = self._sun_setting(jd0, lat, lon)
-        a_ss = self._exact_from_meeus(jd_ss)
+        # The sunset (UT) can be in an other historic day than jd0.
+        a_ss = jd_ss - (jd0 - (jd + coeff))
         day_frac = self._decimal_day_from_hms(hh, mm, ss, us)
         return round(a_ss + day_frac, self._ROUNDING_PLACES)
 
@@ -791,19 +792,21 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         :returns: The JD with the correct Badí' time.
         :rtype: float
         """
-        def get_sunset(hist_jd, inc):
-            ss = self._sun_setting(hist_jd + inc, lat, lon)
-            return self._exact_from_meeus(ss)
+        def get_sunset(day, diff):
+            return self._sun_setting(day + diff, lat, lon) - diff
 
-        hist_jd = self._meeus_from_exact(jd)
+        self._meeus_from_exact(jd)  # Reject the Gregorian reform gap.
+        # The local civil day, the same value jd_from_badi_date() starts from.
+        day = math.floor(jd + lon / 360 + 0.5)
+        diff = self._meeus_from_exact(day) - day
 
         try:  # Historic days that do not exist must be stepped over.
-            hist_prev = self._meeus_from_exact(jd - 1)
+            diff_prev = self._meeus_from_exact(day - 1) - (day - 1)
         except ValueError:  # The previous day is in the reform gap.
-            hist_prev = hist_jd - 1
+            diff_prev = diff
 
-        ss_prev = get_sunset(hist_prev, 0)
-        ss_curr = get_sunset(hist_jd, 0)
+        ss_prev = get_sunset(day - 1, diff_prev)
+        ss_curr = get_sunset(day, diff)
         astro_ss = ss_curr if jd >= ss_curr else ss_prev
         delta = jd - astro_ss
 
-- 
2.43.0


From e341d61628fae6a9e3c03dce4631173ca8115053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:13 +0000
Subject: [PATCH 25/56] fix: allow 29 February of Julian-only leap years in the
 historic mode

gregorian_date_from_jd() raised AssertionError with hms=True on a date it
had made itself, for example JD 1757641.75, and jd_from_gregorian_date()
rejected that date.
---
 badidatetime/gregorian_calendar.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/badidatetime/gregorian_calendar.py b/badidatetime/gregorian_calendar.py
index 91f7b7b..e50495c 100644
--- a/badidatetime/gregorian_calendar.py
+++ b/badidatetime/gregorian_calendar.py
@@ -50,7 +50,7 @@ class GregorianCalendar(BaseCalendar):
               is used. This means date comparisons will be in error if both
               dates do not use the same True or False `exact` keyword.
         """
-        year, month, day = self.date_from_ymdhms(g_date)
+        year, month, day = self.date_from_ymdhms(g_date, historical=not exact)
 
         if exact:  # Astronomically correct algorithm
             td = self._days_in_years(year-1, alt=alt)
@@ -179,7 +179,7 @@ class GregorianCalendar(BaseCalendar):
             date = (year, month, round(day, self._ROUNDING_PLACES))
 
         if hms:
-            date = self.ymdhms_from_date(date, us=us)
+            date = self.ymdhms_from_date(date, us=us, historical=not exact)
 
         return date
 
@@ -267,16 +267,19 @@ class GregorianCalendar(BaseCalendar):
         """
         return self.gregorian_date_from_jd(jd)[0]
 
-    def date_from_ymdhms(self, date: tuple) -> tuple:
+    def date_from_ymdhms(self, date: tuple, *, historical: bool=False
+                         ) -> tuple:
         """
         Convert (year, month, day, hour, minute, second) into a
         (year, month, day.fractional) date.
 
         :param tuple date: A six part date (y, m, d, hh, mm, ss).
+        :param bool historical: If `True` the Julian leap years before 1583
+                                are allowed, the default is `False`.
         :returns: The three part (y, m, d.nnn).
         :rtype: tuple
         """
-        self._check_valid_gregorian_month_day(date)
+        self._check_valid_gregorian_month_day(date, historical=historical)
         t_len = len(date)
         year = date[0]
         month = date[1]
@@ -288,7 +291,8 @@ class GregorianCalendar(BaseCalendar):
                      self._ROUNDING_PLACES)
         return year, month, day
 
-    def ymdhms_from_date(self, date: tuple, us: bool=False) -> tuple:
+    def ymdhms_from_date(self, date: tuple, us: bool=False, *,
+                         historical: bool=False) -> tuple:
         """
         Convert (year, month, day.fractional) into a
         (year, month, day, hour, minute, second, microseconds).
@@ -297,10 +301,12 @@ class GregorianCalendar(BaseCalendar):
         :param bool us: If `True` return microseconds as separate field from
                         seconds else if `False` (default) return seconds with
                         fractional seconds.
+        :param bool historical: If `True` the Julian leap years before 1583
+                                are allowed, the default is `False`.
         :returns: A 6 or 7 part date (y, m, d, hh, mm, ss, us).
         :rtype: tuple
         """
-        self._check_valid_gregorian_month_day(date)
+        self._check_valid_gregorian_month_day(date, historical=historical)
         date_len = len(date)
         year = date[0]
         month = date[1]
-- 
2.43.0


From 4e9d29bebc0ac56ff50d609da9fd91c116371155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:50 +0000
Subject: [PATCH 26/56] fix: midday and day length on the days of historic leap
 days

The distance of two sunsets was counted in historic days, one too many on
twelve days, so noon was at 00:01:41 there.
---
 badidatetime/badi_calendar.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index 7b71e37..86b7c37 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -582,7 +582,8 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         ss0 = self._sun_setting(jd1, *self._GMT_LOCATION[:2])
         jd2 = self._meeus_from_exact(jd + 1)
         ss1 = self._sun_setting(jd2, *self._GMT_LOCATION[:2])
-        ut_mid = (ss1 - ss0) / 2
+        # Historic days that do not exist are not part of the day.
+        ut_mid = (ss1 - ss0 - (round(jd2 - jd1) - 1)) / 2
         local_mid = self._local_zone_correction(ut_mid, self._GMT_LOCATION[2])
         return self._hms_from_decimal_day(local_mid) if hms else local_mid
 
@@ -770,7 +771,8 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         ss0 = self._sun_setting(jd0, lat, lon)
         # Subtract the first day from the next day given the total
         # hours, minutes, and seconds between them.
-        ut_ss = ss1 - ss0
+        # Historic days that do not exist are not part of the day.
+        ut_ss = ss1 - ss0 - (jd1 - jd0 - 1)
 
         if decimal:
             ret = round(ut_ss, self._ROUNDING_PLACES)
-- 
2.43.0


From 4a83773e305bb994839bbdc4a51e0ec08bf46b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:19 +0000
Subject: [PATCH 27/56] fix: kvymdhms_from_b_date() keeps the microseconds it
 is given

---
 badidatetime/badi_calendar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index 86b7c37..bfe5a8f 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -443,6 +443,7 @@ class BahaiCalendar(BaseCalendar, Coefficients):
             hour = b_date[5] if dlen > 5 else 0
             minute = b_date[6] if dlen > 6 else 0
             second = b_date[7] if dlen > 7 else 0
+            second += b_date[8] / 1e6 if dlen > 8 else 0
 
         date = (kull_i_shay, vahid, year, month, math.floor(day))
 
-- 
2.43.0


From b4cac2e2495e4bc24380b519b9fb8708908928ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:40 +0000
Subject: [PATCH 28/56] fix: round the last day of a month to the first day of
 the next one

badi_date_from_jd(rtd=True) gave day 20 (or raised AssertionError) when the
last day of a month was rounded up.
---
 badidatetime/badi_calendar.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index bfe5a8f..61d6a35 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -250,6 +250,10 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         local_civil_day = math.floor(astro_ss + lon / 360.0 + 0.5)
         civil_epoch = math.floor(self.PROLEPTIC_GREG_1ST_DAY + 0.5)
         rd = local_civil_day - civil_epoch + 1
+
+        if rtd:  # The nearest day can be in the next month or year.
+            rd += round(frac)
+
         year = self._badi_year_from_rd(rd)
         year_start_rd = self._YEAR_START[year]
         doy = rd - year_start_rd + 1
@@ -268,7 +272,6 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         if fraction:
             b_date = year, month, round(day + frac, 6)
         elif rtd:
-            day = round(day + frac)
             b_date = year, month, day
 
             if not short:
-- 
2.43.0


From 784b5273bf42a8f676fb8ac2c536fcf75fb20191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:10 +0000
Subject: [PATCH 29/56] fix: keep hour 24 of long form dates

A long form datetime in hour 24 was shown at hour 23 of the next day.
---
 badidatetime/badi_calendar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index 61d6a35..e1b0f68 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -332,9 +332,9 @@ class BahaiCalendar(BaseCalendar, Coefficients):
             hh += 1
             mm -= 1
 
-        if hh >= 24:
-            day += 1
-            hh -= 1
+            if hh >= 24:  # Hour 24 itself is valid, a day can be that long.
+                day += 1
+                hh -= 1
 
         if day > dm:
             if dm in (4, 5):
-- 
2.43.0


From 7debc90b9de059772798dc92ba71e94a43762c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:48 +0000
Subject: [PATCH 30/56] fix: add microseconds to a fractional day as parts of a
 second

date_from_kvymdhms() counted 500000 microseconds as half a day.
---
 badidatetime/badi_calendar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index e1b0f68..a62b477 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -398,8 +398,8 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         self._check_valid_badi_date(b_date)
         kull_i_shay, vahid, year, month, day = b_date[:5]
         hour, minute, second, us = self._get_hms(b_date)
-        day += round(self._HR(hour) + self._MN(minute) + self._SEC(second) +
-                     self._US(us), 6)  # Round to 6 decimal places
+        day += round(self._HR(hour) + self._MN(minute) + self._SEC(
+            second + self._US(us)), 6)  # Round to 6 decimal places
         date = (kull_i_shay, vahid, year, month, day)
         return (self.short_date_from_long_date(
             date, trim=True) if short else date)
-- 
2.43.0


From e30d9130150ab4c356698a9a598e9c7faf4647dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:48 +0000
Subject: [PATCH 31/56] fix: keep the fraction of the last day of a month in
 the short form

short_date_from_long_date() moved 3/19.5 to 4/18.5.
---
 badidatetime/badi_calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index a62b477..c3071f6 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -336,7 +336,7 @@ class BahaiCalendar(BaseCalendar, Coefficients):
                 day += 1
                 hh -= 1
 
-        if day > dm:
+        if day >= dm + 1:  # The day may have a decimal component.
             if dm in (4, 5):
                 month = 19
                 day = 1
-- 
2.43.0


From f6d297630139990d1b05f8f1f90801be9338f607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 32/56] fix: a date never equals a datetime, also for
 subclasses of date

---
 badidatetime/datetime.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 6af1acc..5c26748 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -746,25 +746,36 @@ class date(BahaiCalendar):
     # Comparisons of date objects with other.
 
     def __eq__(self, other) -> bool:
-        return (self._cmp(other) == 0 if isinstance(other, date)
+        return (self._cmp(other) == 0 if self._is_comparable(other)
                 else NotImplemented)
 
     def __le__(self, other) -> bool:
-        return (self._cmp(other) <= 0 if isinstance(other, date)
+        return (self._cmp(other) <= 0 if self._is_comparable(other)
                 else NotImplemented)
 
     def __lt__(self, other) -> bool:
-        return (self._cmp(other) < 0 if isinstance(other, date)
+        return (self._cmp(other) < 0 if self._is_comparable(other)
                 else NotImplemented)
 
     def __ge__(self, other) -> bool:
-        return (self._cmp(other) >= 0 if isinstance(other, date)
+        return (self._cmp(other) >= 0 if self._is_comparable(other)
                 else NotImplemented)
 
     def __gt__(self, other) -> bool:
-        return (self._cmp(other) > 0 if isinstance(other, date)
+        return (self._cmp(other) > 0 if self._is_comparable(other)
                 else NotImplemented)
 
+    @staticmethod
+    def _is_comparable(other) -> bool:
+        """
+        Only a date can be compared with a date, a datetime cannot.
+
+        :param object other: The object to compare with.
+        :returns: True if `other` is a date and not a datetime else False.
+        :rtype: bool
+        """
+        return isinstance(other, date) and not isinstance(other, datetime)
+
     def _cmp(self, other) -> int:
         """
         Returns an integer representation of >, ==, or < of two date instances.
-- 
2.43.0


From 01d5aa7e7356521aa9014a80c00625be43ed1f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 33/56] fix: a pickled state with a time that does not exist is
 refused

---
 badidatetime/datetime.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 5c26748..fce5846 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1136,6 +1136,9 @@ class time:
 
             self = object.__new__(cls)
             self.__setstate(hour, minute or None)
+            _td_utils._check_time_fields(self._hour, self._minute,
+                                         self._second, self._microsecond,
+                                         self._fold)
             self._hashcode = -1
         else:
             _td_utils._check_time_fields(hour, minute, second,
@@ -1648,6 +1651,8 @@ class datetime(date):
             super().__init__(self)
             self.__short = short
             self.__setstate(a, b)
+            hour, minute, second, microsecond = self.__time
+            fold, tzinfo = self._fold, self._tzinfo
         else:
             b_date = tuple([x for x in (a, b, c, d, e) if x is not None])
             date_len = len(b_date)
-- 
2.43.0


From 5103628a97537488a87eaa9a52a7da3c54a4f32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 34/56] fix: pickle a time zone without offset and name

---
 badidatetime/datetime.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index fce5846..04f3082 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2860,6 +2860,17 @@ class timezone(tzinfo):
     def __getinitargs__(self):
         return (self._offset,) + ((self._name,) if self._name else ())
 
+    def __reduce__(self) -> tuple:
+        """
+        Used by pickle to serialize this time zone. The constructor can not
+        be used, because it gives the UTC instance when the offset is zero
+        and there is no name.
+
+        :returns: The parameters needed to reconstruct this class.
+        :rtype: tuple
+        """
+        return (self.__class__._create, (self._offset, self._name))
+
     def __hash__(self):
         return hash(self._offset)
 
-- 
2.43.0


From 9ce6be1df5f52bf7ad1b7355890b7271e3ffc3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 35/56] fix: the representation of TZWithCoords evaluates to
 the zone

---
 badidatetime/datetime.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 04f3082..9a38c15 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2957,6 +2957,25 @@ class TZWithCoords(timezone):
         self._zi = zoneinfo
         return self
 
+    def __repr__(self) -> str:
+        """
+        Convert to a formal string, for repr().
+
+        :returns: A string that evaluates to an equal time zone.
+        :rtype: str
+        """
+        if self is self.utc or self is self.badi:
+            return super().__repr__()
+
+        name = f"{_get_class_module(self)}.{self.__class__.__qualname__}"
+        coords = f"{self.lat!r}, {self.lon!r}, {self.zone!r}"
+
+        if hasattr(self, '_zi'):
+            return f"{name}.fromzoneinfo({self._zi!r}, {coords})"
+
+        key = f", key={self.key!r}" if self.key else ""
+        return f"{name}({coords}{key})"
+
     def __str__(self) -> str:
         """
         Returns a string representation of the current TZWithCoords object.
-- 
2.43.0


From dcba2d998acefb9cba164ae52a4036a25d36fe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 36/56] fix: malformed ISO strings are refused

---
 badidatetime/_timedateutils.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 2f09715..da43f20 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -81,6 +81,21 @@ class TimeDateUtils(BahaiCalendar):
     on if a leap year.
     """
 
+    _ISO_DATE = re.compile(
+        r'(\d{4}-?(\d{3}|W\d\d-?\d|\d\d-?\d\d)|\d{4}-\d\d)?', re.ASCII)
+    """
+    Pattern: The ISO date forms, without the sign of the year.
+    """
+    _ISO_TIME = re.compile(
+        r'(T((\d\d(\d\d){0,2}|\d\d(:\d\d){1,2})(\.\d+)?)?)?', re.ASCII)
+    """
+    Pattern: The ISO time forms, a leading space has been changed to a T.
+    """
+    _ISO_OFFSET = re.compile(r'[+-]\d\d(:[0-5]\d)?', re.ASCII)
+    """
+    Pattern: The ISO UTC offset forms.
+    """
+
     def __init__(self):
         """
         We need to set the locale. However if an unsupported locale is
@@ -1292,6 +1307,9 @@ class TimeDateUtils(BahaiCalendar):
         else:
             date = ()
 
+        if not self._ISO_DATE.fullmatch(dtstr):
+            raise ValueError(f"Invalid ISO date string, found {dtstr!r}.")
+
         return date
 
     def _parse_isoformat_time(self, tmstr: str) -> tuple:
@@ -1378,6 +1396,9 @@ class TimeDateUtils(BahaiCalendar):
         else:
             time = ()
 
+        if not self._ISO_TIME.fullmatch(tmstr):
+            raise ValueError(f"Invalid ISO time string, found {tmstr!r}.")
+
         return time
 
     def _parse_isoformat_timezone(self, tzstr: str) -> tuple:
@@ -1427,6 +1448,10 @@ class TimeDateUtils(BahaiCalendar):
             elif bc == 1 and tz_len == 1:
                 tz = timezone.badi
             else:
+                if not self._ISO_OFFSET.fullmatch(tzstr):
+                    raise ValueError(
+                        f"Invalid ISO timezone string, found {tzstr!r}.")
+
                 offset = [int(x) for x in tzstr[1:].split(':')]
                 offset += [0] if len(offset) == 1 else []
                 delta = timedelta(hours=offset[0], minutes=offset[1])
-- 
2.43.0


From f202e168f97dc153c533159f8f158fd3484cb152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 37/56] fix: give the UTC offset of a UTC datetime in time
 structures and %z

---
 badidatetime/_structures.py    | 3 ++-
 badidatetime/_timedateutils.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/badidatetime/_structures.py b/badidatetime/_structures.py
index 7e89a55..0d2f63b 100644
--- a/badidatetime/_structures.py
+++ b/badidatetime/_structures.py
@@ -177,7 +177,8 @@ class struct_time:
                     date[-1] = 0
 
         offset = dt.utcoffset()
-        total_seconds = offset.total_seconds() if offset else None
+        total_seconds = (None if offset is None else
+                         offset.total_seconds())
 
         if tzinfo and hasattr(tzinfo, 'tzname'):
             tm_zone = tzinfo.tzname(dt)
diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index da43f20..f7293a7 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -820,7 +820,7 @@ class TimeDateUtils(BahaiCalendar):
         """
         st = ""
 
-        if ttup.tm_gmtoff:
+        if ttup.tm_gmtoff is not None:
             n = '-' if ttup.tm_gmtoff < 0 else '+'
             h = abs(ttup.tm_gmtoff / 3600)
             hh = int(h)
-- 
2.43.0


From 29cbf353176b3a09e9561677a1b5f9ce7075c99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 38/56] fix: accept the documented %w format

---
 badidatetime/_timedateutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index f7293a7..1a6672d 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -21,7 +21,7 @@ class TimeDateUtils(BahaiCalendar):
     use is through a pre-instantiated object _td_utils.
     """
     # Badi additions are %:K for Kull-i-Shay and %:V for Váḥid.
-    _VALID_FORMAT_CHRS = 'aAbBcCdDefGhHIjkKlmMnprSTuUVWxXyYzZ%'
+    _VALID_FORMAT_CHRS = 'aAbBcCdDefGhHIjkKlmMnprSTuUVwWxXyYzZ%'
     """
     str: A list of all the format characters.
     """
-- 
2.43.0


From 003218033142c568991f6e4cd6f1bc8535879942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 39/56] fix: do not widen two-digit days of %e

---
 badidatetime/_timedateutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 1a6672d..caf0451 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -388,7 +388,7 @@ class TimeDateUtils(BahaiCalendar):
         if mod == '-':
             st = f"{ttup.tm_mday}"
         else:
-            pad = ' ' if org == 'e' else 0
+            pad = '>' if org == 'e' else 0
             st = f"{ttup.tm_mday:{pad}2}"
 
         return st
-- 
2.43.0


From e20c308c97404e4a39589af7ed181d95ac6174d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 40/56] fix: %G is the year of the ISO week

---
 badidatetime/_timedateutils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index caf0451..8e45fac 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -457,6 +457,7 @@ class TimeDateUtils(BahaiCalendar):
         :rtype: str
         """
         year = self._get_year(ttup)
+        year = self._year_week_day(year, ttup.tm_mon, ttup.tm_mday)[0]
         n = '-' if year < 0 else ''
         return f"{n}{abs(year):04}"
 
-- 
2.43.0


From 5c5d9bb97b6ec1b6dc0f6598d8d75c9b1b9cd6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 41/56] fix: the 12-hour clock formats have no hour -1 or 0

---
 badidatetime/_timedateutils.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 8e45fac..fd1e7f3 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -503,19 +503,12 @@ class TimeDateUtils(BahaiCalendar):
         :returns: The hour (12-hour clock) as a zero-padded decimal number.
         :rtype: str
          """
-        midday_frac = self._find_midday(ttup)
-        time_frac = self._decimal_day_from_hms(ttup.tm_hour, ttup.tm_min,
-                                               ttup.tm_sec)
-
-        if midday_frac <= time_frac:
-            hour = ttup.tm_hour - 12
-        else:
-            hour = ttup.tm_hour
+        hour = ttup.tm_hour % 12 or 12
 
         if org == 'l' and mod == '-':
             st = f"{hour}"
         elif org == 'l':
-            st = f"{hour: 2}"
+            st = f"{hour:>2}"
         else:  # %I
             st = f"{hour:02}"
 
-- 
2.43.0


From 5427f3a5750402c475d27358d3b31f12b38dd0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 42/56] fix: %:K writes one minus sign

---
 badidatetime/_timedateutils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index fd1e7f3..ff9edc4 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -552,8 +552,7 @@ class TimeDateUtils(BahaiCalendar):
             else:
                 kull_i_shay = ttup.tm_kull_i_shay
 
-            n = '-' if kull_i_shay < 0 else ''
-            st += f"{n}{kull_i_shay}"
+            st += f"{kull_i_shay}"
 
         return st
 
-- 
2.43.0


From 4042ad70a215b557ae67338527c54fa29d9eaa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 43/56] fix: timestamps of naive long form datetimes

---
 badidatetime/datetime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 9a38c15..34ed58d 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1983,7 +1983,8 @@ class datetime(date):
         :returns: The POSIX timestamp.
         :rtype: float
         """
-        return self.timestamp_from_badi_date(self.b_date + self.b_time,
+        date = self._short_from_long_form(time=self.b_time)
+        return self.timestamp_from_badi_date(date[:3] + date[5:],
                                              *LOCAL_COORD)
 
     def timestamp(self) -> float:
-- 
2.43.0


From ccac6d62c2abada3f736d430383bc0b74fa930e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:31 +0000
Subject: [PATCH 44/56] fix: whole-number local coordinates are not ignored

---
 badidatetime/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/badidatetime/__init__.py b/badidatetime/__init__.py
index d63b078..814e72f 100644
--- a/badidatetime/__init__.py
+++ b/badidatetime/__init__.py
@@ -53,8 +53,8 @@ def _get_local_coordinates() -> tuple | None:
     """
     offset, dst, key = _local_timezone_info()
 
-    if (_LOCAL_COORDS and isinstance(_LOCAL_COORDS[0], float)
-        and isinstance(_LOCAL_COORDS[1], float)):
+    if (_LOCAL_COORDS and isinstance(_LOCAL_COORDS[0], (int, float))
+        and isinstance(_LOCAL_COORDS[1], (int, float))):
         lat = _LOCAL_COORDS[0]
         lon = _LOCAL_COORDS[1]
     elif _LOCAL_COORDS and _LOCAL_COORDS[2]:
-- 
2.43.0


From bfb39b594a5c0184940fd7c2b0419a95b3ffab56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:33 +0000
Subject: [PATCH 45/56] fix: _dhms_from_seconds() does not lose a microsecond

---
 badidatetime/base_calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/base_calendar.py b/badidatetime/base_calendar.py
index 13acd66..e33bee0 100644
--- a/badidatetime/base_calendar.py
+++ b/badidatetime/base_calendar.py
@@ -1210,7 +1210,7 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
         sec = (seconds - hours * 3600) - minutes * 60
 
         if us:
-            sms = (math.floor(sec), int(round(sec % 1, 6) * 1e6))
+            sms = (math.floor(sec), self._PARTIAL_SECOND_TO_MICROSECOND(sec))
         else:
             sms = (sec,)
 
-- 
2.43.0


From 5b57d3c2b2f89d32558bead25e0fd9be0ae0d698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:33 +0000
Subject: [PATCH 46/56] fix: _dms_from_decimal() gives N or S for every
 spelling of latitude

---
 badidatetime/base_calendar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/badidatetime/base_calendar.py b/badidatetime/base_calendar.py
index e33bee0..acd1e6e 100644
--- a/badidatetime/base_calendar.py
+++ b/badidatetime/base_calendar.py
@@ -1101,9 +1101,9 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
         seconds = (abs(coord) - degrees - (minutes / 60)) * 3600
 
         if coord < 0:
-            direc = 'S' if direction == 'LAT' else 'W'
+            direc = 'S' if direction.startswith('LAT') else 'W'
         else:
-            direc = 'N' if direction == 'LAT' else 'E'
+            direc = 'N' if direction.startswith('LAT') else 'E'
 
         return degrees, minutes, seconds, direc
 
-- 
2.43.0


From 8f8021e11d31239457e91148260951f780c105f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:33 +0000
Subject: [PATCH 47/56] fix: replacing the kull_i_shay or vahid of a short form
 value with 0 is refused

---
 badidatetime/datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 34ed58d..8f959e2 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -644,7 +644,7 @@ class date(BahaiCalendar):
         :returns: A date instance with replaced items.
         :rtype: date
         """
-        if self.is_short and (kull_i_shay or vahid):
+        if self.is_short and (kull_i_shay, vahid) != (None, None):
             msg = "Cannot convert from a short to a long form date."
             raise ValueError(msg)
         elif (not self.is_short and year is not None and
@@ -2089,7 +2089,7 @@ class datetime(date):
         if fold is None:  # pragma: no cover
             fold = self.fold
 
-        if self.is_short and (kull_i_shay or vahid):
+        if self.is_short and (kull_i_shay, vahid) != (None, None):
             msg = "Cannot convert from a short to a long form date."
             raise ValueError(msg)
         elif (not self.is_short and year is not None and
-- 
2.43.0


From 7bd90d17d94887a59a6111bf1e977ef0cbe2aa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:33 +0000
Subject: [PATCH 48/56] fix: whole float hours, minutes, and seconds of a
 datetime are integers

---
 badidatetime/datetime.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 8f959e2..0106ffc 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1714,20 +1714,20 @@ class datetime(date):
             self._second = _math.floor(ss)
             self._microsecond = self._PARTIAL_SECOND_TO_MICROSECOND(ss)
         elif minute % 1:
-            self._hour = hour
+            self._hour = _math.floor(hour)
             ss = self._PARTIAL_MINUTE_TO_SECOND(minute)
             self._minute = _math.floor(minute)
             self._second = _math.floor(ss)
             self._microsecond = self._PARTIAL_SECOND_TO_MICROSECOND(ss)
         elif second % 1:
-            self._hour = hour
-            self._minute = minute
+            self._hour = _math.floor(hour)
+            self._minute = _math.floor(minute)
             self._second = _math.floor(second)
             self._microsecond = self._PARTIAL_SECOND_TO_MICROSECOND(second)
         else:
-            self._hour = hour
-            self._minute = minute
-            self._second = second
+            self._hour = _math.floor(hour)
+            self._minute = _math.floor(minute)
+            self._second = _math.floor(second)
             self._microsecond = round(microsecond, 6)
 
         self.__time = (self._hour, self._minute,
-- 
2.43.0


From 5cdf87041ff3e57a1c4c4f269125aeb3c0f480ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:33 +0000
Subject: [PATCH 49/56] fix: an interrupted version edit does not destroy
 pyproject.toml or __init__.py

---
 config.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/config.py b/config.py
index 3510ade..9a87f6a 100755
--- a/config.py
+++ b/config.py
@@ -10,6 +10,7 @@
 import sys
 import re
 import os
+import shutil
 import tomlkit as tk
 
 
@@ -87,13 +88,11 @@ class EditPyProject:
                     self.__UPDATE_METHODS[field](self, config, table, field,
                                                  items, value)
 
-        with open(self.FILENAME, mode="wt", encoding="utf-8") as fp:
-            tk.dump(config, fp)
-
+        self.replace_file(self.FILENAME, tk.dumps(config))
         return data
 
     def edit_badidatetime_init(self, data):
-        with open(self.INIT_PATH, 'r') as f:
+        with open(self.INIT_PATH, 'r', encoding="utf-8") as f:
             content = f.read()
 
         version = data['version']
@@ -101,8 +100,20 @@ class EditPyProject:
                              f'__version__ = "{version}"',
                              content, flags=re.MULTILINE)
 
-        with open(self.INIT_PATH, "w") as f:
-            f.write(new_content)
+        self.replace_file(self.INIT_PATH, new_content)
+
+    def replace_file(self, path, content):
+        """
+        Replace the content of a file in one step, so that an interrupted
+        run leaves either the old or the new file.
+        """
+        tmp = f"{path}.tmp"
+
+        with open(tmp, mode="wt", encoding="utf-8") as fp:
+            fp.write(content)
+
+        shutil.copymode(path, tmp)
+        os.replace(tmp, path)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 8f5735d91fad0011c24cc5bb439f097a2b50dcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 50/56] fix: three mutually exclusive options are rejected like
 two

---
 badidatetime/base_calendar.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/badidatetime/base_calendar.py b/badidatetime/base_calendar.py
index acd1e6e..89896eb 100644
--- a/badidatetime/base_calendar.py
+++ b/badidatetime/base_calendar.py
@@ -1622,8 +1622,7 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
                   else False.
         :rtype: bool
         """
-        count = sum(booleans)
-        return (count % 2 == 1) or (count == 0)
+        return sum(booleans) <= 1
 
     def _local_zone_correction(self, jd_ut: float, zone: float=None,
                                lon: float=None, *, inverse: bool=False,
-- 
2.43.0


From bb8ee5a2d46ec95d0d9376a67794f6eb12ac6213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:45 +0000
Subject: [PATCH 51/56] fix: dates of the 4|128 leap year rule are validated
 and converted with that rule

---
 badidatetime/gregorian_calendar.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/badidatetime/gregorian_calendar.py b/badidatetime/gregorian_calendar.py
index e50495c..8263b9e 100644
--- a/badidatetime/gregorian_calendar.py
+++ b/badidatetime/gregorian_calendar.py
@@ -50,7 +50,8 @@ class GregorianCalendar(BaseCalendar):
               is used. This means date comparisons will be in error if both
               dates do not use the same True or False `exact` keyword.
         """
-        year, month, day = self.date_from_ymdhms(g_date, historical=not exact)
+        year, month, day = self.date_from_ymdhms(g_date, historical=not exact,
+                                                 alt=exact and alt)
 
         if exact:  # Astronomically correct algorithm
             td = self._days_in_years(year-1, alt=alt)
@@ -124,7 +125,7 @@ class GregorianCalendar(BaseCalendar):
                 days = md - td
 
             if days == 0:
-                days = 365 if year < 0 and year % 4 != 0 else 366
+                days = 365 + self._is_leap_year(year, alt=alt)
             else:
                 year += 1
 
@@ -179,7 +180,8 @@ class GregorianCalendar(BaseCalendar):
             date = (year, month, round(day, self._ROUNDING_PLACES))
 
         if hms:
-            date = self.ymdhms_from_date(date, us=us, historical=not exact)
+            date = self.ymdhms_from_date(date, us=us, historical=not exact,
+                                         alt=exact and alt)
 
         return date
 
@@ -267,8 +269,8 @@ class GregorianCalendar(BaseCalendar):
         """
         return self.gregorian_date_from_jd(jd)[0]
 
-    def date_from_ymdhms(self, date: tuple, *, historical: bool=False
-                         ) -> tuple:
+    def date_from_ymdhms(self, date: tuple, *, historical: bool=False,
+                         alt: bool=False) -> tuple:
         """
         Convert (year, month, day, hour, minute, second) into a
         (year, month, day.fractional) date.
@@ -276,10 +278,13 @@ class GregorianCalendar(BaseCalendar):
         :param tuple date: A six part date (y, m, d, hh, mm, ss).
         :param bool historical: If `True` the Julian leap years before 1583
                                 are allowed, the default is `False`.
+        :param bool alt: If `True` the 4|128 leap year rule is used, the
+                         default is `False`.
         :returns: The three part (y, m, d.nnn).
         :rtype: tuple
         """
-        self._check_valid_gregorian_month_day(date, historical=historical)
+        self._check_valid_gregorian_month_day(date, historical=historical,
+                                              alt=alt)
         t_len = len(date)
         year = date[0]
         month = date[1]
@@ -292,7 +297,7 @@ class GregorianCalendar(BaseCalendar):
         return year, month, day
 
     def ymdhms_from_date(self, date: tuple, us: bool=False, *,
-                         historical: bool=False) -> tuple:
+                         historical: bool=False, alt: bool=False) -> tuple:
         """
         Convert (year, month, day.fractional) into a
         (year, month, day, hour, minute, second, microseconds).
@@ -303,10 +308,13 @@ class GregorianCalendar(BaseCalendar):
                         fractional seconds.
         :param bool historical: If `True` the Julian leap years before 1583
                                 are allowed, the default is `False`.
+        :param bool alt: If `True` the 4|128 leap year rule is used, the
+                         default is `False`.
         :returns: A 6 or 7 part date (y, m, d, hh, mm, ss, us).
         :rtype: tuple
         """
-        self._check_valid_gregorian_month_day(date, historical=historical)
+        self._check_valid_gregorian_month_day(date, historical=historical,
+                                              alt=alt)
         date_len = len(date)
         year = date[0]
         month = date[1]
@@ -341,12 +349,14 @@ class GregorianCalendar(BaseCalendar):
         return result
 
     def _check_valid_gregorian_month_day(self, g_date: tuple,
-                                         historical: bool=False) -> None:
+                                         historical: bool=False,
+                                         alt: bool=False) -> None:
         """
         Check that the month and day values are valid.
 
         :param tuple g_date: The date to check.
         :param bool historical: If True use the Julian leap year before 1883.
+        :param bool alt: If True use the 4|128 leap year rule.
         :returns: Nothing
         :rtype: None
         """
@@ -363,7 +373,7 @@ class GregorianCalendar(BaseCalendar):
         days = self._MONTHS[month - 1]
 
         if month == 2:  # Subtract 0 or 1 from February if leap year.
-            days += LY(year)
+            days += self._is_leap_year(year, alt=True) if alt else LY(year)
 
         assert 1 <= math.floor(day) <= days, (
             f"Invalid day '{day}' for month '{month}' and year '{year}' "
-- 
2.43.0


From 5f0186df07afca4cfaf592cf710af81a2d8884a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:10 +0000
Subject: [PATCH 52/56] fix: take the delimiter of %X from between the numbers
 of the locale's time

---
 badidatetime/_timedateutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index ff9edc4..47fe3d6 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -159,7 +159,8 @@ class TimeDateUtils(BahaiCalendar):
         :returns: The time delimiter and 24 or 12 hour time.
         :rtype: str
         """
-        delim = time.strftime('%X')[2]
+        match = re.search(r'\d(\D)\d', time.strftime('%X'))
+        delim = match.group(1) if match else ':'
         h = 'I' if time.strftime('%p') != "" else 'H'
         return f"%{h}{delim}%M{delim}%S"
 
-- 
2.43.0


From ca59a6f547aca4edb34338e77c9764e85a5edea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:10 +0000
Subject: [PATCH 53/56] fix: %x and %D in locales whose date form has a %e

---
 badidatetime/_timedateutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 47fe3d6..3c9a25f 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -427,7 +427,7 @@ class TimeDateUtils(BahaiCalendar):
             else:
                 org = fmt[0]
                 mod = ''
-                data.append(f"{getattr(self, org)(ttup, org, mod):02}")
+                data.append(self.__METHOD_LOOKUP[org](self, ttup, org, mod))
 
         return sep.join(data)
 
@@ -736,7 +736,7 @@ class TimeDateUtils(BahaiCalendar):
         data = []
 
         for fmt in self.date_format[1:]:
-            data.append(getattr(self, fmt)(ttup, '', ''))
+            data.append(self.__METHOD_LOOKUP[fmt](self, ttup, fmt, ''))
 
         return f"{delim}".join(data)
 
-- 
2.43.0


From 461bbdc25c7f8480fdb0cccac3804ad0c38352a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:53 +0000
Subject: [PATCH 54/56] fix: the microseconds of a Gregorian date are not
 ignored

---
 badidatetime/gregorian_calendar.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/badidatetime/gregorian_calendar.py b/badidatetime/gregorian_calendar.py
index 8263b9e..fea5d04 100644
--- a/badidatetime/gregorian_calendar.py
+++ b/badidatetime/gregorian_calendar.py
@@ -272,10 +272,11 @@ class GregorianCalendar(BaseCalendar):
     def date_from_ymdhms(self, date: tuple, *, historical: bool=False,
                          alt: bool=False) -> tuple:
         """
-        Convert (year, month, day, hour, minute, second) into a
+        Convert (year, month, day, hour, minute, second, microseconds) into a
         (year, month, day.fractional) date.
 
-        :param tuple date: A six part date (y, m, d, hh, mm, ss).
+        :param tuple date: A three to seven part date
+                           (y, m, d, hh, mm, ss, us).
         :param bool historical: If `True` the Julian leap years before 1583
                                 are allowed, the default is `False`.
         :param bool alt: If `True` the 4|128 leap year rule is used, the
@@ -292,6 +293,10 @@ class GregorianCalendar(BaseCalendar):
         hour = date[3] if t_len > 3 and date[3] is not None else 0
         minute = date[4] if t_len > 4 and date[4] is not None else 0
         second = date[5] if t_len > 5 and date[5] is not None else 0
+
+        if t_len > 6 and date[6] is not None:
+            second += date[6] / 1000000
+
         day += round(self._HR(hour) + self._MN(minute) + self._SEC(second),
                      self._ROUNDING_PLACES)
         return year, month, day
-- 
2.43.0


From b6f609f256943ee3acf26ae375de441beb923c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:53 +0000
Subject: [PATCH 55/56] fix: negative fields and seconds over 60 of a Gregorian
 date are refused

---
 badidatetime/gregorian_calendar.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/badidatetime/gregorian_calendar.py b/badidatetime/gregorian_calendar.py
index fea5d04..51c89b0 100644
--- a/badidatetime/gregorian_calendar.py
+++ b/badidatetime/gregorian_calendar.py
@@ -367,13 +367,14 @@ class GregorianCalendar(BaseCalendar):
         """
         t_len = len(g_date)
         year = g_date[0]
-        month = abs(g_date[1])
-        day = abs(g_date[2])
+        month = g_date[1]
+        day = g_date[2]
         LY = (self._JULIAN_LEAP_YEAR if historical and year < 1583
               else self._is_leap_year)
         hour = g_date[3] if t_len > 3 and g_date[3] is not None else 0
         minute = g_date[4] if t_len > 4 and g_date[4] is not None else 0
         second = g_date[5] if t_len > 5 and g_date[5] is not None else 0
+        assert not year % 1, f"Invalid year '{year}', it must be whole."
         assert 1 <= month <= 12, f"Invalid month '{month}', should be 1 - 12."
         days = self._MONTHS[month - 1]
 
@@ -383,8 +384,11 @@ class GregorianCalendar(BaseCalendar):
         assert 1 <= math.floor(day) <= days, (
             f"Invalid day '{day}' for month '{month}' and year '{year}' "
             f"should be 1 - {days}.")
-        assert hour < 24, f"Invalid hour '{hour}' it must be < 24"
-        assert minute < 60, f"Invalid minute '{minute}' should be < 60."
+        assert 0 <= hour < 24, f"Invalid hour '{hour}' it must be 0 - < 24"
+        assert 0 <= minute < 60, (
+            f"Invalid minute '{minute}' should be 0 - < 60.")
+        assert 0 <= second < 61, (
+            f"Invalid second '{second}' should be 0 - < 61.")
 
         if any((hour, minute, second)):
             assert not day % 1, ("If there is a part day then there can be no "
-- 
2.43.0


From 7a0992dad0add1976906fe5bbbc011f7d3a6c149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:53 +0000
Subject: [PATCH 56/56] fix: fractions of a year or month, and of the day of a
 date object, are refused

---
 badidatetime/_timedateutils.py | 2 ++
 badidatetime/badi_calendar.py  | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 3c9a25f..0fc4cf6 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1479,6 +1479,8 @@ class TimeDateUtils(BahaiCalendar):
             b_date = (a, b, c, d, e)
 
         self._check_valid_badi_date(b_date, short_in=short_in)
+        assert all(hasattr(field, '__index__') for field in b_date), (
+            f"The date fields must be integers, found {b_date}.")
 
     def _check_time_fields(self, hour: int, minute: int, second: int,
                            microsecond: int, fold: int) -> None:
diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index c3071f6..31f04ce 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -319,6 +319,8 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         :rtype: tuple
         """
         kull_i_shay, vahid, year, month, day = b_date[:5]
+        assert not (kull_i_shay % 1 or vahid % 1 or year % 1 or month % 1), (
+            "The Kull-i-Shay’, Váḥid, year, and month must be whole numbers.")
         hh, mm, ss, us = self._get_hms(b_date)
         y = (kull_i_shay - 1) * 361 + (vahid - 1) * 19 + year
         dm = 19 if month in range(1, 20) else 4 + self._is_leap_year(y)
@@ -364,6 +366,7 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         :rtype: tuple
         """
         y, month, day = date[:3]
+        assert not y % 1, f"Invalid year '{y}', it must be whole."
         hh, mm, ss, us = self._get_hms(date, short_in=True)
         k = y / 361
         kull_i_shay = 0 if y == 0 else math.ceil(k)
@@ -660,6 +663,8 @@ class BahaiCalendar(BaseCalendar, Coefficients):
             assert 1 <= year < cycle, (
                 f"Invalid year '{year}' in a Váḥid, it must be in the "
                 "range of [1, 19].")
+            assert not (kull_i_shay % 1 or vahid % 1 or year % 1), (
+                "The Kull-i-Shay’, Váḥid, and year must be whole numbers.")
             ly = (kull_i_shay - 1) * 361 + (vahid - 1) * 19 + year
             assert self.MINYEAR-1 <= ly <= self.MAXYEAR+1, (
                 f"Invalid year '{ly}' it must be in the range of ["
@@ -670,10 +675,12 @@ class BahaiCalendar(BaseCalendar, Coefficients):
             assert self.MINYEAR-1 <= year <= self.MAXYEAR+1, (
                 f"Invalid year '{year}' it must be in the range of ["
                 f"{self.MINYEAR}, {self.MAXYEAR}].")
+            assert not year % 1, f"Invalid year '{year}', it must be whole."
             ly = year
 
         assert 0 <= month < cycle, (
             f"Invalid month '{month}', it must be in the range of [0, 19].")
+        assert not month % 1, f"Invalid month '{month}', it must be whole."
         # This is Ayyām-i-Hā and could be 4 or 5 days depending on leap year.
         cycle = (5 + self._is_leap_year(ly)) if month == 0 else cycle
         assert 1 <= day < (cycle), (
-- 
2.43.0


prop('C01', 'Day count: dates and ordinals are one gap-free bijection',
     'The days of the calendar are numbered consecutively: the date after any date has the next ordinal number, every ordinal number gives exactly one date, and converting a date to its ordinal and back (in short or long form) gives the same date. The ordinal agrees with the proleptic Gregorian day count on every day.',
     ['inputs'], 'all 1,097,189 days of the years -1842 to 1161, both forms',
     'The tests convert a few dozen dates; leap-year and month-end slips show only on particular days of particular years.',
     [DT, TD, BC],
     [('toordinal / fromordinal', DT), ('_ymd2ord, _ord2ymd, _days_before_year, _days_before_month', TD), ('_badi_year_from_rd', BC)],
     'every year and, per year, the first and last day of all months and every intercalary day (thorough: every day); oracle: counting model over the leap-year table')
prop('C02', 'Only the days and times that exist can be constructed',
     'A date, datetime, or conversion accepts a year, month, and day exactly when that day exists: 19 days in each of 19 months, and 4 or 5 days of Ayyám-i-Há depending on the year. A time is accepted exactly when its hour, minute, second, microsecond, and fold lie in their ranges. In a conversion a fraction of a field excludes smaller fields; an accepted value shows exactly the fields it was given.',
     ['inputs'], 'every year, month -2..21, day -1..21 in both forms; every hour, minute, and second; boundary values of all other fields; constructors, replace, and conversions',
     'The tests sample valid and invalid fields of a few years; the intercalary length differs per year.',
     [DT, TD, BC],
     [('_check_valid_badi_date, _check_valid_badi_time, _is_leap_year', BC), ('_check_date_fields, _check_time_fields', TD), ('date.__new__, datetime.__new__, time.__new__', DT)],
     'exhaustive over years x months x days (3.1 million constructor calls in quick)')
prop('C03', 'Naw-Rúz and leap years follow the equinox at the reference place',
     'Every year has 365 or 366 days, and in the years -278 to 541 it starts on the Tehran day (sunset to sunset) that contains the March equinox, unless equinox and sunset fall within 90 seconds; in remoter years the start is at most one day off. Naw-Rúz, Riḍván, year lengths, and the leap-year answers of every interface agree with each other, at every place.',
     ['inputs', 'configurations'], 'all 3004 years, all interfaces, nine places',
     'The tests pin some published years; a wrong coefficient for one year shifts all days of that year only.',
     [BC, CO, BASE],
     [('_is_leap_year, _get_day_coeff, naw_ruz_g_date, first_day_of_ridvan_g_date', BC + ', ' + CO), ('_find_moment_of_equinoxes_or_solstices', BASE)],
     'every year against the golden leap table, an independent equinox and sunset computation, and the independent rule where it is decidable')
prop('C04', 'Badí\' dates and Julian days: one instant, one date, anywhere',
     'A Badí\' day starts at the sunset of its civil day at the given place and lasts to the next sunset: the Julian day of a date and time is that sunset plus the time. Converting any instant of the day back gives the same date and time, at every place and in every output form. Instants outside the calendar are refused.',
     ['inputs', 'configurations'], 'all years x boundary days x nine places x times of day',
     'The tests check some dates at one or two places; longitude, historic leap days, and day-boundary effects need the product.',
     [BC, BASE],
     [('jd_from_badi_date, badi_date_from_jd, _utc_to_badi_time', BC), ('_sun_setting, _meeus_from_exact, _exact_from_meeus', BASE)],
     'every year in quick with rotated days and places; thorough covers every day of every year in Tehran and all places')
prop('C05', 'Gregorian dates and Julian days agree with the real calendar',
     'Converting a Gregorian date and time to a Julian day and back gives the same date and time, and the Julian day is the one of the proleptic Gregorian calendar (astronomical mode) or of the Julian calendar up to 4 October 1582 and the Gregorian calendar from 15 October 1582 (historic mode). The ten days that were dropped in historic mode are refused, as are dates and times that exist in neither calendar. POSIX timestamps give the right civil date and time for any zone, also before 1970.',
     ['inputs'], 'every day of the years 1 to 3005, boundary days of the years before, all times of day at their boundaries, whole range of timestamps',
     'The tests check some dates per century; month and leap boundaries differ per year.',
     [GC], [('jd_from_gregorian_date, gregorian_date_from_jd, posix_timestamp, ymdhms_from_date, date_from_ymdhms', GC)],
     'day by day against the standard library and an integer Julian-calendar model')
prop('C06', 'Badí\' and Gregorian dates convert into each other without loss',
     'Every Badí\' date and time converts to the Gregorian date and time on which it falls, and converting that back gives the same Badí\' date and time, in short and long form and for every combination of options. The Gregorian date is the civil day on whose sunset the Badí\' day starts.',
     ['inputs', 'configurations'], 'all years x boundary days x options x places',
     'The tests list a few pairs, mostly in one form.',
     [BC, GC], [('badi_date_from_gregorian_date, gregorian_date_from_badi_date', BC)],
     'every year; oracle: ordinal model plus independent sunset')
prop('C07', 'Long and short forms are two spellings of the same date',
     'Each year has exactly one cycle of cycles, cycle, and year position; converting between the long and the short form is lossless for date and time in every option combination. Every operation on a date or datetime gives the same day whichever form it was given in.',
     ['inputs'], 'every year and form, all trim and option combinations, all public date operations',
     'The tests compare a few years; the arithmetic has three nested cycles and negative values.',
     [BC, DT, ST], [('long_date_from_short_date, short_date_from_long_date, kvymdhms_from_b_date, date_from_kvymdhms', BC), ('_short_from_long_form', DT)],
     'every year; both forms compared operation by operation')
prop('C08', 'Sunset, sunrise, and midday are the real ones at every place',
     'The sunset reported for a date is the moment the Sun sets at the given place on the civil day on which the Badí\' day starts, and midday lies half way between sunrise and sunset. Sunrise precedes midday, midday precedes sunset, and successive sunsets are about a day apart.',
     ['inputs', 'configurations'], 'all years x dates x latitudes and longitudes where the Sun rises and sets every day',
     'The tests compare a few dates with almanac values.',
     [BC, BASE, AT], [('utc_sunset, midday, _day_length', BC), ('_sun_setting, _sun_rising, _rising_setting, _sun_transit, _delta_t', BASE)],
     'grid of days, latitudes, and longitudes against an independent Sun')
prop('C09', 'Date arithmetic counts days',
     'Adding a number of days to a date gives the date that many days later and subtracting two dates gives the number of days between them, so that (d + n) - n = d and d + (e - d) = e. The form of the left operand is kept, results outside the calendar raise an error, and operands are never changed.',
     ['inputs', 'histories'], 'every day as the start of a step, all step sizes of a ladder, sequences of operations',
     'The tests add a few deltas to a few dates.',
     [DT, TD], [('date.__add__, date.__sub__', DT)],
     'every start day of boundary classes x ladder of deltas; operation sequences up to a bound; oracle: ordinal model')
prop('C10', 'Datetime arithmetic is exact to the microsecond',
     'Adding a duration to a datetime gives the datetime exactly that much later, to the microsecond, carrying across seconds, days, months, and years; subtracting two datetimes gives the exact duration between them, taking different UTC offsets into account. Adding and then subtracting the same duration gives the original, and form and zone are kept.',
     ['inputs', 'histories'], 'boundary datetimes x ladder of durations x zones; operation sequences',
     'The tests add a few deltas; carries happen only at boundaries.',
     [DT], [('datetime.__add__, datetime.__sub__', DT)],
     'product of boundary values; oracle: integer microsecond model')
prop('C11', 'Dates and datetimes are ordered in time and hash consistently',
     'Comparing two dates or two datetimes gives the order of the instants they denote, whatever their form and UTC offset; exactly one of <, ==, > holds and the order is transitive. Equal values have equal hashes; unlike kinds are never equal and ordering them raises an error.',
     ['inputs'], 'all pairs (and triples) of a set of boundary values in both forms and several zones',
     'The tests compare a few pairs; Ayyám-i-Há precedes month 19 although its number is 0.',
     [DT], [('_cmp, _sort_key, __hash__, __eq__ and friends', DT)],
     'all pairs of the value set; the model order is the key (ordinal, microseconds)')
prop('C12', 'Times are ordered by their UTC time and hash consistently',
     'Two naive times compare by their fields and two aware times by their UTC time; mixed comparison is unequal and ordering it raises an error. Equal times have equal hashes.',
     ['inputs'], 'all pairs of boundary times x offsets',
     'The tests compare a few pairs.', [DT], [('time._cmp, time.__hash__', DT)],
     'all pairs and triples of the value set against an integer model')
prop('C13', 'Pickling and copying give back the same value',
     'Any date, datetime, time, time zone, ISO-calendar value, or time structure that can be constructed survives pickling with every protocol, copy, and deep copy: the result is equal, shows the same fields, form, zone, and (from protocol 4 on) fold, and hashes alike. A pickled state that is not a valid value is refused.',
     ['inputs', 'fault_sequences'], 'all field boundaries x forms x protocols; all bytes in each position of a state',
     'The tests pickle a few values; the state packs fields in bytes.',
     [DT, ST], [('_getstate, __setstate, __reduce_ex__, _is_pickle_data', DT)],
     'product of boundary fields and protocols; every corruption of one byte of a state')
prop('C14', 'ISO text of a value reads back as the same value',
     'The ISO text of any date, time, or datetime, at every precision and separator, reads back as the same value (cut to the precision), and two different values never have the same text. The text consists of zero-padded fields that identify the value.',
     ['inputs'], 'every day of the calendar, all boundary times, all precisions and offsets',
     'The tests round trip a few strings.', [DT, TD],
     [('isoformat, fromisoformat, _str_convertion, _dt_str_conversion', DT), ('_parse_isoformat_*', TD)],
     'every day; product of boundary times, precisions, and offsets')
prop('C15', 'The ISO parser accepts exactly its documented language',
     'A string is accepted exactly when it is one of the documented ISO forms of an existing date, time, and offset, and then gives the value it denotes; every other string is refused with an error (ValueError or AssertionError). No string gives a value that does not exist, hangs, or fails with an internal error.',
     ['inputs'], 'all strings derived from the forms by bounded substitution, deletion, and insertion, and all digit strings of the short forms',
     'The tests list some good and bad strings.', [TD, DT],
     [('_parse_isoformat_date_time_timezone and its parts', TD), ('fromisoformat', DT)],
     'bounded-exhaustive string enumeration against a grammar-based model')
prop('C16', 'The week calendar numbers every day once and reads back',
     'Every day has one week-year, week (1 to 53), and week day (1 to 7, Jalál first); successive days have successive week days, and a week has seven days, the first week being the one with the fourth day of the year. Reading a week date back gives the day.',
     ['inputs'], 'every day of the calendar and all week and day numbers of each year',
     'The tests check a few years; week 53 and the year ends differ per year.', [DT, TD],
     [('isocalendar, fromisocalendar', DT), ('_year_week_day, _isoweek_to_badi, _isoweek1jalal', TD)],
     'every year, all days around the ends (thorough: every day), all weeks')
prop('C17', 'Formatting directives show the fields of the value',
     'Every directive of a format, with its optional modifier, is replaced by the documented field of the value, and every other character is kept. The result is the concatenation of the parts, for every format and value.',
     ['inputs', 'programs'], 'all directives and modifiers x boundary values; all format strings of up to three items',
     'The tests format a few values.', [TD, DT],
     [('TimeDateUtils.strftime and the directive methods', TD), ('_wrap_strftime, __format__, date.strftime', DT)],
     'all directives x all values of the set against a reference renderer; all short concatenations')
prop('C18', 'Parsing inverts formatting',
     'Text made with a format that identifies the date and time parses back to the same value with that format. Text that does not match the format is refused with an error.',
     ['inputs', 'programs'], 'identifying formats x every day of selected years and boundary values; single-character corruptions',
     'The tests parse a few strings.', [SP, DT],
     [('StrpTime, TimeRE, LocaleTime', SP), ('datetime.strptime', DT)],
     'all days of boundary years, all formats of the list')
prop('C19', 'POSIX timestamps identify the instant',
     'The datetime of a timestamp is the Badí\' date and time of that instant at the local place, and a naive datetime made from a timestamp gives back that timestamp. Later timestamps of one day give later times.',
     ['inputs'], 'a grid over the whole supported range at day-boundary offsets, in every form',
     'The tests convert a few timestamps.', [DT, BC],
     [('fromtimestamp, timestamp, _mktime', DT), ('badi_date_from_timestamp, timestamp_from_badi_date', BC)],
     'all years x offsets around sunset and midnight; oracle: independent sunset')
prop('C20', 'UTC offsets and time zones are applied consistently',
     'A fixed-offset zone has the offset and name it was given, for all offsets of less than a day, and refuses all others. Converting an aware datetime to another zone keeps the instant; converting there and back gives the same fields.',
     ['inputs', 'configurations'], 'all whole-minute offsets; boundary datetimes x pairs of zones',
     'The tests use a few offsets.', [DT],
     [('timezone, TZWithCoords, astimezone, utcoffset, utctimetuple', DT)],
     'all 2879 offsets; product of datetimes and zones')
prop('C21', 'Zones, places, and locales do not leak into each other',
     'What one zone object, place setting, or conversion did never changes what another object answers: every history of creating zones and setting places leaves each object with its own data, and the current place is always the last one set.',
     ['histories'], 'all operation sequences up to the bound',
     'The tests build each object once in a fresh state.', [DT, INI],
     [('TZWithCoords, timezone, LOCAL_COORD', DT), ('set_local_coordinates', INI)],
     'breadth-first search over operation sequences, state compared with the model after each')
prop('C22', 'Answers do not depend on what was asked before',
     'Every operation of the calendar gives the same answer whether it is asked first or after any other operations on the same or other objects. Values are immutable: no operation changes its operands.',
     ['histories'], 'all ordered sequences of operations up to the bound over an alphabet that covers every public area',
     'Each test asks once; caches and shared instances matter only across calls.', [BASE, BC, TD, SP, DT],
     [('caches of nutation, regex, leap years; per-instance state', BASE + ', ' + BC + ', ' + SP)],
     'all pairs and triples of operations on shared instances against fresh answers')
prop('C23', 'Threads sharing the library get the answers they would get alone',
     'When two threads use the library (also the same calendar object) at the same time, each gets the answer it would get alone, in every interleaving of their steps.',
     ['schedules'], 'all interleavings of two operations up to the preemption bound, at line granularity',
     'The tests are single-threaded.', [BASE, BC, SP, TD],
     [('nutation cache, strptime regex cache and lock, per-instance state', BASE + ', ' + SP)],
     'controlled scheduler over the real code with a preemption bound',
     'stateless exploration of thread interleavings of the real code under a controlled scheduler')
prop('C24', 'Times of day convert between their numeric forms without loss',
     'A time of day converts between hours-minutes-seconds, day fractions, seconds, degrees, and microseconds and back to the same value within the precision of the form, with every field in range. Exact forms (whole seconds, microseconds, minutes) lose nothing.',
     ['inputs'], 'every second of the day, all microsecond boundary values, fractional fields of datetimes, all arc minutes',
     'The tests convert a few values; rounding goes wrong on rare values.', [BASE, BC, GC],
     [('_hms_from_decimal_day, _decimal_day_from_hms, _sec_microsec_from_seconds, _dhms_from_seconds, _dms_from_decimal', BASE)],
     'every second (86,400) x microsecond classes against integer arithmetic')
prop('C25', 'Week day, day of the year, and time structures tell the same day',
     'The week day advances by one each day and is the same from every interface; the day of the year counts from 1 to the length of the year. The time structure and ctime text of a value hold exactly its fields.',
     ['inputs'], 'every day of the calendar in both forms',
     'The tests check a few days.', [DT, TD, ST],
     [('weekday, isoweekday, timetuple, ctime', DT), ('_day_of_week, _build_struct_time', TD), ('struct_time', ST)],
     'every year, boundary days (thorough: every day)')
prop('C26', 'Replacing, combining, and splitting change only the named fields',
     'Replacing fields gives the value with exactly those fields changed, or an error when that value does not exist; combining a date and a time and splitting a datetime are inverse. The form, zone, and fold are kept and the class of the receiver is kept.',
     ['inputs', 'histories'], 'all subsets of fields x boundary values; sequences of replace, combine, and split',
     'The tests replace a few fields.', [DT],
     [('replace, _replace_short, _replace_long, combine, date(), time(), timetz()', DT)],
     'all field subsets x values; oracle: field tuples')
prop('C27', 'The version editor leaves a consistent, complete file set',
     'Editing the version writes the requested version in both files, keeps every other line, and doing it again changes nothing. A crash at any point leaves each file either old or new.',
     ['crash_points', 'histories'], 'all option sequences up to the bound; all crash points of a run',
     'There are no tests of the editor.', ['config.py'],
     [('EditPyProject', 'config.py')],
     'all option combinations and sequences in scratch copies')
prop('C28', 'The representation of a value evaluates to the same value',
     'Evaluating the representation of any date, datetime, time, time zone, or time structure gives an equal value with the same fields, form, fold, and zone.',
     ['inputs'], 'all field boundaries x forms x zones',
     'The tests compare a few representations with strings.', [DT, ST],
     [('__repr__', DT + ', ' + ST)],
     'product of boundary values')
prop('C29', 'Seasons, Delta T, and the two Julian day counts are the real ones',
     'The moments of the equinoxes and solstices are the real ones to a minute, from any day of the year and in any zone; Delta T is that of the documented formula; the exact and the historic Julian day count map every day one to one and refuse the days that do not exist in one of them.',
     ['inputs'], 'all years -1000 to 3000 x four seasons; all months; all days',
     'The tests sample a few years and days.', [BASE, AT],
     [('_find_moment_of_equinoxes_or_solstices, _delta_t, _meeus_from_exact, _exact_from_meeus', BASE)],
     'all years, months, and days; oracle: independent formulas')

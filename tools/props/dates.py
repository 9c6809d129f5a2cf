H = "heclib/heclib_c/src/"
D = H + "Utilities/DateTime/"
PROPS = [
dict(id="C15", title="Day numbers, date and time texts and interval arithmetic follow the calendar",
 statement="""Day numbers count days: 01Jan1900 is day 1, consecutive days of the (proleptic) Gregorian calendar have consecutive numbers, julianToYearMonthDay and yearMonthDayToJulian are inverse of each other for every day
 (months and days beyond their range carry over), isLeapYear and dayOfWeek (Sunday = 1) agree with the calendar, also before 1900. yearMonthDayToDate and julianToDate write each date style as its table has it, NUL-terminated and cut to
 the buffer, and return its length; impossible months and days are refused. dateToYearMonthDay and dateToJulian read back every style that has the full year, in any case (no day: 0, taken as the first), and the 02Jun1985 style also for years
 beyond 9999 and before 0; any other text is refused or gives a month 1..12 and a day 0..31. secondsToTimeString, minutesToHourMin, timeStringToSeconds and timeStringToSecondsMills agree with each other for every second 0..86400 and never
 write beyond the buffer; spatialDateTime reads date:time texts; getDateAndTime and millsToDateTime give the right date and time. cleanTime keeps the moment and puts the time within 1..24:00 of its day; compareTimes orders moments in any mix of units
 and bases. For each standard interval incrementTime by n periods from the end of a period gives the end of the n-th next period (n negative, too), and from a place in a period the same place; numberPeriods inverts it and, up to a week, gives the
 whole periods between any two moments; ztsOffset, ztsOffsetAdjustToStandard and ztsOffsetAdjustToOffset agree. ztsGetStandardInterval maps names to seconds and back.""",
 over=["inputs"], quant="every day from −1 000 000 to 12 000 000 (thorough: all day numbers an int holds but the outermost), every day of 466 (9999) years × 49 styles, every second of the day × styles × buffer sizes, all texts of up to 5 (7) of sixteen pieces, 34 intervals × starting points × −120..120 (±400) periods",
 why="The tests convert a few dozen dates. A wrong century rule, a month end, a midnight, a style with a rare year length or one interval's arithmetic shows only on particular days.",
 files=[D+"yearMonthDayToJulian.c", D+"julianToYearMonthDay.c", D+"yearMonthDayToDate.c", D+"dateToYearMonthDay.c", D+"incrementTime.c", D+"numberPeriods.c", D+"cleanTime.c", D+"secondsToTimeString.c", D+"timeStringToSecondsMills.c", H+"Public/ztsOffset.c", H+"Public/ztsOffsetAdjustToStandard.c", H+"Public/ztsOffsetAdjustToOffset.c", H+"SemiPublic/ztsGetStandardInterval.c"],
 mech=[("calendar", D+"yearMonthDayToJulian.c"), ("date texts", D+"dateToYearMonthDay.c"), ("interval arithmetic", D+"incrementTime.c"), ("offsets", H+"Public/ztsOffset.c")],
 technique="exhaustive enumeration of days, texts, times and interval steps on the real code (with the address sanitizer), compared with independent calendar arithmetic", level="model_checking",
 note="Two-digit years are written but not read back (the century is not in the text); styles 112 and 115, where the table contradicts its neighbours, may have either form. Times of day beyond 24:00 and milliseconds of other than three digits are not constrained. Offsets within two days of the end of a period count as none by design. Known finding: yearly offsets of 1 March."),
]

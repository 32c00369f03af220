#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or ["dateparser.Parse / Parser.Parse return value"], hook_needed=hook)))

p("C01", "Concurrent use: no data race, and every call gets its sequential result",
  "Any number of goroutines may call Parse, Search, SearchWithLanguage, ParseHijri, ParseJalali and PopTzOffset at the same time, on one shared Parser, on different Parsers, or through the package functions. No schedule produces a data race, a deadlock or a crash, and each call returns exactly what the same call returns when it runs alone.",
  ["schedules"], "All interleavings, up to a preemption bound, of 2-3 goroutines doing colliding calls.",
  "The test suite has no concurrent test at all; a table-driven test runs one schedule.",
  ["parser.go", "search.go", "hijri-parser.go", "jalali-parser.go", "internal/strutil/strutil.go", "internal/language/utils.go", "internal/data/00-locale-data.go"],
  [("Parser mutex held for the whole of Parse and while the charset cache is built", "parser.go Parse, search.go initUniqueCharsets"), ("per-call copies of shared dictionaries", "internal/language/utils.go translateWord"), ("shared Unicode transformers", "internal/strutil/strutil.go")],
  state=[dict(name="Parser.usedLocales, uniqueCharsets, ParserTypes", meaning="per-Parser mutable state", where="parser.go"), dict(name="nfkcTransformer, unicodeTransformer", meaning="process-wide stateful transformers", where="internal/strutil/strutil.go")],
  observe=["return values of every concurrent call", "Go race detector on the explored schedules"],
  hook="none in /repo: scheduling points are inserted at check time into an overlay copy")
p("C02", "A call's result does not depend on what was called before it",
  "Without TryPreviousLocales, the result of any call is a function of its arguments and the Parser's public fields only: after any sequence of earlier Parse, Search, SearchWithLanguage, ParseHijri, ParseJalali or PopTzOffset calls, successful or failing, on the same or another Parser, it equals the result in a fresh process.",
  ["histories"], "Every call sequence up to the stated depth over an alphabet of calls that share a Parser, a locale, dictionary words, caches and lazily initialised state.",
  "Tests make each call once in a fixed order; a leak from one call into the next needs the right predecessor.",
  ["parser.go", "search.go", "internal/language/utils.go", "internal/language/translate.go", "internal/language/translate-search.go", "internal/data"],
  [("translations are cloned before they are edited", "internal/language/utils.go translateWord"), ("configuration cloned per call and per locale", "config.go initiate/Clone, internal/setting/config.go Clone"), ("charset cache regenerated when the language set changes", "search.go initUniqueCharsets")])
p("C03", "TryPreviousLocales consults exactly the locales that parsed before",
  "With TryPreviousLocales, a locale that already produced a result on this Parser and is applicable to the string is tried before the others, in the order in which such locales were first used, and decides if it can read the string; everything else is unchanged. Calls without the option neither record nor consult used locales, failing calls record nothing, one Parser's history never affects another Parser, and a used locale is not used when the present call has Locales or Languages that (with its DefaultLanguages and Region) don't allow it.",
  ["histories", "configurations"], "Every sequence up to the stated depth of calls that make used locales of different languages, with and without the option and with restricting configurations, followed by ambiguous strings.",
  "One test covers one two-call history.",
  ["parser.go"], [("used-locale list and tracker", "parser.go saveUsedLocale, checkPreviousLocales")],
  state=[dict(name="usedLocales/usedLocalesTracker", meaning="locales that parsed a string with the option on", where="parser.go")])
p("C04", "Results are the same in every process: map iteration order is unobservable",
  "For the same call, every run of the program returns the same result and removes the same time zone text: no result of Parse, Search, ParseHijri, ParseJalali or PopTzOffset depends on the random iteration order of a map.",
  ["inputs", "schedules"], "All enumerated iteration orders of every map ranged over (at start-up and per call), for a set of inputs that reaches each such loop.",
  "Go randomises map order per process; a test run sees one order, and a wrong pick can be rare.",
  ["internal/timezone/tz-offsets.go", "internal/parser/absolute/parser.go", "internal/parser/nospace/parser.go", "internal/parser/hijri/parser.go", "internal/language/loader.go", "internal/language/applicable-check.go"],
  [("ordered lists derived from maps", "internal/timezone/tz-offsets.go"), ("language order is a dense permutation", "internal/data/01-language-order.go")],
  hook="none in /repo: an overlay copy with controlled map iteration is generated at check time")
p("C05", "The wall clock matters only when CurrentTime is unset, and then it is UTC now",
  "When CurrentTime is set, the result of every call is the same instant, and except for timestamps the same zone, whatever the machine's clock and local time zone. When it is unset, the result equals that of the same call with CurrentTime set to the present instant in UTC; the fields of a date are those of one single instant even if the clock advances during the call. Searching without CurrentTime, a date behind an absolute date of the text is relative to that one instead.",
  ["inputs", "configurations", "schedules"], "Every enumerated input and configuration under each clock value and each position at which the clock may tick over a boundary.",
  "Tests either set CurrentTime or compare loosely; they run at one moment.",
  ["config.go", "search.go", "internal/parser/absolute/parser.go", "internal/parser/relative/parser.go", "internal/parser/formatted/parser.go", "internal/parser/common/apply-day.go", "internal/parser/nospace/constants.go", "internal/parser/timestamp/parser.go"],
  [("CurrentTime default filled once per call", "config.go initiate")],
  hook="none in /repo: time.Now is replaced in an overlay copy generated at check time")
p("C06", "Every call returns, never panics, and yields either a date or an error",
  "For every string, format, configuration that passes validation, and known locale, Parse, Search, SearchWithLanguage, ParseHijri, ParseJalali and PopTzOffset return without panicking or hanging. Parse, ParseHijri and ParseJalali return either a non-zero date with a real period and no error, or the zero date and an error.",
  ["inputs", "configurations"], "All token strings up to the stated length over an alphabet that reaches every branch, over every locale and calendar.",
  "Tests use well-formed examples; a scraper feeds arbitrary strings.",
  ["parser.go", "search.go", "internal/language/translate-search.go", "internal/language/split.go", "internal/parser/hijri/parser.go", "internal/parser/jalali/parser.go", "internal/parser/tokenizer/tokenizer.go"],
  [("bounds checks in token access", "internal/parser/absolute/parser.go getToken"), ("range check of the Umm al-Qura table", "internal/parser/hijri/parser.go")])
p("C07", "A complete numeric date is read by the date order, on every calendar day",
  "A complete numeric date - four-digit or two-digit year, any usual separator, padded or not - is read according to DateOrder (per locale when DateOrder is a function, the locale's own order otherwise), where a four-digit number is always the year and the other two follow the order. Every day of the calendar written this way comes back as exactly that day at midnight with period Day, and a value that cannot be the next component of the order is taken as the next still missing component that fits.",
  ["inputs", "configurations"], "Every day of a set of years covering all month/leap/century cases, times six orders, separators and paddings.",
  "Tests have a few dozen example dates.",
  ["internal/parser/absolute/parser.go", "internal/parser/absolute/root.go", "internal/parser/tokenizer/tokenizer.go", "parser.go"],
  [("number directives tried in date order", "internal/parser/absolute/parser.go parseDigitToken"), ("date order validation", "parser.go validateDateOrder")])
p("C08", "Month and weekday names of every supported locale mean what CLDR says",
  "For every supported locale, a date written with that locale's CLDR month name (wide or abbreviated, in format or stand-alone form) and day and year parses to that month with that locale, and the locale's weekday names are understood and never change an explicit date. The result is the same whether the locale is given explicitly or found by the parser among its language's locales. (Supported forms are those the locale's tables contain and that name one thing only.)",
  ["inputs", "configurations"], "Every (locale, month or weekday form) of CLDR that the locale data supports.",
  "Tests sample one or two dates per language.",
  ["internal/data", "internal/language/translate.go", "internal/language/split.go", "internal/language/applicable-check.go", "internal/strutil/strutil.go"],
  [("per-locale dictionaries", "internal/data/*.go"), ("dictionary split and translation", "internal/language/split.go, translate.go")])
p("C09", "Relative expressions move the base time by exactly the stated amount",
  "An expression of a number and a unit, or several of them, with 'ago' or 'in', or the fixed words (now, today, yesterday, tomorrow, last/next unit), yields the base time moved by exactly that calendar amount, in the stated direction: past for 'ago', future for 'in', otherwise by PreferredDateSource. Month and year steps follow calendar arithmetic, clamp to the end of the target month when PreserveEndOfMonth is set, and the period is the smallest unit as documented.",
  ["inputs", "configurations"], "All units, counts, combinations up to three units, directions, base times at month/leap/year/DST boundaries, and settings, in English and in the CLDR relative forms of every locale that supports them.",
  "Tests use one base time and typical counts.",
  ["internal/parser/relative/parser.go", "internal/language/translate.go", "internal/data"],
  [("calendar arithmetic", "internal/parser/relative/parser.go parseDate, addDate"), ("locale relative-type tables", "internal/data/*.go")])
p("C10", "Missing date parts are filled from the base time as configured",
  "When a date lacks year, month or day, the stated parts are kept and the missing ones come from the base time, PreferredMonthOfYear and PreferredDayOfMonth, with the day never exceeding the target month. With PreferredDateSource and the other preferences at their default, Past never yields a day after the base time and Future never one before it for dates that state day and month, bare weekdays, two-digit years and bare times; the period tells the largest part that was given.",
  ["inputs", "configurations"], "Every subset of parts and value class, against every settings combination and base times at month, leap-year, year and week boundaries.",
  "Tests fix one base time per setting.",
  ["internal/parser/absolute/parser.go", "internal/parser/common/apply-day.go", "internal/parser/common/apply-month.go"],
  [("time-frame, month and day correction", "internal/parser/absolute/parser.go correctForTimeFrame/Month/Day")])
p("C11", "StrictParsing and RequiredParts reject exactly the incomplete dates",
  "With StrictParsing a string yields a date only if its text states day, month and year, and with RequiredParts only if it states every listed part; a string that states them all gives the same result as without the option. The setting is enforced in the same way for absolute, localized, Jalali, Hijri and unspaced dates and whichever locale would match; relative expressions, timestamps and custom formats are exempt.",
  ["inputs", "configurations"], "Every subset of parts in several notations, times every subset of RequiredParts and StrictParsing.",
  "Tests check a handful of strings; valid RequiredParts values are never tested through the public API.",
  ["internal/parser/common/strict-check.go", "internal/parser/absolute/parser.go", "internal/parser/nospace/parser.go", "config.go"],
  [("strict check on missing parts", "internal/parser/common/strict-check.go"), ("validation of RequiredParts", "config.go validate")])
p("C12", "A zone in the string wins, with its exact offset, and never shifts the clock",
  "If the string carries a UTC/GMT offset or a known zone abbreviation, the result has the written wall-clock date and time in that zone with exactly that offset; otherwise the zone is DefaultTimezone with the offset in force at that wall-clock time, or else the zone of CurrentTime (UTC for custom formats and unspaced dates). For relative dates the base instant is first converted to that zone. Nothing but the offset depends on the base time's own zone: in any two zones the same string and the same base clock give the same clock and period, also next to the clock changes of a zone. PopTzOffset returns the zone's name and offset and the string without the zone and one separator after it, otherwise unchanged. (UTC offsets in use on Earth, and clock times that exist in the zone.)",
  ["inputs", "configurations"], "Every offset notation (sign, hours, minutes, with and without colon and UTC/GMT prefix) and every known abbreviation, times date and time notations, default zones and DST boundaries.",
  "Tests cover a dozen zones and no offset/DST boundary product.",
  ["internal/timezone/timezones.go", "internal/timezone/tz-offsets.go", "internal/timezone/parser.go", "parser.go", "internal/parser/relative/parser.go"],
  [("ordered zone patterns", "internal/timezone/tz-offsets.go"), ("zone applied to wall clock", "parser.go applyTimezone")])
p("C13", "Every time of day in every clock notation is read exactly",
  "A time of day in 24-hour or 12-hour notation, with or without seconds and fractions, before or after a date, yields exactly that hour, minute, second and fraction (12 am is hour 0, 12 pm hour 12); an impossible time next to an absolute date is never turned into another one. With ReturnTimeAsPeriod the period is the smallest time unit written, otherwise it is the date's period.",
  ["inputs", "configurations"], "All 24x60 minutes, all seconds classes, fractions of 1-6 digits and 12-hour forms, in several positions and notations.",
  "Tests have some forty times.",
  ["internal/parser/common/time.go", "internal/parser/absolute/parser.go", "internal/parser/relative/parser.go"],
  [("time formats", "internal/parser/common/time.go"), ("time token assembly", "internal/parser/absolute/parser.go Init")])
p("C14", "Unix timestamps denote exactly that instant",
  "A string of 10, 13 or 16 digits (seconds, milliseconds, microseconds), optionally with negative seconds, yields exactly that instant: the first ten digits are the (signed) seconds and the others the sub-second part added to them, whatever the locale, base time or configured zones, unless the timestamp parsers are excluded. Digit strings of other lengths are never read as timestamps.",
  ["inputs", "configurations"], "All digit lengths, boundary seconds, all sub-second classes, both signs, with configurations.",
  "Tests have about ten positive values.",
  ["internal/parser/timestamp/parser.go"], [("timestamp patterns", "internal/parser/timestamp/parser.go")])
p("C15", "Custom formats are tried first, in order, and obeyed",
  "If the string matches one of the given Go layouts, or else its translation does, the result is what the first matching layout says: stated parts are kept, an absent year is the base time's (the leap year chosen as for incomplete dates for 29 February), an absent month or day follows PreferredMonthOfYear and PreferredDayOfMonth within the length of the month, the period is Year without a month and Month without a day, and the zone is taken from the string, DefaultTimezone or UTC in that order. A string matching no layout is parsed as if no format were given.",
  ["inputs", "configurations"], "Every layout built from the part alphabet, times rendered dates, base times and settings, including lists of several layouts and translated month names.",
  "Tests use about ten layouts on one base time.",
  ["internal/parser/formatted/parser.go", "parser.go", "internal/language/translate.go"],
  [("layout matching and filling", "internal/parser/formatted/parser.go")])
p("C16", "Every Jalali date is converted to the right Gregorian day",
  "For every day of the Jalali calendar from 1206 to 1500, written in Persian or Latin digits, numerically or with the month's Persian name, with or without weekday, number words and time, ParseJalali returns the Gregorian day on which it falls and the written time of day. A two-digit year is 1361-1460 (a century before or after it where PreferredDateSource asks for that), numeric dates follow the configured order (day, month, year by default). Time zones, StrictParsing and RequiredParts act as for Gregorian dates.",
  ["inputs", "configurations"], "Every Jalali day of 1200-1500 numerically, and every month/day in each notation.",
  "Tests have thirty dates.",
  ["jalali-parser.go", "internal/parser/jalali/parser.go", "internal/parser/jalali/translate.go"],
  [("conversion and month lengths", "internal/parser/jalali/parser.go createDateTime"), ("Persian text replacement", "internal/parser/jalali/translate.go")])
p("C17", "Every Umm al-Qura date is converted to the right Gregorian day",
  "For every day of the Umm al-Qura calendar in its defined range (1356-1500 AH), in any digits and usual separators, with or without time in Latin or Arabic notation, ParseHijri returns the Gregorian day on which it falls in van Gent's table of that calendar and the written time of day. A year outside the defined range is an error, never a wrong date or a crash. A two-digit year is 1390-1489 (a century before or after it where PreferredDateSource asks for that and the table has it); time zones act as for Gregorian dates.",
  ["inputs", "configurations"], "Every day of 1356-1500 AH, times notation, order, and time forms.",
  "Tests have ten dates.",
  ["hijri-parser.go", "internal/parser/hijri/parser.go"],
  [("conversion and month lengths", "internal/parser/hijri/parser.go createDateTime"), ("two-digit year pivot", "internal/parser/hijri/parser.go handleTwoDigitYear")])
p("C18", "Locales are chosen exactly as configured",
  "Only locales allowed by Locales, else by Languages (or the language detector) and Region, are used, in the given order with UseGivenOrder and in order of prevalence otherwise; the result's locale is the first of these that can read the string, and DefaultLanguages are tried last. Unknown locales or languages and conflicting locales give an error, and every code for which IsKnownLocale is true is usable.",
  ["configurations", "inputs"], "Every list of up to three codes from an alphabet of known, regional, conflicting, duplicate and unknown codes, times region, order flag, detector answers and default languages, times strings only some languages read; and every known locale and region.",
  "Tests check a few lists.",
  ["parser.go", "internal/language/loader.go", "internal/data/01-language-order.go", "internal/data/04-locale-order.go", "root.go"],
  [("locale construction, ordering and errors", "internal/language/loader.go GetLocales")])
p("C19", "Search finds planted dates, in order, and reports text that is really there",
  "Every result of a search is a non-zero date with the detected language, and result texts occur in the searched text in order (up to white space). A complete date in a supported language planted among words that carry no date meaning is found with its exact date, several such dates with such words between them are all found in text order and nothing else is, and the date found is the one parsing the planted date alone gives in that language and date order. Without CurrentTime, a relative date refers to the last absolute date before it, or to now if there is none.",
  ["inputs"], "All sentences up to the stated length over filler words, punctuation and planted dates, in several languages and both entry points.",
  "Tests compare about fifty fixed texts.",
  ["search.go", "internal/language/translate-search.go", "internal/language/detector.go", "internal/language/split.go"],
  [("chunk translation and alignment", "internal/language/translate-search.go"), ("split choice", "search.go chooseBestSplit")])
p("C20", "ParserTypes restricts and orders the parsing methods",
  "Only the listed parsing methods are used and the first listed one that accepts the string decides, apart from custom formats, which are always tried on the raw string first. An empty list means the documented default order, an unknown type is an error, and the list is never altered by a call except to fill in that default.",
  ["configurations", "inputs"], "Every ordered selection of the six types up to length three and the full permutations of ambiguous cases, times strings accepted by one, several or no type.",
  "Tests cover a few single-type lists.",
  ["parser.go"], [("parser type loop", "parser.go Parse")])
p("C21", "Both regular-expression engines give the same results",
  "A build with the re2_wasm tag returns the same result as the default build for every call.",
  ["inputs", "configurations"], "Every case of a cross-section of all the other alphabets, on both builds.",
  "Both builds run the same examples, which reach few patterns with few inputs.",
  ["internal/regexp/regexp.go", "internal/regexp/regexp-re2.go"], [("engine wrappers with the same method set", "internal/regexp")])
p("C22", "How a date is typeset does not change what it means",
  "Replacing Latin digits by the digits of any other script, changing letter case, composing or decomposing characters, using full-width characters, padding with extra white space, wrapping in brackets or adding invisible direction marks between words leaves the result unchanged. (Custom formats see the string as written; letter case is that of Unicode's default tables, so not that of Turkish, Azeri, Lithuanian or Greek.)",
  ["inputs"], "Every decimal digit script, letter case, normal form, width, white space, bracket and mark variant, singly and in pairs, over a base set of date strings in many languages and calendars and over every CLDR name of every locale.",
  "Tests have a few strings with non-Latin digits.",
  ["internal/strutil/strutil.go", "internal/digit/digit.go", "internal/language/translate.go"],
  [("normalisation", "internal/strutil/strutil.go"), ("digit ranges", "internal/digit/digit.go")])
p("C23", "Configurations are validated, and never modified",
  "A configuration with an out-of-range preference or an unknown required part is rejected with an error by every entry point and every valid one is accepted; a nil configuration behaves as the zero one. No call modifies the caller's configuration, slices, formats or text, and later changes to them, or to a clone, do not affect anything already returned.",
  ["configurations", "histories"], "Every boundary value of each field, alone and in pairs, on each entry point, with deep comparison before and after.",
  "Tests never pass an invalid or aliased configuration.",
  ["config.go", "parser.go", "search.go", "hijri-parser.go", "jalali-parser.go"],
  [("validation", "config.go validate"), ("clone before use", "config.go Clone, initiate")])
p("C24", "A date written without separators is read by the date order",
  "Eight-digit dates, and dates followed by hour, minute and second digits, written without separators in the configured order are read as exactly that date and time, with impossible readings rejected in favour of the next consistent one; an eight-digit year-month-day that cannot be read in that order is still read as itself, and digit strings with no valid reading are rejected.",
  ["inputs", "configurations"], "Every day of selected years in every order, with no or six time digits.",
  "Tests have fifty strings.",
  ["internal/parser/nospace/parser.go", "internal/parser/nospace/constants.go"],
  [("candidate generation", "internal/parser/nospace/constants.go"), ("format order", "internal/parser/nospace/parser.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")

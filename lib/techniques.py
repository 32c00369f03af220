NA = {}
EN = "exhaustive enumeration of a bounded input/configuration space on the implementation against a reference model"
T = {
 "C07": (EN,
         "Every enumerated date string is executed on the real parser and compared with an independent reading rule; covers all days of the listed years, orders, layouts and separators; says nothing about digits outside these."),
 "C10": (EN,
         "Every subset of date parts from boundary values is executed under every settings combination and base time and compared with an independent filling model; English text, Gregorian calendar only."),
 "C13": (EN,
         "Every minute of the day, every boundary second and fraction in every enumerated notation and position is executed and compared with an independent clock model."),
 "C08": (EN,
         "Every CLDR month and weekday form and CLDR-formatted date of every locale the library lists (its own and inherited forms) is executed with the locale configured three ways; forms the library's tables do not contain or that mean two things are listed in tables/names-unsupported.tsv."),
 "C09": (EN,
         "Every unit, count, direction, combination, base time and setting of the alphabet in English and every CLDR relative form of every locale is executed and compared with an independent calendar model."),
 "C12": (EN,
         "Every listed offset and zone abbreviation in every enumerated notation, date form and position is executed and compared with an independent zone model (Go's tz database for named locations); offsets outside the library's list are not claimed."),
 "C14": (EN,
         "Every digit length, sign and boundary second/sub-second of the alphabet is executed and compared with integer arithmetic."),
 "C24": (EN,
         "Every day of the listed years in all six orders, with and without time digits, is executed and compared with the order's reading; every other eight-digit month/day pair must give a consistent reading or an error."),
 "C02": ("explicit enumeration of call histories on the real code",
         "Every history of two calls over 120 calls, and longer ones over subsets, is executed and every result compared with that of the same call in a process of its own."),
 "C03": ("explicit-state reference machine (list of used locales per Parser) run in lockstep with the real code over all call sequences",
         "Every sequence of up to three (thorough four, five) calls is executed; after each call the result is compared with the one the reference machine predicts; what a locale alone makes of a string comes from a fresh Parser."),
 "C06": (EN,
         "All token strings up to the stated lengths over alphabets of numbers, separators, words, broken UTF-8 and every locale's dictionary words, extreme configurations, format strings, calendars, zone strings, search texts and long repetitions are executed on every entry point; each must return (120 s watchdog) either a well-formed date or an error."),
 "C11": (EN,
         "Every listed string (stating every subset of the parts, in several languages, calendars and notations, plus CLDR forms of every third locale) is executed with every subset of required parts under several configurations and compared with the parts it states by construction."),
 "C16": (EN,
         "Every day of 1206-1500 is executed in rotating notations (all notations for eight years; thorough: all for every day) and compared with ICU's first days of the years."),
 "C17": (EN,
         "Every day of 1356-1500 is executed in rotating notations (thorough: all) and compared with the published month starts; every other year 1-9999 must be an error."),
 "C15": (EN,
         "Every combination of year, month, day, clock and zone layout forms in every order with boundary values and rotating preferences (thorough: all), every list of up to three competing layouts, and every CLDR month name is executed and compared with the fields known by construction; strings fitting no layout are compared with the run without layouts."),
 "C22": (EN,
         "Every typesetting variant (63 digit scripts, 4 letter cases, 4 normal forms, 4 widths, 18 white spaces in 6 positions, 20 bracketings, 2 marks in 5 positions), singly and in pairs, of 75 dates of every kind and of every CLDR name of every locale is executed and compared with the run on the plain string."),
 "C23": (EN,
         "Every preference value 0-255 (and triples of boundary values), every list of up to two (thorough three) required parts, every subset of list fields with and without spare capacity is executed on all eight entry points and compared with the validity rule and with full snapshots taken before the call; Clone is compared field by field through reflection."),
 "C18": (EN,
         "Every list of up to three locale or language codes, region, order flag, detector answer and default language list of the alphabets is executed; which locales are tried, in which order, and which configurations are errors comes from a model, what a locale alone makes of a string from the implementation (self-composition); every locale is named five ways and misspelled nine ways."),
 "C19": (EN,
         "Every sentence of the frame grammar (one, two or three planted dates of 18 languages in 22 frames and 9 gaps; every CLDR month name of every language; ambiguous numbers in every date order; relative dates with and without a date before them) is searched and compared with the planted dates; every token sequence up to three (thorough four) of seven languages must keep the result invariants; detection is compared with searching in the detected language."),
 "C20": (EN,
         "Every list of up to three parser types (and all orders of four and six, unknown types in every position) is executed on strings every method subset accepts and compared with a table of what each single method makes of each string."),
 "C01": ("stateless exploration of the real code under a controlled scheduler (preemption-bounded), every schedule also under the Go race detector",
         "Every ordered pair of 22 colliding calls (thorough: triples too) runs on a copy of the library rewritten at check time so that a cooperative scheduler decides every switch; switches at function entries, lock operations and accesses of shared variables up to the preemption bound; the scheduler's hand-overs are invisible to the race detector, so it judges every schedule by the program's own synchronization."),
 "C04": ("exhaustive exploration of the runtime's choices (map iteration orders) on the real code, compared across processes",
         "Each of some 16000 calls runs in processes whose every map iteration, package initialization included, follows a chosen order; orders cover both relative orders of every pair of keys, rotations and exchanges, not all permutations of large maps."),
 "C05": ("exhaustive exploration of clock values and tick positions on the real code under a controlled clock",
         "Each call runs under every listed machine clock and local zone with CurrentTime set, and under every boundary and every position of a tick between two clock readings with it unset, compared with the run with CurrentTime set."),
 "C21": ("exhaustive differential execution of a bounded input/configuration space on the two builds",
         "Each of some 16000 calls (thorough: 100000) over all locales, formats, calendars, zones, odd bytes and searches runs in both builds; the re2_cgo tag can't be built in this sandbox."),
}

From 90017db03b2b081e1927698c534d66d06cbacebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 01/57] fix: reject impossible fallback month or day instead of
 overflowing to another date

---
 internal/parser/absolute/root.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/parser/absolute/root.go b/internal/parser/absolute/root.go
index 8853c0f..d1fe104 100644
--- a/internal/parser/absolute/root.go
+++ b/internal/parser/absolute/root.go
@@ -1,6 +1,7 @@
 package absolute
 
 import (
+	"fmt"
 	"strings"
 	"time"
 
@@ -53,6 +54,12 @@ func createDateTime(p *Parser, pms map[string]int, loc *time.Location) (time.Tim
 	Y, M, D := pms["year"], pms["month"], pms["day"]
 	H, m, s, ns := pms["hour"], pms["minute"], pms["second"], pms["nanosecond"]
 
+	// Number that no component accepts is used as fallback for the missing one,
+	// so make sure it's really valid instead of overflowing to another date
+	if M < 1 || M > 12 || D < 1 || D > 31 {
+		return time.Time{}, fmt.Errorf("invalid date: %d-%d-%d", Y, M, D)
+	}
+
 	// Fix leap year
 	if D == 29 && M == 2 && !dateutil.IsLeapYear(Y) {
 		Y = p.getCorrectLeapYear(Y)
-- 
2.43.0


From 9cd5a5d38cce741ddea528c4fd207ac7df7d8ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 02/57] fix: keep the explicit year when the 29th February
 doesn't exist in it

---
 internal/parser/absolute/root.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/parser/absolute/root.go b/internal/parser/absolute/root.go
index d1fe104..c1719a9 100644
--- a/internal/parser/absolute/root.go
+++ b/internal/parser/absolute/root.go
@@ -60,6 +60,11 @@ func createDateTime(p *Parser, pms map[string]int, loc *time.Location) (time.Tim
 		return time.Time{}, fmt.Errorf("invalid date: %d-%d-%d", Y, M, D)
 	}
 
+	// If year is explicitly specified, don't move the date to another year
+	if _, yearExist := p.ComponentValues["year"]; yearExist && D == 29 && M == 2 && !dateutil.IsLeapYear(Y) {
+		D = 28
+	}
+
 	// Fix leap year
 	if D == 29 && M == 2 && !dateutil.IsLeapYear(Y) {
 		Y = p.getCorrectLeapYear(Y)
-- 
2.43.0


From 21b4bb6ea8a21281fdefdbc0f92b3550653cdb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 03/57] fix: accept valid required parts and reject the invalid
 ones

---
 config.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/config.go b/config.go
index cb8a2c6..8d5a352 100644
--- a/config.go
+++ b/config.go
@@ -194,6 +194,8 @@ func (c Configuration) validate() error {
 	for _, part := range c.RequiredParts {
 		switch strings.ToLower(part) {
 		case "day", "month", "year":
+			continue
+		default:
 			return fmt.Errorf("invalid component in required parts: %s", part)
 		}
 	}
-- 
2.43.0


From 468dc4f951a88de13a96e60cf625b059f940fee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 04/57] fix: enforce required parts regardless of their letter
 case

---
 internal/parser/common/strict-check.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/parser/common/strict-check.go b/internal/parser/common/strict-check.go
index 271ec2b..a3f0cec 100644
--- a/internal/parser/common/strict-check.go
+++ b/internal/parser/common/strict-check.go
@@ -2,6 +2,7 @@ package common
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/markusmobius/go-dateparser/internal/setting"
 	"github.com/markusmobius/go-dateparser/internal/strutil"
@@ -23,6 +24,7 @@ func CheckStrictParsing(cfg *setting.Configuration, missingParts strutil.Dict) e
 
 	// Check if there are any missing required parts
 	for _, requiredPart := range requiredParts {
+		requiredPart = strings.ToLower(requiredPart)
 		if missingParts.Contain(requiredPart) {
 			return fmt.Errorf("required part \"%s\" is missing", requiredPart)
 		}
-- 
2.43.0


From e825c95495f9c418aae2778f6417f62c24033480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 05/57] fix: don't read the shared charset cache of the parser
 without its lock

---
 search.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/search.go b/search.go
index 84d0be9..a8eb08d 100644
--- a/search.go
+++ b/search.go
@@ -65,11 +65,11 @@ func (p *Parser) Search(cfg *Configuration, text string) (string, []SearchResult
 	}
 
 	// Generate charsets
-	p.initUniqueCharsets(languages)
+	uniqueCharsets := p.initUniqueCharsets(languages)
 
 	// Detect language of the text
 	iCfg := cfg.toInternalConfig()
-	lang, err := language.DetectFullTextLanguage(iCfg, text, languages, p.uniqueCharsets)
+	lang, err := language.DetectFullTextLanguage(iCfg, text, languages, uniqueCharsets)
 	if err != nil {
 		return "", nil, err
 	}
@@ -140,7 +140,7 @@ func (p *Parser) initSearchConfig(cfg *Configuration) (*Configuration, error) {
 	return cfg, nil
 }
 
-func (p *Parser) initUniqueCharsets(languages []string) {
+func (p *Parser) initUniqueCharsets(languages []string) map[string][]rune {
 	// Lock parser
 	p.Lock()
 	defer p.Unlock()
@@ -164,6 +164,8 @@ func (p *Parser) initUniqueCharsets(languages []string) {
 	if mustGenerate {
 		p.uniqueCharsets = language.GetUniqueCharsets(languages)
 	}
+
+	return p.uniqueCharsets
 }
 
 func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, translation, original []string) ([]parsedSearch, []string) {
-- 
2.43.0


From b23c891a85a5c648b312fc783c3099336a36f78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 06/57] fix: regenerate the charset cache for repeated
 languages

---
 search.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search.go b/search.go
index a8eb08d..b1b2a86 100644
--- a/search.go
+++ b/search.go
@@ -151,7 +151,7 @@ func (p *Parser) initUniqueCharsets(languages []string) map[string][]rune {
 	}
 
 	// Check if charsets need to be generated
-	mustGenerate := len(p.uniqueCharsets) != len(languages)
+	mustGenerate := len(p.uniqueCharsets) != len(strutil.NewDict(languages...))
 	if !mustGenerate {
 		for _, lang := range languages {
 			if _, exist := p.uniqueCharsets[lang]; !exist {
-- 
2.43.0


From d7c0176b739e9a54f0860c47c3b04f87dabd94b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 07/57] fix: guard the stateful Unicode transformers against
 concurrent use

---
 internal/strutil/strutil.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/strutil/strutil.go b/internal/strutil/strutil.go
index 4a95223..375031d 100644
--- a/internal/strutil/strutil.go
+++ b/internal/strutil/strutil.go
@@ -3,6 +3,7 @@ package strutil
 import (
 	"encoding/json"
 	"strings"
+	"sync"
 	"unicode"
 
 	"github.com/markusmobius/go-dateparser/internal/regexp"
@@ -12,6 +13,10 @@ import (
 	"golang.org/x/text/unicode/rangetable"
 )
 
+// transformerMutex guards the chained transformers, which keep their
+// buffers between calls so they are not safe for concurrent use.
+var transformerMutex sync.Mutex
+
 var (
 	nfkcTransformer    = transform.Chain(norm.NFKD, norm.NFKC)
 	unicodeTransformer = transform.Chain(norm.NFKD, runes.Remove(runes.In(unicode.Mn)), norm.NFKC)
@@ -58,6 +63,9 @@ func SanitizeSpaces(s string) string {
 // NormalizeUnicode removes Nonspacing Mark (Mn) characters then
 // use NFKC as the normal forms.
 func NormalizeUnicode(str string) string {
+	transformerMutex.Lock()
+	defer transformerMutex.Unlock()
+
 	normalized, _, err := transform.String(unicodeTransformer, str)
 	if err != nil {
 		return str
@@ -74,7 +82,9 @@ func NormalizeAposthrope(s string) string {
 // NormalizeCharset is used to normalize charset in a string. Used before
 // detecting language of a string.
 func NormalizeCharset(str string) string {
+	transformerMutex.Lock()
 	normalized, _, err := transform.String(nfkcTransformer, str)
+	transformerMutex.Unlock()
 	if err == nil {
 		str = normalized
 	}
-- 
2.43.0


From cdc1e03c0f4a70cf7d0e2c971a24b61c17d72f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:25 +0000
Subject: [PATCH 08/57] fix: try time zone patterns in a fixed order

---
 internal/timezone/tz-offsets.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/internal/timezone/tz-offsets.go b/internal/timezone/tz-offsets.go
index b53a382..791c9fb 100644
--- a/internal/timezone/tz-offsets.go
+++ b/internal/timezone/tz-offsets.go
@@ -27,6 +27,7 @@ var timezoneOffsets, rxSearch, rxSearchIgnoreCase = func() ([]OffsetData, *regex
 	for _, tzInfo := range timezoneInfoList {
 		for _, pattern := range tzInfo.RegexPatterns {
 			// Main pattern
+			start := len(offsets)
 			for tzName, offset := range tzInfo.Timezones {
 				searchPattern := regexp.QuoteMeta(tzName)
 				regexPattern := fmt.Sprintf(pattern, searchPattern)
@@ -42,6 +43,10 @@ var timezoneOffsets, rxSearch, rxSearchIgnoreCase = func() ([]OffsetData, *regex
 				})
 			}
 
+			// The zones come from a map, so put them in a fixed order
+			sortOffsets(offsets[start:])
+			start = len(offsets)
+
 			// Alternative patterns
 			for replacer, replacement := range tzInfo.AlternativePatterns {
 				for tzName, offset := range tzInfo.Timezones {
@@ -60,6 +65,8 @@ var timezoneOffsets, rxSearch, rxSearchIgnoreCase = func() ([]OffsetData, *regex
 					})
 				}
 			}
+
+			sortOffsets(offsets[start:])
 		}
 	}
 
@@ -76,3 +83,18 @@ var timezoneOffsets, rxSearch, rxSearchIgnoreCase = func() ([]OffsetData, *regex
 	rxSearchIgnoreCase := regexp.MustCompile("(?i)" + strSearchPatterns)
 	return offsets, rxSearch, rxSearchIgnoreCase
 }()
+
+// sortOffsets sorts the offsets so the most specific pattern is tried first, which
+// makes the name of the zone (e.g. "GMT" in "GMT+05:30") always removed along with
+// its offset.
+func sortOffsets(offsets []OffsetData) {
+	sort.SliceStable(offsets, func(a, b int) bool {
+		patternA, patternB := offsets[a].Regex.String(), offsets[b].Regex.String()
+		if len(patternA) != len(patternB) {
+			return len(patternA) > len(patternB)
+		} else if patternA != patternB {
+			return patternA < patternB
+		}
+		return offsets[a].Name < offsets[b].Name
+	})
+}
-- 
2.43.0


From 88bd27b91adc3092ef7da24a0be457f7e9d11d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 09/57] fix: don't move a bare time to the preferred or current
 month

---
 internal/parser/absolute/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 71a5708..067c745 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -576,6 +576,12 @@ func (p *Parser) correctForMonth(t time.Time) time.Time {
 		return t
 	}
 
+	// The same goes if only a time is provided
+	_, tokenTimeExist := p.ComponentTokens["time"]
+	if tokenTimeExist && !tokenYearExist && !tokenDayExist {
+		return t
+	}
+
 	return common.ApplyMonthFromConfig(p.Config, t, p.Now.Month())
 }
 
-- 
2.43.0


From 12e36542cec779f20fa903a67f35032e7aeda741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 10/57] fix: keep the year of a month without day when today is
 the 29th

---
 internal/parser/absolute/parser.go | 5 +++++
 internal/parser/absolute/root.go   | 7 +++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 067c745..19fee3e 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -507,6 +507,11 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 			}
 		}
 
+		// If the day is not written there is no need to look for a leap year
+		if !tokenDayExist && tDay == 29 && tMonth == 2 && !dateutil.IsLeapYear(tYear) {
+			tDay = 28
+		}
+
 		if tDay == 29 && tMonth == 2 && !dateutil.IsLeapYear(tYear) {
 			tYear = p.getCorrectLeapYear(tYear)
 		}
diff --git a/internal/parser/absolute/root.go b/internal/parser/absolute/root.go
index c1719a9..e110b64 100644
--- a/internal/parser/absolute/root.go
+++ b/internal/parser/absolute/root.go
@@ -60,8 +60,11 @@ func createDateTime(p *Parser, pms map[string]int, loc *time.Location) (time.Tim
 		return time.Time{}, fmt.Errorf("invalid date: %d-%d-%d", Y, M, D)
 	}
 
-	// If year is explicitly specified, don't move the date to another year
-	if _, yearExist := p.ComponentValues["year"]; yearExist && D == 29 && M == 2 && !dateutil.IsLeapYear(Y) {
+	// Only move the date to a leap year if 29th February is really written without
+	// year, i.e. don't change an explicit year or use a leap year for a borrowed day
+	_, yearExist := p.ComponentValues["year"]
+	_, dayExist := p.ComponentValues["day"]
+	if (yearExist || !dayExist) && D == 29 && M == 2 && !dateutil.IsLeapYear(Y) {
 		D = 28
 	}
 
-- 
2.43.0


From e299a6044e9b3fa5af51af27e64cb4b6cef09b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 11/57] fix: don't limit the written day to the current month
 when another one is preferred

---
 internal/parser/absolute/root.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/parser/absolute/root.go b/internal/parser/absolute/root.go
index e110b64..4970f45 100644
--- a/internal/parser/absolute/root.go
+++ b/internal/parser/absolute/root.go
@@ -7,6 +7,7 @@ import (
 
 	"github.com/markusmobius/go-dateparser/date"
 	"github.com/markusmobius/go-dateparser/internal/dateutil"
+	"github.com/markusmobius/go-dateparser/internal/parser/common"
 	"github.com/markusmobius/go-dateparser/internal/setting"
 	"github.com/markusmobius/go-dateparser/internal/timezone"
 )
@@ -36,6 +37,12 @@ func getDateTimeParams(p *Parser) map[string]int {
 	month, monthExist := p.ComponentValues["month"]
 	if !monthExist || month == 0 {
 		month = int(p.Now.Month())
+
+		// The written day must fit the preferred month, not the current one
+		if dayExist {
+			tmp := time.Date(p.Now.Year(), p.Now.Month(), 1, 0, 0, 0, 0, time.UTC)
+			month = int(common.ApplyMonthFromConfig(p.Config, tmp, p.Now.Month()).Month())
+		}
 	}
 
 	year, yearExist := p.ComponentValues["year"]
-- 
2.43.0


From 97bf2ad7b233b8b7fd7948e31b4c4406c89056d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:10 +0000
Subject: [PATCH 12/57] fix: keep the year of a day without month when it is
 the 29th

---
 internal/parser/absolute/root.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/parser/absolute/root.go b/internal/parser/absolute/root.go
index 4970f45..6611e0e 100644
--- a/internal/parser/absolute/root.go
+++ b/internal/parser/absolute/root.go
@@ -68,10 +68,11 @@ func createDateTime(p *Parser, pms map[string]int, loc *time.Location) (time.Tim
 	}
 
 	// Only move the date to a leap year if 29th February is really written without
-	// year, i.e. don't change an explicit year or use a leap year for a borrowed day
+	// year, i.e. don't change an explicit year or use a leap year for a borrowed part
 	_, yearExist := p.ComponentValues["year"]
+	_, monthExist := p.ComponentValues["month"]
 	_, dayExist := p.ComponentValues["day"]
-	if (yearExist || !dayExist) && D == 29 && M == 2 && !dateutil.IsLeapYear(Y) {
+	if (yearExist || !monthExist || !dayExist) && D == 29 && M == 2 && !dateutil.IsLeapYear(Y) {
 		D = 28
 	}
 
-- 
2.43.0


From 98a4a811d43d9f928691d03bb4d8166b5ccc698c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 13/57] fix: keep the 29th February in February when moved to
 another century

---
 internal/parser/absolute/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 19fee3e..5817a0f 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -522,6 +522,7 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 	}
 
 	if tokenYearExist && len(tokenYear.Text) == 2 {
+		originalDay := t.Day()
 		if p.Now.Before(t) {
 			if dateSource == setting.Past {
 				t = t.AddDate(-100, 0, 0)
@@ -531,6 +532,11 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 				t = t.AddDate(100, 0, 0)
 			}
 		}
+
+		// The 29th February might not exist in the other century
+		if t.Day() != originalDay {
+			t = t.AddDate(0, 0, -t.Day())
+		}
 	}
 
 	if tokenTimeExist && !tokenYearExist && !tokenMonthExist && !tokenDayExist && !tokenWeekdayExist {
-- 
2.43.0


From 24830cea42f6aff3ae4b5e1bb8caea651b6df44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 14/57] fix: compare and build the date in its own timezone

---
 internal/parser/absolute/parser.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 5817a0f..1cab26c 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -288,6 +288,12 @@ func (p *Parser) Parse(tz timezone.OffsetData) (date.Date, error) {
 
 	// Fetch datetime parameters
 	dtLocation := p.Now.Location()
+	if !tz.IsZero() {
+		dtLocation = time.FixedZone(tz.Name, tz.Offset)
+	} else if p.Config != nil && p.Config.DefaultTimezone != nil {
+		dtLocation = p.Config.DefaultTimezone
+	}
+
 	dtParams := p.FnGetDateTimeParams(p)
 	if !p.ParsedTime.IsZero() {
 		dtParams["hour"] = p.ParsedTime.Hour()
@@ -540,18 +546,11 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 	}
 
 	if tokenTimeExist && !tokenYearExist && !tokenMonthExist && !tokenDayExist && !tokenWeekdayExist {
-		tzOffset := tz.Offset
-		if tz.IsZero() && p.Config.DefaultTimezone != nil {
-			_, tzOffset = t.In(p.Config.DefaultTimezone).Zone()
-		}
-
-		tmp := t.Add(-time.Duration(tzOffset) * time.Second)
-
-		if dateSource == setting.Past && p.Now.Before(tmp) {
+		for dateSource == setting.Past && p.Now.Before(t) {
 			t = t.AddDate(0, 0, -1)
 		}
 
-		if dateSource == setting.Future && p.Now.After(tmp) {
+		for dateSource == setting.Future && p.Now.After(t) {
 			t = t.AddDate(0, 0, 1)
 		}
 	}
-- 
2.43.0


From cdee3bdb375d0315e54a325ff6e09975ba2e4920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 15/57] fix: use the offset of the default timezone at the
 written time

---
 parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 0dc6ace..3b6b1af 100644
--- a/parser.go
+++ b/parser.go
@@ -323,7 +323,10 @@ func (p *Parser) applyTimezone(iCfg *setting.Configuration, dt date.Date, tz tim
 	if !tz.IsZero() {
 		tzName, tzOffset = tz.Name, tz.Offset
 	} else {
-		tzName, tzOffset = dt.Time.In(iCfg.DefaultTimezone).Zone()
+		// Use the offset in force at the written date and time
+		tzName, tzOffset = time.Date(dt.Time.Year(), dt.Time.Month(), dt.Time.Day(),
+			dt.Time.Hour(), dt.Time.Minute(), dt.Time.Second(), dt.Time.Nanosecond(),
+			iCfg.DefaultTimezone).Zone()
 	}
 
 	dt.Time = time.Date(dt.Time.Year(), dt.Time.Month(), dt.Time.Day(),
-- 
2.43.0


From 0992a53c65219c449381b5340f513cd991236970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 16/57] fix: return error for Hijri date outside of Umm al-Qura
 scope

---
 internal/parser/hijri/parser.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/internal/parser/hijri/parser.go b/internal/parser/hijri/parser.go
index e2e0e6b..a679acc 100644
--- a/internal/parser/hijri/parser.go
+++ b/internal/parser/hijri/parser.go
@@ -1,6 +1,7 @@
 package hijri
 
 import (
+	"fmt"
 	"strconv"
 	"strings"
 	"time"
@@ -20,6 +21,12 @@ var timeConventions = map[string]string{
 	"pm": "مساء",
 }
 
+// Range of year that defined by Umm al-Qura calendar.
+const (
+	minYear = 1356
+	maxYear = 1500
+)
+
 func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 	// Normalize the string
 	str = strutil.NormalizeString(str)
@@ -130,8 +137,14 @@ func createDateTime(p *absolute.Parser, pms map[string]int, loc *time.Location)
 	Y, M, D := pms["year"], pms["month"], pms["day"]
 	H, m, s, ns := pms["hour"], pms["minute"], pms["second"], pms["nanosecond"]
 
-	// Fix leap year
-	if D == 30 && M == 12 && !isHijriLeapYear(Y) {
+	// Make sure date is within scope of Umm al-Qura calendar
+	if Y < minYear || Y > maxYear || M < 1 || M > 12 || D < 1 {
+		return time.Time{}, fmt.Errorf("date %d-%d-%d is outside Umm al-Qura scope", Y, M, D)
+	}
+
+	// Fix leap year, unless the year is specified explicitly
+	_, yearExist := p.ComponentValues["year"]
+	if !yearExist && D == 30 && M == 12 && !isHijriLeapYear(Y) {
 		Y = getCorrectHijriLeapYear(p.Config, Y)
 	}
 
@@ -157,6 +170,10 @@ func isDigit(s string) bool {
 }
 
 func isHijriLeapYear(year int) bool {
+	if year < minYear || year > maxYear {
+		return false
+	}
+
 	hd := hijri.UmmAlQuraDate{Year: int64(year), Month: 12, Day: 30}
 	gd := hd.ToGregorian()
 	rhd, _ := hijri.CreateUmmAlQuraDate(gd)
@@ -169,10 +186,14 @@ func getHijriLeapYear(year int, toFuture bool) int {
 		step = -1
 	}
 
+	originalYear := year
+
 	for {
 		year += step
 		if isHijriLeapYear(year) {
 			return year
+		} else if year < minYear || year > maxYear {
+			return originalYear
 		}
 	}
 }
-- 
2.43.0


From d9ac8896d9acadf54a46b1cad030368a978e24d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 17/57] fix: use the real length of Umm al-Qura months

---
 internal/parser/hijri/parser.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/parser/hijri/parser.go b/internal/parser/hijri/parser.go
index a679acc..6fcbadb 100644
--- a/internal/parser/hijri/parser.go
+++ b/internal/parser/hijri/parser.go
@@ -222,14 +222,14 @@ func getCorrectHijriLeapYear(cfg *setting.Configuration, currentYear int) int {
 }
 
 func getLastDayOfHijriMonth(year, month int) int {
-	switch {
-	case month == 12 && isHijriLeapYear(year):
-		return 30
-	case month%2 == 0:
-		return 29
-	default:
+	// Umm al-Qura is an observational calendar, so its months don't alternate
+	hd := hijri.UmmAlQuraDate{Year: int64(year), Month: int64(month), Day: 30}
+	rhd, _ := hijri.CreateUmmAlQuraDate(hd.ToGregorian())
+	if rhd.Day == 30 {
 		return 30
 	}
+
+	return 29
 }
 
 func handleTwoDigitYear(year int) int {
-- 
2.43.0


From 328af3921fac73f463eecdf4ae97c5eb9eb05e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:01 +0000
Subject: [PATCH 18/57] fix: accept the 31st day of Jalali months

---
 internal/parser/jalali/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/parser/jalali/parser.go b/internal/parser/jalali/parser.go
index 45e9bf7..d25cd1e 100644
--- a/internal/parser/jalali/parser.go
+++ b/internal/parser/jalali/parser.go
@@ -121,7 +121,7 @@ func getDatePartValue(p *absolute.Parser, component, token, directive string) (i
 
 	if component == "day" && tokenLength <= 2 && tokenIsDigit {
 		day, _ := strconv.Atoi(token)
-		if day >= 1 && day <= 30 {
+		if day >= 1 && day <= 31 {
 			return day, true
 		}
 	}
-- 
2.43.0


From a6d638d8efc054b4a6e310285619f0df07b81cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:02 +0000
Subject: [PATCH 19/57] fix: keep the explicit year of the 30th Esfand and
 reject invalid Jalali month

---
 internal/parser/jalali/parser.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/parser/jalali/parser.go b/internal/parser/jalali/parser.go
index d25cd1e..25fc401 100644
--- a/internal/parser/jalali/parser.go
+++ b/internal/parser/jalali/parser.go
@@ -1,6 +1,7 @@
 package jalali
 
 import (
+	"fmt"
 	"strconv"
 	"time"
 	"unicode"
@@ -139,10 +140,17 @@ func createDateTime(p *absolute.Parser, pms map[string]int, loc *time.Location)
 		return time.Time{}, err
 	}
 
-	if D == 30 && M == 12 && !isLeapYear {
+	// If year is explicitly specified, don't move the date to another year
+	_, yearExist := p.ComponentValues["year"]
+	if !yearExist && D == 30 && M == 12 && !isLeapYear {
 		Y = getCorrectLeapYear(p.Config, Y)
 	}
 
+	// Make sure month is valid
+	if M < 1 || M > 12 || D < 1 {
+		return time.Time{}, fmt.Errorf("invalid Jalali date: %d-%d-%d", Y, M, D)
+	}
+
 	// Fix max day
 	lastDayOfMonth, err := jalaali.MonthLength(Y, M)
 	if err == nil && D > lastDayOfMonth {
-- 
2.43.0


From ca6532d13d7bd70664867ee3a987e9cae34d7c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 20/57] fix: limit the borrowed day to the preferred month as
 well

---
 internal/parser/absolute/root.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/internal/parser/absolute/root.go b/internal/parser/absolute/root.go
index 6611e0e..392f35d 100644
--- a/internal/parser/absolute/root.go
+++ b/internal/parser/absolute/root.go
@@ -34,22 +34,22 @@ func getDateTimeParams(p *Parser) map[string]int {
 		day = p.Now.Day()
 	}
 
+	year, yearExist := p.ComponentValues["year"]
+	if !yearExist || year == 0 {
+		year = p.Now.Year()
+	}
+
 	month, monthExist := p.ComponentValues["month"]
 	if !monthExist || month == 0 {
 		month = int(p.Now.Month())
 
-		// The written day must fit the preferred month, not the current one
-		if dayExist {
+		// The day must fit the preferred month, not the current one
+		if dayExist || yearExist {
 			tmp := time.Date(p.Now.Year(), p.Now.Month(), 1, 0, 0, 0, 0, time.UTC)
 			month = int(common.ApplyMonthFromConfig(p.Config, tmp, p.Now.Month()).Month())
 		}
 	}
 
-	year, yearExist := p.ComponentValues["year"]
-	if !yearExist || year == 0 {
-		year = p.Now.Year()
-	}
-
 	return map[string]int{
 		"year":  year,
 		"month": month,
-- 
2.43.0


From 0e59927255d6e911d1f01db695291816c8bdf17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 21/57] fix: don't read dates with words as dates without
 spaces

---
 internal/parser/nospace/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/parser/nospace/parser.go b/internal/parser/nospace/parser.go
index ac023d2..4774abe 100644
--- a/internal/parser/nospace/parser.go
+++ b/internal/parser/nospace/parser.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"strings"
 	"time"
+	"unicode"
 
 	"github.com/markusmobius/go-dateparser/date"
 	"github.com/markusmobius/go-dateparser/internal/parser/common"
@@ -95,6 +96,11 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 }
 
 func isEligible(str string) bool {
+	// The string must not contain other words
+	if strings.ContainsFunc(strings.TrimSpace(str), func(r rune) bool { return unicode.IsLetter(r) || unicode.IsSpace(r) }) {
+		return false
+	}
+
 	match := rxCompatible.FindString(str)
 	return match == "" || match == ":"
 }
-- 
2.43.0


From 3a634a1dcda83d25d688a082f98ca2c7bedc3972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:59 +0000
Subject: [PATCH 22/57] fix: keep the future direction of decades

---
 internal/language/00-constant.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/language/00-constant.go b/internal/language/00-constant.go
index 468051d..4137eed 100644
--- a/internal/language/00-constant.go
+++ b/internal/language/00-constant.go
@@ -50,7 +50,7 @@ var (
 
 	dashes             = strutil.NewDict("-", "——", "—", "～")
 	alwaysKeptTokens   = strutil.NewDict("+", ":", ".", " ", "-", "/")
-	freshnessWords     = strutil.NewDict("day", "week", "month", "year", "hour", "minute", "second")
+	freshnessWords     = strutil.NewDict("day", "week", "month", "year", "hour", "minute", "second", "decade")
 	langWithDigitAbbrs = strutil.NewDict("fi", "cs", "hu", "de", "da")
 	commonCharset      = rangetable.New([]rune(`0123456789()\-/.,:' `)...)
 )
-- 
2.43.0


From 768805e18cd55a57ce9cb8350f9381c3992c55ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 23/57] fix: don't lose a second of decimal durations

---
 internal/parser/relative/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/parser/relative/parser.go b/internal/parser/relative/parser.go
index 3432407..1d0805b 100644
--- a/internal/parser/relative/parser.go
+++ b/internal/parser/relative/parser.go
@@ -296,6 +296,13 @@ func splitFraction(fl float64) (intPart, fractionPart float64, hasFraction bool)
 	}
 
 	value := math.Abs(fl)
+
+	// Decimal fractions have no exact binary representation, so make sure
+	// value that only differs by the rounding error is treated as an integer.
+	if nearest := math.Round(value); math.Abs(value-nearest) < 1e-6 {
+		value = nearest
+	}
+
 	floorValue := math.Floor(value)
 	return floorValue, value - floorValue, value != floorValue
 }
-- 
2.43.0


From 0b8a67437c42d4246136c0ebb30f8428569c9b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 24/57] fix: keep the future direction of units translated
 along with their number

---
 internal/language/translate.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/language/translate.go b/internal/language/translate.go
index 4aa0610..8bf8ae7 100644
--- a/internal/language/translate.go
+++ b/internal/language/translate.go
@@ -2,6 +2,7 @@ package language
 
 import (
 	"slices"
+	"strings"
 
 	"github.com/markusmobius/go-dateparser/internal/data"
 	"github.com/markusmobius/go-dateparser/internal/digit"
@@ -109,7 +110,9 @@ func clearFutureWords(words []string) []string {
 	var hasFreshness bool
 	var wordsWithoutIn []string
 	for _, word := range words {
-		isFreshWord := freshnessWords.Contain(word)
+		// Translation might consist of several words, e.g. "2 hour"
+		isFreshWord := freshnessWords.Contain(word) ||
+			slices.ContainsFunc(strings.Fields(word), freshnessWords.Contain)
 		hasFreshness = hasFreshness || isFreshWord
 
 		if word != "in" {
-- 
2.43.0


From c33d3c0f621775afaffd49ee2a8269d08e17ba74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:51 +0000
Subject: [PATCH 25/57] fix: don't read the French abbreviation of September as
 seven

---
 data-supplementary/date-translation/fr.yaml | 2 +-
 internal/data/fr.go                         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/data-supplementary/date-translation/fr.yaml b/data-supplementary/date-translation/fr.yaml
index 526a89d..9a66991 100644
--- a/data-supplementary/date-translation/fr.yaml
+++ b/data-supplementary/date-translation/fr.yaml
@@ -74,7 +74,7 @@ simplifications:
   - quatre: '4'
   - cinq: '5'
   - six: '6'
-  - sept: '7'
+  - sept(\s+(?:decennie|annee|an|mois|semaine|jour|heure|minute|seconde|janvier|fevrier|mars|avril|mai|juin|juillet|aout|septembre|octobre|novembre|decembre)s?): 7\1
   - huit: '8'
   - neuf: '9'
   - dix: '10'
diff --git a/internal/data/fr.go b/internal/data/fr.go
index 3a27d0a..a110427 100755
--- a/internal/data/fr.go
+++ b/internal/data/fr.go
@@ -75,7 +75,7 @@ func init() {
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])quatre(\z|[^\pL\pM\d_])`), "${1}4${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])cinq(\z|[^\pL\pM\d_])`), "${1}5${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])six(\z|[^\pL\pM\d_])`), "${1}6${2}"},
-			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])sept(\z|[^\pL\pM\d_])`), "${1}7${2}"},
+			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])sept(\s+(?:decennie|annee|an|mois|semaine|jour|heure|minute|seconde|janvier|fevrier|mars|avril|mai|juin|juillet|aout|septembre|octobre|novembre|decembre)s?)(\z|[^\pL\pM\d_])`), "${1}7${2}${3}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])huit(\z|[^\pL\pM\d_])`), "${1}8${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])neuf(\z|[^\pL\pM\d_])`), "${1}9${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])dix(\z|[^\pL\pM\d_])`), "${1}10${2}"},
-- 
2.43.0


From f6b1343d0c7bfbb163dbdff1b383669232ef5254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:26 +0000
Subject: [PATCH 26/57] fix: use the right unit of af and ms future minutes and
 seconds

---
 internal/data/af.go | 2 +-
 internal/data/ms.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/data/af.go b/internal/data/af.go
index 5771ef7..ee89e24 100755
--- a/internal/data/af.go
+++ b/internal/data/af.go
@@ -123,7 +123,7 @@ func init() {
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) min gelede`), "$1 minute ago"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) sek gelede`), "$1 second ago"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) uur gelede`), "$1 hour ago"},
-			{regexp.MustCompile(`(?i)oor (\d+[.,]?\d*) minuut`), "in $1 month"},
+			{regexp.MustCompile(`(?i)oor (\d+[.,]?\d*) minuut`), "in $1 minute"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) md gelede`), "$1 month ago"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) w gelede`), "$1 week ago"},
 			{regexp.MustCompile(`(?i)oor (\d+[.,]?\d*) jaar`), "in $1 year"},
diff --git a/internal/data/ms.go b/internal/data/ms.go
index 7c173ba..c08f137 100755
--- a/internal/data/ms.go
+++ b/internal/data/ms.go
@@ -119,7 +119,7 @@ func init() {
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) minit lalu`), "$1 minute ago"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) tahun lalu`), "$1 year ago"},
 			{regexp.MustCompile(`(?i)dalam (\d+[.,]?\d*) hari`), "in $1 day"},
-			{regexp.MustCompile(`(?i)dalam (\d+[.,]?\d*) saat`), "in $1 year"},
+			{regexp.MustCompile(`(?i)dalam (\d+[.,]?\d*) saat`), "in $1 second"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) hari lalu`), "$1 day ago"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) saat lalu`), "$1 second ago"},
 			{regexp.MustCompile(`(?i)dalam (\d+[.,]?\d*) jam`), "in $1 hour"},
-- 
2.43.0


From bae1945991781bef9f0f234de54e496f16fbc010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 27/57] fix: keep the direction of the he and th words for past
 days

---
 data-supplementary/date-translation/he.yaml | 2 +-
 data-supplementary/date-translation/th.yaml | 8 ++++----
 internal/data/he.go                         | 2 +-
 internal/data/th.go                         | 8 ++++----
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/data-supplementary/date-translation/he.yaml b/data-supplementary/date-translation/he.yaml
index 12531a0..78f1934 100644
--- a/data-supplementary/date-translation/he.yaml
+++ b/data-supplementary/date-translation/he.yaml
@@ -110,7 +110,7 @@ simplifications:
   - שבועיי?ם: 2 שבועות
   - יומיי?ם: 2 ימים
   - שעתיי?ם: 2 שעות
-  - שלשום: 2 ימים
+  - שלשום: לפני 2 ימים
   - מחר: בעוד 1 יום
   - אחר חצות: am
   - חצות: 12 am
diff --git a/data-supplementary/date-translation/th.yaml b/data-supplementary/date-translation/th.yaml
index 7047680..97ed8b6 100644
--- a/data-supplementary/date-translation/th.yaml
+++ b/data-supplementary/date-translation/th.yaml
@@ -71,8 +71,8 @@ in:
 
 simplifications:
     - วันนี้: 0 วัน
-    - เมื่อวานนี้: 1 วัน
-    - 1 วันที่แล้ว: 1 วัน
-    - เมื่อวานซืน: 2 วัน
-    - 2 วันที่แล้ว: 2 วัน
+    - เมื่อวานนี้: 1 วันที่แล้ว
+    - 1 วันที่แล้ว: 1 วันที่แล้ว
+    - เมื่อวานซืน: 2 วันที่แล้ว
+    - 2 วันที่แล้ว: 2 วันที่แล้ว
     - เมื่อสักครู่นี้: 0 วินาที
diff --git a/internal/data/he.go b/internal/data/he.go
index eaa5a74..111794e 100755
--- a/internal/data/he.go
+++ b/internal/data/he.go
@@ -25,7 +25,7 @@ func init() {
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])שבועיי?ם(\z|[^\pL\pM\d_])`), "${1}2 שבועות${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])יומיי?ם(\z|[^\pL\pM\d_])`), "${1}2 ימים${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])שעתיי?ם(\z|[^\pL\pM\d_])`), "${1}2 שעות${2}"},
-			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])שלשום(\z|[^\pL\pM\d_])`), "${1}2 ימים${2}"},
+			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])שלשום(\z|[^\pL\pM\d_])`), "${1}לפני 2 ימים${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])מחר(\z|[^\pL\pM\d_])`), "${1}בעוד 1 יום${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])אחר חצות(\z|[^\pL\pM\d_])`), "${1}am${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])חצות(\z|[^\pL\pM\d_])`), "${1}12 am${2}"},
diff --git a/internal/data/th.go b/internal/data/th.go
index edd5cb1..d286c42 100755
--- a/internal/data/th.go
+++ b/internal/data/th.go
@@ -17,10 +17,10 @@ func init() {
 		SentenceSplitterGroup: 5,
 		Simplifications: []ReplacementData{
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])วนน(\z|[^\pL\pM\d_])`), "${1}0 วน${2}"},
-			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])เมอวานน(\z|[^\pL\pM\d_])`), "${1}1 วน${2}"},
-			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])1 วนทแลว(\z|[^\pL\pM\d_])`), "${1}1 วน${2}"},
-			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])เมอวานซน(\z|[^\pL\pM\d_])`), "${1}2 วน${2}"},
-			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])2 วนทแลว(\z|[^\pL\pM\d_])`), "${1}2 วน${2}"},
+			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])เมอวานน(\z|[^\pL\pM\d_])`), "${1}1 วนทแลว${2}"},
+			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])1 วนทแลว(\z|[^\pL\pM\d_])`), "${1}1 วนทแลว${2}"},
+			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])เมอวานซน(\z|[^\pL\pM\d_])`), "${1}2 วนทแลว${2}"},
+			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])2 วนทแลว(\z|[^\pL\pM\d_])`), "${1}2 วนทแลว${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])เมอสกครน(\z|[^\pL\pM\d_])`), "${1}0 วนาท${2}"},
 		},
 		Translations: map[string][]string{
-- 
2.43.0


From 626456f8ccb249687e130ad669cf8212fbda9088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:07 +0000
Subject: [PATCH 28/57] fix: inherit the known words of the parent locale

---
 internal/data/00-locale-data.go | 5 +++++
 scripts/codegen/05-templates.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/internal/data/00-locale-data.go b/internal/data/00-locale-data.go
index 873ed96..4246d73 100755
--- a/internal/data/00-locale-data.go
+++ b/internal/data/00-locale-data.go
@@ -76,6 +76,11 @@ func merge(parent *LocaleData, child LocaleData) LocaleData {
 		child.RxExactCombined = parent.RxExactCombined
 	}
 
+	// Inherit the known words, which are left out when they equal the parent's
+	if len(child.KnownWords) == 0 {
+		child.KnownWords = parent.KnownWords
+	}
+
 	return child
 }
 
diff --git a/scripts/codegen/05-templates.go b/scripts/codegen/05-templates.go
index 0a33237..fcd0c06 100644
--- a/scripts/codegen/05-templates.go
+++ b/scripts/codegen/05-templates.go
@@ -264,6 +264,11 @@ func merge(parent *LocaleData, child LocaleData) LocaleData {
 		child.RxExactCombined = parent.RxExactCombined
 	}
 
+	// Inherit the known words, which are left out when they equal the parent's
+	if len(child.KnownWords) == 0 {
+		child.KnownWords = parent.KnownWords
+	}
+
 	return child
 }
 
-- 
2.43.0


From 3da60005138624bac44ca4b680827913acf8e680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:51 +0000
Subject: [PATCH 29/57] fix: default the date order of locales without one, so
 Tagalog dates can be parsed

---
 parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser.go b/parser.go
index 3b6b1af..493da2e 100644
--- a/parser.go
+++ b/parser.go
@@ -122,6 +122,11 @@ func (p *Parser) Parse(cfg *Configuration, str string, formats ...string) (date.
 	for _, locale := range locales {
 		// Create date order for this locale
 		dateOrder := locale.DateOrder
+		if dateOrder == "" {
+			// Not all locales have their own order, for example Tagalog
+			dateOrder = "MDY"
+		}
+
 		if cfg.DateOrder != nil {
 			do := cfg.DateOrder(locale.Name)
 			if do, valid := validateDateOrder(do); valid {
-- 
2.43.0


From 54aa3fb6d2e7991557c014e22cfec50c06630136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:37 +0000
Subject: [PATCH 30/57] fix: keep the whole character in front of a popped
 timezone

---
 internal/timezone/parser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/timezone/parser.go b/internal/timezone/parser.go
index 7893109..9df8b4a 100644
--- a/internal/timezone/parser.go
+++ b/internal/timezone/parser.go
@@ -5,12 +5,13 @@ package timezone
 func PopTzOffset(str string) (string, OffsetData) {
 	if rxSearchIgnoreCase.MatchString(str) {
 		for _, offsetData := range timezoneOffsets {
-			idxs := offsetData.Regex.FindStringIndex(str)
+			idxs := offsetData.Regex.FindStringSubmatchIndex(str)
 			if len(idxs) == 0 {
 				continue
 			}
 
-			str = str[:idxs[0]+1] + str[idxs[1]:]
+			// Keep the whole character in front of the timezone
+			str = str[:idxs[3]] + str[idxs[1]:]
 			return str, offsetData
 		}
 	}
-- 
2.43.0


From a88b5ebb6ffe6a2c63b5cec6542059aa2b198696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 31/57] fix: find the applicable locales when a month or
 weekday name is also a timezone code

---
 internal/timezone/parser.go | 26 ++++++++++++++++++++++++++
 parser.go                   |  4 +---
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/internal/timezone/parser.go b/internal/timezone/parser.go
index 9df8b4a..086eaed 100644
--- a/internal/timezone/parser.go
+++ b/internal/timezone/parser.go
@@ -1,5 +1,7 @@
 package timezone
 
+import "slices"
+
 // PopTzOffset extracts timezone data from str then return the
 // str with the timezone code removed.
 func PopTzOffset(str string) (string, OffsetData) {
@@ -19,6 +21,30 @@ func PopTzOffset(str string) (string, OffsetData) {
 	return str, OffsetData{}
 }
 
+// PopEachTzOffset returns str without its timezone code. A word might look like a
+// timezone code (for example "Mart", which is March in Turkish), so if there are
+// several codes in str there is one result for each of them.
+func PopEachTzOffset(str string) []string {
+	if !rxSearchIgnoreCase.MatchString(str) {
+		return nil
+	}
+
+	var results []string
+	for _, offsetData := range timezoneOffsets {
+		idxs := offsetData.Regex.FindStringSubmatchIndex(str)
+		if len(idxs) == 0 {
+			continue
+		}
+
+		result := str[:idxs[3]] + str[idxs[1]:]
+		if !slices.Contains(results, result) {
+			results = append(results, result)
+		}
+	}
+
+	return results
+}
+
 // WordIsTz check if the specified word is a timezone code.
 func WordIsTz(word string) bool {
 	return rxSearch.MatchString(word)
diff --git a/parser.go b/parser.go
index 493da2e..ac1bafa 100644
--- a/parser.go
+++ b/parser.go
@@ -226,9 +226,7 @@ func (p *Parser) getApplicableLocales(cfg *Configuration, iCfg *setting.Configur
 	// Normalize and prepare date strings
 	str = strutil.NormalizeString(str)
 	dateStrings := []string{str}
-	if poppedTz, _ := timezone.PopTzOffset(str); poppedTz != str {
-		dateStrings = append(dateStrings, poppedTz)
-	}
+	dateStrings = append(dateStrings, timezone.PopEachTzOffset(str)...)
 
 	// Fetch previously used locales first
 	if cfg.TryPreviousLocales {
-- 
2.43.0


From 3104eb903c1d65087acee6444b872a293705d714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:46 +0000
Subject: [PATCH 32/57] fix: read an eight digit date in the date order before
 anything else

---
 internal/parser/nospace/parser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/parser/nospace/parser.go b/internal/parser/nospace/parser.go
index 4774abe..bee06c4 100644
--- a/internal/parser/nospace/parser.go
+++ b/internal/parser/nospace/parser.go
@@ -47,6 +47,14 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 		return date.Date{}, fmt.Errorf("order %s is invalid", order)
 	}
 
+	// An eight digit date in the specified order is not a shorter date with a time
+	if rxEightDigit.MatchString(str) {
+		layout := strings.NewReplacer("y", "2006", "m", "01", "d", "02").Replace(order)
+		if t, err := time.Parse(layout, str); err == nil && t.Year() >= 1000 {
+			return date.Date{Time: t, Period: date.Day}, nil
+		}
+	}
+
 	// Process each token in string
 	var ambiguousDate date.Date
 	for _, token := range tokenizer.Tokenize(str) {
-- 
2.43.0


From 04a8e9b481940664211d8b564363a1b182ab35d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:46 +0000
Subject: [PATCH 33/57] fix: apply StrictParsing and RequiredParts properly to
 dates without spaces

---
 internal/parser/nospace/parser.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/internal/parser/nospace/parser.go b/internal/parser/nospace/parser.go
index bee06c4..af17a5b 100644
--- a/internal/parser/nospace/parser.go
+++ b/internal/parser/nospace/parser.go
@@ -74,16 +74,10 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 					continue
 				}
 
-				dt := date.Date{Time: t, Period: period}
-				if t.Year() < 1000 {
-					ambiguousDate = dt
-					continue
-				}
-
-				missingParts := strutil.NewDict()
+				missingParts := strutil.NewDict("day", "month", "year")
 				for key, part := range formatMapping {
-					if !strings.Contains(format, key) {
-						missingParts.Add(part)
+					if strings.Contains(format, key) {
+						missingParts.Remove(part)
 					}
 				}
 
@@ -91,6 +85,12 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 					continue
 				}
 
+				dt := date.Date{Time: t, Period: period}
+				if t.Year() < 1000 {
+					ambiguousDate = dt
+					continue
+				}
+
 				return dt, nil
 			}
 		}
-- 
2.43.0


From d89dfd1b87ec01a2af5d877789bb07483e292f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:03 +0000
Subject: [PATCH 34/57] fix: read Jalali weekday names joined by zero width
 non-joiner

---
 internal/parser/jalali/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/parser/jalali/parser.go b/internal/parser/jalali/parser.go
index 25fc401..8199a64 100644
--- a/internal/parser/jalali/parser.go
+++ b/internal/parser/jalali/parser.go
@@ -3,6 +3,7 @@ package jalali
 import (
 	"fmt"
 	"strconv"
+	"strings"
 	"time"
 	"unicode"
 
@@ -20,6 +21,9 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 	str = strutil.NormalizeString(str)
 	str = digit.NormalizeString(str)
 
+	// The parts of weekday names might be joined by zero width non-joiner
+	str = strings.ReplaceAll(str, "\u200c", "")
+
 	// Translate the foreign texts
 	str = replaceMonths(str)
 	str = replaceWeekdays(str)
-- 
2.43.0


From 678c176bdd46dbba361f25fb20c64f04e906ae06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:05 +0000
Subject: [PATCH 35/57] fix: read an eight digit date in any order before its
 shorter readings

---
 internal/parser/nospace/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/parser/nospace/parser.go b/internal/parser/nospace/parser.go
index af17a5b..8ee3864 100644
--- a/internal/parser/nospace/parser.go
+++ b/internal/parser/nospace/parser.go
@@ -53,6 +53,11 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 		if t, err := time.Parse(layout, str); err == nil && t.Year() >= 1000 {
 			return date.Date{Time: t, Period: date.Day}, nil
 		}
+
+		// Nor is an eight digit date in any other order
+		if dt := findBestMatchingDate(str); !dt.IsZero() {
+			return dt, nil
+		}
 	}
 
 	// Process each token in string
-- 
2.43.0


From 520ce2d48fc19481808cce9233e45aaaa46b8e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:06 +0000
Subject: [PATCH 36/57] fix: read complete dates only when parts are required
 of a date without spaces

---
 internal/parser/nospace/parser.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/internal/parser/nospace/parser.go b/internal/parser/nospace/parser.go
index 8ee3864..c51e80f 100644
--- a/internal/parser/nospace/parser.go
+++ b/internal/parser/nospace/parser.go
@@ -21,6 +21,12 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 		return date.Date{}, fmt.Errorf("unable to parse date from %s", str)
 	}
 
+	// If some parts are required, a time is not a date without its separators
+	partsRequired := cfg != nil && (cfg.StrictParsing || len(cfg.RequiredParts) > 0)
+	if idx := strings.Index(str, ":"); partsRequired && idx >= 0 && countDigits(str[:idx]) < 8 {
+		return date.Date{}, fmt.Errorf("unable to parse date from %s", str)
+	}
+
 	// Sanitize string
 	str = strutil.SanitizeSpaces(str)
 	str = strings.ReplaceAll(str, ":", "")
@@ -74,6 +80,11 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 			candidates, goFormat := createParseCandidates(token.Text, format)
 
 			for _, candidate := range candidates {
+				// A required part must be written completely
+				if partsRequired && !isPadded(candidate) {
+					continue
+				}
+
 				t, _ := time.Parse(goFormat, candidate)
 				if t.IsZero() {
 					continue
@@ -118,6 +129,26 @@ func isEligible(str string) bool {
 	return match == "" || match == ":"
 }
 
+func countDigits(str string) int {
+	var n int
+	for _, r := range str {
+		if unicode.IsDigit(r) {
+			n++
+		}
+	}
+	return n
+}
+
+// isPadded checks whether each part of a parse candidate is zero padded.
+func isPadded(candidate string) bool {
+	for part := range strings.SplitSeq(candidate, "-") {
+		if len(part) != 2 && len(part) != 4 {
+			return false
+		}
+	}
+	return true
+}
+
 func findBestMatchingDate(str string) date.Date {
 	for _, format := range preferredFormatsOrdered8Digit {
 		t, _ := time.Parse(format, str)
-- 
2.43.0


From 8daebac141bff9afc6cb79d3a87108f78608ed30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:42 +0000
Subject: [PATCH 37/57] fix: keep the day inside the month taken from the
 configuration

---
 internal/parser/common/apply-month.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/parser/common/apply-month.go b/internal/parser/common/apply-month.go
index 3aeddd4..e86b75d 100644
--- a/internal/parser/common/apply-month.go
+++ b/internal/parser/common/apply-month.go
@@ -3,6 +3,7 @@ package common
 import (
 	"time"
 
+	"github.com/markusmobius/go-dateparser/internal/dateutil"
 	"github.com/markusmobius/go-dateparser/internal/setting"
 )
 
@@ -29,6 +30,12 @@ func ApplyMonthFromConfig(cfg *setting.Configuration, t time.Time, currentMonth
 		}
 	}
 
+	// Make sure the day is not bigger than the last day of new month
+	lastDayOfMonth := dateutil.GetLastDayOfMonth(t.Year(), int(newMonth))
+	if t.Day() > lastDayOfMonth {
+		t = t.AddDate(0, 0, lastDayOfMonth-t.Day())
+	}
+
 	return time.Date(t.Year(), newMonth, t.Day(),
 		t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
 		t.Location())
-- 
2.43.0


From 5b170cf4a5ee05e1a1256814cb4c72c848d19536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:42 +0000
Subject: [PATCH 38/57] fix: fill the year of custom formats first and
 understand the day of the year

---
 internal/parser/formatted/parser.go | 32 +++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/internal/parser/formatted/parser.go b/internal/parser/formatted/parser.go
index d436d07..1d9d853 100644
--- a/internal/parser/formatted/parser.go
+++ b/internal/parser/formatted/parser.go
@@ -5,6 +5,7 @@ import (
 	"time"
 
 	"github.com/markusmobius/go-dateparser/date"
+	"github.com/markusmobius/go-dateparser/internal/dateutil"
 	"github.com/markusmobius/go-dateparser/internal/parser/common"
 	"github.com/markusmobius/go-dateparser/internal/setting"
 	"github.com/markusmobius/go-dateparser/internal/timezone"
@@ -43,11 +44,21 @@ func Parse(cfg *setting.Configuration, str string, formats ...string) date.Date
 			continue
 		}
 
+		// The year must be known first, since it decides the days of February
+		if t.Year() == 0 {
+			t = applyYear(cfg, t, currentTime.Year())
+		}
+
 		// Check if format has day or month
 		checkerText := checker.Format(format)
 		formatHasDay := strings.Contains(checkerText, "4")
 		formatHasMonth := strings.Contains(checkerText, "3") || strings.Contains(checkerText, "Mar")
 
+		// Day of the year is both of them
+		if strings.Contains(format, "002") || strings.Contains(format, "__2") {
+			formatHasDay, formatHasMonth = true, true
+		}
+
 		if !formatHasMonth && !formatHasDay {
 			period = date.Year
 			t = common.ApplyMonthFromConfig(cfg, t)
@@ -72,3 +83,24 @@ func Parse(cfg *setting.Configuration, str string, formats ...string) date.Date
 
 	return date.Date{}
 }
+
+// applyYear puts the time in the specified year, or in a leap year for 29th February.
+func applyYear(cfg *setting.Configuration, t time.Time, year int) time.Time {
+	if t.Month() == time.February && t.Day() == 29 && !dateutil.IsLeapYear(year) {
+		nextYear := dateutil.GetLeapYear(year, true)
+		prevYear := dateutil.GetLeapYear(year, false)
+		nextYearIsCloser := nextYear-year < year-prevYear
+
+		switch {
+		case cfg.PreferredDateSource == setting.Future,
+			cfg.PreferredDateSource == setting.CurrentPeriod && nextYearIsCloser:
+			year = nextYear
+		default:
+			year = prevYear
+		}
+	}
+
+	return time.Date(year, t.Month(), t.Day(),
+		t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
+		t.Location())
+}
-- 
2.43.0


From ce4708f266f6553fb0e02f327892d68a7cf6fd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:08 +0000
Subject: [PATCH 39/57] fix: read timestamps in other digits or in brackets

---
 internal/parser/timestamp/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/parser/timestamp/parser.go b/internal/parser/timestamp/parser.go
index d10121f..c83604e 100644
--- a/internal/parser/timestamp/parser.go
+++ b/internal/parser/timestamp/parser.go
@@ -2,11 +2,14 @@ package timestamp
 
 import (
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/markusmobius/go-dateparser/date"
+	"github.com/markusmobius/go-dateparser/internal/digit"
 	"github.com/markusmobius/go-dateparser/internal/regexp"
 	"github.com/markusmobius/go-dateparser/internal/setting"
+	"github.com/markusmobius/go-dateparser/internal/strutil"
 )
 
 var (
@@ -21,6 +24,10 @@ func Parse(cfg *setting.Configuration, str string, negative bool) date.Date {
 		period = date.Second
 	}
 
+	// Timestamp might be wrapped in braces or written with the digits of another script
+	str = strutil.StripBraces(strutil.NormalizeString(str))
+	str = strings.TrimSpace(digit.NormalizeString(str))
+
 	var rx *regexp.Regexp
 	if negative {
 		rx = rxNegativeTimestamp
-- 
2.43.0


From bba6d48818b47dace4b0a26e90ea0392195d405e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:08 +0000
Subject: [PATCH 40/57] fix: a no-break space separates words like a space

---
 internal/strutil/strutil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/strutil/strutil.go b/internal/strutil/strutil.go
index 375031d..9b45e79 100644
--- a/internal/strutil/strutil.go
+++ b/internal/strutil/strutil.go
@@ -55,7 +55,7 @@ var (
 // SanitizeSpaces replaces non-breaking spaces into a normal one,
 // then remove any excess whitespaces.
 func SanitizeSpaces(s string) string {
-	s = strings.ReplaceAll(s, "\u00A0", "")
+	s = strings.ReplaceAll(s, "\u00A0", " ")
 	s = strings.Join(strings.Fields(s), " ")
 	return s
 }
-- 
2.43.0


From c1faaa34da1cad45385529f710bf0c5647453799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:08 +0000
Subject: [PATCH 41/57] fix: sanitize dates written in fullwidth characters
 like ordinary ones

---
 internal/strutil/strutil.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/strutil/strutil.go b/internal/strutil/strutil.go
index 9b45e79..357139b 100644
--- a/internal/strutil/strutil.go
+++ b/internal/strutil/strutil.go
@@ -73,6 +73,16 @@ func NormalizeUnicode(str string) string {
 	return normalized
 }
 
+// normalizeWidth replaces fullwidth ASCII variants by the ASCII characters.
+func normalizeWidth(s string) string {
+	return strings.Map(func(r rune) rune {
+		if r >= '\uff01' && r <= '\uff5e' {
+			return r - '\uff01' + '!'
+		}
+		return r
+	}, s)
+}
+
 // NormalizeAposthrope replace apostrope lookalike chars into the ordinary aposthrope.
 func NormalizeAposthrope(s string) string {
 	normalized, _, _ := transform.String(aposthropeTransformer, s)
@@ -109,6 +119,7 @@ func NormalizeString(str string) string {
 // SanitizeDate is used to sanitize the specified date string before
 // it parsed by the parser.
 func SanitizeDate(s string) string {
+	s = normalizeWidth(s)
 	s = rxSanitizeSkip.ReplaceAllString(s, " ")
 	s = rxSanitizeRussian.ReplaceAllString(s, "$1 ")        // remove 'г.' (Russian for year) but not in words
 	s = rxSanitizeCroatian.ReplaceAllString(s, "$1.$2.$3 ") // extra '.' and 'u' interferes with parsing relative fractional dates
-- 
2.43.0


From cc540da129d9c7a3f034c04459235af2f41b913e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:00 +0000
Subject: [PATCH 42/57] fix: find the dates whose first word follows a bracket
 or a quote

---
 internal/language/translate-search.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/internal/language/translate-search.go b/internal/language/translate-search.go
index 3812bba..c3908f9 100644
--- a/internal/language/translate-search.go
+++ b/internal/language/translate-search.go
@@ -58,11 +58,11 @@ func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string
 				translations, _ := translateWord(ld, word)
 				translatedChunk = append(translatedChunk, translations)
 				originalChunk = append(originalChunk, originalTokens[i])
-			} else if isInDictionary(ld, cleanedWord) && !dashes.Contain(word) {
-				punct := word[len(cleanedWord):]
+			} else if isInDictionary(ld, cleanedWord) && !dashes.Contain(word) && !opensSkippedWord(ld, word, cleanedWord) {
+				prefix, punct, _ := strings.Cut(word, cleanedWord)
 				translations, _ := translateWord(ld, cleanedWord)
 				for i, translation := range translations {
-					translations[i] = translation + punct
+					translations[i] = prefix + translation + punct
 				}
 
 				translatedChunk = append(translatedChunk, translations)
@@ -108,6 +108,17 @@ func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string
 	return mergedTranslation, mergedOriginal
 }
 
+// opensSkippedWord returns true if the word is a skipped word (e.g. preposition)
+// behind an opening bracket or quote, which means whatever is in front of it ends here.
+func opensSkippedWord(ld *data.LocaleData, word, cleanedWord string) bool {
+	if strings.HasPrefix(word, cleanedWord) {
+		return false
+	}
+
+	translations, _ := translateWord(ld, cleanedWord)
+	return len(filterChunk(translations...)) == 0
+}
+
 func simplifySplitAlign(ld *data.LocaleData, str string, skippedTokens strutil.Dict) ([]string, []string) {
 	normalizeToken := func(token string) string {
 		token = strutil.NormalizeString(token)
-- 
2.43.0


From 6bb88d0372964508a78047d5756dfd5446afb763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:45 +0000
Subject: [PATCH 43/57] fix: search in the language and the date order of the
 text

---
 search.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/search.go b/search.go
index b1b2a86..e0fc522 100644
--- a/search.go
+++ b/search.go
@@ -105,8 +105,18 @@ func (p *Parser) SearchWithLanguage(cfg *Configuration, lang string, text string
 		languages = []string{ld.Name}
 	}
 
+	// The entries are parsed in another language, but the order is still the one of this language
+	dateOrder := func(string) string {
+		if cfg.DateOrder != nil {
+			if do, valid := validateDateOrder(cfg.DateOrder(ld.Name)); valid {
+				return do
+			}
+		}
+		return ld.DateOrder
+	}
+
 	// Parse the text
-	parsedSearch, subStrings := p.parseFoundObjects(iCfg, languages, translation, original)
+	parsedSearch, subStrings := p.parseFoundObjects(iCfg, languages, dateOrder, translation, original)
 
 	// Create final result
 	result := make([]SearchResult, len(parsedSearch))
@@ -168,7 +178,7 @@ func (p *Parser) initUniqueCharsets(languages []string) map[string][]rune {
 	return p.uniqueCharsets
 }
 
-func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, translation, original []string) ([]parsedSearch, []string) {
+func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages []string, dateOrder DateOrder, translation, original []string) ([]parsedSearch, []string) {
 	// Specify entries to parse
 	var parserEntries []string
 	if languages[0] == "en" {
@@ -187,7 +197,7 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, trans
 			continue
 		}
 
-		parsedEntry, isRelative := p.parseEntry(iCfg, entry, translation[i], parsedList, needRelativeBase)
+		parsedEntry, isRelative := p.parseEntry(iCfg, languages, dateOrder, entry, translation[i], parsedList, needRelativeBase)
 		if !parsedEntry.IsZero() {
 			parsedList = append(parsedList, parsedSearch{parsedEntry, isRelative})
 			subStrings = append(subStrings, strutil.TrimChars(original[i], ` .,:()[]-'`))
@@ -211,7 +221,7 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, trans
 						continue
 					}
 
-					parsedJEntry, jIsRelative := p.parseEntry(iCfg, jEntry,
+					parsedJEntry, jIsRelative := p.parseEntry(iCfg, languages, dateOrder, jEntry,
 						split.EntryParts[j], currentParseResult, needRelativeBase)
 
 					jSubString := strutil.TrimChars(split.OriginalParts[j], ` .,:()[]-`)
@@ -237,13 +247,15 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, trans
 	return parsedList, subStrings
 }
 
-func (p *Parser) parseEntry(iCfg *setting.Configuration, entry, translation string, parsedList []parsedSearch, needRelativeBase bool) (date.Date, bool) {
+func (p *Parser) parseEntry(iCfg *setting.Configuration, languages []string, dateOrder DateOrder, entry, translation string, parsedList []parsedSearch, needRelativeBase bool) (date.Date, bool) {
 	// Normalize entry
 	entry = strings.ReplaceAll(entry, "ngày", "")
 	entry = strings.ReplaceAll(entry, "am", "")
 
 	// Parse entry
 	cfg := configFromInternal(iCfg)
+	cfg.Languages = languages
+	cfg.DateOrder = dateOrder
 	parsedEntry, _ := p.Parse(cfg, entry)
 
 	// If needed, generate relative base and parse the entry
-- 
2.43.0


From 934eb0e6b05e297c575667ba7499eccb3945fd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:03 +0000
Subject: [PATCH 44/57] fix: keep the am of a clock time while searching

---
 search.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/search.go b/search.go
index e0fc522..85856d0 100644
--- a/search.go
+++ b/search.go
@@ -13,12 +13,14 @@ import (
 	"github.com/markusmobius/go-dateparser/date"
 	"github.com/markusmobius/go-dateparser/internal/data"
 	"github.com/markusmobius/go-dateparser/internal/language"
+	"github.com/markusmobius/go-dateparser/internal/regexp"
 	"github.com/markusmobius/go-dateparser/internal/setting"
 	"github.com/markusmobius/go-dateparser/internal/strutil"
 )
 
 var (
 	splitters     = []string{",", "،", "——", "—", "–", ".", " "}
+	rxNotMeridiem = regexp.MustCompile(`(:\d\d\s*am)|am`)
 	relativeWords = []string{"ago", "in", "from now", "tomorrow", "today", "yesterday"}
 )
 
@@ -250,7 +252,7 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages []stri
 func (p *Parser) parseEntry(iCfg *setting.Configuration, languages []string, dateOrder DateOrder, entry, translation string, parsedList []parsedSearch, needRelativeBase bool) (date.Date, bool) {
 	// Normalize entry
 	entry = strings.ReplaceAll(entry, "ngày", "")
-	entry = strings.ReplaceAll(entry, "am", "")
+	entry = rxNotMeridiem.ReplaceAllString(entry, "$1") // keep "am" after the time
 
 	// Parse entry
 	cfg := configFromInternal(iCfg)
-- 
2.43.0


From 45d751514c50e476bed0cedb192a55ee55967cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:12 +0000
Subject: [PATCH 45/57] fix: don't read past the last token of a searched text

---
 internal/language/translate-search.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/language/translate-search.go b/internal/language/translate-search.go
index c3908f9..e52b6a9 100644
--- a/internal/language/translate-search.go
+++ b/internal/language/translate-search.go
@@ -47,7 +47,7 @@ func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string
 			if word == "" || word == " " {
 				translatedChunk = append(translatedChunk, []string{word})
 				originalChunk = append(originalChunk, originalTokens[i])
-			} else if isInDictionary(ld, currentAndNextJoined) && !dashes.Contain(word) && !joinUnusable {
+			} else if i < lastTokenIndex && isInDictionary(ld, currentAndNextJoined) && !dashes.Contain(word) && !joinUnusable {
 				translations, _ := translateWord(ld, currentAndNextJoined)
 				joinedOriginalToken := joinChunk(ld, originalTokens[i], originalTokens[i+1])
 
@@ -187,6 +187,11 @@ func simplifySplitAlign(ld *data.LocaleData, str string, skippedTokens strutil.D
 		}
 	}
 
+	// Make sure there are original token for each simplified token
+	for len(originalTokens) < len(simplifiedTokens) {
+		originalTokens = append(originalTokens, "")
+	}
+
 	return originalTokens, simplifiedTokens
 }
 
-- 
2.43.0


From 761e0c4c8b521ef4b43cb0bf10e059f1bc9add65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:07 +0000
Subject: [PATCH 46/57] fix: limit the readings of an ambiguous text while
 searching

---
 internal/language/utils.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/language/utils.go b/internal/language/utils.go
index c496b97..4ee73c9 100644
--- a/internal/language/utils.go
+++ b/internal/language/utils.go
@@ -60,10 +60,19 @@ func isInDictionary(ld *data.LocaleData, word string) bool {
 	return exist
 }
 
+// maxPermutation is the max number of permutations that created for a chunk of text.
+const maxPermutation = 256
+
 func createPermutation[T comparable](input [][]T) [][]T {
-	// Calculate count of possible permutation
+	// Calculate count of possible permutation. Its number grows exponentially,
+	// so once there are too many of them only use the first entry of the rest.
 	nPermutation := 1
-	for _, entries := range input {
+	input = slices.Clone(input)
+	for i, entries := range input {
+		if len(entries) > 1 && nPermutation*len(entries) > maxPermutation {
+			input[i] = entries[:1]
+			continue
+		}
 		nPermutation *= len(entries)
 	}
 
-- 
2.43.0


From 73777991a234b3ed5b7b4e3de7400ad925f9f44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:01 +0000
Subject: [PATCH 47/57] fix: fall back to any language for the entries of a
 search

---
 search.go | 58 +++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 17 deletions(-)

diff --git a/search.go b/search.go
index 85856d0..d311ff1 100644
--- a/search.go
+++ b/search.go
@@ -34,6 +34,13 @@ type parsedSearch struct {
 	IsRelative bool
 }
 
+// searchLanguage specifies how to parse the dates in the searched text.
+type searchLanguage struct {
+	Languages     []string
+	DateOrder     string
+	IsCustomOrder bool
+}
+
 type splitResult struct {
 	EntryParts    []string
 	OriginalParts []string
@@ -107,18 +114,16 @@ func (p *Parser) SearchWithLanguage(cfg *Configuration, lang string, text string
 		languages = []string{ld.Name}
 	}
 
-	// The entries are parsed in another language, but the order is still the one of this language
-	dateOrder := func(string) string {
-		if cfg.DateOrder != nil {
-			if do, valid := validateDateOrder(cfg.DateOrder(ld.Name)); valid {
-				return do
-			}
+	// The entries might be parsed in another language, but the order is still the one of this language
+	entryLang := searchLanguage{Languages: languages, DateOrder: ld.DateOrder}
+	if cfg.DateOrder != nil {
+		if do, valid := validateDateOrder(cfg.DateOrder(ld.Name)); valid {
+			entryLang.DateOrder, entryLang.IsCustomOrder = do, true
 		}
-		return ld.DateOrder
 	}
 
 	// Parse the text
-	parsedSearch, subStrings := p.parseFoundObjects(iCfg, languages, dateOrder, translation, original)
+	parsedSearch, subStrings := p.parseFoundObjects(iCfg, entryLang, translation, original)
 
 	// Create final result
 	result := make([]SearchResult, len(parsedSearch))
@@ -180,10 +185,10 @@ func (p *Parser) initUniqueCharsets(languages []string) map[string][]rune {
 	return p.uniqueCharsets
 }
 
-func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages []string, dateOrder DateOrder, translation, original []string) ([]parsedSearch, []string) {
+func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, lang searchLanguage, translation, original []string) ([]parsedSearch, []string) {
 	// Specify entries to parse
 	var parserEntries []string
-	if languages[0] == "en" {
+	if lang.Languages[0] == "en" {
 		parserEntries = slices.Clone(translation)
 	} else {
 		parserEntries = slices.Clone(original)
@@ -199,7 +204,7 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages []stri
 			continue
 		}
 
-		parsedEntry, isRelative := p.parseEntry(iCfg, languages, dateOrder, entry, translation[i], parsedList, needRelativeBase)
+		parsedEntry, isRelative := p.parseEntry(iCfg, lang, entry, translation[i], parsedList, needRelativeBase)
 		if !parsedEntry.IsZero() {
 			parsedList = append(parsedList, parsedSearch{parsedEntry, isRelative})
 			subStrings = append(subStrings, strutil.TrimChars(original[i], ` .,:()[]-'`))
@@ -223,7 +228,7 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages []stri
 						continue
 					}
 
-					parsedJEntry, jIsRelative := p.parseEntry(iCfg, languages, dateOrder, jEntry,
+					parsedJEntry, jIsRelative := p.parseEntry(iCfg, lang, jEntry,
 						split.EntryParts[j], currentParseResult, needRelativeBase)
 
 					jSubString := strutil.TrimChars(split.OriginalParts[j], ` .,:()[]-`)
@@ -249,16 +254,14 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages []stri
 	return parsedList, subStrings
 }
 
-func (p *Parser) parseEntry(iCfg *setting.Configuration, languages []string, dateOrder DateOrder, entry, translation string, parsedList []parsedSearch, needRelativeBase bool) (date.Date, bool) {
+func (p *Parser) parseEntry(iCfg *setting.Configuration, lang searchLanguage, entry, translation string, parsedList []parsedSearch, needRelativeBase bool) (date.Date, bool) {
 	// Normalize entry
 	entry = strings.ReplaceAll(entry, "ngày", "")
 	entry = rxNotMeridiem.ReplaceAllString(entry, "$1") // keep "am" after the time
 
 	// Parse entry
 	cfg := configFromInternal(iCfg)
-	cfg.Languages = languages
-	cfg.DateOrder = dateOrder
-	parsedEntry, _ := p.Parse(cfg, entry)
+	parsedEntry := p.parseInLanguage(cfg, lang, entry)
 
 	// If needed, generate relative base and parse the entry
 	var relativeBase time.Time
@@ -269,7 +272,7 @@ func (p *Parser) parseEntry(iCfg *setting.Configuration, languages []string, dat
 	if !relativeBase.IsZero() {
 		cfg.CurrentTime = relativeBase
 		iCfg.CurrentTime = relativeBase
-		parsedEntry, _ = p.Parse(cfg, entry)
+		parsedEntry = p.parseInLanguage(cfg, lang, entry)
 	}
 
 	// Check if this date is relative
@@ -284,6 +287,27 @@ func (p *Parser) parseEntry(iCfg *setting.Configuration, languages []string, dat
 	return parsedEntry, isRelative
 }
 
+// parseInLanguage parses the entry in the language and date order of the text. If it's
+// failed, any languages will do.
+func (p *Parser) parseInLanguage(cfg *Configuration, lang searchLanguage, entry string) date.Date {
+	dateOrder := func(string) string { return lang.DateOrder }
+
+	cfg = cfg.Clone()
+	cfg.Languages = lang.Languages
+	cfg.DateOrder = dateOrder
+	if dt, err := p.Parse(cfg, entry); err == nil {
+		return dt
+	}
+
+	cfg.Languages = nil
+	if !lang.IsCustomOrder {
+		cfg.DateOrder = nil
+	}
+
+	dt, _ := p.Parse(cfg, entry)
+	return dt
+}
+
 func getRelativeBase(parsedList []parsedSearch) time.Time {
 	if len(parsedList) == 0 {
 		return time.Time{}
-- 
2.43.0


From a5a6bea6cb0b20efe4bf8f36132449ee5c59357f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:01 +0000
Subject: [PATCH 48/57] fix: don't end a sentence after the digits behind a
 bracket

---
 internal/language/split.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/language/split.go b/internal/language/split.go
index 01e9238..f36ff4c 100644
--- a/internal/language/split.go
+++ b/internal/language/split.go
@@ -74,7 +74,7 @@ func SplitSentence(ld *data.LocaleData, str string) []string {
 		}
 
 		// If this language use digit abbreviation, make sure end of sentence is not number
-		if useDigitAbbrs && strutil.IsNumberOnly(eos) {
+		if useDigitAbbrs && strutil.IsNumberOnly(strings.TrimLeft(eos, `([{<"'`)) {
 			continue
 		}
 
-- 
2.43.0


From b5918a148b26a909da63bd604623e695deb91ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:59 +0000
Subject: [PATCH 49/57] fix: don't report dates without any text while
 searching

---
 search.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/search.go b/search.go
index d311ff1..5f98b06 100644
--- a/search.go
+++ b/search.go
@@ -228,10 +228,14 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, lang searchLangu
 						continue
 					}
 
+					jSubString := strutil.TrimChars(split.OriginalParts[j], ` .,:()[]-`)
+					if jSubString == "" {
+						continue
+					}
+
 					parsedJEntry, jIsRelative := p.parseEntry(iCfg, lang, jEntry,
 						split.EntryParts[j], currentParseResult, needRelativeBase)
 
-					jSubString := strutil.TrimChars(split.OriginalParts[j], ` .,:()[]-`)
 					jParsedSearch := parsedSearch{parsedJEntry, jIsRelative}
 					currentParseResult = append(currentParseResult, jParsedSearch)
 					currentSubStrings = append(currentSubStrings, jSubString)
-- 
2.43.0


From 91a139923125daac678822a8f794d15e8545f96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:57 +0000
Subject: [PATCH 50/57] fix: try every previously used locale the configuration
 allows, and no other

---
 parser.go | 46 ++++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/parser.go b/parser.go
index ac1bafa..630d36f 100644
--- a/parser.go
+++ b/parser.go
@@ -228,15 +228,6 @@ func (p *Parser) getApplicableLocales(cfg *Configuration, iCfg *setting.Configur
 	dateStrings := []string{str}
 	dateStrings = append(dateStrings, timezone.PopEachTzOffset(str)...)
 
-	// Fetch previously used locales first
-	if cfg.TryPreviousLocales {
-		ld := p.checkPreviousLocales(iCfg, dateStrings)
-		if ld != nil {
-			results = append(results, ld)
-			resultTracker.Add(ld.Name)
-		}
-	}
-
 	// If specified, use external detector to fetch languages
 	languages := slices.Clone(cfg.Languages)
 	if p.DetectLanguagesFunction != nil && len(cfg.Locales) == 0 && len(languages) == 0 {
@@ -250,6 +241,26 @@ func (p *Parser) getApplicableLocales(cfg *Configuration, iCfg *setting.Configur
 		return nil, err
 	}
 
+	// Load locales of default languages
+	var defaultLocales []*data.LocaleData
+	if len(iCfg.DefaultLanguages) > 0 {
+		defaultLocales, _ = language.GetLocales(nil, cfg.DefaultLanguages, cfg.Region, cfg.UseGivenOrder, false)
+	}
+
+	// Fetch previously used locales first
+	if cfg.TryPreviousLocales {
+		isRestricted := len(cfg.Locales) > 0 || len(languages) > 0
+		for _, ld := range p.checkPreviousLocales(iCfg, dateStrings) {
+			// Only use the locales that allowed by the configuration
+			if isRestricted && !slices.Contains(locales, ld) && !slices.Contains(defaultLocales, ld) {
+				continue
+			}
+
+			results = append(results, ld)
+			resultTracker.Add(ld.Name)
+		}
+	}
+
 	for _, locale := range locales {
 		if resultTracker.Contain(locale.Name) {
 			continue
@@ -271,28 +282,27 @@ func (p *Parser) getApplicableLocales(cfg *Configuration, iCfg *setting.Configur
 	}
 
 	// Finally, append locales of default languages
-	if len(iCfg.DefaultLanguages) > 0 {
-		locales, _ := language.GetLocales(nil, cfg.DefaultLanguages, cfg.Region, cfg.UseGivenOrder, false)
-		for _, locale := range locales {
-			if !resultTracker.Contain(locale.Name) {
-				results = append(results, locale)
-			}
+	for _, locale := range defaultLocales {
+		if !resultTracker.Contain(locale.Name) {
+			results = append(results, locale)
 		}
 	}
 
 	return results, nil
 }
 
-func (p *Parser) checkPreviousLocales(iCfg *setting.Configuration, dateStrings []string) *data.LocaleData {
+func (p *Parser) checkPreviousLocales(iCfg *setting.Configuration, dateStrings []string) []*data.LocaleData {
+	var results []*data.LocaleData
 	for _, usedLocale := range p.usedLocales {
 		for _, ds := range dateStrings {
 			if p.localeIsApplicable(iCfg, usedLocale, ds) {
-				return usedLocale
+				results = append(results, usedLocale)
+				break
 			}
 		}
 	}
 
-	return nil
+	return results
 }
 
 func (p *Parser) saveUsedLocale(ld *data.LocaleData) {
-- 
2.43.0


From 176c5cced4f2438f840dc475c323d2606f8ec798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:31 +0000
Subject: [PATCH 51/57] fix: don't parse the same part of a searched text again
 and again

---
 internal/language/translate-search.go |  4 ++--
 internal/language/translate.go        |  2 +-
 internal/language/utils.go            | 10 +++++++---
 search.go                             | 25 ++++++++++++++++++++++++-
 4 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/internal/language/translate-search.go b/internal/language/translate-search.go
index e52b6a9..0b0246a 100644
--- a/internal/language/translate-search.go
+++ b/internal/language/translate-search.go
@@ -74,7 +74,7 @@ func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string
 				translatedChunk = append(translatedChunk, []string{word})
 				originalChunk = append(originalChunk, originalTokens[i])
 			} else if len(translatedChunk) > 0 {
-				translatedChunkPermutations := createPermutation(translatedChunk)
+				translatedChunkPermutations := createPermutation(translatedChunk, maxSearchPermutation)
 				for _, permutation := range translatedChunkPermutations {
 					translated = append(translated, permutation)
 					original = append(original, originalChunk)
@@ -85,7 +85,7 @@ func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string
 		}
 
 		if len(translatedChunk) > 0 {
-			translatedChunkPermutations := createPermutation(translatedChunk)
+			translatedChunkPermutations := createPermutation(translatedChunk, maxSearchPermutation)
 			for _, permutation := range translatedChunkPermutations {
 				translated = append(translated, permutation)
 				original = append(original, originalChunk)
diff --git a/internal/language/translate.go b/internal/language/translate.go
index 8bf8ae7..f413f91 100644
--- a/internal/language/translate.go
+++ b/internal/language/translate.go
@@ -67,7 +67,7 @@ func Translate(cfg *setting.Configuration, ld *data.LocaleData, str string, keep
 	}
 
 	// Create token permutations from translated tokens
-	tokenPermutations := createPermutation(translatedTokens)
+	tokenPermutations := createPermutation(translatedTokens, maxPermutation)
 
 	// Clean up and finalize translations
 	var translations []string
diff --git a/internal/language/utils.go b/internal/language/utils.go
index 4ee73c9..69d867e 100644
--- a/internal/language/utils.go
+++ b/internal/language/utils.go
@@ -60,10 +60,14 @@ func isInDictionary(ld *data.LocaleData, word string) bool {
 	return exist
 }
 
-// maxPermutation is the max number of permutations that created for a chunk of text.
-const maxPermutation = 256
+// Max number of permutations that created for a date string, and for a chunk of
+// text while searching where each of them might be split and parsed several times.
+const (
+	maxPermutation       = 256
+	maxSearchPermutation = 32
+)
 
-func createPermutation[T comparable](input [][]T) [][]T {
+func createPermutation[T comparable](input [][]T, maxPermutation int) [][]T {
 	// Calculate count of possible permutation. Its number grows exponentially,
 	// so once there are too many of them only use the first entry of the rest.
 	nPermutation := 1
diff --git a/search.go b/search.go
index 5f98b06..1e3885d 100644
--- a/search.go
+++ b/search.go
@@ -39,6 +39,13 @@ type searchLanguage struct {
 	Languages     []string
 	DateOrder     string
 	IsCustomOrder bool
+	Parsed        map[searchEntry]date.Date // the entries that have been parsed
+}
+
+// searchEntry is a part of the searched text along with the time it's relative to.
+type searchEntry struct {
+	Entry       string
+	CurrentTime time.Time
 }
 
 type splitResult struct {
@@ -115,7 +122,11 @@ func (p *Parser) SearchWithLanguage(cfg *Configuration, lang string, text string
 	}
 
 	// The entries might be parsed in another language, but the order is still the one of this language
-	entryLang := searchLanguage{Languages: languages, DateOrder: ld.DateOrder}
+	entryLang := searchLanguage{
+		Languages: languages,
+		DateOrder: ld.DateOrder,
+		Parsed:    map[searchEntry]date.Date{},
+	}
 	if cfg.DateOrder != nil {
 		if do, valid := validateDateOrder(cfg.DateOrder(ld.Name)); valid {
 			entryLang.DateOrder, entryLang.IsCustomOrder = do, true
@@ -294,6 +305,18 @@ func (p *Parser) parseEntry(iCfg *setting.Configuration, lang searchLanguage, en
 // parseInLanguage parses the entry in the language and date order of the text. If it's
 // failed, any languages will do.
 func (p *Parser) parseInLanguage(cfg *Configuration, lang searchLanguage, entry string) date.Date {
+	// The same entry might appear many times, e.g. if there are several ways to split a text
+	key := searchEntry{Entry: entry, CurrentTime: cfg.CurrentTime}
+	if dt, exist := lang.Parsed[key]; exist && !cfg.TryPreviousLocales {
+		return dt
+	}
+
+	dt := p.parseEntryInLanguage(cfg, lang, entry)
+	lang.Parsed[key] = dt
+	return dt
+}
+
+func (p *Parser) parseEntryInLanguage(cfg *Configuration, lang searchLanguage, entry string) date.Date {
 	dateOrder := func(string) string { return lang.DateOrder }
 
 	cfg = cfg.Clone()
-- 
2.43.0


From 7a42f658eb90d8036ddb82418a86f708c7de5cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:09 +0000
Subject: [PATCH 52/57] fix: don't let the clock decide the days of February in
 dates without spaces

---
 internal/parser/nospace/constants.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/internal/parser/nospace/constants.go b/internal/parser/nospace/constants.go
index 30d6aac..2eec88e 100644
--- a/internal/parser/nospace/constants.go
+++ b/internal/parser/nospace/constants.go
@@ -5,7 +5,6 @@ import (
 	"sort"
 	"strconv"
 	"strings"
-	"time"
 
 	"slices"
 
@@ -226,12 +225,11 @@ func candidateIsValid(mapValues map[string]int) bool {
 			return false
 		}
 
-		currentYear := time.Now().Year()
-		currentCentury := (currentYear / 1000) * 1000
-		if year < currentYear-currentCentury {
-			year += currentCentury
+		// Use the same century as time.Parse, no matter what the current year is
+		if year < 69 {
+			year += 2000
 		} else {
-			year += currentCentury - 100
+			year += 1900
 		}
 	}
 
-- 
2.43.0


From 6ef8b0a0b2dcbec7bd6f106b918b462d7d66c83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:07 +0000
Subject: [PATCH 53/57] fix: move two-digit years by a century of their own
 calendar

With PreferredDateSource, a two-digit year of a Jalali or Hijri date was
moved by a hundred Gregorian years, which gave another day and month.
---
 internal/parser/absolute/parser.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 1cab26c..fabca79 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -309,7 +309,7 @@ func (p *Parser) Parse(tz timezone.OffsetData) (date.Date, error) {
 	}
 
 	// Apply correction for past and future
-	dt = p.correctForTimeFrame(dt, tz)
+	dt = p.correctForTimeFrame(dt, dtParams, dtLocation)
 
 	// Apply correction for preference of month: beginning, current, end.
 	// Must be done before day so that day is derived from the correct month.
@@ -450,7 +450,7 @@ func (p *Parser) parseLetterToken(tokenText string, skippedComponent string) ([]
 	return nil, fmt.Errorf("unable to parse %s", tokenText)
 }
 
-func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.Time {
+func (p *Parser) correctForTimeFrame(t time.Time, params map[string]int, loc *time.Location) time.Time {
 	_, yearExist := p.ComponentValues["year"]
 	_, monthExist := p.ComponentValues["month"]
 	_, tokenTimeExist := p.ComponentTokens["time"]
@@ -528,20 +528,24 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 	}
 
 	if tokenYearExist && len(tokenYear.Text) == 2 {
-		originalDay := t.Day()
+		var century int
 		if p.Now.Before(t) {
 			if dateSource == setting.Past {
-				t = t.AddDate(-100, 0, 0)
+				century = -100
 			}
 		} else {
 			if dateSource == setting.Future {
-				t = t.AddDate(100, 0, 0)
+				century = 100
 			}
 		}
 
-		// The 29th February might not exist in the other century
-		if t.Day() != originalDay {
-			t = t.AddDate(0, 0, -t.Day())
+		// A century is not as long in every calendar, and the 29th February
+		// might not exist in the other one, so create the date again
+		if century != 0 {
+			params["year"] += century
+			if moved, err := p.FnCreateDateTime(p, params, loc); err == nil {
+				t = moved
+			}
 		}
 	}
 
-- 
2.43.0


From 883494e8edf4fd4ff70aff1aa195ee346db2c8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:18 +0000
Subject: [PATCH 54/57] fix: complete dates on the clock, apart from the clock
 changes of their location

---
 internal/parser/absolute/parser.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index fabca79..29b030f 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -302,8 +302,9 @@ func (p *Parser) Parse(tz timezone.OffsetData) (date.Date, error) {
 		dtParams["nanosecond"] = p.ParsedTime.Nanosecond()
 	}
 
-	// Create datetime object
-	dt, err := p.FnCreateDateTime(p, dtParams, dtLocation)
+	// Create datetime object. It's kept in UTC until all corrections are done, so
+	// clock changes of the location don't move the days and times in between.
+	dt, err := p.FnCreateDateTime(p, dtParams, time.UTC)
 	if err != nil {
 		return date.Date{}, err
 	}
@@ -318,6 +319,9 @@ func (p *Parser) Parse(tz timezone.OffsetData) (date.Date, error) {
 	// Apply correction for preference of day: beginning, current, end
 	dt = p.correctForDay(dt)
 
+	// Put the date in its location
+	dt = withLocation(dt, dtLocation)
+
 	// Get the period of this date
 	returnTimeAsPeriod := p.Config != nil && p.Config.ReturnTimeAsPeriod
 
@@ -332,6 +336,12 @@ func (p *Parser) Parse(tz timezone.OffsetData) (date.Date, error) {
 	}, nil
 }
 
+// withLocation returns the same clock time in another location.
+func withLocation(t time.Time, loc *time.Location) time.Time {
+	return time.Date(t.Year(), t.Month(), t.Day(),
+		t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), loc)
+}
+
 func (p *Parser) getToken(i int) (tokenizer.Token, bool) {
 	if i >= 0 && i < len(p.Tokens) {
 		return p.Tokens[i], true
@@ -459,6 +469,9 @@ func (p *Parser) correctForTimeFrame(t time.Time, params map[string]int, loc *ti
 	tokenYear, tokenYearExist := p.ComponentTokens["year"]
 	tokenWeekday, tokenWeekdayExist := p.ComponentTokens["weekday"]
 
+	// Current time on the clock of the location
+	now := withLocation(p.Now.In(loc), t.Location())
+
 	var dateSource setting.PreferredDateSource
 	if p.Config != nil {
 		dateSource = p.Config.PreferredDateSource
@@ -503,7 +516,7 @@ func (p *Parser) correctForTimeFrame(t time.Time, params map[string]int, loc *ti
 	if monthExist && !yearExist {
 		tDay, tMonth, tYear := t.Day(), t.Month(), t.Year()
 
-		if p.Now.Before(t) {
+		if now.Before(t) {
 			if dateSource == setting.Past {
 				tYear--
 			}
@@ -529,7 +542,7 @@ func (p *Parser) correctForTimeFrame(t time.Time, params map[string]int, loc *ti
 
 	if tokenYearExist && len(tokenYear.Text) == 2 {
 		var century int
-		if p.Now.Before(t) {
+		if now.Before(t) {
 			if dateSource == setting.Past {
 				century = -100
 			}
@@ -543,18 +556,18 @@ func (p *Parser) correctForTimeFrame(t time.Time, params map[string]int, loc *ti
 		// might not exist in the other one, so create the date again
 		if century != 0 {
 			params["year"] += century
-			if moved, err := p.FnCreateDateTime(p, params, loc); err == nil {
+			if moved, err := p.FnCreateDateTime(p, params, t.Location()); err == nil {
 				t = moved
 			}
 		}
 	}
 
 	if tokenTimeExist && !tokenYearExist && !tokenMonthExist && !tokenDayExist && !tokenWeekdayExist {
-		for dateSource == setting.Past && p.Now.Before(t) {
+		for dateSource == setting.Past && now.Before(t) {
 			t = t.AddDate(0, 0, -1)
 		}
 
-		for dateSource == setting.Future && p.Now.After(t) {
+		for dateSource == setting.Future && now.After(t) {
 			t = t.AddDate(0, 0, 1)
 		}
 	}
-- 
2.43.0


From 76698bc5673d9aac5922991987f8df4e89948cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:26 +0000
Subject: [PATCH 55/57] fix: complete dates of custom formats on the clock,
 apart from the clock changes of their location

---
 internal/parser/formatted/parser.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/parser/formatted/parser.go b/internal/parser/formatted/parser.go
index 1d9d853..9bad814 100644
--- a/internal/parser/formatted/parser.go
+++ b/internal/parser/formatted/parser.go
@@ -44,6 +44,13 @@ func Parse(cfg *setting.Configuration, str string, formats ...string) date.Date
 			continue
 		}
 
+		// Without zone in the format, the missing parts are added in UTC, so clock
+		// changes of the location don't move the time in between
+		var tLoc *time.Location
+		if u, err := time.Parse(format, str); err == nil && t.Location() == timeLoc && u.Location() == time.UTC {
+			t, tLoc = u, timeLoc
+		}
+
 		// The year must be known first, since it decides the days of February
 		if t.Year() == 0 {
 			t = applyYear(cfg, t, currentTime.Year())
@@ -78,6 +85,11 @@ func Parse(cfg *setting.Configuration, str string, formats ...string) date.Date
 				t.Location())
 		}
 
+		if tLoc != nil {
+			t = time.Date(t.Year(), t.Month(), t.Day(),
+				t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), tLoc)
+		}
+
 		return date.Date{Time: t, Period: period}
 	}
 
-- 
2.43.0


From 5d96f8b598e44f235bd00a26faad2a18ebccc780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:51 +0000
Subject: [PATCH 56/57] fix: move dates on the clock, apart from the clock
 changes of their location

---
 internal/parser/relative/parser.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/internal/parser/relative/parser.go b/internal/parser/relative/parser.go
index 1d0805b..b3bc189 100644
--- a/internal/parser/relative/parser.go
+++ b/internal/parser/relative/parser.go
@@ -57,6 +57,11 @@ func Parse(cfg *setting.Configuration, str string) date.Date {
 		period = min(period, tPeriod)
 	}
 
+	// The time might not exist on that day, so the location is applied at last
+	if !dt.IsZero() && dt.Location() != now.Location() {
+		dt = withLocation(dt, now.Location())
+	}
+
 	if cfg != nil && !cfg.ReturnTimeAsPeriod && period.IsTime() {
 		period = date.Day
 	}
@@ -108,14 +113,26 @@ func parseDate(cfg *setting.Configuration, str string, now time.Time) (time.Time
 	minute := time.Duration(relDurations["minute"]) * time.Minute
 	second := time.Duration(relDurations["second"]) * time.Second
 
-	date := now
+	// The calendar steps are done in UTC, to keep the clock time as it is
+	date, loc := now, now.Location()
+	if year != 0 || month != 0 || day != 0 {
+		date = withLocation(now, time.UTC)
+	}
+
+	hasClock := hour != 0 || minute != 0 || second != 0
 	if (rxIn.MatchString(str) || cfg.PreferredDateSource == setting.Future) && !rxAgo.MatchString(str) {
 		date = addDate(cfg, date, year, month, day)
+		if hasClock && date.Location() != loc {
+			date = withLocation(date, loc)
+		}
 		date = date.Add(hour)
 		date = date.Add(minute)
 		date = date.Add(second)
 	} else {
 		date = addDate(cfg, date, -year, -month, -day)
+		if hasClock && date.Location() != loc {
+			date = withLocation(date, loc)
+		}
 		date = date.Add(-hour)
 		date = date.Add(-minute)
 		date = date.Add(-second)
@@ -124,6 +141,12 @@ func parseDate(cfg *setting.Configuration, str string, now time.Time) (time.Time
 	return date, period
 }
 
+// withLocation returns the same clock time in another location.
+func withLocation(t time.Time, loc *time.Location) time.Time {
+	return time.Date(t.Year(), t.Month(), t.Day(),
+		t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), loc)
+}
+
 func addDate(cfg *setting.Configuration, date time.Time, years, months, days int) time.Time {
 	if !cfg.PreserveEndOfMonth {
 		return date.AddDate(years, months, days)
-- 
2.43.0


From 6142b2fd4a00f81bea44b384c498a4bae8352517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:11 +0000
Subject: [PATCH 57/57] fix: take the present Hijri day from the clock of
 CurrentTime

---
 internal/parser/hijri/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/parser/hijri/parser.go b/internal/parser/hijri/parser.go
index 6fcbadb..086d020 100644
--- a/internal/parser/hijri/parser.go
+++ b/internal/parser/hijri/parser.go
@@ -71,8 +71,10 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 }
 
 func getDateTimeParams(p *absolute.Parser) map[string]int {
-	// Get current time in Hijri
-	hd, _ := hijri.CreateUmmAlQuraDate(p.Now)
+	// Get current time in Hijri. It's converted from the time in UTC, so use the
+	// day of the current time as if it is there.
+	hd, _ := hijri.CreateUmmAlQuraDate(time.Date(p.Now.Year(), p.Now.Month(), p.Now.Day(),
+		0, 0, 0, 0, time.UTC))
 
 	// Get component values
 	day, dayExist := p.ComponentValues["day"]
-- 
2.43.0


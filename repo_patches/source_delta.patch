From 397b9de32a1e5f8ccd108e2e388f72edac0f89b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:04:29 +0000
Subject: [PATCH 01/26] fix: unfold content lines correctly for every read
 boundary

The unfolding reader looped forever when a read ended in a fold, dropped
bytes around folds and missed folds split over two reads.  It now removes
folds from a buffered view of the input, so the result no longer depends on
how the data arrives.
---
 unfolder.go | 98 +++++++++++++++++------------------------------------
 1 file changed, 32 insertions(+), 66 deletions(-)

diff --git a/unfolder.go b/unfolder.go
index 70fa7b3..9219f2f 100644
--- a/unfolder.go
+++ b/unfolder.go
@@ -1,83 +1,49 @@
 package ics
 
 import (
+	"bufio"
 	"bytes"
 	"io"
 )
 
 type unfolder struct {
-	r      io.Reader
-	bufLen int
-	buf    [2]byte
+	r   io.Reader
+	br  *bufio.Reader
+	err error
 }
 
 func (u *unfolder) Read(p []byte) (int, error) {
-	var (
-		m, n int
-		err  error
-	)
-	q := p
-	if u.bufLen > 0 {
-		n = copy(p, u.buf[:u.bufLen])
-		if n > 0 {
-			u.buf[0] = u.buf[1]
-			u.bufLen -= n
-			p = p[n:]
-			m += n
-		}
+	if u.br == nil {
+		u.br = bufio.NewReader(u.r)
 	}
-	for len(p) > 0 && err == nil {
-		n, err = u.r.Read(p)
-		m += n
-		p = p[:n]
-		var toRead int
-		for {
-			pos := bytes.Index(p, eol[:])
-			if pos == -1 {
-				break
-			}
-			copy(p[pos:], p[pos+3:])
-			p = p[pos:]
-			toRead += 3
+
+	n := 0
+
+	for n < len(p) && (n == 0 || u.br.Buffered() > 0) {
+		if u.err != nil && u.br.Buffered() == 0 {
+			return 0, u.err
 		}
-		p = p[len(p)-toRead:]
-		m -= toRead
-	}
-	q = q[:m]
-	for err == nil {
-		if lq := len(q); lq > 0 && q[lq-1] == '\r' {
-			u.bufLen, err = u.r.Read(u.buf[:])
-			if u.bufLen < 2 {
-				break
-			}
-			if u.buf[0] == '\n' && u.buf[1] == ' ' {
-				m--
-				if err == nil {
-					n, err = u.r.Read(q[lq-1:])
-					m += n
-					u.bufLen = 0
-				}
-			} else {
-				break
-			}
-		} else if lq > 1 && q[lq-2] == '\r' && q[lq-1] == '\n' {
-			u.bufLen, err = u.r.Read(u.buf[:1])
-			if u.bufLen < 1 {
-				break
-			}
-			if u.buf[0] == ' ' {
-				m -= 2
-				if err == nil {
-					n, err = u.Read(q[lq-2:])
-					m += n
-					u.bufLen = 0
-				}
-			} else {
-				break
+
+		c, err := u.br.ReadByte()
+		if err != nil {
+			u.err = err
+
+			return 0, err
+		}
+
+		if c == eol[0] && u.err == nil {
+			var next []byte
+
+			if next, u.err = u.br.Peek(len(eol) - 1); bytes.Equal(next, eol[1:]) {
+				u.br.Discard(len(next))
+
+				continue
 			}
-		} else {
-			break
 		}
+
+		p[n] = c
+		n++
 	}
-	return m, err
+
+	return n, nil
 }
-- 
2.43.0


From 28663aad163146a7d7299f0fba3fae3ec8e4bb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:04:30 +0000
Subject: [PATCH 02/26] fix: step over escaped characters when writing
 parameters

Writing a parameter holding a caret, a double quote or a line break never
finished, because the character was escaped again and again.
---
 genParams.sh | 2 ++
 params.go    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/genParams.sh b/genParams.sh
index 5c0ab1f..91a1d9d 100755
--- a/genParams.sh
+++ b/genParams.sh
@@ -370,6 +370,8 @@ Loop:
 	for {
 		c := t.ExceptRun("\n^\"")
 		d = append(d, t.Get()...)
+		t.Next()
+		t.Get()
 		switch c {
 		case -1:
 			break Loop
diff --git a/params.go b/params.go
index f5d83ba..87c5a62 100644
--- a/params.go
+++ b/params.go
@@ -1221,6 +1221,8 @@ Loop:
 	for {
 		c := t.ExceptRun("\n^\"")
 		d = append(d, t.Get()...)
+		t.Next()
+		t.Get()
 		switch c {
 		case -1:
 			break Loop
-- 
2.43.0


From c983f358ef711a1639018ee84ae412e80129ca66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:04:31 +0000
Subject: [PATCH 03/26] fix: unescape parameters without repeating the escape

Reading a caret escape kept the escape itself in the result, and an unknown
caret sequence lost the character after the caret.
---
 genParams.sh | 8 +++-----
 params.go    | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/genParams.sh b/genParams.sh
index 91a1d9d..e76d206 100755
--- a/genParams.sh
+++ b/genParams.sh
@@ -14,7 +14,6 @@ source "comments.sh";
 	echo "	\"fmt\"";
 	echo "	\"regexp\"";
 	echo "	\"strings\"";
-	echo "	\"unicode/utf8\"";
 	echo;
 	echo "	\"vimagination.zapto.org/parser\"";
 	echo ")";
@@ -333,7 +332,6 @@ source "comments.sh";
 func decode6868(s string) string {
 	t := parser.NewStringTokeniser(s)
 	d := make([]byte, 0, len(s))
-	var ru [4]byte
 Loop:
 	for {
 		c := t.ExceptRun("^")
@@ -354,10 +352,10 @@ Loop:
 			case '^':
 				d = append(d, '^')
 			default:
-				d = append(d, '^')
-				l := utf8.EncodeRune(ru[:], c)
-				d = append(d, ru[:l]...)
+				d = append(d, t.Get()...)
+				continue
 			}
+			t.Get()
 		}
 	}
 	return string(d)
diff --git a/params.go b/params.go
index 87c5a62..e46f88e 100644
--- a/params.go
+++ b/params.go
@@ -7,7 +7,6 @@ import (
 	"fmt"
 	"regexp"
 	"strings"
-	"unicode/utf8"
 
 	"vimagination.zapto.org/parser"
 )
@@ -1184,7 +1183,6 @@ func (t ParamAgentID) valid() error {
 func decode6868(s string) string {
 	t := parser.NewStringTokeniser(s)
 	d := make([]byte, 0, len(s))
-	var ru [4]byte
 Loop:
 	for {
 		c := t.ExceptRun("^")
@@ -1205,10 +1203,10 @@ Loop:
 			case '^':
 				d = append(d, '^')
 			default:
-				d = append(d, '^')
-				l := utf8.EncodeRune(ru[:], c)
-				d = append(d, ru[:l]...)
+				d = append(d, t.Get()...)
+				continue
 			}
+			t.Get()
 		}
 	}
 	return string(d)
-- 
2.43.0


From 1746520d4482d8a40f544543e5e56bdf2140837e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:04:46 +0000
Subject: [PATCH 04/26] fix: accept finite floats and reject the others

The float checks were the wrong way round, so a calendar with a coordinate
could not be written.
---
 types.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/types.go b/types.go
index da1d385..c25cc50 100644
--- a/types.go
+++ b/types.go
@@ -421,7 +421,7 @@ func (f Float) encode(w writer) {
 func (f Float) valid() error {
 	d := float64(f)
 
-	if !math.IsNaN(d) && !math.IsInf(d, 0) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return ErrInvalidFloat
 	}
 
@@ -463,13 +463,13 @@ func (t TFloat) encode(w writer) {
 func (t TFloat) valid() error {
 	d := float64(t[0])
 
-	if !math.IsNaN(d) && !math.IsInf(d, 0) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return ErrInvalidFloat
 	}
 
 	d = float64(t[1])
 
-	if !math.IsNaN(d) && !math.IsInf(d, 0) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return ErrInvalidFloat
 	}
 
-- 
2.43.0


From 3fa6a6fdc6b4d441aa2791dcca89916dce5975eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:04:47 +0000
Subject: [PATCH 05/26] fix: do not panic on a weekday made of digits only

A recurrence rule such as BYDAY=+5 indexed past the end of the text.
---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index c25cc50..0a48f5c 100644
--- a/types.go
+++ b/types.go
@@ -801,7 +801,7 @@ func (r *Recur) decode(params map[string]string, data string) error {
 					num = int8(day[0] - '0')
 					day = day[1:]
 
-					if day[0] >= '0' && day[0] <= '9' {
+					if len(day) > 0 && day[0] >= '0' && day[0] <= '9' {
 						num *= 10
 						num += int8(day[0] - '0')
 						day = day[1:]
-- 
2.43.0


From 0968f5669a4cf60d8f02e67175b3332475c3c459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:04:48 +0000
Subject: [PATCH 06/26] fix: report input that ends inside an alarm

Decoding panicked when the data ended before the end of an alarm.
---
 sections_alarm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sections_alarm.go b/sections_alarm.go
index 4944994..ec8cd84 100644
--- a/sections_alarm.go
+++ b/sections_alarm.go
@@ -43,6 +43,8 @@ Loop:
 		ph, err := t.GetPhrase()
 		if err != nil {
 			return err
+		} else if ph.Type == parser.PhraseDone {
+			return io.ErrUnexpectedEOF
 		}
 
 		pt = append(pt, ph)
-- 
2.43.0


From a5f64adb0ebc3a65a7b2d84dd550ba83675a0110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:05:02 +0000
Subject: [PATCH 07/26] fix: read LAST-MODIFIED under its real name

Components looked for LAST-MOD, so the property was dropped on reading.
---
 sections.gen | 8 ++++----
 sections.go  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/sections.gen b/sections.gen
index dba53b9..06d4903 100644
--- a/sections.gen
+++ b/sections.gen
@@ -14,7 +14,7 @@ VEVENT
 	CREATED
 	DESCRIPTION
 	GEO
-	LAST-MOD
+	LAST-MODIFIED
 	LOCATION
 	ORGANIZER
 	PRIORITY
@@ -48,7 +48,7 @@ VTODO
 	DESCRIPTION
 	DTSTART
 	GEO
-	LAST-MOD
+	LAST-MODIFIED
 	LOCATION
 	ORGANIZER
 	PERCENT-COMPLETE
@@ -79,7 +79,7 @@ VJOURNAL
 	CLASS
 	CREATED
 	DTSTART
-	LAST-MOD
+	LAST-MODIFIED
 	ORGANIZER
 	RECURRENCE-ID
 	SEQUENCE
@@ -112,7 +112,7 @@ VFREEBUSY
 	*REQUEST-STATUS
 VTIMEZONE
 	!TZID
-	LAST-MOD
+	LAST-MODIFIED
 	TZURL
 	*BEGIN:STANDARD
 	*BEGIN:DAYLIGHT
diff --git a/sections.go b/sections.go
index 741a87a..deddf38 100644
--- a/sections.go
+++ b/sections.go
@@ -327,7 +327,7 @@ Loop:
 			if err := s.Geo.decode(params, value); err != nil {
 				return fmt.Errorf(errDecodingProp, cEvent, cGeo, err)
 			}
-		case "LAST-MOD":
+		case "LAST-MODIFIED":
 			if s.LastModified != nil {
 				return fmt.Errorf(errMultiple, cEvent, cLastModified)
 			}
@@ -1013,7 +1013,7 @@ Loop:
 			if err := s.Geo.decode(params, value); err != nil {
 				return fmt.Errorf(errDecodingProp, cTodo, cGeo, err)
 			}
-		case "LAST-MOD":
+		case "LAST-MODIFIED":
 			if s.LastModified != nil {
 				return fmt.Errorf(errMultiple, cTodo, cLastModified)
 			}
@@ -1648,7 +1648,7 @@ Loop:
 			if err := s.DateTimeStart.decode(params, value); err != nil {
 				return fmt.Errorf(errDecodingProp, cJournal, cDateTimeStart, err)
 			}
-		case "LAST-MOD":
+		case "LAST-MODIFIED":
 			if s.LastModified != nil {
 				return fmt.Errorf(errMultiple, cJournal, cLastModified)
 			}
@@ -2398,7 +2398,7 @@ Loop:
 			if err := s.TimezoneID.decode(params, value); err != nil {
 				return fmt.Errorf(errDecodingProp, cTimezone, cTimezoneID, err)
 			}
-		case "LAST-MOD":
+		case "LAST-MODIFIED":
 			if s.LastModified != nil {
 				return fmt.Errorf(errMultiple, cTimezone, cLastModified)
 			}
-- 
2.43.0


From 46399bf69d9cf68c96cd8e2189006e297cdcb257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:05:06 +0000
Subject: [PATCH 08/26] fix: quote URI and address parameters

ALTREP, DELEGATED-FROM, DELEGATED-TO and URI must be quoted, and reading
insists on it, but they were written without quotes.
---
 genParams.sh | 14 ++++++++++++--
 params.go    | 24 ++++++++++++++++--------
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/genParams.sh b/genParams.sh
index e76d206..b870936 100755
--- a/genParams.sh
+++ b/genParams.sh
@@ -142,7 +142,11 @@ source "comments.sh";
 			if [ ! -z "$vType" ]; then
 				echo "$indent	var q $vType";
 				echo;
-				echo "$indent	if err := q.decode(nil, ${vName}.Data); err != nil {";
+				if $doubleQuote; then
+					echo "$indent	if err := q.decode(nil, decode6868(${vName}.Data)); err != nil {";
+				else
+					echo "$indent	if err := q.decode(nil, ${vName}.Data); err != nil {";
+				fi;
 				echo "$indent		return fmt.Errorf(errDecodingType, c$type, err)";
 				echo "$indent	}";
 				echo;
@@ -231,7 +235,13 @@ source "comments.sh";
 			if [ ! -z "$vType" ]; then
 				echo "$indent	q := $vType($vName)";
 				echo;
-				echo "$indent	q.encode(w)";
+				if $doubleQuote; then
+					echo "$indent	w.WriteString(\"\\\"\")";
+					echo "$indent	w.Write(encode6868(q.String()))";
+					echo "$indent	w.WriteString(\"\\\"\")";
+				else
+					echo "$indent	q.encode(w)";
+				fi;
 			elif [ ${#choices[@]} -eq 1 ]; then
 				echo "$indent	w.WriteString(\"${choices[0]}\")";
 				freeChoice=true;
diff --git a/params.go b/params.go
index e46f88e..cb13f4d 100644
--- a/params.go
+++ b/params.go
@@ -25,7 +25,7 @@ func (t *ParamAlternativeRepresentation) decode(vs []parser.Token) error {
 
 	var q URI
 
-	if err := q.decode(nil, vs[0].Data); err != nil {
+	if err := q.decode(nil, decode6868(vs[0].Data)); err != nil {
 		return fmt.Errorf(errDecodingType, cAlternativeRepresentation, err)
 	}
 
@@ -43,7 +43,9 @@ func (t ParamAlternativeRepresentation) encode(w writer) {
 
 	q := URI(t)
 
-	q.encode(w)
+	w.WriteString("\"")
+	w.Write(encode6868(q.String()))
+	w.WriteString("\"")
 }
 
 func (t ParamAlternativeRepresentation) valid() error {
@@ -169,7 +171,7 @@ func (t *ParamDelegator) decode(vs []parser.Token) error {
 
 		var q CalendarAddress
 
-		if err := q.decode(nil, v.Data); err != nil {
+		if err := q.decode(nil, decode6868(v.Data)); err != nil {
 			return fmt.Errorf(errDecodingType, cDelegator, err)
 		}
 
@@ -193,7 +195,9 @@ func (t ParamDelegator) encode(w writer) {
 
 		q := CalendarAddress(v)
 
-		q.encode(w)
+		w.WriteString("\"")
+		w.Write(encode6868(q.String()))
+		w.WriteString("\"")
 	}
 }
 
@@ -218,7 +222,7 @@ func (t *ParamDelagatee) decode(vs []parser.Token) error {
 
 		var q CalendarAddress
 
-		if err := q.decode(nil, v.Data); err != nil {
+		if err := q.decode(nil, decode6868(v.Data)); err != nil {
 			return fmt.Errorf(errDecodingType, cDelagatee, err)
 		}
 
@@ -242,7 +246,9 @@ func (t ParamDelagatee) encode(w writer) {
 
 		q := CalendarAddress(v)
 
-		q.encode(w)
+		w.WriteString("\"")
+		w.Write(encode6868(q.String()))
+		w.WriteString("\"")
 	}
 }
 
@@ -1065,7 +1071,7 @@ func (t *ParamURI) decode(vs []parser.Token) error {
 
 	var q URI
 
-	if err := q.decode(nil, vs[0].Data); err != nil {
+	if err := q.decode(nil, decode6868(vs[0].Data)); err != nil {
 		return fmt.Errorf(errDecodingType, cURI, err)
 	}
 
@@ -1083,7 +1089,9 @@ func (t ParamURI) encode(w writer) {
 
 	q := URI(t)
 
-	q.encode(w)
+	w.WriteString("\"")
+	w.Write(encode6868(q.String()))
+	w.WriteString("\"")
 }
 
 func (t ParamURI) valid() error {
-- 
2.43.0


From dbbbf2ab0f9b40e930e0f9cc381c6b97941ba7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:05:22 +0000
Subject: [PATCH 09/26] fix: check the occurrence number of recurring weekdays

A number outside -53 to 53 was written although it cannot be read back.
---
 types.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types.go b/types.go
index 0a48f5c..5ccee79 100644
--- a/types.go
+++ b/types.go
@@ -1191,6 +1191,10 @@ func (r *Recur) valid() error {
 		default:
 			return ErrInvalidRecurByDay
 		}
+
+		if day.Occurrence > 53 || day.Occurrence < -53 {
+			return ErrInvalidRecurByDay
+		}
 	}
 
 	for _, monthDay := range r.ByMonthDay {
-- 
2.43.0


From 24526ac24a3460bef5a590f8ebb2133d1d025250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:05:26 +0000
Subject: [PATCH 10/26] fix: require alarm duration and repeat together or not
 at all

Email and URI alarms were refused exactly when both or neither were given.
---
 genSections.sh | 4 ++--
 sections.go    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/genSections.sh b/genSections.sh
index 1ef7da9..30b6740 100755
--- a/genSections.sh
+++ b/genSections.sh
@@ -241,10 +241,10 @@ function printSection() {
 		if [ "$typ" = "AND" ]; then
 			for r in ${reqs[@]}; do
 				if $second; then
-					echo -n " &&";
+					echo -n " ||";
 				fi;
 				if $first; then
-					echo -n " t == (s.$(getName "$r") == nil)";
+					echo -n " t != (s.$(getName "$r") == nil)";
 					second=true;
 				else
 					echo -n " t := s.$(getName "$r") == nil;";
diff --git a/sections.go b/sections.go
index deddf38..5119466 100644
--- a/sections.go
+++ b/sections.go
@@ -3681,7 +3681,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmEmail, ErrRequirementNotMet)
 	}
 
-	if t := s.Duration == nil; t == (s.Repeat == nil) {
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmEmail, ErrRequirementNotMet)
 	}
 
@@ -4001,7 +4001,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmURI, ErrRequirementNotMet)
 	}
 
-	if t := s.Duration == nil; t == (s.Repeat == nil) {
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmURI, ErrRequirementNotMet)
 	}
 
-- 
2.43.0


From cbbda11a0eec41221d82d61496ad03bd1878e42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:05:30 +0000
Subject: [PATCH 11/26] fix: unescape the format type parameter

It is written with caret escapes like every other parameter but was read
without undoing them.
---
 genParams.sh | 6 ++++--
 params.go    | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/genParams.sh b/genParams.sh
index b870936..9bbc59b 100755
--- a/genParams.sh
+++ b/genParams.sh
@@ -188,11 +188,13 @@ source "comments.sh";
 						echo "	*t = Param$type(decode6868(${vName}.Data))";
 					fi;
 				else
-					echo "$indent	if !regex${type}.MatchString(${vName}.Data) {";
+					echo "$indent	v := decode6868(${vName}.Data)";
+					echo;
+					echo "$indent	if !regex${type}.MatchString(v) {";
 					echo "$indent		return fmt.Errorf(errDecodingType, c$type, ErrInvalidParam)";
 					echo "$indent	}";
 					echo;
-					echo "$indent	*t = Param$type(${vName}.Data)";
+					echo "$indent	*t = Param$type(v)";
 				fi;
 			fi;
 			if $multiple; then
diff --git a/params.go b/params.go
index cb13f4d..a55c96f 100644
--- a/params.go
+++ b/params.go
@@ -372,11 +372,13 @@ func (t *ParamFormatType) decode(vs []parser.Token) error {
 		return fmt.Errorf(errDecodingType, cFormatType, ErrInvalidParam)
 	}
 
-	if !regexFormatType.MatchString(vs[0].Data) {
+	v := decode6868(vs[0].Data)
+
+	if !regexFormatType.MatchString(v) {
 		return fmt.Errorf(errDecodingType, cFormatType, ErrInvalidParam)
 	}
 
-	*t = ParamFormatType(vs[0].Data)
+	*t = ParamFormatType(v)
 
 	return nil
 }
-- 
2.43.0


From 5333284948297d7749347a71f3ebdeff4abc4618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:05:34 +0000
Subject: [PATCH 12/26] fix: reject control characters in the format type
 parameter

A line break in it ended the content line and could start a new property.
---
 genParams.sh | 2 +-
 params.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/genParams.sh b/genParams.sh
index 9bbc59b..a0a9ec7 100755
--- a/genParams.sh
+++ b/genParams.sh
@@ -317,7 +317,7 @@ source "comments.sh";
 					echo "$indent		return fmt.Errorf(errValidatingType, c$type, ErrInvalidValue)";
 					echo "$indent	}";
 				elif [ ! -z "$regex" ]; then
-					echo "$indent	if !regex${type}.Match([]byte($vName)) {";
+					echo "$indent	if !regex${type}.Match([]byte($vName)) || strings.ContainsAny(string($vName), nonsafeChars[:31]) {";
 					echo "$indent		return fmt.Errorf(errValidatingType, c$type, ErrInvalidValue)";
 					echo "$indent	}";
 				else
diff --git a/params.go b/params.go
index a55c96f..a21cf82 100644
--- a/params.go
+++ b/params.go
@@ -400,7 +400,7 @@ func (t ParamFormatType) encode(w writer) {
 }
 
 func (t ParamFormatType) valid() error {
-	if !regexFormatType.Match([]byte(t)) {
+	if !regexFormatType.Match([]byte(t)) || strings.ContainsAny(string(t), nonsafeChars[:31]) {
 		return fmt.Errorf(errValidatingType, cFormatType, ErrInvalidValue)
 	}
 
-- 
2.43.0


From e053c7744d5da5d52f73f7d8e69da894bc5dec33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:05:50 +0000
Subject: [PATCH 13/26] fix: check the rules linking properties before writing

A calendar breaking one of them, such as an event with both an end and a
duration, was written although it is refused on reading.
---
 genSections.sh | 119 ++++++++++++++++++++++++++-----------------------
 sections.go    |  40 +++++++++++++++++
 2 files changed, 102 insertions(+), 57 deletions(-)

diff --git a/genSections.sh b/genSections.sh
index 30b6740..0d7ea10 100755
--- a/genSections.sh
+++ b/genSections.sh
@@ -17,6 +17,66 @@ function addToSection() {
 	fi;
 }
 
+function printRequirements() {
+	for req in "${requirements[@]}"; do
+		first=false;
+		declare second=false;
+		echo -n "	if";
+		reqs=( $req );
+		typ=${reqs[0]};
+		reqs[0]="";
+		reqs=( ${reqs[@]} );
+		if [ "$typ" = "AND" ]; then
+			for r in ${reqs[@]}; do
+				if $second; then
+					echo -n " ||";
+				fi;
+				if $first; then
+					echo -n " t != (s.$(getName "$r") == nil)";
+					second=true;
+				else
+					echo -n " t := s.$(getName "$r") == nil;";
+					first=true;
+				fi;
+			done;
+		elif [ "$typ" = "OR" ]; then
+			for r in ${reqs[@]}; do
+				if $first; then
+					echo -n " &&";
+				fi;
+				first=true;
+				echo -n " s.$(getName "$r") == nil";
+			done;
+		elif [ "$typ" = "ONE" ]; then
+			for r in ${reqs[@]}; do
+				if $first; then
+					echo -n " &&";
+				fi;
+				first=true;
+				echo -n " s.$(getName "$r") != nil";
+			done;
+		elif [ "$typ" = "ERGO" ]; then
+			for r in ${reqs[@]}; do
+				if $second; then
+					echo -n " || ";
+				fi;
+				if $first; then
+					echo -n "s.$(getName "$r") == nil";
+					second=true;
+				else
+					echo -n " s.$(getName "$r") != nil && (";
+					first=true;
+				fi;
+			done;
+			echo -n ")";
+		fi;
+		echo " {";
+		echo "		return fmt.Errorf($1, c$sName, ErrRequirementNotMet)";
+		echo "	}";
+		echo;
+	done;
+}
+
 function printSection() {
 	declare sName="$(getName $sectionName)";
 
@@ -230,63 +290,7 @@ function printSection() {
 	fi;
 
 	# check other requirements
-	for req in "${requirements[@]}"; do
-		first=false;
-		declare second=false;
-		echo -n "	if";
-		reqs=( $req );
-		typ=${reqs[0]};
-		reqs[0]="";
-		reqs=( ${reqs[@]} );
-		if [ "$typ" = "AND" ]; then
-			for r in ${reqs[@]}; do
-				if $second; then
-					echo -n " ||";
-				fi;
-				if $first; then
-					echo -n " t != (s.$(getName "$r") == nil)";
-					second=true;
-				else
-					echo -n " t := s.$(getName "$r") == nil;";
-					first=true;
-				fi;
-			done;
-		elif [ "$typ" = "OR" ]; then
-			for r in ${reqs[@]}; do
-				if $first; then
-					echo -n " &&";
-				fi;
-				first=true;
-				echo -n " s.$(getName "$r") == nil";
-			done;
-		elif [ "$typ" = "ONE" ]; then
-			for r in ${reqs[@]}; do
-				if $first; then
-					echo -n " &&";
-				fi;
-				first=true;
-				echo -n " s.$(getName "$r") != nil";
-			done;
-		elif [ "$typ" = "ERGO" ]; then
-			for r in ${reqs[@]}; do
-				if $second; then
-					echo -n " || ";
-				fi;
-				if $first; then
-					echo -n "s.$(getName "$r") == nil";
-					second=true;
-				else
-					echo -n " s.$(getName "$r") != nil && (";
-					first=true;
-				fi;
-			done;
-			echo -n ")";
-		fi;
-		echo " {";
-		echo "		return fmt.Errorf(errDecodingType, c$sName, ErrRequirementNotMet)";
-		echo "	}";
-		echo;
-	done;
+	printRequirements errDecodingType;
 
 	# end of decoder
 	echo "	return nil";
@@ -358,6 +362,7 @@ function printSection() {
 		fi;
 		echo;
 	done;
+	printRequirements errValidatingType;
 	echo "	return nil";
 	echo "}";
 	echo;
diff --git a/sections.go b/sections.go
index 5119466..da948eb 100644
--- a/sections.go
+++ b/sections.go
@@ -864,6 +864,10 @@ func (s *Event) valid() error {
 		}
 	}
 
+	if s.DateTimeEnd != nil && s.Duration != nil {
+		return fmt.Errorf(errValidatingType, cEvent, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -1544,6 +1548,14 @@ func (s *Todo) valid() error {
 		}
 	}
 
+	if s.Duration != nil && (s.DateTimeStart == nil) {
+		return fmt.Errorf(errValidatingType, cTodo, ErrRequirementNotMet)
+	}
+
+	if s.Due != nil && s.Duration != nil {
+		return fmt.Errorf(errValidatingType, cTodo, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -2490,6 +2502,10 @@ func (s *Timezone) valid() error {
 		}
 	}
 
+	if s.Standard == nil && s.Daylight == nil {
+		return fmt.Errorf(errValidatingType, cTimezone, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -3163,6 +3179,10 @@ func (s *AlarmAudio) valid() error {
 		}
 	}
 
+	if s.GeoLocation != nil && (s.Proximity == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmAudio, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -3475,6 +3495,10 @@ func (s *AlarmDisplay) valid() error {
 		}
 	}
 
+	if s.GeoLocation != nil && (s.Proximity == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmDisplay, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -3828,6 +3852,14 @@ func (s *AlarmEmail) valid() error {
 		}
 	}
 
+	if s.GeoLocation != nil && (s.Proximity == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmEmail, ErrRequirementNotMet)
+	}
+
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmEmail, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -4128,6 +4160,14 @@ func (s *AlarmURI) valid() error {
 		}
 	}
 
+	if s.GeoLocation != nil && (s.Proximity == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmURI, ErrRequirementNotMet)
+	}
+
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmURI, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From cf64f7654b4f92158b4899bda13f12efc13c858b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:06:21 +0000
Subject: [PATCH 14/26] fix: treat an empty list as absent in the rules linking
 properties

An empty list writes nothing, so a time zone with only an empty list of rules
was written without any and could not be read back.
---
 genSections.sh | 24 ++++++++++++++++++------
 sections.go    | 20 ++++++++++----------
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/genSections.sh b/genSections.sh
index 0d7ea10..4bc3957 100755
--- a/genSections.sh
+++ b/genSections.sh
@@ -17,6 +17,18 @@ function addToSection() {
 	fi;
 }
 
+# prints the comparison of a field with its unset value
+function compareUnset() {
+	for tline in "${currSection[@]}"; do
+		aline=( $tline ); # 0:name 1:KEYWORD 2:required 3:multiple 4:section
+		if [ "${aline[0]}" = "$1" ] && ${aline[3]}; then
+			echo -n "len(s.$1) $2 0";
+			return;
+		fi;
+	done;
+	echo -n "s.$1 $2 nil";
+}
+
 function printRequirements() {
 	for req in "${requirements[@]}"; do
 		first=false;
@@ -32,10 +44,10 @@ function printRequirements() {
 					echo -n " ||";
 				fi;
 				if $first; then
-					echo -n " t != (s.$(getName "$r") == nil)";
+					echo -n " t != ($(compareUnset "$(getName "$r")" "=="))";
 					second=true;
 				else
-					echo -n " t := s.$(getName "$r") == nil;";
+					echo -n " t := $(compareUnset "$(getName "$r")" "==");";
 					first=true;
 				fi;
 			done;
@@ -45,7 +57,7 @@ function printRequirements() {
 					echo -n " &&";
 				fi;
 				first=true;
-				echo -n " s.$(getName "$r") == nil";
+				echo -n " $(compareUnset "$(getName "$r")" "==")";
 			done;
 		elif [ "$typ" = "ONE" ]; then
 			for r in ${reqs[@]}; do
@@ -53,7 +65,7 @@ function printRequirements() {
 					echo -n " &&";
 				fi;
 				first=true;
-				echo -n " s.$(getName "$r") != nil";
+				echo -n " $(compareUnset "$(getName "$r")" "!=")";
 			done;
 		elif [ "$typ" = "ERGO" ]; then
 			for r in ${reqs[@]}; do
@@ -61,10 +73,10 @@ function printRequirements() {
 					echo -n " || ";
 				fi;
 				if $first; then
-					echo -n "s.$(getName "$r") == nil";
+					echo -n "$(compareUnset "$(getName "$r")" "==")";
 					second=true;
 				else
-					echo -n " s.$(getName "$r") != nil && (";
+					echo -n " $(compareUnset "$(getName "$r")" "!=") && (";
 					first=true;
 				fi;
 			done;
diff --git a/sections.go b/sections.go
index da948eb..455bdf1 100644
--- a/sections.go
+++ b/sections.go
@@ -2443,7 +2443,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cTimezone, ErrMissingRequired)
 	}
 
-	if s.Standard == nil && s.Daylight == nil {
+	if len(s.Standard) == 0 && len(s.Daylight) == 0 {
 		return fmt.Errorf(errDecodingType, cTimezone, ErrRequirementNotMet)
 	}
 
@@ -2502,7 +2502,7 @@ func (s *Timezone) valid() error {
 		}
 	}
 
-	if s.Standard == nil && s.Daylight == nil {
+	if len(s.Standard) == 0 && len(s.Daylight) == 0 {
 		return fmt.Errorf(errValidatingType, cTimezone, ErrRequirementNotMet)
 	}
 
@@ -3042,7 +3042,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmAudio, ErrMissingRequired)
 	}
 
-	if s.GeoLocation != nil && (s.Proximity == nil) {
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmAudio, ErrRequirementNotMet)
 	}
 
@@ -3179,7 +3179,7 @@ func (s *AlarmAudio) valid() error {
 		}
 	}
 
-	if s.GeoLocation != nil && (s.Proximity == nil) {
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
 		return fmt.Errorf(errValidatingType, cAlarmAudio, ErrRequirementNotMet)
 	}
 
@@ -3363,7 +3363,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmDisplay, ErrMissingRequired)
 	}
 
-	if s.GeoLocation != nil && (s.Proximity == nil) {
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmDisplay, ErrRequirementNotMet)
 	}
 
@@ -3495,7 +3495,7 @@ func (s *AlarmDisplay) valid() error {
 		}
 	}
 
-	if s.GeoLocation != nil && (s.Proximity == nil) {
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
 		return fmt.Errorf(errValidatingType, cAlarmDisplay, ErrRequirementNotMet)
 	}
 
@@ -3701,7 +3701,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmEmail, ErrMissingRequired)
 	}
 
-	if s.GeoLocation != nil && (s.Proximity == nil) {
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmEmail, ErrRequirementNotMet)
 	}
 
@@ -3852,7 +3852,7 @@ func (s *AlarmEmail) valid() error {
 		}
 	}
 
-	if s.GeoLocation != nil && (s.Proximity == nil) {
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
 		return fmt.Errorf(errValidatingType, cAlarmEmail, ErrRequirementNotMet)
 	}
 
@@ -4029,7 +4029,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmURI, ErrMissingRequired)
 	}
 
-	if s.GeoLocation != nil && (s.Proximity == nil) {
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmURI, ErrRequirementNotMet)
 	}
 
@@ -4160,7 +4160,7 @@ func (s *AlarmURI) valid() error {
 		}
 	}
 
-	if s.GeoLocation != nil && (s.Proximity == nil) {
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
 		return fmt.Errorf(errValidatingType, cAlarmURI, ErrRequirementNotMet)
 	}
 
-- 
2.43.0


From 3640dfc056c01a230a7243cf3a15cd3517d503ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:06:25 +0000
Subject: [PATCH 15/26] fix: skip unknown components of any depth and letter
 case

A nested unknown component with a lower case name was refused, and deep
nesting used up the stack because skipping called itself.
---
 genSections.sh | 16 +++++++++-------
 sections.go    | 16 +++++++++-------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/genSections.sh b/genSections.sh
index 4bc3957..3809bd9 100755
--- a/genSections.sh
+++ b/genSections.sh
@@ -451,7 +451,9 @@ OFS="$IFS";
 	cat <<HEREDOC
 // decodeDummy reads unknown sections, discarding the data.
 func decodeDummy(t tokeniser, n string) error {
-	for {
+	open := []string{n}
+
+	for len(open) > 0 {
 		p, err := t.GetPhrase()
 		if err != nil {
 			return err
@@ -461,17 +463,17 @@ func decodeDummy(t tokeniser, n string) error {
 
 		switch strings.ToUpper(p.Data[0].Data) {
 		case "BEGIN":
-			if err := decodeDummy(t, p.Data[len(p.Data)-1].Data); err != nil {
-				return err
-			}
+			open = append(open, strings.ToUpper(p.Data[len(p.Data)-1].Data))
 		case "END":
-			if strings.ToUpper(p.Data[len(p.Data)-1].Data) == n {
-				return nil
+			if strings.ToUpper(p.Data[len(p.Data)-1].Data) != open[len(open)-1] {
+				return ErrInvalidEnd
 			}
 
-			return ErrInvalidEnd
+			open = open[:len(open)-1]
 		}
 	}
+
+	return nil
 }
 
 // Errors.
diff --git a/sections.go b/sections.go
index 455bdf1..f9b8473 100644
--- a/sections.go
+++ b/sections.go
@@ -4214,7 +4214,9 @@ func (s *AlarmNone) valid() error {
 
 // decodeDummy reads unknown sections, discarding the data.
 func decodeDummy(t tokeniser, n string) error {
-	for {
+	open := []string{n}
+
+	for len(open) > 0 {
 		p, err := t.GetPhrase()
 		if err != nil {
 			return err
@@ -4224,17 +4226,17 @@ func decodeDummy(t tokeniser, n string) error {
 
 		switch strings.ToUpper(p.Data[0].Data) {
 		case "BEGIN":
-			if err := decodeDummy(t, p.Data[len(p.Data)-1].Data); err != nil {
-				return err
-			}
+			open = append(open, strings.ToUpper(p.Data[len(p.Data)-1].Data))
 		case "END":
-			if strings.ToUpper(p.Data[len(p.Data)-1].Data) == n {
-				return nil
+			if strings.ToUpper(p.Data[len(p.Data)-1].Data) != open[len(open)-1] {
+				return ErrInvalidEnd
 			}
 
-			return ErrInvalidEnd
+			open = open[:len(open)-1]
 		}
 	}
+
+	return nil
 }
 
 // Errors.
-- 
2.43.0


From 9bbfe81532f793b6601871c2f4e4e56d994c69a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:06:30 +0000
Subject: [PATCH 16/26] fix: match the end of a component in any letter case

---
 genSections.sh |  4 ++--
 sections.go    | 26 +++++++++++++-------------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/genSections.sh b/genSections.sh
index 3809bd9..4683059 100755
--- a/genSections.sh
+++ b/genSections.sh
@@ -262,9 +262,9 @@ function printSection() {
 	done;
 	echo "		case \"END\":";
 	if [ "${sectionName:0:6}" = "VALARM" ]; then
-		echo "			if value != \"VALARM\" {";
+		echo "			if strings.ToUpper(value) != \"VALARM\" {";
 	else
-		echo "			if value != \"$sectionName\" {";
+		echo "			if strings.ToUpper(value) != \"$sectionName\" {";
 	fi;
 	echo "				return fmt.Errorf(errDecodingType, c$sName, ErrInvalidEnd)";
 	echo "			}";
diff --git a/sections.go b/sections.go
index f9b8473..85af7e9 100644
--- a/sections.go
+++ b/sections.go
@@ -106,7 +106,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cCalendar, cProductID, err)
 			}
 		case "END":
-			if value != "VCALENDAR" {
+			if strings.ToUpper(value) != "VCALENDAR" {
 				return fmt.Errorf(errDecodingType, cCalendar, ErrInvalidEnd)
 			}
 
@@ -538,7 +538,7 @@ Loop:
 
 			s.RecurrenceDateTimes = append(s.RecurrenceDateTimes, e)
 		case "END":
-			if value != "VEVENT" {
+			if strings.ToUpper(value) != "VEVENT" {
 				return fmt.Errorf(errDecodingType, cEvent, ErrInvalidEnd)
 			}
 
@@ -1218,7 +1218,7 @@ Loop:
 
 			s.RecurrenceDateTimes = append(s.RecurrenceDateTimes, e)
 		case "END":
-			if value != "VTODO" {
+			if strings.ToUpper(value) != "VTODO" {
 				return fmt.Errorf(errDecodingType, cTodo, ErrInvalidEnd)
 			}
 
@@ -1829,7 +1829,7 @@ Loop:
 
 			s.RecurrenceDateTimes = append(s.RecurrenceDateTimes, e)
 		case "END":
-			if value != "VJOURNAL" {
+			if strings.ToUpper(value) != "VJOURNAL" {
 				return fmt.Errorf(errDecodingType, cJournal, ErrInvalidEnd)
 			}
 
@@ -2227,7 +2227,7 @@ Loop:
 
 			s.RequestStatus = append(s.RequestStatus, e)
 		case "END":
-			if value != "VFREEBUSY" {
+			if strings.ToUpper(value) != "VFREEBUSY" {
 				return fmt.Errorf(errDecodingType, cFreeBusy, ErrInvalidEnd)
 			}
 
@@ -2431,7 +2431,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cTimezone, cTimezoneURL, err)
 			}
 		case "END":
-			if value != "VTIMEZONE" {
+			if strings.ToUpper(value) != "VTIMEZONE" {
 				return fmt.Errorf(errDecodingType, cTimezone, ErrInvalidEnd)
 			}
 
@@ -2608,7 +2608,7 @@ Loop:
 
 			s.TimezoneName = append(s.TimezoneName, e)
 		case "END":
-			if value != "STANDARD" {
+			if strings.ToUpper(value) != "STANDARD" {
 				return fmt.Errorf(errDecodingType, cStandard, ErrInvalidEnd)
 			}
 
@@ -2787,7 +2787,7 @@ Loop:
 
 			s.TimezoneName = append(s.TimezoneName, e)
 		case "END":
-			if value != "DAYLIGHT" {
+			if strings.ToUpper(value) != "DAYLIGHT" {
 				return fmt.Errorf(errDecodingType, cDaylight, ErrInvalidEnd)
 			}
 
@@ -3030,7 +3030,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cAlarmAudio, cDefaultAlarm, err)
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmAudio, ErrInvalidEnd)
 			}
 
@@ -3351,7 +3351,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cAlarmDisplay, cDefaultAlarm, err)
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmDisplay, ErrInvalidEnd)
 			}
 
@@ -3689,7 +3689,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cAlarmEmail, cDefaultAlarm, err)
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmEmail, ErrInvalidEnd)
 			}
 
@@ -4017,7 +4017,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cAlarmURI, cDefaultAlarm, err)
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmURI, ErrInvalidEnd)
 			}
 
@@ -4195,7 +4195,7 @@ Loop:
 				}
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmNone, ErrInvalidEnd)
 			}
 
-- 
2.43.0


From 61dda60e5a3713bf18f48cffb75232930bac6d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:06:31 +0000
Subject: [PATCH 17/26] fix: recognise alarm lines and actions in any letter
 case

---
 sections_alarm.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sections_alarm.go b/sections_alarm.go
index ec8cd84..97f4f02 100644
--- a/sections_alarm.go
+++ b/sections_alarm.go
@@ -3,6 +3,7 @@ package ics
 import (
 	"errors"
 	"io"
+	"strings"
 
 	"vimagination.zapto.org/parser"
 )
@@ -49,7 +50,7 @@ Loop:
 
 		pt = append(pt, ph)
 
-		switch ph.Data[0].Data {
+		switch strings.ToUpper(ph.Data[0].Data) {
 		case "BEGIN":
 			return ErrInvalidStructure
 		case "ACTION":
@@ -57,7 +58,7 @@ Loop:
 				return ErrInvalidStructure
 			}
 
-			switch ph.Data[len(ph.Data)-1].Data {
+			switch strings.ToUpper(ph.Data[len(ph.Data)-1].Data) {
 			case "AUDIO":
 				a.AlarmType = new(AlarmAudio)
 			case "DISPLAY":
-- 
2.43.0


From 387937ddb18c8424bb60d52e5b9817f14018dd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:07:06 +0000
Subject: [PATCH 18/26] fix: refuse to write addresses that cannot be read back

A line break in a URI or calendar address ended the content line and could
start a new property.
---
 types.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index 5ccee79..10e44b9 100644
--- a/types.go
+++ b/types.go
@@ -111,7 +111,11 @@ func (c CalendarAddress) encode(w writer) {
 	w.WriteString(c.URL.String())
 }
 
-func (CalendarAddress) valid() error {
+func (c CalendarAddress) valid() error {
+	if _, err := url.Parse(c.URL.String()); err != nil {
+		return fmt.Errorf("error validating CalendarAddress: %w", err)
+	}
+
 	return nil
 }
 
@@ -1465,7 +1469,11 @@ func (u URI) encode(w writer) {
 	w.WriteString(u.URL.String())
 }
 
-func (URI) valid() error {
+func (u URI) valid() error {
+	if _, err := url.Parse(u.URL.String()); err != nil {
+		return fmt.Errorf("error validating URI: %w", err)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 814b56b6e6e1520b62d5ed1610821fe0aa5c80d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:07:07 +0000
Subject: [PATCH 19/26] fix: reject durations mixing weeks with other units

Such a duration has no written form; everything but the weeks was dropped.
---
 types.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index 10e44b9..224d460 100644
--- a/types.go
+++ b/types.go
@@ -395,7 +395,11 @@ func (d Duration) encode(w writer) {
 	w.Write(data)
 }
 
-func (Duration) valid() error {
+func (d Duration) valid() error {
+	if d.Weeks != 0 && (d.Days != 0 || d.Hours != 0 || d.Minutes != 0 || d.Seconds != 0) {
+		return ErrInvalidDuration
+	}
+
 	return nil
 }
 
@@ -555,7 +559,7 @@ func (p Period) valid() error {
 	if p.Start.IsZero() {
 		return ErrInvalidPeriodStart
 	} else if p.End.IsZero() {
-		if p.Duration.Negative {
+		if p.Duration.Negative || p.Duration.valid() != nil {
 			return ErrInvalidPeriodDuration
 		}
 	} else if !p.End.After(p.Start.Time) || p.Start.Location() != p.End.Location() {
-- 
2.43.0


From 3df86346c2dab2ad31a334141b83eff855341dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:07:08 +0000
Subject: [PATCH 20/26] fix: reject UTC offsets of 100 hours or more

The hours have two digits, so larger offsets were written as another offset.
---
 types.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 224d460..2b0e9ff 100644
--- a/types.go
+++ b/types.go
@@ -1577,7 +1577,11 @@ func (u UTCOffset) encode(w writer) {
 	w.Write(b)
 }
 
-func (UTCOffset) valid() error {
+func (u UTCOffset) valid() error {
+	if u <= -360000 || u >= 360000 {
+		return ErrInvalidOffset
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 4aaa7f3b9c68777ee71be4bedf9a417e86576b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:07:09 +0000
Subject: [PATCH 21/26] fix: reject recurrence rules with both a count and an
 end

The two exclude each other; the end was silently dropped on writing.
---
 types.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types.go b/types.go
index 2b0e9ff..2fe633f 100644
--- a/types.go
+++ b/types.go
@@ -1175,6 +1175,10 @@ func (r *Recur) valid() error {
 		return ErrInvalidRecurFrequency
 	}
 
+	if r.Count != 0 && !r.Until.IsZero() {
+		return ErrInvalidRecur
+	}
+
 	for _, second := range r.BySecond {
 		if second > 60 {
 			return ErrInvalidRecurBySecond
-- 
2.43.0


From 72406adb764d8c189bb71c5136fe728b41eaa150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:07:10 +0000
Subject: [PATCH 22/26] fix: reject times outside the years 0 to 9999

They were written with a wrong number of digits and could not be read back.
---
 types.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/types.go b/types.go
index 2fe633f..b58777e 100644
--- a/types.go
+++ b/types.go
@@ -147,7 +147,7 @@ func (d Date) encode(w writer) {
 }
 
 func (d Date) valid() error {
-	if d.IsZero() {
+	if d.IsZero() || !validTime(d.Time) {
 		return ErrInvalidTime
 	}
 
@@ -213,7 +213,7 @@ func (d DateTime) encode(w writer) {
 }
 
 func (d DateTime) valid() error {
-	if d.IsZero() {
+	if d.IsZero() || !validTime(d.Time) {
 		return ErrInvalidTime
 	}
 
@@ -556,13 +556,13 @@ func (p Period) encode(w writer) {
 }
 
 func (p Period) valid() error {
-	if p.Start.IsZero() {
+	if p.Start.IsZero() || !validTime(p.Start.Time) {
 		return ErrInvalidPeriodStart
 	} else if p.End.IsZero() {
 		if p.Duration.Negative || p.Duration.valid() != nil {
 			return ErrInvalidPeriodDuration
 		}
-	} else if !p.End.After(p.Start.Time) || p.Start.Location() != p.End.Location() {
+	} else if !p.End.After(p.Start.Time) || !validTime(p.End.Time) || p.Start.Location() != p.End.Location() {
 		return ErrInvalidPeriodEnd
 	}
 
@@ -1179,6 +1179,10 @@ func (r *Recur) valid() error {
 		return ErrInvalidRecur
 	}
 
+	if !validTime(r.Until) {
+		return ErrInvalidTime
+	}
+
 	for _, second := range r.BySecond {
 		if second > 60 {
 			return ErrInvalidRecurBySecond
@@ -1445,7 +1449,7 @@ func (t Time) encode(w writer) {
 }
 
 func (t Time) valid() error {
-	if t.IsZero() {
+	if t.IsZero() || !validTime(t.Time) {
 		return ErrInvalidTime
 	}
 
@@ -1598,6 +1602,13 @@ func writeTimezone(w writer, t time.Time) {
 	}
 }
 
+// validTime returns whether the time has a written form; years have four digits.
+func validTime(t time.Time) bool {
+	year := t.Year()
+
+	return year >= 0 && year <= 9999
+}
+
 // Errors.
 var (
 	ErrInvalidEncoding        = errors.New("invalid Binary encoding")
-- 
2.43.0


From a409c00989451b183497d5f4c696527e2e0a656a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:07:11 +0000
Subject: [PATCH 23/26] fix: reject time zone names that break the content line

A zone name is written as it is, so one with a line break, colon or quote
changed the meaning of the rest of the line.
---
 types.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index b58777e..05d0bf4 100644
--- a/types.go
+++ b/types.go
@@ -1602,11 +1602,12 @@ func writeTimezone(w writer, t time.Time) {
 	}
 }
 
-// validTime returns whether the time has a written form; years have four digits.
+// validTime returns whether the time has a written form; years have four digits
+// and zone names are written without quotes.
 func validTime(t time.Time) bool {
 	year := t.Year()
 
-	return year >= 0 && year <= 9999
+	return year >= 0 && year <= 9999 && !strings.ContainsAny(t.Location().String(), nonsafeChars)
 }
 
 // Errors.
-- 
2.43.0


From 042c2ab3abfe82991815e2fc81c27b38373ce894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:07:12 +0000
Subject: [PATCH 24/26] fix: compare the zones of a period by name

Both ends of a period read from a file have the same zone loaded twice, so
such a period could not be written again.
---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 05d0bf4..ef0731f 100644
--- a/types.go
+++ b/types.go
@@ -562,7 +562,7 @@ func (p Period) valid() error {
 		if p.Duration.Negative || p.Duration.valid() != nil {
 			return ErrInvalidPeriodDuration
 		}
-	} else if !p.End.After(p.Start.Time) || !validTime(p.End.Time) || p.Start.Location() != p.End.Location() {
+	} else if !p.End.After(p.Start.Time) || !validTime(p.End.Time) || p.Start.Location().String() != p.End.Location().String() {
 		return ErrInvalidPeriodEnd
 	}
 
-- 
2.43.0


From f09ea417c477835d918f815ed64d06d83da43f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:07:13 +0000
Subject: [PATCH 25/26] fix: keep a trailing backslash in text as it is

A replacement character was added after it.
---
 types.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/types.go b/types.go
index ef0731f..f5fb230 100644
--- a/types.go
+++ b/types.go
@@ -1290,6 +1290,8 @@ Loop:
 				d = append(d, ',')
 			case 'N', 'n':
 				d = append(d, '\n')
+			case -1:
+				d = append(d, '\\')
 			default:
 				d = append(d, '\\')
 				l := utf8.EncodeRune(ru[:], c)
-- 
2.43.0


From 87207d013a296ec94716bdf828da4095dc65f024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:08:09 +0000
Subject: [PATCH 26/26] fix: reject addresses containing control characters

The text after a # in the opaque part or query of an address is not looked at
when the address is parsed, so a line break there was written to the output
and could start another content line.
---
 types.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index f5fb230..b73868f 100644
--- a/types.go
+++ b/types.go
@@ -112,10 +112,16 @@ func (c CalendarAddress) encode(w writer) {
 }
 
 func (c CalendarAddress) valid() error {
-	if _, err := url.Parse(c.URL.String()); err != nil {
+	data := c.URL.String()
+
+	if _, err := url.Parse(data); err != nil {
 		return fmt.Errorf("error validating CalendarAddress: %w", err)
 	}
 
+	if strings.ContainsAny(data, nonsafeChars[:32]) {
+		return fmt.Errorf("error validating CalendarAddress: %w", ErrInvalidText)
+	}
+
 	return nil
 }
 
@@ -1484,10 +1490,16 @@ func (u URI) encode(w writer) {
 }
 
 func (u URI) valid() error {
-	if _, err := url.Parse(u.URL.String()); err != nil {
+	data := u.URL.String()
+
+	if _, err := url.Parse(data); err != nil {
 		return fmt.Errorf("error validating URI: %w", err)
 	}
 
+	if strings.ContainsAny(data, nonsafeChars[:32]) {
+		return fmt.Errorf("error validating URI: %w", ErrInvalidText)
+	}
+
 	return nil
 }
 
-- 
2.43.0


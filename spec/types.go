package ics

import (
	"encoding/base64"
	"math"
	"net/url"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

// ---- Binary

//verif:enc Binary.encode
func vEncBinary(b Binary) string { return base64.StdEncoding.EncodeToString(b) }

//verif:dec Binary.decode
func vDecBinary(b Binary, params map[string]string, data string) (Binary, bool) {
	if params["ENCODING"] != "BASE64" {
		return b, false
	}

	v, err := base64.StdEncoding.DecodeString(data)

	return v, err == nil
}

//verif:chk Binary.valid
func vValBinary(b Binary) bool { return true }

// ---- Boolean

//verif:enc Boolean.encode
func vEncBoolean(b Boolean) string {
	if b {
		return "TRUE"
	}

	return "FALSE"
}

//verif:dec Boolean.decode
func vDecBoolean(b Boolean, params map[string]string, data string) (Boolean, bool) {
	v, err := strconv.ParseBool(data)

	return Boolean(v), err == nil
}

//verif:chk Boolean.valid
func vValBoolean(b Boolean) bool { return true }

// ---- CalendarAddress and URI

//verif:enc CalendarAddress.encode
func vEncCalendarAddress(c CalendarAddress) string { return c.URL.String() }

//verif:dec CalendarAddress.decode
func vDecCalendarAddress(c CalendarAddress, params map[string]string, data string) (CalendarAddress, bool) {
	u, err := url.Parse(data)
	if err != nil {
		return c, false
	}

	return CalendarAddress{URL: *u}, true
}

//verif:chk CalendarAddress.valid
func vValCalendarAddress(c CalendarAddress) bool {
	_, err := url.Parse(c.URL.String())

	return err == nil && !strings.ContainsAny(c.URL.String(), vControls+"\n")
}

//verif:enc URI.encode
func vEncURI(c URI) string { return c.URL.String() }

//verif:dec URI.decode
func vDecURI(c URI, params map[string]string, data string) (URI, bool) {
	u, err := url.Parse(data)
	if err != nil {
		return c, false
	}

	return URI{URL: *u}, true
}

//verif:chk URI.valid
func vValURI(c URI) bool {
	_, err := url.Parse(c.URL.String())

	return err == nil && !strings.ContainsAny(c.URL.String(), vControls+"\n")
}

// ---- dates and times

// vTimeOK: the time has a written form, four digits for the year and a zone
// name needing no quotes.
func vTimeOK(t time.Time) bool {
	return t.Year() >= 0 && t.Year() <= 9999 && !strings.ContainsAny(t.Location().String(), vControls+"\n\";:,")
}

func vZone(t time.Time) string {
	if t.Location() == time.UTC || t.Location() == time.Local {
		return ""
	}

	return ";TZID=" + t.Location().String()
}

//verif:enc Date.encode
func vEncDate(d Date) string { return d.Time.Format("20060102") }

//verif:dec Date.decode
func vDecDate(d Date, params map[string]string, data string) (Date, bool) {
	t, err := time.Parse("20060102", data)

	return Date{Time: t}, err == nil
}

//verif:chk Date.valid
func vValDate(d Date) bool { return !d.Time.IsZero() && vTimeOK(d.Time) }

//verif:enc DateTime.encode
func vEncDateTime(d DateTime) string {
	if d.Time.Location() == time.UTC {
		return d.Time.Format("20060102T150405Z")
	}

	return d.Time.Format("20060102T150405")
}

//verif:dec DateTime.decode
func vDecDateTime(d DateTime, params map[string]string, data string) (DateTime, bool) {
	if tz, ok := params["TZID"]; ok {
		l, err := time.LoadLocation(tz)
		if err != nil {
			return d, false
		}

		t, err := time.ParseInLocation("20060102T150405", data, l)

		return DateTime{Time: t}, err == nil
	}

	if len(data) > 0 && data[len(data)-1] == 'Z' {
		t, err := time.ParseInLocation("20060102T150405Z", data, time.UTC)

		return DateTime{Time: t}, err == nil
	}

	t, err := time.ParseInLocation("20060102T150405", data, time.Local)

	return DateTime{Time: t}, err == nil
}

//verif:chk DateTime.valid
func vValDateTime(d DateTime) bool { return !d.Time.IsZero() && vTimeOK(d.Time) }

//verif:enc Time.encode
func vEncTime(d Time) string {
	if d.Time.Location() == time.UTC {
		return d.Time.Format("150405Z")
	}

	return d.Time.Format("150405")
}

//verif:dec Time.decode
func vDecTime(d Time, params map[string]string, data string) (Time, bool) {
	if tz, ok := params["TZID"]; ok {
		l, err := time.LoadLocation(tz)
		if err != nil {
			return d, false
		}

		t, err := time.ParseInLocation("150405", data, l)

		return Time{Time: t}, err == nil
	}

	if len(data) > 0 && data[len(data)-1] == 'Z' {
		t, err := time.ParseInLocation("150405Z", data, time.UTC)

		return Time{Time: t}, err == nil
	}

	t, err := time.ParseInLocation("150405", data, time.Local)

	return Time{Time: t}, err == nil
}

//verif:chk Time.valid
func vValTime(d Time) bool { return !d.Time.IsZero() && vTimeOK(d.Time) }

// ---- Duration

//verif:fun itoa unroll=1 nil=any expand=1
func vItoa(n uint) []byte { return []byte(vDec(uint64(n))) }

func vUnit(n uint, unit string) string { return vDec(uint64(n)) + unit }

// vTimeOfDay is the part of a duration after T.
func vTimeOfDay(d Duration) string {
	s := ""

	if d.Hours != 0 {
		s += vUnit(d.Hours, "H")
	}

	if d.Minutes != 0 || d.Hours != 0 && d.Seconds != 0 {
		s += vUnit(d.Minutes, "M")
	}

	if d.Seconds != 0 || d.Hours == 0 && d.Minutes == 0 {
		s += vUnit(d.Seconds, "S")
	}

	return s
}

//verif:enc Duration.encode
func vEncDuration(d Duration) string {
	s := "P"

	if d.Negative {
		s = "-P"
	}

	if d.Weeks != 0 {
		return s + vUnit(d.Weeks, "W")
	}

	if d.Days != 0 {
		s += vUnit(d.Days, "D")

		if d.Hours == 0 && d.Minutes == 0 && d.Seconds == 0 {
			return s
		}
	}

	return s + "T" + vTimeOfDay(d)
}

// vDurParts reads the parts after P; level is the smallest unit already seen.
func vDurParts(d Duration, level uint8, s string) (Duration, bool) {
	if s == "" {
		return d, level != 0
	}

	if s[0] == 'T' {
		level = 1
		s = s[1:]
	}

	n := vAcceptN(s, "0123456789")
	v, err := strconv.ParseUint(s[:n], 10, 0)

	if err != nil || n == len(s) {
		return d, false
	}

	u, rest := s[n], s[n+1:]

	switch {
	case u == 'W' && level == 0:
		d.Weeks = uint(v)

		return d, rest == ""
	case u == 'D' && level == 0:
		d.Days = uint(v)

		return vDurParts(d, 1, rest)
	case u == 'H' && level <= 1:
		d.Hours = uint(v)

		return vDurParts(d, 2, rest)
	case u == 'M' && level <= 2:
		d.Minutes = uint(v)

		return vDurParts(d, 3, rest)
	case u == 'S' && level <= 3:
		d.Seconds = uint(v)

		return d, level != 0 && rest == ""
	}

	return d, false
}

//verif:dec Duration.decode
func vDecDuration(d Duration, params map[string]string, data string) (Duration, bool) {
	if data != "" && data[0] == '-' {
		d.Negative = true
		data = data[1:]
	} else if data != "" && data[0] == '+' {
		data = data[1:]
	}

	if data == "" || data[0] != 'P' {
		return d, false
	}

	return vDurParts(d, 0, data[1:])
}

//verif:chk Duration.valid
func vValDuration(d Duration) bool {
	return d.Weeks == 0 || d.Days == 0 && d.Hours == 0 && d.Minutes == 0 && d.Seconds == 0
}

// ---- numbers

func vFinite(f float64) bool { return !math.IsNaN(f) && !math.IsInf(f, 0) }

func vFloat(f float64) string { return strconv.FormatFloat(f, 'f', -1, 64) }

//verif:enc Float.encode
func vEncFloat(f Float) string { return vFloat(float64(f)) }

//verif:dec Float.decode
func vDecFloat(f Float, params map[string]string, data string) (Float, bool) {
	v, err := strconv.ParseFloat(data, 64)

	return Float(v), err == nil
}

//verif:chk Float.valid
func vValFloat(f Float) bool { return vFinite(float64(f)) }

//verif:enc TFloat.encode
func vEncTFloat(t TFloat) string { return vFloat(t[0]) + ";" + vFloat(t[1]) }

//verif:dec TFloat.decode
func vDecTFloat(t TFloat, params map[string]string, data string) (TFloat, bool) {
	fs := strings.SplitN(data, ";", 2)
	if len(fs) != 2 {
		return t, false
	}

	a, err := strconv.ParseFloat(fs[0], 64)
	if err != nil {
		return t, false
	}

	b, err := strconv.ParseFloat(fs[1], 64)

	return TFloat{a, b}, err == nil
}

//verif:chk TFloat.valid
func vValTFloat(t TFloat) bool { return vFinite(t[0]) && vFinite(t[1]) }

//verif:enc Integer.encode
func vEncInteger(i Integer) string { return vDecInt(int64(i)) }

//verif:dec Integer.decode
func vDecInteger(i Integer, params map[string]string, data string) (Integer, bool) {
	v, err := strconv.ParseInt(data, 10, 32)

	return Integer(v), err == nil
}

//verif:chk Integer.valid
func vValInteger(i Integer) bool { return true }

func vTwo(n byte) string { return string([]byte{'0' + n/10, '0' + n%10}) }

// vEncUTCOffset: offsets of a hundred hours and more are rejected by
// validation, what would be written for them carries no meaning.
//
//verif:enc UTCOffset.encode
func vEncUTCOffset(u UTCOffset) string {
	n, sign := int(u), ""

	if n < 0 {
		n, sign = -n, "-"
	}

	h := byte(n / 60 / 60)

	if h > 99 {
		h = 0
	}

	s := sign + vTwo(h) + vTwo(byte(n/60%60))

	if sec := byte(n % 60); sec > 0 {
		s += vTwo(sec)
	}

	return s
}

func vDigit(c byte) bool { return c >= '0' && c <= '9' }

func vDigits2(s string) bool { return len(s) >= 2 && vDigit(s[0]) && vDigit(s[1]) }

//verif:dec UTCOffset.decode
func vDecUTCOffset(u UTCOffset, params map[string]string, data string) (UTCOffset, bool) {
	neg := false

	if data != "" && data[0] == '-' {
		neg = true
		data = data[1:]
	} else if data != "" && data[0] == '+' {
		data = data[1:]
	}

	if !vDigits2(data) || !vDigits2(data[2:]) {
		return u, false
	}

	h, _ := strconv.ParseInt(data[:2], 10, 32)
	m, _ := strconv.ParseInt(data[2:4], 10, 32)
	s := int64(0)

	if len(data) != 4 {
		if len(data) != 6 || !vDigits2(data[4:]) {
			return u, false
		}

		s, _ = strconv.ParseInt(data[4:], 10, 32)
	}

	o := h*3600 + m*60 + s

	if m >= 60 || s >= 60 || neg && o == 0 {
		return u, false
	}

	if neg {
		return UTCOffset(-o), true
	}

	return UTCOffset(o), true
}

//verif:chk UTCOffset.valid
func vValUTCOffset(u UTCOffset) bool { return u > -360000 && u < 360000 }

// ---- Period

//verif:enc Period.encode
func vEncPeriod(p Period) string {
	if p.End.Time.IsZero() {
		return vEncDateTime(p.Start) + "/" + vEncDuration(p.Duration)
	}

	return vEncDateTime(p.Start) + "/" + vEncDateTime(p.End)
}

//verif:dec Period.decode
func vDecPeriod(p Period, params map[string]string, data string) (Period, bool) {
	i := strings.IndexByte(data, '/')
	if i == -1 || i+1 == len(data) {
		return p, false
	}

	start, ok := vDecDateTime(p.Start, params, data[:i])
	if !ok {
		return p, false
	}

	if data[i+1] == 'P' || data[i+1] == '+' {
		d, ok := vDecDuration(p.Duration, params, data[i+1:])

		return Period{Start: start, End: p.End, Duration: d}, ok
	}

	end, ok := vDecDateTime(p.End, params, data[i+1:])

	return Period{Start: start, End: end, Duration: p.Duration}, ok
}

//verif:chk Period.valid
func vValPeriod(p Period) bool {
	if p.Start.Time.IsZero() || !vTimeOK(p.Start.Time) {
		return false
	}

	if p.End.Time.IsZero() {
		return !p.Duration.Negative && vValDuration(p.Duration)
	}

	return p.End.Time.After(p.Start.Time) && vTimeOK(p.End.Time) && p.Start.Time.Location().String() == p.End.Time.Location().String()
}

// ---- Text

//verif:fun decodeText
func vText(s string) (string, string) {
	n := vExceptN(s, "\\,;")
	if n == len(s) || s[n] != '\\' {
		return s[:n], s[n:]
	}

	if n+1 == len(s) {
		return s[:n] + "\\", ""
	}

	r, w := vFirst(s[n+1:])
	t, rest := vText(s[n+1+w:])

	switch r {
	case '\\', ';', ',':
		return s[:n] + string(r) + t, rest
	case 'n', 'N':
		return s[:n] + "\n" + t, rest
	}

	return s[:n] + "\\" + string(r) + t, rest
}

// vFirst is the first character of a text, where an octet which is not part of
// one stands for itself.
func vFirst(s string) (rune, int) {
	r, w := utf8.DecodeRuneInString(s)
	if r == utf8.RuneError && w == 1 {
		return rune(s[0]), w
	}

	return r, w
}

func vText_ensures(s string, t, rest string) bool { return len(rest) <= len(s) }

func vEscape(r rune) string {
	switch r {
	case '\\':
		return "\\\\"
	case '\n':
		return "\\n"
	case ';':
		return "\\;"
	case ',':
		return "\\,"
	}

	return string(r)
}

//verif:enc Text.encode
func vEncText(t Text) string {
	if t == "" {
		return ""
	}

	r, w := utf8.DecodeRuneInString(string(t))

	return vEscape(r) + vEncText(t[w:])
}

//verif:dec Text.decode
func vDecText(t Text, params map[string]string, data string) (Text, bool) {
	v, rest := vText(data)

	return Text(v), rest == ""
}

//verif:chk Text.valid
func vValText(t Text) bool { return !strings.ContainsAny(string(t), vControls) }

func vTextList(ts []Text, first bool) string {
	if len(ts) == 0 {
		return ""
	}

	if first {
		return vEncText(ts[0]) + vTextList(ts[1:], false)
	}

	return "," + vEncText(ts[0]) + vTextList(ts[1:], false)
}

//verif:enc MText.encode
func vEncMText(t MText) string { return vTextList(t, true) }

func vTexts(s string) ([]Text, bool) {
	t, rest := vText(s)

	if rest == "" {
		return []Text{Text(t)}, true
	}

	if rest[0] != ',' {
		return nil, false
	}

	ts, ok := vTexts(rest[1:])

	return append([]Text{Text(t)}, ts...), ok
}

//verif:dec MText.decode
func vDecMText(t MText, params map[string]string, data string) (MText, bool) {
	ts, ok := vTexts(data)

	return append(t, ts...), ok
}

func vAllText(ts []Text) bool { return len(ts) == 0 || vValText(ts[0]) && vAllText(ts[1:]) }

//verif:chk MText.valid
func vValMText(t MText) bool { return vAllText(t) }

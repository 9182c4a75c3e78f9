package ics

import (
	"time"
	"unicode/utf8"
)

// The grammar of the written text, one octet at a time: what the encoder
// writes for a valid value keeps to its own place in its own line.

// places in a content line.
const (
	vAtStart  = 0  // before a line
	vAtParam  = 2  // before a parameter name
	vInParam  = 3  // in a parameter name
	vInQuotes = 5  // in a quoted parameter value
	vInValue  = 7  // in the value
	vAtCR     = 8  // after the carriage return ending a line
	vAtEnd    = 9  // after a line
	vInName   = 10 // in the name of the property
	vAtPValue = 11 // before a parameter value
	vInPValue = 12 // in an unquoted parameter value
	vPQuoted  = 13 // after a quoted parameter value
	vBroken   = -1
)

func vControl(c byte) bool { return c < 0x20 && c != '\t' || c == 0x7f }

func vNameChar(c byte) bool {
	return c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-'
}

// vStep is the place after octet c at place q; many tells whether another
// line may follow the end of a line.
func vStep(many bool, q int, c byte) int {
	if q >= vInName {
		if c == ';' {
			return vAtParam
		}

		if c == ':' {
			return vInValue
		}

		if q == vInName {
			if vNameChar(c) {
				return q
			}

			return vBroken
		}

		if c == ',' {
			return vAtPValue
		}

		if c == '"' && q == vAtPValue {
			return vInQuotes
		}

		if c == '"' || q >= vPQuoted || vControl(c) {
			return vBroken
		}

		return vInPValue
	}

	if many && q == vAtEnd {
		q = vAtStart
	}

	switch q {
	case vAtStart:
		if vNameChar(c) {
			return vInName
		}
	case vAtParam:
		if vNameChar(c) {
			return vInParam
		}
	case vInParam:
		if vNameChar(c) {
			return vInParam
		}

		if c == '=' {
			return vAtPValue
		}
	case vInQuotes:
		if c == '"' {
			return vPQuoted
		}

		if !vControl(c) {
			return q
		}
	case vInValue:
		if c == '\r' {
			return vAtCR
		}

		if !vControl(c) {
			return q
		}
	case vAtCR:
		if c == '\n' {
			return vAtEnd
		}
	}

	return vBroken
}

// vRun is the place after text s at place q.
func vRun(many bool, q int, s string) int {
	if s == "" {
		return q
	}

	return vRun(many, vStep(many, q, s[0]), s[1:])
}

// vHas tells whether a character of set occurs in s.
func vHas(s, set string) bool {
	return s != "" && (vIn(s[0], set) || vHas(s[1:], set))
}

// Going through two texts in turn is going through the joined text.
//
//verif:lemma induct=a closed=vStep
func vLemmaRunSplit(many bool, q int, a, b string) bool {
	return vRun(many, q, a+b) == vRun(many, vRun(many, q, a), b)
}

func vLemmaRunSplit_proof(many bool, q int, a, b string) {
	if a == "" {
		return
	}

	vLemmaRunSplit(many, vStep(many, q, a[0]), a[1:], b)
}

// What does not occur in a text does not occur in its end.
//
//verif:lemma induct=a
func vLemmaHasEnd(a, b, set string) bool {
	return vHas(a+b, set) || !vHas(b, set)
}

func vLemmaHasEnd_proof(a, b, set string) {
	if a == "" {
		return
	}

	vLemmaHasEnd(a[1:], b, set)
}

//verif:lemma induct=s
func vLemmaHasFirst(s, set string) bool {
	return s == "" || vHas(s, set) || !vIn(s[0], set)
}

// A text without the characters that mean something at its place stays there.
//
//verif:lemma induct=s
func vLemmaRunFree(many bool, q int, s string) bool {
	if vHas(s, vControls) || vHas(s, "\n") {
		return true
	}

	if q == vInValue {
		return vRun(many, q, s) == q
	}

	if vHas(s, "\"") || vHas(s, ";:,") || q != vAtPValue && q != vInPValue {
		return true
	}

	r := vRun(many, q, s)

	return r == vAtPValue || r == vInPValue
}

func vLemmaRunFree_proof(many bool, q int, s string) {
	if s == "" {
		return
	}

	if q == vInValue {
		vLemmaRunFree(many, q, s[1:])

		return
	}

	vLemmaRunFree(many, vInPValue, s[1:])
}

// ---- what is written for values

//verif:line induct=s
func vCaretOct_line(s string, many bool, q int, r string) bool {
	if vHas(s, vControls) {
		return true
	}

	if q == vInQuotes {
		return vRun(many, q, r) == q
	}

	if vHas(s, "\"") || vHas(s, ";:,") || q != vAtPValue && q != vInPValue {
		return true
	}

	e := vRun(many, q, r)

	return e == vAtPValue || e == vInPValue
}

//verif:line as=vCaretOct
func vCaret_line(s string, many bool, q int, r string) bool {
	if vHas(s, vControls) {
		return true
	}

	if q == vInQuotes {
		return vRun(many, q, r) == q
	}

	if vHas(s, "\"") || vHas(s, ";:,") || q != vAtPValue && q != vInPValue {
		return true
	}

	e := vRun(many, q, r)

	return e == vAtPValue || e == vInPValue
}

func vCaret_hint(s string) { vLemmaCaretOct(s) }

func vParamText_line(s string, many bool, q int, r string) bool {
	return vHas(s, vControls) || q != vAtPValue || vRun(many, q, r) >= vInName
}

// vKeeps: the text stays in the value of its line.
func vKeeps(many bool, q int, r string) bool { return q != vInValue || vRun(many, q, r) == q }

func vDec_line(n uint64, many bool, q int, r string) bool { return vKeeps(many, q, r) }

func vEncText_line(t Text, many bool, q int, r string) bool {
	return !vValText(t) || vKeeps(many, q, r)
}

func vEncText_hint(t Text) {
	if t == "" {
		return
	}

	_, w := utf8.DecodeRuneInString(string(t))

	vLemmaHasFirst(string(t), vControls)
	vLemmaHasEnd(string(t[:w]), string(t[w:]), vControls)
}

//verif:line induct=ts
func vTextList_line(ts []Text, first bool, many bool, q int, r string) bool {
	return !vAllText(ts) || vKeeps(many, q, r)
}

func vEncMText_line(t MText, many bool, q int, r string) bool {
	return !vValMText(t) || vKeeps(many, q, r)
}

func vEncBinary_line(b Binary, many bool, q int, r string) bool { return vKeeps(many, q, r) }

func vEncBoolean_line(b Boolean, many bool, q int, r string) bool {
	return vKeeps(many, q, r) && (q != vAtPValue || vRun(many, q, r) >= vInName)
}

func vEncCalendarAddress_line(c CalendarAddress, many bool, q int, r string) bool {
	return !vValCalendarAddress(c) || vKeeps(many, q, r)
}

func vEncURI_line(c URI, many bool, q int, r string) bool {
	return !vValURI(c) || vKeeps(many, q, r)
}

func vEncDate_line(d Date, many bool, q int, r string) bool { return vKeeps(many, q, r) }

func vEncDateTime_line(d DateTime, many bool, q int, r string) bool { return vKeeps(many, q, r) }

func vEncTime_line(d Time, many bool, q int, r string) bool { return vKeeps(many, q, r) }

func vEncDuration_line(d Duration, many bool, q int, r string) bool { return vKeeps(many, q, r) }

func vEncFloat_line(f Float, many bool, q int, r string) bool { return vKeeps(many, q, r) }

func vEncTFloat_line(f TFloat, many bool, q int, r string) bool { return vKeeps(many, q, r) }

func vEncInteger_line(i Integer, many bool, q int, r string) bool { return vKeeps(many, q, r) }

func vEncUTCOffset_line(u UTCOffset, many bool, q int, r string) bool { return vKeeps(many, q, r) }

func vEncPeriod_line(p Period, many bool, q int, r string) bool { return vKeeps(many, q, r) }

func vZone_line(t time.Time, many bool, q int, r string) bool {
	return !vTimeOK(t) || q < vInName || vRun(many, q, r) >= vInName
}

//verif:line induct=l
func vEncCalAddrs_line(l []CalendarAddress, first bool, many bool, q int, r string) bool {
	if !vValCalAddrs(l) || first && q != vAtPValue || !first && q != vPQuoted {
		return true
	}

	return vRun(many, q, r) >= vInName
}

//verif:line induct=l
func vEncQuotedTexts_line(l []string, first bool, many bool, q int, r string) bool {
	if !vValQuotedTexts(l) || first && q != vAtPValue || !first && q != vPQuoted {
		return true
	}

	return vRun(many, q, r) >= vInName
}

//verif:line induct=l
func vEncDays_line(l []DayRecur, first bool, many bool, q int, r string) bool {
	return !vValDays(l) || vKeeps(many, q, r)
}

//verif:line induct=l
func vEncSeconds_line(l []uint8, first bool, many bool, q int, r string) bool {
	return vKeeps(many, q, r)
}

//verif:line induct=l
func vEncMinutes_line(l []uint8, first bool, many bool, q int, r string) bool {
	return vKeeps(many, q, r)
}

//verif:line induct=l
func vEncHours_line(l []uint8, first bool, many bool, q int, r string) bool {
	return vKeeps(many, q, r)
}

//verif:line induct=l
func vEncMonthDays_line(l []int8, first bool, many bool, q int, r string) bool {
	return vKeeps(many, q, r)
}

//verif:line induct=l
func vEncYearDays_line(l []int16, first bool, many bool, q int, r string) bool {
	return vKeeps(many, q, r)
}

//verif:line induct=l
func vEncWeeks_line(l []int8, first bool, many bool, q int, r string) bool { return vKeeps(many, q, r) }

//verif:line induct=l
func vEncMonths_line(l []Month, first bool, many bool, q int, r string) bool {
	return vKeeps(many, q, r)
}

//verif:line induct=l
func vEncSetPos_line(l []int16, first bool, many bool, q int, r string) bool {
	return vKeeps(many, q, r)
}

func vEncRecur_line(x Recur, many bool, q int, r string) bool {
	return !vValRecur(x) || vKeeps(many, q, r)
}

func vEncAlarm_line(a Alarm, many bool, q int, r string) bool {
	if !vValAlarm(a) || !many || q != vAtStart && q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

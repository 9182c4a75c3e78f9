package ics

import (
	"strconv"
	"strings"
)

// ---- recurrence rules

func vFreqName(f Frequency) string {
	switch f {
	case Minutely:
		return "MINUTELY"
	case Hourly:
		return "HOURLY"
	case Daily:
		return "DAILY"
	case Weekly:
		return "WEEKLY"
	case Monthly:
		return "MONTHLY"
	case Yearly:
		return "YEARLY"
	}

	return "SECONDLY"
}

func vFreq(s string) (Frequency, bool) {
	switch s {
	case "SECONDLY":
		return Secondly, true
	case "MINUTELY":
		return Minutely, true
	case "HOURLY":
		return Hourly, true
	case "DAILY":
		return Daily, true
	case "WEEKLY":
		return Weekly, true
	case "MONTHLY":
		return Monthly, true
	case "YEARLY":
		return Yearly, true
	}

	return Secondly, false
}

func vDayName(d WeekDay) string {
	switch d {
	case Sunday:
		return "SU"
	case Monday:
		return "MO"
	case Tuesday:
		return "TU"
	case Wednesday:
		return "WE"
	case Thursday:
		return "TH"
	case Friday:
		return "FR"
	case Saturday:
		return "SA"
	}

	return ""
}

func vWeekDay(s string) (WeekDay, bool) {
	switch s {
	case "SU":
		return Sunday, true
	case "MO":
		return Monday, true
	case "TU":
		return Tuesday, true
	case "WE":
		return Wednesday, true
	case "TH":
		return Thursday, true
	case "FR":
		return Friday, true
	case "SA":
		return Saturday, true
	}

	return UnknownDay, false
}

// vDayNum reads a day with an optional signed number of one or two digits.
func vDayNum(s string) (DayRecur, bool) {
	if len(s) < 2 {
		return DayRecur{}, false
	}

	neg := s[0] == '-'

	if neg || s[0] == '+' {
		s = s[1:]
	}

	if neg && len(s) < 2 {
		return DayRecur{}, false
	}

	n := int8(0)

	if vDigit(s[0]) {
		n = int8(s[0] - '0')
		s = s[1:]

		if s != "" && vDigit(s[0]) {
			n = n*10 + int8(s[0]-'0')
			s = s[1:]
		}

		if n == 0 || n > 53 {
			return DayRecur{}, false
		}

		if neg {
			n = -n
		}
	} else if neg {
		return DayRecur{}, false
	}

	d, ok := vWeekDay(s)

	return DayRecur{Day: d, Occurrence: n}, ok
}

func vDays(l []string) ([]DayRecur, bool) {
	if len(l) == 0 {
		return []DayRecur{}, true
	}

	d, ok := vDayNum(l[0])
	if !ok {
		return []DayRecur{}, false
	}

	ds, ok := vDays(l[1:])

	return append([]DayRecur{d}, ds...), ok
}

func vDayText(d DayRecur) string {
	if d.Occurrence == 0 {
		return vDayName(d.Day)
	}

	return vDecInt(int64(d.Occurrence)) + vDayName(d.Day)
}

func vEncDays(l []DayRecur, first bool) string {
	if len(l) == 0 {
		return ""
	}

	if first {
		return vDayText(l[0]) + vEncDays(l[1:], false)
	}

	return "," + vDayText(l[0]) + vEncDays(l[1:], false)
}

func vValDays(l []DayRecur) bool {
	if len(l) == 0 {
		return true
	}

	return l[0].Day >= Sunday && l[0].Day <= Saturday && l[0].Occurrence <= 53 && l[0].Occurrence >= -53 && vValDays(l[1:])
}

func vSeconds(l []string) ([]uint8, bool) {
	if len(l) == 0 {
		return []uint8{}, true
	}

	v, err := strconv.ParseUint(l[0], 10, 8)
	if err != nil || v > 60 {
		return []uint8{}, false
	}

	r, ok := vSeconds(l[1:])

	return append([]uint8{uint8(v)}, r...), ok
}

func vEncSeconds(l []uint8, first bool) string {
	if len(l) == 0 {
		return ""
	}

	if first {
		return vDec(uint64(l[0])) + vEncSeconds(l[1:], false)
	}

	return "," + vDec(uint64(l[0])) + vEncSeconds(l[1:], false)
}

func vValSeconds(l []uint8) bool {
	return len(l) == 0 || l[0] <= 60 && vValSeconds(l[1:])
}

func vMinutes(l []string) ([]uint8, bool) {
	if len(l) == 0 {
		return []uint8{}, true
	}

	v, err := strconv.ParseUint(l[0], 10, 8)
	if err != nil || v > 59 {
		return []uint8{}, false
	}

	r, ok := vMinutes(l[1:])

	return append([]uint8{uint8(v)}, r...), ok
}

func vEncMinutes(l []uint8, first bool) string {
	if len(l) == 0 {
		return ""
	}

	if first {
		return vDec(uint64(l[0])) + vEncMinutes(l[1:], false)
	}

	return "," + vDec(uint64(l[0])) + vEncMinutes(l[1:], false)
}

func vValMinutes(l []uint8) bool {
	return len(l) == 0 || l[0] <= 59 && vValMinutes(l[1:])
}

func vHours(l []string) ([]uint8, bool) {
	if len(l) == 0 {
		return []uint8{}, true
	}

	v, err := strconv.ParseUint(l[0], 10, 8)
	if err != nil || v > 23 {
		return []uint8{}, false
	}

	r, ok := vHours(l[1:])

	return append([]uint8{uint8(v)}, r...), ok
}

func vEncHours(l []uint8, first bool) string {
	if len(l) == 0 {
		return ""
	}

	if first {
		return vDec(uint64(l[0])) + vEncHours(l[1:], false)
	}

	return "," + vDec(uint64(l[0])) + vEncHours(l[1:], false)
}

func vValHours(l []uint8) bool {
	return len(l) == 0 || l[0] <= 23 && vValHours(l[1:])
}

func vMonthDays(l []string) ([]int8, bool) {
	if len(l) == 0 {
		return []int8{}, true
	}

	v, err := strconv.ParseInt(l[0], 10, 8)
	if err != nil || v == 0 || v < -31 || v > 31 {
		return []int8{}, false
	}

	r, ok := vMonthDays(l[1:])

	return append([]int8{int8(v)}, r...), ok
}

func vEncMonthDays(l []int8, first bool) string {
	if len(l) == 0 {
		return ""
	}

	if first {
		return vDecInt(int64(l[0])) + vEncMonthDays(l[1:], false)
	}

	return "," + vDecInt(int64(l[0])) + vEncMonthDays(l[1:], false)
}

func vValMonthDays(l []int8) bool {
	return len(l) == 0 || l[0] != 0 && l[0] >= -31 && l[0] <= 31 && vValMonthDays(l[1:])
}

func vYearDays(l []string) ([]int16, bool) {
	if len(l) == 0 {
		return []int16{}, true
	}

	v, err := strconv.ParseInt(l[0], 10, 16)
	if err != nil || v == 0 || v < -366 || v > 366 {
		return []int16{}, false
	}

	r, ok := vYearDays(l[1:])

	return append([]int16{int16(v)}, r...), ok
}

func vEncYearDays(l []int16, first bool) string {
	if len(l) == 0 {
		return ""
	}

	if first {
		return vDecInt(int64(l[0])) + vEncYearDays(l[1:], false)
	}

	return "," + vDecInt(int64(l[0])) + vEncYearDays(l[1:], false)
}

func vValYearDays(l []int16) bool {
	return len(l) == 0 || l[0] != 0 && l[0] >= -366 && l[0] <= 366 && vValYearDays(l[1:])
}

func vWeeks(l []string) ([]int8, bool) {
	if len(l) == 0 {
		return []int8{}, true
	}

	v, err := strconv.ParseInt(l[0], 10, 8)
	if err != nil || v == 0 || v < -53 || v > 53 {
		return []int8{}, false
	}

	r, ok := vWeeks(l[1:])

	return append([]int8{int8(v)}, r...), ok
}

func vEncWeeks(l []int8, first bool) string {
	if len(l) == 0 {
		return ""
	}

	if first {
		return vDecInt(int64(l[0])) + vEncWeeks(l[1:], false)
	}

	return "," + vDecInt(int64(l[0])) + vEncWeeks(l[1:], false)
}

func vValWeeks(l []int8) bool {
	return len(l) == 0 || l[0] != 0 && l[0] >= -53 && l[0] <= 53 && vValWeeks(l[1:])
}

func vMonths(l []string) ([]Month, bool) {
	if len(l) == 0 {
		return []Month{}, true
	}

	v, err := strconv.ParseUint(l[0], 10, 8)
	if err != nil || v < 1 || v > 12 {
		return []Month{}, false
	}

	r, ok := vMonths(l[1:])

	return append([]Month{Month(v)}, r...), ok
}

func vEncMonths(l []Month, first bool) string {
	if len(l) == 0 {
		return ""
	}

	if first {
		return vDec(uint64(l[0])) + vEncMonths(l[1:], false)
	}

	return "," + vDec(uint64(l[0])) + vEncMonths(l[1:], false)
}

func vValMonths(l []Month) bool {
	return len(l) == 0 || l[0] >= 1 && l[0] <= 12 && vValMonths(l[1:])
}

func vSetPos(l []string) ([]int16, bool) {
	if len(l) == 0 {
		return []int16{}, true
	}

	v, err := strconv.ParseInt(l[0], 10, 16)
	if err != nil || v == 0 || v < -366 || v > 366 {
		return []int16{}, false
	}

	r, ok := vSetPos(l[1:])

	return append([]int16{int16(v)}, r...), ok
}

func vEncSetPos(l []int16, first bool) string {
	if len(l) == 0 {
		return ""
	}

	if first {
		return vDecInt(int64(l[0])) + vEncSetPos(l[1:], false)
	}

	return "," + vDecInt(int64(l[0])) + vEncSetPos(l[1:], false)
}

func vValSetPos(l []int16) bool {
	return len(l) == 0 || l[0] != 0 && l[0] >= -366 && l[0] <= 366 && vValSetPos(l[1:])
}

// vRule applies one rule part; the second result tells the frequency.
func vRule(r Recur, params map[string]string, rule string) (Recur, bool, bool) {
	p := strings.SplitN(rule, "=", 2)
	if len(p) != 2 {
		return r, false, false
	}

	freq := false

	switch p[0] {
	case "FREQ":
		f, ok := vFreq(p[1])
		if !ok {
			return r, false, false
		}

		r.Frequency = f
		freq = true
	case "UNTIL":
		if r.Count > 0 {
			return r, false, false
		}

		if len(p[1]) > 10 {
			d, ok := vDecDateTime(DateTime{}, params, p[1])
			if !ok {
				return r, false, false
			}

			r.Until = d.Time
			r.UntilTime = true
		} else {
			d, ok := vDecDate(Date{}, params, p[1])
			if !ok {
				return r, false, false
			}

			r.Until = d.Time
			r.UntilTime = false
		}
	case "COUNT":
		n, err := strconv.ParseUint(p[1], 10, 64)
		if !r.Until.IsZero() || err != nil {
			return r, false, false
		}

		r.Count = n
	case "INTERVAL":
		n, err := strconv.ParseUint(p[1], 10, 64)
		if r.Interval > 0 || err != nil {
			return r, false, false
		}

		r.Interval = n
	case "BYSECOND":
		l, ok := vSeconds(strings.Split(p[1], ","))
		if r.BySecond != nil || !ok {
			return r, false, false
		}

		r.BySecond = l
	case "BYMINUTE":
		l, ok := vMinutes(strings.Split(p[1], ","))
		if r.ByMinute != nil || !ok {
			return r, false, false
		}

		r.ByMinute = l
	case "BYHOUR":
		l, ok := vHours(strings.Split(p[1], ","))
		if r.ByHour != nil || !ok {
			return r, false, false
		}

		r.ByHour = l
	case "BYDAY":
		l, ok := vDays(strings.Split(p[1], ","))
		if r.ByDay != nil || !ok {
			return r, false, false
		}

		r.ByDay = l
	case "BYMONTHDAY":
		l, ok := vMonthDays(strings.Split(p[1], ","))
		if r.ByMonthDay != nil || !ok {
			return r, false, false
		}

		r.ByMonthDay = l
	case "BYYEARDAY":
		l, ok := vYearDays(strings.Split(p[1], ","))
		if r.ByYearDay != nil || !ok {
			return r, false, false
		}

		r.ByYearDay = l
	case "BYWEEKNO":
		l, ok := vWeeks(strings.Split(p[1], ","))
		if r.ByWeekNum != nil || !ok {
			return r, false, false
		}

		r.ByWeekNum = l
	case "BYMONTH":
		l, ok := vMonths(strings.Split(p[1], ","))
		if r.ByMonth != nil || !ok {
			return r, false, false
		}

		r.ByMonth = l
	case "BYSETPOS":
		l, ok := vSetPos(strings.Split(p[1], ","))
		if r.BySetPos != nil || !ok {
			return r, false, false
		}

		r.BySetPos = l
	case "WKST":
		d, ok := vWeekDay(p[1])
		if r.WeekStart != UnknownDay || !ok {
			return r, false, false
		}

		r.WeekStart = d
	default:
		return r, false, false
	}

	return r, freq, true
}

func vRules(r Recur, freq bool, params map[string]string, rules []string) (Recur, bool) {
	if len(rules) == 0 {
		return r, freq
	}

	r, f, ok := vRule(r, params, rules[0])
	if !ok {
		return r, false
	}

	return vRules(r, freq || f, params, rules[1:])
}

//verif:dec Recur.decode
func vDecRecur(r Recur, params map[string]string, data string) (Recur, bool) {
	return vRules(r, false, params, strings.Split(data, ";"))
}

//verif:enc Recur.encode
func vEncRecur(r Recur) string {
	s := "FREQ=" + vFreqName(r.Frequency)

	if r.Count != 0 {
		s += ";COUNT=" + vDec(r.Count)
	} else if !r.Until.IsZero() {
		if r.UntilTime {
			s += ";UNTIL=" + vEncDateTime(DateTime{Time: r.Until})
		} else {
			s += ";UNTIL=" + vEncDate(Date{Time: r.Until})
		}
	}

	if r.Interval != 0 {
		s += ";INTERVAL=" + vDec(r.Interval)
	}

	if len(r.BySecond) > 0 {
		s += ";BYSECOND=" + vEncSeconds(r.BySecond, true)
	}

	if len(r.ByMinute) > 0 {
		s += ";BYMINUTE=" + vEncMinutes(r.ByMinute, true)
	}

	if len(r.ByHour) > 0 {
		s += ";BYHOUR=" + vEncHours(r.ByHour, true)
	}

	if len(r.ByDay) > 0 {
		s += ";BYDAY=" + vEncDays(r.ByDay, true)
	}

	if len(r.ByMonthDay) > 0 {
		s += ";BYMONTHDAY=" + vEncMonthDays(r.ByMonthDay, true)
	}

	if len(r.ByYearDay) > 0 {
		s += ";BYYEARDAY=" + vEncYearDays(r.ByYearDay, true)
	}

	if len(r.ByWeekNum) > 0 {
		s += ";BYWEEKNO=" + vEncWeeks(r.ByWeekNum, true)
	}

	if len(r.ByMonth) > 0 {
		s += ";BYMONTH=" + vEncMonths(r.ByMonth, true)
	}

	if len(r.BySetPos) > 0 {
		s += ";BYSETPOS=" + vEncSetPos(r.BySetPos, true)
	}

	if r.WeekStart != UnknownDay {
		s += ";WKST=" + vDayName(r.WeekStart)
	}

	return s
}

//verif:chk Recur.valid
func vValRecur(r Recur) bool {
	return r.Frequency <= Yearly &&
		(r.Count == 0 || r.Until.IsZero()) &&
		vTimeOK(r.Until) &&
		vValSeconds(r.BySecond) &&
		vValMinutes(r.ByMinute) &&
		vValHours(r.ByHour) &&
		vValDays(r.ByDay) &&
		vValMonthDays(r.ByMonthDay) &&
		vValYearDays(r.ByYearDay) &&
		vValWeeks(r.ByWeekNum) &&
		vValMonths(r.ByMonth) &&
		vValSetPos(r.BySetPos) &&
		r.WeekStart <= Saturday
}

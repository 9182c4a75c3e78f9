package ics

import (
	"strings"

	"vimagination.zapto.org/parser"
)

// vSkipTo reads on until every component in open is closed, innermost first.
func vSkipTo(lines []parser.Phrase, open []string) (bool, []parser.Phrase) {
	if len(open) == 0 {
		return true, lines
	}

	if len(lines) == 0 || len(lines[0].Data) < 2 {
		return false, lines
	}

	p := lines[0].Data
	value := strings.ToUpper(p[len(p)-1].Data)

	switch strings.ToUpper(p[0].Data) {
	case "BEGIN":
		open = append(open, value)
	case "END":
		if value != open[len(open)-1] {
			return false, lines
		}

		open = open[:len(open)-1]
	}

	return vSkipTo(lines[1:], open)
}

func vSkipTo_ensures(lines []parser.Phrase, open []string, ok bool, rest []parser.Phrase) bool {
	return !ok || len(rest) <= len(lines)
}

//verif:fun decodeDummy
func vSkip(lines []parser.Phrase, n string) (bool, []parser.Phrase) {
	return vSkipTo(lines, []string{n})
}

func vSkip_ensures(lines []parser.Phrase, n string, ok bool, rest []parser.Phrase) bool {
	return !ok || len(rest) <= len(lines)
}

// vAlarmLines collects the lines of an alarm up to its end and finds its kind.
func vAlarmLines(a AlarmType, lines []parser.Phrase) (AlarmType, []parser.Phrase, []parser.Phrase, bool) {
	if len(lines) == 0 || len(lines[0].Data) < 2 {
		return a, nil, lines, false
	}

	p := lines[0].Data

	switch strings.ToUpper(p[0].Data) {
	case "BEGIN":
		return a, nil, lines, false
	case "ACTION":
		if a != nil {
			return a, nil, lines, false
		}

		switch strings.ToUpper(p[len(p)-1].Data) {
		case "AUDIO":
			a = &AlarmAudio{}
		case "DISPLAY":
			a = &AlarmDisplay{}
		case "EMAIL":
			a = &AlarmEmail{}
		case "URI":
			a = &AlarmURI{}
		case "NONE":
			a = &AlarmNone{}
		}
	case "END":
		return a, []parser.Phrase{lines[0]}, lines[1:], true
	}

	a, own, rest, ok := vAlarmLines(a, lines[1:])

	return a, append([]parser.Phrase{lines[0]}, own...), rest, ok
}

func vAlarmLines_ensures(a AlarmType, lines []parser.Phrase, b AlarmType, own, rest []parser.Phrase, ok bool) bool {
	return !ok || len(rest) <= len(lines)
}

//verif:decsec Alarm.decode
func vDecAlarm(a Alarm, lines []parser.Phrase) (Alarm, []parser.Phrase, bool) {
	t, own, rest, ok := vAlarmLines(a.AlarmType, lines)
	if !ok {
		return a, rest, false
	}

	switch t := t.(type) {
	case *AlarmAudio:
		v, _, ok := vDecAlarmAudio(*t, own)

		return Alarm{&v}, rest, ok
	case *AlarmDisplay:
		v, _, ok := vDecAlarmDisplay(*t, own)

		return Alarm{&v}, rest, ok
	case *AlarmEmail:
		v, _, ok := vDecAlarmEmail(*t, own)

		return Alarm{&v}, rest, ok
	case *AlarmURI:
		v, _, ok := vDecAlarmURI(*t, own)

		return Alarm{&v}, rest, ok
	case *AlarmNone:
		v, _, ok := vDecAlarmNone(*t, own)

		return Alarm{&v}, rest, ok
	}

	return a, rest, false
}

func vDecAlarm_ensures(a Alarm, lines []parser.Phrase, b Alarm, rest []parser.Phrase, ok bool) bool {
	return !ok || len(rest) <= len(lines)
}

func vDecAlarm_requires(a Alarm, lines []parser.Phrase) bool { return a.AlarmType == nil }

//verif:enc Alarm.encode
func vEncAlarm(a Alarm) string {
	s := "BEGIN:VALARM\r\n"

	switch t := a.AlarmType.(type) {
	case *AlarmAudio:
		s += "ACTION:AUDIO\r\n" + vEncAlarmAudio(*t)
	case *AlarmDisplay:
		s += "ACTION:DISPLAY\r\n" + vEncAlarmDisplay(*t)
	case *AlarmEmail:
		s += "ACTION:EMAIL\r\n" + vEncAlarmEmail(*t)
	case *AlarmURI:
		s += "ACTION:URI\r\n" + vEncAlarmURI(*t)
	case *AlarmNone:
		s += "ACTION:NONE\r\n" + vEncAlarmNone(*t)
	}

	return s + "END:VALARM\r\n"
}

func vEncAlarm_requires(a Alarm) bool { return vValAlarm(a) }

//verif:chk Alarm.valid
func vValAlarm(a Alarm) bool {
	switch t := a.AlarmType.(type) {
	case *AlarmAudio:
		return vValAlarmAudio(*t)
	case *AlarmDisplay:
		return vValAlarmDisplay(*t)
	case *AlarmEmail:
		return vValAlarmEmail(*t)
	case *AlarmURI:
		return vValAlarmURI(*t)
	case *AlarmNone:
		return vValAlarmNone(*t)
	}

	return false
}

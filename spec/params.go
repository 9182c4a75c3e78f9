package ics

import (
	"regexp"
	"strings"
	"unicode/utf8"

	"vimagination.zapto.org/parser"
)

// kinds of token in a content line.
const (
	vTokName parser.TokenType = iota
	vTokParam
	vTokQuoted
	vTokValue
	vTokContent
)

// vUnCaret undoes the RFC 6868 encoding.
//
//verif:fun decode6868
func vUnCaret(s string) string {
	n := vExceptN(s, "^")
	if n == len(s) {
		return s
	}

	if n+1 == len(s) {
		return s[:n] + "^"
	}

	switch s[n+1] {
	case 'n':
		return s[:n] + "\n" + vUnCaret(s[n+2:])
	case '\'':
		return s[:n] + "\"" + vUnCaret(s[n+2:])
	case '^':
		return s[:n] + "^" + vUnCaret(s[n+2:])
	}

	_, w := utf8.DecodeRuneInString(s[n+1:])

	return s[:n] + s[n:n+1+w] + vUnCaret(s[n+1+w:])
}

// vCaret is the RFC 6868 encoding.
func vCaret(s string) string {
	n := vExceptN(s, "\n^\"")
	if n == len(s) {
		return s
	}

	switch s[n] {
	case '\n':
		return s[:n] + "^n" + vCaret(s[n+1:])
	case '^':
		return s[:n] + "^^" + vCaret(s[n+1:])
	}

	return s[:n] + "^'" + vCaret(s[n+1:])
}

//verif:fun encode6868 nil=any expand=1
func vCaretBytes(s string) []byte { return []byte(vCaret(s)) }

// vParamText quotes a parameter value when it needs it.
func vParamText(s string) string {
	if strings.ContainsAny(s, "\";:,") {
		return "\"" + vCaret(s) + "\""
	}

	return vCaret(s)
}

func vFmtType(s string) bool {
	return regexp.MustCompile("[A-Za-z0-9!#$&.+-^_]/[A-Za-z0-9!#$&.+-^_]").MatchString(s)
}

func vCalAddrs(vs []parser.Token) ([]CalendarAddress, bool) {
	if len(vs) == 0 {
		return nil, true
	}

	if vs[0].Type != vTokQuoted {
		return nil, false
	}

	c, ok := vDecCalendarAddress(CalendarAddress{}, nil, vUnCaret(vs[0].Data))
	if !ok {
		return nil, false
	}

	l, ok := vCalAddrs(vs[1:])

	return append([]CalendarAddress{c}, l...), ok
}

func vEncCalAddrs(l []CalendarAddress, first bool) string {
	if len(l) == 0 {
		return ""
	}

	if first {
		return "\"" + vCaret(l[0].URL.String()) + "\"" + vEncCalAddrs(l[1:], false)
	}

	return ",\"" + vCaret(l[0].URL.String()) + "\"" + vEncCalAddrs(l[1:], false)
}

func vValCalAddrs(l []CalendarAddress) bool {
	return len(l) == 0 || vValCalendarAddress(l[0]) && vValCalAddrs(l[1:])
}

func vQuotedTexts(vs []parser.Token) ([]string, bool) {
	if len(vs) == 0 {
		return nil, true
	}

	if vs[0].Type != vTokQuoted {
		return nil, false
	}

	l, ok := vQuotedTexts(vs[1:])

	return append([]string{vUnCaret(vs[0].Data)}, l...), ok
}

func vEncQuotedTexts(l []string, first bool) string {
	if len(l) == 0 {
		return ""
	}

	if first {
		return "\"" + vCaret(l[0]) + "\"" + vEncQuotedTexts(l[1:], false)
	}

	return ",\"" + vCaret(l[0]) + "\"" + vEncQuotedTexts(l[1:], false)
}

func vValQuotedTexts(l []string) bool {
	return len(l) == 0 || !strings.ContainsAny(l[0], vControls) && vValQuotedTexts(l[1:])
}

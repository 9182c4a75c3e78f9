package ics

import (
	"strings"
	"unicode/utf8"

	"vimagination.zapto.org/parser"
)

// vFold is what the folder makes of the text q when line octets of the current
// line have been written: the text and the number of octets in its last line.
//
//verif:write folder.Write
//verif:write folder.WriteString
func vFold(line uint8, q string) (string, uint8) {
	if q == "" {
		return "", line
	}

	r, w := utf8.DecodeRuneInString(q)
	n := line + uint8(w)

	if r != '\n' && r != '\r' && n > 75 {
		out, l := vFold(uint8(w)+1, q[w:])

		return "\r\n " + q[:w] + out, l
	}

	if r == '\n' {
		n = 0
	}

	out, l := vFold(n, q[w:])

	return q[:w] + out, l
}

// vUnfold removes every line break which is followed by a space.
//
//verif:read unfolder.Read
func vUnfold(s string) string {
	if s == "" {
		return ""
	}

	if len(s) >= 3 && s[0] == '\r' && s[1] == '\n' && s[2] == ' ' {
		return vUnfold(s[3:])
	}

	return s[:1] + vUnfold(s[1:])
}

const (
	vNameChars = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-"
	vTokDone   = -1
	vTokBad    = -2
)

// vAt is what precedes the part of a line: nothing, or its delimiter.
func vAt(part, text string) bool {
	switch part {
	case "name", "end":
		return true
	case "pname":
		return text != "" && text[0] == ';'
	case "pvalue":
		return text != "" && (text[0] == '=' || text[0] == ',')
	case "value":
		return text != "" && text[0] == ':'
	}

	return false
}

// vTokenName reads the name of a content line: the type and text of the token,
// the part which follows and the text from there on.
//
//verif:tok parseName part=name
func vTokenName(text string) (parser.TokenType, string, string, string) {
	n := vAcceptN(text, vNameChars)
	if n == len(text) {
		if n == 0 {
			return vTokDone, "", "", ""
		}

		return vTokBad, "", "", ""
	}

	if n == 0 {
		return vTokBad, "", "", ""
	}

	switch text[n] {
	case ';':
		return vTokName, text[:n], "pname", text[n:]
	case ':':
		return vTokName, text[:n], "value", text[n:]
	}

	return vTokBad, "", "", ""
}

// vTokenParam reads the name of a parameter.
//
//verif:tok parseParamName part=pname
func vTokenParam(text string) (parser.TokenType, string, string, string) {
	text = text[1:]
	n := vAcceptN(text, vNameChars)

	if n == len(text) || text[n] != '=' {
		return vTokBad, "", "", ""
	}

	return vTokParam, text[:n], "pvalue", text[n:]
}

func vTokenParam_requires(text string) bool { return vAt("pname", text) }

// vTokenValue reads a value of a parameter, which may be quoted.
//
//verif:tok parseParamValue part=pvalue
func vTokenValue(text string) (parser.TokenType, string, string, string) {
	text = text[1:]

	var data string

	typ := parser.TokenType(vTokValue)

	if text != "" && text[0] == '"' {
		text = text[1:]
		n := vExceptN(text, vControls+"\n\"")

		if n == len(text) || text[n] != '"' {
			return vTokBad, "", "", ""
		}

		typ = vTokQuoted
		data = text[:n]
		text = text[n+1:]
	} else {
		n := vExceptN(text, vControls+"\n\";:,")
		data = text[:n]
		text = text[n:]
	}

	if text == "" {
		return vTokBad, "", "", ""
	}

	switch text[0] {
	case ',':
		return typ, data, "pvalue", text
	case ';':
		return typ, data, "pname", text
	case ':':
		return typ, data, "value", text
	}

	return vTokBad, "", "", ""
}

func vTokenValue_requires(text string) bool { return vAt("pvalue", text) }

// vTokenContent reads the value of a content line.
//
//verif:tok parseValue part=value
func vTokenContent(text string) (parser.TokenType, string, string, string) {
	text = text[1:]
	n := vExceptN(text, vControls+"\n")

	if n == len(text) {
		return vTokContent, text, "end", ""
	}

	if text[n] == '\r' && len(text) > n+1 && text[n+1] == '\n' {
		return vTokContent, text[:n], "name", text[n+2:]
	}

	return vTokBad, "", "", ""
}

func vTokenContent_requires(text string) bool { return vAt("value", text) }

func vTokenName_ensures(text string, typ parser.TokenType, data, next, rest string) bool {
	return typ < 0 || typ <= vTokContent && vAt(next, rest) && len(rest) < len(text)
}

func vTokenParam_ensures(text string, typ parser.TokenType, data, next, rest string) bool {
	return typ < 0 || typ <= vTokContent && vAt(next, rest) && len(rest) < len(text)
}

func vTokenValue_ensures(text string, typ parser.TokenType, data, next, rest string) bool {
	return typ < 0 || typ <= vTokContent && vAt(next, rest) && len(rest) < len(text)
}

func vTokenContent_ensures(text string, typ parser.TokenType, data, next, rest string) bool {
	return typ < 0 || typ <= vTokContent && vAt(next, rest) && len(rest) < len(text)
}

// vToken reads the next token.
//
//verif:opaque
func vToken(part, text string) (parser.TokenType, string, string, string) {
	switch part {
	case "name":
		return vTokenName(text)
	case "pname":
		return vTokenParam(text)
	case "pvalue":
		return vTokenValue(text)
	case "value":
		return vTokenContent(text)
	}

	return vTokDone, "", "", ""
}

func vToken_requires(part, text string) bool { return vAt(part, text) }

func vToken_ensures(part, text string, typ parser.TokenType, data, next, rest string) bool {
	return typ < 0 || typ <= vTokContent && vAt(next, rest) && len(rest) < len(text)
}

// vTokens reads tokens as long as they are values of a parameter.
func vTokens(part, text string) ([]parser.Token, string, string) {
	typ, data, next, rest := vToken(part, text)
	if typ != vTokValue && typ != vTokQuoted {
		return nil, part, text
	}

	ts, p, r := vTokens(next, rest)

	return append([]parser.Token{{Type: typ, Data: data}}, ts...), p, r
}

func vTokens_requires(part, text string) bool { return vAt(part, text) }

func vTokens_ensures(part, text string, ts []parser.Token, next, rest string) bool {
	return vAt(next, rest) && len(rest) <= len(text)
}

// vParams reads the parameters of a content line.
func vParams(part, text string) ([]parser.Token, string, string, bool) {
	typ, data, next, rest := vToken(part, text)
	if typ != vTokParam {
		return nil, part, text, true
	}

	typ2, data2, next2, rest2 := vToken(next, rest)
	if typ2 != vTokValue && typ2 != vTokQuoted {
		return nil, part, text, false
	}

	vs, next3, rest3 := vTokens(next2, rest2)
	ps, next4, rest4, ok := vParams(next3, rest3)

	return append(append([]parser.Token{{Type: typ, Data: data}, {Type: typ2, Data: data2}}, vs...), ps...), next4, rest4, ok
}

func vParams_requires(part, text string) bool { return vAt(part, text) }

func vParams_ensures(part, text string, ts []parser.Token, next, rest string, ok bool) bool {
	return !ok || vAt(next, rest) && len(rest) <= len(text)
}

// vPhrase reads a content line.
//
//verif:phrase phrase
func vPhrase(part, text string) (parser.PhraseType, []parser.Token, string, string) {
	typ, data, next, rest := vToken(part, text)

	if typ == vTokDone {
		return vTokDone, nil, "", ""
	}

	if typ != vTokName {
		return vTokBad, nil, "", ""
	}

	ps, next, rest, ok := vParams(next, rest)
	if !ok {
		return vTokBad, nil, "", ""
	}

	typ2, data2, next2, rest2 := vToken(next, rest)
	if typ2 != vTokContent {
		return vTokBad, nil, "", ""
	}

	return 0, append(append([]parser.Token{{Type: typ, Data: data}}, ps...), parser.Token{Type: typ2, Data: data2}), next2, rest2
}

func vPhrase_requires(part, text string) bool { return vAt(part, text) }

func vPhrase_ensures(part, text string, typ parser.PhraseType, ts []parser.Token, next, rest string) bool {
	return typ < 0 || len(ts) >= 2 && vAt(next, rest) && len(rest) < len(text)
}

// vTextLines is the sequence of well-formed content lines at the start of a
// text.
func vTextLines(part, text string) []parser.Phrase {
	typ, ts, next, rest := vPhrase(part, text)
	if typ != 0 {
		return nil
	}

	return append([]parser.Phrase{{Type: 0, Data: ts}}, vTextLines(next, rest)...)
}

func vTextLines_requires(part, text string) bool { return vAt(part, text) }

// vDecode is the calendar read from a text.
//
//verif:decode Decode
func vDecode(text string) (Calendar, bool) {
	lines := vTextLines("name", vUnfold(text))
	if len(lines) == 0 || len(lines[0].Data) < 2 {
		return Calendar{}, false
	}

	l := lines[0].Data
	if strings.ToUpper(l[0].Data) != "BEGIN" || strings.ToUpper(l[len(l)-1].Data) != "VCALENDAR" {
		return Calendar{}, false
	}

	cal, _, ok := vDecCalendar(Calendar{}, lines[1:])

	return cal, ok
}

// vEncode is the text written for a calendar, and whether it is written.
//
//verif:encode Encode
func vEncode(cal Calendar) (string, bool) {
	if !vValCalendar(cal) {
		return "", false
	}

	text, _ := vFold(0, vEncCalendar(cal))

	return text, true
}

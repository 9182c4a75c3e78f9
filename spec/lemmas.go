package ics

import "unicode/utf8"

// Lemmas about the specification functions themselves.

// vCaretOct is the RFC 6868 encoding, one octet at a time.
//
//verif:octets
func vCaretOct(s string) string {
	if s == "" {
		return ""
	}

	switch s[0] {
	case '\n':
		return "^n" + vCaretOct(s[1:])
	case '^':
		return "^^" + vCaretOct(s[1:])
	case '"':
		return "^'" + vCaretOct(s[1:])
	}

	return s[:1] + vCaretOct(s[1:])
}

//verif:alt encode6868 by=CaretOct
func vCaretOctBytes(s string) []byte { return []byte(vCaretOct(s)) }

//verif:lemma induct=s
func vLemmaCaretOct(s string) bool { return vCaret(s) == vCaretOct(s) }

func vLemmaCaretOct_proof(s string) {
	if s == "" {
		return
	}

	if s[0] == '\n' || s[0] == '^' || s[0] == '"' {
		vLemmaCaretOct(s[1:])

		return
	}

	n := vExceptN(s[1:], "\n^\"")

	if n == len(s)-1 {
		vLemmaCaretOct(s[1:])

		return
	}

	switch s[1:][n] {
	case '\n':
		vLemmaCaretOct(s[1:])

		return
	case '^':
		vLemmaCaretOct(s[1:])

		return
	}

	vLemmaCaretOct(s[1:])
}

// ---- RFC 6868 decoding

// An octet outside an escape is taken over as it is.
//
//verif:lemma induct=s
func vLemmaUnCaretStep(s string) bool {
	return s == "" || s[0] == '^' || vUnCaret(s) == s[:1]+vUnCaret(s[1:])
}

func vLemmaUnCaretStep_proof(s string) {
	if s == "" || s[0] == '^' {
		return
	}

	vUnCaret(s[1:])
}

// A character outside an escape is taken over as it is.
//
//verif:lemma
func vLemmaUnCaretRune(s string) bool {
	_, w := utf8.DecodeRuneInString(s)

	return s == "" || s[0] == '^' || vUnCaret(s) == s[:w]+vUnCaret(s[w:])
}

func vLemmaUnCaretRune_proof(s string) {
	if s == "" || s[0] == '^' {
		return
	}

	_, w := utf8.DecodeRuneInString(s)

	vLemmaUnCaretStep(s)

	if w == 1 {
		return
	}

	vLemmaUnCaretStep(s[1:])

	if w == 2 {
		return
	}

	vLemmaUnCaretStep(s[2:])

	if w == 3 {
		return
	}

	vLemmaUnCaretStep(s[3:])
}

// vUnCaretOct undoes the RFC 6868 encoding, one octet at a time.
//
//verif:alt decode6868 by=UnCaretOct
func vUnCaretOct(s string) string {
	if s == "" {
		return ""
	}

	if s[0] == '^' && len(s) > 1 {
		switch s[1] {
		case 'n':
			return "\n" + vUnCaretOct(s[2:])
		case '\'':
			return "\"" + vUnCaretOct(s[2:])
		case '^':
			return "^" + vUnCaretOct(s[2:])
		}
	}

	return s[:1] + vUnCaretOct(s[1:])
}

//verif:lemma induct=s
func vLemmaUnCaretOct(s string) bool { return vUnCaret(s) == vUnCaretOct(s) }

func vLemmaUnCaretOct_proof(s string) {
	if s == "" {
		return
	}

	if s[0] != '^' {
		vLemmaUnCaretStep(s)
		vLemmaUnCaretOct(s[1:])

		return
	}

	if len(s) == 1 {
		return
	}

	switch s[1] {
	case 'n', '\'', '^':
		vLemmaUnCaretOct(s[2:])

		return
	}

	vLemmaUnCaretRune(s[1:])
	vLemmaUnCaretOct(s[1:])
	vUnCaretOct(s[1:])
}

// Decoding gives back what was encoded.
//
//verif:lemma induct=s
func vLemmaCaretBack(s string) bool { return vUnCaret(vCaretOct(s)) == s }

func vLemmaCaretBack_proof(s string) {
	if s == "" {
		return
	}

	vLemmaCaretBack(s[1:])

	switch s[0] {
	case '\n':
		return
	case '^':
		return
	case '"':
		return
	}

	vLemmaUnCaretStep(s[:1] + vCaretOct(s[1:]))
}

//verif:lemma
func vLemmaCaretRound(s string) bool { return vUnCaret(vCaret(s)) == s }

func vLemmaCaretRound_proof(s string) {
	vLemmaCaretOct(s)
	vLemmaCaretBack(s)
}

// ---- text

// vUTF8 holds of text made of whole characters.
func vUTF8(s string) bool {
	if s == "" {
		return true
	}

	r, w := utf8.DecodeRuneInString(s)

	return string(r) == s[:w] && vUTF8(s[w:])
}

// vEncTextOct is the escaping of text, one octet at a time.
//
//verif:octets
func vEncTextOct(t Text) string {
	if t == "" {
		return ""
	}

	switch t[0] {
	case '\\':
		return "\\\\" + vEncTextOct(t[1:])
	case '\n':
		return "\\n" + vEncTextOct(t[1:])
	case ';':
		return "\\;" + vEncTextOct(t[1:])
	case ',':
		return "\\," + vEncTextOct(t[1:])
	}

	return string(t[:1]) + vEncTextOct(t[1:])
}

//verif:alt Text.encode by=TextOct given=vUTF8
func vEncTextOcts(t Text) string { return vEncTextOct(t) }

//verif:lemma
func vLemmaTextOct(t Text) bool { return !vUTF8(string(t)) || vEncText(t) == vEncTextOct(t) }

func vLemmaTextOct_proof(t Text) {
	vEncText(t)

	if t == "" {
		return
	}

	vUTF8(string(t))
	vEncTextOct(t)

	_, w := utf8.DecodeRuneInString(string(t))

	vLemmaTextOct(t[w:])

	if w == 1 {
		return
	}

	vEncTextOct(t[1:])

	if w == 2 {
		return
	}

	vEncTextOct(t[2:])

	if w == 3 {
		return
	}

	vEncTextOct(t[3:])
}

//verif:lemma induct=s
func vLemmaTextStep(s string) bool {
	if s == "" || vIn(s[0], "\\,;") {
		return true
	}

	a, r := vText(s)
	b, q := vText(s[1:])

	return a == s[:1]+b && r == q
}

func vLemmaTextStep_proof(s string) {
	if s == "" || vIn(s[0], "\\,;") {
		return
	}

	vText(s[1:])
}

//verif:lemma induct=t
func vLemmaTextBack(t Text) bool {
	s, rest := vText(vEncTextOct(t))

	return s == string(t) && rest == ""
}

func vLemmaTextBack_proof(t Text) {
	if t == "" {
		return
	}

	vLemmaTextBack(t[1:])

	switch t[0] {
	case '\\':
		return
	case '\n':
		return
	case ';':
		return
	case ',':
		return
	}

	vLemmaTextStep(string(t[:1]) + vEncTextOct(t[1:]))
}

// Text is read back as it was written.
//
//verif:lemma
func vLemmaTextRound(t Text) bool {
	s, rest := vText(vEncText(t))

	return !vUTF8(string(t)) || s == string(t) && rest == ""
}

func vLemmaTextRound_proof(t Text) {
	vLemmaTextOct(t)
	vLemmaTextBack(t)
}

//verif:lemma induct=t
func vLemmaTextBefore(t Text, r string) bool {
	s, rest := vText(vEncTextOct(t) + "," + r)

	return s == string(t) && rest == ","+r
}

func vLemmaTextBefore_proof(t Text, r string) {
	if t == "" {
		return
	}

	vLemmaTextBefore(t[1:], r)

	switch t[0] {
	case '\\':
		return
	case '\n':
		return
	case ';':
		return
	case ',':
		return
	}

	vLemmaTextStep(string(t[:1]) + vEncTextOct(t[1:]) + "," + r)
}

// The comma which follows a text in a list ends it.
//
//verif:lemma
func vLemmaTextApart(t Text, r string) bool {
	s, rest := vText(vEncText(t) + "," + r)

	return !vUTF8(string(t)) || s == string(t) && rest == ","+r && rest != "" && rest[0] == ','
}

func vLemmaTextApart_proof(t Text, r string) {
	if !vUTF8(string(t)) {
		return
	}

	vLemmaTextOct(t)
	vLemmaTextBefore(t, r)
}

func vAllUTF8(ts []Text) bool {
	return len(ts) == 0 || vUTF8(string(ts[0])) && vAllUTF8(ts[1:])
}

func vSameTexts(a, b []Text) bool {
	if len(a) == 0 || len(b) == 0 {
		return len(a) == len(b)
	}

	return a[0] == b[0] && vSameTexts(a[1:], b[1:])
}

// A list of texts is read back as it was written, its texts kept apart.
//
//verif:lemma induct=ts
func vLemmaTextsRound(ts []Text) bool {
	if len(ts) == 0 || !vAllUTF8(ts) {
		return true
	}

	us, ok := vTexts(vTextList(ts, true))

	return ok && vSameTexts(append([]Text{}, us...), ts)
}

func vLemmaTextsRound_proof(ts []Text) {
	if len(ts) == 0 || !vAllUTF8(ts) {
		return
	}

	if len(ts) == 1 {
		vLemmaTextRound(ts[0])
		vTexts(vEncText(ts[0]))

		return
	}

	vLemmaTextsRound(ts[1:])
	vTextList(ts[1:], false)
	vLemmaTextApart(ts[0], vTextList(ts[1:], true))
	vTexts(vTextList(ts, true))
}

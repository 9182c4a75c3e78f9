package ics

import "unicode/utf8"

// vAscii holds of a set of ASCII characters.
func vAscii(set string) bool {
	return set == "" || set[0] < 0x80 && vAscii(set[1:])
}

// vAcceptAt is where a run of characters of the set which starts at n ends.
func vAcceptAt(s, set string, n int) int {
	if s == "" || !vIn(s[0], set) {
		return n
	}

	_, w := utf8.DecodeRuneInString(s)

	return vAcceptAt(s[w:], set, n+w)
}

// vExceptAt is where a run of other characters which starts at n ends.
func vExceptAt(s, set string, n int) int {
	if s == "" || vIn(s[0], set) {
		return n
	}

	_, w := utf8.DecodeRuneInString(s)

	return vExceptAt(s[w:], set, n+w)
}

// No other octet is in a set of ASCII characters.
//
//verif:lemma
func vLemmaAsciiIn(c byte, set string) bool { return !vAscii(set) || c < 0x80 || !vIn(c, set) }

func vLemmaAsciiIn_proof(c byte, set string) {
	vAscii(set)
	vIn(c, set)

	if set != "" {
		vLemmaAsciiIn(c, set[1:])
	}
}

// Reading a run by characters ends where reading it by octets does.
//
//verif:lemma
func vLemmaAcceptRun(s, set string, n int) bool {
	return !vAscii(set) || n < 0 || n > 1<<62-len(s) || vAcceptAt(s, set, n) == n+vAcceptN(s, set)
}

func vLemmaAcceptRun_proof(s, set string, n int) {
	vAcceptAt(s, set, n)
	vAcceptN(s, set)

	if s == "" {
		return
	}

	vLemmaAsciiIn(s[0], set)

	if s[0] < 0x80 {
		vLemmaAcceptRun(s[1:], set, n+1)
	}
}

//verif:lemma
func vLemmaExceptRun(s, set string, n int) bool {
	return !vAscii(set) || n < 0 || n > 1<<62-len(s) || vExceptAt(s, set, n) == n+vExceptN(s, set)
}

func vLemmaExceptRun_proof(s, set string, n int) {
	if !vAscii(set) {
		return
	}

	vExceptAt(s, set, n)
	vExceptN(s, set)

	if s == "" {
		return
	}

	vLemmaAsciiIn(s[0], set)

	_, w := utf8.DecodeRuneInString(s)

	if w > 1 {
		vLemmaAsciiIn(s[1], set)
		vExceptN(s[1:], set)
	}

	if w > 2 {
		vLemmaAsciiIn(s[2], set)
		vExceptN(s[2:], set)
	}

	if w > 3 {
		vLemmaAsciiIn(s[3], set)
		vExceptN(s[3:], set)
	}

	vLemmaExceptRun(s[w:], set, n+w)
}

// A run ends in the text, and before the first character not of its kind.
//
//verif:lemma
func vLemmaAcceptEnd(s, set string) bool {
	return vAcceptN(s, set) == len(s) || vAcceptN(s, set) >= 0 && vAcceptN(s, set) < len(s) && !vIn(s[vAcceptN(s, set)], set)
}

func vLemmaAcceptEnd_proof(s, set string) {
	vAcceptN(s, set)

	if s != "" {
		vLemmaAcceptEnd(s[1:], set)
	}
}

//verif:lemma
func vLemmaExceptEnd(s, set string) bool {
	return vExceptN(s, set) == len(s) || vExceptN(s, set) >= 0 && vExceptN(s, set) < len(s) && vIn(s[vExceptN(s, set)], set)
}

func vLemmaExceptEnd_proof(s, set string) {
	vExceptN(s, set)

	if s != "" {
		vLemmaExceptEnd(s[1:], set)
	}
}

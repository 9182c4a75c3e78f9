package ics

import "unicode/utf8"

// Nothing in this file holds: a verifier which accepts any of it is broken.

// vWrongBoolean exchanges the two words.
//
//verif:wrong Boolean.encode
func vWrongBoolean(b Boolean) string {
	if b {
		return "FALSE"
	}

	return "TRUE"
}

// vWrongOffset leaves out the largest offset.
//
//verif:wrong UTCOffset.valid
func vWrongOffset(u UTCOffset) bool { return u > -360000 && u < 359999 }

// vWrongFold has lines of 76 octets.
//
//verif:wrong folder.Write
func vWrongFold(line uint8, q string) (string, uint8) {
	if q == "" {
		return "", line
	}

	r, w := utf8.DecodeRuneInString(q)
	n := line + uint8(w)

	if r != '\n' && r != '\r' && n > 76 {
		out, l := vWrongFold(uint8(w)+1, q[w:])

		return "\r\n " + q[:w] + out, l
	}

	if r == '\n' {
		n = 0
	}

	out, l := vWrongFold(n, q[w:])

	return q[:w] + out, l
}

// vWrongUnfold takes any octet after a line break for the space.
//
//verif:wrong unfolder.Read
func vWrongUnfold(s string) string {
	if s == "" {
		return ""
	}

	if len(s) >= 3 && s[0] == '\r' && s[1] == '\n' {
		return vWrongUnfold(s[3:])
	}

	return s[:1] + vWrongUnfold(s[1:])
}

// vWrongCaret leaves carets as they are.
//
//verif:wrong encode6868
func vWrongCaret(s string) []byte { return []byte(s) }

// vWrongEmpty uses itself for the same argument.
//
//verif:wrong lemma
func vWrongEmpty(q string) bool { return q == "" }

func vWrongEmpty_proof(q string) { vWrongEmpty(q) }

// vWrongShort has lines which do not get longer.
//
//verif:wrong lemma
func vWrongShort(line uint8, q string) bool {
	s, _ := vFold(line, q)

	return vShort(int(line), s)
}

func vWrongShort_proof(line uint8, q string) {
	vFold(line, q)

	if q != "" {
		_, w := utf8.DecodeRuneInString(q)

		vWrongShort(line+uint8(w), q[w:])
	}
}

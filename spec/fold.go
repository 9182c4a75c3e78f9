package ics

import "unicode/utf8"

// ---- what folding guarantees

// vPairs holds of text in which a carriage return is always followed by a line
// feed.
func vPairs(q string) bool {
	if q == "" {
		return true
	}

	if q[0] == '\r' && (len(q) < 2 || q[1] != '\n') {
		return false
	}

	return vPairs(q[1:])
}

// vNoFolds holds of text without a line break followed by a space.
func vNoFolds(q string) bool {
	if len(q) < 3 {
		return true
	}

	return !(q[0] == '\r' && q[1] == '\n' && q[2] == ' ') && vNoFolds(q[1:])
}

// vShort holds of text in whose lines, not counting their ends, there are no
// more than 75 octets; the first one has line octets already.
func vShort(line int, s string) bool {
	if s == "" {
		return line <= 75
	}

	if s[0] == '\r' {
		return line <= 75 && vShort(line, s[1:])
	}

	if s[0] == '\n' {
		return vShort(0, s[1:])
	}

	return vShort(line+1, s[1:])
}

// vUnbroken holds of text without line breaks.
func vUnbroken(a string) bool {
	return a == "" || a[0] != '\r' && a[0] != '\n' && vUnbroken(a[1:])
}

// Octets within a line add to its length.
//
//verif:lemma induct=a
func vLemmaShortPlain(line int, a, s string) bool {
	return !vUnbroken(a) || vShort(line, a+s) == vShort(line+len(a), s)
}

func vLemmaShortPlain_proof(line int, a, s string) {
	vUnbroken(a)

	if a == "" {
		return
	}

	vShort(line, a+s)
	vLemmaShortPlain(line+1, a[1:], s)
}

// A character other than a line break has no octets of line breaks.
//
//verif:lemma
func vLemmaPlainChar(q string) bool {
	r, w := utf8.DecodeRuneInString(q)

	return q == "" || r == '\r' || r == '\n' || vUnbroken(q[:w])
}

func vLemmaPlainChar_proof(q string) {
	if q == "" {
		return
	}

	_, w := utf8.DecodeRuneInString(q)

	vUnbroken(q[:w])
	vUnbroken(q[1:w])

	if w == 1 {
		return
	}

	vUnbroken(q[2:w])

	if w == 2 {
		return
	}

	vUnbroken(q[3:w])

	if w == 3 {
		return
	}

	vUnbroken(q[4:w])
}

// What follows in paired text is paired.
//
//verif:lemma induct=a
func vLemmaPairsTail(a, q string) bool { return !vPairs(a+q) || vPairs(q) }

func vLemmaPairsTail_proof(a, q string) {
	if a == "" {
		return
	}

	vPairs(a + q)
	vLemmaPairsTail(a[1:], q)
}

// A line feed starts a new line.
//
//verif:lemma induct=q
func vLemmaFoldLF(line uint8, q string) bool {
	if q == "" || q[0] != '\n' {
		return true
	}

	s, l := vFold(line, q)
	t, m := vFold(0, q[1:])

	return s == "\n"+t && l == m
}

func vLemmaFoldLF_proof(line uint8, q string) {
	if q == "" || q[0] != '\n' {
		return
	}

	vFold(line, q)
}

// Every folded line is short.
//
//verif:lemma induct=q
func vLemmaFoldShort(line uint8, q string) bool {
	s, _ := vFold(line, q)

	return line > 75 || !vPairs(q) || vShort(int(line), s)
}

func vLemmaFoldShort_proof(line uint8, q string) {
	vFold(line, q)
	vPairs(q)

	if line > 75 || q == "" {
		vShort(int(line), "")

		return
	}

	_, w := utf8.DecodeRuneInString(q)

	if q[0] == '\r' {
		if len(q) < 2 || q[1] != '\n' {
			return
		}

		vPairs(q[1:])
		vLemmaFoldLF(line+1, q[1:])
		t, _ := vFold(0, q[2:])
		vShort(int(line), "\n"+t)
		vLemmaFoldShort(0, q[2:])

		return
	}

	if q[0] == '\n' {
		t, _ := vFold(0, q[1:])
		vShort(int(line), q[:w]+t)
		vLemmaFoldShort(0, q[1:])

		return
	}

	vLemmaPlainChar(q)

	if line+uint8(w) > 75 {
		t, _ := vFold(uint8(w)+1, q[w:])
		vShort(int(line), "\r\n "+q[:w]+t)
		vShort(int(line), "\n "+q[:w]+t)
		vShort(0, " "+q[:w]+t)
		vLemmaShortPlain(1, q[:w], t)
		vLemmaFoldShort(uint8(w)+1, q[w:])
		vLemmaPairsTail(q[:w], q[w:])

		return
	}

	t, _ := vFold(line+uint8(w), q[w:])
	vLemmaShortPlain(int(line), q[:w], t)
	vLemmaFoldShort(line+uint8(w), q[w:])
	vLemmaPairsTail(q[:w], q[w:])
}

// ---- folds are taken out again

// What follows in text without folds is without folds.
//
//verif:lemma induct=a
func vLemmaNoFoldsTail(a, q string) bool { return !vNoFolds(a+q) || vNoFolds(q) }

func vLemmaNoFoldsTail_proof(a, q string) {
	if a == "" {
		return
	}

	vNoFolds(a + q)
	vNoFolds(q)
	vLemmaNoFoldsTail(a[1:], q)
}

// Unfolding keeps text without line breaks.
//
//verif:lemma induct=a
func vLemmaUnfoldPlain(a, s string) bool {
	return !vUnbroken(a) || vUnfold(a+s) == a+vUnfold(s)
}

func vLemmaUnfoldPlain_proof(a, s string) {
	vUnbroken(a)

	if a == "" {
		return
	}

	vUnfold(a + s)
	vLemmaUnfoldPlain(a[1:], s)
}

// A new line starts with the text.
//
//verif:lemma induct=q
func vLemmaFoldFirst(q string) bool {
	s, _ := vFold(0, q)

	return q == "" && s == "" || q != "" && s != "" && s[0] == q[0]
}

func vLemmaFoldFirst_proof(q string) {
	vFold(0, q)
}

// So does one after a line feed.
//
//verif:lemma induct=q
func vLemmaFoldSecond(line uint8, q string) bool {
	if q == "" || q[0] != '\n' {
		return true
	}

	s, _ := vFold(line, q)

	if len(q) == 1 {
		return s == "\n"
	}

	return len(s) > 1 && s[0] == '\n' && s[1] == q[1]
}

func vLemmaFoldSecond_proof(line uint8, q string) {
	if q == "" || q[0] != '\n' {
		return
	}

	vFold(line, q)
	vLemmaFoldFirst(q[1:])
}

// A line break which is not a fold is kept.
//
//verif:lemma
func vLemmaUnfoldBreak(s string) bool {
	return len(s) > 1 && s[0] == '\n' && s[1] == ' ' || vUnfold("\r"+s) == "\r"+vUnfold(s)
}

func vLemmaUnfoldBreak_proof(s string) {
	vUnfold("\r" + s)
}

// Unfolding gives back the text which was folded.
//
//verif:lemma induct=q
func vLemmaFoldBack(line uint8, q string) bool {
	s, _ := vFold(line, q)

	return !vPairs(q) || !vNoFolds(q) || vUnfold(s) == q
}

func vLemmaFoldBack_proof(line uint8, q string) {
	if !vPairs(q) || !vNoFolds(q) {
		return
	}

	vFold(line, q)

	if q == "" {
		vUnfold("")

		return
	}

	_, w := utf8.DecodeRuneInString(q)

	if q[0] == '\r' {
		if len(q) < 2 || q[1] != '\n' {
			return
		}

		s, _ := vFold(line+1, q[1:])
		vLemmaFoldSecond(line+1, q[1:])
		vLemmaUnfoldBreak(s)
		vLemmaPairsTail(q[:1], q[1:])
		vLemmaNoFoldsTail(q[:1], q[1:])
		vLemmaFoldBack(line+1, q[1:])

		return
	}

	if q[0] == '\n' {
		t, _ := vFold(0, q[1:])
		vUnfold("\n" + t)
		vLemmaPairsTail(q[:1], q[1:])
		vLemmaNoFoldsTail(q[:1], q[1:])
		vLemmaFoldBack(0, q[1:])

		return
	}

	vLemmaPlainChar(q)

	if !vUnbroken(q[:w]) {
		return
	}

	vLemmaPairsTail(q[:w], q[w:])
	vLemmaNoFoldsTail(q[:w], q[w:])

	n := line + uint8(w)

	if n > 75 {
		n = uint8(w) + 1
	}

	t, _ := vFold(n, q[w:])

	vUnfold("\r\n " + q[:w] + t)
	vLemmaUnfoldPlain(q[:w], t)
	vLemmaFoldBack(n, q[w:])
}

// ---- folding text in parts

// vApart holds of two parts of a text which is not cut inside a character.
func vApart(a, b string) bool {
	if a == "" {
		return true
	}

	r, w := utf8.DecodeRuneInString(a)
	s, v := utf8.DecodeRuneInString(a + b)

	return r == s && w == v && vApart(a[w:], b)
}

// Folding one part after the other is folding both at once.
//
//verif:lemma
func vLemmaFoldParts(line uint8, a, b string) bool {
	s, l := vFold(line, a)
	t, m := vFold(l, b)
	u, n := vFold(line, a+b)

	return !vApart(a, b) || u == s+t && n == m
}

func vLemmaFoldParts_proof(line uint8, a, b string) {
	if !vApart(a, b) {
		return
	}

	if a == "" {
		vFold(line, "")

		return
	}

	r, w := utf8.DecodeRuneInString(a)
	s, v := utf8.DecodeRuneInString(a + b)

	vApart(a, b)

	if r != s || w != v || !vApart(a[w:], b) {
		return
	}

	n := line + uint8(w)

	if r == '\n' {
		vFold(line, a)
		vFold(line, a+b)
		vLemmaFoldParts(0, a[w:], b)

		return
	}

	if r == '\r' {
		vFold(line, a)
		vFold(line, a+b)
		vLemmaFoldParts(n, a[w:], b)

		return
	}

	if n > 75 {
		vFold(line, a)
		vFold(line, a+b)
		vLemmaFoldParts(uint8(w)+1, a[w:], b)

		return
	}

	vFold(line, a)
	vFold(line, a+b)
	vLemmaFoldParts(n, a[w:], b)
}

package ics

// vDec is the decimal form of n.
func vDec(n uint64) string {
	if n < 10 {
		return string([]byte{'0' + byte(n)})
	}

	return vDec(n/10) + string([]byte{'0' + byte(n%10)})
}

// vDecInt is the decimal form of n.
func vDecInt(n int64) string {
	if n < 0 {
		return "-" + vDec(uint64(-(n+1))+1)
	}

	return vDec(uint64(n))
}

func vIn(c byte, set string) bool {
	if set == "" {
		return false
	}

	return set[0] == c || vIn(c, set[1:])
}

// vAcceptN is the length of the longest prefix of s made of characters of set.
func vAcceptN(s, set string) int {
	if s == "" || !vIn(s[0], set) {
		return 0
	}

	return 1 + vAcceptN(s[1:], set)
}

// vExceptN is the length of the longest prefix of s free of characters of set.
func vExceptN(s, set string) int {
	if s == "" || vIn(s[0], set) {
		return 0
	}

	return 1 + vExceptN(s[1:], set)
}

func vAcceptN_ensures(s, set string, n int) bool { return n >= 0 && n <= len(s) }

func vExceptN_ensures(s, set string, n int) bool { return n >= 0 && n <= len(s) }

// the characters which may not occur in any value: the controls other than
// tab and line feed.
const vControls = "\x00\x01\x02\x03\x04\x05\x06\x07\x08\x0b\x0c\r\x0e\x0f\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b\x1c\x1d\x1e\x1f\x7f"

package ics

import "vimagination.zapto.org/parser"

// vMapSet is m with k set to v.
func vMapSet(m map[string]string, k, v string) map[string]string {
	n := map[string]string{k: v}

	for a, b := range m {
		if a != k {
			n[a] = b
		}
	}

	return n
}

// vNext counts on from i over the values of a parameter.
func vNext(rest []parser.Token, i int) int {
	if len(rest) == 0 || rest[0].Type == vTokParam {
		return i
	}

	return vNext(rest[1:], i+1)
}

func vNext_ensures(rest []parser.Token, i int, n int) bool {
	end := i + len(rest)

	return end < i || n >= i && n <= end
}

// vDatas lists the text of tokens.
func vDatas(vs []parser.Token) []string {
	if len(vs) == 0 {
		return nil
	}

	return append([]string{vs[0].Data}, vDatas(vs[1:])...)
}

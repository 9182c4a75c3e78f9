package ics

// Searches through whole texts: Encode, Decode and what lies between them and
// the content lines.

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"unicode/utf8"
)

var vhCal = reflect.TypeOf(Calendar{})

// vhReader delivers a text in pieces.
type vhReader struct {
	s    string
	mode int
	r    *vhRand
}

func (v *vhReader) Read(p []byte) (int, error) {
	if v.s == "" {
		return 0, io.EOF
	}
	n := len(v.s)
	switch v.mode {
	case 1:
		n = 1
	case 2, 3:
		n = v.r.Intn(7)
	case 4:
		n = 1 + v.r.Intn(200)
	}
	if n > len(v.s) {
		n = len(v.s)
	}
	n = copy(p, v.s[:n])
	v.s = v.s[n:]
	if v.s == "" && (v.mode == 3 || v.mode == 5) {
		return n, io.EOF
	}
	return n, nil
}

var errSink = errors.New("sink failure")

// vhSink takes a number of bytes and fails from then on.
type vhSink struct {
	out    []byte
	left   int // -1 for no failure
	partly bool
	failed bool
	after  int // writes after the failure
	max    int // longest write, to bound memory
}

func (v *vhSink) Write(p []byte) (int, error) {
	if v.failed {
		v.after++
		return 0, errSink
	}
	if v.left >= 0 && len(p) > v.left {
		v.failed = true
		if v.partly {
			v.out = append(v.out, p[:v.left]...)
			return v.left, errSink
		}
		return 0, errSink
	}
	if v.left >= 0 {
		v.left -= len(p)
	}
	v.out = append(v.out, p...)
	return len(p), nil
}

// foldIn adds folds to a text.
func (r *vhRand) foldIn(s string) string {
	for n := r.Intn(6); n > 0 && s != ""; n-- {
		i := r.Intn(len(s))
		f := "\r\n "
		if r.Intn(8) == 0 {
			f = []string{"\r\n", "\r", "\n", "\n ", "\r\n\t", "\r\n  ", "\r\r\n ", "\r\n \r\n "}[r.Intn(8)]
		}
		s = s[:i] + f + s[i:]
	}
	return s
}

// wholeText makes the text of a calendar, more or less well formed.
func (r *vhRand) wholeText() string {
	s := "BEGIN:VCALENDAR\r\n" + r.sectionText(vhCal)
	if !strings.HasSuffix(s, "END:VCALENDAR\r\n") && r.Intn(2) == 0 {
		s += "END:VCALENDAR\r\n"
	}
	switch r.Intn(10) {
	case 0:
		s = r.mutate(s)
	case 1:
		s = s[:r.Intn(len(s)+1)]
	case 2:
		s = strings.TrimSuffix(s, "\r\n")
	case 3:
		s = s + r.str()
	case 4:
		n := r.Intn(3)
		s = "BEGIN:VCALENDAR\r\nPRODID:" + strings.Repeat("x", []int{70, 4090, 9000}[n]+r.Intn(12)) + "\r\nVERSION:2.0\r\nEND:VCALENDAR\r\n"
	case 5:
		ls := strings.SplitAfter(s, "\r\n")
		i := r.Intn(len(ls))
		ls[i] = vhOddLines[r.Intn(len(vhOddLines))] + "\r\n" + ls[i]
		s = strings.Join(ls, "")
	}
	if r.Intn(3) == 0 {
		s = r.foldIn(s)
	}
	return s
}

var vhOddLines = []string{"", ":", ";", "A", "A:", "A;:", "A;B:", "A;B=:c", "A;B=\":c", "A;B=\"x\"y:c", "A;B=\"x\",y,\"z;:,\":c", "A;B=x,,y:c", "A;=x:c", "A;B=x\x01:c", "A;B=\"\x01\":c", "A;B=\"\x7f\":c", "A;B=\"a\tb\":c", "A:\x00", "A:b\x7f", "A:b\tc", "A_B:c", "A b:c", "-:c", "A:b\rc", "A:b\nc", "A;B=\n:c", "A;B=a\"b:c", "A;B=x;C=y,z;D=\"q\":c;d,e:f\"g", "é:x", "A;é=x:y", "A;B=é:日"}

const vhHuge = 3 << 20

func vhClip(s string) string {
	if len(s) > 6000 {
		return s[:3000] + fmt.Sprintf("… %d octets …", len(s)-6000) + s[len(s)-3000:]
	}
	return s
}

func vhTryDecode(r *vhRand) *vhFound {
	var s string
	if r.Intn(60) > 0 {
		s = r.wholeText()
	} else {
		s = "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:p\r\nX-LONG:" + strings.Repeat("0123456789abcdef", vhHuge/16) + "\r\nEND:VCALENDAR\r\n"
	}
	if r.Intn(15) == 0 {
		i := r.Intn(len(s) + 1)
		s = s[:i] + string([]byte{byte(128 + r.Intn(128))}) + s[i:]
	}
	return vhDecodeText(r, s)
}

func vhDecodeText(r *vhRand, s string) *vhFound {
	mode := r.Intn(6)
	if len(s) > 100000 && mode < 4 {
		mode += 3
	}
	input := fmt.Sprintf("text %q read in mode %d", vhClip(s), mode)
	var cal *Calendar
	var err error
	if e := vhRun(func() { cal, err = vhDecode(&vhReader{s, mode, r}) }); e != nil {
		return &vhFound{Input: input, Code: e.Error(), Spec: "returns"}
	}
	if (cal == nil) == (err == nil) {
		return &vhFound{Input: input, Code: fmt.Sprintf("calendar is nil: %v, error %v", cal == nil, err), Spec: "exactly one of calendar and error"}
	}
	if !utf8.ValidString(s) {
		return nil
	}
	if len(s) > 100000 {
		// the specification would take too long
		var c2 *Calendar
		var err2 error
		short := strings.ReplaceAll(s, "0123456789abcdef", "")
		if e := vhRun(func() { c2, err2 = vhDecode(strings.NewReader(short)) }); e != nil {
			return nil
		}
		if (err == nil) != (err2 == nil) || err == nil && !strings.Contains(s, "SUMMARY:0123456789abcdef") && vhDump(reflect.ValueOf(*cal)) != vhDump(reflect.ValueOf(*c2)) {
			return &vhFound{Input: input, Code: fmt.Sprintf("error %v", err), Spec: fmt.Sprintf("error %v, as with the long value of the ignored line left out", err2)}
		}
		return nil
	}
	var want Calendar
	var ok bool
	if e := vhRun(func() { want, ok = vDecode(s) }); e != nil {
		return nil
	}
	if ok != (err == nil) {
		return &vhFound{Input: input, Code: fmt.Sprintf("accepts=%v (%v)", err == nil, err), Spec: fmt.Sprintf("accepts=%v", ok)}
	}
	if ok && !vhSame(reflect.ValueOf(*cal), reflect.ValueOf(want)) {
		return &vhFound{Input: input, Code: "gives " + vhClip(vhDump(reflect.ValueOf(*cal))), Spec: "gives " + vhClip(vhDump(reflect.ValueOf(want)))}
	}
	return nil
}

func (r *vhRand) cal() Calendar {
	if r.Intn(3) > 0 {
		// few parts, so that they are valid more often
		var c Calendar
		c.Version = "2.0"
		c.ProductID = PropProductID(r.str())
		v := reflect.ValueOf(&c).Elem()
		for k := 1 + r.Intn(2); k > 0; k-- {
			f := v.Field(r.Intn(v.NumField()))
			if f.CanSet() {
				f.Set(r.gen(f.Type(), 0))
			}
		}
		return c
	}
	return r.gen(vhCal, 0).Interface().(Calendar)
}

func vhTryEncode(r *vhRand) *vhFound {
	cal := r.cal()
	input := "calendar " + vhClip(vhDump(reflect.ValueOf(cal)))
	var want string
	var ok bool
	if e := vhRun(func() { want, ok = vEncode(cal) }); e != nil {
		return nil
	}
	before := vhDump(reflect.ValueOf(cal))
	w := &vhSink{left: -1}
	var err error
	if e := vhRun(func() { err = vhEncode(w, &cal) }); e != nil {
		return &vhFound{Input: input, Code: e.Error(), Spec: "returns"}
	}
	if vhDump(reflect.ValueOf(cal)) != before {
		return &vhFound{Input: input, Code: "changes the calendar to " + vhClip(vhDump(reflect.ValueOf(cal))), Spec: "leaves it as it is"}
	}
	if ok != (err == nil) {
		return &vhFound{Input: input, Code: fmt.Sprintf("accepts=%v (%v)", err == nil, err), Spec: fmt.Sprintf("accepts=%v", ok)}
	}
	if string(w.out) != want {
		return &vhFound{Input: input, Code: fmt.Sprintf("writes %q", vhClip(string(w.out))), Spec: fmt.Sprintf("writes %q", vhClip(want))}
	}
	if ok && utf8.ValidString(want) && r.Intn(4) == 0 {
		if f := vhDecodeText(r, want); f != nil {
			return f
		}
	}
	w2 := &vhSink{left: -1}
	vhRun(func() { err = vhEncode(w2, &cal) })
	if string(w2.out) != want {
		return &vhFound{Input: input + ", encoded a second time", Code: fmt.Sprintf("writes %q", vhClip(string(w2.out))), Spec: fmt.Sprintf("writes %q", vhClip(want))}
	}
	if !ok || want == "" {
		return nil
	}
	for k := 0; k < 4; k++ {
		w := &vhSink{left: r.Intn(len(want)), partly: r.Intn(2) == 0}
		at := w.left
		if e := vhRun(func() { err = vhEncode(w, &cal) }); e != nil {
			return &vhFound{Input: input, Code: e.Error(), Spec: "returns"}
		}
		in := fmt.Sprintf("%s, writer failing after %d octets", input, at)
		switch {
		case err != errSink:
			return &vhFound{Input: in, Code: fmt.Sprintf("error %v", err), Spec: "the error of the writer"}
		case w.after > 0:
			return &vhFound{Input: in, Code: fmt.Sprintf("%d writes after the failure", w.after), Spec: "no write after the failure"}
		case !strings.HasPrefix(want, string(w.out)):
			return &vhFound{Input: in, Code: fmt.Sprintf("writes %q", vhClip(string(w.out))), Spec: fmt.Sprintf("a start of %q", vhClip(want))}
		}
	}
	return nil
}

// vhTryFold cuts a text into writes.
func vhTryFold(r *vhRand) *vhFound {
	var parts []string
	all := ""
	for n := 1 + r.Intn(5); n > 0; n-- {
		s := r.str()
		if r.Intn(3) == 0 {
			s = strings.Repeat([]string{"a", "é", "日", "🎉"}[r.Intn(4)], r.Intn(160))
		}
		s = strings.ReplaceAll(s, "\r", "")
		if !utf8.ValidString(s) {
			continue
		}
		if r.Intn(4) == 0 {
			s += "\r\n"
		}
		parts = append(parts, s)
		all += s
	}
	input := fmt.Sprintf("writes %q", parts)
	want, _ := vFold(0, all)
	run := func(w *vhSink) (err error) {
		f := vhFolder(w)
		for i, p := range parts {
			var e error
			var n int
			if sw, is := f.(io.StringWriter); is && i%2 == 1 {
				n, e = sw.WriteString(p)
			} else {
				n, e = f.Write([]byte(p))
			}
			_ = n
			if err == nil {
				err = e
			}
		}
		return err
	}
	w := &vhSink{left: -1}
	var err error
	if e := vhRun(func() { err = run(w) }); e != nil {
		return &vhFound{Input: input, Code: e.Error(), Spec: "returns"}
	}
	if err != nil || string(w.out) != want {
		return &vhFound{Input: input, Code: fmt.Sprintf("gives %q, error %v", w.out, err), Spec: fmt.Sprintf("gives %q", want)}
	}
	if want == "" {
		return nil
	}
	w = &vhSink{left: r.Intn(len(want)), partly: r.Intn(2) == 0}
	input += fmt.Sprintf(", writer failing after %d octets", w.left)
	vhRun(func() { err = run(w) })
	if err != errSink || w.after > 0 || !strings.HasPrefix(want, string(w.out)) {
		return &vhFound{Input: input, Code: fmt.Sprintf("gives %q, error %v, %d writes after the failure", w.out, err, w.after), Spec: fmt.Sprintf("the error of the writer, no later write and a start of %q", want)}
	}
	return nil
}

// vhTryUnfold reads a text in pieces.
func vhTryUnfold(r *vhRand) *vhFound {
	s := r.foldIn(r.str() + r.str())
	switch r.Intn(20) {
	case 0:
		s = strings.Repeat("x", 4090+r.Intn(10)) + "\r\n y" + s
	case 1:
		s = r.wholeText()
	}
	mode := r.Intn(6)
	input := fmt.Sprintf("text %q read in mode %d", vhClip(s), mode)
	want := vUnfold(s)
	var out []byte
	var err error
	if e := vhRun(func() {
		u := vhUnfolder(&vhReader{s, mode, r})
		p := make([]byte, 1+r.Intn(9))
		if r.Intn(3) == 0 {
			p = make([]byte, 1+r.Intn(5000))
		}
		for stuck := 0; err == nil && stuck < 1000 && len(out) <= len(s); {
			var n int
			n, err = u.Read(p)
			if n == 0 {
				stuck++
			}
			out = append(out, p[:n]...)
		}
	}); e != nil {
		return &vhFound{Input: input, Code: e.Error(), Spec: "returns"}
	}
	if string(out) != want || err != io.EOF {
		return &vhFound{Input: input, Code: fmt.Sprintf("gives %q, error %v", vhClip(string(out)), err), Spec: fmt.Sprintf("gives %q", vhClip(want))}
	}
	return nil
}

// vhTryLines splits a text into content lines.
func vhTryLines(r *vhRand) *vhFound {
	var s string
	switch r.Intn(4) {
	case 0:
		s = r.wholeText()
	case 1:
		s = "NAME" + vhParamPool[r.Intn(len(vhParamPool))] + ":" + r.str()
	default:
		for n := 1 + r.Intn(3); n > 0; n-- {
			s += vhOddLines[r.Intn(len(vhOddLines))]
			if r.Intn(8) > 0 {
				s += "\r\n"
			}
		}
	}
	if r.Intn(2) == 0 {
		s = r.mutate(s)
	}
	if !utf8.ValidString(s) {
		return nil
	}
	input := fmt.Sprintf("text %q", vhClip(s))
	want := vTextLines("name", s)
	var got []string
	var spec []string
	for _, p := range want {
		spec = append(spec, vhDump(reflect.ValueOf(p.Data)))
	}
	if e := vhRun(func() {
		p := vhPhrases(strings.NewReader(s))
		for len(got) <= len(want) {
			l, err := p.GetPhrase()
			if err != nil || l.Type < 0 {
				break
			}
			got = append(got, vhDump(reflect.ValueOf(l.Data)))
		}
	}); e != nil {
		return &vhFound{Input: input, Code: e.Error(), Spec: "returns"}
	}
	if strings.Join(got, "\n") != strings.Join(spec, "\n") {
		return &vhFound{Input: input, Code: fmt.Sprintf("gives lines %q", got), Spec: fmt.Sprintf("gives lines %q", spec)}
	}
	return nil
}

// vhTop lists the searches through whole texts which concern a property.
func vhTop(prop string) []vhTry {
	var out []vhTry
	add := func(ok bool, name string, f func(*vhRand) *vhFound) {
		if ok {
			out = append(out, vhTry{name, f})
		}
	}
	enc := strings.Contains("C02 C03 C05 C12 C13 C15 C16 C18 C19", prop)
	dec := strings.Contains("C01 C04 C12 C13 C14 C15 C17", prop)
	add(enc && vhEncode != nil, "Encode", vhTryEncode)
	add(dec && vhDecode != nil, "Decode", vhTryDecode)
	add(strings.Contains("C02 C03 C05", prop) && vhFolder != nil, "folding", vhTryFold)
	add(strings.Contains("C01 C04", prop) && vhUnfolder != nil, "unfolding", vhTryUnfold)
	add(strings.Contains("C01 C17", prop) && vhPhrases != nil, "content lines", vhTryLines)
	return out
}

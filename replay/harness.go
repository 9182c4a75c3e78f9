package ics

// Search for inputs on which the running code and the contracts disagree.
// Placed into the package under test by the check; see engine/replay.go.

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net/url"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
	"unicode/utf8"

	"vimagination.zapto.org/parser"
)

type vhUnit struct {
	name, kind string
	recv       reflect.Type
	code       any
	spec       any
	requires   any
}

type vhFound struct {
	Function string `json:"function"`
	Input    string `json:"input"`
	Code     string `json:"code_gives"`
	Spec     string `json:"contract_says"`
	Seed     int64  `json:"seed"`
	Case     int    `json:"case"`
	Replayed bool   `json:"replayed"`
}

// ---- values

type vhRand struct {
	*rand.Rand
	wild bool // values need not be valid
}

var vhWords = []string{"", "a", "B c", "x,y", "a;b", "p:q", "say \"hi\"", "back\\slash", "line\nbreak", "caret^n", "^", "^^'", "tab\there", "é", "日本語", "🎉", "e\u0301", "\\n", "\\,", "ctl\x01", "\r", "a\rb", "\x7f", "\u0080", "\x1f", ";", ",", ":", "\"", "\\", "=", " lead", "trail ", "text/plain", "mailto:a@b.com", "BEGIN:VEVENT", "END:VCALENDAR", "x\r\nEND:VEVENT\r\nX-A:b", "0", "1", "-1", "2.0", "\u2028", "\u00a0"}

const (
	vhChars = "abcXYZ019 -_/.;:,\"\\^\n\r"
	vhMarks = "0123456789+-TZPWDHMS;,:=\\\"^nN"
)

func (r *vhRand) str() string {
	switch r.Intn(8) {
	case 0, 1, 2:
		return vhWords[r.Intn(len(vhWords))]
	case 3:
		return vhWords[r.Intn(len(vhWords))] + vhWords[r.Intn(len(vhWords))]
	case 4:
		if len(vhNames) > 0 && r.Intn(4) == 0 {
			return vhNames[r.Intn(len(vhNames))]
		}
		if len(vhStrings) > 0 {
			return vhStrings[r.Intn(len(vhStrings))]
		}
	case 5:
		w, n := vhWords[r.Intn(len(vhWords))], 90
		if len(w) > 4 {
			n = 12
		}
		return strings.Repeat(w, r.Intn(n))
	case 6:
		var b strings.Builder
		for n := r.Intn(12); n > 0; n-- {
			switch r.Intn(5) {
			case 0:
				b.WriteByte(byte(r.Intn(128)))
			case 1:
				b.WriteRune(rune(r.Intn(0x3000)))
			case 2:
				b.WriteString(vhWords[r.Intn(len(vhWords))])
			default:
				b.WriteByte(vhChars[r.Intn(len(vhChars))])
			}
		}
		return b.String()
	}
	return "plain text"
}

var vhZones = []string{"UTC", "Europe/London", "America/New_York", "Asia/Tokyo", "Local", "Asia/Kolkata"}

func (r *vhRand) time() time.Time {
	if r.wild && r.Intn(6) == 0 {
		switch r.Intn(6) {
		case 0:
			return time.Time{}
		case 1:
			return time.Date(10000+r.Intn(2000), 1, 1, 0, 0, 0, 0, time.UTC)
		case 2:
			return time.Date(-r.Intn(50), 3, 4, 0, 0, 0, 0, time.UTC)
		case 3:
			return time.Date(2020, 1, 1, 0, 0, 0, 5, time.FixedZone("", 3600))
		case 4:
			return time.Date(2020, 1, 1, 0, 0, 0, 0, time.FixedZone("Odd\"Zone;\n", 3600))
		case 5:
			return time.Date(r.Intn(3), 1, 1, 0, 0, 0, 0, time.UTC)
		}
	}
	z := vhZones[r.Intn(len(vhZones))]
	l, err := time.LoadLocation(z)
	if err != nil {
		l = time.UTC
	}
	switch r.Intn(6) {
	case 0:
		return time.Date(2020, 6, 15, 0, 0, 0, 0, l)
	case 1:
		return time.Date(r.Intn(9998)+1, time.Month(r.Intn(12)+1), r.Intn(28)+1, 12, r.Intn(60), r.Intn(60), 0, l)
	}
	return time.Date(1980+r.Intn(70), time.Month(r.Intn(12)+1), r.Intn(28)+1, r.Intn(24), r.Intn(60), r.Intn(60), 0, l)
}

var vhURLs = []string{"http://example.com/", "mailto:jane@example.com", "CID:part3.msg@example.com", "https://a.b/c?d=e&f=g,h;i#frag", "urn:uuid:1", "", "relative/path", "http://[::1]:80/", "http://h/%20x", "ldap://x/y?z"}

func (r *vhRand) url() url.URL {
	s := vhURLs[r.Intn(len(vhURLs))]
	if r.Intn(4) == 0 {
		s += r.str()
	}
	u, err := url.Parse(s)
	if err != nil {
		return url.URL{Scheme: "http", Host: "x"}
	}
	return *u
}

func (r *vhRand) int(bits int, signed bool) int64 {
	switch r.Intn(12) {
	case 0:
		if len(vhInts) > 0 {
			return vhInts[r.Intn(len(vhInts))] + int64(r.Intn(3)) - 1
		}
	case 1:
		return int64(r.Intn(400))
	case 2:
		if signed {
			return -int64(r.Intn(400))
		}
	case 3:
		if r.wild {
			return int64(r.Uint64())
		}
	case 4:
		if bits == 8 && !signed {
			return int64(r.Intn(64))
		}
		return int64(r.Intn(70000))
	case 5:
		return 0
	case 6:
		if signed {
			return -int64(r.Intn(12))
		}
	}
	return int64(r.Intn(13))
}

var (
	vhTime  = reflect.TypeOf(time.Time{})
	vhRecur = reflect.TypeOf(Recur{})
	vhURL   = reflect.TypeOf(url.URL{})
	vhToken = reflect.TypeOf(parser.Token{})
	vhAlarm = reflect.TypeOf((*AlarmType)(nil)).Elem()
)

// gen makes a value of a type.
func (r *vhRand) gen(t reflect.Type, depth int) reflect.Value {
	v := r.gen1(t, depth)
	if f, ok := vhValid[t]; ok && !(r.wild && r.Intn(3) == 0) {
		for i := 0; i < 40 && !vhCallBool(f, v); i++ {
			v = r.gen1(t, depth)
		}
	}
	return v
}

func vhCallBool(f any, v ...reflect.Value) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return reflect.ValueOf(f).Call(v)[0].Bool()
}

func (r *vhRand) gen1(t reflect.Type, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	if t.Kind() == reflect.Struct && t.ConvertibleTo(vhRecur) && (!r.wild || r.Intn(2) == 0) {
		return reflect.ValueOf(r.recur()).Convert(t)
	}
	switch t {
	case vhTime:
		return reflect.ValueOf(r.time())
	case vhURL:
		return reflect.ValueOf(r.url())
	case vhToken:
		return reflect.ValueOf(parser.Token{Type: parser.TokenType(r.Intn(6)), Data: r.str()})
	case vhAlarm:
		as := []reflect.Type{reflect.TypeOf(AlarmAudio{}), reflect.TypeOf(AlarmDisplay{}), reflect.TypeOf(AlarmEmail{}), reflect.TypeOf(AlarmURI{}), reflect.TypeOf(AlarmNone{})}
		a := as[r.Intn(len(as))]
		p := reflect.New(a)
		p.Elem().Set(r.gen(a, depth+1))
		if p.Type().Implements(vhAlarm) {
			v.Set(p)
		}
		return v
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.String:
		v.SetString(r.str())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(r.int(t.Bits(), true))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(r.int(t.Bits(), false)))
	case reflect.Float64, reflect.Float32:
		fs := []float64{0, 1, -1, 1.5, 37.386013, -122.082932, 1e21, 1e-7, 0.1, 123456789.123}
		if r.wild {
			fs = append(fs, math.NaN(), math.Inf(1), math.MaxFloat64)
		}
		v.SetFloat(fs[r.Intn(len(fs))])
	case reflect.Pointer:
		p := 2
		if depth > 2 {
			p = 3
		}
		if r.Intn(p) == 0 {
			n := reflect.New(t.Elem())
			n.Elem().Set(r.gen(t.Elem(), depth+1))
			v.Set(n)
		}
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 && r.Intn(2) == 0 {
			v.SetBytes([]byte(r.str()))
			return v
		}
		n := 0
		if r.Intn(3) > 0 || depth == 0 {
			n = r.Intn(4)
			if r.Intn(25) == 0 {
				n = r.Intn(20)
			}
		}
		if depth > 3 && n > 1 {
			n = 1
		}
		if n == 0 && r.Intn(2) == 0 {
			return v
		}
		v.Set(reflect.MakeSlice(t, n, n))
		for i := 0; i < n; i++ {
			if i > 0 && r.Intn(5) == 0 {
				v.Index(i).Set(v.Index(r.Intn(i)))
				continue
			}
			v.Index(i).Set(r.gen(t.Elem(), depth+1))
		}
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			v.Index(i).Set(r.gen(t.Elem(), depth+1))
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(t))
		if t.Elem().Kind() == reflect.String && t.Key().Kind() == reflect.String {
			if r.Intn(2) == 0 {
				v.SetMapIndex(reflect.ValueOf("TZID"), reflect.ValueOf(vhZones[r.Intn(len(vhZones))]))
			}
			if r.Intn(2) == 0 {
				v.SetMapIndex(reflect.ValueOf("ENCODING"), reflect.ValueOf("BASE64"))
			}
		}
	case reflect.Struct:
		only := -1
		if r.Intn(6) == 0 && t.NumField() > 0 {
			only = r.Intn(t.NumField())
		}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" && !f.Anonymous {
				continue
			}
			if !v.Field(i).CanSet() {
				continue
			}
			if only >= 0 && i != only && r.Intn(3) > 0 && f.Type.Kind() != reflect.Struct {
				continue
			}
			v.Field(i).Set(r.gen(f.Type, depth+1))
		}
	}
	return v
}

// recur makes a rule in which each part is in its range, or next to it now and
// then.
func (r *vhRand) recur() Recur {
	var v Recur
	pick := func(lo, hi int64) int64 {
		switch r.Intn(40) {
		case 0:
			return hi + 1
		case 1:
			return lo - 1
		case 2, 3, 4, 5:
			return hi
		case 6, 7, 8, 9:
			return lo
		}
		return lo + r.Int63n(hi-lo+1)
	}
	n := func() int {
		if r.Intn(3) > 0 {
			return 0
		}
		return 1 + r.Intn(3)
	}
	v.Frequency = Frequency(pick(0, 6))
	if r.Intn(3) == 0 {
		v.WeekStart = WeekDay(pick(1, 7))
	}
	switch r.Intn(4) {
	case 0:
		v.Count = uint64(1 + r.Intn(1000))
	case 1:
		v.Until = r.time()
		v.UntilTime = r.Intn(2) == 0
	}
	if r.Intn(2) == 0 {
		v.Interval = uint64(1 + r.Intn(20)*r.Intn(20))
	}
	for k := n(); k > 0; k-- {
		v.BySecond = append(v.BySecond, uint8(pick(0, 60)))
	}
	for k := n(); k > 0; k-- {
		v.ByMinute = append(v.ByMinute, uint8(pick(0, 59)))
	}
	for k := n(); k > 0; k-- {
		v.ByHour = append(v.ByHour, uint8(pick(0, 23)))
	}
	for k := n(); k > 0; k-- {
		d := DayRecur{Day: WeekDay(pick(1, 7))}
		if r.Intn(2) == 0 {
			d.Occurrence = int8(pick(-53, 53))
		}
		v.ByDay = append(v.ByDay, d)
	}
	for k := n(); k > 0; k-- {
		v.ByMonthDay = append(v.ByMonthDay, int8(pick(-31, 31)))
	}
	for k := n(); k > 0; k-- {
		v.ByYearDay = append(v.ByYearDay, int16(pick(-366, 366)))
	}
	for k := n(); k > 0; k-- {
		v.ByWeekNum = append(v.ByWeekNum, int8(pick(-53, 53)))
	}
	for k := n(); k > 0; k-- {
		v.ByMonth = append(v.ByMonth, Month(pick(1, 12)))
	}
	for k := n(); k > 0; k-- {
		v.BySetPos = append(v.BySetPos, int16(pick(-366, 366)))
	}
	return v
}

// ---- text

func (r *vhRand) mutate(s string) string {
	for n := 1 + r.Intn(2); n > 0; n-- {
		i := 0
		if len(s) > 0 {
			i = r.Intn(len(s) + 1)
		}
		j := i
		if i < len(s) {
			_, w := utf8.DecodeRuneInString(s[i:])
			j = i + w
		}
		switch r.Intn(9) {
		case 0:
			s = s[:i] + s[j:]
		case 1:
			s = s[:i] + vhWords[r.Intn(len(vhWords))] + s[i:]
		case 2:
			if len(vhStrings) > 0 {
				s = s[:i] + vhStrings[r.Intn(len(vhStrings))] + s[i:]
			}
		case 3:
			s = s[:i] + string(vhMarks[r.Intn(len(vhMarks))]) + s[j:]
		case 4:
			s = s[:i] + s[i:j] + s[i:]
		case 5:
			s = s[:i]
		case 6:
			s = s[:i] + string(vhMarks[r.Intn(len(vhMarks))]) + s[i:]
		case 7:
			s = strings.ToLower(s)
		case 8:
			k := j
			if j < len(s) {
				k = j + r.Intn(len(s)-j)
			}
			s = s[:i] + s[j:k] + s[i:j] + s[k:]
		}
	}
	return s
}

// text makes a text form of a value of a type.
func (r *vhRand) text(t reflect.Type) string {
	f, ok := vhEnc[t]
	if !ok {
		return r.mutate(r.str())
	}
	s := ""
	func() {
		defer func() { recover() }()
		s = reflect.ValueOf(f).Call([]reflect.Value{r.gen(t, 0)})[0].String()
	}()
	return s
}

// vhLine splits a content line.
func vhLine(s string) []parser.Token {
	var ts []parser.Token
	n := strings.IndexAny(s, ";:")
	if n < 0 {
		return []parser.Token{{Type: vTokName, Data: s}, {Type: vTokContent}}
	}
	ts = append(ts, parser.Token{Type: vTokName, Data: s[:n]})
	s = s[n:]
	for strings.HasPrefix(s, ";") {
		s = s[1:]
		n := strings.IndexAny(s, "=;:")
		if n < 0 {
			n = len(s)
		}
		ts = append(ts, parser.Token{Type: vTokParam, Data: s[:n]})
		s = s[n:]
		for first := true; first && strings.HasPrefix(s, "=") || !first && strings.HasPrefix(s, ","); first = false {
			s = s[1:]
			if strings.HasPrefix(s, "\"") {
				n := strings.IndexByte(s[1:], '"')
				if n < 0 {
					n = len(s) - 1
				}
				ts = append(ts, parser.Token{Type: vTokQuoted, Data: s[1 : n+1]})
				s = s[n+1:]
				s = strings.TrimPrefix(s, "\"")
			} else {
				n := strings.IndexAny(s, ";:,")
				if n < 0 {
					n = len(s)
				}
				ts = append(ts, parser.Token{Type: vTokValue, Data: s[:n]})
				s = s[n:]
			}
		}
		if n := strings.IndexAny(s, ";:"); n > 0 {
			s = s[n:]
		}
	}
	s = strings.TrimPrefix(s, ":")
	return append(ts, parser.Token{Type: vTokContent, Data: s})
}

var vhParamPool = []string{";VALUE=DATE", ";VALUE=DATE-TIME", ";VALUE=PERIOD", ";VALUE=URI", ";VALUE=TEXT", ";VALUE=BINARY", ";VALUE=DURATION", ";VALUE=X,Y", ";VALUE=", ";value=Date", ";TZID=Europe/London", ";TZID=", ";TZID=a,b", ";ENCODING=BASE64", ";ENCODING=8BIT", ";CN=x", ";CN=\"a;b\"", ";LANGUAGE=en", ";language=de", ";ALTREP=\"http://x/\"", ";ALTREP=http", ";FMTTYPE=text/plain", ";FMTTYPE=bad", ";X-FOO=bar", ";X-FOO=a,\"b\",c", ";x-foo=1", ";RELATED=END", ";RELATED=start", ";RSVP=TRUE", ";RANGE=THISANDFUTURE", ";FBTYPE=BUSY", ";fbtype=free", ";MEMBER=\"a\",\"b\"", ";ROLE=CHAIR", ";ROLE=x", ";PARTSTAT=ACCEPTED", ";CUTYPE=GROUP", ";SENT-BY=\"mailto:x\"", ";DIR=\"d\"", ";RELTYPE=CHILD", ";ID=\"i\"", ";AGENT-ID=\"i\"", ";URI=\"http://u\""}

func (r *vhRand) line(t reflect.Type) string {
	s := strings.TrimSuffix(r.text(t), "\r\n")
	if i := strings.Index(s, "\r\n"); i >= 0 && r.Intn(2) == 0 {
		s = s[:i]
	}
	for r.Intn(3) == 0 {
		p := vhParamPool[r.Intn(len(vhParamPool))]
		if n := strings.IndexAny(s, ";:"); n >= 0 && r.Intn(2) == 0 {
			s = s[:n] + p + s[n:]
		} else if n := strings.IndexByte(s, ':'); n >= 0 {
			s = s[:n] + p + s[n:]
		}
	}
	if r.Intn(3) == 0 {
		s = r.mutate(s)
	}
	return s
}

// lines makes the content lines of a component as the decoder sees them
// after the opening line.
func vhLines(text string) []parser.Phrase {
	var ps []parser.Phrase
	for _, l := range strings.Split(strings.TrimSuffix(text, "\r\n"), "\r\n") {
		ps = append(ps, parser.Phrase{Type: 0, Data: vhLine(l)})
	}
	return ps
}

var vhExtraLines = []string{"X-PROP:1", "IANA;X=y:2", "BEGIN:X-COMP\r\nSUMMARY:in\r\nEND:X-COMP", "BEGIN:VFOO\r\nBEGIN:VEVENT\r\nEND:VEVENT\r\nEND:VFOO", "END:VEVENT", "END:VCALENDAR", "end:vevent", "BEGIN:VEVENT", "END:X", "X-BEGIN:A", "begin:x-a\r\nend:X-A"}

// sectionText makes the text of a component, without its opening line.
func (r *vhRand) sectionText(t reflect.Type) string {
	s := r.text(t)
	ls := strings.Split(strings.TrimSuffix(s, "\r\n"), "\r\n")
	if len(ls) > 1 && strings.HasPrefix(strings.ToUpper(ls[0]), "BEGIN:") {
		ls = ls[1:]
	}
	if n := len(ls); n == 0 || !strings.HasPrefix(strings.ToUpper(ls[n-1]), "END:") {
		// a kind of alarm
		ls = append(ls, "END:VALARM")
	}
	for r.Intn(2) == 0 && len(ls) > 0 {
		i := r.Intn(len(ls))
		switch r.Intn(7) {
		case 0:
			ls = append(ls[:i:i], ls[i+1:]...)
		case 1:
			ls = append(ls[:i+1:i+1], ls[i:]...)
		case 2:
			j := r.Intn(len(ls))
			ls[i], ls[j] = ls[j], ls[i]
		case 3:
			l := vhExtraLines[r.Intn(len(vhExtraLines))]
			if len(vhNames) > 0 && r.Intn(2) == 0 {
				l = strings.ReplaceAll([]string{"@:1", "BEGIN:@\r\nEND:@", "BEGIN:@\r\nX-A:1\r\nEND:@"}[r.Intn(3)], "@", vhNames[r.Intn(len(vhNames))])
			}
			ls = append(ls[:i:i], append([]string{l}, ls[i:]...)...)
		case 4:
			ls[i] = r.mutate(ls[i])
		case 5:
			n := strings.IndexAny(ls[i], ";:")
			if n > 0 {
				ls[i] = strings.ToLower(ls[i][:n]) + ls[i][n:]
			}
		case 6:
			o := strings.Split(strings.TrimSuffix(r.text(t), "\r\n"), "\r\n")
			ls = append(ls[:i:i], append([]string{o[r.Intn(len(o))]}, ls[i:]...)...)
		}
	}
	return strings.Join(ls, "\r\n") + "\r\n"
}

// ---- running

type vhTok struct{ lines []parser.Phrase }

func (t *vhTok) GetPhrase() (parser.Phrase, error) {
	if len(t.lines) == 0 {
		return parser.Phrase{Type: parser.PhraseError}, io.ErrUnexpectedEOF
	}
	p := t.lines[0]
	t.lines = t.lines[1:]
	return p, nil
}

type vhBuf struct{ strings.Builder }

var errHang = errors.New("does not return")

// vhRun calls a function, catching panics and calls which do not return.
func vhRun(f func()) (err error) {
	done := make(chan error, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				st := strings.Split(string(debug.Stack()), "\n")
				at := ""
				for _, l := range st {
					if strings.Contains(l, "/repo/") && !strings.Contains(l, "zz_verif") {
						at = strings.TrimSpace(l)
						break
					}
				}
				done <- fmt.Errorf("panics: %v %s", e, at)
			}
		}()
		f()
		done <- nil
	}()
	select {
	case err = <-done:
	case <-time.After(5 * time.Second):
		err = errHang
	}
	return err
}

func vhDump(v reflect.Value) string {
	var b strings.Builder
	vhDumpTo(&b, v, 0)
	return b.String()
}

func vhDumpTo(b *strings.Builder, v reflect.Value, d int) {
	if d > 12 {
		b.WriteString("…")
		return
	}
	if !v.IsValid() {
		b.WriteString("<none>")
		return
	}
	if v.CanInterface() {
		switch x := v.Interface().(type) {
		case time.Time:
			fmt.Fprintf(b, "time(%s %s)", x.Format("2006-01-02T15:04:05.999999999Z07:00"), x.Location())
			return
		case url.URL:
			fmt.Fprintf(b, "url(%q)", x.String())
			return
		case []byte:
			fmt.Fprintf(b, "bytes(%q,nil=%v)", x, x == nil)
			return
		}
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteByte('&')
		if v.Kind() == reflect.Interface {
			b.WriteString(v.Elem().Type().String())
		}
		vhDumpTo(b, v.Elem(), d+1)
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			b.WriteString("nil[]")
			return
		}
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			vhDumpTo(b, v.Index(i), d+1)
		}
		b.WriteByte(']')
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if d < 3 && (f.Kind() == reflect.Pointer || f.Kind() == reflect.Slice || f.Kind() == reflect.Interface) && f.IsNil() {
				continue
			}
			b.WriteString(v.Type().Field(i).Name)
			b.WriteByte(':')
			vhDumpTo(b, f, d+1)
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Map:
		fmt.Fprintf(b, "%v", v)
	case reflect.Func, reflect.Chan:
		b.WriteString(v.Type().String())
	default:
		if v.CanInterface() {
			fmt.Fprintf(b, "%#v", v.Interface())
		} else {
			fmt.Fprintf(b, "%v", v)
		}
	}
}

func vhCopyPhrases(ps []parser.Phrase) []parser.Phrase {
	out := make([]parser.Phrase, len(ps))
	for i, p := range ps {
		out[i] = parser.Phrase{Type: p.Type, Data: append([]parser.Token{}, p.Data...)}
	}
	return out
}

// try runs one case of a unit; it returns what differed.
func (u *vhUnit) try(r *vhRand) *vhFound {
	code, spec := reflect.ValueOf(u.code), reflect.ValueOf(u.spec)
	ct, st := code.Type(), spec.Type()
	var sa, ca []reflect.Value
	var w *vhBuf
	var tk *vhTok
	input := ""
	var recv reflect.Value
	si := 0
	line := ""
	for i := 0; i < ct.NumIn(); i++ {
		t := ct.In(i)
		if i == 0 && u.recv != nil {
			recv = reflect.New(u.recv)
			if u.kind == "enc" || u.kind == "chk" {
				recv.Elem().Set(r.gen(u.recv, 0))
				if f, ok := vhValid[u.recv]; ok && u.kind == "enc" && !vhCallBool(f, recv.Elem()) {
					return nil // never written
				}
			}
			ca = append(ca, recv)
			sv := reflect.New(u.recv).Elem()
			sv.Set(recv.Elem())
			sa = append(sa, sv)
			if u.kind == "enc" || u.kind == "chk" || !recv.Elem().IsZero() {
				input += "receiver " + vhDump(recv.Elem()) + " "
			}
			si++
			continue
		}
		if u.kind == "enc" && t.Kind() == reflect.Interface {
			w = &vhBuf{}
			ca = append(ca, reflect.ValueOf(w))
			continue
		}
		if t.Kind() == reflect.Interface && st.In(si) == reflect.TypeOf([]parser.Phrase(nil)) {
			text := r.sectionText(u.recvOrAny())
			ls := vhLines(text)
			tk = &vhTok{vhCopyPhrases(ls)}
			ca = append(ca, reflect.ValueOf(tk))
			sa = append(sa, reflect.ValueOf(vhCopyPhrases(ls)))
			input += fmt.Sprintf("lines %q ", text)
			si++
			continue
		}
		var v reflect.Value
		switch {
		case u.kind == "dec" && t == reflect.TypeOf([]parser.Token(nil)):
			if line == "" {
				line = r.line(u.recv)
			}
			ts := vhLine(line)
			if ct.NumIn() > i+1 {
				v = reflect.ValueOf(append([]parser.Token{}, ts[1:len(ts)-1]...))
			} else {
				ts = vhLine("X" + line + ":")
				if len(ts) > 2 {
					ts = append([]parser.Token{}, ts[2:len(ts)-1]...)
				} else {
					ts = []parser.Token{}
				}
				v = reflect.ValueOf(ts)
			}
		case u.kind == "dec" && t.Kind() == reflect.String:
			if line != "" {
				ts := vhLine(line)
				v = reflect.ValueOf(ts[len(ts)-1].Data)
			} else {
				s := r.text(u.recv)
				if r.Intn(3) > 0 {
					s = r.mutate(s)
				}
				v = reflect.ValueOf(s)
			}
			v = v.Convert(t)
		default:
			v = r.gen(t, 0)
		}
		ca = append(ca, v)
		sa = append(sa, v)
		input += vhDump(v) + " "
		si++
	}
	if u.requires != nil && !vhCallBool(u.requires, sa...) {
		return nil
	}
	var sr []reflect.Value
	if err := vhRun(func() { sr = spec.Call(sa) }); err != nil {
		return nil // the specification is not defined here
	}
	before := ""
	if recv.IsValid() && (u.kind == "enc" || u.kind == "chk") {
		before = vhDump(recv.Elem())
	}
	var cr []reflect.Value
	if err := vhRun(func() { cr = code.Call(ca) }); err != nil {
		return &vhFound{Input: input, Code: err.Error(), Spec: "returns"}
	}
	if before != "" && vhDump(recv.Elem()) != before {
		return &vhFound{Input: input, Code: "changes its receiver to " + vhDump(recv.Elem()), Spec: "leaves the value as it is"}
	}
	if u.kind != "enc" && u.kind != "chk" {
		// nothing is claimed for input which is not UTF-8
		for _, a := range sa {
			if !vhUTF8(a, 0) {
				return nil
			}
		}
	}
	boolOf := func(v reflect.Value) bool { return v.IsNil() }
	switch u.kind {
	case "enc":
		if w.String() != sr[0].String() {
			return &vhFound{Input: input, Code: fmt.Sprintf("writes %q", w.String()), Spec: fmt.Sprintf("writes %q", sr[0].String())}
		}
	case "chk":
		if boolOf(cr[0]) != sr[0].Bool() {
			return &vhFound{Input: input, Code: fmt.Sprintf("valid=%v", boolOf(cr[0])), Spec: fmt.Sprintf("valid=%v", sr[0].Bool())}
		}
	case "dec", "decsec":
		ok := sr[len(sr)-1].Bool()
		if boolOf(cr[0]) != ok {
			return &vhFound{Input: input, Code: fmt.Sprintf("accepts=%v (%v)", boolOf(cr[0]), cr[0]), Spec: fmt.Sprintf("accepts=%v", ok)}
		}
		if ok && !vhSame(recv.Elem(), sr[0]) {
			return &vhFound{Input: input, Code: "gives " + vhDump(recv.Elem()), Spec: "gives " + vhDump(sr[0])}
		}
		if ok && tk != nil && len(tk.lines) != sr[1].Len() {
			return &vhFound{Input: input, Code: fmt.Sprintf("leaves %d lines", len(tk.lines)), Spec: fmt.Sprintf("leaves %d lines", sr[1].Len())}
		}
	case "fun":
		for i := range cr {
			if cr[i].Type() == reflect.TypeOf((*error)(nil)).Elem() {
				if boolOf(cr[i]) != sr[i].Bool() {
					return &vhFound{Input: input, Code: fmt.Sprintf("accepts=%v", boolOf(cr[i])), Spec: fmt.Sprintf("accepts=%v", sr[i].Bool())}
				}
				if !sr[i].Bool() {
					return nil
				}
			}
		}
		for i := range cr {
			if cr[i].Type() == reflect.TypeOf((*error)(nil)).Elem() {
				continue
			}
			if !vhSame(cr[i], sr[i]) {
				return &vhFound{Input: input, Code: "gives " + vhDump(cr[i]), Spec: "gives " + vhDump(sr[i])}
			}
		}
		if tk != nil && len(tk.lines) != sr[len(sr)-1].Len() {
			return &vhFound{Input: input, Code: fmt.Sprintf("leaves %d lines", len(tk.lines)), Spec: fmt.Sprintf("leaves %d lines", sr[len(sr)-1].Len())}
		}
	}
	return nil
}

// vhUTF8 reports that every string of a value is UTF-8.
func vhUTF8(v reflect.Value, d int) bool {
	switch v.Kind() {
	case reflect.String:
		return utf8.ValidString(v.String())
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if !vhUTF8(v.Index(i), d+1) {
				return false
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField() && d < 6; i++ {
			if !vhUTF8(v.Field(i), d+1) {
				return false
			}
		}
	}
	return true
}

func (u *vhUnit) recvOrAny() reflect.Type {
	if u.recv != nil {
		return u.recv
	}
	return reflect.TypeOf(Event{})
}

func vhSame(a, b reflect.Value) bool {
	if a.Kind() == reflect.Slice && a.Len() == 0 && b.Len() == 0 {
		return true
	}
	if reflect.DeepEqual(a.Interface(), b.Interface()) {
		return true
	}
	return vhDump(a) == vhDump(b)
}

// TestVerifSearch looks for a failing input of the chosen units.
func TestVerifSearch(t *testing.T) {
	var cfg struct {
		Prop    string
		Units   []string
		Seed    int64
		Seconds float64
		Out     string
	}
	if err := json.Unmarshal([]byte(os.Getenv("VERIF_SEARCH")), &cfg); err != nil {
		t.Skip("nothing to search")
	}
	start := time.Now()
	emit := func(f *vhFound) {
		b, _ := json.Marshal(f)
		os.WriteFile(cfg.Out, b, 0o644)
	}
	tries := vhSearches(cfg.Prop, cfg.Units)
	if len(tries) == 0 {
		return
	}
	var next, over atomic.Int64
	var once sync.Once
	var wg sync.WaitGroup
	work := func() {
		defer wg.Done()
		for over.Load() == 0 && time.Since(start).Seconds() < cfg.Seconds {
			i := int(next.Add(1) - 1)
			k := i % len(tries)
			mk := func() *vhRand {
				return &vhRand{rand.New(rand.NewSource(cfg.Seed*1000003 + int64(i))), (i/len(tries))%3 == 2}
			}
			if f := tries[k].try(mk()); f != nil {
				f.Function = tries[k].name
				f.Seed, f.Case = cfg.Seed, i
				// once more, to be sure that it is the input which fails
				if g := tries[k].try(mk()); g == nil {
					continue
				}
				f.Replayed = true
				over.Store(1)
				once.Do(func() { emit(f) })
			}
		}
	}
	for n := runtime.NumCPU(); n > 0; n-- {
		wg.Add(1)
		go work()
	}
	wg.Wait()
	if os.Getenv("VERIF_COUNT") != "" {
		fmt.Println("cases", next.Load())
	}
}

type vhTry struct {
	name string
	try  func(r *vhRand) *vhFound
}

func vhSearches(prop string, units []string) []vhTry {
	var out []vhTry
	for i := range vhUnits {
		u := &vhUnits[i]
		for _, n := range units {
			if n == u.name {
				out = append(out, vhTry{u.name, u.try})
			}
		}
	}
	return append(out, vhTop(prop)...)
}

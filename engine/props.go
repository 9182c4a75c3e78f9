package main

import "strings"

// propDef says which units and which of their obligations decide a property.
type propDef struct {
	units  []string
	except []string
	tops   []string // functions whose contract is the property's own surface
	kinds  func(kind string) bool
	level  string
}

var safetyKinds = map[string]bool{
	"nil-deref": true, "index-bounds": true, "slice-bounds": true, "make-size": true,
	"div-zero": true, "type-assert": true, "no-panic": true, "dynamic-type": true,
	"closed-encoder": true, "termination": true, "supported": true, "aliasing": true,
	"spec-defined": true, "spec-termination": true, "ensures": true, "lemma": true,
	"post-either": true, "post-progress": true, "post-count": true, "read-after-error": true,
	"token-state": true, "parser-state": true, "post-next": true, "post-shape": true,
	"nil-in-interface": true, "stream-model": true, "stream-lines": true, "post-consumed": true,
}

func allKinds(string) bool { return true }

func safety(k string) bool { return safetyKinds[k] || strings.HasPrefix(k, "requires:") }

func framing(k string) bool {
	return k == "frame" || k == "supported" || k == "aliasing"
}

const scalars = "Binary Boolean CalendarAddress Date DateTime Duration Float Integer Period TFloat Text MText Time URI UTCOffset"

const enums = "ParamCalendarUserType ParamEncoding ParamFreeBusyType ParamParticipationRole ParamParticipationStatus ParamRange ParamRelated ParamRelationshipType ParamRSVP ParamValue PropAction PropAlarmStatus PropCalendarScale PropClass PropMethod PropProximity PropStatus PropTimeTransparency PropVersion"

const sections = "Calendar Event Todo Journal FreeBusy Timezone Standard Daylight"

const alarms = "Alarm AlarmAudio AlarmDisplay AlarmEmail AlarmURI AlarmNone"

// properties whose value, with the parameters saying how to read it, is one of
// the scalars
const scalarProps = "PropAttachment PropDateTimeStart PropFreeBusy PropRecurrenceDateTimes PropTrigger PropDuration PropGeo PropTimezoneOffsetTo PropTimezoneOffsetFrom PropURL PropSequence"

const alarmProps = "PropAction PropTrigger PropAlarmStatus PropRepeat PropAcknowledged PropLastTriggered PropProximity PropDefaultAlarm PropAlarmAgent PropGeoLocation PropURI"

func each(names string, suffixes ...string) []string {
	if len(suffixes) == 0 {
		return strings.Fields(names)
	}
	var out []string
	for _, n := range strings.Fields(names) {
		for _, s := range suffixes {
			out = append(out, n+s)
		}
	}
	return out
}

func list(ls ...[]string) []string {
	var out []string
	for _, l := range ls {
		out = append(out, l...)
	}
	return out
}

var propDefs = map[string]*propDef{
	"C01": {units: list(each("Decode phrase parse* decode* *.decode unfolder.*")), kinds: safety, level: "proof"},
	"C02": {units: list(each("Encode encode* *.encode *.valid folder.*")), kinds: safety, level: "proof"},
	"C03": {units: list(each("Encode folder.* lemma:Fold* lemma:Unfold* lemma:Short* lemma:Plain* lemma:Pairs* lemma:NoFolds*")), kinds: allKinds, level: "proof"},
	"C04": {units: list(each("Decode unfolder.* lemma:FoldBack lemma:Unfold*")), kinds: allKinds, level: "proof"},
	"C05": {units: list(each("Encode folder.*")), kinds: allKinds, level: "proof"},
	"C17": {units: list(each("Decode phrase parse*")), kinds: allKinds, level: "proof"},
	"C06": {units: list(each("Text MText", ".*"), each("decodeText lemma:Text*")), kinds: allKinds, level: "proof"},
	"C07": {units: list(each("Param*", ".*"), each("decode6868 encode6868 phrase parse* lemma:Caret* lemma:UnCaret*")), kinds: allKinds, level: "proof"},
	"C08": {units: list(each(scalars+" "+scalarProps, ".*")), kinds: allKinds, level: "proof"},
	"C09": {units: []string{"Recur.*", "PropRecurrenceRule.*"}, kinds: allKinds, level: "proof"},
	"C10": {units: each(enums, ".*"), kinds: allKinds, level: "proof"},
	"C11": {units: list(each("Prop*", ".*"), each("Param*", ".decode")), kinds: allKinds, level: "proof"},
	"C12": {units: each("Encode Decode phrase parse* folder.* unfolder.* *.decode *.encode encode* decode*"), kinds: allKinds, level: "proof"},
	"C13": {units: list(each(sections+" "+alarms, ".*"), each("Encode Decode decodeDummy")), kinds: allKinds, level: "proof"},
	"C14": {units: list(each(sections+" "+alarms, ".decode"), each("Decode Prop*.decode decodeDummy")), kinds: allKinds, level: "proof"},
	"C15": {units: list(each(alarms+" "+alarmProps+" Event Todo", ".*"), each("Calendar.valid Encode decodeDummy")), kinds: allKinds, level: "proof"},
	"C16": {units: each("Encode *.valid"), kinds: allKinds, level: "proof"},
	"C18": {units: []string{"Encode", "encode*", "*.encode", "*.valid", "folder.*", "line:*", "lemma:*"}, kinds: allKinds, level: "proof"},
	"C19": {units: []string{"Encode", "folder.*", "*.valid", "*.encode", "encode*"}, kinds: framing, level: "proof"},
}

var trustedBase = []string{
	"the verifier itself (/verif/engine): symbolic execution of go/ssa form, rewriting and invariant inference",
	"golang.org/x/tools/go/ssa v0.52.0 translating the source of /repo to SSA form, and the Go compiler agreeing with it",
	"z3 5.3.2 for the queries passed to it",
	"the specification functions in /verif/spec stating what the property asks for",
}

func assumptions(externs []string) []string {
	out := []string{
		"lengths of strings and slices stay below 2^62; integer arithmetic itself is exact machine arithmetic",
		"memory is not exhausted and the stack does not overflow",
		"slices are values: an append never overwrites memory seen through another slice (checked syntactically, see aliasing obligations)",
		"no other goroutine changes the calendar, the reader or the writer during a call",
	}
	for _, e := range externs {
		if e == "strings.EqualFold" {
			e += " (taken to compare upper-case forms; differs on U+0131 and U+212A only)"
		}
		if strings.HasSuffix(e, ".NewReaderTokeniser") {
			e += " (for UTF-8 input; it delivers any other octet as a Latin-1 character and loses the character after it; once a read has failed no later one succeeds)"
		}
		if strings.HasPrefix(e, "texts given to ") {
			out = append(out, e)
			continue
		}
		out = append(out, "assumed contract of dependency: "+e)
	}
	return out
}

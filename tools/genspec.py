#!/usr/bin/env python3
"""Writes the repetitive specifications: spec/gen_params.go, spec/gen_props.go,
spec/gen_sections.go and spec/gen_lines.go.

The tables below are the reference: they were written down from RFC 5545, RFC
6868 and the VALARM extension draft and from the documented types, not read
from the code at run time."""
import os, re, sys

OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec")

# keyword, type, kind, detail
# kinds: text (quoted when needed), qtext (always quoted), fmt, bool,
#        uri/caladdr (always quoted), enum (free), cenum (closed), const
PARAMS = [
    ("ALTREP", "AlternativeRepresentation", "uri", None),
    ("CN", "CommonName", "text", None),
    ("CUTYPE", "CalendarUserType", "enum", ["INDIVIDUAL:Individual", "GROUP:Group", "RESOURCE:Resource", "ROOM:Room"]),
    ("DELEGATED-FROM", "Delegator", "caladdrs", None),
    ("DELEGATED-TO", "Delagatee", "caladdrs", None),
    ("DIR", "DirectoryEntry", "qtext", None),
    ("ENCODING", "Encoding", "cenum", ["8BIT:8bit", "BASE64:Base64"]),
    ("FMTTYPE", "FormatType", "fmt", None),
    ("FBTYPE", "FreeBusyType", "enum", ["FREE:Free", "BUSY:Busy", "BUSY-UNAVAILABLE:BusyUnavailable", "BUSY-TENTATIVE:BusyTentative"]),
    ("LANGUAGE", "Language", "text", None),
    ("MEMBER", "Member", "qtexts", None),
    ("PARTSTAT", "ParticipationStatus", "enum", ["NEEDS-ACTION:NeedsAction", "ACCEPTED:Accepted", "DECLINED:Declined", "TENTATIVE:Tentative", "DELEGATED:Delegated", "COMPLETED:Completed", "IN-PROCESS:InProcess"]),
    ("RANGE", "Range", "const", "THISANDFUTURE"),
    ("RELATED", "Related", "cenum", ["START:Start", "END:End"]),
    ("RELTYPE", "RelationshipType", "enum", ["PARENT:Parent", "CHILD:Child", "SIBLING:Sibling"]),
    ("ROLE", "ParticipationRole", "enum", ["REQ-PARTICIPANT:RequiredParticipant", "CHAIR:Chair", "OPT-PARTICIPANT:OptParticipant", "NON-PARTICIPANT:NonParticipant"]),
    ("RSVP", "RSVP", "bool", None),
    ("SENT-BY", "SentBy", "qtext", None),
    ("TZID", "TimezoneID", "text", None),
    ("VALUE", "Value", "enum", ["BINARY:Binary", "BOOLEAN:Boolean", "CAL-ADDRESS:CalendarAddress", "DATE:Date", "DATE-TIME:DateTime", "DURATION:Duration", "FLOAT:Float", "INTEGER:Integer", "PERIOD:Period", "RECUR:Recur", "TEXT:Text", "TIME:Time", "URI:URI", "UTC-OFFSET:UTCOffset"]),
    ("URI", "URI", "uri", None),
    ("ID", "ID", "qtext", None),
    ("AGENT-ID", "AgentID", "qtext", None),
]
PNAME = {k: t for k, t, _, _ in PARAMS}

HEAD = "package ics\n\n// Code generated by tools/genspec.py. DO NOT EDIT.\n\n"


def params():
    o = []
    w = o.append
    for kw, t, kind, d in PARAMS:
        T = "Param" + t
        w(f"// ---- {kw}\n")
        w(f"//verif:dec {T}.decode")
        w(f"func vDecP{t}(t {T}, vs []parser.Token) ({T}, bool) {{")
        if kind not in ("caladdrs", "qtexts"):
            w("\tif len(vs) != 1 {\n\t\treturn t, false\n\t}\n")
        if kind == "uri":
            w("\tif vs[0].Type != vTokQuoted {\n\t\treturn t, false\n\t}\n")
            w("\tu, ok := vDecURI(URI{}, nil, vUnCaret(vs[0].Data))\n")
            w(f"\treturn {T}(u), ok\n}}\n")
        elif kind == "text":
            w(f"\treturn {T}(vUnCaret(vs[0].Data)), true\n}}\n")
        elif kind == "qtext":
            w("\tif vs[0].Type != vTokQuoted {\n\t\treturn t, false\n\t}\n")
            w(f"\treturn {T}(vUnCaret(vs[0].Data)), true\n}}\n")
        elif kind == "fmt":
            w("\ts := vUnCaret(vs[0].Data)\n")
            w(f"\treturn {T}(s), vFmtType(s)\n}}\n")
        elif kind == "bool":
            w("\tb, ok := vDecBoolean(false, nil, vs[0].Data)\n")
            w(f"\treturn {T}(b), ok\n}}\n")
        elif kind == "const":
            w(f"\treturn t, strings.ToUpper(vs[0].Data) == \"{d}\"\n}}\n")
        elif kind in ("enum", "cenum"):
            w("\tswitch strings.ToUpper(vs[0].Data) {")
            for c in d:
                k, n = c.split(":")
                w(f"\tcase \"{k}\":\n\t\treturn {t}{n}, true")
            w("\t}\n")
            w(f"\treturn {t}Unknown, true\n}}\n" if kind == "enum" else "\treturn t, false\n}\n")
        elif kind == "caladdrs":
            w(f"\tl, ok := vCalAddrs(vs)\n\n\treturn append(t, l...), ok\n}}\n")
        elif kind == "qtexts":
            w(f"\tl, ok := vQuotedTexts(vs)\n\n\treturn append(t, l...), ok\n}}\n")

        w(f"//verif:enc {T}.encode")
        w(f"func vEncP{t}(t {T}) string {{")
        if kind == "uri":
            w("\ts := t.URL.String()\n\tif s == \"\" {\n\t\treturn \"\"\n\t}\n")
            w(f"\treturn \";{kw}=\\\"\" + vCaret(s) + \"\\\"\"\n}}\n")
        elif kind in ("text", "fmt"):
            w("\tif t == \"\" {\n\t\treturn \"\"\n\t}\n")
            w(f"\treturn \";{kw}=\" + vParamText(string(t))\n}}\n")
        elif kind == "qtext":
            w("\tif t == \"\" {\n\t\treturn \"\"\n\t}\n")
            w(f"\treturn \";{kw}=\\\"\" + vCaret(string(t)) + \"\\\"\"\n}}\n")
        elif kind == "bool":
            w(f"\tif !t {{\n\t\treturn \"\"\n\t}}\n\n\treturn \";{kw}=\" + vEncBoolean(Boolean(t))\n}}\n")
        elif kind == "const":
            w(f"\treturn \";{kw}={d}\"\n}}\n")
        elif kind in ("enum", "cenum"):
            w("\tswitch t {")
            for c in d:
                k, n = c.split(":")
                w(f"\tcase {t}{n}:\n\t\treturn \";{kw}={k}\"")
            w("\t}\n")
            w(f"\treturn \";{kw}={'UNKNOWN' if kind == 'enum' else ''}\"\n}}\n")
        elif kind == "caladdrs":
            w(f"\tif len(t) == 0 {{\n\t\treturn \"\"\n\t}}\n\n\treturn \";{kw}=\" + vEncCalAddrs(t, true)\n}}\n")
        elif kind == "qtexts":
            w(f"\tif len(t) == 0 {{\n\t\treturn \"\"\n\t}}\n\n\treturn \";{kw}=\" + vEncQuotedTexts(t, true)\n}}\n")

        w(f"//verif:chk {T}.valid")
        body = {
            "uri": "vValURI(URI(t))",
            "text": "!strings.ContainsAny(string(t), vControls)",
            "qtext": "!strings.ContainsAny(string(t), vControls)",
            "fmt": "vFmtType(string(t)) && !strings.ContainsAny(string(t), vControls)",
            "bool": "true", "const": "true", "enum": "true",
            "caladdrs": "vValCalAddrs(t)",
            "qtexts": "vValQuotedTexts(t)",
        }
        if kind == "cenum":
            e = " || ".join(f"t == {t}{c.split(':')[1]}" for c in d)
        else:
            e = body[kind]
        w(f"func vValP{t}(t {T}) bool {{ return {e} }}\n")
    return HEAD + 'import (\n\t"strings"\n\n\t"vimagination.zapto.org/parser"\n)\n\n' + "\n".join(o)


# keyword, type, params, values
# values: a type name (embedded or defined type), a choice list
# "TYPE-NAME:Type|..." (first is the default) or an enumeration
PROPS = [
    ("ACTION", "Action", [], "enum AUDIO:Audio DISPLAY:Display EMAIL:Email"),
    ("ATTACH", "Attachment", ["FMTTYPE"], "choice URI:URI BINARY:Binary"),
    ("ATTENDEE", "Attendee", ["CUTYPE", "MEMBER", "ROLE", "PARTSTAT", "RSVP", "DELEGATED-TO", "DELEGATED-FROM", "SENT-BY", "CN", "DIR", "LANGUAGE"], "CalendarAddress"),
    ("CALSCALE", "CalendarScale", [], "enum GREGORIAN:Gregorian"),
    ("CATEGORIES", "Categories", ["LANGUAGE"], "MText"),
    ("CLASS", "Class", [], "enum PUBLIC:Public PRIVATE:Private CONFIDENTIAL:Confidential"),
    ("COMMENT", "Comment", ["ALTREP", "LANGUAGE"], "Text"),
    ("COMPLETED", "Completed", [], "DateTime"),
    ("CONTACT", "Contact", ["ALTREP", "LANGUAGE"], "Text"),
    ("CREATED", "Created", [], "DateTime"),
    ("DESCRIPTION", "Description", ["ALTREP", "LANGUAGE"], "Text"),
    ("DTEND", "DateTimeEnd", [], "choice DATE-TIME:DateTime DATE:Date"),
    ("DTSTAMP", "DateTimeStamp", [], "DateTime"),
    ("DTSTART", "DateTimeStart", [], "choice DATE-TIME:DateTime DATE:Date"),
    ("DUE", "Due", [], "choice DATE-TIME:DateTime DATE:Date"),
    ("DURATION", "Duration", [], "Duration"),
    ("EXDATE", "ExceptionDateTime", [], "choice DATE-TIME:DateTime DATE:Date"),
    ("FREEBUSY", "FreeBusy", ["FBTYPE"], "Period"),
    ("GEO", "Geo", [], "TFloat"),
    ("LAST-MODIFIED", "LastModified", [], "DateTime"),
    ("LOCATION", "Location", ["ALTREP", "LANGUAGE"], "Text"),
    ("METHOD", "Method", [], "Text"),
    ("ORGANIZER", "Organizer", ["CN", "DIR", "SENT-BY", "LANGUAGE"], "CalendarAddress"),
    ("PERCENT-COMPLETE", "PercentComplete", [], "Integer"),
    ("PRIORITY", "Priority", [], "Integer"),
    ("PRODID", "ProductID", [], "Text"),
    ("RDATE", "RecurrenceDateTimes", [], "choice DATE-TIME:DateTime DATE:Date PERIOD:Period"),
    ("RECURRENCE-ID", "RecurrenceID", ["RANGE"], "choice DATE-TIME:DateTime DATE:Date"),
    ("RELATED-TO", "RelatedTo", ["RELTYPE"], "Text"),
    ("REPEAT", "Repeat", [], "Integer"),
    ("REQUEST-STATUS", "RequestStatus", [], "Text"),
    ("RESOURCES", "Resources", ["ALTREP", "LANGUAGE"], "MText"),
    ("RRULE", "RecurrenceRule", [], "Recur"),
    ("SEQUENCE", "Sequence", [], "Integer"),
    ("STATUS", "Status", [], "enum TENTATIVE:Tentative CONFIRMED:Confirmed CANCELLED:Cancelled NEEDS-ACTION:NeedsAction COMPLETED:Completed IN-PROCESS:InProcess DRAFT:Draft FINAL:Final"),
    ("SUMMARY", "Summary", ["ALTREP", "LANGUAGE"], "Text"),
    ("TRANSP", "TimeTransparency", [], "enum OPAQUE:Opaque TRANSPARENT:Transparent"),
    ("TRIGGER", "Trigger", [], "choice DURATION:Duration DATE-TIME:DateTime"),
    ("TZID", "TimezoneID", [], "Text"),
    ("TZNAME", "TimezoneName", ["LANGUAGE"], "Text"),
    ("TZOFFSETFROM", "TimezoneOffsetFrom", [], "UTCOffset"),
    ("TZOFFSETTO", "TimezoneOffsetTo", [], "UTCOffset"),
    ("TZURL", "TimezoneURL", [], "URI"),
    ("UID", "UID", [], "Text"),
    ("URL", "URL", [], "URI"),
    ("URI", "URI", [], "URI"),
    ("VERSION", "Version", [], "Text"),
    ("ALARM-AGENT", "AlarmAgent", ["URI", "ID", "AGENT-ID"], "Text"),
    ("STATUS", "AlarmStatus", [], "enum ACTIVE:Active CANCELLED:Cancelled COMPLETED:Completed"),
    ("LAST-TRIGGERED", "LastTriggered", [], "DateTime"),
    ("ACKNOWLEDGED", "Acknowledged", [], "DateTime"),
    ("PROXIMITY", "Proximity", [], "Text"),
    ("GEO-LOCATION", "GeoLocation", [], "URI"),
    ("DEFAULT-ALARM", "DefaultAlarm", [], "Boolean"),
]

ZERO = {"Text": '""', "MText": "nil", "Integer": "0", "UTCOffset": "0", "Boolean": "false", "Binary": "nil"}


def zero(t):
    return ZERO.get(t, t + "{}")


def ptr(k):
    """parameters held by pointer."""
    return k not in ("MEMBER", "DELEGATED-TO", "DELEGATED-FROM")


def pzero(k):
    kind = {a: c for a, _, c, _ in PARAMS}[k]
    return {"uri": "{}", "const": "{}", "text": '("")', "qtext": '("")', "fmt": '("")', "enum": "(0)", "cenum": "(0)", "bool": "(false)"}[kind]


def valueText(v, x):
    """the text of a value with what goes between it and the name."""
    z = {"DateTime": f"vZone({x}.Time)", "Period": f"vZone({x}.Start.Time)", "Recur": f"vZone({x}.Until)", "Binary": '";ENCODING=BASE64"'}.get(v)
    if z:
        return f'{z} + ":" + vEnc{v}({x})'
    return f'":" + vEnc{v}({x})'


def gen_props():
    o = []
    w = o.append
    w("// vPlain collects parameters.\nfunc vPlain(m map[string]string, params []parser.Token) map[string]string {\n\tif len(params) == 0 {\n\t\treturn m\n\t}\n\n\tn := vNext(params[1:], 1)\n\n\treturn vPlain(vMapSet(m, strings.ToUpper(params[0].Data), strings.Join(vDatas(params[1:n]), \",\")), params[n:])\n}\n")
    for kw, t, ps, v in PROPS:
        T = "Prop" + t
        D, E, V = "vDecProp" + t, "vEncProp" + t, "vValProp" + t
        w(f"// ---- {kw}\n")
        if v.startswith("enum "):
            es = [e.split(":") for e in v.split()[1:]]
            w(f"//verif:dec {T}.decode")
            w(f"func {D}(p {T}, params []parser.Token, value string) ({T}, bool) {{\n\tswitch strings.ToUpper(value) {{")
            for k, n in es:
                w(f"\tcase \"{k}\":\n\t\treturn {t}{n}, true")
            w("\t}\n\n\treturn p, false\n}\n")
            w(f"//verif:enc {T}.encode")
            w(f"func {E}(p {T}) string {{\n\tswitch p {{")
            for k, n in es:
                w(f"\tcase {t}{n}:\n\t\treturn \"{kw}:{k}\\r\\n\"")
            w(f"\t}}\n\n\treturn \"{kw}:\\r\\n\"\n}}\n")
            w(f"//verif:chk {T}.valid")
            w(f"func {V}(p {T}) bool {{ return " + " || ".join(f"p == {t}{n}" for _, n in es) + " }\n")
            continue
        choice = [c.split(":") for c in v.split()[1:]] if v.startswith("choice ") else None
        struct = ps or choice
        vt = ", vt int" if choice else ""
        vta = ", vt" if choice else ""
        if struct:
            rt = f"({T}, int, map[string]string, bool)" if choice else f"({T}, map[string]string, bool)"
            w(f"func vPar{t}(p {T}{vt}, m map[string]string, params []parser.Token) {rt} {{")
            w(f"\tif len(params) == 0 {{\n\t\treturn p{vta}, m, true\n\t}}\n")
            w("\tn := vNext(params[1:], 1)\n\tvs := params[1:n]\n")
            w("\tswitch strings.ToUpper(params[0].Data) {")
            for k in ps:
                f = PNAME[k]
                w(f"\tcase \"{k}\":\n\t\tif p.{f} != nil {{\n\t\t\treturn p{vta}, m, false\n\t\t}}\n")
                if ptr(k):
                    w(f"\t\tx, ok := vDecP{f}(Param{f}{pzero(k)}, vs)")
                else:
                    w(f"\t\tx, ok := vDecP{f}(p.{f}, vs)")
                w(f"\t\tif !ok {{\n\t\t\treturn p{vta}, m, false\n\t\t}}\n")
                w(f"\t\tp.{f} = {'&' if ptr(k) else ''}x")
            if choice:
                w("\tcase \"VALUE\":\n\t\tif len(vs) != 1 || vt != -1 {\n\t\t\treturn p, vt, m, false\n\t\t}\n")
                w("\t\tswitch strings.ToUpper(vs[0].Data) {")
                for i, (k, _) in enumerate(choice):
                    w(f"\t\tcase \"{k}\":\n\t\t\tvt = {i}")
                w("\t\tdefault:\n\t\t\treturn p, vt, m, false\n\t\t}")
            w("\tdefault:\n\t\tm = vMapSet(m, strings.ToUpper(params[0].Data), strings.Join(vDatas(vs), \",\"))\n\t}\n")
            w(f"\treturn vPar{t}(p{vta}, m, params[n:])\n}}\n")
        w(f"//verif:dec {T}.decode")
        w(f"func {D}(p {T}, params []parser.Token, value string) ({T}, bool) {{")
        if choice:
            w(f"\tp, vt, m, ok := vPar{t}(p, -1, map[string]string{{}}, params)\n\tif !ok {{\n\t\treturn p, false\n\t}}\n")
            for i, (k, n) in enumerate(choice):
                if i == 0:
                    continue
                w(f"\tif vt == {i} {{\n\t\tx, ok := vDec{n}({zero(n)}, m, value)\n\t\tp.{n} = &x\n\n\t\treturn p, ok\n\t}}\n")
            n = choice[0][1]
            w(f"\tx, ok := vDec{n}({zero(n)}, m, value)\n\tp.{n} = &x\n\n\treturn p, ok\n}}\n")
        elif ps:
            w(f"\tp, m, ok := vPar{t}(p, map[string]string{{}}, params)\n\tif !ok {{\n\t\treturn p, false\n\t}}\n")
            w(f"\tp.{v}, ok = vDec{v}(p.{v}, m, value)\n\n\treturn p, ok\n}}\n")
        else:
            w(f"\tx, ok := vDec{v}({zero(v)}, vPlain(map[string]string{{}}, params), value)\n\n\treturn {T}(x), ok\n}}\n")
        w(f"//verif:enc {T}.encode")
        w(f"func {E}(p {T}) string {{")
        if struct:
            w(f"\ts := \"{kw}\"\n")
            for k in ps:
                f = PNAME[k]
                w(f"\tif p.{f} != nil {{\n\t\ts += vEncP{f}({'*' if ptr(k) else ''}p.{f})\n\t}}\n")
            if choice:
                for i, (k, n) in enumerate(choice):
                    val = f'";VALUE={k}" + ' if i else ""
                    w(f"\tif p.{n} != nil {{\n\t\ts += {val}{valueText(n, f'(*p.{n})')}\n\t}}\n")
                w("\treturn s + \"\\r\\n\"\n}\n")
            else:
                w(f"\treturn s + {valueText(v, f'p.{v}')} + \"\\r\\n\"\n}}\n")
        else:
            w(f"\tx := {v}(p)\n\n\treturn \"{kw}\" + {valueText(v, 'x')} + \"\\r\\n\"\n}}\n")
        w(f"//verif:chk {T}.valid")
        w(f"func {V}(p {T}) bool {{")
        for k in ps:
            f = PNAME[k]
            w(f"\tif p.{f} != nil && !vValP{f}({'*' if ptr(k) else ''}p.{f}) {{\n\t\treturn false\n\t}}\n")
        if choice:
            w("\tn := 0\n")
            for k, n in choice:
                w(f"\tif p.{n} != nil {{\n\t\tif !vVal{n}(*p.{n}) {{\n\t\t\treturn false\n\t\t}}\n\n\t\tn++\n\t}}\n")
            w("\treturn n == 1\n}\n")
        elif ps:
            w(f"\treturn vVal{v}(p.{v})\n}}\n")
        else:
            w(f"\treturn vVal{v}({v}(p))\n}}\n")
    return HEAD + 'import (\n\t"strings"\n\n\t"vimagination.zapto.org/parser"\n)\n\n' + "\n".join(o)


# type, component name, fields, rules
# fields: Name! required, Name? at most one, Name* any number,
#         NAME:Type+ nested components
# rules: a!b not both, a>b a needs b, a=b both or neither, a|b at least one
ALARM = ["UID?", "AlarmAgent*", "AlarmStatus?", "LastTriggered*", "Acknowledged?", "Proximity?", "GeoLocation*", "RelatedTo?", "DefaultAlarm?"]
ZONE = ["DateTimeStart!", "TimezoneOffsetTo!", "TimezoneOffsetFrom!", "RecurrenceRule?", "Comment*", "RecurrenceDateTimes*", "TimezoneName*"]
SECTIONS = [
    ("AlarmAudio", None, ["Trigger!", "Duration?", "Repeat?", "Attachment*"] + ALARM, ["GeoLocation>Proximity"]),
    ("AlarmDisplay", None, ["Description!", "Trigger!", "Duration?", "Repeat?"] + ALARM, ["GeoLocation>Proximity"]),
    ("AlarmEmail", None, ["Description!", "Trigger!", "Summary!", "Attendee?", "Duration?", "Repeat?"] + ALARM, ["GeoLocation>Proximity", "Duration=Repeat"]),
    ("AlarmURI", None, ["URI!", "Duration?", "Repeat?"] + ALARM, ["GeoLocation>Proximity", "Duration=Repeat"]),
    ("AlarmNone", None, [], []),
    ("Standard", "STANDARD", ZONE, []),
    ("Daylight", "DAYLIGHT", ZONE, []),
    ("Timezone", "VTIMEZONE", ["TimezoneID!", "LastModified?", "TimezoneURL?", "STANDARD:Standard+", "DAYLIGHT:Daylight+"], ["Standard|Daylight"]),
    ("FreeBusy", "VFREEBUSY", ["DateTimeStamp!", "UID!", "Contact?", "DateTimeStart?", "DateTimeEnd?", "Organizer?", "URL?", "Attendee*", "Comment*", "FreeBusy*", "RequestStatus*"], []),
    ("Journal", "VJOURNAL", ["DateTimeStamp!", "UID!", "Class?", "Created?", "DateTimeStart?", "LastModified?", "Organizer?", "RecurrenceID?", "Sequence?", "Status?", "Summary?", "URL?", "RecurrenceRule?", "Attachment*", "Attendee*", "Categories*", "Comment*", "Contact*", "Description*", "ExceptionDateTime*", "RequestStatus*", "RelatedTo*", "Resources*", "RecurrenceDateTimes*"], []),
    ("Todo", "VTODO", ["DateTimeStamp!", "UID!", "Class?", "Completed?", "Created?", "Description?", "DateTimeStart?", "Geo?", "LastModified?", "Location?", "Organizer?", "PercentComplete?", "Priority?", "RecurrenceID?", "Sequence?", "Status?", "Summary?", "URL?", "Due?", "Duration?", "Attachment*", "Attendee*", "Categories*", "Comment*", "Contact*", "ExceptionDateTime*", "RequestStatus*", "RelatedTo*", "Resources*", "RecurrenceDateTimes*", "VALARM:Alarm+"], ["Duration>DateTimeStart", "Due!Duration"]),
    ("Event", "VEVENT", ["DateTimeStamp!", "UID!", "DateTimeStart?", "Class?", "Created?", "Description?", "Geo?", "LastModified?", "Location?", "Organizer?", "Priority?", "Sequence?", "Status?", "Summary?", "TimeTransparency?", "URL?", "RecurrenceID?", "RecurrenceRule?", "DateTimeEnd?", "Duration?", "Attachment*", "Attendee*", "Categories*", "Comment*", "Contact*", "ExceptionDateTime*", "RequestStatus*", "RelatedTo*", "Resources*", "RecurrenceDateTimes*", "VALARM:Alarm+"], ["DateTimeEnd!Duration"]),
    ("Calendar", "VCALENDAR", ["Version!", "ProductID!", "VEVENT:Event+", "VTODO:Todo+", "VJOURNAL:Journal+", "VFREEBUSY:FreeBusy+", "VTIMEZONE:Timezone+"], []),
]
PROPKW = {t: k for k, t, _, _ in PROPS}
PROPV = {t: (ps, v) for _, t, ps, v in PROPS}


def propzero(t):
    ps, v = PROPV[t]
    if v.startswith("enum "):
        return f"Prop{t}(0)"
    if ps or v.startswith("choice "):
        return f"Prop{t}{{}}"
    z = ZERO.get(v)
    return f"Prop{t}({z})" if z else f"Prop{t}{{}}"


def field(f):
    """Go name, spec suffix, keyword, mode."""
    if ":" in f:
        k, n = f[:-1].split(":")
        return n, n, k, "+"
    n = f[:-1]
    return n, "Prop" + n, PROPKW[n], f[-1]


def rule(r, fs):
    modes = {field(f)[0]: field(f)[3] for f in fs}

    def has(n):
        return f"s.{n} != nil" if modes[n] == "?" else f"len(s.{n}) != 0"

    def hasnt(n):
        return f"s.{n} == nil" if modes[n] == "?" else f"len(s.{n}) == 0"
    for op in "!>=|":
        if op in r:
            a, b = r.split(op)
            return {
                "!": f"{has(a)} && {has(b)}",
                ">": f"{has(a)} && {hasnt(b)}",
                "=": f"({has(a)}) != ({has(b)})",
                "|": f"{hasnt(a)} && {hasnt(b)}",
            }[op]


def gen_sections():
    o = []
    w = o.append
    lists = []
    for T, comp, fs, rules in SECTIONS:
        F = [field(f) for f in fs]
        req = [n for n, _, _, m in F if m == "!"]
        flags = ["has" + n for n in req]
        fd = "".join(f", {x} bool" for x in flags)
        fa = "".join(f", {x}" for x in flags)
        fr = "".join(", bool" for _ in flags)
        w(f"// ---- {comp or T}\n")
        w(f"func vLines{T}(s {T}{fd}, lines []parser.Phrase) ({T}{fr}, []parser.Phrase, bool) {{")
        bad = f"return s{fa}, lines, false"
        w(f"\tif len(lines) == 0 || len(lines[0].Data) < 2 {{\n\t\t{bad}\n\t}}\n")
        w("\tp, rest := lines[0].Data, lines[1:]\n\tvalue := p[len(p)-1].Data\n" + ("\tparams := p[1 : len(p)-1]\n" if fs else ""))
        w("\tswitch strings.ToUpper(p[0].Data) {\n\tcase \"BEGIN\":\n\t\tswitch n := strings.ToUpper(value); n {")
        for n, x, k, m in F:
            if m == "+":
                w(f"\t\tcase \"{k}\":\n\t\t\te, r, ok := vDec{n}({n}{{}}, rest)\n\t\t\tif !ok {{\n\t\t\t\t{bad}\n\t\t\t}}\n\n\t\t\ts.{n} = append(s.{n}, e)\n\t\t\trest = r")
        w(f"\t\tdefault:\n\t\t\tok, r := vSkip(rest, n)\n\t\t\tif !ok {{\n\t\t\t\t{bad}\n\t\t\t}}\n\n\t\t\trest = r\n\t\t}}")
        for n, x, k, m in F:
            if m == "+":
                continue
            w(f"\tcase \"{k}\":")
            if m == "!":
                w(f"\t\tif has{n} {{\n\t\t\t{bad}\n\t\t}}\n")
                w(f"\t\tx, ok := vDec{x}(s.{n}, params, value)\n\t\tif !ok {{\n\t\t\t{bad}\n\t\t}}\n\n\t\thas{n}, s.{n} = true, x")
            elif m == "?":
                w(f"\t\tif s.{n} != nil {{\n\t\t\t{bad}\n\t\t}}\n")
                w(f"\t\tx, ok := vDec{x}({propzero(n)}, params, value)\n\t\tif !ok {{\n\t\t\t{bad}\n\t\t}}\n\n\t\ts.{n} = &x")
            else:
                w(f"\t\tx, ok := vDec{x}({propzero(n)}, params, value)\n\t\tif !ok {{\n\t\t\t{bad}\n\t\t}}\n\n\t\ts.{n} = append(s.{n}, x)")
        w(f"\tcase \"END\":\n\t\treturn s{fa}, rest, strings.ToUpper(value) == \"{comp or 'VALARM'}\"\n\t}}\n")
        w(f"\treturn vLines{T}(s{fa}, rest)\n}}\n")
        w(f"func vLines{T}_ensures(s {T}{fd}, lines []parser.Phrase, s2 {T}{''.join(f', {x}2 bool' for x in flags)}, rest []parser.Phrase, ok bool) bool {{\n\treturn !ok || len(rest) <= len(lines)\n}}\n")
        w(f"//verif:decsec {T}.decode")
        w(f"func vDec{T}(s {T}, lines []parser.Phrase) ({T}, []parser.Phrase, bool) {{")
        w(f"\ts{fa}, rest, ok := vLines{T}(s{''.join(', false' for _ in flags)}, lines)\n\tif !ok" + "".join(f" || !{x}" for x in flags) + " {\n\t\treturn s, rest, false\n\t}\n")
        for r in rules:
            w(f"\tif {rule(r, fs)} {{\n\t\treturn s, rest, false\n\t}}\n")
        w("\treturn s, rest, true\n}\n")
        w(f"func vDec{T}_ensures(s {T}, lines []parser.Phrase, s2 {T}, rest []parser.Phrase, ok bool) bool {{\n\treturn !ok || len(rest) <= len(lines)\n}}\n")
        w(f"//verif:enc {T}.encode")
        w(f"func vEnc{T}(s {T}) string {{\n\to := \"" + (f"BEGIN:{comp}\\r\\n" if comp else "") + "\"\n")
        for n, x, k, m in F:
            if m == "!":
                w(f"\to += vEnc{x}(s.{n})\n")
            elif m == "?":
                w(f"\tif s.{n} != nil {{\n\t\to += vEnc{x}(*s.{n})\n\t}}\n")
            else:
                w(f"\to += vEnc{x}List(s.{n})\n")
                if x not in lists:
                    lists.append(x)
        w("\treturn o" + (f" + \"END:{comp}\\r\\n\"" if comp else "") + "\n}\n")
        if any(n in ("Alarm", "Event", "Todo") for n, _, _, m in F if m == "+"):
            w(f"// what is not valid is not written.\nfunc vEnc{T}_requires(s {T}) bool {{ return vVal{T}(s) }}\n")
        w(f"//verif:chk {T}.valid")
        w(f"func vVal{T}(s {T}) bool {{")
        for n, x, k, m in F:
            if m == "!":
                w(f"\tif !vVal{x}(s.{n}) {{\n\t\treturn false\n\t}}\n")
            elif m == "?":
                w(f"\tif s.{n} != nil && !vVal{x}(*s.{n}) {{\n\t\treturn false\n\t}}\n")
            else:
                w(f"\tif !vVal{x}List(s.{n}) {{\n\t\treturn false\n\t}}\n")
        for r in rules:
            w(f"\tif {rule(r, fs)} {{\n\t\treturn false\n\t}}\n")
        w("\treturn true\n}\n")
    w("// ---- lists\n")
    for x in lists:
        w(f"func vEnc{x}List(l []{x}) string {{\n\tif len(l) == 0 {{\n\t\treturn \"\"\n\t}}\n\n\treturn vEnc{x}(l[0]) + vEnc{x}List(l[1:])\n}}\n")
        w(f"//verif:forall vVal{x}\nfunc vVal{x}List(l []{x}) bool {{ return len(l) == 0 || vVal{x}(l[0]) && vVal{x}List(l[1:]) }}\n")
    return HEAD + 'import (\n\t"strings"\n\n\t"vimagination.zapto.org/parser"\n)\n\n' + "\n".join(o)


def gen_lines(fs):
    """The statement about the places in a line for every text of a parameter,
    property, component and list."""
    o = []
    for n, v, t in re.findall(r"^func vEnc(\w+)\((\w) ([\w\[\]]+)\) string {", "\n".join(fs), re.M):
        if n.startswith("Prop") and not n.endswith("List"):
            c, e = "q != vAtStart && !(many && q == vAtEnd)", "== vAtEnd"
        elif n.startswith("Alarm") and not n.endswith("List"):
            c, e = "!many || q != vAtEnd", "== vAtEnd"
        elif n.endswith("List"):
            c, e = "!many || q != vAtEnd", "== vAtEnd"
            o.append(f"//verif:line induct={v}")
        elif re.match("P[A-Z]", n):
            c, e = "q < vInName", ">= vInName"
        else:
            c, e = "!many || q != vAtStart && q != vAtEnd", "== vAtEnd"
        o.append(f"func vEnc{n}_line({v} {t}, many bool, q int, r string) bool {{\n\tif !vVal{n}({v}) || {c} {{\n\t\treturn true\n\t}}\n\n\treturn vRun(many, q, r) {e}\n}}\n")
    return HEAD + "\n".join(o)


def main():
    fs = {"gen_params.go": params()}
    for n, f in list(globals().items()):
        if n in ("gen_props", "gen_sections"):
            fs[n + ".go"] = f()
    fs["gen_lines.go"] = gen_lines(list(fs.values()))
    for n, t in fs.items():
        p = os.path.join(OUT, n)
        with open(p, "w") as f:
            f.write(t)
        os.system("gofmt -w " + p)


main()

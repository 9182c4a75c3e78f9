package ics

// Code generated by tools/genspec.py. DO NOT EDIT.

import (
	"strings"

	"vimagination.zapto.org/parser"
)

// vPlain collects parameters.
func vPlain(m map[string]string, params []parser.Token) map[string]string {
	if len(params) == 0 {
		return m
	}

	n := vNext(params[1:], 1)

	return vPlain(vMapSet(m, strings.ToUpper(params[0].Data), strings.Join(vDatas(params[1:n]), ",")), params[n:])
}

// ---- ACTION

//verif:dec PropAction.decode
func vDecPropAction(p PropAction, params []parser.Token, value string) (PropAction, bool) {
	switch strings.ToUpper(value) {
	case "AUDIO":
		return ActionAudio, true
	case "DISPLAY":
		return ActionDisplay, true
	case "EMAIL":
		return ActionEmail, true
	}

	return p, false
}

//verif:enc PropAction.encode
func vEncPropAction(p PropAction) string {
	switch p {
	case ActionAudio:
		return "ACTION:AUDIO\r\n"
	case ActionDisplay:
		return "ACTION:DISPLAY\r\n"
	case ActionEmail:
		return "ACTION:EMAIL\r\n"
	}

	return "ACTION:\r\n"
}

//verif:chk PropAction.valid
func vValPropAction(p PropAction) bool {
	return p == ActionAudio || p == ActionDisplay || p == ActionEmail
}

// ---- ATTACH

func vParAttachment(p PropAttachment, vt int, m map[string]string, params []parser.Token) (PropAttachment, int, map[string]string, bool) {
	if len(params) == 0 {
		return p, vt, m, true
	}

	n := vNext(params[1:], 1)
	vs := params[1:n]

	switch strings.ToUpper(params[0].Data) {
	case "FMTTYPE":
		if p.FormatType != nil {
			return p, vt, m, false
		}

		x, ok := vDecPFormatType(ParamFormatType(""), vs)
		if !ok {
			return p, vt, m, false
		}

		p.FormatType = &x
	case "VALUE":
		if len(vs) != 1 || vt != -1 {
			return p, vt, m, false
		}

		switch strings.ToUpper(vs[0].Data) {
		case "URI":
			vt = 0
		case "BINARY":
			vt = 1
		default:
			return p, vt, m, false
		}
	default:
		m = vMapSet(m, strings.ToUpper(params[0].Data), strings.Join(vDatas(vs), ","))
	}

	return vParAttachment(p, vt, m, params[n:])
}

//verif:dec PropAttachment.decode
func vDecPropAttachment(p PropAttachment, params []parser.Token, value string) (PropAttachment, bool) {
	p, vt, m, ok := vParAttachment(p, -1, map[string]string{}, params)
	if !ok {
		return p, false
	}

	if vt == 1 {
		x, ok := vDecBinary(nil, m, value)
		p.Binary = &x

		return p, ok
	}

	x, ok := vDecURI(URI{}, m, value)
	p.URI = &x

	return p, ok
}

//verif:enc PropAttachment.encode
func vEncPropAttachment(p PropAttachment) string {
	s := "ATTACH"

	if p.FormatType != nil {
		s += vEncPFormatType(*p.FormatType)
	}

	if p.URI != nil {
		s += ":" + vEncURI((*p.URI))
	}

	if p.Binary != nil {
		s += ";VALUE=BINARY" + ";ENCODING=BASE64" + ":" + vEncBinary((*p.Binary))
	}

	return s + "\r\n"
}

//verif:chk PropAttachment.valid
func vValPropAttachment(p PropAttachment) bool {
	if p.FormatType != nil && !vValPFormatType(*p.FormatType) {
		return false
	}

	n := 0

	if p.URI != nil {
		if !vValURI(*p.URI) {
			return false
		}

		n++
	}

	if p.Binary != nil {
		if !vValBinary(*p.Binary) {
			return false
		}

		n++
	}

	return n == 1
}

// ---- ATTENDEE

func vParAttendee(p PropAttendee, m map[string]string, params []parser.Token) (PropAttendee, map[string]string, bool) {
	if len(params) == 0 {
		return p, m, true
	}

	n := vNext(params[1:], 1)
	vs := params[1:n]

	switch strings.ToUpper(params[0].Data) {
	case "CUTYPE":
		if p.CalendarUserType != nil {
			return p, m, false
		}

		x, ok := vDecPCalendarUserType(ParamCalendarUserType(0), vs)
		if !ok {
			return p, m, false
		}

		p.CalendarUserType = &x
	case "MEMBER":
		if p.Member != nil {
			return p, m, false
		}

		x, ok := vDecPMember(p.Member, vs)
		if !ok {
			return p, m, false
		}

		p.Member = x
	case "ROLE":
		if p.ParticipationRole != nil {
			return p, m, false
		}

		x, ok := vDecPParticipationRole(ParamParticipationRole(0), vs)
		if !ok {
			return p, m, false
		}

		p.ParticipationRole = &x
	case "PARTSTAT":
		if p.ParticipationStatus != nil {
			return p, m, false
		}

		x, ok := vDecPParticipationStatus(ParamParticipationStatus(0), vs)
		if !ok {
			return p, m, false
		}

		p.ParticipationStatus = &x
	case "RSVP":
		if p.RSVP != nil {
			return p, m, false
		}

		x, ok := vDecPRSVP(ParamRSVP(false), vs)
		if !ok {
			return p, m, false
		}

		p.RSVP = &x
	case "DELEGATED-TO":
		if p.Delagatee != nil {
			return p, m, false
		}

		x, ok := vDecPDelagatee(p.Delagatee, vs)
		if !ok {
			return p, m, false
		}

		p.Delagatee = x
	case "DELEGATED-FROM":
		if p.Delegator != nil {
			return p, m, false
		}

		x, ok := vDecPDelegator(p.Delegator, vs)
		if !ok {
			return p, m, false
		}

		p.Delegator = x
	case "SENT-BY":
		if p.SentBy != nil {
			return p, m, false
		}

		x, ok := vDecPSentBy(ParamSentBy(""), vs)
		if !ok {
			return p, m, false
		}

		p.SentBy = &x
	case "CN":
		if p.CommonName != nil {
			return p, m, false
		}

		x, ok := vDecPCommonName(ParamCommonName(""), vs)
		if !ok {
			return p, m, false
		}

		p.CommonName = &x
	case "DIR":
		if p.DirectoryEntry != nil {
			return p, m, false
		}

		x, ok := vDecPDirectoryEntry(ParamDirectoryEntry(""), vs)
		if !ok {
			return p, m, false
		}

		p.DirectoryEntry = &x
	case "LANGUAGE":
		if p.Language != nil {
			return p, m, false
		}

		x, ok := vDecPLanguage(ParamLanguage(""), vs)
		if !ok {
			return p, m, false
		}

		p.Language = &x
	default:
		m = vMapSet(m, strings.ToUpper(params[0].Data), strings.Join(vDatas(vs), ","))
	}

	return vParAttendee(p, m, params[n:])
}

//verif:dec PropAttendee.decode
func vDecPropAttendee(p PropAttendee, params []parser.Token, value string) (PropAttendee, bool) {
	p, m, ok := vParAttendee(p, map[string]string{}, params)
	if !ok {
		return p, false
	}

	p.CalendarAddress, ok = vDecCalendarAddress(p.CalendarAddress, m, value)

	return p, ok
}

//verif:enc PropAttendee.encode
func vEncPropAttendee(p PropAttendee) string {
	s := "ATTENDEE"

	if p.CalendarUserType != nil {
		s += vEncPCalendarUserType(*p.CalendarUserType)
	}

	if p.Member != nil {
		s += vEncPMember(p.Member)
	}

	if p.ParticipationRole != nil {
		s += vEncPParticipationRole(*p.ParticipationRole)
	}

	if p.ParticipationStatus != nil {
		s += vEncPParticipationStatus(*p.ParticipationStatus)
	}

	if p.RSVP != nil {
		s += vEncPRSVP(*p.RSVP)
	}

	if p.Delagatee != nil {
		s += vEncPDelagatee(p.Delagatee)
	}

	if p.Delegator != nil {
		s += vEncPDelegator(p.Delegator)
	}

	if p.SentBy != nil {
		s += vEncPSentBy(*p.SentBy)
	}

	if p.CommonName != nil {
		s += vEncPCommonName(*p.CommonName)
	}

	if p.DirectoryEntry != nil {
		s += vEncPDirectoryEntry(*p.DirectoryEntry)
	}

	if p.Language != nil {
		s += vEncPLanguage(*p.Language)
	}

	return s + ":" + vEncCalendarAddress(p.CalendarAddress) + "\r\n"
}

//verif:chk PropAttendee.valid
func vValPropAttendee(p PropAttendee) bool {
	if p.CalendarUserType != nil && !vValPCalendarUserType(*p.CalendarUserType) {
		return false
	}

	if p.Member != nil && !vValPMember(p.Member) {
		return false
	}

	if p.ParticipationRole != nil && !vValPParticipationRole(*p.ParticipationRole) {
		return false
	}

	if p.ParticipationStatus != nil && !vValPParticipationStatus(*p.ParticipationStatus) {
		return false
	}

	if p.RSVP != nil && !vValPRSVP(*p.RSVP) {
		return false
	}

	if p.Delagatee != nil && !vValPDelagatee(p.Delagatee) {
		return false
	}

	if p.Delegator != nil && !vValPDelegator(p.Delegator) {
		return false
	}

	if p.SentBy != nil && !vValPSentBy(*p.SentBy) {
		return false
	}

	if p.CommonName != nil && !vValPCommonName(*p.CommonName) {
		return false
	}

	if p.DirectoryEntry != nil && !vValPDirectoryEntry(*p.DirectoryEntry) {
		return false
	}

	if p.Language != nil && !vValPLanguage(*p.Language) {
		return false
	}

	return vValCalendarAddress(p.CalendarAddress)
}

// ---- CALSCALE

//verif:dec PropCalendarScale.decode
func vDecPropCalendarScale(p PropCalendarScale, params []parser.Token, value string) (PropCalendarScale, bool) {
	switch strings.ToUpper(value) {
	case "GREGORIAN":
		return CalendarScaleGregorian, true
	}

	return p, false
}

//verif:enc PropCalendarScale.encode
func vEncPropCalendarScale(p PropCalendarScale) string {
	switch p {
	case CalendarScaleGregorian:
		return "CALSCALE:GREGORIAN\r\n"
	}

	return "CALSCALE:\r\n"
}

//verif:chk PropCalendarScale.valid
func vValPropCalendarScale(p PropCalendarScale) bool { return p == CalendarScaleGregorian }

// ---- CATEGORIES

func vParCategories(p PropCategories, m map[string]string, params []parser.Token) (PropCategories, map[string]string, bool) {
	if len(params) == 0 {
		return p, m, true
	}

	n := vNext(params[1:], 1)
	vs := params[1:n]

	switch strings.ToUpper(params[0].Data) {
	case "LANGUAGE":
		if p.Language != nil {
			return p, m, false
		}

		x, ok := vDecPLanguage(ParamLanguage(""), vs)
		if !ok {
			return p, m, false
		}

		p.Language = &x
	default:
		m = vMapSet(m, strings.ToUpper(params[0].Data), strings.Join(vDatas(vs), ","))
	}

	return vParCategories(p, m, params[n:])
}

//verif:dec PropCategories.decode
func vDecPropCategories(p PropCategories, params []parser.Token, value string) (PropCategories, bool) {
	p, m, ok := vParCategories(p, map[string]string{}, params)
	if !ok {
		return p, false
	}

	p.MText, ok = vDecMText(p.MText, m, value)

	return p, ok
}

//verif:enc PropCategories.encode
func vEncPropCategories(p PropCategories) string {
	s := "CATEGORIES"

	if p.Language != nil {
		s += vEncPLanguage(*p.Language)
	}

	return s + ":" + vEncMText(p.MText) + "\r\n"
}

//verif:chk PropCategories.valid
func vValPropCategories(p PropCategories) bool {
	if p.Language != nil && !vValPLanguage(*p.Language) {
		return false
	}

	return vValMText(p.MText)
}

// ---- CLASS

//verif:dec PropClass.decode
func vDecPropClass(p PropClass, params []parser.Token, value string) (PropClass, bool) {
	switch strings.ToUpper(value) {
	case "PUBLIC":
		return ClassPublic, true
	case "PRIVATE":
		return ClassPrivate, true
	case "CONFIDENTIAL":
		return ClassConfidential, true
	}

	return p, false
}

//verif:enc PropClass.encode
func vEncPropClass(p PropClass) string {
	switch p {
	case ClassPublic:
		return "CLASS:PUBLIC\r\n"
	case ClassPrivate:
		return "CLASS:PRIVATE\r\n"
	case ClassConfidential:
		return "CLASS:CONFIDENTIAL\r\n"
	}

	return "CLASS:\r\n"
}

//verif:chk PropClass.valid
func vValPropClass(p PropClass) bool {
	return p == ClassPublic || p == ClassPrivate || p == ClassConfidential
}

// ---- COMMENT

func vParComment(p PropComment, m map[string]string, params []parser.Token) (PropComment, map[string]string, bool) {
	if len(params) == 0 {
		return p, m, true
	}

	n := vNext(params[1:], 1)
	vs := params[1:n]

	switch strings.ToUpper(params[0].Data) {
	case "ALTREP":
		if p.AlternativeRepresentation != nil {
			return p, m, false
		}

		x, ok := vDecPAlternativeRepresentation(ParamAlternativeRepresentation{}, vs)
		if !ok {
			return p, m, false
		}

		p.AlternativeRepresentation = &x
	case "LANGUAGE":
		if p.Language != nil {
			return p, m, false
		}

		x, ok := vDecPLanguage(ParamLanguage(""), vs)
		if !ok {
			return p, m, false
		}

		p.Language = &x
	default:
		m = vMapSet(m, strings.ToUpper(params[0].Data), strings.Join(vDatas(vs), ","))
	}

	return vParComment(p, m, params[n:])
}

//verif:dec PropComment.decode
func vDecPropComment(p PropComment, params []parser.Token, value string) (PropComment, bool) {
	p, m, ok := vParComment(p, map[string]string{}, params)
	if !ok {
		return p, false
	}

	p.Text, ok = vDecText(p.Text, m, value)

	return p, ok
}

//verif:enc PropComment.encode
func vEncPropComment(p PropComment) string {
	s := "COMMENT"

	if p.AlternativeRepresentation != nil {
		s += vEncPAlternativeRepresentation(*p.AlternativeRepresentation)
	}

	if p.Language != nil {
		s += vEncPLanguage(*p.Language)
	}

	return s + ":" + vEncText(p.Text) + "\r\n"
}

//verif:chk PropComment.valid
func vValPropComment(p PropComment) bool {
	if p.AlternativeRepresentation != nil && !vValPAlternativeRepresentation(*p.AlternativeRepresentation) {
		return false
	}

	if p.Language != nil && !vValPLanguage(*p.Language) {
		return false
	}

	return vValText(p.Text)
}

// ---- COMPLETED

//verif:dec PropCompleted.decode
func vDecPropCompleted(p PropCompleted, params []parser.Token, value string) (PropCompleted, bool) {
	x, ok := vDecDateTime(DateTime{}, vPlain(map[string]string{}, params), value)

	return PropCompleted(x), ok
}

//verif:enc PropCompleted.encode
func vEncPropCompleted(p PropCompleted) string {
	x := DateTime(p)

	return "COMPLETED" + vZone(x.Time) + ":" + vEncDateTime(x) + "\r\n"
}

//verif:chk PropCompleted.valid
func vValPropCompleted(p PropCompleted) bool {
	return vValDateTime(DateTime(p))
}

// ---- CONTACT

func vParContact(p PropContact, m map[string]string, params []parser.Token) (PropContact, map[string]string, bool) {
	if len(params) == 0 {
		return p, m, true
	}

	n := vNext(params[1:], 1)
	vs := params[1:n]

	switch strings.ToUpper(params[0].Data) {
	case "ALTREP":
		if p.AlternativeRepresentation != nil {
			return p, m, false
		}

		x, ok := vDecPAlternativeRepresentation(ParamAlternativeRepresentation{}, vs)
		if !ok {
			return p, m, false
		}

		p.AlternativeRepresentation = &x
	case "LANGUAGE":
		if p.Language != nil {
			return p, m, false
		}

		x, ok := vDecPLanguage(ParamLanguage(""), vs)
		if !ok {
			return p, m, false
		}

		p.Language = &x
	default:
		m = vMapSet(m, strings.ToUpper(params[0].Data), strings.Join(vDatas(vs), ","))
	}

	return vParContact(p, m, params[n:])
}

//verif:dec PropContact.decode
func vDecPropContact(p PropContact, params []parser.Token, value string) (PropContact, bool) {
	p, m, ok := vParContact(p, map[string]string{}, params)
	if !ok {
		return p, false
	}

	p.Text, ok = vDecText(p.Text, m, value)

	return p, ok
}

//verif:enc PropContact.encode
func vEncPropContact(p PropContact) string {
	s := "CONTACT"

	if p.AlternativeRepresentation != nil {
		s += vEncPAlternativeRepresentation(*p.AlternativeRepresentation)
	}

	if p.Language != nil {
		s += vEncPLanguage(*p.Language)
	}

	return s + ":" + vEncText(p.Text) + "\r\n"
}

//verif:chk PropContact.valid
func vValPropContact(p PropContact) bool {
	if p.AlternativeRepresentation != nil && !vValPAlternativeRepresentation(*p.AlternativeRepresentation) {
		return false
	}

	if p.Language != nil && !vValPLanguage(*p.Language) {
		return false
	}

	return vValText(p.Text)
}

// ---- CREATED

//verif:dec PropCreated.decode
func vDecPropCreated(p PropCreated, params []parser.Token, value string) (PropCreated, bool) {
	x, ok := vDecDateTime(DateTime{}, vPlain(map[string]string{}, params), value)

	return PropCreated(x), ok
}

//verif:enc PropCreated.encode
func vEncPropCreated(p PropCreated) string {
	x := DateTime(p)

	return "CREATED" + vZone(x.Time) + ":" + vEncDateTime(x) + "\r\n"
}

//verif:chk PropCreated.valid
func vValPropCreated(p PropCreated) bool {
	return vValDateTime(DateTime(p))
}

// ---- DESCRIPTION

func vParDescription(p PropDescription, m map[string]string, params []parser.Token) (PropDescription, map[string]string, bool) {
	if len(params) == 0 {
		return p, m, true
	}

	n := vNext(params[1:], 1)
	vs := params[1:n]

	switch strings.ToUpper(params[0].Data) {
	case "ALTREP":
		if p.AlternativeRepresentation != nil {
			return p, m, false
		}

		x, ok := vDecPAlternativeRepresentation(ParamAlternativeRepresentation{}, vs)
		if !ok {
			return p, m, false
		}

		p.AlternativeRepresentation = &x
	case "LANGUAGE":
		if p.Language != nil {
			return p, m, false
		}

		x, ok := vDecPLanguage(ParamLanguage(""), vs)
		if !ok {
			return p, m, false
		}

		p.Language = &x
	default:
		m = vMapSet(m, strings.ToUpper(params[0].Data), strings.Join(vDatas(vs), ","))
	}

	return vParDescription(p, m, params[n:])
}

//verif:dec PropDescription.decode
func vDecPropDescription(p PropDescription, params []parser.Token, value string) (PropDescription, bool) {
	p, m, ok := vParDescription(p, map[string]string{}, params)
	if !ok {
		return p, false
	}

	p.Text, ok = vDecText(p.Text, m, value)

	return p, ok
}

//verif:enc PropDescription.encode
func vEncPropDescription(p PropDescription) string {
	s := "DESCRIPTION"

	if p.AlternativeRepresentation != nil {
		s += vEncPAlternativeRepresentation(*p.AlternativeRepresentation)
	}

	if p.Language != nil {
		s += vEncPLanguage(*p.Language)
	}

	return s + ":" + vEncText(p.Text) + "\r\n"
}

//verif:chk PropDescription.valid
func vValPropDescription(p PropDescription) bool {
	if p.AlternativeRepresentation != nil && !vValPAlternativeRepresentation(*p.AlternativeRepresentation) {
		return false
	}

	if p.Language != nil && !vValPLanguage(*p.Language) {
		return false
	}

	return vValText(p.Text)
}

// ---- DTEND

func vParDateTimeEnd(p PropDateTimeEnd, vt int, m map[string]string, params []parser.Token) (PropDateTimeEnd, int, map[string]string, bool) {
	if len(params) == 0 {
		return p, vt, m, true
	}

	n := vNext(params[1:], 1)
	vs := params[1:n]

	switch strings.ToUpper(params[0].Data) {
	case "VALUE":
		if len(vs) != 1 || vt != -1 {
			return p, vt, m, false
		}

		switch strings.ToUpper(vs[0].Data) {
		case "DATE-TIME":
			vt = 0
		case "DATE":
			vt = 1
		default:
			return p, vt, m, false
		}
	default:
		m = vMapSet(m, strings.ToUpper(params[0].Data), strings.Join(vDatas(vs), ","))
	}

	return vParDateTimeEnd(p, vt, m, params[n:])
}

//verif:dec PropDateTimeEnd.decode
func vDecPropDateTimeEnd(p PropDateTimeEnd, params []parser.Token, value string) (PropDateTimeEnd, bool) {
	p, vt, m, ok := vParDateTimeEnd(p, -1, map[string]string{}, params)
	if !ok {
		return p, false
	}

	if vt == 1 {
		x, ok := vDecDate(Date{}, m, value)
		p.Date = &x

		return p, ok
	}

	x, ok := vDecDateTime(DateTime{}, m, value)
	p.DateTime = &x

	return p, ok
}

//verif:enc PropDateTimeEnd.encode
func vEncPropDateTimeEnd(p PropDateTimeEnd) string {
	s := "DTEND"

	if p.DateTime != nil {
		s += vZone((*p.DateTime).Time) + ":" + vEncDateTime((*p.DateTime))
	}

	if p.Date != nil {
		s += ";VALUE=DATE" + ":" + vEncDate((*p.Date))
	}

	return s + "\r\n"
}

//verif:chk PropDateTimeEnd.valid
func vValPropDateTimeEnd(p PropDateTimeEnd) bool {
	n := 0

	if p.DateTime != nil {
		if !vValDateTime(*p.DateTime) {
			return false
		}

		n++
	}

	if p.Date != nil {
		if !vValDate(*p.Date) {
			return false
		}

		n++
	}

	return n == 1
}

// ---- DTSTAMP

//verif:dec PropDateTimeStamp.decode
func vDecPropDateTimeStamp(p PropDateTimeStamp, params []parser.Token, value string) (PropDateTimeStamp, bool) {
	x, ok := vDecDateTime(DateTime{}, vPlain(map[string]string{}, params), value)

	return PropDateTimeStamp(x), ok
}

//verif:enc PropDateTimeStamp.encode
func vEncPropDateTimeStamp(p PropDateTimeStamp) string {
	x := DateTime(p)

	return "DTSTAMP" + vZone(x.Time) + ":" + vEncDateTime(x) + "\r\n"
}

//verif:chk PropDateTimeStamp.valid
func vValPropDateTimeStamp(p PropDateTimeStamp) bool {
	return vValDateTime(DateTime(p))
}

// ---- DTSTART

func vParDateTimeStart(p PropDateTimeStart, vt int, m map[string]string, params []parser.Token) (PropDateTimeStart, int, map[string]string, bool) {
	if len(params) == 0 {
		return p, vt, m, true
	}

	n := vNext(params[1:], 1)
	vs := params[1:n]

	switch strings.ToUpper(params[0].Data) {
	case "VALUE":
		if len(vs) != 1 || vt != -1 {
			return p, vt, m, false
		}

		switch strings.ToUpper(vs[0].Data) {
		case "DATE-TIME":
			vt = 0
		case "DATE":
			vt = 1
		default:
			return p, vt, m, false
		}
	default:
		m = vMapSet(m, strings.ToUpper(params[0].Data), strings.Join(vDatas(vs), ","))
	}

	return vParDateTimeStart(p, vt, m, params[n:])
}

//verif:dec PropDateTimeStart.decode
func vDecPropDateTimeStart(p PropDateTimeStart, params []parser.Token, value string) (PropDateTimeStart, bool) {
	p, vt, m, ok := vParDateTimeStart(p, -1, map[string]string{}, params)
	if !ok {
		return p, false
	}

	if vt == 1 {
		x, ok := vDecDate(Date{}, m, value)
		p.Date = &x

		return p, ok
	}

	x, ok := vDecDateTime(DateTime{}, m, value)
	p.DateTime = &x

	return p, ok
}

//verif:enc PropDateTimeStart.encode
func vEncPropDateTimeStart(p PropDateTimeStart) string {
	s := "DTSTART"

	if p.DateTime != nil {
		s += vZone((*p.DateTime).Time) + ":" + vEncDateTime((*p.DateTime))
	}

	if p.Date != nil {
		s += ";VALUE=DATE" + ":" + vEncDate((*p.Date))
	}

	return s + "\r\n"
}

//verif:chk PropDateTimeStart.valid
func vValPropDateTimeStart(p PropDateTimeStart) bool {
	n := 0

	if p.DateTime != nil {
		if !vValDateTime(*p.DateTime) {
			return false
		}

		n++
	}

	if p.Date != nil {
		if !vValDate(*p.Date) {
			return false
		}

		n++
	}

	return n == 1
}

// ---- DUE

func vParDue(p PropDue, vt int, m map[string]string, params []parser.Token) (PropDue, int, map[string]string, bool) {
	if len(params) == 0 {
		return p, vt, m, true
	}

	n := vNext(params[1:], 1)
	vs := params[1:n]

	switch strings.ToUpper(params[0].Data) {
	case "VALUE":
		if len(vs) != 1 || vt != -1 {
			return p, vt, m, false
		}

		switch strings.ToUpper(vs[0].Data) {
		case "DATE-TIME":
			vt = 0
		case "DATE":
			vt = 1
		default:
			return p, vt, m, false
		}
	default:
		m = vMapSet(m, strings.ToUpper(params[0].Data), strings.Join(vDatas(vs), ","))
	}

	return vParDue(p, vt, m, params[n:])
}

//verif:dec PropDue.decode
func vDecPropDue(p PropDue, params []parser.Token, value string) (PropDue, bool) {
	p, vt, m, ok := vParDue(p, -1, map[string]string{}, params)
	if !ok {
		return p, false
	}

	if vt == 1 {
		x, ok := vDecDate(Date{}, m, value)
		p.Date = &x

		return p, ok
	}

	x, ok := vDecDateTime(DateTime{}, m, value)
	p.DateTime = &x

	return p, ok
}

//verif:enc PropDue.encode
func vEncPropDue(p PropDue) string {
	s := "DUE"

	if p.DateTime != nil {
		s += vZone((*p.DateTime).Time) + ":" + vEncDateTime((*p.DateTime))
	}

	if p.Date != nil {
		s += ";VALUE=DATE" + ":" + vEncDate((*p.Date))
	}

	return s + "\r\n"
}

//verif:chk PropDue.valid
func vValPropDue(p PropDue) bool {
	n := 0

	if p.DateTime != nil {
		if !vValDateTime(*p.DateTime) {
			return false
		}

		n++
	}

	if p.Date != nil {
		if !vValDate(*p.Date) {
			return false
		}

		n++
	}

	return n == 1
}

// ---- DURATION

//verif:dec PropDuration.decode
func vDecPropDuration(p PropDuration, params []parser.Token, value string) (PropDuration, bool) {
	x, ok := vDecDuration(Duration{}, vPlain(map[string]string{}, params), value)

	return PropDuration(x), ok
}

//verif:enc PropDuration.encode
func vEncPropDuration(p PropDuration) string {
	x := Duration(p)

	return "DURATION" + ":" + vEncDuration(x) + "\r\n"
}

//verif:chk PropDuration.valid
func vValPropDuration(p PropDuration) bool {
	return vValDuration(Duration(p))
}

// ---- EXDATE

func vParExceptionDateTime(p PropExceptionDateTime, vt int, m map[string]string, params []parser.Token) (PropExceptionDateTime, int, map[string]string, bool) {
	if len(params) == 0 {
		return p, vt, m, true
	}

	n := vNext(params[1:], 1)
	vs := params[1:n]

	switch strings.ToUpper(params[0].Data) {
	case "VALUE":
		if len(vs) != 1 || vt != -1 {
			return p, vt, m, false
		}

		switch strings.ToUpper(vs[0].Data) {
		case "DATE-TIME":
			vt = 0
		case "DATE":
			vt = 1
		default:
			return p, vt, m, false
		}
	default:
		m = vMapSet(m, strings.ToUpper(params[0].Data), strings.Join(vDatas(vs), ","))
	}

	return vParExceptionDateTime(p, vt, m, params[n:])
}

//verif:dec PropExceptionDateTime.decode
func vDecPropExceptionDateTime(p PropExceptionDateTime, params []parser.Token, value string) (PropExceptionDateTime, bool) {
	p, vt, m, ok := vParExceptionDateTime(p, -1, map[string]string{}, params)
	if !ok {
		return p, false
	}

	if vt == 1 {
		x, ok := vDecDate(Date{}, m, value)
		p.Date = &x

		return p, ok
	}

	x, ok := vDecDateTime(DateTime{}, m, value)
	p.DateTime = &x

	return p, ok
}

//verif:enc PropExceptionDateTime.encode
func vEncPropExceptionDateTime(p PropExceptionDateTime) string {
	s := "EXDATE"

	if p.DateTime != nil {
		s += vZone((*p.DateTime).Time) + ":" + vEncDateTime((*p.DateTime))
	}

	if p.Date != nil {
		s += ";VALUE=DATE" + ":" + vEncDate((*p.Date))
	}

	return s + "\r\n"
}

//verif:chk PropExceptionDateTime.valid
func vValPropExceptionDateTime(p PropExceptionDateTime) bool {
	n := 0

	if p.DateTime != nil {
		if !vValDateTime(*p.DateTime) {
			return false
		}

		n++
	}

	if p.Date != nil {
		if !vValDate(*p.Date) {
			return false
		}

		n++
	}

	return n == 1
}

// ---- FREEBUSY

func vParFreeBusy(p PropFreeBusy, m map[string]string, params []parser.Token) (PropFreeBusy, map[string]string, bool) {
	if len(params) == 0 {
		return p, m, true
	}

	n := vNext(params[1:], 1)
	vs := params[1:n]

	switch strings.ToUpper(params[0].Data) {
	case "FBTYPE":
		if p.FreeBusyType != nil {
			return p, m, false
		}

		x, ok := vDecPFreeBusyType(ParamFreeBusyType(0), vs)
		if !ok {
			return p, m, false
		}

		p.FreeBusyType = &x
	default:
		m = vMapSet(m, strings.ToUpper(params[0].Data), strings.Join(vDatas(vs), ","))
	}

	return vParFreeBusy(p, m, params[n:])
}

//verif:dec PropFreeBusy.decode
func vDecPropFreeBusy(p PropFreeBusy, params []parser.Token, value string) (PropFreeBusy, bool) {
	p, m, ok := vParFreeBusy(p, map[string]string{}, params)
	if !ok {
		return p, false
	}

	p.Period, ok = vDecPeriod(p.Period, m, value)

	return p, ok
}

//verif:enc PropFreeBusy.encode
func vEncPropFreeBusy(p PropFreeBusy) string {
	s := "FREEBUSY"

	if p.FreeBusyType != nil {
		s += vEncPFreeBusyType(*p.FreeBusyType)
	}

	return s + vZone(p.Period.Start.Time) + ":" + vEncPeriod(p.Period) + "\r\n"
}

//verif:chk PropFreeBusy.valid
func vValPropFreeBusy(p PropFreeBusy) bool {
	if p.FreeBusyType != nil && !vValPFreeBusyType(*p.FreeBusyType) {
		return false
	}

	return vValPeriod(p.Period)
}

// ---- GEO

//verif:dec PropGeo.decode
func vDecPropGeo(p PropGeo, params []parser.Token, value string) (PropGeo, bool) {
	x, ok := vDecTFloat(TFloat{}, vPlain(map[string]string{}, params), value)

	return PropGeo(x), ok
}

//verif:enc PropGeo.encode
func vEncPropGeo(p PropGeo) string {
	x := TFloat(p)

	return "GEO" + ":" + vEncTFloat(x) + "\r\n"
}

//verif:chk PropGeo.valid
func vValPropGeo(p PropGeo) bool {
	return vValTFloat(TFloat(p))
}

// ---- LAST-MODIFIED

//verif:dec PropLastModified.decode
func vDecPropLastModified(p PropLastModified, params []parser.Token, value string) (PropLastModified, bool) {
	x, ok := vDecDateTime(DateTime{}, vPlain(map[string]string{}, params), value)

	return PropLastModified(x), ok
}

//verif:enc PropLastModified.encode
func vEncPropLastModified(p PropLastModified) string {
	x := DateTime(p)

	return "LAST-MODIFIED" + vZone(x.Time) + ":" + vEncDateTime(x) + "\r\n"
}

//verif:chk PropLastModified.valid
func vValPropLastModified(p PropLastModified) bool {
	return vValDateTime(DateTime(p))
}

// ---- LOCATION

func vParLocation(p PropLocation, m map[string]string, params []parser.Token) (PropLocation, map[string]string, bool) {
	if len(params) == 0 {
		return p, m, true
	}

	n := vNext(params[1:], 1)
	vs := params[1:n]

	switch strings.ToUpper(params[0].Data) {
	case "ALTREP":
		if p.AlternativeRepresentation != nil {
			return p, m, false
		}

		x, ok := vDecPAlternativeRepresentation(ParamAlternativeRepresentation{}, vs)
		if !ok {
			return p, m, false
		}

		p.AlternativeRepresentation = &x
	case "LANGUAGE":
		if p.Language != nil {
			return p, m, false
		}

		x, ok := vDecPLanguage(ParamLanguage(""), vs)
		if !ok {
			return p, m, false
		}

		p.Language = &x
	default:
		m = vMapSet(m, strings.ToUpper(params[0].Data), strings.Join(vDatas(vs), ","))
	}

	return vParLocation(p, m, params[n:])
}

//verif:dec PropLocation.decode
func vDecPropLocation(p PropLocation, params []parser.Token, value string) (PropLocation, bool) {
	p, m, ok := vParLocation(p, map[string]string{}, params)
	if !ok {
		return p, false
	}

	p.Text, ok = vDecText(p.Text, m, value)

	return p, ok
}

//verif:enc PropLocation.encode
func vEncPropLocation(p PropLocation) string {
	s := "LOCATION"

	if p.AlternativeRepresentation != nil {
		s += vEncPAlternativeRepresentation(*p.AlternativeRepresentation)
	}

	if p.Language != nil {
		s += vEncPLanguage(*p.Language)
	}

	return s + ":" + vEncText(p.Text) + "\r\n"
}

//verif:chk PropLocation.valid
func vValPropLocation(p PropLocation) bool {
	if p.AlternativeRepresentation != nil && !vValPAlternativeRepresentation(*p.AlternativeRepresentation) {
		return false
	}

	if p.Language != nil && !vValPLanguage(*p.Language) {
		return false
	}

	return vValText(p.Text)
}

// ---- METHOD

//verif:dec PropMethod.decode
func vDecPropMethod(p PropMethod, params []parser.Token, value string) (PropMethod, bool) {
	x, ok := vDecText("", vPlain(map[string]string{}, params), value)

	return PropMethod(x), ok
}

//verif:enc PropMethod.encode
func vEncPropMethod(p PropMethod) string {
	x := Text(p)

	return "METHOD" + ":" + vEncText(x) + "\r\n"
}

//verif:chk PropMethod.valid
func vValPropMethod(p PropMethod) bool {
	return vValText(Text(p))
}

// ---- ORGANIZER

func vParOrganizer(p PropOrganizer, m map[string]string, params []parser.Token) (PropOrganizer, map[string]string, bool) {
	if len(params) == 0 {
		return p, m, true
	}

	n := vNext(params[1:], 1)
	vs := params[1:n]

	switch strings.ToUpper(params[0].Data) {
	case "CN":
		if p.CommonName != nil {
			return p, m, false
		}

		x, ok := vDecPCommonName(ParamCommonName(""), vs)
		if !ok {
			return p, m, false
		}

		p.CommonName = &x
	case "DIR":
		if p.DirectoryEntry != nil {
			return p, m, false
		}

		x, ok := vDecPDirectoryEntry(ParamDirectoryEntry(""), vs)
		if !ok {
			return p, m, false
		}

		p.DirectoryEntry = &x
	case "SENT-BY":
		if p.SentBy != nil {
			return p, m, false
		}

		x, ok := vDecPSentBy(ParamSentBy(""), vs)
		if !ok {
			return p, m, false
		}

		p.SentBy = &x
	case "LANGUAGE":
		if p.Language != nil {
			return p, m, false
		}

		x, ok := vDecPLanguage(ParamLanguage(""), vs)
		if !ok {
			return p, m, false
		}

		p.Language = &x
	default:
		m = vMapSet(m, strings.ToUpper(params[0].Data), strings.Join(vDatas(vs), ","))
	}

	return vParOrganizer(p, m, params[n:])
}

//verif:dec PropOrganizer.decode
func vDecPropOrganizer(p PropOrganizer, params []parser.Token, value string) (PropOrganizer, bool) {
	p, m, ok := vParOrganizer(p, map[string]string{}, params)
	if !ok {
		return p, false
	}

	p.CalendarAddress, ok = vDecCalendarAddress(p.CalendarAddress, m, value)

	return p, ok
}

//verif:enc PropOrganizer.encode
func vEncPropOrganizer(p PropOrganizer) string {
	s := "ORGANIZER"

	if p.CommonName != nil {
		s += vEncPCommonName(*p.CommonName)
	}

	if p.DirectoryEntry != nil {
		s += vEncPDirectoryEntry(*p.DirectoryEntry)
	}

	if p.SentBy != nil {
		s += vEncPSentBy(*p.SentBy)
	}

	if p.Language != nil {
		s += vEncPLanguage(*p.Language)
	}

	return s + ":" + vEncCalendarAddress(p.CalendarAddress) + "\r\n"
}

//verif:chk PropOrganizer.valid
func vValPropOrganizer(p PropOrganizer) bool {
	if p.CommonName != nil && !vValPCommonName(*p.CommonName) {
		return false
	}

	if p.DirectoryEntry != nil && !vValPDirectoryEntry(*p.DirectoryEntry) {
		return false
	}

	if p.SentBy != nil && !vValPSentBy(*p.SentBy) {
		return false
	}

	if p.Language != nil && !vValPLanguage(*p.Language) {
		return false
	}

	return vValCalendarAddress(p.CalendarAddress)
}

// ---- PERCENT-COMPLETE

//verif:dec PropPercentComplete.decode
func vDecPropPercentComplete(p PropPercentComplete, params []parser.Token, value string) (PropPercentComplete, bool) {
	x, ok := vDecInteger(0, vPlain(map[string]string{}, params), value)

	return PropPercentComplete(x), ok
}

//verif:enc PropPercentComplete.encode
func vEncPropPercentComplete(p PropPercentComplete) string {
	x := Integer(p)

	return "PERCENT-COMPLETE" + ":" + vEncInteger(x) + "\r\n"
}

//verif:chk PropPercentComplete.valid
func vValPropPercentComplete(p PropPercentComplete) bool {
	return vValInteger(Integer(p))
}

// ---- PRIORITY

//verif:dec PropPriority.decode
func vDecPropPriority(p PropPriority, params []parser.Token, value string) (PropPriority, bool) {
	x, ok := vDecInteger(0, vPlain(map[string]string{}, params), value)

	return PropPriority(x), ok
}

//verif:enc PropPriority.encode
func vEncPropPriority(p PropPriority) string {
	x := Integer(p)

	return "PRIORITY" + ":" + vEncInteger(x) + "\r\n"
}

//verif:chk PropPriority.valid
func vValPropPriority(p PropPriority) bool {
	return vValInteger(Integer(p))
}

// ---- PRODID

//verif:dec PropProductID.decode
func vDecPropProductID(p PropProductID, params []parser.Token, value string) (PropProductID, bool) {
	x, ok := vDecText("", vPlain(map[string]string{}, params), value)

	return PropProductID(x), ok
}

//verif:enc PropProductID.encode
func vEncPropProductID(p PropProductID) string {
	x := Text(p)

	return "PRODID" + ":" + vEncText(x) + "\r\n"
}

//verif:chk PropProductID.valid
func vValPropProductID(p PropProductID) bool {
	return vValText(Text(p))
}

// ---- RDATE

func vParRecurrenceDateTimes(p PropRecurrenceDateTimes, vt int, m map[string]string, params []parser.Token) (PropRecurrenceDateTimes, int, map[string]string, bool) {
	if len(params) == 0 {
		return p, vt, m, true
	}

	n := vNext(params[1:], 1)
	vs := params[1:n]

	switch strings.ToUpper(params[0].Data) {
	case "VALUE":
		if len(vs) != 1 || vt != -1 {
			return p, vt, m, false
		}

		switch strings.ToUpper(vs[0].Data) {
		case "DATE-TIME":
			vt = 0
		case "DATE":
			vt = 1
		case "PERIOD":
			vt = 2
		default:
			return p, vt, m, false
		}
	default:
		m = vMapSet(m, strings.ToUpper(params[0].Data), strings.Join(vDatas(vs), ","))
	}

	return vParRecurrenceDateTimes(p, vt, m, params[n:])
}

//verif:dec PropRecurrenceDateTimes.decode
func vDecPropRecurrenceDateTimes(p PropRecurrenceDateTimes, params []parser.Token, value string) (PropRecurrenceDateTimes, bool) {
	p, vt, m, ok := vParRecurrenceDateTimes(p, -1, map[string]string{}, params)
	if !ok {
		return p, false
	}

	if vt == 1 {
		x, ok := vDecDate(Date{}, m, value)
		p.Date = &x

		return p, ok
	}

	if vt == 2 {
		x, ok := vDecPeriod(Period{}, m, value)
		p.Period = &x

		return p, ok
	}

	x, ok := vDecDateTime(DateTime{}, m, value)
	p.DateTime = &x

	return p, ok
}

//verif:enc PropRecurrenceDateTimes.encode
func vEncPropRecurrenceDateTimes(p PropRecurrenceDateTimes) string {
	s := "RDATE"

	if p.DateTime != nil {
		s += vZone((*p.DateTime).Time) + ":" + vEncDateTime((*p.DateTime))
	}

	if p.Date != nil {
		s += ";VALUE=DATE" + ":" + vEncDate((*p.Date))
	}

	if p.Period != nil {
		s += ";VALUE=PERIOD" + vZone((*p.Period).Start.Time) + ":" + vEncPeriod((*p.Period))
	}

	return s + "\r\n"
}

//verif:chk PropRecurrenceDateTimes.valid
func vValPropRecurrenceDateTimes(p PropRecurrenceDateTimes) bool {
	n := 0

	if p.DateTime != nil {
		if !vValDateTime(*p.DateTime) {
			return false
		}

		n++
	}

	if p.Date != nil {
		if !vValDate(*p.Date) {
			return false
		}

		n++
	}

	if p.Period != nil {
		if !vValPeriod(*p.Period) {
			return false
		}

		n++
	}

	return n == 1
}

// ---- RECURRENCE-ID

func vParRecurrenceID(p PropRecurrenceID, vt int, m map[string]string, params []parser.Token) (PropRecurrenceID, int, map[string]string, bool) {
	if len(params) == 0 {
		return p, vt, m, true
	}

	n := vNext(params[1:], 1)
	vs := params[1:n]

	switch strings.ToUpper(params[0].Data) {
	case "RANGE":
		if p.Range != nil {
			return p, vt, m, false
		}

		x, ok := vDecPRange(ParamRange{}, vs)
		if !ok {
			return p, vt, m, false
		}

		p.Range = &x
	case "VALUE":
		if len(vs) != 1 || vt != -1 {
			return p, vt, m, false
		}

		switch strings.ToUpper(vs[0].Data) {
		case "DATE-TIME":
			vt = 0
		case "DATE":
			vt = 1
		default:
			return p, vt, m, false
		}
	default:
		m = vMapSet(m, strings.ToUpper(params[0].Data), strings.Join(vDatas(vs), ","))
	}

	return vParRecurrenceID(p, vt, m, params[n:])
}

//verif:dec PropRecurrenceID.decode
func vDecPropRecurrenceID(p PropRecurrenceID, params []parser.Token, value string) (PropRecurrenceID, bool) {
	p, vt, m, ok := vParRecurrenceID(p, -1, map[string]string{}, params)
	if !ok {
		return p, false
	}

	if vt == 1 {
		x, ok := vDecDate(Date{}, m, value)
		p.Date = &x

		return p, ok
	}

	x, ok := vDecDateTime(DateTime{}, m, value)
	p.DateTime = &x

	return p, ok
}

//verif:enc PropRecurrenceID.encode
func vEncPropRecurrenceID(p PropRecurrenceID) string {
	s := "RECURRENCE-ID"

	if p.Range != nil {
		s += vEncPRange(*p.Range)
	}

	if p.DateTime != nil {
		s += vZone((*p.DateTime).Time) + ":" + vEncDateTime((*p.DateTime))
	}

	if p.Date != nil {
		s += ";VALUE=DATE" + ":" + vEncDate((*p.Date))
	}

	return s + "\r\n"
}

//verif:chk PropRecurrenceID.valid
func vValPropRecurrenceID(p PropRecurrenceID) bool {
	if p.Range != nil && !vValPRange(*p.Range) {
		return false
	}

	n := 0

	if p.DateTime != nil {
		if !vValDateTime(*p.DateTime) {
			return false
		}

		n++
	}

	if p.Date != nil {
		if !vValDate(*p.Date) {
			return false
		}

		n++
	}

	return n == 1
}

// ---- RELATED-TO

func vParRelatedTo(p PropRelatedTo, m map[string]string, params []parser.Token) (PropRelatedTo, map[string]string, bool) {
	if len(params) == 0 {
		return p, m, true
	}

	n := vNext(params[1:], 1)
	vs := params[1:n]

	switch strings.ToUpper(params[0].Data) {
	case "RELTYPE":
		if p.RelationshipType != nil {
			return p, m, false
		}

		x, ok := vDecPRelationshipType(ParamRelationshipType(0), vs)
		if !ok {
			return p, m, false
		}

		p.RelationshipType = &x
	default:
		m = vMapSet(m, strings.ToUpper(params[0].Data), strings.Join(vDatas(vs), ","))
	}

	return vParRelatedTo(p, m, params[n:])
}

//verif:dec PropRelatedTo.decode
func vDecPropRelatedTo(p PropRelatedTo, params []parser.Token, value string) (PropRelatedTo, bool) {
	p, m, ok := vParRelatedTo(p, map[string]string{}, params)
	if !ok {
		return p, false
	}

	p.Text, ok = vDecText(p.Text, m, value)

	return p, ok
}

//verif:enc PropRelatedTo.encode
func vEncPropRelatedTo(p PropRelatedTo) string {
	s := "RELATED-TO"

	if p.RelationshipType != nil {
		s += vEncPRelationshipType(*p.RelationshipType)
	}

	return s + ":" + vEncText(p.Text) + "\r\n"
}

//verif:chk PropRelatedTo.valid
func vValPropRelatedTo(p PropRelatedTo) bool {
	if p.RelationshipType != nil && !vValPRelationshipType(*p.RelationshipType) {
		return false
	}

	return vValText(p.Text)
}

// ---- REPEAT

//verif:dec PropRepeat.decode
func vDecPropRepeat(p PropRepeat, params []parser.Token, value string) (PropRepeat, bool) {
	x, ok := vDecInteger(0, vPlain(map[string]string{}, params), value)

	return PropRepeat(x), ok
}

//verif:enc PropRepeat.encode
func vEncPropRepeat(p PropRepeat) string {
	x := Integer(p)

	return "REPEAT" + ":" + vEncInteger(x) + "\r\n"
}

//verif:chk PropRepeat.valid
func vValPropRepeat(p PropRepeat) bool {
	return vValInteger(Integer(p))
}

// ---- REQUEST-STATUS

//verif:dec PropRequestStatus.decode
func vDecPropRequestStatus(p PropRequestStatus, params []parser.Token, value string) (PropRequestStatus, bool) {
	x, ok := vDecText("", vPlain(map[string]string{}, params), value)

	return PropRequestStatus(x), ok
}

//verif:enc PropRequestStatus.encode
func vEncPropRequestStatus(p PropRequestStatus) string {
	x := Text(p)

	return "REQUEST-STATUS" + ":" + vEncText(x) + "\r\n"
}

//verif:chk PropRequestStatus.valid
func vValPropRequestStatus(p PropRequestStatus) bool {
	return vValText(Text(p))
}

// ---- RESOURCES

func vParResources(p PropResources, m map[string]string, params []parser.Token) (PropResources, map[string]string, bool) {
	if len(params) == 0 {
		return p, m, true
	}

	n := vNext(params[1:], 1)
	vs := params[1:n]

	switch strings.ToUpper(params[0].Data) {
	case "ALTREP":
		if p.AlternativeRepresentation != nil {
			return p, m, false
		}

		x, ok := vDecPAlternativeRepresentation(ParamAlternativeRepresentation{}, vs)
		if !ok {
			return p, m, false
		}

		p.AlternativeRepresentation = &x
	case "LANGUAGE":
		if p.Language != nil {
			return p, m, false
		}

		x, ok := vDecPLanguage(ParamLanguage(""), vs)
		if !ok {
			return p, m, false
		}

		p.Language = &x
	default:
		m = vMapSet(m, strings.ToUpper(params[0].Data), strings.Join(vDatas(vs), ","))
	}

	return vParResources(p, m, params[n:])
}

//verif:dec PropResources.decode
func vDecPropResources(p PropResources, params []parser.Token, value string) (PropResources, bool) {
	p, m, ok := vParResources(p, map[string]string{}, params)
	if !ok {
		return p, false
	}

	p.MText, ok = vDecMText(p.MText, m, value)

	return p, ok
}

//verif:enc PropResources.encode
func vEncPropResources(p PropResources) string {
	s := "RESOURCES"

	if p.AlternativeRepresentation != nil {
		s += vEncPAlternativeRepresentation(*p.AlternativeRepresentation)
	}

	if p.Language != nil {
		s += vEncPLanguage(*p.Language)
	}

	return s + ":" + vEncMText(p.MText) + "\r\n"
}

//verif:chk PropResources.valid
func vValPropResources(p PropResources) bool {
	if p.AlternativeRepresentation != nil && !vValPAlternativeRepresentation(*p.AlternativeRepresentation) {
		return false
	}

	if p.Language != nil && !vValPLanguage(*p.Language) {
		return false
	}

	return vValMText(p.MText)
}

// ---- RRULE

//verif:dec PropRecurrenceRule.decode
func vDecPropRecurrenceRule(p PropRecurrenceRule, params []parser.Token, value string) (PropRecurrenceRule, bool) {
	x, ok := vDecRecur(Recur{}, vPlain(map[string]string{}, params), value)

	return PropRecurrenceRule(x), ok
}

//verif:enc PropRecurrenceRule.encode
func vEncPropRecurrenceRule(p PropRecurrenceRule) string {
	x := Recur(p)

	return "RRULE" + vZone(x.Until) + ":" + vEncRecur(x) + "\r\n"
}

//verif:chk PropRecurrenceRule.valid
func vValPropRecurrenceRule(p PropRecurrenceRule) bool {
	return vValRecur(Recur(p))
}

// ---- SEQUENCE

//verif:dec PropSequence.decode
func vDecPropSequence(p PropSequence, params []parser.Token, value string) (PropSequence, bool) {
	x, ok := vDecInteger(0, vPlain(map[string]string{}, params), value)

	return PropSequence(x), ok
}

//verif:enc PropSequence.encode
func vEncPropSequence(p PropSequence) string {
	x := Integer(p)

	return "SEQUENCE" + ":" + vEncInteger(x) + "\r\n"
}

//verif:chk PropSequence.valid
func vValPropSequence(p PropSequence) bool {
	return vValInteger(Integer(p))
}

// ---- STATUS

//verif:dec PropStatus.decode
func vDecPropStatus(p PropStatus, params []parser.Token, value string) (PropStatus, bool) {
	switch strings.ToUpper(value) {
	case "TENTATIVE":
		return StatusTentative, true
	case "CONFIRMED":
		return StatusConfirmed, true
	case "CANCELLED":
		return StatusCancelled, true
	case "NEEDS-ACTION":
		return StatusNeedsAction, true
	case "COMPLETED":
		return StatusCompleted, true
	case "IN-PROCESS":
		return StatusInProcess, true
	case "DRAFT":
		return StatusDraft, true
	case "FINAL":
		return StatusFinal, true
	}

	return p, false
}

//verif:enc PropStatus.encode
func vEncPropStatus(p PropStatus) string {
	switch p {
	case StatusTentative:
		return "STATUS:TENTATIVE\r\n"
	case StatusConfirmed:
		return "STATUS:CONFIRMED\r\n"
	case StatusCancelled:
		return "STATUS:CANCELLED\r\n"
	case StatusNeedsAction:
		return "STATUS:NEEDS-ACTION\r\n"
	case StatusCompleted:
		return "STATUS:COMPLETED\r\n"
	case StatusInProcess:
		return "STATUS:IN-PROCESS\r\n"
	case StatusDraft:
		return "STATUS:DRAFT\r\n"
	case StatusFinal:
		return "STATUS:FINAL\r\n"
	}

	return "STATUS:\r\n"
}

//verif:chk PropStatus.valid
func vValPropStatus(p PropStatus) bool {
	return p == StatusTentative || p == StatusConfirmed || p == StatusCancelled || p == StatusNeedsAction || p == StatusCompleted || p == StatusInProcess || p == StatusDraft || p == StatusFinal
}

// ---- SUMMARY

func vParSummary(p PropSummary, m map[string]string, params []parser.Token) (PropSummary, map[string]string, bool) {
	if len(params) == 0 {
		return p, m, true
	}

	n := vNext(params[1:], 1)
	vs := params[1:n]

	switch strings.ToUpper(params[0].Data) {
	case "ALTREP":
		if p.AlternativeRepresentation != nil {
			return p, m, false
		}

		x, ok := vDecPAlternativeRepresentation(ParamAlternativeRepresentation{}, vs)
		if !ok {
			return p, m, false
		}

		p.AlternativeRepresentation = &x
	case "LANGUAGE":
		if p.Language != nil {
			return p, m, false
		}

		x, ok := vDecPLanguage(ParamLanguage(""), vs)
		if !ok {
			return p, m, false
		}

		p.Language = &x
	default:
		m = vMapSet(m, strings.ToUpper(params[0].Data), strings.Join(vDatas(vs), ","))
	}

	return vParSummary(p, m, params[n:])
}

//verif:dec PropSummary.decode
func vDecPropSummary(p PropSummary, params []parser.Token, value string) (PropSummary, bool) {
	p, m, ok := vParSummary(p, map[string]string{}, params)
	if !ok {
		return p, false
	}

	p.Text, ok = vDecText(p.Text, m, value)

	return p, ok
}

//verif:enc PropSummary.encode
func vEncPropSummary(p PropSummary) string {
	s := "SUMMARY"

	if p.AlternativeRepresentation != nil {
		s += vEncPAlternativeRepresentation(*p.AlternativeRepresentation)
	}

	if p.Language != nil {
		s += vEncPLanguage(*p.Language)
	}

	return s + ":" + vEncText(p.Text) + "\r\n"
}

//verif:chk PropSummary.valid
func vValPropSummary(p PropSummary) bool {
	if p.AlternativeRepresentation != nil && !vValPAlternativeRepresentation(*p.AlternativeRepresentation) {
		return false
	}

	if p.Language != nil && !vValPLanguage(*p.Language) {
		return false
	}

	return vValText(p.Text)
}

// ---- TRANSP

//verif:dec PropTimeTransparency.decode
func vDecPropTimeTransparency(p PropTimeTransparency, params []parser.Token, value string) (PropTimeTransparency, bool) {
	switch strings.ToUpper(value) {
	case "OPAQUE":
		return TimeTransparencyOpaque, true
	case "TRANSPARENT":
		return TimeTransparencyTransparent, true
	}

	return p, false
}

//verif:enc PropTimeTransparency.encode
func vEncPropTimeTransparency(p PropTimeTransparency) string {
	switch p {
	case TimeTransparencyOpaque:
		return "TRANSP:OPAQUE\r\n"
	case TimeTransparencyTransparent:
		return "TRANSP:TRANSPARENT\r\n"
	}

	return "TRANSP:\r\n"
}

//verif:chk PropTimeTransparency.valid
func vValPropTimeTransparency(p PropTimeTransparency) bool {
	return p == TimeTransparencyOpaque || p == TimeTransparencyTransparent
}

// ---- TRIGGER

func vParTrigger(p PropTrigger, vt int, m map[string]string, params []parser.Token) (PropTrigger, int, map[string]string, bool) {
	if len(params) == 0 {
		return p, vt, m, true
	}

	n := vNext(params[1:], 1)
	vs := params[1:n]

	switch strings.ToUpper(params[0].Data) {
	case "VALUE":
		if len(vs) != 1 || vt != -1 {
			return p, vt, m, false
		}

		switch strings.ToUpper(vs[0].Data) {
		case "DURATION":
			vt = 0
		case "DATE-TIME":
			vt = 1
		default:
			return p, vt, m, false
		}
	default:
		m = vMapSet(m, strings.ToUpper(params[0].Data), strings.Join(vDatas(vs), ","))
	}

	return vParTrigger(p, vt, m, params[n:])
}

//verif:dec PropTrigger.decode
func vDecPropTrigger(p PropTrigger, params []parser.Token, value string) (PropTrigger, bool) {
	p, vt, m, ok := vParTrigger(p, -1, map[string]string{}, params)
	if !ok {
		return p, false
	}

	if vt == 1 {
		x, ok := vDecDateTime(DateTime{}, m, value)
		p.DateTime = &x

		return p, ok
	}

	x, ok := vDecDuration(Duration{}, m, value)
	p.Duration = &x

	return p, ok
}

//verif:enc PropTrigger.encode
func vEncPropTrigger(p PropTrigger) string {
	s := "TRIGGER"

	if p.Duration != nil {
		s += ":" + vEncDuration((*p.Duration))
	}

	if p.DateTime != nil {
		s += ";VALUE=DATE-TIME" + vZone((*p.DateTime).Time) + ":" + vEncDateTime((*p.DateTime))
	}

	return s + "\r\n"
}

//verif:chk PropTrigger.valid
func vValPropTrigger(p PropTrigger) bool {
	n := 0

	if p.Duration != nil {
		if !vValDuration(*p.Duration) {
			return false
		}

		n++
	}

	if p.DateTime != nil {
		if !vValDateTime(*p.DateTime) {
			return false
		}

		n++
	}

	return n == 1
}

// ---- TZID

//verif:dec PropTimezoneID.decode
func vDecPropTimezoneID(p PropTimezoneID, params []parser.Token, value string) (PropTimezoneID, bool) {
	x, ok := vDecText("", vPlain(map[string]string{}, params), value)

	return PropTimezoneID(x), ok
}

//verif:enc PropTimezoneID.encode
func vEncPropTimezoneID(p PropTimezoneID) string {
	x := Text(p)

	return "TZID" + ":" + vEncText(x) + "\r\n"
}

//verif:chk PropTimezoneID.valid
func vValPropTimezoneID(p PropTimezoneID) bool {
	return vValText(Text(p))
}

// ---- TZNAME

func vParTimezoneName(p PropTimezoneName, m map[string]string, params []parser.Token) (PropTimezoneName, map[string]string, bool) {
	if len(params) == 0 {
		return p, m, true
	}

	n := vNext(params[1:], 1)
	vs := params[1:n]

	switch strings.ToUpper(params[0].Data) {
	case "LANGUAGE":
		if p.Language != nil {
			return p, m, false
		}

		x, ok := vDecPLanguage(ParamLanguage(""), vs)
		if !ok {
			return p, m, false
		}

		p.Language = &x
	default:
		m = vMapSet(m, strings.ToUpper(params[0].Data), strings.Join(vDatas(vs), ","))
	}

	return vParTimezoneName(p, m, params[n:])
}

//verif:dec PropTimezoneName.decode
func vDecPropTimezoneName(p PropTimezoneName, params []parser.Token, value string) (PropTimezoneName, bool) {
	p, m, ok := vParTimezoneName(p, map[string]string{}, params)
	if !ok {
		return p, false
	}

	p.Text, ok = vDecText(p.Text, m, value)

	return p, ok
}

//verif:enc PropTimezoneName.encode
func vEncPropTimezoneName(p PropTimezoneName) string {
	s := "TZNAME"

	if p.Language != nil {
		s += vEncPLanguage(*p.Language)
	}

	return s + ":" + vEncText(p.Text) + "\r\n"
}

//verif:chk PropTimezoneName.valid
func vValPropTimezoneName(p PropTimezoneName) bool {
	if p.Language != nil && !vValPLanguage(*p.Language) {
		return false
	}

	return vValText(p.Text)
}

// ---- TZOFFSETFROM

//verif:dec PropTimezoneOffsetFrom.decode
func vDecPropTimezoneOffsetFrom(p PropTimezoneOffsetFrom, params []parser.Token, value string) (PropTimezoneOffsetFrom, bool) {
	x, ok := vDecUTCOffset(0, vPlain(map[string]string{}, params), value)

	return PropTimezoneOffsetFrom(x), ok
}

//verif:enc PropTimezoneOffsetFrom.encode
func vEncPropTimezoneOffsetFrom(p PropTimezoneOffsetFrom) string {
	x := UTCOffset(p)

	return "TZOFFSETFROM" + ":" + vEncUTCOffset(x) + "\r\n"
}

//verif:chk PropTimezoneOffsetFrom.valid
func vValPropTimezoneOffsetFrom(p PropTimezoneOffsetFrom) bool {
	return vValUTCOffset(UTCOffset(p))
}

// ---- TZOFFSETTO

//verif:dec PropTimezoneOffsetTo.decode
func vDecPropTimezoneOffsetTo(p PropTimezoneOffsetTo, params []parser.Token, value string) (PropTimezoneOffsetTo, bool) {
	x, ok := vDecUTCOffset(0, vPlain(map[string]string{}, params), value)

	return PropTimezoneOffsetTo(x), ok
}

//verif:enc PropTimezoneOffsetTo.encode
func vEncPropTimezoneOffsetTo(p PropTimezoneOffsetTo) string {
	x := UTCOffset(p)

	return "TZOFFSETTO" + ":" + vEncUTCOffset(x) + "\r\n"
}

//verif:chk PropTimezoneOffsetTo.valid
func vValPropTimezoneOffsetTo(p PropTimezoneOffsetTo) bool {
	return vValUTCOffset(UTCOffset(p))
}

// ---- TZURL

//verif:dec PropTimezoneURL.decode
func vDecPropTimezoneURL(p PropTimezoneURL, params []parser.Token, value string) (PropTimezoneURL, bool) {
	x, ok := vDecURI(URI{}, vPlain(map[string]string{}, params), value)

	return PropTimezoneURL(x), ok
}

//verif:enc PropTimezoneURL.encode
func vEncPropTimezoneURL(p PropTimezoneURL) string {
	x := URI(p)

	return "TZURL" + ":" + vEncURI(x) + "\r\n"
}

//verif:chk PropTimezoneURL.valid
func vValPropTimezoneURL(p PropTimezoneURL) bool {
	return vValURI(URI(p))
}

// ---- UID

//verif:dec PropUID.decode
func vDecPropUID(p PropUID, params []parser.Token, value string) (PropUID, bool) {
	x, ok := vDecText("", vPlain(map[string]string{}, params), value)

	return PropUID(x), ok
}

//verif:enc PropUID.encode
func vEncPropUID(p PropUID) string {
	x := Text(p)

	return "UID" + ":" + vEncText(x) + "\r\n"
}

//verif:chk PropUID.valid
func vValPropUID(p PropUID) bool {
	return vValText(Text(p))
}

// ---- URL

//verif:dec PropURL.decode
func vDecPropURL(p PropURL, params []parser.Token, value string) (PropURL, bool) {
	x, ok := vDecURI(URI{}, vPlain(map[string]string{}, params), value)

	return PropURL(x), ok
}

//verif:enc PropURL.encode
func vEncPropURL(p PropURL) string {
	x := URI(p)

	return "URL" + ":" + vEncURI(x) + "\r\n"
}

//verif:chk PropURL.valid
func vValPropURL(p PropURL) bool {
	return vValURI(URI(p))
}

// ---- URI

//verif:dec PropURI.decode
func vDecPropURI(p PropURI, params []parser.Token, value string) (PropURI, bool) {
	x, ok := vDecURI(URI{}, vPlain(map[string]string{}, params), value)

	return PropURI(x), ok
}

//verif:enc PropURI.encode
func vEncPropURI(p PropURI) string {
	x := URI(p)

	return "URI" + ":" + vEncURI(x) + "\r\n"
}

//verif:chk PropURI.valid
func vValPropURI(p PropURI) bool {
	return vValURI(URI(p))
}

// ---- VERSION

//verif:dec PropVersion.decode
func vDecPropVersion(p PropVersion, params []parser.Token, value string) (PropVersion, bool) {
	x, ok := vDecText("", vPlain(map[string]string{}, params), value)

	return PropVersion(x), ok
}

//verif:enc PropVersion.encode
func vEncPropVersion(p PropVersion) string {
	x := Text(p)

	return "VERSION" + ":" + vEncText(x) + "\r\n"
}

//verif:chk PropVersion.valid
func vValPropVersion(p PropVersion) bool {
	return vValText(Text(p))
}

// ---- ALARM-AGENT

func vParAlarmAgent(p PropAlarmAgent, m map[string]string, params []parser.Token) (PropAlarmAgent, map[string]string, bool) {
	if len(params) == 0 {
		return p, m, true
	}

	n := vNext(params[1:], 1)
	vs := params[1:n]

	switch strings.ToUpper(params[0].Data) {
	case "URI":
		if p.URI != nil {
			return p, m, false
		}

		x, ok := vDecPURI(ParamURI{}, vs)
		if !ok {
			return p, m, false
		}

		p.URI = &x
	case "ID":
		if p.ID != nil {
			return p, m, false
		}

		x, ok := vDecPID(ParamID(""), vs)
		if !ok {
			return p, m, false
		}

		p.ID = &x
	case "AGENT-ID":
		if p.AgentID != nil {
			return p, m, false
		}

		x, ok := vDecPAgentID(ParamAgentID(""), vs)
		if !ok {
			return p, m, false
		}

		p.AgentID = &x
	default:
		m = vMapSet(m, strings.ToUpper(params[0].Data), strings.Join(vDatas(vs), ","))
	}

	return vParAlarmAgent(p, m, params[n:])
}

//verif:dec PropAlarmAgent.decode
func vDecPropAlarmAgent(p PropAlarmAgent, params []parser.Token, value string) (PropAlarmAgent, bool) {
	p, m, ok := vParAlarmAgent(p, map[string]string{}, params)
	if !ok {
		return p, false
	}

	p.Text, ok = vDecText(p.Text, m, value)

	return p, ok
}

//verif:enc PropAlarmAgent.encode
func vEncPropAlarmAgent(p PropAlarmAgent) string {
	s := "ALARM-AGENT"

	if p.URI != nil {
		s += vEncPURI(*p.URI)
	}

	if p.ID != nil {
		s += vEncPID(*p.ID)
	}

	if p.AgentID != nil {
		s += vEncPAgentID(*p.AgentID)
	}

	return s + ":" + vEncText(p.Text) + "\r\n"
}

//verif:chk PropAlarmAgent.valid
func vValPropAlarmAgent(p PropAlarmAgent) bool {
	if p.URI != nil && !vValPURI(*p.URI) {
		return false
	}

	if p.ID != nil && !vValPID(*p.ID) {
		return false
	}

	if p.AgentID != nil && !vValPAgentID(*p.AgentID) {
		return false
	}

	return vValText(p.Text)
}

// ---- STATUS

//verif:dec PropAlarmStatus.decode
func vDecPropAlarmStatus(p PropAlarmStatus, params []parser.Token, value string) (PropAlarmStatus, bool) {
	switch strings.ToUpper(value) {
	case "ACTIVE":
		return AlarmStatusActive, true
	case "CANCELLED":
		return AlarmStatusCancelled, true
	case "COMPLETED":
		return AlarmStatusCompleted, true
	}

	return p, false
}

//verif:enc PropAlarmStatus.encode
func vEncPropAlarmStatus(p PropAlarmStatus) string {
	switch p {
	case AlarmStatusActive:
		return "STATUS:ACTIVE\r\n"
	case AlarmStatusCancelled:
		return "STATUS:CANCELLED\r\n"
	case AlarmStatusCompleted:
		return "STATUS:COMPLETED\r\n"
	}

	return "STATUS:\r\n"
}

//verif:chk PropAlarmStatus.valid
func vValPropAlarmStatus(p PropAlarmStatus) bool {
	return p == AlarmStatusActive || p == AlarmStatusCancelled || p == AlarmStatusCompleted
}

// ---- LAST-TRIGGERED

//verif:dec PropLastTriggered.decode
func vDecPropLastTriggered(p PropLastTriggered, params []parser.Token, value string) (PropLastTriggered, bool) {
	x, ok := vDecDateTime(DateTime{}, vPlain(map[string]string{}, params), value)

	return PropLastTriggered(x), ok
}

//verif:enc PropLastTriggered.encode
func vEncPropLastTriggered(p PropLastTriggered) string {
	x := DateTime(p)

	return "LAST-TRIGGERED" + vZone(x.Time) + ":" + vEncDateTime(x) + "\r\n"
}

//verif:chk PropLastTriggered.valid
func vValPropLastTriggered(p PropLastTriggered) bool {
	return vValDateTime(DateTime(p))
}

// ---- ACKNOWLEDGED

//verif:dec PropAcknowledged.decode
func vDecPropAcknowledged(p PropAcknowledged, params []parser.Token, value string) (PropAcknowledged, bool) {
	x, ok := vDecDateTime(DateTime{}, vPlain(map[string]string{}, params), value)

	return PropAcknowledged(x), ok
}

//verif:enc PropAcknowledged.encode
func vEncPropAcknowledged(p PropAcknowledged) string {
	x := DateTime(p)

	return "ACKNOWLEDGED" + vZone(x.Time) + ":" + vEncDateTime(x) + "\r\n"
}

//verif:chk PropAcknowledged.valid
func vValPropAcknowledged(p PropAcknowledged) bool {
	return vValDateTime(DateTime(p))
}

// ---- PROXIMITY

//verif:dec PropProximity.decode
func vDecPropProximity(p PropProximity, params []parser.Token, value string) (PropProximity, bool) {
	x, ok := vDecText("", vPlain(map[string]string{}, params), value)

	return PropProximity(x), ok
}

//verif:enc PropProximity.encode
func vEncPropProximity(p PropProximity) string {
	x := Text(p)

	return "PROXIMITY" + ":" + vEncText(x) + "\r\n"
}

//verif:chk PropProximity.valid
func vValPropProximity(p PropProximity) bool {
	return vValText(Text(p))
}

// ---- GEO-LOCATION

//verif:dec PropGeoLocation.decode
func vDecPropGeoLocation(p PropGeoLocation, params []parser.Token, value string) (PropGeoLocation, bool) {
	x, ok := vDecURI(URI{}, vPlain(map[string]string{}, params), value)

	return PropGeoLocation(x), ok
}

//verif:enc PropGeoLocation.encode
func vEncPropGeoLocation(p PropGeoLocation) string {
	x := URI(p)

	return "GEO-LOCATION" + ":" + vEncURI(x) + "\r\n"
}

//verif:chk PropGeoLocation.valid
func vValPropGeoLocation(p PropGeoLocation) bool {
	return vValURI(URI(p))
}

// ---- DEFAULT-ALARM

//verif:dec PropDefaultAlarm.decode
func vDecPropDefaultAlarm(p PropDefaultAlarm, params []parser.Token, value string) (PropDefaultAlarm, bool) {
	x, ok := vDecBoolean(false, vPlain(map[string]string{}, params), value)

	return PropDefaultAlarm(x), ok
}

//verif:enc PropDefaultAlarm.encode
func vEncPropDefaultAlarm(p PropDefaultAlarm) string {
	x := Boolean(p)

	return "DEFAULT-ALARM" + ":" + vEncBoolean(x) + "\r\n"
}

//verif:chk PropDefaultAlarm.valid
func vValPropDefaultAlarm(p PropDefaultAlarm) bool {
	return vValBoolean(Boolean(p))
}

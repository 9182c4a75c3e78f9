package ics

// Code generated by tools/genspec.py. DO NOT EDIT.

import (
	"strings"

	"vimagination.zapto.org/parser"
)

// ---- ALTREP

//verif:dec ParamAlternativeRepresentation.decode
func vDecPAlternativeRepresentation(t ParamAlternativeRepresentation, vs []parser.Token) (ParamAlternativeRepresentation, bool) {
	if len(vs) != 1 {
		return t, false
	}

	if vs[0].Type != vTokQuoted {
		return t, false
	}

	u, ok := vDecURI(URI{}, nil, vUnCaret(vs[0].Data))

	return ParamAlternativeRepresentation(u), ok
}

//verif:enc ParamAlternativeRepresentation.encode
func vEncPAlternativeRepresentation(t ParamAlternativeRepresentation) string {
	s := t.URL.String()
	if s == "" {
		return ""
	}

	return ";ALTREP=\"" + vCaret(s) + "\""
}

//verif:chk ParamAlternativeRepresentation.valid
func vValPAlternativeRepresentation(t ParamAlternativeRepresentation) bool { return vValURI(URI(t)) }

// ---- CN

//verif:dec ParamCommonName.decode
func vDecPCommonName(t ParamCommonName, vs []parser.Token) (ParamCommonName, bool) {
	if len(vs) != 1 {
		return t, false
	}

	return ParamCommonName(vUnCaret(vs[0].Data)), true
}

//verif:enc ParamCommonName.encode
func vEncPCommonName(t ParamCommonName) string {
	if t == "" {
		return ""
	}

	return ";CN=" + vParamText(string(t))
}

//verif:chk ParamCommonName.valid
func vValPCommonName(t ParamCommonName) bool { return !strings.ContainsAny(string(t), vControls) }

// ---- CUTYPE

//verif:dec ParamCalendarUserType.decode
func vDecPCalendarUserType(t ParamCalendarUserType, vs []parser.Token) (ParamCalendarUserType, bool) {
	if len(vs) != 1 {
		return t, false
	}

	switch strings.ToUpper(vs[0].Data) {
	case "INDIVIDUAL":
		return CalendarUserTypeIndividual, true
	case "GROUP":
		return CalendarUserTypeGroup, true
	case "RESOURCE":
		return CalendarUserTypeResource, true
	case "ROOM":
		return CalendarUserTypeRoom, true
	}

	return CalendarUserTypeUnknown, true
}

//verif:enc ParamCalendarUserType.encode
func vEncPCalendarUserType(t ParamCalendarUserType) string {
	switch t {
	case CalendarUserTypeIndividual:
		return ";CUTYPE=INDIVIDUAL"
	case CalendarUserTypeGroup:
		return ";CUTYPE=GROUP"
	case CalendarUserTypeResource:
		return ";CUTYPE=RESOURCE"
	case CalendarUserTypeRoom:
		return ";CUTYPE=ROOM"
	}

	return ";CUTYPE=UNKNOWN"
}

//verif:chk ParamCalendarUserType.valid
func vValPCalendarUserType(t ParamCalendarUserType) bool { return true }

// ---- DELEGATED-FROM

//verif:dec ParamDelegator.decode
func vDecPDelegator(t ParamDelegator, vs []parser.Token) (ParamDelegator, bool) {
	l, ok := vCalAddrs(vs)

	return append(t, l...), ok
}

//verif:enc ParamDelegator.encode
func vEncPDelegator(t ParamDelegator) string {
	if len(t) == 0 {
		return ""
	}

	return ";DELEGATED-FROM=" + vEncCalAddrs(t, true)
}

//verif:chk ParamDelegator.valid
func vValPDelegator(t ParamDelegator) bool { return vValCalAddrs(t) }

// ---- DELEGATED-TO

//verif:dec ParamDelagatee.decode
func vDecPDelagatee(t ParamDelagatee, vs []parser.Token) (ParamDelagatee, bool) {
	l, ok := vCalAddrs(vs)

	return append(t, l...), ok
}

//verif:enc ParamDelagatee.encode
func vEncPDelagatee(t ParamDelagatee) string {
	if len(t) == 0 {
		return ""
	}

	return ";DELEGATED-TO=" + vEncCalAddrs(t, true)
}

//verif:chk ParamDelagatee.valid
func vValPDelagatee(t ParamDelagatee) bool { return vValCalAddrs(t) }

// ---- DIR

//verif:dec ParamDirectoryEntry.decode
func vDecPDirectoryEntry(t ParamDirectoryEntry, vs []parser.Token) (ParamDirectoryEntry, bool) {
	if len(vs) != 1 {
		return t, false
	}

	if vs[0].Type != vTokQuoted {
		return t, false
	}

	return ParamDirectoryEntry(vUnCaret(vs[0].Data)), true
}

//verif:enc ParamDirectoryEntry.encode
func vEncPDirectoryEntry(t ParamDirectoryEntry) string {
	if t == "" {
		return ""
	}

	return ";DIR=\"" + vCaret(string(t)) + "\""
}

//verif:chk ParamDirectoryEntry.valid
func vValPDirectoryEntry(t ParamDirectoryEntry) bool {
	return !strings.ContainsAny(string(t), vControls)
}

// ---- ENCODING

//verif:dec ParamEncoding.decode
func vDecPEncoding(t ParamEncoding, vs []parser.Token) (ParamEncoding, bool) {
	if len(vs) != 1 {
		return t, false
	}

	switch strings.ToUpper(vs[0].Data) {
	case "8BIT":
		return Encoding8bit, true
	case "BASE64":
		return EncodingBase64, true
	}

	return t, false
}

//verif:enc ParamEncoding.encode
func vEncPEncoding(t ParamEncoding) string {
	switch t {
	case Encoding8bit:
		return ";ENCODING=8BIT"
	case EncodingBase64:
		return ";ENCODING=BASE64"
	}

	return ";ENCODING="
}

//verif:chk ParamEncoding.valid
func vValPEncoding(t ParamEncoding) bool { return t == Encoding8bit || t == EncodingBase64 }

// ---- FMTTYPE

//verif:dec ParamFormatType.decode
func vDecPFormatType(t ParamFormatType, vs []parser.Token) (ParamFormatType, bool) {
	if len(vs) != 1 {
		return t, false
	}

	s := vUnCaret(vs[0].Data)

	return ParamFormatType(s), vFmtType(s)
}

//verif:enc ParamFormatType.encode
func vEncPFormatType(t ParamFormatType) string {
	if t == "" {
		return ""
	}

	return ";FMTTYPE=" + vParamText(string(t))
}

//verif:chk ParamFormatType.valid
func vValPFormatType(t ParamFormatType) bool {
	return vFmtType(string(t)) && !strings.ContainsAny(string(t), vControls)
}

// ---- FBTYPE

//verif:dec ParamFreeBusyType.decode
func vDecPFreeBusyType(t ParamFreeBusyType, vs []parser.Token) (ParamFreeBusyType, bool) {
	if len(vs) != 1 {
		return t, false
	}

	switch strings.ToUpper(vs[0].Data) {
	case "FREE":
		return FreeBusyTypeFree, true
	case "BUSY":
		return FreeBusyTypeBusy, true
	case "BUSY-UNAVAILABLE":
		return FreeBusyTypeBusyUnavailable, true
	case "BUSY-TENTATIVE":
		return FreeBusyTypeBusyTentative, true
	}

	return FreeBusyTypeUnknown, true
}

//verif:enc ParamFreeBusyType.encode
func vEncPFreeBusyType(t ParamFreeBusyType) string {
	switch t {
	case FreeBusyTypeFree:
		return ";FBTYPE=FREE"
	case FreeBusyTypeBusy:
		return ";FBTYPE=BUSY"
	case FreeBusyTypeBusyUnavailable:
		return ";FBTYPE=BUSY-UNAVAILABLE"
	case FreeBusyTypeBusyTentative:
		return ";FBTYPE=BUSY-TENTATIVE"
	}

	return ";FBTYPE=UNKNOWN"
}

//verif:chk ParamFreeBusyType.valid
func vValPFreeBusyType(t ParamFreeBusyType) bool { return true }

// ---- LANGUAGE

//verif:dec ParamLanguage.decode
func vDecPLanguage(t ParamLanguage, vs []parser.Token) (ParamLanguage, bool) {
	if len(vs) != 1 {
		return t, false
	}

	return ParamLanguage(vUnCaret(vs[0].Data)), true
}

//verif:enc ParamLanguage.encode
func vEncPLanguage(t ParamLanguage) string {
	if t == "" {
		return ""
	}

	return ";LANGUAGE=" + vParamText(string(t))
}

//verif:chk ParamLanguage.valid
func vValPLanguage(t ParamLanguage) bool { return !strings.ContainsAny(string(t), vControls) }

// ---- MEMBER

//verif:dec ParamMember.decode
func vDecPMember(t ParamMember, vs []parser.Token) (ParamMember, bool) {
	l, ok := vQuotedTexts(vs)

	return append(t, l...), ok
}

//verif:enc ParamMember.encode
func vEncPMember(t ParamMember) string {
	if len(t) == 0 {
		return ""
	}

	return ";MEMBER=" + vEncQuotedTexts(t, true)
}

//verif:chk ParamMember.valid
func vValPMember(t ParamMember) bool { return vValQuotedTexts(t) }

// ---- PARTSTAT

//verif:dec ParamParticipationStatus.decode
func vDecPParticipationStatus(t ParamParticipationStatus, vs []parser.Token) (ParamParticipationStatus, bool) {
	if len(vs) != 1 {
		return t, false
	}

	switch strings.ToUpper(vs[0].Data) {
	case "NEEDS-ACTION":
		return ParticipationStatusNeedsAction, true
	case "ACCEPTED":
		return ParticipationStatusAccepted, true
	case "DECLINED":
		return ParticipationStatusDeclined, true
	case "TENTATIVE":
		return ParticipationStatusTentative, true
	case "DELEGATED":
		return ParticipationStatusDelegated, true
	case "COMPLETED":
		return ParticipationStatusCompleted, true
	case "IN-PROCESS":
		return ParticipationStatusInProcess, true
	}

	return ParticipationStatusUnknown, true
}

//verif:enc ParamParticipationStatus.encode
func vEncPParticipationStatus(t ParamParticipationStatus) string {
	switch t {
	case ParticipationStatusNeedsAction:
		return ";PARTSTAT=NEEDS-ACTION"
	case ParticipationStatusAccepted:
		return ";PARTSTAT=ACCEPTED"
	case ParticipationStatusDeclined:
		return ";PARTSTAT=DECLINED"
	case ParticipationStatusTentative:
		return ";PARTSTAT=TENTATIVE"
	case ParticipationStatusDelegated:
		return ";PARTSTAT=DELEGATED"
	case ParticipationStatusCompleted:
		return ";PARTSTAT=COMPLETED"
	case ParticipationStatusInProcess:
		return ";PARTSTAT=IN-PROCESS"
	}

	return ";PARTSTAT=UNKNOWN"
}

//verif:chk ParamParticipationStatus.valid
func vValPParticipationStatus(t ParamParticipationStatus) bool { return true }

// ---- RANGE

//verif:dec ParamRange.decode
func vDecPRange(t ParamRange, vs []parser.Token) (ParamRange, bool) {
	if len(vs) != 1 {
		return t, false
	}

	return t, strings.ToUpper(vs[0].Data) == "THISANDFUTURE"
}

//verif:enc ParamRange.encode
func vEncPRange(t ParamRange) string {
	return ";RANGE=THISANDFUTURE"
}

//verif:chk ParamRange.valid
func vValPRange(t ParamRange) bool { return true }

// ---- RELATED

//verif:dec ParamRelated.decode
func vDecPRelated(t ParamRelated, vs []parser.Token) (ParamRelated, bool) {
	if len(vs) != 1 {
		return t, false
	}

	switch strings.ToUpper(vs[0].Data) {
	case "START":
		return RelatedStart, true
	case "END":
		return RelatedEnd, true
	}

	return t, false
}

//verif:enc ParamRelated.encode
func vEncPRelated(t ParamRelated) string {
	switch t {
	case RelatedStart:
		return ";RELATED=START"
	case RelatedEnd:
		return ";RELATED=END"
	}

	return ";RELATED="
}

//verif:chk ParamRelated.valid
func vValPRelated(t ParamRelated) bool { return t == RelatedStart || t == RelatedEnd }

// ---- RELTYPE

//verif:dec ParamRelationshipType.decode
func vDecPRelationshipType(t ParamRelationshipType, vs []parser.Token) (ParamRelationshipType, bool) {
	if len(vs) != 1 {
		return t, false
	}

	switch strings.ToUpper(vs[0].Data) {
	case "PARENT":
		return RelationshipTypeParent, true
	case "CHILD":
		return RelationshipTypeChild, true
	case "SIBLING":
		return RelationshipTypeSibling, true
	}

	return RelationshipTypeUnknown, true
}

//verif:enc ParamRelationshipType.encode
func vEncPRelationshipType(t ParamRelationshipType) string {
	switch t {
	case RelationshipTypeParent:
		return ";RELTYPE=PARENT"
	case RelationshipTypeChild:
		return ";RELTYPE=CHILD"
	case RelationshipTypeSibling:
		return ";RELTYPE=SIBLING"
	}

	return ";RELTYPE=UNKNOWN"
}

//verif:chk ParamRelationshipType.valid
func vValPRelationshipType(t ParamRelationshipType) bool { return true }

// ---- ROLE

//verif:dec ParamParticipationRole.decode
func vDecPParticipationRole(t ParamParticipationRole, vs []parser.Token) (ParamParticipationRole, bool) {
	if len(vs) != 1 {
		return t, false
	}

	switch strings.ToUpper(vs[0].Data) {
	case "REQ-PARTICIPANT":
		return ParticipationRoleRequiredParticipant, true
	case "CHAIR":
		return ParticipationRoleChair, true
	case "OPT-PARTICIPANT":
		return ParticipationRoleOptParticipant, true
	case "NON-PARTICIPANT":
		return ParticipationRoleNonParticipant, true
	}

	return ParticipationRoleUnknown, true
}

//verif:enc ParamParticipationRole.encode
func vEncPParticipationRole(t ParamParticipationRole) string {
	switch t {
	case ParticipationRoleRequiredParticipant:
		return ";ROLE=REQ-PARTICIPANT"
	case ParticipationRoleChair:
		return ";ROLE=CHAIR"
	case ParticipationRoleOptParticipant:
		return ";ROLE=OPT-PARTICIPANT"
	case ParticipationRoleNonParticipant:
		return ";ROLE=NON-PARTICIPANT"
	}

	return ";ROLE=UNKNOWN"
}

//verif:chk ParamParticipationRole.valid
func vValPParticipationRole(t ParamParticipationRole) bool { return true }

// ---- RSVP

//verif:dec ParamRSVP.decode
func vDecPRSVP(t ParamRSVP, vs []parser.Token) (ParamRSVP, bool) {
	if len(vs) != 1 {
		return t, false
	}

	b, ok := vDecBoolean(false, nil, vs[0].Data)

	return ParamRSVP(b), ok
}

//verif:enc ParamRSVP.encode
func vEncPRSVP(t ParamRSVP) string {
	if !t {
		return ""
	}

	return ";RSVP=" + vEncBoolean(Boolean(t))
}

//verif:chk ParamRSVP.valid
func vValPRSVP(t ParamRSVP) bool { return true }

// ---- SENT-BY

//verif:dec ParamSentBy.decode
func vDecPSentBy(t ParamSentBy, vs []parser.Token) (ParamSentBy, bool) {
	if len(vs) != 1 {
		return t, false
	}

	if vs[0].Type != vTokQuoted {
		return t, false
	}

	return ParamSentBy(vUnCaret(vs[0].Data)), true
}

//verif:enc ParamSentBy.encode
func vEncPSentBy(t ParamSentBy) string {
	if t == "" {
		return ""
	}

	return ";SENT-BY=\"" + vCaret(string(t)) + "\""
}

//verif:chk ParamSentBy.valid
func vValPSentBy(t ParamSentBy) bool { return !strings.ContainsAny(string(t), vControls) }

// ---- TZID

//verif:dec ParamTimezoneID.decode
func vDecPTimezoneID(t ParamTimezoneID, vs []parser.Token) (ParamTimezoneID, bool) {
	if len(vs) != 1 {
		return t, false
	}

	return ParamTimezoneID(vUnCaret(vs[0].Data)), true
}

//verif:enc ParamTimezoneID.encode
func vEncPTimezoneID(t ParamTimezoneID) string {
	if t == "" {
		return ""
	}

	return ";TZID=" + vParamText(string(t))
}

//verif:chk ParamTimezoneID.valid
func vValPTimezoneID(t ParamTimezoneID) bool { return !strings.ContainsAny(string(t), vControls) }

// ---- VALUE

//verif:dec ParamValue.decode
func vDecPValue(t ParamValue, vs []parser.Token) (ParamValue, bool) {
	if len(vs) != 1 {
		return t, false
	}

	switch strings.ToUpper(vs[0].Data) {
	case "BINARY":
		return ValueBinary, true
	case "BOOLEAN":
		return ValueBoolean, true
	case "CAL-ADDRESS":
		return ValueCalendarAddress, true
	case "DATE":
		return ValueDate, true
	case "DATE-TIME":
		return ValueDateTime, true
	case "DURATION":
		return ValueDuration, true
	case "FLOAT":
		return ValueFloat, true
	case "INTEGER":
		return ValueInteger, true
	case "PERIOD":
		return ValuePeriod, true
	case "RECUR":
		return ValueRecur, true
	case "TEXT":
		return ValueText, true
	case "TIME":
		return ValueTime, true
	case "URI":
		return ValueURI, true
	case "UTC-OFFSET":
		return ValueUTCOffset, true
	}

	return ValueUnknown, true
}

//verif:enc ParamValue.encode
func vEncPValue(t ParamValue) string {
	switch t {
	case ValueBinary:
		return ";VALUE=BINARY"
	case ValueBoolean:
		return ";VALUE=BOOLEAN"
	case ValueCalendarAddress:
		return ";VALUE=CAL-ADDRESS"
	case ValueDate:
		return ";VALUE=DATE"
	case ValueDateTime:
		return ";VALUE=DATE-TIME"
	case ValueDuration:
		return ";VALUE=DURATION"
	case ValueFloat:
		return ";VALUE=FLOAT"
	case ValueInteger:
		return ";VALUE=INTEGER"
	case ValuePeriod:
		return ";VALUE=PERIOD"
	case ValueRecur:
		return ";VALUE=RECUR"
	case ValueText:
		return ";VALUE=TEXT"
	case ValueTime:
		return ";VALUE=TIME"
	case ValueURI:
		return ";VALUE=URI"
	case ValueUTCOffset:
		return ";VALUE=UTC-OFFSET"
	}

	return ";VALUE=UNKNOWN"
}

//verif:chk ParamValue.valid
func vValPValue(t ParamValue) bool { return true }

// ---- URI

//verif:dec ParamURI.decode
func vDecPURI(t ParamURI, vs []parser.Token) (ParamURI, bool) {
	if len(vs) != 1 {
		return t, false
	}

	if vs[0].Type != vTokQuoted {
		return t, false
	}

	u, ok := vDecURI(URI{}, nil, vUnCaret(vs[0].Data))

	return ParamURI(u), ok
}

//verif:enc ParamURI.encode
func vEncPURI(t ParamURI) string {
	s := t.URL.String()
	if s == "" {
		return ""
	}

	return ";URI=\"" + vCaret(s) + "\""
}

//verif:chk ParamURI.valid
func vValPURI(t ParamURI) bool { return vValURI(URI(t)) }

// ---- ID

//verif:dec ParamID.decode
func vDecPID(t ParamID, vs []parser.Token) (ParamID, bool) {
	if len(vs) != 1 {
		return t, false
	}

	if vs[0].Type != vTokQuoted {
		return t, false
	}

	return ParamID(vUnCaret(vs[0].Data)), true
}

//verif:enc ParamID.encode
func vEncPID(t ParamID) string {
	if t == "" {
		return ""
	}

	return ";ID=\"" + vCaret(string(t)) + "\""
}

//verif:chk ParamID.valid
func vValPID(t ParamID) bool { return !strings.ContainsAny(string(t), vControls) }

// ---- AGENT-ID

//verif:dec ParamAgentID.decode
func vDecPAgentID(t ParamAgentID, vs []parser.Token) (ParamAgentID, bool) {
	if len(vs) != 1 {
		return t, false
	}

	if vs[0].Type != vTokQuoted {
		return t, false
	}

	return ParamAgentID(vUnCaret(vs[0].Data)), true
}

//verif:enc ParamAgentID.encode
func vEncPAgentID(t ParamAgentID) string {
	if t == "" {
		return ""
	}

	return ";AGENT-ID=\"" + vCaret(string(t)) + "\""
}

//verif:chk ParamAgentID.valid
func vValPAgentID(t ParamAgentID) bool { return !strings.ContainsAny(string(t), vControls) }

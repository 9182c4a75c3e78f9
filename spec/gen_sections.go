package ics

// Code generated by tools/genspec.py. DO NOT EDIT.

import (
	"strings"

	"vimagination.zapto.org/parser"
)

// ---- AlarmAudio

func vLinesAlarmAudio(s AlarmAudio, hasTrigger bool, lines []parser.Phrase) (AlarmAudio, bool, []parser.Phrase, bool) {
	if len(lines) == 0 || len(lines[0].Data) < 2 {
		return s, hasTrigger, lines, false
	}

	p, rest := lines[0].Data, lines[1:]
	value := p[len(p)-1].Data
	params := p[1 : len(p)-1]

	switch strings.ToUpper(p[0].Data) {
	case "BEGIN":
		switch n := strings.ToUpper(value); n {
		default:
			ok, r := vSkip(rest, n)
			if !ok {
				return s, hasTrigger, lines, false
			}

			rest = r
		}
	case "TRIGGER":
		if hasTrigger {
			return s, hasTrigger, lines, false
		}

		x, ok := vDecPropTrigger(s.Trigger, params, value)
		if !ok {
			return s, hasTrigger, lines, false
		}

		hasTrigger, s.Trigger = true, x
	case "DURATION":
		if s.Duration != nil {
			return s, hasTrigger, lines, false
		}

		x, ok := vDecPropDuration(PropDuration{}, params, value)
		if !ok {
			return s, hasTrigger, lines, false
		}

		s.Duration = &x
	case "REPEAT":
		if s.Repeat != nil {
			return s, hasTrigger, lines, false
		}

		x, ok := vDecPropRepeat(PropRepeat(0), params, value)
		if !ok {
			return s, hasTrigger, lines, false
		}

		s.Repeat = &x
	case "ATTACH":
		x, ok := vDecPropAttachment(PropAttachment{}, params, value)
		if !ok {
			return s, hasTrigger, lines, false
		}

		s.Attachment = append(s.Attachment, x)
	case "UID":
		if s.UID != nil {
			return s, hasTrigger, lines, false
		}

		x, ok := vDecPropUID(PropUID(""), params, value)
		if !ok {
			return s, hasTrigger, lines, false
		}

		s.UID = &x
	case "ALARM-AGENT":
		x, ok := vDecPropAlarmAgent(PropAlarmAgent{}, params, value)
		if !ok {
			return s, hasTrigger, lines, false
		}

		s.AlarmAgent = append(s.AlarmAgent, x)
	case "STATUS":
		if s.AlarmStatus != nil {
			return s, hasTrigger, lines, false
		}

		x, ok := vDecPropAlarmStatus(PropAlarmStatus(0), params, value)
		if !ok {
			return s, hasTrigger, lines, false
		}

		s.AlarmStatus = &x
	case "LAST-TRIGGERED":
		x, ok := vDecPropLastTriggered(PropLastTriggered{}, params, value)
		if !ok {
			return s, hasTrigger, lines, false
		}

		s.LastTriggered = append(s.LastTriggered, x)
	case "ACKNOWLEDGED":
		if s.Acknowledged != nil {
			return s, hasTrigger, lines, false
		}

		x, ok := vDecPropAcknowledged(PropAcknowledged{}, params, value)
		if !ok {
			return s, hasTrigger, lines, false
		}

		s.Acknowledged = &x
	case "PROXIMITY":
		if s.Proximity != nil {
			return s, hasTrigger, lines, false
		}

		x, ok := vDecPropProximity(PropProximity(""), params, value)
		if !ok {
			return s, hasTrigger, lines, false
		}

		s.Proximity = &x
	case "GEO-LOCATION":
		x, ok := vDecPropGeoLocation(PropGeoLocation{}, params, value)
		if !ok {
			return s, hasTrigger, lines, false
		}

		s.GeoLocation = append(s.GeoLocation, x)
	case "RELATED-TO":
		if s.RelatedTo != nil {
			return s, hasTrigger, lines, false
		}

		x, ok := vDecPropRelatedTo(PropRelatedTo{}, params, value)
		if !ok {
			return s, hasTrigger, lines, false
		}

		s.RelatedTo = &x
	case "DEFAULT-ALARM":
		if s.DefaultAlarm != nil {
			return s, hasTrigger, lines, false
		}

		x, ok := vDecPropDefaultAlarm(PropDefaultAlarm(false), params, value)
		if !ok {
			return s, hasTrigger, lines, false
		}

		s.DefaultAlarm = &x
	case "END":
		return s, hasTrigger, rest, strings.ToUpper(value) == "VALARM"
	}

	return vLinesAlarmAudio(s, hasTrigger, rest)
}

func vLinesAlarmAudio_ensures(s AlarmAudio, hasTrigger bool, lines []parser.Phrase, s2 AlarmAudio, hasTrigger2 bool, rest []parser.Phrase, ok bool) bool {
	return !ok || len(rest) <= len(lines)
}

//verif:decsec AlarmAudio.decode
func vDecAlarmAudio(s AlarmAudio, lines []parser.Phrase) (AlarmAudio, []parser.Phrase, bool) {
	s, hasTrigger, rest, ok := vLinesAlarmAudio(s, false, lines)
	if !ok || !hasTrigger {
		return s, rest, false
	}

	if len(s.GeoLocation) != 0 && s.Proximity == nil {
		return s, rest, false
	}

	return s, rest, true
}

func vDecAlarmAudio_ensures(s AlarmAudio, lines []parser.Phrase, s2 AlarmAudio, rest []parser.Phrase, ok bool) bool {
	return !ok || len(rest) <= len(lines)
}

//verif:enc AlarmAudio.encode
func vEncAlarmAudio(s AlarmAudio) string {
	o := ""

	o += vEncPropTrigger(s.Trigger)

	if s.Duration != nil {
		o += vEncPropDuration(*s.Duration)
	}

	if s.Repeat != nil {
		o += vEncPropRepeat(*s.Repeat)
	}

	o += vEncPropAttachmentList(s.Attachment)

	if s.UID != nil {
		o += vEncPropUID(*s.UID)
	}

	o += vEncPropAlarmAgentList(s.AlarmAgent)

	if s.AlarmStatus != nil {
		o += vEncPropAlarmStatus(*s.AlarmStatus)
	}

	o += vEncPropLastTriggeredList(s.LastTriggered)

	if s.Acknowledged != nil {
		o += vEncPropAcknowledged(*s.Acknowledged)
	}

	if s.Proximity != nil {
		o += vEncPropProximity(*s.Proximity)
	}

	o += vEncPropGeoLocationList(s.GeoLocation)

	if s.RelatedTo != nil {
		o += vEncPropRelatedTo(*s.RelatedTo)
	}

	if s.DefaultAlarm != nil {
		o += vEncPropDefaultAlarm(*s.DefaultAlarm)
	}

	return o
}

//verif:chk AlarmAudio.valid
func vValAlarmAudio(s AlarmAudio) bool {
	if !vValPropTrigger(s.Trigger) {
		return false
	}

	if s.Duration != nil && !vValPropDuration(*s.Duration) {
		return false
	}

	if s.Repeat != nil && !vValPropRepeat(*s.Repeat) {
		return false
	}

	if !vValPropAttachmentList(s.Attachment) {
		return false
	}

	if s.UID != nil && !vValPropUID(*s.UID) {
		return false
	}

	if !vValPropAlarmAgentList(s.AlarmAgent) {
		return false
	}

	if s.AlarmStatus != nil && !vValPropAlarmStatus(*s.AlarmStatus) {
		return false
	}

	if !vValPropLastTriggeredList(s.LastTriggered) {
		return false
	}

	if s.Acknowledged != nil && !vValPropAcknowledged(*s.Acknowledged) {
		return false
	}

	if s.Proximity != nil && !vValPropProximity(*s.Proximity) {
		return false
	}

	if !vValPropGeoLocationList(s.GeoLocation) {
		return false
	}

	if s.RelatedTo != nil && !vValPropRelatedTo(*s.RelatedTo) {
		return false
	}

	if s.DefaultAlarm != nil && !vValPropDefaultAlarm(*s.DefaultAlarm) {
		return false
	}

	if len(s.GeoLocation) != 0 && s.Proximity == nil {
		return false
	}

	return true
}

// ---- AlarmDisplay

func vLinesAlarmDisplay(s AlarmDisplay, hasDescription bool, hasTrigger bool, lines []parser.Phrase) (AlarmDisplay, bool, bool, []parser.Phrase, bool) {
	if len(lines) == 0 || len(lines[0].Data) < 2 {
		return s, hasDescription, hasTrigger, lines, false
	}

	p, rest := lines[0].Data, lines[1:]
	value := p[len(p)-1].Data
	params := p[1 : len(p)-1]

	switch strings.ToUpper(p[0].Data) {
	case "BEGIN":
		switch n := strings.ToUpper(value); n {
		default:
			ok, r := vSkip(rest, n)
			if !ok {
				return s, hasDescription, hasTrigger, lines, false
			}

			rest = r
		}
	case "DESCRIPTION":
		if hasDescription {
			return s, hasDescription, hasTrigger, lines, false
		}

		x, ok := vDecPropDescription(s.Description, params, value)
		if !ok {
			return s, hasDescription, hasTrigger, lines, false
		}

		hasDescription, s.Description = true, x
	case "TRIGGER":
		if hasTrigger {
			return s, hasDescription, hasTrigger, lines, false
		}

		x, ok := vDecPropTrigger(s.Trigger, params, value)
		if !ok {
			return s, hasDescription, hasTrigger, lines, false
		}

		hasTrigger, s.Trigger = true, x
	case "DURATION":
		if s.Duration != nil {
			return s, hasDescription, hasTrigger, lines, false
		}

		x, ok := vDecPropDuration(PropDuration{}, params, value)
		if !ok {
			return s, hasDescription, hasTrigger, lines, false
		}

		s.Duration = &x
	case "REPEAT":
		if s.Repeat != nil {
			return s, hasDescription, hasTrigger, lines, false
		}

		x, ok := vDecPropRepeat(PropRepeat(0), params, value)
		if !ok {
			return s, hasDescription, hasTrigger, lines, false
		}

		s.Repeat = &x
	case "UID":
		if s.UID != nil {
			return s, hasDescription, hasTrigger, lines, false
		}

		x, ok := vDecPropUID(PropUID(""), params, value)
		if !ok {
			return s, hasDescription, hasTrigger, lines, false
		}

		s.UID = &x
	case "ALARM-AGENT":
		x, ok := vDecPropAlarmAgent(PropAlarmAgent{}, params, value)
		if !ok {
			return s, hasDescription, hasTrigger, lines, false
		}

		s.AlarmAgent = append(s.AlarmAgent, x)
	case "STATUS":
		if s.AlarmStatus != nil {
			return s, hasDescription, hasTrigger, lines, false
		}

		x, ok := vDecPropAlarmStatus(PropAlarmStatus(0), params, value)
		if !ok {
			return s, hasDescription, hasTrigger, lines, false
		}

		s.AlarmStatus = &x
	case "LAST-TRIGGERED":
		x, ok := vDecPropLastTriggered(PropLastTriggered{}, params, value)
		if !ok {
			return s, hasDescription, hasTrigger, lines, false
		}

		s.LastTriggered = append(s.LastTriggered, x)
	case "ACKNOWLEDGED":
		if s.Acknowledged != nil {
			return s, hasDescription, hasTrigger, lines, false
		}

		x, ok := vDecPropAcknowledged(PropAcknowledged{}, params, value)
		if !ok {
			return s, hasDescription, hasTrigger, lines, false
		}

		s.Acknowledged = &x
	case "PROXIMITY":
		if s.Proximity != nil {
			return s, hasDescription, hasTrigger, lines, false
		}

		x, ok := vDecPropProximity(PropProximity(""), params, value)
		if !ok {
			return s, hasDescription, hasTrigger, lines, false
		}

		s.Proximity = &x
	case "GEO-LOCATION":
		x, ok := vDecPropGeoLocation(PropGeoLocation{}, params, value)
		if !ok {
			return s, hasDescription, hasTrigger, lines, false
		}

		s.GeoLocation = append(s.GeoLocation, x)
	case "RELATED-TO":
		if s.RelatedTo != nil {
			return s, hasDescription, hasTrigger, lines, false
		}

		x, ok := vDecPropRelatedTo(PropRelatedTo{}, params, value)
		if !ok {
			return s, hasDescription, hasTrigger, lines, false
		}

		s.RelatedTo = &x
	case "DEFAULT-ALARM":
		if s.DefaultAlarm != nil {
			return s, hasDescription, hasTrigger, lines, false
		}

		x, ok := vDecPropDefaultAlarm(PropDefaultAlarm(false), params, value)
		if !ok {
			return s, hasDescription, hasTrigger, lines, false
		}

		s.DefaultAlarm = &x
	case "END":
		return s, hasDescription, hasTrigger, rest, strings.ToUpper(value) == "VALARM"
	}

	return vLinesAlarmDisplay(s, hasDescription, hasTrigger, rest)
}

func vLinesAlarmDisplay_ensures(s AlarmDisplay, hasDescription bool, hasTrigger bool, lines []parser.Phrase, s2 AlarmDisplay, hasDescription2 bool, hasTrigger2 bool, rest []parser.Phrase, ok bool) bool {
	return !ok || len(rest) <= len(lines)
}

//verif:decsec AlarmDisplay.decode
func vDecAlarmDisplay(s AlarmDisplay, lines []parser.Phrase) (AlarmDisplay, []parser.Phrase, bool) {
	s, hasDescription, hasTrigger, rest, ok := vLinesAlarmDisplay(s, false, false, lines)
	if !ok || !hasDescription || !hasTrigger {
		return s, rest, false
	}

	if len(s.GeoLocation) != 0 && s.Proximity == nil {
		return s, rest, false
	}

	return s, rest, true
}

func vDecAlarmDisplay_ensures(s AlarmDisplay, lines []parser.Phrase, s2 AlarmDisplay, rest []parser.Phrase, ok bool) bool {
	return !ok || len(rest) <= len(lines)
}

//verif:enc AlarmDisplay.encode
func vEncAlarmDisplay(s AlarmDisplay) string {
	o := ""

	o += vEncPropDescription(s.Description)

	o += vEncPropTrigger(s.Trigger)

	if s.Duration != nil {
		o += vEncPropDuration(*s.Duration)
	}

	if s.Repeat != nil {
		o += vEncPropRepeat(*s.Repeat)
	}

	if s.UID != nil {
		o += vEncPropUID(*s.UID)
	}

	o += vEncPropAlarmAgentList(s.AlarmAgent)

	if s.AlarmStatus != nil {
		o += vEncPropAlarmStatus(*s.AlarmStatus)
	}

	o += vEncPropLastTriggeredList(s.LastTriggered)

	if s.Acknowledged != nil {
		o += vEncPropAcknowledged(*s.Acknowledged)
	}

	if s.Proximity != nil {
		o += vEncPropProximity(*s.Proximity)
	}

	o += vEncPropGeoLocationList(s.GeoLocation)

	if s.RelatedTo != nil {
		o += vEncPropRelatedTo(*s.RelatedTo)
	}

	if s.DefaultAlarm != nil {
		o += vEncPropDefaultAlarm(*s.DefaultAlarm)
	}

	return o
}

//verif:chk AlarmDisplay.valid
func vValAlarmDisplay(s AlarmDisplay) bool {
	if !vValPropDescription(s.Description) {
		return false
	}

	if !vValPropTrigger(s.Trigger) {
		return false
	}

	if s.Duration != nil && !vValPropDuration(*s.Duration) {
		return false
	}

	if s.Repeat != nil && !vValPropRepeat(*s.Repeat) {
		return false
	}

	if s.UID != nil && !vValPropUID(*s.UID) {
		return false
	}

	if !vValPropAlarmAgentList(s.AlarmAgent) {
		return false
	}

	if s.AlarmStatus != nil && !vValPropAlarmStatus(*s.AlarmStatus) {
		return false
	}

	if !vValPropLastTriggeredList(s.LastTriggered) {
		return false
	}

	if s.Acknowledged != nil && !vValPropAcknowledged(*s.Acknowledged) {
		return false
	}

	if s.Proximity != nil && !vValPropProximity(*s.Proximity) {
		return false
	}

	if !vValPropGeoLocationList(s.GeoLocation) {
		return false
	}

	if s.RelatedTo != nil && !vValPropRelatedTo(*s.RelatedTo) {
		return false
	}

	if s.DefaultAlarm != nil && !vValPropDefaultAlarm(*s.DefaultAlarm) {
		return false
	}

	if len(s.GeoLocation) != 0 && s.Proximity == nil {
		return false
	}

	return true
}

// ---- AlarmEmail

func vLinesAlarmEmail(s AlarmEmail, hasDescription bool, hasTrigger bool, hasSummary bool, lines []parser.Phrase) (AlarmEmail, bool, bool, bool, []parser.Phrase, bool) {
	if len(lines) == 0 || len(lines[0].Data) < 2 {
		return s, hasDescription, hasTrigger, hasSummary, lines, false
	}

	p, rest := lines[0].Data, lines[1:]
	value := p[len(p)-1].Data
	params := p[1 : len(p)-1]

	switch strings.ToUpper(p[0].Data) {
	case "BEGIN":
		switch n := strings.ToUpper(value); n {
		default:
			ok, r := vSkip(rest, n)
			if !ok {
				return s, hasDescription, hasTrigger, hasSummary, lines, false
			}

			rest = r
		}
	case "DESCRIPTION":
		if hasDescription {
			return s, hasDescription, hasTrigger, hasSummary, lines, false
		}

		x, ok := vDecPropDescription(s.Description, params, value)
		if !ok {
			return s, hasDescription, hasTrigger, hasSummary, lines, false
		}

		hasDescription, s.Description = true, x
	case "TRIGGER":
		if hasTrigger {
			return s, hasDescription, hasTrigger, hasSummary, lines, false
		}

		x, ok := vDecPropTrigger(s.Trigger, params, value)
		if !ok {
			return s, hasDescription, hasTrigger, hasSummary, lines, false
		}

		hasTrigger, s.Trigger = true, x
	case "SUMMARY":
		if hasSummary {
			return s, hasDescription, hasTrigger, hasSummary, lines, false
		}

		x, ok := vDecPropSummary(s.Summary, params, value)
		if !ok {
			return s, hasDescription, hasTrigger, hasSummary, lines, false
		}

		hasSummary, s.Summary = true, x
	case "ATTENDEE":
		if s.Attendee != nil {
			return s, hasDescription, hasTrigger, hasSummary, lines, false
		}

		x, ok := vDecPropAttendee(PropAttendee{}, params, value)
		if !ok {
			return s, hasDescription, hasTrigger, hasSummary, lines, false
		}

		s.Attendee = &x
	case "DURATION":
		if s.Duration != nil {
			return s, hasDescription, hasTrigger, hasSummary, lines, false
		}

		x, ok := vDecPropDuration(PropDuration{}, params, value)
		if !ok {
			return s, hasDescription, hasTrigger, hasSummary, lines, false
		}

		s.Duration = &x
	case "REPEAT":
		if s.Repeat != nil {
			return s, hasDescription, hasTrigger, hasSummary, lines, false
		}

		x, ok := vDecPropRepeat(PropRepeat(0), params, value)
		if !ok {
			return s, hasDescription, hasTrigger, hasSummary, lines, false
		}

		s.Repeat = &x
	case "UID":
		if s.UID != nil {
			return s, hasDescription, hasTrigger, hasSummary, lines, false
		}

		x, ok := vDecPropUID(PropUID(""), params, value)
		if !ok {
			return s, hasDescription, hasTrigger, hasSummary, lines, false
		}

		s.UID = &x
	case "ALARM-AGENT":
		x, ok := vDecPropAlarmAgent(PropAlarmAgent{}, params, value)
		if !ok {
			return s, hasDescription, hasTrigger, hasSummary, lines, false
		}

		s.AlarmAgent = append(s.AlarmAgent, x)
	case "STATUS":
		if s.AlarmStatus != nil {
			return s, hasDescription, hasTrigger, hasSummary, lines, false
		}

		x, ok := vDecPropAlarmStatus(PropAlarmStatus(0), params, value)
		if !ok {
			return s, hasDescription, hasTrigger, hasSummary, lines, false
		}

		s.AlarmStatus = &x
	case "LAST-TRIGGERED":
		x, ok := vDecPropLastTriggered(PropLastTriggered{}, params, value)
		if !ok {
			return s, hasDescription, hasTrigger, hasSummary, lines, false
		}

		s.LastTriggered = append(s.LastTriggered, x)
	case "ACKNOWLEDGED":
		if s.Acknowledged != nil {
			return s, hasDescription, hasTrigger, hasSummary, lines, false
		}

		x, ok := vDecPropAcknowledged(PropAcknowledged{}, params, value)
		if !ok {
			return s, hasDescription, hasTrigger, hasSummary, lines, false
		}

		s.Acknowledged = &x
	case "PROXIMITY":
		if s.Proximity != nil {
			return s, hasDescription, hasTrigger, hasSummary, lines, false
		}

		x, ok := vDecPropProximity(PropProximity(""), params, value)
		if !ok {
			return s, hasDescription, hasTrigger, hasSummary, lines, false
		}

		s.Proximity = &x
	case "GEO-LOCATION":
		x, ok := vDecPropGeoLocation(PropGeoLocation{}, params, value)
		if !ok {
			return s, hasDescription, hasTrigger, hasSummary, lines, false
		}

		s.GeoLocation = append(s.GeoLocation, x)
	case "RELATED-TO":
		if s.RelatedTo != nil {
			return s, hasDescription, hasTrigger, hasSummary, lines, false
		}

		x, ok := vDecPropRelatedTo(PropRelatedTo{}, params, value)
		if !ok {
			return s, hasDescription, hasTrigger, hasSummary, lines, false
		}

		s.RelatedTo = &x
	case "DEFAULT-ALARM":
		if s.DefaultAlarm != nil {
			return s, hasDescription, hasTrigger, hasSummary, lines, false
		}

		x, ok := vDecPropDefaultAlarm(PropDefaultAlarm(false), params, value)
		if !ok {
			return s, hasDescription, hasTrigger, hasSummary, lines, false
		}

		s.DefaultAlarm = &x
	case "END":
		return s, hasDescription, hasTrigger, hasSummary, rest, strings.ToUpper(value) == "VALARM"
	}

	return vLinesAlarmEmail(s, hasDescription, hasTrigger, hasSummary, rest)
}

func vLinesAlarmEmail_ensures(s AlarmEmail, hasDescription bool, hasTrigger bool, hasSummary bool, lines []parser.Phrase, s2 AlarmEmail, hasDescription2 bool, hasTrigger2 bool, hasSummary2 bool, rest []parser.Phrase, ok bool) bool {
	return !ok || len(rest) <= len(lines)
}

//verif:decsec AlarmEmail.decode
func vDecAlarmEmail(s AlarmEmail, lines []parser.Phrase) (AlarmEmail, []parser.Phrase, bool) {
	s, hasDescription, hasTrigger, hasSummary, rest, ok := vLinesAlarmEmail(s, false, false, false, lines)
	if !ok || !hasDescription || !hasTrigger || !hasSummary {
		return s, rest, false
	}

	if len(s.GeoLocation) != 0 && s.Proximity == nil {
		return s, rest, false
	}

	if (s.Duration != nil) != (s.Repeat != nil) {
		return s, rest, false
	}

	return s, rest, true
}

func vDecAlarmEmail_ensures(s AlarmEmail, lines []parser.Phrase, s2 AlarmEmail, rest []parser.Phrase, ok bool) bool {
	return !ok || len(rest) <= len(lines)
}

//verif:enc AlarmEmail.encode
func vEncAlarmEmail(s AlarmEmail) string {
	o := ""

	o += vEncPropDescription(s.Description)

	o += vEncPropTrigger(s.Trigger)

	o += vEncPropSummary(s.Summary)

	if s.Attendee != nil {
		o += vEncPropAttendee(*s.Attendee)
	}

	if s.Duration != nil {
		o += vEncPropDuration(*s.Duration)
	}

	if s.Repeat != nil {
		o += vEncPropRepeat(*s.Repeat)
	}

	if s.UID != nil {
		o += vEncPropUID(*s.UID)
	}

	o += vEncPropAlarmAgentList(s.AlarmAgent)

	if s.AlarmStatus != nil {
		o += vEncPropAlarmStatus(*s.AlarmStatus)
	}

	o += vEncPropLastTriggeredList(s.LastTriggered)

	if s.Acknowledged != nil {
		o += vEncPropAcknowledged(*s.Acknowledged)
	}

	if s.Proximity != nil {
		o += vEncPropProximity(*s.Proximity)
	}

	o += vEncPropGeoLocationList(s.GeoLocation)

	if s.RelatedTo != nil {
		o += vEncPropRelatedTo(*s.RelatedTo)
	}

	if s.DefaultAlarm != nil {
		o += vEncPropDefaultAlarm(*s.DefaultAlarm)
	}

	return o
}

//verif:chk AlarmEmail.valid
func vValAlarmEmail(s AlarmEmail) bool {
	if !vValPropDescription(s.Description) {
		return false
	}

	if !vValPropTrigger(s.Trigger) {
		return false
	}

	if !vValPropSummary(s.Summary) {
		return false
	}

	if s.Attendee != nil && !vValPropAttendee(*s.Attendee) {
		return false
	}

	if s.Duration != nil && !vValPropDuration(*s.Duration) {
		return false
	}

	if s.Repeat != nil && !vValPropRepeat(*s.Repeat) {
		return false
	}

	if s.UID != nil && !vValPropUID(*s.UID) {
		return false
	}

	if !vValPropAlarmAgentList(s.AlarmAgent) {
		return false
	}

	if s.AlarmStatus != nil && !vValPropAlarmStatus(*s.AlarmStatus) {
		return false
	}

	if !vValPropLastTriggeredList(s.LastTriggered) {
		return false
	}

	if s.Acknowledged != nil && !vValPropAcknowledged(*s.Acknowledged) {
		return false
	}

	if s.Proximity != nil && !vValPropProximity(*s.Proximity) {
		return false
	}

	if !vValPropGeoLocationList(s.GeoLocation) {
		return false
	}

	if s.RelatedTo != nil && !vValPropRelatedTo(*s.RelatedTo) {
		return false
	}

	if s.DefaultAlarm != nil && !vValPropDefaultAlarm(*s.DefaultAlarm) {
		return false
	}

	if len(s.GeoLocation) != 0 && s.Proximity == nil {
		return false
	}

	if (s.Duration != nil) != (s.Repeat != nil) {
		return false
	}

	return true
}

// ---- AlarmURI

func vLinesAlarmURI(s AlarmURI, hasURI bool, lines []parser.Phrase) (AlarmURI, bool, []parser.Phrase, bool) {
	if len(lines) == 0 || len(lines[0].Data) < 2 {
		return s, hasURI, lines, false
	}

	p, rest := lines[0].Data, lines[1:]
	value := p[len(p)-1].Data
	params := p[1 : len(p)-1]

	switch strings.ToUpper(p[0].Data) {
	case "BEGIN":
		switch n := strings.ToUpper(value); n {
		default:
			ok, r := vSkip(rest, n)
			if !ok {
				return s, hasURI, lines, false
			}

			rest = r
		}
	case "URI":
		if hasURI {
			return s, hasURI, lines, false
		}

		x, ok := vDecPropURI(s.URI, params, value)
		if !ok {
			return s, hasURI, lines, false
		}

		hasURI, s.URI = true, x
	case "DURATION":
		if s.Duration != nil {
			return s, hasURI, lines, false
		}

		x, ok := vDecPropDuration(PropDuration{}, params, value)
		if !ok {
			return s, hasURI, lines, false
		}

		s.Duration = &x
	case "REPEAT":
		if s.Repeat != nil {
			return s, hasURI, lines, false
		}

		x, ok := vDecPropRepeat(PropRepeat(0), params, value)
		if !ok {
			return s, hasURI, lines, false
		}

		s.Repeat = &x
	case "UID":
		if s.UID != nil {
			return s, hasURI, lines, false
		}

		x, ok := vDecPropUID(PropUID(""), params, value)
		if !ok {
			return s, hasURI, lines, false
		}

		s.UID = &x
	case "ALARM-AGENT":
		x, ok := vDecPropAlarmAgent(PropAlarmAgent{}, params, value)
		if !ok {
			return s, hasURI, lines, false
		}

		s.AlarmAgent = append(s.AlarmAgent, x)
	case "STATUS":
		if s.AlarmStatus != nil {
			return s, hasURI, lines, false
		}

		x, ok := vDecPropAlarmStatus(PropAlarmStatus(0), params, value)
		if !ok {
			return s, hasURI, lines, false
		}

		s.AlarmStatus = &x
	case "LAST-TRIGGERED":
		x, ok := vDecPropLastTriggered(PropLastTriggered{}, params, value)
		if !ok {
			return s, hasURI, lines, false
		}

		s.LastTriggered = append(s.LastTriggered, x)
	case "ACKNOWLEDGED":
		if s.Acknowledged != nil {
			return s, hasURI, lines, false
		}

		x, ok := vDecPropAcknowledged(PropAcknowledged{}, params, value)
		if !ok {
			return s, hasURI, lines, false
		}

		s.Acknowledged = &x
	case "PROXIMITY":
		if s.Proximity != nil {
			return s, hasURI, lines, false
		}

		x, ok := vDecPropProximity(PropProximity(""), params, value)
		if !ok {
			return s, hasURI, lines, false
		}

		s.Proximity = &x
	case "GEO-LOCATION":
		x, ok := vDecPropGeoLocation(PropGeoLocation{}, params, value)
		if !ok {
			return s, hasURI, lines, false
		}

		s.GeoLocation = append(s.GeoLocation, x)
	case "RELATED-TO":
		if s.RelatedTo != nil {
			return s, hasURI, lines, false
		}

		x, ok := vDecPropRelatedTo(PropRelatedTo{}, params, value)
		if !ok {
			return s, hasURI, lines, false
		}

		s.RelatedTo = &x
	case "DEFAULT-ALARM":
		if s.DefaultAlarm != nil {
			return s, hasURI, lines, false
		}

		x, ok := vDecPropDefaultAlarm(PropDefaultAlarm(false), params, value)
		if !ok {
			return s, hasURI, lines, false
		}

		s.DefaultAlarm = &x
	case "END":
		return s, hasURI, rest, strings.ToUpper(value) == "VALARM"
	}

	return vLinesAlarmURI(s, hasURI, rest)
}

func vLinesAlarmURI_ensures(s AlarmURI, hasURI bool, lines []parser.Phrase, s2 AlarmURI, hasURI2 bool, rest []parser.Phrase, ok bool) bool {
	return !ok || len(rest) <= len(lines)
}

//verif:decsec AlarmURI.decode
func vDecAlarmURI(s AlarmURI, lines []parser.Phrase) (AlarmURI, []parser.Phrase, bool) {
	s, hasURI, rest, ok := vLinesAlarmURI(s, false, lines)
	if !ok || !hasURI {
		return s, rest, false
	}

	if len(s.GeoLocation) != 0 && s.Proximity == nil {
		return s, rest, false
	}

	if (s.Duration != nil) != (s.Repeat != nil) {
		return s, rest, false
	}

	return s, rest, true
}

func vDecAlarmURI_ensures(s AlarmURI, lines []parser.Phrase, s2 AlarmURI, rest []parser.Phrase, ok bool) bool {
	return !ok || len(rest) <= len(lines)
}

//verif:enc AlarmURI.encode
func vEncAlarmURI(s AlarmURI) string {
	o := ""

	o += vEncPropURI(s.URI)

	if s.Duration != nil {
		o += vEncPropDuration(*s.Duration)
	}

	if s.Repeat != nil {
		o += vEncPropRepeat(*s.Repeat)
	}

	if s.UID != nil {
		o += vEncPropUID(*s.UID)
	}

	o += vEncPropAlarmAgentList(s.AlarmAgent)

	if s.AlarmStatus != nil {
		o += vEncPropAlarmStatus(*s.AlarmStatus)
	}

	o += vEncPropLastTriggeredList(s.LastTriggered)

	if s.Acknowledged != nil {
		o += vEncPropAcknowledged(*s.Acknowledged)
	}

	if s.Proximity != nil {
		o += vEncPropProximity(*s.Proximity)
	}

	o += vEncPropGeoLocationList(s.GeoLocation)

	if s.RelatedTo != nil {
		o += vEncPropRelatedTo(*s.RelatedTo)
	}

	if s.DefaultAlarm != nil {
		o += vEncPropDefaultAlarm(*s.DefaultAlarm)
	}

	return o
}

//verif:chk AlarmURI.valid
func vValAlarmURI(s AlarmURI) bool {
	if !vValPropURI(s.URI) {
		return false
	}

	if s.Duration != nil && !vValPropDuration(*s.Duration) {
		return false
	}

	if s.Repeat != nil && !vValPropRepeat(*s.Repeat) {
		return false
	}

	if s.UID != nil && !vValPropUID(*s.UID) {
		return false
	}

	if !vValPropAlarmAgentList(s.AlarmAgent) {
		return false
	}

	if s.AlarmStatus != nil && !vValPropAlarmStatus(*s.AlarmStatus) {
		return false
	}

	if !vValPropLastTriggeredList(s.LastTriggered) {
		return false
	}

	if s.Acknowledged != nil && !vValPropAcknowledged(*s.Acknowledged) {
		return false
	}

	if s.Proximity != nil && !vValPropProximity(*s.Proximity) {
		return false
	}

	if !vValPropGeoLocationList(s.GeoLocation) {
		return false
	}

	if s.RelatedTo != nil && !vValPropRelatedTo(*s.RelatedTo) {
		return false
	}

	if s.DefaultAlarm != nil && !vValPropDefaultAlarm(*s.DefaultAlarm) {
		return false
	}

	if len(s.GeoLocation) != 0 && s.Proximity == nil {
		return false
	}

	if (s.Duration != nil) != (s.Repeat != nil) {
		return false
	}

	return true
}

// ---- AlarmNone

func vLinesAlarmNone(s AlarmNone, lines []parser.Phrase) (AlarmNone, []parser.Phrase, bool) {
	if len(lines) == 0 || len(lines[0].Data) < 2 {
		return s, lines, false
	}

	p, rest := lines[0].Data, lines[1:]
	value := p[len(p)-1].Data

	switch strings.ToUpper(p[0].Data) {
	case "BEGIN":
		switch n := strings.ToUpper(value); n {
		default:
			ok, r := vSkip(rest, n)
			if !ok {
				return s, lines, false
			}

			rest = r
		}
	case "END":
		return s, rest, strings.ToUpper(value) == "VALARM"
	}

	return vLinesAlarmNone(s, rest)
}

func vLinesAlarmNone_ensures(s AlarmNone, lines []parser.Phrase, s2 AlarmNone, rest []parser.Phrase, ok bool) bool {
	return !ok || len(rest) <= len(lines)
}

//verif:decsec AlarmNone.decode
func vDecAlarmNone(s AlarmNone, lines []parser.Phrase) (AlarmNone, []parser.Phrase, bool) {
	s, rest, ok := vLinesAlarmNone(s, lines)
	if !ok {
		return s, rest, false
	}

	return s, rest, true
}

func vDecAlarmNone_ensures(s AlarmNone, lines []parser.Phrase, s2 AlarmNone, rest []parser.Phrase, ok bool) bool {
	return !ok || len(rest) <= len(lines)
}

//verif:enc AlarmNone.encode
func vEncAlarmNone(s AlarmNone) string {
	o := ""

	return o
}

//verif:chk AlarmNone.valid
func vValAlarmNone(s AlarmNone) bool {
	return true
}

// ---- STANDARD

func vLinesStandard(s Standard, hasDateTimeStart bool, hasTimezoneOffsetTo bool, hasTimezoneOffsetFrom bool, lines []parser.Phrase) (Standard, bool, bool, bool, []parser.Phrase, bool) {
	if len(lines) == 0 || len(lines[0].Data) < 2 {
		return s, hasDateTimeStart, hasTimezoneOffsetTo, hasTimezoneOffsetFrom, lines, false
	}

	p, rest := lines[0].Data, lines[1:]
	value := p[len(p)-1].Data
	params := p[1 : len(p)-1]

	switch strings.ToUpper(p[0].Data) {
	case "BEGIN":
		switch n := strings.ToUpper(value); n {
		default:
			ok, r := vSkip(rest, n)
			if !ok {
				return s, hasDateTimeStart, hasTimezoneOffsetTo, hasTimezoneOffsetFrom, lines, false
			}

			rest = r
		}
	case "DTSTART":
		if hasDateTimeStart {
			return s, hasDateTimeStart, hasTimezoneOffsetTo, hasTimezoneOffsetFrom, lines, false
		}

		x, ok := vDecPropDateTimeStart(s.DateTimeStart, params, value)
		if !ok {
			return s, hasDateTimeStart, hasTimezoneOffsetTo, hasTimezoneOffsetFrom, lines, false
		}

		hasDateTimeStart, s.DateTimeStart = true, x
	case "TZOFFSETTO":
		if hasTimezoneOffsetTo {
			return s, hasDateTimeStart, hasTimezoneOffsetTo, hasTimezoneOffsetFrom, lines, false
		}

		x, ok := vDecPropTimezoneOffsetTo(s.TimezoneOffsetTo, params, value)
		if !ok {
			return s, hasDateTimeStart, hasTimezoneOffsetTo, hasTimezoneOffsetFrom, lines, false
		}

		hasTimezoneOffsetTo, s.TimezoneOffsetTo = true, x
	case "TZOFFSETFROM":
		if hasTimezoneOffsetFrom {
			return s, hasDateTimeStart, hasTimezoneOffsetTo, hasTimezoneOffsetFrom, lines, false
		}

		x, ok := vDecPropTimezoneOffsetFrom(s.TimezoneOffsetFrom, params, value)
		if !ok {
			return s, hasDateTimeStart, hasTimezoneOffsetTo, hasTimezoneOffsetFrom, lines, false
		}

		hasTimezoneOffsetFrom, s.TimezoneOffsetFrom = true, x
	case "RRULE":
		if s.RecurrenceRule != nil {
			return s, hasDateTimeStart, hasTimezoneOffsetTo, hasTimezoneOffsetFrom, lines, false
		}

		x, ok := vDecPropRecurrenceRule(PropRecurrenceRule{}, params, value)
		if !ok {
			return s, hasDateTimeStart, hasTimezoneOffsetTo, hasTimezoneOffsetFrom, lines, false
		}

		s.RecurrenceRule = &x
	case "COMMENT":
		x, ok := vDecPropComment(PropComment{}, params, value)
		if !ok {
			return s, hasDateTimeStart, hasTimezoneOffsetTo, hasTimezoneOffsetFrom, lines, false
		}

		s.Comment = append(s.Comment, x)
	case "RDATE":
		x, ok := vDecPropRecurrenceDateTimes(PropRecurrenceDateTimes{}, params, value)
		if !ok {
			return s, hasDateTimeStart, hasTimezoneOffsetTo, hasTimezoneOffsetFrom, lines, false
		}

		s.RecurrenceDateTimes = append(s.RecurrenceDateTimes, x)
	case "TZNAME":
		x, ok := vDecPropTimezoneName(PropTimezoneName{}, params, value)
		if !ok {
			return s, hasDateTimeStart, hasTimezoneOffsetTo, hasTimezoneOffsetFrom, lines, false
		}

		s.TimezoneName = append(s.TimezoneName, x)
	case "END":
		return s, hasDateTimeStart, hasTimezoneOffsetTo, hasTimezoneOffsetFrom, rest, strings.ToUpper(value) == "STANDARD"
	}

	return vLinesStandard(s, hasDateTimeStart, hasTimezoneOffsetTo, hasTimezoneOffsetFrom, rest)
}

func vLinesStandard_ensures(s Standard, hasDateTimeStart bool, hasTimezoneOffsetTo bool, hasTimezoneOffsetFrom bool, lines []parser.Phrase, s2 Standard, hasDateTimeStart2 bool, hasTimezoneOffsetTo2 bool, hasTimezoneOffsetFrom2 bool, rest []parser.Phrase, ok bool) bool {
	return !ok || len(rest) <= len(lines)
}

//verif:decsec Standard.decode
func vDecStandard(s Standard, lines []parser.Phrase) (Standard, []parser.Phrase, bool) {
	s, hasDateTimeStart, hasTimezoneOffsetTo, hasTimezoneOffsetFrom, rest, ok := vLinesStandard(s, false, false, false, lines)
	if !ok || !hasDateTimeStart || !hasTimezoneOffsetTo || !hasTimezoneOffsetFrom {
		return s, rest, false
	}

	return s, rest, true
}

func vDecStandard_ensures(s Standard, lines []parser.Phrase, s2 Standard, rest []parser.Phrase, ok bool) bool {
	return !ok || len(rest) <= len(lines)
}

//verif:enc Standard.encode
func vEncStandard(s Standard) string {
	o := "BEGIN:STANDARD\r\n"

	o += vEncPropDateTimeStart(s.DateTimeStart)

	o += vEncPropTimezoneOffsetTo(s.TimezoneOffsetTo)

	o += vEncPropTimezoneOffsetFrom(s.TimezoneOffsetFrom)

	if s.RecurrenceRule != nil {
		o += vEncPropRecurrenceRule(*s.RecurrenceRule)
	}

	o += vEncPropCommentList(s.Comment)

	o += vEncPropRecurrenceDateTimesList(s.RecurrenceDateTimes)

	o += vEncPropTimezoneNameList(s.TimezoneName)

	return o + "END:STANDARD\r\n"
}

//verif:chk Standard.valid
func vValStandard(s Standard) bool {
	if !vValPropDateTimeStart(s.DateTimeStart) {
		return false
	}

	if !vValPropTimezoneOffsetTo(s.TimezoneOffsetTo) {
		return false
	}

	if !vValPropTimezoneOffsetFrom(s.TimezoneOffsetFrom) {
		return false
	}

	if s.RecurrenceRule != nil && !vValPropRecurrenceRule(*s.RecurrenceRule) {
		return false
	}

	if !vValPropCommentList(s.Comment) {
		return false
	}

	if !vValPropRecurrenceDateTimesList(s.RecurrenceDateTimes) {
		return false
	}

	if !vValPropTimezoneNameList(s.TimezoneName) {
		return false
	}

	return true
}

// ---- DAYLIGHT

func vLinesDaylight(s Daylight, hasDateTimeStart bool, hasTimezoneOffsetTo bool, hasTimezoneOffsetFrom bool, lines []parser.Phrase) (Daylight, bool, bool, bool, []parser.Phrase, bool) {
	if len(lines) == 0 || len(lines[0].Data) < 2 {
		return s, hasDateTimeStart, hasTimezoneOffsetTo, hasTimezoneOffsetFrom, lines, false
	}

	p, rest := lines[0].Data, lines[1:]
	value := p[len(p)-1].Data
	params := p[1 : len(p)-1]

	switch strings.ToUpper(p[0].Data) {
	case "BEGIN":
		switch n := strings.ToUpper(value); n {
		default:
			ok, r := vSkip(rest, n)
			if !ok {
				return s, hasDateTimeStart, hasTimezoneOffsetTo, hasTimezoneOffsetFrom, lines, false
			}

			rest = r
		}
	case "DTSTART":
		if hasDateTimeStart {
			return s, hasDateTimeStart, hasTimezoneOffsetTo, hasTimezoneOffsetFrom, lines, false
		}

		x, ok := vDecPropDateTimeStart(s.DateTimeStart, params, value)
		if !ok {
			return s, hasDateTimeStart, hasTimezoneOffsetTo, hasTimezoneOffsetFrom, lines, false
		}

		hasDateTimeStart, s.DateTimeStart = true, x
	case "TZOFFSETTO":
		if hasTimezoneOffsetTo {
			return s, hasDateTimeStart, hasTimezoneOffsetTo, hasTimezoneOffsetFrom, lines, false
		}

		x, ok := vDecPropTimezoneOffsetTo(s.TimezoneOffsetTo, params, value)
		if !ok {
			return s, hasDateTimeStart, hasTimezoneOffsetTo, hasTimezoneOffsetFrom, lines, false
		}

		hasTimezoneOffsetTo, s.TimezoneOffsetTo = true, x
	case "TZOFFSETFROM":
		if hasTimezoneOffsetFrom {
			return s, hasDateTimeStart, hasTimezoneOffsetTo, hasTimezoneOffsetFrom, lines, false
		}

		x, ok := vDecPropTimezoneOffsetFrom(s.TimezoneOffsetFrom, params, value)
		if !ok {
			return s, hasDateTimeStart, hasTimezoneOffsetTo, hasTimezoneOffsetFrom, lines, false
		}

		hasTimezoneOffsetFrom, s.TimezoneOffsetFrom = true, x
	case "RRULE":
		if s.RecurrenceRule != nil {
			return s, hasDateTimeStart, hasTimezoneOffsetTo, hasTimezoneOffsetFrom, lines, false
		}

		x, ok := vDecPropRecurrenceRule(PropRecurrenceRule{}, params, value)
		if !ok {
			return s, hasDateTimeStart, hasTimezoneOffsetTo, hasTimezoneOffsetFrom, lines, false
		}

		s.RecurrenceRule = &x
	case "COMMENT":
		x, ok := vDecPropComment(PropComment{}, params, value)
		if !ok {
			return s, hasDateTimeStart, hasTimezoneOffsetTo, hasTimezoneOffsetFrom, lines, false
		}

		s.Comment = append(s.Comment, x)
	case "RDATE":
		x, ok := vDecPropRecurrenceDateTimes(PropRecurrenceDateTimes{}, params, value)
		if !ok {
			return s, hasDateTimeStart, hasTimezoneOffsetTo, hasTimezoneOffsetFrom, lines, false
		}

		s.RecurrenceDateTimes = append(s.RecurrenceDateTimes, x)
	case "TZNAME":
		x, ok := vDecPropTimezoneName(PropTimezoneName{}, params, value)
		if !ok {
			return s, hasDateTimeStart, hasTimezoneOffsetTo, hasTimezoneOffsetFrom, lines, false
		}

		s.TimezoneName = append(s.TimezoneName, x)
	case "END":
		return s, hasDateTimeStart, hasTimezoneOffsetTo, hasTimezoneOffsetFrom, rest, strings.ToUpper(value) == "DAYLIGHT"
	}

	return vLinesDaylight(s, hasDateTimeStart, hasTimezoneOffsetTo, hasTimezoneOffsetFrom, rest)
}

func vLinesDaylight_ensures(s Daylight, hasDateTimeStart bool, hasTimezoneOffsetTo bool, hasTimezoneOffsetFrom bool, lines []parser.Phrase, s2 Daylight, hasDateTimeStart2 bool, hasTimezoneOffsetTo2 bool, hasTimezoneOffsetFrom2 bool, rest []parser.Phrase, ok bool) bool {
	return !ok || len(rest) <= len(lines)
}

//verif:decsec Daylight.decode
func vDecDaylight(s Daylight, lines []parser.Phrase) (Daylight, []parser.Phrase, bool) {
	s, hasDateTimeStart, hasTimezoneOffsetTo, hasTimezoneOffsetFrom, rest, ok := vLinesDaylight(s, false, false, false, lines)
	if !ok || !hasDateTimeStart || !hasTimezoneOffsetTo || !hasTimezoneOffsetFrom {
		return s, rest, false
	}

	return s, rest, true
}

func vDecDaylight_ensures(s Daylight, lines []parser.Phrase, s2 Daylight, rest []parser.Phrase, ok bool) bool {
	return !ok || len(rest) <= len(lines)
}

//verif:enc Daylight.encode
func vEncDaylight(s Daylight) string {
	o := "BEGIN:DAYLIGHT\r\n"

	o += vEncPropDateTimeStart(s.DateTimeStart)

	o += vEncPropTimezoneOffsetTo(s.TimezoneOffsetTo)

	o += vEncPropTimezoneOffsetFrom(s.TimezoneOffsetFrom)

	if s.RecurrenceRule != nil {
		o += vEncPropRecurrenceRule(*s.RecurrenceRule)
	}

	o += vEncPropCommentList(s.Comment)

	o += vEncPropRecurrenceDateTimesList(s.RecurrenceDateTimes)

	o += vEncPropTimezoneNameList(s.TimezoneName)

	return o + "END:DAYLIGHT\r\n"
}

//verif:chk Daylight.valid
func vValDaylight(s Daylight) bool {
	if !vValPropDateTimeStart(s.DateTimeStart) {
		return false
	}

	if !vValPropTimezoneOffsetTo(s.TimezoneOffsetTo) {
		return false
	}

	if !vValPropTimezoneOffsetFrom(s.TimezoneOffsetFrom) {
		return false
	}

	if s.RecurrenceRule != nil && !vValPropRecurrenceRule(*s.RecurrenceRule) {
		return false
	}

	if !vValPropCommentList(s.Comment) {
		return false
	}

	if !vValPropRecurrenceDateTimesList(s.RecurrenceDateTimes) {
		return false
	}

	if !vValPropTimezoneNameList(s.TimezoneName) {
		return false
	}

	return true
}

// ---- VTIMEZONE

func vLinesTimezone(s Timezone, hasTimezoneID bool, lines []parser.Phrase) (Timezone, bool, []parser.Phrase, bool) {
	if len(lines) == 0 || len(lines[0].Data) < 2 {
		return s, hasTimezoneID, lines, false
	}

	p, rest := lines[0].Data, lines[1:]
	value := p[len(p)-1].Data
	params := p[1 : len(p)-1]

	switch strings.ToUpper(p[0].Data) {
	case "BEGIN":
		switch n := strings.ToUpper(value); n {
		case "STANDARD":
			e, r, ok := vDecStandard(Standard{}, rest)
			if !ok {
				return s, hasTimezoneID, lines, false
			}

			s.Standard = append(s.Standard, e)
			rest = r
		case "DAYLIGHT":
			e, r, ok := vDecDaylight(Daylight{}, rest)
			if !ok {
				return s, hasTimezoneID, lines, false
			}

			s.Daylight = append(s.Daylight, e)
			rest = r
		default:
			ok, r := vSkip(rest, n)
			if !ok {
				return s, hasTimezoneID, lines, false
			}

			rest = r
		}
	case "TZID":
		if hasTimezoneID {
			return s, hasTimezoneID, lines, false
		}

		x, ok := vDecPropTimezoneID(s.TimezoneID, params, value)
		if !ok {
			return s, hasTimezoneID, lines, false
		}

		hasTimezoneID, s.TimezoneID = true, x
	case "LAST-MODIFIED":
		if s.LastModified != nil {
			return s, hasTimezoneID, lines, false
		}

		x, ok := vDecPropLastModified(PropLastModified{}, params, value)
		if !ok {
			return s, hasTimezoneID, lines, false
		}

		s.LastModified = &x
	case "TZURL":
		if s.TimezoneURL != nil {
			return s, hasTimezoneID, lines, false
		}

		x, ok := vDecPropTimezoneURL(PropTimezoneURL{}, params, value)
		if !ok {
			return s, hasTimezoneID, lines, false
		}

		s.TimezoneURL = &x
	case "END":
		return s, hasTimezoneID, rest, strings.ToUpper(value) == "VTIMEZONE"
	}

	return vLinesTimezone(s, hasTimezoneID, rest)
}

func vLinesTimezone_ensures(s Timezone, hasTimezoneID bool, lines []parser.Phrase, s2 Timezone, hasTimezoneID2 bool, rest []parser.Phrase, ok bool) bool {
	return !ok || len(rest) <= len(lines)
}

//verif:decsec Timezone.decode
func vDecTimezone(s Timezone, lines []parser.Phrase) (Timezone, []parser.Phrase, bool) {
	s, hasTimezoneID, rest, ok := vLinesTimezone(s, false, lines)
	if !ok || !hasTimezoneID {
		return s, rest, false
	}

	if len(s.Standard) == 0 && len(s.Daylight) == 0 {
		return s, rest, false
	}

	return s, rest, true
}

func vDecTimezone_ensures(s Timezone, lines []parser.Phrase, s2 Timezone, rest []parser.Phrase, ok bool) bool {
	return !ok || len(rest) <= len(lines)
}

//verif:enc Timezone.encode
func vEncTimezone(s Timezone) string {
	o := "BEGIN:VTIMEZONE\r\n"

	o += vEncPropTimezoneID(s.TimezoneID)

	if s.LastModified != nil {
		o += vEncPropLastModified(*s.LastModified)
	}

	if s.TimezoneURL != nil {
		o += vEncPropTimezoneURL(*s.TimezoneURL)
	}

	o += vEncStandardList(s.Standard)

	o += vEncDaylightList(s.Daylight)

	return o + "END:VTIMEZONE\r\n"
}

//verif:chk Timezone.valid
func vValTimezone(s Timezone) bool {
	if !vValPropTimezoneID(s.TimezoneID) {
		return false
	}

	if s.LastModified != nil && !vValPropLastModified(*s.LastModified) {
		return false
	}

	if s.TimezoneURL != nil && !vValPropTimezoneURL(*s.TimezoneURL) {
		return false
	}

	if !vValStandardList(s.Standard) {
		return false
	}

	if !vValDaylightList(s.Daylight) {
		return false
	}

	if len(s.Standard) == 0 && len(s.Daylight) == 0 {
		return false
	}

	return true
}

// ---- VFREEBUSY

func vLinesFreeBusy(s FreeBusy, hasDateTimeStamp bool, hasUID bool, lines []parser.Phrase) (FreeBusy, bool, bool, []parser.Phrase, bool) {
	if len(lines) == 0 || len(lines[0].Data) < 2 {
		return s, hasDateTimeStamp, hasUID, lines, false
	}

	p, rest := lines[0].Data, lines[1:]
	value := p[len(p)-1].Data
	params := p[1 : len(p)-1]

	switch strings.ToUpper(p[0].Data) {
	case "BEGIN":
		switch n := strings.ToUpper(value); n {
		default:
			ok, r := vSkip(rest, n)
			if !ok {
				return s, hasDateTimeStamp, hasUID, lines, false
			}

			rest = r
		}
	case "DTSTAMP":
		if hasDateTimeStamp {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropDateTimeStamp(s.DateTimeStamp, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		hasDateTimeStamp, s.DateTimeStamp = true, x
	case "UID":
		if hasUID {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropUID(s.UID, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		hasUID, s.UID = true, x
	case "CONTACT":
		if s.Contact != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropContact(PropContact{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Contact = &x
	case "DTSTART":
		if s.DateTimeStart != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropDateTimeStart(PropDateTimeStart{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.DateTimeStart = &x
	case "DTEND":
		if s.DateTimeEnd != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropDateTimeEnd(PropDateTimeEnd{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.DateTimeEnd = &x
	case "ORGANIZER":
		if s.Organizer != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropOrganizer(PropOrganizer{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Organizer = &x
	case "URL":
		if s.URL != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropURL(PropURL{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.URL = &x
	case "ATTENDEE":
		x, ok := vDecPropAttendee(PropAttendee{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Attendee = append(s.Attendee, x)
	case "COMMENT":
		x, ok := vDecPropComment(PropComment{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Comment = append(s.Comment, x)
	case "FREEBUSY":
		x, ok := vDecPropFreeBusy(PropFreeBusy{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.FreeBusy = append(s.FreeBusy, x)
	case "REQUEST-STATUS":
		x, ok := vDecPropRequestStatus(PropRequestStatus(""), params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.RequestStatus = append(s.RequestStatus, x)
	case "END":
		return s, hasDateTimeStamp, hasUID, rest, strings.ToUpper(value) == "VFREEBUSY"
	}

	return vLinesFreeBusy(s, hasDateTimeStamp, hasUID, rest)
}

func vLinesFreeBusy_ensures(s FreeBusy, hasDateTimeStamp bool, hasUID bool, lines []parser.Phrase, s2 FreeBusy, hasDateTimeStamp2 bool, hasUID2 bool, rest []parser.Phrase, ok bool) bool {
	return !ok || len(rest) <= len(lines)
}

//verif:decsec FreeBusy.decode
func vDecFreeBusy(s FreeBusy, lines []parser.Phrase) (FreeBusy, []parser.Phrase, bool) {
	s, hasDateTimeStamp, hasUID, rest, ok := vLinesFreeBusy(s, false, false, lines)
	if !ok || !hasDateTimeStamp || !hasUID {
		return s, rest, false
	}

	return s, rest, true
}

func vDecFreeBusy_ensures(s FreeBusy, lines []parser.Phrase, s2 FreeBusy, rest []parser.Phrase, ok bool) bool {
	return !ok || len(rest) <= len(lines)
}

//verif:enc FreeBusy.encode
func vEncFreeBusy(s FreeBusy) string {
	o := "BEGIN:VFREEBUSY\r\n"

	o += vEncPropDateTimeStamp(s.DateTimeStamp)

	o += vEncPropUID(s.UID)

	if s.Contact != nil {
		o += vEncPropContact(*s.Contact)
	}

	if s.DateTimeStart != nil {
		o += vEncPropDateTimeStart(*s.DateTimeStart)
	}

	if s.DateTimeEnd != nil {
		o += vEncPropDateTimeEnd(*s.DateTimeEnd)
	}

	if s.Organizer != nil {
		o += vEncPropOrganizer(*s.Organizer)
	}

	if s.URL != nil {
		o += vEncPropURL(*s.URL)
	}

	o += vEncPropAttendeeList(s.Attendee)

	o += vEncPropCommentList(s.Comment)

	o += vEncPropFreeBusyList(s.FreeBusy)

	o += vEncPropRequestStatusList(s.RequestStatus)

	return o + "END:VFREEBUSY\r\n"
}

//verif:chk FreeBusy.valid
func vValFreeBusy(s FreeBusy) bool {
	if !vValPropDateTimeStamp(s.DateTimeStamp) {
		return false
	}

	if !vValPropUID(s.UID) {
		return false
	}

	if s.Contact != nil && !vValPropContact(*s.Contact) {
		return false
	}

	if s.DateTimeStart != nil && !vValPropDateTimeStart(*s.DateTimeStart) {
		return false
	}

	if s.DateTimeEnd != nil && !vValPropDateTimeEnd(*s.DateTimeEnd) {
		return false
	}

	if s.Organizer != nil && !vValPropOrganizer(*s.Organizer) {
		return false
	}

	if s.URL != nil && !vValPropURL(*s.URL) {
		return false
	}

	if !vValPropAttendeeList(s.Attendee) {
		return false
	}

	if !vValPropCommentList(s.Comment) {
		return false
	}

	if !vValPropFreeBusyList(s.FreeBusy) {
		return false
	}

	if !vValPropRequestStatusList(s.RequestStatus) {
		return false
	}

	return true
}

// ---- VJOURNAL

func vLinesJournal(s Journal, hasDateTimeStamp bool, hasUID bool, lines []parser.Phrase) (Journal, bool, bool, []parser.Phrase, bool) {
	if len(lines) == 0 || len(lines[0].Data) < 2 {
		return s, hasDateTimeStamp, hasUID, lines, false
	}

	p, rest := lines[0].Data, lines[1:]
	value := p[len(p)-1].Data
	params := p[1 : len(p)-1]

	switch strings.ToUpper(p[0].Data) {
	case "BEGIN":
		switch n := strings.ToUpper(value); n {
		default:
			ok, r := vSkip(rest, n)
			if !ok {
				return s, hasDateTimeStamp, hasUID, lines, false
			}

			rest = r
		}
	case "DTSTAMP":
		if hasDateTimeStamp {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropDateTimeStamp(s.DateTimeStamp, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		hasDateTimeStamp, s.DateTimeStamp = true, x
	case "UID":
		if hasUID {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropUID(s.UID, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		hasUID, s.UID = true, x
	case "CLASS":
		if s.Class != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropClass(PropClass(0), params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Class = &x
	case "CREATED":
		if s.Created != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropCreated(PropCreated{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Created = &x
	case "DTSTART":
		if s.DateTimeStart != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropDateTimeStart(PropDateTimeStart{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.DateTimeStart = &x
	case "LAST-MODIFIED":
		if s.LastModified != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropLastModified(PropLastModified{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.LastModified = &x
	case "ORGANIZER":
		if s.Organizer != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropOrganizer(PropOrganizer{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Organizer = &x
	case "RECURRENCE-ID":
		if s.RecurrenceID != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropRecurrenceID(PropRecurrenceID{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.RecurrenceID = &x
	case "SEQUENCE":
		if s.Sequence != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropSequence(PropSequence(0), params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Sequence = &x
	case "STATUS":
		if s.Status != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropStatus(PropStatus(0), params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Status = &x
	case "SUMMARY":
		if s.Summary != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropSummary(PropSummary{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Summary = &x
	case "URL":
		if s.URL != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropURL(PropURL{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.URL = &x
	case "RRULE":
		if s.RecurrenceRule != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropRecurrenceRule(PropRecurrenceRule{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.RecurrenceRule = &x
	case "ATTACH":
		x, ok := vDecPropAttachment(PropAttachment{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Attachment = append(s.Attachment, x)
	case "ATTENDEE":
		x, ok := vDecPropAttendee(PropAttendee{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Attendee = append(s.Attendee, x)
	case "CATEGORIES":
		x, ok := vDecPropCategories(PropCategories{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Categories = append(s.Categories, x)
	case "COMMENT":
		x, ok := vDecPropComment(PropComment{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Comment = append(s.Comment, x)
	case "CONTACT":
		x, ok := vDecPropContact(PropContact{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Contact = append(s.Contact, x)
	case "DESCRIPTION":
		x, ok := vDecPropDescription(PropDescription{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Description = append(s.Description, x)
	case "EXDATE":
		x, ok := vDecPropExceptionDateTime(PropExceptionDateTime{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.ExceptionDateTime = append(s.ExceptionDateTime, x)
	case "REQUEST-STATUS":
		x, ok := vDecPropRequestStatus(PropRequestStatus(""), params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.RequestStatus = append(s.RequestStatus, x)
	case "RELATED-TO":
		x, ok := vDecPropRelatedTo(PropRelatedTo{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.RelatedTo = append(s.RelatedTo, x)
	case "RESOURCES":
		x, ok := vDecPropResources(PropResources{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Resources = append(s.Resources, x)
	case "RDATE":
		x, ok := vDecPropRecurrenceDateTimes(PropRecurrenceDateTimes{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.RecurrenceDateTimes = append(s.RecurrenceDateTimes, x)
	case "END":
		return s, hasDateTimeStamp, hasUID, rest, strings.ToUpper(value) == "VJOURNAL"
	}

	return vLinesJournal(s, hasDateTimeStamp, hasUID, rest)
}

func vLinesJournal_ensures(s Journal, hasDateTimeStamp bool, hasUID bool, lines []parser.Phrase, s2 Journal, hasDateTimeStamp2 bool, hasUID2 bool, rest []parser.Phrase, ok bool) bool {
	return !ok || len(rest) <= len(lines)
}

//verif:decsec Journal.decode
func vDecJournal(s Journal, lines []parser.Phrase) (Journal, []parser.Phrase, bool) {
	s, hasDateTimeStamp, hasUID, rest, ok := vLinesJournal(s, false, false, lines)
	if !ok || !hasDateTimeStamp || !hasUID {
		return s, rest, false
	}

	return s, rest, true
}

func vDecJournal_ensures(s Journal, lines []parser.Phrase, s2 Journal, rest []parser.Phrase, ok bool) bool {
	return !ok || len(rest) <= len(lines)
}

//verif:enc Journal.encode
func vEncJournal(s Journal) string {
	o := "BEGIN:VJOURNAL\r\n"

	o += vEncPropDateTimeStamp(s.DateTimeStamp)

	o += vEncPropUID(s.UID)

	if s.Class != nil {
		o += vEncPropClass(*s.Class)
	}

	if s.Created != nil {
		o += vEncPropCreated(*s.Created)
	}

	if s.DateTimeStart != nil {
		o += vEncPropDateTimeStart(*s.DateTimeStart)
	}

	if s.LastModified != nil {
		o += vEncPropLastModified(*s.LastModified)
	}

	if s.Organizer != nil {
		o += vEncPropOrganizer(*s.Organizer)
	}

	if s.RecurrenceID != nil {
		o += vEncPropRecurrenceID(*s.RecurrenceID)
	}

	if s.Sequence != nil {
		o += vEncPropSequence(*s.Sequence)
	}

	if s.Status != nil {
		o += vEncPropStatus(*s.Status)
	}

	if s.Summary != nil {
		o += vEncPropSummary(*s.Summary)
	}

	if s.URL != nil {
		o += vEncPropURL(*s.URL)
	}

	if s.RecurrenceRule != nil {
		o += vEncPropRecurrenceRule(*s.RecurrenceRule)
	}

	o += vEncPropAttachmentList(s.Attachment)

	o += vEncPropAttendeeList(s.Attendee)

	o += vEncPropCategoriesList(s.Categories)

	o += vEncPropCommentList(s.Comment)

	o += vEncPropContactList(s.Contact)

	o += vEncPropDescriptionList(s.Description)

	o += vEncPropExceptionDateTimeList(s.ExceptionDateTime)

	o += vEncPropRequestStatusList(s.RequestStatus)

	o += vEncPropRelatedToList(s.RelatedTo)

	o += vEncPropResourcesList(s.Resources)

	o += vEncPropRecurrenceDateTimesList(s.RecurrenceDateTimes)

	return o + "END:VJOURNAL\r\n"
}

//verif:chk Journal.valid
func vValJournal(s Journal) bool {
	if !vValPropDateTimeStamp(s.DateTimeStamp) {
		return false
	}

	if !vValPropUID(s.UID) {
		return false
	}

	if s.Class != nil && !vValPropClass(*s.Class) {
		return false
	}

	if s.Created != nil && !vValPropCreated(*s.Created) {
		return false
	}

	if s.DateTimeStart != nil && !vValPropDateTimeStart(*s.DateTimeStart) {
		return false
	}

	if s.LastModified != nil && !vValPropLastModified(*s.LastModified) {
		return false
	}

	if s.Organizer != nil && !vValPropOrganizer(*s.Organizer) {
		return false
	}

	if s.RecurrenceID != nil && !vValPropRecurrenceID(*s.RecurrenceID) {
		return false
	}

	if s.Sequence != nil && !vValPropSequence(*s.Sequence) {
		return false
	}

	if s.Status != nil && !vValPropStatus(*s.Status) {
		return false
	}

	if s.Summary != nil && !vValPropSummary(*s.Summary) {
		return false
	}

	if s.URL != nil && !vValPropURL(*s.URL) {
		return false
	}

	if s.RecurrenceRule != nil && !vValPropRecurrenceRule(*s.RecurrenceRule) {
		return false
	}

	if !vValPropAttachmentList(s.Attachment) {
		return false
	}

	if !vValPropAttendeeList(s.Attendee) {
		return false
	}

	if !vValPropCategoriesList(s.Categories) {
		return false
	}

	if !vValPropCommentList(s.Comment) {
		return false
	}

	if !vValPropContactList(s.Contact) {
		return false
	}

	if !vValPropDescriptionList(s.Description) {
		return false
	}

	if !vValPropExceptionDateTimeList(s.ExceptionDateTime) {
		return false
	}

	if !vValPropRequestStatusList(s.RequestStatus) {
		return false
	}

	if !vValPropRelatedToList(s.RelatedTo) {
		return false
	}

	if !vValPropResourcesList(s.Resources) {
		return false
	}

	if !vValPropRecurrenceDateTimesList(s.RecurrenceDateTimes) {
		return false
	}

	return true
}

// ---- VTODO

func vLinesTodo(s Todo, hasDateTimeStamp bool, hasUID bool, lines []parser.Phrase) (Todo, bool, bool, []parser.Phrase, bool) {
	if len(lines) == 0 || len(lines[0].Data) < 2 {
		return s, hasDateTimeStamp, hasUID, lines, false
	}

	p, rest := lines[0].Data, lines[1:]
	value := p[len(p)-1].Data
	params := p[1 : len(p)-1]

	switch strings.ToUpper(p[0].Data) {
	case "BEGIN":
		switch n := strings.ToUpper(value); n {
		case "VALARM":
			e, r, ok := vDecAlarm(Alarm{}, rest)
			if !ok {
				return s, hasDateTimeStamp, hasUID, lines, false
			}

			s.Alarm = append(s.Alarm, e)
			rest = r
		default:
			ok, r := vSkip(rest, n)
			if !ok {
				return s, hasDateTimeStamp, hasUID, lines, false
			}

			rest = r
		}
	case "DTSTAMP":
		if hasDateTimeStamp {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropDateTimeStamp(s.DateTimeStamp, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		hasDateTimeStamp, s.DateTimeStamp = true, x
	case "UID":
		if hasUID {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropUID(s.UID, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		hasUID, s.UID = true, x
	case "CLASS":
		if s.Class != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropClass(PropClass(0), params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Class = &x
	case "COMPLETED":
		if s.Completed != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropCompleted(PropCompleted{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Completed = &x
	case "CREATED":
		if s.Created != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropCreated(PropCreated{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Created = &x
	case "DESCRIPTION":
		if s.Description != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropDescription(PropDescription{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Description = &x
	case "DTSTART":
		if s.DateTimeStart != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropDateTimeStart(PropDateTimeStart{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.DateTimeStart = &x
	case "GEO":
		if s.Geo != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropGeo(PropGeo{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Geo = &x
	case "LAST-MODIFIED":
		if s.LastModified != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropLastModified(PropLastModified{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.LastModified = &x
	case "LOCATION":
		if s.Location != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropLocation(PropLocation{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Location = &x
	case "ORGANIZER":
		if s.Organizer != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropOrganizer(PropOrganizer{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Organizer = &x
	case "PERCENT-COMPLETE":
		if s.PercentComplete != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropPercentComplete(PropPercentComplete(0), params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.PercentComplete = &x
	case "PRIORITY":
		if s.Priority != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropPriority(PropPriority(0), params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Priority = &x
	case "RECURRENCE-ID":
		if s.RecurrenceID != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropRecurrenceID(PropRecurrenceID{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.RecurrenceID = &x
	case "SEQUENCE":
		if s.Sequence != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropSequence(PropSequence(0), params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Sequence = &x
	case "STATUS":
		if s.Status != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropStatus(PropStatus(0), params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Status = &x
	case "SUMMARY":
		if s.Summary != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropSummary(PropSummary{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Summary = &x
	case "URL":
		if s.URL != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropURL(PropURL{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.URL = &x
	case "DUE":
		if s.Due != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropDue(PropDue{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Due = &x
	case "DURATION":
		if s.Duration != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropDuration(PropDuration{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Duration = &x
	case "ATTACH":
		x, ok := vDecPropAttachment(PropAttachment{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Attachment = append(s.Attachment, x)
	case "ATTENDEE":
		x, ok := vDecPropAttendee(PropAttendee{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Attendee = append(s.Attendee, x)
	case "CATEGORIES":
		x, ok := vDecPropCategories(PropCategories{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Categories = append(s.Categories, x)
	case "COMMENT":
		x, ok := vDecPropComment(PropComment{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Comment = append(s.Comment, x)
	case "CONTACT":
		x, ok := vDecPropContact(PropContact{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Contact = append(s.Contact, x)
	case "EXDATE":
		x, ok := vDecPropExceptionDateTime(PropExceptionDateTime{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.ExceptionDateTime = append(s.ExceptionDateTime, x)
	case "REQUEST-STATUS":
		x, ok := vDecPropRequestStatus(PropRequestStatus(""), params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.RequestStatus = append(s.RequestStatus, x)
	case "RELATED-TO":
		x, ok := vDecPropRelatedTo(PropRelatedTo{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.RelatedTo = append(s.RelatedTo, x)
	case "RESOURCES":
		x, ok := vDecPropResources(PropResources{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Resources = append(s.Resources, x)
	case "RDATE":
		x, ok := vDecPropRecurrenceDateTimes(PropRecurrenceDateTimes{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.RecurrenceDateTimes = append(s.RecurrenceDateTimes, x)
	case "END":
		return s, hasDateTimeStamp, hasUID, rest, strings.ToUpper(value) == "VTODO"
	}

	return vLinesTodo(s, hasDateTimeStamp, hasUID, rest)
}

func vLinesTodo_ensures(s Todo, hasDateTimeStamp bool, hasUID bool, lines []parser.Phrase, s2 Todo, hasDateTimeStamp2 bool, hasUID2 bool, rest []parser.Phrase, ok bool) bool {
	return !ok || len(rest) <= len(lines)
}

//verif:decsec Todo.decode
func vDecTodo(s Todo, lines []parser.Phrase) (Todo, []parser.Phrase, bool) {
	s, hasDateTimeStamp, hasUID, rest, ok := vLinesTodo(s, false, false, lines)
	if !ok || !hasDateTimeStamp || !hasUID {
		return s, rest, false
	}

	if s.Duration != nil && s.DateTimeStart == nil {
		return s, rest, false
	}

	if s.Due != nil && s.Duration != nil {
		return s, rest, false
	}

	return s, rest, true
}

func vDecTodo_ensures(s Todo, lines []parser.Phrase, s2 Todo, rest []parser.Phrase, ok bool) bool {
	return !ok || len(rest) <= len(lines)
}

//verif:enc Todo.encode
func vEncTodo(s Todo) string {
	o := "BEGIN:VTODO\r\n"

	o += vEncPropDateTimeStamp(s.DateTimeStamp)

	o += vEncPropUID(s.UID)

	if s.Class != nil {
		o += vEncPropClass(*s.Class)
	}

	if s.Completed != nil {
		o += vEncPropCompleted(*s.Completed)
	}

	if s.Created != nil {
		o += vEncPropCreated(*s.Created)
	}

	if s.Description != nil {
		o += vEncPropDescription(*s.Description)
	}

	if s.DateTimeStart != nil {
		o += vEncPropDateTimeStart(*s.DateTimeStart)
	}

	if s.Geo != nil {
		o += vEncPropGeo(*s.Geo)
	}

	if s.LastModified != nil {
		o += vEncPropLastModified(*s.LastModified)
	}

	if s.Location != nil {
		o += vEncPropLocation(*s.Location)
	}

	if s.Organizer != nil {
		o += vEncPropOrganizer(*s.Organizer)
	}

	if s.PercentComplete != nil {
		o += vEncPropPercentComplete(*s.PercentComplete)
	}

	if s.Priority != nil {
		o += vEncPropPriority(*s.Priority)
	}

	if s.RecurrenceID != nil {
		o += vEncPropRecurrenceID(*s.RecurrenceID)
	}

	if s.Sequence != nil {
		o += vEncPropSequence(*s.Sequence)
	}

	if s.Status != nil {
		o += vEncPropStatus(*s.Status)
	}

	if s.Summary != nil {
		o += vEncPropSummary(*s.Summary)
	}

	if s.URL != nil {
		o += vEncPropURL(*s.URL)
	}

	if s.Due != nil {
		o += vEncPropDue(*s.Due)
	}

	if s.Duration != nil {
		o += vEncPropDuration(*s.Duration)
	}

	o += vEncPropAttachmentList(s.Attachment)

	o += vEncPropAttendeeList(s.Attendee)

	o += vEncPropCategoriesList(s.Categories)

	o += vEncPropCommentList(s.Comment)

	o += vEncPropContactList(s.Contact)

	o += vEncPropExceptionDateTimeList(s.ExceptionDateTime)

	o += vEncPropRequestStatusList(s.RequestStatus)

	o += vEncPropRelatedToList(s.RelatedTo)

	o += vEncPropResourcesList(s.Resources)

	o += vEncPropRecurrenceDateTimesList(s.RecurrenceDateTimes)

	o += vEncAlarmList(s.Alarm)

	return o + "END:VTODO\r\n"
}

// what is not valid is not written.
func vEncTodo_requires(s Todo) bool { return vValTodo(s) }

//verif:chk Todo.valid
func vValTodo(s Todo) bool {
	if !vValPropDateTimeStamp(s.DateTimeStamp) {
		return false
	}

	if !vValPropUID(s.UID) {
		return false
	}

	if s.Class != nil && !vValPropClass(*s.Class) {
		return false
	}

	if s.Completed != nil && !vValPropCompleted(*s.Completed) {
		return false
	}

	if s.Created != nil && !vValPropCreated(*s.Created) {
		return false
	}

	if s.Description != nil && !vValPropDescription(*s.Description) {
		return false
	}

	if s.DateTimeStart != nil && !vValPropDateTimeStart(*s.DateTimeStart) {
		return false
	}

	if s.Geo != nil && !vValPropGeo(*s.Geo) {
		return false
	}

	if s.LastModified != nil && !vValPropLastModified(*s.LastModified) {
		return false
	}

	if s.Location != nil && !vValPropLocation(*s.Location) {
		return false
	}

	if s.Organizer != nil && !vValPropOrganizer(*s.Organizer) {
		return false
	}

	if s.PercentComplete != nil && !vValPropPercentComplete(*s.PercentComplete) {
		return false
	}

	if s.Priority != nil && !vValPropPriority(*s.Priority) {
		return false
	}

	if s.RecurrenceID != nil && !vValPropRecurrenceID(*s.RecurrenceID) {
		return false
	}

	if s.Sequence != nil && !vValPropSequence(*s.Sequence) {
		return false
	}

	if s.Status != nil && !vValPropStatus(*s.Status) {
		return false
	}

	if s.Summary != nil && !vValPropSummary(*s.Summary) {
		return false
	}

	if s.URL != nil && !vValPropURL(*s.URL) {
		return false
	}

	if s.Due != nil && !vValPropDue(*s.Due) {
		return false
	}

	if s.Duration != nil && !vValPropDuration(*s.Duration) {
		return false
	}

	if !vValPropAttachmentList(s.Attachment) {
		return false
	}

	if !vValPropAttendeeList(s.Attendee) {
		return false
	}

	if !vValPropCategoriesList(s.Categories) {
		return false
	}

	if !vValPropCommentList(s.Comment) {
		return false
	}

	if !vValPropContactList(s.Contact) {
		return false
	}

	if !vValPropExceptionDateTimeList(s.ExceptionDateTime) {
		return false
	}

	if !vValPropRequestStatusList(s.RequestStatus) {
		return false
	}

	if !vValPropRelatedToList(s.RelatedTo) {
		return false
	}

	if !vValPropResourcesList(s.Resources) {
		return false
	}

	if !vValPropRecurrenceDateTimesList(s.RecurrenceDateTimes) {
		return false
	}

	if !vValAlarmList(s.Alarm) {
		return false
	}

	if s.Duration != nil && s.DateTimeStart == nil {
		return false
	}

	if s.Due != nil && s.Duration != nil {
		return false
	}

	return true
}

// ---- VEVENT

func vLinesEvent(s Event, hasDateTimeStamp bool, hasUID bool, lines []parser.Phrase) (Event, bool, bool, []parser.Phrase, bool) {
	if len(lines) == 0 || len(lines[0].Data) < 2 {
		return s, hasDateTimeStamp, hasUID, lines, false
	}

	p, rest := lines[0].Data, lines[1:]
	value := p[len(p)-1].Data
	params := p[1 : len(p)-1]

	switch strings.ToUpper(p[0].Data) {
	case "BEGIN":
		switch n := strings.ToUpper(value); n {
		case "VALARM":
			e, r, ok := vDecAlarm(Alarm{}, rest)
			if !ok {
				return s, hasDateTimeStamp, hasUID, lines, false
			}

			s.Alarm = append(s.Alarm, e)
			rest = r
		default:
			ok, r := vSkip(rest, n)
			if !ok {
				return s, hasDateTimeStamp, hasUID, lines, false
			}

			rest = r
		}
	case "DTSTAMP":
		if hasDateTimeStamp {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropDateTimeStamp(s.DateTimeStamp, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		hasDateTimeStamp, s.DateTimeStamp = true, x
	case "UID":
		if hasUID {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropUID(s.UID, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		hasUID, s.UID = true, x
	case "DTSTART":
		if s.DateTimeStart != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropDateTimeStart(PropDateTimeStart{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.DateTimeStart = &x
	case "CLASS":
		if s.Class != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropClass(PropClass(0), params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Class = &x
	case "CREATED":
		if s.Created != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropCreated(PropCreated{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Created = &x
	case "DESCRIPTION":
		if s.Description != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropDescription(PropDescription{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Description = &x
	case "GEO":
		if s.Geo != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropGeo(PropGeo{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Geo = &x
	case "LAST-MODIFIED":
		if s.LastModified != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropLastModified(PropLastModified{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.LastModified = &x
	case "LOCATION":
		if s.Location != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropLocation(PropLocation{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Location = &x
	case "ORGANIZER":
		if s.Organizer != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropOrganizer(PropOrganizer{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Organizer = &x
	case "PRIORITY":
		if s.Priority != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropPriority(PropPriority(0), params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Priority = &x
	case "SEQUENCE":
		if s.Sequence != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropSequence(PropSequence(0), params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Sequence = &x
	case "STATUS":
		if s.Status != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropStatus(PropStatus(0), params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Status = &x
	case "SUMMARY":
		if s.Summary != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropSummary(PropSummary{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Summary = &x
	case "TRANSP":
		if s.TimeTransparency != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropTimeTransparency(PropTimeTransparency(0), params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.TimeTransparency = &x
	case "URL":
		if s.URL != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropURL(PropURL{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.URL = &x
	case "RECURRENCE-ID":
		if s.RecurrenceID != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropRecurrenceID(PropRecurrenceID{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.RecurrenceID = &x
	case "RRULE":
		if s.RecurrenceRule != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropRecurrenceRule(PropRecurrenceRule{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.RecurrenceRule = &x
	case "DTEND":
		if s.DateTimeEnd != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropDateTimeEnd(PropDateTimeEnd{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.DateTimeEnd = &x
	case "DURATION":
		if s.Duration != nil {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		x, ok := vDecPropDuration(PropDuration{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Duration = &x
	case "ATTACH":
		x, ok := vDecPropAttachment(PropAttachment{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Attachment = append(s.Attachment, x)
	case "ATTENDEE":
		x, ok := vDecPropAttendee(PropAttendee{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Attendee = append(s.Attendee, x)
	case "CATEGORIES":
		x, ok := vDecPropCategories(PropCategories{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Categories = append(s.Categories, x)
	case "COMMENT":
		x, ok := vDecPropComment(PropComment{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Comment = append(s.Comment, x)
	case "CONTACT":
		x, ok := vDecPropContact(PropContact{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Contact = append(s.Contact, x)
	case "EXDATE":
		x, ok := vDecPropExceptionDateTime(PropExceptionDateTime{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.ExceptionDateTime = append(s.ExceptionDateTime, x)
	case "REQUEST-STATUS":
		x, ok := vDecPropRequestStatus(PropRequestStatus(""), params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.RequestStatus = append(s.RequestStatus, x)
	case "RELATED-TO":
		x, ok := vDecPropRelatedTo(PropRelatedTo{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.RelatedTo = append(s.RelatedTo, x)
	case "RESOURCES":
		x, ok := vDecPropResources(PropResources{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.Resources = append(s.Resources, x)
	case "RDATE":
		x, ok := vDecPropRecurrenceDateTimes(PropRecurrenceDateTimes{}, params, value)
		if !ok {
			return s, hasDateTimeStamp, hasUID, lines, false
		}

		s.RecurrenceDateTimes = append(s.RecurrenceDateTimes, x)
	case "END":
		return s, hasDateTimeStamp, hasUID, rest, strings.ToUpper(value) == "VEVENT"
	}

	return vLinesEvent(s, hasDateTimeStamp, hasUID, rest)
}

func vLinesEvent_ensures(s Event, hasDateTimeStamp bool, hasUID bool, lines []parser.Phrase, s2 Event, hasDateTimeStamp2 bool, hasUID2 bool, rest []parser.Phrase, ok bool) bool {
	return !ok || len(rest) <= len(lines)
}

//verif:decsec Event.decode
func vDecEvent(s Event, lines []parser.Phrase) (Event, []parser.Phrase, bool) {
	s, hasDateTimeStamp, hasUID, rest, ok := vLinesEvent(s, false, false, lines)
	if !ok || !hasDateTimeStamp || !hasUID {
		return s, rest, false
	}

	if s.DateTimeEnd != nil && s.Duration != nil {
		return s, rest, false
	}

	return s, rest, true
}

func vDecEvent_ensures(s Event, lines []parser.Phrase, s2 Event, rest []parser.Phrase, ok bool) bool {
	return !ok || len(rest) <= len(lines)
}

//verif:enc Event.encode
func vEncEvent(s Event) string {
	o := "BEGIN:VEVENT\r\n"

	o += vEncPropDateTimeStamp(s.DateTimeStamp)

	o += vEncPropUID(s.UID)

	if s.DateTimeStart != nil {
		o += vEncPropDateTimeStart(*s.DateTimeStart)
	}

	if s.Class != nil {
		o += vEncPropClass(*s.Class)
	}

	if s.Created != nil {
		o += vEncPropCreated(*s.Created)
	}

	if s.Description != nil {
		o += vEncPropDescription(*s.Description)
	}

	if s.Geo != nil {
		o += vEncPropGeo(*s.Geo)
	}

	if s.LastModified != nil {
		o += vEncPropLastModified(*s.LastModified)
	}

	if s.Location != nil {
		o += vEncPropLocation(*s.Location)
	}

	if s.Organizer != nil {
		o += vEncPropOrganizer(*s.Organizer)
	}

	if s.Priority != nil {
		o += vEncPropPriority(*s.Priority)
	}

	if s.Sequence != nil {
		o += vEncPropSequence(*s.Sequence)
	}

	if s.Status != nil {
		o += vEncPropStatus(*s.Status)
	}

	if s.Summary != nil {
		o += vEncPropSummary(*s.Summary)
	}

	if s.TimeTransparency != nil {
		o += vEncPropTimeTransparency(*s.TimeTransparency)
	}

	if s.URL != nil {
		o += vEncPropURL(*s.URL)
	}

	if s.RecurrenceID != nil {
		o += vEncPropRecurrenceID(*s.RecurrenceID)
	}

	if s.RecurrenceRule != nil {
		o += vEncPropRecurrenceRule(*s.RecurrenceRule)
	}

	if s.DateTimeEnd != nil {
		o += vEncPropDateTimeEnd(*s.DateTimeEnd)
	}

	if s.Duration != nil {
		o += vEncPropDuration(*s.Duration)
	}

	o += vEncPropAttachmentList(s.Attachment)

	o += vEncPropAttendeeList(s.Attendee)

	o += vEncPropCategoriesList(s.Categories)

	o += vEncPropCommentList(s.Comment)

	o += vEncPropContactList(s.Contact)

	o += vEncPropExceptionDateTimeList(s.ExceptionDateTime)

	o += vEncPropRequestStatusList(s.RequestStatus)

	o += vEncPropRelatedToList(s.RelatedTo)

	o += vEncPropResourcesList(s.Resources)

	o += vEncPropRecurrenceDateTimesList(s.RecurrenceDateTimes)

	o += vEncAlarmList(s.Alarm)

	return o + "END:VEVENT\r\n"
}

// what is not valid is not written.
func vEncEvent_requires(s Event) bool { return vValEvent(s) }

//verif:chk Event.valid
func vValEvent(s Event) bool {
	if !vValPropDateTimeStamp(s.DateTimeStamp) {
		return false
	}

	if !vValPropUID(s.UID) {
		return false
	}

	if s.DateTimeStart != nil && !vValPropDateTimeStart(*s.DateTimeStart) {
		return false
	}

	if s.Class != nil && !vValPropClass(*s.Class) {
		return false
	}

	if s.Created != nil && !vValPropCreated(*s.Created) {
		return false
	}

	if s.Description != nil && !vValPropDescription(*s.Description) {
		return false
	}

	if s.Geo != nil && !vValPropGeo(*s.Geo) {
		return false
	}

	if s.LastModified != nil && !vValPropLastModified(*s.LastModified) {
		return false
	}

	if s.Location != nil && !vValPropLocation(*s.Location) {
		return false
	}

	if s.Organizer != nil && !vValPropOrganizer(*s.Organizer) {
		return false
	}

	if s.Priority != nil && !vValPropPriority(*s.Priority) {
		return false
	}

	if s.Sequence != nil && !vValPropSequence(*s.Sequence) {
		return false
	}

	if s.Status != nil && !vValPropStatus(*s.Status) {
		return false
	}

	if s.Summary != nil && !vValPropSummary(*s.Summary) {
		return false
	}

	if s.TimeTransparency != nil && !vValPropTimeTransparency(*s.TimeTransparency) {
		return false
	}

	if s.URL != nil && !vValPropURL(*s.URL) {
		return false
	}

	if s.RecurrenceID != nil && !vValPropRecurrenceID(*s.RecurrenceID) {
		return false
	}

	if s.RecurrenceRule != nil && !vValPropRecurrenceRule(*s.RecurrenceRule) {
		return false
	}

	if s.DateTimeEnd != nil && !vValPropDateTimeEnd(*s.DateTimeEnd) {
		return false
	}

	if s.Duration != nil && !vValPropDuration(*s.Duration) {
		return false
	}

	if !vValPropAttachmentList(s.Attachment) {
		return false
	}

	if !vValPropAttendeeList(s.Attendee) {
		return false
	}

	if !vValPropCategoriesList(s.Categories) {
		return false
	}

	if !vValPropCommentList(s.Comment) {
		return false
	}

	if !vValPropContactList(s.Contact) {
		return false
	}

	if !vValPropExceptionDateTimeList(s.ExceptionDateTime) {
		return false
	}

	if !vValPropRequestStatusList(s.RequestStatus) {
		return false
	}

	if !vValPropRelatedToList(s.RelatedTo) {
		return false
	}

	if !vValPropResourcesList(s.Resources) {
		return false
	}

	if !vValPropRecurrenceDateTimesList(s.RecurrenceDateTimes) {
		return false
	}

	if !vValAlarmList(s.Alarm) {
		return false
	}

	if s.DateTimeEnd != nil && s.Duration != nil {
		return false
	}

	return true
}

// ---- VCALENDAR

func vLinesCalendar(s Calendar, hasVersion bool, hasProductID bool, lines []parser.Phrase) (Calendar, bool, bool, []parser.Phrase, bool) {
	if len(lines) == 0 || len(lines[0].Data) < 2 {
		return s, hasVersion, hasProductID, lines, false
	}

	p, rest := lines[0].Data, lines[1:]
	value := p[len(p)-1].Data
	params := p[1 : len(p)-1]

	switch strings.ToUpper(p[0].Data) {
	case "BEGIN":
		switch n := strings.ToUpper(value); n {
		case "VEVENT":
			e, r, ok := vDecEvent(Event{}, rest)
			if !ok {
				return s, hasVersion, hasProductID, lines, false
			}

			s.Event = append(s.Event, e)
			rest = r
		case "VTODO":
			e, r, ok := vDecTodo(Todo{}, rest)
			if !ok {
				return s, hasVersion, hasProductID, lines, false
			}

			s.Todo = append(s.Todo, e)
			rest = r
		case "VJOURNAL":
			e, r, ok := vDecJournal(Journal{}, rest)
			if !ok {
				return s, hasVersion, hasProductID, lines, false
			}

			s.Journal = append(s.Journal, e)
			rest = r
		case "VFREEBUSY":
			e, r, ok := vDecFreeBusy(FreeBusy{}, rest)
			if !ok {
				return s, hasVersion, hasProductID, lines, false
			}

			s.FreeBusy = append(s.FreeBusy, e)
			rest = r
		case "VTIMEZONE":
			e, r, ok := vDecTimezone(Timezone{}, rest)
			if !ok {
				return s, hasVersion, hasProductID, lines, false
			}

			s.Timezone = append(s.Timezone, e)
			rest = r
		default:
			ok, r := vSkip(rest, n)
			if !ok {
				return s, hasVersion, hasProductID, lines, false
			}

			rest = r
		}
	case "VERSION":
		if hasVersion {
			return s, hasVersion, hasProductID, lines, false
		}

		x, ok := vDecPropVersion(s.Version, params, value)
		if !ok {
			return s, hasVersion, hasProductID, lines, false
		}

		hasVersion, s.Version = true, x
	case "PRODID":
		if hasProductID {
			return s, hasVersion, hasProductID, lines, false
		}

		x, ok := vDecPropProductID(s.ProductID, params, value)
		if !ok {
			return s, hasVersion, hasProductID, lines, false
		}

		hasProductID, s.ProductID = true, x
	case "END":
		return s, hasVersion, hasProductID, rest, strings.ToUpper(value) == "VCALENDAR"
	}

	return vLinesCalendar(s, hasVersion, hasProductID, rest)
}

func vLinesCalendar_ensures(s Calendar, hasVersion bool, hasProductID bool, lines []parser.Phrase, s2 Calendar, hasVersion2 bool, hasProductID2 bool, rest []parser.Phrase, ok bool) bool {
	return !ok || len(rest) <= len(lines)
}

//verif:decsec Calendar.decode
func vDecCalendar(s Calendar, lines []parser.Phrase) (Calendar, []parser.Phrase, bool) {
	s, hasVersion, hasProductID, rest, ok := vLinesCalendar(s, false, false, lines)
	if !ok || !hasVersion || !hasProductID {
		return s, rest, false
	}

	return s, rest, true
}

func vDecCalendar_ensures(s Calendar, lines []parser.Phrase, s2 Calendar, rest []parser.Phrase, ok bool) bool {
	return !ok || len(rest) <= len(lines)
}

//verif:enc Calendar.encode
func vEncCalendar(s Calendar) string {
	o := "BEGIN:VCALENDAR\r\n"

	o += vEncPropVersion(s.Version)

	o += vEncPropProductID(s.ProductID)

	o += vEncEventList(s.Event)

	o += vEncTodoList(s.Todo)

	o += vEncJournalList(s.Journal)

	o += vEncFreeBusyList(s.FreeBusy)

	o += vEncTimezoneList(s.Timezone)

	return o + "END:VCALENDAR\r\n"
}

// what is not valid is not written.
func vEncCalendar_requires(s Calendar) bool { return vValCalendar(s) }

//verif:chk Calendar.valid
func vValCalendar(s Calendar) bool {
	if !vValPropVersion(s.Version) {
		return false
	}

	if !vValPropProductID(s.ProductID) {
		return false
	}

	if !vValEventList(s.Event) {
		return false
	}

	if !vValTodoList(s.Todo) {
		return false
	}

	if !vValJournalList(s.Journal) {
		return false
	}

	if !vValFreeBusyList(s.FreeBusy) {
		return false
	}

	if !vValTimezoneList(s.Timezone) {
		return false
	}

	return true
}

// ---- lists

func vEncPropAttachmentList(l []PropAttachment) string {
	if len(l) == 0 {
		return ""
	}

	return vEncPropAttachment(l[0]) + vEncPropAttachmentList(l[1:])
}

//verif:forall vValPropAttachment
func vValPropAttachmentList(l []PropAttachment) bool {
	return len(l) == 0 || vValPropAttachment(l[0]) && vValPropAttachmentList(l[1:])
}

func vEncPropAlarmAgentList(l []PropAlarmAgent) string {
	if len(l) == 0 {
		return ""
	}

	return vEncPropAlarmAgent(l[0]) + vEncPropAlarmAgentList(l[1:])
}

//verif:forall vValPropAlarmAgent
func vValPropAlarmAgentList(l []PropAlarmAgent) bool {
	return len(l) == 0 || vValPropAlarmAgent(l[0]) && vValPropAlarmAgentList(l[1:])
}

func vEncPropLastTriggeredList(l []PropLastTriggered) string {
	if len(l) == 0 {
		return ""
	}

	return vEncPropLastTriggered(l[0]) + vEncPropLastTriggeredList(l[1:])
}

//verif:forall vValPropLastTriggered
func vValPropLastTriggeredList(l []PropLastTriggered) bool {
	return len(l) == 0 || vValPropLastTriggered(l[0]) && vValPropLastTriggeredList(l[1:])
}

func vEncPropGeoLocationList(l []PropGeoLocation) string {
	if len(l) == 0 {
		return ""
	}

	return vEncPropGeoLocation(l[0]) + vEncPropGeoLocationList(l[1:])
}

//verif:forall vValPropGeoLocation
func vValPropGeoLocationList(l []PropGeoLocation) bool {
	return len(l) == 0 || vValPropGeoLocation(l[0]) && vValPropGeoLocationList(l[1:])
}

func vEncPropCommentList(l []PropComment) string {
	if len(l) == 0 {
		return ""
	}

	return vEncPropComment(l[0]) + vEncPropCommentList(l[1:])
}

//verif:forall vValPropComment
func vValPropCommentList(l []PropComment) bool {
	return len(l) == 0 || vValPropComment(l[0]) && vValPropCommentList(l[1:])
}

func vEncPropRecurrenceDateTimesList(l []PropRecurrenceDateTimes) string {
	if len(l) == 0 {
		return ""
	}

	return vEncPropRecurrenceDateTimes(l[0]) + vEncPropRecurrenceDateTimesList(l[1:])
}

//verif:forall vValPropRecurrenceDateTimes
func vValPropRecurrenceDateTimesList(l []PropRecurrenceDateTimes) bool {
	return len(l) == 0 || vValPropRecurrenceDateTimes(l[0]) && vValPropRecurrenceDateTimesList(l[1:])
}

func vEncPropTimezoneNameList(l []PropTimezoneName) string {
	if len(l) == 0 {
		return ""
	}

	return vEncPropTimezoneName(l[0]) + vEncPropTimezoneNameList(l[1:])
}

//verif:forall vValPropTimezoneName
func vValPropTimezoneNameList(l []PropTimezoneName) bool {
	return len(l) == 0 || vValPropTimezoneName(l[0]) && vValPropTimezoneNameList(l[1:])
}

func vEncStandardList(l []Standard) string {
	if len(l) == 0 {
		return ""
	}

	return vEncStandard(l[0]) + vEncStandardList(l[1:])
}

//verif:forall vValStandard
func vValStandardList(l []Standard) bool {
	return len(l) == 0 || vValStandard(l[0]) && vValStandardList(l[1:])
}

func vEncDaylightList(l []Daylight) string {
	if len(l) == 0 {
		return ""
	}

	return vEncDaylight(l[0]) + vEncDaylightList(l[1:])
}

//verif:forall vValDaylight
func vValDaylightList(l []Daylight) bool {
	return len(l) == 0 || vValDaylight(l[0]) && vValDaylightList(l[1:])
}

func vEncPropAttendeeList(l []PropAttendee) string {
	if len(l) == 0 {
		return ""
	}

	return vEncPropAttendee(l[0]) + vEncPropAttendeeList(l[1:])
}

//verif:forall vValPropAttendee
func vValPropAttendeeList(l []PropAttendee) bool {
	return len(l) == 0 || vValPropAttendee(l[0]) && vValPropAttendeeList(l[1:])
}

func vEncPropFreeBusyList(l []PropFreeBusy) string {
	if len(l) == 0 {
		return ""
	}

	return vEncPropFreeBusy(l[0]) + vEncPropFreeBusyList(l[1:])
}

//verif:forall vValPropFreeBusy
func vValPropFreeBusyList(l []PropFreeBusy) bool {
	return len(l) == 0 || vValPropFreeBusy(l[0]) && vValPropFreeBusyList(l[1:])
}

func vEncPropRequestStatusList(l []PropRequestStatus) string {
	if len(l) == 0 {
		return ""
	}

	return vEncPropRequestStatus(l[0]) + vEncPropRequestStatusList(l[1:])
}

//verif:forall vValPropRequestStatus
func vValPropRequestStatusList(l []PropRequestStatus) bool {
	return len(l) == 0 || vValPropRequestStatus(l[0]) && vValPropRequestStatusList(l[1:])
}

func vEncPropCategoriesList(l []PropCategories) string {
	if len(l) == 0 {
		return ""
	}

	return vEncPropCategories(l[0]) + vEncPropCategoriesList(l[1:])
}

//verif:forall vValPropCategories
func vValPropCategoriesList(l []PropCategories) bool {
	return len(l) == 0 || vValPropCategories(l[0]) && vValPropCategoriesList(l[1:])
}

func vEncPropContactList(l []PropContact) string {
	if len(l) == 0 {
		return ""
	}

	return vEncPropContact(l[0]) + vEncPropContactList(l[1:])
}

//verif:forall vValPropContact
func vValPropContactList(l []PropContact) bool {
	return len(l) == 0 || vValPropContact(l[0]) && vValPropContactList(l[1:])
}

func vEncPropDescriptionList(l []PropDescription) string {
	if len(l) == 0 {
		return ""
	}

	return vEncPropDescription(l[0]) + vEncPropDescriptionList(l[1:])
}

//verif:forall vValPropDescription
func vValPropDescriptionList(l []PropDescription) bool {
	return len(l) == 0 || vValPropDescription(l[0]) && vValPropDescriptionList(l[1:])
}

func vEncPropExceptionDateTimeList(l []PropExceptionDateTime) string {
	if len(l) == 0 {
		return ""
	}

	return vEncPropExceptionDateTime(l[0]) + vEncPropExceptionDateTimeList(l[1:])
}

//verif:forall vValPropExceptionDateTime
func vValPropExceptionDateTimeList(l []PropExceptionDateTime) bool {
	return len(l) == 0 || vValPropExceptionDateTime(l[0]) && vValPropExceptionDateTimeList(l[1:])
}

func vEncPropRelatedToList(l []PropRelatedTo) string {
	if len(l) == 0 {
		return ""
	}

	return vEncPropRelatedTo(l[0]) + vEncPropRelatedToList(l[1:])
}

//verif:forall vValPropRelatedTo
func vValPropRelatedToList(l []PropRelatedTo) bool {
	return len(l) == 0 || vValPropRelatedTo(l[0]) && vValPropRelatedToList(l[1:])
}

func vEncPropResourcesList(l []PropResources) string {
	if len(l) == 0 {
		return ""
	}

	return vEncPropResources(l[0]) + vEncPropResourcesList(l[1:])
}

//verif:forall vValPropResources
func vValPropResourcesList(l []PropResources) bool {
	return len(l) == 0 || vValPropResources(l[0]) && vValPropResourcesList(l[1:])
}

func vEncAlarmList(l []Alarm) string {
	if len(l) == 0 {
		return ""
	}

	return vEncAlarm(l[0]) + vEncAlarmList(l[1:])
}

//verif:forall vValAlarm
func vValAlarmList(l []Alarm) bool { return len(l) == 0 || vValAlarm(l[0]) && vValAlarmList(l[1:]) }

func vEncEventList(l []Event) string {
	if len(l) == 0 {
		return ""
	}

	return vEncEvent(l[0]) + vEncEventList(l[1:])
}

//verif:forall vValEvent
func vValEventList(l []Event) bool { return len(l) == 0 || vValEvent(l[0]) && vValEventList(l[1:]) }

func vEncTodoList(l []Todo) string {
	if len(l) == 0 {
		return ""
	}

	return vEncTodo(l[0]) + vEncTodoList(l[1:])
}

//verif:forall vValTodo
func vValTodoList(l []Todo) bool { return len(l) == 0 || vValTodo(l[0]) && vValTodoList(l[1:]) }

func vEncJournalList(l []Journal) string {
	if len(l) == 0 {
		return ""
	}

	return vEncJournal(l[0]) + vEncJournalList(l[1:])
}

//verif:forall vValJournal
func vValJournalList(l []Journal) bool {
	return len(l) == 0 || vValJournal(l[0]) && vValJournalList(l[1:])
}

func vEncFreeBusyList(l []FreeBusy) string {
	if len(l) == 0 {
		return ""
	}

	return vEncFreeBusy(l[0]) + vEncFreeBusyList(l[1:])
}

//verif:forall vValFreeBusy
func vValFreeBusyList(l []FreeBusy) bool {
	return len(l) == 0 || vValFreeBusy(l[0]) && vValFreeBusyList(l[1:])
}

func vEncTimezoneList(l []Timezone) string {
	if len(l) == 0 {
		return ""
	}

	return vEncTimezone(l[0]) + vEncTimezoneList(l[1:])
}

//verif:forall vValTimezone
func vValTimezoneList(l []Timezone) bool {
	return len(l) == 0 || vValTimezone(l[0]) && vValTimezoneList(l[1:])
}

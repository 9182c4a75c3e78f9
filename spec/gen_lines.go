package ics

// Code generated by tools/genspec.py. DO NOT EDIT.

func vEncPAlternativeRepresentation_line(t ParamAlternativeRepresentation, many bool, q int, r string) bool {
	if !vValPAlternativeRepresentation(t) || q < vInName {
		return true
	}

	return vRun(many, q, r) >= vInName
}

func vEncPCommonName_line(t ParamCommonName, many bool, q int, r string) bool {
	if !vValPCommonName(t) || q < vInName {
		return true
	}

	return vRun(many, q, r) >= vInName
}

func vEncPCalendarUserType_line(t ParamCalendarUserType, many bool, q int, r string) bool {
	if !vValPCalendarUserType(t) || q < vInName {
		return true
	}

	return vRun(many, q, r) >= vInName
}

func vEncPDelegator_line(t ParamDelegator, many bool, q int, r string) bool {
	if !vValPDelegator(t) || q < vInName {
		return true
	}

	return vRun(many, q, r) >= vInName
}

func vEncPDelagatee_line(t ParamDelagatee, many bool, q int, r string) bool {
	if !vValPDelagatee(t) || q < vInName {
		return true
	}

	return vRun(many, q, r) >= vInName
}

func vEncPDirectoryEntry_line(t ParamDirectoryEntry, many bool, q int, r string) bool {
	if !vValPDirectoryEntry(t) || q < vInName {
		return true
	}

	return vRun(many, q, r) >= vInName
}

func vEncPEncoding_line(t ParamEncoding, many bool, q int, r string) bool {
	if !vValPEncoding(t) || q < vInName {
		return true
	}

	return vRun(many, q, r) >= vInName
}

func vEncPFormatType_line(t ParamFormatType, many bool, q int, r string) bool {
	if !vValPFormatType(t) || q < vInName {
		return true
	}

	return vRun(many, q, r) >= vInName
}

func vEncPFreeBusyType_line(t ParamFreeBusyType, many bool, q int, r string) bool {
	if !vValPFreeBusyType(t) || q < vInName {
		return true
	}

	return vRun(many, q, r) >= vInName
}

func vEncPLanguage_line(t ParamLanguage, many bool, q int, r string) bool {
	if !vValPLanguage(t) || q < vInName {
		return true
	}

	return vRun(many, q, r) >= vInName
}

func vEncPMember_line(t ParamMember, many bool, q int, r string) bool {
	if !vValPMember(t) || q < vInName {
		return true
	}

	return vRun(many, q, r) >= vInName
}

func vEncPParticipationStatus_line(t ParamParticipationStatus, many bool, q int, r string) bool {
	if !vValPParticipationStatus(t) || q < vInName {
		return true
	}

	return vRun(many, q, r) >= vInName
}

func vEncPRange_line(t ParamRange, many bool, q int, r string) bool {
	if !vValPRange(t) || q < vInName {
		return true
	}

	return vRun(many, q, r) >= vInName
}

func vEncPRelated_line(t ParamRelated, many bool, q int, r string) bool {
	if !vValPRelated(t) || q < vInName {
		return true
	}

	return vRun(many, q, r) >= vInName
}

func vEncPRelationshipType_line(t ParamRelationshipType, many bool, q int, r string) bool {
	if !vValPRelationshipType(t) || q < vInName {
		return true
	}

	return vRun(many, q, r) >= vInName
}

func vEncPParticipationRole_line(t ParamParticipationRole, many bool, q int, r string) bool {
	if !vValPParticipationRole(t) || q < vInName {
		return true
	}

	return vRun(many, q, r) >= vInName
}

func vEncPRSVP_line(t ParamRSVP, many bool, q int, r string) bool {
	if !vValPRSVP(t) || q < vInName {
		return true
	}

	return vRun(many, q, r) >= vInName
}

func vEncPSentBy_line(t ParamSentBy, many bool, q int, r string) bool {
	if !vValPSentBy(t) || q < vInName {
		return true
	}

	return vRun(many, q, r) >= vInName
}

func vEncPTimezoneID_line(t ParamTimezoneID, many bool, q int, r string) bool {
	if !vValPTimezoneID(t) || q < vInName {
		return true
	}

	return vRun(many, q, r) >= vInName
}

func vEncPValue_line(t ParamValue, many bool, q int, r string) bool {
	if !vValPValue(t) || q < vInName {
		return true
	}

	return vRun(many, q, r) >= vInName
}

func vEncPURI_line(t ParamURI, many bool, q int, r string) bool {
	if !vValPURI(t) || q < vInName {
		return true
	}

	return vRun(many, q, r) >= vInName
}

func vEncPID_line(t ParamID, many bool, q int, r string) bool {
	if !vValPID(t) || q < vInName {
		return true
	}

	return vRun(many, q, r) >= vInName
}

func vEncPAgentID_line(t ParamAgentID, many bool, q int, r string) bool {
	if !vValPAgentID(t) || q < vInName {
		return true
	}

	return vRun(many, q, r) >= vInName
}

func vEncPropAction_line(p PropAction, many bool, q int, r string) bool {
	if !vValPropAction(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropAttachment_line(p PropAttachment, many bool, q int, r string) bool {
	if !vValPropAttachment(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropAttendee_line(p PropAttendee, many bool, q int, r string) bool {
	if !vValPropAttendee(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropCalendarScale_line(p PropCalendarScale, many bool, q int, r string) bool {
	if !vValPropCalendarScale(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropCategories_line(p PropCategories, many bool, q int, r string) bool {
	if !vValPropCategories(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropClass_line(p PropClass, many bool, q int, r string) bool {
	if !vValPropClass(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropComment_line(p PropComment, many bool, q int, r string) bool {
	if !vValPropComment(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropCompleted_line(p PropCompleted, many bool, q int, r string) bool {
	if !vValPropCompleted(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropContact_line(p PropContact, many bool, q int, r string) bool {
	if !vValPropContact(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropCreated_line(p PropCreated, many bool, q int, r string) bool {
	if !vValPropCreated(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropDescription_line(p PropDescription, many bool, q int, r string) bool {
	if !vValPropDescription(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropDateTimeEnd_line(p PropDateTimeEnd, many bool, q int, r string) bool {
	if !vValPropDateTimeEnd(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropDateTimeStamp_line(p PropDateTimeStamp, many bool, q int, r string) bool {
	if !vValPropDateTimeStamp(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropDateTimeStart_line(p PropDateTimeStart, many bool, q int, r string) bool {
	if !vValPropDateTimeStart(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropDue_line(p PropDue, many bool, q int, r string) bool {
	if !vValPropDue(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropDuration_line(p PropDuration, many bool, q int, r string) bool {
	if !vValPropDuration(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropExceptionDateTime_line(p PropExceptionDateTime, many bool, q int, r string) bool {
	if !vValPropExceptionDateTime(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropFreeBusy_line(p PropFreeBusy, many bool, q int, r string) bool {
	if !vValPropFreeBusy(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropGeo_line(p PropGeo, many bool, q int, r string) bool {
	if !vValPropGeo(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropLastModified_line(p PropLastModified, many bool, q int, r string) bool {
	if !vValPropLastModified(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropLocation_line(p PropLocation, many bool, q int, r string) bool {
	if !vValPropLocation(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropMethod_line(p PropMethod, many bool, q int, r string) bool {
	if !vValPropMethod(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropOrganizer_line(p PropOrganizer, many bool, q int, r string) bool {
	if !vValPropOrganizer(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropPercentComplete_line(p PropPercentComplete, many bool, q int, r string) bool {
	if !vValPropPercentComplete(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropPriority_line(p PropPriority, many bool, q int, r string) bool {
	if !vValPropPriority(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropProductID_line(p PropProductID, many bool, q int, r string) bool {
	if !vValPropProductID(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropRecurrenceDateTimes_line(p PropRecurrenceDateTimes, many bool, q int, r string) bool {
	if !vValPropRecurrenceDateTimes(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropRecurrenceID_line(p PropRecurrenceID, many bool, q int, r string) bool {
	if !vValPropRecurrenceID(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropRelatedTo_line(p PropRelatedTo, many bool, q int, r string) bool {
	if !vValPropRelatedTo(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropRepeat_line(p PropRepeat, many bool, q int, r string) bool {
	if !vValPropRepeat(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropRequestStatus_line(p PropRequestStatus, many bool, q int, r string) bool {
	if !vValPropRequestStatus(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropResources_line(p PropResources, many bool, q int, r string) bool {
	if !vValPropResources(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropRecurrenceRule_line(p PropRecurrenceRule, many bool, q int, r string) bool {
	if !vValPropRecurrenceRule(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropSequence_line(p PropSequence, many bool, q int, r string) bool {
	if !vValPropSequence(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropStatus_line(p PropStatus, many bool, q int, r string) bool {
	if !vValPropStatus(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropSummary_line(p PropSummary, many bool, q int, r string) bool {
	if !vValPropSummary(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropTimeTransparency_line(p PropTimeTransparency, many bool, q int, r string) bool {
	if !vValPropTimeTransparency(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropTrigger_line(p PropTrigger, many bool, q int, r string) bool {
	if !vValPropTrigger(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropTimezoneID_line(p PropTimezoneID, many bool, q int, r string) bool {
	if !vValPropTimezoneID(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropTimezoneName_line(p PropTimezoneName, many bool, q int, r string) bool {
	if !vValPropTimezoneName(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropTimezoneOffsetFrom_line(p PropTimezoneOffsetFrom, many bool, q int, r string) bool {
	if !vValPropTimezoneOffsetFrom(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropTimezoneOffsetTo_line(p PropTimezoneOffsetTo, many bool, q int, r string) bool {
	if !vValPropTimezoneOffsetTo(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropTimezoneURL_line(p PropTimezoneURL, many bool, q int, r string) bool {
	if !vValPropTimezoneURL(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropUID_line(p PropUID, many bool, q int, r string) bool {
	if !vValPropUID(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropURL_line(p PropURL, many bool, q int, r string) bool {
	if !vValPropURL(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropURI_line(p PropURI, many bool, q int, r string) bool {
	if !vValPropURI(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropVersion_line(p PropVersion, many bool, q int, r string) bool {
	if !vValPropVersion(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropAlarmAgent_line(p PropAlarmAgent, many bool, q int, r string) bool {
	if !vValPropAlarmAgent(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropAlarmStatus_line(p PropAlarmStatus, many bool, q int, r string) bool {
	if !vValPropAlarmStatus(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropLastTriggered_line(p PropLastTriggered, many bool, q int, r string) bool {
	if !vValPropLastTriggered(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropAcknowledged_line(p PropAcknowledged, many bool, q int, r string) bool {
	if !vValPropAcknowledged(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropProximity_line(p PropProximity, many bool, q int, r string) bool {
	if !vValPropProximity(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropGeoLocation_line(p PropGeoLocation, many bool, q int, r string) bool {
	if !vValPropGeoLocation(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncPropDefaultAlarm_line(p PropDefaultAlarm, many bool, q int, r string) bool {
	if !vValPropDefaultAlarm(p) || q != vAtStart && !(many && q == vAtEnd) {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncAlarmAudio_line(s AlarmAudio, many bool, q int, r string) bool {
	if !vValAlarmAudio(s) || !many || q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncAlarmDisplay_line(s AlarmDisplay, many bool, q int, r string) bool {
	if !vValAlarmDisplay(s) || !many || q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncAlarmEmail_line(s AlarmEmail, many bool, q int, r string) bool {
	if !vValAlarmEmail(s) || !many || q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncAlarmURI_line(s AlarmURI, many bool, q int, r string) bool {
	if !vValAlarmURI(s) || !many || q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncAlarmNone_line(s AlarmNone, many bool, q int, r string) bool {
	if !vValAlarmNone(s) || !many || q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncStandard_line(s Standard, many bool, q int, r string) bool {
	if !vValStandard(s) || !many || q != vAtStart && q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncDaylight_line(s Daylight, many bool, q int, r string) bool {
	if !vValDaylight(s) || !many || q != vAtStart && q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncTimezone_line(s Timezone, many bool, q int, r string) bool {
	if !vValTimezone(s) || !many || q != vAtStart && q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncFreeBusy_line(s FreeBusy, many bool, q int, r string) bool {
	if !vValFreeBusy(s) || !many || q != vAtStart && q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncJournal_line(s Journal, many bool, q int, r string) bool {
	if !vValJournal(s) || !many || q != vAtStart && q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncTodo_line(s Todo, many bool, q int, r string) bool {
	if !vValTodo(s) || !many || q != vAtStart && q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncEvent_line(s Event, many bool, q int, r string) bool {
	if !vValEvent(s) || !many || q != vAtStart && q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

func vEncCalendar_line(s Calendar, many bool, q int, r string) bool {
	if !vValCalendar(s) || !many || q != vAtStart && q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

//verif:line induct=l
func vEncPropAttachmentList_line(l []PropAttachment, many bool, q int, r string) bool {
	if !vValPropAttachmentList(l) || !many || q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

//verif:line induct=l
func vEncPropAlarmAgentList_line(l []PropAlarmAgent, many bool, q int, r string) bool {
	if !vValPropAlarmAgentList(l) || !many || q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

//verif:line induct=l
func vEncPropLastTriggeredList_line(l []PropLastTriggered, many bool, q int, r string) bool {
	if !vValPropLastTriggeredList(l) || !many || q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

//verif:line induct=l
func vEncPropGeoLocationList_line(l []PropGeoLocation, many bool, q int, r string) bool {
	if !vValPropGeoLocationList(l) || !many || q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

//verif:line induct=l
func vEncPropCommentList_line(l []PropComment, many bool, q int, r string) bool {
	if !vValPropCommentList(l) || !many || q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

//verif:line induct=l
func vEncPropRecurrenceDateTimesList_line(l []PropRecurrenceDateTimes, many bool, q int, r string) bool {
	if !vValPropRecurrenceDateTimesList(l) || !many || q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

//verif:line induct=l
func vEncPropTimezoneNameList_line(l []PropTimezoneName, many bool, q int, r string) bool {
	if !vValPropTimezoneNameList(l) || !many || q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

//verif:line induct=l
func vEncStandardList_line(l []Standard, many bool, q int, r string) bool {
	if !vValStandardList(l) || !many || q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

//verif:line induct=l
func vEncDaylightList_line(l []Daylight, many bool, q int, r string) bool {
	if !vValDaylightList(l) || !many || q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

//verif:line induct=l
func vEncPropAttendeeList_line(l []PropAttendee, many bool, q int, r string) bool {
	if !vValPropAttendeeList(l) || !many || q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

//verif:line induct=l
func vEncPropFreeBusyList_line(l []PropFreeBusy, many bool, q int, r string) bool {
	if !vValPropFreeBusyList(l) || !many || q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

//verif:line induct=l
func vEncPropRequestStatusList_line(l []PropRequestStatus, many bool, q int, r string) bool {
	if !vValPropRequestStatusList(l) || !many || q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

//verif:line induct=l
func vEncPropCategoriesList_line(l []PropCategories, many bool, q int, r string) bool {
	if !vValPropCategoriesList(l) || !many || q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

//verif:line induct=l
func vEncPropContactList_line(l []PropContact, many bool, q int, r string) bool {
	if !vValPropContactList(l) || !many || q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

//verif:line induct=l
func vEncPropDescriptionList_line(l []PropDescription, many bool, q int, r string) bool {
	if !vValPropDescriptionList(l) || !many || q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

//verif:line induct=l
func vEncPropExceptionDateTimeList_line(l []PropExceptionDateTime, many bool, q int, r string) bool {
	if !vValPropExceptionDateTimeList(l) || !many || q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

//verif:line induct=l
func vEncPropRelatedToList_line(l []PropRelatedTo, many bool, q int, r string) bool {
	if !vValPropRelatedToList(l) || !many || q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

//verif:line induct=l
func vEncPropResourcesList_line(l []PropResources, many bool, q int, r string) bool {
	if !vValPropResourcesList(l) || !many || q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

//verif:line induct=l
func vEncAlarmList_line(l []Alarm, many bool, q int, r string) bool {
	if !vValAlarmList(l) || !many || q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

//verif:line induct=l
func vEncEventList_line(l []Event, many bool, q int, r string) bool {
	if !vValEventList(l) || !many || q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

//verif:line induct=l
func vEncTodoList_line(l []Todo, many bool, q int, r string) bool {
	if !vValTodoList(l) || !many || q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

//verif:line induct=l
func vEncJournalList_line(l []Journal, many bool, q int, r string) bool {
	if !vValJournalList(l) || !many || q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

//verif:line induct=l
func vEncFreeBusyList_line(l []FreeBusy, many bool, q int, r string) bool {
	if !vValFreeBusyList(l) || !many || q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

//verif:line induct=l
func vEncTimezoneList_line(l []Timezone, many bool, q int, r string) bool {
	if !vValTimezoneList(l) || !many || q != vAtEnd {
		return true
	}

	return vRun(many, q, r) == vAtEnd
}

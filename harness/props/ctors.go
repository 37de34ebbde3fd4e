package props

// Generated by tools/ctors.py.

import (
	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
)

var ctors = []struct {
	name string
	f    func() interface{}
}{
	{"address.NewAddressImpl", func() interface{} { return address.NewAddressImpl() }},
	{"address.NewAuthority", func() interface{} { return address.NewAuthority() }},
	{"address.NewSipURIImpl", func() interface{} { return address.NewSipURIImpl() }},
	{"address.NewTelURLImpl", func() interface{} { return address.NewTelURLImpl() }},
	{"address.NewTelephoneNumber", func() interface{} { return address.NewTelephoneNumber() }},
	{"address.NewUserInfo", func() interface{} { return address.NewUserInfo() }},
	{"core.NewHostPort", func() interface{} { return core.NewHostPort() }},
	{"header.NewAccept", func() interface{} { return header.NewAccept() }},
	{"header.NewAcceptEncoding", func() interface{} { return header.NewAcceptEncoding() }},
	{"header.NewAcceptEncodingList", func() interface{} { return header.NewAcceptEncodingList() }},
	{"header.NewAcceptLanguage", func() interface{} { return header.NewAcceptLanguage() }},
	{"header.NewAcceptLanguageList", func() interface{} { return header.NewAcceptLanguageList() }},
	{"header.NewAcceptList", func() interface{} { return header.NewAcceptList() }},
	{"header.NewAlertInfo", func() interface{} { return header.NewAlertInfo() }},
	{"header.NewAlertInfoList", func() interface{} { return header.NewAlertInfoList() }},
	{"header.NewAllow", func() interface{} { return header.NewAllow() }},
	{"header.NewAllowEvents", func() interface{} { return header.NewAllowEvents() }},
	{"header.NewAllowEventsList", func() interface{} { return header.NewAllowEventsList() }},
	{"header.NewAllowList", func() interface{} { return header.NewAllowList() }},
	{"header.NewAuthenticationInfo", func() interface{} { return header.NewAuthenticationInfo() }},
	{"header.NewAuthorization", func() interface{} { return header.NewAuthorization() }},
	{"header.NewCallInfo", func() interface{} { return header.NewCallInfo() }},
	{"header.NewCallInfoList", func() interface{} { return header.NewCallInfoList() }},
	{"header.NewChallenge", func() interface{} { return header.NewChallenge() }},
	{"header.NewContact", func() interface{} { return header.NewContact() }},
	{"header.NewContactList", func() interface{} { return header.NewContactList() }},
	{"header.NewContentDisposition", func() interface{} { return header.NewContentDisposition() }},
	{"header.NewContentEncoding", func() interface{} { return header.NewContentEncoding() }},
	{"header.NewContentEncodingList", func() interface{} { return header.NewContentEncodingList() }},
	{"header.NewContentLanguage", func() interface{} { return header.NewContentLanguage() }},
	{"header.NewContentLanguageList", func() interface{} { return header.NewContentLanguageList() }},
	{"header.NewContentLength", func() interface{} { return header.NewContentLength() }},
	{"header.NewContentType", func() interface{} { return header.NewContentType() }},
	{"header.NewDate", func() interface{} { return header.NewDate() }},
	{"header.NewErrorInfo", func() interface{} { return header.NewErrorInfo() }},
	{"header.NewErrorInfoList", func() interface{} { return header.NewErrorInfoList() }},
	{"header.NewEvent", func() interface{} { return header.NewEvent() }},
	{"header.NewExpires", func() interface{} { return header.NewExpires() }},
	{"header.NewFrom", func() interface{} { return header.NewFrom() }},
	{"header.NewInReplyTo", func() interface{} { return header.NewInReplyTo() }},
	{"header.NewInReplyToList", func() interface{} { return header.NewInReplyToList() }},
	{"header.NewMaxForwards", func() interface{} { return header.NewMaxForwards() }},
	{"header.NewMediaRange", func() interface{} { return header.NewMediaRange() }},
	{"header.NewMimeVersion", func() interface{} { return header.NewMimeVersion() }},
	{"header.NewMinExpires", func() interface{} { return header.NewMinExpires() }},
	{"header.NewOrganization", func() interface{} { return header.NewOrganization() }},
	{"header.NewPriority", func() interface{} { return header.NewPriority() }},
	{"header.NewProtocol", func() interface{} { return header.NewProtocol() }},
	{"header.NewProxyAuthenticate", func() interface{} { return header.NewProxyAuthenticate() }},
	{"header.NewProxyAuthenticateList", func() interface{} { return header.NewProxyAuthenticateList() }},
	{"header.NewProxyAuthorization", func() interface{} { return header.NewProxyAuthorization() }},
	{"header.NewProxyRequire", func() interface{} { return header.NewProxyRequire() }},
	{"header.NewProxyRequireList", func() interface{} { return header.NewProxyRequireList() }},
	{"header.NewRAck", func() interface{} { return header.NewRAck() }},
	{"header.NewRSeq", func() interface{} { return header.NewRSeq() }},
	{"header.NewReason", func() interface{} { return header.NewReason() }},
	{"header.NewReasonList", func() interface{} { return header.NewReasonList() }},
	{"header.NewRecordRoute", func() interface{} { return header.NewRecordRoute() }},
	{"header.NewRecordRouteList", func() interface{} { return header.NewRecordRouteList() }},
	{"header.NewReferTo", func() interface{} { return header.NewReferTo() }},
	{"header.NewReplyTo", func() interface{} { return header.NewReplyTo() }},
	{"header.NewRequestLine", func() interface{} { return header.NewRequestLine() }},
	{"header.NewRequire", func() interface{} { return header.NewRequire() }},
	{"header.NewRequireList", func() interface{} { return header.NewRequireList() }},
	{"header.NewRetryAfter", func() interface{} { return header.NewRetryAfter() }},
	{"header.NewRoute", func() interface{} { return header.NewRoute() }},
	{"header.NewRouteList", func() interface{} { return header.NewRouteList() }},
	{"header.NewServer", func() interface{} { return header.NewServer() }},
	{"header.NewStatusLine", func() interface{} { return header.NewStatusLine() }},
	{"header.NewSubject", func() interface{} { return header.NewSubject() }},
	{"header.NewSubscriptionState", func() interface{} { return header.NewSubscriptionState() }},
	{"header.NewSupported", func() interface{} { return header.NewSupported() }},
	{"header.NewSupportedList", func() interface{} { return header.NewSupportedList() }},
	{"header.NewTimeStamp", func() interface{} { return header.NewTimeStamp() }},
	{"header.NewTo", func() interface{} { return header.NewTo() }},
	{"header.NewUnsupported", func() interface{} { return header.NewUnsupported() }},
	{"header.NewUnsupportedList", func() interface{} { return header.NewUnsupportedList() }},
	{"header.NewUserAgent", func() interface{} { return header.NewUserAgent() }},
	{"header.NewVia", func() interface{} { return header.NewVia() }},
	{"header.NewViaList", func() interface{} { return header.NewViaList() }},
	{"header.NewWWWAuthenticate", func() interface{} { return header.NewWWWAuthenticate() }},
	{"header.NewWWWAuthenticateList", func() interface{} { return header.NewWWWAuthenticateList() }},
	{"header.NewWarning", func() interface{} { return header.NewWarning() }},
	{"header.NewWarningList", func() interface{} { return header.NewWarningList() }},
	{"message.NewSIPMessage", func() interface{} { return message.NewSIPMessage() }},
	{"message.NewSIPRequest", func() interface{} { return message.NewSIPRequest() }},
	{"message.NewSIPResponse", func() interface{} { return message.NewSIPResponse() }},
}

package props

// freshValues is what the accessors of a value that was just made say: nothing
// set but the documented defaults. Written down once and reviewed against the
// documentation (absent numbers are -1, texts empty, parts nil).
var freshValues = map[string]map[string]string{
	"address.NewAddressImpl":          {"GetAddressType": "0", "GetDisplayName": "", "GetHost": "error", "GetHostPort": "nil, error", "GetPort": "-1, error", "GetURI": "nil", "GetUserAtHostPort": "", "HasDisplayName": "false", "IsSIPAddress": "false", "IsWildcard": "false", "String": ""},
	"address.NewAuthority":            {"GetHost": "nil", "GetHostPort": "nil", "GetPassword": "", "GetPort": "-1", "GetUser": "", "GetUserInfo": "nil", "String": ""},
	"address.NewSipURIImpl":           {"GetAuthority": "nil", "GetHeaderNames": "*core.NameValueList ", "GetHost": "", "GetHostPort": "nil", "GetLrParam": "", "GetMAddrParam": "", "GetMethod": "", "GetMethodParam": "", "GetParameterNames": "list of 0", "GetPort": "-1", "GetQheaders": "*core.NameValueList ", "GetScheme": "sip", "GetTTLParam": "-1", "GetTelephoneSubscriber": "*address.TelephoneNumber ", "GetTransportParam": "", "GetUriParms": "*core.NameValueList ", "GetUser": "", "GetUserAtHost": "", "GetUserAtHostPort": "", "GetUserParam": "", "GetUserPassword": "", "GetUserType": "", "HasLrParam": "false", "HasTransport": "false", "IsSecure": "false", "IsSipURI": "true", "IsUserTelephoneSubscriber": "false", "String": "sip:"},
	"address.NewTelURLImpl":           {"GetIsdnSubAddress": "", "GetParameterNames": "list of 0", "GetPhoneNumber": "", "GetPostDial": "", "GetScheme": "tel", "IsGlobal": "false", "IsSipURI": "false", "String": "tel:"},
	"address.NewTelephoneNumber":      {"GetIsdnSubaddress": "", "GetParameterNames": "list of 0", "GetPhoneNumber": "", "GetPostDial": "", "HasIsdnSubaddress": "false", "HasPostDial": "false", "IsGlobal": "false", "String": ""},
	"address.NewUserInfo":             {"GetPassword": "", "GetUser": "", "GetUserType": "0", "String": ""},
	"core.NewHostPort":                {"GetHost": "nil", "GetInetAddress": "<nil>", "GetPort": "-1", "HasPort": "false", "String": ""},
	"header.NewAccept":                {"EncodeBody": "", "GetContentSubType": "", "GetContentType": "", "GetHeaderName": "Accept", "GetHeaderValue": "", "GetMediaRange": "nil", "GetName": "Accept", "GetParameterNames": "list of 0", "GetParameters": "*core.NameValueList ", "GetQValue": "-1", "GetValue": "", "HasParameters": "false", "HasQValue": "false", "IsHeaderList": "false", "String": "Accept: \r\n"},
	"header.NewAcceptEncoding":        {"EncodeBody": "", "GetEncoding": "", "GetHeaderName": "Accept-Encoding", "GetHeaderValue": "", "GetName": "Accept-Encoding", "GetParameterNames": "list of 0", "GetParameters": "*core.NameValueList ", "GetQValue": "-1", "GetValue": "", "HasParameters": "false", "HasQValue": "false", "IsHeaderList": "false", "String": "Accept-Encoding: \r\n"},
	"header.NewAcceptEncodingList":    {"EncodeBody": "", "GetHeaderName": "Accept-Encoding", "GetHeaderValue": "", "GetHeadersAsEncodedStrings": "list of 0", "GetName": "Accept-Encoding", "GetValue": "", "IsHeaderList": "true", "String": "Accept-Encoding:\r\n"},
	"header.NewAcceptLanguage":        {"EncodeBody": "", "GetAcceptLanguage": "", "GetHeaderName": "Accept-Language", "GetHeaderValue": "", "GetLanguageRange": "", "GetName": "Accept-Language", "GetParameterNames": "list of 0", "GetParameters": "*core.NameValueList ", "GetQValue": "-1", "GetValue": "", "HasParameters": "false", "HasQValue": "false", "IsHeaderList": "false", "String": "Accept-Language: \r\n"},
	"header.NewAcceptLanguageList":    {"EncodeBody": "", "GetHeaderName": "Accept-Language", "GetHeaderValue": "", "GetHeadersAsEncodedStrings": "list of 0", "GetName": "Accept-Language", "GetValue": "", "IsHeaderList": "true", "String": "Accept-Language:\r\n"},
	"header.NewAcceptList":            {"EncodeBody": "", "GetHeaderName": "Accept", "GetHeaderValue": "", "GetHeadersAsEncodedStrings": "list of 0", "GetName": "Accept", "GetValue": "", "IsHeaderList": "true", "String": "Accept:\r\n"},
	"header.NewAlertInfo":             {"EncodeBody": "", "GetAlertInfo": "nil", "GetHeaderName": "Alert-Info", "GetHeaderValue": "", "GetName": "Alert-Info", "GetParameterNames": "list of 0", "GetParameters": "*core.NameValueList ", "GetValue": "", "HasParameters": "false", "IsHeaderList": "false", "String": "Alert-Info: \r\n"},
	"header.NewAlertInfoList":         {"EncodeBody": "", "GetHeaderName": "Alert-Info", "GetHeaderValue": "", "GetHeadersAsEncodedStrings": "list of 0", "GetName": "Alert-Info", "GetValue": "", "IsHeaderList": "true", "String": "Alert-Info:\r\n"},
	"header.NewAllow":                 {"EncodeBody": "", "GetHeaderName": "Allow", "GetHeaderValue": "", "GetMethod": "", "GetName": "Allow", "GetValue": "", "IsHeaderList": "false", "String": "Allow: \r\n"},
	"header.NewAllowEvents":           {"EncodeBody": "", "GetEventType": "", "GetHeaderName": "Allow-Events", "GetHeaderValue": "", "GetName": "Allow-Events", "GetValue": "", "IsHeaderList": "false", "String": "Allow-Events: \r\n"},
	"header.NewAllowEventsList":       {"EncodeBody": "", "GetHeaderName": "Allow-Events", "GetHeaderValue": "", "GetHeadersAsEncodedStrings": "list of 0", "GetMethods": "list of 0", "GetName": "Allow-Events", "GetValue": "", "IsHeaderList": "true", "String": "Allow-Events:\r\n"},
	"header.NewAllowList":             {"EncodeBody": "", "GetHeaderName": "Allow", "GetHeaderValue": "", "GetHeadersAsEncodedStrings": "list of 0", "GetMethods": "list of 0", "GetName": "Allow", "GetValue": "", "IsHeaderList": "true", "String": "Allow:\r\n"},
	"header.NewAuthenticationInfo":    {"EncodeBody": "", "GetAuthenticationInfo": "", "GetCNonce": "", "GetHeaderName": "Authentication-Info", "GetHeaderValue": "", "GetName": "Authentication-Info", "GetNextNonce": "", "GetNonceCount": "-1", "GetParameterNames": "list of 0", "GetParameters": "*core.NameValueList ", "GetQop": "", "GetResponse": "", "GetValue": "", "HasParameters": "false", "IsHeaderList": "false", "String": "Authentication-Info: \r\n"},
	"header.NewAuthorization":         {"EncodeBody": "Digest ", "GetAlgorithm": "", "GetCNonce": "", "GetDomain": "", "GetHeaderName": "Authorization", "GetHeaderValue": "Digest", "GetName": "Authorization", "GetNonce": "", "GetNonceCount": "-1", "GetOpaque": "", "GetParameterNames": "list of 0", "GetParameters": "*core.NameValueList ", "GetQop": "", "GetRealm": "", "GetResponse": "", "GetScheme": "Digest", "GetURI": "nil", "GetUsername": "", "GetValue": "Digest", "HasParameters": "false", "IsHeaderList": "false", "IsStale": "false", "String": "Authorization: Digest \r\n"},
	"header.NewCallInfo":              {"EncodeBody": "", "GetHeaderName": "Call-Info", "GetHeaderValue": "", "GetInfo": "nil", "GetName": "Call-Info", "GetParameterNames": "list of 0", "GetParameters": "*core.NameValueList ", "GetPurpose": "", "GetValue": "", "HasParameters": "false", "IsHeaderList": "false", "String": "Call-Info: \r\n"},
	"header.NewCallInfoList":          {"EncodeBody": "", "GetHeaderName": "Call-Info", "GetHeaderValue": "", "GetHeadersAsEncodedStrings": "list of 0", "GetName": "Call-Info", "GetValue": "", "IsHeaderList": "true", "String": "Call-Info:\r\n"},
	"header.NewChallenge":             {"GetAlgorithm": "", "GetAuthParams": "*core.NameValueList ", "GetDomain": "", "GetOpaque": "", "GetQOP": "", "GetRealm": "", "GetResponse": "", "GetScheme": "", "GetSignature": "", "GetSignedBy": "", "GetStale": "", "GetURI": "", "HasParameters": "false", "String": " "},
	"header.NewContact":               {"EncodeBody": "", "GetAddress": "nil", "GetContactList": "*header.ContactList Contact:\r\n", "GetContactParms": "*core.NameValueList ", "GetExpires": "-1", "GetHeaderName": "Contact", "GetHeaderValue": "", "GetName": "Contact", "GetParameterNames": "list of 0", "GetParameters": "*core.NameValueList ", "GetQValue": "-1", "GetValue": "", "GetWildCardFlag": "false", "HasParameters": "false", "HasQValue": "false", "IsHeaderList": "false", "String": "Contact: \r\n"},
	"header.NewContactList":           {"EncodeBody": "", "GetContacts": "[]", "GetHeaderName": "Contact", "GetHeaderValue": "", "GetHeadersAsEncodedStrings": "list of 0", "GetName": "Contact", "GetValue": "", "IsHeaderList": "true", "String": "Contact:\r\n"},
	"header.NewContentDisposition":    {"EncodeBody": "", "GetContentDisposition": "", "GetDispositionType": "", "GetHandling": "", "GetHeaderName": "Content-Disposition", "GetHeaderValue": "", "GetName": "Content-Disposition", "GetParameterNames": "list of 0", "GetParameters": "*core.NameValueList ", "GetValue": "", "HasParameters": "false", "IsHeaderList": "false", "String": "Content-Disposition: \r\n"},
	"header.NewContentEncoding":       {"EncodeBody": "", "GetEncoding": "", "GetHeaderName": "Content-Encoding", "GetHeaderValue": "", "GetName": "Content-Encoding", "GetValue": "", "IsHeaderList": "false", "String": "Content-Encoding: \r\n"},
	"header.NewContentEncodingList":   {"EncodeBody": "", "GetHeaderName": "Content-Encoding", "GetHeaderValue": "", "GetHeadersAsEncodedStrings": "list of 0", "GetName": "Content-Encoding", "GetValue": "", "IsHeaderList": "true", "String": "Content-Encoding:\r\n"},
	"header.NewContentLanguage":       {"EncodeBody": "", "GetContentLanguage": "", "GetHeaderName": "Content-Language", "GetHeaderValue": "", "GetLanguageTag": "", "GetName": "Content-Language", "GetValue": "", "IsHeaderList": "false", "String": "Content-Language: \r\n"},
	"header.NewContentLanguageList":   {"EncodeBody": "", "GetHeaderName": "Content-Language", "GetHeaderValue": "", "GetHeadersAsEncodedStrings": "list of 0", "GetName": "Content-Language", "GetValue": "", "IsHeaderList": "true", "String": "Content-Language:\r\n"},
	"header.NewContentLength":         {"EncodeBody": "0", "GetContentLength": "0", "GetHeaderName": "Content-Length", "GetHeaderValue": "0", "GetName": "Content-Length", "GetValue": "0", "IsHeaderList": "false", "String": "Content-Length: 0\r\n"},
	"header.NewContentType":           {"EncodeBody": "", "GetCharSet": "", "GetContentSubType": "", "GetContentType": "", "GetHeaderName": "Content-Type", "GetHeaderValue": "", "GetMediaRange": "nil", "GetMediaSubType": "", "GetMediaType": "", "GetName": "Content-Type", "GetParameterNames": "list of 0", "GetParameters": "*core.NameValueList ", "GetValue": "", "HasParameters": "false", "IsHeaderList": "false", "String": "Content-Type: \r\n"},
	"header.NewDate":                  {"EncodeBody": "", "GetDate": "nil", "GetHeaderName": "Date", "GetHeaderValue": "", "GetName": "Date", "GetValue": "", "IsHeaderList": "false", "String": "Date: \r\n"},
	"header.NewErrorInfo":             {"EncodeBody": "", "GetErrorInfo": "nil", "GetErrorMessage": "", "GetHeaderName": "Error-Info", "GetHeaderValue": "", "GetName": "Error-Info", "GetParameterNames": "list of 0", "GetParameters": "*core.NameValueList ", "GetValue": "", "HasParameters": "false", "IsHeaderList": "false", "String": "Error-Info: \r\n"},
	"header.NewErrorInfoList":         {"EncodeBody": "", "GetHeaderName": "Error-Info", "GetHeaderValue": "", "GetHeadersAsEncodedStrings": "list of 0", "GetName": "Error-Info", "GetValue": "", "IsHeaderList": "true", "String": "Error-Info:\r\n"},
	"header.NewEvent":                 {"EncodeBody": "", "GetEventId": "", "GetEventType": "", "GetHeaderName": "Event", "GetHeaderValue": "", "GetName": "Event", "GetParameterNames": "list of 0", "GetParameters": "*core.NameValueList ", "GetValue": "", "HasParameters": "false", "IsHeaderList": "false", "String": "Event: \r\n"},
	"header.NewExpires":               {"EncodeBody": "0", "GetExpires": "0", "GetHeaderName": "Expires", "GetHeaderValue": "0", "GetName": "Expires", "GetValue": "0", "IsHeaderList": "false", "String": "Expires: 0\r\n"},
	"header.NewFrom":                  {"EncodeBody": "", "GetAddress": "nil", "GetDisplayName": "", "GetHeaderName": "From", "GetHeaderValue": "", "GetHostPort": "nil, error", "GetName": "From", "GetParameterNames": "list of 0", "GetParameters": "*core.NameValueList ", "GetTag": "", "GetUserAtHostPort": "", "GetValue": "", "HasParameters": "false", "HasTag": "false", "IsHeaderList": "false", "String": "From: \r\n"},
	"header.NewInReplyTo":             {"EncodeBody": "", "GetCallId": "", "GetHeaderName": "In-Reply-To", "GetHeaderValue": "", "GetName": "In-Reply-To", "GetValue": "", "IsHeaderList": "false", "String": "In-Reply-To: \r\n"},
	"header.NewInReplyToList":         {"EncodeBody": "", "GetHeaderName": "In-Reply-To", "GetHeaderValue": "", "GetHeadersAsEncodedStrings": "list of 0", "GetName": "In-Reply-To", "GetValue": "", "IsHeaderList": "true", "String": "In-Reply-To:\r\n"},
	"header.NewMaxForwards":           {"EncodeBody": "0", "GetHeaderName": "Max-Forwards", "GetHeaderValue": "0", "GetMaxForwards": "0", "GetName": "Max-Forwards", "GetValue": "0", "HasReachedZero": "true", "IsHeaderList": "false", "String": "Max-Forwards: 0\r\n"},
	"header.NewMediaRange":            {"GetSubtype": "", "GetType": "", "String": "/"},
	"header.NewMimeVersion":           {"EncodeBody": "0.0", "GetHeaderName": "MIME-Version", "GetHeaderValue": "0.0", "GetMajorVersion": "0", "GetMinorVersion": "0", "GetName": "MIME-Version", "GetValue": "0.0", "IsHeaderList": "false", "String": "MIME-Version: 0.0\r\n"},
	"header.NewMinExpires":            {"EncodeBody": "0", "GetExpires": "0", "GetHeaderName": "Min-Expires", "GetHeaderValue": "0", "GetName": "Min-Expires", "GetValue": "0", "IsHeaderList": "false", "String": "Min-Expires: 0\r\n"},
	"header.NewOrganization":          {"EncodeBody": "", "GetHeaderName": "Organization", "GetHeaderValue": "", "GetName": "Organization", "GetOrganization": "", "GetValue": "", "IsHeaderList": "false", "String": "Organization: \r\n"},
	"header.NewPriority":              {"EncodeBody": "", "GetHeaderName": "Priority", "GetHeaderValue": "", "GetName": "Priority", "GetPriority": "", "GetValue": "", "IsHeaderList": "false", "String": "Priority: \r\n"},
	"header.NewProtocol":              {"GetProtocolName": "SIP", "GetProtocolVersion": "2.0", "GetTransport": "UDP", "String": "SIP/2.0/UDP"},
	"header.NewProxyAuthenticate":     {"EncodeBody": "Digest ", "GetAlgorithm": "", "GetCNonce": "", "GetDomain": "", "GetHeaderName": "Proxy-Authenticate", "GetHeaderValue": "Digest", "GetName": "Proxy-Authenticate", "GetNonce": "", "GetNonceCount": "-1", "GetOpaque": "", "GetParameterNames": "list of 0", "GetParameters": "*core.NameValueList ", "GetQop": "", "GetRealm": "", "GetResponse": "", "GetScheme": "Digest", "GetURI": "nil", "GetUsername": "", "GetValue": "Digest", "HasParameters": "false", "IsHeaderList": "false", "IsStale": "false", "String": "Proxy-Authenticate: Digest \r\n"},
	"header.NewProxyAuthenticateList": {"EncodeBody": "", "GetHeaderName": "Proxy-Authenticate", "GetHeaderValue": "", "GetHeadersAsEncodedStrings": "list of 0", "GetName": "Proxy-Authenticate", "GetValue": "", "IsHeaderList": "true", "String": "Proxy-Authenticate:\r\n"},
	"header.NewProxyAuthorization":    {"EncodeBody": "Digest ", "GetAlgorithm": "", "GetCNonce": "", "GetDomain": "", "GetHeaderName": "Proxy-Authorization", "GetHeaderValue": "Digest", "GetName": "Proxy-Authorization", "GetNonce": "", "GetNonceCount": "-1", "GetOpaque": "", "GetParameterNames": "list of 0", "GetParameters": "*core.NameValueList ", "GetQop": "", "GetRealm": "", "GetResponse": "", "GetScheme": "Digest", "GetURI": "nil", "GetUsername": "", "GetValue": "Digest", "HasParameters": "false", "IsHeaderList": "false", "IsStale": "false", "String": "Proxy-Authorization: Digest \r\n"},
	"header.NewProxyRequire":          {"EncodeBody": "", "GetHeaderName": "Proxy-Require", "GetHeaderValue": "", "GetName": "Proxy-Require", "GetOptionTag": "", "GetValue": "", "IsHeaderList": "false", "String": "Proxy-Require: \r\n"},
	"header.NewProxyRequireList":      {"EncodeBody": "", "GetHeaderName": "Proxy-Require", "GetHeaderValue": "", "GetHeadersAsEncodedStrings": "list of 0", "GetName": "Proxy-Require", "GetValue": "", "IsHeaderList": "true", "String": "Proxy-Require:\r\n"},
	"header.NewRAck":                  {"EncodeBody": "0 0 ", "GetCSeqNumber": "0", "GetHeaderName": "RAck", "GetHeaderValue": "0 0", "GetMethod": "", "GetName": "RAck", "GetRSeqNumber": "0", "GetValue": "0 0", "IsHeaderList": "false", "String": "RAck: 0 0 \r\n"},
	"header.NewRSeq":                  {"EncodeBody": "0", "GetHeaderName": "RSeq", "GetHeaderValue": "0", "GetName": "RSeq", "GetSequenceNumber": "0", "GetValue": "0", "IsHeaderList": "false", "String": "RSeq: 0\r\n"},
	"header.NewReason":                {"EncodeBody": "", "GetCause": "0", "GetHeaderName": "Reason", "GetHeaderValue": "", "GetName": "Reason", "GetParameterNames": "list of 0", "GetParameters": "*core.NameValueList ", "GetProtocol": "", "GetText": "", "GetValue": "", "HasParameters": "false", "IsHeaderList": "false", "String": "Reason: \r\n"},
	"header.NewReasonList":            {"EncodeBody": "", "GetHeaderName": "Reason", "GetHeaderValue": "", "GetHeadersAsEncodedStrings": "list of 0", "GetName": "Reason", "GetValue": "", "IsHeaderList": "true", "String": "Reason:\r\n"},
	"header.NewRecordRoute":           {"EncodeBody": "", "GetAddress": "nil", "GetHeaderName": "Record-Route", "GetHeaderValue": "", "GetName": "Record-Route", "GetParameterNames": "list of 0", "GetParameters": "*core.NameValueList ", "GetValue": "", "HasParameters": "false", "IsHeaderList": "false", "String": "Record-Route: \r\n"},
	"header.NewRecordRouteList":       {"EncodeBody": "", "GetHeaderName": "Record-Route", "GetHeaderValue": "", "GetHeadersAsEncodedStrings": "list of 0", "GetName": "Record-Route", "GetValue": "", "IsHeaderList": "true", "String": "Record-Route:\r\n"},
	"header.NewReferTo":               {"EncodeBody": "", "GetAddress": "nil", "GetHeaderName": "Refer-To", "GetHeaderValue": "", "GetName": "Refer-To", "GetParameterNames": "list of 0", "GetParameters": "*core.NameValueList ", "GetValue": "", "HasParameters": "false", "IsHeaderList": "false", "String": "Refer-To: \r\n"},
	"header.NewReplyTo":               {"EncodeBody": "", "GetAddress": "nil", "GetDisplayName": "", "GetHeaderName": "Reply-To", "GetHeaderValue": "", "GetHostPort": "nil", "GetName": "Reply-To", "GetParameterNames": "list of 0", "GetParameters": "*core.NameValueList ", "GetValue": "", "HasParameters": "false", "IsHeaderList": "false", "String": "Reply-To: \r\n"},
	"header.NewRequestLine":           {"GetMethod": "", "GetSipVersion": "SIP/2.0", "GetUri": "nil", "GetVersionMajor": "2", "GetVersionMinor": "0", "String": "SIP/2.0\r\n"},
	"header.NewRequire":               {"EncodeBody": "", "GetHeaderName": "Require", "GetHeaderValue": "", "GetName": "Require", "GetOptionTag": "", "GetValue": "", "IsHeaderList": "false", "String": "Require: \r\n"},
	"header.NewRequireList":           {"EncodeBody": "", "GetHeaderName": "Require", "GetHeaderValue": "", "GetHeadersAsEncodedStrings": "list of 0", "GetName": "Require", "GetValue": "", "IsHeaderList": "true", "String": "Require:\r\n"},
	"header.NewRetryAfter":            {"EncodeBody": "0", "GetComment": "", "GetDuration": "0", "GetHeaderName": "Retry-After", "GetHeaderValue": "0", "GetName": "Retry-After", "GetParameterNames": "list of 0", "GetParameters": "*core.NameValueList ", "GetRetryAfter": "0", "GetValue": "0", "HasComment": "false", "HasParameters": "false", "IsHeaderList": "false", "String": "Retry-After: 0\r\n"},
	"header.NewRoute":                 {"EncodeBody": "", "GetAddress": "nil", "GetHeaderName": "Route", "GetHeaderValue": "", "GetName": "Route", "GetParameterNames": "list of 0", "GetParameters": "*core.NameValueList ", "GetValue": "", "HasParameters": "false", "IsHeaderList": "false", "String": "Route: \r\n"},
	"header.NewRouteList":             {"EncodeBody": "", "GetHeaderName": "Route", "GetHeaderValue": "", "GetHeadersAsEncodedStrings": "list of 0", "GetName": "Route", "GetValue": "", "IsHeaderList": "true", "String": "Route:\r\n"},
	"header.NewServer":                {"EncodeBody": "", "EncodeProduct": "", "GetHeaderName": "Server", "GetHeaderValue": "", "GetName": "Server", "GetProduct": "nil", "GetValue": "", "IsHeaderList": "false", "String": "Server: \r\n"},
	"header.NewStatusLine":            {"GetReasonPhrase": "", "GetSipVersion": "SIP/2.0", "GetStatusCode": "0", "GetVersionMajor": "2", "GetVersionMinor": "0", "String": "SIP/2.0 0 \r\n"},
	"header.NewSubject":               {"EncodeBody": "", "GetHeaderName": "Subject", "GetHeaderValue": "", "GetName": "Subject", "GetSubject": "", "GetValue": "", "IsHeaderList": "false", "String": "Subject: \r\n"},
	"header.NewSubscriptionState":     {"EncodeBody": "", "GetExpires": "-1", "GetHeaderName": "Subscription-State", "GetHeaderValue": "", "GetName": "Subscription-State", "GetParameterNames": "list of 0", "GetParameters": "*core.NameValueList ", "GetReasonCode": "", "GetRetryAfter": "-1", "GetState": "", "GetValue": "", "HasParameters": "false", "IsHeaderList": "false", "String": "Subscription-State: \r\n"},
	"header.NewSupported":             {"EncodeBody": "", "GetHeaderName": "Supported", "GetHeaderValue": "", "GetName": "Supported", "GetOptionTag": "", "GetValue": "", "IsHeaderList": "false", "String": "Supported: \r\n"},
	"header.NewSupportedList":         {"EncodeBody": "", "GetHeaderName": "Supported", "GetHeaderValue": "", "GetHeadersAsEncodedStrings": "list of 0", "GetName": "Supported", "GetValue": "", "IsHeaderList": "true", "String": "Supported:\r\n"},
	"header.NewTimeStamp":             {"EncodeBody": "0", "GetDelay": "-1", "GetHeaderName": "Timestamp", "GetHeaderValue": "0", "GetName": "Timestamp", "GetTimeStamp": "0", "GetValue": "0", "HasDelay": "false", "IsHeaderList": "false", "String": "Timestamp: 0\r\n"},
	"header.NewTo":                    {"EncodeBody": "", "GetAddress": "nil", "GetDisplayName": "", "GetHeaderName": "To", "GetHeaderValue": "", "GetHostPort": "nil, error", "GetName": "To", "GetParameterNames": "list of 0", "GetParameters": "*core.NameValueList ", "GetTag": "", "GetUserAtHostPort": "", "GetValue": "", "HasParameters": "false", "HasTag": "false", "IsHeaderList": "false", "String": "To: \r\n"},
	"header.NewUnsupported":           {"EncodeBody": "", "GetHeaderName": "Unsupported", "GetHeaderValue": "", "GetName": "Unsupported", "GetOptionTag": "", "GetValue": "", "IsHeaderList": "false", "String": "Unsupported: \r\n"},
	"header.NewUnsupportedList":       {"EncodeBody": "", "GetHeaderName": "Unsupported", "GetHeaderValue": "", "GetHeadersAsEncodedStrings": "list of 0", "GetName": "Unsupported", "GetValue": "", "IsHeaderList": "true", "String": "Unsupported:\r\n"},
	"header.NewUserAgent":             {"EncodeBody": "", "EncodeProduct": "", "GetHeaderName": "User-Agent", "GetHeaderValue": "", "GetName": "User-Agent", "GetProduct": "nil", "GetValue": "", "IsHeaderList": "false", "String": "User-Agent: \r\n"},
	"header.NewVia":                   {"EncodeBody": "SIP/2.0/UDP ", "GetBranch": "", "GetComment": "", "GetHeaderName": "Via", "GetHeaderValue": "SIP/2.0/UDP", "GetHost": "", "GetMAddr": "", "GetMaddr": "nil", "GetName": "Via", "GetParameterNames": "list of 0", "GetParameters": "*core.NameValueList ", "GetPort": "-1", "GetProtocol": "SIP", "GetProtocolVersion": "2.0", "GetReceived": "", "GetSentBy": "nil", "GetSentProtocol": "*header.Protocol SIP/2.0/UDP", "GetTTL": "-1", "GetTransport": "UDP", "GetValue": "SIP/2.0/UDP", "GetViaParms": "*core.NameValueList ", "HasComment": "false", "HasParameters": "false", "HasPort": "false", "IsHeaderList": "false", "String": "Via: SIP/2.0/UDP \r\n"},
	"header.NewViaList":               {"EncodeBody": "", "GetHeaderName": "Via", "GetHeaderValue": "", "GetHeadersAsEncodedStrings": "list of 0", "GetName": "Via", "GetValue": "", "IsHeaderList": "true", "String": "Via:\r\n"},
	"header.NewWWWAuthenticate":       {"EncodeBody": "Digest ", "GetAlgorithm": "", "GetCNonce": "", "GetDomain": "", "GetHeaderName": "WWW-Authenticate", "GetHeaderValue": "Digest", "GetName": "WWW-Authenticate", "GetNonce": "", "GetNonceCount": "-1", "GetOpaque": "", "GetParameterNames": "list of 0", "GetParameters": "*core.NameValueList ", "GetQop": "", "GetRealm": "", "GetResponse": "", "GetScheme": "Digest", "GetURI": "nil", "GetUsername": "", "GetValue": "Digest", "HasParameters": "false", "IsHeaderList": "false", "IsStale": "false", "String": "WWW-Authenticate: Digest \r\n"},
	"header.NewWWWAuthenticateList":   {"EncodeBody": "", "GetHeaderName": "WWW-Authenticate", "GetHeaderValue": "", "GetHeadersAsEncodedStrings": "list of 0", "GetName": "WWW-Authenticate", "GetValue": "", "IsHeaderList": "true", "String": "WWW-Authenticate:\r\n"},
	"header.NewWarning":               {"EncodeBody": "0  \"\"", "GetAgent": "", "GetCode": "0", "GetHeaderName": "Warning", "GetHeaderValue": "0  \"\"", "GetName": "Warning", "GetText": "", "GetValue": "0  \"\"", "IsHeaderList": "false", "String": "Warning: 0  \"\"\r\n"},
	"header.NewWarningList":           {"EncodeBody": "", "GetHeaderName": "Warning", "GetHeaderValue": "", "GetHeadersAsEncodedStrings": "list of 0", "GetName": "Warning", "GetValue": "", "IsHeaderList": "true", "String": "Warning:\r\n"},
	"message.NewSIPMessage":           {"EncodeAsBytes": "Content-Length: 0\r\n\r\n", "GetAuthorization": "nil", "GetCSeq": "nil", "GetCSeqNumber": "-1", "GetCallId": "nil", "GetCallIdentifier": "", "GetContactHeaders": "nil", "GetContent": "", "GetContentDisposition": "nil", "GetContentEncoding": "nil", "GetContentLanguage": "nil", "GetContentLength": "*header.ContentLength Content-Length: 0\r\n", "GetContentTypeHeader": "nil", "GetErrorInfoHeaders": "nil", "GetExpires": "nil", "GetFrom": "nil", "GetFromTag": "", "GetHeaderNames": "list of 1", "GetMaxForwards": "nil", "GetMessageAsEncodedStrings": "list of 1", "GetMessageContent": "", "GetMinExpires": "nil", "GetOrganizationHeader": "nil", "GetPriorityHeader": "nil", "GetProxyAuthorizationHeader": "nil", "GetRecordRouteHeaders": "nil", "GetRouteHeaders": "nil", "GetTo": "nil", "GetToTag": "", "GetTopmostVia": "nil", "GetUnrecognizedHeaders": "list of 0", "GetViaHeaders": "nil", "HasContent": "false", "HasFromTag": "false", "HasToTag": "false", "String": "Content-Length: 0\r\n\r\n"},
	"message.NewSIPRequest":           {"EncodeAsBytes": "Content-Length: 0\r\n\r\n", "GetAuthorization": "nil", "GetCSeq": "nil", "GetCSeqNumber": "-1", "GetCallId": "nil", "GetCallIdentifier": "", "GetContactHeaders": "nil", "GetContent": "", "GetContentDisposition": "nil", "GetContentEncoding": "nil", "GetContentLanguage": "nil", "GetContentLength": "*header.ContentLength Content-Length: 0\r\n", "GetContentTypeHeader": "nil", "GetErrorInfoHeaders": "nil", "GetExpires": "nil", "GetFirstLine": "", "GetFrom": "nil", "GetFromTag": "", "GetHeaderNames": "list of 1", "GetMaxForwards": "nil", "GetMessageAsEncodedStrings": "list of 1", "GetMessageContent": "", "GetMethod": "", "GetMinExpires": "nil", "GetOrganizationHeader": "nil", "GetPriorityHeader": "nil", "GetProxyAuthorizationHeader": "nil", "GetRecordRouteHeaders": "nil", "GetRequestLine": "nil", "GetRequestURI": "nil", "GetRouteHeaders": "nil", "GetSIPVersion": "", "GetTo": "nil", "GetToTag": "", "GetTopmostVia": "nil", "GetUnrecognizedHeaders": "list of 0", "GetViaHeaders": "nil", "GetViaHost": "", "GetViaPort": "5060", "HasContent": "false", "HasFromTag": "false", "HasToTag": "false", "String": "Content-Length: 0\r\n\r\n"},
	"message.NewSIPResponse":          {"EncodeAsBytes": "Content-Length: 0\r\n\r\n", "GetAuthorization": "nil", "GetCSeq": "nil", "GetCSeqNumber": "-1", "GetCallId": "nil", "GetCallIdentifier": "", "GetContactHeaders": "nil", "GetContent": "", "GetContentDisposition": "nil", "GetContentEncoding": "nil", "GetContentLanguage": "nil", "GetContentLength": "*header.ContentLength Content-Length: 0\r\n", "GetContentTypeHeader": "nil", "GetErrorInfoHeaders": "nil", "GetExpires": "nil", "GetFirstLine": "", "GetFrom": "nil", "GetFromTag": "", "GetHeaderNames": "list of 1", "GetMaxForwards": "nil", "GetMessageAsEncodedStrings": "list of 1", "GetMessageContent": "", "GetMinExpires": "nil", "GetOrganizationHeader": "nil", "GetPriorityHeader": "nil", "GetProxyAuthorizationHeader": "nil", "GetReasonPhrase": "", "GetRecordRouteHeaders": "nil", "GetRouteHeaders": "nil", "GetSIPVersion": "", "GetStatusCode": "0", "GetStatusLine": "nil", "GetTo": "nil", "GetToTag": "", "GetTopmostVia": "nil", "GetUnrecognizedHeaders": "list of 0", "GetViaHeaders": "nil", "HasContent": "false", "HasFromTag": "false", "HasToTag": "false", "IsFinalResponse": "false", "String": "Content-Length: 0\r\n\r\n"},
}

From 52564596e990208f3fccc6f30639b4799dd32b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:11 +0000
Subject: [PATCH 001/159] fix: header parsers ignored a failed Match and
 dereferenced a nil token

---
 sip/parser/AcceptEncodingParser.go     | 16 ++++++++---
 sip/parser/AcceptLanguageParser.go     | 16 ++++++++---
 sip/parser/AcceptParser.go             | 24 ++++++++++++----
 sip/parser/AlertInfoParser.go          | 16 ++++++++---
 sip/parser/AllowEventsParser.go        |  8 ++++--
 sip/parser/AllowParser.go              |  8 ++++--
 sip/parser/CallInfoParser.go           | 16 ++++++++---
 sip/parser/ChallengeParser.go          |  4 ++-
 sip/parser/ContentDispositionParser.go |  4 ++-
 sip/parser/ContentEncodingParser.go    |  8 ++++--
 sip/parser/ContentLanguageParser.go    |  8 ++++--
 sip/parser/ContentTypeParser.go        | 12 ++++++--
 sip/parser/ErrorInfoParser.go          | 16 ++++++++---
 sip/parser/EventParser.go              |  4 ++-
 sip/parser/InReplyToParser.go          | 16 ++++++++---
 sip/parser/PriorityParser.go           |  4 ++-
 sip/parser/ProxyRequireParser.go       |  8 ++++--
 sip/parser/RAckParser.go               |  4 ++-
 sip/parser/ReasonParser.go             |  4 ++-
 sip/parser/RequireParser.go            |  8 ++++--
 sip/parser/RetryAfterParser.go         | 16 ++++++++---
 sip/parser/SubscriptionStateParser.go  | 40 +++++++++++++++++++-------
 sip/parser/SupportedParser.go          |  8 ++++--
 sip/parser/UnsupportedParser.go        |  8 ++++--
 sip/parser/ViaParser.go                | 28 +++++++++++++-----
 sip/parser/WarningParser.go            | 16 ++++++++---
 26 files changed, 240 insertions(+), 80 deletions(-)

diff --git a/sip/parser/AcceptEncodingParser.go b/sip/parser/AcceptEncodingParser.go
index 896aa62..568aabd 100644
--- a/sip/parser/AcceptEncodingParser.go
+++ b/sip/parser/AcceptEncodingParser.go
@@ -72,7 +72,9 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 		for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 			acceptEncoding := header.NewAcceptEncoding()
 			if ch, _ = lexer.LookAheadK(0); ch != ';' { // Content-Coding:
-				lexer.Match(TokenTypes_ID)
+				if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+					return nil, ParseException
+				}
 				value := lexer.GetNextToken()
 				acceptEncoding.SetEncoding(value.GetTokenValue())
 			}
@@ -80,11 +82,17 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 			for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
 				lexer.Match(';')
 				lexer.SPorHT()
-				lexer.Match('q')
+				if _, ParseException = lexer.Match('q'); ParseException != nil {
+					return nil, ParseException
+				}
 				lexer.SPorHT()
-				lexer.Match('=')
+				if _, ParseException = lexer.Match('='); ParseException != nil {
+					return nil, ParseException
+				}
 				lexer.SPorHT()
-				lexer.Match(TokenTypes_ID)
+				if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+					return nil, ParseException
+				}
 				value := lexer.GetNextToken()
 
 				var qv float64
diff --git a/sip/parser/AcceptLanguageParser.go b/sip/parser/AcceptLanguageParser.go
index cab954d..d6c457a 100644
--- a/sip/parser/AcceptLanguageParser.go
+++ b/sip/parser/AcceptLanguageParser.go
@@ -62,7 +62,9 @@ func (this *AcceptLanguageParser) Parse() (sh header.Header, ParseException erro
 		acceptLanguage := header.NewAcceptLanguage()
 		acceptLanguage.SetHeaderName(core.SIPHeaderNames_ACCEPT_LANGUAGE)
 		if ch, _ = lexer.LookAheadK(0); ch != ';' { // Content-Coding:
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			value := lexer.GetNextToken()
 			acceptLanguage.SetLanguageRange(value.GetTokenValue())
 		}
@@ -70,11 +72,17 @@ func (this *AcceptLanguageParser) Parse() (sh header.Header, ParseException erro
 		for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
 			lexer.Match(';')
 			lexer.SPorHT()
-			lexer.Match('q')
+			if _, ParseException = lexer.Match('q'); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			value := lexer.GetNextToken()
 
 			var qv float64
diff --git a/sip/parser/AcceptParser.go b/sip/parser/AcceptParser.go
index 705d87d..fa041ba 100644
--- a/sip/parser/AcceptParser.go
+++ b/sip/parser/AcceptParser.go
@@ -53,11 +53,17 @@ func (this *AcceptParser) Parse() (sh header.Header, ParseException error) {
 	accept.SetHeaderName(core.SIPHeaderNames_ACCEPT)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 	accept.SetContentType(token.GetTokenValue())
-	lexer.Match('/')
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match('/'); ParseException != nil {
+		return nil, ParseException
+	}
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token = lexer.GetNextToken()
 	accept.SetContentSubType(token.GetTokenValue())
 	lexer.SPorHT()
@@ -71,11 +77,17 @@ func (this *AcceptParser) Parse() (sh header.Header, ParseException error) {
 
 		accept = header.NewAccept()
 
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
 		accept.SetContentType(token.GetTokenValue())
-		lexer.Match('/')
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match('/'); ParseException != nil {
+			return nil, ParseException
+		}
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
 		accept.SetContentSubType(token.GetTokenValue())
 		lexer.SPorHT()
diff --git a/sip/parser/AlertInfoParser.go b/sip/parser/AlertInfoParser.go
index 59550d3..3022f1c 100644
--- a/sip/parser/AlertInfoParser.go
+++ b/sip/parser/AlertInfoParser.go
@@ -57,13 +57,17 @@ func (this *AlertInfoParser) Parse() (sh header.Header, ParseException error) {
 		alertInfo.SetHeaderName(core.SIPHeaderNames_ALERT_INFO)
 
 		lexer.SPorHT()
-		lexer.Match('<')
+		if _, ParseException = lexer.Match('<'); ParseException != nil {
+			return nil, ParseException
+		}
 		urlParser := NewURLParserFromLexer(lexer)
 		if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 			return nil, ParseException
 		}
 		alertInfo.SetAlertInfo(uri)
-		lexer.Match('>')
+		if _, ParseException = lexer.Match('>'); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		if ParseException = this.ParametersParser.Parse(alertInfo); ParseException != nil {
@@ -76,13 +80,17 @@ func (this *AlertInfoParser) Parse() (sh header.Header, ParseException error) {
 			lexer.SPorHT()
 			alertInfo = header.NewAlertInfo()
 			lexer.SPorHT()
-			lexer.Match('<')
+			if _, ParseException = lexer.Match('<'); ParseException != nil {
+				return nil, ParseException
+			}
 			urlParser = NewURLParserFromLexer(lexer)
 			if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 				return nil, ParseException
 			}
 			alertInfo.SetAlertInfo(uri)
-			lexer.Match('>')
+			if _, ParseException = lexer.Match('>'); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			if ParseException = this.ParametersParser.Parse(alertInfo); ParseException != nil {
diff --git a/sip/parser/AllowEventsParser.go b/sip/parser/AllowEventsParser.go
index f22555b..73eab1d 100644
--- a/sip/parser/AllowEventsParser.go
+++ b/sip/parser/AllowEventsParser.go
@@ -46,7 +46,9 @@ func (this *AllowEventsParser) Parse() (sh header.Header, ParseException error)
 	allowEvents.SetHeaderName(core.SIPHeaderNames_ALLOW_EVENTS)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 	allowEvents.SetEventType(token.GetTokenValue())
 
@@ -58,7 +60,9 @@ func (this *AllowEventsParser) Parse() (sh header.Header, ParseException error)
 		lexer.SPorHT()
 
 		allowEvents = header.NewAllowEvents()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
 		allowEvents.SetEventType(token.GetTokenValue())
 
diff --git a/sip/parser/AllowParser.go b/sip/parser/AllowParser.go
index 395c987..2e73776 100644
--- a/sip/parser/AllowParser.go
+++ b/sip/parser/AllowParser.go
@@ -46,7 +46,9 @@ func (this *AllowParser) Parse() (sh header.Header, ParseException error) {
 	allow.SetHeaderName(core.SIPHeaderNames_ALLOW)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 	allow.SetMethod(token.GetTokenValue())
 
@@ -57,7 +59,9 @@ func (this *AllowParser) Parse() (sh header.Header, ParseException error) {
 		lexer.SPorHT()
 
 		allow = header.NewAllow()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
 		allow.SetMethod(token.GetTokenValue())
 
diff --git a/sip/parser/CallInfoParser.go b/sip/parser/CallInfoParser.go
index a798f87..4560605 100644
--- a/sip/parser/CallInfoParser.go
+++ b/sip/parser/CallInfoParser.go
@@ -49,13 +49,17 @@ func (this *CallInfoParser) Parse() (sh header.Header, ParseException error) {
 		callInfo.SetHeaderName(core.SIPHeaderNames_CALL_INFO)
 
 		lexer.SPorHT()
-		lexer.Match('<')
+		if _, ParseException = lexer.Match('<'); ParseException != nil {
+			return nil, ParseException
+		}
 		urlParser := NewURLParserFromLexer(lexer)
 		if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 			return nil, ParseException
 		}
 		callInfo.SetInfo(uri)
-		lexer.Match('>')
+		if _, ParseException = lexer.Match('>'); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		this.ParametersParser.Parse(callInfo)
@@ -68,13 +72,17 @@ func (this *CallInfoParser) Parse() (sh header.Header, ParseException error) {
 			callInfo = header.NewCallInfo()
 
 			lexer.SPorHT()
-			lexer.Match('<')
+			if _, ParseException = lexer.Match('<'); ParseException != nil {
+				return nil, ParseException
+			}
 			urlParser = NewURLParserFromLexer(lexer)
 			if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 				return nil, ParseException
 			}
 			callInfo.SetInfo(uri)
-			lexer.Match('>')
+			if _, ParseException = lexer.Match('>'); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			this.ParametersParser.Parse(callInfo)
diff --git a/sip/parser/ChallengeParser.go b/sip/parser/ChallengeParser.go
index 4b273c4..b733f9e 100644
--- a/sip/parser/ChallengeParser.go
+++ b/sip/parser/ChallengeParser.go
@@ -59,7 +59,9 @@ func (this *ChallengeParser) Parse(h header.AuthorizationHeader) (ParseException
 	lexer := this.GetLexer()
 	// the Scheme:
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return ParseException
+	}
 	t := lexer.GetNextToken()
 	lexer.SPorHT()
 	h.SetScheme(t.GetTokenValue())
diff --git a/sip/parser/ContentDispositionParser.go b/sip/parser/ContentDispositionParser.go
index 018d5a0..fcbb284 100644
--- a/sip/parser/ContentDispositionParser.go
+++ b/sip/parser/ContentDispositionParser.go
@@ -42,7 +42,9 @@ func (this *ContentDispositionParser) Parse() (sh header.Header, ParseException
 	cd.SetHeaderName(core.SIPHeaderNames_CONTENT_DISPOSITION)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 
 	token := lexer.GetNextToken()
 	cd.SetDispositionType(token.GetTokenValue())
diff --git a/sip/parser/ContentEncodingParser.go b/sip/parser/ContentEncodingParser.go
index 558b19f..1338237 100644
--- a/sip/parser/ContentEncodingParser.go
+++ b/sip/parser/ContentEncodingParser.go
@@ -46,7 +46,9 @@ func (this *ContentEncodingParser) Parse() (sh header.Header, ParseException err
 		cl.SetHeaderName(core.SIPHeaderNames_CONTENT_ENCODING)
 
 		lexer.SPorHT()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 
 		token := lexer.GetNextToken()
 		cl.SetEncoding(token.GetTokenValue())
@@ -58,7 +60,9 @@ func (this *ContentEncodingParser) Parse() (sh header.Header, ParseException err
 			cl = header.NewContentEncoding()
 			lexer.Match(',')
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 			token = lexer.GetNextToken()
 			cl.SetEncoding(token.GetTokenValue())
diff --git a/sip/parser/ContentLanguageParser.go b/sip/parser/ContentLanguageParser.go
index aa526aa..42aa736 100644
--- a/sip/parser/ContentLanguageParser.go
+++ b/sip/parser/ContentLanguageParser.go
@@ -46,7 +46,9 @@ func (this *ContentLanguageParser) Parse() (sh header.Header, ParseException err
 		cl.SetHeaderName(core.SIPHeaderNames_CONTENT_LANGUAGE)
 
 		lexer.SPorHT()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 
 		token := lexer.GetNextToken()
 		cl.SetContentLanguage(token.GetTokenValue())
@@ -58,7 +60,9 @@ func (this *ContentLanguageParser) Parse() (sh header.Header, ParseException err
 			cl = header.NewContentLanguage()
 			lexer.Match(',')
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 			token = lexer.GetNextToken()
 			cl.SetContentLanguage(token.GetTokenValue())
diff --git a/sip/parser/ContentTypeParser.go b/sip/parser/ContentTypeParser.go
index d298c81..8b1380c 100644
--- a/sip/parser/ContentTypeParser.go
+++ b/sip/parser/ContentTypeParser.go
@@ -30,14 +30,20 @@ func (this *ContentTypeParser) Parse() (sh header.Header, ParseException error)
 	this.HeaderName(TokenTypes_CONTENT_TYPE)
 
 	// The type:
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	t := lexer.GetNextToken()
 	lexer.SPorHT()
 	contentType.SetContentType(t.GetTokenValue())
 
 	// The sub-type:
-	lexer.Match('/')
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match('/'); ParseException != nil {
+		return nil, ParseException
+	}
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	subType := lexer.GetNextToken()
 	lexer.SPorHT()
 	contentType.SetContentSubType(subType.GetTokenValue())
diff --git a/sip/parser/ErrorInfoParser.go b/sip/parser/ErrorInfoParser.go
index 12350e0..dee5d5e 100644
--- a/sip/parser/ErrorInfoParser.go
+++ b/sip/parser/ErrorInfoParser.go
@@ -51,13 +51,17 @@ func (this *ErrorInfoParser) Parse() (sh header.Header, ParseException error) {
 		errorInfo.SetHeaderName(core.SIPHeaderNames_ERROR_INFO)
 
 		lexer.SPorHT()
-		lexer.Match('<')
+		if _, ParseException = lexer.Match('<'); ParseException != nil {
+			return nil, ParseException
+		}
 		urlParser := NewURLParserFromLexer(lexer)
 		if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 			return nil, ParseException
 		}
 		errorInfo.SetErrorInfo(uri)
-		lexer.Match('>')
+		if _, ParseException = lexer.Match('>'); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		if ParseException = this.ParametersParser.Parse(errorInfo); ParseException != nil {
@@ -72,13 +76,17 @@ func (this *ErrorInfoParser) Parse() (sh header.Header, ParseException error) {
 			errorInfo = header.NewErrorInfo()
 
 			lexer.SPorHT()
-			lexer.Match('<')
+			if _, ParseException = lexer.Match('<'); ParseException != nil {
+				return nil, ParseException
+			}
 			urlParser = NewURLParserFromLexer(lexer)
 			if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 				return nil, ParseException
 			}
 			errorInfo.SetErrorInfo(uri)
-			lexer.Match('>')
+			if _, ParseException = lexer.Match('>'); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			if ParseException = this.ParametersParser.Parse(errorInfo); ParseException != nil {
diff --git a/sip/parser/EventParser.go b/sip/parser/EventParser.go
index e3a5375..96796cb 100644
--- a/sip/parser/EventParser.go
+++ b/sip/parser/EventParser.go
@@ -40,7 +40,9 @@ func (this *EventParser) Parse() (sh header.Header, ParseException error) {
 	lexer.SPorHT()
 
 	event := header.NewEvent()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 	value := token.GetTokenValue()
 
diff --git a/sip/parser/InReplyToParser.go b/sip/parser/InReplyToParser.go
index e28bba5..56ff7b4 100644
--- a/sip/parser/InReplyToParser.go
+++ b/sip/parser/InReplyToParser.go
@@ -44,11 +44,15 @@ func (this *InReplyToParser) Parse() (sh header.Header, ParseException error) {
 		inReplyTo := header.NewInReplyTo()
 		inReplyTo.SetHeaderName(core.SIPHeaderNames_IN_REPLY_TO)
 
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		if ch, _ = lexer.LookAheadK(0); ch == '@' {
 			lexer.Match('@')
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			secToken := lexer.GetNextToken()
 			inReplyTo.SetCallId(token.GetTokenValue() + "@" +
 				secToken.GetTokenValue())
@@ -66,11 +70,15 @@ func (this *InReplyToParser) Parse() (sh header.Header, ParseException error) {
 
 			inReplyTo = header.NewInReplyTo()
 
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			if ch, _ = lexer.LookAheadK(0); ch == '@' {
 				lexer.Match('@')
-				lexer.Match(TokenTypes_ID)
+				if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+					return nil, ParseException
+				}
 				secToken := lexer.GetNextToken()
 				inReplyTo.SetCallId(token.GetTokenValue() + "@" +
 					secToken.GetTokenValue())
diff --git a/sip/parser/PriorityParser.go b/sip/parser/PriorityParser.go
index 9c672be..8cfa0c5 100644
--- a/sip/parser/PriorityParser.go
+++ b/sip/parser/PriorityParser.go
@@ -42,7 +42,9 @@ func (this *PriorityParser) Parse() (sh header.Header, ParseException error) {
 	priority.SetHeaderName(core.SIPHeaderNames_PRIORITY)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 
 	priority.SetPriority(token.GetTokenValue())
diff --git a/sip/parser/ProxyRequireParser.go b/sip/parser/ProxyRequireParser.go
index 69fbaec..9aa9c20 100644
--- a/sip/parser/ProxyRequireParser.go
+++ b/sip/parser/ProxyRequireParser.go
@@ -45,7 +45,9 @@ func (this *ProxyRequireParser) Parse() (sh header.Header, ParseException error)
 		r.SetHeaderName(core.SIPHeaderNames_PROXY_REQUIRE)
 
 		// Parsing the option tag
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		r.SetOptionTag(token.GetTokenValue())
 		lexer.SPorHT()
@@ -59,7 +61,9 @@ func (this *ProxyRequireParser) Parse() (sh header.Header, ParseException error)
 			r = header.NewProxyRequire()
 
 			// Parsing the option tag
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			r.SetOptionTag(token.GetTokenValue())
 			lexer.SPorHT()
diff --git a/sip/parser/RAckParser.go b/sip/parser/RAckParser.go
index b0adc17..5688791 100644
--- a/sip/parser/RAckParser.go
+++ b/sip/parser/RAckParser.go
@@ -52,7 +52,9 @@ func (this *RAckParser) Parse() (sh header.Header, ParseException error) {
 	}
 	rack.SetCSeqNumber(number)
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 	rack.SetMethod(token.GetTokenValue())
 
diff --git a/sip/parser/ReasonParser.go b/sip/parser/ReasonParser.go
index c6ae3d8..03f7dfd 100644
--- a/sip/parser/ReasonParser.go
+++ b/sip/parser/ReasonParser.go
@@ -42,7 +42,9 @@ func (this *ReasonParser) Parse() (sh header.Header, ParseException error) {
 	lexer.SPorHT()
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		reason := header.NewReason()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		value := token.GetTokenValue()
 
diff --git a/sip/parser/RequireParser.go b/sip/parser/RequireParser.go
index d740287..c47eb90 100644
--- a/sip/parser/RequireParser.go
+++ b/sip/parser/RequireParser.go
@@ -45,7 +45,9 @@ func (this *RequireParser) Parse() (sh header.Header, ParseException error) {
 		r.SetHeaderName(core.SIPHeaderNames_REQUIRE)
 
 		// Parsing the option tag
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		r.SetOptionTag(token.GetTokenValue())
 		lexer.SPorHT()
@@ -59,7 +61,9 @@ func (this *RequireParser) Parse() (sh header.Header, ParseException error) {
 			r = header.NewRequire()
 
 			// Parsing the option tag
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			r.SetOptionTag(token.GetTokenValue())
 			lexer.SPorHT()
diff --git a/sip/parser/RetryAfterParser.go b/sip/parser/RetryAfterParser.go
index e865ef4..0348302 100644
--- a/sip/parser/RetryAfterParser.go
+++ b/sip/parser/RetryAfterParser.go
@@ -57,11 +57,15 @@ func (this *RetryAfterParser) Parse() (sh header.Header, ParseException error) {
 	for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
 		lexer.Match(';')
 		lexer.SPorHT()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		value := token.GetTokenValue()
 		if value == "duration" {
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			var duration int
@@ -71,9 +75,13 @@ func (this *RetryAfterParser) Parse() (sh header.Header, ParseException error) {
 			retryAfter.SetDuration(duration)
 		} else {
 			lexer.SPorHT()
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			secondToken := lexer.GetNextToken()
 			secondValue := secondToken.GetTokenValue()
 			retryAfter.SetParameter(value, secondValue)
diff --git a/sip/parser/SubscriptionStateParser.go b/sip/parser/SubscriptionStateParser.go
index 02848ee..e4c5c83 100644
--- a/sip/parser/SubscriptionStateParser.go
+++ b/sip/parser/SubscriptionStateParser.go
@@ -45,27 +45,39 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 	subscriptionState.SetHeaderName(core.SIPHeaderNames_SUBSCRIPTION_STATE)
 
 	// State:
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 	subscriptionState.SetState(token.GetTokenValue())
 
 	for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
 		lexer.Match(';')
 		lexer.SPorHT()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
 		value := token.GetTokenValue()
 		if strings.ToLower(value) == "reason" {
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			value = token.GetTokenValue()
 			subscriptionState.SetReasonCode(value)
 		} else if strings.ToLower(value) == "expires" {
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			value = token.GetTokenValue()
 
@@ -75,9 +87,13 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 			}
 			subscriptionState.SetExpires(expires)
 		} else if strings.ToLower(value) == "retry-after" {
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			value = token.GetTokenValue()
 
@@ -87,9 +103,13 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 			}
 			subscriptionState.SetRetryAfter(retryAfter)
 		} else {
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			secondToken := lexer.GetNextToken()
 			secondValue := secondToken.GetTokenValue()
 			subscriptionState.SetParameter(value, secondValue)
diff --git a/sip/parser/SupportedParser.go b/sip/parser/SupportedParser.go
index 893f2ab..c68e1b3 100644
--- a/sip/parser/SupportedParser.go
+++ b/sip/parser/SupportedParser.go
@@ -46,7 +46,9 @@ func (this *SupportedParser) Parse() (sh header.Header, ParseException error) {
 		supported.SetHeaderName(core.SIPHeaderNames_SUPPORTED)
 
 		// Parsing the option tag
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		supported.SetOptionTag(token.GetTokenValue())
 		lexer.SPorHT()
@@ -60,7 +62,9 @@ func (this *SupportedParser) Parse() (sh header.Header, ParseException error) {
 			supported = header.NewSupported()
 
 			// Parsing the option tag
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			supported.SetOptionTag(token.GetTokenValue())
 			lexer.SPorHT()
diff --git a/sip/parser/UnsupportedParser.go b/sip/parser/UnsupportedParser.go
index b5d2080..789edce 100644
--- a/sip/parser/UnsupportedParser.go
+++ b/sip/parser/UnsupportedParser.go
@@ -46,7 +46,9 @@ func (this *UnsupportedParser) Parse() (sh header.Header, ParseException error)
 		unsupported.SetHeaderName(core.SIPHeaderNames_UNSUPPORTED)
 
 		// Parsing the option tag
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		unsupported.SetOptionTag(token.GetTokenValue())
 		lexer.SPorHT()
@@ -60,7 +62,9 @@ func (this *UnsupportedParser) Parse() (sh header.Header, ParseException error)
 			unsupported = header.NewUnsupported()
 
 			// Parsing the option tag
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			unsupported.SetOptionTag(token.GetTokenValue())
 			lexer.SPorHT()
diff --git a/sip/parser/ViaParser.go b/sip/parser/ViaParser.go
index 1885fac..7edaa97 100644
--- a/sip/parser/ViaParser.go
+++ b/sip/parser/ViaParser.go
@@ -32,7 +32,9 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 
 	var protocolName, protocolVersion *core.Token
 	// The protocol
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return ParseException
+	}
 
 	if protocolName = lexer.GetNextToken(); protocolName.GetTokenValue() != "SIP" {
 		return this.CreateParseException("Protcoal Not Supported error")
@@ -40,9 +42,13 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 
 	lexer.SPorHT()
 	// consume the "/"
-	lexer.Match('/')
+	if _, ParseException = lexer.Match('/'); ParseException != nil {
+		return ParseException
+	}
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return ParseException
+	}
 	lexer.SPorHT()
 	if protocolVersion = lexer.GetNextToken(); protocolVersion.GetTokenValue() != "2.0" {
 		return this.CreateParseException("Version Not Supported error")
@@ -51,9 +57,13 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 	lexer.SPorHT()
 
 	// We consume the "/"
-	lexer.Match('/')
+	if _, ParseException = lexer.Match('/'); ParseException != nil {
+		return ParseException
+	}
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return ParseException
+	}
 	lexer.SPorHT()
 
 	transport := lexer.GetNextToken()
@@ -130,7 +140,9 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
  */
 func (this *ViaParser) NameValue() (nv *core.NameValue, ParseException error) {
 	lexer := this.GetLexer()
-	lexer.Match(core.CORELEXER_ID)
+	if _, ParseException = lexer.Match(core.CORELEXER_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	name := lexer.GetNextToken()
 
 	// eat white space.
@@ -154,7 +166,9 @@ func (this *ViaParser) NameValue() (nv *core.NameValue, ParseException error) {
 				}
 				quoted = true
 			} else {
-				lexer.Match(core.CORELEXER_ID)
+				if _, ParseException = lexer.Match(core.CORELEXER_ID); ParseException != nil {
+					return nil, ParseException
+				}
 				value := lexer.GetNextToken()
 				str = value.GetTokenValue()
 			}
diff --git a/sip/parser/WarningParser.go b/sip/parser/WarningParser.go
index 9326331..492ee0d 100644
--- a/sip/parser/WarningParser.go
+++ b/sip/parser/WarningParser.go
@@ -46,7 +46,9 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 		warning.SetHeaderName(core.SIPHeaderNames_WARNING)
 
 		// Parsing the 3digits code
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 
 		var code int
@@ -60,7 +62,9 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 		lexer.SPorHT()
 
 		// Parsing the agent
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
 		warning.SetAgent(token.GetTokenValue())
 		lexer.SPorHT()
@@ -82,7 +86,9 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 			warning = header.NewWarning()
 
 			// Parsing the 3digits code
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			tok := lexer.GetNextToken()
 
 			if code, ParseException = strconv.Atoi(tok.GetTokenValue()); ParseException != nil {
@@ -93,7 +99,9 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 			lexer.SPorHT()
 
 			// Parsing the agent
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			tok = lexer.GetNextToken()
 			warning.SetAgent(tok.GetTokenValue())
 			lexer.SPorHT()
-- 
2.43.0


From ec3be7643fda58d93190412acbe08f88f6bf2fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:23 +0000
Subject: [PATCH 002/159] fix: a sip URI looked for its user info in the rest
 of the header and ignored a bad host

---
 sip/parser/URLParser.go | 68 ++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 34 deletions(-)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index ed56f36..1006a6c 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/address"
-	"strings"
 )
 
 /** SIPParser For SIP and Tel URLs. Other kinds of URL's are handled by the
@@ -403,43 +402,44 @@ func (this *URLParser) TelURL() (telUrl *address.TelURLImpl, ParseException erro
 func (this *URLParser) SipURL() (sipurl *address.SipURIImpl, ParseException error) {
 	retval := address.NewSipURIImpl()
 
-	this.GetLexer().Match(TokenTypes_SIP)
-	this.GetLexer().Match(':')
+	if _, ParseException = this.GetLexer().Match(TokenTypes_SIP); ParseException != nil {
+		return nil, ParseException
+	}
+	if _, ParseException = this.GetLexer().Match(':'); ParseException != nil {
+		return nil, ParseException
+	}
 	retval.SetScheme(core.SIPTransportNames_SIP)
 
-	buffer := this.GetLexer().GetRest()
-	if n := strings.Index(buffer, "@"); n == -1 {
-		// hostPort
-		hnp := core.NewHostNameParserFromLexer(this.GetLexer())
-		hp, _ := hnp.GetHostPort()
-		retval.SetHostPort(hp)
-	} else {
-		var hp *core.HostPort
-		if n = strings.Index(buffer, ":"); n == -1 {
-			// name@hostPort
-			user, _ := this.User()
-			this.GetLexer().Match('@')
-			hnp := core.NewHostNameParserFromLexer(this.GetLexer())
-			if hp, ParseException = hnp.GetHostPort(); ParseException != nil {
-				return nil, ParseException
-			}
-			retval.SetUser(user)
-			retval.SetHostPort(hp)
-		} else {
-			user, _ := this.User()
-			// name:password@hostPort
-			this.GetLexer().Match(':')
-			password, _ := this.Password()
-			this.GetLexer().Match('@')
-			hnp := core.NewHostNameParserFromLexer(this.GetLexer())
-			if hp, ParseException = hnp.GetHostPort(); ParseException != nil {
-				return nil, ParseException
-			}
-			retval.SetUser(user)
-			retval.SetUserPassword(password)
-			retval.SetHostPort(hp)
+	// The user info part, if there is one, is what precedes an '@'.
+	start := this.GetLexer().MarkInputPosition()
+	user, _ := this.User()
+	password, hasPassword := "", false
+	if la, _ := this.GetLexer().LookAheadK(0); la == ':' {
+		this.GetLexer().ConsumeK(1)
+		password, _ = this.Password()
+		hasPassword = true
+	}
+	if la, _ := this.GetLexer().LookAheadK(0); la == '@' {
+		if user == "" {
+			return nil, this.CreateParseException("empty user")
 		}
+		this.GetLexer().ConsumeK(1)
+	} else {
+		this.GetLexer().RewindInputPosition(start)
+		user, hasPassword = "", false
+	}
+	hnp := core.NewHostNameParserFromLexer(this.GetLexer())
+	hp, ParseException := hnp.GetHostPort()
+	if ParseException != nil {
+		return nil, ParseException
+	}
+	if user != "" {
+		retval.SetUser(user)
+	}
+	if hasPassword {
+		retval.SetUserPassword(password)
 	}
+	retval.SetHostPort(hp)
 	this.GetLexer().SelectLexer("charLexer")
 	for this.GetLexer().HasMoreChars() {
 		if la, _ := this.GetLexer().LookAheadK(0); la != ';' {
-- 
2.43.0


From b64edd551a9b4f6ee745a38381ca9b7ea877e4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:26 +0000
Subject: [PATCH 003/159] fix: escapes in URI passwords and header values were
 not consumed

---
 sip/parser/URLParser.go | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index 1006a6c..0e36770 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -195,7 +195,7 @@ func (this *URLParser) Uric() string {
 func (this *URLParser) UricNoSlash() string {
 	la, _ := this.GetLexer().LookAheadK(0)
 	if this.IsEscaped() {
-		retval := this.GetLexer().CharAsString(3)
+		retval := this.GetLexer().NCharAsString(3)
 		this.GetLexer().ConsumeK(3)
 		return retval
 	} else if this.IsUnreserved(la) {
@@ -456,13 +456,15 @@ func (this *URLParser) SipURL() (sipurl *address.SipURIImpl, ParseException erro
 	if la, _ := this.GetLexer().LookAheadK(0); this.GetLexer().HasMoreChars() && la == '?' {
 		this.GetLexer().ConsumeK(1)
 		for this.GetLexer().HasMoreChars() {
-			parms, _ := this.Qheader()
+			var parms *core.NameValue
+			if parms, ParseException = this.Qheader(); ParseException != nil {
+				return nil, ParseException
+			}
 			retval.SetQHeader(parms)
-			if la, _ = this.GetLexer().LookAheadK(0); this.GetLexer().HasMoreChars() && la != '&' {
+			if la, _ = this.GetLexer().LookAheadK(0); la != '&' {
 				break
-			} else {
-				this.GetLexer().ConsumeK(1)
 			}
+			this.GetLexer().ConsumeK(1)
 		}
 	}
 	return retval, nil
@@ -481,8 +483,10 @@ func (this *URLParser) PeekScheme() (s string, ParseException error) {
  * after the ?).
  */
 func (this *URLParser) Qheader() (nv *core.NameValue, ParseException error) {
-	name, _ := this.GetLexer().GetNextTokenByDelim('=')
-	this.GetLexer().ConsumeK(1)
+	name, _ := this.Hvalue()
+	if _, ParseException = this.GetLexer().Match('='); ParseException != nil {
+		return nil, ParseException
+	}
 	value, _ := this.Hvalue()
 	return core.NewNameValue(name, value), nil
 
@@ -496,13 +500,14 @@ func (this *URLParser) Hvalue() (s string, ParseException error) {
 		if la == '+' || la == '?' || la == ':' ||
 			la == '[' || la == ']' || la == '/' || la == '$' ||
 			la == '_' || la == '-' || la == '"' || la == '!' ||
-			la == '~' || la == '*' || la == '.' || la == '(' ||
+			la == '\'' || la == '~' || la == '*' || la == '.' || la == '(' ||
 			la == ')' || this.GetLexer().IsAlpha(la) || this.GetLexer().IsDigit(la) {
 			this.GetLexer().ConsumeK(1)
 			retval.WriteByte(la)
-		} else if la == '%' {
-			str, _ := this.Escaped()
-			retval.WriteString(str)
+		} else if this.IsEscaped() {
+			esc := this.GetLexer().NCharAsString(3)
+			this.GetLexer().ConsumeK(3)
+			retval.WriteString(esc)
 		} else {
 			break
 		}
@@ -526,7 +531,7 @@ func (this *URLParser) UrlString() (s string, ParseException error) {
 			la == '>' || la == '<' {
 			break
 		}
-		this.GetLexer().ConsumeK(0)
+		this.GetLexer().ConsumeK(1)
 		retval.WriteByte(la)
 	}
 	return retval.String(), nil
@@ -562,6 +567,7 @@ func (this *URLParser) Password() (s string, ParseException error) {
 			this.GetLexer().ConsumeK(1)
 		} else if this.IsEscaped() {
 			esc := this.GetLexer().NCharAsString(3)
+			this.GetLexer().ConsumeK(3)
 			retval.WriteString(esc)
 		} else {
 			break
-- 
2.43.0


From 53febe2bb929b719e08ca5fa0973896d5b99c310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:59 +0000
Subject: [PATCH 004/159] fix: a malformed telephone number crashed the parser
 and a second parameter was rejected

---
 sip/parser/URLParser.go | 57 ++++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 20 deletions(-)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index 0e36770..6c6a418 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -274,6 +274,9 @@ func (this *URLParser) Base_phone_number() (s string, ParseException error) {
 			return "", this.CreateParseException("unexpected " + string(w))
 		}
 	}
+	if lc == 0 {
+		return "", this.CreateParseException("empty phone number")
+	}
 	return retval.String(), nil
 }
 
@@ -297,6 +300,9 @@ func (this *URLParser) Local_number() (s string, ParseException error) {
 			return "", this.CreateParseException("unexepcted " + string(la))
 		}
 	}
+	if lc == 0 {
+		return "", this.CreateParseException("empty phone number")
+	}
 	return retval.String(), nil
 }
 
@@ -305,36 +311,39 @@ func (this *URLParser) Local_number() (s string, ParseException error) {
  *@return the parsed telephone number.
  */
 func (this *URLParser) ParseTelephoneNumber() (tn *address.TelephoneNumber, ParseException error) {
-	tn = address.NewTelephoneNumber()
-
 	this.GetLexer().SelectLexer("charLexer")
 
 	c, _ := this.GetLexer().LookAheadK(0)
 	if c == '+' {
-		tn, _ = this.Global_phone_number()
+		return this.Global_phone_number()
 	} else if this.GetLexer().IsAlpha(c) || this.GetLexer().IsDigit(c) ||
 		c == '-' || c == '*' || c == '.' ||
 		c == '(' || c == ')' || c == '#' {
-		tn, _ = this.Local_phone_number()
-	} else {
-		return nil, this.CreateParseException("unexpected char " + string(c))
+		return this.Local_phone_number()
 	}
-
-	return tn, nil
+	return nil, this.CreateParseException("unexpected char " + string(c))
 }
 
 func (this *URLParser) Global_phone_number() (tn *address.TelephoneNumber, ParseException error) {
 	tn = address.NewTelephoneNumber()
 	tn.SetGlobal(true)
 
-	this.GetLexer().Match(core.CORELEXER_PLUS)
-	b, _ := this.Base_phone_number()
+	if _, ParseException = this.GetLexer().Match(core.CORELEXER_PLUS); ParseException != nil {
+		return nil, ParseException
+	}
+	var b string
+	if b, ParseException = this.Base_phone_number(); ParseException != nil {
+		return nil, ParseException
+	}
 	tn.SetPhoneNumber(b)
 	if this.GetLexer().HasMoreChars() {
 		tok, _ := this.GetLexer().LookAheadK(0)
 		if tok == ';' {
 			this.GetLexer().ConsumeK(1)
-			nv, _ := this.Tel_parameters()
+			var nv *core.NameValueList
+			if nv, ParseException = this.Tel_parameters(); ParseException != nil {
+				return nil, ParseException
+			}
 			tn.SetParameters(nv)
 		}
 	}
@@ -344,16 +353,20 @@ func (this *URLParser) Global_phone_number() (tn *address.TelephoneNumber, Parse
 func (this *URLParser) Local_phone_number() (tn *address.TelephoneNumber, ParseException error) {
 	tn = address.NewTelephoneNumber()
 	tn.SetGlobal(false)
-	b, _ := this.Local_number()
+	var b string
+	if b, ParseException = this.Local_number(); ParseException != nil {
+		return nil, ParseException
+	}
 	tn.SetPhoneNumber(b)
 	if this.GetLexer().HasMoreChars() {
-		tok, _ := this.GetLexer().PeekNextToken()
-		switch tok.GetTokenType() {
-		case TokenTypes_SEMICOLON:
+		tok, _ := this.GetLexer().LookAheadK(0)
+		if tok == ';' {
 			this.GetLexer().ConsumeK(1)
-			nv, _ := this.Tel_parameters()
+			var nv *core.NameValueList
+			if nv, ParseException = this.Tel_parameters(); ParseException != nil {
+				return nil, ParseException
+			}
 			tn.SetParameters(nv)
-		default:
 		}
 	}
 	return tn, nil
@@ -369,7 +382,7 @@ func (this *URLParser) Tel_parameters() (nvl *core.NameValueList, ParseException
 		nvList.AddNameValue(nv)
 		tok, _ := this.GetLexer().LookAheadK(0)
 		if tok == ';' {
-			continue
+			this.GetLexer().ConsumeK(1)
 		} else {
 			break
 		}
@@ -381,8 +394,12 @@ func (this *URLParser) Tel_parameters() (nvl *core.NameValueList, ParseException
  *@return a parsed tel url structure.
  */
 func (this *URLParser) TelURL() (telUrl *address.TelURLImpl, ParseException error) {
-	this.GetLexer().Match(TokenTypes_TEL)
-	this.GetLexer().Match(':')
+	if _, ParseException = this.GetLexer().Match(TokenTypes_TEL); ParseException != nil {
+		return nil, ParseException
+	}
+	if _, ParseException = this.GetLexer().Match(':'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	var tn *address.TelephoneNumber
 	if tn, ParseException = this.ParseTelephoneNumber(); ParseException != nil {
-- 
2.43.0


From 240136a402e58a2157a9d398d0a43445ecdd3550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:00 +0000
Subject: [PATCH 005/159] fix: a URI without a scheme was accepted and crashed
 its user

---
 sip/parser/URLParser.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index 6c6a418..1b7eb7b 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -231,6 +231,9 @@ func (this *URLParser) UriReference() (url address.URI, ParseException error) {
 	vect, _ := this.GetLexer().PeekNextTokenK(2)
 	t1 := vect[0]
 	t2 := vect[1]
+	if t1 == nil || t2 == nil {
+		return nil, this.CreateParseException("Expecting a URI")
+	}
 
 	if t1.GetTokenType() == TokenTypes_SIP {
 		if t2.GetTokenType() == ':' {
@@ -250,7 +253,11 @@ func (this *URLParser) UriReference() (url address.URI, ParseException error) {
 		}
 	} else {
 		urlString := this.UricString()
-		retval = address.NewURIImpl(urlString)
+		uri := address.NewURIImpl(urlString)
+		if uri == nil {
+			return nil, this.CreateParseException("Expecting a scheme")
+		}
+		retval = uri
 	}
 
 	return retval, nil
@@ -489,7 +496,7 @@ func (this *URLParser) SipURL() (sipurl *address.SipURIImpl, ParseException erro
 
 func (this *URLParser) PeekScheme() (s string, ParseException error) {
 	tokens, _ := this.GetLexer().PeekNextTokenK(1)
-	if len(tokens) == 0 {
+	if len(tokens) == 0 || tokens[0] == nil {
 		return "", nil
 	}
 	scheme := tokens[0].GetTokenValue()
-- 
2.43.0


From d11b4068bca5e334791beb8e0f5266cded1abdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:00 +0000
Subject: [PATCH 006/159] fix: a generic URI ended at '=', which RFC 2396
 reserves for use inside it

---
 sip/parser/URLParser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index 1b7eb7b..8b5239a 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -48,6 +48,7 @@ func (this *URLParser) IsReservedNoSlash(next byte) bool {
 		next == ':' ||
 		next == '@' ||
 		next == '&' ||
+		next == '=' ||
 		next == '+' ||
 		next == '$' ||
 		next == ','
@@ -123,6 +124,7 @@ func (this *URLParser) IsReserved(next byte) bool {
 		next == ':' ||
 		next == '@' ||
 		next == '&' ||
+		next == '=' ||
 		next == '+' ||
 		next == '$' ||
 		next == ','
-- 
2.43.0


From fb7c18a20884faa8846104b9a26cf5a79fabe60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:36 +0000
Subject: [PATCH 007/159] fix: ParseSIPUrl and ParseUrl panicked on a bad URI
 or one of another scheme

---
 sip/parser/StringMsgParser.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index 6e02cad..424163c 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -470,8 +470,15 @@ func (this *StringMsgParser) ParSetelephoneNumber(telephone_number string) (*add
  * @exception ParseException  if there was an error parsing the message.
  */
 func (this *StringMsgParser) ParseSIPUrl(url string) (*address.SipURIImpl, error) {
-	sipuri, err := NewURLParser(url).Parse()
-	return sipuri.(*address.SipURIImpl), err
+	uri, err := NewURLParser(url).Parse()
+	if err != nil {
+		return nil, err
+	}
+	sipuri, ok := uri.(*address.SipURIImpl)
+	if !ok {
+		return nil, errors.New("ParseException: not a SIP URI: " + url)
+	}
+	return sipuri, nil
 }
 
 /**
@@ -481,8 +488,14 @@ func (this *StringMsgParser) ParseSIPUrl(url string) (*address.SipURIImpl, error
  * @exception ParseException  if there was an error parsing the message.
  */
 func (this *StringMsgParser) ParseUrl(url string) (*address.URIImpl, error) {
-	guri, err := NewURLParser(url).Parse()
-	return guri.(*address.URIImpl), err
+	uri, err := NewURLParser(url).Parse()
+	if err != nil {
+		return nil, err
+	}
+	if guri, ok := uri.(*address.URIImpl); ok {
+		return guri, nil
+	}
+	return address.NewURIImpl(uri.String()), nil
 }
 
 /**
-- 
2.43.0


From 99f7a9d534bf8080d6b89635f8ce30c4bb576f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:46 +0000
Subject: [PATCH 008/159] fix: ParseSIPHeader always panicked, on a blank
 header too, and corrupted bytes above 0x7f

---
 sip/parser/StringMsgParser.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index 424163c..766c237 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -504,36 +504,38 @@ func (this *StringMsgParser) ParseUrl(url string) (*address.URIImpl, error) {
  * @return a SIPHeader structure.
  * @exception ParseException  if there was an error parsing the message.
  */
-func (this *StringMsgParser) ParseSIPHeader(h string) (*header.SIPHeader, error) {
+func (this *StringMsgParser) ParseSIPHeader(h string) (header.Header, error) {
 	var err error
 
 	h += "\n\n"
 	// Handle line folding.
-	var nmessage string
+	var nmessage bytes.Buffer
 	//counter := 0
 	// eat leading spaces and carriage returns (necessary??)
 	i := 0
-	for h[i] == '\n' || h[i] == '\t' || h[i] == ' ' {
+	for i < len(h) && (h[i] == '\r' || h[i] == '\n' || h[i] == '\t' || h[i] == ' ') {
 		i++
 	}
 	for ; i < len(h); i++ {
+		if h[i] == '\r' && i < len(h)-1 && h[i+1] == '\n' {
+			continue
+		}
 		if i < len(h)-1 && (h[i] == '\n' && (h[i+1] == '\t' || h[i+1] == ' ')) {
-			nmessage += " "
+			nmessage.WriteByte(' ')
 			i++
 		} else {
-			nmessage += string(h[i])
+			nmessage.WriteByte(h[i])
 		}
 	}
 
-	nmessage += "\n"
+	nmessage.WriteByte('\n')
 
 	var hp Parser
-	if hp, err = CreateParser(nmessage); err != nil {
+	if hp, err = CreateParser(nmessage.String()); err != nil {
 		return nil, err
 	}
 
-	shp, err := hp.Parse()
-	return shp.(*header.SIPHeader), err
+	return hp.Parse()
 }
 
 /**
-- 
2.43.0


From 79feb29a240227faef2df9dd2e200dd969e477fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:11 +0000
Subject: [PATCH 009/159] fix: Call-Info and Alert-Info panicked on a sip or
 tel URI

---
 sip/header/AlertInfoImpl.go | 4 ++--
 sip/header/CallInfoImpl.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sip/header/AlertInfoImpl.go b/sip/header/AlertInfoImpl.go
index b72f2b4..dbf11c9 100644
--- a/sip/header/AlertInfoImpl.go
+++ b/sip/header/AlertInfoImpl.go
@@ -14,7 +14,7 @@ type AlertInfo struct {
 
 	/** URI field
 	 */
-	uri *address.URIImpl
+	uri address.URI
 }
 
 /** Constructor
@@ -53,7 +53,7 @@ func (this *AlertInfo) EncodeBody() string {
  * @param u URI to set
  */
 func (this *AlertInfo) SetAlertInfo(uri address.URI) {
-	this.uri = uri.(*address.URIImpl)
+	this.uri = uri
 }
 
 /**
diff --git a/sip/header/CallInfoImpl.go b/sip/header/CallInfoImpl.go
index 11c4229..15f65fc 100644
--- a/sip/header/CallInfoImpl.go
+++ b/sip/header/CallInfoImpl.go
@@ -14,7 +14,7 @@ import (
 type CallInfo struct {
 	Parameters
 
-	info *address.URIImpl
+	info address.URI
 }
 
 /** Default constructor
@@ -80,5 +80,5 @@ func (this *CallInfo) SetPurpose(purpose string) error {
  * @param info is the URI to set.
  */
 func (this *CallInfo) SetInfo(info address.URI) {
-	this.info = info.(*address.URIImpl)
+	this.info = info
 }
-- 
2.43.0


From 7f22055f23994ec8460ed05177cf18b65de4a32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:11 +0000
Subject: [PATCH 010/159] fix: Route and Record-Route accepted a bad address
 and crashed when encoded

---
 sip/parser/RecordRouteParser.go | 4 +++-
 sip/parser/RouteParser.go       | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/sip/parser/RecordRouteParser.go b/sip/parser/RecordRouteParser.go
index f6e07b3..7a23280 100644
--- a/sip/parser/RecordRouteParser.go
+++ b/sip/parser/RecordRouteParser.go
@@ -41,7 +41,9 @@ func (this *RecordRouteParser) Parse() (sh header.Header, ParseException error)
 	lexer.SPorHT()
 	for {
 		recordRoute := header.NewRecordRoute()
-		this.AddressParametersParser.Parse(recordRoute)
+		if ParseException = this.AddressParametersParser.Parse(recordRoute); ParseException != nil {
+			return nil, ParseException
+		}
 		recordRouteList.PushBack(recordRoute)
 		lexer.SPorHT()
 		if ch, _ = lexer.LookAheadK(0); ch == ',' {
diff --git a/sip/parser/RouteParser.go b/sip/parser/RouteParser.go
index 03a8258..b715cad 100644
--- a/sip/parser/RouteParser.go
+++ b/sip/parser/RouteParser.go
@@ -42,7 +42,9 @@ func (this *RouteParser) Parse() (sh header.Header, ParseException error) {
 	lexer.SPorHT()
 	for {
 		route := header.NewRoute()
-		this.AddressParametersParser.Parse(route)
+		if ParseException = this.AddressParametersParser.Parse(route); ParseException != nil {
+			return nil, ParseException
+		}
 		routeList.PushBack(route)
 		lexer.SPorHT()
 		if ch, _ = lexer.LookAheadK(0); ch == ',' {
-- 
2.43.0


From 58693d75a6927380f573f6ab287b16e280223334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:12 +0000
Subject: [PATCH 011/159] fix: a name-addr without its angle brackets was
 accepted

---
 sip/parser/AddressParser.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sip/parser/AddressParser.go b/sip/parser/AddressParser.go
index ee6cfc6..b9fb593 100644
--- a/sip/parser/AddressParser.go
+++ b/sip/parser/AddressParser.go
@@ -58,7 +58,9 @@ func (this *AddressParser) NameAddr() (addr *address.AddressImpl, ParseException
 		addr.SetAddressType(address.NAME_ADDR)
 		addr.SetURI(uri)
 		lexer.SPorHT()
-		lexer.Match('>')
+		if _, ParseException = lexer.Match('>'); ParseException != nil {
+			return nil, ParseException
+		}
 		return addr, nil
 	} else {
 		addr = address.NewAddressImpl()
@@ -75,7 +77,9 @@ func (this *AddressParser) NameAddr() (addr *address.AddressImpl, ParseException
 			}
 		}
 		addr.SetDisplayName(strings.TrimSpace(name))
-		lexer.Match('<')
+		if _, ParseException = lexer.Match('<'); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 		uriParser := NewURLParserFromLexer(lexer)
 		if uri, ParseException = uriParser.UriReference(); ParseException != nil {
@@ -84,7 +88,9 @@ func (this *AddressParser) NameAddr() (addr *address.AddressImpl, ParseException
 		addr.SetAddressType(address.NAME_ADDR)
 		addr.SetURI(uri)
 		lexer.SPorHT()
-		lexer.Match('>')
+		if _, ParseException = lexer.Match('>'); ParseException != nil {
+			return nil, ParseException
+		}
 		return addr, nil
 	}
 }
-- 
2.43.0


From 492869b914fbb8b874589118580502a3cdda6709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:12 +0000
Subject: [PATCH 012/159] fix: a Server or User-Agent value starting with '/'
 crashed, and Server kept its line end

---
 sip/parser/ServerParser.go    | 4 ++--
 sip/parser/UserAgentParser.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sip/parser/ServerParser.go b/sip/parser/ServerParser.go
index 911d84d..8cd0ffb 100644
--- a/sip/parser/ServerParser.go
+++ b/sip/parser/ServerParser.go
@@ -55,10 +55,10 @@ func (this *ServerParser) Parse() (sh header.Header, ParseException error) {
 			tok, ParseException = lexer.GetString('/')
 			if ParseException != nil {
 				tok = lexer.GetRest()
-				server.AddProductToken(tok)
+				server.AddProductToken(strings.TrimSpace(tok))
 				break
 			} else {
-				if tok[len(tok)-1] == '\n' {
+				if tok != "" && tok[len(tok)-1] == '\n' {
 					tok = strings.TrimSpace(tok)
 				}
 				server.AddProductToken(tok)
diff --git a/sip/parser/UserAgentParser.go b/sip/parser/UserAgentParser.go
index ff56946..9d5a0c6 100644
--- a/sip/parser/UserAgentParser.go
+++ b/sip/parser/UserAgentParser.go
@@ -59,7 +59,7 @@ func (this *UserAgentParser) Parse() (sh header.Header, ParseException error) {
 				userAgent.AddProductToken(strings.TrimSpace(tok))
 				break
 			} else {
-				if tok[len(tok)-1] == '\n' {
+				if tok != "" && tok[len(tok)-1] == '\n' {
 					tok = strings.TrimSpace(tok)
 				}
 				userAgent.AddProductToken(tok)
-- 
2.43.0


From deac79f17ab148a6508ed1d3176a10f884bd918b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:37 +0000
Subject: [PATCH 013/159] fix: peeking past the end of the input reported
 success and gave a nil token

---
 core/CoreLexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/CoreLexer.go b/core/CoreLexer.go
index d98986b..8b8fa20 100644
--- a/core/CoreLexer.go
+++ b/core/CoreLexer.go
@@ -175,8 +175,8 @@ func (coreLexer *CoreLexer) PeekNextTokenK(ntokens int) ([]*Token, error) {
 				tok.tokenType = CORELEXER_ID
 			}
 		} else {
-			nextChar, err := coreLexer.GetNextChar()
-			if err != nil {
+			var nextChar byte
+			if nextChar, err = coreLexer.GetNextChar(); err != nil {
 				break
 			}
 			tok.tokenValue += string(nextChar)
-- 
2.43.0


From 3df782fb97fd0725122684c65326298e9d50a5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:17 +0000
Subject: [PATCH 014/159] fix: message framing missed LF-only empty lines, cut
 headers after a blank line and crashed on short input

---
 sip/parser/StringMsgParser.go | 103 +++++++++-------------------------
 1 file changed, 26 insertions(+), 77 deletions(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index 766c237..d833759 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -181,97 +181,47 @@ func (this *StringMsgParser) ParseSIPMessageFromByte(msgBuffer []byte) (message.
 		return nil, nil
 	}
 
-	// Find the end of the SIP message.
-	var f int
-	for f = s; f < len(msgBuffer)-4; f++ {
-		if msgBuffer[f] == '\r' &&
-			msgBuffer[f+1] == '\n' &&
-			msgBuffer[f+2] == '\r' &&
-			msgBuffer[f+3] == '\n' {
-			break
+	// Find the end of the SIP message: the first empty line.
+	f := len(msgBuffer)
+	for k := s; k < len(msgBuffer); k++ {
+		if msgBuffer[k] != '\n' {
+			continue
 		}
-	}
-	if f < len(msgBuffer) {
-		f += 4
-	} else {
-		// Could not find CRLFCRLF end of message so look for LFLF
-		for f = s; f < len(msgBuffer)-2; f++ {
-			if msgBuffer[f] == '\n' &&
-				msgBuffer[f+1] == '\n' {
-				break
-			}
+		if k+1 < len(msgBuffer) && msgBuffer[k+1] == '\n' {
+			f = k + 2
+			break
 		}
-		if f < len(msgBuffer) {
-			f += 2
-		} else {
-			return nil, errors.New("ParseException: Message not terminated")
+		if k+2 < len(msgBuffer) && msgBuffer[k+1] == '\r' && msgBuffer[k+2] == '\n' {
+			f = k + 3
+			break
 		}
 	}
 
-	// Encode the body as a UTF-8 string.
-	var messageString string
-	messageString = string(msgBuffer[s:f]) //, "UTF-8");
-
 	this.bufferPointer = f
-	message := []byte(messageString)
-	length := len(message)
-	// Get rid of CR to make it uniform for the parser.
-	for k := 0; k < length; k++ {
-		if message[k] == '\r' {
-			copy(message[k:length-1], message[k+1:length])
-			length--
-		}
-	}
 
-	// The following can be written more efficiently in a single pass
-	// but it is somewhat tricky.
-	tokenizer := core.NewStringTokenizer(string(message[:length]))
+	// Get rid of CR to make it uniform for the parser, ignore blank lines
+	// with leading spaces or tabs, and handle continuations: a line that
+	// starts with a space or a tab belongs to the previous line.
 	var cooked_message bytes.Buffer
-
-	for tokenizer.HasMoreChars() {
-		nexttok := tokenizer.NextToken()
-		// Ignore blank lines with leading spaces or tabs.
-		if strings.TrimSpace(nexttok) == "" {
-			cooked_message.WriteString("\n")
-		} else {
-			cooked_message.WriteString(nexttok)
+	messageString := strings.Replace(string(msgBuffer[s:f]), "\r", "", -1)
+	for _, line := range strings.Split(messageString, "\n") {
+		if strings.TrimSpace(line) == "" {
+			continue
 		}
-	}
-
-	message1 := cooked_message.String()
-	length = strings.Index(message1, "\n\n") + 2
-
-	// Handle continuations - look for a space or a tab at the start
-	// of the line and append it to the previous line.
-	var cooked_message1 bytes.Buffer
-	for k := 0; k < length-1; {
-		if message1[k] == '\n' {
-			if message1[k+1] == '\t' || message1[k+1] == ' ' {
-				k++
-				k++
-				if k == length {
-					break
-				} else {
-					continue
-				}
+		if cooked_message.Len() > 0 {
+			if line[0] == ' ' || line[0] == '\t' {
+				line = line[1:]
 			} else {
-				cooked_message1.WriteByte(message1[k])
-			}
-
-			if message1[k+1] == '\n' {
-				cooked_message1.WriteByte('\n')
+				cooked_message.WriteByte('\n')
 			}
-		} else {
-			cooked_message1.WriteByte(message1[k])
 		}
-		k++
+		cooked_message.WriteString(line)
 	}
-	cooked_message1.WriteString("\n\n")
-	cooked_message1.WriteString(message1[length:])
+	cooked_message.WriteString("\n\n")
 
 	// Separate the string out into substrings for
 	// error reporting.
-	this.currentMessage = cooked_message1.String()
+	this.currentMessage = cooked_message.String()
 
 	sipmsg, err := this.ParseMessage(this.currentMessage)
 	if err != nil {
@@ -281,9 +231,8 @@ func (this *StringMsgParser) ParseSIPMessageFromByte(msgBuffer []byte) (message.
 	if this.readBody && sipmsg.GetContentLength() != nil && sipmsg.GetContentLength().GetContentLength() != 0 {
 		this.contentLength = sipmsg.GetContentLength().GetContentLength()
 
-		endIndex := this.bufferPointer + this.contentLength
 		// guard against bad specifications.
-		if endIndex > len(this.currentMessageBytes) {
+		if this.contentLength > len(this.currentMessageBytes)-this.bufferPointer {
 			return nil, errors.New("Content Length Larger Than Message")
 		}
 
-- 
2.43.0


From bba5dde3bb216470d5eaf1be7f2afa2b8d18e301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:17 +0000
Subject: [PATCH 015/159] fix: a header a ParseExceptionListener chose to
 ignore crashed the parser

---
 sip/parser/StringMsgParser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index d833759..2793e9c 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -336,6 +336,7 @@ func (this *StringMsgParser) ParseMessage(currentMessage string) (message.Messag
 				if err = this.parseExceptionListener.HandleException(err, sipmsg, hdrstring, currentMessage); err != nil {
 					return nil, err
 				}
+				continue
 			} else {
 				return nil, err
 			}
@@ -347,6 +348,7 @@ func (this *StringMsgParser) ParseMessage(currentMessage string) (message.Messag
 				if err = this.parseExceptionListener.HandleException(err, sipmsg, hdrstring, currentMessage); err != nil {
 					return nil, err
 				}
+				continue
 			} else {
 				return nil, err
 			}
-- 
2.43.0


From 3028ad81b0772709202338e48851c3b58fc41a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:17 +0000
Subject: [PATCH 016/159] fix: an unterminated or escaped Via comment hung or
 crashed the parser

---
 sip/parser/ViaParser.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/sip/parser/ViaParser.go b/sip/parser/ViaParser.go
index 7edaa97..6fb004c 100644
--- a/sip/parser/ViaParser.go
+++ b/sip/parser/ViaParser.go
@@ -109,23 +109,21 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 
 		var comment bytes.Buffer
 		for {
-			ch, _ := lexer.LookAheadK(0)
+			ch, err := lexer.LookAheadK(0)
+			if err != nil || ch == '\n' {
+				return this.CreateParseException("unterminated comment")
+			}
+			lexer.ConsumeK(1)
 			if ch == ')' {
-				lexer.ConsumeK(1)
 				break
-			} else if ch == '\\' {
+			}
+			comment.WriteByte(ch)
+			if ch == '\\' {
 				// Escaped character
-				tok := lexer.GetNextToken()
-				comment.WriteString(tok.GetTokenValue())
-				lexer.ConsumeK(1)
-				tok = lexer.GetNextToken()
-				comment.WriteString(tok.GetTokenValue())
-				lexer.ConsumeK(1)
-			} else if ch == '\n' {
-				break
-			} else {
-				comment.WriteByte(ch)
-				lexer.ConsumeK(1)
+				if ch, err = lexer.LookAheadK(0); err == nil && ch != '\n' {
+					lexer.ConsumeK(1)
+					comment.WriteByte(ch)
+				}
 			}
 		}
 		v.SetComment(comment.String())
@@ -204,6 +202,8 @@ func (this *ViaParser) Parse() (sh header.Header, ParseException error) {
 		if la, _ := lexer.LookAheadK(0); la == ',' {
 			lexer.ConsumeK(1) // Consume the comma
 			lexer.SPorHT()    // Ignore space after.
+		} else if la != '\n' {
+			return nil, this.CreateParseException("expecting ','")
 		}
 		if la, _ := lexer.LookAheadK(0); la == '\n' {
 			break
-- 
2.43.0


From 3cefeaeb7bc0a9b5f6773c15054ffc3112c122ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:56 +0000
Subject: [PATCH 017/159] fix: an encoded Via with a comment and parameters
 could not be parsed back

---
 sip/parser/ViaParser.go | 43 +++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/sip/parser/ViaParser.go b/sip/parser/ViaParser.go
index 6fb004c..db6d7c8 100644
--- a/sip/parser/ViaParser.go
+++ b/sip/parser/ViaParser.go
@@ -87,23 +87,11 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 	// Ignore blanks
 	lexer.SPorHT()
 
-	var la byte
-	for la, _ = lexer.LookAheadK(0); la == ';'; la, _ = lexer.LookAheadK(0) {
-		lexer.Match(';')
-		lexer.SPorHT()
-
-		var nameValue *core.NameValue
-		if nameValue, ParseException = this.NameValue(); ParseException != nil {
-			return ParseException
-		}
-
-		name := nameValue.GetName()
-		nameValue.SetName(strings.ToLower(name))
-		v.SetParameterFromNameValue(nameValue)
-		lexer.SPorHT()
+	if ParseException = this.parseViaParameters(v); ParseException != nil {
+		return ParseException
 	}
 
-	if la, _ = lexer.LookAheadK(0); la == '(' {
+	if la, _ := lexer.LookAheadK(0); la == '(' {
 		lexer.SelectLexer("charLexer")
 		lexer.ConsumeK(1)
 
@@ -127,12 +115,37 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 			}
 		}
 		v.SetComment(comment.String())
+
+		// A Via is encoded with its comment before its parameters.
+		lexer.SPorHT()
+		return this.parseViaParameters(v)
 	}
 
 	return nil
 
 }
 
+func (this *ViaParser) parseViaParameters(v *header.Via) (ParseException error) {
+	lexer := this.GetLexer()
+
+	var la byte
+	for la, _ = lexer.LookAheadK(0); la == ';'; la, _ = lexer.LookAheadK(0) {
+		lexer.Match(';')
+		lexer.SPorHT()
+
+		var nameValue *core.NameValue
+		if nameValue, ParseException = this.NameValue(); ParseException != nil {
+			return ParseException
+		}
+
+		name := nameValue.GetName()
+		nameValue.SetName(strings.ToLower(name))
+		v.SetParameterFromNameValue(nameValue)
+		lexer.SPorHT()
+	}
+	return nil
+}
+
 /** Overrides the superclass nameValue parser because
 * we have to tolerate IPV6 addresses in the received parameter.
  */
-- 
2.43.0


From e903ab11f10a570f938a8e4840e7393c200c51db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:58 +0000
Subject: [PATCH 018/159] fix: a parameter encoded with an empty value could
 not be parsed back, and an unterminated quote was accepted

---
 core/CoreParser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/CoreParser.go b/core/CoreParser.go
index 7aa0595..15d2686 100644
--- a/core/CoreParser.go
+++ b/core/CoreParser.go
@@ -53,9 +53,11 @@ func (coreParser *CoreParser) NameValue(separator byte) (nv *NameValue, ParseExc
 		var str string
 
 		if la, err = coreParser.lexer.LookAheadK(0); la == '"' && err == nil {
-			str, _ = coreParser.lexer.QuotedString()
+			if str, ParseException = coreParser.lexer.QuotedString(); ParseException != nil {
+				return nil, ParseException
+			}
 			quoted = true
-		} else {
+		} else if err == nil && la != ';' && la != ',' && la != '\n' {
 			if _, ParseException = coreParser.lexer.Match(CORELEXER_ID); ParseException != nil {
 				return nil, ParseException
 			}
-- 
2.43.0


From 643c137cc546a6d1a5e0652befd210f133096f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:28 +0000
Subject: [PATCH 019/159] fix: accessors of a header a message does not have
 panicked or returned a non-nil nil

---
 sip/message/SIPMessage.go  | 160 ++++++++++++++++++++++++++++---------
 sip/message/SIPRequest.go  |  20 ++++-
 sip/message/SIPResponse.go |  14 +++-
 3 files changed, 152 insertions(+), 42 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 2a05d3a..1dab216 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -775,10 +775,7 @@ func (this *SIPMessage) RemoveHeader(headerName string) {
  *	the same computed transaction identifier).
  */
 func (this *SIPMessage) GetTransactionId() string {
-	var topVia *header.Via
-	if this.GetViaHeaders().Len() > 0 {
-		topVia = this.GetViaHeaders().Front().Value.(*header.Via)
-	}
+	topVia := this.GetTopmostVia()
 	// Have specified a branch Identifier so we can use it to identify
 	// the transaction. BranchId is not case sensitive.
 	// Branch Id prefix is not case sensitive.
@@ -793,20 +790,21 @@ func (this *SIPMessage) GetTransactionId() string {
 		// Old style client so construct the transaction identifier
 		// from various fields of the request.
 		var retval bytes.Buffer
-		from := this.GetFrom().(*header.From)
-		to := this.GetTo().(*header.To)
-		hpFrom := from.GetUserAtHostPort()
-		retval.WriteString(hpFrom + ":")
-		if from.HasTag() {
-			retval.WriteString(from.GetTag() + ":")
+		if this.fromHeader != nil {
+			retval.WriteString(this.fromHeader.GetUserAtHostPort() + ":")
+			if this.fromHeader.HasTag() {
+				retval.WriteString(this.fromHeader.GetTag() + ":")
+			}
+		}
+		if this.toHeader != nil {
+			retval.WriteString(this.toHeader.GetUserAtHostPort() + ":")
+		}
+		retval.WriteString(this.GetCallIdentifier() + ":")
+		if this.cSeqHeader != nil {
+			retval.WriteRune(rune(this.cSeqHeader.GetSequenceNumber()))
+			retval.WriteString(":" + this.cSeqHeader.GetMethod())
 		}
-		hpTo := to.GetUserAtHostPort()
-		retval.WriteString(hpTo + ":")
-		cid := this.callIdHeader.GetCallId()
-		retval.WriteString(cid + ":")
-		retval.WriteRune(rune(this.cSeqHeader.GetSequenceNumber()))
-		retval.WriteString(":" + this.cSeqHeader.GetMethod())
-		if topVia != nil {
+		if topVia != nil && topVia.GetSentBy() != nil {
 			retval.WriteString(":" + topVia.GetSentBy().String())
 			if !topVia.GetSentBy().HasPort() {
 				retval.WriteString(":")
@@ -855,13 +853,20 @@ func (this *SIPMessage) GetHeader(headerName string) header.Header {
  *@return contentType header
  */
 func (this *SIPMessage) GetContentTypeHeader() header.ContentTypeHeader {
-	return this.GetHeader(core.SIPHeaderNames_CONTENT_TYPE).(header.ContentTypeHeader)
+	h, ok := this.GetHeader(core.SIPHeaderNames_CONTENT_TYPE).(header.ContentTypeHeader)
+	if !ok {
+		return nil
+	}
+	return h
 }
 
 /** Get the from header.
  *@return -- the from header.
  */
 func (this *SIPMessage) GetFrom() header.FromHeader {
+	if this.fromHeader == nil {
+		return nil
+	}
 	return this.fromHeader
 }
 
@@ -870,7 +875,11 @@ func (this *SIPMessage) GetFrom() header.FromHeader {
  * @return List containing ErrorInfo headers.
  */
 func (this *SIPMessage) GetErrorInfoHeaders() *header.ErrorInfoList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_ERROR_INFO).(*header.ErrorInfoList)
+	h, ok := this.GetSIPHeaderList(core.SIPHeaderNames_ERROR_INFO).(*header.ErrorInfoList)
+	if !ok {
+		return nil
+	}
+	return h
 }
 
 /**
@@ -878,7 +887,11 @@ func (this *SIPMessage) GetErrorInfoHeaders() *header.ErrorInfoList {
  * @return List containing Contact headers.
  */
 func (this *SIPMessage) GetContactHeaders() *header.ContactList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_CONTACT).(*header.ContactList)
+	h, ok := this.GetSIPHeaderList(core.SIPHeaderNames_CONTACT).(*header.ContactList)
+	if !ok {
+		return nil
+	}
+	return h
 }
 
 /**
@@ -886,7 +899,11 @@ func (this *SIPMessage) GetContactHeaders() *header.ContactList {
  * @return List containing Via headers.
  */
 func (this *SIPMessage) GetViaHeaders() *header.ViaList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_VIA).(*header.ViaList)
+	h, ok := this.GetSIPHeaderList(core.SIPHeaderNames_VIA).(*header.ViaList)
+	if !ok {
+		return nil
+	}
+	return h
 }
 
 /** Get an iterator to the list of vial headers.
@@ -921,11 +938,11 @@ func (this *SIPMessage) SetHeaderFromSIPHeaderList(sipHeaderList header.SIPHeade
  *@return the top most via header if one exists or nil if none exists.
  */
 func (this *SIPMessage) GetTopmostVia() *header.Via {
-	if this.GetViaHeaders() == nil {
+	vias := this.GetViaHeaders()
+	if vias == nil || vias.Len() == 0 {
 		return nil
-	} else {
-		return this.GetViaHeaders().Front().Value.(*header.Via)
 	}
+	return vias.Front().Value.(*header.Via)
 }
 
 /**
@@ -933,13 +950,19 @@ func (this *SIPMessage) GetTopmostVia() *header.Via {
  * @return CSeq header
  */
 func (this *SIPMessage) GetCSeq() header.CSeqHeader {
+	if this.cSeqHeader == nil {
+		return nil
+	}
 	return this.cSeqHeader
 }
 
 /** Get the sequence number.
- * @return the sequence number.
+ * @return the sequence number, -1 if there is no CSeq header.
  */
 func (this *SIPMessage) GetCSeqNumber() int {
+	if this.cSeqHeader == nil {
+		return -1
+	}
 	return this.cSeqHeader.GetSequenceNumber()
 }
 
@@ -948,7 +971,11 @@ func (this *SIPMessage) GetCSeqNumber() int {
  * @return Authorization header.
  */
 func (this *SIPMessage) GetAuthorization() *header.Authorization {
-	return this.GetHeader(core.SIPHeaderNames_AUTHORIZATION).(*header.Authorization)
+	h, ok := this.GetHeader(core.SIPHeaderNames_AUTHORIZATION).(*header.Authorization)
+	if !ok {
+		return nil
+	}
+	return h
 }
 
 /**
@@ -956,6 +983,9 @@ func (this *SIPMessage) GetAuthorization() *header.Authorization {
  * @return Max-Forwards header
  */
 func (this *SIPMessage) GetMaxForwards() header.MaxForwardsHeader {
+	if this.maxForwardsHeader == nil {
+		return nil
+	}
 	return this.maxForwardsHeader
 }
 
@@ -971,7 +1001,11 @@ func (this *SIPMessage) SetMaxForwards(maxForwards header.MaxForwardsHeader) {
  * @return Min-Expires header
  */
 func (this *SIPMessage) GetMinExpires() *header.MinExpires {
-	return this.GetHeader(core.SIPHeaderNames_MIN_EXPIRES).(*header.MinExpires)
+	h, ok := this.GetHeader(core.SIPHeaderNames_MIN_EXPIRES).(*header.MinExpires)
+	if !ok {
+		return nil
+	}
+	return h
 }
 
 /** Set the min expires header.
@@ -987,7 +1021,11 @@ func (this *SIPMessage) SetMinExpiresHeader(minExpires header.MinExpiresHeader)
  * @return Orgnaization header.
  */
 func (this *SIPMessage) GetOrganizationHeader() *header.Organization {
-	return this.GetHeader(core.SIPHeaderNames_ORGANIZATION).(*header.Organization)
+	h, ok := this.GetHeader(core.SIPHeaderNames_ORGANIZATION).(*header.Organization)
+	if !ok {
+		return nil
+	}
+	return h
 }
 
 /**
@@ -995,7 +1033,11 @@ func (this *SIPMessage) GetOrganizationHeader() *header.Organization {
  * @return Priority header
  */
 func (this *SIPMessage) GetPriorityHeader() *header.Priority {
-	return this.GetHeader(core.SIPHeaderNames_PRIORITY).(*header.Priority)
+	h, ok := this.GetHeader(core.SIPHeaderNames_PRIORITY).(*header.Priority)
+	if !ok {
+		return nil
+	}
+	return h
 }
 
 /**
@@ -1003,7 +1045,11 @@ func (this *SIPMessage) GetPriorityHeader() *header.Priority {
  * @return List containing Proxy-Authorization headers.
  */
 func (this *SIPMessage) GetProxyAuthorizationHeader() *header.ProxyAuthorization {
-	return this.GetHeader(core.SIPHeaderNames_PROXY_AUTHORIZATION).(*header.ProxyAuthorization)
+	h, ok := this.GetHeader(core.SIPHeaderNames_PROXY_AUTHORIZATION).(*header.ProxyAuthorization)
+	if !ok {
+		return nil
+	}
+	return h
 }
 
 /**
@@ -1011,7 +1057,11 @@ func (this *SIPMessage) GetProxyAuthorizationHeader() *header.ProxyAuthorization
  * @return List containing Route headers
  */
 func (this *SIPMessage) GetRouteHeaders() *header.RouteList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_ROUTE).(*header.RouteList)
+	h, ok := this.GetSIPHeaderList(core.SIPHeaderNames_ROUTE).(*header.RouteList)
+	if !ok {
+		return nil
+	}
+	return h
 }
 
 /** Get the CallID header (nil if one does not exist)
@@ -1019,6 +1069,9 @@ func (this *SIPMessage) GetRouteHeaders() *header.RouteList {
  * @return Call-ID header .
  */
 func (this *SIPMessage) GetCallId() header.CallIdHeader {
+	if this.callIdHeader == nil {
+		return nil
+	}
 	return this.callIdHeader
 }
 
@@ -1051,6 +1104,9 @@ func (this *SIPMessage) SetCallIdFromString(callId string) { //throws java.text.
  *
  */
 func (this *SIPMessage) GetCallIdentifier() string {
+	if this.callIdHeader == nil {
+		return ""
+	}
 	return this.callIdHeader.GetCallId()
 }
 
@@ -1060,7 +1116,11 @@ func (this *SIPMessage) GetCallIdentifier() string {
  * @return Record-Route header
  */
 func (this *SIPMessage) GetRecordRouteHeaders() *header.RecordRouteList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_RECORD_ROUTE).(*header.RecordRouteList)
+	h, ok := this.GetSIPHeaderList(core.SIPHeaderNames_RECORD_ROUTE).(*header.RecordRouteList)
+	if !ok {
+		return nil
+	}
+	return h
 }
 
 /**
@@ -1068,6 +1128,9 @@ func (this *SIPMessage) GetRecordRouteHeaders() *header.RecordRouteList {
  * @return To header
  */
 func (this *SIPMessage) GetTo() header.ToHeader {
+	if this.toHeader == nil {
+		return nil
+	}
 	return this.toHeader
 }
 
@@ -1085,6 +1148,9 @@ func (this *SIPMessage) SetFrom(from header.FromHeader) {
  * @return content-length header.
  */
 func (this *SIPMessage) GetContentLength() header.ContentLengthHeader {
+	if this.contentLengthHeader == nil {
+		return nil
+	}
 	return this.contentLengthHeader
 }
 
@@ -1330,7 +1396,11 @@ func (this *SIPMessage) GetHeaders(headerName string) header.Lister {
 }
 
 func (this *SIPMessage) GetSIPHeaderList(headerName string) header.SIPHeaderLister {
-	return this.nameTable[strings.ToLower(headerName)].(header.SIPHeaderLister)
+	hl, ok := this.nameTable[strings.ToLower(headerName)].(header.SIPHeaderLister)
+	if !ok {
+		return nil
+	}
+	return hl
 }
 
 func (this *SIPMessage) GetHeaderList(headerName string) header.Lister {
@@ -1539,7 +1609,11 @@ func (this *SIPMessage) GetHeaderNames() *list.List {
  * @return the contentDisposition header
  */
 func (this *SIPMessage) GetContentDisposition() header.ContentDispositionHeader {
-	return this.GetHeader(core.SIPHeaderNames_CONTENT_DISPOSITION).(header.ContentDispositionHeader)
+	h, ok := this.GetHeader(core.SIPHeaderNames_CONTENT_DISPOSITION).(header.ContentDispositionHeader)
+	if !ok {
+		return nil
+	}
+	return h
 }
 
 /** Get the content encoding header.
@@ -1547,7 +1621,11 @@ func (this *SIPMessage) GetContentDisposition() header.ContentDispositionHeader
  *@return the contentEncoding header.
  */
 func (this *SIPMessage) GetContentEncoding() header.ContentEncodingHeader {
-	return this.GetHeader(core.SIPHeaderNames_CONTENT_ENCODING).(header.ContentEncodingHeader)
+	h, ok := this.GetHeader(core.SIPHeaderNames_CONTENT_ENCODING).(header.ContentEncodingHeader)
+	if !ok {
+		return nil
+	}
+	return h
 }
 
 /** Get the contentLanguage header.
@@ -1555,7 +1633,11 @@ func (this *SIPMessage) GetContentEncoding() header.ContentEncodingHeader {
  *@return the content language header.
  */
 func (this *SIPMessage) GetContentLanguage() header.ContentLanguageHeader {
-	return this.GetHeader(core.SIPHeaderNames_CONTENT_LANGUAGE).(header.ContentLanguageHeader)
+	h, ok := this.GetHeader(core.SIPHeaderNames_CONTENT_LANGUAGE).(header.ContentLanguageHeader)
+	if !ok {
+		return nil
+	}
+	return h
 }
 
 /** Get the exipres header.
@@ -1563,7 +1645,11 @@ func (this *SIPMessage) GetContentLanguage() header.ContentLanguageHeader {
  *@return the expires header or nil if one does not exist.
  */
 func (this *SIPMessage) GetExpires() header.ExpiresHeader {
-	return this.GetHeader(core.SIPHeaderNames_EXPIRES).(header.ExpiresHeader)
+	h, ok := this.GetHeader(core.SIPHeaderNames_EXPIRES).(header.ExpiresHeader)
+	if !ok {
+		return nil
+	}
+	return h
 }
 
 /** Set the expiresHeader
diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 9cf72f4..26ff2c6 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -175,7 +175,7 @@ func (this *SIPRequest) SetDefaults() {
 func (this *SIPRequest) SetRequestLineDefaults() {
 	method := this.requestLine.GetMethod()
 	if method == "" {
-		cseq := this.GetCSeq().(*header.CSeq)
+		cseq := this.GetCSeq()
 		if cseq != nil {
 			method = cseq.GetMethod()
 			this.requestLine.SetMethod(method)
@@ -340,6 +340,9 @@ func (this *SIPRequest) GetMessageAsEncodedStrings() *list.List {
 // *	and Set to false if this is the UAC
 // */
 func (this *SIPRequest) GetDialogId(isServer bool) string {
+	if this.GetCallId() == nil || this.GetFrom() == nil || this.GetTo() == nil {
+		return ""
+	}
 	cid := this.GetCallId()
 	from := this.GetFrom().(*header.From)
 	to := this.GetTo().(*header.To)
@@ -379,6 +382,9 @@ func (this *SIPRequest) GetDialogId(isServer bool) string {
 // /** Get a dialog id given the remote tag.
 // */
 func (this *SIPRequest) GetDialogId2(isServer bool, toTag string) string {
+	if this.GetCallId() == nil || this.GetFrom() == nil || this.GetTo() == nil {
+		return ""
+	}
 	cid := this.GetCallId()
 	from := this.GetFrom().(*header.From)
 	to := this.GetTo().(*header.To)
@@ -838,7 +844,10 @@ func (this *SIPRequest) CreateACKRequest() *SIPRequest {
 * header.
  */
 func (this *SIPRequest) GetViaHost() string {
-	via := this.GetViaHeaders().Front().Value.(*header.Via)
+	via := this.GetTopmostVia()
+	if via == nil {
+		return ""
+	}
 	return via.GetHost()
 }
 
@@ -849,8 +858,8 @@ func (this *SIPRequest) GetViaHost() string {
 *  no port indicated).
  */
 func (this *SIPRequest) GetViaPort() int {
-	via := this.GetViaHeaders().Front().Value.(*header.Via)
-	if via.HasPort() {
+	via := this.GetTopmostVia()
+	if via != nil && via.HasPort() {
 		return via.GetPort()
 	} else {
 		return 5060
@@ -887,6 +896,9 @@ func (this *SIPRequest) SetSIPVersion(sipVersion string) {
 *@return the SIP version from the request line.
  */
 func (this *SIPRequest) GetSIPVersion() string {
+	if this.requestLine == nil {
+		return ""
+	}
 	return this.requestLine.GetSipVersion()
 }
 
diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index 42caaaa..00b0d91 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -220,6 +220,9 @@ func (this *SIPResponse) GetStatusLine() *header.StatusLine {
 //     *@return the status code of the status line.
 //     */
 func (this *SIPResponse) GetStatusCode() int {
+	if this.statusLine == nil {
+		return 0
+	}
 	return this.statusLine.GetStatusCode()
 }
 
@@ -259,7 +262,7 @@ func (this *SIPResponse) IsFinalResponseFromInt(rc int) bool {
 //     *@return true if this is a final response.
 //     */
 func (this *SIPResponse) IsFinalResponse() bool {
-	return this.IsFinalResponseFromInt(this.statusLine.GetStatusCode())
+	return this.IsFinalResponseFromInt(this.GetStatusCode())
 }
 
 //    /**
@@ -477,6 +480,9 @@ func (this *SIPResponse) EncodeAsBytes() []byte {
 //     * and Set to false if this is the UAC
 //     */
 func (this *SIPResponse) GetDialogId(isServer bool) string {
+	if this.GetCallId() == nil || this.GetFrom() == nil || this.GetTo() == nil {
+		return ""
+	}
 	cid := this.GetCallId()
 	from := this.GetFrom().(*header.From)
 	to := this.GetTo().(*header.To)
@@ -513,6 +519,9 @@ func (this *SIPResponse) GetDialogId(isServer bool) string {
 }
 
 func (this *SIPResponse) GetDialogId2(isServer bool, toTag string) string {
+	if this.GetCallId() == nil || this.GetFrom() == nil || this.GetTo() == nil {
+		return ""
+	}
 	cid := this.GetCallId()
 	from := this.GetFrom().(*header.From)
 	to := this.GetTo().(*header.To)
@@ -626,5 +635,8 @@ func (this *SIPResponse) SetSIPVersion(sipVersion string) {
 }
 
 func (this *SIPResponse) GetSIPVersion() string {
+	if this.statusLine == nil {
+		return ""
+	}
 	return this.statusLine.GetSipVersion()
 }
-- 
2.43.0


From 820a52cd82deee2e5100143ef87c13053faeccc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:29 +0000
Subject: [PATCH 020/159] fix: the user@host:port of a sip address was the
 whole URI, and of a wildcard a panic

---
 sip/address/AddressImpl.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sip/address/AddressImpl.go b/sip/address/AddressImpl.go
index 83ae069..6395757 100644
--- a/sip/address/AddressImpl.go
+++ b/sip/address/AddressImpl.go
@@ -92,7 +92,10 @@ func (this *AddressImpl) GetPort() (int, error) {
  */
 func (this *AddressImpl) GetUserAtHostPort() string {
 	if sipuri, ok := this.address.(*SipURIImpl); ok {
-		sipuri.GetUserAtHostPort()
+		return sipuri.GetUserAtHostPort()
+	}
+	if this.address == nil {
+		return ""
 	}
 	return this.address.String()
 }
-- 
2.43.0


From b9bf43f052a394f4e94ef7f015ed34cc6685d7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:11 +0000
Subject: [PATCH 021/159] fix: a sip URI without a parameter or a part panicked
 when asked for it, and setting maddr or ttl panicked

---
 sip/address/SipURIImpl.go | 57 ++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index 075e3a3..2d54491 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -174,9 +174,11 @@ func (this *SipURIImpl) String() string {
  * @return user@host portion of the uri (null if none exists).
  */
 func (this *SipURIImpl) GetUserAtHost() string {
-	user := this.authority.GetUserInfo().GetUser()
-	host := this.authority.GetHost().String()
-	return user + core.SIPSeparatorNames_AT + host
+	host := this.GetHost()
+	if user := this.GetUser(); user != "" {
+		return user + core.SIPSeparatorNames_AT + host
+	}
+	return host
 }
 
 /**
@@ -184,12 +186,9 @@ func (this *SipURIImpl) GetUserAtHost() string {
  * @return user@host portion of the uri (null if none exists).
  */
 func (this *SipURIImpl) GetUserAtHostPort() string {
-	var user string
-	if this.authority.GetUserInfo() != nil {
-		user = this.authority.GetUserInfo().GetUser()
-	}
-	host := this.authority.GetHost().String()
-	port := this.authority.GetPort()
+	user := this.GetUser()
+	host := this.GetHost()
+	port := this.GetPort()
 	// If port not set assign the default.
 	var s bytes.Buffer
 	if user != "" {
@@ -219,7 +218,7 @@ func (this *SipURIImpl) GetParm(parmname string) interface{} {
  * @return Method parameter.
  */
 func (this *SipURIImpl) GetMethod() string {
-	return this.GetParm(core.SIPTransportNames_METHOD).(string)
+	return this.GetParameter(core.SIPTransportNames_METHOD)
 }
 
 /**
@@ -251,7 +250,7 @@ func (this *SipURIImpl) GetQheaders() *core.NameValueList {
  * @return User parameter (user= phone or user=ip).
  */
 func (this *SipURIImpl) GetUserType() string {
-	return this.uriParms.GetValue(core.SIPTransportNames_USER).(string)
+	return this.GetParameter(core.SIPTransportNames_USER)
 }
 
 /**
@@ -318,6 +317,9 @@ func (this *SipURIImpl) GetPort() int {
 * @return the host portion of the url.
  */
 func (this *SipURIImpl) GetHost() string {
+	if this.authority == nil || this.authority.GetHost() == nil {
+		return ""
+	}
 	return this.authority.GetHost().String()
 }
 
@@ -348,7 +350,7 @@ func (this *SipURIImpl) GetHost() string {
  * @return true if the user is a telephone subscriber.
  */
 func (this *SipURIImpl) IsUserTelephoneSubscriber() bool {
-	usrtype := this.uriParms.GetValue(core.SIPTransportNames_USER).(string)
+	usrtype := this.GetParameter(core.SIPTransportNames_USER)
 	if usrtype == "" {
 		return false
 	}
@@ -410,7 +412,9 @@ func (this *SipURIImpl) RemoveUserType() {
  *Remove the port setting.
  */
 func (this *SipURIImpl) RemovePort() {
-	this.authority.RemovePort()
+	if this.authority != nil {
+		this.authority.RemovePort()
+	}
 }
 
 /**
@@ -441,7 +445,9 @@ func (this *SipURIImpl) SetUser(uname string) {
 /** Remove the user.
  */
 func (this *SipURIImpl) RemoveUser() {
-	this.authority.RemoveUserInfo()
+	if this.authority != nil {
+		this.authority.RemoveUserInfo()
+	}
 }
 
 /** Set the default parameters for this URI.
@@ -508,9 +514,9 @@ func (this *SipURIImpl) SetMAddr(mAddr string) {
 	host := &core.Host{}
 	host.SetAddress(mAddr)
 	if nameValue != nil {
-		nameValue.SetValue(host)
+		nameValue.SetValue(host.String())
 	} else {
-		nameValue = core.NewNameValue(core.SIPTransportNames_MADDR, host)
+		nameValue = core.NewNameValue(core.SIPTransportNames_MADDR, host.String())
 		this.uriParms.AddNameValue(nameValue)
 	}
 }
@@ -677,11 +683,7 @@ func (this *SipURIImpl) GetLrParam() string {
  * @return the value of the <code>maddr</code> parameter
  */
 func (this *SipURIImpl) GetMAddrParam() string {
-	maddr := this.uriParms.GetNameValue(core.SIPTransportNames_MADDR)
-	if maddr == nil {
-		return ""
-	}
-	return maddr.GetValue().(string)
+	return this.GetParameter(core.SIPTransportNames_MADDR)
 }
 
 /** Returns the value of the <code>method</code> parameter, or null if this
@@ -735,8 +737,10 @@ func (this *SipURIImpl) GetParameterNames() *list.List {
  */
 func (this *SipURIImpl) GetTTLParam() int {
 	ttl := this.uriParms.GetValue("ttl")
-	if ttl != nil {
-		return ttl.(int)
+	if s, ok := ttl.(string); ok {
+		if n, err := strconv.Atoi(s); err == nil {
+			return n
+		}
 	}
 	return -1
 }
@@ -748,7 +752,7 @@ func (this *SipURIImpl) GetTTLParam() int {
  */
 func (this *SipURIImpl) GetTransportParam() string {
 	if this.uriParms != nil {
-		return this.uriParms.GetValue(core.SIPTransportNames_TRANSPORT).(string)
+		return this.GetParameter(core.SIPTransportNames_TRANSPORT)
 	}
 	return ""
 }
@@ -761,6 +765,9 @@ func (this *SipURIImpl) GetTransportParam() string {
  * @return the value of the <code>userParam</code> of the SipURI
  */
 func (this *SipURIImpl) GetUser() string {
+	if this.authority == nil {
+		return ""
+	}
 	return this.authority.GetUser()
 }
 
@@ -903,7 +910,7 @@ func (this *SipURIImpl) SetTTLParam(ttl int) error {
 	}
 	if this.uriParms != nil {
 		this.uriParms.Delete("ttl")
-		nv := core.NewNameValue("ttl", ttl)
+		nv := core.NewNameValue("ttl", strconv.Itoa(ttl))
 		this.uriParms.AddNameValue(nv)
 	}
 
-- 
2.43.0


From 7292a0dfce207058765ef8c04a264b37aca70ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:12 +0000
Subject: [PATCH 022/159] fix: a sip URI whose headers were cleared joined
 later ones with a semicolon

---
 sip/address/SipURIImpl.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index 2d54491..d14b9ed 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -93,6 +93,7 @@ func (this *SipURIImpl) GetAuthority() *Authority {
  */
 func (this *SipURIImpl) ClearQheaders() {
 	this.qheaders = core.NewNameValueList("qheaders")
+	this.qheaders.SetSeparator("&")
 }
 
 /**
@@ -397,6 +398,7 @@ func (this *SipURIImpl) RemoveHeader(name string) {
  */
 func (this *SipURIImpl) RemoveHeaders() {
 	this.qheaders = core.NewNameValueList("qheaders")
+	this.qheaders.SetSeparator("&")
 }
 
 /**
-- 
2.43.0


From 0e583d14af837c7885bf35b363066768156f538f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:13 +0000
Subject: [PATCH 023/159] fix: a sip URI parameter without a value was reported
 absent, and lr could be set twice

---
 sip/address/SipURIImpl.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index d14b9ed..e324ba0 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -574,7 +574,7 @@ func (this *SipURIImpl) SetPort(p int) {
  * @return a boolean indicating whether the parameter exists.
  */
 func (this *SipURIImpl) HasParameter(name string) bool {
-	return this.uriParms.GetValue(name) != nil
+	return this.uriParms.HasNameValue(name)
 }
 
 /** Set the query header when provided as a name-value pair.
@@ -825,7 +825,7 @@ func (this *SipURIImpl) SetHostString(host string) {
  * pre-existing route Set.
  */
 func (this *SipURIImpl) SetLrParam() {
-	if this.uriParms.GetValue("lr") != nil {
+	if this.HasLrParam() {
 		return
 	}
 	nv := core.NewNameValue("lr", nil)
-- 
2.43.0


From 606589a3d07a6c4bc03e4938d044b18bd2fe2cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:15 +0000
Subject: [PATCH 024/159] fix: a telephone number without a post dial or
 subaddress panicked when asked for it

---
 sip/address/TelphoneNumber.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sip/address/TelphoneNumber.go b/sip/address/TelphoneNumber.go
index 0f5bcca..a329ceb 100644
--- a/sip/address/TelphoneNumber.go
+++ b/sip/address/TelphoneNumber.go
@@ -49,7 +49,7 @@ func (this *TelephoneNumber) GetPhoneNumber() string {
  * @return String
  */
 func (this *TelephoneNumber) GetPostDial() string {
-	return this.parms.GetValue(core.SIPTransportNames_POSTDIAL).(string)
+	return this.GetParameter(core.SIPTransportNames_POSTDIAL)
 }
 
 /**
@@ -57,14 +57,14 @@ func (this *TelephoneNumber) GetPostDial() string {
  * @return String
  */
 func (this *TelephoneNumber) GetIsdnSubaddress() string {
-	return this.parms.GetValue(core.SIPTransportNames_ISUB).(string)
+	return this.GetParameter(core.SIPTransportNames_ISUB)
 }
 
 /** returns true if th PostDial field exists
  * @return boolean
  */
 func (this *TelephoneNumber) HasPostDial() bool {
-	return this.parms.GetValue(core.SIPTransportNames_POSTDIAL) != nil
+	return this.HasParm(core.SIPTransportNames_POSTDIAL)
 }
 
 /** return true if this header has parameters.
-- 
2.43.0


From 636d5c9779f306da198a3447524cdd0e26b38a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:34 +0000
Subject: [PATCH 025/159] fix: setting a URI parameter again added a second one

---
 sip/address/SipURIImpl.go     | 4 ++--
 sip/address/TelphoneNumber.go | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index e324ba0..b0e27e1 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -497,7 +497,7 @@ func (this *SipURIImpl) SetUriParms(parms *core.NameValueList) {
 */
 func (this *SipURIImpl) SetUriParm(name string, value interface{}) {
 	nv := core.NewNameValue(name, value)
-	this.uriParms.AddNameValue(nv)
+	this.uriParms.SetNameValue(nv)
 }
 
 /** Set the qheaders member
@@ -538,7 +538,7 @@ func (this *SipURIImpl) SetUserParam(usertype string) {
  * @param method method parameter
  */
 func (this *SipURIImpl) SetMethod(method string) {
-	this.uriParms.AddNameAndValue(core.SIPTransportNames_METHOD, method)
+	this.uriParms.SetNameAndValue(core.SIPTransportNames_METHOD, method)
 }
 
 /**
diff --git a/sip/address/TelphoneNumber.go b/sip/address/TelphoneNumber.go
index a329ceb..b550902 100644
--- a/sip/address/TelphoneNumber.go
+++ b/sip/address/TelphoneNumber.go
@@ -124,7 +124,7 @@ func (this *TelephoneNumber) SetGlobal(g bool) {
  */
 func (this *TelephoneNumber) SetPostDial(p string) {
 	nv := core.NewNameValue(core.SIPTransportNames_POSTDIAL, p)
-	this.parms.AddNameValue(nv)
+	this.parms.SetNameValue(nv)
 }
 
 /** set the specified parameter
@@ -133,7 +133,7 @@ func (this *TelephoneNumber) SetPostDial(p string) {
  */
 func (this *TelephoneNumber) SetParm(name string, value interface{}) {
 	nv := core.NewNameValue(name, value)
-	this.parms.AddNameValue(nv)
+	this.parms.SetNameValue(nv)
 }
 
 /**
@@ -214,5 +214,5 @@ func (this *TelephoneNumber) RemoveParameter(parameter string) {
 
 func (this *TelephoneNumber) SetParameter(name, value string) {
 	nv := core.NewNameValue(name, value)
-	this.parms.AddNameValue(nv)
+	this.parms.SetNameValue(nv)
 }
-- 
2.43.0


From 70d27fd9143507c43d03080f608241c04216da16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:35 +0000
Subject: [PATCH 026/159] fix: a cloned name-value list was empty

---
 core/NameValueList.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/NameValueList.go b/core/NameValueList.go
index 0115bb7..117add5 100644
--- a/core/NameValueList.go
+++ b/core/NameValueList.go
@@ -255,11 +255,10 @@ func (nameValueList *NameValueList) Clone() interface{} {
 	retval.stringRep = nameValueList.stringRep
 	retval.separator = nameValueList.separator
 
-	li := list.New()
 	for e := nameValueList.Front(); e != nil; e = e.Next() {
 		nv := e.Value.(*NameValue)
 		nnv := nv.Clone().(*NameValue)
-		li.PushBack(nnv)
+		retval.PushBack(nnv)
 	}
 
 	return retval
-- 
2.43.0


From 5b8891a1c46b2afabed695cb3ca8c96b084134c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:36 +0000
Subject: [PATCH 027/159] fix: concatenated name-value lists held list nodes
 and lost entries

---
 core/NameValueList.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/core/NameValueList.go b/core/NameValueList.go
index 117add5..f36353c 100644
--- a/core/NameValueList.go
+++ b/core/NameValueList.go
@@ -48,16 +48,11 @@ func (nameValueList *NameValueList) Concatenate(nvl *NameValueList, topFlag bool
 
 	if !topFlag {
 		//nameValueList.PushBackList(nvl)
-		for e := nvl.Front(); e != nil; e = e.Next() {
-		    nameValueList.PushBack(e)
-		}
+		nameValueList.PushBackList(&nvl.List)
 	} else {
 		//nameValueList.PushFrontList(nvl)
 		// add given items to the end of the list.
-		first := nameValueList.Front()
-		for e := nvl.Front(); e != nil; e = e.Next() {
-		    nameValueList.InsertBefore(e, first)
-		}
+		nameValueList.PushFrontList(&nvl.List)
 	}
 }
 
@@ -273,5 +268,6 @@ func (nameValueList *NameValueList) GetParameter(name string) string {
 		return ""
 	}
 
-	return val.(string)
+	s, _ := val.(string)
+	return s
 }
-- 
2.43.0


From 8702c48afda8c82404ed52079fac6eedceb7251a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:00 +0000
Subject: [PATCH 028/159] fix: parameter names were compared case-sensitively

---
 core/NameValueList.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/NameValueList.go b/core/NameValueList.go
index f36353c..87c54a4 100644
--- a/core/NameValueList.go
+++ b/core/NameValueList.go
@@ -3,6 +3,7 @@ package core
 import (
 	"bytes"
 	"container/list"
+	"strings"
 )
 
 /**
@@ -197,7 +198,7 @@ func (nameValueList *NameValueList) GetValue(name string) interface{} {
 func (nameValueList *NameValueList) GetNameValue(name string) *NameValue {
 	for e := nameValueList.Front(); e != nil; e = e.Next() {
 		nv := e.Value.(*NameValue)
-		if nv.GetName() == name {
+		if strings.EqualFold(nv.GetName(), name) {
 			return nv
 		}
 	}
@@ -221,7 +222,7 @@ func (nameValueList *NameValueList) HasNameValue(name string) bool {
 func (nameValueList *NameValueList) Delete(name string) bool {
 	for e := nameValueList.Front(); e != nil; e = e.Next() {
 		nv := e.Value.(*NameValue)
-		if nv.GetName() == name {
+		if strings.EqualFold(nv.GetName(), name) {
 			nameValueList.Remove(e)
 			return true
 		}
-- 
2.43.0


From 54701bb5474fb3bd54d0c53a1cf5ea2dd3393dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:20 +0000
Subject: [PATCH 029/159] fix: every new host was an IPv4 address, so an IPv6
 one lost its brackets

---
 core/Host.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/Host.go b/core/Host.go
index c12eb69..3c1ce93 100644
--- a/core/Host.go
+++ b/core/Host.go
@@ -39,8 +39,9 @@ func NewHost(hname string) *Host {
 	host.hostname = hname
 	if host.isIPv6Address(hname) {
 		host.addressType = IPV6ADDRESS
+	} else if net.ParseIP(hname) != nil {
+		host.addressType = IPV4ADDRESS
 	}
-	host.addressType = IPV4ADDRESS
 
 	return host
 }
@@ -113,7 +114,9 @@ func (host *Host) GetIpAddress() string {
 		if host.inetAddress == nil {
 			host.inetAddress = net.ParseIP(host.hostname)
 		}
-		rawIpAddress = host.inetAddress.String() //getHostAddress();
+		if host.inetAddress != nil {
+			rawIpAddress = host.inetAddress.String() //getHostAddress();
+		}
 		//} catch (UnknownHostException ex) {
 		//    dbgPrint("Could not resolve hostname " + ex);
 		//}
-- 
2.43.0


From ec250fb5e5c1c8cb2db719172cd29b6ec9cfb8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:21 +0000
Subject: [PATCH 030/159] fix: an IPv6 reference had no inet address

---
 core/Host.go     | 2 +-
 core/HostPort.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/Host.go b/core/Host.go
index 3c1ce93..e1b7a4e 100644
--- a/core/Host.go
+++ b/core/Host.go
@@ -195,7 +195,7 @@ func (host *Host) GetInetAddress() net.IP {
 	if host.inetAddress != nil {
 		return host.inetAddress
 	}
-	host.inetAddress = net.ParseIP(host.hostname)
+	host.inetAddress = net.ParseIP(strings.Trim(host.hostname, "[]"))
 	return host.inetAddress
 
 }
diff --git a/core/HostPort.go b/core/HostPort.go
index 248bb63..9320fe4 100644
--- a/core/HostPort.go
+++ b/core/HostPort.go
@@ -117,7 +117,7 @@ func (hostPort *HostPort) GetInetAddress() net.IP {
 	if hostPort.host == nil {
 		return nil
 	}
-	return net.ParseIP(hostPort.host.GetHostName())
+	return hostPort.host.GetInetAddress()
 }
 
 func (hostPort *HostPort) Clone() interface{} {
-- 
2.43.0


From b206073de41a6181557012e79ba46b868d057c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:54 +0000
Subject: [PATCH 031/159] fix: asking for an absent authentication parameter
 panicked

---
 sip/header/AuthenticationImpl.go |  7 +++++--
 sip/header/Challenge.go          | 23 ++++++++++++-----------
 sip/header/ParametersImpl.go     |  2 +-
 3 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/sip/header/AuthenticationImpl.go b/sip/header/AuthenticationImpl.go
index 49a5481..cc30b4e 100644
--- a/sip/header/AuthenticationImpl.go
+++ b/sip/header/AuthenticationImpl.go
@@ -206,7 +206,10 @@ func (this *Authentication) SetURI(uri address.URI) error {
  */
 func (this *Authentication) GetURI() address.URI {
 	url := this.GetParameter(ParameterNames_URI)
-	return address.NewURIImpl(url)
+	if uri := address.NewURIImpl(url); uri != nil {
+		return uri
+	}
+	return nil
 }
 
 /**
@@ -400,7 +403,7 @@ func (this *Authentication) SetNonceCount(nonceCount int) (ParseException error)
  * @return String response parameter value.
  */
 func (this *Authentication) GetResponse() string {
-	return this.GetParameterValue(ParameterNames_RESPONSE)
+	return this.GetParameter(ParameterNames_RESPONSE)
 }
 
 /** Set the Response.
diff --git a/sip/header/Challenge.go b/sip/header/Challenge.go
index 806c057..ecb526a 100644
--- a/sip/header/Challenge.go
+++ b/sip/header/Challenge.go
@@ -50,70 +50,70 @@ func (this *Challenge) GetAuthParams() *core.NameValueList {
  * @return String
  */
 func (this *Challenge) GetDomain() string {
-	return this.authParams.GetValue(ParameterNames_DOMAIN).(string)
+	return this.authParams.GetParameter(ParameterNames_DOMAIN)
 }
 
 /** Get the URI field
  * @return String
  */
 func (this *Challenge) GetURI() string {
-	return this.authParams.GetValue(ParameterNames_URI).(string)
+	return this.authParams.GetParameter(ParameterNames_URI)
 }
 
 /** Get the Opaque field
  * @return String
  */
 func (this *Challenge) GetOpaque() string {
-	return this.authParams.GetValue(ParameterNames_OPAQUE).(string)
+	return this.authParams.GetParameter(ParameterNames_OPAQUE)
 }
 
 /** Get QOP value
  * @return String
  */
 func (this *Challenge) GetQOP() string {
-	return this.authParams.GetValue(ParameterNames_QOP).(string)
+	return this.authParams.GetParameter(ParameterNames_QOP)
 }
 
 /** Get the Algorithm value.
  * @return String
  */
 func (this *Challenge) GetAlgorithm() string {
-	return this.authParams.GetValue(ParameterNames_ALGORITHM).(string)
+	return this.authParams.GetParameter(ParameterNames_ALGORITHM)
 }
 
 /** Get the State value.
  * @return String
  */
 func (this *Challenge) GetStale() string {
-	return this.authParams.GetValue(ParameterNames_STALE).(string)
+	return this.authParams.GetParameter(ParameterNames_STALE)
 }
 
 /** Get the Signature value.
  * @return String
  */
 func (this *Challenge) GetSignature() string {
-	return this.authParams.GetValue(ParameterNames_SIGNATURE).(string)
+	return this.authParams.GetParameter(ParameterNames_SIGNATURE)
 }
 
 /** Get the signedBy value.
  * @return String
  */
 func (this *Challenge) GetSignedBy() string {
-	return this.authParams.GetValue(ParameterNames_SIGNED_BY).(string)
+	return this.authParams.GetParameter(ParameterNames_SIGNED_BY)
 }
 
 /** Get the Response value.
  * @return String
  */
 func (this *Challenge) GetResponse() string {
-	return this.authParams.GetValue(ParameterNames_RESPONSE).(string)
+	return this.authParams.GetParameter(ParameterNames_RESPONSE)
 }
 
 /** Get the realm value.
  * @return String.
  */
 func (this *Challenge) GetRealm() string {
-	return this.authParams.GetValue(ParameterNames_REALM).(string)
+	return this.authParams.GetParameter(ParameterNames_REALM)
 }
 
 /** Get the specified parameter
@@ -121,7 +121,7 @@ func (this *Challenge) GetRealm() string {
  * @return String to Set
  */
 func (this *Challenge) GetParameter(name string) string {
-	return this.authParams.GetValue(name).(string)
+	return this.authParams.GetParameter(name)
 }
 
 /** boolean function
@@ -152,6 +152,7 @@ func (this *Challenge) RemoveParameter(name string) bool {
  */
 func (this *Challenge) RemoveParameters() {
 	this.authParams = core.NewNameValueList("authParams")
+	this.authParams.SetSeparator(core.SIPSeparatorNames_COMMA)
 }
 
 /** Set the specified parameter
diff --git a/sip/header/ParametersImpl.go b/sip/header/ParametersImpl.go
index b674104..39002d7 100644
--- a/sip/header/ParametersImpl.go
+++ b/sip/header/ParametersImpl.go
@@ -114,7 +114,7 @@ func (this *Parameters) GetParameter(name string) string {
  *
  */
 func (this *Parameters) GetParameterValue(name string) string {
-	return this.parameters.GetValue(name).(string)
+	return this.parameters.GetParameter(name)
 }
 
 /**
-- 
2.43.0


From a358f82dc3808110bf3158363f652edb6dbd02a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:55 +0000
Subject: [PATCH 032/159] fix: a nonce count is hexadecimal but was read as
 decimal, and one of over eight digits panicked

---
 sip/header/AuthenticationImpl.go     | 5 +++--
 sip/header/AuthenticationInfoImpl.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/sip/header/AuthenticationImpl.go b/sip/header/AuthenticationImpl.go
index cc30b4e..c8a7c1b 100644
--- a/sip/header/AuthenticationImpl.go
+++ b/sip/header/AuthenticationImpl.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/address"
+	"math"
 	"strconv"
 	"strings"
 )
@@ -376,7 +377,7 @@ func (this *Authentication) GetCNonce() string {
 func (this *Authentication) GetNonceCount() int {
 	//return this.GetParameterAsHexInt(ParameterNames_NC);
 	s := this.GetParameter(ParameterNames_NONCE_COUNT)
-	nCount, _ := strconv.ParseInt(s, 10, 32)
+	nCount, _ := strconv.ParseUint(s, 16, 32)
 	return int(nCount)
 }
 
@@ -385,7 +386,7 @@ func (this *Authentication) GetNonceCount() int {
  */
 
 func (this *Authentication) SetNonceCount(nonceCount int) (ParseException error) {
-	if nonceCount < 0 {
+	if nonceCount < 0 || uint64(nonceCount) > math.MaxUint32 {
 		return errors.New("ParseException: bad value")
 	}
 
diff --git a/sip/header/AuthenticationInfoImpl.go b/sip/header/AuthenticationInfoImpl.go
index 4daa226..bcca082 100644
--- a/sip/header/AuthenticationInfoImpl.go
+++ b/sip/header/AuthenticationInfoImpl.go
@@ -3,6 +3,7 @@ package header
 import (
 	"errors"
 	"github.com/use-go/gosips/core"
+	"math"
 	"strconv"
 	"strings"
 )
@@ -87,7 +88,7 @@ func (this *AuthenticationInfo) GetNextNonce() string {
  */
 func (this *AuthenticationInfo) GetNonceCount() int {
 	s := this.GetParameter(ParameterNames_NONCE_COUNT)
-	nCount, _ := strconv.ParseInt(s, 10, 32)
+	nCount, _ := strconv.ParseUint(s, 16, 32)
 	return int(nCount)
 }
 
@@ -145,7 +146,7 @@ func (this *AuthenticationInfo) SetNextNonce(nextNonce string) (ParseException e
  *
  */
 func (this *AuthenticationInfo) SetNonceCount(nonceCount int) (ParseException error) {
-	if nonceCount < 0 {
+	if nonceCount < 0 || uint64(nonceCount) > math.MaxUint32 {
 		return errors.New("ParseException: bad value")
 	}
 	nc := strconv.FormatUint(uint64(nonceCount), 16)
-- 
2.43.0


From a0558d95f49000c2b78eb311cd9ce859a41ec707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:56 +0000
Subject: [PATCH 033/159] fix: authentication setters reported success for a
 value they had rejected

---
 sip/header/AuthenticationImpl.go     | 27 +++++++++------------------
 sip/header/AuthenticationInfoImpl.go | 15 +++++----------
 2 files changed, 14 insertions(+), 28 deletions(-)

diff --git a/sip/header/AuthenticationImpl.go b/sip/header/AuthenticationImpl.go
index c8a7c1b..410b227 100644
--- a/sip/header/AuthenticationImpl.go
+++ b/sip/header/AuthenticationImpl.go
@@ -135,8 +135,7 @@ func (this *Authentication) SetRealm(realm string) (ParseException error) {
 	if realm == "" {
 		return errors.New("NullPointerException: The realm parameter is null")
 	}
-	this.SetParameter(ParameterNames_REALM, realm)
-	return nil
+	return this.SetParameter(ParameterNames_REALM, realm)
 }
 
 /**
@@ -164,8 +163,7 @@ func (this *Authentication) SetNonce(nonce string) (ParseException error) {
 	if nonce == "" {
 		return errors.New("NullPointerException: The nonce parameter is null")
 	}
-	this.SetParameter(ParameterNames_NONCE, nonce)
-	return nil
+	return this.SetParameter(ParameterNames_NONCE, nonce)
 }
 
 /**
@@ -226,8 +224,7 @@ func (this *Authentication) SetAlgorithm(algorithm string) (ParseException error
 	if algorithm == "" {
 		return errors.New("NullPointerException: null arg")
 	}
-	this.SetParameter(ParameterNames_ALGORITHM, algorithm)
-	return nil
+	return this.SetParameter(ParameterNames_ALGORITHM, algorithm)
 }
 
 /**
@@ -254,8 +251,7 @@ func (this *Authentication) SetQop(qop string) (ParseException error) {
 	if qop == "" {
 		return errors.New("NullPointerException: null arg")
 	}
-	this.SetParameter(ParameterNames_QOP, qop)
-	return nil
+	return this.SetParameter(ParameterNames_QOP, qop)
 }
 
 /**
@@ -282,8 +278,7 @@ func (this *Authentication) SetOpaque(opaque string) (ParseException error) {
 	if opaque == "" {
 		return errors.New("NullPointerException: null arg")
 	}
-	this.SetParameter(ParameterNames_OPAQUE, opaque)
-	return nil
+	return this.SetParameter(ParameterNames_OPAQUE, opaque)
 }
 
 /**
@@ -310,8 +305,7 @@ func (this *Authentication) SetDomain(domain string) (ParseException error) {
 	if domain == "" {
 		return errors.New("NullPointerException: null arg")
 	}
-	this.SetParameter(ParameterNames_DOMAIN, domain)
-	return nil
+	return this.SetParameter(ParameterNames_DOMAIN, domain)
 }
 
 /**
@@ -362,8 +356,7 @@ func (this *Authentication) IsStale() bool {
  * @param cnonce -- a nonce string.
  */
 func (this *Authentication) SetCNonce(cnonce string) (ParseException error) {
-	this.SetParameter(ParameterNames_CNONCE, cnonce)
-	return nil
+	return this.SetParameter(ParameterNames_CNONCE, cnonce)
 }
 
 /** Get the CNonce.
@@ -394,8 +387,7 @@ func (this *Authentication) SetNonceCount(nonceCount int) (ParseException error)
 
 	base := "00000000"
 	nc = base[0:8-len(nc)] + nc
-	this.SetParameter(ParameterNames_NC, nc)
-	return nil
+	return this.SetParameter(ParameterNames_NC, nc)
 }
 
 /**
@@ -416,8 +408,7 @@ func (this *Authentication) SetResponse(response string) (ParseException error)
 		return errors.New("NullPointerException: Null parameter")
 	}
 
-	this.SetParameter(ParameterNames_RESPONSE, response)
-	return nil
+	return this.SetParameter(ParameterNames_RESPONSE, response)
 }
 
 /**
diff --git a/sip/header/AuthenticationInfoImpl.go b/sip/header/AuthenticationInfoImpl.go
index bcca082..25714ef 100644
--- a/sip/header/AuthenticationInfoImpl.go
+++ b/sip/header/AuthenticationInfoImpl.go
@@ -120,8 +120,7 @@ func (this *AuthenticationInfo) GetResponse() string {
  *
  */
 func (this *AuthenticationInfo) SetCNonce(cNonce string) (ParseException error) {
-	this.SetParameter(ParameterNames_CNONCE, cNonce)
-	return nil
+	return this.SetParameter(ParameterNames_CNONCE, cNonce)
 }
 
 /** Sets the NextNonce of the AuthenticationInfoHeader to the <var>nextNonce</var>
@@ -133,8 +132,7 @@ func (this *AuthenticationInfo) SetCNonce(cNonce string) (ParseException error)
  *
  */
 func (this *AuthenticationInfo) SetNextNonce(nextNonce string) (ParseException error) {
-	this.SetParameter(ParameterNames_NEXT_NONCE, nextNonce)
-	return nil
+	return this.SetParameter(ParameterNames_NEXT_NONCE, nextNonce)
 }
 
 /** Sets the Nonce Count of the AuthenticationInfoHeader to the <var>nonceCount</var>
@@ -153,8 +151,7 @@ func (this *AuthenticationInfo) SetNonceCount(nonceCount int) (ParseException er
 
 	base := "00000000"
 	nc = base[0:8-len(nc)] + nc
-	this.SetParameter(ParameterNames_NC, nc)
-	return nil
+	return this.SetParameter(ParameterNames_NC, nc)
 }
 
 /** Sets the Qop value of the AuthenticationInfoHeader to the new
@@ -166,8 +163,7 @@ func (this *AuthenticationInfo) SetNonceCount(nonceCount int) (ParseException er
  *
  */
 func (this *AuthenticationInfo) SetQop(qop string) (ParseException error) {
-	this.SetParameter(ParameterNames_QOP, qop)
-	return nil
+	return this.SetParameter(ParameterNames_QOP, qop)
 }
 
 /** Sets the Response of the
@@ -181,8 +177,7 @@ func (this *AuthenticationInfo) SetQop(qop string) (ParseException error) {
  *
  */
 func (this *AuthenticationInfo) SetResponse(response string) (ParseException error) {
-	this.SetParameter(ParameterNames_RESPONSE, response)
-	return nil
+	return this.SetParameter(ParameterNames_RESPONSE, response)
 }
 
 func (this *AuthenticationInfo) SetParameter(name, value string) error {
-- 
2.43.0


From 62de47511bb933e16b11e4eccbe34d4ac194f51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:30 +0000
Subject: [PATCH 034/159] fix: cloning a header or an address kept nothing but
 its name

---
 sip/address/AddressImpl.go |  10 +
 sip/header/Clone.go        | 567 +++++++++++++++++++++++++++++++++++++
 2 files changed, 577 insertions(+)
 create mode 100644 sip/header/Clone.go

diff --git a/sip/address/AddressImpl.go b/sip/address/AddressImpl.go
index 6395757..d298641 100644
--- a/sip/address/AddressImpl.go
+++ b/sip/address/AddressImpl.go
@@ -290,3 +290,13 @@ func (this *AddressImpl) SetUser(user string) {
 func (this *AddressImpl) SetWildCardFlag() {
 	this.addressType = WILD_CARD
 }
+
+/** Clone this address, with its URI.
+ */
+func (this *AddressImpl) Clone() interface{} {
+	retval := *this
+	if this.address != nil {
+		retval.address = this.address.Clone().(URI)
+	}
+	return &retval
+}
diff --git a/sip/header/Clone.go b/sip/header/Clone.go
new file mode 100644
index 0000000..63d5d94
--- /dev/null
+++ b/sip/header/Clone.go
@@ -0,0 +1,567 @@
+package header
+
+import (
+	"container/list"
+
+	"github.com/use-go/gosips/core"
+	"github.com/use-go/gosips/sip/address"
+)
+
+/*
+ * Every header is cloned with what it holds: a clone shares nothing with the
+ * header it was made from.
+ */
+
+func cloneParameters(parameters *core.NameValueList) *core.NameValueList {
+	if parameters == nil {
+		return nil
+	}
+	return parameters.Clone().(*core.NameValueList)
+}
+
+func cloneURI(uri address.URI) address.URI {
+	if uri == nil {
+		return nil
+	}
+	return uri.Clone().(address.URI)
+}
+
+func cloneAddress(addr address.Address) address.Address {
+	if a, ok := addr.(*address.AddressImpl); ok && a != nil {
+		return a.Clone().(address.Address)
+	}
+	return addr
+}
+
+func cloneProductTokens(tokens *list.List) *list.List {
+	if tokens == nil {
+		return nil
+	}
+	retval := list.New()
+	retval.PushBackList(tokens)
+	return retval
+}
+
+// cloneMembers puts clones of the members of a header list in another one.
+func cloneMembers(to, from Lister) {
+	for e := from.Front(); e != nil; e = e.Next() {
+		if h, ok := e.Value.(Header); ok {
+			to.PushBack(h.Clone())
+		} else {
+			to.PushBack(e.Value)
+		}
+	}
+}
+
+func (this *Accept) Clone() interface{} {
+	retval := *this
+	retval.parameters = cloneParameters(this.parameters)
+	if this.mediaRange != nil {
+		mediaRange := *this.mediaRange
+		retval.mediaRange = &mediaRange
+	}
+	return &retval
+}
+
+func (this *AcceptEncoding) Clone() interface{} {
+	retval := *this
+	retval.parameters = cloneParameters(this.parameters)
+	return &retval
+}
+
+func (this *AcceptEncodingList) Clone() interface{} {
+	retval := &AcceptEncodingList{}
+	retval.SIPHeaderList.super(this.headerName)
+	cloneMembers(retval, this)
+	return retval
+}
+
+func (this *AcceptLanguage) Clone() interface{} {
+	retval := *this
+	retval.parameters = cloneParameters(this.parameters)
+	return &retval
+}
+
+func (this *AcceptLanguageList) Clone() interface{} {
+	retval := &AcceptLanguageList{}
+	retval.SIPHeaderList.super(this.headerName)
+	cloneMembers(retval, this)
+	return retval
+}
+
+func (this *AcceptList) Clone() interface{} {
+	retval := &AcceptList{}
+	retval.SIPHeaderList.super(this.headerName)
+	cloneMembers(retval, this)
+	return retval
+}
+
+func (this *AlertInfo) Clone() interface{} {
+	retval := *this
+	retval.parameters = cloneParameters(this.parameters)
+	retval.uri = cloneURI(this.uri)
+	return &retval
+}
+
+func (this *AlertInfoList) Clone() interface{} {
+	retval := &AlertInfoList{}
+	retval.SIPHeaderList.super(this.headerName)
+	cloneMembers(retval, this)
+	return retval
+}
+
+func (this *Allow) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *AllowEvents) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *AllowEventsList) Clone() interface{} {
+	retval := &AllowEventsList{}
+	retval.SIPHeaderList.super(this.headerName)
+	cloneMembers(retval, this)
+	return retval
+}
+
+func (this *AllowList) Clone() interface{} {
+	retval := &AllowList{}
+	retval.SIPHeaderList.super(this.headerName)
+	cloneMembers(retval, this)
+	return retval
+}
+
+func (this *AuthenticationInfo) Clone() interface{} {
+	retval := *this
+	retval.parameters = cloneParameters(this.parameters)
+	return &retval
+}
+
+func (this *Authorization) Clone() interface{} {
+	retval := *this
+	retval.parameters = cloneParameters(this.parameters)
+	return &retval
+}
+
+func (this *CSeq) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *CallID) Clone() interface{} {
+	retval := *this
+	if this.callIdentifier != nil {
+		callIdentifier := *this.callIdentifier
+		retval.callIdentifier = &callIdentifier
+	}
+	return &retval
+}
+
+func (this *CallIdentifier) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *CallInfo) Clone() interface{} {
+	retval := *this
+	retval.parameters = cloneParameters(this.parameters)
+	retval.info = cloneURI(this.info)
+	return &retval
+}
+
+func (this *CallInfoList) Clone() interface{} {
+	retval := &CallInfoList{}
+	retval.SIPHeaderList.super(this.headerName)
+	cloneMembers(retval, this)
+	return retval
+}
+
+func (this *Challenge) Clone() interface{} {
+	retval := *this
+	retval.authParams = cloneParameters(this.authParams)
+	return &retval
+}
+
+func (this *Contact) Clone() interface{} {
+	retval := *this
+	retval.parameters = cloneParameters(this.parameters)
+	retval.addr = cloneAddress(this.addr)
+	if this.contactList != nil {
+		retval.contactList = this.contactList.Clone().(*ContactList)
+	}
+	return &retval
+}
+
+func (this *ContentDisposition) Clone() interface{} {
+	retval := *this
+	retval.parameters = cloneParameters(this.parameters)
+	return &retval
+}
+
+func (this *ContentEncoding) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *ContentEncodingList) Clone() interface{} {
+	retval := &ContentEncodingList{}
+	retval.SIPHeaderList.super(this.headerName)
+	cloneMembers(retval, this)
+	return retval
+}
+
+func (this *ContentLanguage) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *ContentLanguageList) Clone() interface{} {
+	retval := &ContentLanguageList{}
+	retval.SIPHeaderList.super(this.headerName)
+	cloneMembers(retval, this)
+	return retval
+}
+
+func (this *ContentLength) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *ContentType) Clone() interface{} {
+	retval := *this
+	retval.parameters = cloneParameters(this.parameters)
+	if this.mediaRange != nil {
+		mediaRange := *this.mediaRange
+		retval.mediaRange = &mediaRange
+	}
+	return &retval
+}
+
+func (this *Date) Clone() interface{} {
+	retval := *this
+	if this.date != nil {
+		date := *this.date
+		retval.date = &date
+	}
+	return &retval
+}
+
+func (this *ErrorInfo) Clone() interface{} {
+	retval := *this
+	retval.parameters = cloneParameters(this.parameters)
+	retval.errorInfo = cloneURI(this.errorInfo)
+	return &retval
+}
+
+func (this *ErrorInfoList) Clone() interface{} {
+	retval := &ErrorInfoList{}
+	retval.SIPHeaderList.super(this.headerName)
+	cloneMembers(retval, this)
+	return retval
+}
+
+func (this *Event) Clone() interface{} {
+	retval := *this
+	retval.parameters = cloneParameters(this.parameters)
+	return &retval
+}
+
+func (this *Expires) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *Extension) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *ExtensionHeaderList) Clone() interface{} {
+	retval := &ExtensionHeaderList{}
+	retval.SIPHeaderList.super(this.headerName)
+	cloneMembers(retval, this)
+	return retval
+}
+
+func (this *From) Clone() interface{} {
+	retval := *this
+	retval.parameters = cloneParameters(this.parameters)
+	retval.addr = cloneAddress(this.addr)
+	return &retval
+}
+
+func (this *InReplyTo) Clone() interface{} {
+	retval := *this
+	if this.callId != nil {
+		callId := *this.callId
+		retval.callId = &callId
+	}
+	return &retval
+}
+
+func (this *InReplyToList) Clone() interface{} {
+	retval := &InReplyToList{}
+	retval.SIPHeaderList.super(this.headerName)
+	cloneMembers(retval, this)
+	return retval
+}
+
+func (this *MaxForwards) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *MediaRange) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *MimeVersion) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *MinExpires) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *Organization) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *Priority) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *Protocol) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *ProxyAuthenticate) Clone() interface{} {
+	retval := *this
+	retval.parameters = cloneParameters(this.parameters)
+	return &retval
+}
+
+func (this *ProxyAuthenticateList) Clone() interface{} {
+	retval := &ProxyAuthenticateList{}
+	retval.SIPHeaderList.super(this.headerName)
+	cloneMembers(retval, this)
+	return retval
+}
+
+func (this *ProxyAuthorization) Clone() interface{} {
+	retval := *this
+	retval.parameters = cloneParameters(this.parameters)
+	return &retval
+}
+
+func (this *ProxyRequire) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *ProxyRequireList) Clone() interface{} {
+	retval := &ProxyRequireList{}
+	retval.SIPHeaderList.super(this.headerName)
+	cloneMembers(retval, this)
+	return retval
+}
+
+func (this *RAck) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *RSeq) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *Reason) Clone() interface{} {
+	retval := *this
+	retval.parameters = cloneParameters(this.parameters)
+	return &retval
+}
+
+func (this *ReasonList) Clone() interface{} {
+	retval := &ReasonList{}
+	retval.SIPHeaderList.super(this.headerName)
+	cloneMembers(retval, this)
+	return retval
+}
+
+func (this *RecordRoute) Clone() interface{} {
+	retval := *this
+	retval.parameters = cloneParameters(this.parameters)
+	retval.addr = cloneAddress(this.addr)
+	return &retval
+}
+
+func (this *RecordRouteList) Clone() interface{} {
+	retval := &RecordRouteList{}
+	retval.SIPHeaderList.super(this.headerName)
+	cloneMembers(retval, this)
+	return retval
+}
+
+func (this *ReferTo) Clone() interface{} {
+	retval := *this
+	retval.parameters = cloneParameters(this.parameters)
+	retval.addr = cloneAddress(this.addr)
+	return &retval
+}
+
+func (this *ReplyTo) Clone() interface{} {
+	retval := *this
+	retval.parameters = cloneParameters(this.parameters)
+	retval.addr = cloneAddress(this.addr)
+	return &retval
+}
+
+func (this *RequestLine) Clone() interface{} {
+	retval := *this
+	retval.uri = cloneURI(this.uri)
+	return &retval
+}
+
+func (this *Require) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *RequireList) Clone() interface{} {
+	retval := &RequireList{}
+	retval.SIPHeaderList.super(this.headerName)
+	cloneMembers(retval, this)
+	return retval
+}
+
+func (this *RetryAfter) Clone() interface{} {
+	retval := *this
+	retval.parameters = cloneParameters(this.parameters)
+	return &retval
+}
+
+func (this *Route) Clone() interface{} {
+	retval := *this
+	retval.parameters = cloneParameters(this.parameters)
+	retval.addr = cloneAddress(this.addr)
+	return &retval
+}
+
+func (this *RouteList) Clone() interface{} {
+	retval := &RouteList{}
+	retval.SIPHeaderList.super(this.headerName)
+	cloneMembers(retval, this)
+	return retval
+}
+
+func (this *Server) Clone() interface{} {
+	retval := *this
+	retval.productTokens = cloneProductTokens(this.productTokens)
+	return &retval
+}
+
+func (this *StatusLine) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *Subject) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *SubscriptionState) Clone() interface{} {
+	retval := *this
+	retval.parameters = cloneParameters(this.parameters)
+	return &retval
+}
+
+func (this *Supported) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *SupportedList) Clone() interface{} {
+	retval := &SupportedList{}
+	retval.SIPHeaderList.super(this.headerName)
+	cloneMembers(retval, this)
+	return retval
+}
+
+func (this *TimeStamp) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *To) Clone() interface{} {
+	retval := *this
+	retval.parameters = cloneParameters(this.parameters)
+	retval.addr = cloneAddress(this.addr)
+	return &retval
+}
+
+func (this *Unsupported) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *UnsupportedList) Clone() interface{} {
+	retval := &UnsupportedList{}
+	retval.SIPHeaderList.super(this.headerName)
+	cloneMembers(retval, this)
+	return retval
+}
+
+func (this *UserAgent) Clone() interface{} {
+	retval := *this
+	retval.productTokens = cloneProductTokens(this.productTokens)
+	return &retval
+}
+
+func (this *Via) Clone() interface{} {
+	retval := *this
+	retval.parameters = cloneParameters(this.parameters)
+	if this.sentProtocol != nil {
+		sentProtocol := *this.sentProtocol
+		retval.sentProtocol = &sentProtocol
+	}
+	if this.sentBy != nil {
+		retval.sentBy = this.sentBy.Clone().(*core.HostPort)
+	}
+	return &retval
+}
+
+func (this *WWWAuthenticate) Clone() interface{} {
+	retval := *this
+	retval.parameters = cloneParameters(this.parameters)
+	return &retval
+}
+
+func (this *WWWAuthenticateList) Clone() interface{} {
+	retval := &WWWAuthenticateList{}
+	retval.SIPHeaderList.super(this.headerName)
+	cloneMembers(retval, this)
+	return retval
+}
+
+func (this *Warning) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *WarningList) Clone() interface{} {
+	retval := &WarningList{}
+	retval.SIPHeaderList.super(this.headerName)
+	cloneMembers(retval, this)
+	return retval
+}
-- 
2.43.0


From dc1de2222f12175cc54388484656691cf8998697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:31 +0000
Subject: [PATCH 035/159] fix: the value of every header but an extension was
 empty

---
 sip/header/HeaderValue.go | 610 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 610 insertions(+)
 create mode 100644 sip/header/HeaderValue.go

diff --git a/sip/header/HeaderValue.go b/sip/header/HeaderValue.go
new file mode 100644
index 0000000..0859a3c
--- /dev/null
+++ b/sip/header/HeaderValue.go
@@ -0,0 +1,610 @@
+package header
+
+import (
+	"strings"
+)
+
+/*
+ * The value of a header is what follows its name. The methods of SIPHeader that
+ * give it only know the name, so each header has its own.
+ */
+
+func (this *Accept) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Accept) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *AcceptEncoding) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *AcceptEncoding) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *AcceptEncodingList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *AcceptEncodingList) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *AcceptLanguage) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *AcceptLanguage) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *AcceptLanguageList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *AcceptLanguageList) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *AcceptList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *AcceptList) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *AlertInfo) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *AlertInfo) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *AlertInfoList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *AlertInfoList) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *Allow) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Allow) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *AllowEvents) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *AllowEvents) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *AllowEventsList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *AllowEventsList) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *AllowList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *AllowList) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *AuthenticationInfo) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *AuthenticationInfo) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *Authorization) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Authorization) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *CSeq) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *CSeq) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *CallID) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *CallID) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *CallInfo) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *CallInfo) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *CallInfoList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *CallInfoList) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *Contact) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Contact) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *ContactList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ContactList) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *ContentDisposition) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ContentDisposition) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *ContentEncoding) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ContentEncoding) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *ContentEncodingList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ContentEncodingList) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *ContentLanguage) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ContentLanguage) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *ContentLanguageList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ContentLanguageList) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *ContentLength) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ContentLength) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *ContentType) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ContentType) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *Date) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Date) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *ErrorInfo) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ErrorInfo) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *ErrorInfoList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ErrorInfoList) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *Event) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Event) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *Expires) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Expires) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *ExtensionHeaderList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ExtensionHeaderList) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *From) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *From) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *InReplyTo) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *InReplyTo) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *InReplyToList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *InReplyToList) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *MaxForwards) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *MaxForwards) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *MimeVersion) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *MimeVersion) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *MinExpires) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *MinExpires) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *Organization) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Organization) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *Priority) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Priority) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *ProxyAuthenticate) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ProxyAuthenticate) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *ProxyAuthenticateList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ProxyAuthenticateList) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *ProxyAuthorization) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ProxyAuthorization) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *ProxyRequire) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ProxyRequire) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *ProxyRequireList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ProxyRequireList) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *RAck) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *RAck) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *RSeq) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *RSeq) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *Reason) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Reason) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *ReasonList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ReasonList) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *RecordRoute) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *RecordRoute) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *RecordRouteList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *RecordRouteList) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *ReferTo) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ReferTo) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *ReplyTo) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ReplyTo) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *Require) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Require) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *RequireList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *RequireList) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *RetryAfter) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *RetryAfter) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *Route) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Route) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *RouteList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *RouteList) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *Server) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Server) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *Subject) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Subject) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *SubscriptionState) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *SubscriptionState) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *Supported) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Supported) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *SupportedList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *SupportedList) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *TimeStamp) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *TimeStamp) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *To) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *To) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *Unsupported) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Unsupported) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *UnsupportedList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *UnsupportedList) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *UserAgent) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *UserAgent) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *Via) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Via) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *ViaList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ViaList) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *WWWAuthenticate) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *WWWAuthenticate) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *WWWAuthenticateList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *WWWAuthenticateList) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *Warning) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Warning) GetValue() string {
+	return this.GetHeaderValue()
+}
+
+func (this *WarningList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *WarningList) GetValue() string {
+	return this.GetHeaderValue()
+}
-- 
2.43.0


From c35bd12d168015ca3daeac6a830dd5cd3c281a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:12 +0000
Subject: [PATCH 036/159] fix: an empty Accept-Language list, a Via maddr and
 the hash of a Route panicked

---
 sip/header/AcceptLanguageList.go | 16 ++++++----------
 sip/header/RouteImpl.go          |  6 ++++--
 sip/header/ViaImpl.go            |  2 +-
 3 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/sip/header/AcceptLanguageList.go b/sip/header/AcceptLanguageList.go
index 863acf5..8a13110 100644
--- a/sip/header/AcceptLanguageList.go
+++ b/sip/header/AcceptLanguageList.go
@@ -18,19 +18,15 @@ func NewAcceptLanguageList() *AcceptLanguageList {
 }
 
 func (this *AcceptLanguageList) GetFirst() Header {
-	retval := this.SIPHeaderList.Front().Value.(Header)
-	if retval != nil {
-		return retval
-	} else {
-		return NewAcceptLanguage()
+	if e := this.SIPHeaderList.Front(); e != nil {
+		return e.Value.(Header)
 	}
+	return NewAcceptLanguage()
 }
 
 func (this *AcceptLanguageList) GetLast() Header {
-	retval := this.SIPHeaderList.Back().Value.(Header)
-	if retval != nil {
-		return retval
-	} else {
-		return NewAcceptLanguage()
+	if e := this.SIPHeaderList.Back(); e != nil {
+		return e.Value.(Header)
 	}
+	return NewAcceptLanguage()
 }
diff --git a/sip/header/RouteImpl.go b/sip/header/RouteImpl.go
index 343413d..a649a56 100644
--- a/sip/header/RouteImpl.go
+++ b/sip/header/RouteImpl.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/address"
+	"hash/fnv"
 )
 
 /**
@@ -56,8 +57,9 @@ func NewRouteFromAddress(addr address.Address) *Route {
 func (this *Route) HashCode() int { //TODO by LY
 	//hp, _ := this.addr.GetHostPort()
 	//strcon.Atoi(hp.String() //.toLowerCase().hashCode();
-	panic("Route.HashCode() Not implement yet")
-	return 0
+	h := fnv.New32a()
+	h.Write([]byte(this.EncodeBody()))
+	return int(h.Sum32())
 }
 
 func (this *Route) String() string {
diff --git a/sip/header/ViaImpl.go b/sip/header/ViaImpl.go
index 881c7d8..2dee1f7 100644
--- a/sip/header/ViaImpl.go
+++ b/sip/header/ViaImpl.go
@@ -111,7 +111,7 @@ func (this *Via) GetComment() string {
  * @return maddr parameter.
  */
 func (this *Via) GetMaddr() *core.Host {
-	return this.parameters.GetValue(ParameterNames_MADDR).(*core.Host)
+	return core.NewHost(this.GetMAddr())
 }
 
 /** port of the Via Header.
-- 
2.43.0


From 289ebd2500b95848cdd85bca81795cd2c0a0ef0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:58 +0000
Subject: [PATCH 037/159] fix: a header list put on top of another came out in
 reverse, and put on itself never ended

---
 sip/header/SIPHeaderList.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sip/header/SIPHeaderList.go b/sip/header/SIPHeaderList.go
index a9b1376..2f22385 100644
--- a/sip/header/SIPHeaderList.go
+++ b/sip/header/SIPHeaderList.go
@@ -73,8 +73,8 @@ func (this *SIPHeaderList) Clone() interface{} {
 }
 
 func (this *SIPHeaderList) Concatenate(shl SIPHeaderLister, topFlag bool) {
-	if shl == nil {
-		return
+	if shl == nil || shl.Front() == this.Front() {
+		return // nothing to add, or the list itself
 	}
 
 	if !topFlag {
@@ -82,8 +82,8 @@ func (this *SIPHeaderList) Concatenate(shl SIPHeaderLister, topFlag bool) {
 			this.PushBack(e.Value.(Header))
 		}
 	} else {
-		//add given items to the end of the list.
-		for e := shl.Front(); e != nil; e = e.Next() {
+		// add given items to the front of the list, in their order.
+		for e := shl.Back(); e != nil; e = e.Prev() {
 			this.PushFront(e.Value.(Header))
 		}
 	}
-- 
2.43.0


From 16fadd76eefa71edf83637f6b118ffae8efe839a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:59 +0000
Subject: [PATCH 038/159] fix: removing the last member of a header list left
 an empty list whose header could not be got

---
 sip/message/SIPMessage.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 1dab216..fd0723b 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -675,15 +675,18 @@ func (this *SIPMessage) RemoveHeader2(headerName string, top bool) {
 	}
 
 	if hdrList, ok := toRemove.(header.SIPHeaderLister); ok {
-		if top {
-			first := hdrList.Front()
-			hdrList.Remove(first)
-		} else {
-			last := hdrList.Back()
-			hdrList.Remove(last)
+		if hdrList.Len() > 0 {
+			if top {
+				first := hdrList.Front()
+				hdrList.Remove(first)
+			} else {
+				last := hdrList.Back()
+				hdrList.Remove(last)
+			}
 		}
 		// Clean up empty list
 		if hdrList.Len() == 0 {
+			delete(this.nameTable, strings.ToLower(headerName))
 			for li := this.headers.Front(); li != nil; li = li.Next() {
 				sipHeader := li.Value.(header.Header)
 				if strings.ToLower(sipHeader.GetName()) == strings.ToLower(headerName) {
@@ -842,6 +845,9 @@ func (this *SIPMessage) getHeaders() header.Lister {
 func (this *SIPMessage) GetHeader(headerName string) header.Header {
 	sipHeader := this.nameTable[strings.ToLower(headerName)]
 	if sl, ok := sipHeader.(header.SIPHeaderLister); ok {
+		if sl.Len() == 0 {
+			return nil
+		}
 		return sl.Front().Value.(header.Header)
 	} else {
 		return sipHeader
-- 
2.43.0


From 604238d8f6ba6b42003f97b59477ea5724ee1f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:00 +0000
Subject: [PATCH 039/159] fix: a second header of a kind that may repeat was
 dropped, and replacing one left the old in the message

---
 sip/message/ListMap.go    | 70 +++++++++++++++++++++++++++++++++++++++
 sip/message/SIPMessage.go |  9 +++--
 2 files changed, 74 insertions(+), 5 deletions(-)
 create mode 100644 sip/message/ListMap.go

diff --git a/sip/message/ListMap.go b/sip/message/ListMap.go
new file mode 100644
index 0000000..f28a15a
--- /dev/null
+++ b/sip/message/ListMap.go
@@ -0,0 +1,70 @@
+package message
+
+import (
+	"github.com/use-go/gosips/sip/header"
+)
+
+/**
+ * A header that may occur several times in a message is kept in a list.
+ * @return h in a list of its kind, h itself if it may occur only once or is
+ * a list already.
+ */
+func inList(h header.Header) header.Header {
+	var hl header.SIPHeaderLister
+	switch h.(type) {
+	case *header.Extension:
+		hl = header.NewExtensionHeaderList(h.GetName())
+	case *header.Accept:
+		hl = header.NewAcceptList()
+	case *header.AcceptEncoding:
+		hl = header.NewAcceptEncodingList()
+	case *header.AcceptLanguage:
+		hl = header.NewAcceptLanguageList()
+	case *header.AlertInfo:
+		hl = header.NewAlertInfoList()
+	case *header.Allow:
+		hl = header.NewAllowList()
+	case *header.AllowEvents:
+		hl = header.NewAllowEventsList()
+	case *header.Authorization, *header.ProxyAuthorization:
+		hl = header.NewSIPHeaderList(h.GetName())
+	case *header.CallInfo:
+		hl = header.NewCallInfoList()
+	case *header.Contact:
+		hl = header.NewContactList()
+	case *header.ContentEncoding:
+		hl = header.NewContentEncodingList()
+	case *header.ContentLanguage:
+		hl = header.NewContentLanguageList()
+	case *header.ErrorInfo:
+		hl = header.NewErrorInfoList()
+	case *header.InReplyTo:
+		hl = header.NewInReplyToList()
+	case *header.ProxyAuthenticate:
+		hl = header.NewProxyAuthenticateList()
+	case *header.ProxyRequire:
+		hl = header.NewProxyRequireList()
+	case *header.Reason:
+		hl = header.NewReasonList()
+	case *header.RecordRoute:
+		hl = header.NewRecordRouteList()
+	case *header.Require:
+		hl = header.NewRequireList()
+	case *header.Route:
+		hl = header.NewRouteList()
+	case *header.Supported:
+		hl = header.NewSupportedList()
+	case *header.Unsupported:
+		hl = header.NewUnsupportedList()
+	case *header.Via:
+		hl = header.NewViaList()
+	case *header.Warning:
+		hl = header.NewWarningList()
+	case *header.WWWAuthenticate:
+		hl = header.NewWWWAuthenticateList()
+	default:
+		return h
+	}
+	hl.PushBack(h)
+	return hl
+}
diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index fd0723b..e9dc4af 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -599,8 +599,10 @@ func (this *SIPMessage) AttachHeader3(h header.Header, replaceFlag, top bool) er
 		return errors.New("NullPointerException: nil header")
 	}
 
+	h = inList(h)
+
 	if replaceFlag {
-		delete(this.nameTable, strings.ToLower(h.GetName()))
+		this.RemoveHeader(h.GetName())
 	} else {
 		if _, present := this.nameTable[strings.ToLower(h.GetName())]; present {
 			if _, ok := h.(header.SIPHeaderLister); !ok {
@@ -630,11 +632,8 @@ func (this *SIPMessage) AttachHeader3(h header.Header, replaceFlag, top bool) er
 		this.headers.PushBack(h)
 	} else {
 		if hs, ok := h.(header.SIPHeaderLister); ok {
-			hdrlist := this.nameTable[strings.ToLower(h.GetName())].(header.SIPHeaderLister)
-			if hdrlist != nil {
+			if hdrlist := this.GetSIPHeaderList(h.GetName()); hdrlist != nil {
 				hdrlist.Concatenate(hs, top)
-			} else {
-				this.nameTable[strings.ToLower(h.GetName())] = h
 			}
 		} else {
 			this.nameTable[strings.ToLower(h.GetName())] = h
-- 
2.43.0


From a44b74b1a8872ba24aaf7572f95d5694a317d383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:32 +0000
Subject: [PATCH 040/159] fix: setting content left content set earlier in the
 other form, which is what was then read or encoded

---
 sip/message/SIPMessage.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index e9dc4af..4270582 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -1278,9 +1278,11 @@ func (this *SIPMessage) SetContent(content interface{}, contentTypeHeader header
 	length := -1
 	if s, ok := content.(string); ok {
 		this.messageContent = s
+		this.messageContentBytes = nil
 		length = len(s)
 	} else if b, ok := content.([]byte); ok {
 		this.messageContentBytes = b
+		this.messageContent = ""
 		length = len(b)
 	} else {
 		panic("Don't support GenericObject")
-- 
2.43.0


From c0791da46b99135888c51161a1be4980dd712cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:32 +0000
Subject: [PATCH 041/159] fix: a message whose Content-Length was removed
 panicked when encoded or given content

---
 sip/message/SIPMessage.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 4270582..3987d9c 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -358,7 +358,10 @@ func (this *SIPMessage) String() string {
 	}
 	//}
 
-	encoding.WriteString(this.contentLengthHeader.String() + core.SIPSeparatorNames_NEWLINE)
+	if this.contentLengthHeader != nil {
+		encoding.WriteString(this.contentLengthHeader.String())
+	}
+	encoding.WriteString(core.SIPSeparatorNames_NEWLINE)
 
 	if this.messageContentObject != nil {
 		mbody := this.GetContent()
@@ -824,6 +827,15 @@ func (this *SIPMessage) GetTransactionId() string {
 	// from Chris Mills of Nortel Networks.
 }
 
+/** Set the length of the content, in a new header if the message has none.
+ */
+func (this *SIPMessage) setContentLength(length int) {
+	if this.contentLengthHeader == nil {
+		this.AttachHeader2(header.NewContentLength(), false)
+	}
+	this.contentLengthHeader.SetContentLength(length)
+}
+
 /** Return true if this message has a body.
  */
 func (this *SIPMessage) HasContent() bool {
@@ -1261,7 +1273,7 @@ func (this *SIPMessage) SetMessageContentFromString(t string, subType string, me
 	this.messageContentBytes = nil
 	this.messageContentObject = nil
 	//try {
-	this.contentLengthHeader.SetContentLength(len(messageContent))
+	this.setContentLength(len(messageContent))
 	//} catch (InvalidArgumentException ex) {}
 }
 
@@ -1300,7 +1312,7 @@ func (this *SIPMessage) SetContent(content interface{}, contentTypeHeader header
 	// length = content.toString().length();
 
 	if length != -1 {
-		this.contentLengthHeader.SetContentLength(length)
+		this.setContentLength(length)
 	}
 	// } catch (InvalidArgumentException ex) {}
 
@@ -1333,7 +1345,7 @@ func (this *SIPMessage) SetMessageContent3(t string, subType string, messageCont
 	this.SetHeader(ct)
 	this.SetMessageContentFromByte(messageContent)
 	//try {
-	this.contentLengthHeader.SetContentLength(len(messageContent))
+	this.setContentLength(len(messageContent))
 	//} catch (InvalidArgumentException ex) {}
 }
 
@@ -1345,7 +1357,7 @@ func (this *SIPMessage) SetMessageContent3(t string, subType string, messageCont
 func (this *SIPMessage) SetMessageContent(content string) {
 	//int clength = (content == nil? 0: content.length());
 	//try {
-	this.contentLengthHeader.SetContentLength(len(content))
+	this.setContentLength(len(content))
 	// } catch (InvalidArgumentException ex) {}
 	this.messageContent = content
 	this.messageContentBytes = nil
@@ -1358,7 +1370,7 @@ func (this *SIPMessage) SetMessageContent(content string) {
  */
 func (this *SIPMessage) SetMessageContentFromByte(content []byte) {
 	//try {
-	this.contentLengthHeader.SetContentLength(len(content))
+	this.setContentLength(len(content))
 	//} catch (InvalidArgumentException ex) {}
 
 	this.messageContentBytes = content
@@ -1374,7 +1386,7 @@ func (this *SIPMessage) RemoveContent() {
 	this.messageContentBytes = nil
 	this.messageContentObject = nil
 	//try {
-	this.contentLengthHeader.SetContentLength(0)
+	this.setContentLength(0)
 	//} catch (InvalidArgumentException ex) {}
 }
 
@@ -1689,7 +1701,7 @@ func (this *SIPMessage) SetContentLanguage(contentLanguageHeader header.ContentL
  */
 func (this *SIPMessage) SetContentLength(contentLength header.ContentLengthHeader) {
 	//try {
-	this.contentLengthHeader.SetContentLength(contentLength.GetContentLength())
+	this.setContentLength(contentLength.GetContentLength())
 	//} catch (InvalidArgumentException ex) {}
 
 }
-- 
2.43.0


From e57cad645efffc9695ecf75025838eb001adf06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:33 +0000
Subject: [PATCH 042/159] fix: a response was encoded with two bytes after its
 content

---
 sip/message/SIPResponse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index 00b0d91..3364151 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -326,7 +326,7 @@ func (this *SIPResponse) String() string {
 	} else {
 		retval = this.SIPMessage.String()
 	}
-	return retval + core.SIPSeparatorNames_NEWLINE
+	return retval
 }
 
 // func (this *SIPResponse) String() string {
-- 
2.43.0


From 88453f7e32f28b0a98da81f22e2aacf4c66bd21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:46 +0000
Subject: [PATCH 043/159] fix: making a CANCEL, ACK or BYE changed the request
 it was made from

---
 sip/message/SIPRequest.go | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 26ff2c6..7955f3b 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -579,11 +579,13 @@ func (this *SIPRequest) CreateCancelRequest() *SIPRequest {
 	//SIPHeader	nextHeader;
 
 	newRequest := NewSIPRequest()
-	newRequest.SetRequestLine(this.requestLine)
+	if this.requestLine != nil {
+		newRequest.SetRequestLine(this.requestLine.Clone().(*header.RequestLine))
+	}
 	newRequest.SetMethod(CANCEL)
 
 	for headerIterator := this.getHeaders().Front(); headerIterator != nil; headerIterator = headerIterator.Next() {
-		nextHeader := headerIterator.Value.(header.Header)
+		nextHeader := headerIterator.Value.(header.Header).Clone().(header.Header)
 		if _, ok := nextHeader.(*header.RequireList); ok {
 			continue
 		} else if _, ok := nextHeader.(*header.ProxyRequireList); ok {
@@ -635,16 +637,18 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 	// SIPHeader	nextHeader;
 
 	newRequest := NewSIPRequest()
-	newRequest.SetRequestLine(this.requestLine)
+	if this.requestLine != nil {
+		newRequest.SetRequestLine(this.requestLine.Clone().(*header.RequestLine))
+	}
 	newRequest.SetMethod(ACK)
 	for headerIterator := this.getHeaders().Front(); headerIterator != nil; headerIterator = headerIterator.Next() {
-		nextHeader := headerIterator.Value.(header.Header)
+		nextHeader := headerIterator.Value.(header.Header).Clone().(header.Header)
 		if _, ok := nextHeader.(*header.RouteList); ok {
 			// Ack and cancel do not Get ROUTE headers.
 			// Route header for ACK is assigned by the
 			// Dialog if necessary.
 			continue
-		} else if _, ok := nextHeader.(*header.ProxyAuthorization); ok {
+		} else if nextHeader.GetName() == core.SIPHeaderNames_PROXY_AUTHORIZATION {
 			// Remove proxy auth header.
 			// Assigned by the Dialog if necessary.
 			continue
@@ -742,16 +746,16 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 // */
 func (this *SIPRequest) CreateSIPRequest(requestLine *header.RequestLine, switchHeaders bool) *SIPRequest {
 	newRequest := NewSIPRequest()
-	newRequest.requestLine = this.requestLine
+	newRequest.requestLine = requestLine
 	for headerIterator := this.getHeaders().Front(); headerIterator != nil; headerIterator = headerIterator.Next() {
-		nextHeader := headerIterator.Value.(header.Header)
+		nextHeader := headerIterator.Value.(header.Header).Clone().(header.Header)
 		// For BYE and cancel Set the CSeq header to the
 		// appropriate method.
 		if newCseq, ok := nextHeader.(*header.CSeq); ok {
 			// CSeq newCseq = (CSeq) nextHeader.clone();
 			nextHeader = newCseq
 			//try{
-			newCseq.SetMethod(this.requestLine.GetMethod())
+			newCseq.SetMethod(requestLine.GetMethod())
 			//}
 			//catch(ParseException e){}
 		} else if vl, ok := nextHeader.(*header.ViaList); ok {
@@ -820,7 +824,10 @@ func (this *SIPRequest) CreateSIPRequest(requestLine *header.RequestLine, switch
  *@return a new default BYE request.
  */
 func (this *SIPRequest) CreateBYERequest(switchHeaders bool) *SIPRequest {
-	requestLine := this.requestLine //.clone();
+	requestLine := header.NewRequestLine()
+	if this.requestLine != nil {
+		requestLine = this.requestLine.Clone().(*header.RequestLine)
+	}
 	requestLine.SetMethod("BYE")
 	return this.CreateSIPRequest(requestLine, switchHeaders)
 }
@@ -832,7 +839,10 @@ func (this *SIPRequest) CreateBYERequest(switchHeaders bool) *SIPRequest {
 *
  */
 func (this *SIPRequest) CreateACKRequest() *SIPRequest {
-	requestLine := this.requestLine //.clone();
+	requestLine := header.NewRequestLine()
+	if this.requestLine != nil {
+		requestLine = this.requestLine.Clone().(*header.RequestLine)
+	}
 	requestLine.SetMethod(ACK)
 	return this.CreateSIPRequest(requestLine, false)
 }
-- 
2.43.0


From 0aab4c6378e85d428db321988f2ddde7f9cde4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:47 +0000
Subject: [PATCH 044/159] fix: a request made from a response kept its
 response-only header lists and its content length

---
 sip/message/SIPMessage.go  | 6 ++++++
 sip/message/SIPResponse.go | 5 ++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 3987d9c..d8e1a9f 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -72,6 +72,9 @@ func (this *SIPMessage) super() {
  */
 func (this *SIPMessage) IsRequestHeader(sipHeader header.Header) bool {
 	var ok bool
+	if hl, ok := sipHeader.(header.SIPHeaderLister); ok && hl.Len() > 0 {
+		return this.IsRequestHeader(hl.Front().Value.(header.Header))
+	}
 	if _, ok = sipHeader.(*header.AlertInfo); ok {
 		return true
 	}
@@ -115,6 +118,9 @@ func (this *SIPMessage) IsRequestHeader(sipHeader header.Header) bool {
  */
 func (this *SIPMessage) IsResponseHeader(sipHeader header.Header) bool {
 	var ok bool
+	if hl, ok := sipHeader.(header.SIPHeaderLister); ok && hl.Len() > 0 {
+		return this.IsResponseHeader(hl.Front().Value.(header.Header))
+	}
 	if _, ok = sipHeader.(*header.ErrorInfo); ok {
 		return true
 	}
diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index 3364151..aa2644b 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -575,7 +575,7 @@ func (this *SIPResponse) CreateRequest(requestURI address.SipURI, via *header.Vi
 	method := cseq.GetMethod()
 	newRequest.SetMethod(method)
 	newRequest.SetRequestURI(requestURI)
-	if (method == "ACK" || method == "CANCEL") && this.GetTopmostVia().GetBranch() != "" {
+	if (method == "ACK" || method == "CANCEL") && this.GetTopmostVia() != nil && this.GetTopmostVia().GetBranch() != "" {
 		// Use the branch id from the OK.
 		//try {
 		via.SetBranch(this.GetTopmostVia().GetBranch())
@@ -599,6 +599,9 @@ func (this *SIPResponse) CreateRequest(requestURI address.SipURI, via *header.Vi
 		if _, ok := nextHeader.(*header.ContentType); ok {
 			continue
 		}
+		if _, ok := nextHeader.(*header.ContentLength); ok {
+			continue
+		}
 		if _, ok := nextHeader.(*header.RecordRouteList); ok {
 			continue
 		}
-- 
2.43.0


From 7a62b1a3cfd69dc4dde1627a2d70368a31637206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:47 +0000
Subject: [PATCH 045/159] fix: requests of different calls had the same
 transaction id when their branch had no magic cookie

---
 sip/message/SIPMessage.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index d8e1a9f..ce80cbd 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"container/list"
 	"errors"
+	"strconv"
 	"strings"
 
 	"github.com/use-go/gosips/core"
@@ -812,22 +813,16 @@ func (this *SIPMessage) GetTransactionId() string {
 		}
 		retval.WriteString(this.GetCallIdentifier() + ":")
 		if this.cSeqHeader != nil {
-			retval.WriteRune(rune(this.cSeqHeader.GetSequenceNumber()))
+			retval.WriteString(strconv.Itoa(this.cSeqHeader.GetSequenceNumber()))
 			retval.WriteString(":" + this.cSeqHeader.GetMethod())
 		}
 		if topVia != nil && topVia.GetSentBy() != nil {
 			retval.WriteString(":" + topVia.GetSentBy().String())
 			if !topVia.GetSentBy().HasPort() {
-				retval.WriteString(":")
-				retval.WriteRune(5060)
+				retval.WriteString(":5060")
 			}
 		}
-		hc := ToHexString([]byte(strings.ToLower(retval.String())))
-		if len(hc) < 32 {
-			return hc
-		} else {
-			return hc[len(hc)-32 : len(hc)]
-		}
+		return ToHexString([]byte(strings.ToLower(retval.String())))
 	}
 	// Convert to lower case -- bug fix as a result of a bug report
 	// from Chris Mills of Nortel Networks.
-- 
2.43.0


From 01809c2fa4b24f9c22e956987f7bd92b894e63ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 046/159] fix: a To made from a From, or the reverse, shared
 its tag

---
 sip/header/FromImpl.go | 4 ++--
 sip/header/ToImpl.go   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sip/header/FromImpl.go b/sip/header/FromImpl.go
index 4f2b0d9..65a3e48 100644
--- a/sip/header/FromImpl.go
+++ b/sip/header/FromImpl.go
@@ -31,8 +31,8 @@ func (this *From) super(name string) {
  */
 func (this *From) CloneTo(to *To) {
 	this.super(core.SIPHeaderNames_FROM)
-	this.addr = to.addr
-	this.parameters = to.parameters
+	this.addr = cloneAddress(to.addr)
+	this.parameters = cloneParameters(to.parameters)
 }
 
 /**
diff --git a/sip/header/ToImpl.go b/sip/header/ToImpl.go
index 0882f7c..3bb48b4 100644
--- a/sip/header/ToImpl.go
+++ b/sip/header/ToImpl.go
@@ -31,8 +31,8 @@ func (this *To) super(name string) {
  */
 func (this *To) CloneFrom(from *From) {
 	this.super(core.SIPHeaderNames_TO)
-	this.SetAddress(from.addr)
-	this.SetParameters(from.parameters)
+	this.SetAddress(cloneAddress(from.addr))
+	this.SetParameters(cloneParameters(from.parameters))
 }
 
 /**
-- 
2.43.0


From 0ac83e993a0b52172d682c1941ddd746c2b329e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 047/159] fix: the version set on a response was not encoded

---
 sip/header/StatusLine.go   | 2 +-
 sip/message/SIPRequest.go  | 3 +++
 sip/message/SIPResponse.go | 3 +++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/sip/header/StatusLine.go b/sip/header/StatusLine.go
index 353146f..957699d 100644
--- a/sip/header/StatusLine.go
+++ b/sip/header/StatusLine.go
@@ -78,7 +78,7 @@ func (this *StatusLine) SetMatchStatusClass(flag bool) {
  */
 func (this *StatusLine) String() string {
 	var encoding bytes.Buffer
-	encoding.WriteString(SIPConstants_SIP_VERSION_STRING + core.SIPSeparatorNames_SP + strconv.Itoa(this.statusCode) + core.SIPSeparatorNames_SP)
+	encoding.WriteString(this.sipVersion + core.SIPSeparatorNames_SP + strconv.Itoa(this.statusCode) + core.SIPSeparatorNames_SP)
 	if this.reasonPhrase != "" {
 		encoding.WriteString(this.reasonPhrase)
 	}
diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 7955f3b..0d15247 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -898,6 +898,9 @@ func (this *SIPRequest) SetSIPVersion(sipVersion string) {
 	//throws ParseException {
 	//if (sipVersion == nil || !sipVersion.equals("SIP/2.0"))
 	//	throw new ParseException ("sipVersion" , 0);
+	if this.requestLine == nil {
+		this.requestLine = header.NewRequestLine()
+	}
 	this.requestLine.SetSIPVersion(sipVersion)
 }
 
diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index aa2644b..50c94ff 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -634,6 +634,9 @@ func (this *SIPResponse) GetFirstLine() string {
 }
 
 func (this *SIPResponse) SetSIPVersion(sipVersion string) {
+	if this.statusLine == nil {
+		this.statusLine = header.NewStatusLine()
+	}
 	this.statusLine.SetSipVersion(sipVersion)
 }
 
-- 
2.43.0


From 1bd51e1384c3392691e1a8b853fca560fa8576e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:44 +0000
Subject: [PATCH 048/159] fix: removing the port of a Via removed its host too

---
 sip/header/ViaImpl.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sip/header/ViaImpl.go b/sip/header/ViaImpl.go
index 2dee1f7..5c398ab 100644
--- a/sip/header/ViaImpl.go
+++ b/sip/header/ViaImpl.go
@@ -135,7 +135,9 @@ func (this *Via) HasComment() bool {
 /** remove the port.
  */
 func (this *Via) RemovePort() {
-	this.sentBy = nil
+	if this.sentBy != nil {
+		this.sentBy.RemovePort()
+	}
 }
 
 /** remove the comment field.
@@ -200,7 +202,9 @@ func (this *Via) EncodeBody() string {
 	var encoding bytes.Buffer
 	encoding.WriteString(this.sentProtocol.String())
 	encoding.WriteString(core.SIPSeparatorNames_SP)
-	encoding.WriteString(this.sentBy.String())
+	if this.sentBy != nil {
+		encoding.WriteString(this.sentBy.String())
+	}
 	// Add the default port if there is no port specified.
 	// if !this.sentBy.HasPort() {
 	// 	encoding.WriteString(core.SIPSeparatorNames_COLON)
-- 
2.43.0


From 0a70aa1033a87a96cb1517d3bf568190d6d840ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:20 +0000
Subject: [PATCH 049/159] fix: setting the expiry of a Contact again added
 another

---
 sip/header/ContactImpl.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sip/header/ContactImpl.go b/sip/header/ContactImpl.go
index 0303f49..a563523 100644
--- a/sip/header/ContactImpl.go
+++ b/sip/header/ContactImpl.go
@@ -113,8 +113,7 @@ func (this *Contact) GetExpires() int {
  */
 
 func (this *Contact) SetExpires(expiryDeltaSeconds int) (InvalidArgumentException error) {
-	this.parameters.AddNameValue(core.NewNameValue(ParameterNames_EXPIRES, strconv.Itoa(expiryDeltaSeconds)))
-	return nil
+	return this.SetParameter(ParameterNames_EXPIRES, strconv.Itoa(expiryDeltaSeconds))
 }
 
 /** set the Contact List
-- 
2.43.0


From 114855e358ae258209ffe8dc8288d12a69f516a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 050/159] fix: a Timestamp lost the leading zeros of its
 fraction

---
 sip/parser/TimeStampParser.go | 55 +++++++++++++++--------------------
 1 file changed, 24 insertions(+), 31 deletions(-)

diff --git a/sip/parser/TimeStampParser.go b/sip/parser/TimeStampParser.go
index d0a505c..30bada4 100644
--- a/sip/parser/TimeStampParser.go
+++ b/sip/parser/TimeStampParser.go
@@ -38,7 +38,6 @@ func (this *TimeStampParser) Parse() (sh header.Header, ParseException error) {
 	timeStamp := header.NewTimeStamp()
 
 	var ch byte
-	var firstNumber, secondNumber int
 
 	lexer := this.GetLexer()
 	this.HeaderName(TokenTypes_TIMESTAMP)
@@ -46,46 +45,40 @@ func (this *TimeStampParser) Parse() (sh header.Header, ParseException error) {
 	timeStamp.SetHeaderName(core.SIPHeaderNames_TIMESTAMP)
 	lexer.SPorHT()
 
-	if firstNumber, ParseException = lexer.Number(); ParseException != nil {
+	var ts float32
+	if ts, ParseException = this.decimal(); ParseException != nil {
 		return nil, ParseException
 	}
 
-	var ts float64
-	if ch, _ = lexer.LookAheadK(0); ch == '.' {
-		lexer.Match('.')
-
-		if secondNumber, ParseException = lexer.Number(); ParseException != nil {
-			return nil, ParseException
-		}
-
-		s := strconv.Itoa(firstNumber) + "." + strconv.Itoa(secondNumber)
-		ts, _ = strconv.ParseFloat(s, 32)
-	} else {
-		ts = float64(firstNumber)
-	}
-
-	timeStamp.SetTimeStamp(float32(ts))
+	timeStamp.SetTimeStamp(ts)
 
 	lexer.SPorHT()
 	if ch, _ = lexer.LookAheadK(0); ch != '\n' {
-		if firstNumber, ParseException = lexer.Number(); ParseException != nil {
+		if ts, ParseException = this.decimal(); ParseException != nil {
 			return nil, ParseException
 		}
 
-		if ch, _ = lexer.LookAheadK(0); ch == '.' {
-			lexer.Match('.')
-			if secondNumber, ParseException = lexer.Number(); ParseException != nil {
-				return nil, ParseException
-			}
-
-			s := strconv.Itoa(firstNumber) + "." + strconv.Itoa(secondNumber)
-			ts, _ = strconv.ParseFloat(s, 32)
-		} else {
-			ts = float64(firstNumber)
-		}
-
-		timeStamp.SetDelay(float32(ts))
+		timeStamp.SetDelay(ts)
 	}
 
 	return timeStamp, nil
 }
+
+/**
+ * parse a decimal number: digits, and optionally a '.' and more digits.
+ */
+func (this *TimeStampParser) decimal() (value float32, ParseException error) {
+	lexer := this.GetLexer()
+	start := lexer.GetPtr()
+	if _, ParseException = lexer.Number(); ParseException != nil {
+		return 0, ParseException
+	}
+	if ch, _ := lexer.LookAheadK(0); ch == '.' {
+		lexer.Match('.')
+		if _, ParseException = lexer.Number(); ParseException != nil {
+			return 0, ParseException
+		}
+	}
+	v, ParseException := strconv.ParseFloat(lexer.GetBuffer()[start:lexer.GetPtr()], 32)
+	return float32(v), ParseException
+}
-- 
2.43.0


From af54d8f5422cad73d47583587f962ef86f3085ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:26 +0000
Subject: [PATCH 051/159] fix: the name of an unknown header kept the white
 space before its colon

---
 sip/parser/HeaderParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/parser/HeaderParser.go b/sip/parser/HeaderParser.go
index e10bf88..7645356 100644
--- a/sip/parser/HeaderParser.go
+++ b/sip/parser/HeaderParser.go
@@ -63,7 +63,7 @@ func (this *HeaderParser) Parse() (sh header.Header, ParseException error) {
 	body := strings.TrimSpace(lexer.GetLine())
 
 	// we dont set any fields because the header is ok
-	retval := header.NewExtension(name)
+	retval := header.NewExtension(strings.TrimSpace(name))
 	retval.SetValue(body)
 	return retval, nil
 }
-- 
2.43.0


From 5163e83de006352cf25f29f39d099d05f0e2ddd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:27 +0000
Subject: [PATCH 052/159] fix: a Retry-After of 0 seconds was encoded without
 its number

---
 sip/header/RetryAfterImpl.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sip/header/RetryAfterImpl.go b/sip/header/RetryAfterImpl.go
index a881890..a3858f6 100644
--- a/sip/header/RetryAfterImpl.go
+++ b/sip/header/RetryAfterImpl.go
@@ -39,9 +39,7 @@ func (this *RetryAfter) String() string {
  */
 func (this *RetryAfter) EncodeBody() string {
 	var encoding bytes.Buffer
-	if this.retryAfter != 0 {
-		encoding.WriteString(strconv.Itoa(this.retryAfter))
-	}
+	encoding.WriteString(strconv.Itoa(this.retryAfter))
 	if this.comment != "" {
 		encoding.WriteString(core.SIPSeparatorNames_SP + "(")
 		encoding.WriteString(this.comment)
-- 
2.43.0


From ae40a81c5f26f406fb66083248eb4a59cf929b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:07 +0000
Subject: [PATCH 053/159] fix: a quoted parameter after an address without
 angle brackets was rejected in From and To

---
 sip/parser/AddressParametersParser.go |  6 ++++++
 sip/parser/AddressParser.go           |  5 +++++
 sip/parser/FromParser.go              | 15 +--------------
 sip/parser/ParametersParser.go        |  8 +++++++-
 sip/parser/ToParser.go                | 14 +-------------
 sip/parser/URLParser.go               | 13 ++++++++++---
 6 files changed, 30 insertions(+), 31 deletions(-)

diff --git a/sip/parser/AddressParametersParser.go b/sip/parser/AddressParametersParser.go
index 624ec6e..af49440 100644
--- a/sip/parser/AddressParametersParser.go
+++ b/sip/parser/AddressParametersParser.go
@@ -10,6 +10,10 @@ import (
  */
 type AddressParametersParser struct {
 	ParametersParser
+
+	// headerParams tells that the parameters after an address without angle
+	// brackets are those of the header.
+	headerParams bool
 }
 
 func NewAddressParametersParserFromLexer(lexer core.Lexer) *AddressParametersParser {
@@ -34,11 +38,13 @@ func (this *AddressParametersParser) superFromLexer(lexer core.Lexer) {
 
 func (this *AddressParametersParser) Parse(addressParametersHeader header.AddressParametersHeader) (ParseException error) {
 	addressParser := NewAddressParserFromLexer(this.GetLexer())
+	addressParser.headerParams = this.headerParams
 	var addr *address.AddressImpl
 	if addr, ParseException = addressParser.Address(); ParseException != nil {
 		return ParseException
 	}
 	addressParametersHeader.SetAddress(addr)
+	this.flags = this.headerParams && addr.GetAddressType() == address.ADDRESS_SPEC
 	ParseException = this.ParametersParser.Parse(addressParametersHeader)
 	return ParseException
 }
diff --git a/sip/parser/AddressParser.go b/sip/parser/AddressParser.go
index b9fb593..7cdec6d 100644
--- a/sip/parser/AddressParser.go
+++ b/sip/parser/AddressParser.go
@@ -10,6 +10,10 @@ import (
  */
 type AddressParser struct {
 	SIPParser
+
+	// headerParams tells that the parameters after an address without angle
+	// brackets are those of the header it is in.
+	headerParams bool
 }
 
 func NewAddressParser(addr string) *AddressParser {
@@ -121,6 +125,7 @@ func (this *AddressParser) Address() (retval *address.AddressImpl, ParseExceptio
 		ch == '/' {
 		retval = address.NewAddressImpl()
 		uriParser := NewURLParserFromLexer(lexer)
+		uriParser.headerParams = this.headerParams
 
 		var uri address.URI
 		if uri, ParseException = uriParser.UriReference(); ParseException != nil {
diff --git a/sip/parser/FromParser.go b/sip/parser/FromParser.go
index c7aa786..2b0c006 100644
--- a/sip/parser/FromParser.go
+++ b/sip/parser/FromParser.go
@@ -2,7 +2,6 @@ package parser
 
 import (
 	"github.com/use-go/gosips/core"
-	"github.com/use-go/gosips/sip/address"
 	"github.com/use-go/gosips/sip/header"
 )
 
@@ -32,23 +31,11 @@ func (this *FromParser) Parse() (sh header.Header, ParseException error) {
 	from := header.NewFrom()
 	this.HeaderName(TokenTypes_FROM)
 
+	this.headerParams = true
 	if ParseException = this.AddressParametersParser.Parse(from); ParseException != nil {
 		return nil, ParseException
 	}
 
 	this.GetLexer().Match('\n')
-	addr := from.GetAddress().(*address.AddressImpl)
-	if addr.GetAddressType() == address.ADDRESS_SPEC {
-		// the parameters are header parameters.
-		if from.GetAddress().GetURI().IsSipURI() {
-			sipUri, _ := from.GetAddress().GetURI().(*address.SipURIImpl)
-			parms := sipUri.GetUriParms()
-			if parms != nil && parms.Len() > 0 {
-				from.SetParameters(parms)
-				sipUri.RemoveUriParms()
-			}
-		}
-	}
-
 	return from, nil
 }
diff --git a/sip/parser/ParametersParser.go b/sip/parser/ParametersParser.go
index e14e7ae..ea7c0f4 100644
--- a/sip/parser/ParametersParser.go
+++ b/sip/parser/ParametersParser.go
@@ -9,6 +9,9 @@ import (
  */
 type ParametersParser struct {
 	HeaderParser
+
+	// flags tells to keep a parameter without a value without its '='.
+	flags bool
 }
 
 func NewParametersParserFromLexer(lexer core.Lexer) *ParametersParser {
@@ -51,7 +54,10 @@ func (this *ParametersParser) Parse(parametersHeader header.ParametersHeader) (P
 			return ParseException
 		}
 
-		if nv.IsValueQuoted() {
+		if this.flags && nv.GetValue() == "" && !nv.IsValueQuoted() {
+			nv.SetValue(nil)
+			parametersHeader.GetParameters().SetNameValue(nv)
+		} else if nv.IsValueQuoted() {
 			parametersHeader.SetParameter(nv.GetName(), "\""+nv.GetValue().(string)+"\"")
 		} else {
 			parametersHeader.SetParameter(nv.GetName(), nv.GetValue().(string))
diff --git a/sip/parser/ToParser.go b/sip/parser/ToParser.go
index 92d7c93..f34cb9b 100644
--- a/sip/parser/ToParser.go
+++ b/sip/parser/ToParser.go
@@ -2,7 +2,6 @@ package parser
 
 import (
 	"github.com/use-go/gosips/core"
-	"github.com/use-go/gosips/sip/address"
 	"github.com/use-go/gosips/sip/header"
 )
 
@@ -30,22 +29,11 @@ func (this *ToParser) Parse() (sh header.Header, ParseException error) {
 	to := header.NewTo()
 	this.HeaderName(TokenTypes_TO)
 
+	this.headerParams = true
 	if ParseException = this.AddressParametersParser.Parse(to); ParseException != nil {
 		return nil, ParseException
 	}
 
 	this.GetLexer().Match('\n')
-	addr := to.GetAddress().(*address.AddressImpl)
-	if addr.GetAddressType() == address.ADDRESS_SPEC {
-		// the parameters are header parameters.
-		if to.GetAddress().GetURI().IsSipURI() {
-			sipUri, _ := to.GetAddress().GetURI().(*address.SipURIImpl)
-			parms := sipUri.GetUriParms()
-			if parms != nil && parms.Len() > 0 {
-				to.SetParameters(parms)
-				sipUri.RemoveUriParms()
-			}
-		}
-	}
 	return to, nil
 }
diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index 8b5239a..33bfd66 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -10,6 +10,10 @@ import (
  */
 type URLParser struct {
 	SIPParser
+
+	// headerParams tells that what follows a ';' or ',' is not part of the
+	// URI: it is not enclosed in angle brackets.
+	headerParams bool
 }
 
 func NewURLParser(url string) *URLParser {
@@ -214,6 +218,9 @@ func (this *URLParser) UricNoSlash() string {
 func (this *URLParser) UricString() string {
 	var retval bytes.Buffer
 	for {
+		if la, _ := this.GetLexer().LookAheadK(0); this.headerParams && (la == ';' || la == ',') {
+			break
+		}
 		next := this.Uric()
 		if next == "" {
 			break
@@ -347,7 +354,7 @@ func (this *URLParser) Global_phone_number() (tn *address.TelephoneNumber, Parse
 	tn.SetPhoneNumber(b)
 	if this.GetLexer().HasMoreChars() {
 		tok, _ := this.GetLexer().LookAheadK(0)
-		if tok == ';' {
+		if tok == ';' && !this.headerParams {
 			this.GetLexer().ConsumeK(1)
 			var nv *core.NameValueList
 			if nv, ParseException = this.Tel_parameters(); ParseException != nil {
@@ -369,7 +376,7 @@ func (this *URLParser) Local_phone_number() (tn *address.TelephoneNumber, ParseE
 	tn.SetPhoneNumber(b)
 	if this.GetLexer().HasMoreChars() {
 		tok, _ := this.GetLexer().LookAheadK(0)
-		if tok == ';' {
+		if tok == ';' && !this.headerParams {
 			this.GetLexer().ConsumeK(1)
 			var nv *core.NameValueList
 			if nv, ParseException = this.Tel_parameters(); ParseException != nil {
@@ -468,7 +475,7 @@ func (this *URLParser) SipURL() (sipurl *address.SipURIImpl, ParseException erro
 	retval.SetHostPort(hp)
 	this.GetLexer().SelectLexer("charLexer")
 	for this.GetLexer().HasMoreChars() {
-		if la, _ := this.GetLexer().LookAheadK(0); la != ';' {
+		if la, _ := this.GetLexer().LookAheadK(0); la != ';' || this.headerParams {
 			break
 		}
 		this.GetLexer().ConsumeK(1)
-- 
2.43.0


From 46b0b67adac5307c1100023613f555cada9cd1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:20 +0000
Subject: [PATCH 054/159] fix: the received address of a Via took in the space
 or the Via after it

---
 sip/parser/ViaParser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sip/parser/ViaParser.go b/sip/parser/ViaParser.go
index db6d7c8..01bf8f5 100644
--- a/sip/parser/ViaParser.go
+++ b/sip/parser/ViaParser.go
@@ -169,7 +169,11 @@ func (this *ViaParser) NameValue() (nv *core.NameValue, ParseException error) {
 		if strings.ToLower(name.GetTokenValue()) == core.SIPParameters_RECEIVED {
 			// Allow for IPV6 Addresses.
 			// these could have : in them!
-			str = lexer.ByteStringNoSemicolon()
+			// An address, which may have the colons of an IPv6 one.
+			for la, err := lexer.LookAheadK(0); err == nil && strings.IndexByte(";, \t\n", la) < 0; la, err = lexer.LookAheadK(0) {
+				lexer.ConsumeK(1)
+				str += string([]byte{la})
+			}
 		} else {
 			if la, _ = lexer.LookAheadK(0); la == '"' {
 				if str, ParseException = lexer.QuotedString(); ParseException != nil {
-- 
2.43.0


From d9f4024ef2cc9526002709661fcb53ef9a104d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:10 +0000
Subject: [PATCH 055/159] fix: white space around the slash of a media type was
 rejected

---
 sip/parser/AcceptParser.go      | 4 ++++
 sip/parser/ContentTypeParser.go | 1 +
 2 files changed, 5 insertions(+)

diff --git a/sip/parser/AcceptParser.go b/sip/parser/AcceptParser.go
index fa041ba..277b925 100644
--- a/sip/parser/AcceptParser.go
+++ b/sip/parser/AcceptParser.go
@@ -58,9 +58,11 @@ func (this *AcceptParser) Parse() (sh header.Header, ParseException error) {
 	}
 	token := lexer.GetNextToken()
 	accept.SetContentType(token.GetTokenValue())
+	lexer.SPorHT()
 	if _, ParseException = lexer.Match('/'); ParseException != nil {
 		return nil, ParseException
 	}
+	lexer.SPorHT()
 	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
 		return nil, ParseException
 	}
@@ -82,9 +84,11 @@ func (this *AcceptParser) Parse() (sh header.Header, ParseException error) {
 		}
 		token = lexer.GetNextToken()
 		accept.SetContentType(token.GetTokenValue())
+		lexer.SPorHT()
 		if _, ParseException = lexer.Match('/'); ParseException != nil {
 			return nil, ParseException
 		}
+		lexer.SPorHT()
 		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
 			return nil, ParseException
 		}
diff --git a/sip/parser/ContentTypeParser.go b/sip/parser/ContentTypeParser.go
index 8b1380c..0a9d7bf 100644
--- a/sip/parser/ContentTypeParser.go
+++ b/sip/parser/ContentTypeParser.go
@@ -41,6 +41,7 @@ func (this *ContentTypeParser) Parse() (sh header.Header, ParseException error)
 	if _, ParseException = lexer.Match('/'); ParseException != nil {
 		return nil, ParseException
 	}
+	lexer.SPorHT()
 	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
 		return nil, ParseException
 	}
-- 
2.43.0


From 61302b03945e22565f7709e763c795b7d6de125d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:13 +0000
Subject: [PATCH 056/159] fix: malformed parameters of Accept and Call-Info
 were dropped with all after them

---
 sip/parser/AcceptParser.go   | 8 ++++++--
 sip/parser/CallInfoParser.go | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/sip/parser/AcceptParser.go b/sip/parser/AcceptParser.go
index 277b925..d2bf923 100644
--- a/sip/parser/AcceptParser.go
+++ b/sip/parser/AcceptParser.go
@@ -70,7 +70,9 @@ func (this *AcceptParser) Parse() (sh header.Header, ParseException error) {
 	accept.SetContentSubType(token.GetTokenValue())
 	lexer.SPorHT()
 
-	this.ParametersParser.Parse(accept)
+	if ParseException = this.ParametersParser.Parse(accept); ParseException != nil {
+		return nil, ParseException
+	}
 	acceptList.PushBack(accept)
 
 	for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
@@ -95,7 +97,9 @@ func (this *AcceptParser) Parse() (sh header.Header, ParseException error) {
 		token = lexer.GetNextToken()
 		accept.SetContentSubType(token.GetTokenValue())
 		lexer.SPorHT()
-		this.ParametersParser.Parse(accept)
+		if ParseException = this.ParametersParser.Parse(accept); ParseException != nil {
+			return nil, ParseException
+		}
 		acceptList.PushBack(accept)
 
 	}
diff --git a/sip/parser/CallInfoParser.go b/sip/parser/CallInfoParser.go
index 4560605..5fbbf07 100644
--- a/sip/parser/CallInfoParser.go
+++ b/sip/parser/CallInfoParser.go
@@ -62,7 +62,9 @@ func (this *CallInfoParser) Parse() (sh header.Header, ParseException error) {
 		}
 		lexer.SPorHT()
 
-		this.ParametersParser.Parse(callInfo)
+		if ParseException = this.ParametersParser.Parse(callInfo); ParseException != nil {
+			return nil, ParseException
+		}
 		callInfoList.PushBack(callInfo)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
@@ -85,7 +87,9 @@ func (this *CallInfoParser) Parse() (sh header.Header, ParseException error) {
 			}
 			lexer.SPorHT()
 
-			this.ParametersParser.Parse(callInfo)
+			if ParseException = this.ParametersParser.Parse(callInfo); ParseException != nil {
+				return nil, ParseException
+			}
 			callInfoList.PushBack(callInfo)
 		}
 	}
-- 
2.43.0


From 159121561a7481738b2a3308f33486de4e937dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:17 +0000
Subject: [PATCH 057/159] fix: Accept-Encoding and Accept-Language rejected an
 upper-case q, other parameters and white space before them

---
 sip/parser/AcceptEncodingParser.go | 25 ++++++++++++++-----------
 sip/parser/AcceptLanguageParser.go | 25 ++++++++++++++-----------
 2 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/sip/parser/AcceptEncodingParser.go b/sip/parser/AcceptEncodingParser.go
index 568aabd..d33144e 100644
--- a/sip/parser/AcceptEncodingParser.go
+++ b/sip/parser/AcceptEncodingParser.go
@@ -4,6 +4,7 @@ import (
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
 	"strconv"
+	"strings"
 )
 
 /**
@@ -79,24 +80,26 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 				acceptEncoding.SetEncoding(value.GetTokenValue())
 			}
 
+			lexer.SPorHT()
 			for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
 				lexer.Match(';')
 				lexer.SPorHT()
-				if _, ParseException = lexer.Match('q'); ParseException != nil {
-					return nil, ParseException
-				}
-				lexer.SPorHT()
-				if _, ParseException = lexer.Match('='); ParseException != nil {
-					return nil, ParseException
+				nv, err := this.NameValue('=')
+				if err != nil {
+					return nil, err
 				}
-				lexer.SPorHT()
-				if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-					return nil, ParseException
+				if strings.ToLower(nv.GetName()) != header.ParameterNames_Q {
+					if nv.IsValueQuoted() {
+						acceptEncoding.SetQuotedParameter(nv.GetName(), nv.GetValue().(string))
+					} else {
+						acceptEncoding.SetParameter(nv.GetName(), nv.GetValue().(string))
+					}
+					lexer.SPorHT()
+					continue
 				}
-				value := lexer.GetNextToken()
 
 				var qv float64
-				if qv, ParseException = strconv.ParseFloat(value.GetTokenValue(), 32); ParseException != nil {
+				if qv, ParseException = strconv.ParseFloat(nv.GetValue().(string), 32); ParseException != nil {
 					return nil, ParseException
 				}
 				if ParseException = acceptEncoding.SetQValue(float32(qv)); ParseException != nil {
diff --git a/sip/parser/AcceptLanguageParser.go b/sip/parser/AcceptLanguageParser.go
index d6c457a..a857dd8 100644
--- a/sip/parser/AcceptLanguageParser.go
+++ b/sip/parser/AcceptLanguageParser.go
@@ -4,6 +4,7 @@ import (
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
 	"strconv"
+	"strings"
 )
 
 /**
@@ -69,24 +70,26 @@ func (this *AcceptLanguageParser) Parse() (sh header.Header, ParseException erro
 			acceptLanguage.SetLanguageRange(value.GetTokenValue())
 		}
 
+		lexer.SPorHT()
 		for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
 			lexer.Match(';')
 			lexer.SPorHT()
-			if _, ParseException = lexer.Match('q'); ParseException != nil {
-				return nil, ParseException
-			}
-			lexer.SPorHT()
-			if _, ParseException = lexer.Match('='); ParseException != nil {
-				return nil, ParseException
+			nv, err := this.NameValue('=')
+			if err != nil {
+				return nil, err
 			}
-			lexer.SPorHT()
-			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-				return nil, ParseException
+			if strings.ToLower(nv.GetName()) != header.ParameterNames_Q {
+				if nv.IsValueQuoted() {
+					acceptLanguage.SetQuotedParameter(nv.GetName(), nv.GetValue().(string))
+				} else {
+					acceptLanguage.SetParameter(nv.GetName(), nv.GetValue().(string))
+				}
+				lexer.SPorHT()
+				continue
 			}
-			value := lexer.GetNextToken()
 
 			var qv float64
-			if qv, ParseException = strconv.ParseFloat(value.GetTokenValue(), 32); ParseException != nil {
+			if qv, ParseException = strconv.ParseFloat(nv.GetValue().(string), 32); ParseException != nil {
 				return nil, ParseException
 			}
 
-- 
2.43.0


From 20fcb3331c228d7391dd8b9c4b625ac80896219d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:20 +0000
Subject: [PATCH 058/159] fix: a Warning whose agent has a port was rejected,
 and a bad code after the first was taken for 0

---
 sip/parser/WarningParser.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/sip/parser/WarningParser.go b/sip/parser/WarningParser.go
index 492ee0d..631217d 100644
--- a/sip/parser/WarningParser.go
+++ b/sip/parser/WarningParser.go
@@ -66,7 +66,16 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 			return nil, ParseException
 		}
 		token = lexer.GetNextToken()
-		warning.SetAgent(token.GetTokenValue())
+		agent := token.GetTokenValue()
+		if ch, _ = lexer.LookAheadK(0); ch == ':' {
+			var port int
+			lexer.Match(':')
+			if port, ParseException = lexer.Number(); ParseException != nil {
+				return nil, ParseException
+			}
+			agent += ":" + strconv.Itoa(port)
+		}
+		warning.SetAgent(agent)
 		lexer.SPorHT()
 
 		// Parsing the text
@@ -94,7 +103,9 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 			if code, ParseException = strconv.Atoi(tok.GetTokenValue()); ParseException != nil {
 				return nil, ParseException
 			}
-			warning.SetCode(code)
+			if ParseException = warning.SetCode(code); ParseException != nil {
+				return nil, ParseException
+			}
 
 			lexer.SPorHT()
 
@@ -103,7 +114,16 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 				return nil, ParseException
 			}
 			tok = lexer.GetNextToken()
-			warning.SetAgent(tok.GetTokenValue())
+			agent = tok.GetTokenValue()
+			if ch, _ = lexer.LookAheadK(0); ch == ':' {
+				var port int
+				lexer.Match(':')
+				if port, ParseException = lexer.Number(); ParseException != nil {
+					return nil, ParseException
+				}
+				agent += ":" + strconv.Itoa(port)
+			}
+			warning.SetAgent(agent)
 			lexer.SPorHT()
 
 			// Parsing the text
-- 
2.43.0


From 85f87361d3c9b812f0c019dfaf500e0d17a17a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:24 +0000
Subject: [PATCH 059/159] fix: white space after the second call id of an
 In-Reply-To was rejected

---
 sip/parser/InReplyToParser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sip/parser/InReplyToParser.go b/sip/parser/InReplyToParser.go
index 56ff7b4..3870682 100644
--- a/sip/parser/InReplyToParser.go
+++ b/sip/parser/InReplyToParser.go
@@ -85,6 +85,7 @@ func (this *InReplyToParser) Parse() (sh header.Header, ParseException error) {
 			} else {
 				inReplyTo.SetCallId(token.GetTokenValue())
 			}
+			lexer.SPorHT()
 
 			inReplyToList.PushBack(inReplyTo)
 		}
-- 
2.43.0


From 72b708aae5f700e8a2f17604e8f0b669a98bfb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:27 +0000
Subject: [PATCH 060/159] fix: Subscription-State rejected white space and
 quoted values and dropped values it did not accept

---
 sip/parser/SubscriptionStateParser.go | 76 ++++++++-------------------
 1 file changed, 22 insertions(+), 54 deletions(-)

diff --git a/sip/parser/SubscriptionStateParser.go b/sip/parser/SubscriptionStateParser.go
index e4c5c83..2bc9ec0 100644
--- a/sip/parser/SubscriptionStateParser.go
+++ b/sip/parser/SubscriptionStateParser.go
@@ -51,70 +51,38 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 	token := lexer.GetNextToken()
 	subscriptionState.SetState(token.GetTokenValue())
 
+	lexer.SPorHT()
 	for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
 		lexer.Match(';')
 		lexer.SPorHT()
-		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-			return nil, ParseException
+		nv, err := this.NameValue('=')
+		if err != nil {
+			return nil, err
 		}
-		token = lexer.GetNextToken()
-		value := token.GetTokenValue()
-		if strings.ToLower(value) == "reason" {
-			if _, ParseException = lexer.Match('='); ParseException != nil {
-				return nil, ParseException
-			}
-			lexer.SPorHT()
-			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-				return nil, ParseException
-			}
-			token = lexer.GetNextToken()
-			value = token.GetTokenValue()
-			subscriptionState.SetReasonCode(value)
-		} else if strings.ToLower(value) == "expires" {
-			if _, ParseException = lexer.Match('='); ParseException != nil {
-				return nil, ParseException
-			}
-			lexer.SPorHT()
-			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-				return nil, ParseException
-			}
-			token = lexer.GetNextToken()
-			value = token.GetTokenValue()
-
+		value := nv.GetValue().(string)
+		switch strings.ToLower(nv.GetName()) {
+		case "reason":
+			ParseException = subscriptionState.SetReasonCode(value)
+		case "expires":
 			var expires int
-			if expires, ParseException = strconv.Atoi(value); ParseException != nil {
-				return nil, ParseException
-			}
-			subscriptionState.SetExpires(expires)
-		} else if strings.ToLower(value) == "retry-after" {
-			if _, ParseException = lexer.Match('='); ParseException != nil {
-				return nil, ParseException
+			if expires, ParseException = strconv.Atoi(value); ParseException == nil {
+				ParseException = subscriptionState.SetExpires(expires)
 			}
-			lexer.SPorHT()
-			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-				return nil, ParseException
-			}
-			token = lexer.GetNextToken()
-			value = token.GetTokenValue()
-
+		case "retry-after":
 			var retryAfter int
-			if retryAfter, ParseException = strconv.Atoi(value); ParseException != nil {
-				return nil, ParseException
-			}
-			subscriptionState.SetRetryAfter(retryAfter)
-		} else {
-			if _, ParseException = lexer.Match('='); ParseException != nil {
-				return nil, ParseException
+			if retryAfter, ParseException = strconv.Atoi(value); ParseException == nil {
+				ParseException = subscriptionState.SetRetryAfter(retryAfter)
 			}
-			lexer.SPorHT()
-			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-				return nil, ParseException
+		default:
+			if nv.IsValueQuoted() {
+				subscriptionState.SetQuotedParameter(nv.GetName(), value)
+			} else {
+				subscriptionState.SetParameter(nv.GetName(), value)
 			}
-			secondToken := lexer.GetNextToken()
-			secondValue := secondToken.GetTokenValue()
-			subscriptionState.SetParameter(value, secondValue)
 		}
-
+		if ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 	}
 
-- 
2.43.0


From f6c58678a927d9589bec697f2e6ac252efc85c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:38 +0000
Subject: [PATCH 061/159] fix: a quoted parameter of an authentication header
 lost its quotes that it needed

---
 sip/parser/AuthenticationInfoParser.go | 14 ++++++++++++--
 sip/parser/ChallengeParser.go          | 15 +++++++++++++--
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/sip/parser/AuthenticationInfoParser.go b/sip/parser/AuthenticationInfoParser.go
index 3959051..5afc92f 100644
--- a/sip/parser/AuthenticationInfoParser.go
+++ b/sip/parser/AuthenticationInfoParser.go
@@ -49,7 +49,12 @@ func (this *AuthenticationInfoParser) Parse() (sh header.Header, ParseException
 	if nv, ParseException = this.NameValue('='); ParseException != nil {
 		return nil, ParseException
 	}
-	authenticationInfo.SetParameter(nv.GetName(), nv.GetValue().(string))
+	if ParseException = authenticationInfo.SetParameter(nv.GetName(), nv.GetValue().(string)); ParseException != nil {
+		return nil, ParseException
+	}
+	if nv.IsValueQuoted() && !isToken(nv.GetValue().(string)) {
+		authenticationInfo.GetNameValue(nv.GetName()).SetQuotedValue()
+	}
 
 	lexer.SPorHT()
 	for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
@@ -59,7 +64,12 @@ func (this *AuthenticationInfoParser) Parse() (sh header.Header, ParseException
 		if nv, ParseException = this.NameValue('='); ParseException != nil {
 			return nil, ParseException
 		}
-		authenticationInfo.SetParameter(nv.GetName(), nv.GetValue().(string))
+		if ParseException = authenticationInfo.SetParameter(nv.GetName(), nv.GetValue().(string)); ParseException != nil {
+			return nil, ParseException
+		}
+		if nv.IsValueQuoted() && !isToken(nv.GetValue().(string)) {
+			authenticationInfo.GetNameValue(nv.GetName()).SetQuotedValue()
+		}
 
 		lexer.SPorHT()
 	}
diff --git a/sip/parser/ChallengeParser.go b/sip/parser/ChallengeParser.go
index b733f9e..920028e 100644
--- a/sip/parser/ChallengeParser.go
+++ b/sip/parser/ChallengeParser.go
@@ -46,8 +46,13 @@ func (this *ChallengeParser) ParseParameter(h header.AuthorizationHeader) (Parse
 	if nv, ParseException = this.NameValue('='); ParseException != nil {
 		return ParseException
 	}
-	ParseException = h.SetParameter(nv.GetName(), nv.GetValue().(string))
-	return ParseException
+	if ParseException = h.SetParameter(nv.GetName(), nv.GetValue().(string)); ParseException != nil {
+		return ParseException
+	}
+	if nv.IsValueQuoted() && !isToken(nv.GetValue().(string)) {
+		h.GetNameValue(nv.GetName()).SetQuotedValue()
+	}
+	return nil
 }
 
 /** parser the String message
@@ -80,3 +85,9 @@ func (this *ChallengeParser) Parse(h header.AuthorizationHeader) (ParseException
 	}
 	return nil
 }
+
+// isToken tells whether a value may be written without quotes.
+func isToken(value string) bool {
+	lexer := core.NewCoreLexer("CharLexer", value)
+	return value != "" && lexer.Ttoken() == value
+}
-- 
2.43.0


From 2aa8f893e6eb1fa672a136c2832a46ac1ff4c420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:43 +0000
Subject: [PATCH 062/159] fix: a stale flag written in upper case was taken for
 false

---
 sip/header/AuthenticationImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/AuthenticationImpl.go b/sip/header/AuthenticationImpl.go
index 410b227..33c25eb 100644
--- a/sip/header/AuthenticationImpl.go
+++ b/sip/header/AuthenticationImpl.go
@@ -344,7 +344,7 @@ func (this *Authentication) SetStale(stale bool) {
  */
 func (this *Authentication) IsStale() bool {
 	stale := this.GetParameter(ParameterNames_STALE)
-	if stale == "true" {
+	if strings.ToLower(stale) == "true" {
 		return true
 	} else {
 		return false
-- 
2.43.0


From 8b38a698f5ec0d810785fb04955b2849512fb20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:47 +0000
Subject: [PATCH 063/159] fix: the response set on an Authentication-Info could
 not be read back

---
 sip/header/AuthenticationInfoImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/AuthenticationInfoImpl.go b/sip/header/AuthenticationInfoImpl.go
index 25714ef..029bdb1 100644
--- a/sip/header/AuthenticationInfoImpl.go
+++ b/sip/header/AuthenticationInfoImpl.go
@@ -177,7 +177,7 @@ func (this *AuthenticationInfo) SetQop(qop string) (ParseException error) {
  *
  */
 func (this *AuthenticationInfo) SetResponse(response string) (ParseException error) {
-	return this.SetParameter(ParameterNames_RESPONSE, response)
+	return this.SetParameter(ParameterNames_RESPONSE_AUTH, response)
 }
 
 func (this *AuthenticationInfo) SetParameter(name, value string) error {
-- 
2.43.0


From a3e554b0631a6f491f30b2737a7d8cac11e5ce54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:51 +0000
Subject: [PATCH 064/159] fix: authentication parameters without a comma
 between them were accepted

---
 sip/parser/ChallengeParser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sip/parser/ChallengeParser.go b/sip/parser/ChallengeParser.go
index 920028e..b05ed6a 100644
--- a/sip/parser/ChallengeParser.go
+++ b/sip/parser/ChallengeParser.go
@@ -80,7 +80,9 @@ func (this *ChallengeParser) Parse(h header.AuthorizationHeader) (ParseException
 		if ch, ParseException = lexer.LookAheadK(0); ch == '\n' || ParseException != nil { //||ch=='\0'
 			break
 		}
-		lexer.Match(',')
+		if _, ParseException = lexer.Match(','); ParseException != nil {
+			return ParseException
+		}
 		lexer.SPorHT()
 	}
 	return nil
-- 
2.43.0


From 6a2d2537772837d21e167c9efda62dc002eb3f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:19 +0000
Subject: [PATCH 065/159] fix: encoding or reading a header that has not been
 filled in yet panicked

---
 sip/header/AlertInfoImpl.go   |  3 +++
 sip/header/CallInfoImpl.go    |  3 +++
 sip/header/ContactImpl.go     |  3 +++
 sip/header/ContentTypeImpl.go | 12 ++++++++++++
 sip/header/DateImpl.go        |  3 +++
 sip/header/ErrorInfoImpl.go   |  3 +++
 sip/header/FromImpl.go        |  9 +++++++++
 sip/header/InReplyToImpl.go   |  3 +++
 sip/header/RecordRouteImpl.go |  3 +++
 sip/header/ReferToImpl.go     |  3 +++
 sip/header/ReplyToImpl.go     |  9 +++++++++
 sip/header/RouteImpl.go       |  3 +++
 12 files changed, 57 insertions(+)

diff --git a/sip/header/AlertInfoImpl.go b/sip/header/AlertInfoImpl.go
index dbf11c9..56ec9c5 100644
--- a/sip/header/AlertInfoImpl.go
+++ b/sip/header/AlertInfoImpl.go
@@ -35,6 +35,9 @@ func (this *AlertInfo) String() string {
  * @return The value of the header in canonical encoding.
  */
 func (this *AlertInfo) EncodeBody() string {
+	if this.uri == nil {
+		return ""
+	}
 	var encoding bytes.Buffer
 	encoding.WriteString(core.SIPSeparatorNames_LESS_THAN)
 	encoding.WriteString(this.uri.String())
diff --git a/sip/header/CallInfoImpl.go b/sip/header/CallInfoImpl.go
index 15f65fc..087e35f 100644
--- a/sip/header/CallInfoImpl.go
+++ b/sip/header/CallInfoImpl.go
@@ -35,6 +35,9 @@ func (this *CallInfo) String() string {
  * @return String
  */
 func (this *CallInfo) EncodeBody() string {
+	if this.info == nil {
+		return ""
+	}
 	var encoding bytes.Buffer
 
 	encoding.WriteString(core.SIPSeparatorNames_LESS_THAN)
diff --git a/sip/header/ContactImpl.go b/sip/header/ContactImpl.go
index a563523..3f07fa5 100644
--- a/sip/header/ContactImpl.go
+++ b/sip/header/ContactImpl.go
@@ -53,6 +53,9 @@ func (this *Contact) EncodeBody() string {
 		encoding.WriteString("*")
 		return encoding.String()
 	}
+	if this.addr == nil {
+		return ""
+	}
 	addr, _ := this.addr.(*address.AddressImpl)
 	// Bug report by Joao Paulo
 	if addr.GetAddressType() == address.NAME_ADDR {
diff --git a/sip/header/ContentTypeImpl.go b/sip/header/ContentTypeImpl.go
index 16d847f..36529e9 100644
--- a/sip/header/ContentTypeImpl.go
+++ b/sip/header/ContentTypeImpl.go
@@ -61,6 +61,9 @@ func NewContentTypeFromString(contentType, contentSubtype string) *ContentType {
  * @return int.
  */
 func (this *ContentType) CompareMediaRange(media string) bool {
+	if this.mediaRange == nil {
+		return false
+	}
 	return strings.ToLower(this.mediaRange.mtype+"/"+this.mediaRange.subtype) == strings.ToLower(media)
 }
 
@@ -74,6 +77,9 @@ func (this *ContentType) String() string {
  * @return String.
  */
 func (this *ContentType) EncodeBody() string {
+	if this.mediaRange == nil {
+		return ""
+	}
 	if this.HasParameters() {
 		return this.mediaRange.String() + core.SIPSeparatorNames_SEMICOLON + this.parameters.String()
 	} else {
@@ -92,6 +98,9 @@ func (this *ContentType) GetMediaRange() *MediaRange {
  * @return String.
  */
 func (this *ContentType) GetMediaType() string {
+	if this.mediaRange == nil {
+		return ""
+	}
 	return this.mediaRange.mtype
 }
 
@@ -99,6 +108,9 @@ func (this *ContentType) GetMediaType() string {
  * @return String.
  */
 func (this *ContentType) GetMediaSubType() string {
+	if this.mediaRange == nil {
+		return ""
+	}
 	return this.mediaRange.subtype
 }
 
diff --git a/sip/header/DateImpl.go b/sip/header/DateImpl.go
index 5c55b2d..84ab4d8 100644
--- a/sip/header/DateImpl.go
+++ b/sip/header/DateImpl.go
@@ -33,6 +33,9 @@ func (this *Date) String() string {
  * @return String
  */
 func (this *Date) EncodeBody() string {
+	if this.date == nil {
+		return ""
+	}
 	return this.date.Format(time.RFC1123)
 }
 
diff --git a/sip/header/ErrorInfoImpl.go b/sip/header/ErrorInfoImpl.go
index d966bad..311df17 100644
--- a/sip/header/ErrorInfoImpl.go
+++ b/sip/header/ErrorInfoImpl.go
@@ -43,6 +43,9 @@ func (this *ErrorInfo) String() string {
  * @return String
  */
 func (this *ErrorInfo) EncodeBody() string {
+	if this.errorInfo == nil {
+		return ""
+	}
 	var encoding bytes.Buffer
 
 	encoding.WriteString(core.SIPSeparatorNames_LESS_THAN)
diff --git a/sip/header/FromImpl.go b/sip/header/FromImpl.go
index 65a3e48..0bb5f3b 100644
--- a/sip/header/FromImpl.go
+++ b/sip/header/FromImpl.go
@@ -73,6 +73,9 @@ func (this *From) String() string {
  * @return String
  */
 func (this *From) EncodeBody() string {
+	if this.addr == nil {
+		return ""
+	}
 	var retval bytes.Buffer
 	addr, _ := this.addr.(*address.AddressImpl)
 	if addr.GetAddressType() == address.ADDRESS_SPEC {
@@ -108,6 +111,9 @@ func (this *From) GetHostPort() (*core.HostPort, error) {
  * @return Display name
  */
 func (this *From) GetDisplayName() string {
+	if this.addr == nil {
+		return ""
+	}
 	return this.addr.GetDisplayName()
 }
 
@@ -164,6 +170,9 @@ func (this *From) SetTag(t string) (ParseException error) {
 /** Get the user@host port string.
  */
 func (this *From) GetUserAtHostPort() string {
+	if this.addr == nil {
+		return ""
+	}
 	addr, _ := this.addr.(*address.AddressImpl)
 	return addr.GetUserAtHostPort()
 }
diff --git a/sip/header/InReplyToImpl.go b/sip/header/InReplyToImpl.go
index 860460f..bfdeb70 100644
--- a/sip/header/InReplyToImpl.go
+++ b/sip/header/InReplyToImpl.go
@@ -66,5 +66,8 @@ func (this *InReplyTo) String() string {
  * @return String
  */
 func (this *InReplyTo) EncodeBody() string {
+	if this.callId == nil {
+		return ""
+	}
 	return this.callId.String()
 }
diff --git a/sip/header/RecordRouteImpl.go b/sip/header/RecordRouteImpl.go
index 46ad7f0..f8839ba 100644
--- a/sip/header/RecordRouteImpl.go
+++ b/sip/header/RecordRouteImpl.go
@@ -40,6 +40,9 @@ func (this *RecordRoute) String() string {
  *@return String containing the canonicaly encoded header.
  */
 func (this *RecordRoute) EncodeBody() string {
+	if this.addr == nil {
+		return ""
+	}
 	var encoding bytes.Buffer
 	addr, _ := this.addr.(*address.AddressImpl)
 	if addr.GetAddressType() == address.ADDRESS_SPEC {
diff --git a/sip/header/ReferToImpl.go b/sip/header/ReferToImpl.go
index 96eb280..7c30966 100644
--- a/sip/header/ReferToImpl.go
+++ b/sip/header/ReferToImpl.go
@@ -32,6 +32,9 @@ func (this *ReferTo) String() string {
  * @return String
  */
 func (this *ReferTo) EncodeBody() string {
+	if this.addr == nil {
+		return ""
+	}
 	var encoding bytes.Buffer
 	addr, _ := this.addr.(*address.AddressImpl)
 	if addr.GetAddressType() == address.ADDRESS_SPEC {
diff --git a/sip/header/ReplyToImpl.go b/sip/header/ReplyToImpl.go
index 3ccd2ce..8ee2b3b 100644
--- a/sip/header/ReplyToImpl.go
+++ b/sip/header/ReplyToImpl.go
@@ -43,6 +43,9 @@ func (this *ReplyTo) String() string {
  * @return String
  */
 func (this *ReplyTo) EncodeBody() string {
+	if this.addr == nil {
+		return ""
+	}
 	var encoding bytes.Buffer
 	addr, _ := this.addr.(*address.AddressImpl)
 	if addr.GetAddressType() == address.ADDRESS_SPEC {
@@ -65,6 +68,9 @@ func (this *ReplyTo) EncodeBody() string {
  * @return HostPort
  */
 func (this *ReplyTo) GetHostPort() *core.HostPort {
+	if this.addr == nil {
+		return nil
+	}
 	addr, _ := this.addr.(*address.AddressImpl)
 	hp, _ := addr.GetHostPort()
 	return hp
@@ -75,5 +81,8 @@ func (this *ReplyTo) GetHostPort() *core.HostPort {
  * @return String
  */
 func (this *ReplyTo) GetDisplayName() string {
+	if this.addr == nil {
+		return ""
+	}
 	return this.addr.GetDisplayName()
 }
diff --git a/sip/header/RouteImpl.go b/sip/header/RouteImpl.go
index a649a56..c0ba1f4 100644
--- a/sip/header/RouteImpl.go
+++ b/sip/header/RouteImpl.go
@@ -75,6 +75,9 @@ func (this *Route) String() string {
  *@return a canonical encoding of the header.
  */
 func (this *Route) EncodeBody() string {
+	if this.addr == nil {
+		return ""
+	}
 	var encoding bytes.Buffer
 	encoding.WriteString(this.addr.String())
 	if this.parameters != nil && this.parameters.Len() > 0 {
-- 
2.43.0


From 221f533fe11df3e022cdb58ff83d12ffbdcaaac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:20 +0000
Subject: [PATCH 066/159] fix: a new tel URL had no telephone number to read or
 set

---
 sip/address/TelURLImpl.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sip/address/TelURLImpl.go b/sip/address/TelURLImpl.go
index 0e88a76..cff99d7 100644
--- a/sip/address/TelURLImpl.go
+++ b/sip/address/TelURLImpl.go
@@ -19,6 +19,7 @@ func NewTelURLImpl() *TelURLImpl {
 	this := &TelURLImpl{}
 
 	this.scheme = "tel"
+	this.telephoneNumber = NewTelephoneNumber()
 
 	return this
 }
-- 
2.43.0


From bbf052a648d140317b3c6d692ca18c144a7c4de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:03 +0000
Subject: [PATCH 067/159] fix: a Date was rejected where the local time is
 called GMT

---
 sip/parser/DateParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/parser/DateParser.go b/sip/parser/DateParser.go
index e216dc6..dcfef19 100644
--- a/sip/parser/DateParser.go
+++ b/sip/parser/DateParser.go
@@ -38,7 +38,7 @@ func (this *DateParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
 	this.HeaderName(TokenTypes_DATE)
 	var t time.Time
-	if t, ParseException = time.Parse(time.RFC1123, strings.TrimSpace(lexer.GetRest())); ParseException != nil {
+	if t, ParseException = time.ParseInLocation(time.RFC1123, strings.TrimSpace(lexer.GetRest()), time.UTC); ParseException != nil {
 		return nil, ParseException
 	}
 	if t.Location().String() != "GMT" {
-- 
2.43.0


From fa9af3cf138113bc1e99b662d7a01afe5e8d5688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:04 +0000
Subject: [PATCH 068/159] fix: a Date set in another time zone was encoded in
 that zone instead of GMT

---
 sip/header/DateImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/DateImpl.go b/sip/header/DateImpl.go
index 84ab4d8..9276b7c 100644
--- a/sip/header/DateImpl.go
+++ b/sip/header/DateImpl.go
@@ -36,7 +36,7 @@ func (this *Date) EncodeBody() string {
 	if this.date == nil {
 		return ""
 	}
-	return this.date.Format(time.RFC1123)
+	return this.date.UTC().Format("Mon, 02 Jan 2006 15:04:05 GMT")
 }
 
 /**
-- 
2.43.0


From 63247b0ec4bed541c1a2acbe7d50374ee0dfc2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:51 +0000
Subject: [PATCH 069/159] fix: a sips URI was not taken for a SIP URI

---
 sip/parser/SIPLexer.go  | 1 +
 sip/parser/URLParser.go | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sip/parser/SIPLexer.go b/sip/parser/SIPLexer.go
index 1cf7eea..512703b 100644
--- a/sip/parser/SIPLexer.go
+++ b/sip/parser/SIPLexer.go
@@ -138,6 +138,7 @@ func (this *SIPLexer) SelectLexer(lexerName string) {
 			this.AddKeyword(strings.ToUpper(core.SIPTransportNames_SIP), TokenTypes_SIP)
 		} else if lexerName == "sip_urlLexer" {
 			this.AddKeyword(strings.ToUpper(core.SIPTransportNames_TEL), TokenTypes_TEL)
+			this.AddKeyword(strings.ToUpper(core.SIPTransportNames_SIPS), TokenTypes_SIP)
 			this.AddKeyword(strings.ToUpper(core.SIPTransportNames_SIP), TokenTypes_SIP)
 		}
 	} /*else{
diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index 33bfd66..c988961 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -435,13 +435,14 @@ func (this *URLParser) TelURL() (telUrl *address.TelURLImpl, ParseException erro
 func (this *URLParser) SipURL() (sipurl *address.SipURIImpl, ParseException error) {
 	retval := address.NewSipURIImpl()
 
-	if _, ParseException = this.GetLexer().Match(TokenTypes_SIP); ParseException != nil {
+	var scheme *core.Token
+	if scheme, ParseException = this.GetLexer().Match(TokenTypes_SIP); ParseException != nil {
 		return nil, ParseException
 	}
 	if _, ParseException = this.GetLexer().Match(':'); ParseException != nil {
 		return nil, ParseException
 	}
-	retval.SetScheme(core.SIPTransportNames_SIP)
+	retval.SetScheme(scheme.GetTokenValue())
 
 	// The user info part, if there is one, is what precedes an '@'.
 	start := this.GetLexer().MarkInputPosition()
-- 
2.43.0


From 524c9643c2ad1e7fad87aa6d798c73e334133612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:42 +0000
Subject: [PATCH 070/159] fix: a default for a sip URI parameter without a
 value added it a second time

---
 sip/address/SipURIImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index b0e27e1..49affb0 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -459,7 +459,7 @@ func (this *SipURIImpl) RemoveUser() {
  * @param value value of the parameter to set.
  */
 func (this *SipURIImpl) SetDefaultParm(name string, value interface{}) {
-	if this.uriParms.GetValue(name) == nil {
+	if !this.uriParms.HasNameValue(name) {
 		nv := core.NewNameValue(name, value)
 		this.uriParms.AddNameValue(nv)
 	}
-- 
2.43.0


From b348ede14b356c0fa9ad4c8ffa1eb032a91c00f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:10 +0000
Subject: [PATCH 071/159] fix: deleting a parameter left others of the same
 name

---
 core/NameValueList.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/NameValueList.go b/core/NameValueList.go
index 87c54a4..1f9128e 100644
--- a/core/NameValueList.go
+++ b/core/NameValueList.go
@@ -220,15 +220,18 @@ func (nameValueList *NameValueList) HasNameValue(name string) bool {
 * @since 1.0
  */
 func (nameValueList *NameValueList) Delete(name string) bool {
-	for e := nameValueList.Front(); e != nil; e = e.Next() {
+	deleted := false
+	for e := nameValueList.Front(); e != nil; {
+		next := e.Next()
 		nv := e.Value.(*NameValue)
 		if strings.EqualFold(nv.GetName(), name) {
 			nameValueList.Remove(e)
-			return true
+			deleted = true
 		}
+		e = next
 	}
 
-	return false
+	return deleted
 }
 
 /**
-- 
2.43.0


From c123091567a2c0246c982e1f01abb4f0d31a5f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:11 +0000
Subject: [PATCH 072/159] fix: no address was ever taken for a SIP address

---
 sip/address/AddressImpl.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sip/address/AddressImpl.go b/sip/address/AddressImpl.go
index d298641..ab8e1ef 100644
--- a/sip/address/AddressImpl.go
+++ b/sip/address/AddressImpl.go
@@ -244,8 +244,7 @@ func (this *AddressImpl) RemoveDisplayName() {
  *
  */
 func (this *AddressImpl) IsSIPAddress() bool {
-	_, ok := this.address.(SipURI)
-	return ok
+	return this.address != nil && this.address.IsSipURI()
 }
 
 /** Returns the URI address of this Address. The type of URI can be
-- 
2.43.0


From f6fd747c797489ca50d3c3e946eb9e2f7c7203db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:49 +0000
Subject: [PATCH 073/159] fix: text left over after a URI, address, host or
 telephone number was ignored

---
 sip/parser/StringMsgParser.go | 59 +++++++++++++++++++++++++++++++----
 1 file changed, 53 insertions(+), 6 deletions(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index 2793e9c..004b946 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -368,6 +368,16 @@ func (this *StringMsgParser) ParseMessage(currentMessage string) (message.Messag
 	return sipmsg, nil
 }
 
+/**
+ * Check that only white space is left of what was parsed.
+ */
+func atEnd(lexer core.Lexer) error {
+	if rest := strings.TrimSpace(lexer.GetRest()); rest != "" {
+		return errors.New("ParseException: unexpected text: " + rest)
+	}
+	return nil
+}
+
 /**
  * Parse an address (nameaddr or address spec)  and return and address
  * structure.
@@ -378,7 +388,14 @@ func (this *StringMsgParser) ParseMessage(currentMessage string) (message.Messag
 
 func (this *StringMsgParser) ParseAddress(address string) (*address.AddressImpl, error) {
 	addressParser := NewAddressParser(address)
-	return addressParser.Address()
+	addr, err := addressParser.Address()
+	if err == nil {
+		err = atEnd(addressParser.GetLexer())
+	}
+	if err != nil {
+		return nil, err
+	}
+	return addr, nil
 }
 
 /**
@@ -389,7 +406,14 @@ func (this *StringMsgParser) ParseAddress(address string) (*address.AddressImpl,
  */
 func (this *StringMsgParser) ParseHostPort(hostport string) (*core.HostPort, error) {
 	lexer := NewSIPLexer("charLexer", hostport)
-	return core.NewHostNameParserFromLexer(lexer).GetHostPort()
+	hp, err := core.NewHostNameParserFromLexer(lexer).GetHostPort()
+	if err == nil {
+		err = atEnd(lexer)
+	}
+	if err != nil {
+		return nil, err
+	}
+	return hp, nil
 }
 
 /**
@@ -400,7 +424,14 @@ func (this *StringMsgParser) ParseHostPort(hostport string) (*core.HostPort, err
  */
 func (this *StringMsgParser) ParseHost(host string) (*core.Host, error) {
 	lexer := NewSIPLexer("charLexer", host)
-	return core.NewHostNameParserFromLexer(lexer).GetHost()
+	h, err := core.NewHostNameParserFromLexer(lexer).GetHost()
+	if err == nil {
+		err = atEnd(lexer)
+	}
+	if err != nil {
+		return nil, err
+	}
+	return h, nil
 }
 
 /**
@@ -411,7 +442,15 @@ func (this *StringMsgParser) ParseHost(host string) (*core.Host, error) {
  * @exception throws a ParseException when the address is badly formatted.
  */
 func (this *StringMsgParser) ParSetelephoneNumber(telephone_number string) (*address.TelephoneNumber, error) {
-	return NewURLParser(telephone_number).ParseTelephoneNumber()
+	urlParser := NewURLParser(telephone_number)
+	tn, err := urlParser.ParseTelephoneNumber()
+	if err == nil {
+		err = atEnd(urlParser.GetLexer())
+	}
+	if err != nil {
+		return nil, err
+	}
+	return tn, nil
 }
 
 /**
@@ -421,7 +460,11 @@ func (this *StringMsgParser) ParSetelephoneNumber(telephone_number string) (*add
  * @exception ParseException  if there was an error parsing the message.
  */
 func (this *StringMsgParser) ParseSIPUrl(url string) (*address.SipURIImpl, error) {
-	uri, err := NewURLParser(url).Parse()
+	urlParser := NewURLParser(url)
+	uri, err := urlParser.Parse()
+	if err == nil {
+		err = atEnd(urlParser.GetLexer())
+	}
 	if err != nil {
 		return nil, err
 	}
@@ -439,7 +482,11 @@ func (this *StringMsgParser) ParseSIPUrl(url string) (*address.SipURIImpl, error
  * @exception ParseException  if there was an error parsing the message.
  */
 func (this *StringMsgParser) ParseUrl(url string) (*address.URIImpl, error) {
-	uri, err := NewURLParser(url).Parse()
+	urlParser := NewURLParser(url)
+	uri, err := urlParser.Parse()
+	if err == nil {
+		err = atEnd(urlParser.GetLexer())
+	}
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From b2c6a508289f74be8a5e04c7edafb874e869bd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:19 +0000
Subject: [PATCH 074/159] fix: a tel URL parameter without a value was encoded
 so that it could not be read back

---
 sip/parser/URLParser.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index c988961..ed436d9 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -392,9 +392,19 @@ func (this *URLParser) Tel_parameters() (nvl *core.NameValueList, ParseException
 	var nv *core.NameValue
 	nvList := core.NewNameValueList("tel_parameters")
 	for {
+		// Is it a name only?
+		start := this.GetLexer().MarkInputPosition()
+		this.GetLexer().Ttoken()
+		this.GetLexer().SPorHT()
+		la, _ := this.GetLexer().LookAheadK(0)
+		noValue := la != '='
+		this.GetLexer().RewindInputPosition(start)
 		if nv, ParseException = this.NameValue('='); ParseException != nil {
 			return nil, ParseException
 		}
+		if noValue {
+			nv.SetValue(nil)
+		}
 		nvList.AddNameValue(nv)
 		tok, _ := this.GetLexer().LookAheadK(0)
 		if tok == ';' {
-- 
2.43.0


From ab96842575ebcc46c3a14133d9af11560bbb2a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:00 +0000
Subject: [PATCH 075/159] fix: text after the version of a request line was
 ignored

---
 sip/parser/RequestLineParser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sip/parser/RequestLineParser.go b/sip/parser/RequestLineParser.go
index ce3b8bd..e643c9d 100644
--- a/sip/parser/RequestLineParser.go
+++ b/sip/parser/RequestLineParser.go
@@ -52,7 +52,9 @@ func (this *RequestLineParser) Parse() (rl *header.RequestLine, ParseException e
 	}
 	retval.SetSipVersion(v)
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, this.CreateParseException("Expecting end of line")
+	}
 
 	return retval, nil
 }
-- 
2.43.0


From 85853e0263ef306051d77081081843d812a8c18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:01 +0000
Subject: [PATCH 076/159] fix: a status line with a code that is no three-digit
 number was accepted

---
 sip/parser/StatusLineParser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sip/parser/StatusLineParser.go b/sip/parser/StatusLineParser.go
index 3b8ecdc..5e4a0e3 100644
--- a/sip/parser/StatusLineParser.go
+++ b/sip/parser/StatusLineParser.go
@@ -50,6 +50,9 @@ func (this *StatusLineParser) Parse() (sl *header.StatusLine, ParseException err
 	if scode, ParseException = this.StatusCode(); ParseException != nil {
 		return nil, ParseException
 	}
+	if la, _ := lexer.LookAheadK(0); scode < 100 || scode > 699 || la != ' ' && la != '\t' && la != '\n' {
+		return nil, this.CreateParseException("bad status code")
+	}
 	retval.SetStatusCode(scode)
 	lexer.SPorHT()
 	rp := this.ReasonPhrase()
-- 
2.43.0


From 3385712e684acbb2a1ed4cd1b53ecb42ef61d15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:08 +0000
Subject: [PATCH 077/159] fix: the compact form of Refer-To was taken for an
 unknown header

---
 sip/parser/ParserFactory.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sip/parser/ParserFactory.go b/sip/parser/ParserFactory.go
index ee14e16..819b50b 100644
--- a/sip/parser/ParserFactory.go
+++ b/sip/parser/ParserFactory.go
@@ -147,6 +147,8 @@ func CreateParser(line string) (parser Parser, ParseException error) {
 		parser = NewAcceptParser(line)
 	case strings.ToLower(core.SIPHeaderNames_REFER_TO):
 		parser = NewReferToParser(line)
+	case "r":
+		parser = NewReferToParser(line)
 	default:
 		// Just generate a generic SIPHeader. We define
 		// parsers only for the above.
-- 
2.43.0


From 39e209465aa8e33badce8ecf6da7476bba006d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:41 +0000
Subject: [PATCH 078/159] fix: text after a comment at the start of a Server or
 User-Agent product was encoded with a slash before it

---
 sip/parser/ServerParser.go    | 44 +++++++++++++++++++++--------------
 sip/parser/UserAgentParser.go | 20 ++--------------
 2 files changed, 28 insertions(+), 36 deletions(-)

diff --git a/sip/parser/ServerParser.go b/sip/parser/ServerParser.go
index 8cd0ffb..e890b5f 100644
--- a/sip/parser/ServerParser.go
+++ b/sip/parser/ServerParser.go
@@ -46,25 +46,33 @@ func (this *ServerParser) Parse() (sh header.Header, ParseException error) {
 	}
 
 	//  mandatory token: product[/product-version] | (comment)
-	for ch, ParseException = lexer.LookAheadK(0); ch != '\n' && ParseException == nil; ch, ParseException = lexer.LookAheadK(0) {
-		if ch == '(' {
-			comment, _ := lexer.Comment()
-			server.AddProductToken("(" + comment + ")")
-		} else {
-			var tok string
-			tok, ParseException = lexer.GetString('/')
-			if ParseException != nil {
-				tok = lexer.GetRest()
-				server.AddProductToken(strings.TrimSpace(tok))
-				break
-			} else {
-				if tok != "" && tok[len(tok)-1] == '\n' {
-					tok = strings.TrimSpace(tok)
-				}
-				server.AddProductToken(tok)
-			}
-		}
+	for _, tok := range productTokens(strings.TrimSpace(lexer.GetRest())) {
+		server.AddProductToken(tok)
 	}
 
 	return server, nil
 }
+
+// productTokens splits the text of a Server or User-Agent header at every
+// slash outside a comment.
+func productTokens(s string) (tokens []string) {
+	depth, start := 0, 0
+	for i := 0; i < len(s); i++ {
+		switch s[i] {
+		case '\\':
+			i++
+		case '(':
+			depth++
+		case ')':
+			if depth > 0 {
+				depth--
+			}
+		case '/':
+			if depth == 0 {
+				tokens = append(tokens, s[start:i])
+				start = i + 1
+			}
+		}
+	}
+	return append(tokens, s[start:])
+}
diff --git a/sip/parser/UserAgentParser.go b/sip/parser/UserAgentParser.go
index 9d5a0c6..790ef08 100644
--- a/sip/parser/UserAgentParser.go
+++ b/sip/parser/UserAgentParser.go
@@ -47,24 +47,8 @@ func (this *UserAgentParser) Parse() (sh header.Header, ParseException error) {
 	}
 
 	//  mandatory token: product[/product-version] | (comment)
-	for ch, ParseException = lexer.LookAheadK(0); ch != '\n' && ParseException == nil; ch, ParseException = lexer.LookAheadK(0) {
-		if ch == '(' {
-			comment, _ := lexer.Comment()
-			userAgent.AddProductToken("(" + comment + ")")
-		} else {
-			var tok string
-			tok, ParseException = lexer.GetString('/')
-			if ParseException != nil {
-				tok = lexer.GetRest()
-				userAgent.AddProductToken(strings.TrimSpace(tok))
-				break
-			} else {
-				if tok != "" && tok[len(tok)-1] == '\n' {
-					tok = strings.TrimSpace(tok)
-				}
-				userAgent.AddProductToken(tok)
-			}
-		}
+	for _, tok := range productTokens(strings.TrimSpace(lexer.GetRest())) {
+		userAgent.AddProductToken(tok)
 	}
 
 	return userAgent, nil
-- 
2.43.0


From 2c429bd76a83fa2b126419decfadbb26a6cc3146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:58 +0000
Subject: [PATCH 079/159] fix: text left over in a header was dropped without
 an error

---
 sip/parser/AcceptParser.go             |  4 ++++
 sip/parser/AllowEventsParser.go        |  5 +++--
 sip/parser/AllowParser.go              |  5 +++--
 sip/parser/AuthenticationInfoParser.go |  5 +++--
 sip/parser/ContentDispositionParser.go |  5 +++--
 sip/parser/ContentTypeParser.go        |  4 +++-
 sip/parser/EventParser.go              |  5 +++--
 sip/parser/FromParser.go               |  5 ++++-
 sip/parser/HeaderParser.go             | 11 +++++++++++
 sip/parser/ReferToParser.go            |  6 ++++--
 sip/parser/ReplyToParser.go            |  4 +++-
 sip/parser/SubscriptionStateParser.go  |  4 ++++
 sip/parser/ToParser.go                 |  5 ++++-
 13 files changed, 52 insertions(+), 16 deletions(-)

diff --git a/sip/parser/AcceptParser.go b/sip/parser/AcceptParser.go
index d2bf923..fca11e9 100644
--- a/sip/parser/AcceptParser.go
+++ b/sip/parser/AcceptParser.go
@@ -103,5 +103,9 @@ func (this *AcceptParser) Parse() (sh header.Header, ParseException error) {
 		acceptList.PushBack(accept)
 
 	}
+	if ParseException = this.EndOfLine(); ParseException != nil {
+		return nil, ParseException
+	}
+
 	return acceptList, nil
 }
diff --git a/sip/parser/AllowEventsParser.go b/sip/parser/AllowEventsParser.go
index 73eab1d..00c162d 100644
--- a/sip/parser/AllowEventsParser.go
+++ b/sip/parser/AllowEventsParser.go
@@ -69,8 +69,9 @@ func (this *AllowEventsParser) Parse() (sh header.Header, ParseException error)
 		allowEventsList.PushBack(allowEvents)
 		lexer.SPorHT()
 	}
-	lexer.SPorHT()
-	lexer.Match('\n')
+	if ParseException = this.EndOfLine(); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return allowEventsList, nil
 }
diff --git a/sip/parser/AllowParser.go b/sip/parser/AllowParser.go
index 2e73776..f777544 100644
--- a/sip/parser/AllowParser.go
+++ b/sip/parser/AllowParser.go
@@ -68,8 +68,9 @@ func (this *AllowParser) Parse() (sh header.Header, ParseException error) {
 		allowList.PushBack(allow)
 		lexer.SPorHT()
 	}
-	lexer.SPorHT()
-	lexer.Match('\n')
+	if ParseException = this.EndOfLine(); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return allowList, nil
 }
diff --git a/sip/parser/AuthenticationInfoParser.go b/sip/parser/AuthenticationInfoParser.go
index 5afc92f..d2dfb2b 100644
--- a/sip/parser/AuthenticationInfoParser.go
+++ b/sip/parser/AuthenticationInfoParser.go
@@ -73,8 +73,9 @@ func (this *AuthenticationInfoParser) Parse() (sh header.Header, ParseException
 
 		lexer.SPorHT()
 	}
-	lexer.SPorHT()
-	lexer.Match('\n')
+	if ParseException = this.EndOfLine(); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return authenticationInfo, nil
 }
diff --git a/sip/parser/ContentDispositionParser.go b/sip/parser/ContentDispositionParser.go
index fcbb284..75479aa 100644
--- a/sip/parser/ContentDispositionParser.go
+++ b/sip/parser/ContentDispositionParser.go
@@ -53,8 +53,9 @@ func (this *ContentDispositionParser) Parse() (sh header.Header, ParseException
 		return nil, ParseException
 	}
 
-	lexer.SPorHT()
-	lexer.Match('\n')
+	if ParseException = this.EndOfLine(); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return cd, nil
 }
diff --git a/sip/parser/ContentTypeParser.go b/sip/parser/ContentTypeParser.go
index 0a9d7bf..d47fb03 100644
--- a/sip/parser/ContentTypeParser.go
+++ b/sip/parser/ContentTypeParser.go
@@ -51,7 +51,9 @@ func (this *ContentTypeParser) Parse() (sh header.Header, ParseException error)
 	if ParseException = this.ParametersParser.Parse(contentType); ParseException != nil {
 		return nil, ParseException
 	}
-	lexer.Match('\n')
+	if ParseException = this.EndOfLine(); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return contentType, nil
 }
diff --git a/sip/parser/EventParser.go b/sip/parser/EventParser.go
index 96796cb..3be7c68 100644
--- a/sip/parser/EventParser.go
+++ b/sip/parser/EventParser.go
@@ -51,8 +51,9 @@ func (this *EventParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 
-	lexer.SPorHT()
-	lexer.Match('\n')
+	if ParseException = this.EndOfLine(); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return event, nil
 }
diff --git a/sip/parser/FromParser.go b/sip/parser/FromParser.go
index 2b0c006..e5746dc 100644
--- a/sip/parser/FromParser.go
+++ b/sip/parser/FromParser.go
@@ -36,6 +36,9 @@ func (this *FromParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 
-	this.GetLexer().Match('\n')
+	if ParseException = this.EndOfLine(); ParseException != nil {
+		return nil, ParseException
+	}
+
 	return from, nil
 }
diff --git a/sip/parser/HeaderParser.go b/sip/parser/HeaderParser.go
index 7645356..5173ec3 100644
--- a/sip/parser/HeaderParser.go
+++ b/sip/parser/HeaderParser.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"errors"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
 	"strings"
@@ -76,3 +77,13 @@ func (this *HeaderParser) HeaderName(tok int) {
 	this.GetLexer().Match(':')
 	this.GetLexer().SPorHT()
 }
+
+/** EndOfLine fails when something is left of the header's line.
+ */
+func (this *HeaderParser) EndOfLine() (ParseException error) {
+	line := strings.SplitN(this.GetLexer().GetRest(), "\n", 2)[0]
+	if line = strings.TrimSpace(line); line != "" {
+		return errors.New("ParseException: unexpected text: " + line)
+	}
+	return nil
+}
diff --git a/sip/parser/ReferToParser.go b/sip/parser/ReferToParser.go
index 7985945..70248a0 100644
--- a/sip/parser/ReferToParser.go
+++ b/sip/parser/ReferToParser.go
@@ -27,12 +27,14 @@ func NewReferToParserFromLexer(lexer core.Lexer) *ReferToParser {
 }
 
 func (this *ReferToParser) Parse() (sh header.Header, ParseException error) {
-	lexer := this.GetLexer()
 	this.HeaderName(TokenTypes_REFER_TO)
 	referTo := header.NewReferTo()
 	if ParseException = this.AddressParametersParser.Parse(referTo); ParseException != nil {
 		return nil, ParseException
 	}
-	lexer.Match('\n')
+	if ParseException = this.EndOfLine(); ParseException != nil {
+		return nil, ParseException
+	}
+
 	return referTo, nil
 }
diff --git a/sip/parser/ReplyToParser.go b/sip/parser/ReplyToParser.go
index b6e0a60..9657805 100644
--- a/sip/parser/ReplyToParser.go
+++ b/sip/parser/ReplyToParser.go
@@ -41,7 +41,9 @@ func (this *ReplyToParser) Parse() (sh header.Header, ParseException error) {
 
 	replyTo.SetHeaderName(core.SIPHeaderNames_REPLY_TO)
 
-	ParseException = this.AddressParametersParser.Parse(replyTo)
+	if ParseException = this.AddressParametersParser.Parse(replyTo); ParseException == nil {
+		ParseException = this.EndOfLine()
+	}
 
 	return replyTo, ParseException
 }
diff --git a/sip/parser/SubscriptionStateParser.go b/sip/parser/SubscriptionStateParser.go
index 2bc9ec0..2ea27fe 100644
--- a/sip/parser/SubscriptionStateParser.go
+++ b/sip/parser/SubscriptionStateParser.go
@@ -86,5 +86,9 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 		lexer.SPorHT()
 	}
 
+	if ParseException = this.EndOfLine(); ParseException != nil {
+		return nil, ParseException
+	}
+
 	return subscriptionState, nil
 }
diff --git a/sip/parser/ToParser.go b/sip/parser/ToParser.go
index f34cb9b..7feae19 100644
--- a/sip/parser/ToParser.go
+++ b/sip/parser/ToParser.go
@@ -34,6 +34,9 @@ func (this *ToParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 
-	this.GetLexer().Match('\n')
+	if ParseException = this.EndOfLine(); ParseException != nil {
+		return nil, ParseException
+	}
+
 	return to, nil
 }
-- 
2.43.0


From 660254548aeb7fa26ade5d36ae4d3cd0e94332b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:39 +0000
Subject: [PATCH 080/159] fix: text after the number, method or token of a
 header was dropped without an error

---
 sip/parser/CSeqParser.go          | 5 +++--
 sip/parser/ContentLengthParser.go | 6 ++++--
 sip/parser/ExpiresParser.go       | 5 ++++-
 sip/parser/MaxForwardsParser.go   | 5 +++--
 sip/parser/MimeVersionParser.go   | 7 +++----
 sip/parser/MinExpiresParser.go    | 7 +++----
 sip/parser/PriorityParser.go      | 6 +++---
 sip/parser/RAckParser.go          | 6 +++---
 sip/parser/RSeqParser.go          | 6 +++---
 sip/parser/RetryAfterParser.go    | 3 +++
 sip/parser/TimeStampParser.go     | 3 +++
 11 files changed, 35 insertions(+), 24 deletions(-)

diff --git a/sip/parser/CSeqParser.go b/sip/parser/CSeqParser.go
index 8f3c5fa..4a05d0d 100644
--- a/sip/parser/CSeqParser.go
+++ b/sip/parser/CSeqParser.go
@@ -44,10 +44,11 @@ func (this *CSeqParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 	//c.SetMethod(m);
-	lexer.SPorHT()
-	lexer.Match('\n')
 
 	c := header.NewCSeq(number, method)
+	if ParseException = this.EndOfLine(); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return c, nil
 }
diff --git a/sip/parser/ContentLengthParser.go b/sip/parser/ContentLengthParser.go
index eb1ffbf..9750b0e 100644
--- a/sip/parser/ContentLengthParser.go
+++ b/sip/parser/ContentLengthParser.go
@@ -34,7 +34,9 @@ func (this *ContentLengthParser) Parse() (sh header.Header, ParseException error
 	if ParseException = contentLength.SetContentLength(number); ParseException != nil {
 		return nil, ParseException
 	}
-	lexer.SPorHT()
-	lexer.Match('\n')
+	if ParseException = this.EndOfLine(); ParseException != nil {
+		return nil, ParseException
+	}
+
 	return contentLength, nil
 }
diff --git a/sip/parser/ExpiresParser.go b/sip/parser/ExpiresParser.go
index a2b8443..2616f24 100644
--- a/sip/parser/ExpiresParser.go
+++ b/sip/parser/ExpiresParser.go
@@ -42,11 +42,14 @@ func (this *ExpiresParser) Parse() (sh header.Header, ParseException error) {
 	lexer.Match(':')
 	lexer.SPorHT()
 	nextId := lexer.GetNextId()
-	lexer.Match('\n')
 	var delta int64
 	if delta, ParseException = strconv.ParseInt(nextId, 10, 32); ParseException != nil {
 		return nil, ParseException
 	}
 	expires.SetExpires(int(delta))
+	if ParseException = this.EndOfLine(); ParseException != nil {
+		return nil, ParseException
+	}
+
 	return expires, ParseException
 }
diff --git a/sip/parser/MaxForwardsParser.go b/sip/parser/MaxForwardsParser.go
index ed4bd0b..619311e 100644
--- a/sip/parser/MaxForwardsParser.go
+++ b/sip/parser/MaxForwardsParser.go
@@ -38,8 +38,9 @@ func (this *MaxForwardsParser) Parse() (sh header.Header, ParseException error)
 	if ParseException = contentLength.SetMaxForwards(number); ParseException != nil {
 		return nil, ParseException
 	}
-	lexer.SPorHT()
-	lexer.Match('\n')
+	if ParseException = this.EndOfLine(); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return contentLength, nil
 }
diff --git a/sip/parser/MimeVersionParser.go b/sip/parser/MimeVersionParser.go
index 6b74bfb..f84bdab 100644
--- a/sip/parser/MimeVersionParser.go
+++ b/sip/parser/MimeVersionParser.go
@@ -51,10 +51,9 @@ func (this *MimeVersionParser) Parse() (sh header.Header, ParseException error)
 		return nil, ParseException
 	}
 	mimeVersion.SetMinorVersion(minorVersion)
-
-	lexer.SPorHT()
-
-	lexer.Match('\n')
+	if ParseException = this.EndOfLine(); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return mimeVersion, nil
 }
diff --git a/sip/parser/MinExpiresParser.go b/sip/parser/MinExpiresParser.go
index 05c5f54..c9319ab 100644
--- a/sip/parser/MinExpiresParser.go
+++ b/sip/parser/MinExpiresParser.go
@@ -47,10 +47,9 @@ func (this *MinExpiresParser) Parse() (sh header.Header, ParseException error) {
 	}
 
 	minExpires.SetExpires(number)
-
-	lexer.SPorHT()
-
-	lexer.Match('\n')
+	if ParseException = this.EndOfLine(); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return minExpires, nil
 }
diff --git a/sip/parser/PriorityParser.go b/sip/parser/PriorityParser.go
index 8cfa0c5..8a153c4 100644
--- a/sip/parser/PriorityParser.go
+++ b/sip/parser/PriorityParser.go
@@ -48,9 +48,9 @@ func (this *PriorityParser) Parse() (sh header.Header, ParseException error) {
 	token := lexer.GetNextToken()
 
 	priority.SetPriority(token.GetTokenValue())
-
-	lexer.SPorHT()
-	lexer.Match('\n')
+	if ParseException = this.EndOfLine(); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return priority, nil
 }
diff --git a/sip/parser/RAckParser.go b/sip/parser/RAckParser.go
index 5688791..836167f 100644
--- a/sip/parser/RAckParser.go
+++ b/sip/parser/RAckParser.go
@@ -57,9 +57,9 @@ func (this *RAckParser) Parse() (sh header.Header, ParseException error) {
 	}
 	token := lexer.GetNextToken()
 	rack.SetMethod(token.GetTokenValue())
-
-	lexer.SPorHT()
-	lexer.Match('\n')
+	if ParseException = this.EndOfLine(); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return rack, nil
 }
diff --git a/sip/parser/RSeqParser.go b/sip/parser/RSeqParser.go
index ae7f2aa..ffb95ca 100644
--- a/sip/parser/RSeqParser.go
+++ b/sip/parser/RSeqParser.go
@@ -46,9 +46,9 @@ func (this *RSeqParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 	rseq.SetSequenceNumber(number)
-
-	lexer.SPorHT()
-	lexer.Match('\n')
+	if ParseException = this.EndOfLine(); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return rseq, nil
 }
diff --git a/sip/parser/RetryAfterParser.go b/sip/parser/RetryAfterParser.go
index 0348302..fa67022 100644
--- a/sip/parser/RetryAfterParser.go
+++ b/sip/parser/RetryAfterParser.go
@@ -88,6 +88,9 @@ func (this *RetryAfterParser) Parse() (sh header.Header, ParseException error) {
 		}
 		lexer.SPorHT()
 	}
+	if ParseException = this.EndOfLine(); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return retryAfter, nil
 }
diff --git a/sip/parser/TimeStampParser.go b/sip/parser/TimeStampParser.go
index 30bada4..66e05ab 100644
--- a/sip/parser/TimeStampParser.go
+++ b/sip/parser/TimeStampParser.go
@@ -60,6 +60,9 @@ func (this *TimeStampParser) Parse() (sh header.Header, ParseException error) {
 
 		timeStamp.SetDelay(ts)
 	}
+	if ParseException = this.EndOfLine(); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return timeStamp, nil
 }
-- 
2.43.0


From 6048356e748983d3ce9f2701342b42a8cc71beb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:29 +0000
Subject: [PATCH 081/159] fix: Retry-After parameters without a value, quoted,
 in upper case or with white space were rejected

---
 sip/parser/RetryAfterParser.go | 43 ++++++++++++++++------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/sip/parser/RetryAfterParser.go b/sip/parser/RetryAfterParser.go
index fa67022..5a028b2 100644
--- a/sip/parser/RetryAfterParser.go
+++ b/sip/parser/RetryAfterParser.go
@@ -3,6 +3,8 @@ package parser
 import (
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
+	"strconv"
+	"strings"
 )
 
 /** SIPParser for RetryAfter header.
@@ -49,7 +51,10 @@ func (this *RetryAfterParser) Parse() (sh header.Header, ParseException error) {
 
 	lexer.SPorHT()
 	if ch, _ = lexer.LookAheadK(0); ch == '(' {
-		comment, _ := lexer.Comment()
+		var comment string
+		if comment, ParseException = lexer.Comment(); ParseException != nil {
+			return nil, ParseException
+		}
 		retryAfter.SetComment(comment)
 	}
 	lexer.SPorHT()
@@ -57,34 +62,26 @@ func (this *RetryAfterParser) Parse() (sh header.Header, ParseException error) {
 	for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
 		lexer.Match(';')
 		lexer.SPorHT()
-		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-			return nil, ParseException
+		nv, err := this.NameValue('=')
+		if err != nil {
+			return nil, err
 		}
-		token := lexer.GetNextToken()
-		value := token.GetTokenValue()
-		if value == "duration" {
-			if _, ParseException = lexer.Match('='); ParseException != nil {
-				return nil, ParseException
+		value := nv.GetValue().(string)
+		if strings.ToLower(nv.GetName()) == header.ParameterNames_DURATION {
+			if nv.IsValueQuoted() {
+				return nil, this.CreateParseException("quoted duration")
 			}
-			lexer.SPorHT()
-
-			var duration int
-			if duration, ParseException = lexer.Number(); ParseException != nil {
+			var duration uint64
+			if duration, ParseException = strconv.ParseUint(value, 10, 31); ParseException != nil {
 				return nil, ParseException
 			}
-			retryAfter.SetDuration(duration)
-		} else {
-			lexer.SPorHT()
-			if _, ParseException = lexer.Match('='); ParseException != nil {
-				return nil, ParseException
-			}
-			lexer.SPorHT()
-			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			if ParseException = retryAfter.SetDuration(int(duration)); ParseException != nil {
 				return nil, ParseException
 			}
-			secondToken := lexer.GetNextToken()
-			secondValue := secondToken.GetTokenValue()
-			retryAfter.SetParameter(value, secondValue)
+		} else if nv.IsValueQuoted() {
+			retryAfter.SetQuotedParameter(nv.GetName(), value)
+		} else {
+			retryAfter.SetParameter(nv.GetName(), value)
 		}
 		lexer.SPorHT()
 	}
-- 
2.43.0


From 13fe6c73dd8aee527fe9bfe6cb011a9bd513a6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:34 +0000
Subject: [PATCH 082/159] fix: a negative Expires was accepted as zero

---
 sip/parser/ExpiresParser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/parser/ExpiresParser.go b/sip/parser/ExpiresParser.go
index 2616f24..f3c4a37 100644
--- a/sip/parser/ExpiresParser.go
+++ b/sip/parser/ExpiresParser.go
@@ -42,8 +42,8 @@ func (this *ExpiresParser) Parse() (sh header.Header, ParseException error) {
 	lexer.Match(':')
 	lexer.SPorHT()
 	nextId := lexer.GetNextId()
-	var delta int64
-	if delta, ParseException = strconv.ParseInt(nextId, 10, 32); ParseException != nil {
+	var delta uint64
+	if delta, ParseException = strconv.ParseUint(nextId, 10, 31); ParseException != nil {
 		return nil, ParseException
 	}
 	expires.SetExpires(int(delta))
-- 
2.43.0


From e9650ae3feafc2254d1c3a6d7429b689b8640b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:50 +0000
Subject: [PATCH 083/159] fix: cloned Authorization lists were empty, so a
 CANCEL lost its credentials

---
 sip/header/SIPHeaderList.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sip/header/SIPHeaderList.go b/sip/header/SIPHeaderList.go
index 2f22385..c78486d 100644
--- a/sip/header/SIPHeaderList.go
+++ b/sip/header/SIPHeaderList.go
@@ -68,6 +68,13 @@ func (this *SIPHeaderList) Clone() interface{} {
 	retval := &SIPHeaderList{}
 
 	retval.headerName = this.headerName
+	for e := this.Front(); e != nil; e = e.Next() {
+		if sh, ok := e.Value.(Header); ok {
+			retval.PushBack(sh.Clone())
+		} else {
+			retval.PushBack(e.Value)
+		}
+	}
 
 	return retval
 }
-- 
2.43.0


From fd12a79743e241d41adfac7b3be5039842fa910b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:52 +0000
Subject: [PATCH 084/159] fix: setting an empty Call-ID crashed or removed the
 one there was

---
 sip/header/CallIdImpl.go  | 8 ++++++--
 sip/message/SIPMessage.go | 5 ++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/sip/header/CallIdImpl.go b/sip/header/CallIdImpl.go
index 58a901f..1323e3c 100644
--- a/sip/header/CallIdImpl.go
+++ b/sip/header/CallIdImpl.go
@@ -97,8 +97,12 @@ func (this *CallID) GetCallIdentifer() *CallIdentifier {
          * not a token@token.
 */
 func (this *CallID) SetCallId(cid string) (ParseException error) {
-	this.callIdentifier, ParseException = NewCallIdentifier(cid)
-	return ParseException
+	callIdentifier, ParseException := NewCallIdentifier(cid)
+	if ParseException != nil {
+		return ParseException
+	}
+	this.callIdentifier = callIdentifier
+	return nil
 }
 
 /**
diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index ce80cbd..665fe60 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -1107,7 +1107,10 @@ func (this *SIPMessage) SetCallId(callId header.CallIdHeader) {
  */
 func (this *SIPMessage) SetCallIdFromString(callId string) { //throws java.text.ParseException {
 	if this.callIdHeader == nil {
-		c, _ := header.NewCallID(callId)
+		c, err := header.NewCallID(callId)
+		if err != nil {
+			return
+		}
 		this.SetHeader(c)
 	}
 	this.callIdHeader.SetCallId(callId)
-- 
2.43.0


From 92154a9a67d70b735bd07684f5ebf7fcc040c65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:53 +0000
Subject: [PATCH 085/159] fix: reducing a string garbled its characters above
 0x7f

---
 sip/message/Utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/message/Utils.go b/sip/message/Utils.go
index 92306ad..1f288da 100644
--- a/sip/message/Utils.go
+++ b/sip/message/Utils.go
@@ -57,7 +57,7 @@ func ReduceString(input string) string {
 		if newString[i] == ' ' || newString[i] == '\t' {
 			continue
 		} else {
-			retval += string(newString[i])
+			retval += newString[i : i+1]
 		}
 	}
 	return retval
-- 
2.43.0


From 766ba98dad4aeda1a273111eb260e0caef7d46a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:55 +0000
Subject: [PATCH 086/159] fix: an added Via went to the end of the Vias instead
 of the top

---
 sip/message/SIPMessage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 665fe60..59d4f5a 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -1532,7 +1532,7 @@ func (this *SIPMessage) AddHeader(sipHeader header.Header) {
 	// Content length is never stored. Just computed.
 	sh := sipHeader.(header.Header)
 	//try {
-	if _, ok := sipHeader.(header.ViaHeader); ok {
+	if _, ok := sipHeader.(*header.Via); ok {
 		this.AttachHeader3(sh, false, true)
 	} else {
 		this.AttachHeader3(sh, false, false)
-- 
2.43.0


From 521d708493d5f28074c4c6e4266b61fbc051a392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:32 +0000
Subject: [PATCH 087/159] fix: the reason phrases of codes 421 and 488 were
 misspelt

---
 sip/message/SIPResponse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index 50c94ff..c9651c1 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -116,7 +116,7 @@ func (this *SIPResponse) GetReasonPhraseFromInt(rc int) string {
 		retval = "Bad extension"
 
 	case EXTENSION_REQUIRED:
-		retval = "Etension Required"
+		retval = "Extension Required"
 
 	case INTERVAL_TOO_BRIEF:
 		retval = "Interval too brief"
@@ -143,7 +143,7 @@ func (this *SIPResponse) GetReasonPhraseFromInt(rc int) string {
 		retval = "Request Terminated"
 
 	case NOT_ACCEPTABLE_HERE:
-		retval = "Not Accpetable here"
+		retval = "Not Acceptable here"
 
 	case BAD_EVENT:
 		retval = "Bad Event"
-- 
2.43.0


From b62c6fa12d1f251634cbbef821213dc074bd38b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:54 +0000
Subject: [PATCH 088/159] fix: no request could be made from a response, as no
 URI is of the type it took

---
 sip/message/SIPResponse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index c9651c1..0b50851 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -570,7 +570,7 @@ func (this *SIPResponse) GetDialogId2(isServer bool, toTag string) string {
 //     * request.
 //     */
 
-func (this *SIPResponse) CreateRequest(requestURI address.SipURI, via *header.Via, cseq *header.CSeq) *SIPRequest {
+func (this *SIPResponse) CreateRequest(requestURI address.URI, via *header.Via, cseq *header.CSeq) *SIPRequest {
 	newRequest := NewSIPRequest()
 	method := cseq.GetMethod()
 	newRequest.SetMethod(method)
-- 
2.43.0


From 139fef4c5be39a6643bef62b11066214d60489e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:55 +0000
Subject: [PATCH 089/159] fix: transports other than UDP and TCP could not be
 set in a SIP URI

---
 sip/address/SipURIImpl.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index 49affb0..c7dd0df 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -933,15 +933,10 @@ func (this *SipURIImpl) SetTransportParam(transport string) error {
 	if transport == "" {
 		return errors.New("NullPointerException: null arg")
 	}
-	if strings.ToUpper(transport) == "UDP" ||
-		strings.ToUpper(transport) == "TCP" {
-		nv := core.NewNameValue(core.SIPTransportNames_TRANSPORT, strings.ToLower(transport))
-		this.uriParms.Delete(core.SIPTransportNames_TRANSPORT)
-		this.uriParms.AddNameValue(nv)
-		return nil
-	} else {
-		return errors.New("ParseException: bad transport " + transport)
-	}
+	nv := core.NewNameValue(core.SIPTransportNames_TRANSPORT, strings.ToLower(transport))
+	this.uriParms.Delete(core.SIPTransportNames_TRANSPORT)
+	this.uriParms.AddNameValue(nv)
+	return nil
 }
 
 /** Returns the user part of this SipURI, or null if it is not Set.
-- 
2.43.0


From 0bdb7d7fadfccdb745f068e3dc1f5a901ffc6435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:17 +0000
Subject: [PATCH 090/159] fix: a Via parameter set without a value was encoded
 with an empty one, which is rejected

---
 sip/header/ViaImpl.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sip/header/ViaImpl.go b/sip/header/ViaImpl.go
index 5c398ab..9db3ded 100644
--- a/sip/header/ViaImpl.go
+++ b/sip/header/ViaImpl.go
@@ -63,6 +63,17 @@ func (this *Via) super(name string) {
     return true;
 }*/
 
+/** Set a parameter. One with a value of zero length is a flag: it is encoded
+ * without a value, as the parser takes no empty one.
+ */
+func (this *Via) SetParameter(name, value string) (ParseException error) {
+	ParseException = this.Parameters.SetParameter(name, value)
+	if nv := this.GetNameValue(name); nv != nil && value == "" && !nv.IsValueQuoted() {
+		nv.SetValue(nil)
+	}
+	return ParseException
+}
+
 /** get the Protocol Version
  * @return String
  */
-- 
2.43.0


From ba9e72935eb866cd7a3d963e5e38d3002332523b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:27 +0000
Subject: [PATCH 091/159] fix: the lexer garbled single characters above 0x7f

---
 core/CoreLexer.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/CoreLexer.go b/core/CoreLexer.go
index 8b8fa20..0c4da7e 100644
--- a/core/CoreLexer.go
+++ b/core/CoreLexer.go
@@ -179,7 +179,7 @@ func (coreLexer *CoreLexer) PeekNextTokenK(ntokens int) ([]*Token, error) {
 			if nextChar, err = coreLexer.GetNextChar(); err != nil {
 				break
 			}
-			tok.tokenValue += string(nextChar)
+			tok.tokenValue = coreLexer.CharAsString(nextChar)
 			if coreLexer.IsAlpha(nextChar) {
 				tok.tokenType = CORELEXER_ALPHA
 			} else if coreLexer.IsDigit(nextChar) {
@@ -233,7 +233,7 @@ func (coreLexer *CoreLexer) Match(tok int) (t *Token, ParseException error) {
 				return nil, errors.New("ParseException: Expecting DIGIT")
 			}
 			coreLexer.currentMatch = &Token{}
-			coreLexer.currentMatch.tokenValue = string(next)
+			coreLexer.currentMatch.tokenValue = coreLexer.CharAsString(next)
 			coreLexer.currentMatch.tokenType = tok
 			coreLexer.ConsumeK(1)
 		} else if tok == CORELEXER_ALPHA {
@@ -241,7 +241,7 @@ func (coreLexer *CoreLexer) Match(tok int) (t *Token, ParseException error) {
 				return nil, errors.New("ParseException: Expecting ALPHA")
 			}
 			coreLexer.currentMatch = &Token{}
-			coreLexer.currentMatch.tokenValue = string(next)
+			coreLexer.currentMatch.tokenValue = coreLexer.CharAsString(next)
 			coreLexer.currentMatch.tokenType = tok
 			coreLexer.ConsumeK(1)
 		}
@@ -254,7 +254,7 @@ func (coreLexer *CoreLexer) Match(tok int) (t *Token, ParseException error) {
 		}
 		if next == ch {
 			coreLexer.currentMatch = &Token{}
-			coreLexer.currentMatch.tokenValue = string(ch)
+			coreLexer.currentMatch.tokenValue = coreLexer.CharAsString(ch)
 			coreLexer.currentMatch.tokenType = tok
 			coreLexer.ConsumeK(1)
 		} else {
-- 
2.43.0


From fc1c23f66186fcbfdfc5010ec24205aa236df0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:41 +0000
Subject: [PATCH 092/159] fix: setting a Reason's cause or text again added a
 second parameter and kept the old value

---
 sip/header/ReasonImpl.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sip/header/ReasonImpl.go b/sip/header/ReasonImpl.go
index 1b74e2e..cd02869 100644
--- a/sip/header/ReasonImpl.go
+++ b/sip/header/ReasonImpl.go
@@ -2,6 +2,7 @@ package header
 
 import (
 	"bytes"
+	"errors"
 	"github.com/use-go/gosips/core"
 	"strconv"
 )
@@ -36,8 +37,10 @@ func (this *Reason) GetCause() int {
  *@param cause - cause to Set.
  */
 func (this *Reason) SetCause(cause int) (InvalidArgumentException error) {
-	this.parameters.AddNameAndValue("cause", strconv.Itoa(cause))
-	return nil
+	if cause < 0 {
+		return errors.New("InvalidArgumentException: bad cause " + strconv.Itoa(cause))
+	}
+	return this.SetParameter(ParameterNames_CAUSE, strconv.Itoa(cause))
 }
 
 /** Set the protocol
@@ -63,7 +66,7 @@ func (this *Reason) GetProtocol() string {
  *@param text -- string text to Set.
  */
 func (this *Reason) SetText(text string) (ParseException error) {
-	this.parameters.AddNameAndValue("text", text)
+	this.SetQuotedParameter(ParameterNames_TEXT, text)
 	return nil
 }
 
-- 
2.43.0


From f1d6519d5caa674bc5897d05f952fbda43d419e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:43 +0000
Subject: [PATCH 093/159] fix: a call identifier that was rejected replaced the
 one there was

---
 sip/header/CallIdentifier.go | 8 +++++---
 sip/header/InReplyToImpl.go  | 8 ++++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/sip/header/CallIdentifier.go b/sip/header/CallIdentifier.go
index 22c4a40..621a2c5 100644
--- a/sip/header/CallIdentifier.go
+++ b/sip/header/CallIdentifier.go
@@ -118,11 +118,13 @@ func (this *CallIdentifier) SetCallID(cid string) (IllegalArgumentException erro
 		this.localId = cid
 		this.host = ""
 	} else {
-		this.localId = cid[0:index]
-		this.host = cid[index+1 : len(cid)]
-		if this.localId == "" || this.host == "" {
+		localId := cid[0:index]
+		host := cid[index+1 : len(cid)]
+		if localId == "" || host == "" {
 			return errors.New("IllegalArgumentException: CallID  must be token@token or token")
 		}
+		this.localId = localId
+		this.host = host
 	}
 
 	return nil
diff --git a/sip/header/InReplyToImpl.go b/sip/header/InReplyToImpl.go
index bfdeb70..aaecafa 100644
--- a/sip/header/InReplyToImpl.go
+++ b/sip/header/InReplyToImpl.go
@@ -38,8 +38,12 @@ func NewInReplyToFromCallIdentifier(cid *CallIdentifier) *InReplyTo {
  * unexpectedly while parsing the callId value.
  */
 func (this *InReplyTo) SetCallId(callId string) (ParseException error) {
-	this.callId, ParseException = NewCallIdentifier(callId)
-	return ParseException
+	cid, ParseException := NewCallIdentifier(callId)
+	if ParseException != nil {
+		return ParseException
+	}
+	this.callId = cid
+	return nil
 }
 
 /**
-- 
2.43.0


From 88f64c1f333fd590016ce3f86ed7ea8eddd46fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:44 +0000
Subject: [PATCH 094/159] fix: decrementing a Max-Forwards of zero made it -1
 and reported no error

---
 sip/header/MaxForwardsImpl.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sip/header/MaxForwardsImpl.go b/sip/header/MaxForwardsImpl.go
index ba69b48..cde07c4 100644
--- a/sip/header/MaxForwardsImpl.go
+++ b/sip/header/MaxForwardsImpl.go
@@ -72,8 +72,9 @@ func (this *MaxForwards) HasReachedZero() bool {
 /** decrement MaxForwards field one by one.
  */
 func (this *MaxForwards) DecrementMaxForwards() error {
-	if this.maxForwards >= 0 {
-		this.maxForwards--
+	if this.maxForwards <= 0 {
+		return errors.New("TooManyHopsException: max forwards has reached zero")
 	}
+	this.maxForwards--
 	return nil
 }
-- 
2.43.0


From 5c03230ac00937a56bd5112a16b0dfc88ad0c6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:46 +0000
Subject: [PATCH 095/159] fix: a Contact took an expiry below zero

---
 sip/header/ContactImpl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sip/header/ContactImpl.go b/sip/header/ContactImpl.go
index 3f07fa5..5506c23 100644
--- a/sip/header/ContactImpl.go
+++ b/sip/header/ContactImpl.go
@@ -116,6 +116,9 @@ func (this *Contact) GetExpires() int {
  */
 
 func (this *Contact) SetExpires(expiryDeltaSeconds int) (InvalidArgumentException error) {
+	if expiryDeltaSeconds < 0 {
+		return errors.New("InvalidArgumentException: bad expires value " + strconv.Itoa(expiryDeltaSeconds))
+	}
 	return this.SetParameter(ParameterNames_EXPIRES, strconv.Itoa(expiryDeltaSeconds))
 }
 
-- 
2.43.0


From fe362b118864b135700ec0fac5e5a36aff47aab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:48 +0000
Subject: [PATCH 096/159] fix: an RAck did not take a CSeq number of zero

---
 sip/header/RAckImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/RAckImpl.go b/sip/header/RAckImpl.go
index b8b9e07..a037730 100644
--- a/sip/header/RAckImpl.go
+++ b/sip/header/RAckImpl.go
@@ -72,7 +72,7 @@ func (this *RAck) GetRSeqNumber() int {
  * @throws InvalidArgumentException if supplied value is less than zero.
  */
 func (this *RAck) SetCSeqNumber(cSeqNumber int) (InvalidArgumentException error) {
-	if cSeqNumber <= 0 {
+	if cSeqNumber < 0 {
 		return errors.New("InvalidArgumentException: Bad CSeq")
 	}
 	this.cSeqNumber = cSeqNumber
-- 
2.43.0


From 274f83b48ec5e85cf16c534ee7afc30a48e55810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:50 +0000
Subject: [PATCH 097/159] fix: a Via without a ttl reported one of 0, and
 setting one took 256 and encoded -1

---
 sip/header/ViaImpl.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sip/header/ViaImpl.go b/sip/header/ViaImpl.go
index 9db3ded..98d5bea 100644
--- a/sip/header/ViaImpl.go
+++ b/sip/header/ViaImpl.go
@@ -369,6 +369,9 @@ func (this *Via) SetProtocol(protocol string) (ParseException error) {
  * @return the integer value of the <code>ttl</code> parameter
  */
 func (this *Via) GetTTL() int {
+	if !this.HasParameter(ParameterNames_TTL) {
+		return -1
+	}
 	ttl, _ := strconv.Atoi(this.GetParameter(ParameterNames_TTL))
 	return ttl
 }
@@ -382,8 +385,12 @@ func (this *Via) GetTTL() int {
  * greater than 255, excluding -1 the default not set value.
  */
 func (this *Via) SetTTL(ttl int) (InvalidArgumentException error) {
-	if ttl < 0 && ttl != -1 {
-		return errors.New("InvalidArgumentException: GoSIP Exception, Via, setTTL(), the ttl parameter is < 0")
+	if ttl == -1 {
+		this.RemoveParameter(ParameterNames_TTL)
+		return nil
+	}
+	if ttl < 0 || ttl > 255 {
+		return errors.New("InvalidArgumentException: GoSIP Exception, Via, setTTL(), the ttl parameter is not within 0-255")
 	}
 	this.SetParameter(ParameterNames_TTL, strconv.Itoa(ttl))
 	return nil
-- 
2.43.0


From 8aca64c5aa13cbdcf14eca48f3e3b4fcc27696a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:53 +0000
Subject: [PATCH 098/159] fix: a quoted authentication parameter took a value
 with quotes when it was set again

---
 sip/header/AuthenticationImpl.go     | 3 +++
 sip/header/AuthenticationInfoImpl.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/sip/header/AuthenticationImpl.go b/sip/header/AuthenticationImpl.go
index 33c25eb..23eb771 100644
--- a/sip/header/AuthenticationImpl.go
+++ b/sip/header/AuthenticationImpl.go
@@ -68,6 +68,9 @@ func (this *Authentication) SetParameter(name, value string) error {
 		}
 		this.parameters.SetNameValue(nv)
 	} else {
+		if nv.IsValueQuoted() && strings.HasPrefix(value, core.SIPSeparatorNames_DOUBLE_QUOTE) {
+			return errors.New("ParseException: " + value + " : Unexpected DOUBLE_QUOTE")
+		}
 		nv.SetValue(value)
 	}
 
diff --git a/sip/header/AuthenticationInfoImpl.go b/sip/header/AuthenticationInfoImpl.go
index 029bdb1..b0a015f 100644
--- a/sip/header/AuthenticationInfoImpl.go
+++ b/sip/header/AuthenticationInfoImpl.go
@@ -210,6 +210,9 @@ func (this *AuthenticationInfo) SetParameter(name, value string) error {
 		}
 		this.parameters.SetNameValue(nv)
 	} else {
+		if nv.IsValueQuoted() && strings.HasPrefix(value, core.SIPSeparatorNames_DOUBLE_QUOTE) {
+			return errors.New("ParseException: " + value + " : Unexpected DOUBLE_QUOTE")
+		}
 		nv.SetValue(value)
 	}
 
-- 
2.43.0


From 1c9a11a311533b9f60aec866b14ee01df05cf27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:55 +0000
Subject: [PATCH 099/159] fix: asking an address for the host or port of a SIP
 URI without one crashed

---
 sip/address/AddressImpl.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sip/address/AddressImpl.go b/sip/address/AddressImpl.go
index ab8e1ef..3de6a3f 100644
--- a/sip/address/AddressImpl.go
+++ b/sip/address/AddressImpl.go
@@ -78,7 +78,7 @@ func (this *AddressImpl) GetHostPort() (hp *core.HostPort, RuntimeException erro
  */
 func (this *AddressImpl) GetPort() (int, error) {
 	if sipuri, ok := this.address.(*SipURIImpl); ok {
-		return sipuri.GetHostPort().GetPort(), nil
+		return sipuri.GetPort(), nil
 	}
 	return -1, errors.New("RuntimeException: address is not a SipURIImpl")
 }
@@ -106,6 +106,9 @@ func (this *AddressImpl) GetUserAtHostPort() string {
  */
 func (this *AddressImpl) GetHost() (string, error) {
 	if sipuri, ok := this.address.(*SipURIImpl); ok {
+		if sipuri.GetHostPort() == nil || sipuri.GetHostPort().GetHost() == nil {
+			return "", nil
+		}
 		return sipuri.GetHostPort().GetHost().GetHostName(), nil
 	}
 
-- 
2.43.0


From 108863f9459547b2c9f6676cc512f27847fbe7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:14 +0000
Subject: [PATCH 100/159] fix: an Error-Info's message with blanks was encoded
 without quotes

---
 sip/header/ErrorInfoImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/ErrorInfoImpl.go b/sip/header/ErrorInfoImpl.go
index 311df17..ae6b270 100644
--- a/sip/header/ErrorInfoImpl.go
+++ b/sip/header/ErrorInfoImpl.go
@@ -94,7 +94,7 @@ func (this *ErrorInfo) SetErrorMessage(message string) (ParseException error) {
 	if message == "" {
 		return errors.New("NullPointerException: the message parameter is null")
 	}
-	this.SetParameter("message", message)
+	this.SetQuotedParameter("message", message)
 	return nil
 }
 
-- 
2.43.0


From 26cf2a9d24cfd54c244fb7e633c52c71b08b4b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:10 +0000
Subject: [PATCH 101/159] fix: an RTP header's number of contributing sources
 was read modulo 8

---
 rtp/rtp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index 0760ec3..2df6a7f 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -128,7 +128,7 @@ func (this *RTPHeader) Parse(packetbytes []byte) error {
 		this.version = (packetbytes[0] >> 6) & RTP_HEADER_V_MSK
 		this.padding = (packetbytes[0] >> 5) & RTP_HEADER_P_MSK
 		this.extension = (packetbytes[0] >> 4) & RTP_HEADER_X_MSK
-		this.csrccount = packetbytes[0] & 0x07
+		this.csrccount = packetbytes[0] & RTP_HEADER_CC_MSK
 		this.marker = (packetbytes[1] >> 7) & RTP_HEADER_M_MSK
 		this.payloadtype = packetbytes[1] & RTP_HEADER_PT_MSK
 		//this.header_size = 12 + 4 * this.csrccount
-- 
2.43.0


From 08b4ac12d5e8a5ff02b1ea51b631b48f5b35c944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:10 +0000
Subject: [PATCH 102/159] fix: only the last byte of each contributing source
 of an RTP packet was encoded

---
 rtp/rtp.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index 2df6a7f..95bead3 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -191,9 +191,9 @@ func (this *RTPHeader) Encode() []byte {
 
 	for i := uint8(0); i < this.csrccount; i++ {
 		packetbytes[SIZEOF_RTPHEADER+i*4+0] = byte((this.csrc[i] >> 24) & 0xFF)
-		packetbytes[SIZEOF_RTPHEADER+i*4+0] = byte((this.csrc[i] >> 16) & 0xFF)
-		packetbytes[SIZEOF_RTPHEADER+i*4+0] = byte((this.csrc[i] >> 8) & 0xFF)
-		packetbytes[SIZEOF_RTPHEADER+i*4+0] = byte((this.csrc[i] >> 0) & 0xFF)
+		packetbytes[SIZEOF_RTPHEADER+i*4+1] = byte((this.csrc[i] >> 16) & 0xFF)
+		packetbytes[SIZEOF_RTPHEADER+i*4+2] = byte((this.csrc[i] >> 8) & 0xFF)
+		packetbytes[SIZEOF_RTPHEADER+i*4+3] = byte((this.csrc[i] >> 0) & 0xFF)
 	}
 
 	return packetbytes
-- 
2.43.0


From fdc8f9916fc7d7de7b0513825237926dfc656877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:10 +0000
Subject: [PATCH 103/159] fix: parsing an RTP header extension with data
 crashed, as did encoding a long one

---
 rtp/rtp.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index 95bead3..50a6a17 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -231,7 +231,8 @@ func (this *RTPExtension) Parse(packetbytes []byte) error {
 		return errors.New("invalid rtp extendsion header size. error id/length")
 	}
 
-	for i := uint16(0); i < this.length; i++ {
+	this.data = make([]uint32, this.length)
+	for i := 0; i < int(this.length); i++ {
 		this.data[i] = uint32(packetbytes[SIZEOF_RTPEXTENSION+i*4+0])<<24 |
 			uint32(packetbytes[SIZEOF_RTPEXTENSION+i*4+1])<<16 |
 			uint32(packetbytes[SIZEOF_RTPEXTENSION+i*4+2])<<8 |
@@ -243,14 +244,14 @@ func (this *RTPExtension) Parse(packetbytes []byte) error {
 
 func (this *RTPExtension) Encode() []byte {
 	var packetbytes []byte
-	packetbytes = make([]byte, SIZEOF_RTPEXTENSION+this.length*4)
+	packetbytes = make([]byte, SIZEOF_RTPEXTENSION+int(this.length)*4)
 
 	packetbytes[0] = byte((this.id >> 8) & 0xFF)
 	packetbytes[1] = byte((this.id >> 0) & 0xFF)
 	packetbytes[2] = byte((this.length >> 8) & 0xFF)
 	packetbytes[3] = byte((this.length >> 0) & 0xFF)
 
-	for i := uint16(0); i < this.length; i++ {
+	for i := 0; i < int(this.length); i++ {
 		packetbytes[SIZEOF_RTPEXTENSION+i*4+0] = byte(this.data[i]>>24) & 0xFF
 		packetbytes[SIZEOF_RTPEXTENSION+i*4+1] = byte(this.data[i]>>16) & 0xFF
 		packetbytes[SIZEOF_RTPEXTENSION+i*4+2] = byte(this.data[i]>>8) & 0xFF
-- 
2.43.0


From b58017bf15f74f09015aa74c7c8b50f52dcfe2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:10 +0000
Subject: [PATCH 104/159] fix: a received RTP packet had no payload

---
 rtp/rtppacket.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rtp/rtppacket.go b/rtp/rtppacket.go
index a02a771..d7fe7a6 100644
--- a/rtp/rtppacket.go
+++ b/rtp/rtppacket.go
@@ -87,6 +87,7 @@ func (rp *RTPPacket) ParseRawPacket(rawpack *RawPacket) error {
 	if payloadlength < 0 {
 		return errors.New("invalid payload length.")
 	}
+	rp.payload = rp.packet[payloadoffset : payloadoffset+payloadlength]
 
 	return nil
 }
-- 
2.43.0


From cc196ca0eeed8f943d1792c483688ee13f97e94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:10 +0000
Subject: [PATCH 105/159] fix: asking an RTP packet without an extension for it
 crashed

---
 rtp/rtppacket.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rtp/rtppacket.go b/rtp/rtppacket.go
index d7fe7a6..5e11487 100644
--- a/rtp/rtppacket.go
+++ b/rtp/rtppacket.go
@@ -282,16 +282,25 @@ func (rp *RTPPacket) GetPayload() []byte {
 
 /** If a header extension is present, rp function returns the extension identifier. */
 func (rp *RTPPacket) GetExtensionID() uint16 {
+	if rp.extension == nil {
+		return 0
+	}
 	return rp.extension.id
 }
 
 /** Returns the length of the header extension data. */
 func (rp *RTPPacket) GetExtensionLength() uint16 {
+	if rp.extension == nil {
+		return 0
+	}
 	return rp.extension.length
 }
 
 /** Returns the header extension data. */
 func (rp *RTPPacket) GetExtensionData() []uint32 {
+	if rp.extension == nil {
+		return nil
+	}
 	return rp.extension.data
 }
 
-- 
2.43.0


From 4514e23771e212a743ce3819cb8f6ddf4bd3854d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:11 +0000
Subject: [PATCH 106/159] fix: building an RTP packet from fewer sources or
 less extension data than said crashed

---
 rtp/rtppacket.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rtp/rtppacket.go b/rtp/rtppacket.go
index 5e11487..69455c9 100644
--- a/rtp/rtppacket.go
+++ b/rtp/rtppacket.go
@@ -153,6 +153,13 @@ func (rp *RTPPacket) BuildPacket(payloadtype uint8,
 		return errors.New("ERR_RTP_PACKET_BADPAYLOADTYPE")
 	}
 
+	if len(csrcs) < int(numcsrcs) {
+		return errors.New("ERR_RTP_PACKET_TOOFEWCSRCS")
+	}
+	if gotextension && len(extensiondata) < int(extensionlen) {
+		return errors.New("ERR_RTP_PACKET_TOOLITTLEEXTENSIONDATA")
+	}
+
 	var packetlength, packetoffset int
 	packetlength = SIZEOF_RTPHEADER
 	packetlength += int(numcsrcs) * 4 //sizeof(uint32_t)*((size_t)
-- 
2.43.0


From d428603c826b6b7dfa78006f56ac706860ec25c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:11 +0000
Subject: [PATCH 107/159] fix: an empty RTCP APP or BYE packet crashed

---
 rtp/rtcpapppacket.go | 3 +++
 rtp/rtcpbyepacket.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/rtp/rtcpapppacket.go b/rtp/rtcpapppacket.go
index 6fba17f..7180518 100644
--- a/rtp/rtcpapppacket.go
+++ b/rtp/rtcpapppacket.go
@@ -22,6 +22,9 @@ func NewRTCPAPPPacket(data []byte, datalen int) *RTCPAPPPacket {
 	this.knownformat = false
 
 	this.appdatalen = datalen
+	if datalen == 0 {
+		return this
+	}
 	if ((this.data[0] >> RTCP_HEADER_P_POS) & RTCP_HEADER_P_MSK) != 0 {
 		padcount := this.data[datalen-1]
 		if (padcount & 0x03) != 0 { // not a multiple of four! (see rfc 3550 p 37)
diff --git a/rtp/rtcpbyepacket.go b/rtp/rtcpbyepacket.go
index c994ce7..ab1e39d 100644
--- a/rtp/rtcpbyepacket.go
+++ b/rtp/rtcpbyepacket.go
@@ -23,6 +23,9 @@ func NewRTCPBYEPacket(data []byte, datalen int) *RTCPBYEPacket {
 
 	this.reasonoffset = 0
 	byelen := datalen
+	if datalen == 0 {
+		return this
+	}
 	if ((this.data[0] >> RTCP_HEADER_P_POS) & RTCP_HEADER_P_MSK) != 0 {
 		padcount := data[datalen-1]
 		if (padcount & 0x03) != 0 { // not a multiple of four! (see rfc 3550 p 37)
-- 
2.43.0


From d6e918ec6c0b2b9fb0a80a5b05adc26cd27afb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:29 +0000
Subject: [PATCH 108/159] fix: the name and data of an RTCP APP packet and a
 BYE's reason ran on to the end of the packet

---
 rtp/rtcpapppacket.go | 4 ++--
 rtp/rtcpbyepacket.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rtp/rtcpapppacket.go b/rtp/rtcpapppacket.go
index 7180518..ecafd38 100644
--- a/rtp/rtcpapppacket.go
+++ b/rtp/rtcpapppacket.go
@@ -77,7 +77,7 @@ func (this *RTCPAPPPacket) GetName() []byte {
 		return nil
 	}
 
-	return this.data[SIZEOF_RTCPHEADER+4:] //(data+sizeof(RTCPCommonHeader)+sizeof(uint32_t));
+	return this.data[SIZEOF_RTCPHEADER+4 : SIZEOF_RTCPHEADER+4*2] //(data+sizeof(RTCPCommonHeader)+sizeof(uint32_t));
 }
 
 /** Returns a pointer to the actual data. */
@@ -88,7 +88,7 @@ func (this *RTCPAPPPacket) GetAPPData() []byte {
 	if this.appdatalen == 0 {
 		return nil
 	}
-	return this.data[SIZEOF_RTCPHEADER+4*2:]
+	return this.data[SIZEOF_RTCPHEADER+4*2 : SIZEOF_RTCPHEADER+4*2+this.appdatalen]
 }
 
 /** Returns the length of the actual data. */
diff --git a/rtp/rtcpbyepacket.go b/rtp/rtcpbyepacket.go
index ab1e39d..8fd2647 100644
--- a/rtp/rtcpbyepacket.go
+++ b/rtp/rtcpbyepacket.go
@@ -116,7 +116,7 @@ func (this *RTCPBYEPacket) GetReasonData() []byte {
 	if reasonlen == 0 {
 		return nil
 	}
-	return this.data[this.reasonoffset+1:]
+	return this.data[this.reasonoffset+1 : this.reasonoffset+1+int(reasonlen)]
 }
 
 func (this *RTCPBYEPacket) Dump() {
-- 
2.43.0


From a3b5b27885eb87b4470050e18c6db70d350a336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:29 +0000
Subject: [PATCH 109/159] fix: a timeout longer than the current time emptied
 the collision list

---
 rtp/collisionlist.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rtp/collisionlist.go b/rtp/collisionlist.go
index cf24396..6b00b20 100644
--- a/rtp/collisionlist.go
+++ b/rtp/collisionlist.go
@@ -66,6 +66,9 @@ func (this *CollisionList) HasAddress(addr Address) bool {
  */
 
 func (this *CollisionList) Timeout(currenttime *RTPTime, timeoutdelay *RTPTime) {
+	if currenttime.LT(timeoutdelay) {
+		return
+	}
 	checktime := currenttime.Clone()
 	checktime.Sub(timeoutdelay)
 
-- 
2.43.0


From 469b3eda8a7a39aafe04efca77030c8106679bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:29 +0000
Subject: [PATCH 110/159] fix: an IPv4 address in its long form was taken for
 IPv6, and no address at all crashed

---
 rtp/ipaddress.go        | 2 +-
 rtp/transmissioninfo.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rtp/ipaddress.go b/rtp/ipaddress.go
index 7af517d..d0c0b42 100644
--- a/rtp/ipaddress.go
+++ b/rtp/ipaddress.go
@@ -43,7 +43,7 @@ func (this *IPAddress) GetPort() uint16 {
 
 /////////////////////////////////
 func (this *IPAddress) GetAddressType() AddressType {
-	if len(this.ip) == 4 {
+	if this.ip.To4() != nil {
 		return IPv4AddressType
 	} else {
 		return IPv6AddressType
diff --git a/rtp/transmissioninfo.go b/rtp/transmissioninfo.go
index c515ab0..93c720f 100644
--- a/rtp/transmissioninfo.go
+++ b/rtp/transmissioninfo.go
@@ -28,7 +28,7 @@ type TransmissionInfo struct {
 
 func NewTransmissionInfo(iplist []net.IP, rtpsock, rtcpsock int) *TransmissionInfo {
 	this := &TransmissionInfo{}
-	if len(iplist[0]) == 4 {
+	if len(iplist) == 0 || iplist[0].To4() != nil {
 		this.protocol = IPv4UDPProto
 	} else {
 		this.protocol = IPv6UDPProto
-- 
2.43.0


From 146a1b012760727b58e0ff56a3ed03ed630435ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:29 +0000
Subject: [PATCH 111/159] fix: the clone of an IP address shared its bytes

---
 rtp/ipaddress.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtp/ipaddress.go b/rtp/ipaddress.go
index d0c0b42..c5327e7 100644
--- a/rtp/ipaddress.go
+++ b/rtp/ipaddress.go
@@ -69,7 +69,7 @@ func (this *IPAddress) IsFromSameHost(addr Address) bool {
 }
 
 func (this *IPAddress) Clone() Address {
-	return &IPAddress{ip: this.ip, port: this.port}
+	return &IPAddress{ip: append(net.IP(nil), this.ip...), port: this.port}
 }
 
 func (this *IPAddress) String() string {
-- 
2.43.0


From 668b88ac400e384c4199c920798ba21615affe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:30 +0000
Subject: [PATCH 112/159] fix: seeding a random number generator raced with
 drawing from it

---
 rtp/random.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rtp/random.go b/rtp/random.go
index 543f9a0..af48a99 100644
--- a/rtp/random.go
+++ b/rtp/random.go
@@ -54,7 +54,9 @@ func (this *RandomRand48) PickSeed() uint32 {
 }
 
 func (this *RandomRand48) SetSeed(seed uint32) {
+	this.mutex.Lock()
 	this.state = (uint64(seed) << 16) | uint64(0x330E)
+	this.mutex.Unlock()
 }
 
 func (this *RandomRand48) GetRandom8() uint8 {
-- 
2.43.0


From 594ba87697f13ebaed9e748752e3b5e14ab0fc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:30 +0000
Subject: [PATCH 113/159] fix: making RTP headers concurrently raced for the
 byte order of the host

---
 rtp/rtp.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index 50a6a17..3774b7b 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -2,6 +2,7 @@ package rtp
 
 import (
 	"errors"
+	"sync"
 	"unsafe"
 )
 
@@ -84,11 +85,12 @@ func NewRTPHeaderFromBytes(packetbytes []byte) (*RTPHeader, error) {
 const INT_SIZE int = int(unsafe.Sizeof(0))
 
 var (
-	bigEndian = int(-1)
+	bigEndian  = int(-1)
+	endianOnce sync.Once
 )
 
 func CheckEndian() {
-	if bigEndian == -1 {
+	endianOnce.Do(func() {
 		var i int = 0x1
 		bs := (*[INT_SIZE]byte)(unsafe.Pointer(&i))
 		if bs[0] == 0 {
@@ -96,7 +98,7 @@ func CheckEndian() {
 		} else {
 			bigEndian = 0
 		}
-	}
+	})
 }
 
 /* helper, read a big-endian 16 bit int from memory */
-- 
2.43.0


From bb68bb32146de9f9790cb54bdf7c313b3550b49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:30 +0000
Subject: [PATCH 114/159] fix: a time converted to NTP and back was a
 microsecond earlier

---
 rtp/rtptime.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rtp/rtptime.go b/rtp/rtptime.go
index d674560..8a51236 100644
--- a/rtp/rtptime.go
+++ b/rtp/rtptime.go
@@ -56,9 +56,8 @@ func (this *RTPTime) Clone() *RTPTime {
 
 func (this *RTPTime) GetNTPTime() *NTPTime {
 	msw := this.sec + NTPTIMEOFFSET
-	x := float64(this.microsec) / float64(1000000.0)
-	x *= (65536.0 * 65536.0)
-	lsw := uint32(x)
+	// rounded up, so that the way back, which rounds down, gives the same
+	lsw := uint32((uint64(this.microsec)<<32 + 999999) / 1000000)
 
 	return NewNTPTime(msw, lsw)
 }
-- 
2.43.0


From 6771fa78881ce86f84444c64c3a4946358b600c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:21 +0000
Subject: [PATCH 115/159] fix: a message whose malformed start line the
 listener ignored was refused for its CSeq

A parse exception listener that returns no error keeps the message going
without its start line, but the CSeq method was then compared with the
method of the missing line, and the message refused.
---
 sip/parser/StringMsgParser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index 004b946..0ab284b 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -356,7 +356,8 @@ func (this *StringMsgParser) ParseMessage(currentMessage string) (message.Messag
 
 		if _, ok := sipmsg.(*message.SIPRequest); ok {
 			if cseq, present := sipHeader.(*header.CSeq); present {
-				if cseq.GetMethod() != sipmsg.(*message.SIPRequest).GetMethod() {
+				rl := sipmsg.(*message.SIPRequest).GetRequestLine()
+				if rl != nil && cseq.GetMethod() != rl.GetMethod() {
 					return nil, errors.New("Start Line and CSeq Method Mismatch")
 				}
 			}
-- 
2.43.0


From 5e23813a9f64ada39b0f43018692474ad6103aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:22 +0000
Subject: [PATCH 116/159] fix: reading to the end of the buffer of a message
 parser crashed

ReadToEnd and GetMessageBody applied the position in the bytes that are
parsed to the text of the header lines, which is shorter.
---
 sip/parser/StringMsgParser.go | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index 0ab284b..13476d6 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -70,19 +70,7 @@ func (this *StringMsgParser) GetMessageBody() string {
 	if this.contentLength == 0 {
 		return ""
 	} else {
-		endIndex := this.bufferPointer + this.contentLength
-		var body string
-		// guard against bad specifications.
-		if endIndex > len(this.currentMessage) {
-			endIndex = len(this.currentMessage)
-			body = this.currentMessage[this.bufferPointer:endIndex]
-			this.bufferPointer = endIndex
-		} else {
-			body = this.currentMessage[this.bufferPointer:endIndex]
-			this.bufferPointer = endIndex + 1
-		}
-		this.contentLength = 0
-		return body
+		return string(this.GetBodyAsBytes())
 	}
 
 }
@@ -113,9 +101,7 @@ func (this *StringMsgParser) GetBodyAsBytes() []byte {
  * you encounter an error.
  */
 func (this *StringMsgParser) ReadToEnd() string {
-	body := this.currentMessage[this.bufferPointer:]
-	this.bufferPointer += len(body)
-	return body
+	return string(this.ReadBytesToEnd())
 }
 
 /** Return tbe bytes to the end of the message.
-- 
2.43.0


From 6f2c320a41736440fad05c38be9d9abb21e1c5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:35 +0000
Subject: [PATCH 117/159] fix: the bytes of a request without a method lacked
 the one its text had

A request line without a method takes the one of the CSeq header when the
request is encoded as a string or as a list of strings, but not when it
is encoded as bytes.
---
 sip/message/SIPRequest.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 0d15247..1f0f4a2 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -431,6 +431,7 @@ func (this *SIPRequest) GetDialogId2(isServer bool, toTag string) string {
 func (this *SIPRequest) EncodeAsBytes() []byte {
 	var rlbytes []byte
 	if this.requestLine != nil {
+		this.SetRequestLineDefaults()
 		// try {
 		rlbytes = []byte(this.requestLine.String()) //.GetBytes("UTF-8");
 		//   } catch (UnsupportedEncodingException ex) {
-- 
2.43.0


From 3f126498b725414af6db0f37bc392468f0217c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:36 +0000
Subject: [PATCH 118/159] fix: setting the defaults of a request without a
 start line crashed

---
 sip/message/SIPRequest.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 1f0f4a2..cc5f62a 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -173,6 +173,9 @@ func (this *SIPRequest) SetDefaults() {
 // * Patch up the request line as necessary.
 // */
 func (this *SIPRequest) SetRequestLineDefaults() {
+	if this.requestLine == nil {
+		return
+	}
 	method := this.requestLine.GetMethod()
 	if method == "" {
 		cseq := this.GetCSeq()
-- 
2.43.0


From e43a490d74c8de69782415a4e3094e99b36128c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:37 +0000
Subject: [PATCH 119/159] fix: making an ACK from a request whose Via list was
 emptied crashed

---
 sip/message/SIPRequest.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index cc5f62a..8472a9d 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -694,6 +694,9 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 			// field of the original
 			// request.
 
+			if vl.Len() == 0 {
+				continue
+			}
 			nextHeader = vl.Front().Value.(header.Header)
 		} else {
 			//nextHeader = (SIPHeader) nextHeader.clone();
-- 
2.43.0


From 5323346ee546a93df3fc408899d728da1b5cb80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:38 +0000
Subject: [PATCH 120/159] fix: the defaults of a request URI were never set

No type implements the SipURI interface, so the request URI of a
REGISTER or INVITE never got its default user and transport parameters.
---
 sip/message/SIPRequest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 8472a9d..56eef09 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -159,7 +159,7 @@ func (this *SIPRequest) SetDefaults() {
 		return
 	}
 	if method == REGISTER || method == INVITE {
-		if sipUri, ok := u.(address.SipURI); ok {
+		if sipUri, ok := u.(*address.SipURIImpl); ok {
 			//SipURIImpl sipUri = (SipURIImpl)  u;
 			sipUri.SetUserParam(DEFAULT_USER)
 			// try {
-- 
2.43.0


From 7cb343d4d09949fcccc4d52dedefcd8963e76937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:49 +0000
Subject: [PATCH 121/159] fix: nothing could be logged to a file

The log files were opened for reading only, and not made if they were
not there, so that every message was lost; a message logged to a file of
its own also left the log writer with a closed file.
---
 core/LogWriter.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/core/LogWriter.go b/core/LogWriter.go
index 06ef7ad..3946782 100644
--- a/core/LogWriter.go
+++ b/core/LogWriter.go
@@ -56,16 +56,15 @@ func (logWriter *LogWriter) SetLogFileName(name string) {
 }
 
 func (logWriter *LogWriter) LogMessageToFile(message, logFileName string) {
-	var err error
-	logWriter.printWriter, err = os.OpenFile(logFileName, os.O_APPEND, 0)
+	logFile, err := os.OpenFile(logFileName, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
 	if err != nil {
 		println("Can't open file in LogMessageToFile")
 		return
 	}
-	defer logWriter.printWriter.Close()
+	defer logFile.Close()
 
-	logWriter.printWriter.WriteString(" ---------------------------------------------- ")
-	logWriter.printWriter.WriteString(message)
+	logFile.WriteString(" ---------------------------------------------- ")
+	logFile.WriteString(message)
 }
 
 func (logWriter *LogWriter) checkLogFile() {
@@ -77,7 +76,7 @@ func (logWriter *LogWriter) checkLogFile() {
 	}
 
 	var err error
-	logWriter.printWriter, err = os.OpenFile(logWriter.logFileName, os.O_APPEND, 0)
+	logWriter.printWriter, err = os.OpenFile(logWriter.logFileName, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
 	if err != nil {
 		println("Can't open file in checkLogFile")
 		return
-- 
2.43.0


From dd494d57522a75d3f2d8027b787ebe63c9f49e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:32 +0000
Subject: [PATCH 122/159] fix: asking a host for its IP address from two
 goroutines raced

---
 core/Host.go | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/core/Host.go b/core/Host.go
index e1b7a4e..100abf9 100644
--- a/core/Host.go
+++ b/core/Host.go
@@ -23,8 +23,6 @@ type Host struct {
 	/** address field
 	 */
 	addressType int
-
-	inetAddress net.IP
 }
 
 /** Constructor given host name or IP address.
@@ -111,11 +109,8 @@ func (host *Host) GetIpAddress() string {
 
 	if host.addressType == HOSTNAME {
 		//try {
-		if host.inetAddress == nil {
-			host.inetAddress = net.ParseIP(host.hostname)
-		}
-		if host.inetAddress != nil {
-			rawIpAddress = host.inetAddress.String() //getHostAddress();
+		if inetAddress := net.ParseIP(host.hostname); inetAddress != nil {
+			rawIpAddress = inetAddress.String() //getHostAddress();
 		}
 		//} catch (UnknownHostException ex) {
 		//    dbgPrint("Could not resolve hostname " + ex);
@@ -131,7 +126,6 @@ func (host *Host) GetIpAddress() string {
  * @param h String to set
  */
 func (host *Host) SetHostName(hname string) {
-	host.inetAddress = nil
 	if host.isIPv6Address(hname) {
 		host.addressType = IPV6ADDRESS
 	} else {
@@ -147,7 +141,6 @@ func (host *Host) SetHostName(hname string) {
  *@param address is the address string to set.
  */
 func (host *Host) SetHostAddress(address string) {
-	host.inetAddress = nil
 	if host.isIPv6Address(address) {
 		host.addressType = IPV6ADDRESS
 	} else {
@@ -183,8 +176,6 @@ func (host *Host) IsIPAddress() bool {
 }
 
 /** Get the inet address from host host.
- * Caches the inet address returned from dns lookup to avoid
- * lookup delays.
  *
  *@throws UnkownHostexception when the host name cannot be resolved.
  */
@@ -192,12 +183,7 @@ func (host *Host) GetInetAddress() net.IP {
 	if host.hostname == "" {
 		return nil
 	}
-	if host.inetAddress != nil {
-		return host.inetAddress
-	}
-	host.inetAddress = net.ParseIP(strings.Trim(host.hostname, "[]"))
-	return host.inetAddress
-
+	return net.ParseIP(strings.Trim(host.hostname, "[]"))
 }
 
 //----- IPv6
-- 
2.43.0


From f2a32312747108076da1765550d21d4f03489c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:33 +0000
Subject: [PATCH 123/159] fix: reading the content of a message from two
 goroutines raced

---
 sip/message/SIPMessage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 59d4f5a..5ef039f 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -1203,7 +1203,7 @@ func (this *SIPMessage) GetMessageContent() string {
 		// }
 		// } else this.messageContent =
 		// new String(messageContentBytes,header.SIPConstants_DEFAULT_ENCODING);
-		this.messageContent = string(this.messageContentBytes)
+		return string(this.messageContentBytes)
 	}
 	return this.messageContent
 }
-- 
2.43.0


From 6cd0918c5873ab02498ba42bd7c3a5ff281455b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:34 +0000
Subject: [PATCH 124/159] fix: asking a SIP URI for its telephone subscriber
 from two goroutines raced

---
 sip/address/SipURIImpl.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index c7dd0df..c9819e6 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -40,6 +40,7 @@ func NewSipURIImpl() *SipURIImpl {
 	this.uriParms = core.NewNameValueList("uriparms")
 	this.qheaders = core.NewNameValueList("qheaders")
 	this.qheaders.SetSeparator("&")
+	this.telephoneSubscriber = NewTelephoneNumber()
 
 	return this
 }
@@ -284,7 +285,7 @@ func (this *SipURIImpl) SetUserPassword(password string) {
  */
 func (this *SipURIImpl) GetTelephoneSubscriber() *TelephoneNumber {
 	if this.telephoneSubscriber == nil {
-		this.telephoneSubscriber = NewTelephoneNumber()
+		return NewTelephoneNumber()
 	}
 	return this.telephoneSubscriber
 }
-- 
2.43.0


From 57256ec6e8425c68c6206f78845b3326f9aca5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:19 +0000
Subject: [PATCH 125/159] fix: parameters after a Reply-To or Refer-To address
 without angle brackets were taken into the URI

---
 sip/parser/ReferToParser.go | 1 +
 sip/parser/ReplyToParser.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/sip/parser/ReferToParser.go b/sip/parser/ReferToParser.go
index 70248a0..651f0bc 100644
--- a/sip/parser/ReferToParser.go
+++ b/sip/parser/ReferToParser.go
@@ -29,6 +29,7 @@ func NewReferToParserFromLexer(lexer core.Lexer) *ReferToParser {
 func (this *ReferToParser) Parse() (sh header.Header, ParseException error) {
 	this.HeaderName(TokenTypes_REFER_TO)
 	referTo := header.NewReferTo()
+	this.headerParams = true
 	if ParseException = this.AddressParametersParser.Parse(referTo); ParseException != nil {
 		return nil, ParseException
 	}
diff --git a/sip/parser/ReplyToParser.go b/sip/parser/ReplyToParser.go
index 9657805..690eb96 100644
--- a/sip/parser/ReplyToParser.go
+++ b/sip/parser/ReplyToParser.go
@@ -41,6 +41,7 @@ func (this *ReplyToParser) Parse() (sh header.Header, ParseException error) {
 
 	replyTo.SetHeaderName(core.SIPHeaderNames_REPLY_TO)
 
+	this.headerParams = true
 	if ParseException = this.AddressParametersParser.Parse(replyTo); ParseException == nil {
 		ParseException = this.EndOfLine()
 	}
-- 
2.43.0


From 13dd55f79817406def1cc6fcbe9818eda9f1b1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:53 +0000
Subject: [PATCH 126/159] fix: a parser took the length of a content that was
 cut for that of a later message

---
 sip/parser/StringMsgParser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index 13476d6..b4f46af 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -150,6 +150,7 @@ func (this *StringMsgParser) IsBodyString() bool {
  */
 func (this *StringMsgParser) ParseSIPMessageFromByte(msgBuffer []byte) (message.Message, error) {
 	this.bufferPointer = 0
+	this.contentLength = 0
 	this.bodyIsString = false
 
 	this.currentMessageBytes = msgBuffer
-- 
2.43.0


From 515aedd321bf559159eb073df96c57f095a31f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 127/159] fix: a method that is also the name of a header was
 rejected in a CSeq or RAck read from a lexer of header names

---
 sip/parser/SIPParser.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/sip/parser/SIPParser.go b/sip/parser/SIPParser.go
index 145ab94..7543e26 100644
--- a/sip/parser/SIPParser.go
+++ b/sip/parser/SIPParser.go
@@ -176,15 +176,8 @@ func (this *SIPParser) Method() (s string, ParseException error) {
 	}
 
 	token := tokens[0]
-	if token.GetTokenType() == TokenTypes_INVITE ||
-		token.GetTokenType() == TokenTypes_ACK ||
-		token.GetTokenType() == TokenTypes_OPTIONS ||
-		token.GetTokenType() == TokenTypes_BYE ||
-		token.GetTokenType() == TokenTypes_REGISTER ||
-		token.GetTokenType() == TokenTypes_CANCEL ||
-		token.GetTokenType() == TokenTypes_SUBSCRIBE ||
-		token.GetTokenType() == TokenTypes_NOTIFY ||
-		token.GetTokenType() == TokenTypes_ID {
+	// Any identifier will do, a keyword of the current lexer too.
+	if token.GetTokenType() > core.CORELEXER_START && token.GetTokenType() <= TokenTypes_ID {
 		this.GetLexer().Consume()
 		return token.GetTokenValue(), nil
 	} else {
-- 
2.43.0


From 2a217e10c186d06643d4919c85e1fec93362c9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:31 +0000
Subject: [PATCH 128/159] fix: setting the methods of an Allow or Allow-Events
 list added them to those it had, and did half of it before an error

---
 sip/header/AllowEventsList.go | 5 ++++-
 sip/header/AllowList.go       | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/sip/header/AllowEventsList.go b/sip/header/AllowEventsList.go
index 18df735..7f92b78 100644
--- a/sip/header/AllowEventsList.go
+++ b/sip/header/AllowEventsList.go
@@ -59,6 +59,7 @@ func (this *AllowEventsList) GetMethods() *list.List {
  */
 
 func (this *AllowEventsList) SetMethods(methods *list.List) (ParseException error) {
+	events := list.New()
 	for e := methods.Front(); e != nil; e = e.Next() {
 		allowEvents := NewAllowEvents()
 		if str, ok := e.Value.(string); ok {
@@ -69,8 +70,10 @@ func (this *AllowEventsList) SetMethods(methods *list.List) (ParseException erro
 			return errors.New("ParseException: the eventType parameter is not string")
 		}
 
-		this.PushBack(allowEvents)
+		events.PushBack(allowEvents)
 	}
 
+	this.Init()
+	this.PushBackList(events)
 	return nil
 }
diff --git a/sip/header/AllowList.go b/sip/header/AllowList.go
index 753297b..90172e6 100644
--- a/sip/header/AllowList.go
+++ b/sip/header/AllowList.go
@@ -59,7 +59,7 @@ func (this *AllowList) GetMethods() *list.List {
  */
 
 func (this *AllowList) SetMethods(methods *list.List) (ParseException error) {
-
+	allows := list.New()
 	for e := methods.Front(); e != nil; e = e.Next() {
 		allow := NewAllow()
 		if str, ok := e.Value.(string); ok {
@@ -70,7 +70,10 @@ func (this *AllowList) SetMethods(methods *list.List) (ParseException error) {
 			return errors.New("ParseException: the method parameter is not string")
 		}
 
-		this.PushBack(allow)
+		allows.PushBack(allow)
 	}
+
+	this.Init()
+	this.PushBackList(allows)
 	return nil
 }
-- 
2.43.0


From cac6396a70f7af54a8185a8d5bd2e4b2d06f41ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 129/159] fix: a parameter set as a name and value pair was
 added to the one it should replace

---
 core/NameValueList.go        | 3 +++
 sip/address/SipURIImpl.go    | 2 +-
 sip/header/Challenge.go      | 2 +-
 sip/header/ParametersImpl.go | 2 +-
 sip/parser/URLParser.go      | 2 +-
 sip/parser/ViaParser.go      | 2 +-
 6 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/core/NameValueList.go b/core/NameValueList.go
index 1f9128e..8effcd1 100644
--- a/core/NameValueList.go
+++ b/core/NameValueList.go
@@ -133,6 +133,9 @@ func (nameValueList *NameValueList) AddNameAndValue(name string, value interface
 * Set a namevalue object in nameValueList list.
  */
 func (nameValueList *NameValueList) SetNameValue(nv *NameValue) {
+	if nv == nil {
+		return
+	}
 	nameValueList.Delete(nv.name)
 	nameValueList.AddNameValue(nv)
 }
diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index c9819e6..c20dcd5 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -589,7 +589,7 @@ func (this *SipURIImpl) SetQHeader(nameValue *core.NameValue) {
  *@param nameValue - parameter to set.
  */
 func (this *SipURIImpl) SetUriParameter(nameValue *core.NameValue) {
-	this.uriParms.PushBack(nameValue)
+	this.uriParms.SetNameValue(nameValue)
 }
 
 /** Return true if the transport parameter is defined.
diff --git a/sip/header/Challenge.go b/sip/header/Challenge.go
index ecb526a..a95c84d 100644
--- a/sip/header/Challenge.go
+++ b/sip/header/Challenge.go
@@ -159,7 +159,7 @@ func (this *Challenge) RemoveParameters() {
  * @param nv NameValue to Set
  */
 func (this *Challenge) SetParameter(nv *core.NameValue) {
-	this.authParams.AddNameValue(nv)
+	this.authParams.SetNameValue(nv)
 }
 
 /**
diff --git a/sip/header/ParametersImpl.go b/sip/header/ParametersImpl.go
index 39002d7..9647574 100644
--- a/sip/header/ParametersImpl.go
+++ b/sip/header/ParametersImpl.go
@@ -183,7 +183,7 @@ func (this *Parameters) SetParameter(name, value string) (ParseException error)
  * @param nameValue - the name value of the parameter to set.
  */
 func (this *Parameters) SetParameterFromNameValue(nameValue *core.NameValue) {
-	this.parameters.AddNameValue(nameValue)
+	this.parameters.SetNameValue(nameValue)
 }
 
 /**
diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index ed436d9..1d0258f 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -494,7 +494,7 @@ func (this *URLParser) SipURL() (sipurl *address.SipURIImpl, ParseException erro
 		if parms, ParseException = this.UriParam(); ParseException != nil {
 			return nil, ParseException
 		}
-		retval.SetUriParameter(parms)
+		retval.GetUriParms().AddNameValue(parms)
 	}
 
 	if la, _ := this.GetLexer().LookAheadK(0); this.GetLexer().HasMoreChars() && la == '?' {
diff --git a/sip/parser/ViaParser.go b/sip/parser/ViaParser.go
index 01bf8f5..4fd62fb 100644
--- a/sip/parser/ViaParser.go
+++ b/sip/parser/ViaParser.go
@@ -140,7 +140,7 @@ func (this *ViaParser) parseViaParameters(v *header.Via) (ParseException error)
 
 		name := nameValue.GetName()
 		nameValue.SetName(strings.ToLower(name))
-		v.SetParameterFromNameValue(nameValue)
+		v.GetParameters().AddNameValue(nameValue)
 		lexer.SPorHT()
 	}
 	return nil
-- 
2.43.0


From 7c7fdc3da74190ed9b796e5d18e557b574a32e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:29 +0000
Subject: [PATCH 130/159] fix: blanks at the ends of a quoted display name were
 dropped

---
 sip/parser/AddressParser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sip/parser/AddressParser.go b/sip/parser/AddressParser.go
index 7cdec6d..dcf7b1a 100644
--- a/sip/parser/AddressParser.go
+++ b/sip/parser/AddressParser.go
@@ -79,8 +79,9 @@ func (this *AddressParser) NameAddr() (addr *address.AddressImpl, ParseException
 			if name, ParseException = lexer.GetNextTokenByDelim('<'); ParseException != nil {
 				return nil, ParseException
 			}
+			name = strings.TrimSpace(name)
 		}
-		addr.SetDisplayName(strings.TrimSpace(name))
+		addr.SetDisplayName(name)
 		if _, ParseException = lexer.Match('<'); ParseException != nil {
 			return nil, ParseException
 		}
-- 
2.43.0


From e98c65a12227dd63e5c2d2c5094566d7b5a58d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:52 +0000
Subject: [PATCH 131/159] fix: a second opening bracket in an IPv6 address was
 accepted

---
 core/HostNameParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/HostNameParser.go b/core/HostNameParser.go
index c7f4fb9..7bae603 100644
--- a/core/HostNameParser.go
+++ b/core/HostNameParser.go
@@ -76,7 +76,7 @@ func (hostNameParser *HostNameParser) Ipv6Reference() (s string, ParseException
 			retval.WriteByte(la)
 		} else if la == '.' ||
 			la == ':' ||
-			la == '[' {
+			la == '[' && retval.Len() == 0 {
 			hostNameParser.lexer.ConsumeK(1)
 			retval.WriteByte(la)
 		} else if la == ']' {
-- 
2.43.0


From da16e6fdd6e930f140bc6553d0525c0b7f68e39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:39 +0000
Subject: [PATCH 132/159] fix: an empty list of headers in a message stayed as
 a line of its own beside the one added to it

---
 sip/message/SIPMessage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 5ef039f..4a4b5fc 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -637,7 +637,7 @@ func (this *SIPMessage) AttachHeader3(h header.Header, replaceFlag, top bool) er
 		}
 	}
 
-	if this.GetHeader(h.GetName()) == nil {
+	if _, present := this.nameTable[strings.ToLower(h.GetName())]; !present {
 		this.nameTable[strings.ToLower(h.GetName())] = h
 		this.headers.PushBack(h)
 	} else {
-- 
2.43.0


From a1154dd660ca2ba274635a7d9719c2ca491638b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:56 +0000
Subject: [PATCH 133/159] fix: an empty header of a list was encoded as an
 empty element, which cannot be parsed

---
 sip/header/SIPHeaderList.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sip/header/SIPHeaderList.go b/sip/header/SIPHeaderList.go
index c78486d..7f69f6a 100644
--- a/sip/header/SIPHeaderList.go
+++ b/sip/header/SIPHeaderList.go
@@ -139,14 +139,20 @@ func (this *SIPHeaderList) String() string {
 func (this *SIPHeaderList) EncodeBody() string {
 	var encoding bytes.Buffer
 	for e := this.Front(); e != nil; e = e.Next() {
+		var body string
 		if sh, ok := e.Value.(Header); ok {
-			encoding.WriteString(sh.EncodeBody())
+			body = sh.EncodeBody()
 		} else {
-			encoding.WriteString(e.Value.(string))
+			body = e.Value.(string)
 		}
-		if e.Next() != nil {
+		if body == "" {
+			// An empty header (e.g. Accept-Encoding) is no element.
+			continue
+		}
+		if encoding.Len() > 0 {
 			encoding.WriteString(core.SIPSeparatorNames_COMMA)
 		}
+		encoding.WriteString(body)
 	}
 
 	return encoding.String()
-- 
2.43.0


From a2728f996443e4fd3819bbe87735fc457b796989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:08 +0000
Subject: [PATCH 134/159] fix: empty Accept and Allow headers, which are legal,
 were rejected

---
 sip/parser/AcceptParser.go | 4 ++++
 sip/parser/AllowParser.go  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/sip/parser/AcceptParser.go b/sip/parser/AcceptParser.go
index fca11e9..f22eb1c 100644
--- a/sip/parser/AcceptParser.go
+++ b/sip/parser/AcceptParser.go
@@ -53,6 +53,10 @@ func (this *AcceptParser) Parse() (sh header.Header, ParseException error) {
 	accept.SetHeaderName(core.SIPHeaderNames_ACCEPT)
 
 	lexer.SPorHT()
+	// empty body is fine for this header.
+	if ch, _ = lexer.LookAheadK(0); ch == '\n' {
+		return acceptList, nil
+	}
 	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
 		return nil, ParseException
 	}
diff --git a/sip/parser/AllowParser.go b/sip/parser/AllowParser.go
index f777544..04085df 100644
--- a/sip/parser/AllowParser.go
+++ b/sip/parser/AllowParser.go
@@ -46,6 +46,10 @@ func (this *AllowParser) Parse() (sh header.Header, ParseException error) {
 	allow.SetHeaderName(core.SIPHeaderNames_ALLOW)
 
 	lexer.SPorHT()
+	// empty body is fine for this header.
+	if ch, _ = lexer.LookAheadK(0); ch == '\n' {
+		return allowList, nil
+	}
 	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
 		return nil, ParseException
 	}
-- 
2.43.0


From 0ac1e2256c5c7ca34eba9e84e88009a04ad73316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:25 +0000
Subject: [PATCH 135/159] fix: read an IPv6 reference as the maddr parameter of
 a Via

---
 sip/parser/ViaParser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sip/parser/ViaParser.go b/sip/parser/ViaParser.go
index 4fd62fb..300b1f4 100644
--- a/sip/parser/ViaParser.go
+++ b/sip/parser/ViaParser.go
@@ -180,6 +180,11 @@ func (this *ViaParser) NameValue() (nv *core.NameValue, ParseException error) {
 					return nil, ParseException
 				}
 				quoted = true
+			} else if la == '[' && strings.ToLower(name.GetTokenValue()) == core.SIPParameters_MADDR {
+				// An IPv6 reference, as in maddr=[::1].
+				if str, ParseException = core.NewHostNameParserFromLexer(lexer).Ipv6Reference(); ParseException != nil {
+					return nil, ParseException
+				}
 			} else {
 				if _, ParseException = lexer.Match(core.CORELEXER_ID); ParseException != nil {
 					return nil, ParseException
-- 
2.43.0


From 29c9318d35ab1a57085991a41cec6a63d8b72ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:30 +0000
Subject: [PATCH 136/159] fix: a nonce count that is not set is -1, as
 documented

---
 sip/header/AuthenticationImpl.go     | 3 +++
 sip/header/AuthenticationInfoImpl.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/sip/header/AuthenticationImpl.go b/sip/header/AuthenticationImpl.go
index 23eb771..7dad9e4 100644
--- a/sip/header/AuthenticationImpl.go
+++ b/sip/header/AuthenticationImpl.go
@@ -372,6 +372,9 @@ func (this *Authentication) GetCNonce() string {
 
 func (this *Authentication) GetNonceCount() int {
 	//return this.GetParameterAsHexInt(ParameterNames_NC);
+	if !this.HasParameter(ParameterNames_NONCE_COUNT) {
+		return -1
+	}
 	s := this.GetParameter(ParameterNames_NONCE_COUNT)
 	nCount, _ := strconv.ParseUint(s, 16, 32)
 	return int(nCount)
diff --git a/sip/header/AuthenticationInfoImpl.go b/sip/header/AuthenticationInfoImpl.go
index b0a015f..b4ca32d 100644
--- a/sip/header/AuthenticationInfoImpl.go
+++ b/sip/header/AuthenticationInfoImpl.go
@@ -87,6 +87,9 @@ func (this *AuthenticationInfo) GetNextNonce() string {
  *
  */
 func (this *AuthenticationInfo) GetNonceCount() int {
+	if !this.HasParameter(ParameterNames_NONCE_COUNT) {
+		return -1
+	}
 	s := this.GetParameter(ParameterNames_NONCE_COUNT)
 	nCount, _ := strconv.ParseUint(s, 16, 32)
 	return int(nCount)
-- 
2.43.0


From 707873ac30cf3bac6ee0c207a2449cbc2ead0f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:30 +0000
Subject: [PATCH 137/159] fix: a Contact without an expires parameter says -1,
 not 0

---
 sip/header/ContactImpl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sip/header/ContactImpl.go b/sip/header/ContactImpl.go
index 5506c23..ea5df6f 100644
--- a/sip/header/ContactImpl.go
+++ b/sip/header/ContactImpl.go
@@ -107,6 +107,9 @@ func (this *Contact) GetContactParms() *core.NameValueList {
  * @return the Expires parameter.
  */
 func (this *Contact) GetExpires() int {
+	if !this.HasParameter(ParameterNames_EXPIRES) {
+		return -1 // 0 would be a removal
+	}
 	retval, _ := strconv.Atoi(this.GetParameter(ParameterNames_EXPIRES))
 	return retval
 }
-- 
2.43.0


From d8d1840ac7e5a35dc887b66b18444960f3cb40af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 138/159] fix: a host given an IPv4 address as its name is an
 address

---
 core/Host.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/Host.go b/core/Host.go
index 100abf9..f44c969 100644
--- a/core/Host.go
+++ b/core/Host.go
@@ -128,6 +128,8 @@ func (host *Host) GetIpAddress() string {
 func (host *Host) SetHostName(hname string) {
 	if host.isIPv6Address(hname) {
 		host.addressType = IPV6ADDRESS
+	} else if net.ParseIP(strings.TrimSpace(hname)) != nil {
+		host.addressType = IPV4ADDRESS
 	} else {
 		host.addressType = HOSTNAME
 	}
-- 
2.43.0


From 3a114cb179689632c4db7f5af18c2fbbea2bf6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:53 +0000
Subject: [PATCH 139/159] fix: the value of a plain header list was empty

---
 sip/header/HeaderValue.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sip/header/HeaderValue.go b/sip/header/HeaderValue.go
index 0859a3c..01f2783 100644
--- a/sip/header/HeaderValue.go
+++ b/sip/header/HeaderValue.go
@@ -608,3 +608,11 @@ func (this *WarningList) GetHeaderValue() string {
 func (this *WarningList) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+func (this *SIPHeaderList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *SIPHeaderList) GetValue() string {
+	return this.GetHeaderValue()
+}
-- 
2.43.0


From db0bf1f2cf257c46f592c5a7469c3f0a84c8e92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:49 +0000
Subject: [PATCH 140/159] fix: making a BYE from a request whose Via list was
 emptied crashed

---
 sip/message/SIPRequest.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 56eef09..677127b 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -766,6 +766,9 @@ func (this *SIPRequest) CreateSIPRequest(requestLine *header.RequestLine, switch
 			//}
 			//catch(ParseException e){}
 		} else if vl, ok := nextHeader.(*header.ViaList); ok {
+			if vl.Len() == 0 {
+				continue
+			}
 			via := vl.Front().Value.(*header.Via)
 			via.RemoveParameter("branch")
 			nextHeader = via
-- 
2.43.0


From aaf3ee974c7e080555e4b02a29ccc2ea5ffc0a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:23 +0000
Subject: [PATCH 141/159] fix: a request made from a response shared its
 headers

---
 sip/message/SIPResponse.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index 0b50851..b0d1fd9 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -585,7 +585,7 @@ func (this *SIPResponse) CreateRequest(requestURI address.URI, via *header.Via,
 	newRequest.SetHeader(cseq)
 
 	for headerIterator := this.getHeaders().Front(); headerIterator != nil; headerIterator = headerIterator.Next() {
-		nextHeader := headerIterator.Value.(header.Header)
+		nextHeader := headerIterator.Value.(header.Header).Clone().(header.Header)
 		// Some headers do not belong in a Request ....
 		if this.IsResponseHeader(nextHeader) {
 			continue
@@ -605,11 +605,6 @@ func (this *SIPResponse) CreateRequest(requestURI address.URI, via *header.Via,
 		if _, ok := nextHeader.(*header.RecordRouteList); ok {
 			continue
 		}
-		// if _, ok:=nextHeader.(*header.To); ok{
-		//     nextHeader = nextHeader.clone();
-		// }
-		// else if (nextHeader instanceof From)
-		//     nextHeader = (SIPHeader)nextHeader.clone();
 		// try {
 		newRequest.AttachHeader2(nextHeader, false)
 		// } catch(SIPDuplicateHeaderException e){
-- 
2.43.0


From 9d7cb98f4640269c1a7201e637992e35e001dd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:15 +0000
Subject: [PATCH 142/159] fix: a Subscription-State with expires=0 or
 retry-after=0 was rejected

---
 sip/header/SubscriptionStateImpl.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sip/header/SubscriptionStateImpl.go b/sip/header/SubscriptionStateImpl.go
index 5a379f6..cbf70a2 100644
--- a/sip/header/SubscriptionStateImpl.go
+++ b/sip/header/SubscriptionStateImpl.go
@@ -36,8 +36,8 @@ func NewSubscriptionState() *SubscriptionState {
  * @throws InvalidArgumentException if supplied value is less than zero.
  */
 func (this *SubscriptionState) SetExpires(expires int) (InvalidArgumentException error) {
-	if expires <= 0 {
-		return errors.New("InvalidArgumentException: the expires parameter is <=0")
+	if expires < 0 {
+		return errors.New("InvalidArgumentException: the expires parameter is <0")
 	}
 	this.expires = expires
 	return nil
@@ -61,8 +61,8 @@ func (this *SubscriptionState) GetExpires() int {
  * @throws InvalidArgumentException if supplied value is less than zero.
  */
 func (this *SubscriptionState) SetRetryAfter(retryAfter int) (InvalidArgumentException error) {
-	if retryAfter <= 0 {
-		return errors.New("InvalidArgumentException: the retryAfter parameter is <=0")
+	if retryAfter < 0 {
+		return errors.New("InvalidArgumentException: the retryAfter parameter is <0")
 	}
 	this.retryAfter = retryAfter
 	return nil
-- 
2.43.0


From 97ae45f7a4dcd6e644101e80fe13493a482f5762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:37 +0000
Subject: [PATCH 143/159] fix: a host name with an empty label was accepted

---
 core/HostNameParser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/HostNameParser.go b/core/HostNameParser.go
index 7bae603..89a5b8e 100644
--- a/core/HostNameParser.go
+++ b/core/HostNameParser.go
@@ -117,6 +117,10 @@ func (hostNameParser *HostNameParser) GetHost() (h *Host, err error) {
 		for hostNameParser.lexer.HasMoreChars() {
 			// Reached the end of the buffer.
 			if next, err = hostNameParser.lexer.LookAheadK(0); err == nil && next == '.' {
+				if nextToks == "" {
+					// An empty label: only the last one, after a dot, may be.
+					return nil, errors.New("ParseException: Illegal Host name")
+				}
 				hostNameParser.lexer.ConsumeK(1)
 				if nextToks, err = hostNameParser.DomainLabel(); err != nil {
 					return nil, err
-- 
2.43.0


From 66de392c967cf405882e39a8842730a34e18889c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:42 +0000
Subject: [PATCH 144/159] fix: a Via with the protocol name in lower case was
 refused

---
 sip/parser/ViaParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/parser/ViaParser.go b/sip/parser/ViaParser.go
index 300b1f4..f18701f 100644
--- a/sip/parser/ViaParser.go
+++ b/sip/parser/ViaParser.go
@@ -36,7 +36,7 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 		return ParseException
 	}
 
-	if protocolName = lexer.GetNextToken(); protocolName.GetTokenValue() != "SIP" {
+	if protocolName = lexer.GetNextToken(); !strings.EqualFold(protocolName.GetTokenValue(), "SIP") {
 		return this.CreateParseException("Protcoal Not Supported error")
 	}
 
-- 
2.43.0


From 93cccca8bbebcf30424385b187efe3d11baf280a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:46 +0000
Subject: [PATCH 145/159] fix: a Via with white space around the colon before
 its port was refused

---
 sip/parser/ViaParser.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/sip/parser/ViaParser.go b/sip/parser/ViaParser.go
index f18701f..b8e9e23 100644
--- a/sip/parser/ViaParser.go
+++ b/sip/parser/ViaParser.go
@@ -78,14 +78,26 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 	// sent-By
 	hnp := core.NewHostNameParserFromLexer(this.GetLexer())
 
-	var hostPort *core.HostPort
-	if hostPort, ParseException = hnp.GetHostPort(); ParseException != nil {
+	var host *core.Host
+	if host, ParseException = hnp.GetHost(); ParseException != nil {
 		return ParseException
 	}
-	v.SetSentBy(hostPort)
+	hostPort := core.NewHostPort()
+	hostPort.SetHost(host)
 
 	// Ignore blanks
 	lexer.SPorHT()
+	if la, _ := lexer.LookAheadK(0); la == ':' {
+		lexer.ConsumeK(1)
+		lexer.SPorHT()
+		var port int
+		if port, ParseException = lexer.Number(); ParseException != nil {
+			return ParseException
+		}
+		hostPort.SetPort(port)
+		lexer.SPorHT()
+	}
+	v.SetSentBy(hostPort)
 
 	if ParseException = this.parseViaParameters(v); ParseException != nil {
 		return ParseException
-- 
2.43.0


From 96f3eb299a80dae295167905f54c3aa8c64b076d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:50 +0000
Subject: [PATCH 146/159] fix: In-Reply-To refused call ids that Call-ID
 accepts

---
 sip/parser/InReplyToParser.go | 42 +++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/sip/parser/InReplyToParser.go b/sip/parser/InReplyToParser.go
index 3870682..e2efd4c 100644
--- a/sip/parser/InReplyToParser.go
+++ b/sip/parser/InReplyToParser.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
+	"strings"
 )
 
 /** SIPParser for InReplyTo header.
@@ -44,20 +45,18 @@ func (this *InReplyToParser) Parse() (sh header.Header, ParseException error) {
 		inReplyTo := header.NewInReplyTo()
 		inReplyTo.SetHeaderName(core.SIPHeaderNames_IN_REPLY_TO)
 
-		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		var word, host string
+		if word, ParseException = this.word(); ParseException != nil {
 			return nil, ParseException
 		}
-		token := lexer.GetNextToken()
 		if ch, _ = lexer.LookAheadK(0); ch == '@' {
 			lexer.Match('@')
-			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			if host, ParseException = this.word(); ParseException != nil {
 				return nil, ParseException
 			}
-			secToken := lexer.GetNextToken()
-			inReplyTo.SetCallId(token.GetTokenValue() + "@" +
-				secToken.GetTokenValue())
+			inReplyTo.SetCallId(word + "@" + host)
 		} else {
-			inReplyTo.SetCallId(token.GetTokenValue())
+			inReplyTo.SetCallId(word)
 		}
 
 		lexer.SPorHT()
@@ -70,20 +69,17 @@ func (this *InReplyToParser) Parse() (sh header.Header, ParseException error) {
 
 			inReplyTo = header.NewInReplyTo()
 
-			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			if word, ParseException = this.word(); ParseException != nil {
 				return nil, ParseException
 			}
-			token = lexer.GetNextToken()
 			if ch, _ = lexer.LookAheadK(0); ch == '@' {
 				lexer.Match('@')
-				if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				if host, ParseException = this.word(); ParseException != nil {
 					return nil, ParseException
 				}
-				secToken := lexer.GetNextToken()
-				inReplyTo.SetCallId(token.GetTokenValue() + "@" +
-					secToken.GetTokenValue())
+				inReplyTo.SetCallId(word + "@" + host)
 			} else {
-				inReplyTo.SetCallId(token.GetTokenValue())
+				inReplyTo.SetCallId(word)
 			}
 			lexer.SPorHT()
 
@@ -93,3 +89,21 @@ func (this *InReplyToParser) Parse() (sh header.Header, ParseException error) {
 
 	return inReplyToList, nil
 }
+
+/** read a word of a call identifier, which has more characters than a token.
+ */
+func (this *InReplyToParser) word() (word string, ParseException error) {
+	lexer := this.GetLexer()
+	start := lexer.GetPtr()
+	for {
+		ch, err := lexer.LookAheadK(0)
+		if err != nil || !lexer.StartsId() && strings.IndexByte(`()<>:\"/[]?{}`, ch) < 0 {
+			break
+		}
+		lexer.ConsumeK(1)
+	}
+	if word = lexer.GetBuffer()[start:lexer.GetPtr()]; word == "" {
+		return "", this.CreateParseException("call identifier expected")
+	}
+	return word, nil
+}
-- 
2.43.0


From 2dd37b67c568f4f52f0dbc85b9b6471ded01dc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:54 +0000
Subject: [PATCH 147/159] fix: a Timestamp or delay without digits on one side
 of the point was refused

---
 sip/parser/TimeStampParser.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/sip/parser/TimeStampParser.go b/sip/parser/TimeStampParser.go
index 66e05ab..b7ea9b6 100644
--- a/sip/parser/TimeStampParser.go
+++ b/sip/parser/TimeStampParser.go
@@ -45,6 +45,9 @@ func (this *TimeStampParser) Parse() (sh header.Header, ParseException error) {
 	timeStamp.SetHeaderName(core.SIPHeaderNames_TIMESTAMP)
 	lexer.SPorHT()
 
+	if ch, _ = lexer.LookAheadK(0); !lexer.IsDigit(ch) {
+		return nil, this.CreateParseException("digit expected")
+	}
 	var ts float32
 	if ts, ParseException = this.decimal(); ParseException != nil {
 		return nil, ParseException
@@ -68,20 +71,28 @@ func (this *TimeStampParser) Parse() (sh header.Header, ParseException error) {
 }
 
 /**
- * parse a decimal number: digits, and optionally a '.' and more digits.
+ * parse a decimal number: digits, and optionally a '.' and digits. There need
+ * not be any digits after the '.', nor before that of a delay.
  */
 func (this *TimeStampParser) decimal() (value float32, ParseException error) {
 	lexer := this.GetLexer()
 	start := lexer.GetPtr()
-	if _, ParseException = lexer.Number(); ParseException != nil {
-		return 0, ParseException
-	}
+	this.digits()
 	if ch, _ := lexer.LookAheadK(0); ch == '.' {
 		lexer.Match('.')
-		if _, ParseException = lexer.Number(); ParseException != nil {
-			return 0, ParseException
-		}
+		this.digits()
+	}
+	text := lexer.GetBuffer()[start:lexer.GetPtr()]
+	if text == "." {
+		return 0, nil
 	}
-	v, ParseException := strconv.ParseFloat(lexer.GetBuffer()[start:lexer.GetPtr()], 32)
+	v, ParseException := strconv.ParseFloat(text, 32)
 	return float32(v), ParseException
 }
+
+func (this *TimeStampParser) digits() {
+	lexer := this.GetLexer()
+	for ch, err := lexer.LookAheadK(0); err == nil && lexer.IsDigit(ch); ch, err = lexer.LookAheadK(0) {
+		lexer.ConsumeK(1)
+	}
+}
-- 
2.43.0


From 8326267a761ce31e9acf962d8a4e2bb5a6e1068d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:58 +0000
Subject: [PATCH 148/159] fix: a Warning whose agent is an IPv6 reference was
 refused

---
 sip/parser/WarningParser.go | 51 +++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/sip/parser/WarningParser.go b/sip/parser/WarningParser.go
index 631217d..edc6eb0 100644
--- a/sip/parser/WarningParser.go
+++ b/sip/parser/WarningParser.go
@@ -62,19 +62,10 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 		lexer.SPorHT()
 
 		// Parsing the agent
-		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		var agent string
+		if agent, ParseException = this.agent(); ParseException != nil {
 			return nil, ParseException
 		}
-		token = lexer.GetNextToken()
-		agent := token.GetTokenValue()
-		if ch, _ = lexer.LookAheadK(0); ch == ':' {
-			var port int
-			lexer.Match(':')
-			if port, ParseException = lexer.Number(); ParseException != nil {
-				return nil, ParseException
-			}
-			agent += ":" + strconv.Itoa(port)
-		}
 		warning.SetAgent(agent)
 		lexer.SPorHT()
 
@@ -110,19 +101,9 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 			lexer.SPorHT()
 
 			// Parsing the agent
-			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			if agent, ParseException = this.agent(); ParseException != nil {
 				return nil, ParseException
 			}
-			tok = lexer.GetNextToken()
-			agent = tok.GetTokenValue()
-			if ch, _ = lexer.LookAheadK(0); ch == ':' {
-				var port int
-				lexer.Match(':')
-				if port, ParseException = lexer.Number(); ParseException != nil {
-					return nil, ParseException
-				}
-				agent += ":" + strconv.Itoa(port)
-			}
 			warning.SetAgent(agent)
 			lexer.SPorHT()
 
@@ -140,3 +121,29 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 
 	return warningList, nil
 }
+
+/** parse the agent: a name, or a host with or without a port.
+ */
+func (this *WarningParser) agent() (agent string, ParseException error) {
+	lexer := this.GetLexer()
+	if ch, _ := lexer.LookAheadK(0); ch == '[' {
+		var host *core.HostPort
+		if host, ParseException = core.NewHostNameParserFromLexer(lexer).GetHostPort(); ParseException != nil {
+			return "", ParseException
+		}
+		return host.String(), nil
+	}
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return "", ParseException
+	}
+	agent = lexer.GetNextToken().GetTokenValue()
+	if ch, _ := lexer.LookAheadK(0); ch == ':' {
+		var port int
+		lexer.Match(':')
+		if port, ParseException = lexer.Number(); ParseException != nil {
+			return "", ParseException
+		}
+		agent += ":" + strconv.Itoa(port)
+	}
+	return agent, nil
+}
-- 
2.43.0


From f9e44d246c2b0a6afb0b45123d97655e0d0f6364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:03 +0000
Subject: [PATCH 149/159] fix: a Warning with an empty text was encoded without
 it

---
 sip/header/WarningImpl.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/sip/header/WarningImpl.go b/sip/header/WarningImpl.go
index 3e70275..97173e0 100644
--- a/sip/header/WarningImpl.go
+++ b/sip/header/WarningImpl.go
@@ -47,12 +47,8 @@ func (this *Warning) String() string {
  *@return the string encoding of the header value.
  */
 func (this *Warning) EncodeBody() string {
-	if this.text != "" {
-		return strconv.Itoa(this.code) + core.SIPSeparatorNames_SP + this.agent +
-			core.SIPSeparatorNames_SP + core.SIPSeparatorNames_DOUBLE_QUOTE + this.text + core.SIPSeparatorNames_DOUBLE_QUOTE
-	} else {
-		return strconv.Itoa(this.code) + core.SIPSeparatorNames_SP + this.agent
-	}
+	return strconv.Itoa(this.code) + core.SIPSeparatorNames_SP + this.agent +
+		core.SIPSeparatorNames_SP + core.SIPSeparatorNames_DOUBLE_QUOTE + this.text + core.SIPSeparatorNames_DOUBLE_QUOTE
 }
 
 /**
-- 
2.43.0


From 91b88d58a09a0e79cbfe438f48655716c703b1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:08 +0000
Subject: [PATCH 150/159] fix: a URI other than SIP with an IPv6 host was
 refused

---
 sip/parser/URLParser.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index 1d0258f..757a717 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/address"
+	"strings"
 )
 
 /** SIPParser For SIP and Tel URLs. Other kinds of URL's are handled by the
@@ -222,6 +223,9 @@ func (this *URLParser) UricString() string {
 			break
 		}
 		next := this.Uric()
+		if next == "" && this.startsAuthority(retval.String()) {
+			next = this.ipv6Reference()
+		}
 		if next == "" {
 			break
 		}
@@ -230,6 +234,32 @@ func (this *URLParser) UricString() string {
 	return retval.String()
 }
 
+// startsAuthority tells whether the host of the authority of a URI follows s.
+func (this *URLParser) startsAuthority(s string) bool {
+	i := strings.Index(s, "://")
+	if i <= 0 {
+		return false
+	}
+	before, authority := s[:i], s[i+3:]
+	return !strings.ContainsAny(before, "/?:") &&
+		(authority == "" || strings.IndexByte(authority, '@') == len(authority)-1 && !strings.ContainsAny(authority, "/?"))
+}
+
+// ipv6Reference takes an IPv6 address in square brackets.
+func (this *URLParser) ipv6Reference() string {
+	lexer := this.GetLexer()
+	rest := lexer.GetRest()
+	n := 1
+	for n < len(rest) && (lexer.IsHexDigit(rest[n]) || rest[n] == ':' || rest[n] == '.') {
+		n++
+	}
+	if n == 1 || n == len(rest) || rest[0] != '[' || rest[n] != ']' {
+		return ""
+	}
+	lexer.ConsumeK(n + 1)
+	return rest[:n+1]
+}
+
 /** Parse and return a structure for a generic URL.
  * Note that non SIP URLs are just stored as a string (not parsed).
  *@return URI is a URL structure for a SIP url.
-- 
2.43.0


From b08dfe681db471da8192678db3bba1d9398347ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:12 +0000
Subject: [PATCH 151/159] fix: an address without brackets swallowed the next
 one after a comma

---
 sip/parser/AddressParser.go | 1 +
 sip/parser/URLParser.go     | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/sip/parser/AddressParser.go b/sip/parser/AddressParser.go
index dcf7b1a..322173e 100644
--- a/sip/parser/AddressParser.go
+++ b/sip/parser/AddressParser.go
@@ -127,6 +127,7 @@ func (this *AddressParser) Address() (retval *address.AddressImpl, ParseExceptio
 		retval = address.NewAddressImpl()
 		uriParser := NewURLParserFromLexer(lexer)
 		uriParser.headerParams = this.headerParams
+		uriParser.bare = true
 
 		var uri address.URI
 		if uri, ParseException = uriParser.UriReference(); ParseException != nil {
diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index 757a717..489d385 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -15,6 +15,9 @@ type URLParser struct {
 	// headerParams tells that what follows a ';' or ',' is not part of the
 	// URI: it is not enclosed in angle brackets.
 	headerParams bool
+
+	// bare tells that the URI is not enclosed in angle brackets: a ',' ends it.
+	bare bool
 }
 
 func NewURLParser(url string) *URLParser {
@@ -219,7 +222,7 @@ func (this *URLParser) UricNoSlash() string {
 func (this *URLParser) UricString() string {
 	var retval bytes.Buffer
 	for {
-		if la, _ := this.GetLexer().LookAheadK(0); this.headerParams && (la == ';' || la == ',') {
+		if la, _ := this.GetLexer().LookAheadK(0); this.headerParams && la == ';' || this.bare && la == ',' {
 			break
 		}
 		next := this.Uric()
-- 
2.43.0


From 3c6ef5464f26b87e5349b45f8cb8a19ed33d0869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:16 +0000
Subject: [PATCH 152/159] fix: a display name starting with an asterisk was
 taken for a wildcard Contact

---
 sip/parser/ContactParser.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/sip/parser/ContactParser.go b/sip/parser/ContactParser.go
index b7bb1e8..53836d5 100644
--- a/sip/parser/ContactParser.go
+++ b/sip/parser/ContactParser.go
@@ -34,7 +34,7 @@ func (this *ContactParser) Parse() (sh header.Header, ParseException error) {
 	this.HeaderName(TokenTypes_CONTACT)
 	for {
 		contact := header.NewContact()
-		if la, _ = lexer.LookAheadK(0); la == '*' {
+		if la, _ = lexer.LookAheadK(0); la == '*' && this.wildCard() {
 			lexer.Match('*')
 			contact.SetWildCardFlag(true)
 		} else {
@@ -61,3 +61,16 @@ func (this *ContactParser) Parse() (sh header.Header, ParseException error) {
 	}
 	return retval, nil
 }
+
+// wildCard tells whether the '*' ahead stands alone: a display name may
+// also start with one.
+func (this *ContactParser) wildCard() bool {
+	for k := 1; ; k++ {
+		switch la, err := this.GetLexer().LookAheadK(k); {
+		case err != nil || la == '\n' || la == ',':
+			return true
+		case la != ' ' && la != '\t':
+			return false
+		}
+	}
+}
-- 
2.43.0


From 3ba00c8daa0e07d75d288c24fbf78a2a3f98fd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 153/159] fix: a parameter whose value is an IPv6 reference was
 refused

---
 core/CoreParser.go                    | 24 +++++++++++++++++++++++-
 sip/parser/AcceptEncodingParser.go    |  2 +-
 sip/parser/AcceptLanguageParser.go    |  2 +-
 sip/parser/ParametersParser.go        |  2 +-
 sip/parser/RetryAfterParser.go        |  2 +-
 sip/parser/SubscriptionStateParser.go |  2 +-
 sip/parser/ViaParser.go               |  6 +++++-
 7 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/core/CoreParser.go b/core/CoreParser.go
index 15d2686..027ef5b 100644
--- a/core/CoreParser.go
+++ b/core/CoreParser.go
@@ -1,6 +1,11 @@
 package core
 
-import "bytes"
+import (
+	"bytes"
+	"errors"
+	"net"
+	"strings"
+)
 
 /** Generic parser class.
 * All parsers inherit coreParser class.
@@ -31,6 +36,15 @@ func (coreParser *CoreParser) SetLexer(lexer Lexer) {
 }
 
 func (coreParser *CoreParser) NameValue(separator byte) (nv *NameValue, ParseException error) {
+	return coreParser.nameValue(separator, false)
+}
+
+// GenericParameter parses a parameter, whose value may also be a host.
+func (coreParser *CoreParser) GenericParameter() (nv *NameValue, ParseException error) {
+	return coreParser.nameValue('=', true)
+}
+
+func (coreParser *CoreParser) nameValue(separator byte, host bool) (nv *NameValue, ParseException error) {
 	if Debug.ParserDebug {
 		coreParser.Dbg_enter("nameValue")
 		defer coreParser.Dbg_leave("nameValue")
@@ -57,6 +71,14 @@ func (coreParser *CoreParser) NameValue(separator byte) (nv *NameValue, ParseExc
 				return nil, ParseException
 			}
 			quoted = true
+		} else if la == '[' && err == nil && host {
+			// Tokens and host names are read alike, but not an IPv6 reference.
+			if str, ParseException = NewHostNameParserFromLexer(coreParser.lexer).Ipv6Reference(); ParseException != nil {
+				return nil, ParseException
+			}
+			if net.ParseIP(strings.Trim(str, "[]")) == nil {
+				return nil, errors.New("ParseException: bad IPv6 address")
+			}
 		} else if err == nil && la != ';' && la != ',' && la != '\n' {
 			if _, ParseException = coreParser.lexer.Match(CORELEXER_ID); ParseException != nil {
 				return nil, ParseException
diff --git a/sip/parser/AcceptEncodingParser.go b/sip/parser/AcceptEncodingParser.go
index d33144e..2fc3e30 100644
--- a/sip/parser/AcceptEncodingParser.go
+++ b/sip/parser/AcceptEncodingParser.go
@@ -84,7 +84,7 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 			for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
 				lexer.Match(';')
 				lexer.SPorHT()
-				nv, err := this.NameValue('=')
+				nv, err := this.GenericParameter()
 				if err != nil {
 					return nil, err
 				}
diff --git a/sip/parser/AcceptLanguageParser.go b/sip/parser/AcceptLanguageParser.go
index a857dd8..f3e1c38 100644
--- a/sip/parser/AcceptLanguageParser.go
+++ b/sip/parser/AcceptLanguageParser.go
@@ -74,7 +74,7 @@ func (this *AcceptLanguageParser) Parse() (sh header.Header, ParseException erro
 		for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
 			lexer.Match(';')
 			lexer.SPorHT()
-			nv, err := this.NameValue('=')
+			nv, err := this.GenericParameter()
 			if err != nil {
 				return nil, err
 			}
diff --git a/sip/parser/ParametersParser.go b/sip/parser/ParametersParser.go
index ea7c0f4..5b019e5 100644
--- a/sip/parser/ParametersParser.go
+++ b/sip/parser/ParametersParser.go
@@ -50,7 +50,7 @@ func (this *ParametersParser) Parse(parametersHeader header.ParametersHeader) (P
 		// eat white space
 		lexer.SPorHT()
 
-		if nv, ParseException = this.NameValue('='); ParseException != nil {
+		if nv, ParseException = this.GenericParameter(); ParseException != nil {
 			return ParseException
 		}
 
diff --git a/sip/parser/RetryAfterParser.go b/sip/parser/RetryAfterParser.go
index 5a028b2..ae88bae 100644
--- a/sip/parser/RetryAfterParser.go
+++ b/sip/parser/RetryAfterParser.go
@@ -62,7 +62,7 @@ func (this *RetryAfterParser) Parse() (sh header.Header, ParseException error) {
 	for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
 		lexer.Match(';')
 		lexer.SPorHT()
-		nv, err := this.NameValue('=')
+		nv, err := this.GenericParameter()
 		if err != nil {
 			return nil, err
 		}
diff --git a/sip/parser/SubscriptionStateParser.go b/sip/parser/SubscriptionStateParser.go
index 2ea27fe..864f029 100644
--- a/sip/parser/SubscriptionStateParser.go
+++ b/sip/parser/SubscriptionStateParser.go
@@ -55,7 +55,7 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 	for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
 		lexer.Match(';')
 		lexer.SPorHT()
-		nv, err := this.NameValue('=')
+		nv, err := this.GenericParameter()
 		if err != nil {
 			return nil, err
 		}
diff --git a/sip/parser/ViaParser.go b/sip/parser/ViaParser.go
index b8e9e23..fa6d359 100644
--- a/sip/parser/ViaParser.go
+++ b/sip/parser/ViaParser.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
+	"net"
 	"strings"
 )
 
@@ -192,11 +193,14 @@ func (this *ViaParser) NameValue() (nv *core.NameValue, ParseException error) {
 					return nil, ParseException
 				}
 				quoted = true
-			} else if la == '[' && strings.ToLower(name.GetTokenValue()) == core.SIPParameters_MADDR {
+			} else if la == '[' {
 				// An IPv6 reference, as in maddr=[::1].
 				if str, ParseException = core.NewHostNameParserFromLexer(lexer).Ipv6Reference(); ParseException != nil {
 					return nil, ParseException
 				}
+				if strings.ToLower(name.GetTokenValue()) != core.SIPParameters_MADDR && net.ParseIP(strings.Trim(str, "[]")) == nil {
+					return nil, this.CreateParseException("bad IPv6 address")
+				}
 			} else {
 				if _, ParseException = lexer.Match(core.CORELEXER_ID); ParseException != nil {
 					return nil, ParseException
-- 
2.43.0


From 0163e368ce08abb3013f345b3160544527aef84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:03 +0000
Subject: [PATCH 154/159] fix: list elements without a comma between them were
 accepted

---
 sip/parser/AcceptEncodingParser.go  | 3 ++-
 sip/parser/AcceptLanguageParser.go  | 4 ++--
 sip/parser/AlertInfoParser.go       | 3 +++
 sip/parser/CallInfoParser.go        | 3 +++
 sip/parser/ContentEncodingParser.go | 3 +++
 sip/parser/ContentLanguageParser.go | 3 +++
 sip/parser/ErrorInfoParser.go       | 3 +++
 sip/parser/InReplyToParser.go       | 3 +++
 sip/parser/ProxyRequireParser.go    | 4 +++-
 sip/parser/ReasonParser.go          | 5 ++---
 sip/parser/RequireParser.go         | 4 +++-
 sip/parser/SupportedParser.go       | 3 +++
 sip/parser/UnsupportedParser.go     | 4 +++-
 sip/parser/WarningParser.go         | 4 +++-
 14 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/sip/parser/AcceptEncodingParser.go b/sip/parser/AcceptEncodingParser.go
index 2fc3e30..3ffbc84 100644
--- a/sip/parser/AcceptEncodingParser.go
+++ b/sip/parser/AcceptEncodingParser.go
@@ -112,8 +112,9 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 			if ch, _ = lexer.LookAheadK(0); ch == ',' {
 				lexer.Match(',')
 				lexer.SPorHT()
+			} else if ch != '\n' {
+				return nil, this.CreateParseException("comma expected")
 			}
-
 		}
 	}
 	return acceptEncodingList, nil
diff --git a/sip/parser/AcceptLanguageParser.go b/sip/parser/AcceptLanguageParser.go
index f3e1c38..643bf46 100644
--- a/sip/parser/AcceptLanguageParser.go
+++ b/sip/parser/AcceptLanguageParser.go
@@ -104,8 +104,8 @@ func (this *AcceptLanguageParser) Parse() (sh header.Header, ParseException erro
 		if ch, _ = lexer.LookAheadK(0); ch == ',' {
 			lexer.Match(',')
 			lexer.SPorHT()
-		} else {
-			lexer.SPorHT()
+		} else if ch != '\n' {
+			return nil, this.CreateParseException("comma expected")
 		}
 	}
 
diff --git a/sip/parser/AlertInfoParser.go b/sip/parser/AlertInfoParser.go
index 3022f1c..7942bd0 100644
--- a/sip/parser/AlertInfoParser.go
+++ b/sip/parser/AlertInfoParser.go
@@ -98,6 +98,9 @@ func (this *AlertInfoParser) Parse() (sh header.Header, ParseException error) {
 			}
 			alertInfoList.PushBack(alertInfo)
 		}
+		if ParseException = this.EndOfLine(); ParseException != nil {
+			return nil, ParseException
+		}
 	}
 
 	return alertInfoList, nil
diff --git a/sip/parser/CallInfoParser.go b/sip/parser/CallInfoParser.go
index 5fbbf07..d7b0b0a 100644
--- a/sip/parser/CallInfoParser.go
+++ b/sip/parser/CallInfoParser.go
@@ -92,6 +92,9 @@ func (this *CallInfoParser) Parse() (sh header.Header, ParseException error) {
 			}
 			callInfoList.PushBack(callInfo)
 		}
+		if ParseException = this.EndOfLine(); ParseException != nil {
+			return nil, ParseException
+		}
 	}
 
 	return callInfoList, nil
diff --git a/sip/parser/ContentEncodingParser.go b/sip/parser/ContentEncodingParser.go
index 1338237..9d66018 100644
--- a/sip/parser/ContentEncodingParser.go
+++ b/sip/parser/ContentEncodingParser.go
@@ -69,6 +69,9 @@ func (this *ContentEncodingParser) Parse() (sh header.Header, ParseException err
 			lexer.SPorHT()
 			contentEncodingList.PushBack(cl)
 		}
+		if ch, _ = lexer.LookAheadK(0); ch != '\n' {
+			return nil, this.CreateParseException("comma expected")
+		}
 	}
 
 	return contentEncodingList, nil
diff --git a/sip/parser/ContentLanguageParser.go b/sip/parser/ContentLanguageParser.go
index 42aa736..6fff21a 100644
--- a/sip/parser/ContentLanguageParser.go
+++ b/sip/parser/ContentLanguageParser.go
@@ -70,6 +70,9 @@ func (this *ContentLanguageParser) Parse() (sh header.Header, ParseException err
 			lexer.SPorHT()
 			contentLanguageList.PushBack(cl)
 		}
+		if ch, _ = lexer.LookAheadK(0); ch != '\n' {
+			return nil, this.CreateParseException("comma expected")
+		}
 	}
 
 	return contentLanguageList, nil
diff --git a/sip/parser/ErrorInfoParser.go b/sip/parser/ErrorInfoParser.go
index dee5d5e..96e5380 100644
--- a/sip/parser/ErrorInfoParser.go
+++ b/sip/parser/ErrorInfoParser.go
@@ -94,6 +94,9 @@ func (this *ErrorInfoParser) Parse() (sh header.Header, ParseException error) {
 			}
 			errorInfoList.PushBack(errorInfo)
 		}
+		if ParseException = this.EndOfLine(); ParseException != nil {
+			return nil, ParseException
+		}
 	}
 
 	return errorInfoList, nil
diff --git a/sip/parser/InReplyToParser.go b/sip/parser/InReplyToParser.go
index e2efd4c..2ea11bb 100644
--- a/sip/parser/InReplyToParser.go
+++ b/sip/parser/InReplyToParser.go
@@ -85,6 +85,9 @@ func (this *InReplyToParser) Parse() (sh header.Header, ParseException error) {
 
 			inReplyToList.PushBack(inReplyTo)
 		}
+		if ch, _ = lexer.LookAheadK(0); ch != '\n' {
+			return nil, this.CreateParseException("comma expected")
+		}
 	}
 
 	return inReplyToList, nil
diff --git a/sip/parser/ProxyRequireParser.go b/sip/parser/ProxyRequireParser.go
index 9aa9c20..c8949d9 100644
--- a/sip/parser/ProxyRequireParser.go
+++ b/sip/parser/ProxyRequireParser.go
@@ -70,7 +70,9 @@ func (this *ProxyRequireParser) Parse() (sh header.Header, ParseException error)
 
 			proxyRequireList.PushBack(r)
 		}
-
+		if ch, _ = lexer.LookAheadK(0); ch != '\n' {
+			return nil, this.CreateParseException("comma expected")
+		}
 	}
 
 	return proxyRequireList, nil
diff --git a/sip/parser/ReasonParser.go b/sip/parser/ReasonParser.go
index 03f7dfd..0246e64 100644
--- a/sip/parser/ReasonParser.go
+++ b/sip/parser/ReasonParser.go
@@ -56,10 +56,9 @@ func (this *ReasonParser) Parse() (sh header.Header, ParseException error) {
 		if ch, _ = lexer.LookAheadK(0); ch == ',' {
 			lexer.Match(',')
 			lexer.SPorHT()
-		} else {
-			lexer.SPorHT()
+		} else if ch != '\n' {
+			return nil, this.CreateParseException("comma expected")
 		}
-
 	}
 
 	return reasonList, nil
diff --git a/sip/parser/RequireParser.go b/sip/parser/RequireParser.go
index c47eb90..9de914c 100644
--- a/sip/parser/RequireParser.go
+++ b/sip/parser/RequireParser.go
@@ -70,7 +70,9 @@ func (this *RequireParser) Parse() (sh header.Header, ParseException error) {
 
 			requireList.PushBack(r)
 		}
-
+		if ch, _ = lexer.LookAheadK(0); ch != '\n' {
+			return nil, this.CreateParseException("comma expected")
+		}
 	}
 
 	return requireList, nil
diff --git a/sip/parser/SupportedParser.go b/sip/parser/SupportedParser.go
index c68e1b3..bc8fd9b 100644
--- a/sip/parser/SupportedParser.go
+++ b/sip/parser/SupportedParser.go
@@ -71,6 +71,9 @@ func (this *SupportedParser) Parse() (sh header.Header, ParseException error) {
 
 			supportedList.PushBack(supported)
 		}
+		if ch, _ = lexer.LookAheadK(0); ch != '\n' {
+			return nil, this.CreateParseException("comma expected")
+		}
 	}
 
 	return supportedList, nil
diff --git a/sip/parser/UnsupportedParser.go b/sip/parser/UnsupportedParser.go
index 789edce..ada94b0 100644
--- a/sip/parser/UnsupportedParser.go
+++ b/sip/parser/UnsupportedParser.go
@@ -71,7 +71,9 @@ func (this *UnsupportedParser) Parse() (sh header.Header, ParseException error)
 
 			unsupportedList.PushBack(unsupported)
 		}
-
+		if ch, _ = lexer.LookAheadK(0); ch != '\n' {
+			return nil, this.CreateParseException("comma expected")
+		}
 	}
 
 	return unsupportedList, nil
diff --git a/sip/parser/WarningParser.go b/sip/parser/WarningParser.go
index edc6eb0..1c96b7c 100644
--- a/sip/parser/WarningParser.go
+++ b/sip/parser/WarningParser.go
@@ -116,7 +116,9 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 
 			warningList.PushBack(warning)
 		}
-
+		if ParseException = this.EndOfLine(); ParseException != nil {
+			return nil, ParseException
+		}
 	}
 
 	return warningList, nil
-- 
2.43.0


From 8bca541fcc133dd5edaebcd5bb3829c03f686adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:07 +0000
Subject: [PATCH 155/159] fix: numbers with a sign or an exponent were accepted

---
 sip/parser/AcceptEncodingParser.go    |  3 +--
 sip/parser/AcceptLanguageParser.go    |  3 +--
 sip/parser/ContactParser.go           |  2 +-
 sip/parser/HeaderParser.go            | 18 +++++++++++++++++-
 sip/parser/SubscriptionStateParser.go | 12 ++++++------
 sip/parser/WarningParser.go           |  4 ++--
 6 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/sip/parser/AcceptEncodingParser.go b/sip/parser/AcceptEncodingParser.go
index 3ffbc84..20233ed 100644
--- a/sip/parser/AcceptEncodingParser.go
+++ b/sip/parser/AcceptEncodingParser.go
@@ -3,7 +3,6 @@ package parser
 import (
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
-	"strconv"
 	"strings"
 )
 
@@ -99,7 +98,7 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 				}
 
 				var qv float64
-				if qv, ParseException = strconv.ParseFloat(nv.GetValue().(string), 32); ParseException != nil {
+				if qv, ParseException = parseQ(nv.GetValue().(string)); ParseException != nil {
 					return nil, ParseException
 				}
 				if ParseException = acceptEncoding.SetQValue(float32(qv)); ParseException != nil {
diff --git a/sip/parser/AcceptLanguageParser.go b/sip/parser/AcceptLanguageParser.go
index 643bf46..2c1e6e8 100644
--- a/sip/parser/AcceptLanguageParser.go
+++ b/sip/parser/AcceptLanguageParser.go
@@ -3,7 +3,6 @@ package parser
 import (
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
-	"strconv"
 	"strings"
 )
 
@@ -89,7 +88,7 @@ func (this *AcceptLanguageParser) Parse() (sh header.Header, ParseException erro
 			}
 
 			var qv float64
-			if qv, ParseException = strconv.ParseFloat(nv.GetValue().(string), 32); ParseException != nil {
+			if qv, ParseException = parseQ(nv.GetValue().(string)); ParseException != nil {
 				return nil, ParseException
 			}
 
diff --git a/sip/parser/ContactParser.go b/sip/parser/ContactParser.go
index 53836d5..716704c 100644
--- a/sip/parser/ContactParser.go
+++ b/sip/parser/ContactParser.go
@@ -43,7 +43,7 @@ func (this *ContactParser) Parse() (sh header.Header, ParseException error) {
 			}
 
 			if contact.HasParameter(header.ParameterNames_EXPIRES) {
-				if _, ParseException = strconv.Atoi(contact.GetParameter(header.ParameterNames_EXPIRES)); ParseException != nil {
+				if _, ParseException = strconv.ParseUint(contact.GetParameter(header.ParameterNames_EXPIRES), 10, 63); ParseException != nil {
 					return nil, ParseException
 				}
 			}
diff --git a/sip/parser/HeaderParser.go b/sip/parser/HeaderParser.go
index 5173ec3..3379611 100644
--- a/sip/parser/HeaderParser.go
+++ b/sip/parser/HeaderParser.go
@@ -2,9 +2,11 @@ package parser
 
 import (
 	"errors"
+	"strconv"
+	"strings"
+
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
-	"strings"
 )
 
 type Parser interface {
@@ -87,3 +89,17 @@ func (this *HeaderParser) EndOfLine() (ParseException error) {
 	}
 	return nil
 }
+
+// digits is the number text consists of.
+func digits(text string) (int, error) {
+	n, err := strconv.ParseUint(text, 10, 31)
+	return int(n), err
+}
+
+// parseQ is the q value text consists of: digits and a decimal point.
+func parseQ(text string) (float64, error) {
+	if strings.Trim(text, "0123456789.") != "" {
+		return 0, errors.New("ParseException: bad q value " + text)
+	}
+	return strconv.ParseFloat(text, 32)
+}
diff --git a/sip/parser/SubscriptionStateParser.go b/sip/parser/SubscriptionStateParser.go
index 864f029..c545538 100644
--- a/sip/parser/SubscriptionStateParser.go
+++ b/sip/parser/SubscriptionStateParser.go
@@ -64,14 +64,14 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 		case "reason":
 			ParseException = subscriptionState.SetReasonCode(value)
 		case "expires":
-			var expires int
-			if expires, ParseException = strconv.Atoi(value); ParseException == nil {
-				ParseException = subscriptionState.SetExpires(expires)
+			var expires uint64
+			if expires, ParseException = strconv.ParseUint(value, 10, 31); ParseException == nil {
+				ParseException = subscriptionState.SetExpires(int(expires))
 			}
 		case "retry-after":
-			var retryAfter int
-			if retryAfter, ParseException = strconv.Atoi(value); ParseException == nil {
-				ParseException = subscriptionState.SetRetryAfter(retryAfter)
+			var retryAfter uint64
+			if retryAfter, ParseException = strconv.ParseUint(value, 10, 31); ParseException == nil {
+				ParseException = subscriptionState.SetRetryAfter(int(retryAfter))
 			}
 		default:
 			if nv.IsValueQuoted() {
diff --git a/sip/parser/WarningParser.go b/sip/parser/WarningParser.go
index 1c96b7c..c00679a 100644
--- a/sip/parser/WarningParser.go
+++ b/sip/parser/WarningParser.go
@@ -52,7 +52,7 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 		token := lexer.GetNextToken()
 
 		var code int
-		if code, ParseException = strconv.Atoi(token.GetTokenValue()); ParseException != nil {
+		if code, ParseException = digits(token.GetTokenValue()); ParseException != nil {
 			return nil, ParseException
 		}
 		if ParseException = warning.SetCode(code); ParseException != nil {
@@ -91,7 +91,7 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 			}
 			tok := lexer.GetNextToken()
 
-			if code, ParseException = strconv.Atoi(tok.GetTokenValue()); ParseException != nil {
+			if code, ParseException = digits(tok.GetTokenValue()); ParseException != nil {
 				return nil, ParseException
 			}
 			if ParseException = warning.SetCode(code); ParseException != nil {
-- 
2.43.0


From 2f4c1421e120ad22865064c8c714f51cb3ef8a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:11 +0000
Subject: [PATCH 156/159] fix: a Timestamp without white space before its delay
 was accepted

---
 sip/parser/TimeStampParser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sip/parser/TimeStampParser.go b/sip/parser/TimeStampParser.go
index b7ea9b6..bb1a9f8 100644
--- a/sip/parser/TimeStampParser.go
+++ b/sip/parser/TimeStampParser.go
@@ -55,8 +55,12 @@ func (this *TimeStampParser) Parse() (sh header.Header, ParseException error) {
 
 	timeStamp.SetTimeStamp(ts)
 
+	blank, _ := lexer.LookAheadK(0)
 	lexer.SPorHT()
 	if ch, _ = lexer.LookAheadK(0); ch != '\n' {
+		if blank != ' ' && blank != '\t' {
+			return nil, this.CreateParseException("white space expected")
+		}
 		if ts, ParseException = this.decimal(); ParseException != nil {
 			return nil, ParseException
 		}
-- 
2.43.0


From 3b3931a8580d9e1478af08b53a2947b6189b1ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:14 +0000
Subject: [PATCH 157/159] fix: a URI parameter or header without a name was
 accepted

---
 sip/parser/URLParser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index 489d385..2935b94 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -527,6 +527,9 @@ func (this *URLParser) SipURL() (sipurl *address.SipURIImpl, ParseException erro
 		if parms, ParseException = this.UriParam(); ParseException != nil {
 			return nil, ParseException
 		}
+		if parms.GetName() == "" {
+			return nil, this.CreateParseException("empty parameter name")
+		}
 		retval.GetUriParms().AddNameValue(parms)
 	}
 
@@ -537,6 +540,9 @@ func (this *URLParser) SipURL() (sipurl *address.SipURIImpl, ParseException erro
 			if parms, ParseException = this.Qheader(); ParseException != nil {
 				return nil, ParseException
 			}
+			if parms.GetName() == "" {
+				return nil, this.CreateParseException("empty header name")
+			}
 			retval.SetQHeader(parms)
 			if la, _ = this.GetLexer().LookAheadK(0); la != '&' {
 				break
-- 
2.43.0


From bfdb4931319e0f70910ac208191cce8cc6d05b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:18 +0000
Subject: [PATCH 158/159] fix: a request line without white space around its
 URI was accepted

---
 sip/parser/RequestLineParser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sip/parser/RequestLineParser.go b/sip/parser/RequestLineParser.go
index e643c9d..8a4a142 100644
--- a/sip/parser/RequestLineParser.go
+++ b/sip/parser/RequestLineParser.go
@@ -36,6 +36,9 @@ func (this *RequestLineParser) Parse() (rl *header.RequestLine, ParseException e
 		return nil, ParseException
 	}
 
+	if la, _ := lexer.LookAheadK(0); la != ' ' && la != '\t' {
+		return nil, this.CreateParseException("white space expected after the method")
+	}
 	lexer.SPorHT()
 	retval.SetMethod(m)
 	lexer.SelectLexer("sip_urlLexer")
@@ -43,6 +46,9 @@ func (this *RequestLineParser) Parse() (rl *header.RequestLine, ParseException e
 	if url, ParseException = urlParser.UriReference(); ParseException != nil {
 		return nil, ParseException
 	}
+	if la, _ := lexer.LookAheadK(0); la != ' ' && la != '\t' {
+		return nil, this.CreateParseException("white space expected after the request URI")
+	}
 	lexer.SPorHT()
 	retval.SetUri(url)
 	lexer.SelectLexer("request_lineLexer")
-- 
2.43.0


From e50a5eeba850e34ba5df395e7b17a07309d31586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:24 +0000
Subject: [PATCH 159/159] fix: a q value or time that is no number was taken

---
 sip/header/AcceptEncodingImpl.go | 2 +-
 sip/header/AcceptImpl.go         | 2 +-
 sip/header/AcceptLanguageImpl.go | 2 +-
 sip/header/ContactImpl.go        | 2 +-
 sip/header/TimeStampImpl.go      | 5 +++--
 5 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/sip/header/AcceptEncodingImpl.go b/sip/header/AcceptEncodingImpl.go
index 9007b4f..1b35f2d 100644
--- a/sip/header/AcceptEncodingImpl.go
+++ b/sip/header/AcceptEncodingImpl.go
@@ -138,7 +138,7 @@ func (this *AcceptEncoding) RemoveQValue() {
  *
  */
 func (this *AcceptEncoding) SetQValue(q float32) (InvalidArgumentException error) {
-	if q < 0.0 || q > 1.0 {
+	if !(q >= 0.0 && q <= 1.0) {
 		return errors.New("qvalue out of range!")
 	}
 	this.SetParameter(ParameterNames_Q, strconv.FormatFloat(float64(q), 'f', -1, 32))
diff --git a/sip/header/AcceptImpl.go b/sip/header/AcceptImpl.go
index 8fc1a99..e198607 100644
--- a/sip/header/AcceptImpl.go
+++ b/sip/header/AcceptImpl.go
@@ -174,7 +174,7 @@ func (this *Accept) RemoveQValue() {
  *
  */
 func (this *Accept) SetQValue(q float32) (InvalidArgumentException error) {
-	if q < 0.0 || q > 1.0 {
+	if !(q >= 0.0 && q <= 1.0) {
 		return errors.New("qvalue out of range!")
 	}
 	this.SetParameter(ParameterNames_Q, strconv.FormatFloat(float64(q), 'f', -1, 32))
diff --git a/sip/header/AcceptLanguageImpl.go b/sip/header/AcceptLanguageImpl.go
index 91769a6..7b76310 100644
--- a/sip/header/AcceptLanguageImpl.go
+++ b/sip/header/AcceptLanguageImpl.go
@@ -150,7 +150,7 @@ func (this *AcceptLanguage) RemoveQValue() {
  *
  */
 func (this *AcceptLanguage) SetQValue(q float32) (InvalidArgumentException error) {
-	if q < 0.0 || q > 1.0 {
+	if !(q >= 0.0 && q <= 1.0) {
 		return errors.New("qvalue out of range!")
 	}
 	this.SetParameter(ParameterNames_Q, strconv.FormatFloat(float64(q), 'f', -1, 32))
diff --git a/sip/header/ContactImpl.go b/sip/header/ContactImpl.go
index ea5df6f..dbf809a 100644
--- a/sip/header/ContactImpl.go
+++ b/sip/header/ContactImpl.go
@@ -199,7 +199,7 @@ func (this *Contact) RemoveQValue() {
  *
  */
 func (this *Contact) SetQValue(q float32) (InvalidArgumentException error) {
-	if q < 0.0 || q > 1.0 {
+	if !(q >= 0.0 && q <= 1.0) {
 		return errors.New("qvalue out of range!")
 	}
 	this.SetParameter(ParameterNames_Q, strconv.FormatFloat(float64(q), 'f', -1, 32))
diff --git a/sip/header/TimeStampImpl.go b/sip/header/TimeStampImpl.go
index 2ccee9b..112894e 100644
--- a/sip/header/TimeStampImpl.go
+++ b/sip/header/TimeStampImpl.go
@@ -3,6 +3,7 @@ package header
 import (
 	"errors"
 	"github.com/use-go/gosips/core"
+	"math"
 	"strconv"
 )
 
@@ -70,7 +71,7 @@ func (this *TimeStamp) RemoveDelay() {
  * negative value.
  */
 func (this *TimeStamp) SetTimeStamp(timeStamp float32) (InvalidArgumentException error) {
-	if timeStamp < 0 {
+	if !(timeStamp >= 0 && timeStamp <= math.MaxFloat32) {
 		return errors.New("InvalidArgumentException: the timeStamp parameter is <0")
 	}
 	this.timeStamp = timeStamp
@@ -106,7 +107,7 @@ func (this *TimeStamp) GetDelay() float32 {
  */
 
 func (this *TimeStamp) SetDelay(delay float32) (InvalidArgumentException error) {
-	if delay < 0 && delay != -1 {
+	if !(delay >= 0 && delay <= math.MaxFloat32) && delay != -1 {
 		return errors.New("InvalidArgumentException: the delay parameter is <0")
 	}
 	this.delay = delay
-- 
2.43.0


T = 'Bounded exhaustive exploration of the real code'
BASE = 'Every case within the printed bounds is executed on the code as built from the working tree; nothing is claimed beyond the bounds. Trusted: the Go toolchain, the source instrumenter (harness/instr) and the hand-written reference model.'
PROPS = []
NOT_APPLICABLE = []
NOTES = 'Each check rebuilds the harness against the current working tree (go build -overlay) and explores it exhaustively within stated bounds; counterexamples are re-run with: bash check.sh replay FILE.'

def P(id, title, statement, over, quantifier, why, files, mechanism, technique, note='', observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quantifier=quantifier, why=why, files=files,
                      mechanism=mechanism, technique=technique, note=(note + ' ' if note else '') + BASE, observe=list(observe)))

P('C01', 'Parsing never crashes or hangs',
  'Whatever text is given to a public parsing entry point (a message, a header line, a start line, a URI, an address, a host, a telephone number), the call returns in bounded time with a value or an error; it never panics or loops. What was accepted can then be encoded to text without panicking or looping either.',
  ['inputs'], 'All inputs: every token string, mutation, truncation and splice within the bounds, at every entry point.',
  'The tests parse a few dozen well-formed lines each; the property is about every malformed one, and most defects sit in error branches no test enters.',
  ['sip/parser', 'sip/header', 'sip/address', 'core'],
  [('lexer and backtracking scanner', 'core/CoreLexer.go'), ('header parsers', 'sip/parser/*Parser.go'), ('message framing', 'sip/parser/StringMsgParser.go')],
  T + ': all token strings to a depth, all one-edit mutations and splices of seed inputs, at every entry point, under a step budget')
P('C02', 'No accessor crashes or hangs on a parsed or fresh value',
  'On every message, header, URI or address that a parser accepted, or that a public constructor returned, every public read accessor (and every accessor of what it returns) completes without panicking or looping, including when the part asked for is absent.',
  ['inputs'], 'All values reachable by parsing the enumerated inputs or by calling a constructor, times all read accessors, transitively.',
  'The tests only encode what they parse; absent-part accessors, on which applications stand or fall, are never called.',
  ['sip/message', 'sip/header', 'sip/address', 'core'],
  [('message accessors', 'sip/message/SIPMessage.go'), ('header accessors', 'sip/header/*Impl.go'), ('URI and address accessors', 'sip/address/*Impl.go')],
  T + ': every accessor, transitively, of every value that the enumerated inputs parse to')

def H(id, title, statement, quantifier, files, mechanism, note=''):
    P(id, title, statement, ['inputs'], quantifier,
      'The tests compare the encoding of a handful of lines with themselves; no test reads a parsed part, and none combines forms.',
      files, mechanism, T + ': every value of a bounded grammar, with a reference model of its parts and of its canonical text', note)

H('C06', 'Address headers keep their address and parameters',
  'From, To, Contact, Reply-To, Refer-To, Route and Record-Route headers with an address in angle brackets give, when parsed, exactly the display name, URI (user, host, port) and header parameters that were written, each once, and encode to canonical text that parses to the same again. In From, To, Reply-To and Refer-To, parameters after a SIP address without angle brackets belong to the header; the q value and expiry of a Contact and the tag of a From or To are what their parameters say.',
  'All combinations of the display-name forms, URIs and sequences of parameters (token and quoted, any order, white space) in the bounded grammar.',
  ['sip/parser', 'sip/header', 'sip/address', 'core'],
  [('address and parameter parsing', 'sip/parser/AddressParser.go, sip/parser/ParametersParser.go'), ('address headers', 'sip/header/Contact*.go, From*.go, To*.go'), ('name-value lists', 'core/NameValueList.go')],
  'A parameter without a value is encoded with an empty one after angle brackets, as the existing tests require; a wildcard Contact is left out, because an existing test pins an encoding of it that cannot be parsed.')
H('C07', 'Via headers keep protocol, host, port, comment and parameters',
  'A Via header gives, when parsed, exactly the protocol, version, transport (compared without case), host, port, comment and parameters (branch, received, ttl, maddr and any other, token or quoted) that were written, says of absent parts that they are absent, and encodes to canonical text that parses to the same again.',
  'All combinations of protocol forms, hosts, ports, comments and parameter sequences in the bounded grammar.',
  ['sip/parser', 'sip/header', 'core'],
  [('Via parsing', 'sip/parser/ViaParser.go'), ('Via encoding and accessors', 'sip/header/ViaImpl.go'), ('host and port parsing', 'core/HostNameParser.go')])
H('C09', 'Numbers, dates and versions in headers are kept exactly',
  'Content-Length, Max-Forwards, Expires, Min-Expires, RSeq, CSeq, RAck, MIME-Version, Date, Timestamp and Retry-After headers give, when parsed, exactly the numbers, method, date, delay, duration, comment and parameters that were written, and encode to canonical text that parses to the same again. A header with something else where a number belongs is rejected.',
  'All values of the bounded grammar: boundary numbers below 2**31, leading zeros, fractions that a 32-bit float holds exactly, methods, months and days, comments, white space, name spellings; a list of malformed numbers in every place of a number.',
  ['sip/parser', 'sip/header'],
  [('number and date parsing', 'sip/parser/*Parser.go'), ('number and date encoding', 'sip/header/*Impl.go')])
H('C11', 'Free-text and unknown headers keep their text',
  'Subject, Organization, Call-ID, Priority, Server, User-Agent headers and headers the library does not know give, when parsed, exactly the text that was written, trimmed of the white space around it, and encode to a line that parses to the same again; the name of an unknown header is kept as written.',
  'All texts of the bounded grammar: separators, quotes, escapes, bytes above 0x7f, inner white space, empty text.',
  ['sip/parser', 'sip/header', 'core'],
  [('text headers', 'sip/parser/SubjectParser.go, OrganizationParser.go, ServerParser.go'), ('unknown headers', 'sip/parser/ExtensionParser.go, sip/header/Extension*.go')])
H('C08', 'Authentication headers keep scheme and parameters',
  'WWW-Authenticate, Proxy-Authenticate, Authorization, Proxy-Authorization and Authentication-Info headers give, when parsed, exactly the scheme, realm, user name, nonce, URI, response, algorithm, qop, opaque value, domain, stale flag, client nonce, nonce count (hexadecimal) and other parameters that were written, escapes included, say of absent ones that they are absent, and encode to canonical text that parses to the same again; parameters without a comma between them are refused. A nonce count that was set is the one read back and encoded, in eight hexadecimal digits; one out of range is refused and changes nothing.',
  'All sequences of distinct parameters up to a length, known and unknown, token and quoted, with white space and name spellings; all nonce counts up to a bound, powers of two and out-of-range ones.',
  ['sip/parser', 'sip/header', 'core'],
  [('challenge and credentials parsing', 'sip/parser/ChallengeParser.go, sip/parser/ParametersParser.go'), ('authentication headers', 'sip/header/Authentication*.go, Authorization*.go'), ('name-value encoding', 'core/NameValue.go')])
H('C10', 'Negotiation, event, reason and option headers keep their parts',
  'Allow, Allow-Events, Supported, Unsupported, Require, Proxy-Require, Content-Encoding, Content-Language, In-Reply-To, Accept, Accept-Encoding, Accept-Language, Alert-Info, Call-Info, Error-Info, Content-Type, Content-Disposition, Event, Reason, Subscription-State and Warning headers give, when parsed, exactly the token, media type, language, URI, code, agent, text, q value and parameters that were written, and encode to canonical text that parses to the same again.',
  'All combinations of the values, parameters, white space and name spellings in the bounded grammar.',
  ['sip/parser', 'sip/header', 'core'],
  [('option and negotiation parsing', 'sip/parser/Accept*Parser.go, AllowParser.go, SupportedParser.go, RequireParser.go'), ('event, reason and warning parsing', 'sip/parser/EventParser.go, ReasonParser.go, SubscriptionStateParser.go, WarningParser.go'), ('encoding and accessors', 'sip/header/*Impl.go')])
H('C12', 'Start lines are read, encoded and validated exactly',
  'A request line gives, when parsed alone or as the first line of a message, exactly its method (kept as written), request URI and SIP version, and a status line exactly its version, three-digit code and reason phrase (possibly empty, with any characters, trimmed of surrounding white space); both encode to canonical text that parses to the same again. A start line with a missing, malformed, misplaced or left-over part, another SIP version, or a status code outside 100 to 699 is rejected.',
  'All methods (known ones and all tokens to a length), URIs, codes 100 to 699, reason phrases and white space of the bounded grammar, and a list of malformed lines.',
  ['sip/parser', 'sip/header', 'sip/message'],
  [('request line', 'sip/parser/RequestLineParser.go, sip/header/RequestLine.go'), ('status line', 'sip/parser/StatusLineParser.go, sip/header/StatusLine.go'), ('start line of a message', 'sip/parser/StringMsgParser.go')])
H('C13', 'SIP URIs keep every part and malformed ones are rejected',
  'A SIP or SIPS URI gives, when parsed alone, in an address or in a request line, exactly the scheme, user, password, host, port, parameters (names compared without case) and headers that were written, says of absent parts that they are absent, and encodes to text that parses to the same again. A SIP URI with an empty or malformed host, port, password escape, parameter or header, or with text left over, is rejected.',
  'All users, passwords, parameter and header words to a length over an alphabet with every allowed character class, all hosts, ports and sequences of parameters and headers in the bounded grammar, and a list of malformed URIs.',
  ['sip/parser', 'sip/address', 'core'],
  [('SIP URI parsing', 'sip/parser/URLParser.go'), ('SIP URI accessors and encoding', 'sip/address/SipURIImpl.go, Authority.go, UserInfo.go'), ('host and port', 'core/HostPort.go, core/HostNameParser.go')])
P('C14', 'Editing a SIP URI changes exactly what was asked',
  'After any sequence of setting, defaulting, removing and clearing the user, password, host, port, scheme, parameters and headers of a SIP URI, fresh, parsed or cloned, every accessor and the encoding say exactly what a simple record with those edits would; setting replaces, removing removes every occurrence of the name in any case, and nothing else changes. A setter that reports an error changes nothing, and editing a clone leaves its original alone.',
  ['histories'], 'All sequences of editing operations to a depth, from four starting URIs.',
  'No test edits a URI; interactions of two or three edits are where stale parts show.',
  ['sip/address', 'core'],
  [('SIP URI setters', 'sip/address/SipURIImpl.go, Authority.go'), ('name-value lists', 'core/NameValueList.go')],
  T + ': all operation sequences to a depth, in lock step with a reference model')
H('C15', 'Telephone numbers and other URIs keep every part',
  'A tel URL or telephone number, global or local, gives, when parsed, exactly the number as written, whether it is global, its ISDN subaddress, post-dial and other parameters, and encodes to text that parses to the same again; setting and removing parts, also on a clone, changes exactly those parts. A URI of another scheme keeps its scheme and text as written, and malformed telephone numbers are rejected.',
  'All numbers to a length over their alphabet, parameter sequences, sequences of setters to a depth, texts of other schemes over a class-representative alphabet, and a list of malformed numbers.',
  ['sip/parser', 'sip/address', 'core'],
  [('telephone numbers', 'sip/parser/URLParser.go, sip/address/TelephoneNumber.go'), ('tel URLs', 'sip/address/TelURLImpl.go'), ('other URIs', 'sip/address/URIImpl.go')])
H('C29', 'Hosts and ports are classified and kept exactly',
  'A host, made, set or parsed by any public means, says exactly whether it is a name, an IPv4 or an IPv6 address, gives that address, and with its port, or none, encodes to text that parses to the same again; malformed hosts, ports and text left over are rejected. Setting the name or the port changes exactly that, and a clone is independent of its original.',
  'All host names to a length over an alphabet, boundary IPv4 and IPv6 addresses, boundary and regularly spaced ports, malformed hosts, and sequences of setters to a depth.',
  ['core', 'sip/parser'],
  [('host', 'core/Host.go'), ('host and port', 'core/HostPort.go'), ('host parsing', 'core/HostNameParser.go')])

P('C04', 'A message is framed exactly: start line, headers, content',
  'A message, given as string or as bytes, with any number of empty lines before it, line ends CRLF or LF and folded header lines, is split exactly into its start line, its headers and the content: the number of bytes its Content-Length says, whatever they are, and none if it says none. A message with less content than it says is rejected, only line ends are no message and no error, anything else before the start line is an error, the message does not change with the caller\'s buffer, and a parser that was used before behaves as a new one.',
  ['inputs', 'histories'], 'All contents to a length over an alphabet of the bytes that matter to framing, times lengths, empty lines, line ends and places of the length; all sequences of inputs to one parser to a depth.',
  'The tests parse messages without content, from fixed text, with one parser each.',
  ['sip/parser', 'sip/message'],
  [('message framing', 'sip/parser/StringMsgParser.go'), ('content', 'sip/message/SIPMessage.go')],
  T + ': all contents, lengths and layouts within bounds, and all sequences of uses of one parser, against the text they were made from')
P('C05', 'A message keeps every header, in order, through its encoding',
  'A request or response made of a start line, any header lines of different kinds and a content gives, when parsed, each header with its parts, and encodes to the canonical start line, the canonical headers in the order of first appearance, the Content-Length last, an empty line and the content. Its encodings as string, as bytes and as a list of strings agree, and parse to the same message again.',
  ['inputs'], 'All sequences of header lines of different kinds to a length (and all kinds at once, in rotated orders), with four start lines and three contents.',
  'The tests check that encoding and parsing again does not fail; they do not read what was kept.',
  ['sip/message', 'sip/parser', 'sip/header'],
  [('message parsing', 'sip/parser/StringMsgParser.go, ParserFactory.go'), ('message encoding', 'sip/message/SIPMessage.go, SIPRequest.go, SIPResponse.go')],
  T + ': all sequences of header lines to a length, against the canonical text of a reference grammar')
P('C16', 'The spelling of a header line does not change its meaning',
  'In a message or alone, a header written with its name in any case or in its compact form, with any white space, or line folds followed by white space, around the colon, inside the value where there was white space, and after it, is the same header with the same parts and the same canonical encoding, under every spelling of its name. A name that differs in a letter is an unknown header, kept as written.',
  ['inputs'], 'Every header of the library and unknown ones, times values, spellings, layouts of white space and folds, and line ends.',
  'The tests hold a few compact names and folds; the rule is for every header and every place.',
  ['sip/parser', 'sip/message', 'core'],
  [('header names', 'sip/parser/ParserFactory.go, Lexer.go'), ('folding', 'sip/parser/StringMsgParser.go'), ('header lookup', 'sip/message/SIPMessage.go')],
  T + ': all spellings and layouts of every header within bounds, against the canonical form')
P('C17', 'Values separated by commas and repeated lines are the same list',
  'For each header that may have several values, the values of all its lines and of comma-separated values within them form one list in the order written, whatever other headers stand between and however the name is spelled; each value keeps its parts, and the encoding parses to the same list. Authentication headers have one value a line, and repeated lines are all kept; a malformed list is rejected or loses none of its values, and lines without a value, where they are legal, add none.',
  ['inputs'], 'Every header that may repeat, times all sequences of values to a length, times every way to spread them over lines and commas.',
  'The tests parse a few lists on one line; none mixes lines and commas.',
  ['sip/parser', 'sip/header', 'sip/message'],
  [('list parsing', 'sip/parser/*Parser.go'), ('list headers', 'sip/header/SIPHeaderList.go'), ('joining of lines', 'sip/message/SIPMessage.go')],
  T + ': all sequences and layouts of values within bounds, against the sequence they were made from')
P('C28', 'Parse errors are reported exactly and dropped lines drop nothing else',
  'An error listener set on a message parser is told of exactly the malformed lines, start line included, in order, each with its text, an error and the message; if it ignores them, the message has exactly the other lines, and if it returns an error, parsing stops with that error and no message. Without a listener the first malformed line makes the whole parse fail.',
  ['inputs'], 'All sequences of well-formed and malformed header lines to a length after each start line, times the error at which the listener aborts.',
  'No test sets a listener.',
  ['sip/parser', 'sip/message'],
  [('message parsing and listener', 'sip/parser/StringMsgParser.go, ParseExceptionListener.go')],
  T + ': all sequences of good and bad lines and all decisions of the listener within bounds')
P('C39', 'Nothing that is accepted is silently dropped',
  'When a header, URI, address, host, telephone number or start line with foreign text inserted anywhere (bare, quoted, in brackets, as parameter, after any separator) is accepted, that text is still in the encoding of what was parsed; otherwise the input is rejected with an error.',
  ['inputs'], 'Every entry point\'s values, times every position, times every notation of the inserted text.',
  'No test parses malformed text; whether the rest of a line is dropped cannot be seen on well-formed lines.',
  ['sip/parser', 'sip/header', 'sip/address', 'core'],
  [('ends of values', 'sip/parser/HeaderParser.go, Parser.go'), ('header parsers', 'sip/parser/*Parser.go'), ('URI parsing', 'sip/parser/URLParser.go')],
  T + ': every insertion of every notation at every position of every value within bounds')

P('C18', 'Editing the headers of a message is editing an ordered table',
  'After any sequence of adding, attaching, setting and removing headers, single or as lists, and of typed setters, on a fresh or parsed message, lookups by name in any case, typed getters, the order of first appearance and the encodings say exactly what an ordered table would. Adding a header that may repeat appends it (an added Via goes on top), adding one that may occur once keeps the present one, setting replaces all of that name and goes to the end; removing takes all, the first or the last.',
  ['histories'], 'All sequences of editing operations to a depth over header kinds that repeat, do not, and are unknown, from fresh and parsed requests and responses.',
  'The tests build one message in one order; nothing removes, replaces or attaches in another.',
  ['sip/message', 'sip/header'],
  [('header table', 'sip/message/SIPMessage.go'), ('list headers', 'sip/header/SIPHeaderList.go'), ('typed access', 'sip/message/SIPRequest.go, SIPResponse.go')],
  T + ': all operation sequences to a depth, in lock step with a reference model')
P('C19', 'The content of a message and its length always agree',
  'Setting the content of a message, as a string or as bytes, with a type, sets exactly that content, that type and a Content-Length of its number of bytes, whatever was there before; removing it leaves none, with length 0. The encoding as string and as bytes has exactly that content and one Content-Length, after all other headers, and parses to the same content, type and length.',
  ['histories'], 'All sequences of setting, reading and removing content, type and length to a depth, over contents with every kind of byte that matters, from fresh and parsed messages.',
  'The tests set one content once.',
  ['sip/message', 'sip/parser'],
  [('content', 'sip/message/SIPMessage.go'), ('framing', 'sip/parser/StringMsgParser.go')],
  T + ': all operation sequences to a depth, in lock step with a reference model')
P('C20', 'A response made from a request says what it must and nothing else',
  'A response made from a request has the given status code, the given reason phrase or the standard one for the code, exactly the request\'s Via, From, To, Call-ID, CSeq, Record-Route, Max-Forwards and Timestamp headers, in the request\'s order, and no content; it belongs to the same transaction and dialog. The request is as it was, and every status code from 100 to 699 has its standard phrase, or none if it is not standard.',
  ['inputs'], 'All sequences of header kinds to a length in the request, with and without content, all status codes and phrases.',
  'No test makes a response from a request and compares the two.',
  ['sip/message'],
  [('responses from requests', 'sip/message/SIPRequest.go'), ('status codes', 'sip/message/SIPResponse.go')],
  T + ': all requests from sequences of header kinds within bounds, against the rule')
P('C21', 'A request made from a message says what it must and nothing else',
  'A CANCEL, ACK or BYE made from a request, and a request made from a response, have exactly the start line, the headers and the parts of headers the rules for them call for (a CANCEL all but Require, Proxy-Require, Content-Type and content; an ACK only the top Via and no Route or Proxy-Authorization; a request within a dialog no tags and no branch), with the new method in CSeq. The message it was made from is as it was, also after the new request is edited.',
  ['inputs', 'histories'], 'All sequences of header kinds to a length in the original, times the kind of request made, times edits of the result.',
  'No test makes a request from a message and compares the two.',
  ['sip/message', 'sip/header'],
  [('derived requests', 'sip/message/SIPRequest.go, SIPResponse.go'), ('copies of headers', 'sip/header/*List.go')],
  T + ': all originals from sequences of header kinds within bounds, against the rule')
P('C22', 'Messages share an id exactly if they share a transaction or dialog',
  'Two messages have the same transaction id exactly if they have the same branch with the magic cookie, or, without it, the same From and To addresses, From tag, Call-ID, CSeq and sent-by of the top Via, ignoring case. Two have the same dialog id exactly if Call-ID and both addresses and tags agree, the one of the client and of the server being the same for the two views; a message without Call-ID, From or To has none.',
  ['inputs'], 'All pairs of messages over the product of two or three values of every part that matters, and of parts that do not.',
  'The tests print ids; whether two differ just when they should is a statement about all pairs.',
  ['sip/message'],
  [('transaction and dialog ids', 'sip/message/SIPMessage.go, SIPRequest.go, SIPResponse.go')],
  T + ': all messages over a product of values of every part, the ids compared pairwise with the parts')
P('C25', 'Parameters and name-value lists are exactly the pairs put in',
  'After any sequence of adding, setting, deleting, concatenating (in front or behind) and cloning, a name-value list and the parameters of any header say exactly what an ordered list of pairs would: names compared without case, deleting removes every pair of that name, setting in a list replaces all and goes to the end, setting a header parameter replaces its value in place, quotes stay where they are called for. The encoding has exactly those pairs in order, and parses to the same parameters.',
  ['histories'], 'All sequences of operations to a depth on lists and on the parameters of every header that has them, from empty and parsed ones, and every pair of name and value over small sets.',
  'The tests read no parameter; stale or duplicate pairs show only after two or three edits.',
  ['core', 'sip/header'],
  [('name-value pairs and lists', 'core/NameValue.go, NameValueList.go'), ('parameters of headers', 'sip/header/ParametersImpl.go')],
  T + ': all operation sequences to a depth, in lock step with a reference model')
P('C26', 'A clone equals its original and shares nothing with it',
  'The clone of a header, a list of headers, an address, a URI, a host, a telephone number or a start line has its type and says the same in every accessor and in its encoding, and a To made from a From, or the reverse, has its address and parameters. Whatever is then done to the clone, or to any part of it that its accessors give, changes nothing in the original, and the other way round.',
  ['inputs', 'histories'], 'Values of every kind of header and part, times every modifying method reachable from them, on clone and original, one and two in sequence.',
  'No test clones anything.',
  ['sip/header', 'sip/address', 'core'],
  [('cloning of headers', 'sip/header/Clone.go, ViaList.go, ContactListImpl.go'), ('cloning of addresses and URIs', 'sip/address/*.go'), ('cloning of hosts and lists', 'core/*.go')],
  T + ': every modifying call reachable from a bounded set of values, comparing everything the other copy says before and after')
P('C43', 'Values made separately share nothing, and a new one has nothing set',
  'Whatever is done to a header, list of headers, address, URI, host, telephone number, start line or message, or to any part of it that its accessors give, changes nothing in any other value made separately, before or after, by the same or another constructor or from the same text. A value that a constructor without arguments just made has nothing set: its texts are empty, its parts and parameters absent, its numbers 0, or -1 where 0 would be a value (ports, q values, nonce counts, delays, expiry of a contact or subscription), but for the documented defaults: SIP/2.0, UDP, the schemes sip, tel and Digest.',
  ['inputs', 'histories'], 'Values of every kind, parsed and made by every constructor, times every modifying method reachable from them, one and two in sequence.',
  'A default kept in a package variable, a parser that remembers its last result, or an empty list that all new values share shows only in the second value, after the first was changed.',
  ['sip/header', 'sip/address', 'sip/message', 'sip/parser', 'core'],
  [('constructors', 'sip/header/*.go, sip/address/*.go, core/*.go, sip/message/*.go'), ('parsers', 'sip/parser/*.go')],
  T + ': every modifying call reachable from a bounded set of values, comparing everything other values say before and after')
P('C03', 'Each step of the URI parser takes exactly what it stands for',
  'At every position of every text, each scanning step of the URI parser (an unreserved, reserved or mark character, an escape, one or all characters of a URI, a user, a password, a parameter, a header or its name or value, the digits of a local or global telephone number, the text of another URI) gives exactly the longest run of the characters it stands for, with whole escapes only, and moves just past it; where nothing it must have is there it is an error. Looking at the scheme, or whether an escape follows, moves not at all, and every byte is in the right character class.',
  ['inputs', 'histories'], 'All texts to a length over an alphabet with a character of every class, times steps and positions; all pairs of steps one after the other; all bytes.',
  'The tests parse whole well-formed URIs; a step that takes one character too many is seen only where that character follows.',
  ['sip/parser'],
  [('steps of the URI parser', 'sip/parser/URLParser.go'), ('scanner', 'core/StringTokenizer.go, core/CoreLexer.go')],
  T + ': all texts, positions and pairs of steps within bounds, against a reference scanner')
P('C51', 'A list of headers is exactly the sequence of headers put into it',
  'After any sequence of putting headers in front and behind (a Contact list by adding contacts), concatenating another list in front or behind, taking out, moving, emptying and cloning, a header list of any kind, new or parsed, has exactly those headers in that order; its encoding, body, value, encoded headers, methods and contacts say so, and the encoding parses to the same list. Concatenating nothing, an empty list or the list itself changes nothing, and a list that was put into another one or cloned stays as it is.',
  ['histories'], 'All sequences of operations to a depth on a new and a parsed list of every kind.',
  'No test edits a list; order and loss show after two or three operations.',
  ['sip/header'],
  [('lists', 'sip/header/SIPHeaderList.go, ContactListImpl.go, AllowList.go'), ('values', 'sip/header/HeaderValue.go')],
  T + ': all operation sequences to a depth, in lock step with the sequence of values')
P('C30', 'Scanning takes exactly what it stands for and moves just past it',
  'At every position of every text, each scanning primitive of the lexer (token, quoted string, comment, number, line, text up to a delimiter, matching, looking ahead) returns exactly the characters it stands for and moves just past them, reports an error exactly when they are not there, and moves not at all when it only looks; going back to a marked position and consuming what was peeked at restore it exactly. Every byte is in the right character class, and names with values are split exactly. In each mode a SIP lexer takes exactly the keywords of that mode, in any case, for keywords and every other token for an identifier, whatever modes were selected before, and a header line is divided at its first colon.',
  ['inputs', 'histories'], 'All texts to a length over an alphabet with a character of every class, times primitives and positions; all sequences of primitives to a depth; all bytes.',
  'The tests exercise the lexer only through well-formed headers.',
  ['core', 'sip/parser', 'sip/message'],
  [('scanner', 'core/StringTokenizer.go'), ('lexer', 'core/CoreLexer.go'), ('names and values', 'core/CoreParser.go'), ('keywords', 'sip/parser/SIPLexer.go'), ('string utilities', 'sip/message/Utils.go')],
  T + ': all texts, positions and sequences of primitives within bounds, against a reference scanner')
P('C27', 'Setters take what they should, change only that, and it survives encoding',
  'On any header, start line or address, fresh or parsed, each typed setter takes a valid value and refuses an invalid one (out of range, empty or badly formed) with an error, and a refused call changes nothing at all. After any sequence of such calls every accessor says what was last set for its part, by its setter or as the parameter of its name, and is unchanged for all others, also after encoding and parsing again; removing a part leaves it absent, and taking one off a Max-Forwards of zero is an error.',
  ['histories', 'inputs'], 'All sequences of setters and removers to a depth, with valid and invalid values, on a fresh and on parsed values of every kind.',
  'The tests call no setter on a header; only an interplay (setting again, after a refusal, after parsing) shows most mistakes.',
  ['sip/header', 'sip/address'],
  [('typed setters', 'sip/header/*Impl.go'), ('parameters', 'sip/header/ParametersImpl.go'), ('addresses', 'sip/address/AddressImpl.go')],
  T + ': all sequences of setters to a depth in lock step with a record of the fields',
  'Text values are ones the header can carry (tokens where it has no quoting); a wildcard Contact is left out, because an existing test pins an encoding of it that cannot be parsed.')

P('C31', 'An RTP packet says, on the wire and off it, exactly what it was built from',
  'A built RTP packet reports exactly the payload type, payload, sequence number, timestamp, source, contributing sources, marker and extension it was built from, its bytes are laid out as RFC 3550 says, and receiving those bytes gives the same packet; the caller\'s slices are copied. A payload type above 127 or equal to 72 or 73, more than 15 sources, and fewer words than announced are refused; building again on the same packet replaces everything, and a refused build leaves it as it was.',
  ['inputs', 'histories'], 'All combinations of boundary values of every field, payload sizes and source counts; all payload types; all sequences of building, refused building and receiving on one packet to a depth.',
  'No test of the library builds an RTP packet.',
  ['rtp'],
  [('building and reading of packets', 'rtp/rtppacket.go'), ('header and extension', 'rtp/rtp.go')],
  T + ': all combinations of field values within bounds, against an independent encoder of RFC 3550')
P('C32', 'Received RTP bytes are accepted exactly if well-formed, and read exactly',
  'Bytes received as an RTP packet are accepted exactly if they are well-formed: long enough, version 2, no RTCP sender or receiver report, with sources, extension and padding inside the packet (a padding count of zero is taken as none). Every field read is then exactly what the bytes say, whatever the bytes nothing panics, a header and an extension can be read alone, and receiving again replaces everything.',
  ['inputs', 'histories'], 'All first bytes and second bytes, times lengths, extension lengths and padding counts around every boundary; all pairs of receptions on one packet.',
  'What arrives from the network is arbitrary; no test parses a packet.',
  ['rtp'],
  [('parsing of packets', 'rtp/rtppacket.go'), ('parsing of header and extension', 'rtp/rtp.go')],
  T + ': all first two bytes and all lengths within bounds, against an independent decoder of RFC 3550')
P('C33', 'RTCP APP and BYE packets are read exactly or not at all',
  'Bytes given as an RTCP APP or BYE packet have a known format exactly if they are well-formed (padding a multiple of four and less than the packet, room for the fixed parts and the sources, the reason inside the packet). Then the sources, name, subtype, data and reason are exactly what the bytes say, and otherwise there are none; nothing panics, and the packet does not change with the caller\'s buffer.',
  ['inputs'], 'All first bytes, times lengths, padding counts and reason lengths around every boundary.',
  'What arrives from the network is arbitrary; no test parses a packet.',
  ['rtp'],
  [('APP packets', 'rtp/rtcpapppacket.go'), ('BYE packets', 'rtp/rtcpbyepacket.go'), ('common part', 'rtp/rtcppacket.go')],
  T + ': all first bytes and lengths within bounds, against an independent decoder of RFC 3550')
P('C34', 'RTP times are exact to the microsecond and survive NTP',
  'Times made from seconds and microseconds compare, add and subtract as whole numbers of microseconds, and converting one to NTP format and back gives the same time. A time made from NTP format or from a floating-point number is the microsecond at or below it, and one before 1970 is zero.',
  ['inputs'], 'All pairs of boundary times, all microseconds of a second (thorough), all boundary fractions.',
  'A conversion that loses a microsecond for one fraction in a few looks right in any sample.',
  ['rtp'],
  [('times', 'rtp/rtptime.go'), ('NTP times', 'rtp/ntptime.go')],
  T + ': all pairs of boundary values and a complete range of microseconds, against exact arithmetic')
P('C35', 'Collision lists and transport addresses behave as tables of values',
  'After any sequence of updating, asking, timing out and clearing, an RTP collision list knows exactly the addresses put in since it was cleared, without those that a time-out found last updated longer ago than its delay, and updating says whether the address was new. Two transport addresses are the same exactly if host and port agree, of the same host exactly if the host agrees, an IPv4 address being the same in its short and long form, and a clone is independent of its original.',
  ['histories', 'inputs'], 'All sequences of operations to a depth over several addresses and times; all pairs of addresses.',
  'No test uses a collision list.',
  ['rtp'],
  [('collision list', 'rtp/collisionlist.go'), ('addresses', 'rtp/address.go, ipaddress.go, hostaddress.go')],
  T + ': all operation sequences to a depth, in lock step with a reference model')
P('C36', 'The RTP random generator gives the sequence its seed determines',
  'After any sequence of seeding and drawing, each value an RTP random generator gives (8, 16 or 32 bits, or a number from 0 up to but excluding 1) is the one that the 48-bit linear congruential sequence of its last seed determines. Two generators do not influence each other.',
  ['histories'], 'All sequences of draws of every kind and of seeding again to a depth, from seeds around every power of two, and long runs.',
  'No test draws a number.',
  ['rtp'],
  [('random generator', 'rtp/random.go')],
  T + ': all operation sequences to a depth, in lock step with an independent generator')
P('C37', 'Transmission parameters and raw packets keep exactly what was set',
  'After any sequence of setting addresses, ports, buffer sizes and options, RTP transmission parameters and transport addresses say exactly what was last set for each part, or the documented default. Transmission information gives exactly the addresses and sockets it was made with and the protocol of its first address; a raw packet gives the data, kind, sender and time it was made with, and none after its data was taken out.',
  ['histories'], 'All sequences of setters to a depth over all kinds of addresses.',
  'No test sets them.',
  ['rtp'],
  [('parameters and information', 'rtp/transmissionparams.go, transmissioninfo.go'), ('raw packets', 'rtp/rawpacket.go'), ('addresses', 'rtp/address.go')],
  T + ': all operation sequences to a depth, in lock step with a record')

P('C23', 'Goroutines working on values of their own do not disturb each other',
  'Goroutines that each parse, read, encode, clone, edit or derive messages, headers, addresses and URIs of their own, make message ids, or work on RTP packets of their own, get exactly the results each gets alone, under every interleaving, and share no unsynchronised memory. This holds also for a value and its clone in different goroutines, and when it is the first use of the library in the process.',
  ['schedules', 'inputs'], 'All pairs of operations of every kind and all interleavings of two and three goroutines up to a bound on preemptions, at every point where the library enters a function or touches a lock, including cold starts.',
  'A race on a package-level table or a shared slice shows under one schedule in a great many; the tests start no goroutine.',
  ['core', 'sip/address', 'sip/header', 'sip/message', 'sip/parser', 'rtp'],
  [('lexer keyword tables', 'core/CoreLexer.go'), ('parsers', 'sip/parser'), ('clones', 'sip/header, sip/address'), ('RTP', 'rtp')],
  T + ': all interleavings up to a preemption bound of the real code under a controlled scheduler, compared with each goroutine alone, with a happens-before race monitor on every schedule')
P('C24', 'A shared RTP random generator hands out its sequence one draw at a time',
  'When several goroutines draw from or seed one RTP random generator, the results together are those of some order of the calls that respects the order within each goroutine: no draw is lost, repeated or mixed, under every interleaving. The generator is touched by no two goroutines unsynchronised.',
  ['schedules'], 'All pairs of call sequences of up to two draws of each kind or seedings, and triples of single calls, under all interleavings up to a bound on preemptions.',
  'Two draws meeting inside one multiplication do not happen in a test, and repeat a synchronisation source when they do.',
  ['rtp'],
  [('random generator', 'rtp/random.go'), ('its users', 'rtp/rtppacket.go')],
  T + ': all interleavings up to a preemption bound of the real code under a controlled scheduler, results checked for linearizability against the sequential generator, with a happens-before race monitor')
P('C50', 'A value that is only read can be read from several goroutines',
  'A parsed or built message, header, address, URI or host that is not being changed may be used from several goroutines at once: accessors, encodings, clones, transaction and dialog ids, and requests and responses derived from it. Each gets what it gets alone, under every interleaving, and nothing is written unsynchronised.',
  ['schedules', 'inputs'], 'All pairs of reading operations on shared values of every kind, under all interleavings up to a bound on preemptions.',
  'An accessor that caches what it computes is invisible to any sequential test, and a SIP stack reads one message in many goroutines.',
  ['core', 'sip/address', 'sip/header', 'sip/message'],
  [('accessors', 'sip/header, sip/address, core/Host.go'), ('content and ids', 'sip/message/SIPMessage.go'), ('derived messages', 'sip/message/SIPRequest.go, SIPResponse.go')],
  T + ': all interleavings up to a preemption bound of the real code under a controlled scheduler, compared with each goroutine alone, with a happens-before race monitor on every schedule')

P('C38', 'Dialog states, transaction states and time-outs are asked by number exactly',
  'Asking for a dialog state, a transaction state or a kind of time-out by its number gives exactly the named one, with that number and its own text, for a number inside the range, and an error and nothing for any other. This holds after any sequence of asking, and the named ones never change.',
  ['histories', 'inputs'], 'All sequences of asking to a depth, over every number inside and around the range.',
  'The ranges end at different numbers, and a number just past one of them must be an error; no test asks at all.',
  ['sip'],
  [('states and time-outs', 'sip/DialogState.go, TransactionState.go, Timeout.go')],
  T + ': all sequences of asking to a depth, against the table of the specification')
P('C40', 'Checking a message finds exactly the mandatory headers that are missing',
  'Checking the headers of a message succeeds exactly if CSeq, To, From, Via and, in a request, Max-Forwards are there and the CSeq of a request names the method of its request line; the error names one that is missing, and checking changes nothing. A text whose CSeq names another method than its request line is refused by the parser, wherever the CSeq line stands, while the CSeq of a response is free.',
  ['inputs', 'histories'], 'All subsets of the mandatory headers in all orders, parsed and built; all histories of adding and removing them to a depth; all pairs of methods at every position of the CSeq line.',
  'What is missing depends on the order and the history by which headers came and went.',
  ['sip/message', 'sip/parser'],
  [('checks', 'sip/message/SIPRequest.go, SIPMessage.go'), ('parsing of messages', 'sip/parser/StringMsgParser.go')],
  T + ': all subsets, orders and histories within bounds, against the set of headers that are there')
P('C41', 'The start line of a message says exactly what was last set',
  'However the start line of a message is set, part by part or as a whole and in any order, the message, its first line and every encoding say what was last set; setting a method sets that of the CSeq too, and a request without a method is encoded with that of its CSeq. Giving a request its defaults adds user=ip and transport=udp to the SIP request URI of an INVITE or REGISTER and touches nothing else; a complete message parses again to the same, and a response is final exactly from code 200 on.',
  ['histories'], 'All sequences of operations on the start line to a depth, on fresh and parsed requests and responses.',
  'The tests set a start line at most once, and the mistakes are in setting one again, or in parts, or before there is one.',
  ['sip/message', 'sip/header'],
  [('start line of requests', 'sip/message/SIPRequest.go, sip/header/RequestLine.go'), ('start line of responses', 'sip/message/SIPResponse.go, sip/header/StatusLine.go')],
  T + ': all sequences of operations to a depth in lock step with a record of the start line')
P('C44', 'Questions about one header are answered by its kind and values alone',
  'An Event matches another exactly if type and id agree, ignoring case, and a media range compares with another exactly if type and subtype agree, ignoring case. Whether a header belongs only into requests or only into responses is decided by its kind, alike for a single header, an element of a list, the list and a clone; a Content-Length matches nothing but a Content-Length.',
  ['inputs'], 'All pairs of events, media types and header kinds over small domains, single, in a list, as a list and cloned.',
  'The mistakes are in pairs (one with an id and one without, a list and its element), and no test asks about one.',
  ['sip/header', 'sip/message'],
  [('Event', 'sip/header/EventImpl.go'), ('media types', 'sip/header/MediaRange.go'), ('kinds of headers', 'sip/message/ListMap.go, SIPRequest.go, SIPResponse.go')],
  T + ': all pairs of values over small domains, against their definitions')
P('C45', 'Messages that follow each other in one buffer are taken one by one',
  'From a buffer with several messages each parse takes exactly one, with the empty lines before it, and gives what follows exactly once and unchanged, read on as text or as bytes, with the same parser or a new one. A malformed message leaves what follows its headers, one whose content is cut is refused, the caller\'s buffer is neither changed nor kept, and nothing of one message carries over to the next.',
  ['histories', 'inputs'], 'All sequences of good, malformed and cut messages to a length, times what separates and follows them and ways to read on.',
  'A parser that keeps a length, a position or a buffer of the message before shows only with the right message after it.',
  ['sip/parser'],
  [('parsing of messages', 'sip/parser/StringMsgParser.go')],
  T + ': all sequences of messages to a length, against each message parsed alone')
P('C46', 'A parser gives the same however it was made and whatever was read before',
  'The parser of a header, URI, address, host, request line or status line accepts and rejects the same texts with the same values whether it is chosen by the name of the header, made from the text, made from a lexer on the text in any mode, or made from a lexer that has already read something else.',
  ['inputs', 'histories'], 'Every parser times ways to make it and lexer modes, times valid and malformed texts of its kind.',
  'The tests make parsers in one way only; a lexer carries the words it knows with it, and what it read before.',
  ['sip/parser', 'core'],
  [('parsers', 'sip/parser/*.go'), ('lexers', 'sip/parser/SIPLexer.go, core/CoreLexer.go')],
  T + ': every parser times every way to make it, over all texts of a set, against one another')
P('C47', 'Tracing changes no result',
  'Whether debug tracing is on or off, every parser accepts and rejects the same texts, with the same values and the same errors, and so do those that parse after it.',
  ['inputs'], 'Every seed of every parser whole, cut at every position, and with each byte deleted or doubled, with and without tracing.',
  'Tracing code runs in no test, and an early return or a trace that reads on changes what is parsed only when somebody debugs.',
  ['sip/parser', 'core'],
  [('tracing', 'core/Debug.go, sip/parser/*.go')],
  T + ': all texts of a set and their neighbours, parsed with tracing and without, one against the other')
P('C48', 'Logging appends what it is given to the file it was given, and nothing else',
  'When logging is on, each message logged to a file is appended to that file alone, keeping what it held, followed by its separator; when it is off, nothing is written. A file that cannot be written does no harm, and the trace level is what was last set.',
  ['histories'], 'All sequences of switching, logging to several files and setting levels to a depth.',
  'No test logs anything; a file opened in the wrong mode loses what was there only at the second message.',
  ['core'],
  [('log writer', 'core/LogWriter.go')],
  T + ': all sequences of operations to a depth on scratch files, in lock step with a record of their content')
P('C42', 'A value made from its parts is the one its text would give',
  'A header, call identifier, challenge, start line or URI made from its parts by a constructor, or put together by any sequence of setting lists of methods, parameters, protocol, sent-by, comment, user, host and port, says each part as it was last set, is encoded as the text with these parts, and says the same as what that text is parsed to. Parts that are badly formed are refused and leave what was there, and a parameter that is set replaces the one of its name.',
  ['inputs', 'histories'], 'Every constructor on all values of a domain; all sequences of the operations that put such a value together to a depth.',
  'The tests make headers by parsing them; a constructor that forgets a name or a setter that adds instead of replacing shows in a sequence of calls.',
  ['sip/header', 'sip/address', 'core'],
  [('constructors', 'sip/header/*Impl.go'), ('challenges', 'sip/header/Challenge.go, AuthenticationImpl.go'), ('lists of methods', 'sip/header/AllowList.go, AllowEventsList.go'), ('call identifiers', 'sip/header/CallIdentifier.go'), ('authority', 'sip/address/Authority.go, UserInfo.go, SipURIImpl.go')],
  T + ': all values and all sequences of operations within bounds, in lock step with a record of the parts and against the parsed text')
P('C52', 'Whatever the grammar of SIP allows is accepted and kept',
  'Every request line, status line and header line that the grammar of RFC 3261 (with RFC 3262, 3265, 3326 and 3515) derives is accepted, and its encoding is accepted too, encodes to itself and says the same: it differs from the text only in white space that means nothing, the long name of the header, brackets around an address, an empty display name, quotes around what needs none, a missing value written as nothing or as "=", the case of URI schemes, of CSeq methods and of Via protocols, transports and parameter names, and the spelling of a number. Left out: Via of other protocols than SIP/2.0, wildcard Contacts and parameters after a Contact address without brackets but q, nested comments, folded lines, empty passwords, blanks around reason phrases, and a parameter name given twice.',
  ['inputs'], 'All derivations of the grammar of every header and start line that make up to five choices other than the first (thorough: six).',
  'The grammar has optional parts and alternatives at every level; the tests hold some hundred lines, and a refusal shows only for the one combination somebody sends.',
  ['sip/parser', 'sip/header', 'core'],
  [('headers', 'sip/parser/*Parser.go'), ('parameters', 'core/CoreParser.go, sip/parser/ParametersParser.go'), ('URIs', 'sip/parser/URLParser.go'), ('encoding', 'sip/header/*.go')],
  T + ': all derivations of the grammar to a number of choices, parsed, encoded and parsed again, against the text itself')
P('C53', 'An edit of a header or start line is refused or read as written',
  'When one character is put into, taken from or replaced in a request line, status line or header line of the grammar, or two neighbours change places or go, or the line ends early, the line is either refused or read as it is written: its encoding says the same, and nothing is silently dropped, added, merged or split. Allowed are the differences that C52 lists, and: a wrong weekday, a comma at the end of a line, the order of Subscription-State parameters, white space and quotation marks in addresses with display names and in Alert-Info, Call-Info and Error-Info, empty comments of Retry-After, a missing blank within CSeq or RAck, an empty password, and zeros that do not count. Lines in which a parameter name or element occurs twice are left out.',
  ['inputs'], 'All derivations of the grammar with up to two choices other than the first (thorough: three), times every position, times every edit with a character of every kind the scanner tells apart.',
  'Parsers that skip what they do not expect accept a damaged line and pass on another one; the tests hold few invalid lines, and no line that is one character away from a valid one.',
  ['sip/parser', 'sip/header', 'core'],
  [('headers and start lines', 'sip/parser/*Parser.go'), ('parameters', 'core/CoreParser.go, sip/parser/ParametersParser.go'), ('URIs', 'sip/parser/URLParser.go'), ('ends of lines', 'sip/parser/HeaderParser.go')],
  T + ': all edits of one character of all derivations of the grammar to a number of choices, parsed and encoded, against the text itself')
P('C49', 'Every part takes exactly the characters of its grammar',
  'User, password, host, port, parameters and headers of a URI, telephone numbers and their parameters, methods, transports, tags, tokens, parameter names and values, option tags, types, quoted strings, comments and numbers of start lines and headers are read as written for every character their grammar allows, alone or at any position, and never take in any other, nor a percent sign without two hexadecimal digits where those are escapes. For schemes, call identifiers, header names and unquoted display names the first half holds.',
  ['inputs'], 'Every such part times every byte alone, first, inside and last, all pairs of bytes, and percent signs before all pairs of bytes, and a backslash before every character in quoted strings and comments.',
  'A character missing from a set, or one too many, shows only in a text with this very character in this very part.',
  ['sip/parser', 'core'],
  [('scanning of URIs', 'sip/parser/URLParser.go'), ('tokens, quoted strings and comments', 'core/CoreLexer.go'), ('hosts', 'core/HostNameParser.go'), ('headers', 'sip/parser/*.go')],
  T + ': all texts of one and two bytes in every part, against the set of characters of its grammar')

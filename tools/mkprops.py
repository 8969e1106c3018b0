"""Writes /verif/properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

PDU, MODEM, SER, UTIL, EXC = 'gsmmodem/pdu.py', 'gsmmodem/modem.py', 'gsmmodem/serial_comms.py', 'gsmmodem/util.py', 'gsmmodem/exceptions.py'
TRIE, TERM = 'tools/gsmtermlib/trie.py', 'tools/gsmtermlib/terminal.py'

p('C01', 'GSM-7 text coding is lossless and rejects what it cannot represent',
  'For every text made only of characters of the GSM 03.38 default and extension alphabets, GSM-7 encoding succeeds, yields only values 0-127 (one per default character, escape plus one per extension character) and decoding them gives back the identical text. A text containing any other character (the bare escape control included) is refused with ValueError, or, when discarding is requested, encodes exactly as the text with those characters removed.',
  ['inputs'], 'every Python string, of any length, with and without discarding',
  'The tests encode eight sample strings; the guarantee is over every character of the 137-character repertoire, every character outside it, and every combination and length.',
  [PDU], [('encodeGsm7', PDU), ('decodeGsm7', PDU)], [('GSM7_BASIC / GSM7_EXTENDED', 'alphabet tables', PDU)], ['return value of encodeGsm7/decodeGsm7'])

p('C02', 'Septet packing is the GSM 03.38 bit stream, and unpacking inverts it',
  'Packing any sequence of 7-bit values, with any fill-bit setting used to align text after a user data header, yields exactly the GSM bit stream: zero fill bits, each value\'s seven bits least significant first, zero padding, in the smallest number of octets. Unpacking any octets returns their 7-bit groups in order, so that unpacking packed values gives them back (only a zero value that ends exactly at the end of the last octet is left to the declared length to restore). An empty sequence without fill bits packs to no octets.',
  ['inputs'], 'every sequence of septets of any length, every fill setting, every octet string',
  'Eight sample strings with no fill bits are tested; the shift/carry state machine has eight phases times arbitrary length, and errors show only at particular lengths or final values.',
  [PDU], [('packSeptets', PDU), ('unpackSeptets', PDU)], [], ['return value of packSeptets/unpackSeptets'])

p('C03', 'Phone numbers and sender names survive the address field coding',
  'For every number (ASCII digits, optionally preceded by +, even or odd in length) and every alphanumeric name in the GSM alphabet that an address field can hold, encoding it as an address and decoding the result gives back the identical address, reports exactly the number of octets the encoding produced, and consumes exactly those octets whatever follows them. Numbers likewise survive the service-centre form of the field, whose length counts octets rather than digits.',
  ['inputs'], 'every digit string, +digit string and GSM-alphabet name up to the field capacity; arbitrary following octets',
  'Nine sample addresses are tested; parity of the length, the length semantics of the two field forms and the 7/8-character septet boundary need all lengths.',
  [PDU], [('_encodeAddressField', PDU), ('_decodeAddressField', PDU), ('encodeSemiOctets', PDU), ('decodeSemiOctets', PDU)], [], ['return values; iterator position after decoding'])

p('C04', 'PDU timestamps keep the local time and UTC offset',
  'Every time-zone-aware timestamp with a year from 1969 to 2068 and a UTC offset that is a multiple of 15 minutes up to 19h45 either side of UTC is encoded into 7 octets that decode to the same local date and time (to the second) with the same UTC offset, whatever octets follow. A timestamp without a UTC offset is refused with ValueError.',
  ['inputs'], 'every such timestamp and offset, positive, zero and negative',
  'Four timestamps and four offsets are tested, all whole hours below 10 quarter-hours or so; sign and BCD handling differ per offset value.',
  [PDU], [('_encodeTimestamp', PDU), ('_decodeTimestamp', PDU), ('SmsPduTzInfo', PDU), ('encodeSemiOctets/decodeSemiOctets', PDU)], [], ['encoded octets; decoded datetime and utcoffset'])

p('C05', 'Text-mode timestamps keep the exact UTC offset',
  'For every valid text-mode time string "yy/MM/dd,hh:mm:ss" followed by a signed two-digit count of quarter hours, the parsed timestamp has exactly that local date and time and a UTC offset of exactly that many quarter hours, including offsets that are not whole hours. A fixed-offset time zone always reports the offset it was built with and no daylight saving.',
  ['inputs'], 'every valid time string, all offsets -96..+96 quarters',
  'The tests use whole-hour offsets only.',
  [UTIL], [('parseTextModeTimeStr', UTIL), ('SimpleOffsetTzInfo', UTIL)], [], ['returned datetime'])

p('C06', 'Relative validity periods are coded as the longest period not exceeding them',
  'Decoding a relative validity octet gives the period of the GSM 03.40 table for each of the 256 values, and rejects larger values with ValueError. Encoding any period from 5 minutes up to the table maximum (63 weeks) gives the octet for the longest table period that does not exceed it; a period of more than 441 whole days is refused with ValueError.',
  ['inputs'], 'every octet; every timedelta to the microsecond',
  'Four sample periods are tested; the table has four regions with rounding inside each and seams between them.',
  [PDU], [('_encodeRelativeValidityPeriod', PDU), ('_decodeRelativeValidityPeriod', PDU)], [], ['returned integer / timedelta'])

p('C07', 'User data header elements survive encoding',
  'A concatenation element with any reference 0-65535, part count and part number 0-255, and a port-addressing element with any two ports 0-65535, encodes to octets that decode to an element of the same kind with the same values: 8-bit form when the values fit, 16-bit form otherwise, and re-encoding after changing a value reflects the change. Decoding any element consumes exactly its identifier, length and declared number of data octets and keeps unknown elements\' identifier and data unchanged.',
  ['inputs'], 'every value combination; every element identifier, length and content',
  'Tests cover one 8-bit and one 16-bit sample per kind.',
  [PDU], [('InformationElement', PDU), ('Concatenation', PDU), ('PortAddress', PDU)], [], ['encoded octets; decoded attributes; iterator position'])

p('C08', 'Long messages are split without losing, repeating or overfilling anything',
  'For every text that can be sent, the parts produced for a message carry consecutive slices of the text that concatenate to exactly the text, in order, with none empty when there is more than one; when there is more than one part each carries a concatenation header with the same reference, the true part count and numbers 1..count. A text that fits one message (160 GSM-7 septets, extension characters counting two, or 70 UCS2 characters) is sent as a single part without header, and no part ever exceeds 140 octets of user data.',
  ['inputs'], 'every text over the Basic Multilingual Plane, of any length that needs at most 255 parts, any reference 0-255',
  'One 400-character text is tested; losses and overflows appear at particular lengths and with extension characters near a boundary.',
  [PDU], [('encodeSmsSubmitPdu', PDU), ('encodeGsm7', PDU), ('encodeUcs2', PDU), ('Concatenation.encode', PDU)], [('MAX_MESSAGE_LENGTH', 'single-message limits', PDU)], ['list of Pdu objects'])

p('C09', 'An encoded submit PDU means exactly what was asked',
  'Each PDU built for a message decodes back to type SMS-SUBMIT with the requested destination, service centre (or none), message reference, validity period, and that part\'s text, and its declared TPDU length is the number of octets after the service-centre field. The request flags (status report, duplicate rejection, flash class, validity format, header presence) appear in the PDU exactly when requested, and the character coding announced is GSM-7 when every character is in the GSM alphabets and UCS2 otherwise. A validity value that is neither a period nor a point in time is refused with TypeError.',
  ['inputs', 'configurations'], 'every combination of destination, text, reference 0-255, validity (none, relative, absolute), service centre and flags',
  'Six sample PDUs are compared with stored hex; flags, field order and lengths interact over a large option space.',
  [PDU], [('encodeSmsSubmitPdu', PDU), ('decodeSmsPdu', PDU), ('Pdu', PDU)], [], ['Pdu.data, Pdu.tpduLength, str(Pdu), decodeSmsPdu result'])

p('C10', 'Received messages and status reports decode to what the network sent',
  'For every well-formed SMS-DELIVER PDU, decoding yields its service centre, sender, timestamp, header elements and exactly the text it carries: for GSM-7 exactly the declared number of septets after any header of any length and its fill bits (a trailing @ included), for UCS2 and 8-bit data one character per unit, for every data coding octet of the general group. For every well-formed SMS-STATUS-REPORT it yields the reference, recipient, both timestamps and the status octet.',
  ['inputs'], 'every sender, text, header list, data coding, timestamp and status value laid out per GSM 03.40',
  'A dozen captured PDUs are tested; header length modulo 7, text length modulo 8 and final characters select different code paths.',
  [PDU], [('decodeSmsPdu', PDU), ('_decodeUserData', PDU), ('_decodeDataCoding', PDU), ('unpackSeptets', PDU), ('decodeUcs2', PDU)], [], ['decodeSmsPdu result'])

p('C11', 'Decoding never fails with anything but EncodingError',
  'For every octet string or text given as a PDU, valid, truncated or garbage, decoding terminates and either returns a complete description of a message (type and all fields of that type) or raises EncodingError; no other exception escapes.',
  ['inputs'], 'every byte string and every text string',
  'Three invalid inputs are tested; any truncation point or corrupted field is an input the modem may deliver.',
  [PDU], [('decodeSmsPdu', PDU)], [], ['decodeSmsPdu outcome'])

p('C12', 'A command\'s outcome is what the modem answered',
  'After issuing a command and receiving its response, the caller gets exactly the response lines when the final line reports no error (or error parsing is disabled); otherwise a CmeError or CmsError with the modem\'s code (the dedicated subclass for PIN required, incorrect PIN, PUK required and SMSC unknown), or a CommandError for any other error line. A "busy" answer (CME/CMS 14 or 515) makes the identical command be issued again after a growing wait, and the final outcome is that of the last try; exactly the command text plus its terminator is written each time, and nothing is parsed or returned when no response is awaited.',
  ['inputs', 'histories'], 'every command, response and sequence of busy answers',
  'Tests cover a few error codes and one busy sequence.',
  [MODEM, EXC], [('GsmModem.write', MODEM), ('CmeError/CmsError/CommandError', EXC)], [('_writeWait', 'extra wait after busy answers', MODEM)], ['return value or exception of write; bytes written'])

p('C13', 'The incoming byte stream is framed into lines without loss',
  'Whatever characters arrive and however reads are interleaved with timeouts, every non-empty segment terminated by CR LF is handed on exactly once, in order, without its terminator, and text ending in the expected prompt is handed on as soon as the prompt is complete, marked as ending the response. No character of the stream is dropped or repeated other than the terminators, and reading stops only when asked to or when the port fails, in which case the port is closed and the error handler is told once. A new connection has nothing waiting, pending or expected; opening it opens the given port once and starts one reader, and closing it asks the reader to stop, waits until it has, and then closes the port.',
  ['inputs', 'schedules', 'fault_sequences'], 'every character stream, read timeout pattern, change of the expected prompt between characters, and port failure',
  'Tests feed a few complete lines.',
  [SER], [('SerialComms._readLoop', SER), ('SerialComms.connect', SER), ('SerialComms.close', SER)], [('rxBuffer', 'partial line', SER)], ['lines delivered; callbacks'])

p('C14', 'Lines go to the waiting command, everything else to the notification handler',
  'While a command waits for its response every received line belongs to that response, in order, until a final result line (exactly OK, ERROR, a numeric CME/CMS error or COMMAND NOT SUPPORT, trailing blanks aside) or the expected prompt completes it; a line that merely begins with such a word does not complete it. Lines received while nothing waits are passed to the notification handler, each exactly once, grouped until the port has no more input. A wait that times out raises TimeoutException carrying exactly the lines received so far (none if nothing arrived), and after any outcome no wait remains registered.',
  ['inputs', 'schedules', 'histories'], 'every sequence of lines, waits, and timeouts',
  'Tests use five short responses.',
  [SER], [('SerialComms._handleLineRead', SER), ('SerialComms.write', SER), ('RESPONSE_TERM', SER)],
  [('_responseEvent/_response', 'the waiting command and its lines', SER), ('_notification', 'lines of the current notification', SER)], ['write result/exception; notification callback arguments'])

p('C15', 'Sending a message hands every part to the modem and tracks its reference',
  'Sending in PDU mode writes, for each part in order, the send command with that part\'s TPDU length followed by that part\'s hex data and the terminator, and in text mode the destination and text, and returns a sent message whose reference is the one the modem reported for the last part; if the modem reports no reference or an error the call raises and no sent message is recorded. After every success the next message\'s reference stays within 0-255, and the message can be found by its reference for status tracking. Replying to a received message sends the given text, once, to the number it came from.',
  ['inputs', 'histories'], 'every destination and text, any number of parts, any modem answers, any starting reference',
  'Tests send a few single-part messages with scripted answers.',
  [MODEM], [('GsmModem.sendSms', MODEM), ('encodeSmsSubmitPdu', PDU), ('ReceivedSms.reply', MODEM)], [('_smsRef', 'next message reference', MODEM), ('sentSms', 'sent messages by reference', MODEM)], ['commands written; returned SentSms'])

p('C16', 'Status reports reach exactly the message they belong to',
  'When a status report arrives it is read from and deleted from the storage slot announced; the sent message with the report\'s reference (and no other) receives it, and the report is handed to the waiting sender if there is one and otherwise to the report callback, once. A sent message shows as en route without a report, delivered when its report says delivered and failed otherwise.',
  ['inputs', 'histories'], 'every set of sent messages, report reference and status, waiting or not',
  'Tests use one or two messages.',
  [MODEM], [('GsmModem._handleSmsStatusReport', MODEM), ('SentSms.status', MODEM)], [('sentSms', 'sent messages by reference', MODEM)], ['SentSms.report/status; callback calls; commands written'])

p('C17', 'Stored messages are returned as stored, and only returned ones are deleted',
  'Reading a slot selects the requested memory if it differs from the current one and returns a received message or status report with exactly the fields the modem gave, or raises CommandError if its header or message type is not one of those. Listing returns every decodable message of the answer once, in order, with its own index, status, number, time and text, skipping lines that are not messages (in PDU mode an outgoing message in the answer is refused with CommandError and nothing is deleted, in text mode it is skipped); with deletion requested it then deletes exactly the returned messages\' slots (or clears the memory when all were asked for), and otherwise deletes nothing. An out-of-range bulk deletion flag or unknown status is refused with ValueError and nothing is written for it.',
  ['inputs', 'histories'], 'every memory state, slot, listing answer in PDU and text mode, filter and delete flag',
  'Tests list three scripted messages.',
  [MODEM], [('GsmModem.readStoredSms', MODEM), ('GsmModem.listStoredSms', MODEM), ('GsmModem.processStoredSms', MODEM), ('GsmModem.deleteStoredSms/deleteMultipleStoredSms', MODEM), ('GsmModem._setSmsMemory', MODEM)],
  [('_smsMemReadDelete', 'currently selected memory', MODEM)], ['returned objects; commands written'])

p('C18', 'Active calls are tracked under unique identifiers',
  'Every ringing incoming call not yet known and every call dialled without a network-assigned identifier gets an identifier no other active call has, so tracking one call never displaces another; a further ring from the number of an incoming call already active counts a ring on that call instead of creating another. A new incoming call tells the number of the caller and the kind of call as announced (0 for a voice call), where they are announced. Answer, end and rejection events change only the call they refer to (ended calls are marked inactive and unanswered and forgotten), and hanging up sends the hang-up command once for an active call, does nothing for an ended one, and never forgets a different call; a call the modem refuses to hang up stays as it was.',
  ['inputs', 'histories'], 'every set of active calls and every call event',
  'Tests have one call active at a time.',
  [MODEM], [('GsmModem._handleIncomingCall', MODEM), ('GsmModem.dial', MODEM), ('GsmModem._handleCallInitiated/_handleCallAnswered/_handleCallEnded/_handleCallRejected', MODEM), ('Call.hangup', MODEM), ('IncomingCall.answer/hangup', MODEM)],
  [('activeCalls', 'active calls by identifier', MODEM)], ['activeCalls; Call attributes; commands written; callbacks'])

p('C19', 'Tones and call commands are only sent in a state that allows them',
  'Sending tones on an answered call writes one command containing every tone exactly once, in order, in the modem\'s tone syntax, allowing the modem at least a second for each, and on a call that is not answered raises InvalidStateException and writes nothing; a call lost during the tones (CME 3 or 30) is reported as InterruptedException carrying the cause and any other error is passed on unchanged. Answering writes the answer command only while the call rings, and only then marks it answered.',
  ['inputs', 'histories'], 'every string of tones, call state, tone syntax and modem error',
  'Tests send two tone strings.',
  [MODEM], [('Call.sendDtmfTone', MODEM), ('IncomingCall.answer', MODEM)], [('Call.answered', 'call state', MODEM)], ['commands written; exceptions'])

p('C20', 'USSD answers are delivered with the right text and session state',
  'For every well-formed USSD answer (session digit, quoted text possibly spanning lines, coding) the result carries exactly that text and is active exactly when the network asked for further input; when several answers arrive together a "session released" answer (code 2) contributes only the end of the session. Sending USSD text returns the answer whether it arrives with the acknowledgement or as a later notification, raises TimeoutException if none arrives, and leaves no wait behind; replying to an ended session raises InvalidStateException without writing, and cancelling writes only for an active session.',
  ['inputs', 'histories', 'schedules'], 'every text, session code, answer grouping and arrival order',
  'Tests use a handful of captured answers.',
  [MODEM], [('GsmModem.sendUssd', MODEM), ('GsmModem._handleUssd', MODEM), ('GsmModem._parseCusdResponse', MODEM), ('Ussd.reply/cancel', MODEM)], [('_ussdSessionEvent/_ussdResponse', 'waiting USSD exchange', MODEM)], ['returned Ussd; commands written'])

p('C21', 'The SIM PIN is used only when needed, and at most once',
  'When the SIM reports it is ready no PIN is ever sent; when it does not, the given PIN is sent exactly once, or PinRequiredError is raised without writing anything if none was given. A timeout whose partial data contains the PIN status counts as that status; any other timeout is passed on and no PIN is sent.',
  ['inputs', 'fault_sequences'], 'every PIN, SIM status answer, timeout and partial answer',
  'Tests cover five scripted cases; sending a PIN wrongly can lock the SIM.',
  [MODEM], [('GsmModem._unlockSim', MODEM)], [], ['commands written; exceptions'])

p('C22', 'Network status queries report what the modem said',
  'Signal strength is the reported value, -1 exactly when the modem reports unknown (99), and CommandError for an unparsable answer. Waiting for coverage returns only a positive signal strength read after the modem reported registration (or could not report it), raises InvalidStateException when registration is denied or not being sought and TimeoutException only after the timeout fired (any timeout given is in force while it waits); the operator name and supported-command list are exactly those in the answer, None when the answer has none.',
  ['inputs', 'histories'], 'every answer and every sequence of polls',
  'Tests script one answer per query.',
  [MODEM], [('GsmModem.signalStrength', MODEM), ('GsmModem.waitForNetworkCoverage', MODEM), ('GsmModem.networkName', MODEM), ('GsmModem.supportedCommands', MODEM)], [], ['returned values; exceptions'])

p('C23', 'Each unsolicited notification reaches the one handler it is for',
  'A notification is dispatched by its first line that is recognised: ring, new message, USSD, status report, or one of the modem\'s call status updates in table order, to that handler only and exactly once, and an unrecognised notification reaches none and raises nothing. A new-message notification reads the announced slot of the announced memory, deletes it, and gives the message to the received-message callback exactly once.',
  ['inputs'], 'every list of notification lines and every call status table',
  'Tests deliver well-formed single notifications.',
  [MODEM], [('GsmModem.__threadedHandleModemNotification', MODEM), ('GsmModem._handleSmsReceived', MODEM)], [], ['handler invocations; commands written; callback arguments'])

p('C24', 'The command-completion trie behaves as a map with exact prefix queries',
  'After any sequence of insertions, overwrites and deletions, lookup, membership, size, key listing and iteration agree with an ordinary dictionary holding the same entries; looking up or deleting an absent key raises KeyError and a None key ValueError, without changing anything. Listing by prefix returns exactly the stored keys that start with the prefix, each once, and the common prefix given for a text that some key starts with itself starts with that text and is a prefix of every such key.',
  ['inputs', 'histories'], 'every history of operations over every set of string keys',
  'Tests use a dozen keys inserted in one order; restructuring depends on the order and shared prefixes.',
  [TRIE], [('Trie', TRIE)], [('slots/key/value', 'node contents', TRIE)], ['return values and exceptions of the mapping operations'])

p('C25', 'The line editor keeps the cursor in the line and edits only at the cursor',
  'After any key in any state the cursor lies within the input line and the history position within the history; typing inserts the character at the cursor, backspace and delete remove exactly the character before or at it, cursor, home and end keys move without editing, and history keys recall exactly the stored command. Completion replaces the line only by text all matching commands share, of which what was typed (ignoring case and surrounding blanks) is a prefix.',
  ['inputs', 'histories'], 'every line, cursor position, history and key',
  'The terminal\'s editor has no tests.',
  [TERM, TRIE], [('GsmTerm._cursorLeft/_cursorRight/_cursorUp/_cursorDown/_handleBackspace/_handleDelete/_handleHome/_handleEnd', TERM), ('GsmTerm._doCommandCompletion', TERM), ('GsmTerm._addToHistory', TERM), ('Trie.longestCommonPrefix', TRIE)],
  [('inputBuffer/cursorPos/history/historyPos', 'editor state', TERM)], ['editor state after each key'])

p('C26', 'Response searching returns the first matching line, or all of them in order',
  'Searching response lines for a prefix returns the first line that starts with it, and for a pattern the match of the first line the pattern matches, or None if there is none; collecting all matches returns one match per matching line, in order. None of them changes the lines.',
  ['inputs'], 'every list of lines, prefix and pattern',
  'Tests search short fixed lists.',
  [UTIL], [('lineStartingWith', UTIL), ('lineMatching', UTIL), ('lineMatchingPattern', UTIL), ('allLinesMatchingPattern', UTIL)], [], ['return values'])

p('C27', 'Modem settings and identification are what the modem holds',
  'Reading the service centre number returns the known one without asking, otherwise exactly the number in the modem\'s answer, or None when the answer has none or the modem does not know one. Setting it, or the message mode, writes exactly one command with the new value when it differs and the port is open and none otherwise; the new value is then the one reported (and messages are parsed in the new mode), while after a refused command the error is passed on and the old value stays. Manufacturer, model, IMEI and IMSI are the first line of the answer, the revision too, or None when the modem refuses to tell.',
  ['inputs', 'histories'], 'every number, mode, prior state, answer and refusal',
  'Tests set one number and mode on cooperative modems.',
  [MODEM], [('GsmModem.smsc', MODEM), ('GsmModem.smsTextMode', MODEM), ('GsmModem._compileSmsRegexes', MODEM), ('GsmModem.manufacturer/model/revision/imei/imsi', MODEM)], [('_smscNumber/_smsTextMode', 'known settings', MODEM)], ['property values; commands written; exceptions'])

p('C28', 'Connecting leaves the modem configured as the application was told',
  'connect() opens the port once, starts its reader before anything is written, resets the modem, and unlocks the SIM exactly once before any command other than the reset, echo, functionality and error-code commands. Afterwards the configured message mode is in force, and the configured service centre (or, if none is configured, the modem\'s own, even when the modem forgets it while its parameters are set); per purpose only a memory the modem offers is selected, the preferred one; reading messages is available exactly when the modem offers memories and accepts to notify; caller numbers and ring types are expected exactly when the modem accepted to send them; the call updates expected are those of the identified kind of modem, each going to its handler. Optional commands may be refused; an error of any other is passed on.',
  ['inputs', 'fault_sequences'], 'every modem: supported commands, manufacturer, answers, refusals and failures at every command',
  'Tests connect to a few scripted, cooperative modems.',
  [MODEM, SER], [('GsmModem.connect', MODEM), ('SerialComms.connect', SER)], [('_callStatusUpdates/_waitForAtdResponse/_mustPollCallStatus', 'expected call updates', MODEM), ('_smscNumber/_smsReadSupported/_smsMemReadDelete', 'message settings', MODEM)], ['commands written; settings afterwards; exceptions'])

p('C29', 'The terminal sends exactly what is typed and shows exactly what is received',
  'In the user-friendly terminal, entering a line sends that line, without surrounding blanks, and a carriage return, once and nothing else; the terminal\'s own commands (help, listings, ?COMMAND, COMMAND??, load with a file name) send nothing themselves, and load enters each line of the script that is neither blank nor a comment as if it had been typed. While a message is typed (after a send command whose prompt the modem gave, and only then) Enter sends the text before the cursor, Ctrl-Z the line and the end mark, Esc the cancel mark only; all other keys send nothing. Every line received is shown, in order, and does not change what is being typed. The raw terminal sends every key at once (a newline as carriage return) and shows every line; both connect before the first key is read and, when the exit key is pressed, wait for their threads and close the port.',
  ['inputs', 'histories'], 'every line, cursor, state, key, script and received line',
  'The terminal has no tests.',
  [TERM], [('GsmTerm._doConfirmInput/_handleCtrlZ/_handleEsc/_inputLoop', TERM), ('GsmTerm._handleModemNotification', TERM), ('RawTerm.start/stop/_inputLoop/_handleModemNotification', TERM)],
  [('inputBuffer/_typingSms', 'what is being typed', TERM)], ['data written to the port; text shown'])

p('C30', 'The command line tools do what they were asked and tell what happened',
  'sendsms connects to the modem at the port, with the speed (115200 unless given) and PIN given, reads the text only once there is network coverage, and sends it to the destination given exactly once, waiting for a delivery report exactly if asked to; it then closes the modem and tells that the message was sent, and delivered or not if there is a report. Without a port, with a missing or wrong PIN, without coverage or when sending times out it says so, exits with status 1 and sends nothing (more), closing the modem if it was connected; other errors are not hidden. identify-modem only asks: after connecting likewise it shows manufacturer, model, revision, IMEI, IMSI, network and signal strength (N/A for what is missing), or with -d the answer to each of its debug queries, error answers included. gsmterm starts the terminal asked for (raw with -r) on the port and speed given and returns when its connection has ended.',
  ['inputs', 'fault_sequences'], 'every combination of arguments, typed text, and outcome of each step',
  'The tools have no tests.',
  ['tools/sendsms.py', 'tools/identify-modem.py', 'tools/gsmterm.py'], [('main/parseArgs', 'tools/sendsms.py'), ('main/parseArgs', 'tools/identify-modem.py'), ('main/parseArgs', 'tools/gsmterm.py')],
  [], ['calls of the modem; text shown; exit status'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for q in P: f.write(json.dumps(q, ensure_ascii=False) + '\n')
print(len(P), 'properties')

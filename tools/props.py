#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl from the table below (kept here because JSONL is unpleasant to edit)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {'files': ['messaging/' + f for f in files],
         'mechanism': [{'name': n, 'where': 'messaging/' + w} for n, w in mech]}
    if observe:
        a['observe_at'] = observe
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': 'messaging/' + w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why, 'anchors': a})


IN = ['inputs']
# ------------------------------------------------------------------ GSM alphabet
p('C01', 'GSM 03.38 alphabet maps every character and octet exactly as the standard',
  'Encoding any Unicode character of the GSM 03.38 default or extension alphabet yields exactly the septet (or 0x1B-prefixed pair) the standard assigns, and decoding any septet or escape pair yields exactly the standard character. '
  'An escape followed by an unassigned septet, or a trailing escape, decodes to a no-break space (U+00A0).',
  IN, 'all 65,536 BMP characters, all 256 octets, all 256 escape pairs, in any position of any text',
  'the tests sample the tables with one char at a time and only in the assigned range; they do not fix what surrounding text or other octets do',
  ['sms/gsm0338.py'], [('def_regular_decode_dict / def_escape_decode_dict', 'sms/gsm0338.py'), ('encode', 'sms/gsm0338.py'), ('decode', 'sms/gsm0338.py')],
  ["text.encode('gsm0338')", "data.decode('gsm0338')"])
p('C02', 'GSM codec error modes and is_gsm_text agree for every character',
  'For a character outside the alphabet, strict encoding raises UnicodeError, "replace" emits exactly the documented look-alike septet (for lower-case c-cedilla and the Greek capitals that have one) or otherwise "?", "ignore" drops it, and any other mode raises UnicodeError; unassigned octets decode likewise. '
  'is_gsm_text(text) never raises and is true exactly when every character of the text is in the alphabet; error modes never change how valid characters are coded.',
  IN, 'every BMP character / octet in every position, for each error mode',
  'tests sample about a dozen invalid characters; the equivalence with is_gsm_text quantifies over all text',
  ['sms/gsm0338.py'], [('encode', 'sms/gsm0338.py'), ('decode', 'sms/gsm0338.py'), ('def_replace_encode_dict', 'sms/gsm0338.py'), ('is_gsm_text', 'sms/gsm0338.py')])
# ------------------------------------------------------------------ packing
p('C03', 'Septet packing places every bit where 3GPP 23.038 says',
  'For n septets (0..160) the packed user data is a length octet n followed by ceil(7n/8) octets in which bit b of septet i is bit (7i+b) of the octet stream and unused bits are zero, written as two hex digits per octet. '
  'With a 6-octet user-data header the header octets come first, one fill bit aligns the text to the septet boundary after them, and the length octet counts the 7 header septets plus the text septets.',
  IN, 'every length 0..160 (0..153 with a header) and every septet value in every position',
  'round-trip tests use a handful of texts; a wrong shift at one residue of the 8-septet period shows only for particular lengths and bits',
  ['utils.py'], [('pack_8bits_to_7bits', 'utils.py'), ('encode_str', 'utils.py')])
p('C04', 'Septet unpacking is the exact inverse of packing, in both unpackers',
  'Unpacking any octet string yields septet i as bits 7i..7i+6 of the octet stream, in order, for at most 160 septets. '
  'The two unpackers (hex text and octet sequence) return the same septets for the same octets.',
  IN, 'every octet string of 0..160 octets, every bit of every octet',
  'decode tests sample some tens of PDUs; equality of the two unpackers is never tested',
  ['utils.py'], [('unpack_msg', 'utils.py'), ('unpack_msg2', 'utils.py')])
p('C05', '8-bit and UCS-2 user data are emitted verbatim with the right length octet',
  'Packing 8-bit data yields a length octet followed by every byte unchanged and in order; packing UCS-2 yields a length octet counting bytes followed by each BMP character as two big-endian bytes. '
  'When a user-data header is supplied, its octets appear first in the data and are counted in the length.',
  IN, 'every length that fits a PDU and every byte / BMP character value, with and without a header',
  'tests use a few fixed UCS-2 texts and no 8-bit text with a header at all',
  ['utils.py'], [('pack_8bits_to_8bit', 'utils.py'), ('pack_8bits_to_ucs2', 'utils.py')])
p('C06', 'SUBMIT PDU has the 3GPP 23.040 field order, flags and length',
  'Each produced PDU is the concatenation, in this order, of service-centre address, first octet, message reference, destination, PID, DCS, validity (1 octet relative, 7 absolute, none otherwise), user-data length and user data, in upper-case hex. '
  'The first octet is SUBMIT with the validity-format bits matching the validity kind, the status-report bit set iff requested and the header-indicator bit set iff the data carries a concatenation header; the advertised length is the octet count excluding the service-centre part.',
  ['inputs', 'configurations'], 'all combinations of SMSC presence, validity kind, status request, class, alphabet, single/multipart, and all reference, PID, number and text values',
  'tests fix about ten full PDUs; flag combinations and lengths are products of independent settings',
  ['sms/submit.py', 'sms/pdu.py'], [('SmsSubmit.to_pdu', 'sms/submit.py'), ('_get_sms_submit_pdu', 'sms/submit.py'), ('Pdu.__init__', 'sms/pdu.py')])
p('C07', 'Destination and SMSC addresses are encoded as swapped semi-octets',
  'A number is encoded as type octet 0x91 if it starts with "+", else 0x81, followed by its digits in order as swapped semi-octets, padded with 0xF when odd. '
  'The destination length counts digits while the SMSC length counts octets including the type octet; without an SMSC a single 0x00 is emitted.',
  IN, 'every valid number of 3..20 digits, with and without "+", each digit arbitrary, for destination and SMSC',
  'tests use a handful of numbers; odd/even, international and digit positions multiply',
  ['sms/submit.py', 'utils.py'], [('_get_phone_pdu', 'sms/submit.py'), ('_get_smsc_pdu', 'sms/submit.py'), ('clean_number', 'utils.py')])
p('C08', 'Alphabet, DCS octet and single-part limits follow the text and class',
  'Without an explicit format the GSM alphabet (DCS 0x00) is used iff every character is in it, otherwise UCS-2 (0x08); a message class c adds 0x10+c to the DCS. '
  'A single PDU is produced iff the encoded text fits 160 septets, 140 octets, or 70 UCS-2 characters, escape pairs counting as two septets; an unsupported format raises ValueError.',
  IN, 'every text length around each limit, each character kind at each position, each format and class',
  'tests check two or three lengths; off-by-one at a limit or a wrong count of escaped characters needs exact boundary inputs',
  ['sms/submit.py', 'sms/consts.py'], [('_get_msg_pdu', 'sms/submit.py'), ('SEVENBIT_SIZE etc.', 'sms/consts.py')])
p('C09', 'Multipart messages split the text exactly, numbered 1..n with one reference',
  'When the text does not fit one PDU, the concatenated payloads of the parts are exactly the encoded text, each part carries header 05 00 03 ref n i with the same ref, the true count n and i = 1..n in order, no part exceeds 153 septets / 134 octets / 67 characters, and every part but the last is full (one less where an escape pair would be split). '
  'An escape pair is never divided between parts, and the returned objects report the same count and sequence.',
  IN, 'every text length up to several parts, escape characters at every offset relative to a part boundary, every reference',
  'tests use two long texts; the partition property quantifies over lengths and escape positions',
  ['sms/submit.py'], [('_split_sms_message', 'sms/submit.py'), ('to_pdu', 'sms/submit.py')])
p('C10', 'Relative validity maps every duration to the right code, rounding down',
  'For a duration of 5 minutes to 63 weeks the validity octet is the largest 23.040 code whose period does not exceed the duration within that code range: 5-minute steps to 12 h (0..143), 30-minute steps to 24 h (144..167), days to 30 days (168..196), weeks to 63 weeks (197..255). '
  'Shorter or longer durations raise ValueError.',
  IN, 'every timedelta, down to the microsecond, over the whole range and beyond both ends',
  'tests sample about twenty durations of the 38-million-second range',
  ['utils.py'], [('timedelta_to_relative_validity', 'utils.py')])
p('C11', 'Absolute validity and fixed offsets preserve local time and zone',
  'An absolute validity is seven octets: year, month, day, hour, minute, second as swapped BCD of the local time, then the UTC offset magnitude in quarter hours as swapped BCD with the sign bit set iff the offset is negative. '
  'A fixed offset parsed from "+hhmm"/"-hhmm" is exactly that signed offset, and the empty string is zero.',
  IN, 'every valid date and time and every offset that is a whole number of quarter hours, both signs',
  'tests use three zones; signed and fractional-hour offsets multiply with date fields',
  ['utils.py'], [('datetime_to_absolute_validity', 'utils.py'), ('FixedOffset.from_timezone', 'utils.py')])
p('C12', 'Invalid SUBMIT settings are rejected and leave the object unchanged',
  'A number or SMSC is accepted iff it is empty/None or an optional "+" and 3..20 digits; a class iff it is an int in 0..3; a validity iff it is None, a duration or a datetime. '
  'Anything else raises ValueError or TypeError as documented, and the previously set value stays in force.',
  ['inputs', 'histories'], 'every string up to 23 characters with an arbitrary character at any position, every int class, each kind of validity, before and after a valid assignment',
  'tests try a few bad values on a fresh object and never look at the state afterwards',
  ['sms/submit.py'], [('_set_number/_set_csca/_set_klass/_set_validity', 'sms/submit.py'), ('VALID_NUMBER', 'sms/submit.py')])
p('C13', 'Encoding an SMS again, or another SMS, is independent of earlier encodings',
  'Calling to_pdu twice without changes gives the same single PDU, and after changing a setting the result equals that of a fresh object with that setting; encoding never alters text, number, SMSC, class, validity or status request. '
  'Successive automatic references of one object are distinct until 255 have been used, and separate objects do not influence one another.',
  ['histories'], 'every sequence of to_pdu calls and setting changes over one or more objects',
  'each test builds one object and encodes it once; sticky state needs a sequence of calls',
  ['sms/submit.py'], [('to_pdu', 'sms/submit.py'), ('_get_rand_id', 'sms/submit.py')],
  state=[('fmt', 'chosen alphabet, None means choose from the text', 'sms/submit.py'), ('id_list', 'unused automatic references', 'sms/submit.py')])
# ------------------------------------------------------------------ deliver
p('C14', 'DELIVER header fields are decoded from the right octets',
  'Decoding a DELIVER PDU reports the SMSC number, sender number, PID, DCS and alphabet exactly as carried: numbers are un-swapped digits without filler and with "+" iff the type is international, and the alphabet follows DCS bits 2-3. '
  'An alphanumeric sender decodes to exactly the characters its length covers.',
  IN, 'every SMSC length, sender length 0..20, type octet, digit, PID and DCS value',
  'tests decode about twenty captured PDUs with few address lengths and only one DCS per alphabet',
  ['sms/deliver.py', 'utils.py'], [('SmsDeliver._set_pdu', 'sms/deliver.py'), ('swap_number', 'utils.py'), ('unpack_msg2', 'utils.py')])
p('C15', 'Service-centre timestamp is converted to UTC for every zone octet',
  'The reported date is the timestamp digits read as local time YY/MM/DD hh:mm:ss minus the zone offset, where the zone octet is swapped BCD quarter hours with bit 3 as the sign. '
  'This holds for every valid date and every zone value.',
  IN, 'all calendar fields 0..99 / 1..12 / 1..31 / 0..23 / 0..59 and all 256 zone octets',
  'tests use a few dates and two zones',
  ['sms/deliver.py'], [('SmsDeliver._set_pdu', 'sms/deliver.py')])
p('C16', 'DELIVER text is recovered exactly for every alphabet, with or without header',
  'The decoded text is the characters carried by the user data: septets after the header and its fill bits for the GSM alphabet, the remaining bytes for 8-bit data, and the big-endian character codes for UCS-2. '
  'The header is neither included in nor cut out of the text, and the length octet decides how many septets belong to it.',
  IN, 'every user-data length, every header length 0..30 giving each fill-bit count, every septet/byte/character value',
  'tests have header lengths 5, 6 and 7 only and a few texts',
  ['sms/deliver.py', 'utils.py'], [('SmsDeliver._process_message', 'sms/deliver.py'), ('unpack_msg', 'utils.py')])
p('C17', 'User-data header elements are parsed by identifier, unknown ones skipped',
  'Every information element is stored under its identifier with exactly its data octets; identifiers 0x00 and 0x08 give reference (8/16 bit), count and sequence, and 0x04 and 0x05 give destination then originator port (8/16 bit), with a flag saying which width was used. '
  'Unknown elements are skipped by their length, whatever the order of elements.',
  IN, 'every sequence of up to three elements of any kind and order, any unknown identifier and length, every field value',
  'tests use single-element headers and two-element headers in one order',
  ['sms/udh.py'], [('UserDataHeader.from_bytes', 'sms/udh.py')])
p('C18', 'Status report fields are decoded from the right octets',
  'Decoding a STATUS-REPORT reports the message reference (with part count and sequence 0), recipient, service-centre timestamp, discharge timestamp and status octet exactly as carried; undecodable timestamps or a missing status give None rather than an error. '
  'Status 0x00 is reported as SR-OK, 0x30 as SR-STORED, and all other or missing values as SR-UNKNOWN; the text is "recipient|timestamp|" plus the discharge time iff status is 0 or missing.',
  IN, 'every reference, recipient length/digits/type, timestamp and status octet, and a missing status octet',
  'tests decode five captured reports',
  ['sms/deliver.py'], [('_decode_status_report_pdu', 'sms/deliver.py'), ('from_status_report_ref', 'sms/udh.py')])
p('C19', 'Rejected and re-assigned PDUs behave predictably',
  'An odd number of hex digits raises ValueError, except in non-strict mode where the last digit is ignored; SUBMIT-type PDUs raise ValueError. '
  'Assigning another PDU to the same object gives exactly the attributes a fresh object would have, with nothing left over from the previous message.',
  ['inputs', 'histories'], 'every message type, odd/even length, strictness, and every ordered pair of message kinds decoded by one object',
  'tests always decode with a fresh object',
  ['sms/deliver.py'], [('pdu property setter', 'sms/deliver.py')],
  state=[('udh, sr, text, number, date, type', 'decoded attributes', 'sms/deliver.py')])
# ------------------------------------------------------------------ WSP primitives
p('C20', 'Variable-length unsigned integers encode and decode exactly',
  'Encoding a non-negative integer as uintvar yields its base-128 digits, most significant first, with the continuation bit on all but the last octet and no leading zero digit; decoding any such octet sequence returns the integer and consumes exactly those octets.',
  IN, 'every integer below 2^35 and every uintvar of up to five octets',
  'tests use one two-octet value',
  ['mms/wsp_pdu.py'], [('Encoder.encode_uint_var', 'mms/wsp_pdu.py'), ('Decoder.decode_uint_var', 'mms/wsp_pdu.py')])
p('C21', 'WSP integer and length primitives are exact and mutually inverse',
  'Uint8, short-integer, long-integer, integer-value, short-length and value-length encode every value in range to the octets the WSP standard defines (long integers big-endian with minimal length) and decode them back, consuming exactly those octets. '
  'A value outside 0..127 for a short-integer or 0..30 for a short-length, a long-integer that is negative or needs more than 30 octets, and a first octet that cannot start the form raise EncodeError or DecodeError.',
  IN, 'every octet for the one-octet forms, every non-negative integer of up to 30 octets, of type int or long, for long-integer and integer-value, every length for value-length',
  'tests sample single values; byte-order errors are invisible for one-octet values',
  ['mms/wsp_pdu.py'], [('encode_/decode_ short_integer, long_integer, integer_value, short_length, value_length, uint_8', 'mms/wsp_pdu.py')])
p('C22', 'WSP text forms decode to their characters and consume their terminator',
  'Text-string, quoted-string, token-text, extension-media and text-value decode to exactly the characters before the terminator (dropping the 0x7F quote of text-string and the leading quote mark), and leave the iterator just after the terminator: the zero octet, or for token-text the first control or separator octet; a No-value is one zero octet. '
  'Encoding appends one zero octet; encoding token-text with a separator character and extension-media starting with a control character raise EncodeError.',
  IN, 'every character in every position of strings of any length up to a bound, every first octet',
  'tests use a few ASCII strings',
  ['mms/wsp_pdu.py'], [('decode_text_string etc.', 'mms/wsp_pdu.py'), ('encode_text_string, encode_token_text, encode_extension_media', 'mms/wsp_pdu.py')])
p('C23', 'Version values use the packed form exactly when major 1..7 and minor 0..14',
  'A version "M" or "M.m" with M in 1..7 and m in 0..14 encodes to one octet 0x80|M<<4|m (m=15 when absent) and decodes back to the same string; any other version string is encoded and decoded as text.',
  IN, 'all 256 octets, all major/minor pairs and malformed strings with several dots or non-digits',
  'tests cover four versions',
  ['mms/wsp_pdu.py'], [('encode_version_value', 'mms/wsp_pdu.py'), ('decode_version_value', 'mms/wsp_pdu.py')])
p('C24', 'Assigned-number tables agree with WAP assignments in both directions',
  'Well-known content types, charsets, header field names, parameters and MMS field names decode from, and encode to, exactly the number WAP assigns, and a code outside a table is reported as DecodeError (or as its number, for charsets). '
  'Encoding uses the header numbers up to version 1.2, decoding accepts those up to 1.4. '
  'Versions 1.1 to 1.4 expose exactly the header fields and parameters introduced up to that version.',
  IN, 'every assigned number 0..127 in each table, every table entry name, each encoding version',
  'tests touch a few entries; a transposed or shifted row breaks only that entry',
  ['mms/wsp_pdu.py', 'mms/mms_pdu.py'], [('well_known_content_types', 'mms/wsp_pdu.py'), ('get_header_field_names', 'mms/wsp_pdu.py'), ('get_well_known_parameters', 'mms/wsp_pdu.py'), ('mms_field_names', 'mms/mms_pdu.py')])
p('C25', 'Every table-listed header and parameter type has a working codec',
  'Every value type named in the MMS-header, WSP-header and parameter tables resolves to an implemented decoder and an implemented encoder, so no known header or parameter fails with an internal attribute error. '
  'A known header always reaches the codec of its own type.',
  ['configurations'], 'every row of the three dispatch tables, in both directions',
  'tests exercise about a dozen rows; the dispatch is by computed attribute name, invisible to imports or linters',
  ['mms/wsp_pdu.py', 'mms/mms_pdu.py'], [("getattr(..., 'decode_%s' / 'encode_%s')", 'mms/mms_pdu.py'), ('header_field_encodings', 'mms/wsp_pdu.py')])
p('C26', 'Enumerated MMS values decode to their names and unknown codes to the default',
  'Boolean, message-class, message-type, priority, sender-visibility, response-status and status octets decode to exactly the value WAP-209 assigns, consuming one octet. '
  'Unassigned octets give the documented fallback: DecodeError for boolean/priority/visibility, token text for class, and one octet read as "<unknown>" for type, "Error-unspecified" for response-status and "Unrecognised" for status; encoding message type and status is the inverse with defaults m-send-req and Unrecognised.',
  IN, 'all 256 octets for each enumerated type and every name',
  'tests use two or three values',
  ['mms/mms_pdu.py'], [('decode_*_value', 'mms/mms_pdu.py'), ('encode_message_type_value, encode_status_value', 'mms/mms_pdu.py')])
p('C27', 'Address, text and time MMS values decode and consume exactly their encoding',
  'From values, encoded strings with or without length and charset, expiry and delivery-time (absolute date or relative seconds) decode to the carried text, date or number and consume exactly the octets they occupy; an insert-address token gives "<not inserted>". '
  'Encoding a From or encoded-string value produces a form that decodes to the same text, encoding a time is the inverse of decoding it, and an unknown time token raises DecodeError.',
  IN, 'every printable string up to a length beyond the 30-octet short-length limit, every date, every relative time, every token octet',
  'tests decode three messages; the length-quote form never occurs',
  ['mms/mms_pdu.py'], [('decode_from_value, decode_encoded_string_value, decode_expiry_value, decode_delivery_time_value', 'mms/mms_pdu.py')])
# ------------------------------------------------------------------ iterator
p('C28', 'Previewing iterator never loses, repeats or reorders items',
  'For any sequence of next, preview and reset calls, next returns the items of the underlying iterable once each and in order, preview returns the items that follow the latest next or preview without consuming them, and reset moves the preview position back to the next unread item. '
  'StopIteration is raised exactly when no item remains, and does not disturb items already previewed.',
  ['histories'], 'every interleaving of next/preview/reset up to a bound on every iterable length, any item values',
  'the iterator has no tests of its own; only specific interleavings occur in message decoding',
  ['mms/iterator.py'], [('PreviewIterator', 'mms/iterator.py')],
  state=[('_cached_values, _preview_pos', 'items read ahead and preview position', 'mms/iterator.py')])
p('C29', 'A primitive decoder that rejects its input leaves the iterator untouched',
  'When a short-integer, short-length, value-length, quoted-string, token, extension-media, constrained-encoding, boolean, priority or sender-visibility decoder, or the MMS header-name decoder, raises DecodeError on its first octet, the next read still returns that octet and the next preview starts from it. '
  'This is what makes trying alternative encodings safe.',
  IN, 'every rejecting first octet for each primitive decoder',
  'fall-back decoding is only tested on accepted input; a forgotten preview reset shows up two calls later',
  ['mms/wsp_pdu.py', 'mms/mms_pdu.py'], [('reset_preview before raise DecodeError', 'mms/wsp_pdu.py')])
p('C30', 'Content types with parameters encode to a flat, correctly sized general form',
  'A content type without parameters encodes as one short integer if well known, else as its zero-terminated text; with parameters it encodes as a value-length equal to the number of octets that follow, then the media type, then each parameter. '
  'Every octet sequence so produced decodes back to the same content type and parameters, decoding (also of Accept and Pragma values) never reads beyond the stated length.',
  IN, 'every well-known and unknown media type, typed parameters and untyped ones named by a token whose value is a non-negative integer or non-empty printable ASCII text, lengths on both sides of the short-length limit',
  'tests cover one parameter set and only on the decoding side',
  ['mms/wsp_pdu.py'], [('encode_content_type_value, encode_content_general_form, encode_parameter', 'mms/wsp_pdu.py'), ('decode_content_type_value, decode_content_general_form', 'mms/wsp_pdu.py')])
p('C31', 'MMS header section order: type, transaction id, version, ..., content type last',
  'The encoded header section is message-type, transaction-id and MMS-version in that order, then every other header exactly once, then content-type last; missing mandatory headers get defaults (type m-retrieve-conf, a random four-digit transaction id, version 1.0) and X-Mms- prefixed versions of them take precedence. '
  'A message declared m-send-req with none of To, Cc or Bcc is encoded as m-retrieve-conf, and otherwise the declared type is kept.',
  IN, 'every subset of the mandatory and destination headers, with other headers, in any insertion order',
  'tests encode two messages with fixed headers',
  ['mms/mms_pdu.py'], [('MMSEncoder.encode_message_header', 'mms/mms_pdu.py')])
p('C32', 'MMS multipart body is framed by true counts and lengths',
  'The encoded body is the number of parts, then for the SMIL part, every page item (image, audio, text order per page) and every attached data part: headers length, data length, content type, headers and data, where each length is exactly the number of octets of that field. '
  'The stated number of parts equals the number of parts emitted, and part data are emitted unchanged.',
  IN, 'every combination of page contents and attached parts, every data length and byte value, header sizes across uintvar boundaries',
  'tests encode small messages with one or two parts and never attached data parts',
  ['mms/mms_pdu.py'], [('MMSEncoder.encode_message_body', 'mms/mms_pdu.py')])
p('C33', 'Decoding an MMS recovers every header, part, content type and payload',
  'Decoding a well-formed message yields every header up to and including content-type with its decoded value, and then each part with its content type, parameters, headers (those with text values, such as Content-Location and Content-ID) and exact payload bytes in order; a message with headers only has no parts. '
  'Octets of one part never leak into another part or into the headers.',
  IN, 'every number of parts up to a bound, every payload byte and length including uintvar boundaries, any header order',
  'tests decode eight captured messages',
  ['mms/mms_pdu.py'], [('decode_message_header', 'mms/mms_pdu.py'), ('decode_message_body', 'mms/mms_pdu.py')])
p('C34', 'Encoding an MMS does not change the message and can be repeated',
  'Encoding leaves the message headers, pages and data parts as they were, so that encoding the same message again produces the same headers and parts, and two encoders or messages never influence one another.',
  ['histories'], 'every message and any number of repeated encodings, interleaved with other messages',
  'tests encode each message once',
  ['mms/mms_pdu.py', 'mms/message.py'], [('MMSEncoder.encode_message_header', 'mms/mms_pdu.py')],
  state=[('headers', 'message headers as set by the user', 'mms/message.py')])
p('C35', 'SMIL text describes every page with its media, timing and regions',
  'The SMIL document has head (metas, layout with the message size and the Image and Text regions) followed by a body with one par per page in order carrying its duration, and in each par exactly the page image, text and audio elements with their source and region. '
  'begin and end are present iff either is positive, with end limited to the page duration.',
  IN, 'every subset of image/text/audio on up to three pages and every begin, end and duration',
  'tests only check message bytes for pages with image and text; audio pages are never rendered',
  ['mms/message.py'], [('MMSMessage.smil', 'mms/message.py')])
p('C36', 'Page and duration settings reject invalid input without side effects',
  'Adding an image, audio or text requires a str, integer times, an existing file (for media) and, when end is positive, end not before begin; a duration must be a positive int. '
  'Violations raise TypeError, OSError or ValueError respectively and leave the page as it was; accepted values are stored unchanged.',
  IN, 'every begin/end/duration integer and each kind of wrong argument for each method',
  'tests only use valid arguments',
  ['mms/message.py'], [('MMSMessagePage.add_image/add_audio/add_text/set_duration', 'mms/message.py')])
p('C37', 'Data parts report exactly the content, type and length they hold',
  'A part loaded from a file reports the file bytes, its base name as content location and the guessed type; a part set from data reports those bytes, type and parameters. '
  'Setting new content replaces headers and data entirely, and len(part) always equals the number of bytes of part.data.',
  ['inputs', 'histories'], 'every sequence of from_file, set_data, set_text and data reads, any content',
  'tests set the content once',
  ['mms/message.py'], [('DataPart', 'mms/message.py')])
p('C38', 'File reading and writing is binary, complete and failure-safe',
  'Loading a message or part reads the whole file in binary mode; saving writes exactly the encoded bytes in binary mode and opens the target only after encoding succeeded, so a failed encoding never truncates an existing file. '
  'Every opened file is closed on every path.',
  ['inputs', 'crash_points'], 'every file operation on normal and exceptional paths',
  'tests write to fresh temporary files and never fail in the middle',
  ['mms/message.py', 'mms/mms_pdu.py'], [('MMSMessage.to_file', 'mms/message.py'), ('MMSDecoder.decode_file', 'mms/mms_pdu.py'), ('DataPart.data', 'mms/message.py')])
p('C39', 'WAP pushes are recognised and their MMS content extracted exactly',
  'A byte string is a WAP push notification iff its second octet is 0x06 (shorter strings are not; non-str input raises TypeError), and extraction decodes exactly the octets that follow the three fixed octets and the stated header length. '
  'An MMS notification is recognised iff it carries both From and Content-Location.',
  IN, 'every octet string, every push header length including multi-octet lengths, every presence combination of the headers',
  'tests use a few captured pushes with one-octet header lengths',
  ['sms/wap.py'], [('is_a_wap_push_notification, extract_push_notification, is_mms_notification', 'sms/wap.py')])
p('C40', 'API calls never corrupt shared tables, defaults or caller data',
  'No encode, decode or setter call changes the outcome of a later unrelated call: shared tables and default arguments keep their values, the lists of parts, PDUs and octets and the tables of names that are handed out belong to the caller, and caller-supplied arguments (arrays, lists, dicts) are left unmodified.',
  ['histories'], 'every public operation followed by every other',
  'tests never repeat an operation after another in a way that would expose a mutated table',
  ['utils.py', 'sms/submit.py', 'sms/deliver.py', 'mms/wsp_pdu.py', 'mms/mms_pdu.py', 'mms/message.py'],
  [('module-level tables', 'mms/wsp_pdu.py'), ('get_header_field_names / get_well_known_parameters copies', 'mms/wsp_pdu.py')])
p('C41', 'Decoder loops always consume input, so decoding terminates',
  'Every loop in the decoders and encoders either iterates a finite sequence or makes progress on each pass (consumes an input item or shrinks its counter), so any finite input is processed in time bounded by its length.',
  IN, 'every loop in the package, on every path through its body',
  'termination is universal over inputs; a test that hangs only shows one',
  ['sms/deliver.py', 'sms/submit.py', 'sms/udh.py', 'sms/gsm0338.py', 'utils.py', 'mms/wsp_pdu.py', 'mms/mms_pdu.py'],
  [('while loops', 'mms/wsp_pdu.py'), ('while loops', 'sms/submit.py')])
p('C43', 'Every name, attribute and call used by the package resolves on every path',
  'On every path each local variable is assigned before it is used, each module-level name and imported attribute exists, and each call to a package function passes an acceptable number of arguments, so no input can trigger an internal NameError or wrong-arity TypeError.',
  IN, 'every function and every path in the package, including error paths',
  'Python resolves names only when a line executes; tests leave error branches and rare codecs unexecuted',
  ['utils.py', 'sms/submit.py', 'sms/deliver.py', 'mms/wsp_pdu.py', 'mms/mms_pdu.py', 'mms/message.py'], [('all functions', '__init__.py')])
p('C44', 'Pages and messages list exactly the parts and pages they hold, in order',
  'The data parts of a page are its image, audio and text parts, in that order and only those present, and their number is the stated number of parts. '
  'The data parts of a message are its SMIL part first (when it has pages), then those of each page in page order, then the attached parts in the order of addition; its pages are listed in the order of addition, and adding the first page makes its content type multipart/related.',
  ['inputs', 'histories'], 'every combination of page contents, number of pages and attached parts',
  'tests never list the parts of a message with pages',
  ['mms/message.py'], [('MMSMessagePage.data_parts, number_of_parts', 'mms/message.py'), ('MMSMessage.data_parts, add_page, add_data_part', 'mms/message.py')])
p('C42', 'The text of a sent SMS is the text the receiver decodes, whole and in order',
  'When the user data of the PDUs of a submitted message is handed on by the network in DELIVER PDUs, decoding those gives, part by part in order, exactly the text that was submitted (7-bit text including extension characters, UCS-2 and 8-bit text), '
  'whatever its length; a message of several parts decodes with a concatenation header in each part that has the one reference of the message, the number of parts and the position of the part, a message of one part with none.',
  ['inputs', 'configurations'], 'every text of each alphabet and length, so every way a text can be cut into parts and aligned in septets',
  'encoder and decoder are tested on separate sample PDUs; that they are inverse must hold for every character at every position of every part',
  ['sms/submit.py', 'sms/deliver.py', 'sms/base.py', 'sms/udh.py', 'utils.py'], [('SmsSubmit.to_pdu', 'sms/submit.py'), ('SmsDeliver', 'sms/deliver.py')])
p('C45', 'An MMS message decodes to the message it was encoded from',
  'Encoding an MMS message and decoding the octets gives a message with the same headers and header values (plus those the encoder supplies: message type, version, content type), the same content type, '
  'first the presentation part (application/smil, holding the text that smil() returns), then the parts of its pages and its attachments in order, each with the same content type, parameters, headers and octets; decoding what the decoded message encodes to gives the same headers and parts again.',
  ['inputs', 'configurations'], 'every value of the headers and octets of the parts, combinations of headers, pages and attachments',
  'tests decode stored messages and encode one sample; the two directions must agree for every message',
  ['mms/message.py', 'mms/mms_pdu.py', 'mms/wsp_pdu.py'], [('MMSMessage.encode, from_data', 'mms/message.py'), ('MMSEncoder, MMSDecoder', 'mms/mms_pdu.py')])
# ------------------------------------------------------------------ declined
p('C50', 'Decoding arbitrary corrupted PDUs raises only documented exceptions',
  'For every byte string, decoding either succeeds or raises ValueError / DecodeError, never another exception.',
  IN, 'every byte string', 'tests decode well-formed data',
  ['sms/deliver.py', 'mms/mms_pdu.py'], [('SmsDeliver', 'sms/deliver.py'), ('MMSDecoder', 'mms/mms_pdu.py')])
p('C51', 'Objects may be used from several threads at once',
  'Concurrent encoding and decoding from several threads gives the same results as running sequentially.',
  ['schedules'], 'every thread schedule', 'tests are single-threaded',
  ['sms/submit.py', 'mms/mms_pdu.py'], [('module state', 'mms/wsp_pdu.py')])
p('C52', 'Decoding time is linear in the message size',
  'Decoding a message takes time proportional to its length.',
  IN, 'every message', 'tests use small messages',
  ['mms/mms_pdu.py', 'mms/iterator.py'], [('PreviewIterator', 'mms/iterator.py')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for r in P:
            assert len(r['title']) <= 80, r['id']
            f.write(json.dumps(r) + '\n')
    print(len(P), 'properties')

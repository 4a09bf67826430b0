#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only to make the file easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))
L, A, M, D, N, E, W = ("src/lib.rs", "src/attribute_type.rs", "src/media_type.rs", "src/address.rs",
                       "src/anonymizer.rs", "src/error.rs", "src/network.rs")

p("C01", "Every input text is answered, never crashed on",
  "For every Unicode text, with warnings fatal or not, every public parsing entry point returns either a value or an error: it never panics, overflows arithmetic or slices inside a character. The same holds for printing, debug-printing and JSON-serialising whatever was returned, and it does not depend on whether logging is enabled.",
  ["inputs"], "all texts (valid, mutated, arbitrary Unicode) given to the session, line, attribute, media, address, fingerprint and direct parsing entry points, in both warning modes",
  "The tests feed a fixed list of well-formed and a few malformed lines; a panic hides behind an index, an unwrap, a subtraction or a byte slice that only some other text reaches.",
  [L, A, M, D, W, E], [("parse_sdp / parse_sdp_line", L), ("SdpAttribute::from_str and its parse_* functions", A), ("parse_media, parse_media_vector", M), ("Address::from_str", D)],
  observe=["return value of parse_sdp, parse_sdp_line, FromStr impls", "Display/Debug/Serialize of the results"])
p("C02", "An accepted description survives serialisation",
  "Whenever a description is accepted, its printed form is accepted again with warnings fatal, gives an equivalent session, and prints to exactly the same text again. Equivalent means equal in every field, except that warnings are gone, an fmtp carrying only default values may be omitted, empty list elements and surrounding blanks may be dropped, and an empty msid list equals the wildcard.",
  ["inputs"], "all accepted texts, whether built from the grammar or found by mutating descriptions",
  "A handful of per-attribute tests print and compare one sample line each; the loss or merging of values appears only for particular combinations of optional parts and of attributes.",
  [L, A, M, D], [("Display impls of SdpSession, SdpMedia, SdpAttribute and their parts", "src/lib.rs, src/media_type.rs, src/attribute_type.rs"), ("maybe_vector_to_string!, non_empty_string_vec!, maybe_print_param", A)],
  observe=["to_string() of a parsed session", "parse_sdp of that text"])
p("C03", "Every supported line ends up in its section, in order and unaltered",
  "The session returned for a valid description holds exactly its lines: version, origin, session name, timing, bandwidths, connections and attributes with the values written, media sections in order, and within each section its own bandwidths, connection and attributes in order. Nothing is dropped, duplicated, reordered or moved between sections, and a single parsed line reports its own text and number.",
  ["inputs"], "all valid descriptions of any number of lines and media sections",
  "Tests check counts or one field of a few hand-written sessions, at most three media sections, never the whole content of an arbitrary one.",
  [L, M], [("parse_sdp_vector, parse_session_vector", L), ("parse_media_vector", M), ("parse_origin, parse_connection, parse_bandwidth, parse_timing", L)],
  state=[("SdpSession", "the parsed description", L), ("SdpMedia", "one media section", M)],
  observe=["fields of SdpSession", "SdpMedia getters", "SdpLine"])
p("C04", "ICE and transport attributes mean what was written",
  "Every well-formed candidate, remote-candidates, ice-ufrag, ice-pwd, ice-options, ice-pacing, fingerprint, setup, dtls-message, rtcp, sctp-port, sctpmap and max-message-size attribute, in any spelling the grammar allows (extension order, letter case, repeated blanks), is accepted and yields exactly the values written. Printing it gives an attribute with the same values.",
  ["inputs"], "all values of these attributes and all their spellings",
  "One to five sample lines per attribute; optional parts are not combined and boundary numbers not tried.",
  [A, D, W], [("parse_candidate and the other parse_* functions of these attributes", A), ("Display impls of the same attributes", A)],
  observe=["SdpAttribute value", "its to_string()"])
p("C05", "Codec attributes mean what was written",
  "Every well-formed rtpmap, fmtp, rtcp-fb, framerate, ptime and maxptime attribute is accepted and yields exactly the values written, with documented defaults for what is absent and unknown fmtp parameters kept. Printing it gives an attribute with the same values. Feedback types keep the numbers foreign code knows them by (ack 0, ccm 2, nack 3, trr-int 4, goog-remb 5, transport-cc 6).",
  ["inputs"], "all values of these attributes: every subset and order of fmtp parameters, all feedback types and parameters",
  "fmtp alone has 22 parameters in any order and letter case; tests try about twenty lines.",
  [A], [("parse_rtpmap, parse_fmtp, parse_rtcp_fb, parse_framerate", A), ("Display impls of SdpAttributeFmtpParameters, SdpAttributeRtpmap, SdpAttributeRtcpFb", A)],
  observe=["SdpAttribute value", "its to_string()"])
p("C06", "Simulcast, rid and imageattr mean what was written",
  "Every well-formed rid, simulcast and imageattr attribute is accepted and yields exactly the identifiers, directions, alternatives, paused marks, formats, restrictions, dependencies, sizes, ranges and ratios written, for the direction they were written for. Printing it gives an attribute with the same values. Directions keep the numbers foreign code knows them by (1 send, 2 recv).",
  ["inputs"], "all values of these three attributes, with both direction orders and any number of alternatives, versions, sets and parameters",
  "A few sample lines per attribute; the nested lists multiply.",
  [A], [("parse_rid, parse_simulcast, parse_image_attr and helpers", A), ("Display impls of the same", A)],
  observe=["SdpAttribute value", "its to_string()"])
p("C07", "Identification, grouping and flag attributes mean what was written",
  "Every well-formed ssrc, ssrc-group, group, msid, msid-semantic, mid, label, identity and extmap attribute and every flag attribute is accepted and yields exactly the values written. Printing it gives an attribute with the same values, and its kind is reported consistently by name and by type.",
  ["inputs"], "all values and spellings of these attributes",
  "One or two sample lines per attribute.",
  [A], [("parse_ssrc, parse_ssrc_group, parse_group, parse_msid, parse_msid_semantic, parse_extmap", A), ("From<&SdpAttribute> for SdpAttributeType and its Display", A)],
  observe=["SdpAttribute value", "its to_string()", "SdpAttributeType"])
p("C08", "Strict mode only turns warnings into errors",
  "For every text, parsing with warnings fatal succeeds exactly when lenient parsing succeeds with no warning, and then gives the same session. When lenient parsing gives warnings, strict parsing fails with the first of them; when it reports a fatal error and there is no unsupported line, strict parsing reports the same error.",
  ["inputs"], "all texts, valid, mutated or arbitrary",
  "Tests call one mode or the other on a few texts; they never compare the two.",
  [L], [("fail_on_warning handling in parse_sdp", L)], observe=["parse_sdp(text, true) against parse_sdp(text, false)"])
p("C09", "Unsupported lines are reported exactly and touch nothing else",
  "In lenient mode, each line with an unsupported attribute, media type, protocol or parameter gives exactly one warning, in line order, with that line's text and number. The session is otherwise the one obtained from the same text without those lines.",
  ["inputs"], "all valid descriptions with any number of unsupported lines at any positions",
  "Tests check that a warning count is non-zero for one or two samples.",
  [L, A, M], [("Unsupported mapping in parse_sdp_line, warnings list in parse_sdp", L)],
  observe=["SdpSession.warnings", "session with and without the lines"])
p("C10", "Errors point at the line they are about",
  "When one line of a valid description is broken, parsing fails with an error that carries the text and the zero-based number of exactly that line; a line not allowed at its place is reported with its number. In general every line error and warning quotes a line that stands in the input at the number given.",
  ["inputs"], "all descriptions with one faulty line (any kind of fault, any position, blank lines in between), and all texts for the general part",
  "Tests check that some error comes back, almost never which line it names.",
  [L, M, E], [("line numbering in parse_sdp", L), ("SdpParserError::Sequence construction", "src/lib.rs, src/media_type.rs")],
  observe=["SdpParserError fields"])
p("C11", "Presentation does not change meaning",
  "Line endings (LF or CRLF), a missing final line ending, blank lines, blanks around a line, around its type letter or value, and the letter case of type letters, attribute names and other case-insensitive words never change the outcome: the same session, the same warnings or the same error, up to line numbers and quoted text.",
  ["inputs"], "all pairs of texts that differ only in such presentation",
  "Tests use one spelling per line.",
  [L, A, M], [("trimming and lower-casing in parse_sdp_line and SdpAttribute::from_str", "src/lib.rs, src/attribute_type.rs")],
  observe=["parse_sdp of both texts"])
p("C12", "Section levels and line order are enforced",
  "A description is accepted only if it starts with version, origin and session name in that order, holds none of these again, and holds timing only before the first media line and at most one connection per media section. An attribute reserved to the media level is rejected in the session part, one reserved to the session level is rejected in a media section (a media-level dtls-message is ignored), and both parsing and the editing interface agree.",
  ["inputs"], "all attributes at both levels, all reorderings, removals and duplications of lines",
  "Tests sample a few attributes and a few wrong orders out of 43 attributes times two levels and all permutations.",
  [L, M, A], [("allowed_at_session_level, allowed_at_media_level", A), ("parse_sdp_vector, parse_session_vector", L), ("parse_media_vector", M)],
  observe=["result of parse_sdp", "result of add_attribute"])
p("C13", "Accepted descriptions are consistent across their lines",
  "A description whose lines are all fine is accepted exactly when it has timing; has a connection for the session or for every media section; does not define extmap at both levels; has rtcp-mux wherever rtcp-mux-only is; and uses, in each media section, only rid formats that its media line lists and simulcast identifiers that a rid of the same section and direction declares.",
  ["inputs"], "all combinations of present and absent lines over any number of media sections, identifiers and formats",
  "Tests have one or two samples per rule, with one media section.",
  [L], [("sanity_check_sdp_session", L)], observe=["result of parse_sdp"])
p("C14", "Malformed or out-of-range values are rejected, never altered",
  "A line whose number is out of its documented range, not a number, or too large, or that lacks a mandatory part or uses a word outside a closed set, is rejected with a fatal error (or reported as unsupported where the set is open), never accepted with a truncated, wrapped or default value (one documented exception: an invalid list of telephone events is read as the default 0-15). The boundary values themselves are accepted.",
  ["inputs"], "all numeric and enumerated fields of all line types, on both sides of every bound",
  "Tests try one bad value for some fields.",
  [L, A, M, D, W], [("numeric parsing and range checks of every parse_* function", "src/lib.rs, src/attribute_type.rs, src/media_type.rs")],
  observe=["result of parse_sdp_line / parse_sdp"])
p("C15", "Addresses keep their type and value",
  "Wherever an address may stand, every IPv4 or IPv6 literal yields that address and every valid host name yields that name in lower case; an address literal whose family contradicts the declared type is always rejected. Names compare without regard to case and families never mix, and printing gives an equal address of the same type. The number of an address type is its IP version.",
  ["inputs"], "all IPv4 and IPv6 addresses in all textual forms, all host names, both declared types, all places where an address may stand",
  "About ten fixed addresses are tested.",
  [D, W, L, A], [("Address::from_str, ExplicitlyTypedAddress::try_from, PartialEq impls", D), ("parse_network_type, parse_address_type", W)],
  observe=["Address, ExplicitlyTypedAddress", "origin, connection, candidate, remote-candidates, rtcp"])
p("C16", "A fingerprint is accepted only complete and exact",
  "A fingerprint is accepted only when it has exactly the number of bytes of its hash, each written as two hexadecimal digits and separated by colons, and then yields exactly those bytes; anything else is rejected and an unknown hash is reported as unsupported. Every way to build a fingerprint applies the same rule, and printing reproduces all bytes.",
  ["inputs"], "all hash names, all byte values, all lengths and all malformed digit strings",
  "Tests have one good sample per hash and a few bad ones.",
  [A], [("SdpAttributeFingerprintHashType::parse_octets, try_from_name, TryFrom<(hash, bytes)>", A)],
  observe=["SdpAttribute::Fingerprint", "TryFrom result"])
p("C17", "Anonymisation is a stable one-to-one mapping",
  "Throughout the life of an anonymiser, whatever the sequence of calls, the same value of a kind always gets the same replacement and different values of that kind always get different replacements of the same kind (address family included). Replacements of one kind do not depend on calls for other kinds.",
  ["histories"], "all sequences of masking calls of any length over all kinds of values, including hundreds to tens of thousands of distinct values",
  "Tests mask two or three values of each kind.",
  [N], [("StatefulSdpAnonymizer maps and counters", N), ("AnonymizationStrMap::mask", N), ("u64::to_byte_vec", N)],
  state=[("StatefulSdpAnonymizer", "the mapping so far", N)], observe=["mask_* return values"])
p("C18", "An anonymised copy leaks no identity and keeps the rest",
  "The anonymised copy of a session contains, at session level and in every media section, none of the original origin user, IP addresses, host names, candidate ports, ICE credentials, certificate fingerprints or cnames, each being replaced by what the anonymiser gives for it. Everything else is unchanged: same lines, same order, same other values; the original is untouched and repeated copies with one anonymiser are identical.",
  ["inputs", "histories"], "all sessions that can be parsed, and sequences of sessions masked with one anonymiser",
  "One session is masked in one test, and its media are masked through another path than the session.",
  [N, L, M, A], [("AnonymizingClone impls", "src/lib.rs, src/media_type.rs, src/attribute_type.rs")],
  observe=["masked_clone() of sessions, media sections and attributes, compared field by field"])
p("C19", "The media editing interface behaves like a plain list model",
  "After any sequence of editing calls on a media section or session (add, set, remove or look up attributes, codecs, bandwidth, connection, port, data channel, media), every getter shows what a simple list model of the documented meaning shows, and a call that fails to add leaves other attributes as they were. In particular set leaves exactly one attribute of its kind, remove leaves none, and removing codecs removes all formats and codec attributes and nothing else.",
  ["histories"], "all sequences of editing calls with arbitrary arguments",
  "Tests make one or two calls each on an empty section.",
  [M, L], [("SdpMedia methods", M), ("SdpSession::add_attribute, add_media, extend_media, get_attribute", L)],
  state=[("SdpMedia", "media line, connection, bandwidths, attributes", M)], observe=["getters after every call", "to_string()"])
p("C20", "A session built through the interface can be sent",
  "A session assembled with the public constructors and editing calls, out of valid parts and satisfying the cross-line rules, prints to a text that is accepted with warnings fatal and gives the same session back.",
  ["histories"], "all sequences of constructor and editing calls with valid parts",
  "Tests build a session once or twice and never parse it back.",
  [L, M, A], [("SdpSession::new, add_media, set_*; Display impls", "src/lib.rs, src/media_type.rs")],
  observe=["to_string() then parse_sdp"])
p("C21", "Media lines mean what was written",
  "Every well-formed media line yields exactly its media type, port, port count, protocol and format list in order; audio and video formats are accepted exactly when they are numbers that RTP/AVP allows to be assigned (not 1, 2, 19, 64 to 95 or above 127), and application formats are kept as text. Ports above 65535 are rejected and unknown media types or protocols are reported as unsupported.",
  ["inputs"], "all media types, protocols, ports, counts and format lists, in any letter case",
  "Tests try a few lines; the 128 format numbers and 11 protocols are not enumerated.",
  [M], [("parse_media, parse_media_token, parse_protocol_token", M)], observe=["SdpMedia getters", "to_string()"])
p("C22", "Work grows in proportion to the input",
  "The memory requested and the work done to parse, print and anonymise a description grow at most in proportion to its size when any one kind of element (lines, media sections, formats, attributes of a kind, list elements within an attribute, long tokens) is repeated, or several kinds together (rids, their formats and simulcast streams of one section set aside), so that a long input cannot exhaust the receiver.",
  ["inputs"], "descriptions with any one element repeated up to thousands of times",
  "No test has a large input or measures anything.",
  [L, A, M, N], [("line loops in parse_sdp_vector, parse_session_vector, parse_media_vector", "src/lib.rs, src/media_type.rs"), ("token loops of the attribute parsers and Display impls", A)],
  observe=["bytes requested from the allocator", "instructions executed"])
p("C23", "Reports are faithful: JSON and error values",
  "The JSON form of any session, line or attribute contains the same values as the value itself, and the JSON form of any error names its kind, message, line text and line number as the error does. Every error's message names the cause and the quoted line, and its chain of causes leads to the underlying number, address or domain error when there is one.",
  ["inputs"], "all sessions that can be parsed and all errors that can be produced",
  "Tests serialise three hand-made errors and no session.",
  [E, L, A, M, D], [("Serialize for SdpParserError", E), ("derive(Serialize) on all types", "src/*.rs"), ("Error::source impls", E)],
  observe=["serde_json::to_value", "Display and source() of errors"])
p("C24", "Optional features do not change behaviour",
  "Whatever combination of optional features the crate is built with, every text is accepted or rejected alike and gives the same session, warnings, error positions, printed form and anonymised form.",
  ["configurations", "inputs"], "all feature combinations, for all texts",
  "The tests run in one configuration at a time and are not compared across configurations.",
  ["Cargo.toml", L, A, M, E], [("cfg_attr(feature = ...) attributes", "src/*.rs")], observe=["parse_sdp and Display in each configuration"])

p("C25", "Outcomes depend on nothing but the arguments",
  "What comes of parsing a text, and of printing, masking, debug-printing or serialising the result, is the same whatever was parsed or masked before, however often, and whatever other threads parse at the same time. Editing or masking a copy leaves the original as it was, sessions that are held do not change, and anonymisers do not influence one another.",
  ["histories", "schedules", "inputs"], "all histories of calls before and all calls in other threads meanwhile, for all texts",
  "Every test parses its own few texts once, in a thread of its own; state that is carried from call to call, between threads or between anonymisers shows only in histories.",
  [L, A, D, N], [("no static, thread-local or shared state in parse_sdp and what it calls", "src/*.rs"), ("StatefulSdpAnonymizer owns its maps and counters", N), ("Clone of SdpSession", L)],
  observe=["outcome of the same call at several points of a history and in several threads", "outcome in a fresh process"])

p("C26", "An anonymised copy is still a description",
  "The anonymised copy of any accepted session, printed, is accepted again with warnings fatal, gives the anonymised values back and prints to the same text again; so does an anonymised copy of that. The same holds for an anonymised attribute, origin or connection by itself. It holds for fresh and for used anonymisers (of fewer than 65536 ports). Certificate fingerprints are set aside: their replacements are shorter than any hash and are not meant to be read back.",
  ["inputs", "histories"], "all accepted descriptions, all anonymisers fresh or used",
  "The test masks one session and looks at its fields; it never reads the masked copy back.",
  [N, L, M, A], [("replacements made by StatefulSdpAnonymizer", N), ("AnonymizingClone and Display impls", "src/*.rs")],
  observe=["masked_clone().to_string() then parse_sdp with warnings fatal"])
p("C27", "All entry points read alike",
  "A value is read the same, or rejected for the same reason, by every public function that reads it: an attribute by parse_attribute, SdpAttribute::from_str, parse_sdp_line and parse_sdp; a media line by parse_media, parse_sdp_line and parse_sdp; an address by Address::from_str, parse_unicast_address, ExplicitlyTypedAddress::try_from and every line an address stands in. A description is read as its lines are one by one, put together with SdpSession::new, parse_session_vector and parse_media_vector: same session, same warnings in the same order, or the same error.",
  ["inputs"], "all texts, valid, mutated or arbitrary, given to each of the entry points",
  "Tests of one entry point use other samples than those of another, and their outcomes are never compared.",
  [L, A, M, D, W], [("parse_sdp, parse_sdp_line, parse_session_vector", L), ("parse_attribute, SdpAttribute::from_str", A), ("parse_media, parse_media_vector", M), ("FromStr and TryFrom of addresses", D), ("parse_unicast_address", W)],
  observe=["values and errors of all entry points on the same text"])
p("C28", "Sections and lines are read by themselves",
  "A media section is accepted and read, and printed, and its unsupported lines reported, the same whatever other media sections the description holds: several sections together are accepted exactly when each is accepted alone with the same session part, and give the media of each in order; what is reported when they are rejected is what is reported for one of them alone. Likewise removing or repeating an attribute or bandwidth line, or exchanging two of a section, changes that entry and nothing else (a line others need, rid or rtcp-mux, may not be removable).",
  ["inputs"], "all session parts, all lists of media sections, valid or not, and all lines of accepted descriptions",
  "Tests look at each sample text alone; no two outcomes are related.",
  [L, M, A], [("parse_media_vector", M), ("parse_sdp_vector, parse_session_vector, sanity_check_sdp_session", L), ("Display of SdpSession and SdpMedia", "src/lib.rs, src/media_type.rs")],
  observe=["parse_sdp of the parts and of the whole", "to_string()"])

p("C29", "Other receivers can read what is printed",
  "The printed form of every session (parsed, built or masked) and of every part consists of lines `x=value` ended by CRLF, v, o and s first, a section's attributes after its other lines (the order of t, b and c among themselves set aside), with attribute names and words in the spelling of their RFC, single blanks between words, nothing before the first or behind the last, and plain decimal numbers: a strict reader, which knows only the grammars and none of this crate's leniencies, gets from it the values the session holds.",
  ["inputs"], "all sessions that parsing accepts, that can be built or that come from masking, and all parts",
  "Tests compare printed text with a few literals or read it back with the same lenient parser; an error on both sides, or one that the parser forgives, goes unnoticed.",
  [L, M, A, "src/address.rs", "src/network.rs"], [("Display of SdpSession, SdpOrigin, SdpConnection, SdpBandwidth", L), ("Display of SdpMedia", M), ("Display of SdpAttribute and its parts", A)],
  observe=["to_string() of sessions, media and attributes"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")

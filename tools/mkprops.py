#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the wording)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},
              "why_tests_cant":why,"anchors":a})
PK="include/frnetlib/Packet.h"
p("C01","Packet values round-trip exactly in order",
  "Whatever sequence of supported values (bools, signed and unsigned integers of every width, floats, doubles, enums, strings, C strings, pairs, vectors, maps, unordered maps, raw bytes) is written into a packet, reading the same types back in the same order yields exactly the same values and leaves no byte over. The encoding is canonical: integers and floating-point values in network byte order at their natural width, strings and containers preceded by a 32-bit big-endian length, so it does not depend on the writing host or on what the packet held before.",
  ["inputs"],"all values of all supported types and all sequences of them, with any bytes already in the packet",
  "The tests write and read back a handful of literal values per type; the guarantee is over every value and every concatenation of values.",
  [PK,"include/frnetlib/NetworkEncoding.h","include/frnetlib/Packetable.h"],
  [("insertion operators","Packet.h operator<<"),("extraction operators","Packet.h operator>>"),("byte-order conversion","NetworkEncoding.h htonf/ntohf/htond/ntohd, fr_htonll")],
  [("buffer","serialised bytes behind a four byte header","Packet.h buffer")],["values read back from a packet"])
p("C02","Packet extraction never reads past the data",
  "Extracting any value from a packet either consumes exactly that value's encoded bytes from the unread data, or throws an out-of-range error when fewer bytes remain than the value needs; no bytes outside the packet's data are ever read, whatever the packet contains and however large the requested or encoded length. A failed extraction of a fixed-size value, string or raw block leaves the read position where the failing item's data would have begun or earlier, never beyond the end of the data.",
  ["inputs"],"all packet contents (including hostile lengths received from a peer), all read positions, all requested sizes up to the largest representable",
  "A few short-buffer cases are tested; an overflow in the bounds arithmetic or a missing check on one type shows only for particular sizes.",
  [PK],[("remaining-bytes check","Packet.h assert_bytes_remaining"),("extraction operators","Packet.h operator>>, extract_raw")],
  [("buffer_read_index","read position, between header length and buffer size","Packet.h")],["thrown std::out_of_range; values read"])
p("C03","Packet cursor stays inside the data",
  "Setting the read position to an offset moves it to that offset of the data or, if that is beyond the end, to the end; moving it by a signed distance moves by exactly that distance clamped to the start and the end of the data. The reported position plus the reported number of remaining bytes always equals the reported size, for every requested offset or distance up to the largest representable, and clearing the packet or replacing its contents leaves a valid position.",
  ["inputs","histories"],"all packet sizes, all current positions, all 64-bit offsets and distances, and all sequences of these operations",
  "Tests sample a few small offsets; clamping arithmetic fails only near the extremes or after particular histories.",
  [PK],[("absolute positioning","Packet.h set_cursor"),("relative positioning","Packet.h seek_cursor"),("size queries","Packet.h get_cursor, get_bytes_remaining, size"),("content replacement","Packet.h set_buffer, clear")],
  [("buffer_read_index","read position","Packet.h")],["get_cursor/get_bytes_remaining/size"])
p("C04","Packet framing over a stream is exact",
  "Sending a packet puts on the stream exactly a 32-bit big-endian length followed by exactly that many data bytes, each byte once and in order, however the transport splits, delays or would-block the writes; success is reported only when all of it was written. Receiving a packet consumes exactly one such message and leaves the packet holding exactly that message's data, readable from the start, whatever the packet held before, however the transport splits the bytes.",
  ["inputs","schedules","histories"],"all packet contents, all previous contents of the receiving packet, all ways the transport may fragment or would-block reads and writes",
  "Tests exchange a few packets over loopback, where fragmentation and partial writes do not occur and packets are fresh.",
  [PK,"src/Socket.cpp"],[("packet send loop","Packet.h send"),("packet receive","Packet.h receive"),("exact receive","Socket.cpp receive_all")],
  [("buffer","serialised bytes","Packet.h")],["bytes on the wire; contents of the received packet"])
p("C05","Receive size limit is enforced before the payload",
  "When a maximum receive size is set on a socket, receiving a packet or WebSocket frame whose announced payload length exceeds it returns the max-packet-size status, without reading any payload byte and without storage growing to the announced length; a payload of at most the limit is never rejected for its size. With no limit set no message is rejected for its size.",
  ["inputs","configurations"],"all limits and all announced lengths, in both frame length encodings",
  "No test sets the limit on frames; packet tests try one value. Off-by-one and order-of-check errors need exact lengths.",
  [PK,"src/WebFrame.cpp","include/frnetlib/Socket.h"],[("packet limit check","Packet.h receive"),("frame limit check","WebFrame.cpp receive"),("limit setting","Socket.h set_max_receive_size")],
  None,["returned status; bytes consumed from the stream"])
p("C06","TCP raw send and receive report exactly what happened",
  "A raw TCP send transmits the given bytes from the caller's progress counter onwards, each once and in order; the counter always equals the number of bytes accepted by the system, success means all were accepted, and a retry with the same counter continues where it stopped. A raw receive reports success with exactly the bytes the system delivered, disconnection on end of stream, and a zero count otherwise; interruption by a signal is retried, a timeout or no data is reported as timeout on a blocking and as would-block on a non-blocking socket, and any other failure as a send or receive error.",
  ["schedules","fault_sequences","inputs"],"all sequences of partial transfers, interruptions, would-blocks and errors returned by the operating system",
  "Loopback tests never see partial sends, EINTR or EWOULDBLOCK.",
  ["src/TcpSocket.cpp"],[("send loop","TcpSocket.cpp send_raw"),("receive loop","TcpSocket.cpp receive_raw")],
  [("is_blocking","mode used to classify would-block","TcpSocket.h")],["system call arguments, returned status and counters"])
p("C07","Receiving an exact amount is all or an error",
  "Asking a socket for an exact number of bytes succeeds only when exactly that many consecutive stream bytes were stored at the destination in order, and never reads more from the stream than asked. If the first read fails nothing is stored and its status is returned; after some bytes have arrived, would-block is retried and any other failure is reported as disconnection, never as success.",
  ["schedules","fault_sequences","inputs"],"all sizes, all fragmentations and all failure points of the underlying stream",
  "Loopback tests deliver everything in one piece.",
  ["src/Socket.cpp"],[("exact receive loop","Socket.cpp receive_all")],None,["status, destination buffer, bytes consumed"])
p("C08","HTTP parsing does not depend on how bytes arrive",
  "Feeding an HTTP request or response to the parser in any number of consecutive pieces gives the same final status and the same parsed contents (method, path, variables, headers, version, status code, body) as feeding the concatenation of those pieces in one call, as long as every earlier piece ended with more data being needed. No proper beginning of a message that the parser accepts as a whole is reported as an error.",
  ["inputs","schedules"],"all byte strings and all ways of cutting them into pieces",
  "Tests try a few fixed cut points of well-formed messages.",
  ["src/HttpRequest.cpp","src/HttpResponse.cpp","src/Http.cpp"],[("request parser","HttpRequest.cpp parse"),("response parser","HttpResponse.cpp parse")],
  [("body","bytes accumulated so far","Http.h"),("header_ended, content_length, chunk_offset","parser state carried between calls","HttpRequest.h, HttpResponse.h")],["status and getters after each call"])
p("C09","Hostile HTTP input cannot crash the parser",
  "For every byte string, fed in any pieces, parsing an HTTP request or response returns one of: success, more data needed, parse error, header too big, body too big; it never throws, never reads or writes outside its buffers and always terminates. A request whose first line lacks a supported method, a path or the protocol marker, a response whose first line lacks the protocol marker or a status code, and a message whose content length does not start with a number, are never reported as successfully parsed.",
  ["inputs"],"all byte strings in all fragmentations",
  "Tests feed a handful of messages; the hostile input space is unbounded.",
  ["src/HttpRequest.cpp","src/HttpResponse.cpp","src/Http.cpp"],[("request parser","HttpRequest.cpp"),("response parser","HttpResponse.cpp"),("line and argument splitting","Http.cpp")],
  None,["returned status, exceptions, memory accesses"])
p("C10","HTTP header and body size limits are enforced",
  "A request or response whose header section (up to the blank line) is larger than the configured maximum is rejected with the header-too-big status, and one whose buffered body exceeds the configured maximum with the body-too-big status; messages within both limits are never rejected for their size. The parser never asks for more data once a limit has been exceeded.",
  ["inputs"],"all header and body sizes around and beyond the limits, in all fragmentations",
  "Tests try one oversized message; boundary and fragmentation cases are not reached.",
  ["src/HttpRequest.cpp","src/HttpResponse.cpp"],[("limit checks","HttpRequest.cpp parse, HttpResponse.cpp parse")],None,["returned status"])
p("C11","HTTP messages are parsed to what they say",
  "For a well-formed message the parsed method, path, query variables, posted variables, header values, protocol version, status code and body are exactly those in the message: header and variable names match case-insensitively, the first of repeated headers and query variables wins, leading spaces of a value are dropped, a query or form is split at '&' and at the first '=' of each part, and the body is the bytes after the blank line. A header that is absent is reported absent.",
  ["inputs"],"all well-formed request and status lines, header sets, queries, posted forms and bodies",
  "Tests parse a few fixed messages.",
  ["src/HttpRequest.cpp","src/HttpResponse.cpp","src/Http.cpp"],[("request line","HttpRequest.cpp parse_header_type, parse_header_uri"),("status line","HttpResponse.cpp parse_header"),("header line","Http.cpp parse_header_line"),("argument list","Http.cpp parse_argument_list"),("line splitting","Http.cpp split_string")],None,["getters after parsing"])
p("C12","Constructed HTTP messages parse back to the same",
  "Constructing a request or response and parsing the resulting bytes yields the same method, path, query variables, version, status code and user-set headers and the same body or posted variables, provided names and values contain no separators. A constructed message with a body or posted variables announces its exact length exactly once (unless the caller set that header) and always names the host (requests) and connection, so that its end is detectable when it arrives in pieces.",
  ["inputs"],"all combinations of method, path, variables, headers, version, status and body",
  "Tests construct a few messages and compare parts.",
  ["src/HttpRequest.cpp","src/HttpResponse.cpp"],[("request construction","HttpRequest.cpp construct"),("response construction","HttpResponse.cpp construct")],None,["constructed bytes; parsed-back getters"])
p("C13","Chunked response bodies are decoded exactly",
  "A response with chunked transfer encoding is complete exactly when its zero-length chunk has arrived, and its body is then exactly the concatenation of the chunk contents, whatever the chunk sizes and bytes (including contents that look like chunk headers) and however it arrives in pieces. A chunk length that does not start with a hexadecimal digit or exceeds the body limit is reported as an error, never as success and never as an exception.",
  ["inputs","schedules"],"all lists of chunks, all chunk contents, all fragmentations, all malformed size fields",
  "Tests decode two or three fixed chunked bodies.",
  ["src/HttpResponse.cpp"],[("chunk loop","HttpResponse.cpp parse")],[("chunk_offset","end of the decoded prefix in the body","HttpResponse.h")],["status and body"])
p("C14","URL encoding and decoding are inverse and safe",
  "URL-encoding any byte string produces only unreserved characters, '+' for a space and percent-escapes with two hexadecimal digits for everything else, and decoding that result returns the original bytes. Decoding any string at all accepts upper- and lower-case hexadecimal digits, reads nothing outside the string, and leaves characters that are not part of an escape or '+' unchanged.",
  ["inputs"],"all byte strings",
  "Tests encode and decode one or two strings.",
  ["src/Http.cpp"],[("encoder","Http.cpp url_encode"),("decoder","Http.cpp url_decode")],None,["returned strings"])
p("C15","URLs are split into the right parts",
  "For a URL of the form [scheme://]host[:port][/path][?query][#fragment] each parsed component is exactly the corresponding part: known schemes are recognised regardless of case, an absent port defaults to the scheme's well-known one, an explicit port is returned as written, and absent parts are empty (a string with none of the delimiters is taken as a path). Parsing never fails or reads out of bounds for any string, and parsing into an object already used gives the same result as into a fresh one.",
  ["inputs","histories"],"all strings, in particular all combinations of present and absent parts, and all previously parsed URLs",
  "Tests cover a fixed list of URLs, with fresh objects.",
  ["src/URL.cpp","include/frnetlib/URL.h"],[("URL splitter","URL.cpp parse"),("scheme table","URL.cpp scheme_string_map")],None,["URL getters"])
p("C16","WebSocket frames follow RFC 6455 exactly",
  "Sending a frame writes exactly its RFC 6455 encoding: final bit, opcode, mask bit set only by clients, the shortest of the three length forms, a 4-byte key and masked payload for clients, the plain payload for servers; the frame object's own payload is unchanged, so it can be sent again. Receiving consumes exactly one frame and returns its final flag, opcode and unmasked payload for every length form, and rejects a frame whose masking is wrong for the direction with an error.",
  ["inputs","schedules"],"all payloads of all lengths, all opcodes and flags, all mask keys, all fragmentations of the stream",
  "There are no tests of frames at all.",
  ["src/WebFrame.cpp","include/frnetlib/WebFrame.h"],[("frame encoder","WebFrame.cpp send"),("frame decoder","WebFrame.cpp receive")],
  [("payload, opcode, final","frame contents","WebFrame.h")],["bytes on the wire; frame getters"])
p("C17","WebSocket handshake accepts only a valid upgrade",
  "A client connection attempt reports success only if the peer answered with status 101 and an accept value equal to the base64 of the SHA-1 of the sent key followed by the protocol's GUID; any other well-formed answer reports a handshake failure and leaves the socket disconnected, and a missing or malformed answer an error. A server answers an upgrade request with status 101 and exactly that accept value for the key it received, and rejects by exception a request that is not a GET asking for a websocket upgrade, without answering it.",
  ["inputs"],"all peer responses and requests, including adversarial ones",
  "There are no handshake tests.",
  ["include/frnetlib/WebSocket.h"],[("client handshake","WebSocket.h connect"),("server handshake","WebSocket.h set_descriptor")],None,["returned status, thrown exception, bytes sent"])
p("C18","Base64 encoding is RFC 4648",
  "For every byte string the Base64 encoder returns exactly the RFC 4648 standard-alphabet encoding with padding, including for empty, one-byte and two-byte remainders and for bytes above 127. It reads nothing outside the input.",
  ["inputs"],"all byte strings of all lengths",
  "There are no Base64 tests.",
  ["src/Base64.cpp"],[("encoder","Base64.cpp encode")],None,["returned string"])
p("C19","SHA-1 digests are correct for every message",
  "The SHA-1 function returns the 20-byte FIPS 180 digest of its input for every byte string of every length, including lengths around the 55, 56, 63 and 64 byte padding boundaries and inputs containing zero bytes. Hashing a message leaves no state that affects later digests.",
  ["inputs","histories"],"all byte strings of all lengths (up to 2^61 bytes)",
  "There are no SHA-1 tests.",
  ["src/Sha1.cpp","include/frnetlib/Sha1.h"],[("compression function","Sha1.cpp transform"),("padding and finalisation","Sha1.cpp final")],None,["returned digest"])
p("C20","Socket selector tracks exactly the added sockets",
  "After any sequence of additions and removals the sockets watched by the selector are exactly those added and not removed: adding an unconnected or already added socket is refused and changes nothing, a failed addition changes nothing, and removal returns the opaque value given at addition (null if not watched) and stops the watching. Waiting returns, for each ready socket reported by the system, that socket with its own opaque value, and an empty result when interrupted.",
  ["histories","fault_sequences"],"all sequences of add, remove and wait, over all sockets, with every system call possibly failing, including sockets closed while watched",
  "No tests of the selector.",
  ["src/SocketSelector.cpp","include/frnetlib/SocketSelector.h"],[("registration","SocketSelector.cpp add/remove"),("event translation","SocketSelector.cpp wait")],
  [("added_sockets","socket to opaque registration table","SocketSelector.h")],["epoll_ctl calls; returned pairs"])
p("C21","TCP descriptors are neither leaked nor closed twice",
  "Every system descriptor obtained by connecting, accepting or listening on a TCP socket or listener is closed exactly once: when the object is closed, reused for another attempt or destroyed, or before a failed attempt returns. After a failed connect or listen the object reports itself as not connected, and after success as connected with the open descriptor.",
  ["fault_sequences","histories","schedules"],"all failure combinations of the socket system calls over all resolved addresses, and all sequences of operations on the object",
  "Tests do not inject system-call failures and cannot observe leaked descriptors.",
  ["src/TcpSocket.cpp","src/TcpListener.cpp"],[("connect loop","TcpSocket.cpp connect"),("listen loop","TcpListener.cpp listen"),("close","close_socket in both")],
  [("socket_descriptor","owned descriptor or -1","TcpSocket.h, TcpListener.h")],["socket/close system calls; connected()"])
p("C22","TCP blocking mode and timeouts reach the system socket",
  "After a successful change of a TCP socket's blocking mode the system socket is in exactly that mode and the reported mode agrees; on failure the reported mode is unchanged, and a new connection starts in blocking mode as reported. Configured send and receive timeouts are applied to the system socket with the exact requested duration whenever they are set on a connected socket or a socket becomes connected.",
  ["inputs","histories","configurations"],"all sequences of mode changes, timeout changes (all 32-bit millisecond values) and connections",
  "Tests do not inspect socket options.",
  ["src/TcpSocket.cpp","include/frnetlib/Socket.h","include/frnetlib/NetworkEncoding.h"],[("mode switch","TcpSocket.cpp set_blocking, NetworkEncoding.h set_unix_socket_blocking"),("option application","TcpSocket.cpp reconfigure_socket")],
  [("is_blocking","reported mode","TcpSocket.h"),("socket_read_timeout, socket_write_timeout","configured timeouts","Socket.h")],["fcntl and setsockopt calls"])
p("C23","TLS connect succeeds only after verification",
  "Unless certificate verification was explicitly turned off, a TLS client connection reports success only after the handshake completed with peer verification required against the configured authorities, for the host name that was asked for, and with a clean verification result. Any setup, handshake or verification failure yields a failure status, whatever the order in which the failures occur.",
  ["fault_sequences","configurations"],"all results the TLS library and the system may return at each step",
  "No TLS tests exist; fault combinations cannot be provoked by tests.",
  ["src/SSLSocket.cpp"],[("TLS connection","SSLSocket.cpp connect")],[("should_verify","verification switch","SSLSocket.h")],["TLS library calls; returned status"])
p("C24","TLS raw send and receive report exactly what happened",
  "A raw TLS send transmits the given bytes from the caller's progress counter onwards, each once and in order, so that retrying after would-block never repeats or loses a byte; success means everything was accepted. A raw receive reports success with exactly the bytes delivered, disconnection at end of stream, timeout or would-block according to the blocking mode when no data is available, and an error otherwise.",
  ["schedules","fault_sequences","inputs"],"all sequences of partial transfers, would-blocks and errors returned by the TLS library",
  "No TLS tests exist.",
  ["src/SSLSocket.cpp"],[("TLS send loop","SSLSocket.cpp send_raw"),("TLS receive loop","SSLSocket.cpp receive_raw"),("mode switch","SSLSocket.cpp set_blocking")],None,["TLS library calls; status and counters"])
p("C25","Name lookups are total and consistent",
  "Every request method, transfer encoding and URL scheme has a name that converts back to it (scheme names in any case), a string that is not a name gives the unknown value (for methods: a string that does not begin with one, or begin one), and an unknown value never gives a valid name. Looking up a file type by name returns the listed type for a known extension and the generic binary type for everything else, for every string, and a lookup never changes the result of a later one.",
  ["inputs","histories"],"all enumerators, all strings, all sequences of lookups",
  "Tests sample a few names.",
  ["src/Http.cpp","include/frnetlib/Http.h","src/URL.cpp"],[("method names","Http.h request_type_to_string/string_to_request_type"),("scheme names","URL.cpp"),("file types","Http.cpp get_mimetype"),("transfer encodings","Http.h string_to_transfer_encoding")],None,["returned values"])
p("C26","Sockets used from several threads do not race",
  "Using distinct socket, packet, frame and HTTP objects from different threads is free of data races, and sending client frames from several threads produces correctly masked frames.",
  ["schedules"],"all interleavings",
  "No concurrent tests; data races are schedule dependent.",
  ["src/WebFrame.cpp","src/Http.cpp","src/SocketSelector.cpp"],[("shared mask counter","WebFrame.cpp current_mask_key"),("lazily built tables","Http.cpp get_mimetype")],None,["thread interleavings"])
p("C27","Blocked operations end when shut down or timed out",
  "A thread blocked in receive, accept or connect returns within the configured timeout, or promptly once the socket is shut down from another thread.",
  ["schedules"],"all schedules and network conditions",
  "Timing and scheduling cannot be enumerated by tests.",
  ["src/TcpSocket.cpp","src/TcpListener.cpp","src/Socket.cpp"],[("shutdown","Socket.cpp shutdown, TcpListener.cpp shutdown"),("connect timeout","TcpSocket.cpp connect")],None,["time until return"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")

#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 mkprops.py > properties.jsonl)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe, hook_needed=None)))

p("C01", "Decoding bencode never crashes",
  "For every sequence of bytes, decoding it as bencode - into a generic value, into torrent metainfo, or into a tracker response - returns either a value or an error. It never panics, never reads outside the input and never loops forever.",
  ["inputs"], "every input byte string",
  "The existing tests decode a dozen hand-written strings and two torrent files; none has an overflowing length, a non-dictionary top level or a mistyped field.",
  ["pkg/bencode/parse.go", "pkg/bencode/tag_parser.go", "gotit.go"],
  [("scanner bounds checks", "pkg/bencode/parse.go"), ("target/type checks before reflective assignment", "pkg/bencode/tag_parser.go")],
  ["bencode.Parse", "bencode.Unmarshal"])

p("C02", "Bencode decoding yields exactly the encoded value",
  "Every well-formed bencode document is accepted and decodes to exactly the value it denotes: every signed 64-bit integer, every byte string, lists in order, dictionaries key by key. A document that is malformed - truncated, missing terminator, string length running past the end, a number without digits, an integer or length that does not fit - is rejected with an error. (Refusing a document nested hundreds of levels deep is allowed; what becomes of leading zeros, \"-0\", unsorted or repeated keys and bytes behind the document is not specified.)",
  ["inputs"], "every input byte string, every integer value, every nesting",
  "The tests check single examples per kind; they contain no negative, huge or digitless number and no nested malformed element.",
  ["pkg/bencode/parse.go"],
  [("number accumulation with overflow check", "pkg/bencode/parse.go number"), ("string length check", "pkg/bencode/parse.go readString"), ("terminator checks", "pkg/bencode/parse.go readList/readDict/readInt")],
  ["bencode.Parse"])

p("C03", "Bencode encoding is canonical and round-trips",
  "Encoding any value and decoding the result gives back an equal value. The encoding of a value is always the same bytes: dictionary keys appear in ascending byte order, nil entries are left out, and the iteration order of maps never shows.",
  ["inputs", "schedules"], "every value tree, every map iteration order",
  "The encode tests compare one value with one literal and are flaky because they sample map order; tests never encode then decode.",
  ["pkg/bencode/elements.go", "pkg/bencode/parse.go"],
  [("Encode methods", "pkg/bencode/elements.go")],
  ["Encode()", "bencode.Parse"])

p("C04", "The info-hash is the SHA-1 of the exact info bytes",
  "For every metainfo file that decodes, the torrent's info-hash is the SHA-1 digest of exactly the bytes of the info dictionary as they stand in the file, wherever that dictionary is placed and whatever it contains. It never depends on bytes outside the info dictionary.",
  ["inputs"], "every metainfo file: any position and content of the info dictionary",
  "One test pins the hash of one torrent file.",
  ["pkg/bencode/parse.go", "pkg/bencode/tag_parser.go", "pkg/torrent/torrent.go"],
  [("raw span recorded by readDict", "pkg/bencode/parse.go"), ("InfoDictRaw field and Hash", "pkg/bencode/tag_parser.go")],
  ["Metainfo.InfoDictRaw", "Metainfo.Hash", "Torrent.Hash"])

p("C05", "Typed decoding fills every field with its own value",
  "Decoding into a tagged structure gives every field exactly the value stored in the document under that field's key, including nested structures, lists, maps and raw byte fields. A missing key is an error unless the field is optional, in which case the field keeps its previous value; a list or dictionary where a number or string is wanted, a number or string where a list or dictionary is wanted, and an integer outside the field's range are errors (whether a number and a string may stand for each other is not specified).",
  ["inputs"], "every value of every field, every subset of present keys, every integer width",
  "The tests decode one document with small values; range limits of the integer widths, missing keys and mismatched kinds are not covered except for one case.",
  ["pkg/bencode/tag_parser.go"],
  [("processTarget", "pkg/bencode/tag_parser.go"), ("setField", "pkg/bencode/tag_parser.go")],
  ["bencode.Unmarshal"])

p("C06", "Only consistent torrents are accepted",
  "A torrent is accepted only if its piece length is positive, no length is negative, every file has a path and the number of piece hashes equals the total length divided by the piece length, rounded up; then its total length is the sum of its file lengths, and piece i's expected hash is the i-th 20-byte group. Anything else is refused with an error, never a crash, and before any file is created (a torrent that names neither a length nor files is not specified).",
  ["inputs"], "every metainfo value: lengths, piece length, number and size of hash string, file list",
  "The tests build torrents by hand and never exercise the constructor with inconsistent metadata.",
  ["pkg/torrent/torrent.go", "pkg/torrent/piece.go"],
  [("validation in New", "pkg/torrent/torrent.go"), ("NewPieces", "pkg/torrent/piece.go")],
  ["torrent.New", "torrent.NewPieces"])

p("C07", "A torrent only creates files inside the download directory",
  "Whatever names and paths a torrent file contains, opening it creates or truncates files and directories only strictly inside the chosen download directory, under the torrent's own name; a torrent whose names would lead elsewhere is refused. Two different entries of the file list never share one file on disk.",
  ["inputs"], "every torrent name and every list of path components",
  "One test uses two plain file names.",
  ["pkg/torrent/torrent.go"],
  [("path validation in initDownloadDir", "pkg/torrent/torrent.go")],
  ["torrent.New", "files created on disk"])

p("C08", "Every received byte is stored at its place in the right file",
  "Storing a block for piece i at offset o puts every byte of it at torrent position i*pieceLength+o+k, which is the byte at that position in the concatenation of the torrent's files, and changes nothing else. A block reaching past the end of the torrent is refused, its piece not counted as downloaded, and never written outside the torrent's extent in any file.",
  ["inputs", "configurations"], "every list of file lengths (including empty files), piece length, piece index, offset and block length",
  "The tests cover four layouts with files of a few bytes.",
  ["pkg/torrent/torrent.go"],
  [("WritePiece position arithmetic", "pkg/torrent/torrent.go"), ("writePieceData file walk", "pkg/torrent/torrent.go")],
  ["Torrent.WritePiece", "file contents"])

p("C09", "Only data matching the published piece hash reaches the disk",
  "Data received from a peer is handed on for storing only if its SHA-1 equals the hash the torrent publishes for exactly the piece index and position it claims; anything else - wrong bytes, an index the torrent does not have, a wrong offset - is dropped without effect and without a crash.",
  ["inputs", "histories"], "every piece message from a remote peer: any index, offset and data",
  "Tests use a mocked checker or one fixed piece; no out-of-range index, no shifted offset.",
  ["pkg/peer/peer.go", "pkg/torrent/torrent.go", "pkg/torrent/piece.go"],
  [("CheckPiece", "pkg/torrent/torrent.go"), ("handlePieceMessage", "pkg/peer/peer.go")],
  ["write channel of a peer", "Torrent.CheckPiece"])

p("C10", "A torrent is complete exactly when every piece is stored",
  "After any sequence of stored blocks and write failures, a piece counts as downloaded only if the block ending it was written without error, including a shorter last piece, and the torrent reports completion exactly when all of its pieces count as downloaded. A piece, once downloaded, stays downloaded.",
  ["histories", "fault_sequences"], "every sequence of blocks with arbitrary indexes, offsets, sizes and disk errors",
  "Tests store one block of one piece and never fail a write or use a short last piece of a multi-piece torrent.",
  ["pkg/torrent/torrent.go"],
  [("SetDownloaded/Done", "pkg/torrent/torrent.go"), ("end-of-piece test in WritePiece", "pkg/torrent/torrent.go")],
  ["Torrent.Done", "Torrent.WritePiece"])

p("C11", "Each piece is handed out once, to a peer that has it",
  "Choosing the next piece for a peer returns a piece of the torrent that the peer has and that was not handed out before, marks it, and leaves all others unmarked; it reports that there is none only when every piece the peer has was already handed out. This holds for any number of peers choosing at the same time, in every interleaving.",
  ["inputs", "schedules"], "every set of handed-out pieces, every peer bitfield, every interleaving of concurrent choosers",
  "Tests call it from one goroutine with a handful of bitsets of at most 8 bits.",
  ["pkg/torrent/torrent.go"],
  [("requestedMu critical section in Next", "pkg/torrent/torrent.go")],
  ["Torrent.Next"])

p("C12", "Block requests tile each piece exactly",
  "For every piece it works on, a peer asks for blocks that start at offset 0, follow one another without gap or overlap, are each at most one block long, and end exactly at the end of that piece - the last piece of the torrent being shorter - before the next piece is begun. A failed request that is retried is repeated unchanged. (Piece lengths up to 4 GiB, what the protocol can express.)",
  ["inputs", "histories"], "every piece length, torrent length, piece index and sequence of requests",
  "Tests use piece lengths that are exact multiples of the block size and look at one or two requests.",
  ["pkg/peer/peer.go", "pkg/torrent/torrent.go"],
  [("createPieceMessage/nextRequestMessage", "pkg/peer/peer.go")],
  ["requests written to the peer connection"])

p("C13", "Failed requests are retried, never lost or duplicated",
  "Every block request that failed is handed out again for retry exactly once, to exactly one peer, unchanged, and nothing that was not reported as failed is ever handed out; an empty queue says so. This holds for any number of peers failing and retrying at the same time, in every interleaving.",
  ["histories", "schedules"], "every sequence and interleaving of failures and retries",
  "Tests put one request in and take it out again, on one goroutine.",
  ["pkg/torrent/pieces_queue.go"],
  [("failedMu critical sections", "pkg/torrent/pieces_queue.go")],
  ["PiecesQueue.RequestFailed", "PiecesQueue.FailedPieceMessage"])

p("C14", "Peer messages have the BitTorrent wire layout",
  "Every message sent to a peer is a 4-byte big-endian length, the type byte and the payload the protocol defines: a request carries piece index, offset and block length in this order, a keep-alive is four zero bytes. Decoding the bytes of a sent message gives back the same type, index, offset, block length and data, for all values.",
  ["inputs"], "every index, offset, block length and message kind",
  "Tests send one message and compare lengths; no test looks at the bytes of a request.",
  ["pkg/util/peer_message.go", "pkg/gotitnet/connection.go"],
  [("Create*Message and Send", "pkg/util/peer_message.go")],
  ["PeerMessage.Send", "util.NewPeerMessage"])

p("C15", "Any peer message is handled safely and changes only what it should",
  "Whatever bytes a remote peer sends as a message, they are handled without a crash and without unbounded memory use. Choke, unchoke, interested, not interested and have each change exactly the state they name, a bitfield changes only the peer's piece set, and every malformed, unknown or out-of-range message changes nothing.",
  ["inputs", "histories"], "every message body, in every peer state",
  "Tests feed one well-formed message of each kind to a fresh peer.",
  ["pkg/util/peer_message.go", "pkg/peer/peer.go"],
  [("payload length checks in NewPeerMessage", "pkg/util/peer_message.go"), ("handlePeerMessage", "pkg/peer/peer.go")],
  ["util.NewPeerMessage", "Peer state after a message"])

p("C16", "Message framing survives any segmentation of the stream",
  "Reading a message from a connection returns exactly the bytes of one length-prefixed message, however the stream is cut into segments, and consumes nothing of the next; a handshake is exactly 68 bytes. If the stream ends or fails anywhere inside a message, an error is returned and no partial message; reading after that goes on with the rest of that message or fails, and never takes bytes from the middle of a message for a new one. Also, a declared length beyond any legal message is refused rather than allocated.",
  ["inputs", "fault_sequences"], "every byte stream, every segmentation, an end of stream or error after every byte",
  "Tests use a pipe that delivers whole messages; no short read, error in the middle, or back-to-back messages.",
  ["pkg/gotitnet/connection.go"],
  [("readExactly/readPeerMessageSize", "pkg/gotitnet/connection.go")],
  ["TimeoutConn.ReadPeerMessage", "TimeoutConn.ReadPeerHandshake"])

p("C17", "Handshakes identify protocol, torrent and client",
  "A handshake sent for a torrent is 68 bytes: 19, the protocol string, eight reserved bytes, the torrent's info-hash and the 20-byte client id with its fixed prefix. A received handshake is accepted exactly when it is complete and carries the protocol string and this torrent's info-hash, whatever its reserved bytes and peer id; otherwise the connection attempt fails.",
  ["inputs"], "every info-hash, every received handshake of any length",
  "Tests check five specific corruptions.",
  ["pkg/peer/peer.go", "pkg/gotitnet/connection.go"],
  [("createHandshake/isHandshakeValid/Announce", "pkg/peer/peer.go")],
  ["Peer.Announce", "bytes on the connection"])

p("C18", "A peer session requests only when allowed and keeps going",
  "A peer session sends a block request only for a piece the peer has, after it declared interest and while the remote side does not choke it, and never has more than one request outstanding; after a received block it asks for the next one. A request that cannot be sent or is not answered, because of an error, a timeout or a choke, goes back to the retry queue exactly once, and the session ends as soon as it is cancelled, the torrent is complete or the connection is lost.",
  ["histories", "fault_sequences"], "every sequence of messages, read errors, write errors and cancellations",
  "No test runs a session at all.",
  ["pkg/peer/peer.go"],
  [("Run/unchoke loop", "pkg/peer/peer.go")],
  ["messages written to the peer connection", "retry queue"])

p("C19", "Transfer statistics are exact and displayable",
  "For every history of updates from any number of goroutines, the downloaded and uploaded totals are the sums of what was added, the amount left is the torrent size minus what was downloaded and never below zero, and peer and tracker counts are additions minus removals. The completed percentage is always between 0 and 100, is 100 when everything was downloaded, and printing progress never fails.",
  ["histories", "schedules", "inputs"], "every size, every sequence and interleaving of updates, including data downloaded twice",
  "There are no tests of the statistics.",
  ["pkg/stats/stats.go", "pkg/stats/progress_bar.go", "pkg/stats/progress_printer.go"],
  [("atomic counters", "pkg/stats/stats.go"), ("PercentCompleted/progressBar", "pkg/stats")],
  ["Stats getters", "ProgressPrinter.Print"])

p("C20", "The peer pool holds each address once and respects the limit",
  "However many trackers report peers at the same time, each address is in the pool and connected at most once, the pool never exceeds the configured maximum number of peers, and the displayed peer count equals the number of peers in the pool. A peer that cannot be reached, or whose connection is lost, leaves the pool and may be tried again later.",
  ["histories", "schedules"], "every list of reported addresses, every limit, every interleaving",
  "There are no tests of the download manager.",
  ["pkg/download/manager.go"],
  [("AddPeer under poolMu", "pkg/download/manager.go")],
  ["Manager.AddPeer", "Stats.PeerNum"])

p("C21", "A download shuts down cleanly at any moment",
  "Cancelling or stopping a download at any moment - before, during or after peers connect - never crashes, never deadlocks and leaves no peer writing after the pipeline is closed; every verified block handed on before the end is stored before the download returns. A download also returns by itself once every piece is stored, and no connection to a tracker stays open after it returned, nor one to a peer after stopping.",
  ["schedules", "histories"], "every interleaving of cancellation with tracker, peer and writer goroutines",
  "There are no tests of the download manager.",
  ["pkg/download/manager.go", "pkg/peer/peer.go"],
  [("Download/Stop ordering", "pkg/download/manager.go")],
  ["Manager.Download", "Manager.Stop"])

p("C22", "UDP tracker replies are believed only if they answer our request",
  "For every datagram a UDP tracker can return, an announce succeeds only if the reply to each step has the matching action and transaction id and is long enough; then its peers are exactly the 6-byte entries of the reply in order and the wait interval is the one it states, if positive. Every other reply, including an error reply and one of any length, makes the announce fail with an error and return no peers, without a crash. A late or repeated reply to an earlier request does not keep a later announce from its own reply.",
  ["inputs", "fault_sequences"], "every reply datagram to connect and to announce, of any length",
  "The tracker tests need DNS and do not announce.",
  ["pkg/tracker/udp_tracker.go", "pkg/tracker/http_tracker.go", "pkg/gotitnet/connection.go"],
  [("parseTrackerResponse/readConnect/readAnnounce/readError", "pkg/tracker/udp_tracker.go"), ("parseCompactPeers", "pkg/tracker/http_tracker.go")],
  ["Tracker.Announce for udp:// URLs"])

p("C23", "UDP announce requests follow BEP 15",
  "The datagrams sent to a UDP tracker are the 16-byte connect request and the 98-byte announce request of BEP 15: the connection id the tracker gave, a fresh transaction id, the torrent's 20-byte info-hash, our peer id, then downloaded, left and uploaded as given, one of the four event codes, an IP address of zero, and the listening port in two bytes, all big-endian at the specified offsets.",
  ["inputs"], "every connection id, info-hash, statistics and port",
  "No test looks at a datagram.",
  ["pkg/tracker/udp_tracker.go"],
  [("createAnnounce/handshake", "pkg/tracker/udp_tracker.go")],
  ["datagrams written to the tracker"])

p("C24", "HTTP tracker replies give exactly the peers they list",
  "For every HTTP status and body a tracker can return, an announce either fails with an error or returns exactly the usable peers listed in the body, in order, for both the compact and the dictionary form; entries whose address is not an IP address or whose port does not fit 16 bits are left out. A non-empty failure reason or a status of 400 or more is always an error, and the wait before the next announce is always positive.",
  ["inputs", "fault_sequences"], "every status code and response body",
  "The only announce test has its body commented out.",
  ["pkg/tracker/http_tracker.go", "pkg/tracker/tracker.go", "gotit.go"],
  [("readPeers/parseBencodePeers/parseCompactPeers", "pkg/tracker/http_tracker.go")],
  ["Tracker.Announce and WaitInterval for http:// URLs"])

p("C25", "HTTP announce requests carry exact data and keep the tracker URL",
  "An HTTP announce asks for the tracker's URL with its own query parameters kept, plus the info-hash, peer id, port, downloaded, uploaded and left values, each decoding on the server side to exactly the given value for all byte values and numbers.",
  ["inputs"], "every info-hash, statistics value, port and tracker URL with or without a query",
  "No test announces.",
  ["pkg/tracker/http_tracker.go"],
  [("buildQuery/Announce", "pkg/tracker/http_tracker.go")],
  ["HTTP request URL"])

p("C26", "Idle peer connections are kept alive",
  "During a session, whenever nothing was sent to the peer for two minutes a keep-alive goes out before anything else, and none is sent while the connection was used within the last minute and a half; a failing keep-alive ends the session.",
  ["inputs", "histories"], "every clock reading and every moment of the last transmission",
  "No test controls the clock.",
  ["pkg/peer/peer.go"],
  [("checkKeepAlive", "pkg/peer/peer.go")],
  ["messages written to the peer connection"])

p("C27", "Every network wait is bounded by a timeout",
  "Every read from and write to a peer or tracker connection is preceded, in the same operation, by setting that direction's deadline to the current time plus the connection's timeout; if the deadline cannot be set the operation fails without touching the connection. No operation returns success for data it did not fully read or hand over.",
  ["inputs", "fault_sequences"], "every operation, every timeout value and clock reading, failure of any underlying call",
  "Tests check that a deadline error is returned, not that the deadline is right or that it is set before every transfer.",
  ["pkg/gotitnet/connection.go"],
  [("setReadDeadline/setWriteDeadline", "pkg/gotitnet/connection.go")],
  ["calls on the underlying connection"])

p("C28", "All trackers of a torrent are used, each once",
  "The trackers contacted for a torrent are exactly the URLs in its announce, announce-list and url-list entries, each once however often it is listed; an http, https or udp URL gives a working tracker client of that kind and any other scheme an error, never a crash.",
  ["inputs"], "every combination of tracker lists and every URL scheme",
  "Tests try four URLs.",
  ["pkg/torrent/torrent.go", "pkg/util/set.go", "pkg/tracker/tracker.go", "pkg/download/manager.go"],
  [("announce set in New", "pkg/torrent/torrent.go"), ("tracker.New", "pkg/tracker/tracker.go")],
  ["Torrent.Trackers", "tracker.New"])

p("C29", "A peer's bitfield names exactly the pieces it has",
  "After a bitfield message a peer is taken to have exactly the pieces whose bits are set, the high bit of the first byte being piece 0, for bitfields of every length.",
  ["inputs"], "every bitfield payload",
  "The test of it sets one bit of one byte and pins the wrong piece number.",
  ["pkg/util/peer_message.go"],
  [("createBitset", "pkg/util/peer_message.go")],
  ["PeerMessage.Bitfield", "Peer.Bitset"])

p("C30", "A correct block is never refused",
  "A block that is exactly the published content of the torrent at its piece index and offset, of any requested size, is accepted, stored and counted.",
  ["inputs", "histories"], "every piece length and every block a peer may be asked for",
  "Tests accept single-block pieces only.",
  ["pkg/peer/peer.go", "pkg/torrent/torrent.go"],
  [("handlePieceMessage", "pkg/peer/peer.go"), ("CheckPiece", "pkg/torrent/torrent.go")],
  ["write channel of a peer"])

p("C31", "A download completes while a good peer is there",
  "Whatever other peers do - refuse, answer wrongly, stay silent, choke, stop answering or disconnect with requests outstanding - the download gets every piece and completes as long as the trackers keep reporting a reachable peer that has all pieces and serves them, and the pool has room for it. A tracker that failed, or could not be connected to, is asked again. A piece whose data fails its check or cannot be written is asked for again.",
  ["histories", "schedules", "fault_sequences"], "every combination of misbehaving peers, tracker answers and interleavings",
  "No test runs a download.",
  ["pkg/download/manager.go", "pkg/peer/peer.go", "pkg/torrent/pieces_queue.go"],
  [("retry queue shared by all peers", "pkg/download/manager.go"), ("session end on a lost connection", "pkg/peer/peer.go Run")],
  ["Manager.Download"])

p("C32", "The command line does what its options say, or refuses",
  "Every log level the help names (info, debug, trace, warning, error, silent) and every format (text, color, json) gives a logger that passes exactly the messages of that level and above (trace counts as debug, silent passes nothing); any other text gives an error and no logger, never both and never a crash. The download command runs with the level, port, number of peers, output directory and torrent file given, whatever the order and spelling of the options. With an unknown level or format, a missing configuration file, missing or superfluous arguments, an output that is no directory, or a torrent file that cannot be read or is malformed, the process ends with a nonzero status without having started a download or created anything; when the download itself fails the status is nonzero as well, else zero. The bencode command ends with status zero exactly when the file is readable and well formed.",
  ["inputs", "fault_sequences"], "every option text, every content of the torrent file, every combination of missing or broken inputs",
  "pkg/cmd and pkg/logger have no tests.",
  ["pkg/cmd/app.go", "pkg/cmd/download.go", "pkg/cmd/bencode.go", "pkg/logger/logger.go"],
  [("logger set-up", "pkg/cmd/app.go NewCmdRun"), ("level names", "pkg/logger/logger.go getZapLevel"), ("input checks before the download", "pkg/cmd/download.go runDownload")],
  ["main", "cmd.NewApp().Execute"])

p("C33", "Trackers are told the true state of the download",
  "Every announce a download makes, the first and every later one, to every kind of tracker, carries the torrent's own info-hash, the port the download was given, the bytes downloaded and uploaded so far - blocks stored since the start and everything added before - and as left the torrent's length minus the downloaded, never below zero.",
  ["inputs", "histories", "schedules"], "every count and torrent length; announces at every point of a download",
  "No test runs a download, and those of the trackers use fixed numbers.",
  ["pkg/download/manager.go", "pkg/stats/stats.go", "pkg/torrent/torrent.go"],
  [("announceToTracker", "pkg/download/manager.go"), ("counting of blocks", "pkg/torrent/torrent.go WritePiece")],
  ["Manager.Download", "Manager.UpdateStatus"])

p("C34", "Trackers are asked again at the pace they set",
  "After an announce that a tracker answered it is asked again when the interval it stated has passed, not earlier and at most seconds later. After an announce that failed at least a second passes before the next attempt. This holds for every tracker of the torrent by itself, whatever the others do.",
  ["inputs", "histories", "fault_sequences"], "every interval and every sequence of answers and failures of several trackers",
  "No test runs a download or waits for an interval.",
  ["pkg/download/manager.go", "pkg/tracker/tracker.go", "pkg/tracker/udp_tracker.go", "pkg/tracker/http_tracker.go"],
  [("runTracker", "pkg/download/manager.go"), ("WaitInterval", "pkg/tracker/tracker.go")],
  ["Manager.Download"])

import sys
for x in P: print(json.dumps(x))

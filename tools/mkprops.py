#!/usr/bin/env python3
"""Writes properties.jsonl (kept here in a readable form)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

MAN, PEER, TOR, NET = "pkg/download/manager.go", "pkg/peer/peer.go", "pkg/torrent/torrent.go", "pkg/gotitnet/connection.go"
HTTP, UDP, TRK, BEN, MSG, STAT, CMD = ("pkg/tracker/http_tracker.go", "pkg/tracker/udp_tracker.go", "pkg/tracker/tracker.go",
    "pkg/bencode/parse.go", "pkg/util/peer_message.go", "pkg/stats/stats.go", "pkg/cmd/download.go")

prop("C01", "Only verified content is ever written to the output files",
 "Whatever any set of peers sends, in whatever order and timing, every byte the client writes to an output file is the byte the torrent's content has at that position of that file. Data that does not belong to a piece whose SHA-1 matches the torrent is never written, and nothing is written outside the length of a file.",
 ["inputs", "schedules", "fault_sequences", "histories"],
 "every swarm of honest and corrupting peers (flipped bits, swapped blocks, wrong index/offset/length, unrequested or duplicated blocks), every interleaving of their messages, every disk fault, and at every instant of the download, not only its end",
 "The unit tests hand single well-formed messages to one handler with a mocked checker; none assembles a piece from several blocks, mixes peers, or looks at the disk while a download runs.",
 [PEER, TOR, MSG], [("hash of the assembled piece is compared before it is queued for writing", PEER+":handlePieceMessage"), ("CheckPiece", TOR), ("writePieceData maps torrent offsets to files", TOR)],
 ["contents of the output files after every write", "writes issued to the file system"])

prop("C02", "A download reported as complete is complete on disk",
 "A download is reported as successful only after every file of the torrent exists in the output directory with exactly the length and bytes the torrent describes. A download that was cancelled or stopped before that is reported as an error, never as a success.",
 ["schedules", "fault_sequences", "inputs", "configurations"],
 "every torrent layout (single file, many files, empty files, files sharing a piece, short last piece), every schedule of peers and writer, every disk error and every moment of cancellation relative to the last pieces",
 "No existing test runs a download; the writer is only tested alone on a closed channel, so the race between the last write, completion and cancellation is never exercised.",
 [MAN, TOR, CMD], [("Download waits for the writer before it returns", MAN+":Download"), ("a piece counts as downloaded only after it is written", TOR+":WritePiece")],
 ["return value of the download", "file tree of the output directory at that instant"])

prop("C03", "A download completes once faults stop",
 "If every piece is available from well-behaved reachable peers that a reachable tracker returns and that fit in the connection limit, then after the last transient fault (lost connections, refused or hanging connection attempts, choking, partitions, tracker outages, disk write errors) the download completes within a bounded time of a few announce intervals. No sequence of transient faults leaves the client stuck.",
 ["schedules", "fault_sequences", "histories"],
 "every sequence of transient faults that ends, every distribution of pieces over peers and every schedule",
 "Liveness over fault sequences needs the whole client, a swarm, a tracker and hours of virtual time; the tests stop at single function calls.",
 [MAN, PEER, TOR, TRK], [("piece is released when its peer fails", PEER+":releasePiece"), ("ended peers leave the pool and are dialled again on the next announce", MAN+":removePeer"), ("failed write releases the piece", TOR+":WritePiece"), ("trackers are announced to periodically", MAN+":runTracker")],
 ["return of the download in virtual time"])

prop("C04", "Cancelling or stopping ends the download promptly and cleanly",
 "Cancelling the context or calling stop, at any instant and any number of times, from one or several goroutines, even before the download has started, makes the download return within seconds without panic or deadlock. Afterwards no connection to a peer or UDP tracker is open, no goroutine of the download is left running, and no further file write or network traffic happens.",
 ["schedules", "crash_points", "fault_sequences"],
 "every instant of cancellation relative to every step of the client (dial, handshake, mid-message, writing, announcing), every combination of cancel and repeated or concurrent stop calls, with peers and trackers in any state including hung",
 "Shutdown races depend on the interleaving of trackers, peers, writer and caller; no test starts these goroutines.",
 [MAN, PEER, TOR, "pkg/stats/progress_printer.go"], [("Stop cancels and closes connections under the pool lock", MAN+":Stop"), ("Download waits for peers, trackers and writer", MAN+":Download"), ("Close before connect", PEER+":Close")],
 ["virtual time between cancellation and return", "goroutines and connections left after it"])

prop("C05", "No peer can crash, exhaust or corrupt the client",
 "No sequence of bytes sent by a peer, at any time and in any fragmentation, makes the client panic, deadlock, or hold memory out of proportion to what a valid message may need. The rest of the swarm is served as if that peer were absent: with honest peers for every piece and a free connection slot the download still completes with the right content.",
 ["inputs", "schedules", "fault_sequences"],
 "every byte sequence and timing of a hostile peer: malformed handshakes, lengths, message types, indexes and offsets, floods, truncations, mixed with an honest swarm",
 "Tests feed a few valid messages; the space of byte sequences times interleavings with honest peers is unbounded.",
 [PEER, MSG, NET, TOR], [("length limit and payload length checks", NET+":ReadPeerMessage"), ("NewPeerMessage", MSG), ("index bounds", PEER+":handleHaveMessage")],
 ["process survival", "heap size", "completion of the honest download"])

prop("C06", "No tracker reply can crash or wedge the client",
 "No reply of an HTTP or UDP tracker, whatever its bytes, size, timing or status, makes the client panic, hang, spin or grow memory without bound. A tracker that misbehaves is only a failed announce: it is announced to again later, other trackers are unaffected, and a download that other trackers can feed still completes.",
 ["inputs", "schedules", "fault_sequences"],
 "every reply body and datagram (malformed bencode, huge numbers and lengths, deep nesting, wrong types, endless or dribbling bodies, truncated and oversized datagrams), mixed with healthy trackers",
 "The tracker tests only construct trackers; no reply is ever parsed in a test.",
 [HTTP, UDP, TRK, BEN, "pkg/bencode/tag_parser.go", MAN], [("bounded body and client timeout", HTTP+":Announce"), ("length and transaction checks", UDP+":readResponse"), ("number and depth limits", BEN)],
 ["process survival", "announce history", "heap size", "completion"])

prop("C07", "A piece is fetched from one peer at a time, and a block only once",
 "At no time are blocks of the same piece requested from two connections at once, and a piece that has been downloaded and written is never requested again. While a peer is asked for a piece, a block of it which it has sent as requested is not requested from it again. When no fault happens and peers answer promptly, every block of the torrent is requested exactly once over the whole swarm.",
 ["schedules", "histories", "fault_sequences"],
 "every schedule of concurrently running peers with overlapping piece sets, and every failure that hands a piece from one peer to another",
 "Double assignment is a race between peers; the tests take pieces from one goroutine.",
 [TOR, PEER, "pkg/torrent/pieces_queue.go"], [("Next marks a piece as requested under a lock", TOR+":Next"), ("Release", TOR), ("failed requests are repeated only by the peer that holds the piece", PEER+":nextRequestMessage")],
 ["requests received by the simulated peers, in order"])

prop("C08", "A persistently bad peer never strands a piece",
 "A peer that stays bad forever (accepts and goes silent, stops in the middle of a piece, chokes for good, sends wrong or corrupt blocks, announces pieces it does not serve, keeps closing or never answers the connection attempt) never prevents pieces that honest peers also have from being downloaded. As long as a connection slot is left for an honest peer, the download completes within a bounded time.",
 ["fault_sequences", "schedules", "histories"],
 "every mix of permanently misbehaving peers with at least one honest peer per piece and a free slot, every schedule",
 "It needs peers that misbehave over minutes of time together with honest ones; tests have neither.",
 [PEER, MAN, TOR], [("stalled piece is given up", PEER+":stalled"), ("choked peer gives the piece back", PEER+":unchoke"), ("corrupt peer is dropped", PEER+":handlePieceMessage"), ("peers are connected independently of each other", MAN+":initPeers")],
 ["return of the download in virtual time"])

prop("C09", "What the client sends to peers conforms to the peer wire protocol",
 "On every connection the client sends first one 68-byte handshake with the torrent's info hash and its client id, and then only well-formed messages. It sends interested before any request, requests only while the peer has not choked it, only pieces the peer has announced, and only non-empty ranges inside the piece that are no longer than the block length; it never talks past the handshake to a peer whose handshake does not match.",
 ["histories", "schedules", "inputs"],
 "every sequence of bitfield, have, choke, unchoke and piece messages of a peer and every torrent geometry including short last pieces",
 "The tests look at single messages in isolation, not at the conversation a peer sees.",
 [PEER, MSG, NET], [("handshake", PEER+":Announce"), ("request ranges", PEER+":createPieceMessage"), ("choke handling", PEER+":handlePeerMessage")],
 ["byte stream received by each simulated peer"])

prop("C10", "Downloaded and left are exact",
 "The amounts reported to trackers and in the progress line count exactly the bytes of verified pieces that have been written: downloaded starts at zero, never decreases, never exceeds the torrent's length and reaches it exactly on completion, and left is the torrent's length minus downloaded. Duplicate, rejected, failed or repeated transfers change neither.",
 ["histories", "schedules", "fault_sequences"],
 "every history of duplicates, corrupt pieces, failed writes, reconnects and re-announces, at every announce and progress update",
 "The counters are only unit-tested for addition; what is counted when transfers are repeated or writes fail depends on the history.",
 [STAT, TOR, MAN, "pkg/stats/progress_printer.go"], [("counted after a successful write", TOR+":WritePiece"), ("AddDownload", STAT), ("announce data", MAN+":announceToTracker")],
 ["announce parameters", "progress line", "bytes on disk"])

prop("C11", "Trackers are announced to on schedule, independently of each other",
 "As long as the download runs, every tracker of the torrent is announced to at the start and again each time the interval it asked for has passed (one minute until it has given a usable one). A failed announce is retried a bounded number of times with growing pauses and then waits for the interval again; no tracker is announced to in a tight loop, and a slow, failing or unsupported tracker neither stops nor delays the announces to the others.",
 ["schedules", "fault_sequences", "histories"],
 "every pattern of tracker failures, delays and intervals over hours of virtual time and any number of trackers",
 "Timing over minutes and hours with failures in between is out of reach of unit tests and none exists.",
 [MAN, TRK, HTTP, UDP], [("WaitInterval", TRK), ("retry with back-off", MAN+":announceToTracker"), ("one goroutine per tracker", MAN+":getIps")],
 ["arrival times of announces at the simulated trackers"])

prop("C12", "The UDP tracker exchange survives loss, duplication, reordering and forgery",
 "Over a network that loses, duplicates, delays, reorders or forges datagrams, every datagram sent to a UDP tracker is a well-formed BEP 15 connect or announce with fresh transaction id, a connection id the tracker issued, the info hash, the client id, the current amounts and the port. The peers and interval taken over are exactly those of the tracker's answer to that announce, an answer with another transaction id or action is ignored, and a tracker error is a failed announce.",
 ["fault_sequences", "inputs", "schedules"],
 "every pattern of datagram loss, duplication, delay, reordering, truncation and forged answers and every answer content",
 "No test sends a datagram to a tracker.",
 [UDP, NET], [("readResponse matches transaction id and action", UDP), ("createAnnounce", UDP)],
 ["datagrams received by the simulated tracker", "peers dialled afterwards"])

prop("C13", "The HTTP tracker exchange reports the truth and takes over every peer",
 "Every HTTP announce is a GET of the tracker's url, with any query it already has kept, carrying the exact info hash, client id, port and current amounts. From a successful answer, compact or as a list, exactly the valid peer addresses in it are taken over and its interval is honoured; an error status, a failure reason, a truncated or an unreadable body yields no peers and is a failed announce.",
 ["inputs", "fault_sequences", "configurations"],
 "every tracker url, every info hash, every answer content, both peer encodings, and every truncation or delay of the answer",
 "No test announces to an HTTP tracker; the only such test is commented out.",
 [HTTP, TRK, "gotit.go", "pkg/bencode/tag_parser.go"], [("buildQuery", HTTP), ("readPeers", HTTP)],
 ["requests received by the simulated tracker", "peers returned and dialled"])

prop("C14", "One connection per peer address, and never more than num-peer at once",
 "At any time the client has at most one connection or connection attempt per peer address and at most the configured number of peers connected or being connected to, no matter how many trackers return which addresses how often. Addresses beyond the limit wait their turn, and an address whose connection ended may be connected to again.",
 ["schedules", "histories", "configurations"],
 "every overlap of peer lists from several trackers, re-announces while peers are connecting or ending, and every limit",
 "The limit and the deduplication are races between trackers and ending peers; no test has two.",
 [MAN], [("AddPeer under the pool lock", MAN+":AddPeer"), ("connection slots", MAN+":initPeers")],
 ["connections seen by the simulated network"])

prop("C15", "All file effects stay inside the output directory, in the torrent's layout",
 "Whatever a torrent file contains, the client creates, writes or removes nothing outside the output directory given by the user: a torrent whose name or paths would escape it or that is inconsistent is refused with an error, without panic. For an accepted torrent the files appear under the torrent's name with the full directory structure it describes.",
 ["inputs", "configurations", "fault_sequences"],
 "every metainfo file: names and path components with separators, dots, absolute paths, empty or duplicate paths, negative or overflowing lengths, wrong number of hashes, nested directories, pre-existing files",
 "Tests build torrents from one well-formed sample.",
 [TOR, "pkg/torrent/piece.go", BEN, CMD], [("isValidName", TOR), ("initDownloadDir", TOR), ("consistency checks in New", TOR)],
 ["file system calls", "file tree"])

prop("C16", "Messages are received the same however the stream is cut and delayed",
 "The sequence of messages the client reads from a connection is the sequence the peer sent, for every segmentation of the byte stream and for every pause between and inside messages that stays below the timeouts. A read timeout between messages loses nothing, a message is returned only whole, and after a broken message or an end of stream no further message is returned.",
 ["inputs", "schedules", "fault_sequences"],
 "every sequence of messages, every segmentation, every pause, and every point at which the stream ends",
 "Tests write each message in one piece into a pipe.",
 [NET, MSG], [("ReadPeerMessage", NET), ("NewPeerMessage", MSG)],
 ["messages returned by the connection compared with those sent"])

prop("C17", "A crash at any moment costs time, not correctness",
 "If the process dies or the machine loses power at any moment of a download, starting the same download again in the same directory, with whatever files were left behind, still ends with exactly the torrent's content. Leftovers of any length or content never end up in a completed download.",
 ["crash_points", "histories", "fault_sequences"],
 "every crash point between any two file system effects, with unsynced writes kept, lost, reordered or torn, repeated crashes, and unrelated leftovers",
 "Crash points need control over the file system and a restart; tests have neither.",
 [TOR, MAN], [("files are truncated when created", TOR+":initDownloadDir"), ("completion is only by pieces verified in this run", TOR+":Done")],
 ["file tree after the final restart"])

prop("C18", "An idle connection is kept alive",
 "While a peer connection is open and healthy, the client never lets two minutes pass without sending something on it, whether it is choked, has nothing to request or waits for data.",
 ["schedules", "histories"],
 "every long-lived conversation: choked, unchoked with nothing to request, peers that send keep-alives or have messages at any pace",
 "It takes minutes of time on an idle connection; no test has any.",
 [PEER], [("checkKeepAlive", PEER), ("interested is repeated while choked", PEER+":unchoke")],
 ["gaps between messages received by the simulated peers"])

prop("C19", "Bencode encoding and decoding are inverse",
 "Every value built with the public constructors and encoded is decoded to an equal value, and decoding never depends on anything but the input bytes.",
 ["inputs"],
 "every bencode value",
 "The tests encode and decode a handful of values.",
 ["pkg/bencode/elements.go", BEN], [("Encode", "pkg/bencode/elements.go"), ("Parse", BEN)],
 ["return values"])

prop("C20", "The client's goroutines never race on shared memory",
 "In no schedule of a download, whatever peers, trackers, timers, cancels and disk faults do, do two goroutines of the client access the same memory at the same time with one of them writing, without synchronisation between them. So no interleaving ends in a concurrent-map crash, a lost update of counters or bitsets, or a torn or stale value.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving of trackers, peer connections, the writer, the progress printer, cancel and stop, in every workload of the other properties",
 "The tests run single handlers in one goroutine; a race needs two goroutines in a particular order and shows nothing on most runs.",
 [MAN, PEER, TOR, STAT, TRK], [("peer pool lock", MAN+":poolMu"), ("bitset locks", TOR), ("atomic counters", STAT), ("connection lock of a peer", PEER)],
 ["memory accesses of the client, ordered by happens-before"])

prop("C21", "The progress line is shown and tells the truth",
 "While a download runs, a progress line is shown at least every few seconds, however slow or broken peers, trackers and the disk are. The number of peers in it is at least the number of open connections and at most the number of addresses which are known and not given up, the number of trackers is the number of those announced to, and the speed is the written bytes over the time since the start. No number is ever negative or wrapped around.",
 ["schedules", "histories", "fault_sequences"],
 "every history of peers coming, ending, failing and coming back, of trackers failing, and of time passing",
 "The counters are changed by many goroutines over the life of a download; no test prints a progress line.",
 [MAN, STAT, "pkg/stats/progress_printer.go"], [("AddPeer and RemovePeer", STAT), ("initStatisticsPrinting", MAN), ("Print", "pkg/stats/progress_printer.go")],
 ["progress lines written, compared with connections, trackers, disk and clock"])

prop("C22", "What the client holds does not grow with time",
 "However long a download runs and however often peers and trackers fail, come back, answer with errors or stall, the number of goroutines, sockets to trackers and open files is bounded by the number of trackers, known peer addresses and files: what an announce or a connection took is given back when it ends, not only when the download ends.",
 ["schedules", "histories", "fault_sequences"],
 "every history of announces and connections, with every way in which one of them can fail, over hundreds of them",
 "A leak of one goroutine or socket per failed announce shows after hours; tests make one call and end.",
 [MAN, HTTP, UDP, PEER, NET], [("the body of an answer is closed on every path", HTTP+":Announce"), ("the socket is closed on every path", UDP+":Announce"), ("removePeer", MAN)],
 ["goroutines, sockets and files of the client at sampled instants"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")

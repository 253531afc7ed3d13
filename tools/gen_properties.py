#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            **({"state": [dict(name=n, meaning=m) for n, m in state]} if state else {}),
            observe_at=observe, hook_needed=None)))

p("C01", "Upload integrity: reported success means the server stored the exact file",
  "Whenever an upload is reported successful, the file the server stored is byte for byte the source file and the reported byte count is the number of bytes sent for it. This holds for every file size and content, every negotiated block size, window size and encryption level, whatever way the file is read, and under any pattern of packet loss, duplication, delay and reordering.",
  ["inputs", "schedules", "fault_sequences", "configurations"],
  "all file contents and sizes (0, sub-block, exact multiples, many blocks) x negotiated options x both server loops x alloc/stack storage x every finite network fault sequence in which duplicates do not outlive the session",
  "The end-to-end tests copy a handful of fixed files over a loopback that never drops, duplicates or reorders anything.",
  ["src/client/sender.rs", "src/server/helpers/write.rs", "src/writers/single_block_writer.rs", "src/readers/multiple_block_reader.rs", "src/readers/multiple_block_seek_reader.rs", "src/readers/single_block_reader.rs", "src/block_mapper.rs"],
  [("windowed sender with retransmission", "src/client/sender.rs"), ("in-order block writer", "src/writers/single_block_writer.rs")],
  ["return value of the upload call / client exit status", "bytes in server storage when success is reported"])

p("C02", "Download integrity: reported success means the client stored the exact file",
  "Whenever a download is reported successful, the bytes the client stored are exactly the bytes of the file the server read and the reported byte count is that file's size. This holds for every file size and content, every negotiated block size, window size and encryption level, servers that ignore options included, and under any pattern of packet loss, duplication, delay and reordering.",
  ["inputs", "schedules", "fault_sequences", "configurations"],
  "all file contents and sizes x negotiated options x both server loops x alloc/stack storage x every finite network fault sequence",
  "The end-to-end tests copy a handful of fixed files over a loopback that never drops, duplicates or reorders anything, and never talk to an option-less server.",
  ["src/client/receiver.rs", "src/client/connection.rs", "src/server/helpers/read.rs", "src/writers/single_block_writer.rs", "src/readers/multiple_block_reader.rs", "src/readers/multiple_block_seek_reader.rs", "src/readers/single_block_reader.rs", "src/readers/pool_reader.rs"],
  [("receive loop", "src/client/receiver.rs"), ("server read session", "src/server/helpers/read.rs")],
  ["return value of the download call / client exit status", "bytes handed to the client's local file"])

p("C03", "A receiver's file is always an in-order prefix of what was sent",
  "At every moment of a transfer the bytes a receiving side has stored are a prefix of the file being sent: each block is stored exactly once, in order, with no gap, overlap or reordering. Nothing is stored after the final short block or after the transfer has failed or been rejected.",
  ["schedules", "fault_sequences", "histories"],
  "every prefix of every history of data packets (duplicates, out-of-order, future and stale block numbers, packets after the end) delivered to a receiving client or server",
  "Unit tests write a few consecutive blocks; no test observes the stored bytes after every operation under reordering or after the final block.",
  ["src/writers/single_block_writer.rs", "src/block_mapper.rs", "src/server/helpers/write.rs", "src/client/receiver.rs", "src/server/single_thread.rs", "src/server/multi_thread.rs"],
  [("block writer", "src/writers/single_block_writer.rs"), ("server write handler", "src/server/helpers/write.rs")],
  ["log of write operations on the storage of the receiving side"])

p("C04", "Transfers complete once the network stops losing packets",
  "If only finitely many packets of a transfer are lost, duplicated, delayed or reordered, and both sides stay up, the transfer completes successfully within a bounded time of the last fault rather than stalling or failing. The only exception is loss of the very last acknowledgement of an upload.",
  ["fault_sequences", "schedules", "configurations"],
  "every finite fault burst placed anywhere in the handshake, the data phase or the final exchange, short enough that the request timeout is not used up, for every option set",
  "No test drops a packet; retransmission, backoff and partial-window recovery are exercised by no end-to-end test.",
  ["src/client/connection.rs", "src/client/sender.rs", "src/client/receiver.rs", "src/flow_control.rs", "src/server/helpers/read.rs", "src/server/helpers/write.rs", "src/server/wait_control.rs", "src/readers/multiple_block_reader.rs"],
  [("request retransmission", "src/client/connection.rs"), ("retry timers", "src/server/helpers/read.rs, src/flow_control.rs")],
  ["completion of both sides and the (virtual) time of completion after the last injected fault"])

p("C05", "Nothing waits forever: a silent peer ends the session at the request timeout",
  "If the other side falls silent at any point of a transfer, a client gives up with an error no earlier than its configured request timeout and at most a few seconds after it, and a server ends that session (telling the peer) within the same bound. A silent or chattering third party neither shortens nor extends that deadline.",
  ["crash_points", "fault_sequences", "configurations"],
  "every point of the exchange at which the peer can fall silent (before the first reply, after any packet, before the last acknowledgement), every configured timeout, with and without stray packets",
  "Tests check one timeout value at one point, if at all; the quantifier is over every crash point of the peer.",
  ["src/client/connection.rs", "src/client/sender.rs", "src/client/receiver.rs", "src/server/helpers/connection.rs", "src/server/single_thread.rs", "src/server/multi_thread.rs"],
  [("client deadlines", "src/client/{connection,sender,receiver}.rs"), ("server sweep", "src/server/helpers/connection.rs")],
  ["virtual time at which the call returns, error returned, ERROR packet from the server"])

p("C06", "Files longer than 65535 blocks survive block-number wraparound",
  "A transfer whose block count exceeds the 16-bit block counter, any number of times over, delivers exactly the source file in both directions. Loss, duplication or reordering around the point where the counter wraps does not corrupt, truncate or stall it.",
  ["inputs", "histories", "fault_sequences"],
  "files of more than 65535 blocks (one and several wraps), window sizes that straddle the wrap, faults placed within a window of the wrap",
  "Tests transfer at most a few thousand blocks; the wrap is covered only by unit tests of the index arithmetic.",
  ["src/block_mapper.rs", "src/writers/single_block_writer.rs", "src/readers/multiple_block_reader.rs", "src/readers/multiple_block_seek_reader.rs", "src/readers/single_block_reader.rs", "src/client/sender.rs"],
  [("16-bit block to 64-bit index mapping", "src/block_mapper.rs")],
  ["stored bytes and block numbers on the wire around the wrap"])

p("C07", "Senders respect the window and block size and retransmit only with cause",
  "A sender never has more than the negotiated window of blocks beyond the last acknowledgement it received, every data packet carries exactly the negotiated block size except one final shorter block, and a given block always carries the same bytes of the file. A block is sent again only after its retransmission timeout or after an acknowledgement showed the window was only partly received: duplicate acknowledgements on their own trigger no data.",
  ["schedules", "fault_sequences", "configurations"],
  "every interleaving of acknowledgements (in order, partial, duplicated, stale) with the sender's own progress, all window and block sizes, client and server senders",
  "Tests look at single calls of the block readers, not at the packets a running sender emits under every acknowledgement history (Sorcerer's Apprentice bugs).",
  ["src/client/sender.rs", "src/server/helpers/read.rs", "src/readers/multiple_block_reader.rs", "src/readers/multiple_block_seek_reader.rs", "src/readers/single_block_reader.rs"],
  [("window accounting", "src/readers/*.rs"), ("retry decision", "src/client/sender.rs, src/server/helpers/read.rs")],
  ["trace of DATA packets sent and ACK packets delivered at the socket boundary"])

p("C08", "Receivers acknowledge only what they have stored",
  "A receiver acknowledges block N only after blocks 1..N are stored, its acknowledgements never go backwards, and it sends at most one acknowledgement per data packet received. It acknowledges each full window and the final block, and answers a duplicate or out-of-order block by repeating its last in-order position, so the sender can always recover.",
  ["schedules", "fault_sequences", "histories"],
  "every history of data packets delivered to a receiving client or server, all window sizes",
  "Tests check the reply to a few in-order packets only.",
  ["src/server/helpers/write.rs", "src/client/receiver.rs", "src/writers/single_block_writer.rs"],
  [("ack decision", "src/server/helpers/write.rs, src/client/receiver.rs")],
  ["trace of DATA delivered, writes performed and ACKs sent, in order"])

p("C09", "The server's option replies are honest, bounded and obeyed",
  "The server acknowledges only options the client asked for, never with a block size or window larger than asked or than its configured maximum, ignores unusable values instead of failing, and reports the real file size when asked for it on a download. The transfer then uses exactly the acknowledged values, and the protocol defaults (512-byte blocks, window 1) for every option it did not acknowledge.",
  ["inputs", "configurations"],
  "every set of requested options with arbitrary (missing, malformed, zero, huge, boundary) values x every server maximum",
  "Tests try a few option combinations; values and combinations are unbounded.",
  ["src/server/extensions.rs", "src/server/connection_builder.rs", "src/packet.rs"],
  [("option parsing and reply", "src/server/extensions.rs")],
  ["OACK packets and the sizes and windows of the DATA/ACK packets that follow"])

p("C10", "The client negotiates faithfully and rejects replies it did not ask for",
  "The client's request carries exactly the options its configuration calls for, and the transfer uses exactly the values the server acknowledged, with protocol defaults for the rest. A reply that adds an option known to the client but not requested, enlarges the block size or the window, or carries a malformed value makes the client fail with an error, after telling the server when the reply names an unrequested option, and never leads to a transfer with those values.",
  ["inputs", "configurations"],
  "every client option set x every possible OACK content",
  "Tests try a few replies; the space of OACKs is unbounded.",
  ["src/client/extensions.rs", "src/client/connection.rs"],
  [("option creation, validation and parsing", "src/client/extensions.rs")],
  ["request packet, packets after the OACK, returned error"])

p("C11", "Both sides interoperate with option-less RFC 1350 peers",
  "A client that requests options still completes transfers with a server that ignores options or rejects a request with options (error codes 0 and 4), falling back to 512-byte blocks and a window of one. The server serves clients that send no options with a plain acknowledgement or first data block, 512-byte blocks and a window of one, accepting mode and option names in any letter case.",
  ["inputs", "configurations"],
  "every file size x every client option set x peers that implement only RFC 1350",
  "No test runs against a foreign implementation.",
  ["src/client/connection.rs", "src/client/receiver.rs", "src/client/sender.rs", "src/server/helpers/connection.rs", "src/packet.rs"],
  [("fallback without options", "src/client/connection.rs")],
  ["packets exchanged with a scripted RFC 1350 peer, stored bytes, result"])

p("C12", "Packets survive encode/decode and every byte string parses safely",
  "Every packet of every kind with values the protocol can carry decodes back to an equal packet, and encoding into a fixed buffer and into an allocated one gives the same bytes. Decoding any byte string terminates with either a packet or an error, never a crash or an out-of-bounds access, and never accepts a packet whose meaning is not in the bytes (wrong opcode, missing terminator, truncated field).",
  ["inputs"],
  "all packets of all types with all field values up to their capacity (strings without NUL, error codes 0 to 7); all byte strings up to the maximum datagram size",
  "Unit tests cover about a dozen hand-written packets.",
  ["src/packet.rs", "src/encrypted_packet.rs", "src/encryption.rs", "src/types.rs", "src/lib.rs"],
  [("packet codec", "src/packet.rs"), ("encrypted packet codec", "src/encrypted_packet.rs")],
  ["decoded values, re-encoded bytes, panics and sanitizer reports"])

p("C13", "No datagram can stop the server or disturb other clients",
  "Whatever datagrams arrive at the server's ports, from any address, well-formed or not, in any order, the server keeps running, answers a malformed or unacceptable request with at most one error packet, and still serves valid requests from other clients correctly and promptly.",
  ["inputs", "histories"],
  "all sequences of arbitrary datagrams to the listening and the per-transfer ports, interleaved with legitimate transfers, in all build flavours",
  "Tests send only well-formed traffic; a panic needs one unusual input out of an unbounded set.",
  ["src/server/single_thread.rs", "src/server/multi_thread.rs", "src/server/helpers/connection.rs", "src/server/validation.rs", "src/lib.rs", "src/server/connection_builder.rs", "std-binary/src/socket.rs"],
  [("request handling", "src/server/helpers/connection.rs"), ("datagram demultiplexing", "std-binary/src/socket.rs")],
  ["process liveness, panics, replies, outcome of probe transfers"])

p("C14", "Clients ignore strangers and survive hostile replies",
  "Packets from other hosts, and once the server has replied from any endpoint but the server's, never change what a client stores, sends or reports, and a server reply from a different port is accepted only if the user allowed it. Whatever bytes the server itself sends, the client does not crash or hang: it continues, or it ends with an error within its timeout, and an error packet from the server is reported as a failure.",
  ["inputs", "histories", "schedules"],
  "all sequences of arbitrary datagrams from foreign addresses and from the server endpoint at every point of an upload or download",
  "Tests never inject a packet into a running client.",
  ["src/client/connection.rs", "src/client/sender.rs", "src/client/receiver.rs", "src/client/encryption_socket.rs"],
  [("source checks", "src/client/{connection,sender,receiver}.rs")],
  ["client result, stored bytes, packets sent, panics"])

p("C15", "Concurrent sessions are isolated from each other",
  "Any number of clients transferring at the same time each get exactly the result they would get alone: data, acknowledgements, errors, timeouts or misbehaviour of one session never show up in, corrupt, stall or end another. A packet from an address other than a session's client has no effect on that session.",
  ["schedules", "histories", "configurations"],
  "all interleavings of concurrent uploads, downloads, aborted, silent and misbehaving sessions up to the connection limit, both server loops",
  "Tests run one client at a time.",
  ["src/server/single_thread.rs", "src/server/multi_thread.rs", "src/readers/pool_reader.rs", "src/map.rs", "std-binary/src/socket.rs"],
  [("per-client dispatch", "src/server/single_thread.rs"), ("session threads", "src/server/multi_thread.rs"), ("bound sockets", "std-binary/src/socket.rs")],
  ["per-session packets, stored bytes, outcomes"])

p("C16", "Requests cannot reach outside the served directory",
  "No requested name, however it is written (parent components, absolute paths, repeated separators, unusual characters, over-long or multi-byte names) and whatever symbolic links exist, makes the server read, create, truncate or modify anything outside its served directory. Names inside the directory keep working.",
  ["inputs", "configurations"],
  "all request names x directory layouts with links to files and directories, dangling links and nested directories x read/write/list requests",
  "Tests check a dozen names on the pure normalisation function; none looks at the file system around the served directory.",
  ["src/server/validation.rs", "std-binary/src/io.rs"],
  [("name normalisation", "src/server/validation.rs"), ("canonical path check", "std-binary/src/io.rs")],
  ["bytes returned, full snapshot of the tree around the served directory before and after"])

p("C17", "Existing files are never overwritten without permission",
  "Unless overwriting is enabled, an upload to a name that already exists is refused with an error and the existing file's content is unchanged, even when several uploads of the same new name race: at most one of them is accepted and its content is what is stored. When overwriting is enabled the stored file is exactly the new content, with nothing of the old one left.",
  ["inputs", "schedules", "configurations"],
  "all spellings of an existing name, all interleavings of concurrent uploads to one name, both settings",
  "Tests try one overwrite, sequentially.",
  ["std-binary/src/io.rs", "src/server/connection_builder.rs"],
  [("create-new / truncate", "std-binary/src/io.rs")],
  ["file contents before and after, replies"])

p("C18", "Configured limits bound what a peer can make the program consume",
  "An upload never leaves more than the configured maximum file size plus one block on the server and is not acknowledged as complete above the maximum, a client never reports a download larger than its own maximum as successful, and a declared size above the limit is refused up front; files up to the limit are not affected. The server never runs more sessions than its connection limit and never creates directories deeper than its depth limit.",
  ["inputs", "histories", "configurations"],
  "all declared and actual sizes around the limit, peers that lie about the size or keep sending, all numbers of simultaneous clients around the connection limit, all path depths",
  "Tests use files below every limit.",
  ["src/server/validation.rs", "src/server/helpers/write.rs", "src/client/receiver.rs", "src/server/single_thread.rs", "src/server/multi_thread.rs", "std-binary/src/io.rs"],
  [("file size check", "src/server/validation.rs, src/client/receiver.rs"), ("connection limit", "src/server/{single,multi}_thread.rs"), ("depth limit", "std-binary/src/io.rs")],
  ["bytes stored, replies, number of live sessions, directories created"])

p("C19", "Encrypted sessions leak no plaintext and never reuse a nonce",
  "With data encryption no packet after the handshake contains file content in the clear; with protocol encryption no packet after the handshake exposes block numbers, packet types or error text; with full encryption the file name, options and everything else after the peer key are hidden from the first packet on, and the packets of a session are padded so their size does not reveal their kind. No nonce is ever used twice under the same key, retransmissions included.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "all files, names, encryption levels and directions, with losses forcing retransmissions, both server loops and both client roles",
  "Tests check that decryption inverts encryption; none looks at what is on the wire.",
  ["src/client/encryption_socket.rs", "src/server/connection.rs", "src/encrypted_packet.rs", "src/encryption.rs", "src/server/connection_builder.rs"],
  [("packet encryption", "src/encrypted_packet.rs"), ("client socket wrapper", "src/client/encryption_socket.rs"), ("server connection", "src/server/connection.rs")],
  ["every datagram on the simulated wire, searched for known plaintext and decoded for nonces and lengths"])

p("C20", "Tampered or forged packets in an encrypted session change nothing",
  "In an encrypted session a packet that was modified, truncated, extended, forged without the keys, or replayed from another session never changes the stored file or the reported result, and does not end the session: the transfer still succeeds with the exact file once genuine packets get through.",
  ["inputs", "fault_sequences", "histories"],
  "all modifications of any encrypted packet at any point, injected next to or instead of the genuine packet, all encryption levels (for the data level the content of data packets only)",
  "Tests flip no bits on the wire.",
  ["src/encrypted_packet.rs", "src/encryption.rs", "src/client/encryption_socket.rs", "src/server/connection.rs"],
  [("authenticated encryption", "src/encryption.rs")],
  ["stored bytes and result of sessions under an active attacker"])

p("C21", "Only authorized keys are served when a key list is configured",
  "When the server has a list of authorized keys, a request is served only if it carries a listed public key together with a valid signature by that key over its own session key; every other request touches no file and gets no file content. When a full encryption is required, any request that is not fully encrypted is refused in the same way, and when errors are restricted to authorized clients such requests get no reply at all.",
  ["inputs", "configurations"],
  "all combinations of missing, unlisted, listed, mismatched and malformed keys and signatures x encryption levels x request types",
  "Tests cover the matching key and one mismatch.",
  ["src/server/extensions.rs", "src/server/connection_builder.rs", "src/key_management.rs"],
  [("key and signature check", "src/server/extensions.rs"), ("error suppression", "src/server/connection_builder.rs")],
  ["replies, storage operations, for each request"])

p("C22", "Required encryption is never downgraded and server identity is enforced",
  "A client that requires encryption never sends or accepts file content in the clear, whatever the server or anyone on the network replies: it fails instead. A client that has its own key and knows the server's public key never runs an encrypted session unless the reply proves possession of that key, and nothing goes out in the clear after a fully encrypted request.",
  ["inputs", "histories", "configurations"],
  "all replies (missing, plain, weakened, re-signed, with swapped keys) to a client with any required encryption level and known or unknown server key",
  "Tests cover the cooperative server only.",
  ["src/client/connection.rs", "src/client/extensions.rs", "src/client/encryption_socket_builder.rs"],
  [("encryption level check", "src/client/extensions.rs"), ("server key check", "src/client/connection.rs")],
  ["packets sent by the client, stored bytes, result, under a man in the middle"])

p("C23", "Files encrypted at rest round-trip and reject tampering",
  "Content written through the encrypting stream and read back through the matching decrypting one is identical for every size and every split of the reads and writes, and the stored form contains none of the content in the clear. If the stored form was altered, truncated, reordered or is read with another key, reading reports an error and never yields anything but the original content as complete.",
  ["inputs", "configurations"],
  "all contents, sizes, chunk boundaries and read/write split patterns x all single and multiple corruptions",
  "Unit tests cover two or three sizes with full reads.",
  ["src/readers/encrypted_stream_reader.rs", "src/writers/encrypted_stream_writer.rs", "std-binary/src/encryption_io.rs"],
  [("stream encryption", "src/readers/encrypted_stream_reader.rs, src/writers/encrypted_stream_writer.rs")],
  ["bytes and results of the stream reader/writer, output of the client's file encryption"])

p("C24", "Keys parse, print and look up consistently",
  "Every key, signature and nonce that can be generated survives its text encoding unchanged, and malformed text is rejected rather than mapped to some key (a text for too few bytes excepted, which the existing tests require to be filled with zeros). A key file yields exactly the keys on its lines, one with a malformed key is refused as a whole, one that cannot be read is reported, and the known-hosts lookup returns the key recorded for exactly that endpoint and never another host's.",
  ["inputs"],
  "all keys and signatures, all malformed encodings, all key files (comments, blank lines, bad lines, duplicate and prefix-related host names)",
  "Unit tests use one hand-written key file.",
  ["src/key_management.rs", "src/encryption.rs"],
  [("key encoding", "src/encryption.rs"), ("key files", "src/key_management.rs")],
  ["parsed values for generated files, CLI handling of the files"])

p("C25", "Storage errors are reported, never turned into silent success",
  "If the storage of either side fails, returns short reads or short writes, or reports temporary unavailability at any point of a transfer, the transfer either still delivers exactly the right bytes or is reported as failed to whoever started it, and the peer is told. A storage error in one session does not stop the server or affect other sessions.",
  ["crash_points", "fault_sequences"],
  "a fault of every kind (error, short read, short write, would-block) at every storage operation of a transfer, both sides, both directions",
  "Tests use storage that never fails and always transfers the full amount.",
  ["src/writers/single_block_writer.rs", "src/readers/single_block_reader.rs", "src/readers/multiple_block_reader.rs", "src/readers/multiple_block_seek_reader.rs", "src/server/helpers/read.rs", "src/server/helpers/write.rs", "std-binary/src/blocking_reader.rs"],
  [("block readers and writers", "src/readers, src/writers"), ("non-blocking source", "std-binary/src/blocking_reader.rs")],
  ["result of the transfer, ERROR packets, stored bytes"])

p("C26", "No input or schedule causes undefined behaviour",
  "In every build flavour, and in particular the ones with fixed-capacity buffers, no input, option set or schedule causes an out-of-bounds access, a read of uninitialised memory that reaches the network or a decision, a use after free, or other undefined behaviour.",
  ["inputs", "schedules", "configurations"],
  "all packets, option values and transfer histories, in the fixed-buffer and heap flavours",
  "Undefined behaviour is not visible to ordinary tests even when they execute it.",
  ["src/buffer.rs", "src/readers/pool_reader.rs", "src/packet.rs", "std-binary/src/socket.rs"],
  [("unchecked buffer resizing", "src/buffer.rs")],
  ["Miri, AddressSanitizer and valgrind reports while the real code runs"])

p("C27", "The threaded parts are free of data races and deadlocks",
  "No schedule of the threaded server's sessions, the client's background reader or the directory watcher contains a data race, a lost wakeup, a lost end-of-file or a deadlock: every session and every call ends.",
  ["schedules"],
  "all interleavings of the listening thread, session threads, and the background reader thread with its consumer",
  "A test run samples one schedule and has no race detector.",
  ["src/server/multi_thread.rs", "std-binary/src/blocking_reader.rs", "std-binary/src/sync.rs", "std-binary/src/socket.rs"],
  [("session threads", "src/server/multi_thread.rs"), ("background reader", "std-binary/src/blocking_reader.rs")],
  ["ThreadSanitizer and Miri reports, completion of every session under injected delays"])

p("C28", "Directory sync uploads every changed file",
  "While directory sync runs, every regular file that is written and closed in the watched directory or in one of its sub-directories, and then left alone, ends up on the server with its final content under its own relative name, with or without starting at creation (a new sub-directory counts from when it is watched). Nothing that was not written is uploaded, and a file that cannot be uploaded does not stop the others.",
  ["histories", "schedules"],
  "all histories of file creation, slow writing, rewriting (after the previous upload ended) and nesting in the watched directory",
  "Tests cover at most one file event.",
  ["std-binary/src/sync.rs", "std-binary/src/main.rs"],
  [("watcher", "std-binary/src/sync.rs")],
  ["server directory compared with the watched directory after quiescence"])

p("C29", "Finished sessions release everything they held",
  "After a session ends, whether completed, failed, timed out or refused, its connection slot, file handle, socket and buffers become available again, so that over any history of sessions the server keeps accepting new clients up to its configured limit and its resource use does not grow. Refused requests hold nothing.",
  ["histories", "configurations"],
  "all histories of completed, failed, refused, abandoned and repeated sessions, in heap and fixed-capacity flavours",
  "Tests run a few sessions, far fewer than the limit.",
  ["src/server/single_thread.rs", "src/server/multi_thread.rs", "src/readers/pool_reader.rs", "src/server/readers_available.rs", "std-binary/src/socket.rs"],
  [("session removal", "src/server/single_thread.rs, src/server/multi_thread.rs"), ("reader pools", "src/readers/pool_reader.rs")],
  ["number of open handles, sockets, threads; acceptance of new sessions up to the limit after each history"])

p("C30", "Directory listings are complete and confined",
  "When listing is enabled, reading the configured listing name of a directory returns exactly one correct line per entry of that directory (its path relative to the served directory, directories marked), for any number and any text names of entries and any transfer options. When listing is disabled, or for a directory outside the served one, nothing about the directory is revealed.",
  ["inputs", "configurations"],
  "all directory contents (empty, many entries, odd names, sub-directories, links) x listing enabled/disabled x block and window sizes",
  "Tests list one small directory.",
  ["std-binary/src/io.rs"],
  [("listing reader", "std-binary/src/io.rs")],
  ["listing received by a client compared with the directory"])

p("C31", "Every build flavour interoperates and exit status tells the truth",
  "Any build of the client can transfer files in both directions with any build of the server, over the options both support. The command-line client exits with status 0 only if the destination holds exactly the source content, and whenever a transfer is refused, interrupted or cannot be completed it exits with a non-zero status and says why.",
  ["configurations", "inputs", "fault_sequences"],
  "all pairs of the shipped flavours (threaded, heap, fixed-capacity, fixed-capacity with encryption) x options x outcomes (success, missing file, refused, unreachable, interrupted, disk full)",
  "Tests pair each flavour with one other on success paths.",
  ["std-binary/src/main.rs", "std-binary/src/sender.rs", "std-binary/src/receiver.rs", "std-binary/src/cli.rs", "std-binary/src/io.rs"],
  [("command line", "std-binary/src/main.rs")],
  ["exit status, destination file, stderr"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P))

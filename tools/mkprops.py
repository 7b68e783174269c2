#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the text lives here so that it can be reviewed as code)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, state, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

prop("C01", "Data frames survive the wire unchanged",
 "Every data frame that can be built and encoded decodes at the receiver to exactly the header, session, timestamp, offset and payload that were sent, for every offset width, timestamp type and payload length including empty. An offset that does not fit the chosen width is refused with an error, never silently truncated. The bytes produced are independent: re-using the frame, the payload buffer or the receive buffer afterwards never alters an already encoded or decoded frame.",
 ["inputs", "histories"],
 "all combinations of offset width, timestamp type, other data flags, boundary sessions/offsets, payload lengths 0..n, built through both constructors, in fresh and re-used frame values",
 "data_test.go encodes one frame built from one flag string and does not compare all the fields; truncation, empty payloads, aliasing and re-use of a dirty frame value are never reached.",
 ["data/data.go", "timestamp/timestamp.go", "sarflags/sarflags.go"],
 [("Data", "header, session, optional timestamp, offset, payload", "data/data.go:Data")],
 [("Encode/Decode of the offset in the width given by the descriptor", "data/data.go:Encode, Decode")],
 ["bytes returned by the encoder", "fields after the decoder"])

prop("C02", "Status frames survive the wire unchanged",
 "Every status frame that can be built and encoded decodes at the receiver to exactly the header, session, timestamp, progress, in-response-to and ordered list of missing ranges that were sent. A progress, in-response-to or range bound that does not fit the chosen width is refused with an error, never silently truncated. A frame value that is re-used for decoding holds only what the latest frame said.",
 ["inputs", "histories"],
 "all combinations of offset width, timestamp request, error code, boundary progress / in-response-to values, hole lists of length 0..n over boundary bounds, both constructors, fresh and re-used frame values",
 "status_test.go encodes one frame with a fixed hole list; the timestamp path, width overflow, and re-use of a frame value holding holes of an earlier frame are never sampled.",
 ["status/status.go", "timestamp/timestamp.go", "holes/holes.go"],
 [("Status", "header, session, optional timestamp, progress, inrespto, holes", "status/status.go:Status")],
 [("Encode/Decode by descriptor width", "status/status.go:Encode, Decode")],
 ["bytes returned by the encoder", "fields after the decoder"])

prop("C03", "Beacons carry identity and true free space",
 "Every beacon that is built and encoded decodes to the same header, endpoint identity and free space, byte for byte, with or without advertised free space. When free space is advertised and no value is given, the value sent is the measured free space of the transfer directory in kilobytes (none is advertised if it cannot be measured), and the width in the header is the smallest one that holds the value. A value that does not fit the width in the header is refused with an error, never silently truncated.",
 ["inputs", "configurations"],
 "all advertised-space settings and widths, free-space values at every width boundary, identities of length 0..n over all byte classes, both constructors",
 "There is no beacon test; the file system of the test host would give one free-space value, never the width boundaries.",
 ["beacon/beacon.go", "sarsys/sys_linux.go"],
 [("Beacon", "header, freespace, eid", "beacon/beacon.go:Beacon")],
 [("descriptor chosen from the free space", "beacon/beacon.go:New")],
 ["bytes returned by the encoder", "fields after the decoder"])

prop("C04", "Requests carry file name and credentials unchanged",
 "Every request that is built and encoded decodes to the same header, session, file name and authentication bytes, for every name without a NUL byte (including non-ASCII and empty names) and every authentication byte string including none. Nothing of an earlier request remains when a frame value is re-used for decoding.",
 ["inputs", "histories"],
 "all request types and flags, all names and authentication strings up to a length over an alphabet of byte classes, both constructors, fresh and re-used values",
 "request_test.go is not among the passing tests and builds one request with an ASCII name; authentication and non-ASCII names are never compared.",
 ["request/request.go"],
 [("Request", "header, session, fname, auth", "request/request.go:Request")],
 [("NUL terminated name followed by auth", "request/request.go:Encode, Decode")],
 ["bytes returned by the encoder", "fields after the decoder"])

prop("C05", "Metadata and directory entries survive the wire unchanged",
 "Every metadata frame and every directory entry that encodes decodes to the same headers, session, checksum bytes, size, modification time, creation time and path (times in whole seconds counted from 2000). A size that does not fit the entry's width, and a checksum that does not have the length the header announces, are refused with an error. A directory entry that cannot be encoded is never sent as part of a metadata frame that claims success.",
 ["inputs", "histories"],
 "all descriptor widths, checksum kinds, entry flag combinations, size and time boundary values, names over all byte classes, fresh and re-used values",
 "metadata_test.go is not among the passing tests; one small local file at most would be described, never a size at a width boundary.",
 ["metadata/metadata.go", "dirent/dirent.go"],
 [("MetaData", "header, session, checksum, dir", "metadata/metadata.go:MetaData"), ("DirEnt", "header, size, mtime, ctime, path", "dirent/dirent.go:DirEnt")],
 [("descriptor-width size, NUL terminated path", "dirent/dirent.go:Encode, Decode")],
 ["bytes returned by the encoder", "fields after the decoder"])

prop("C06", "Timestamps round-trip for every type and instant",
 "A timestamp built for an instant and any of the supported types encodes to the fixed wire size and decodes to the same type, seconds and nanoseconds (as far as the type carries them: seconds always, nanoseconds for the types with a fraction, the 2000 epoch counted from 1 Jan 2000 UTC), and for the local type to the same text. The result depends only on the instant and the type, never on what the value held before.",
 ["inputs", "histories"],
 "all timestamp types x boundary instants (epoch, 2000, 2038, sub-second extremes, 64-bit) x all ordered pairs of types for re-use",
 "timestamp_test.go builds each type for the current instant only and does not compare the decoded seconds with the instant.",
 ["timestamp/timestamp.go"],
 [("Timestamp", "flag, seconds, nanoseconds, local text", "timestamp/timestamp.go:Timestamp")],
 [("type dependent Put and Get", "timestamp/timestamp.go:Put, Get")],
 ["bytes from the encoder", "seconds and printed form after the decoder"])

prop("C07", "Header flags obey the documented bit layout and algebra",
 "For every frame, directory-entry and timestamp header and every flag defined for it, setting a flag to a value and reading it back gives that value, leaves every other flag unchanged and touches exactly the documented bits; names, values and tests of flags agree with each other. Undefined flags or values are reported as errors and leave the header unchanged, never ending the process.",
 ["inputs", "configurations"],
 "all 8-bit timestamp headers, all 16-bit directory headers, and for the 32-bit frame header all assignments of each flag against all-zero, all-one and single-flag backgrounds; all defined and undefined flag names and values",
 "Tests set a few flags on a zero header; independence of every pair of flags and the full value ranges are not reached.",
 ["sarflags/sarflags.go", "saratoga/saratoga.json"],
 [("flag table", "length, most significant bit, and options per flag", "saratoga/saratoga.json")],
 [("mask and shift", "sarflags/sarflags.go:Set, Get, SetD, GetD, SetT, GetT")],
 ["header words and names returned"])

prop("C08", "Flag lists behave as maps and globals reach only their own frames",
 "A textual flag list behaves as an ordered map: adding a flag that is not yet in the list, replacing the value of a flag (which adds it where it is absent) and looking flags up give the latest value of each flag, keep all the others in order, and never invent, duplicate or drop one; a flag or value that is not defined leaves the list as it was. The flag list generated for a frame type from the global settings holds exactly the globally set flags that are defined for that frame type, with their current values.",
 ["inputs", "histories"],
 "all sequences of list operations up to a depth over a flag alphabet, and all assignments of global flags for every frame type",
 "No test exercises these lists; they need histories of operations.",
 ["sarflags/sarflags.go"],
 [("flag list", "comma separated name=value text", "sarflags/sarflags.go"), ("global flags", "map of flag to value", "sarflags/sarflags.go:Cliflags")],
 [("list editing", "sarflags/sarflags.go:AddFlag, ReplaceFlag, FlagValue, Setglobal")],
 ["returned flag lists"])

prop("C09", "Hole bookkeeping is exact for every arrival order",
 "After any sequence of received ranges (overlapping, adjacent, repeated, out of order, single byte or empty) the recorded received ranges are sorted, disjoint, non-adjacent and cover exactly the bytes received. The reported missing ranges are exactly the complement up to the highest received offset, in order, and their reported number is exact. Asking for the missing ranges changes nothing, and ranges reported earlier do not change later.",
 ["inputs", "histories"],
 "all reachable range sets over a bounded byte space and every range added to each of them",
 "There is no test of holes; correctness depends on the whole history of arrivals.",
 ["holes/holes.go"],
 [("Holes", "ordered received ranges", "holes/holes.go:Holes")],
 [("sort and merge", "holes/holes.go:Add"), ("complement", "holes/holes.go:Getholes")],
 ["the range list", "the missing ranges and their length"])

prop("C10", "Positional file reads, writes and checksums are exact",
 "Any sequence of positional writes and reads on an opened transfer file behaves as one on an array of bytes: a write changes exactly the addressed bytes and reports that count, and a read returns exactly the bytes stored there, shorter only when the file ends earlier and with an error when nothing is left to read. The checksum of a file is exactly the CRC32, MD5 or SHA1 of the bytes of that file in the transfer directory, and naming an unknown kind or a file that cannot be read gives an error. No such operation leaves a file open that its caller cannot close.",
 ["histories", "inputs"],
 "all sequences of reads, writes, seeks and re-opens up to a depth over boundary positions and lengths, and all small file contents for the checksums",
 "fileio_test.go is not among the passing tests; it writes and reads one file once.",
 ["fileio/fileio.go", "fileio/checksum.go"],
 [("open file", "handle and position", "fileio/fileio.go")],
 [("seek then transfer", "fileio/fileio.go:FileRead, FileWrite"), ("hash over file content", "fileio/checksum.go:Checksum")],
 ["file content on disk", "returned counts and bytes"])

prop("C11", "File operations stay in the transfer directory and never clobber",
 "No file name, however formed, makes an open, delete, existence test, metadata or checksum operation touch a path outside the configured transfer directory (names are taken relative to that directory, whose owner may place links in it). Opening for reading never creates or changes a file, opening to receive a file refuses one that already exists, a delete removes exactly the named entry and never the transfer directory itself, and everything else in the directory stays as it was.",
 ["inputs", "histories"],
 "all names up to a number of path components over {plain, existing, missing, sub-directory, '.', '..', empty, absolute} x all operations x directory contents",
 "fileio_test.go uses plain names in one directory.",
 ["fileio/fileio.go", "fileio/checksum.go"],
 [("transfer directory", "configured root for all transfers", "fileio/fileio.go:Sardir")],
 [("path joining", "fileio/fileio.go")],
 ["file system before and after", "paths passed to the system"])

prop("C12", "File metadata is truthful for every kind of directory entry",
 "The directory entry, metadata frame and file description made for a name in the transfer directory report its real kind, size, modification time (whole seconds, from 2000 on; for a stream the current time), path and requested checksum, whatever the entry is: empty or large file, directory, symbolic link to either, dangling link, special file, or missing. A link is described as a link (and as a directory too when it leads to one). Names that cannot be described, or that a metadata frame cannot carry, give an error; none of them ends the process.",
 ["inputs", "configurations"],
 "all entry kinds x sizes at every width boundary (sparse) x descriptors x checksum kinds x modification times",
 "metadata_test.go describes one file of the working directory and is not among the passing tests.",
 ["metadata/metadata.go", "dirent/dirent.go", "fileio/fileio.go", "fileio/checksum.go"],
 [("DirEnt", "description of a file", "dirent/dirent.go:DirEnt")],
 [("stat of the file", "metadata/metadata.go, dirent/dirent.go:New, fileio/fileio.go:FileMeta")],
 ["the fields of the entry", "errors"])

prop("C13", "The peer table reflects exactly the beacons heard",
 "After any sequence of beacons from any senders (told apart by their IP address) the peer table holds exactly one entry for each sender with the identity, capabilities and free space of its latest beacon, the time it was first heard and the time it last changed. A beacon is reported as new information exactly when its sender is new or something it advertises changed. Re-use of the beacon value that was registered never alters the table.",
 ["histories", "inputs"],
 "all sequences of beacons up to a depth over a set of senders, identities, capability flags, free-space settings and widths",
 "No test of the peer table exists; it is a function of the history.",
 ["beacon/beacon.go"],
 [("peer table", "one entry per address", "beacon/beacon.go:Peers")],
 [("compare with the latest beacon", "beacon/beacon.go:NewPeer")],
 ["peer table", "result of registering a beacon"])

prop("C14", "No received datagram can crash or corrupt a decoder",
 "Every frame, directory-entry and timestamp decoder is total: for every byte string it returns either an error or a value, never ending the process or looping, and it does not read or retain anything beyond the bytes given. A byte string too short to hold the fixed fields its header announces is rejected with an error.",
 ["inputs"],
 "all byte strings up to a length over byte-class alphabets with all header flag combinations, and every truncation and every single-field corruption of valid frames of every type",
 "Tests only decode bytes they have just encoded.",
 ["data/data.go", "status/status.go", "beacon/beacon.go", "request/request.go", "metadata/metadata.go", "dirent/dirent.go", "timestamp/timestamp.go", "sarflags/sarflags.go"],
 [], [("length checks", "Decode of every frame package")],
 ["error or value returned by each decoder"])

prop("C15", "The listener dispatches every datagram exactly once and intact",
 "For every sequence of datagrams arriving at the node, each well-formed frame is handed on exactly once, with its sender and its contents intact and in arrival order per socket. A malformed data, metadata or status frame and a frame of another version is answered with exactly one bad-packet status queued to its sender, which carries the session of the frame (session 0 for another version). Undecodable beacons and requests, frames of an unknown type and over- or under-sized datagrams are dropped, and no datagram stops the listener.",
 ["inputs", "histories", "schedules"],
 "all sequences up to a depth over a set of datagrams of every type, valid and malformed, truncated, oversized and of foreign versions, from several senders, under all interleavings with the consumers",
 "The listener is in the main program, which has no tests.",
 ["saratoga/saratoga.go"],
 [("receive and transmit queues", "frames with their peers", "saratoga/saratoga.go")],
 [("frame type switch", "saratoga/saratoga.go:listen")],
 ["frames on the queues"])

prop("C16", "Every transfer request is answered exactly once and admitted correctly",
 "For every transfer request exactly one status is queued to the requester, with the request's session, and it reports success exactly when the request is acceptable: version 1, neither UDP-Lite nor stream, no willingness flag invalid, and for get, getdir and take the requester willing to receive and the file present, for put and give the requester willing to send and the file absent, for delete the file present and removable (it is then removed). Otherwise the error code names a reason that applies and no file or transfer changes. Exactly the accepted requests other than deletes are registered, once, with the session, requester, type and file name of the request; a further one from the same requester and session never registers a second transfer and is answered with success only if it asks for the same.",
 ["inputs", "configurations", "histories"],
 "all request types x flags x willingness settings of the node x file existence, and all sequences of requests up to a depth from several peers and sessions",
 "Request handling has no tests and depends on configuration, file system and history.",
 ["trans/trans.go"],
 [("transfers", "registered transfers", "trans/trans.go:Transfers")],
 [("admission checks", "trans/trans.go:AddRxTran")],
 ["queued status frames", "registered transfers", "transfer directory"])

prop("C17", "The node never deadlocks and answers every request",
 "Under every interleaving of the network listeners, the dispatcher and the request handlers, and any sequence of datagrams, the node keeps processing: no part of it blocks for ever while datagrams are waiting, every decodable request has exactly one status queued to its sender, and nothing ends the process. Each beacon heard is entered in the peer table and every accepted request ends up registered.",
 ["schedules", "histories"],
 "all schedules up to a preemption bound of listeners and dispatcher for all datagram sequences up to a depth",
 "Needs all interleavings of the node's activities; nothing tests the main program.",
 ["saratoga/saratoga.go", "trans/trans.go", "beacon/beacon.go"],
 [("receive and transmit queues", "unbuffered channels", "saratoga/saratoga.go")],
 [("main select loop", "saratoga/saratoga.go:main")],
 ["blocked activities", "emitted frames", "peer and transfer tables"])

prop("C18", "The transfer registry finds, changes and removes the right transfer",
 "After any sequence of starts, look-ups, changes and removals the registry holds exactly the transfers started and not yet removed. A look-up by direction, session and peer returns the live registered transfer or nothing, a change through it is visible to later look-ups, and a removal removes exactly the given transfer. Starting a transfer that duplicates an existing one, that cannot reach its peer or whose file cannot be used, is refused without effect on the registry and without creating or changing any file.",
 ["histories"],
 "all operation sequences up to a depth over peers (including one host on several ports), sessions, directions, types and file names",
 "No tests cover the registry; errors need particular sequences.",
 ["sarwin/sarwin.go"],
 [("transfers", "registered transfers", "sarwin/sarwin.go:Transfers")],
 [("look-up, match, remove", "sarwin/sarwin.go:Lookup, Match, Remove, NewInitiator")],
 ["registry content", "look-up results"])

prop("C19", "Concurrent use never duplicates or loses sessions, peers or transfers",
 "When beacons, requests, transfer starts and removals are handled concurrently the outcome is one that some sequential order of them could have produced: session numbers are never handed out twice, a peer or transfer is never entered twice, and none is lost.",
 ["schedules"],
 "all interleavings up to a preemption bound of two to three concurrent operations from every pair of operation kinds",
 "Needs schedule control; no concurrent tests exist.",
 ["sarwin/sarwin.go", "trans/trans.go", "beacon/beacon.go", "sarflags/sarflags.go"],
 [("session counter", "next session number", "sarwin/sarwin.go"), ("registries", "peers and transfers", "beacon/beacon.go, sarwin/sarwin.go, trans/trans.go")],
 [("mutexes", "beacon/beacon.go, sarwin/sarwin.go, trans/trans.go")],
 ["final tables", "returned results"])

prop("C20", "Status reports page every missing range exactly once within the MTU",
 "Reporting the state of a transfer sends, for every set of received ranges, offset width and datagram size, a sequence of status frames that each fit in one datagram and together list every missing range exactly once and in order, none of them empty, with the transfer's session, progress and in-response-to values, and the flag that says whether the list in this one frame is complete. A transfer with nothing missing, and an error report, is sent as exactly one frame. If the state cannot be reported in the chosen width an error is returned.",
 ["inputs", "configurations"],
 "all received-range counts around every page boundary, all widths and datagram sizes, timestamps on and off",
 "No tests; page boundaries depend on width and datagram size.",
 ["sarwin/sarwin.go", "status/status.go", "holes/holes.go"],
 [("transfer", "received ranges and progress", "sarwin/sarwin.go:Transfer")],
 [("paging by the size of a datagram", "sarwin/sarwin.go:WriteStatus")],
 ["datagrams sent"])

prop("C21", "Commands keep the node's settings valid and do what they say",
 "After any sequence of interactive commands every global setting is a value defined for it, a command that sets something changes exactly that setting to what was asked, an invalid command changes nothing and says so, a valid one is not reported as an error, and displaying or asking for usage never changes anything. No input line, however formed, ends the process except exit and quit.",
 ["histories", "inputs"],
 "all sequences of command lines up to a depth over every command with every documented and several malformed arguments",
 "No tests of the command interpreter exist.",
 ["sarwin/sarwin.go", "sarflags/sarflags.go"],
 [("settings", "global flags, timeouts, counters", "sarflags/sarflags.go:Cliflags")],
 [("command table", "sarwin/sarwin.go:Run")],
 ["settings", "printed output"])

prop("C22", "Configuration is loaded and copied faithfully",
 "Loading a configuration file yields exactly the settings, flags and commands written in it, and a malformed or missing file gives an error, never a crash. Copying the settings gives an equal and fully independent copy.",
 ["configurations", "inputs"],
 "all single-field changes, omissions and type corruptions of the shipped configuration, and all single-field changes after a copy",
 "Tests only ever load the one shipped file and compare nothing.",
 ["sarflags/sarflags.go", "saratoga/saratoga.json"],
 [("settings", "configuration", "sarflags/sarflags.go:Cliflags")],
 [("JSON loading, copying", "sarflags/sarflags.go:ReadConfig, CopyCliflags")],
 ["settings after loading or copying"])

prop("C23", "Network addresses are parsed and removed exactly",
 "Parsing an IPv4 or IPv6 address with an optional interface yields a UDP endpoint with exactly that address, zone and the Saratoga port, which is shown as that, and text that is neither an address nor a host name that has one is rejected. Removing an address from a list removes every equal one, keeps the others in order and leaves the caller's other data alone.",
 ["inputs"],
 "all address texts from a grammar of valid and malformed forms, all lists up to a length over an address alphabet",
 "sarnet has no tests.",
 ["sarnet/sarnet.go"],
 [], [("address handling", "sarnet/sarnet.go")],
 ["returned endpoints and lists"])

prop("C24", "A transfer reassembles exactly under loss, duplication and reordering",
 "When a file is cut into data frames of any size, and the frames reach the receiver in any order with any of them lost or duplicated, then writing them by offset, tracking received ranges, reporting the missing ranges in status frames and resending exactly those until none are missing always ends, with a file identical to the original and a matching checksum, and never reports completion earlier.",
 ["fault_sequences", "histories", "inputs"],
 "all loss/duplication/reordering patterns of the frames of files up to a size, for every frame size and width, over all rounds",
 "The components are tested apart if at all; the guarantee is about their composition under faults.",
 ["data/data.go", "status/status.go", "holes/holes.go", "fileio/fileio.go", "fileio/checksum.go"],
 [("received ranges", "holes of the transfer", "holes/holes.go")],
 [("composition of the frame, hole and file layers", "data, status, holes, fileio")],
 ["received file", "status frames"])

prop("C25", "Beacons are emitted as commanded",
 "A beacon command sends exactly the configured number of beacons to each of the addresses named, in turn and at the configured interval, each a decodable beacon with the node's current flags and an identity made of its address and process. An address that is invalid or cannot be reached is reported and stops neither the node nor the other addresses; turning beacons off sends nothing. No socket is left open behind a command that has finished.",
 ["inputs", "configurations", "schedules"],
 "all beacon commands over address sets and counts, all settings of interval and count, under all interleavings of the senders",
 "No tests; needs a clock, a network and interleavings under control.",
 ["sarwin/sarwin.go", "beacon/beacon.go"],
 [("beacon settings", "flags, interval and count", "sarwin/sarwin.go")],
 [("sender activities", "sarwin/sarwin.go, beacon/beacon.go:Send")],
 ["datagrams sent and their times"])

prop("C26", "What the node shows is what it holds",
 "Every frame, directory entry and timestamp that can be decoded can be shown in full and in short: nothing crashes, showing changes nothing, and the text names every flag by its value and gives the session, offset, length, progress, holes, sizes, times, names and checksum the value holds, and none that it does not have. The peers and transfers commands list exactly the entries of the tables (transfers by direction, type, peer and file, and only those of the type asked for), each once and with its own values. What is printed to a window appears in that window, complete, to the letter and in the order in which it was printed, in whatever order the user interface gets to it; the screen shows the newest lines of the message and error windows. The clear command empties exactly the windows it names (all three without names) of what was printed before it, and what is printed afterwards is seen.",
 ["inputs", "histories"],
 "all headers of every frame type with boundary values in every field; all small peer and transfer tables; all sequences of messages to the windows up to a depth, with windows cleared between them",
 "The display functions are the user's only view of the protocol; tests only log their output.",
 ["data/data.go", "status/status.go", "beacon/beacon.go", "request/request.go", "metadata/metadata.go", "dirent/dirent.go", "timestamp/timestamp.go", "sarwin/sarwin.go"],
 [("tables", "peers and transfers", "beacon/beacon.go, sarwin/sarwin.go")],
 [("display", "Print, ShortPrint; sarwin/sarwin.go:Info, cmdPeers, fprintln")],
 ["texts returned", "windows"])

prop("C27", "The node starts exactly as configured, or ends telling why",
 "Given a command line, configuration and interface that are valid, the node works in the configured transfer directory (named absolutely or relative, in the configuration or in SARDIR), listens on the configured IPv6 and IPv4 multicast groups and port on the named interface and on no other, with multicast loopback and port sharing set on each socket, uses that interface's MTU, shows directory, free space and listeners, and then serves. If anything it needs is missing or refused (arguments, configuration, directory, its statistics, interface, terminal, group, socket or socket option) it ends with a message that names the cause, without crashing. Running, it ends when the user quits or when a listener or the user interface fails, having handed on every datagram that a failed listener had read, and it gives the terminal back whenever it ends.",
 ["configurations", "schedules", "fault_sequences"],
 "all combinations of valid and invalid settings; a failure of each thing the start needs, one and two at a time; all schedules up to a preemption bound of listeners, user interface and serving when one of them ends",
 "Start-up and shutdown cannot be reached by the tests at all: they need sockets, an interface and a terminal, and each of them to fail.",
 ["saratoga/saratoga.go", "sarnet/sarnet.go", "sarflags/sarflags.go"],
 [("listeners", "multicast sockets, their interface and options", "saratoga/saratoga.go, sarnet/sarnet.go"), ("directory", "the working directory", "saratoga/saratoga.go")],
 [("start", "saratoga/saratoga.go:main, sarnet/sarnet.go"), ("end", "saratoga/saratoga.go:main, listen")],
 ["system calls made", "terminal", "message at the end", "windows"])

prop("C28", "What is typed at the prompt is what is run",
 "At the command prompt, whatever keys are pressed in whatever order: the line shown after the prompt is the text typed and edited so far (overwriting, or inserting after Insert; deletion to the left; the cursor between the prompt and one place past the text); Enter runs exactly the text that is shown after the prompt, once, and gives a new, numbered prompt; an empty line does nothing; an earlier line can be gone back to, changed and run again without a new prompt being added; commands that do not exist are refused by name. This holds for lines longer than the window, for any number of commands (also beyond the height of the window), for any prompt, for characters of any length and whatever the size of the terminal, also when it changes. Ctrl-Space goes round the windows that are shown and back to the newest prompt, keys in the other windows change no command, and no command that is at work while keys are pressed changes where they go. Ctrl-P shows and hides the packet window, and Ctrl-C, exit and quit (alone or with a level 0 or 1), and nothing else, end the program.",
 ["inputs", "histories"],
 "all sequences of keys up to a depth after various texts and numbers of commands; lines of every length around the width of the window; runs of commands longer than the window; changes of the size of the terminal between keys; all schedules up to a preemption bound of keys pressed while commands are at work",
 "The tests do not touch the console; whether what is shown is what is run depends on the whole history of keys, prompts and scrolling.",
 ["sarwin/sarwin.go"],
 [("line", "the lines of the command window and the cursor", "sarwin/sarwin.go")],
 [("edit", "sarwin/sarwin.go:CursorLeft, CursorRight, BackSpace, CursorUp, CursorDown"), ("run", "sarwin/sarwin.go:GetLine, prompt"), ("switch", "sarwin/sarwin.go:switchView, showPacket")],
 ["lines of the command window", "cursor", "commands run"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))

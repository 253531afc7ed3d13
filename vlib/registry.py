"""What each check consists of."""
from . import build  # noqa: F401

TRANSFER_RULE = (
    "One evaluation is one complete execution of the real client and the real server in a simulated world. {} "
    "The fingerprint hashes every event (packets with opcode and block number, storage operations, socket operations, results) "
    "in order with the thread that did it; distinct ones are counted."
)
SIM_ASSUME = [
    "sockets, storage, clock and random source are the in-process stand-ins of /verif/harness handed to the code through its own generic parameters",
    "one thread of the code under test runs at a time in the simulation (true data races are the subject of C27)",
]


E2E_RULE = "One evaluation is {} against the real binary over loopback; distinct ones (request, name, options, outcome) are counted."
E2E_ASSUME = ["the file system of the sandbox behaves like the user's", "loopback loses nothing unless the check does it"]
E2E_NOTE = "Held on the executions of this run ({}); real binaries on a real file system and real sockets. Nothing is claimed about executions not driven."
NOT_APPLICABLE = {}
SIM_TECH = "runtime monitoring of simulated executions: offline checker over the event log"
SIM_NOTE = "Held on the executions of this run ({}); real client and server code under a deterministic simulated network, clock, storage and scheduler. Nothing is claimed about executions not driven."


def _registry():
    from .sim import sim

    r = {}
    r["C01"] = {
        "parts": [sim(20000, 400000)],
        "rule": TRANSFER_RULE.format("Upload with random size, content, block size, window, encryption level, reader kind, packet faults and thread scheduling; non-trivial when the client reported success."),
        "assumptions": SIM_ASSUME,
        "technique": SIM_TECH,
        "note": SIM_NOTE.format("integrity oracle on every reported success"),
    }
    r["C02"] = {
        "parts": [sim(20000, 400000)],
        "rule": TRANSFER_RULE.format("Download with random size, content, block size, window, encryption level, reader kind, packet faults and thread scheduling; non-trivial when the client reported success."),
        "assumptions": SIM_ASSUME,
        "technique": SIM_TECH,
        "note": SIM_NOTE.format("integrity oracle on every reported success"),
    }
    r["C04"] = {
        "parts": [sim(20000, 400000)],
        "rule": TRANSFER_RULE.format("Transfer with 1 to 30 disturbed packets at random or chosen places; non-trivial when at least one packet was disturbed."),
        "assumptions": SIM_ASSUME + ["delay between undisturbed packets is constant"],
        "technique": SIM_TECH,
        "note": SIM_NOTE.format("bounded-progress restatement of completion: success within 12 s + 4 retry intervals of the last disturbed packet"),
    }
    r["C03"] = {
        "parts": [sim(40000, 1000000)],
        "rule": TRANSFER_RULE.format("Data phase between a real receiver and a scripted or real sender which repeats, reorders, alters, skips and invents data packets; non-trivial when the receiver stored something."),
        "assumptions": SIM_ASSUME + ["stale data packets are less than half of the block number space old"],
        "technique": SIM_TECH,
        "note": SIM_NOTE.format("prefix monitor on every store operation"),
    }
    r["C07"] = {
        "parts": [sim(40000, 1000000)],
        "rule": TRANSFER_RULE.format("Data phase between a real sender and a scripted or real receiver which delays, repeats, drops and splits acknowledgements; non-trivial when data was sent."),
        "assumptions": SIM_ASSUME + ["no acknowledgement of a block which was never sent"],
        "technique": SIM_TECH,
        "note": SIM_NOTE.format("window, size, content and retransmission-cause monitor on every DATA packet"),
    }
    r["C08"] = {
        "parts": [sim(40000, 1000000)],
        "rule": TRANSFER_RULE.format("Data phase between a real receiver and a scripted or real sender which repeats, reorders, alters, skips and invents data packets; non-trivial when the receiver acknowledged something."),
        "assumptions": SIM_ASSUME,
        "technique": SIM_TECH,
        "note": SIM_NOTE.format("acknowledgement monitor on every ACK packet and store operation"),
    }
    r["C09"] = {
        "parts": [sim(40000, 1000000)],
        "rule": TRANSFER_RULE.format("Scripted clients with random option sets and values against a real server with random maxima; non-trivial when the transfer moved data."),
        "assumptions": SIM_ASSUME,
        "technique": SIM_TECH,
        "note": SIM_NOTE.format("option reply oracle plus flow monitors with the acknowledged values"),
    }
    r["C10"] = {
        "parts": [sim(40000, 1000000)],
        "rule": TRANSFER_RULE.format("Real client with random options against a scripted server with faithful, extended, enlarged and malformed option replies; non-trivial when data was moved or a reply was refused."),
        "assumptions": SIM_ASSUME,
        "technique": SIM_TECH,
        "note": SIM_NOTE.format("request and outcome oracle plus flow monitors with the acknowledged values"),
    }
    r["C11"] = {
        "parts": [sim(40000, 1000000)],
        "rule": TRANSFER_RULE.format("Real client against a scripted RFC 1350 server which ignores or rejects options, and scripted RFC 1350 clients against the real server; non-trivial when the transfer moved data."),
        "assumptions": SIM_ASSUME,
        "technique": SIM_TECH,
        "note": SIM_NOTE.format("completion and flow oracle with RFC 1350 defaults"),
    }
    r["C05"] = {
        "parts": [sim(12000, 300000)],
        "rule": TRANSFER_RULE.format("A client whose server is silent, vanishes, is cut off or is replaced by strangers at a random point of the transfer; non-trivial when the peer fell silent while the client was waiting."),
        "assumptions": SIM_ASSUME + ["virtual time: the code is charged only for the time it waits, not for the time it computes"],
        "technique": SIM_TECH,
        "note": SIM_NOTE.format("bounded-response monitor on the virtual clock"),
    }
    r["C06"] = {
        "parts": [sim(40, 4000, budget_s=120)],
        "rule": TRANSFER_RULE.format("A transfer of more than 65535 blocks with packet faults around the wrap of the block counter; non-trivial when the block counter wrapped."),
        "assumptions": SIM_ASSUME,
        "technique": SIM_TECH,
        "note": SIM_NOTE.format("integrity and completion oracle across the wrap, at up to three wraps"),
        "min_distinct": 20,
    }
    r["C13"] = {
        "parts": [sim(8000, 300000)],
        "rule": TRANSFER_RULE.format("A server with legitimate clients beside attackers sending random, altered, replayed, oversized and nonsensical datagrams to its ports; non-trivial when hostile datagrams arrived."),
        "assumptions": SIM_ASSUME + ["strangers open fewer sessions than the connection limit leaves room for"],
        "technique": SIM_TECH,
        "note": SIM_NOTE.format("panic, progress, reply and probe oracle"),
    }
    r["C14"] = {
        "parts": [sim(24000, 800000)],
        "rule": TRANSFER_RULE.format("A client with strangers on the network, a server which moves to another port, errors at any point, or nonsense in place of replies (executed twice where the comparison is with an undisturbed run); non-trivial when such packets arrived."),
        "assumptions": SIM_ASSUME,
        "technique": SIM_TECH + " and comparison of two executions",
        "note": SIM_NOTE.format("equal-behaviour, refusal and bounded-return oracle"),
    }
    r["C15"] = {
        "parts": [sim(3000, 100000)],
        "rule": TRANSFER_RULE.format("A server with 2 to 40 sessions at once, of which some fail, are cut off or abuse the protocol; non-trivial when at least two sessions overlapped."),
        "assumptions": SIM_ASSUME,
        "technique": SIM_TECH,
        "note": SIM_NOTE.format("per-session result, content and time oracle"),
    }
    enc = ("heap", "stack-enc", "threads")
    r["C19"] = {
        "parts": [sim(5000, 150000, flavours=enc)],
        "rule": TRANSFER_RULE.format("An encrypted transfer with all its packets recorded by a listener who knows the plaintext; non-trivial when encrypted packets were sent."),
        "assumptions": SIM_ASSUME + ["the reference decryption of /verif/harness (refcrypto.rs) is right"],
        "technique": SIM_TECH,
        "note": SIM_NOTE.format("plaintext, nonce, key and size oracle on every packet sent"),
    }
    r["C20"] = {
        "parts": [sim(8000, 250000, flavours=enc)],
        "rule": TRANSFER_RULE.format("An encrypted transfer with a man in the middle who alters, invents, replays and removes packets of the kinds its level protects; non-trivial when at least one packet was forged or removed."),
        "assumptions": SIM_ASSUME,
        "technique": SIM_TECH,
        "note": SIM_NOTE.format("integrity and completion oracle under forgery"),
    }
    r["C21"] = {
        "parts": [sim(8000, 250000, flavours=enc)],
        "rule": TRANSFER_RULE.format("Requests with every combination of identity, signature, session key, level and wrapping to servers with an authorization list or required encryption; non-trivial when the server received a request."),
        "assumptions": SIM_ASSUME,
        "technique": SIM_TECH,
        "note": SIM_NOTE.format("served/refused/silent oracle on every request"),
    }
    r["C22"] = {
        "parts": [sim(12000, 400000, flavours=enc)],
        "rule": TRANSFER_RULE.format("A client which wants encryption against an impostor who answers in the clear, with a lower level, without or with a wrong identity; non-trivial when the client returned."),
        "assumptions": SIM_ASSUME,
        "technique": SIM_TECH,
        "note": SIM_NOTE.format("no content in the clear, no success, no session with a wrong identity"),
    }
    r["C18"] = {
        "parts": [sim(8000, 250000)],
        "rule": TRANSFER_RULE.format("A peer which sends files around the size limit, lies about sizes or keeps sending, or more clients than the connection limit; non-trivial when the limit was reached or tried."),
        "assumptions": SIM_ASSUME,
        "technique": SIM_TECH,
        "note": SIM_NOTE.format("stored size, final acknowledgement, report, refusal and session count oracle"),
    }
    r["C25"] = {
        "parts": [sim(8000, 250000)],
        "rule": TRANSFER_RULE.format("A transfer with errors, short reads and writes, interruptions and would-block at random or chosen storage operations of either side, beside other sessions; non-trivial when a fault fired."),
        "assumptions": SIM_ASSUME,
        "technique": SIM_TECH + ", with fault injection into the storage",
        "note": SIM_NOTE.format("content, report and peer-is-told oracle, other sessions unaffected"),
    }
    r["C29"] = {
        "parts": [sim(1200, 30000)],
        "rule": TRANSFER_RULE.format("A long history of completed, failed, refused, abandoned and repeated sessions with a small connection limit, then as many clients as the limit allows; non-trivial when sessions ended in several ways."),
        "assumptions": SIM_ASSUME,
        "technique": SIM_TECH,
        "note": SIM_NOTE.format("open file, session and socket balance after every history, probes up to the limit are served"),
    }
    from . import paths

    ps = paths.parts()
    r["C16"] = {
        "parts": [ps["C16"]],
        "rule": E2E_RULE.format("a request (read, write or list) with an odd name, to a tree with links of all kinds"),
        "assumptions": E2E_ASSUME,
        "technique": "runtime monitoring of the real server: file system snapshots around every request",
        "note": E2E_NOTE.format("snapshot oracle outside and inside of the served directory"),
    }
    r["C17"] = {
        "parts": [ps["C17"]],
        "rule": E2E_RULE.format("an upload to an existing name in some spelling, a replacement, or a race of 2 to 8 uploads of one new name"),
        "assumptions": E2E_ASSUME,
        "technique": "runtime monitoring of the real server: file system snapshots around every request, races of real clients",
        "note": E2E_NOTE.format("refusal, winner and exact content oracle"),
    }
    r["C30"] = {
        "parts": [ps["C30"]],
        "rule": E2E_RULE.format("a listing of one directory with one set of options"),
        "assumptions": E2E_ASSUME + ["names which are not UTF-8 or contain a line feed are not generated"],
        "technique": "runtime monitoring of the real server: listing compared with the directory",
        "note": E2E_NOTE.format("line by line comparison with the directory"),
    }
    from . import cli

    ps = cli.parts()
    r["C31"] = {
        "parts": ps["C31"],
        "rule": E2E_RULE.format("a transfer of one flavour's command-line client with one flavour's server, or one provoked failure"),
        "assumptions": E2E_ASSUME,
        "technique": "runtime monitoring of the real binaries: exit status, message and destination compared with the source",
        "note": E2E_NOTE.format("exit status against content, all 16 pairs of flavours, 30 kinds of failure"),
    }
    codec = "runtime monitoring: library calls on generated inputs watched by a reference implementation"
    r["C12"] = {
        "parts": [sim(20000, 600000)],
        "rule": "One evaluation is a batch of packets encoded, decoded, altered and truncated; the fingerprint hashes them.",
        "assumptions": ["the reference codec of /verif/harness (refcodec.rs) is right", "the order of options in a packet carries no meaning"],
        "technique": codec,
        "note": "Held on the inputs of this run (reference codec as oracle, all four flavours). Nothing is claimed about inputs not generated.",
    }
    r["C23"] = {
        "parts": [sim(40000, 1000000, flavours=enc), ps["C23"]],
        "rule": "One evaluation is content written and read through the streams with one split of the calls and one alteration of the stored form, or the same through the command line; non-trivial always; distinct contents, splits and alterations are counted.",
        "assumptions": ["no forgery of authenticated encryption"] + E2E_ASSUME,
        "technique": codec + ", and the real binaries with altered files",
        "note": "Held on the inputs of this run (round trip, plaintext search, corruption oracle). Nothing is claimed about inputs not generated.",
    }
    r["C24"] = {
        "parts": [sim(20000, 600000, flavours=enc), ps["C24"]],
        "rule": "One evaluation is a batch of keys, texts and key files, or identities used through the command line; distinct ones are counted.",
        "assumptions": ["the reference decoder of /verif is right"] + E2E_ASSUME,
        "technique": codec + ", and the real binaries with generated key files",
        "note": "Held on the inputs of this run (strict base64 and line oracle). Nothing is claimed about inputs not generated.",
    }
    from . import syncdir

    r["C28"] = {
        "parts": syncdir.parts()["C28"],
        "rule": E2E_RULE.format("a history of files written in a directory which is kept in sync"),
        "assumptions": E2E_ASSUME + ["files are not renamed or linked into the directory, and not rewritten while they are uploaded"],
        "technique": "runtime monitoring of the real binaries: server directory compared with what was written",
        "note": E2E_NOTE.format("server directory against the record of what was written and closed"),
    }
    from . import build, cli, sanitize as sz, service

    e2e_scen = [(service.hostile, 6, 60), (cli.pair, 24, 200), (service.limits, 8, 60)]
    r["C26"] = {
        "parts": [
            sz.prepare([(build.miri, f) for f in ("stack", "stack-enc", "heap")] + [(build.harness, f, v) for f, v in (("stack", "msan"), ("stack-enc", "msan"), ("heap", "asan"), ("stack-enc", "asan"))]
                       + [(build.binary, b, "asan") for b in ("tftp", "tftp-stack-encryption")] + [(build.binary, b) for b in ("tftp-stack", "tftp-stack-encryption")]),
            sz.simulations("msan", "stack", 2500, 40000, ("uninitialised",)),
            sz.simulations("msan", "stack-enc", 2500, 30000, ("uninitialised",)),
            sz.simulations("asan", "heap", 1500, 25000, ("overflow", "freed")),
            sz.simulations("asan", "stack-enc", 1500, 25000, ("overflow", "freed")),
            sz.real("asan", ("tftp", "tftp-stack-encryption"), e2e_scen, 6, (60, 400)),
            sz.real("memcheck", ("tftp-stack", "tftp-stack-encryption"), [(service.hostile, 2, 20), (cli.pair, 8, 80)], 6, (60, 400)),
            sz.miri,
        ],
        "rule": "One evaluation is an execution of the real code in an instrumented build (a simulated transfer, a batch of packets, a scenario of real programs); all of them count as non-trivial.",
        "assumptions": ["MemorySanitizer, AddressSanitizer, Miri and memcheck report what they claim to (each one has to report faults made on purpose first)", "what the system calls write is taken as initialised"],
        "technique": "sanitizers: MemorySanitizer, AddressSanitizer, Miri and memcheck on the simulation and on the real binaries",
        "note": "Held on the executions of this run; code which was not reached is not judged.",
    }
    r["C27"] = {
        "parts": [
            sz.prepare([(build.binary, "tftp", "tsan"), (build.blocking,), (build.blocking, "tsan"), (build.blocking, "miri"), (build.harness, "threads")]),
            sz.real("tsan", ("tftp",), [(service.crowd, 12, 120), (service.hostile, 4, 40), (syncdir.history, 12, 100), (service.history, 4, 30)], 4, (120, 600)),
            sz.blocking(None, 20000, 400000),
            sz.blocking("tsan", 2000, 40000),
            sz.blocking("miri", 6, 60),
            sim(3000, 60000, flavours=("threads",), prop_arg="C15", name="sessions-of-the-threaded-server"),
            sim(1000, 20000, flavours=("threads",), prop_arg="C29", name="ends-of-sessions-of-the-threaded-server"),
        ],
        "rule": "One evaluation is an execution with several threads: a scenario of real programs under the race detector, a file followed while another thread writes it, or a simulated crowd of sessions under random thread switches.",
        "assumptions": ["ThreadSanitizer and Miri report what they claim to", "the metrics exporter is not part of the instrumented build (its crate does not build with that toolchain)"] + SIM_ASSUME,
        "technique": "race detection (ThreadSanitizer, Miri) and monitoring of progress under injected delays and thread switches",
        "note": "Held on the schedules of this run.",
    }

    sv = service.parts()
    for p, what in (("C13", "datagrams of an attacker to a real server beside real transfers"), ("C15", "a crowd of clients on a real server"),
                    ("C18", "an upload, path or set of clients around a limit of a real server"), ("C29", "a history of sessions of a real server")):
        r[p]["parts"].append(sv[p])
        r[p]["rule"] += " In the second part: " + what + " over loopback."
        r[p]["assumptions"] = r[p]["assumptions"] + E2E_ASSUME
        r[p]["technique"] += ", and of the real server over loopback"
    from . import strangers

    st = strangers.parts()
    for p, what in (("C14", "a real client with strangers on the network"), ("C15", "a session of a real server with strangers at its sockets, with the connect of its socket delayed")):
        r[p]["parts"].append(st[p])
        r[p]["rule"] += " In the last part: " + what + ", over loopback."
    r["C14"]["assumptions"] = r["C14"]["assumptions"] + E2E_ASSUME
    r["C14"]["technique"] += ", and of real clients over loopback"
    return r


class _Lazy(dict):
    def __missing__(self, k):
        self.update(_registry())
        if k not in self:
            raise KeyError(k)
        return self[k]


REGISTRY = _Lazy()

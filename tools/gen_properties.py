#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

DS="smtp-message/src/data/stream.rs"; DK="smtp-message/src/data/sink.rs"; PR="smtp-message/src/streamext/prependable.rs"
IN="smtp-server/src/interact.rs"; CL="smtp-server/src/crlflines.rs"; SR="smtp-server/src/sendreply.rs"; CF="smtp-server/src/config.rs"
RP="smtp-message/src/reply.rs"; SS="smtp-message/src/smtpstring.rs"; CM="smtp-message/src/command.rs"; EM="smtp-message/src/email.rs"
RUN="smtp-queue/src/run.rs"; SQ="smtp-queue/src/send_queued_mail.rs"; ST="smtp-queue/src/storage.rs"; TR="smtp-queue/src/transport.rs"
QHOOK="the in-progress-mail trait that the storage interface refers to is not exported, so no storage can be written outside the crate; exported under --cfg yuubind_sim"

p("C01","Message bodies cross the wire unchanged",
 "Whatever bytes a sender passes as a message body, in whatever pieces, and however the network re-splits, delays or stalls the encoded stream, the receiver recovers exactly those bytes, with CRLF appended only when a non-empty body did not already end with CRLF. Several messages sent back to back over one connection each arrive separately and whole, in order, and every transfer finishes once the network stops stalling.",
 ["inputs","schedules","fault_sequences"],"every body, every split on the sending side, every segmentation, delay, stall and back-pressure pattern on the wire, every number of consecutive messages on a connection",
 "the quickcheck test feeds the wire one byte at a time from an always-ready iterator with uniformly random bytes (dots after CRLF almost never occur), no pending, no back-pressure, one message per connection",
 [DK,DS,PR],[("dot-stuffing across pieces by a 3-state machine carried between calls",DK),("un-stuffing with a state machine carried across packets and a held-back tail of at most 2 bytes",DS),("bytes after the terminator given back to the connection",PR)],
 ["bytes written to the sink","items yielded by the receiving stream","completion report","bytes left on the connection"],
 [("sender line state","whether the last bytes sent were CR, CRLF or other",DK),("receiver line state","same at the beginning of the unprocessed buffer",DS)])

p("C02","End of message is found exactly, under every segmentation",
 "For any byte stream received in the data phase, well formed or not, the recovered body and the place where the message ends depend only on the bytes and not on how they were packetised: the message ends at the first CRLF-delimited line that is a single dot, one leading dot is removed from every other line that starts with one, and nothing else is changed. Every byte after the terminator, and no byte before it, is left in order for whoever reads the connection next.",
 ["inputs","schedules"],"every byte sequence on the wire, every segmentation including empty packets and splits inside CRLF.CRLF, every pattern of pending reads",
 "seven hand-written packet sequences from an always-ready iterator; they cannot cover all split points of all sequences, nor pending reads between them",
 [DS,PR,"smtp-message/src/data/mod.rs"],[("windowed scan with hold-back of an undecided tail",DS),("surplus bytes pushed back on completion",DS+":complete")],
 ["body bytes yielded","bytes read from the connection afterwards","completion report"],
 [("line state at start of buffer","CR / CRLF / other / finished / early end",DS)])

p("C03","A truncated message is never taken as complete",
 "If the connection ends at any point before the end-of-message line has fully arrived, the receiver is told that the message is incomplete, never that it is complete, and the bytes it was given up to then are a correct decoding of what had arrived. A message whose end-of-message line did arrive is always reported complete, even when the connection ends right behind it. On the server, an interrupted message never gets a positive final reply from a handler that refuses incomplete messages, and nothing in it is executed as a command.",
 ["fault_sequences","inputs","crash_points"],"every byte position at which the connection can end, every segmentation before it, every stall",
 "one test truncates one message at one position and only looks for a panic",
 [DS,IN],[("early end recorded separately from the finished state",DS),("completion returns an error after an early end",DS+":complete"),("server requires the handler to have checked completion",IN)],
 ["completion report","body bytes yielded","final reply","mail handler outcome"])

p("C04","Sender emits only a prefix of the right encoding until finished",
 "At every instant, including when a write fails, stalls or is refused mid-message, the bytes a message sender has put on the wire are a prefix of the unique dot-stuffed encoding of the body given so far; the end-of-message line appears only when the sender is told to finish, so an aborted transfer can never be mistaken for a complete message. Every write failure of the transport is reported to the caller of the operation during which it happened, and a finish that reports success has put the whole encoding on the wire and flushed it.",
 ["inputs","schedules","fault_sequences","crash_points"],"every body, split, back-pressure pattern, write failure at any operation, abort after any operation",
 "the single sink test writes five short bodies to an in-memory vector that never fails or blocks",
 [DK],[("escape by re-sending the dot from the remaining item",DK+":send"),("state-dependent terminator",DK+":end"),("errors propagated with ?",DK)],
 ["bytes accepted by the transport","bytes flushed","result of each operation"],
 [("sender line state","CR / CRLF / other",DK)])

p("C05","Exactly one reply per command, in order",
 "A session sends one greeting, then for every complete command line exactly one complete reply, in command order (a message transfer gets two: the go-ahead and the final verdict), and nothing else. The reply bytes are a function of the received bytes and of the embedder's decisions only: pipelining, packet boundaries, delays, slow writers and slow policy callbacks never add, drop, duplicate, merge or reorder replies.",
 ["inputs","schedules","histories","configurations"],"every command sequence, every segmentation and pipelining pattern, every write back-pressure pattern, every latency of the embedder's callbacks, every reply text the embedder may choose including the empty one",
 "the integration test runs about ten fixed dialogues with always-ready input, output and callbacks, and non-empty one-line replies",
 [IN,CL,SR,CF],[("line-at-a-time loop awaiting each reply",IN),("surplus bytes of a packet pushed back after a line",CL),("reply cut into lines with continuation marks",SR)],
 ["bytes written to the client","callback log"],
 [("pushed-back packet","bytes received behind the current line",PR)])

p("C06","Mail transaction rules and envelope fidelity",
 "A message is handed over with exactly the sender accepted by the last accepted MAIL and exactly the recipients accepted since, in order and as possibly rewritten by the embedder's filters; refused ones never appear and nothing leaks from an earlier transaction. Each filter sees the very address the client gave, the local part both as written and unquoted. MAIL inside a transaction, RCPT or DATA outside one and DATA without a recipient are refused without consulting the embedder or altering the transaction; a DATA refused by the embedder keeps the transaction, any completed transfer ends it, and every other command leaves it as it was. The embedder's per-connection data is the same in every callback of the session.",
 ["histories","inputs","configurations","schedules"],"every sequence of commands (valid, out of order, unknown, malformed), every sequence of filter verdicts and rewrites, every segmentation",
 "a handful of dialogues of at most six commands; data-filter refusal, address rewriting, several transactions per session and per-connection data are never exercised",
 [IN,CF,"smtp-server/src/metadata.rs",EM],[("optional transaction state taken on DATA and restored on refusal",IN),("recipient appended only on acceptance",IN)],
 ["arguments of every embedder callback","replies"],
 [("transaction","sender and accepted recipients, absent outside a transaction",IN)])

p("C07","A mail is acknowledged only after its handler accepted it",
 "The positive final reply for a message is sent only after the embedder's mail handler finished with acceptance for that very message, and a handler's refusal reaches the client as that refusal; the handler runs once per accepted DATA command and never for a refused one. The go-ahead to send the message is sent before the handler asks for message bytes, and only if the data filter accepted. A write failure or disconnection at any instant may lose an acknowledgement but never produces one for a mail that was not accepted.",
 ["schedules","fault_sequences","crash_points","histories"],"every session history, every handler latency and consumption pattern, every instant of write failure or disconnection",
 "tests use a handler that is ready at once and a writer that never fails, so the order of hand-over and acknowledgement is not observable",
 [IN],[("verdict awaited before the final reply is built",IN),("completion of the body asserted",IN)],
 ["handler start and verdict events","bytes handed to the writer"])

p("C08","A waiting client is always answered",
 "Whenever the server is waiting for more input, the replies to everything it has received completely so far have been flushed to the client; so a client that sends each command only after the previous reply arrived always makes progress, however slowly and however fragmented bytes travel in either direction. No wake-up is lost: as soon as input, writer or callback becomes ready, the session continues without any further event.",
 ["schedules","fault_sequences","inputs"],"every lock-step or pipelined client, every latency, every fragmentation, every pattern of write buffering and back-pressure, every ordering of wake-ups",
 "all input is available at once in the tests and the writer is a vector which needs no flush; a missing flush, a read past the current command or a lost wake-up is invisible",
 [IN,SR,CL,DS],[("each reply flushed through the sink before the next read",SR),("line returned as soon as its CRLF is buffered",CL),("body stream ends as soon as the terminator is buffered",DS)],
 ["quiescence of the simulation with an unfinished client","bytes flushed to the client"])

p("C09","A write failure ends the session at once",
 "If writing a reply fails, at whatever reply and in whatever phase of the write, the session ends with that failure: no further bytes are written, no further command is executed and no embedder callback is invoked afterwards. What had been written before is a prefix of the correct replies.",
 ["fault_sequences","crash_points","histories"],"every session history, every position of the failure (greeting, command reply, go-ahead, final reply; any line of a multi-line reply), every phase of the write (readiness, hand-over, flush)",
 "no test has a failing writer",
 [IN,SR],[("every reply awaited with error propagation",IN),("error of any line aborts the reply",SR)],
 ["session result","callback log after the failure","operations on the writer after the failure"])

p("C10","End of input ends the session cleanly",
 "When the client closes its side, the session answers everything that was completely received, then ends successfully in bounded steps: an unterminated last line is neither executed nor answered, and once the input has signalled its end it is not read again, in whatever phase the end occurs.",
 ["fault_sequences","crash_points","inputs"],"every byte position of the end of input in every dialogue, in command and data phase",
 "inputs in the tests are iterators that tolerate being read after their end and end mostly at command boundaries",
 [IN,CL,DS],[("line reader returns nothing at end of input",CL),("loop ends with success",IN)],
 ["session result","reads after end of input","callback log","replies"])

p("C11","Replies are well-formed protocol lines carrying the exact text",
 "Every reply on the wire is one or more lines of at most 512 bytes, each the same three-digit code, a hyphen on all but the last line and a space on the last, text and CRLF, and the texts concatenated are exactly what the embedder asked for, for every length including empty and beyond one line. Back-pressure in the middle of a multi-line reply changes nothing on the wire.",
 ["inputs","configurations","schedules"],"every code below 1000, every printable text of every length, every back-pressure pattern between and inside lines",
 "only one-line replies of a few dozen bytes are ever sent; splitting and continuation are never exercised by a test",
 [SR,RP,SS],[("text cut in chunks of the maximum length",SS+":byte_chunks"),("last chunk marked",SR),("code and mark serialised",RP+":send_to")],
 ["bytes written to the client"])

p("C12","No input can crash, hang or derail a session",
 "For every byte sequence a client can send, in any segmentation and of any length, the session does not panic, overflow the stack or spin, each line terminated by CRLF gets its reply, and a session which has received any amount of garbage still executes subsequent valid commands normally.",
 ["inputs","schedules","histories"],"every byte sequence, including non-ASCII, bare CR or LF, overlong lines, half commands, hostile addresses and literals, and every segmentation of it",
 "one fuzzer-found input is kept as a test; the fuzz target for the server does not even compile at this commit",
 [IN,CL,CM,EM,"smtp-message/src/domain.rs","smtp-message/src/parameters.rs","smtp-message/src/byteslice.rs"],[("parse failure answered as unrecognised",IN),("line framing independent of parsing",CL)],
 ["process outcome","replies","callback log"])

p("C13","Concurrent sessions do not affect each other",
 "Any number of sessions served concurrently in one process each behave exactly as if they were alone: replies, envelopes, bodies and per-connection data never mix, and a stalled, failing, aborted or hostile session does not delay or change any other.",
 ["schedules","histories","fault_sequences"],"every interleaving of several sessions, with some of them stalled, cut or failing",
 "tests run one session at a time to completion",
 [IN,CL,DS,PR],[("all session state lives in the session's own future",IN)],
 ["per-session reply bytes and callback log"])

p("C14","Pushed-back input is read first, once, and never lost",
 "An item pushed back on a connection is the next item read, exactly once, ahead of everything not yet read, and also after the connection has ended; pushing back while an item is already held is refused and leaves the held item in place. In every interleaving of reads, pending reads, push-backs and end of stream, the items read are the items received plus those pushed back, none lost or duplicated.",
 ["histories","schedules"],"every interleaving of reads, pending reads, push-backs and end of stream",
 "no test pushes anything back except indirectly, from always-ready streams",
 [PR],[("single slot served before the underlying stream",PR)],
 ["items read","result of push-back"],[("slot","the one pushed-back item",PR)])

p("C15","A queued mail is removed only after its delivery succeeded",
 "The queue asks storage to drop a mail only after the transport reported success for a delivery of that very mail, and never for a mail whose delivery failed, was cut short by a crash or was not attempted. At every crash point each accepted mail is therefore still stored (queued or in progress) or has been delivered.",
 ["schedules","crash_points","fault_sequences","histories"],"every number of mails, every latency and failure of every storage and transport operation, a crash at every step, several restarts, several instances sharing the storage",
 "the queue crate has no tests at all",
 [SQ,RUN,ST,TR],[("removal chained behind a successful transport result",SQ),("failure branch returns the mail to the queue",SQ)],
 ["storage operations with their arguments","transport results","durable storage contents at crash"],
 [("stored mail state","queued, in progress or gone, owned by the embedder's storage",ST)],QHOOK)

p("C16","Every queued mail is eventually delivered",
 "Every mail present in storage when the queue starts, queued or left in progress, is attempted, and is attempted again after each failed delivery until one succeeds and the mail is removed; no number of failures or of other mails makes the queue give up on it. After crashes and storage failures, a restart that runs without faults delivers everything that is left, within the recovery delay plus bounded time.",
 ["schedules","fault_sequences","crash_points","histories"],"every set of mails, every sequence of delivery failures, crashes and storage errors, followed by a fault-free restart",
 "the queue crate has no tests at all",
 [SQ,RUN],[("retry task spawned after a cancelled delivery",SQ),("start-up listing of queued and in-progress mails",RUN)],
 ["deliveries","durable storage contents at the end"],None,QHOOK)

p("C17","No mail is delivered twice without a crash or an ambiguous failure",
 "As long as no process crashes, no operation both takes effect and reports failure, storage does not fail to remove a delivered mail, and every delivery attempt ends within an hour of being started, each mail is delivered successfully at most once (exactly once if no storage operation fails) and no two attempts for the same mail ever overlap, also when several instances run on the same storage, when mails are listed while they are being sent, and however slow the start-up listing is.",
 ["schedules","histories","configurations","fault_sequences"],"every interleaving of listing, sending, failing, cancelling and recovering, one or more instances, listings stretching over minutes to hours",
 "the queue crate has no tests at all",
 [RUN,SQ,ST],[("mail atomically moved to in-progress before it is sent",SQ),("found in-progress mails left alone for an hour",RUN)],
 ["transport attempts per mail with start and end times"],None,QHOOK)

p("C18","Mails found in progress are left alone for an hour, then recovered",
 "A mail which the queue finds already marked in progress when it starts is not touched until at least one hour after it was found, since whoever marked it may still be sending it; it is then returned to the queue once and delivered. If it has meanwhile been completed or taken over, it is not sent, and neither this nor any failure concerning one found mail affects the recovery of the others.",
 ["schedules","crash_points","fault_sequences"],"every set of leftovers, every listing latency, every moment at which the real owner finishes, crash and restart at any time",
 "the queue crate has no tests at all, and the delay is an hour of wall-clock time",
 [RUN],[("one-hour delay before cancelling a found mail",RUN),("independent task per found mail",RUN)],
 ["time of the recovery operation relative to the listing","deliveries"],None,QHOOK)

p("C19","A stuck or failing mail does not hold back the others",
 "Deliveries are independent: with some mails stuck for ever in any stage (marking, loading, sending, closing) or failing again and again, every other listed mail is still delivered, none waits for another's attempt to end, and the start-up scan itself completes regardless of deliveries in progress; nor does a list that stalls for ever hold back the mails it has already given.",
 ["schedules","fault_sequences"],"every choice of stuck or failing mails and stages, every interleaving",
 "the queue crate has no tests at all",
 [RUN,SQ],[("one spawned task per mail",RUN),("retry in its own task",SQ)],
 ["deliveries of the healthy mails and their times","completion of the scan"],None,QHOOK)

p("C20","Each delivery attempt follows the storage protocol and carries the stored mail",
 "A mail is handed to the transport only after storage confirmed that it is marked in progress and delivered its contents, and with exactly the sender, recipients, content and metadata storage returned for that mail. Each attempt is then closed exactly once, in agreement with its outcome: completed after success, returned to the queue after failure, and a retry starts only after storage confirmed the return.",
 ["schedules","histories","fault_sequences"],"every interleaving of any number of concurrent attempts, every latency and failure of every operation",
 "the queue crate has no tests at all",
 [SQ,"smtp-queue/src/mail.rs"],[("chain of mark, load, send, close",SQ)],
 ["sequence of storage and transport operations per mail and their arguments"],None,QHOOK)

p("C21","The start-up scan covers everything and reports its failures",
 "The queue's start-up reports success only after both the list of queued mails and the list of in-progress mails have been read to the end and every entry of both has been taken charge of; if reading either list fails, start-up reports failure, and the mails already taken charge of are still processed.",
 ["schedules","fault_sequences"],"every length of the two lists, every latency between entries, a failure at every position",
 "the queue crate has no tests at all",
 [RUN],[("sequential scans with error propagation",RUN)],
 ["result of start-up and its time relative to the listings","operations per listed mail"],None,QHOOK)

p("C22","Relay end to end: no loss, no corruption, bounded duplication",
 "A mail queued on one host and relayed to a server over a network that delays, fragments, stalls and resets connections, with both hosts crashing at arbitrary times, arrives at least once with exactly its envelope and content, and leaves the queue only after the server has stored it. The server never stores a mail that was not sent, nor a truncated or merged one; and it stores a mail more than once only if a connection was lost or a host crashed after the complete message had been handed to the network, the queue's storage failed to remove the delivered mail, or a single delivery took longer than the hour the queue allows for it. Every command the library builds for the dialogue (with any valid address, domain, parameters and text) is understood by the server.",
 ["fault_sequences","crash_points","schedules","inputs"],"every set of mails, every network fault sequence, crash and restart of either host at any step",
 "no test joins queue, client side builders, message framing and server",
 [SQ,RUN,IN,DK,DS,"smtp-message/src/mail/mod.rs","smtp-message/src/rcpt/mod.rs",RP],[("at-least-once queue",SQ),("acknowledgement after acceptance",IN),("terminator only at the end",DK)],
 ["mails stored at the server","durable queue contents","connection history"],None,QHOOK)

p("C23","Command builders and parser are inverse",
 "Every command built by the library parses back to an equal command, for every valid address, domain and parameter set.",
 ["inputs"],"every command value with valid components",
 "about two examples per command are tested in each direction",
 [CM,"smtp-message/src/mail/mod.rs","smtp-message/src/rcpt/mod.rs","smtp-message/src/parameters.rs"],[("hand-written builder and nom grammar per command",CM)],["bytes built","command parsed"])
p("C24","Reply line builder and parser agree and enforce the limits",
 "A reply line is built if and only if its text fits one line and is printable, and parses back to itself.",
 ["inputs"],"every code, mark and text","four parse examples and two refusals are tested",
 [RP],[("length and byte check",RP+":build")],["build result","parse result"])
p("C25","Address grammar and canonical local part",
 "Exactly the address and domain forms of the documented grammar are accepted, and two spellings of a local part that differ only in quoting have the same canonical form.",
 ["inputs"],"every byte string","about twenty addresses are tested",
 [EM,"smtp-message/src/domain.rs"],[("nom grammar",EM),("unquoting scan",EM+":localpart")],["parse result","canonical local part"])

p("C26","What has arrived of a message is handed on without waiting for more",
 "While a message is being received, everything that has arrived of it is handed on to whoever reads it (bare or in a session) before more is asked of the network, except for the few bytes which may turn out to belong to the end-of-message line; so a sender that pauses or waits at any point, for any time, never leaves the receiver without what it already sent, and a message of any length passes through without being collected first. What has been handed on is at every moment a prefix of the right contents.",
 ["inputs","schedules","fault_sequences"],"every message, every point at which the sender waits, every segmentation and delay",
 "the tests feed whole messages from always-ready streams and look at the concatenated result only",
 [DS,PR,IN,CL],[("emit what is decided, keep at most the tail that may be a terminator",DS)],["blocks handed to the reader while the sender waits"])
p("C27","A message its handler leaves unfinished is never taken for commands",
 "If an embedder's mail handler returns, with whatever verdict, without having taken its message to the end, or claims completion too early, then no byte of that message is ever executed or answered as a command, no later reply or callback differs from what it would be had the whole message been skipped, and a message that has not arrived whole is not acknowledged; the session may instead end there.",
 ["inputs","schedules","fault_sequences"],"every message content (including complete dialogues), every point at which the handler gives up, every packetisation and kind of buffer",
 "no test has a handler that does not read its message",
 [IN,DS,PR],[("refusal to go on with an unfinished message",IN),("completion only at the end",DS+":complete")],["callbacks and replies after the handler returned"])

with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80, x["title"]
        f.write(json.dumps(x)+"\n")
print(len(P))

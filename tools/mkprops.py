import json
I="smtp-server/src/interact.rs"; CR="smtp-server/src/crlflines.rs"; SR="smtp-server/src/sendreply.rs"; CF="smtp-server/src/config.rs"; ME="smtp-server/src/metadata.rs"; DE="smtp-server/src/decision.rs"
DS="smtp-message/src/data/stream.rs"; DK="smtp-message/src/data/sink.rs"; PR="smtp-message/src/streamext/prependable.rs"; CM="smtp-message/src/command.rs"; EM="smtp-message/src/email.rs"; DO="smtp-message/src/domain.rs"; RE="smtp-message/src/reply.rs"; PA="smtp-message/src/parameters.rs"; BS="smtp-message/src/byteslice.rs"; SS="smtp-message/src/smtpstring.rs"; SP="smtp-message/src/stupidparsers.rs"; MA="smtp-message/src/mail/mod.rs"; RC="smtp-message/src/rcpt/mod.rs"; PRS="smtp-message/src/parseresult.rs"
QR="smtp-queue/src/run.rs"; QS="smtp-queue/src/send_queued_mail.rs"; QM="smtp-queue/src/mail.rs"; QT="smtp-queue/src/storage.rs"; QP="smtp-queue/src/transport.rs"
P=[]
def p(id,title,st,over,text,why,files,mech,obs,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
OUT=["bytes written to the client","calls made to the server's configuration"]
STATE=[("conversation state","the sender and recipients accepted so far and the connection's user data",I)]
T3="The session tests run about a dozen fixed conversations, each fed in one or a few packets to an always-ready writer."
p("S01","One reply per command line, in order, greeting first",
 "A session sends one greeting, which by default starts with the configured host name, before anything else, and then for every CRLF-terminated command line exactly one reply, in the order of the commands, where the end of an accepted message body counts as one more reply. A reply is only written after the decision it reports has been made, and nothing else is ever written to the client.",
 ["inputs","histories"],"every sequence of command lines and message bodies, valid or not, and every policy",
 T3+" Reply counts and order depend on the whole history of commands, refusals and bodies, of which they sample a handful.",
 [I,SR,CR],[("command loop that answers every parsed or refused line",I),("reply writer",SR)],OUT,None,STATE)
p("S02","Commands out of sequence are refused and change nothing",
 "A sender command while a mail is already open, a recipient command without an accepted sender, and a data command without at least one accepted recipient are each answered by the refusal the configuration defines for that case, without consulting the policy. They, unknown commands and commands that are not implemented leave the sender, the recipients and the user data of the session as they were; after a mail has been handled, accepted or refused, the next one starts from nothing.",
 ["inputs","histories"],"every sequence of commands under every pattern of accepted and refused commands",
 T3+" The state machine's reachable histories grow exponentially with their length; the tests contain a few of length up to six.",
 [I,CF],[("match on the open mail",I),("refusal replies",CF)],OUT,None,STATE)
p("S03","The mail handler gets exactly the accepted envelope",
 "When a message is handed over, its sender is the one accepted for this mail and its recipients are exactly those that were accepted, in order and with duplicates, as rewritten by the policy, none refused and none from another mail. The handler is called exactly once per accepted data command and never otherwise.",
 ["inputs","histories"],"every sequence of sender, recipient and data commands with any pattern of refusals and rewrites, over several mails in one session",
 T3+" None of them rewrites addresses or repeats recipients across several mails.",
 [I,ME,CF],[("envelope built up from accepted commands and moved into the handler",I)],["arguments of the mail handler"],None,STATE)
p("S04","The policy decides, once per command, on what the client sent",
 "Each in-sequence sender, recipient and data command leads to exactly one consultation of the policy with the address the client sent, the current envelope and the connection's user data, and the reply is the acceptance reply or the refusal exactly as decided (code and text). A refused sender opens no mail, and a refused recipient or data command leaves the mail as it was before, so that more recipients or another data command may follow. An address the policy rewrites is the one used from then on, and what the policy stores in the user data is what it finds there at every later consultation of the session.",
 ["inputs","histories","configurations"],"every policy (decisions, refusal texts, rewrites, user data updates) and every conversation",
 T3+" Their one policy refuses one fixed address and never touches the user data.",
 [I,CF,DE,ME],[("awaited policy calls whose decision is matched",I),("default replies",CF)],OUT,None,STATE)
p("S05","Message bodies arrive exactly and the session resumes right after",
 "The handler reads exactly the message the client sent (everything up to the terminating line, with the dots added for transparency removed), in order and whatever its content, and is told that it is complete. The command that follows the terminator is the next one executed, whether it came in the same packet or later.",
 ["inputs","schedules"],"every message body, every division into packets and every way in which the handler pauses and reads on",
 T3+" Their bodies are a few short lines; terminators look-alikes split over packets are beyond them.",
 [DS,I,PR],[("message decoder",DS),("rest of the packet pushed back after the terminator",DS),("check that the body was read to its end before the handler's decision counts",I)],["bytes read by the mail handler","commands executed after the message"])
p("S06","Packet boundaries and pipelining never change the outcome",
 "The replies, policy consultations, delivered messages and end of a session depend only on the bytes received, not on how they were divided into packets, when they arrived, whether commands were pipelined, or how the buffers holding them are laid out.",
 ["inputs","schedules"],"every division of every input stream into packets (including empty ones), every timing of their arrival",
 T3+" The number of divisions is exponential in the input's length; the tests use a handful.",
 [CR,DS,PR,I],[("line accumulation over packets",CR),("state of the decoder kept over packets",DS),("push-back of what is left over",PR)],OUT)
p("S07","Only CRLF ends a command, only CRLF.CRLF ends a message",
 "Bytes that are not followed by CRLF are never executed as a command, bare CR or LF never end one, and a message ends only at a line that consists of a single dot between CRLFs (or directly after the data command's line). So no message content, however crafted, can be taken for commands, and no partial line left at the end of the input is executed.",
 ["inputs"],"every byte string in command lines and message bodies",
 T3+" Smuggling inputs are combinations of CR, LF and dots around packet boundaries that no test contains.",
 [CR,DS,I],[("search for the line end",CR),("decoder states for CR, LF and dot",DS)],OUT+["bytes read by the mail handler"])
p("S08","A message cut off by the end of input is never complete",
 "If the input ends before the terminating line, the handler is told that the message is not complete, whatever the place of the cut, and gets no more than what was sent of it; a message whose terminating line arrived is never reported as cut off. After its decision is relayed the session ends, and the input is not polled again after it has ended.",
 ["inputs","crash_points"],"every conversation cut off after any byte, in any division into packets, with handlers that read all, part or none",
 "One test cuts one message off at one place; every byte offset and packet layout is a different crash point.",
 [DS,I],[("completion status of the decoder",DS),("fused input",I)],OUT+["completion status of the message","polls of the input after its end"])
p("S09","Replies are flushed and no readiness pattern stalls a session",
 "Before the session waits for more input, every reply to what it has received is written and flushed, so a client that waits for each reply always gets it. Whatever the pattern in which reader, writer and policy are not ready, no wake-up is lost, the output is the same, and the writer is only given data when it has said it is ready and only closed or used in the order its contract allows.",
 ["schedules","inputs"],"every pattern of readiness of input, output and policy calls, with clients that wait for replies",
 "The tests' readers and writers are always ready, so no test ever suspends a session.",
 [SR,I,CR,DS,DK],[("reply sending followed by flush",SR),("await points",I)],["order of ready, send and flush calls on the writer","polls and wake-ups"])
p("S10","A failed write ends the session and nothing more happens",
 "If readiness, writing or flushing of the output fails at any point, the session ends with an error, nothing more is written, no further command is executed, and no further policy call or handover takes place. What was written before is a prefix of what the same session would have written without the failure.",
 ["fault_sequences","inputs"],"every operation on the writer as the one that fails, in every conversation",
 "No test has a writer that fails.",
 [SR,I,DK],[("error propagation from every reply",I),("reply writer",SR)],OUT+["result of the session"])
p("S11","Replies of any length are one well-formed reply",
 "Whatever the length of a reply text, including an empty one, what is sent is one reply: lines of at most 512 bytes, each with the same code and ended by CRLF, all but the last marked as continued, that put together contain exactly the text, none of them empty unless the whole text is.",
 ["inputs","configurations"],"every reply text of allowed bytes of any length, for any reply the configuration produces, and every code",
 "The tests send short fixed texts; only one unit test divides a long one.",
 [SR,RE,SS],[("division of the text into lines",SR),("line builder with its length limit",RE)],["bytes written to the client"])
p("S12","No client input can crash or hang a session",
 "For every sequence of bytes a client can send, a session never panics, never loops for ever and always ends when its input ends; dropping a session at any point is safe.",
 ["inputs","schedules","crash_points"],"every byte sequence, in every division into packets, and dropping the session at every point",
 "The existing fuzz target must be started by hand and is no test; the tests feed well-formed conversations.",
 [I,CR,DS,CM,EM,DO,RE,SP],[("parse errors turned into replies",I),("parsers",CM)],["panics, polls and ends of the session"])
p("S13","Sessions do not influence each other",
 "Sessions that run side by side with the same code behave exactly as each would alone: same replies, same consultations, same deliveries, whatever the interleaving and whether others are dropped midway.",
 ["schedules","histories"],"every interleaving of the steps of several sessions",
 "No test runs two sessions at once.",
 [I,CR,DS,SR],[("all state local to a session",I)],OUT)
p("S14","A message its handler left unread is not accepted nor executed",
 "If a mail handler returns without having read its message to the end and checked that it was complete, the session may end there, but none of the message's content is executed as commands, no command that follows is lost while later ones are executed, and the message is not reported as accepted unless it was complete and consumed.",
 ["inputs","configurations","crash_points"],"every handler that reads nothing, part or all of a message and does not check it, every message, division into packets and cut",
 "No test has a handler that does not read its message.",
 [I,DS,CF],[("check that the message was completed before its handler's decision counts",I),("completion call",DS)],OUT)
p("S15","A session's memory stays bounded however long it lasts",
 "However long a session lasts and however many commands and mails it carries, the memory it holds is bounded by its longest line, packet and recipient list: nothing of the commands and messages that were dealt with stays with it, its work per command does not grow with the number of commands before, and a message is passed on to its handler while it arrives instead of being collected first.",
 ["histories","inputs"],"every length of session and of message, whatever the commands, refusals and packets",
 "The tests' sessions end after a few commands and nothing looks at memory.",
 [I,CR,DS,SR],[("buffer of the line that is arriving",CR),("rest of the packet after the terminator",DS),("mail that is open, moved into the handler",I)],["memory held between polls","memory allocated per round of commands"])
p("S16","What a configuration leaves out follows from what it sets",
 "A configuration may set only part of its interface. Each reply is then the one it sets for that case, at the time it is due, else the general one it sets (its banner after the host name in the greeting, its okay for an accepted sender, recipient and mail, its bad-sequence reply for each of the four commands out of sequence), else one with the standard code; a setting changes no other case. What it leaves out refuses nothing: without a data filter every data command in sequence is accepted.",
 ["inputs","histories"],"every selection of methods a configuration sets, every conversation",
 "The tests use one configuration, which sets no reply.",
 [CF,I],[("default methods of the configuration",CF),("the case that asks for a reply",I)],OUT+["policy calls"])
p("M01","Decoding a message is exact for every segmentation",
 "For every byte stream, the message decoder yields exactly the message text it carries (leading dot removed from lines that start with one, the line that is a single dot ends it), in order, losing, duplicating or inventing nothing, whatever the division into packets and however the buffers are shared.",
 ["inputs","schedules"],"every byte stream, every division into packets, every buffer representation",
 "The decoder's tests use a dozen streams, most in one or two packets.",
 [DS],[("line position automaton kept over packets",DS)],["items of the decoded stream"],None,[("position in the line","what of CR LF . CR LF has been seen",DS)])
p("M02","Encoding a message round-trips and cannot end early",
 "What the message encoder writes for any text given in any pieces decodes back to that text (ended by a line end if it had none), and the terminator occurs exactly once, at the end: no text can end the message early. The encoder follows the writer's contract, flushes at the end, and reports any write failure.",
 ["inputs","schedules","fault_sequences"],"every text, every division into pieces, every readiness and failure pattern of the writer",
 "The encoder's tests use a few texts on an always-ready writer.",
 [DK],[("dot stuffing with a state kept over pieces",DK)],["bytes written"],None,[("position in the line","what of CR LF was last written",DK)])
p("M03","The decoder stops at the end and gives back the rest",
 "The decoder takes no packet beyond the one that contains the terminator, says it is ended from then on, reports itself complete only after the terminator was seen, and what follows the terminator is what the underlying stream yields next, byte for byte.",
 ["inputs","schedules","histories"],"every sequence of messages and commands on one stream, every division into packets",
 "The tests look at the rest of a stream in a few cases, always polling the minimum number of times.",
 [DS,PR],[("split of the last packet and push-back",DS),("completion call",DS)],["polls of the source","completion status","items after the message"])
p("M04","Command lines parse to what was written, or are refused",
 "A line is accepted as a command only if it is one by the SMTP grammar this library documents, verb and keywords in any case, and then yields exactly the verb, address, parameters or text written in it; every well-formed line is accepted. No line is taken for another command or loses or gains a field.",
 ["inputs"],"every line",
 "The parsers' tests list a few lines for each command.",
 [CM,MA,RC,PA,EM,DO,SP,"smtp-message/src/ehlo/mod.rs","smtp-message/src/helo/mod.rs","smtp-message/src/noop/mod.rs","smtp-message/src/vrfy/mod.rs","smtp-message/src/expn/mod.rs","smtp-message/src/help/mod.rs","smtp-message/src/data/mod.rs","smtp-message/src/quit/mod.rs","smtp-message/src/rset/mod.rs"],
 [("verb dispatch",CM),("parsers of the arguments",MA)],["fields of the parsed command"])
p("M05","Commands survive being written and read again",
 "Every command, built through the interface or parsed, is serialised as exactly one line ended by CRLF, with nothing between its parts but the single blanks the standard puts there, which parses back to the same command with equal fields.",
 ["inputs"],"every command with every valid address, set of parameters and text",
 "The tests serialise one or two instances of each command and do not parse them back.",
 [CM,MA,RC,PA,EM,DO],[("serialisers",CM)],["serialised bytes","fields after parsing again"])
p("M06","Mailboxes are read exactly and compared in canonical form",
 "Text is accepted as a mailbox exactly if it is one (dot-string or quoted local part, optional domain or address literal), with the raw local part and the domain as written. The canonical local part is the same for every way of quoting the same name and different for different names.",
 ["inputs"],"every byte string",
 "The tests list about twenty addresses.",
 [EM,DO,SP],[("address parser",EM),("unquoting",EM),("domain parser",DO)],["fields of the parsed mailbox"])
p("M07","Reply lines are bounded, well-formed and round-trip",
 "A reply line can only be built with a text of printable characters and tabs that fits the 512-byte limit, in one of the three-digit codes; it is serialised as code, separator, text, CRLF and reads back equal. A line that is not of that form is refused.",
 ["inputs"],"every code, every text and every line",
 "The tests use a few codes and texts and no wrong line of most kinds.",
 [RE],[("builder's checks",RE),("parser",RE)],["serialised bytes","fields of the parsed line"])
p("M08","Parsers return on every input",
 "Every public parser, and the message decoder and encoder, return a result or an error for every byte string given in any kind of buffer, without panicking or looping.",
 ["inputs"],"every byte string, as a whole buffer or part of one",
 "The fuzz targets have to be run by hand; the tests give the parsers mostly valid text.",
 [CM,EM,DO,RE,SP,PRS,BS,DS],[("parser combinators",SP),("error conversion",PRS)],["panics and results"])
p("M09","Byte views and strings never leak, lose or change bytes",
 "A view into a buffer only ever gives access to the bytes within it, sub-views are those of the view and are refused outside it, and an owned copy made from it holds just those bytes. Views that are equal show the same bytes, and a view equals itself. Strings keep their bytes through concatenation, division into chunks and comparison.",
 ["inputs"],"every content, every place of the view in its buffer, every chain of sub-views, every chunk size",
 "The tests build views of whole buffers only.",
 [BS,SS],[("bounds of sub-views",BS),("promotion to an owned buffer",BS),("chunks",SS)],["bytes read through views and strings"])
p("M10","The push-back stream keeps order and content",
 "Items come out of a push-back stream in the order of the source, with a pushed-back item next and once. A push-back is accepted exactly when none is pending, a refused one changes nothing, and end of the source and waiting for it pass through.",
 ["histories","schedules"],"every sequence of reads, push-backs, waits and end",
 "There is no test of the push-back stream by itself.",
 [PR],[("single pending item taken before the source is polled",PR)],["items of the stream"])
p("M11","Serialising never silently truncates",
 "Writing a command, address or reply to a destination either writes all of its bytes or reports an error, also when the destination takes a few bytes at a time, is interrupted, stops or fails at any byte; on error what was written is a prefix.",
 ["fault_sequences","inputs"],"every value and every pattern of partial writes and failures of the destination",
 "The tests serialise to vectors, which take everything at once.",
 [CM,RE,EM,PA,SS,MA,RC],[("write-all calls with their errors passed on",RE)],["bytes accepted by the destination","result"])
p("M12","Messages are streamed, not collected",
 "Whenever the message decoder asks its source for more, all but the last few bytes that may belong to a terminator were passed on; whenever the encoder has been given a piece, it has written all but a few bytes of it. The memory both hold does not depend on the length of the message.",
 ["inputs","schedules"],"every message of every length, in every division into packets or pieces",
 "The tests decode and encode messages of a few bytes and only look at the result.",
 [DS,DK],[("yields each packet as soon as it is looked through",DS),("passes on each piece after escaping it",DK)],["items of the decoded stream at each poll of the source","bytes written when a piece was taken","memory held"])
p("M13","Errors say what is wrong and where",
 "When a parser refuses a text because something is left over after what it can read, the error tells the number of bytes left, and what stands before them can be read by itself; a line or mailbox that can be read, followed by bytes that cannot belong to it, is refused with exactly their number. A text that cannot be a reply line is refused with its length and the limit, or with the first byte that is not allowed and its position. Every error can be displayed, with the numbers it carries.",
 ["inputs"],"every text, every length and place of the fault, every kind of buffer",
 "The tests look at whether an error is returned, never at what it says.",
 [PRS,"smtp-message/src/builderror.rs",RE],[("error conversion",PRS),("builder's checks",RE)],["the error's fields and its text"])
p("Q01","Every queued mail is delivered exactly once, retried on failure",
 "Each mail in the queue at start is delivered once and then removed exactly once, and after any refusal by the transport it is put back and tried again, at latest after the documented delay, for as long as it is refused. No mail is lost, given up or delivered again after the transport took it.",
 ["histories","fault_sequences","schedules"],"every set of mails, every sequence of refusals, delays and storage failures of other mails",
 "The queue has no tests at all.",
 [QR,QS],[("listing and spawning",QR),("send loop with put-back and delay",QS)],["calls to storage and transport in virtual time"],"implementing the storage needs one trait that is not exported: exported under cfg(yuubind_verif)")
p("Q02","Each storage handle is used once, in the documented order",
 "For each mail the storage operations follow the documented life cycle (queued, in flight, then removed or back in the queue), every handle is passed to exactly one operation, none is dropped or used after, and a mail is only sent while it is marked in flight. A storage failure affects that mail only, and leads to no further operation on its handle.",
 ["histories","fault_sequences"],"every sequence of storage failures, operations that never end and transport refusals",
 "The queue has no tests at all.",
 [QS,QR,QT,QM],[("handles moved from operation to operation",QS)],["order of storage operations and drops of handles"],"as Q01")
p("Q03","Mail found in flight is left alone for an hour, then recovered",
 "A mail found in flight at start-up, which may still be being sent elsewhere, is not touched for an hour from when it was found, and is then put back once and delivered like any other. Mail this same run is sending is never taken back by it.",
 ["schedules","histories","crash_points"],"every set of mails found in flight, every duration of the listings and of the deliveries",
 "The queue has no tests at all.",
 [QR],[("delay before the take-back",QR)],["calls to storage in virtual time"],"as Q01")
p("Q04","Stuck or failing mail does not delay other mail",
 "However many mails hang, fail or are refused, each other mail is attempted and delivered as soon as it would be by itself.",
 ["schedules","fault_sequences"],"every mix of healthy, stuck, failing and refused mails",
 "The queue has no tests at all.",
 [QR,QS],[("one task per mail",QR)],["times of attempts in virtual time"],"as Q01")
p("Q05","The transport gets exactly the stored mail at each attempt",
 "At every attempt, the first and every repeated one, the transport gets the sender, recipients and complete content of that mail as stored, and of no other.",
 ["inputs","histories"],"every mail and every number of attempts, with transports that read all or part of the content",
 "The queue has no tests at all.",
 [QS],[("content fetched anew at each attempt",QS)],["arguments and content seen by the transport"],"as Q01")
p("Q06","Start-up handles all that is listed and reports listing failures",
 "Every mail listed, queued or in flight, is taken up as soon as it is listed; start-up ends successfully only if both listings ended successfully and reports failure otherwise, and mails listed before a failure are still handled.",
 ["fault_sequences","histories"],"every length, duration and failure point of both listings",
 "The queue has no tests at all.",
 [QR],[("listing loops",QR)],["result of start-up and storage calls in virtual time"],"as Q01")
p("Q07","The queue keeps nothing of mail it is done with",
 "Once a mail is delivered or its storage failed, the queue holds nothing of it any more, and once all mail is dealt with it has let go of the storage and the transport. While a mail is refused again and again, however often, neither the memory held for it nor the stack it is handled on grows.",
 ["histories","fault_sequences"],"every number of refusals, and every outcome of the storage's and transport's operations",
 "The queue has no tests at all.",
 [QR,QS],[("retries spawned as tasks of their own",QS),("storage and transport shared with each mail's task",QR)],["references to storage and transport","handles and operations alive","memory held and stack depth at the transport"],"as Q01")
p("Q08","The queue's promises hold when its tasks run on several threads at once",
 "When the tasks of the queue run at the same time on several threads, in any order, every mail still goes through exactly the storage and transport steps that the outcomes of its own operations call for, on time and with its own sender, recipients and content. No task panics, blocks or waits for ever, and once all mail is dealt with nothing of it is held.",
 ["schedules","fault_sequences"],"every number of threads, every interleaving of the tasks, and every outcome of the storage's and transport's operations",
 "The queue has no tests at all.",
 [QR,QS],[("tasks spawned on the executor, which may run them on any thread",QS),("storage and transport shared between the tasks",QR)],["calls of storage and transport per mail with their virtual time","panics, and threads that block","references and handles alive at the end"],"as Q01, with an executor of the harness that has several threads")
p("R01","Mail relayed from session to queue to session arrives unchanged, exactly once",
 "A mail that a client hands in with this library's commands and message encoder is received by a session, queued, and sent on by such a client to a next session. Sender, recipients (as the policy rewrote them) and text arrive unchanged, but for a line end added to a text that lacks one. It arrives exactly once, plus once per final answer that was lost, whatever refusals and lost connections happen on the way. Every reply can be read with the library's reply parser, and no command or message is left unanswered.",
 ["inputs","fault_sequences","histories"],"every mail, every rewriting, every sequence of refusals, of connections lost at any byte and of lost answers, every division into packets",
 "Nothing tests the parts together; their tests each use inputs the other parts might never produce.",
 [I,EM,DS,RE,QR,QS],[("sessions",I),("queue",QR),("message encoder and decoder",DS),("mail handed to the transport",QS)],["mail at the destination, compared with what was handed in","attempts and completions per mail","replies, parsed","commands unanswered"],"the session is called with packets of a client; a transport made of such a client")
p("U01","No memory error, undefined behaviour or data race",
 "No use of the public interface, by hostile input, in any division into packets, with writers and sources that must not be moved, with values shared and dropped in any order or across threads, causes an invalid memory access, undefined behaviour, a data race, a moved pinned value or a value dropped twice or never.",
 ["inputs","schedules","programs"],"every input and every order of use, sharing and dropping of the library's values",
 "The tests run without sanitizers, on one thread, with plain in-memory streams that may be moved.",
 [PR,I,BS,DS,SS],[("unsafe pin projections",PR),("unsafe pinning of the writer",I),("shared buffers",BS)],["sanitizer reports","addresses of pinned values","drops"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x["title"])<=80,x["id"]
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
# manifest
import subprocess
hook=subprocess.check_output(["git","-C","/repo","log","--format=%H","--grep=verif hook"]).decode().split()
TECH={"S":"runtime monitoring of the real session against a sequential reference model: random, coverage-guided and small-scope enumerated workloads with injected waits, cuts and faults",
"M":"runtime monitoring of the real code against an independent reference oracle over random, coverage-guided and enumerated inputs",
"Q":"runtime monitoring of the real queue in virtual time: event-log checker over random and coverage-guided fault schedules",
"R":"runtime monitoring end to end: real client-side encoders, sessions and queue chained over a lossy link, with an offline comparison of what arrives with what was handed in",
"U":"AddressSanitizer, ThreadSanitizer and Miri plus move and drop monitors over random workloads"}
NOTE={"S":"Held on every execution observed (counts, distinct histories and code edges in the evidence); trusts the harness's session model and its emulated reader, writer and policy.",
"M":"Held on every execution observed; trusts the reference oracle in /verif/harness. Readings the standard leaves open are counted and not judged.",
"Q":"Held on every schedule observed; trusts the virtual clock and the simulated storage and transport. Q01-Q07 interleave the tasks on one thread; Q08 runs them on several, on an executor of the harness's own.",
"R":"Held on every run observed; the client's order of commands, the link and the storage are the harness's.",
"U":"No report on the executions observed; says nothing of paths not reached. bytes 0.4.12 is replaced by a copy that keeps everything on the heap, as its inline storage is itself undefined behaviour."}
m={"version":1,"setup_cmd":"python3 check.py build","hooks":{"guard":"yuubind_verif","enable":"RUSTFLAGS='--cfg yuubind_verif' (check.py sets it for every build)","source_commits":hook},
"checks":[{"property":x["id"],"quick_cmd":"python3 check.py %s quick"%x["id"],"thorough_cmd":"python3 check.py %s thorough"%x["id"],"technique":TECH[x["id"][0]],"level":"exploration","level_note":NOTE[x["id"][0]]} for x in P],
"not_applicable":[]}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)

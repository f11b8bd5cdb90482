#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

T = "The existing tests run one scripted four-byte body through one fixed sequence of calls per body kind; "

prop("C01", "In-memory bodies deliver exactly their bytes",
 "A body made from a byte slice or a string, and the empty body, delivers through any sequence of Read, WriteTo and Seek calls exactly the bytes it was made from, in order, advancing its position by exactly the number of bytes delivered, never touching the caller's buffer beyond that number and never modifying the source bytes. Read returns fewer bytes than asked for only together with io.EOF, and EOF is reported only when no bytes remain and a read asked for more than remained. A WriteTo that the destination accepts only partly returns an error and leaves the unwritten bytes readable; a complete one returns nil.",
 ["inputs","histories"], "every content, every buffer length, every destination behaviour allowed by io.Writer, every sequence of operations",
 T + "WriteTo is never called and no buffer size other than 0, 1 and 4 is used.",
 ["body/bytes.go","body/empty.go","body/body.go"],
 [("bytesBody.Read / WriteTo cursor arithmetic","body/bytes.go"),("emptyBody.Read / WriteTo","body/empty.go"),("FromBytes / FromString","body/body.go")],
 [("data/offset/eof","source bytes, cursor, EOF latch","body/bytes.go")], ["Body.Read","io.WriterTo.WriteTo"])
prop("C02", "Random-access-backed bodies stream the reader's bytes",
 "A body over a reader that supports io.ReaderAt delivers through any sequence of Read calls the reader's bytes from position zero up to the smaller of the body's length and the reader's real end, in order, without gap or repetition, whatever partial results and errors the reader returns. EOF is reported only at that end; any other error is exactly the error the reader returned, stays reported by that body until it is repositioned, and never shortens the content that this body after a Seek, or any copy of it, can still deliver.",
 ["inputs","histories","fault_sequences"], "every content, declared length (too long or too short included), buffer size, read sequence, and every io.ReaderAt-conforming result of the reader",
 T + "the mock reader never returns an error other than EOF, never a wrong length and never a partial read.",
 ["body/readerat.go"],
 [("readerAtBody.Read","body/readerat.go"),("readerAtCommon.readAt","body/readerat.go")],
 [("length","agreed end of the content, shared by all copies","body/readerat.go"),("offset/err","cursor and sticky error of one body","body/readerat.go")], ["Body.Read"])
prop("C03", "Seeker-backed bodies stream the reader's bytes",
 "A body over a reader that can seek but not read at an offset delivers through any sequence of Read calls the reader's bytes from position zero up to the smaller of the body's length and the reader's real end, in order, without gap or repetition, even though copies share the reader's single cursor and the reader may return short reads or errors at any point. EOF is reported only at that end, so a short read never ends the stream; any other error is exactly the reader's error, stays reported by that body until it is repositioned, and never shortens the content that this body after a Seek, or any copy of it, can still deliver.",
 ["inputs","histories","fault_sequences"], "every content, declared length, buffer size, interleaving of reads on copies, and every conforming (short, failing) result of Seek and Read on the reader",
 T + "the mock always fills the whole buffer and never fails; two copies never read in turn.",
 ["body/seeker.go"],
 [("seekerBody.Read","body/seeker.go"),("seekerCommon.readAt","body/seeker.go")],
 [("length","agreed end of the content, shared by all copies","body/seeker.go"),("offset/err","cursor and sticky error of one body","body/seeker.go")], ["Body.Read"])
prop("C04", "Plain-stream bodies replay the same stream to every copy",
 "A body over a plain one-way reader, and every copy made of it at any moment, delivers the reader's bytes from the copy's position in order, without gap, repetition or corruption, however the reads of the different copies interleave and however the reader splits its data. A read returns fewer bytes than asked for only together with the reader's terminal error (or EOF when a declared length is reached), every copy sees that same terminal error and only after all bytes before it, and no byte beyond a declared length is ever taken from the reader or delivered.",
 ["inputs","histories","schedules","fault_sequences"], "every content, declared or unknown length, set of copies, interleaving of their reads and closes, and every conforming sequence of results of the reader",
 T + "no copy is ever made in any test, and the mock delivers everything in one call.",
 ["body/buffered.go"],
 [("bufferedBody.Read","body/buffered.go"),("bufferedCommon.advance / updateStart","body/buffered.go"),("bufferedCommon.ref / unref","body/buffered.go")],
 [("bytes/start","retained window of the stream and its stream position","body/buffered.go"),("err/length","terminal error and end position once known","body/buffered.go"),("bodies/offset","attached copies and their cursors","body/buffered.go")], ["Body.Read"])
prop("C05", "Seek positions exactly and rejects bad requests unchanged",
 "On every body that supports it, Seek with start, current or end as origin moves the cursor to the mathematically exact target clamped to the end of the content, returns that position, and makes reading possible again after EOF or an error. An unknown origin, a negative absolute offset or a negative computed target returns -1 and the matching typed error carrying the offending value, and changes nothing.",
 ["inputs","histories"], "every 64-bit offset, every whence value, every content length and prior cursor position",
 T + "about ten hand-picked offsets are tried, none near the ends of the 64-bit range.",
 ["body/bytes.go","body/empty.go","body/readerat.go","body/seeker.go","body/errors.go"],
 [("bytesBody.Seek","body/bytes.go"),("emptyBody.Seek","body/empty.go"),("readerAtBody.Seek","body/readerat.go"),("seekerBody.Seek","body/seeker.go")], (), ["io.Seeker.Seek"])
prop("C06", "ReadAt is exact and leaves the cursor alone",
 "On every body that supports it, ReadAt at a non-negative offset delivers exactly the content bytes at that offset, returns fewer bytes than asked for only with a non-nil error, reports EOF only if the content ends within the requested range, and passes on any other error of the reader unchanged. It never changes the body's cursor, EOF or error state, nor the length; a negative offset never delivers a byte.",
 ["inputs","histories","fault_sequences"], "every content, offset, buffer length and every conforming (short, failing) result of the backing reader",
 T + "four ReadAt calls on four bytes with a mock that never returns short.",
 ["body/bytes.go","body/empty.go","body/readerat.go","body/seeker.go"],
 [("ReadAt methods","body/bytes.go, body/empty.go, body/readerat.go, body/seeker.go")], (), ["io.ReaderAt.ReadAt"])
prop("C07", "BytesRemaining is exact, never negative, or -1 for unknown",
 "BytesRemaining returns the number of bytes between the body's cursor and the agreed end of its content, never less than zero when that end is known, -1 exactly when a plain stream's length was not declared and its end has not been seen, and 0 on a closed body. When a reader turns out to end early, the count of every body that shares it reflects the real end; asking never changes any state.",
 ["inputs","histories"], "every content, declared length, cursor position and history of reads, early ends and copies",
 T + "it is asked at three points of a well-behaved four-byte body.",
 ["body/bytes.go","body/empty.go","body/closed.go","body/readerat.go","body/seeker.go","body/buffered.go"],
 [("BytesRemaining methods","body/*.go")], (), ["Body.BytesRemaining"])
prop("C08", "Copies are equal at birth and independent afterwards",
 "Copy of an open body returns a new open body of the same kind that stands at the same position, with the same EOF or error state and the same remaining content, and leaves the original unchanged. From then on reading, seeking or closing either one never changes the other's position, its error state, its open state or the bytes it will deliver, except that all copies learn a reader's real end once one of them has met it. Copy of a closed body is a closed body.",
 ["histories","inputs"], "every body kind and state at the moment of copying and every later sequence of operations on original and copies",
 "Copy is not called by any test.",
 ["body/bytes.go","body/empty.go","body/closed.go","body/readerat.go","body/seeker.go","body/buffered.go"],
 [("Copy methods","body/*.go"),("per-body offset/err/eof","body/*.go")], (), ["Body.Copy"])
prop("C09", "A closed body is inert and says so",
 "After Close every later Read, ReadAt, Seek, WriteTo and Close on that body returns fs.ErrClosed with a zero count (-1 for Seek) and touches neither the caller's buffer nor the backing reader; BytesRemaining is 0, Unwrap is nil and Copy yields a closed body. The already-closed body behaves the same from the start. Before Close, Unwrap returns the very reader the body was made from (nil for in-memory bodies).",
 ["histories","inputs"], "every body kind, every state at the moment of Close, every later call and argument",
 T + "only zero-length calls are tried after Close, and never Copy, WriteTo or Unwrap.",
 ["body/bytes.go","body/empty.go","body/closed.go","body/readerat.go","body/seeker.go","body/buffered.go"],
 [("closed flag checks","body/*.go"),("closedBody","body/closed.go")], (), ["Body.*"])
prop("C10", "The backing reader is closed exactly once, by the last copy",
 "The reader behind a body is never closed or detached while any body attached to it is open, and is closed exactly once (if it can be closed) during the Close call of the last open one, whose return value is the reader's own error; every earlier Close returns nil. After that the reader is never used again.",
 ["histories","schedules"], "every sequence and interleaving of Copy and Close over any number of copies",
 T + "there is only ever one body per reader.",
 ["body/readerat.go","body/seeker.go","body/buffered.go"],
 [("ref / unref reference counting","body/readerat.go, body/seeker.go"),("bodies set","body/buffered.go")],
 [("refcnt","number of open bodies","body/readerat.go, body/seeker.go"),("bodies","set of open bodies","body/buffered.go")], ["Body.Close","Body.Copy"])
prop("C11", "A stream body retains exactly what the slowest copy still needs",
 "A body over a plain reader keeps in memory exactly the bytes between the position of its slowest open copy and the furthest byte taken from the reader: it never discards a byte that some open copy has yet to read, and it drops bytes from its window as soon as the slowest copy has read past them or has been closed (their storage is reused at a later refill). Closing the last copy releases everything.",
 ["histories"], "every number of copies and every sequence of reads, copies and closes",
 "No test makes a copy, so the bookkeeping of the slowest copy is never exercised.",
 ["body/buffered.go"],
 [("advance / updateStart / ref / unref","body/buffered.go")],
 [("start/refcnt","stream position of the retained window; how many copies stand at it","body/buffered.go")], ["Body.Read","Body.Close"])
prop("C12", "Bodies are safe under concurrent use",
 "Any number of goroutines may use a body and its copies at the same time: every access to shared state happens under the lock that guards it, every operation is atomic with respect to the others, locks are always acquired in one order and never re-entered so no deadlock is possible, and every lock taken is released on every way out of an operation, including a panic.",
 ["schedules"], "every interleaving of any operations on any number of copies",
 "All tests are single-goroutine and are not run under the race detector.",
 ["body/bytes.go","body/empty.go","body/readerat.go","body/seeker.go","body/buffered.go"],
 [("mutex in every body and every shared core","body/*.go")], (), ["Body.*"])
prop("C13", "FromReader picks the right capabilities and length",
 "Building a body from a reader returns a body that already is one unchanged and otherwise uses a declared length as given (a negative one meaning unknown), else the size reported by Stat, else the end found by seeking (and then rewinds to the start). A known length with random access gives a body supporting random access and seeking, a known length with seeking gives the same through emulation, anything else a plain-stream body; the new body stands at position zero with the determined length. A failing Stat or Seek yields no body and an error that wraps the cause, with nothing else done.",
 ["inputs","configurations","fault_sequences"], "every combination of optional reader interfaces, every declared length, and every result of Stat and Seek",
 "Tests cover eight interface combinations with one size and no failure.",
 ["body/body.go"],
 [("FromReader / FromReaderAndLength","body/body.go")], (), ["body.FromReader","body.FromReaderAndLength"])
prop("C14", "Payload constructors carry exactly the encoded message",
 "A body made from a JSON value, a pretty-printed JSON value or a protocol buffer message holds exactly the bytes its encoder produced for that value, with every line feed of pretty JSON turned into CR LF and nothing else altered, and stands at position zero. The bytes are private to the body: no later encoding can change them. A value that cannot be encoded panics with the encoder's error.",
 ["inputs"], "every value the encoders accept or reject, every encoded text",
 "One pretty-printed JSON array is checked; the compact JSON and protobuf constructors are never called.",
 ["body/body.go"],
 [("fromJSONImpl","body/body.go"),("FromProto / FromProtoText","body/body.go")], (), ["body.FromJSON","body.FromPrettyJSON","body.FromProto","body.FromProtoText"])
prop("C15", "Build yields a complete response and a reset builder",
 "Build returns a response with the builder's body and error, its status or 200 if none was set, and its headers, to which Content-Type application/octet-stream is added only if that header is absent and Content-Length equal to the body's remaining length only if that header is absent and the length is known; every other header is untouched. Afterwards the builder is empty except for its page generator. Build without a body panics.",
 ["inputs","histories"], "every header set (with either header present or absent), body kind, status and prior use of the builder",
 "Package response has no tests.",
 ["response/builder.go"], [("Builder.Build","response/builder.go")], (), ["Builder.Build"])
prop("C16", "Headers and bodies are not shared between copies",
 "WithHeaders and Builder.Copy take deep copies: the copied headers have exactly the same names with the same values, and no later change made through either side is visible on the other. Builder.Copy and Response.Copy carry the same status, error and (for builders) page generator and an independent copy of the body, and if the body cannot be copied they return that error and no result, leaving the original unchanged.",
 ["inputs","histories"], "every header map (empty, nil and multi-valued included), every body and every result of copying it",
 "Package response has no tests.",
 ["response/builder.go","response/util.go","response/response.go"], [("copyHeaders / copyStrings / copyBody","response/util.go"),("Copy methods","response/builder.go, response/response.go")], (), ["Builder.WithHeaders","Builder.Copy","Response.Copy"])
prop("C17", "Only valid status codes enter a response",
 "A status of 200 to 999 (300 to 399 for a redirect page) is accepted and becomes the builder's status unchanged; any other value panics and leaves the builder unchanged, as do an empty redirect location, an empty header name and a nil body, error page cause or page generator. Consequently every response that Build returns has a status between 200 and 999.",
 ["inputs","histories"], "every integer code and every sequence of builder calls",
 "Package response has no tests.",
 ["response/builder.go"], [("WithStatus / RedirectPage / ErrorPage / Build","response/builder.go")], (), ["Builder.*","Response.Status"])
prop("C18", "Generated pages are self-consistent and injection-free",
 "A generated redirect page carries the requested status and a Location header with exactly the trimmed location, and its HTML body contains the location only in escaped form; a generated error page consists of the code and its standard text only and keeps the given error on the builder. Each declares a Content-Length equal to the number of bytes in its body and the documented Content-Type and Cache-Control; both replace all headers, body and status set before.",
 ["inputs"], "every location string, code and error, and every page generator set on the builder",
 "Package response has no tests.",
 ["response/pagegen.go","response/builder.go"], [("defaultPageGenerator","response/pagegen.go"),("RedirectPage / ErrorPage","response/builder.go")], (), ["Builder.RedirectPage","Builder.ErrorPage"])
prop("C19", "Serve sends the whole response once, in order, and closes the body",
 "Serving a response sets every response header except the internal push list on the writer, then sends the status once, then copies the whole body, then closes it; the push list is offered to the writer first, if it can push, in order, and an unsupported push is ignored. Whatever step returns an error, the body is closed exactly once and the first error is returned; a failed push stops before anything is sent.",
 ["inputs","fault_sequences"], "every header set, push list, body and writer, and every failure of push, write and close",
 "Package response has no tests.",
 ["response/response.go"], [("Response.Serve","response/response.go")], (), ["Response.Serve"])
prop("C20", "At most one header reaches the underlying writer",
 "Over any sequence of calls on a wrapped response writer, the underlying writer receives at most one status line, sent before the first body byte or flush, and Status reports exactly that code (0 before). A first Write, flush or ReadFrom without a status sends 200; the optional header call sends its code only if none was sent; a second explicit header call panics, is remembered as an error and is not forwarded. Codes outside 100 to 999 panic and are not forwarded.",
 ["histories","inputs"], "every sequence of writer calls and every code, on all three wrapper kinds",
 "Package response has no tests.",
 ["response/writer.go"], [("basicWriter.WriteHeader / MaybeWriteHeader / Write","response/writer.go"),("flushWriter / fancyWriter","response/writer.go")], [("status","0 or the one code sent","response/writer.go")], ["response.Writer"])
prop("C21", "Body bytes are forwarded, counted and suppressed correctly",
 "A wrapped writer passes body data on unchanged, returns what the underlying writer returned, adds exactly the accepted byte count to BytesWritten, and reports SawError from then on exactly if an underlying Write or ReadFrom failed (or a second header was attempted). For a HEAD request or a 204 status no body data reaches the underlying writer, the data is accepted as if written (a source reader is drained), and BytesWritten does not change.",
 ["inputs","histories","fault_sequences"], "every method, status, data, and every result of the underlying writer",
 "Package response has no tests.",
 ["response/writer.go"], [("basicWriter.Write","response/writer.go"),("fancyWriter.ReadFrom","response/writer.go")], [("bytes","accepted byte count","response/writer.go"),("sawError","sticky error flag","response/writer.go")], ["response.Writer"])
prop("C22", "Wrapping keeps the writer's optional capabilities",
 "Wrapping a response writer returns a writer that is already wrapped unchanged; otherwise the wrapper starts with no status, zero bytes and no error, unwraps to the original, passes header access, flush, hijack, close notification and pushes through to it, and offers flushing (or the full flush, hijack, close-notify and read-from set) exactly when the original offers it, so that an offered capability never panics. Push on a writer that cannot push returns http.ErrNotSupported.",
 ["configurations","inputs"], "every combination of optional interfaces of the underlying writer and every request method",
 "Package response has no tests.",
 ["response/writer.go"], [("NewWriter","response/writer.go"),("basicWriter.Push / Unwrap / Header","response/writer.go")], (), ["response.NewWriter"])
prop("C23", "The adaptor contains every panic and always answers",
 "Serving a request through the adaptor calls the inner handler once and serves its response on the wrapped writer; if the handler or the serving panics, or serving returns an error, the panic does not escape, and the panic callback is called exactly once with the error itself, or with a wrapper holding a panic value that is not an error; otherwise it is not called. In every case a status has been sent when the adaptor returns: 500 if nothing had been sent before.",
 ["inputs","fault_sequences"], "every handler result and every panic value, raised at any point of handling or serving",
 "Package handler has no tests.",
 ["handler/adaptor.go","handler/onpanic.go"], [("Adaptor.ServeHTTP deferred function","handler/adaptor.go")], (), ["Adaptor.ServeHTTP"])
prop("C24", "Each request is counted once under the status actually sent",
 "For every request served through the adaptor, successful, failed or panicking, the request counter is incremented exactly once under the label of the status code that was actually sent, the sent-bytes counter under that same label grows by exactly the bytes the writer accepted, the latency counter grows under that label by the same value that the latency histogram observes once, and the sent-bytes histogram observes exactly that byte count once. The panic counter is incremented exactly once if and only if the request panicked or serving failed.",
 ["inputs","fault_sequences"], "every handler outcome and panic point",
 "Package handler has no tests.",
 ["handler/adaptor.go"], [("Adaptor.ServeHTTP deferred function","handler/adaptor.go")], (), ["prometheus metrics"])
prop("C25", "The mock reader enforces its script",
 "The scripted mock reader accepts a call only if it is of the kind and has the arguments (buffer lengths included) of the next unconsumed expectation, then consumes exactly that one and returns exactly its scripted results and bytes; any other call, or a call after the script is exhausted, panics with an error naming the position, the expectation and the call. Each wrapper exposes exactly the optional interfaces its name says and forwards every call unchanged.",
 ["inputs","histories"], "every script and every sequence of calls",
 "The mock reader is used by the body tests but has no tests of its own: a mock that stopped checking would make them vacuous.",
 ["internal/mockreader/mockreader.go"], [("MockReader.next / Expectation.Matches","internal/mockreader/mockreader.go"),("WrapperNNN","internal/mockreader/wrapper*.go")], [("index","number of expectations consumed","internal/mockreader/mockreader.go")], ["mockreader.MockReader"])
prop("C26", "Each builder setter changes exactly what it names",
 "Each setter of the response builder changes only the property it names and returns the same builder: header setters set, append to or remove exactly the named header (ETag quoted, with W/ when weak; Digest as algo=base64 appended; languages and encodings trimmed; Content-Type normalised), body setters install a body with exactly the given or encoded content together with their documented Content-Type, and the accessors return what was last set. A Content-Type that cannot be parsed panics and changes nothing.",
 ["inputs","histories"], "every argument and every prior builder state",
 "Package response has no tests.",
 ["response/builder.go"], [("With* setters and accessors","response/builder.go")], (), ["Builder.*"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")

#!/usr/bin/env python3
"""Writes DESIGN.md: the text below, a table from props.py, and the planted bugs from tools/seed-results.txt."""
import json, os, sys
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T)
sys.path.insert(0, V)
import props
TITLES = {}
for l in open(os.path.join(V, "properties.jsonl")):
    x = json.loads(l); TITLES[x["id"]] = x["title"]
# what the code is compared with, and why tests cannot settle it
ORACLE = {
"C01": "a second header encoder written from RFC 6455 5.2 in the harness, byte for byte; refusal exactly for control frames over 125 bytes; reads back the same",
"C02": "a reference header parser (well-formed / malformed / incomplete, and the fields); accepted headers re-encode to the bytes read",
"C03": "the reference encoder plus XOR with the key in the header; what is read back equals what was written, with nothing left over",
"C04": "payload[i] ^ key[i mod 4] for every i whatever the caller's pieces, short writes, interruptions; reported counts equal bytes taken",
"C05": "every frame a client emits parses with MASK set and unmasks to the payload, every server frame with MASK clear; a frame of the wrong form is never delivered but reported",
"C06": "the list of messages handed to the sending side, whatever the pair of APIs",
"C07": "concatenation of the fragments of each message, control messages between them in order of arrival",
"C08": "a reference automaton over (flags, opcode, inside-a-message); the receiver refuses at the first frame at which the automaton does",
"C09": "std::str::from_utf8 applied to the whole content (its UTF-8 automaton is itself part of the encoded code, and a hand-written UTF-8 predicate is compared with it)",
"C10": "code = first two bytes big endian, reason = rest; one byte or bad UTF-8 refused with a protocol error / UTF-8 error; sent frames are code and reason",
"C11": "length > limit means refused from the header alone (the reader must not ask for the payload); length <= limit is never refused for its size; same for the accumulated message",
"C12": "the configured numbers: the connection behaves as C11 demands for exactly these numbers (frame and message separately), and for the documented defaults",
"C13": "the outcome of the same decoder given all bytes at once",
"C14": "the other receiver on the same bytes: same messages, error at the same place",
"C15": "no panic, overflow, out-of-range index or allocation beyond what was received plus a constant is reachable on any path (each a query)",
"C16": "end of data between frames is reported as no data, within a frame as an error, never as a frame; transport errors come out as that I/O error",
"C17": "the wire payload of each form written out by hand; conversions are mutually inverse",
"C18": "after any sequence of short writes, interruptions and failures the bytes on the wire are a prefix of the frame(s), all of them when Ok is returned, and the failure is reported otherwise",
"C19": "the list of messages sent, received partly before and partly behind the split; unwrapping hands back exactly the bytes not yet received",
"C20": "base64(digest(text(key) + GUID)) with the digest as an uninterpreted function: what is hashed must be exactly these bytes; the RFC's example with the real digest",
"C21": "a strict base64 decoder of the right length in the harness; print-then-parse is the identity",
"C22": "a reference predicate over the parsed request (method, version, key, upgrade, connection, version header) as RFC 6455 4.2.1 reads; a refused request names the reason and comes back with its bytes",
"C23": "a reference parse of the bytes written: status line, exactly one of each required header with the right value, the chosen subprotocols/extensions and custom headers, nothing else",
"C24": "a reference predicate over the response (101, accept token of the client's own key, Upgrade: websocket, Connection: upgrade); otherwise an error",
"C25": "a reference parse of the request written, against the URL's components (path and query, host and non-default port, credentials decoded) and settings",
"C26": "all bytes handed over behind the handshake come out as the messages they encode, whichever read they arrived in; a refused request gives back every byte read",
"C27": "a reference parse of the bytes written: 400, no upgrade tokens, the caller's headers; stream returned; write failures reported",
"C28": "the decoder given the head in one piece; the bytes consumed end exactly behind the blank line; encoded heads decode to what was encoded",
"C29": "an independent model of the builder's settings (last one wins / appended / cleared), compared with getters after every step and with the request sent",
"C30": "a printer and parser of the RFC 6455 grammar in the harness",
"C31": "the stubbed random source records what it hands out; each mask/nonce must be fresh bytes of it (solver chooses the bytes), none used twice",
"C32": "two real endpoints connected through a symbolic pipe; both must finish, agree on what was negotiated, and then exchange messages unchanged",
"C33": "a model of sockets, resolver and TLS records what was looked up, connected, validated, and sent inside and outside TLS",
"C34": "the same model with listeners and a backlog: what was bound, and one result per connection with its own stream and address",
"C35": "the same model: effects (options, non-blocking flag, halves shut down) on each socket after every operation",
"C36": "the harness builds the request or response and its header lines itself and knows what each of them lists; what is reported must be exactly that; for accepted connections, what the harness chose",
"C37": "the harness decides what goes wrong (status, location, header, kind and place of the transport failure) and knows the one error to expect; conversions are checked against the error put in",
"C38": "an independent frame parser (`peel`) over the bytes sent, compared with what the user's type says of itself; for receiving, the frames the harness put on the wire",
"C39": "the half itself, operated side by side with the pair: same results, same state afterwards",
"C40": "a model of the input as a queue filled by the operations in advance and of the wire as what each operation appends, checked after every operation",
}
HEAD = r'''# Solver-based checking of rust-websocket

## Method

The crates (websocket, websocket-base) are compiled together with a harness crate (`harness/`, path dependency on
`/repo`) by the installed rustc to LLVM IR. Fat LTO makes that one module, so it holds the websocket crates *and*
everything they call: hyper 0.10, httparse, bytes, futures, tokio-codec, byteorder, url, std. `engine/` (`symx`, Rust,
linked with libz3) reads that IR and executes it symbolically:

* every byte, word or choice a harness asks for is an SMT bit-vector variable; each branch on one asks z3 which sides are
  feasible under the path condition and both are followed. All feasible paths are explored to their end; nothing is
  sampled and no concrete inputs are enumerated;
* memory is byte-addressed with concrete object addresses per path; loads and stores at symbolic offsets become
  if-then-else terms over the object's bytes or table look-ups; out-of-bounds and use-after-free accesses are violations;
* each assertion of a harness, each panic, arithmetic overflow check, index check, `unreachable` and oversized allocation
  is a query "can this fail under this path condition". unsat on every path is the verdict *holds within the bounds*; a
  model is a witness;
* a witness is a list of concrete values for the symbolic inputs in the order they were asked for. It is replayed by a
  native build of the same harness against `/repo` (`./check --replay FILE`); only a violation that happens natively too
  is reported as `VIOLATION`. One that does not is an error of the machinery: the check then answers 2, never 1 and never 0;
* the other direction is validated as well: of every run, up to 40 completed paths are solved for a concrete input and
  run natively, and what the harness observed (its log) must be identical. `traces_validated_against_impl` counts these;
* a run that hits a limit (time, steps, an instruction or external function the engine does not know, a solver answer
  `unknown`) is *inconclusive* and the check answers 2, so that a bound is never silently narrower than stated;
* each harness marks situations that must occur (`cover`); one that is not reached on any path makes the check fail as
  vacuous.

The IR and the native replayer are rebuilt from `/repo`'s working tree on every run (`build_ir.sh`, `build_native.sh`;
about 10 s, dependencies cached in `work/`), so a check judges what the code does now. Nothing looks at source text.

Overflow checks are on for the harness and the websocket crates, debug assertions for the websocket crates, at opt-level 2
with panic=abort; without overflow checks an addition that wraps would only be seen through its consequences.

What is replaced, and why that is sound for the property: `rand` (arbitrary bytes, recorded: a superset of what a
generator can return; C31 needs the record), `sha-1` (an uninterpreted function of its input, real for concrete input: a
digest cannot be inverted by a solver, and C20 is about *what* is hashed), and for C33-C35 `native-tls` (a toy handshake
with the same interface which records settings and domain), `tokio-tcp` (over std's sockets, woken by the model) and the
socket system calls and resolver (a model in `harness/src/net.rs`). hyper, httparse, bytes, futures, tokio-codec,
tokio-io, tokio-tls, unicase, url and std are the real ones.

Checks over hundreds of frames ask the random source for arbitrary bytes only the first times (`arbitrary_draws`) and for
fixed, pairwise different ones then: with an arbitrary key per frame every comparison of a payload would be a query.

Transports in the other checks are in-memory objects of the harness (`Pipe`) whose behaviour is symbolic: each read may
return any part of what is there, be interrupted, would-block, fail or end; each write may take any part, be interrupted,
would-block or fail, within the number of such events stated as the bound.
Long outputs go to transports that take parts by one of a few fixed schedules (so many bytes at most, every n-th write
refused) instead of any: an implementation that writes its text in many small pieces would otherwise have a schedule for
each subset of them. The library's blocking API never flushes its stream; a `Pipe` therefore passes on what is written,
and checks do not require or forbid flushes.

A check's quick tier must finish in 900 s; most take 10-40 s including the build. `--tier thorough` runs the deeper bounds
of the same harnesses without a time limit that matters (20,000 s). Other switches: `--profile` (per run: paths, queries,
where it forks), `--only H`, `--all` (go on after a violation), `--dump DIR` (the queries as SMT-LIB 2).
After the first natively confirmed violation the remaining runs are stopped.

'''
MID = r'''
## Genuine defects found, and repaired (14 "fix:" commits in /repo)

All were first reported by a check as a violation with a native replay; known-findings.json lists each as `fixed`. There
is no known finding left unrepaired.

%s

## Left open or outside, on purpose

* A HTTP head of exactly hyper's MAX_BUFFER_SIZE is refused by the blocking side and accepted by the asynchronous one:
  outside C28's bounds (it needs a head of 600 kB).
* A *blocking* receive that meets WouldBlock inside a frame has consumed the part read before, which is lost. The API
  documents nothing about non-blocking sockets under the blocking client; C16 and C26 do not poll it mid-frame. Not
  repaired because a fix needs a parser state in the reader (not small).
* The exact default message limit (200 MB) is not run to its end: it needs a 200 MB stream. C12 checks that the default
  frame limit is the documented one against announced lengths.
* Limits above u32::MAX: documented as not supported; they behave as u32::MAX (C11 states this).
* Custom header values that are not UTF-8 make hyper 0.10's Display fail, so nothing is sent: hyper's.
* A response HTTP/1.0 101, repeated Sec-WebSocket-Accept headers: the statement of C24 leaves them open.
* An arbitrary first byte of a request target selects between url and IDNA tables (thousands of paths): excluded in C28.
  Likewise the host names of C33 are from a list.
* `connect_secure` on a `ws` URL without a port goes to port 80 and `connect_insecure` on `wss` to 443, because the url
  crate's known default wins over SECURE_PORT/INSECURE_PORT: surprising, but not contradicting any documentation; C33
  leaves this combination open.
* Concurrency: no type here shares state between threads except through the caller's own synchronisation; splitting uses
  the socket's two handles (C19, C35) or futures' BiLock (C19/C05 poll both halves in one task). The schedules explored are
  the orders of readiness events of transports, not pre-emptive threads.

## False alarms met and corrected

* The first wordings of C01, C03, C11, C12, C14, C21-C26, C28 and C33 demanded in places more than RFC 6455, RFC 7230 or
  the crate's documentation promise, and a check then reported code that is right; the statement was made precise and the
  oracle with it (history of tools/mkprops.py). What was left open thereby is listed above or under "outside".
* C35 compared the list of system calls; it now compares their effect, so that another sequence with the same effect is quiet.
* Executor errors (misread IR) showed up as traces disagreeing with the native run and were fixed in the engine; such a
  disagreement can never become a VIOLATION line.

## Resources

Checks use 8 processes (one engine per run; large runs fork workers). Memory is copy-on-write per state, typically below
1 GB in all. Everything is written to `work/` and `evidence/` (git-ignored); /repo is only read.

## Planted bugs

`seeded/` holds %d changes, each compiling, passing the 71 stable tests, with a demonstration. They were written from the
property texts, several at a time, and then run against the checks; those missed at first led to stronger checks:
c12-clamp (limits over 4 GiB), c15-add-overflow and c15-close-index (overflow checks in the profiles; arbitrary limits),
c18-interrupted (termination under repeated interruption; early stop), c30-empty-value (empty parameter values),
c32-extension-params (extensions with parameters, reports of both ends compared), c26-write-buffer (hyper's own server as
a way of establishing a connection), c35-nodelay (sequences of socket operations).

| change | property | check | s | first message |
|---|---|---|---|---|
'''
out = HEAD
out += "## Properties\n\nEach is decided by the engine as above (`technique` in MANIFEST.json); none is not applicable.\nThe harness functions are in `harness/src/<module>.rs`; `props.py` has the parameter lists of both tiers.\n\n"
for i in sorted(TITLES):
    P = props.P[i]
    out += "### %s %s\n\n" % (i, TITLES[i])
    out += "* harnesses: %s\n* oracle: %s\n* bounds: %s\n* outside: %s\n" % (", ".join("%s (%s; %d runs quick, %d thorough)" % (r["h"], r["m"], len(r["quick"]), len(r["thorough"] or r["quick"])) for r in P["runs"]), ORACLE[i], P["bounds"], P["outside"])
    try:
        e = json.load(open(os.path.join(T, "cost.json")))[i]
        out += "* cost: %s\n" % e
    except Exception: pass
    out += "\n"
fixed = "\n".join("* %s" % k["text"] for k in json.load(open(os.path.join(V, "known-findings.json"))))
seeds = sorted(os.listdir(os.path.join(V, "seeded")))
res = {}
try:
    for l in open(os.path.join(T, "seed-results.txt")):
        f = l.split(None, 5)
        if len(f) >= 5: res[f[0]] = (f[1], f[2], f[4], f[5].strip() if len(f) > 5 else "")
except OSError: pass
out += MID % (fixed, len(seeds))
for s in seeds:
    p, rc, t, m = res.get(s, ("", "not run", "", ""))
    out += "| %s | %s | %s | %s | %s |\n" % (s, p or json.load(open(os.path.join(V, "seeded", s, "meta.json")))["property"], {"rc=1": "caught", "rc=0": "missed"}.get(rc, rc), t, m.split("assertion: ")[-1].split("; native")[0].replace("|", "/")[:90])
open(os.path.join(V, "DESIGN.md"), "w").write(out)

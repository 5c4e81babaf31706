"""What each check runs, within what bounds."""
import json, os

def R(m, h, quick=None, thorough=None, cover=(), jobs=1, rlimit=400_000_000):
    return dict(m=m, h=h, quick=quick if quick is not None else [[]], thorough=thorough, cover=list(cover), jobs=jobs, rlimit=rlimit)

NET = "native-tls and tokio-tcp are replaced by stand-ins with the same interface (a toy handshake; tokio-tcp over std sockets), and the socket system calls and the resolver by a model in the harness"
COMMON_ASSUME = [
    "LLVM IR produced by the installed rustc at opt-level 2 with panic=abort stands for the crate (overflow checks on for the websocket crates); each reported violation is replayed in a native build",
    "memory allocation never fails; the random source is a stub returning arbitrary bytes",
    "the solver (z3) answers correctly; the executor's reading of LLVM IR is validated by replaying sampled paths natively",
]
def known_findings():
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "known-findings.json")
    return [k for k in json.load(open(p)) if k.get("status") == "known"] if os.path.exists(p) else []

P = {}
P["C01"] = dict(bounds="none on the inputs: all flags, opcodes 0..255, any or no mask, all 64-bit lengths", assume=[],
    runs=[R("frame", "c01_header_write", cover=["refused", "read back", "unfinished control frame"])])
P["C02"] = dict(bounds="every byte string of length 0..16 (a header is at most 14 bytes)", assume=[],
    runs=[R("frame", "c02_header_read", quick=[[n] for n in range(17)], thorough=[[n] for n in range(25)], cover=["well-formed", "malformed", "incomplete"])])
LENS = list(range(18)) + [31, 32, 33, 63, 64, 65, 100, 124, 125, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300, 512, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131072]
P["C03"] = dict(bounds="all flag, opcode and key values and all payload contents, payload lengths %s; every read limit not below the length" % LENS, assume=[],
    runs=[R("frame", "c03_write_read", quick=[[n, m] for n in LENS for m in (0, 1)], thorough=[[n, m] for n in sorted(set(LENS + list(range(301)) + [200000, 1 << 20])) for m in (0, 1)], cover=["refused", "written", "read back"])])
P["C04"] = dict(bounds="all keys and payloads; payloads of 0-9 bytes in up to 3 caller writes with up to 3 short writes and 1 interruption, of 70 bytes with 1 piece boundary or 1 short write, of the listed lengths masked at once", assume=[],
    runs=[R("frame", "c04_mask_data", quick=[[n] for n in list(range(20)) + [31, 32, 33, 63, 64, 65, 127, 128, 129, 1000, 4096, 65536]], thorough=[[n] for n in list(range(300)) + [1000, 4096, 65535, 65536, 70001]]),
          R("frame", "c04_short_writes", quick=[[n, 2, 2, 1] for n in (0, 1, 2, 3, 4, 5, 6, 7)] + [[9, 3, 1, 0], [9, 1, 3, 0], [70, 2, 0, 0], [70, 1, 1, 0]],
            thorough=[[n, 3, 3, 1] for n in range(9)] + [[16, 2, 2, 1], [70, 2, 1, 1], [300, 2, 0, 0], [300, 1, 1, 0]], cover=["short write", "interrupted", "written"]),
          R("frame", "c04_pieces", quick=[[n, p, m] for n in (13, 64, 300) for p in (1, 2, 3, 5, 7, 64) for m in (1, 2, 3, 6)] + [[n, p, m] for n in (5000, 9000) for p in (1000, 4096, 9000) for m in (200, 1023, 4097, 9999)], thorough=[[n, p, m] for n in (13, 64, 130, 300, 1000) for p in range(1, 20) for m in range(1, 20)] + [[n, p, m] for n in (5000, 9000, 70000) for p in (1000, 1001, 4096, 9000) for m in (200, 1023, 4097, 9999)]),
          R("frame", "c04_counts", quick=[[n] for n in (1, 2, 5, 8, 12)], thorough=[[n] for n in range(1, 40)])])
RB = [[server, blocking] for server in (0, 1) for blocking in (0, 1)]
P["C07"] = dict(bounds="", assume=[],
    runs=[R("msg", "c07_interleaved", quick=[x + [k, l] for x in RB for k, l in ((1, 2), (2, 2), (3, 1), (4, 0), (2, 95))], thorough=[x + [k, l] for x in RB for k, l in ((1, 2), (2, 2), (3, 2), (4, 1), (5, 0), (2, 95), (3, 60))], cover=["control frame inside a message", "reassembled"]),
          R("msg", "c07_flood", quick=[x + [n, m] for x in RB for n, m in ((10, 2), (40, 3), (300, 1), (70, 125))], thorough=[x + [n, m] for x in RB for n, m in ((10, 2), (40, 3), (300, 1), (70, 125), (3000, 5))], cover=["reassembled"]),
          R("msg", "c07_many", quick=[x + [n, b] for x in RB for n, b in ((2, 2), (5, 3), (8, 1), (17, 4), (40, 2), (130, 2), (5, 300), (1300, 2), (5000, 2))], thorough=[x + [n, b] for x in RB for n, b in ((2, 2), (3, 3), (4, 3), (5, 3), (6, 3), (7, 2), (8, 1), (17, 4), (40, 2), (130, 2), (300, 3), (1300, 2), (5000, 2), (70000, 2), (5, 300), (9, 800))], cover=["reassembled"])])
P["C08"] = dict(bounds="", assume=[],
    runs=[R("msg", "c08_sequences", quick=[x + [k, n] for x in RB for k, n in ((1, 0), (1, 1), (1, 2), (2, 0), (2, 1), (2, 2), (3, 1), (4, 0))], thorough=[x + [k, n] for x in RB for k, n in ((1, 0), (1, 1), (1, 2), (1, 125), (2, 0), (2, 1), (2, 2), (2, 5), (3, 0), (3, 1), (3, 2), (4, 0), (4, 1), (5, 0))], cover=["refused", "accepted"])])
P["C09"] = dict(bounds="", assume=[],
    runs=[R("msg", "c09_text", quick=[[n, f] + x + [0] for n, f in ((0, 1), (1, 1), (2, 1), (3, 1), (4, 1), (4, 2), (3, 3), (4, 3), (5, 2)) for x in RB] + [[3, 1] + x + [30] for x in RB], thorough=[[n, f] + x + [0] for n, f in ((0, 1), (1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (6, 1), (7, 1), (4, 2), (3, 3), (4, 3), (5, 2), (5, 3), (6, 2), (4, 4)) for x in RB] + [[n, 1] + x + [p] for n in (3, 4) for p in (7, 15, 30, 64) for x in RB], cover=["refused", "delivered"]),
          R("msg", "c09_long", quick=[[n, a, b] + x + [f] for x in RB for n, a, b, f in ((2, 61, 3, 1), (2, 126, 0, 0), (4, 1022, 9, 0), (3, 4094, 5, 1), (2, 8191, 1, 0), (3, 65534, 0, 0), (2, 4094, 5000, 0))], thorough=[[n, a, b] + x + [f] for x in RB for n in (2, 3, 4) for a, b in ((61, 3), (126, 0), (254, 1), (510, 4), (1022, 9), (2047, 0), (4094, 5), (8191, 1), (16382, 4), (65534, 0), (4094, 5000)) for f in (0, 1)], cover=["refused", "delivered"]),
          R("msg", "c09_reason", quick=[[n] + x for n in range(6) for x in RB], thorough=[[n] + x for n in range(8) for x in RB], cover=["refused", "delivered"]),
          R("msg", "c09_raw", quick=[[n, 1] + x for n in (0, 1, 5, 125) for x in RB] + [[n, 2] + x for n in (3, 6) for x in RB], thorough=[[n, 1] + x for n in (0, 1, 5, 125, 126, 300) for x in RB] + [[n, 2] + x for n in (3, 6, 12) for x in RB] + [[6, 3] + x for x in RB])])
P["C10"] = dict(bounds="", assume=[],
    runs=[R("msg", "c10_received", quick=[[n] + x for n in range(7) for x in RB], thorough=[[n] + x for n in range(9) for x in RB], cover=["too short", "bad reason", "delivered"]),
          R("msg", "c10_long", quick=[[a, n] + x for x in RB for a, n in ((30, 2), (119, 2), (120, 3), (123, 0), (122, 1), (119, 4))], thorough=[[a, n] + x for x in RB for a in (7, 15, 30, 60, 100) for n in (2, 3, 4)] + [[a, n] + x for x in RB for a, n in ((119, 2), (120, 3), (123, 0), (122, 1), (119, 4))], cover=["delivered", "bad reason"]),
          R("msg", "c10_sent", quick=[[n, k] for n in (0, 1, 2, 3, 4, 30, 123, 124, 125, 200) for k in (0, 1)], thorough=[[n, k] for n in range(130) for k in (0, 1)], cover=["refused"])])
P["C13"] = dict(bounds="", assume=[],
    runs=[R("msg", "c13_chunks", quick=[[s, n, c, l] for s in (0, 1) for n, c in ((6, 1), (7, 9), (5, 2)) for l in (0, 1)], thorough=[[s, n, c, l] for s in (0, 1) for n, c in ((6, 1), (7, 9), (5, 2), (8, 1), (9, 1)) for l in (0, 1) if (s, n) != (0, 9)], cover=["error", "message", "no message"]),
          R("msg", "c13_frames", quick=[[s, k, n, c, l] for s in (0, 1) for k, n, c in ((2, 1, 1), (2, 2, 9), (3, 1, 9)) for l in (0, 1)], thorough=[[s, k, n, c, l] for s in (0, 1) for k, n, c in ((2, 1, 1), (2, 2, 9), (3, 1, 9), (2, 1, 2), (3, 2, 1), (2, 5, 1), (4, 0, 1)) for l in (0, 1)], cover=["error", "message", "no message"]),
          R("msg", "c13_long", quick=[[s, n, h, l] for s in (0, 1) for n, h in ((126, 0), (126, 1), (300, 3), (4096, 0), (9000, 0), (9000, 3), (65536, 0)) for l in (0, 1, 2)] + [[s, 140, 2, 0] for s in (0, 1)], thorough=[[s, n, h, l] for s in (0, 1) for n, h in ((125, 1), (126, 1), (300, 1), (300, 3), (1000, 1), (4096, 1), (9000, 1), (9000, 3), (65535, 1), (65536, 1), (65536, 3)) for l in (0, 1, 2)] + [[s, n, 2, l] for s in (0, 1) for n in (140, 300) for l in (0, 1)], cover=["message", "error"]),
          R("msg", "c13_many", quick=[[s, k, n, c] for s in (0, 1) for k, n, c in ((2, 1, 1), (3, 2, 0), (4, 1, 1), (6, 2, 0), (9, 1, 0), (9, 1, 1), (17, 1, 0))], thorough=[[s, k, n, c] for s in (0, 1) for k, n, c in ((2, 1, 2), (3, 2, 0), (4, 2, 1), (4, 1, 2), (6, 2, 1), (6, 1, 2), (9, 2, 1), (17, 2, 1), (40, 2, 0), (100, 1, 0))], cover=["message"]),
          R("msg", "c13_frame_codec", quick=[[s, n] for s in (0, 1) for n in (2, 4, 7, 11, 14)], thorough=[[s, n] for s in (0, 1) for n in range(1, 19)], cover=["error", "frame", "incomplete"])])
P["C14"] = dict(bounds="", assume=[],
    runs=[R("msg", "c14_agree", quick=[[s, n, 0] for s in (0, 1) for n in range(8 if s else 7)] + [[s, n, 1] for s in (0, 1) for n in (8, 9, 13)], thorough=[[s, n, 0] for s in (0, 1) for n in range(11 if s else 9)] + [[s, n, 1] for s in (0, 1) for n in range(8, 15)], cover=["error", "message", "no message", "limit"]),
          R("msg", "c14_frames", quick=[[s, k, n, m] for s in (0, 1) for k, n, m in ((1, 0, 1), (1, 1, 1), (1, 2, 1), (2, 0, 1), (2, 1, 1), (2, 2, 0), (3, 0, 0), (3, 1, 0))], thorough=[[s, k, n, m] for s in (0, 1) for k, n, m in ((1, 0, 1), (1, 1, 1), (1, 2, 1), (1, 3, 1), (1, 4, 1), (2, 0, 1), (2, 1, 1), (2, 2, 1), (3, 0, 0), (3, 1, 0), (3, 1, 1), (4, 0, 0), (4, 1, 0))], cover=["error", "message", "no message"])])
P["C15"] = dict(bounds="", assume=[],
    runs=[R("msg", "c15_no_panic", quick=[[s, n, k, 0] for s in (0, 1) for n in (0, 1, 2, 3, 5, 7) for k in range(6) if (s, n, k) != (0, 7, 5)] + [[1, 10, k, 0] for k in range(5)] + [[s, n, k, 1] for s in (0, 1) for n in (8, 13) for k in range(6)],
            thorough=[[s, n, k, 0] for s in (0, 1) for n in range(8) for k in range(6)] + [[0, 8, k, 0] for k in range(5)] + [[1, n, k, 0] for n in range(8, 13) for k in range(6)] + [[s, n, k, 1] for s in (0, 1) for n in range(8, 17) for k in range(6) if not (k == 5 and n > 14)], cover=["delivered", "nothing delivered"])])
P["C16"] = dict(bounds="", assume=[],
    runs=[R("msg", "c16_truncated", quick=[[s, k, n, w] for s in (0, 1) for k, n in ((1, 0), (2, 3), (1, 126)) for w in range(4)], thorough=[[s, k, n, w] for s in (0, 1) for k, n in ((1, 0), (2, 3), (1, 126), (3, 2), (3, 40), (1, 65536)) for w in range(4)], cover=["cut between frames", "cut inside a frame"]),
          R("msg", "c16_transport_error", quick=[[s, n, c, w] for s in (0, 1) for n, c in ((0, 1), (3, 1), (126, 0)) for w in (0, 1)], thorough=[[s, n, c, w] for s in (0, 1) for n, c in ((0, 1), (3, 1), (126, 0), (3, 2), (0, 3), (20, 1)) for w in (0, 1)], cover=["all delivered"])])
P["C17"] = dict(bounds="", assume=[],
    runs=[R("msg", "c17_forms", quick=[[k, n] for k in range(6) for n in ((0, 1, 2, 3, 4, 5, 17, 123, 124, 125, 126, 300, 65536) if k != 4 else (0,))], thorough=[[k, n] for k in range(6) for n in (list(range(130)) + [300, 65535, 65536] if k != 4 else (0,))]),
          R("msg", "c17_from_frames", quick=[[n, f] for n in (0, 1, 2) for f in (0, 1, 2, 3)], thorough=[[n, f] for n in (0, 1, 2, 3) for f in range(6)], cover=["message", "refused"])])
SR = [0, 1]
P["C05"] = dict(bounds="", assume=[],
    runs=[R("conn", "c05_sends", quick=[[s, a, n] for s in SR for a in range(12) for n in (0, 5, 125, 126)] + [[s, a, 65536] for s in SR for a in (0, 3, 7)], thorough=[[s, a, n] for s in SR for a in range(12) for n in (0, 1, 2, 3, 4, 5, 7, 8, 16, 124, 125, 126, 127, 65535, 65536)], cover=["masked", "unmasked"]),
          R("both", "c05_established", quick=[[w, n] for w in range(11) for n in (0, 3)], thorough=[[w, n] for w in range(11) for n in (0, 1, 3, 4, 7, 125, 126)], cover=["server", "client"]),
          R("conn", "c05_wrong_form", quick=[[s, a, n, 0] for s in SR for a in range(8) for n in (0, 3, 126)] + [[s, a, n, 1] for s in SR for a in range(7) for n in (0, 3, 126)], thorough=[[s, a, n, 0] for s in SR for a in range(8) for n in (0, 1, 3, 8, 125, 126, 127)] + [[s, a, n, 1] for s in SR for a in range(7) for n in (0, 1, 3, 8, 125, 126, 127)], cover=["unmasked frame to a server", "masked frame to a client"])])
P["C06"] = dict(bounds="", assume=[],
    runs=[R("conn", "c06_exchange", quick=[[s, a, b, 1, 3] for s in SR for a in range(12) for b in range(8)] + [[s, a, b, 2, 2] for s in SR for a, b in ((0, 0), (3, 1), (1, 5), (7, 5), (7, 3), (11, 2))] + [[s, a, b, 1, n] for s in SR for a, b in ((0, 0), (1, 5), (7, 1), (7, 5)) for n in (0, 125, 126, 127, 65535, 65536)] + [[s, a, b, 4, 1] for s in SR for a, b in ((3, 1), (7, 5))], thorough=[[s, a, b, 1, n] for s in SR for a in range(12) for b in range(8) for n in (0, 1, 2, 3, 4, 5)] + [[s, a, b, 2, n] for s in SR for a in range(12) for b in range(8) for n in (1, 2)] + [[s, a, b, 3, 1] for s in SR for a, b in ((0, 0), (3, 1), (1, 5), (7, 5), (7, 3), (11, 2))] + [[s, a, b, 1, n] for s in SR for a, b in ((0, 0), (1, 5), (7, 1), (7, 5)) for n in (7, 8, 16, 33, 124, 125, 126, 127, 65535, 65536)], cover=["received"]),
          R("conn", "c06_many", quick=[[s, r, k, n, a] for s in (0, 1) for r, a in ((1, 0), (3, 1), (5, 0), (5, 1)) for k, n in ((300, 9), (30, 1000))], thorough=[[s, r, k, n, a] for s in (0, 1) for r in range(7) for a in (0, 1) for k, n in ((300, 9), (30, 1000), (3000, 4))], cover=["received"]),
          R("conn", "c06_queue", quick=[[s, w, z, r] for s in (0, 1) for w in (0, 1, 2, 3) for z, r in ((0, 0), (1, 5), (2, 3), (3, 5), (4, 0), (5, 1))], thorough=[[s, w, z, r] for s in (0, 1) for w in (0, 1, 2, 3) for z in range(6) for r in range(7)], cover=["received"]),
          R("conn", "c06_conversation", quick=[[a, b, k, n] for a in (0, 1) for b in (0, 1) for k, n in ((3, 130), (4, 2))] + [[0, 1, 3, 66000]], thorough=[[a, b, k, n] for a in (0, 1) for b in (0, 1) for k, n in ((3, 130), (4, 130), (5, 2), (3, 66000))], cover=["received"])])
P["C11"] = dict(bounds="", assume=[],
    runs=[R("conn", "c11_frame_limit", quick=[[s, w, f, 0] for s in SR for w in range(6) for f in (1, 3, 9)] + [[s, w, 9, 1] for s in SR for w in (0, 1, 2, 4, 5)], cover=["over the limit", "within the limit"]),
          R("conn", "c11_frame_content", quick=[[s, a, 4, 2, 2] for s in SR for a in range(7)] + [[s, a, 2, 0, 2] for s in SR for a in (0, 5)], thorough=[[s, a, 4, 2, 2] for s in SR for a in range(7)] + [[s, a, 2, 0, 2] for s in SR for a in range(7)] + [[s, a, 4, 3, 3] for s in SR for a in range(7)], cover=["over the limit", "within the limit"]),
          R("conn", "c11_message_limit", quick=[[s, b, f, m, c] for s in SR for b in (0, 1) for f, m, c in ((1, 8, 0), (2, 3, 1), (3, 2, 0), (3, 70, 0), (4, 300, 0), (7, 300, 0))], thorough=[[s, b, f, m, c] for s in SR for b in (0, 1) for f, m, c in ((1, 8, 0), (2, 3, 1), (3, 2, 0), (3, 70, 0), (4, 300, 0), (3, 3, 1), (4, 2, 1), (6, 5, 0), (7, 300, 0), (10, 500, 0))], cover=["over the limit", "within the limit"])])
P["C18"] = dict(bounds="", assume=[],
    runs=[R("conn", "c18_send", quick=[[s, a, n, 2, 1, f] for s in SR for a in (0, 1, 2, 3, 4, 5, 6, 10, 11) for n in (0, 3) for f in (0, 1, 2)] + [[s, a, 3, 0, 4, 0] for s in SR for a in (0, 2, 3, 5, 11)] + [[s, a, n, 1, 1, f] for s in SR for a in (0, 2, 3, 5, 11) for n in (126,) for f in (0, 1, 2)], thorough=[[s, a, n, 2, 1, f] for s in SR for a in (0, 1, 2, 3, 4, 5, 6, 10, 11) for n in (0, 1, 3, 6) for f in (0, 1, 2)] + [[s, a, n, 3, 1, f] for s in SR for a in (0, 2, 3, 5, 11) for n in (3,) for f in (0, 1, 2)] + [[s, a, n, 1, 1, f] for s in SR for a in (0, 2, 3, 5, 11) for n in (125, 126, 200) for f in (0, 1, 2)], cover=["failure reported", "sent"]),
          R("conn", "c18_sequence", quick=[[s, k, n, sh, i, w] for s in SR for w in (0, 1) for k, n, sh, i in ((2, 5, 2, 1), (3, 130, 1, 0), (2, 130, 1, 1), (3, 3, 1, 1))], thorough=[[s, k, n, sh, i, w] for s in SR for w in (0, 1) for k, n, sh, i in ((2, 5, 3, 1), (3, 130, 2, 0), (3, 3, 2, 1), (4, 2, 1, 1))], cover=["sent"]),
          R("conn", "c18_async_failure", quick=[[s, n, 1, 2] for s in SR for n in (0, 3, 9)], thorough=[[s, n, c, b] for s in SR for n in (0, 3, 9) for c, b in ((1, 2), (2, 1), (2, 2), (1, 3))], cover=["blocked"])])
P["C19"] = dict(bounds="", assume=[],
    runs=[R("conn", "c19_split", quick=[[s, h, b, a, n] for s in SR for h in (0, 1, 2) for b, a, n in ((1, 0, 0), (1, 1, 2), (2, 1, 1), (3, 0, 1), (2, 1, 3000), (1, 1, 5000))], thorough=[[s, h, b, a, n] for s in SR for h in (0, 1, 2) for b, a, n in ((2, 1, 3000), (1, 1, 5000), (2, 1, 70000), (1, 0, 0), (1, 1, 2), (2, 1, 1), (2, 2, 1), (3, 1, 0), (3, 1, 1), (1, 3, 1))], cover=["split", "unwrapped"])])
P["C20"] = dict(bounds="", assume=[],
    runs=[R("hdr", "c20_accept", quick=[[0], [1]], cover=["done"]), R("hdr", "c20_history", quick=[[0, 2, 1], [1, 2, 1], [2, 2, 1], [2, 3, 0]], thorough=[[w, n, 1] for w in (0, 1, 2) for n in (2, 3)], cover=["done"]), R("hdr", "c20_rfc_example")])
P["C21"] = dict(bounds="", assume=[],
    runs=[R("hdr", "c21_insert", quick=[[n, a, w] for n in (1, 2) for a in (0, 1) for w in (0, 1)], thorough=[[n, a, w] for n in (1, 2, 3, 4) for a in (0, 1) for w in (0, 1)], cover=["refused"]),
          R("hdr", "c21_key_print", quick=[[w, a] for w in (0, 1, 2) for a in (0, 1)], cover=["back"]),
          R("hdr", "c21_parse", quick=[[n, a, w] for n in (0, 1, 4, 21, 22, 23, 24, 25, 26, 27, 28, 29) for a in (0, 1) for w in (0, 1)], cover=["accepted", "refused"]),
          R("hdr", "c21_lengths", quick=[[n, a] for n in range(25) for a in (0, 1)], thorough=[[n, a] for n in range(40) for a in (0, 1)], cover=["accepted", "refused"]),
          R("hdr", "c21_raw", quick=[[n, a] for n in (1, 2) for a in (0, 1)], thorough=[[n, a] for n in (1, 2, 3) for a in (0, 1)], cover=["accepted", "refused"])])
P["C30"] = dict(bounds="", assume=[],
    runs=[R("hdr", "c30_extensions", quick=[[1, 0, 0], [1, 1, 0], [1, 2, 0], [2, 1, 0], [2, 1, 1], [3, 0, 0], [0, 0, 0]], thorough=[[k, p, l] for k in (0, 1, 2, 3, 4) for p in (0, 1, 2, 3) for l in (0, 1) if k * p < 8], cover=["back"]),
          R("hdr", "c30_extension_text", quick=[[n, l] for n in range(5) for l in (0, 1)], thorough=[[n, l] for n in range(7) for l in (0, 1)], cover=["parsed", "value"]),
          R("hdr", "c30_protocols", quick=[[k, l] for k in (1, 2, 3) for l in (0, 1)] + [[0, 0]], thorough=[[k, l] for k in (1, 2, 3, 4, 5) for l in (0, 1)] + [[0, 0]], cover=["back"]),
          R("hdr", "c30_singles", quick=[[n] for n in (0, 1, 2, 3, 7, 30)], thorough=[[n] for n in list(range(12)) + [30, 100]], cover=["origin", "13", "other version"]),
          R("hdr", "c30_no_panic", quick=[[n, h] for n in (0, 1, 2, 3) for h in range(6)], thorough=[[n, h] for n in range(6) for h in range(6)], cover=["accepted", "refused"])])
P["C22"] = dict(bounds="", assume=[],
    runs=[R("srv", "c22_headers", quick=[[h, r, k] for h in (0, 1, 2, 3) for r in (0, 2) for k in (0, 1)], thorough=[[h, r, k] for h in (0, 1, 2, 3) for r in range(6) for k in (0, 1)], cover=["accepted", "refused"]),
          R("srv", "c22_any_key", quick=[[h, w] for h in (0, 1, 2, 3) for w in (0, 1, 2)], cover=["accepted"]),
          R("srv", "c22_long", quick=[[h, k, n] for h in (0, 1, 2, 3) for k, n in ((1, 500), (1, 5000), (1, 9000), (60, 20), (90, 3))], thorough=[[h, k, n] for h in (0, 1, 2, 3) for k, n in ((1, 500), (1, 4050), (1, 5000), (1, 9000), (1, 60000), (60, 20), (90, 3), (90, 300))], cover=["accepted", "refused"]),
          R("srv", "c22_method", quick=[[h, m] for h in (0, 1, 2, 3) for m in range(4)], cover=["accepted", "refused"]),
          R("srv", "c22_values", quick=[[h, k, n] for h in (0, 1, 2, 3) for k in range(5) for n in (1, 2)], thorough=[[h, k, n] for h in (0, 1, 2, 3) for k in range(5) for n in (1, 2, 3) if not (k <= 2 and n == 3)], cover=["accepted", "refused"]),
          R("srv", "c22_key_value", quick=[[h, n] for h in (0, 1, 2, 3) for n in (1, 3)], thorough=[[h, n] for h in (0, 1, 2, 3) for n in (1, 2, 3, 5, 10)], cover=["accepted", "refused"]),
          R("srv", "c22_truncated", quick=[[0], [1]])])
P["C23"] = dict(bounds="", assume=[],
    runs=[R("srv", "c23_accept", quick=[[a, c, k] for a in (0, 1) for c in (0, 1, 2) for k in (0, 1, 2)], cover=["accepted"]),
          R("srv", "c23_large", quick=[[a, w] for a in (0, 1) for w in range(5)], cover=["accepted"])])
P["C27"] = dict(bounds="", assume=[],
    runs=[R("srv", "c27_reject", quick=[[a, c] for a in (0, 1) for c in (0, 1, 2, 3)], cover=["rejected"]), R("srv", "c27_failure", quick=[[0], [1]], cover=["failed"]),
          R("srv", "c27_large", quick=[[a, w] for a in (0, 1) for w in (1, 2)], cover=["rejected"])])
P["C24"] = dict(bounds="", assume=[],
    runs=[R("cli", "c24_response", quick=[[a, 0, 0] for a in (0, 1)] + [[a, 2, 1] for a in (0, 1)], thorough=[[a, r, m] for a in (0, 1) for r in range(5) for m in (0, 1)], cover=["taken", "refused"]),
          R("cli", "c24_long", quick=[[a, k, n] for a in (0, 1) for k, n in ((1, 500), (1, 5000), (1, 9000), (60, 20), (90, 3))], thorough=[[a, k, n] for a in (0, 1) for k, n in ((1, 500), (1, 4050), (1, 5000), (1, 9000), (1, 60000), (60, 20), (90, 3), (90, 300))], cover=["taken", "refused"]),
          R("cli", "c24_accept", quick=[[a, i] for a in (0, 1) for i in range(27)], cover=["taken", "refused"]),
          R("cli", "c24_words", quick=[[a, h, n] for a in (0, 1) for h in (0, 1, 2) for n in (1, 2)] + [[a, 0, 0] for a in (0, 1)], thorough=[[a, h, n] for a in (0, 1) for h in (0, 1, 2) for n in (1, 2, 3)] + [[a, 0, 0] for a in (0, 1)], cover=["taken", "refused"]),
          R("cli", "c24_status", quick=[[a, l] for a in (0, 1) for l in (0, 1)], cover=["taken", "refused"]),
          R("cli", "c24_incomplete", quick=[[a, n] for a in (0, 1) for n in (0, 1, 3)], thorough=[[a, n] for a in (0, 1) for n in (0, 1, 2, 3, 4)], cover=["refused"]),
          R("cli", "c24_fresh", quick=[[0], [1]], cover=["taken", "refused"]),
          R("cli", "c24_agreed", quick=[[0], [1]], cover=["taken"])])
P["C25"] = dict(bounds="", assume=[],
    runs=[R("cli", "c25_urls", quick=[[0], [1]], cover=["sent"]), R("cli", "c25_required", quick=[[0], [1]], cover=["sent"]), R("cli", "c25_broken_required", quick=[[0], [1]], cover=["sent"]),
          R("cli", "c25_large", quick=[[a, w] for a in (0, 1) for w in range(6)], cover=["sent"])])
P["C29"] = dict(bounds="", assume=[],
    runs=[R("cli", "c29_sequences", quick=[[a, n, f] for a in (0,) for n in (1, 2, 3) for f in range(18)] + [[1, n, f] for n in (1, 2) for f in range(18)], thorough=[[a, n, f] for a in (0, 1) for n in (1, 2, 3) for f in range(18)] + [[0, 4, f] for f in range(18)], cover=["sent"])])
P["C12"] = dict(bounds="", assume=[],
    runs=[R("both", "c12_frame_limit", quick=[[w, l] for w in (0, 1, 4, 5, 8, 9, 10) for l in (1, 2, 3, 4)] + [[w, 0] for w in range(11)], cover=["over the limit", "within the limit"]),
          R("both", "c12_message_limit", quick=[[w, l] for w in (0, 1, 4, 5, 8, 9, 10) for l in (1, 2, 3, 4)], thorough=[[w, l] for w in (0, 1, 4, 5, 8, 9, 10) for l in (1, 2, 3, 4)], cover=["over the limit", "within the limit"]),
          R("both", "c12_message_exact", quick=[[w, m, k] for w in (0, 1, 4, 5, 8, 9, 10) for m, k in ((110, 1), (240, 2), (1000, 3), (70000, 1))], thorough=[[w, m, k] for w in (0, 1, 4, 5, 8, 9, 10) for m in (110, 240, 1000, 5000, 70000) for k in (1, 2, 3, 9)], cover=["over the limit", "within the limit"])])
P["C26"] = dict(bounds="", assume=[],
    runs=[R("both", "c26_established", quick=[[w, 1] for w in range(11)], thorough=[[w, c] for w in range(11) for c in (1, 2)], cover=["server", "client"]),
          R("both", "c26_long", quick=[[w, n] for w in range(11) for n in (3000, 9000)], thorough=[[w, n] for w in range(11) for n in (1000, 3000, 9000, 70000)], cover=["server", "client"]),
          R("both", "c26_refused", quick=[[a, k, 1] for a in (0, 1) for k in range(4)], thorough=[[a, k, c] for a in (0, 1) for k in range(4) for c in (1, 2)], cover=["refused"])])
P["C28"] = dict(bounds="", assume=[],
    runs=[R("both", "c28_pieces", quick=[[s, h, 1] for s in (0, 1) for h in range(10)], thorough=[[s, h, c] for s in (0, 1) for h in range(10) for c in (1, 2) if (h, c) != (5, 2)], cover=["head", "error"]),
          R("both", "c28_long", quick=[[s, k, n] for s in (0, 1) for k, n in ((1, 500), (1, 4000), (1, 9000), (3, 3000), (60, 30), (90, 3))], thorough=[[s, k, n] for s in (0, 1) for k, n in ((1, 500), (1, 4000), (1, 9000), (1, 60000), (3, 3000), (60, 30), (90, 3), (90, 300), (30, 400))], cover=["head"]),
          R("both", "c28_altered", quick=[[s, n, p] for s in (0, 1) for n in (1,) for p in range(6)], cover=["head", "error"]),
          R("both", "c28_arbitrary", quick=[[s, i] for s in (0, 1) for i in range(16)]),
          R("both", "c28_request", quick=[[]], cover=["back"]),
          R("both", "c28_response", quick=[[d] for d in (1, 2, 3, 4, 5, 9)], cover=["back"])])
P["C31"] = dict(bounds="", assume=[],
    runs=[R("both", "c31_masks", quick=[[a, n] for a in range(12) for n in (0, 3)], thorough=[[a, n] for a in range(12) for n in (0, 1, 3, 4, 8, 126)], cover=["keys"]),
          R("both", "c31_connection", quick=[[a, 3, 1] for a in (0, 1)], thorough=[[a, k, n] for a in (0, 1) for k in (3, 5) for n in (1, 4)], cover=["keys"]),
          R("both", "c31_many", quick=[[a, 300] for a in (0, 1)], thorough=[[a, 3000] for a in (0, 1)], cover=["keys"]),
          R("both", "c31_nonces", quick=[[a, 2] for a in (0, 1)], cover=["nonces"])])
P["C32"] = dict(bounds="", assume=[],
    runs=[R("both", "c32_talk", quick=[[c, s, p, e, m] for c in (0, 1) for s in (0, 1) for p, e, m in ((0, 0, 1), (1, 1, 0), (2, 0, 2), (2, 2, 1))], thorough=[[c, s, p, e, m] for c in (0, 1) for s in (0, 1) for p in (0, 1, 2, 3) for e in (0, 1, 2) for m in (0, 1, 2)], cover=["talked"])])
P["C33"] = dict(bounds="", assume=[NET],
    runs=[R("net", "c33_client", quick=[[a, s, h] for a in range(6) for s, h in ((0, 0), (1, 0), (1, 1), (1, 2), (0, 2), (2, 1), (3, 0))], thorough=[[a, s, h] for a in range(6) for s in range(4) for h in range(3)], cover=["connected", "over TLS", "with the caller's settings"]),
          R("net", "c33_failure", quick=[[a, w] for a in range(6) for w in range(4)], cover=["failed"])])
P["C34"] = dict(bounds="", assume=[NET],
    runs=[R("net", "c34_bind", quick=[[a] for a in range(7)], cover=["bound", "busy", "any port"]),
          R("net", "c34_accept", quick=[[s, i, 3] for s in (0, 1) for i in (0, 1)], thorough=[[s, i, 4] for s in (0, 1) for i in (0, 1)], cover=["accepted", "refused", "nobody"]),
          R("net", "c34_clone", cover=["accepted", "refused"]),
          R("net", "c34_crowd", quick=[[s, a, n, k] for s in (0, 1) for a, n, k in ((0, 20, 0), (0, 20, 3), (1, 20, 6), (1, 20, 7), (1, 20, 3), (1, 12, 0))], thorough=[[s, a, n, k] for s in (0, 1) for a, n, k in ((0, 40, 0), (0, 60, 3), (1, 70, 6), (1, 70, 7), (1, 70, 3), (1, 30, 0))], cover=["crowd"]),
          R("net", "c34_incoming", quick=[[s, k, 9, 9] for s in (0, 1) for k in range(9) if (s, k) != (0, 5)], cover=["accepted", "refused"])])
P["C35"] = dict(bounds="", assume=[NET],
    runs=[R("net", "c35_socket", quick=[[k, o, 3] for k in range(5) for o in range(5)] + [[k, o, 3] for k in (0, 3) for o in range(5, 11)] + [[k, 11, 1] for k in (0, 3)], thorough=[[k, o, 4] for k in range(5) for o in range(5)] + [[k, o, 5] for k in (0, 3) for o in range(5, 11)] + [[k, 11, 1] for k in (0, 3)], cover=["done", "failure reported"])])
P["C36"] = dict(bounds="", assume=[],
    runs=[R("info", "c36_request", quick=[[h, p, e, r] for h in range(4) for p, e, r in ((0, 0, 0), (1, 1, 1), (2, 2, 2), (3, 3, 3), (4, 4, 4), (5, 1, 0), (0, 3, 1), (2, 0, 3), (6, 5, 0), (5, 5, 2), (7, 1, 1), (8, 0, 0), (9, 1, 0), (0, 8, 0), (1, 9, 0))], thorough=[[h, p, e, r] for h in range(4) for p in range(10) for e in (0, 1, 2, 3, 4, 5, 8, 9) for r in (0, 3) if p < 8 or e < 8], cover=["reported"]),
          R("info", "c36_response", quick=[[a, p, e, r] for a in (0, 1) for p, e, r in ((0, 0, 0), (1, 1, 1), (2, 2, 2), (3, 3, 3), (4, 4, 4), (5, 1, 0), (0, 3, 1), (2, 0, 3), (6, 5, 0), (5, 5, 2), (7, 1, 1), (8, 0, 0), (9, 1, 0), (0, 8, 0), (1, 9, 0))], thorough=[[a, p, e, r] for a in (0, 1) for p in range(10) for e in (0, 1, 2, 3, 4, 5, 8, 9) for r in range(5) if p < 8 or e < 8], cover=["reported"]),
          R("info", "c36_chosen", quick=[[a, c] for a in (0, 1) for c in (0, 1)], cover=["reported"])])
P["C37"] = dict(bounds="", assume=[],
    runs=[R("info", "c37_status", quick=[[a, l] for a in (0, 1) for l in (0, 1)], cover=["status", "redirection"]),
          R("info", "c37_header", quick=[[a, w, h] for a in (0, 1) for w in range(3) for h in range(4)], cover=["named"]),
          R("info", "c37_client_transport", quick=[[a, w] for a in (0, 1) for w in (0, 1)], cover=["reported"]),
          R("info", "c37_server_transport", quick=[[a] for a in (0, 1)], cover=["reported"]),
          R("info", "c37_answer_transport", quick=[[a, h] for a in (0, 1) for h in range(4)], cover=["reported"]),
          R("info", "c37_convert", cover=["converted"]),
          R("info", "c37_refused", quick=[[h] for h in range(4)], cover=["method", "http version", "version", "key", "other upgrade", "no upgrade", "other connection", "no connection"]),
          R("info", "c37_requirements", cover=["named"])])
P["C38"] = dict(bounds="", assume=[],
    runs=[R("own", "c38_frames", quick=[[s, w, n, k] for s in SR for w in range(8) for n, k in ((0, 1), (3, 2), (9, 4), (125, 1), (126, 3))] + [[s, w, n, 2] for s in SR for w in (0, 2, 5, 7) for n in (1000, 65536)], thorough=[[s, w, n, k] for s in SR for w in range(8) for n in list(range(20)) + [64, 124, 125, 126, 127, 300, 4096, 65535, 65536, 70000] for k in (1, 2, 3, 5)], cover=["sent"]),
          R("own", "c38_messages", quick=[[s, w, k, n] for s in SR for w in range(8) for k, n in ((1, 3), (2, 2), (3, 1), (2, 126))] + [[s, w, 2, 5000] for s in SR for w in (1, 5, 7)], thorough=[[s, w, k, n] for s in SR for w in range(8) for k, n in ((1, 0), (1, 3), (2, 2), (3, 1), (4, 1), (5, 2), (2, 126), (3, 70), (2, 5000), (2, 65536))], cover=["sent"]),
          R("own", "c38_received", quick=[[s, w, k, n] for s in SR for w in range(4) for k, n in ((0, 0), (1, 3), (2, 1), (3, 0))], thorough=[[s, w, k, n] for s in SR for w in range(4) for k, n in ((0, 0), (1, 3), (2, 1), (3, 0), (4, 2), (3, 9))], cover=["received"]),
          R("own", "c38_assembled", quick=[[k, n] for k in (0, 1, 2, 3) for n in (0, 1, 2, 5)], thorough=[[k, n] for k in range(6) for n in range(9)], cover=["message", "refused"])])
P["C39"] = dict(bounds="", assume=[],
    runs=[R("own", "c39_operations", quick=[[2, 5, 2], [1, 0, 9], [2, 7, 9], [1, 9, 1], [2, 5, 0], [1, 1, 9], [1, 2, 9], [1, 3, 2], [2, 2, 9]], thorough=[[3, 5, 2], [3, 7, 9], [2, 9, 1], [2, 0, 9], [2, 3, 2], [3, 2, 9], [3, 5, 0]], cover=["done", "split"]),
          R("own", "c39_connection", quick=[[s, a, n] for s in SR for a in (0, 1) for n in (0, 5, 126)], thorough=[[s, a, n] for s in SR for a in (0, 1) for n in (0, 1, 5, 125, 126, 4000, 65536)], cover=["both"])])
P["C40"] = dict(bounds="", assume=[],
    runs=[R("ops", "c40_operations", quick=[[s, k, n, p, c] for s in SR for p in (0, 1) for k, n, c in ((1, 1, 1), (2, 1, 1), (2, 0, 2), (2, 126, 0), (3, 1, 0), (2, 2100, 0), (1, 5000, 1))], thorough=[[s, k, n, p, c] for s in SR for p in (0, 1) for k, n, c in ((1, 1, 1), (2, 1, 1), (2, 0, 2), (2, 126, 0), (3, 1, 0), (3, 0, 2), (3, 1, 1), (3, 126, 0), (4, 1, 0), (2, 5000, 0), (1, 70000, 0))], cover=["unwrapped", "split", "dropped"]),
          R("ops", "c40_exchanged", quick=[[s, n, w, b] for s in SR for w in (0, 1) for n, b in ((1, 0), (2, 1), (126, 1), (9000, 0))], thorough=[[s, n, w, b] for s in SR for w in (0, 1) for n in (0, 1, 2, 5, 125, 126, 9000, 65536) for b in (0, 1, 2)], cover=["exchanged"]),
          R("ops", "c40_let_go", quick=[[a, c] for a in (0, 1) for c in (0, 1)], cover=["silent"])])
# id: (bounds of the quick tier; + what thorough adds, what lies outside)
BOUNDS = {
"C01": ("no bound on the inputs: all flags, opcodes 0..=255, no or any mask, all 64-bit lengths", "writers that fail (C18)"),
"C02": ("every byte string of length 0..16, longer than the longest header (14); thorough: 0..24", "readers that hand out the header in pieces or fail (C16)"),
"C03": ("all flag, opcode and key values, all payload contents, payload lengths %s (thorough: also every length up to 300, 200000, 1 MiB); payloads over 140 bytes have 128 symbolic bytes, the rest a fixed pattern" % LENS, "other payload lengths"),
"C04": ("all keys; payloads masked at once of the listed lengths (0..19, 31..33, 63..65, 127..129, 1000, 4096, 65536; thorough 0..299 and more); through the masking writer payloads of 0-9 bytes in up to 3 caller writes (flushed or not in between) with up to 3 short writes and 1 interruption, 70 bytes with 1 piece boundary or 1 short write, 13..9000 bytes in equal pieces of 1..9000 bytes to a writer taking at most 1..9999 bytes at a time", "other schedules of pieces, short writes or interruptions"),
"C05": ("12 ways of sending, 8 ways of receiving messages and 7 of receiving frames, 11 ways of establishing a connection; all kinds, keys, first header bytes and payload contents; lengths 0, 3, 5, 125, 126, 65536 (thorough: 15 lengths up to 65536)", "other lengths; TLS transports"),
"C06": ("12 ways of sending x 8 ways of receiving x 6 kinds, 1 message of 3 bytes each (selected pairs also 0, 125..127, 65535, 65536 bytes) or 2 messages of 2 (selected pairs: 4 of 1); two ends, blocking or asynchronous, exchanging 3 or 4 messages of any kinds of up to 130 (66000) bytes in every order of sending and receiving; 300 messages of 9 and 30 of 1000 bytes over one pair of connections, of all kinds in turn, fixed content but for an arbitrary byte in some; 3 to 300 messages of up to 70000 bytes queued together by the codecs or a framed connection, some or all of them written in between; thorough: 3 messages and more lengths, 3000 messages; texts are ASCII with at choice one arbitrary multi-byte character in front", "longer conversations"),
"C07": ("up to 4 frames behind the first fragment (payload lengths 0..2 there, fewer frames for longer ones, up to 95 bytes); messages of 2..130, 1300 and 5000 fragments with 2 control frames anywhere (6 places for many, 2 for very many) between them, and another message behind; 10, 40, 70 or 300 control frames (only pings, only pongs or both; the first 20 of arbitrary content) of up to 125 bytes inside one message; text content ASCII; thorough: up to 5 frames, 70000 fragments", "more fragments; ping/pong/close content is arbitrary, fragment content of texts beyond ASCII is C09's"),
"C08": ("up to 3 frames, every first header byte (flags, reserved bits, opcode) of each, payloads of 0..2 bytes; 4 empty frames; thorough: 5 frames, 125 bytes", "longer sequences; control frames without FIN (C02); payloads beyond ASCII (C09)"),
"C09": ("text of 0..5 arbitrary bytes in 1..3 fragments cut anywhere, 3 arbitrary bytes behind 30 ASCII ones, 2..4 arbitrary bytes behind 61..65534 ASCII ones and before others (also cut into 2 fragments around them), reasons of 0..5 arbitrary bytes; binary/ping/pong of up to 125 bytes; thorough: 7 bytes, 4 fragments", "longer arbitrary text (the validator is std's, a state machine over 4 bytes)"),
"C10": ("received: close payloads of 0..6 arbitrary bytes (thorough 8), reasons of 30..123 ASCII bytes with up to 4 arbitrary ones behind; sent: any code, reasons of 0..4, 30, 123..125, 200 bytes (thorough 0..129)", "arbitrary bytes elsewhere in long received reasons"),
"C11": ("every 64-bit announced length against every 32-bit frame limit and the default one (16-bit lengths within the limit: 24 sizes), 6 readers; whole frames of 0..4 bytes against a limit of 2, 7 ways of receiving; every 16-bit message limit against up to 4 fragments of up to 300 bytes or 7 of 1 or 300 bytes, control frames between", "limits above 4 GiB; message limits above 65535 (C12 has the default's order of magnitude)"),
"C12": ("11 ways of establishing a connection (hyper's own server; client blocking/asynchronous; server blocking/asynchronous x accept, accept_with, accept_with_limits, accept_with_headers_and_limits); frame limits 10, 1000, 70000, 2^32 + 10 and the default against every 63-bit announced length above and selected ones at and below; message limits 10, 400, 1000, 2^32 + 10 against fragment sequences; message limits 110, 240, 1000, 70000 with 1..3 fragments just below (allowing 64 bytes for each) and just above them; accumulation up to the default 100 MB frame limit is not run", "other values of the limits; the exact default message limit"),
"C13": ("byte strings of 5..7 arbitrary bytes cut at 1 or 2 places or into single bytes; sequences of up to 3 whole frames with arbitrary header bytes; frame codec: strings of 2..14 bytes byte by byte; default limits and limits of 4 and 70 bytes; streams of up to 4 frames the first of which has 126..65536 bytes (with default, exact and too small limits), cut at one of 13 places, at 2 of them, or into equal pieces of 2..4096 bytes, through the codec and through a framed transport; 140 bytes byte by byte; messages of 2..17 fragments with 1 or 2 control frames anywhere between them, cut anywhere or behind every frame; thorough: 100 fragments, 9 bytes, 4 frames, 18 bytes", "longer streams"),
"C14": ("byte strings of up to 6 (client) or 7 (server) arbitrary bytes, 8..13 bytes behind a 64-bit-length header, sequences of up to 3 frames with arbitrary header bytes, some wrongly masked or cut off; thorough: 8/10 bytes, 4 frames of 0-1 bytes", "longer streams; streams near the limits"),
"C15": ("byte strings of up to 7 arbitrary bytes (clients' 10), 8 or 13 behind a 64-bit-length header, 6 readers, arbitrary limits; no request for more than 4 MiB of memory; thorough: up to 16 bytes", "longer streams; memory accumulated over many received bytes"),
"C16": ("cuts at every position of up to 2 frames of 0..3 bytes and near the start and end of one of 126; 6 kinds of transport errors at each position with 1 interruption and 1 short read; thorough: 3 frames of up to 40 bytes, one of 65536, 3 short reads", "other lengths; resumption after WouldBlock inside a frame: the blocking reader then drops the part it had read"),
"C17": ("all 6 kinds, any close code, payloads of 0..5, 17, 123..126, 300, 65536 bytes (thorough 0..129 and more); messages put together from up to 3 frames of up to 2 bytes with arbitrary header bytes (thorough: 5 frames)", "other lengths; payload bytes beyond the 128 symbolic ones of long payloads"),
"C18": ("9 ways of sending, all kinds, payloads of 0, 3, 126 bytes, up to 2 short writes of any size (8 sizes for long frames) and 1 interruption (or no short write and 4 interruptions), failure (4 kinds) or refusal after any number of bytes (8 places for long frames); framed connections: 2 messages, 1 short and 2 blocked writes; 2 or 3 messages of any kinds of up to 130 bytes over one client or split writer with 1 or 2 short writes and 1 interruption anywhere; thorough: 6 and 200 bytes, 3 short writes", "more faults per send"),
"C19": ("up to 2 frames before and 2 behind the split (thorough 4 in all) of 0..2 bytes, every mix of whole, fragmented and control frames, every read boundary and split point; Pipe, ReadWritePair and unwrapping; frames of 3000 and 5000 bytes with 10 read boundaries", "longer streams; splitting in the middle of a fragmented message keeps what was received only up to the last whole message"),
"C20": ("no bound on the inputs: all 2^128 keys; 2 or 3 keys in a row that share their first or last 8 bytes, all but one, or all; SHA-1's compression is the sha-1 crate's, here an uninterpreted function of its input (and the real one for the RFC's example)", "the digest function itself"),
"C21": ("all keys and accept values; every ASCII text of 0, 1, 4, 21..29 characters; base64 of every byte string of 0..24 bytes (thorough 0..39); up to 2 (3) arbitrary bytes anywhere in a correct value, 1 or 2 (4) characters added to it anywhere", "other text lengths, longer non-ASCII runs"),
"C22": ("6 key forms x 7 upgrade forms x 7 connection forms x version forms in 2 rotations (thorough 6), any key, any case of the two words, any 3-character method and 10 others, HTTP/1.0 and 1.1, 1 or 2 arbitrary visible characters anywhere in a value (thorough 3), every truncation; correct and two wrong requests with up to 90 further headers or one of 9000 bytes in 5 kinds of pieces; blocking, asynchronous, request and stream given separately, and handed over by hyper's own server", "requests of other shapes; more than 90 further headers; header values outside visible ASCII (C28)"),
"C23": ("any key; any two-character subprotocol names and extensions (0..2), custom headers with arbitrary 3-character value, 5 attempts at the required headers, all four accept functions, blocking and asynchronous, 1 short write of any size; responses with a header of 9000 characters, 90 header lines, 30 subprotocols or extensions to a transport that takes at most 70, 1000, 5000 or all bytes at a time and interrupts or blocks every 2nd, 3rd, 7th or no write", "other large choices; custom header values that are not UTF-8 (hyper 0.10 cannot print them)"),
"C24": ("status: every three-digit one; accept token: right, of another key, every one-character change at every position, too long, too short, absent, or there together with a wrong one; upgrade and connection: 8 and 6 forms in several rotations, also next to the request's key sent back, any case, 1 or 2 arbitrary visible characters anywhere in them; every truncation; up to 3 arbitrary bytes at the start; right and two wrong responses with up to 90 further headers or one of 9000 bytes in 5 kinds of pieces; any key drawn or configured", "HTTP/1.0 with status 101, the right accept header twice, versions and empty elements in the upgrade header: left open by the statement"),
"C25": ("19 URL shapes (ports, IPv6, credentials, fragments, queries) with arbitrary unreserved characters in paths and queries, and in credentials any that may stand there or any percent-encoded ASCII character; 12 attempts of custom headers at the required ones with arbitrary 2-character values; 6 configure-then-clear sequences; requests with a path of 5000 characters, a header of 9000, 90 header lines, 30 subprotocols or extensions to a transport that takes at most 70, 1000, 5000 or all bytes at a time and interrupts (asynchronous: blocks) every 2nd, 3rd, 7th or no write; blocking and asynchronous", "other URL shapes; non-ASCII hosts (IDNA); credentials of arbitrary length"),
"C26": ("11 ways of establishing (hyper's own server among them); 3 messages and a partial frame with arbitrary content behind the handshake, 1 read boundary anywhere (thorough 2); 3 messages of up to 9000 bytes behind the handshake with 12 read boundaries; 4 kinds of refused requests with 4 arbitrary bytes behind them", "more read boundaries; blocking receives that hit WouldBlock inside a frame"),
"C27": ("any two custom headers and one of 8 of the handshake's and HTTP's own, any key, reject and reject_with, blocking and asynchronous, short writes, failing transports; a header of 9000 characters or 90 header lines to a transport that takes at most 70, 1000, 5000 or all bytes at a time and interrupts or blocks every 2nd, 3rd, 7th or no write", "other large sets of custom headers"),
"C28": ("10 request and response heads each cut anywhere (thorough: twice); 1 arbitrary visible character at every position of 6 lines cut around it; 1 arbitrary byte at every position; requests of 9 methods x 4 targets x 2 versions and responses of every status 100..599, 900..999 with arbitrary header values of 1..3 characters, behind 0 or 2 old bytes; heads of up to 90 lines or with values of up to 9000 bytes in 3 kinds of pieces", "an arbitrary first byte of a request target (url/IDNA tables); heads of more than hyper's MAX_BUFFER_SIZE"),
"C29": ("every sequence of up to 3 (asynchronous: 2) of 18 settings with arbitrary 1-2-character values, getters after each step and the request sent at the end; thorough: 4", "longer sequences"),
"C30": ("up to 3 extensions with up to 2 parameters, names and values of 1..2 arbitrary token characters (values also = and \", or empty); every ASCII text of up to 4 characters as extension or header line (thorough 6); up to 3 subprotocols of 1..3 characters; origins and versions of 0..3, 7, 30 characters; arbitrary byte strings of up to 3 bytes in each header (thorough 5)", "quoted strings with separators (not supported by the grammar used), longer texts"),
"C31": ("12 ways of sending, 3 frames each, 3 messages over one connection (and 300, 20 arbitrary draws and then fixed distinct ones), 2 handshakes of one builder; the random source returns arbitrary bytes and records them, and each key must be 4 (nonce: 16) bytes of those drawn since the last frame", "the quality of the rand crate's generator; more than 300 (thorough 3000) frames over one connection"),
"C33": ("the 6 connect functions x 4 schemes, 3 names (one with capitals) or an IPv4 or IPv6 address as host, no port, 80, 443 or any four-digit port; any resolved addresses, 1 or 2 of them, the first refusing for blocking clients; default or own TLS settings; one message each way of any 2 bytes, up to 1 blocked read; failures: refused, unresolved, closed or answered with any other first byte during the TLS handshake", "other host names (the url and idna crates read them); explicit connect_secure on ws or connect_insecure on wss without a port; the native-tls, tokio-tcp and tokio-tls machinery and the kernel themselves"),
"C34": ("any IPv4 or IPv6 address and port, 2 addresses of which 0, 1 or both are taken, all 7 ways of getting a server; blocking servers: every sequence of 3 connections of 6 kinds (thorough 4), accept or iterator, blocking or not; asynchronous servers: every set of 3 connections of 9 kinds, with any peer addresses, messages and keys; crowds of 12 and 20 connections, all of one kind but one in the middle or at the end (thorough up to 70)", "longer sequences of mixed kinds; connections arriving while others are being served (asynchronous ones all wait at the start, late ones become readable later)"),
"C35": ("5 kinds of connections (TCP, TLS, boxed; accepted plain and TLS ones), 2 of each open, any peer and local addresses, 12 operations, sequences of up to 3, each succeeding or failing", "longer sequences (thorough: 4 to 5)"),
"C32": ("any key (drawn or configured), 3 URLs, 3 configurations, up to 2 subprotocols and 2 extensions with any two-character names, extensions without, with a bare and with a valued parameter, any choice of them, up to 2 messages with the response, 3 messages after; the four combinations of blocking and asynchronous ends; thorough: 3 subprotocols", "real sockets; larger configurations"),
"C36": ("any key, subprotocol and extension names of 1 or 2 token characters, in 10 and 8 shapes of lines (lists, several lines, duplicates, names with a space, parameters, 60 in one line, 30 lines, 40 parameters), any 3-character origin, custom header values and targets of unreserved characters; requests taken 4 ways (blocking, asynchronous, stream and request, hyper's server), responses blocking and asynchronous; up to 2 chosen subprotocols and 2 extensions", "other shapes and longer lists (thorough: all combinations of the shapes)"),
"C37": ("client: every three-digit status with and without location, each required header missing or wrong in 3 ways; transport errors of 12 kinds at 4 or 5 places of what is read or written by client and server, blocking and asynchronous, in accept, accept_with, reject and reject_with; requests failing one requirement with any 2-character value, taken 4 ways; conversions of errors of 12 kinds and 40 OS error numbers", "failures at other places; Interrupted (retried) and WouldBlock (C18, C26)"),
"C38": ("frame types of one's own with any flags and opcode (control frames short), payloads of 0, 3, 9, 125, 126 bytes (some ways also 1000, 65536) in 1..4 pieces written in 3 styles, sent in 8 ways; message types of one's own of 1..3 frames, sent in 8 ways; receivers of one's own: up to 3 frames with arbitrary first bytes, 4 ways of receiving; messages of the library from up to 3 frames of one's own with arbitrary flags and opcodes", "types whose size() is not what they write; other lengths"),
"C39": ("every sequence of 2 of 12 operations, on halves that hold 0 to 9 bytes (up to 3 of them arbitrary, also no text), give or take 0, 1, 2 or 9 bytes at a time and may fail at any of the first three calls with 21 kinds of errors; connections over a pair that receive and send one message of 0, 5 or 126 bytes; thorough: 3 operations", "longer sequences"),
"C40": ("sequences of up to 3 of 12 operations (messages and frames received singly or through iterators, raw reads, messages and frames sent, raw writes, flushes) on one blocking connection over a stream or a pair, payloads of 0, 1, 126, 2100, 5000 bytes (of long ones 7 bytes are symbolic), a message in pieces around other ones, 1 read boundary anywhere or everywhere (shorter sequences), ending in splitting, unwrapping or dropping; codecs of a framed connection exchanged either way with 0..2 of 3 messages delivered, 1 boundary in what is received, 1 blocked write; upgrades dropped in 4 states", "longer sequences (thorough: 4); failing transports (C16, C18)"),
}
for _i, (_b, _o) in BOUNDS.items(): P[_i]["bounds"], P[_i]["outside"] = _b, _o
MODULES = sorted({r["m"] for p in P.values() for r in p["runs"]})
NA = {}

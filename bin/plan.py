"""Which models and which suites decide which property.

A job: suite of the harness, number of cases (quick, thorough); or a file of
vectors that a model exported. MODELS: the TLA+ modules TLC runs by themselves.
"""

MODELS = {
    "MCStream": {"module": "MCStream", "workers": 3,
                 "what": "connection state machine: every interleaving of writes, injected bytes, deliveries and reads within the constants"},
    "MCFraming": {"module": "MCFraming", "workers": 3,
                  "what": "every buffer over a few byte values growing byte by byte, under each limit: verdicts final, requests exact"},
    "ProofVarInt": {"module": "ProofVarInt", "symbolic": True,
                    "what": "variable byte integers, every number and every four bytes (SMT)"},
    "ProofFraming": {"module": "ProofFraming", "symbolic": True,
                     "what": "framing verdicts for buffers of any size, any declared length, any limit (SMT)"},
    "ProofLane": {"module": "ProofLane", "theorems": True,
                  "what": "the connection without its bytes: chunk independence, whole frames, exact requests for streams, frames and chunks of any size (TLAPS)"},
    "ProofTopic": {"module": "ProofTopic", "theorems": True,
                   "what": "matching and covering for topics and filters of any depth over any levels: covering reflexive, transitive, sound; the level-by-level scan ends with the rule's answer (TLAPS)"},
    "MCUtf8": {"module": "MCUtf8", "workers": 2, "what": "UTF-8 recogniser against its grammar"},
    "MCTopic": {"module": "MCTopic", "workers": 4,
                "what": "every pair of topic and filter over a small alphabet: scan, level-wise match, validity, covering agree"},
    "MCCodec": {"module": "MCCodec", "workers": 4, "exports": ["packets", "frames"],
                "what": "the life of every packet of a bounded universe: wire forms, reading, cutting, damaging, rewriting"},
    "MCProps": {"module": "MCProps", "workers": 2, "exports": ["prop", "code"],
                "what": "every property place x identifier byte x section length, every code place x byte"},
    "MCBuilder": {"module": "MCBuilder", "workers": 2, "exports": ["builds"],
                  "what": "every sequence of builder calls of bounded length"},
    "GenStream": {"module": "GenStream", "workers": 4, "exports": ["sessions"],
                  "simulate": {"quick": (60, 62), "thorough": (2000, 62)},
                  "what": "random behaviours of the connection state machine over the packet universe, exported as sessions"},
}


def suite(s, quick, thorough, **kw):
    return dict(name=kw.pop("name", s), suite=s, n=(quick, thorough), **kw)


def vec(model, export, name=None, **kw):
    n = name or "%s.%s" % (model, export)
    return dict(name=n, suite=kw.pop("suite", "vec"), model=model, export=export, **kw)


def near(quick, thorough, **kw):
    n = kw.pop("name", "near")
    return dict(name=n, suite="near", model="MCCodec", export="frames", n=(quick, thorough), **kw)


SESS = "TraceStream"
sess = lambda q, t: suite("sess", q, t, module=SESS, slice=400)
sessions = lambda: vec("GenStream", "sessions", suite="steps", module=SESS, slice=400)
frames = lambda **kw: vec("MCCodec", "frames", **kw)
packets = lambda **kw: vec("MCCodec", "packets", **kw)

GRID = 256 * 93  # grid_size() of the harness
PLAN = {
    "C01": dict(models=["MCStream", "GenStream", "ProofLane"], jobs=[suite("grow", 48, 480, slice=6), sess(1500, 60000), sessions()],
                rule="sessions: packets, foreign frames, damaged frames and junk in one stream, cut into chunks down to single bytes, each read until more is asked for; every session is compared with the reading of the whole stream at once"),
    "C02": dict(models=["MCFraming", "MCCodec", "ProofFraming", "ProofLane"],
                jobs=[suite("blendr4", 1200, 60000, slice=600), suite("blendr5", 7200, 240000, slice=900), suite("grow", 48, 480, slice=6), suite("asks", 144, 1440, slice=18), suite("cut", 4000, 100000), suite("dec4", 1500, 40000), suite("dec5", 2500, 40000),
                      suite("mal4", 1500, 40000), suite("mal5", 2500, 40000), near(4000, 100000), sess(300, 6000),
                      suite("big", 20, 40, slice=5), suite("pads", 204, 1020, slice=17)],
                rule="buffers holding a frame (well-formed, damaged, cut) and what follows it; a record shows how much was removed"),
    "C03": dict(models=["MCFraming", "MCCodec", "ProofFraming", "ProofLane"],
                jobs=[suite("blendm4", 1200, 60000, slice=600), suite("blendm5", 7200, 240000, slice=900), suite("grow", 48, 480, slice=6), suite("asks", 144, 1440, slice=18), suite("cut", 6000, 150000), suite("hdr", 4000, 100000), suite("mal5", 1500, 30000), suite("mal4", 1500, 30000),
                      near(3000, 60000), sess(300, 6000), suite("pads", 204, 1020, slice=17)],
                rule="prefixes of frames at every length, headers cut at every byte, frames whose inner fields run out; exercised = more bytes were needed"),
    "C04": dict(models=["MCFraming", "ProofFraming"],
                jobs=[suite("asks", 144, 1440, slice=18), suite("cut", 6000, 150000), suite("hdr", 6000, 150000), sess(300, 6000)],
                rule="limits around the declared length, with the body absent, partial or complete; exercised = the limit is exceeded"),
    "C05": dict(models=["MCFraming", "ProofVarInt", "ProofFraming"],
                jobs=[suite("hdr", 5000, 150000), suite("edge", 100, 2000, slice=40), suite("big", 20, 40, slice=5),
                      suite("dec5", 1500, 20000), suite("enc5", 1500, 20000), suite("wide", 52, 286, slice=13),
                      suite("crowd4", 8, 8, slice=1), suite("lens4", 84, 84, slice=7), suite("crowd5", 38, 38, slice=5), suite("lens5", 462, 462, slice=7)],
                rule="length fields of one to five bytes incl. non-minimal ones, packets of 0..268,435,455 bytes around every size at which the field grows"),
    "C06": dict(models=["MCCodec"],
                jobs=[suite("fuzz", 32, 1600, slice=8), suite("mal4", 3000, 100000), suite("mal5", 4000, 100000),
                      suite("hdr", 3000, 50000), suite("cut", 2000, 50000), near(5000, 150000), frames(), suite("pads", 204, 1020, slice=17), suite("crowd4", 8, 8, slice=1), suite("crowd5", 38, 38, slice=2)],
                rule="made-up bodies, damaged frames, frames read as the wrong version (20,000 per fuzz case, of which every 400th and every odd one is recorded), panics, aborts and calls of more than 20 s are recorded as such"),
    "C07": dict(models=["MCCodec"],
                jobs=[suite("blendw4", 1200, 60000, slice=600), suite("enc4", 6000, 200000), packets(ver=4), suite("big", 20, 40, slice=5, name="big"), suite("long", 544, 544),
                      suite("dictw4", 10, 40), suite("chars4", 10, 10, slice=2), suite("crowd4", 8, 8, slice=1), suite("lens4", 84, 504, slice=7), suite("vals4", 2560, 2560)],
                rule="random and enumerated MQTT 3.1.1 packets written and read back; exercised = the packet is well-formed"),
    "C08": dict(models=["MCCodec"],
                jobs=[suite("blendw5", 7200, 240000, slice=900), suite("enc5", 9000, 300000), packets(ver=5), suite("big", 20, 40, slice=5), suite("long", 544, 544),
                      suite("huge", 0, 34, slice=17), suite("wide", 52, 286, slice=13),
                      suite("dictw5", 58, 232), suite("chars5", 58, 58, slice=8), suite("crowd5", 38, 38, slice=5), suite("lens5", 462, 2772, slice=7), suite("vals5", 8192, 8192, slice=1024)],
                rule="random and enumerated MQTT 5 packets written and read back; exercised = the packet is well-formed"),
    "C09": dict(models=["MCCodec"], jobs=[suite("blendw4", 1200, 60000, slice=600), suite("enc4", 6000, 200000), packets(ver=4), suite("big", 0, 40, slice=5),
                      suite("dictw4", 10, 40), suite("chars4", 10, 10, slice=2), suite("crowd4", 8, 8, slice=1), suite("lens4", 84, 504, slice=7), suite("vals4", 2560, 2560)],
                rule="the bytes written for random and enumerated MQTT 3.1.1 packets, read by the specification; exercised = the packet is well-formed"),
    "C10": dict(models=["MCCodec"], jobs=[suite("blendw5", 7200, 240000, slice=900), suite("enc5", 9000, 300000), packets(ver=5), suite("big", 0, 40, slice=5), suite("wide", 52, 286, slice=13),
                      suite("dictw5", 58, 232), suite("chars5", 58, 58, slice=8), suite("crowd5", 38, 38, slice=5), suite("lens5", 462, 2772, slice=7), suite("vals5", 8192, 8192, slice=1024)],
                rule="the bytes written for random and enumerated MQTT 5 packets, read by the specification; exercised = the packet is well-formed"),
    "C11": dict(models=["MCCodec"], jobs=[suite("blendr4", 1200, 60000, slice=600), suite("dec4", 7000, 250000), suite("text4", 4000, 16000), frames(ver=4), suite("grid4", GRID, 8 * GRID), near(5000, 100000), suite("long", 544, 544),
                      suite("dictr4", 10, 40), suite("chars4", 10, 10, slice=2), suite("crowd4", 8, 8, slice=1), suite("lens4", 84, 504, slice=7), suite("vals4", 2560, 2560)],
                rule="MQTT 3.1.1 frames in every legal form, and frames one small step from them; exercised = the specification accepts the frame"),
    "C12": dict(models=["MCCodec"], jobs=[suite("blendr5", 7200, 240000, slice=900), suite("dec5", 10000, 400000), suite("text5", 4000, 100000), frames(ver=5), suite("grid5", GRID, 8 * GRID), near(6000, 150000), suite("long", 544, 544), suite("wide", 52, 286, slice=13),
                      suite("dictr5", 58, 232), suite("chars5", 58, 58, slice=8), suite("crowd5", 38, 38, slice=5), suite("lens5", 462, 2772, slice=7), suite("vals5", 8192, 8192, slice=1024)],
                rule="MQTT 5 frames in every legal form (property orders, defaults present or absent), and frames one small step from them; exercised = the specification accepts the frame"),
    "C13": dict(models=["MCCodec", "MCUtf8"], jobs=[suite("blendm4", 1200, 60000, slice=600), suite("mal4", 7000, 250000), suite("one4", 3000, 80000), suite("text4", 8000, 16000), suite("pad4", 3584, 36000), suite("grid4", GRID, 8 * GRID), near(7000, 150000)],
                rule="MQTT 3.1.1 frames damaged at every site the encoder noted; exercised = the specification rejects the frame"),
    "C14": dict(models=["MCCodec", "MCUtf8"], jobs=[suite("blendm5", 7200, 240000, slice=900), suite("mal5", 9000, 300000), suite("one5", 4000, 100000), suite("text5", 12000, 100000), suite("pad5", 3584, 36000), suite("grid5", GRID, 8 * GRID), near(8000, 200000)],
                rule="MQTT 5 frames damaged at every site the encoder noted; exercised = the specification rejects the frame"),
    "C15": dict(models=["MCProps"], jobs=[suite("blendr5", 7200, 240000, slice=900), suite("props", 13 * 256, 13 * 256), suite("pairs", 2 * 13 * 27 * 18, 2 * 13 * 27 * 18), suite("section", 4000, 150000), suite("trail", 2 * 13 * 256, 20 * 13 * 256), vec("MCProps", "prop")],
                rule="every packet type (and the will) x every identifier byte, with right and wrong section lengths; exercised = the frame is complete and the specification decides it"),
    "C16": dict(models=["MCCodec"],
                jobs=[suite("blendw4", 1200, 60000, slice=600), suite("blendw5", 7200, 240000, slice=900), suite("enc4", 3500, 100000), suite("enc5", 6000, 150000), packets(), suite("long", 544, 544), suite("room", 432, 4320), suite("after", 392, 3920), suite("big", 20, 40, slice=5), suite("kin", 784, 15680), sess(300, 6000)],
                rule="each packet written into an empty buffer and behind random bytes; each type behind each type with the same identifier; exercised = the buffer was not empty"),
    "C17": dict(models=["MCCodec"],
                jobs=[suite("blendw4", 1200, 60000, slice=600), suite("blendw5", 7200, 240000, slice=900), suite("enc4", 3500, 100000), suite("enc5", 6000, 150000), packets(), suite("big", 20, 40, slice=5), suite("long", 544, 544), suite("room", 432, 4320), suite("wide", 52, 286, slice=13),
                      suite("crowd4", 8, 8, slice=1), suite("lens4", 84, 504, slice=7), suite("crowd5", 38, 38, slice=5), suite("lens5", 462, 2772, slice=7), suite("vals4", 640, 2560), suite("vals5", 2048, 8192)],
                rule="the number a write returns, the length a packet reports and the length field against the bytes appended; exercised = the write succeeded"),
    "C18": dict(models=["MCCodec"],
                jobs=[suite("bad", 4000, 100000), suite("refusal", 1600, 40000), packets(), suite("big", 20, 40, slice=5), suite("huge", 17, 51, slice=4),
                      suite("long", 544, 544)],
                rule="publishes without identifier, packets beyond 268,435,455 bytes, subscription identifiers beyond it, fields beyond 65,535 bytes; exercised = the packet cannot be sent"),
    "C19": dict(models=["MCProps"], jobs=[suite("blendw4", 1200, 60000, slice=600), suite("blendw5", 7200, 240000, slice=900), suite("blendr4", 1200, 60000, slice=600), suite("blendr5", 7200, 240000, slice=900), suite("codes", 27 * 256, 27 * 256), suite("codew", 1260, 12000), suite("api", 5, 5), vec("MCProps", "code")],
                rule="every field that carries a code x every byte read, every reason of the API written in every packet"),
    "C20": dict(models=["MCCodec"],
                jobs=[suite("re", 9000, 300000), vec("MCCodec", "frames", name="reframes", kind="reframe")],
                rule="frames, also tolerated odd ones, that the reader accepts: rewritten and read again, twice"),
    "C21": dict(models=["MCStream", "GenStream", "ProofLane"], jobs=[sess(1500, 60000), sessions()],
                rule="sessions: packets written one after another into one buffer, transported in chunks, read; each event must be a step of the connection state machine"),
    "C22": dict(models=["MCTopic", "ProofTopic"], jobs=[suite("tm", 160, 2000, slice=12), suite("uni", 224, 224, slice=28)],
                rule="every pair of a topic and a filter of up to 3 characters over / + # $ a é (first 49 blocks), then random longer ones; a record holds a matrix of answers"),
    "C23": dict(models=["MCTopic"], jobs=[suite("tv", 80, 1500, slice=10), suite("uni", 56, 56, slice=7)],
                rule="every text of up to 5 characters over / + # $ a é (first 37 blocks), then random longer ones; a record holds the three predicates on many texts"),
    "C24": dict(models=["MCTopic", "ProofTopic"], jobs=[suite("cover", 60, 900, slice=5)],
                rule="the library's own answers on filters against filters and topics against filters"),
    "C25": dict(models=["MCProps"], jobs=[suite("blendo4", 1200, 60000, slice=600), suite("blendo5", 7200, 240000, slice=900), suite("one4", 6000, 200000), suite("one5", 9000, 300000)],
                rule="well-formed frames in which exactly one defect was made; exercised = the specification names the defect"),
    "C26": dict(models=["MCStream"], jobs=[suite("pure", 6, 200, slice=1), suite("soak", 120, 240, slice=4), *[suite(x, 1500, 20000, name="quiet." + x, unjudged=True)
                                                           for x in ("dec4", "dec5", "mal4", "mal5", "enc4", "enc5", "bad", "cut", "hdr", "sess", "build")],
                      suite("tm", 10, 60, name="quiet.tm", unjudged=True), suite("tv", 10, 60, name="quiet.tv", unjudged=True)],
                quiet=True,
                rule="the same calls in different orders, buffers, threads and processes"),
    "C27": dict(models=["MCBuilder"], jobs=[suite("made", 32, 32, slice=4), suite("build", 12000, 200000), vec("MCBuilder", "builds")],
                rule="sequences of constructors and setters; the packet is compared after every call"),
}

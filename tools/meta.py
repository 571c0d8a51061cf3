#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS

T = []


def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    T.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
                    "mechanism": [{"name": a, "where": b} for a, b in mech],
                    "observe_at": observe or ["return values of the public API"],
                    "hook_needed": None}})


P("P01", "Bit-level reads and writes honour position, width and bounds exactly",
  "Reading a flag, an n-bit field or an unsigned/signed Exp-Golomb code returns the value denoted by exactly those bits, most significant first, and moves the position by exactly their number. "
  "A read that needs more bits than remain (or a Golomb code that does not fit 32 bits) fails with an error instead of panicking or returning a value. "
  "Writing n bits changes only those n bits and moves the position by n.",
  ["inputs", "histories"], "every buffer, position, width up to 64 and sequence of operations",
  "The tests read a few fixed buffers at fixed offsets; the values depend on buffer, offset, width and how the field straddles bytes.",
  ["pkg/bits/read.go", "pkg/bits/write.go"],
  [("HasSpace before every read", "pkg/bits/read.go"), ("shift and mask per byte", "pkg/bits/write.go")],
  [("pos", "bit cursor", "argument of every function")])

P("P02", "A rewindable reader replays exactly the bytes already read, then continues",
  "Whatever sizes it is read in and however often it is rewound, the reader delivers from its current position the bytes of the underlying source in order, without loss, duplication or corruption. "
  "After a rewind the next read starts again at byte zero, and bytes already fetched are never fetched again from the source. "
  "Errors of the source are delivered once all bytes before them were delivered, and memory owned by the caller is not retained.",
  ["histories", "inputs", "fault_sequences"], "every interleaving of reads of any size and rewinds, over sources that return short reads, data with an error, or errors",
  "The one test performs one read, one rewind and one read.",
  ["pkg/rewindablereader/reader.go"],
  [("buffer of everything read", "pkg/rewindablereader/reader.go Read"), ("cursor reset", "pkg/rewindablereader/reader.go Rewind")])

P("P03", "33-bit MPEG-TS timestamps unwrap to the nearest continuous timeline",
  "The first decoded timestamp is time zero; each following one differs from the previous one by the signed difference of the 33-bit values taken modulo 2^33 in the half-open interval around zero. "
  "Hence any timeline whose consecutive steps are shorter than half the range is reproduced exactly across any number of wrap-arounds, forwards and backwards. "
  "Two decoders fed the same values agree.",
  ["histories", "inputs"], "every sequence of 33-bit values, in particular at the half-range boundary and over repeated wraps in both directions",
  "The tests cover one or two wraps with comfortable steps.",
  ["pkg/formats/mpegts/time_decoder.go"],
  [("difference modulo 2^33 and overall accumulation", "pkg/formats/mpegts/time_decoder.go Decode")],
  [("overall, prev", "unwrapped time and last raw value", "TimeDecoder")])

P("P04", "H.264 DTS extraction is monotone, bounded by PTS, and follows picture order",
  "For every sequence of access units the extractor returns either a DTS that is never lower than the previous one and, except while it is recovering from a detected reordering, never higher than the PTS, or an error. "
  "The DTS is the one implied by the picture order count: for a stream whose reordering depth is constant it spreads the decoding times evenly towards the PTS. "
  "A new SPS with different content discards the learned reordering, nothing is accepted before the first SPS and IDR, and streams without picture reordering get DTS equal to PTS. "
  "An SPS that cannot be decoded is refused with an error and the previous one stays in use; the caller may reuse the memory of its access units after each call.",
  ["histories", "inputs"], "every sequence of access units (IDR, non-IDR, AUD/SEI only, parameter changes, truncated slices) with any picture order counts and PTS",
  "The tests replay a dozen recorded sequences; the extractor is a state machine over an unbounded history.",
  ["pkg/codecs/h264/dts_extractor.go", "pkg/codecs/h264/sps.go"],
  [("reorderedFrames / pauseDTS / expectedPOC state machine", "pkg/codecs/h264/dts_extractor.go extractInner"), ("monotonicity check", "pkg/codecs/h264/dts_extractor.go Extract")],
  [("reorderedFrames", "detected reordering depth", "DTSExtractor"), ("pauseDTS", "access units left before the timeline is realigned", "DTSExtractor")])

P("P05", "H.265 DTS extraction is monotone, bounded by PTS, and follows reference sets",
  "For every sequence of access units the extractor returns either a DTS that is never lower than the previous one and never higher than the PTS, or an error. "
  "The number of access units between decoding and presentation is derived from the reordering the SPS announces and the short-term reference picture set of the slice, whichever of the SPS or the slice header carries it. "
  "Nothing is accepted before the SPS, the PPS and a random access picture, and streams announcing no reordering get DTS equal to PTS. "
  "Parameter sets that cannot be decoded are refused with an error and the previous ones stay in use; the caller may reuse the memory of its access units after each call.",
  ["histories", "inputs"], "every sequence of access units and parameter sets, and every PTS",
  "The tests replay a few recorded sequences.",
  ["pkg/codecs/h265/dts_extractor.go", "pkg/codecs/h265/sps.go", "pkg/codecs/h265/pps.go"],
  [("getPTSDTSDiff from the reference picture set", "pkg/codecs/h265/dts_extractor.go"), ("monotonicity check", "pkg/codecs/h265/dts_extractor.go Extract")],
  [("prevDTS", "last returned DTS", "DTSExtractor")])

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_table.py")).read())

NA = [
]

LEVEL_NOTE = ("TLC checks the specification exhaustively within the bounds of its MC module, enumerates cases from it, and "
              "validates every recorded execution of the real code against it, so every observed result is decided by the "
              "specification; assurance is bounded by the cases executed (enumerated from the specification plus seeded random ones).")


def main():
    ids = [t["id"] for t in T]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for t in T:
            f.write(json.dumps(t) + "\n")
    na = [{"property": i, "reason": r} for i, r in NA]
    checks = []
    for t in T:
        if t["id"] not in PROPS:
            if t["id"] not in [x for x, _ in NA]:
                na.append({"property": t["id"], "reason": "its check is not built yet"})
            continue
        checks.append({
            "property": t["id"],
            "quick_cmd": "python3 check.py %s quick" % t["id"],
            "thorough_cmd": "python3 check.py %s thorough" % t["id"],
            "evidence_file": "evidence/%s.json" % t["id"],
            "technique": "TLA+ specification model checked with TLC; TLC trace validation of the real code on cases generated from the specification and at random",
            "level": "model_checking", "level_note": LEVEL_NOTE})
    man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the public API exposes every observation the specification needs. Specifications in spec/, drivers in harness/, orchestration in check.py and props.py."}
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
    print(len(T), "properties,", len(checks), "checks")


main()

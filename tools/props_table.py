IN = ["inputs"]

P("P06", "Annex-B streams split into exactly the NAL units between start codes",
  "Decoding returns, in order and byte for byte, every non-empty NAL unit between start codes of three or four bytes, for every placement of start codes and zero bytes; a stream that does not begin with a start code, contains no NAL unit, more than 50, or more than 8 MB of them is refused. "
  "Encoding puts a four byte start code before each NAL unit, and decoding what was encoded gives back the same units.",
  IN, "every byte string, and every list of NAL units including those at the count and size limits",
  "The tests decode a handful of streams; the boundary scan depends on every neighbourhood of zero and one bytes.",
  ["pkg/codecs/h264/annexb.go"], [("start code scan", "pkg/codecs/h264/annexb.go Unmarshal"), ("encoder", "pkg/codecs/h264/annexb.go Marshal")])

P("P07", "AVCC access units round-trip exactly; malformed lengths are refused",
  "Decoding returns the length-prefixed NAL units in order and byte for byte, skipping empty ones, only if the lengths add up to exactly the size of the buffer; every truncated, overlong or empty input, more than 50 units or more than 8 MB of them are refused with an error. "
  "Encoding writes the 32 bit big-endian length and the bytes of each unit, and decoding gives back the same units.",
  IN, "every byte string, and every list of NAL units including those at the count and size limits",
  "The tests decode a handful of buffers and never combine empty units, truncations and limits.",
  ["pkg/codecs/h264/avcc.go"], [("length loop", "pkg/codecs/h264/avcc.go Unmarshal"), ("encoder", "pkg/codecs/h264/avcc.go Marshal")])

P("P08", "Emulation prevention removal and random-access classification are exact",
  "Removing emulation prevention drops exactly the 03 bytes that follow two zero bytes of the coded stream, scanning as ITU-T H.264 7.3.1 does, and keeps everything else. "
  "An H.264 access unit is a random access point when it contains an IDR slice, an H.265 one when it contains an IDR or CRA picture, an AV1 temporal unit when it contains a sequence header, a VP8 frame when its key frame bit says so; empty units never match and never crash.",
  IN, "every byte string and every list of NAL units or OBUs, with every header byte",
  "The tests check one or two units per codec.",
  ["pkg/codecs/h264/emulation_prevention.go", "pkg/codecs/h264/is_random_access.go", "pkg/codecs/h265/is_random_access.go", "pkg/codecs/av1/is_random_access.go", "pkg/codecs/vp8"],
  [("EmulationPreventionRemove", "pkg/codecs/h264"), ("IsRandomAccess", "pkg/codecs/{h264,h265,av1}"), ("ContainsKeyFrame", "pkg/codecs/av1")])

P("P09", "AV1 bitstreams, OBU headers and LEB128 numbers encode and decode exactly",
  "LEB128 decoding returns the value and the number of bytes read, refusing truncated, more than 8 byte long and more than 32 bit wide numbers; encoding is minimal and decodes to the same value. "
  "OBU headers expose type and size flag and refuse the forbidden bit and extensions. "
  "A low-overhead bitstream decodes to exactly its OBUs without size fields, refusing any that is cut or has no size, and encoding OBUs gives a bitstream that decodes to the same OBUs.",
  IN, "every byte string, every 32 bit number, every list of OBUs",
  "The tests use a few values and one temporal unit.",
  ["pkg/codecs/av1/leb128.go", "pkg/codecs/av1/obu_header.go", "pkg/codecs/av1/bitstream.go"],
  [("7-bit groups", "pkg/codecs/av1/leb128.go"), ("OBU loop", "pkg/codecs/av1/bitstream.go")])

P("P10", "H.264 SPS parsing agrees with the syntax of ITU-T H.264 on every bitstream",
  "Parsing a sequence parameter set NAL unit returns, for every combination of profiles, scaling lists, picture order count types, cropping, VUI and HRD parameters, the value that the syntax of ITU-T H.264 assigns to each element. "
  "Truncated sets, other NAL unit types and out-of-range counts are refused with an error and never crash. "
  "Width, height and frame rate are those derived from the parsed elements, cropping and timing.",
  IN, "every byte string: every value of every syntax element, on several structures, and random combinations, truncations and bit flips",
  "The tests parse about twenty recorded parameter sets, which exercise few of the conditional branches and no malformed input.",
  ["pkg/codecs/h264/sps.go"],
  [("conditional syntax", "pkg/codecs/h264/sps.go Unmarshal"), ("derived size", "pkg/codecs/h264/sps.go Width/Height/FPS")])

P("P11", "H.265 SPS and PPS parsing agrees with the syntax of ITU-T H.265",
  "Parsing an SPS or PPS NAL unit returns, for every combination of profile tier level, sub-layers, conformance window, scaling lists, short-term and long-term reference picture sets and VUI, the value that the syntax of ITU-T H.265 assigns to each element, including inter-predicted reference picture sets. "
  "Truncated sets, other NAL unit types and out-of-range counts are refused with an error and never crash. "
  "Width, height and frame rate are those derived from the parsed elements.",
  IN, "every byte string: every value of every syntax element, on several structures, and random combinations, truncations and bit flips",
  "The tests parse about fifteen recorded parameter sets, which exercise few of the conditional branches and no malformed input.",
  ["pkg/codecs/h265/sps.go", "pkg/codecs/h265/pps.go"],
  [("conditional syntax", "pkg/codecs/h265/sps.go Unmarshal"), ("inter prediction of reference picture sets", "pkg/codecs/h265/sps.go"), ("PPS flags", "pkg/codecs/h265/pps.go")])

P("P12", "AV1 sequence headers and VP9 frame headers parse as their syntax defines",
  "Parsing an AV1 sequence header OBU (with or without size field) returns the value that the AV1 syntax assigns to each element, reduced still picture headers, operating points, timing info, screen content tools and colour configuration of every profile included; width and height follow. "
  "Parsing a VP9 uncompressed header returns profile, frame type, colour configuration and size, and a frame is a random access point exactly when it is a new key frame. "
  "Truncated, reserved and malformed headers are refused with an error and never crash.",
  IN, "every byte string: every value of every syntax element, on several structures, and random combinations, truncations and bit flips",
  "The tests parse five recorded headers.",
  ["pkg/codecs/av1/sequence_header.go", "pkg/codecs/vp9/header.go", "pkg/codecs/vp9/is_random_access.go"],
  [("conditional syntax", "pkg/codecs/av1/sequence_header.go Unmarshal"), ("colour configuration", "pkg/codecs/vp9/header.go unmarshal")])

P("P13", "ADTS, AudioSyncStream and AudioMuxElement framing round-trips exactly",
  "Decoding an ADTS stream returns every packet with its type, sample rate, channel configuration and exact access unit, and encoding packets gives a stream that decodes to the same; unsupported, truncated, empty or oversized (above 5120 bytes) frames, and packets that cannot be encoded (object type, sample rate, channels, or a size above 13 bits) are refused with an error. "
  "An AudioSyncStream decodes to exactly its elements and encodes back. "
  "An AudioMuxElement, with the stream mux configuration in band or given, decodes to the payload of every sub-frame, program and layer and encodes to the same bits; truncated or overlong elements are refused.",
  IN, "every byte string, every list of packets, elements or payloads including sizes around every length escape and limit",
  "The tests cover a dozen recorded streams; lengths, escapes and unaligned payloads interact.",
  ["pkg/codecs/mpeg4audio/adts.go", "pkg/codecs/mpeg4audio/audio_sync_stream.go", "pkg/codecs/mpeg4audio/audio_mux_element.go", "pkg/codecs/mpeg4audio/payload_length_info.go", "pkg/codecs/mpeg4audio/payload_mux.go"],
  [("frame length fields", "pkg/codecs/mpeg4audio/adts.go"), ("length escapes and unaligned payloads", "pkg/codecs/mpeg4audio/payload_length_info.go")])

P("P14", "MPEG-4 audio configurations round-trip and follow their syntax",
  "Parsing an AudioSpecificConfig or StreamMuxConfig returns the value the ISO 14496-3 syntax assigns to each element: object type, indexed and explicit sample rates, channel configuration, SBR and PS extension, core coder delay, programs, layers, frame length types, other data length and CRC; a StreamMuxConfig that ends right after an audio configuration is accepted with the layers read so far and a buffer fullness of 255. "
  "Encoding a configuration produces exactly that syntax, so that it decodes to the same configuration. "
  "Reserved, unsupported, truncated and (for StreamMuxConfig) overlong inputs are refused with an error and never crash.",
  IN, "every byte string; every value of every element on several structures, random combinations, truncations and bit flips; every encodable configuration",
  "The tests decode and encode about fifteen configurations.",
  ["pkg/codecs/mpeg4audio/audio_specific_config.go", "pkg/codecs/mpeg4audio/stream_mux_config.go"],
  [("conditional syntax in both directions", "pkg/codecs/mpeg4audio/audio_specific_config.go"), ("program and layer loops", "pkg/codecs/mpeg4audio/stream_mux_config.go")])

P("P15", "Channels of an AAC raw data block come from its first channel element or PCE",
  "Counting the channels of a raw_data_block skips fill and data stream elements, with their escaped sizes and byte alignment, and returns the channels of the first single, pair or LFE element, or of the program config element; every other or truncated block gives an error and never crashes. "
  "Parsing a program config element returns each of its fields and the number of channels of its front, side, back and LFE elements.",
  IN, "every byte string",
  "The tests cover about ten blocks, with few element sizes and alignments.",
  ["pkg/codecs/mpeg4audio/count_channels.go", "pkg/codecs/mpeg4audio/program_config_element.go"],
  [("element skipping", "pkg/codecs/mpeg4audio/count_channels.go"), ("channel sum", "pkg/codecs/mpeg4audio/program_config_element.go")])

P("P16", "AC-3, E-AC-3, MPEG audio and Opus headers give the standard sizes and durations",
  "Parsing an AC-3 sync info returns the bit rate and frame size of the ATSC A/52 tables, and the BSI the channel mode, LFE and channel count; an E-AC-3 header returns stream type, frame size, sample rate, blocks per frame and channels; an MPEG-1 or MPEG-2 layer II or III audio header returns bit rate, sample rate, padding, channel mode, sample count and frame length. "
  "Reserved values, wrong sync words and truncated headers are refused with an error and never crash. "
  "The duration of an Opus packet is its number of frames times the frame duration of its configuration, as RFC 6716 defines them.",
  IN, "every value of every byte of each header, random combinations, every truncation",
  "The tests parse about fifteen recorded frames; each table has dozens of entries.",
  ["pkg/codecs/ac3/sync_info.go", "pkg/codecs/ac3/bsi.go", "pkg/codecs/eac3", "pkg/codecs/mpeg1audio/frame_header.go", "pkg/codecs/opus/packet_duration.go"],
  [("size tables", "pkg/codecs/ac3/sync_info.go"), ("bit rate tables and frame length", "pkg/codecs/mpeg1audio/frame_header.go"), ("frame count and configuration", "pkg/codecs/opus/packet_duration.go")])

P("P17", "FLAC, Opus, JPEG and MPEG-4 Visual descriptions follow their formats",
  "Parsing a FLAC STREAMINFO block returns each of its fields, and encoding one gives the bytes that decode to it. "
  "The same holds of Opus identification headers, of JPEG quantization tables and of SOF segments; DRI segments decode to their interval; SOS, SOI and Huffman table segments are encoded with the right marker, length and content; markers are appended to the given buffer. "
  "A MPEG-4 Visual configuration is valid when it starts with a visual object sequence, contains a video object and a video object layer and no unexpected start code. "
  "Truncated and unsupported inputs are refused with an error and never crash.",
  IN, "every byte string and every encodable value: edges and random values of every field, truncations and bit flips",
  "The tests encode and decode one or a few values of each kind.",
  ["pkg/codecs/flac/stream_info.go", "pkg/codecs/opus/id_header.go", "pkg/codecs/jpeg", "pkg/codecs/mpeg4video/is_valid_config.go"],
  [("bit packing in both directions", "pkg/codecs/flac/stream_info.go"), ("segment lengths", "pkg/codecs/jpeg"), ("start code scan", "pkg/codecs/mpeg4video/is_valid_config.go")])

P("P18", "G.711 decoding follows the ITU tables and encoding picks the nearest code",
  "Decoding A-law or mu-law bytes gives, for each, the big-endian 16-bit sample that ITU-T G.711 assigns to that code. "
  "Encoding maps every sample to the code whose value is nearest to it at 14-bit resolution, so that the samples produced by decoding are encoded and decoded again without change; buffers of odd length are refused.",
  IN, "all 256 codes and all 65536 samples of both laws",
  "The tests encode three samples and decode six codes of each law.",
  ["pkg/codecs/g711"],
  [("decoding formulas", "pkg/codecs/g711/alaw.go"), ("encoding tables by inversion", "pkg/codecs/g711/invert_table.go")])

P("P19", "MPEG-TS metadata and Opus structures round-trip and follow their syntax",
  "Decoding a metadata AU cell, metadata descriptor, metadata STD descriptor, Opus access unit or Opus audio descriptor returns each field the specification assigns, whether optional elements are present or not, and the number of bytes read; encoding one gives the bytes that decode to it, of the announced size. "
  "The channel count of an Opus descriptor is that of its channel configuration code or the explicit one. "
  "Truncated, reserved and unsupported inputs, and Opus access units whose payload size is not that of the packet, are refused with an error and never crash.",
  IN, "every byte string and every encodable value: random values with every combination of optional elements, sizes around every escape, truncations and bit flips",
  "The tests cover about twenty-five structures.",
  ["pkg/formats/mpegts/substructs"],
  [("optional elements", "pkg/formats/mpegts/substructs/metadata_descriptor.go"), ("size escapes", "pkg/formats/mpegts/substructs/opus_control_header.go"), ("bit-packed channel mapping", "pkg/formats/mpegts/substructs/opus_audio_descriptor.go")])

P("P20", "The MPEG-TS reader delivers every unit of every declared track, exactly",
  "Reading an intact transport stream reports the tracks of its program map, in order, with PID, language and the codec its stream type, descriptors and (AAC, AC-3, E-AC-3) first unit denote; streams of unknown kinds are reported as unsupported. "
  "Then every PES unit of a declared track is delivered exactly once, in stream order, to the callback of its track, with the 33-bit PTS and DTS of its header and the NAL units (without an access unit delimiter at the start), frames or packets its payload decodes to; a payload that does not decode raises the decode error callback instead, and nothing of one track affects another. "
  "Delivered data is never overwritten later.",
  IN, "every combination of tracks, descriptors, PES headers, adaptation fields, packetizations, interleavings and repeated tables",
  "The tests read about twenty streams of one or two tracks, produced by the same writer and layout.",
  ["pkg/formats/mpegts/reader.go", "pkg/formats/mpegts/robust_demuxer.go", "pkg/formats/mpegts/track.go", "pkg/formats/mpegts/codecs"],
  [("track discovery", "pkg/formats/mpegts/reader.go Initialize, pkg/formats/mpegts/track.go unmarshal"), ("per-codec decoding", "pkg/formats/mpegts/reader.go OnData*"), ("PTS interception", "pkg/formats/mpegts/robust_demuxer.go")],
  observe=["callbacks and return values of mpegts.Reader"])

P("P21", "The MPEG-TS reader survives damaged streams, short reads and errors",
  "However the bytes are cut into reads, and through BufferedReader, the reader produces the same result. "
  "Garbage between packets, lost, duplicated, erroneous and truncated packets, broken tables and broken units cost only the units they touch: the reader finds the next packet boundary by itself, reports decode errors through the callback and delivers all other units. "
  "The end of the source gives EOF, an error of the source or of a callback is returned as such and reading can go on after the latter; nothing crashes or hangs on any input.",
  ["inputs", "fault_sequences", "histories"], "every stream with any number of faults at any place, every way of delivering its bytes, and arbitrary bytes",
  "The tests contain two damaged streams and deliver all bytes at once.",
  ["pkg/formats/mpegts/pre_demuxer.go", "pkg/formats/mpegts/robust_demuxer.go", "pkg/formats/mpegts/reader.go", "pkg/formats/mpegts/buffered_reader.go"],
  [("resynchronization", "pkg/formats/mpegts/pre_demuxer.go"), ("non-fatal errors", "pkg/formats/mpegts/robust_demuxer.go nextData"), ("datagram buffer", "pkg/formats/mpegts/buffered_reader.go Read")],
  observe=["callbacks and return values of mpegts.Reader"])

P("P22", "The MPEG-TS writer emits well-formed transport packets",
  "What Writer writes is a sequence of whole 188-byte packets: a PAT and PMT with right CRCs come before the first unit and again before the random access points and regular intervals the writer promises, describing every track by the stream type and descriptors of its codec; "
  "continuity counters of every PID go up by one and packets are filled by stuffing only. "
  "Every unit makes one PES whose length, stream identifier, 33-bit PTS and DTS and payload are those of the call, random access points are flagged, and the PCR is on the leading track, at least every few units, not later than the timestamps. "
  "Tracks without a PID get free ones; a failure of the destination is returned.",
  IN, "every combination of tracks, every sequence of Write calls, timestamps over the wrap and every payload size",
  "The tests write about twenty streams of one or two units.",
  ["pkg/formats/mpegts/writer.go", "pkg/formats/mpegts/track.go", "pkg/formats/mpegts/codecs"],
  [("program map", "pkg/formats/mpegts/writer.go Initialize, pkg/formats/mpegts/track.go marshal"), ("clock and random access", "pkg/formats/mpegts/writer.go writeVideo, writeAudio, writeData")],
  observe=["bytes written and return values of mpegts.Writer"])

P("P23", "What the MPEG-TS writer writes, the reader returns",
  "Any set of tracks and any interleaving of units of any size written with mpegts.Writer are returned by mpegts.Reader: the same tracks with the same parameters, and for each track every unit, in order, with the same content and timestamps modulo 2^33, no decode error and finally EOF, whatever sizes the source returns data in. "
  "Only an access unit delimiter at the beginning of an access unit, which belongs to the container, and units of asynchronous metadata ahead of the first timestamp are not returned.",
  IN, "every combination of tracks, every interleaving, unit sizes from empty to beyond the size a PES packet can declare",
  "The tests of reader and writer share a table of about twenty small streams.",
  ["pkg/formats/mpegts"],
  [("encoders and decoders of each codec", "pkg/formats/mpegts/writer.go, pkg/formats/mpegts/reader.go"), ("track parameters", "pkg/formats/mpegts/track.go")],
  observe=["return values of mpegts.Writer", "callbacks and return values of mpegts.Reader"])

P("P24", "fMP4 initialization segments are written as specified and read in any layout",
  "fmp4.Init.Marshal writes exactly the boxes that ISO 14496-12, -14, -15 and the bindings of each codec prescribe for the tracks, and fails on missing or invalid parameters; "
  "fmp4.Init.Unmarshal returns the same tracks (id, time scale, codec and every parameter of it) and user data from any equivalent layout of the boxes: 64-bit sizes and versions, unknown boxes in between, optional boxes, other orders; what is written is read back; tracks that lack their codec configuration or a required part of it, or have it twice, and files that lack or repeat required header boxes, are refused. "
  "Any other input is answered without crashing.",
  IN, "every set of tracks of the 14 codecs with every parameter, every equivalent layout, damaged files",
  "The tests read and write a dozen fixed files, one per codec, in the layout of one muxer.",
  ["pkg/formats/fmp4", "internal/mp4"],
  [("Init.Unmarshal, Init.Marshal", "pkg/formats/fmp4/init.go"), ("InitTrack.marshal", "pkg/formats/fmp4/init_track.go"), ("WriteCodecBoxes, CodecBoxesReader", "internal/mp4/codec_boxes.go"), ("CodecInfo.Fill", "internal/mp4/codec_info.go")],
  observe=["bytes written by Marshal", "tracks and user data returned by Unmarshal"])

P("P25", "fMP4 parts are written as specified and read in any layout",
  "fmp4.Parts.Marshal writes exactly the moof and mdat boxes of ISO 14496-12 for the sequence number, tracks, base times and samples given, and data offsets point at the samples; "
  "fmp4.Parts.Unmarshal returns the same parts, tracks, base times and samples (duration, presentation offset, sync flag, payload) from any equivalent layout: track defaults, first-sample flags, several runs per track, interleaved runs, 64-bit sizes, version 0 and 1, other boxes in between. "
  "Sample payloads of H264, H265 and AV1 are filled and read back as the access units and temporal units they came from, with the right sync flag. Parts that lack or repeat required header boxes or mdat are refused. Any other input is answered without crashing.",
  IN, "every sequence of parts and samples, every equivalent layout, damaged files",
  "The tests read and write a few fixed parts in the layout of one muxer.",
  ["pkg/formats/fmp4"],
  [("Parts.Unmarshal", "pkg/formats/fmp4/parts.go"), ("Part.Marshal", "pkg/formats/fmp4/part.go"), ("PartTrack.marshal", "pkg/formats/fmp4/part_track.go"), ("Sample.Fill*, Sample.Get*", "pkg/formats/fmp4/sample.go")],
  observe=["bytes written by Marshal", "parts returned by Unmarshal", "samples filled and access units returned"])

P("P26", "MP4 presentations are written as specified and read in any layout",
  "pmp4.Presentation.Marshal writes exactly the boxes and sample tables of ISO 14496-12 for the tracks, interleaves samples by decoding time, and places every payload where the tables say; it fails on invalid parameters, on payloads that cannot be obtained and on presentations that do not fit 32-bit offsets. "
  "pmp4.Presentation.Unmarshal returns the same tracks (id, time scale, time offset, codec) and samples (duration, presentation offset, sync flag, size, and payload through GetPayload) from any equivalent layout: order and size of chunks, compressed or expanded tables, 64-bit sizes and versions, mdat before moov, other boxes in between; GetPayload fails if the payload is not there; tracks that lack their codec configuration or a required part of it, or have it twice, and files that lack or repeat required boxes of headers or tables, are refused. "
  "Any other input is answered without crashing.",
  IN, "every presentation, every equivalent layout of it, damaged files",
  "The tests read and write a few fixed presentations in the layout of one or two muxers.",
  ["pkg/formats/pmp4", "internal/mp4"],
  [("Presentation.Unmarshal, Presentation.Marshal, sortSamples", "pkg/formats/pmp4/presentation.go"), ("Track.marshal, marshalSTSC, marshalSTCO, marshalELST", "pkg/formats/pmp4/track.go")],
  observe=["bytes written by Marshal", "tracks returned by Unmarshal", "payloads returned by GetPayload"])

P("P27", "Any bytes can be read as MP4 safely, and what is read can be written",
  "Reading any bytes as fmp4.Init, fmp4.Parts or pmp4.Presentation ends with a result or an error, without panics or endless loops; memory is at most proportional to the file plus what the documented limits allow (19200 samples per run, 30 fps for two days per sample table), and a payload getter takes no more than the file. "
  "What is returned has tracks with a non-zero time scale, and can be written again (except AC-3 and E-AC-3 tracks of unusual rates, and MPEG-4 audio whose channels are in a program config element, which the writers refuse).",
  IN, "every file, well-formed or damaged in any way",
  "The tests read fixed files, and a fuzzer corpus that is replayed only on those files.",
  ["pkg/formats/fmp4", "pkg/formats/pmp4", "internal/mp4"],
  [("Init.Unmarshal", "pkg/formats/fmp4/init.go"), ("Parts.Unmarshal", "pkg/formats/fmp4/parts.go"), ("Presentation.Unmarshal", "pkg/formats/pmp4/presentation.go"), ("CodecBoxesReader.Read", "internal/mp4/codec_boxes.go")],
  observe=["results of the readers", "memory they obtain", "results of writing what was read"])

P("P28", "The seekable buffer behaves like a file",
  "After any history of writes, seeks and resets, the content of seekablebuffer.Buffer is that of a file treated the same way: a write replaces exactly the bytes from the position on and moves it, the rest is kept, gaps read as zeros, seeks from the start, the current position and the end land where they say, and a seek before the start fails and changes nothing.",
  IN, "every history of writes, seeks and resets",
  "The tests write a handful of times at fixed positions.",
  ["pkg/formats/fmp4/seekablebuffer"],
  [("Buffer.Write, Seek, Reset", "pkg/formats/fmp4/seekablebuffer/seekablebuffer.go")],
  state=[("content", "the bytes of the file", "pkg/formats/fmp4/seekablebuffer/seekablebuffer.go"), ("pos", "the position of the next write", "pkg/formats/fmp4/seekablebuffer/seekablebuffer.go")], observe=["return values", "Bytes, Len"])

P("P29", "Objects are independent, and calls leave the data of the caller alone",
  "However operations on different objects, of the same or of different components, are interleaved or executed concurrently, each object behaves as if it were alone: same results, without data races. "
  "Operations that read data of the caller (buffers, lists of units and whatever follows them in memory) neither modify nor, for an instant, write to it. "
  "What an operation returned is not changed by later operations on that or any other object.",
  ["schedules", "histories", "inputs"], "every interleaving and concurrent schedule of operations on any set of objects",
  "The tests use one object at a time, with data they do not look at again.",
  ["pkg/bits", "pkg/codecs", "pkg/formats", "pkg/rewindablereader", "internal/mp4"],
  [("no shared scratch memory", "pkg/codecs/*: Marshal, Unmarshal"), ("tables that are only read", "pkg/codecs/*: package variables"), ("copies where data is kept or rewritten", "pkg/formats/mpegts/writer.go, pkg/codecs/av1/bitstream.go, pkg/codecs/h264/emulation_prevention.go")],
  observe=["return values of the public API", "data given to and returned by it, at every later time", "data race reports"])
P("P30", "What is decoded and encoded depends on the data, not on the past of the object",
  "Decoding into an object that has been used before (successfully or not, with whatever it contained) gives the same as decoding into a new one: nothing of the previous content is kept, added to or mixed in, and what was taken out of the object before (lists, configurations) stays as it was. "
  "Encoding an object leaves what it shows to its user as it was, and gives the same when repeated.",
  ["histories", "inputs"], "every sequence of decodings and encodings on the same object",
  "The tests decode once into new objects and encode once.",
  ["pkg/codecs", "pkg/formats/fmp4", "pkg/formats/pmp4", "pkg/formats/mpegts/substructs"],
  [("fields that are absent are reset", "pkg/codecs/*: Unmarshal; pkg/formats/*: Unmarshal"), ("encoding only reads", "pkg/codecs/*: Marshal; pkg/formats/*: Marshal")],
  observe=["return values of Unmarshal and Marshal", "exported fields of the objects after decoding, and before and after encoding"])
P("P31", "MP4 files go through any conforming source and sink, and failures come back",
  "What fmp4.Init and pmp4.Presentation decode does not depend on how the source cuts its reads, or on whether the end comes with the last bytes or after them. "
  "When a call of the source, of the sink or of a GetPayload fails, the operation fails, and not with the error that tells the end of a file (unless a single call failed and the result is right nevertheless); "
  "what a plain writer has taken until then is the beginning of the file; and nothing remains of the failure: the same object can be written to another sink, the same sample be read again, with the right result. "
  "A file is written at the current position of the sink, which ends after the last byte, and what is before and behind is left alone.",
  ["fault_sequences", "inputs", "histories"], "every file and object, every way of cutting reads, and a failure of every single call to the source, the sink and the payloads",
  "The tests read from memory, write to memory, and no call ever fails.",
  ["pkg/formats/fmp4", "pkg/formats/pmp4", "internal/mp4"],
  [("Init.Unmarshal, Init.Marshal", "pkg/formats/fmp4/init.go"), ("Part.Marshal", "pkg/formats/fmp4/part.go"), ("Presentation.Unmarshal, Marshal, GetPayload", "pkg/formats/pmp4/presentation.go"), ("Writer.WriteBox, RewriteBox, WriteBoxEnd", "internal/mp4/writer.go")],
  state=[("boxes", "open boxes, sizes and positions to be rewritten", "internal/mp4/writer.go")],
  observe=["return values of Marshal, Unmarshal, GetPayload", "calls to the source and to the sink, bytes taken by the sink"])

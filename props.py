"""What each check runs."""
from concurrent.futures import ThreadPoolExecutor

ASSUMPTIONS = {}
PROPS = {}


def prop(pid):
    def deco(f):
        PROPS[pid] = f
        return f
    return deco


@prop("P01")
def p01(ck, deep):
    ck.mc("MCBitIO")
    g = ck.gen("GenBitIO")
    ck.trace("bits", "TraceBitIO", 40000 if deep else 3000, [g])


@prop("P02")
def p02(ck, deep):
    ck.mc("MCRewind")
    g = ck.gen("GenRewind")
    ck.trace("rewind", "TraceRewind", 40000 if deep else 4000, [g])


@prop("P03")
def p03(ck, deep):
    ck.mc("MCTimeDec")
    g = ck.gen("GenTimeDec")
    ck.trace("time", "TraceTimeDec", 60000 if deep else 5000, [g])


@prop("P04")
def p04(ck, deep):
    g = ck.gen("MCH264Dts")
    ck.trace("h264dts", "TraceH264Dts", 60000 if deep else 5000, [g])


@prop("P05")
def p05(ck, deep):
    g = ck.gen("MCH265Dts")
    ck.trace("h265dts", "TraceH265Dts", 60000 if deep else 5000, [g])


@prop("P06")
def p06(ck, deep):
    ck.mc("MCAnnexB")
    g = ck.gen("GenAnnexB")
    ck.trace("annexb", "TraceAnnexB", 40000 if deep else 4000, [g])


@prop("P07")
def p07(ck, deep):
    ck.mc("MCAvcc")
    g = ck.gen("GenAvcc")
    ck.trace("avcc", "TraceAvcc", 40000 if deep else 4000, [g])


@prop("P08")
def p08(ck, deep):
    ck.mc("MCNalu")
    g = ck.gen("GenNalu")
    ck.trace("nalu", "TraceNalu", 40000 if deep else 4000, [g])


@prop("P09")
def p09(ck, deep):
    ck.mc("MCAv1Stream")
    g = ck.gen("GenAv1Stream")
    ck.trace("av1stream", "TraceAv1Stream", 40000 if deep else 4000, [g])


@prop("P10")
def p10(ck, deep):
    g = ck.gen("GenH264Sps")
    ck.trace("h264sps", "TraceH264Sps", 20000 if deep else 2500, [g])


@prop("P11")
def p11(ck, deep):
    g = ck.gen("GenH265Ps")
    ck.trace("h265ps", "TraceH265Ps", 15000 if deep else 2500, [g])


@prop("P12")
def p12(ck, deep):
    g = ck.gen("GenVideoHdr")
    ck.trace("videohdr", "TraceVideoHdr", 15000 if deep else 2500, [g])


@prop("P13")
def p13(ck, deep):
    ck.mc("MCMpeg4Audio")
    ck.trace("m4frame", "TraceMpeg4Audio", 8000 if deep else 1000, [ck.gen("GenM4Frame")])


@prop("P14")
def p14(ck, deep):
    ck.trace("m4cfg", "TraceMpeg4Audio", 15000 if deep else 2000, [ck.gen("GenM4Cfg")])


@prop("P15")
def p15(ck, deep):
    ck.trace("m4raw", "TraceMpeg4Audio", 20000 if deep else 4000)


@prop("P16")
def p16(ck, deep):
    ck.trace("audiohdr", "TraceAudioHdr", 300 if deep else 30, [ck.gen("GenAudioHdr")])


@prop("P17")
def p17(ck, deep):
    ck.trace("streamdesc", "TraceStreamDesc", 4000 if deep else 400, [ck.gen("GenStreamDesc")])


@prop("P18")
def p18(ck, deep):
    ck.trace("g711", "TraceStreamDesc", 0, [ck.gen("GenG711")])


@prop("P19")
def p19(ck, deep):
    ck.trace("tssub", "TraceTsSub", 4000 if deep else 400, [ck.gen("GenTsSub")])


@prop("P20")
def p20(ck, deep):
    g = ck.gen("GenTs", timeout=900, MODE="calm")
    ck.trace("tsread", "TraceTsReader", 3000 if deep else 100, [g])


@prop("P21")
def p21(ck, deep):
    ck.trace("bufread", "TraceBufRead", 20000 if deep else 3000)
    g = ck.gen("GenTs", timeout=900, MODE="rough")
    ck.trace("tsread", "TraceTsReader", 6000 if deep else 300, [g])


@prop("P22")
def p22(ck, deep):
    ck.trace("tswrite", "TraceTsWriter", 0, [ck.gen("GenTsWriter", timeout=900)])


@prop("P23")
def p23(ck, deep):
    ck.trace("tsround", "TraceTsRound", 6000 if deep else 500)


@prop("P24")
def p24(ck, deep):
    g = ck.gen("GenFmp4Init", timeout=800, CATALOG=ck.catalog())
    ck.trace("fmp4init", "TraceFmp4Init", 6000 if deep else 600, [g])


@prop("P25")
def p25(ck, deep):
    g = ck.gen("GenFmp4Parts", timeout=800)
    ck.trace("fmp4parts", "TraceFmp4Parts", 8000 if deep else 800, [g])
    ck.trace("fmp4big", "TraceFmp4Parts", 200 if deep else 30)


@prop("P26")
def p26(ck, deep):
    g = ck.gen("GenPmp4", timeout=800, CATALOG=ck.catalog())
    ck.trace("pmp4", "TracePmp4", 5000 if deep else 500, [g])


@prop("P27")
def p27(ck, deep):
    gs = [ck.gen(m, timeout=800, CATALOG=ck.catalog(), SMALL="1") for m in ("GenFmp4Init", "GenFmp4Parts", "GenPmp4")]
    ck.trace("mp4damage", "TraceMp4Damage", 25000 if deep else 6000, gs)


@prop("P28")
def p28(ck, deep):
    ck.mc("MCSeekBuf")
    ck.trace("seekbuf", "TraceSeekBuf", 0, [ck.gen("GenSeekBuf", timeout=800)])


@prop("P29")
def p29(ck, deep):
    k = 8 if deep else 1
    with ThreadPoolExecutor(3) as ex:
        small = [ex.submit(ck.gen, m, timeout=800, workers=2) for m in (
            "GenH264Sps", "GenH265Ps", "GenVideoHdr", "GenM4Cfg", "GenStreamDesc", "GenTsSub", "GenAudioHdr", "GenSeekBuf", "GenTsWriter", "GenG711")]
        g = {m: j.result() for m, j in zip(("h264sps", "h265ps", "videohdr", "m4cfg", "streamdesc", "tssub", "audiohdr", "seekbuf", "tswrite", "g711"), small)}
    cat = ck.catalog()
    mp4 = [ck.gen(m, timeout=800, CATALOG=cat, SMALL="1") for m in ("GenFmp4Init", "GenFmp4Parts", "GenPmp4")]
    ck.mix([
        ("bits", "TraceBitIO", 300 * k, 300 * k, []),
        ("rewind", "TraceRewind", 300 * k, 300 * k, []),
        ("time", "TraceTimeDec", 300 * k, 300 * k, []),
        ("h264dts", "TraceH264Dts", 400 * k, 400 * k, []),
        ("h265dts", "TraceH265Dts", 400 * k, 400 * k, []),
        ("annexb", "TraceAnnexB", 300 * k, 300 * k, []),
        ("avcc", "TraceAvcc", 300 * k, 300 * k, []),
        ("nalu", "TraceNalu", 300 * k, 300 * k, []),
        ("av1stream", "TraceAv1Stream", 300 * k, 300 * k, []),
        ("bufread", "TraceBufRead", 200 * k, 200 * k, []),
        ("m4frame", "TraceMpeg4Audio", 200 * k, 200 * k, []),
        ("m4raw", "TraceMpeg4Audio", 200 * k, 200 * k, []),
        ("tsround", "TraceTsRound", 100 * k, 100 * k, []),
        ("h264sps", "TraceH264Sps", 0, 200 * k, [g["h264sps"]]),
        ("h265ps", "TraceH265Ps", 0, 200 * k, [g["h265ps"]]),
        ("videohdr", "TraceVideoHdr", 0, 200 * k, [g["videohdr"]]),
        ("m4cfg", "TraceMpeg4Audio", 0, 200 * k, [g["m4cfg"]]),
        ("streamdesc", "TraceStreamDesc", 0, 200 * k, [g["streamdesc"]]),
        ("g711", "TraceStreamDesc", 0, 20, [g["g711"]]),
        ("tssub", "TraceTsSub", 0, 200 * k, [g["tssub"]]),
        ("audiohdr", "TraceAudioHdr", 0, 40 * k, [g["audiohdr"]]),
        ("seekbuf", "TraceSeekBuf", 0, 200 * k, [g["seekbuf"]]),
        ("tswrite", "TraceTsWriter", 0, 30 * k, [g["tswrite"]]),
        ("fmp4init", "TraceFmp4Init", 0, 100 * k, [mp4[0]]),
        ("fmp4parts", "TraceFmp4Parts", 0, 100 * k, [mp4[1]]),
        ("pmp4", "TracePmp4", 0, 100 * k, [mp4[2]]),
    ])


@prop("P30")
def p30(ck, deep):
    k = 8 if deep else 1
    with ThreadPoolExecutor(3) as ex:
        names = ("GenH264Sps", "GenH265Ps", "GenVideoHdr", "GenM4Cfg", "GenM4Frame", "GenStreamDesc", "GenTsSub", "GenAudioHdr",
                 "GenG711", "GenAv1Stream", "GenAnnexB", "GenAvcc")
        g = dict(zip(names, [[x] for x in ex.map(lambda m: ck.gen(m, timeout=800, workers=2), names)]))
    cat = ck.catalog()
    mp4 = [ck.gen(m, timeout=800, CATALOG=cat, SMALL="1") for m in ("GenFmp4Init", "GenFmp4Parts", "GenPmp4")]
    ck.reuse([
        ("h264sps", "TraceH264Sps", 500 * k, 3000 * k, g["GenH264Sps"]),
        ("h265ps", "TraceH265Ps", 500 * k, 3000 * k, g["GenH265Ps"]),
        ("videohdr", "TraceVideoHdr", 500 * k, 3000 * k, g["GenVideoHdr"]),
        ("m4cfg", "TraceMpeg4Audio", 500 * k, 3000 * k, g["GenM4Cfg"]),
        ("m4frame", "TraceMpeg4Audio", 300 * k, 1500 * k, g["GenM4Frame"]),
        ("m4raw", "TraceMpeg4Audio", 300 * k, 1000 * k, []),
        ("streamdesc", "TraceStreamDesc", 200 * k, 2000 * k, g["GenStreamDesc"]),
        ("g711", "TraceStreamDesc", 0, 200, g["GenG711"]),
        ("tssub", "TraceTsSub", 200 * k, 2000 * k, g["GenTsSub"]),
        ("audiohdr", "TraceAudioHdr", 20 * k, 400 * k, g["GenAudioHdr"]),
        ("av1stream", "TraceAv1Stream", 500 * k, 2000 * k, g["GenAv1Stream"]),
        ("annexb", "TraceAnnexB", 500 * k, 1000 * k, g["GenAnnexB"]),
        ("avcc", "TraceAvcc", 500 * k, 1000 * k, g["GenAvcc"]),
        ("fmp4init", "TraceFmp4Init", 300 * k, 1500 * k, [mp4[0]]),
        ("fmp4parts", "TraceFmp4Parts", 300 * k, 1500 * k, [mp4[1]]),
        ("pmp4", "TracePmp4", 300 * k, 1000 * k, [mp4[2]]),
    ])


@prop("P31")
def p31(ck, deep):
    ck.mc("MCBoxFile")
    gs = [ck.gen(m, timeout=800, CATALOG=ck.catalog(), SMALL="1") for m in ("GenFmp4Init", "GenFmp4Parts", "GenPmp4")]
    ck.trace("mp4io", "TraceMp4Io", 6000 if deep else 800, gs)

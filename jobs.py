#!/usr/bin/env python3
# writes jobs.json: which harness runs, with which bounds, decide each property
import itertools, json, os
J = {}
def prop(id, bounds, outside, assume=()):
    J[id] = {"quick": [], "thorough": [], "bounds": bounds, "outside": outside, "assume": list(assume)}
def add(id, tier, harness_, cover="", time=60, **p):
    """one job for each combination of the list-valued parameters"""
    ks = list(p)
    vs = [list(v) if isinstance(v, (list, range, tuple)) else [v] for v in p.values()]
    for c in itertools.product(*vs):
        j = {"h": harness_, "p": dict(zip(ks, c)), "time": time}
        if cover: j["cover"] = cover.split(",")
        J[id][tier].append(j)
R = lambda a, b: list(range(a, b + 1))

# ---------------------------------------------------------------- C01
prop("C01",
     "Valid: every text of up to 7 bytes (thorough: 8); 18 longer templates with 2 to 8 arbitrary bytes each; thirteen kinds of texts with a run of 1100 (four of them: 5000; thorough: 66000) characters, members or levels of nesting, arbitrary bytes behind it; 4 documents of 90 to 230 bytes with up to 2 arbitrary bytes substituted, inserted or removed at any position; nesting of depth 60 to 130 in six opener patterns with every closer free. Skip family (8 entry points): every text of up to 5 bytes (thorough: 6) and the same templates and documents.",
     "texts that differ from the listed shapes in more bytes than the bounds; nesting deeper than 130 (200 thorough)")
add("C01", "quick", "H_valid", n=R(0, 6), time=60)
add("C01", "quick", "H_valid", n=7, cover="valid,invalid")
add("C01", "quick", "H_validT", t=[t for t in R(0, 17) if t != 15], cover="valid,invalid")
add("C01", "quick", "H_validT", t=15, cover="invalid")
add("C01", "quick", "H_validW", t=R(0, 3), w=1, x=[0, 1], cover="valid,invalid")
add("C01", "quick", "H_validW", t=R(0, 3), w=0, x=1, cover="valid,invalid")
add("C01", "quick", "H_validW", t=[0, 3], w=2, x=2, cover="valid,invalid")
add("C01", "quick", "H_deep", d=[1, 2, 3, 8, 63, 64, 65, 66], pat=[0, 1, 5], w=3, cover="valid,invalid")
add("C01", "quick", "H_deep", d=[127, 128, 129, 130], pat=[2, 6, 7], w=3, cover="valid,invalid")
add("C01", "quick", "H_deepMid", d=66, k=[0, 1, 2, 63, 64, 65, 66], pat=[1, 2], w=2, cover="valid,invalid")
add("C01", "quick", "H_skip", n=R(1, 5), m=R(0, 7), r=-1)
add("C01", "quick", "H_skip", n=[3, 4], m=R(0, 7), r=[1, 2])
add("C01", "quick", "H_skipT", t=R(0, 17), m=[0, 5, 6, 7], r=[-1, 1])
add("C01", "quick", "H_skipT", t=R(0, 17), m=R(1, 4), r=[-1, 2], cover="rejected")
add("C01", "quick", "H_skipW", t=R(0, 3), w=1, x=[0, 1], m=[0, 6], r=[-1, 1], cover="skipped,rejected")
add("C01", "quick", "H_validGen", n=3, w=[1, 2], x=[0, 1], cover="valid,invalid")
add("C01", "quick", "H_validGen", n=5, w=0, x=0, cover="valid")
add("C01", "quick", "H_skipGen", n=3, w=1, x=[0, 1], m=R(0, 7), r=[-1, 1], cover="skipped,rejected")
add("C01", "quick", "H_skipGen", n=5, w=0, x=0, m=[0, 1, 2, 6], r=-1, cover="skipped")
add("C01", "thorough", "H_validGen", n=5, w=[0, 1], x=[0, 1], cover="valid", time=200)
add("C01", "thorough", "H_skipGen", n=4, w=1, x=[0, 1], m=R(0, 7), r=[-1, 1, 3], cover="skipped,rejected", time=200)
add("C01", "thorough", "H_valid", n=8, time=200, cover="valid,invalid")
add("C01", "thorough", "H_valid", n=9, time=300, cover="valid,invalid")
add("C01", "thorough", "H_validW", t=R(0, 3), w=[2, 3], x=[0, 1, 2, 3], time=100, cover="valid,invalid")
add("C01", "thorough", "H_deep", d=[190, 191, 192, 193, 200], pat=R(0, 7), w=3, time=100, cover="valid,invalid")
add("C01", "thorough", "H_skip", n=[6, 7], m=R(0, 7), r=[-1, 1], time=200)
add("C01", "thorough", "H_skipW", t=R(0, 3), w=2, x=[0, 1, 2], m=R(0, 7), r=[-1, 2], time=100)
add("C01", "quick", "H_validHuge", k=[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13], l=1100)
add("C01", "quick", "H_validHuge", k=10, l=450)
add("C01", "quick", "H_validHuge", k=[0, 1, 7, 13], l=5000)
add("C01", "thorough", "H_validHuge", k=[0, 1, 7, 13], l=66000, time=400)
add("C01", "quick", "H_skipHuge", k=[0, 1, 3, 4, 5, 6, 7, 12], l=600, m=R(0, 7), r=[-1, 0])

# ---------------------------------------------------------------- C02
prop("C02",
     "every text of up to 5 bytes (thorough: 7) through ten entry points (pull API, Unmarshal of bytes, string and reader, Decoder, iterators with and without UseNumber, into interface{} with and without a previous value, []interface{} and map[string]interface{}); the templates and documents of C01; nesting to depth 130; arrays and objects of up to 40 members, ten kinds of texts with a run of 1100 characters, members or levels of nesting",
     "texts that differ from the listed shapes in more bytes than the bounds; the conversion of a number literal to the nearest float64 itself (strconv.ParseFloat is an uninterpreted function of the literal whose range errors are free)",
     ["strconv.ParseFloat is correct"])
add("C02", "quick", "H_generic", n=R(0, 4), m=R(0, 9))
add("C02", "quick", "H_generic", n=5, m=R(0, 9), cover="decoded,rejected")
add("C02", "quick", "H_generic", n=6, m=[0, 3], cover="decoded,rejected")
add("C02", "quick", "H_genericT", t=R(0, 17), m=R(0, 7), cover="rejected")
add("C02", "quick", "H_genericW", t=R(0, 3), w=1, x=[0, 1], m=[0, 2, 3, 6], cover="decoded,rejected")
add("C02", "quick", "H_genericDeep", d=[1, 2, 3, 8, 63, 64, 65, 66, 130], pat=[0, 1, 2, 5], w=3, m=[0, 3], cover="decoded,rejected")
add("C02", "quick", "H_genericWide", n=[1, 5, 17, 40], m=[0, 4], cover="decoded,rejected")
add("C02", "quick", "H_genericGen", n=5, m=R(0, 9), cover="decoded")
add("C02", "thorough", "H_genericGen", n=6, m=R(0, 9), cover="decoded", time=200)
add("C02", "thorough", "H_generic", n=[6, 7], m=R(0, 9), time=300, cover="decoded,rejected")
add("C02", "thorough", "H_genericW", t=R(0, 3), w=2, x=[0, 1, 2], m=[0, 3, 4, 6], time=100, cover="decoded,rejected")
add("C02", "thorough", "H_genericDeep", d=[127, 128, 129, 192, 193, 200], pat=R(0, 7), w=3, m=[0, 1, 2], time=100, cover="decoded,rejected")
add("C02", "quick", "H_genericHuge", k=[0, 2, 3, 5, 6, 7, 8, 9, 12], l=1100, m=R(0, 9))
add("C02", "quick", "H_genericHuge", k=4, l=200, m=R(0, 9))

# ---------------------------------------------------------------- C03
prop("C03",
     "string literals: every literal of up to 4 bytes after the quote (thorough: 6), 19 templates covering every escape, every pair of \\u escapes and lengths to 600 bytes, strings of up to 140 bytes with two arbitrary bytes and a \\u escape at any position; strings of 1100 and 5000 characters and of 1100 escapes with arbitrary bytes behind them; ten entry points (ReadString, ReadStringAsSlice, ReadStringAndAppend, Read, ReadVal, Unmarshal, three readers of member names, SkipString) from a byte slice and from readers delivering single bytes, single bytes with empty reads between, or one cut at any position",
     "literals with more arbitrary bytes than the bounds")
add("C03", "quick", "H_str", n=R(0, 3), m=R(0, 9), r=[-1, 1])
add("C03", "quick", "H_str", n=4, m=R(0, 9), r=-1, cover="read")
add("C03", "quick", "H_str", n=5, m=[0, 1, 2, 9], r=-1, cover="read,rejected")
add("C03", "quick", "H_strAny", n=3, m=R(0, 8), r=-1)
add("C03", "quick", "H_strT", t=R(0, 18), m=[0, 1, 2, 9], r=[-1, 2], cover="read")
add("C03", "quick", "H_strT", t=[0, 1, 3, 5, 6, 7, 8, 9, 12], m=[3, 4, 6, 7, 8], r=[-1, 1], cover="read")
add("C03", "quick", "H_strT", t=[1, 3, 5, 6, 7, 9, 12, 17], m=[0, 2, 6, 9], r=3, cover="read")
add("C03", "quick", "H_strT", t=R(0, 18), m=5, r=-1, cover="read")
add("C03", "quick", "H_strLong", n=70, w=1, m=[0, 1, 2, 9], r=[-1, 0, 1], cover="read,rejected")
add("C03", "quick", "H_quoted", t=R(3, 14), f=[1, 3, 5], r=[-1, 1])
add("C03", "thorough", "H_str", n=[5, 6], m=R(0, 9), r=[-1, 1], time=150, cover="read,rejected")
add("C03", "thorough", "H_strT", t=R(0, 18), m=[3, 4, 6, 7, 8], r=[-1, 2, 3], time=100)
add("C03", "thorough", "H_strLong", n=140, w=[1, 2], m=[0, 1, 2, 6, 9], r=[-1, 0, 1, 3], time=150)
add("C03", "quick", "H_strHuge", k=11, l=5000, m=R(0, 9), r=[-1, 0, 1])
add("C03", "quick", "H_strHuge", k=[9, 11], l=1100, m=R(0, 9), r=[-1, 0, 1])

# ---------------------------------------------------------------- C04
prop("C04",
     "eleven integer kinds through eight entry points (pull API, ReadVal, Unmarshal, a ,string field, a map key, a slice element, a pointer with ,string, defined types in all of these): every text of up to 4 bytes (thorough: 6); every sequence of up to 6 digits (8-bit), 7 (16-bit), 9 and 11 (32-bit; thorough: 12), 18 to 20 (64-bit; thorough: 22), with and without sign, followed by an arbitrary byte; the literals at the limits of each type with 2 (thorough: 3) arbitrary bytes at any position and up to 2 more behind them; from byte slices and readers of single bytes; an integer ending anywhere in a reader's 64-byte buffer",
     "longer texts; how much of a text like 1.5 or 012, which starts like an integer but is no integer literal, the pull API takes")
add("C04", "quick", "H_int", n=R(0, 2), k=R(0, 9), m=0, r=[-1, 1])
add("C04", "quick", "H_int", n=3, k=R(0, 9), m=0, r=[-1, 1], cover="read,rejected")
add("C04", "quick", "H_int", n=4, k=R(0, 9), m=0, r=-1, cover="read,rejected")
add("C04", "quick", "H_int", n=4, k=R(0, 10), m=[1, 2], r=-1, cover="read,rejected")
add("C04", "quick", "H_int", n=3, k=R(0, 10), m=[3, 4], r=[-1, 1], cover="read,rejected")
add("C04", "quick", "H_int", n=[2, 3], k=R(0, 10), m=[6, 7], r=[-1, 1], cover="read")
add("C04", "quick", "H_intL", k=R(0, 10), l=R(0, 3), w=1, e=0, m=[6, 7], r=-1)
add("C04", "quick", "H_int", n=3, k=0, m=5, r=[-1, 1], cover="read")
for k, n in [(0, 6), (5, 6), (1, 7), (6, 7), (2, 8), (7, 8)]:
    add("C04", "quick", "H_intD", s=[0, 1], n=R(n - 4, n), e=1, k=k, m=0, r=-1)
    add("C04", "quick", "H_intD", s=[0, 1], n=[n - 2, n], e=0, k=k, m=[1, 2, 3, 4], r=1)
for k in [2, 7]:
    add("C04", "quick", "H_intD", s=[0, 1], n=11, e=0, k=k, m=[0, 1], r=1)
    add("C04", "thorough", "H_intD", s=[0, 1], n=[9, 10, 11, 12], e=[0, 1], k=k, m=[0, 1, 2, 3, 4], r=[-1, 1], time=200)
add("C04", "quick", "H_intD", s=[0, 1], n=18, e=0, k=[3, 4, 8, 9, 10], m=[1, 3, 4], r=-1)
add("C04", "quick", "H_intD", s=[0, 1], n=[19, 20], e=0, k=[3, 8], m=1, r=1)
add("C04", "thorough", "H_intD", s=[0, 1], n=[18, 19, 20, 21], e=0, k=[3, 4, 8, 9, 10], m=1, r=-1, time=100)
add("C04", "thorough", "H_intD", s=[0, 1], n=[18, 19, 20, 21], e=1, k=[3, 8], m=[0, 3, 4], r=1, time=100)
add("C04", "quick", "H_intL", k=R(0, 9), l=R(0, 3), w=2, e=0, m=0, r=[-1, 1])
add("C04", "quick", "H_intL", k=R(0, 10), l=R(0, 3), w=1, e=0, m=[1, 2, 3, 4], r=1)
add("C04", "quick", "H_intL", k=R(0, 10), l=R(0, 3), w=0, e=1, m=1, r=[3, 4])
add("C04", "quick", "H_intL", k=[0, 1, 2, 3, 5, 8], l=R(0, 1), w=1, e=1, m=0, r=4)
add("C04", "quick", "H_intL", k=R(0, 9), l=R(0, 1), w=0, e=1, m=[0, 2, 3, 4], r=4)
add("C04", "quick", "H_intTail", n=70, r=[0, 1, 3], cover="read")
add("C04", "thorough", "H_intL", k=R(0, 9), l=R(0, 3), w=3, e=0, m=[0, 1, 3, 4], r=[-1, 2], time=100)
add("C04", "thorough", "H_int", n=[5, 6], k=R(0, 9), m=[0, 2], r=-1, time=100)

# ---------------------------------------------------------------- C05
prop("C05",
     "float32, float64 and json.Number through the pull API, ReadVal, Unmarshal, an element, a field, a map value, a pointer to a named type and (json.Number) a quoted literal: every text of up to 5 bytes (thorough: 7), 34 literal templates with 1 to 25 arbitrary digits or bytes and lengths to 70 bytes, from byte slices and readers delivering single bytes, empty reads and any cut; a number ending anywhere in a reader's buffer",
     "longer literals with more arbitrary bytes; escapes inside a quoted json.Number; the ,string option on floats, which this library ignores; correct rounding itself is strconv.ParseFloat's (an uninterpreted function of the literal's bytes, tied to its real results where the literal is concrete)",
     ["strconv.ParseFloat rounds correctly"])
add("C05", "quick", "H_float", n=R(1, 3), k=[0, 1, 2], m=R(0, 5), r=[-1, 1])
add("C05", "quick", "H_float", n=[4, 5], k=[0, 1, 2], m=[0, 1, 2], r=-1, cover="read,rejected")
add("C05", "quick", "H_float", n=4, k=[0, 1, 2], m=[0, 1], r=[1, 2], cover="read,rejected")
add("C05", "quick", "H_float", n=[1, 2, 3, 4], k=2, m=6, r=[-1, 1], cover="read")
add("C05", "quick", "H_float", n=[1, 2, 3, 4], k=1, m=7, r=[-1, 1], cover="read")
add("C05", "quick", "H_floatT", t=R(0, 33), k=[0, 1, 2], m=[0, 2, 4], r=[-1, 1])
add("C05", "quick", "H_floatT", t=R(0, 33), k=2, m=6, r=-1)
add("C05", "quick", "H_floatT", t=[3, 5, 10, 15, 16, 17], k=[0, 1, 2], m=[0, 3], r=3)
add("C05", "quick", "H_floatTail", n=70, k=[0, 1, 2], m=0, r=[0, 2, 3], cover="read")
add("C05", "thorough", "H_float", n=[5, 6, 7], k=[0, 1, 2], m=R(0, 5), r=[-1, 1], cover="read", time=100)
add("C05", "thorough", "H_floatT", t=R(0, 33), k=[0, 1, 2], m=R(0, 5), r=[-1, 2, 3, 4], time=100)

# ---------------------------------------------------------------- C06
prop("C06",
     "all eleven integer kinds with every value they hold (partitioned by sign and number of digits, 1 to 20): as a value through the streamer, and as a value, field, ,string field, pointer, map key, element, interface, pointer with ,string and defined types in all of these through Marshal; and the value read back by Unmarshal",
     "integers of named types with methods (C18); the ,string option on map keys")
K6 = [(0, 3), (1, 5), (2, 10), (3, 19), (4, 19), (5, 3), (6, 5), (7, 10), (8, 20), (9, 20), (10, 20)]
for k, n in K6:
    for neg in ([0, 1] if k < 5 else [0]):
        add("C06", "quick", "H_intEnc", k=k, n=R(1, n), neg=neg, m=0, cover="written")
        for m in range(1, 9):
            add("C06", "quick", "H_intEnc", k=k, n=sorted({1 + (m + k) % n, n}), neg=neg, m=m, cover="written")
        add("C06", "quick", "H_intRound", k=k, n=sorted({1, n // 2 + 1, n}), neg=neg, cover="written")
        add("C06", "thorough", "H_intEnc", k=k, n=R(1, n), neg=neg, m=R(1, 8), cover="written")
        add("C06", "thorough", "H_intRound", k=k, n=R(1, n), neg=neg, cover="written", time=100)

# ---------------------------------------------------------------- C07
prop("C07",
     "every string of up to 3 bytes (4 through the streamer; thorough: 4) as a value, member name, map key, field, ,string field, pointer, interface and result of MarshalText as value, element, map key and field, with HTML escaping off and on, set by configuration or overridden at run time; 9 templates of UTF-8 sequences, truncated or not, at any place in strings of up to 40 bytes; strings of 1100 and 5000 bytes with an arbitrary byte; and read back",
     "longer strings with more arbitrary bytes")
add("C07", "quick", "H_strEnc", n=R(0, 2), m=R(0, 15), html=[0, 1], cover="written")
add("C07", "quick", "H_strEnc", n=3, m=R(0, 13), html=[0, 1], cover="written")
add("C07", "quick", "H_strEnc", n=4, m=0, html=[0, 1], cover="written", time=100)
add("C07", "quick", "H_strEncT", t=R(1, 8), n=0, m=[0, 1, 10], html=[0, 1], cover="written")
add("C07", "quick", "H_strEncT", t=[2, 4, 5], n=[15, 40], m=[0, 1, 3], html=[0, 1], cover="written")
add("C07", "thorough", "H_strEncT", t=[6, 7, 8], n=[15, 40], m=[0, 1, 3], html=[0, 1], cover="written", time=150)
add("C07", "quick", "H_strRound", n=R(0, 3), cover="written")
add("C07", "thorough", "H_strEnc", n=4, m=R(1, 13), html=[0, 1], cover="written", time=100)
add("C07", "thorough", "H_strEncT", t=R(0, 8), n=9, m=[0, 1, 3, 5], html=[0, 1], cover="written", time=150)
add("C07", "thorough", "H_strRound", n=4, cover="written", time=100)
add("C07", "quick", "H_strEncHuge", l=1100, t=[0, 300], m=R(0, 15), html=[0, 1], cover="written")
add("C07", "quick", "H_strEncHuge", l=5000, t=0, m=[0, 4, 7], html=1, cover="written")

# ---------------------------------------------------------------- C08
prop("C08",
     "every float32 (all 2^32) through the streamer and through Marshal and Encoder as value, field, element, pointer in an interface and map value; every float64 (all 2^64) through the streamer, and through the other entry points every float64 of either sign in [1e-12,1e-4], [1e18,1e24], [1,1000], below 1e-300, above 1e300, and the infinities and NaNs (thorough: all 2^64 through all of them)",
     "the digits and their number are uninterpreted functions of the value (strconv finds the shortest decimal), the decimal exponent is decided exactly",
     ["strconv.AppendFloat produces the shortest decimal that reads back the same"])
add("C08", "quick", "H_floatEnc", k=1, m=R(0, 7), cover="written,refused")
add("C08", "quick", "H_floatEnc", k=0, m=0, time=200, cover="written,refused")
add("C08", "quick", "H_floatEncR", r=R(0, 3), m=R(1, 7), cover="written", time=100)
add("C08", "quick", "H_floatEncR", r=4, m=R(1, 7), cover="written,refused", time=100)
add("C08", "thorough", "H_floatEnc", k=0, m=R(1, 7), time=300, cover="written,refused")

# ---------------------------------------------------------------- C09
prop("C09",
     "twenty kinds of read (generic, skip, raw, typed structs, slices, maps, arrays, strings, integers, floats, numbers, callbacks, begin/more loops): every text of up to 4 bytes (thorough: 6), 18 templates, four documents with an arbitrary byte at any position, ten kinds of texts with runs of 1100 characters, members or levels, and ten tokens at any distance from byte 64 and 512 of the stream; readers that deliver everything, single bytes, single bytes with empty reads and data with EOF, one (thorough: two) cuts at any position; the reader failing behind any prefix; Decoder over every stream of up to 4 bytes (thorough: 5) and eight templates with every pattern of More calls for short streams; streams of many values, failing readers below a Decoder, and bytes.Buffer, bytes.Reader and strings.Reader as readers of streams of up to 600 bytes",
     "other segmentations of longer streams; a reader that returns data together with an error other than EOF, whose data is dropped")
add("C09", "quick", "H_stream", n=R(0, 3), m=R(0, 19), r=[1, 2])
add("C09", "quick", "H_stream", n=4, m=R(0, 19), r=3, cover="rejected")
add("C09", "quick", "H_streamT", t=R(0, 16), m=[0, 1, 2, 8, 10, 17], r=[1, 3])
for t, ms in [(2, [3]), (17, [15]), (3, [4, 16]), (4, [5]), (5, [6, 7, 14]), (6, [11]), (7, [12]), (8, [13]), (10, [18]), (11, [19]), (13, [4, 16]), (15, [3, 15])]:
    add("C09", "quick", "H_streamT", t=t, m=ms, r=[0, 1, 2, 3, 5], cover="read")
    add("C09", "quick", "H_streamFail", f=0, t=t, m=ms, r=[0, 1], cover="broken")
    add("C09", "thorough", "H_streamT", t=t, m=ms, r=4, time=100)
add("C09", "quick", "H_streamW", t=R(0, 3), w=1, x=1, m=[0, 1, 10], r=[0, 1], cover="read,rejected")
add("C09", "quick", "H_streamW", t=0, w=1, x=1, m=[0], r=3, cover="read,rejected")
add("C09", "quick", "H_streamB", t=R(0, 9), s=[64, 128, 512], m=[0, 1, 10], r=0, cover="read")
add("C09", "quick", "H_streamB", t=[0, 6, 9], s=64, m=19, r=0)
add("C09", "quick", "H_streamFail", f=0, t=[0, 1, 3, 5, 8, 9, 12, 14], m=[0, 1, 2, 10], r=[0, 1], cover="broken")
add("C09", "quick", "H_streamFailN", f=0, n=[1, 2, 3], m=R(0, 19), r=[0, 1])
add("C09", "quick", "H_dec", n=R(0, 3), r=[0, 1, 2], typ=[0, 1], mo=2)
add("C09", "quick", "H_dec", n=R(1, 3), r=[0, 1, 2], typ=[2, 3], mo=0)
add("C09", "quick", "H_decT", t=R(0, 5), r=[0, 1, 2, 3], typ=[2, 3], mo=[0, 3], cover="decoded")
add("C09", "quick", "H_streamFail", t=[0, 2, 5, 9, 15], f=[1, 2, 3], m=[0, 1, 10], r=1, cover="broken")
add("C09", "quick", "H_streamFail", t=[3, 6, 7, 10, 12, 18, 19, 20], f=R(0, 3), m=[0, 1, 2, 5, 6, 7, 8, 10, 14], r=0)
add("C09", "quick", "H_streamFailN", f=[1, 2, 3], n=[1, 2], m=[0, 1, 5, 6, 7, 10, 14], r=[0, 1])
add("C09", "quick", "H_decFail", t=R(0, 7), f=[0, 3], r=0, typ=[0, 1], mo=[0, 1], cover="broken")
add("C09", "quick", "H_decFail", t=R(0, 7), f=1, r=1, typ=1, mo=[0, 1], cover="broken")
add("C09", "thorough", "H_decFail", t=R(0, 7), f=R(0, 3), r=[0, 1, 2], typ=[0, 1], mo=[0, 1], cover="broken")
add("C09", "quick", "H_stdReader", t=R(0, 3), l=[0, 55, 130, 600], q=R(0, 4), e=R(0, 2), m=[0, 1])
add("C09", "quick", "H_decT", t=[6, 7], r=[0, 1], typ=[0, 2, 3], mo=[0, 3], cover="decoded")
add("C09", "quick", "H_decMany", n=[30, 100], r=[0, 1], typ=[0, 3], mo=[0, 3], cover="decoded,end")
add("C09", "thorough", "H_decMany", n=[30, 400], r=[0, 1, 3, 5], typ=R(0, 3), mo=[0, 1, 3], time=150, cover="decoded")
add("C09", "quick", "H_dec", n=4, r=3, typ=0, mo=[0, 1], cover="decoded,end")
add("C09", "quick", "H_decT", t=R(0, 5), r=[0, 1, 2, 3], typ=1, mo=[0, 1, 3], cover="decoded")
add("C09", "thorough", "H_stream", n=[5, 6], m=R(0, 19), r=[1, 3], time=100)
add("C09", "thorough", "H_streamT", t=R(0, 16), m=R(0, 19), r=[2, 4], time=150)
add("C09", "thorough", "H_streamW", t=R(0, 3), w=1, x=[0, 1, 2], m=R(0, 19), r=[2, 3], time=150)
add("C09", "thorough", "H_streamB", t=R(0, 9), s=[64, 128, 512, 576, 1024], m=[0, 1, 10, 19], r=[0, 3, 5], time=100)
add("C09", "thorough", "H_dec", n=[4, 5], r=[0, 1, 3], typ=[0, 1], mo=2, time=200)
add("C09", "thorough", "H_decT", t=R(0, 5), r=[3, 4], typ=[0, 1], mo=2, time=300)
add("C09", "quick", "H_streamHuge", k=[0, 2, 3, 4, 5, 6, 7, 8, 9, 12], l=1100, m=[0, 1, 2, 8, 10], r=[0, 1])

# ---------------------------------------------------------------- C10
prop("C10",
     "SkipRaw, AppendRaw, ReadRaw, json.RawMessage (empty or holding a value before) and UnmarshalJSON: every text of up to 4 bytes (thorough: 6), 11 templates with values of up to 780 bytes, generated values of 100 to 1600 bytes with an arbitrary byte (and four kinds of up to 6000 bytes or 600 levels), and containers of raw values (slices, maps, struct fields, callbacks); from byte slices and readers delivering everything, single bytes, empty reads or any cut; afterwards the iterator reads on, is reset and reads other documents before the copy is compared again",
     "values longer than 1600 bytes; the slice SkipRaw returns, which is documented to be valid only until the next read")
add("C10", "quick", "H_raw", n=R(0, 3), m=R(0, 5), r=[-1, 1, 2])
add("C10", "quick", "H_raw", n=4, m=[0, 3, 4], r=[-1, 1], cover="read,rejected")
add("C10", "quick", "H_rawT", t=R(0, 10), m=R(0, 5), r=[-1, 0, 1], cover="read")
add("C10", "quick", "H_rawT", t=R(0, 4), m=[0, 1, 3, 4], r=3, cover="read")
add("C10", "quick", "H_rawT", t=[7, 8, 9, 10], m=[0, 4], r=3, cover="read")
add("C10", "quick", "H_rawLong", s=[100, 480, 600, 1600], l=[0, 3, 62], m=[0, 1, 3, 4], r=[-1, 0, 1], cover="read")
add("C10", "quick", "H_rawIn", t=[0, 2], m=[0, 3, 5], r=[-1, 0, 1, 3], cover="read")
add("C10", "quick", "H_rawIn", t=[1, 3], m=[1, 2, 4], r=[-1, 0, 1, 3], cover="read")
add("C10", "quick", "H_rawIn", t=5, m=[1, 2, 4], r=[-1, 0, 1], cover="read")
add("C10", "quick", "H_rawIn", t=4, m=R(0, 5), r=[-1, 1])
add("C10", "thorough", "H_raw", n=[5, 6], m=R(0, 5), r=[-1, 1], time=150, cover="read")
add("C10", "thorough", "H_rawT", t=R(0, 10), m=R(0, 5), r=[2, 3, 4], time=150, cover="read")
add("C10", "thorough", "H_rawLong", s=[100, 480, 600, 1600], l=[0, 3, 62], m=R(0, 5), r=[2, 3], time=150)
add("C10", "thorough", "H_rawIn", t=[2, 3, 5], m=R(0, 5), r=[2, 4], time=150)
add("C10", "quick", "H_rawHuge", k=[0, 3, 5, 7], l=600, m=R(0, 5), r=[-1, 0])
add("C10", "thorough", "H_rawHuge", k=[0, 1, 2, 3, 4, 5, 6, 7, 12], l=1100, m=R(0, 5), r=[-1, 0, 1], time=100)

# ---------------------------------------------------------------- C11
prop("C11",
     "texts walked in six styles (NextValueType with begin/more loops and scalar readers, callbacks, other string readers, and the outermost container with Skip, SkipRaw or the kind-specific skips): every text of up to 5 bytes (thorough: 7), the templates and documents of C01 with an arbitrary byte at any position, every document of up to 5 values; texts with runs of 1100 characters or members or 300 levels; strings, names and numbers of up to 70 bytes at any distance from the end of a reader's buffer; the readers of null, booleans and strings and NextValueType on every text of up to 4 bytes (thorough: 6); callbacks failing at any member; from byte slices and readers",
     "texts that differ from the listed shapes in more bytes")
add("C11", "quick", "H_walk", n=R(0, 4), m=R(0, 6), r=[-1, 1])
add("C11", "quick", "H_walk", n=5, m=R(0, 6), r=-1, cover="read,rejected")
add("C11", "quick", "H_walkT", t=R(0, 17), m=[0, 1, 2], r=-1, cover="rejected")
add("C11", "quick", "H_walkT", t=R(0, 17), m=R(3, 6), r=1, cover="rejected")
add("C11", "quick", "H_walkW", t=R(0, 3), w=1, x=[0, 1], m=R(0, 6), r=[-1, 1], cover="read,rejected")
add("C11", "quick", "H_walkGen", n=5, m=R(0, 6), r=[-1, 1], cover="read")
add("C11", "quick", "H_kind", n=R(0, 4), m=R(0, 5), r=[-1, 1])
add("C11", "quick", "H_kindT", t=R(0, 7), m=R(0, 5), r=[-1, 3])
add("C11", "quick", "H_walkLong", n=[3, 20], l=[31, 33, 62], m=R(0, 6), r=[-1, 0, 1], cover="read,rejected")
add("C11", "thorough", "H_walkLong", n=[10, 70], l=[0, 31, 63, 130], m=R(0, 6), r=[0, 1, 3], time=150, cover="rejected")
add("C11", "quick", "H_cbStop", n=[1, 2, 5], o=[0, 1], r=[-1, 1], cover="stopped,all")
add("C11", "thorough", "H_walk", n=[6, 7], m=R(0, 6), r=-1, time=300, cover="read,rejected")
add("C11", "thorough", "H_walkW", t=R(0, 3), w=2, x=[0, 1, 2], m=R(0, 6), r=-1, time=150)
add("C11", "thorough", "H_walkT", t=R(0, 17), m=R(0, 6), r=3, time=150)
add("C11", "thorough", "H_kind", n=[5, 6], m=R(0, 5), r=[-1, 3], time=100)
add("C11", "quick", "H_walkHuge", k=[0, 1, 2, 3, 4, 7, 12], l=1100, m=R(0, 6), r=[-1, 0])
add("C11", "quick", "H_walkHuge", k=[5, 6], l=300, m=R(0, 6), r=[-1, 0])

# ---------------------------------------------------------------- C12
prop("C12",
     "twelve struct shapes (one field, 3, 9, 10, 11, 13, 26 and 300 fields; tags, ignored and unexported fields, names differing only in case, with non-letters, with k and s, non-ASCII; embedded structs and pointers, promoted, hidden, tagged and ambiguous fields, nil and non-nil embedded pointers; every field holding a value before), under four configurations (default, case sensitive, unknown fields disallowed, both): objects with one member of any name of up to 3 bytes (one field: 4), two members of any name of 1 byte, 19 templates, and every text of up to 5 bytes (thorough: 7); 100 generated struct types (up to 3 levels of embedded structs and pointers, tags, conflicting names, named and unexported parts) whose members are tabulated from encoding/json, with any of their pointers nil: objects with one member of their names in other spellings or of any name of 1 byte (20 types: 2 bytes), and null or a value of its kind",
     "longer names with more arbitrary bytes; fields of types other than int (C13, C18); names outside ASCII and é, for which folding is compared with a table of the special cases only")
add("C12", "quick", "H_struct", n=R(0, 2), k=R(0, 10), c=R(0, 3), r=-1)
add("C12", "quick", "H_struct", n=2, k=11, c=R(0, 3), r=-1)
add("C12", "quick", "H_struct", n=3, k=[0, 1, 2, 4, 5, 7, 8], c=[0, 3], r=-1)
add("C12", "quick", "H_struct", n=4, k=0, c=[0, 2], r=-1, cover="read")
add("C12", "quick", "H_struct2", n=1, k=R(0, 10), c=[0, 3], r=[-1, 1])
add("C12", "quick", "H_structT", t=R(0, 18), k=[0, 1, 2, 3, 4, 9, 10], c=[0, 1], r=-1)
add("C12", "quick", "H_structT", t=[5, 7, 8, 9, 10, 11], k=[5, 6, 7, 8], c=[0, 2], r=1)
add("C12", "quick", "H_structN", n=R(0, 5), k=[0, 2, 3], c=[0, 2], r=-1)
add("C12", "quick", "H_quoted", t=[0, 1, 2, 3, 4, 9, 11, 12], f=[0, 2, 4], r=[-1, 1])
add("C12", "quick", "H_quoted", t=[3, 4, 5, 7, 10, 11, 12, 14], f=[1, 3, 5], r=-1)
add("C12", "thorough", "H_struct", n=3, k=[3, 9, 10], c=R(0, 3), r=-1, time=300)
add("C12", "thorough", "H_struct", n=[3, 4], k=[0, 1, 2], c=R(0, 3), r=1, time=300)
add("C12", "thorough", "H_structT", t=R(0, 18), k=R(0, 10), c=[2, 3], r=3, time=100)
add("C12", "thorough", "H_structN", n=[6, 7], k=R(0, 10), c=[0, 1, 2, 3], r=-1, time=100)

# ---------------------------------------------------------------- C13
prop("C13",
     "sixty targets (slices, arrays, maps, pointers, byte slices, empty and non-empty interfaces, structs of these and nestings of them, most holding something before, interfaces holding pointers): every text of up to 4 bytes (thorough: 6), arrays and objects of up to 2 (thorough: 4) members of nine kinds of element texts with arbitrary characters, 22 templates, arrays of up to 70 elements one of which is an arbitrary byte; arrays and objects of 1100 members with an arbitrary one at the end; from byte slices and readers",
     "other element types (the readers of scalars are C03 to C05, structs C12, methods C18); longer arrays with more arbitrary bytes; what an abandoned target holds after an error")
add("C13", "quick", "H_cont", n=R(0, 4), k=R(0, 59), r=-1)
add("C13", "quick", "H_contE", n=[0, 1, 2], o=[0, 1], k=R(0, 59), r=-1)
add("C13", "quick", "H_contE", n=2, o=[0, 1], k=[0, 2, 4, 9, 26, 28, 33], r=1)
add("C13", "quick", "H_contT", t=R(0, 21), k=R(0, 59), r=-1)
add("C13", "quick", "H_contT", t=[0, 3, 7, 10, 13, 14], k=[0, 2, 9, 11, 12, 26, 28, 29], r=1)
add("C13", "quick", "H_contLong", n=[8, 9, 33, 70], k=[0, 1, 2, 9, 14, 33, 37], r=-1)
add("C13", "thorough", "H_cont", n=[5, 6], k=R(0, 59), r=-1, time=200)
add("C13", "thorough", "H_contE", n=3, o=[0, 1], k=R(0, 59), r=[-1, 1], time=300)
add("C13", "thorough", "H_contT", t=R(0, 21), k=R(0, 59), r=[1, 3], time=200)
add("C13", "thorough", "H_contLong", n=[1025, 1100], k=[0, 9], r=0, time=300)
add("C13", "quick", "H_contHuge", k=[3, 12], k2=[0, 1, 2, 5, 14, 17, 26, 33], l=1100, r=[-1, 0])
add("C13", "quick", "H_contHuge", k=[4], k2=[4, 5, 26, 29], l=1100, r=[-1, 0])

# ---------------------------------------------------------------- C14
prop("C14",
     "every correctly nested sequence of up to 6 (thorough: 8) calls of the Streamer (27 kinds of values with arbitrary digits, arrays, objects, names, flushes to a writer that takes everything, nothing or one byte with an error), up to 3 calls, one of eight errors and up to 2 calls of any kind after it; arrays of up to 200 (and of 1100) members flushed at any place; Encoders writing up to 4 values to a writer that fails after any number of bytes",
     "longer sequences; sequences that are not correctly nested (garbage in, garbage out); the text of single values (C06 to C08, C15)")
add("C14", "quick", "H_ops", n=R(0, 5), k=R(0, 26), part=-1)
add("C14", "quick", "H_ops", n=6, k=[0, 6, 12, 16, 18, 20], part=-1, cover="text")
add("C14", "quick", "H_ops", n=R(1, 4), k=R(0, 26), part=0)
add("C14", "quick", "H_ops", n=5, k=[0, 4, 16, 20], part=0, cover="text")
add("C14", "quick", "H_err", n=R(0, 3), m=[0, 1], k=[0, 3, 6, 9, 12, 15, 18, 21], e=R(0, 7), cover="error")
add("C14", "quick", "H_err", n=1, m=2, k=R(0, 26), e=R(0, 7), cover="error")
add("C14", "quick", "H_err", n=0, m=1, k=R(0, 26), e=5, cover="error")
add("C14", "quick", "H_enc", n=[1, 2, 3, 4], at=R(0, 16), cover="done")
add("C14", "quick", "H_long", n=[20, 70, 200], k=R(0, 26), cover="done")
add("C14", "thorough", "H_ops", n=[6, 7], k=R(0, 26), part=-1, time=200, cover="text")
add("C14", "thorough", "H_ops", n=8, k=[0, 16, 20], part=-1, time=600, cover="text")
add("C14", "thorough", "H_ops", n=[5, 6], k=R(0, 26), part=0, time=300, cover="text")
add("C14", "thorough", "H_err", n=4, m=2, k=R(0, 26), e=R(0, 7), time=100, cover="error")
add("C14", "quick", "H_long", n=1100, k=R(0, 26), cover="done")

# ---------------------------------------------------------------- C15
prop("C15",
     "22 types (structs with options omitempty and string, containers, self-referring structs, slices and maps, structs and arrays that an interface holds directly, json.Number, json.RawMessage, interfaces holding 13 kinds of values, byte slices of up to 4 arbitrary bytes), with 2 or 3 of their parts arbitrary (numbers of -9 to 10, strings of up to 1 character, nil, empty and filled containers), each as it is and wrapped in 12 ways; the struct shapes and the 100 generated struct types of C12 with two arbitrary fields and any pointers nil; fields of 28 types with omitempty; maps of up to 3 members with five kinds of keys; slices, maps and arrays of up to 1100 members one of which is arbitrary; a struct of 300 fields; what was written is read back into the same type",
     "contents of single values (C06 to C08); deeper nestings; raw messages and numbers that hold no valid JSON (written as they are); float fields with the string option (not quoted); the order of map members")
add("C15", "quick", "H_encode", k=0, f=R(0, 9), w=R(0, 12), cover="done")
add("C15", "quick", "H_encode", k=1, f=R(0, 11), w=[0, 1, 2, 5, 7, 8, 9], cover="done")
add("C15", "quick", "H_encode", k=[6, 8, 9], f=[1, 2], w=R(0, 12), cover="done")
add("C15", "quick", "H_encode", k=[6, 7], f=0, w=R(0, 12), cover="done")
add("C15", "quick", "H_encode", k=[k for k in R(2, 21) if k not in (6, 7, 8, 9)], f=0, w=R(0, 12), cover="done")
add("C15", "quick", "H_encStruct", k=R(0, 10), f=[0, 2, 4, 6, 8, 10, 12], w=[0, 1, 2], cover="done")
add("C15", "quick", "H_encMap", k=R(0, 4), n=[0, 1, 2], cover="done")
add("C15", "quick", "H_encBig", k=R(0, 8), n=[9, 33, 65], w=[0, 1, 5], cover="done")
add("C15", "quick", "H_encBig", k=[0, 2, 3, 7], n=[130, 300], w=0, cover="done")
add("C15", "thorough", "H_encBig", k=[0, 1, 2, 3, 4, 5], n=[300, 1100], w=[0, 2, 4, 8, 9], time=150, cover="done")
add("C15", "thorough", "H_encMap", k=R(0, 4), n=3, time=300, cover="done")
add("C15", "thorough", "H_encode", k=1, f=R(0, 11), w=R(0, 12), time=100, cover="done")
add("C15", "thorough", "H_encode", k=[7, 8, 9], f=[3, 5], w=R(0, 12), time=100, cover="done")

# ---------------------------------------------------------------- C18
prop("C18",
     "15 types with marshal methods (struct, map, slice, array, function, integer, string; methods of the value and of the pointer; held directly by an interface; both kinds of methods) in 15 places (pointers, elements, fields, omitempty fields, interfaces, map values, nil pointers), whose methods give texts of up to 2 (thorough: 4) arbitrary bytes, alone or behind 3, 20 or 70 others, or an error; interfaces with methods and json.Marshaler, encoding.TextMarshaler, json.Unmarshaler and encoding.TextUnmarshaler themselves, nil or holding values and pointers; map keys with methods; 4 types with unmarshal methods in 11 places, every text of up to 3 (thorough: 5) bytes and 9 templates, from byte slices and readers",
     "a pointer-receiver marshal method on a value that is not addressable (jzon calls it, encoding/json does not); texts of MarshalJSON that are not JSON (embedded as they are); longer texts of the methods")
add("C18", "quick", "H_hookEnc", k=[0, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14], w=R(0, 14), n=1, l=0)
add("C18", "quick", "H_hookEnc", k=[1, 9], w=R(0, 9), n=1, l=0)
add("C18", "quick", "H_hookEnc", k=[8, 12], w=[0, 3, 6, 8], n=[0, 2], l=0)
add("C18", "quick", "H_hookI", w=R(0, 3), cover="done")
add("C18", "quick", "H_hookStd", w=R(0, 9), n=1, l=[0, 20], cover="done,failed")
add("C18", "quick", "H_hookStd", w=[0, 3, 8, 9], n=2, l=0, cover="done,failed")
add("C18", "quick", "H_hookStdDec", t=R(0, 7), r=[-1, 0, 1])
add("C18", "quick", "H_hookDec", n=R(1, 3), k=R(0, 3), w=R(0, 10), r=-1)
add("C18", "quick", "H_hookDecT", t=R(0, 8), k=R(0, 3), w=R(0, 10), r=-1)
add("C18", "quick", "H_hookDecT", t=R(0, 8), k=[0, 1], w=[0, 1, 4, 5, 8], r=1)
add("C18", "quick", "H_hookKey", t=R(0, 4))
add("C18", "quick", "H_hookKeyEnc", n=[0, 1, 2], l=0, k=R(0, 3), cover="done")
add("C18", "quick", "H_hookKeyEnc", n=1, l=[3, 20, 70], k=R(0, 3), cover="done")
add("C18", "quick", "H_hookEnc", k=[8, 9, 10, 12], w=[0, 3, 6, 8], n=1, l=[3, 20, 70])
add("C18", "thorough", "H_hookEnc", k=[8, 9, 10, 11, 12, 13], w=R(0, 9), n=[3, 4], l=0, time=100)
add("C18", "thorough", "H_hookDec", n=4, k=R(0, 3), w=R(0, 10), r=[-1, 1], time=200)
add("C18", "thorough", "H_hookDec", n=5, k=[0, 1], w=[0, 4], r=-1, time=400)
add("C18", "thorough", "H_hookDecT", t=R(0, 8), k=R(0, 3), w=R(0, 10), r=[2, 4], time=100)

# ---------------------------------------------------------------- C19
prop("C19",
     "fresh configurations with none, each and all of seven custom decoders (int, struct, slice, map, pointer, string, interface{}) and seven custom encoders (int, struct, slice, map, string, []byte, uint8), after up to 2 (thorough: 3) earlier uses out of 8 with other types, the forty targets of C13 with its templates and texts of up to 3 bytes, the types of C15 in 13 places; other configurations alongside; the options tag name, only-tagged, case sensitivity, unknown fields and HTML escaping in all combinations with arbitrary names and characters; 50 generated struct types whose members under another tag name, with only tagged fields, and with both are tabulated from encoding/json on the same types with rewritten tags; overrides of one Decoder or Encoder between other uses",
     "custom encoders of pointer types (they also serve addressable values of the type pointed to); map keys (custom codecs do not apply to them); []byte from base64 text with a custom uint8 decoder; other codecs and longer histories")
for c, ks in ((1, R(0, 39)), (2, [26, 27, 28, 29, 33]), (4, [0, 1, 2, 11, 13, 22, 26, 28, 39]), (8, [4, 5, 26, 29, 38]), (16, [6, 7, 8, 14, 15, 16, 20, 26]), (32, [26, 28, 30, 17]), (64, [17, 18, 19, 23, 26, 28, 33, 34, 35]), (127, R(0, 39))):
    add("C19", "quick", "H_cfgDec", t=[0, 10, 15], k=ks, c=c, p=0)
add("C19", "quick", "H_cfgDec", t=[13, 17], k=[0, 4, 26, 28, 29, 33, 34, 38], c=[1, 2, 8, 64, 127], p=0)
add("C19", "quick", "H_cfgDec", t=4, k=R(0, 39), c=[1, 24, 47], p=1)
add("C19", "quick", "H_cfgDec", t=0, k=[0, 2, 4, 11, 17, 26, 28, 33], c=[1, 127], p=2)
add("C19", "quick", "H_cfgDecN", n=[1, 2, 3], k=R(0, 39), c=[1, 127], p=0)
add("C19", "quick", "H_cfgEnc", k=0, f=[0, 3, 6, 8], w=R(0, 12), c=[1, 16], p=0, cover="done")
add("C19", "quick", "H_cfgEnc", k=1, f=[0, 2, 4, 6, 8], w=[0, 1, 5, 8], c=[1, 4, 8, 32, 64, 127], p=0, cover="done")
add("C19", "quick", "H_cfgEnc", k=[2, 3, 4, 5, 10, 11, 12, 13, 14, 16, 17, 18, 19, 20], f=0, w=R(0, 12), c=[1, 2, 12, 16, 32, 64, 127], p=0, cover="done")
add("C19", "quick", "H_cfgEnc", k=[2, 4, 10, 11, 13, 14, 17, 18], f=0, w=[0, 4, 5, 9], c=[1, 2, 127], p=1, cover="done")
add("C19", "quick", "H_cfgEnc", k=[2, 10, 11, 13], f=0, w=[0, 5], c=[11, 127], p=2, cover="done")
add("C19", "quick", "H_cfgEncOff", k=[2, 10, 11, 14, 18], f=0, w=[0, 5, 9], c=127, cover="done")
add("C19", "quick", "H_cfgNamed", k=R(0, 14), sh=R(0, 10), dir=[0, 1], p=R(0, 3), cover="done")
add("C19", "quick", "H_tagDec", o=R(0, 7), t=R(0, 4), cover="read")
add("C19", "quick", "H_tagDec", o=R(8, 15), t=R(0, 4))
add("C19", "quick", "H_tagEnc", o=R(0, 7), f=R(0, 7), cover="done")
add("C19", "quick", "H_over", o=R(0, 7), i=R(0, 3), cover="done")
add("C19", "quick", "H_struct", n=[1, 2], k=[2, 3, 11], c=R(0, 3), r=-1)
add("C19", "quick", "H_optEnc", k=R(0, 49), o=[1, 2, 3], f=[0, 4], z=0, cover="done")
add("C19", "quick", "H_optDec", k=R(0, 49), o=[1, 2, 3], c=[0, 3], r=-1, l=0, n=1)
add("C19", "thorough", "H_optEnc", k=R(0, 49), o=R(0, 3), f=[8, 12], z=[0, 1], time=100, cover="done")
add("C19", "thorough", "H_optDec", k=R(0, 49), o=R(0, 3), c=R(0, 3), r=[-1, 1], l=[0, 1], n=[1, 2], time=100)
add("C19", "thorough", "H_cfgDec", t=3, k=[26, 28], c=[1, 2, 4, 8, 16, 32, 64, 127], p=0, time=100)
add("C19", "thorough", "H_cfgDec", t=R(0, 21), k=R(0, 39), c=[3, 33, 85, 127], p=1, time=100)
add("C19", "thorough", "H_cfgDec", t=[0, 3], k=[0, 2, 4, 17, 26, 28], c=[1, 31, 127], p=3, time=100)
add("C19", "thorough", "H_cfgDecN", n=[4, 5], k=R(0, 39), c=[1, 127], p=0, time=100)
add("C19", "thorough", "H_cfgEnc", k=[2, 3, 4, 5, 10, 11, 12, 13, 14, 16, 17, 18, 19, 20], f=0, w=R(0, 12), c=[1, 11, 64, 127], p=2, time=100, cover="done")

# ---------------------------------------------------------------- C17
prop("C17",
     "41 calls of the iterator, each on every text of up to 3 bytes (thorough: 5) and on 10 templates, followed by up to 2 (thorough: 3) more of 12 calls whatever the first reported, from byte slices, readers of any cuts and readers that fail; Unmarshal into 38 targets (unsupported types, embedded and cyclic pointers, things that are no target, nil, self-referring interfaces) of every text of up to 4 bytes (thorough: 6), 13 templates, and 11 documents cut off at every place with one arbitrary byte",
     "nesting of the text so deep that a self-referring Go type exhausts the goroutine stack; longer texts; memory safety under the garbage collector (C13's repair)")
add("C17", "quick", "H_pull", n=R(0, 2), m=R(0, 40), r=-1, f=0, l=1, cover="end")
add("C17", "quick", "H_pull", n=2, m=R(0, 40), r=1, f=[0, 1], l=1, cover="end")
add("C17", "quick", "H_pull", n=3, m=R(0, 40), r=-1, f=0, l=1, cover="end")
add("C17", "quick", "H_pull", n=1, m=R(0, 40), r=[-1, 2], f=0, l=2, cover="end")
add("C17", "quick", "H_pull2", n=3, m=R(0, 40), r=[-1, 1], l=3, cover="end")
add("C17", "quick", "H_pullT", t=R(0, 9), m=R(0, 40), r=-1, f=0, l=0, cover="end")
add("C17", "quick", "H_pullT", t=[0, 1, 3, 4, 6, 9], m=R(0, 40), r=1, f=[0, 1], l=0, cover="end")
add("C17", "quick", "H_zoo", n=R(0, 4), k=R(0, 37), r=-1, cover="end")
add("C17", "quick", "H_zoo", n=2, k=R(0, 37), r=1, cover="end")
add("C17", "quick", "H_zooT", t=R(0, 12), k=R(0, 37), r=-1, cover="end")
add("C17", "quick", "H_cut", t=R(0, 10), k=R(0, 37), r=-1, x=-1, cover="end")
CUTS = {0: [5], 1: [8], 2: [19], 3: [20], 4: [32], 5: [29], 6: [28, 33], 7: [27], 8: [26], 9: [37, 34], 10: [33]}
for t, ks in CUTS.items():
    add("C17", "quick", "H_cut", t=t, k=ks + [23], r=[-1, 1], x=[0, 1, 4, 7, 10])
add("C17", "thorough", "H_pull", n=[3, 4], m=R(0, 40), r=[-1, 1], f=0, l=2, time=100, cover="end")
add("C17", "thorough", "H_pull", n=5, m=R(0, 40), r=-1, f=0, l=1, time=100, cover="end")
add("C17", "thorough", "H_pullT", t=R(0, 9), m=R(0, 40), r=[-1, 1, 2, 3], f=[0, 1], l=1, time=100, cover="end")
add("C17", "thorough", "H_zoo", n=[5, 6], k=R(0, 37), r=-1, time=100, cover="end")
add("C17", "thorough", "H_zooT", t=R(0, 12), k=R(0, 37), r=[1, 3], time=100, cover="end")
for t, ks in CUTS.items():
    add("C17", "thorough", "H_cut", t=t, k=ks + [23, 33], r=[-1, 1], x=R(0, 40), time=100)

# ---------------------------------------------------------------- C16
prop("C16",
     "23 kinds of earlier uses that leave state behind (failed and abandoned reads, writers that fail, overrides, panics and errors of user methods, long documents), each with an arbitrary byte or in sequences of up to 2 (thorough: 3), then one of 20 reads of any text of up to 2 bytes (thorough: 3) or 10 templates with the same iterator, a pooled one or two at once; the targets of C13, the types of C15 and the streamer sequences of C14 after such uses; strings, byte slices, raw messages, numbers and interfaces decoded from templates while the input is overwritten and the iterator goes on; user methods that use the package themselves",
     "longer histories; what ReadStringAsSlice, SkipRaw and Buffer give (documented as temporary)")
add("C16", "quick", "H_reuse", n=[1, 2], m=R(0, 19), r=-1, h=R(0, 22), l=1, c=1)
add("C16", "quick", "H_reuse", n=1, m=R(0, 19), r=1, h=[0, 3, 8, 12, 16, 18], l=1, c=0)
add("C16", "quick", "H_reuseT", t=R(0, 9), m=[0, 1, 2, 4, 8, 10, 15, 17], r=[-1, 1], h=[0, 1, 2, 7, 16], l=1, c=1)
add("C16", "quick", "H_reuse", n=1, m=[0, 2, 4, 6, 8, 10, 13], r=1, h=[0, 5, 9], l=2, c=1)
add("C16", "quick", "H_reuseCont", t=[0, 13, 15], k=[0, 4, 9, 17, 26, 28, 33], r=[-1, 1], h=[0, 1, 3, 7, 16, 20], l=1, c=1)
add("C16", "quick", "H_reuseEnc", k=[2, 11, 14], w=[0, 12], h=R(0, 22), l=1, c=1, cover="done")
add("C16", "quick", "H_reuseEnc", k=20, w=0, h=[9, 10, 11, 12, 14], l=2, c=1, cover="done")
add("C16", "quick", "H_reuseOps", n=[1, 2, 3], k=[0, 12, 16], part=[-1, 0], h=R(9, 22), l=1, c=1, own=0)
add("C16", "quick", "H_reuseOps", n=[1, 2, 3], k=[0, 16], part=[-1], h=[9, 11, 12, 14], l=1, c=1, own=1)
add("C16", "quick", "H_keep", t=R(0, 5), r=[-2, -1, 0, 1], h=[0, 2, 7, 16, 17], c=1, big=0, cover="read")
add("C16", "quick", "H_keep", t=R(0, 5), r=[-1, 0, 1], h=[2, 16], c=1, big=1, cover="read")
add("C16", "quick", "H_keepLen", m=R(0, 8), r=[-1, 0, 1], lo=1, n=200, cover="read")
add("C16", "quick", "H_keepEnc", m=R(0, 7), lo=0, n=140, cover="done")
add("C16", "thorough", "H_keepEnc", m=R(0, 7), lo=140, n=1000, time=200, cover="done")
add("C16", "quick", "H_efaceAgain", k=R(0, 3), n=[0, 1, 2, 3], r=[-1, 0, 1], cover="done")
add("C16", "quick", "H_keepPull", m=R(0, 7), t=R(0, 5), r=[-1, 0, 1], h=[0, 2, 16], c=1)
add("C16", "quick", "H_nested", t=R(0, 2), r=[-1, 1], cover="done")
add("C16", "quick", "H_nestedT", cover="done")
add("C16", "thorough", "H_reuse", n=3, m=R(0, 19), r=[-1, 1], h=R(0, 22), l=1, c=1, time=60)
add("C16", "thorough", "H_reuse", n=1, m=R(0, 19), r=-1, h=[0, 4, 16], l=3, c=1, time=60)
add("C16", "thorough", "H_reuseT", t=R(0, 9), m=R(0, 19), r=[-1, 1, 3], h=R(0, 22), l=1, c=1, time=60)
add("C16", "thorough", "H_reuseOps", n=[4, 5], k=[0, 4, 8, 12, 16, 20], part=[-1, 0], h=R(9, 22), l=1, c=1, own=0, time=60)
add("C16", "thorough", "H_keepLen", m=R(0, 8), r=[-1, 0, 1, 5], lo=200, n=900, time=200, cover="read")
add("C16", "thorough", "H_keep", t=R(0, 5), r=[2, 3], h=R(0, 22), c=1, big=[0, 1], time=60, cover="read")
add("C16", "quick", "H_keepLen", m=R(0, 8), r=[-1, 0, 1], lo=[1100, 4095], n=2, cover="read")

add("C15", "quick", "H_omit", k=R(0, 27), cover="done")

# struct types from gen/zoo.py
add("C15", "quick", "H_intEnc", k=R(0, 10), n=[1, 3], neg=0, m=[6, 7, 8], cover="written")
add("C15", "quick", "H_structEnc", k=R(0, 99), f=[0, 2, 4, 6, 8, 10], z=[0, 1], cover="done")
add("C15", "quick", "H_wideEnc", cover="done")
add("C15", "quick", "H_encBig", k=[0, 2, 3], n=1100, w=0, cover="done")
add("C12", "quick", "H_structDec", k=R(0, 99), c=0, r=-1, l=0, n=1)
add("C12", "quick", "H_structDec", k=R(0, 99), c=3, r=1, l=0, n=1)
add("C12", "quick", "H_structDec", k=R(0, 99), c=0, r=-1, l=1, n=1)
add("C12", "quick", "H_structDec", k=[k for k in range(100) if k % 5 == 1], c=0, r=-1, l=2, n=1)
add("C12", "thorough", "H_structDec", k=R(0, 99), c=[0, 1, 2, 3], r=[-1, 1], l=2, n=1, time=100)
add("C12", "thorough", "H_structDec", k=R(0, 99), c=[0, 3], r=-1, l=0, n=2, time=200)
add("C12", "quick", "H_wide", p=[1, 2, 3], c=R(0, 3))

# ---------------------------------------------------------------- C20
prop("C20",
     "two threads, each doing one of 21 operations (Unmarshal, Marshal, Valid, Decoder, Encoder, iterators, streamers, callbacks, user methods that use the package again, failing calls, a value and a text both threads have) with arbitrary digits (or one arbitrary byte) in their inputs, on configurations that meet the types for the first time or know them already, also after calls that failed; every schedule with at most 2 (thorough: 4) preemptions at synchronisation operations (locks, atomics, pools, Once) of the package's code; accesses not ordered by synchronisation are found by vector clocks on each of these schedules; each thread's results must be what it gets alone, and the same calls must give the same afterwards",
     "more threads and operations per thread, more preemptions; schedules that differ only inside the standard library; what the race detector cannot order because sync.Pool may drop or move objects (the pool gives objects in LIFO order, or none)")
for w in (0, 1):
    for a in range(21):
        add("C20", "quick", "H_par", a=a, b=R(a, 20), n=1, p=2, w=w, x=0, cover="ran")
for a in (0, 2, 3, 4, 8, 16):
    add("C20", "quick", "H_par", a=a, b=[0, 1, 2, 3, 6, 8, 15], n=1, p=1, w=0, x=1, cover="ran" if a == 3 else "ran,failed")
for a in (0, 2, 3, 4, 7, 8, 9, 10, 16, 17):
    add("C20", "quick", "H_par", a=a, b=[b for b in (0, 2, 3, 4, 7, 8, 9, 10, 16, 17) if b >= a], n=1, p=2, w=3, x=0, cover="ran")
add("C20", "quick", "H_par", a=[0, 4, 5, 11], b=[0, 4, 5, 11], n=3, p=1, w=0, x=0, cover="ran")
for w in (0, 1):
    for a in range(21):
        add("C20", "thorough", "H_par", a=a, b=R(a, 20), n=1, p=[3, 4], w=w, x=0, time=200, cover="ran")
for a in (0, 2, 3, 4, 8, 16):
    add("C20", "thorough", "H_par", a=a, b=R(0, 20), n=1, p=[2, 3], w=[0, 1], x=1, time=200, cover="ran" if a == 3 else "ran,failed")

# JOBS-END
json.dump(J, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "jobs.json"), "w"), indent=0, sort_keys=True)

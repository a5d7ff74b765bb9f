"""Registry of the checks: property id -> harness, definitions, in-process tool mains, link flags."""
COMMON = ["g++ and AddressSanitizer translate and instrument the code correctly",
          "the bounded domains stated in coverage.families are complete; nothing is claimed beyond them",
          "the reference models in the harness state the property"]
CHECKS = {
 "C04": dict(harness="box.cpp", defines=["PROP=4"], assumptions=COMMON),
 "C05": dict(harness="box.cpp", defines=["PROP=5"], assumptions=COMMON),
 **{"C%02d" % n: dict(harness="feat.cpp", defines=["PROP=%d" % n], assumptions=COMMON) for n in (7, 8, 9, 10)},
 "C01": dict(harness="pnm.cpp", defines=["PROP=1"], link=["-Wl,--wrap=open,--wrap=close,--wrap=read,--wrap=fstat"], assumptions=COMMON),
 "C02": dict(harness="pnm.cpp", defines=["PROP=2"], link=["-Wl,--wrap=open,--wrap=close,--wrap=read,--wrap=fstat"], assumptions=COMMON),
 "C03": dict(harness="pnm.cpp", defines=["PROP=3"], link=["-Wl,--wrap=open,--wrap=close,--wrap=read,--wrap=fstat"],
             assumptions=COMMON + ["the loader reaches the operating system through open, fstat, read and close (calls by another name get the real answer)"]),
 "C06": dict(harness="image.cpp", assumptions=COMMON),
 "C11": dict(harness="similarity.cpp", assumptions=COMMON),
 **{"C%02d" % n: dict(harness="db.cpp", defines=["PROP=%d" % n], assumptions=COMMON) for n in (12, 13)},
 **{"C%02d" % n: dict(harness="glyphs.cpp", defines=["PROP=%d" % n], assumptions=COMMON) for n in (14, 15)},
 **{"C%02d" % n: dict(harness="learn.cpp", defines=["PROP=%d" % n], assumptions=COMMON,
                       mains=[("normalize_glyphs.cpp", "_Z21main_normalize_glyphsiPPc"), ("write_glyphs.cpp", "_Z17main_write_glyphsiPPc"), ("write_datas.cpp", "_Z16main_write_datasiPPc")]) for n in (16, 17)},
 **{"C%02d" % n: dict(harness="spell.cpp", defines=["PROP=%d" % n], assumptions=COMMON,
                       mains=[("make_trie_dictionary.cpp", "_Z25main_make_trie_dictionaryiPPc")]) for n in (18, 19, 20, 21)},
 "C32": dict(harness="container.cpp", assumptions=COMMON),
 **{"C%02d" % n: dict(harness="lines.cpp", defines=["PROP=%d" % n], assumptions=COMMON) for n in (25, 26, 27, 28, 29)},
 **{"C%02d" % n: dict(harness="recog.cpp", defines=["PROP=%d" % n], assumptions=COMMON) for n in (22, 23)},
 **{"C%02d" % n: dict(harness="recog.cpp", defines=["PROP=%d" % n], assumptions=COMMON,
                       mains=[("ocr2_extract_text.cpp", "_Z22main_ocr2_extract_textiPPc")]) for n in (24, 31)},
 "C33": dict(harness="faults.cpp", assumptions=COMMON + ["files are read through the read system call of the C library, standard output through std::cout"],
             mains=[("normalize_glyphs.cpp", "_Z21main_normalize_glyphsiPPc"), ("write_glyphs.cpp", "_Z17main_write_glyphsiPPc"), ("write_datas.cpp", "_Z16main_write_datasiPPc"),
                    ("make_trie_dictionary.cpp", "_Z25main_make_trie_dictionaryiPPc"), ("show_glyphs.cpp", "_Z16main_show_glyphsiPPc"), ("ocr2_extract_text.cpp", "_Z22main_ocr2_extract_textiPPc")]),
 "C34": dict(harness="show.cpp", assumptions=COMMON, mains=[("show_glyphs.cpp", "_Z16main_show_glyphsiPPc")]),
 "C35": dict(harness="script.cpp", assumptions=COMMON + ["bash and the core utilities do what they document"],
             mains=[("normalize_glyphs.cpp", "_Z21main_normalize_glyphsiPPc"), ("write_glyphs.cpp", "_Z17main_write_glyphsiPPc"), ("write_datas.cpp", "_Z16main_write_datasiPPc")]),
 "C36": dict(harness="args.cpp", assumptions=COMMON,
             mains=[("normalize_glyphs.cpp", "_Z21main_normalize_glyphsiPPc"), ("write_glyphs.cpp", "_Z17main_write_glyphsiPPc"), ("write_datas.cpp", "_Z16main_write_datasiPPc"),
                    ("make_trie_dictionary.cpp", "_Z25main_make_trie_dictionaryiPPc"), ("show_glyphs.cpp", "_Z16main_show_glyphsiPPc"), ("ocr2_extract_text.cpp", "_Z22main_ocr2_extract_textiPPc")]),
 "C37": dict(harness="cutglyphs.cpp", assumptions=COMMON, mains=[("normalize_glyphs.cpp", "_Z21main_normalize_glyphsiPPc"), ("write_datas.cpp", "_Z16main_write_datasiPPc")]),
 "C30": dict(harness="damage.cpp", assumptions=COMMON, mains=[("ocr2_extract_text.cpp", "_Z22main_ocr2_extract_textiPPc")]),
}

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for ids, titles and statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

p("C01", "PNM decoding is pixel-exact for every supported format",
  "Loading any well-formed ASCII (P1, or P3 with one 0/1 digit per pixel), packed bitmap (P4) or RGB (P6) file yields an image with exactly the dimensions in the header and exactly the letter/background classification of every pixel (a set P4 bit or an ASCII '0' is background; a P6 pixel is background when its luminance, weighted 511/396/117 over 1024 per channel with each product rounded by +511 and shifted, is below the given threshold), whatever the width (including widths that are not multiples of 8), the header comments or the threshold. A valid file is never rejected, however small.",
  ["inputs"], "all image contents, sizes, bit paddings, header comment layouts and luminance thresholds",
  "TestImage loads three fixed files; widths, padding bits, thresholds and tiny files are never varied.",
  ["src/ppocr/image/image_from_file.cpp"],
  [("header parser, luminance conversion and bit unpacking", "src/ppocr/image/image_from_file.cpp")], ["image_from_file"])
p("C02", "Malformed or truncated images are rejected, never guessed",
  "For every byte string offered as an image file the loader either returns an image whose every pixel is determined by the file's bytes, or reports an error; a file with missing or surplus pixel data, an unsupported magic, a broken header or an impossible size is always an error. No input makes the loader read outside the file, return indeterminate pixels or hang.",
  ["inputs"], "all prefixes, single-byte corruptions and header mutations of valid files, and all short byte strings over the header alphabet",
  "No test feeds a malformed file.",
  ["src/ppocr/image/image_from_file.cpp"],
  [("length checks and exceptions", "src/ppocr/image/image_from_file.cpp")], ["image_from_file"])
p("C03", "Image loading is correct under every I/O outcome",
  "Whatever the operating system answers while an image file is opened, sized and read (short reads, interruptions, errors, a file that turns out shorter than announced), loading either produces exactly the image the full file encodes or reports an error; a file that is merely delivered in pieces (short reads only) is always loaded, and a failing open, size query or read (input/output error) is always reported. The file descriptor opened for the image is closed exactly once in every outcome, and loading always terminates.",
  ["fault_sequences", "inputs"], "all sequences of read sizes, EINTR and error answers within the deviation bound, for each format",
  "Tests only see the happy path of a local regular file.",
  ["src/ppocr/image/image_from_file.cpp"],
  [("read loop with EINTR handling and descriptor guard", "src/ppocr/image/image_from_file.cpp")], ["open/fstat/read/close"])
p("C04", "Segmentation covers every letter pixel with ordered tight boxes",
  "Repeatedly extracting the next character box of a line image, from column 0 and then from the right edge of the previous box, terminates and yields non-empty boxes inside the image, strictly left to right and non-overlapping in columns. Every letter pixel of the image lies in exactly one box, and each box is tight: its first column and its first and last row contain a letter pixel of that box. An image without letter pixels yields no box.",
  ["inputs", "histories"], "all images up to the size bound and the full extraction loop over each",
  "TestMakeBoxCharacter runs one picture.",
  ["src/ppocr/box_char/make_box_character.cpp", "src/ppocr/box_char/box.hpp"],
  [("box scan", "src/ppocr/box_char/make_box_character.cpp")], ["make_box_character"])
p("C05", "Characters are cut exactly at disconnected columns",
  "Two horizontally consecutive columns of a character box belong to the same box exactly when a letter pixel of the left column touches (directly or diagonally) a letter pixel of the right column; the first column pair that does not touch ends the box. Consequently shifting a line image vertically or adding blank columns or rows around it never changes the extracted characters.",
  ["inputs"], "all images up to the size bound, plus parametric tall/wide families",
  "The single sample picture exercises only a few touching configurations.",
  ["src/ppocr/box_char/make_box_character.cpp"],
  [("column separation test", "src/ppocr/box_char/make_box_character.cpp")], ["make_box_character"])
p("C06", "Image operations are exact and leave their source unchanged",
  "Cropping returns exactly the addressed pixels, quarter rotation is counter-clockwise and four rotations are the identity, cloning gives an independent equal image, equality means same size and pixels, and the image comparison is a strict total order (size first, then pixels) that is consistent with equality. None of these operations alters its operands.",
  ["inputs"], "all images up to the size bound, all sub-rectangles and all image pairs/triples",
  "TestImage compares a handful of literal pictures.",
  ["src/ppocr/image/image.cpp", "src/ppocr/image/image.hpp", "src/ppocr/utils/image_compare.cpp"],
  [("section, rotate90, clone, operator==", "src/ppocr/image/image.cpp"), ("image_compare", "src/ppocr/utils/image_compare.cpp")], ["Image API"])
p("C07", "Direction and gravity features equal their definition",
  "For every character image (fewer than 2^31 pixels) the horizontal and diagonal direction and gravity features equal 100 times the normalised balance of (distance-weighted for gravity) letter pixels between the upper and lower halves (the middle row of an odd height ignored; the diagonal variants counting only the two triangles that narrow towards the middle), relative to the pixel total for the first form and to the maximal area for the second, with the documented neutral value when there is nothing to weigh. The result always lies in the feature's declared range, and a picture mirrored top to bottom gives the mirrored balance.",
  ["inputs"], "all images up to the size bound, all shapes of a larger parametric family, and every glyph of the shipped resources",
  "Each strategy test checks one or two literal pictures; the dv* strategies have no test at all.",
  ["src/ppocr/strategies/hdirection.cpp", "src/ppocr/strategies/hgravity.cpp", "src/ppocr/strategies/dvdirection.cpp", "src/ppocr/strategies/dvgravity2.cpp", "src/ppocr/strategies/utils"],
  [("top/bottom accumulators", "src/ppocr/strategies/utils/*.hpp")], ["strategy load functions"])
p("C08", "Density, bar and proportion features equal their definition",
  "For every character image (fewer than 2^31 pixels), density is the integer percentage of letter pixels, diagonal-zone density is the percentage within the diagonal band (0 for images narrower or lower than 3), the bar count is the number of maximal groups of fully inked rows, and proportionality is 100*width/(width+height). Each result lies in its declared range.",
  ["inputs"], "all images up to the size bound, all shapes of a larger parametric family, and every glyph of the shipped resources",
  "Density and dzdensity have no test; hbar and proportionality are tested on single pictures.",
  ["src/ppocr/strategies/density.cpp", "src/ppocr/strategies/dzdensity.cpp", "src/ppocr/strategies/hbar.cpp", "src/ppocr/strategies/proportionality.cpp"],
  [("strategy load", "src/ppocr/strategies/*.cpp")], ["strategy load functions"])
p("C09", "Alternation features equal their definition",
  "For every character image the seven alternation features report, for the documented line or band (two horizontal lines, top and bottom third, the middle column, left and right third), whether the first position holds ink and the number of ink/background runs along it. The value depends only on the picture.",
  ["inputs"], "all images up to the size bound, all shapes of a larger parametric family, and every glyph of the shipped resources",
  "TestAlternation has one picture; degenerate sizes and band boundaries are not reached.",
  ["src/ppocr/strategies/alternations.cpp", "src/ppocr/image/image.hpp"],
  [("horizontal range scan with any-pixel bands", "src/ppocr/image/image.hpp")], ["strategy load functions"])
p("C10", "Background-zone features equal the connected components",
  "For every character image the zone features are computed from the true 4-connected background components: corner ink flags, number of distinct components touching each of the four sides, and number of enclosed components. The zone proportions are, for each component touching a border, the integer percentage of its contact length (taken on the first touched side in top, right, bottom, left order) in the total, in ascending order.",
  ["inputs"], "all images up to the size bound, all shapes of a larger parametric family, and every glyph of the shipped resources",
  "TestZone and TestProportionalityZone check a few literal pictures.",
  ["src/ppocr/strategies/zone.cpp", "src/ppocr/strategies/proportionality_zone.cpp", "src/ppocr/strategies/utils/count_zone.hpp"],
  [("flood fill", "src/ppocr/strategies/utils/count_zone.hpp")], ["strategy load functions"])
p("C11", "Feature similarity is exact and bounded",
  "For every pair of feature values that images can produce, similarity is always a number in [0,1], equals 1 when the values are equal, never crashes, and equals the documented measure: 1 minus distance over range for scalar features, share of equal positions for vector features, equality for bar counts, and for zone proportions one minus the deviation from 50 (doubled and rounded to integer percents) of the mean of the pairwise shares a/(a+b), 0 when their numbers differ. The range predicate used to narrow the search on a scalar feature selects for removal exactly the stored values that differ from the searched one by more than the given number of units; the threshold predicate of a vector feature holds exactly when the similarity percentage reaches the threshold.",
  ["inputs"], "all pairs of values in the scalar ranges, all pairs of short vectors, all pairs of values produced by images up to the size bound",
  "Tests check compute() on a few value pairs only.",
  ["src/ppocr/strategies/relationship", "src/ppocr/strategies/proportionality_zone.cpp", "src/ppocr/strategies/utils/relationship.hpp"],
  [("relationship types", "src/ppocr/strategies/relationship/*.hpp")], ["relationship compute/dist/in_dist"])
p("C12", "Feature extraction is independent of what was processed before",
  "Extracting the features of a character gives the same result whether the extractor is fresh or has processed any sequence of other characters, in any order and of any sizes, and each added character leaves the already stored features unchanged. Work buffers reused between characters never leak pixels or features from one character into another.",
  ["histories", "inputs"], "all sequences of images up to the depth bound over an alphabet with growing, shrinking and equal sizes",
  "TestLoader2 loads two images into a two-strategy database.",
  ["src/ppocr/loader2/datas_loader.hpp", "src/ppocr/ocr2/image_context.hpp", "src/ppocr/strategies/utils/context.hpp", "src/ppocr/strategies/utils/count_zone.hpp"],
  [("context reset and buffer reuse", "src/ppocr/strategies/utils/context.hpp")], ["Datas::load, ImageContext"])
p("C13", "The feature database survives a save and reload unchanged",
  "Writing the feature database of any sequence of characters and reading it back gives a database with the same number of entries and identical feature values for every entry and every feature, so recognition with the reloaded file behaves as with the original. Writing the reloaded database again gives the same bytes.",
  ["inputs", "histories"], "all sequences of small images up to the depth bound and every shipped data file",
  "TestLoader2 round-trips two entries of two strategies.",
  ["src/ppocr/loader2/datas_loader.hpp", "src/ppocr/defined_loader.hpp", "src/ppocr/utils/enum_io.hpp"],
  [("operator<< / operator>>", "src/ppocr/loader2/datas_loader.hpp")], ["data file"])
p("C14", "The glyph database survives a save and reload, for every reader",
  "Writing any list of glyphs (image plus any number of word/font/position views) and reading it back gives the same glyphs in the same order, and the learning tools' reader and the recogniser's reader see the same words and fonts in the same file. A syntactically broken glyph file is reported through the stream state instead of being silently read as something else.",
  ["inputs"], "all glyph lists up to the bound over an alphabet of images, words, fonts and view counts; all truncations of a file",
  "TestGlyphLoader reads one small literal.",
  ["src/ppocr/loader2/glyphs_loader.cpp", "src/ppocr/loader2/image_io.cpp", "src/ppocr/ocr2/glyphs.cpp"],
  [("stream operators", "src/ppocr/loader2/glyphs_loader.cpp"), ("recogniser reader", "src/ppocr/ocr2/glyphs.cpp")], ["glyph file"])
p("C15", "Words of loaded glyphs are kept exactly",
  "After loading a glyph database into the recogniser, every view gives back exactly the word and font identity it had in the file, whatever the number and lengths of the words. Looking a word up succeeds exactly when some view has exactly that word, and then designates that word.",
  ["inputs"], "all small sets of words over lengths 1..9 (all residues of the storage unit), including words that are prefixes of one another",
  "No test loads the recogniser's glyph table except through two one-letter words.",
  ["src/ppocr/ocr2/glyphs.cpp", "src/ppocr/ocr2/glyphs.hpp"],
  [("interned word table", "src/ppocr/ocr2/glyphs.cpp")], ["get_word, word_index_of, get_font"])
p("C16", "Glyph normalisation merges duplicates and loses nothing",
  "Normalising one or several glyph files (as the learning tools write them: each glyph's views sorted and distinct) outputs each distinct image exactly once, in comparison order, carrying exactly the sorted set of distinct views that any input occurrence of that image had. No image or view is invented or lost, the result does not depend on the order of inputs, and normalising a normalised file changes nothing.",
  ["inputs"], "all glyph multisets up to the bound, split over files in every way",
  "The normalisation tool has no test.",
  ["main/normalize_glyphs.cpp", "src/ppocr/utils/image_compare.cpp", "src/ppocr/loader2/glyphs_loader.cpp"],
  [("sort and merge", "main/normalize_glyphs.cpp")], ["normalize_glyphs"])
p("C17", "Learning keeps glyphs and features aligned",
  "The learning chain labels the n-th character box of a training picture with the n-th word of its text file and fails loudly when their numbers differ; the feature file then has exactly one entry per normalised glyph, in the same order, equal to the features of that glyph's picture. Running the chain on the same inputs always reproduces the same files, including the shipped resource files.",
  ["inputs", "histories"], "all small line pictures crossed with all text lists, run through the real tools; the shipped glyph/data pairs",
  "No test runs the learning tools.",
  ["main/write_glyphs.cpp", "main/normalize_glyphs.cpp", "main/write_datas.cpp", "learning", "resources"],
  [("write_glyphs/normalize_glyphs/write_datas", "main")], ["tool outputs"])
p("C18", "Dictionary lookup accepts exactly the listed words",
  "For every word list, the dictionary accepts a text exactly when it is one of the listed words: prefixes, extensions and unrelated words are refused, duplicates and order do not matter, and building it never changes the outcome for other words. An empty dictionary accepts nothing, and blank entries do no harm.",
  ["inputs"], "all word sets over a small alphabet with all queries up to one letter longer than the longest word",
  "TestDictionary and TestTrie use one fixed list each.",
  ["src/ppocr/spell/dictionary.cpp", "src/ppocr/container/trie.hpp"],
  [("trie construction and flattening", "src/ppocr/container/trie.hpp")], ["Dictionary"])
p("C19", "A saved dictionary equals its word lists",
  "A dictionary file written by the dictionary tool and loaded again accepts exactly the words of all the input files, in whatever number, order and overlap the files are given. Saving a reloaded dictionary reproduces the same file.",
  ["inputs"], "all distributions of small word sets over one to three files, with and without final newline and blank lines",
  "TestDictionary round-trips one list; the tool is never run.",
  ["main/make_trie_dictionary.cpp", "src/ppocr/spell/dictionary.cpp", "src/ppocr/container/trie.hpp"],
  [("operator<< / operator>>", "src/ppocr/spell/dictionary.cpp")], ["make_trie_dictionary"])
p("C20", "Text is processed by whole UTF-8 characters, safely",
  "Wherever words are decoded, every valid UTF-8 string is split into exactly its code points (one to four bytes) and re-encoded to exactly its bytes. A truncated sequence or a stray continuation byte ends the text at that point, and no byte string causes a read outside the string.",
  ["inputs"], "every code point, all pairs over the encoding-length boundaries, and all byte strings up to length 4 over a covering byte alphabet",
  "Tests use ASCII and a few Cyrillic letters.",
  ["src/ppocr/utils/utf.hpp"],
  [("code point iterators", "src/ppocr/utils/utf.hpp")], ["word decoding"])
p("C21", "Dictionary-guided reading finds a consistent word exactly when one exists",
  "Given the candidate texts of each position of a word (candidates may have several characters), the dictionary-guided reader succeeds exactly when some dictionary word can be spelled by choosing one candidate per position, and then appends exactly one such word: the first in candidate preference order. Otherwise it appends nothing; an empty candidate list or dictionary never succeeds.",
  ["inputs"], "all small dictionaries crossed with all candidate matrices up to the bound",
  "TestWordDisambiguouser uses one dictionary and a few matrices, with single-letter last candidates.",
  ["src/ppocr/spell/word_disambiguouser.hpp"],
  [("trie walk over candidates", "src/ppocr/spell/word_disambiguouser.hpp")], ["WordDisambiguouser"])
p("C22", "Candidate search equals exhaustive comparison with the database",
  "For every database and character image, the candidates returned are exactly those that comparing the image with every database entry would give: an image present in the database is recognised as the words of the entries with identical scoring features, otherwise candidates are the entries passing every range and exclusion rule, ranked by the product of similarities and cut at the documented fraction of the best. Pre-sorting and universe reduction never lose or add a candidate.",
  ["inputs"], "all databases up to the bound over an image alphabet crossed with all query images, plus the shipped database queried with its own glyphs",
  "TestComputeImage uses a database of two glyphs and one strategy.",
  ["src/ppocr/ocr2/compute_image.hpp", "src/ppocr/ocr2/reduce_universe.hpp", "src/ppocr/ocr2/data_indexes_ordered.hpp", "src/ppocr/ocr2/sort_probabilities.hpp", "src/ppocr/ocr2/insert_views.hpp"],
  [("universe reduction pipeline", "src/ppocr/ocr2/compute_image.hpp")], ["compute_image"])
p("C23", "Glyphs are grouped by identical word lists and by first word",
  "Two glyphs are treated as the same candidate exactly when their views list the same words, and as rivals of the same word exactly when their first words are equal, for every database and every order of its entries. Reordering the database never changes these groupings.",
  ["inputs"], "all glyph tables up to the bound over an alphabet of view lists, in every order",
  "No test covers the grouping.",
  ["src/ppocr/ocr2/views_index_ordered.hpp", "src/ppocr/ocr2/data_indexes_by_words.cpp"],
  [("id assignment over sorted indexes", "src/ppocr/ocr2/views_index_ordered.hpp")], ["get_views_indexes_ordered, DataIndexesByWords"])
p("C24", "Recognition of a character does not depend on earlier characters",
  "Recognising a character gives the same candidates in the same order whether it is the first one or follows any sequence of other characters through the same recogniser state (probability tables, image and feature contexts, result cache).",
  ["histories"], "all query sequences up to the depth bound over an alphabet of present, near and unknown images",
  "TestComputeImage performs isolated queries only.",
  ["src/ppocr/ocr2/compute_image.hpp", "src/ppocr/ocr2/probabilities.hpp", "src/ppocr/ocr2/image_context.hpp", "src/ppocr/ocr2/cache.hpp"],
  [("reused probabilities and contexts", "src/ppocr/ocr2/probabilities.hpp")], ["compute_image"])
p("C25", "Line filtering removes exactly the contradicted candidates",
  "When the line's baseline or mean line can be inferred from the boxes, the filter keeps, at each position with candidates of several words, exactly the candidates whose declared class is compatible with the box's edge relative to that line (above it, on it within one pixel, or below it; a combined class accepts what either class accepts; an unspecified class accepts everything), in their original order; positions with candidates of a single word are left alone and a position where every candidate is contradicted becomes empty. It never reorders, duplicates or invents candidates, and never touches memory outside the boxes' range, whatever the number, order and sizes of boxes.",
  ["inputs"], "all candidate matrices over the line classes crossed with all box layouts up to the bound",
  "No test covers filtering.",
  ["src/ppocr/ocr2/filter_by_lines.cpp", "src/ppocr/ocr2/words_infos.hpp", "src/ppocr/ocr2/word_lines.cpp"],
  [("baseline/meanline vote and per-group filter", "src/ppocr/ocr2/filter_by_lines.cpp")], ["filter_by_lines"])
p("C26", "Font filtering keeps one candidate per position consistently",
  "When a dominant font can be inferred from the unambiguous positions, every ambiguous position keeps exactly one candidate: the first of that font, else its first candidate; otherwise all lists are left as they are. The dominant font is the most frequent one among unambiguous positions (of equally frequent ones, the one that comes first in the glyph database), and it applies when it is the only one or covers at least half (rounded down) of all positions; unambiguous and empty positions never change.",
  ["inputs"], "all candidate matrices over small font alphabets up to the bound",
  "No test covers filtering.",
  ["src/ppocr/ocr2/filter_by_font.cpp"],
  [("font vote", "src/ppocr/ocr2/filter_by_font.cpp")], ["filter_by_font"])
p("C27", "Output text reflects every position, word break and dictionary choice",
  "The assembled text contains, in order, one piece per character position: the first candidate, or the dictionary's choice when the candidates of a punctuation-free run can spell a dictionary word, or '?' when the position has no candidate, with exactly one space at each word break between positions and none at the margins. The returned number of unrecognised characters equals the number of positions without candidates.",
  ["inputs"], "all candidate matrices, space positions and small dictionaries up to the bound",
  "Covered by no test that runs (the end-to-end target lacks its data file).",
  ["src/ppocr/ocr2/disambiguous_with_dict.cpp"],
  [("word-wise assembly", "src/ppocr/ocr2/disambiguous_with_dict.cpp")], ["disambiguous_with_dict"])
p("C28", "Replacement rules rewrite exactly their occurrences and terminate",
  "Applying a replacement rule rewrites every non-overlapping left-to-right occurrence of its pattern in the text and nothing else, and always terminates, even when the replacement contains the pattern. A rule file is read as exactly the rules it lists, the last line counting with or without final newline.",
  ["inputs"], "all texts, patterns and replacements over a two-letter alphabet up to the bound; all rule files of up to three lines",
  "No test covers replacements.",
  ["src/ppocr/ocr2/replacement.hpp", "src/ppocr/ocr2/replacement.cpp"],
  [("replace loop and rule reader", "src/ppocr/ocr2/replacement.hpp")], ["replace_words"])
p("C29", "Word line classes are looked up exactly",
  "For every word-lines file, each glyph view receives exactly the four line classes that the file lists for that very word (words of up to eight bytes), and none when it is not listed, regardless of the order of entries or of similar words. A malformed entry ends the reading without inventing classes, and a file that is malformed before its end is reported.",
  ["inputs"], "all small word-lines tables crossed with all small glyph word sets, every order; all truncations",
  "No test covers word lines.",
  ["src/ppocr/ocr2/word_lines.cpp", "src/ppocr/ocr2/words_infos.hpp", "src/ppocr/ocr2/word_lines.hpp"],
  [("sorted lookup", "src/ppocr/ocr2/words_infos.hpp")], ["WordsInfos"])
p("C30", "Truncated or damaged knowledge files are refused, not guessed",
  "Loading a feature, dictionary, glyph or word-lines file that was cut off anywhere before its last value, or whose counts or offsets are inconsistent, is reported as an error or yields exactly the complete leading entries of the file. It never leads to out-of-range accesses in later use, nor to silently invented features, views or words.",
  ["crash_points", "inputs"], "every truncation point of valid files and every single-field corruption of the index structure",
  "Tests only read intact data.",
  ["src/ppocr/loader2/datas_loader.hpp", "src/ppocr/spell/dictionary.cpp", "src/ppocr/container/trie.hpp", "src/ppocr/utils/read_file.hpp"],
  [("stream state checks", "src/ppocr/utils/read_file.hpp")], ["load_from_file, read_file"])
p("C31", "Line extraction reports what it recognised, end to end",
  "Running the recogniser on a line image prints the text assembled from all character boxes with a space wherever the gap exceeds four pixels, the number of characters, the number of unrecognised ones and their percentage. Each character is judged by its own picture and position: characters with the same picture at different heights do not influence one another, and repeating or reordering characters does not change how each is read.",
  ["inputs", "histories"], "all sequences of glyphs from a small alphabet with all gap widths and vertical placements up to the bound",
  "The only end-to-end target cannot run (missing data file).",
  ["main/ocr2_extract_text.cpp", "src/ppocr/ocr2/cache.hpp", "src/ppocr/ocr2/ambiguous.hpp"],
  [("main loop, image cache and candidate references", "main/ocr2_extract_text.cpp")], ["ocr2_extract_text"])
p("C32", "Container and reindexing primitives match their contracts",
  "The prefix tree returns for any inserted sequence set exactly its members, with terminal flags and sorted children, before and after flattening; reordering a sequence by an index list produces exactly the permuted sequence for every permutation and leaves nothing lost or duplicated.",
  ["inputs", "histories"], "all insertion sequences up to the depth bound over a small alphabet; all permutations up to length 7",
  "TestTrie and TestReindex use one example each.",
  ["src/ppocr/container/trie.hpp", "src/ppocr/utils/reindex.hpp"],
  [("trie insertion/flattening", "src/ppocr/container/trie.hpp"), ("cycle-following reindex", "src/ppocr/utils/reindex.hpp")], ["trie API, reindex"])

p("C33", "No tool reports success after an input, output or memory failure",
  "Whatever fails while one of the tools runs - the standard output that accepts only a part of the bytes, an input file that is missing, unreadable or fails at any byte, file descriptors or memory that run out at any request - the tool ends in a controlled way, and its exit status is success only if it has written, completely, exactly what it writes without the failure. Reads that return less than asked for are not failures.",
  ["inputs", "crash_points", "fault_sequences"], "every fault point: every number of bytes the output accepts, every offset of every input, every memory request",
  "No test injects a failure, and no test runs a tool.",
  ["main/write_glyphs.cpp", "main/normalize_glyphs.cpp", "main/write_datas.cpp", "main/make_trie_dictionary.cpp", "main/show_glyphs.cpp", "main/ocr2_extract_text.cpp", "src/ppocr/utils/read_file.hpp", "src/ppocr/image/image_from_file.cpp"],
  [("end of each main: output flushed and checked", "main"), ("reading loops", "main")], ["exit status and output of the tools"])
p("C34", "show_glyphs shows every character exactly",
  "For any list of valid pictures, show_glyphs prints for every character box of every picture, in order, its pixels row by row ('x' letter, '-' background) in a frame of colons followed by an empty line, and nothing else; -l selects the luminance below which a pixel of a grey or colour picture is background, 128 without it. An unusable picture and a luminance that is no number are reported by a non-zero status or an exception.",
  ["inputs"], "all small pictures and lists of them, every grey level against thresholds, sizes around every power of two and ten",
  "No test runs the tool.",
  ["main/show_glyphs.cpp", "src/ppocr/image/image.cpp", "src/ppocr/box_char/make_box_character.cpp"],
  [("drawing of an image", "src/ppocr/image/image.cpp"), ("tool loop", "main/show_glyphs.cpp")], ["show_glyphs"])
p("C35", "The learning script rebuilds all databases and survives interruption",
  "Started from any directory with any way of naming the tools, the learning script writes the glyph and feature databases of latin, cyrillic and both from all training pictures below resources/fonts, exactly as the chain of the tools gives them, changes nothing else and leaves no temporary file. If any call of a tool fails, it ends with a non-zero status; after any failed call, damaged training file or interruption, starting it again on the good tree gives exactly the same databases.",
  ["inputs", "crash_points", "fault_sequences"], "every call of a tool as the point of failure or interruption, followed by a second run; every kind of damaged training file",
  "No test runs the script.",
  ["learning", "main/write_glyphs.cpp", "main/normalize_glyphs.cpp", "main/write_datas.cpp"],
  [("script", "learning")], ["learning"])
p("C36", "The arguments of a tool are carried out in order and completely, or refused",
  "For every list of arguments, each of the six tools either does exactly what its usage line says for these arguments - the option, if it is first, then every file in the given order with nothing skipped, repeated or read beyond the list - or ends with a non-zero status or an exception; a list that does not fit the usage line produces no output. The number given with -l is the number used: one that is not a decimal number is refused, one too large is refused or is above every luminance.",
  ["inputs"], "every argument list up to length 5 over an alphabet of options, numbers and fitting, unfitting and missing files; files whose names resemble options; 40 spellings of a number; up to 300 files",
  "No test runs a tool.",
  ["main/write_glyphs.cpp", "main/normalize_glyphs.cpp", "main/write_datas.cpp", "main/make_trie_dictionary.cpp", "main/show_glyphs.cpp", "main/ocr2_extract_text.cpp"],
  [("argument handling of each main", "main")], ["command lines of the tools"])
p("C37", "Cut and damaged glyph files are refused by the learning tools",
  "For every glyph file that normalize_glyphs or write_datas is given - cut after any byte, with wrong counts or sizes, with anything missing, doubled or inserted, alone or among other files - the tool either ends with a non-zero status or an exception, or its output is exactly what the whole file says. In particular a file that ends inside a glyph, has something else where a number is due, or (for the features) contains an empty picture is never accepted, and no glyph before the damage is silently left as the whole result.",
  ["crash_points", "inputs"], "every cut and every single change of 8 small files, change and cut, all pairs of numbers, all files of at most 7 lines out of 7, cuts of files of up to 3000 glyphs or views",
  "No test runs a learning tool or reads a damaged file.",
  ["main/normalize_glyphs.cpp", "main/write_datas.cpp", "src/ppocr/loader2/glyphs_loader.cpp", "src/ppocr/loader2/image_io.cpp"],
  [("operator>>(Glyphs)", "src/ppocr/loader2/glyphs_loader.cpp"), ("main", "main/write_datas.cpp")], ["normalize_glyphs, write_datas on files"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P), "properties")

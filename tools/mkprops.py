#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
I = "include/strf/"
D = I + "detail/"
T = D + "printable_types/"
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
                  "state": state or [],
                  "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": hook}})

prop("C01", "Every destination receives exactly the same characters",
 "For any argument list, the characters delivered are the concatenation of the individual arguments' representations, in order, and they are the same for every kind of destination (string, string appender, char range, NUL-terminated range, FILE*, streambuf, user-defined buffer of any legal size, discarder) whenever it has room. Nothing is lost, duplicated, reordered or altered at a buffer boundary.",
 ["inputs", "configurations"], "all argument lists x all destinations x all alignments of the text with respect to the destination's buffer boundaries",
 "Tests print one expression to a handful of destinations; where a buffer boundary falls relative to each printer's internal steps is sampled at a few sizes only.",
 [I+"destination.hpp", I+"to_string.hpp", I+"to_cfile.hpp", I+"to_streambuf.hpp", I+"output_buffer_functions.hpp", D+"printers_tuple.hpp", D+"separate_args_and_print.hpp", D+"printing_syntax.hpp" if False else I+"printing_syntax.hpp"],
 [("output_buffer::write / do_write / recycle contract", I+"destination.hpp"), ("write_fill, output_buffer_interchar_copy", I+"output_buffer_functions.hpp"), ("print_printers", D+"printers_tuple.hpp")],
 ["contents of the finished string / range / stream"])

prop("C02", "Output buffer call histories deliver each unit once, in order",
 "For any history of put, write, bulk write, fill, ensure, advance, flush, recycle, iterator writes and finish on any output buffer, the sequence of units delivered downstream is exactly the sequence of units accepted while the buffer was good, and room for at least the requested space is available after each ensure or recycle. Once an output buffer becomes bad it stays bad, and later writes neither crash nor change what was delivered.",
 ["histories", "configurations"], "all call histories over the public output_buffer interface, all buffer fill levels, all destinations",
 "output_buffer.cpp exercises a few hand-written call sequences; interleavings of put/write/flush around the buffer end and after failure are not covered.",
 [I+"destination.hpp", I+"to_string.hpp", I+"iterator.hpp", I+"output_buffer_functions.hpp"],
 [("output_buffer::put/write/ensure/flush/advance_to", I+"destination.hpp"), ("string_maker/string_appender/sized_string_maker recycle", I+"to_string.hpp"), ("output_buffer_iterator", I+"iterator.hpp")],
 ["finish() result, good(), buffer_space(), sink contents"],
 [{"name": "good", "meaning": "destination still accepts output", "where": I+"destination.hpp"}, {"name": "buffer pointer/end", "meaning": "window that may be written", "where": I+"destination.hpp"}])

prop("C03", "Bounded char destinations truncate safely",
 "Printing to a fixed-size range never touches memory outside it; what it holds afterwards, up to the result's pointer, is a prefix of the full output (all of it if it fits; for NUL-terminated ranges at most size-1 characters, always followed by a terminating NUL), and writing a string that does not fit stores all of it that fits. `truncated` is reported if and only if the full output did not fit, and operations after truncation change nothing.",
 ["inputs", "configurations", "histories"], "all argument lists and write histories x all range sizes from the minimum up",
 "cstr_destination.cpp tests a dozen size/content pairs; truncation inside each different printer and repeated writes after truncation are not reached.",
 [I+"destination.hpp"], [("basic_cstr_destination::recycle/do_write/finish", I+"destination.hpp"), ("array_destination::recycle/do_write/finish", I+"destination.hpp"), ("garbage_buff", I+"destination.hpp")],
 ["bytes of the range and around it, result.ptr, result.truncated"])

prop("C04", "A failing sink yields a delivered prefix and an honest result",
 "Whatever the points at which an underlying FILE* or streambuf accepts fewer characters than offered, what it received is a prefix of the output, `count` is the number of characters it accepted and `success` is true if and only if it accepted all of them. After the first short write nothing more is sent.",
 ["fault_sequences", "histories", "inputs"], "all positions of short writes / failures x all write histories and argument lists",
 "cfile_writer.cpp and streambuf_writer.cpp inject one failure position each; the position of the short write inside the internal buffering logic is what matters.",
 [I+"to_cfile.hpp", I+"to_streambuf.hpp"], [("basic_cfile_writer / narrow_cfile_writer recycle, do_write, finish", I+"to_cfile.hpp"), ("basic_streambuf_writer recycle, do_write, finish", I+"to_streambuf.hpp")],
 ["sink contents, result.count, result.success, good()"])

prop("C05", "Reserve policy never changes output; precalculated size is exact",
 "The text produced is identical under no_reserve, reserve(n) for any n, and reserve_calc, and with or without a trailing newline call. The size computed in advance for UTF output equals the number of units then written (never less), and the width computed in advance equals the width of the text written.",
 ["inputs", "configurations"], "all argument lists x all reserve policies x all size/width premeasurement modes",
 "The test macro compares one reserve_calc size per tested expression; size and width code is separate from the writing code in every printer, so agreement has to hold for every combination of format options and values.",
 [D+"reserve_policies.hpp" if False else D+"reserve_policies.hpp", D+"premeasurements.hpp", I+"measure.hpp", T+"int.hpp", T+"float.hpp", T+"string.hpp", T+"range.hpp", T+"join.hpp"],
 [("premeasure<...>", I+"measure.hpp"), ("reserve_calc / reserve_given_space", D+"reserve_policies.hpp"), ("make_printer(pre, ...) per type", T)],
 ["premeasurements::accumulated_size()/accumulated_width(), printed text"])

prop("C06", "UTF transcoding yields the correct code points",
 "For every input, valid or not, transcoding between UTF-8, UTF-16 and UTF-32 in any direction produces the encoding of the input's code points, with each maximal invalid subsequence replaced by exactly one U+FFFD. Surrogate code points count as invalid unless the lax surrogate policy is given.",
 ["inputs", "configurations"], "all code unit sequences x all ordered encoding pairs x all flag combinations",
 "utf*_to_*.cpp list some dozens of sequences per pair; nine hand-written loops each for writing, sizing (stop / continue) and unsafe variants contain independent copies of the decoding rules.",
 [D+"utf.hpp", D+"facets/charset.hpp"], [("static_transcoder<Src,Dst,utfX,utfY>::transcode", D+"utf.hpp"), ("utf8_decode, is_surrogate, first_2_of_3_are_valid", D+"utf.hpp")],
 ["destination contents and result of transcode"])

prop("C07", "Transcoding stops at the documented point and can be resumed",
 "With any output limit, transcoding writes the longest prefix of whole encoded code points that fits, reports the documented stop reason (insufficient space only when something remains to be written), and returns a source position from which calling again continues to produce exactly the full result. transcode_size with the same limit returns the same size, source position and stop reason, without writing.",
 ["inputs", "histories", "configurations"], "all inputs x all output limits x all flags x all encoding pairs, and all sequences of resumptions",
 "transcode.cpp checks a few limits; each pair has separate code for size calculation and for limits, so stop points must be compared for every limit.",
 [D+"utf.hpp", D+"single_byte_charsets.hpp", D+"facets/charset.hpp"], [("transcode_size / transcode_size_stop_on_inv_seq_", D+"utf.hpp"), ("STRF_UTF_CHECK_DST", D+"utf.hpp"), ("transcode(…destination…)", D+"facets/charset.hpp")],
 ["transcode_result, transcode_size_result"])

prop("C08", "The error notifier hears each transcoding error exactly once, in order",
 "During a transcoding that runs to the end, the notifier receives one invalid_sequence call per maximal invalid subsequence, with the exact position, length, unit size and source charset name, and one unsupported_codepoint call per code point the destination charset lacks (never for U+FFFD), with that code point and the destination charset name, in input order. With the stop flags, the transcoding stops at the first such error with the corresponding stop reason after reporting it.",
 ["inputs", "configurations"], "all inputs x all charset pairs x all flags",
 "Tests check the callback on a few inputs of some pairs; position/length arguments are computed separately in every loop.",
 [D+"utf.hpp", D+"single_byte_charsets.hpp", D+"facets/charset.hpp"], [("err_notifier->invalid_sequence / unsupported_codepoint call sites", D+"utf.hpp"), ("single_byte_charset_to_utf32, utf32_to_single_byte_charset", D+"single_byte_charsets.hpp")],
 ["arguments of transcoding_error_notifier callbacks, stop_reason"])

prop("C09", "Indirect and streamed transcoding equals direct transcoding",
 "Transcoding into a destination object, transcoding through a UTF-32 pivot (decode_encode), and transcoding by string-printing give the same characters, sizes and stop reasons as one direct transcode call into sufficient space, for any pair of charsets and any placement of the destination's buffer boundaries. The stale source position plus pivot distance returned by decode_encode designates the same input position as direct transcoding.",
 ["inputs", "configurations"], "all inputs (of lengths around and beyond the pivot size) x charset pairs x destination buffer sizes x flags",
 "decode_encode tests use inputs of a few lengths; pivot-buffer and buffer-boundary coincidences are combinatorial.",
 [D+"facets/charset.hpp"], [("decode_encode (both overloads), decode_encode_size, unsafe_*", D+"facets/charset.hpp"), ("transcode overloads taking destination", D+"facets/charset.hpp"), ("find_transcoder", D+"facets/charset.hpp")],
 ["decode_encode_result fields, destination contents"])

prop("C10", "Unsafe transcoding equals safe transcoding on valid input",
 "For every valid input (surrogates included when the lax policy is set), unsafe_transcode and unsafe_transcode_size return the same output, size, source position and stop reason as their checked counterparts, for every limit and flag combination.",
 ["inputs", "configurations"], "all valid inputs x limits x flags x charset pairs",
 "unsafe_transcode.cpp samples short strings; the unsafe loops are independent code with their own boundary handling.",
 [D+"utf.hpp", D+"single_byte_charsets.hpp", D+"facets/charset.hpp"], [("unsafe_transcode, unsafe_transcode_size", D+"utf.hpp"), ("bypass_unsafe_transcode", D+"facets/charset.hpp")],
 ["transcode_result, transcode_size_result"])

prop("C11", "Single-byte charsets map bytes and code points bijectively as published",
 "Each supported single-byte charset decodes every defined byte to its published code point, rejects every undefined byte as an invalid sequence, and encodes exactly the code points of its table back to the same byte, reporting every other code point as unsupported and writing '?' in its place.",
 ["inputs", "configurations"], "all 256 bytes and all code points x all single-byte charsets",
 "single_byte_charsets.cpp checks decoding tables, but encoding of unsupported code points, gaps and size functions are sampled.",
 [D+"single_byte_charsets.hpp"], [("impl_<charset>::decode / encode / is_valid", D+"single_byte_charsets.hpp"), ("generic transcoder loops", D+"single_byte_charsets.hpp")],
 ["transcode to/from UTF-32, decode_unit, encode_char, validate"])

prop("C12", "Charset primitives agree with transcoding, statically and dynamically",
 "For every charset, validate, encoded_char_size, encode_char, encode_fill, decode_unit, replacement character and (robust and fast) code point counting agree with what transcoding to and from UTF-32 does, including the pointer returned when a maximum count is given. A dynamic_charset obtained from a charset behaves identically, and find_transcoder yields a transcoder with the meaning of the requested pair or none.",
 ["inputs", "configurations"], "all code points, all strings, all counts x all charsets in static and type-erased form",
 "encode_char.cpp, encode_fill.cpp and utf*.cpp sample code points and strings; dynamic_charset.cpp checks one charset.",
 [D+"utf.hpp", D+"single_byte_charsets.hpp", D+"facets/charset.hpp"], [("static_charset members", D+"utf.hpp"), ("dynamic_charset_data wiring in to_dynamic()", D+"utf.hpp"), ("find_transcoder_to/from", D+"utf.hpp")],
 ["return values of the charset members"])

prop("C13", "String arguments: precision, transcoding policy and alignment compose",
 "A string argument is printed as the transcoding to the destination charset of the longest prefix whose width does not exceed the precision, padded with the fill character to the requested width on the side(s) given by the alignment. This holds for every source character type and charset, whether conversion is implicit, explicit, sanitizing or unsafe, and for fill characters of any encoded length.",
 ["inputs", "configurations"], "all strings x formats (fill, width, alignment, precision, conversion policy) x charsets x width calculators",
 "input_string.cpp samples formats; six printer classes duplicate the alignment and precision logic.",
 [T+"string.hpp", D+"format_functions.hpp"], [("strcpy_printer, aligned_strcpy_printer, transcode_printer, aligned_transcode_printer, unsafe variants", T+"string.hpp")],
 ["printed text"])

prop("C14", "Integers are printed with the exact digits and layout requested",
 "For every integer value of every supported type and every combination of base, sign, blank-sign, base prefix, precision, zero-padding, letter case, punctuation, fill, width and alignment, the text is the value's exact representation in that base with the documented layout; parsing it back gives the value.",
 ["inputs", "configurations"], "all values of all integer types x all format combinations",
 "input_int.cpp samples values and formats; separate code paths exist per base, per sign and per padding mode.",
 [T+"int.hpp", D+"int_digits.hpp", D+"format_functions.hpp"], [("int_printer, punct int printers, pad0", T+"int.hpp"), ("write_int_txtdigits_backwards, count_digits", D+"int_digits.hpp")],
 ["printed text"])

prop("C15", "Digit grouping places separators exactly where the grouping says",
 "For every grouping specification and digit count, separators appear in the integral part exactly at the positions given by reading the group sizes from the least significant digit (last group repeated or ending, as specified), never before the first digit, with the numpunct's separator and decimal point encoded in the destination charset and omitted when not encodable as documented. Removing the separators yields the unpunctuated text.",
 ["inputs", "configurations"], "all grouping sequences x all digit counts x bases x separator code points x charsets",
 "numpunct.cpp and input_int.cpp test a few groupings; grouping is stored in a packed bit format with several special cases.",
 [D+"facets/numpunct.hpp", T+"int.hpp", T+"float.hpp"], [("digits_grouping, digits_grouping_iterator, digits_grouping_creator", D+"facets/numpunct.hpp"), ("write_int_with_leading_group_separators etc.", D+"int_digits.hpp")],
 ["printed text, separators_count, distribute"])

prop("C16", "Floating point values are printed with the right digits and layout",
 "For every float and double, default formatting prints the shortest decimal digits that read back to the same value (the closest of them). With a precision, the decimal notations (fixed, scientific, general) print those shortest digits rounded half to even to the number of digits that notation and precision select, padded with zeros where they run out; the hexadecimal notation prints the exact value, rounded half to even to the given number of digits. A negative precision is no precision. Sign, decimal point, exponent, trailing zeros (`operator*`), zero-padding, fill, alignment, letter case and punctuation follow the documented layout, including for zeros, infinities and NaNs; widths and premeasured sizes are those of the text printed.",
 ["inputs", "configurations"], "all floating point values x notation, precision, sign, punctuation, padding, fill and alignment combinations",
 "input_float.cpp samples values; notation selection, rounding and layout have many interacting cases.",
 [T+"float.hpp", D+"dragonbox.hpp"], [("decimal / hexadecimal float printers, round-up, exponent selection", T+"float.hpp"), ("dragonbox to_decimal", D+"dragonbox.hpp")],
 ["printed text"])

prop("C17", "Width arithmetic is exact fixed-point arithmetic with saturation",
 "width_t values behave as exact 16.16 fixed-point numbers: comparisons, addition, subtraction, multiplication, division, rounding, floor/ceil and conversions give the mathematically defined result, and the checked/saturating operations saturate instead of overflowing.",
 ["inputs"], "all pairs of width values and integers in range",
 "width_t.cpp tests some dozens of values; overflow and rounding boundaries are sampled.",
 [I+"width_t.hpp"], [("width_t operators, round, checked_* functions, compare", I+"width_t.hpp")],
 ["values returned by width_t operations"])

prop("C18", "The standard width calculator counts grapheme clusters correctly",
 "For every string in any encoding, std_width_calculator's width is the sum over extended grapheme clusters of the width of the cluster's first code point as given by the documented table, with saturation at the limit; with a limit, the position returned is the end of the longest prefix of whole clusters whose width does not exceed it. The result does not depend on the encoding the text is in nor on how many internal decoding rounds are needed.",
 ["inputs", "configurations"], "all code point sequences of any length x all limits x all source encodings",
 "std_width_calculator.cpp samples cluster rules; state must survive across internal decoding blocks at every offset.",
 [D+"facets/width_calculator.hpp", D+"ch32_width_and_gcb_prop", I+"width_t.hpp"], [("std_width_calc_func", D+"facets/width_calculator.hpp"), ("grapheme cluster state machine", D+"facets/width_calculator.hpp"), ("codepoint width/gcb property table", D+"ch32_width_and_gcb_prop")],
 ["str_width, str_width_and_pos, char_width"])

prop("C19", "Simple width calculators count units or code points exactly",
 "fast_width_calculator's width is the number of code units and width_as_fast_u32len/width_as_u32len's the number of code points, for every string, charset and limit; the position returned with a limit is the end of the longest prefix not exceeding it, and results saturate at the limit or the maximum width instead of overflowing.",
 ["inputs", "configurations"], "all strings x limits (fractional, negative, huge) x charsets",
 "width_calculator.cpp tests a few strings and limits.",
 [D+"facets/width_calculator.hpp", I+"width_t.hpp"], [("fast_width_t, width_as_fast_u32len_t, width_as_u32len_t", D+"facets/width_calculator.hpp")],
 ["str_width, str_width_and_pos, char_width"])

prop("C20", "Tr-strings substitute exactly the designated arguments",
 "For every format string, of any length and malformedness, the output is the literal text with escapes resolved, each well-formed reference replaced by the designated argument's text, comments removed, and each reference to a missing argument replaced by the replacement character and reported once to the error handler with its position. Parsing never reads outside the string, and premeasured size and width equal what is written.",
 ["inputs"], "all format strings over all characters x all argument counts",
 "tr_string.cpp lists examples; the three passes (size, width, write) each re-implement the parser.",
 [D+"tr_printer.hpp", T+"tr_string.hpp", D+"separate_args_and_print.hpp"], [("tr_string_write, tr_string_size, tr_do_premeasurements, read_uint", D+"tr_printer.hpp")],
 ["printed text, error handler callbacks"])

prop("C21", "Facets: the last applicable, innermost facet is the one used",
 "For every nesting of facet packs, `with(...)` calls and scoped argument groups, the facet used to print an argument is the last one given, in the innermost enclosing scope, whose category matches and whose constraint accepts the argument's type; otherwise the enclosing scope's or the category's default. Facets given to one scope never affect arguments outside it.",
 ["programs", "configurations"], "all nestings of packs, constraints and scopes x argument types",
 "facets_pack.cpp checks some packs at compile time; combinations of nesting, constraint and ordering are unbounded.",
 [I+"facets_pack.hpp", I+"printing_syntax.hpp", T+"facets_pack.hpp"], [("facets_pack::do_get_facet, facets_pack_base chain", I+"facets_pack.hpp"), ("constrained_fpe", I+"facets_pack.hpp"), ("printable_with_fmt for inner packs", T+"facets_pack.hpp")],
 ["printed text per argument, get_facet results"])

prop("C22", "Ranges print each element once, in order, with separators between",
 "Printing a range or separated range writes every element, in iteration order, each with the element format and active facets and optional transformation applied, with the separator exactly between consecutive elements. An empty range writes nothing.",
 ["inputs", "configurations"], "all ranges (length, element types, separators, transformations, formats)",
 "input_range.cpp tests short ranges with one format each.",
 [T+"range.hpp"], [("range_printer, separated_range_printer, transformed variants, fmt_ variants", T+"range.hpp")],
 ["printed text"])

prop("C23", "Joins align their joined content as one unit",
 "join and its aligned forms print the concatenation of their arguments padded as a single field: fill to the requested width computed from the arguments' total width, on the requested side(s), nested joins included. When the content is wider than the field nothing is truncated and no fill is written.",
 ["inputs", "configurations", "programs"], "all nestings of joins x alignments x widths x argument kinds",
 "join.cpp tests some alignments; the remaining-width bookkeeping across arguments and nesting levels is combinatorial.",
 [T+"join.hpp", D+"premeasurements.hpp"], [("aligned_join_printer, width premeasurement with remaining width", T+"join.hpp")],
 ["printed text"])

prop("C24", "Characters, booleans and pointers print as documented",
 "A character argument, repeated any number of times, prints as that many encoded copies; booleans print as true/false; pointers as their hexadecimal value; all obeying fill, width and alignment. Counts of zero print only the padding.",
 ["inputs", "configurations"], "all characters, counts, formats x destination charsets",
 "input_char*.cpp and input_bool.cpp sample a few counts and formats.",
 [T+"char.hpp", T+"bool.hpp", T+"int.hpp"], [("char_printer, char32_printer, fmt_char_printer", T+"char.hpp"), ("bool printers", T+"bool.hpp"), ("void pointer printing", T+"int.hpp")],
 ["printed text"])

prop("C25", "Locale punctuation is reproduced faithfully",
 "The numpunct returned by locale_numpunct() has the decimal point, thousands separator and grouping that the C library reports for the current locale (localeconv, and the codeset of nl_langinfo), and numbers printed with it are punctuated accordingly. Grouping sizes are taken least significant first, the last one repeats, and a CHAR_MAX (or negative) byte ends the grouping instead. A punctuation byte below 0x80 stands for itself; otherwise the first character of the string is decoded in the locale's charset (UTF-8, ISO-8859-1, -3, -15). An absent or undecodable thousands separator, or a grouping that digits_grouping cannot hold (more than 6 sizes, or a size above 31), disables grouping instead of garbling the number; in an unknown charset the separator is U+00A0; an absent or undecodable decimal point is U+FFFD.",
 ["inputs", "configurations"], "all localeconv grouping strings, punctuation strings and codesets",
 "locale.cpp has a dozen hand-picked cases and three installed locales.",
 [I+"locale.hpp", D+"facets/numpunct.hpp"],
 [("make_numpunct / digits_grouping from string", I+"locale.hpp")],
 ["numpunct accessors", "printed numbers"])

prop("C26", "Static-library build behaves as the header-only build",
 "A program compiled against the separately compiled library produces the same output, return values and callbacks as the same program compiled header-only, for every call.",
 ["configurations", "inputs"], "all calls whose implementation is moved to the separately compiled library",
 "Both builds run the same unit tests, which sample inputs; the two builds are never compared with each other.",
 ["src/strf.cpp", I+"destination.hpp", D+"utf.hpp"], [("STRF_SEPARATE_COMPILATION explicit instantiations", "src/strf.cpp")],
 ["the trace of any driver"])

prop("C27", "The build configuration changes nothing that is printed",
 "The same calls give the same output, truncation, measured sizes and widths, and notifications in every supported configuration: C++14, C++17 and C++20, gcc and clang, with and without optimization, assertions, exceptions and RTTI, signed or unsigned char, hosted and STRF_FREESTANDING (with or without STRF_WITH_CSTRING); and wchar_t behaves as char32_t or char16_t according to its size.",
 ["configurations", "inputs"], "all calls available in both of any two configurations",
 "The unit tests are run in one configuration only, and sample inputs.",
 [D+"standard_lib_functions.hpp", D+"strf_def.hpp", I+"destination.hpp"],
 [("#if alternatives (__cpp_*, STRF_FREESTANDING, STRF_WITH_CSTRING, NDEBUG)", D+"standard_lib_functions.hpp")],
 ["the trace of drv_conf in each build"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
